"""Statistics objects alone: every operation on an arbitrary consistent statistics object."""
from wraps import *

KEYED = ('monitor', 'unmonitor', 'reset_key', 'is_monitoring', 'hits_for', 'misses_for', 'accesses_for', 'stats_for', 'index')


class StatRun(Run):
    def run(self):
        I = self.I
        I.reset()
        I.S.roots['hold'] = {}
        self.exc = None
        self.stop = False
        self.key = None
        try:
            self.body()
        except Bug as b:
            return self.bug(b)
        return self.done(False)

    def tag(self):
        return ''

    def sizes(self, st):
        r = self.observe('st_sizes', [st])
        return r['n'], r['b']

    def fill(self, st, e):
        """arbitrary counts for one monitored key"""
        I = self.I
        out = []
        for o in owned_of(e.obj):
            if o.rec is not None and NATIVE_RECS.get(self.W.P.rq(o.rec)) is not None:
                continue
            for k in sorted(o.f, key=str):
                if isnum(o.f[k]) and type(o.f[k]) is not bool:
                    o.f[k] = x = fresh('n', 'count')
                    out += list(syms(x))
        return out

    def arbitrary(self, name):
        """a statistics object with any content: the key of the operation, another key, any number of others"""
        W, I = self.W, self.I
        p = I.S.poly
        st = I.call(W.fn('make'), None, [])
        I.S.roots[name] = st
        m = None
        for cls, given in ((self.k, True), (self.j, True), (Cls(True, 1), False)):
            if cls is None:
                continue
            if I.choose(2, '%s: %s' % (name, 'key monitored' if given else 'further keys monitored')) == 0:
                continue
            k = W.obj('vf::K', cls)
            I.quiet_count(lambda: I.call(W.fn('monitor'), None, [st, k, W.obj('vf::Obs')]))
            es = [e for o in owned_of(st) if isinstance(o.n, MapC) for e in o.n.ents if e.cls is cls]
            if len(es) != 1:
                raise Unsupported('the monitored keys are not kept in one index')
            f = self.fill(st, es[0])
            if given:
                h, ms, a = self.per(st, cls)
                if not (p.addc(h) and p.addc(ms) and p.addc(a) and p.assume_eq(sub(a, add(h, ms)))):
                    raise Infeasible()
            else:
                cls.single = False
                cls.len = fresh('n', 'others')
                if not p.addc(sub(cls.len, 1)):
                    raise Infeasible()
                cls.priv = set(f)
        for o in owned_of(st):
            if isinstance(o.n, MapC) or o.rec is not None and NATIVE_RECS.get(W.P.rq(o.rec)) is not None:
                continue
            if o.par is not None and elem_of(o) is not None:
                continue
            for k in sorted(o.f, key=str):
                if isnum(o.f[k]) and type(o.f[k]) is not bool:
                    o.f[k] = fresh('n', 't')
        a, h, ms = self.totals(st)
        if not (p.addc(h) and p.addc(ms) and p.addc(a) and p.assume_eq(sub(a, add(h, ms)))):
            raise Infeasible()
        return st

    def per(self, st, cls):
        return self.per_key(st, cls)

    def keep(self, name, d):
        """expected values that have to survive joins inside the operation"""
        o = Obj(None)
        for k, v in d.items():
            if isinstance(v, list):
                for i, x in enumerate(v):
                    o.f['%s%d' % (k, i)] = x
            elif v is not None:
                o.f[k] = v
        self.I.S.roots[name] = o

    def kept(self, name):
        o = self.I.S.roots[name]
        return {k: [o.f['%s%d' % (k, i)] for i in range(3)] if k + '0' in o.f else o.f.get(k) for k in ('tot', 'k', 'j', 'n')}

    def snap(self, st):
        n, any_ = self.sizes(st)
        return {'tot': self.totals(st), 'k': self.per(st, self.k) if self.k is not None else None, 'j': self.per(st, self.j), 'n': n}

    def same(self, a, b):
        return len(a) == len(b) and all(eqz(self.I, sub(x, y)) for x, y in zip(a, b))

    def judge(self, st, want, who=''):
        I = self.I
        got = self.snap(st)
        if not self.same(got['tot'], want['tot']):
            self.fail('totals', who + 'the totals are wrong')
        if not eqz(I, sub(got['tot'][0], add(got['tot'][1], got['tot'][2]))):
            self.fail('totals', who + 'accesses differ from hits plus misses')
        for x, nm in (('k', 'the key'), ('j', 'another key')):
            g, w = got[x], want[x]
            if (g is None) is not (w is None):
                self.fail('result', '%s%s is %s' % (who, nm, 'no longer monitored' if g is None else 'monitored although it must not be'))
            elif g is not None:
                if not self.same(g, w):
                    self.fail('result', '%sthe counts of %s are wrong' % (who, nm))
                if not eqz(I, sub(g[2], add(g[0], g[1]))):
                    self.fail('totals', who + 'the accesses of a key differ from its hits plus misses')
        if not eqz(I, sub(got['n'], want['n'])):
            self.fail('result', who + 'the number of monitored keys is wrong')
        n, any_ = self.sizes(st)
        if any_ is I.numeq(n, 0):
            self.fail('result', who + 'is_monitoring_keys() disagrees with the number of monitored keys')

    def obs_arg(self):
        o = self.W.obj('vf::Obs')
        for f in self.W.P.recs[o.rec]['fields']:
            o.f[f['id']] = UNINIT
        self.obs = o
        return o

    def invoke(self, args):
        I = self.I
        I.S.roots['x'] = list(args)
        r = None
        try:
            r = I.call(self.W.fn(self.op.name[3:]), None, args)
        except CppThrow as t:
            self.exc = t.name
        if hasattr(self, 'wit'):
            if self.wit[0] is not None:
                self.k = self.wit[0].n
            self.j = self.wit[1].n
        return r

    def body(self):
        W, I, nm = self.W, self.I, self.op.name[3:]
        if nm.startswith('ks_'):
            return self.counts(nm)
        self.j = Cls(True, 1)
        self.k = Cls(True, 1) if nm in KEYED else None
        self.wit = [W.obj('vf::K', c) if c is not None else None for c in (self.k, self.j)]
        I.S.roots['y2'] = [w for w in self.wit if w is not None]
        if nm.startswith('make'):
            return self.construct(nm)
        st = self.arbitrary('c')
        pre = self.snap(st)
        self.keep('pre', pre)
        if nm in KEYED:
            ko = W.obj('vf::K', self.k)
            self.invoke([st, ko, self.obs_arg()])
            pre = self.kept('pre')
            want = dict(pre)
            o = self.fields(self.obs)
            if ko.n is not self.k:
                self.fail('result', 'the key passed is modified')
            absent = pre['k'] is None
            if nm in ('monitor', 'is_monitoring'):
                self.no_exc()
                if nm == 'monitor' and absent:
                    want['k'] = [0, 0, 0]
                    want['n'] = add(pre['n'], 1)
                if nm == 'is_monitoring' and o['b'] is not (not absent):
                    self.fail('result', 'is_monitoring() is wrong')
            elif absent:
                self.want_exc('UnmonitoredKey')
            else:
                self.no_exc()
                if nm == 'unmonitor':
                    want['k'] = None
                    want['n'] = sub(pre['n'], 1)
                elif nm == 'reset_key':
                    want['k'] = [0, 0, 0]
                else:
                    for f, v, q in zip(('n', 'n2', 'n3'), pre['k'], ('hits_for', 'misses_for', 'accesses_for')):
                        if nm in ('stats_for', 'index', q) and not self.exc:
                            if not isnum(o[f]) or not eqz(I, sub(o[f], v)):
                                self.fail('result', 'the count returned is wrong')
            return self.judge(st, want)
        if nm in ('unmonitor_all', 'reset_all', 'number', 'is_monitoring_keys'):
            self.invoke([st, self.obs_arg()])
            pre = self.kept('pre')
            want = dict(pre)
            self.no_exc()
            if nm == 'unmonitor_all':
                want['j'], want['n'] = None, 0
            elif nm == 'reset_all':
                want['j'] = [0, 0, 0] if pre['j'] is not None else None
            return self.judge(st, want)
        if nm in ('copy_construct', 'move_construct'):
            r = self.invoke([st])
            want = pre = self.kept('pre')
            self.no_exc()
            if self.exc:
                return
            I.S.roots['r'] = r
            self.judge(r, want, 'the new object: ')
            if nm == 'copy_construct':
                self.judge(st, pre, 'the original: ')
            return
        st2 = self.arbitrary('c2')
        self.keep('pre2', self.snap(st2))
        self.invoke([st, st2])
        pre, pre2 = self.kept('pre'), self.kept('pre2')
        self.no_exc()
        if nm in ('copy_assign', 'move_assign', 'swap'):
            self.judge(st, pre2, 'the target: ')
        if nm == 'copy_assign':
            self.judge(st2, pre2, 'the source: ')
        if nm == 'swap':
            self.judge(st2, pre, 'the other: ')

    def construct(self, nm):
        W, I = self.W, self.I
        n = {'make': 0, 'make_one': 1, 'make_c': 2, 'make_l': 2, 'make_r': 2}.get(nm)
        ps = W.fn(nm).params
        if n is None:
            n = I.choose(3, 'number of keys')
        ks = [Cls(True, 1)] if n else []
        if n == 2:
            ks.append(ks[0] if I.choose(2, 'keys: different / equal') == 1 else Cls(True, 1))
        objs = [W.obj('vf::K', k) for k in ks]
        if nm in ('make_list', 'make_range', 'make_iter'):
            rec = W.P.trec(ps[0]['t'])
            s = SeqC('vector')
            for o in objs:
                s.items.append([I.H.new_elem(Cls(True, 1), s, o)])
            r = Obj(rec)
            if W.P.rq(rec) == 'std::vector':
                r.n = s
                s.owner = r
            else:
                b = Obj(None)
                b.n = s
                s.owner = b
                r.n = ('il', b)
                I.S.roots['back'] = b
            args = [r]
        else:
            args = objs
        I.S.roots['y'] = objs
        st = self.invoke(args)
        self.no_exc()
        if self.exc:
            return
        I.S.roots['c'] = st
        if nm != 'make_r':
            for o, k in zip(objs, ks):
                if o.n is not k:
                    self.fail('result', 'a key passed as lvalue is modified')
        for i, k in enumerate(ks):
            self.k = k
            self.judge(st, {'tot': [0, 0, 0], 'k': [0, 0, 0], 'j': None, 'n': len(set(ks))})
        if not ks:
            self.judge(st, {'tot': [0, 0, 0], 'k': None, 'j': None, 'n': 0})

    def counts(self, nm):
        """the counters of one key"""
        W, I = self.W, self.I
        h, m = fresh('n', 'h'), fresh('n', 'm')
        if nm == 'ks_make':
            ks, want = self.invoke([]), [0, 0]
        else:
            old, self.op = self.op, OPS['so_ks_make2']
            ks, want = self.invoke([h, m]), [h, m]
            self.op = old
        self.no_exc()
        if self.exc:
            return
        I.S.roots['c'] = ks
        if nm == 'ks_reset':
            self.invoke([ks])
            self.no_exc()
            want = [0, 0]
        r = self.observe('ks_read', [ks])
        if not self.same([r['n'], r['n2'], r['n3']], want + [add(*want)]):
            self.fail('result', 'the counts are wrong')


RUNNERS['statobj'] = StatRun
STATOBJ = ['make', 'make_one', 'make_c', 'make_l', 'make_r', 'make_list', 'make_range', 'make_iter'] + list(KEYED) + [
    'unmonitor_all', 'reset_all', 'number', 'is_monitoring_keys', 'copy_construct', 'move_construct', 'copy_assign', 'move_assign', 'swap',
    'ks_make', 'ks_make2', 'ks_reset']
SO = ['so_' + x for x in STATOBJ]

for nm in SO:
    op(nm, '', None, 'statobj', const1=False)


def statobj(self, wk, ops):
    F = Fix(wk, self.pool, self.log)
    st = State0()
    st.no, st.hist = -1, ()
    b = dumps(State(Poly()))
    tasks = [(wk, b, None, None, o, 'statobj', {}) for o in ops]
    for t, r in zip(tasks, self.pool.map(do_task_safe, tasks, 1) if self.pool is not None else map(do_task_safe, tasks)):
        F.record(st, t[4], r)
    return F

Lab.statobj = statobj
