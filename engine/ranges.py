"""Inserting, assigning and constructing from ranges, iterator pairs and lists of pairs."""
from worlds import *


class RangeArgs:
    """ranges of up to `most` pairs; every key may be new, stored already or that of an earlier pair"""
    most = 2

    def pick_key(self):
        I = self.I
        cl = [e.cls for it in self.g.items for e in it] if self.g is not None else []
        prev = [k for k in dict.fromkeys(k for k, v in self.given) if k not in cl]
        i = I.choose(1 + len(cl) + len(prev), 'key of a pair: new / stored / repeated')
        if i == 0:
            return Cls(True, 1)
        if i <= len(cl):
            return I.H.extract(cl[i - 1], 'mid')
        return prev[i - 1 - len(cl)]

    def make_range(self, p, const):
        I, W = self.I, self.W
        P = W.P
        t = P.types[P.strip(p['t'])]
        rec = t['r']
        prec = P.trec(P.targ(rec, 0))
        n = I.choose(self.most + 1, 'length of the range')
        self.given = []
        self.pairs = []
        s = SeqC('vector')
        for i in range(n):
            k = self.pick_key()
            v = Sym('o', 'v')
            o = I.new_obj(prec)
            for f in P.recs[prec]['fields']:
                x = W.obj('vf::K', k) if f['n'] == 'first' else W.obj('vf::V', v)
                I.adopt(o, f['id'], x)
                if f['n'] == 'first':
                    ko = x
                else:
                    vo = x
            self.given.append((k, v))
            self.pairs.append((ko, vo))
            s.items.append([I.H.new_elem(Cls(True, 1), s, o)])
        if P.rq(rec) == 'std::vector':
            r = Obj(rec)
            r.n = s
            s.owner = r
        else:
            b = Obj(None)
            b.n = s
            s.owner = b
            r = Obj(rec)
            r.n = ('il', b)
            self.back = b
        self.rng = s
        self.rngobj = r
        return r

    def witness(self):
        """the identities of the pairs have to survive joins"""
        W = self.W
        self.wit = [(W.obj('vf::K', k), W.obj('vf::V', v)) for k, v in self.given]
        self.I.S.roots['y'] = [self.rngobj] + [x for kv in self.pairs + self.wit for x in kv]

    def step(self, k, v):
        """one insertion on the expected state; is the key new?"""
        I = self.I
        if I.numeq(self.capwant, 0):
            return False
        e = self.gelem(k)
        if e is not None:
            e.obj.f['val'] = v
            if self.W.timed:
                e.obj.f['time'] = I.S.now
            self.g_back(k)
            return False
        if not I.ge(sub(self.capwant, add(self.g_len(), 1))):
            p = I.H.begin(self.g)
            self.lru = p.e.cls
            self.g_remove(self.lru)
        self.g_add(k, v)
        k.marks['fresh'] = 1
        return True

    def steps(self):
        n = 0
        self.given = [(k.n, v.n) for k, v in self.wit]
        for k, v in self.given:
            n += self.step(k, v)
        self.intact(n)
        return n

    def intact(self, news):
        r = 'rrange' in self.op.name
        if not r:
            if [x[0].obj for x in self.rng.items] != [ko.par for ko, vo in self.pairs]:
                self.fail('args', 'a range passed as lvalue was changed')
            for (k, v), (ko, vo) in zip(self.given, self.pairs):
                if ko.n is not k or vo.n is not v:
                    self.fail('args', 'a pair of a range passed as lvalue was modified or moved from')
        elif news == len(self.given):
            for kind in ('key', 'value'):
                if kind in self.I.copies:
                    self.fail('copies', 'a %s is copied from an rvalue range' % kind)


class RangeRun(RangeArgs, Run):
    def make_args(self):
        W, I = self.W, self.I
        self.key = self.val = self.num = self.sarg = None
        out = []
        for t, p in zip(self.op.args, W.fn(self.op.name).params):
            if t == 'c':
                out.append(I.S.roots['c'])
            elif t == 'o':
                o = W.obj('vf::Obs')
                for f in W.P.recs[o.rec]['fields']:
                    o.f[f['id']] = UNINIT
                self.obs = o
                out.append(o)
            else:
                out.append(self.make_range(p, t == 'rc'))
        self.witness()
        if self.op.name.startswith('assign'):
            n = len(self.given)
            if not I.ge(sub(self.cap, n)):
                self.capwant = n
        return out


def s_range(x):
    x.no_exc()
    if x.exc:
        return
    if x.op.name.startswith('assign'):
        for it in list(x.g.items):
            for e in it:
                e.cls.elems = [y for y in e.cls.elems if y is not e]
                e.cls.marks['fresh'] = 1
        x.g.items = []
    n = x.steps()
    if not x.op.name.startswith('assign'):
        x.want_num('n', n, 'the number of new keys')


class RangeMake(RangeArgs, Make):
    g = None

    def make_arg(self, p, i):
        W = self.W
        P = W.P
        ty = P.types[P.strip(p['t'])]
        if ty['k'] == 'rec' and P.rq(ty['r']) in ('std::vector', 'std::initializer_list'):
            r = self.make_range(p, False)
            self.witness()
            return r
        return Make.make_arg(self, p, i)

    def expect(self, a):
        if 'nocap' in self.op.name and not self.I.S.poly.entails(sub(self.capwant, len(self.given))):
            self.fail('cap', 'the capacity is smaller than the number of pairs')
            self.stop = True
            return
        self.g = ghost_seq()
        self.I.S.roots['ghost'] = self.g
        b = MapC()
        b.owner = Obj(None)
        b.owner.n = b
        self.I.S.roots['gone'] = self.gone = b
        self.check_old = False
        self.steps()
        compare(self, a, self.g)


RUNNERS['range'] = RangeRun
RUNNERS['rmake'] = RangeMake
INRANGE = ['insert_iter', 'insert_lrange', 'insert_crange', 'insert_rrange', 'insert_list']
ASRANGE = ['assign_lrange', 'assign_crange', 'assign_rrange', 'assign_list']
MKRANGE = ['make_iter', 'make_iter_nocap', 'make_crange', 'make_lrange', 'make_rrange', 'make_crange_nocap', 'make_lrange_nocap',
           'make_rrange_nocap', 'make_list', 'make_list_nocap']
for nm in INRANGE + ASRANGE:
    op(nm, 'c r o', s_range, 'range')
for nm in MKRANGE:
    op(nm, '', None, 'make')


def ranges(self, wk, ops):
    F = self.seed(wk)
    core = ['insert', 'find', 'erase', 'shrink']
    F.run(core)
    n = len(F.order)
    S = State(Poly())
    if fix.W_[wk][0].timed:
        S.now = fresh('r', 'now')
    b = dumps(S)
    st = State0()
    st.no, st.hist = -1, ()
    mk = [o for o in ops if OPS[o].kind == 'make']
    for m, r in zip(mk, F.map([(wk, b, None, None, m, 'rmake', {'most': 3}) for m in mk])):
        F.record(st, m, r)
        for res in r[0]:
            if 'shape' in res:
                F.add(res, (m,))
    st0 = list(F.order[:n])
    rg = [o for o in ops if OPS[o].kind == 'range']
    for most in (2, 3):
        big = lambda s, o: s.no < n and (most == 2) != (self.tier == 'thorough' or s.info[1] < 2)
        F.run(rg, runner='range', opts={'most': most}, pick=big)
    F.run(core + ['contains'])
    return F


Lab.ranges = ranges
