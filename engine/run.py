"""Running one operation from one abstract state, and judging the outcome."""
from spec import *

KIND_REC = {'k': ('vf::K', 0), 'kc': ('vf::K', 0), 'kr': ('vf::K', 0), 'x': ('vf::X', 0), 'xr': ('vf::X', 0),
            'v': ('vf::V', 1), 'vc': ('vf::V', 1), 'vr': ('vf::V', 1), 'y': ('vf::Y', 1), 'yr': ('vf::Y', 1)}
CBREC = {'vf::FH': 'hit', 'vf::FM': 'miss', 'vf::FA': 'access'}


def held(name):
    """a number (or class) of the operation that has to survive joins at loop heads"""
    def get(self):
        return self.I.S.roots['hold'].get(name)

    def put(self, v):
        self.I.S.roots['hold'][name] = v
    return property(get, put)


class Run(Ctx):
    check_old = True
    cap = held('cap')
    ttl = held('ttl')
    capwant = held('capwant')
    num = held('num')
    key = held('key')
    val = held('val')
    tot = held('tot')
    pk = held('pk')
    ttlwant = held('ttlwant')

    # ------------------------------------------------------------ expectations
    def want(self, f, v, what=None):
        if self.exc:
            return
        g = self.o[f]
        if g is UNINIT:
            self.fail('result', '%s gives no answer' % (what or self.op.name))
            return
        if isinstance(g, (int, bool)):
            g = bool(g)
        if g is not v:
            self.fail('result', '%s is %s, expected %s' % (what or {'b': 'the answer', 'b2': 'the second answer', 'end': 'the end test'}.get(f, f), g, v))

    def want_num(self, f, v, what):
        if self.exc:
            return
        g = self.o[f]
        if g is UNINIT or not eqz(self.I, sub(g, v)):
            self.fail('result', '%s is wrong' % what)

    def want_it(self, cls):
        if self.exc:
            return
        if cls is None:
            self.want('end', True, 'comparison with the end')
            return
        self.want('end', False, 'comparison with the end')
        if self.o['end'] is True:
            return
        self.want_key(cls)
        self.want_val(cls)

    def want_key(self, cls):
        if self.exc:
            return
        p = self.o['key']
        k = p.t if type(p) is Ptr else None
        if type(k) is not Obj or not k.alive or k.n is not cls:
            self.fail('result', 'the result denotes a wrong key')
            return
        e = elem_of(k)
        if e is None or e.cont not in (self.post.main, self.post.order):
            self.fail('result', 'the result refers to a key outside of the cache')

    def want_val(self, cls):
        if self.exc:
            return
        p = self.o['val']
        v = p.t if type(p) is Ptr else None
        m = self.post.has(cls)
        if m is None:
            return
        k, mv, t = self.post.parts(m)
        if v is not mv:
            self.fail('result', 'the result is not the value stored for the key')

    def want_ptr(self, t):
        if self.exc:
            return
        p = self.o['p']
        if type(p) is not Ptr or p.t is not t:
            self.fail('result', 'the statistics object is not the one supplied')

    def no_exc(self):
        if self.exc:
            self.fail('exc', 'throws %s although it must succeed' % self.exc)

    def want_exc(self, *names):
        if self.exc is None:
            self.fail('noexc', 'returns although it must throw %s' % ' or '.join(names))
        elif self.exc.split('::')[-1] not in names:
            self.fail('exc', 'throws %s instead of %s' % (self.exc, ' or '.join(names)))

    # ------------------------------------------------------------ arguments
    def choose_key(self):
        I = self.I
        cl = []
        for it in self.g.items:
            for e in it:
                cl.append(e.cls)
        i = I.choose(len(cl) + 1, 'key of the call: new / stored')
        if i == 0:
            k = Cls(True, 1)
        else:
            k = I.H.extract(cl[i - 1], 'mid')
        return k

    def choose_stored(self, what):
        cl = [e.cls for it in self.g.items for e in it]
        if not cl:
            raise Infeasible()
        return self.I.H.extract(cl[self.I.choose(len(cl), what)], 'mid')

    def make_args(self):
        W, I = self.W, self.I
        S = I.S
        self.key = None
        self.val = None
        self.num = None
        self.sarg = None
        self.args_given = []
        out = []
        for t in self.op.args:
            if t == 'c':
                out.append(S.roots['c'])
            elif t == 'o':
                o = W.obj('vf::Obs')
                for f in W.P.recs[o.rec]['fields']:
                    o.f[f['id']] = UNINIT
                self.obs = o
                out.append(o)
            elif t == 'n':
                self.num = fresh('n', 'n')
                out.append(self.num)
            elif t == 'h':
                out.append(W.obj('vf::H', '?'))
            elif t == 'e':
                out.append(W.obj('vf::E', '?'))
            elif t in KIND_REC:
                q, isv = KIND_REC[t]
                if isv:
                    self.val = Sym('o', 'v')
                    o = W.obj(q, self.val)
                    n = self.val
                else:
                    if self.key is None:
                        self.key = self.choose_key()
                    o = W.obj(q, self.key)
                    n = self.key
                self.args_given.append((t, o, n))
                out.append(o)
            elif t in ('ks', 'vs'):
                # the argument is a stored key or value itself
                if t == 'ks':
                    self.key = k = self.choose_stored('key of the call: a stored one')
                else:
                    k = self.choose_stored('value of the call: that of a stored key')
                a = Alpha(W, I, S.roots['c'])
                ko, vo, _ = a.parts(a.has(k))
                if t == 'vs':
                    self.val = vo.n
                out.append(ko if t == 'ks' else vo)
            elif t == 'y2':
                out.append(W.obj('vf::Y', Sym('o', 'v')))
            elif t == 'yr2':      # second constructor argument of the key
                out.append(W.obj('vf::Y', Sym('o', 'v')))
            elif t == 'xr2':      # first constructor argument of the value
                self.val = Sym('o', 'v')
                out.append(W.obj('vf::X', self.val))
            elif t == 's':
                o = self.make_stats()
                out.append(o)
            elif t[0] in 'fg' and len(t) == 2:
                q = {'h': 'vf::FH', 'm': 'vf::FM', 'a': 'vf::FA'}[t[1]]
                f = W.obj(q, 'f')
                if t[0] == 'g':
                    r = W.P.trec(W.fn(self.op.name).params[1]['t'])
                    fo = Obj(r)
                    f.par = fo
                    fo.n = f
                    f = fo
                out.append(f)
            else:
                raise Unsupported('argument kind ' + t)
        return out

    def make_stats(self):
        """a statistics object supplied by the client: the attached one again, or another one with any content"""
        W, I = self.W, self.I
        r = W.P.trec(W.fn('monitor_l').params[1]['t'])
        o = Obj(r)
        if self.stats_pre is not None and I.choose(2, 'statistics object: another / the attached one') == 1:
            o.n = self.stats_pre
            self.sarg = o.n
            return o
        st = I.new_obj(W.rec('LRU::Statistics'))
        I.default_construct(st, st.rec)
        self.any_stats(st)
        o.n = st
        self.sarg = st
        return o

    def loosen(self, m):
        """the content of the map may be anything"""
        for e in m.ents:
            e.alive = False
            e.cls.elems = [x for x in e.cls.elems if x is not e]
        m.ents = []
        m.loose = True

    def any_stats(self, st):
        """any consistent content: what a statistics object holds may have been recorded elsewhere as well"""
        I = self.I
        for o in owned_of(st):
            if isinstance(o.n, MapC):
                self.loosen(o.n)
            if o.rec is not None and NATIVE_RECS.get(self.W.P.rq(o.rec)) is not None:
                continue
            for k in sorted(o.f, key=str):
                if isnum(o.f[k]) and type(o.f[k]) is not bool:
                    o.f[k] = fresh('n', 't')
        a, h, m = self.totals(st)
        p = I.S.poly
        if not (p.assume_eq(sub(a, add(h, m))) and p.addc(h) and p.addc(m) and p.addc(a)):
            raise Infeasible()

    # ------------------------------------------------------------ observers
    def observe(self, fn, args):
        I, W = self.I, self.W
        o = W.obj('vf::Obs')
        for f in W.P.recs[o.rec]['fields']:
            o.f[f['id']] = UNINIT
        old, I.fault = I.fault, None
        I.quiet_count(lambda: I.call(W.fn(fn), None, args + [o]))
        I.fault = old
        return self.fields(o)

    def fields(self, o):
        return {self.W.P.fieldinfo[k][0]: v for k, v in o.f.items()}

    def read_stats(self, c):
        """(statistics object of the cache or None)"""
        r = self.observe('shared_stats_const', [c])
        p = r['p']
        return p.t if type(p) is Ptr else None

    def read_cbs(self, c):
        out = {'hit': [], 'miss': [], 'access': []}
        P = self.W.P
        self.cbseq = {}
        for o in owned_of(c):
            if isinstance(o.n, SeqC) and o.n.kind == 'vector':
                for it in o.n.items:
                    for e in it:
                        t = e.obj.n
                        k = CBREC.get(P.rq(t.rec)) if type(t) is Obj and t.rec is not None else None
                        if k is None:
                            raise Unsupported('callback container')
                        out[k].append([e for e in it])
                        break
        return out

    def ghost_cbs(self, c):
        out = {}
        for k, l in self.read_cbs(c).items():
            g = ghost_seq()
            for it in l:
                g.items.append([self.I.H.new_elem(e.cls, g, Obj(None)) for e in it])
            self.I.S.roots['gcb_' + k] = g
            out[k] = g
        return out

    def totals(self, st):
        r = self.observe('st_totals', [st])
        return [r['n'], r['n2'], r['n3']]

    def per_key(self, st, cls):
        k = self.W.obj('vf::K', cls)
        if not self.observe('st_has', [st, k])['b']:
            return None
        r = self.observe('st_key', [st, k])
        return [r['n'], r['n2'], r['n3']]

    # ------------------------------------------------------------ the operation
    def run(self):
        W, I, op = self.W, self.I, self.op
        S = I.S
        I.reset()
        self.begin()
        try:
            return self.body()
        except Bug as b:
            return self.bug(b)

    def bug(self, b):
            I = self.I
            w = I.path_desc()
            self.fail('bug' if b.kind != 'terminate' else 'terminate', '%s, in %s' % (b, '; '.join('%s:%d (%s)' % (f.split('/include/')[-1], l, q) for q, f, l in w[:3])))
            return self.done(False)

    def begin(self):
        I, W = self.I, self.W
        S = I.S
        S.roots['hold'] = {}
        self.lru = None
        self.inserted = None
        self.hit = None
        self.stop = False
        self.was_expired = False
        self.stored = False
        self.cbadd = None
        if W.timed:
            old = S.now
            S.now = fresh('r', 'now')
            if old is not None:
                S.poly.addc(sub(S.now, old))

    def body(self):
        W, I, op = self.W, self.I, self.op
        S = I.S
        c = S.roots['c']
        self.pre, self.g = self.build_ghost()
        self.cap = self.observe('sizes', [c])['n2'] if op.kind != 'make' else None
        self.ttl = self.pre.ttl
        self.capwant = self.cap
        self.stats_pre = self.read_stats(c)
        self.statswant = self.stats_pre
        if self.stats_pre is not None:
            self.any_stats(self.stats_pre)
        self.cb_pre = self.ghost_cbs(c)
        self.cbwant = dict(self.cb_pre)
        self.args = self.make_args()
        if self.key is not None:
            self.stored = self.gelem(self.key) is not None
            if self.stored:
                self.was_expired = self.expired(self.key)
        st = self.stats_pre
        if st is not None:
            self.tot = self.totals(st)
            self.pk = self.per_key(st, self.key) if self.key is not None else None
            self.has_pk = self.pk is not None
        if op.access:
            g = self.gelem(self.key)
            S.roots['cbspec'] = (self.key, g.obj.f['val'] if g is not None else None)
        S.roots['x'] = [a for a in self.args]
        self.call()
        self.o = self.fields(self.obs) if 'o' in op.args else {}
        self.post_check(c)
        return self.done(True)

    def call(self):
        I = self.I
        try:
            self.ret = I.call(self.W.fn(self.op.kw.get('fn', self.op.name)), None, self.args)
        except CppThrow as t:
            self.exc = t.name
            self.thrown = t

    def post_check(self, c):
        W, I, op = self.W, self.I, self.op
        S = I.S
        counts = list(I.counts)
        rehome(I, [a.order for a in [Alpha(W, I, c)]])
        a = self.post = Alpha(W, I, c)
        bad = a.sync()
        for b in bad:
            self.fail('sync', b)
        if bad:
            self.stop = True
            return
        op.spec(self)
        if self.stop:
            return
        if not compare(self, a, self.g):
            self.stop = True
            return
        self.general(c, a)
        if self.stats_pre is not None or op.kind == 'monitor':
            self.check_stats()
        self.check_cbs(c)
        if op.const1:
            walks = len([1 for k, s in counts if k == 'walk' and (s is a.main or s is a.order)])
            if walks > 2:
                self.fail('walk', 'walks over the stored keys')
            hashes = len([1 for k, s in counts if k == 'hash' and s is a.main])
            if hashes > 8:
                self.fail('walk', 'the number of hash table operations is not fixed')
        for kind, ident in sorted(I.functors):
            if kind == 'op':
                if not op.kw.get('cmp'):
                    self.fail('hash', 'operator== of the key type is used instead of the equality function')
            elif ident != {'hash': 'h', 'eq': 'e'}.get(kind, ident):
                self.fail('hash', 'a %s function object other than the one supplied is used' % kind)

    def general(self, c, a):
        I = self.I
        S = I.S
        r = self.observe('sizes', [c])
        n = I.H.map_len(a.main)
        if not eqz(I, sub(r['n2'], self.capwant)):
            self.fail('cap', 'the capacity is wrong')
        if not eqz(I, sub(r['n'], n)):
            self.fail('sizes', 'size() differs from the number of stored keys')
        if not eqz(I, sub(r['n3'], sub(r['n2'], n))):
            self.fail('sizes', 'space_left() is not the difference of capacity and size')
        if r['b'] is not I.numeq(n, r['n2']):
            self.fail('sizes', 'is_full() is wrong')
        if r['b2'] is not I.numeq(n, 0):
            self.fail('sizes', 'is_empty() is wrong')
        if not S.poly.entails(sub(r['n2'], n)):
            self.fail('size', 'more keys are stored than the capacity allows')
            self.stop = True
        if a.hash != 'h' or a.eq != 'e':
            self.fail('hash', 'the key index does not use the hash and equality functions supplied')
        if self.W.timed and not eqz(I, sub(a.ttl, self.ttl)):
            self.fail('ttl', 'the time to live of the cache changed')

    def check_stats(self):
        I, op = self.I, self.op
        st = self.read_stats(I.S.roots['c'])
        if self.statswant == 'new':
            if st is None or st is self.stats_pre:
                self.fail('stats', 'no statistics object of its own is attached')
                return
            if not all(eqz(I, v) for v in self.totals(st)):
                self.fail('stats', 'a new statistics object does not start with zero totals')
            if op.name == 'monitor_key':
                pk = self.per_key(st, self.key)
                if pk is None:
                    self.fail('stats', 'the key is not monitored')
                elif not all(eqz(I, v) for v in pk):
                    self.fail('stats', 'a newly monitored key has counts')
            return
        if st is not self.statswant:
            self.fail('stats', 'the attached statistics object is not the expected one')
            return
        st = self.stats_pre
        if st is None:
            return
        tot = self.totals(st)
        d = [sub(b, a) for a, b in zip(self.tot, tot)]
        want = (0, 0, 0)
        if op.access:
            want = (1, 1, 0) if self.hit else (1, 0, 1)
        for x, w, nm in zip(d, want, ('accesses', 'hits', 'misses')):
            if not eqz(I, sub(x, w)):
                self.fail('access', 'the total of %s does not change by %d' % (nm, w))
        if not eqz(I, sub(tot[0], add(tot[1], tot[2]))):
            self.fail('totals', 'accesses differ from hits plus misses')
        if self.key is not None:
            pk = self.per_key(st, self.key)
            if (pk is None) is not (self.pk is None):
                self.fail('totals', 'a key starts or stops being monitored')
            elif pk is not None:
                w = (0, 0, 0)
                if op.access:
                    w = (1, 0, 1) if self.hit else (0, 1, 1)
                for u, v, k in zip(pk, self.pk, w):
                    if not eqz(I, sub(sub(u, v), k)):
                        self.fail('access', 'the counts of the key do not change as its access requires')
                if not eqz(I, sub(pk[2], add(pk[0], pk[1]))):
                    self.fail('totals', 'the accesses of a key differ from its hits plus misses')

    def check_cbs(self, c):
        I, op = self.I, self.op
        now = self.read_cbs(c)
        for k in ('hit', 'miss', 'access'):
            A = [sorted(id(e.cls) for e in it) for it in now[k]]
            B = [sorted(id(e.cls) for e in it) for it in (self.cbwant[k].items if self.cbwant[k] else [])]
            if self.cbadd == k:
                if len(A) != len(B) + 1 or A[:-1] != B:
                    self.fail('cbs', 'the %s callback is not registered as the last one' % k)
            elif A != B:
                self.fail('cbs', 'the registered %s callbacks change' % k)
            exp = None
            if op.access and (k == 'access' or (k == 'hit') is bool(self.hit)):
                exp = 'once'
            for it in now[k]:
                for e in it:
                    if e.cls.marks.get('calls') != exp:
                        self.fail('cb', 'a %s callback is called %s' % (k, e.cls.marks.get('calls') or 'not at all'))
        for e in I.events:
            if e[0] != 'cb':
                continue
            if e[2] in ('foreign', 'unexpected', 'order'):
                self.fail('cb', {'foreign': 'a callback is called that is not registered', 'unexpected': 'a callback is called',
                                 'order': 'callbacks are not called in registration order, once each'}[e[2]])
                continue
            if e[3]:
                self.fail('cb', 'a %s callback is called with%s' % (e[1], e[3]))
            if e[2] is not bool(self.hit):
                self.fail('cb', 'a %s callback reports the wrong outcome' % e[1])

    # ------------------------------------------------------------ end of the operation
    def done(self, ok):
        I = self.I
        S = I.S
        blocked = bool(self.fails)
        if S.roots.get('hold', {}).get('unsteady'):
            self.fail('clock', 'time is measured on a clock that is not steady')
        res = {'op': self.op.name, 'fails': self.fails, 'tag': self.tag(), 'trace': list(I.trace), 'exc': self.exc}
        if not ok or self.stop or blocked or self.op.kw.get('leaf'):
            return res
        self.strip()
        cn = Canon(I)
        shape = cn.run()
        res['shape'] = shape
        res['cons'] = cn.rename()
        res['kinds'] = tuple(s.kind for s in cn.slots)
        res['sizes'] = cn.sizes()
        res['info'] = self.info()
        cn.apply(res['cons'])
        res['blob'] = dumps(S)
        return res

    def info(self):
        """(callback containers in use, classes of keys): how costly the state is"""
        c = self.I.S.roots.get('c')
        v = n = 0
        for o in owned_of(c) if type(c) is Obj else ():
            if isinstance(o.n, SeqC):
                if o.n.kind == 'vector':
                    v += bool(o.n.items)
                else:
                    n += sum(1 if e.cls.single else 2 for it in o.n.items for e in it)
        return v, n

    KEEP = ('c', 'c2', 'it', 'it2')

    def strip(self):
        """forget everything that does not persist between operations"""
        S = self.I.S
        for k in list(S.roots):
            if k not in self.KEEP:
                g = S.roots.pop(k)
        conts = set()
        todo = [S.roots[k] for k in S.roots if type(S.roots[k]) is Obj]
        seen = set()
        for o in todo:
            for p in owned_of(o):
                if isinstance(p.n, (SeqC, MapC)):
                    conts.add(p.n)
        for o in todo:
            for p in owned_of(o):
                st = p.n
                if type(st) is Obj and st.par is None and self.W.P.rq(st.rec) == 'LRU::Statistics':
                    for q in owned_of(st):
                        if isinstance(q.n, MapC):
                            self.loosen(q.n)
                        elif q.rec is not None and NATIVE_RECS.get(self.W.P.rq(q.rec)) is None:
                            for k in q.f:
                                if isnum(q.f[k]) and type(q.f[k]) is not bool:
                                    q.f[k] = 0
        for k in conts:
            es = k.ents if isinstance(k, MapC) else [e for it in k.items for e in it]
            for e in es:
                e.old = False
                e.cls.marks = {}
                e.cls.vis = set()
            if isinstance(k, MapC):
                k.first = None
                k.succ = []
        # relations between points in time other than "not in the future" are not kept
