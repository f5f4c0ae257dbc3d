"""Worlds: abstract states of a cache (with statistics, callbacks, iterators, a second cache), the reading of
such a state as keys / values / order / times, the ghost model, and the running of one public operation."""
from explore import *


class VI(Interp):
    """Interpreter that records what the properties talk about."""

    def reset(self):
        self.copies = []       # (kind) copies of keys and values
        self.moves = []
        self.functors = set()
        self.cbspec = None
        self.path = []

    def note_copy(self, kind, src):
        self.copies.append(kind)

    def note_move(self, kind, src):
        self.moves.append((kind, src))

    def used_functor(self, kind, ident):
        self.functors.add((kind, ident if isinstance(ident, str) else repr(ident)))

    def event(self, e):
        if e not in self.events:
            self.events.append(e)

    def callback(self, kind, fn, args):
        e = elem_of(fn)
        if e is None:
            self.event(('cb', kind, 'foreign'))
            return
        c = e.cls
        if not c.single:
            raise Unsupported('call of a summarised callback')
        s = e.cont
        i = self.H.item_index(s, e)
        if i is not None:
            for j, it in enumerate(s.items):
                for x in it:
                    n = x.cls.marks.get('calls')
                    if j < i and n is None or j > i and n is not None:
                        self.event(('cb', kind, 'order'))
        c.marks['calls'] = 'once' if c.marks.get('calls') is None else 'more than once'
        k = args[0]
        NATIVE_RECS['vf::K'].chk(self, k, 'callback argument')
        sp = self.S.roots.get('cbspec')
        if sp is None:
            self.event(('cb', kind, 'unexpected'))
            return
        kc, v = sp
        bad = ''
        if k.n is not kc:
            bad += ' wrong key'
        flag = None
        if kind == 'hit':
            NATIVE_RECS['vf::V'].chk(self, args[1], 'callback argument')
            if args[1].n is not v:
                bad += ' wrong value'
            flag = True
        elif kind == 'access':
            a = args[1]
            flag = self.load(a) if type(a) is LRef else a
        elif kind == 'miss':
            flag = False
        self.event(('cb', kind, flag, bad))


class Alpha:
    """What a cache object holds, read off the abstract heap by type."""

    def __init__(self, W, I, c):
        self.W = W
        self.obj = c
        P = W.P
        self.main = self.order = None
        self.ttl = None
        self.maps = []
        self.lists = []
        self.fns = {}
        own = []
        I.check_alive(c, 'cache')
        for o in owned_of(c):
            if o.rec is None:
                continue
            q = P.rq(o.rec)
            if q == 'std::unordered_map' and isinstance(o.n, MapC) and P.rq(P.trec(P.targ(o.rec, 0))) in ('vf::K', 'std::tuple'):
                self.maps.append(o)
            elif q == 'std::list' and isinstance(o.n, SeqC):
                self.lists.append(o)
            elif q == 'std::chrono::duration' and o.par is not None and P.rq(o.par.rec if o.par.rec is not None else 0) != 'std::chrono::time_point':
                self.ttl = W.dur(I, o)
        if len(self.maps) != 1 or len(self.lists) != 1:
            raise Unsupported('the cache does not consist of one map and one list')
        self.mapobj = self.maps[0]
        self.main = self.mapobj.n
        self.order = self.lists[0].n
        self.hash = self.main.hash
        self.eq = self.main.eq

    def parts(self, e):
        """(key object, value object, time) of a map element"""
        P = self.W.P
        k = v = t = None
        for o in owned_of(e.obj):
            if o.rec is None:
                continue
            q = P.rq(o.rec)
            if q == 'vf::K' and k is None:
                k = o
            elif q == 'vf::V' and v is None:
                v = o
            elif q == 'std::chrono::time_point' and t is None:
                for d in owned_of(o):
                    if d.rec is not None and P.rq(d.rec) == 'std::chrono::duration':
                        t = self.W.dur(None, d)
        return k, v, t

    def lkey(self, e):
        """key object an order element stands for"""
        P = self.W.P
        k = key_in(P, e.obj)
        if k is not None:
            return k
        for o in owned_of(e.obj):
            for v in list(o.f.values()) + [o.n]:
                if type(v) in (Ptr, Ref) and type(v.t) is Obj:
                    k = key_in(P, v.t)
                    if k is not None:
                        return k
        return None

    def items(self):
        """order as a list of sets of classes; problems are reported through self.bad"""
        out = []
        for it in self.order.items:
            out.append([e.cls for e in it])
        return out

    def sync(self):
        """problems with the correspondence of index and order"""
        bad = []
        seen = {}
        for it in self.order.items:
            for e in it:
                k = self.lkey(e)
                if k is None:
                    bad.append('an order entry refers to no key')
                    continue
                if not k.alive:
                    bad.append('an order entry refers to a key that no longer exists')
                    continue
                m = elem_of(k)
                if m is None or m.cont is not self.main:
                    if k.rec is not None and type(k.n) is Cls and self.has(k.n):
                        m = self.has(k.n)
                    else:
                        bad.append('an order entry refers to a key outside the index')
                        continue
                if m.cls is not e.cls:
                    bad.append('an order entry refers to a different key than its position stands for')
                    continue
                seen[id(m)] = seen.get(id(m), 0) + 1
        for m in self.main.ents:
            n = seen.get(id(m), 0)
            if n == 0:
                bad.append('a stored key has no place in the order')
            elif n > 1:
                bad.append('a stored key occurs twice in the order')
            k, v, t = self.parts(m)
            if k is None or k.n is not m.cls:
                bad.append('a stored key was changed')
        return bad

    def has(self, cls):
        for e in self.main.ents:
            if e.cls is cls and e.alive:
                return e
        return None


def rehome(I, seqs):
    for s in seqs:
        for it in s.items:
            for i, e in enumerate(it):
                if not e.cls.single or not e.alive:
                    continue
                c = I.home_class(e.obj, s)
                if c is not None and c is not e.cls and len(it) == 1:
                    e.cls.elems = [x for x in e.cls.elems if x is not e]
                    e.cls = c
                    c.elems.append(e)


class World:
    def __init__(self, path, ns):
        self.P = Prog(path)
        self.ns = ns
        self.timed = ns in ('t', 'x')
        self._rec = {}
        self._fn = {}

    def rec(self, q):
        r = self._rec.get(q)
        if r is None:
            for i, x in enumerate(self.P.recs):
                if x['q'] == q:
                    self._rec[q] = r = i
                    break
            else:
                raise Unsupported('record %s is not part of the program' % q)
        return r

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            l = self.P.by_q.get('drv::%s::%s' % (self.ns, name))
            if not l:
                raise Unsupported('no client function %s' % name)
            self._fn[name] = f = l[0]
        return f

    def obj(self, q, n=None):
        o = Obj(self.rec(q))
        o.n = n
        return o

    def dur(self, I, o):
        """a duration as nanoseconds"""
        P = self.P
        f = P.recs[o.rec]['fields'][0]['id']
        v = o.f.get(f, UNINIT)
        if v is UNINIT:
            return UNINIT
        ra = P.recs[o.rec]['ta'][1]
        r = P.recs[P.types[ra['t']]['r']]['ta']
        return scale(v, Fraction(r[0]['v'] * 10 ** 9, r[1]['v']))

    def mkdur(self, q_rec, v):
        o = Obj(q_rec)
        o.f[self.P.recs[q_rec]['fields'][0]['id']] = v
        return o


class Ctx:
    """One operation in progress."""

    def __init__(self, W, I, op):
        self.W = W
        self.I = I
        self.op = op
        self.fails = []
        self.exc = None
        self.ret = None
        self.o = None
        I.S.roots['hold'] = {}

    def fail(self, aspect, msg):
        if (aspect, msg) not in self.fails:
            self.fails.append((aspect, msg))

    def tag(self):
        t = []
        if getattr(self, 'lru', None) is not None:
            t.append('evict')
        if getattr(self, 'was_expired', False):
            t.append('expired')
        elif self.W.timed and getattr(self, 'stored', False):
            t.append('fresh')
        return ' '.join(t)

    # ---------------------------------------------------------------- ghost
    def build_ghost(self, c='c', name='ghost'):
        I = self.I
        W = self.W
        a = Alpha(W, I, I.S.roots[c])
        g = ghost_seq()
        for it in a.order.items:
            new = []
            for e in it:
                m = a.has(e.cls)
                k, v, t = a.parts(m)
                o = Obj(None)
                o.f['val'] = v.n
                if W.timed:
                    o.f['time'] = t
                new.append(I.H.new_elem(e.cls, g, o))
                m.old = True
                e.old = True
            g.items.append(new)
        I.S.roots[name] = g
        if name == 'ghost':
            b = MapC()
            b.owner = Obj(None)
            b.owner.n = b
            I.S.roots['gone'] = self.gone = b
        return a, g

    def g_drop(self, e):
        c = e.cont
        if isinstance(c, MapC):
            c.ents = [x for x in c.ents if x is not e]
        else:
            for it in c.items:
                if e in it:
                    it.remove(e)
            c.items = [it for it in c.items if it]
        e.cls.elems = [y for y in e.cls.elems if y is not e]

    def gelem(self, cls, g=None):
        return self.I.H.elem_in(cls, g if g is not None else self.g)

    def g_back(self, cls):
        e = self.gelem(cls)
        self.I.H.remove_elem(e)
        self.g.items.append([e])

    def g_remove(self, cls):
        e = self.gelem(cls)
        self.I.H.remove_elem(e)
        cls.elems = [x for x in cls.elems if x is not e]

    def g_add(self, cls, val):
        o = Obj(None)
        o.f['val'] = val
        if self.W.timed:
            o.f['time'] = self.I.S.now
        e = self.I.H.new_elem(cls, self.g, o)
        self.g.items.append([e])

    def g_len(self, g=None):
        return self.I.H.seq_len(g if g is not None else self.g)

    def expired(self, cls):
        """has the (individual) key of the ghost expired?"""
        if not self.W.timed:
            return False
        e = self.gelem(cls)
        f = sub(sub(self.I.S.now, e.obj.f['time']), self.ttl)
        return self.I.ge(f, True, 'time to live over')

    def expired_known(self, e):
        """True / False / None for a ghost element of any class"""
        f = sub(sub(self.I.S.now, e.obj.f['time']), self.ttl)
        p = self.I.S.poly
        f = p.n(f)
        if not isinstance(f, Lin):
            return f > 0
        if p.entails(f, True):
            return True
        if p.entails(neg(f)):
            return False
        return None


def ghost_seq():
    g = SeqC('list')
    g.owner = Obj(None)
    g.owner.n = g
    return g


def compare(x, a, g, who=''):
    """the cache read as `a` against the expected ghost g"""
    I = x.I
    have = {}
    for e in a.main.ents:
        have[id(e.cls)] = e.cls
    want = {}
    for it in g.items + ([x.gone.ents] if g is x.g else []):
        for e in it:
            want[id(e.cls)] = e.cls
    ok = True
    for k, c in want.items():
        if k not in have:
            x.fail('lost', who + 'a key that should be stored is missing (%s)' % describe(x, c))
            ok = False
    for k, c in have.items():
        if k not in want:
            x.fail('extra', who + 'a key that should not be stored is present (%s)' % describe(x, c))
            ok = False
    for it in g.items:
        for e in it:
            m = a.has(e.cls)
            if m is None:
                continue
            k, v, t = a.parts(m)
            if v is None or v.n is not e.obj.f['val']:
                if v is not None and v.n == 'moved':
                    x.fail('value', who + 'a stored value was moved away (%s)' % describe(x, e.cls))
                else:
                    x.fail('value', who + 'a key has the wrong value (%s)' % describe(x, e.cls))
            if x.W.timed and t is not None:
                d = sub(t, e.obj.f['time']) if t is not UNINIT else None
                if d is None or not eqz(I, d):
                    x.fail('time', who + 'the time to live of a key starts at the wrong time (%s)' % describe(x, e.cls))
            if e.cls.marks.get('fresh') is None and x.check_old:
                if not m.old:
                    x.fail('identity', who + 'the entry of a key was re-created (%s)' % describe(x, e.cls))
                for l in e.cls.elems:
                    if l.cont is a.order and l.alive and not l.old:
                        x.fail('identity', who + 'the order entry of a key was re-created (%s)' % describe(x, e.cls))
    if ok:
        A = [sorted(id(c) for c in it) for it in a.items()]
        G = [sorted(id(e.cls) for e in it) for it in g.items]
        if A != G:
            x.fail('order', who + 'the recency order is wrong')
    return ok


def eqz(I, d):
    p = I.S.poly
    d = p.n(d)
    if not isinstance(d, Lin):
        return d == 0
    return p.entails(d) and p.entails(neg(d))


def describe(x, c):
    if c is getattr(x, 'key', None):
        return 'the key of the call'
    if c is getattr(x, 'lru', None):
        return 'the least recently used key'
    return 'one key' if c.single else 'some keys'
