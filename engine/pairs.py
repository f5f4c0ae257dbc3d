"""Copying, moving, assigning and swapping whole caches."""
import num
from worlds import *
from explore import loads


def everything(c):
    """all objects a cache owns, elements of its containers included"""
    out = []
    todo = [c]
    while todo:
        o = todo.pop()
        for p in owned_of(o):
            out.append(p)
            n = p.n
            if isinstance(n, SeqC):
                todo += [e.obj for it in n.items for e in it]
            elif isinstance(n, MapC):
                todo += [e.obj for e in n.ents]
    return out


def rename_functors(c, ren):
    for o in everything(c):
        if isinstance(o.n, MapC):
            o.n.hash = ren.get(o.n.hash, o.n.hash)
            o.n.eq = ren.get(o.n.eq, o.n.eq)
        elif isinstance(o.n, str) and o.n in ren:
            o.n = ren[o.n]
        elif type(o.n) is tuple and o.n and any(x in ren for x in o.n):
            o.n = tuple(ren.get(x, x) for x in o.n)


TO2 = {'h': 'h2', 'e': 'e2'}
BACK = {'h': 'h2', 'e': 'e2', 'h2': 'h', 'e2': 'e'}


class Snap:
    """what a cache holds: keys, values, times and order (ghost), capacity, ttl, statistics, callbacks, functors"""

    def held(name):
        def get(self):
            return self.x.I.S.roots['hold'].get((self.root, name))

        def put(self, v):
            self.x.I.S.roots['hold'][(self.root, name)] = v
        return property(get, put)

    cap = held('cap')
    ttl = held('ttl')
    tot = held('tot')

    def __init__(self, x, root):
        I = x.I
        self.x, self.root = x, root
        c = I.S.roots[root]
        self.a, self.g = x.build_ghost(root, 'ghost' if root == 'c' else 'ghost2')
        self.cap = x.observe('sizes', [c])['n2']
        self.ttl = self.a.ttl
        self.hash, self.eq = self.a.hash, self.a.eq
        self.stats = x.read_stats(c)
        self.tot = x.totals(self.stats) if self.stats is not None else None
        self.cbs = {}
        for k, l in x.read_cbs(c).items():
            g = ghost_seq()
            for it in l:
                g.items.append([I.H.new_elem(e.cls, g, Obj(None)) for e in it])
            I.S.roots['gcb_%s_%s' % (k, root)] = g
            self.cbs[k] = g


class PairRun(Run):
    def graft(self):
        """the second cache: any other abstract state, its symbols apart from those of the first"""
        S = self.I.S
        num._shift[0] = num._next[0] + 1
        try:
            T = loads(self.second)
        finally:
            num._shift[0] = 0
        d = T.roots['c']
        S.roots['c2'] = d
        p, q = S.poly, T.poly
        p.cons += q.cons
        p.defs.update(q.defs)
        p._c = {}
        p._w = []
        S.moved.update(T.moved)
        if self.W.timed and T.now is not None:
            p.addc(sub(S.now, T.now))
        rename_functors(d, TO2)

    def unify(self, k1, k2):
        """the keys k1 of the first and k2 of the second cache are equal"""
        for o in everything(self.I.S.roots['c2']):
            if o.n is k2:
                o.n = k1
        for e in k2.elems:
            e.cls = k1
            k1.elems.append(e)
        k2.elems = []

    def share(self):
        I = self.I
        a, b = Alpha(self.W, I, I.S.roots['c']), Alpha(self.W, I, I.S.roots['c2'])
        A = [e.cls for it in a.order.items for e in it]
        B = [e.cls for it in b.order.items for e in it]
        if not A or not B or not self.common:
            return
        i = I.choose(1 + len(A) * len(B), 'keys in common: none / one')
        if i:
            i -= 1
            self.unify(I.H.extract(A[i // len(B)], 'mid'), I.H.extract(B[i % len(B)], 'mid'))

    common = False

    def body(self):
        W, I, op = self.W, self.I, self.op
        S = I.S
        self.keepers = ['c']
        self.two = op.args[0] == '2'
        alias = False
        if self.two:
            if op.kw.get('alias') and self.second is None:
                alias = True
            else:
                self.graft()
                self.share()
        c = S.roots['c']
        d = S.roots.get('c2')
        self.A = Snap(self, 'c')
        self.B = self.A if alias else Snap(self, 'c2') if d is not None else None
        self.g = None
        self.pre = self.A.a
        self.args = [c] + ([c if alias else d] if self.two else []) + ([W.obj('vf::Obs')] if 'o' in op.args else [])
        S.roots['x'] = self.args
        self.key = None
        self.call()
        if self.exc:
            self.fail('exc', 'throws %s' % self.exc)
            return self.done(False)
        nm = op.name
        if not self.two:
            S.roots['c2'] = self.ret
            if nm.startswith('copy'):
                self.holds('c2', self.A, 'the copy: ', fresh=True)
                self.holds('c', self.A, 'the source: ')
                self.apart()
            else:
                self.holds('c2', self.A, 'the new cache: ')
                self.leftover('c')
                self.apart()
        elif alias:
            self.holds('c', self.A, 'the cache: ')
        else:
            if nm.startswith('copy'):
                self.holds('c', self.B, 'the target: ', fresh=True)
                self.holds('c2', self.B, 'the source: ')
            elif nm.startswith('swap'):
                self.holds('c', self.B, 'the first cache: ')
                self.holds('c2', self.A, 'the second cache: ')
            else:
                self.holds('c', self.B, 'the target: ')
                self.leftover('c2')
            self.apart()
        if self.fails or self.stop:
            return self.done(False)
        return self.keep()

    # ------------------------------------------------------------ judgement
    def holds(self, root, want, who, fresh=False):
        I = self.I
        c = I.S.roots[root]
        rehome(I, [Alpha(self.W, I, c).order])
        a = Alpha(self.W, I, c)
        bad = a.sync()
        for b in bad:
            self.fail('sync', who + b)
        if bad:
            self.stop = True
            return
        self.check_old = not fresh
        self.g = None
        if not compare(self, a, want.g, who):
            self.stop = True
            return
        r = self.observe('sizes', [c])
        if not eqz(I, sub(r['n2'], want.cap)):
            self.fail('cap', who + 'the capacity is wrong')
        if not eqz(I, sub(r['n'], I.H.map_len(a.main))):
            self.fail('sizes', who + 'size() differs from the number of stored keys')
        if self.W.timed and (a.ttl is UNINIT or not eqz(I, sub(a.ttl, want.ttl))):
            self.fail('ttl', who + 'the time to live of the cache is wrong')
        if a.hash != want.hash or a.eq != want.eq:
            self.fail('hash', who + 'the hash and equality functions are not those of the original')
        st = self.read_stats(c)
        if st is not want.stats:
            self.fail('stats', who + 'the statistics object is not that of the original')
        elif st is not None and not all(eqz(I, sub(u, v)) for u, v in zip(self.totals(st), want.tot)):
            self.fail('stats', who + 'the statistics change')
        now = self.read_cbs(c)
        for k in now:
            if [sorted(id(e.cls) for e in it) for it in now[k]] != [sorted(id(e.cls) for e in it) for it in want.cbs[k].items]:
                self.fail('cbs', who + 'the %s callbacks are not those of the original' % k)

    def leftover(self, root):
        """a cache that was moved from: any content, but a consistent cache"""
        I = self.I
        c = I.S.roots[root]
        rehome(I, [Alpha(self.W, I, c).order])
        a = Alpha(self.W, I, c)
        who = 'the source: '
        for b in a.sync():
            self.fail('sync', who + b)
            self.stop = True
        if self.stop:
            return
        r = self.observe('sizes', [c])
        if r['n2'] is UNINIT:
            self.fail('cap', who + 'the capacity is undefined')
            self.stop = True
            return
        n = I.H.map_len(a.main)
        if not eqz(I, sub(r['n'], n)):
            self.fail('sizes', who + 'size() differs from the number of stored keys')
        if not I.S.poly.entails(sub(r['n2'], n)):
            self.fail('size', who + 'more keys are stored than the capacity allows')
        if self.W.timed and a.ttl is UNINIT:
            self.fail('ttl', who + 'the time to live is undefined')
        # what is left in the source may not be what the target holds

    def apart(self):
        """neither cache refers to what the other one owns"""
        if self.stop:
            return
        S = self.I.S
        X, Y = everything(S.roots['c']), everything(S.roots['c2'])
        for P_, Q in ((X, Y), (Y, X)):
            own = set(id(o) for o in Q)
            for o in P_:
                for v in list(o.f.values()) + [o.n]:
                    t = type(v)
                    if t in (Ptr, Ref):
                        u = v.t.o if type(v.t) is LRef else v.t
                    elif t is Pos:
                        u = v.e.obj if v.e is not None else v.end
                    else:
                        continue
                    if type(u) is Obj and id(u) in own:
                        self.fail('alias', 'one of the two caches refers to parts of the other')
                        return

    # ------------------------------------------------------------ afterwards either cache is used alone
    def keep(self):
        I, S = self.I, self.I.S
        roots = ['c', 'c2'] if 'c2' in S.roots else ['c']
        k = roots[I.choose(len(roots), 'cache used afterwards')] if len(roots) > 1 else 'c'
        for r in roots:
            if r != k:
                I.quiet_count(lambda: I.destroy(S.roots.pop(r)))
        c = S.roots[k]
        if k != 'c':
            S.roots['c'] = S.roots.pop(k)
        if Alpha(self.W, I, c).hash == 'h2':
            rename_functors(c, BACK)
        return self.done(True)

    second = None


RUNNERS['pair'] = PairRun

for nm in ('copy_construct', 'copy_construct_nc'):
    op(nm, '1', None, 'copy', const1=False)
op('move_construct', '1', None, 'move', const1=False)
op('copy_assign', '2 o', None, 'copy', alias=True, const1=False)
op('copy_assign_nc', '2 o', None, 'copy', alias=True, const1=False)
op('move_assign', '2 o', None, 'move', const1=False)
op('swap_m', '2 o', None, 'move', alias=True, const1=False)
op('swap_f', '2 o', None, 'move', alias=True, const1=False)

COPIES = ['copy_construct', 'copy_construct_nc', 'copy_assign', 'copy_assign_nc']
MOVES = ['move_construct', 'move_assign', 'swap_m', 'swap_f']


def pairs(self, wk, ops):
    F = self.seed(wk)
    core = ['insert', 'find', 'erase']
    seeds = core + ['monitor_l', 'hit_cb_f', 'miss_cb_f', 'acc_cb_f']

    def few(s, o):
        # caches with all of statistics and callbacks, or none
        h = [x for x in s.hist if x in seeds[3:]]
        if o in core:
            return len(h) in (0, 4)
        return seeds[3:][:len(h)] == h and o == seeds[3 + len(h)] if len(h) < 4 else False
    F.run(core)
    F.run(seeds, pick=few)
    use = [s for s in F.order if len([x for x in s.hist if x in seeds[3:]]) in (0, 4)]
    self.note('%d states of one cache are combined' % len(use))
    seen = {}
    for s in use:
        seen.setdefault(s.info, s)

    def wanted(o, s, t):
        if t.info[1] < 2:
            return not (s.info[0] and t.info[0]) or s.info[1] < 2
        if o == 'copy_assign_nc':
            return False
        if OPS[o].kind == 'copy':
            return seen[s.info] is s and (seen[t.info] is t or s.info[1] == 0) and s.info[0] != t.info[0]
        return not (s.info[0] and t.info[0]) or s.info[1] < 2
    tasks = []
    for o in ops:
        if OPS[o].args[0] == '1':
            tasks += [(s, o, None) for s in use]
        else:
            if OPS[o].kw.get('alias'):
                tasks += [(s, o, None) for s in use]
            tasks += [(s, o, t) for s in use for t in use if self.tier == 'thorough' or wanted(o, s, t)]
    todo = [(F.wk, s.blob, s.shape, s.cons, o, 'pair', {'second': (t.blob, t.shape, t.cons), 'common': self.tier == 'thorough' or
            (s.info[1] < 2 and t.info[1] < 2)} if t is not None else {}) for s, o, t in tasks]
    for (s, o, t), r in zip(tasks, F.map(todo)):
        F.record(s, o, r)
        for res in r[0]:
            if 'shape' in res:
                F.add(res, s.hist + (o,))
    # both caches have to work afterwards
    F.run(core + ['contains', 'lookup'], pick=lambda s, o: self.tier == 'thorough' or not s.info[0] or s.info[1] < 2 or o == 'insert')
    return F


Lab.pairs = pairs
Lab.note = lambda self, m: self.log(m) if self.log else None
