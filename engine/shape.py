"""Operations on the abstract heap: materialisation of individual elements out of summaries,
sequences, unordered maps and their traversal."""
from num import *
from heap import *


class Err(Exception):
    pass


def owned_of(o, out=None):
    """o and every object it owns"""
    if out is None:
        out = []
    out.append(o)
    for v in o.f.values():
        if type(v) is Obj and v.par is o:
            owned_of(v, out)
    n = o.n
    if type(n) is Obj and n.par is o:
        owned_of(n, out)
    return out


def key_in(P, o):
    """the key a stored key object consists of: the object itself, or the only key of a tuple"""
    if o.rec is None:
        return None
    q = P.rq(o.rec)
    if q == 'vf::K' or q == 'std::type_index':
        return o
    if q == 'std::tuple':
        l = [x for x in owned_of(o) if x.rec is not None and P.rq(x.rec) == 'vf::K']
        if len(l) == 1:
            return l[0]
    return None


def root_of(o):
    while o.elem is None and o.par is not None:
        o = o.par
    return o


def elem_of(o):
    r = root_of(o)
    return r.elem


class Heap:
    def __init__(self, I, unsupported, bug):
        self.I = I
        self.U = unsupported
        self.bug = bug

    # ---------------------------------------------------------------- classes
    def new_cls(self, single=True, ln=1, name=None):
        return Cls(single, ln, name)

    def new_elem(self, cls, cont, obj):
        e = Elem(cls, cont, obj)
        obj.elem = e
        cls.elems.append(e)
        return e

    def seqs_of(self, cls):
        out = []
        for e in cls.elems:
            if isinstance(e.cont, SeqC) and e.alive and e.cont not in out:
                out.append(e.cont)
        return out

    def item_index(self, seq, e):
        for i, it in enumerate(seq.items):
            for x in it:
                if x is e:
                    return i
        return None

    def group(self, cls):
        """classes interleaved with cls (directly or through others)"""
        g = [cls]
        i = 0
        while i < len(g):
            for s in self.seqs_of(g[i]):
                for it in s.items:
                    if len(it) > 1 and any(e.cls is g[i] for e in it):
                        for e in it:
                            if e.cls not in g:
                                g.append(e.cls)
            i += 1
        return g

    def clone_cls(self, c):
        """A second summary with the same per-element description."""
        I = self.I
        p = I.S.poly
        d = Cls(False, c.len, c.name)
        d.vis = set(c.visited())
        d.exp = dict(c.exp)
        ren = {}
        for s in c.priv:
            ren[s] = Sym(s.kind, s.name)
        d.priv = set(ren.values())
        lren = {s: lin(t) for s, t in ren.items() if s.kind != 'o'}
        if lren:
            ks = set(lren)
            more = []
            for t, k, st in p.cons:
                if any(x in ks for x in t):
                    more.append((substitute(Lin(k, t), lren), st))
            for f, st in more:
                p.addc(f, st)
        own = {}
        emap = {}
        for e in c.elems:
            for o in owned_of(e.obj):
                own[id(o)] = o
        new = {}
        for i, o in own.items():
            n = Obj(o.rec, o.lab)
            n.alive = o.alive
            new[i] = n
        for e in c.elems:
            n = Elem(d, e.cont, new[id(e.obj)])
            n.alive, n.may, n.old = e.alive, e.may, e.old
            new[id(e.obj)].elem = n
            d.elems.append(n)
            emap[id(e)] = n

        def mv(v):
            t = type(v)
            if t is Lin:
                return substitute(v, lren) if lren else v
            if t is Obj:
                return new.get(id(v), v)
            if t is Ptr:
                return Ptr(mv(v.t))
            if t is LRef:
                return LRef(new.get(id(v.o), v.o), v.k)
            if t is Ref:
                return Ref(mv(v.t))
            if t is Pos:
                e = emap.get(id(v.e), v.e)
                return Pos(e, new.get(id(v.end), v.end))
            if t is EPtr:
                return EPtr(mv(v.pos))
            if t is Sym:
                return ren.get(v, v)
            if t is Cls:
                return d if v is c else v
            if t is tuple:
                return tuple(mv(x) for x in v)
            if t in (SeqC, MapC):
                raise self.U('container inside a summarised element')
            return v
        for i, o in own.items():
            n = new[i]
            n.par = new.get(id(o.par), o.par)
            for k, v in o.f.items():
                n.f[k] = mv(v)
            n.n = mv(o.n)
        d.marks = {k: mv(v) for k, v in c.marks.items()}
        I.S.copied.append((c, d))
        return d

    def put_map(self, d):
        for e in d.elems:
            if isinstance(e.cont, MapC) and e.alive:
                e.cont.ents.append(e)

    def parts(self, c, kinds):
        """kinds: list of 'sum'/'one'; returns classes in order; c itself is reused for the first part."""
        out = []
        for i, k in enumerate(kinds):
            if i == 0:
                out.append(c)
            else:
                d = self.clone_cls(c)
                self.put_map(d)
                out.append(d)
        return out

    def extract(self, cls, where, seq=None):
        """Materialise one individual of cls; where: 'front'/'back' (with respect to seq) or 'mid'.
        Returns the individual class."""
        I = self.I
        p = I.S.poly
        g = self.group(cls)
        if len(g) == 1 and cls.single:
            return cls
        plan = {}
        for d in g:
            if d is cls:
                if d.single:
                    plan[d] = (False, False)
                    continue
                opts = []
                if where == 'mid':
                    cand = [(False, False), (False, True), (True, False), (True, True)]
                elif where == 'front':
                    cand = [(False, False), (False, True)]
                else:
                    cand = [(False, False), (True, False)]
                for b, a in cand:
                    need = 1 + int(b) + int(a)
                    if need == 1:
                        if p.entails(sub(d.len, 1), True):
                            continue
                    elif p.entails(sub(need - 1, d.len)):
                        continue
                    opts.append((b, a))
            else:
                inseq = seq is not None and any(e.cont is seq and e.alive for e in d.elems)
                same_item = False
                if inseq:
                    for it in seq.items:
                        if len(it) > 1 and any(e.cls is d for e in it) and any(e.cls is cls for e in it):
                            same_item = True
                nb = where == 'front' and same_item
                na = where == 'back' and same_item
                opts = []
                for b, a in [(True, False), (False, True), (True, True)]:
                    if b and nb or a and na:
                        continue
                    if b and a and (d.single or p.entails(sub(1, d.len))):
                        continue
                    opts.append((b, a))
            if not opts:
                raise I.infeasible()
            o = opts[I.choose(len(opts), 'split')]
            plan[d] = o
        res = {}
        me = None
        for d in g:
            b, a = plan[d]
            if d is cls:
                if d.single:
                    res[d] = (None, d, None)
                    me = d
                    continue
                n = d.len
                kinds = 1 + int(b) + int(a)
                ps = self.parts(d, [0] * kinds)
                if not b and not a:
                    self.assume_eq(n, 1)
                    bb = aa = None
                    one = ps[0]
                elif b and not a:
                    bb, one = ps
                    aa = None
                    bb.len = self.more(sub(n, 1))
                elif a and not b:
                    aa, one = ps
                    bb = None
                    aa.len = self.more(sub(n, 1))
                else:
                    bb, aa, one = ps
                    x = fresh('n', 'n')
                    bb.len = self.more(x)
                    aa.len = self.more(sub(sub(n, 1), x))
                self.make_single(one)
                res[d] = (bb, one, aa)
                me = one
            else:
                if b and a:
                    ps = self.parts(d, [0, 0])
                    x = fresh('n', 'n')
                    n = d.len
                    ps[0].len = self.more(x)
                    ps[1].len = self.more(sub(n, x))
                    res[d] = (ps[0], None, ps[1])
                elif b:
                    res[d] = (d, None, None)
                else:
                    res[d] = (None, None, d)
        # rebuild the sequences
        done = []
        for d in g:
            for part in res[d]:
                if part is None:
                    continue
                for s in self.seqs_of(part):
                    if s not in done:
                        done.append(s)
        for s in done:
            items = []
            for it in s.items:
                if not any(e.cls in plan for e in it):
                    items.append(it)
                    continue
                for w in range(3):
                    new = []
                    for e in it:
                        part = res[e.cls][w] if e.cls in res else None
                        if part is None:
                            continue
                        new += [x for x in part.elems if x.cont is s and x.alive]
                    if new:
                        items.append(new)
            s.items = items
        if I.infeasible_now():
            raise I.infeasible()
        return me

    def make_single(self, c):
        c.single = True
        c.len = 1
        c.priv = set()

    def more(self, n):
        """a summary length: at least one"""
        p = self.I.S.poly
        if not p.addc(sub(n, 1)):
            raise self.I.infeasible()
        return n

    def assume_eq(self, a, b):
        p = self.I.S.poly
        if not p.assume_eq(sub(a, b)):
            raise self.I.infeasible()

    # ---------------------------------------------------------------- sequences
    def sum_len(self, elems):
        n = 0
        for e in elems:
            n = add(n, e.cls.len)
        return n

    def seq_len(self, s):
        return self.sum_len([e for it in s.items for e in it])

    def begin(self, s):
        if not s.items:
            return Pos(None, s.owner)
        return Pos(self.take(s, 0, 'front'), None)

    def end(self, s):
        return Pos(None, s.owner)

    def take(self, s, i, where):
        it = s.items[i]
        if len(it) == 1:
            e = it[0]
        else:
            e = it[self.I.choose(len(it), '%s of interleaved part' % where)]
        c = e.cls
        m = self.extract(c, where, s)
        return self.elem_in(m, s)

    def elem_in(self, c, cont):
        for e in c.elems:
            if e.cont is cont and e.alive:
                return e
        return None

    def check_pos(self, pos, what, need_elem=True):
        if pos.e is None:
            if pos.end is None:
                self.bug('singular', '%s a singular iterator' % what)
            if need_elem:
                self.bug('end', '%s the end iterator' % what)
            return
        if not pos.e.alive:
            if pos.e.alive is None:
                raise self.U('stale iterator of a summarised element')
            self.bug('dead', '%s an iterator to an erased element' % what)

    def next(self, pos):
        self.check_pos(pos, 'increment of')
        e = pos.e
        s = e.cont
        if isinstance(s, MapC):
            return self.map_next(s, e)
        if not e.cls.single:
            raise self.U('iterator into a summary')
        self.I.count('walk', s)
        if len(self.group(e.cls)) > 1:
            self.extract(e.cls, 'mid', s)
        i = self.item_index(s, e)
        if i + 1 >= len(s.items):
            return Pos(None, s.owner)
        return Pos(self.take(s, i + 1, 'front'), None)

    def prev(self, pos):
        self.check_pos(pos, 'decrement of', False)
        if pos.e is None:
            s = pos.end.n
            if not isinstance(s, SeqC):
                raise self.U('decrement of an unordered iterator')
            i = len(s.items)
        else:
            s = pos.e.cont
            if isinstance(s, MapC):
                raise self.U('decrement of an unordered iterator')
            if not pos.e.cls.single:
                raise self.U('iterator into a summary')
            if len(self.group(pos.e.cls)) > 1:
                self.extract(pos.e.cls, 'mid', s)
            i = self.item_index(s, pos.e)
        self.I.count('walk', s)
        if i == 0:
            self.bug('range', 'decrement of the begin iterator')
        return Pos(self.take(s, i - 1, 'back'), None)

    def elem_target(self, pos):
        self.check_pos(pos, 'dereference of')
        return self.target(pos.e)

    def target(self, e):
        o = e.obj
        if o.rec is None and 'v' in o.f and o.n is None:
            return LRef(o, 'v')
        return o

    def distance(self, a, b):
        s = a.e.cont if a.e is not None else a.end.n
        i = self.item_index(s, a.e) if a.e is not None else len(s.items)
        j = self.item_index(s, b.e) if b.e is not None else len(s.items)
        if i <= j:
            return self.sum_len([e for it in s.items[i:j] for e in it])
        return neg(self.sum_len([e for it in s.items[j:i] for e in it]))

    def insert_at(self, s, pos, obj, cls=None):
        """insert a new individual before pos"""
        if cls is None:
            cls = Cls(True, 1)
        e = self.new_elem(cls, s, obj)
        if pos.e is None:
            s.items.append([e])
        else:
            if len(self.group(pos.e.cls)) > 1:
                self.extract(pos.e.cls, 'mid', s)
            s.items.insert(self.item_index(s, pos.e), [e])
        return e

    def push_back(self, s, obj):
        return self.insert_at(s, Pos(None, s.owner), obj)

    def remove_elem(self, e):
        """unlink an individual from its container (without ending its life)"""
        s = e.cont
        if isinstance(s, MapC):
            s.ents = [x for x in s.ents if x is not e]
            s.first = None
            s.succ = [(a, b) for a, b in s.succ if a is not e and b is not e]
            return
        for i, it in enumerate(s.items):
            if e in it:
                break
        else:
            raise self.U('element not in its sequence')
        if len(it) == 1:
            del s.items[i]
        elif e.cls.single:
            it.remove(e)        # the order of the others is what it was
        else:
            raise self.U('removing a summarised element')

    def erase_elem(self, e):
        if not e.cls.single:
            raise self.U('erasing a summarised element')
        self.remove_elem(e)
        self.I.destroy(e.obj)
        self.I.kill(e.obj)
        e.alive = False

    def kill_elem(self, e):
        self.I.destroy(e.obj)
        self.I.kill(e.obj)
        e.alive = False

    def clear_seq(self, s):
        for it in s.items:
            for e in it:
                self.kill_elem(e)
        s.items = []

    def copy_seq(self, src, dst):
        for it in src.items:
            new = []
            for e in it:
                o = self.I.quiet(lambda: self.copy_elem(e.obj))
                new.append(self.new_elem(e.cls, dst, o))
            dst.items.append(new)

    def copy_elem(self, o):
        if o.rec is None:
            n = Obj(None)
            n.f.update(o.f)
            n.n = o.n
            return n
        return self.I.copy_obj(o)

    # ---------------------------------------------------------------- maps
    def map_len(self, m):
        return self.sum_len(m.ents)

    def map_find(self, m, cls):
        """element of key class cls in m, or None"""
        for e in m.ents:
            if e.cls is cls and e.alive:
                return e
        if m.loose:
            k = ('absent', id(m))
            if cls.marks.get('absent_in') is not None and m.owner in cls.marks['absent_in']:
                return None
            if self.I.choose(2, 'key present in the open map') == 0:
                return self.I.open_entry(m, cls)
            cls.marks['absent_in'] = cls.marks.get('absent_in', ()) + (m.owner,)
            return None
        return None

    def map_unvisited(self, m):
        return [e for e in m.ents if e.alive and m not in e.cls.visited()]

    def map_begin(self, m):
        if m.loose:
            raise self.U('traversal of an open map')
        if not m.ents:
            return Pos(None, m.owner)
        if m.first is not None and m.first.alive:
            return Pos(m.first, None)
        for e in m.ents:
            e.cls.visited().discard(m)
        m.succ = []
        e = self.map_pick(m)
        m.first = e
        return Pos(e, None)

    def map_pick(self, m):
        c = self.map_unvisited(m)
        e = c[self.I.choose(len(c), 'next of unordered traversal')]
        k = self.pick_lazy(e.cls)
        e = self.elem_in(k, m)
        k.visited().add(m)
        return e

    def pick_lazy(self, c):
        """an individual of the class, its place among the others of its part left open"""
        if c.single:
            return c
        I = self.I
        p = I.S.poly
        opts = []
        if not p.entails(sub(c.len, 1), True):
            opts.append(0)
        if not p.entails(sub(1, c.len)):
            opts.append(1)
        if not opts:
            raise I.infeasible()
        if opts[I.choose(len(opts), 'split')] == 0:
            self.assume_eq(c.len, 1)
            self.make_single(c)
            return c
        rest, one = self.parts(c, [0, 0])
        rest.len = self.more(sub(rest.len, 1))
        self.make_single(one)
        for s in self.seqs_of(one):
            for it in s.items:
                if any(e.cls is c for e in it):
                    it += [e for e in one.elems if e.cont is s and e.alive]
        return one

    def map_next(self, m, e):
        self.I.count('walk', m)
        for a, b in m.succ:
            if a is e:
                return Pos(None, m.owner) if b == 'end' else Pos(b, None)
        if m not in e.cls.visited():
            # an iterator obtained otherwise: its successor is any other element or the end
            cand = [x for x in m.ents if x is not e and x.alive]
            i = self.I.choose(len(cand) + 1, 'unordered successor')
            if i == len(cand):
                m.succ.append((e, 'end'))
                return Pos(None, m.owner)
            k = self.pick_lazy(cand[i].cls)
            x = self.elem_in(k, m)
            m.succ.append((e, x))
            return Pos(x, None)
        if not self.map_unvisited(m):
            m.succ.append((e, 'end'))
            return Pos(None, m.owner)
        x = self.map_pick(m)
        m.succ.append((e, x))
        return Pos(x, None)

    def clear_map(self, m):
        for e in m.ents:
            self.kill_elem(e)
        m.ents = []
        m.first = None
        m.succ = []

    def copy_map(self, src, dst):
        for e in src.ents:
            o = self.I.quiet(lambda: self.copy_elem(e.obj))
            n = self.new_elem(e.cls, dst, o)
            dst.ents.append(n)
        dst.loose = src.loose
