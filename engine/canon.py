"""Canonical form of abstract states: merging of equally described neighbouring classes into summaries,
renaming, projection of the numeric part onto the numbers stored in the state, joins and coverage."""
from core import *
from shape import *

MERGED = 0


class Slot:
    __slots__ = ('obj', 'key', 'val', 'cls', 'kind', 'sym')

    def __init__(self, obj, key, val, cls):
        self.obj = obj
        self.key = key
        self.val = val
        self.cls = cls
        self.kind = None
        self.sym = None

    def put(self, v):
        k = self.key
        if k == '#len':
            self.obj.len = v
        elif type(self.obj) is list or type(self.obj) is dict:
            self.obj[k] = v
        elif k == '#now':
            self.obj.now = v
        else:
            self.obj.f[k] = v


class Canon:
    def __init__(self, I, frames=(), extra=()):
        self.I = I
        self.S = I.S
        self.frames = frames
        self.extra = extra

    # ------------------------------------------------------------ discovery
    def discover(self):
        self.num = {}        # id(obj) -> number of non-class objects
        self.objs = []
        self.conts = []
        self.contno = {}
        self.classes = []
        self.classno = {}
        self.pins = set()
        self.symown = {}     # id(sym) -> owner class / None / 'many'
        self.keep = []
        todo = []
        self.seen_cls = set()
        for v in self.root_values():
            self.visit(v, None)
        # classes and what they refer to
        i = 0
        j = 0
        while i < len(self.conts) or j < len(self.classes):
            if i < len(self.conts):
                c = self.conts[i]
                i += 1
                for e in self.cont_elems(c):
                    self.add_cls(e.cls)
                continue
            k = self.classes[j]
            j += 1
            for e in k.elems:
                if e.alive and id(e.cont) in self.contno:
                    for v in self.obj_values(e.obj):
                        self.visit(v, k)
            for key in sorted(k.marks, key=str):
                self.visit(k.marks[key], k)
        for k in self.classes:
            k.elems = [e for e in k.elems if e.alive and id(e.cont) in self.contno]
            k.vis = set(m for m in k.visited() if id(m) in self.contno)

    def cont_elems(self, c):
        if isinstance(c, SeqC):
            return [e for it in c.items for e in it]
        return c.ents

    def add_cls(self, c):
        if id(c) not in self.classno:
            self.classno[id(c)] = len(self.classes)
            self.classes.append(c)

    def root_values(self):
        S = self.S
        out = []
        for k in sorted(S.roots, key=str):
            out.append(S.roots[k])
        for fr in self.frames:
            for k in sorted(fr.env, key=str):
                out.append(fr.env[k])
            out.append(fr.this)
            out += fr.temps
            for s in fr.scopes:
                out += s
            if fr.args:
                out += fr.args
            for p in fr.pend:
                out += p
        for k in sorted(S.statics, key=str):
            out.append(S.statics[k])
        out += list(self.extra)
        return out

    def obj_values(self, o):
        """values held by o and its sub-objects (class element content)"""
        out = []
        for k in o.f:
            v = o.f[k]
            if type(v) is Obj and v.par is o:
                out += self.obj_values(v)
            else:
                out.append(v)
        n = o.n
        if type(n) is Obj and n.par is o:
            out += self.obj_values(n)
        elif isinstance(n, (SeqC, MapC)):
            raise Unsupported('container inside an element')
        elif n is not None:
            out.append(n)
        return out

    def ref_cls(self, c, owner):
        self.add_cls(c)
        if c is not owner:
            self.pins.add(id(c))
            if owner is not None:
                self.pins.add(id(owner))

    def visit(self, v, owner):
        t = type(v)
        if t is Obj:
            if not v.alive:
                return
            r = root_of(v)
            if r.elem is not None:
                if r.elem.alive:
                    self.ref_cls(r.elem.cls, owner)
                    self.visit_cont(r.elem.cont)
                return
            if id(v) in self.num:
                return
            self.num[id(v)] = len(self.objs)
            self.objs.append(v)
            if v.par is not None:
                self.visit(v.par, owner)
            for k in sorted(v.f, key=str):
                self.visit(v.f[k], None)
            self.visit(v.n, None)
        elif t is Ptr or t is Ref:
            self.visit(v.t, owner)
        elif t is LRef:
            self.visit(v.o, owner)
        elif t is EPtr:
            self.visit(v.pos, owner)
        elif t is Pos:
            if v.e is not None:
                if v.e.alive:
                    self.ref_cls(v.e.cls, owner)
                    self.visit_cont(v.e.cont)
            elif v.end is not None:
                self.visit(v.end, owner)
        elif t is Cls:
            self.ref_cls(v, owner)
        elif t is SeqC or t is MapC:
            self.visit_cont(v)
        elif t is Sym:
            o = self.symown.get(id(v), 0)
            self.keep.append(v)
            if o == 0:
                self.symown[id(v)] = owner
            elif o is not owner:
                self.symown[id(v)] = 'many'
        elif t is tuple or t is list:
            for x in v:
                self.visit(x, owner)
        elif t is dict:
            for k in sorted(v, key=str):
                self.visit(v[k], owner)

    def visit_cont(self, c):
        if id(c) not in self.contno:
            self.contno[id(c)] = len(self.conts)
            self.conts.append(c)
            if c.owner is not None:
                self.visit(c.owner, None)

    # ------------------------------------------------------------ encoding
    def begin_enc(self):
        self.slots = []
        self.gsym = {}

    def enc(self, v, c, loc, own):
        """token of value v in the context of class c (own: id(obj) -> local number of c's objects)"""
        t = type(v)
        if v is None:
            return 'N'
        if t is bool:
            return 'T' if v else 'F'
        if t is int or t is Lin or t is Fraction or t is Term:
            if loc is None:
                return ('n', str(v))
            s = Slot(loc[0], loc[1], v, c)
            s.kind = self.kind(v)
            self.slots.append(s)
            return '#' + s.kind
        if t is str or t is float:
            return ('s', v)
        if v is UNINIT:
            return 'U'
        if t is Obj:
            return self.enc_ref(v, c, own)
        if t is Ptr:
            if v.t is None:
                return '0'
            return ('P', self.enc(v.t, c, None, own))
        if t is Ref:
            return ('R', self.enc(v.t, c, None, own))
        if t is LRef:
            return ('L', self.enc_ref(v.o, c, own), v.k)
        if t is EPtr:
            return ('E', self.enc(v.pos, c, None, own))
        if t is Pos:
            if v.e is not None:
                if not v.e.alive:
                    return 'dead-it'
                if v.e.cls is c:
                    return ('pl', own.get(id(v.e.obj), self.contno.get(id(v.e.cont))))
                return ('pe', self.cname(v.e.cls), self.contno.get(id(v.e.cont)))
            if v.end is not None:
                return ('pend', self.enc_ref(v.end, c, own))
            return 'sing'
        if t is Cls:
            return 'me' if v is c else ('K', self.cname(v))
        if t is Sym:
            if c is not None and self.symown.get(id(v)) is c:
                k = self.lsym.get(id(v))
                if k is None:
                    k = self.lsym[id(v)] = len(self.lsym)
                return ('l', k)
            k = self.gsym.get(id(v))
            if k is None:
                k = self.gsym[id(v)] = len(self.gsym)
            return ('g', k)
        if t is tuple:
            return ('t',) + tuple(self.enc(x, c, None, own) for x in v)
        if t is list:
            return ('li',) + tuple(self.enc(x, c, (v, i), own) for i, x in enumerate(v))
        if t is dict:
            return ('d',) + tuple((str(k), self.enc(v[k], c, (v, k), own)) for k in sorted(v, key=str))
        if t is FnRef:
            return ('f', v.f)
        if t is SeqC or t is MapC:
            return ('c', self.contno[id(v)])
        raise Unsupported('encoding of %r' % (v,))

    def kind(self, v):
        if type(v) is Term:
            return 'x'
        if type(v) is Lin:
            if any(s.kind == 'r' for s in v.t):
                return 'r'
            d = self.S.poly.n(v)
            if type(d) is not Lin:
                return 'n' if d >= 0 else 'i'
            return 'n' if self.S.poly.entails(v) else 'i'
        if type(v) is Fraction:
            return 'r'
        return 'n' if v >= 0 else 'i'

    def cname(self, c):
        k = self.order.get(id(c)) if self.order is not None else None
        return k if k is not None else '?'

    def enc_ref(self, o, c, own):
        if not o.alive:
            return 'dead'
        k = own.get(id(o)) if own else None
        if k is not None:
            return ('o', k)
        k = self.num.get(id(o))
        if k is not None:
            return ('g', k)
        r = root_of(o)
        if r.elem is not None:
            return ('ce', self.cname(r.elem.cls), self.contno.get(id(r.elem.cont)), self.path(o))
        return 'lost'

    def path(self, o):
        out = []
        while o.elem is None and o.par is not None:
            p = o.par
            for k in sorted(p.f, key=str):
                if p.f[k] is o:
                    out.append(k)
                    break
            else:
                out.append('n')
            o = p
        return tuple(out)

    def enc_obj(self, o, c, own, depth=0):
        """content of an owned object"""
        out = [o.rec, 'A' if o.alive else 'D']
        for k in sorted(o.f, key=str):
            v = o.f[k]
            out.append(k)
            if type(v) is Obj and v.par is o:
                out.append(self.enc_obj(v, c, own, depth + 1))
            else:
                out.append(self.enc(v, c, (o, k), own))
        n = o.n
        if type(n) is Obj and n.par is o:
            out.append(self.enc_obj(n, c, own, depth + 1))
        else:
            out.append(self.enc(n, c, None, own))
        return tuple(out)

    def enc_cls(self, c):
        elems = sorted(c.elems, key=lambda e: self.contno[id(e.cont)])
        own = {}
        for e in elems:
            for o in owned_of(e.obj):
                own[id(o)] = len(own)
        self.lsym = {}
        out = []
        for e in elems:
            out.append((self.contno[id(e.cont)], bool(e.may), bool(e.old), self.enc_obj(e.obj, c, own)))
        out.append(tuple(sorted(self.contno[id(m)] for m in c.visited())))
        out.append(tuple((str(k), self.enc(c.marks[k], c, (c.marks, k), own)) for k in sorted(c.marks, key=str)))
        return tuple(out)

    # ------------------------------------------------------------ merging
    def seq_pos(self):
        """id(class) -> {seq no: item index}"""
        pos = {}
        for si, s in enumerate(self.conts):
            if isinstance(s, SeqC):
                for i, it in enumerate(s.items):
                    for e in it:
                        pos.setdefault(id(e.cls), {})[si] = i
        return pos

    def merge_all(self, force):
        while True:
            self.order = None
            self.begin_enc()
            sig = {}
            for c in self.classes:
                if id(c) not in self.pins:
                    sig[id(c)] = self.enc_cls(c)
            pos = self.seq_pos()
            done = False
            cand = [c for c in self.classes if id(c) in sig]
            for i, a in enumerate(cand):
                for b in cand[i + 1:]:
                    if sig[id(a)] != sig[id(b)]:
                        continue
                    r = self.adjacent(a, b, pos)
                    if r == 1:
                        self.merge(a, b)
                        done = True
                        break
                    if r == -1:
                        self.merge(b, a)
                        done = True
                        break
                if done:
                    break
            if done:
                continue
            if force:
                # the same description recurs with others in between: interleave the whole range
                for i, a in enumerate(cand):
                    for b in cand[i + 1:]:
                        if sig[id(a)] == sig[id(b)] and self.mix(a, b, pos):
                            done = True
                            break
                    if done:
                        break
            if not done:
                return

    def adjacent(self, a, b, pos):
        pa, pb = pos.get(id(a), {}), pos.get(id(b), {})
        if not pa and not pb:
            return 1
        if set(pa) != set(pb):
            return 0
        res = 0
        for s in pa:
            d = pb[s] - pa[s]
            if d == 0:
                continue
            if d not in (1, -1):
                return 0
            S = self.conts[s]
            if len(S.items[pa[s]]) > 1 or len(S.items[pb[s]]) > 1:
                return 0
            if res == 0:
                res = d
            elif res != d:
                return 0
        return res or 1

    def mix(self, a, b, pos):
        pa, pb = pos.get(id(a), {}), pos.get(id(b), {})
        if set(pa) != set(pb) or not pa:
            return False
        # the ranges between a and b must be free of pinned classes, in every sequence, and closed
        rng = {}
        cls = set()
        sgn = None
        for s in pa:
            lo, hi = sorted((pa[s], pb[s]))
            d = 0 if pa[s] == pb[s] else (1 if pa[s] < pb[s] else -1)
            if d != 0:
                if sgn is not None and sgn != d:
                    return False
                sgn = d
            rng[s] = (lo, hi)
            for it in self.conts[s].items[lo:hi + 1]:
                for e in it:
                    cls.add(id(e.cls))
        # extend to other sequences
        changed = True
        while changed:
            changed = False
            for s, S in enumerate(self.conts):
                if not isinstance(S, SeqC):
                    continue
                idx = [i for i, it in enumerate(S.items) if any(id(e.cls) in cls for e in it)]
                if not idx:
                    continue
                lo, hi = min(idx), max(idx)
                for it in S.items[lo:hi + 1]:
                    for e in it:
                        if id(e.cls) not in cls:
                            cls.add(id(e.cls))
                            changed = True
                if rng.get(s) != (lo, hi):
                    rng[s] = (lo, hi)
                    changed = True
        if any(c in self.pins for c in cls):
            return False
        byid = {id(c): c for c in self.classes}
        # the relative order of the classes must be the same in all sequences
        orders = []
        for s, (lo, hi) in rng.items():
            orders.append({id(e.cls): i for i, it in enumerate(self.conts[s].items[lo:hi + 1]) for e in it})
        for x in orders:
            for y in orders:
                if x is y:
                    continue
                com = [k for k in x if k in y]
                for p in com:
                    for q in com:
                        if x[p] < x[q] and y[p] > y[q]:
                            return False
        for s, (lo, hi) in rng.items():
            S = self.conts[s]
            new = [e for it in S.items[lo:hi + 1] for e in it]
            S.items[lo:hi + 1] = [new]
        self.merge(a, b)
        return True

    def merge(self, a, b):
        """b's elements become part of a (a before b where ordered)"""
        p = self.S.poly
        # align the slots of both descriptions
        self.begin_enc()
        self.order = None
        self.enc_cls(a)
        sa = self.slots
        self.slots = []
        self.enc_cls(b)
        sb = self.slots
        self.slots = []
        # opaque symbols are aligned by position (same signature)
        if len(sa) != len(sb):
            raise Unsupported('merge')
        ren = []
        pa, pb = Poly(), Poly()
        zs = []
        for x, y in zip(sa, sb):
            kd = x.kind if x.kind in 'nri' else 'i'
            z = Sym(kd if kd == y.kind else ('r' if 'r' in (kd, y.kind) else 'i'), 'z')
            zs.append((z, x, y))
        ia = [p.n(x.val) for _, x, _ in zs]
        ib = [p.n(y.val) for _, _, y in zs]
        if any(not (u == v and type(u) is not Term) or self.private(u, a) or True for u, v in zip(ia, ib)) and zs:
            self.join_defs(p, [(z, u) for (z, _, _), u in zip(zs, ia)], [(z, v) for (z, _, _), v in zip(zs, ib)])
        a.len = p.n(add(a.len, b.len))
        a.single = False
        for z, x, _ in zs:
            x.put(lin(z))
            a.priv.add(z)
        for e in b.elems:
            for o in owned_of(e.obj):
                o.alive = None
            e.alive = None
            s = e.cont
            if isinstance(s, SeqC):
                for it in s.items:
                    for q in list(it):
                        if q is e:
                            it.remove(q)
                s.items = [it for it in s.items if it]
            else:
                s.ents = [x for x in s.ents if x is not e]
        b.elems = []
        self.classes = [c for c in self.classes if c is not b]

    def private(self, u, a):
        return False

    def join_defs(self, p, da, db):
        """adds to p constraints on the new symbols that are valid with them defined either way"""
        sa = {z: u for z, u in da if type(u) is not Term}
        sb = {z: u for z, u in db if type(u) is not Term}

        def holds(f, st):
            return p.entails(substitute(f, sa), st) and p.entails(substitute(f, sb), st)
        out = []
        znew = [z for z, _ in da if z in sa and z in sb]
        cand = []
        for ds, o in ((da, sb), (db, sa)):
            sub_ = {}
            for z, u in ds:
                if type(u) is Lin and len(u.t) == 1 and u.c == 0 and z in sa and z in sb:
                    (s, k), = u.t.items()
                    if k == 1 and s not in sub_:
                        sub_[s] = lin(z)
            for t, c, st in p.cons:
                if any(s in sub_ for s in t):
                    cand.append((substitute(Lin(c, t), sub_), st))
            for z, u in ds:
                if z in sa and z in sb:
                    cand.append((sub(lin(z), u), False))
                    cand.append((sub(u, lin(z)), False))
            for i, (z, u) in enumerate(ds):
                for w, v in ds[i + 1:]:
                    if z in sa and z in sb and w in sa and w in sb and p.eq(u, v):
                        cand.append((sub(lin(z), lin(w)), False))
                        cand.append((sub(lin(w), lin(z)), False))
        if self.S.now is not None:
            for z in znew:
                if z.kind == 'r':
                    cand.append((sub(self.S.now, lin(z)), False))
        seen = set()
        for f, st in cand:
            r = norm_con(f, st)
            if r is True or r is False:
                continue
            k = (key_con(r), r[1], r[2])
            if k in seen:
                continue
            seen.add(k)
            if holds(f, st):
                out.append((f, st))
        for z in znew:
            if z.kind in 'ni':
                for c in (1, 0):
                    f = sub(lin(z), c)
                    if holds(f, False):
                        out.append((f, False))
                        break
        # known points extend to the new symbols
        for w in p._w:
            for z, u in da:
                if type(u) is Lin:
                    if all(s in w for s in u.t):
                        w[z] = u.c + sum(v * w[s] for s, v in u.t.items())
                elif type(u) is not Term:
                    w[z] = u
        for f, st in out:
            p.addc(f, st)


    # ------------------------------------------------------------ whole form
    def run(self, force=False):
        S = self.S
        self.discover()
        for c in self.conts:
            if isinstance(c, MapC):
                c.first = None
                c.succ = []
        for c in self.classes:
            if id(c) not in self.pins:
                c.single = False
        self.merge_all(force)
        self.discover()
        # final order of classes
        self.order = {}
        self.begin_enc()
        sig = {}
        for c in self.classes:
            sig[id(c)] = repr(self.enc_cls(c))
        for c in self.conts:
            if isinstance(c, SeqC):
                for it in c.items:
                    if len(it) > 1:
                        it.sort(key=lambda e: sig[id(e.cls)])
                    for e in it:
                        if id(e.cls) not in self.order:
                            self.order[id(e.cls)] = len(self.order)
        rest = [c for c in self.classes if id(c) not in self.order and c.elems]
        rest.sort(key=lambda c: sig[id(c)])
        for c in rest:
            self.order[id(c)] = len(self.order)
        for c in self.classes:
            if id(c) not in self.order:
                self.order[id(c)] = len(self.order)
        self.classes.sort(key=lambda c: self.order[id(c)])
        self.begin_enc()
        self.lsym = {}
        out = []
        for o in self.objs:
            out.append(self.enc_obj_flat(o))
        for fr in self.frames:
            x = [fr.fn.id if fr.fn else None, tuple(fr.line) if fr.line else None]
            for k in sorted(fr.env, key=str):
                x.append((str(k), self.enc(fr.env[k], None, None, None)))
            x.append(self.enc(fr.this, None, None, None))
            x.append(len(fr.scopes))
            for s in fr.scopes:
                x.append(tuple(self.enc(o, None, None, None) for o in s))
            x.append(tuple(self.enc(o, None, None, None) for o in fr.temps))
            for p in fr.pend:
                x.append(tuple(self.enc(o, None, (p, i), None) for i, o in enumerate(p)))
            out.append(tuple(x))
        for k in sorted(S.roots, key=str):
            out.append((str(k), self.enc(S.roots[k], None, (S.roots, k), None)))
        for v in self.extra:
            out.append(self.enc(v, None, None, None))
        if S.now is not None:
            s = Slot(S, '#now', S.now, None)
            s.kind = 'r'
            self.slots.append(s)
        for c in self.classes:
            out.append(('cls', c.single, self.enc_cls(c)))
            if not c.single:
                s = Slot(c, '#len', c.len, None)
                s.kind = 'n'
                self.slots.append(s)
        for c in self.conts:
            if isinstance(c, SeqC):
                out.append(('seq', tuple(tuple(self.order[id(e.cls)] for e in it) for it in c.items)))
            else:
                out.append(('map', tuple(sorted(self.order[id(e.cls)] for e in c.ents)), self.enc(c.hash, None, None, None),
                            self.enc(c.eq, None, None, None), c.loose))
        self.shape = repr(out)
        return self.shape

    def enc_obj_flat(self, o):
        out = [o.rec]
        for k in sorted(o.f, key=str):
            out.append(k)
            out.append(self.enc(o.f[k], None, (o, k), None))
        out.append(self.enc(o.n, None, None, None))
        return tuple(out)

    def rename(self, need=True):
        """new symbols for all numbers; returns the projected constraints over slot indexes"""
        if not need:
            for s in self.slots:
                s.sym = Sym(s.kind if s.kind in 'nri' else 'i', 'y')
            self.ys = [s.sym for s in self.slots]
            return None
        p = self.S.poly
        ys = []
        eqs = []
        for s in self.slots:
            s.sym = Sym(s.kind if s.kind in 'nri' else 'i', 'y')
            ys.append(s.sym)
            v = p.n(s.val)
            if type(v) is not Term:
                eqs.append(sub(lin(s.sym), v))
        cons = project(p.cons, eqs, ys)
        self.ys = ys
        return to_index(cons, ys)

    def apply(self, icons):
        """install constraints (over slot indexes) and the new numbers in the state"""
        q = Poly()
        q.cons = [({self.ys[i]: v for i, v in t}, c, s) for t, c, s in icons]
        self.S.poly = q
        for c in self.classes:
            c.priv = set(x for x in c.priv if x.kind == 'o')
            if not c.single:
                for e in c.elems:
                    for v in self.obj_values(e.obj):
                        if type(v) is Sym and self.symown.get(id(v)) is c:
                            c.priv.add(v)
        for s in self.slots:
            s.put(lin(s.sym))
            if s.cls is not None and not s.cls.single:
                s.cls.priv.add(s.sym)

    def sizes(self):
        """index forms of the container sizes (template linear expressions for joins)"""
        idx = {}
        for i, s in enumerate(self.slots):
            if s.key == '#len':
                idx[id(s.obj)] = i
        out = []
        parts = [[c] for c in self.conts]
        g, b = self.S.roots.get('ghost'), self.S.roots.get('gone')
        if id(g) in self.contno and id(b) in self.contno and b.ents:
            parts.append([g, b])        # what there was before the operation
        for cs in parts:
            t = {}
            k = 0
            for e in (e for c in cs for e in self.cont_elems(c)):
                if e.cls.single:
                    k += 1
                else:
                    t[idx[id(e.cls)]] = t.get(idx[id(e.cls)], 0) + 1
            if (t, k) not in out:
                out.append((t, k))
        return out


def dedup(cons):
    best = {}
    for t, c, s in cons:
        k = frozenset((x.id, v) for x, v in t.items())
        o = best.get(k)
        if o is None or c < o[1] or (c == o[1] and s and not o[2]):
            best[k] = (t, c, s)
    return list(best.values())


def project(cons, eqs, keep):
    """eliminate every symbol not in keep"""
    keep = set(keep)
    cs = list(cons)
    vs = set()
    for t, _, _ in cs:
        vs.update(t)
    for e in eqs:
        if type(e) is Lin:
            vs.update(e.t)
    for x in sorted(vs, key=lambda s: s.id):
        if x.kind == 'n' and x not in keep:
            cs.append(({x: 1}, 0, False))
    eqs = [e for e in eqs if type(e) is Lin]
    # equalities hidden in the constraints
    done = []
    while eqs:
        e = eqs.pop(0)
        if type(e) is not Lin:
            continue
        var = None
        for x, v in e.t.items():
            if x not in keep and (v == 1 or v == -1):
                if var is None or x.id > var.id:
                    var = x
        if var is None:
            for x, v in e.t.items():
                if x not in keep:
                    var = x
                    break
        if var is None:
            done.append(e)
            continue
        v = e.t[var]
        rest = Lin(e.c, {x: k for x, k in e.t.items() if x is not var})
        if not rest.t:
            rest = rest.c
        d = {var: scale(rest, Fraction(-1) / v if v not in (1, -1) else -v)}
        eqs = [substitute(x, d) if type(x) is Lin else x for x in eqs]
        done = [substitute(x, d) for x in done]
        new = []
        for t, c, s in cs:
            if var in t:
                r = norm_con(substitute(Lin(c, t), d), s)
                if r is True:
                    continue
                if r is False:
                    return [({}, -1, False)]
                new.append(r)
            else:
                new.append((t, c, s))
        cs = new
    for e in done:
        for f in (e, neg(e)):
            r = norm_con(f, False)
            if r is True:
                continue
            if r is False:
                return [({}, -1, False)]
            cs.append(r)
    # Fourier-Motzkin for the rest
    while True:
        cs = dedup(cs)
        occ = {}
        for t, c, s in cs:
            for x, v in t.items():
                if x not in keep:
                    o = occ.setdefault(x, [0, 0])
                    o[0 if v > 0 else 1] += 1
        if not occ:
            break
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k.id))
        pos, ng, rest = [], [], []
        for con in cs:
            v = con[0].get(var)
            if v is None:
                rest.append(con)
            elif v > 0:
                pos.append(con)
            else:
                ng.append(con)
        if len(pos) * len(ng) > 400:
            cs = rest      # give the bounds up: sound
            continue
        for a in pos:
            for b in ng:
                ka, kb = -b[0][var], a[0][var]
                f = add(scale(mk(a[1], a[0]), ka), scale(mk(b[1], b[0]), kb))
                r = norm_con(f, a[2] or b[2])
                if r is True:
                    continue
                if r is False:
                    return [({}, -1, False)]
                rest.append(r)
        cs = rest
    cs = dedup(cs)
    # drop what natural numbers give for free
    cs = [x for x in cs if not (not x[2] and x[1] >= 0 and all(v > 0 and y.kind == 'n' for y, v in x[0].items()))]
    if len(cs) > 1:
        cs = reduce_cons(cs)
    return cs


def reduce_cons(cs):
    cs = sorted(cs, key=lambda x: (len(x[0]), str(x[1])))
    ds = []
    rest = []
    nat = set()
    for con in cs:
        e = edge(*con)
        if e is None:
            rest.append(con)
        else:
            ds.append((e, con))
        nat.update(x for x in con[0] if x.kind == 'n')
    i = len(ds) - 1
    while i >= 0:
        es = [e for j, (e, _) in enumerate(ds) if j != i]
        e = ds[i][0]
        if shortest(adj(es, nat), e[0], e[1], e[2]):
            del ds[i]
        i -= 1
    dc = [c for _, c in ds]
    i = len(rest) - 1
    while i >= 0:
        P = Poly()
        P.cons = dc + rest[:i] + rest[i + 1:]
        t, c, s = rest[i]
        if P.entails(Lin(c, t), s):
            del rest[i]
        i -= 1
    return dc + rest


def to_index(cons, ys):
    ix = {y: i for i, y in enumerate(ys)}
    out = []
    for t, c, s in cons:
        out.append((tuple(sorted((ix[x], v) for x, v in t.items())), c, s))
    return sorted(out, key=str)


def ipoly(icons, kinds):
    """polyhedron over index symbols"""
    ys = [Sym(k if k in 'nri' else 'i', 'y') for k in kinds]
    P = Poly()
    P.cons = [({ys[i]: v for i, v in t}, c, s) for t, c, s in icons]
    return P, ys


def covers(icons_big, icons_small, kinds):
    P, ys = ipoly(icons_small, kinds)
    for t, c, s in icons_big:
        f = mk(c, {ys[i]: v for i, v in t})
        if type(f) is not Lin:
            if (f > 0) if s else (f >= 0):
                continue
            return infeasible(P.cons)
        if not P.entails(f, s):
            return False
    return True


class Closure:
    """all bounds on differences of variables that follow from the difference constraints of a polyhedron"""

    def __init__(self, P):
        self.P = P
        es = []
        self.mixed = set()
        nat = set()
        for t, c, s in P.cons:
            e = edge(t, c, s)
            if e is None:
                self.mixed.update(t)
            else:
                es.append(e)
            nat.update(x for x in t if x.kind == 'n')
        comp = components(P.cons)
        bad = set(comp[x] for x in self.mixed)
        self.impure = set(x for x in comp if comp[x] in bad)
        self.adj = adj(es, nat)
        self.d = {}

    def dist(self, src):
        d = self.d.get(src, 0)
        if d != 0:
            return d
        dist = {src: (0, 0)}
        todo = [src]
        n = 0
        while todo:
            nxt = []
            for u in todo:
                du = dist[u]
                for v, w in self.adj.get(u, ()):
                    x = (du[0] + w[0], du[1] + w[1])
                    o = dist.get(v)
                    if o is None or x < o:
                        dist[v] = x
                        if v not in nxt:
                            nxt.append(v)
            todo = nxt
            n += 1
            if n > len(self.adj) + 2:
                dist = None      # no solution at all
                break
        self.d[src] = dist
        return dist

    def implies(self, x, y, c):
        """is x - y + c >= 0 (x, y may be None)?  None: only a full test can tell"""
        d = self.dist(x)
        if d is None:
            return True
        w = d.get(y)
        if w is not None and w <= (c, 0):
            return True
        if self.impure and (x in self.impure or y in self.impure or self.touch()):
            return None
        return False

    def touch(self):
        return False


def uppers(cons):
    return set(x for t, c, s in cons if len(t) == 1 for x, v in t.items() if v < 0)


def components(cons):
    """variables linked by constraints (bounds of single variables follow without relating them)"""
    par = {}

    def find(x):
        while par[x] is not x:
            x = par[x]
        return x
    for t, c, s in cons:
        l = list(t)
        for x in l:
            par.setdefault(x, x)
        for x in l[1:]:
            a, b = find(l[0]), find(x)
            if a is not b:
                par[a] = b
    return {x: id(find(x)) for x in par}


def join(a, b, kinds, sizes, count=0):
    """constraints implied by both (with relational templates between stored numbers and container sizes)"""
    PA, ya = ipoly(a, kinds)
    PB = Poly()
    PB.cons = [({ya[i]: v for i, v in t}, c, s) for t, c, s in b]
    if infeasible(PA.cons):
        return b
    out = []
    for P, O in (((PA, PB), (PB, PA)) if count < 1 else ((PA, PB),)):      # later: widening
        for t, c, s in P.cons:
            if O.entails(Lin(c, t), s):
                out.append((t, c, s))
    forms = [lin(y) for y in ya]
    ks = list(kinds)
    consts = [1, 2]
    for t, k in sizes:
        if not t:
            if k > 2 and k not in consts:
                consts.append(k)
        elif len(t) > 1 or k:
            forms.append(Lin(k, {ya[i]: v for i, v in t.items()}))
            ks.append('n')
    related = set()
    for P in (PA, PB):
        for t, c, s in P.cons:
            related.update(t)
    if True:
        CA, CB = Closure(PA), Closure(PB)
        single = [next(iter(f.t)) if len(f.t) == 1 and f.c == 0 and next(iter(f.t.values())) == 1 else None for f in forms]

        def both(g, x, y, c, plain):
            for P, C in ((PA, CA), (PB, CB)):
                r = C.implies(x, y, c) if plain else None
                if r is None:
                    r = P.entails(g)
                if not r:
                    return False
            return True
        for i, f in enumerate(forms):
            if not any(x in related for x in f.t):
                continue
            si = single[i]
            if ks[i] == 'n':
                best = None
                for c in sorted(consts):
                    g = sub(f, c)
                    if not both(g, si, None, -c, si is not None):
                        break
                    best = g
                if best is not None:
                    r = norm_con(best, False)
                    if r is not True and r is not False:
                        out.append(r)
            for j, h in enumerate(forms):
                if i == j or (ks[i] == 'r') != (ks[j] == 'r') or not any(x in related for x in h.t):
                    continue
                d = sub(f, h)
                if type(d) is not Lin:
                    continue
                sj = single[j]
                best = None
                for c in ((-1, 0, 1) if ks[i] != 'r' else (0,)):
                    g = sub(d, c)
                    if not both(g, si, sj, -c, si is not None and sj is not None):
                        break
                    best = g
                if best is not None:
                    r = norm_con(best, False)
                    if r is not True and r is not False:
                        out.append(r)
    out = reduce_cons(dedup(out))
    return to_index(out, ya)
