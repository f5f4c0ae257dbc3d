"""Models of the standard library and of the client's opaque types."""
from core import *
import core


def cat(I, F, i):
    """value category of argument i: 'r' for rvalue reference parameters, else 'l'"""
    return 'r' if I.P.types[F.params[i]['t']]['k'] == 'rref' else 'l'


def ret_rec(I, F):
    return I.P.trec(F.ret)


def ret_obj(I, F):
    return I.new_obj(ret_rec(I, F))


def scal(I, a):
    """value of a by-reference or by-value scalar argument"""
    return I.load(a) if type(a) is LRef else a


def pos_of(o):
    if isinstance(o, Pos):
        return o
    if isinstance(o, Obj):
        if isinstance(o.n, Pos):
            return o.n
        if o.n is None:
            return Pos(None, None)
    if isinstance(o, EPtr):
        return o.pos
    raise Unsupported('iterator expected: %r' % (o,))


def mk_pair(I, rec, a, b):
    o = Obj(rec)
    fl = I.P.recs[rec]['fields']
    I.adopt(o, fl[0]['id'], a)
    I.adopt(o, fl[1]['id'], b)
    return o


def pair_of(I, rec, name):
    for fl in I.P.recs[rec]['fields']:
        if fl['n'] == name:
            return fl['id']
    raise Unsupported('field %s' % name)


def build(I, t, args, cats):
    """construct a value of type t from arguments (natively expanded emplace)"""
    P = I.P
    ty = P.types[t]
    if ty['k'] != 'rec':
        if not args:
            return I.zero(ty)
        return scal(I, args[0])
    rec = ty['r']
    q = P.rq(rec)
    if len(args) == 1 and isinstance(args[0], Obj) and args[0].rec is not None and P.is_sub(args[0].rec, rec):
        o = I.new_obj(rec)
        I.copy_into(o, args[0], rec, cats[0] == 'r')
        return o
    o = I.new_obj(rec)
    h = NATIVE_RECS.get(q)
    if h is not None and hasattr(h, 'construct'):
        h.construct(I, o, args, cats)
        return o
    if not args:
        I.default_construct(o, rec, True)
        return o
    cands = []
    for f in P.funcs.values():
        if f.ctor and f.rec == rec and len(f.params) == len(args) and (f.body is not None or f.inits):
            ok = True
            score = 0
            for p, a, c in zip(f.params, args, cats):
                pt = P.types[p['t']]
                k = pt['k']
                st = P.types[P.strip(p['t'])]
                if k == 'rref' and c != 'r':
                    ok = False
                    break
                if isinstance(a, Obj):
                    if st['k'] != 'rec' or a.rec is None or not P.is_sub(a.rec, st['r']):
                        ok = False
                        break
                elif st['k'] == 'rec':
                    ok = False
                    break
                if (k == 'rref') == (c == 'r'):
                    score += 1
            if ok:
                cands.append((score, -f.id, f))
    if not cands:
        if P.recs[rec].get('fields') and len(P.recs[rec]['fields']) == len(args) and not P.bases[rec]:
            for fl, a, c in zip(P.recs[rec]['fields'], args, cats):
                I.adopt(o, fl['id'], build(I, fl['t'], [a], [c]))
            return o
        raise Unsupported('no constructor found for %s' % q)
    f = max(cands)[2]
    vals = []
    for p, a in zip(f.params, args):
        if P.types[p['t']]['k'] in ('lref', 'rref'):
            vals.append(a)
        elif isinstance(a, Obj):
            vals.append(I.copy_obj(a))
        else:
            vals.append(scal(I, a))
    I.construct(o, f, vals)
    return o


def tuple_parts(I, o):
    """elements of a std::tuple object (in order)"""
    out = []

    def walk(x, rec):
        P = I.P
        for b in P.bases[rec]:
            if P.rq(b) == 'std::_Head_base':
                for fl in P.recs[b]['fields']:
                    v = x.f.get(fl['id'])
                    out.append((v.t if type(v) is Ref else v if isinstance(v, Obj) else LRef(x, fl['id']), fl['t']))
        for b in P.bases[rec]:
            if P.rq(b) in ('std::_Tuple_impl', 'std::tuple'):
                walk(x, b)
    walk(o, o.rec)
    res = []
    for v, t in out:
        res.append((v, 'r' if I.P.types[t]['k'] == 'rref' else 'l'))
    return res


class Nat:
    def __init__(self):
        pass

    def init(self, I, o):
        pass

    def kill(self, I, o):
        pass

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n = src.n

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        dst.n = src.n

    def member(self, I, o, name):
        raise Unsupported('member %s of a library object' % name)

    def method(self, P, f):
        if f.ctor:
            if f.d.get('cc') or (f.d.get('mc')):
                mv = bool(f.d.get('mc'))
                return lambda I, F, this, args: self.copy(I, this, args[0], mv)
            return self.ctor
        if f.d.get('dtor'):
            return lambda I, F, this, args: None
        if f.d.get('ca') or f.d.get('ma'):
            mv = bool(f.d.get('ma'))

            def asg(I, F, this, args):
                self.assign(I, this, args[0], mv)
                return this
            return asg
        n = f.name
        op = f.d.get('op')
        if op:
            n = 'op' + op
        m = self.M.get(n)
        if m is None and f.d.get('conv') or (m is None and n.startswith('operator ')):
            m = self.M.get(n)
        if m is None:
            return None

        def run(I, F, this, args):
            if type(this) is Obj and not this.alive:
                I.check_alive(this, 'call of %s' % F.name)
            return m(I, F, this, args)
        return run

    def ctor(self, I, F, this, args):
        if not args:
            return
        raise Unsupported('constructor of %s with %d arguments' % (F.q, len(args)))
    M = {}


# ------------------------------------------------------------------- client types
class NK(Nat):
    """keys, values and their arguments: o.n is the identity (Cls for keys, Sym for values) or 'moved'"""

    def __init__(self, kind):
        self.kind = kind

    def chk(self, I, src, what):
        I.check_alive(src, what)
        if src.n == 'moved':
            I.bug('moved', 'a %s is read after it has been moved from' % self.kind)
        if src.n is None:
            I.bug('uninit', 'a %s is read before it is initialised' % self.kind)

    def copy(self, I, dst, src, move):
        self.chk(I, src, 'copy')
        if not move:
            I.may_throw('copy of a %s' % self.kind)
            I.note_copy(self.kind, src)
        dst.n = src.n
        if move:
            self.moved_from(I, src)

    def assign(self, I, dst, src, move):
        self.chk(I, src, 'assignment')
        I.check_alive(dst, 'assignment target')
        if not move:
            I.may_throw('assignment of a %s' % self.kind)
            I.note_copy(self.kind, src)
        I.note_write(self.kind, dst)
        dst.n = src.n
        if move and dst is not src:
            self.moved_from(I, src)

    def moved_from(self, I, src):
        I.note_move(self.kind, src)
        src.n = 'moved'

    def construct(self, I, o, args, cats):
        self.from_args(I, o, args, cats)

    def ctor(self, I, F, this, args):
        self.from_args(I, this, args, [cat(I, F, i) for i in range(len(args))])

    def from_args(self, I, o, args, cats):
        if not args:
            raise Unsupported('default constructed %s' % self.kind)
        for a in args:
            if not isinstance(a, Obj):
                raise Unsupported('argument of a %s' % self.kind)
            NATIVE_RECS[I.P.rq(a.rec)].chk(I, a, 'construction')
        I.may_throw('construction of a %s' % self.kind)
        o.n = args[0].n
        if len(args) > 1:
            I.note_pair(self.kind, args)
        for a, c in zip(args, cats):
            if c == 'r':
                NATIVE_RECS[I.P.rq(a.rec)].moved_from(I, a)


def key_eq(I, F, this, args):
    a, b = args
    for x in (a, b):
        NATIVE_RECS['vf::K'].chk(I, x, 'comparison')
    return same_key(I, a, b)


def same_key(I, a, b):
    if a.n is b.n:
        if a is not b and not a.n.single:
            raise Unsupported('comparison of summarised keys')
        return True
    return False


def val_eq(I, F, this, args):
    a, b = args
    for x in (a, b):
        NATIVE_RECS['vf::V'].chk(I, x, 'comparison')
    return I.same_value(a.n, b.n)


class NTypeIndex(Nat):
    """std::type_index: the identity of a type, kept as a class like that of keys"""

    def ctor(self, I, F, this, args):
        this.n = args[0].n

    def copy(self, I, dst, src, move):
        dst.n = src.n

    def assign(self, I, dst, src, move):
        dst.n = src.n


class NWrapped(Nat):
    """the function given to wrap"""

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n = src.n

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n = src.n

    def method(self, P, f):
        if f.d.get('op') == '()':
            return self.call
        return Nat.method(self, P, f)

    def call(self, I, F, this, args):
        I.check_alive(this, 'the wrapped function')
        NATIVE_RECS['vf::K'].chk(I, args[0], 'argument of the wrapped function')
        o = I.new_obj(I.P.trec(F.ret))
        k = args[0].n
        c = cat(I, F, 0)
        if len(args) == 2:
            NATIVE_RECS['vf::K'].chk(I, args[1], 'argument of the wrapped function')
        elif c == 'r':
            # takes its argument
            NATIVE_RECS['vf::K'].moved_from(I, args[0])
        elif not I.P.types[I.P.strip(F.params[0]['t'])].get('const'):
            # changes its argument
            args[0].n = Cls(True, 1)
        o.n = I.original(this.n, k if len(args) == 1 else (k, args[1].n))
        return o


class NFunctor(Nat):
    """hash and equality functors, callbacks: identity in o.n"""

    def __init__(self, kind):
        self.kind = kind

    def ctor(self, I, F, this, args):
        this.n = 'default'

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n = src.n

    def method(self, P, f):
        if f.d.get('op') == '()':
            if self.kind == 'hash':
                return self.hash
            if self.kind == 'eq':
                return self.eq
            return self.cb
        return Nat.method(self, P, f)

    def hash(self, I, F, this, args):
        I.check_alive(this, 'hash function')
        NATIVE_RECS['vf::K'].chk(I, args[0], 'hash')
        I.used_functor('hash', this.n)
        return Term('hash', id(args[0].n))

    def eq(self, I, F, this, args):
        I.check_alive(this, 'equality function')
        I.used_functor('eq', this.n)
        I.count('key_eq', None)
        return key_eq(I, F, None, args)

    def cb(self, I, F, this, args):
        I.check_alive(this, 'callback')
        I.callback(self.kind, this, args)


class NStdHash(Nat):
    def hash(self, I, F, this, args):
        a = args[0]
        if isinstance(a, Obj):
            return Term('hash', id(a.n))
        if isinstance(a, LRef):
            a = I.load(a)
        return Term('hash', a.t) if isinstance(a, Ptr) else Term('hash', 0)

    def method(self, P, f):
        r = P.trec(P.targ(f.rec, 0)) if P.recs[f.rec].get('ta') else None
        if r is not None and P.rq(r) == 'std::tuple' and f.body is not None and not f.ctor:
            return None             # the library's own hash of argument lists
        if f.d.get('op') == '()':
            return self.hash
        return Nat.method(self, P, f)


# ------------------------------------------------------------------- iterators
class NIter(Nat):
    def __init__(self):
        self.M = {'op*': self.star, 'op->': self.arrow, 'op++': self.inc, 'op--': self.dec, 'op==': self.eq,
                  'op!=': self.ne, 'base': self.base, 'op+': self.plus, 'op-': self.minus, 'op+=': self.pluseq,
                  'op<': self.lt, 'op[]': self.idx}

    def init(self, I, o):
        o.n = Pos(None, None)

    def ctor(self, I, F, this, args):
        if not args:
            this.n = Pos(None, None)
            return
        a = args[0]
        if isinstance(a, LRef):
            a = I.load(a)
        if isinstance(a, Obj):
            I.check_alive(a, 'iterator')
        this.n = pos_of(a)

    def star(self, I, F, this, args):
        return I.H.elem_target(this.n)

    def arrow(self, I, F, this, args):
        return Ptr(I.H.elem_target(this.n))

    def step(self, I, F, this, args, fn):
        old = this.n
        new = fn(old)
        this.n = new
        if args:
            o = I.new_obj(this.rec)
            o.n = old
            return o
        return this

    def inc(self, I, F, this, args):
        return self.step(I, F, this, args, I.H.next)

    def dec(self, I, F, this, args):
        return self.step(I, F, this, args, I.H.prev)

    def eq(self, I, F, this, args):
        return iter_eq(I, F, None, [this, args[0]])

    def ne(self, I, F, this, args):
        return not iter_eq(I, F, None, [this, args[0]])

    def base(self, I, F, this, args):
        return I.cell(EPtr(this.n))

    def move(self, I, this, n):
        n = scal(I, n)
        if not isinstance(n, int):
            raise Unsupported('symbolic iterator arithmetic')
        p = this.n
        for _ in range(abs(n)):
            p = I.H.next(p) if n > 0 else I.H.prev(p)
        return p

    def plus(self, I, F, this, args):
        o = I.new_obj(this.rec)
        o.n = self.move(I, this, args[0])
        return o

    def pluseq(self, I, F, this, args):
        this.n = self.move(I, this, args[0])
        return this

    def minus(self, I, F, this, args):
        if isinstance(args[0], Obj):
            return I.H.distance(args[0].n, this.n)
        o = I.new_obj(this.rec)
        o.n = self.move(I, this, neg(scal(I, args[0])))
        return o

    def idx(self, I, F, this, args):
        return I.H.elem_target(self.move(I, this, args[0]))

    def lt(self, I, F, this, args):
        return I.ge(I.H.distance(this.n, args[0].n), True)


def chk_cmp(I, p):
    if p.e is None:
        if p.end is None:
            return
        if not p.end.alive:
            I.check_alive(p.end, 'comparison with its end iterator')
    elif not p.e.alive:
        if p.e.alive is None:
            raise Unsupported('stale iterator')
        I.bug('dead', 'comparison of an iterator to an erased element')


def iter_eq(I, F, this, args):
    a, b = args
    for x in (a, b):
        if isinstance(x, Obj):
            I.check_alive(x, 'comparison')
    pa, pb = pos_of(a), pos_of(b)
    chk_cmp(I, pa)
    chk_cmp(I, pb)
    sa = (pa.e is None and pa.end is None)
    sb = (pb.e is None and pb.end is None)
    if sa != sb:
        I.bug('singular', 'comparison of a singular iterator')
    ca, cb = cont_owner(pa), cont_owner(pb)
    if ca is not None and cb is not None and ca is not cb:
        I.bug('foreign', 'comparison of iterators of different containers')
    return pa == pb


def cont_owner(p):
    if p.e is not None:
        return p.e.cont.owner
    return p.end


def iter_ne(I, F, this, args):
    return not iter_eq(I, F, this, args)


def iter_minus(I, F, this, args):
    return I.H.distance(args[1].n, args[0].n)


# ------------------------------------------------------------------- sequences
def elem_obj(v, I):
    """storage object of a new sequence element holding value v"""
    if type(v) is Obj:
        return v
    return I.cell(v).o


class NSeq(Nat):
    kind = 'seq'

    def __init__(self, kind):
        self.kind = kind
        M = {}
        for n in ('begin', 'cbegin'):
            M[n] = self.begin
        for n in ('end', 'cend'):
            M[n] = self.end
        M.update({'clear': self.clear, 'emplace_back': self.emplace_back, 'push_back': self.push_back,
                  'emplace_front': self.emplace_front, 'push_front': self.emplace_front,
                  'pop_front': self.pop_front, 'pop_back': self.pop_back,
                  'front': self.front, 'back': self.back, 'size': self.size, 'empty': self.empty,
                  'erase': self.erase, 'insert': self.insert, 'emplace': self.insert, 'splice': self.splice,
                  'swap': self.swap, 'reserve': self.nop, 'shrink_to_fit': self.nop, 'op[]': self.index, 'at': self.index,
                  'capacity': self.cap, 'resize': self.resize, 'assign': self.assign_m, 'get_allocator': self.alloc})
        self.M = M

    def init(self, I, o):
        o.n = SeqC(self.kind)
        o.n.owner = o

    def kill(self, I, o):
        if isinstance(o.n, SeqC):
            for it in o.n.items:
                for e in it:
                    if e.alive:
                        I.H.kill_elem(e)

    def nop(self, I, F, this, args):
        return None

    def alloc(self, I, F, this, args):
        return ret_obj(I, F)

    def cap(self, I, F, this, args):
        return fresh('n', 'capacity')

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        if move:
            self.take_over(I, dst, src)
        else:
            if src.n.items:
                I.may_throw('list allocation')
            I.H.copy_seq(src.n, dst.n)

    def take_over(self, I, dst, src):
        for it in src.n.items:
            for e in it:
                e.cont = dst.n
        dst.n.items = src.n.items
        src.n.items = []

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        if src is dst:
            return
        if move:
            I.H.clear_seq(dst.n)
            self.take_over(I, dst, src)
            return
        if src.n.items:
            I.may_throw('list allocation')
        I.H.clear_seq(dst.n)
        I.H.copy_seq(src.n, dst.n)

    def ctor(self, I, F, this, args):
        P = I.P
        if not args:
            return
        t = P.types[P.strip(F.params[0]['t'])]
        q = P.rq(t['r']) if t['k'] == 'rec' else None
        if q == 'std::allocator':
            return
        if q in ('std::list', 'std::vector'):
            return self.copy(I, this, args[0], P.types[F.params[0]['t']]['k'] == 'rref')
        if q == 'std::initializer_list':
            il = args[0].n
            if il is not None:
                I.H.copy_seq(il[1].n, this.n)
            return
        if len(args) >= 2 and isinstance(args[0], Obj) and isinstance(args[0].n, Pos):
            return self.fill(I, this, args[0].n, args[1].n)
        if t['k'] == 'int' and scal(I, args[0]) == 0:
            return
        raise Unsupported('constructor of %s' % F.q)

    def fill(self, I, this, a, b):
        n = 0
        t = I.P.targ(this.rec, 0)
        while a != b:
            I.H.push_back(this.n, elem_obj(build(I, t, [I.H.elem_target(a)], ['l']), I))
            a = I.H.next(a)
            n += 1
            if n > 8:
                raise Unsupported('copying a long range')

    def begin(self, I, F, this, args):
        o = ret_obj(I, F)
        o.n = I.H.begin(this.n)
        return o

    def end(self, I, F, this, args):
        o = ret_obj(I, F)
        o.n = I.H.end(this.n)
        return o

    def clear(self, I, F, this, args):
        I.H.clear_seq(this.n)

    def place(self, I, F, this, args, off=0):
        a = args[off:]
        cats = [cat(I, F, i + off) for i in range(len(a))]
        I.may_throw('%s node allocation' % self.kind)
        return elem_obj(build(I, I.P.targ(this.rec, 0), a, cats), I)

    def insert_obj(self, I, this, pos, obj):
        cls = I.home_class(obj, this.n)
        return I.H.insert_at(this.n, pos, obj, cls)

    def emplace_back(self, I, F, this, args):
        e = self.insert_obj(I, this, I.H.end(this.n), self.place(I, F, this, args))
        return I.H.target(e)

    push_back = emplace_back

    def emplace_front(self, I, F, this, args):
        o = self.place(I, F, this, args)
        e = self.insert_obj(I, this, I.H.begin(this.n), o)
        return I.H.target(e)

    def insert(self, I, F, this, args):
        p = pos_of(args[0])
        self.own(I, this, p)
        if len(args) > 1 and isinstance(args[1], Obj) and isinstance(args[1].n, Pos):
            raise Unsupported('range insertion')
        e = self.insert_obj(I, this, p, self.place(I, F, this, args, 1))
        o = ret_obj(I, F)
        o.n = Pos(e, None)
        return o

    def own(self, I, this, p):
        if p.e is None:
            if p.end is None:
                I.bug('singular', 'a singular iterator is used as a position')
            if p.end is not this:
                I.bug('foreign', 'the end iterator of another container is used as a position')
        else:
            I.H.check_pos(p, 'use of')
            if p.e.cont is not this.n:
                I.bug('foreign', 'an iterator of another container is used as a position')

    def nonempty(self, I, this, what):
        if not this.n.items:
            I.bug('empty', '%s of an empty %s' % (what, self.kind))

    def pop_front(self, I, F, this, args):
        self.nonempty(I, this, 'pop_front')
        I.H.erase_elem(I.H.begin(this.n).e)

    def pop_back(self, I, F, this, args):
        self.nonempty(I, this, 'pop_back')
        I.H.erase_elem(I.H.prev(I.H.end(this.n)).e)

    def front(self, I, F, this, args):
        self.nonempty(I, this, 'front')
        return I.H.elem_target(I.H.begin(this.n))

    def back(self, I, F, this, args):
        self.nonempty(I, this, 'back')
        return I.H.elem_target(I.quiet_count(lambda: I.H.prev(I.H.end(this.n))))

    def size(self, I, F, this, args):
        return I.H.seq_len(this.n)

    def empty(self, I, F, this, args):
        return not this.n.items

    def erase(self, I, F, this, args):
        p = pos_of(args[0])
        I.H.check_pos(p, 'erasing at')
        self.own(I, this, p)
        if len(args) == 2:
            q = pos_of(args[1])
            self.own(I, this, q)
            n = 0
            while p != q:
                nx = I.H.next(p)
                I.H.erase_elem(p.e)
                p = nx
                n += 1
                if n > 6:
                    raise Unsupported('erasing a range')
            nx = p
        else:
            nx = I.quiet_count(lambda: I.H.next(p)) if F.ret and I.P.types[F.ret]['k'] != 'void' and I.want_result() else None
            I.H.erase_elem(p.e)
        o = ret_obj(I, F)
        o.n = nx if nx is not None else Pos(None, None)
        return o

    def splice(self, I, F, this, args):
        p = pos_of(args[0])
        self.own(I, this, p)
        src = args[1]
        I.check_alive(src, 'splice source')
        if len(args) == 2:
            items = src.n.items
            src.n.items = []
            i = len(this.n.items) if p.e is None else I.H.item_index(this.n, p.e)
            for it in items:
                for e in it:
                    e.cont = this.n
            this.n.items[i:i] = items
            return
        if len(args) != 3:
            raise Unsupported('range splice')
        x = pos_of(args[2])
        I.H.check_pos(x, 'splicing')
        if x.e.cont is not src.n:
            I.bug('foreign', 'an iterator of another list is spliced')
        if p.e is x.e:
            return
        e = x.e
        I.H.remove_elem(e)
        e.cont = this.n
        if p.e is None:
            this.n.items.append([e])
        else:
            this.n.items.insert(I.H.item_index(this.n, p.e), [e])

    def swap(self, I, F, this, args):
        o = args[0]
        I.check_alive(o, 'swap')
        a, b = this.n, o.n
        this.n, o.n = b, a
        b.owner, a.owner = this, o

    def index(self, I, F, this, args):
        i = scal(I, args[0])
        if not isinstance(i, int):
            raise Unsupported('symbolic index')
        p = I.H.begin(this.n)
        for _ in range(i):
            p = I.H.next(p)
        return I.H.elem_target(p)

    def resize(self, I, F, this, args):
        raise Unsupported('resize')

    def assign_m(self, I, F, this, args):
        raise Unsupported('assign')


class NIL(Nat):
    def __init__(self):
        self.M = {'begin': self.begin, 'end': self.end, 'size': self.size}

    def begin(self, I, F, this, args):
        if this.n is None:
            return Ptr(None)
        return EPtr(I.H.begin(this.n[1].n))

    def end(self, I, F, this, args):
        if this.n is None:
            return Ptr(None)
        return EPtr(I.H.end(this.n[1].n))

    def size(self, I, F, this, args):
        if this.n is None:
            return 0
        return I.H.seq_len(this.n[1].n)


# ------------------------------------------------------------------- unordered_map
class NMap(Nat):
    def __init__(self):
        M = {}
        for n in ('begin', 'cbegin'):
            M[n] = self.begin
        for n in ('end', 'cend'):
            M[n] = self.end
        M.update({'clear': self.clear, 'find': self.find, 'count': self.count, 'contains': self.contains,
                  'size': self.size, 'empty': self.empty, 'erase': self.erase, 'emplace': self.emplace,
                  'insert': self.insert, 'try_emplace': self.try_emplace, 'insert_or_assign': self.insert_or_assign,
                  'op[]': self.index, 'at': self.at, 'swap': self.swap, 'hash_function': self.hashf, 'key_eq': self.keyeq,
                  'reserve': self.nop, 'rehash': self.nop, 'get_allocator': self.alloc, 'bucket_count': self.bc,
                  'equal_range': self.unsup, 'max_size': self.bc, '_M_equal': self.equal})
        self.M = M

    def init(self, I, o):
        m = MapC()
        m.owner = o
        o.n = m
        m.hash = 'default'
        m.eq = 'default'

    def unsup(self, I, F, this, args):
        raise Unsupported('map member %s' % F.name)

    def nop(self, I, F, this, args):
        return None

    def alloc(self, I, F, this, args):
        return ret_obj(I, F)

    def bc(self, I, F, this, args):
        return fresh('n', 'buckets')

    def kill(self, I, o):
        if isinstance(o.n, MapC):
            for e in o.n.ents:
                if e.alive:
                    I.H.kill_elem(e)

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n.hash, dst.n.eq = src.n.hash, src.n.eq
        if move:
            self.take_over(dst, src)
        else:
            if src.n.ents:
                I.may_throw('map allocation')
            I.H.copy_map(src.n, dst.n)

    def take_over(self, dst, src):
        for e in src.n.ents:
            e.cont = dst.n
        dst.n.ents = src.n.ents
        dst.n.loose = src.n.loose
        src.n.loose = False
        src.n.ents = []
        src.n.first = None
        src.n.succ = []

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        if src is dst:
            return
        dst.n.hash, dst.n.eq = src.n.hash, src.n.eq
        if move:
            I.H.clear_map(dst.n)
            self.take_over(dst, src)
            return
        if src.n.ents:
            I.may_throw('map allocation')
        # libstdc++ reuses the nodes of the target: the old elements end, new ones are constructed
        I.H.clear_map(dst.n)
        I.H.copy_map(src.n, dst.n)

    def ctor(self, I, F, this, args):
        P = I.P
        m = this.n
        for i, a in enumerate(args):
            t = P.types[P.strip(F.params[i]['t'])]
            q = P.rq(t['r']) if t['k'] == 'rec' else None
            if q == 'vf::H':
                m.hash = a.n
            elif q == 'vf::E':
                m.eq = a.n
            elif q == 'std::unordered_map':
                self.copy(I, this, a, P.types[F.params[i]['t']]['k'] == 'rref')
            elif q == 'std::initializer_list':
                if a.n is not None and a.n[1].n.items:
                    raise Unsupported('map from a list')
            elif q in ('std::allocator', 'std::hash', 'std::equal_to') or t['k'] == 'int':
                pass
            else:
                raise Unsupported('constructor of unordered_map')

    # --- helpers
    def key(self, I, a):
        from shape import key_in, owned_of
        t = a
        a = key_in(I.P, a) if isinstance(a, Obj) else None
        if a is None:
            l = []
            if isinstance(t, Obj) and t.rec is not None and I.P.rq(t.rec) == 'std::tuple':
                l = [x for x in owned_of(t) if x.rec is not None and I.P.rq(x.rec) == 'vf::K']
            if not l:
                raise Unsupported('map key')
            # one class for every list of keys that was met
            for x in l:
                NATIVE_RECS['vf::K'].chk(I, x, 'hash')
            ks = [x.n for x in l]
            if any(type(k) is not Cls or not k.single for k in ks):
                raise Unsupported('key identity')
            met = I.S.statics.setdefault('key lists', [])
            for m, c in met:
                if len(m) == len(ks) and all(x is y for x, y in zip(m, ks)):
                    return c
            met.append((ks, Cls(True, 1)))
            return met[-1][1]
        NATIVE_RECS['vf::K'].chk(I, a, 'hash')
        if not isinstance(a.n, Cls):
            raise Unsupported('key identity')
        return a.n

    def look(self, I, this, a):
        m = this.n
        c = self.key(I, a)
        I.count('hash', m)
        if not c.single:
            raise Unsupported('lookup of a summarised key')
        return I.H.map_find(m, c)

    def it(self, I, rec, this, e):
        o = I.new_obj(rec)
        o.n = Pos(e, None) if e is not None else Pos(None, this)
        return o

    def begin(self, I, F, this, args):
        if args:
            raise Unsupported('bucket iteration')
        o = ret_obj(I, F)
        o.n = I.H.map_begin(this.n)
        return o

    def end(self, I, F, this, args):
        o = ret_obj(I, F)
        o.n = Pos(None, this)
        return o

    def find(self, I, F, this, args):
        return self.it(I, ret_rec(I, F), this, self.look(I, this, args[0]))

    def count(self, I, F, this, args):
        return 1 if self.look(I, this, args[0]) is not None else 0

    def contains(self, I, F, this, args):
        return self.look(I, this, args[0]) is not None

    def size(self, I, F, this, args):
        if this.n.loose:
            return fresh('n', 'entries')
        return I.H.map_len(this.n)

    def empty(self, I, F, this, args):
        if this.n.loose:
            return I.choose(2, 'open map empty') == 1
        return not this.n.ents

    def clear(self, I, F, this, args):
        if this.n.loose:
            raise Unsupported('clearing an open map')
        I.H.clear_map(this.n)

    def erase(self, I, F, this, args):
        a = args[0]
        if isinstance(a, Obj) and isinstance(a.n, Pos):
            p = a.n
            I.H.check_pos(p, 'erasing at')
            if p.e.cont is not this.n:
                I.bug('foreign', 'an iterator of another map is erased')
            if len(args) > 1:
                raise Unsupported('erasing a range')
            nx = None
            if I.want_result():
                nx = I.quiet_count(lambda: I.H.next(p))
            m = this.n
            first = m.first
            succ = m.succ
            e = p.e
            I.H.erase_elem(e)
            # the relative order of the remaining elements is preserved
            m.first = (nx.e if nx is not None else None) if first is e else first
            m.succ = [(x, y) for x, y in succ if x is not e and y is not e]
            if nx is not None:
                for x, y in succ:
                    if y is e:
                        m.succ.append((x, nx.e if nx.e is not None else 'end'))
            if ret_rec(I, F) is None:
                return None
            o = ret_obj(I, F)
            o.n = nx if nx is not None else Pos(None, None)
            return o
        e = self.look(I, this, a)
        if e is None:
            return 0
        k = elem_of_arg(a)
        I.H.erase_elem(e)
        return 1

    def node(self, I, this, kargs, kcats, vargs, vcats, prec=None):
        """a new node object (pair<const Key, Mapped>)"""
        P = I.P
        I.may_throw('map node allocation')
        rec = self.value_rec(I, this)
        k = build(I, P.targ(this.rec, 0), kargs, kcats)
        try:
            v = build(I, P.targ(this.rec, 1), vargs, vcats)
        except CppThrow:
            I.kill(k)
            raise
        return mk_pair(I, rec, k, v)

    def value_rec(self, I, this):
        P = I.P
        key = ('vr', this.rec)
        c = cache(I)
        if key not in c:
            K = P.types[P.targ(this.rec, 0)]
            V = P.types[P.targ(this.rec, 1)]
            res = None
            for i, r in enumerate(P.recs):
                if r['q'] == 'std::pair' and len(r.get('fields', [])) == 2:
                    a = P.types[r['fields'][0]['t']]
                    b = P.types[r['fields'][1]['t']]
                    if a['k'] == K['k'] == 'rec' and a['r'] == K['r'] and a.get('const') and b['k'] == V['k'] and \
                            (b.get('r') == V.get('r')) and not b.get('const'):
                        res = i
            if res is None:
                raise Unsupported('value type of a map')
            c[key] = res
        return c[key]

    def key_of(self, I, this, pair):
        return pair.f[pair_of(I, pair.rec, 'first')]

    def link(self, I, this, pair, pre=None):
        """insert a constructed node unless its key is present; (elem, inserted)"""
        kobj = self.key_of(I, this, pair)
        e = self.look(I, this, kobj)
        if e is not None:
            I.destroy(pair)
            I.kill(pair)
            return e, False
        e = I.H.new_elem(self.key(I, kobj), this.n, pair)
        this.n.ents.append(e)
        this.n.first = None
        return e, True

    def result(self, I, F, this, e, ins):
        rec = ret_rec(I, F)
        P = I.P
        if P.rq(rec) != 'std::pair':
            return self.it(I, rec, this, e)
        fl = P.recs[rec]['fields']
        it = self.it(I, P.types[fl[0]['t']]['r'], this, e)
        return mk_pair(I, rec, it, ins)

    def emplace_args(self, I, this, args, cats):
        P = I.P
        if len(args) == 3 and isinstance(args[0], Obj) and P.rq(args[0].rec) == 'std::piecewise_construct_t':
            ka = tuple_parts(I, args[1])
            va = tuple_parts(I, args[2])
            return self.node(I, this, [x for x, _ in ka], [c for _, c in ka], [x for x, _ in va], [c for _, c in va])
        if len(args) == 1 and isinstance(args[0], Obj) and P.rq(args[0].rec) == 'std::pair':
            a = args[0]
            f1, f2 = P.recs[a.rec]['fields'][0]['id'], P.recs[a.rec]['fields'][1]['id']
            k = a.f[f1]
            v = a.f[f2]
            k = k.t if type(k) is Ref else k
            v = v.t if type(v) is Ref else (v if isinstance(v, Obj) else LRef(a, f2))
            return self.node(I, this, [k], [cats[0] if not P.types[P.recs[a.rec]['fields'][0]['t']].get('const') else 'l'], [v], [cats[0]])
        if len(args) == 2:
            return self.node(I, this, [args[0]], [cats[0]], [args[1]], [cats[1]])
        raise Unsupported('emplace arguments')

    def emplace(self, I, F, this, args):
        p = self.emplace_args(I, this, args, [cat(I, F, i) for i in range(len(args))])
        e, ins = self.link(I, this, p)
        return self.result(I, F, this, e, ins)

    def insert(self, I, F, this, args):
        if len(args) != 1:
            raise Unsupported('map insert')
        return self.emplace(I, F, this, args)

    def try_emplace(self, I, F, this, args):
        e = self.look(I, this, args[0])
        if e is not None:
            return self.result(I, F, this, e, False)
        c = [cat(I, F, i) for i in range(len(args))]
        p = self.node(I, this, [args[0]], [c[0]], args[1:], c[1:])
        e, ins = self.link(I, this, p)
        return self.result(I, F, this, e, ins)

    def mapped(self, I, e):
        o = e.obj
        fid = pair_of(I, o.rec, 'second')
        v = o.f[fid]
        return v if isinstance(v, Obj) else LRef(o, fid)

    def insert_or_assign(self, I, F, this, args):
        e = self.look(I, this, args[0])
        if e is not None:
            t = self.mapped(I, e)
            if isinstance(t, Obj):
                I.assign_obj(t, args[1], t.rec, cat(I, F, 1) == 'r')
            else:
                I.store(t, scal(I, args[1]))
            return self.result(I, F, this, e, False)
        return self.try_emplace(I, F, this, args)

    def index(self, I, F, this, args):
        e = self.look(I, this, args[0])
        if e is None:
            p = self.node(I, this, [args[0]], [cat(I, F, 0)], [], [])
            e, _ = self.link(I, this, p)
        return self.mapped(I, e)

    def at(self, I, F, this, args):
        e = self.look(I, this, args[0])
        if e is None:
            raise CppThrow(None, -2, 'std::out_of_range')
        return self.mapped(I, e)

    def swap(self, I, F, this, args):
        o = args[0]
        I.check_alive(o, 'swap')
        a, b = this.n, o.n
        this.n, o.n = b, a
        b.owner, a.owner = this, o

    def hashf(self, I, F, this, args):
        o = ret_obj(I, F)
        o.n = this.n.hash
        return o

    def keyeq(self, I, F, this, args):
        o = ret_obj(I, F)
        o.n = this.n.eq
        return o

    def equal(self, I, F, this, args):
        raise Unsupported('map equality')


def elem_of_arg(a):
    return None


def cache(I):
    c = getattr(I.P, '_nat_cache', None)
    if c is None:
        c = I.P._nat_cache = {}
    return c


def map_equal(I, F, this, args):
    a, b = args
    if not isinstance(a.n, MapC):
        raise Unsupported('map equality')
    I.count('walk', a.n)
    if not I.numeq(I.H.map_len(a.n), I.H.map_len(b.n)):
        return False
    return I.maps_equal(a, b)


def map_nequal(I, F, this, args):
    return not map_equal(I, F, this, args)


# ------------------------------------------------------------------- smart pointers, function, ...
class NFunction(Nat):
    def __init__(self):
        self.M = {'op()': self.invoke, 'operator bool': self.boolean, 'opbool': self.boolean, 'swap': self.swap}

    def construct(self, I, this, args, cats):
        if not args:
            this.n = None
            return
        a = args[0]
        if isinstance(a, Obj):
            I.may_throw('std::function allocation')
            o = I.copy_obj(a)
            o.par = this
            this.n = o
        elif isinstance(a, FnRef):
            this.n = ('fn', a)
        else:
            raise Unsupported('std::function target')

    def ctor(self, I, F, this, args):
        if not args:
            this.n = None
            return
        a = args[0]
        if isinstance(a, Ptr) and a.t is None:
            this.n = None
            return
        if isinstance(a, FnRef):
            this.n = ('fn', a)
            return
        if isinstance(a, Obj):
            I.may_throw('std::function allocation')
            o = I.copy_obj(a, cat(I, F, 0) == 'r' and False)
            o.par = this
            this.n = o
            return
        raise Unsupported('std::function target')

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        if isinstance(src.n, Obj) and not move:
            I.may_throw('std::function allocation')
            o = I.copy_obj(src.n)
            o.par = dst
            dst.n = o
        else:
            dst.n = src.n
            if isinstance(src.n, Obj):
                src.n.par = dst
            if move:
                src.n = None

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        if dst is src:
            return
        self.copy(I, dst, src, move)

    def swap(self, I, F, this, args):
        o = args[0]
        this.n, o.n = o.n, this.n
        for x in (this, o):
            if isinstance(x.n, Obj):
                x.n.par = x

    def boolean(self, I, F, this, args):
        return this.n is not None

    def invoke(self, I, F, this, args):
        t = this.n
        if t is None:
            I.bug('null', 'call of an empty std::function')
        if isinstance(t, tuple):
            return I.call(I.P.funcs[t[1].f], None, args)
        P = I.P
        if P.rq(t.rec) in ('vf::FH', 'vf::FM', 'vf::FA', 'vf::FW'):
            return NATIVE_RECS[P.rq(t.rec)].cb(I, F, t, args)
        for m in P.recs[t.rec].get('methods', []):
            f = P.funcs[m]
            if f.d.get('op') == '()' and f.body is not None and len(f.params) == len(args):
                return I.call(f, t, args)
        raise Unsupported('std::function target call')


class NShared(Nat):
    """shared_ptr: o.n is the pointee (Obj/LRef) or None; the pointee is never ended (it may be shared)"""

    def __init__(self):
        self.M = {'get': self.get, 'op*': self.star, 'op->': self.arrow, 'operator bool': self.boolean, 'opbool': self.boolean,
                  'reset': self.reset, 'swap': self.swap, 'use_count': self.uc, 'op==': self.eq, 'op!=': self.ne, 'op=': self.asg}

    def asg(self, I, F, this, args):
        a = args[0]
        if isinstance(a, Ptr):
            this.n = a.t
        else:
            self.assign(I, this, a, cat(I, F, 0) == 'r')
        return this

    def ctor(self, I, F, this, args):
        if not args:
            this.n = None
            return
        a = args[0]
        if isinstance(a, Obj) and (a.n is None or isinstance(a.n, (Obj, LRef))) and I.P.rq(a.rec) in ('std::shared_ptr', 'std::__shared_ptr', 'std::unique_ptr'):
            this.n = a.n
            if cat(I, F, 0) == 'r':
                a.n = None
            return
        if isinstance(a, Ptr):
            this.n = a.t
            return
        raise Unsupported('shared_ptr constructor')

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'copy')
        dst.n = src.n
        if move:
            src.n = None

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        v = src.n
        if move:
            src.n = None
        dst.n = v

    def get(self, I, F, this, args):
        return Ptr(this.n)

    def star(self, I, F, this, args):
        if this.n is None:
            I.bug('null', 'dereference of an empty shared_ptr')
        return this.n

    def arrow(self, I, F, this, args):
        if this.n is None:
            I.bug('null', 'dereference of an empty shared_ptr')
        return Ptr(this.n)

    def boolean(self, I, F, this, args):
        return this.n is not None

    def reset(self, I, F, this, args):
        this.n = args[0].t if args and isinstance(args[0], Ptr) else None

    def swap(self, I, F, this, args):
        o = args[0]
        I.check_alive(o, 'swap')
        this.n, o.n = o.n, this.n

    def uc(self, I, F, this, args):
        return fresh('n', 'use_count')

    def eq(self, I, F, this, args):
        o = args[0]
        t = o.n if isinstance(o, Obj) else None
        return same(this.n, t)

    def ne(self, I, F, this, args):
        return not self.eq(I, F, this, args)


class NUnique(Nat):
    def __init__(self):
        self.M = {'get': self.get, 'op*': self.star, 'op->': self.arrow, 'operator bool': self.boolean, 'opbool': self.boolean,
                  'reset': self.reset, 'swap': self.swap, 'release': self.release, 'op=': self.asg}

    def own(self, this, t):
        this.n = t
        if isinstance(t, Obj):
            t.par = this

    def drop(self, I, this):
        if isinstance(this.n, Obj):
            I.destroy(this.n)
        elif isinstance(this.n, LRef):
            I.kill(this.n.o)
        this.n = None

    def asg(self, I, F, this, args):
        a = args[0]
        if isinstance(a, Obj):
            self.assign(I, this, a, True)
        else:
            self.drop(I, this)
            self.own(this, a.t)
        return this

    def ctor(self, I, F, this, args):
        if not args:
            this.n = None
            return
        a = args[0]
        if isinstance(a, LRef):
            a = I.load(a)
        if isinstance(a, Ptr):
            self.own(this, a.t)
            return
        if isinstance(a, Obj):
            self.own(this, a.n)
            a.n = None
            return
        raise Unsupported('unique_ptr constructor')

    def kill(self, I, o):
        if o.n is not None:
            self.drop(I, o)

    def copy(self, I, dst, src, move):
        I.check_alive(src, 'move')
        v = src.n
        src.n = None
        self.own(dst, v)

    def assign(self, I, dst, src, move):
        I.check_alive(src, 'assignment source')
        I.check_alive(dst, 'assignment target')
        if dst is src:
            return
        v = src.n
        src.n = None
        self.drop(I, dst)
        self.own(dst, v)

    def chk(self, I, this):
        if this.n is None:
            I.bug('null', 'dereference of an empty unique_ptr')
        return this.n

    def get(self, I, F, this, args):
        return Ptr(this.n)

    def star(self, I, F, this, args):
        return self.chk(I, this)

    def arrow(self, I, F, this, args):
        return Ptr(self.chk(I, this))

    def boolean(self, I, F, this, args):
        return this.n is not None

    def reset(self, I, F, this, args):
        old = this.n
        this.n = None
        if isinstance(old, Obj):
            I.destroy(old)
        if args and isinstance(args[0], Ptr):
            self.own(this, args[0].t)

    def release(self, I, F, this, args):
        v = this.n
        this.n = None
        if isinstance(v, Obj):
            v.par = None
        return Ptr(v)

    def swap(self, I, F, this, args):
        o = args[0]
        this.n, o.n = o.n, this.n
        for x in (this, o):
            if isinstance(x.n, Obj):
                x.n.par = x


def make_shared(I, F, this, args):
    o = ret_obj(I, F)
    I.may_throw('make_shared')
    t = I.P.targ(o.rec, 0)
    v = build(I, t, args, [cat(I, F, i) for i in range(len(args))])
    o.n = v if isinstance(v, Obj) else I.cell(v)
    return o


def make_unique(I, F, this, args):
    o = ret_obj(I, F)
    I.may_throw('make_unique')
    t = I.P.targ(o.rec, 0)
    v = build(I, t, args, [cat(I, F, i) for i in range(len(args))])
    NATIVE_RECS['std::unique_ptr'].own(o, v if isinstance(v, Obj) else I.cell(v))
    return o


class NOpaque(Nat):
    """strings, exceptions, allocators: no observable content"""

    def ctor(self, I, F, this, args):
        this.n = None

    def method(self, P, f):
        m = Nat.method(self, P, f)
        if m is not None:
            return m

        def any_(I, F, this, args):
            t = I.P.types[F.ret]
            if t['k'] == 'rec':
                return I.new_obj(t['r'])
            if t['k'] in ('lref', 'rref'):
                r = I.P.trec(F.ret)
                if r is not None and this is not None and this.rec == r:
                    return this
                return I.new_obj(r) if r is not None else I.cell(0)
            if t['k'] == 'ptr':
                return Ptr(I.cell(0))
            if t['k'] == 'void':
                return None
            return Term('opaque', f.id)
        if f.body is None or f.d.get('stop'):
            return any_
        return None


def now(I, F, this, args):
    rec = ret_rec(I, F)
    o = Obj(rec)
    d = I.P.recs[rec]['fields'][0]
    drec = I.P.types[d['t']]['r']
    do = Obj(drec)
    do.f[I.P.recs[drec]['fields'][0]['id']] = I.clock()
    I.adopt(o, d['id'], do)
    return o


def now_unsteady(I, F, this, args):
    I.S.roots['hold']['unsteady'] = F.q
    return now(I, F, this, args)


def assert_fail(I, F, this, args):
    I.bug('assert', 'an assertion fails')


def free(q, rq):
    def deco(f):
        core.NATIVE_FN2[(q, rq)] = f
        return f
    return deco


def install():
    R = NATIVE_RECS
    R['vf::K'] = NK('key')
    R['vf::F'] = NWrapped()
    R['std::type_index'] = NTypeIndex()
    R['vf::V'] = NK('value')
    R['vf::X'] = NK('key argument')
    R['vf::Y'] = NK('value argument')
    R['vf::H'] = NFunctor('hash')
    R['vf::E'] = NFunctor('eq')
    R['vf::FH'] = NFunctor('hit')
    R['vf::FM'] = NFunctor('miss')
    R['vf::FA'] = NFunctor('access')
    R['std::hash'] = NStdHash()
    R['std::unordered_map'] = NMap()
    for q in ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::_List_iterator',
              'std::_List_const_iterator', '__gnu_cxx::__normal_iterator'):
        R[q] = NIter()
    R['std::list'] = NSeq('list')
    R['std::vector'] = NSeq('vector')
    R['std::deque'] = NSeq('deque')
    R['std::initializer_list'] = NIL()
    R['std::function'] = NFunction()
    for q in ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        R[q] = NShared()
    R['std::unique_ptr'] = NUnique()
    for q in ('std::basic_string', 'std::exception', 'std::runtime_error', 'std::logic_error', 'std::allocator', 'std::out_of_range',
              'std::__cxx11::basic_string', 'std::bad_alloc'):
        R[q] = NOpaque()
    N = NATIVE_FN
    N['std::chrono::steady_clock::now'] = now
    N['std::chrono::_V2::steady_clock::now'] = now
    for c in ('system_clock', 'high_resolution_clock', 'utc_clock', 'file_clock'):
        N['std::chrono::%s::now' % c] = now_unsteady
        N['std::chrono::_V2::%s::now' % c] = now_unsteady
    N['std::make_shared'] = make_shared
    N['std::make_unique'] = make_unique
    def kv_eq(I, F, a):
        if I.P.rq(a[0].rec) == 'vf::K':
            I.used_functor('op', 'operator==')
            return key_eq(I, F, None, a)
        return val_eq(I, F, None, a)
    N['vf::operator=='] = lambda I, F, this, a: kv_eq(I, F, a)
    N['vf::operator!='] = lambda I, F, this, a: not kv_eq(I, F, a)
    NATIVE_FREE['__assert_fail'] = assert_fail
    NATIVE_FREE['__builtin_strlen'] = lambda I, F, this, a: 0
    NATIVE_FREE['__builtin_constant_p'] = lambda I, F, this, a: 0
    D = core.NATIVE_FN2
    for rq in ('std::_List_iterator', 'std::_List_const_iterator', 'std::__detail::_Node_iterator_base', '__gnu_cxx::__normal_iterator',
               'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator'):
        for ns in ('std::', 'std::__detail::', '__gnu_cxx::'):
            D[(ns + 'operator==', rq)] = iter_eq
            D[(ns + 'operator!=', rq)] = iter_ne
            D[(ns + 'operator-', rq)] = iter_minus
    D[('std::operator==', 'std::unordered_map')] = map_equal
    D[('std::operator!=', 'std::unordered_map')] = map_nequal
    for rq in ('std::shared_ptr',):
        D[('std::operator==', rq)] = lambda I, F, this, a: same(a[0].n, a[1].n if isinstance(a[1], Obj) else None)
        D[('std::operator!=', rq)] = lambda I, F, this, a: not same(a[0].n, a[1].n if isinstance(a[1], Obj) else None)
    for rq in ('std::unique_ptr',):
        D[('std::operator==', rq)] = lambda I, F, this, a: same(a[0].n, a[1].n if isinstance(a[1], Obj) else None)
        D[('std::operator!=', rq)] = lambda I, F, this, a: not same(a[0].n, a[1].n if isinstance(a[1], Obj) else None)
    for rq in ('std::unordered_map', 'std::list', 'std::vector', 'std::shared_ptr', 'std::unique_ptr', 'std::function'):
        h = R[rq]
        D[('std::swap', rq)] = (lambda h: lambda I, F, this, a: h.M['swap'](I, F, a[0], [a[1]]))(h)


install()
