"""Abstract interpreter over the exported clang AST: program model, expressions, statements, calls."""
import json
import sys
from fractions import Fraction
from num import *
from heap import *

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Bug(Exception):
    """A safety violation found while interpreting."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Infeasible(Exception):
    pass


class Covered(Exception):
    """The loop-head state is subsumed by an already explored one."""


class CppThrow(Exception):
    def __init__(self, obj, rec, name):
        self.obj = obj
        self.rec = rec
        self.name = name


class Terminate(Exception):
    pass


BRK = ('brk',)
CNT = ('cnt',)


class Fn:
    __slots__ = ('id', 'd', 'name', 'q', 'params', 'body', 'inits', 'rec', 'native', 'ctor', 'ne', 'compiled', 'ret', 'isthis', 'void')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.recs = d['records']
        self.files = d['files']
        self.globs = d['globals']
        self.funcs = {}
        self.by_q = {}
        self.by_name = {}
        for k, v in d['functions'].items():
            i = int(k)
            f = Fn()
            f.id = i
            f.d = v
            f.name = v['name']
            f.q = v['q']
            f.params = v['params']
            f.body = v.get('body')
            f.inits = v.get('inits')
            f.rec = v.get('rec')
            f.ctor = bool(v.get('ctor'))
            f.ne = bool(v.get('ne'))
            f.native = 0
            f.compiled = None
            f.ret = v['ret']
            f.void = None
            self.funcs[i] = f
            self.by_q.setdefault(f.q, []).append(f)
            self.by_name.setdefault(f.name, []).append(f)
        self.bases = []
        for r in self.recs:
            self.bases.append([self.types[b]['r'] for b in r.get('bases', []) if self.types[b]['k'] == 'rec'])
        self._vt = {}
        self._sub = {}
        self._nd = {}
        self.fieldinfo = {}
        for ri, r in enumerate(self.recs):
            for f in r.get('fields', []):
                self.fieldinfo[f['id']] = (f['n'], f['t'], ri)
        self._af = {}

    def is_sub(self, r, b):
        """record r is b or derives from b"""
        k = (r, b)
        v = self._sub.get(k)
        if v is None:
            v = r == b or any(self.is_sub(x, b) for x in self.bases[r])
            self._sub[k] = v
        return v

    def all_fields(self, r):
        """(field id, type id) of r including bases, in construction order"""
        v = self._af.get(r)
        if v is None:
            v = []
            for b in self.bases[r]:
                v += self.all_fields(b)
            v += [(f['id'], f['t']) for f in self.recs[r].get('fields', [])]
            self._af[r] = v
        return v

    def dispatch(self, r, fid):
        k = (r, fid)
        v = self._vt.get(k)
        if v is not None:
            return v
        v = self._find_over(r, fid)
        if v is None:
            v = fid
        self._vt[k] = v
        return v

    def overrides(self, m, fid):
        if m == fid:
            return True
        return any(self.overrides(x, fid) for x in self.funcs[m].d.get('ov', ()))

    def _find_over(self, r, fid):
        for m in self.recs[r].get('methods', []):
            if self.overrides(m, fid):
                return m
        for b in self.bases[r]:
            x = self._find_over(b, fid)
            if x is not None:
                return x
        return None

    def strip(self, t):
        ty = self.types[t]
        while ty['k'] in ('lref', 'rref'):
            t = ty['to']
            ty = self.types[t]
        return t

    def trec(self, t):
        ty = self.types[self.strip(t)]
        return ty['r'] if ty['k'] == 'rec' else None

    def targ(self, r, i):
        """type id of template argument i of record r"""
        return self.recs[r]['ta'][i]['t']

    def rq(self, r):
        return self.recs[r]['q']

    def user_dtor(self, r):
        for m in self.recs[r].get('methods', []):
            f = self.funcs[m]
            if f.d.get('dtor'):
                return f
        return None

    def needs_dtor(self, r):
        v = self._nd.get(r)
        if v is None:
            self._nd[r] = False
            v = False
            q = self.rq(r)
            if q not in NATIVE_RECS:
                f = self.user_dtor(r)
                if f is not None and f.body is not None and f.d.get('up') and f.body.get('c'):
                    v = True
                elif any(self.needs_dtor(b) for b in self.bases[r]):
                    v = True
                else:
                    for fl in self.recs[r].get('fields', []):
                        t = self.types[fl['t']]
                        if t['k'] == 'rec' and self.needs_dtor(t['r']):
                            v = True
                            break
            self._nd[r] = v
        return v


NATIVE_RECS = {}   # qualified record name -> handler class (filled by natives)
NATIVE_FN = {}     # qualified function name -> handler
NATIVE_FREE = {}
NATIVE_FN2 = {}    # (qualified function name, record of the first parameter) -> handler


def T_bool(P, t):
    return P.types[P.strip(t)]['k'] == 'bool'


class Frame:
    __slots__ = ('fn', 'env', 'this', 'temps', 'scopes', 'caps', 'line', 'args', 'pend')

    def __init__(self, fn, this):
        self.fn = fn
        self.env = {}
        self.this = this
        self.temps = []
        self.scopes = []
        self.caps = None
        self.line = None
        self.args = None
        self.pend = []      # values of partially evaluated expressions


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.S = None
        self.frames = []
        self.prefix = []
        self.taken = []
        self.widths = []
        self.trace = []
        self.events = []
        self.fault = None        # None: no faults; else [budget]
        self.loops = None        # loop-head hook
        self.cex = {}
        self.visited_fns = set()
        self.steps = 0
        self.max_steps = 400000
        self.quiet_moved = False
        self.counting = True
        self.counts = []
        self.disc = False
        from shape import Heap
        self.H = Heap(self, Unsupported, self.bug)
        self.current_exc = []

    # ------------------------------------------------------------- choices
    def choose(self, n, label):
        if n == 1:
            return 0
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c)
        self.widths.append(n)
        self.trace.append((label, c))
        return c

    def poly(self):
        return self.S.poly

    def ge(self, f, strict=False, label=None):
        """Decide f >= 0 (> 0), forking when the domain does not know."""
        p = self.S.poly
        f = p.n(f)
        if not isinstance(f, (Lin, Term)):
            return (f > 0) if strict else (f >= 0)
        if isinstance(f, Term):
            return self.choose(2, 'unknown comparison') == 0
        if p.entails(f, strict):
            return True
        if p.entails(neg(f), not strict):
            return False
        if self.choose(2, label or '%s %s 0' % (f, '>' if strict else '>=')) == 0:
            p.addc(f, strict)
            return True
        p.addc(neg(f), not strict)
        return False

    def numeq(self, a, b):
        p = self.S.poly
        if isinstance(a, Term) or isinstance(b, Term):
            if a == b:
                return True
            return self.choose(2, 'unknown equality') == 0
        d = p.n(sub(a, b))
        if not isinstance(d, Lin):
            return d == 0
        g, l = p.entails(d), p.entails(neg(d))
        if g and l:
            return True
        if p.entails(d, True) or p.entails(neg(d), True):
            return False
        opts = ['eq']
        if not p.entails(neg(d)):
            opts.append('gt')
        if not p.entails(d):
            opts.append('lt')
        o = opts[self.choose(len(opts), '%s ? 0' % d)]
        if o == 'eq':
            p.assume_eq(d)
            return True
        p.addc(d if o == 'gt' else neg(d), True)
        return False

    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, (Lin, Term)):
            return not self.numeq(v, 0)
        if isinstance(v, (int, float, Fraction)):
            return v != 0
        if isinstance(v, Ptr):
            return v.t is not None
        if isinstance(v, EPtr):
            return True
        if isinstance(v, FnRef):
            return True
        if v is UNINIT:
            self.bug('uninit', 'an indeterminate value decides a branch')
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------- hooks of the models
    def quiet(self, fn):
        n = len(self.taken)
        r = fn()
        if len(self.taken) != n:
            raise Unsupported('case distinction on a summarised element')
        return r

    def quiet_count(self, fn):
        old = self.counting
        self.counting = False
        try:
            return fn()
        finally:
            self.counting = old

    def count(self, kind, cont):
        if self.counting:
            self.counts.append((kind, cont))

    def infeasible(self):
        return Infeasible()

    def infeasible_now(self):
        return infeasible(self.S.poly.cons + [({x: 1}, 0, False) for x in set(k for t, _, _ in self.S.poly.cons for k in t) if x.kind == 'n'])

    def want_result(self):
        return not self.disc

    def clock(self):
        return self.S.now

    def open_entry(self, m, cls):
        import natives
        h = NATIVE_RECS['std::unordered_map']
        this = m.owner
        rec = h.value_rec(self, this)
        P = self.P
        kt = P.types[P.targ(this.rec, 0)]
        k = Obj(kt['r'])
        k.n = cls
        vt = P.types[P.targ(this.rec, 1)]
        if vt['k'] == 'rec':
            v = self.skeleton(vt['r'])
        else:
            v = fresh('n', 'c')
        e = self.H.new_elem(cls, m, natives.mk_pair(self, rec, k, v))
        m.ents.append(e)
        return e

    def skeleton(self, rec):
        """an object of the record with unknown numbers"""
        o = self.new_obj(rec)
        if NATIVE_RECS.get(self.P.recs[rec]['q']) is not None or self.P.bases[rec]:
            raise Unsupported('content of an open map: ' + self.P.rq(rec))
        for fl in self.P.recs[rec].get('fields', []):
            t = self.P.types[fl['t']]
            if t['k'] == 'rec':
                self.adopt(o, fl['id'], self.skeleton(t['r']))
            elif t['k'] in ('int', 'float'):
                o.f[fl['id']] = fresh('n', 'c')
            else:
                raise Unsupported('content of an open map')
        return o

    def havoc(self, o):
        for k in sorted(o.f):
            v = o.f[k]
            if type(v) is Obj:
                self.havoc(v)
            elif isnum(v) and type(v) is not bool:
                o.f[k] = fresh('n', 'c')
            elif type(v) is bool:
                raise Unsupported('open record')

    def home_class(self, obj, seq):
        from shape import owned_of, key_in
        for o in owned_of(obj):
            c = None
            if type(o.n) is Cls:
                c = o.n
            else:
                for v in o.f.values():
                    if type(v) in (Ptr, Ref) and type(v.t) is Obj:
                        k = key_in(self.P, v.t)
                        if k is not None and type(k.n) is Cls:
                            c = k.n
            if c is not None:
                if c.single and not any(e.cont is seq and e.alive for e in c.elems):
                    return c
                return None
        return None

    def same_value(self, a, b):
        if a is b:
            return True
        return self.choose(2, 'values equal') == 0

    def maps_equal(self, a, b):
        for e in a.n.ents:
            f = self.H.elem_in(e.cls, b.n)
            if f is None:
                return False
            x = NATIVE_RECS['std::unordered_map'].mapped(self, e)
            y = NATIVE_RECS['std::unordered_map'].mapped(self, f)
            if type(x) is not Obj:
                if not self.numeq(self.load(x), self.load(y)):
                    return False
                continue
            g = None
            for fn in self.P.by_name.get('operator==', []):
                if fn.rec is not None and self.P.is_sub(x.rec, fn.rec) and len(fn.params) == 1 and fn.body is not None:
                    g = fn
            if g is None:
                raise Unsupported('equality of mapped values')
            if not self.truth(self.call(g, x, [y])):
                return False
        return True

    def note_copy(self, kind, src):
        pass

    def note_write(self, kind, dst):
        pass

    def note_move(self, kind, src):
        pass

    def note_pair(self, kind, args):
        pass

    def used_functor(self, kind, ident):
        pass

    def callback(self, kind, fn, args):
        raise Unsupported('callback')

    # ------------------------------------------------------------- diagnostics
    def where(self):
        out = []
        for fr in reversed(self.frames):
            fn = fr.fn
            ln = fr.line
            if ln:
                f = self.P.files[ln[0]]
                out.append((fn.q, f, ln[1]))
        return out

    def path_desc(self):
        w = self.where()
        lib = [x for x in w if '/lru/' in x[1]]
        return lib or w

    def bug(self, kind, msg):
        raise Bug(kind, msg)

    # ------------------------------------------------------------- memory
    def check_alive(self, o, what='object'):
        if not o.alive:
            if o.alive is None:
                raise Unsupported('a reference into a merged summary is still in use')
            self.bug('dead', 'use of %s after its end of life (%s)' % (self.objname(o), what))

    def objname(self, o):
        x = o
        while x is not None and x.elem is None and x.par is not None:
            x = x.par
        if x is not None and x.elem is not None:
            return 'an erased element' if not x.elem.alive else 'a container element'
        if o.lab:
            return o.lab
        if o.rec is not None:
            return self.P.recs[o.rec]['n'] or 'object'
        return 'a local object'

    def load(self, r):
        if type(r) is LRef:
            o = r.o
            if not o.alive:
                self.check_alive(o, 'read')
            v = o.f.get(r.k, UNINIT)
            if v is UNINIT:
                self.bug('uninit', 'read of uninitialised %s' % self.fname(r))
            return v
        if isinstance(r, Obj):
            return r
        if isinstance(r, FnRef):
            return r
        raise Unsupported('load of %r' % (r,))

    def load_lenient(self, r):
        if type(r) is LRef:
            if not r.o.alive:
                self.check_alive(r.o, 'read')
            return r.o.f.get(r.k, UNINIT)
        return r

    def fname(self, r):
        fi = self.P.fieldinfo.get(r.k)
        return 'field ' + fi[0] if fi else 'variable'

    def store(self, r, v):
        if type(r) is LRef:
            o = r.o
            if not o.alive:
                self.check_alive(o, 'write')
            o.f[r.k] = v
            return
        raise Unsupported('store to %r' % (r,))

    def cell(self, v, lab=None):
        o = Obj(None, lab)
        o.f['v'] = v
        return LRef(o, 'v')

    def kill(self, o):
        if not o.alive:
            return
        o.alive = False
        for v in o.f.values():
            if type(v) is Obj:
                self.kill(v)
        if o.n is not None and o.rec is not None:
            h = NATIVE_RECS.get(self.P.recs[o.rec]['q'])
            if h is not None:
                h.kill(self, o)

    def destroy(self, o):
        """end of life of an object"""
        if type(o) is LRef:
            self.kill(o.o)
            return
        if not o.alive:
            return
        if o.rec is not None and self.P.needs_dtor(o.rec):
            self.run_dtor(o, o.rec)
        self.kill(o)

    def run_dtor(self, o, r):
        P = self.P
        f = P.user_dtor(r)
        if f is not None and f.body is not None and f.d.get('up') and f.body.get('c'):
            o.rec = r
            self.call(f, o, [])
        for fl in reversed(P.recs[r].get('fields', [])):
            v = o.f.get(fl['id'])
            if type(v) is Obj and v.rec is not None and P.needs_dtor(v.rec):
                self.destroy(v)
        for b in reversed(P.bases[r]):
            if P.needs_dtor(b):
                self.run_dtor(o, b)

    def new_obj(self, rec, lab=None):
        o = Obj(rec, lab)
        h = NATIVE_RECS.get(self.P.recs[rec]['q'])
        if h is not None:
            h.init(self, o)
        return o

    def adopt(self, parent, fid, v):
        if type(v) is Obj:
            v.par = parent
        parent.f[fid] = v

    def deref(self, p):
        if type(p) is Ptr:
            if p.t is None:
                self.bug('null', 'null pointer dereference')
            return p.t
        if type(p) is EPtr:
            return self.H.elem_target(p.pos)
        if type(p) is FnRef:
            return p
        if p is UNINIT:
            self.bug('uninit', 'dereference of an indeterminate pointer')
        raise Unsupported('deref of %r' % (p,))

    # ------------------------------------------------------------- default / copy of objects
    def find_special(self, rec, key):
        for m in self.P.recs[rec].get('methods', []):
            f = self.P.funcs[m]
            if f.d.get(key) and not f.d.get('del'):
                return f
        return None

    def copy_obj(self, src, move=False):
        """a new object copy/move constructed from src (src: Obj)"""
        rec = src.rec
        dst = self.new_obj(rec)
        self.copy_into(dst, src, rec, move)
        return dst

    def copy_into(self, dst, src, rec, move=False):
        h = NATIVE_RECS.get(self.P.recs[rec]['q'])
        if h is not None:
            h.copy(self, dst, src, move)
            return
        f = self.find_special(rec, 'mc' if move else 'cc')
        if f is None and move:
            f = self.find_special(rec, 'cc')
        if f is not None:
            self.construct(dst, f, [src])
        else:
            self.memberwise(dst, src, rec, move)

    def memberwise(self, dst, src, rec, move):
        self.check_alive(src, 'copy')
        for b in self.P.bases[rec]:
            self.copy_into(dst, src, b, move)
        dst.rec = rec
        for fl in self.P.recs[rec].get('fields', []):
            v = src.f.get(fl['id'], UNINIT)
            if type(v) is Obj:
                n = self.new_obj(v.rec)
                self.copy_into(n, v, v.rec, move)
                n.par = dst
                dst.f[fl['id']] = n
            else:
                dst.f[fl['id']] = v

    def memberwise_assign(self, dst, src, rec, move):
        self.check_alive(src, 'assignment source')
        self.check_alive(dst, 'assignment target')
        for b in self.P.bases[rec]:
            self.assign_obj(dst, src, b, move)
        for fl in self.P.recs[rec].get('fields', []):
            v = src.f.get(fl['id'], UNINIT)
            if type(v) is Obj:
                d = dst.f.get(fl['id'])
                if type(d) is not Obj:
                    d = self.new_obj(v.rec)
                    self.adopt(dst, fl['id'], d)
                self.assign_obj(d, v, v.rec, move)
            else:
                dst.f[fl['id']] = v

    def assign_obj(self, dst, src, rec, move):
        h = NATIVE_RECS.get(self.P.recs[rec]['q'])
        if h is not None:
            h.assign(self, dst, src, move)
            return
        f = self.find_special(rec, 'ma' if move else 'ca')
        if f is None and move:
            f = self.find_special(rec, 'ca')
        if f is not None:
            self.call(f, dst, [src])
        else:
            self.memberwise_assign(dst, src, rec, move)

    def default_fields(self, obj, rec, zero=False):
        for fl in self.P.recs[rec].get('fields', []):
            t = self.P.types[fl['t']]
            if fl['id'] in obj.f:
                continue
            if t['k'] == 'rec':
                n = self.new_obj(t['r'])
                self.default_construct(n, t['r'], zero)
                self.adopt(obj, fl['id'], n)
            else:
                obj.f[fl['id']] = self.zero(t) if zero else UNINIT

    def zero(self, t):
        k = t['k']
        if k == 'bool':
            return False
        if k in ('int', 'enum', 'float'):
            return 0
        if k in ('ptr', 'nullptr', 'memptr', 'fn'):
            return Ptr(None)
        return UNINIT

    def default_construct(self, obj, rec, zero=False):
        if NATIVE_RECS.get(self.P.recs[rec]['q']) is not None:
            return
        f = self.find_special(rec, 'dc')
        if f is not None:
            self.construct(obj, f, [], zero)
        else:
            for b in self.P.bases[rec]:
                self.default_construct(obj, b, zero)
            self.default_fields(obj, rec, zero)

    # ------------------------------------------------------------- construction and calls
    def construct(self, obj, f, args, zero=False):
        nat = self.native(f)
        if nat is not None:
            return nat(self, f, obj, args)
        if f.body is not None or f.inits:
            rec = f.rec
            fr = Frame(f, obj)
            self.bind(fr, f, args)
            fr.args = args
            self.visited_fns.add(f.id)
            self.frames.append(fr)
            comp = f.compiled
            if comp is None:
                comp = self.compile_ctor(f)
            try:
                comp(fr)
                self.leave(fr, 0)
            except CppThrow:
                self.leave(fr, 0)
                self.unwind_ctor(obj, rec)
                if f.ne:
                    self.terminate(f)
                raise
            finally:
                self.frames.pop()
            return
        if f.d.get('cc') or f.d.get('mc'):
            self.memberwise(obj, args[0], f.rec, bool(f.d.get('mc')))
            return
        if f.d.get('dc'):
            for b in self.P.bases[f.rec]:
                self.default_construct(obj, b, zero)
            obj.rec = f.rec
            self.default_fields(obj, f.rec, zero)
            return
        raise Unsupported('constructor without a body: %s' % f.q)

    def unwind_ctor(self, obj, rec):
        for v in list(obj.f.values()):
            if type(v) is Obj:
                self.kill(v)

    def terminate(self, f):
        raise Bug('terminate', 'an exception leaves noexcept function %s (std::terminate)' % f.q)

    def bind(self, fr, f, args):
        env = fr.env
        ps = f.params
        if len(args) != len(ps):
            if len(args) < len(ps) and all('def' in p for p in ps[len(args):]):
                args = list(args) + [bool(p['def']) if T_bool(self.P, p['t']) else p['def'] for p in ps[len(args):]]
            elif len(args) < len(ps) or not f.d.get('variadic'):
                raise Unsupported('arity mismatch calling %s' % f.q)
        T = self.P.types
        fr.scopes.append([])
        sc = fr.scopes[0]
        for p, a in zip(ps, args):
            k = T[p['t']]['k']
            if k == 'lref' or k == 'rref':
                env[p['id']] = a
            elif type(a) is Obj:
                env[p['id']] = a
                sc.append(a)
            else:
                c = self.cell(a)
                env[p['id']] = c
                sc.append(c)

    def leave(self, fr, depth, keep=None):
        """destroy scopes down to depth"""
        sc = fr.scopes
        while len(sc) > depth:
            s = sc.pop()
            for o in reversed(s):
                if o is not keep:
                    self.destroy(o)

    def native(self, f):
        n = f.native
        if n == 0:
            n = find_native(self.P, f)
            f.native = n
        return n

    def call(self, f, this, args):
        nat = self.native(f)
        if nat is not None:
            r = nat(self, f, this, args)
            if f.void is None:
                f.void = f.ret is not None and self.P.types[f.ret]['k'] == 'void'
            return None if f.void else r
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        if f.ctor:
            raise Unsupported('direct constructor call')
        if f.body is None:
            if f.d.get('ca') or f.d.get('ma'):
                self.memberwise_assign(this, args[0], f.rec, bool(f.d.get('ma')))
                return this
            if f.d.get('dtor'):
                return None
            raise Unsupported('no body for %s' % f.q)
        if len(self.frames) > 400:
            raise Unsupported('call depth')
        if (f.d.get('ca') or f.d.get('ma')) and f.d.get('dflt'):
            # defaulted assignment: memberwise semantics
            self.visited_fns.add(f.id)
            self.memberwise_assign(this, args[0], f.rec, bool(f.d.get('ma')))
            return this
        fr = Frame(f, this)
        self.bind(fr, f, args)
        if f.rec is not None and this is not None:
            rc = self.P.recs[f.rec]
            if rc.get('lambda'):
                fr.caps = rc.get('caps')
                ct = rc.get('capthis')
                if ct is not None:
                    p = this.f[ct]
                    fr.this = self.deref(p) if isinstance(p, Ptr) else p
                    fr.env['__closure'] = this
                else:
                    fr.env['__closure'] = this
        self.visited_fns.add(f.id)
        self.frames.append(fr)
        comp = f.compiled
        if comp is None:
            comp = f.compiled = self.cs(f.body)
        try:
            r = comp(fr)
            ret = None
            if type(r) is tuple and r[0] == 'ret':
                ret = r[1]
            self.leave(fr, 0, ret)
            return ret
        except CppThrow:
            self.leave(fr, 0)
            if f.ne:
                self.terminate(f)
            raise
        finally:
            self.frames.pop()

    # ------------------------------------------------------------- compile constructor
    def compile_ctor(self, f):
        P = self.P
        steps = []
        rec = f.rec
        inits = f.inits or []
        union = P.recs[rec].get('union')
        seen = set()
        seq = []
        deleg = False
        for i in inits:
            if 'd' in i:
                deleg = True
                seq.append(('d', None, self.cinit(i['e'])))
            elif 'b' in i:
                t = P.types[i['b']]
                seq.append(('b', t['r'], self.cinit(i['e'])))
                seen.add(('b', t['r']))
            elif 'ip' in i:
                seq.append(('ip', i['ip'], self.cx(i['e'])))
            else:
                fid = i['f']
                ft = P.types[P.fieldinfo[fid][1]]
                seq.append(('f', fid, self.cx(i['e']), ft['k'] in ('lref', 'rref')))
                seen.add(('f', fid))
        body = self.cs(f.body) if f.body is not None else None
        fields = [(fl['id'], P.types[fl['t']]) for fl in P.recs[rec].get('fields', [])]
        bases = P.bases[rec]
        copyish = bool(f.d.get('cc') or f.d.get('mc')) and f.d.get('dflt')
        mv = bool(f.d.get('mc'))

        def run(fr):
            obj = fr.this
            if copyish:
                # defaulted copy/move constructor: memberwise, through the members' own constructors
                src = fr.args[0]
                self.memberwise(obj, src, rec, mv)
                return
            if deleg:
                seq[0][2](fr, obj, rec)
                obj.rec = rec
            else:
                for s in seq:
                    if s[0] == 'b':
                        self.full_init(fr, lambda: s[2](fr, obj, s[1]))
                for b in bases:
                    if ('b', b) not in seen:
                        self.default_construct(obj, b)
                obj.rec = rec
                for s in seq:
                    if s[0] == 'f':
                        v = self.full_eval(fr, s[2])
                        if s[3]:
                            obj.f[s[1]] = Ref(v)
                        else:
                            if type(v) is Obj:
                                v.par = obj
                            obj.f[s[1]] = v
                    elif s[0] == 'ip':
                        raise Unsupported('anonymous member initialiser')
                if not union:
                    for fid, t in fields:
                        if fid not in obj.f:
                            if t['k'] == 'rec':
                                n = self.new_obj(t['r'])
                                self.default_construct(n, t['r'])
                                self.adopt(obj, fid, n)
                            else:
                                obj.f[fid] = UNINIT
            if body is not None:
                body(fr)

        f.compiled = run
        return run

    def full_init(self, fr, fn):
        old = fr.temps
        fr.temps = []
        try:
            return fn()
        finally:
            ts = fr.temps
            fr.temps = old
            for o in reversed(ts):
                self.destroy(o)

    def full_eval(self, fr, c):
        old = fr.temps
        fr.temps = []
        try:
            return c(fr)
        finally:
            ts = fr.temps
            fr.temps = old
            for o in reversed(ts):
                self.destroy(o)

    def cinit(self, e):
        """initialiser of a base / delegation: constructs into an existing object"""
        while e['k'] in ('Full', 'DInit'):
            e = e['e']
        if e['k'] == 'Ctor':
            f = self.P.funcs[e['f']]
            args = self.cargs(f, e['a'])

            def run(fr, obj, rec):
                self.construct(obj, f, args(fr), bool(e.get('zi')))
            return run
        if e['k'] == 'InhCtor':
            f = self.P.funcs[e['f']]

            def run2(fr, obj, rec):
                self.construct(obj, f, fr.args)
            return run2
        c = self.cx(e)

        def run3(fr, obj, rec):
            v = c(fr)
            if isinstance(v, Obj):
                for k, x in v.f.items():
                    self.adopt(obj, k, x)
                if v.n is not None:
                    obj.n = v.n
        return run3

    def cargs(self, f, args):
        T = self.P.types
        cs = []
        for i, a in enumerate(args):
            cs.append(self.cx(a))

        def run(fr):
            return evargs(fr, cs)
        return run

    # ------------------------------------------------------------- expressions
    def cx(self, e):
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s' % e['k'])
        return m(e)

    def x_Unknown(self, e):
        w = e.get('what')

        def run(fr):
            raise Unsupported('expression %s' % w)
        return run

    def x_Int(self, e):
        v = int(e['v'])
        return lambda fr: v

    def x_Bool(self, e):
        v = bool(e['v'])
        return lambda fr: v

    def x_Float(self, e):
        v = Fraction(e['v'])
        if v.denominator == 1:
            v = int(v)
        return lambda fr: v

    def x_Str(self, e):
        def run(fr):
            return self.cell('"str"')
        return run

    def x_Null(self, e):
        return lambda fr: Ptr(None)

    def x_Fn(self, e):
        r = FnRef(e['f'])
        return lambda fr: r

    def x_Var(self, e):
        vid = e['id']
        if e.get('g'):
            def runG(fr):
                v = fr.env.get(vid)
                if v is not None:
                    return v
                return self.global_var(vid)
            return runG
        sv = str(vid)
        name = e.get('n')

        def run(fr):
            v = fr.env.get(vid)
            if v is not None:
                return v
            if fr.caps is not None and sv in fr.caps:
                clo = fr.env['__closure']
                self.check_alive(clo, 'closure')
                fv = clo.f[fr.caps[sv]]
                if type(fv) is Ref:
                    return fv.t
                if type(fv) is Obj:
                    return fv
                return LRef(clo, fr.caps[sv])
            v = self.S.statics.get(vid)
            if v is not None:
                return v
            if str(vid) in self.P.globs:
                return self.global_var(vid)
            raise Unsupported('unbound variable %s' % name)
        return run

    def global_var(self, vid):
        v = self.S.statics.get(vid)
        if v is None:
            g = self.P.globs.get(str(vid))
            if g is None:
                raise Unsupported('global')
            if 'init' in g:
                fr = Frame(None, None)
                val = self.cx(g['init'])(fr)
            else:
                t = self.P.types[g['t']]
                if t['k'] == 'rec':
                    val = self.new_obj(t['r'])
                    self.default_construct(val, t['r'], True)
                else:
                    val = self.zero(t)
            v = val if isinstance(val, (Obj, LRef)) and (isinstance(val, Obj) or self.P.types[g['t']]['k'] in ('lref', 'rref')) else self.cell(val)
            self.S.statics[vid] = v
        return v

    def x_This(self, e):
        return lambda fr: Ptr(fr.this)

    def x_Mem(self, e):
        b = self.cx(e['b'])
        fid = e['f']
        arrow = e.get('arrow')
        P = self.P

        def run(fr):
            o = b(fr)
            if arrow:
                o = self.deref(o)
            if type(o) is not Obj:
                raise Unsupported('member access on %r' % (o,))
            if not o.alive:
                self.check_alive(o, 'access to member %s' % e['n'])
            v = o.f.get(fid)
            if type(v) is Obj:
                return v
            if type(v) is Ref:
                return v.t
            if v is None and o.n is not None and o.rec is not None:
                h = NATIVE_RECS.get(P.recs[o.rec]['q'])
                if h is not None:
                    return h.member(self, o, e['n'])
            return LRef(o, fid)
        return run

    def x_MFn(self, e):
        raise Unsupported('member function reference')

    def x_Full(self, e):
        return self.cx(e['e'])

    def x_DInit(self, e):
        return self.cx(e['e'])

    def x_Mat(self, e):
        c = self.cx(e['e'])
        ext = e.get('ext')

        def run(fr):
            v = c(fr)
            if type(v) is not Obj:
                v = self.cell(v, 'a temporary')
            elif v.lab is None:
                v.lab = None
            if ext is None:
                fr.temps.append(v)
            else:
                if fr.scopes:
                    fr.scopes[-1].append(v)
            return v
        return run

    def x_Ctor(self, e):
        f = self.P.funcs[e['f']]
        rec = self.P.trec(e['t'])
        if rec is None:
            t = self.P.types[e['t']]
            if t['k'] == 'array':
                def arr(fr):
                    raise Unsupported('array construction')
                return arr
        args = self.cargs(f, e['a'])
        zi = bool(e.get('zi'))
        ln = e.get('l')
        el = e.get('el')
        argn = e['a']

        def run(fr):
            a = args(fr)
            if ln:
                fr.line = ln
            o = self.new_obj(rec)
            self.construct(o, f, a, zi)
            return o
        return run

    def x_InhCtor(self, e):
        raise Unsupported('inherited constructor expression')

    def x_Cast(self, e):
        ck = e['ck']
        c = self.cx(e['e'])
        if ck == 'LValueToRValue':
            return lambda fr: self.load(c(fr))
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return c
        if ck == 'BitCast':
            st, tt = self.P.types[e['e']['t']], self.P.types[e['t']]
            if st['k'] != 'ptr' or tt['k'] != 'ptr':
                return c
            st, tt = (self.P.types[self.P.strip(x['to'])] for x in (st, tt))
            if st['k'] != 'void' or tt['k'] != 'rec':
                return c

            def bc(fr):
                v = c(fr)
                if type(v) is Ptr and type(v.t) is Obj and v.t.rec is not None and v.t.rec != tt['r']:
                    self.bug('cast', 'a pointer to a %s is used as one to a %s' % (self.P.rq(v.t.rec), self.P.rq(tt['r'])))
                return v
            return bc
        if ck == 'ToVoid':
            def v(fr):
                c(fr)
                return None
            return v
        if ck == 'NullToPointer':
            return lambda fr: Ptr(None)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return lambda fr: self.truth(c(fr))
        T = self.P.types
        tt = T[e['t']]
        st = T[e['e']['t']]
        if ck == 'IntegralCast':
            narrowing = tt['k'] == st['k'] == 'int' and tt.get('w', 64) < st.get('w', 64)
            tounsigned = tt.get('u') and not (st.get('u') or st['k'] == 'bool')

            def ic(fr):
                v = c(fr)
                if v is True:
                    return 1
                if v is False:
                    return 0
                if tt['k'] == 'bool':
                    return self.truth(v)
                if narrowing:
                    return self.narrow(v, tt)
                if tounsigned:
                    if isinstance(v, Lin):
                        if not self.ge(v):
                            return add(v, 1 << tt['w'])
                    elif isinstance(v, int) and v < 0:
                        return v + (1 << tt['w'])
                return v
            return ic
        if ck in ('IntegralToFloating', 'FloatingCast'):
            def fc(fr):
                v = c(fr)
                return int(v) if isinstance(v, bool) else v
            return fc
        if ck == 'FloatingToIntegral':
            def fi(fr):
                v = c(fr)
                if isinstance(v, Lin):
                    return self.quotient(v, 1)
                if isinstance(v, Term):
                    return Term('trunc', v)
                return int(v)
            return fi
        if ck == 'ArrayToPointerDecay':
            def ad(fr):
                v = c(fr)
                if isinstance(v, Obj) and isinstance(v.n, SeqC):
                    return EPtr(self.H.begin(v.n))
                return Ptr(v)
            return ad
        if ck == 'Dynamic':
            def dy(fr):
                v = c(fr)
                return v
            return dy

        def bad(fr):
            raise Unsupported('cast %s' % ck)
        return bad

    def x_Un(self, e):
        op = e['op']
        c = self.cx(e['e'])
        if op == '&':
            def addr(fr):
                v = c(fr)
                if type(v) is FnRef:
                    return v
                return Ptr(v)
            return addr
        if op == '*':
            return lambda fr: self.deref(c(fr))
        if op == '!':
            return lambda fr: not self.truth(c(fr))
        if op == '-':
            return lambda fr: neg(c(fr))
        if op == '+':
            return c
        if op == '~':
            def inv(fr):
                v = c(fr)
                return ~v if isinstance(v, int) else Term('~', v)
            return inv
        if op in ('++', '--'):
            post = e.get('post')
            d = 1 if op == '++' else -1
            ty = self.P.types[e['t']]

            def inc(fr):
                r = c(fr)
                v = self.load(r)
                if isinstance(v, EPtr):
                    n = EPtr(self.H.next(v.pos) if d > 0 else self.H.prev(v.pos))
                elif isinstance(v, Ptr):
                    raise Unsupported('pointer arithmetic')
                else:
                    n = add(v, d)
                    if d < 0 and ty.get('u'):
                        n = self.wrap(n, ty)
                    elif self.small(ty):
                        n = self.narrow(n, ty)
                self.store(r, n)
                return v if post else r
            return inc
        if op in ('__extension__', 'extension'):
            return c
        raise Unsupported('unary %s' % op)

    def small(self, ty):
        """integer types that a long run of a program may exceed"""
        return ty['k'] == 'int' and ty.get('w', 64) <= (32 if ty.get('u') else 16)

    def narrow(self, v, ty):
        """v converted to an integer type of fewer bits"""
        w = ty['w']
        lo = 0 if ty.get('u') else -(1 << (w - 1))
        if isinstance(v, int):
            return (v - lo) % (1 << w) + lo
        if not isinstance(v, Lin):
            return v
        d = sub(v, lo)
        if self.ge(d) and self.ge(sub((1 << w) - 1, d)):
            return v
        q = fresh('n', 'q')
        self.S.poly.addc(q)
        self.S.poly.addc(sub((1 << w) - 1, q))
        return add(q, lo)

    def wrap(self, v, ty):
        if isinstance(v, Lin):
            if not self.ge(v):
                return add(v, 1 << ty['w'])
        elif isinstance(v, int) and v < 0:
            return v + (1 << ty['w'])
        return v

    def x_Bin(self, e):
        op = e['op']
        a = self.cx(e['a'])
        b = self.cx(e['b'])
        if op == '&&':
            return lambda fr: self.truth(a(fr)) and self.truth(b(fr))
        if op == '||':
            return lambda fr: self.truth(a(fr)) or self.truth(b(fr))
        if op == ',':
            def comma(fr):
                a(fr)
                return b(fr)
            return comma
        if op == '=':
            def asg(fr):
                v = b(fr)
                r = a(fr)
                self.store(r, v)
                return r
            return asg
        ty = self.P.types[e['t']]
        at = self.P.types[e['a']['t']]
        if simple(e['b']):
            return lambda fr: self.binop(op, a(fr), b(fr), ty, at)

        def bn(fr):
            h = [a(fr)]
            fr.pend.append(h)
            y = b(fr)
            fr.pend.pop()
            return self.binop(op, h[0], y, ty, at)
        return bn

    def binop(self, op, x, y, ty, at=None):
        if x is True or x is False:
            if isinstance(y, bool) and op in ('==', '!=', '&', '|', '^'):
                return {'==': x == y, '!=': x != y, '&': x and y, '|': x or y, '^': x != y}[op]
            x = int(x)
        if y is True or y is False:
            y = int(y)
        if op in ('==', '!='):
            if isnum(x) and isnum(y):
                r = self.numeq(x, y)
            elif isinstance(x, (Ptr, EPtr, FnRef)) and isinstance(y, (Ptr, EPtr, FnRef)):
                r = x == y
            elif x is UNINIT or y is UNINIT:
                self.bug('uninit', 'comparison of an indeterminate value')
            elif isinstance(x, Sym) or isinstance(y, Sym):
                r = x is y or self.choose(2, 'opaque equality') == 0
            else:
                r = x == y
            return r if op == '==' else not r
        if isinstance(x, EPtr) or isinstance(y, EPtr):
            if op in ('+', '-') and isinstance(x, EPtr) and isinstance(y, int):
                p = x.pos
                for _ in range(abs(y)):
                    p = self.H.next(p) if (y > 0) == (op == '+') else self.H.prev(p)
                return EPtr(p)
            if op == '-':
                return self.H.distance(y.pos, x.pos)
            raise Unsupported('pointer %s' % op)
        if op == '<':
            return self.ge(sub(y, x), True)
        if op == '>':
            return self.ge(sub(x, y), True)
        if op == '<=':
            return self.ge(sub(y, x))
        if op == '>=':
            return self.ge(sub(x, y))
        if op == '+':
            r = add(x, y)
            if isinstance(r, int) and ty.get('u') and r >= 1 << ty['w']:
                r -= 1 << ty['w']
            return r
        if op == '-':
            r = sub(x, y)
            return self.wrap(r, ty) if ty.get('u') else r
        if op == '*':
            r = mul(x, y)
            if isinstance(r, int) and ty.get('u'):
                r &= (1 << ty['w']) - 1
            return r
        if op == '/':
            if isinstance(y, (Lin, Term)) or isinstance(x, Term) or (isinstance(y, (int, Fraction)) and y == 0):
                return Term('/', x, y)
            if ty['k'] == 'float':
                if isinstance(x, Lin):
                    return scale(x, Fraction(1) / y)
                r = Fraction(x) / y
                return int(r) if r.denominator == 1 else r
            if isinstance(x, Lin):
                return self.quotient(x, y)
            return abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        if op == '%':
            if isinstance(x, int) and isinstance(y, int) and y:
                return abs(x) % abs(y) * (1 if x >= 0 else -1)
            if isinstance(x, Lin) and isinstance(y, int) and y:
                return sub(x, scale(self.quotient(x, y), y))
            return Term('%', x, y)
        if isinstance(x, int) and isinstance(y, int):
            if op == '<<': return (x << y) & ((1 << ty.get('w', 64)) - 1)
            if op == '>>': return x >> y
            if op == '&': return x & y
            if op == '|': return x | y
            if op == '^': return x ^ y
        return Term(op, x, y)

    def quotient(self, x, y):
        """x / y rounded towards zero, y a number"""
        if y < 0:
            return neg(self.quotient(x, -y))
        if not self.ge(x):
            return neg(self.quotient(neg(x), y))
        q = fresh('n', 'q')
        self.S.poly.addc(q)
        self.S.poly.addc(sub(x, scale(q, y)))
        self.S.poly.addc(sub(scale(add(q, 1), y), x), True)
        return q

    def x_CAssign(self, e):
        op = e['op'][:-1]
        a = self.cx(e['a'])
        b = self.cx(e['b'])
        ty = self.P.types[e['t']]

        def run(fr):
            y = b(fr)
            r = a(fr)
            x = self.load(r)
            v = self.binop(op, x, y, ty)
            if ty['k'] == 'bool':
                v = self.truth(v)
            elif self.small(ty):
                v = self.narrow(v, ty)
            self.store(r, v)
            return r
        return run

    def x_Cond(self, e):
        c, a, b = self.cx(e['c']), self.cx(e['a']), self.cx(e['b'])
        return lambda fr: a(fr) if self.truth(c(fr)) else b(fr)

    def x_Idx(self, e):
        a, b = self.cx(e['a']), self.cx(e['b'])

        def run(fr):
            p = a(fr)
            i = b(fr)
            if isinstance(p, EPtr) and isinstance(i, int):
                pos = p.pos
                for _ in range(i):
                    pos = self.H.next(pos)
                return self.H.elem_target(pos)
            raise Unsupported('subscript')
        return run

    def x_Throw(self, e):
        if 'e' not in e:
            def rethrow(fr):
                ex = self.current_exc[-1]
                raise ex
            return rethrow
        c = self.cx(e['e'])
        t = e['e']['t']
        rec = self.P.trec(t)
        ln = e.get('l')

        def run(fr):
            if ln:
                fr.line = ln
            v = c(fr)
            raise CppThrow(v, rec, self.P.recs[rec]['n'] if rec is not None else 'scalar')
        return run

    def x_New(self, e):
        T = self.P.types
        at = T[e['at']]
        init = self.cx(e['init']) if 'init' in e else None
        if e.get('arr'):
            def bad(fr):
                raise Unsupported('array new')
            return bad
        pl = [self.cx(p) for p in e.get('pl', [])]

        def run(fr):
            if pl:
                p = pl[0](fr)
                v = init(fr) if init else UNINIT
                tgt = self.deref(p)
                if type(tgt) is LRef and type(v) is Obj:
                    tgt.o.f[tgt.k] = v
                    v.par = tgt.o
                    return Ptr(v)
                raise Unsupported('placement new')
            self.may_throw('alloc')
            if init is None:
                if at['k'] == 'rec':
                    v = self.new_obj(at['r'])
                    self.default_construct(v, at['r'])
                else:
                    v = UNINIT
            else:
                v = init(fr)
            if type(v) is Obj:
                return Ptr(v)
            return Ptr(self.cell(v))
        return run

    def x_Delete(self, e):
        c = self.cx(e['e'])

        def run(fr):
            p = c(fr)
            if isinstance(p, Ptr) and p.t is None:
                return None
            t = self.deref(p)
            o = t.o if type(t) is LRef else t
            self.check_alive(o, 'delete')
            self.destroy(t)
            return None
        return run

    def x_Lambda(self, e):
        rec = e['r']
        fs = e['fs']
        T = self.P.types
        isr = [T[self.P.fieldinfo[f][1]]['k'] in ('lref', 'rref') for f in fs]
        ins = [self.cx(i) for i in e['is']]

        def run(fr):
            o = Obj(rec)
            for f, r, c in zip(fs, isr, ins):
                v = c(fr)
                if r:
                    o.f[f] = Ref(v)
                else:
                    if type(v) is Obj:
                        v.par = o
                    o.f[f] = v
            return o
        return run

    def x_IList(self, e):
        P = self.P
        t = P.types[e['t']]
        cs = [self.cx(a) for a in e['a']]
        if t['k'] == 'rec':
            rec = t['r']
            nb = P.bases[rec]
            flds = P.recs[rec].get('fields', [])
            if P.recs[rec].get('union'):
                def runu(fr):
                    o = self.new_obj(rec)
                    if cs:
                        self.adopt(o, e.get('uf', flds[0]['id']), cs[0](fr))
                    return o
                return runu

            def runr(fr):
                o = self.new_obj(rec)
                i = 0
                for b in nb:
                    if i < len(cs):
                        v = cs[i](fr)
                        i += 1
                        if isinstance(v, Obj):
                            for k, x in v.f.items():
                                self.adopt(o, k, x)
                for fl in flds:
                    if i < len(cs):
                        v = cs[i](fr)
                        i += 1
                        if P.types[fl['t']]['k'] in ('lref', 'rref'):
                            o.f[fl['id']] = Ref(v)
                        else:
                            self.adopt(o, fl['id'], v)
                o.rec = rec
                self.default_fields(o, rec)
                return o
            return runr
        if t['k'] == 'array':
            def runa(fr):
                o = Obj(None, 'an array')
                sq = SeqC('arr')
                sq.owner = o
                o.n = sq
                for c in cs:
                    self.H.push_back(sq, self.as_elem(c(fr)))
                return o
            return runa
        if len(cs) == 1:
            return cs[0]
        if not cs:
            return lambda fr: self.zero(t)
        raise Unsupported('init list')

    def as_elem(self, v):
        if type(v) is Obj:
            return v
        return self.cell(v).o

    def x_StdIL(self, e):
        c = self.cx(e['e'])
        rec = self.P.trec(e['t'])

        def run(fr):
            a = c(fr)
            o = self.new_obj(rec)
            o.n = ('il', a)
            return o
        return run

    def x_VInit(self, e):
        t = self.P.types[e['t']]

        def run(fr):
            if t['k'] == 'rec':
                o = self.new_obj(t['r'])
                self.default_construct(o, t['r'], True)
                return o
            if t['k'] == 'void':
                return None
            return self.zero(t)
        return run

    def x_StmtE(self, e):
        s = e['s']
        body = s['c']
        cs = [self.cs(x) for x in body[:-1]]
        last = body[-1] if body else None
        lc = self.cx(last['e']) if last is not None and last['k'] == 'Expr' else None

        def run(fr):
            for c in cs:
                r = c(fr)
                if r is not None:
                    raise Unsupported('control flow out of statement expression')
            return lc(fr) if lc else None
        return run

    def x_Typeid(self, e):
        t = e['of']
        c = self.cx(e['e']) if 'e' in e else None

        def run(fr):
            tt = t
            if c is not None:
                v = c(fr)
                if isinstance(v, Obj) and v.rec is not None:
                    tt = ('rec', v.rec)
            key = ('typeid', tt)
            o = self.S.statics.get(key)
            if o is None:
                o = Obj(None, 'type_info')
                o.n = Cls(True, 1)
                self.S.statics[key] = o
            return o
        return run

    def x_PseudoDtor(self, e):
        return lambda fr: None

    def x_ArrayCopy(self, e):
        def run(fr):
            raise Unsupported('array copy')
        return run

    def x_Call(self, e):
        P = self.P
        ln = e.get('l')
        if 'f' not in e:
            ce = e['callee']
            if ce['k'] == 'PseudoDtor':
                return lambda fr: None
            cal = self.cx(ce)
            acs = [self.cx(a) for a in e['a']]

            def runp(fr):
                f = cal(fr)
                a = evargs(fr, acs)
                if ln:
                    fr.line = ln
                if isinstance(f, Ptr):
                    f = f.t
                if isinstance(f, LRef):
                    f = self.load(f)
                if not isinstance(f, FnRef):
                    raise Unsupported('indirect call')
                return self.call(P.funcs[f.f], None, a)
            return runp
        f = P.funcs[e['f']]
        acs = [self.cx(a) for a in e['a']]
        virt = e.get('v') and f.d.get('virt')
        disc = bool(e.get('disc'))
        if 'obj' in e:
            ob = self.cx(e['obj'])
            arrow = e.get('arrow')
            opassign = f.d.get('op') in ('=', '+=', '-=')

            def runm(fr):
                if opassign:
                    a = evargs(fr, acs)
                    fr.pend.append(a)
                    o = ob(fr)
                    fr.pend.pop()
                else:
                    o = ob(fr)
                    a = None
                if arrow and not isinstance(o, Obj):
                    o = self.deref(o)
                if a is None:
                    if acs:
                        fr.pend.append([o])
                        a = evargs(fr, acs)
                        fr.pend.pop()
                    else:
                        a = []
                self.disc = disc
                if ln:
                    fr.line = ln
                if type(o) is Obj and not o.alive:
                    self.check_alive(o, 'call of %s' % f.name)
                g = f
                if virt and type(o) is Obj and o.rec is not None:
                    g = P.funcs[P.dispatch(o.rec, f.id)]
                return self.call(g, o, a)
            return runm
        if f.q in ('std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::as_const', '__builtin_addressof') and len(acs) == 1:
            a0 = acs[0]
            if f.q.endswith('addressof'):
                return lambda fr: Ptr(a0(fr))
            return a0

        def run(fr):
            a = evargs(fr, acs)
            if ln:
                fr.line = ln
            self.disc = disc
            return self.call(f, None, a)
        return run

    # ------------------------------------------------------------- statements
    def cs(self, s):
        if s is None:
            return lambda fr: None
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported('statement %s' % s['k'])
        return m(s)

    def s_Unknown(self, s):
        def run(fr):
            raise Unsupported('statement %s' % s.get('what'))
        return run

    def s_Null(self, s):
        return lambda fr: None

    def s_Expr(self, s):
        x = s['e']
        while x['k'] in ('Full', 'Cast', 'Mat') and 'e' in x:
            x = x['e']
        if x['k'] == 'Call':
            x['disc'] = True
        c = self.cx(s['e'])
        ln = s.get('l')

        def run(fr):
            if ln:
                fr.line = ln
            v = self.full_eval(fr, c)
            if type(v) is Obj and v.par is None and s['e'].get('gl') is None and v.alive:
                self.destroy(v)
            return None
        return run

    def s_Block(self, s):
        cs = [self.cs(x) for x in s['c']]

        def run(fr):
            d = len(fr.scopes)
            fr.scopes.append([])
            try:
                for c in cs:
                    r = c(fr)
                    if r is not None:
                        keep = r[1] if r[0] == 'ret' else None
                        self.leave(fr, d, keep)
                        return r
            except CppThrow:
                self.leave(fr, d)
                raise
            self.leave(fr, d)
            return None
        return run

    def s_Seq(self, s):
        cs = [self.cs(x) for x in s['c']]

        def run(fr):
            for c in cs:
                c(fr)
            return None
        return run

    def s_Decl(self, s):
        vs = [self.cvar(v) for v in s['v']]

        def run(fr):
            for v in vs:
                v(fr)
            return None
        return run

    def cvar(self, v):
        P = self.P
        t = P.types[v['t']]
        vid = v['id']
        init = self.cx(v['init']) if v.get('init') else None
        isref = t['k'] in ('lref', 'rref')
        ln = v.get('l')
        name = v['n'] or 'unnamed'
        binds = []
        for b in v.get('bind', []):
            if 'hold' in b:
                binds.append((b['id'], self.cvar(b['hold']), b['hold']['id']))
            else:
                binds.append((b['id'], self.cx(b['e']), None))

        def run(fr):
            if ln:
                fr.line = ln
            if v.get('static'):
                x = self.S.statics.get(vid)
                if x is None:
                    val = self.full_eval(fr, init) if init else UNINIT
                    if not isref and type(val) is not Obj:
                        val = self.cell(val)
                    self.S.statics[vid] = val
                return
            if init is not None:
                val = self.full_eval(fr, init)
            elif t['k'] == 'rec':
                val = self.new_obj(t['r'])
                self.default_construct(val, t['r'])
            else:
                val = UNINIT
            if isref:
                fr.env[vid] = val
            elif type(val) is Obj:
                if val.lab is None:
                    val.lab = "local variable '%s'" % name
                fr.env[vid] = val
                fr.scopes[-1].append(val)
            else:
                c = self.cell(val, "local variable '%s'" % name)
                fr.env[vid] = c
                fr.scopes[-1].append(c)
            for bid, c, hold in binds:
                if hold is not None:
                    c(fr)
                    fr.env[bid] = fr.env[hold]
                else:
                    fr.env[bid] = c(fr)
        return run

    def s_If(self, s):
        init = self.cs(s['init']) if 'init' in s else None
        cv = self.cs(s['cv']) if 'cv' in s else None
        cond = self.cx(s['cond'])
        th = self.cs(s['then'])
        el = self.cs(s['else']) if 'else' in s else None
        ln = s.get('l')

        def run(fr):
            d = None
            if init or cv:
                d = len(fr.scopes)
                fr.scopes.append([])
                if init:
                    init(fr)
                if cv:
                    cv(fr)
            if ln:
                fr.line = ln
            try:
                c = self.truth(self.full_eval(fr, cond))
                r = th(fr) if c else (el(fr) if el else None)
            except CppThrow:
                if d is not None:
                    self.leave(fr, d)
                raise
            if d is not None:
                self.leave(fr, d, r[1] if r is not None and r[0] == 'ret' else None)
            return r
        return run

    def s_While(self, s):
        return self.loop(s, None, s['cond'], None, s['body'], s.get('cv'))

    def s_For(self, s):
        return self.loop(s, s.get('init'), s.get('cond'), s.get('inc'), s['body'], s.get('cv'))

    def s_Do(self, s):
        cond = self.cx(s['cond'])
        body = self.cs(s['body'])
        node = id(s)

        def run(fr):
            n = 0
            while True:
                self.loop_head(fr, node, n, s)
                n += 1
                r = body(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is not CNT:
                        return r
                if not self.truth(self.full_eval(fr, cond)):
                    return None
        return run

    def loop(self, s, init, cond, inc, body, cv):
        ci = self.cs(init) if init else None
        cc = self.cx(cond) if cond else None
        cn = self.cx(inc) if inc else None
        cb = self.cs(body)
        ccv = self.cs(cv) if cv else None
        node = id(s)
        ln = s.get('l')

        def run(fr):
            d = len(fr.scopes)
            fr.scopes.append([])
            try:
                if ci:
                    ci(fr)
                n = 0
                res = None
                while True:
                    self.loop_head(fr, node, n, s)
                    n += 1
                    if ln:
                        fr.line = ln
                    if ccv:
                        d2 = len(fr.scopes)
                        fr.scopes.append([])
                        ccv(fr)
                    if cc and not self.truth(self.full_eval(fr, cc)):
                        break
                    r = cb(fr)
                    if ccv:
                        self.leave(fr, d2)
                    if r is not None:
                        if r is BRK:
                            break
                        if r is not CNT:
                            res = r
                            break
                    if cn:
                        v = self.full_eval(fr, cn)
            except CppThrow:
                self.leave(fr, d)
                raise
            self.leave(fr, d, res[1] if res is not None else None)
            return res
        return run

    def loop_head(self, fr, node, n, s):
        if self.loops is not None:
            self.loops(fr, node, n, s)

    def s_Return(self, s):
        if 'e' not in s:
            return lambda fr: ('ret', None)
        e = s['e']
        ln = s.get('l')
        nr = s.get('nrvo')
        if nr is not None:
            # returns a local variable by value: the object itself is the result (NRVO)
            x = e
            while x['k'] in ('Full',):
                x = x['e']
            c0 = self.cx(e)

            def runn(fr):
                if ln:
                    fr.line = ln
                o = fr.env.get(nr)
                if type(o) is Obj and x['k'] == 'Ctor':
                    return ('ret', o)
                v = self.full_eval(fr, c0)
                return ('ret', v)
            return runn
        c = self.cx(e)

        def run(fr):
            if ln:
                fr.line = ln
            return ('ret', self.full_eval(fr, c))
        return run

    def s_Break(self, s):
        return lambda fr: BRK

    def s_Continue(self, s):
        return lambda fr: CNT

    def s_Try(self, s):
        body = self.cs(s['body'])
        hs = []
        P = self.P
        for h in s['h']:
            t = h.get('t')
            rec = P.trec(t) if t is not None else None
            v = h.get('v')
            hs.append((t, rec, v, self.cs(h['body'])))

        def run(fr):
            d = len(fr.scopes)
            tm = fr.temps
            np = len(fr.pend)
            try:
                return body(fr)
            except CppThrow as ex:
                self.leave(fr, d)
                fr.temps = tm
                del fr.pend[np:]
                for t, rec, v, hb in hs:
                    if t is None or (rec is not None and ex.rec is not None and ex.rec >= 0 and P.is_sub(ex.rec, rec)):
                        if v is not None:
                            fr.env[v['id']] = ex.obj
                        self.current_exc.append(ex)
                        try:
                            return hb(fr)
                        finally:
                            self.current_exc.pop()
                raise
        return run

    def s_Switch(self, s):
        init = self.cs(s['init']) if 'init' in s else None
        cond = self.cx(s['cond'])
        body = s['body']
        items = body['c'] if body['k'] == 'Block' else [body]
        flat = []
        for it in items:
            labels = []
            while it is not None and it['k'] in ('Case', 'Default'):
                labels.append(int(it['v']['v']) if it['k'] == 'Case' else 'default')
                it = it['s']
            flat.append((labels, self.cs(it)))

        def run(fr):
            if init:
                init(fr)
            v = self.full_eval(fr, cond)
            start = None
            for i, (ls, c) in enumerate(flat):
                for l in ls:
                    if l != 'default' and self.truth(self.binop('==', v, l, {'k': 'bool'})):
                        start = i
                        break
                if start is not None:
                    break
            if start is None:
                for i, (ls, c) in enumerate(flat):
                    if 'default' in ls:
                        start = i
            if start is None:
                return None
            d = len(fr.scopes)
            fr.scopes.append([])
            r = None
            for ls, c in flat[start:]:
                r = c(fr)
                if r is not None:
                    break
            self.leave(fr, d, r[1] if r is not None and r[0] == 'ret' else None)
            return None if r is BRK else r
        return run

    # ------------------------------------------------------------- faults
    def observing(self):
        return any(q.endswith('::obs_ins') for q, f, l in self.where())

    def may_throw(self, kind):
        if self.fault and self.fault[0] > 0 and not self.observing():
            if self.choose(2, 'fault at %s' % kind) == 1:
                self.fault[0] -= 1
                self.events.append(('fault', kind, self.path_desc()[:1]))
                raise CppThrow(None, -1, 'Fault')


def evargs(fr, cs):
    if not cs:
        return []
    if len(cs) == 1:
        return [cs[0](fr)]
    a = []
    fr.pend.append(a)
    for c in cs:
        a.append(c(fr))
    fr.pend.pop()
    return a


def simple(e):
    k = e['k']
    if k in ('Int', 'Bool', 'Float', 'Str', 'Null', 'Var', 'This', 'Fn'):
        return True
    if k in ('Cast', 'Full'):
        return simple(e['e'])
    if k == 'Mem':
        return simple(e['b'])
    return False


def find_native(P, f):
    q = f.q
    h = NATIVE_FN.get(q)
    if h is not None:
        return h
    if f.rec is not None:
        rq = P.recs[f.rec]['q']
        nr = NATIVE_RECS.get(rq)
        if nr is not None:
            m = nr.method(P, f)
            if m is not None:
                return m
            if f.d.get('dtor'):
                return lambda I, F, this, args: None

            def missing(I, F, this, args):
                raise Unsupported('native member %s not modelled' % q)
            if f.body is None or f.d.get('stop'):
                return missing
            return None
    if f.rec is None:
        r = P.trec(f.ret)
        if r is not None and P.rq(r) in ('std::basic_string', 'std::__cxx11::basic_string') and P.types[f.ret]['k'] == 'rec':
            return lambda I, F, this, args: I.new_obj(I.P.trec(F.ret))      # text has no observable content
    if f.rec is None and f.params:
        r = P.trec(f.params[0]['t'])
        if r is not None:
            h = NATIVE_FN2.get((q, P.rq(r)))
            if h is not None:
                return h
    if f.body is None and f.rec is None:
        h = NATIVE_FREE.get(f.name)
        if h is not None:
            return h
    if f.d.get('stop') and f.rec is None:
        h = NATIVE_FREE.get(f.name)
        if h is not None:
            return h
    return None
