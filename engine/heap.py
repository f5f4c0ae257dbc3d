"""Abstract heap: objects, element classes (individual or summarised), sequences and maps."""
from num import Sym, Lin, add, sub, fresh, lin


class Uninit:
    __slots__ = ()

    def __reduce__(self):
        return 'UNINIT'

    def __repr__(self):
        return 'UNINIT'


UNINIT = Uninit()


class Obj:
    """A (sub)object. rec: record index or None (cell); f: field id -> scalar | Obj | Ref; n: native payload."""
    __slots__ = ('rec', 'f', 'n', 'alive', 'par', 'elem', 'lab')

    def __init__(self, rec=None, lab=None):
        self.rec = rec
        self.f = {}
        self.n = None
        self.alive = True
        self.par = None
        self.elem = None
        self.lab = lab

    def __getstate__(self):
        return (self.rec, self.f, self.n, self.alive, self.par, self.elem, self.lab)

    def __setstate__(self, s):
        self.rec, self.f, self.n, self.alive, self.par, self.elem, self.lab = s


class LRef:
    __slots__ = ('o', 'k')

    def __init__(self, o, k):
        self.o = o
        self.k = k

    def __eq__(self, x):
        return isinstance(x, LRef) and x.o is self.o and x.k == self.k

    def __hash__(self):
        return hash((id(self.o), self.k))


class Ref:
    """A reference-typed field."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Ptr:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, x):
        return isinstance(x, Ptr) and same(self.t, x.t)

    def __hash__(self):
        return hash(id(self.t))


class FnRef:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __eq__(self, x):
        return isinstance(x, FnRef) and x.f == self.f

    def __hash__(self):
        return hash(self.f)


class EPtr:
    """Raw pointer into a sequence (array, initializer_list)."""
    __slots__ = ('pos',)

    def __init__(self, pos):
        self.pos = pos

    def __eq__(self, x):
        return isinstance(x, EPtr) and x.pos == self.pos

    def __hash__(self):
        return 1


def same(a, b):
    if isinstance(a, LRef):
        return a == b
    if isinstance(a, Pos):
        return a == b
    return a is b


class Pos:
    """Iterator position: element e, or the end of sequence/map content/object c, or singular."""
    __slots__ = ('e', 'end')

    def __init__(self, e=None, end=None):
        self.e = e
        self.end = end

    def __eq__(self, o):
        return isinstance(o, Pos) and self.e is o.e and self.end is o.end

    def __hash__(self):
        return hash((id(self.e), id(self.end)))


class Elem:
    """One element of a container for one class (template if the class is a summary)."""
    __slots__ = ('cls', 'cont', 'obj', 'alive', 'may', 'old')

    def __init__(self, cls, cont, obj):
        self.cls = cls
        self.cont = cont
        self.obj = obj
        self.alive = True
        self.may = False
        self.old = False

    def __getstate__(self):
        return (self.cls, self.cont, self.obj, self.alive, self.may, self.old)

    def __setstate__(self, s):
        self.cls, self.cont, self.obj, self.alive, self.may, self.old = s


class Cls:
    """A class of container elements (keys): an individual or a summary of `len` pairwise distinct ones."""
    __slots__ = ('single', 'len', 'elems', 'exp', 'vis', 'marks', 'name', 'priv')

    def __init__(self, single=True, ln=1, name=None):
        self.single = single
        self.len = ln
        self.elems = []
        self.exp = {}     # ghost id -> True/False/absent
        self.vis = set()  # containers (MapC) in which it was visited by an unordered traversal
        self.marks = {}
        self.name = name
        self.priv = set()  # symbols describing each element of a summary on its own

    def __getstate__(self):
        return (self.single, self.len, self.elems, self.exp, list(self.vis), self.marks, self.name, list(self.priv))

    def __setstate__(self, s):
        self.single, self.len, self.elems, self.exp, v, self.marks, self.name, pr = s
        self.vis = v  # fixed up lazily (list until first use)
        self.priv = set(pr)

    def visited(self):
        if isinstance(self.vis, list):
            self.vis = set(self.vis)
        return self.vis

    def inn(self, cont):
        return [e for e in self.elems if e.cont is cont]


class SeqC:
    """Sequence content: items, each a list of Elem (one = segment/individual; several = interleaved)."""
    __slots__ = ('items', 'kind', 'owner')

    def __init__(self, kind):
        self.items = []
        self.kind = kind
        self.owner = None

    def __getstate__(self):
        return (self.items, self.kind, self.owner)

    def __setstate__(self, s):
        self.items, self.kind, self.owner = s


class MapC:
    __slots__ = ('ents', 'hash', 'eq', 'first', 'succ', 'loose', 'valrec', 'owner')

    def __init__(self):
        self.ents = []    # list of Elem
        self.hash = None
        self.eq = None
        self.first = None  # Elem | 'end' | None (unknown)
        self.succ = []     # list of (Elem, Elem|'end')
        self.loose = False
        self.owner = None

    def __getstate__(self):
        return (self.ents, self.hash, self.eq, self.first, self.succ, self.loose, self.owner)

    def __setstate__(self, s):
        self.ents, self.hash, self.eq, self.first, self.succ, self.loose, self.owner = s


class State:
    def __init__(self, poly):
        self.poly = poly
        self.roots = {}
        self.statics = {}
        self.now = None     # current instant (Lin)
        self.moved = {}
        self.conts = []
        self.copied = []    # (class, clone) pairs of this operation
