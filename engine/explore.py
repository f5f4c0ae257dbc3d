"""Path enumeration by replay inside one operation, with joins at loop heads, and states as pickles."""
import io
import pickle
from core import *
import natives
import num
from canon import *


def dumps(S):
    return pickle.dumps(S, 4)


def loads(b):
    return pickle.loads(b)


class Stop(Exception):
    pass


class Memo:
    __slots__ = ('cons', 'count')

    def __init__(self, cons):
        self.cons = cons
        self.count = 0


class Explorer:
    def __init__(self, prog, interp=Interp):
        self.P = prog
        self.I = interp(prog)
        self.I.loops = self.loop_head
        self.max_paths = 6000
        self.max_visits = 40
        self.paths = 0
        self.force_from = 2
        self.count_key = False
        self.bag = False

    def explore(self, blob, body):
        """runs body(I) on every path from the pickled state; yields (trace, result)"""
        I = self.I
        self.memo = {}
        self.log = {}
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Unsupported('too many paths')
            num._next[0] = 0
            I.S = loads(blob)
            I.S.copied = []
            I.frames = []
            I.prefix = prefix
            I.taken = []
            I.widths = []
            I.trace = []
            I.events = []
            I.counts = []
            I.counting = True
            I.steps = 0
            I.current_exc = []
            self.visit = 0
            res = None
            try:
                res = body(I)
            except Infeasible:
                pass
            except Covered:
                pass
            for i in range(len(I.taken) - 1, len(prefix) - 1, -1):
                for alt in range(I.widths[i] - 1, 0, -1):
                    stack.append(I.taken[:i] + [alt])
            self.paths += 1
            if res is not None:
                yield list(I.trace), res

    def loop_head(self, fr, node, n, s):
        I = self.I
        if n < 1 and self.visit == 0:
            return      # the first iteration is unrolled
        if n > 60:
            raise Unsupported('loop does not stabilise')
        key = (tuple(I.taken), self.visit)
        self.visit += 1
        ent = self.log.get(key)
        self.before_canon()
        cn = Canon(I, I.frames, self.extra())
        shape = cn.run(force=n >= self.force_from)
        if ent is None:
            chain = tuple((f.fn.id if f.fn else None, tuple(f.line) if f.line else None) for f in I.frames)
            icons = cn.rename()
            kinds = tuple(x.kind for x in cn.slots)
            k = (node, chain, shape, kinds, self.evkey())
            m = self.memo.get(k)
            if m is None:
                self.memo[k] = Memo(icons)
                ent = icons
            elif covers(m.cons, icons, kinds):
                raise Covered()
            else:
                m.count += 1
                if m.count > 25:
                    raise Unsupported('loop does not stabilise')
                m.cons = join(m.cons, icons, kinds, cn.sizes(), m.count)
                ent = m.cons
            self.log[key] = ent
        else:
            cn.rename(False)
        cn.apply(ent)

    def wants(self, s):
        return True

    def extra(self):
        return ()

    def before_canon(self):
        """the order of keys the operation has removed is not kept"""
        if not self.bag:
            return
        S = self.I.S
        g = S.roots.get('ghost')
        b = S.roots.get('gone')
        if g is None or b is None:
            return
        for it in list(g.items):
            for e in list(it):
                if not any(x.alive and x is not e for x in e.cls.elems):
                    it.remove(e)
                    e.cont = b
                    b.ents.append(e)
            if not it:
                g.items.remove(it)

    def evkey(self):
        I = self.I
        if not self.count_key:
            return repr(I.events)
        c = {}
        for kind, cont in I.counts:
            if isinstance(cont, SeqC) and cont.kind == 'vector':
                continue
            k = kind
            c[k] = min(c.get(k, 0) + 1, 3)
        return (repr(I.events), tuple(sorted(c.items())))
