"""Most general client: all states reachable by any sequence of operations, up to the abstraction."""
import os
import num
import time
import multiprocessing as mp
from run import *


class State0:
    __slots__ = ('shape', 'kinds', 'cons', 'blob', 'sizes', 'count', 'hist', 'no', 'ver', 'info')


W_ = {}


def with_cons(blob, shape, cons):
    S = loads(blob)
    I = Interp(None)
    I.S = S
    cn = Canon(I)
    sh = cn.run()
    if sh != shape:
        raise Unsupported('canonical form is not stable')
    cn.rename()
    cn.apply(cons)
    return dumps(S)


def do_task(t):
    """(world key, state blob, shape, cons, op name, runner class)"""
    wk, blob, shape, cons, opname, runner, opts = t
    W, X = W_[wk]
    t0 = time.time()
    out = []
    err = None
    X.I.visited_fns = set()
    num._next[0] = 0
    try:
        if cons is not None:
            blob = with_cons(blob, shape, cons)
        if 'second' in opts:
            opts = dict(opts, second=with_cons(*opts['second']))
        opd = OPS[opname]
        R = RUNNERS[runner]
        X.count_key = opd.const1
        X.bag = opd.kw.get('bag', False)

        def body(I):
            r = R(W, I, opd)
            for k, v in opts.items():
                setattr(r, k, v)
            return r.run()
        for trace, res in X.explore(blob, body):
            out.append(res)
            if Fix.deadline is not None and time.time() > Fix.deadline:
                raise Unsupported('the time is up')
    except Unsupported as u:
        err = 'unsupported: %s at %s' % (u, X.I.path_desc()[:2] if X.I.frames else opname)
    except RecursionError:
        err = 'recursion'
    return out, err, time.time() - t0, X.paths, sorted(X.I.visited_fns)


def do_task_safe(t):
    try:
        return do_task(t)
    except Exception as e:      # an internal error is no verdict
        import traceback
        return [], 'internal: %s %s' % (e, traceback.format_exc()[-900:]), 0, 0, []


RUNNERS = {'run': Run}


class Fix:
    made = []
    deadline = None

    def __init__(self, wk, pool=None, log=None):
        Fix.made.append(self)
        self.wk = wk
        self.states = {}
        self.order = []
        self.pool = pool
        self.fails = {}        # (op, aspect, msg) -> example
        self.errors = {}
        self.cover = {}        # op -> [states, paths]
        self.times = {}
        self.fns = set()
        self.log = log
        self.rounds = 0
        self.done = {}

    def add(self, res, hist):
        """returns the state if it is new or larger"""
        k = (res['shape'], res['kinds'])
        s = self.states.get(k)
        if s is None:
            s = State0()
            s.shape, s.kinds = k
            s.cons = res['cons']
            s.blob = res['blob']
            s.sizes = res['sizes']
            s.info = res['info']
            s.count = 0
            s.hist = hist
            s.no = len(self.order)
            s.ver = 0
            self.states[k] = s
            self.order.append(s)
            return s
        if covers(s.cons, res['cons'], s.kinds):
            return None
        s.count += 1
        if s.count > 40:
            raise Unsupported('the states do not stabilise')
        s.cons = join(s.cons, res['cons'], s.kinds, s.sizes, s.count)
        s.ver += 1
        return s

    def map(self, tasks):
        if self.pool is None:
            return map(do_task_safe, tasks)
        return self.pool.imap(do_task_safe, tasks, chunksize=max(1, min(4, len(tasks) // 32)))

    def record(self, s, opn, r):
        if Fix.deadline is not None and time.time() > Fix.deadline:
            raise Unsupported('the time is up')
        out, err, dt, paths, fns = r
        self.times[opn] = self.times.get(opn, 0) + dt
        self.fns.update(fns)
        c = self.cover.setdefault(opn, [0, 0])
        c[0] += 1
        c[1] += len(out)
        if err is not None:
            self.errors.setdefault(opn, []).append((s.no, err))
        for res in out:
            for a, m in res['fails']:
                self.fails.setdefault((opn, a, m, res['tag']), (s.hist + (opn,), res['trace'], res['exc']))

    def run(self, ops, runner='run', opts={}, propagate=True, limit=600, pick=None):
        """worklist over (state, operation); an operation is repeated on a state that has grown"""
        while True:
            tasks = []
            for s in self.order:
                for o in ops:
                    if pick is not None and not pick(s, o):
                        continue
                    k = (o, runner)
                    if self.done.get((s.no, k)) != s.ver:
                        self.done[(s.no, k)] = s.ver
                        tasks.append((s, o))
            if not tasks:
                return
            self.rounds += 1
            changed = 0
            for (s, o), r in zip(tasks, self.map([(self.wk, s.blob, s.shape, s.cons, o, runner, opts) for s, o in tasks])):
                self.record(s, o, r)
                if not propagate or OPS[o].own:
                    continue
                for res in r[0]:
                    if 'shape' in res:
                        n = self.add(res, s.hist + (o,))
                        if n is not None:
                            changed += 1
            if len(self.order) > limit:
                raise Unsupported('too many states')
            if self.log:
                self.log('round %d: %d tasks, %d states, %d changed' % (self.rounds, len(tasks), len(self.order), changed))
            if not propagate:
                return
