"""The jobs: which worlds are explored with which operations."""
import os
import time
import multiprocessing as mp
import fix
from fix import *

LOOKUPS = ['find', 'find_const', 'contains', 'lookup', 'lookup_const', 'index', 'index_const']
EMPLACE = ['emplace_rr', 'emplace_ll', 'emplace_cc', 'emplace_xl', 'emplace_xr', 'emplace_lr', 'emplace_rl', 'emplace_pw']
INSERTS = ['insert'] + EMPLACE
# arguments that are keys and values of the cache itself
OWNINS = ['insert_sk', 'insert_sv', 'insert_skv', 'emplace_skv', 'emplace_sv']
OWNLOOK = ['find_sk', 'find_const_sk', 'contains_sk', 'lookup_sk', 'index_const_sk']
RESIZE = ['clear', 'shrink', 'set_capacity']
QUERY = ['sizes', 'functors']
ENDS = ['front', 'back']
EXPIRY = ['all_expired', 'clear_expired', 'has_expired']
STATS = ['monitor_l', 'monitor_r', 'monitor_none', 'monitor_key', 'stop_monitoring', 'is_monitoring', 'stats', 'stats_const',
         'shared_stats', 'shared_stats_const']
CBS = ['hit_cb_f', 'hit_cb_l', 'hit_cb_r', 'miss_cb_f', 'miss_cb_l', 'acc_cb_f', 'acc_cb_l', 'clear_hit_cb', 'clear_miss_cb',
       'clear_acc_cb', 'clear_all_cb', 'callbacks']


class Make(Run):
    """construction of a cache"""

    def run(self):
        W, I = self.W, self.I
        I.reset()
        self.begin()
        try:
            return self.body()
        except Bug as b:
            return self.bug(b)

    def make_arg(self, p, i):
        W = self.W
        ty = W.P.types[W.P.strip(p['t'])]
        if ty['k'] == 'int':
            self.num = fresh('n', 'cap')
            return self.num
        q = W.P.rq(ty['r'])
        if q == 'std::chrono::duration':
            o = W.mkdur(ty['r'], fresh('r', 'ttl'))
            self.ttl = W.dur(self.I, o)
            return o
        if q == 'vf::H':
            return W.obj('vf::H', 'h')
        if q == 'vf::E':
            return W.obj('vf::E', 'e')
        raise Unsupported('constructor argument')

    def body(self):
        W, I = self.W, self.I
        self.args = [self.make_arg(p, i) for i, p in enumerate(W.fn(self.op.name).params)]
        self.exc = None
        try:
            I.S.roots['c'] = I.call(W.fn(self.op.name), None, self.args)
        except CppThrow as t:
            self.fail('exc', 'the constructor throws %s' % t.name)
            return self.done(False)
        I.S.roots['x'] = self.args
        c = I.S.roots['c']
        rehome(I, [Alpha(self.W, I, c).order])
        for b in Alpha(self.W, I, c).sync():
            self.fail('sync', b)
        if self.fails:
            return self.done(False)
        self.pre, self.g = self.build_ghost()
        a = self.post = self.pre
        self.capwant = self.want_capacity()
        self.expect(a)
        self.general(c, a)
        if self.read_stats(c) is not None:
            self.fail('stats', 'a new cache is monitored')
        for k, l in self.read_cbs(c).items():
            if l:
                self.fail('cbs', 'a new cache has callbacks')
        return self.done(True)

    def want_capacity(self):
        if self.num is not None:
            return self.num
        return self.observe('sizes', [self.I.S.roots['c']])['n2']

    def expect(self, a):
        if a.order.items or a.main.ents:
            self.fail('extra', 'a new cache is not empty')

    def general(self, c, a):
        if self.op.name == 'make_default':
            a.hash, a.eq = 'h', 'e'
        if self.W.timed and a.ttl is UNINIT:
            self.fail('ttl', 'the time to live is not set')
            self.stop = True
            return
        if self.W.timed and self.ttl is None:
            self.ttl = a.ttl
        Run.general(self, c, a)


RUNNERS['make'] = Make
op('make', '', None, 'make')
op('make_default', '', None, 'make')


class Lab:
    """loaded programs, worker pool and explored worlds of one check"""
    tier = 'quick'

    def __init__(self, paths, procs=8, log=None):
        self.log = log
        for wk, (path, ns) in paths.items():
            W = World(path, ns)
            X = Explorer(W.P, VI)
            fix.W_[wk] = (W, X)
        self.pool = mp.get_context('fork').Pool(procs) if procs > 1 else None
        self.fixes = {}

    def close(self):
        if self.pool is not None:
            self.pool.terminate()

    def seed(self, wk, makes=('make',)):
        F = Fix(wk, self.pool, self.log)
        S = State(Poly())
        W = fix.W_[wk][0]
        if W.timed:
            S.now = fresh('r', 'now')
        b = dumps(S)
        for m in makes:
            r = do_task_safe((wk, b, None, None, m, 'make', {}))
            st = State0()
            st.no, st.hist = -1, ()
            F.record(st, m, r)
            for res in r[0]:
                if 'shape' in res:
                    F.add(res, (m,))
        return F

    def make_only(self, F, makes):
        """constructors whose results are judged but not followed"""
        W = fix.W_[F.wk][0]
        S = State(Poly())
        if W.timed:
            S.now = fresh('r', 'now')
        b = dumps(S)
        st = State0()
        st.no, st.hist = -1, ()
        for m in makes:
            F.record(st, m, do_task_safe((F.wk, b, None, None, m, 'make', {})))

    def base(self, wk, ops, core=None):
        """one cache: no statistics object, no callbacks"""
        W = fix.W_[wk][0]
        F = self.seed(wk)
        if 'make_default' in ops:
            self.make_only(F, ['make_default'])
        if core is None:
            core = ['insert', 'find', 'erase', 'clear', 'shrink']
        F.run(core)
        allops = core + [o for o in ops if o not in core and OPS[o].kind != 'make']
        F.run([o for o in allops if OPS[o].timed in (None, W.timed)])
        return F

    def stats(self, wk, ops):
        W = fix.W_[wk][0]
        F = self.seed(wk)
        core = ['insert', 'find', 'erase', 'monitor_l', 'stop_monitoring']
        F.run(core)
        F.run(core + [o for o in ops if o not in core and OPS[o].timed in (None, W.timed)])
        return F

    def cbs(self, wk, ops):
        W = fix.W_[wk][0]
        F = self.seed(wk)
        core = ['insert', 'contains', 'hit_cb_f', 'miss_cb_f', 'acc_cb_f', 'clear_all_cb']
        F.run(core)

        def pick(s, o):
            # the product of several kinds of callbacks and a cache of general size, for the other lookups
            return self.tier == 'thorough' or o in core or o == 'find' or OPS[o].kind != 'lookup' or s.info[0] < 2 or s.info[1] < 2
        F.run(core + [o for o in ops if o not in core and OPS[o].timed in (None, W.timed)], pick=pick)
        return F
