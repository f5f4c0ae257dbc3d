"""Wrapped functions: calls, independence of several wrapped functions, copies of arguments."""
from worlds import *


def reach(roots):
    """everything that can be reached, through pointers as well"""
    out, seen, todo = [], set(), list(roots)
    while todo:
        o = todo.pop()
        if type(o) in (Ptr, Ref):
            o = o.t
        if type(o) is LRef:
            o = o.o
        if type(o) is Pos:
            todo += [o.e.obj if o.e is not None else o.end]
            continue
        if type(o) is not Obj or id(o) in seen:
            continue
        seen.add(id(o))
        out.append(o)
        todo += list(o.f.values())
        n = o.n
        if isinstance(n, SeqC):
            todo += [e.obj for it in n.items for e in it]
        elif isinstance(n, MapC):
            todo += [e.obj for e in n.ents]
        elif n is not None:
            todo.append(n)
    return out


def original(self, f, k):
    """a call of a function that was given to wrap"""
    h = self.S.roots['hold']
    h['norig'] = 'once' if h.get('norig', 'not at all') == 'not at all' else 'more than once'
    h['of'], h['ok'] = f, k
    if h.get('throws'):
        raise CppThrow(None, -1, 'Fault')
    h['ov'] = v = Sym('o', 'v')
    return v


VI.original = original


class WrapCtx:
    KEEP = ('c', 'cc', 'conf')

    def cache_of(self, root, name):
        """the cache behind a wrapped function, None before its first call"""
        S = self.I.S
        r = self.W.P.trec(self.W.fn('seen').params[0]['t'])
        l = [o for o in reach([S.roots[root]]) if o.rec == r]
        if len(l) > 1:
            raise Unsupported('several caches behind one function')
        S.roots.pop(name, None)
        if l:
            S.roots[name] = l[0]
            return l[0]
        return None

    def configured(self, root='conf'):
        o = self.I.S.roots[root]
        return o.f['cap'], o.f.get('ttl')

    def new_wrapper(self, root, fname, conf):
        """the result of a call of wrap whose arguments end right after it"""
        I, W = self.I, self.W
        f = W.obj('vf::F', fname)
        c = Obj(None)
        args = []
        for p in W.fn('make').params:
            ty = W.P.types[W.P.strip(p['t'])]
            if ty['k'] == 'int':
                c.f['cap'] = fresh('n', 'cap')
                args.append(c.f['cap'])
            elif W.P.rq(ty['r']) == 'vf::F':
                args.append(f)
            else:
                args.append(W.mkdur(ty['r'], fresh('r', 'ttl')))
                c.f['ttl'] = W.dur(I, args[-1])
        I.S.roots[conf] = c
        I.S.roots['x'] = args
        I.S.roots[root] = I.call(W.fn('make'), None, args)
        for a in args:
            if isinstance(a, Obj):
                I.kill(a)
        I.S.roots['x'] = []

    def check_cache(self, root, cc, conf, g, who=''):
        """the cache behind the function holds what it should"""
        I = self.I
        cap, ttl = self.configured(conf)
        c = self.cache_of(root, cc)
        if c is None:
            if g.items:
                self.fail('lost', who + 'there is no cache behind the function')
            return None
        rehome(I, [Alpha(self.W, I, c).order])
        a = Alpha(self.W, I, c)
        for b in a.sync():
            self.fail('sync', who + b)
            self.stop = True
        if self.stop:
            return None
        self.post = a
        compare(self, a, g, who)
        r = self.observe('seen', [c])
        if not eqz(I, sub(r['n2'], cap)):
            self.fail('cap', who + 'the capacity is not the one given to wrap')
        if self.W.timed and not eqz(I, sub(a.ttl, ttl)):
            self.fail('ttl', who + 'the time to live is not the one given to wrap')
        return a

    def ghost_of(self, root, cc, name):
        c = self.cache_of(root, cc)
        if c is not None:
            return self.build_ghost(cc, name)[1]
        g = ghost_seq()
        self.I.S.roots[name] = g
        if name == 'ghost':
            b = MapC()
            b.owner = Obj(None)
            b.owner.n = b
            self.I.S.roots['gone'] = self.gone = b
        return g

    def invoke(self, root, op, throws=False):
        """call the function with the key"""
        I, W = self.I, self.W
        S = I.S
        h = S.roots['hold']
        h['norig'], h['of'], h['ok'], h['ov'], h['throws'] = 'not at all', None, None, None, 'yes' if throws else ''
        a = W.obj('vf::K', self.key)
        S.roots['x'] = [a, W.obj('vf::K', self.key)]
        try:
            self.ret = I.call(W.fn(op), None, [S.roots[root], a])
        except CppThrow as t:
            self.exc = t.name
            self.ret = None
        if op != 'call_r' and a.n is not self.key and (op != 'call_l' or h['norig'] == 'not at all'):
            self.fail('args', 'an argument passed as lvalue was modified or moved from')

    def judge_call(self, served, val, fname, throws=False):
        h = self.I.S.roots['hold']
        n = h['norig']
        if n != ('not at all' if served else 'once'):
            self.fail('calls', 'the original function is called %s although the result %s' % (
                n, 'is cached' if served else 'is not cached'))
            return False
        if not served:
            if h['ok'] is not self.key:
                self.fail('calls', 'the original function is not called with the argument of the caller')
            if h['of'] != fname:
                self.fail('shared', 'another function than the wrapped one is called')
        if throws and not served:
            if self.exc != 'Fault':
                self.fail('exc', 'the exception of the original function does not reach the caller')
            return not self.fails
        if self.exc:
            self.fail('exc', 'throws %s' % self.exc)
            return False
        if type(self.ret) is not Obj or self.ret.n is not (val if served else h['ov']):
            self.fail('result', 'the result is not that of the original function for this argument')
            return False
        return True

    def remember(self, g, cap):
        """the expected effect of storing the result of a call"""
        I = self.I
        v = I.S.roots['hold']['ov']
        if I.numeq(cap, 0):
            return
        e = self.gelem(self.key, g)
        if e is not None:
            e.obj.f['val'] = v
            if self.W.timed:
                e.obj.f['time'] = I.S.now
            I.H.remove_elem(e)
            g.items.append([e])
            return
        if not I.ge(sub(cap, add(self.g_len(g), 1))):
            p = I.H.begin(g)
            self.lru = p.e.cls
            I.H.remove_elem(p.e)
            self.lru.elems = [x for x in self.lru.elems if x is not p.e]
        o = Obj(None)
        o.f['val'] = v
        if self.W.timed:
            o.f['time'] = I.S.now
        g.items.append([I.H.new_elem(self.key, g, o)])
        self.key.marks['fresh'] = 1


class WrapMake(WrapCtx, Make):
    def body(self):
        I = self.I
        self.exc = None
        try:
            self.new_wrapper('c', 'f', 'conf')
        except CppThrow as t:
            self.fail('exc', 'wrap throws %s' % t.name)
            return self.done(False)
        if I.S.roots['hold'].get('norig'):
            self.fail('calls', 'wrap calls the function')
        g = ghost_seq()
        self.g = g
        I.S.roots['ghost'] = g
        b = MapC()
        b.owner = Obj(None)
        b.owner.n = b
        I.S.roots['gone'] = self.gone = b
        self.check_cache('c', 'cc', 'conf', g)
        return self.done(True)


class WrapRun(WrapCtx, Run):
    def info(self):
        c = self.I.S.roots.get('cc')
        a = [e for it in Alpha(self.W, self.I, c).order.items for e in it] if c is not None else []
        return 0, sum(1 if e.cls.single else 2 for e in a)

    def body(self):
        W, I, op = self.W, self.I, self.op
        S = I.S
        nm = op.name
        r = W.P.trec(W.fn('seen').params[0]['t'])
        if any(o.rec == r for o in reach(S.statics.values())):
            self.fail('shared', 'the cache of a wrapped function does not belong to the function alone')
            return self.done(False)
        self.g = self.ghost_of('c', 'cc', 'ghost')
        cap, ttl = self.configured()
        self.ttl = ttl
        if nm in ('copy', 'move'):
            self.key = None
            r = I.call(W.fn(nm), None, [S.roots['c']])
            if nm == 'move' or I.choose(2, 'function kept: copy / original') == 0:
                S.roots['c2'] = S.roots['c']
                S.roots['c'] = r
            else:
                S.roots['c2'] = r
            if S.roots['hold'].get('norig'):
                self.fail('calls', 'the original function is called by a %s' % nm)
            I.quiet_count(lambda: I.destroy(S.roots.pop('c2')))
            self.check_cache('c', 'cc', 'conf', self.g)
            return self.done(True)
        self.key = self.choose_key()
        self.stored = self.gelem(self.key) is not None
        if nm == 'other':
            # a second function of the same type, and what it does to the first
            self.new_wrapper('c2', 'f2', 'conf2')
            if self.stored:
                self.was_expired = False
            g2 = ghost_seq()
            S.roots['ghost2'] = g2
            self.invoke('c2', 'call_c')
            if not self.judge_call(False, None, 'f2'):
                return self.done(False)
            cap2 = self.configured('conf2')[0]
            fr = self.key.marks.get('fresh')
            self.remember(g2, cap2)
            # what the second function holds
            old, self.check_old, gone = self.check_old, False, self.gone
            self.gone = MapC()
            self.check_cache('c2', 'cc2', 'conf2', g2, 'the second function: ')
            self.check_old, self.gone = old, gone
            if fr is None:
                self.key.marks.pop('fresh', None)
            if self.stop or self.fails:
                return self.done(False)
            self.check_cache('c', 'cc', 'conf', self.g, 'the first function: ')
            own = set(id(o) for o in reach([S.roots['c']]))
            if any(id(o) in own and o.rec is not None and not W.P.rq(o.rec).startswith('std::type_in') for o in reach([S.roots['c2']])):
                self.fail('shared', 'two wrapped functions share storage')
            if self.stop or self.fails:
                return self.done(False)
            I.quiet_count(lambda: I.destroy(S.roots.pop('c2')))
            for r in ('cc2', 'conf2'):
                S.roots.pop(r, None)
            return self.done(True)
        if nm == 'call_two':
            return self.two()
        val = None
        if self.stored:
            self.was_expired = self.expired(self.key)
            val = self.gelem(self.key).obj.f['val']
        served = self.stored and not self.was_expired
        throws = nm == 'call_throws'
        self.invoke('c', 'call_c' if throws else nm, throws)
        if not self.judge_call(served, val, 'f', throws):
            return self.done(False)
        if served:
            self.g_back(self.key)
        elif not throws:
            self.remember(self.g, self.configured()[0])
        self.check_cache('c', 'cc', 'conf', self.g)
        return self.done(True)


    def two(self):
        """calls with two arguments: another cache of the same function"""
        W, I = self.W, self.I
        S = I.S
        h = S.roots['hold']
        if self.stored:
            self.was_expired = False
        k2 = Cls(True, 1)
        cap, ttl = self.configured()
        kept = not I.numeq(cap, 0) and not (W.timed and I.ge(sub(0, ttl), True, 'time to live over'))
        first = None
        for ks, known in (((self.key, k2), False), ((self.key, k2), kept), ((k2, self.key), False)):
            h['norig'], h['of'], h['ok'], h['ov'], h['throws'] = 'not at all', None, None, None, ''
            a = [W.obj('vf::K', k) for k in ks]
            S.roots['x'] = a
            try:
                r = I.call(W.fn('call_two'), None, [S.roots['c']] + a)
            except CppThrow as t:
                self.fail('exc', 'throws %s' % t.name)
                return self.done(False)
            if [x.n for x in a] != list(ks):
                self.fail('args', 'an argument passed as lvalue was modified or moved from')
            if h['norig'] != ('not at all' if known else 'once'):
                self.fail('calls', 'two arguments: the original function is called %s although the result %s' % (
                    h['norig'], 'is cached' if known else 'is not cached'))
                return self.done(False)
            if not known and (h['of'] != 'f' or h['ok'] != ks):
                self.fail('calls', 'two arguments: the original function is not called with the arguments of the caller')
            if type(r) is not Obj or r.n is not (first if known else h['ov']):
                self.fail('result', 'two arguments: the result is not that of the original function')
                return self.done(False)
            first = r.n
            I.kill(r)
        S.roots['x'] = []
        self.check_cache('c', 'cc', 'conf', self.g, 'the cache for one argument: ')
        return self.done(False)


class TupleHash(Run):
    """equal tuples have equal hash codes"""

    def body(self):
        I, W = self.I, self.W
        a, b = Cls(True, 1), Cls(True, 1)
        if I.choose(2, 'components equal') == 1:
            b = a
        h = []
        for i in range(2):
            k = [W.obj('vf::K', a), W.obj('vf::K', b)]
            I.S.roots['x'] = [k]
            t = I.call(W.fn('tup2'), None, k)
            for x in k:
                I.kill(x)
            I.S.roots['t%d' % i] = t
            h.append(I.call(W.fn('hash2'), None, [t]))
        I.S.roots.clear()
        I.S.roots['hold'] = {}
        same = isnum(h[0]) and isnum(h[1]) and eqz(I, sub(h[0], h[1])) if not isinstance(h[0], Term) else h[0] == h[1]
        if not same:
            self.fail('result', 'the hash codes of equal argument lists differ')
        return self.done(False)


RUNNERS['thash'] = TupleHash
RUNNERS['wmake'] = WrapMake
RUNNERS['wrap'] = WrapRun
WRAPS = ['call_c', 'call_l', 'call_r', 'call_throws', 'call_two', 'other', 'copy', 'move', 'tuple_hash']
for nm in WRAPS:
    op(nm, '', None, 'wrap', const1=False)
op('wrap', '', None, 'wrap', const1=False)


def wraps(self, wk, ops):
    F = Fix(wk, self.pool, self.log)
    S = State(Poly())
    W = fix.W_[wk][0]
    if W.timed:
        S.now = fresh('r', 'now')
    st = State0()
    st.no, st.hist = -1, ()
    r = do_task_safe((wk, dumps(S), None, None, 'wrap', 'wmake', {}))
    F.record(st, 'wrap', r)
    for res in r[0]:
        if 'shape' in res:
            F.add(res, ('wrap',))
    F.run(['call_c'], runner='wrap')
    F.run(['call_c'] + [o for o in ops if o not in ('call_c', 'tuple_hash')], runner='wrap')
    if 'tuple_hash' in ops and wk == 'w':
        F.record(st, 'tuple_hash', do_task_safe((wk, dumps(S), None, None, 'tuple_hash', 'thash', {})))
    return F


Lab.wraps = wraps
