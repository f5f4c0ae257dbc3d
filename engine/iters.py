"""Iterators: creation, access, movement, assignment, conversion, comparison, checks, erasure."""
from worlds import *

KINDS = ('u', 'uc', 'o', 'oc')
RECNAME = {'UnorderedIterator': 'u', 'UnorderedConstIterator': 'uc', 'OrderedIterator': 'o', 'OrderedConstIterator': 'oc'}


def it_kind(W, o):
    if type(o) is not Obj or o.rec is None:
        return ''
    return RECNAME.get(W.P.rq(o.rec).split('::')[-1], '')


def native_pos(o):
    """the native iterator inside of an iterator"""
    l = [p for p in owned_of(o) if type(p.n) is Pos]
    if len(l) != 1:
        raise Unsupported('an iterator does not hold exactly one position')
    return l[0]


class ItRun(Run):
    """operations on an iterator `it` of the cache"""

    def info(self):
        r = Run.info(self)
        return r + (it_kind(self.W, self.I.S.roots.get('it')),)

    # ------------------------------------------------------------ positions
    def where(self, it, what):
        """class of the element an iterator denotes, None at the end"""
        a = self.post if getattr(self, 'post', None) is not None else self.pre
        p = native_pos(it).n
        k = it_kind(self.W, it)
        own = a.main if k[0] == 'u' else a.order
        if p.e is None:
            if p.end is None:
                self.fail('result', what + ' is singular')
                return 'bad'
            if p.end.n is not own:
                self.fail('result', what + ' is the end of another container')
                return 'bad'
            return None
        if not p.e.alive or p.e.cont is not own:
            self.fail('result', what + ' does not denote an element of the cache')
            return 'bad'
        return p.e.cls

    def expect_at(self, it, cls, what):
        w = self.where(it, what)
        if w != 'bad' and w is not cls:
            self.fail('result', what + (' denotes an element and not the end' if cls is None else
                                        ' is past the end' if w is None else ' denotes another element'))

    def stored_classes(self):
        return [e.cls for it in self.g.items for e in it]

    def make_iter(self, kind, avoid_end=False, entry=False):
        I, W = self.I, self.W
        c = I.S.roots['c']
        it = I.quiet_count(lambda: I.call(W.fn(kind + '_end'), None, [c]))
        cl = self.stored_classes()
        n = len(cl) + (0 if avoid_end else 1)
        if n == 0:
            raise Infeasible()
        i = I.choose(n, 'position of the iterator')
        if i < len(cl):
            k = I.H.extract(cl[i], 'mid')
            cont = self.pre.main if kind[0] == 'u' else self.pre.order
            native_pos(it).n = Pos(I.H.elem_in(k, cont), None)
            if entry and I.choose(2, 'dereferenced before') == 1:
                o = W.obj('vf::Obs')
                I.quiet_count(lambda: I.call(W.fn(kind + '_deref'), None, [it, o]))
        return it

    def foreign_iter(self, kind):
        """an iterator of another cache: a copy, so that the same keys are in it"""
        I, W = self.I, self.W
        self.other = d = I.quiet_count(lambda: I.call(W.fn('copy_construct'), None, [I.S.roots['c']]))
        it = I.quiet_count(lambda: I.call(W.fn(kind + '_end'), None, [d]))
        k = self.cls
        if k is not None and I.choose(2, 'position of the foreign iterator') == 1:
            a = Alpha(W, I, d)
            native_pos(it).n = Pos(I.H.elem_in(k, a.main if kind[0] == 'u' else a.order), None)
        return it

    # ------------------------------------------------------------ the operation
    def body(self):
        W, I, op = self.W, self.I, self.op
        S = I.S
        c = S.roots['c']
        self.post = None
        self.pre, self.g = self.build_ghost()
        self.cap = self.observe('sizes', [c])['n2']
        self.ttl = self.pre.ttl
        self.capwant = self.cap
        self.stats_pre = None
        self.cb_pre = self.ghost_cbs(c)
        self.cbwant = dict(self.cb_pre)
        self.it = S.roots.get('it')
        self.j = self.jcls = None
        self.key = None
        self.val = None
        self.cls = None
        if self.it is not None:
            self.cls = self.where(self.it, 'the iterator')
            if self.cls == 'bad':
                return self.done(False)
            if self.cls is not None and not self.cls.single:
                raise Unsupported('iterator to a summarised element')
        self.args = []
        for t in op.args:
            if t == 'c':
                self.args.append(c)
            elif t == 'i':
                self.args.append(self.it)
            elif t == 'o':
                self.obs = o = W.obj('vf::Obs')
                for f in W.P.recs[o.rec]['fields']:
                    o.f[f['id']] = UNINIT
                self.args.append(o)
            elif t[0] == 'f':
                self.j = self.foreign_iter(t[1:])
                self.args.append(self.j)
            elif t[0] == 'j':
                n = I.choose(2, 'operands the same') if t == 'j' + it_kind(W, self.it) and op.kw.get('same') else 0
                self.j = self.it if n == 1 else self.make_iter(t[1:], entry=op.kw.get('entry', False))
                self.jcls = self.where(self.j, 'the second iterator')
                self.args.append(self.j)
            else:
                raise Unsupported('argument kind ' + t)
        if self.cls is not None:
            self.stored = True
            if W.timed:
                self.was_expired = self.expired(self.cls)
        pre = op.kw.get('pre')
        if pre is not None and not pre(self):
            raise Infeasible()
        S.roots['x'] = list(self.args) + [self.j]
        if op.kw.get('place'):
            self.ret = self.make_iter(op.kw['place'])
        else:
            self.call()
        S.roots['x'] = list(self.args) + [self.j, getattr(self, 'ret', None)]
        self.o = self.fields(self.obs) if 'o' in op.args else {}
        self.keep = ['it'] if self.it is not None else []
        self.post_check(c)
        if not self.fails:
            opt = [x for x in self.keep if x != 'none']
            k = opt[I.choose(len(opt), 'iterator kept')] if len(opt) > 1 else opt[0] if opt else None
            if k is None:
                S.roots.pop('it', None)
            else:
                S.roots['it'] = {'it': self.it, 'ret': getattr(self, 'ret', None), 'j': self.j}[k]
        return self.done(True)

    def succ(self, cls, back=False):
        """the element next to cls (None: end)"""
        a = self.post
        k = it_kind(self.W, self.it)
        cont = a.main if k[0] == 'u' else a.order
        if cls is None:
            p = Pos(None, cont.owner)
        else:
            p = Pos(I_elem(self.I, cls, cont), None)
        q = self.I.quiet_count(lambda: self.I.H.prev(p) if back else self.I.H.next(p))
        return q.e.cls if q.e is not None else None


def I_elem(I, cls, cont):
    return I.H.elem_in(cls, cont)


RUNNERS['it'] = ItRun


# ----------------------------------------------------------------------------------------------- specifications
def first(x, kind):
    a = x.post
    if kind[0] == 'u':
        p = x.I.quiet_count(lambda: x.I.H.map_begin(a.main))
    else:
        p = x.I.quiet_count(lambda: x.I.H.begin(a.order))
    return p.e.cls if p.e is not None else None


def i_begin(x):
    x.no_exc()
    if x.exc:
        return
    x.expect_at(x.ret, first(x, it_kind(x.W, x.ret)), 'begin()')
    x.keep = ['ret']


def i_end(x):
    x.no_exc()
    if x.exc:
        return
    x.expect_at(x.ret, None, 'end()')
    x.keep = ['ret']


def i_place(x):
    x.keep = ['ret']


def i_access(x):
    nm = x.op.name.split('_')[1]
    if nm in ('entry', 'key', 'value') and x.cls is None:
        x.want_exc('InvalidIterator')
    elif nm in ('entry', 'key', 'value') and x.was_expired:
        x.want_exc('KeyExpired')
    else:
        x.no_exc()
        if not x.exc:
            if nm != 'value':
                x.want_key(x.cls)
            if nm != 'key':
                x.want_val(x.cls)
    x.expect_at(x.it, x.cls, 'the iterator')


def i_step(x):
    x.no_exc()
    if x.exc:
        return
    nm = x.op.name.split('_')[1]
    n = x.succ(x.cls, nm[:3] == 'dec')
    x.expect_at(x.it, n, 'the moved iterator')
    if nm[-1] == 'p':
        x.expect_at(x.ret, x.cls, 'the iterator returned')
        x.keep = ['it', 'ret']


def i_copy(x):
    x.no_exc()
    if x.exc:
        return
    x.expect_at(x.ret, x.cls, 'the result')
    if x.op.name.endswith('move') or x.op.name.endswith('_m'):
        x.keep = ['ret']
    else:
        x.expect_at(x.it, x.cls, 'the source')
        x.keep = ['it', 'ret']


def i_to_ordered(x):
    if x.cls is None:
        x.want_exc('InvalidIteratorConversion')
        x.expect_at(x.it, None, 'the source')
        return
    i_copy(x)


def i_assign(x):
    nm = x.op.name.split('_', 1)[1]
    if x.op.kw.get('conv') and x.jcls is None:
        x.want_exc('InvalidIteratorConversion')
        x.expect_at(x.it, x.cls, 'the target')
        return
    x.no_exc()
    if x.exc:
        return
    x.expect_at(x.it, x.jcls, 'the target')
    if nm in ('swap', 'swapf'):
        x.expect_at(x.j, x.cls, 'the second iterator')
    elif nm != 'massign':
        x.expect_at(x.j, x.jcls, 'the source')
    if nm != 'massign' and not x.op.kw.get('conv') and it_kind(x.W, x.j) == it_kind(x.W, x.it) and x.j is not x.it:
        x.keep = ['it', 'j']


def i_valid(x):
    ok = x.cls is not None and not x.was_expired
    if x.op.name.endswith('_valid'):
        x.no_exc()
        x.want('b', ok)
    elif ok:
        x.no_exc()
    else:
        x.want_exc('InvalidIterator' if x.cls is None else 'KeyExpired')
    x.expect_at(x.it, x.cls, 'the iterator')


def i_eq(x):
    x.no_exc()
    if x.op.kw.get('foreign'):
        x.want('b', False, 'equality with an iterator of another cache')
        x.want('b2', True, 'inequality with an iterator of another cache')
        x.expect_at(x.it, x.cls, 'the left operand')
        return
    same = x.cls is x.jcls
    x.want('b', same, 'equality')
    x.want('b2', not same, 'inequality')
    x.expect_at(x.it, x.cls, 'the left operand')
    x.expect_at(x.j, x.jcls, 'the right operand')


def i_erase(x):
    if x.cls is None:
        x.want_exc('InvalidIterator')
        return
    x.no_exc()
    if not x.exc:
        x.g_remove(x.cls)
    x.keep = []


def i_has_expired(x):
    x.no_exc()
    x.want('b', bool(x.cls is not None and x.was_expired))


def valid(x):
    return x.cls is not None


def not_begin(x):
    """decrement needs a predecessor"""
    p = native_pos(x.it).n
    a = x.pre
    if p.e is None:
        return bool(a.order.items)
    q = x.I.H.begin(a.order)
    return q.e is not p.e


ITERS = {}


def iop(name, args, spec, kind, on=None, **kw):
    op(name, args, spec, kind, const1=False, **kw)
    ITERS[name] = on


for p in KINDS:
    iop('at_' + p, '', i_place, 'iter', on='', place=p)
for nm, suf in (('u', ('', '2')), ('uc', ('', '2', '3', '4')), ('o', ('',)), ('oc', ('', '2'))):
    for s in suf:
        iop('%s_begin%s' % (nm, s), 'c', i_begin, 'iter', on='')
        iop('%s_end%s' % (nm, s), 'c', i_end, 'iter', on='')
for p in KINDS:
    for nm in ('deref', 'arrow'):
        iop('%s_%s' % (p, nm), 'i o', i_access, 'iter', on=p, pre=valid)
    for nm in ('entry', 'key', 'value'):
        iop('%s_%s' % (p, nm), 'i o', i_access, 'iter', on=p)
    iop(p + '_inc', 'i o', i_step, 'iter', on=p, pre=valid)
    iop(p + '_incp', 'i', i_step, 'iter', on=p, pre=valid)
    if p[0] == 'o':
        iop(p + '_dec', 'i o', i_step, 'iter', on=p, pre=not_begin)
        iop(p + '_decp', 'i', i_step, 'iter', on=p, pre=not_begin)
    for nm in ('copy', 'copy_nc', 'move'):
        iop('%s_%s' % (p, nm), 'i', i_copy, 'iter', on=p)
    for nm in ('assign', 'massign', 'swap', 'swapf'):
        iop('%s_%s' % (p, nm), 'i j%s o' % p, i_assign, 'iter', on=p, entry=True, same=nm != 'massign')
    for nm in ('valid', 'tii'):
        iop('%s_%s' % (p, nm), 'c i o', i_valid, 'valid', on=p, leaf=True)
    for q in KINDS:
        iop('eq_%s_%s' % (p, q), 'i j%s o' % q, i_eq, 'eq', on=p, leaf=True)
        if p[0] != q[0]:
            iop('eq_%s_%s:other' % (p, q), 'i f%s o' % q, i_eq, 'eq', on=p, leaf=True, foreign=True, fn='eq_%s_%s' % (p, q))
    iop('erase_' + p, 'c i o', i_erase, 'itererase', on=p)
for nm, p in (('u_to_uc', 'u'), ('o_to_oc', 'o')):
    iop(nm, 'i', i_copy, 'conv', on=p)
    iop(nm + '_m', 'i', i_copy, 'conv', on=p)
for nm, p in (('u_to_o', 'u'), ('u_to_oc', 'u'), ('uc_to_oc', 'uc')):
    iop(nm, 'i', i_to_ordered, 'conv', on=p)
    iop(nm + '_m', 'i', i_to_ordered, 'conv', on=p)
iop('uc_assign_u', 'i ju o', i_assign, 'conv', on='uc', entry=True)
iop('oc_assign_o', 'i jo o', i_assign, 'conv', on='oc', entry=True)
iop('o_assign_u', 'i ju o', i_assign, 'conv', on='o', conv=True, entry=True)
iop('oc_assign_uc', 'i juc o', i_assign, 'conv', on='oc', conv=True, entry=True)
iop('has_expired_u', 'c i o', i_has_expired, 'expiry', on='uc', timed=True, leaf=True)
iop('has_expired_o', 'c i o', i_has_expired, 'expiry', on='oc', timed=True, leaf=True)

PLACE = ['at_' + p for p in KINDS]
BEGINS = [o for o in ITERS if ITERS[o] == '' and o not in PLACE]
ACCESS = [o for o in ITERS if OPS[o].kind == 'iter' and OPS[o].spec is i_access]
STEPS = [o for o in ITERS if OPS[o].spec is i_step]
ICOPY = [o for o in ITERS if OPS[o].kind == 'iter' and OPS[o].spec in (i_copy, i_assign)]
CONV = [o for o in ITERS if OPS[o].kind == 'conv']
VALID = [o for o in ITERS if OPS[o].kind == 'valid']
EQ = [o for o in ITERS if OPS[o].kind == 'eq']
ITERASE = [o for o in ITERS if OPS[o].kind == 'itererase']
ITEXP = ['has_expired_u', 'has_expired_o']


def iters(self, wk, ops):
    """one cache and one iterator of it"""
    W = fix.W_[wk][0]
    F = self.seed(wk)
    F.run(['insert', 'find', 'erase', 'clear'])
    # iterators with and without a cached entry, at all places
    for s in F.order:
        s.info = s.info + ('',)
    grow = PLACE + ['%s_deref' % p for p in KINDS]
    allops = grow + [o for o in ops if o not in grow and OPS[o].timed in (None, W.timed)]

    def pick(s, o):
        k = s.info[2] if len(s.info) > 2 else ''
        return ITERS[o] == k
    F.run(allops, runner='it', pick=pick)
    if any(o in ITERASE for o in ops):
        # what an erasure leaves behind
        F.run(['contains', 'find', 'insert', 'erase'], pick=lambda s, o: pick(s, 'at_u'))
    return F


Lab.iters = iters
