"""The operations and what each must do to keys, values, order and times (on the ghost model)."""
from world import *

OPS = {}


class Op:
    def __init__(self, name, args, spec, kind, **kw):
        self.name = name
        self.args = args.split()
        self.spec = spec
        self.kind = kind
        self.kw = kw
        self.own = 'ks' in self.args or 'vs' in self.args   # arguments stored in the cache: judged, their outcomes are not explored further
        self.access = kw.get('access', False)
        self.timed = kw.get('timed', None)
        self.const1 = kw.get('const1', kind in ('insert', 'lookup', 'erase'))


def op(name, args, spec, kind, **kw):
    OPS[name] = Op(name, args, spec, kind, **kw)


# ----------------------------------------------------------------------------------------------- specifications
def unchanged(x):
    pass


def s_lookup(x):
    served = x.stored and not x.was_expired
    x.hit = served
    k = x.op.kw['res']
    if served:
        x.g_back(x.key)
    if k == 'contains':
        x.want('b', served)
        x.no_exc()
    elif k == 'find':
        x.no_exc()
        x.want_it(x.key if served else None)
    elif k == 'value':
        if served:
            x.no_exc()
            x.want_val(x.key)
        elif x.stored:
            x.want_exc('KeyExpired', 'KeyNotFound')
        else:
            x.want_exc('KeyNotFound')
    elif k == 'both':
        x.no_exc()
        x.want('b', served)
        if served:
            x.want_val(x.key)


def s_insert(x):
    I = x.I
    x.no_exc()
    if I.numeq(x.cap, 0):
        x.want('b', False)
        x.want('b2', False)
        x.want('end', True)
        return
    if x.stored:
        e = x.gelem(x.key)
        e.obj.f['val'] = x.val
        if x.W.timed:
            e.obj.f['time'] = I.S.now
        x.g_back(x.key)
        ins = False
    else:
        if not I.ge(sub(x.cap, add(x.g_len(), 1))):
            p = I.H.begin(x.g)
            x.lru = p.e.cls
            x.g_remove(x.lru)
        x.g_add(x.key, x.val)
        x.key.marks['fresh'] = 1
        ins = True
    x.inserted = ins
    x.want('b', ins)
    x.want('b2', ins)
    x.want_it(x.key)
    want_args(x, ins)


def want_args(x, ins):
    for (tok, o, ident) in x.args_given:
        if tok in ('k', 'v', 'x', 'y', 'kc', 'vc') and o.n is not ident:
            x.fail('args', 'an argument passed as lvalue was modified or moved from')
    if ins and x.op.kw.get('nocopy'):
        for kind in x.op.kw['nocopy'].split():
            if kind in x.I.copies:
                x.fail('copies', 'a %s is copied although it could be constructed in place or moved' % kind)


def s_erase(x):
    x.no_exc()
    x.want('b', x.stored)
    if x.stored:
        x.g_remove(x.key)


def s_clear(x):
    x.no_exc()
    for it in list(x.g.items):
        for e in it:
            e.cls.elems = [y for y in e.cls.elems if y is not e]
    x.g.items = []


def s_shrink(x):
    I = x.I
    x.no_exc()
    if x.op.name == 'set_capacity':
        x.capwant = x.num
    if I.ge(sub(x.num, x.g_len())):
        return
    a = x.post
    A = [sorted(id(c) for c in it) for it in a.items()]
    G = [sorted(id(e.cls) for e in it) for it in x.g.items]
    n = len(A)
    if n > len(G) or (A and G[-n:] != A):
        x.fail('lost', 'the keys that remain are not the most recently used ones')
        x.stop = True
        return
    if not eqz(I, sub(I.H.seq_len(a.order), x.num)):
        x.fail('lost', 'the number of keys that remain is wrong')
        x.stop = True
        return
    cut = x.g.items[:len(G) - n]
    x.g.items = x.g.items[len(G) - n:]
    for it in cut:
        for e in it:
            e.cls.elems = [y for y in e.cls.elems if y is not e]


def s_sizes(x):
    x.no_exc()
    n = x.g_len()
    x.want_num('n', n, 'size()')
    x.want_num('n2', x.cap, 'capacity()')
    x.want_num('n3', sub(x.cap, n), 'space_left()')
    x.want('b', x.I.numeq(n, x.cap), 'is_full()')
    x.want('b2', x.I.numeq(n, 0), 'is_empty()')


def s_functors(x):
    x.no_exc()
    if x.args[1].n != 'h':
        x.fail('hash', 'hash_function() does not return the function supplied')
    if x.args[2].n != 'e':
        x.fail('hash', 'key_equal() does not return the function supplied')


def s_front(x):
    I = x.I
    if not x.g.items:
        x.want_exc('EmptyCache')
        return
    x.no_exc()
    p = I.H.prev(I.H.end(x.g)) if x.op.name == 'front' else I.H.begin(x.g)
    x.want_key(p.e.cls)


def s_all_expired(x):
    x.no_exc()
    want = True
    for it in x.g.items:
        for e in it:
            k = x.expired_known(e)
            if k is None:
                x.want_known = False
                # some, but the answer must not depend on them
                if x.o['b'] is True:
                    x.fail('result', 'all_expired() is true although a key may not have expired')
                continue
            if k is False:
                want = False
    if x.o['b'] is False and want:
        x.fail('result', 'all_expired() is false although no key is known to be unexpired')
    if x.o['b'] is True and not want:
        x.fail('result', 'all_expired() is true although a key has not expired')


def s_clear_expired(x):
    I = x.I
    x.no_exc()
    n = 0
    todo = [e for it in x.g.items for e in it] + list(x.gone.ents)
    for e in todo:
        k = x.expired_known(e)
        gone = x.post.has(e.cls) is None
        if k is None:
            x.fail('lost' if gone else 'extra', 'whether a key is removed does not depend on whether it has expired (%s)' % describe(x, e.cls))
            x.stop = True
            return
        if k:
            n = add(n, e.cls.len)
            x.g_drop(e)
    x.want_num('n', n, 'the number of removed keys')


def s_has_expired(x):
    x.no_exc()
    x.want('b', bool(x.stored and x.was_expired))


def s_monitor(x):
    nm = x.op.name
    if nm in ('monitor_l', 'monitor_r'):
        x.no_exc()
        x.statswant = x.sarg
    elif nm == 'stop_monitoring':
        x.no_exc()
        x.statswant = None
    elif nm == 'monitor_none':
        x.no_exc()
        x.statswant = 'new'
    elif nm == 'monitor_key':
        x.no_exc()
        x.statswant = 'new'
    elif nm == 'is_monitoring':
        x.no_exc()
        x.want('b', x.stats_pre is not None)
    else:
        if x.stats_pre is None:
            if nm.startswith('shared'):
                x.no_exc()
                x.want_ptr(None)
            else:
                x.want_exc('NotMonitoring')
        else:
            x.no_exc()
            x.want_ptr(x.stats_pre)


def s_cb(x):
    x.no_exc()
    nm = x.op.name
    if nm == 'callbacks':
        for f, k in (('n', 'hit'), ('n2', 'miss'), ('n3', 'access')):
            x.want_num(f, x.I.H.seq_len(x.cb_pre[k]), k + ' callbacks')
        return
    if nm.startswith('clear_'):
        for p, k in (('hit', 'hit'), ('miss', 'miss'), ('acc', 'access')):
            if p in nm or 'all' in nm:
                x.cbwant[k] = None
    else:
        k = {'hit': 'hit', 'mis': 'miss', 'acc': 'access'}[nm[:3]]
        x.cbadd = k


# ----------------------------------------------------------------------------------------------- operations
op('insert', 'c kc vc o', s_insert, 'insert')
op('emplace_rr', 'c kr vr o', s_insert, 'insert', nocopy='key value')
op('emplace_ll', 'c k v o', s_insert, 'insert')
op('emplace_cc', 'c kc vc o', s_insert, 'insert')
op('emplace_xl', 'c x y o', s_insert, 'insert', nocopy='key value', fwd='ll')
op('emplace_xr', 'c xr yr o', s_insert, 'insert', nocopy='key value', fwd='rr')
op('emplace_lr', 'c k vr o', s_insert, 'insert', nocopy='value')
op('emplace_rl', 'c kr v o', s_insert, 'insert', nocopy='key')
op('emplace_pw', 'c x yr2 xr2 y2 o', s_insert, 'insert', nocopy='key value', pw=True)
op('insert_sk', 'c ks vc o', s_insert, 'insert', fn='insert')
op('insert_sv', 'c kc vs o', s_insert, 'insert', fn='insert')
op('insert_skv', 'c ks vs o', s_insert, 'insert', fn='insert')
op('emplace_skv', 'c ks vs o', s_insert, 'insert', fn='emplace_cc')
op('emplace_sv', 'c kc vs o', s_insert, 'insert', fn='emplace_cc')
op('find', 'c kc o', s_lookup, 'lookup', res='find', access=True)
op('find_const', 'c kc o', s_lookup, 'lookup', res='find', access=True)
op('contains', 'c kc o', s_lookup, 'lookup', res='contains', access=True)
op('lookup', 'c kc o', s_lookup, 'lookup', res='value', access=True)
op('lookup_const', 'c kc o', s_lookup, 'lookup', res='value', access=True)
op('index', 'c kc o', s_lookup, 'lookup', res='value', access=True)
op('index_const', 'c kc o', s_lookup, 'lookup', res='value', access=True)
op('erase', 'c kc o', s_erase, 'erase')
for nm in ('find', 'find_const', 'contains', 'lookup', 'index_const'):
    op(nm + '_sk', 'c ks o', s_lookup, 'lookup', res=OPS[nm].kw['res'], access=True, fn=nm)
op('erase_sk', 'c ks o', s_erase, 'erase', fn='erase')
op('clear', 'c o', s_clear, 'resize')
op('shrink', 'c n o', s_shrink, 'resize')
op('set_capacity', 'c n o', s_shrink, 'resize')
op('sizes', 'c o', s_sizes, 'sizes')
op('functors', 'c h e o', s_functors, 'functors')
op('front', 'c o', s_front, 'ends', timed=False)
op('back', 'c o', s_front, 'ends', timed=False)
op('all_expired', 'c o', s_all_expired, 'expiry', timed=True)
op('clear_expired', 'c o', s_clear_expired, 'expiry', timed=True, bag=True)
op('has_expired', 'c kc o', s_has_expired, 'expiry', timed=True)
for nm in ('monitor_l', 'monitor_r'):
    op(nm, 'c s o', s_monitor, 'monitor')
for nm in ('monitor_none', 'stop_monitoring', 'is_monitoring', 'stats', 'stats_const', 'shared_stats', 'shared_stats_const'):
    op(nm, 'c o', s_monitor, 'monitor')
op('monitor_key', 'c kc o', s_monitor, 'monitor')
for nm, t in (('hit_cb_f', 'fh'), ('hit_cb_l', 'gh'), ('hit_cb_r', 'gh'), ('miss_cb_f', 'fm'), ('miss_cb_l', 'gm'), ('acc_cb_f', 'fa'),
              ('acc_cb_l', 'ga')):
    op(nm, 'c %s o' % t, s_cb, 'callbacks')
for nm in ('clear_hit_cb', 'clear_miss_cb', 'clear_acc_cb', 'clear_all_cb', 'callbacks'):
    op(nm, 'c o', s_cb, 'callbacks')
