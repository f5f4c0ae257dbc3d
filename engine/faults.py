"""One failure (a copy, assignment or construction of a key or value, or an allocation) at every point of an insertion."""
from worlds import *


class FaultRun(Run):
    def call(self):
        I = self.I
        I.fault = [1]
        Run.call(self)
        hit = I.fault[0] == 0
        I.fault = None
        if not hit:
            raise Infeasible()

    def post_check(self, c):
        I = self.I
        what = ' (failure of the %s)' % [e for e in I.events if e[0] == 'fault'][0][1]
        if self.exc != 'Fault':
            self.fail('exc', 'the exception %s%s' % ('does not reach the caller' if not self.exc else 'is replaced by ' + self.exc, what))
        rehome(I, [Alpha(self.W, I, c).order])
        a = self.post = Alpha(self.W, I, c)
        bad = a.sync()
        for b in bad:
            self.fail('sync', b + what)
        if bad:
            self.stop = True
            return
        for m in a.main.ents:
            k, v, t = a.parts(m)
            if v is None or not v.alive:
                self.fail('value', 'a key without a value is stored' + what)
        r = self.observe('sizes', [c])
        n = I.H.map_len(a.main)
        if not eqz(I, sub(r['n2'], self.capwant)):
            self.fail('cap', 'the capacity changes' + what)
        if not eqz(I, sub(r['n'], n)):
            self.fail('sizes', 'size() differs from the number of stored keys' + what)
        if not I.S.poly.entails(sub(r['n2'], n)):
            self.fail('size', 'more keys are stored than the capacity allows' + what)


RUNNERS['fault'] = FaultRun


class After(Fix):
    """operations on states that a failure has left behind"""
    props = ('C30',)


def faults(self, wk, ops):
    F = self.seed(wk)
    core = ['insert', 'find', 'erase', 'clear', 'shrink']
    F.run(core)
    F.run(['contains', 'emplace_rr', 'emplace_ll', 'lookup'])
    G = After(wk, self.pool, self.log)
    tasks = [(s, o) for s in F.order for o in ops]
    for (s, o), r in zip(tasks, F.map([(wk, s.blob, s.shape, s.cons, o, 'fault', {}) for s, o in tasks])):
        G.record(s, o, r)
        for res in r[0]:
            if 'shape' in res:
                k = (res['shape'], res['kinds'])
                f = F.states.get(k)
                if f is not None and covers(f.cons, res['cons'], f.kinds):
                    continue
                G.add(res, s.hist + (o + '!',))
    G.run(core + ['contains', 'emplace_rr', 'emplace_ll', 'lookup'])
    for k in [k for k in G.fails if k in F.fails]:
        del G.fails[k]
    F.fails = {}
    return [F, G]


Lab.faults = faults
