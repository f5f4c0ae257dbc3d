"""Runs the worlds a property needs and reports."""
import json
import os
import time
from props import *

FILES = {'c': 'cache', 't': 'timed', 's': 'stats', 'w': 'wrap', 'x': 'wrap'}


class Finding:
    def __init__(self, where, op, aspect, msg, tag, hist, trace, exc):
        self.where, self.op, self.aspect, self.msg, self.tag = where, op, aspect, msg, tag
        self.hist, self.trace, self.exc = hist, trace, exc

    def key(self):
        return '%s/%s/%s/%s' % (self.where, self.op, self.aspect, self.msg)


class Decider:
    def __init__(self, prop, tier, work, here, repo, export):
        self.prop, self.tier, self.work, self.here, self.repo = prop, tier, work, here, repo
        self.export = export
        self.found = []
        self.errors = {}
        self.cover = {}
        self.fns = set()
        self.notes = []
        self.jobs = []
        self.extra = {}
        self.answered = 0

    def run(self):
        fix.Fix.deadline = time.time() + (780 if self.tier == 'quick' else 3 * 3600)
        plan = PLAN.get(self.prop, [])
        progs = sorted(set(p for _, ps, _ in plan for p in ps))
        if progs:
            paths = self.export(self.work, sorted(set(FILES[p] for p in progs)))
            log = (lambda m: print('  ' + m, flush=True)) if os.environ.get('LRU_LOG') else None
            lab = Lab({p: (paths[FILES[p]], p) for p in progs}, procs=int(os.environ.get('LRU_PROCS', '8')), log=log)
            lab.tier = self.tier
            for world, ps, ops in plan:
                for p in ps:
                    self.job(lab, world, p, ops)
            lab.close()
        if self.prop in EXTRA:
            EXTRA[self.prop](self)

    def job(self, lab, world, p, ops):
        t0 = time.time()
        where = '%s:%s' % (world, p)
        del fix.Fix.made[:]
        try:
            fs = getattr(lab, world)(p, ops)
        except Unsupported as u:
            self.errors.setdefault(where, []).append(str(u))
            fs = list(fix.Fix.made)
        P = fix.W_[p][0].P
        if not isinstance(fs, list):
            fs = [fs]
        for F in fs:
            for (opn, a, m, tag), (hist, trace, exc) in F.fails.items():
                if self.prop in (getattr(F, 'props', None) or classify(opn, a, tag, m)):
                    self.found.append(Finding(where, opn, a, m, tag, hist, trace, exc))
            for o, l in F.errors.items():
                self.errors.setdefault('%s %s' % (where, o), []).extend('state %d: %s' % x for x in l)
            for o, (s, n) in F.cover.items():
                c = self.cover.setdefault('%s %s' % (where, o), [0, 0])
                c[0] += s
                c[1] += n
            for f in F.fns:
                fn = P.funcs[f]
                file = fn.file() if hasattr(fn, 'file') else ''
                self.fns.add(fn.q)
            self.jobs.append({'world': where, 'abstract states': len(F.order), 'rounds': F.rounds, 'wall_s': round(time.time() - t0, 1)})

    # ------------------------------------------------------------------ report
    def report(self, t0):
        prop = self.prop
        known = load_known(self.here)
        new, listed = [], []
        seen = set()
        for f in self.found:
            k = f.key()
            if k in seen:
                continue
            seen.add(k)
            (listed if k in known.get(prop, {}) else new).append(f)
        for f in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, f.key()))
        rc = 0
        if new:
            d = os.path.join(self.here, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, prop + '.txt')
            with open(path, 'w') as o:
                for f in new:
                    o.write('property %s, world %s, operation %s: %s\n' % (prop, f.where, f.op, f.msg))
                    o.write('  kind of deviation: %s %s\n' % (f.aspect, f.tag))
                    if f.hist:
                        o.write('  abstract state reached by: %s\n' % ' -> '.join(str(h) for h in f.hist))
                    if f.trace:
                        o.write('  path: %s\n' % '; '.join('%s = %s' % (a, b) if not isinstance(a, tuple) else str(a) for a, b in f.trace)[:1500])
                    if f.exc:
                        o.write('  exception: %s\n' % f.exc)
                    o.write('\n')
            for f in new[:12]:
                print('%s: in operation %s (%s): %s [after %s]' % (prop, f.op, f.where, f.msg, ' -> '.join(str(h) for h in f.hist)))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        for k, l in sorted(self.errors.items()):
            print('INCOMPLETE %s: not analysed: %s%s' % (k, l[0][:300], ' (and %d more)' % (len(l) - 1) if len(l) > 1 else ''))
        paths = sum(c[1] for c in self.cover.values())
        if rc == 0 and not paths and not self.answered:
            print('no verdict: nothing could be analysed')
            rc = 2
        ev = {'property': prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
              'coverage': {
                  'explanation': 'Abstract interpretation of the type-checked program (clang AST of the current headers, instantiated with opaque '
                                 'key, value, hash and equality types): fixpoint over all abstract cache states reachable by any sequence of the '
                                 'listed operations; each operation is executed abstractly on each abstract state with every kind of key, and the '
                                 'resulting keys, values, order, times and reports are compared with the specification of the operation.',
                  'abstract_paths': paths,
                  'obligations': sum(c[0] for c in self.cover.values()),
                  'operations': {k: {'abstract states': c[0], 'paths judged': c[1]} for k, c in sorted(self.cover.items())},
                  'worlds': self.jobs,
                  'library_functions_analysed': sorted(q for q in self.fns if q.startswith('LRU::')),
                  'not_analysed': {k: l[:3] for k, l in self.errors.items()},
                  **self.extra},
              'assumptions': ['sizes and capacities stay below 2^63', 'one point in time per operation', 'callbacks, hash and equality do not re-enter the cache',
                              'single thread', 'the standard library behaves as specified (libstdc++ for iterator stability under rehash)'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(self.here, 'evidence'), exist_ok=True)
        tmp = os.path.join(self.here, 'evidence', prop + '.json')
        with open(tmp, 'w') as o:
            json.dump(ev, o, indent=1)
        print('%s %s: %d operation/state pairs, %d abstract paths, %d deviations, %.1f s' % (
            prop, self.tier, sum(c[0] for c in self.cover.values()), paths, len(new), time.time() - t0))
        return rc


def load_known(here):
    out = {}
    try:
        for l in open(os.path.join(here, 'known-findings.txt')):
            if l.startswith('known: property='):
                p, k = l[len('known: property='):].rstrip('\n').split(' ', 1)
                out.setdefault(p, {})[k] = 1
    except OSError:
        pass
    return out


import compiles
EXTRA = {'C22': compiles.c22, 'C29': compiles.c29}
TECHX = {'C22': compiles.TECH22, 'C29': compiles.TECH29}
NOTEX = {'C22': compiles.NOTE22, 'C29': compiles.NOTE29}
