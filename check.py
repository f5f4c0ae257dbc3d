#!/usr/bin/env python3
"""Decides one property from the current source of /repo.  usage: check.py Cxx [--thorough]"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('LRU_REPO', '/repo')


class NoProgram(Exception):
    pass


def export(work, names):
    """the type-checked programs of the drivers over the current headers"""
    ps = []
    for n in names:
        out = os.path.join(work, n + '.json')
        cmd = [os.path.join(HERE, 'build', 'lru-export'), out, os.path.join(HERE, 'driver', n + '.cpp'), '--', '-std=c++17',
               '-I' + os.path.join(HERE, 'driver'), '-I' + os.path.join(REPO, 'include')]
        ps.append((n, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    res = {}
    for n, out, p in ps:
        o, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            raise NoProgram('the program %s does not compile over the current headers: %s' % (
                n, next((l for l in o.decode(errors='replace').split('\n') if 'error' in l), '')))
        res[n] = out
    return res


def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    t0 = time.time()
    import tempfile
    import shutil
    work = tempfile.mkdtemp(prefix='lru-check-')
    try:
        import decide
        d = decide.Decider(prop, tier, work, HERE, REPO, export)
        try:
            d.run()
        except NoProgram as e:
            d.errors['program'] = [str(e)]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    rc = d.report(t0)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
