"""Type-level witnesses: programs that have to compile (C29) and programs that must not (C22)."""
import concurrent.futures
import json
import os
import re
import subprocess

CXX = ['g++', 'clang++']
STD = ['14', '17']
# the built-in optional in C++17: every header it may include comes first, then the test for <optional> is switched off
CONFIGS = [('standard', '14', ''), ('standard', '17', ''), ('builtin', '17', '#include <bits/stdc++.h>\n#undef __has_include\n')]


def run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')


def first_error(out, repo):
    lines = out.split('\n')
    err = next((l for l in lines if re.search(r'\berror\b', l)), None) or next((l for l in lines if 'undefined' in l or 'multiple' in l), out[:200])
    inc = os.path.join(repo, 'include')
    at = next((l for l in lines if inc in l and re.search(r':\d+:', l)), '')
    at = re.search(re.escape(inc) + r'/([^:]+:\d+)', at)
    return err.replace(inc + '/', '').strip()[:300], at.group(1) if at else ''


def pool(jobs, f):
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('LRU_PROCS', '8'))) as ex:
        return list(ex.map(f, jobs))


# ------------------------------------------------------------------------------------------------------------ C29
def c29(d):
    from decide import Finding
    inc = os.path.join(d.repo, 'include')
    work, comp = d.work, os.path.join(d.here, 'compile')
    heads = []
    for base, _, fs in os.walk(os.path.join(inc, 'lru')):
        for f in sorted(fs):
            if f.endswith(('.hpp', '.h')):
                h = os.path.relpath(os.path.join(base, f), inc)
                if 'internal' not in h.split(os.sep):
                    heads.append(h)
    jobs = []
    for tag, std, pre in CONFIGS:
        open(os.path.join(work, 'pre_%s.h' % tag), 'w').write(pre)
    for tag, std, pre in CONFIGS:
        p = os.path.join(work, 'pre_%s.h' % tag)
        for cxx in CXX:
            for f in ('minimal', 'full'):
                jobs.append(('every member, %s types' % f, cxx, std, tag, ['-include', p, '-I' + comp, '-fsyntax-only', os.path.join(comp, f + '.cpp'), '-DPRELUDE="%s"' % p]))
    for h in heads:
        n = os.path.join(work, 'h_' + re.sub(r'\W', '_', h) + '.cpp')
        open(n, 'w').write('#include <%s>\nint main() {}\n' % h)
        for cxx in CXX:
            for std in STD:
                jobs.append(('header %s alone' % h, cxx, std, 'standard', ['-fsyntax-only', n]))
    two = os.path.join(work, 'obj.cpp')
    open(two, 'w').write('#include <lru/lru.hpp>\n')
    for cxx in CXX:
        jobs.append(('no strong definitions in headers', cxx, '17', 'standard', ['-c', two, '-o', os.path.join(work, cxx + '.o')]))
        jobs.append(('no strong definitions in headers', cxx, '14', 'standard', ['-c', two, '-o', os.path.join(work, cxx + '14.o')]))

    def one(j):
        what, cxx, std, tag, args = j
        rc, out = run([cxx, '-std=c++' + std, '-w', '-I' + inc] + args)
        strong = ''
        if rc == 0 and '-o' in args:
            _, nm = run(['nm', '-C', args[-1]])
            strong = '; '.join(l for l in nm.split('\n') if re.search(r'^[0-9a-f]+ [TDBRS] ', l))
        return rc, out, strong
    for j, (rc, out, strong) in zip(jobs, pool(jobs, one)):
        what, cxx, std, tag, args = j
        op = '%s, %s, C++%s, %s optional' % (what, cxx, std, tag if std != '14' else 'builtin')
        if rc != 0:
            err, at = first_error(out, d.repo)
            d.found.append(Finding('compile', what, 'does not compile', 'does not compile%s: %s' % (' at ' + at if at else '', err), cxx, [op], [], None))
        if strong:
            d.found.append(Finding('compile', what, 'defined twice', 'including the headers in two files defines twice: ' + strong[:300], cxx, [op], [], None))
    d.answered = len(jobs)
    d.extra['obligations'] = len(jobs)
    d.extra['programs'] = sorted(set('%s (%s, C++%s, %s optional)' % (j[0], j[1], j[2], j[3] if j[2] != '14' else 'builtin') for j in jobs))
    d.extra['explanation'] = ('Type-level witnesses: explicit instantiation of every public class and programs that use every member function, member template, iterator '
                              'operation, conversion and comparison; each is type-checked against the current headers by both compilers in every language and optional '
                              'configuration. A program that is rejected is a violation; the rejected construct is the first error inside the headers.')
    d.extra['rule'] = 'every witness program is well-formed; no header defines a strong symbol'


# ------------------------------------------------------------------------------------------------------------ C22
HEAD = '''#include <lru/lru.hpp>
#include <string>
#include <vector>
struct K { int i; };
inline bool operator==(const K& a, const K& b) { return a.i == b.i; }
namespace std { template <> struct hash<K> { size_t operator()(const K& k) const { return k.i; } }; }
struct V { int i; };
inline bool operator==(const V& a, const V& b) { return a.i == b.i; }
using BC = LRU::Cache<K, V>;
using TC = LRU::TimedCache<K, V>;
template <class T> using Plain = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template <class T> T& lv();
'''
BODY = '''using UI = C::UnorderedIterator; using UC = C::UnorderedConstIterator; using OI = C::OrderedIterator; using OC = C::OrderedConstIterator;
using ME = Plain<decltype(*lv<UI>())>; using CE = Plain<decltype(*lv<UC>())>;
void witness(C& c, const C& kc, K k, V v, UI ui, UC uc, OI oi, OC oc, const UC kuc, const OC koc) { %s; }
'''
ITS_C = ['kc.find(k)', 'kc.begin()', 'kc.end()', 'c.cbegin()', 'c.cend()', 'kc.cbegin()', 'kc.unordered_begin()', 'kc.unordered_end()', 'kc.ordered_begin()', 'kc.ordered_end()',
         'c.unordered_cbegin()', 'c.ordered_cbegin()', 'uc', 'oc', 'UC(ui)', 'OC(oi)', 'OC(ui)', 'OC(uc)']
ITS_M = ['c.find(k)', 'c.begin()', 'c.ordered_begin()', 'ui', 'oi', 'c.insert(k, v).iterator()']
LVAL = ['{ auto it = %s; it.value() = v; }', '{ auto it = %s; it->value() = v; }', '{ auto it = %s; (*it).value() = v; }', '{ auto it = %s; it->second = v; }',
        '{ auto it = %s; it.entry().value() = v; }', '{ auto it = %s; it.entry().second = v; }']
LKEY = [x.replace('.value() = v', '.key() = k').replace('->value() = v', '->key() = k').replace('second = v', 'first = k') for x in LVAL]


def must_fail():
    """(what, code that must not compile, code that must (the same through a mutable path), or None)"""
    out = []

    def bad(what, code, good=None):
        out.append((what, code, good))
    for it in ITS_C:
        for l in LVAL:
            bad('the value behind a const iterator is not assignable', l % it, l % 'ui')
    for it in ITS_C + ITS_M:
        for l in LKEY:
            bad('a key behind an iterator is not assignable', l % it, '{ auto it = %s; (void)it.key(); }' % it)
    bad('lookup in a const cache gives no mutable value', 'kc.lookup(k) = v', 'c.lookup(k) = v')
    bad('operator[] of a const cache gives no mutable value', 'kc[k] = v', 'c[k] = v')
    bad('lookup in a const cache gives no mutable value', 'V& r = kc.lookup(k)', 'const V& r = kc.lookup(k)')
    bad('operator[] of a const cache gives no mutable value', 'V* r = &kc[k]', 'const V* r = &kc[k]')
    bad('iterating over a const cache gives no mutable value', 'for (auto& e : kc) e.value() = v', 'for (auto& e : c) e.value() = v')
    bad('iterating over a const cache gives no mutable value', 'for (auto& e : kc) e.second = v', 'for (auto& e : c) e.second = v')
    bad('iterating gives no mutable key', 'for (auto& e : c) e.first = k', 'for (auto& e : c) (void)e.first')
    for m in ('front', 'back'):
        bad('%s gives no mutable key' % m, 'c.%s() = k' % m if m else '', None)
        bad('%s gives no mutable key' % m, 'K& r = c.%s()' % m, None)
    # operations that modify are not available through a const cache
    for call in ('insert(k, v)', 'emplace(k, v)', 'erase(k)', 'erase(uc)', 'erase(oc)', 'clear()', 'shrink(1)', 'capacity(1)', 'swap(c)', 'operator=(c)', 'monitor()', 'monitor(k)',
                 'stop_monitoring()', 'clear_all_callbacks()', 'insert(std::vector<std::pair<K, V>>())'):
        bad('modifying operations need a mutable cache', 'kc.' + call, 'c.' + call)
    for cb in ('hit_callback([](const K&, const V&) {})', 'miss_callback([](const K&) {})', 'access_callback([](const K&, bool) {})'):
        bad('modifying operations need a mutable cache', 'kc.' + cb, 'c.' + cb)
    # conversions of const iterators, entries and caches to mutable ones
    src = {'UC': ['UI', 'OI'], 'OC': ['OI'], 'const UC': ['UI', 'OI'], 'const OC': ['OI']}
    var = {'UC': 'uc', 'OC': 'oc', 'const UC': 'kuc', 'const OC': 'koc'}
    for s, ds in src.items():
        for t in ds:
            x = var[s]
            g = x.replace('uc', 'ui').replace('oc', 'oi').lstrip('k')
            good = '%s r(%s)' % (t, g)
            for code in ('%s r(%s)' % (t, x), '%s r = %s' % (t, x), '%s r{%s}' % (t, x), '%s r(std::move(%s))' % (t, x), '(void)static_cast<%s>(%s)' % (t, x)):
                bad('a const iterator does not become a mutable one', code, good)
            if t[0] == s[-2]:
                bad('a const iterator does not become a mutable one', '%s = %s' % (g, x), '%s = %s' % (g, g))
                bad('a const iterator does not become a mutable one', '%s = std::move(%s)' % (g, x), '%s = %s' % (g, g))
                bad('a const iterator does not become a mutable one', '%s.swap(%s)' % (g, x), '%s.swap(%s)' % (g, g))
    for e in ('kc.find(k)', 'kc.begin()', 'kc.cbegin()', 'kc.end()', 'kc.cend()', 'c.cbegin()'):
        bad('a const cache gives no mutable iterator', 'UI r = ' + e, 'UI r = c.begin()')
        bad('a const cache gives no mutable iterator', 'OI r(%s)' % e, 'OI r(c.begin())')
    for e in ('kc.ordered_begin()', 'kc.ordered_cbegin()', 'kc.ordered_end()', 'c.ordered_cbegin()'):
        bad('a const cache gives no mutable iterator', 'OI r(%s)' % e, 'OI r(c.ordered_begin())')
    for e in ('*uc', '*oc', 'uc.entry()', 'oc.entry()'):
        g = e.replace('uc', 'ui').replace('oc', 'oi')
        for code in ('ME r(%s)', 'ME r = %s', 'ME& r = %s', 'ME r = static_cast<ME>(%s)', 'LRU::Entry<K, V> r(%s)', 'std::pair<const K&, V&> r = %s', 'V& r = (%s).value()',
                     'V& r = (%s).second'):
            bad('a const entry does not become a mutable one', code % e, None if 'LRU::Entry<K' in code else code % g)
        for code in ('K& r = (%s).key()', 'K& r = (%s).first', 'std::pair<K&, const V&> r = %s'):
            bad('no entry gives a mutable key', code % e, code.replace('K&', 'const K&', 1) % e)
    for e in ('*ui', '*oi', 'ui.entry()', 'oi.entry()', 'c.insert(k, v)'):
        for code in ('K& r = (%s).key()', 'K& r = (%s).first', 'std::pair<K&, V&> r = %s'):
            bad('no entry gives a mutable key', code % e, None)
    for e in ('ui', 'oi', 'uc', 'oc', 'c.begin()', 'c.ordered_begin()'):
        bad('no iterator gives a mutable key', '{ auto it = %s; K& r = it.key(); }' % e, '{ auto it = %s; const K& r = it.key(); }' % e)
        bad('no iterator gives a mutable key', '{ auto it = %s; K* r = &it->key(); }' % e, '{ auto it = %s; const K* r = &it->key(); }' % e)
    bad('callbacks are not given mutable keys', 'c.hit_callback([](K&, const V&) {})', 'c.hit_callback([](const K&, const V&) {})')
    bad('callbacks are not given mutable keys', 'c.miss_callback([](K&) {})', 'c.miss_callback([](const K&) {})')
    bad('callbacks are not given mutable keys', 'c.access_callback([](K&, bool) {})', 'c.access_callback([](const K&, bool) {})')
    bad('callbacks are not given mutable values', 'c.hit_callback([](const K&, V&) {})', 'c.hit_callback([](const K&, const V&) {})')
    bad('registered callbacks of a const cache are not modifiable', 'kc.hit_callbacks().clear()', None)
    return out


def c22(d):
    from decide import Finding
    work = d.work
    inc = os.path.join(d.repo, 'include')
    open(os.path.join(work, 'head.hpp'), 'w').write(HEAD)
    cmd = ['clang++', '-std=c++17', '-w', '-I' + inc]
    rc, out = run(cmd + ['-x', 'c++-header', os.path.join(work, 'head.hpp'), '-o', os.path.join(work, 'head.hpp.pch')])
    if rc != 0:
        d.errors['witnesses'] = ['the headers do not compile: ' + first_error(out, d.repo)[0]]
        return
    tasks, index = [], {}
    for cache in ('BC', 'TC'):
        for what, bad, good in must_fail():
            if 'front' in what and cache == 'TC' or 'back' in what and cache == 'TC':
                continue
            for code in (bad, good):
                if code is not None and (cache, code) not in index:
                    index[(cache, code)] = len(tasks)
                    tasks.append((cache, code))

    def one(i):
        cache, code = tasks[i]
        n = os.path.join(work, 'w%d.cpp' % i)
        open(n, 'w').write('using C = %s;\n' % cache + BODY % code)
        rc, out = run(cmd + ['-include-pch', os.path.join(work, 'head.hpp.pch'), '-ferror-limit=1', '-fsyntax-only', n])
        return rc, out
    res = pool(range(len(tasks)), one)
    n = 0
    for cache in ('BC', 'TC'):
        for what, bad, good in must_fail():
            if (cache, bad) not in index:
                continue
            rc, out = res[index[(cache, bad)]]
            cname = 'Cache' if cache == 'BC' else 'TimedCache'
            n += 1
            if rc == 0:
                d.found.append(Finding('witness', what, 'compiles', 'for a %s this compiles: %s' % (cname, bad), cname, ['any history'], [], None))
            if good is not None and res[index[(cache, good)]][0] != 0:
                d.errors.setdefault('witness %s' % what, []).append('the permitted form does not compile for %s: %s' % (cname, good))
    d.answered = n
    # ---- every public member of the classes, whatever its name
    paths = d.export(work, ['cache', 'timed'])
    members = 0
    for f in ('cache', 'timed'):
        doc = json.load(open(paths[f]))
        members += api(d, doc, Finding)
    d.extra.update({'obligations': n + members, 'compile-fail witnesses': n, 'public members enumerated': members,
                    'rule': 'no witness compiles; no public member gives a mutable reference or pointer to a key, nor - in a const function of a cache or in any function of a const '
                            'iterator or entry - to a value, nor a mutable iterator or entry',
                    'explanation': 'Type-level witnesses: programs that would modify a key, or a value through const access, each of which clang must reject (next to each one the '
                                   'permitted form, which must be accepted), and an enumeration of all public members of the instantiated classes with their canonical types.'})


def api(d, doc, Finding):
    recs = {}
    for r in doc['api']:
        recs.setdefault(r['s'], r)
    files = doc['files']

    def up(s, seen):
        if s in seen or s not in recs:
            return seen
        seen.add(s)
        for b in recs[s]['bases']:
            up(b, seen)
        return seen
    caches = [s for s in recs if re.match(r'LRU::(Timed)?Cache<', s)]
    its_m, its_c, cache_all = set(), set(), set()
    for s in recs:
        if s.endswith('::UnorderedIterator') or s.endswith('::OrderedIterator'):
            up(s, its_m)
        if s.endswith('::UnorderedConstIterator') or s.endswith('::OrderedConstIterator'):
            up(s, its_c)
    for s in caches:
        up(s, cache_all)
    std = {s for s in its_m & its_c}
    ent_m = [s for s in recs if re.match(r'LRU::Entry<(const )?vf::K, vf::V>$', s)]
    ent_c = [s for s in recs if re.match(r'LRU::Entry<(const )?vf::K, const vf::V>$', s)]
    kind = {}
    for s in cache_all:
        kind[s] = 'cache'
    for s in (its_m - std) | set(ent_m):
        kind[s] = 'mutable'
    for s in its_c | set(ent_c):
        kind[s] = 'const'
    for s in recs:
        if s.startswith('LRU::InsertionResult<') or s.startswith('LRU::Statistics<'):
            kind[s] = 'mutable'
    key = re.compile(r'(?<!const )\bvf::K( \*|\s?&)|reference_wrapper<vf::K>')
    val = re.compile(r'(?<!const )\bvf::V( \*|\s?&)|reference_wrapper<vf::V>|(?<!const )\b(LRU::Internal::(Timed)?Information<[^>]*>|std::pair<const vf::K, LRU::Internal::(Timed)?Information<[^>]*>>)( \*|\s?&)')
    n = 0
    for s, k in sorted(kind.items()):
        for m in recs[s]['m']:
            if m['k'] not in ('method', 'field'):
                continue
            t = m['t']
            n += 1
            where = '%s:%s' % (files[m['l'][0]].split('/include/')[-1], m['l'][1]) if 'l' in m else ''
            own = {s}
            if m['n'] in ('operator=', 'operator++', 'operator--'):
                continue        # gives the object itself
            bad = None
            if key.search(t):
                bad = 'a mutable key'
            elif k == 'const' or k == 'cache' and m['const']:
                plain = re.sub(r'^const ', '', re.sub(r'[ &*]+$', '', t))
                if val.search(t):
                    bad = 'a mutable value'
                elif plain in its_m and plain not in std and plain not in its_c or plain in ent_m:
                    bad = 'a mutable iterator or entry'
                elif '_Node_iterator<' in t and k == 'cache':
                    bad = 'a mutable iterator into the index'
            if bad:
                short = re.sub(r'LRU::Internal::BaseCache<.*?BasicCache>|LRU::Internal::BaseCache<.*?TimedCache>', 'BaseCache', t)
                d.found.append(Finding('members', m['n'], 'leaks', '%s of %s (%s) gives %s: %s' % (m['n'], s.split('<')[0], where, bad, short[:120]), k, ['any history'], [], None))
    return n


TECH22 = 'static analysis: compile-fail witnesses (each offending program must be rejected by the type checker) and enumeration of the canonical types of all public members'
NOTE22 = 'Type checking decides each witness for all runs of that program; programs outside the witness families are covered only by the enumeration of member types.'
TECH29 = 'static analysis: type-level witnesses (every member instantiated and used) checked by both compilers in each configuration; symbol tables searched for strong definitions'
NOTE29 = 'Exact for the listed programs and configurations; trusts g++ 13 and clang 18 as the language definition.'
