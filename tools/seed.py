#!/usr/bin/env python3
"""Planted bugs: writes seeded/<id>/ from tools/seeds/*.py and confirms them in scratch copies.

  seed.py make [ID...]      write patch.diff, demo.sh, demo.cpp, meta.json
  seed.py demo [ID...]      demo on the clean and the patched tree
  seed.py tests [ID...]     build + stable tests with the patch (in a private mount of a copy over /repo)
  seed.py check [ID...]     run the property's quick check on a patched copy (BITLIB_REPO)
Results are kept in /tmp/sd/results.json.
"""
import glob, importlib.util, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = '/tmp/sd'
RES = SD + '/results.json'
DEMO = '''#!/bin/bash
# exit 0: the property holds for this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/demo" "$t/demo.o"; rmdir "$t"' EXIT
%s %s -w -I"$PWD/include" "$d/demo.cpp" -o "$t/demo"%s || exit 3
%s
timeout 200 "$t/demo"
'''
PRE = '''#include "bitlib/bitlib.hpp"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <sstream>
#include <algorithm>
#define REQ(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
template <class W> bool get(const W* p, size_t i) { constexpr size_t D = sizeof(W) * 8; return (p[i / D] >> (i % D)) & 1; }
template <class W> bool get(const std::vector<W>& v, size_t i) { return get(v.data(), i); }
template <class W> bit::bit_iterator<W*> at(std::vector<W>& v, size_t i) { constexpr size_t D = sizeof(W) * 8; return bit::bit_iterator<W*>(v.data() + i / D, i % D); }
template <class W> std::vector<W> rnd(size_t n, uint64_t s = 1) { std::vector<W> v(n); for (auto& x : v) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; x = (W)(z ^ (z >> 31)); } return v; }
'''


def load():
    out = {}
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s['id'] not in out, s['id']
            out[s['id']] = s
    return out


def res(update=None):
    os.makedirs(SD, exist_ok=True)
    r = json.load(open(RES)) if os.path.exists(RES) else {}
    if update:
        for k, v in update.items():
            r.setdefault(k, {}).update(v)
        json.dump(r, open(RES, 'w'), indent=1, sort_keys=True)
    return r


def make(s):
    d = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(d, exist_ok=True)
    w = SD + '/mk'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in s['edits']:
        p = w + '/include/bitlib/' + f
        t = open(p).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(d + '/patch.diff', 'w').write(diff)
    # every removed line must come from the original repository
    for l in subprocess.check_output(['git', '-C', w, 'diff', '-U0'], text=True).splitlines():
        pass
    open(d + '/demo.cpp', 'w').write(PRE + s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('cc', 'g++'), s.get('flags', '-std=c++17 -O1 -g'), s.get('libs', ''), s.get('pre', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    orig(s, diff)


def orig(s, diff):
    """warn when a changed line was added by a later commit"""
    base = {}
    cur = None
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            base[cur] = subprocess.check_output(['git', '-C', '/repo', 'show', 'fed426d:' + cur], text=True).splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base[cur]:
            print('%s: NOT ORIGINAL: %s' % (s['id'], l))


def copy(s, build=False):
    w = '%s/%s-%s/repo' % (SD, sys.argv[1], s['id'])
    drop(s)
    os.makedirs(os.path.dirname(w))
    if build:
        subprocess.check_call(['cp', '-a', '/repo', w])
    else:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'apply', '%s/seeded/%s/patch.diff' % (V, s['id'])])
    return w


def drop(s):
    shutil.rmtree('%s/%s-%s' % (SD, sys.argv[1], s['id']), ignore_errors=True)


def demo(s):
    d = '%s/seeded/%s/demo.sh' % (V, s['id'])
    w = copy(s)
    c = subprocess.run(['bash', d], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = subprocess.run(['bash', d], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    drop(s)
    ok = c.returncode == 0 and p.returncode not in (0, 3)
    print(s['id'], 'demo', 'OK' if ok else 'BAD clean=%d patched=%d' % (c.returncode, p.returncode), (c.stdout if c.returncode else p.stdout)[-300:].replace('\n', ' | '), flush=True)
    res({s['id']: {'demo': ok}})


def tests(s):
    w = copy(s, True)
    o = os.path.dirname(w) + '/out.json'
    subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s' % (w, o)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        got = set(json.load(open(o))['passed'])
    except Exception:
        got = set()
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    miss = sorted(st - got)
    print(s['id'], 'tests', 'OK' if not miss else 'FAIL %d: %s' % (len(miss), miss[:4]), flush=True)
    res({s['id']: {'tests': len(miss)}})
    drop(s)


def check(s, pids=None):
    w = copy(s)
    for pid in pids or [s['property']]:
        r = subprocess.run([sys.executable, V + '/check.py', pid, 'quick'], cwd=V, env=dict(os.environ, BITLIB_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        hit = r.returncode == 1 and ('VIOLATION property=%s ' % pid) in r.stdout
        print(s['id'], 'check', pid, 'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode, r.stdout.strip()[:400].replace('\n', ' | '), flush=True)
        res({s['id']: {'check:' + pid: hit}})
    drop(s)


if __name__ == '__main__':
    S = load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    pids = None
    if '--prop' in ids:
        k = ids.index('--prop'); pids = ids[k + 1:]; ids = ids[:k]
    for i in ids or list(S):
        if cmd == 'check':
            check(S[i], pids)
        else:
            {'make': make, 'demo': demo, 'tests': tests}[cmd](S[i])
