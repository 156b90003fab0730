#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [quick|thorough]   |   check.py replay <file>

Builds harness/<ID>.cpp against /repo's current working tree in every build
configuration listed for the property, runs the generated-input search, and
writes evidence/<ID>.json.  Exit 0: held on everything explored; exit 1 and a
"VIOLATION property=<ID> replay=<path>" line: broken; exit 2: the check could
not be carried out.
"""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BITLIB_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
B = os.path.join(VERIF, 'build')
EV = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NCPU = min(8, os.cpu_count() or 8)

# alignment: the vendored libpopcnt.h reads its bytes through unaligned uint64_t on purpose (x86 only)
SAN = '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -fno-omit-frame-pointer'.split()
GSAN = SAN + ['-fno-sanitize=vptr,null']     # cheaper to compile; clang keeps them
HWY = ['-DBITLIB_HWY']
CFG = {
    # scalar
    'san':    ('g++',     ['-std=c++17'] + GSAN + ['-DPBT_STORE_VEC']),
    'san20':  ('clang++', ['-std=c++20'] + SAN),
    'opt':    ('g++',     ['-std=c++17', '-O3', '-march=native', '-DNDEBUG']),
    'opt20':  ('g++',     ['-std=c++20', '-O2', '-DNDEBUG', '-DPBT_STORE_VEC']),
    'sanraw': ('g++',     ['-std=c++17'] + GSAN),
    'sanvec': ('clang++', ['-std=c++20'] + SAN + ['-DPBT_STORE_VEC']),
    'clopt':  ('clang++', ['-std=c++20', '-O3', '-march=native', '-DNDEBUG']),
    'dbg':    ('g++',     ['-std=c++17'] + GSAN + ['-DPBT_STORE_VEC', '-D_GLIBCXX_DEBUG']),     # checked standard library iterators
    'tsan':   ('g++',     ['-std=c++17', '-O1', '-g1', '-fsanitize=thread']),
    'cltsan': ('clang++', ['-std=c++20', '-O1', '-g1', '-fsanitize=thread', '-march=native']),
    'wide':   ('g++',     ['-std=gnu++17'] + GSAN + ['-DPBT_WORDS_WIDE']),      # 128-bit words and unsigned long long
    'wideopt':('g++',     ['-std=gnu++20', '-O3', '-march=native', '-DPBT_WORDS_WIDE', '-DPBT_STORE_VEC']),
    # SIMD option on
    'hwytsan':('g++',     ['-std=c++17', '-O1', '-g1', '-march=haswell', '-maes', '-fsanitize=thread'] + HWY),
    'hwysse': ('g++',     ['-std=c++17', '-O2'] + HWY + ['-DPBT_STORE_VEC']),
    'hwyavx2':('g++',     ['-std=c++17', '-O2', '-march=haswell', '-maes', '-DNDEBUG'] + HWY),
    'hwynat': ('g++',     ['-std=c++17', '-O2', '-march=native', '-DNDEBUG'] + HWY),
    'hwysan': ('g++',     ['-std=c++17'] + GSAN + ['-march=haswell', '-maes'] + HWY),
    'hwysan20':('clang++',['-std=c++20'] + SAN + ['-march=haswell', '-maes'] + HWY),
    'hwyclnat':('clang++',['-std=c++20', '-O2', '-march=native'] + HWY),
    'hwysse20':('g++',    ['-std=c++20', '-O2'] + HWY),
}
# property -> (quick configs, thorough configs, extra flags, rule)
from props import PROPS    # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def cpu_ok(cfg):
    try:
        fl = re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split()
    except Exception:
        fl = []
    if 'haswell' in ' '.join(CFG[cfg][1]):
        return {'avx2', 'bmi2', 'fma', 'aes', 'f16c'} <= set(fl)
    return True


def build(pid, cfg, bdir, fuzz=False, src=None):
    cc, flags = CFG[cfg]
    out = os.path.join(bdir, '%s.%s%s' % (pid, cfg, '.fuzz' if fuzz else ''))
    src = src or os.path.join(H, pid + '.cpp')
    fl = list(flags) + PROPS[pid].get('flags', [])
    if fuzz:
        fl += ['-fsanitize=fuzzer', '-DPBT_FUZZER']
    cmd = [cc] + fl + ['-w', '-DPBT_PROP="%s"' % pid, '-DPBT_CFG="%s"' % cfg,
                       '-I' + os.path.join(REPO, 'include'), '-I' + H, src, '-o', out] + PROPS[pid].get('libs', [])
    r = sh(cmd)
    return (out if r.returncode == 0 else None), r.stdout


def probe(pid, cfg, bdir):
    p = os.path.join(bdir, 'probe.cpp')
    with open(p, 'w') as f:
        f.write('#include "bitlib/bitlib.hpp"\nint main(){return 0;}\n')
    cc, flags = CFG[cfg]
    return sh([cc] + flags + ['-w', '-I' + os.path.join(REPO, 'include'), p, '-fsyntax-only']).returncode == 0


def known_entries(pid):
    """known: property=<id> match=/<regex>/ <text>  -- 'fixed:' lines suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def finish_violation(pid, path, why):
    rep = os.path.join(EV, 'replay-%s.json' % pid)
    if path and os.path.exists(path):
        shutil.copyfile(path, rep)
    print(why)
    print('VIOLATION property=%s replay=%s' % (pid, rep))


def main():
    pid = sys.argv[1]
    if pid == 'replay':
        return replay(sys.argv[2])
    if pid == 'setup':
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    cfgs = [c for c in (P['quick'] if tier == 'quick' else P['thorough']) if cpu_ok(c)]
    t0 = time.time()
    bdir = os.path.join(B, '%s-%s' % (pid, tier))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(EV, exist_ok=True)
    budget = 600 if tier == 'quick' else 3600 * 3      # safety only; runs are bounded by case counts
    runlock = threading.Lock()
    res, viol, notes, fuzzinfo = [], [], [], []
    stop = threading.Event()

    def handle_fail(cfg, out):
        for l in out.splitlines():
            if l.startswith('FAIL\t'):
                viol.append((cfg, l.split('\t')[2], l))
                stop.set()

    def run_cfg(cfg):
        if stop.is_set():
            return
        exe, log = build(pid, cfg, bdir)
        if exe is None:
            ok = probe(pid, cfg, bdir)
            f = os.path.join(bdir, 'compile-%s.json' % cfg)
            json.dump({'property': pid, 'config': cfg, 'failure': 'the public API used by the check does not compile', 'log': log[:8000]}, open(f, 'w'))
            sys.stderr.write(log[:3000] + '\n')
            if ok:
                viol.append((cfg, f, 'FAIL\tcompile'))
            else:
                notes.append('COMPILE-ERROR %s: the library header itself does not compile' % cfg)
            stop.set()
            return
        with runlock:
            if stop.is_set():
                return
            outf = os.path.join(bdir, cfg + '.out')
            cap = max(30, min(P.get('cap', 150) if tier == 'quick' else 2400, budget - (time.time() - t0)))
            cmd = [exe, '--seed', str(seed), '--workers', str(P.get('workers', NCPU)), '--out', outf, '--rundir', bdir, '--cap', str(int(cap))]
            if tier != 'quick':
                cmd.append('--thorough')
            elif P.get('qscale'):
                cmd += ['--scale', str(P['qscale'])]
            env = dict(os.environ, MALLOC_PERTURB_='165')
            for attempt in range(3):
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env)
                sys.stderr.write(r.stderr)
                if r.returncode == 1:
                    handle_fail(cfg, r.stdout)
                    return
                if r.returncode == 0:
                    break
                if r.returncode != 4:
                    notes.append('HARNESS-ERROR %s exit %d' % (cfg, r.returncode))
                    stop.set()
                    return
            else:
                f = os.path.join(bdir, 'campaign-%s.json' % cfg)
                json.dump({'property': pid, 'config': cfg, 'failure': 'campaign fails on every run but not on single-case replay', 'cmd': cmd, 'stderr': r.stderr[-6000:]}, open(f, 'w'))
                viol.append((cfg, f, 'FAIL\tcampaign'))
                stop.set()
                return
            if attempt:
                notes.append('UNREPRODUCED failure in %s (%d earlier attempts)' % (cfg, attempt))
            res.append((cfg, outf))

    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(run_cfg, cfgs))

    if tier != 'quick' and not stop.is_set() and P.get('fuzz', True):
        fz = fuzz_stage(pid, bdir, seed, P.get('fuzz_runs', 400000))
        if fz.get('replay'):
            viol.append(('fuzz', fz['replay'], 'FAIL\tfuzz'))
        if fz.get('error'):
            notes.append(fz['error'])
        fuzzinfo.append(fz)

    # ---- known findings -------------------------------------------------
    real = []
    for cfg, path, line in viol:
        txt = open(path).read() if os.path.exists(path) else line
        k = next((t for rx, t in known_entries(pid) if rx.search(txt)), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        else:
            real.append((cfg, path, line))
    # ---- evidence --------------------------------------------------------
    ev = evaluate(pid, res)
    cov = {'evaluations': ev['evals'], 'distinct_nontrivial': ev['distinct'], 'nontrivial_total': ev['nt'], 'rule': P['rule'], 'samples': ev['samples'],
           'configurations': [c for c, _ in res], 'per_test': ev['tests'], 'classes': ev['labels'],
           'exhaustive_small_scope_tests': ev['enum'], 'complete': ev['complete'], 'notes': notes}
    if fuzzinfo:
        cov['coverage_guided'] = [{k: v for k, v in f.items() if k != 'replay'} for f in fuzzinfo]
        cov['evaluations'] += sum(f.get('execs', 0) for f in fuzzinfo)
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
               'assumptions': P.get('assumptions', []) + ['The reference model in harness/ states the property correctly.', 'Compilers, sanitizer runtimes and the C++ standard library are correct.'],
               'wall_s': round(time.time() - t0, 1), 'violations': len(real)}, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    rc = 0
    if real:
        cfg, path, line = real[0]
        txt = ''
        try:
            d = json.load(open(path))
            txt = '%s: %s [%s / %s] %s' % (d.get('failure'), d.get('message', ''), cfg, d.get('test', ''), d.get('case', '')[:600])
        except Exception:
            txt = line
        finish_violation(pid, path, txt)
        rc = 1
    elif any(n.startswith(('HARNESS-ERROR', 'COMPILE-ERROR')) for n in notes):
        print('\n'.join(notes))
        rc = 2
    else:
        print('OK property=%s tier=%s configs=%s cases=%d distinct-nontrivial=%d wall=%.1fs' % (pid, tier, ','.join(c for c, _ in res), cov['evaluations'], ev['distinct'], time.time() - t0))
        for n in notes:
            print('NOTE ' + n)
    shutil.rmtree(bdir, ignore_errors=True)
    return rc


def evaluate(pid, res):
    r = dict(evals=0, nt=0, distinct=0, samples=[], tests={}, labels={}, enum=[], complete=True)
    seen = set()
    for cfg, outf in res:
        for l in open(outf, errors='replace'):
            f = l.rstrip('\n').split('\t')
            if f[0] == 'T':
                key = cfg + '/' + f[1]
                t = r['tests'].setdefault(key, {'evaluations': 0, 'nontrivial': 0})
                t['evaluations'] += int(f[2]); t['nontrivial'] += int(f[3])
                r['evals'] += int(f[2]); r['nt'] += int(f[3])
                if f[4] == '1' and f[5] == '1' and key not in r['enum']:
                    r['enum'].append(key)
                if f[5] != '1':
                    r['complete'] = False
            elif f[0] == 'L':
                d = r['labels'].setdefault(f[1], {})
                d[f[2]] = d.get(f[2], 0) + int(f[3])
            elif f[0] == 'S':
                n = sum(1 for s in r['samples'] if s['test'] == f[1])
                if n < 3 and len(r['samples']) < 40:
                    try:
                        txt = json.loads('"' + f[2] + '"')
                    except Exception:
                        txt = f[2]
                    r['samples'].append({'config': cfg, 'test': f[1], 'case': txt[:1500]})
        hp = outf + '.h'
        if os.path.exists(hp):
            a = array.array('Q')
            with open(hp, 'rb') as fh:
                data = fh.read()
            a.frombytes(data[:len(data) // 8 * 8])
            if len(seen) < 12000000:
                seen.update(a)
    r['distinct'] = len(seen)
    return r


def fuzz_stage(pid, bdir, seed, runs):
    """Coverage-guided campaign (libFuzzer) over the same property functions; 8 independent jobs."""
    exe, log = build(pid, 'san20', bdir, fuzz=True)
    if exe is None:
        return {'engine': 'libFuzzer', 'error': 'fuzz build failed: ' + log[:500]}
    procs = []
    for j in range(NCPU):
        d = os.path.join(bdir, 'corpus%d' % j)
        os.makedirs(d)
        env = dict(os.environ, PBT_FUZZ_REPLAY=os.path.join(bdir, 'fuzz%d.json' % j), PBT_FUZZ_STATS=os.path.join(bdir, 'fuzz%d.stat' % j))
        lg = open(os.path.join(bdir, 'fuzz%d.log' % j), 'w')
        procs.append(subprocess.Popen([exe, d, '-seed=%d' % (seed * 100 + j + 1), '-runs=%d' % runs, '-max_len=%d' % (256 if j % 2 else 1024), '-max_total_time=900',
                                       '-artifact_prefix=' + bdir + '/fz%d-' % j, '-print_final_stats=0', '-verbosity=0', '-rss_limit_mb=3500', '-timeout=60'], stdout=lg, stderr=lg, env=env))
    info = {'engine': 'libFuzzer', 'jobs': NCPU, 'execs': 0, 'nontrivial': 0}
    bad = None
    for j, p in enumerate(procs):
        rc = p.wait()
        st = os.path.join(bdir, 'fuzz%d.stat' % j)
        if os.path.exists(st):
            try:
                a, b = open(st).read().split()
                info['execs'] += int(a); info['nontrivial'] += int(b)
            except ValueError:
                pass
        fj = os.path.join(bdir, 'fuzz%d.json' % j)
        if rc != 0 and os.path.exists(fj) and bad is None:
            bad = fj
    if bad:
        plain, _ = build(pid, 'san20', bdir)
        out = os.path.join(bdir, 'fuzz-replay.json')
        r = subprocess.run([plain, '--shrink', bad, '--out', out, '--rundir', bdir], stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            info['replay'] = out
        else:
            info['unreproduced'] = open(bad).read()[:2000]
    return info


def replay(path):
    d = json.load(open(path))
    pid, cfg = d['property'], d['config']
    if 'choices' not in d:
        print(json.dumps(d, indent=1)[:4000])
        print('not a single-case replay: rerun check.py %s' % pid)
        return 2
    bdir = os.path.join(B, 'replay')
    os.makedirs(bdir, exist_ok=True)
    exe, log = build(pid, cfg, bdir)
    if exe is None:
        print(log)
        return 2
    r = subprocess.run([exe, '--replay', path, '--rundir', bdir])
    return r.returncode


def setup():
    for t in ('g++', 'clang++'):
        if not shutil.which(t):
            print('missing ' + t)
            return 1
    os.makedirs(B, exist_ok=True)
    os.makedirs(EV, exist_ok=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
