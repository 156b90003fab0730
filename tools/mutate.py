#!/usr/bin/env python3
"""Mutation survey of the checks: mechanical one-token changes of the library's headers, in scratch copies.
   mutate.py FILE-SUBSTRING [--sample N] [--seed S] [--jobs J] [--full]
Each mutant is compiled with the harnesses of the properties its file anchors, and run with a fraction of the
quick tier's cases until one of them fails.  Survivors are printed: they are equivalent, outside the
specification, or a gap.  Nothing here is used by the checks."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
sys.argv, argv = ['x'], sys.argv
import check
INC = '/repo/include/bitlib'
MAP = {'copy.hpp': ['C01', 'C36'], 'move.hpp': ['C01', 'C36'], 'copy_backward.hpp': ['C02', 'C14'], 'count.hpp': ['C04', 'C14'], 'equal.hpp': ['C06', 'C30'], 'fill.hpp': ['C03', 'C30'], 'find.hpp': ['C05', 'C30'],
       'reverse.hpp': ['C07', 'C14'], 'rotate.hpp': ['C08', 'C33'], 'shift.hpp': ['C09', 'C10', 'C14'], 'swap_ranges.hpp': ['C11', 'C14', 'C36'], 'transform.hpp': ['C12', 'C13'],
       'linear_overload.hpp': ['C41'], 'bit_algorithm_details.hpp': ['C40', 'C01', 'C03', 'C08', 'C11', 'C09', 'C10', 'C07'], 'bit_vector.hpp': ['C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C28', 'C31', 'C35'],
       'bit_iterator.hpp': ['C16', 'C29'], 'bit_pointer.hpp': ['C17', 'C29'], 'bit_reference.hpp': ['C18', 'C20', 'C17'], 'bit_value.hpp': ['C19', 'C20', 'C18'],
       'bit_details.hpp': ['C39', 'C01', 'C04', 'C07', 'C11', 'C05', 'C10', 'C15', 'C19'], 'libpopcnt.h': ['C04'], 'type_traits.hpp': ['C01', 'C06'], 'bit_algorithm.hpp': ['C01']}
OPS = [(r'(?<=[\w\)\]]) \+ (?=[\w\(\*])', ' - '), (r'(?<=[\w\)\]]) - (?=[\w\(\*])', ' + '), (r' < (?=[\w\(])', ' <= '), (r' <= ', ' < '), (r' > (?=[\w\(])', ' >= '), (r' >= ', ' > '),
       (r' == ', ' != '), (r' != ', ' == '), (r' << ', ' >> '), (r' >> ', ' << '), (r' & (?=[\w\(\*])', ' | '), (r' \| ', ' & '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \^ ', ' | '),
       (r'\+\+(?=\w)', '--'), (r'--(?=\w)', '++'), (r'(?<=\w)\+\+', '--'), (r'(?<=\w)--', '++'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' % ', ' / '), (r' / ', ' % '), (r' \|= ', ' &= '), (r' &= ', ' |= '), (r' \^= ', ' |= '), (r' >>= ', ' <<= '),
       (r' - 1\b', ''), (r' \+ 1\b', ''), (r'(?<=[ (,])0(?=[,;)])', '1'), (r'(?<=[ (,])1(?=[,;)])', '2'), (r'~(?=[\w\(_])', ''), (r'!(?=\w)', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bbit0\b', 'bit1'), (r'\bbit1\b', 'bit0'),
       (r'(?<!constexpr )\bif \((.*)\) ?\{?$', None), (r'\bstd::min\b', 'std::max'), (r'\bset\(\)', 'reset()'), (r'\breset\(\)', 'set()'), (r'\bis_first_aligned\b', 'true'), (r'\bis_last_aligned\b', 'false')]


def mutants(path):
    src = open(path).read().split('\n'); hwy = False; out = []; block = False; intmpl = 0
    for i, l in enumerate(src):
        s = l.strip()
        if '#ifdef BITLIB_HWY' in s: hwy = True
        if s.startswith('#endif') or s.startswith('#else'): hwy = False
        if s.startswith('/*'): block = True
        if block:
            if '*/' in s: block = False
            continue
        if not s or s.startswith(('//', '#', 'template', 'static_assert', 'assert', 'using ', 'typename', 'class ', 'friend', 'namespace', 'typedef')) or '_assert_range' in s or 'operator' in s and s.endswith('(') or 'enable_if' in s or 'decltype' in s: continue
        code = l.split('//')[0]
        for rx, rep in OPS:
            if 'template' in code or '= typename' in code: continue
            for m in re.finditer(rx, code):
                if rep is None:
                    new = code[:m.start(1)] + '!(' + m.group(1) + ')' + code[m.end(1):]
                else:
                    new = code[:m.start()] + rep + code[m.end():]
                if new != code: out.append((i, new, hwy))
        if re.match(r'^\s+[\w\.\*\(\)\[\]>-]+(\s*([+\-|&^]|<<|>>)?=\s|\+\+;|--;|\().*;\s*$', code) and not re.match(r'^\s+(const|constexpr|auto|return|throw|size_type|difference_type|word_type|bit_iterator|static|bool|int)\b', code) and code.count('(') == code.count(')'):
            out.append((i, re.match(r'^\s*', code).group(0) + ';', hwy))
    return src, out


def run(job):
    n, path, src, (i, new, hwy), props, base, scale = job
    d = os.path.join(base, 'm%d' % n); inc = os.path.join(d, 'include', 'bitlib')
    shutil.copytree(INC, inc); rel = os.path.relpath(path, INC); s = list(src); s[i] = new
    open(os.path.join(inc, rel), 'w').write('\n'.join(s))
    res = 'SURVIVED'
    try:
        for p in props:
            cfgs = (['hwyavx2', 'hwysan'] if hwy else ['opt', 'san20'])
            for cfg in cfgs:
                cc, fl = check.CFG[cfg]; exe = os.path.join(d, p + cfg)
                fl = [f for f in fl if f not in ('-O3',)] + check.PROPS[p].get('flags', [])
                r = subprocess.run([cc] + fl + ['-O1', '-w', '-DPBT_PROP="%s"' % p, '-DPBT_CFG="m"', '-I' + os.path.join(d, 'include'), '-I' + os.path.join(V, 'harness'), os.path.join(V, 'harness', p + '.cpp'), '-o', exe] + check.PROPS[p].get('libs', []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode: return n, 'NOCOMPILE'
                try:
                    r = subprocess.run([exe, '--seed', '1', '--workers', '1', '--out', exe + '.out', '--rundir', d, '--cap', '60', '--scale', str(scale)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                except subprocess.TimeoutExpired:
                    return n, 'KILLED(timeout) ' + p
                if r.returncode: return n, 'KILLED %s %s' % (p, cfg)
                if scale >= 1 and False: pass
        return n, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argv[1:]
    def opt(k, d): return a[a.index(k) + 1] if k in a else d
    want, sample, seed, jobs, scale = a[0], int(opt('--sample', '0')), int(opt('--seed', '1')), int(opt('--jobs', '6')), float(opt('--scale', '0.15'))
    base = '/tmp/mut-%d' % os.getpid(); os.makedirs(base)
    work = []
    for f, props in MAP.items():
        if not re.search(want, f): continue
        path = subprocess.check_output(['find', INC, '-name', f], text=True).split()[0]
        src, ms = mutants(path); random.Random(seed).shuffle(ms)
        for m in (ms[:sample] if sample else ms): work.append((len(work), path, src, m, props, base, scale))
    print(len(work), 'mutants', flush=True); stat = {}
    with cf.ThreadPoolExecutor(jobs) as ex:
        for n, r in ex.map(run, work):
            _, path, src, (i, new, hwy), _, _, _ = work[n]; k = r.split()[0]; stat[k] = stat.get(k, 0) + 1
            if k == 'SURVIVED': print('SURVIVED %s:%d%s\n   - %s\n   + %s' % (os.path.basename(path), i + 1, ' [hwy]' if hwy else '', src[i].strip(), new.strip()), flush=True)
    print(stat); shutil.rmtree(base, ignore_errors=True)


main()
