#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md: the list of repairs and the table of planted bugs."""
import importlib.util, glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/DESIGN.md').read()
fx = [l.strip() for l in open(V + '/known_findings.txt') if l.startswith('fixed:')]
fixes = '\n'.join('* %s `%s` %s' % re.match(r'fixed: property=(\S+) (\S+) (.*)', l).groups() for l in fx)
rows = []
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    rows += [(s['property'], s['id'], s['needs'], s.get('caught', s['property'] + ' quick')) for s in m.SEEDS]
rows.sort()
seeds = '| planted bug | breaks | needs | caught by |\n|----|----|----|----|\n' + '\n'.join('| %s | %s | %s | %s |' % (i, p, n.replace('|', '/'), c) for p, i, n, c in rows)
def put(t, tag, body):
    s, e = '<!-- %s -->' % tag, '<!-- /%s -->' % tag
    block = s + '\n' + body + '\n' + e
    if '@%s@' % tag in t: return t.replace('@%s@' % tag, block)
    return t[:t.index(s)] + block + t[t.index(e) + len(e):]
t = put(t, 'FIXES', fixes); t = put(t, 'SEEDS', seeds)
open(V + '/DESIGN.md', 'w').write(t)
