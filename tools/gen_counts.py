#!/usr/bin/env python3
"""Rewrites the numbers of cases (quick/thorough) in DESIGN.md from the harnesses (development aid)."""
import glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def fmt(n):
    return ('%.3f' % (n / 1e6)).rstrip('0').rstrip('.') + 'M' if n >= 1000000 else str(n)
p = V + '/DESIGN.md'; s = open(p).read()
for f in sorted(glob.glob(V + '/harness/C*.cpp')):
    c = os.path.basename(f)[:3]
    l = re.findall(r'SUB\(\w+,\s*(\d+),\s*(\d+)\)', open(f).read())
    n = fmt(sum(int(x[0]) for x in l)) + '/' + fmt(sum(int(x[1]) for x in l))
    s, k = re.subn(r'(\* \*\*' + c + r' [^*]*\*\* - )[\d.]*\dM?/[\d.]*\dM?', lambda m: m[1] + n, s)
    if k != 1: print(c, n, 'not in DESIGN.md')
open(p, 'w').write(s)
