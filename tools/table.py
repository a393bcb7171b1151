#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/ and a log of catch.sh."""
import glob, json, os, re, sys
res = {}
for l in open(sys.argv[1], errors='replace'):
    m = re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s', l)
    if m:
        res.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
print('| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|')
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
for d in sorted(glob.glob(here + '/*')):
    i = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    c = [p for p, r in sorted(res.get(i, {}).items()) if r == '1']
    e = lambda s: s.replace('|', '\\|')
    print('| %s | %s | %s | %s |' % (i, e(m['what_it_breaks']), e(m['needs']), ', '.join(c) or 'missed'))
