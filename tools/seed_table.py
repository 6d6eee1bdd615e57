#!/usr/bin/env python3
"""prints the table of DESIGN.md's section on planted changes from the seeds' meta.json"""
import glob
import json
import os
missed = set(open(os.path.join(os.path.dirname(__file__), 'missed.txt')).read().split())
print('| change | what it breaks | needs | check |\n|---|---|---|---|')
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '../seeded/*'))):
    m = json.load(open(d + '/meta.json'))
    n = os.path.basename(d)
    f = lambda s: ' '.join(str(s).split()).replace('|', '/')
    print('| %s | %s | %s | %s |' % (n, f(m['what_it_breaks']), f(m['needs'])[:140], 'missed by ' + m['property'] if n in missed else m['property']))
