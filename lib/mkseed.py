#!/usr/bin/env python3
"""mkseed.py NAME PROPERTY FILE  <<< 'OLD\n=====\nNEW\n=====\nneeds\n=====\nbreaks' : writes seeded/NAME/{patch.diff,meta.json} (demo files are written separately)"""
import sys, subprocess, json, os
n, p, f = sys.argv[1:4]
old, new, needs, br = sys.stdin.read().split('\n=====\n')
s = open('/repo/' + f).read()
assert s.count(old) == 1, s.count(old)
open('/repo/' + f, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + n; os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
json.dump(dict(property=p, needs=needs.strip(), what_it_breaks=br.strip()), open(d + '/meta.json', 'w'), indent=1)
