#!/usr/bin/env python3
"""mut.py PROP[,PROP..] FILE OLD NEW: tries one textual change in the scratch copy /tmp/s, compiles it, runs the checks, undoes it"""
import sys, subprocess, os
props, fn, old, new = sys.argv[1:5]
p = '/tmp/s/' + fn
s = open(p).read()
if old not in s:
    print('TEXT NOT FOUND'); sys.exit(3)

open(p, 'w').write(s.replace(old, new, 1))
try:
    r = subprocess.run(['clang', '-std=c99', '-fsyntax-only', '-w', '-I/tmp/s/sml/include', p] if p.endswith('.c') else ['true'], capture_output=True, text=True)
    if r.returncode:
        print('DOES NOT COMPILE', r.stderr[:500])
    for q in props.split(','):
        r = subprocess.run(['python3', '/verif/check.py', q], env=dict(os.environ, SA_REPO='/tmp/s', SA_EVID='/tmp/ev'), capture_output=True, text=True)
        l = [x for x in r.stdout.split('\n') if x.startswith('  ') or x.startswith('UNDEC') or x.startswith('ERR')]
        print(q, 'exit', r.returncode, '|', ' || '.join(l[:3])[:400], r.stderr[-300:])
finally:
    open(p, 'w').write(s)
