#!/usr/bin/env python3
"""Writes known_findings.txt: looks the fix commits up by their subject, so that rebasing /repo does not leave stale hashes."""
import subprocess, sys
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout
commits = {l.split('\t', 1)[1]: l.split('\t', 1)[0] for l in log.splitlines()}
FIXED = [l.rstrip('\n').split('\t') for l in open('/verif/fixes.tsv') if l.strip()]
out = ['# known: property=P kind=<kind> match=<text in the detail> -- <what fails>   (genuine, not repaired: reported as KNOWN-FINDING)',
       '# fixed: property=P <commit in /repo> <what failed>                          (repaired: suppresses nothing)']
try: out += [l.rstrip('\n') for l in open('/verif/known_open.txt') if l.strip()]
except OSError: pass
missing = []
for props, subj, what in FIXED:
    h = commits.pop(subj, None)
    if h is None: missing.append(subj); continue
    for p in props.split(','): out.append('fixed: property=%s %s %s' % (p, h, what))
open('/verif/known_findings.txt', 'w').write('\n'.join(out) + '\n')
for m in missing: print('no such commit:', m)
for s in commits:
    if s.startswith('fix:'): print('not listed:', s)
