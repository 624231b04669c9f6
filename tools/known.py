"""rewrites known_findings.txt: the findings below, and one line per fix commit of /repo (property by keyword)"""
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [l.rstrip('\n') for l in open(os.path.join(HERE, 'tools', 'findings.txt')) if l.strip()]
BY = [l.rstrip('\n').split('|') for l in open(os.path.join(HERE, 'tools', 'fixed.txt')) if l.strip()]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
out = list(FINDINGS)
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    m = [p for p, key in BY if key in s]
    assert len(m) == 1, (m, s)
    out.append('fixed: property=%s %s %s' % (m[0], h, s[5:]))
open(os.path.join(HERE, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
