#!/usr/bin/env python3
"""mkseed.py SPEC... : turns specs of planted bugs into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo.

A spec is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO (python source)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = 'f92455f'
SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# run with cwd at the root of the repository
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD" LANG=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=repo, LANG='C.UTF-8', TZ='UTC')
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ids = ['tests/%s.py::%s' % (s.split('::')[0].split('.')[1], s.split('::')[1]) for s in stable]
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', 'tests'], repo, env=env)
    failed = [i for i in ids if re.search(r'(FAILED|ERROR) %s\b' % re.escape(i), r.stdout)]
    m = re.search(r'(\d+) passed', r.stdout)
    return bool(m) and int(m.group(1)) >= len(ids) and not failed, r.stdout[-300:]


def main(specs):
    work = tempfile.mkdtemp(prefix='mkseed')
    repo = os.path.join(work, 'repo')
    bad = 0
    try:
        sh(['cp', '-a', '/repo', repo], '/')
        for spec in specs:
            s = {}
            exec(open(spec).read(), s)
            out = os.path.join(work, 'out')
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            sh('git checkout -q -- .', repo)
            open(os.path.join(out, 'demo.py'), 'w').write(s['DEMO'].lstrip())
            open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
            os.chmod(os.path.join(out, 'demo.sh'), 0o755)
            errors = []
            r = sh(['bash', os.path.join(out, 'demo.sh')], repo, timeout=300)
            if r.returncode:
                errors.append('demo fails on the unchanged tree: ' + r.stdout[-1500:])
            for f, old, new in s['EDITS']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    errors.append('%s: %i matches of %r' % (f, t.count(old), old))
                    continue
                line = t[:t.index(old)].count('\n') + 1
                blame = sh(['git', 'blame', '-s', '-L', '%i,%i' % (line, line + old.rstrip('\n').count('\n')), 'HEAD', '--', f], repo).stdout
                # lines which are kept as context may come from a fix, those which change may not
                kept = set(new.split('\n'))
                for b in blame.strip().split('\n'):
                    text = b.split(')', 1)[1][1:]
                    if text not in kept and not b.lstrip('^').startswith(BASE):
                        errors.append('changes a line of a fix: ' + b)
                open(p, 'w').write(t.replace(old, new))
            patch = sh('git diff', repo).stdout
            open(os.path.join(out, 'patch.diff'), 'w').write(patch)
            if not errors:
                ok, log = tests(repo)
                if not ok:
                    errors.append('tests fail: ' + log)
                r = sh(['bash', os.path.join(out, 'demo.sh')], repo, timeout=300)
                if not r.returncode:
                    errors.append('demo passes with the change')
                else:
                    print('   ', r.stdout.strip().split('\n')[-1][:160])
            json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
            sh('git checkout -q -- .', repo)
            if errors:
                bad += 1
                print('REFUSED', s['ID'], '; '.join(errors))
                continue
            dest = os.path.join(SEEDED, s['ID'])
            shutil.rmtree(dest, ignore_errors=True)
            shutil.copytree(out, dest)
            print('planted', s['ID'])
    finally:
        shutil.rmtree(work)
    return bad


sys.exit(main(sys.argv[1:]))
