#!/usr/bin/env python3
"""runseeds.py [ID...] : runs the quick check of the property of each planted bug against a scratch copy of /repo with the bug."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SEEDED = '/verif/seeded'


def run(i):
    work = tempfile.mkdtemp(prefix='runseed')
    try:
        repo = os.path.join(work, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        verif = os.path.join(work, 'verif')
        subprocess.check_call(['cp', '-a', '/verif', verif])
        meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        r = subprocess.run(['git', 'apply', os.path.join(SEEDED, i, 'patch.diff')], cwd=repo)
        if r.returncode:
            return i, meta['property'], 'DOES NOT APPLY', ''
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        prop = os.environ.get('PROP', meta['property'])
        r = subprocess.run([os.path.join(verif, 'bin', 'check'), prop, 'quick'], cwd=verif, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        hit = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
        line = next((l for l in r.stdout.split('\n') if l.startswith(prop + '/')), r.stdout.strip().split('\n')[-1])
        return i, prop, 'caught' if hit else 'MISSED rc=%i' % r.returncode, line[:200]
    finally:
        shutil.rmtree(work)


ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
    out = '/verif/tools/design/seeds.json'
    known = json.load(open(out)) if os.path.exists(out) else {}
    for r in ex.map(run, ids):
        print(*r, flush=True)
        if 'PROP' not in os.environ:
            known[r[0]] = '%s (%s)' % (r[2], r[3].split(':')[0]) if r[2] == 'caught' else r[2]
    known = {k: v for k, v in known.items() if os.path.isdir(os.path.join(SEEDED, k))}
    json.dump(known, open(out, 'w'), indent=1, sort_keys=True)
