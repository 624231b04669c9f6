# -*- coding: utf-8 -*-
"""python -m pbt.main <property id> [quick|thorough] | --replay FILE"""
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(HERE, 'known_findings.txt')

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 3


def load_known(pid):
    """keys listed as known findings of the property, with their text"""
    ret = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as f:
            for line in f:
                if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                    rest = line.strip().split(' ', 2)[2]
                    key, text = rest.split(' ', 1)
                    assert key.startswith('key='), line
                    ret[key[4:]] = text
    return ret


def worker(pid, tier, seed, shard, nshards, deadline, conn):
    from . import engine
    try:
        mod = importlib.import_module('props.%s' % pid.lower())
        stats = engine.Stats()
        fails = []
        for test in mod.TESTS:
            count = test.quick if tier == 'quick' else test.thorough
            n = count // nshards + (1 if shard < count % nshards else 0)
            f = engine.run_test(test, seed, shard, n, deadline, stats)
            if f:
                fails.append((test.name, f[0], f[1].kind, f[1].msg, f[2], f[3]))
        conn.send(('ok', stats.__dict__, fails))
    except BaseException as er:
        conn.send(('error', traceback.format_exc(), None))
    conn.close()


class ToFile:
    """what the worker needs of a connection"""

    def __init__(self, path):
        self.path = path

    def send(self, r):
        with open(self.path, 'wb') as f:
            pickle.dump(r, f)

    def close(self):
        pass


def run_again(pid, tier, seed, shard, nshards, deadline):
    """the interpreter itself broke (its just-in-time compiler has bugs): same cases, without the compiler"""
    fd, path = tempfile.mkstemp(prefix='pbt')
    os.close(fd)
    try:
        cmd = [sys.executable, '--jit', 'off', '-W', 'ignore', '-m', 'pbt.main', '--shard', pid, tier, str(seed), str(shard), str(nshards), str(deadline), path]
        subprocess.call(cmd, cwd=HERE, stdout=subprocess.DEVNULL)
        with open(path, 'rb') as f:
            return pickle.load(f)
    except EOFError:
        return 'error', 'a worker ended twice without an answer', None
    finally:
        os.remove(path)


def write_replay(pid, name, trace, kind, msg, desc):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(repr((name, trace)).encode()).hexdigest()[:8]
    path = os.path.join(d, '%s-%s-%s.json' % (pid, name, h))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'test': name, 'choices': trace, 'kind': kind, 'message': msg, 'case': desc,
                   'replay': 'bin/check --replay %s' % path}, f, indent=1)
    return path


def replay(path):
    from . import engine
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module('props.%s' % r['property'].lower())
    test = next(t for t in mod.TESTS if t.name == r['test'])
    src = engine.Source(prefix=r['choices'])
    v = engine.run_case(test, src)
    print('case: %s' % src.description())
    if v is None:
        print('the property holds on this case')
        return EXIT_OK
    print('%s: %s' % (v.kind, v.msg))
    print('VIOLATION property=%s replay=%s' % (r['property'], path))
    return EXIT_VIOLATION


def main(argv):
    sys.setrecursionlimit(3000)
    logging.disable(logging.CRITICAL)
    if argv[0] == '--replay':
        return replay(argv[1])
    if argv[0] == '--shard':
        pid, tier, seed, shard, nshards, deadline, path = argv[1:]
        worker(pid, tier, int(seed), int(shard), int(nshards), float(deadline), ToFile(path))
        return EXIT_OK
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = float(os.environ.get('VERIF_LIMIT', '400' if tier == 'quick' else '7200'))
    mod = importlib.import_module('props.%s' % pid.lower())
    nshards = int(os.environ.get('VERIF_SHARDS', '8'))
    nshards = min(nshards, getattr(mod, 'MAX_SHARDS', nshards))

    # known findings first: the specific inputs listed in the file
    known = load_known(pid)
    violations = []
    still = []
    for key, probe in sorted(getattr(mod, 'KNOWN', {}).items()):
        try:
            present = probe()
        except Exception as er:
            present = True
        if present:
            if key in known:
                still.append(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
            else:
                path = write_replay(pid, 'known', [], key, 'regression of %s' % key, '')
                violations.append((key, path))

    jobs = []
    ctx = multiprocessing.get_context('fork')
    deadline = t0 + limit
    sys.stdout.flush()
    for shard in range(nshards):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(pid, tier, seed, shard, nshards, deadline, b))
        p.start()
        b.close()
        jobs.append((p, a))
    results = []
    error = None
    for p, a in jobs:
        try:
            r = a.recv()
        except EOFError:
            r = None
        p.join()
        if r is None:
            r = run_again(pid, tier, seed, jobs.index((p, a)), nshards, deadline)
        if r[0] == 'error':
            error = error or r[1]
        else:
            results.append(r)
    per = {}
    nontrivial = set()
    samples = []
    evaluations = discarded = 0
    fails = {}
    for _, st, fs in results:
        evaluations += st['evaluations']
        discarded += st['discarded']
        nontrivial |= st['nontrivial']
        for s in st['samples']:
            if sum(1 for x in samples if x['test'] == s['test']) < 2:
                samples.append(s)
        for name, d in st['per_test'].items():
            t = per.setdefault(name, {'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'discarded': 0, 'wall_s': 0})
            for k in ('evaluations', 'nontrivial', 'discarded'):
                t[k] += d[k]
            t['wall_s'] = max(t['wall_s'], d.get('wall_s', 0))
            for l, n in d['labels'].items():
                t['labels'][l] = t['labels'].get(l, 0) + n
        for f in fs:
            cur = fails.get(f[0])
            if cur is None or (len(f[1]), f[1]) < (len(cur[1]), cur[1]):
                fails[f[0]] = f
    for name, f in sorted(fails.items()):
        path = write_replay(pid, name, f[1], f[2], f[3], f[4])
        violations.append((name, path))
        print('%s/%s %s: %s' % (pid, name, f[2], f[3][:1000]))
        print('   minimal case: %s' % f[4][:1500])
    wanted = {t.name: (t.quick if tier == 'quick' else t.thorough) for t in mod.TESTS}
    for name, t in per.items():
        t['planned'] = wanted[name]
        t['labels'] = dict(sorted(t['labels'].items()))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': samples,
            'discarded': discarded,
            'per_test': per,
            'known_findings_seen': still,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s %s seed=%s: %d cases, %d distinct non-trivial, %d discarded, %.1fs' % (
        pid, tier, seed, evaluations, len(nontrivial), discarded, time.time() - t0))
    for name, path in violations:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return EXIT_VIOLATION
    if error:
        print(error)
        return EXIT_ERROR
    return EXIT_OK


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
