# -*- coding: utf-8 -*-
"""A small property-based testing engine (choice-sequence generation + integrated shrinking).

Hypothesis cannot be loaded by the interpreter numengo/python-ngomodel runs on (PyPy 3.9: the installed
wheels need CPython >= 3.10 and a compiled core), so this engine reproduces the parts the checks need:

* every random decision is one bounded integer drawn from a ``Source``; a generated case is a pure function of
  that sequence of integers, so recording the sequence is a complete replay and shrinking the sequence shrinks
  any value or operation history built from it (lists record spans so that whole elements are removed first);
* runs are a pure function of the code under test and the seed;
* cases are counted, classified and sampled for the evidence file.
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property is broken by the case being run."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The case does not belong to the domain of the property."""


class CaseTimeout(BaseException):
    """A case did not terminate (BaseException: the code under test swallows Exceptions)."""


class Source:
    """Source of choices. Each choice is an integer in [0, n)."""

    def __init__(self, rng=None, prefix=()):
        self.rng = rng
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.spans = []
        self.labels = []
        self.nontrivial = False
        self.desc = []

    # -- choices
    def below(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            v = v if v < n else n - 1
        elif self.rng is not None:
            v = int(self.rng.random() * n)
        else:
            v = 0
        self.pos += 1
        self.trace.append(v)
        return v

    def int(self, lo, hi):
        """integer in [lo, hi]; shrinks to the value of the range nearest 0."""
        if lo <= 0 <= hi:
            v = self.below(hi - lo + 1)
            # 0, 1, -1, 2, -2 ... so that a smaller choice is a simpler value
            neg, pos = -lo, hi
            m = min(neg, pos)
            if v <= 2 * m:
                return (v + 1) // 2 if v % 2 else -(v // 2)
            return v - m if pos > neg else -(v - m)
        if lo > 0:
            return lo + self.below(hi - lo + 1)
        return hi - self.below(hi - lo + 1)

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self.below(1000) >= 1000 - int(p * 1000)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, *pairs):
        """pairs (weight, value); shrinks to the first pair."""
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def list(self, fn, lo=0, hi=5):
        """list of fn(self) of length in [lo, hi]."""
        ret = []
        mean = max(1.0, (lo + hi) / 2.0)
        stop = int(1000 / (mean - lo + 1)) if mean > lo else 0
        while len(ret) < hi:
            start = len(self.trace)
            if len(ret) >= lo:
                # value 0 stops the list, so that shrinking towards 0 shortens it
                if self.below(1000) < stop:
                    break
            ret.append(fn(self))
            self.spans.append((start, len(self.trace)))
        return ret

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.below(len(seq))))
        return out

    def text(self, alphabet='abcdefghij', lo=0, hi=6):
        return ''.join(self.list(lambda d: d.choice(alphabet), lo, hi))

    def span(self, fn):
        start = len(self.trace)
        ret = fn(self)
        self.spans.append((start, len(self.trace)))
        return ret

    # -- reporting
    def note(self, label):
        self.labels.append(label)

    def hit(self, label=None):
        """the case is non-trivial by the rule of the test"""
        self.nontrivial = True
        if label:
            self.labels.append(label)

    def show(self, x):
        self.desc.append(x)

    def description(self):
        return ' ; '.join(x if isinstance(x, str) else repr(x) for x in self.desc)


def same(a, b):
    return type(a) is type(b) and a == b


def require(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def equal(got, want, kind, ctx=''):
    if not (type(got) is type(want) and got == want):
        raise Violation(kind, '%s got %r (%s), expected %r (%s)' % (
            ctx, got, type(got).__name__, want, type(want).__name__))


class Test:
    def __init__(self, name, fn, quick, thorough=None, rule='', case_timeout=60, max_trace=20000):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough or quick * 20
        self.rule = rule
        self.case_timeout = case_timeout


class HarnessError(Exception):
    pass


def _frames_in_repo(tb):
    root = os.path.join(REPO, 'ngoschema') + os.sep
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(root):
            return True
    return False


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(test, src):
    """returns None, or a Violation. Raises Discard or HarnessError"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, test.case_timeout)
    try:
        test.fn(src)
        return None
    except Violation as er:
        return er
    except Discard:
        raise
    except CaseTimeout:
        return Violation('does-not-terminate', 'no answer within %ss' % test.case_timeout)
    except Exception as er:
        # the checks catch every exception the library is expected to raise: any other one, even raised by the
        # check when it meets a result of an unexpected shape, means that the code did not do what it should
        etype, value, tb = sys.exc_info()
        if isinstance(er, (MemoryError, HarnessError)) or (isinstance(er, OSError) and er.errno in (28, 24, 12)):
            raise HarnessError(''.join(traceback.format_exception(etype, value, tb)))
        last = [f for f in traceback.extract_tb(tb)][-1]
        return Violation('unexpected-exception',
                         '%s: %s (raised at %s:%s%s)' % (etype.__name__, str(value)[:300],
                                                         os.path.basename(last.filename), last.lineno,
                                                         '' if _frames_in_repo(tb) else ', in the check itself'))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def shrink(test, trace, spans, viol, budget=400, seconds=40):
    """minimise the sequence of choices, keeping a violation of the same kind"""
    t0 = time.time()
    best = list(trace)
    best_spans = list(spans)
    best_viol = viol
    calls = [0]
    seen = set()

    def attempt(cand):
        nonlocal best, best_spans, best_viol
        key = tuple(cand)
        if key in seen or calls[0] >= budget or time.time() - t0 > seconds:
            return False
        seen.add(key)
        calls[0] += 1
        src = Source(prefix=cand)
        try:
            v = run_case(test, src)
        except (Discard, HarnessError):
            return False
        if v is None or v.kind != viol.kind or v.kind == 'does-not-terminate':
            return False
        new = src.trace
        if (len(new), new) < (len(best), best):
            best, best_spans, best_viol = new, src.spans, v
            return True
        return False

    progress = True
    while progress and calls[0] < budget and time.time() - t0 < seconds:
        progress = False
        # whole elements
        for s, e in sorted(best_spans, key=lambda x: x[0] - x[1]):
            if e <= len(best) and attempt(best[:s] + best[e:]):
                progress = True
                break
        if progress:
            continue
        # blocks
        for size in (16, 8, 4, 2, 1):
            i = 0
            while i + size <= len(best):
                if attempt(best[:i] + best[i + size:]):
                    progress = True
                else:
                    i += size
        # zero blocks, then lower single choices
        for size in (8, 4, 2):
            for i in range(0, len(best), size):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    progress = True
        i = 0
        while i < len(best):
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    progress = True
                else:
                    lo, hi = 0, v
                    while hi - lo > 1 and i < len(best):
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            hi = mid
                            progress = True
                        else:
                            lo = mid
                        if calls[0] >= budget:
                            break
            i += 1
    return best, best_viol


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.discarded = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.per_test = {}


def seed_for(seed, *names):
    h = hashlib.sha256(('%s/' % seed + '/'.join(map(str, names))).encode()).hexdigest()
    return int(h[:15], 16)


def run_test(test, seed, shard, count, deadline, stats):
    """returns None or (trace, violation, description)"""
    rng = random.Random(seed_for(seed, test.name, shard))
    t0 = time.time()
    done = 0
    per = stats.per_test.setdefault(test.name, {'evaluations': 0, 'nontrivial': 0, 'labels': {}, 'discarded': 0})
    fail = None
    nsamples = 0
    consecutive = 0
    while done < count and time.time() < deadline:
        src = Source(rng=rng)
        try:
            v = run_case(test, src)
        except Discard:
            per['discarded'] += 1
            stats.discarded += 1
            consecutive += 1
            if consecutive > 2000:
                raise HarnessError('%s: 2000 cases in a row were discarded' % test.name)
            continue
        consecutive = 0
        done += 1
        per['evaluations'] += 1
        stats.evaluations += 1
        for l in set(src.labels):
            per['labels'][l] = per['labels'].get(l, 0) + 1
        if src.nontrivial:
            d = src.description() or repr(src.trace)
            h = hashlib.md5((test.name + d).encode('utf-8', 'surrogatepass')).hexdigest()[:16]
            if h not in stats.nontrivial:
                stats.nontrivial.add(h)
                per['nontrivial'] += 1
                if nsamples < 2 and done > 5:
                    nsamples += 1
                    stats.samples.append({'test': test.name, 'case': d[:1500]})
        if v is not None:
            if v.kind == 'does-not-terminate':
                # confirm before believing it
                try:
                    v = run_case(test, Source(prefix=src.trace))
                except Discard:
                    v = None
                if v is None:
                    continue
                trace = src.trace
            else:
                trace, v = shrink(test, src.trace, src.spans, v)
            final = Source(prefix=trace)
            try:
                v2 = run_case(test, final) if v.kind != 'does-not-terminate' else v
            except (Discard, HarnessError):
                v2 = None
            fail = (trace, v2 or v, final.description(), v2 is not None)
            break
    per['wall_s'] = round(time.time() - t0, 2)
    return fail
