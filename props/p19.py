# -*- coding: utf-8 -*-
"""P19: generic algorithms on collections, classes, paths and strings."""
import copy
import os
import shutil
import tempfile
import threading
from collections import OrderedDict, deque

from pbt.common import *
from ngoschema import utils
from ngoschema.utils import utils as U
from ngoschema.utils import str_utils as S
from ngoschema import settings

META = dict(
    title='Algorithms on collections, classes, paths and strings compute what they state',
    statement="Dependencies are sorted into levels, each one holding all what depends only on the levels before, or refused when cyclic. Walks and filters of nested collections visit each element once and "
              "keep or leave exactly the keys given; flattening and paging lose and add nothing. A path leads to the descendant its names and indexes lead to, or to nothing. "
              "Casting an instance or a class to a parent uses the methods of this parent, and ends with the block whatever happens. The resolution order computed for classes is the one of the language. "
              "Brackets are matched, strings split at the delimiters given, replaced in one pass and shortened to the size given, logs of any collection can be formatted. "
              "Counters give each number once to concurrent threads. None of them modifies what it is given.",
    over=['inputs', 'schedules'],
    quantifier='every graph, collection, class hierarchy, path and string given',
    why='Two assertions of the repository test two of these functions, in tests which fail to import.',
    files=['ngoschema/utils/utils.py', 'ngoschema/utils/str_utils.py'],
    mechanism=[('dependencies', 'ngoschema/utils/utils.py:topological_sort'), ('walk', 'ngoschema/utils/utils.py:apply_through_collection'),
               ('filter', 'ngoschema/utils/utils.py:filter_collection'), ('paths', 'ngoschema/utils/utils.py:get_descendant'),
               ('classes', 'ngoschema/utils/utils.py:mro'), ('brackets', 'ngoschema/utils/utils.py:Bracket'),
               ('splits', 'ngoschema/utils/str_utils.py:split_string'), ('logs', 'ngoschema/utils/str_utils.py:PrettyShortPrinter')],
    observe=['results of the functions', 'arguments after the call'],
    oracle='a direct definition of each result; the classes made by the language itself',
    level_note='Random exploration: about 9 000 cases per quick run.',
)
RULE = 'A case is one call on generated arguments. Non-trivial: the result differs from the argument, and is not empty.'
ASSUMPTIONS = ['reduce_coll, Bracket.find_nested_brackets and Bracket.find_function_content are unfinished and not covered',
               'brackets given to Bracket.find_brackets are balanced', 'elements visited do not remove elements of lists']


# ------------------------------------------------------------ dependencies
def prop_topological(d):
    nodes = list('abcdefg')[:d.int(1, 7)] + d.subset([1, ('t',)], 0.2)
    acyclic = d.bool(0.7)
    order = d.shuffle(nodes)
    deps = {}
    for i, n in enumerate(order):
        pool = order[:i] if acyclic else order
        deps[n] = set(d.subset(pool, 0.35))
        if d.bool(0.15):
            deps[n].add(n)
        if d.bool(0.1):
            deps[n].add('ext%d' % d.int(0, 2))
    deps = {n: deps[n] for n in d.shuffle(order)}
    d.show(deps)
    before = copy.deepcopy(deps)
    # level of a node: 1 + the highest level of what it depends on
    allnodes = set(deps) | set(x for v in deps.values() for x in v)
    level = {}
    left = set(allnodes)
    while left:
        new = set(n for n in left if all(x in level or x == n for x in deps.get(n, ())))
        if not new:
            break
        lvl = max(level.values(), default=-1) + 1
        for n in new:
            level[n] = lvl
        left -= new
    want = [set(n for n in level if level[n] == i) for i in range(max(level.values(), default=-1) + 1)]
    got = []
    try:
        for x in U.topological_sort(deps):
            got.append(x)
        require(not left, 'cycle', lambda: 'cyclic dependencies %r are sorted %r' % (before, got))
    except AssertionError:
        require(left, 'cycle', lambda: 'dependencies %r are refused' % before)
        d.hit('cyclic')
    equal(got, want, 'levels', before)
    equal(deps, before, 'argument')
    if len(want) > 1:
        d.hit('levels')
    equal(list(U.topological_sort({})), [], 'empty')


# ------------------------------------------------------------ collections
def gen_coll(d, depth, tuples=True, top=False):
    k = d.weighted((3 if not top else 0, 's'), (4 if depth else 0, 'd'), (3 if depth else 0, 'l'), (1 if depth and tuples and not top else 0, 't'))
    if k == 's':
        return d.choice([0, 1, '', 'x', None, 2.5, False])
    if k == 'd':
        return (OrderedDict if d.bool(0.3) else dict)((x, gen_coll(d, depth - 1, tuples)) for x in d.shuffle(d.subset(['a', 'b', 'c', 'd', 1], 0.5)))
    return (list if k == 'l' else tuple)(gen_coll(d, depth - 1, tuples) for _ in range(d.int(0, 3)))


def prop_walk(d):
    coll = gen_coll(d, 4, top=True)
    rec = d.bool(0.8)
    act = d.choice(['look', 'replace', 'delete', 'add'])
    d.show('%r recursive=%s %s' % (coll, rec, act))

    def func(log):
        def f(c, k, level, extra=None):
            log.append((type(c).__name__, k, level, extra, repr(c)))
            if act == 'replace' and isinstance(c, (dict, list)):
                if c[k] == 'x':
                    c[k] = {'n': [1]}
                elif c[k] == 0:
                    c[k] = 'x'
            elif act == 'delete' and isinstance(c, dict) and k in ('a', 1):
                del c[k]
            elif act == 'add' and isinstance(c, dict) and k == 'b':
                c['zz'] = [3]
        return f

    def walk(c, f, level):
        keys = list(c.keys()) if isinstance(c, dict) else range(len(c))
        for k in keys:
            f(c, k, level=level, extra=7)
            if rec:
                v = c.get(k) if isinstance(c, dict) else c[k]
                if isinstance(v, (dict, list)) and v:
                    walk(v, f, level + 1)
    mine, log1, log2 = copy.deepcopy(coll), [], []
    walk(mine, func(log1), 0)
    r = U.apply_through_collection(coll, func(log2), recursive=rec, extra=7)
    equal(log2, log1, 'walk')
    require(repr(coll) == repr(mine), 'walk-result', lambda: 'got %r expected %r' % (coll, mine))
    require(r is None, 'walk-result', lambda: repr(r))
    if any(x[2] > 1 for x in log1):
        d.hit(act)


def prop_filter(d):
    coll = gen_coll(d, 4, tuples=False, top=True)
    keys = d.subset(['a', 'b', 'c', 1, 'zz'], 0.5)
    how = d.choice(['only', 'but', 'none'])
    rec = d.bool()
    d.show('%r %s %r recursive=%s' % (coll, how, keys, rec))
    if how == 'none' or not keys:
        how, keys = 'none', []

    def ref(c, top=True):
        if isinstance(c, dict):
            if not top and not rec:
                return c
            return {k: ref(v, False) for k, v in c.items() if how == 'none' or (k in keys) == (how == 'only')}
        if isinstance(c, list):
            return [ref(v, top) for v in c]
        return c
    want = ref(coll)
    before = repr(coll)
    given = d.choice([list, tuple, set])(keys)
    got = utils.filter_collection(coll, recursive=rec, **({} if how == 'none' else {how: given}))
    require(got == want and type(got) is type(coll), 'filter', lambda: 'got %r expected %r' % (got, want))
    require(repr(coll) == before, 'argument', lambda: '%r is now %r' % (before, coll))
    if want != coll and want:
        d.hit(how)


def prop_flatten(d):
    def gen(d, depth):
        return {k: gen(d, depth - 1) if depth and d.bool(0.5) else d.choice([0, 'x', None, [1], {}]) for k in d.shuffle(d.subset(['a', 'b', 'c', 'x1'], 0.5))}
    x = gen(d, 4)
    sep = d.choice(['.', '/', '__'])
    d.show('%r %r' % (x, sep))

    def ref(m, pre):
        out = []
        for k, v in m.items():
            out += ref(v, pre + [k]) if isinstance(v, dict) else [(sep.join(pre + [k]), v)]
        return out
    got = list(utils.nested_dict_iter(x, sep) if sep != '.' or d.bool() else utils.nested_dict_iter(x))
    equal(got, ref(x, []), 'flatten')
    if any(sep in k for k, v in got):
        d.hit()


def prop_group(d):
    n, size = d.int(0, 12), d.int(1, 5)
    items = list(range(n))
    d.show('%d by %d' % (n, size))
    got = list(utils.grouper(size, iter(items) if d.bool() else items))
    require([x for p in got for x in p] == items, 'pages', lambda: 'pages are %r' % got)
    require(all(len(p) == size for p in got[:-1]) and all(0 < len(p) <= size for p in got), 'pages', lambda: 'pages of %d are %r' % (size, got))
    # pages already given are not modified
    g = utils.grouper(size, items)
    pages = []
    for p in g:
        pages.append((p, list(p)))
    require(all(a == b for a, b in pages), 'pages', lambda: repr(pages))
    if n > size:
        d.hit()


def prop_lists(d):
    x = d.choice([None, 'ab', 3, [], [1], ['a', None], (), (1,), (1, 2), deque([1]), {'a': 1}, {5}, range(2), [None], ''])
    d.show(x)
    seq = isinstance(x, (list, tuple, deque, range))
    want = None if x is None else list(x) if seq else [x]
    got = utils.to_list(x)
    equal(got, want, 'to-list')
    if x is None:
        dft = d.choice([[], 'd'])
        require(utils.to_list(x, dft) is dft, 'to-list', lambda: 'default')
    one = U.to_none_single_list(x)
    want = None if not want else want[0] if len(want) == 1 else want
    require(one == want, 'single', lambda: '%r gives %r expected %r' % (x, one, want))
    equal(utils.is_sequence(x), seq, 'is-sequence', x)
    equal(utils.is_mapping(x), isinstance(x, dict), 'is-mapping', x)
    equal(utils.is_collection(x), seq or isinstance(x, (dict, set)), 'is-collection', x)
    equal(utils.is_string(x), isinstance(x, str), 'is-string', x)
    d.hit()


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.__dict__:
            return self.__dict__[k]
        raise RuntimeError('no %s' % k)


def prop_path(d):
    x = gen_coll(d, 4, top=True)
    # long lists, and numbers as first key
    more = d.weighted((6, None), (1, 'long'), (1, 'number'))
    if more == 'long':
        x = [0] * d.int(9, 12) + [x]
    elif more == 'number':
        x = {d.choice(['12', '0', '-1']): x}
    steps = []
    cur = x
    for _ in range(d.int(1, 5)):
        k = None
        if isinstance(cur, dict) and d.bool(0.9):
            k = d.choice([q for q in list(cur) + ['zz'] if isinstance(q, str)])
        elif isinstance(cur, (list, tuple)) and d.bool(0.9):
            k = d.int(-1, len(cur)) if more != 'long' or d.bool() else len(cur) - 1
        if k is None:
            k = d.choice(['a', 'b'])
        steps.append(k)
        try:
            cur = cur[k]
        except Exception:
            cur = None
        if cur is None and d.bool(0.7):
            break
    if not isinstance(x, dict):
        x, steps = {'r': x}, ['r'] + steps
    want = x
    for k in steps:
        try:
            want = want[k]
        except Exception:
            want = None
        if want is None:
            break
    path = ''
    for k in steps:
        path += '[%d]' % k if isinstance(k, int) else '.' + k if path else k
    d.show('%r %s' % (x, path))
    equal(U.split_path(path), steps, 'split-path', path)
    before = repr(x)
    for p in (path, steps, tuple(steps)):
        got = U.get_descendant(x, p)
        require(got is want or got == want and type(got) is type(want), 'descendant', lambda: '%r of %r is %r expected %r' % (p, x, got, want))
    require(repr(x) == before and len(steps) == len(U.split_path(path)), 'argument', lambda: before)
    o = Obj(o=x)
    require(U.get_descendant(o, 'o.' + path) is want or U.get_descendant(o, 'o.' + path) == want, 'descendant', lambda: 'o.' + path)
    require(U.get_descendant(o, 'p.' + path) is None, 'descendant', lambda: 'p.' + path)
    if want is not None and len(steps) > 1:
        d.hit()


# ------------------------------------------------------------ classes
def gen_classes(d):
    classes = []
    for i in range(d.int(2, 7)):
        bases = tuple(d.shuffle(d.subset(classes, 0.4))[:3])
        try:
            attrs = {'m': (lambda i: lambda self: i)(i)} if d.bool(0.7) or not bases else {}
            attrs['own%d' % i] = i
            if d.bool():
                attrs['_p'] = i
            c = type('C%d' % i, bases, attrs)
        except TypeError:
            continue
        classes.append(c)
    return classes


def prop_mro(d):
    classes = gen_classes(d)
    bases = tuple(d.shuffle(d.subset(classes, 0.4))) or (classes[-1],)
    if d.bool(0.2):
        bases += (d.choice([object, dict, OrderedDict]),)
    d.show('%r %r' % ([[b.__name__ for b in c.__mro__] for c in classes], [b.__name__ for b in bases]))
    try:
        want = type('K', bases, {}).__mro__[1:]
    except TypeError as er:
        if 'MRO' not in str(er) and 'mro' not in str(er).lower() and 'resolution' not in str(er) and 'cycle' not in str(er) and 'order' not in str(er):
            raise Discard()
        want = None
    if len(set(bases)) != len(bases):
        raise Discard()
    try:
        got = U.mro(*bases)
    except TypeError:
        got = None
    require(got == want, 'mro', lambda: 'order of %r is %r expected %r' % (bases, got, want))
    if want is None or len(bases) > 1:
        d.hit('none' if want is None else 'order')
    k = d.subset(classes, 0.4) or [classes[0]]
    # the first class, in the order of the first one, which is a parent of all
    common = [c for c in k[0].__mro__ if all(issubclass(x, c) for x in k)]
    require(U.gcs(*k) is common[0], 'gcs', lambda: 'common superclass of %r is %r expected %r' % (k, U.gcs(*k), common[0]))


def prop_cast(d):
    classes = [c for c in gen_classes(d)]
    c = d.choice(classes)
    p = d.choice(classes)
    o = c()
    o.x = 1
    fail = d.bool()
    d.show('%s as %s %s' % ([b.__name__ for b in c.__mro__], p.__name__, fail))

    class Stop(Exception):
        pass
    try:
        with utils.casted_as(o, p) as q:
            require(q is o and type(o) is p and o.x == 1 and o.m() == p().m(), 'cast', lambda: '%r' % q)
            if d.bool(0.3) and p.__mro__[1:-1]:
                pp = d.choice(p.__mro__[1:-1])
                with utils.casted_as(o, pp):
                    require(type(o) is pp, 'cast', lambda: 'nested')
                require(type(o) is p, 'cast', lambda: 'nested cast is not ended')
            if fail:
                raise Stop()
        require(issubclass(c, p), 'cast', lambda: '%r is casted as %r' % (c, p))
        require(not fail, 'swallowed', lambda: 'exception was swallowed')
    except Stop:
        d.hit('exception')
    except AttributeError:
        require(not issubclass(c, p), 'cast', lambda: '%r is not casted as %r' % (c, p))
        d.hit('refused')
    require(type(o) is c and o.x == 1, 'cast-end', lambda: 'instance of %r is a %r after' % (c, type(o)))
    if issubclass(c, p):
        k = U.class_casted_as(c, p)
        require(issubclass(k, p) and k.__name__ == c.__name__, 'class-cast', lambda: '%r' % k)
        require(k().m() == p().m(), 'class-cast', lambda: '%r casted as %r has the method of another class' % (c, p))
        rest = [b for b in c.__mro__ if b not in p.__mro__]
        for b in c.__mro__[:-1]:
            n = 'own' + b.__name__[1:]
            require(getattr(k, n, None) == getattr(b, n), 'class-cast', lambda: '%r casted as %r has not the attribute %s' % (c, p, n))
        want = next((b.__dict__['_p'] for b in rest + list(p.__mro__) if '_p' in b.__dict__), None)
        equal(getattr(k, '_p', None), want, 'class-cast', '_p of %r casted as %r' % (c, p))
        require(c().m() == type(o)().m(), 'class-cast', lambda: 'class %r was modified' % c)
        if c is not p:
            d.hit('class')


# ------------------------------------------------------------ brackets
def prop_brackets(d):
    kind = d.choice(['()', '[]', '{}', '<>'])
    out, depth, stack, want = [], 0, [], []
    for _ in range(d.int(0, 14)):
        c = d.weighted((3, 'o'), (3, 'c'), (3, 't'), (1, 'x'))
        if c == 'o':
            stack.append(len(out))
            out.append(kind[0])
        elif c == 'c' and stack:
            want.append((stack.pop(), len(out)))
            out.append(kind[1])
        elif c == 't':
            out.append(d.choice('ab,'))
        elif c == 'x':
            out.append(d.choice([x for k in ['()', '[]', '{}', '<>'] if k != kind for x in k]))
    while stack:
        want.append((stack.pop(), len(out)))
        out.append(kind[1])
    s = ''.join(out)
    d.show(s)
    br = d.choice(kind)
    got = utils.Bracket.find_brackets(s, br)
    require(sorted(b._pos for b in got) == sorted(want), 'brackets', lambda: '%r of %s' % (got, s))
    require(all(b.content() == s[b._pos[0] + 1:b._pos[1]] for b in got), 'content', lambda: '%r' % got)
    for a in got:
        for b in got:
            equal(a.is_in(b), b._pos[0] < a._pos[0] and a._pos[1] < b._pos[1], 'is-in', '%s %s' % (a, b))
    first = min(want) if want else None
    r = utils.Bracket.find_closing_bracket(s, br)
    require(r == ((first, s[first[0] + 1:first[1]]) if first else None), 'closing', lambda: 'first bracket of %s is %r' % (s, r))
    if len(want) > 1:
        d.hit()
    try:
        utils.Bracket.find_brackets(s, d.choice('a|;'))
        raise Violation('unknown-bracket', 'accepted')
    except InvalidValue:
        pass


# ------------------------------------------------------------ strings
ALPHA = 'ab.|*+?^$()[]{}\\-, 1d\n\té'


def prop_split(d):
    s = d.text(ALPHA, 0, 12)
    dels = ''.join(d.subset(ALPHA, 0.15))
    strip = d.bool(0.7)
    d.show('%r %r strip=%s' % (s, dels, strip))

    def ref(s):
        if not dels:
            return [s]
        out = ['']
        for c in s:
            if c in dels:
                out.append('')
            else:
                out[-1] += c
        return [x.strip() for x in out] if strip else out
    equal(utils.split_string(s, dels, strip), ref(s), 'split')
    l = [s, d.text(ALPHA, 0, 5)]
    equal(utils.split_string(d.choice([list, tuple])(l), dels, strip=strip), [ref(x) for x in l], 'split-list')
    if any(c in dels for c in s):
        d.hit()


def prop_replace(d):
    s = d.text('abc.*$\\1', 0, 14)
    rep = OrderedDict()
    for _ in range(d.int(0, 4)):
        k = d.text('abc.*$\\1', 1, 3)
        if k:
            rep[k] = d.text('abc\\1g<0>', 0, 3)
    d.show('%r %r' % (s, dict(rep)))
    out, i = '', 0
    while i < len(s):
        for k, v in rep.items():
            if s.startswith(k, i):
                out += v
                i += len(k)
                d.hit()
                break
        else:
            out += s[i]
            i += 1
    equal(utils.multiple_replace(s, rep), out, 'replace')
    old, new, n = d.text('ab', 1, 2) or 'a', d.text('abX', 0, 2), d.int(1, 3)
    want, rest, left = '', s, n
    while left and old in rest:
        p = rest.rindex(old)
        want = new + rest[p + len(old):] + want
        rest = rest[:p]
        left -= 1
    equal(S.rreplace(s, old, new, n), rest + want, 'rreplace', (old, new, n))


def prop_shorten(d):
    s = d.text('ab\n\\é', 0, 12)
    n = d.int(0, 12)
    d.show('%r %d' % (s, n))
    got = utils.shorten(s, n)
    require(got == s if len(s) <= n else got == s[:n] + '...', 'shorten', lambda: 'got %r' % got)
    x = d.choice([12345, [1, 2, 3], None, {'a': 1}])
    require(utils.shorten(x, 3, repr) == (repr(x) if len(repr(x)) <= 3 else repr(x)[:3] + '...'), 'shorten', lambda: repr(x))
    one = utils.inline(s)
    require('\n' not in one and one.replace('\\n', '\n') == s.replace('\\n', '\n'), 'inline', lambda: 'got %r' % one)
    if len(s) > n:
        d.hit()


def prop_logs(d):
    def gen(d, depth):
        k = d.weighted((3, 's'), (2 if depth else 0, 'd'), (2 if depth else 0, 'l'), (1 if depth else 0, 't'), (1, 'set'), (1, 'dq'))
        if k == 's':
            return d.choice([0, None, 2.5, 'x', 'y' * 45, 'é\n', True, b'z', Obj(), object])
        n = d.weighted((3, 1), (2, 3), (1, 10), (1, 25), (1, 0))
        if k == 'd':
            return {('k%d' % i if d.bool(0.9) else i): gen(d, depth - 1) for i in range(n)}
        if k == 'set':
            return d.choice([set, frozenset])(range(n))
        if k == 'dq':
            return deque(range(n))
        return (list if k == 'l' else tuple)(gen(d, depth - 1) for _ in range(n))
    x = gen(d, d.int(0, 3))
    d.show(repr(x)[:300])
    r = S.log_format(x)
    require(isinstance(r, str), 'logs', lambda: repr(r))
    # what is shown is bounded
    bound = 4 * settings.PPRINT_MAX_EL * settings.PPRINT_MAX_STRL + 100
    require(len(r) <= bound, 'logs', lambda: 'log of %d characters' % len(r))
    if isinstance(x, list) and len(x) > settings.PPRINT_MAX_EL:
        require('+%d...' % (len(x) - settings.PPRINT_MAX_EL) in r or r.endswith('...]'), 'logs', lambda: 'number of elements left in %s' % r)
        d.hit('long')
    if isinstance(x, str) and len(x) > settings.PPRINT_MAX_STRL:
        require('+%d...' % (len(x) - settings.PPRINT_MAX_STRL) in r, 'logs', lambda: r)
    y = gen(d, 1)
    lazy = S.lazy_format('{} {} {k}', x, y, to_format=[0, 'k'], k=x)
    want = '%s %s %s' % (r, '{}'.format(y), r)
    for _ in range(d.int(1, 3)):
        equal(str(lazy), want, 'lazy')


def prop_counter(d):
    start = d.choice([0, 1, 100, -3])
    c = utils.threadsafe_counter(start)
    n, m = d.int(1, 6), d.int(1, 60)
    got = [[] for _ in range(n)]
    go = threading.Barrier(n)
    d.show('%d threads of %d from %d' % (n, m, start))

    def run(i):
        go.wait()
        for _ in range(m):
            got[i].append(c())
    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    require(sorted(x for g in got for x in g) == list(range(start, start + n * m)), 'counter', lambda: 'numbers are %r' % got)
    require(all(g == sorted(g) for g in got), 'counter', lambda: 'numbers are %r' % got)
    other = utils.threadsafe_counter()
    equal((other(), c()), (1, start + n * m), 'independent')
    if n > 1:
        d.hit()


def prop_directory(d):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='p19-'))
    cwd = os.getcwd()
    try:
        dirs = [os.path.join(tmp, x) for x in ('a', 'b', 'a/c')]
        for x in dirs:
            os.mkdir(x)

        class Stop(Exception):
            pass

        def nest(depth):
            here = os.getcwd()
            to = d.choice(dirs + [os.path.join(tmp, 'missing')])
            fail = d.bool(0.3)
            d.show('%s %s' % (os.path.relpath(to, tmp), fail))
            try:
                with utils.working_directory(to):
                    require(os.getcwd() == to, 'directory', lambda: 'in %s' % os.getcwd())
                    if depth and d.bool():
                        nest(depth - 1)
                        d.hit()
                        require(os.getcwd() == to, 'directory', lambda: 'in %s' % os.getcwd())
                    if fail:
                        raise Stop()
            except Stop:
                require(fail, 'directory', lambda: 'exception')
            except OSError:
                require(to.endswith('missing'), 'directory', lambda: 'cannot go to %s' % to)
            require(os.getcwd() == here, 'directory-end', lambda: 'left in %s instead of %s' % (os.getcwd(), here))
        nest(3)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


TESTS = [
    Test('topological', prop_topological, 1200),
    Test('walk', prop_walk, 1000),
    Test('filter', prop_filter, 1000),
    Test('flatten', prop_flatten, 500),
    Test('group', prop_group, 200),
    Test('lists', prop_lists, 60),
    Test('path', prop_path, 1200),
    Test('mro', prop_mro, 800),
    Test('cast', prop_cast, 600),
    Test('brackets', prop_brackets, 800),
    Test('split', prop_split, 800),
    Test('replace', prop_replace, 800),
    Test('shorten', prop_shorten, 200),
    Test('logs', prop_logs, 600),
    Test('counter', prop_counter, 60),
    Test('directory', prop_directory, 60),
]
