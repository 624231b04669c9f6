# -*- coding: utf-8 -*-
"""P15: queries select, order and combine objects as their criteria say."""
import copy
import re

from pbt.common import *
from ngoschema.query import Query, Filter

META = dict(
    title='Queries return exactly the objects their criteria select, in the order asked',
    statement="filter keeps the objects satisfying every criterion, filter_any_of the ones satisfying at least one, and exclude and exclude_any_of exactly the other ones, in the order of the source; "
              "a criterion tests a path of attributes with its operators (equality when none is given, several are applied in turn), and is not satisfied when the path leads nowhere; strings given to the operators are "
              "taken literally, except by regex. order_by sorts, reverse reverses, distinct drops the repeated objects, slices, first, last, count, get, next, union, intersection and difference work on these results. "
              "Queries can be chained and used any number of times in any order, on lists as on generators, without changing their source, the criteria, or each other.",
    over=['inputs', 'histories'],
    quantifier='every collection of objects (mappings and schema objects, attributes missing or falsy), every criterion, every sequence of chained and interleaved queries',
    why='test_query (which fails) checks the number of results of a few queries over three documents; exclusion, missing attributes, ordering, chained and repeated queries are not tested.',
    files=['ngoschema/query.py', 'ngoschema/utils/utils.py'],
    mechanism=[('criteria', 'ngoschema/query.py:Filter.__call__'),
               ('operators', 'ngoschema/query.py:_apply_ops_test'),
               ('paths', 'ngoschema/utils/utils.py:get_descendant'),
               ('results', 'ngoschema/query.py:Query.result_cache')],
    observe=['lists of results', 'items, counts and membership', 'exceptions of get and next', 'source objects'],
    oracle='a reference filter over lists, written from the documentation of the operators, and list operations',
    level_note='Random exploration: about 12000 histories of queries per quick run.',
)
RULE = ('A case is a generated collection and a history of queries over it. Non-trivial: a query selects some but not all '
        'of the objects, or orders at least two of them.')
ASSUMPTIONS = ['operators are applied to values of the type they are for, and sorted values are comparable and present',
               'empty objects are not in the collections (they are skipped)']

WORDS = ['a', 'b', 'ab', 'Ab', 'abc', 'B', 'a.c', 'a+b', 'x(y', 'ABC', 'b\na', 'a\n', '^a', 'c$', '', 'é', 'É']


def gen_obj(d):
    o = {'k': d.int(0, 3), 'p': {'q': [d.int(0, 2), d.choice(['u', 'v'])]}}
    if d.bool(0.7):
        o['a'] = d.int(0, 4)
    if d.bool(0.75):
        o['s'] = d.choice(WORDS)
    if d.bool(0.6):
        o['l'] = [d.choice(WORDS[:6]) for _ in range(d.int(1, 3))]
    if d.bool(0.6):
        o['n'] = {}
        if d.bool(0.7):
            o['n']['x'] = d.int(0, 3)
        if d.bool(0.5):
            o['n']['s'] = d.choice(WORDS)
        if d.bool(0.5):
            o['n']['m'] = {'y': d.int(0, 2)} if d.bool(0.7) else {}
        if d.bool(0.3):
            o['n']['size'] = d.int(0, 3)
    elif d.bool(0.2):
        o['n'] = d.choice([0, 2, None])
    return o


ORDERS = ['k', 'k', 'p.q[0]', ['p', 'q', 0], 'p.q[1]']
STR_OPS = ['startswith', 'istartswith', 'endswith', 'iendswith', 'ieq', 'icontains', 'contains', 'regex', 'eq', 'ne']
NUM_OPS = ['lt', 'le', 'eq', 'ne', 'neq', 'ge', 'gt']


def gen_criterion(d):
    k = d.weighted((4, 'num'), (4, 'str'), (3, 'list'), (2, 'size'), (1, 'child'), (2, 'whole'), (2, 'turn'))
    neg = d.bool(0.15)
    if k == 'num':
        path = d.choice(['a', 'a', 'k', 'n__x', 'n__m__y'])
        op = d.choice(NUM_OPS + ['', '', 'in'])
        v = d.list(lambda d: d.int(0, 3), 0, 3) if op == 'in' else d.int(0, 3)
        return '__'.join(filter(None, [path, 'not' if neg else '', op])), v
    if k == 'str':
        path = d.choice(['s', 's', 'n__s'])
        op = d.choice(STR_OPS + ['', 'in'])
        v = d.choice(WORDS)
        if op == 'regex':
            v = d.choice(['a', 'a.', '^ab?c$', '[ab]+', '.*b'])
        if op == 'in':
            v = d.list(lambda d: d.choice(WORDS), 0, 3)
        return '__'.join(filter(None, [path, op, 'not' if neg else ''])), v
    if k == 'whole':
        # what is there is compared, whatever it is
        return d.choice(['n', 'n', 'n__m']), d.choice([0, 2, {'x': 1}, {'x': 0}, {}, {'y': 1}, {'y': 0}, {'m': {}}, 'a'])
    if k == 'turn':
        # several operators
        op = d.choice(['@0__size', '@0__size__ge', '@0__@0', '@0__@0__in', '@-1', '@-1__size__lt', '@0__@0__ieq'])
        if 'size' in op:
            return 'l__' + op, d.int(0, 3)
        return 'l__' + op, d.choice(['ab', 'aA', 'b']) if op.endswith('in') else d.choice(['a', 'b', 'A', 'ab'])
    if k == 'list':
        op = d.choice(['contains', 'intersects', '@0', '@0__in', '', '@0__startswith'])
        v = d.list(lambda d: d.choice(WORDS[:6]), 0, 3) if op in ('intersects', '@0__in', '') else d.choice(WORDS[:6])
        return '__'.join(filter(None, ['l', op, 'not' if neg and op else ''])), v
    if k == 'child':
        # an attribute named as an operator
        op = d.choice(['', 'ge', 'lt'])
        return '__'.join(filter(None, ['n__size', op])), d.int(0, 3)
    op = d.choice(['', 'ge', 'lt', 'in', 'eq'])
    return '__'.join(filter(None, ['l__size', 'not' if neg else '', op])), [1, 2] if op == 'in' else d.int(1, 3)


MISSING = object()


def walk(o, path):
    for p in path:
        if not isinstance(o, dict) or p not in o:
            return MISSING
        o = o[p]
    return MISSING if o is None else o


OPS = set(STR_OPS + NUM_OPS + ['in', 'size', 'intersects', 'not'])


def apply_op(op, a, b):
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    if op == 'ge':
        return a >= b
    if op in ('ne', 'neq'):
        return a != b
    if op == 'eq':
        return a == b
    if op == 'in':
        return a in b
    if op == 'contains':
        return b in a
    if op == 'intersects':
        return any(x in b for x in a)
    if op == 'startswith':
        return a[:len(b)] == b
    if op == 'endswith':
        return b == '' or a[-len(b):] == b
    if op == 'regex':
        return re.match(b, a) is not None
    a, b = a.lower(), b.lower()
    return {'ieq': lambda: a == b, 'icontains': lambda: b in a, 'istartswith': lambda: a.startswith(b),
            'iendswith': lambda: a.endswith(b)}[op]()


def criterion(o, key, v):
    parts = key.split('__')
    neg = 'not' in parts
    parts = [p for p in parts if p != 'not']
    if parts[:2] == ['n', 'size']:
        if isinstance(o.get('n'), int):
            raise Discard()  # the size of a number
        path, ops = parts[:2], parts[2:]
    else:
        path = [p for p in parts if p not in OPS and p[0] != '@']
        ops = parts[len(path):]
    x = walk(o, path)
    if x is MISSING or isinstance(x, dict) and ops:
        return False
    while ops and (ops[0] == 'size' or ops[0][0] == '@'):
        x, ops = len(x) if ops[0] == 'size' else x[int(ops[0][1:])], ops[1:]
    return bool(apply_op(ops[0] if ops else 'eq', x, v)) != neg


def selected(o, kind, attrs, crit):
    tests = [walk(o, a.split('__')) is not MISSING for a in attrs] + [criterion(o, k, v) for k, v in crit.items()]
    r = any(tests) if 'any' in kind else all(tests)
    return r != kind.startswith('exclude')


SCHEMA = {'type': 'object', 'properties': {'n': {}}}
_cls = []


def as_object(o):
    """the same object as an instance of a schema class"""
    if not _cls:
        _cls.append(make_class({'type': 'object'}))
    return _cls[0](copy.deepcopy(o))


class Model:
    def __init__(self, base, distinct=False, order=None, reverse=False):
        self.base, self.distinct, self.order, self.reverse = base, distinct, order, reverse

    def results(self):
        r = []
        for x in self.base:
            if not self.distinct or not any(x[1] == y[1] for y in r):
                r.append(x)
        if self.order:
            r = sorted(r, key=lambda x: x[1]['k'] if self.order == 'k' else x[1]['p']['q'][0] if '0' in str(self.order) else x[1]['p']['q'][1])
        return r[::-1] if self.reverse else r


def prop_history(d):
    n = d.int(1, 7)
    plain = [gen_obj(d) for _ in range(n)]
    if n > 1 and d.bool(0.5):
        plain.append(copy.deepcopy(d.choice(plain)))
        if d.bool():
            plain = d.shuffle(plain)
    objs = d.bool(0.2)
    live = [as_object(o) for o in plain] if objs else plain
    pairs = list(zip(live, copy.deepcopy(plain)))
    src = d.choice(['list', 'list', 'iterator', 'generator', 'tuple', 'query'])
    source = {'list': lambda: live, 'iterator': lambda: iter(live), 'generator': lambda: (x for x in live), 'tuple': lambda: tuple(live),
              'query': lambda: Query(list(live))}[src]()
    before = list(live)
    distinct = d.bool(0.15)
    order = d.choice(ORDERS) if d.bool(0.25) else None
    rev = d.bool(0.15)
    d.show('Query(%s %r, distinct=%r, order_by=%r, reverse=%r)' % (src, plain, distinct, order, rev))
    queries = [(Query(source, distinct=distinct, order_by=order or False, reverse=rev), Model(pairs, distinct, order, rev))]

    def check(q, m, what):
        want = m.results()
        got = list(q)
        require(len(got) == len(want) and all(x is y[0] for x, y in zip(got, want)), 'results',
                lambda: '%s: %r expected %r' % (what, [show(x) for x in got], [y[1] for y in want]))

    def show(x):
        return dict(x) if isinstance(x, dict) else x.do_serialize()

    for step in range(d.int(1, 7)):
        i = d.int(0, len(queries) - 1)
        q, m = queries[i]
        op = d.weighted((10, 'filter'), (2, 'order'), (2, 'reverse'), (3, 'results'), (2, 'item'), (2, 'get'), (2, 'next'), (2, 'set'), (2, 'contains'))
        if op in ('filter', 'get', 'next'):
            crit = dict(gen_criterion(d) for _ in range(d.weighted((2, 0), (6, 1), (3, 2))))
            attrs = d.subset(['a', 's', 'n', 'n__x', 'n__m__y', 'l'], 0.2)
            given = copy.deepcopy(crit)
            for o in plain if not objs else [p[1] for p in pairs]:
                for k, v in crit.items():
                    criterion(o, k, v)
        if op == 'filter':
            kind = d.weighted((5, 'filter'), (3, 'exclude'), (3, 'filter_any_of'), (2, 'exclude_any_of'))
            kw = {}
            if d.bool(0.1):
                kw['order_by'] = d.choice(ORDERS)
            if d.bool(0.1):
                kw['reverse'] = True
            if d.bool(0.1):
                kw['distinct'] = True
            base = [x for x in m.base if selected(x[1], kind, attrs, crit)]
            d.show('q%d = q%d.%s(%r, %r, %r)' % (len(queries), i, kind, attrs, crit, kw))
            q2 = getattr(q, kind)(*attrs, **dict(crit, **kw))
            if m.distinct or kw.get('distinct'):
                base = Model(base, True).results()
            if 0 < len(base) < len(m.base):
                d.hit(kind)
            m2 = Model(base, m.distinct or kw.get('distinct', False), kw.get('order_by', m.order), kw.get('reverse', m.reverse))
            if objs:
                f = Filter(*attrs, negate='exclude' in kind, any_of='any' in kind, **crit)
                for x, y in pairs:
                    equal(f(x), selected(y, kind, attrs, crit), 'filter', 'Filter %s %r %r on %r' % (kind, attrs, crit, y))
            queries.append((q2, m2))
            if d.bool(0.6):
                check(q2, m2, 'q%d' % (len(queries) - 1))
        elif op == 'order':
            r = d.bool(0.4)
            by = d.choice(ORDERS)
            d.show('q%d = q%d.order_by(%r, reverse=%r)' % (len(queries), i, by, r))
            queries.append((q.order_by(by, reverse=r), Model(m.base, m.distinct, by, r)))
            if len(m.base) > 1:
                d.hit('order')
        elif op == 'reverse':
            d.show('q%d = q%d.reverse()' % (len(queries), i))
            queries.append((q.reverse(), Model(m.results()[::-1], m.distinct)))
        elif op == 'set':
            j = d.int(0, len(queries) - 1)
            q2, m2 = queries[j]
            kind = d.choice(['union', 'intersection', 'difference'])
            l = d.int(0, len(queries) - 1) if d.bool(0.3) else None
            d.show('q%d = q%d.%s(q%d%s)' % (len(queries), i, kind, j, '' if l is None else ', q%d' % l))
            got = getattr(q, kind)(q2) if l is None else getattr(q, kind)(q2, queries[l][0])
            a, b, c = m.results(), m2.results(), [] if l is None else queries[l][1].results()
            if kind == 'union':
                want = Model(a + b + c, m.distinct, m.order, m.reverse if m.order else False)
            else:
                want = Model([x for x in a if all(any(x[1] == y[1] for y in o) == (kind == 'intersection') for o in ([b] if l is None else [b, c]))],
                             m.distinct)
            queries.append((got, want))
        elif op == 'results':
            d.show('list(q%d)' % i)
            check(q, m, 'q%d' % i)
        elif op == 'item':
            want = [x[0] for x in m.results()]
            what = d.choice(['first', 'last', 'count', 'len', 'isEmpty', 'index', 'slice', 'all', 'negative'])
            d.show('q%d %s' % (i, what))
            if what == 'first':
                require(q.first() is (want[0] if want else None), 'first', lambda: repr(q.first()))
            elif what == 'last':
                require(q.last() is (want[-1] if want else None), 'last', lambda: repr(q.last()))
            elif what == 'count':
                equal(q.count(), len(want), 'count', 'q%d' % i)
            elif what == 'len':
                equal(len(q), len(want), 'count', 'q%d' % i)
            elif what == 'isEmpty':
                equal(q.isEmpty(), not want, 'count', 'q%d' % i)
            elif what == 'index' and want:
                k = d.int(0, len(want) - 1)
                require(q[k] is want[k], 'index', lambda: 'q%d[%d]' % (i, k))
            elif what == 'slice':
                sl = slice(d.choice([None, 0, 1, 2, 3, 9]), d.choice([None, 0, 1, 2, 4, 6, 9]), d.choice([None, None, 1, 2, 3, -1, -2]))
                got = list(q[sl])
                require(len(got) == len(want[sl]) and all(x is y for x, y in zip(got, want[sl])), 'slice', lambda: 'q%d[%r]' % (i, sl))
            elif what == 'all':
                got = list(q.all())
                require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), 'all', lambda: 'q%d' % i)
            elif what == 'negative':
                r = outcome_all(lambda: q[-1])
                require(r[0] == 'reject', 'negative', lambda: 'q%d[-1] gave %r' % (i, r[1]))
        elif op == 'contains':
            x = d.choice(pairs)
            d.show('%r in q%d' % (x[1], i))
            equal(x[0] in q, any(y[1] == x[1] for y in m.results()), 'contains', 'q%d' % i)
        elif op == 'get':
            d.show('q%d.get(%r, %r)' % (i, attrs, crit))
            base = [x for x in m.base if selected(x[1], 'filter', attrs, crit)]
            if m.distinct:
                base = Model(base, True).results()
            r = outcome_all(lambda: q.get(*attrs, **crit))
            if len(base) == 1:
                d.hit('get')
                require(r == ('ok', base[0][0]), 'get', lambda: 'gave %r expected %r' % (r, base[0][1]))
            else:
                require(r[0] == 'reject', 'get', lambda: 'gave %r instead of one of %r' % (r, base))
        else:
            d.show('q%d.next(%r, %r)' % (i, attrs, crit))
            base = [x for x in m.base if selected(x[1], 'filter', attrs, crit)]
            r = outcome_all(lambda: q.next(*attrs, **crit))
            if base:
                d.hit('next')
                require(r[0] == 'ok' and r[1] is base[0][0], 'next', lambda: 'gave %r expected %r' % (r, base[0][1]))
            else:
                require(r[0] == 'reject', 'next', lambda: 'gave %r' % (r,))
        if op in ('filter', 'get', 'next'):
            require(crit == given, 'criteria-modified', lambda: '%r became %r' % (given, crit))
    order = list(enumerate(queries))
    for i, (q, m) in d.shuffle(order):
        check(q, m, 'finally q%d' % i)
    require(len(live) == len(before) and all(x is y for x, y in zip(live, before)), 'source-modified', lambda: 'the source list became %r' % live)
    if not objs:
        require([o for o in live] == [p[1] for p in pairs], 'source-modified', lambda: '%r became %r' % ([p[1] for p in pairs], live))


def outcome_all(fn):
    try:
        return 'ok', fn()
    except StopIteration as er:
        return 'reject', er
    except AssertionError as er:
        return 'reject', er
    except Exception as er:
        if type(er) is not Exception:
            raise
        return 'reject', er


TESTS = [
    Test('history', prop_history, 12000),
]
