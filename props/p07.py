# -*- coding: utf-8 -*-
"""P07: an array of a schema class behaves as a validated list, whatever the history."""
from pbt.common import *
from props.p01 import gen_schema, gen_member, gen_value, ref_evaluate, REJECTED
from props.p04 import norm, same_items

META = dict(
    title='An array object is a validated list, whatever the history of accesses',
    statement="After any sequence of insertions, appends, extensions, assignments, deletions, pops, removals, reversals and reads, an array object holds the items a list would hold, "
              "each converted by the type of the items, or the one of its position and anything beyond, templates following the object which holds the array; len, iteration, in, index, count, reversed, get, equality with an array of the same class and copies agree with it. "
              "An item which is not acceptable for its type and an insertion beyond maxItems or breaking uniqueItems are refused, and a refused operation leaves the array as it was. "
              "With lazy loading items are refused when they are read instead of when they are given; array properties of objects behave the same.",
    over=['histories', 'inputs', 'configurations'],
    quantifier='every item schema (scalars, objects, one per position, templates), constraints of the array, eager or lazy, and every sequence of list operations',
    why='no test modifies an array object: the existing ones evaluate lists given at once.',
    files=['ngoschema/protocols/array_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/array.py',
           'ngoschema/types/collection.py'],
    mechanism=[('insertion', 'ngoschema/protocols/array_protocol.py:ArrayProtocol.insert'),
               ('assignment, reading, deletion', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol.__setitem__'),
               ('constraints of the array', 'ngoschema/types/array.py:ArrayDeserializer._validate'),
               ('equality and copies', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol.__eq__')],
    observe=['items read by index and iteration, len, membership, refusals, serialization'],
    oracle='a python list with the scalar reference evaluator',
    level_note='Random exploration: about 4000 histories of up to 12 operations per quick run.',
)
RULE = ('A case is a generated array class and a history of operations on one instance, compared with a list after each operation. '
        'Non-trivial: at least one operation which changes the array or is refused.')
ASSUMPTIONS = ['slices are not generated (not supported by the assignment); None and falsy whole values are not given',
               'uniqueItems is claimed for insertions only: assignments do not check it again (the library reverses arrays in place item by item)',
               'items with a type per position are added, removed at the end and assigned']


class Model:
    def __init__(self, d):
        self.item = gen_schema(d) if d.bool(0.8) else None
        if self.item:
            self.item.pop('default', None)
        self.obj = self.item is None and d.bool(0.7)
        if self.obj:
            self.item = {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'y': {'type': 'string', 'default': 'u'}}}
        s = {'type': 'array'}
        if self.item:
            s['items'] = self.item
        self.max = d.int(2, 6) if d.bool(0.3) else None
        if self.max:
            s['maxItems'] = self.max
        # lazy arrays hold values which are not converted yet: two of them can be equal once converted
        self.unique = d.bool(0.25)
        self.lazy = d.bool(0.3)
        if self.lazy:
            s['lazyLoading'] = True
            self.unique = False
        if self.unique:
            s['uniqueItems'] = True
        self.schema = s

    def conv(self, v):
        if self.item is None:
            return v
        if self.obj:
            r = dict(v)
            for k in r:
                if k == 'x':
                    r[k] = ref_evaluate({'type': 'integer'}, r[k])
                    if r[k] is REJECTED:
                        return REJECTED
                elif k == 'y':
                    r[k] = ref_evaluate({'type': 'string'}, r[k])
            r.setdefault('x', None)
            r.setdefault('y', 'u')
            return r
        return ref_evaluate(self.item, v)

    def gen(self, d):
        if self.item is None:
            return d.choice([1, 'a', 2.5, 'b', True])
        if self.obj:
            v = {'x': d.choice([1, '2', 3, 'bad', 5])} if d.bool(0.8) else {}
            if d.bool(0.3):
                v['y'] = d.choice(['s', 4])
            return v or {'x': 1}
        t = self.item['type']
        if d.bool(0.75):
            for _ in range(5):
                v = gen_member(d, t)
                if self.conv(v) is not REJECTED:
                    return v
        v = gen_value(d, t)
        return gen_member(d, t) if v is None else v

    def refused_insert(self, L, v):
        c = self.conv(v)
        if c is REJECTED:
            return not self.lazy
        if self.max is not None and len(L) + 1 > self.max:
            return True
        return self.unique and any(norm(x) == norm(c) for x in L)


def dup(L):
    return any(x == y for i, x in enumerate(L) for y in L[:i])


def deny(fn):
    try:
        return 'ok', fn()
    except REJECT as er:
        return 'reject', er


def check_array(m, a, L, what):
    """L holds the raw values; a list compared item by item"""
    require(len(a) == len(L), 'len', lambda: '%s: len is %d expected %d' % (what, len(a), len(L)))
    want = [m.conv(v) for v in L]
    for i, w in enumerate(want):
        for j in (i, i - len(L)):
            got = deny(lambda: a[j])
            if w is REJECTED:
                require(got[0] == 'reject', 'not-refused', lambda: '%s: [%d] gave %r' % (what, j, got[1]))
            else:
                require(got[0] == 'ok', 'refused', lambda: '%s: [%d] was refused %r' % (what, j, got[1]))
                require(same(norm(got[1]), w), 'item', lambda: '%s: [%d] gave %r expected %r' % (what, j, norm(got[1]), w))
    if any(w is REJECTED for w in want):
        return
    require(same(norm(a), want) and same([norm(x) for x in a], want), 'items', lambda: '%s: %r expected %r' % (what, norm(a), want))
    require(same([norm(x) for x in reversed(a)], want[::-1]), 'reversed', lambda: '%s: reversed %r' % (what, list(reversed(a))))
    try:
        a[len(L)]
    except IndexError:
        pass
    else:
        raise Violation('index', '%s: [%d] exists' % (what, len(L)))


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return same_items(a, b)


def prop_history(d):
    m = Model(d)
    init = []
    for _ in range(d.int(0, 4)):
        v = m.gen(d)
        if m.conv(v) is not REJECTED and not m.refused_insert([m.conv(x) for x in init], v):
            init.append(v)
    d.show('%r of %r' % (m.schema, init))
    if d.bool(0.3):
        o = make_class({'type': 'object', 'properties': {'p': m.schema}})(p=init)
        get = lambda: o.p
        A = type(o.p)
    else:
        A = build(m.schema)
        arr = A(init)
        get = lambda: arr
    L = list(init)
    check_array(m, get(), L, 'after the construction')
    for _ in range(d.int(1, 12)):
        d.span(lambda d: step(d, m, get, L, A))
    d.note('lazy' if m.lazy else 'eager')


def step(d, m, get, L, A):
    a = get()
    op = d.weighted((4, 'insert'), (5, 'append'), (2, 'extend'), (2, 'iadd'), (4, 'set'), (3, 'del'), (2, 'pop'), (1, 'remove'),
                    (1, 'reverse'), (1, 'clear'), (2, 'search'), (2, 'copy'), (1, 'equal'), (1, 'serialize'))
    conv = lambda: [m.conv(x) for x in L]
    pending = any(c is REJECTED for c in conv())
    if op in ('insert', 'append'):
        v = m.gen(d)
        i = d.int(-len(L) - 2, len(L) + 2) if op == 'insert' else len(L)
        what = 'insert(%d, %r)' % (i, v) if op == 'insert' else 'append(%r)' % (v,)
        d.show(what)
        d.hit(op)
        refused = m.refused_insert(conv(), v)
        if m.lazy and not refused and m.max is not None and len(L) + 1 > m.max:
            refused = True
        got = deny(lambda: a.insert(i, v) if op == 'insert' else a.append(v))
        require((got[0] == 'reject') == refused, 'refusal', lambda: '%s on %r was %s %r' % (what, L, 'accepted' if refused else 'refused', got[1]))
        if refused:
            d.note('refused')
        else:
            L.insert(i, v)
    elif op in ('extend', 'iadd'):
        vs = [m.gen(d) for _ in range(d.int(0, 3))]
        what = '%s(%r)' % (op, vs)
        d.show(what)
        d.hit(op)

        def fn():
            b = a
            if op == 'extend':
                b.extend(vs)
            else:
                b += vs
        got = deny(fn)
        ok = True
        for v in vs:
            if m.refused_insert(conv(), v) or m.lazy and m.max is not None and len(L) + 1 > m.max:
                ok = False
                break
            L.append(v)
        require((got[0] == 'ok') == ok, 'refusal', lambda: '%s on %r was %s %r' % (what, L, 'refused' if ok else 'accepted', got[1]))
    elif op == 'set':
        if not L:
            return
        i = d.int(-len(L), len(L) - 1)
        v = m.gen(d)
        if m.unique and any(x == m.conv(v) for j, x in enumerate(conv()) if j != i % len(L)):
            return
        what = '[%d] = %r' % (i, v)
        d.show(what)
        d.hit('set')
        refused = m.conv(v) is REJECTED and not m.lazy
        got = deny(lambda: a.__setitem__(i, v))
        require((got[0] == 'reject') == refused, 'refusal', lambda: '%s on %r was %s %r' % (what, L, 'accepted' if refused else 'refused', got[1]))
        if refused:
            d.note('refused')
        else:
            L[i] = v
    elif op in ('del', 'pop'):
        if not L or pending and op == 'pop':
            return
        i = d.int(-len(L), len(L) - 1)
        what = '%s(%d)' % (op, i)
        d.show(what)
        d.hit(op)
        if op == 'del':
            del a[i]
            del L[i]
        else:
            got = a.pop(i) if i != len(L) - 1 or d.bool() else a.pop()
            w = m.conv(L.pop(i))
            require(same(norm(got), w), 'pop', lambda: '%s gave %r expected %r' % (what, got, w))
    elif op == 'remove':
        if not L or pending:
            return
        i = d.int(0, len(L) - 1)
        v = a[i]
        d.show('remove(item %d)' % i)
        d.hit(op)
        a.remove(v)
        c = conv()
        first = next(j for j, x in enumerate(c) if same(x, c[i]) or x == c[i])
        del L[first]
    elif op == 'reverse':
        if pending:
            return
        d.show('reverse()')
        d.hit(op)
        a.reverse()
        L.reverse()
    elif op == 'clear':
        if pending or not d.bool(0.3):
            return
        d.show('clear()')
        a.clear()
        del L[:]
    elif op == 'search':
        if pending or m.obj:
            return
        c = conv()
        v = d.choice(c) if c and d.bool(0.7) else 'no such item'
        d.show('search %r' % (v,))
        require((v in a) == (v in c), 'in', lambda: '%r in %r' % (v, c))
        equal(a.count(v), c.count(v), 'count', repr(v))
        if v in c:
            equal(a.index(v), c.index(v), 'index', repr(v))
        else:
            try:
                a.index(v)
            except ValueError:
                pass
            else:
                raise Violation('index', 'index of %r in %r' % (v, c))
    elif op == 'copy':
        if pending or not L:
            return
        d.show('copy, then change the copy')
        b = a.copy()
        require(type(b) is A and b == a and a == b, 'copy', lambda: 'the copy %r is not equal to %r' % (b, a))
        i = d.int(0, len(b) - 1)
        del b[i]
        require(not b == a and not a == b, 'equality', lambda: 'equal without item %d' % i)
    elif op == 'equal':
        if pending or not L:
            return
        b = A([norm(x) for x in a])
        require(a == b, 'equality', lambda: '%r != %r' % (a, b))
        if m.item and m.item['type'] == 'string' and not dup(conv()):
            c = conv()
            if len(c) > 1 and c[0] != c[1]:
                require(not a == A(c[1::-1] + c[2:]), 'equality', lambda: 'equal in another order: %r' % c)
    elif op == 'serialize':
        if pending:
            return
        got = a.do_serialize(no_defaults=False)
        require(type(got) is list and same(norm([plain(x) for x in got]), conv()), 'serialize', lambda: 'serialized %r expected %r' % (got, conv()))
    if get() is not a:
        raise Violation('identity', 'the array of the property is another object')
    check_array(m, a, L, 'after %s' % (d.desc[-1] if d.desc else ''))


def prop_tuple(d):
    """an array with a type per position, and anything after the last one"""
    sch = d.list(lambda d: gen_schema(d), 1, 3)
    for x in sch:
        x.pop('default', None)
    s = {'type': 'array', 'items': sch}
    lazy = d.bool(0.3)
    if lazy:
        s['lazyLoading'] = True

    def conv(i, v):
        return ref_evaluate(sch[i], v) if i < len(sch) else v

    def gen(i):
        if i >= len(sch):
            return d.choice([1, 'a', 2.5, 'b', True, '3'])
        for _ in range(5):
            v = gen_member(d, sch[i]['type']) if d.bool(0.7) else gen_value(d, sch[i]['type'])
            if v is not None and (d.bool(0.1) or conv(i, v) is not REJECTED):
                return v
        return gen_member(d, sch[i]['type'])
    L = []
    for i in range(d.int(0, len(sch) + 2)):
        v = gen(i)
        if conv(i, v) is REJECTED:
            break
        L.append(v)
    d.show('%r of %r' % (s, L))
    if d.bool(0.3):
        a = make_class({'type': 'object', 'properties': {'p': s}})(p=list(L)).p
    else:
        a = build(s)(list(L))

    def check(what):
        want = [conv(i, v) for i, v in enumerate(L)]
        require(len(a) == len(L), 'len', lambda: '%s: len is %d expected %d' % (what, len(a), len(L)))
        for i, w in enumerate(want):
            for j in d.shuffle([i, i - len(L)]):
                got = deny(lambda: a[j])
                if w is REJECTED:
                    require(got[0] == 'reject', 'not-refused', lambda: '%s: [%d] gave %r' % (what, j, got[1]))
                else:
                    require(got[0] == 'ok' and same(norm(got[1]), w), 'item', lambda: '%s: [%d] gave %r expected %r' % (what, j, got[1], w))
        if REJECTED not in [w for w in want if w is REJECTED]:
            require(same(norm(list(a)), want), 'items', lambda: '%s: %r expected %r' % (what, list(a), want))
            ser = deny(lambda: a.do_serialize(no_defaults=False))
            require(ser[0] == 'ok' and same(norm(ser[1]), want), 'serialize', lambda: '%s: serialized %r expected %r' % (what, ser[1], want))
    check('after the construction')
    for _ in range(d.int(1, 6)):
        op = d.weighted((4, 'append'), (6, 'set'), (2, 'pop'), (1, 'del'))
        if op == 'append':
            i = len(L)
            v = gen(i)
            d.show('append(%r)' % (v,))
            got = deny(lambda: a.append(v))
        elif not L:
            continue
        elif op == 'set':
            i = d.int(-len(L), len(L) - 1)
            v = gen(i % len(L))
            d.show('[%d] = %r' % (i, v))
            got = deny(lambda: a.__setitem__(i, v))
            i = i % len(L)
        else:
            # the last one, for the others keep their position
            if conv(len(L) - 1, L[-1]) is REJECTED and op == 'pop':
                continue
            d.show(op)
            d.hit(op)
            i = d.choice([-1, len(L) - 1])
            if op == 'pop':
                a.pop(i)
            else:
                del a[i]
            L.pop()
            check(op)
            continue
        d.hit(op)
        refused = conv(i, v) is REJECTED and not lazy
        require((got[0] == 'reject') == refused, 'refusal', lambda: '%s %r at %d of %r was %s %r' % (op, v, i, L, 'accepted' if refused else 'refused', got[1]))
        if not refused:
            L[i:i + 1] = [v]
        check('%s %r' % (op, v))


def prop_templates(d):
    """items given as templates follow the object which holds the array, wherever they are moved to"""
    s = {'type': 'object', 'properties': {'n': {'type': 'string'}, 'm': {'type': 'string'},
                                          'p': {'type': 'array', 'items': {'type': 'string'}}}}
    if d.bool(0.3):
        s['properties']['p']['lazyLoading'] = True
    word = lambda: d.text('abxy', 1, 3)
    ctx = {'n': word(), 'm': word()}

    def gen():
        return d.choice([word(), '{{this.n}}', '{{n}}', '{{this.m}}', '{{this.n}}-{{m}}', 'z{{m}}'])

    def value(t):
        for k in ctx:
            t = t.replace('{{this.%s}}' % k, ctx[k]).replace('{{%s}}' % k, ctx[k])
        return t
    L = d.list(lambda d: gen(), 0, 4)
    o = make_class(s)(p=list(L), **ctx)
    d.show('%r with %r' % (L, ctx))
    for _ in range(d.int(1, 9)):
        a = o.p
        op = d.weighted((5, 'context'), (2, 'insert'), (2, 'append'), (2, 'set'), (2, 'del'), (1, 'pop'), (1, 'refused'), (1, 'read'))
        if op == 'context':
            k = d.choice(['n', 'm'])
            ctx[k] = word()
            d.show('%s = %r' % (k, ctx[k]))
            d.hit(op)
            o[k] = ctx[k]
        elif op == 'insert':
            v, i = gen(), d.int(-len(L) - 1, len(L) + 1)
            d.show('insert(%d, %r)' % (i, v))
            a.insert(i, v)
            L.insert(i, v)
        elif op == 'append':
            v = gen()
            d.show('append(%r)' % v)
            a.append(v)
            L.append(v)
        elif op == 'refused':
            # nothing changes, the template which was there is still one
            v = {'not': 'a string'} if d.bool() else ['x', 'y']
            i = d.int(0, len(L))
            try:
                if i < len(L):
                    before = list(L)
                    a[i] = v
                else:
                    a.append(v)
            except REJECT:
                pass
            else:
                raise Discard()
        elif not L:
            continue
        elif op == 'set':
            v, i = gen(), d.int(-len(L), len(L) - 1)
            d.show('[%d] = %r' % (i, v))
            a[i] = v
            L[i] = v
        elif op == 'del':
            i = d.int(-len(L), len(L) - 1)
            d.show('del [%d]' % i)
            del a[i]
            del L[i]
        elif op == 'pop':
            i = d.int(-len(L), len(L) - 1)
            d.show('pop(%d)' % i)
            got, want = a.pop(i), value(L.pop(i))
            require(got == want, 'pop', lambda: 'pop(%d) gave %r expected %r' % (i, got, want))
        if d.bool(0.7) or op == 'read':
            want = [value(t) for t in L]
            require(list(o.p) == want, 'template', lambda: 'after %s: %r expected %r' % (d.desc[-1], list(o.p), want))
    want = [value(t) for t in L]
    for i in d.shuffle(range(-len(L), len(L))):
        require(o.p[i] == want[i], 'template', lambda: '[%d] gave %r expected %r' % (i, o.p[i], want[i]))
    ser = o.do_serialize(no_defaults=False)
    require(list(ser['p']) == want, 'template', lambda: 'serialized %r expected %r' % (ser['p'], want))


def plain(x):
    return dict(x) if hasattr(x, 'keys') else x


TESTS = [
    Test('history', prop_history, 2400),
    Test('tuple', prop_tuple, 1200),
    Test('templates', prop_templates, 600),
]
