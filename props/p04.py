# -*- coding: utf-8 -*-
"""P04: arrays evaluate item by item."""
from decimal import Decimal

from pbt.common import *
from ngoschema import types
from props.p01 import gen_schema, gen_value, gen_member, ref_evaluate, ref_valid, ref_convert, REJECTED, num_eq

META = dict(
    title='Arrays evaluate item by item and enforce their own constraints',
    statement="Evaluating a value as an array returns one item per given item, in the order given, each converted and validated by the "
              "type declared for its position; a scalar makes an array of one item, a delimited string is split when asked for, missing items are filled up "
              "to minItems and a missing value (None or an empty string) takes the default. "
              "The evaluation is rejected exactly when an item is rejected, there are more than maxItems items, or uniqueItems is asked for and two items are equal. "
              "Serializing gives back plain serialized items in the same order, or the same items joined by the delimiter, and the value submitted is left untouched.",
    over=['inputs', 'configurations'],
    quantifier='every items schema (one or one per position, scalar or nested arrays), array constraints, submitted value and evaluation options',
    why='test_array evaluates two arrays of four items and one padded array; rejected items, uniqueness, limits, nesting, '
        'per-position types, splitting and serialization are not tested.',
    files=['ngoschema/types/array.py', 'ngoschema/types/collection.py', 'ngoschema/protocols/array_protocol.py',
           'ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/serializer.py'],
    mechanism=[('padding, splitting, wrapping', 'ngoschema/types/array.py:ArrayDeserializer._deserialize'),
               ('item types by position', 'ngoschema/types/array.py:Array._items_types'),
               ('per item conversion and validation', 'ngoschema/types/collection.py:Collection._evaluate'),
               ('array constraints', 'ngoschema/types/array.py:ArrayDeserializer._validate')],
    observe=['returned list, or items of the returned array object', 'validation error', 'serialized value', 'submitted value'],
    oracle='a reference evaluator of arrays built on the scalar reference evaluator',
    level_note='Random exploration: about 4500 arrays per quick run. Trusts the reference evaluator.',
)
RULE = ('A case is a generated array schema and a value submitted through one entry point. Non-trivial: the array has '
        'at least one item which is converted, filled, split or decides a rejection.')
ASSUMPTIONS = ['items with a default are never None nor filled in (which entry points apply the default of an item is not claimed)',
               'empty mappings submitted for a whole array are outside of the domain',
               'arrays of types which differ are not compared for uniqueness']


def norm(x):
    if isinstance(x, ArrayProtocol) or isinstance(x, (list, tuple)):
        return [norm(i) for i in x]
    if isinstance(x, ObjectProtocol):
        return {k: norm(x[k]) for k in x}
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return x


def same_items(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_items(x, y) for x, y in zip(a, b))
    return num_eq(a, b) and (a is None) == (b is None)


def gen_item_schema(d, depth=1):
    if depth and d.bool(0.2):
        return gen_array_schema(d, depth - 1)
    if d.bool(0.5):
        return {'type': d.choice(['integer', 'string', 'number', 'boolean'])}
    return gen_schema(d)


def gen_array_schema(d, depth=1):
    s = {'type': 'array'}
    if d.bool(0.25):
        s['items'] = d.list(lambda d: gen_item_schema(d, depth), 1, 4)
    elif d.bool(0.9):
        s['items'] = gen_item_schema(d, depth)
    if d.bool(0.25):
        s['minItems'] = d.int(1, 4)
    if d.bool(0.25):
        s['maxItems'] = d.int(1, 4) if d.bool(0.85) else 0
    if d.bool(0.2):
        s['uniqueItems'] = True
    return s


def item_schema(s, i):
    items = s.get('items')
    if isinstance(items, list):
        # what comes after the list of types is not restricted
        return items[i] if i < len(items) else None
    return items


def gen_array_value(d, s, typed=False):
    hi = 5
    if isinstance(s.get('items'), list):
        hi = len(s['items']) + 2

    def item(d, i):
        sch = item_schema(s, i)
        if sch is None:
            return d.choice([1, 'a', None, 2.5, True, 'b c'])
        if sch['type'] == 'array':
            return gen_array_value(d, sch, typed)
        if typed:
            return ref_convert(sch['type'], gen_member(d, sch['type']))
        # mostly values the type can convert, so that whole arrays are often accepted
        return gen_member(d, sch['type']) if d.bool(0.7) else gen_value(d, sch['type'])
    n = d.int(0, hi)
    vals = []
    for i in range(n):
        vals.append(vals[-1] if vals and not isinstance(s.get('items'), list) and d.bool(0.12) else item(d, i))
    return vals


def ref_array(s, v, convert=True, validate=True, typed_default=False):
    if v is None or v == '':
        v = s.get('default') or []
    if isinstance(v, str):
        v = [x.strip() for x in v.split(s.get('strDelimiter', ','))] if s.get('splitString') else [v]
    elif not isinstance(v, (list, tuple)):
        v = [v]
    v = list(v)
    v += [None] * (s.get('minItems', 0) - len(v))
    out = []
    for i, x in enumerate(v):
        if isinstance(s.get('items'), list) and i >= len(s['items']):
            out.append(x)
            continue
        sch = item_schema(s, i)
        if sch is None:
            out.append(x)
        elif sch['type'] == 'array':
            r = None if x is None else ref_array(sch, x, convert, validate)
            if r is REJECTED:
                return REJECTED
            out.append(r)
        else:
            r = ref_evaluate(sch, x, convert, validate)
            if r is REJECTED:
                return REJECTED
            out.append(r)
    if validate:
        if s.get('maxItems') is not None and len(out) > s['maxItems']:
            return REJECTED
        if s.get('uniqueItems'):
            xs = [x for x in out if x is not None]
            if any(same_or_equal(x, y) for i, x in enumerate(xs) for y in xs[:i]):
                return REJECTED
    return out


def same_or_equal(x, y):
    # python equality, as used by the containers of the language
    return x == y


def wrong_types(s, v):
    """a falsy non-array given where an array is expected"""
    return not isinstance(v, (list, tuple, str, int, float)) and not v and v is not None


def bad_domain(s, v):
    if s.get('uniqueItems') and isinstance(s.get('items'), list) and any(i['type'] == 'array' for i in s['items']):
        # whether arrays of different types are equal is not specified
        return True
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            sch = item_schema(s, i)
            if sch is not None and sch['type'] == 'array' and (x is None or not isinstance(x, (list, str)) or bad_domain(sch, x)):
                return True
        sch = item_schema(s, 0) if s.get('items') else None
        if s.get('minItems', 0) > len(v):
            return any(item_schema(s, i) is not None and item_schema(s, i)['type'] == 'array' for i in range(len(v), s['minItems']))
    elif isinstance(s.get('items'), list):
        return True
    elif v is not None and s.get('items') and s['items']['type'] == 'array':
        return True
    return wrong_types(s, v)


def item_defaults(s):
    items = s.get('items') or []
    return any('default' in i or item_defaults(i) for i in (items if isinstance(items, list) else [items]))


def prop_evaluate(d):
    s = gen_array_schema(d)
    form = d.weighted((10, 'list'), (2, 'tuple'), (2, 'scalar'), (3, 'split'), (1, 'none'), (2, 'varargs'))
    v = gen_array_value(d, s)
    if form == 'tuple':
        v = tuple(v)
    elif form == 'scalar':
        v = d.choice([3, 0, False, 'abc', Decimal('2.5'), True, '12'])
    elif form == 'none':
        v = d.choice([None, '', []])
    if form in ('none', 'scalar'):
        if d.bool() and isinstance(s.get('items'), dict) and s['items']['type'] != 'array':
            s['default'] = [gen_member(d, s['items']['type']) for _ in range(d.int(1, 3))]
    elif form == 'split':
        s['items'] = {'type': d.choice(['integer', 'string', 'number'])}
        delim = d.choice([',', ';', '|'])
        s['splitString'] = True
        if delim != ',':
            s['strDelimiter'] = delim
        xs = d.list(lambda d: str(gen_member(d, 'integer')) if s['items']['type'] != 'string' else d.text('abc', 0, 3), 1, 4)
        v = (delim + d.choice(['', ' '])).join(xs)
    if bad_domain(s, v) or bad_domain(s, []):
        raise Discard()
    if item_defaults(s):
        # whether the default of an item replaces an item which is None depends on the entry point
        v2 = list(v) if isinstance(v, (list, tuple)) else [v]
        if None in v2 or len(v2) < s.get('minItems', 0) or not v:
            raise Discard()
    d.show('%r of %r (%s)' % (s, v, form))
    want = ref_array(s, v)
    if want is REJECTED:
        d.hit('rejected')
    elif want:
        d.hit(form)
    before = repr(v)
    kws = {k: x for k, x in s.items() if k != 'type'}
    mode = d.choice(['type', 'class', 'property', 'assign'])
    d.note(mode)
    if form == 'varargs' and mode == 'type' and len(v) > 1:
        got = outcome(lambda: types.Array(**kws)(*v))
    elif mode == 'type':
        got = outcome(types.Array(**kws), v)
    elif mode == 'class':
        got = outcome(build(s), v)
    else:
        if v is None or v == '' or v == []:
            raise Discard()
        C = make_class({'type': 'object', 'properties': {'p': s}})
        if mode == 'property':
            got = outcome(lambda: C(p=v).p)
        else:
            o = outcome(C)
            if o[0] == 'reject':
                raise Discard()

            def assign():
                o[1].p = v
                return o[1].p
            got = outcome(assign)
    what = '%s of %r under %r' % (mode, v, s)
    if want is REJECTED:
        require(got[0] == 'reject', 'accepted', lambda: '%s returned %r' % (what, norm(got[1])))
    else:
        require(got[0] == 'ok', 'rejected', lambda: '%s was rejected: %s expected %r' % (what, str(got[1])[:300], want))
        require(isinstance(got[1], list if mode == 'type' else ArrayProtocol), 'array-type', lambda: '%s returned a %s' % (what, type(got[1])))
        require(same_items(norm(got[1]), want), 'items', lambda: '%s returned %r expected %r' % (what, norm(got[1]), want))
        if mode == 'type':
            ser = types.Array(**kws)(v, serialize=True)
        else:
            ser = got[1].do_serialize()
        require(type(ser) is list and same_items(ser, want), 'serialize', lambda: '%s serialized %r expected %r' % (what, ser, want))
    require(repr(v) == before, 'input-modified', lambda: '%s changed %s into %r' % (what, before, v))


def prop_options(d):
    """convert=False / validate=False on typed values"""
    s = gen_array_schema(d, 0)
    s.pop('minItems', None)
    v = gen_array_value(d, s, typed=True)
    if bad_domain(s, v) or not v:
        raise Discard()
    opts = d.choice([{'convert': False}, {'validate': False}, {}])
    d.show('%r of %r with %r' % (s, v, opts))
    d.hit()
    kws = {k: x for k, x in s.items() if k != 'type'}
    want = ref_array(s, v, validate=opts.get('validate', True))
    got = outcome(types.Array(**kws), v, **opts)
    if want is REJECTED:
        require(got[0] == 'reject', 'accepted', lambda: '%r with %r under %r returned %r' % (v, opts, s, got[1]))
    else:
        require(got[0] == 'ok' and same_items(norm(got[1]), want), 'items',
                lambda: '%r with %r under %r returned %r expected %r' % (v, opts, s, got[1], want))


def prop_string(d):
    ty = d.choice(['integer', 'string', 'number', 'boolean'])
    delim = d.choice([',', ';', ' - '])
    vals = d.list(lambda d: gen_member(d, ty) if ty != 'string' else d.text('abc', 0, 3), 1, 4)
    if ''.join(map(str, vals)) == '' and len(vals) == 1:
        raise Discard()  # an empty string is a missing array
    kws = {'items': {'type': ty}, 'splitString': True, 'strDelimiter': delim}
    d.show('%r joined by %r' % (vals, delim))
    d.hit(ty)
    typed = [ref_convert(ty, v) for v in vals]
    mode = d.choice(['type', 'class', 'instance'])
    if mode == 'type':
        T = types.Array(**kws)
        s = T(vals, serialize=True, as_string=True)
        back = T(s)
    else:
        T = build(dict(kws, type='array'))
        s = T(vals).do_serialize(as_string=True) if mode == 'instance' else T.serialize(vals, as_string=True)
        back = list(T(s))
    equal(s, delim.join(str(v) for v in typed), 'as-string', '%s %r' % (mode, vals))
    require(same_items(back, typed), 'split', lambda: '%r split into %r' % (s, back))
    # split asked at the call
    T = types.Array(items={'type': ty})
    if delim == ',':
        require(same_items(T(s, split_string=True), typed), 'split', lambda: '%r split into %r' % (s, T(s, split_string=True)))
    asked = T(s, split_string=True, strDelimiter=delim)
    require(same_items(asked, typed), 'split', lambda: '%r split by %r into %r' % (s, delim, asked))
    if ty == 'string':
        require(T(s) == [s] and T(s, split_string=False) == [s], 'split', lambda: '%r was split' % s)


def prop_many(d):
    vals = d.list(lambda d: d.int(1, 9), 0, 3)
    many = d.bool()
    d.show('many=%r %r' % (many, vals))
    d.hit()
    got = outcome(types.Array(items={'type': 'integer'}, many=many), vals)
    if len(vals) > 1 and not many:
        require(got[0] == 'reject', 'many', lambda: '%r accepted with many=False' % vals)
    else:
        require(got == ('ok', vals), 'many', lambda: '%r gave %r' % (vals, got[1]))


TESTS = [
    Test('evaluate', prop_evaluate, 3000),
    Test('options', prop_options, 700),
    Test('string', prop_string, 600),
    Test('many', prop_many, 200),
]
