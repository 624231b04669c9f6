# -*- coding: utf-8 -*-
"""P05: objects evaluate property by property."""
from pbt.common import *
from ngoschema import types
from props.p01 import gen_schema, gen_member, gen_value, ref_evaluate, ref_convert, ref_valid, REJECTED, num_eq
from props.p04 import norm, same_items, ref_array, gen_array_schema, gen_array_value, bad_domain, item_defaults

META = dict(
    title='Objects evaluate property by property and enforce their own constraints',
    statement="Submitting a mapping (or keywords) to an object type gives the same keys, each value converted and validated by the type which the schema "
              "declares for that key: its property, else a pattern property matching the key, else the additional properties; declared properties not given take their default or None. "
              "The evaluation is rejected exactly when one of the values is rejected, when an undeclared key is given while additional properties are not allowed, or when a required key which is not declared is missing. "
              "The decision and the values are the same for a plain object type, a class built from the schema, a nested property, an array item and a sub-object behind a reference, and the mapping submitted is left untouched.",
    over=['inputs', 'configurations'],
    quantifier='every object schema (properties of scalar, array and nested object types, pattern and additional properties, required, defaults), every submitted mapping and every entry point',
    why='test_object_protocol builds objects of one or two scalar properties; pattern properties, typed additional properties, nesting, '
        'rejections and the agreement between the ways to build an object are not tested.',
    files=['ngoschema/types/object.py', 'ngoschema/types/collection.py', 'ngoschema/protocols/object_protocol.py',
           'ngoschema/protocols/collection_protocol.py', 'ngoschema/managers/type_builder.py', 'ngoschema/types/constants.py'],
    mechanism=[('type of a key', 'ngoschema/types/object.py:Object._items_type'),
               ('defaults and missing properties', 'ngoschema/types/object.py:Object._deserialize'),
               ('additional and required keys', 'ngoschema/types/object.py:Object._validate'),
               ('conversion item by item', 'ngoschema/types/collection.py:Collection._convert'),
               ('evaluation on access', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol._items_evaluate')],
    observe=['returned mapping or items of the object', 'rejection', 'submitted mapping'],
    oracle='a reference evaluator of objects built on the scalar and array reference evaluators',
    level_note='Random exploration: about 3200 objects per quick run. Trusts the reference evaluator.',
)
RULE = ('A case is a generated object schema, a generated mapping and an entry point. Non-trivial: at least one value is '
        'converted, filled with a default, or decides a rejection.')
ASSUMPTIONS = ['None is not given for a property which has a default or which is declared by a pattern; arrays with one schema per position receive at most that many items',
               'a key matching several patterns is not generated (the library keeps the patterns in a set)',
               'a declared required property which is not given is None (pinned by the comments of the code), it is not generated here']

PATTERNS = [('^x', ['x', 'x1', 'xy']), ('_n$', ['a_n', 'k_n']), ('^p[0-9]+$', ['p1', 'p22'])]
NAMES = ['a', 'b', 'c', 'd']
EXTRA = ['e1', 'f', 'zz']


def gen_prop(d, depth):
    k = d.weighted((6, 'scalar'), (2, 'array'), (3 if depth else 0, 'object'))
    if k == 'scalar':
        return gen_schema(d)
    if k == 'array':
        while True:
            s = gen_array_schema(d, 0)
            if not item_defaults(s) and not isinstance(s.get('items'), list):
                s.pop('minItems', None)
                return s
    return gen_object_schema(d, depth - 1)


def gen_object_schema(d, depth=1):
    s = {'type': 'object'}
    names = d.subset(NAMES, 0.6)
    if names:
        s['properties'] = {n: gen_prop(d, depth) for n in names}
    if d.bool(0.3):
        s['patternProperties'] = {p: gen_schema(d) for p, _ in d.subset(PATTERNS, 0.5)}
        for t in s['patternProperties'].values():
            t.pop('default', None)
    ap = d.weighted((6, None), (3, False), (3, 'typed'), (1, True))
    if ap == 'typed':
        s['additionalProperties'] = gen_schema(d)
        s['additionalProperties'].pop('default', None)
    elif ap is not None:
        s['additionalProperties'] = ap
    return s


def gen_for(d, sch, good):
    t = sch.get('type')
    if t == 'object':
        return gen_object_value(d, sch, good)
    if t == 'array':
        v = gen_array_value(d, sch)
        return v or [None] if d.bool(0.2) else v
    if d.bool(good):
        for _ in range(6):
            v = gen_member(d, t)
            if ref_evaluate(sch, v) is not REJECTED:
                return v
    return gen_value(d, t)


def gen_object_value(d, s, good=0.9):
    v = {}
    for n, sch in s.get('properties', {}).items():
        if d.bool(0.8):
            x = gen_for(d, sch, good)
            if x is None and 'default' in sch:
                continue
            v[n] = x
    for p in s.get('patternProperties', {}):
        if d.bool(0.6):
            v[d.choice(dict(PATTERNS)[p])] = gen_for(d, s['patternProperties'][p], good)
    ap = s.get('additionalProperties', True)
    if d.bool(0.15 if ap is False else 0.4):
        k = d.choice(EXTRA)
        if isinstance(ap, dict):
            v[k] = gen_for(d, ap, good)
        else:
            v[k] = d.choice([1, 'text', 2.5, None, True, [1, 'b'], {'q': 1}])
    if d.bool(0.3):
        v = dict((k, v[k]) for k in d.shuffle(list(v)))
    return v


def key_schema(s, k):
    import re
    if k in s.get('properties', {}):
        return s['properties'][k]
    for p, t in s.get('patternProperties', {}).items():
        if re.search(p, k):
            return t
    return s.get('additionalProperties', True)


def ref_any(sch, v):
    if sch is True:
        return v
    t = sch['type']
    if t == 'object':
        return None if v is None else ref_object(sch, v)
    if t == 'array':
        return ref_array(sch, v)
    return ref_evaluate(sch, v)


def ref_object(s, v):
    out = {}
    for k in list(v) + [k for k in s.get('properties', {}) if k not in v]:
        sch = key_schema(s, k)
        if sch is False:
            return REJECTED
        r = ref_any(sch, v.get(k))
        if r is REJECTED:
            return REJECTED
        out[k] = r
    if any(k not in out for k in s.get('required', [])):
        return REJECTED
    return out


def in_domain(s, v):
    for k, x in v.items():
        sch = key_schema(s, k)
        if not isinstance(sch, dict):
            continue
        if x is None and k not in s.get('properties', {}):
            return False
        if sch['type'] == 'array':
            if bad_domain(sch, x) or x in ([None],):
                return False
        elif sch['type'] == 'object':
            if not isinstance(x, dict) or not in_domain(sch, x):
                return False
    # the default of a property has to be acceptable, and missing sub-objects are None
    return True


def same_obj(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_obj(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obj(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    return same_items(a, b)


def missing_arrays(s, v):
    """what a missing sub-collection is worth (None or an empty one) depends on the entry point"""
    return any(sch['type'] in ('array', 'object') and k not in v for k, sch in s.get('properties', {}).items()) or any(
        sch['type'] == 'object' and k in v and missing_arrays(sch, v[k]) for k, sch in s.get('properties', {}).items())


def prop_evaluate(d):
    s = gen_object_schema(d)
    v = gen_object_value(d, s, d.choice([0.95, 0.95, 0.6]))
    if d.bool(0.15):
        r = d.choice(EXTRA)
        s['required'] = [r]
    elif v and d.bool(0.2):
        s['required'] = d.subset(sorted(v), 0.5)
    if not in_domain(s, v):
        raise Discard()
    mode = d.choice(['type', 'class', 'keywords', 'evaluate', 'property', 'item', 'ref', 'metaclass'])
    if not v:
        # an empty mapping is the value of a missing object in some of the entry points
        mode = d.choice(['class', 'metaclass'])
    if mode in ('type', 'evaluate') and missing_arrays(s, v):
        raise Discard()
    d.note(mode)
    d.show('%s %r of %r' % (mode, s, v))
    want = ref_object(s, v)
    if want is REJECTED:
        d.hit('rejected')
    elif not same_obj(want, v) or repr(want) != repr(v):
        d.hit('converted')
    before = repr(v)

    def run():
        if mode == 'type':
            return types.Object(**{k: x for k, x in s.items() if k != 'type'})(v)
        if mode == 'class':
            return build(s)(v)
        if mode == 'metaclass':
            return make_class(s)(v)
        if mode == 'keywords':
            return make_class(s)(**v)
        if mode == 'evaluate':
            return build(s).evaluate(v)
        if mode == 'property':
            return make_class({'type': 'object', 'properties': {'p': s}})(p=v).p
        if mode == 'item':
            return make_class({'type': 'object', 'properties': {'p': {'type': 'array', 'items': s}}})(p=[v]).p[0]
        base, n = uri(), uid('D')
        load_schema({'$id': base, '$defs': {n: s}})
        return make_class({'type': 'object', 'properties': {'p': {'$ref': '%s#/$defs/%s' % (base, n)}}})(p=v).p

    got = outcome_deny(run)
    what = '%s %r under %r' % (mode, v, s)
    if want is REJECTED:
        if got[0] == 'ok':
            # sub objects are evaluated when they are read
            got = outcome_deny(lambda: norm(got[1]))
        require(got[0] == 'reject', 'accepted', lambda: '%s gave %r' % (what, got[1]))
    else:
        require(got[0] == 'ok', 'rejected', lambda: '%s was rejected: %r expected %r' % (what, str(got[1])[:300], want))
        n = norm(got[1])
        require(same_obj(n, want), 'items', lambda: '%s gave %r expected %r' % (what, n, want))
    require(repr(v) == before, 'input-modified', lambda: '%s changed %s into %r' % (what, before, v))


def outcome_deny(fn):
    try:
        return 'ok', fn()
    except DENY as er:
        return 'reject', er


# names which are not python names, or which are the python name of another property
RAW_NAMES = ['a-b', 'a_b', 'a b', 'ab', 'ns:c', 'c', 'x.y', 'class', 'Len-gth', '$e', 'e', 'f-g-h', 'f_g-h', 'f-g_h']


def python_name(n):
    # characters other than letters, digits, dots, dashes and underscores are left out; dashes become underscores
    return ''.join(c for c in n.split(':')[-1] if c.isalnum() or c in '._-').replace('-', '_')


# names of methods and of arguments
METHODS = ['items', 'keys', 'values', 'get', 'copy', 'update', 'pop', 'setdefault', 'validate', 'convert', 'serialize', 'default']
ARGUMENTS = ['items', 'validate', 'context', 'value', 'session', 'lazyLoading', 'self']


def prop_names(d):
    """every property keeps its value, whatever the other names; python names stand for the property they come from"""
    names = d.subset(RAW_NAMES, 0.4) or ['a-b']
    if d.bool(0.3):
        names += d.subset(METHODS, 0.2)
    if d.bool(0.2):
        names += [n for n in d.subset(ARGUMENTS, 0.3) if n not in names]
    s = {'type': 'object', 'properties': {n: {'type': 'integer'} for n in names}}
    if d.bool(0.3):
        s['lazyLoading'] = True
    if d.bool(0.3):
        s['additionalProperties'] = False
    C = make_class(s) if d.bool() else build(s)
    want = {n: d.int(0, 99) for n in names}
    # python names which stand for one property only and are not a property themselves
    free = {n: python_name(n) for n in names if python_name(n) not in names and [python_name(x) for x in names].count(python_name(n)) == 1}
    given = {}
    for n in d.shuffle(names):
        given[free[n] if n in free and d.bool(0.3) else n] = d.choice([want[n], str(want[n])])
    d.show('C(%r) of %r' % (given, names))
    if len(set(map(python_name, names))) < len(names):
        d.hit('conflicting names')
    elif given != want:
        d.hit('python name')
    o = C(dict(given)) if d.bool() or set(given) & set(ARGUMENTS) else C(**given)
    for _ in range(2):
        for n in d.shuffle(names):
            equal(o[n], want[n], 'name', '%r of %r' % (n, given))
            if n in METHODS:
                # the method stays
                require(callable(getattr(o, n)), 'name', lambda: '.%s of %r is %r' % (n, given, getattr(o, n)))
                d.note('named as a method')
            elif n in free and '.' not in n:
                equal(o[free[n]], want[n], 'name', '%r of %r' % (free[n], given))
                equal(getattr(o, free[n]), want[n], 'name', '.%s of %r' % (free[n], given))
            elif n == python_name(n) and '.' not in n:
                equal(getattr(o, n), want[n], 'name', '.%s of %r' % (n, given))
        require(set(o) == set(names), 'name', lambda: 'keys %r of %r' % (sorted(o), given))
        equal(dict(o.items()), want, 'name', 'items of %r' % given)
        equal(sorted(o.values()), sorted(want.values()), 'name', 'values of %r' % given)
        ser = o.do_serialize()
        require(dict(ser) == want, 'name', lambda: '%r serialized as %r' % (given, dict(ser)))
        n = d.choice(names)
        want[n] = d.int(100, 199)
        k = free[n] if n in free and d.bool(0.3) else n
        if d.bool(0.3):
            d.show('del [%r]' % n)
            del o[n]
            require(n not in set(o), 'name', lambda: '%r is still there' % n)
        d.show('[%r] = %d' % (k, want[n]))
        if '.' not in n and d.bool(0.3):
            setattr(o, k, want[n])
        else:
            o[k] = want[n]


TESTS = [
    Test('evaluate', prop_evaluate, 3200),
    Test('names', prop_names, 400),
]
