# -*- coding: utf-8 -*-
"""P09: serialization loses nothing and filters exactly what it is asked to."""
import datetime

from pbt.common import *
from props.p01 import ref_evaluate, REJECTED, num_eq
from props.p04 import norm, same_items
from props.p05 import gen_object_schema, gen_object_value, ref_object, in_domain, same_obj, key_schema, outcome_deny

META = dict(
    title='Serialized objects give back the same object, and filters act on what they name',
    statement="Building an object from its serialization, complete or without the default values, gives an equal object which serializes identically. "
              "The serialization contains exactly the properties which are not hidden by notSerialized of their own class, by the options excludes, only and no_readOnly, and, if defaults are left out, "
              "which are neither None nor equal to their default; required properties always appear, aliases come with the value of their property. "
              "Serializing changes neither the object nor the options, what one object hides is never hidden from another one, and modifying the result does not change the object.",
    over=['inputs', 'configurations', 'histories'],
    quantifier='every object schema with defaults, required, read only and not serialized properties and aliases, every value, every combination of serialization options and every order of serializations',
    why='test_object_protocol serializes two objects without options; nested hidden properties, the options, and their interactions between classes are not tested.',
    files=['ngoschema/protocols/serializer.py', 'ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/types/collection.py',
           'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/datetime.py'],
    mechanism=[('selection of the properties', 'ngoschema/types/object.py:ObjectSerializer._print_order'),
               ('values equal to their default', 'ngoschema/types/object.py:Object._print_order'),
               ('items', 'ngoschema/types/collection.py:Collection._serialize'),
               ('aliases and prefixes', 'ngoschema/protocols/object_protocol.py:ObjectProtocol._serialize')],
    observe=['serialized mappings', 'objects built from them', 'objects and options after a serialization'],
    oracle='a reference filter of the schema and of the values, and the round trip',
    level_note='Random exploration: about 2000 objects per quick run.',
)
RULE = ('A case is an object of a generated class with the options of its serialization. Non-trivial: at least one property is hidden, '
        'left out as a default or given through an alias.')
ASSUMPTIONS = ['defaults respect their own schema', 'the value of a required property which is also excluded is not specified',
               'values without a declared type are given back as they are and not copied',
               'undeclared properties set to None are left out with the defaults, so that they are not compared after that round trip']


def valid_defaults(s):
    for sch in list(s.get('properties', {}).values()):
        if 'default' in sch and ref_evaluate(sch, sch['default']) is REJECTED:
            return False
        if sch['type'] == 'object' and not valid_defaults(sch):
            return False
        if sch['type'] == 'array' and isinstance(sch.get('items'), dict) and sch['items'].get('type') == 'object' and not valid_defaults(sch['items']):
            return False
    return True


def decorate(d, s, vals):
    """adds readOnly, notSerialized and required, returns whether something was added"""
    props = sorted(s.get('properties', {}))
    if props and d.bool(0.4):
        s['readOnly'] = d.subset(props, 0.4)
    if props and d.bool(0.4):
        s['notSerialized'] = d.subset(props, 0.4)
    if props and d.bool(0.3):
        r = [k for k in props if all(k in v for v in vals) and 'default' not in s['properties'][k] and s['properties'][k]['type'] != 'array']
        r = [k for k in d.subset(r, 0.5) if k not in s.get('notSerialized', [])]
        if r and vals:
            s['required'] = r
    for k in props:
        sch = s['properties'][k]
        if sch['type'] == 'object':
            decorate(d, sch, [v[k] for v in vals if isinstance(v.get(k), dict)])


def gen_case(d):
    s = gen_object_schema(d)
    v = gen_object_value(d, s, 1.0)
    if not in_domain(s, v) or not valid_defaults(s) or ref_object(s, v) is REJECTED:
        raise Discard()
    decorate(d, s, [v])
    if d.bool(0.4):
        i = gen_object_schema(d, 0)
        l = d.list(lambda d: gen_object_value(d, i, 1.0), 0, 3)
        if all(in_domain(i, x) and ref_object(i, x) is not REJECTED and x for x in l) and valid_defaults(i):
            decorate(d, i, l)
            s.setdefault('properties', {})['lo'] = {'type': 'array', 'items': i}
            v['lo'] = l
    if d.bool(0.3):
        n = d.choice(['date', 'time', 'datetime'])
        s.setdefault('properties', {})['dt'] = {'type': n}
        x = datetime.datetime(d.int(1970, 2040), d.int(1, 12), d.int(1, 28), d.int(0, 23), d.int(0, 59), d.int(0, 59))
        v['dt'] = x.date() if n == 'date' else x.time() if n == 'time' else x
    return s, v


def is_default(sch, v):
    if v is None:
        return True
    if not isinstance(sch, dict):
        return False
    if 'default' in sch:
        w = ref_evaluate(sch, sch['default']) if sch['type'] not in ('array', 'object') else sch['default']
        return num_eq(w, v) if not isinstance(v, list) else w == v
    return sch['type'] == 'array' and v == []


def ref_serialize(s, n, no_defaults, no_ro, excludes, only=()):
    """mapping key -> expected serialization, ANY for an unspecified one"""
    hide = set(s.get('notSerialized', [])) | set(excludes) | (set(s.get('readOnly', [])) if no_ro else set())
    out = {}
    for k, v in n.items():
        sch = key_schema(s, k)
        hidden = k in hide or (only and k not in only)
        if k in s.get('required', []):
            if hidden:
                out[k] = ANY
                continue
        elif hidden or (no_defaults and is_default(sch, v)):
            continue
        if isinstance(v, dict) and isinstance(sch, dict):
            v = ref_serialize(sch, v, no_defaults, no_ro, excludes)
        elif isinstance(v, list) and isinstance(sch, dict) and isinstance(sch.get('items'), dict) and sch['items'].get('type') == 'object':
            v = [x if x is None else ref_serialize(sch['items'], x, no_defaults, no_ro, excludes) for x in v]
        out[k] = v
    return out


ANY = object()


def match(got, want):
    if want is ANY:
        return True
    if isinstance(want, dict):
        return isinstance(got, dict) and set(got) == set(want) and all(match(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(match(x, y) for x, y in zip(got, want))
    if hasattr(want, 'isoformat'):
        return got == want or got == want.isoformat()
    if isinstance(got, (dict, list)):
        return False
    return same_items(got, want)


def prune(s, n):
    """without the undeclared values which are None"""
    if isinstance(n, list):
        return [prune(s, x) for x in n]
    if not isinstance(n, dict):
        return n
    out = {}
    for k, v in n.items():
        if v is None and k not in s.get('properties', {}):
            continue
        sch = key_schema(s, k)
        if isinstance(sch, dict) and sch['type'] == 'object' and isinstance(v, dict):
            v = prune(sch, v)
        elif isinstance(sch, dict) and isinstance(sch.get('items'), dict) and sch['items'].get('type') == 'object' and v:
            v = [x if x is None else prune(sch['items'], x) for x in v]
        out[k] = v
    return out


def hide_nothing(s):
    """the same schema without notSerialized, nested ones included"""
    s = {k: v for k, v in s.items() if k != 'notSerialized'}
    if 'properties' in s:
        s['properties'] = {k: hide_nothing(v) for k, v in s['properties'].items()}
    if isinstance(s.get('items'), dict):
        s['items'] = hide_nothing(s['items'])
    return s


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def prop_roundtrip(d):
    s, v = gen_case(d)
    s = hide_nothing(s)
    d.show('%r of %r' % (s, v))
    C = make_class(s)
    o = C(v)
    n = norm(o)
    nd = d.choice([None, False, True])
    opts = {} if nd is None else {'no_defaults': nd}
    ser = (o if d.bool(0.7) else C).serialize(o, **opts) if d.bool(0.3) else o.do_serialize(**opts)
    if not same_obj(n, plain(ser)):
        d.hit()
    o2 = C(ser)
    n2 = norm(o2)
    full = nd is False
    a, b = (n, n2) if full else (prune(s, n), prune(s, n2))
    require(same_obj(a, b), 'roundtrip', lambda: 'serialized as %r read back as %r instead of %r' % (ser, n2, n))
    require(plain(o2.do_serialize(**opts)) == plain(ser), 'roundtrip', lambda: 'serialized as %r then as %r' % (ser, o2.do_serialize(**opts)))
    if full or a == n:
        require(o2 == o, 'roundtrip', 'the object read back is not equal')
    require(same_obj(norm(o), n), 'object-modified', 'by its serialization')


def poison(s, x):
    """empties the containers of the declared types"""
    if isinstance(x, dict) and s.get('type') == 'object':
        for k, v in list(x.items()):
            sch = key_schema(s, k)
            if isinstance(sch, dict):
                poison(sch, v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            if isinstance(s.get('items'), dict):
                poison(s['items'], v)
        del x[:]


def prop_filters(d):
    s, v = gen_case(d)
    C = make_class(s)
    o = C(v)
    if d.bool(0.3):
        o2 = make_class({'type': 'object', 'readOnly': ['a', 'b'], 'notSerialized': ['c'], 'properties': {k: {'type': 'string'} for k in 'abcd'}})(a='1', b='2', c='3', d='4')
        repr(o2)
        d.note('another class')
    n = norm(o)
    keys = sorted(n)
    for _ in range(d.int(1, 3)):
        opts = {}
        if d.bool(0.4):
            opts['no_defaults'] = d.bool()
        if d.bool(0.3):
            opts['no_readOnly'] = d.bool()
        if d.bool(0.4):
            opts['excludes'] = d.subset(keys + ['nothing'], 0.3)
        if d.bool(0.3):
            opts['only'] = d.subset(keys + ['nothing'], 0.5)
        d.show('%r of %r serialized with %r' % (s, v, opts))
        want = ref_serialize(s, n, opts.get('no_defaults', True), opts.get('no_readOnly', False), opts.get('excludes', []), opts.get('only', []))
        if want != n:
            d.hit()
        before = repr(opts)
        ser = C.serialize(o, **opts) if d.bool(0.3) else o.do_serialize(**opts)
        require(repr(opts) == before, 'options-modified', lambda: '%s became %r' % (before, opts))
        require(match(plain(ser), want), 'filtered', lambda: 'options %r gave %r expected %r' % (opts, ser, want))
        if d.bool(0.3):
            repr(o), str(o)
        poison(s, ser)
        require(same_obj(norm(o), n), 'object-modified', lambda: 'by changing its serialization: %r instead of %r' % (norm(o), n))
    if d.bool(0.3):
        T = make_class({'type': 'object', 'properties': {k: {'type': 'integer'} for k in keys}})
        got = T({k: 1 for k in keys}).do_serialize()
        require(dict(got) == {k: 1 for k in keys}, 'filtered', lambda: 'another class gave %r for %r' % (got, keys))


def prop_aliases(d):
    props = {k: {'type': 'integer'} for k in d.subset(['a', 'b', 'c'], 0.7)}
    if not props:
        raise Discard()
    al = {'x': d.choice(sorted(props))} if d.bool(0.7) else {}
    neg = {'y': d.choice(sorted(props))} if d.bool(0.7) else {}
    if d.bool(0.3):
        al['z'] = d.choice(sorted(props))
    sch = {'type': 'object', 'properties': props}
    if al:
        sch['aliases'] = al
    if neg:
        sch['negatedAliases'] = neg
    v = {k: d.int(-5, 5) for k in props if d.bool(0.8)}
    if d.bool(0.3):
        v[d.choice(EXTRA)] = 7
    excludes = d.subset(sorted(set(al) | set(neg)), 0.3)
    d.show('%r of %r excludes %r' % (sch, v, excludes))
    C = make_class(sch)
    o = C(v)
    want = dict(v)
    want.update({x: v[r] for x, r in al.items() if r in v and x not in excludes})
    want.update({x: -v[r] for x, r in neg.items() if r in v and x not in excludes})
    if want != v:
        d.hit()
    got = o.do_serialize(excludes=excludes)
    require(dict(got) == want, 'aliases', lambda: 'gave %r expected %r' % (got, want))
    o2 = C(got)
    require(o2 == o, 'aliases', lambda: '%r read back as %r' % (got, o2))
    # only what is named, aliases as well as properties
    only = d.subset(sorted(set(props) | set(al) | set(neg)), 0.5)
    if only:
        part = o.do_serialize(only=only)
        known = {k: x for k, x in v.items() if k in only}
        known.update({x: v[r] for x, r in al.items() if x in only and r in known})
        known.update({x: -v[r] for x, r in neg.items() if x in only and r in known})
        require(dict(part) == known, 'aliases', lambda: 'only %r gave %r expected %r' % (only, part, known))
    o2 = C({k: x for k, x in got.items() if k not in al.values() and k not in neg.values()})
    for k in props:
        if any(al.get(x, neg.get(x)) == k for x in got):
            equal(o2[k], o[k], 'aliases', 'from the aliases only')
    # prefix of the attributes
    p = make_class({'type': 'object', 'properties': dict(props, l={'type': 'array'}, s={'type': 'object'})})
    v2 = dict({k: x for k, x in v.items() if k in props}, l=[1], s={'a': 1})
    got = p(v2).do_serialize(attr_prefix='@')
    want = {('' if k in 'ls' else '@') + k: x for k, x in v2.items()}
    require(set(got) == set(want), 'prefix', lambda: 'gave %r expected the keys %r' % (got, sorted(want)))


EXTRA = ['e1', 'f']

TESTS = [
    Test('roundtrip', prop_roundtrip, 900),
    Test('filters', prop_filters, 900),
    Test('aliases', prop_aliases, 250),
]
