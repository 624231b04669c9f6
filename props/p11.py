# -*- coding: utf-8 -*-
"""P11: types, classes, objects and the values they are given do not leak into each other."""
import copy

from pbt.common import *
from ngoschema import types
from ngoschema.decorators import depend_on_prop
from props.p01 import gen_schema, gen_member, ref_evaluate, REJECTED
from props.p04 import norm, gen_array_schema, gen_array_value
from props.p05 import gen_object_schema, gen_object_value, gen_prop, ref_object, in_domain, same_obj, outcome_deny, NAMES
from props.p09 import valid_defaults, plain, hide_nothing

META = dict(
    title='Types, objects and the values they are given do not leak into each other',
    statement="Building or using a type, a class or an object changes neither the schema and the values it is given, nor any other type, class or object, whatever they have in common: "
              "the same class, the same schema, the same base, the same submitted mapping, the same default value. "
              "Modifying an object in place, its sub-objects and its arrays included, changes nothing but this object; a copy of an object is equal to it, and setting the properties of one does not change the other. "
              "Options given to one type (required, notSerialized, notValidated, patterns, properties) never apply to another one.",
    over=['histories', 'configurations'],
    quantifier='every set of objects sharing classes, schemas, defaults and submitted values, and every sequence of constructions, modifications, copies and serializations',
    why='tests build one object at a time; state shared between instances or classes only shows when several of them are used in turn.',
    files=['ngoschema/types/object.py', 'ngoschema/types/array.py', 'ngoschema/types/collection.py', 'ngoschema/protocols/object_protocol.py',
           'ngoschema/protocols/array_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/protocols/validator.py',
           'ngoschema/protocols/type_protocol.py', 'ngoschema/managers/type_builder.py'],
    mechanism=[('storage of an object', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol.__init__'),
               ('default values', 'ngoschema/types/object.py:Object.default'),
               ('options of a type', 'ngoschema/types/object.py:Object.__init__'),
               ('schemas given to a class', 'ngoschema/protocols/type_protocol.py:SchemaMetaclass.__new__')],
    observe=['every other object, type, schema and submitted value after each operation'],
    oracle='snapshots taken before each operation: nothing but the object modified changes, and that one changes as its reference model',
    level_note='Random exploration: about 1600 histories per quick run.',
)
RULE = ('A case is a history over several objects or types. Non-trivial: at least one modification of an object sharing its class, schema, default or submitted value with another one.')
ASSUMPTIONS = ['an object assigned to a property of another one is shared, as usual in python: this is not generated',
               'copies are shallow: sub-objects and arrays of an object which has been copied are not modified',
               'values without a declared type are stored as they are given']


def typed_schema(d, depth=1):
    """object schema whose every property is declared, with arrays, sub-objects and mutable defaults"""
    s = {'type': 'object', 'properties': {}, 'additionalProperties': False}
    for n in d.subset(NAMES, 0.8) or ['a']:
        k = d.weighted((3, 'int'), (3, 'array'), (2 if depth else 0, 'object'), (1 if depth else 0, 'objects'))
        if k == 'int':
            p = {'type': 'integer'}
            if d.bool(0.3):
                p['default'] = d.int(0, 9)
        elif k == 'array':
            p = {'type': 'array', 'items': {'type': 'integer'}}
            if d.bool(0.4):
                p['default'] = [d.int(0, 9) for _ in range(d.int(1, 3))]
        elif k == 'object':
            p = typed_schema(d, depth - 1)
        else:
            p = {'type': 'array', 'items': typed_schema(d, depth - 1)}
        s['properties'][n] = p
    return s


def typed_value(d, s):
    if s['type'] == 'integer':
        return d.int(0, 99)
    if s['type'] == 'array':
        return [typed_value(d, s['items']) for _ in range(d.int(0, 3))]
    return {k: typed_value(d, p) for k, p in s['properties'].items() if d.bool(0.75)}


def complete(s, v):
    """reference value"""
    if s['type'] == 'integer':
        return s.get('default') if v is None else v
    if s['type'] == 'array':
        if v is None:
            v = s.get('default', [])
        return [complete(s['items'], x) for x in v]
    if v is None:
        return None
    return {k: complete(p, v.get(k)) for k, p in s['properties'].items()}


def places(s, v, path=()):
    """paths of the containers of a reference value"""
    if isinstance(v, dict):
        yield path, s, v
        for k, x in v.items():
            yield from places(s['properties'][k], x, path + (k,))
    elif isinstance(v, list):
        yield path, s, v
        for i, x in enumerate(v):
            yield from places(s['items'], x, path + (i,))


def at(o, path):
    for k in path:
        o = o[k]
    return o


def mutate(d, s, o, ref, root=False):
    """modifies an object and its reference in place"""
    path, ps, pv = ((), s, ref) if root else d.choice(list(places(s, ref)))
    x = at(o, path)
    if isinstance(pv, dict):
        k = d.choice(sorted(pv))
        v = typed_value(d, ps['properties'][k])
        d.show('%r[%r] = %r' % (path, k, v))
        pv[k] = complete(ps['properties'][k], v)
        how = d.int(0, 2)
        if how == 0:
            setattr(x, k, v)
        elif how == 1:
            x[k] = v
        else:
            x.update({k: v})
        return
    op = d.choice(['append', 'pop', 'set', 'extend', 'insert', 'clear'])
    v = typed_value(d, ps['items'])
    d.show('%r %s %r' % (path, op, v))
    if op == 'append':
        x.append(v)
        pv.append(complete(ps['items'], v))
    elif op == 'extend':
        x.extend([v, v])
        pv.extend([complete(ps['items'], v), complete(ps['items'], v)])
    elif op == 'insert':
        x.insert(0, v)
        pv.insert(0, complete(ps['items'], v))
    elif op == 'clear':
        while len(x):
            x.pop()
        del pv[:]
    elif pv:
        if op == 'pop':
            x.pop()
            pv.pop()
        else:
            x[0] = v
            pv[0] = complete(ps['items'], v)


def prop_objects(d):
    s = typed_schema(d)
    if d.bool(0.3):
        s['lazyLoading'] = True
    schema_given = copy.deepcopy(s)
    C = make_class(schema_given)
    require(schema_given == s, 'schema-modified', lambda: '%r became %r' % (s, schema_given))
    if d.bool(0.3):
        C2 = make_class(schema_given)
        d.note('two classes of a schema')
    else:
        C2 = make_class({'type': 'object'}, [C]) if d.bool(0.3) else C
    shared = typed_value(d, s) or {}
    given = []
    objs = []
    copied = set()
    d.show('class of %r, shared value %r' % (s, shared))

    def new():
        how = d.choice(['shared', 'shared', 'own', 'empty', 'copy', 'keywords'])
        cls = d.choice([C, C2])
        if how == 'copy' and objs:
            n = d.int(0, len(objs) - 1)
            o, r = objs[n]
            copied.update([n, len(objs)])
            objs.append((o.copy(), copy.deepcopy(r)))
            require(objs[-1][0] == o, 'copy', 'a copy is not equal')
        else:
            v = shared if how in ('shared', 'keywords') else {} if how == 'empty' else typed_value(d, s)
            given.append((v, copy.deepcopy(v)))
            objs.append((cls(**v) if how == 'keywords' and v else cls(v), complete(s, v)))
        d.show('o%d: %s' % (len(objs) - 1, how))

    def check(what):
        for i, (o, r) in enumerate(objs):
            require(same_obj(norm(o), r), 'leak', lambda: '%s: o%d is %r expected %r' % (what, i, norm(o), r))
        for v, c in given:
            require(v == c, 'value-modified', lambda: '%s: the value submitted %r became %r' % (what, c, v))
        require(schema_given == s, 'schema-modified', lambda: '%s: %r became %r' % (what, s, schema_given))
    new()
    new()
    if d.bool():
        check('before')
    for _ in range(d.int(1, 8)):
        op = d.weighted((6, 'mutate'), (2, 'new'), (1, 'serialize'), (1, 'given'))
        if op == 'new':
            new()
        elif op == 'mutate':
            i = d.int(0, len(objs) - 1)
            o, r = objs[i]
            d.show('o%d' % i)
            mutate(d, s, o, r, i in copied)
            d.hit()
        elif op == 'serialize':
            i = d.int(0, len(objs) - 1)
            ser = objs[i][0].do_serialize(no_defaults=False)
            require(same_obj(plain(ser), objs[i][1]), 'serialized', lambda: '%r expected %r' % (ser, objs[i][1]))
            ser.clear()
        else:
            check('after an operation')
    check('after the history')


# options of plain types
def gen_options(d):
    o = {}
    if d.bool(0.5):
        o['properties'] = {n: d.choice([{'type': 'integer'}, {'type': 'integer', 'default': 3}, {'type': 'string'}]) for n in d.subset(NAMES, 0.5) or ['a']}
    if d.bool(0.4):
        o['required'] = d.subset(NAMES, 0.4)
    if d.bool(0.4):
        o['notSerialized'] = d.subset(NAMES, 0.4)
    if d.bool(0.3):
        o['notValidated'] = d.subset(NAMES, 0.4)
    if d.bool(0.3):
        o['readOnly'] = d.subset(NAMES, 0.4)
    if d.bool(0.3):
        o['patternProperties'] = {'^%s' % d.choice('xyz'): {'type': 'integer'}}
    if d.bool(0.3):
        o['additionalProperties'] = d.choice([False, {'type': 'integer'}])
    return o


PROBES = [{'a': 1, 'b': '2'}, {'a': '3', 'c': 4, 'x1': '5'}, {'d': 1.5, 'y': 'z'}, {'a': None, 'b': 7, 'c': 8, 'd': 9}]


def observe_type(T):
    out = []
    for v in PROBES:
        out.append(repr(outcome_deny(lambda: dict(T(dict(v))))).replace('ObjectProtocol', ''))
        out.append(repr(outcome_deny(lambda: sorted(T(dict(v), serialize=True).items()))))
        r = outcome_deny(lambda: sorted(T(dict(v), serialize=True, no_defaults=True, no_readOnly=True).items()))
        out.append(repr(r))
    out.append(repr(outcome_deny(lambda: sorted(T.default().items(), key=str))))
    return out


def short(x):
    return [a.split('(')[0] if "('reject'" in a else a for a in x]


def prop_types(d):
    """the behaviour of a type does not depend on the types built before or after it"""
    n = d.int(2, 4)
    opts = [gen_options(d) for _ in range(n)]
    d.show(' then '.join(repr(o) for o in opts))
    if len(set(map(repr, opts))) > 1:
        d.hit()
    ts = []
    seen = []
    for o in opts:
        given = copy.deepcopy(o)
        T = types.Object(**given)
        require(given == o, 'schema-modified', lambda: '%r became %r' % (o, given))
        ts.append(T)
        seen.append(strip(observe_type(T)))
        if d.bool(0.3):
            repr(T), str(T)
    for i in d.shuffle(range(n)):
        T = types.Object(**copy.deepcopy(opts[i]))
        again, fresh = strip(observe_type(ts[i])), strip(observe_type(T))
        require(again == seen[i], 'leak', lambda: 'type %d %r first gave %r then %r' % (i, opts[i], seen[i], again))
        require(fresh == seen[i], 'leak', lambda: 'type %d %r first gave %r, built again it gives %r' % (i, opts[i], seen[i], fresh))
    base = strip(observe_type(types.Object()))
    want = [repr(('ok', x)) for v in PROBES for x in (dict(v), sorted((k, y) for k, y in v.items() if y is not None), sorted((k, y) for k, y in v.items() if y is not None))]
    for g, w in zip(base, want):
        require(g == w, 'leak', lambda: 'the type without options gives %s expected %s' % (g, w))


NAMES = ['a', 'b', 'c', 'e', 'f']


def prop_classes(d):
    """the behaviour of a class does not depend on the values it was given before"""
    names = NAMES[:d.int(3, 5)]
    # a property depends on some of those before it
    deps = {n: sorted(d.subset(names[:i], 0.4)) for i, n in enumerate(names)}
    deps = {n: x for n, x in deps.items() if x}
    sch = {'type': 'object', 'properties': {n: {'type': 'string'} for n in names}}
    if deps:
        sch['dependencies'] = deps
    if d.bool(0.3):
        sch['lazyLoading'] = True
    given = copy.deepcopy(sch)
    C = make_class(given)
    outer = make_class({'type': 'object', 'properties': {'l': {'type': 'array', 'items': copy.deepcopy(sch)}, 'o': copy.deepcopy(sch)}})
    d.show('%r' % sch)

    def order():
        left, out = list(names), []
        while left:
            n = d.choice([n for n in left if not set(deps.get(n, [])) & set(left)])
            left.remove(n)
            out.append(n)
        return out

    def gen():
        val, want = {}, {}
        o = order()
        for i, n in enumerate(o):
            if i and d.bool(0.5):
                r = d.choice(o[:i])
                val[n], want[n] = d.choice(['{{%s}}', '`%s']) % r, want[r]
            else:
                val[n] = want[n] = d.text('xyz', 1, 2)
        return {n: val[n] for n in d.shuffle(names)}, want
    for i in range(d.int(2, 6)):
        val, want = gen()
        before = dict(val)
        if i and any(x != want[n] for n, x in val.items()):
            d.hit()
        op = d.weighted((3, 'class'), (2, 'object'), (2, 'array'), (1, 'validate'), (1, 'order'))
        d.show('%s %r' % (op, val))
        if op == 'class':
            m = d.choice(['deserialize', 'evaluate', 'convert'])
            got = getattr(C, m)(val, **({'items': d.bool()} if d.bool() else {}))
            if m == 'convert' or not isinstance(got, C):
                got = C(val)
            equal({n: got[n] for n in names}, want, 'leak', op)
        elif op == 'object':
            o = C(val)
            equal({n: o[n] for n in d.shuffle(names)}, want, 'leak', op)
            equal(dict(o.do_serialize()), want, 'leak', 'serialized')
        elif op == 'array':
            o = outer({'l': [val, dict(val)], 'o': val})
            for x in (o.l[0], o.l[1], o.o):
                equal({n: x[n] for n in d.shuffle(names)}, want, 'leak', op)
        elif op == 'validate':
            C.validate(val)
        else:
            got = list(C.call_order(val))
            equal(sorted(got), sorted(names), 'call order')
            for n, x in val.items():
                for r in deps.get(n, []) + ([x.strip('{`}')] if x[0] in '{`' else []):
                    require(got.index(r) < got.index(n), 'call order', lambda: '%s before %s: %r' % (n, r, got))
        equal(val, before, 'value-modified', op)
    equal(given, sch, 'schema-modified', 'schema')


def strip(out):
    return ['rejected' if x.startswith("('reject'") else x for x in out]


def prop_arrays(d):
    """array types, their defaults and the lists they are given"""
    n = d.int(1, 3)
    default = [1, 2][:n]
    s2 = {'type': 'array', 'items': {'type': 'integer'}, 'default': list(default)}
    T = types.Array(items={'type': 'integer'}, default=list(default))
    A = build(s2)
    given = [d.int(0, 9) for _ in range(d.int(0, 3))]
    before = list(given)
    d.show('default %r given %r' % (default, given))
    d.hit()
    for _ in range(d.int(1, 4)):
        k = d.choice(['type', 'class', 'default', 'default of the class'])
        d.show(k)
        x = T(given) if k == 'type' else A(given) if k == 'class' else T.default() if k == 'default' else A(None) if d.bool() else A.default()
        want = before if k in ('type', 'class') else default
        equal(list(x), want, 'leak', k)
        x.append(77)
        if d.bool():
            x[0] = 66
        equal(given, before, 'value-modified', k)
    equal(s2['default'], default, 'schema-modified', 'default')


def gen_local(d, k, first):
    """what a class says of its own: schema and accessors"""
    sch = {'type': 'object'}
    if first:
        sch['properties'] = {n: {'type': 'integer'} for n in ('a', 'b', 'c', 's', 't')}
    elif d.bool(0.4):
        sch['properties'] = {n: {'type': 'integer', 'default': d.int(10, 99)} for n in d.subset(['a', 'b', 'own%d' % k], 0.5)}
    if d.bool(0.6 if first else 0.5):
        sch['dependencies'] = {'s': d.subset(['a', 'b', 'c'], 0.5) or ['a']}
    if d.bool(0.3):
        sch['aliases'] = {d.choice(['al', 'al%d' % k]): d.choice('abc')}
    if d.bool(0.3):
        sch['negatedAliases'] = {d.choice(['neg', 'neg%d' % k]): d.choice('abc')}
    if d.bool(0.2):
        sch['readOnly'] = [d.choice('abc')]
    if d.bool(0.2):
        sch['notSerialized'] = [d.choice('abc')]
    if d.bool(0.2):
        sch['required'] = [d.choice('abc')]
    if d.bool(0.2):
        sch['patternProperties'] = {'^%s' % d.choice('xyz'): {'type': 'integer'}}
    attrs = {}
    if d.bool(0.8 if first else 0.4):
        attrs['get_s'] = (lambda k: lambda self: (self.a or 0) + (self.b or 0) + (self.c or 0) + 1000 * k)(k)
        if d.bool(0.5):
            attrs['get_s'] = depend_on_prop(*d.subset(['a', 'b', 'c'], 0.5) or ['b'])(attrs['get_s'])
    if d.bool(0.5 if first else 0.3):
        attrs['set_t'] = (lambda k: lambda self, v: self.__dict__.setdefault('_seen', []).append((k, v)))(k)
    if d.bool(0.4 if first else 0.3):
        attrs['del_t'] = (lambda k: lambda self: self.__dict__.setdefault('_seen', []).append((k, 'deleted')))(k)
    if not first and d.bool(0.2):
        attrs['c'] = d.int(10, 99)
    return sch, attrs


def observe_class(C):
    """what the objects of a class do, operation by operation"""
    out = []

    def see(f):
        r = outcome_deny(f)
        out.append('rejected' if r[0] == 'reject' else repr(r[1]))
    o = C(a=1, b=2, c=3)
    see(lambda: (o.a, o.b, o.c, o.s, o.t))
    for n in 'abc':
        see(lambda: setattr(o, n, getattr(o, n) + 10))
        see(lambda: o.s)
    see(lambda: setattr(o, 't', 5))
    see(lambda: o.t)
    see(lambda: delattr(o, 't'))
    see(lambda: o.__dict__.get('_seen'))
    see(lambda: sorted(o.do_serialize().items()))
    for n in ('al', 'neg', 'al0', 'neg1', 'x', 'own1'):
        see(lambda: C(a=1, b=2, c=3)[n])
        see(lambda: C(**dict({'a': 1, 'b': 2, 'c': 3}, **{n: 7}))[n])
    for n in 'abc':
        see(lambda: C({x: 1 for x in 'abc' if x != n})[n])
        p = C(a=1, b=2, c=3)
        see(lambda: p.__delitem__(n))
    see(lambda: C.call_order({'a': 1, 'b': 2, 'c': 3, 's': 4}).index('s'))
    see(lambda: [hasattr(C, n) for n in ('get_s', 'set_t', 'del_t')])
    return out


def prop_bases(d):
    """declaring and using a subclass changes nothing to its bases nor to their other subclasses"""
    known = []
    for k in range(d.int(2, 4)):
        sch, attrs = gen_local(d, k, not known)
        bases = [d.choice(known)[0]] if known else []
        ext = bases and d.bool(0.3)
        if ext:
            sch['extends'] = [bases.pop()._id]
        d.show('C%d of %s = %r %r' % (k, 'C%d' % [c for c, _ in known].index(bases[0]) if bases else sch.get('extends'), sch, sorted(attrs)))
        C = make_class(sch, bases, **attrs)
        if known and (attrs or len(sch) > 1):
            d.hit()
        if d.bool(0.7):
            known.append((C, observe_class(C)))
        else:
            known.append((C, None))
        for i, (c, seen) in enumerate(known):
            again = observe_class(c)
            if seen is not None:
                require(again == seen, 'leak', lambda: 'C%d gave %r and, once C%d is declared, %r' % (
                    i, [x for x, y in zip(seen, again) if x != y], k, [y for x, y in zip(seen, again) if x != y]))
            else:
                known[i] = (c, again)


TESTS = [
    Test('objects', prop_objects, 900),
    Test('types', prop_types, 450),
    Test('arrays', prop_arrays, 250),
    Test('classes', prop_classes, 500),
    Test('bases', prop_bases, 400),
]
