# -*- coding: utf-8 -*-
"""P25: the properties which are not validated are converted without their constraints, and only them."""
from pbt.common import *
from ngoschema.decorators import depend_on_prop
from props.p01 import gen_schema, gen_member, gen_value, ref_evaluate, REJECTED
from props.p04 import norm
from props.p05 import PATTERNS, same_obj, outcome_deny

META = dict(
    title='Properties not validated are converted without their constraints, and only them',
    statement="The value of a property listed in notValidated, by the schema of the class, by its attribute or by any class it extends, is converted to the type of the property "
              "and accepted whatever the constraints declared with it, by the constructor, by an attribute, by an item, by evaluation and by a getter, with lazy loading or not; "
              "a value which does not convert is still refused. Every other property, pattern and additional property, the sub-objects and items, and the classes extended keep all their constraints.",
    over=['configurations', 'inputs', 'histories'],
    quantifier='every class, every way of listing the properties which are not validated, every value and sequence of assignments',
    why='No test uses notValidated.',
    files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/collection.py', 'ngoschema/types/object.py'],
    mechanism=[('properties', 'ngoschema/protocols/object_protocol.py:PropertyDescriptor'),
               ('union of the bases', 'ngoschema/protocols/object_protocol.py:ObjectProtocol.build'),
               ('exclusions', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol._validate')],
    observe=['values read and refusals after each operation, serialization'],
    oracle='the scalar reference evaluator with and without constraints, and the class of the schema without the constraints',
    level_note='Random exploration: about 3300 histories per quick run.',
)
RULE = ('A case is a hierarchy of classes and a history of assignments. Non-trivial: a value violating the constraints of a property which is not validated, '
        'or refused for another property.')
ASSUMPTIONS = ['properties not validated are scalar or arrays; the values are not None',
               'aliases and the validation of a mapping which is not evaluated are not covered']

NAMES = ['a', 'b', 'c', 'd', 'e']
EXTRA = ['zz', 'other']
CONSTRAINTS = ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'multipleOf', 'minLength', 'maxLength', 'pattern', 'const',
               'minItems', 'maxItems', 'uniqueItems')


def strip(s):
    return {k: v for k, v in s.items() if k not in CONSTRAINTS}


def gen_constrained(d, default=True):
    for _ in range(4):
        s = gen_schema(d)
        if any(k in s for k in CONSTRAINTS):
            break
    if not default or ('default' in s and ref_evaluate(s, s['default']) is REJECTED):
        s.pop('default', None)
    return s


def ref(s, v, free):
    if s.get('type') == 'array':
        if not isinstance(v, list):
            return REJECTED
        out = [ref_evaluate(s['items'], x) for x in v]
        if REJECTED in [x for x in out if x is REJECTED]:
            return REJECTED
        if not free:
            if len(out) > s.get('maxItems', 99):
                return REJECTED
        return out
    return ref_evaluate(s, v, validate=not free)


def gen_val(d, s):
    if s.get('type') == 'array':
        return d.list(lambda d: gen_member(d, s['items']['type']), 1, 4)
    for _ in range(5):
        v = gen_member(d, s['type']) if d.bool(0.7) else gen_value(d, s['type'])
        # a boolean is a number, and is equal to the previous one
        if v is not None and not (isinstance(v, bool) and s['type'] in ('integer', 'number')):
            return v
    return gen_member(d, s['type'])


def prop_free(d):
    names = d.subset(NAMES, 0.7) or ['a']
    props = {}
    for n in names:
        if d.bool(0.15):
            props[n] = {'type': 'array', 'items': gen_constrained(d, False)}
            if d.bool(0.6):
                props[n]['maxItems'] = d.int(1, 3)
        else:
            props[n] = gen_constrained(d)
    s = {'type': 'object', 'properties': props}
    others = {}
    if d.bool(0.4):
        p, keys = d.choice(PATTERNS)
        if not any(k in names for k in keys):
            s['patternProperties'] = {p: gen_constrained(d, False)}
            for k in keys:
                others[k] = s['patternProperties'][p]
    if d.bool(0.4):
        s['additionalProperties'] = gen_constrained(d, False)
        for k in EXTRA:
            others[k] = s['additionalProperties']
    elif d.bool(0.3):
        s['additionalProperties'] = False
    if d.bool(0.3):
        s['lazyLoading'] = True
    lazy = bool(s.get('lazyLoading'))
    # the classes: the properties and what is not validated come from several of them
    free = set()
    classes = []
    depth = d.int(1, 3)
    bounds = sorted(d.int(0, len(names)) for _ in range(depth - 1)) + [len(names)]
    lo = 0
    parent = None
    pfree = set()
    known = {}
    for i in range(depth):
        own = names[lo:bounds[i]]
        lo = bounds[i]
        known.update((n, props[n]) for n in own)
        local = {k: v for k, v in s.items() if k != 'properties'}
        local['properties'] = {n: props[n] for n in own}
        # what is listed may be inherited
        mine = set(d.subset(sorted(known), 0.4))
        if d.bool(0.1):
            mine |= set(d.subset(sorted(others), 0.3))
        attrs = {}
        way = d.choice(['schema', 'schema', 'attribute']) if mine else ''
        if way == 'schema':
            local['notValidated'] = sorted(mine)
        elif way == 'attribute':
            attrs['_notValidated'] = sorted(mine) if d.bool() else set(mine)
        bases = []
        if parent is not None:
            if d.bool():
                bases = [parent]
            else:
                local['extends'] = [parent._id]
        if d.bool(0.3):
            # another class extended, which knows none of the properties
            more = set(d.subset(sorted(known), 0.5))
            side = make_class({'type': 'object', 'notValidated': sorted(more)})
            mine = mine | more
            d.show('%s: notValidated %r' % (side.__name__, sorted(more)))
            if d.bool():
                bases.append(side)
            else:
                local['extends'] = local.get('extends', []) + [side._id]
        d.show('C%d(%s) = %r %r' % (i, [b.__name__ for b in bases], local, attrs))
        C = make_class(local, bases, **attrs)
        free = free | mine
        classes.append((C, set(free), dict(known)))
        parent = C
    free &= set(names)
    order = [classes[-1]] + d.shuffle(classes[:-1])
    for C, f, kn in order:
        f = f & set(kn)
        stripped = dict(s, properties={n: strip(p) if n in f else p for n, p in kn.items()})
        S = make_class(stripped)
        run_one(d, s, C, S, f, kn, others, lazy)
        # the class built later, and what it does not validate, does not change this one
        if d.bool(0.3):
            break


def run_one(d, s, C, S, free, kn, others, lazy):
    def expected(k, v):
        if k in kn:
            return ref(kn[k], v, k in free)
        if k in others:
            return ref(others[k], v, False)
        return REJECTED if s.get('additionalProperties') is False else v

    def note(k, v):
        if expected(k, v) is REJECTED:
            d.hit('refused')
        elif k in free and ref(kn[k], v, False) is REJECTED:
            d.hit('not validated')
    keys = sorted(kn) + [k for k in sorted(others) if k not in kn]
    if not keys:
        return
    v0 = {}
    for k in keys:
        if d.bool(0.6):
            sch = kn.get(k) or others[k]
            v = gen_val(d, sch)
            if expected(k, v) is REJECTED and d.bool(0.8):
                v = gen_val(d, sch)
            if expected(k, v) is not REJECTED or d.bool(0.15):
                v0[k] = v
    for k, v in v0.items():
        note(k, v)
    mode = d.choice(['call', 'keywords', 'evaluate', 'property', 'item'])
    d.show('%s %r, not validated %r' % (mode, v0, sorted(free)))
    bad = sorted(k for k, v in v0.items() if expected(k, v) is REJECTED)

    def new(K):
        if mode == 'call':
            return K(dict(v0))
        if mode == 'keywords':
            return K(**v0)
        if mode == 'evaluate':
            return K.evaluate(dict(v0))
        if mode == 'property':
            return make_class({'type': 'object', 'properties': {'p': {'$ref': K._id}}})(p=dict(v0))['p']
        return make_class({'type': 'object', 'properties': {'p': {'type': 'array', 'items': {'$ref': K._id}}}})(p=[dict(v0)])['p'][0]
    if not v0 and mode != 'call':
        return
    objs = []
    for K in (C, S):
        got = outcome_deny(lambda: new(K))
        if got[0] == 'ok':
            o = got[1]
            got = outcome_deny(lambda: (o, {k: norm(o[k]) for k in v0}))
        require((got[0] == 'reject') == bool(bad), 'constructor', lambda: '%s(%r) gave %r, to be refused: %r, not validated: %r' % (K.__name__, v0, got, bad, sorted(free)))
        if got[0] == 'ok':
            want = {k: expected(k, v) for k, v in v0.items()}
            require(same_obj(got[1][1], want), 'constructor', lambda: '%s(%r) gave %r expected %r' % (K.__name__, v0, got[1][1], want))
            objs.append(o)
    if bad:
        return
    o, p = objs
    vals = {k: expected(k, v) for k, v in v0.items()}
    for _ in range(d.int(0, 4)):
        k = d.choice(keys)
        v = gen_val(d, kn.get(k) or others[k])
        how = d.choice(['attribute', 'item'])
        want = expected(k, v)
        if lazy and want is REJECTED:
            continue
        note(k, v)
        d.show('%s %s = %r' % (how, k, v))

        def assign(x):
            if how == 'attribute':
                setattr(x, k, v)
            else:
                x[k] = v
            return norm(x[k])
        for x in (o, p):
            got = outcome_deny(lambda: assign(x))
            require((got[0] == 'reject') == (want is REJECTED), 'assignment',
                    lambda: '%s %s = %r gave %r expected %r, not validated: %r' % (how, k, v, got, want, sorted(free)))
            if want is not REJECTED:
                require(same_obj({k: got[1]}, {k: want}), 'assignment', lambda: '%s = %r gave %r expected %r' % (k, v, got[1], want))
        if want is not REJECTED:
            vals[k] = want
    for k, v in vals.items():
        require(same_obj({k: norm(o[k])}, {k: v}), 'value', lambda: '%s is %r expected %r' % (k, norm(o[k]), v))
    a, b = [outcome_deny(lambda: sorted((k, repr(v)) for k, v in x.do_serialize().items())) for x in (o, p)]
    require(a[0] == 'ok' and a == b, 'serialization', lambda: '%r, without the constraints %r' % (a, b))
    c = outcome_deny(lambda: {k: norm(x) for k, x in o.copy().items()})
    require(c[0] == 'ok' and same_obj({k: c[1].get(k) for k in vals}, vals), 'copy', lambda: 'the copy of %r is %r' % (vals, c))


def prop_computed(d):
    """properties with a getter, outdated when the property they depend on is modified"""
    con = {}
    for k in ('b', 'c'):
        s = con[k] = {'type': d.choice(['integer', 'integer', 'string'])}
        if s['type'] == 'integer':
            s[d.choice(['minimum', 'maximum'])] = d.int(-3, 6)
        else:
            s[d.choice(['minLength', 'maxLength'])] = d.int(1, 4)
    free = set(d.subset(['b', 'c'], 0.6))
    schema = {'type': 'object', 'properties': dict({'a': {'type': 'integer'}}, **con)}
    if free:
        schema['notValidated'] = sorted(free)
    if d.bool(0.4):
        schema['lazyLoading'] = True
    fn = {'b': d.choice([lambda a: a, lambda a: 2 * a, lambda a: str(a), lambda a: str(a) * 2]),
          'c': d.choice([lambda a: a + 1, lambda a: -a, lambda a: '%d' % (a * a)])}

    def getter(k):
        def get(self):
            return fn[k](self.a)
        return depend_on_prop('a')(get)
    C = make_class(schema, get_b=getter('b'), get_c=getter('c'))
    if d.bool(0.3):
        C = make_class({'type': 'object', 'properties': {'z': {'type': 'string'}}}, [C])
    a = d.int(-4, 9)
    d.show('a=%d; %r' % (a, schema))

    def modify(what, f):
        # a modification may be refused for a property computed from it
        bad = [k for k in 'bc' if ref(con[k], fn[k](a), k in free) is REJECTED]
        got = outcome_deny(f)
        require(got[0] == 'ok' or bad, 'computed', lambda: '%s gave %r, not validated: %r' % (what, got, sorted(free)))
        if got[0] != 'ok':
            d.hit('refused')
        return got
    got = modify('C(a=%r)' % a, lambda: C(a=a) if d.bool() else C({'a': a}))
    if got[0] != 'ok':
        return
    o = got[1]

    def read(k):
        v = fn[k](a)
        want = ref(con[k], v, k in free)
        got = outcome_deny(lambda: o[k] if d.bool() else getattr(o, k))
        if k in free and ref(con[k], v, False) is REJECTED:
            d.hit('not validated')
        if want is REJECTED:
            d.hit('refused')
        require((got[0] == 'reject') == (want is REJECTED), 'computed', lambda: '%s computed as %r gave %r expected %r, not validated: %r' % (k, v, got, want, sorted(free)))
        if want is not REJECTED:
            require(same_obj({k: got[1]}, {k: want}), 'computed', lambda: '%s computed as %r gave %r expected %r' % (k, v, got[1], want))
    for _ in range(d.int(1, 6)):
        if d.bool():
            a = d.int(-4, 9)
            d.show('a = %d' % a)
            if modify('a = %r' % a, lambda: setattr(o, 'a', a) if d.bool() else o.__setitem__('a', a))[0] != 'ok':
                return
        else:
            k = d.choice('bc')
            d.show('read ' + k)
            read(k)
    for k in 'bc':
        read(k)


TESTS = [
    Test('computed', prop_computed, 800),
    Test('free', prop_free, 2500),
]
