# -*- coding: utf-8 -*-
"""P06: an object of a schema class behaves as a validated mapping, whatever the history."""
from pbt.common import *
from props.p01 import gen_schema, gen_member, gen_value, ref_evaluate, REJECTED, num_eq
from props.p04 import norm
from props.p05 import same_obj

META = dict(
    title='An object is a validated mapping, whatever the history of accesses',
    statement="After any sequence of reads, assignments and deletions, by item or by attribute and by raw name, python name, alias or negated alias, an object holds for each key "
              "the last accepted value, converted by the type of the key and opposed through a negated alias; keys, len, in, iteration, get, equality and copies agree with it. "
              "A value which is not acceptable for its type, a read only property, an undeclared key of a closed object and the deletion of a required property are refused, and a refused operation changes nothing. "
              "With lazy loading the values are refused when they are read instead of when they are assigned.",
    over=['histories', 'inputs', 'configurations'],
    quantifier='every class (properties, python names, aliases, negated aliases, read only, required, pattern and additional properties, eager or lazy) and every sequence of operations',
    why='test_object_protocol assigns half a dozen valid values; no test assigns through an alias, deletes, or looks at the object '
        'after a refused assignment.',
    files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/object.py',
           'ngoschema/managers/namespace_manager.py'],
    mechanism=[('declared properties', 'ngoschema/protocols/object_protocol.py:PropertyDescriptor'),
               ('names of a property', 'ngoschema/protocols/object_protocol.py:ObjectProtocol._properties_raw_trans'),
               ('item and attribute accesses', 'ngoschema/protocols/object_protocol.py:ObjectProtocol.__getitem__'),
               ('canonical names', 'ngoschema/protocols/object_protocol.py:split_cname'),
               ('equality and copies', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol.__eq__')],
    observe=['values read by item and attribute, keys, len, membership, equality, refusals'],
    oracle='a dictionary model of the object, with the scalar reference evaluator',
    level_note='Random exploration: about 2000 histories of up to 12 operations per quick run.',
)
RULE = ('A case is a generated class and a history of operations on one instance compared with the model after each operation. '
        'Non-trivial: at least one operation which changes the object or is refused.')
ASSUMPTIONS = ['None is not assigned to properties which have a default or constraints (a missing value)',
               'read only properties are not deleted; what an attribute gives after the deletion of its property is not claimed',
               'values are not expressions nor templates (P08)']

RAW = ['a', 'b', 'foo-bar', 'my-Prop', 'e']
EXTRA = ['zz', 'other', 'x1', 'k_n', 'x-dash']


def pyname(n):
    return n.replace('-', '_')


class Model:
    def __init__(self, d):
        import re
        self.types = {}
        for n in d.subset(RAW, 0.7) or ['a']:
            self.types[n] = gen_schema(d)
        s = {'type': 'object', 'properties': dict(self.types)}
        self.names = {n: ([n, pyname(n)] if pyname(n) != n else [n]) for n in self.types}
        self.negated = set()
        aliases, neg = {}, {}
        for n, t in self.types.items():
            if d.bool(0.25):
                aliases['al_' + pyname(n)] = n
                self.names[n].append('al_' + pyname(n))
            if t['type'] in ('integer', 'number') and d.bool(0.3):
                a = 'neg_' + pyname(n)
                neg[a] = n
                self.names[n].append(a)
                self.negated.add(a)
        if aliases:
            s['aliases'] = aliases
        if neg:
            s['negatedAliases'] = neg
        self.readonly = set(n for n in self.types if d.bool(0.12))
        if self.readonly:
            s['readOnly'] = sorted(self.readonly)
        self.required = set(n for n in self.types if d.bool(0.2))
        self.patterns = {}
        if d.bool(0.3):
            self.patterns = {'^x': dict(gen_schema(d))}
            self.patterns['^x'].pop('default', None)
            s['patternProperties'] = self.patterns
        self.additional = d.weighted((4, True), (3, False), (2, 'typed'))
        if self.additional == 'typed':
            self.additional = gen_schema(d)
            self.additional.pop('default', None)
        if self.additional is not True:
            s['additionalProperties'] = self.additional
        if self.required:
            s['required'] = sorted(self.required)
        self.lazy = d.bool(0.35)
        if self.lazy:
            s['lazyLoading'] = True
        self.schema = s
        self.data = {}   # raw name -> raw value given
        self.re = re

    def type_of(self, key):
        if key in self.types:
            return self.types[key]
        for p, t in self.patterns.items():
            if self.re.search(p, key):
                return t
        return self.additional

    def value(self, key):
        """value read, or REJECTED"""
        t = self.type_of(key)
        v = self.data[key]
        if t is True:
            return v
        return ref_evaluate(t, v)

    def set(self, key, v):
        """True if accepted"""
        t = self.type_of(key)
        if key in self.readonly or t is False:
            return False
        if not self.lazy and t is not True and ref_evaluate(t, v) is REJECTED:
            return False
        self.data[key] = v
        return True


def gen_key(d, m):
    """(name used, key of the model, negated)"""
    if d.bool(0.75):
        k = d.choice(sorted(m.types))
        n = d.choice(m.names[k])
        return n, k, n in m.negated
    k = d.choice(EXTRA)
    return k, k, False


def gen_val(d, m, key, negated, none=False):
    t = m.type_of(key)
    if not isinstance(t, dict):
        return d.choice([1, 'text', 2.5, True, [1, 2], {'q': 1}])
    if none and key in m.types and d.bool(0.08) and 'default' not in t and 'enum' not in t:  # whether None is replaced by a default is not claimed
        return None
    if negated:
        return d.int(-9, 9)
    if d.bool(0.7):
        for _ in range(5):
            v = gen_member(d, t['type'])
            if ref_evaluate(t, v) is not REJECTED:
                return v
    v = gen_value(d, t['type'])
    if v is None or isinstance(v, bool) and t['type'] != 'boolean':
        return gen_member(d, t['type'])
    return v


def check_object(m, o, what):
    keys = set(m.data)
    require(set(o) == keys and set(o.keys()) == keys and len(o) == len(keys), 'keys',
            lambda: '%s: keys %r expected %r' % (what, sorted(o), sorted(keys)))
    for k in sorted(keys):
        want = m.value(k)
        for n in m.names.get(k, [k]):
            for how in ('item', 'attribute'):
                if how == 'attribute' and '-' in n:
                    continue
                got = deny(lambda: o[n] if how == 'item' else getattr(o, n))
                if want is REJECTED:
                    require(got[0] == 'reject', 'not-refused', lambda: '%s: %s %r gave %r' % (what, how, n, got[1]))
                    continue
                w = want
                if n in m.negated and want is not None:
                    w = -want
                require(got[0] == 'ok', 'refused', lambda: '%s: %s %r was refused: %r' % (what, how, n, got[1]))
                require(same_obj(norm(got[1]), norm(w)), 'value', lambda: '%s: %s %r gave %r expected %r' % (what, how, n, got[1], w))
        if want is not REJECTED:
            require(k in o, 'in', lambda: '%s: %r not in' % (what, k))
    for k in EXTRA + sorted(m.types):
        if k not in keys:
            require(k not in o and o.get(k, 'dft') == 'dft', 'in', lambda: '%s: %r is in' % (what, k))
            got = deny(lambda: o[k])
            require(got[0] == 'reject' and isinstance(got[1], KeyError), 'missing', lambda: '%s: [%r] gave %r' % (what, k, got[1]))


def deny(fn):
    try:
        return 'ok', fn()
    except DENY as er:
        return 'reject', er


def prop_history(d):
    m = Model(d)
    C = make_class(m.schema)
    # construction
    init = {}
    for k in m.types:
        if d.bool(0.5) or k in m.required and 'default' not in m.types[k]:
            v = gen_val(d, m, k, False)
            if ref_evaluate(m.types[k], v) is REJECTED:
                raise Discard()
            init[k] = v
        elif 'default' in m.types[k]:
            if ref_evaluate(m.types[k], None) is REJECTED:
                raise Discard()
    given = {}
    for k, v in init.items():
        names = m.names[k] if isinstance(v, (int, float)) and not isinstance(v, bool) else [n for n in m.names[k] if n not in m.negated]
        n = d.choice(names)
        given[n] = -v if n in m.negated else v
    if m.additional is not False and d.bool(0.3):
        k = d.choice(['zz', 'other'])
        v = gen_val(d, m, k, False)
        if m.additional is not True and ref_evaluate(m.additional, v) is REJECTED:
            raise Discard()
        given[k] = init[k] = v
    for k in m.types:
        m.data[k] = init.get(k)
        if m.data[k] is None and 'default' in m.types[k]:
            m.data[k] = m.types[k]['default']
    m.data.update(init)
    d.show('%r' % m.schema)
    d.show('C(%r)' % given)
    o = C(given) if d.bool() else C(**given)
    check_object(m, o, 'after the construction')
    for _ in range(d.int(1, 12)):
        d.span(lambda d: step(d, m, o, C))
    d.note('lazy' if m.lazy else 'eager')


def step(d, m, o, C):
    op = d.weighted((8, 'set'), (3, 'del'), (2, 'update'), (1, 'setdefault'), (2, 'pop'), (2, 'copy'), (1, 'equal'), (1, 'validate'))
    n, k, negated = gen_key(d, m)
    if op == 'set':
        v = gen_val(d, m, k, negated, True)
        attr = '-' not in n and d.bool()
        what = 'o%s = %r' % ('.' + n if attr else '[%r]' % n, v)
        d.show(what)
        d.hit('set')
        ok = m.set(k, -v if negated and v is not None else v)

        def fn():
            if attr:
                setattr(o, n, v)
            else:
                o[n] = v
        got = deny(fn)
        require((got[0] == 'ok') == ok, 'refusal', lambda: '%s was %s: %r' % (what, 'refused' if ok else 'accepted', got[1]))
        if not ok:
            d.note('refused')
    elif op == 'del':
        if k in m.readonly:
            return
        by_attr = k in m.types and '-' not in n and n in (k, pyname(k)) and d.bool()
        what = 'del o%s' % ('.' + n if by_attr else '[%r]' % n)
        if k in m.types and n not in (k, pyname(k)):
            return
        d.show(what)
        d.hit('del')
        ok = k in m.data and k not in m.required

        def fn():
            if by_attr:
                delattr(o, n)
            else:
                del o[n]
        got = deny(fn)
        require((got[0] == 'ok') == ok, 'refusal', lambda: '%s was %s: %r' % (what, 'refused' if ok else 'accepted', got[1]))
        if ok:
            del m.data[k]
    elif op == 'update':
        vals = {}
        for _ in range(d.int(1, 3)):
            n, k, negated = gen_key(d, m)
            if negated or k in [x for x, _ in vals.values()]:
                continue
            vals[n] = (k, gen_val(d, m, k, False))
        what = 'o.update(%r)' % {n: v for n, (k, v) in vals.items()}
        d.show(what)
        d.hit('update')
        ok = True
        for n, (k, v) in vals.items():
            if not m.set(k, v):
                ok = False
                break
        got = deny(lambda: o.update({n: v for n, (k, v) in vals.items()}))
        require((got[0] == 'ok') == ok, 'refusal', lambda: '%s was %s: %r' % (what, 'refused' if ok else 'accepted', got[1]))
    elif op == 'setdefault':
        v = gen_val(d, m, k, negated)
        what = 'o.setdefault(%r, %r)' % (n, v)
        if negated:
            return
        d.show(what)
        if k in m.data:
            want = m.value(k)
            got = deny(lambda: o.setdefault(n, v))
            require((got[0] == 'reject') == (want is REJECTED), 'refusal', lambda: '%s gave %r' % (what, got))
            require(got[0] == 'reject' or same_obj(norm(got[1]), norm(want)), 'value', lambda: '%s gave %r' % (what, got))
        else:
            ok = m.set(k, v)
            got = deny(lambda: o.setdefault(n, v))
            require((got[0] == 'ok') == ok, 'refusal', lambda: '%s was %s: %r' % (what, 'refused' if ok else 'accepted', got[1]))
        d.hit('setdefault')
    elif op == 'pop':
        if k in m.readonly or n not in (k, pyname(k)):
            return
        what = 'o.pop(%r)' % n
        d.show(what)
        d.hit('pop')
        ok = k in m.data and k not in m.required and m.value(k) is not REJECTED
        got = deny(lambda: o.pop(n))
        require((got[0] == 'ok') == ok, 'refusal', lambda: '%s was %s: %r' % (what, 'refused' if ok else 'accepted', got[1]))
        if ok:
            want = m.value(k)
            require(same_obj(norm(got[1]), norm(want)), 'value', lambda: '%s gave %r expected %r' % (what, got[1], want))
            del m.data[k]
    elif op == 'copy':
        if any(m.value(k) is REJECTED for k in m.data) or any(k in m.types and k not in m.data for k in m.types):
            return
        d.show('copy, then change the copy')
        c = o.copy()
        require(type(c) is C and c == o and o == c, 'copy', lambda: 'the copy %r is not equal to %r' % (c, o))
        for k in sorted(m.types):
            if k not in m.readonly and k not in m.required:
                del c[k]
        if m.additional is True:
            c['added'] = 1
    elif op == 'equal':
        if any(m.value(k) is REJECTED for k in m.data):
            return
        as_dict = {k: m.value(k) for k in m.data}
        require(o == as_dict and dict(o) == as_dict, 'equality', lambda: '%r != %r' % (dict(o), as_dict))
        require(not o == dict(as_dict, unknown_key=1), 'equality', lambda: 'equal with one more key')
        for k in sorted(as_dict):
            require(not o == {x: v for x, v in as_dict.items() if x != k}, 'equality', lambda: 'equal without %r' % k)
            require(not o == dict(as_dict, **{k: 'other value'}), 'equality', lambda: 'equal with another %r' % k)
    elif op == 'validate':
        if any(m.value(k) is REJECTED for k in m.data):
            return
        missing = [k for k in m.required if k not in m.data]
        if not missing:
            o.do_validate()
    check_object(m, o, 'after %s' % d.desc[-1])


# ------------------------------------------------------------------ canonical names
def gen_tree(d, depth):
    """schema and value of the nested structure"""
    k = d.weighted((2, 'leaf'), (4 if depth else 0, 'object'), (3 if depth else 0, 'array'))
    if k == 'leaf':
        return {'type': 'integer'}, d.int(1, 9)
    if k == 'object':
        names = d.subset(['p', 'q-r', 's_t'], 0.6) or ['p']
        sub = {n: gen_tree(d, depth - 1) for n in names}
        return {'type': 'object', 'properties': {n: x[0] for n, x in sub.items()}}, {n: x[1] for n, x in sub.items()}
    sch, v = gen_tree(d, depth - 1)
    return {'type': 'array', 'items': sch}, [v] + [regen(d, sch) for _ in range(d.int(0, 2))]


def regen(d, sch):
    if sch['type'] == 'integer':
        return d.int(1, 9)
    if sch['type'] == 'object':
        return {n: regen(d, s) for n, s in sch['properties'].items()}
    return [regen(d, sch['items']) for _ in range(d.int(1, 2))]


def leaves(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    else:
        yield path, v


def cname(path, clean):
    s = ''
    for p in path:
        s += '[%d]' % p if isinstance(p, int) else '.' + (pyname(p) if clean else p)
    return s[1:]


def prop_cname(d):
    subs = {n: gen_tree(d, 3) for n in d.subset(['a', 'b', 'foo-bar'], 0.7) or ['a']}
    sch = {'type': 'object', 'properties': {n: x[0] for n, x in subs.items()}}
    v = {n: x[1] for n, x in subs.items()}
    if d.bool(0.3):
        sch['lazyLoading'] = True
    o = make_class(sch)(v)
    d.show('%r' % v)
    paths = dict(leaves(v))
    for path, want in sorted(paths.items(), key=repr):
        cn = cname(path, d.bool(0.3))
        if '.' not in cn:
            continue
        d.hit('depth %d' % len(path))
        equal(o[cn], want, 'canonical-name', 'o[%r] of %r' % (cn, v))
    deep = [p for p in sorted(paths, key=repr) if '.' in cname(p, False)]
    if deep:
        p = d.choice(deep)
        new = d.int(10, 30)
        cn = cname(p, d.bool(0.3))
        d.show('o[%r] = %d' % (cn, new))
        o[cn] = str(new) if d.bool(0.3) else new
        cur = v
        for x in p[:-1]:
            cur = cur[x]
        cur[p[-1]] = new
        require(norm(o) == v, 'canonical-name-set', lambda: 'o[%r] = %d gave %r expected %r' % (cn, new, norm(o), v))
        bad = deny(lambda: o.__setitem__(cn, 'not a number'))
        if not sch.get('lazyLoading'):
            require(bad[0] == 'reject' and norm(o) == v, 'canonical-name-set', lambda: 'refused %r: %r' % (cn, norm(o)))


TESTS = [
    Test('history', prop_history, 2000),
    Test('cname', prop_cname, 600),
]
