# -*- coding: utf-8 -*-
"""P10: a class extending others behaves as the class of the merged schema."""
from decimal import Decimal

from pbt.common import *
from ngoschema.managers.type_builder import type_builder
from props.p01 import gen_schema, gen_member, ref_evaluate, REJECTED
from props.p04 import norm
from props.p05 import PATTERNS, EXTRA, gen_prop, gen_object_value, ref_object, in_domain, same_obj, outcome_deny
from props.p25 import strip
from props.p09 import valid_defaults, ref_serialize, match, plain

META = dict(
    title='A class extending others behaves as the class of the merged schemas',
    statement="A class which extends others, as Python bases or by the keyword extends of its schema, accepts, converts, rejects and serializes exactly as the class built from the merged schema: "
              "its own definitions first, then the ones of its bases in order, for properties, accessors and aliases; the union of the required, read only, not serialized, not validated properties, patterns and dependencies; its own primary keys, or those of its bases joined in order. "
              "A class attribute or a schema key named after an inherited property redefines its default and nothing else, methods are inherited, and the class is a subclass of all its bases. "
              "Declaring a class, even one whose declaration is rejected, changes nothing to the classes it extends, nor to later declarations under the same identifier.",
    over=['configurations', 'inputs'],
    quantifier='every hierarchy of classes, every way of declaring it, every submitted value and serialization option',
    why='test_object_protocol and test_inheritance extend one or two classes once; precedence, unions, redefinitions and the two ways of extending are not compared.',
    files=['ngoschema/protocols/object_protocol.py', 'ngoschema/managers/type_builder.py', 'ngoschema/protocols/schema_metaclass.py',
           'ngoschema/types/object.py'],
    mechanism=[('merge of the bases', 'ngoschema/protocols/object_protocol.py:ObjectProtocol.build'),
               ('construction and registry', 'ngoschema/managers/type_builder.py:TypeBuilder.build'),
               ('declaration of classes', 'ngoschema/protocols/schema_metaclass.py:SchemaMetaclass.__new__')],
    observe=['values, rejections and serializations of the class, of the class of the merged schema, and of the bases before and after'],
    oracle='differential: the class of the merged schema, and the reference evaluator on the merged schema',
    level_note='Random exploration: about 1800 hierarchies of 2 to 5 classes per quick run.',
)
RULE = ('A case is a hierarchy of classes and values submitted to one of them. Non-trivial: the values use definitions of at least two classes of the hierarchy.')
ASSUMPTIONS = ['no property is redefined between the two sides of a diamond (the order of the bases and the order of python differ there, see the known finding)',
               'additional properties are the ones of the class itself: the keyword additionalProperties is not inherited']

NAMES = ['a', 'b', 'c', 'd', 'g']
METHODS = ['meth', 'other']


class Node:
    pass


def gen_node(d, i, free_patterns, parents):
    n = Node()
    n.i = i
    n.parents = parents
    s = {'type': 'object'}
    names = d.subset(NAMES, 0.45)
    if names:
        s['properties'] = {k: gen_prop(d, 1 if d.bool(0.2) else 0) for k in names}
        for k in names:
            if not valid_defaults({'type': 'object', 'properties': {k: s['properties'][k]}}):
                s['properties'][k].pop('default', None)
    if free_patterns and d.bool(0.3):
        p = free_patterns.pop()
        s['patternProperties'] = {p: gen_schema(d)}
        s['patternProperties'][p].pop('default', None)
    ap = d.weighted((5, None), (2, False), (2, 'typed'))
    if ap == 'typed':
        s['additionalProperties'] = gen_schema(d)
        s['additionalProperties'].pop('default', None)
    elif ap is not None:
        s['additionalProperties'] = ap
    n.local = s
    n.attrs = {}
    n.accessors = {}
    n.methods = {}
    if d.bool(0.3):
        n.methods[d.choice(METHODS)] = i
    n.ways = {p.i: d.choice(['base', 'extends']) for p in parents}
    return n


def linear(n):
    """the nodes in order of precedence (no diamonds: depth first is the order of python as well)"""
    bases = [p for p in n.parents if n.ways[p.i] == 'base'] + [p for p in n.parents if n.ways[p.i] == 'extends']
    out = [n]
    for b in bases:
        out += [x for x in linear(b) if x not in out]
    return out


def redefined(sch, default):
    r = dict(sch)
    r['default'] = default
    return r


def merged(n):
    """merged schema of a node"""
    s = {'type': 'object'}
    chain = linear(n)
    props = {}
    for x in chain:
        for k, sch in x.props.items():
            props.setdefault(k, sch)
    if props:
        s['properties'] = props
    pats = {}
    for x in chain:
        pats.update(x.local.get('patternProperties', {}))
    if pats:
        s['patternProperties'] = pats
    if 'additionalProperties' in n.local:
        s['additionalProperties'] = n.local['additionalProperties']
    for k in ('required', 'readOnly', 'notSerialized', 'notValidated'):
        u = sorted(set().union(*[x.local.get(k, []) for x in chain]))
        if u:
            s[k] = u
    for k in ('aliases', 'negatedAliases'):
        u = {}
        for x in reversed(chain):
            u.update(x.local.get(k, {}))
        if u:
            s[k] = u
    return s


def merged_accessors(n):
    acc = {}
    for x in linear(n):
        for k, v in x.accessors.items():
            acc.setdefault(k, v)
    return acc


def getter_of(name, v):
    def get(self):
        return v
    return get


def setter_of(name):
    def set_(self, value):
        self.__dict__.setdefault('_seen', []).append((name, value))
    return set_


def gen_hierarchy(d):
    count = d.int(2, 5)
    pats = [p for p, _ in d.shuffle(PATTERNS)]
    nodes = []
    for i in range(count):
        parents = []
        if nodes:
            pool = d.shuffle(nodes)
            for p in pool[:d.weighted((6, 1), (3, 2), (1, 3), (1, 0))] if i < count - 1 else pool[:d.weighted((5, 1), (4, 2), (1, 3))]:
                # no common ancestor, and no parent which is an ancestor of another one
                if not any(set(linear(p)) & set(linear(q)) for q in parents):
                    parents.append(p)
        n = gen_node(d, i, pats, parents)
        n.props = dict(n.local.get('properties', {}))
        n.redef = {}
        inherited = {}
        for x in linear(n)[1:]:
            for k, sch in x.props.items():
                inherited.setdefault(k, sch)
        for k in sorted(inherited):
            sch = inherited[k]
            if k in n.props or sch['type'] in ('object', 'array') or not d.bool(0.25):
                continue
            for _ in range(4):
                v = gen_member(d, sch['type'])
                if v is not None and not (isinstance(v, str) and ('`' in v or '{{' in v)) and ref_evaluate(sch, v) is not REJECTED:
                    n.redef[k] = (d.choice(['attribute', 'key']), v)
                    n.props[k] = redefined(sch, v)
                    break
        all_props = dict(inherited)
        all_props.update(n.props)
        names = sorted(all_props)
        scal = [k for k in names if all_props[k]['type'] not in ('object', 'array')]
        if names and d.bool(0.4):
            n.local['readOnly'] = d.subset(names, 0.4)
        if names and d.bool(0.35):
            n.local['notSerialized'] = d.subset(names, 0.4)
        if scal and d.bool(0.35):
            n.local['notValidated'] = d.subset(scal, 0.4)
        if scal and d.bool(0.3):
            n.local['aliases'] = {d.choice(['al1', 'al2']): d.choice(scal)}
        ints = [k for k in names if all_props[k]['type'] == 'integer']
        if ints and d.bool(0.2):
            n.local['negatedAliases'] = {'neg': d.choice(ints)}
        if d.bool(0.4):
            n.local['required'] = d.subset(names, 0.3) + ([d.choice(EXTRA)] if d.bool() else [])
        if scal and d.bool(0.25):
            k = d.choice(scal)
            kind = d.choice(['get', 'set'])
            if kind == 'get':
                v = None
                for _ in range(5):
                    v = gen_member(d, all_props[k]['type'])
                    if v is not None and not isinstance(v, str) and ref_evaluate(all_props[k], v) is not REJECTED:
                        break
                else:
                    v = None
                if v is not None:
                    n.accessors['get_' + k] = getter_of(k, v)
                    n.accessors['get_' + k].value = v
            else:
                n.accessors['set_' + k] = setter_of(k)
        nodes.append(n)
    # the value of a getter has to respect the type of its property
    types_of = {}
    for n in nodes:
        for k in n.local.get('properties', {}):
            types_of[k] = types_of.get(k, 0) + 1
    for n in nodes:
        n.accessors = {k: f for k, f in n.accessors.items() if k.startswith('set_') or types_of[k[4:]] == 1}
        if any(types_of[k] > 1 for k in n.local.get('negatedAliases', {}).values()):
            del n.local['negatedAliases']
    return nodes


def declare(d, n, how):
    s = {k: v for k, v in n.local.items()}
    attrs = dict(n.accessors)
    for m, i in n.methods.items():
        attrs[m] = (lambda i: lambda self: i)(i)
    for k, (way, v) in n.redef.items():
        if way == 'attribute':
            attrs[k] = v
        else:
            s[k] = v
    bases = [p.cls for p in n.parents if n.ways[p.i] == 'base']
    given = repr(s)
    ext = [p.cls._id for p in n.parents if n.ways[p.i] == 'extends']
    if ext:
        s['extends'] = ext
    n.decl = s
    n.cls = make_class(s, bases, **attrs)
    return n.cls


def clean(s):
    """schema of the reference evaluator"""
    r = {k: v for k, v in s.items() if k not in ('aliases', 'negatedAliases', 'readOnly', 'notSerialized', 'notValidated')}
    if s.get('notValidated'):
        r['properties'] = {k: strip(v) if k in s['notValidated'] else v for k, v in r['properties'].items()}
    return r


def observe(C, vals, names):
    out = []
    for v in vals:
        got = outcome_deny(lambda: C(v))
        if got[0] == 'reject':
            out.append('rejected')
            continue
        o = got[1]
        r = outcome_deny(lambda: (repr(norm(o)) if not isinstance(o, dict) else None,
                                  sorted((k, repr(x)) for k, x in plain(o.do_serialize()).items()),
                                  sorted((k, repr(x)) for k, x in plain(o.do_serialize(no_defaults=False, no_readOnly=True)).items()),
                                  [repr(norm(o[k])) for k in names if k in o], o.__dict__.get('_seen')))
        out.append(r if r[0] == 'ok' else 'rejected')
    return out


def canon(s):
    return s


def prop_merge(d):
    nodes = gen_hierarchy(d)
    for n in nodes:
        # a default respects the constraints, even the one of a property which is not validated
        s = {k: v for k, v in merged(n).items() if k != 'notValidated'}
        if not valid_defaults(clean(s)):
            raise Discard()
    target = nodes[-1]
    vals = {}
    for n in nodes:
        s = clean(merged(n))
        vs = []
        for _ in range(2):
            v = gen_object_value(d, s, 0.9)
            for r in s.get('required', []):
                if r in EXTRA and d.bool(0.85) and r not in v:
                    v[r] = 1
            if v and in_domain(s, v):
                vs.append(v)
        vals[n.i] = vs
    before = {}
    for n in nodes:
        m = merged(n)
        declare(d, n, None)
        d.show('C%d(%s) = %r %s' % (n.i, ', '.join('C%d by %s' % (p.i, n.ways[p.i]) for p in n.parents), n.decl, sorted(n.accessors)))
        before[n.i] = observe(n.cls, vals[n.i], NAMES)
        if d.bool(0.1):
            # a declaration which is rejected
            bad = dict({'type': 'object'}, extends=['#/nowhere'])
            try:
                make_class(bad, [n.cls])
            except Exception:
                pass
            else:
                raise Violation('accepted', 'a class extending an unknown one')
    for n in nodes:
        m = merged(n)
        acc = merged_accessors(n)
        chain = linear(n)
        getters = {k[4:]: f.value for k, f in acc.items() if k.startswith('get_')}
        flat = make_class({k: v for k, v in m.items()}, **acc)
        for x in chain[1:]:
            require(issubclass(n.cls, x.cls), 'subclass', 'C%d is not a subclass of C%d' % (n.i, x.i))
        for meth in METHODS:
            own = [x for x in chain if meth in x.methods]
            if own and n.parents:
                o = outcome_deny(lambda: n.cls({r: 1 for r in m.get('required', []) if r in EXTRA} if not isinstance(m.get('additionalProperties'), dict) else {}))
                if o[0] == 'ok':
                    equal(getattr(o[1], meth)(), own[0].methods[meth], 'method', 'C%d.%s()' % (n.i, meth))
        got = observe(n.cls, vals[n.i], NAMES)
        require(repr(got) == repr(before[n.i]), 'base-changed', lambda: 'C%d gave %r before and %r after the declaration of other classes' % (n.i, before[n.i], got))
        want = observe(flat, vals[n.i], NAMES)
        for v, g, w in zip(vals[n.i], got, want):
            used = set(x.i for x in chain for k in v if k in x.props or k in x.local.get('aliases', {}))
            if len(used) > 1:
                d.hit()
            if g != 'rejected' and w != 'rejected':
                # the order of the keys and of the setters is not specified
                g, w = [x[1:-1] + (sorted(set(map(repr, x[-1] or ()))),) for x in (g[1], w[1])]
            require(repr(g) == repr(w), 'merge', lambda: 'C%d(%r) gave %r, the class of the merged schema %r gives %r' % (n.i, v, g, m, w))
            # independent reference
            vv = dict(v)
            for k, x in getters.items():
                if k in m.get('properties', {}):
                    vv[k] = x
            if not any(k in m.get('aliases', {}) or k in m.get('negatedAliases', {}) for k in v):
                ref = ref_object(clean(m), vv)
                if not getters:
                    require((ref is REJECTED) == (got[vals[n.i].index(v)] == 'rejected'), 'reference',
                            lambda: 'C%d(%r) gave %r, the reference of %r gives %r' % (n.i, v, g, m, ref))
                if ref is not REJECTED and got[vals[n.i].index(v)] != 'rejected':
                    o = n.cls(v)
                    require(same_obj(norm(o), ref), 'reference', lambda: 'C%d(%r) gave %r, the reference of %r gives %r' % (n.i, v, norm(o), m, ref))
                    al = m.get('aliases', {})
                    for a, k in al.items():
                        require(a in o and repr(o[a]) == repr(o[k]), 'alias', lambda: 'C%d(%r): %s gives %r, %s gives %r' % (n.i, v, a, o[a], k, o[k]))
                    for k in sorted(m.get('properties', {})):
                        # what is required by any of the classes is not deleted
                        p = n.cls(v)
                        r = outcome_deny(lambda: p.__delitem__(k) if len(k) % 2 else delattr(p, k))
                        if k in m.get('required', []):
                            require(r[0] == 'reject' and k in p, 'required', lambda: 'C%d: %s, required by %r, is deleted' % (n.i, k, m))
                        elif not k in m.get('readOnly', []):
                            require(r[0] == 'ok', 'required', lambda: 'C%d: %s, not required by %r, is not deleted: %r' % (n.i, k, m, r))
                    ro = m.get('readOnly', [])
                    for k in sorted(m.get('properties', {})):
                        if m['properties'][k]['type'] in ('object', 'array'):
                            continue
                        r = outcome_deny(lambda: setattr(o, k, o[k]))
                        require((r[0] == 'reject') == (k in ro), 'read-only',
                                lambda: 'C%d.%s of %r: read only %r, setting it gave %r' % (n.i, k, m, k in ro, r))


def prop_retry(d):
    """a declaration which is rejected does not change the later ones of the same identifier"""
    u = uri()
    good = {'type': 'object', 'properties': {n: gen_schema(d) for n in d.subset(['a', 'b', 'c'], 0.6)}}
    if not valid_defaults(good):
        raise Discard()
    load_schema({'$id': u, '$defs': {'Base': {'type': 'object', 'properties': {'z': {'type': 'integer'}}}}})
    i = u + '#/' + uid('late')
    bad = d.choice([{'type': 'object', 'extends': ['#/nowhere']},
                    {'type': 'object', 'extends': ['#/$defs/Base'], 'z': 'not an integer'},
                    {'type': 'object', 'properties': {'p': {'$ref': '#/nowhere'}}},
                    {'type': 'array', 'items': {'$ref': '#/nowhere'}},
                    {'$ref': '#/nowhere'}])
    d.show('%s built with %r, then %r' % (i, bad, good))
    d.hit()
    for _ in range(d.int(1, 2)):
        got = outcome_deny(lambda: type_builder.build(i, dict(bad)))
        require(got[0] == 'reject', 'accepted', lambda: '%r gave %r' % (bad, got[1]))
    C = type_builder.build(i, dict(good))
    v = gen_object_value(d, good, 1.0)
    if not v or not in_domain(good, v):
        raise Discard()
    want = ref_object(good, v)
    got = outcome_deny(lambda: norm(C(v)))
    if want is REJECTED:
        require(got[0] == 'reject', 'retry', lambda: '%r accepted: %r' % (v, got[1]))
    else:
        require(got[0] == 'ok' and same_obj(got[1], want), 'retry', lambda: '%r gave %r expected %r' % (v, got, want))


SCALARS = {'integer': ('7', 7), 'string': (7, '7'), 'number': ('7', Decimal('7')), 'boolean': ('true', True)}


def prop_union(d):
    """what each of several bases brings, keyword by keyword"""
    count = d.int(2, 4)
    classes = []
    for i in range(count):
        n = Node()
        n.i = i
        n.own = ['a%d' % i, 'b%d' % i][:d.int(1, 2)]
        n.local = {'type': 'object', 'properties': {k: {'type': 'integer', 'maximum': 10} for k in n.own}}
        n.x = n.al = n.get = n.meth = None
        n.parents = []
        if i >= 2 and d.bool(0.3):
            n.parents = [classes.pop(d.int(0, len(classes) - 1))]
        n.ways = {p.i: d.choice(['base', 'extends']) for p in n.parents}
        known = list(n.own) + [k for x in linear(n)[1:] for k in x.own]
        for kw in ('readOnly', 'notSerialized', 'notValidated', 'required'):
            if d.bool(0.45):
                n.local[kw] = d.subset(known, 0.5)
        n.extra = None
        if d.bool(0.2):
            n.extra = 'r%d' % i
            n.local['required'] = n.local.get('required', []) + [n.extra]
        n.pattern = None
        if d.bool(0.5):
            n.pattern = d.choice(sorted(SCALARS))
            n.local['patternProperties'] = {'^k%d_' % i: {'type': n.pattern}}
        if d.bool(0.4):
            n.x = (d.choice(sorted(SCALARS)), i)
            n.local['properties']['x'] = {'type': 'string', 'default': 'of %d' % i}
        if d.bool(0.4):
            n.al = d.choice(n.own)
            n.local['aliases'] = {'al': n.al, 'al%d' % i: n.al}
        n.neg = None
        if d.bool(0.3):
            n.neg = d.choice(n.own)
            n.local['negatedAliases'] = {'neg%d' % i: n.neg}
        attrs = {}
        if d.bool(0.3):
            n.meth = i
            attrs['meth'] = (lambda i: lambda self: i)(i)
        if n.x is None and d.bool(0.3):
            # an accessor of a property declared by another class
            n.get = 'got %d' % i
            attrs['get_x'] = getter_of('x', n.get)
        declare_union(d, n, attrs)
        classes.append(n)
    n = Node()
    n.i = count
    n.own = []
    n.local = {'type': 'object'}
    n.x = n.al = n.get = n.meth = n.extra = n.pattern = n.neg = None
    n.parents = d.shuffle(classes)
    n.ways = {p.i: d.choice(['base', 'base', 'extends']) for p in n.parents}
    if d.bool(0.4):
        n.local['additionalProperties'] = False
    attrs = {}
    if d.bool(0.3) and any(p.x for p in n.parents):
        # accessors of a property which only the bases declare
        attrs['set_x'] = setter_of('x')
    if d.bool(0.15):
        n.get = 'got here'
        attrs['get_x'] = getter_of('x', n.get)
    declare_union(d, n, attrs)
    chain = linear(n)
    target = n.cls
    if d.bool(0.3):
        # and what a class which adds nothing inherits
        m = Node()
        m.i, m.own, m.local, m.parents, m.ways = count + 1, [], {'type': 'object'}, [n], {n.i: d.choice(['base', 'extends'])}
        if 'additionalProperties' in n.local:
            m.local['additionalProperties'] = False
        declare_union(d, m, {})
        target = m.cls
    if sum(1 for x in chain if len(x.local) > 2) > 1:
        d.hit()
    closed = 'additionalProperties' in n.local
    for x in chain:
        require(issubclass(target, x.cls), 'subclass', lambda: 'not a subclass of C%d' % x.i)
    un = {kw: set(k for x in chain for k in x.local.get(kw, [])) for kw in ('readOnly', 'notSerialized', 'notValidated', 'required')}
    extra = [x.extra for x in chain if x.extra]
    if closed and extra:
        return
    base = {k: 1 for k in extra}
    names = [k for x in chain for k in x.own]
    full = dict(base, **{k: 3 for k in names})
    for r in extra:
        got = outcome_deny(lambda: target({k: v for k, v in full.items() if k != r}))
        require(got[0] == 'reject', 'required', lambda: 'accepted without %s' % r)
    make = lambda **kw: target(dict(full, **kw))
    o = make()
    for k in names:
        require(o[k] == 3 and getattr(o, k) == 3, 'property', lambda: '%s is %r' % (k, o[k]))
        for v in (99, '99'):
            got = outcome_deny(lambda: make(**{k: v})[k])
            require(got == ('ok', 99) if k in un['notValidated'] else got[0] == 'reject', 'not-validated', lambda: '%s=99 gave %r, not validated: %r' % (k, got, un))
        p = make()
        got = outcome_deny(lambda: setattr(p, k, 4) if k[0] == 'a' else p.__setitem__(k, 4))
        require((got[0] == 'reject') == (k in un['readOnly']), 'read-only', lambda: '%s=4 gave %r, read only: %r' % (k, got, un))
        p = make()
        got = outcome_deny(lambda: delattr(p, k) if k[0] == 'a' else p.__delitem__(k))
        if k in un['required']:
            require(got[0] == 'reject', 'required', lambda: '%s, which is required, was deleted' % k)
        elif k not in un['readOnly']:
            require(got[0] == 'ok', 'required', lambda: '%s, which is not required, was not deleted: %r' % (k, got))
    ser = o.do_serialize()
    # what is required and not serialized is given without its value
    sure = set(names) - (un['notSerialized'] & un['required'])
    require(set(ser) & sure == sure - un['notSerialized'], 'not-serialized', lambda: 'serialized %r, not serialized: %r' % (dict(ser), un))
    for x in chain:
        if x.pattern:
            v, w = SCALARS[x.pattern]
            k = 'k%d_z' % x.i
            got = outcome_deny(lambda: make(**{k: v})[k])
            require(got[0] == 'ok' and repr(got[1]) == repr(w), 'pattern', lambda: '%s=%r gave %r expected %r' % (k, v, got, w))
        if x.al:
            require(o['al%d' % x.i] == 3 and make(**{x.al: 5})['al%d' % x.i] == 5, 'alias', lambda: 'al%d gave %r' % (x.i, o['al%d' % x.i]))
        if x.neg:
            require(o['neg%d' % x.i] == -3, 'negated-alias', lambda: 'neg%d gave %r' % (x.i, o['neg%d' % x.i]))
    got = outcome_deny(lambda: make(q9=1))
    require((got[0] == 'reject') == closed, 'additional', lambda: 'q9=1 gave %r, closed: %r' % (got, closed))
    als = [x.al for x in chain if x.al]
    if als:
        p = make(**{als[0]: 6})
        require(p['al'] == 6, 'alias-precedence', lambda: 'al gave %r, the first alias is of %s' % (p['al'], als[0]))
    gets = [x for x in chain if x.get]
    xs = [x for x in chain if x.x]
    if xs:
        want = gets[0].get if gets else 'of %d' % xs[0].i
        require(o.x == want and o['x'] == want, 'precedence', lambda: 'x is %r expected %r' % (o['x'], want))
        if attrs.get('set_x') and not gets:
            p = make()
            p.x = 'new'
            require(p.x == 'new' and p.__dict__.get('_seen', [])[-1:] == [('x', 'new')], 'setter', lambda: 'x is %r, the setter was given %r' % (p.x, p.__dict__.get('_seen')))
    ms = [x for x in chain if x.meth is not None]
    if ms:
        require(o.meth() == ms[0].meth, 'method', lambda: 'meth() gives %r expected %r' % (o.meth(), ms[0].meth))


def declare_union(d, n, attrs):
    s = dict(n.local)
    bases = [p.cls for p in n.parents if n.ways[p.i] == 'base']
    ext = [p.cls._id for p in n.parents if n.ways[p.i] == 'extends']
    if ext:
        s['extends'] = ext
    d.show('C%d(%s) = %r %r' % (n.i, ', '.join('C%d by %s' % (p.i, n.ways[p.i]) for p in n.parents), s, sorted(attrs)))
    n.cls = make_class(s, bases, **attrs)


def prop_keys(d):
    """the keys of an entity: its own, or those of its bases in order; they follow its properties"""
    from ngoschema.models.instances import Entity
    nodes = []
    for i in range(d.int(2, 5)):
        n = Node()
        n.i = i
        n.parents = d.shuffle([p for p in nodes if not p.used])[:d.weighted((1, 0), (2, 1), (3, 2), (1, 3))] if i else []
        n.used = False
        for p in n.parents:
            p.used = True
        own = ['k%d' % i, 'l%d' % i][:d.int(1, 2)]
        n.props = own + [k for p in n.parents for k in p.props]
        sch = {'type': 'object', 'properties': {k: {'type': 'integer'} for k in own}}
        n.keys = []
        if d.bool(0.5):
            n.keys = d.shuffle(d.subset(n.props, 0.4) or own[:1])
            sch['primaryKeys'] = list(n.keys)
        else:
            for p in n.parents:
                n.keys += [k for k in p.keys if k not in n.keys]
        ways = {p.i: 'base' if i == 0 else d.choice(['base', 'base', 'extends']) for p in n.parents}
        bases = [p.cls for p in n.parents if ways[p.i] == 'base']
        ext = [p.cls._id for p in n.parents if ways[p.i] == 'extends']
        if ext:
            sch['extends'] = ext
            if 'primaryKeys' not in sch:
                # python bases come first
                n.keys = []
                for p in [p for p in n.parents if ways[p.i] == 'base'] + [p for p in n.parents if ways[p.i] == 'extends']:
                    n.keys += [k for k in p.keys if k not in n.keys]
        d.show('C%d(%s) = %r' % (i, ', '.join('C%d by %s' % (p.i, ways[p.i]) for p in n.parents), sch))
        n.cls = make_class(sch, bases or ([] if ext else [Entity]))
        nodes.append(n)
        if len(n.parents) > 1:
            d.hit()
    for n in nodes:
        equal(list(n.cls._primaryKeys), n.keys, 'keys', 'keys of C%d' % n.i)
        val = {k: d.int(0, 99) for k in n.props}
        o = n.cls(dict(val))
        for _ in range(d.int(1, 4)):
            want = [val[k] for k in n.keys]
            equal(list(o.identityKeys), want, 'identity-keys', 'C%d of %r' % (n.i, val))
            k = d.choice(n.props)
            val[k] = d.int(0, 99)
            d.show('%s=%r' % (k, val[k]))
            setattr(o, k, val[k])
        equal(list(o.identityKeys), [val[k] for k in n.keys], 'identity-keys', 'C%d of %r' % (n.i, val))


def prop_dependencies(d):
    """a computed property follows what each class of its hierarchy says that it depends on"""
    from ngoschema.decorators import depend_on_prop
    names = ['a', 'b', 'c', 'e']
    nodes = []
    for i in range(d.int(2, 5)):
        n = Node()
        n.i = i
        n.parents = [p for p in d.shuffle(nodes)[:d.int(1, 3)] if not p.used] if i else []
        for p in n.parents:
            p.used = True
        n.used = False
        n.root = not n.parents
        n.deps = set(x for p in n.parents for x in p.deps)
        sch = {'type': 'object', 'properties': {}}
        own = 0
        attrs = {}
        if n.root:
            sch['properties'].update({k: {'type': 'integer', 'default': 0} for k in names + ['s']})
        if d.bool(0.5):
            sch['dependencies'] = {'s': d.subset(names, 0.5) or ['a']}
            n.deps.update(sch['dependencies']['s'])
            own += 1
        if n.root or d.bool(0.4):
            f = lambda self: sum(self[k] * w for k, w in zip(names, (1, 10, 100, 1000)))
            if d.bool(0.6):
                deps = d.subset(names, 0.5) or ['b']
                f = depend_on_prop(*deps)(f)
                n.deps.update(deps)
                own += 1
            attrs['get_s'] = f
        ext = [p.cls._id for p in n.parents if d.bool(0.3)]
        bases = [p.cls for p in n.parents if p.cls._id not in ext]
        if ext:
            sch['extends'] = ext
        d.show('C%d(%s) = %r, s depends on %r' % (i, ', '.join('C%d' % p.i for p in n.parents), sch, sorted(n.deps)))
        n.cls = make_class(sch, bases, **attrs)
        nodes.append(n)
        if n.parents and own:
            d.hit()
    for n in nodes:
        o = n.cls()
        val = dict.fromkeys(names, 0)
        o.s
        for _ in range(d.int(1, 5)):
            k = d.choice(sorted(n.deps) or names)
            val[k] = d.int(1, 9)
            o[k] = val[k]
            if n.deps:
                require(o.s == sum(val[x] * w for x, w in zip(names, (1, 10, 100, 1000))), 'dependencies',
                        lambda: 'C%d: s, which depends on %r, is %r once %r' % (n.i, sorted(n.deps), o.s, val))


TESTS = [
    Test('union', prop_union, 700),
    Test('merge', prop_merge, 1800),
    Test('retry', prop_retry, 200),
    Test('keys', prop_keys, 200),
    Test('dependencies', prop_dependencies, 200),
]


def diamond():
    """a property redefined on the second side of a diamond is the one of the common base for the items"""
    A = make_class({'type': 'object', 'properties': {'x': {'type': 'integer'}}})
    B = make_class({'type': 'object'}, [A])
    C = make_class({'type': 'object', 'properties': {'x': {'type': 'string'}}}, [A])
    D = make_class({'type': 'object'}, [B, C])
    return D(x='3').x != '3'


KNOWN = {'diamond-order': diamond}
