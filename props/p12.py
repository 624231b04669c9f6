# -*- coding: utf-8 -*-
"""P12: a reference stands for the schema it points to."""
import copy

from pbt.common import *
from props.p01 import gen_schema, gen_member, ref_evaluate, REJECTED
from props.p04 import norm
from props.p05 import gen_object_schema, gen_object_value, gen_for, gen_prop, ref_any, key_schema, same_obj, in_domain, outcome_deny, missing_arrays, gen_array_value

META = dict(
    title='A $ref stands for the schema it points to, recursive definitions included',
    statement="Replacing any part of a schema by a reference to a definition holding this part gives a type which accepts the same values and gives the same results: "
              "wherever the part is (root, property, pattern or additional property, array item, another definition), wherever the definition is (same or another document, "
              "nested definitions, a property of another definition, a definition which is itself a reference), whether the reference is relative or absolute, and whatever the order in which "
              "the definitions are loaded. Definitions can refer to themselves and to each other to any depth; keywords next to a reference to a scalar type complete it; "
              "a value behind a reference to an object or array definition is an instance of the very type which loading the definition gives, and the documents are not modified.",
    over=['inputs', 'configurations'],
    quantifier='every schema and every way to factor it into definitions over one or two documents, every order of loading, every value, to any depth of recursion',
    why='The tests load a handful of fixed documents, once and in one order; mutual recursion, chains of references, references into properties, references with '
        'sibling keywords and the equivalence with the inlined schema are not tested.',
    files=['ngoschema/managers/type_builder.py', 'ngoschema/protocols/type_proxy.py', 'ngoschema/resolvers/uri_resolver.py',
           'ngoschema/protocols/type_protocol.py', 'ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/array_protocol.py'],
    mechanism=[('building and loading types by id', 'ngoschema/managers/type_builder.py:TypeBuilder.build'),
               ('types under construction', 'ngoschema/protocols/type_proxy.py:TypeProxy'),
               ('resolving references', 'ngoschema/resolvers/uri_resolver.py:resolve_uri'),
               ('completing a type with more keywords', 'ngoschema/protocols/type_protocol.py:TypeProtocol.extend_type')],
    observe=['values and rejections of the factored schema', 'class of the values behind references', 'content of the documents'],
    oracle='the reference evaluators of scalars, arrays and objects on the inlined schema (the recursion unrolled to the depth of the value)',
    level_note='Random exploration: about 2100 factored or recursive schemas per quick run. Trusts the reference evaluators.',
)
RULE = ('A case is a generated schema, a way to factor it into definitions, an order of loading and a value. Non-trivial: '
        'at least one reference is followed by the value.')
ASSUMPTIONS = ['keywords next to a reference are generated for references to scalar types which are not under construction',
               'a class declared for a definition is declared before this definition is loaded',
               'references are absolute or fragments of the document they are in',
               'the value domain is the one of P04 and P05']


class Docs:
    """documents and the definitions factored out"""

    def __init__(self, d):
        self.d = d
        self.docs = {}
        for _ in range(d.weighted((3, 1), (2, 2))):
            u = uri()
            self.docs[u] = {'$id': u, '$defs': {}}
        self.refs = 0
        self.known = []  # (schema, uri)
        self.objects = []

    def add(self, doc, sch):
        """where in the document to hold a definition"""
        d = self.d
        defs = self.docs[doc]['$defs']
        n = uid('D')
        where = d.weighted((6, 'def'), (2, 'nested'), (2, 'property'), (1, 'items'))
        if where == 'nested':
            m = uid('H')
            defs[m] = {'type': 'object', '$defs': {n: sch}}
            p = '/$defs/%s/$defs/%s' % (m, n)
        elif where == 'property':
            m = uid('H')
            defs[m] = {'type': 'object', 'properties': {'q': sch, 'r': {'type': 'string'}}}
            p = '/$defs/%s/properties/q' % m
        elif where == 'items':
            m = uid('H')
            defs[m] = {'type': 'array', 'items': sch}
            p = '/$defs/%s/items' % m
        else:
            defs[n] = sch
            p = '/$defs/' + n
        return p

    def ref(self, sch, doc):
        """a reference from doc to a new definition of the schema"""
        d = self.d
        target = d.choice(sorted(self.docs))
        inner = self.factor(sch, target, root=False)
        p = self.add(target, inner)
        self.known.append(target + '#' + p)
        for _ in range(d.weighted((6, 0), (2, 1), (1, 2))):
            # a definition which is itself a reference
            via = d.choice(sorted(self.docs))
            p = self.add(via, {'$ref': self.form(via, target, p)})
            target = via
            self.known.append(target + '#' + p)
        self.refs += 1
        return {'$ref': self.form(doc, target, p)}

    def form(self, doc, target, p):
        return '#' + p if doc == target and self.d.bool(0.7) else target + '#' + p

    def part(self, sch, doc, p=0.45):
        if not isinstance(sch, dict):
            return sch
        d = self.d
        if d.bool(p):
            kws = [k for k in sch if k != 'type']
            if sch['type'] not in ('array', 'object') and kws and d.bool(0.4):
                aside = d.subset(kws, 0.5)
                r = self.ref({k: v for k, v in sch.items() if k not in aside}, doc)
                r.update((k, sch[k]) for k in aside)
                return r
            return self.ref(sch, doc)
        return self.factor(sch, doc)

    def factor(self, sch, doc, root=True):
        s = dict(sch)
        for k in ('properties', 'patternProperties'):
            if k in s:
                s[k] = {n: self.part(t, doc) for n, t in s[k].items()}
        if isinstance(s.get('additionalProperties'), dict):
            s['additionalProperties'] = self.part(s['additionalProperties'], doc)
        if s.get('type') == 'array' and 'items' in s:
            s['items'] = [self.part(t, doc) for t in s['items']] if isinstance(s['items'], list) else self.part(s['items'], doc)
        return s

    def load(self):
        self.before = copy.deepcopy(self.docs)
        for doc in self.d.shuffle(sorted(self.docs)):
            load_schema(self.docs[doc])
        for u in self.d.shuffle(self.known)[:self.d.choice([0, 0, 1, 3])]:
            type_builder.load(u)


def check_result(d, got, want, what, s):
    if want is REJECTED:
        if got[0] == 'ok':
            got = outcome_deny(lambda: norm(got[1]))
        require(got[0] == 'reject', 'accepted', lambda: '%s gave %r' % (what, got[1]))
    else:
        require(got[0] == 'ok', 'rejected', lambda: '%s was rejected: %r expected %r' % (what, str(got[1])[:300], want))
        n = norm(got[1])
        require(same_obj(n, want), 'value', lambda: '%s gave %r expected %r' % (what, n, want))


def ref_full(s, v):
    """like ref_any, with arrays of objects"""
    t = s['type']
    if t == 'array' and isinstance(s.get('items'), dict) and s['items']['type'] in ('array', 'object'):
        out = [ref_full(s['items'], x) for x in v or []]
        return REJECTED if REJECTED in out else out
    if t == 'object' and v is not None:
        out = {}
        for k in list(v) + [k for k in s.get('properties', {}) if k not in v]:
            sch = key_schema(s, k)
            if sch is False:
                return REJECTED
            out[k] = v[k] if sch is True else ref_full(sch, v.get(k))
            if out[k] is REJECTED:
                return REJECTED
        return out
    return ref_any(s, v)


def prop_factored(d):
    kind = d.weighted((5, 'object'), (2, 'array'), (3, 'scalar'))
    if kind == 'scalar':
        s = gen_schema(d)
    elif kind == 'array':
        while True:
            s = gen_prop(d, 1)
            if s['type'] == 'array':
                break
    else:
        s = gen_object_schema(d)
    v = gen_for(d, s, 0.95)
    holder = {'type': 'object', 'properties': {'p': s}}
    if v is None or not v and kind != 'scalar' or not in_domain(holder, {'p': v}):
        raise Discard()
    docs = Docs(d)
    doc = sorted(docs.docs)[0]
    r = docs.part(s, doc, 0.9)
    mode = d.choice(['property', 'item', 'load', 'class', 'additional'])
    top = {'property': {'type': 'object', 'properties': {'p': r}}, 'additional': {'type': 'object', 'additionalProperties': r},
           'item': {'type': 'object', 'properties': {'p': {'type': 'array', 'items': r}}}}.get(mode, r)
    n = uid('Top')
    docs.docs[doc]['$defs'][n] = top
    u = '%s#/$defs/%s' % (doc, n)
    d.show('%s %r in %r' % (mode, v, docs.docs))
    if mode == 'item' and 'default' in s:
        raise Discard()
    if mode in ('load', 'class') and kind == 'object' and missing_arrays(s, v):
        raise Discard()
    docs.load()
    d.note(mode)
    if docs.refs:
        d.hit(kind)
    want = ref_any(s, v)
    before = repr(v)

    def run():
        C = type_builder.load(u)
        if mode in ('property', 'additional'):
            o = C({'p': v})
            return o['p'] if mode == 'additional' else o.p
        if mode == 'item':
            return C(p=[v]).p[0]
        if kind == 'object' and mode == 'class':
            C2 = SchemaMetaclass(uid('Cls'), (), {'_id': u})
            require(C2 is C or issubclass(C2, C) or C2._id == u, 'class', lambda: 'class of %s' % u)
            return C2(v)
        if kind == 'scalar' or kind == 'array' and mode == 'class':
            return C.evaluate(v) if kind == 'scalar' and d.bool() else C(v)
        return C(v)
    check_result(d, outcome_deny(run), want, '%s %r of %r' % (mode, v, docs.docs), s)
    require(docs.docs == docs.before, 'document-modified', lambda: '%r became %r' % (docs.before, docs.docs))
    require(repr(v) == before, 'input-modified', lambda: '%s became %r' % (before, v))


def prop_recursive(d):
    """definitions which refer to themselves and to each other"""
    base = uri()
    other = uri()
    n = d.int(1, 3)
    names = ['T%d' % i for i in range(n)]
    home = {m: d.choice([base, base, other]) for m in names}
    docs = {base: {'$id': base, '$defs': {}}, other: {'$id': other, '$defs': {}}}
    links = {}
    plain_ = {}
    for m in names:
        s = {'type': 'object', 'properties': {'v': {'type': d.choice(['integer', 'string', 'number'])}}}
        if d.bool(0.4):
            s['properties']['v'] = gen_schema(d)
            t = s['properties']['v']
            if 'default' in t and (d.bool() or ref_any(t, t['default']) is REJECTED):
                t.pop('default')
        if d.bool(0.3):
            s['lazyLoading'] = True
        if d.bool(0.4):
            s['additionalProperties'] = False
        plain_[m] = s
        links[m] = {}
        for p in d.subset(['next', 'kids', 'map', 'left', 'lists'], 0.5) or ['next']:
            links[m][p] = d.choice(names)

    def refto(m, p=None):
        t = links[m][p]
        f = '#/$defs/' + t
        return {'$ref': f if home[t] == home[m] and d.bool(0.6) else home[t] + f}

    for m in names:
        s = copy.deepcopy(plain_[m])
        for p in links[m]:
            r = refto(m, p)
            if p == 'kids':
                r = {'type': 'array', 'items': r}
            elif p == 'lists':
                r = {'type': 'array', 'items': {'type': 'array', 'items': r}}
            elif p == 'map':
                r = {'type': 'object', 'additionalProperties': r}
            s['properties'][p] = r
        docs[home[m]]['$defs'][m] = s
    url = {m: '%s#/$defs/%s' % (home[m], m) for m in names}

    def value(m, depth):
        v = {}
        if d.bool(0.85):
            x = gen_for(d, plain_[m]['properties']['v'], 0.97)
            if x is not None:
                v['v'] = x
        if depth:
            for p, t in links[m].items():
                if d.bool(0.75):
                    if p == 'kids':
                        v[p] = [value(t, depth - 1) for _ in range(d.int(1, 2))]
                    elif p == 'lists':
                        v[p] = [[value(t, depth - 1)] for _ in range(d.int(1, 2))]
                    elif p == 'map':
                        v[p] = {k: value(t, depth - 1) for k in d.subset(['k', 'l', 'm'], 0.4) or ['k']}
                    else:
                        v[p] = value(t, depth - 1)
        return v or {'v': d.choice([1, 2])}

    def expand(m, depth):
        s = copy.deepcopy(plain_[m])
        for p, t in links[m].items():
            e = expand(t, depth - 1) if depth else {'type': 'object'}
            if p == 'kids':
                e = {'type': 'array', 'items': e}
            elif p == 'lists':
                e = {'type': 'array', 'items': {'type': 'array', 'items': e}}
            elif p == 'map':
                e = {'type': 'object', 'additionalProperties': e}
            s['properties'][p] = e
        return s

    def norm_missing(x):
        """missing sub-collections are None or empty"""
        if isinstance(x, dict):
            return {k: norm_missing(y) for k, y in x.items() if not (isinstance(y, (dict, list)) and not y) and y is not None}
        if isinstance(x, list):
            return [norm_missing(y) for y in x]
        return x

    depth = d.weighted((2, 1), (3, 2), (2, 3))
    m = d.choice(names)
    v = value(m, depth)
    if len(repr(v)) > 1500:
        raise Discard()
    d.show('%r of %s in %r' % (v, m, docs))
    for doc in d.shuffle(sorted(docs)):
        load_schema(docs[doc])
    before = copy.deepcopy(docs)
    order = d.shuffle(names)
    C = None
    preload = order[:d.int(0, n)]
    for t in preload:
        type_builder.load(url[t])
    if d.bool(0.3):
        # from a reference in a third place
        C = make_class({'type': 'object', 'properties': {'p': {'$ref': url[m]}}})
        run = lambda: C(p=v).p
    elif not preload and d.bool(0.4):
        # a class declared for a definition, before it is referred to
        C = SchemaMetaclass(uid('Cls'), (), {'_id': url[m]})
        run = lambda: C(v)
    else:
        run = lambda: type_builder.load(url[m])(v)
    s = expand(m, depth)
    want = ref_full(s, v)
    if 'map' in repr(v) or 'next' in repr(v) or 'kids' in repr(v) or 'left' in repr(v) or 'lists' in repr(v):
        d.hit('depth%d' % depth)

    def get():
        o = run()
        return o, norm(o)
    got = outcome_deny(get)
    what = '%r of %s in %r' % (v, m, docs)
    if want is REJECTED:
        require(got[0] == 'reject', 'accepted', lambda: '%s gave %r' % (what, got[1][1]))
        return
    require(got[0] == 'ok', 'rejected', lambda: '%s was rejected: %r' % (what, str(got[1])[:300]))
    o, x = got[1]
    require(same_obj(norm_missing(x), norm_missing(want)), 'value', lambda: '%s gave %r expected %r' % (what, x, want))
    require(docs == before, 'document-modified', lambda: '%r became %r' % (before, docs))

    def walk(m, o, v, top=False):
        T = type_builder.load(url[m])
        require(isinstance(o, T) and (top or type(o) is T), 'class', lambda: '%s: %r is a %r and not a %r' % (what, v, type(o), T))
        for p, t in links[m].items():
            if p in v:
                x = o[p]
                if p == 'kids':
                    for i, y in enumerate(v[p]):
                        walk(t, x[i], y)
                elif p == 'lists':
                    for i, y in enumerate(v[p]):
                        walk(t, x[i][0], y[0])
                elif p == 'map':
                    for k, y in v[p].items():
                        walk(t, x[k], y)
                else:
                    walk(t, x, v[p])
    walk(m, o, v, True)
    ser = o.do_serialize(no_defaults=False)

    def drop(a):
        return norm_missing(a)
    require(same_obj(drop(plain_dict(ser)), drop(want)), 'serialized', lambda: '%s serialized %r expected %r' % (what, plain_dict(ser), want))
    # the same definitions written in place give the same serializations
    inplace = expand(m, depth + 1)
    if len(repr(inplace)) > 3000:
        return
    d.hit('twin')
    twin = make_class(inplace)(copy.deepcopy(v))
    for _ in range(d.int(1, 2)):
        opts = {}
        if d.bool(0.7):
            opts['no_defaults'] = d.bool()
        if d.bool(0.4):
            opts['excludes'] = d.subset(['v', 'next', 'kids', 'left', 'map', 'lists'], 0.3)
        if d.bool(0.3):
            opts['no_readOnly'] = d.bool()
        a, b = o, twin
        if not opts.get('excludes') and d.bool():
            a, b = [x.serialize for x in (type(o), type(twin))]
            a, b = a(o, **opts), b(twin, **opts)
        else:
            a, b = o.do_serialize(**opts), twin.do_serialize(**opts)
        require(same_obj(drop(plain_dict(a)), drop(plain_dict(b))), 'twin-serialized', lambda: '%s serialized with %r %r expected %r' % (what, opts, plain_dict(a), plain_dict(b)))


def plain_dict(x):
    if isinstance(x, dict):
        return {k: plain_dict(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain_dict(v) for v in x]
    return x


def prop_extending(d):
    """definitions extending others and holding objects of each other, descendants included, whatever is loaded first"""
    n = d.int(2, 5)
    names = ['E%d' % i for i in range(n)]
    bases = [uri() for _ in range(d.int(1, 2))]
    home = {m: d.choice(bases) for m in names}
    url = {m: '%s#/$defs/%s' % (home[m], m) for m in names}
    docs = {b: {'$id': b, '$defs': {}} for b in bases}
    ancestors, own, links = {}, {}, {}

    def refto(m, t):
        f = '#/$defs/' + t
        return f if home[t] == home[m] and d.bool(0.6) else home[t] + f

    for i, m in enumerate(names):
        ext = []
        for e in d.subset(d.shuffle(names[:i]), 0.5)[:2]:
            # one line of bases never holds a base of another one
            if not any((ancestors[e] | {e}) & (ancestors[x] | {x}) for x in ext):
                ext.append(e)
        ancestors[m] = set(ext).union(*[ancestors[e] for e in ext])
        own[m] = {'v%d' % i: d.weighted((2, {'type': 'integer'}), (2, {'type': 'integer', 'maximum': d.int(2, 5)}), (1, {'type': 'number', 'minimum': 0}))}
        links[m] = {}
        s = {'type': 'object', 'properties': dict(own[m])}
        for k in d.subset(['o', 'a', 'm'], 0.5):
            t = d.choice(names)
            links[m]['%s%d' % (k, i)] = t
            r = {'$ref': refto(m, t)}
            s['properties']['%s%d' % (k, i)] = {'o': r, 'a': {'type': 'array', 'items': r}, 'm': {'type': 'object', 'additionalProperties': r}}[k]
        if d.bool(0.5):
            s['properties'] = dict(d.shuffle(sorted(s['properties'].items())))
        if ext:
            s['extends'] = [refto(m, e) for e in ext]
        if d.bool(0.3):
            s['lazyLoading'] = d.bool()
        docs[home[m]]['$defs'][m] = s
    props = {m: {k: v for x in [m] + sorted(ancestors[m]) for k, v in own[x].items()} for m in names}
    tos = {m: {k: v for x in [m] + sorted(ancestors[m]) for k, v in links[x].items()} for m in names}
    if not any(tos.values()) or not any(ancestors.values()):
        raise Discard()

    def value(m, depth):
        v = {}
        for k in d.subset(sorted(props[m]), 0.8):
            v[k] = d.weighted((6, d.int(0, 2)), (2, str(d.int(0, 2))), (0.6, d.int(3, 7)), (0.3, -1), (0.2, 'x'))
        if depth:
            for k in d.subset(sorted(tos[m]), 0.7):
                sub = value(tos[m][k], depth - 1)
                v[k] = {'o': sub, 'a': [sub], 'm': {'k': sub}}[k[0]]
        return v or {sorted(props[m])[0]: 1}

    def valid(m, v):
        for k, x in v.items():
            if k in tos[m]:
                if not valid(tos[m][k], {'o': lambda: x, 'a': lambda: x[0], 'm': lambda: x['k']}[k[0]]()):
                    return False
            else:
                if x == 'x':
                    return False
                t = props[m][k]
                if not t.get('minimum', -9) <= int(x) <= t.get('maximum', 9):
                    return False
        return True

    for doc in d.shuffle(sorted(docs)):
        load_schema(docs[doc])
    order = d.shuffle(names)[:d.int(1, n)]
    m = d.choice(names)
    v = value(m, d.int(1, 3))
    d.show('%r of %s in %r after %r' % (v, m, docs, order))
    if len(repr(v)) > 1500:
        raise Discard()
    what = '%r of %s in %r after %r' % (v, m, docs, order)
    for t in order:
        type_builder.load(url[t])
    for a in names:
        for b in names:
            got = issubclass(type_builder.load(url[a]), type_builder.load(url[b]))
            require(got is (a == b or b in ancestors[a]), 'subclass', lambda: '%s: %s of %s is %r' % (what, a, b, got))
    T = type_builder.load(url[m])

    def walk(m, o, v):
        T = type_builder.load(url[m])
        require(type(o) is T, 'class', lambda: '%s: %r is a %r and not a %r' % (what, v, type(o), T))
        for k, x in v.items():
            if k in tos[m]:
                y = o[k]
                walk(tos[m][k], {'o': lambda: y, 'a': lambda: y[0], 'm': lambda: y['k']}[k[0]](), {'o': lambda: x, 'a': lambda: x[0], 'm': lambda: x['k']}[k[0]]())
            else:
                y = o[k]
                require(y == int(x) and not isinstance(y, str), 'value', lambda: '%s: %s is %r instead of %r' % (what, k, y, x))

    depth = max([len(ancestors[x]) for x in names])
    if depth > 1 or any(t in ancestors.get(x, ()) or x in ancestors[t] for x in names for t in links[x].values()):
        d.hit('related')
    before = copy.deepcopy(v)
    got = outcome_deny(lambda: walk(m, T(v), v))
    equal(v, before, 'input-modified')
    if valid(m, v):
        require(got[0] == 'ok', 'rejected', lambda: '%s was rejected: %r' % (what, str(got[1])[:300]))
    else:
        require(got[0] == 'reject', 'accepted', lambda: '%s was accepted' % what)


TESTS = [
    Test('factored', prop_factored, 1400),
    Test('recursive', prop_recursive, 700),
    Test('extending', prop_extending, 500),
]
