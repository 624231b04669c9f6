# -*- coding: utf-8 -*-
"""P22: values which name their schema are objects of the class of this schema."""
import copy

from pbt.common import *
from props.p05 import outcome_deny

META = dict(
    title='A value naming its schema is built, checked and saved with that class',
    statement="Wherever an object of a class is expected - constructor, conversion, evaluation, deserialization, property, item of an array, additional or pattern property, assignment, insertion - "
              "a mapping whose $schema names a descendant of this class, by an absolute or relative reference, gives an object of the descendant: its properties are converted, completed by defaults and checked by the descendant's schema, "
              "and the value is refused when the descendant refuses it or when the schema does not exist. Without $schema the class expected is used. "
              "The serialization names the schema of exactly the objects whose class is not the one expected and gives the same objects again; the mappings given are never modified.",
    over=['inputs', 'histories'],
    quantifier='every hierarchy of classes of one or two documents, every holder of them, every tree of values with or without $schema, and every sequence of assignments and insertions',
    why='No test gives a value with a $schema: the tests of subclassing through serialized data need modules of the author which are not available.',
    files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/collection.py', 'ngoschema/types/uri.py',
           'ngoschema/protocols/serializer.py'],
    mechanism=[('constructor', 'ngoschema/protocols/object_protocol.py:ObjectProtocol.__new__'),
               ('conversion', 'ngoschema/protocols/object_protocol.py:ObjectProtocol._convert'),
               ('deserialization', 'ngoschema/protocols/object_protocol.py:ObjectProtocol._deserialize'),
               ('name of the schema', 'ngoschema/protocols/object_protocol.py:ObjectProtocol._serialize')],
    observe=['classes and properties of the objects at every place', 'refused values', 'serialized mappings', 'mappings given, afterwards'],
    oracle='a reference model of the hierarchy: class and properties expected at every place of the value',
    level_note='Random exploration: about 1500 values and histories per quick run.',
)
RULE = ('A case is a hierarchy of classes, a holder and values of it, with a few modifications. Non-trivial: at least one object is of a descendant, '
        'or a value is refused because of its descendant.')
ASSUMPTIONS = ['the schema named is the one of the class expected or of one of its descendants: other classes are not refused by the library',
               'values are complete regarding required properties of arrays and objects, and no undeclared properties are given, as these are kept without being checked']

TYPES = {'integer': [(3, 3), ('7', 7), (-2, -2), ('12', 12)], 'string': [('a', 'a'), ('xy', 'xy'), (5, '5')], 'boolean': [(True, True), ('False', False), ('True', True)]}
BAD = {'integer': 'abc', 'boolean': 'maybe'}


class Model:
    """classes by name: own schema, parent, all the properties"""

    def __init__(self, d):
        self.base = uri()
        # a second document, which may have classes of the same names
        self.base2 = uri() if d.bool(0.4) else None
        self.ids = {}
        self.parent, self.own, self.required, self.props = {}, {}, {}, {}
        names = ['B'] + ['D%d' % i for i in range(1, d.int(1, 4) + 1)]
        for i, n in enumerate(names):
            self.parent[n] = None if n == 'B' else d.choice(names[:i])
            self.ids[n] = self.base + '#/$defs/' + n
            if self.base2 and n != 'B' and d.bool(0.6):
                fragments = [f for f in names[:i + 1] if self.base2 + '#/$defs/' + f not in self.ids.values()]
                self.ids[n] = self.base2 + '#/$defs/' + d.choice(fragments)
            own = {}
            for k in d.subset(['p', 'q', 'r', 's', 't'], 0.4):
                t = d.choice(sorted(TYPES))
                own[k] = {'type': t}
                if d.bool(0.4):
                    own[k]['default'] = d.choice(TYPES[t])[1]
            if d.bool(0.35):
                # may be the class itself or one which extends it
                own['sub'] = {'$ref': d.choice(names)}
            self.own[n] = own
            self.props[n] = dict(self.props.get(self.parent[n], {}), **own)
            req = [k for k in own if own[k].get('type') and 'default' not in own[k]]
            self.required[n] = d.subset(req, 0.3) + list(self.required.get(self.parent[n], []))
            # a property which is required and redefined with a default is not required in practice
            self.required[n] = [k for k in self.required[n] if 'default' not in self.props[n][k]]
        self.names = names
        self.defs, self.defs2 = {}, {}
        for n in names:
            s = {'type': 'object', 'properties': {k: {'$ref': self.ref(d, x['$ref'], self.ids[n])} if '$ref' in x else x for k, x in self.own[n].items()}}
            if self.parent[n]:
                s['extends'] = [self.ref(d, self.parent[n], self.ids[n])]
            r = [k for k in self.required[n] if self.parent[n] is None or k not in self.required[self.parent[n]]]
            if r:
                s['required'] = r
            (self.defs if self.ids[n].startswith(self.base + '#') else self.defs2)[self.ids[n].rsplit('/', 1)[-1]] = s
        self.expect = {k: d.choice(names[:2]) for k in ('one', 'list', 'map', 'pat')}
        self.slots = {k: {'$ref': self.ref(d, n, self.base + '#')} for k, n in self.expect.items()}
        self.defs['H'] = {'type': 'object', 'properties': {
            'one': self.slots['one'], 'list': {'type': 'array', 'items': self.slots['list']},
            'map': {'type': 'object', 'additionalProperties': self.slots['map']}},
            'patternProperties': {'^x_': self.slots['pat']}}
        if d.bool(0.3):
            self.defs['H']['additionalProperties'] = False
        load_schema({'$id': self.base + '#', 'type': 'object', '$defs': self.defs})
        if self.base2:
            load_schema({'$id': self.base2 + '#', 'type': 'object', '$defs': self.defs2})
            d.show('%s: %r' % (self.base2, self.defs2))
        self.ids['H'] = self.base + '#/$defs/H'
        # whatever the class loaded first
        self.cls = {n: type_builder.load(self.ids[n]) for n in d.shuffle(names + ['H'])}
        d.show('loaded %r' % list(self.cls))

    def slot(self, name):
        return self.expect[name]

    def ref(self, d, n, origin):
        doc = origin.split('#')[0] + '#'
        return self.ids[n][len(doc) - 1:] if self.ids[n].startswith(doc) and d.bool() else self.ids[n]

    def isa(self, n, m):
        while n is not None:
            if n == m:
                return True
            n = self.parent[n]
        return False

    def gen(self, d, expected, depth=2, bad=False):
        """(value, model): model is (name of the class, properties set, schema expected)"""
        n = d.choice([m for m in self.names if self.isa(m, expected)])
        v, model = {}, {}
        for k, s in sorted(self.props[n].items()):
            if k == 'sub':
                if depth and d.bool(0.5):
                    v[k], model[k] = self.gen(d, s['$ref'], depth - 1)
                continue
            if k in self.required[n] or d.bool(0.6):
                v[k], model[k] = d.choice(TYPES[s['type']])
        if bad:
            how = [('value', k) for k in v if k != 'sub' and self.props[n][k]['type'] in BAD] + [('schema', None)]
            kind, k = d.choice(how)
            if kind == 'value':
                v[k] = BAD[self.props[n][k]['type']]
            elif kind == 'missing':
                del v[k]
            d.note("bad " + kind)
        else:
            kind = None
        self.kind = kind if bad else None
        if kind == 'schema':
            v['$schema'] = d.choice(['#/$defs/Nope', self.base + '#/$defs/Nope', 'https://verif.test/nope#'])
        elif n != expected or d.bool(0.3):
            # relative to the only document
            v['$schema'] = self.ids[n] if self.base2 else self.ref(d, n, self.base + '#')
        if n != expected:
            d.hit('descendant')
        v = dict(d.shuffle(list(v.items())))
        return v, (n, model, expected)

    def verify(self, o, model, where):
        n, props, _ = model
        require(type(o) is self.cls[n], 'class', lambda: '%s is a %s instead of %s' % (where, type(o).__name__, n))
        for k, s in self.props[n].items():
            if k == 'sub':
                if k in props:
                    self.verify(o[k], props[k], where + '.sub')
                continue
            want = props[k] if k in props else s.get('default')
            got = o[k]
            require(got == want and (want is None or type(got) is type(want)), 'property', lambda: '%s.%s of class %s is %r instead of %r' % (where, k, n, got, want))

    def verify_serialized(self, s, model, where):
        n, props, expected = model
        want = self.ids[n] if n != expected else None
        require(s.get('$schema') == want, 'serialized-schema', lambda: '%s of class %s where %s is expected is serialized with $schema %r' % (where, n, expected, s.get('$schema')))
        for k, p in self.props[n].items():
            if k == 'sub':
                if k in props:
                    require(isinstance(s.get('sub'), dict), 'serialized', lambda: '%s.sub is serialized as %r' % (where, s.get('sub')))
                    self.verify_serialized(s['sub'], props['sub'], where + '.sub')
                continue
            got = s[k] if k in s else p.get('default')
            w = props[k] if k in props else p.get('default')
            require(got == w, 'serialized', lambda: '%s.%s is serialized as %r instead of %r' % (where, k, got, w))


def gen_new(m, d, expected):
    """a mapping, or the object built from it"""
    w, wm = m.gen(d, expected, 1)
    if d.bool(0.25):
        w = m.cls[wm[0]]({k: x for k, x in w.items() if k != '$schema'})
        d.note('object')
    return w, wm


def snapshot(w):
    return copy.deepcopy(w) if type(w) is dict else dict(w.do_serialize())


def unchanged(w, g):
    require(snapshot(w) == g, 'given', lambda: 'the value given %r has become %r' % (g, w))


def gen_holder(m, d):
    v, model = {}, {}
    if d.bool(0.6):
        v['one'], model['one'] = m.gen(d, m.slot('one'))
    if d.bool(0.6):
        items = [m.gen(d, m.slot('list'), 1) for _ in range(d.int(0, 3))]
        v['list'], model['list'] = [i[0] for i in items], [i[1] for i in items]
    if d.bool(0.5):
        items = {k: m.gen(d, m.slot('map'), 1) for k in d.subset(['k', 'l', 'm'], 0.5)}
        if items:
            v['map'], model['map'] = {k: i[0] for k, i in items.items()}, {k: i[1] for k, i in items.items()}
    for k in d.subset(['x_1', 'x_2'], 0.3):
        v[k], model[k] = m.gen(d, m.slot('pat'), 1)
    return v, model


def places(model):
    """(path, model) of the objects held"""
    for k, x in model.items():
        if k == 'list':
            for i, y in enumerate(x):
                yield (k, i), y
        elif k == 'map':
            for i, y in x.items():
                yield (k, i), y
        else:
            yield (k,), x


def follow(o, path):
    for p in path:
        o = o[p]
    return o


def verify_holder(m, h, model, label):
    require(type(h) is m.cls['H'], 'class', lambda: 'the holder is a %r' % type(h))
    require(len(h['list'] or []) == len(model.get('list', [])), 'length', lambda: '%s: list is %r' % (label, h['list']))
    for path, x in places(model):
        m.verify(follow(h, path), x, '%s %s' % (label, '.'.join(map(str, path))))


def verify_holder_serialized(m, s, model, label):
    for path, x in places(model):
        m.verify_serialized(follow(s, path), x, '%s %s' % (label, '.'.join(map(str, path))))


ENTRIES = {
    'constructor': lambda c, v: c(v), 'keywords': lambda c, v: c(**v), 'create': lambda c, v: c.create(v), 'convert': lambda c, v: c.convert(v),
    'evaluate': lambda c, v: c.evaluate(v), 'deserialize': lambda c, v: c.deserialize(v), 'deserialize items': lambda c, v: c.deserialize(v, items=True),
}


OF_OBJECT = ['convert', 'evaluate', 'deserialize']


def prop_entries(d):
    """an object of the class named, from each entry point"""
    m = Model(d)
    expected = d.choice(m.names[:3])
    bad = d.bool(0.3)
    v, model = m.gen(d, expected, bad=bad)
    entry = d.choice(sorted(ENTRIES))
    d.show('%s of %s with %r; schemas %r' % (entry, expected, v, m.defs))
    given = copy.deepcopy(v)
    if not bad:
        o = ENTRIES[entry](m.cls[expected], v)
        m.verify(o, model, entry)
        s = o.do_serialize()
        require('$schema' not in s, 'serialized-schema', lambda: 'the object itself is serialized as %r' % s)
        # the object itself, given to the classes it descends from
        for n in m.names:
            if m.isa(model[0], n):
                m.cls[n].validate(o, **({'items': True} if d.bool() else {}))
                require(m.cls[n].check(o), 'object', lambda: '%r is not of %s' % (o, n))
                for how in OF_OBJECT:
                    o2 = getattr(m.cls[n], how)(o)
                    if isinstance(o2, m.cls[n]):
                        m.verify(o2, model, '%s of the object by %s' % (how, n))
                    else:
                        o2 = m.cls[n](o2)
                        m.verify(o2, model, 'from %s of the object by %s' % (how, n))
                    require(o2 == o, 'object', lambda: '%s by %s of %r gives %r' % (how, n, o, o2))
                if n != model[0]:
                    d.note('object of a descendant')
        m.verify_serialized(s, (model[0], model[1], model[0]), 'do_serialize')
        s = o.do_serialize(schema=True)
        require(s.get('$schema') == m.ids[model[0]], 'serialized-schema', lambda: 'with schema=True: %r' % s)
        s2 = m.cls[expected].serialize(o)
        m.verify_serialized(s2, model, 'serialize of the object')
        s3 = m.cls[expected].serialize(v)
        m.verify_serialized(s3, model, 'serialize of the value')
        for w in (s, s2, s3):
            o2 = m.cls[expected](w)
            m.verify(o2, model, 'from the serialization')
            require(o2 == o, 'round-trip', lambda: '%r gives %r instead of %r' % (w, o2, o))
    else:
        d.hit('refused')
        if m.kind == 'schema':
            try:
                o = ENTRIES[entry](m.cls[expected], v)
            except Exception:
                pass
            else:
                raise Violation('unknown-schema', '%r of an unknown schema gives %r' % (v, o))
        elif entry in ('constructor', 'keywords', 'create', 'evaluate', 'deserialize items'):
            def use():
                o = ENTRIES[entry](m.cls[expected], v)
                for k in m.props[model[0]]:
                    o[k]
                o.do_validate()
                return o
            got = outcome_deny(use)
            require(got[0] != 'ok', 'accepted', lambda: '%r is accepted by %s and gives %r' % (v, entry, got[1]))
    require(v == given, 'given', lambda: 'the value given %r has become %r' % (given, v))


def prop_places(d):
    """holders of objects of several classes, and modifications of them"""
    m = Model(d)
    v, model = gen_holder(m, d)
    d.show('H with %r; schemas %r' % (v, m.defs))
    given = copy.deepcopy(v)
    entry = d.choice(['constructor', 'constructor', 'keywords', 'evaluate', 'deserialize', 'deserialize items', 'convert'])
    h = ENTRIES[entry](m.cls['H'], v)
    if d.bool():
        verify_holder(m, h, model, entry)
    for _ in range(d.weighted((1, 0), (3, d.int(1, 5)))):
        op = d.choice(['one', 'list', 'append', 'insert', 'map', 'pattern', 'bad', 'sub'])
        if op == 'bad':
            slot = d.choice(['one', 'list', 'map'])
            w, wm = m.gen(d, m.slot(slot), 1, bad=True)
            if slot == 'list' and 'list' in model:
                fn = lambda: h['list'].append(w)  # noqa: E731
            elif slot == 'map' and 'map' in model:
                fn = lambda: h['map'].__setitem__('k', w)  # noqa: E731
            else:
                slot = 'one'
                w, wm = m.gen(d, m.slot(slot), 1, bad=True)
                fn = lambda: setattr(h, 'one', w)  # noqa: E731
            if m.kind == 'missing':
                continue
            d.show('refused %r in %s' % (w, slot))
            d.hit('refused')
            g = copy.deepcopy(w)
            try:
                fn()
            except Exception as er:
                if m.kind != 'schema':
                    require(isinstance(er, DENY), 'exception', lambda: 'refused with %r' % er)
            else:
                def use():
                    o = follow(h, {'list': ('list', -1), 'map': ('map', 'k'), 'one': ('one',)}[slot])
                    for k in m.props[wm[0]]:
                        o[k]
                got = outcome(use)
                require(got[0] != 'ok', 'accepted', lambda: '%r is accepted in %s' % (w, slot))
                return
            require(w == g, 'given', lambda: 'the value given %r has become %r' % (g, w))
            verify_holder(m, h, model, 'after a refusal')
            continue
        if op == 'sub':
            at = [(p, x) for p, x in places(model) if 'sub' in m.props[x[0]]]
            if not at:
                continue
            p, x = d.choice(at)
            w, wm = gen_new(m, d, m.props[x[0]]['sub']['$ref'])
            d.show('%r.sub = %r' % (p, w))
            g = snapshot(w)
            follow(h, p)['sub'] = w
            x[1]['sub'] = wm
        elif op in ('append', 'insert', 'list'):
            w, wm = gen_new(m, d, m.slot('list'))
            g = snapshot(w)
            if 'list' not in model:
                d.show('list = [%r]' % w)
                h['list'] = [w]
                model['list'] = [wm]
            elif op == 'append':
                d.show('append %r' % w)
                h['list'].append(w)
                model['list'].append(wm)
            elif op == 'insert':
                i = d.int(0, len(model['list']))
                d.show('insert %r at %d' % (w, i))
                h['list'].insert(i, w)
                model['list'].insert(i, wm)
            elif model['list']:
                i = d.int(0, len(model['list']) - 1)
                d.show('list[%d] = %r' % (i, w))
                h['list'][i] = w
                model['list'][i] = wm
        elif op == 'map':
            k = d.choice(['k', 'l', 'n'])
            w, wm = gen_new(m, d, m.slot('map'))
            g = snapshot(w)
            if 'map' not in model:
                d.show('map = {%r: %r}' % (k, w))
                h['map'] = {k: w}
                model['map'] = {k: wm}
            else:
                d.show('map[%r] = %r' % (k, w))
                h['map'][k] = w
                model['map'][k] = wm
        else:
            k = 'one' if op == 'one' else d.choice(['x_1', 'x_2', 'x_3'])
            w, wm = gen_new(m, d, m.slot('one' if op == 'one' else 'pat'))
            g = snapshot(w)
            d.show('%s = %r' % (k, w))
            if d.bool():
                h[k] = w
            else:
                setattr(h, k, w)
            model[k] = wm
        unchanged(w, g)
        if d.bool(0.6):
            verify_holder(m, h, model, 'after modification')
    require(v == given, 'given', lambda: 'the value given %r has become %r' % (given, v))
    verify_holder(m, h, model, 'finally')
    s = h.do_serialize()
    verify_holder_serialized(m, s, model, 'serialized')
    s0 = copy.deepcopy(s)
    for again in (m.cls['H'](s), m.cls['H'].deserialize(s), m.cls['H'](**s)):
        verify_holder(m, again, model, 'from the serialization')
        require(again == h, 'round-trip', lambda: '%r gives %r instead of %r' % (s, again, h))
    require(s == s0, 'given', lambda: 'the serialization %r has become %r' % (s0, s))
    verify_holder_serialized(m, m.cls['H'].serialize(s), model, 'serialized twice')


TESTS = [Test('entries', prop_entries, 800), Test('places', prop_places, 700)]
