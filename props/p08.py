# -*- coding: utf-8 -*-
"""P08: computed properties are never stale."""
import copy
from collections.abc import Sequence
from decimal import Decimal

from pbt.common import *
from ngoschema.decorators import depend_on_prop
from props.p04 import norm

META = dict(
    title='Computed properties are never stale',
    statement="A property, an array item or a property of a sub-object whose value is an expression, a template or a getter always reads as its evaluation on the current values of the variables it uses: "
              "properties of the same object, items and properties of its sub-collections, properties of the objects around it. "
              "This holds whatever the order of the reads, assignments, replacements and in place modifications made before, for lazy and eager objects alike, and serialization and printing give the same values. "
              "A chain of computed properties is evaluated in an order which respects its dependencies.",
    over=['histories', 'configurations'],
    quantifier='every acyclic system of expressions, templates and getters over an object, its sub-objects and its arrays, and every sequence of reads and modifications',
    why='test_call_order follows one chain of three properties through three assignments; cache invalidation has only a test which can no longer be imported.',
    files=['ngoschema/protocols/object_protocol.py', 'ngoschema/protocols/collection_protocol.py', 'ngoschema/types/strings.py',
           'ngoschema/utils/jinja2.py', 'ngoschema/protocols/context.py', 'ngoschema/utils/utils.py', 'ngoschema/decorators.py'],
    mechanism=[('inputs of an item', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol._items_inputs_evaluate'),
               ('comparison of the inputs', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol._is_outdated'),
               ('propagation of the modifications', 'ngoschema/protocols/collection_protocol.py:CollectionProtocol._items_touch'),
               ('variables of texts', 'ngoschema/types/strings.py:Expr._inputs'),
               ('order of evaluation', 'ngoschema/types/object.py:ObjectDeserializer._call_order')],
    observe=['values read from the object, its sub-object and its arrays, in a random order, and serialized'],
    oracle='a reference evaluator of the generated expressions on the current values',
    level_note='Random exploration: about 1500 histories of up to 12 operations per quick run.',
)
RULE = ('A case is a generated system of computed values and a history of modifications and reads. '
        'Non-trivial: at least one modification of a variable of a computed value which has been read before.')
ASSUMPTIONS = ['systems are acyclic and every variable has a value',
               'objects do not depend on each other in a cycle: a sub-object does not use a value computed from its own properties by the object around it '
               '(evaluating such a pair does not terminate, whatever the order)',
               'a text using a whole object (and not its properties) as a value is not generated']

BASE = ['a', 'b', 'id', 'type']
FIELDS = ['sx', 'sy']


# expressions: ('const', n) ('ref', owner, name) ('op', o, l, r) ('max', l, r) ('len',) ('sum',) ('cond', r, l, r)
def gen_expr(d, refs, depth=2):
    k = d.weighted((5, 'ref'), (1, 'const'), (4 if depth else 0, 'op'), (1 if depth else 0, 'max'), (1, 'len'), (1, 'sum'),
                   (1 if depth else 0, 'cond'))
    if k == 'ref':
        return ('ref',) + d.choice(refs)
    if k == 'const':
        return ('const', d.int(1, 9))
    if k == 'op':
        return ('op', d.choice('+-*'), gen_expr(d, refs, depth - 1), gen_expr(d, refs, depth - 1))
    if k == 'max':
        return ('max', gen_expr(d, refs, depth - 1), gen_expr(d, refs, depth - 1))
    if k == 'cond':
        return ('cond', ('ref',) + d.choice(refs), gen_expr(d, refs, depth - 1), gen_expr(d, refs, depth - 1))
    return (k,)


def ev(e, get, l):
    k = e[0]
    if k == 'const':
        return e[1]
    if k == 'ref':
        return get(e[1], e[2])
    if k == 'op':
        x, y = ev(e[2], get, l), ev(e[3], get, l)
        return x + y if e[1] == '+' else x - y if e[1] == '-' else x * y
    if k == 'max':
        return max(ev(e[1], get, l), ev(e[2], get, l))
    if k == 'cond':
        return ev(e[2], get, l) if ev(e[1], get, l) > 3 else ev(e[3], get, l)
    return len(l) if k == 'len' else sum(l)


def refs_in(e):
    if e[0] == 'ref':
        yield e[1:]
    for x in e[1:]:
        if isinstance(x, tuple):
            yield from refs_in(x)


def name_of(d, ref, where):
    """name of the variable in a text evaluated in the collection called where"""
    owner, name = ref
    if owner == where:
        return d.choice(['%s', '%s', 'this.%s']) % name
    if owner == 'root':
        return name
    if owner == 'sub':
        s = 'sub.%s' % name
        return 'this.' + s if where == 'root' and d.bool(0.3) else s
    return 'l[%d]' % name


def render(d, e, where, jinja):
    k = e[0]
    r = lambda x: render(d, x, where, jinja)
    if k == 'const':
        return str(e[1])
    if k == 'ref':
        return name_of(d, e[1:], where)
    if k == 'op':
        return '(%s %s %s)' % (r(e[2]), e[1], r(e[3]))
    if k == 'max':
        return '[%s, %s]|max' % (r(e[1]), r(e[2])) if jinja else 'max(%s, %s)' % (r(e[1]), r(e[2]))
    if k == 'cond':
        return '(%s if %s > 3 else %s)' % (r(e[2]), r(e[1]), r(e[3]))
    if k == 'len':
        return 'l|length' if jinja else 'len(l)'
    return 'l|sum' if jinja else 'sum(l)'


def gen_text(d, refs, where, ty):
    """(text, list of parts) - parts are expressions or literals"""
    if ty == 'string' and d.bool(0.5):
        parts = d.list(lambda d: gen_expr(d, refs, 1) if d.bool(0.7) else d.choice(['-', ' and ', 'v']), 1, 3)
        if all(isinstance(p, str) for p in parts):
            parts.append(gen_expr(d, refs, 1))
        return ''.join(p if isinstance(p, str) else '{{ %s }}' % render(d, p, where, True) for p in parts), parts
    e = gen_expr(d, refs)
    jinja = d.bool(0.4)
    t = render(d, e, where, jinja)
    return ('{{ %s }}' % t if jinja else '`' + t), [e]


class System:
    def __init__(self, d):
        self.base = {n: d.int(1, 6) for n in BASE[:d.int(2, 4)]}
        self.sub = {n: d.int(1, 6) for n in FIELDS}
        self.l = [d.int(1, 6) for _ in range(d.int(1, 3))]
        self.computed = {}      # (owner, name) -> (type, parts, text)
        refs = [('root', n) for n in self.base] + [('sub', n) for n in self.sub] + [('l', 0)]
        self.order = []
        self.refs_of = {}
        on_sub = set()          # values computed from the sub-object: the sub-object does not use them
        for i in range(d.int(1, 5)):
            where = d.weighted((5, 'root'), (2, 'sub'), (2, 'items'))
            ty = d.choice(['integer', 'integer', 'number', 'string'])
            if where == 'items':
                ty = 'integer'
            key = (where, 'c%d' % i if where != 'items' else sum(1 for w, _ in self.computed if w == 'items'))
            usable = [r for r in refs if where != 'sub' or r not in on_sub]
            text, parts = gen_text(d, usable, where, ty)
            self.computed[key] = (ty, parts, text)
            self.refs_of[key] = usable
            # the text can be replaced later by any other one using the same references
            if where == 'root' and any(r[0] == 'sub' or r in on_sub for r in usable):
                if not d.bool(0.5):
                    on_sub.add(key)
                else:
                    self.refs_of[key] = usable = [r for r in usable if r[0] != 'sub' and r not in on_sub]
                    text, parts = gen_text(d, usable, where, ty)
                    self.computed[key] = (ty, parts, text)
            self.order.append(key)
            if ty == 'integer' and where != 'items':
                refs = refs + [key] * 2
        self.getter = None
        if d.bool(0.4):
            dep = d.choice([n for n in self.base] + [k[1] for k in self.order if k[0] == 'root' and self.computed[k][0] == 'integer'])
            self.getter = dep

    def value(self, owner, name):
        if owner == 'l':
            return self.l[name]
        if (owner, name) in self.computed:
            ty, parts, text = self.computed[(owner, name)]
            if len(parts) == 1:
                v = ev(parts[0], self.value, self.l)
            else:
                v = ''.join(p if isinstance(p, str) else str(ev(p, self.value, self.l)) for p in parts)
            return v if ty == 'integer' else Decimal(v) if ty == 'number' else str(v)
        return (self.base if owner == 'root' else self.sub)[name]


def read(o, owner, name, how):
    if owner == 'items':
        return o.items2[name]
    x = o if owner == 'root' else o.sub
    return x[name] if how else getattr(x, name)


def prop_history(d):
    s = System(d)
    lazy = d.bool(0.4)
    props = {n: {'type': 'integer'} for n in s.base}
    sub = {n: {'type': 'integer'} for n in s.sub}
    given = dict(s.base)
    subgiven = dict(s.sub)
    items2 = []
    for (where, name) in s.order:
        ty, parts, text = s.computed[(where, name)]
        if where == 'items':
            items2.append(text)
            continue
        p, g = (props, given) if where == 'root' else (sub, subgiven)
        if ty == 'integer' and where == 'root' and d.bool(0.25):
            g[name] = text  # evaluated by the type of the additional properties
            d.note('additional')
            continue
        p[name] = {'type': ty}
        if d.bool() and where == 'root':
            p[name]['default'] = text
        else:
            g[name] = text
    props['sub'] = {'type': 'object', 'properties': sub}
    props['l'] = {'type': 'array', 'items': {'type': 'integer'}}
    props['items2'] = {'type': 'array', 'items': {'type': 'integer'}}
    names = d.shuffle(sorted(props))
    sch = {'type': 'object', 'properties': {n: props[n] for n in names}, 'additionalProperties': {'type': 'integer'}}
    attrs = {}
    if s.getter:
        dep = s.getter
        sch['properties']['g'] = {'type': 'integer'}
        get_g = lambda self: self[dep] * 10
        declared = d.bool()
        if declared:
            sch['dependencies'] = {'g': [dep]}
        else:
            d.note('decorated getter')
            if d.bool():
                get_g = depend_on_prop(*([dep] if d.bool() else [dep, 'l']))(get_g)
            else:
                # declared twice
                for x in d.shuffle([dep, 'l']):
                    get_g = depend_on_prop(x)(get_g)
        attrs['get_g'] = get_g
        sch['properties']['h'] = {'type': 'integer'}
        attrs['get_h'] = depend_on_prop('g')(depend_on_prop('a')(lambda self: self.g + self.a))
        # the end of a chain of getters
        sch['properties']['k'] = {'type': 'integer'}
        attrs['get_k'] = lambda self: self.h + 1
        if declared and d.bool():
            d.note('declared chain')
            attrs['get_h'] = lambda self: self.g + self.a
            sch['dependencies'] = {n: sch['dependencies'].get(n) or {'h': d.shuffle(['g', 'a']), 'k': ['h']}[n] for n in d.shuffle(['g', 'h', 'k'])}
        elif d.bool():
            sch.setdefault('dependencies', {})['k'] = ['h']
        else:
            attrs['get_k'] = depend_on_prop('h')(attrs['get_k'])
    if lazy:
        sch['lazyLoading'] = True
    given.update(sub=subgiven, l=list(s.l), items2=items2)
    given = {n: given[n] for n in d.shuffle(sorted(given))}
    C = make_class(sch, **attrs)
    d.show('%s getter of %s: C(%r)' % (sch['properties'], s.getter, given))
    d.note('lazy' if lazy else 'eager')
    o = C(given)
    keys = list(s.order) + ([('root', 'g'), ('root', 'h'), ('root', 'k')] if s.getter else [])

    def check(n, what):
        for k in d.shuffle(keys)[:n]:
            if k == ('root', 'g'):
                want = s.value('root', s.getter) * 10
            elif k[0] == 'root' and k[1] in ('h', 'k'):
                want = s.value('root', s.getter) * 10 + s.value('root', 'a') + (k[1] == 'k')
            else:
                want = s.value(*k)
            got = read(o, k[0], k[1], d.bool())
            equal(got, want, 'stale', '%s of %s.%s, %s:' % (s.computed.get(k, ('', '', 'getter'))[2], k[0], k[1], what))
    check(d.int(0, len(keys)), 'first read')
    for _ in range(d.int(1, 8)):
        op = d.weighted((6, 'base'), (3, 'sub'), (2, 'l'), (1, 'append'), (1, 'shrink'), (1, 'newl'), (1, 'newsub'), (2, 'text'), (3, 'read'))
        if op == 'base':
            n, v = d.choice(sorted(s.base)), d.int(1, 9)
            s.base[n] = v
            d.show('%s = %d' % (n, v))
            if d.bool():
                setattr(o, n, v)
            else:
                o[n] = str(v)
            d.hit()
        elif op == 'sub':
            n, v = d.choice(sorted(s.sub)), d.int(1, 9)
            s.sub[n] = v
            d.show('sub.%s = %d' % (n, v))
            if d.bool():
                setattr(o.sub, n, v)
            else:
                o['sub.' + n] = v
            d.hit()
        elif op == 'l':
            i, v = d.int(0, len(s.l) - 1), d.int(1, 9)
            s.l[i] = v
            d.show('l[%d] = %d' % (i, v))
            o.l[i] = v
            d.hit()
        elif op == 'append':
            v = d.int(1, 9)
            s.l.append(v)
            d.show('l.append(%d)' % v)
            o.l.append(v)
            d.hit()
        elif op == 'shrink':
            if len(s.l) > 1:
                s.l.pop()
                d.show('l.pop()')
                o.l.pop()
                d.hit()
        elif op == 'newl':
            s.l = [d.int(1, 9) for _ in range(d.int(1, 3))]
            d.show('l = %r' % s.l)
            o.l = list(s.l)
            d.hit()
        elif op == 'newsub':
            s.sub = {n: d.int(1, 9) for n in FIELDS}
            new = dict(s.sub)
            new.update({k[1]: s.computed[k][2] for k in s.order if k[0] == 'sub'})
            d.show('sub = %r' % new)
            o.sub = new
            d.hit()
        elif op == 'text':
            k = d.choice(s.order)
            ty = s.computed[k][0]
            text, parts = gen_text(d, s.refs_of[k], k[0], ty)
            s.computed[k] = (ty, parts, text)
            d.show('%s.%s = %r' % (k[0], k[1], text))
            if k[0] == 'items':
                o.items2[k[1]] = text
            else:
                setattr(o if k[0] == 'root' else o.sub, k[1], text)
            d.hit()
        else:
            d.show('read')
            check(len(keys), 'read')
    check(len(keys), 'after the history')
    ser = o.do_serialize(no_defaults=False)
    for k in s.order:
        want = s.value(*k)
        got = ser['items2'][k[1]] if k[0] == 'items' else (ser if k[0] == 'root' else ser['sub'])[k[1]]
        require(got == want, 'serialized', lambda: '%r serialized %r expected %r' % (k, got, want))


def prop_accessors(d):
    """setters are called with the evaluated value, getters are read again once their dependencies change"""
    calls = []

    def set_p(self, value):
        calls.append(value)
        self.q = value + 1
    sch = {'type': 'object', 'dependencies': {'r': ['p', 'q']},
           'properties': {'p': {'type': 'integer', 'maximum': 50}, 'q': {'type': 'integer'}, 'r': {'type': 'integer'}}}
    C = make_class(sch, set_p=set_p, get_r=lambda self: self.p * 100 + self.q)
    v = d.int(1, 9)
    o = C(p=v, q=v + 1)
    d.hit()
    d.show('p=%d' % v)
    q = v + 1
    for _ in range(d.int(1, 6)):
        if d.bool(0.6):
            v = d.int(1, 9)
            raw = d.choice([v, str(v), '`%d' % v])
            d.show('p = %r' % raw)
            n = len(calls)
            o.p = raw
            q = v + 1
            require(calls[n:] and all(c == v for c in calls[n:]), 'setter', lambda: 'setter called with %r for %r' % (calls[n:], raw))
        elif d.bool(0.3):
            d.show('p = 51')
            n = len(calls)
            got = outcome(lambda: setattr(o, 'p', 51))
            require(got[0] == 'reject' and calls[n:] == [], 'setter', 'a refused value went to the setter')
        else:
            q = d.int(1, 9)
            d.show('q = %d' % q)
            o.q = q
        if d.bool(0.7):
            equal(o.p, v, 'setter', 'p')
            equal(o.q, q, 'setter', 'q')
            equal(o.r, v * 100 + q, 'getter', 'r')
    equal(o.r, v * 100 + q, 'getter', 'r')


def prop_printing(d):
    """what is printed is the current value, whatever was printed before"""
    sch = {'type': 'object', 'properties': {
        'n': {'type': 'integer'}, 's': {'type': 'string'}, 'l': {'type': 'array', 'items': {'type': 'integer'}},
        'o': {'type': 'object', 'properties': {'x': {'type': 'integer'}, 'p': {'type': 'object', 'properties': {'y': {'type': 'integer'}}}}},
        'a': {'type': 'array', 'items': {'type': 'object', 'properties': {'z': {'type': 'integer'}}}}}}
    if d.bool(0.3):
        sch['lazyLoading'] = True
    C = make_class(sch)
    m = {'n': 1, 's': 'x', 'l': [1], 'o': {'x': 1, 'p': {'y': 1}}, 'a': [{'z': 1}]}
    o = C(copy.deepcopy(m))
    for _ in range(d.int(1, 8)):
        k, v = d.choice(['n', 's', 'l', 'l+', 'x', 'y', 'z', 'z+', 'o', 'extra']), d.int(2, 9)
        d.show('%s %d' % (k, v))
        if k == 'n':
            m['n'] = o.n = v
        elif k == 's':
            m['s'] = o.s = 's%d' % v
        elif k == 'l':
            m['l'][0] = o.l[0] = v
        elif k == 'l+':
            m['l'].append(v)
            o.l.append(v)
        elif k == 'x':
            m['o']['x'] = o.o.x = v
        elif k == 'y':
            m['o'].setdefault('p', {})['y'] = v
            o.o.p.y = v
        elif k == 'z':
            m['a'][0]['z'] = o.a[0].z = v
        elif k == 'z+':
            m['a'].append({'z': v})
            o.a.append({'z': v})
        elif k == 'o':
            m['o'] = {'x': v, 'p': {'y': v}}
            o.o = copy.deepcopy(m['o'])
        else:
            m['e'] = v
            o['e'] = v
        if d.bool(0.6):
            fresh = C(copy.deepcopy(m))
            deep(o), deep(fresh)
            for fun in d.shuffle([repr, str]):
                for x, y in d.shuffle([(o, fresh), (o.o, fresh.o), (o.a, fresh.a), (o.l, fresh.l)]):
                    require(fun(x) == fun(y), 'printed', lambda: '%s prints %s, it is %s' % (fun.__name__, fun(x), fun(y)))
            d.hit()


def deep(x):
    # lazy values are evaluated
    if hasattr(x, 'keys'):
        for k in x:
            deep(x[k])
    elif isinstance(x, Sequence) and not isinstance(x, str):
        for y in x:
            deep(y)


TESTS = [
    Test('printing', prop_printing, 150),
    Test('history', prop_history, 1500),
    Test('accessors', prop_accessors, 200),
]
