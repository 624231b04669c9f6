# -*- coding: utf-8 -*-
"""P18: chained mappings, contexts, mappings with equivalent keys, registries."""
import gc
from collections import OrderedDict

from pbt.common import *
from ngoschema.utils import ReadOnlyChainMap, CaseInsensitiveDict, UriDict, Registry, GenericClassRegistry
from ngoschema.utils.utils import Context, WeakRegistry

META = dict(
    title='Contexts, chained mappings and registries answer as the mappings they combine',
    statement="A chain of mappings or a context is at any time the mapping in which, for each key, the first of its mappings which has it wins, in the order of first appearance, whatever their nesting, "
              "the children made of it and later modifications of the mappings; a child context adds its local values then the mappings given before those of its parent, which it leaves as it is; "
              "entering a context gives an independent copy. Mappings with case insensitive keys or uris hold one value for equivalent keys. "
              "A registry and all its ancestors hold what is registered, in order of registration, until it is unregistered; weak registries hold what is alive.",
    over=['histories'],
    quantifier='every sequence of constructions and modifications of chains, contexts, mappings and registries',
    why='No test of the repository uses them directly.',
    files=['ngoschema/utils/utils.py'],
    mechanism=[('chains', 'ngoschema/utils/utils.py:ReadOnlyChainMap'), ('contexts', 'ngoschema/utils/utils.py:Context'),
               ('equivalent keys', 'ngoschema/utils/utils.py:_KeyModifierMapping'), ('registries', 'ngoschema/utils/utils.py:Registry'),
               ('registration of classes', 'ngoschema/utils/utils.py:GenericClassRegistry')],
    observe=['lookups, membership, iteration, length, merged and flattened content', 'content of a registry and of its ancestors'],
    oracle='lists of dictionaries searched in order; ordered dictionaries on normalised keys',
    level_note='Random exploration: about 3 000 histories per quick run.',
)
RULE = 'A case is a history of constructions, modifications and look ups. Non-trivial: a key is in several mappings, equivalent keys are used, or a registry has ancestors.'
ASSUMPTIONS = ['the keys of a context are strings', 'the ancestors of a registry form a tree and are modified only through it or directly with other keys',
               'contexts are completed (append, prepend) before they are nested in other chains']

KEYS = ['a', 'b', 'c', 'd', 'local', 'maps', '']


class Model:
    """flat list of the dictionaries combined"""

    def __init__(self, flat, direct=()):
        self.flat = flat
        self.direct = list(direct)

    def look(self, k):
        for m in self.flat:
            if k in m:
                return True, m[k]
        return False, None

    def keys(self):
        out = []
        for m in self.flat:
            out += [k for k in m if k not in out]
        return out

    def rkeys(self):
        out = []
        for m in reversed(self.flat):
            out += [k for k in m if k not in out]
        return out


def check_chain(d, c, model, name):
    for k in KEYS + ['zz']:
        ok, v = model.look(k)
        require((k in c) == ok, 'contains', lambda: '%r in %s is %r' % (k, name, k in c))
        if ok:
            require(c[k] is v, 'getitem', lambda: '%s[%r] is %r expected %r' % (name, k, c[k], v))
        else:
            try:
                c[k]
                raise Violation('missing', '%s[%r] is %r' % (name, k, c[k]))
            except KeyError:
                pass
        require(c.get(k, 'dft') is (v if ok else 'dft') or not ok and c.get(k, 'dft') == 'dft', 'get', lambda: '%s.get(%r)' % (name, k))
    equal(list(c), model.keys(), 'iteration', name)
    equal(len(c), len(model.keys()), 'length', name)
    equal(dict(c.items()), {k: model.look(k)[1] for k in model.keys()}, 'items', name)
    equal(c.merged, {k: model.look(k)[1] for k in model.keys()}, 'merged', name)
    equal(list(c.reversed_keys()), model.rkeys(), 'reversed-keys', name)
    require([id(m) for m in c.maps_flattened if len(m)] == [id(m) for m in model.flat if len(m)], 'flattened',
            lambda: 'flattened mappings of %s are %r expected %r' % (name, c.maps_flattened, model.flat))


def gen_map(d):
    return {k: d.int(0, 9) if d.bool(0.7) else d.choice([[d.int(0, 9)], None, 0, '', []]) for k in d.shuffle(d.subset(KEYS, 0.3))}


class Special(dict):
    pass


def prop_chain(d):
    raw = [gen_map(d) if d.bool(0.8) else Special(gen_map(d)) for _ in range(d.int(1, 4))]
    while d.bool(0.3):
        # equal to another mapping
        m = d.choice(raw)
        raw.append(type(m)(m))
    objs = []   # (name, object, model, completed)

    def add(name, c, flat, direct):
        objs.append([name, c, Model(flat, direct), d.bool(0.7)])
        d.show(name)

    for _ in range(d.int(2, 14)):
        op = d.weighted((3, 'chain'), (3, 'context'), (3, 'child'), (2, 'extend'), (3, 'modify'), (2, 'enter'), (1, 'find'), (1, 'hash'))
        if op in ('chain', 'context'):
            parts, flat = [], []
            for _ in range(d.int(0, 3)):
                if objs and d.bool(0.4):
                    o = d.choice(objs)
                    o[3] = True
                    parts.append(o[1])
                    flat += o[2].flat
                else:
                    m = d.choice(raw)
                    parts.append(m)
                    flat.append(m)
            if op == 'chain':
                add('c%d=Chain(%r)' % (len(objs), parts), ReadOnlyChainMap(*parts), flat, parts)
            else:
                local = {k: d.int(0, 9) for k in d.subset(['a', 'b', 'local', 'maps'], 0.3)}
                c = Context(*parts, **local)
                add('c%d=Context(%r, %r)' % (len(objs), parts, local), c, [c.maps[0]] + flat, [c.maps[0]] + parts)
                equal(c.maps[0], local, 'local')
        elif op == 'child' and objs:
            i = d.int(0, len(objs) - 1)
            name, p, model, _ = objs[i]
            objs[i][3] = True
            extra = [d.choice(raw) for _ in range(d.int(0, 2))]
            local = {k: d.int(0, 9) for k in d.subset(['a', 'b', 'c', 'd'], 0.3)}
            before = list(p.maps)
            if isinstance(p, Context):
                c = p.create_child(*extra, **local)
                if not extra and not local:
                    require(c is p, 'child-of-nothing', lambda: 'child of %s is %r' % (name, c))
                    continue
            else:
                c = p.new_child(*extra, **local)
            ls = [m for m in c.maps if m == local and not any(m is x for x in raw + before)]
            require(ls or not local, 'local', lambda: 'local values %r are not in %r' % (local, c.maps))
            mine = [m for m in c.maps if any(m is x for x in ls) and m]
            add('c%d=child of c%d %r %r' % (len(objs), i, extra, local), c, (mine or [{}])[:1] + extra + model.flat, mine[:1] + extra + model.direct)
            require([id(m) for m in p.maps] == [id(m) for m in before], 'parent-modified', lambda: '%s has now %r' % (name, p.maps))
        elif op == 'extend' and objs:
            i = d.int(0, len(objs) - 1)
            name, c, model, done = objs[i]
            if not isinstance(c, Context) or done:
                continue
            m = d.choice(raw)
            if d.bool():
                d.show('c%d.append(%r)' % (i, m))
                c.append(m)
                model.flat = model.flat + [m]
                model.direct = model.direct + [m]
            else:
                d.show('c%d.prepend(%r)' % (i, m))
                c.prepend(m)
                model.flat = [m] + model.flat
                model.direct = [m] + model.direct
        elif op == 'modify':
            m = d.choice(raw)
            k = d.choice(KEYS)
            if d.bool(0.6):
                d.show('%r[%r]=..' % (m, k))
                m[k] = d.int(10, 19)
            else:
                m.pop(k, None)
        elif op == 'enter' and objs:
            name, c, model, _ = d.choice(objs)
            if isinstance(c, Context):
                with c as copied:
                    want = {k: model.look(k)[1] for k in model.keys()}
                    require(copied is not c and copied.merged == want, 'enter', lambda: 'entering %s gives %r' % (name, copied))
                    mine = set(id(m) for m in model.flat)
                    require(not any(id(m) in mine for m in copied.maps_flattened), 'enter-shared', lambda: 'mappings are shared with %s' % name)
                d.hit('enter')
        elif op == 'find' and objs:
            name, c, model, _ = d.choice(objs)
            if isinstance(c, Context):
                sp = [m for m in model.direct if isinstance(m, Special)]
                require(c.find_instance(Special, reverse=True) is (sp[-1] if sp else None), 'find-instance', lambda: 'last of ' + name)
                require(c.find_instance(Special) is (sp[0] if sp else None), 'find-instance', lambda: name)
                if sp:
                    rest = [m for m in sp if m is not sp[0]]
                    require(c.find_instance(Special, default=0, exclude=sp[0]) is (rest[0] if rest else 0), 'find-instance', lambda: 'excluding in ' + name)
                    d.hit('find')
        elif op == 'hash':
            cs = [o for o in objs if isinstance(o[1], Context)]
            if len(cs) > 1:
                a, b = d.choice(cs), d.choice(cs)
                ma, mb = a[1].merged, b[1].merged
                require((a[1] == b[1]) == (ma == mb), 'equality', lambda: '%r == %r' % (ma, mb))
                require(a[1] != b[1] or hash(a[1]) == hash(b[1]), 'hash', lambda: 'equal contexts %s and %s have other hashes' % (a[0], b[0]))
        for name, c, model, _ in objs:
            check_chain(d, c, model, name)
    if any(sum(k in m for m in o[2].flat) > 1 for o in objs for k in KEYS):
        d.hit('shadowed')


def norm_case(k):
    return k.lower()


def norm_uri(k):
    k = k.lower()
    return k[:-1] if k.endswith('#') else k


URIS = ['http://x.y/a', 'HTTP://x.y/a', 'http://X.y/A#', 'http://x.y/a#', 'http://x.y/a#b', 'http://x.y/A#B', 'http://x.y/b?q=1', 'http://x.y/b?Q=1',
        'file:///t/a', 'FILE:///T/a#', 'urn:a:b', 'urn:A:b', '#/a', '#/A', 'http://x.y/a/', 'http://x.y/A/#', '']
CASES = ['a', 'A', 'Ab', 'aB', 'AB', 'ÉE', 'ée', 'x-1', 'X-1', '']


def prop_equivalent(d):
    cls, norm, pool = d.choice([(CaseInsensitiveDict, norm_case, CASES), (UriDict, norm_uri, URIS)])
    init = OrderedDict((k, d.int(0, 9)) for k in d.shuffle(d.subset(pool, 0.2)))
    d.show('%s(%r)' % (cls.__name__, dict(init)))
    model = OrderedDict()
    for k, v in init.items():
        model[norm(k)] = v
    o = cls(init) if d.bool() else cls(list(init.items()))
    used = set(init)
    for _ in range(d.int(1, 10)):
        k = d.choice(pool)
        if any(u != k and norm(u) == norm(k) for u in used):
            d.hit(cls.__name__)
        op = d.weighted((4, 'set'), (2, 'del'), (2, 'get'), (1, 'pop'), (1, 'setdefault'), (1, 'update'))
        d.show('%s %r' % (op, k))
        n = norm(k)
        if op == 'set':
            v = d.int(10, 99)
            o[k] = v
            model[n] = v
            used.add(k)
        elif op == 'del':
            try:
                del o[k]
                require(n in model, 'delete', lambda: '%r was not there' % k)
                del model[n]
            except KeyError:
                require(n not in model, 'delete', lambda: '%r is not found' % k)
        elif op == 'pop':
            equal(o.pop(k, None), model.pop(n, None), 'pop', k)
        elif op == 'setdefault':
            equal(o.setdefault(k, 5), model.setdefault(n, 5), 'setdefault', k)
        elif op == 'update':
            u = {x: d.int(100, 199) for x in d.subset(pool, 0.2)}
            o.update(u)
            for x, v in u.items():
                model[norm(x)] = v
        for k in pool:
            require((k in o) == (norm(k) in model), 'contains', lambda: '%r in %r' % (k, o))
            equal(o.get(k, -1), model.get(norm(k), -1), 'get', k)
        equal(len(o), len(model), 'length')
        equal([norm(k) for k in o], list(model), 'iteration')
        equal(list(o.values()), list(model.values()), 'values')


def prop_registry(d):
    n = d.int(1, 5)
    regs, parent, models = [], [], []
    for i in range(n):
        p = d.int(0, i - 1) if i and d.bool(0.7) else None
        regs.append(Registry(*([regs[p]] if p is not None else [])))
        parent.append(p)
        models.append(OrderedDict())
        d.show('r%d(%s)' % (i, p))

    def up(i):
        while i is not None:
            yield i
            i = parent[i]
    owner = {}
    for _ in range(d.int(1, 14)):
        i = d.int(0, n - 1)
        k = d.choice(['a', 'b', 3, ('t',), 'r%d' % i])
        if d.bool(0.7):
            if owner.get(k, i) != i:
                continue
            owner[k] = i
            v = d.choice([0, None, 'x', 7])
            d.show('r%d.register(%r, %r)' % (i, k, v))
            regs[i].register(k, v)
            for j in up(i):
                models[j][k] = v
            if parent[i] is not None:
                d.hit('ancestors')
        else:
            d.show('r%d.unregister(%r)' % (i, k))
            if k in models[i] and owner.get(k) != i:
                continue
            try:
                regs[i].unregister(k)
                require(k in models[i], 'unregister', lambda: '%r was not there' % (k,))
                for j in up(i):
                    del models[j][k]
                del owner[k]
            except KeyError:
                require(k not in models[i], 'unregister', lambda: '%r is not found' % (k,))
        for j, (r, m) in enumerate(zip(regs, models)):
            equal(list(r.items()), list(m.items()), 'content', 'r%d' % j)
            equal(len(r), len(m), 'length')
            for k in ['a', 'b', 3, ('t',), 'zz']:
                require((k in r) == (k in m) and r.get(k, 'dft') == m.get(k, 'dft'), 'get', lambda: 'r%d %r' % (j, k))


def prop_class_registry(d):
    regs = [GenericClassRegistry() for _ in range(d.int(1, 3))]
    models = [OrderedDict() for _ in regs]
    for _ in range(d.int(1, 8)):
        i = d.int(0, len(regs) - 1)
        nm = d.choice(['f', 'g', 'K'])
        x = type(nm, (), {}) if d.bool() else eval('lambda: 0')
        if not isinstance(x, type):
            x.__name__ = nm
        name = d.choice([None, None, 'f', 'other', ''])
        d.show('r%d.register(%r)(%s)' % (i, name, nm))
        require(regs[i].register(name)(x) is x, 'decorator', lambda: 'registering %s returns another object' % nm)
        models[i][nm if name is None else name] = x
        for j, (r, m) in enumerate(zip(regs, models)):
            require(list(r) == list(m) and all(r[k] is v for k, v in m.items()), 'content', lambda: 'r%d is %r expected %r' % (j, r, m))
            for k in ['f', 'g', 'K', 'other', '', 'zz']:
                require(r.contains(k) == (k in m) == (k in r), 'contains', lambda: 'r%d %r' % (j, k))
                require(r.get(k) is m.get(k) and r.get(k, 1) is m.get(k, 1), 'get', lambda: 'r%d %r' % (j, k))
        if len(regs) > 1:
            d.hit()


class Thing:
    def __call__(self):
        raise Violation('called', 'a registered value is called')


def prop_weak(d):
    up = Registry()
    r = WeakRegistry(*([up] if d.bool(0.3) else []))
    alive = {}
    for _ in range(d.int(1, 6)):
        k = d.choice('abc')
        if d.bool(0.7):
            alive[k] = Thing() if d.bool(0.7) else type('T', (), {})
            r.register(k, alive[k])
        elif k in alive and not r._parent_registries:
            del alive[k]
            d.hit('dead')
        d.show(sorted(alive))
        for _ in range(3):
            gc.collect()
        require(sorted(r) == sorted(alive) and all(r[k] is v and r.get(k) is v for k, v in alive.items()), 'weak', lambda: 'registry has %r' % list(r))
        require(len(r) == len(alive) and all((k in r) == (k in alive) for k in 'abc'), 'weak', lambda: 'registry has %r' % list(r))


TESTS = [
    Test('chain', prop_chain, 1500),
    Test('equivalent', prop_equivalent, 1000),
    Test('registry', prop_registry, 800),
    Test('class-registry', prop_class_registry, 300),
    Test('weak', prop_weak, 20),
]
