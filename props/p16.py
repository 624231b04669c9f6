# -*- coding: utf-8 -*-
"""P16: entities in repositories and sessions."""
from pbt.common import *
from ngoschema.models.instances import Entity
from ngoschema.repositories import MemoryRepository
from ngoschema.session import session_maker

META = dict(
    title='A repository holds one entity per identity and keys lead back to it',
    statement="A memory repository holds, in the order of first arrival, exactly one entity for each identity: committing an entity adds it, or replaces the one with the same keys; "
              "a missing integer key is given one more than the highest key of the repository. The entity is found by its keys in its repository and, by its class or a parent class, in the session of this repository, "
              "and keys which were not committed are not found. A foreign key property takes the keys of the entity given, or the converted keys given, whatever the names, number and types of the primary keys, "
              "serializes them, and resolves in the session to that very entity, from whichever repository holds it. Sessions and repositories are independent of each other.",
    over=['histories', 'inputs'],
    quantifier='every sequence of entities committed to repositories of related and unrelated classes over several sessions, every key and foreign key given',
    why='The tests of repositories, relationships and sessions all fail to import or need files of the author; none of it is tested.',
    files=['ngoschema/repositories/memory_repository.py', 'ngoschema/protocols/repository.py', 'ngoschema/session.py',
           'ngoschema/models/instances.py', 'ngoschema/types/foreign_key.py', 'ngoschema/protocols/type_protocol.py'],
    mechanism=[('content and catalog', 'ngoschema/repositories/memory_repository.py:MemoryRepository._commit'),
               ('identity', 'ngoschema/models/instances.py:Entity.get_identityKeys'),
               ('look up over repositories', 'ngoschema/session.py:Session.resolve_fkey'),
               ('foreign keys', 'ngoschema/types/foreign_key.py:ForeignKey._convert'),
               ('resolution of foreign keys', 'ngoschema/types/foreign_key.py:ForeignKey._resolve')],
    observe=['content and order of repositories', 'entities found by keys', 'values and resolution of foreign keys'],
    oracle='ordered dictionaries from keys to entities, one per repository',
    level_note='Random exploration: about 700 histories of up to 14 steps per quick run.',
)
RULE = ('A case is a history over one or two sessions and up to seven repositories. Non-trivial: an entity is replaced, '
        'numbered, found through a parent class or another repository, or a foreign key is resolved.')
ASSUMPTIONS = ['keys which are generated automatically are integers',
               'the primary keys of an entity are not modified after it is committed',
               'references built by the library itself (backpopulated pointers) are not covered: they raise on the current tree (see DESIGN.md)']

E = 'https://numengo.org/ngoschema#/$defs/instances/$defs/Entity'
_classes = {}


def classes():
    if _classes:
        return _classes
    b = uri()

    def fk(n, **kw):
        return dict({'foreignKey': {'foreignSchema': b + '#/$defs/' + n}}, **kw)
    defs = {
        'Pers': {'extends': [E], 'primaryKeys': ['id'], 'properties': {'id': {'type': 'integer'}, 'v': {'type': 'integer'}}},
        'Emp': {'extends': [b + '#/$defs/Pers'], 'properties': {'job': {'type': 'string'}}},
        'Cod': {'extends': [E], 'primaryKeys': ['code'], 'properties': {'code': {'type': 'string'}, 'v': {'type': 'integer'}, 'next': fk('Cod', type='string')}},
        'Two': {'extends': [E], 'primaryKeys': ['a', 'b'], 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'integer'}, 'v': {'type': 'integer'}, 'twin': fk('Two')}},
        'Addr': {'extends': [E], 'primaryKeys': ['num'], 'properties': {
            'num': {'type': 'integer'}, 'p': fk('Pers', type='integer'), 'e': fk('Emp', type='integer'), 'c': fk('Cod', type='string'),
            't': fk('Two'), 'v': {'type': 'integer'}}},
    }
    load_schema({'$id': b, '$defs': {n: dict(s, type='object') for n, s in defs.items()}})
    for n in defs:
        bases = (_classes['Pers'],) if n == 'Emp' else (Entity,)
        _classes[n] = SchemaMetaclass(n, bases, {'_id': b + '#/$defs/' + n})
    return _classes


PK = {'Pers': ['id'], 'Emp': ['id'], 'Cod': ['code'], 'Two': ['a', 'b'], 'Addr': ['num']}
ISA = {'Emp': ['Emp', 'Pers']}
#: property: class it refers to
FK = {'Addr': {'p': 'Pers', 'e': 'Emp', 'c': 'Cod', 't': 'Two'}, 'Cod': {'next': 'Cod'}, 'Two': {'twin': 'Two'}}


def gen_keys(d, n, missing=True):
    if n == 'Cod':
        return (d.choice(['x', 'y', 'zz', 'x1']),)
    return tuple(None if missing and d.bool(0.25) else d.int(0, 4) for _ in PK[n])


def prop_history(d):
    C = classes()
    sessions = [session_maker()() for _ in range(d.weighted((3, 1), (1, 2)))]
    repos = []  # (name of the class, index of the session, repository, model)
    for si, s in enumerate(sessions):
        for n in d.shuffle(['Pers', 'Emp', 'Cod', 'Two', 'Addr'] + (['Pers'] if d.bool(0.3) else [])):
            init = {}
            vals = []
            if d.bool(0.3):
                for _ in range(d.int(1, 2)):
                    k = gen_keys(d, n, False)
                    if k not in init:
                        init[k] = None
                        vals.append(dict(zip(PK[n], k), v=d.int(0, 99)))
            r = MemoryRepository(list(vals), instanceClass=C[n], many=True, meta_opts={'session': s}) if vals else \
                MemoryRepository(instanceClass=C[n], many=True, meta_opts={'session': s})
            for k, x in zip(init, r._content):
                init[k] = x
            repos.append((n, si, r, init))
            if vals:
                d.show('%s%d of %s with %r' % (n, len(repos) - 1, si, vals))
    live = []

    def find(n, si, k):
        """(found, entity) for keys of a class in a session"""
        for m, sj, r, model in repos:
            if sj == si and n in ISA.get(m, [m]) and k in model:
                return True, model[k]
        return False, None

    for _ in range(d.int(3, 14)):
        op = d.weighted((6, 'commit'), (1, 'again'), (3, 'find'), (4, 'fkey'))
        ri = d.int(0, len(repos) - 1)
        n, si, r, model = repos[ri]
        if op == 'commit':
            m = d.choice(['Pers', 'Emp']) if n == 'Pers' else n
            k = gen_keys(d, m)
            data = {p: x if d.bool(0.7) else str(x) for p, x in zip(PK[m], k) if x is not None}
            data['v'] = d.int(0, 99)
            o = C[m](data) if d.bool() else C[m](**data)
            d.show('commit %s %r to %s%d' % (m, data, n, ri))
            require(tuple(o.identityKeys) == k, 'identity', lambda: 'keys of %r are %r' % (data, o.identityKeys))
            if None in k:
                d.hit('numbered')
                k = tuple(max([-1] + [q[i] for q in model]) + 1 if x is None else x for i, x in enumerate(k))
            if k in model:
                d.hit('replaced')
            r.commit(o)
            model[k] = o
            require(tuple(o.identityKeys) == k and all(o[p] == x for p, x in zip(PK[m], k)), 'numbered',
                    lambda: 'keys after commit of %r are %r expected %r' % (data, o.identityKeys, k))
            live.append((m, si, k, o))
        elif op == 'again' and live:
            m, sj, k, o = d.choice(live)
            for n2, sj2, r2, model2 in repos:
                if sj2 == sj and n2 == m and model2.get(k) is o:
                    d.show('again %s %r' % (m, k))
                    r2.commit(o)
        elif op == 'find':
            m = d.choice(sorted(PK))
            k = gen_keys(d, m, False)
            ok, want = find(m, si, k)
            s = sessions[si]
            d.show('find %s %r in session %d' % (m, k, si))
            got = outcome_find(lambda: s.resolve_fkey(k, C[m]))
            if ok:
                d.hit('found')
                require(got[0] == 'ok' and got[1] is want, 'session', lambda: '%s %r gave %r expected %r' % (m, k, got[1], want))
            else:
                require(got[0] == 'reject', 'session', lambda: '%s %r gave %r' % (m, k, got[1]))
            k = gen_keys(d, n, False)
            equal(k in r, k in model, 'catalog', '%r in %s%d' % (k, n, ri))
            if k in model:
                require(r.resolve_fkey(k) is model[k], 'catalog', lambda: '%r in %s%d' % (k, n, ri))
        elif op == 'fkey':
            m = d.choice(sorted(FK))
            p = d.choice(sorted(FK[m]))
            t = FK[m][p]
            si = d.int(0, len(sessions) - 1)
            ents = [(k, x) for n2, sj, r2, model2 in repos if sj == si and t in ISA.get(n2, [n2]) for k, x in model2.items()]
            how = d.choice(['entity', 'keys', 'string', 'unknown', 'none'])
            if how == 'entity' and not ents:
                how = 'keys'
            k = d.choice(ents)[0] if ents and how != 'unknown' else gen_keys(d, t, False)
            ok, want = find(t, si, k)
            if how == 'entity':
                # any entity with these keys
                given = d.choice([x for k2, x in ents if k2 == k])
            elif how == 'string':
                given = ','.join(map(str, k))
            elif how == 'none':
                given = None
            else:
                given = k[0] if len(k) == 1 else d.choice([k, list(k)])
            d.show('%s.%s = %s %r' % (m, p, how, k))
            o = C[m](**{p: given}) if d.bool() else C[m]()
            if o[p] is None and given is not None:
                o[p] = given
            val = o[p]
            if how == 'none':
                require(val is None, 'foreign-key', lambda: '%s.%s of None is %r' % (m, p, val))
                continue
            flat = k[0] if len(k) == 1 else k
            require(val == flat and type(val) is type(flat), 'foreign-key', lambda: '%s.%s given %r is %r' % (m, p, given, val))
            ser = o.do_serialize()
            require(ser[p] == flat or list(ser[p]) == list(flat), 'foreign-key-serialized', lambda: '%s.%s given %r is serialized as %r' % (m, p, given, ser))
            x = val if d.bool(0.7) else given
            got = outcome_find(lambda: o.items_type(p).resolve(x, session=sessions[si]))
            if ok:
                d.hit('resolved')
                require(got[0] == 'ok' and got[1] is want, 'resolve', lambda: '%s.%s given %r resolves to %r expected %r' % (m, p, given, got[1], want))
            else:
                require(got[0] == 'reject', 'resolve', lambda: '%s.%s given %r resolves to %r' % (m, p, given, got[1]))
        for i, (n2, sj, r2, model2) in enumerate(repos):
            content = list(r2._content)
            require(len(content) == len(model2) and all(x is y for x, y in zip(content, model2.values())), 'content',
                    lambda: 'content of %s%d is %r expected %r' % (n2, i, content, model2))
    for i, (n2, sj, r2, model2) in enumerate(repos):
        for k, x in model2.items():
            require(k in r2 and r2.resolve_fkey(k) is x, 'catalog', lambda: '%r is not found in %s%d' % (k, n2, i))
            require(all(x[p] == v for p, v in zip(PK[n2], k)), 'keys', lambda: '%r has other keys than %r' % (x, k))


def outcome_find(fn):
    # unknown keys are reported with a plain Exception by the session
    try:
        return 'ok', fn()
    except Exception as er:
        require(isinstance(er, (ValueError, KeyError)) or type(er) is Exception, 'error', lambda: repr(er))
        return 'reject', er


def prop_single(d):
    """a repository of one instance"""
    C = classes()
    s = session_maker()()
    r = MemoryRepository(instanceClass=C['Pers'], meta_opts={'session': s})
    last = None
    for _ in range(d.int(1, 4)):
        v = d.int(0, 99)
        o = C['Pers'](id=d.int(0, 3), v=v)
        d.show('commit %d' % v)
        if last is not None:
            d.hit('replaced')
        r.commit(o)
        last = o
        require(len(r._content) == 1 and r._content[0] is last, 'single', lambda: 'content is %r' % r._content)


TESTS = [
    Test('history', prop_history, 700),
    Test('single', prop_single, 60),
]
