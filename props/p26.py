# -*- coding: utf-8 -*-
"""P26: sessions, their makers and their scopes."""
import threading

from pbt.common import *
from ngoschema.models.instances import Entity
from ngoschema.repositories import MemoryRepository
from ngoschema.session import Session, session_maker, scoped_session, default_session

META = dict(
    title='Each scope has one session, made with the options of its maker',
    statement="A session made by a maker has the options given at that time, over those of the maker at that time, over the default ones; it is an instance of the class given to the maker, and making it changes neither the maker, "
              "nor the other sessions. A scoped session gives, for each scope (each thread, or each value of the function given), always the same session, made at its first use with the options given to it, "
              "until the scope is removed, which concerns no other scope; options given when the session of the scope exists are refused and change nothing. Configuring concerns the sessions made later only. "
              "A repository belongs to the session it is given, or to the default one, and to no other, in the order of creation; a query of a repository gives its only entity with these values, or fails.",
    over=['histories', 'schedules'],
    quantifier='every sequence of creations, configurations, uses and removals over several makers, scopes and threads',
    why='No test creates a session; the module was adapted from another library and parts of it could not be executed.',
    files=['ngoschema/session.py', 'ngoschema/protocols/repository.py', 'ngoschema/repositories/memory_repository.py'],
    mechanism=[('options', 'ngoschema/session.py:session_maker.__call__'), ('scopes', 'ngoschema/session.py:scoped_session.__call__, remove'),
               ('configuration', 'ngoschema/session.py:scoped_session.configure'), ('repositories', 'ngoschema/session.py:Session.bind_repo'),
               ('queries', 'ngoschema/protocols/repository.py:Repository.query')],
    observe=['identity, class and options of sessions', 'repositories of sessions', 'entities found or exceptions'],
    oracle='a model of the makers and of the scopes as dictionaries',
    level_note='Random exploration: about 700 histories of up to 14 operations per quick run; threads take their turns in the order generated.',
)
RULE = 'A case is a history of makers, scopes and repositories. Non-trivial: a session of a scope is found again, options are combined or refused, or a repository is bound.'
ASSUMPTIONS = ['options are those of the schema of sessions', 'the operations of threads follow each other: the registry of scopes is the one of SQLAlchemy']

DEFAULTS = {'autoflush': True, 'autocommit': False, 'expire_on_commit': True, 'bind': None}
OPTIONS = {'autoflush': [True, False], 'autocommit': [True, False], 'expire_on_commit': [True, False], 'bind': [None, {'url': 'x'}, {'url': 'y', 'n': 1}]}


def gen_options(d, p=0.4):
    return {k: d.choice(OPTIONS[k]) for k in d.subset(sorted(OPTIONS), p)}


def options_of(s):
    out = {k: s[k] for k in ('autoflush', 'autocommit', 'expire_on_commit')}
    out['bind'] = None if s['bind'] is None else dict(s['bind'].do_serialize())
    return out


class Worker:
    """a thread which executes what it is given"""

    def __init__(self):
        self.todo, self.ready, self.done = None, threading.Semaphore(0), threading.Semaphore(0)
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            self.ready.acquire()
            if self.todo is None:
                self.done.release()
                return
            try:
                self.out = ('ok', self.todo())
            except BaseException as er:
                self.out = ('error', er)
            self.done.release()

    def run(self, fn):
        self.todo = fn
        self.ready.release()
        self.done.acquire()
        if self.out[0] == 'error':
            raise self.out[1]
        return self.out[1]

    def stop(self):
        self.todo = None
        self.ready.release()
        self.done.acquire()
        self.thread.join()


class Mine(Session):
    pass


def prop_scopes(d):
    makers = []     # (maker, options, class)
    scopes = []     # (scoped session, index of maker, kind, {scope: (session, options)})
    made = []       # (session, options)
    current = [0]
    workers = {}

    def execute(kind, where, fn):
        if kind == 'function':
            current[0] = where
            return fn()
        if where == 0:
            return fn()
        if where not in workers:
            workers[where] = Worker()
        return workers[where].run(fn)

    def check(s, want, cls, what):
        require(isinstance(s, cls), 'class', lambda: '%s is a %s' % (what, type(s)))
        equal(options_of(s), want, 'options of %s' % what)

    def new_maker():
        o = gen_options(d)
        cls = d.choice([Session, Session, Mine])
        m = session_maker(class_=Mine, **o) if cls is Mine else session_maker(**o)
        makers.append((m, dict(o), cls))
        d.show('maker %d: %r %s' % (len(makers) - 1, o, cls.__name__))
    try:
        new_maker()
        for _ in range(d.int(3, 14)):
            op = d.weighted((1, 'maker'), (3, 'make'), (3, 'scope') if len(scopes) < 3 else (0, 'scope'), (7, 'use') if scopes else (0, 'use'),
                            (3, 'remove') if scopes else (0, 'remove'), (3, 'configure'))
            if op == 'maker':
                new_maker()
                continue
            i = d.below(len(makers))
            m, mo, cls = makers[i]
            if op == 'make':
                o = gen_options(d)
                d.show('maker %d makes %r' % (i, o))
                given = dict(o)
                s = m(**o)
                equal(o, given, 'options given')
                want = dict(DEFAULTS, **dict(mo, **o))
                check(s, want, cls, 'a session made')
                require(all(s is not x for x, _ in made), 'new', lambda: 'a session was made before')
                made.append((s, want))
                if o and mo:
                    d.hit('options')
            elif op == 'scope':
                kind = d.choice(['function', 'thread'])
                sc = scoped_session(m, lambda: current[0]) if kind == 'function' else scoped_session(m)
                scopes.append((sc, i, kind, {}))
                d.show('scope %d of maker %d by %s' % (len(scopes) - 1, i, kind))
            elif op == 'configure':
                o = gen_options(d, 0.5)
                mine = [x for x in scopes if x[1] == i]
                if mine and d.bool(0.6):
                    sc, _, kind, _ = d.choice(mine)
                    where = d.below(3)
                    d.show('configure maker %d by a scope in %d: %r' % (i, where, o))
                    execute(kind, where, lambda: sc.configure(**o))
                else:
                    d.show('configure maker %d: %r' % (i, o))
                    m.configure(**o)
                mo.update(o)
            elif op == 'use':
                j = d.below(len(scopes))
                sc, i, kind, have = scopes[j]
                m, mo, cls = makers[i]
                where = d.below(3)
                o = gen_options(d, 0.3) if d.bool(0.4) else {}
                d.show('scope %d in %d with %r' % (j, where, o))
                try:
                    s = execute(kind, where, lambda: sc(**o))
                except NameError:
                    raise
                except Exception as er:
                    require(o and where in have, 'refused', lambda: 'a session of the scope is refused: %r' % er)
                    d.hit('refused')
                    o, s = {}, execute(kind, where, lambda: sc())
                else:
                    require(not (o and where in have), 'refused', lambda: 'options %r for a session which exists are accepted' % o)
                if where in have:
                    d.hit('found again')
                    require(s is have[where][0], 'scope', lambda: 'another session for the same scope')
                    check(s, have[where][1], cls, 'the session of a scope')
                else:
                    require(all(s is not x for x, _ in made), 'scope', lambda: 'the session of another scope')
                    want = dict(DEFAULTS, **dict(mo, **o))
                    check(s, want, cls, 'the session of a scope')
                    have[where] = (s, want)
                    made.append((s, want))
            else:
                j = d.below(len(scopes))
                sc, i, kind, have = scopes[j]
                where = d.below(3)
                d.show('remove scope %d in %d' % (j, where))
                execute(kind, where, sc.remove)
                have.pop(where, None)
            for s, want in made:
                equal(options_of(s), want, 'options of a session made before')
    finally:
        for w in workers.values():
            w.stop()


_classes = {}


def classes():
    if not _classes:
        b = uri()
        e = 'https://numengo.org/ngoschema#/$defs/instances/$defs/Entity'
        props = {'id': {'type': 'integer'}, 'v': {'type': 'integer'}, 's': {'type': 'string'}}
        load_schema({'$id': b, '$defs': {'A': {'type': 'object', 'extends': [e], 'primaryKeys': ['id'], 'properties': props},
                                         'B': {'type': 'object', 'extends': [e], 'primaryKeys': ['id'], 'properties': props}}})
        for n in 'AB':
            _classes[n] = SchemaMetaclass(n, (Entity,), {'_id': b + '#/$defs/' + n})
    return _classes


def prop_repositories(d):
    C = classes()
    before = len(default_session.repositories)
    sessions = [session_maker()() for _ in range(d.int(1, 2))] + [default_session]
    bound = [[] for _ in sessions]
    repos = []      # (repository, class, {id: (v, s, entity)})
    try:
        for _ in range(d.int(3, 12)):
            op = d.weighted((2, 'new') if repos else (1, 'new'), (4, 'commit'), (4, 'query'))
            if op == 'new' or not repos:
                i = d.below(len(sessions))
                n = d.choice('AB')
                kw = {} if sessions[i] is default_session and d.bool(0.7) else {'meta_opts': {'session': sessions[i]}}
                r = MemoryRepository(instanceClass=C[n], many=True, **kw)
                d.show('repository %d of %s in %s' % (len(repos), n, i if kw else 'default'))
                repos.append((r, n, {}))
                bound[i].append(r)
                require(r._session is sessions[i], 'session of a repository', lambda: repr(r._session))
                d.hit('bound')
            elif op == 'commit':
                j = d.below(len(repos))
                r, n, model = repos[j]
                k, v, s = d.int(0, 5), d.int(0, 2), d.choice('xyz')
                d.show('%d: commit %d %d %s' % (j, k, v, s))
                o = C[n](id=k, v=v, s=s)
                r.commit(o)
                model[k] = (v, s, o)
            else:
                j = d.below(len(repos))
                r, n, model = repos[j]
                q = {k: d.choice({'id': range(6), 'v': range(3), 's': 'xyz'}[k]) for k in d.subset(['id', 'v', 's'], 0.5)}
                found = [o for k, (v, s, o) in model.items() if all({'id': k, 'v': v, 's': s}[a] == b for a, b in q.items())]
                d.show('%d: query %r' % (j, q))
                try:
                    got = r.query(**q)
                except Exception as er:
                    require(len(found) != 1, 'query', lambda: '%r gives %r' % (q, er))
                else:
                    require(len(found) == 1 and got is found[0], 'query', lambda: '%r gives %r instead of %r' % (q, got, found))
                    d.hit('query')
            for s, rs in zip(sessions, bound):
                got = list(s.repositories)[before if s is default_session else 0:]
                require(len(got) == len(rs) and all(a is b for a, b in zip(got, rs)), 'repositories of a session', lambda: '%r instead of %r' % (got, rs))
    finally:
        while len(default_session.repositories) > before:
            del default_session.repositories[before]


TESTS = [Test('scopes', prop_scopes, 500), Test('repositories', prop_repositories, 250)]
