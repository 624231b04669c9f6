# -*- coding: utf-8 -*-
"""P14: canonical names and uris of definitions."""
from pbt.common import *
from ngoschema.managers.namespace_manager import NamespaceManager, default_ns_manager
from ngoschema.resolvers.uri_resolver import UriResolver, scope
from ngoschema.resolvers.uri_resolver import resolve_uri

META = dict(
    title='Canonical names and URIs of definitions translate into each other',
    statement="In a namespace manager, the canonical name of a definition or property (the name of its namespace followed by the names on its path) is translated back into its URI, "
              "whatever the namespaces registered (explicitly, under any name, by the parents of the manager, by building a type, or by loading the document), when they are registered, "
              "and however their URIs and names resemble each other; the namespace is the one of the document of the URI. The same holds for names relative to the "
              "current namespace, and loading a type by its canonical name gives the type registered under its URI. Different definitions have different names, and the definitions listed under a name are the ones of this document.",
    over=['histories', 'inputs'],
    quantifier='every set of documents and namespaces, every sequence of additions, changes of the current namespace and translations',
    why='test_namespace_manager translates one name of the static metaschema; several namespaces, names given by the user, relative names and the order of registration are not tested.',
    files=['ngoschema/managers/namespace_manager.py', 'ngoschema/contexts/ns_manager_context.py', 'ngoschema/types/uri.py'],
    mechanism=[('namespace of a uri', 'ngoschema/managers/namespace_manager.py:NamespaceManager._find_ns_by_uri'),
               ('namespace of a name', 'ngoschema/managers/namespace_manager.py:NamespaceManager._find_ns_by_cname'),
               ('uri to name', 'ngoschema/managers/namespace_manager.py:NamespaceManager.get_id_cname'),
               ('name to uri', 'ngoschema/managers/namespace_manager.py:NamespaceManager.get_cname_id')],
    observe=['names and uris returned', 'loaded type'],
    oracle='the names and paths the documents are generated from, and a dictionary model of the namespaces',
    level_note='Random exploration: about 3000 histories of several translations per quick run.',
)
RULE = ('A case is a set of documents and a history of a manager. Non-trivial: a name or a uri of a definition in a '
        'registered namespace is translated.')
ASSUMPTIONS = ['the names of definitions and properties are python names, unique in their document',
               'the names given to namespaces are not the ones of other documents',
               'documents which are only loaded (neither registered as a namespace nor built) have lower case uris, as the document store does not keep the case']


def ns_name(u):
    """the name of the namespace of a document"""
    host, _, path = u.split('://')[1].partition('/')
    out = [] if host == 'numengo.org' else [host.split('.')[0].replace('-', '_')]
    for p in path.split('/'):
        if p[:1].isdigit() and out:
            out[-1] += '_' + p.replace('-', '_')
        elif p and not p[0].isdigit():
            out.append(p.replace('-', '_'))
    return '.'.join(out)


def gen_docs(d):
    """documents whose uris resemble each other"""
    tag = uid('n')
    root = d.choice(['https://verif.test/', 'https://numengo.org/', 'https://ver-if.test/', 'http://other.org/'])
    pool = ['%s', '%sx', '%s-x', '%s/sub', '%s/2', '%sY', '%s/sub/leaf', '%s/2-1', 'p/%s']
    docs = {}
    for p in d.subset(pool, 0.35) or [pool[0]]:
        u = root + p % tag
        if ns_name(u) in map(ns_name, docs):
            continue
        docs[u] = gen_defs(d)
    return docs


def gen_defs(d):
    """[(path, canonical names on the path)] and the document"""
    names = iter(d.shuffle(['A', 'B', 'Cc', 'D1', 'Ee', 'F_f', 'G', 'Hh', 'subX', 'sub_2']))
    props = iter(d.shuffle(['x', 'yy', 'z1', 'w_w', 'v', 'u', 't', 's', 'r', 'q', 'p', 'o', 'n', 'm']))
    paths = []

    def obj(path, cn, depth):
        s = {'type': 'object', 'properties': {}}
        for _ in range(d.int(1, 2)):
            n = next(props, None)
            if n is None:
                break
            s['properties'][n] = {'type': 'integer'}
            paths.append((path + '/properties/' + n, cn + [n]))
        if depth and d.bool(0.5):
            s['$defs'] = {}
            for _ in range(d.int(1, 2)):
                n = next(names, None)
                if n is None:
                    break
                p = path + '/$defs/' + n
                paths.append((p, cn + [n]))
                s['$defs'][n] = obj(p, cn + [n], depth - 1) if d.bool(0.6) else {'type': 'string'}
        return s
    doc = {'$defs': {}}
    for _ in range(d.int(1, 3)):
        n = next(names, None)
        if n is None:
            break
        paths.append(('/$defs/' + n, [n]))
        doc['$defs'][n] = obj('/$defs/' + n, [n], 2)
    return doc, paths


def taken(docs, known):
    """every canonical name of documents and definitions"""
    out = set()
    for u, (doc, paths) in docs.items():
        for n in [ns_name(u)] + [k for k, x in known.items() if x == u]:
            out.add(n)
            out.update('.'.join([n] + cns[:i + 1]) for _, cns in paths for i in range(len(cns)))
    return out


def prop_translate(d):
    docs = gen_docs(d)
    for u, (doc, _) in docs.items():
        doc['$id'] = u
        load_schema(doc)
    builders = dict(NamespaceManager._builder_ns)
    try:
        parent = {}
        for u in d.subset(sorted(docs), 0.3):
            parent[uid(d.choice('azAZ'))] = u
        n = NamespaceManager(parent) if parent else NamespaceManager()
        known = dict(parent)
        built = set()
        current = ''
        d.show('docs %r with namespaces %r' % (sorted(docs), known))
        for _ in range(d.int(3, 12)):
            op = d.weighted((3, 'add'), (1, 'name'), (1, 'build'), (2, 'current'), (5, 'id'), (5, 'cname'), (2, 'load'), (2, 'defs'), (1, 'list'))
            u = d.choice(sorted(docs))
            doc, paths = docs[u]
            if op in ('add', 'name'):
                if u in known.values():
                    continue
                k = ns_name(u) if op == 'add' else uid(d.choice('azAZ'))
                if op == 'name' and known and d.bool(0.2):
                    # the name now given to another document
                    k = d.choice(sorted(known))
                    if k == current or k in map(ns_name, docs):
                        continue
                if op == 'name' and d.bool(0.4):
                    # the name of a definition, cut
                    u2 = d.choice(sorted(docs))
                    k = '.'.join([d.choice([x for x, y in known.items() if y == u2] or [ns_name(u2)])] + d.choice(docs[u2][1])[1])[:-1]
                    if k in taken(docs, known) or k.endswith('.'):
                        continue
                if d.bool(0.3) and op == 'name' and '.' not in k:
                    k = d.choice(sorted(known) + ['pkg', 'pkg.mod']) + '.' + k
                    if k in taken(docs, known):
                        continue
                n.add(u, *([] if op == 'add' else [k]))
                known[k] = u
                d.show('%s %s as %s' % (op, u, k))
                continue
            if op == 'list':
                got = n.namespaces()
                require(list(got) == sorted(got), 'namespaces', lambda: 'not sorted: %r' % list(got))
                for k, x in known.items():
                    require(got.get(k) == x, 'namespaces', lambda: '%r is %r expected %r' % (k, got.get(k), x))
                part = d.choice(sorted(known) + [ns_name(u)])[d.int(0, 2):]
                sub = n.namespaces(part)
                require(dict(sub) == {k: x for k, x in got.items() if part in k}, 'namespaces', lambda: 'namespaces with %r: %r of %r' % (part, sub, got))
                continue
            if op == 'build':
                type_builder.load('%s#/$defs/%s' % (u, sorted(doc['$defs'])[0]))
                built.add(u)
                d.show('build %s' % u)
                continue
            if op == 'current':
                if known:
                    k = d.choice(sorted(known))
                    given = k
                    if d.bool(0.4):
                        # the name of something in this namespace
                        given = '.'.join([k] + d.choice(docs[known[k]][1])[1])
                        k = max((x for x in known if given == x or given.startswith(x + '.')), key=len)
                    d.show('current %s' % given)
                    n.set_current(given)
                    current = k
                    require(n.currentNs == k and n.currentNsUri == known[k], 'current', lambda: '%r %r after %r of %r' % (n.currentNs, n.currentNsUri, k, known))
                continue
            names = [k for k, x in known.items() if x == u]
            if not names and u not in built and u != u.lower():
                continue
            name = names[0] if names else ns_name(u)
            path, cns = d.choice(paths + [('', [])])
            full = '.'.join([name] + cns)
            rel = '.'.join(cns)
            d.hit(op)
            if op == 'defs':
                d.show('definitions of %s' % name)
                require(full in n, 'contains', lambda: '%r is not in %r' % (full, known))
                got = n.get_cname_definitions(name)
                want = {'%s.%s' % (name, k): k for k in doc['$defs']}
                require(set(got) == set(want), 'definitions', lambda: 'definitions of %s are %r expected %r' % (name, got, want))
                for c, uri_ in got.items():
                    require(resolve_uri(uri_) is doc['$defs'][want[c]], 'definitions', lambda: '%s is %r' % (c, uri_))
                continue
            if op == 'id':
                ref = u + '#' + path if path or d.bool() else u
                d.show('name of %s' % ref)
                got = n.get_id_cname(ref)
                require(got == full, 'name', lambda: 'name of %s is %r expected %r with %r' % (ref, got, full, known))
                got = n.get_id_cname(ref, relative=True)
                want = full[len(current) + 1:] if current and full.startswith(current + '.') else full
                if cns:
                    require(got == want, 'relative', lambda: 'relative name of %s is %r expected %r in %r' % (ref, got, want, current))
            elif op == 'cname':
                if not path:
                    continue
                d.show('uri of %s' % full)
                got = n.get_cname_id(full)
                got = scope(got, n.currentNsUri)
                require(got == u + '#' + path, 'uri', lambda: 'uri of %s is %r expected %r with %r' % (full, got, u + '#' + path, known))
                if current == name:
                    got = n.get_cname_id('.' + rel)
                    require(scope(got, n.currentNsUri) == u + '#' + path, 'relative', lambda: 'uri of .%s in %s is %r expected %r' % (
                        rel, current, got, u + '#' + path))
                if current:
                    # one dot more for each level
                    cur = current.split('.')
                    for up in range(1, len(cur)):
                        anchor = '.'.join(cur[:len(cur) - up])
                        if full.startswith(anchor + '.'):
                            given = '.' * (up + 1) + full[len(anchor) + 1:]
                            got = n.get_cname_id(given)
                            require(scope(got, n.currentNsUri) == u + '#' + path, 'relative', lambda: 'uri of %s in %s is %r expected %r' % (
                                given, current, got, u + '#' + path))
            elif path and current != name:
                d.show('load %s' % full)
                got = n.load(full)
                want = type_builder.load(u + '#' + path)
                built.add(u)
                require(got is want, 'load', lambda: 'loading %s gives %r' % (full, got))
    finally:
        for u in docs:
            UriResolver.unregister_doc(u)
        NamespaceManager._builder_ns.clear()
        NamespaceManager._builder_ns.update(builders)


TESTS = [
    Test('translate', prop_translate, 3000),
]
