# -*- coding: utf-8 -*-
"""P13: resolving uris and json pointers in the document store."""
import collections
import json
import os
import shutil
import tempfile
from urllib.parse import quote

from pbt.common import *
from ngoschema.resolvers.uri_resolver import resolve_uri, resolve_doc, UriResolver, scope
from ngoschema.loaders.schemas import load_schema_file
from jsonschema.exceptions import SchemaError

META = dict(
    title='A URI resolves to exactly the part it points to of the current document',
    statement="Resolving a URI returns the very sub-document which its fragment designates, read as a JSON pointer (escapes ~0 and ~1, percent-encoding, indexes in arrays), "
              "in the document registered last under its base, whatever the letter case of the base and an ending '#'; a pointer which designates nothing, or a "
              "base which is not registered or not any more, is rejected and never answered with another or a former document. Loading a schema (from memory or from a file) registers "
              "it under its id, else its title (or file name), and resolving, loading and building types never modifies the documents.",
    over=['inputs', 'histories'],
    quantifier='every document, every pointer into it or not, every sequence of registering, replacing, removing and resolving documents',
    why='test_uri_resolver resolves a few fragments of one static document; escapes, wrong pointers, replaced and removed documents are not tested.',
    files=['ngoschema/resolvers/uri_resolver.py', 'ngoschema/loaders/schemas.py', 'ngoschema/utils/utils.py', 'ngoschema/types/uri.py'],
    mechanism=[('json pointers', 'ngoschema/resolvers/uri_resolver.py:resolve_fragment'),
               ('document look up', 'ngoschema/resolvers/uri_resolver.py:resolve_doc'),
               ('document store', 'ngoschema/utils/utils.py:UriDict'),
               ('registration', 'ngoschema/loaders/schemas.py:load_schema')],
    observe=['identity of the resolved sub-document', 'exception', 'content of the documents'],
    oracle='the path used to generate the pointer, and a dictionary model of the document store',
    level_note='Random exploration: about 6000 documents and 1500 histories per quick run.',
)
RULE = ('A case is a generated document with pointers, or a history of the store. Non-trivial: a pointer of at least one '
        'step is resolved, or a document is replaced or removed before it is resolved.')
ASSUMPTIONS = ['the first key of a pointer is not empty (leading slashes are not significant in the fragments of the library)',
               'files are written in a scratch directory removed at the end of the case']

KEYS = ['a', 'b', '0', '1', '$defs', 'a/b', 'a~b', 'm~1n', '~0', 'x y', 'p%q', '%25', 'é', 'k"', '#', 'a#b', '~', '~~1', 'q?r', 'properties']


def gen_doc(d, depth=4):
    k = d.weighted((6, 'map'), (3, 'list')) if depth == 4 else d.weighted((5 if depth else 0, 'map'), (3 if depth else 0, 'list'), (3, 'leaf'))
    if depth == 4 and d.bool(0.03):
        return d.choice([{}, []])
    if k == 'map':
        names = d.subset(KEYS, 0.2) or ['a']
        if depth < 4 and d.bool(0.1):
            names = names + ['']
        return {n: gen_doc(d, depth - 1) for n in names}
    if k == 'list':
        return [gen_doc(d, depth - 1) for _ in range(d.int(1, 3))]
    return d.choice([1, 'text', None, True, [], {}, 'a/b'])


def esc(d, part):
    p = str(part).replace('~', '~0').replace('/', '~1')
    p = quote(p, safe='~$ \'"?') if d.bool(0.5) else quote(p, safe='')
    return p


def prop_pointer(d):
    doc = gen_doc(d)
    path, here = [], doc
    while isinstance(here, (dict, list)) and here and d.bool(0.85):
        k = d.choice(sorted(here)) if isinstance(here, dict) else d.int(0, len(here) - 1)
        path.append(k)
        here = here[k]
    base = uri()
    UriResolver.register_doc(doc, base)
    bad = d.bool(0.35)
    if bad:
        if isinstance(here, dict):
            wrong = [k for k in KEYS + ['2', '-1', 'nothing', 'A', ' a', 'a ', '$Defs'] if k not in here]
            if path and '' not in here:
                wrong.append('')
        elif isinstance(here, list):
            wrong = [str(len(here)), '-1', str(len(here) + 3), 'a', '-', '-' + str(len(here)), '1.0', ' 0', '+0', '0 ', '0\n', '00', '01',
                     '-0', '0x0', '0_0', '\u0660', '\uff10', '0.', '1e0', 'None', 'length']
            if path:
                wrong.append('')
        else:
            wrong = ['0', 'a', '-1']
        path.append(d.choice(wrong))
        if d.bool(0.3):
            path.append(d.choice(['a', '0']))
    # a separator can be encoded too, but for the first one
    ptr = ''.join(('%2F' if i and d.bool(0.05) else '/') + esc(d, p) for i, p in enumerate(path))
    url = base + ('#' + ptr if ptr or d.bool() else '')
    if d.bool(0.2):
        url = url.replace('verif.test', 'VERIF.test')
    d.show('%r in %r' % (url, doc))
    if path:
        d.hit('wrong' if bad else 'depth%d' % len(path))
    before = json.dumps(doc)

    def get():
        how = d.choice(['uri', 'doc', 'resolver', 'type'])
        d.note(how)
        if how == 'doc':
            return resolve_uri('#' + ptr, doc)
        if how == 'resolver':
            return UriResolver._resolve(None, url)
        if how == 'type':
            from ngoschema.types.uri import Uri
            return Uri().resolve(url)
        return resolve_uri(url)
    got = outcome_any(get)
    if bad:
        require(got[0] == 'reject', 'found', lambda: '%r designates nothing in %r but gave %r' % (url, doc, got[1]))
    else:
        require(got[0] == 'ok', 'not-found', lambda: '%r was not found in %r: %s' % (url, doc, got[1]))
        require(got[1] is here, 'wrong-part', lambda: '%r gave %r expected %r' % (url, got[1], here))
    require(json.dumps(doc) == before, 'document-modified', lambda: '%s became %s' % (before, json.dumps(doc)))
    UriResolver.unregister_doc(base)


def outcome_any(fn):
    try:
        return 'ok', fn()
    except InvalidValue as er:
        return 'reject', er


def prop_store(d):
    """histories of the store against a dictionary"""
    n = d.int(1, 3)
    bases = ['https://verif.test/%s/Doc%d' % (uid('h'), i) for i in range(n)]
    model = {}
    replaced = set()
    tmp = None
    try:
        for _ in range(d.int(2, 12)):
            b = d.choice(bases)
            op = d.weighted((3, 'load'), (1, 'register'), (1, 'file'), (2, 'remove'), (6, 'resolve'))
            # another spelling of the same base
            sp = d.choice([b, b, b.upper().replace('HTTPS', 'https'), b.lower()])
            if op in ('load', 'register', 'file'):
                doc = {'$defs': {'A': {'type': d.choice(['integer', 'string']), 'title': uid('t')}}}
                if op == 'register' and d.bool(0.3):
                    doc = {}
                if op == 'register':
                    UriResolver.register_doc(doc, sp)
                elif op == 'load':
                    doc[d.choice(['$id', 'id'])] = sp + d.choice(['', '#'])
                    store = {} if d.bool(0.2) else None
                    u, got = load_schema(doc, store) if store is not None else load_schema(doc)
                    require(u == sp and got is doc, 'load', lambda: 'loading %r returned %r' % (doc, (u, got)))
                    if store is not None:
                        require(store == {sp: doc}, 'load', lambda: 'loading %r filled %r' % (doc, store))
                else:
                    tmp = tmp or tempfile.mkdtemp(prefix='verif-p13-')
                    doc['$id'] = sp
                    fn = os.path.join(tmp, 'doc.json')
                    with open(fn, 'w') as f:
                        json.dump(doc, f)
                    u, got = load_schema_file(fn)
                    equal((u, got), (sp, doc), 'load', 'file %r' % doc)
                    doc = got
                if b in model:
                    replaced.add(b)
                model[b] = doc
            elif op == 'remove':
                UriResolver.unregister_doc(sp)
                if model.pop(b, None) is not None:
                    replaced.add(b)
            else:
                frag = d.choice(['', '#', '#/$defs/A', '#/$defs/A', '#/$defs/B'])
                d.show('resolve %s%s' % (sp, frag))
                if b in replaced:
                    d.hit()
                got = outcome_exc(lambda: resolve_uri(sp + frag))
                if b not in model or frag.endswith('B') or (frag.endswith('A') and not model[b]):
                    require(got[0] == 'reject', 'found', lambda: '%s%s is not registered but gave %r' % (sp, frag, got[1]))
                else:
                    want = model[b]['$defs']['A'] if frag.endswith('A') else model[b]
                    require(got[0] == 'ok' and got[1] is want, 'stale', lambda: '%s%s gave %r expected %r' % (sp, frag, got[1], want))
                continue
            d.show('%s %s %r' % (op, sp, model.get(b)))
        for b in bases:
            got = outcome_exc(lambda: resolve_doc(b))
            if b in replaced:
                d.hit()
            require(got[0] == ('ok' if b in model else 'reject') and (b not in model or got[1] is model[b]), 'stale',
                    lambda: '%s gave %r expected %r' % (b, got[1], model.get(b)))
    finally:
        for b in model:
            UriResolver.unregister_doc(b)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def outcome_exc(fn):
    # an unknown base is reported with a plain Exception
    try:
        return 'ok', fn()
    except Exception as er:
        require(isinstance(er, InvalidValue) or 'nresolvable' in str(er) or 'resolve' in str(er), 'error', lambda: repr(er))
        return 'reject', er


def prop_named(d):
    """schemas without an id are registered by title or file name, otherwise rejected"""
    title = uid('title')
    kind = d.choice(['title', 'nothing', 'file', 'id', 'empty'])
    doc = {'type': 'object', 'properties': {'a': {'type': 'integer'}}}
    d.show(kind)
    d.hit(kind)
    if kind == 'nothing':
        got = None
        try:
            got = load_schema(doc)
        except SchemaError:
            pass
        require(got is None, 'unnamed', lambda: 'a schema without name was registered: %r' % (got,))
        return
    if kind == 'file':
        tmp = tempfile.mkdtemp(prefix='verif-p13-')
        try:
            fn = os.path.join(tmp, title + '.json')
            with open(fn, 'w') as f:
                json.dump(doc, f)
            u, got = load_schema_file(fn)
            doc['$id'] = title
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    else:
        doc['title'] = title
        if kind == 'id':
            doc['$id'] = title = uri()
        if kind == 'empty':
            doc['$id'] = ''
        u, got = load_schema(doc)
    equal((u, dict(got)), (title, doc), 'named', kind)
    require(resolve_uri(title) is got, 'named', lambda: '%r gave %r' % (title, resolve_uri(title)))
    require(resolve_uri(title + '#/properties/a') is got['properties']['a'], 'named', lambda: title)


def prop_scope(d):
    """references are relative to the document they are in"""
    base, other = uri(), uri()
    frag = ''.join('/' + d.choice(['$defs', 'A', 'properties', 'b', '0']) for _ in range(d.int(0, 4)))
    here = base + d.choice(['', '#', '#/$defs/X', '#/a/b/c'])
    d.show('%s in %s' % (frag, here))
    d.hit()
    equal(scope('#' + frag, here), base + '#' + frag, 'scope', '#%s in %s' % (frag, here))
    equal(scope(other + '#' + frag, here), other + '#' + frag, 'scope', '%s#%s in %s' % (other, frag, here))
    equal(scope(other, here), other, 'scope', '%s in %s' % (other, here))


TESTS = [
    Test('pointer', prop_pointer, 6000),
    Test('store', prop_store, 1500),
    Test('named', prop_named, 60),
    Test('scope', prop_scope, 100),
]
