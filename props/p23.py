# -*- coding: utf-8 -*-
"""P23: instances know their parents: canonical names and objects found by them."""
from pbt.common import *
from ngoschema.models.instances import Instance, Entity
from ngoschema.repositories import MemoryRepository
from ngoschema.session import session_maker

META = dict(
    title='Canonical names follow the tree of instances and lead back to each of them',
    statement="The parent of an object built inside another one is this one, its parent instance the nearest enclosing instance, and its root the outermost object, whatever was built, appended, replaced or removed before. "
              "The canonical name of an instance is the names of its parent instances and its own, joined by dots, at any time: it, and the values computed from it, follow every renaming of the instance and of any of its parents. "
              "An instance resolves the names relative to it of each instance of its tree to this instance, those of properties of these instances to their values, and fails for the names which do not exist; "
              "a session resolves them from the entities of its repositories. Entities are serialized by their keys exactly where it is asked.",
    over=['histories', 'inputs'],
    quantifier='every tree of instances held by properties, arrays, maps and objects without name, every sequence of modifications of it, and every name and combination of options',
    why='test_cache_invalidation renames one parent of one object without instances; canonical names of instances, their resolution and entities are not tested at all.',
    files=['ngoschema/models/instances.py', 'ngoschema/contexts/instance_context.py', 'ngoschema/contexts/object_protocol_context.py',
           'ngoschema/protocols/object_protocol.py', 'ngoschema/session.py', 'ngoschema/protocols/collection_protocol.py'],
    mechanism=[('canonical names', 'ngoschema/models/instances.py:Instance.get_canonicalName'),
               ('parent instances', 'ngoschema/contexts/instance_context.py:InstanceContext.set_context'),
               ('resolution', 'ngoschema/protocols/object_protocol.py:ObjectProtocol.resolve_cname_path'),
               ('resolution from repositories', 'ngoschema/session.py:Session.resolve_cname'),
               ('keys of entities', 'ngoschema/models/instances.py:Entity._serialize')],
    observe=['canonical names and values computed from them', 'parents and roots', 'objects and values found by name', 'serialized entities'],
    oracle='a reference tree of names and values',
    level_note='Random exploration: about 1000 trees and histories per quick run.',
)
RULE = ('A case is a tree of instances with modifications. Non-trivial: an instance with a parent is renamed, or one of its parents is, '
        'an instance is resolved by name, or an entity is serialized by its keys.')
ASSUMPTIONS = ['instances have names, which are not those of properties',
               'objects without name are not crossed by the resolution of names',
               'objects which were built before they are put in another one keep their own context, so that trees are built from mappings']

I_ID = 'https://numengo.org/ngoschema#/$defs/instances/$defs/Instance'
E_ID = 'https://numengo.org/ngoschema#/$defs/instances/$defs/Entity'
_classes = {}


def classes(kind):
    if kind in _classes:
        return _classes[kind]
    b = uri()
    me = {'$ref': b + '#/$defs/N'}
    props = {'left': me, 'kids': {'type': 'array', 'items': me}, 'map': {'type': 'object', 'additionalProperties': me},
             'box': {'type': 'object', 'properties': {'in': me, 'more': {'type': 'array', 'items': me}}},
             'val': {'type': 'integer'}, 'cn': {'type': 'string', 'default': '{{this.canonicalName}}!'},
             'up': {'type': 'string', 'default': 'from {{this.cn}}'}}
    s = {'type': 'object', 'extends': [E_ID if kind == 'entity' else I_ID], 'properties': props}
    if kind == 'entity':
        s['primaryKeys'] = ['name']
    load_schema({'$id': b + '#', 'type': 'object', '$defs': {'N': s}})
    attrs = {'_id': b + '#/$defs/N'}
    if kind == 'lazy':
        attrs['_lazyLoading'] = True
    if kind == 'attributes':
        attrs['_attributeByName'] = True
    _classes[kind] = SchemaMetaclass('N', (Entity if kind == 'entity' else Instance,), attrs)
    return _classes[kind]


NAMES = ['a', 'b', 'c', 'dd', 'e1', 'f']
# what precedes : is not used to find the instance
PREFIXED = ['x:a', 'x:g']
SLOTS = ['left', 'kids', 'map', 'box']


class Node:
    def __init__(self, name, val=None, templates=False):
        self.raw, self.val, self.kids, self.parent = name, val, {}, None  # kids: path of keys -> node
        self.templates = templates

    @property
    def name(self):
        return self.raw.replace('{{val}}', str(self.val)).replace("{{this.val or ''}}", str(self.val or ''))

    def put(self, path, node):
        self.kids[path] = node
        node.parent = self

    def cname(self):
        return (self.parent.cname() + '.' if self.parent else '') + self.name

    def root(self):
        return self.parent.root() if self.parent else self

    def walk(self, path=()):
        yield path, self
        for p, k in self.kids.items():
            for x in k.walk(path + p):
                yield x

    def depth(self):
        return 1 + (self.parent.depth() if self.parent else 0)

    def array(self, key):
        return [k for p, k in sorted(((p, k) for p, k in self.kids.items() if p[:len(key)] == key), key=lambda x: x[0][-1])]

    def set_array(self, key, nodes):
        self.kids = {p: k for p, k in self.kids.items() if p[:len(key)] != key}
        for i, n in enumerate(nodes):
            self.put(key + (i,), n)


TEMPLATES = ['t{{val}}', "u{{this.val or ''}}", '{{val}}x']


def gen_tree(d, depth, name=None, templates=False):
    """(mapping, Node)"""
    val = d.int(0, 9) if d.bool() else None
    n = Node(name or d.choice(NAMES + (TEMPLATES if templates and val is not None else PREFIXED if templates is None else [])), val, templates)
    v = {'name': n.raw}
    if n.val is not None:
        v['val'] = n.val
    if depth:
        for slot in d.subset(SLOTS, 0.45 if depth > 1 else 0.3):
            if slot == 'left':
                v['left'], k = gen_tree(d, depth - 1, templates=templates)
                n.put(('left',), k)
            elif slot == 'kids':
                v['kids'] = []
                for i in range(d.int(0, 3)):
                    w, k = gen_tree(d, depth - 1, templates=templates)
                    v['kids'].append(w)
                    n.put(('kids', i), k)
            elif slot == 'map':
                v['map'] = {}
                for key in d.subset(['k', 'm'], 0.6):
                    v['map'][key], k = gen_tree(d, depth - 1, templates=templates)
                    n.put(('map', key), k)
            else:
                v['box'] = {}
                if d.bool(0.7):
                    v['box']['in'], k = gen_tree(d, depth - 1, templates=templates)
                    n.put(('box', 'in'), k)
                if d.bool(0.5):
                    v['box']['more'] = []
                    for i in range(d.int(1, 2)):
                        w, k = gen_tree(d, depth - 1, templates=templates)
                        v['box']['more'].append(w)
                        n.put(('box', 'more', i), k)
    return v, n


def follow(o, path):
    for p in path:
        o = o[p]
    return o


def check(d, root, tree, everything=False):
    nodes = list(tree.walk())
    for path, n in nodes if everything else [d.choice(nodes) for _ in range(3)]:
        o = follow(root, path)
        where = '.'.join(map(str, path)) or 'root'
        cn = n.cname()
        order = d.shuffle(['cn', 'up', 'canonicalName', '_canonicalName'])
        if tree.templates:
            # the names which are not evaluated are those of the last evaluation
            order = [k for k in order if k != '_canonicalName'] + ['_canonicalName']
        for k in order:
            want = cn + '!' if k == 'cn' else 'from ' + cn + '!' if k == 'up' else cn
            got = getattr(o, k)
            require(got == want, 'canonical-name', lambda: '%s of %s is %r instead of %r' % (k, where, got, want))
        require(o.name == n.name and o.val == n.val, 'value', lambda: '%s is %r %r instead of %r %r' % (where, o.name, o.val, n.name, n.val))
        if n.parent is None:
            require(o._parent is None and o._parentInstance is None and o._root is o, 'parent', lambda: 'parents of the root are %r, %r' % (o._parent, o._parentInstance))
        else:
            own = path[-len([p for p, k in n.parent.kids.items() if k is n][0]):]
            instance = follow(root, path[:-len(own)])
            encl = instance[own[0]] if own[0] in ('map', 'box') else instance
            require(o._parentInstance is instance, 'parent', lambda: 'parent instance of %s is %r' % (where, o._parentInstance))
            require(o._parent is encl, 'parent', lambda: 'parent of %s is %r' % (where, o._parent))
            require(o._root is root, 'parent', lambda: 'root of %s is %r' % (where, o._root))
            require(encl._root is root, 'parent', lambda: 'root of the parent of %s is %r' % (where, encl._root))
        require(str(o).find(' %s' % (n.name if isinstance(o, Entity) else cn)) > 0, 'str', lambda: 'str of %s is %s' % (cn, o))


def visible(n):
    """nodes found by name from n: (relative names, node), in which objects without name are not crossed"""
    for p, k in n.kids.items():
        if p[0] in ('left', 'kids'):
            yield (k.name,), k
            for names, x in visible(k):
                yield (k.name,) + names, x


def short(names):
    return tuple(x.rsplit(':')[-1] for x in names)


def check_resolution(d, root, tree):
    nodes = [(p, n) for p, n in tree.walk()]
    path, n = d.choice(nodes)
    o = follow(root, path)
    paths = {id(x): p for p, x in nodes}
    seen = {}
    for names, x in visible(n):
        seen.setdefault(short(names), []).append(x)
    if seen and d.bool(0.75):
        names = d.choice(sorted(seen))
    else:
        names = tuple(d.choice(NAMES) for _ in range(d.int(1, 3)))
    if d.bool(0.3):
        # with their prefix or another one
        names = tuple(d.choice(['', 'x:', 'y:']) + x for x in names)
    leaf = d.bool(0.25)
    asked = names + ('val',) if leaf else names
    arg = '.'.join(asked) if d.bool() else list(asked)
    d.show('%r resolves %r' % (paths[id(n)], arg))
    names = short(names)
    if names in seen:
        d.hit('resolved')
        cands = [follow(root, paths[id(x)]) for x in seen[names]]
        got = o.resolve_cname(arg)
        if leaf:
            require(got in [c.val for c in cands], 'resolution', lambda: '%r gives %r instead of %r' % (arg, got, [c.val for c in cands]))
        else:
            require(any(got is c for c in cands), 'resolution', lambda: '%r gives %r' % (arg, got))
            p = o.resolve_cname_path(list(asked))
            require(follow(o, p) is got, 'resolution', lambda: 'path of %r is %r' % (arg, p))
    else:
        try:
            got = o.resolve_cname(arg)
        except Exception:
            pass
        else:
            raise Violation('resolution', '%r does not exist and gives %r' % (arg, got))


def modify(d, root, tree):
    nodes = list(tree.walk())
    path, n = d.choice(nodes)
    o = follow(root, path)
    op = d.weighted((5, 'rename'), (2, 'val'), (2, 'left'), (3, 'kids'), (2, 'map'), (2, 'box'), (1, 'remove'))
    where = '.'.join(map(str, path)) or 'root'
    if op == 'rename':
        n.raw = d.choice(NAMES + (TEMPLATES if tree.templates and n.val is not None else PREFIXED if tree.templates is None else []))
        if n.parent or n.kids:
            d.hit('renamed')
        d.show('%s.name = %r' % (where, n.raw))
        if d.bool():
            o.name = n.raw
        else:
            o['name'] = n.raw
    elif op == 'val':
        n.val = d.int(0, 9)
        if '{{' in n.raw:
            d.hit('renamed by its template')
        d.show('%s.val = %r' % (where, n.val))
        o.val = n.val
    elif op == 'remove':
        k = d.choice(['left', 'map'])
        if k == 'left' and ('left',) in n.kids:
            d.show('del %s.left' % where)
            del n.kids[('left',)]
            del o['left']
        elif k == 'map':
            ks = [p for p in n.kids if p[0] == 'map']
            if ks:
                p = d.choice(ks)
                d.show('del %s.map[%r]' % (where, p[1]))
                del n.kids[p]
                del o['map'][p[1]]
    elif n.depth() >= 6:
        return
    elif op == 'left':
        v, k = gen_tree(d, 1, templates=tree.templates)
        d.show('%s.left = %r' % (where, v))
        o.left = v
        n.put(('left',), k)
    elif op == 'kids':
        v, k = gen_tree(d, 1, templates=tree.templates)
        nodes = n.array(('kids',))
        how = d.choice(['append', 'insert', 'set', 'del', 'all'])
        i = d.int(0, len(nodes))
        d.show('%s.kids %s %d %r' % (where, how, i, v))
        if how == 'all' or not nodes and not o['kids']:
            o['kids'] = [v]
            nodes = [k]
        elif how == 'append' or i == len(nodes):
            o.kids.append(v)
            nodes.append(k)
        elif how == 'insert':
            o.kids.insert(i, v)
            nodes.insert(i, k)
        elif how == 'set':
            o.kids[i] = v
            nodes[i] = k
        else:
            del o.kids[i]
            del nodes[i]
        n.set_array(('kids',), nodes)
    elif op == 'map':
        v, k = gen_tree(d, 1, templates=tree.templates)
        key = d.choice(['k', 'm'])
        d.show('%s.map[%r] = %r' % (where, key, v))
        if o['map'] is None:
            o['map'] = {key: v}
        else:
            o['map'][key] = v
        n.put(('map', key), k)
    else:
        v, k = gen_tree(d, 1, templates=tree.templates)
        d.show('%s.box.in = %r' % (where, v))
        if o['box'] is None:
            o['box'] = {'in': v}
        else:
            o['box']['in'] = v
        n.put(('box', 'in'), k)


def prop_trees(d):
    """parents, names and resolution in a tree of instances which is modified"""
    kind = d.choice(['eager', 'eager', 'lazy', 'attributes', 'entity'])
    C = classes(kind)
    v, tree = gen_tree(d, d.int(1, 3), templates=d.choice([True, None, False]) if kind != 'entity' else False)
    d.show('tree %r' % v)
    root = C(v) if d.bool() else C(**v)
    for _ in range(d.int(1, 6)):
        what = d.weighted((4, 'modify'), (2, 'check'), (2, 'resolve'))
        if what == 'modify':
            modify(d, root, tree)
        elif what == 'check':
            check(d, root, tree)
        else:
            check_resolution(d, root, tree)
    check(d, root, tree, True)
    check_resolution(d, root, tree)


def ref_plain(n, keys=None, add=False, excludes=()):
    """serialization of an entity: keys is the way its items are serialized"""
    out = {}
    if 'name' not in excludes or add:
        out['name'] = n.name
    if n.val is not None and 'val' not in excludes:
        out['val'] = n.val

    def item(k):
        return k.name if keys == 'identity' else {'name': k.name} if keys == 'entity' else ref_plain(k, keys, add, excludes)
    for p, k in n.kids.items():
        if p[0] in excludes:
            continue
        if p == ('left',):
            out['left'] = item(k)
        elif p[0] == 'map':
            out.setdefault('map', {})[p[1]] = item(k)
        elif p == ('box', 'in'):
            out.setdefault('box', {})['in'] = item(k)
    for key in (('kids',), ('box', 'more')):
        if key[0] in excludes:
            continue
        items = n.array(key)
        if items:
            at = out if len(key) == 1 else out.setdefault('box', {})
            at[key[-1]] = [item(k) for k in items]
    return out


def plain(x):
    if isinstance(x, dict):
        out = {k: plain(v) for k, v in x.items()}
        return {k: v for k, v in out.items() if k not in ('cn', 'up') and v is not None and v != {} and v != []}
    return [plain(i) for i in x] if isinstance(x, list) else x


def prop_entities(d):
    """entities of a repository found by canonical name, and serialized by their keys"""
    C = classes('entity')
    sessions = [session_maker()() for _ in range(2)]
    repos = []
    for s in sessions:
        for _ in range(d.int(1, 2)):
            repos.append((s, MemoryRepository(instanceClass=C, many=True, meta_opts={'session': s}), {}))
    for _ in range(d.int(1, 5)):
        s, r, model = d.choice(repos)
        v, tree = gen_tree(d, 2)
        o = C(v)
        taken = [m for s2, r2, m in repos if s2 is s and m is not model and tree.name in m]
        if taken:
            continue
        d.show('commit %r' % v)
        r.commit(o)
        model[tree.name] = (o, tree)
        for _ in range(2):
            s2 = d.choice(sessions)
            known = {k: x for s3, r3, m in repos if s3 is s2 for k, x in m.items()}
            name = d.choice(NAMES)
            if name in known:
                root, t = known[name]
                seen = {(): [()]}
                paths = {id(x): p for p, x in t.walk()}
                for names, x in visible(t):
                    seen.setdefault(names, []).append(paths[id(x)])
                names = d.choice(sorted(seen))
                d.hit('resolved')
                got = s2.resolve_cname('.'.join((name,) + names))
                require(any(got is follow(root, p) for p in seen[names]), 'session', lambda: '%s.%s gives %r' % (name, names, got))
            else:
                try:
                    got = s2.resolve_cname(name)
                except Exception:
                    pass
                else:
                    raise Violation('session', '%r is not in this session and gives %r' % (name, got))
        opts = {}
        how = d.choice(['plain', 'identity', 'entity', 'identity root', 'entity root', 'add'])
        if 'identity' in how:
            opts['use_identity_keys'] = True
        if 'entity' in how:
            opts['use_entity_keys'] = True
        if 'root' in how:
            opts['root_entity'] = True
        if how == 'add':
            opts['add_identity_keys'] = True
        excludes = d.subset(['name', 'val', 'left'], 0.4) if how in ('plain', 'add') else d.subset(['val', 'left'], 0.3) if 'root' in how else []
        if excludes:
            opts['excludes'] = list(excludes)
        got = o.do_serialize(**opts)
        if how == 'identity':
            want = tree.name
        elif how == 'entity':
            want = {'name': tree.name}
        else:
            want = ref_plain(tree, how.split()[0] if 'root' in how else None, how == 'add', excludes)
        if how != 'plain':
            d.hit('keys')
        got = plain(got)
        want = plain(want)
        require(got == want, 'serialized', lambda: 'serialization with %r is %r instead of %r' % (opts, got, want))


# ---------------------------------------------------------------- several keys
KEYS = {'name': ({}, [('a', 'a'), ('b', 'b'), ('', ''), ('10', '10')]),
        'no': ({'type': 'integer'}, [(0, 0), (1, 1), ('2', 2), (-3, -3)]),
        'rate': ({'type': 'number'}, [(0, 0.0), (1.5, 1.5), ('2.5', 2.5)]),
        'flag': ({'type': 'boolean'}, [(True, True), (False, False), ('false', False)]),
        'day': ({'type': 'date'}, [('2020-01-02', '2020-01-02'), ('2021-12-31', '2021-12-31')]),
        'at': ({'type': 'datetime'}, [('2020-01-02T10:00:00', '2020-01-02T10:00:00+00:00')]),
        'path': ({'type': 'path'}, [('x/y', 'x/y'), ('z', 'z')])}


def keys_class(names, lazy):
    key = ('keys', names, lazy)
    if key not in _classes:
        b = uri()
        me = {'$ref': b + '#/$defs/N'}
        props = {k: KEYS[k][0] for k in KEYS if k != 'name'}
        props.update({'val': {'type': 'integer'}, 'kid': me, 'kids': {'type': 'array', 'items': me}, 'map': {'type': 'object', 'additionalProperties': me},
                      'box': {'type': 'object', 'properties': {'in': me}}})
        load_schema({'$id': b + '#', 'type': 'object', '$defs': {'N': {'type': 'object', 'extends': [E_ID], 'primaryKeys': list(names), 'properties': props}}})
        _classes[key] = SchemaMetaclass('N', (Entity,), dict({'_id': b + '#/$defs/N'}, **({'_lazyLoading': True} if lazy else {})))
    return _classes[key]


def prop_keys(d):
    """entities of one or several keys of any type, which change"""
    names = tuple(d.shuffle(sorted(KEYS))[:d.weighted((2, 1), (3, 2), (1, 3))])
    C = keys_class(names, d.bool(0.3))
    used = list(names) + ['val']

    def value(k):
        return d.choice(KEYS[k][1]) if k != 'val' else d.choice([(0, 0), (7, 7)])

    def gen(depth):
        v, m = {}, {}
        for k in used:
            if d.bool(0.85):
                v[k], m[k] = value(k)
        if depth:
            for slot in d.subset(['kid', 'kids', 'map', 'box'], 0.4):
                if slot == 'kid':
                    v[slot], m[slot] = gen(depth - 1)
                elif slot == 'kids':
                    pairs = [gen(depth - 1) for _ in range(d.int(1, 2))]
                    v[slot], m[slot] = [x for x, _ in pairs], [x for _, x in pairs]
                else:
                    x, y = gen(depth - 1)
                    v[slot], m[slot] = {'in': x}, {'in': y}
        return v, m
    v, m = gen(d.int(0, 2))
    d.show('keys %s: %r' % (list(names), v))
    o = C(v)
    nodes = [(o, m)]

    def walk(x, y):
        for k in ('kid', 'kids', 'map', 'box'):
            if k in y:
                for a, b in zip(x[k] if k == 'kids' else [x[k]] if k == 'kid' else [x[k]['in']],
                                y[k] if k == 'kids' else [y[k]] if k == 'kid' else [y[k]['in']]):
                    nodes.append((a, b))
                    walk(a, b)
    walk(o, m)

    def keys(y):
        return [y.get(k) for k in names]

    def items(y, how, add):
        if how == 'identity':
            return keys(y)[0] if len(names) == 1 else keys(y)
        if how == 'entity':
            return {names[0]: keys(y)[0]}
        return whole(y, how, add)

    def whole(y, how, add):
        out = {k: y[k] for k in used if k in y and (k not in excludes or add and k in names)}
        for k in ('kid', 'kids', 'map', 'box'):
            if k in y and k not in excludes:
                out[k] = [items(z, how, add) for z in y[k]] if k == 'kids' else items(y[k], how, add) if k == 'kid' else {'in': items(y[k]['in'], how, add)}
        return out

    def norm(x):
        if isinstance(x, dict):
            return {k: norm(w) for k, w in x.items() if w is not None and k != 'canonicalName' and norm(w) != {}}
        if isinstance(x, list):
            return [norm(w) for w in x]
        require(x is None or isinstance(x, (str, bool, int, float)) or type(x).__name__ == 'Decimal', 'serialized', lambda: '%r is not serialized' % (x,))
        return float(x) if type(x).__name__ == 'Decimal' else x
    for _ in range(d.int(1, 5)):
        op = d.weighted((3, 'change'), (3, 'keys'), (4, 'serialize'))
        x, y = d.choice(nodes)
        if op == 'change':
            k = d.choice(used)
            w, y[k] = value(k)
            d.show('%d.%s = %r' % ([a is x for a, _ in nodes].index(True), k, w))
            if d.bool():
                setattr(x, k, w)
            else:
                x[k] = w
            if k in names:
                d.hit('key changed')
        elif op == 'keys':
            want = keys(y)
            got = [str(a) if a is not None and not isinstance(a, (bool, int, float, str)) and type(a).__name__ != 'Decimal' else a for a in x.identityKeys]
            got = [float(a) if type(a).__name__ == 'Decimal' else a for a in got]
            want2 = [w.replace('T', ' ') if isinstance(w, str) and k == 'at' else w for k, w in zip(names, want)]
            got = [a.replace('T', ' ') if isinstance(a, str) and k == 'at' else a for k, a in zip(names, got)]
            equal(got, want2, 'keys')
            equal([type(a) for a in x._identityKeys], [type(x[k]) for k in names], 'types of keys')
            equal(list(x._identityKeys), [x[k] for k in names], 'keys')
            equal(list(x.primaryKeys), list(names), 'names of keys')
            d.hit('keys')
        else:
            how = d.choice(['identity', 'entity', None]) if len(names) == 1 else d.choice(['identity', None])
            root = d.bool(0.7)
            add = d.bool(0.5)
            excludes = d.subset(sorted(names) + ['val', 'kid'], 0.3)
            opts = {}
            if how:
                opts['use_%s_keys' % how] = True
            if root:
                opts['root_entity'] = True
            if add:
                opts['add_identity_keys'] = True
            if excludes:
                opts['excludes'] = list(excludes)
            d.show('serialize %r' % opts)
            if not any(k in y for k in used):
                # (the keys of an empty entity)
                continue
            got = x.do_serialize(**opts)
            want = whole(y, how, add) if root or not how else items(y, how, add)
            d.hit('serialized')
            equal(norm(got), norm(want), 'serialized with %r' % opts)


TESTS = [Test('keys', prop_keys, 600), Test('trees', prop_trees, 450), Test('entities', prop_entities, 260)]
