# -*- coding: utf-8 -*-
"""P27: what modules and configuration folders bring: schemas, files, commands, configuration of logs."""
import importlib
import json
import logging
import os
import pathlib
import shutil
import sys
import tempfile

import click
from click.testing import CliRunner

from pbt.common import *
from ngoschema import settings
from ngoschema.cli import ComplexCLI, base_cli, pass_environment, run_cli  # noqa: F401
from ngoschema.config.utils import search_app_config_files, load_default_app_config, load_log_config
from ngoschema.loaders import (register_module, templates_module_loader, transforms_module_loader, objects_module_loader,
                               static_module_loader, schemas_module_loader)
from ngoschema.loaders.module import load_module_schemas, GenericModuleFileLoader
from ngoschema.resolvers.uri_resolver import UriResolver

META = dict(
    title='A module registered brings exactly the schemas, files and commands it holds',
    statement="Loading the schemas of a module, or registering it, makes every JSON file of its folder of schemas, at any depth, available by the identifier it states ($id or id, without trailing #) or else by its file name, "
              "as a document and as classes, in the store given if any, a document loaded later replacing the one of the same identifier; a file which is not a schema is skipped without preventing the others, "
              "and nothing else is modified. A module registered is known to the loaders of templates, transforms, objects, static files and schemas for which it has a folder, and to no other. "
              "The commands of a command line are the modules cmd_*.py of its folder, named with dashes, each leading to its module; the options home, verbose and log-level act on the command as stated, "
              "and a command which does not exist or fails is an error which does not prevent the others. "
              "The files of configuration of an application are those of its folders, and what they state is loaded; the configuration of logs is the default one, which is left as it is, with the sections of the file.",
    over=['inputs', 'histories', 'configurations'],
    quantifier='every set of modules, files and commands, and every sequence of changes, registrations and look ups',
    why='The tests only register the module of the library itself; no test runs a command line or loads a configuration.',
    files=['ngoschema/loaders/module.py', 'ngoschema/loaders/schemas.py', 'ngoschema/cli/__init__.py', 'ngoschema/config/utils.py', 'ngoschema/resolvers/uri_resolver.py'],
    mechanism=[('schemas of a module', 'ngoschema/loaders/module.py:load_module_schemas'), ('loaders', 'ngoschema/loaders/module.py:GenericModuleFileLoader'),
               ('identifier of a file', 'ngoschema/loaders/schemas.py:load_schema_file'), ('commands', 'ngoschema/cli/__init__.py:ComplexCLI'),
               ('configuration', 'ngoschema/config/utils.py:load_log_config')],
    observe=['documents and classes available before and after', 'content of the store given', 'files found by the loaders', 'commands listed, their output and exit code', 'configurations loaded'],
    oracle='the files written by the check: a dictionary of the documents by identifier, and the sets of files and commands',
    level_note='Random exploration: about 2300 histories per quick run.',
)
RULE = ('A case is a set of modules with a history of loads, a command line with commands, or a folder of configuration. Non-trivial: a document in a sub-folder, replaced, '
        'or next to a file which is not a schema; a command which fails or options; a configuration with several sections.')
ASSUMPTIONS = ['two files of the same module do not have the same identifier: the order of files is the one of the system',
               'the names of commands are lower case', 'the messages of the commands are not claimed']

LOADERS = [templates_module_loader, transforms_module_loader, objects_module_loader, static_module_loader, schemas_module_loader]


class Modules:
    """modules written in a scratch folder which can be imported"""

    def __init__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix='verif-p27-')).resolve()
        self.mods = []
        sys.path.insert(0, str(self.root))

    def add(self):
        m = 'verifmod_%s' % uid().lower()
        (self.root / m).mkdir()
        (self.root / m / '__init__.py').write_text('')
        self.mods.append(m)
        importlib.invalidate_caches()
        return m

    def close(self):
        sys.path.remove(str(self.root))
        for m in self.mods:
            for lo in GenericModuleFileLoader.module_loaders_registry.values():
                lo._registry.pop(m, None)
            for k in [k for k in sys.modules if k.split('.')[0] == m]:
                del sys.modules[k]
        shutil.rmtree(str(self.root), ignore_errors=True)


BROKEN = [b'{"$id": ', b'\xff\xfe', b'', b'[1, 2]', b'"text"', b'3', b'{"a": 1} {}', b'null']


def prop_schemas(d):
    w = Modules()
    store = UriResolver.get_doc_store()
    seen = []
    try:
        for _ in range(d.int(1, 3)):
            w.add()
        tag = uid().lower()
        # several modules can have the same identifiers
        uris = ['https://verif.test/%s/%s' % (tag, x) for x in 'ab'] + ['d-' + tag]
        files = {m: {} for m in w.mods}     # module -> path -> (identifier or None, document or None)
        before = {k: id(v) for k, v in store.items()}
        model = {}
        stores = {}
        built = set()
        for _ in range(d.int(2, 14)):
            m = d.choice(w.mods)
            op = d.weighted((5, 'write'), (1, 'remove'), (4, 'load'), (2, 'class'))
            if op == 'write':
                rel = d.choice(['', '', 's/', 's/t/', 'u.v/']) + d.choice(['f%d' % i for i in range(4)]) + '-' + tag
                ext = d.weighted((9, '.json'), (1, '.txt'), (1, '.yaml'), (1, '.jsn'))
                q = w.root / m / 'schemas' / (rel + ext)
                again = sorted(p for p, (u, _) in files[m].items() if u)
                if again and d.bool(0.5):
                    q = d.choice(again)
                    ext = '.json'
                how = d.weighted((6, 'schema'), (2, 'broken'))
                if how == 'broken':
                    content = d.choice(BROKEN)
                    files[m][q] = (None, None)
                    d.note('not a schema')
                else:
                    doc = {'type': 'object', '$defs': {'X': {'type': 'object', 'properties': {'n%d' % d.int(0, 99): {'type': 'integer', 'default': d.int(0, 99)}}}}}
                    if d.bool(0.2):
                        doc['title'] = 'Some title'
                    taken = [u for p, (u, _) in files[m].items() if p != q]
                    free = [u for u in uris if u not in taken]
                    u = q.stem
                    if free and d.bool(0.7):
                        # often an identifier already loaded
                        u = d.choice(free if d.bool() else [u for u in free if u in model] or free)
                        doc[d.choice(['$id', '$id', 'id'])] = u + d.choice(['', '#'])
                    elif u in taken:
                        continue
                    doc = dict(d.shuffle(list(doc.items())))
                    content = json.dumps(doc).encode('utf-8')
                    if not ('$id' in doc or 'id' in doc):
                        doc = dict(doc, **{'$id': u})
                    files[m][q] = (u, doc) if ext == '.json' else (None, None)
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_bytes(content)
                d.show('%s: %r' % (q.relative_to(w.root), content))
            elif op == 'remove' and files[m]:
                q = d.choice(sorted(files[m]))
                del files[m][q]
                q.unlink()
                d.show('%s removed' % q.relative_to(w.root))
            elif op == 'load':
                way = d.choice(['load', 'load', 'store', 'register'])
                d.show('%s %s' % (way, m))
                docs = {u: doc for u, doc in files[m].values() if u}
                if way == 'register':
                    register_module(m)
                elif way == 'load':
                    got = load_module_schemas(m)
                    require(got is store, 'store', lambda: 'loading gives %r' % type(got))
                else:
                    k = d.choice('st')
                    mine, want = stores.setdefault(k, ({}, {}))
                    got = load_module_schemas(m, mine)
                    require(got is mine, 'store', lambda: 'loading in a store gives another one')
                    want.update(docs)
                    equal(mine, want, 'store', 'the store given')
                if any(u in model and model[u] != doc for u, doc in docs.items()):
                    d.hit('replaced')
                if any(p.parent.name != 'schemas' for p, (u, _) in files[m].items() if u):
                    d.hit('sub-folder')
                if docs and len(docs) < len(files[m]):
                    d.hit('next to other files')
                model.update(docs)
            elif op == 'class' and model:
                u = d.choice(sorted(model))
                if u not in built:
                    built.add(u)
                    (k, s), = model[u]['$defs']['X']['properties'].items()
                    o = type_builder.load(u + '#/$defs/X')()
                    equal(list(o), [k], 'class', u)
                    equal(o[k], s['default'], 'class', u)
            for u in uris + ['%s-%s' % (f, tag) for f in ('f0', 'f1', 'f2', 'f3')]:
                got = store.get(u)
                require(got == model.get(u), 'documents', lambda: 'document %s is %r expected %r' % (u, got, model.get(u)))
        now = {k: id(v) for k, v in store.items()}
        for k, v in before.items():
            require(now.get(k) == v, 'documents', lambda: 'another document %s is modified' % k)
        seen = [k for k in now if k not in before]
        equal(sorted(seen), sorted(model), 'documents', 'new documents')
    finally:
        for u in list(store):
            if tag in u:
                del store[u]
        w.close()


def prop_loaders(d):
    w = Modules()
    try:
        have = {}
        for _ in range(d.int(1, 3)):
            m = w.add()
            for lo in LOADERS:
                if d.bool(0.5):
                    names = d.subset(['a.txt', 'b.txt', 's/a.txt'], 0.6)
                    for n in names:
                        q = w.root / m / lo.subfolderName / n
                        q.parent.mkdir(parents=True, exist_ok=True)
                        q.write_text(m)
                    (w.root / m / lo.subfolderName).mkdir(parents=True, exist_ok=True)
                    have[m, lo.subfolderName] = names
        d.show(have)
        registered = []
        for m in d.shuffle(d.subset(w.mods, 0.8)):
            for _ in range(d.int(1, 2)):
                register_module(m)
            registered.append(m)
            d.show('register %s' % m)
            for lo in LOADERS:
                f = lo.subfolderName
                for x in w.mods:
                    known = x in registered and (x, f) in have
                    require((x in lo) == known, 'module', lambda: '%s in the loader of %s: %r' % (x, f, x in lo))
                    if known:
                        equal(list(lo[x]), [w.root / x / f], 'folders', '%s %s' % (x, f))
                        for n in ['a.txt', 'b.txt', 's/a.txt', 'c.txt']:
                            got = lo.find_one(x + '/' + n)
                            want = w.root / x / f / n if n in have[x, f] else None
                            equal(got, want, 'find', '%s/%s in %s' % (x, n, f))
        if registered and have:
            d.hit()
    finally:
        w.close()

# click takes the options away from the function at its first use
PARAMS = list(getattr(base_cli, '__click_params__', []))

COMMAND = '''
import click
from ngoschema.cli import pass_environment

@click.command(%(name)r)
@click.argument('x', default='none')
@pass_environment
def cli(ctx, x):
    click.echo('%(word)s|%%s|%%s|%%s' %% (x, ctx.verbose, ctx.home))
    ctx.log('logged %%s %%d', x, 3)
    ctx.log('100%%')
    ctx.vlog('details %%s', x)
    click.echo(ctx.resolve_path('sub/../f'))
    if x == 'fail':
        raise ValueError('failed')
'''


def prop_commands(d):
    w = Modules()
    level = logging.getLogger().level
    try:
        m = w.add()
        folder = w.root / m / 'commands'
        folder.mkdir()
        (folder / '__init__.py').write_text('')
        names = d.subset(['a', 'do_it', 'do_it_now', 'list2', 'b', 'ls', 'x_1'], 0.5)
        broken = d.subset(['bad', 'bad_one'], 0.2)
        for n in names:
            (folder / ('cmd_%s.py' % n)).write_text(COMMAND % dict(name=n, word='word_' + n))
        for n in broken:
            (folder / ('cmd_%s.py' % n)).write_text(d.choice(['import nothing_named_like_this', 'from math import nothing_named_like_this']))
        for n in d.subset(['util.py', 'cmd_note.txt', 'my_cmd_x.py', 'cmd.py', 'cmd_old.py.bak', 'cmdx.py'], 0.3):
            (folder / n).write_text('')
        importlib.invalidate_caches()
        d.show('commands %r, broken %r' % (names, broken))
        base_cli.__click_params__ = list(PARAMS)
        c = click.command(cls=ComplexCLI, module_name=m, cmd_folder=str(folder))(base_cli)
        dash = lambda n: n.replace('_', '-')  # noqa: E731
        equal(c.list_commands(None), sorted(map(dash, names + broken)), 'commands')
        for _ in range(d.int(1, 5)):
            args, verbose, home, lvl = [], False, pathlib.Path.cwd(), 'WARNING'
            if d.bool(0.4):
                args.append(d.choice(['-v', '--verbose']))
                verbose = True
            if d.bool(0.4):
                home = d.choice([w.root, w.root / m])
                args += d.choice([['-h', str(home)], ['--home', str(home)], ['--home=%s' % home]])
            if d.bool(0.3):
                lvl = d.choice(['CRITICAL', 'ERROR', 'INFO', 'DEBUG'])
                args += [d.choice(['-l', '--log-level']), lvl]
            if args:
                d.hit('options')
            kind = d.weighted((6, 'run'), (1, 'unknown'), (1, 'broken'), (1, 'option'))
            if kind == 'run' and names:
                n = d.choice(names)
                x = d.choice(['x', 'fail', 'été', '%s'])
                args += [dash(n) if d.bool(0.8) else n, x]
            elif kind == 'broken' and broken:
                args += [dash(d.choice(broken))]
            elif kind == 'option':
                args += [d.choice(['--nothing', '--log-level=LOUD', '--home=%s' % (w.root / 'nothing')]), 'a']
            else:
                kind = 'unknown'
                args += ['unknown']
            d.show(args)
            r = CliRunner().invoke(c, args)
            if kind == 'run' and names:
                lines = r.output.split('\n')
                equal(lines[0], 'word_%s|%s|%s|%s' % (n, x, verbose, home), 'output', (args, r.output, r.exception))
                equal(lines[1:3], ['logged %s 3' % x, '100%'], 'output', args)
                equal(lines[3:], (['details %s' % x] if verbose else []) + [str((home / 'f').resolve()), ''], 'output', args)
                equal(r.exit_code, 1 if x == 'fail' else 0, 'exit-code', args)
                equal(isinstance(r.exception, ValueError), x == 'fail', 'exit-code', args)
                equal(logging.getLogger().level, getattr(logging, lvl), 'log-level', args)
                if x == 'fail':
                    d.hit('failure')
            else:
                equal(r.exit_code, 2, 'exit-code', args)
                d.hit('failure')
        for n in names:
            cmd = c.get_command(None, dash(n))
            require(isinstance(cmd, click.Command) and cmd.name == n, 'command', lambda: 'command %s is %r' % (n, cmd))
    finally:
        logging.getLogger().setLevel(level)
        w.close()


def prop_logs(d):
    """configuration of logs: the default one with the sections of the file"""
    folder = tempfile.mkdtemp(prefix='verif-p27-')
    tag = uid().lower()
    root = logging.getLogger()
    saved = (root.level, list(root.handlers), root.manager.disable)
    before = json.dumps(settings.LOGGING, sort_keys=True)
    try:
        for _ in range(d.int(1, 3)):
            cfg = {}
            if d.bool(0.7):
                cfg['loggers'] = {'verif.%s.%s' % (tag, x): {'level': d.choice(['DEBUG', 'INFO', 'ERROR']), 'propagate': d.bool()} for x in d.subset('abc', 0.6)}
            if d.bool(0.3):
                cfg['disable_existing_loggers'] = False
            if d.bool(0.3):
                cfg['formatters'] = {n: {'format': '%(message)s'} for n in ('console', 'mine')}
            if d.bool(0.3):
                cfg['handlers'] = {'console': {'class': 'logging.NullHandler'}, 'other': {'class': 'logging.NullHandler'}}
            fn = os.path.join(folder, 'log.yaml')
            with open(fn, 'w') as f:
                f.write(json.dumps(cfg) if cfg or d.bool() else d.choice(['', '# nothing\n', '---\n']))
            d.show(cfg)
            got = load_log_config(fn if d.bool() else pathlib.Path(fn))
            want = dict(json.loads(before), **cfg)
            equal(got, want, 'configuration')
            for k, v in cfg.get('loggers', {}).items():
                equal((logging.getLogger(k).level, logging.getLogger(k).propagate), (getattr(logging, v['level']), v['propagate']), 'logger', k)
            equal(json.dumps(settings.LOGGING, sort_keys=True), before, 'default', 'default configuration')
            if len(cfg) > 1:
                d.hit('sections')
        require(outcome_exc(lambda: load_log_config(os.path.join(folder, 'nothing'))), 'missing', lambda: 'a file which does not exist is loaded')
    finally:
        root.setLevel(saved[0])
        root.handlers[:] = saved[1]
        logging.disable(saved[2])
        shutil.rmtree(folder, ignore_errors=True)


def outcome_exc(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def prop_config(d):
    """files of configuration of an application, in the folder of the user and of the system"""
    root = pathlib.Path(tempfile.mkdtemp(prefix='verif-p27-')).resolve()
    env = {k: os.environ.get(k) for k in ('XDG_CONFIG_HOME', 'XDG_CONFIG_DIRS')}
    app = 'app%s' % uid().lower()
    try:
        os.environ['XDG_CONFIG_HOME'] = str(root / 'user')
        os.environ['XDG_CONFIG_DIRS'] = str(root / 'site')
        version = d.choice([None, None, '1.2'])
        want, keys = {'user': set(), 'site': set()}, {}
        for place in d.subset(['user', 'site'], 0.7):
            folder = root / place / app
            if version:
                folder = folder / version
            folder.mkdir(parents=True)
            for n in d.subset(['a.json', 'b.yaml', 'c.json', 'd.txt', 'e.yml', 'json', 'f.json.bak'], 0.4):
                # the same key is not in two files
                k, v = 'K%d' % len(keys), d.choice([1, 'x', True, None, [1, 'é'], {'a': {'b': 2}}])
                (folder / n).write_text(json.dumps({k: v}), encoding='utf-8')
                if n.endswith(('.json', '.yaml')):
                    want[place].add(folder / n)
                    keys[k] = v
            if d.bool(0.3):
                (root / place / 'other').mkdir()
                (root / place / 'other' / 'a.json').write_text('{"OTHER": 1}')
        got = list(search_app_config_files(app, None, version) if version or d.bool() else search_app_config_files(app))
        d.show([str(p.relative_to(root)) for p in got])
        equal(sorted(got), sorted(want['user'] | want['site']), 'files')
        # those of the user are first
        n = len(want['user'])
        equal(set(got[:n]), want['user'], 'files', 'of the user')
        if want['user'] and want['site']:
            d.hit('user and site')
        if version is None and keys:
            got = load_default_app_config(app)
            equal({k: v for k, v in got.items()}, keys, 'configuration')
            d.hit('configuration')
    finally:
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(str(root), ignore_errors=True)


TESTS = [Test('schemas', prop_schemas, 1200), Test('loaders', prop_loaders, 150), Test('commands', prop_commands, 500), Test('logs', prop_logs, 200), Test('config', prop_config, 300)]
