# -*- coding: utf-8 -*-
"""P21: files, documents, modules."""
import hashlib
import io
import os
import pathlib
import shutil
import sys
import tempfile

from pbt.common import *
from ngoschema.models.files import File, FileInfo, Document
from ngoschema.repositories.file_repositories import YamlFileRepository, load_yaml_from_file
from ngoschema.loaders.module import GenericModuleFileLoader
from ngoschema.protocols.file_loader import FileSaver

META = dict(
    title='Files hold what was written to them and give what they hold',
    statement="Writing a text, or bytes, to a file creates the missing folders and makes the file hold exactly that, in the charset asked for, without touching a file which already holds it; appending "
              "adds exactly that at its end and requires the file to exist. A write which is refused (wrong kind of value, characters the charset does not have) leaves every file as it was. No other file changes. "
              "Reading gives exactly what the file holds, or fails when it does not exist or is not in the charset. The content of a file object is the one of the file it designates, up to date with its own writes and with "
              "its path, charset and binary flag; its keys are its path. Sizes, dates and digests of files are theirs. An object read from a yaml file is the one of its content. Files of modules are found in the folder "
              "registered for the module asked for.",
    over=['inputs', 'histories', 'fault_sequences'],
    quantifier='every content, charset, path, history of writes, reads, external changes and refused writes, with several objects for the same file',
    why='No stable test covers files; unit tests write one short ascii text once.',
    files=['ngoschema/models/files.py', 'ngoschema/protocols/file_loader.py', 'ngoschema/loaders/module.py', 'ngoschema/repositories/file_repositories.py', 'ngoschema/decorators.py'],
    mechanism=[('writing and reading', 'ngoschema/protocols/file_loader.py:FileSaver'), ('content', 'ngoschema/models/files.py:File.get_contentRaw'),
               ('informations', 'ngoschema/models/files.py:FileInfo'), ('invalidation', 'ngoschema/decorators.py:depend_on_prop'),
               ('yaml', 'ngoschema/repositories/file_repositories.py:YamlFileRepository'), ('modules', 'ngoschema/loaders/module.py:GenericModuleFileLoader')],
    observe=['bytes of every file of the folder', 'values read and exceptions', 'modification times'],
    oracle='a model of the folder as a dictionary of bytes; hashlib and os.stat',
    level_note='Random exploration: about 700 histories of up to 12 operations per quick run, in scratch folders.',
)
RULE = 'A case is a history of operations on a scratch folder. Non-trivial: a file is written and read again, a write is refused or compared.'
ASSUMPTIONS = ['one process changes the folder, between the operations', 'paths are absolute', 'charset and flag of a document are read before its files are handled by path',
               'when a file is changed by others, the content last read by an object can be kept by it']

NAMES = ['a', 'b.txt', 'c d', 'é', 'sub/a', 'sub/deep/b', 'a%20b', 'x#1', '~t', 'p?q', "q'uote"]
CHARSETS = ['utf-8', 'latin-1', 'utf-16', 'ascii', 'cp1252', 'utf-8-sig']
TEXTS = ['', 'a', 'abc', 'é', 'ç€', 'l1\nl2', 'l1\r\nl2\r', '{{a}}', '`1+1', '\ufeffx', 'x\x00y', '  ', 'A' * 70000, '☃', '\x1a', '\x85']
RAW = [b'', b'\xff', b'\xe9', b'ab', b'\xc3\xa9', b'\xc3', b'\xff\xfe\xe9\x00', b'\r\n']


def encode(value, charset):
    return value.encode(charset)


def gen_value(d):
    if d.bool(0.25):
        return d.choice(RAW)
    if d.bool(0.3):
        return d.text('abcé€\r\n{}', 0, 6)
    return d.choice(TEXTS)


class Scratch:
    def __enter__(self):
        self.path = pathlib.Path(tempfile.mkdtemp(prefix='p21')).resolve()
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(str(self.path), ignore_errors=True)


def listing(root):
    out = {}
    for base, _, files in os.walk(str(root)):
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


class Refused(Exception):
    pass


def read(fs, path, binary, charset):
    if path not in fs:
        raise FileNotFoundError
    if binary:
        return fs[path]
    # utf-16 requires the mark when it is read from a file
    return io.TextIOWrapper(io.BytesIO(fs[path]), encoding=charset, newline='').read()


def attempt(fn, *args):
    try:
        return ('ok', fn(*args))
    except (OSError, UnicodeError) as e:
        return ('err', FileNotFoundError if isinstance(e, FileNotFoundError) else UnicodeError if isinstance(e, UnicodeError) else type(e))


class Obj:
    """a file object and what it knows"""

    def __init__(self, o, document, path, binary, charset):
        self.o, self.document, self.path, self.binary, self.charset = o, document, path, binary, charset
        self.cached = None      # what was last read
        self.fresh = True       # nothing allows it to give something else than what the file holds


def prop_history(d):
    with Scratch() as root:
        fs = {}

        def full(name):
            return str(root / name)

        def target(path):
            # the same path can be given in several forms
            form = d.weighted((5, 'path'), (3, 'str'), (1, 'dots'))
            if form == 'str':
                return path
            if form == 'dots':
                p = pathlib.Path(path)
                return '%s/./%s' % (p.parent, p.name)
            return pathlib.Path(path)
        for n in d.subset(NAMES, 0.3):
            v = d.choice(RAW) if d.bool(0.3) else d.choice(TEXTS).encode('utf-8')
            p = pathlib.Path(full(n))
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(v)
            fs[str(p)] = v
        objs = []

        def new_object():
            path = full(d.choice(NAMES))
            document = d.bool(0.4)
            binary = d.weighted((3, None), (2, False), (2, True))
            kw = {} if binary is None else {'binary': binary}
            charset = 'utf-8'
            if document and d.bool(0.5):
                charset = kw['charset'] = d.choice(CHARSETS)
            got = attempt(lambda: (Document if document else File)(filepath=path, **kw))
            d.show('%s(%r, %r)' % ('Document' if document else 'File', path[len(str(root)):], kw))
            if got[0] == 'err':
                # objects which are not lazy read the file
                want = attempt(read, fs, path, binary, charset)
                require(not document and got == want and want[1] is UnicodeError, 'creation', lambda: '%r instead of %r' % (got, want))
                return
            objs.append(Obj(got[1], document, path, binary, charset))
        for _ in range(d.int(1, 2)):
            new_object()
        for step in range(d.int(2, 12)):
            if not objs:
                new_object()
                continue
            op = d.weighted((5, 'write'), (3, 'append'), (4, 'content'), (3, 'read'), (2, 'move'), (2, 'outside'), (1, 'new'), (1, 'flag'), (1, 'delete'), (2, 'info'))
            if op == 'new':
                if len(objs) < 3:
                    new_object()
                continue
            x = d.choice(objs)
            before = dict(fs)
            if op in ('write', 'append'):
                value = gen_value(d)
                opts = {}
                if d.bool(0.3):
                    opts['binary'] = d.bool()
                elif d.bool(0.3):
                    opts['binary'] = isinstance(value, bytes)
                if d.bool(0.3):
                    opts['charset'] = d.choice(CHARSETS)
                own = x.document and d.bool(0.5)
                path = x.path if own or d.bool(0.4) else full(d.choice(NAMES))
                binary = opts.get('binary', x.binary)
                charset = opts.get('charset', x.charset)
                if not own:
                    # a lazy object takes its charset and flag into account when they are read
                    x.document and x.o.charset
                    x.o.binary
                old_times = None
                if path in fs:
                    os.utime(path, ns=(10 ** 18, 10 ** 18))
                    old_times = (10 ** 18, os.stat(path).st_ino)
                appending = op == 'append'
                tgt = target(path)
                d.show('%d.%s(%r, %r, %r)' % (objs.index(x), op, value if len(value) < 30 else value[:10], path[len(str(root)):], opts))
                if appending and path not in fs:
                    want = 'refused'
                elif bool(binary) != isinstance(value, bytes):
                    want = 'refused'
                else:
                    try:
                        data = value if binary else value.encode(charset)
                        want = 'ok'
                    except UnicodeError:
                        want = 'refused'
                same = False
                if want == 'ok':
                    if appending:
                        if not binary and charset in ('utf-16', 'utf-8-sig') and fs[path]:
                            # one mark only, at the beginning of a file
                            data = value.encode({'utf-16': 'utf-16-le' if sys.byteorder == 'little' else 'utf-16-be', 'utf-8-sig': 'utf-8'}[charset])
                        fs[path] = fs[path] + data
                    else:
                        if path in fs:
                            cur = attempt(read, fs, path, binary, charset)
                            same = cur == ('ok', value)
                        if not same:
                            fs[path] = data
                fun = x.o.append_file if appending else x.o.write_file
                try:
                    if own:
                        x.o.write(value, append=appending, **opts)
                    else:
                        fun(value, tgt, **opts)
                    got = 'ok'
                except REJECT + (TypeError, OSError, AttributeError):
                    got = 'refused'
                if not (appending and want == 'refused' and path not in fs):
                    x.path = path
                equal(got, want, '%s %s' % (op, 'refused' if want == 'refused' else 'done'))
                equal(listing(root), fs, 'files after %s %s' % (op, got))
                if got == 'refused':
                    d.hit()
                    x.path = None
                if same:
                    st = os.stat(path)
                    equal((st.st_mtime_ns, st.st_ino), old_times, 'same content is not written again')
                    d.hit()
                if got == 'ok':
                    x.fresh, x.cached = True, None
                elif x.cached is not None:
                    x.fresh = False
                if x.path is None:
                    # which file a refused write designates is not stated
                    x.path = str(x.o.filepath.resolve())
                    require(x.path in (path,) or x.path in [full(n) for n in NAMES], 'path', lambda: x.path)
                else:
                    equal(str(x.o.filepath.resolve()), path, 'path of the object')
            elif op == 'content':
                want = attempt(read, fs, x.path, x.binary, x.charset)
                if want[0] == 'err' and want[1] is FileNotFoundError and not x.document:
                    want = ('ok', None)
                got = attempt(lambda: x.o.contentRaw)
                d.show('%d.contentRaw' % objs.index(x))
                if not x.fresh and got == x.cached:
                    continue
                require(got == want, 'content', lambda: 'the content is %r instead of %r' % (short(got), short(want)))
                x.fresh, x.cached = True, got
                d.hit()
            elif op == 'read':
                path = x.path if d.bool(0.5) else full(d.choice(NAMES))
                opts = {}
                if d.bool(0.4):
                    opts['binary'] = d.bool()
                if d.bool(0.4):
                    opts['charset'] = d.choice(CHARSETS)
                if x.document:
                    x.o.charset
                x.o.binary
                want = attempt(read, fs, path, opts.get('binary', x.binary), opts.get('charset', x.charset))
                got = attempt(lambda: x.o.read_file(target(path), **opts))
                d.show('%d.read_file(%r, %r)' % (objs.index(x), path[len(str(root)):], opts))
                require(got == want and type(got[1]) is type(want[1]), 'read', lambda: 'reading gives %r instead of %r' % (short(got), short(want)))
                d.hit()
            elif op == 'move':
                old, x.path = x.path, full(d.choice(NAMES))
                x.o.filepath = x.path
                if old != x.path:
                    x.fresh, x.cached = True, None
                d.show('%d.filepath = %r' % (objs.index(x), x.path[len(str(root)):]))
                keys = [str(k) for k in x.o.identityKeys]
                equal(keys, [x.path], 'keys')
                if x.document:
                    equal(x.o.filename, pathlib.Path(x.path).name, 'name of the file')
            elif op == 'flag':
                old = (x.charset, x.binary)
                if x.document and d.bool(0.5):
                    x.charset = d.choice(CHARSETS)
                    x.o.charset = x.charset
                    d.show('%d.charset = %r' % (objs.index(x), x.charset))
                else:
                    x.binary = d.bool()
                    x.o.binary = x.binary
                    d.show('%d.binary = %r' % (objs.index(x), x.binary))
                if old != (x.charset, x.binary):
                    x.fresh, x.cached = True, None
            elif op == 'outside':
                path = full(d.choice(NAMES))
                if d.bool(0.3) and path in fs:
                    os.remove(path)
                    del fs[path]
                else:
                    v = gen_value(d)
                    v = v if isinstance(v, bytes) else v.encode('utf-8')
                    pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
                    pathlib.Path(path).write_bytes(v)
                    fs[path] = v
                d.show('outside: %r is %r' % (path[len(str(root)):], fs.get(path, b'removed')[:20]))
            elif op == 'delete':
                if not x.document:
                    continue
                got = outcome(x.o.del_file)
                d.show('%d.del_file()' % objs.index(x))
                equal(got[0] == 'ok', x.path in fs, 'deletion is accepted')
                fs.pop(x.path, None)
                equal(listing(root), fs, 'files after a deletion')
            elif op == 'info':
                if x.path not in fs or x.binary is None and attempt(read, fs, x.path, None, 'utf-8')[0] == 'err':
                    continue
                i = FileInfo(file=x.o) if d.bool() else attempt(lambda: FileInfo(filepath=x.path))
                if isinstance(i, tuple):
                    if i[0] == 'err':
                        continue
                    i = i[1]
                d.show('info of %d' % objs.index(x))
                check_info(i, x.path, fs[x.path])
            # other objects may have read the files which changed
            changed = {p for p in set(before) | set(fs) if before.get(p) != fs.get(p)}
            for y in objs:
                if y is not x or op in ('outside', 'delete'):
                    if changed and y.cached is not None:
                        y.fresh = False
                    elif y.path in changed and y.cached is None:
                        # not lazy: the content was read when the object was created
                        y.fresh = False
                        y.cached = y.cached or attempt(lambda: y.o._dataValidated['contentRaw'])
            equal(listing(root), fs, 'files after %s' % op)


def short(v):
    s = repr(v)
    return s if len(s) < 120 else s[:60] + '...' + s[-40:]


def human(n):
    x = float(n)
    for u in ('bytes', 'KB', 'MB', 'GB', 'TB'):
        if x < 1024:
            return '%3.1f %s' % (x, u)
        x /= 1024


def check_info(i, path, data=None):
    st = os.stat(path)
    equal(i.contentSize, st.st_size, 'size')
    equal(i.contentSizeHuman, human(st.st_size), 'readable size')
    require(abs(i.dateModified.timestamp() - st.st_mtime) < 1e-3 if callable(i.dateModified.timestamp) else abs(i.dateModified.float_timestamp - st.st_mtime) < 1e-3,
            'date', lambda: '%r instead of %r' % (i.dateModified, st.st_mtime))
    if data is not None:
        equal(i.sha1, hashlib.sha1(data).hexdigest(), 'digest')


def prop_info(d):
    """sizes around the limits of units and of blocks"""
    with Scratch() as root:
        p = root / 'f'
        sparse = d.bool(0.4)
        if sparse:
            size = d.choice([1024 ** 2, 1024 ** 3, 5 * 1024 ** 3, 1024 ** 4]) + d.choice([-1, 0, 1, 12345])
            with open(str(p), 'wb') as f:
                try:
                    f.truncate(size)
                except OSError:
                    raise Discard('no such big files here')
            data = None
        else:
            size = max(0, d.choice([0, 1, 1023, 1024, 1025, 65535, 65536, 65537, 131072, 200000, 1048576]) + d.choice([0, 0, 1, -1, 7]))
            data = bytes(bytearray((i * 7 + size) % 256 for i in range(256))) * (size // 256 + 1)
            data = data[:size]
            p.write_bytes(data)
        d.show('size %d' % size)
        os.utime(str(p), (d.choice([0, 1, 1000000000, 1600000000.5]),) * 2)
        i = FileInfo(file=File(filepath=str(p), binary=True)) if not sparse else FileInfo(file=Document(filepath=str(p), binary=True))
        check_info(i, str(p), data)
        d.hit()


# ------------------------------------------------------------ savers with options of their own
def prop_saver(d):
    with Scratch() as root:
        fs, savers, last = {}, [], {}
        for n in d.subset(NAMES[:4], 0.4):
            (root / n).write_bytes(b'0')
            fs[str(root / n)] = b'0'

        def refused(value, binary, charset):
            if bool(binary) != isinstance(value, bytes):
                return True
            try:
                binary or value.encode(charset)
            except UnicodeError:
                return True
            return False
        for _ in range(d.int(1, 3)):
            kw = {}
            if d.bool():
                kw['append'] = d.bool(0.7)
            if d.bool(0.4):
                kw['charset'] = d.choice(['latin-1', 'ascii', 'cp1252', 'utf-8'])
            if d.bool(0.3):
                kw['binary'] = d.bool(0.7)
            kind = d.weighted((3, 'saver'), (1, 'file'))
            if kind == 'saver':
                own = d.choice([n for n in fs]) if fs and d.bool(0.4) else None
                s = FileSaver(filepath=own, **kw)
                if own:
                    last[len(savers)] = own
            else:
                s = File(filepath=str(root / 'none'), **({'meta_opts': dict(kw)}))
                kw.pop('binary', None)
                s.binary = kw.setdefault('binary', False)
            d.show('%s(%r)' % (kind, kw))
            savers.append((s, kind, kw))
        for _ in range(d.int(2, 8)):
            i = d.below(len(savers))
            s, kind, kw = savers[i]
            op = d.weighted((5, 'save'), (2, 'read'), (2, 'load'))
            opts = {}
            if d.bool(0.3):
                opts['charset'] = d.choice(['latin-1', 'ascii', 'utf-8'])
            if d.bool(0.2):
                opts['binary'] = d.bool()
            binary = opts.get('binary', kw.get('binary', False))
            charset = opts.get('charset', kw.get('charset', 'utf-8'))
            name = d.choice(NAMES[:4])
            p = str(root / name)
            if op != 'save':
                if kind == 'file':
                    s.binary
                want = attempt(read, fs, p, binary, charset)
                fun = {'read': s.read_file, 'load': d.choice([s.load_file, FileSaver.load.__get__(s)])}[op]
                got = attempt(lambda: fun(p, **opts))
                last.pop(i, None)
                d.show('%d.%s(%r, %r)' % (i, op, name, opts))
                require(got == want and type(got[1]) is type(want[1]), op, lambda: 'reading gives %r instead of %r' % (short(got), short(want)))
                continue
            value = d.choice(['', 'ab', 'é', '€x', 'l\r\n', b'', b'\xff', b'ab'])
            if bool(binary) != isinstance(value, bytes) and d.bool(0.8):
                value = b'\xe9b' if binary else 'cé'
            if d.bool(0.5):
                opts['append'] = d.bool()
            append = opts.get('append', kw.get('append', False))
            if kind == 'file':
                opts['serialize'] = False
            elif d.bool(0.3):
                opts['serialize'] = d.bool()
            again = i in last and d.bool(0.4)
            p = last[i] if again else p
            bad = refused(value, binary, charset) or (append and p not in fs)
            d.show('%d.save(%r, %r, %r)' % (i, value, 'same' if again else name, opts))
            if again and kind == 'saver':
                fun = lambda: FileSaver.save(s, value, **opts)
            elif kind == 'saver':
                fun = lambda: (s.save_file if i % 2 else s.save)(value, p if d.bool() else pathlib.Path(p), **opts)
            else:
                fun = lambda: s.save_file(value, p, **opts)
            try:
                got = ('ok', fun())
            except REJECT + (TypeError, OSError, AttributeError, UnicodeError) as er:
                got = ('refused', er)
            equal(got[0], 'refused' if bad else 'ok', 'save of %r in %s, %s' % (value, charset, got[1]))
            if bad:
                equal(listing(root), fs, 'files after a refused save')
                last.pop(i, None)
                d.hit()
                continue
            last[i] = p
            equal(got[1], value, 'value saved')
            data = value if binary else value.encode(charset)
            fs[p] = fs[p] + data if append else data
            if append and data:
                d.hit()
            equal(listing(root), fs, 'files after a save')


# ------------------------------------------------------------ yaml
def dump_yaml(v, indent=0):
    """flow style yaml, strings quoted when they would be read as something else"""
    import json
    return json.dumps(v, ensure_ascii=False)


def prop_yaml(d):
    with Scratch() as root:
        cls = make_class({'type': 'object', 'properties': {
            'a': {'type': 'integer'}, 's': {'type': 'string'}, 'b': {'type': 'boolean'}, 'n': {'type': 'number'},
            'l': {'type': 'array', 'items': {'type': 'string'}}, 'o': {'type': 'object', 'properties': {'x': {'type': 'integer'}, 't': {'type': 'date'}}}}})
        raw = {}
        if d.bool(0.7):
            raw['a'] = d.choice([0, 1, -5, 10 ** 12])
        if d.bool(0.7):
            raw['s'] = d.choice(['', 'x', 'yes', '12', 'é€', 'a: b', '- c', 'l1\nl2', '# no', 'null', '{x}'])
        if d.bool(0.5):
            raw['b'] = d.bool()
        if d.bool(0.5):
            raw['n'] = d.choice([0, 1.5, -2.25, 100])
        if d.bool(0.6):
            raw['l'] = d.list(lambda e: e.choice(['a', 'b', 'é', 'yes', '1']), 0, 4)
        if d.bool(0.6):
            raw['o'] = {'x': d.int(-3, 3)}
            if d.bool():
                raw['o']['t'] = '2020-02-%02d' % d.int(1, 28)
        p = root / d.choice(['f.yaml', 'é', 'a b'])
        block = d.bool()
        text = '\n'.join('%s: %s' % (k, dump_yaml(v)) for k, v in raw.items()) + '\n' if block and raw else dump_yaml(raw)
        if d.bool(0.3):
            text = '# comment é\n' + text
        p.write_bytes(text.encode('utf-8'))
        d.show(text)
        want = cls(dict(raw))
        way = d.choice(['repo', 'function', 'path'])
        if way == 'function':
            got = load_yaml_from_file(str(p), repo_opts={'instanceClass': cls})
        else:
            got = YamlFileRepository(instanceClass=cls).load_file(p if way == 'path' else str(p))
        require(isinstance(got, cls), 'class', lambda: repr(type(got)))
        equal(got.do_serialize(), want.do_serialize(), 'object read')
        require(got == want, 'object read', lambda: '%r instead of %r' % (got, want))
        equal(p.read_bytes(), text.encode('utf-8'), 'the file is only read')
        d.hit(bool(raw))


# ------------------------------------------------------------ modules
FILES = ['x.txt', 'y.txt', 's/x.txt', 's/z.txt']


def prop_modules(d):
    with Scratch() as root:
        folder = 'f' + uid()
        loader = GenericModuleFileLoader(folder)
        sys.path.insert(0, str(root))
        try:
            mods = ['m%s%s' % (uid(), c) for c in 'abc'[:d.int(1, 3)]]
            folders = [folder, 'g', 'h/i']
            have = {}       # (module, folder) -> files
            for m in mods:
                (root / m).mkdir()
                (root / m / '__init__.py').write_text('')
                for g in d.subset(folders, 0.6):
                    have[m, g] = d.subset(FILES + [mods[0] + '/x.txt', mods[-1] + '/s/x.txt'], 0.4)
                    (root / m / g).mkdir(parents=True)
                    for f in have[m, g]:
                        q = root / m / g / f
                        q.parent.mkdir(exist_ok=True, parents=True)
                        q.write_text(m)
            registered = {}     # module -> folders, in the order of registration
            for _ in range(d.int(2, 10)):
                if d.bool(0.4) or not registered:
                    m, g = d.choice(mods), d.choice(folders)
                    got = loader.register(m) if g == folder and d.bool() else loader.register(m, g)
                    d.show('register(%s, %s): %r' % (m, g, have.get((m, g))))
                    equal(got, (root / m / g).resolve(), 'folder of a module')
                    if (m, g) in have and g not in registered.setdefault(m, []):
                        registered[m].append(g)
                    registered = {k: v for k, v in registered.items() if v}
                    equal([(k, list(v)) for k, v in loader.items()], [(k, [(root / k / g).resolve() for g in v]) for k, v in registered.items()], 'folders registered')
                    continue
                f = d.choice(FILES + ['none', mods[0] + '/x.txt'])
                m = d.choice(mods + [None])
                if m is None and '/' in f and f.split('/')[0] in registered:
                    m, f = f.split('/', 1)
                if m is not None and m not in registered:
                    # not a module: a folder of those of the modules
                    m, f = None, m + '/' + f
                name = f if m is None else m + '/' + f
                if d.bool(0.3):
                    name = name.replace('/', '\\')
                got = loader.find_one(name)
                d.show('find_one(%s)' % name)
                cands = [(root / k / g / f).resolve() for k in (registered if m is None else [m]) for g in registered[k] if f in have[k, g]]
                if cands:
                    equal(got, cands[0], 'file found')
                    d.hit()
                else:
                    require(got is None, 'file found', lambda: '%r does not exist' % (got,))
        finally:
            sys.path.remove(str(root))
            GenericModuleFileLoader.module_loaders_registry.pop(folder, None)
            for m in mods:
                sys.modules.pop(m, None)


TESTS = [Test('history', prop_history, 600), Test('info', prop_info, 40), Test('yaml', prop_yaml, 60), Test('modules', prop_modules, 200), Test('saver', prop_saver, 400)]
