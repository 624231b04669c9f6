# -*- coding: utf-8 -*-
"""P03: dates, times, URIs, paths and symbols convert from every accepted form and round-trip through serialization."""
import datetime
import importlib
import os
import pathlib
import shutil
import sys
import tempfile
import urllib.parse

import arrow

from pbt.common import *
from ngoschema import settings, types

META = dict(
    title='Dates, times, URIs, paths and symbols convert exactly and round-trip',
    statement="A date, time, datetime, uri, path or importable type converts each accepted form of a value (python object, ISO or alternative "
              "spelling, string) to exactly the value it denotes and rejects everything else with a validation error, including python objects carrying "
              "information the type would lose. "
              "Its serialization is a string that the same type converts back to an equal value, and a declared date format is applied. "
              "Path constraints (isPathExisting, isPathFile, isPathDir) agree with the file system.",
    over=['inputs', 'configurations'],
    quantifier='every date/time/timezone/URI/path/importable object, in every accepted form, and every malformed form',
    why='test_types converts one date, one time and one datetime and never serializes them; spellings, time zones, microseconds, '
        'quoting and malformed inputs are not reached.',
    files=['ngoschema/types/datetime.py', 'ngoschema/types/uri.py', 'ngoschema/types/symbols.py', 'ngoschema/config/settings.py',
           'ngoschema/managers/jsch_validators.py'],
    mechanism=[('date/time conversions', 'ngoschema/types/datetime.py:Date._convert, Time._convert, Datetime._convert'),
               ('serialization', 'ngoschema/types/datetime.py:_dt_serialize, ngoschema/types/uri.py:Uri._serialize, ngoschema/types/symbols.py:Symbol._serialize'),
               ('path validators', 'ngoschema/managers/jsch_validators.py:isPathDir/isPathFile/isPathExisting'),
               ('import of symbols', 'ngoschema/types/symbols.py:Symbol._convert')],
    observe=['value returned by the type call or property', 'string returned by serialize'],
    oracle='the python value the text was written from, and the round trip through serialization',
    level_note='Random exploration: about 5000 values per quick run. Trusts datetime, urllib.parse and pathlib. Path constraints are checked '
               'in a scratch directory created and removed by the check.',
)
RULE = ('A case is a generated value of one of the types, one of its accepted forms (or a malformed form) and a way to submit it. '
        'Every case but a missing value is non-trivial: it is converted, serialized and converted back, or rejected.')
ASSUMPTIONS = ['texts holding more than one value (a date followed by a time given to the date type) are outside of the domain',
               'alternative time spellings have no UTC offset for the time type']


def gen_date(d):
    return datetime.date(d.int(1900, 2100), d.int(1, 12), d.int(1, 28) if d.bool(0.7) else 28)


def gen_time(d):
    prec = d.choice(['m', 's', 'ms', 'us'])
    return prec, datetime.time(d.int(0, 23), d.int(0, 59), 0 if prec == 'm' else d.int(0, 59),
                               {'ms': lambda: d.int(1, 999) * 1000, 'us': lambda: d.int(1, 999999)}.get(prec, lambda: 0)())


def spell_time(d, prec, t):
    forms = {'m': ['%H:%M', '%H:%M:%S', '12m', '12s'], 's': ['%H:%M:%S', '12s'], 'ms': ['ms', '%H:%M:%S.%f'], 'us': ['%H:%M:%S.%f']}[prec]
    f = d.choice(forms)
    if f == 'ms':
        return '%s.%03d' % (t.strftime('%H:%M:%S'), t.microsecond // 1000)
    if f in ('12m', '12s'):
        h = t.hour % 12 or 12
        return '%02d:%02d%s %s' % (h, t.minute, ':%02d' % t.second if f == '12s' else '', 'PM' if t.hour >= 12 else 'AM')
    return t.strftime(f)


DATE_SPELL = ['%Y-%m-%d', '%Y/%m/%d', '%Y.%m.%d', '%d-%m-%Y', '%d/%m/%Y', '%d.%m.%Y']
MONTH_SPELL = ['%Y-%m', '%Y/%m', '%Y.%m', '%m-%Y', '%m/%Y', '%m.%Y']
BAD_DATES = ['2018-13-01', '2018-02-30', 'yesterday', '', 'abc', '31/31/2018', '2018-1', '12', '20-20', 3, 2.5, [1], True]
BAD_TIMES = ['25:00', '12:61', '12', 'noon', '', '12:30:61', 'abc', 3, [1], '1:2']
BAD_DATETIMES = ['2018-13-01 10:00', '2018-05-26', '10:00', 'abc', '2018-05-26T25:00:00', '2018-05-26 25:00', 3, [1], datetime.date(2018, 5, 26)]


def submit(d, T, sch, v, what):
    """through the type, or a property"""
    if d.bool(0.75):
        return outcome(T, v)
    if v is None:
        raise Discard()
    C = make_class({'type': 'object', 'properties': {'p': sch}})
    return outcome(lambda: C(p=v).p)


def prop_temporal(d):
    kind = d.choice(['date', 'time', 'datetime'])
    T = {'date': types.Date, 'time': types.Time, 'datetime': types.Datetime}[kind]()
    sch = {'type': kind}
    date, (prec, time) = gen_date(d), gen_time(d)
    if d.bool(0.15):
        v = d.choice({'date': BAD_DATES, 'time': BAD_TIMES, 'datetime': BAD_DATETIMES}[kind])
        if d.bool(0.4):
            if kind == 'date':
                # any part of the time makes it more than a date
                part = d.choice(['hour', 'minute', 'second', 'microsecond'])
                v = datetime.datetime.combine(date, datetime.time(0).replace(**{part: d.int(1, 23)}))
            elif kind == 'time':
                v = datetime.datetime.combine(d.choice([date, datetime.date(1, 1, 2), datetime.date(1, 3, 1), datetime.date(2, 1, 1)]), time)
            if kind != 'datetime' and d.bool():
                v = arrow.get(v)
        d.show('malformed %s %r' % (kind, v))
        d.hit('malformed')
        got = submit(d, T, sch, v, '')
        require(got[0] == 'reject', 'malformed', lambda: '%r accepted as %s %r' % (v, kind, got[1]))
        require(not T.check(v, convert=True), 'malformed', lambda: 'check(convert) accepts %r as %s' % (v, kind))
        return
    if kind == 'date':
        want = date
        f = d.choice(['obj', 'datetime', 'arrow', 'text', 'month'])
        if f == 'month':
            want = date.replace(day=1)
            v = want.strftime(d.choice(MONTH_SPELL))
        else:
            v = {'obj': lambda: date, 'datetime': lambda: datetime.datetime.combine(date, datetime.time(0)),
                 'arrow': lambda: arrow.get(date), 'text': lambda: date.strftime(d.choice(DATE_SPELL))}[f]()
    elif kind == 'time':
        want = time
        base = datetime.datetime.combine(datetime.date(1, 1, 1), time)
        f = d.choice(['obj', 'datetime', 'arrow', 'text', 'text'])
        v = {'obj': lambda: time, 'datetime': lambda: base, 'arrow': lambda: arrow.get(base), 'text': lambda: spell_time(d, prec, time)}[f]()
    else:
        off = d.choice([0, 0, 60, -300, 330, 845]) if d.bool(0.5) else None
        naive = datetime.datetime.combine(date, time)
        tz = datetime.timezone(datetime.timedelta(minutes=off)) if off is not None else datetime.timezone.utc
        want = naive.replace(tzinfo=tz)
        f = d.choice(['obj', 'arrow', 'iso', 'text'])
        v = {'obj': lambda: want if off is not None else naive, 'arrow': lambda: arrow.get(want),
             'iso': lambda: (want if off is not None else naive).isoformat(),
             'text': lambda: '%s %s' % (date.strftime(d.choice(DATE_SPELL[:3])), spell_time(d, prec, time))}[f]()
        if f == 'text':
            if off is not None and prec == 's':
                v = '%s %s%s' % (date.strftime('%Y-%m-%d'), time.strftime('%H:%M:%S'), want.strftime('%z')[:3] + ':' + want.strftime('%z')[3:])
            else:
                want = naive.replace(tzinfo=datetime.timezone.utc)
    d.show('%s %r given as %r' % (kind, want, v))
    d.hit(kind + ':' + f)
    got = submit(d, T, sch, v, '')
    require(got[0] == 'ok', 'convert', lambda: '%s rejected %r: %s' % (kind, v, got[1]))
    check_temporal(kind, got[1], want, 'convert', '%s of %r' % (kind, v))
    require(T.check(v, convert=True), 'check', lambda: '%s.check(%r, convert=True) is False' % (kind, v))
    ser = T.serialize(got[1])
    require(type(ser) is str, 'serialize', lambda: '%r serialized as %r' % (want, ser))
    back = outcome(T, ser)
    require(back[0] == 'ok', 'round-trip', lambda: '%s rejected its serialization %r' % (kind, ser))
    check_temporal(kind, back[1], want, 'round-trip', '%s of its serialization %r' % (kind, ser))


def prop_now(d):
    """the words standing for the present time, and the missing value"""
    kind = d.choice(['date', 'time', 'datetime'])
    T = {'date': types.Date, 'time': types.Time, 'datetime': types.Datetime}[kind]()
    word = d.choice(settings.DATETIME_NOW_STRINGS + settings.DATE_TODAY_STRINGS + [None])
    d.show('%s of %r' % (kind, word))
    d.hit(str(word))
    before = arrow.utcnow()
    got = submit(d, T, {'type': kind}, word, '') if word else outcome(T, word)
    after = arrow.utcnow()
    require(got[0] == 'ok', 'now', lambda: '%s rejected %r: %s' % (kind, word, got[1]))
    got = got[1]
    if word is None:
        require(got is None, 'now', lambda: '%s of None is %r' % (kind, got))
        return
    if kind == 'date':
        require(type(got) is datetime.date and before.date() <= got <= after.date(), 'now', lambda: '%s of %r is %r' % (kind, word, got))
    elif kind == 'time':
        require(type(got) is datetime.time and (before.time() <= got <= after.time() or before.date() != after.date()),
                'now', lambda: '%s of %r is %r at %r' % (kind, word, got, before))
    elif word in settings.DATETIME_NOW_STRINGS:
        require(isinstance(got, arrow.Arrow) and before <= got <= after, 'now', lambda: '%s of %r is %r at %r' % (kind, word, got, before))
    else:
        require(isinstance(got, arrow.Arrow) and before.date() <= got.date() <= after.date() and got == arrow.get(got.date()),
                'now', lambda: '%s of %r is %r at %r' % (kind, word, got, before))
    require(T.check(word, convert=True), 'check', lambda: '%s.check(%r, convert=True) is False' % (kind, word))


def check_temporal(kind, got, want, label, what):
    if kind == 'datetime':
        require(isinstance(got, arrow.Arrow), label, lambda: '%s gave a %s' % (what, type(got)))
        require(got.datetime == want and got.utcoffset() == want.utcoffset(), label,
                lambda: '%s gave %r expected %r' % (what, got, want))
    else:
        require(type(got) is type(want) and got == want, label, lambda: '%s gave %r expected %r' % (what, got, want))


def prop_format(d):
    date, (prec, time) = gen_date(d), gen_time(d)
    kind = d.choice(['date', 'time', 'datetime'])
    fmt = d.choice({'date': ['%d/%m/%Y', '%Y%m%d', '%Y/%m'], 'time': ['%H:%M', '%H-%M-%S'],
                    'datetime': ['%Y-%m-%d %H:%M', 'YYYY/MM/DD', 'RFC3339', 'W3C', 'ATOM', 'HH:mm']}[kind])
    naive = datetime.datetime.combine(date, time)
    v = {'date': date, 'time': time, 'datetime': arrow.get(naive)}[kind]
    if '%' in fmt:
        want = v.strftime(fmt)
    else:
        iso = '%Y-%m-%d %H:%M:%S+00:00'
        want = naive.strftime({'YYYY/MM/DD': '%Y/%m/%d', 'HH:mm': '%H:%M'}.get(fmt, iso))
    how = d.choice(['schema', 'option', 'object', 'both', 'array'])
    d.show('%s %r format %r by %s' % (kind, v, fmt, how))
    d.hit(how)
    if how == 'schema':
        got = build({'type': kind, 'format': fmt}).serialize(v)
    elif how == 'option':
        got = build({'type': kind}).serialize(v, format=fmt)
    elif how == 'both':
        # the format asked for replaces the declared one
        got = build({'type': kind, 'format': d.choice(['%H', '%Y'])}).serialize(v, format=fmt)
    elif how == 'array':
        T = build({'type': 'array', 'items': {'type': kind, 'format': fmt}})
        got, = T.serialize(T([v]))
    else:
        got = make_class({'type': 'object', 'properties': {'p': {'type': kind, 'format': fmt}}})(p=v).do_serialize()['p']
    equal(got, want, 'format', 'format %r of %r' % (fmt, v))


# ---------------------------------------------------------------- uri and path
def gen_url(d):
    scheme = d.choice(['http', 'https', 'ftp', 'file'])
    host = d.choice(['a.b', 'numengo.org:8080', 'user@h']) if scheme != 'file' else ''
    path = '/' + '/'.join(d.list(lambda d: d.text('abc-_.~', 1, 4), 1, 3)) if not d.bool(0.2) or scheme == 'file' else ''
    q = '&'.join('%s=%s' % (d.text('ab', 1, 2), d.text('01x', 1, 3)) for _ in range(d.int(0, 2)))
    frag = d.text('/ab$', 0, 4)
    return '%s://%s%s%s%s' % (scheme, host, path, '?' + q if q else '', '#' + frag if frag else ''), (scheme, host, path, q, frag)


def prop_uri(d):
    T = types.Uri()
    if d.bool(0.3):
        parts = d.list(lambda d: d.text('ab c%é', 1, 4), 1, 3)
        if d.bool(0.3):
            parts.insert(d.int(0, len(parts)), d.choice(['..', '.']))
        p = pathlib.Path(('/' if d.bool(0.7) else '') + '/'.join(parts))
        d.show('uri of %r' % p)
        d.hit('path')
        got = T(p)
        want = os.path.normpath(os.path.join(os.getcwd(), str(p)))
        require(isinstance(got, urllib.parse.ParseResult) and got.scheme == 'file' and urllib.parse.unquote(got.path) == want,
                'uri-path', lambda: 'uri of %r is %r expected that of %r' % (p, got, want))
        require(T.check(p, convert=True) and T.check(got), 'uri-check', lambda: 'uri.check(%r) is False' % p)
        require(T(T.serialize(got)) == got, 'uri-round-trip', lambda: '%r' % (got,))
        return
    text, (scheme, host, path, q, frag) = gen_url(d)
    v = text if d.bool(0.7) else urllib.parse.urlparse(text)
    if d.bool(0.1):
        v = d.choice([3, 2.5, True, [text], datetime.date(2018, 5, 26)])
        d.show('uri %r' % (v,))
        d.hit('malformed')
        require(not T.check(v), 'uri-check', lambda: 'uri.check accepts %r' % (v,))
        return
    d.show('uri %r' % (v,))
    d.hit('uri')
    require(T.check(v, convert=True) and T.check(urllib.parse.urlparse(text)), 'uri-check', lambda: 'uri.check(%r) is False' % (v,))
    got = submit(d, T, {'type': 'uri'}, v, '')
    require(got[0] == 'ok', 'uri', lambda: '%r rejected %s' % (v, got[1]))
    got = got[1]
    require(isinstance(got, urllib.parse.ParseResult) and (got.scheme, got.netloc, got.path, got.query, got.fragment) == (scheme, host, path, q, frag),
            'uri', lambda: '%r converted to %r' % (v, got))
    ser = T.serialize(got)
    equal(ser, text, 'uri-serialize', 'serialize(%r)' % (got,))
    require(T(ser) == got, 'uri-round-trip', lambda: '%r -> %r' % (got, T(ser)))


def prop_path(d):
    T = types.Path()
    parts = d.list(lambda d: d.choice(['a', 'b c', 'd.txt', '..', 'é', 'x%20y', 'e_f']), 1, 4)
    root = d.choice(['/', '', '', '~/'])
    s = root + '/'.join(parts)
    want = pathlib.Path(s)
    if d.bool(0.25):
        # the home directory is put when it is asked for, and the path is resolved when it is asked for
        expand = d.choice([None, True, False])
        resolve = d.bool()
        how = d.choice(['keyword', 'schema', 'option', 'property'])
        v = s if d.bool() else want
        d.show('path %r expandUser=%r by %s resolve=%r' % (v, expand, how, resolve))
        d.hit('expandUser')
        sch = {'type': 'path'} if expand is None or how == 'option' else {'type': 'path', 'expandUser': expand}
        opts = {'expand_user': expand} if how == 'option' and expand is not None else {}
        if resolve and how != 'property':
            opts['resolve'] = True
        if how == 'property':
            got = make_class({'type': 'object', 'properties': {'p': sch}})(p=v).p
        else:
            got = (types.Path(**{k: x for k, x in sch.items() if k != 'type'}) if how == 'keyword' else build(sch))(v, **opts)
        w = os.path.expanduser(str(want)) if expand else str(want)
        if 'resolve' in opts:
            w = os.path.realpath(w)
        require(isinstance(got, pathlib.Path) and str(got) == str(pathlib.Path(w)), 'path-expand', lambda: '%r expected %r' % (got, w))
        return
    f = d.choice(['text', 'path', 'parsed', 'pure', 'template'])
    if f == 'parsed':
        v = urllib.parse.urlparse(urllib.parse.quote(s))
    elif f == 'path':
        v = want
    elif f == 'pure':
        v = pathlib.PurePosixPath(s)
    elif f == 'template':
        v = '{{root}}/' + s.lstrip('/')
        want = pathlib.Path('some dir') / s.lstrip('/')
    else:
        v = s
    d.show('path %r' % (v,))
    d.hit(f)
    got = outcome(T, v, root='some dir') if f == 'template' else submit(d, T, {'type': 'path'}, v, '')
    require(got[0] == 'ok' and isinstance(got[1], pathlib.Path) and got[1] == want, 'path', lambda: '%r converted to %r expected %r' % (v, got[1], want))
    ser = T.serialize(got[1])
    require(type(ser) is str and T(ser) == want, 'path-round-trip', lambda: '%r -> %r -> %r' % (want, ser, T(ser)))
    require(T.check(v, convert=True), 'path-check', lambda: 'check(%r) is False' % (v,))


def prop_path_constraints(d):
    root = tempfile.mkdtemp(prefix='verif_p03_')
    try:
        nodes = {'f': 'file', 'd': 'dir', 'd/g': 'file', 'd/e': 'dir', 'nope': None, 'd/nope': None}
        os.mkdir(os.path.join(root, 'd'))
        os.mkdir(os.path.join(root, 'd', 'e'))
        for f in ('f', 'd/g'):
            open(os.path.join(root, f), 'w').close()
        node = d.choice(sorted(nodes))
        v = os.path.join(root, node)
        if d.bool():
            v = pathlib.Path(v)
        name = d.choice(['keywords', 'PathExists', 'PathDir', 'PathFile', 'PathDirExists', 'PathFileExists', 'schema'])
        if name in ('keywords', 'schema'):
            cons = {k: d.bool() for k in d.subset(['isPathExisting', 'isPathDir', 'isPathFile'], 0.6)}
            T = types.Path(**cons) if name == 'keywords' else build(dict(cons, type='path'))
        else:
            T = getattr(types, name)()
            cons = {}
            if 'Exists' in name:
                cons['isPathExisting'] = True
            if 'Dir' in name:
                cons['isPathDir'] = True
            if 'File' in name:
                cons['isPathFile'] = True
        d.show('%s %r of %r' % (name, cons, nodes[node]))
        if cons:
            d.hit(name)
        real = {'isPathExisting': nodes[node] is not None, 'isPathDir': nodes[node] == 'dir', 'isPathFile': nodes[node] == 'file'}
        good = all(real[k] == x for k, x in cons.items())
        if name != 'keywords' and d.bool(0.4):
            sch = dict(cons, type='path')
            if d.bool():
                got = outcome(lambda: make_class({'type': 'object', 'properties': {'p': sch}})(p=v).p)
            else:
                got = outcome(build({'type': 'array', 'items': sch}), [v])
        else:
            got = outcome(T, v)
        require((got[0] == 'ok') == good, 'path-constraint', lambda: '%s %r gives %r for a %s' % (name, cons, got, nodes[node]))
        require(name == 'keywords' or T.check(v, convert=True, validate=True) == good, 'path-constraint',
                lambda: 'check of %s %r is not %r for a %s' % (name, cons, good, nodes[node]))
    finally:
        shutil.rmtree(root)


# ---------------------------------------------------------------- symbols
SYMBOLS = {
    'module': ['os', 'json.decoder', 'collections.abc', 'ngoschema', 'ngoschema.utils.xmltodict', 'ngoschema.types.uri', 'logging.handlers'],
    'class': ['collections.OrderedDict', 'json.decoder.JSONDecoder', 'decimal.Decimal', 'pathlib.PurePath', 'ngoschema.utils.utils.Registry',
              'logging.handlers.RotatingFileHandler'],
    'function': ['posixpath.join', 'json.dumps', 'textwrap.dedent', 'ngoschema.utils.xmltodict.parse', 'shutil.copyfile'],
}
BAD_SYMBOLS = ['nope.x', 'os.nope', 'collections.OrderedDict.nope', 'a b', '', 'no']


def find(name):
    parts = name.split('.')
    for i in range(len(parts), 0, -1):
        try:
            ret = importlib.import_module('.'.join(parts[:i]))
            for p in parts[i:]:
                ret = getattr(ret, p)
            return ret
        except ImportError:
            continue
    raise LookupError(name)


def prop_symbol(d):
    kinds = {'module': types.Module, 'class': types.Class, 'function': types.Function, 'callable': types.Callable, 'importable': types.Symbol}
    kind = d.choice(sorted(kinds))
    T = kinds[kind]()
    what = d.choice(['module', 'class', 'function', 'bad'])
    if what == 'bad':
        name = d.choice(BAD_SYMBOLS)
        if name == '' or kind == 'importable':
            raise Discard()
        d.show('%s %r' % (kind, name))
        d.hit('bad')
        got = outcome(T, name)
        require(got[0] == 'reject', 'symbol', lambda: '%s accepted %r as %r' % (kind, name, got[1]))
        return
    name = d.choice(SYMBOLS[what])
    obj = find(name)
    good = kind == 'importable' or kind == what or (kind == 'callable' and what in ('class', 'function'))
    v = name if d.bool(0.7) else obj
    d.show('%s %r' % (kind, v))
    d.hit(kind)
    got = submit(d, T, {'type': kind}, v, '')
    if not good:
        require(got[0] == 'reject', 'symbol', lambda: '%s accepted %r' % (kind, v))
        require(kind == 'callable' or not T.check(obj), 'symbol-check', lambda: '%s.check accepts %r' % (kind, obj))
        return
    require(got[0] == 'ok' and got[1] is obj, 'symbol', lambda: '%s of %r is %r' % (kind, v, got[1]))
    require(T.check(obj), 'symbol-check', lambda: '%s.check rejects %r' % (kind, obj))
    ser = T.serialize(obj)
    require(type(ser) is str and T(ser) is obj, 'symbol-round-trip', lambda: '%r serialized as %r' % (obj, ser))


# names of the generated modules: modules, sub modules, nested classes, functions, with names hiding each other or those of builtins
NAMES = ['open', 'sub', 'mod', 'A', 'B', 'int', 'f']


class Tree:
    """a package, written in a scratch folder, and what its names stand for"""

    def __init__(self, d, root):
        self.top = 'p03_%s' % uid()
        self.names = {}     # name -> kind
        self.modules = []
        pkg = os.path.join(root, self.top)
        os.mkdir(pkg)
        subs = d.subset(['sub', 'mod', 'int'], 0.6)
        self.module(d, self.top, os.path.join(pkg, '__init__.py'), hidden=subs)
        for m in subs:
            self.module(d, '%s.%s' % (self.top, m), os.path.join(pkg, m + '.py'))
            if d.bool(0.3):
                # the name of the module is hidden in the package by one of its objects of the same name
                with open(os.path.join(pkg, '__init__.py'), 'a') as f:
                    f.write('from .%s import %s as %s\n' % (m, self.first[1], m))

    def module(self, d, name, path, hidden=()):
        self.names[name] = 'module'
        lines = []
        for n in d.subset([n for n in NAMES if n not in hidden], 0.5) or ['f']:
            self.first = name, n
            kind = d.choice(['class', 'function'])
            self.names['%s.%s' % (name, n)] = kind
            if kind == 'function':
                lines += ['def %s(x): return %r' % (n, name), '']
                continue
            lines += ['class %s:' % n, '    here = %r' % name]
            for n2 in d.subset(NAMES, 0.4):
                kind = d.choice(['class', 'function'])
                self.names['%s.%s.%s' % (name, n, n2)] = kind
                lines += ['    class %s:' % n2, '        in_ = 1'] if kind == 'class' else ['    def %s(self): pass' % n2]
            lines += ['']
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')


def prop_symbol_tree(d):
    kinds = {'module': types.Module, 'class': types.Class, 'function': types.Function, 'callable': types.Callable, 'importable': types.Symbol}
    root = tempfile.mkdtemp(prefix='verif_p03_')
    sys.path.insert(0, root)
    try:
        importlib.invalidate_caches()
        tree = Tree(d, root)
        d.show(repr(tree.names))
        for _ in range(3):
            kind = d.choice(sorted(kinds))
            T = kinds[kind]()
            name = d.choice(sorted(tree.names))
            what = tree.names[name]
            if d.bool(0.2):
                name = name + '.' + d.choice(['nope', 'open.nope', 'len'])
                if name in tree.names or kind == 'importable':
                    continue
                what = 'bad'
            d.show('%s %r' % (kind, name))
            d.hit(kind)
            good = what != 'bad' and (kind in ('importable', what) or (kind == 'callable' and what != 'module'))
            got = outcome(T, name)
            require((got[0] == 'ok') == good, 'symbol', lambda: '%s of %r, a %s, gives %r' % (kind, name, what, got))
            if not good:
                continue
            v = got[1]
            mod = v.__name__ if what == 'module' else v.__module__
            in_mod = '' if what == 'module' else '.' + v.__qualname__
            require(mod + in_mod == name, 'symbol', lambda: '%s of %r is %s.%s' % (kind, name, mod, in_mod))
            equal(T.serialize(v), name, 'symbol-serialize', 'serialization of %r' % (v,))
            require(T(v) is v and T.check(v), 'symbol', lambda: '%s of %r is %r' % (kind, v, T(v)))
    finally:
        sys.path.remove(root)
        for m in [m for m in sys.modules if m.split('.')[0] == tree.top]:
            del sys.modules[m]
        shutil.rmtree(root)


TESTS = [
    Test('temporal', prop_temporal, 2500),
    Test('now', prop_now, 150),
    Test('symbol_tree', prop_symbol_tree, 400),
    Test('format', prop_format, 500),
    Test('uri', prop_uri, 700),
    Test('path', prop_path, 700),
    Test('path_constraints', prop_path_constraints, 500),
    Test('symbol', prop_symbol, 700),
]
