# -*- coding: utf-8 -*-
"""P17: XML documents as dictionaries, and back."""
import io
import re
import xml.etree.ElementTree as ET
from collections import OrderedDict
from xml.parsers import expat
from xml.sax.saxutils import escape, quoteattr

from pbt.common import *
from ngoschema.utils import xmltodict

META = dict(
    title='XML documents are read as dictionaries without losing content, and written back',
    statement="Parsing an XML document gives the dictionary of its root: attributes under prefixed keys, children under their names (a list for several of the same name), text before the first child under the text key, "
              "all the text after it under the tail key, a string for an element of text alone, with the names, whitespace, separators, lists, comments, namespaces, postprocessing and constructor asked for, "
              "whatever the form and chunks of the input, comments, sections and references between. Streaming calls back once for each element of the depth asked, in order, with its path. "
              "Unparsing a dictionary gives a well formed document with these attributes, texts and elements in this order, and parsing it gives the dictionary again.",
    over=['inputs'],
    quantifier='every tree of elements, attributes, texts, comments, sections and entity references, every dictionary, every combination of options of parse and unparse',
    why='The only test using the module needs a file of the author and compares nothing; mixed content is outside of it.',
    files=['ngoschema/utils/xmltodict.py'],
    mechanism=[('events to dictionaries', 'ngoschema/utils/xmltodict.py:_DictSAXHandler'),
               ('texts and tails', 'ngoschema/utils/xmltodict.py:_DictSAXHandler.endElement'),
               ('lists', 'ngoschema/utils/xmltodict.py:_DictSAXHandler.push_data'),
               ('writing', 'ngoschema/utils/xmltodict.py:_emit'),
               ('input and entities', 'ngoschema/utils/xmltodict.py:parse')],
    observe=['dictionaries returned by parse', 'items of streams', 'documents returned by unparse as read by another parser'],
    oracle='a conversion of the generated tree itself, and the documents written as read by ElementTree',
    level_note='Random exploration: about 6 000 documents and dictionaries per quick run.',
)
RULE = 'A case is a document or a dictionary with options. Non-trivial: mixed content, repeated names, sections, comments or options other than the default ones.'
ASSUMPTIONS = ['the prefixes of unparsed namespaces are declared once, and names are not in namespaces which are not declared',
               'the text of a streamed item with children, which the streaming mode leaves out, is not compared',
               'text positions are compared only as before or after the first child']

NAMES = ['b', 'c', 'd', 'é', 'b-c', 'x.y']
ATTRS = ['k', 'l', 'b', 'x-y']
TEXTS = ['x', 'y z', ' ', '\n  ', ' t ', '<&>', '"\'', 'é€', '12', ']]', '\tu\n', '\xa0x\x85', '\u2003']


class Node:
    def __init__(self, name, attrs, content):
        self.name, self.attrs, self.content = name, attrs, content


def gen_node(d, depth, ent, names=NAMES, name=None):
    attrs = OrderedDict((k, d.choice(TEXTS[:2] + ['', '<&>"', 'é'])) for k in d.subset(ATTRS, 0.2))
    content = []
    n = d.weighted((1, 0), (2, 1), (1, 2), (2, 3), (1, 5), (1, 7)) if depth else d.weighted((1, 0), (2, 1), (1, 2))
    for _ in range(n):
        kind = d.weighted((6, 't'), (6 if depth else 0, 'c'), (1, 'comment'), (1, 'cdata'), (1, 'pi'), (1 if ent else 0, 'ent'))
        if kind == 'c':
            content.append(('c', d.span(lambda d: gen_node(d, depth - 1, ent, names))))
        elif kind == 'ent':
            content.append(('ent', ''))
        else:
            x = d.choice(TEXTS)
            if d.bool(0.01):
                x = x * 9000
            content.append((kind, x))
    return Node(name or d.choice(names), attrs, content)


def write(node):
    out = ['<', node.name]
    for k, v in node.attrs.items():
        out.append(' %s=%s' % (k, quoteattr(v)))
    if not node.content:
        out.append('/>')
        return ''.join(out)
    out.append('>')
    for kind, x in node.content:
        out.append(write(x) if kind == 'c' else '<!--%s-->' % x.replace('-', '') if kind == 'comment' else
                   '<![CDATA[%s]]>' % x.replace(']]', ']') if kind == 'cdata' else '<?p %s?>' % x.replace('?', '') if kind == 'pi' else
                   '&e;' if kind == 'ent' else escape(x))
    out.append('</%s>' % node.name)
    return ''.join(out)


class Ref:
    """the dictionary of a tree"""

    def __init__(self, o):
        self.o = dict(strip_whitespace=True, attr_prefix='@', cdata_key='#text', cdata_tail_key='#tail', force_cdata=False,
                      cdata_separator='', xml_attribs=True, force_list=None, postprocessor=None, process_comments=False,
                      comment_key='#comment', disable_entities=True)
        self.o.update(o)

    def push(self, item, key, data, path):
        if self.o['postprocessor']:
            r = self.o['postprocessor'](path, key, data)
            if r is None:
                return
            key, data = r
        if key in item:
            if not isinstance(item[key], list):
                item[key] = [item[key]]
            item[key].append(data)
            return
        fl = self.o['force_list']
        if callable(fl):
            fl = fl(path[:-1], key, data)
        elif isinstance(fl, (tuple, list)):
            fl = key in fl
        item[key] = [data] if fl else data

    def strip(self, s):
        return s.strip() if self.o['strip_whitespace'] else s

    def chunks(self, content):
        """texts between two events of the parser"""
        out, new = [], True
        for kind, x in content:
            if kind == 't' or kind == 'cdata' or (kind == 'ent' and not self.o['disable_entities']):
                x = {'cdata': x.replace(']]', ']'), 'ent': 'E<'}.get(kind, x)
                if not x:
                    continue
                if new or kind == 'cdata':
                    out.append('')
                out[-1] += x
                new = kind == 'cdata'
            else:
                new = True
        return self.strip(self.o['cdata_separator'].join(out))

    def value(self, node, path=()):
        o = self.o
        path = list(path) + [(node.name, OrderedDict(node.attrs) or None)]
        item = OrderedDict()
        if o['xml_attribs']:
            for k, v in node.attrs.items():
                e = (o['attr_prefix'] + k, v)
                if o['postprocessor']:
                    e = o['postprocessor'](path, *e)
                if e:
                    item[e[0]] = e[1]
        first = None
        for i, (kind, x) in enumerate(node.content):
            if kind == 'c':
                first = i if first is None else first
                self.push(item, x.name, self.value(x, path), path + [(x.name, OrderedDict(x.attrs) or None)])
            elif kind == 'comment' and o['process_comments']:
                self.push(item, o['comment_key'], self.strip(x.replace('-', '')), path)
        first = len(node.content) if first is None else first
        text, tail = self.chunks(node.content[:first]), self.chunks(node.content[first:])
        if not item and not (o['force_cdata'] and (text or tail)):
            return self.chunks(node.content)
        for k, x in ((o['cdata_key'], text), (o['cdata_tail_key'], tail)):
            if x:
                self.push(item, k, x, path)
        return item


def plain(x, seq=list):
    return {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else [plain(v) for v in x] if isinstance(x, list) else x


def order(x):
    """keys in order"""
    return [(k, order(v)) for k, v in x.items()] if isinstance(x, dict) else [order(v) for v in x] if isinstance(x, list) else x


def pp_drop(path, key, value):
    return None if key == 'c' and len(path) % 2 else (key, value)


def pp_int(path, key, value):
    try:
        return key + ':int', int(value)
    except (ValueError, TypeError):
        return key, value


def pp_path(path, key, value):
    return key, (value, '/'.join(n for n, a in path), sum(len(a or ()) for n, a in path)) if isinstance(value, str) else value


def pp_none(path, key, value):
    # nothing for empty elements
    return key, value if value not in ('', 'x') else None


def fl_call(path, key, value):
    return key in ('b', 'd') and len(path) > 0 and path[-1][0] != 'c'


def gen_options(d):
    o = {}
    if d.bool(0.3):
        o['strip_whitespace'] = False
    if d.bool(0.2):
        o['attr_prefix'] = d.choice(['', '_', 'attr:', '@@'])
    if d.bool(0.2):
        o['cdata_key'] = d.choice(['_text', '$'])
    if d.bool(0.2):
        o['cdata_tail_key'] = d.choice(['_tail', '#text2'])
    if d.bool(0.2):
        o['force_cdata'] = True
    if d.bool(0.15):
        o['xml_attribs'] = False
    if d.bool(0.2):
        o['cdata_separator'] = d.choice(['|', ', '])
    if d.bool(0.3):
        o['force_list'] = d.choice([True, False, ('b', 'c'), ['@k', '#text', 'd'], fl_call])
    if d.bool(0.2):
        o['postprocessor'] = d.choice([pp_drop, pp_int, pp_path, pp_none])
        if d.bool(0.3):
            o['force_cdata'] = True
    if d.bool(0.25):
        o['process_comments'] = True
        if d.bool(0.3):
            o['comment_key'] = 'note'
    if d.bool(0.2):
        o['disable_entities'] = False
        o.pop('cdata_separator', None)
    if d.bool(0.2):
        o['dict_constructor'] = dict
    return o


def text_of(d, node, ent):
    pro = ''
    enc = d.weighted((4, None), (1, 'utf-8'), (1, 'utf-16'), (1, 'iso-8859-1'))
    if enc == 'iso-8859-1' and set('€\u2003') & set(write(node)):
        enc = None
    if enc or d.bool(0.3):
        pro = '<?xml version="1.0"%s?>' % (' encoding="%s"' % enc if enc else '')
    if ent:
        pro += '<!DOCTYPE %s [<!ENTITY e "E&#38;lt;">]>\n' % node.name
    s = pro + write(node)
    if d.bool(0.2):
        s += '\n'
    return s, enc


def give(d, s, enc, sep):
    """one of the forms the document can be given as"""
    raw = s.encode(enc or 'utf-8')
    how = d.choice(['str', 'bytes', 'file'] + ([] if sep else ['generator']))
    if enc and how == 'str':
        how = 'bytes'
    if how == 'str':
        return how, s
    if how == 'bytes':
        return how, raw
    if how == 'file':
        return how, io.BytesIO(raw)
    n = d.choice([1, 2, 3, 7, 50])
    return how, (raw[i:i + n] for i in range(0, len(raw), n))


def prop_parse(d):
    ent = d.bool(0.2)
    o = gen_options(d)
    node = gen_node(d, d.int(0, 3), ent)
    s, enc = text_of(d, node, ent)
    if o.get('cdata_separator') and len(s) > 4000:
        raise Discard()
    how, x = give(d, s, enc, o.get('cdata_separator'))
    d.show('%s %s %r' % (how, s if len(s) < 600 else s[:600] + '…', {k: getattr(v, '__name__', v) for k, v in o.items()}))
    ref = Ref(o)
    want = OrderedDict()
    path = [(node.name, OrderedDict(node.attrs) or None)]
    ref.push(want, node.name, ref.value(node), path)
    want = want or None
    if o:
        d.hit('options')
    kinds = [k for k, _ in node.content]
    if 'c' in kinds and 't' in kinds:
        d.hit('mixed')
    if set(kinds) & {'cdata', 'comment', 'ent'}:
        d.hit('sections')
    got = xmltodict.parse(x, **o)
    require(plain(got) == plain(want), 'parse', lambda: 'got %r expected %r' % (plain(got), plain(want)))
    require(order(got) == order(want), 'order', lambda: 'got %r expected %r' % (order(got), order(want)))
    cls = o.get('dict_constructor', OrderedDict)
    require(got is None or type(got) is cls and all(type(v) is cls for v in got.values() if isinstance(v, dict)), 'class', lambda: 'got %r' % got)


def prop_stream(d):
    depth = d.int(1, 3)
    o = {k: v for k, v in gen_options(d).items() if k not in ('postprocessor', 'force_list', 'process_comments', 'comment_key')}
    node = gen_node(d, 3, False)
    s, enc = text_of(d, node, False)
    if o.get('cdata_separator') and len(s) > 4000:
        raise Discard()
    how, x = give(d, s, enc, o.get('cdata_separator'))
    d.show('depth %d %s %s %r' % (depth, how, s[:600], o))
    ref = Ref(o)
    want = []

    def walk(n, path):
        path = path + [(n.name, dict(n.attrs) or None)]
        if len(path) == depth:
            v = ref.value(Node(n.name, {}, n.content), path[:-1])
            if isinstance(v, dict):
                v = {k: x for k, x in v.items() if k not in (ref.o['cdata_key'], ref.o['cdata_tail_key'])}
            want.append((path, v or None))
            return
        for k, c in n.content:
            if k == 'c':
                walk(c, path)
    walk(node, [])
    got = []
    stop = d.int(1, 4) if d.bool(0.3) else None

    def back(path, item):
        if isinstance(item, str):
            # items of text are given as they are
            item = item.strip() if o.get('strip_whitespace', True) else item
        got.append(([(n, dict(a) if a else None) for n, a in path], plain(item) or None))
        return stop is None or len(got) < stop
    try:
        r = xmltodict.parse(x, item_depth=depth, item_callback=back, **o)
        require(r is None, 'stream', lambda: 'parse returns %r' % r)
        require(stop is None or stop > len(want), 'stop', lambda: 'parsing goes on after %s items of %s' % (stop, len(want)))
    except xmltodict.ParsingInterrupted:
        require(stop is not None and stop <= len(want), 'stop', lambda: 'parsing stops at %s' % len(got))
        want = want[:stop]
        d.hit('interrupted')
    if len(want) > 1:
        d.hit('items')
    want = [(p, (v if not isinstance(v, dict) or not o.get('force_cdata') else v) or None) for p, v in want]
    if o.get('force_cdata'):
        # items of text alone are given as text
        want = [(p, v) for p, v in want]
        got, want = [(p, v if isinstance(v, dict) else None) for p, v in got], [(p, v if isinstance(v, dict) else None) for p, v in want]
    require(got == want, 'stream', lambda: 'got %r expected %r' % (got, want))


def prop_malformed(d):
    """documents which are not well formed are refused, whatever the form"""
    node = gen_node(d, 2, False)
    s = write(node)
    i = d.int(0, len(s) - 1)
    how = d.choice(['cut', 'drop', 'twice', 'entity'])
    s = s[:i] if how == 'cut' else s[:i] + s[i + 1:] if how == 'drop' else s + s if how == 'twice' else s[:i] + '&x;' + s[i:]
    try:
        ET.fromstring(s)
        good = True
    except ET.ParseError:
        good = False
    d.show(s[:500])
    try:
        xmltodict.parse(give(d, s, None, False)[1])
        got = True
    except expat.ExpatError:
        got = False
    if not good:
        d.hit(how)
    require(got == good, 'malformed', lambda: '%s is %s' % (s[:500], 'accepted' if got else 'refused'))


# ---------------------------------------------------------------- unparse
def gen_value(d, depth):
    """value of an element"""
    k = d.weighted((3, 's'), (1, 'n'), (1, 'none'), (1, 'bool'), (3 if depth else 0, 'd'))
    if k == 's':
        return d.choice(TEXTS + [''])
    if k == 'n':
        return d.choice([0, 1, -5, 2.5, 10 ** 20])
    if k == 'none':
        return None
    if k == 'bool':
        return d.bool()
    return gen_dict(d, depth)


def gen_dict(d, depth):
    out = OrderedDict()
    keys = []
    for key in d.subset(['@' + a for a in ATTRS[:3]], 0.2) + d.subset(NAMES[:4], 0.4) + d.subset(['#text'], 0.3) + d.subset(['#tail'], 0.2):
        keys.append(key)
    for key in d.shuffle(keys):
        if key.startswith('@'):
            out[key] = d.choice(TEXTS[:2] + ['', '<&>"', 7, 1.5])
        elif key.startswith('#'):
            out[key] = d.choice(TEXTS)
        elif d.bool(0.3):
            v = [gen_value(d, depth - 1) for _ in range(d.int(0, 3))]
            out[key] = tuple(v) if d.bool(0.2) else v
        else:
            out[key] = gen_value(d, depth - 1)
    return out


def elem(key, v):
    """(name, attributes, text, tail, children) which must be written for a value"""
    if v is None:
        v = {}
    if isinstance(v, bool):
        v = 'true' if v else 'false'
    if not isinstance(v, dict):
        v = {'#text': str(v)}
    attrs = {k[1:]: str(x) for k, x in v.items() if k.startswith('@')}
    children = []
    for k, x in v.items():
        if k[0] in '@#':
            continue
        for y in (x if isinstance(x, (list, tuple)) else [x]):
            children.append(elem(k, y))
    text, tail = v.get('#text', ''), v.get('#tail', '')
    if not children:
        text, tail = text + tail, ''
    return key, attrs, text, tail, children


def read(e, strip):
    f = (lambda s: s.strip()) if strip else (lambda s: s)
    kids = list(e)
    text = e.text or ''
    tail = ''.join(k.tail or '' for k in kids)
    return e.tag, dict(e.attrib), f(text), f(tail), [read(k, strip) for k in kids]


def stripped(x):
    return (x[0], x[1], x[2].strip(), x[3].strip(), [stripped(c) for c in x[4]])


def rename(v, o):
    """the same dictionary with other prefix and keys"""
    if isinstance(v, dict):
        return OrderedDict((o.get('attr_prefix', '@') + k[1:] if k[0] == '@' else o.get('cdata_key', k) if k == '#text' else
                            o.get('cdata_tail_key', k) if k == '#tail' else k, rename(x, o)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(rename(x, o) for x in v)
    return v


def prop_unparse(d):
    v = gen_value(d, d.int(0, 3))
    o = {}
    if d.bool(0.2):
        o['attr_prefix'] = d.choice(['_', '@@', 'attr:'])
    if d.bool(0.2):
        o['cdata_key'] = '$'
    if d.bool(0.2):
        o['cdata_tail_key'] = '$tail'
    keys = dict(o)
    if d.bool(0.3):
        o['pretty'] = True
        if d.bool():
            o['indent'] = '  '
        if d.bool():
            o['newl'] = '\r\n'
    if d.bool(0.3):
        o['short_empty_elements'] = True
    given = rename(v, keys)
    before = repr(given)
    d.show('%r %r' % (given, o))
    if o or isinstance(v, dict):
        d.hit()
    to = d.weighted((3, None), (1, 'text'), (1, 'bytes'))
    if to:
        out = io.StringIO() if to == 'text' else io.BytesIO()
        enc = d.choice(['utf-8', 'iso-8859-1', 'utf-16']) if to == 'bytes' else 'utf-8'
        r = xmltodict.unparse({'root': given}, output=out, encoding=enc, **o)
        require(r is None, 'output', lambda: 'unparse in a file returns %r' % r)
        s = out.getvalue()
    else:
        s = xmltodict.unparse({'root': given}, **o)
        require(isinstance(s, str) and s.startswith('<?xml'), 'output', lambda: 'unparse returns %r' % s)
    root = ET.fromstring(s.encode('utf-8') if isinstance(s, str) else s)
    want = elem('root', v)
    got = read(root, o.get('pretty'))
    if o.get('pretty'):
        want = stripped(want)
    require(norm_nl(got) == norm_nl(want), 'unparse', lambda: 'wrote %s which reads %r expected %r' % (s, got, want))
    def blanks(x):
        return not x[4] or not (x[2] or x[3]) and all(blanks(c) for c in x[4])
    if o.get('pretty') and not to and blanks(elem('root', v)) and '[]' not in repr(v) and '()' not in repr(v):
        # one line for each tag of an element with children, or for an element without
        lines = s.split('\n', 1)[1].split(o.get('newl', '\n')) if o.get('newl') else s.split('\n')[1:]
        tags = []

        def layout(x, depth):
            start = [o.get('indent', '\t') * depth, x[0]]
            if not x[4]:
                tags.append(start)
                return
            tags.append(start)
            for c in x[4]:
                layout(c, depth + 1)
            tags.append([start[0], '/' + x[0]])
        layout(elem('root', v), 0)
        if '\n' not in ''.join(map(repr, (t for t in texts(elem('root', v))))).replace('\\n', '\n'):
            got = [re.match(r'(\s*)<(/?[^\s/>]+)', l).groups() for l in lines if l]
            equal([list(g) for g in got], tags, 'layout of %s' % s)
            d.note('layout')
    require(repr(given) == before, 'input-modified', lambda: 'dictionary given is now %r' % given)


def texts(x):
    return [x[2], x[3]] + list(x[1].values()) + [t for c in x[4] for t in texts(c)]


def norm_nl(x):
    return (x[0], x[1], x[2].replace('\r\n', '\n'), x[3].replace('\r\n', '\n'), [norm_nl(c) for c in x[4]])


def prop_emit_options(d):
    """several roots, preprocessors, nested lists"""
    k = d.choice(['roots', 'preprocessor', 'expand', 'fragment'])
    d.hit(k)
    vals = [gen_value(d, 1) for _ in range(d.int(0, 4))]
    if d.bool(0.2):
        vals = [None] * len(vals)
    d.show('%s %r' % (k, vals))
    if k == 'roots':
        v = {'a': vals} if d.bool() else OrderedDict((n, x) for n, x in zip('abcd', vals))
        n = len(vals)
        if isinstance(v.get('a'), list) and n == 0:
            return
        try:
            xmltodict.unparse(v)
            ok = True
        except ValueError:
            ok = False
        require(ok == (n == 1), 'roots', lambda: 'document of %d roots is %s' % (n, 'accepted' if ok else 'refused'))
        return
    if k == 'fragment':
        s = xmltodict.unparse({'a': vals}, full_document=False)
        got = [read(e, False) for e in ET.fromstring('<r>%s</r>' % s)]
        want = [elem('a', x) for x in vals]
    elif k == 'preprocessor':
        def pre(key, value):
            return None if key == 'b' else (key + '_', value)
        s = xmltodict.unparse({'r': {n: vals for n in 'abc'}}, preprocessor=pre)

        def redo(x):
            return (x[0] + '_', x[1], x[2] if [c for c in x[4] if c[0] != 'b'] or not x[4] else x[2] + x[3],
                    x[3] if [c for c in x[4] if c[0] != 'b'] or not x[4] else '', [redo(c) for c in x[4] if c[0] != 'b'])
        got = [read(ET.fromstring(s), False)]
        want = [redo(elem('r', {n: vals for n in 'abc'}))]
    else:
        lists = [vals, tuple(vals[:2]), vals[:1], []]
        lists = [d.choice([list, tuple])(x) for x in lists]
        s = xmltodict.unparse({'r': {'l': lists}}, expand_iter='item')
        got = [read(ET.fromstring(s), False)]
        want = [elem('r', {'l': [{'item': x} for x in lists]})]
    require([norm_nl(x) for x in got] == [norm_nl(x) for x in want], 'unparse-' + k, lambda: 'wrote %s which reads %r expected %r' % (s, got, want))


def prop_round_trip(d):
    """what is parsed is written back, and reads the same, whatever the document"""
    o = {k: v for k, v in gen_options(d).items() if k in ('strip_whitespace', 'attr_prefix', 'cdata_key', 'cdata_tail_key', 'force_cdata', 'force_list')}
    if o.get('attr_prefix') == '':
        del o['attr_prefix']
    if isinstance(o.get('force_list'), (list, bool)):
        # the text itself cannot be a list
        o['force_list'] = ('b', 'c')
    node = gen_node(d, d.int(0, 3), False)
    s = write(node)
    d.show('%s %r' % (s[:600], {k: getattr(v, '__name__', v) for k, v in o.items()}))
    if any(k == 'c' for k, _ in node.content):
        d.hit()
    v = xmltodict.parse(s, **o)
    uo = {k: x for k, x in o.items() if k in ('attr_prefix', 'cdata_key', 'cdata_tail_key')}
    pretty = d.bool(0.3) and o.get('strip_whitespace', True)
    s2 = xmltodict.unparse(v, pretty=pretty, **uo)
    v2 = xmltodict.parse(s2, **o)
    require(plain(v2) == plain(v), 'round-trip', lambda: '%s reads %r is written %s and reads %r' % (s, plain(v), s2, plain(v2)))

    def content(e):
        """elements of a same name in order, all the text"""
        f = (lambda x: ''.join(x.split())) if o.get('strip_whitespace', True) else (lambda x: x)
        names = {}
        for c in e:
            names.setdefault(c.tag, []).append(content(c))
        return dict(e.attrib), f((e.text or '') + ''.join(c.tail or '' for c in e)), names
    a, b = content(ET.fromstring(s.encode('utf-8'))), content(ET.fromstring(s2.encode('utf-8')))
    require(a == b, 'content', lambda: '%s is written back %s' % (s, s2))


def prop_namespaces(d):
    uris = ['http://a/', 'http://b/x', 'urn:c']
    prefixes = d.shuffle(['', 'p', 'q'])
    decl = dict(zip(prefixes, uris))
    short = {u: d.choice([None, '', 'A', 'B', 'p']) for u in d.subset(uris)} if d.bool(0.7) else None
    sep = d.weighted((3, ':'), (1, '|'))

    def full(name, attr=False):
        p, _, n = name.rpartition(':')
        if attr and not p:
            return n
        u = decl.get(p)
        if u is None:
            return n
        s = u if short is None else short.get(u, u)
        return n if not s else s + sep + n
    names = [(p + ':' if p else '') + n for p in prefixes for n in ('b', 'c')]
    node = gen_node(d, 2, False, names)

    def clear(n, top=True):
        n.attrs = OrderedDict((k if d.bool() else d.choice(['p:', 'q:']) + k, v) for k, v in n.attrs.items())
        for k, c in n.content:
            if k == 'c':
                clear(c, False)
    clear(node)
    keep = OrderedDict(node.attrs)
    node.attrs = OrderedDict([('xmlns' + (':' + p if p else ''), u) for p, u in decl.items()] + list(keep.items()))
    s = write(node)
    node.attrs = keep
    d.show('%s %r %r' % (s[:600], short, sep))
    d.hit()

    def renamed(n):
        attrs = OrderedDict()
        for k, v in n.attrs.items():
            attrs[full(k, True)] = v
        if len(attrs) != len(n.attrs):
            raise Discard()
        return Node(full(n.name), attrs, [(k, renamed(c) if k == 'c' else c) for k, c in n.content])
    r = renamed(node)
    ref = Ref({'force_cdata': True})
    want = {r.name: ref.value(r)}

    ap = d.weighted((3, '@'), (1, '_'), (1, 'attr:'))
    if ap != '@':
        want = {r.name: Ref({'force_cdata': True, 'attr_prefix': ap}).value(r)}
    want = plain(want)
    if decl:
        # declarations are those of the element which holds them
        top = want[r.name]
        if not isinstance(top, dict):
            top = want[r.name] = {'#text': top} if top else {}
        top[ap + 'xmlns'] = dict(decl)
    kw = {} if short is None else {'namespaces': short}
    if ap != '@':
        kw['attr_prefix'] = ap
    got = xmltodict.parse(s, process_namespaces=True, namespace_separator=sep, force_cdata=True, **kw)
    require(squeeze(plain(got)) == squeeze(want), 'namespaces', lambda: 'got %r expected %r' % (plain(got), want))
    # left as they are when not asked for
    node.attrs = OrderedDict([('xmlns' + (':' + p if p else ''), u) for p, u in decl.items()] + list(keep.items()))
    got, want = xmltodict.parse(s), {node.name: Ref({}).value(node)}
    require(plain(got) == plain(want), 'prefixes', lambda: 'got %r expected %r' % (plain(got), plain(want)))


def prop_namespace_round_trip(d):
    """what is parsed with its namespaces is written with them, under any prefix"""
    uris = ['http://a/', 'http://b/x', 'urn:c', 't:ra@', 'x_t_']
    decls = OrderedDict(zip(d.shuffle(['', 'p', 'q', 'r'])[:d.int(1, 4)], d.shuffle(uris)))
    # each is declared by the root, or by all the elements which need it
    where = {p: d.bool(0.6) for p in decls}
    where[''] = True
    names = [(p + ':' if p else '') + n for p in decls for n in ('b', 'c')]
    node = gen_node(d, d.int(0, 2), False, names)

    def setup(n, inherited):
        n.attrs = OrderedDict((k if d.bool(0.6) else d.choice([p + ':' for p in decls if p] or ['']) + k, v) for k, v in n.attrs.items())
        used = {x.split(':')[0] if ':' in x else '' for x in [n.name]} | {x.split(':')[0] for x in n.attrs if ':' in x}
        own = OrderedDict((p, u) for p, u in decls.items() if p not in inherited and (where[p] and inherited == () or p in used))
        below = set(inherited) | set(own)
        for k, c in n.content:
            if k == 'c':
                setup(c, below)
        n.attrs = OrderedDict([('xmlns' + (':' + p if p else ''), u) for p, u in own.items()] + list(n.attrs.items()))
    setup(node, ())
    s = write(node)
    o = {}
    if d.bool(0.4):
        o['attr_prefix'] = d.choice(['_', 'attr:', '@@'])
    if d.bool(0.3):
        o['strip_whitespace'] = False
    d.show('%s %r' % (s[:600], o))
    d.hit()
    v = xmltodict.parse(s, process_namespaces=True, **o)
    before = repr(v)
    uo = {k: x for k, x in o.items() if k == 'attr_prefix'}
    s2 = xmltodict.unparse(v, namespaces={u: p for p, u in decls.items()}, **uo)
    equal(repr(v), before, 'dictionary given')
    strip = o.get('strip_whitespace', True)
    a, b = ET.fromstring(s.encode('utf-8')), ET.fromstring(s2.encode('utf-8'))

    def content(e):
        f = (lambda x: ''.join(x.split())) if strip else (lambda x: x)
        kids = {}
        for c in e:
            kids.setdefault(c.tag, []).append(content(c))
        return dict(e.attrib), f((e.text or '') + ''.join(c.tail or '' for c in e)), kids
    require(a.tag == b.tag and content(a) == content(b), 'namespaces written', lambda: '%s is written back %s' % (s, s2))
    v2 = xmltodict.parse(s2, process_namespaces=True, **o)
    require(plain(v2) == plain(v), 'namespaces read again', lambda: '%s reads %r is written %s and reads %r' % (s, plain(v), s2, plain(v2)))


def squeeze(x):
    """an element of text alone is a string unless it gets the declarations"""
    if isinstance(x, dict):
        if not x:
            return ''
        return {k: squeeze(v) for k, v in x.items()}
    return [squeeze(v) for v in x] if isinstance(x, list) else x


TESTS = [
    Test('parse', prop_parse, 2500),
    Test('stream', prop_stream, 600),
    Test('malformed', prop_malformed, 600),
    Test('unparse', prop_unparse, 1500),
    Test('emit-options', prop_emit_options, 400),
    Test('round-trip', prop_round_trip, 1200),
    Test('namespaces', prop_namespaces, 400),
    Test('namespace-round-trip', prop_namespace_round_trip, 500),
]
