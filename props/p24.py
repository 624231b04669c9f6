# -*- coding: utf-8 -*-
"""P24: templates render what they denote, with the filters and the templates of the modules registered."""
import importlib
import os
import pathlib
import re
import shutil
import sys
import tempfile

import inflection
import jinja2

from pbt.common import *
from ngoschema import types
from ngoschema.utils.utils import Context
from ngoschema.loaders import templates_module_loader

J = importlib.import_module('ngoschema.utils.jinja2')

META = dict(
    title='Templates render what they denote, with filters and templates of modules',
    statement="A template renders its text with each {{ }} replaced by the value it denotes, each {% if/for/set/break/continue/trans %} block applied, "
              "and the blanks before a block or a comment at the beginning of a line and the line break which follows it removed, but for no other "
              "character. The filters provided (camelize, dasherize, ordinal(ize), parameterize, pluralize, singularize, tableize, titleize, "
              "transliterate, underscore, slugify, split, rsplit, last) and globals (enumerate, len, str, list, Query, and those added at any moment with "
              "extend_jinja2_globals, hidden by the variables of the context) give what their name states. Templates 'module/path' are those of the first "
              "folder registered for the module which holds the path, whatever the order of registrations and the changes of files, and an unknown one is "
              "an error (a text submitted to a type is then kept as it is). The variables detected in a template are those written in it, in order.",
    over=['inputs', 'histories'],
    quantifier='every template built of texts, blocks and filters, every binding of its variables, every history of registrations and changes of files',
    why='test_jinja_tokens looks at the variables of a few templates; no test renders a block, a filter or the template of a module, and what is '
        'rendered depends on the layout of the template and on the order of registrations.',
    files=['ngoschema/utils/jinja2.py', 'ngoschema/loaders/module.py', 'ngoschema/types/strings.py'],
    mechanism=[('environment', 'ngoschema/utils/jinja2.py:ModulePrefixedJinja2Environment'),
               ('templates', 'ngoschema/utils/jinja2.py:TemplatedString, ngoschema/types/strings.py:Pattern._convert'),
               ('filters', 'ngoschema/utils/jinja2.py:filters_registry'),
               ('templates of modules', 'ngoschema/loaders/module.py:GenericModuleFileLoader.register, ngoschema/utils/jinja2.py:update_loader'),
               ('variables', 'ngoschema/utils/jinja2.py:get_jinja2_variables')],
    observe=['text rendered or error', 'variables detected'],
    oracle='an interpreter of the abstract template written for the check; the definition of each filter; a model of the folders registered',
    level_note='Random exploration: about 3000 templates per quick run. Plurals, titles and transliterations are those of the inflection library.',
)
RULE = ('A case is a template, its variables and, for templates of modules, a history of registrations and files. Non-trivial: a block, a filter, '
        'a template of a module or a global is used, or several variables are detected.')
ASSUMPTIONS = ['values are strings, integers and lists of them', 'last is not applied to something empty',
               'the time of modification of a template changes with its content']

NAMES = ['a', 'b', 'c_1', 'dd']
WORDS = ['post', 'octopus', 'box', 'user', 'big_user', 'Person', 'AdminUser', 'quiz', 'news', 'item-list', 'été', 'día Ærø', 'x']


# ---------------------------------------------------------------- filters
def ordinal(n):
    n = abs(int(n))
    return 'th' if n % 100 in (11, 12, 13) else {1: 'st', 2: 'nd', 3: 'rd'}.get(n % 10, 'th')


def camel(s, first=True):
    r = ''.join(w[:1].upper() + w[1:] for w in re.split('_', s))
    return r if first else r[:1].lower() + r[1:]


def snake(s):
    out = ''
    for i, c in enumerate(s):
        if c.isupper() and i and (s[i - 1].islower() or s[i - 1].isdigit()):
            out += '_'
        out += c
    return out.replace('-', '_').lower()


def slug(s, sep):
    return re.sub('(%s)+' % re.escape(sep), sep, re.sub(r'[^a-z0-9_\-]+', sep, s.lower())).strip(sep)


def gen_filter(d):
    """(text of the expression, fn(env))"""
    k = d.choice(['ordinal', 'ordinalize', 'camelize', 'camelize_lower', 'dasherize', 'underscore', 'parameterize', 'slugify',
                  'library', 'split', 'rsplit', 'last', 'chain', 'number'])
    d.note('filter:' + k)
    n = d.choice(NAMES)
    if k in ('ordinal', 'ordinalize'):
        v = d.int(-130, 1130)
        w = v if d.bool() else str(v)
        return '%s|%s' % (n, k), n, w, ordinal(v) if k == 'ordinal' else '%d%s' % (v, ordinal(v))
    if k == 'number':
        v = d.int(0, 99)
        f = d.choice(['dasherize', 'underscore', 'slugify', 'camelize', 'transliterate'])
        return '%s|%s' % (n, f), n, v, str(v)
    if k == 'last':
        v = d.list(lambda d: d.int(0, 9), 1, 4) if d.bool() else d.text('xyz', 1, 4)
        return '%s|last' % n, n, v, str(v[-1])
    if k in ('split', 'rsplit'):
        s = d.text('xy,. ', 0, 10)
        sep = d.choice([None, None, ',', '.', ' ', 'x', 'xy'])
        m = d.choice([None, None, 0, 1, 2, -1])
        args = [] if sep is None else [repr(sep)]
        if m is not None:
            args.append(str(m) if args and d.bool() else 'maxsplit=%d' % m)
        sep, m = ',' if sep is None else sep, -1 if m is None else m
        w = s.split(sep, m) if k == 'split' else s.rsplit(sep, m)
        f = k + ('(%s)' % ', '.join(args) if args else '')
        if d.bool(0.2):
            s, w = None, ['']
        post, g = d.choice([('', str), ('|join("/")', '/'.join), ('|last', lambda l: l[-1]), ('|length', lambda l: str(len(l))),
                            ('|first', lambda l: l[0])])
        return '%s|%s%s' % (n, f, post), n, s, g(w)
    if k == 'chain':
        words = d.list(lambda d: d.text('abc', 1, 3), 1, 3)
        s = '_'.join(words)
        c = d.choice(['camelize|underscore', 'dasherize|underscore', 'underscore|camelize', 'camelize(False)|underscore|dasherize',
                      'dasherize|split("-")|last', 'dasherize|parameterize|rsplit("-", 1)|last'])
        w = {'camelize|underscore': s, 'dasherize|underscore': s, 'underscore|camelize': camel(s),
             'camelize(False)|underscore|dasherize': s.replace('_', '-')}.get(c, words[-1])
        if c.startswith('camelize') and any(len(w) == 1 for w in words):
            words = [w * 2 for w in words]
            s = '_'.join(words)
            w = s if c == 'camelize|underscore' else s.replace('_', '-')
        return '%s|%s' % (n, c), n, s, w
    if k == 'library':
        f = d.choice(['pluralize', 'singularize', 'tableize', 'titleize', 'transliterate', 'parameterize', 'underscore', 'camelize', 'dasherize'])
        s = d.choice(WORDS)
        return '%s|%s' % (n, f), n, s, getattr(inflection, f)(s)
    if k in ('camelize', 'camelize_lower'):
        s = '_'.join(d.list(lambda d: d.text('abcd1', 1, 4), 1, 3))
        lower = k != 'camelize'
        if lower:
            s = 'a' + s
        return '%s|camelize%s' % (n, d.choice(['(False)', '(uppercase_first_letter=False)']) if lower else d.choice(['', '(True)'])), n, s, camel(s, not lower)
    if k == 'dasherize':
        s = d.text('abC_-. ', 0, 8)
        return '%s|dasherize' % n, n, s, s.replace('_', '-')
    if k == 'underscore':
        s = ''.join(d.list(lambda d: d.text('AB', 1, 1) + d.text('abc', 1, 3) + d.choice(['', '', '-', '_', '1']), 1, 3))
        return '%s|underscore' % n, n, s, snake(s)
    s = d.text('abAB01 ._-!', 0, 10)
    if k == 'parameterize':
        sep = d.choice([None, '-', '_', '+'])
        return '%s|parameterize%s' % (n, '' if sep is None else '(%r)' % sep), n, s, slug(s, sep or '-')
    s = s.replace('_', '')
    return '%s|slugify' % n, n, s, re.sub('[^a-z0-9]+', '-', s.lower()).strip('-')


def prop_filters(d):
    text, name, value, want = gen_filter(d)
    pre, post = d.text('xy -', 0, 3), d.text('xy -', 0, 3)
    src = '%s{{ %s }}%s' % (pre, text, post)
    want = pre + want + post
    d.show('%r with %s=%r' % (src, name, value))
    d.hit()
    check_render(d, src, {name: value}, want)


def rendered(fn):
    try:
        return 'ok', fn()
    except Exception as er:
        # (errors of jinja2 can be reported as errors of conversion)
        chain = []
        while er is not None and er not in chain:
            chain.append(er)
            er = er.__cause__ or er.__context__
        if any(isinstance(er, jinja2.TemplateNotFound) for er in chain):
            return 'not found', chain[0]
        raise


def check_render(d, src, env, want):
    how = d.choice(['templated', 'keywords', 'string', 'pattern', 'context'])
    if how in ('string', 'pattern', 'context') and not ('{{' in src or '{%' in src):
        how = 'templated'
    d.note('render:' + how)
    before = repr(sorted(env.items()))
    fn = {'templated': lambda: J.TemplatedString(src)(env),
          'keywords': lambda: J.TemplatedString(src)(**env),
          'string': lambda: types.String()(src, **env),
          'context': lambda: types.String()(src, context=Context(env)),
          'pattern': lambda: types.strings.Pattern()(src, context=Context(env))}[how]
    got = rendered(fn)
    require(repr(sorted(env.items())) == before, 'variables of the template changed', lambda: '%r became %r' % (before, env))
    if want is LookupError and how in ('string', 'context'):
        # a text which is not evaluated is kept
        require(got == ('ok', src), 'unknown template', lambda: '%r gave %r' % (src, got))
    elif want is LookupError:
        require(got[0] == 'not found', 'unknown template', lambda: '%r gave %r' % (src, got))
    else:
        require(got == ('ok', want), 'rendering', lambda: '%r with %r gave %r, expected %r' % (src, env, got[1], want))
    return how


# ---------------------------------------------------------------- templates
class Break(Exception):
    pass


class Continue(Exception):
    pass


def gen_cond(d, names):
    n = d.choice(names)
    k = d.choice(['truth', 'not', 'eq', 'and', 'in'])
    if k == 'truth':
        return n, lambda e: bool(e[n])
    if k == 'not':
        return 'not ' + n, lambda e: not e[n]
    m = d.choice(names)
    if k == 'eq':
        return '%s == %s' % (n, m), lambda e: e[n] == e[m]
    if k == 'in':
        v = d.int(0, 3)
        return '%s in [%s, %d]' % (n, m, v), lambda e: e[n] in [e[m], v]
    return '%s and %s' % (n, m), lambda e: bool(e[n] and e[m])


def gen_expr(d, names):
    n = d.choice(names)
    k = d.choice(['var', 'var', 'cat', 'len', 'cond', 'lit', 'enum'])
    if k == 'var':
        return n, lambda e: e[n]
    m = d.choice(names)
    if k == 'cat':
        return '%s ~ "-" ~ %s' % (n, m), lambda e: '%s-%s' % (e[n], e[m])
    if k == 'len':
        return 'len(str(%s))' % n, lambda e: len(str(e[n]))
    if k == 'cond':
        return '%s if %s else "no"' % (n, m), lambda e: e[n] if e[m] else 'no'
    if k == 'enum':
        return 'list(enumerate(str(%s)))' % n, lambda e: list(enumerate(str(e[n])))
    s = d.text('xy<&', 0, 4)
    return '"%s"' % s, lambda e: s


def gen_text(d):
    return d.weighted((4, d.text('xy ', 0, 3)), (2, d.choice([' ', '  ', '\t'])), (1, '')) + \
        (d.weighted((3, ''), (4, '\n'), (1, '\n\n')) + d.weighted((3, ''), (3, '  '), (1, 'z')))


def gen_nodes(d, depth, loop, names):
    """nodes of a template: a list of [kind, ...]; two texts do not follow each other"""
    nodes = []
    for i in range(d.int(0 if depth < 2 else 1, 4)):
        k = d.weighted((4, 'text'), (4, 'var'), (2, 'comment'), (2, 'set'), (3, 'if') if depth else (0, 'if'), (3, 'for') if depth else (0, 'for'),
                       (2, 'break') if loop else (0, 'break'), (1, 'trans'), (1, 'raw'))
        if k == 'text':
            if not nodes or nodes[-1][0] != 'text':
                nodes.append(['text', gen_text(d)])
        elif k == 'var':
            nodes.append(['var'] + list(gen_expr(d, names)))
        elif k == 'comment':
            nodes.append(['comment', d.text('xy \n{', 0, 5).replace('{', '{{ a }}')])
        elif k == 'set':
            # (jinja2 has rules of its own for names used before they are set in the same template)
            n = 's%d_%d' % (depth, len(names))
            nodes.append(['set', n] + list(gen_expr(d, names)))
            names = names + [n]
        elif k == 'if':
            nodes.append(['if', gen_cond(d, names), gen_nodes(d, depth - 1, loop, names),
                          gen_nodes(d, depth - 1, loop, names) if d.bool(0.4) else None])
        elif k == 'for':
            v = 'i%d' % depth
            items = d.list(lambda d: d.int(0, 3), 0, 4)
            # (jinja2 renders the else block of a loop broken, or continued, at the first iteration)
            other = d.bool(0.3)
            body = gen_nodes(d, depth - 1, not other, names + [v])
            nodes.append(['for', v, items, body, other and gen_nodes(d, depth - 1, loop, names) or None])
        elif k == 'trans':
            nodes.append(['trans', d.text('xy', 1, 4)])
        elif k == 'raw':
            nodes.append(['rawtext', d.choice(['{{ a }}', '{% if %}', 'x'])])
        else:
            nodes.append(['break', d.choice(['break', 'continue']), gen_cond(d, names)])
    return nodes


def flatten(d, nodes, out):
    """tokens of the source: [kind, source, node]"""
    dash = d.choice([' ', ' ', ''])
    for n in nodes:
        k = n[0]
        if k == 'text':
            out.append(['text', n[1], n])
        elif k == 'var':
            out.append(['var', '{{%s%s%s}}' % (dash, n[1], dash), n])
        elif k == 'comment':
            out.append(['tag', '{#%s#}' % n[1], n])
        elif k == 'set':
            out.append(['tag', '{%% set %s = %s %%}' % (n[1], n[2]), n])
        elif k == 'if':
            out.append(['tag', '{%%%sif %s %%}' % (dash, n[1][0]), n])
            flatten(d, n[2], out)
            if n[3] is not None:
                out.append(['tag', '{% else %}', n])
                flatten(d, n[3], out)
            out.append(['tag', '{% endif %}', n])
        elif k == 'for':
            out.append(['tag', '{%% for %s in %r %%}' % (n[1], n[2]), n])
            flatten(d, n[3], out)
            if n[4] is not None:
                out.append(['tag', '{% else %}', n])
                flatten(d, n[4], out)
            out.append(['tag', '{% endfor %}', n])
        elif k == 'break':
            out.append(['tag', '{%% if %s %%}' % n[2][0], n])
            out.append(['tag', '{%% %s %%}' % n[1], n])
            out.append(['tag', '{% endif %}', n])
        elif k == 'trans':
            out.append(['tag', '{% trans %}', n])
            out.append(['word', n[1], n])
            out.append(['tag', '{% endtrans %}', n])
        elif k == 'rawtext':
            out.append(['tag', '{% raw %}', n])
            out.append(['word', n[1], n])
            out.append(['tag', '{% endraw %}', n])
        elif k in ('include', 'raw'):
            out.append(['tag', n[1], n])
    return out


def strip_blanks(tokens):
    """what remains of the texts next to blocks: the text of a node is replaced"""
    for i, (kind, src, node) in enumerate(tokens):
        if kind != 'text':
            continue
        line_start = i == 0
        if i and tokens[i - 1][0] == 'tag' and src.startswith('\n'):
            src = src[1:]
            line_start = True
        if i + 1 < len(tokens) and tokens[i + 1][0] == 'tag':
            pos = src.rfind('\n') + 1
            if (pos or line_start) and not src[pos:].strip():
                src = src[:pos]
        node[1] = src


def render(nodes, env):
    """env: variables, changed by set in the scope"""
    out = []
    for n in nodes:
        k = n[0]
        if k in ('text', 'trans', 'rawtext'):
            out.append(n[1])
        elif k == 'var':
            out.append(str(n[2](env)))
        elif k == 'set':
            env[n[1]] = n[3](env)
        elif k == 'if':
            # a condition has no scope of its own
            body = n[2] if n[1][1](env) else n[3]
            if body is not None:
                try:
                    out.append(render(body, env))
                except (Break, Continue) as er:
                    raise type(er)(''.join(out) + er.args[0])
        elif k == 'for':
            done = []
            if not n[2] and n[4] is not None:
                try:
                    done.append(render(n[4], dict(env)))
                except (Break, Continue) as er:
                    raise type(er)(''.join(out) + er.args[0])
            for v in n[2]:
                try:
                    done.append(render(n[3], dict(env, **{n[1]: v})))
                except Continue as er:
                    done.append(er.args[0])
                except Break as er:
                    done.append(er.args[0])
                    break
            out.append(''.join(done))
        elif k == 'break':
            if n[2][1](env):
                raise {'break': Break, 'continue': Continue}[n[1]](''.join(out))
        elif k in ('include', 'raw'):
            out.append(n[2](env))
    return ''.join(out)


def gen_vars(d):
    return {n: d.weighted((3, d.int(0, 3)), (2, d.text('xy<&\'" ', 0, 4))) for n in NAMES}


def prop_blocks(d):
    nodes = gen_nodes(d, 2, False, NAMES)
    env = gen_vars(d)
    tokens = flatten(d, nodes, [])
    src = ''.join(t[1] for t in tokens)
    if '{{' not in src and '{%' not in src and '{#' not in src:
        raise Discard
    strip_blanks(tokens)
    want = render(nodes, dict(env))
    if any(t[0] == 'tag' for t in tokens):
        d.hit('blocks')
    if any(t[0] == 'tag' for t in tokens) and any(t[0] == 'text' and t[1] != t[2][1] for t in tokens):
        d.note('blanks removed')
    d.show('%r with %r' % (src, env))
    check_render(d, src, env, want)


# ---------------------------------------------------------------- globals
def prop_globals(d):
    env_ = J.default_jinja2_env()
    names = ['g%s%d' % (uid(), i) for i in range(2)]
    model, ctx = {}, {}
    try:
        for _ in range(d.int(1, 6)):
            n = d.choice(names)
            k = d.choice(['extend', 'render', 'render', 'call', 'hide'])
            if k == 'extend':
                model[n] = d.int(0, 99)
                J.extend_jinja2_globals(**{n: model[n]})
                d.show('global %s = %d' % (n[-1], model[n]))
            elif k == 'call':
                f = d.int(2, 5)
                model[n] = lambda x, f=f: x * f
                J.extend_jinja2_globals(**{n: model[n]})
                d.show('global %s = * %d' % (n[-1], f))
            elif k == 'hide':
                ctx[n] = d.int(100, 199)
                d.show('%s = %d' % (n[-1], ctx[n]))
            v = ctx.get(n, model.get(n))
            d.show('render %s' % n[-1])
            if n not in ctx and n in model:
                d.hit('global')
            if d.bool(0.2):
                # environments created later have the globals
                d.note('environment created')
                new = J.ModulePrefixedJinja2Environment()
                src, want = ('<{{ %s(3) }}>' % n, '<%d>' % v(3)) if callable(v) else ('<{{ %s }}>' % n, '<%s>' % ('' if v is None else v))
                if d.bool(0.5):
                    src, want = src + '{{ len([1, 2]) }}{{ %s|slugify }}' % 'str(12)', want + '212'
                equal(new.from_string(src).render(ctx), want, 'rendering in another environment')
            elif callable(v):
                check_render(d, '<{{ %s(3) }}>' % n, ctx, '<%d>' % v(3))
            else:
                check_render(d, '<{{ %s }}>' % n, ctx, '<%s>' % ('' if v is None else v))
    finally:
        for n in names:
            env_.globals.pop(n, None)
            J._jinja2_globals.pop(n, None)


# ---------------------------------------------------------------- templates of modules
FOLDERS = ['templates', 'more', 'in/deep', 'other']
FILES = ['x.txt', 'y.txt', 's/x.txt', 's/t/z.txt']


class Modules:
    def __init__(self, d):
        self.d = d
        self.root = pathlib.Path(tempfile.mkdtemp(prefix='p24')).resolve()
        sys.path.insert(0, str(self.root))
        self.mods = []
        self.files = {}         # (mod, folder) -> {file: nodes}
        self.registered = {}    # mod -> [folder]
        self.clock = 1000000000
        u = uid()
        many = d.weighted((4, d.int(1, 3)), (1, d.int(6, 9)))
        for i in range(many):
            m = 'm%s_%d' % (u, i)
            self.package(m)
            if d.bool(0.3):
                m += '.sub'
                self.package(m)
            self.mods.append(m)
            for f in (d.subset(FOLDERS, 0.6) or ['templates']) if many < 6 else FOLDERS:
                self.path(m, f).mkdir(parents=True)
                self.files[m, f] = {}

    def package(self, m):
        p = self.root.joinpath(*m.split('.'))
        p.mkdir()
        (p / '__init__.py').write_text('')

    def path(self, m, folder, file=''):
        return self.root.joinpath(*m.split('.')) / folder / file

    def close(self):
        sys.path.remove(str(self.root))
        for m in self.mods:
            templates_module_loader._registry.pop(m, None)
            sys.modules.pop(m, None)
            sys.modules.pop(m.split('.')[0], None)
        J.default_jinja2_env().update_loader()
        shutil.rmtree(str(self.root), ignore_errors=True)

    def find(self, m, file):
        for f in self.registered.get(m, []):
            if file in self.files[m, f]:
                return self.files[m, f][file]
        return None

    def known(self):
        return sorted({(m, file) for m, fs in self.registered.items() for f in fs for file in self.files[m, f]})

    def gen_source(self, rank):
        """nodes of a template, which includes only templates of a lower rank; (source, fn(env) -> text or LookupError)"""
        d = self.d
        nodes = []
        for _ in range(d.int(1, 4)):
            k = d.choice(['text', 'var', 'include', 'import', 'text'])
            if k == 'text':
                if not nodes or nodes[-1][0] != 'text':
                    nodes.append(['text', gen_text(d)])
            elif k == 'var':
                nodes.append(['var'] + list(gen_expr(d, NAMES)))
            else:
                m = d.choice(self.mods)
                file = '%d_%s' % (d.int(0, rank), d.choice(FILES)) if rank >= 0 and d.bool(0.5) else None
                cands = [x for x in self.known() if int(x[1].split('_')[0]) < rank]
                if file is None and cands:
                    m, file = d.choice(cands)
                if file is None or int(file.split('_')[0]) >= rank:
                    continue
                nodes.append(['include', '{%% include "%s/%s" %%}' % (m, file), lambda e, m=m, file=file: self.text(m, file, e)])
        return nodes

    def write(self):
        d = self.d
        m, folder = d.choice(sorted(self.files))
        rank = d.int(0, 2)
        file = '%d_%s' % (rank, d.choice(FILES))
        if d.bool(0.3):
            # the same file in several folders of a module
            others = [x for (n, g), fs in sorted(self.files.items()) if n == m and g != folder for x in sorted(fs)]
            if others:
                file = d.choice(others)
                rank = int(file.split('_')[0])
        reg = self.registered.get(m, [])
        if file not in self.files[m, folder] and folder in reg and \
                any(file in self.files[m, g] for g in reg[reg.index(folder):]):
            # a template which hides one already loaded
            return
        nodes = self.gen_source(rank)
        tokens = flatten(d, nodes, [])
        src = ''.join(t[1] for t in tokens)
        strip_blanks(tokens)
        p = self.path(m, folder, file)
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(src, encoding='utf-8')
        self.clock += 10
        os.utime(str(p), (self.clock, self.clock))
        self.files[m, folder][file] = nodes
        d.show('%s/%s/%s: %r' % (m.split('_')[-1], folder, file, src))

    def text(self, m, file, env):
        nodes = self.find(m, file)
        if nodes is None:
            raise LookupError('%s/%s' % (m, file))
        return render(nodes, dict(env))


def prop_modules(d):
    w = Modules(d)
    env = gen_vars(d)
    try:
        for _ in range(d.int(1, 6)):
            w.write()
        if len(w.mods) > 4:
            for _ in range(6):
                w.write()
            for m in w.mods:
                if d.bool(0.95) and w.registered.setdefault(m, []) == [] and (m, 'templates') in w.files:
                    templates_module_loader.register(m)
                    w.registered[m].append('templates')
        for _ in range(d.int(2, 9)):
            k = d.weighted((2, 'write'), (3, 'register'), (4, 'render'), (1, 'parent'))
            if k == 'write':
                w.write()
            elif k == 'register':
                m, folder = d.choice(w.mods), d.choice(FOLDERS)
                got = templates_module_loader.register(m) if folder == 'templates' and d.bool() else templates_module_loader.register(m, folder)
                d.show('register(%s, %s)' % (m.split('_')[-1], folder))
                equal(got, w.path(m, folder).resolve(), 'folder registered')
                if (m, folder) in w.files and folder not in w.registered.setdefault(m, []):
                    w.registered[m].append(folder)
            elif k == 'render':
                known = w.known()
                m, file = d.choice(known) if known and d.bool(0.85) else (d.choice(w.mods), '%d_%s' % (d.int(0, 2), d.choice(FILES)))
                pre = d.text('xy', 0, 2)
                try:
                    want = w.text(m, file, env)
                    d.hit('template of a module')
                except LookupError:
                    want = LookupError
                d.show('render %s/%s' % (m.split('_')[-1], file))
                if d.bool(0.3):
                    got = rendered(lambda: J.default_jinja2_env().get_template('%s/%s' % (m, file)).render(env))
                    if want is LookupError:
                        require(got[0] == 'not found', 'unknown template', lambda: '%s/%s gave %r' % (m, file, got))
                    else:
                        require(got == ('ok', want), 'template of a module', lambda: '%s/%s gave %r, expected %r' % (m, file, got[1], want))
                    continue
                check_render(d, '%s|{%% include "%s/%s" %%}|' % (pre, m, file), env, want if want is LookupError else '%s|%s|' % (pre, want))
            else:
                known = w.known()
                if not known:
                    continue
                m, file = d.choice(known)
                t = d.text('pq', 0, 2)
                src = '{%% extends "%s/%s" %%}{%% block none %%}%s{%% endblock %%}' % (m, file, t)
                d.show('extend %s/%s' % (m.split('_')[-1], file))
                try:
                    want = w.text(m, file, env)
                except LookupError:
                    want = LookupError
                check_render(d, src, env, want)
    finally:
        w.close()


# ---------------------------------------------------------------- variables
def prop_variables(d):
    src, want, want_this = [], [], []
    for _ in range(d.int(1, 5)):
        if d.bool(0.4):
            src.append(d.text('xy .|a{', 1, 4))
            if src[-1].endswith('{'):
                src[-1] += ' '
            if '{{' in src[-1]:
                src[-1] = 'x'
            continue
        parts = [d.choice(NAMES + ['name', 'items', 'up'])] + d.list(lambda d: d.choice(NAMES + [0, 1, 12, 'k']), 0, 3)
        path = text = str(parts[0])
        for p in parts[1:]:
            if isinstance(p, int):
                text += '.%d' % p if d.bool(0.5) else '[%d]' % p
                path += '[%d]' % p
            else:
                text += '.' + p
                path += '.' + p
        this = d.bool(0.3) and d.choice(['this.', 'self.']) or ''
        f = d.choice(['', '', '|upper', ' | last', "|split(',')|last", '|default(1)', '|camelize(False)'])
        sp = d.choice(['', ' '])
        src.append('{{%s%s%s%s%s}}' % (sp, this, text, f, sp))
        want.append(path)
        want_this.append(this + path)
    src = ''.join(src)
    if re.search(r'\{\{\d', src):
        raise Discard
    d.show(repr(src))
    if len(want) > 1:
        d.hit('variables')
    equal(list(J.get_jinja2_variables(src)), want, 'variables detected')
    equal(list(J.get_jinja2_variables(src, remove_this=False)), want_this, 'variables detected')
    equal(types.strings.Pattern._inputs(types.strings.Pattern, src), set(want), 'inputs')


def prop_block_variables(d):
    """variables used in blocks: those of the context only, each once, sorted after those written in {{ }}"""
    free, src, shown = set(), [], []

    def name(bound):
        n = d.choice(NAMES + ['name', 'items', 'up'])
        if bound and d.bool(0.3):
            return d.choice(bound)
        text = n
        free.add(n)
        for _ in range(d.weighted((4, 0), (2, 1), (1, 2))):
            text += '.' + d.choice(NAMES + ['k'])
            free.add(text)
        if d.bool(0.15):
            # the attributes of the object itself
            return d.choice(['this.', 'self.']) + text
        return text

    def cond(bound):
        k = d.choice(['name', 'not', 'eq', 'test', 'filter', 'call', 'item'])
        x = name(bound)
        return {'name': lambda: x, 'not': lambda: 'not ' + x, 'eq': lambda: '%s == %s' % (x, name(bound)), 'test': lambda: x + ' is defined',
                'filter': lambda: x + '|upper == "A"', 'call': lambda: 'len(%s) > 1' % x, 'item': lambda: '%s[0]' % x}[k]()

    def nodes(depth, bound, branch=False):
        for _ in range(d.int(1, 2 if depth < 2 else 3)):
            k = d.choice(['text', 'if', 'for', 'set', 'range', 'text', 'var'])
            # (what is set in a branch can be undefined after it)
            if k == 'text' or not depth or k == 'set' and branch:
                src.append(d.text('xy ', 0, 3))
            elif k == 'var':
                # written in {{ }}
                n = d.choice(NAMES)
                src.append('{{ %s }}' % n)
                shown.append(n)
            elif k == 'if':
                src.append('{%% if %s %%}' % cond(bound))
                nodes(depth - 1, bound, True)
                if d.bool(0.3):
                    src.append('{%% elif %s %%}' % cond(bound))
                src.append('{% endif %}')
            elif k == 'set':
                v = 'v%d' % len(src)
                src.append('{%% set %s = %s %%}' % (v, name(bound)))
                bound = bound + [v]
            else:
                v = 'i%d' % len(src)
                src.append('{%% for %s in %s %%}' % (v, name(bound) if k == 'for' else d.choice(['range(3)', '[1, 2]', 'enumerate("ab")', 'list(str(12))'])))
                nodes(depth - 1, bound + [v])
                src.append('{% endfor %}')
    nodes(2, [])
    text = ''.join(src)
    d.show(repr(text))
    if free:
        d.hit('variables of blocks')
    equal(list(J.get_jinja2_variables(text)), shown + sorted(free - set(shown)), 'variables detected')


TESTS = [Test('filters', prop_filters, 1500), Test('blocks', prop_blocks, 1500), Test('globals', prop_globals, 150),
         Test('modules', prop_modules, 300), Test('variables', prop_variables, 500),
         Test('block-variables', prop_block_variables, 500)]
