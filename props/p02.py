# -*- coding: utf-8 -*-
"""P02: expressions and templates evaluate to the typed value of their text in the given context."""
import copy
import datetime
import decimal
import pathlib
import re
import urllib.parse
from decimal import Decimal

import arrow

from pbt.common import *
from ngoschema import types
from ngoschema.utils.utils import Context
from ngoschema.utils.jinja2 import get_jinja2_variables

META = dict(
    title='Expressions and templates evaluate to the typed value they denote in context',
    statement="A back-quoted expression or a {{ }} / {% %} template submitted to any primitive type (or to a primitive item or property) evaluates to "
              "the value its text denotes with the variables of the context, converted and validated like a plain literal; variables of a nearer "
              "context (keyword, child context, sibling property) hide those of a farther one, and no context is modified. "
              "With raw literals asked for (option or rawLiterals schema) the text comes back untouched, and a text naming an undefined variable is never "
              "turned into a number. "
              "The inputs reported for a text include every variable its value depends on.",
    over=['inputs', 'configurations'],
    quantifier='every expression/template text, every type it is submitted to, every nesting of contexts and every binding of its variables',
    why='test_types evaluates four texts with one variable; operator precedence, shadowing between nested contexts, validation of '
        'the evaluated value and completeness of the detected inputs depend on the text.',
    files=['ngoschema/types/strings.py', 'ngoschema/types/type.py', 'ngoschema/utils/jinja2.py', 'ngoschema/protocols/context.py',
           'ngoschema/utils/utils.py', 'ngoschema/types/boolean.py'],
    mechanism=[('evaluation before conversion', 'ngoschema/types/type.py:Primitive._convert'),
               ('expression evaluation', 'ngoschema/types/strings.py:Expr._convert'),
               ('template rendering', 'ngoschema/types/strings.py:Pattern._convert'),
               ('input detection', 'ngoschema/utils/jinja2.py:get_jinja2_variables, ngoschema/types/strings.py:Expr._inputs'),
               ('context lookup', 'ngoschema/utils/utils.py:ReadOnlyChainMap')],
    observe=['value returned by the type call or read from the property', 'reported inputs', 'context contents after the call'],
    oracle='an abstract expression/template tree evaluated by the check itself',
    level_note='Random exploration: about 5000 texts per quick run. Trusts the tree evaluator of the check and python str()/int() conversions; '
               'jinja2 itself is only exercised on interpolation, filters, conditions and loops.',
)
RULE = ('A case is a generated expression or template tree, its variables, a nesting of contexts and a type. Non-trivial: the text '
        'refers to at least one variable (or is decided as raw/undefined).')
ASSUMPTIONS = ['expressions evaluate to values whose str() is a literal of the type',
               'templates use plain variable names, attribute paths, filters, if and for']

NAMES = ['a', 'b', 'c', 'dd', 'e_1']


# ---------------------------------------------------------------- expressions
def gen_int_expr(d, depth=2):
    """(text, fn(env), names)"""
    k = d.weighted((3, 'var'), (2, 'lit'), (4, 'op')) if depth else d.choice(['var', 'lit'])
    if k == 'lit':
        v = d.int(-9, 9)
        return ('(%d)' % v if v < 0 else str(v)), (lambda e: v), set()
    if k == 'var':
        n = d.choice(NAMES)
        return n, (lambda e: e[n]), {n}
    l, r = gen_int_expr(d, depth - 1), gen_int_expr(d, depth - 1)
    op = d.choice(['+', '-', '*', 'max', 'if', 'len', 'attr'])
    if op == 'max':
        return 'max(%s, %s)' % (l[0], r[0]), (lambda e: max(l[1](e), r[1](e))), l[2] | r[2]
    if op == 'if':
        return '(%s if %s > 0 else %s)' % (l[0], r[0], r[0]), (lambda e: l[1](e) if r[1](e) > 0 else r[1](e)), l[2] | r[2]
    if op == 'len':
        return 'len(str(%s))' % l[0], (lambda e: len(str(l[1](e)))), l[2]
    if op == 'attr':
        return 'abs(%s)' % l[0], (lambda e: abs(l[1](e))), l[2]
    f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
    return '(%s %s %s)' % (l[0], op, r[0]), (lambda e: f(l[1](e), r[1](e))), l[2] | r[2]


def gen_bool_expr(d):
    l, r = gen_int_expr(d, 1), gen_int_expr(d, 1)
    op = d.choice(['<', '==', '>='])
    f = {'<': lambda x, y: x < y, '==': lambda x, y: x == y, '>=': lambda x, y: x >= y}[op]
    return '%s %s %s' % (l[0], op, r[0]), (lambda e: f(l[1](e), r[1](e))), l[2] | r[2]


def gen_str_expr(d):
    l = gen_int_expr(d, 1)
    k = d.choice(['str', 'cat', 'fmt', 'mul'])
    if k == 'str':
        return 'str(%s)' % l[0], (lambda e: str(l[1](e))), l[2]
    if k == 'cat':
        return "'x' + str(%s) + 'y z'" % l[0], (lambda e: 'x%sy z' % l[1](e)), l[2]
    if k == 'fmt':
        return "'<%%s>' %% %s" % l[0], (lambda e: '<%s>' % l[1](e)), l[2]
    return "'ab' * len(str(%s))" % l[0], (lambda e: 'ab' * len(str(l[1](e)))), l[2]


# ---------------------------------------------------------------- templates
FILTERS = {
    'upper': str.upper, 'lower': str.lower, 'length': lambda s: str(len(s)), 'trim': str.strip,
    'last': lambda s: s[-1], "split('x')|last": lambda s: s.split('x')[-1], "rsplit('x', 1)|first": lambda s: s.rsplit('x', 1)[0],
    "split('x', 1)|last": lambda s: s.split('x', 1)[-1], 'capitalize': str.capitalize, "replace('x', 'yy')": lambda s: s.replace('x', 'yy'),
}


def gen_template(d, numeric=False):
    """list of pieces -> (text, fn(env), names, blocks?)"""
    pieces = []

    def piece(d):
        k = d.choice(['var', 'lit', 'var']) if numeric else d.weighted(
            (4, 'lit'), (5, 'var'), (3, 'filter'), (2, 'path'), (2, 'if'), (1, 'for'), (2, 'sum'))
        if k == 'lit':
            t = d.text('0123' if numeric else 'xy -_.:', 1, 4)
            if not numeric and d.bool(0.15):
                t = 'x\n' + t + '\n\ty'
            return t, (lambda e: t), set()
        n = d.choice(NAMES)
        sp = d.choice(['', ' '])
        if k == 'var':
            return '{{%s%s%s}}' % (sp, n, sp), (lambda e: str(e[n])), {n}
        if k == 'filter':
            f = d.choice(sorted(FILTERS))
            return '{{%s|string|%s}}' % (n, f), (lambda e: FILTERS[f](str(e[n]))), {n}
        if k == 'path':
            return '{{ o.%s }}' % n, (lambda e: str(e['o'][n])), {'o'}
        if k == 'if':
            m = d.choice(NAMES)
            # (blanks before a block are removed by the environment)
            return ('|{%% if %s %%}[{{%s}}]{%% else %%}-{%% endif %%}' % (m, n),
                    (lambda e: '|[%s]' % e[n] if e[m] else '|-'), {m, n})
        if k == 'for':
            m = d.choice(NAMES)
            return ('|{%% for i in [%s, %s] %%}{{i}},{%% endfor %%}' % (n, m), (lambda e: '|%s,%s,' % (e[n], e[m])), {n, m})
        m = d.choice(NAMES)
        return '{{ %s ~ %s }}' % (n, m), (lambda e: '%s%s' % (e[n], e[m])), {n, m}

    pieces = d.list(piece, 1, 4)
    if not any(p[2] for p in pieces):
        n = d.choice(NAMES)
        pieces.append(('{{%s}}' % n, (lambda e: str(e[n])), {n}))
    return ''.join(p[0] for p in pieces), (lambda e: ''.join(p[1](e) for p in pieces)), set().union(*[p[2] for p in pieces])


# ---------------------------------------------------------------- contexts
def gen_env(d, strings=False):
    """full binding plus a splitting in layers, nearest first, with shadowed values in the farther ones"""
    def val(d):
        return d.text('xyab', 1, 4) if strings else d.int(-9, 9)
    env = {n: val(d) for n in NAMES}
    env['o'] = {n: val(d) for n in NAMES}
    layers = [{}, {}, {}]
    for n in sorted(env):
        i = d.below(3)
        layers[i][n] = env[n]
        for j in range(i + 1, 3):
            if d.bool(0.4):
                layers[j][n] = {m: 77 for m in NAMES} if n == 'o' else ('zz%d' % j if strings else 70 + j)
    return env, layers


def evaluate_in(d, T, text, env, layers, **kw):
    """submit the text with one of the ways to give a context"""
    mode = d.choice(['keywords', 'context', 'parents', 'child', 'prepend', 'append'])
    d.note('context:' + mode)
    before = copy.deepcopy(layers)
    if mode == 'keywords':
        ret = outcome(T, text, **dict(env, **kw))
    else:
        l0, l1, l2 = layers
        if mode == 'context':
            ctx = Context(l1, l2, **l0)
        elif mode == 'parents':
            ctx = Context(l0, Context(l1, l2))
        elif mode == 'child':
            ctx = Context(l2).create_child(l1).create_child(**l0) if d.bool() else Context(l2).create_child(l1, **l0)
        elif mode == 'prepend':
            ctx = Context(l1, l2)
            ctx.prepend(l0)
        else:
            ctx = Context(l0, l1)
            ctx.append(l2)
        got_env = {k: ctx[k] for k in env}
        require(got_env == env, 'context-lookup', lambda: 'the context %r of layers %r gives %r' % (mode, layers, got_env))
        require(dict(ctx.merged) == {k: v for k, v in ctx.items()}, 'context-merged', lambda: 'merged %r items %r' % (
            ctx.merged, dict(ctx.items())))
        keys = set(ctx)
        ret = outcome(T, text, context=ctx, **kw)
        require(set(ctx) == keys and {k: ctx[k] for k in env} == env, 'context-modified',
                lambda: 'evaluating %r modified the context: %r' % (text, sorted(set(ctx) ^ keys)))
    require(layers == before, 'context-modified', lambda: 'evaluating %r modified %r into %r' % (text, before, layers))
    return ret


def check_inputs(T, text, names):
    got = {i.split('.')[0] for i in T._inputs(T, text)}
    require(names <= got, 'inputs', lambda: 'inputs of %r are %r, it depends on %r' % (text, sorted(got), sorted(names)))


def prop_expression(d):
    kind = d.choice(['integer', 'number', 'string', 'boolean', 'enum'])
    text, fn, names = {'boolean': gen_bool_expr, 'string': gen_str_expr}.get(kind, gen_int_expr)(d)
    env, layers = gen_env(d)
    want = fn(env)
    sch = {'type': kind}
    if kind in ('integer', 'number') and d.bool(0.4):
        sch['maximum'] = d.int(-10, 30)
    if kind == 'string' and d.bool(0.4):
        sch['maxLength'] = d.int(0, 8)
    if kind == 'enum':
        want = str(want)
        members = ['m%d' % i for i in range(3)]
        if d.bool(0.7):
            members.insert(d.int(0, 3), want)
        sch = {'enum': members}
        text = 'str(%s)' % text
    d.show('%r `%s with layers %r' % (sch, text, layers))
    if names:
        d.hit(kind)
    kws = {k: v for k, v in sch.items() if k != 'type'}
    T = {'integer': types.Integer, 'number': types.Number, 'string': types.String, 'boolean': types.Boolean,
         'enum': types.Enum}[kind](**kws)
    got = evaluate_in(d, T, '`' + text, env, layers)
    bad = ('maximum' in sch and want > sch['maximum']) or ('maxLength' in sch and len(want) > sch['maxLength'])
    if kind == 'enum' and want not in sch['enum']:
        if re.match(r'^\d+$', want) and int(want) < len(sch['enum']):
            want = sch['enum'][int(want)]
        elif re.match(r'^-\d+$', want) and int(want) >= -len(sch['enum']):
            want = sch['enum'][int(want)]
        else:
            bad = True
    if bad:
        require(got[0] == 'reject', 'expression', lambda: '%r under %r gave %r' % (text, sch, got[1]))
    else:
        require(got[0] == 'ok', 'expression', lambda: '%r under %r was rejected: %s' % (text, sch, got[1]))
        require(got[1] == want and isinstance(got[1], bool) == isinstance(want, bool), 'expression',
                lambda: '%r under %r with %r gave %r expected %r' % (text, sch, env, got[1], want))
    check_inputs(T, '`' + text, names)


def prop_template(d):
    kind = d.choice(['string', 'string', 'integer', 'array', 'boolean'])
    if kind == 'boolean':
        env, layers = gen_env(d)
        n = d.choice(NAMES)
        text, fn, names = '{{ %s > 0 }}' % n, (lambda e: e[n] > 0), {n}
    else:
        text, fn, names = gen_template(d, numeric=kind == 'integer')
        env, layers = gen_env(d, strings=kind != 'integer' and d.bool(0.7))
    want = fn(env)
    d.show('%s %r with layers %r' % (kind, text, layers))
    d.hit(kind)
    if kind == 'integer':
        T = types.Integer()
        want = int(want) if re.match(r'^\s*-?\d+\s*$', want) else None
    elif kind == 'array':
        T = types.Array(items={'type': 'string'})
        want = [want, 'plain']
    elif kind == 'boolean':
        T = types.Boolean()
    else:
        T = types.String()
    got = evaluate_in(d, T, [text, 'plain'] if kind == 'array' else text, env, layers)
    if want is None:
        require(got[0] == 'reject', 'template', lambda: '%r gave %r' % (text, got[1]))
    else:
        require(got == ('ok', want), 'template', lambda: '%r with %r gave %r expected %r' % (text, env, got[1], want))
    if kind != 'array':
        check_inputs(T, text, names)


def prop_properties(d):
    """texts refer to the other properties of the object, then to the context of the object"""
    props = {n: {'type': 'integer'} for n in NAMES}
    own = d.subset(NAMES, 0.6)
    as_template = d.bool(0.4)
    text, fn, names = gen_template(d, True) if as_template else gen_int_expr(d)
    env, _ = gen_env(d)
    vals = {n: env[n] for n in own}
    ctxd = {n: env[n] if n not in own else 55 for n in NAMES}
    C = make_class({'type': 'object', 'additionalProperties': False,
                    'properties': dict({n: props[n] for n in own}, p={'type': 'string'})})
    src = text if as_template else '`' + text
    if text.startswith('`'):
        raise Discard()
    d.show('%r in an object of properties %r and context %r' % (src, vals, ctxd))
    if names:
        d.hit('own' if names & set(own) else 'context')
    order = d.shuffle(own + ['p'])
    given = {k: (src if k == 'p' else vals[k]) for k in order}
    o = C(given, context=Context(ctxd)) if d.bool() else C(context=Context(ctxd), **given)
    got = outcome(lambda: o.p)
    want = str(fn(env))
    require(got == ('ok', want), 'property', lambda: '%r gave %r expected %r (own %r context %r)' % (src, got[1], want, vals, ctxd))
    require({k: o[k] for k in own} == vals, 'property-siblings', lambda: 'siblings became %r' % {k: o[k] for k in own})


def prop_typed(d):
    """texts given to the other primitive types"""
    kind = d.choice(['date', 'time', 'datetime', 'uri', 'path', 'class'])
    y, m, day, hh, mm = d.int(1950, 2050), d.int(1, 12), d.int(1, 28), d.int(0, 23), d.int(0, 59)
    as_expr = d.bool()
    env = {'a': y, 'b': m, 'c': day, 'dd': hh, 'e_1': mm}
    date, time = datetime.date(y, m, day), datetime.time(hh, mm)
    if kind == 'date':
        want = date
        text, obj = '{{a}}-{{"%02d" % b}}-{{"%02d" % c}}', date
    elif kind == 'time':
        want = time
        text, obj = '{{"%02d" % dd}}:{{"%02d" % e_1}}', time
    elif kind == 'datetime':
        want = arrow.get(datetime.datetime.combine(date, time))
        text, obj = '{{a}}-{{"%02d" % b}}-{{"%02d" % c}}T{{"%02d" % dd}}:{{"%02d" % e_1}}', want
    elif kind == 'uri':
        obj = 'http://h/%s/%s#%s' % (y, m, day)
        want = urllib.parse.urlparse(obj)
        text = 'http://h/{{a}}/{{b}}#{{c}}'
    elif kind == 'path':
        obj = 'p%s/%s.txt' % (y, m)
        want = pathlib.Path(obj)
        text = 'p{{a}}/{{b}}.txt'
    else:
        want, obj = decimal.Decimal, 'decimal.Decimal'
        env['a'] = 'decimal'
        text = '{{a}}.Decimal'
    if as_expr:
        # the text denotes a python object, reached through an attribute or an item
        env['o'] = obj if d.bool() else {'x': obj}
        text = '`o' if env['o'] is obj else '`o["x"]'
    d.show('%s %r with %r' % (kind, text, env))
    d.hit(kind + (':expression' if as_expr else ':template'))
    if d.bool(0.4):
        C = make_class({'type': 'object', 'properties': {'p': {'type': kind}}})
        got = outcome(lambda: C(p=text, context=Context(env)).p)
    else:
        layers = [{}, {}, {}]
        for n in sorted(env):
            layers[d.below(3)][n] = env[n]
        got = evaluate_in(d, build({'type': kind}), text, env, layers)
    require(got[0] == 'ok' and type(got[1]) is type(want) and got[1] == want, 'typed',
            lambda: '%s of %r with %r gave %r expected %r' % (kind, text, env, got[1], want))


def prop_raw(d):
    text = d.choice([lambda: '`' + gen_int_expr(d)[0], lambda: gen_template(d)[0], lambda: '{{ %s }}' % d.text('ab ', 0, 4),
                     lambda: '`' + d.text('a+( ', 0, 5)])()
    env, layers = gen_env(d)
    mode = d.choice(['option', 'schema', 'property', 'array'])
    d.show('raw %r by %s' % (text, mode))
    d.hit(mode)
    if mode == 'option':
        got = types.String()(text, raw_literals=True, **env)
    elif mode == 'schema':
        T = types.String(rawLiterals=True)
        got = T(text, **env)
        require(not T._inputs(T, text), 'raw-inputs', lambda: 'a raw literal has inputs %r' % T._inputs(T, text))
    elif mode == 'property':
        o = make_class({'type': 'object', 'properties': {'a': {'type': 'integer'}, 'p': {'type': 'string', 'rawLiterals': True}}})(
            a=1, p=text)
        got = o.p
    else:
        got = types.Array(items={'type': 'string', 'rawLiterals': True})([text], **env)[0]
    require(type(got) is str and got == text, 'raw', lambda: 'raw %r by %s gave %r' % (text, mode, got))


def prop_undefined(d):
    text, fn, names = gen_int_expr(d)
    if not names:
        raise Discard()
    missing = d.choice(sorted(names))
    env, layers = gen_env(d)
    env.pop(missing)
    d.show('`%s without %r' % (text, missing))
    d.hit()
    T = d.choice([types.Integer, types.Number])()
    got = outcome(T, '`' + text, **env)
    if got[0] == 'ok':
        # the branch using the missing variable may not have been evaluated
        want = outcome(lambda: eval(text, dict(env)))[1]
        require(got[1] == want, 'undefined', lambda: '`%s without %r gave %r' % (text, missing, got[1]))
    t2 = 'x{{ %s }}y' % missing
    require(types.String()(t2, **env) == 'xy', 'undefined-template', lambda: '%r gave %r' % (t2, types.String()(t2, **env)))


TESTS = [
    Test('expression', prop_expression, 2500),
    Test('template', prop_template, 2000),
    Test('properties', prop_properties, 500),
    Test('typed', prop_typed, 500),
    Test('raw', prop_raw, 400),
    Test('undefined', prop_undefined, 400),
]
