# -*- coding: utf-8 -*-
"""P20: decorators of functions, methods and properties."""
import decimal
import gc
import weakref
from collections import OrderedDict

from pbt.common import *
from python_jsonschema_objects.validators import ValidationError as PjoValidationError
from ngoschema import decorators as D
from ngoschema.types import Integer, String, Boolean, Number

META = dict(
    title='Decorated functions get converted, checked or distributed arguments',
    statement="A function, method, class method or static method with asserted arguments receives for each of them, given by position or by name, the value converted to its type, is not called when one is invalid, "
              "and receives all other arguments, defaults included, as they are; what it returns and raises is unchanged. Asserted properties are required to be defined at each call, even when they are falsy. "
              "A function taking arrays is called once for each element, in order, with the matching element of the second array, and gives the list of the results. "
              "Memoized properties and methods are evaluated once for each instance and arguments until reset, within the size of the cache, without keeping instances alive. "
              "Class properties give the value for the class they are read from. Logging changes neither results nor exceptions.",
    over=['inputs', 'histories'],
    quantifier='every signature, decoration, kind of function and instance, every way of passing arguments, every history of accesses',
    why='The test of the decorators fails to import; it calls each of them once.',
    files=['ngoschema/decorators.py'],
    mechanism=[('arguments', 'ngoschema/decorators.py:assert_arg'), ('arrays', 'ngoschema/decorators.py:take_arrays'), ('properties', 'ngoschema/decorators.py:assert_prop'),
               ('memoization', 'ngoschema/decorators.py:memoized_method'), ('class properties', 'ngoschema/decorators.py:ClassPropertyDescriptor'),
               ('logging', 'ngoschema/decorators.py:log_exceptions')],
    observe=['arguments received by the decorated function', 'results and exceptions', 'number of evaluations'],
    oracle='direct binding of arguments; reference conversions; a model of caches with least recently used eviction',
    level_note='Random exploration: about 4 000 calls and histories per quick run.',
)
RULE = 'A case is a decorated function and its calls. Non-trivial: an argument is converted or refused, arrays are distributed, a cache is used.'
ASSUMPTIONS = ['functions have no keyword-only argument and no annotation (the decorators state that they refuse them)',
               'arrays are given by position', 'the flag assert_args is used with one decorator only']

REFUSED = (ValueError, PjoValidationError)


# ------------------------------------------------------------ assert_arg
def conv_int(v):
    return int(v) if isinstance(v, str) else v


TYPES = [
    (Integer, {}, {'5': 5, 5: 5, '-3': -3, 'a': REFUSED, '': REFUSED}),
    (Integer, {'minimum': 3}, {'5': 5, 5: 5, 2: REFUSED, '2': REFUSED, 'x': REFUSED}),
    (Number, {'maximum': 4}, {'1.5': decimal.Decimal('1.5'), 2.5: decimal.Decimal('2.5'), 9.5: REFUSED, 'x': REFUSED}),
    (String, {}, {'a': 'a', 5: '5', 2.5: '2.5', '': ''}),
    (String, {'maxLength': 2}, {'a': 'a', 12: '12', 'abc': REFUSED, 123: REFUSED}),
]


def make_function(names, ndefaults, varargs, kwargs, first, log):
    """a function of this signature, which records what it receives"""
    sig = [first] if first else []
    for i, n in enumerate(names):
        sig.append(n if i < len(names) - ndefaults else '%s=%r' % (n, 'dft-' + n))
    if varargs:
        sig.append('*args')
    if kwargs:
        sig.append('**kw')
    body = 'def fun(%s):\n    "doc of fun"\n    return rec({%s}, %s, %s)' % (
        ', '.join(sig), ', '.join('%r: %s' % (n, n) for n in names), 'args' if varargs else '()', 'kw' if kwargs else '{}')
    env = {'rec': log}
    exec(body, env)
    return env['fun']


class Boom(Exception):
    pass


def prop_assert_arg(d):
    names = ['x', 'y', 'z'][:d.int(1, 3)]
    nd = d.int(0, len(names))
    varargs, kwargs = d.bool(0.2), d.bool(0.3)
    ctx = d.choice(['function', 'method', 'falsy', 'class', 'static', 'unbound'])
    first = None if ctx in ('function', 'static') else 'self'
    calls = []
    boom = d.bool(0.15)

    def log(got, args, kw):
        calls.append((got, args, kw))
        if boom:
            raise Boom()
        return ('result', len(calls))
    f = make_function(names, nd, varargs, kwargs, first, log)
    asserted = OrderedDict()
    for n in d.shuffle(d.subset(names + (['extra'] if kwargs else []), 0.6)):
        asserted[n] = d.choice(TYPES)
        T, schema, _ = asserted[n]
        by = n if d.bool() or n == 'extra' else names.index(n) + (1 if first else 0)
        f = D.assert_arg(by, T, **schema)(f)
    if d.bool(0.3):
        f = D.log_exceptions(f)
    equal(f.__name__, 'fun', 'name')
    require('doc of fun' in (f.__doc__ or ''), 'doc', lambda: repr(f.__doc__))

    class K:
        def __len__(self):
            return 0 if ctx == 'falsy' else 1
        fun = classmethod(f) if ctx == 'class' else staticmethod(f) if ctx == 'static' else f
    k = K()
    d.show('%s %s defaults=%d %s%s asserted %r' % (ctx, names, nd, '*' if varargs else '', '**' if kwargs else '',
                                                   [(n, t.__name__, s) for n, (t, s, _) in asserted.items()]))
    for _ in range(d.int(1, 3)):
        npos = d.int(0, len(names))
        vals, want, refused = {}, {}, False
        flag = len(asserted) == 1 and d.bool(0.1)
        for i, n in enumerate(names):
            if i >= npos and i >= len(names) - nd and d.bool(0.4):
                want[n] = 'dft-' + n
                continue
            pool = asserted[n][2] if n in asserted else {'5': '5', 5: 5, 'a': 'a', 2.5: 2.5}
            pool = dict(pool, **{'none': None})
            pool[None] = pool.pop('none')
            v = d.choice(sorted(pool, key=repr))
            vals[n] = v
            want[n] = v if flag else pool[v]
            if want[n] is REFUSED:
                refused = True
        extra = {}
        wkw = {}
        if kwargs and d.bool():
            pool = asserted['extra'][2] if 'extra' in asserted else {'5': '5'}
            v = d.choice(sorted(pool, key=repr))
            extra['extra'] = v
            wkw['extra'] = v if flag else pool[v]
            refused = refused or wkw['extra'] is REFUSED
        args = [vals[n] for n in names[:npos]]
        kw = {n: vals[n] for n in names[npos:] if n in vals}
        more = ()
        if varargs and npos == len(names) and d.bool():
            more = ('5', 7)
        kw.update(extra)
        if flag:
            kw['assert_args'] = False
        target = f if ctx == 'function' else K.fun if ctx in ('unbound', 'class') and d.bool(0.5) or ctx == 'unbound' else k.fun
        pre = [k] if ctx == 'unbound' else []
        before = len(calls)
        d.show('(%r, %r)' % (args, kw))
        try:
            r = target(*(pre + args + list(more)), **kw)
            require(not refused, 'accepted', lambda: 'invalid argument in %r %r is accepted' % (args, kw))
            require(not boom, 'exception', lambda: 'exception of the function is lost')
            equal(r, ('result', len(calls)), 'result')
        except Boom:
            require(boom and not refused, 'exception', lambda: 'function was called')
        except REFUSED as er:
            require(refused, 'refused', lambda: '%r %r are refused: %s' % (args, kw, er))
            equal(len(calls), before, 'called', 'calls of the function with invalid arguments')
            d.hit('refused')
            continue
        equal(len(calls), before + 1, 'called', 'calls of the function')
        got = calls[-1]
        require(repr(got) == repr((want, more, wkw)), 'arguments', lambda: 'function received %r expected %r' % (got, (want, more, wkw)))
        if any(repr(want[n]) != repr(v) for n, v in vals.items()):
            d.hit('converted')


# ------------------------------------------------------------ take_arrays
def prop_take_arrays(d):
    two = d.bool(0.6)
    flat = d.bool(0.3)
    n1 = d.int(0, 1)
    n2 = -1 if not two else d.choice([i for i in range(3) if i != n1])
    nargs = d.int(max(n1, n2) + 1, 3)
    optional = two and n2 == nargs - 1 and d.bool(0.3)
    method = d.bool(0.3)
    calls = []

    def base(args, kw):
        calls.append((args, kw))
        return [args, 'end'] if flat else (args, tuple(kw))
    env = {'base': base}
    sig = ['a%d' % i for i in range(nargs)]
    exec('def fun(%s, **kw):\n    "doc"\n    return base((%s,), kw)' % (
        ', '.join(s if not (optional and i == n2) else s + '="dft"' for i, s in enumerate(sig)), ', '.join(sig)), env)
    fun = D.take_arrays(n1, n2, flatten=flat)(env['fun'])
    if method:
        raw = fun
        fun = lambda *a, **k: raw(*a, **k)

    def arr(n):
        return d.choice([list, tuple])(d.int(0, 9) for _ in range(n))
    args = [d.choice(['s', 5, None, {'k': 1}]) for _ in range(nargs)]
    size = None
    if d.bool(0.8):
        size = d.int(0, 4)
        args[n1] = arr(size) if d.bool(0.8) else set(range(size))
    size2 = None
    if two and d.bool(0.7):
        size2 = size if size is not None and d.bool(0.6) else d.int(0, 4)
        args[n2] = arr(size2)
    if optional and d.bool(0.5):
        args.pop()
        size2 = None
    kw = {'k': 3} if d.bool(0.3) else {}
    d.show('%d,%d flatten=%s %r %r' % (n1, n2, flat, args, kw))
    before = repr(args)

    def at(i, v1):
        out = list(args)
        out[n1] = v1
        if size2 is not None:
            out[n2] = args[n2][0] if size2 == 1 else args[n2][i]
        return tuple(out) + (('dft',) if len(args) < nargs else ())
    if size is None:
        want = [tuple(args) + (('dft',) if len(args) < nargs else ())]
    elif size2 not in (None, 1, size):
        want = None
    else:
        want = [at(i, v) for i, v in enumerate(args[n1])]
    try:
        r = fun(*args, **kw)
    except InvalidValue:
        require(want is None, 'size', lambda: '%r are refused' % args)
        d.hit('sizes')
        return
    require(want is not None, 'size', lambda: '%r are accepted' % args)
    equal([a for a, k in calls], want, 'calls')
    require(all(k == kw for a, k in calls), 'keywords', lambda: repr(calls))
    res = [[a, 'end'] if flat else (a, tuple(kw)) for a in want]
    if size is None:
        equal(r, res[0], 'result')
    else:
        equal(r, [x for l in res for x in l] if flat else res, 'results')
        d.hit('arrays')
    equal(repr(args), before, 'modified')


# ------------------------------------------------------------ assert_prop
def prop_assert_prop(d):
    props = ['p', 'q', 'r', 'dyn']
    needed = d.subset(props, 0.5)
    calls = []

    class K:
        r = d.choice([None, 0, 'c'])
        source = None

        @property
        def dyn(self):
            return self.source

        @D.assert_prop(*needed)
        def fun(self, x, y=2):
            "doc of fun"
            calls.append((x, y))
            return x
    k = K()
    d.show('needs %r r=%r' % (needed, K.r))
    state = {'r': K.r}
    for _ in range(d.int(1, 8)):
        if d.bool(0.5):
            p = d.choice(props)
            v = d.choice([None, 0, '', [], False, 'x', 5])
            d.show('%s=%r' % (p, v))
            setattr(k, 'source' if p == 'dyn' else p, v)
            state[p] = v
        else:
            ok = all(state.get(p) is not None for p in needed)
            n = len(calls)
            try:
                r = k.fun('v') if d.bool() else K.fun(k, 'v', y=3)
                require(ok, 'undefined', lambda: 'called with %r' % state)
                require(r == 'v' and len(calls) == n + 1, 'call', lambda: repr(r))
                if any(not state.get(p) for p in needed):
                    d.hit('falsy')
            except AttributeError:
                require(not ok and len(calls) == n, 'defined', lambda: 'refused with %r' % state)
                d.hit('refused')
    require('doc of fun' in K.fun.__doc__, 'doc', lambda: K.fun.__doc__)


# ------------------------------------------------------------ memoization
def prop_memoized(d):
    size = d.choice([None, 1, 2, 3, 128])
    plain = d.bool()
    typed = d.bool(0.3)
    opts = dict(maxsize=size, typed=True) if typed else {'maxsize': size}
    evals = []

    class K:
        def __init__(self, n):
            self.n = n
            self.v = None

        @D.memoized_property
        def prop(self):
            "doc of prop"
            evals.append(('prop', self.n))
            return self.v if plain else (self.n, self.v)

        @D.memoized_method(**opts)
        def meth(self, x, y=1):
            evals.append(('meth', self.n, x, y))
            return (self.n, self.v, x, y)
    objs = [K(i) for i in range(d.int(1, 3))]
    props = {}
    caches = [OrderedDict() for _ in objs]
    require(K.prop is K.__dict__['prop'] and K.prop.__doc__ == 'doc of prop', 'class', lambda: repr(K.prop))
    for _ in range(d.int(1, 16)):
        i = d.int(0, len(objs) - 1)
        o = objs[i]
        op = d.weighted((3, 'prop'), (5, 'meth'), (2, 'change'), (1, 'reset'))
        n = len(evals)
        if op == 'prop':
            d.show('o%d.prop' % i)
            if i in props:
                d.hit('property')
            else:
                n += 1
                props[i] = o.v if plain else (i, o.v)
            equal(o.prop, props[i], 'property')
        elif op == 'meth':
            key = d.choice([((1,), ()), ((2,), ()), ((3,), ()), ((4,), ()), ((1, 2), ()), ((1,), (('y', 2),)), (('1',), ())] + ([((1.0,), ()), ((True,), ()), ((1.0, 2), ())] if typed else []))
            d.show('o%d.meth%r' % (i, key))
            c = caches[i]
            args, key = key, key + ((type(key[0][0]),) if typed else ())
            if key in c:
                c.move_to_end(key)
                d.hit('method')
            else:
                n += 1
                c[key] = (i, o.v, key[0][0], dict(key[1]).get('y', key[0][1] if len(key[0]) > 1 else 1))
                if size is not None and len(c) > size:
                    c.popitem(last=False)
                    d.hit('evicted')
            equal(o.meth(*args[0], **dict(args[1])), c.get(key), 'method')
        elif op == 'change':
            o.v = d.choice([None, 0, False, '', 1, 2, 3])
            d.show('o%d.v=%r' % (i, o.v))
        else:
            d.show('o%d reset' % i)
            if d.bool():
                K.prop._reset(o)
            else:
                D.memoized_property.reset(o, 'prop')
            props.pop(i, None)
        equal(len(evals), n, 'evaluations', op)
    if d.bool(0.03):
        r = [weakref.ref(o) for o in objs]
        del o, objs
        for _ in range(4):
            gc.collect()
        require(all(x() is None for x in r), 'alive', lambda: 'instances are kept alive')


# ------------------------------------------------------------ class properties
def prop_class_property(d):
    class A:
        v = 0

        @D.classproperty
        def name(cls):
            return cls.__name__

        @D.classproperty
        def val(cls):
            return cls.v

        @val.setter
        def val(cls, value):
            cls.v = value
    classes = [A]
    for i in range(d.int(1, 4)):
        p = d.choice(classes)
        attrs = {}
        if d.bool(0.3):
            attrs['v'] = 10 + i
        classes.append(type('B%d' % i, (p,), attrs))
    d.show([[b.__name__ for b in c.__mro__] + [c.v] for c in classes])
    insts = [c() for c in classes]
    own = {c: c.__dict__['v'] for c in classes if 'v' in c.__dict__}
    for _ in range(d.int(1, 6)):
        i = d.int(0, len(classes) - 1)
        if d.bool(0.4):
            own[classes[i]] = v = d.int(20, 99)
            d.show('%s().val=%d' % (classes[i].__name__, v))
            insts[i].val = v
            d.hit()
        for c, o in zip(classes, insts):
            want = next(own[b] for b in c.__mro__ if b in own)
            equal((c.name, o.name), (c.__name__, c.__name__), 'name')
            equal((c.val, o.val), (want, want), 'value', c.__name__)
        try:
            insts[i].name = 'x'
            raise Violation('read-only', 'a class property without setter is set')
        except AttributeError:
            pass


# ------------------------------------------------------------ logging
class Log:
    def __init__(self):
        self.n = {'debug': 0, 'info': 0, 'error': 0}

    def _add(self, k):
        self.n[k] += 1

    def debug(self, msg, *args, **kw):
        msg % args
        self._add('debug')

    def info(self, msg, *args, **kw):
        msg % args
        self._add('info')

    def error(self, msg, *args, **kw):
        msg % args
        self._add('error')


def prop_logging(d):
    fail = d.choice([None, ValueError('100% é'), KeyError('k'), Boom()])
    log = Log()

    def act(*a, **k):
        if fail:
            raise fail
        return a, k

    class K:
        if d.bool(0.8):
            _logger = log

        @D.log_exceptions
        def fun(self, *a, **k):
            return act(*a, **k)

        @property
        @D.log_exceptions
        def prop(self):
            return act('prop')

        @classmethod
        @D.log_exceptions
        def cls(cls, *a):
            return act(*a)

    class I:
        _logger = log

        @D.log_init
        def __init__(self, *a, **k):
            self.r = act(*a, **k)
    a = tuple(d.choice([1, '%s', 'é', None, {'x': '%d'}]) for _ in range(d.int(0, 2)))
    k = {'y': d.choice([1, '%(a)s'])} if d.bool() else {}
    how = d.choice(['method', 'function', 'init', 'property', 'class'])
    d.show('%s %r %r raises %r' % (how, a, k, fail))
    d.hit(how)
    fun = D.log_exceptions(act) if d.bool() else D.log_exceptions(lambda *a, **k: act(*a, **k))
    try:
        if how == 'method':
            r, want = K().fun(*a, **k), (a, k)
        elif how == 'function':
            r, want = fun(*a, **k), (a, k)
        elif how == 'init':
            r, want = I(*a, **k).r, (a, k)
        elif how == 'property':
            r, want = K().prop, (('prop',), {})
        else:
            r, want = K.cls(*a), (a, {})
        require(fail is None and r == want, 'result', lambda: 'got %r expected %r' % (r, want))
    except Exception as er:
        if isinstance(er, Violation):
            raise
        require(er is fail, 'exception', lambda: 'raises %r instead of %r' % (er, fail))
    if how in ('method', 'init') and (how == 'init' or hasattr(K, '_logger')):
        equal(log.n['error'], 1 if fail else 0, 'errors-logged')
        equal(log.n['debug'] + log.n['info'], 1, 'calls-logged')


TESTS = [
    Test('assert-arg', prop_assert_arg, 1500),
    Test('take-arrays', prop_take_arrays, 1000),
    Test('assert-prop', prop_assert_prop, 500),
    Test('memoized', prop_memoized, 800),
    Test('class-property', prop_class_property, 300),
    Test('logging', prop_logging, 400),
]
