# -*- coding: utf-8 -*-
"""P01: evaluating a value against a scalar schema agrees with the JSON-schema meaning of that schema."""
import re
from decimal import Decimal
from fractions import Fraction

from pbt.common import *
from ngoschema import types

META = dict(
    title='Scalar evaluation agrees with the JSON-schema meaning of the declared type',
    statement="Submitting any value to a boolean, integer, number, string or enum type either returns the value converted to "
              "the python type of the schema (int, Decimal, bool, str, member of the enum) that satisfies every declared constraint "
              "(bounds, lengths, pattern, multipleOf, const, enum), or is rejected with a validation error; the default replaces a missing value. "
              "The decision and the result are the same whichever entry point is used (type instance, type built from a schema or by $ref, "
              "property keyword or assignment, check/convert/validate and the convert=False/validate=False variants). "
              "Evaluating does not change anything for the caller (converted values are accepted unchanged, the decimal context is preserved).",
    over=['inputs', 'configurations'],
    quantifier='every scalar schema (combination of constraints, default, enum) and every submitted python value, through every entry point',
    why='test_types samples a dozen values per type with one constraint at a time; boundary values of combined constraints, '
        'non canonical spellings and the agreement of the entry points are never compared with a reference.',
    files=['ngoschema/types/type.py', 'ngoschema/types/numerics.py', 'ngoschema/types/strings.py', 'ngoschema/types/boolean.py',
           'ngoschema/protocols/validator.py', 'ngoschema/protocols/converter.py', 'ngoschema/protocols/checker.py',
           'ngoschema/managers/jsch_validators.py', 'ngoschema/managers/type_builder.py'],
    mechanism=[('conversion to the python type', 'ngoschema/protocols/converter.py:Converter._convert'),
               ('schema validators run on the converted value', 'ngoschema/protocols/validator.py:Validator._evaluate'),
               ('enum conversion by member or index', 'ngoschema/types/type.py:Enum._convert'),
               ('boolean spellings', 'ngoschema/types/boolean.py:Boolean._convert')],
    observe=['returned value or validation error of the type call, of the property of an object, of check/convert/validate'],
    oracle='an independent reference evaluator of scalar schemas',
    level_note='Random exploration: about 7700 schema/value/entry point combinations per quick run (150000 thorough), deterministic for a seed. '
               'Trusts the reference evaluator written in the check.',
)

RULE = ('A case is a generated scalar schema (boolean/integer/number/string/enum with generated bounds, lengths, '
        'pattern, multipleOf, enum, const, default), a generated raw value and one of the ways to submit it (type '
        'instance, class built from the schema, keyword of an object class, attribute assignment, check, convert, '
        'validate). Non-trivial: the value is converted, or it is decided by a constraint (accepted or rejected).')
ASSUMPTIONS = ['values carrying expressions or templates are the domain of P02',
               'float/Decimal NaN and infinities are outside of the domain']

REJECTED = object()


# ---------------------------------------------------------------- reference
def ref_convert(ty, v):
    if v is None:
        return None
    if ty == 'integer':
        if isinstance(v, int):
            return v
        if isinstance(v, (float, Decimal)):
            return int(v)
        if isinstance(v, str):
            if re.match(r'^\s*[+-]?\d+\s*$', v):
                return int(v)
        return REJECTED
    if ty == 'number':
        if isinstance(v, (int, float, Decimal)):
            return Decimal(v)
        if isinstance(v, str) and re.match(r'^\s*[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?\s*$', v):
            return Decimal(v)
        return REJECTED
    if ty == 'boolean':
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            return {'true': True, 'false': False}.get(v.lower(), REJECTED)
        if isinstance(v, int) and v in (0, 1):
            return bool(v)
        return REJECTED
    if ty == 'string':
        return v if isinstance(v, str) else str(v)


def num_eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
    return a == b


def ref_valid(sch, v):
    """does the converted value satisfy the constraints"""
    if v is None:
        return True
    if isinstance(v, (int, Decimal)) and (not isinstance(v, bool) or sch['type'] != 'boolean'):
        f = Fraction(v)
        if 'minimum' in sch and f < Fraction(sch['minimum']):
            return False
        if 'maximum' in sch and f > Fraction(sch['maximum']):
            return False
        if 'exclusiveMinimum' in sch and f <= Fraction(sch['exclusiveMinimum']):
            return False
        if 'exclusiveMaximum' in sch and f >= Fraction(sch['exclusiveMaximum']):
            return False
        if 'multipleOf' in sch and (f / Fraction(sch['multipleOf'])).denominator != 1:
            return False
    if isinstance(v, str):
        if 'minLength' in sch and len(v) < sch['minLength']:
            return False
        if 'maxLength' in sch and len(v) > sch['maxLength']:
            return False
        if 'pattern' in sch and not re.search(sch['pattern'], v):
            return False
    # json-schema: true is not 1
    if 'enum' in sch and not any(v == x and isinstance(v, bool) == isinstance(x, bool) for x in sch['enum']):
        return False
    if 'const' in sch and (v != sch['const'] or isinstance(v, bool) != isinstance(sch['const'], bool)):
        return False
    return True


def ref_evaluate(sch, v, convert=True, validate=True):
    if v is None and sch.get('default') is not None:
        v = sch['default']
    if v is None:
        return None
    if convert:
        v = ref_convert(sch['type'], v)
        if v is REJECTED:
            return REJECTED
    if validate and not ref_valid(sch, v):
        return REJECTED
    return v


# ---------------------------------------------------------------- generators
def gen_number_bound(d, ty):
    if ty == 'integer' or d.bool(0.5):
        return d.int(-6, 6)
    return d.int(-24, 24) / 4.0


PATTERNS = ['^a', 'b$', '^[ab]*$', 'a.c', r'^\d+$', '^(ab|cd)+$', 'c?d', '^.{2,3}$']


def gen_schema(d, ty=None):
    ty = ty or d.choice(['integer', 'number', 'string', 'boolean'])
    s = {'type': ty}
    if ty in ('integer', 'number'):
        if d.bool(0.4):
            s['minimum'] = gen_number_bound(d, ty)
        if d.bool(0.4):
            s['maximum'] = gen_number_bound(d, ty)
        if d.bool(0.2):
            s['exclusiveMinimum'] = gen_number_bound(d, ty)
        if d.bool(0.2):
            s['exclusiveMaximum'] = gen_number_bound(d, ty)
        if d.bool(0.25):
            s['multipleOf'] = d.choice([2, 3, 5] if ty == 'integer' or d.bool() else [0.5, 0.25, 1.5])
    elif ty == 'string':
        if d.bool(0.35):
            s['minLength'] = d.int(0, 4)
        if d.bool(0.35):
            s['maxLength'] = d.int(0, 5)
        if d.bool(0.35):
            s['pattern'] = d.choice(PATTERNS)
    if d.bool(0.12):
        s['const'] = gen_member(d, ty)
    if d.bool(0.2):
        s['default'] = gen_member(d, ty)
    return s


def gen_member(d, ty):
    """a value of the type"""
    if ty == 'integer':
        return d.int(-8, 8)
    if ty == 'number':
        return d.int(-32, 32) / 4.0 if d.bool() else d.int(-8, 8)
    if ty == 'boolean':
        return d.bool()
    return gen_string(d)


def gen_string(d):
    return d.text('abcd1 é', 0, 6)


def gen_value(d, ty):
    kind = d.weighted((30, 'member'), (20, 'str'), (8, 'junk'), (10, 'int'), (8, 'float'), (6, 'decimal'),
                      (6, 'bool'), (4, 'none'), (4, 'coll'))
    if kind == 'member':
        return gen_member(d, ty)
    if kind == 'str':
        if ty == 'boolean':
            return d.choice(['true', 'false', 'True', 'FALSE', 'tRuE', 'fAlse', 'yes', '1', '0', 'truee', '', ' true', 'false ', 'fal', 'on', 'T'])
        m = str(gen_member(d, ty))
        return m if not d.bool(0.2) else d.choice([' %s', '%s ', '+%s', '0%s', '%s.0', '%se1']) % m
    if kind == 'junk':
        return d.choice(['abc', '1a', '--1', '', ' ', '1,2', 'None', '1.5', '0x10'])
    if kind == 'int':
        return d.int(-9, 9)
    if kind == 'float':
        return d.int(-40, 40) / 8.0
    if kind == 'decimal':
        return Decimal(d.int(-4000, 4000)) / Decimal(100)
    if kind == 'bool':
        return d.bool()
    if kind == 'none':
        return None
    return d.choice([[], {}, [1], {'a': 1}, ['a', 'b']])


PYTYPES = {'integer': int, 'number': Decimal, 'boolean': bool, 'string': str}
TYPES = {'integer': types.Integer, 'number': types.Number, 'boolean': types.Boolean, 'string': types.String}


def compare(got, want, kind, what):
    """got: outcome(); want: reference"""
    if want is REJECTED:
        require(got[0] == 'reject', kind, lambda: '%s returned %r instead of being rejected' % (what, got[1]))
    else:
        require(got[0] == 'ok', kind, lambda: '%s was rejected (%s), expected %r' % (what, str(got[1])[:200], want))
        require(num_eq(got[1], want) and (want is None) == (got[1] is None),
                kind, lambda: '%s returned %r, expected %r' % (what, got[1], want))


def prop_scalar(d):
    sch = gen_schema(d)
    ty = sch['type']
    v = gen_value(d, ty)
    if ty == 'integer' and isinstance(v, str) and '_' in v:
        raise Discard()
    mode = d.choice(['instance', 'class', 'class-instance', 'ref-class', 'keyword', 'assign', 'check', 'convert',
                     'validate', 'no-convert', 'no-validate'])
    d.show('%s value=%r via %s' % (sch, v, mode))
    d.note(mode)
    want = ref_evaluate(sch, v)
    if want is REJECTED:
        d.hit('rejected')
    elif type(want) is not type(v) or len(sch) > 1:
        d.hit('converted' if type(want) is not type(v) else 'constrained')
    what = '%s of %r under %r' % (mode, v, sch)
    kws = {k: x for k, x in sch.items() if k != 'type'}
    if mode == 'instance':
        T = TYPES[ty](**kws)
        got = outcome(T, v)
        compare(got, want, 'evaluate', what)
        if got[0] == 'ok' and got[1] is not None:
            require(isinstance(got[1], PYTYPES[ty]), 'python-type', lambda: '%s returned a %s' % (what, type(got[1])))
            compare(outcome(T, got[1]), want, 'idempotence', 'second ' + what)
    elif mode == 'class':
        K = build(sch)
        got = outcome(K.evaluate, v)
        compare(got, want, 'evaluate', what)
        if got[0] == 'ok' and got[1] is not None:
            require(isinstance(got[1], PYTYPES[ty]), 'python-type', lambda: '%s returned a %s' % (what, type(got[1])))
            ser = K.serialize(got[1])
            require(num_eq(ser, want), 'serialize', lambda: 'serialize(%r) gave %r' % (want, ser))
    elif mode == 'class-instance':
        compare(outcome(build(sch), v), want, 'evaluate', what)
    elif mode == 'ref-class':
        base = '%s' % uri()
        name = uid('D')
        load_schema({'$id': base, '$defs': {name: sch}})
        K = build({'$ref': '%s#/$defs/%s' % (base, name)})
        compare(outcome(K.evaluate, v), want, 'evaluate', what)
    elif mode in ('keyword', 'assign'):
        if v is not None or 'default' not in sch:
            C = make_class({'type': 'object', 'additionalProperties': False, 'properties': {'p': sch}})
            if mode == 'keyword':
                compare(outcome(lambda: C(p=v).p), want, 'evaluate', what)
            else:
                def assign():
                    o = C()
                    o.p = v
                    return o.p
                # the default itself has to be acceptable for the empty object to exist
                if 'default' not in sch or ref_evaluate(sch, None) is not REJECTED:
                    compare(outcome(assign), want, 'evaluate', what)
    elif mode == 'check':
        K = build(sch)
        conv = ref_convert(ty, v)
        full = want is not REJECTED
        if v is not None:
            got = K.check(v, convert=True, validate=True)
            require(got is (conv is not REJECTED and ref_valid(sch, conv)), 'check',
                    lambda: 'check(convert, validate) of %r under %r is %r' % (v, sch, got))
            got = K.check(v, convert=True)
            require(got is (conv is not REJECTED), 'check', lambda: 'check(convert) of %r under %r is %r' % (v, sch, got))
            got = K.check(v)
            py = (int, float, Decimal) if ty == 'number' else PYTYPES[ty]
            require(got is isinstance(v, py), 'check', lambda: 'check of %r under %r is %r' % (v, sch, got))
    elif mode == 'convert':
        if v is None:
            raise Discard()
        K = build(sch)
        compare(outcome(K.convert, v), ref_convert(ty, v), 'convert', what)
    elif mode == 'validate':
        conv = ref_convert(ty, v)
        if conv is not REJECTED and conv is not None:
            K = build(sch)
            compare(outcome(K.validate, conv), conv if ref_valid(sch, conv) else REJECTED, 'validate', what)
    elif mode == 'no-convert':
        conv = ref_convert(ty, v)
        if conv is not REJECTED and conv is not None:
            compare(outcome(TYPES[ty](**kws), conv, convert=False), ref_evaluate(sch, conv, convert=False),
                    'evaluate', what)
    elif mode == 'no-validate':
        compare(outcome(TYPES[ty](**kws), v, validate=False), ref_evaluate(sch, v, validate=False), 'evaluate', what)


# ---------------------------------------------------------------- enumerations
def ref_enum(enum, v):
    if v is None:
        return enum[0]
    if isinstance(v, str) and v in enum:
        return v
    i = ref_convert('integer', v) if not isinstance(v, (float, Decimal)) else v
    if i is not REJECTED and isinstance(i, int):
        if i in enum:
            return i
        if -len(enum) <= i < len(enum):
            return enum[i]
        return REJECTED
    if v == '':
        return enum[0]
    return REJECTED


def prop_enum(d):
    ty = d.choice(['string', 'integer', None])
    if ty == 'integer':
        enum = sorted(set(d.list(lambda d: d.int(10, 20), 1, 5)))
        enum = d.shuffle(enum)
    else:
        enum = []
        for x in d.list(lambda d: d.text('abcXY', 1, 3), 1, 5):
            if x not in enum:
                enum.append(x)
    v = d.weighted((4, 'member'), (3, 'index'), (2, 'other'))
    if v == 'member':
        v = d.choice(enum)
        if ty == 'integer' and d.bool(0.3):
            v = str(v)
    elif v == 'index':
        v = d.int(-7, 6)
        if d.bool(0.4):
            v = str(v)
    else:
        v = d.choice(['zz', 'q', '', None, 'a b', 99])
    mode = d.choice(['instance', 'class', 'property'])
    d.show('enum %r type=%r value=%r via %s' % (enum, ty, v, mode))
    want = ref_enum(enum, v)
    d.hit('rejected' if want is REJECTED else 'accepted')
    what = '%s of %r in enum %r' % (mode, v, enum)
    sch = {'enum': enum}
    if ty:
        sch['type'] = ty
    if mode == 'instance':
        compare(outcome(types.Enum(enum=enum), v), want, 'enum', what)
    elif mode == 'class':
        compare(outcome(build(sch).evaluate, v), want, 'enum', what)
    else:
        if v is None:
            return
        C = make_class({'type': 'object', 'properties': {'p': sch}})
        compare(outcome(lambda: C(p=v).p), want, 'enum', what)


# ---------------------------------------------------------------- the caller's environment
def prop_decimal_context(d):
    import decimal
    vals = d.list(lambda d: d.int(-40, 40), 1, 4)
    prec = d.int(13, 40)
    number_prec = d.int(2, 20)
    d.show('Number(precision=%d) evaluates %r under a caller precision of %d' % (number_prec, vals, prec))
    d.hit()
    with decimal.localcontext() as ctx:
        ctx.prec = prec
        T = types.Number(precision=number_prec)
        for v in vals:
            T(v)
        build({'type': 'number'}).evaluate(vals[0])
        require(decimal.getcontext().prec == prec, 'decimal-context',
                lambda: 'evaluating a number changed the precision of the caller from %d to %d' % (
                    prec, decimal.getcontext().prec))


TESTS = [
    Test('scalar', prop_scalar, 6000),
    Test('enum', prop_enum, 1500),
    Test('decimal_context', prop_decimal_context, 200),
]
