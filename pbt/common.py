# -*- coding: utf-8 -*-
"""Shared access to the code under test."""
import itertools
import logging

logging.disable(logging.CRITICAL)

import ngoschema  # noqa
from ngoschema import type_builder
from ngoschema.exceptions import InvalidValue, ConversionError, ValidationError
from ngoschema.protocols import SchemaMetaclass, ObjectProtocol, ArrayProtocol, with_metaclass
from ngoschema.loaders.schemas import load_schema
import jsonschema

from .engine import Violation, Discard, require, equal, Test

logging.disable(logging.CRITICAL)

#: how the library says that a value is not acceptable
REJECT = (ValueError, jsonschema.exceptions.ValidationError)
#: how a schema-built object says that an access or a modification is not allowed
DENY = (ValueError, jsonschema.exceptions.ValidationError, KeyError, AttributeError)

_counter = itertools.count()


def uid(prefix='T'):
    """a fresh identifier: types and documents are registered for the life of the process"""
    return '%s%d' % (prefix, next(_counter))


def uri():
    return 'https://verif.test/%s' % uid('s')


def build(schema, name=None):
    """build a type from a schema, under a fresh id"""
    return type_builder.build('%s#/$defs/%s' % (uri(), name or uid('K')), schema)


def make_class(schema, bases=(), name=None, **attrs):
    """declare a class the documented way: with the schema metaclass"""
    attrs['_schema'] = schema
    return SchemaMetaclass(name or uid('Cls'), tuple(bases), attrs)


def outcome(fn, *args, **kw):
    """('ok', value) or ('reject', exception class name) - any other exception is left to propagate"""
    try:
        return 'ok', fn(*args, **kw)
    except REJECT as er:
        return 'reject', er
