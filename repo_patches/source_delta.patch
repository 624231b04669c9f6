From bed0498f443afd0ee28f991caf16ca6a0b08903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:39 +0000
Subject: [PATCH 001/160] fix: Symbol: look builtins up with vars(builtins),
 importlib.__builtins__ is not a dict on PyPy

---
 ngoschema/types/symbols.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 9eedeef..7b3a98b 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
+import builtins
 import importlib
 import inspect
 import types
@@ -25,7 +26,7 @@ class Symbol(Primitive):
     """
     DOT = re.compile(r"\.")
     _pyType = None
-    _builtins = importlib.__builtins__
+    _builtins = vars(builtins)
 
     @staticmethod
     def _convert(self, value, **opts):
-- 
2.43.0


From c786346d7f23fe6f424fc7b4b67748f73fd18e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 002/160] fix: Enum: reject an index equal to the size of the
 enum and values which are not strings

---
 ngoschema/types/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 9ba2485..48b6872 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -102,6 +102,7 @@ class Enum(Primitive):
         from .numerics import Integer
         from .strings import String
         enum = self._enum
+        s = value
         if String.check(value):
             s = String.convert(value, **opts)
             if s in enum:
@@ -110,7 +111,7 @@ class Enum(Primitive):
             i = Integer.convert(value)
             if i in enum:
                 return i
-            if i > len(enum):
+            if i >= len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-- 
2.43.0


From d3cf1b0fafe8750994169b64544e9e84434afd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 003/160] fix: Number: evaluate in a local decimal context
 instead of changing the one of the caller

---
 ngoschema/types/numerics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/numerics.py b/ngoschema/types/numerics.py
index 737bbdf..d8cc5a6 100644
--- a/ngoschema/types/numerics.py
+++ b/ngoschema/types/numerics.py
@@ -47,8 +47,8 @@ class Number(Numeric):
 
     @staticmethod
     def _evaluate(self, value, **opts):
-        decimal.setcontext(self._dcmContext)
-        return Primitive._evaluate(self, value, **opts)
+        with decimal.localcontext(self._dcmContext):
+            return Primitive._evaluate(self, value, **opts)
 
 
 @register_type('integer')
-- 
2.43.0


From 9738320a0cd5dacd42bc8c000778de3cc606e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 004/160] fix: multipleOf: a Decimal can not be divided by a
 float factor

---
 ngoschema/managers/jsch_validators.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/jsch_validators.py b/ngoschema/managers/jsch_validators.py
index a96da66..38dab10 100644
--- a/ngoschema/managers/jsch_validators.py
+++ b/ngoschema/managers/jsch_validators.py
@@ -2,6 +2,8 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+from decimal import Decimal
+
 from jsonschema import _validators
 from jsonschema.validators import create
 
@@ -36,7 +38,6 @@ jsch_validators_registry.register('minItems')(_validators.minItems)
 jsch_validators_registry.register('minLength')(_validators.minLength)
 jsch_validators_registry.register('minProperties')(_validators.minProperties)
 jsch_validators_registry.register('minimum')(_validators.minimum)
-jsch_validators_registry.register('multipleOf')(_validators.multipleOf)
 jsch_validators_registry.register('oneOf')(_validators.oneOf)
 jsch_validators_registry.register('not')(_validators.not_)
 jsch_validators_registry.register('pattern')(_validators.pattern)
@@ -51,6 +52,14 @@ jsch_validators_registry.register('definitions')(_validators.properties)
 jsch_validators_registry.register('$defs')(_validators.properties)
 
 
+@jsch_validators_registry.register('multipleOf')
+def multiple_of(validator, dB, instance, schema):
+    # a Decimal can not be divided by a float
+    if isinstance(dB, float) and isinstance(instance, Decimal):
+        dB = Decimal(str(dB))
+    return _validators.multipleOf(validator, dB, instance, schema)
+
+
 @jsch_validators_registry.register('$recursiveRef')
 def recursive_ref(validator, ref, instance, schema):
     resolve = getattr(validator.resolver, "resolve", None)
-- 
2.43.0


From 75808379ecb7a1bc37af6491234082e12f729519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 005/160] fix: Boolean: evaluate expressions and templates like
 the other primitive types

---
 ngoschema/types/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/boolean.py b/ngoschema/types/boolean.py
index 1f8415f..00cfe69 100644
--- a/ngoschema/types/boolean.py
+++ b/ngoschema/types/boolean.py
@@ -42,7 +42,7 @@ class Boolean(Primitive):
         if Boolean.check(value):
             return value
         if String.check(value):
-            value = value.lower()
+            value = String.convert(value, **opts).lower()
             if value in self._TRUES:
                 return True
             if value in self._FALSES:
-- 
2.43.0


From 1c5c57ed5dddd096410ba8c03880265e3ba625ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:10 +0000
Subject: [PATCH 006/160] fix: Enum: evaluate expressions with the context
 given

---
 ngoschema/types/type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 48b6872..96cdeab 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -104,11 +104,11 @@ class Enum(Primitive):
         enum = self._enum
         s = value
         if String.check(value):
-            s = String.convert(value, **opts)
+            s = String.convert(value, context=context, **opts)
             if s in enum:
                 return s
-        if Integer.check(value, convert=True):
-            i = Integer.convert(value)
+        if Integer.check(s, convert=True):
+            i = Integer.convert(s)
             if i in enum:
                 return i
             if i >= len(enum):
-- 
2.43.0


From b0b9406f327213e946bf5e3425fa212672340709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 007/160] fix: get_jinja2_variables: detect the variables of
 blocks and compound expressions, accept literals

---
 ngoschema/utils/jinja2.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index eddeea3..42c132a 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -16,6 +16,8 @@ from builtins import str
 
 import inflection
 import jinja2
+import jinja2.meta
+import jinja2.nodes
 import jinja2.parser
 from slugify import slugify as _slugify
 
@@ -84,13 +86,23 @@ def get_jinja2_variables(source, remove_this=True):
                 vars.append(''.join(var))
                 var = []
                 continue
-            if t.type == 'integer' and var[-1] == '.':
+            if t.type == 'integer' and var and var[-1] == '.':
                 var.pop(-1)
                 var.append(f'[{t.value}]')
             else:
-                var.append(t.value)
-    return vars if not remove_this \
-        else [v.replace('this.', '').replace('self.', '') for v in vars]
+                var.append(str(t.value))
+    if remove_this:
+        vars = [re.sub(r'^(this|self)\.', '', v) for v in vars]
+    # variables used in blocks and in compound expressions
+    try:
+        ast = env.parse(source)
+    except jinja2.TemplateSyntaxError:
+        return vars
+    names = jinja2.meta.find_undeclared_variables(ast).difference(['this', 'self'], env.globals)
+    names.update(n.attr for n in ast.find_all(jinja2.nodes.Getattr)
+                 if isinstance(n.node, jinja2.nodes.Name) and n.node.name in ['this', 'self'])
+    roots = set(re.split(r'[.\[]', re.sub(r'^(this|self)\.', '', v))[0] for v in vars)
+    return vars + sorted(names.difference(roots))
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From fd6eec70e6cba695dee27b89c4c4bf2984c25170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 008/160] fix: Enum: reject a negative index below the size of
 the enum

---
 ngoschema/types/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 96cdeab..32f090b 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -111,7 +111,7 @@ class Enum(Primitive):
             i = Integer.convert(s)
             if i in enum:
                 return i
-            if i >= len(enum):
+            if not -len(enum) <= i < len(enum):
                 raise ConversionError('Index %i exceeds enum size of %r' % (i, enum))
             return enum[i]
 
-- 
2.43.0


From 03c31514b9b4255ae226cfc9ab5999d5d555a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 009/160] fix: Date, Time: raise InvalidValue for values which
 are not a date or a time

---
 ngoschema/types/datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index 532600b..c1f9255 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -41,7 +41,8 @@ class Date(Primitive):
         if value is None:
             return value
         if isinstance(value, (arrow.Arrow, datetime.datetime)):
-            assert value.time() == datetime.time(0, 0), value.time()
+            if value.time() != datetime.time(0, 0):
+                raise InvalidValue("{0} is not a date: {1}".format(value, value.time()))
             return value.date()
         if isinstance(value, datetime.date):
             return value
@@ -60,7 +61,7 @@ class Date(Primitive):
                     return a.date()
                 except Exception:
                     pass
-        raise InvalidValue("{0} is not detected as a date: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a date".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
@@ -87,7 +88,8 @@ class Time(Primitive):
         if isinstance(value, datetime.time):
             return value
         if isinstance(value, (datetime.datetime, arrow.Arrow)):
-            assert value.date() == datetime.date(1, 1, 1)
+            if value.date() != datetime.date(1, 1, 1):
+                raise InvalidValue("{0} is not a time: {1}".format(value, value.date()))
             return value.time()
         if String.check(value, **opts):
             value = String.convert(value, **opts)
@@ -100,7 +102,7 @@ class Time(Primitive):
                 return a.time()
             except Exception:
                 pass
-        raise InvalidValue("{0} is not detected as a time: {1}".format(value))
+        raise InvalidValue("{0} is not detected as a time".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From 6aeac4d678aa9350cc6189a76e66cab12a9a030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 010/160] fix: Datetime: convert back its own ISO
 serialization, keep the timezone, reject values which are not strings

---
 ngoschema/types/datetime.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/datetime.py b/ngoschema/types/datetime.py
index c1f9255..3a08461 100644
--- a/ngoschema/types/datetime.py
+++ b/ngoschema/types/datetime.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import datetime
+import re
 import arrow
 
 from ..exceptions import ValidationError, InvalidValue
@@ -12,6 +13,10 @@ from .strings import String
 from .. import settings
 
 
+# separated by a T, as serialized by isoformat
+ISO_DATETIME_RE = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}')
+
+
 def _dt_serialize(cls, value, **opts):
     format = opts.get('format') or cls._schema.get('format')
     format = settings.DATETIME_FORMATS.get(format, format)
@@ -137,12 +142,15 @@ class Datetime(Date, Time):
                     return arrow.utcnow()
                 if value in settings.DATE_TODAY_STRINGS:
                     return arrow.get(arrow.utcnow().date())
+                if ISO_DATETIME_RE.match(value):
+                    return arrow.get(value)
                 a_d = arrow.get(value, settings.DATE_FORMATS + settings.ALT_DATE_FORMATS)
                 a_t = arrow.get(value, settings.ALT_TIME_FORMATS)
-                dt = datetime.datetime.combine(a_d.date(), a_t.time())
+                dt = datetime.datetime.combine(a_d.date(), a_t.timetz())
                 return arrow.get(dt)
         except Exception as er:
             raise InvalidValue("{0} is not detected as a datetime: {1}".format(value, str(er)))
+        raise InvalidValue("{0} is not detected as a datetime".format(value))
 
     @staticmethod
     def _serialize(self, value, **opts):
-- 
2.43.0


From d7485c6520ad21894ec794318e23ecd155459761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 011/160] fix: time formats: look for AM/PM formats first, they
 were read as the time of the morning

---
 ngoschema/config/settings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/config/settings.py b/ngoschema/config/settings.py
index 67e9b4a..b4d01d1 100644
--- a/ngoschema/config/settings.py
+++ b/ngoschema/config/settings.py
@@ -135,7 +135,10 @@ ALT_DATE_FORMATS = [
     'MM.YYYY',
 ]
 
+# the first format found in a string is used: AM/PM formats have to come first
 ALT_TIME_FORMATS = [
+    'HH:mm:ss A',
+    'HH:mm A',
     'HH:mm:ss.SSSSSS ZZ',
     'HH:mm:ss.SSSSSS',
     'HH:mm:ss.SSS ZZ',
@@ -144,8 +147,6 @@ ALT_TIME_FORMATS = [
     'HH:mm:ss ZZ',
     'HH:mm:ss',
     'HH:mm',
-    'HH:mm:ss A',
-    'HH:mm A',
 ]
 
 DATETIME_FORMATS = {
-- 
2.43.0


From d7ef8a1455b518453ae6f6b4321025c46111dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 012/160] fix: name anonymous item types with a counter, ids of
 collected instances are reused and gave the items of another type

---
 ngoschema/types/array.py      | 4 ++--
 ngoschema/types/collection.py | 6 ++++++
 ngoschema/types/object.py     | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6a9ab6e..a08b0b2 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -11,7 +11,7 @@ from ..managers.type_builder import register_type
 from ..protocols.serializer import Serializer
 from .type import Type
 from .constants import _True
-from .collection import CollectionDeserializer, CollectionSerializer, Collection
+from .collection import CollectionDeserializer, CollectionSerializer, Collection, _anonymous_ids
 from .strings import String
 
 
@@ -105,7 +105,7 @@ class Array(Collection, ArraySerializer):
     def __init__(self, items=None, **opts):
         # split the schema to isolate items schema and object schema
         from ..managers.type_builder import type_builder
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(_anonymous_ids)}'
         if isinstance(items, Mapping):
             self._items = type_builder.build(f'{cls_name}/items', items)
         elif isinstance(items, Sequence):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 59e667a..6a4e62e 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import defaultdict
+from itertools import count
 from operator import neg
 
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -11,6 +12,11 @@ from .type import Type
 from .constants import _True
 
 
+# used to name the anonymous types of items: types are registered by name for the life of the process, and
+# the id of an instance can be reused after it is collected
+_anonymous_ids = count()
+
+
 class CollectionDeserializer(Deserializer):
     _collType = None
     _many = True
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 0b233c7..1feaa43 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -14,7 +14,7 @@ from ..protocols.serializer import Serializer
 from .constants import _True, _False
 from .type import Type
 from .strings import Pattern
-from .collection import CollectionDeserializer, CollectionSerializer, Collection
+from .collection import CollectionDeserializer, CollectionSerializer, Collection, _anonymous_ids
 
 
 class ObjectDeserializer(CollectionDeserializer):
@@ -126,7 +126,7 @@ class Object(Collection, ObjectSerializer):
                  **opts):
         # split the schema to isolate properties schema and object schema
         Collection.__init__(self, **opts)
-        cls_name = f'{self.__class__.__name__}_{id(self)}'
+        cls_name = f'{self.__class__.__name__}_{next(_anonymous_ids)}'
         if properties:
             ps = OrderedDict(self._properties)
             properties = untype_schema(properties)
-- 
2.43.0


From 7161b92f1f2c2f7293ed25e94f46aa64255f7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 013/160] fix: Array: enforce maxItems and uniqueItems, the
 error was built and not raised

---
 ngoschema/types/array.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index a08b0b2..6105156 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -4,7 +4,7 @@ from __future__ import unicode_literals
 
 from collections import Mapping, Sequence, deque, OrderedDict
 
-from ..exceptions import ValidationError, ConversionError
+from ..exceptions import InvalidValue, ConversionError
 from ..utils import ReadOnlyChainMap as ChainMap
 from ..decorators import log_exceptions
 from ..managers.type_builder import register_type
@@ -57,10 +57,13 @@ class ArrayDeserializer(CollectionDeserializer):
     @staticmethod
     def _validate(self, value, **opts):
         value = CollectionDeserializer._validate(self, value, **opts)
+        if self._maxItems is not None and len(value) > self._maxItems:
+            raise InvalidValue('%s has more than %i items.' % (value, self._maxItems))
         if self._uniqueItems:
-            hashes = set([hash(v) for v in value])
-            if len(hashes) != len(value):
-                ValidationError('Duplicate items in %s.' % value)
+            # missing items are filled with None
+            items = [v for v in value if v is not None]
+            if any(v in items[:i] for i, v in enumerate(items)):
+                raise InvalidValue('Duplicate items in %s.' % value)
         return value
 
     @staticmethod
-- 
2.43.0


From f71e1d54e1eb78bd78e9222443d90761f2e75662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 014/160] fix: Array: keep all the items given as positional
 arguments

---
 ngoschema/types/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 6105156..8630e4b 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -120,7 +120,7 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = value or list(values)  # to allow initialization by varargs
+        value = [value, *values] if values else value or []  # to allow initialization by varargs
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From e9d6f79adb0d0e69bf374926de5fe48c7aa125e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 015/160] fix: ArrayProtocol.insert: validate the array instead
 of the value, use the position of list.insert, drop a rejected item

---
 ngoschema/protocols/array_protocol.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index a58cf6a..2d7108c 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -73,15 +73,23 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
         return len(self._data)
 
     def insert(self, item, value):
+        # same position as the one used by lists, which is used afterwards to evaluate the item
+        item = max(0, item + len(self)) if item < 0 else min(item, len(self))
         self._itemsInputs.insert(item, {})
         self._dataValidated.insert(item, None)
         self._data.insert(item, value)
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
-        elif isinstance(value, TypeProtocol):
-            value.set_context(self._context)
-        self._validate(self, value, items=False)
+        try:
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+            elif isinstance(value, TypeProtocol):
+                value.set_context(self._context)
+            self._validate(self, self, items=False)
+        except Exception:
+            # the item is rejected
+            for items in (self._itemsInputs, self._dataValidated, self._data):
+                del items[item]
+            raise
 
     def _str_list(self):
         if self._str is None:
-- 
2.43.0


From 15fdeab48c8a95184f5491674e27dfef3498aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 016/160] fix: collections: a rejected item leaves the previous
 one, a lazy item assigned after being read is evaluated again

---
 ngoschema/protocols/collection_protocol.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index aa57d40..73025b7 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -142,10 +142,17 @@ class CollectionProtocol(Collection):
         return t._serialize(t, v, **opts)
 
     def __setitem__(self, item, value):
+        previous = self._data[item], self._dataValidated[item], self._itemsInputs[item]
         self._data[item] = value
-        if not self._lazyLoading:
-            self._itemsInputs[item] = self._items_inputs_evaluate(item)
-            self._set_dataValidated(item, self._items_evaluate(item))
+        self._dataValidated[item] = None
+        try:
+            if not self._lazyLoading:
+                self._itemsInputs[item] = self._items_inputs_evaluate(item)
+                self._set_dataValidated(item, self._items_evaluate(item))
+        except Exception:
+            # the value is rejected
+            self._data[item], self._dataValidated[item], self._itemsInputs[item] = previous
+            raise
 
     def __getitem__(self, item):
         if self._dataValidated[item] is None:
-- 
2.43.0


From 6f7ee1377e08cce6dc62c45648b2c1b06158d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 017/160] fix: collections: compare mappings by keys instead of
 indexes

---
 ngoschema/protocols/collection_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 73025b7..21b3569 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
+from collections import Mapping
 from abc import abstractmethod
 from operator import neg
 
@@ -222,7 +223,9 @@ class CollectionProtocol(Collection):
             return False
         if len(self) != len(other):
             return False
-        for i, v in enumerate(other):
+        if isinstance(other, Mapping) and set(self) != set(other):
+            return False
+        for i, v in other.items() if isinstance(other, Mapping) else enumerate(other):
             if self[i] != v:
                 return False
         return True
-- 
2.43.0


From e83501295e81228ac80207ac794bc3b42d2d3e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 018/160] fix: Array: as_string joins serialized items,
 whatever their type, with the delimiter

---
 ngoschema/types/array.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 8630e4b..e249d77 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -84,12 +84,9 @@ class ArraySerializer(CollectionSerializer, ArrayDeserializer):
         return range(len(value))
 
     @staticmethod
-    def _serialize(self, value, as_string=False, **opts):
+    def _serialize(self, value, **opts):
         value = CollectionSerializer._serialize(self, value, **opts)
-        value = self._collType([value[k] for k in self._print_order(self, value, **opts)])
-        if as_string:
-            value = self._strDelimiter.join([String.serialize(v, **opts) for v in value])
-        return value
+        return self._collType([value[k] for k in self._print_order(self, value, **opts)])
 
 
 @register_type('array')
@@ -189,6 +186,12 @@ class Array(Collection, ArraySerializer):
         value = Collection._validate(self, value, items=items, excludes=excludes, **opts)
         return value
 
+    @staticmethod
+    def _serialize(self, value, as_string=False, **opts):
+        value = Collection._serialize(self, value, **opts)
+        # items have to be serialized before they can be joined
+        return self._strDelimiter.join([str(v) for v in value]) if as_string else value
+
     @staticmethod
     def _inputs(self, value, items=False, **opts):
         inputs = set()
-- 
2.43.0


From e9402e36f8ab866dfac58658761ee5b9da6aa892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 019/160] fix: Object: extend the pattern properties of the
 type with the ones given to an instance

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 1feaa43..d80a31e 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -134,7 +134,7 @@ class Object(Collection, ObjectSerializer):
                                    for name, sch in properties.items()]))
             self._properties = ps
         if patternProperties:
-            pps = set(self.patternProperties)
+            pps = set(self._propertiesPattern)
             pps.update([(re.compile(k), type_builder.build(
                 f'{cls_name}/patternProperties/{k}', v)) for k, v in patternProperties.items()])
             self._propertiesPattern = pps
-- 
2.43.0


From 5ac635a1874f6ccc68b67de9cc98022c6c1a72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 020/160] fix: Object: do not insert the context in the items
 given as keywords

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index d80a31e..c00e232 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -145,7 +145,7 @@ class Object(Collection, ObjectSerializer):
         self._items_type_cache = {}
 
     def __call__(self, value=None, **opts):
-        value = value or opts  # to allow initialization by keywords
+        value = value or dict(opts)  # to allow initialization by keywords, the context added below is not an item
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
-- 
2.43.0


From 0fbe3ae0911b31b241cdfb1e40728ec18b591798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 021/160] fix: Object: serialize a plain object type with the
 properties of the instance

---
 ngoschema/types/collection.py | 2 +-
 ngoschema/types/object.py     | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 6a4e62e..e956c1d 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -123,7 +123,7 @@ class Collection(Type, CollectionSerializer):
         opts.setdefault('no_defaults', True)
         ret = value = self._serializer._serialize(self, value, only=only, **opts)
         if items:
-            ret = self.null(value, only=only, **opts)
+            ret = self._null(self, value, only=only, **opts)
             for k, t in self._items_types(self, ret):
                 if self._is_included(k, value, only=only, **opts):
                     v = value[k]
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index c00e232..a7800e3 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -114,6 +114,8 @@ class Object(Collection, ObjectSerializer):
     _propertiesPattern = set()
     _propertiesAdditional = _True()
     _propertiesWithDefault = set()
+    _aliases = {}
+    _aliasesNegated = {}
 
     @classmethod
     def is_object(cls):
-- 
2.43.0


From 62e87be43d3d7c838479afb6d04654597c1ea988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 022/160] fix: ObjectProtocol: do not share the cache of
 translated names of a class with its subclasses

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 022d9c1..384bf86 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -259,7 +259,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     __properties_raw_trans = None
     @classmethod
     def _properties_raw_trans(cls, name):
-        if cls.__properties_raw_trans is None:
+        # each class has its own cache: names of a base class can be redefined, translated or aliased in a subclass
+        if '_ObjectProtocol__properties_raw_trans' not in cls.__dict__:
             cls.__properties_raw_trans = {}
         cached = cls.__properties_raw_trans.get(name)
         if cached:
-- 
2.43.0


From a1eb000727e94bd529605226e9f3a0f7aa7e9f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 023/160] fix: ObjectProtocol: negate the values read through a
 negated alias, the name tested was the one of the property

---
 ngoschema/protocols/object_protocol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 384bf86..1a07dbf 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -295,7 +295,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             if name not in self._propertiesAllowed:
                 return MutableMapping.__getattribute__(self, name)
                 return self.__dict__[name]
-        op = lambda x: neg(x) if name in self._aliasesNegated else x
+        negated = name in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         name = self._aliasesNegated.get(name, name)
         name = self._aliases.get(name, name)
         raw = self._propertiesTranslation.get(name, name)
@@ -397,7 +398,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._relationshipsDescriptor.get(key)
         if desc:
             return desc.__get__(self)
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        negated = key in self._aliasesNegated
+        op = lambda x: neg(x) if negated and x is not None else x
         key = self._aliasesNegated.get(key, key)
         key = self._aliases.get(key, key)
         raw, trans = self._properties_raw_trans(key)
@@ -412,7 +414,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         return op(self._dataValidated[key])
 
     def __setitem__(self, key, value):
-        op = lambda x: neg(x) if key in self._aliasesNegated else x
+        op = lambda x: neg(x) if key in self._aliasesNegated and x is not None else x
         if '.' in key:
             parts = split_cname(key) # case: canonical name such as a[0][1].b[0].c
             cur = self
-- 
2.43.0


From f989e166d0b23bde66f4baba637a7ac88a6635f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 024/160] fix: ObjectProtocol: the type of an alias is the type
 of its property

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 1a07dbf..87b1608 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -502,7 +502,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         t = self._items_type_cache.get(item)
         if t is None:
             i = self._aliases.get(item, item)
-            i = self._aliasesNegated.get(item, item)
+            i = self._aliasesNegated.get(i, i)
             t = Object._items_type(self, i)
             self._items_type_cache[item] = t
             if t and hasattr(t, '_proxyUri'):
-- 
2.43.0


From 06667b845235a21bef4ac58f29732fe980c4fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 025/160] fix: split_cname: a relative name gives the list of
 identifiers, not its first empty identifier

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 87b1608..aaca238 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -50,7 +50,7 @@ def split_cname(cname):
         n, indices = parts[0], parts[1:]
         return [n] + [int(i.strip(']')) for i in indices]
     cns = sum([split_part(part) for part in cname.split('.')], [])
-    return cns.pop(0) if cns and not cns[0] else cns
+    return cns[1:] if cns and not cns[0] else cns
 
 
 class PropertyDescriptor:
-- 
2.43.0


From b535854c79c4b1b3faa092c115626ed787214c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 026/160] fix: ObjectProtocol: resolve the indices of a
 canonical name

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index aaca238..c449aa2 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -389,7 +389,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 return cur
@@ -420,7 +420,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             cur = self
             try:
                 for p in parts[:-1]:
-                    cur = cur[p] if not hasattr(cur, p) else getattr(cur, p)
+                    cur = cur[p] if isinstance(p, int) or not hasattr(cur, p) else getattr(cur, p)
                     if cur is None:
                         return
                 cur[parts[-1]] = value
-- 
2.43.0


From 700d90ec69009012547c8caa6225c2abf18ceb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 027/160] fix: ObjectProtocol: give access to pattern
 properties when additional properties are not allowed

---
 ngoschema/protocols/object_protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index c449aa2..1c4f4fc 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -280,7 +280,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if alias:
             cls.__properties_raw_trans[name] = (alias, name)
             return alias, name
-        if cls._propertiesAdditional:
+        if cls._propertiesAdditional or any(reg.search(name) for reg, _ in cls._propertiesPattern):
             trans = clean_js_name(name)
             cls.__properties_raw_trans[name] = (name, trans)
             return name, trans
@@ -303,7 +303,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return op(desc.__get__(self))
-        if self._propertiesAdditional and name in self._data:
+        if name in self._data:
             self._itemsInputs[raw] = self._items_inputs_evaluate(name)
             self._dataAdditional[raw] = v = op(self[name])
             return v
@@ -431,7 +431,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         desc = self._propertiesDescriptor.get(raw) or self._relationshipsDescriptor.get(raw)
         if desc:
             return desc.__set__(self, op(value))
-        if not self._propertiesAdditional:
+        if raw is None:
             raise KeyError(key)
         v = op(value)
         self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
-- 
2.43.0


From d06c5ebef882817ba45cff3ea8b2711849ae6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 028/160] fix: ObjectProtocol: convert and validate additional
 and pattern properties when they are set

---
 ngoschema/protocols/object_protocol.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 1c4f4fc..70739c5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -433,8 +433,25 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             return desc.__set__(self, op(value))
         if raw is None:
             raise KeyError(key)
-        v = op(value)
-        self._data[key] = self._dataAdditional[key] = self._dataValidated[key] = v
+        # the value is converted and validated by the type of pattern or additional properties
+        storages = (self._data, self._dataAdditional, self._dataValidated, self._itemsInputs)
+        previous = [(s, key in s, s.get(key)) for s in storages]
+        self._data.setdefault(key, None)
+        self._dataValidated.setdefault(key, None)
+        try:
+            self._set_data(key, op(value))
+            self._dataValidated[key] = None
+            if not self._lazyLoading:
+                self._itemsInputs[key] = self._items_inputs_evaluate(key)
+                self._set_dataValidated(key, self._items_evaluate(key))
+            self._dataAdditional[key] = self._dataValidated[key]
+        except Exception:
+            for s, known, v in previous:
+                if known:
+                    s[key] = v
+                else:
+                    s.pop(key, None)
+            raise
 
     def __delitem__(self, key):
         for trans, raw in self._propertiesTranslation.items():
-- 
2.43.0


From a790377958373d912a29651a7ee00bd6156a0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 029/160] fix: ObjectProtocol: a property which has been
 deleted can be set again

---
 ngoschema/protocols/collection_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 21b3569..a162b5c 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -176,7 +176,8 @@ class CollectionProtocol(Collection):
 
     def _set_data(self, item, value):
         t = self._items_type(self, item)
-        orig = self._data[item]
+        # an item which has been deleted can be set again
+        orig = self._data.get(item) if isinstance(self._data, Mapping) else self._data[item]
         # to avoid comparison of objects (often equality which is the longest to validate), only touch for changed primitives
         if t.is_primitive():
             if value != orig:
-- 
2.43.0


From a3da9bb10ad56cca0f2c74d27bd4222ca00dd309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 030/160] fix: ObjectProtocol: deleting an item respects the
 required properties, deleters, aliases and translated names

---
 ngoschema/protocols/object_protocol.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 70739c5..636fdad 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -115,8 +115,8 @@ class PropertyDescriptor:
         if self.fdel:
             self.fdel(obj)
         del obj._data[key]
-        del obj._dataValidated[key]
-        del obj._itemsInputs[key]
+        obj._dataValidated.pop(key, None)
+        obj._itemsInputs.pop(key, None)
 
 
 class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableMapping):
@@ -454,14 +454,20 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             raise
 
     def __delitem__(self, key):
-        for trans, raw in self._propertiesTranslation.items():
-            if key in (trans, raw):
-                delattr(self, trans)
-                break
+        raw, trans = self._properties_raw_trans(key)
+        if raw not in self._data:
+            raise KeyError(key)
+        desc = self._propertiesDescriptor.get(raw)
+        if desc:
+            desc.__delete__(self)
+        elif raw in self._required:
+            raise AttributeError('%s is a required argument.' % raw)
         else:
-            del self._data[key]
-            del self._itemsInputs[key]
-            del self._dataValidated[key]
+            del self._data[raw]
+            self._dataValidated.pop(raw, None)
+            self._dataAdditional.pop(raw, None)
+            self._itemsInputs.pop(raw, None)
+        CollectionProtocol._touch(self)
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
-- 
2.43.0


From d4a3c68db8b755a07e2516e8a5a87a0d710356ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:20 +0000
Subject: [PATCH 031/160] fix: ObjectProtocol: a rejected value leaves the
 previous one

---
 ngoschema/protocols/object_protocol.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 636fdad..5aab79f 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -95,13 +95,24 @@ class PropertyDescriptor:
             key = self.pname
             if key in obj._readOnly:
                 raise AttributeError("'%s' is read only" % key)
-            obj._set_data(key, value)
-            if not obj._lazyLoading:
-                obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
-                iopts = {'validate': False} if key in obj._notValidated else {}
-                obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
-                if self.fset:
-                    self.fset(obj, obj._dataValidated[key])
+            storages = (obj._data, obj._dataValidated, obj._itemsInputs)
+            previous = [(s, key in s, s.get(key)) for s in storages]
+            try:
+                obj._set_data(key, value)
+                if not obj._lazyLoading:
+                    obj._itemsInputs[key] = obj._items_inputs_evaluate(key)
+                    iopts = {'validate': False} if key in obj._notValidated else {}
+                    obj._set_dataValidated(key, obj._items_evaluate(key, **iopts))
+                    if self.fset:
+                        self.fset(obj, obj._dataValidated[key])
+            except Exception:
+                # the value is rejected: keep the previous one
+                for s, known, v in previous:
+                    if known:
+                        s[key] = v
+                    else:
+                        s.pop(key, None)
+                raise
         except Exception as er:
             obj._logger.error(er, exc_info=True)
             raise
-- 
2.43.0


From 70e3649ecd68f2b584975274107143620bd1edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:25 +0000
Subject: [PATCH 032/160] fix: defaults: 0, False and empty strings are proper
 defaults of properties and enums

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 ngoschema/types/object.py            | 4 ++++
 ngoschema/types/type.py              | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index cb6c1c9..01f8432 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -95,7 +95,8 @@ class TypeProtocol(Serializer):
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-        return bool(value or self._default)
+        # falsy values such as 0, False or '' are proper defaults
+        return value is not None or self._default is not None
 
     @classmethod
     def has_default(cls, value=None, **opts):
diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index a7800e3..7c829ee 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -190,6 +190,10 @@ class Object(Collection, ObjectSerializer):
             sch_repr['additionalProperties'] = False
         return sch_repr
 
+    @staticmethod
+    def _has_default(self, value=None, **opts):
+        return bool(value or self._default)
+
     def default(self, value=None, **opts):
         ret = self._collType(value or self._default)
         for k in list(self._propertiesWithDefault):
diff --git a/ngoschema/types/type.py b/ngoschema/types/type.py
index 32f090b..30f52d0 100644
--- a/ngoschema/types/type.py
+++ b/ngoschema/types/type.py
@@ -88,7 +88,7 @@ class Enum(Primitive):
     def __init__(self, **opts):
         Primitive.__init__(self, **opts)
         self._enum = self._schema.get('enum', [])
-        if self._enum and not self._default:
+        if self._enum and self._default is None:
             self._default = self._enum[0]
 
     @staticmethod
-- 
2.43.0


From c88ecc5f99d71993356917d4560da784cbf3dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 033/160] fix: inputs of an item: names starting with this,
 hidden by builtins, of indexed or modified arrays, and of the context of the
 collection

---
 ngoschema/protocols/collection_protocol.py | 37 ++++++++++++++++------
 ngoschema/types/strings.py                 |  4 +--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index a162b5c..f2fee61 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -3,7 +3,8 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 import logging
-from collections import Mapping
+from collections import Mapping, MutableSequence
+import re
 from abc import abstractmethod
 from operator import neg
 
@@ -103,19 +104,37 @@ class CollectionProtocol(Collection):
         t = self._items_type(self, item)
         # treat dependencies
         for k in self._dependencies.get(item, []):
-            try:
-                ret[k] = self[k]
-            except Exception as er:
-                self._logger.error(er, exc_info=True)
+            ret[k] = self._input_value(k)
         # treat data
         if t.is_primitive() and not t._rawLiterals:
             for k in t._inputs(t, self._data[item]):
-                try:
-                    ret[k] = self[k]
-                except Exception as er:
-                    self._logger.error(er, exc_info=True)
+                ret[k] = self._input_value(k)
         return ret
 
+    def _input_value(self, name):
+        """Value of an input of an item: an item of the collection or a variable of its context."""
+        name = re.sub(r'^(this|self)\.', '', name)
+        root = re.split(r'[.\[]', name)[0]
+        value = None
+        try:
+            # the object itself or the first one of its context
+            owner = next((m for m in [self] + self._context.maps_flattened if isinstance(m, CollectionProtocol)
+                          and isinstance(m, Mapping) and m._has_input(root)), None)
+            if owner is None:
+                value = self._context.get(root)
+            else:
+                try:
+                    value = owner[name]
+                except KeyError:
+                    value = owner[root]
+        except Exception as er:
+            self._logger.error(er, exc_info=True)
+        # arrays can be modified afterwards
+        return list(value) if isinstance(value, MutableSequence) else value
+
+    def _has_input(self, name):
+        return self._properties_raw_trans(name)[0] in self._data
+
     def _items_evaluate(self, item, **opts):
         from ..types.constants import _True
         v = self._data[item]
diff --git a/ngoschema/types/strings.py b/ngoschema/types/strings.py
index 0807a58..5b872f6 100644
--- a/ngoschema/types/strings.py
+++ b/ngoschema/types/strings.py
@@ -2,7 +2,6 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
-import builtins
 import numbers
 import decimal
 import logging
@@ -59,7 +58,8 @@ class Expr(String):
 
     @staticmethod
     def _inputs(self, value, **opts):
-        return set(Expr._expr_regex.findall(str(value))).difference(builtins.__dict__)
+        # names of builtins are kept: they can be the names of properties
+        return set(Expr._expr_regex.findall(str(value)))
 
 
 class Pattern(String):
-- 
2.43.0


From 5c3a14afb6783e230b8eee6c8a5e47725d469bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:33 +0000
Subject: [PATCH 034/160] fix: collections: items of arrays are evaluated again
 when the variables they depend on change

---
 ngoschema/protocols/collection_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index f2fee61..139df9c 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -175,7 +175,8 @@ class CollectionProtocol(Collection):
             raise
 
     def __getitem__(self, item):
-        if self._dataValidated[item] is None:
+        if self._dataValidated[item] is None or (isinstance(item, int)
+                and self._itemsInputs[item] != self._items_inputs_evaluate(item)):
             self._itemsInputs[item] = self._items_inputs_evaluate(item)
             self._set_dataValidated(item, self._items_evaluate(item))
         return self._dataValidated[item]
-- 
2.43.0


From 891add8340ce0514b65b0167de9ed226150d6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 035/160] fix: get_jinja2_variables: detect the attributes used
 in compound expressions

---
 ngoschema/utils/jinja2.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 42c132a..c0d27c3 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -99,10 +99,18 @@ def get_jinja2_variables(source, remove_this=True):
     except jinja2.TemplateSyntaxError:
         return vars
     names = jinja2.meta.find_undeclared_variables(ast).difference(['this', 'self'], env.globals)
-    names.update(n.attr for n in ast.find_all(jinja2.nodes.Getattr)
-                 if isinstance(n.node, jinja2.nodes.Name) and n.node.name in ['this', 'self'])
-    roots = set(re.split(r'[.\[]', re.sub(r'^(this|self)\.', '', v))[0] for v in vars)
-    return vars + sorted(names.difference(roots))
+    for n in ast.find_all(jinja2.nodes.Getattr):
+        path = []
+        while isinstance(n, jinja2.nodes.Getattr):
+            path.insert(0, n.attr)
+            n = n.node
+        if isinstance(n, jinja2.nodes.Name) and n.name in ['this', 'self']:
+            names.add('.'.join(path))
+        elif isinstance(n, jinja2.nodes.Name) and n.name in names:
+            names.add('.'.join([n.name] + path))
+    stripped = [re.sub(r'^(this|self)\.', '', v) for v in vars]
+    roots = set(re.split(r'[.\[]', v)[0] for v in stripped if re.match(r'[\w.\[\]]+$', v))
+    return vars + sorted(names.difference(roots, stripped))
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From 2712947e15c90702ed2d6275627aafe90fe6d5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:26 +0000
Subject: [PATCH 036/160] fix: ObjectSerializer: do not add read only
 properties to the list of excludes of the caller and of any other class

---
 ngoschema/types/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/object.py b/ngoschema/types/object.py
index 7c829ee..13a5f42 100644
--- a/ngoschema/types/object.py
+++ b/ngoschema/types/object.py
@@ -89,7 +89,7 @@ class ObjectSerializer(CollectionSerializer, ObjectDeserializer):
         no_defaults = opts.get('no_defaults', self._noDefaults)
         no_readOnly = opts.get('no_readOnly', self._noReadOnly)
         if no_readOnly:
-            excludes += list(self._readOnly)
+            excludes = list(excludes) + list(self._readOnly)  # neither the list of the caller nor the default one
         for k in all_ordered:
             if k in self._required:
                 yield k
-- 
2.43.0


From f8a795729668b45bf26a5d08939ccdb18e36ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 037/160] fix: collections: properties not serialized are the
 ones of the collection itself, not of its items nor of other types

---
 ngoschema/protocols/collection_protocol.py |  1 -
 ngoschema/types/collection.py              | 16 +++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 139df9c..0dff5e6 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -84,7 +84,6 @@ class CollectionProtocol(Collection):
 
     @staticmethod
     def _serialize(self, value, excludes=[], **opts):
-        excludes = list(self._notSerialized.union(excludes))
         return self._collection._serialize(self, value, excludes=excludes, **opts)
 
     def _touch(self):
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index e956c1d..5d6a62f 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -62,8 +62,8 @@ class Collection(Type, CollectionSerializer):
     _items_type_cache = None
 
     def __init__(self, items=None, notValidated=None, notSerialized=None, **opts):
-        self._notValidated.update(notValidated or [])
-        self._notSerialized.update(notSerialized or [])
+        self._notValidated = self._notValidated.union(notValidated or [])
+        self._notSerialized = self._notSerialized.union(notSerialized or [])
         Type.__init__(self, **opts)
         self._items = items or self._items
 
@@ -119,15 +119,17 @@ class Collection(Type, CollectionSerializer):
         return Type._evaluate(self, value, convert=False, validate=validate, **opts)
 
     @staticmethod
-    def _serialize(self, value, items=True, only=[], **opts):
+    def _serialize(self, value, items=True, only=[], excludes=[], **opts):
         opts.setdefault('no_defaults', True)
-        ret = value = self._serializer._serialize(self, value, only=only, **opts)
+        # the properties which are not serialized are the ones of this collection, not of its items
+        not_serialized = list(self._notSerialized.union(excludes))
+        ret = value = self._serializer._serialize(self, value, only=only, excludes=not_serialized, **opts)
         if items:
-            ret = self._null(self, value, only=only, **opts)
+            ret = self._null(self, value, only=only, excludes=not_serialized, **opts)
             for k, t in self._items_types(self, ret):
-                if self._is_included(k, value, only=only, **opts):
+                if self._is_included(k, value, only=only, excludes=not_serialized, **opts):
                     v = value[k]
-                    ret[k] = t._serialize(t, v, **opts)
+                    ret[k] = t._serialize(t, v, excludes=excludes, **opts)
                     #ret[k] = v.do_serialize(**opts) if hasattr(v, 'do_serialize') else t._serialize(t, v, **opts)
         return self._collType(ret)
 
-- 
2.43.0


From 548375fcd4f5cd69a97a128f6fdf0145e11c6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:40 +0000
Subject: [PATCH 038/160] fix: collections: a missing object is serialized as
 missing and not as an empty object

---
 ngoschema/types/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 5d6a62f..04af0c0 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -129,7 +129,8 @@ class Collection(Type, CollectionSerializer):
             for k, t in self._items_types(self, ret):
                 if self._is_included(k, value, only=only, excludes=not_serialized, **opts):
                     v = value[k]
-                    ret[k] = t._serialize(t, v, excludes=excludes, **opts)
+                    # a missing object stays missing
+                    ret[k] = None if v is None and not t.is_primitive() else t._serialize(t, v, excludes=excludes, **opts)
                     #ret[k] = v.do_serialize(**opts) if hasattr(v, 'do_serialize') else t._serialize(t, v, **opts)
         return self._collType(ret)
 
-- 
2.43.0


From a5b6f0efd31fb5c29b428cd0da8d2f50e3525826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 039/160] fix: ObjectProtocol: getters, setters and deleters
 defined for an inherited property were ignored

---
 ngoschema/protocols/object_protocol.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5aab79f..3b42a6c 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -763,10 +763,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 ptype._schema.get('description'))
         # remaining descriptors are properties defined in other bases with local getter/setter/deleter definitions
         for pname, pfun in descriptor_funs.items():
-            ptrans = clean_js_name(pname)
             for b in pbases:
-                if hasattr(b, ptrans) and isinstance(b, PropertyDescriptor):
-                    d = copy.copy(getattr(b.trans))
+                if pname in getattr(b, '_propertiesDescriptor', {}):
+                    d = copy.copy(b._propertiesDescriptor[pname])
                     for k, v in pfun.items():
                         if v is not None:
                             setattr(d, f'f{k}', v)
-- 
2.43.0


From 7ba889dfabd765039c03e21a4df431c8b3b2bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 040/160] fix: TypeBuilder.schema_mro: it is called as a method

---
 ngoschema/managers/type_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 4ed9fbc..f77aea4 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -110,7 +110,7 @@ class TypeBuilder(GenericClassRegistry):
         for error in default_meta_validator.iter_errors(schema):
             raise SchemaError.create_from(error)
 
-    def schema_mro(id, schema=None):
+    def schema_mro(self, id, schema=None):
         schema = schema or resolve_uri(id)
         def _schema_mro(id, sch):
             for e in sch.get('extends', []):
-- 
2.43.0


From 25a255519859becceac5334cf41281f1d928c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:06 +0000
Subject: [PATCH 041/160] fix: ObjectProtocol: keep the accessors of classes
 given by extends when their property is redefined

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3b42a6c..7d46c9d 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -729,7 +729,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 fname = f'{PROP_PREF[prop]}{ptrans}'
                 fun = attrs.get(fname)
                 if not fun:
-                    fun = [getattr(b, fname) for b in bases if hasattr(b, fname)]
+                    fun = [getattr(b, fname) for b in bases + bases_extended if hasattr(b, fname)]
                     fun = None if not fun else fun[0]
                 if fun:
                     insp = inspect_function(fun)
-- 
2.43.0


From d964dbb98bd426f441bad2057b790cf69d515a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 042/160] fix: TypeBuilder.build: a type whose construction
 fails is not under construction any more

---
 ngoschema/managers/type_builder.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index f77aea4..30cc35b 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -80,19 +80,22 @@ class TypeBuilder(GenericClassRegistry):
             return _False()
         attrs = attrs or {}
         self._on_construction[id] = (schema, bases, attrs)
-        if '$ref' in schema:
-            schema = schema.copy()
-            ref = schema.pop('$ref')
-            cls = self.load(scope(ref, id))
-            if schema:
-                cls = cls.extend_type(id, **schema)
-        elif 'object' in schema.get('type', ''):
-            cls = ObjectProtocol.build(id, schema, bases, attrs)
-        elif 'array' in schema.get('type', ''):
-            cls = ArrayProtocol.build(id, schema, bases, attrs)
-        else:
-            cls = TypeProtocol.build(id, schema, bases, attrs)()
-        self._on_construction.pop(id)
+        try:
+            if '$ref' in schema:
+                schema = schema.copy()
+                ref = schema.pop('$ref')
+                cls = self.load(scope(ref, id))
+                if schema:
+                    cls = cls.extend_type(id, **schema)
+            elif 'object' in schema.get('type', ''):
+                cls = ObjectProtocol.build(id, schema, bases, attrs)
+            elif 'array' in schema.get('type', ''):
+                cls = ArrayProtocol.build(id, schema, bases, attrs)
+            else:
+                cls = TypeProtocol.build(id, schema, bases, attrs)()
+        finally:
+            # a construction which fails can be tried again
+            self._on_construction.pop(id, None)
         self._registry[id] = cls
         NamespaceManager.register_ns(id)
         return cls
-- 
2.43.0


From b2db265d2200df09ae0c8e287ee3b4fee29ddb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 043/160] fix: SchemaMetaclass: python bases replaced the
 classes extended by the schema instead of adding to them

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 01f8432..9a8f1f7 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -172,7 +172,8 @@ class SchemaMetaclass(type):
         if not schema and id:
             schema = resolve_uri(id)
         elif bases:
-            schema['extends'] = [b._id for b in bases if hasattr(b, '_id')]
+            extends = [b._id for b in bases if hasattr(b, '_id')]
+            schema['extends'] = extends + [e for e in schema.get('extends', []) if e not in extends]
         schema.setdefault('type', 'object')
         id = id or clsname
         # remove previous entry in registry
-- 
2.43.0


From 48547de156250127e428309111f109e2dcb5f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 044/160] fix: SchemaMetaclass: do not change the schema given
 to declare a class

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 ngoschema/protocols/type_protocol.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 7d46c9d..931ec08 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -558,6 +558,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             logging.warning(er)
             inspect_function = lambda x: {'arguments': []}
         attrs = attrs or {}
+        schema = dict(schema)  # default values are added to it
         cname = default_ns_manager.get_id_cname(id)
         clsname = attrs.pop('_clsname', None) or cname.split('.')[-1]
 
@@ -744,8 +745,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if extra_schema_properties:
             local_properties.update({k: type_builder.build(f'{id}/properties/{k}', sch)
                                      for k, sch in extra_schema_properties.items()})
-            schema.setdefault('properties', {})
-            schema['properties'].update(extra_schema_properties)
+            schema['properties'] = dict(schema.get('properties', {}), **extra_schema_properties)
 
         # create descriptors
         # go through local properties and create descriptors
diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 9a8f1f7..f604b84 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -167,10 +167,10 @@ class SchemaMetaclass(type):
 
     def __new__(cls, clsname, bases, attrs):
         from ..managers.type_builder import type_builder
-        schema = attrs.get('_schema', {})
+        schema = dict(attrs.get('_schema', {}))  # it is completed below, the one of the caller is not changed
         id = attrs.get('_id')
         if not schema and id:
-            schema = resolve_uri(id)
+            schema = dict(resolve_uri(id))
         elif bases:
             extends = [b._id for b in bases if hasattr(b, '_id')]
             schema['extends'] = extends + [e for e in schema.get('extends', []) if e not in extends]
-- 
2.43.0


From 8a8b8f41521d61140fdfd4300198e85401185fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:43 +0000
Subject: [PATCH 045/160] fix: ObjectProtocol: a property redefined without
 default does not keep the one of the bases

---
 ngoschema/protocols/object_protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 931ec08..cfa92e2 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -623,7 +623,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         not_validated = set().union(schema.get('notValidated', attrs.get('_notValidated', [])), *[b._notValidated for b in pbases], *[s.get('notValidated', []) for s in not_ready_yet_sch])
         required = set().union(schema.get('required', attrs.get('_required', [])), *[b._required for b in pbases], *[s.get('required', []) for s in not_ready_yet_sch])
         read_only = set().union(schema.get('readOnly', attrs.get('_readOnly', [])), *[b._readOnly for b in pbases], *[s.get('readOnly', []) for s in not_ready_yet_sch])
-        has_default = set().union(*[b._propertiesWithDefault for b in pbases])
+        has_default = set()
+        for b in reversed(pbases):
+            # the first bases redefine the properties of the next ones
+            has_default = has_default.difference(b._properties).union(b._propertiesWithDefault)
 
         # create type for properties
         local_properties = OrderedDict([(k, type_builder.build(f'{id}/properties/{k}', v))
@@ -753,6 +756,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         for pname, ptype in ChainMap(local_properties, redefined_properties).items():
             if ptype.has_default():
                 has_default.add(pname)
+            else:
+                has_default.discard(pname)
             pfun = descriptor_funs.pop(pname, {})
             properties_descriptor[pname] = PropertyDescriptor(
                 pname,
-- 
2.43.0


From 7712b1fdea0d2c41d893ce8d63dbc23163d32b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:06 +0000
Subject: [PATCH 046/160] fix: arrays: an empty list is a value and is not
 replaced by the default one

---
 ngoschema/types/array.py      | 2 +-
 ngoschema/types/collection.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index e249d77..a649ba0 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -117,7 +117,7 @@ class Array(Collection, ArraySerializer):
         Collection.__init__(self, **opts)
 
     def __call__(self, value=None, *values, **opts):
-        value = [value, *values] if values else value or []  # to allow initialization by varargs
+        value = [value, *values] if values else value  # to allow initialization by varargs
         opts['context'] = opts['context'] if 'context' in opts else self._create_context(self, **opts)
         return Type.__call__(self, value, **opts)
 
diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 04af0c0..2a5fc14 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -80,7 +80,9 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        ret = self._deserializer._deserialize(self, value or self._default, items=items, evaluate=False, **opts)
+        # an empty list is a value, which is not replaced by the default one
+        value = value or (value if isinstance(value, (list, tuple)) else self._default)
+        ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
             for k, t in self._items_types(self, value):
-- 
2.43.0


From c6ea745c6b9082a8cd4b6e9e9fe0dfe3629cf4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 047/160] fix: default: items of default arrays which are 0,
 False or empty strings were replaced by None

---
 ngoschema/protocols/type_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index f604b84..29889d4 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -104,7 +104,8 @@ class TypeProtocol(Serializer):
 
     @classmethod
     def default(cls, value=None, evaluate=False, raw_literals=True, **opts):
-        return cls._deserialize(cls, value or cls._default, raw_literals=raw_literals, **opts)
+        value = cls._default if value is None else value
+        return cls._deserialize(cls, value, raw_literals=raw_literals, **opts)
 
     @classmethod
     def is_primitive(cls):
-- 
2.43.0


From 8f338dea5f7db67846aaad9450fc44dcaaaf54e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:28 +0000
Subject: [PATCH 048/160] fix: a deleted property of a lazy object can be set
 to None again

---
 ngoschema/protocols/collection_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/collection_protocol.py b/ngoschema/protocols/collection_protocol.py
index 0dff5e6..4592c8a 100644
--- a/ngoschema/protocols/collection_protocol.py
+++ b/ngoschema/protocols/collection_protocol.py
@@ -195,8 +195,8 @@ class CollectionProtocol(Collection):
 
     def _set_data(self, item, value):
         t = self._items_type(self, item)
-        # an item which has been deleted can be set again
-        orig = self._data.get(item) if isinstance(self._data, Mapping) else self._data[item]
+        # an item which has been deleted can be set again, to None included
+        orig = self._data.get(item, NotImplemented) if isinstance(self._data, Mapping) else self._data[item]
         # to avoid comparison of objects (often equality which is the longest to validate), only touch for changed primitives
         if t.is_primitive():
             if value != orig:
-- 
2.43.0


From bc51833de8627f0ed2073e06b89ed6fd0ce03e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 049/160] fix: additional properties holding an expression were
 stale when read as attributes

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index cfa92e2..644a4d7 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -315,7 +315,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if desc:
             return op(desc.__get__(self))
         if name in self._data:
-            self._itemsInputs[raw] = self._items_inputs_evaluate(name)
+            # inputs are evaluated with the value, once they are compared to the previous ones
             self._dataAdditional[raw] = v = op(self[name])
             return v
         if self._attributeByName:
-- 
2.43.0


From b6a0134d47cc6743af1cc31b3c7ad32611067988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 050/160] fix: properties with a dot in their name could
 neither be read nor set nor serialized

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 644a4d7..3dfa976 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -394,7 +394,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def __getitem__(self, key):
         if not key:
             return self._parent
-        if '.' in key:
+        if '.' in key and key not in self._data:
             parts = split_cname(key)
             # case: canonical name such as a[0][1].b[0].c
             cur = self
@@ -426,7 +426,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def __setitem__(self, key, value):
         op = lambda x: neg(x) if key in self._aliasesNegated and x is not None else x
-        if '.' in key:
+        if '.' in key and key not in self._data and key not in self._properties:
             parts = split_cname(key) # case: canonical name such as a[0][1].b[0].c
             cur = self
             try:
-- 
2.43.0


From a8bd2b59d6c086c25c7c7a7f5a72c4b28d2e966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 051/160] fix: the attribute named as a property was the one of
 another property with the same python name

---
 ngoschema/protocols/object_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 3dfa976..b6058bd 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -821,8 +821,10 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         # add properties
         for k, p in properties_descriptor.items():
             # only set descriptors which do not overwrite existing symbols
-            if not is_mro_symbol(k):
-                attrs.setdefault(clean_js_name(k), p)
+            ktrans = clean_js_name(k)
+            # nor the property which is really named so
+            if not is_mro_symbol(k) and (ktrans == k or ktrans not in all_properties):
+                attrs.setdefault(ktrans, p)
 
         bases = tuple(bases + bases_extended)
         if not_ready_yet:
-- 
2.43.0


From 4fdeb4223807794cdcb0d64fac410761a217d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 052/160] fix: $ref with other keywords to a primitive type
 built a class instead of a type

---
 ngoschema/managers/type_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 30cc35b..0baebb3 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -87,6 +87,8 @@ class TypeBuilder(GenericClassRegistry):
                 cls = self.load(scope(ref, id))
                 if schema:
                     cls = cls.extend_type(id, **schema)
+                    # as below, a primitive type is an instance of its class
+                    cls = cls() if cls.is_primitive() else cls
             elif 'object' in schema.get('type', ''):
                 cls = ObjectProtocol.build(id, schema, bases, attrs)
             elif 'array' in schema.get('type', ''):
-- 
2.43.0


From c2cb22a7e453b27bda9f4815c9df6ea857a987c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 053/160] fix: a schema without id was not loaded by its title

---
 ngoschema/loaders/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index 9fd191b..c5f2f2f 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -38,7 +38,7 @@ def load_schema(schema, schemas_store=None):
     :type schemas_store: dict
     """
     from ngoschema.resolvers.uri_resolver import UriResolver
-    uri = _id_of(schema).rstrip('#')
+    uri = (_id_of(schema) or '').rstrip('#')
     if not uri and "title" in schema:
         uri = inflection.parameterize(six.text_type(schema["title"]), "_")
     if not uri:
-- 
2.43.0


From 74dbe9b9a3e72cc1bd931bdf8f54599a24a7670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 054/160] fix: uris were resolved in documents replaced or
 removed since

---
 ngoschema/resolvers/uri_resolver.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index 1486102..e85457c 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -41,7 +41,6 @@ def domain_uri(name, domain=None):
     return "%s%s#" % (domain, clean_for_uri(name))
 
 
-@functools.lru_cache(128)
 def resolve_doc(uri_id, remote=False):
     uri, frag = urldefrag(uri_id)
     ret = UriResolver._doc_store.get(uri)
-- 
2.43.0


From 523837ff46caf6098bcd446a6bb8998d039780a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 055/160] fix: negative and malformed indexes of json pointers
 designated items

---
 ngoschema/resolvers/uri_resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngoschema/resolvers/uri_resolver.py b/ngoschema/resolvers/uri_resolver.py
index e85457c..3a39281 100644
--- a/ngoschema/resolvers/uri_resolver.py
+++ b/ngoschema/resolvers/uri_resolver.py
@@ -14,6 +14,7 @@ from __future__ import unicode_literals
 
 import logging
 import copy
+import re
 import functools
 import posixpath
 from os import path
@@ -34,6 +35,8 @@ from .. import settings
 
 logger = logging.getLogger(__name__)
 
+POINTER_INDEX_REGEX = re.compile(r'^(0|[1-9][0-9]*)\Z')
+
 
 def domain_uri(name, domain=None):
     from ngoschema.managers.namespace_manager import clean_for_uri
@@ -61,6 +64,9 @@ def resolve_fragment(doc, fragment):
         try:
             part = part.replace(u"~1", u"/").replace(u"~0", u"~")
             if is_sequence(doc):
+                # only the indexes a json pointer allows, negative ones are not
+                if not POINTER_INDEX_REGEX.match(part):
+                    raise IndexError(part)
                 part = int(part)
             doc = doc[part]
         except:
-- 
2.43.0


From 8661ad903a08cd469f4d6d30109fdb7f77b16557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 056/160] fix: names of definitions were taken in a namespace
 whose uri only starts the same

---
 ngoschema/managers/namespace_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index e420217..0ae24fc 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -28,6 +28,10 @@ def clean_for_uri(name):
     return name.split(':')[-1].replace('_', '-')
 
 
+def _is_in_ns(uri, ns_uri):
+    return uri.startswith(ns_uri) and (ns_uri.endswith('#') or uri[len(ns_uri):][:1] in ('', '#', '/'))
+
+
 class NamespaceManager(Registry):
     _current_ns = ''
     _current_ns_uri = '#'
@@ -74,7 +78,8 @@ class NamespaceManager(Registry):
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        ns_names = sorted([c for c, u in reg.items() if uri.startswith(u)], reverse=True)
+        # the most specific namespace the uri is in, whatever the names given to the namespaces
+        ns_names = sorted([c for c, u in reg.items() if _is_in_ns(uri, u)], key=lambda c: (len(reg[c]), c), reverse=True)
         if ns_names:
             cn = ns_names[0]
             return cn, reg[cn]
-- 
2.43.0


From 38805dd877ac046d5d1e5ad22919e3e61c9bf0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 057/160] fix: names and ids kept being those found before a
 namespace was added

---
 ngoschema/managers/namespace_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 0ae24fc..a900cb0 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -38,8 +38,6 @@ class NamespaceManager(Registry):
     _builder_ns = {}
 
     def __init__(self, *parents, **local):
-        self._get_id_cname = lru_cache(1024)(self._get_id_cname_cached)
-        self._get_cname_id = lru_cache(1024)(self._get_cname_id_cached)
         self._local = dict(local)
         self._local.setdefault('', self._current_ns_uri)
         self._registry = ChainMap(self._local, *parents)
@@ -105,7 +103,7 @@ class NamespaceManager(Registry):
             return rcn
         return cname
 
-    def _get_id_cname_cached(self, ref, current_ns):
+    def _get_id_cname(self, ref, current_ns):
         ns_cn, ns_uri = self._find_ns_by_uri(ref)
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         #ns_names = sorted([k for k, uri in ns.items() if ref.startswith(uri)], reverse=True)
@@ -133,7 +131,7 @@ class NamespaceManager(Registry):
             id = id[len(u.strip('#')):]
         return id
 
-    def _get_cname_id_cached(self, cname, current_ns):
+    def _get_cname_id(self, cname, current_ns):
         #ns = ChainMap(self._registry, NamespaceManager.builder_namespaces(), NamespaceManager.available_namespaces())
         # iterate on namespace sorted from the longest to get the most qualified
         #ns_names = sorted([k for k, uri in ns.items() if cname.startswith(k+'.') or k == cname], reverse=True)
-- 
2.43.0


From 14bf41c32d96bab60cd5330a85ddc226c82dd2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 058/160] fix: the name of a document uri ending with # ended
 with a dot

---
 ngoschema/managers/namespace_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index a900cb0..f29f531 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -110,10 +110,10 @@ class NamespaceManager(Registry):
         #ns_uri = ns.get(ns_names[0]) if ns_names else urldefrag(ref)[0]
         #ns_cn = ns_names[0] if ns_names else Uri.convert(ref).path.replace('/', '.')
         cn = ns_cn or current_ns
-        frag = ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref
+        frag = (ref[len(ns_uri):] if ns_uri and ref.startswith(ns_uri) else ref).strip('#')
         #ns_uri, frag = urldefrag(ref)
         if frag:
-            f_cn = NamespaceManager._fragment_to_cname(frag.strip('#'))
+            f_cn = NamespaceManager._fragment_to_cname(frag)
             return f'{ns_cn}.{f_cn}' if ns_cn else f_cn
         return ns_cn
 
-- 
2.43.0


From a829b978fb0e1e8b92630efbe02b223c2695e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:44 +0000
Subject: [PATCH 059/160] fix: building a type renamed the namespaces of its
 document

---
 ngoschema/managers/namespace_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index f29f531..cc99087 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -76,8 +76,9 @@ class NamespaceManager(Registry):
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
-        # the most specific namespace the uri is in, whatever the names given to the namespaces
-        ns_names = sorted([c for c, u in reg.items() if _is_in_ns(uri, u)], key=lambda c: (len(reg[c]), c), reverse=True)
+        # the most specific namespace the uri is in, under the name given here rather than the one of the builder
+        ns_names = sorted([c for c, u in reg.items() if _is_in_ns(uri, u)],
+                          key=lambda c: (len(reg[c]), c in self._registry, c), reverse=True)
         if ns_names:
             cn = ns_names[0]
             return cn, reg[cn]
-- 
2.43.0


From 5b219452c07e9835741ee81adb15373738ba85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 060/160] fix: definitions of documents whose uri extends the
 one of a namespace were named and looked for in it

---
 ngoschema/managers/namespace_manager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index cc99087..10a1b00 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -63,28 +63,29 @@ class NamespaceManager(Registry):
         return self._current_ns_uri
 
     def _find_ns_by_cname(self, cname):
-        reg = ChainMap(self._registry, self._builder_ns)
+        # the most specific namespace the name is in, the ones of the documents only loaded included
+        reg = ChainMap(self._registry, self._builder_ns, NamespaceManager.available_namespaces())
         ns_names = sorted([c for c, u in reg.items() if cname.startswith(c+'.') or c == cname], reverse=True)
         if ns_names:
             cn = ns_names[0]
             return cn, reg[cn]
-        for u in UriResolver._doc_store.keys():
-            c = NamespaceManager._uri_to_cname(u)
-            if cname.startswith(c+'.') or c == cname:
-                return c, u
         return None, None
 
     def _find_ns_by_uri(self, uri):
         reg = ChainMap(self._registry, self._builder_ns)
+        uri_ns = uri.split('#')[0] if '#' in uri else uri
         # the most specific namespace the uri is in, under the name given here rather than the one of the builder
         ns_names = sorted([c for c, u in reg.items() if _is_in_ns(uri, u)],
                           key=lambda c: (len(reg[c]), c in self._registry, c), reverse=True)
-        if ns_names:
+        if ns_names and len(reg[ns_names[0]]) >= len(uri_ns):
             cn = ns_names[0]
             return cn, reg[cn]
-        uri_ns = uri.split('#')[0] if '#' in uri else uri
         if uri_ns in UriResolver._doc_store.keys():
             return NamespaceManager._uri_to_cname(uri_ns), uri_ns
+        if ns_names:
+            # the document is unknown
+            cn = ns_names[0]
+            return cn, reg[cn]
         return None, None
 
     def __contains__(self, item):
-- 
2.43.0


From 0cecd6a2fe0ed3951c53d617db5578ff4a7f093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:55 +0000
Subject: [PATCH 061/160] fix: ordering or reversing the results of a query
 raised an error

---
 ngoschema/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index c40a1a9..d751849 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -409,9 +409,9 @@ class Query(object):
                 from .utils.utils import split_path
                 ks = split_path(ob) if isinstance(ob, str) else ob
                 self._result_cache = sorted(self._result_cache,
-                                            lambda x: get_descendant(x, ks))
+                                            key=lambda x: get_descendant(x, ks))
             if self._reverse:
-                self._result_cache = reversed(self._result_cache)
+                self._result_cache = list(reversed(self._result_cache))
         return self._result_cache
 
     def __getitem__(self, k):
-- 
2.43.0


From ca5c3c71bfdbbefcc744e04fd4ba29b46fecc5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:55 +0000
Subject: [PATCH 062/160] fix: last raised an error on every query

---
 ngoschema/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index d751849..5e2b662 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -483,7 +483,7 @@ class Query(object):
 
     def last(self):
         try:
-            return self[-1]
+            return self.result_cache[-1]
         except IndexError:
             return None
 
-- 
2.43.0


From 925f72ec88cb6e6d9f470e5c1e6851f9be9b0a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:55 +0000
Subject: [PATCH 063/160] fix: union added its results to the query it was
 called on

---
 ngoschema/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 5e2b662..63e176c 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -436,10 +436,10 @@ class Query(object):
         return False
 
     def union(self, *others):
-        res = self.result_cache
+        res = list(self.result_cache)
         for o in others:
             res += o.result_cache
-        return Query(res, self._distinct, self._order_by)
+        return Query(res, self._distinct, self._order_by, self._reverse and bool(self._order_by))
 
     def intersection(self, *others):
         res = self.result_cache
-- 
2.43.0


From 69dbf2c680aae0153751c8a3e78c1eec3a6d2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:55 +0000
Subject: [PATCH 064/160] fix: reverse, intersection and difference sorted
 ordered queries again

---
 ngoschema/query.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 63e176c..6561e99 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -446,14 +446,16 @@ class Query(object):
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r in ores]
-        return Query(res, self._distinct, self._order_by)
+        # already ordered
+        return Query(res, self._distinct)
 
     def difference(self, *others):
         res = self.result_cache
         for o in others:
             ores = o.result_cache
             res = [r for r in res if r not in ores]
-        return Query(res, self._distinct, self._order_by)
+        # already ordered
+        return Query(res, self._distinct)
 
     def get(self, *attrs, **attrs_value):
         ret = list(Query._filter_or_exclude(self._iterable,
@@ -488,9 +490,8 @@ class Query(object):
             return None
 
     def reverse(self):
-        ret = self._chain()
-        ret._iterable = reversed(self.result_cache)
-        return ret
+        # already ordered
+        return Query(list(reversed(self.result_cache)), self._distinct)
 
     def count(self):
         return len(self)
-- 
2.43.0


From 1aff0d9eb62c562fb57bde9cde4050d1735663e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 065/160] fix: a query could only be used once when it came
 from a filter or a generator

---
 ngoschema/query.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 6561e99..e98ed7a 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -209,6 +209,25 @@ def search_object_non_rec(obj, path, *attrs, **attrs_value):
             p_cur, cur = p_par, cur._parent
 
 
+class _Replay(object):
+    """to go any number of times through an iterator, which is only consumed as needed"""
+
+    def __init__(self, iterator):
+        self._iterator = iterator
+        self._seen = []
+
+    def __iter__(self):
+        i = 0
+        while True:
+            if i == len(self._seen):
+                try:
+                    self._seen.append(next(self._iterator))
+                except StopIteration:
+                    return
+            yield self._seen[i]
+            i += 1
+
+
 class Query(object):
 
     def __init__(self, iterable, distinct=False, order_by=False, reverse=False):
@@ -221,7 +240,7 @@ class Query(object):
         :param reverse: boolean to reverse order
         :type reverse: boolean
         """
-        self._iterable = iterable
+        self._iterable = _Replay(iterable) if iter(iterable) is iterable else iterable
         self._distinct = distinct
         self._order_by = order_by
         self._reverse = reverse
-- 
2.43.0


From eacf3afc974e5dddc3c5b14f577dd65d76de6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 066/160] fix: criteria were altered by the objects tested, and
 the ones after a missing attribute ignored

---
 ngoschema/query.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index e98ed7a..5f8fcfd 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -135,24 +135,11 @@ class Filter(object):
         for k, v2 in self.attrs_value.items():
             ks, ops, ops_negate = self.attrs_ops[k]
             o = get_descendant(obj, ks)
-            if o is None:
-                # breaking the look we never go in the for/ELSE statement where
-                # an object is potentially yielded
-                test = False
-                break
-            elif ops and utils.is_mapping(o):
-                # check if it s not a child
-                for op in ops:
-                    o2 = get_descendant(o, op)
-                    if o2:
-                        o = o2
-                        ks.append(ops.pop(0))
-                    else:
-                        test = False
-                        break
-            ops = ops or ['eq']
-            v = _comparable(o)
-            test2 = bool(_apply_ops_test(ops, ops_negate, v, v2))
+            # the operators which are names of children are not operators for this object
+            while ops and utils.is_mapping(o):
+                o, ops = get_descendant(o, ops[:1]), ops[1:]
+            # a criterion on something missing is not satisfied
+            test2 = o is not None and bool(_apply_ops_test(ops or ['eq'], ops_negate, _comparable(o), v2))
             test = (test or test2) if self.anyOf else (test and test2)
             if self.anyOf:
                 if test2:
-- 
2.43.0


From d0e6981c264dbd8b7a108e7d843269c4117b935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:31 +0000
Subject: [PATCH 067/160] fix: distinct queries of objects which are not
 hashable were empty, and the others not distinct without filter

---
 ngoschema/query.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 5f8fcfd..60c1436 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -196,6 +196,16 @@ def search_object_non_rec(obj, path, *attrs, **attrs_value):
             p_cur, cur = p_par, cur._parent
 
 
+def _distinct(iterable):
+    """generator on the distinct objects, which are not always hashable"""
+    seen = []
+    for obj in iterable:
+        comparable = _comparable(obj)
+        if comparable not in seen:
+            seen.append(comparable)
+            yield obj
+
+
 class _Replay(object):
     """to go any number of times through an iterator, which is only consumed as needed"""
 
@@ -261,18 +271,8 @@ class Query(object):
                            negate=negate,
                            any_of=any_of,
                            **attrs_value)
-        seen = set()
-        for obj in iterable:
-            if not obj: # todo change to is None??
-                continue
-            if test_op(obj):
-                if distinct:
-                    comparable = _comparable(obj)
-                    if comparable not in seen:
-                        seen.add(comparable)
-                    else:
-                        continue
-                yield obj
+        iterable = (obj for obj in iterable if obj and test_op(obj))  # todo change to is None??
+        return _distinct(iterable) if distinct else iterable
 
     @staticmethod
     def _filter_or_exclude__(iterable,
@@ -408,7 +408,7 @@ class Query(object):
     @property
     def result_cache(self):
         if self._result_cache is None:
-            self._result_cache = list(self._iterable)
+            self._result_cache = list(_distinct(self._iterable) if self._distinct else self._iterable)
 
             ob = self._order_by
             if ob:
-- 
2.43.0


From 9a02b17ca54b92676aa1439f686506d50007aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 068/160] fix: a path going on after a falsy value led to this
 value

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 41b55db..e7dcd6f 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -671,7 +671,7 @@ def get_descendant(obj, key_list):
     except Exception as er:
         child = None
     return get_descendant(child, key_list[1:]) \
-        if child and len(key_list) > 1 else child
+        if child is not None and len(key_list) > 1 else child
 
 
 def topological_sort(data):
-- 
2.43.0


From 3ffc2b4340705d86c1be5b505b84327214933ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 069/160] fix: criteria on the size or an item of a sequence
 did not compare it to the value given

---
 ngoschema/query.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 60c1436..29edeeb 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -139,7 +139,10 @@ class Filter(object):
             while ops and utils.is_mapping(o):
                 o, ops = get_descendant(o, ops[:1]), ops[1:]
             # a criterion on something missing is not satisfied
-            test2 = o is not None and bool(_apply_ops_test(ops or ['eq'], ops_negate, _comparable(o), v2))
+            if not ops or ops[-1] == 'size' or ops[-1].startswith('@'):
+                # what is designated is compared with the value
+                ops = ops + ['eq']
+            test2 = o is not None and bool(_apply_ops_test(ops, ops_negate, _comparable(o), v2))
             test = (test or test2) if self.anyOf else (test and test2)
             if self.anyOf:
                 if test2:
-- 
2.43.0


From 5fb61010e88aa9761c510c89d1b4a99ce4033fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:47 +0000
Subject: [PATCH 070/160] fix: case insensitive operators read strings as
 regular expressions, and iendswith never matched endings

---
 ngoschema/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/query.py b/ngoschema/query.py
index 29edeeb..9cc1ee6 100644
--- a/ngoschema/query.py
+++ b/ngoschema/query.py
@@ -95,13 +95,13 @@ def _apply_ops_test(ops, negate, a, b):
         if op == 'endswith':
             return a.endswith(b)
         if op == 'ieq':
-            return re.match('^%s$' % b, a, re.IGNORECASE)
+            return re.fullmatch(re.escape(b), a, re.IGNORECASE)
         if op == 'istartswith':
-            return re.match('^%s' % b, a, re.IGNORECASE)
+            return re.match(re.escape(b), a, re.IGNORECASE)
         if op == 'iendswith':
-            return re.match('%s$' % b, a, re.IGNORECASE)
+            return re.search(re.escape(b) + r'\Z', a, re.IGNORECASE)
         if op == 'icontains':
-            return re.search('%s' % b, a, re.IGNORECASE)
+            return re.search(re.escape(b), a, re.IGNORECASE)
         if op == 'regex':
             return re.match(b, a)
 
-- 
2.43.0


From 897984eb8fae595a22ae5ada08893b612f75f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 071/160] fix: types of foreign keys did not use the primary
 keys of their class

---
 ngoschema/protocols/type_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/type_protocol.py b/ngoschema/protocols/type_protocol.py
index 29889d4..8627276 100644
--- a/ngoschema/protocols/type_protocol.py
+++ b/ngoschema/protocols/type_protocol.py
@@ -59,7 +59,7 @@ class TypeProtocol(Serializer):
                 fc = type_builder.load(fs)
                 attrs['_foreignClass'] = fc
                 #attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', fc._primaryKeys)
-                attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', getattr(fc._schema, 'primaryKeys', ['id']))
+                attrs['_foreignKeys'] = fks = schema.get('foreignKey', {}).get('foreignKeys', list(fc._primaryKeys) or ['id'])
                 attrs['_foreignKeysType'] = [fc._items_type(fc, k) for k in fks]
             except Exception as er:
                 # certainly a proxy type inf fc item fk type evaluation
-- 
2.43.0


From d25f6989cf775f43e85bc9ff973cac742288a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 072/160] fix: foreign keys were only looked for in the first
 repository of a session

---
 ngoschema/types/foreign_key.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 9819e9a..7fd0c7a 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -157,9 +157,8 @@ class ForeignKey(Ref):
         fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
-            v = r.resolve_fkey(key)
-            if v is not None:
-                return v
+            if key in r:
+                return r.resolve_fkey(key)
         raise InvalidValue('impossible to resolve foreign key %s' % repr(key))
 
 
-- 
2.43.0


From 7ce8f32b6395dfdc8600f67cae2f6c407a1f32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 073/160] fix: entities a memory repository is created with
 were not found in it

---
 ngoschema/repositories/memory_repository.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 4b6435f..170d00e 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -21,6 +21,7 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
         Repository.__init__(self, **(meta_opts or {}), **self)
         self._catalog = OrderedDict()
         self._content = Array(items=self._instanceClass, maxItems=1 if not self._many else None)(value)
+        self._catalog.update((c._identityKeys, c) for c in self._content if hasattr(c, '_identityKeys'))
 
     def __contains__(self, item):
         return item in self._catalog
-- 
2.43.0


From bc307d89536362ccb2e3eccd3a957d7d6ebb7ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 074/160] fix: a memory repository of one instance could not be
 committed to

---
 ngoschema/repositories/memory_repository.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/repositories/memory_repository.py b/ngoschema/repositories/memory_repository.py
index 170d00e..82e4033 100644
--- a/ngoschema/repositories/memory_repository.py
+++ b/ngoschema/repositories/memory_repository.py
@@ -50,5 +50,5 @@ class MemoryRepository(with_metaclass(SchemaMetaclass, Repository)):
             else:
                 self._content.append(value)
         else:
-            self._content = self._content(value)
+            self._content = [value]
         return self._content
-- 
2.43.0


From 0d4eb846c013befa4bf897dc924e0660a5f60159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 075/160] fix: foreign keys to a class under construction took
 its keys for an integer id

---
 ngoschema/types/foreign_key.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index 7fd0c7a..d8d560a 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -81,7 +81,10 @@ class ForeignKey(Ref):
         from ..protocols import TypeProxy
         from ..models.instances import Entity
         fc = foreign_class
-        if fc and not issubclass(fc, TypeProxy):
+        if fc and issubclass(fc, TypeProxy):
+            # under construction: its keys are known when it is used
+            self._foreignClass = fc
+        elif fc:
             if not issubclass(fc, Entity):
                 raise ValueError('target class (%r) must implement (%r) interface.' \
                                  % (fc, Entity))
@@ -94,8 +97,8 @@ class ForeignKey(Ref):
     def get_foreignClass(self):
         from ..protocols.type_proxy import TypeProxy
         fc, fs = self._foreignClass, self._foreignSchema
-        if fc and issubclass(fc, TypeProxy):
-            self._foreignClass = fc.proxy_type()
+        if fc and issubclass(fc, TypeProxy) and fc.proxy_type():
+            ForeignKey.set_foreignClass(self, fc.proxy_type())
         if not fc and fs:
             ForeignKey.set_foreignSchema(self, self._foreignSchema)
         return self._foreignClass
@@ -121,6 +124,7 @@ class ForeignKey(Ref):
     @staticmethod
     @assert_arg(1, Array, strDelimiter=',')
     def _check(self, value, **opts):
+        ForeignKey.get_foreignClass(self)
         if all(t._check(t, v, **opts) for t, v in zip(self._foreignKeysType, Array.deserialize(value, **opts))):
             return value
         raise TypeError('%s is not of type foreignKey.' % value)
@@ -154,7 +158,8 @@ class ForeignKey(Ref):
     def _resolve(self, key, session=None, **opts):
         session = session or scoped_session(session_maker())()
         ric = [r.instanceClass for r in session.repositories]
-        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, self._foreignClass)]
+        fc = ForeignKey.get_foreignClass(self)
+        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, fc)]
         for r in fc_repos:
             # change resolve_fkey to use resolve??
             if key in r:
-- 
2.43.0


From 5107d59fd1d78bd909345c9a13422f47043d2188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:53 +0000
Subject: [PATCH 076/160] fix: the error on several unknown keys could not be
 formatted

---
 ngoschema/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 3e33711..6a87b06 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -80,7 +80,7 @@ class Session(with_metaclass(SchemaMetaclass)):
             if keys in repo:
                 return repo.resolve_fkey(keys)
         else:
-            raise Exception("Impossible to resolve '%s'" % keys)
+            raise Exception("Impossible to resolve '%s'" % ', '.join(map(str, keys)))
 
     def query(self, *attrs, order_by=False, **attrs_value):
         """
-- 
2.43.0


From 5fad44456602137fca1f7b80d00ef9171e88eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:48 +0000
Subject: [PATCH 077/160] fix: 0 and False submitted for an array were replaced
 by the default

---
 ngoschema/types/collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 2a5fc14..212da10 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 
 from collections import defaultdict
 from itertools import count
+from numbers import Number
 from operator import neg
 
 from ..utils import ReadOnlyChainMap as ChainMap
@@ -80,8 +81,8 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        # an empty list is a value, which is not replaced by the default one
-        value = value or (value if isinstance(value, (list, tuple)) else self._default)
+        # an empty list, 0 or False are values, which are not replaced by the default one
+        value = value or (value if isinstance(value, (list, tuple, Number)) else self._default)
         ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
-- 
2.43.0


From 60bbdaed13438ecce59389938f82b195bb91569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:50 +0000
Subject: [PATCH 078/160] fix: an object with a missing object could not be
 serialized with its defaults by its class

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b6058bd..65e76f3 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -192,6 +192,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def _convert(self, value, **opts):
         from ..managers.type_builder import type_builder
         #value = self._collType(value)
+        if value is None:
+            return value
         if value.get('$schema'):
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
-- 
2.43.0


From 0def0e25cbfdf199a23250424680434c9d98cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:43 +0000
Subject: [PATCH 079/160] fix: None could not be converted to boolean, although
 it can be to every other literal

---
 ngoschema/types/boolean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/boolean.py b/ngoschema/types/boolean.py
index 00cfe69..298bc88 100644
--- a/ngoschema/types/boolean.py
+++ b/ngoschema/types/boolean.py
@@ -39,7 +39,7 @@ class Boolean(Primitive):
         """
         from .strings import String
         from .numerics import Integer
-        if Boolean.check(value):
+        if value is None or Boolean.check(value):
             return value
         if String.check(value):
             value = String.convert(value, **opts).lower()
-- 
2.43.0


From c759c08dcaec006ec647792bff1fb2de4e054130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 080/160] fix: items of arrays which refer to a definition
 under construction could not be converted

---
 ngoschema/types/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index a649ba0..909e5a3 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -123,8 +123,8 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _items_types(self, value, **opts):
-        value = self._items[:len(value)] if self._itemsIsList else [self._items] * len(value)
-        return [(i, v) for i, v in enumerate(value)]
+        nb = min(len(value), len(self._items)) if self._itemsIsList else len(value)
+        return [(i, self._items_type(self, i)) for i in range(nb)]
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From ed0a02b4b39e0c6d110659a02700bf6c8e62b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:45 +0000
Subject: [PATCH 081/160] fix: names relative to the current namespace were the
 one of this namespace when only beginning with it

---
 ngoschema/managers/namespace_manager.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 10a1b00..daf20b8 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -98,11 +98,8 @@ class NamespaceManager(Registry):
     def get_id_cname(self, ref, relative=False):
         rcn = self._current_ns
         cname = self._get_id_cname(ref, rcn)
-        if relative and rcn and cname.startswith(rcn):
-            local_cn = cname[len(rcn):].split('.')
-            if local_cn and not local_cn[0]:
-                return '.'.join(local_cn[1:])
-            return rcn
+        if relative and rcn and (cname == rcn or cname.startswith(rcn + '.')):
+            return cname[len(rcn)+1:] or rcn
         return cname
 
     def _get_id_cname(self, ref, current_ns):
-- 
2.43.0


From 63a0c12234c7addc3b41e4a368863f45d46e8091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 082/160] fix: the current namespace could be set to one the
 name given only begins with

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index daf20b8..7dbe8d9 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -48,7 +48,7 @@ class NamespaceManager(Registry):
         self._local[NamespaceManager._uri_to_cname(uri) if name is None else name] = uri
 
     def set_current(self, name):
-        ns_names = sorted([k for k in self._registry.keys() if name.startswith(k)])
+        ns_names = sorted([k for k in self._registry.keys() if not k or name == k or name.startswith(k + '.')])
         assert ns_names, name
         cname = ns_names[-1]
         self._current_ns = cname
-- 
2.43.0


From ff69ff37fd108a9f3a69ba93cb5a11b280338fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 083/160] fix: text after the second child or section of an XML
 element was lost or put before its children

---
 ngoschema/utils/xmltodict.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 09c5764..2f638d7 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -97,7 +97,8 @@ class _DictSAXHandler(object):
             self.namespace_declarations = OrderedDict()
         self.path.append((name, attrs or None))
         if len(self.path) > self.item_depth:
-            self.stack.append((self.item, self.data))
+            # mark where the text before the first child ends
+            self.stack.append((self.item, self.data + [None]))
             if self.xml_attribs:
                 attr_entries = []
                 for key, value in attrs.items():
@@ -119,27 +120,23 @@ class _DictSAXHandler(object):
         if len(self.path) == self.item_depth:
             item = self.item
             if item is None:
-                item = (None if not self.data
-                        else self.cdata_separator.join(self.data))
+                data = [d for d in self.data if d is not None]
+                item = (None if not data
+                        else self.cdata_separator.join(data))
 
             should_continue = self.item_callback(self.path, item)
             if not should_continue:
                 raise ParsingInterrupted()
         if len(self.stack):
-            text, tail = None, None
+            # text is before the first child, tail is all what comes after
             data = self.data
-            #data = (None if not self.data
-            #        else self.cdata_separator.join(self.data))
+            pos = data.index(None) if None in data else len(data)
+            text = self._join_cdata(data[:pos])
+            tail = self._join_cdata(data[pos:])
             item = self.item
             self.item, self.data = self.stack.pop()
-            if self.strip_whitespace and data:
-                data = [d.strip() for d in data]
-            if data:
-                text = data[0]
-                if len(data) > 1:
-                    tail = data[1]
-                if (text or tail) and self.force_cdata and item is None:
-                    item = self.dict_constructor()
+            if (text or tail) and self.force_cdata and item is None:
+                item = self.dict_constructor()
             if item is not None:
                 if text:
                     self.push_data(item, self.cdata_key, text)
@@ -147,12 +144,16 @@ class _DictSAXHandler(object):
                 if tail:
                     self.push_data(item, self.cdata_tail_key, tail)
             else:
-                self.item = self.push_data(self.item, name, self.cdata_separator.join(data))
+                self.item = self.push_data(self.item, name, self._join_cdata(data))
         else:
             self.item = None
             self.data = []
         self.path.pop()
 
+    def _join_cdata(self, data):
+        data = self.cdata_separator.join(d for d in data if d is not None)
+        return data.strip() if self.strip_whitespace else data
+
     def characters(self, data):
         if not self.data:
             self.data = [data]
-- 
2.43.0


From 9800188780985859a8c2a89a5a77038488b1e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:03 +0000
Subject: [PATCH 084/160] fix: text between the items of a streamed XML
 document was prepended to the next one

---
 ngoschema/utils/xmltodict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index 2f638d7..c253b61 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -114,6 +114,10 @@ class _DictSAXHandler(object):
                 attrs = None
             self.item = attrs or None
             self.data = []
+        else:
+            # what is around the items of a stream is not part of them
+            self.item = None
+            self.data = []
 
     def endElement(self, full_name):
         name = self._build_name(full_name)
-- 
2.43.0


From 3b14bfbccf13ac396334458c8f41eec9a47a1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 085/160] fix: mappings added to a context were not in its
 flattened mappings

---
 ngoschema/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index e7dcd6f..68abcb5 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -143,9 +143,11 @@ class Context(ReadOnlyChainMap):
 
     def prepend(self, mapping):
         self._maps.insert(0, mapping)
+        self._maps_flattened = None
 
     def append(self, mapping):
         self._maps.append(mapping)
+        self._maps_flattened = None
 
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
         gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
-- 
2.43.0


From b8b8709ee7e77f78da8c399c8e0afa55090173f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 086/160] fix: values of a weak registry were called

---
 ngoschema/utils/utils.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 68abcb5..a0951d2 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -247,10 +247,6 @@ class WeakRegistry(Registry):
         Registry.__init__(self, *parent_registries)
         self._registry = weakref.WeakValueDictionary()
 
-    def __getitem__(self, key):
-        # callv weak reference
-        return self._registry[key]()
-
 
 class GenericClassRegistry(Registry):
     _registry = {}
-- 
2.43.0


From a87ac1045f1764ac5fcb43e672a561b2d61eba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 087/160] fix: default value of GenericClassRegistry.get was
 ignored

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index a0951d2..4459c70 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -265,7 +265,7 @@ class GenericClassRegistry(Registry):
         return f
 
     def get(self, id, default=None):
-        return self._registry.get(id)
+        return self._registry.get(id, default)
 
     def contains(self, id):
         return id in self._registry
-- 
2.43.0


From b556e6544f8fdcb56469460110df67abcfe03856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 088/160] fix: separator of nested_dict_iter was used only for
 the first level

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 4459c70..796bc15 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -472,7 +472,7 @@ def nested_dict_iter(nested, separator='.'):
     """
     for key, value in nested.items():
         if isinstance(value, collections.Mapping):
-            for inner_key, inner_value in nested_dict_iter(value):
+            for inner_key, inner_value in nested_dict_iter(value, separator):
                 yield f'{key}{separator}{inner_key}', inner_value
         else:
             yield key, value
-- 
2.43.0


From c6002fba5bf7a3ec829450d2a82bfd72e7ad0cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 089/160] fix: grouper ended with an empty page when the last
 page was full

---
 ngoschema/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 796bc15..f279db0 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -511,7 +511,8 @@ def grouper( page_size, iterable ):
         if len(page) == page_size:
             yield page
             page= []
-    yield page
+    if page:
+        yield page
 
 
 @contextlib.contextmanager
-- 
2.43.0


From aadd6b35673ec334c780aff85d06828f8585fe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 090/160] fix: an instance kept the class it was casted as
 after an exception

---
 ngoschema/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index f279db0..5727eac 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -522,8 +522,10 @@ def casted_as(instance, cls):
     if cls not in instance_cls.__mro__:
         raise AttributeError("'%s' is not a parent of '%s'" % (cls, instance))
     instance.__class__ = cls
-    yield instance
-    instance.__class__ = instance_cls
+    try:
+        yield instance
+    finally:
+        instance.__class__ = instance_cls
 
 
 def class_casted_as(cls, other):
-- 
2.43.0


From a8ae993db3a1e8d93a0baacefef95eb97e8255d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 091/160] fix: indexes of paths were not split as integers

---
 ngoschema/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 5727eac..1ef6328 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -651,9 +651,9 @@ def split_path(path):
     """ return a path as a list of attributes and key, index"""
     paths = []
     for part in path.split('.'):
-        for key in part.split('['):
+        for i, key in enumerate(part.split('[')):
             key = key.strip('[]')
-            paths.append(int(key) if is_integer(key) else key)
+            paths.append(int(key) if i and re.match(r'-?\d+$', key) else key)
     return paths
 
 
-- 
2.43.0


From dde39441ae0f06d6e4e0398b65e66e646f93ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 092/160] fix: topological_sort modified the dependencies given

---
 ngoschema/utils/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 1ef6328..1c21188 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -681,8 +681,7 @@ def topological_sort(data):
     from functools import reduce
     if not data:
         return {}
-    for k, v in data.items():
-        v.discard(k) # Ignore self dependencies
+    data = {k: set(v) - {k} for k, v in data.items()} # Ignore self dependencies
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     data.update({item: set() for item in extra_items_in_deps})
     while True:
-- 
2.43.0


From 3c2615ff21b1a899b471d238c3ec22113a271e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 093/160] fix: filter_collection kept all fields with only, and
 failed when recursive or on sequences

---
 ngoschema/utils/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 1c21188..ea7da47 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -447,14 +447,14 @@ def filter_collection(data,
 
     def _filter_keys(container, keys, keep=True):
         if is_mapping(container):
-            for k in keys.intersection(container.keys()):
-                if not keep:
+            for k in list(container.keys()):
+                if (k in keys) != keep:
                     container.pop(k)
                 elif recursive:
-                    _filter_keys(container[k], keys, keep, recursive)
+                    _filter_keys(container[k], keys, keep)
         elif is_sequence(container):
             for v in container:
-                _filter_keys(v, keys, keep, recursive)
+                _filter_keys(v, keys, keep)
         return container
 
     if only or but:
-- 
2.43.0


From 69893c3c49743cb762398acf521e504b3ebbdd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 094/160] fix: Bracket.is_in compared the openings the wrong
 way

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index ea7da47..249f5c0 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -566,7 +566,7 @@ class Bracket:
         raise InvalidValue('unknown bracket type %s (only %s)' % (bracket, ''.join(brs)))
 
     def is_in(self, other):
-        return self._pos[0] < other._pos[0] and other._pos[1] > self._pos[1]
+        return other._pos[0] < self._pos[0] and self._pos[1] < other._pos[1]
 
     def content(self):
         return self._context[self._pos[0]+1 : self._pos[1]]
-- 
2.43.0


From 779a44b4d208f821f1a5cc93d3f2919d32b9f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 095/160] fix: sets and deques could not be formatted for logs

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index b040d99..1a98560 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -94,7 +94,7 @@ class PrettyShortPrinter(pprint.PrettyPrinter):
                 if len(rep) >= max_coll_len:
                     rep = rep[:max_coll_len] + '...}'
             else:
-                rep = self._repr([v for v in object[0:self._maxEl]], context, level)
+                rep = self._repr([v for v in islice(object, 0, self._maxEl)], context, level)
                 if len(object) >= self._maxEl:
                     rep = rreplace(rep, ']', '+%i...]' % (len(object)-self._maxEl))
                 if len(rep) >= max_coll_len:
-- 
2.43.0


From 024510d5ae2056df9b422fe0b2f63ac7d43cb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:18 +0000
Subject: [PATCH 096/160] fix: arguments of lazy_format were formatted again
 each time it was used

---
 ngoschema/utils/str_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 1a98560..3ef3eda 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -135,12 +135,13 @@ class lazy_format(object):
         self.to_format = to_format
 
     def __str__(self):
+        args, kwargs = list(self.args), dict(self.kwargs)
         for a in self.to_format:
             if utils.is_integer(a):
-                self.args[a] = log_format(list(self.args)[a])
+                args[a] = log_format(args[a])
             else:
-                self.kwargs[a] = log_format(self.kwargs[a])
-        return self.fmt.format(*self.args, **self.kwargs)
+                kwargs[a] = log_format(kwargs[a])
+        return self.fmt.format(*args, **kwargs)
 
 
 def _multiple_replacer(replace_dict):
-- 
2.43.0


From 8e60704a3d2936a8d49c15da0fbdc258880833cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:18 +0000
Subject: [PATCH 097/160] fix: multiple_replace failed without any replacement

---
 ngoschema/utils/str_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/str_utils.py b/ngoschema/utils/str_utils.py
index 3ef3eda..9967e1e 100644
--- a/ngoschema/utils/str_utils.py
+++ b/ngoschema/utils/str_utils.py
@@ -159,7 +159,7 @@ def multiple_replace(string, key_values):
     :type key_values: dict
     :rtype: str
     """
-    return _multiple_replacer(key_values)(string)
+    return _multiple_replacer(key_values)(string) if key_values else string
 
 
 @take_arrays(0)
-- 
2.43.0


From 767e9987be8c0df0a591febd5244955c10f6b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 098/160] fix: arguments asserted were shifted for methods of
 falsy instances, and keywords of **kwargs failed

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 80bd467..9530a75 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -137,7 +137,7 @@ def assert_arg(arg, typ, **schema):
             if not assert_args:
                 return wrapped(*args, **kwargs)
 
-            arg_i2 = arg_i if not instance and arg_i is not None else arg_i - 1
+            arg_i2 = arg_i if instance is None or arg_i is None else arg_i - 1
             args = list(args)
             try:
                 if arg_s in kwargs:
-- 
2.43.0


From 8d87715c8826442c46b50c6780df59303efb0759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 099/160] fix: second arrays of one element were given as such,
 and missing ones failed in take_arrays

---
 ngoschema/decorators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 9530a75..84b6b22 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -49,16 +49,20 @@ def take_arrays(narg1=0, narg2=-1, flatten=False):
                 ret = []
                 new_args = list(args)
                 # only first argument is an array
-                if (narg2 == -1 or not type(args[narg2]) in (list, set, tuple)
-                        or len(args[narg2]) == 1):
+                if (narg2 == -1 or narg2 >= len(args)
+                        or not type(args[narg2]) in (list, set, tuple)):
                     for v in args[narg1]:
                         new_args[narg1] = v
                         ret.append(wrapped(*new_args, **kwargs))
                 # both are list
                 else:
+                    # a list of one element stands for this element
+                    seq2 = args[narg2]
+                    if len(seq2) == 1:
+                        seq2 = list(seq2) * len(args[narg1])
                     # same size - call with zipped values
-                    if len(args[narg1]) == len(args[narg2]):
-                        for v1, v2 in zip(args[narg1], args[narg2]):
+                    if len(args[narg1]) == len(seq2):
+                        for v1, v2 in zip(args[narg1], seq2):
                             new_args[narg1] = v1
                             new_args[narg2] = v2
                             ret.append(wrapped(*new_args, **kwargs))
-- 
2.43.0


From 3a416f168f19df3217d316360ae5da9dfe380aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 100/160] fix: functions called without arguments failed when
 logging exceptions

---
 ngoschema/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 84b6b22..7cbd7ca 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -199,7 +199,7 @@ def log_exceptions(method, instance, args, kwargs):
     SHOULDN T BE USED FOR __init__, use log_init instead
     """
     # special case happening for getters/setters
-    if instance is None:
+    if instance is None and args:
         instance = args[0]
     try:
         if hasattr(instance, "_logger"):
-- 
2.43.0


From 1010cd8d541d6a213d88c9e13d23001acf10f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 101/160] fix: properties were not updated after those declared
 with depend_on_prop changed

---
 ngoschema/decorators.py                | 8 +++++++-
 ngoschema/protocols/object_protocol.py | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ngoschema/decorators.py b/ngoschema/decorators.py
index 7cbd7ca..6ec003d 100644
--- a/ngoschema/decorators.py
+++ b/ngoschema/decorators.py
@@ -279,7 +279,13 @@ def depend_on_prop(*prop_names):
     @wrapt.decorator
     def wrapper(wrapped, instance, args, kwargs):
         return wrapped(*args, **kwargs)
-    return wrapper
+
+    def to_decorate(wrapped):
+        decorated = wrapper(wrapped)
+        # the class builder reads them to know when the property is outdated
+        decorated._dependOnProp = prop_names + getattr(wrapped, '_dependOnProp', ())
+        return decorated
+    return to_decorate
 
 
 class ClassPropertyDescriptor(object):
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 65e76f3..b983e8b 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -742,6 +742,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     for d in insp.get('decorators', []):
                         if 'depend_on_prop' == d['name']:
                             dependencies[pname].update(d['varargs']['valueLiteral'])
+                    depend_on = getattr(fun, '_dependOnProp', ())
+                    if depend_on:
+                        dependencies[pname].update(depend_on)
                 pfun[prop] = fun
             if any(pfun.values()):
                 descriptor_funs[pname] = pfun
-- 
2.43.0


From 7f1c01a138eb612327c25d270c0335442d5ec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 102/160] fix: dependencies of the items of a deserialized
 value were added to its class

---
 ngoschema/protocols/object_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index b983e8b..885c4c2 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -203,7 +203,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     @staticmethod
     def _call_order(self, value, items=True, **opts):
         # make a local copy which is transfered to the sorter
-        dependencies = defaultdict(set, **self._dependencies)
+        dependencies = defaultdict(set, {k: set(v) for k, v in self._dependencies.items()})
         if items:
             for k, t in self._items_types(self, value):
                 if self._is_included(k, value, **opts):
-- 
2.43.0


From d6a16c1faf53d45430d12c725d487f786a3d3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 103/160] fix: dependencies of instances of files were lost
 when their loader was initialized

---
 ngoschema/types/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 212da10..279c7b2 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -26,7 +26,7 @@ class CollectionDeserializer(Deserializer):
     def __init__(self, collType=None, dependencies=None, **opts):
         Deserializer.__init__(self, **opts)
         self._collType = collType or self._collType
-        self._dependencies = defaultdict(list, dependencies or {})
+        self._dependencies = defaultdict(list, dependencies or self._dependencies)
 
     @staticmethod
     def _call_order(self, value, **opts):
-- 
2.43.0


From 6677a92c68aca17c054341d41aa3ecc8ccc533f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:26 +0000
Subject: [PATCH 104/160] fix: repr of objects which contain themselves never
 ended

---
 ngoschema/protocols/object_protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 885c4c2..4a542c5 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -9,6 +9,7 @@ from collections import MutableMapping, Mapping
 from collections import OrderedDict, defaultdict
 import re
 from operator import neg
+from reprlib import recursive_repr
 import copy
 
 from ..exceptions import InvalidValue
@@ -511,6 +512,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             ret.move_to_end('$schema', False)
         return ret
 
+    @recursive_repr()
     def __repr__(self):
         if self._repr is None:
             m = settings.PPRINT_MAX_EL
@@ -521,6 +523,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             self._repr = '%s(%s)' % (self.qualname(), ', '.join(a))
         return self._repr
 
+    @recursive_repr()
     def __str__(self):
         if self._str is None:
             m = settings.PPRINT_MAX_EL
-- 
2.43.0


From 2ea350f2efebada4fb07977b9b63d0f644e4fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:52 +0000
Subject: [PATCH 105/160] fix: repr and str of objects kept showing values
 nested objects had when first printed

---
 ngoschema/models/instances.py          | 14 +++++--------
 ngoschema/protocols/array_protocol.py  | 12 +++++------
 ngoschema/protocols/object_protocol.py | 28 +++++++++++---------------
 3 files changed, 22 insertions(+), 32 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index ca2e648..aaaa55f 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -24,11 +24,9 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
     _id = "https://numengo.org/ngoschema#/$defs/instances/$defs/Instance"
 
     def __str__(self):
-        if self._str is None:
-            cn = self._canonicalName
-            a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
-            self._str = '<%s %s>' % (self.qualname(), ' '.join(a))
-        return self._str
+        cn = self._canonicalName
+        a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
+        return '<%s %s>' % (self.qualname(), ' '.join(a))
 
     @depend_on_prop('name')
     def get_canonicalName(self):
@@ -77,10 +75,8 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         self.identityKeys
 
     def __str__(self):
-        if self._str is None:
-            ks = [str(k) for k in self._identityKeys]
-            self._str = '<%s %s>' % (self.qualname(), ', '.join(ks))
-        return self._str
+        ks = [str(k) for k in self._identityKeys]
+        return '<%s %s>' % (self.qualname(), ', '.join(ks))
 
     def get_primaryKeys(self):
         return self._primaryKeys
diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 2d7108c..62a08e1 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -92,13 +92,11 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
             raise
 
     def _str_list(self):
-        if self._str is None:
-            hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
-            a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
-                 for i, t in enumerate(self._items_types(self, self._data))
-                 if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
-            self._str = '[%s]' % (', '.join(a))
-        return self._str
+        hidden = max(0, len(self) - settings.PPRINT_MAX_EL)
+        a = [shorten(self._dataValidated[i] or self._data[i], str_fun=repr)
+             for i, t in enumerate(self._items_types(self, self._data))
+             if i < settings.PPRINT_MAX_EL] + (['+%i...' % hidden] if hidden else [])
+        return '[%s]' % (', '.join(a))
 
     def __repr__(self):
         return '%s(%s)' % (self.qualname(), ArrayProtocol._str_list(self))
diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 4a542c5..1fe08a7 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -514,25 +514,21 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     @recursive_repr()
     def __repr__(self):
-        if self._repr is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
-            hidden = max(0, len(ks) - m)
-            a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._repr = '%s(%s)' % (self.qualname(), ', '.join(a))
-        return self._repr
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=True))
+        hidden = max(0, len(ks) - m)
+        a = ['%s=%s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '%s(%s)' % (self.qualname(), ', '.join(a))
 
     @recursive_repr()
     def __str__(self):
-        if self._str is None:
-            m = settings.PPRINT_MAX_EL
-            ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
-            hidden = max(0, len(ks) - m)
-            a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
-            a += ['+%i...' % hidden] if hidden else []
-            self._str = '{%s}' % (', '.join(a))
-        return self._str
+        m = settings.PPRINT_MAX_EL
+        ks = list(self._print_order(self, self._data, no_defaults=True, no_readOnly=False))
+        hidden = max(0, len(ks) - m)
+        a = ['%s: %s' % (k, shorten(self._dataValidated[k] or self._data[k], str_fun=repr)) for k in ks[:m]]
+        a += ['+%i...' % hidden] if hidden else []
+        return '{%s}' % (', '.join(a))
 
     @staticmethod
     def _items_type(self, item):
-- 
2.43.0


From 616b93a3836aee40fee842f3fff8b4d7f361d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:08 +0000
Subject: [PATCH 106/160] fix: binary and charset options of files were ignored
 when writing or comparing their content

---
 ngoschema/protocols/file_loader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 43ab0da..6630e7a 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -106,13 +106,17 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, Path)
     def _write_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.setdefault('binary', self._binary)
         mode = 'wb' if binary else 'w'
         if not filepath.parent.exists():
             self._logger.info("creating missing directory '%s'", file_link_format(filepath.parent))
             os.makedirs(str(filepath.parent))
         if filepath.exists():
-            content = self.read_file(filepath)
+            try:
+                content = self.read_file(filepath, **opts)
+            except UnicodeDecodeError:
+                # it holds something else, in another charset
+                content = None
             if value == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
@@ -123,7 +127,7 @@ class FileSaver(Saver, FileLoader):
     @assert_arg(2, PathFileExists)
     def _append_file(self, value, filepath, **opts):
         filepath = FileLoader.set_filepath(self, filepath)
-        binary = opts.pop('binary', self._binary)
+        binary = opts.setdefault('binary', self._binary)
         mode = 'ab' if binary else 'a'
         with self._open_file(self, filepath, mode=mode, **opts) as f:
             return f.write(value)
-- 
2.43.0


From 0f13f01fd48b34297829a496ea4962bedf1d16c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 107/160] fix: incomplete characters at the end of files were
 dropped without an error

---
 ngoschema/protocols/file_loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 6630e7a..da9a979 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -5,7 +5,7 @@ import collections
 
 import six
 import os
-import codecs
+import io
 import logging
 
 from ..decorators import assert_arg
@@ -44,7 +44,8 @@ class FileLoader(Loader):
         fp = str(filepath)
         if binary:
             return open(fp, mode=mode)
-        return codecs.open(fp, mode, charset)
+        # ends of lines are kept as they are
+        return io.open(fp, mode, encoding=charset, newline='')
 
     @staticmethod
     def _read_file(self, filepath, **opts):
-- 
2.43.0


From 23523323599dbaa25824887378a454ad98a67f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:30 +0000
Subject: [PATCH 108/160] fix: FileInfo could not be created from a path

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 077d2ea..4ccb6eb 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -73,7 +73,7 @@ class FileInfo(with_metaclass(SchemaMetaclass)):
     _lazyLoading = True
 
     def __init__(self, file=None, filepath=None, **opts):
-        file = file or File(filepath)
+        file = file or File(filepath=filepath)
         ObjectProtocol.__init__(self, file=file, **opts)
 
     def get_dateCreated(self):
-- 
2.43.0


From fbe717d24d3945f0b8829b221efac1fb5e16294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:54 +0000
Subject: [PATCH 109/160] fix: content of binary files was read as text when
 they were created

---
 ngoschema/models/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 4ccb6eb..0923425 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -56,7 +56,7 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
     def set_binary(self, binary):
         self._binary = binary
 
-    @depend_on_prop('filepath')
+    @depend_on_prop('filepath', 'binary')
     def get_contentRaw(self):
         fp = self.filepath
         if fp and fp.exists():
-- 
2.43.0


From 2348e2107f751397063569efe21df658afaf9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:54 +0000
Subject: [PATCH 110/160] fix: charset of documents was ignored

---
 ngoschema/models/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 0923425..a1835dc 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -155,7 +155,10 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
         self._encoder = encoder or self._encoder
         self._encoder.__init__(self, **opts)
 
-    @depend_on_prop('uri', 'filepath')
+    def set_charset(self, charset):
+        self._charset = charset
+
+    @depend_on_prop('uri', 'filepath', 'charset')
     def get_contentRaw(self):
         if self.filepath:
             return FileSaver._load_file(self, self.filepath)
-- 
2.43.0


From 8c3dd6e04a639f14f562ea20d1d076398a3f1676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:54 +0000
Subject: [PATCH 111/160] fix: content of files kept its old value after they
 were written

---
 ngoschema/models/files.py          | 12 ++++++++++++
 ngoschema/protocols/file_loader.py |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index a1835dc..7ea69e4 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -62,6 +62,18 @@ class File(with_metaclass(SchemaMetaclass, FileSaver, Entity)):
         if fp and fp.exists():
             return FileSaver._load_file(self, fp)
 
+    @staticmethod
+    def _write_file(self, value, filepath, **opts):
+        ret = FileSaver._write_file(self, value, filepath, **opts)
+        self._items_touch('contentRaw')
+        return ret
+
+    @staticmethod
+    def _append_file(self, value, filepath, **opts):
+        ret = FileSaver._append_file(self, value, filepath, **opts)
+        self._items_touch('contentRaw')
+        return ret
+
     #@staticmethod
     #def _load(self, filepath, **opts):
     #    self.filepath = filepath
diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index da9a979..b410a01 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -153,12 +153,12 @@ class FileSaver(Saver, FileLoader):
     #@classmethod
     def write_file(self, value, filepath, **opts):
         self.filepath = filepath
-        return FileSaver._write_file(self, value, self.filepath, **opts)
+        return self._write_file(self, value, self.filepath, **opts)
 
     #@classmethod
     def append_file(self, value, filepath, **opts):
         self.filepath = filepath
-        return FileSaver._append_file(self, value, self.filepath, **opts)
+        return self._append_file(self, value, self.filepath, **opts)
 
     #@classmethod
     def save_file(self, value, filepath, **opts):
-- 
2.43.0


From 50c63751c543f54366f0cb9360976a63cfeb2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:49 +0000
Subject: [PATCH 112/160] fix: files were emptied when the value to write was
 refused

---
 ngoschema/protocols/file_loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index b410a01..57c97f0 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -121,6 +121,11 @@ class FileSaver(Saver, FileLoader):
             if value == content:
                 self._logger.info("File '%s' already exists with same content. Not overwriting.", file_link_format(filepath))
                 return value
+        # opening the file empties it: make sure before that the value can be written
+        if binary:
+            memoryview(value)
+        else:
+            value.encode(opts.get('charset', self._charset))
         with self._open_file(self, filepath, mode=mode, **opts) as f:
             return f.write(value)
 
-- 
2.43.0


From 14ac00d30fef66ca985153838fd733284180af8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:26 +0000
Subject: [PATCH 113/160] fix: files without the mark of the charset asked for
 could not be overwritten

---
 ngoschema/protocols/file_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index 57c97f0..d7c8307 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -115,7 +115,7 @@ class FileSaver(Saver, FileLoader):
         if filepath.exists():
             try:
                 content = self.read_file(filepath, **opts)
-            except UnicodeDecodeError:
+            except UnicodeError:
                 # it holds something else, in another charset
                 content = None
             if value == content:
-- 
2.43.0


From 4eafb4a3460b94afc2c9d6160dff72cb909ffb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:20 +0000
Subject: [PATCH 114/160] fix: documents were written in utf-8 until their
 charset was read

---
 ngoschema/models/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/models/files.py b/ngoschema/models/files.py
index 7ea69e4..d42e0ea 100644
--- a/ngoschema/models/files.py
+++ b/ngoschema/models/files.py
@@ -226,6 +226,8 @@ class Document(with_metaclass(SchemaMetaclass, UriFile)):
 
     def write(self, content, append=False, **opts):
         if self.filepath:
+            opts.setdefault('charset', self.charset)
+            opts.setdefault('binary', self.binary)
             if append:
                 self._append_file(self, content, self.filepath, **opts)
             else:
-- 
2.43.0


From 812127b151417cc888425b98bcaf829f9f228365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 115/160] fix: class-level deserialization of values with a
 $schema failed

---
 ngoschema/types/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index cdc7acc..e14b906 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -89,7 +89,7 @@ class Id(NsManagerContext, String):
     def _convert(self, value, context=None, **opts):
         uri = value
         if value:
-            ns_mgr = find_ns_mgr(context or self._context)
+            ns_mgr = find_ns_mgr(self._context if context is None else context)
             if cn_re.search(uri):
                 uri = ns_mgr.get_cname_id(uri)
             if '#' not in uri:
@@ -99,7 +99,7 @@ class Id(NsManagerContext, String):
 
     @staticmethod
     def _serialize(self, value, context=None, **opts):
-        ns_mgr = find_ns_mgr(context or self._context)
+        ns_mgr = find_ns_mgr(self._context if context is None else context)
         canonical = opts.get('canonical', self._canonical)
         if canonical:
             return ns_mgr.get_id_cname(value)
-- 
2.43.0


From 93997d10dbc548beab1c9c4ef8573e15a603ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:12 +0000
Subject: [PATCH 116/160] fix: the $schema was removed from the values given

---
 ngoschema/protocols/object_protocol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 1fe08a7..c00d307 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -170,10 +170,11 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers import type_builder
         data = args[0] if args else kwargs
         if isinstance(data, Mapping) and data.get('$schema'):
-            s_id = Id.convert(scope(data.pop('$schema'), cls._id), **kwargs)
+            s_id = Id.convert(scope(data['$schema'], cls._id), **kwargs)
             if s_id != cls._id:
-                cls = type_builder.load(s_id)
-                return cls(*args, **kwargs)
+                subclass = type_builder.load(s_id)
+                if subclass is not cls:
+                    return subclass(*args, **kwargs)
         return super(ObjectProtocol, cls).__new__(cls)
 
     @staticmethod
@@ -196,6 +197,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if value is None:
             return value
         if value.get('$schema'):
+            value = self._collType(value)
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
-- 
2.43.0


From 38ec18ec764687f6e14773cd5114250f6e943e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 117/160] fix: values with a $schema were deserialized with the
 base class

---
 ngoschema/protocols/object_protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index c00d307..5904ff1 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -225,10 +225,12 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             return value
         value = dict(value)
         # handle subclassing
+        subclass_id = None
         if value.get('$schema'):
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
                 self = type_builder.load(s_id)
+                subclass_id = s_id
         # handle aliases/property translations
         for k in set(value).difference(self._properties).intersection(self._propertiesTranslation):
             # deals with conflicting properties with identical translated names
@@ -236,7 +238,12 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         value.update({k2: value.pop(k1) for k1, k2 in self._aliases.items() if k1 in value})
         value.update({k2: - value.pop(k1) for k1, k2 in self._aliasesNegated.items() if k1 in value})
         # required with default
-        return CollectionProtocol._deserialize(self, value, **opts)
+        ret = CollectionProtocol._deserialize(self, value, **opts)
+        if subclass_id and not opts.get('evaluate', True):
+            # the data is not evaluated yet, and has to be with the subclass
+            ret['$schema'] = subclass_id
+            ret.move_to_end('$schema', False)
+        return ret
 
     @staticmethod
     def _has_default(self, value=None, **opts):
-- 
2.43.0


From cadc56bca72b0b74816239563d99f701052af572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:37 +0000
Subject: [PATCH 118/160] fix: the $schema of plain values was lost when
 serializing them

---
 ngoschema/protocols/object_protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5904ff1..4d17307 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -494,6 +494,13 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     @staticmethod
     def _serialize(self, value, schema=False, excludes=[], only=[], **opts):
+        from ..managers.type_builder import type_builder
+        # handle subclassing
+        if isinstance(value, Mapping) and not isinstance(value, Serializer) and value.get('$schema'):
+            s_id = Id.convert(scope(value['$schema'], self._id), **opts)
+            if s_id != self._id:
+                self = type_builder.load(s_id)
+                schema = True
         serializer = self if not isinstance(value, Serializer) else value.__class__
         context = getattr(value, '_context', self._context)
         attr_prefix = opts.get('attr_prefix', self._attrPrefix)
@@ -517,7 +524,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         if isinstance(value, ObjectProtocol) and value._id != self._id:
             schema = True
         if schema:
-            ret['$schema'] = Id.serialize(value._id, context=context)
+            ret['$schema'] = Id.serialize(getattr(value, '_id', self._id), context=context)
             ret.move_to_end('$schema', False)
         return ret
 
-- 
2.43.0


From c445ef441ef195faff728885d63527085968d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 119/160] fix: the parents of instances were never known

---
 ngoschema/contexts/instance_context.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngoschema/contexts/instance_context.py b/ngoschema/contexts/instance_context.py
index f8c52d0..280e5b2 100644
--- a/ngoschema/contexts/instance_context.py
+++ b/ngoschema/contexts/instance_context.py
@@ -11,7 +11,8 @@ class InstanceContext(ObjectProtocolContext):
     def set_context(self, context, **opts):
         from ..models.instances import Instance
         ObjectProtocolContext.set_context(self, context, **opts)
-        self._parentInstance = next((m for m in self._context.maps
-                                      if isinstance(m, Instance) and m is not self), None)
+        parent = next((m for m in self._context.maps if isinstance(m, Instance) and m is not self), None)
+        # the attribute of this class hides the descriptor of the property when there is one
+        self.__dict__['_parentInstance'] = parent
         if '_parentInstance' in self._properties:
-            self._set_dataValidated('_parentInstance', self._parentInstance)
+            self._set_dataValidated('_parentInstance', parent)
-- 
2.43.0


From 09ca106e2e193b5c83dd14cc42db62d44dcfe62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 120/160] fix: canonical names were stale after renaming a
 parent

---
 ngoschema/models/instances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index aaaa55f..32ab79f 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -28,7 +28,7 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
         a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
         return '<%s %s>' % (self.qualname(), ' '.join(a))
 
-    @depend_on_prop('name')
+    @depend_on_prop('name', '_parentInstance.canonicalName')
     def get_canonicalName(self):
         return self._canonicalName
 
-- 
2.43.0


From c8ef14ef9b15a5df09c0f69cafad45c2a627d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:22 +0000
Subject: [PATCH 121/160] fix: canonical names could not be resolved

---
 ngoschema/protocols/object_protocol.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 4d17307..e10bfa8 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -5,7 +5,7 @@ from __future__ import unicode_literals
 import sys
 import six
 import logging
-from collections import MutableMapping, Mapping
+from collections import MutableMapping, Mapping, Sequence
 from collections import OrderedDict, defaultdict
 import re
 from operator import neg
@@ -347,6 +347,9 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     def resolve_cname_path(self, cname):
         from ..models.instances import Instance
+        def _is_array(value):
+            return isinstance(value, Sequence) and not isinstance(value, str)
+
         # use generators because of 'null' which might lead to different paths
         def _resolve_cname_path(cn, cur, cur_cn, cur_path):
             # empty path, yield current path and doc
@@ -358,22 +361,24 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     if cn2 == cn:
                         yield cur, cn, cur_path
                     for k, v in cur.items():
-                        if Object.check(v) or Array.check(v, split_string=False):
+                        if k in getattr(cur, '_notSerialized', ()):
+                            continue  # such as the parent
+                        if Object.check(v) or _is_array(v):
                             for _ in _resolve_cname_path(cn, v, cn2, cur_path + [k]):
                                 yield _
-            if Array.check(cur, split_string=False):
+            if _is_array(cur):
                 for i, v in enumerate(cur):
                     for _ in _resolve_cname_path(cn, v, cur_cn, cur_path + [i]):
                         yield _
 
-        cname = [self.name] if isinstance(self, Instance) else []
-        cname += [e.split(':')[-1] for e in cname]
+        root = [self.name] if isinstance(self, Instance) else []
+        cname = root + [e.split(':')[-1] for e in cname]
         cur = self
         cur_cn = []
         # first search without last element, as last one might not be a named object
         # but the name of an attribute
         for d, c, p in _resolve_cname_path(cname[:-1], cur, cur_cn, []):
-            if cname[-1] in d or (d.get(ATTRIBUTE_NAME_FIELD) or '<anonymous>').rsplit(':')[-1] == cname[-1]:
+            if cname[-1] in d:
                 p.append(cname[-1])
                 return p
             # we can continue the search from last point. we remove the last element of the
@@ -384,7 +389,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
 
     #@assert_arg(1, Tuple, strDelimiter='.')
     def resolve_cname(self, cname):
-        cname = cname if Array.check(cname) else cname.split('.')
+        cname = cname.split('.') if isinstance(cname, str) else cname
         cur, path = self, self.resolve_cname_path(cname)
         for p in path:
             cur = cur[p]
-- 
2.43.0


From 268b15ec5949668e57448b0707aee8aa2793bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 122/160] fix: sessions looked for canonical names in
 repositories they do not have

---
 ngoschema/session.py           | 2 +-
 ngoschema/types/foreign_key.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 6a87b06..d55f6c1 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -68,7 +68,7 @@ class Session(with_metaclass(SchemaMetaclass)):
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
-        for repo in [r for r in self._repos if issubclass(r.instanceClass, Entity)]:
+        for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
             if rn in repo:
                 v = repo.resolve_fkey(rn)
                 return v if not cn else v.resolve_cname(cn)
diff --git a/ngoschema/types/foreign_key.py b/ngoschema/types/foreign_key.py
index d8d560a..c9ed12f 100644
--- a/ngoschema/types/foreign_key.py
+++ b/ngoschema/types/foreign_key.py
@@ -202,7 +202,7 @@ class CanonicalName(ForeignKey):
     def _resolve(self, cname, session=None, **opts):
         from ..models.instances import Instance
         session = session or scoped_session(session_maker())()
-        fc_repos = [r for r in session._repos if issubclass(r.instanceClass, Instance)]
+        fc_repos = [r for r in session.repositories if issubclass(r.instanceClass, Instance)]
         root = cname[0]
         ns = cname[1:]
         for r in fc_repos:
-- 
2.43.0


From a66e7ca54912c5473f01c7a9bffa0564610e9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:55 +0000
Subject: [PATCH 123/160] fix: ids of whole documents were refused

---
 ngoschema/types/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/uri.py b/ngoschema/types/uri.py
index e14b906..bd8d244 100644
--- a/ngoschema/types/uri.py
+++ b/ngoschema/types/uri.py
@@ -77,7 +77,8 @@ class Id(NsManagerContext, String):
 
     @staticmethod
     def _check(self, value, canonical=True, context=None, **opts):
-        if Uri._check(self, value, **opts) and '#' in Uri.serialize(value, context=context):
+        # an empty fragment is lost when the uri is parsed
+        if Uri._check(self, value, **opts) and '#' in (value if isinstance(value, str) else Uri.serialize(value, context=context)):
             return value
         m = cn_re.search(String.convert(value, **opts))
         if m and canonical:
-- 
2.43.0


From 58720983d13ba109a084046fbbc8affc4fe2ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:10 +0000
Subject: [PATCH 124/160] fix: sessions did not find objects by canonical name

---
 ngoschema/session.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index d55f6c1..cff2587 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -9,7 +9,6 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import weakref
-import functools
 
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
@@ -40,7 +39,6 @@ class Session(with_metaclass(SchemaMetaclass)):
     _id = "https://numengo.org/ngoschema#/$defs/session/$defs/Session"
 
     def __init__(self, **kwargs):
-        self._resolve_cname = functools.lru_cache(1024)(self._resolve_cname_cached)
         ObjectProtocol.__init__(self, value=kwargs)
         self._new = {}  # InstanceState->object, strong refs object
         self._deleted = {}  # same
@@ -61,16 +59,14 @@ class Session(with_metaclass(SchemaMetaclass)):
         return r(session=self)
 
     def resolve_cname(self, cname):
-        return self._resolve_cname(cname)
-
-    def _resolve_cname_cached(self, cname):
+        # not cached, as the content of repositories changes
         from .models.instances import Entity
         cns = cname.split('.')
         rn = cns[0]
         cn = cns[1:]
         for repo in [r for r in self.repositories if issubclass(r.instanceClass, Entity)]:
-            if rn in repo:
-                v = repo.resolve_fkey(rn)
+            if (rn,) in repo:
+                v = repo.resolve_fkey((rn,))
                 return v if not cn else v.resolve_cname(cn)
         raise Exception("Impossible to resolve '%s'" % cname)
 
-- 
2.43.0


From cf897e39564721089fb372d5e804f0d4da6e44af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 125/160] fix: entities in a list could not be serialized by
 their keys

---
 ngoschema/models/instances.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 32ab79f..457ea1c 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -95,9 +95,10 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
                 ik = value.identityKeys
                 return ik[0] if len(ik) == 1 else ik
             if use_entity_keys:
-                keys = self.primaryKeys
+                # items are serialized by their class
+                keys = value.primaryKeys
                 assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): self.identityKeys[0]}
+                return {(keys[0] if keys[0] != '$id' else '$ref'): value.identityKeys[0]}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
             for k in self._primaryKeys:
-- 
2.43.0


From 8cf6d68aa4c3b1e2575a5f830237502488353efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:12 +0000
Subject: [PATCH 126/160] fix: empty objects of subclasses were serialized with
 the base class

---
 ngoschema/types/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 279c7b2..400ff8a 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -81,8 +81,8 @@ class Collection(Type, CollectionSerializer):
 
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
-        # an empty list, 0 or False are values, which are not replaced by the default one
-        value = value or (value if isinstance(value, (list, tuple, Number)) else self._default)
+        # an empty list, an empty object of a class, 0 or False are values, which are not replaced by the default one
+        value = value or (value if isinstance(value, (list, tuple, Number, Collection)) else self._default)
         ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
-- 
2.43.0


From 886c8b51eecec650514c6eecbf7227f2161f9698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:42 +0000
Subject: [PATCH 127/160] fix: properties of a type derived from the class
 being built failed

---
 ngoschema/managers/type_builder.py | 17 ++++++++++++++++-
 ngoschema/protocols/type_proxy.py  |  8 +++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/ngoschema/managers/type_builder.py b/ngoschema/managers/type_builder.py
index 0baebb3..46705e2 100644
--- a/ngoschema/managers/type_builder.py
+++ b/ngoschema/managers/type_builder.py
@@ -105,11 +105,26 @@ class TypeBuilder(GenericClassRegistry):
     def load(self, id):
         from ..protocols import TypeProxy
         if id not in self._registry:
-            if id in self._on_construction:
+            if id in self._on_construction or self._extends_on_construction(id):
                 return TypeProxy.build(id)
             self._registry[id] = self.build(id)
         return self._registry[id]
 
+    def get_built(self, id):
+        """The type if it can be used, None if it cannot be built yet"""
+        if id not in self._registry and id not in self._on_construction and not self._extends_on_construction(id):
+            return self.load(id)
+        return self.get(id)
+
+    def _extends_on_construction(self, id):
+        """True if one of the bases is under construction: the type cannot be built yet"""
+        if not self._on_construction:
+            return False
+        schema = resolve_uri(id)
+        extends = schema.get('extends', []) if isinstance(schema, Mapping) else []
+        return any(b in self._on_construction or (b not in self._registry and self._extends_on_construction(b))
+                   for b in [scope(e, id) for e in extends])
+
     def check_schema(self, schema):
         from jsonschema.exceptions import SchemaError
         for error in default_meta_validator.iter_errors(schema):
diff --git a/ngoschema/protocols/type_proxy.py b/ngoschema/protocols/type_proxy.py
index a3cebaa..b00d14f 100644
--- a/ngoschema/protocols/type_proxy.py
+++ b/ngoschema/protocols/type_proxy.py
@@ -2,6 +2,7 @@
 from __future__ import absolute_import
 from __future__ import unicode_literals
 
+from ..resolvers.uri_resolver import resolve_uri
 from .type_protocol import TypeProtocol
 
 
@@ -14,10 +15,11 @@ class TypeProxy(TypeProtocol):
         from ..managers.type_builder import type_builder
         from .object_protocol import ObjectProtocol
         from .array_protocol import ArrayProtocol
-        sch, bases, attrs = type_builder._on_construction[uri]
+        # the type is under construction, or one of its bases is
+        sch, bases, attrs = type_builder._on_construction.get(uri) or (resolve_uri(uri), (), {})
         schema = schema or sch
         clsname = attrs.get('_clsname') or default_ns_manager.get_id_cname(uri)
-        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch['type'], TypeProtocol)
+        protocol = {'object': ObjectProtocol, 'array': ArrayProtocol}.get(sch.get('type'), TypeProtocol)
         #bases += (protocol, TypeProxy) if not issubclass(protocol, bases) else ()
         bases += (protocol, ) if not issubclass(protocol, bases) else ()
         attrs = {k: v for k, v in attrs.items() if not k.startswith('__')}
@@ -33,7 +35,7 @@ class TypeProxy(TypeProtocol):
     @classmethod
     def proxy_type(cls):
         from ..managers.type_builder import type_builder
-        return type_builder.get(cls._proxyUri)
+        return type_builder.get_built(cls._proxyUri)
 
     @classmethod
     def check(cls, value, **opts):
-- 
2.43.0


From a39e34389d365a55a29df96282ccad56ef2196c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 128/160] fix: conversion replaced objects of subclasses by
 objects of the base class

---
 ngoschema/protocols/object_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index e10bfa8..5fd1710 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -194,7 +194,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
     def _convert(self, value, **opts):
         from ..managers.type_builder import type_builder
         #value = self._collType(value)
-        if value is None:
+        # an object of the class, or of a subclass, is already converted
+        if value is None or isinstance(value, self if isinstance(self, type) else type(self)):
             return value
         if value.get('$schema'):
             value = self._collType(value)
-- 
2.43.0


From b858f80859d022c61c551d7f5946a813b52834ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:30 +0000
Subject: [PATCH 129/160] fix: the deserialization of an empty value with a
 $schema changed the default value of objects

---
 ngoschema/protocols/object_protocol.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 5fd1710..c00efe8 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -242,8 +242,7 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         ret = CollectionProtocol._deserialize(self, value, **opts)
         if subclass_id and not opts.get('evaluate', True):
             # the data is not evaluated yet, and has to be with the subclass
-            ret['$schema'] = subclass_id
-            ret.move_to_end('$schema', False)
+            ret = self._collType([('$schema', subclass_id), *ret.items()])
         return ret
 
     @staticmethod
-- 
2.43.0


From 5f348e7226bbc8ab96b5bd12a2a8d7b64be7255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:57 +0000
Subject: [PATCH 130/160] fix: class-level deserialization replaced objects of
 subclasses by objects of the base class

---
 ngoschema/protocols/object_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index c00efe8..efaddfc 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -224,9 +224,12 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
         from ..managers.type_builder import type_builder
         if value is None:
             return value
-        value = dict(value)
         # handle subclassing
         subclass_id = None
+        if isinstance(self, type) and isinstance(value, self) and type(value) is not self:
+            self = type(value)
+            subclass_id = self._id
+        value = dict(value)
         if value.get('$schema'):
             s_id = Id.convert(scope(value.pop('$schema'), self._id), **opts)
             if s_id != self._id:
-- 
2.43.0


From 044afd8365fe20672cc0f055854d53a4990557c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:34 +0000
Subject: [PATCH 131/160] fix: optional objects which are missing were
 evaluated, and refused for their required properties

---
 ngoschema/types/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 400ff8a..8014b6c 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -118,6 +118,8 @@ class Collection(Type, CollectionSerializer):
             for k in self._call_order(self, value, **opts):
                 if self._is_included(k, value, **opts):
                     t = self._items_type(self, k)
+                    if value[k] is None and not t.is_primitive() and not t.has_default():
+                        continue  # a missing object stays missing
                     value[k] = t._evaluate(t, value[k], convert=False, validate=validate, **opts)
         return Type._evaluate(self, value, convert=False, validate=validate, **opts)
 
-- 
2.43.0


From 491c55d88c0b76983e6b80927446c118c02b311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:41 +0000
Subject: [PATCH 132/160] fix: values with a $schema were evaluated with the
 properties of the base class

---
 ngoschema/protocols/object_protocol.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index efaddfc..22c1a4a 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -204,6 +204,16 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                 self = type_builder.load(s_id)
         return CollectionProtocol._convert(self, value, **opts)
 
+    @staticmethod
+    def _evaluate(self, value, **opts):
+        from ..managers.type_builder import type_builder
+        # items are evaluated with the types and the defaults of the subclass
+        if isinstance(value, Mapping) and not isinstance(value, ObjectProtocol) and value.get('$schema'):
+            s_id = Id.convert(scope(value['$schema'], self._id), **opts)
+            if s_id != self._id:
+                self = type_builder.load(s_id)
+        return CollectionProtocol._evaluate(self, value, **opts)
+
     @staticmethod
     def _call_order(self, value, items=True, **opts):
         # make a local copy which is transfered to the sorter
-- 
2.43.0


From cfaa97360fdce5fcbb754c8f92df34e0c304d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:36 +0000
Subject: [PATCH 133/160] fix: entities were printed with their first keys

---
 ngoschema/models/instances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 457ea1c..5e30cad 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -75,7 +75,7 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         self.identityKeys
 
     def __str__(self):
-        ks = [str(k) for k in self._identityKeys]
+        ks = [str(self._dataValidated.get(k) or self._data.get(k)) for k in self._primaryKeys]
         return '<%s %s>' % (self.qualname(), ', '.join(ks))
 
     def get_primaryKeys(self):
-- 
2.43.0


From 20582786bd3d3f17b7f29065b03f984d728cef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:24 +0000
Subject: [PATCH 134/160] fix: the cost of canonical names doubled with every
 parent

---
 ngoschema/models/instances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 5e30cad..b380067 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -28,7 +28,7 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
         a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
         return '<%s %s>' % (self.qualname(), ' '.join(a))
 
-    @depend_on_prop('name', '_parentInstance.canonicalName')
+    @depend_on_prop('name', '_parentInstance._canonicalName')
     def get_canonicalName(self):
         return self._canonicalName
 
-- 
2.43.0


From 17bcd5b905bd79ae8f9dbaa6f932093bfb906cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:54 +0000
Subject: [PATCH 135/160] fix: objects built from empty values shared their
 data

---
 ngoschema/types/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/types/collection.py b/ngoschema/types/collection.py
index 8014b6c..8d1c5d4 100644
--- a/ngoschema/types/collection.py
+++ b/ngoschema/types/collection.py
@@ -3,6 +3,7 @@ from __future__ import absolute_import
 from __future__ import unicode_literals
 
 from collections import defaultdict
+from copy import copy
 from itertools import count
 from numbers import Number
 from operator import neg
@@ -82,7 +83,7 @@ class Collection(Type, CollectionSerializer):
     @staticmethod
     def _deserialize(self, value, evaluate=True, items=False, **opts):
         # an empty list, an empty object of a class, 0 or False are values, which are not replaced by the default one
-        value = value or (value if isinstance(value, (list, tuple, Number, Collection)) else self._default)
+        value = value or (value if isinstance(value, (list, tuple, Number, Collection)) else copy(self._default))
         ret = self._deserializer._deserialize(self, value, items=items, evaluate=False, **opts)
         #ret = self._collType(ret)
         if items:
-- 
2.43.0


From b78ced982bd5e47319e96cfc61a91e5759afa319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 136/160] fix: templates of the first folders of a module were
 not found

---
 ngoschema/utils/jinja2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index c0d27c3..b0644f8 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -225,7 +225,6 @@ class ModulePrefixedJinja2Environment(jinja2.Environment):
     def update_loader(self):
         from ..loaders import templates_module_loader
         self.loader.mapping = {
-            mname: jinja2.PackageLoader(mname, path.name)
+            mname: jinja2.FileSystemLoader([str(path) for path in paths])
             for mname, paths in templates_module_loader.items()
-            for path in paths
         }
-- 
2.43.0


From e1eb582f5e8fc8c3c2662ded1f79c5783d4e693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:59 +0000
Subject: [PATCH 137/160] fix: globals added after the first template were
 ignored

---
 ngoschema/utils/jinja2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index b0644f8..76670b7 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -35,6 +35,8 @@ _jinja2_globals['list'] = list
 
 def extend_jinja2_globals(**globals):
     _jinja2_globals.update(**globals)
+    if _default_jinja_env is not None:
+        _default_jinja_env.globals.update(**globals)
 
 
 def default_jinja2_env():
-- 
2.43.0


From 7cbf98558f4143e64a3049eb0a5dbf265e364f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:00 +0000
Subject: [PATCH 138/160] fix: only strings could be slugified

---
 ngoschema/utils/jinja2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 76670b7..fe0e43c 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -188,7 +188,7 @@ def underscore(word):
 
 @filters_registry.register()
 def slugify(string):
-    return _slugify(string)
+    return _slugify(str(string))
 
 
 @filters_registry.register()
-- 
2.43.0


From 018e86528254480d977ff38d33234c7c3d738f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:00 +0000
Subject: [PATCH 139/160] fix: texts to translate of templates failed

---
 ngoschema/utils/jinja2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index fe0e43c..870fa19 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -50,6 +50,7 @@ def default_jinja2_env():
         _default_jinja_env = ModulePrefixedJinja2Environment(extensions=extensions)
         _default_jinja_env.globals.update(**_jinja2_globals,
                                           Query=Query)
+        _default_jinja_env.install_null_translations()
     return _default_jinja_env
 
 
-- 
2.43.0


From a9756ca10300bd07e099d8a03797bc0768642062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:15 +0000
Subject: [PATCH 140/160] fix: what is before the last attribute of a variable
 was detected as another variable

---
 ngoschema/utils/jinja2.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngoschema/utils/jinja2.py b/ngoschema/utils/jinja2.py
index 870fa19..1b662cb 100644
--- a/ngoschema/utils/jinja2.py
+++ b/ngoschema/utils/jinja2.py
@@ -112,8 +112,13 @@ def get_jinja2_variables(source, remove_this=True):
         elif isinstance(n, jinja2.nodes.Name) and n.name in names:
             names.add('.'.join([n.name] + path))
     stripped = [re.sub(r'^(this|self)\.', '', v) for v in vars]
-    roots = set(re.split(r'[.\[]', v)[0] for v in stripped if re.match(r'[\w.\[\]]+$', v))
-    return vars + sorted(names.difference(roots, stripped))
+    # with what is before the last attributes, and detected with them
+    detected = set()
+    for v in stripped:
+        if re.match(r'[\w.\[\]]+$', v):
+            parts = re.split(r'(?=[.\[])', v)
+            detected.update(''.join(parts[:i]) for i in range(1, len(parts) + 1))
+    return vars + sorted(names.difference(detected, stripped))
 
 # ADDITIONAL FILTERS FROM INFLECTION
 
-- 
2.43.0


From 10436246f9bb87d9557d3a2373a0d219ca456eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:12 +0000
Subject: [PATCH 141/160] fix: the name of a symbol given as a template was
 evaluated but not imported

---
 ngoschema/types/symbols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/types/symbols.py b/ngoschema/types/symbols.py
index 7b3a98b..6394cf8 100644
--- a/ngoschema/types/symbols.py
+++ b/ngoschema/types/symbols.py
@@ -32,7 +32,7 @@ class Symbol(Primitive):
     def _convert(self, value, **opts):
         typed = self._builtins.get(value, value)
         if String.check(typed):
-            value = String.convert(typed, **opts)
+            typed = value = String.convert(typed, **opts)
             poss = [m.start() for m in Symbol.DOT.finditer("%s." % typed)]
             # going backwards
             for pos in reversed(poss):
-- 
2.43.0


From 3a7fe364b44d7af69901e56c2083eff08871b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:03 +0000
Subject: [PATCH 142/160] fix: the definitions of a canonical name were
 searched at its name instead of its uri

---
 ngoschema/managers/namespace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/managers/namespace_manager.py b/ngoschema/managers/namespace_manager.py
index 7dbe8d9..6eb84fe 100644
--- a/ngoschema/managers/namespace_manager.py
+++ b/ngoschema/managers/namespace_manager.py
@@ -210,7 +210,7 @@ class NamespaceManager(Registry):
         return OrderedDict([(k, ns[k]) for k in sorted(nsk)])
 
     def get_cname_definitions(self, cname):
-        ns_uri = self.get_id_cname(cname)
+        ns_uri = self._get_cname_id(cname, self._current_ns)
         doc = resolve_uri(ns_uri)
         defs = {}
         for tag in ['$defs', 'definitions']:
-- 
2.43.0


From bf9f10f14d3e68fb487bfc29d612aeddc5cc54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:09 +0000
Subject: [PATCH 143/160] fix: the items after the ones of a list of types
 could not be read

---
 ngoschema/types/array.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index 909e5a3..d844806 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -14,6 +14,8 @@ from .constants import _True
 from .collection import CollectionDeserializer, CollectionSerializer, Collection, _anonymous_ids
 from .strings import String
 
+TRUE = _True()
+
 
 class ArrayDeserializer(CollectionDeserializer):
     _collType = list
@@ -123,13 +125,16 @@ class Array(Collection, ArraySerializer):
 
     @staticmethod
     def _items_types(self, value, **opts):
-        nb = min(len(value), len(self._items)) if self._itemsIsList else len(value)
-        return [(i, self._items_type(self, i)) for i in range(nb)]
+        return [(i, self._items_type(self, i)) for i in range(len(value))]
 
     @staticmethod
     def _items_type(self, item):
         from ..protocols.type_proxy import TypeProxy
-        t = self._items[item] if self._itemsIsList else self._items
+        if self._itemsIsList:
+            # items after the ones of the list are not restricted
+            t = self._items[item] if item < len(self._items) else TRUE
+        else:
+            t = self._items
         return t.proxy_type() if getattr(t, '_proxyUri', None) else t
 
     @staticmethod
-- 
2.43.0


From 0148ab06bc2d6100fcf011800e384b21ecfa34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:09 +0000
Subject: [PATCH 144/160] fix: an item counted from the end of an array had the
 type counted from the end of the list of types

---
 ngoschema/protocols/array_protocol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ngoschema/protocols/array_protocol.py b/ngoschema/protocols/array_protocol.py
index 62a08e1..e455bc9 100644
--- a/ngoschema/protocols/array_protocol.py
+++ b/ngoschema/protocols/array_protocol.py
@@ -69,6 +69,13 @@ class ArrayProtocol(CollectionProtocol, Array, MutableSequence):
     #    #return self._items_type_cache[item] if self._itemsIsList else self._items_type_cache
     #    return Array._items_type(self, item)
 
+    @staticmethod
+    def _items_type(self, item):
+        # a negative position is relative to the end of the array, not to the end of the list of types
+        if item < 0 and not isinstance(self, type):
+            item += len(self)
+        return Array._items_type(self, item)
+
     def __len__(self):
         return len(self._data)
 
-- 
2.43.0


From e9a53cf36bcc38885a7537b3e68dc6f8c5883622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:21 +0000
Subject: [PATCH 145/160] fix: maxItems 0 and the falsy keywords of an array
 type were ignored

---
 ngoschema/types/array.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ngoschema/types/array.py b/ngoschema/types/array.py
index d844806..6321b36 100644
--- a/ngoschema/types/array.py
+++ b/ngoschema/types/array.py
@@ -26,11 +26,11 @@ class ArrayDeserializer(CollectionDeserializer):
     _strDelimiter = ','
 
     def __init__(self, minItems=None, maxItems=None, uniqueItems=None, splitString=None, strDelimiter=None, **opts):
-        self._minItems = minItems or self._minItems
-        self._maxItems = maxItems or self._maxItems
-        self._uniqueItems = uniqueItems or self._uniqueItems
-        self._splitString = splitString or self._splitString
-        self._strDelimiter = strDelimiter or self._strDelimiter
+        self._minItems = self._minItems if minItems is None else minItems
+        self._maxItems = self._maxItems if maxItems is None else maxItems
+        self._uniqueItems = self._uniqueItems if uniqueItems is None else uniqueItems
+        self._splitString = self._splitString if splitString is None else splitString
+        self._strDelimiter = self._strDelimiter if strDelimiter is None else strDelimiter
         CollectionDeserializer.__init__(self, **opts)
 
     @staticmethod
@@ -149,7 +149,7 @@ class Array(Collection, ArraySerializer):
             rs['items'] = rsi
         if self._minItems:
             rs['minItems'] = self._minItems
-        if self._maxItems:
+        if self._maxItems is not None:
             rs['maxItems'] = self._maxItems
         if self._uniqueItems:
             rs['uniqueItems'] = self._uniqueItems
-- 
2.43.0


From b7a4f0ddcfa7cfcc710925683d5f14382b3c8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:26 +0000
Subject: [PATCH 146/160] fix: an object of a subclass was validated with the
 properties of the class expected

---
 ngoschema/protocols/object_protocol.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 22c1a4a..47aef13 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -258,6 +258,13 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             ret = self._collType([('$schema', subclass_id), *ret.items()])
         return ret
 
+    @staticmethod
+    def _validate(self, value, **opts):
+        # an object of a subclass is validated with its own properties
+        if isinstance(self, type) and isinstance(value, self):
+            self = type(value)
+        return CollectionProtocol._validate(self, value, **opts)
+
     @staticmethod
     def _has_default(self, value=None, **opts):
         value = self._default if value is None else value
-- 
2.43.0


From ee8885cfdc8f70d26c325ed57921fd53078d3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:04 +0000
Subject: [PATCH 147/160] fix: the last instance of a context could not be
 searched

---
 ngoschema/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/utils.py b/ngoschema/utils/utils.py
index 249f5c0..6b01aa7 100644
--- a/ngoschema/utils/utils.py
+++ b/ngoschema/utils/utils.py
@@ -152,7 +152,7 @@ class Context(ReadOnlyChainMap):
     def find_instance(self, cls, default=None, exclude=None, reverse=False):
         gen = (m for m in self.maps if isinstance(m, cls) and m is not exclude)
         if reverse:
-            gen = reversed(gen)
+            gen = reversed(list(gen))
         return next(gen, default)
 
     def __hash__(self):
-- 
2.43.0


From d601b2ce1a2d1f50e9f80e394dccf6ce5c158a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:47 +0000
Subject: [PATCH 148/160] fix: a loader or saver created with a path did not
 read or write it

---
 ngoschema/protocols/file_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/file_loader.py b/ngoschema/protocols/file_loader.py
index d7c8307..37248cc 100644
--- a/ngoschema/protocols/file_loader.py
+++ b/ngoschema/protocols/file_loader.py
@@ -85,7 +85,7 @@ class FileLoader(Loader):
         return self._load_file(self, filepath, **opts)
 
     def load(self, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or getattr(self, 'filepath', None) or self._filepath
         return FileLoader._load(self, filepath, **opts)
 
 
@@ -171,5 +171,5 @@ class FileSaver(Saver, FileLoader):
         return FileSaver._save_file(self, value, self.filepath, **opts)
 
     def save(self, value, filepath=None, **opts):
-        filepath = filepath or self.filepath
+        filepath = filepath or getattr(self, 'filepath', None) or self._filepath
         return FileSaver._save_file(self, value, filepath, **opts)
-- 
2.43.0


From f265e36923429d2b3afec38d1e1de909086aca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:52 +0000
Subject: [PATCH 149/160] fix: an attribute prefix was removed from namespaces
 as a set of characters and lost for unknown ones

---
 ngoschema/utils/xmltodict.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index c253b61..b2fe061 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -364,10 +364,9 @@ def _process_namespace(name, namespaces, ns_sep=':', attr_prefix='@'):
     except ValueError:
         pass
     else:
-        ns_res = namespaces.get(ns.strip(attr_prefix))
-        name = '{}{}{}{}'.format(
-            attr_prefix if ns.startswith(attr_prefix) else '',
-            ns_res, ns_sep, name) if ns_res else name
+        prefix = attr_prefix if attr_prefix and ns.startswith(attr_prefix) else ''
+        ns_res = namespaces.get(ns[len(prefix):])
+        name = '{}{}{}{}'.format(prefix, ns_res, ns_sep, name) if ns_res else prefix + name
     return name
 
 
-- 
2.43.0


From 6d306159f9a751c79fac22087334455b9667963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:52 +0000
Subject: [PATCH 150/160] fix: the declarations of namespaces were not written
 with another attribute prefix

---
 ngoschema/utils/xmltodict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index b2fe061..d7ffc95 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -424,7 +424,7 @@ def _emit(key, value, content_handler,
             if ik.startswith(attr_prefix):
                 ik = _process_namespace(ik, namespaces, namespace_separator,
                                         attr_prefix)
-                if ik == '@xmlns' and isinstance(iv, dict):
+                if ik == attr_prefix + 'xmlns' and isinstance(iv, dict):
                     for k, v in iv.items():
                         attr = 'xmlns{}'.format(':{}'.format(k) if k else '')
                         attrs[attr] = str(v)
-- 
2.43.0


From 3cc20e83c565b79053b3774d36f10913546ed572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:52 +0000
Subject: [PATCH 151/160] fix: the namespaces of an element without attributes
 were declared in another element, or lost

---
 ngoschema/utils/xmltodict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index d7ffc95..aa948d6 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -92,7 +92,7 @@ class _DictSAXHandler(object):
     def startElement(self, full_name, attrs):
         name = self._build_name(full_name)
         attrs = self._attrs_to_dict(attrs)
-        if attrs and self.namespace_declarations:
+        if self.namespace_declarations:
             attrs['xmlns'] = self.namespace_declarations
             self.namespace_declarations = OrderedDict()
         self.path.append((name, attrs or None))
-- 
2.43.0


From 1131e288502a6a24657ba5744998f44641c18348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:34 +0000
Subject: [PATCH 152/160] fix: an attribute prefix holding the separator of
 namespaces was taken for a namespace

---
 ngoschema/utils/xmltodict.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ngoschema/utils/xmltodict.py b/ngoschema/utils/xmltodict.py
index aa948d6..8c8604d 100644
--- a/ngoschema/utils/xmltodict.py
+++ b/ngoschema/utils/xmltodict.py
@@ -359,14 +359,14 @@ def parse(xml_input, encoding=None, expat=expat, process_namespaces=False,
 def _process_namespace(name, namespaces, ns_sep=':', attr_prefix='@'):
     if not namespaces:
         return name
+    # the prefix of attributes can hold the separator
+    prefix = attr_prefix if attr_prefix and name.startswith(attr_prefix) else ''
     try:
-        ns, name = name.rsplit(ns_sep, 1)
+        ns, local = name[len(prefix):].rsplit(ns_sep, 1)
     except ValueError:
-        pass
-    else:
-        prefix = attr_prefix if attr_prefix and ns.startswith(attr_prefix) else ''
-        ns_res = namespaces.get(ns[len(prefix):])
-        name = '{}{}{}{}'.format(prefix, ns_res, ns_sep, name) if ns_res else prefix + name
+        return name
+    ns_res = namespaces.get(ns)
+    name = '{}{}{}{}'.format(prefix, ns_res, ns_sep, local) if ns_res else prefix + local
     return name
 
 
-- 
2.43.0


From 8c7e908e9cd4560d9dcf8d770cbbd57395ae605f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:05 +0000
Subject: [PATCH 153/160] fix: the keys of entities serialized by them were not
 serialized

---
 ngoschema/models/instances.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index b380067..1301b37 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -90,19 +90,23 @@ class Entity(with_metaclass(SchemaMetaclass, EntityContext)):
         use_identity_keys = opts.get('use_identity_keys', False)
         use_entity_keys = opts.get('use_entity_keys', False)
         add_identity_keys = opts.get('add_identity_keys', False)
+
+        def key(k):
+            # keys are serialized as the other values
+            return value.items_serialize(k) if value[k] is not None else None
         if value and not root_entity:
             if use_identity_keys:
-                ik = value.identityKeys
+                ik = [key(k) for k in value.primaryKeys]
                 return ik[0] if len(ik) == 1 else ik
             if use_entity_keys:
                 # items are serialized by their class
                 keys = value.primaryKeys
                 assert len(keys) == 1, keys
-                return {(keys[0] if keys[0] != '$id' else '$ref'): value.identityKeys[0]}
+                return {(keys[0] if keys[0] != '$id' else '$ref'): key(keys[0])}
         data = ObjectProtocol._serialize(self, value, **opts)
         if add_identity_keys:
             for k in self._primaryKeys:
-                pk = value[k]
+                pk = key(k)
                 if pk is not None:
-                    data[k] = value[k]
+                    data[k] = pk
         return data
-- 
2.43.0


From 7176be76aa9efc8525eb6a8ead98616ca901c6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:17 +0000
Subject: [PATCH 154/160] fix: options given to a scope with a session failed
 with a NameError

---
 ngoschema/session.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index cff2587..6061cb7 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -10,6 +10,7 @@ from __future__ import unicode_literals
 
 import weakref
 
+from sqlalchemy import exc as sa_exc
 from sqlalchemy.util import ScopedRegistry, ThreadLocalRegistry
 
 from . import utils
-- 
2.43.0


From 44aa2b6bb2b7ed1843dd0b874d40d1bc364d5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:17 +0000
Subject: [PATCH 155/160] fix: a scope with a session could not be configured

---
 ngoschema/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngoschema/session.py b/ngoschema/session.py
index 6061cb7..318c356 100644
--- a/ngoschema/session.py
+++ b/ngoschema/session.py
@@ -8,6 +8,7 @@ licence: GNU GPLv3
 from __future__ import print_function
 from __future__ import unicode_literals
 
+import logging
 import weakref
 
 from sqlalchemy import exc as sa_exc
@@ -264,6 +265,8 @@ class scoped_session(object):
 
     """
 
+    _logger = logging.getLogger(__name__)
+
     session_factory = None
     """The `session_factory` provided to `__init__` is stored in this
     attribute and may be accessed at a later time.  This can be useful when
-- 
2.43.0


From 84d13c7c770f3a6d0e8aac570cd4a5613715695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:41 +0000
Subject: [PATCH 156/160] fix: canonical names held the text of the templates
 of the names which were not read yet

---
 ngoschema/models/instances.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngoschema/models/instances.py b/ngoschema/models/instances.py
index 1301b37..a5d1db5 100644
--- a/ngoschema/models/instances.py
+++ b/ngoschema/models/instances.py
@@ -28,9 +28,11 @@ class Instance(with_metaclass(SchemaMetaclass, InstanceContext)):
         a = ([cn] if cn else []) + [f'{k}={str(self._dataValidated[k] or self._data[k])}' for k in self._required]
         return '<%s %s>' % (self.qualname(), ' '.join(a))
 
-    @depend_on_prop('name', '_parentInstance._canonicalName')
+    @depend_on_prop('name', '_parentInstance.canonicalName')
     def get_canonicalName(self):
-        return self._canonicalName
+        # names can be templates: they are evaluated
+        pi = self._parentInstance
+        return f'{pi.canonicalName}.{self.name}' if pi is not None else self.name
 
     def get_parentInstance(self):
         return self._parentInstance  # set in context
-- 
2.43.0


From 9dddde0aa7196d97b356e0f3ad3101203e91ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:56 +0000
Subject: [PATCH 157/160] fix: a schema file stating its id was loaded by its
 file name

---
 ngoschema/loaders/schemas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngoschema/loaders/schemas.py b/ngoschema/loaders/schemas.py
index c5f2f2f..4290eb1 100644
--- a/ngoschema/loaders/schemas.py
+++ b/ngoschema/loaders/schemas.py
@@ -68,7 +68,8 @@ def load_schema_file(schema_path, schemas_store=None):
     with open(str(schema_path), "rb") as f:
         try:
             schema = json.loads(f.read().decode("utf-8"), object_pairs_hook=collections.OrderedDict)
-            schema.setdefault('$id', pathlib.Path(schema_path).stem)
+            if _id_of(schema) is None:
+                schema['$id'] = pathlib.Path(schema_path).stem
             return load_schema(schema, schemas_store)
         except Exception as er:
             logger.error(schema_path)
-- 
2.43.0


From b43bc3fe52768f53d6f6b284aa2c28a3fac8c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:56 +0000
Subject: [PATCH 158/160] fix: an empty file of configuration of logs could not
 be loaded

---
 ngoschema/config/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngoschema/config/utils.py b/ngoschema/config/utils.py
index 1fda178..f14d94f 100644
--- a/ngoschema/config/utils.py
+++ b/ngoschema/config/utils.py
@@ -38,7 +38,7 @@ def load_log_config(filepath):
     cfg = copy.deepcopy(settings.LOGGING)
     with filepath.open('r') as f:
         cfg2 = yaml.load(f.read())
-    cfg.update(cfg2)
+    cfg.update(cfg2 or {})
     logging.config.dictConfig(cfg)
     return cfg
 
-- 
2.43.0


From 1bb8ae9945a4b711f44db66b9f542722e2534d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:25 +0000
Subject: [PATCH 159/160] fix: an instance whose name has a prefix could not
 resolve canonical names

---
 ngoschema/protocols/object_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index 47aef13..dac5c50 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -391,8 +391,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
                     for _ in _resolve_cname_path(cn, v, cur_cn, cur_path + [i]):
                         yield _
 
-        root = [self.name] if isinstance(self, Instance) else []
-        cname = root + [e.split(':')[-1] for e in cname]
+        root = [self.name or ''] if isinstance(self, Instance) else []
+        cname = [e.split(':')[-1] for e in root + list(cname)]
         cur = self
         cur_cn = []
         # first search without last element, as last one might not be a named object
-- 
2.43.0


From d2662a547a4b7c8669f520f5ca049aa41fa97bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:08 +0000
Subject: [PATCH 160/160] fix: a property named context was given to the method
 setting the context

---
 ngoschema/protocols/object_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngoschema/protocols/object_protocol.py b/ngoschema/protocols/object_protocol.py
index dac5c50..7cfd0cd 100644
--- a/ngoschema/protocols/object_protocol.py
+++ b/ngoschema/protocols/object_protocol.py
@@ -773,6 +773,8 @@ class ObjectProtocol(ObjectProtocolContext, CollectionProtocol, Object, MutableM
             pfun = {}
             for prop in ['get', 'set', 'del']:
                 fname = f'{PROP_PREF[prop]}{ptrans}'
+                if hasattr(ObjectProtocol, fname):
+                    continue  # a method of all objects is not an accessor
                 fun = attrs.get(fname)
                 if not fun:
                     fun = [getattr(b, fname) for b in bases + bases_extended if hasattr(b, fname)]
-- 
2.43.0

