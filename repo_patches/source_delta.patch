From 06d3f09ad65a9c0d87752dc97740513b068cfc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:45 +0000
Subject: [PATCH 01/92] fix: enforce minf/maxf when decoding Number

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 22f10a4594c863b18680072cb4781cd9e49f0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:47 +0000
Subject: [PATCH 02/92] fix: reject a decoded anyOf value that matches no
 alternative

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..3e98a35 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From eac7dc5202e4b5f3b4753fc7925111f7fd93b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:49 +0000
Subject: [PATCH 03/92] fix: treat a TypeError from an untagged union
 alternative as a failed match

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3e98a35..8799168 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 622f6584422574cdf3a72ad2c285205af4351dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:52 +0000
Subject: [PATCH 04/92] fix: do not accept a boolean as an Enumerated item id

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8799168..dde0a9a 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -232,7 +232,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap), '')), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -240,7 +240,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap), '')), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From cd4f314cc683665164787e50fcfcdb23db7eb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:53 +0000
Subject: [PATCH 05/92] fix: reject instead of StopIteration for Choice or Map
 types without fields and empty Choice values

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index dde0a9a..5da6d68 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -79,7 +79,7 @@ def _bad_value(ts: SymbolTableField, val: Any, fld: GenFieldDefinition = None) -
     if fld is not None:
         raise_error(f'{td.TypeName}({td.BaseType}): missing required field "{fld.FieldName}": {val}')
     else:
-        v = next(iter(val)) if isinstance(val, dict) else val
+        v = next(iter(val), None) if isinstance(val, dict) else val
         raise_error(f'{td.TypeName}({td.BaseType}): bad value: {v}')
 
 
@@ -111,8 +111,8 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
-    except ValueError:
+        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
+    except (ValueError, TypeError):
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
 
-- 
2.43.0


From 7fd0c368edc8b3ffe0d5945410bc63c7fdd1e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:24 +0000
Subject: [PATCH 06/92] fix: apply field codecs to bare Binary fields
 (base64url) and convert IP network arrays from their API value

---
 distribution/src/jadn/codec/__init__.py | 9 ++++-----
 distribution/src/jadn/codec/codec.py    | 7 ++++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..88b64fd 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -17,7 +17,7 @@ from .format_validate import format_validators, get_format_validate_function
 from ..utils import ftopts_s2d, get_config, object_types, raise_error, topts_s2d
 from ..definitions import (
     # Field Indexes
-    BaseType, FieldID, FieldName,
+    FieldID, FieldName,
     # Const values
     PRIMITIVE_TYPES, CORE_TYPES,
     # Dataclass
@@ -149,10 +149,9 @@ class Codec:
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
                 TypeOpts={},
-                # TODO: check if t[BaseType] should just be t
-                FormatValidate=get_format_validate_function(self.format_validate, t[BaseType], ''),
-                FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
-                FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
+                FormatValidate=get_format_validate_function(self.format_validate, t, ''),
+                FormatEncode=get_format_encode_function(self.format_codec, t, ''),
+                FormatDecode=get_format_decode_function(self.format_codec, t, '')
             )
 
 
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 5da6d68..7b0db85 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -417,13 +417,18 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 _bad_value(ts, aval, f)
     while sval and sval[-1] is None:            # Strip non-populated trailing optional values
         sval.pop()
+    if ts.TypeOpts.get('format') in ('ipv4-net', 'ipv6-net'):   # Text is converted from API values
+        return ts.FormatEncode(aval)
     return ts.FormatEncode(sval)
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
+    if ts.TypeOpts.get('format') in ('ipv4-net', 'ipv6-net'):   # Text is converted to API values
+        _encode_array(ts, val, codec)
+        return val
     aval = list()
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, set(aval[len(ts.Fld):]))
-- 
2.43.0


From 5c37ae16b03b33f669a2a23da71be39065d18e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:26 +0000
Subject: [PATCH 07/92] fix: reject array values of the wrong type or with
 unhashable extra elements with a ValueError

---
 distribution/src/jadn/codec/codec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 7b0db85..80120c5 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -165,7 +165,7 @@ def _check_count(ts: SymbolTableField, val):
     return val
 
 
-def _extra_value(ts: SymbolTableField, val, extra: set):
+def _extra_value(ts: SymbolTableField, val, extra):
     td = ts.TypeDef
     raise_error(f'{td.TypeName}({td.BaseType}): unexpected field: \"{", ".join(str(k) for k in extra)}\"')
 
@@ -385,19 +385,19 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         else:
             if 'minc' not in fopts or fopts['minc'] > 0:
                 _bad_value(ts, val, fd)
-    extra = set(val) - set(fnames) if isinstance(val, dict) else set(val[len(ts.Fld):])
+    extra = set(val) - set(fnames) if isinstance(val, dict) else val[len(ts.Fld):]
     if extra:
         _extra_value(ts, val, extra)
     return aval
 
 
 def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
-    ts.FormatValidate(aval)
     _check_type(ts, aval, list)
+    ts.FormatValidate(aval)
     _check_count(ts, aval)
     sval = list()
     if len(aval) > len(ts.Fld):
-        _extra_value(ts, aval, set(aval[len(ts.Fld):]))
+        _extra_value(ts, aval, aval[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn.FieldID].Def  # Use symtab field definition
         fx = f.FieldID - 1
@@ -431,7 +431,7 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         return val
     aval = list()
     if len(val) > len(ts.Fld):
-        _extra_value(ts, val, set(aval[len(ts.Fld):]))
+        _extra_value(ts, val, val[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
         fx = f[FieldID] - 1
-- 
2.43.0


From 614ec87124b1fda2be85402ff0d87b82d3e1c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:28 +0000
Subject: [PATCH 08/92] fix: reject serialized values that are not strings when
 the format is text

---
 distribution/src/jadn/codec/codec.py                 | 1 +
 distribution/src/jadn/codec/format_serialize_json.py | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 80120c5..d00f89c 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -177,6 +177,7 @@ def _encode_binary(ts: SymbolTableField, aval, codec: 'Codec'):    # Encode byte
 
 
 def _decode_binary(ts: SymbolTableField, sval, codec: 'Codec'):    # Decode ASCII string to bytes
+    _check_type(ts, sval, str)
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, bytes)        # assert format decode returns correct type
     return _check_size(ts, aval)
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..eb8686e 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -129,7 +129,13 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
+def _check_str(sval: str) -> None:
+    if not isinstance(sval, str):
+        raise TypeError(f'{sval} is not a string')
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
+    _check_str(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
@@ -139,6 +145,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
+    _check_str(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
@@ -152,6 +159,7 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
+    _check_str(sval)
     t, u = sval.split('-', maxsplit=1)
     return [t, u]
 
@@ -171,6 +179,7 @@ def int2datems(dt: int) -> str:
 
 
 def datems2int(dts: str) -> int:
+    _check_str(dts)
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
     return int(1000 * datetime.timestamp(x))
 
-- 
2.43.0


From b6af8c3dfb045344e114280ad810dd98b6adc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:30 +0000
Subject: [PATCH 09/92] fix: convert datetime-ms values without losing
 milliseconds and reject out of range dates

---
 .../src/jadn/codec/format_serialize_json.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index eb8686e..c59febd 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -3,7 +3,7 @@ import binascii
 import re
 import string
 
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
@@ -171,8 +171,14 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 }
 
 
+EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    try:
+        y = datetime.isoformat(EPOCH + timedelta(milliseconds=dt))
+    except OverflowError as e:
+        raise ValueError(e)
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
@@ -181,7 +187,9 @@ def int2datems(dt: int) -> str:
 def datems2int(dts: str) -> int:
     _check_str(dts)
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    if x.tzinfo is None:
+        x = x.astimezone()      # No offset: local time
+    return (x - EPOCH) // timedelta(milliseconds=1)
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From bd58cbd0ffc25f08ca9436b219275d0fc5cef9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:50 +0000
Subject: [PATCH 10/92] fix: compare ArrayOf elements that are themselves
 arrays in order when checking for duplicates

---
 distribution/src/jadn/codec/codec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index d00f89c..66660bd 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -56,12 +56,12 @@ class CodecTableField(BasicDataclass):
 
 
 def fset(x):
-    if isinstance(x, dict):
-        return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+    def fval(v):    # hashable copy of a value
+        if isinstance(v, dict):
+            return frozendict({k: fval(i) for k, i in v.items()})
+        return tuple(fval(i) for i in v) if isinstance(v, (tuple, list)) else v
+
+    return frozenset(fval(v) for v in x)
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
-- 
2.43.0


From 16d223917580599511f51f5b979f41e43e2c8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:52 +0000
Subject: [PATCH 11/92] fix: count only present fields when checking the size
 of a concise Record

---
 distribution/src/jadn/codec/codec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 66660bd..02c5b8c 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -358,7 +358,10 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    if isinstance(sval, list):
+        _check_count(ts, sval)
+    else:
+        _check_size(ts, sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
-- 
2.43.0


From eccac02b914fa90e481d2a30a7aa8ae1e5471cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:54 +0000
Subject: [PATCH 12/92] fix: use field ids for serialized Map fields with the
 id option in all modes

---
 distribution/src/jadn/codec/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 02c5b8c..1245d3e 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -329,6 +329,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
     fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    if 'id' in ts.TypeOpts:
+        fx = FieldID
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -367,6 +369,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
     fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    if 'id' in ts.TypeOpts:
+        fx = FieldID
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From b58fc368477c4a7924d7d91f6eb267db8d1b3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:56 +0000
Subject: [PATCH 13/92] fix: validate and decode MapOf keys when decoding

---
 distribution/src/jadn/codec/codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 1245d3e..f5eacf1 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -490,7 +490,8 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    return {codec.decode(to['ktype'], k): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 38fa21a6020d6695be15144e5575b23076e703a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:40 +0000
Subject: [PATCH 14/92] fix: resolve external Choice tags in every mode and
 reject a missing tag

---
 distribution/src/jadn/codec/__init__.py |  2 +-
 distribution/src/jadn/codec/codec.py    | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 88b64fd..83092bd 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -79,7 +79,7 @@ class Codec:
             assert fopts['minc'] in (0, 1) and fopts['maxc'] == 1     # Other cardinalities have been simplified
             ctag: Optional[int] = None
             if 'tagid' in fopts:
-                ctag = fopts['tagid'] if fa == FieldID else fnames[fopts['tagid']]
+                ctag = fnames[fopts['tagid']]   # API keys of Map and Record fields are always names
             return SymbolTableFieldDefinition(
                 fld,        # SF_DEF: JADN field definition
                 fopts,      # SF_OPT: Field options (dict)
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index f5eacf1..a9eede0 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -338,7 +338,9 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            if ctag not in aval:
+                _bad_value(ts, aval, fd)
             e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
             sv = next(iter(e.values()))
         else:
@@ -385,8 +387,11 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                tf = next(t for t in ts.TypeDef.Fields if t[FieldName] == ctag)
+                ct = tf[fx] if isinstance(val, dict) else tf[FieldID] - 1
+                if ct not in (val if isinstance(val, dict) else range(len(val))):
+                    _bad_value(ts, val, fd)
+                av = codec.decode(fd.FieldType, {val[ct]: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
@@ -413,7 +418,9 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
+                if (tx := int(fopts['tagid']) - 1) >= len(aval):
+                    _bad_value(ts, aval, f)
+                choice_type = aval[tx]
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
             else:
@@ -447,7 +454,9 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
+                if (tx := int(fopts['tagid']) - 1) >= len(val):
+                    _bad_value(ts, val, f)
+                choice_type = val[tx]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
             else:
-- 
2.43.0


From 6c56521181b14a09f65a53b206d313a7f1cd7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:42 +0000
Subject: [PATCH 15/92] fix: accept JSON object keys for MapOf types with
 Integer keys when decoding

---
 distribution/src/jadn/codec/codec.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a9eede0..f323092 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -500,7 +500,13 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
     to = ts.TypeOpts
-    return {codec.decode(to['ktype'], k): codec.decode(to['vtype'], v) for k, v in sval.items()}
+
+    def key(k):     # JSON object keys are always strings
+        kdef = codec.symtab[to['ktype']].TypeDef if to['ktype'] in codec.symtab else None
+        is_int = kdef is not None and kdef.BaseType == 'Integer' and isinstance(k, str)
+        return int(k) if is_int and re.fullmatch(r'-?(0|[1-9][0-9]*)', k) else k
+
+    return {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 113d4e4fa57e9f8617417762bf7e0d370b3deb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:35 +0000
Subject: [PATCH 16/92] fix: unfold MapOf types whose key type is not a defined
 type

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..3b1ee1b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From 21a9935a28c3dc02993402eee7dedd6d442d550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:37 +0000
Subject: [PATCH 17/92] fix: name derived enumerations with the id option
 consistently

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3b1ee1b..7e0b384 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From 469e5f2db5b315d55b8fcb55a1217eaf586929df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:40 +0000
Subject: [PATCH 18/92] fix: keep the full path of nested directories in
 pointer enumerations

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 7e0b384..145bfff 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -139,7 +139,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From 93c0919f2452cdee0190292d548dd3d88671a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:42 +0000
Subject: [PATCH 19/92] fix: keep the type options of multi-valued fields when
 unfolding multiplicity

---
 distribution/src/jadn/transform/transform.py | 26 ++++++++++++--------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 145bfff..1d9a8eb 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -68,6 +68,18 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
+# Move listed type options of a field to an explicit type, and redirect field to that type
+def explicit_type(schema: dict, fdef: GenFieldDefinition, optnames: List[str], typename: str, sys: str) -> NoReturn:
+    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in optnames]
+    name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
+    newname = name if name else typename
+    if newname not in [t.TypeName for t in schema['types']]:
+        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
+        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
+        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
+    fdef.FieldType = newname           # Redirect field to explicit type definition
+
+
 # Replace field multiplicity with explicit ArrayOf type definitions
 def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
     for tdef in list(schema['types']):
@@ -76,6 +88,8 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    if eopts := [o for o in fto if o != 'unique']:      # Make anonymous element type explicit
+                        explicit_type(schema, fdef, eopts, f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item', sys)
                     newopts = {
                         'vtype': fdef.FieldType,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
@@ -98,16 +112,8 @@ def unfold_anonymous_types(schema: dict, sys: str) -> NoReturn:
         if has_fields(tdef.BaseType):
             for fdef in tdef.Fields:
                 # If FieldOptions contains a type option, create an explicit type
-                if fto := ftopts_s2d(fdef.FieldOptions)[1]:
-                    # Move all type options to new type
-                    newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
-                    name = epname(newopts, sys)              # If enum/pointer option, use derived enum typename
-                    newname = name if name else f'{tdef.TypeName}{sys}{fdef.FieldName}'
-                    if newname not in [t.TypeName for t in schema['types']]:
-                        newtype = 'Enumerated' if epx(newopts) is not None else fdef.FieldType
-                        assert is_builtin(newtype), f'{newname} ({newtype})'   # Don't create a bad type definition
-                        schema['types'].append(TypeDefinition(newname, newtype, newopts, fdef.FieldDesc))
-                    fdef.FieldType = newname           # Redirect field to explicit type definition
+                if fto := ftopts_s2d(fdef.FieldOptions)[1]:     # Move all type options to new type
+                    explicit_type(schema, fdef, list(fto), f'{tdef.TypeName}{sys}{fdef.FieldName}', sys)
 
 
 # Generate Enumerated list of fields or JSON Pointers
-- 
2.43.0


From 5efe21462b05d66d301dd983ebd5d09d101581d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 20/92] fix: check external tag 0 and do not treat Enumerated
 item descriptions as field types

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..086d589 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -93,7 +93,7 @@ def check(schema: dict) -> dict:
         if ('enum' in type_opts or 'pointer' in type_opts) and fields:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
-        for fd in fields:
+        for fd in fields if FIELD_LENGTH[type_def.BaseType] > FieldDesc else []:
             if has_fields(fd[FieldType]):
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
-- 
2.43.0


From c1da211ea454f6fca32adb010ceda582e89b2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:31 +0000
Subject: [PATCH 21/92] fix: convert TagId field names to ids in the last type
 of a document

---
 distribution/src/jadn/convert/html.py | 2 ++
 distribution/src/jadn/convert/jidl.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..26a5aa1 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -171,6 +171,8 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..d85c077 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -139,6 +139,8 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 6db3304944e0b20382ef80e350bfd645b27d4a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:33 +0000
Subject: [PATCH 22/92] fix: parse JIDL lines with quotes in descriptions,
 Enumerated item '=', or id fields with the dir option

---
 distribution/src/jadn/convert/jidl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index d85c077..06c19f9 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -91,7 +91,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
+        q = re.match(r'(?:(?! //).)*?\{pattern="(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
         s = q.end() if q else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
@@ -99,14 +99,14 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             line = line[:s + d.start()].strip()
 
         p_type = fr'^{p_tname}{p_assign}{p_tstr}$'
-        if m := re.match(p_type, line):
+        if (m := re.match(p_type, line)) and not (tdef and re.match(r'^\s*\d+\s', line)):
             btype, topts, fo = typestr2jadn(m.group(2))
             assert fo == []                     # field options MUST not be included in typedefs
             newtype = [m.group(1), btype, topts, desc, []]
             return 'T', newtype
 
         if tdef:        # looking for fields
-            pn = '()' if id_type(tdef) else p_fname
+            pn = r'\s+(/?)' if id_type(tdef) else p_fname   # Only the dir marker in the name column of id types
             if tdef[BaseType] == 'Enumerated':      # Parse Enumerated Item
                 pattern = fr'^{p_id}{p_fstr}$'
                 if m := re.match(pattern, line):
-- 
2.43.0


From 1f7d2ca2cc5733ac3a6d7ea3eb46926d63724e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:34 +0000
Subject: [PATCH 23/92] fix: do not read type option keywords or formats out of
 a String pattern

---
 distribution/src/jadn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..bcca1f3 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -293,6 +293,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_rangepat, '', rest)     # Pattern may contain anything that looks like another option
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
-- 
2.43.0


From 3057f1277244f6ef83816f7ac0eed6d10ff72951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:36 +0000
Subject: [PATCH 24/92] fix: keep item names that contain a colon when reading
 id types

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index bcca1f3..bb240b6 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -436,7 +436,7 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc)
         fdesc = m.group(1)
         if not fname:
-            if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
+            if m := re.match(r'^(.+?)::\s*(.*)$', fdesc):
                 fname = m.group(1)
                 fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
-- 
2.43.0


From 2336495a8daf138e2ff7da2e023cd55728b66318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:38 +0000
Subject: [PATCH 25/92] fix: write and read the extend option in type strings

---
 distribution/src/jadn/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index bb240b6..6d0af40 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -259,7 +259,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)\b'   # 6 multiplicity, extension point
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -367,7 +367,10 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
-    return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
+
+    if opts.pop('extend', None):
+        extra += ' extend'
+    return f"{tname}{extra}{f' ?{str(sorted(opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
 def multiplicity_str(opts: dict) -> str:
-- 
2.43.0


From 6e3c3d586bd0821277ef5a4f9e7986e944f6e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:40 +0000
Subject: [PATCH 26/92] fix: show information elements in a fixed order

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 26a5aa1..e8ac5ce 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -66,7 +66,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 06c19f9..6465ed8 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -51,7 +51,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..9ad743a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
-- 
2.43.0


From d1805cf6c20df6143d4f0ecefb890ee89fc1b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:42 +0000
Subject: [PATCH 27/92] fix: load HTML schemas from an open file

---
 distribution/src/jadn/convert/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index e8ac5ce..0edfc19 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -2,7 +2,7 @@ import re
 import json
 
 from datetime import datetime
-from typing import Generator, Tuple, Union
+from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
@@ -176,7 +176,9 @@ def html_loads(hdoc: str) -> dict:
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
-def html_load(fname: Union[bytes, str, int]) -> dict:
+def html_load(fname: Union[bytes, str, int, TextIO]) -> dict:
+    if hasattr(fname, 'read'):
+        return html_loads(fname.read())
     with open(fname, 'r') as f:
         return html_loads(f.read())
 
-- 
2.43.0


From 00922e98ed6d0b27c332fb0ef1a29194c19d3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:07 +0000
Subject: [PATCH 28/92] fix: keep canonicalized Number limits parseable

---
 distribution/src/jadn/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 6d0af40..df72b18 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,10 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
-            minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
-            maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+        if basetype == 'Number':
+            for oname in ('minf', 'maxf'):
+                if (ox := get_optx(olist, oname)) is not None:
+                    olist[ox] = f'{olist[ox][0]}{to[oname]}'
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From f7ff3b39c7ce40528917941a0625935aad350a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:09 +0000
Subject: [PATCH 29/92] fix: analyze references to types used through derived
 enumerations

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 086d589..81cd299 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -154,7 +154,7 @@ def analyze(schema: dict) -> dict:
     info = schema.get('info', {})
     roots = info.get('roots', info.get('exports', []))      # Exports is deprecated
     defs = set(items)
-    dep_refs = {v for d in items for v in items[d]}
+    dep_refs = {v.lstrip('#>') for d in items for v in items[d]}    # Type that an enum or pointer is derived from
     refs = set(dep_refs) | set(roots)
     return {
         'unreferenced': list(defs - refs),
-- 
2.43.0


From c384fae93bcb00accd9161bae10884b166138009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:11 +0000
Subject: [PATCH 30/92] fix: mark the JIDL source banner as a comment so that
 dumped files can be loaded

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 6465ed8..fc9c5a9 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -80,7 +80,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
 def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     with open(fname, 'w', encoding='utf8') as f:
         if source:
-            f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
+            f.write(f'// Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(jidl_dumps(schema, style))
 
 
-- 
2.43.0


From 27a55a5c5ce991604cf317a3e33d3cd6ce178c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:30 +0000
Subject: [PATCH 31/92] fix: topo_sort lists a dependency shared by several
 types after all of them

---
 distribution/src/jadn/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index df72b18..81498c0 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -120,17 +120,19 @@ def topo_sort(deps: dict[str, list[str]], roots: list[str]) -> list[str]:
     and 2) dependencies are listed in the input order and as close to the parent as possible.
     Returns the sorted list of items.
     """
-    out: list[str] = []
+    out: list[str] = []     # Reverse order: an item is added after all of its dependencies
+    seen: set[str] = set()
 
     def walk_tree(it: str) -> None:
-        if it not in out:
-            out.append(it)
-            for i in deps.get(it, []):
+        if it not in seen:
+            seen.add(it)
+            for i in reversed(deps.get(it, [])):
                 walk_tree(i)
+            out.append(it)
 
-    for item in roots:
+    for item in reversed(roots):
         walk_tree(item)
-    out = out if out else list(deps)     # if cycle detected, don't sort
+    out = out[::-1] if out else list(deps)     # if cycle detected, don't sort
     return out
 
 
-- 
2.43.0


From c48104334948d8f88c33ebf9925e82e414eaf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:05 +0000
Subject: [PATCH 32/92] fix: keep Markdown table columns intact for text
 containing a vertical bar and for untagged unions

---
 distribution/src/jadn/convert/markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 9ad743a..29e5cc4 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,8 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import (
+    cleanup_tagid, get_optx, fielddef2jadn, id_type, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn)
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -54,7 +55,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
@@ -66,8 +67,8 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                 fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
                 fdef = fdef.replace('*', '\*')
                 fmult = fmult.replace('*', '\*')
-                dsc = fdesc.split('::', maxsplit=2)
-                fdesc = f'**{dsc[0]}** - {dsc[1].strip()}' if len(dsc) == 2 else fdesc
+                dsc = fdesc.split('::', maxsplit=1)
+                fdesc = f'**{dsc[0]}** - {dsc[1].strip()}' if idt and len(dsc) == 2 else fdesc
                 if table_type == 0:
                     table.append([str(fd[ItemID]), fdesc])
                 elif table_type == 1:
@@ -84,6 +85,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
+    rows = [[data.replace('|', r'\|') for data in row] for row in rows]     # Bar in cell text is not a column delimiter
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From dc3567fd0d453457465d530a0142c143a469e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:07 +0000
Subject: [PATCH 33/92] fix: escape text and quote labels in GraphViz diagrams

---
 distribution/src/jadn/convert/diagram_w.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..7b3f2c9 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -7,6 +7,7 @@ style[format] =
 
 import re
 from datetime import datetime
+from html import escape
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
 from ..utils import topts_s2d, ftopts_s2d, multiplicity_str, jadn2typestr, jadn2fielddef
@@ -44,6 +45,10 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     """
     Convert JADN schema to Entity Relationship Diagram source file
     """
+    def text_label(label: str) -> str:
+        # s is available in caller scope - GraphViz labels use HTML syntax
+        return escape(label, quote=False) if s['format'] == 'graphviz' else label
+
     def node_leaf(td, bt) -> str:
         """
         Return Leaf Type Definition in selected diagram format
@@ -86,7 +91,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
-            'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
+            'graphviz': f'  <tr><td align="left">  {text_label(fval)}  </td></tr>\n'
         }[s['format']]
 
     def node_end() -> str:
@@ -131,7 +136,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
             elif s['format'] == 'graphviz':
-                edge = [f'label={ename(fd[FieldName])}'] if s['edge_label'] else []
+                edge = [f'label="{ename(fd[FieldName])}"'] if s['edge_label'] else []
                 edge += ['style="dashed"'] if 'link' in fopts else []
                 edge += [f'headlabel="{mult_f}", taillabel="{mult_r}"'] if s['edge_mult'] else []
                 edge_label = f' [{", ".join(edge)}]' if edge else ''
@@ -167,7 +172,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     edges = ''
     for td in schema['types']:
         if (td[TypeName]) in nodes:
-            bt = f' : {jadn2typestr(td[BaseType], td[TypeOptions])}' if s['detail'] == 'information' else ''
+            bt = f' : {text_label(jadn2typestr(td[BaseType], td[TypeOptions]))}' if s['detail'] == 'information' else ''
             if td[BaseType] in PRIMITIVE_TYPES:
                 text += node_leaf(td, bt)
             else:
-- 
2.43.0


From 0ed92ac5a4b5490c0e0f9626c195b5e45cba9268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:55 +0000
Subject: [PATCH 34/92] fix: resolve imported types (reference sets, array-form
 namespaces, roots, derived enumerations)

---
 distribution/src/jadn/transform/resolve.py | 38 ++++++++--------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..e9f1717 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -17,7 +17,7 @@ class SchemaPackage:
     namespaces: dict                      # Copy of meta['namespaces'] or empty {}
     tx: dict[str, list]                   # Type index: {type name: type definition in schema}
     deps: dict[str, list[str]]             # Internal dependencies: {type1: {t2, t3}, type2: {t3, t4, t5}}
-    refs: dict[str, dict[str, list[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
+    refs: dict[str, dict[str, set[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
     used: set[str]                        # Types from this package that have been referenced {t2, t3}
 
     def __init__(self, source: Union[dict, TextIO]):     # Read schema data, get package name
@@ -33,7 +33,7 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))   # {prefix: namespace} or [[prefix, namespace]]
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
@@ -42,8 +42,10 @@ class SchemaPackage:
         check(self.schema)
         self.tx = {t[TypeName]: t for t in self.schema['types']}
         self.deps = build_deps(self.schema)
-        self.refs = defaultdict(lambda: defaultdict(list))
+        self.refs = defaultdict(lambda: defaultdict(set))
         for tn in self.deps:
+            # References to derived enumerations depend on the type they are derived from
+            self.deps[tn] = [dn.lstrip(OPTION_ID['enum'] + OPTION_ID['pointer']) for dn in self.deps[tn]]
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
                 if ':' in dn:
                     self.deps[tn].remove(dn)
@@ -71,6 +73,8 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):     # Derived enumeration as key or value type
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
@@ -78,7 +82,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
@@ -99,15 +103,6 @@ def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: d
     return td
 
 
-def make_enum(sm: SchemaPackage, tname: str, sys: str = '$') -> bool:
-    if tname[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tn = tname[1:]
-        if tn not in sm.used and tn in sm.tx:
-            etype = 'Enum' if tname[0] == OPTION_ID['enum'] else 'Point'
-            sm.schema['types'].append([f'{tn}{sys}{etype}', 'Enumerated', [], '', [[f[0], f[1], ''] for f in sm.tx[tn][Fields]]])
-        return True
-    return False
-
 
 # add referenced typenames in this package to used list
 def add_types(sm: SchemaPackage, tname: str, sys: str = '$') -> None:
@@ -117,8 +112,7 @@ def add_types(sm: SchemaPackage, tname: str, sys: str = '$') -> None:
             for tn in sm.deps[tname]:
                 add_types(sm, tn, sys)
         except KeyError as e:
-            if not make_enum(sm, tname, sys):
-                raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
+            raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
 
 
 # add referenced types from other packages to used list
@@ -143,8 +137,10 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     root = SchemaPackage(schema)
     packages = {root.package: root}
     nsids = defaultdict(list)
+    for i, m in root.namespaces.items():
+        nsids[m].append('' if i in no_nsid else i)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
@@ -155,14 +151,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
-
-    for t in root.used.copy():
-        if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-            if t[1:] not in root.used:
-                raise_error(f'Resolve: no base type for {t}')
-            root.used.remove(t)     # Don't need explicit type if base type is present
-
+    info = root.schema['info']
+    resolve(root, set(info.get('roots', info.get('exports', []))), packages)    # Exports is deprecated
     # Copy all needed types from other packages into root
     nsids[root.package] = ['']
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
-- 
2.43.0


From 0189a5d5aaf323b20713d496507c052363811c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:34 +0000
Subject: [PATCH 35/92] fix: match the whole string, in upper or lower case,
 when validating the email format

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..babfc23 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
-- 
2.43.0


From 42d5fdf7c3196193ebbc166c8aef81e7efe06b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:36 +0000
Subject: [PATCH 36/92] fix: reject empty hostnames with a ValueError, and
 labels with non-ASCII characters or a line break

---
 distribution/src/jadn/codec/format_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index babfc23..6138195 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -46,11 +46,11 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname[-1:] == ".":
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)\Z", re.IGNORECASE | re.ASCII)
     if all(allowed.match(x) for x in hostname.split(".")):
         return sval
     raise ValueError
-- 
2.43.0


From 168607edfc72a1bc81dd37b192568ad3f18283b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:17 +0000
Subject: [PATCH 37/92] fix: reject an infinite number as a field id with a
 ValueError

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index f323092..00d3571 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -112,7 +112,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 def _check_key(ts: SymbolTableField, val):
     try:
         return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
 
-- 
2.43.0


From 21bdb5132b6ad2dae7d730545589393f89677f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 38/92] fix: check rejects type definitions that are not lists

---
 distribution/src/jadn/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 81cd299..dcd87af 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -60,6 +60,8 @@ def check(schema: dict) -> dict:
     Perform additional checks on type definitions
     """
     # Add empty Fields if not present
+    if not all(isinstance(t, (list, tuple)) for t in (schema['types'], *schema['types'])):
+        raise_error(f'Invalid type definitions: {schema["types"]}')
     schema_types = [TypeDefinition(*t) for t in schema['types']]
     schema['types'] = [list(t) for t in schema_types]
 
-- 
2.43.0


From bce71c91cdcc89200b39eaf581588113adace277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 39/92] fix: unfold the same derived enumeration only once

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 1d9a8eb..e5a3d7d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -129,6 +129,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums[name] = name
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From 3e1c11734dd7930dfa77fdf39876c1e5b80b29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 40/92] fix: unfold an enumeration derived from a derived
 enumeration defined later in the schema

---
 distribution/src/jadn/transform/transform.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index e5a3d7d..cf6567f 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -135,6 +135,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
     def enum_items(rtype: str) -> list:
         tdef = schema['types'][typex[rtype]]
         if tdef.BaseType == 'Enumerated':
+            derive_items(tdef)      # May itself be derived, from any position in the schema
             return [[f.ItemID, f.ItemValue, f.ItemDesc] for f in tdef.Fields]
         fields = tdef.Fields if has_fields(tdef.BaseType) else []
         return [[f.FieldID, f.FieldName, f.FieldDesc] for f in fields]
@@ -151,17 +152,18 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
 
+    def derive_items(tdef: TypeDefinition) -> NoReturn:
+        to = tdef.TypeOptions
+        if rname := epname(to, sys):
+            opt = to.pop(epx(to))
+            items = enum_items if opt[:1] == OPTION_ID['enum'] else pointer_items
+            tdef.Fields = [EnumFieldDefinition(*f) for f in items(opt[1:])]
+            enums.update({rname: tdef.TypeName})
+
     enums = {}
     for tdef in list(schema['types']):  # Replace enum/pointer options in Enumerated types with explicit items
         if tdef.BaseType == 'Enumerated':
-            to = tdef.TypeOptions
-            if rname := epname(to, sys):
-                optx = get_optx(to, 'enum')
-                optx = optx if optx is not None else get_optx(to, 'pointer')
-                items = enum_items if to[optx][:1] == OPTION_ID['enum'] else pointer_items
-                tdef.Fields = items(to[optx][1:])
-                del to[optx]
-                enums.update({rname: tdef.TypeName})
+            derive_items(tdef)
 
     # Create new Enumerated enum/pointer types if they don't already exist
     for tdef in list(schema['types']):
-- 
2.43.0


From c642b30e242e168cb731d33f61df4402b81ef6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 41/92] fix: keep MapOf when its key enumeration is derived and
 has not been unfolded

---
 distribution/src/jadn/transform/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index cf6567f..807b2dd 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -180,7 +180,10 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
-            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
+            ktype = schema['types'][typex[to['ktype']]]
+            if epx(ktype.TypeOptions) is not None:      # Listed keys are not known until the derived enum is unfolded
+                continue
+            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in ktype[Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
 
-- 
2.43.0


From d554c1482abff89aa1cfa68939bd468f01fcd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 42/92] fix: keep the multiplicity of link fields when links
 are not unfolded

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 807b2dd..3aaee68 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -86,7 +86,7 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
         if has_fields(tdef.BaseType):
             for fdef in tdef.Fields:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
-                if 'maxc' in fo and fo['maxc'] != 1:
+                if 'maxc' in fo and fo['maxc'] != 1 and 'link' not in fo:   # Elements of a link field are keys, not FieldType
                     minc = fo.get('minc', 1)
                     if eopts := [o for o in fto if o != 'unique']:      # Make anonymous element type explicit
                         explicit_type(schema, fdef, eopts, f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}Item', sys)
-- 
2.43.0


From 6a2001eb5a4fadc9a91d8221a3d21dc27ff44825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 43/92] fix: give imported packages distinct qualifiers when
 packages use the same namespace id differently

---
 distribution/src/jadn/transform/resolve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index e9f1717..b8e87f4 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -1,4 +1,5 @@
 import copy
+import itertools
 import os
 
 from collections import defaultdict
@@ -151,6 +152,12 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
+    used: set[str] = set()      # Namespace ids are local to a package: use a different one for each namespace
+    for m, ids in nsids.items():
+        if '' not in ids[:1]:
+            nsid = next((i for i in ids if i not in used), None)
+            nsids[m] = [nsid or next(i for i in (f'{ids[0]}{n}' for n in itertools.count(1)) if i not in used)]
+            used.add(nsids[m][0])
     info = root.schema['info']
     resolve(root, set(info.get('roots', info.get('exports', []))), packages)    # Exports is deprecated
     # Copy all needed types from other packages into root
-- 
2.43.0


From 5c6339f8b875508cde72e84fd2e119db45238802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 44/92] fix: diagram styles links and link_horizontal have an
 effect

---
 distribution/src/jadn/convert/diagram_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 7b3f2c9..e266faa 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -130,8 +130,10 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         if fieldtype in nodes:
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
+            if 'link' in fopts and not s['links']:
+                return ''
             if s['format'] == 'plantuml':
-                rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
+                rel = ('.' if s['link_horizontal'] else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
-- 
2.43.0


From f3e3067ba346e5377ebe5101e6b497c2d915cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 45/92] fix: quotes in PlantUML class names

---
 distribution/src/jadn/convert/diagram_w.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index e266faa..58e8084 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -46,8 +46,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     Convert JADN schema to Entity Relationship Diagram source file
     """
     def text_label(label: str) -> str:
-        # s is available in caller scope - GraphViz labels use HTML syntax
-        return escape(label, quote=False) if s['format'] == 'graphviz' else label
+        # s is available in caller scope - GraphViz labels use HTML syntax, PlantUML labels are quoted
+        return escape(label, quote=False) if s['format'] == 'graphviz' else label.replace('"', '<U+0022>')
 
     def node_leaf(td, bt) -> str:
         """
-- 
2.43.0


From a4e87383fabd310e5cccee023c94d64f6a43fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 46/92] fix: keep the order of options when converting them to
 a dictionary

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 81498c0..d445bd4 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -152,8 +152,8 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     Convert list of type definition option strings to options dictionary
     """
     assert isinstance(olist, (list, tuple)), f'{olist} is not a list'
-    topts = {o for o in olist if ord(o[0]) in TYPE_OPTIONS}
-    if uopts := {*olist} - topts:
+    topts = [o for o in olist if ord(o[0]) in TYPE_OPTIONS]
+    if uopts := [o for o in olist if o not in topts]:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
     for o in topts:
-- 
2.43.0


From 2e1d920b4fefe20d72201f77efc58a79a0d61928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 47/92] fix: analyze lists unreferenced and undefined types in
 a fixed order

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index dcd87af..73bcd7f 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -159,8 +159,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v.lstrip('#>') for d in items for v in items[d]}    # Type that an enum or pointer is derived from
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
-- 
2.43.0


From 85ea36b8fc5f3d934a12560cc7731bee4aa04ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:54 +0000
Subject: [PATCH 48/92] fix: JSON Schema of the roots of a schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..44a1d2f 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -398,7 +398,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
     info = schema.get('info', {})
     td = {t[TypeName]: t for t in schema['types']}    # Build index of type definitions
-    exports = [e for e in info.get('exports', []) if e in td]
+    exports = [e for e in info.get('roots', info.get('exports', [])) if e in td]     # Exports is deprecated
     if isinstance(ns := info.get('namespaces', {}), dict):
         imported_types = {k: {} for k in ns}
     elif isinstance(ns, list):
-- 
2.43.0


From 50993813f1d17a4c03f25131ad76d93d3af34977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:56 +0000
Subject: [PATCH 49/92] fix: JSON Schema of Integer formats

---
 distribution/src/jadn/translate/jsonschema_w.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 44a1d2f..34a94bf 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -203,10 +203,16 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    if topts.get('format') == 'datetime-ms':    # Serialized as text
+        return dmerge(w_td('string', tdef[TypeDesc]), w_format('date-time'))
+    fmt = w_format(topts.get('format', ''))
+    minv = max((v for v in (topts.get('minv'), fmt.get('minimum')) if v is not None), default=None)
+    maxv = min((v for v in (topts.get('maxv'), fmt.get('maximum')) if v is not None), default=None)
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        fmt,
+        {'minimum': minv} if minv is not None else {},
+        {'maximum': maxv} if maxv is not None else {}
     )
 
 
-- 
2.43.0


From ba473c8ffdc1b321568296a2b8c144e01ba9a2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:59 +0000
Subject: [PATCH 50/92] fix: JSON Schema of required and optional Array
 elements

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 34a94bf..9364cdb 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -152,6 +152,10 @@ def w_ref(tname: str, ctx: dict) -> dict:
     return {'$ref': f'#/definitions/{tn}'}
 
 
+def optional(f: list) -> bool:
+    return ftopts_s2d(f[FieldOptions])[0].get('minc', 1) == 0
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
@@ -268,12 +272,15 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
     fmt = w_format(topts['format']) if 'format' in topts else {}
     if fmt:
         return dmerge(w_td('string', tdef[TypeDesc]), fmt)
+    def elem(f: list) -> dict:      # Absent optional elements before the last one present are null
+        return {'anyOf': [w_fdef(f, ctx), {'type': 'null'}]} if optional(f) else w_fdef(f, ctx)
+
+    minv = max([topts.get('minv', 0)] + [n for n, f in enumerate(tdef[Fields], 1) if not optional(f)])
     return dmerge(
         w_td('array', tdef[TypeDesc]),
         {'additionalItems': False},
-        {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-        {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        {'items': [w_fdef(f, ctx) for f in tdef[Fields]]}
+        {'minItems': minv} if minv != 0 else {},
+        {'items': [elem(f) for f in tdef[Fields]]}
     )
 
 
-- 
2.43.0


From f6adc7588d2eb138f00c5126d2e9758897c4651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:01 +0000
Subject: [PATCH 51/92] fix: JSON Schema of Choice and Map with the id option

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 9364cdb..b011652 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -178,6 +178,13 @@ def w_fdef(f: list, ctx: dict) -> dict:
     )
 
 
+def pname(f: list, topts: dict) -> str:
+    """
+    Return property name of a field
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_format(fmt: str) -> dict:
     """
     Make semantic validation keywords
@@ -263,7 +270,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {pname(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -299,14 +306,14 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
         fo = ftopts_s2d(f[FieldOptions])[0]
         return fo['minc'] >= 1 if 'minc' in fo else True
 
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [pname(f, topts) for f in tdef[Fields] if req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {pname(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From fb08faf914df37715476a009fc124e814c9da89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:04 +0000
Subject: [PATCH 52/92] fix: JSON Schema of builtin types in a combined Choice

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index b011652..1e8c7e5 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -262,7 +262,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 39f7ee5820b9b8b71356e4597ca8ddf3d788dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 53/92] fix: JSON Schema of Binary and imported element types

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 1e8c7e5..86fefda 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -109,7 +109,9 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
         fields = get_enum_items(tdef, topts, ctx['type_defs'])
         idopt = 'id' in topts
         return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+    if stype == 'Binary':
+        return t_binary(['', stype, [], ''], {}, ctx)
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
-- 
2.43.0


From 0fd4e23e56505aa82e34d0b06a1cb373b5d4d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 54/92] fix: JSON Schema of MapOf

---
 .../src/jadn/translate/jsonschema_w.py        | 84 +++++--------------
 1 file changed, 23 insertions(+), 61 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 86fefda..bc29edd 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -5,7 +5,7 @@ import json
 import re
 
 from datetime import datetime
-from typing import Callable, Optional, Union
+from typing import Callable, Union
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
     FieldOptions, FieldDesc, OPTION_ID, is_builtin
@@ -41,21 +41,6 @@ CONFIG_MAX = {
 
 
 # Util Functions
-def get_items(stype: str, ctx: dict) -> Optional[list]:  # pylint: disable=R1710
-    """
-    return enumerated items if stype is Enumerated
-    """
-    td = ctx['type_defs']
-    et = stype[1:] if stype[0] == OPTION_ID['enum'] else stype
-    if et in td and td[et][BaseType] == 'Enumerated':
-        to = topts_s2d(td[et][TypeOptions])
-        et = to['enum'] if 'enum' in to else et
-
-    to = topts_s2d(td[et][TypeOptions])
-    if et in td and td[et][BaseType] in ('Enumerated', 'Array', 'Choice', 'Map', 'Record') and 'id' not in to:
-        return [f[ItemValue] for f in td[et][Fields]]
-
-
 def spaces(s: str) -> str:
     """
     Return name with dash and underscore replaced with space
@@ -320,56 +305,33 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
     vtype = w_kvtype(topts['vtype'], ctx)
     ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
+    size = dmerge(
+        {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxProperties': topts['maxv']} if 'maxv' in topts else {}
+    )
+    kdef = ctx['type_defs'].get(topts['ktype'])
+    if kdef and kdef[BaseType] == 'Enumerated':     # Every enumerated key is required
+        kopts = topts_s2d(kdef[TypeOptions])
+        keys = [pname(f, kopts) for f in get_enum_items(kdef, kopts, ctx['type_defs'])]
+        return dmerge(
             w_td('object', tdef[TypeDesc]),
             {'additionalProperties': False},
-            {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
+            {'required': keys} if keys else {},
+            size,
+            {'properties': {k: vtype for k in keys}}
         )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
-    else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
-        )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
-            }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+
+    kschema = w_type(kdef, topts_s2d(kdef[TypeOptions]), ctx) if kdef else ktype
+    if kschema.get('type') == 'integer':            # JSON member names are strings
+        ktype = {'pattern': '^-?[0-9]+$'}
+    return dmerge(
+        w_td('object', tdef[TypeDesc]),
+        size,
+        {'propertyNames': ktype} if kschema.get('type') in ('integer', 'string') or 'enum' in kschema else {},
+        {'additionalProperties': vtype}
+    )
 
 
 # Type Map Util
-- 
2.43.0


From 973b94602cce362c4a2861fb3a978e03c93415ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 55/92] fix: JSON Schema of ArrayOf sets

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index bc29edd..975966f 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -281,7 +281,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
-- 
2.43.0


From 67c5138a6ceb453d0a6d2509192b22526cdb5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:20 +0000
Subject: [PATCH 56/92] fix: JSON Schema enumerations in regex style

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 975966f..0824f95 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -60,7 +60,7 @@ def pattern(vals: list) -> str:
     Return a regex string from a list of values
     """
 
-    return f"^({'|'.join(map(str, vals))})$"
+    return f"^({'|'.join(re.escape(str(v)) for v in vals)})$"
 
 
 # === Return JSON Schema keywords
@@ -109,7 +109,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
+    if es == 'regex' and not idopt:     # ids are integers
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
         return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
-- 
2.43.0


From 5d889b0af351ac9f15297ef3c1637c80539d8aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:22 +0000
Subject: [PATCH 57/92] fix: JSON Schema of fields with an explicit tag

---
 distribution/src/jadn/translate/jsonschema_w.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0824f95..c75cb6a 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -148,7 +148,9 @@ def w_fdef(f: list, ctx: dict) -> dict:
     Make field definition
     """
     fopts, topts = ftopts_s2d(f[FieldOptions])
-    if is_builtin(f[FieldType]):
+    if 'tagid' in fopts and (choice := ctx['type_defs'].get(f[FieldType])):     # Alternative is selected by another field
+        t = {'anyOf': [w_fdef(c, ctx) for c in choice[Fields]]}
+    elif is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
-- 
2.43.0


From 62ffdca8a5d5bd8e51bc4c3fbc78a2d9ce8d2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 58/92] fix: JSON Schema of an Array without elements

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c75cb6a..f68a206 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -276,7 +276,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
         w_td('array', tdef[TypeDesc]),
         {'additionalItems': False},
         {'minItems': minv} if minv != 0 else {},
-        {'items': [elem(f) for f in tdef[Fields]]}
+        {'items': [elem(f) for f in tdef[Fields]]} if tdef[Fields] else {'maxItems': 0}
     )
 
 
-- 
2.43.0


From cc077405906c225a7396c8eb93ec48a850905018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 59/92] fix: JSON Schema pattern of ipv6-addr without zone

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index f68a206..896a344 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -20,7 +20,7 @@ JADN_FMT = {
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
+    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
-- 
2.43.0


From 0e789f8cc173a4c592a0339a7e40454b410f153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:11 +0000
Subject: [PATCH 60/92] fix: key fields of an imported type

---
 distribution/src/jadn/transform/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3aaee68..b3b88d0 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -25,7 +25,6 @@ def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments
 def unfold_link(schema: dict, sys: str) -> NoReturn:
     ltypes = []     # Types that have links
     keys = {}       # Key names for types that have keys
-    typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for tdef in list(schema['types']):
         if tdef.BaseType == 'MapOf':
             to = topts_s2d(tdef.TypeOptions)
@@ -34,7 +33,7 @@ def unfold_link(schema: dict, sys: str) -> NoReturn:
             for fdef in tdef.Fields:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'key' in fo:
-                    if (newname := fdef.FieldType) not in typex:
+                    if is_builtin(newname := fdef.FieldType):
                         newname = f'{tdef.TypeName}{sys}{fdef.FieldName}'
                         newopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in fto]
                         schema['types'].append(TypeDefinition(newname, fdef.FieldType, newopts, fdef.FieldDesc))
-- 
2.43.0


From 07749b66f67431f6a5814e41fbb5df729935c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 61/92] fix: JSON Schema pattern of eui values as encoded

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 896a344..2139141 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -18,7 +18,7 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
 JADN_FMT = {
     'x': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
-    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
+    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
     'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
-- 
2.43.0


From 2fb6c9a5d0b363188aa56a91e79a32a3244ceff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 62/92] fix: read and write files as UTF-8 whatever the locale

---
 distribution/src/jadn/convert/diagram_w.py      | 2 +-
 distribution/src/jadn/convert/html.py           | 2 +-
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 58e8084..88eca40 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -188,7 +188,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 0edfc19..4b39ad2 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -179,7 +179,7 @@ def html_loads(hdoc: str) -> dict:
 def html_load(fname: Union[bytes, str, int, TextIO]) -> dict:
     if hasattr(fname, 'read'):
         return html_loads(fname.read())
-    with open(fname, 'r') as f:
+    with open(fname, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
 
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 2139141..7c59ea5 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -421,7 +421,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
         f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
-- 
2.43.0


From 324779d69e7f2292c36edf32d4008932bdeff8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 63/92] fix: generate type names with the configured $Sys
 character

---
 distribution/src/jadn/transform/resolve.py   | 4 ++--
 distribution/src/jadn/transform/transform.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index b8e87f4..c64dffb 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -8,7 +8,7 @@ from ..core import check, load_any
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, FieldType, FieldOptions, OPTION_ID, is_builtin
 )
-from ..utils import build_deps, raise_error
+from ..utils import build_deps, get_config, raise_error
 
 
 class SchemaPackage:
@@ -132,7 +132,7 @@ def resolve(sm: SchemaPackage, types: set[str], packages: dict, sys: str = '$')
 
 # Add referenced types to schema. dirname => other schema files
 def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
-    sys = '$'  # Character reserved for use in tool-generated type names
+    sys = get_config(schema.get('info'))['$Sys']    # Character reserved for use in tool-generated type names
     # if 'namespaces' not in schema['info']:
     #    return schema
     root = SchemaPackage(schema)
diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index b3b88d0..86a7739 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -5,7 +5,7 @@ from ..definitions import (
     TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
-    del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
+    del_opt, ftopts_s2d, get_config, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
 
 
 def strip_comments(schema: dict, width=0) -> dict:  # Strip or truncate comments from schema
@@ -199,7 +199,7 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
     """
     extensions = extensions or EXTENSIONS
     assert extensions - EXTENSIONS == set()
-    sys = '$'  # Character reserved for tool-generated TypeNames
+    sys = get_config(schema.get('info'))['$Sys']    # Character reserved for tool-generated TypeNames
     sc = object_type_schema(copy.deepcopy(schema))  # Don't modify original schema
 
     if 'Link' in extensions:                    # Replace Key and Link options with explicit types
-- 
2.43.0


From 7b2f27f5d390b951b66faa036020d6bea8880f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 64/92] fix: codec of schemas that refer to type names starting
 with $

---
 distribution/src/jadn/codec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 83092bd..13c5c96 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -94,7 +94,7 @@ class Codec:
 
         # Set configurable option values
         def config_opts(opts: List[str]) -> dict:
-            op = [(v[0] + self.config[v[1:]]) if len(v) > 1 and v[1] == '$' else v for v in opts]
+            op = [(v[0] + self.config[v[1:]]) if v.startswith('%$') else v for v in opts]
             return topts_s2d(op)
 
         def sym(t: TypeDefinition) -> SymbolTableField:  # Build symbol table based on encoding modes
-- 
2.43.0


From 35be93f0a206fb83dccafa84ea9c673743b15202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 65/92] fix: JSON Schema of patterns that are configuration
 variables

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 7c59ea5..e28afad 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -234,7 +234,7 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
         w_format(topts['format']) if 'format' in topts else {},
         {'minLength': topts['minv']} if 'minv' in topts and topts['minv'] != 0 else {},
         {'maxLength': topts['maxv']} if 'maxv' in topts else {},
-        {'pattern': topts['pattern']} if 'pattern' in topts else {}
+        {'pattern': ctx['config'].get(topts['pattern'], topts['pattern'])} if 'pattern' in topts else {}
     )
 
 
-- 
2.43.0


From c765c57178fd9b712d86e29a62198cbf55942978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 66/92] fix: JSON Schema of derived enumerations

---
 distribution/src/jadn/transform/transform.py  | 26 +++++++++++++------
 .../src/jadn/translate/jsonschema_w.py        | 10 +++----
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 86a7739..b133181 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,8 +2,8 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
-    EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType, FieldOptions,
+    FieldDesc, OPTION_ID, EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_config, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
 
@@ -216,15 +216,25 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
 
 
 def get_enum_items(tdef: list, topts: dict, types: dict) -> list:
-    def ptr(fdef: list):
-        if OPTION_ID['dir'] in fdef[FieldOptions]:
-            return f'{fdef[FieldName]}^'
-        return fdef[FieldName]
+    """
+    Return the [id, value, description] items of an explicit or derived enumeration
+    """
+    def pathnames(rtype: str, base='') -> Generator[list, None, None]:
+        if has_fields(types[rtype][BaseType]):
+            for f in types[rtype][Fields]:
+                if OPTION_ID['dir'] in f[FieldOptions]:
+                    if f[FieldType] in types:
+                        yield from pathnames(f[FieldType], f'{base}{f[FieldName]}/')
+                else:
+                    yield [base + f[FieldName], f[FieldDesc]]
 
     if 'enum' in topts:
-        return types[topts['enum']][Fields]
+        rdef = types[topts['enum']]
+        if rdef[BaseType] == 'Enumerated':      # May itself be derived
+            return get_enum_items(rdef, topts_s2d(rdef[TypeOptions]), types)
+        return [[f[FieldID], f[FieldName], f[FieldDesc]] for f in rdef[Fields]]
     if 'pointer' in topts:
-        return [(n, ptr(f), '') for n, f in enumerate(types[topts['pointer']][Fields])]
+        return [[n] + f for n, f in enumerate(pathnames(topts['pointer']), 1)]
     return tdef[Fields]
 
 
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index e28afad..317d960 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -89,11 +89,8 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     if stype in stypes:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tdef = ctx['type_defs'][stype[1:]]
-        topts = topts_s2d(tdef[TypeOptions])
-        fields = get_enum_items(tdef, topts, ctx['type_defs'])
-        idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
+        fields = get_enum_items([], topts_s2d([stype]), ctx['type_defs'])
+        return w_enum(fields, ItemValue, ItemDesc, False, ctx)
     if stype == 'Binary':
         return t_binary(['', stype, [], ''], {}, ctx)
     return w_ref(stype, ctx)
@@ -241,10 +238,9 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
-        w_enum(fields, item, dcol, 'id' in topts, ctx)
+        w_enum(fields, item, ItemDesc, 'id' in topts, ctx)
     )
 
 
-- 
2.43.0


From b9bdeb519ce27fc0fc8e14432e4a7920cdf90a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 67/92] fix: JSON Schema of MapOf with derived enumeration keys

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 317d960..a021bc0 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -310,6 +310,8 @@ def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {}
     )
     kdef = ctx['type_defs'].get(topts['ktype'])
+    if topts['ktype'][0] in (OPTION_ID['enum'], OPTION_ID['pointer']):      # Derived enumeration
+        kdef = ['', 'Enumerated', [topts['ktype']], '', []]
     if kdef and kdef[BaseType] == 'Enumerated':     # Every enumerated key is required
         kopts = topts_s2d(kdef[TypeOptions])
         keys = [pname(f, kopts) for f in get_enum_items(kdef, kopts, ctx['type_defs'])]
-- 
2.43.0


From ecaf1cdc9454f3efaf9a1d580b523229ac16f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 68/92] fix: JSON Schema of multi-valued alternatives in a
 combined Choice

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a021bc0..91fe406 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -247,7 +247,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [w_fdef(f, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From c4ff7ae5e59dd13ea8b80d5bb357d6b4e21287bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 69/92] fix: JSON Schema of links

---
 .../src/jadn/translate/jsonschema_w.py         | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 91fe406..7426cc1 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -8,7 +8,7 @@ from datetime import datetime
 from typing import Callable, Union
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
-    FieldOptions, FieldDesc, OPTION_ID, is_builtin
+    FieldOptions, FieldDesc, OPTION_ID, is_builtin, has_fields
 )
 from ..transform.transform import get_enum_items
 from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
@@ -140,6 +140,20 @@ def optional(f: list) -> bool:
     return ftopts_s2d(f[FieldOptions])[0].get('minc', 1) == 0
 
 
+def w_key(tname: str, ctx: dict) -> Union[dict, None]:
+    """
+    Make definition of the primary key of a type, None if it has no known key
+    """
+    tdef = ctx['type_defs'].get(tname)
+    if tdef and tdef[BaseType] == 'MapOf':
+        return w_kvtype(topts_s2d(tdef[TypeOptions])['ktype'], ctx)
+    if tdef and has_fields(tdef[BaseType]):
+        for f in tdef[Fields]:
+            if OPTION_ID['key'] in f[FieldOptions]:
+                return w_fdef([f[FieldID], f[FieldName], f[FieldType], [o for o in f[FieldOptions] if o != OPTION_ID['link']], f[FieldDesc]], ctx)
+    return None
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
@@ -147,6 +161,8 @@ def w_fdef(f: list, ctx: dict) -> dict:
     fopts, topts = ftopts_s2d(f[FieldOptions])
     if 'tagid' in fopts and (choice := ctx['type_defs'].get(f[FieldType])):     # Alternative is selected by another field
         t = {'anyOf': [w_fdef(c, ctx) for c in choice[Fields]]}
+    elif 'link' in fopts and (key := w_key(f[FieldType], ctx)):                 # Value is the key of another instance
+        t = dmerge(key, {'description': f[FieldDesc]})
     elif is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
     else:
-- 
2.43.0


From 1316bfc923bce7cd5b7a623ee4416ba36f9c2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 70/92] fix: JSON Schema descriptions of combined Choice types
 and tagged fields

---
 distribution/src/jadn/translate/jsonschema_w.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 7426cc1..16b22eb 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -160,7 +160,7 @@ def w_fdef(f: list, ctx: dict) -> dict:
     """
     fopts, topts = ftopts_s2d(f[FieldOptions])
     if 'tagid' in fopts and (choice := ctx['type_defs'].get(f[FieldType])):     # Alternative is selected by another field
-        t = {'anyOf': [w_fdef(c, ctx) for c in choice[Fields]]}
+        t = {'description': f[FieldDesc], 'anyOf': [w_fdef(c, ctx) for c in choice[Fields]]}
     elif 'link' in fopts and (key := w_key(f[FieldType], ctx)):                 # Value is the key of another instance
         t = dmerge(key, {'description': f[FieldDesc]})
     elif is_builtin(f[FieldType]):
@@ -263,7 +263,10 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
+        return dmerge(
+            {'description': tdef[TypeDesc]} if tdef[TypeDesc] else {},
+            {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
+        )
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 5364f51698c0c2ee02cfde95b29e0b5fcae7b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 71/92] fix: JSON Schema of MapOf with keys enumerated by id

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 16b22eb..b871ca6 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -333,7 +333,7 @@ def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
         kdef = ['', 'Enumerated', [topts['ktype']], '', []]
     if kdef and kdef[BaseType] == 'Enumerated':     # Every enumerated key is required
         kopts = topts_s2d(kdef[TypeOptions])
-        keys = [pname(f, kopts) for f in get_enum_items(kdef, kopts, ctx['type_defs'])]
+        keys = [f[ItemValue] for f in get_enum_items(kdef, kopts, ctx['type_defs'])]
         return dmerge(
             w_td('object', tdef[TypeDesc]),
             {'additionalProperties': False},
-- 
2.43.0


From ac76199a25959179369fd288408a6c7bb3f121a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 72/92] fix: show external tag 0 in JIDL, HTML and Markdown

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index d445bd4..c8d4d80 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -398,7 +398,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 93f257f9ed70624116846b38067b905b27b17705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 73/92] fix: decode each field id of a Map or Choice from one
 spelling only

---
 distribution/src/jadn/codec/codec.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 00d3571..8019d03 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -110,10 +110,12 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 
 def _check_key(ts: SymbolTableField, val):
-    try:
-        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
-    except (ValueError, TypeError, OverflowError):
-        raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
+    if isinstance(next(iter(ts.dMap), None), int):
+        if isinstance(val, str) and re.fullmatch(r'0|[1-9][0-9]{,999}', val):   # JSON object keys are always strings
+            return int(val)
+        if not isinstance(val, int) or isinstance(val, bool):
+            raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
+    return val
 
 
 def _check_pattern(ts: SymbolTableField, val):
@@ -369,6 +371,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
+        if len(val) != len(sval):
+            _bad_value(ts, sval)
     aval = dict()
     fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
     if 'id' in ts.TypeOpts:
-- 
2.43.0


From 4ef6807418f06fbcb0bd7b5fe445b98ce27c8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:17 +0000
Subject: [PATCH 74/92] fix: reject a MapOf value in which two keys are the
 same when decoded

---
 distribution/src/jadn/codec/codec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8019d03..49ff0eb 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -510,7 +510,10 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
         is_int = kdef is not None and kdef.BaseType == 'Integer' and isinstance(k, str)
         return int(k) if is_int and re.fullmatch(r'-?(0|[1-9][0-9]*)', k) else k
 
-    return {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    aval = {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    if len(aval) != len(sval):      # Different texts of the same key
+        _bad_value(ts, sval)
+    return aval
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 77413260cc2ea796ba682cc179e4e41fd259f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 75/92] fix: compare decoded elements of unique and set ArrayOf
 types

---
 distribution/src/jadn/codec/codec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 49ff0eb..6bd8988 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -487,10 +487,11 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
 def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
-    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+    aval = [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:     # Different texts may be the same value
+        if len(aval) != len(fset(aval)):
             _bad_value(ts, val)
-    return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    return aval
 
 
 def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 21821b3dfd58f3b9ab73df3af510769e1fd66831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 76/92] fix: true and 1 are distinct elements of a unique or
 set ArrayOf

---
 distribution/src/jadn/codec/codec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 6bd8988..8b50821 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -59,8 +59,7 @@ def fset(x):
     def fval(v):    # hashable copy of a value
         if isinstance(v, dict):
             return frozendict({k: fval(i) for k, i in v.items()})
-        return tuple(fval(i) for i in v) if isinstance(v, (tuple, list)) else v
-
+        return tuple(fval(i) for i in v) if isinstance(v, (tuple, list)) else (bool, v) if isinstance(v, bool) else v
     return frozenset(fval(v) for v in x)
 
 
-- 
2.43.0


From d4331aa65f27c0b696fd28517163bdecd1c5b586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 77/92] fix: read tag-uuid values with dashes in the tag

---
 distribution/src/jadn/codec/format_serialize_json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index c59febd..5e88497 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -160,8 +160,10 @@ def a2s_tag_uuid(aval: [str, str]) -> str:
 
 def s2a_tag_uuid(sval: str) -> [str, str]:
     _check_str(sval)
-    t, u = sval.split('-', maxsplit=1)
-    return [t, u]
+    t, u = sval[:-36], sval[-36:]       # The tag may contain dashes
+    if t[-1:] != '-':
+        raise ValueError
+    return [t[:-1], u]
 
 
 FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
-- 
2.43.0


From 04c7302d4e4a992f0ca8a8512e539887f6d0de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 78/92] fix: reject base64url text that continues after the
 padding

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 5e88497..1f482de 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -70,7 +70,7 @@ def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to b
         v = f"{sval}{'=' * (4-mod)}"
     if set(v) - set(string.ascii_letters + string.digits + '-_='):  # Python 2 doesn't support Validate
         raise TypeError('base64decode: bad character')
-    return base64.b64decode(str(v), altchars=b'-_')
+    return base64.b64decode(str(v), altchars=b'-_', validate=True)
 
 
 def b2s_ipv4_addr(bval: bytes) -> str:      # Convert IPv4 address from binary to string
-- 
2.43.0


From 02035e73b57b6b96b880a4426edda472584c7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 79/92] fix: reject IP network text with a malformed prefix
 length

---
 distribution/src/jadn/codec/format_serialize_json.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 1f482de..012abfd 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -134,11 +134,17 @@ def _check_str(sval: str) -> None:
         raise TypeError(f'{sval} is not a string')
 
 
+def _prefix_len(sval: str) -> int:
+    if not re.fullmatch(r'[0-9]{1,3}', sval):   # No sign, spaces, underscores or other digits
+        raise ValueError(f'{sval} is not a prefix length')
+    return int(sval)
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
     _check_str(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 32
+    prefix_len = _prefix_len(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
     return [sa, prefix_len]
@@ -148,7 +154,7 @@ def s2a_ipv6_net(sval: str) -> [str, int]:
     _check_str(sval)
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 128
+    prefix_len = _prefix_len(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
     return [sa, prefix_len]
-- 
2.43.0


From e37b8619a82cc8d470714dc55f30f962ddee7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 80/92] fix: reject IPv6 address text with a zone id instead of
 dropping the zone

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 012abfd..5ce360c 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -86,6 +86,8 @@ def s2b_ipv4_addr(sval: str) -> bytes:    # Convert IPv4 addr from string to bin
 
 
 def s2b_ipv6_addr(sval: str) -> bytes:    # Convert IPv6 address from string to binary
+    if '%' in sval:     # A zone is not part of the address
+        raise ValueError(f'{sval} has a zone id')
     return IPv6Address(sval).packed
 
 
-- 
2.43.0


From 51b1916094da74cb82848f5b5ddff05de4b7da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 81/92] fix: reject datetime-ms text that is not an RFC 3339
 date-time

---
 distribution/src/jadn/codec/format_serialize_json.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 5ce360c..505ab37 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -196,7 +196,10 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     _check_str(dts)
-    x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
+    dts = dts.upper().replace(' ', 'T')
+    if not re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[-+]\d\d:[0-5]\d)?', dts, re.ASCII):    # RFC 3339
+        raise ValueError(f'{dts} is not a date-time')
+    x = datetime.fromisoformat(dts.replace('Z', '+00:00'))
     if x.tzinfo is None:
         x = x.astimezone()      # No offset: local time
     return (x - EPOCH) // timedelta(milliseconds=1)
-- 
2.43.0


From b714ca88611c62ddd3afefb56bed97db008c7b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 82/92] fix: a pattern ending in $ does not match text with a
 final newline

---
 distribution/src/jadn/codec/codec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8b50821..88f6a77 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -117,9 +117,13 @@ def _check_key(ts: SymbolTableField, val):
     return val
 
 
+def _ecma_pattern(pattern: str) -> str:     # "$" matches only at the end, not before a final newline
+    return re.sub(r'(\\.|\[\^?\]?(?:\\.|[^\]\\])*\])|\$', lambda m: m.group(1) or r'\Z', pattern, flags=re.DOTALL)
+
+
 def _check_pattern(ts: SymbolTableField, val):
     op = ts.TypeOpts
-    if 'pattern' in op and not re.match(op['pattern'], val):
+    if 'pattern' in op and not re.match(_ecma_pattern(op['pattern']), val):
         tn = ts.TypeDef.TypeName
         raise_error(f'{tn}: string "{val}" does not match {op["pattern"]}')
     return val
-- 
2.43.0


From 9ca931ac5ff57e87d92bddb5ba0e7c4288f2695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 83/92] fix: read JIDL descriptions and items with unusual line
 separators

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index fc9c5a9..4b3fb81 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -126,7 +126,7 @@ def jidl_loads(doc: str) -> dict:
     info = {}
     types = []
     fields = None
-    for line in doc.splitlines():
+    for line in re.split(r'\r\n|\r|\n', doc):   # Other separators are part of descriptions and items
         if line:
             t, v = line2jadn(line, types[-1] if types else None)    # Parse a JIDL line
             if t == 'F':
-- 
2.43.0


From d85dad6ecea6b238366af8a73fe238cd30b2601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 84/92] fix: reject NaN for a Number type with a minimum or
 maximum

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 88f6a77..e808695 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -142,9 +142,9 @@ def _check_range(ts: SymbolTableField, val):
 def _check_frange(ts: SymbolTableField, val):
     op = ts.TypeOpts
     tn = ts.TypeDef.TypeName
-    if 'minf' in op and val < op['minf']:
+    if 'minf' in op and not val >= op['minf']:      # NaN is not in any range
         raise_error(f'{tn}: {val} < minimum {op["minf"]}')
-    if 'maxf' in op and val > op['maxf']:
+    if 'maxf' in op and not val <= op['maxf']:
         raise_error(f'{tn}: {val} < maximum {op["maxf"]}')
     return val
 
-- 
2.43.0


From ce12ed1d459d498876dcc32471be324fa695d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 85/92] fix: read HTML schemas with descriptions of more than
 one line

---
 distribution/src/jadn/convert/html.py | 2 +-
 distribution/src/jadn/utils.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 4b39ad2..a6c731c 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -127,7 +127,7 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
         assert fo == []                     # field options MUST not be included in typedefs
         tdesc = default(lt.get('jTdesc', ''), '')
         if tdesc:
-            m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', tdesc)
+            m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', tdesc, re.DOTALL)
             tdesc = m.group(1)
         return 'T', [lt['jTname'], btype, topts, tdesc, []]
     if 'jFid' in lt:
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index c8d4d80..aedcbea 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -435,10 +435,10 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
     if fdesc:
-        m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc)
+        m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc, re.DOTALL)
         fdesc = m.group(1)
         if not fname:
-            if m := re.match(r'^(.+?)::\s*(.*)$', fdesc):
+            if m := re.match(r'^(.+?)::\s*(.*)$', fdesc, re.DOTALL):
                 fname = m.group(1)
                 fdesc = m.group(2)
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
-- 
2.43.0


From 58dbb4bd3739b4716ed46885093a82d3214274a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 86/92] fix: write JIDL descriptions of more than one line on a
 single line

---
 distribution/src/jadn/convert/jidl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 4b3fb81..00cfbbd 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -35,6 +35,11 @@ def jidl_style() -> dict:
     }
 
 
+def one_line(desc: str) -> str:
+    # A JIDL description ends at the end of the line
+    return re.sub(r'\s*[\r\n]\s*', ' ', desc)
+
+
 def jidl_dumps(schema: dict, style: dict = None) -> str:
     """
     Convert JADN schema to JADN-IDL
@@ -57,11 +62,12 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
     for td in schema['types']:
         tdef = f'{td[TypeName]} = {jadn2typestr(td[BaseType], td[TypeOptions])}'
-        tdesc = ' // ' + td[TypeDesc] if td[TypeDesc] else ''
+        tdesc = ' // ' + one_line(td[TypeDesc]) if td[TypeDesc] else ''
         text += f'\n{tdef:<{wt}}{tdesc}'[:w['page']].rstrip() + '\n'
         idt = id_type(td)
         for fd in td[Fields] if len(td) > Fields else []:       # TODO: constant-length types
             fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
+            fdesc = one_line(fdesc)
             if td[BaseType] == 'Enumerated':
                 fdesc = ' // ' + fdesc if fdesc else ''
                 fs = f'{fd[ItemID]:>{w["id"]}} {fname}'
-- 
2.43.0


From 1d7d834b13130297d7184f72dbd67b4d12569f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 87/92] fix: keep Markdown table rows on one line

---
 distribution/src/jadn/convert/markdown.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 29e5cc4..83d3a66 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -85,7 +85,8 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
-    rows = [[data.replace('|', r'\|') for data in row] for row in rows]     # Bar in cell text is not a column delimiter
+    # Bar or line break in cell text is not a column or row delimiter
+    rows = [[re.sub(r'\s*[\r\n]\s*', ' ', data).replace('|', r'\|') for data in row] for row in rows]
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From b432945fa9ef98fd8cf60ddb4ae0e165dff23a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 88/92] fix: keep every line of schema information in diagram
 comments

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 88eca40..d34e02f 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -166,7 +166,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        text += ''.join(f"{fmt['comment']} {line}\n" for line in f'{k}: {v}'.splitlines())
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
-- 
2.43.0


From 18d0a2682b97575b9d5b0410ba152c488a113c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 89/92] fix: load schema files that dump has written with a
 source

---
 distribution/src/jadn/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 73bcd7f..d5d67eb 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -170,7 +170,10 @@ def loads(jadn_str: str) -> dict:
 
 
 def load(fp: TextIO) -> dict:
-    return check(json.load(fp))
+    doc = fp.read()
+    if isinstance(doc, str) and doc.startswith('"Generated from '):      # Source of a file written by dump
+        doc = doc.split('\n', maxsplit=1)[-1]
+    return loads(doc)
 
 
 def load_any(fp: TextIO) -> dict:
-- 
2.43.0


From b35a97207211f87a1c668a8a4a8883a2747f1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 90/92] fix: comment out the source of a GraphViz diagram file

---
 distribution/src/jadn/convert/diagram_w.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index d34e02f..8556114 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -188,9 +188,10 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
+    comment = '#' if style.get('format') == 'graphviz' else "'"
     with open(fname, 'w', encoding='utf8') as f:
         if source:
-            f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
+            f.write(f'{comment} Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
 
 
-- 
2.43.0


From f371ecc7b7d487274ae2e707c6fce51cc4f7f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 91/92] fix: write the source of a JSON Schema file as a
 comment in the schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index b871ca6..bb9aece 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -438,7 +438,9 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
+    text = json_schema_dumps(jadn, verbose, enum_style, import_style)
+    if source:      # JSON has no comment syntax
+        comment = {'$comment': f'Generated from {source}, {datetime.ctime(datetime.now())}'}
+        text = json.dumps(dmerge(comment, json.loads(text)), indent=2)
     with open(fname, 'w', encoding='utf8') as f:
-        if source:
-            f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
+        f.write(text)
-- 
2.43.0


From 33067bbbc65a14097b7b91e527c2167573d0f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 92/92] fix: refuse values that are nested too deeply with
 ValueError

---
 distribution/src/jadn/codec/__init__.py | 12 +++++++++---
 distribution/src/jadn/codec/codec.py    |  8 ++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 13c5c96..58190c7 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -11,7 +11,7 @@ Licensed under the Apache License, Version 2.0
 http://www.apache.org/licenses/LICENSE-2.0
 """
 from typing import Any, Callable, Dict, List, Optional
-from .codec import SymbolTableField, SymbolTableFieldDefinition, enctab, _decode_maprec, _encode_maprec
+from .codec import NestingError, SymbolTableField, SymbolTableFieldDefinition, enctab, _decode_maprec, _encode_maprec
 from .format_serialize_json import json_format_codecs, get_format_encode_function, get_format_decode_function
 from .format_validate import format_validators, get_format_validate_function
 from ..utils import ftopts_s2d, get_config, object_types, raise_error, topts_s2d
@@ -60,14 +60,20 @@ class Codec:
             ts = self.symtab[datatype]
         except KeyError:
             raise_error(f'Validation Error: Decode: datatype "{datatype}" is not defined')
-        return ts.Decode(ts, sval, self)     # Dispatch to type-specific decoder
+        try:
+            return ts.Decode(ts, sval, self)     # Dispatch to type-specific decoder
+        except RecursionError:
+            raise NestingError(f'Validation Error: Decode: "{datatype}" value is nested too deeply') from None
 
     def encode(self, datatype: str, aval: Any) -> Any:  # Encode API value into serialized value
         try:
             ts = self.symtab[datatype]
         except KeyError:
             raise_error(f'Validation Error: Encode: datatype "{datatype}" is not defined')
-        return ts.Encode(ts, aval, self)     # Dispatch to type-specific encoder
+        try:
+            return ts.Encode(ts, aval, self)     # Dispatch to type-specific encoder
+        except RecursionError:
+            raise NestingError(f'Validation Error: Encode: "{datatype}" value is nested too deeply') from None
 
     def set_mode(self, verbose_rec=False, verbose_str=False):
         # Build symbol table field entries
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e808695..7e43528 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -63,6 +63,10 @@ def fset(x):
     return frozenset(fval(v) for v in x)
 
 
+class NestingError(ValueError):     # Value has too many levels, or contains itself
+    pass
+
+
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
     td = ts.TypeDef
     raise_error(f'{td.TypeName}({td.BaseType}): array index {k} out of bounds ({len(ts.Fld)}, {len(val)})')
@@ -265,6 +269,8 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
+            except NestingError:
+                raise
             except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
@@ -303,6 +309,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
+            except NestingError:
+                raise
             except (ValueError, TypeError):
                 cf += 1
                 continue
-- 
2.43.0

