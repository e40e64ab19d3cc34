From 95e2ac1a8c659e20fa19cbeb3ebb66b4fe568d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 01/12] fix: raise DecodeError when bitmap enables a field
 missing from specification

---
 iso8583/decoder.py | 55 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index ff0574e..79c8adb 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -126,13 +126,14 @@ def decode(
 
     if 1 in fields:
         field = "1"
+        field_spec = _get_field_spec(s, doc_dec, doc_enc, idx, field, spec)
         idx = _decode_bitmap(
             s,
             doc_dec,
             doc_enc,
             idx,
             field,
-            spec[field],
+            field_spec,
             64,
             False,
             fields,
@@ -155,7 +156,8 @@ def decode(
         fields.remove(65)
 
     for field in [str(i) for i in sorted(fields)]:
-        idx = _decode_field(s, doc_dec, doc_enc, idx, field, spec[field])
+        field_spec = _get_field_spec(s, doc_dec, doc_enc, idx, field, spec)
+        idx = _decode_field(s, doc_dec, doc_enc, idx, field, field_spec)
 
     if idx != len(s):
         raise DecodeError(
@@ -172,6 +174,55 @@ def decode(
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _get_field_spec(
+    s: Union[bytes, bytearray],
+    doc_dec: DecodedDict,
+    doc_enc: EncodedDict,
+    idx: int,
+    field_key: str,
+    spec: SpecDict,
+) -> _FieldSpecDict:
+    r"""Get specification of a field enabled by a bitmap.
+
+    Parameters
+    ----------
+    s : bytes or bytearray
+        Encoded ISO8583 data
+    doc_dec : dict
+        Dict containing decoded ISO8583 data
+    doc_enc : dict
+        Dict containing encoded ISO8583 data
+    idx : int
+        Current index in ISO8583 byte array
+    field_key : str
+        Field ID to get specification for
+    spec : dict
+        A Python dict defining ISO8583 specification.
+        See :mod:`iso8583.specs` module for examples.
+
+    Returns
+    -------
+    dict
+        A Python dict defining ISO8583 specification for this field.
+
+    Raises
+    ------
+    DecodeError
+        Specification does not define this field.
+    """
+    try:
+        return spec[field_key]
+    except KeyError:
+        raise DecodeError(
+            "Field is not defined in specification",
+            s,
+            doc_dec,
+            doc_enc,
+            idx,
+            field_key,
+        ) from None
+
+
 def _decode_header(
     s: Union[bytes, bytearray],
     doc_dec: DecodedDict,
-- 
2.43.0


From 0048ea45bc2ac2fb62ff1289356edfcb8a6f5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 02/12] fix: raise EncodeError when a field is missing from
 specification

---
 iso8583/encoder.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d79b3e..4d2a5b4 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -137,7 +137,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             doc_dec,
             doc_enc,
             "1",
-            spec["1"],
+            _get_field_spec(doc_dec, doc_enc, "1", spec),
             64,
             False,
             secondary_fields,
@@ -157,7 +157,8 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
         fields.remove(65)
 
     for field_key in [str(i) for i in sorted(fields)]:
-        s += _encode_field(doc_dec, doc_enc, field_key, spec[field_key])
+        field_spec = _get_field_spec(doc_dec, doc_enc, field_key, spec)
+        s += _encode_field(doc_dec, doc_enc, field_key, field_spec)
 
     return s, doc_enc
 
@@ -169,6 +170,44 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
 _FieldSpecDict = Mapping[str, Any]
 
 
+def _get_field_spec(
+    doc_dec: DecodedDict,
+    doc_enc: EncodedDict,
+    field_key: str,
+    spec: SpecDict,
+) -> _FieldSpecDict:
+    r"""Get specification of a field to be encoded.
+
+    Parameters
+    ----------
+    doc_dec : dict
+        Dict containing decoded ISO8583 data
+    doc_enc : dict
+        Dict containing encoded ISO8583 data
+    field_key : str
+        Field ID to get specification for
+    spec : dict
+        A Python dict defining ISO8583 specification.
+        See :mod:`iso8583.specs` module for examples.
+
+    Returns
+    -------
+    dict
+        A Python dict defining ISO8583 specification for this field.
+
+    Raises
+    ------
+    EncodeError
+        Specification does not define this field.
+    """
+    try:
+        return spec[field_key]
+    except KeyError:
+        raise EncodeError(
+            "Field is not defined in specification", doc_dec, doc_enc, field_key
+        ) from None
+
+
 def _encode_header(
     doc_dec: DecodedDict,
     doc_enc: EncodedDict,
-- 
2.43.0


From bbe55b33128e350e36ee18a41a30a144a3c9b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 03/12] fix: reject text field lengths that are not made of
 decimal digits

---
 iso8583/decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 79c8adb..5f97b75 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -569,6 +569,9 @@ def _decode_field(
                 ) from None
 
             try:
+                # int() alone also accepts signs, spaces and underscores
+                if not (decoded_length.isascii() and decoded_length.isdigit()):
+                    raise ValueError("non-numeric length")
                 enc_field_len = int(decoded_length)
             except Exception:
                 raise DecodeError(
-- 
2.43.0


From 25337b8ced8ade3c512b3451af4814f2756b2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 04/12] fix: reject text bitmaps that are not 16 hex digits

---
 iso8583/decoder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 5f97b75..6b8b136 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -1,4 +1,5 @@
 from typing import Any, Dict, Literal, Mapping, Set, Tuple, Type, Union
+import binascii
 
 __all__ = ["decode", "DecodeError"]
 
@@ -431,7 +432,10 @@ def _decode_bitmap(
         )
 
         try:
-            bitmap = bytes.fromhex(decoded_field_data)
+            # Unlike bytes.fromhex() this does not skip whitespace
+            bitmap = binascii.a2b_hex(decoded_field_data)
+            if len(bitmap) != 8:
+                raise ValueError("incomplete bitmap")
         except Exception:
             raise DecodeError(
                 "Failed to decode field, non-hex data",
-- 
2.43.0


From 59c9bbc04f25d8d6c2232f78ac24182c06e7a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:20 +0000
Subject: [PATCH 05/12] fix: remove lower case hex pad when decoding odd nibble
 data

---
 iso8583/decoder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index 6b8b136..f34d580 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -695,11 +695,12 @@ def _remove_pad_field(
     DecodeError
         An error decoding ISO8583 bytearray.
     """
-    pad: str = field_spec.get("left_pad", "")[:1]
+    # Decoded hex data is always in upper case
+    pad: str = field_spec.get("left_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][:1] == pad:
         return doc_dec[field_key][1:]
 
-    pad = field_spec.get("right_pad", "")[:1]
+    pad = field_spec.get("right_pad", "")[:1].upper()
     if len(pad) > 0 and doc_dec[field_key][-1:] == pad:
         return doc_dec[field_key][:-1]
 
-- 
2.43.0


From 4e3ab694242ae85ff608a49c3197eaf6efbb3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 06/12] fix: raise EncodeError on non-canonical numeric field
 keys

---
 iso8583/encoder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 4d2a5b4..d9462e5 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -94,7 +94,7 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_type(doc_dec, doc_enc, spec)
 
     try:
-        fields: Set[int] = set([int(k) for k in doc_dec.keys() if k.isnumeric()])
+        numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
     except AttributeError:
         raise EncodeError(
             f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
@@ -103,6 +103,21 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         ) from None
 
+    # Verify that numeric keys are spelled the same way as in the specification.
+    # Otherwise, keys such as "03" and non-ASCII digits are not usable.
+    invalid_keys = [
+        k for k in numeric_keys if not k.isascii() or (k[0] == "0" and k != "0")
+    ]
+    if invalid_keys:
+        raise EncodeError(
+            f"Dictionary contains invalid fields {invalid_keys}",
+            doc_dec,
+            doc_enc,
+            "p",
+        )
+
+    fields: Set[int] = set([int(k) for k in numeric_keys])
+
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
         raise EncodeError(
-- 
2.43.0


From e913ce6a4ed8a062f7f5784394103b034e7872d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 07/12] fix: reject text bitmap encodings that do not produce
 16 bytes

---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index d9462e5..aec0460 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -401,7 +401,7 @@ def _encode_bitmap(
     if field_spec["data_enc"] == "b":
         encoded_data = bytes(bitmap)
     else:
-        encoded_data, _ = _encode_text_field(
+        encoded_data, enc_field_len = _encode_text_field(
             doc_dec,
             doc_enc,
             hex_bitmap,
@@ -410,6 +410,15 @@ def _encode_bitmap(
             "bytes",
         )
 
+        # Bitmap is a set length in ISO8583
+        if enc_field_len != 16:
+            raise EncodeError(
+                f"Field data is {enc_field_len} bytes, expecting 16",
+                doc_dec,
+                doc_enc,
+                field_key,
+            )
+
     if is_extended:
         doc_enc[field_key]["data"] = doc_enc[field_key]["data"] + encoded_data
     else:
-- 
2.43.0


From a9a56d3d7a8129807a66fcb332060e79a138f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 08/12] fix: raise EncodeError when binary field value is not a
 string

---
 iso8583/encoder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index aec0460..1fb8146 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -618,6 +618,13 @@ def _encode_bindary_field(
             data_to_encode = field_data
         encoded_data = binascii.a2b_hex(data_to_encode)
     except Exception:
+        if not isinstance(field_data, str):
+            raise EncodeError(
+                "Failed to encode field, invalid data",
+                doc_dec,
+                doc_enc,
+                field_key,
+            ) from None
         if len_count == "nibbles" and len(data_to_encode) % 2 == 1:
             raise EncodeError(
                 "Failed to encode field, odd-length nibble data, specify pad",
-- 
2.43.0


From 552d1a2bc8e51cd38cb7239c708c764e41bdccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:49 +0000
Subject: [PATCH 09/12] fix: reject text fields with an odd length in nibbles

---
 iso8583/decoder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iso8583/decoder.py b/iso8583/decoder.py
index f34d580..2b8d6ec 100644
--- a/iso8583/decoder.py
+++ b/iso8583/decoder.py
@@ -643,6 +643,17 @@ def _decode_field(
                 enc_field_len,
             )
     else:
+        # Text data always takes up whole bytes
+        if len_count == "nibbles" and enc_field_len & 1:
+            raise DecodeError(
+                f"Field data is {byte_field_len * 2} nibbles, expecting {enc_field_len}",
+                s,
+                doc_dec,
+                doc_enc,
+                idx,
+                field_key,
+            )
+
         doc_dec[field_key] = _decode_text_data(
             s,
             doc_enc[field_key]["data"],
-- 
2.43.0


From e133bd1671ffab737d2afd517e47edae41687b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 10/12] fix: raise EncodeError on any field key that is not a
 string

---
 iso8583/encoder.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 1fb8146..5815f67 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -93,15 +93,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
     s += _encode_header(doc_dec, doc_enc, spec)
     s += _encode_type(doc_dec, doc_enc, spec)
 
-    try:
-        numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
-    except AttributeError:
-        raise EncodeError(
-            f"Dictionary contains invalid fields {[k for k in doc_dec.keys() if not isinstance(k, str)]}",
-            doc_dec,
-            doc_enc,
-            "p",
-        ) from None
+    non_str_keys = [k for k in doc_dec.keys() if not isinstance(k, str)]
+    if non_str_keys:
+        try:
+            errmsg = f"Dictionary contains invalid fields {non_str_keys}"
+        except Exception:
+            # Not every key can be shown. For example, very large integers.
+            errmsg = "Dictionary contains invalid fields"
+        raise EncodeError(errmsg, doc_dec, doc_enc, "p")
+
+    numeric_keys = [k for k in doc_dec.keys() if k.isnumeric()]
 
     # Verify that numeric keys are spelled the same way as in the specification.
     # Otherwise, keys such as "03" and non-ASCII digits are not usable.
-- 
2.43.0


From 4c5eeeed55f2945c65abc6ad957cac8c2017e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 11/12] fix: raise EncodeError on field keys with too many
 digits

---
 iso8583/encoder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index 5815f67..cf20ff0 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -117,7 +117,16 @@ def encode(doc_dec: DecodedDict, spec: SpecDict) -> Tuple[bytearray, EncodedDict
             "p",
         )
 
-    fields: Set[int] = set([int(k) for k in numeric_keys])
+    try:
+        fields: Set[int] = set([int(k) for k in numeric_keys])
+    except ValueError:
+        # Python limits the number of digits it converts to int
+        raise EncodeError(
+            "Dictionary contains fields outside of 1-192 range",
+            doc_dec,
+            doc_enc,
+            "p",
+        ) from None
 
     # Verify valid field range: 1-192
     if not fields.issubset(range(1, 193)):
-- 
2.43.0


From b0275e94b6f832e2473df42f5cc9cebb22aa5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 12/12] fix: raise EncodeError when text field value does not
 encode to bytes

---
 iso8583/encoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iso8583/encoder.py b/iso8583/encoder.py
index cf20ff0..3ca9750 100644
--- a/iso8583/encoder.py
+++ b/iso8583/encoder.py
@@ -734,6 +734,8 @@ def _encode_text_field(
     """
     try:
         encoded_data = field_data.encode(field_spec["data_enc"])
+        if not isinstance(encoded_data, bytes):
+            raise TypeError("field data is not a string")
     except LookupError:
         raise EncodeError(
             "Failed to encode field, unknown encoding specified",
-- 
2.43.0

