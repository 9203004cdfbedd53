From 0b1f726e7ef75f156a2276d70fe1f0f8327cc90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 01/28] fix: pad short logical record segments instead of
 refusing to write them

Segment bodies shorter than 12 bytes (tiny records, the last segment of a split record) are
padded with flagged pad bytes, so that every record body and every accepted maximum record length
(20 and up) can be written.
---
 .../logical_record/logical_record_bytes.py    | 32 +++++++++----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..dd32a14 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -12,6 +12,7 @@ class LogicalRecordBytes:
     """Wrap bytes of a LogicalRecord and StorageUnitLabel, adding segmenting functionalities."""
 
     padding: bytes = RepC.USHORT.convert(1)  #: padding byte added if the number of bytes in a segment is odd
+    min_body_size: int = 12  #: minimum size of a segment body (including padding), in bytes
 
     def __init__(self, bts: bytes, lr_type_struct: bytes, is_eflr: bool = False):
         """Initialise a LogicalRecordBytes object.
@@ -69,9 +70,6 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
@@ -79,16 +77,18 @@ class LogicalRecordBytes:
         )
 
         size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
+        # total segment size must be even and the segment body cannot be shorter than 12 bytes;
+        # if the number of bytes is odd or too small, add padding bytes - each of them equal to the number of pad bytes
+        n_padding = max(self.min_body_size - n_bytes, n_bytes % 2)
+        if n_padding:
+            size += n_padding
             segment_attributes.has_padding = True
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            new_bts += RepC.USHORT.convert(n_padding) * n_padding  # add the promised padding bytes
 
         return new_bts, size
 
@@ -99,7 +99,7 @@ class LogicalRecordBytes:
 
         Args:
             max_n_bytes :   Maximal number of bytes in a segment body. Note that 4 more bytes will be added for the
-                            header (and one more byte for the padding if the number of bytes is odd).
+                            header (and padding bytes if the number of bytes is odd or smaller than 12).
                             Must be an integer of minimal value of 12. Only this condition (>= 12) is checked;
                             other checks (type etc.) are left out for performance reasons.
 
@@ -108,19 +108,19 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
-                # the next segment would be shorter than 12 bytes, and this is not allowed
-                # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+            if 0 < future_remaining_size < 12 and remaining_size >= 24:
+                # the next segment would be shorter than 12 bytes (and would have to be padded),
+                # so the current segment is shortened by a few bytes which will be passed over to the next segment;
+                # if there are not enough bytes for two full segments, the next segment gets padded instead
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From d985f78372b466f8bd4056185c0540cf03eb72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 02/28] fix: do not append padding to the payload of no-format
 data

Padding is a matter of logical record segments; added to the body it became part of the data.
---
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From 569f6ef066d5d835609ba0b88f7975cce4452288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 03/28] fix: count the logical records, not the items, for the
 progress bar

With several logical files the number of records could exceed the announced maximum, which makes
progressbar raise (and the write fail).
---
 src/dliswriter/file/file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..4a9eeaa 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -166,10 +166,8 @@ class DLISFile:
             )
 
         n = 0
-        for eflr_set_type in self._eflr_sets:
-            n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
-
         for idx_lf, logical_file in enumerate(self.logical_files):
+            n += 1 + sum(len(set_dict) for set_dict in logical_file._eflr_sets.values())  # file header and other sets
             for mfd in multi_frame_data_objects[idx_lf]:
                 n += len(mfd)
             n += len(logical_file._no_format_frame_data)
-- 
2.43.0


From 640423dae2134181d3f1ac03cd4704deec44aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 04/28] fix: encode IDENT values (names, labels, units, set
 types) with a one-byte length

An IDENT is prefixed with a USHORT length; the UVARI prefix written for values of 128 characters
and more cannot be decoded. Longer values than 255 characters are rejected.
---
 .../core/attribute/attribute.py               |  6 +++---
 .../logical_record/core/eflr/eflr_set.py      |  6 +++---
 .../logical_record/eflr_types/file_header.py  |  6 +++---
 .../utils/internal/struct_writer.py           | 21 +++++++++++++++----
 4 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..a4ac020 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -7,7 +7,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 from typing import Any
 
 from dliswriter.utils.internal.converters import get_ascii_bytes
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
 from dliswriter.utils.internal.value_checkers import validate_string
@@ -109,11 +109,11 @@ class FileHeaderSet(EFLRSet):
         bts = b''
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('SEQUENCE-NUMBER')
+        bts += write_struct_ident('SEQUENCE-NUMBER')
         bts += pack_ushort(20)
 
         bts += pack_ushort(int('00110100', 2))
-        bts += write_struct_ascii('ID')
+        bts += write_struct_ident('ID')
         bts += pack_ushort(20)
 
         return bts
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..30cf127 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -73,10 +73,23 @@ def write_struct_ascii(value: Any) -> bytes:
     The first bytes are the number of characters in the value (converted to str).
     """
 
-    value_str = str(value)
+    value_str = value if isinstance(value, str) else str(value)
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes of an IDENT.
+
+    The first byte (USHORT) is the number of characters in the value (converted to str); it cannot exceed 255.
+    """
+
+    value_str = value if isinstance(value, str) else str(value)
+    if len(value_str) > 255:
+        raise ValueError(f"IDENT cannot be longer than 255 characters; got {len(value_str)}: {value_str}")
+
+    return RepresentationCode.USHORT.convert(len(value_str)) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +112,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +125,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +141,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 3fc155cf8bfbc8320b41eb47602eacac24096a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 05/28] fix: store the value of a Unit enum member as units of
 an attribute

The member itself was written as 'Unit.<NAME>'.
---
 src/dliswriter/logical_record/core/attribute/attribute.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..9ccd871 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -152,8 +152,7 @@ class Attribute:
         if not self._units_settable:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
-        self._unit_checker(units)
-        self._units = units
+        self._units = self._unit_checker(units)
 
     @property
     def count(self) -> Union[int, None]:
-- 
2.43.0


From 5cf09a3971dedbaae3a7d66fa5c3cf52c94d3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 06/28] fix: do not cache encoded values and object names
 across files

write_struct cached results by equality of its arguments: 1, 1.0 and True share an entry, as do
0.0 and -0.0, equal-hashing items whose origin changed later, and date-times with the same instant.
The cached obname ignored later changes of name or origin reference.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +--
 src/dliswriter/utils/internal/struct_writer.py       | 2 --
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..16f4ade 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING, Any, Union, Optional, Generator
 import numpy as np
 
@@ -158,7 +157,7 @@ class EFLRItem:
 
         return super().__setattr__(key, value)
 
-    @cached_property
+    @property
     def obname(self) -> bytes:
         """Create OBNAME bytes of this item - bytes used to identify an item in the file.
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 30cf127..9b05a12 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -149,7 +148,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From f2858740d24756f54f5da9185d5553cdc89648fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 07/28] fix: mark an attribute with an empty list of values as
 absent

It was announced as an attribute with one (default count) value and no value bytes followed,
which made the rest of the record undecodable.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 16f4ade..f9b207a 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -171,7 +171,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:  # no value at all, also in the form of an empty list
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From c9a4951afc7e857596cca8cb1910b0c702d878d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 08/28] fix: accept only strings as values of IDENT attributes

Lists were written as several values with the default count of 1, any other objects as their repr.
---
 .../logical_record/core/attribute/subtypes.py         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..77f5ba7 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,17 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = self._check_string
+
+    @staticmethod
+    def _check_string(v: Optional[str]) -> Optional[str]:
+        """Check that the provided value (if any) is a string."""
+
+        if v is not None and not isinstance(v, str):
+            raise TypeError(f'Expected a str, got {type(v)}: {v}')
+        return v
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
-- 
2.43.0


From 7150ecb559e4881546509cd2c030cfb134c84808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 09/28] fix: reject lists as values of single-valued
 attributes; refer to the source of a computation by type and name

A list was written as several values with the default count of 1 (e.g. source of a channel), which made
the rest of the record undecodable. The source of a computation can be of any type, so an OBNAME
does not identify it.
---
 src/dliswriter/logical_record/core/attribute/attribute.py | 2 ++
 src/dliswriter/logical_record/eflr_types/computation.py   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 9ccd871..d3ed9fc 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -187,6 +187,8 @@ class Attribute:
             if not isinstance(value, (list, tuple)):
                 value = [value]
             return [self.converter(v) for v in value]
+        if isinstance(value, (list, tuple)):
+            raise TypeError(f"{self} can only have a single value; got {type(value)}: {value}")
         return self.converter(value)
 
     @property
diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9990518 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -5,7 +5,7 @@ from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, DimensionedIt
 from dliswriter.logical_record.eflr_types.axis import AxisSet
 from dliswriter.logical_record.eflr_types.zone import ZoneSet
 from dliswriter.logical_record.eflr_types.long_name import LongNameSet
-from dliswriter.utils.internal.internal_enums import EFLRType
+from dliswriter.utils.internal.internal_enums import EFLRType, RepresentationCode as RepC
 from dliswriter.logical_record.core.attribute import (EFLRAttribute, NumericAttribute, DimensionAttribute,
                                                       EFLROrTextAttribute, PropertiesAttribute)
 
@@ -33,7 +33,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.zones = EFLRAttribute('zones', object_class=ZoneSet, multivalued=True)
         self.values = NumericAttribute('values', multivalued=True, multidimensional=True)
-        self.source = EFLRAttribute('source')
+        self.source = EFLRAttribute('source', representation_code=RepC.OBJREF)
 
         super().__init__(name, parent=parent, **kwargs)
 
-- 
2.43.0


From d6747f492c4733800dcfe2a055eed043b79386ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 10/28] fix: do not overwrite the element limit and the long
 name of a channel specified by the user

An acceptable element limit (larger than the dimension) was replaced with the dimension and an
empty long name with the name of the channel.
---
 src/dliswriter/logical_record/eflr_types/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..d825ad3 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
@@ -197,7 +197,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From f04e726a17b304616a0d6ec2d61a4e5ae751d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 11/28] fix: load source data in native byte order; keep the
 second dimension of 1-column data sets

Big-endian data were byte-swapped once too often when written; data sets of shape (n, 1) could not
be loaded.
---
 src/dliswriter/utils/source_data_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..73bf24d 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -96,7 +96,7 @@ class SourceDataWrapper(ABC):
         known_dtypes = known_dtypes or {}
 
         for dtype_name, dataset_name in mapping.items():
-            dt: Union[tuple[str, Any], tuple[str, Any, int]]
+            dt: Union[tuple[str, Any], tuple[str, Any, tuple[int]]]
 
             try:
                 dset = data_object[dataset_name]
@@ -108,13 +108,15 @@ class SourceDataWrapper(ABC):
             # determine the numpy number dtype
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
+            number_type = np.dtype(number_type).newbyteorder('=')  # chunks are always loaded in native byte order
 
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
             if dset_row0.ndim > 1:
                 if dset_row0.ndim > 2:
                     raise RuntimeError("Data sets with more than 2 dimensions are not supported")
-                dt = (*dt, dset_row0.shape[-1])  # 3-tuple if the data set has multiple samples per row - add the width
+                # 3-tuple if the data set has multiple samples per row - add the width
+                dt = (*dt, (dset_row0.shape[-1],))
             dtypes.append(dt)
 
         return np.dtype(dtypes)
-- 
2.43.0


From c60de79d7c7901c45b93501c36b42be689210365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 12/28] fix: respect the row window and the dataset mapping in
 the direct slicing of a structured array

The fast path of NumpyDataWrapper.load_chunk ignored from_idx and to_idx and, if the names in
the source happened to be the same as the channel names, the mapping between the two.
---
 src/dliswriter/utils/source_data_wrappers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 73bf24d..bc79759 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -321,7 +321,7 @@ class NumpyDataWrapper(SourceDataWrapper):
 
         If the target data type (data sets names and dtypes) is the same as the one in the source array,
         take a slice of the source array directly.
-        Otherwise, use the 'load_chunk' from the superclass to copy the relevant data sets into a new structured array.
+        Otherwise (or if the range of rows is not correct), use the 'load_chunk' from the superclass to copy the relevant data sets into a new structured array.
 
         Args:
             start   :   Start index.
@@ -331,8 +331,12 @@ class NumpyDataWrapper(SourceDataWrapper):
             A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
         """
 
-        if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+        if (self._dtype == self._data_source.dtype and start >= 0
+                and all(k == loc for k, loc in self._mapping.items())):
+            if stop is None:
+                stop = self._n_rows
+            if start <= stop <= self._n_rows:
+                return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From e14e979894d79e474541e068dae663a4f1f49149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 13/28] fix: reject data sets of different lengths, row windows
 outside the data, and chunk sizes below 1

The number of rows was taken from the first data set only; longer data sets were cut, one-row ones
repeated, and windows exceeding the data (or negative chunk sizes) produced truncated files.
---
 src/dliswriter/file/file.py                  |  4 ++++
 src/dliswriter/file/multi_frame_data.py      |  7 +++++++
 src/dliswriter/utils/source_data_wrappers.py | 12 ++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 4a9eeaa..3ab7fb8 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -113,6 +113,10 @@ class DLISFile:
     def generator(self, multi_frame_data_objects: list[list[MultiFrameData]]) -> Generator:
         """Define a generator yielding logical records to be put in the file."""
 
+        for lf_multi_frame_data in multi_frame_data_objects:
+            for multi_frame_data in lf_multi_frame_data:
+                multi_frame_data.check_data()
+
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..019497e 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Chunk size must be a positive number of rows; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
@@ -57,6 +59,11 @@ class MultiFrameData:
 
         return self._frame
 
+    def check_data(self) -> None:
+        """Check that the data make up a table, i.e. that all data sets are of the same length."""
+
+        self._data_source.check_row_counts()
+
     def __len__(self) -> int:
         """Number of data rows (= number of FrameData objects that can be created from the provided data)."""
 
diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index bc79759..5e9c406 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,12 +50,24 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
             raise ValueError(f"Starting index {self._from_idx} and end index {self._to_idx} do not yield a positive "
                              f"number of rows to be loaded")
 
+    def check_row_counts(self) -> None:
+        """Check that all data sets mentioned in the mapping have the same number of rows."""
+
+        counts = {name: self._data_source[name].shape[0] for name in self._mapping.values()}
+        if len(set(counts.values())) > 1:
+            raise ValueError("All data sets of a frame must have the same number of rows; "
+                             f"got {', '.join(f'{n} in {name!r}' for name, n in counts.items())}")
+
     @property
     def n_rows(self) -> int:
         """Total number of data rows."""
-- 
2.43.0


From 3c4e84b716a62e4201a89eebc5ce251050b38b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 14/28] fix: refuse to write a file without any logical files

The result was a bare storage unit label.
---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 3ab7fb8..8dbc1ed 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -205,6 +205,9 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            if not self.logical_files:
+                raise RuntimeError("No logical files defined for the DLIS file")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 5b8e9417f02f94e044e9ed9b9ab23022ddb2fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:19 +0000
Subject: [PATCH 15/28] fix: reject sequence numbers which are not positive
 integers

Anything with a short enough str() was put in the storage unit label, and True in the file header.
---
 src/dliswriter/logical_record/eflr_types/file_header.py  | 2 +-
 src/dliswriter/logical_record/misc/storage_unit_label.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index a4ac020..5ad1b52 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -43,7 +43,7 @@ class FileHeaderItem(EFLRItem):
         if len(header_id) > self.header_id_length_limit:
             raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
 
-        if not isinstance(sequence_number, int):
+        if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
             raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
         if not 0 < sequence_number <= self.max_sequence_number:
             raise ValueError(f"Sequence number must be a positive integer not larger than {self.max_sequence_number}; "
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..d902a8b 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -72,6 +72,11 @@ class StorageUnitLabel:
             Logical Records - other objects handled in the same loops as the SUL.
         """
 
+        if not isinstance(self.sequence_number, int) or isinstance(self.sequence_number, bool):
+            raise TypeError(f"Sequence number must be an integer; got {type(self.sequence_number)}")
+        if self.sequence_number < 1:
+            raise ValueError(f"Sequence number must be positive; got {self.sequence_number}")
+
         # Storage Unit Sequence Number
         _susn_as_bytes = get_ascii_bytes(str(self.sequence_number), 4)
 
-- 
2.43.0


From 2cf6ff0f551e987a977621e7c037e7f5c040fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 16/28] fix: determine the write-time defaults anew in each
 write

Index bounds, spacing, direction, units, dimensions, and representation codes determined from the
data of one write (also a failed one) were kept and treated as specified by the user in the next
one; so were the data arrays passed to write.
---
 src/dliswriter/file/file.py                   | 14 ++++++++++---
 .../core/attribute/attribute.py               | 19 +++++++++++++++++
 .../logical_record/core/eflr/eflr_item.py     |  8 ++++++-
 .../logical_record/eflr_types/channel.py      | 21 ++++++++++++++-----
 .../logical_record/eflr_types/computation.py  |  2 +-
 .../logical_record/eflr_types/frame.py        |  2 +-
 .../logical_record/eflr_types/origin.py       |  2 +-
 .../logical_record/eflr_types/parameter.py    |  2 +-
 8 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 8dbc1ed..a8c450f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -209,6 +209,7 @@ class DLISFile:
                 raise RuntimeError("No logical files defined for the DLIS file")
 
             for lf in self.logical_files:
+                lf.clear_defaults()
                 lf.check_objects()
 
             logical_records = self.generate_logical_records(
@@ -2120,6 +2121,14 @@ class LogicalFile:
 
         return z
 
+    def clear_defaults(self) -> None:
+        """Remove all values which were not specified by the user, but set by default in a previous write."""
+
+        for eflr_set_dict in self._eflr_sets.values():
+            for eflr_set in eflr_set_dict.values():
+                for eflr_item in eflr_set.get_all_eflr_items():
+                    eflr_item.clear_defaults()
+
     def check_objects(self) -> None:
         """Check objects defined for the DLISFile. Called before writing the file."""
 
@@ -2137,7 +2146,7 @@ class LogicalFile:
         fh_id = self.file_header.header_id
 
         if do.file_id.value is None:
-            do.file_id.value = fh_id
+            do.file_id.set_default(fh_id)
         else:
             if do.file_id.value != fh_id:
                 raise ValueError(
@@ -2208,9 +2217,8 @@ class LogicalFile:
             data = {}
 
         if isinstance(data, dict):
-            self._data_dict = self._data_dict | data
             data_object = DictDataWrapper(
-                self._data_dict,
+                self._data_dict | data,
                 mapping=fr.channel_name_mapping,
                 known_dtypes=fr.known_channel_dtypes_mapping,
                 from_idx=from_idx,
diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index d3ed9fc..46d33b4 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -60,6 +60,7 @@ class Attribute:
         self._units = units
         self._value = value
         self._converter = converter  # to convert value
+        self._default_parts: set[str] = set()  # 'value' and/or 'units' if determined at the time of writing the file
         self.parent_eflr = parent_eflr
 
         self._unit_checker = Unit.make_converter("units", soft=True, allow_none=True)
@@ -97,6 +98,23 @@ class Attribute:
         """Set a new value of the attribute. Use the provided converter (if any) to transform/validate the value."""
 
         self._value = self.convert_value(val)
+        self._default_parts.discard('value')
+
+    def set_default(self, val: Any, key: str = 'value') -> None:
+        """Set value or units determined by the writer (not by the user) when a file is being written.
+
+        It is only valid for the file being written; see clear_defaults.
+        """
+
+        setattr(self, key, val)
+        self._default_parts.add(key)
+
+    def clear_defaults(self) -> None:
+        """Remove the value and units set through set_default, so that they are determined anew in the next write."""
+
+        for key in self._default_parts:
+            setattr(self, f'_{key}', None)
+        self._default_parts.clear()
 
     @property
     def representation_code(self) -> Union[RepresentationCode, None]:
@@ -153,6 +171,7 @@ class Attribute:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
         self._units = self._unit_checker(units)
+        self._default_parts.discard('units')
 
     @property
     def count(self) -> Union[int, None]:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index f9b207a..b1c0b86 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -183,6 +183,12 @@ class EFLRItem:
 
         pass
 
+    def clear_defaults(self) -> None:
+        """Remove the attribute values set by default in a previous write."""
+
+        for attribute in self.attributes.values():
+            attribute.clear_defaults()
+
     def make_item_body_bytes(self) -> bytes:
         """Create bytes describing the item: its name and values of its attributes."""
 
@@ -286,4 +292,4 @@ class DimensionedItem:
                 raise RuntimeError(f"{self}: shape of {value_label} {value} (shape {arr.shape}) does not match "
                                    f"the specified dimensionality: {self.dimension.value}")
         else:
-            self.dimension.value = dim_from_value
+            self.dimension.set_default(dim_from_value)
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index d825ad3..b5da467 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -61,6 +61,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         # need the attribute defined for representation code check
         self._cast_dtype: Union[numpy_dtype_type, None] = None
+        self._cast_dtype_from_data = False  # True if the cast dtype was not specified by the user
 
         self.long_name = EFLROrTextAttribute('long_name', object_class=LongNameSet)
         self.properties = PropertiesAttribute('properties')
@@ -109,6 +110,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             ReprCodeConverter.validate_numpy_dtype(dt)
 
         self._cast_dtype = dt
+        self._cast_dtype_from_data = False
         self.representation_code.set_from_dtype(self.cast_dtype)
 
     def set_dimension_and_repr_code_from_data(self, data: SourceDataWrapper) -> None:
@@ -128,7 +130,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
                 raise RuntimeError(f"Previously defined dimension of {self}: {self.dimension.value} "
                                    f"does not match the dimension from data: {dim}")
             logger.debug(f"Setting dimension of {self} to {dim}")
-            self.dimension.value = dim
+            self.dimension.set_default(dim)
 
         if self.element_limit.value != dim:
             if self.element_limit.value:  # was specified and is not exactly equal to dim
@@ -139,7 +141,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-                self.element_limit.value = dim
+                self.element_limit.set_default(dim)
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
@@ -175,6 +177,15 @@ class ChannelItem(EFLRItem, DimensionedItem):
             return
 
         self._set_cast_dtype(dt)
+        self._cast_dtype_from_data = True  # only valid for the file being written
+
+    def clear_defaults(self) -> None:
+        """Remove the attribute values - and the cast dtype - set by default in a previous write."""
+
+        super().clear_defaults()
+
+        if self._cast_dtype_from_data:
+            self._set_cast_dtype(None)
 
     def _run_checks_and_set_defaults(self) -> None:
         """Set up default values of ChannelItem parameters if not explicitly set previously."""
@@ -182,12 +193,12 @@ class ChannelItem(EFLRItem, DimensionedItem):
         if not self.element_limit.value and self.dimension.value:
             logger.debug(f"Setting element limit of channel '{self.name}' to the same value "
                          f"as dimension: {self.dimension.value}")
-            self.element_limit.value = self.dimension.value
+            self.element_limit.set_default(self.dimension.value)
 
         elif not self.dimension.value and self.element_limit.value:
             logger.debug(f"Setting dimension of channel '{self.name}' to the same value "
                          f"as element limit: {self.element_limit.value}")
-            self.dimension.value = self.element_limit.value
+            self.dimension.set_default(self.element_limit.value)
 
         elif self.element_limit.value != self.dimension.value:
             if not self._compare_element_limit_vs_dimension(self.element_limit.value, self.dimension.value):
@@ -199,7 +210,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
-            self.long_name.value = self.name
+            self.long_name.set_default(self.name)
 
 
 class ChannelSet(EFLRSet):
diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 9990518..742da03 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -50,7 +50,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
 
         if self.values.value and not self.dimension.value:
             logger.debug(f"Setting dimension of '{self}' to [1]")
-            self.dimension.value = [1]
+            self.dimension.set_default([1])
 
 
 class ComputationSet(EFLRSet):
diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..a91e44e 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -95,7 +95,7 @@ class FrameItem(EFLRItem):
 
             if getattr(attr, key) is None and value is not None:
                 logger.debug(f"Setting {attr.label}.{key} of {self} to {value}")
-                setattr(attr, key, value)
+                attr.set_default(value, key)
 
         index_channel: ChannelItem = self.channels.value[0]
         index_data = data[index_channel.name][:]
diff --git a/src/dliswriter/logical_record/eflr_types/origin.py b/src/dliswriter/logical_record/eflr_types/origin.py
index 61e5aaa..5be6f39 100644
--- a/src/dliswriter/logical_record/eflr_types/origin.py
+++ b/src/dliswriter/logical_record/eflr_types/origin.py
@@ -91,7 +91,7 @@ class OriginItem(EFLRItem):
 
         if self.field_name.value is None:
             logger.debug(f"Setting field_name of {self} to the default value: 'WILDCAT'")
-            self.field_name.value = 'WILDCAT'  # according to RP66
+            self.field_name.set_default('WILDCAT')  # according to RP66
 
     def _no_reassign_file_set_number(self, v: number_type) -> number_type:
         """Value checker for file_set_number. Make sure the value is not reassigned."""
diff --git a/src/dliswriter/logical_record/eflr_types/parameter.py b/src/dliswriter/logical_record/eflr_types/parameter.py
index 54b63a8..03acf1d 100644
--- a/src/dliswriter/logical_record/eflr_types/parameter.py
+++ b/src/dliswriter/logical_record/eflr_types/parameter.py
@@ -55,7 +55,7 @@ class ParameterItem(EFLRItem, DimensionedItem):
 
         if self.values.value and not self.dimension.value:
             logger.debug(f"Setting dimension of '{self}' to [1]")
-            self.dimension.value = [1]
+            self.dimension.set_default([1])
 
 
 class ParameterSet(EFLRSet):
-- 
2.43.0


From f1ec5a24c6f624693d622c5409e1486818ea6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 17/28] fix: derive the frame index metadata from the index
 values as they are written

The bounds and spacing were computed before the cast of the index channel; differences of integers
wrapped around (e.g. in a decreasing unsigned index); a single row or infinite values gave NaN as spacing.
---
 .../logical_record/eflr_types/frame.py           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index a91e44e..e71d29f 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,8 @@ class FrameItem(EFLRItem):
                 attr.set_default(value, key)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        # index data as they will be written to the file
+        index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -120,7 +121,9 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if len(index_data) == 1:
+                pass  # no spacing or direction can be determined from a single row
+            elif spacing is None:
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -143,7 +146,13 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
+        if np.issubdtype(index_data.dtype, np.integer):
+            index_data = index_data.astype(np.int64)  # differences of integers can exceed the range of their type
+
         diff = np.diff(index_data)
+        if not len(diff):
+            return None, None  # a single row
+
         diff_unique = np.unique(diff)
 
         if (diff_unique == 0).all():
@@ -155,6 +164,9 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not np.isfinite(diff_unique).all():
+            return None, direction
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
-- 
2.43.0


From 3fb4ded92719311f38fa3d0eaf48c26b8c39606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 18/28] fix: respect an origin reference of 0 specified by the
 user

It was treated as not specified and replaced with the reference of the defining origin.
---
 src/dliswriter/file/file.py | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index a8c450f..cc0a8ce 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -317,6 +317,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _get_origin_reference(self, origin_reference: Optional[int]) -> Optional[int]:
+        """Return the provided origin reference (if any) or, by default, that of the defining origin."""
+
+        return origin_reference if origin_reference is not None else self.default_origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -379,7 +384,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ax
@@ -455,7 +460,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -534,7 +539,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -676,7 +681,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -766,7 +771,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -831,7 +836,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -903,7 +908,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return c
@@ -1020,7 +1025,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return eq
@@ -1133,7 +1138,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return fr
@@ -1179,7 +1184,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return g
@@ -1279,7 +1284,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return ln
@@ -1330,7 +1335,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return m
@@ -1379,7 +1384,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return nf
@@ -1410,7 +1415,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1552,7 +1557,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1653,7 +1658,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1776,7 +1781,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1852,7 +1857,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return p
@@ -1904,7 +1909,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return sp
@@ -1965,7 +1970,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return t
@@ -2055,7 +2060,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return w
@@ -2116,7 +2121,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._get_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From c5ae9f88bf3776e2976d4e118ec946ed26c0aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 19/28] fix: do not assign the origin of one logical file to
 the objects of others

Objects of other logical files whose origins had not been defined yet got the reference of the first
origin defined in any of the files.
---
 src/dliswriter/file/file.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index cc0a8ce..abf9364 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1593,11 +1593,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
-- 
2.43.0


From 4d035a054bd9a3a2d8701ad6e151788ca6a95926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 20/28] fix: assign distinct copy numbers to same-named objects
 from different sets of one type

The copy number was counted within the set only, so e.g. two channels with the same name defined
in two channel sets had the same identity.
---
 src/dliswriter/file/eflr_sets_dict.py                | 1 +
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 ++-
 src/dliswriter/logical_record/core/eflr/eflr_set.py  | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..f1b9223 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -40,6 +40,7 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
+            eflr_set.sibling_sets = self[eflr_set.__class__]
             return True
 
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index b1c0b86..39bea87 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -115,7 +115,8 @@ class EFLRItem:
     def _compute_copy_number(self) -> int:
         """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
+        items = (o for s in self.parent.sibling_sets.values() for o in s.get_all_eflr_items())
+        items_with_the_same_name = filter(lambda o: o.name == self.name, items)
         return len(list(items_with_the_same_name)) - 1
 
     @classmethod
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..a189e21 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -31,6 +31,8 @@ class EFLRSet(LogicalRecord):
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
+        # sets of the same type in the same logical file (including this one)
+        self.sibling_sets: dict[Optional[str], EFLRSet] = {set_name: self}
 
     def __str__(self) -> str:
         """Represent the EFLRSet instance as str."""
-- 
2.43.0


From ea59fd72468064f3cef06d6305aeae0dfc61910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:11 +0000
Subject: [PATCH 21/28] fix: check identities and references of objects before
 writing a file

References to objects of other logical files (or other origins than those defined in the file) were
written although they cannot be resolved.
---
 src/dliswriter/file/file.py | 46 +++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index abf9364..018fdc9 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2135,6 +2135,52 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_identities()
+        self._check_references()
+
+    def _get_all_items(self) -> list[EFLRItem]:
+        """Get all EFLR items which are defined in this logical file, including the file header."""
+
+        items = [self.file_header_item]
+        for eflr_set_dict in self._eflr_sets.values():
+            for eflr_set in eflr_set_dict.values():
+                items.extend(eflr_set.get_all_eflr_items())
+        return items
+
+    def _check_identities(self) -> None:
+        """Check that each object can be uniquely identified and that it belongs to an origin of this logical file."""
+
+        origin_references = [o.origin_reference for o in self.origins]
+        if len(set(origin_references)) < len(origin_references):
+            raise RuntimeError(f"Origin references are not unique in the logical file: {origin_references}")
+
+        identities = set()
+        for item in self._get_all_items():
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference of {item} ({item.origin_reference}) does not match any origin "
+                                   f"of the logical file ({origin_references})")
+            identity = (item.parent.set_type, item.origin_reference, item.copy_number, item.name)
+            if identity in identities:
+                raise RuntimeError(f"Another object with the same type, origin reference, copy number, and name "
+                                   f"as {item} is defined in the logical file: {identity}")
+            identities.add(identity)
+
+    def _check_references(self) -> None:
+        """Check that all objects referred to in this logical file are also defined in it."""
+
+        items = self._get_all_items()
+        item_ids = {id(item) for item in items}
+
+        for item in items:
+            for attr in item.attributes.values():
+                for v in attr.flatten_list([attr.value]):
+                    if isinstance(v, EFLRItem) and id(v) not in item_ids:
+                        raise RuntimeError(f"{v}, referred to by {attr}, is not defined in the same logical file")
+
+        for data in self._no_format_frame_data:
+            if id(data.no_format_object) not in item_ids:
+                raise RuntimeError(f"{data.no_format_object}, referred to by no-format data, "
+                                   f"is not defined in the same logical file")
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
-- 
2.43.0


From 4f59630838901c410447dea6fe4c05c66020f116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 22/28] fix: reject sets shared by several logical files

Objects added to different logical files under the same set name end up in one set, which was then
written in each of these files.
---
 src/dliswriter/file/file.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 018fdc9..8a78ce3 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -178,6 +178,29 @@ class DLISFile:
 
         return SizedGenerator(self.generator(multi_frame_data_objects), size=n)
 
+    def _check_sets_of_logical_files(self) -> None:
+        """Check that each EFLR set belongs to a single logical file and is the only one of that type and name in it."""
+
+        set_owners: dict[int, int] = {}
+
+        for idx_lf, lf in enumerate(self.logical_files):
+            file_header_set = lf.file_header_item.parent
+            if file_header_set.get_all_eflr_items() != [lf.file_header_item]:
+                raise RuntimeError(f"{file_header_set} of the {idx_lf}-th logical file must contain exactly one object")
+
+            set_keys = set()
+            for eflr_set in (file_header_set, *(s for d in lf._eflr_sets.values() for s in d.values())):
+                if set_owners.setdefault(id(eflr_set), idx_lf) != idx_lf:
+                    raise RuntimeError(
+                        f"{eflr_set} contains objects of more than one logical file; please specify different "
+                        f"set names ('set_name') for the objects of each logical file"
+                    )
+
+                key = (eflr_set.set_type, eflr_set.set_name or None)
+                if key in set_keys:
+                    raise RuntimeError(f"More than one {eflr_set} in the {idx_lf}-th logical file")
+                set_keys.add(key)
+
     def write(
         self,
         dlis_file_name: file_name_type,
@@ -208,6 +231,8 @@ class DLISFile:
             if not self.logical_files:
                 raise RuntimeError("No logical files defined for the DLIS file")
 
+            self._check_sets_of_logical_files()
+
             for lf in self.logical_files:
                 lf.clear_defaults()
                 lf.check_objects()
-- 
2.43.0


From 4c16de364d0b38493ee11d0e39d93d4e15c687a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:31 +0000
Subject: [PATCH 23/28] fix: treat an empty set name as no set name

Both are written in the same way, so two sets with the same type and name could be created.
---
 src/dliswriter/file/eflr_sets_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index f1b9223..d79114c 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -54,6 +54,8 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        set_name = set_name or None  # empty name is the same as no name
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
-- 
2.43.0


From 00001716182ae58d8cf22d77585fb411b8d96fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 24/28] fix: remove objects and sets added by a rejected call
 from the specification

---
 src/dliswriter/file/eflr_sets_dict.py         | 24 +++++++++-
 src/dliswriter/file/file.py                   | 44 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_set.py      |  5 +++
 3 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index d79114c..35c5a6c 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -69,8 +69,30 @@ class EFLRSetsDict(defaultdict):
 
         return eflr_set_instance
 
+    def get_state(self) -> list[tuple]:
+        """Describe the current contents of the structure, so that they can be restored with 'restore_state'."""
+
+        return [
+            (set_type, [(name, s, s.n_items, s.sibling_sets) for name, s in set_dict.items()])
+            for set_type, set_dict in self.items()
+        ]
+
+    def restore_state(self, state: list[tuple]) -> None:
+        """Remove all sets, and all items from the sets, which were added since the given state was recorded."""
+
+        set_dicts = dict(self)
+        self.clear()
+
+        for set_type, sets in state:
+            set_dict = self[set_type] = set_dicts[set_type]  # the same dict - it is shared with the sets
+            set_dict.clear()
+            for name, eflr_set, n_items, sibling_sets in sets:
+                set_dict[name] = eflr_set
+                eflr_set.sibling_sets = sibling_sets
+                eflr_set.remove_items_from(n_items)
+
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():  # 'get' does not add the set type to the dictionary
             yield from value.get_all_eflr_items()
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 8a78ce3..aeb7ef4 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,7 +3,8 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
-from typing import Any, Union, Optional, TypeVar, Generator
+from typing import Any, Union, Optional, TypeVar, Generator, Callable
+import functools
 import numpy as np
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -65,6 +66,24 @@ def raise_or_warn(message: str) -> None:
     logger.warning(message)
 
 
+def _undo_on_error(func: Callable) -> Callable:
+    """Decorator for methods of LogicalFile which add objects to it. If the method fails, remove what it has added."""
+
+    @functools.wraps(func)
+    def wrapper(self: "LogicalFile", *args: Any, **kwargs: Any) -> Any:
+        registries = (self.physical_file._eflr_sets, self._eflr_sets)
+        states = [r.get_state() for r in registries]
+
+        try:
+            return func(self, *args, **kwargs)
+        except BaseException:
+            for r, state in zip(registries, states):
+                r.restore_state(state)
+            raise
+
+    return wrapper
+
+
 class DLISFile:
     """DLIS file. Contains the list of the logical files, the Storage Unit Label and the writing routines"""
 
@@ -120,7 +139,7 @@ class DLISFile:
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
-            yield from logical_file._eflr_sets[eflr_types.OriginSet].values()
+            yield from logical_file._eflr_sets.get(eflr_types.OriginSet, {}).values()
 
             for set_type, set_dict in logical_file._eflr_sets.items():
                 if set_type not in (eflr_types.FileHeaderSet, eflr_types.OriginSet):
@@ -365,6 +384,7 @@ class LogicalFile:
 
         return list(self._eflr_sets.get_all_items_for_set_type(eflr_types.OriginSet))
 
+    @_undo_on_error
     def add_axis(
         self,
         name: str,
@@ -414,6 +434,7 @@ class LogicalFile:
 
         return ax
 
+    @_undo_on_error
     def add_calibration(
         self,
         name: str,
@@ -490,6 +511,7 @@ class LogicalFile:
 
         return c
 
+    @_undo_on_error
     def add_calibration_coefficient(
         self,
         name: str,
@@ -569,6 +591,7 @@ class LogicalFile:
 
         return c
 
+    @_undo_on_error
     def add_calibration_measurement(
         self,
         name: str,
@@ -711,6 +734,7 @@ class LogicalFile:
 
         return m
 
+    @_undo_on_error
     def add_channel(
         self,
         name: str,
@@ -833,6 +857,7 @@ class LogicalFile:
 
         return n
 
+    @_undo_on_error
     def add_comment(
         self,
         name: str,
@@ -866,6 +891,7 @@ class LogicalFile:
 
         return c
 
+    @_undo_on_error
     def add_computation(
         self,
         name: str,
@@ -938,6 +964,7 @@ class LogicalFile:
 
         return c
 
+    @_undo_on_error
     def add_equipment(
         self,
         name: str,
@@ -1055,6 +1082,7 @@ class LogicalFile:
 
         return eq
 
+    @_undo_on_error
     def add_frame(
         self,
         name: str,
@@ -1168,6 +1196,7 @@ class LogicalFile:
 
         return fr
 
+    @_undo_on_error
     def add_group(
         self,
         name: str,
@@ -1214,6 +1243,7 @@ class LogicalFile:
 
         return g
 
+    @_undo_on_error
     def add_long_name(
         self,
         name: str,
@@ -1314,6 +1344,7 @@ class LogicalFile:
 
         return ln
 
+    @_undo_on_error
     def add_message(
         self,
         name: str,
@@ -1365,6 +1396,7 @@ class LogicalFile:
 
         return m
 
+    @_undo_on_error
     def add_no_format(
         self,
         name: str,
@@ -1452,6 +1484,7 @@ class LogicalFile:
             next_available_origin_ref += 1
         return next_available_origin_ref
 
+    @_undo_on_error
     def add_origin(
         self,
         name: str,
@@ -1624,6 +1657,7 @@ class LogicalFile:
 
         return o
 
+    @_undo_on_error
     def add_parameter(
         self,
         name: str,
@@ -1683,6 +1717,7 @@ class LogicalFile:
 
         return p
 
+    @_undo_on_error
     def add_path(
         self,
         name: str,
@@ -1806,6 +1841,7 @@ class LogicalFile:
 
         return p
 
+    @_undo_on_error
     def add_process(
         self,
         name: str,
@@ -1882,6 +1918,7 @@ class LogicalFile:
 
         return p
 
+    @_undo_on_error
     def add_splice(
         self,
         name: str,
@@ -1934,6 +1971,7 @@ class LogicalFile:
 
         return sp
 
+    @_undo_on_error
     def add_tool(
         self,
         name: str,
@@ -1995,6 +2033,7 @@ class LogicalFile:
 
         return t
 
+    @_undo_on_error
     def add_well_reference_point(
         self,
         name: str,
@@ -2085,6 +2124,7 @@ class LogicalFile:
 
         return w
 
+    @_undo_on_error
     def add_zone(
         self,
         name: str,
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index a189e21..2df6bab 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -91,6 +91,11 @@ class EFLRSet(LogicalRecord):
 
         return self._eflr_item_list[:]  # copy
 
+    def remove_items_from(self, idx: int) -> None:
+        """Remove all EFLRItem instances registered with this EFLRSet instance after its first 'idx' items."""
+
+        del self._eflr_item_list[idx:]
+
     @property
     def n_items(self) -> int:
         """Number of EFLRItem instances registered with this EFLRSet instance."""
-- 
2.43.0


From b36668423fece3608a2348952a67f20ea187d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:49 +0000
Subject: [PATCH 25/28] fix: warn about names not compatible with all viewers;
 validate names assigned to existing objects

---
 .../logical_record/core/eflr/eflr_item.py     | 14 ++++++++++-
 .../logical_record/eflr_types/file_header.py  | 23 +++++++++++++++----
 .../logical_record/misc/storage_unit_label.py | 14 ++++++++++-
 .../utils/internal/value_checkers.py          | 14 +++++++----
 4 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 39bea87..6cd6c42 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -56,7 +56,7 @@ class EFLRItem:
 
         """
 
-        self.name = validate_string(name)    #: name of the item
+        self.name = name
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
@@ -73,6 +73,18 @@ class EFLRItem:
 
         self.set_attributes(**{k: v for k, v in kwargs.items() if v is not None})
 
+    @property
+    def name(self) -> str:
+        """Name of the item."""
+
+        return self._name
+
+    @name.setter
+    def name(self, name: str) -> None:
+        """Set a (new) name of the item, provided it is valid."""
+
+        self._name = validate_string(name)
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 5ad1b52..8d6442e 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -38,10 +38,7 @@ class FileHeaderItem(EFLRItem):
             identifier      :   '[A] single arbitrary character', identifying the File Header.
         """
 
-        if not isinstance(header_id, str):
-            raise TypeError(f"'header_id' should be a str; got {type(header_id)}")
-        if len(header_id) > self.header_id_length_limit:
-            raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
+        self.header_id = header_id
 
         if not isinstance(sequence_number, int) or isinstance(sequence_number, bool):
             raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
@@ -54,11 +51,27 @@ class FileHeaderItem(EFLRItem):
         if len(identifier) != 1:
             raise ValueError(f"'identifier' should be a single character; got '{identifier}'")
 
-        self.header_id = validate_string(header_id)
         self.sequence_number = sequence_number
 
         super().__init__(name=identifier, parent=parent)
 
+    @property
+    def header_id(self) -> str:
+        """Descriptive identification of the Logical File."""
+
+        return self._header_id
+
+    @header_id.setter
+    def header_id(self, header_id: str) -> None:
+        """Set a (new) header ID, provided it is valid."""
+
+        if not isinstance(header_id, str):
+            raise TypeError(f"'header_id' should be a str; got {type(header_id)}")
+        if len(header_id) > self.header_id_length_limit:
+            raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
+
+        self._header_id = validate_string(header_id)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(header_id={self.header_id}, sequence_number={self.sequence_number}, "
                 f"parent=FileHeaderSet())")
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index d902a8b..cba6afe 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -39,12 +39,24 @@ class StorageUnitLabel:
         super().__init__()
 
         self.sequence_number = sequence_number
-        self.set_identifier = validate_string(set_identifier)
+        self.set_identifier = set_identifier
         self.max_record_length = max_record_length
 
         if max_record_length > self.max_record_length_limit:
             raise ValueError(f"Max record length cannot be larger than {self.max_record_length_limit}")
 
+    @property
+    def set_identifier(self) -> str:
+        """ID of the storage set."""
+
+        return self._set_identifier
+
+    @set_identifier.setter
+    def set_identifier(self, set_identifier: str) -> None:
+        """Set a (new) ID of the storage set, provided it is valid."""
+
+        self._set_identifier = validate_string(set_identifier)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(sequence_number={self.sequence_number}, "
                 f"set_identifier={self.set_identifier}, max_record_length={self.max_record_length})")
diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..7c4a31f 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,15 +1,19 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
 def validate_string(s: str) -> str:
     """Check that a strings fulfills the conditions to be deemed safe for all known DLIS viewers.
 
+    If it does not, raise an error in high-compatibility mode, or issue a warning in the logs otherwise.
     For more details, see https://well-id-widcdliswriter.readthedocs-hosted.com/userguide/compatibilityissues.html
 
     Returns the original string.
@@ -18,12 +22,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        message = ("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                   f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError(message)
+        logger.warning(message)
 
     return s
 
-- 
2.43.0


From 252a3b88cf152ab66017caefdfb5c2d150672455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 26/28] fix: accept only no-format objects and text or bytes in
 no-format data

---
 src/dliswriter/file/file.py                                  | 4 ++--
 .../logical_record/iflr_types/no_format_frame_data.py        | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index aeb7ef4..13d42ac 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1447,7 +1447,7 @@ class LogicalFile:
         return nf
 
     def add_no_format_frame_data(
-        self, no_format_object: eflr_types.NoFormatItem, data: str
+        self, no_format_object: eflr_types.NoFormatItem, data: Union[str, bytes, bytearray]
     ) -> NoFormatFrameData:
         """Create a no-format frame data object.
 
@@ -1456,7 +1456,7 @@ class LogicalFile:
 
         Args:
             no_format_object    :   No-format item this data belongs to.
-            data                :   Data associated with the object. Will be encoded as ASCII.
+            data                :   Data associated with the object: bytes, or a str, which will be encoded as ASCII.
 
         Returns:
             A configured NoFormatFrameData instance.
diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index b9de52f..26e4001 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -15,6 +15,11 @@ class NoFormatFrameData(IFLR):
 
         super().__init__()
 
+        if not isinstance(no_format_object, NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem; got {type(no_format_object)}: {no_format_object}")
+        if not isinstance(data, (str, bytes, bytearray)):
+            raise TypeError(f"Expected a str, bytes, or bytearray; got {type(data)}: {data}")
+
         self.no_format_object = no_format_object
         self.data = data
 
-- 
2.43.0


From 1da368ef93adfd2c15468acda4ff1f8a1666c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 27/28] fix: refuse to overwrite the source data file with the
 DLIS file

---
 src/dliswriter/file/file.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 13d42ac..08b1f46 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -5,6 +5,7 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 
 from typing import Any, Union, Optional, TypeVar, Generator, Callable
 import functools
+import os
 import numpy as np
 from timeit import timeit
 from datetime import timedelta, datetime
@@ -250,6 +251,10 @@ class DLISFile:
             if not self.logical_files:
                 raise RuntimeError("No logical files defined for the DLIS file")
 
+            if isinstance(data, (str, os.PathLike)) and os.path.exists(data) and os.path.exists(dlis_file_name):
+                if os.path.samefile(data, dlis_file_name):
+                    raise ValueError(f"The source data file cannot be overwritten by the DLIS file: {dlis_file_name}")
+
             self._check_sets_of_logical_files()
 
             for lf in self.logical_files:
-- 
2.43.0


From 46d956eb6acc6b9951d57571e4d21991288c1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:50 +0000
Subject: [PATCH 28/28] fix: name the standard equipment type 'Panel' correctly

---
 src/dliswriter/utils/enums.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/enums.py b/src/dliswriter/utils/enums.py
index c971d3e..8473df3 100644
--- a/src/dliswriter/utils/enums.py
+++ b/src/dliswriter/utils/enums.py
@@ -179,7 +179,8 @@ class EquipmentType(ValidatorEnum):
     NUCLEAR_DETECTOR = "Nuclear-Detector"
     PACKER = "Packer"
     PAD = "Pad"
-    PANE = "Pane"
+    PANEL = "Panel"
+    PANE = "Panel"
     POSITIONING = "Positioning"
     PRINTER = "Printer"
     RADIOACTIVE_SOURCE = "Radioactive-Source"
-- 
2.43.0

