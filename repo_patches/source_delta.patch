From b4265c1bc5782a1f87915d823d764a65229cc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/53] fix: decode UTF-16/32 strings whose last character ends
 in a null byte

convert_to_numpy_str viewed the code units as bytes_ elements, from which
numpy strips trailing nulls, so any string ending in a character such as
U+0100 or U+1F600 could not be read back and the width of string arrays
was lost.
---
 src/hdf5storage/utilities.py | 47 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..37d1ff7 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -982,31 +982,32 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
+            # numpy.char.decode is used to decode UTF-8. Copy is needed
+            # to prevent errors.
             if data.dtype.name == "uint8":
-                encoding = "UTF-8"
-                swapbytes = False
-                dt = "S" + str(length_to_use)
-            else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
+                return np.char.decode(
+                    data.copy().view("S" + str(length_to_use)),
+                    "UTF-8",
                 )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+
+            # Trailing nulls are dropped in numpy bytes_ arrays, which
+            # could be part of the last character for the wider
+            # encodings. So, each string must be decoded directly from
+            # its bytes (converted to big endian order) instead.
+            if data.dtype.name == "uint16":
+                encoding = "UTF-16BE"
+                big_endian_dtype = ">u2"
+            else:
+                encoding = "UTF-32BE"
+                big_endian_dtype = ">u4"
+            strs = [
+                chunk.tobytes().decode(encoding)
+                for chunk in data.astype(big_endian_dtype).reshape((-1, length_to_use))
+            ]
+            # The strings have the specified length in the result if it
+            # was given.
+            out_dtype = "U" if length is None else "U" + str(length)
+            return np.array(strs, dtype=out_dtype).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From 3bcc87898f6bd40a85012a78208712de57c3e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 02/53] fix: keep the byte order when converting str and
 complex arrays

Big-endian str and complex arrays were reinterpreted as native byte order
when converted to code units or real/imaginary pairs, corrupting them.
---
 src/hdf5storage/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 37d1ff7..18a95d9 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -776,7 +776,8 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    uint32_dtype = np.dtype("uint32").newbyteorder(data.dtype.byteorder)
+    return data.ravel().view(uint32_dtype).astype(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
@@ -1319,7 +1320,8 @@ def encode_complex(
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
     # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    part_dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
+    return data.view([(complex_names[0], part_dtype), (complex_names[1], part_dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From 0d0c0163ca9572f2126b93c34e2a56ca94336970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 03/53] fix: decide whether to store str as UTF-16 from the
 characters themselves

The decision compared array widths, so 0-d str arrays raised IndexError,
str arrays wider than their longest string were stored as UTF-32, and
arrays in which doublets made up for missing characters were stored as
UTF-16 with doublets.
---
 src/hdf5storage/Marshallers.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..7a8aa7c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -46,7 +46,6 @@ from .utilities import (
     convert_attribute_to_string,
     convert_attribute_to_string_array,
     convert_dtype_to_str,
-    convert_numpy_str_to_uint16,
     convert_numpy_str_to_uint32,
     convert_to_numpy_bytes,
     convert_to_numpy_str,
@@ -759,33 +758,18 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # encoding) types (its numpy.unicode_ in Python 2, which is an
         # alias for it in Python 3). If the option is set to try to
         # convert them to UTF-16, then an attempt at the conversion is
-        # made. If no conversion is to be done, the conversion throws an
-        # exception (a UTF-32 character had no UTF-16 equivalent), or a
-        # UTF-32 character gets turned into a UTF-16 doublet (the
-        # increase in the number of columns will be by a factor more
-        # than the length of the strings); then it will be simply
-        # converted to uint32's byte for byte instead.
+        # made. If no conversion is to be done or there is a character
+        # that has no UTF-16 equivalent or would be turned into a UTF-16
+        # doublet (is outside of the Basic Multilingual Plane); then it
+        # will be simply converted to uint32's byte for byte instead.
 
         if data.dtype.type == np.unicode_:
-            new_data2 = None
-            if f.options.convert_numpy_str_to_utf16:
-                with contextlib.suppress(Exception):
-                    new_data2 = convert_numpy_str_to_uint16(data_to_store)
-            if (
-                new_data2 is None
-                or (
-                    type(data_to_store) == np.unicode_
-                    and len(data_to_store) != len(new_data2)
-                )
-                or (
-                    isinstance(data_to_store, np.ndarray)
-                    and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
-                )
+            data_to_store = convert_numpy_str_to_uint32(data_to_store)
+            if f.options.convert_numpy_str_to_utf16 and not np.any(
+                (data_to_store > 0xFFFF)
+                | ((data_to_store >= 0xD800) & (data_to_store <= 0xDFFF)),
             ):
-                data_to_store = convert_numpy_str_to_uint32(data_to_store)
-            else:
-                data_to_store = new_data2
+                data_to_store = data_to_store.astype(np.uint16)
 
         # Convert scalars to arrays if that option is set. For 1d
         # arrays, an option determines whether they become row or column
-- 
2.43.0


From 2c2d665dbfa795aa9f8f74a4de5125145d7a8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 04/53] fix: convert non-contiguous bytes_ arrays to UTF-16

The view as uint8 requires the last axis to be contiguous, so writing
transposed or strided bytes_ arrays raised ValueError.
---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 7a8aa7c..9d1cb81 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -746,7 +746,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.ndarray)
                     .view(np.uint8)
                     .astype(np.uint16)
-- 
2.43.0


From c8340979a4d15acca3101d025b288e9408a8f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 05/53] fix: write recarrays with structured fields

Elements of a recarray viewed as ndarray are still records, whose
structured fields are records too and can't be written.
---
 src/hdf5storage/Marshallers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9d1cb81..f210c84 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -734,6 +734,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # for h5py to be able to write them.
         if isinstance(data_to_store, np.core.records.recarray):
             data_to_store = data_to_store.view(np.ndarray)
+            # The elements must not be records either since the values
+            # of structured fields would then be too, which can't be
+            # written.
+            if data_to_store.dtype.fields is not None:
+                data_to_store = data_to_store.view(
+                    np.dtype((np.void, data_to_store.dtype)),
+                )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From 6a4344fd9ce02175e59fddc7e7f3cfd5ace927e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 06/53] fix: keep trailing nulls of str, bytes, and bytearray

numpy strips them from str_ and bytes_ when reading, so they were lost.
---
 src/hdf5storage/Marshallers.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f210c84..61c169a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1689,13 +1689,22 @@ class PythonStringMarshaller(NumpyScalarArrayMarshaller):
         # type (just look up the entry in types). Otherwise, return it
         # as is.
         type_string = convert_attribute_to_string(attributes["Python.Type"])
-        if type_string == "str":
-            return convert_to_str(data)
-        if type_string == "bytes":
-            return bytes(data)
-        if type_string == "bytearray":
-            return bytearray(data)
-        return data
+        if type_string not in {"str", "bytes", "bytearray"}:
+            return data
+        out = convert_to_str(data) if type_string == "str" else bytes(data)
+
+        # numpy drops trailing nulls, so they must be put back using the
+        # size that was stored with the type. It is never larger than
+        # what is in the Dataset.
+        underlying_type = convert_attribute_to_string(
+            attributes["Python.numpy.UnderlyingType"],
+        )
+        prefix, nbits, null = ("str", 32, "\0") if type_string == "str" else ("bytes", 8, b"\0")
+        if underlying_type is not None and underlying_type.startswith(prefix):
+            length = int(underlying_type[len(prefix) :] or 0) // nbits
+            length = min(length, dsetgrp.size * dsetgrp.dtype.itemsize)
+            out += (length - len(out)) * null
+        return bytearray(out) if type_string == "bytearray" else out
 
 
 class PythonNoneEllipsisNotImplementedMarshaller(NumpyScalarArrayMarshaller):
-- 
2.43.0


From 1d3f39014125d75bd19d7300ab21f48d2f701f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 07/53] fix: keep the field dtypes of empty structured arrays
 stored as Datasets

They were replaced by object even though the Dataset has the dtype.
---
 src/hdf5storage/Marshallers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 61c169a..5ab7148 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1352,6 +1352,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     else:
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
+                elif (
+                    struct_dtype is not None
+                    and isinstance(dset, h5py.Dataset)
+                    and data.dtype.fields is not None
+                ):
+                    # It was stored with its dtype.
+                    data = np.zeros(tuple(shape), dtype=data.dtype)
                 elif struct_dtype is not None:
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
-- 
2.43.0


From 95e4366ed8c2e3c81f374e0d02d9466fd8275878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 08/53] fix: write chararrays of str

A chararray can't be viewed as uint32, so it must be made a plain ndarray
first.
---
 src/hdf5storage/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 18a95d9..1c2013a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -777,7 +777,8 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
     uint32_dtype = np.dtype("uint32").newbyteorder(data.dtype.byteorder)
-    return data.ravel().view(uint32_dtype).astype(np.uint32).reshape(tuple(shape))
+    data = np.asarray(data).ravel().view(uint32_dtype)
+    return data.astype(np.uint32).reshape(tuple(shape))
 
 
 def convert_to_str(
-- 
2.43.0


From 3dd90c635a98e6fd57920225bdaa6ce53312e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 09/53] fix: escape the names of the keys and values Datasets
 when writing

They are escaped when reading, so with names that need escaping a dict
could not be read back.
---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 5ab7148..2a87637 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1851,7 +1851,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From 1540575ee0440aeb1c3e0e6493c645dc93f9e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 10/53] fix: read complex data written with arbitrary field
 names

complex_names can be any two names, but data written with names that
weren't recognized was read back as structured.
---
 src/hdf5storage/Marshallers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 2a87637..565f7c4 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1367,8 +1367,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data = data.T
 
             # If it is a complex type, then it needs to be decoded
-            # properly.
+            # properly. The real part always comes first regardless of the
+            # field names it was written with.
             if underlying_type.startswith("complex"):
+                if data.dtype.names is not None and len(data.dtype.names) == 2:
+                    part_dtypes = [data.dtype[i] for i in range(2)]
+                    data = data.view(list(zip(("real", "imag"), part_dtypes)))
                 data = decode_complex(data)
 
             # If its underlying type is 'bool' but it is something else,
-- 
2.43.0


From 7acf0070b1eb0883f618b4522eeef93124eb27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 11/53] fix: process empty paths given as pathlib paths or
 Sequences

---
 src/hdf5storage/pathesc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..92423bb 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -289,9 +289,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
@@ -308,7 +308,7 @@ def process_path(pth: Path) -> Tuple[str, str]:
                     "Elements of p must be str, bytes, or pathlib.PurePath.",
                 )
             parts_seq.append(escape_path(val))
-        p = posixpath.join(*parts_seq)
+        p = posixpath.join("", *parts_seq)
     else:
         raise TypeError(
             "p must be str, bytes, pathlib.PurePath, or an Sequence solely of one of "
-- 
2.43.0


From 250f3644463a060a326793719286951ce744cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 12/53] fix: unescape escaped backslashes and reject too large
 escapes

---
 src/hdf5storage/pathesc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 92423bb..a5023d2 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -138,7 +138,14 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     count = s.count(slsh)
     if count % 2 == 0:
         return s
-    c = chr(int(s[(count + 1) :], base=16))
+    value = int(s[(count + 1) :], base=16)
+    if value > sys.maxunicode:
+        raise ValueError("Invalid escape found.")
+    c = chr(value)
+    # A decoded backslash must survive the later conversion of double
+    # backslashes to single ones.
+    if c == slsh:
+        c = slsh * 2
     return slsh * (count - 1) + c
 
 
-- 
2.43.0


From 8b9e20710c4f53cf7e6e5723bd9b5b8629eedefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 13/53] fix: write to paths given as lists

---
 src/hdf5storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..52305dd 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1839,7 +1839,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.writes({posixpath.join(*pathesc.process_path(path)): data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
         """Write one or more pieces of data to the file.
@@ -2199,7 +2199,7 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
-        self.writes({path: data})
+        self.writes({posixpath.join(*pathesc.process_path(path)): data})
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
         """Deletes one path from the file.
-- 
2.43.0


From 90395d72c3390b80b46b711d8eb4ff415b4cd085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:28 +0000
Subject: [PATCH 14/53] fix: normalize group_for_references

---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 52305dd..85cf30a 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -727,8 +727,11 @@ class Options:
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
             pth = posixpath.normpath(value)
+            # POSIX lets a path start with exactly two slashes.
+            if pth.startswith("//"):
+                pth = pth[1:]
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From 70cc9673e92e928adadaba63e786f5636e5e0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 15/53] fix: decode code units of any byte order and keep
 leading byte order marks

---
 src/hdf5storage/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 1c2013a..fba0aec 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -839,9 +839,9 @@ def convert_to_str(
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.astype("<u2").tobytes().decode("UTF-16LE")
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.astype("<u4").tobytes().decode("UTF-32LE")
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -849,7 +849,7 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return data.astype(data.dtype.newbyteorder("<")).tobytes().decode("UTF-32LE")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 9cecb205e694db68101764056c402182a472e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 16/53] fix: convert arrays of bytes_ to str_

---
 src/hdf5storage/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index fba0aec..213a25a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -936,7 +936,7 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            return np.char.decode(data, "UTF-8")  # type: ignore[arg-type]
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
-- 
2.43.0


From 9e1bab64f0af4ef5fb68107c17eb1a4ec288b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 17/53] fix: convert all 1D and non-contiguous arrays to bytes_
 without truncation

---
 src/hdf5storage/utilities.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 213a25a..00f1f43 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1138,7 +1138,7 @@ def convert_to_numpy_bytes(
             if len(shape) == 1:
                 if length is None:
                     length2 = shape[0]
-                    new_shape = [shape[0]]
+                    new_shape = [min(shape[0], 1)]
                 else:
                     length2 = length
                     new_shape = [shape[0] // length2]
@@ -1156,26 +1156,25 @@ def convert_to_numpy_bytes(
                 return np.ndarray(
                     shape=new_shape,
                     dtype="S" + str(length2),
-                    buffer=data,
+                    buffer=np.ascontiguousarray(data),
                 )
 
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
-            new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
-            )
-
             # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
+            # length sized chunks, convert them to str, and encode those
+            # into UTF-8. The new array needs enough padding (nulls) to
+            # hold everything, which can be more than length bytes per
+            # element since a UTF-16 or UTF-32 code unit can take more
+            # than one byte in UTF-8. It will start out as a 1d array and
+            # be reshaped into the proper shape later.
             data = data.ravel()
-            for i in range(0, new_data.shape[0]):
-                chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
+            chunks = [
+                convert_to_str(data[(i * length2) : ((i + 1) * length2)]).encode("UTF-8")
+                for i in range(int(np.prod(new_shape)))
+            ]
+            new_data = np.array(
+                chunks,
+                dtype="S" + str(max([length2] + [len(c) for c in chunks])),
+            )
 
             # Only thing is left is to reshape it.
             return new_data.reshape(tuple(new_shape))
-- 
2.43.0


From f8de2ac382fcd3f832a7a1defd5fbfe700356929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 18/53] fix: replace attributes whose type or shape differs

---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 00f1f43..a551c9d 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1438,6 +1438,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From 4fa3739d7d1b5c6e810ed98f677d78e8df6b017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 19/53] fix: compare MATLAB_fields when overwriting

---
 src/hdf5storage/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index a551c9d..7af9f96 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1429,7 +1429,11 @@ def set_attributes_all(
             if k not in existing:
                 attrs.create(k, val)
             elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
+                # The elements are arrays, which have to be compared one
+                # by one.
+                if np.shape(val) != np.shape(existing[k]) or not all(
+                    np.array_equal(x, y) for x, y in zip(val, existing[k])
+                ):
                     attrs.create(k, val)
             else:
                 try:
-- 
2.43.0


From e08f1448c420d97010d3e0dcb65c3cec673638b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 20/53] fix: decode complex scalars

---
 src/hdf5storage/utilities.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 7af9f96..b15506c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1273,9 +1273,11 @@ def decode_complex(
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
-        cdata = real.astype(cdtype)
+        cdata = np.empty(np.shape(real), dtype=cdtype)
+        cdata.real = real
         cdata.imag = imag
-        return cdata
+        # Scalars must stay scalars.
+        return cdata if isinstance(data, np.ndarray) else cdata[()]
     return data
 
 
-- 
2.43.0


From d19192f08b272fd2c065f0ca911fb397da42663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 21/53] fix: convert empty arrays of bytes_ to str_

---
 src/hdf5storage/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index b15506c..6caa044 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -936,6 +936,9 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
+            # An empty array would be decoded to an array of floats.
+            if data.size == 0:
+                return np.zeros(shape=data.shape, dtype="U1")
             return np.char.decode(data, "UTF-8")  # type: ignore[arg-type]
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
-- 
2.43.0


From 8d2f081a7f1dbd1747965a9e541ce4d1864496c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 22/53] fix: raise TypeError for arguments that are not dtypes

---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6caa044..97038bc 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -87,6 +87,8 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
         If `dt` is not a ``numpy.dtype``.
 
     """
+    if not isinstance(dt, np.dtype):
+        raise TypeError("dt must be a numpy.dtype.")
     components = [dt]
     while len(components) != 0:
         c = components.pop()
-- 
2.43.0


From a1e07c3e9f3deda38be20f999ef4a0611dc06802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 23/53] fix: refuse to modify files opened read-only

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 85cf30a..474b2b0 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1666,7 +1666,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From 4f2a0e7d41ef6cafa21b9185a9dab9071bf443bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 24/53] fix: never iterate over the Group for references

---
 src/hdf5storage/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 474b2b0..fa641d4 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -42,7 +42,6 @@ import copy
 import datetime
 import importlib
 import inspect
-import itertools
 import os
 import pkgutil
 import posixpath
@@ -2127,13 +2126,10 @@ class File(collections.abc.MutableMapping):
                 raise OSError("File is closed.")
             # We will use the output of the __iter__ method of the file,
             # but if the Group for references is in the root Group, we
-            # will need to filter it out.
+            # will need to filter it out. The names are collected now so
+            # that the file is only accessed while holding the lock.
             refgrp = self._options.group_for_references
-            it = self._file.__iter__()
-            if posixpath.split(refgrp)[0] == "/":
-                refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
-            return it
+            return iter([k for k in self._file if "/" + k != refgrp])
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
         """Reads the object at the specified `path` from the file.
-- 
2.43.0


From 0ebf0adf4137386c4e22e27e913c3eb5758f02f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 25/53] fix: guard the Group for references and nothing but it

---
 src/hdf5storage/__init__.py | 79 ++++++++++++++++++++++++-------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index fa641d4..1c2c12f 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1894,19 +1894,7 @@ class File(collections.abc.MutableMapping):
         towrite = []
         for p, v in mdict.items():
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._is_reserved(groupname, targetname, modify=True):
                 raise ValueError(
                     "Cannot write to paths inside the the "
                     "Group specified by the "
@@ -2000,19 +1988,7 @@ class File(collections.abc.MutableMapping):
         toread = []
         for p in paths:
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._is_reserved(groupname, targetname):
                 raise ValueError(
                     "Cannot read from paths inside the the "
                     "Group specified by the "
@@ -2038,6 +2014,41 @@ class File(collections.abc.MutableMapping):
         # Return it all.
         return datas
 
+    def _is_reserved(
+        self: "File",
+        groupname: str,
+        targetname: str,
+        modify: bool = False,
+    ) -> bool:
+        """Check if a path belongs to the Group for references.
+
+        Parameters
+        ----------
+        groupname : str
+            The Group part of the path.
+        targetname : str
+            The target part of the path.
+        modify : bool, optional
+            Whether what is at the path is going to be modified or not
+            (default). If it is, then the paths of the Groups (other than
+            the root) that contain the Group for references are reserved
+            too.
+
+        Returns
+        -------
+        reserved : bool
+            Whether the path is reserved or not.
+
+        """
+        refgrp = self._options.group_for_references
+        pth = posixpath.normpath(posixpath.join("/", groupname, targetname))
+        pth = "/" + pth.lstrip("/")
+        return (
+            pth == refgrp
+            or pth.startswith(refgrp + "/")
+            or (modify and pth != "/" and refgrp.startswith(pth + "/"))
+        )
+
     def __len__(self: "File") -> int:
         """Get the number of objects stored in the file root.
 
@@ -2093,7 +2104,9 @@ class File(collections.abc.MutableMapping):
             # Check that the file is open.
             if self._file is None:
                 raise OSError("File is closed.")
-            # Do the check.
+            # Do the check. The Group for references is hidden.
+            if self._is_reserved(groupname, targetname):
+                return False
             return posixpath.join(groupname, targetname) in self._file
 
     def __iter__(self: "File") -> Iterator[str]:
@@ -2221,13 +2234,23 @@ class File(collections.abc.MutableMapping):
             If `path` is an invalid type.
         KeyError
             If there is no object at `path` in the file.
+        ValueError
+            If `path` has an invalid path.
 
         """
         # File had to be opened writable.
         if not self._writable:
             raise OSError("File is not writable.")
-        # Process the path.
+        # Process the path. The Group specified by
+        # options.group_for_references cannot be deleted, as a whole or
+        # in part, since other data needs it.
         groupname, targetname = pathesc.process_path(path)
+        if self._is_reserved(groupname, targetname, modify=True):
+            raise ValueError(
+                "Cannot delete paths inside the the "
+                "Group specified by the "
+                "group_for_references option.",
+            )
         # File operations must be synchronized.
         with self._lock:
             # Check that the file is open.
-- 
2.43.0


From 72664b1388268135053a6a47443946d0a706ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 26/53] fix: store dicts whose keys have no or the same name

---
 src/hdf5storage/Marshallers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 565f7c4..8ef81b0 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1823,6 +1823,11 @@ class PythonDictMarshaller(TypeMarshaller):
                 any_non_valid_str_keys = True
                 break
 
+        # Names must not be empty and must be unique (keys of different
+        # types can have the same name).
+        if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
+            any_non_valid_str_keys = True
+
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
         # before being created.
-- 
2.43.0


From d74709336083e9f34fef3877ec4dfd5aef66ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 27/53] fix: never write over or delete the Group for
 references

---
 src/hdf5storage/Marshallers.py | 10 ++++++++--
 src/hdf5storage/utilities.py   | 29 +++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8ef81b0..53d0b75 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -876,7 +876,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    if not f.is_refs_group(dsetgrp, field):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1839,6 +1840,10 @@ class PythonDictMarshaller(TypeMarshaller):
             del grp[name]
             grp2 = grp.create_group(name)
 
+        # The Group for references is not available for storing a field.
+        if any(f.is_refs_group(grp2, k) for k in keys_as_str):
+            any_non_valid_str_keys = True
+
         # Write the metadata.
         self.write_metadata(
             f,
@@ -1874,7 +1879,8 @@ class PythonDictMarshaller(TypeMarshaller):
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                if not f.is_refs_group(grp2, field):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 97038bc..e7c65db 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -211,6 +211,28 @@ class LowLevelFile:
         """hdf5storage.Options: The options used for reading and writing."""
         return self._options
 
+    def is_refs_group(self: "LowLevelFile", grp: h5py.Group, name: str) -> bool:
+        """Check if a name in a Group is the Group for references.
+
+        Or is a Group that contains it, other than the root Group.
+
+        Parameters
+        ----------
+        grp : h5py.Group
+            The parent Group.
+        name : str
+            The name in `grp`.
+
+        Returns
+        -------
+        is_refs_group : bool
+            Whether it is or not.
+
+        """
+        pth = "/" + posixpath.normpath(posixpath.join(grp.name, name)).lstrip("/")
+        refs = self._options.group_for_references
+        return pth != "/" and (refs + "/").startswith(pth + "/")
+
     def write_data(
         self: "LowLevelFile",
         grp: h5py.Group,
@@ -256,6 +278,13 @@ class LowLevelFile:
         hdf5storage.Options
 
         """
+        # Nothing can take the place of the Group for references.
+        if self.is_refs_group(grp, name):
+            raise ValueError(
+                "Cannot write over the Group specified by the "
+                "group_for_references option.",
+            )
+
         # Get the marshaller for type(data). The required modules should
         # be here and imported. A workaround must be when data is a
         # dtype since dtypes are no longer type numpy.dtype in numpy
-- 
2.43.0


From 7955aaaf759bc1be8946be9f02613eb5c0fe399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 28/53] fix: remove the keys and values of an overwritten dict

---
 src/hdf5storage/Marshallers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 53d0b75..cff2b4f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1839,6 +1839,16 @@ class PythonDictMarshaller(TypeMarshaller):
         elif not isinstance(grp2, h5py.Group):
             del grp[name]
             grp2 = grp.create_group(name)
+        elif not any_non_valid_str_keys:
+            # The keys and values of what was there before aren't fields.
+            attrs = grp2.attrs
+            if (
+                convert_attribute_to_string(attrs.get("Python.dict.StoredAs"))
+                == "keys_values"
+            ):
+                for field in attrs.get("Python.dict.keys_values_names", ()):
+                    with contextlib.suppress(KeyError):
+                        del grp2[escape_path(field)]
 
         # The Group for references is not available for storing a field.
         if any(f.is_refs_group(grp2, k) for k in keys_as_str):
-- 
2.43.0


From 4aa486278c8d56b5b2a5cdc40938522b644e0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 29/53] fix: read Groups whose fields were deleted, emptied, or
 left over

Reading a Group as a structured array failed on an undefined variable
when it had no fields (deleting the last element of a Group), with a
KeyError if a listed field was deleted, and broke if left over fields
that are not listed made it look like a single element one.
---
 src/hdf5storage/Marshallers.py | 54 +++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cff2b4f..764a749 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1198,13 +1198,22 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # struct_data.
             struct_data = {}
             is_multi_element = True
+            listed_fields: Optional[List[str]] = None
+            if python_fields is not None:
+                listed_fields = [unescape_path(k) for k in python_fields]
+            elif matlab_fields is not None:
+                listed_fields = [
+                    unescape_path(k.tobytes().decode()) for k in matlab_fields
+                ]
             for k, fld in dset.items():
                 # Unescape the name.
                 unescaped_k = unescape_path(k)
                 # We must exclude group_for_references
                 if fld.name == f.options.group_for_references:
                     continue
-                if (
+                # If the fields are given, only they determine whether
+                # it is multi-element or not.
+                if (listed_fields is None or unescaped_k in listed_fields) and (
                     isinstance(fld, h5py.Group)
                     or h5py.check_dtype(ref=fld.dtype) is None
                     or len(
@@ -1223,6 +1232,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             if matlab_class == "struct" and f.options.structs_as_dicts:
                 return struct_data
 
+            # The elements of a multi element one are spread over
+            # Reference arrays that all have the same shape.
+            shapes = {
+                getattr(v, "shape", None)
+                for k, v in struct_data.items()
+                if listed_fields is None or k in listed_fields
+            }
+            if len(shapes) > 1 or None in shapes:
+                is_multi_element = False
+
             # If it isn't multi element, we need to pack all the values
             # in struct_array inside of numpy.object_'s so that the code
             # after this that depends on this will work.
@@ -1238,13 +1257,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # not) and determine the dtype and shape of that field to
             # put in the list.
 
-            if python_fields is not None or matlab_fields is not None:
-                if python_fields is not None:
-                    fields = [unescape_path(k) for k in python_fields]
-                else:
-                    fields = [
-                        unescape_path(k.tobytes().decode()) for k in matlab_fields
-                    ]
+            if listed_fields is not None:
+                # Fields that are no longer there (deleted from the
+                # Group) can't be a part of it.
+                fields = [k for k in listed_fields if k in struct_data]
                 # Now, there may be fields available that were not
                 # given, but still should be read. Keys that are not in
                 # python_fields need to be added to the list.
@@ -1253,6 +1269,17 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             else:
                 fields = sorted(struct_data)
 
+            # The shape of the structured ndarray is the shape of the
+            # object arrays of its fields, which is a single element if
+            # there are none. Fields that don't have it can't be a part
+            # of the array.
+            struct_shape = struct_data[fields[0]].shape if fields else (1,)
+            fields = [
+                k
+                for k in fields
+                if getattr(struct_data[k], "shape", None) == struct_shape
+            ]
+
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
             for k in fields:
                 # Read the value.
@@ -1285,9 +1312,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     dt_whole.append((k, "object"))
 
             # Make the structured ndarray with the constructed
-            # dtype. The shape is simply the shape of the object arrays
-            # of its fields, so we might as well use the shape of
-            # v. Then, all the elements of every field need to be
+            # dtype. Then, all the elements of every field need to be
             # assigned. Now, if dtype's itemsize is 0, a TypeError will
             # be thrown by numpy due to a bug in numpy. np.zeros (as
             # well as ones and empty) does not like to make arrays with
@@ -1297,11 +1322,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # at least no errors will happen.
             dtwhole = np.dtype(dt_whole)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=struct_shape, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=struct_shape, dtype=dtwhole)
 
-            for k, v in struct_data.items():
+            for k in fields:
+                v = struct_data[k]
                 # There is no sense iterating through the elements if
                 # the shape is an empty shape.
                 if all(data.shape) and all(v.shape):
-- 
2.43.0


From d0e61ebce34558fbe96a8bc8932122d48c68cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 30/53] fix: ignore left over Group members when reading
 datetime objects and Fractions

With delete_unused_variables off, writing one over a dict or another
such object made it unreadable as all members were passed to the
constructor.
---
 src/hdf5storage/Marshallers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 764a749..1a0610a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2307,6 +2307,11 @@ class PythonDatetimeObjsMarshaller(PythonDictMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            # Anything left over from what was stored there before isn't
+            # an argument.
+            fields = convert_attribute_to_string_array(attributes["Python.Fields"])
+            if fields is not None:
+                data = {k: v for k, v in data.items() if k in fields}
             return tp(**data)  # type: ignore[operator]
         # Must be some other type, so return it as is.
         return data
@@ -2361,7 +2366,10 @@ class PythonFractionMarshaller(PythonDictMarshaller):
         # work, and then pass the result through the contructor of
         # Fraction.
         data = PythonDictMarshaller.read(self, f, dsetgrp, attributes)
-        return importlib.import_module("fractions").Fraction(**data)
+        return importlib.import_module("fractions").Fraction(
+            numerator=data["numerator"],
+            denominator=data["denominator"],
+        )
 
     def read_approximate(
         self: "PythonFractionMarshaller",
-- 
2.43.0


From 608e3f14475d4930cb30c0056bcf899fc6c2c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 31/53] fix: replace Datasets that can't be written into

Writing over a null Dataset, or References over a Dataset of another
kind of object with the same shape, failed because the old one was
still there.
---
 src/hdf5storage/Marshallers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1a0610a..21beeca 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -989,6 +989,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 else:
                     dsetgrp[...] = data_to_store
             except:
+                # Whatever is there could not be written into.
+                if name in grp:
+                    del grp[name]
                 dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
 
         # Write the metadata using the inherited function (good enough).
-- 
2.43.0


From 4133cbd9d6dc80866e3f59a54f399a7ff1a6c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 32/53] fix: don't delete elements named a from the Group for
 references

The object named a was deleted if it wasn't a canonical empty, but it
could be an element of an existing cell array or other container, whose
reference was then left dangling. It is moved out of the way instead.
---
 src/hdf5storage/utilities.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e7c65db..8a5dff8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -486,7 +486,9 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    # It could be an element of something, so it is only
+                    # moved out of the way.
+                    self._refs_group.move("a", self._random_ref_group_name())
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
@@ -645,7 +647,9 @@ class LowLevelFile:
                     != "canonical empty"
                     or ce_attrs.get("MATLAB_empty") != 1
                 ):
-                    del self._refs_group["a"]
+                    # It could be an element of something, so it is only
+                    # moved out of the way.
+                    self._refs_group.move("a", self._random_ref_group_name())
                     self._canonical_empty = None
             if self._canonical_empty is None:
                 self._canonical_empty = self._refs_group.create_dataset(
@@ -656,6 +660,10 @@ class LowLevelFile:
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
 
+        return self._random_ref_group_name()
+
+    def _random_ref_group_name(self: "LowLevelFile") -> str:
+        """Get a random unused name in the Group for references."""
         # We need to make a random name and check for collisions.
         #
         # While using random.choice on string.ascii_letters + string.digits seems
@@ -670,7 +678,7 @@ class LowLevelFile:
         fmt = f"%0{self._refs_group_name_length}x"
         bits = self._refs_group_name_length * 4
         name = fmt % random.getrandbits(bits)
-        while name in self._refs_group:
+        while name in self._refs_group:  # type: ignore[operator]
             name = fmt % random.getrandbits(bits)
         return name
 
-- 
2.43.0


From 33ae02c753496a5dae9bd4203ab7bd91d5a53a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 33/53] fix: don't give elements the random name of what they
 are inside of

The name of an element is chosen before its own elements are written and
the element created, so one of them could be given the same name and
then one overwrote the other.
---
 src/hdf5storage/utilities.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8a5dff8..6a26800 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -39,7 +39,7 @@ import copy
 import posixpath
 import random
 import sys
-from typing import Any, Dict, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -200,6 +200,10 @@ class LowLevelFile:
         # Length in characters we will use for random names in the
         # references Group.
         self._refs_group_name_length: int = 16
+        # Random names that were handed out, but whose objects might not
+        # have been created yet because their elements are written
+        # first.
+        self._ref_names_in_use: Set[str] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -519,7 +523,11 @@ class LowLevelFile:
         data_refs_flat = data_refs.reshape(-1)
         for index, x in enumerate(data.flat):
             name_for_ref = self.next_unused_ref_group_name()
-            obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            self._ref_names_in_use.add(name_for_ref)
+            try:
+                obj = self.write_data(self._refs_group, name_for_ref, x, None)
+            finally:
+                self._ref_names_in_use.discard(name_for_ref)
             if obj is not None:
                 data_refs_flat[index] = obj.ref
                 obj_attrs = obj.attrs
@@ -678,7 +686,7 @@ class LowLevelFile:
         fmt = f"%0{self._refs_group_name_length}x"
         bits = self._refs_group_name_length * 4
         name = fmt % random.getrandbits(bits)
-        while name in self._refs_group:  # type: ignore[operator]
+        while name in self._ref_names_in_use or name in self._refs_group:  # type: ignore[operator]
             name = fmt % random.getrandbits(bits)
         return name
 
-- 
2.43.0


From a77a6f039ed7e18697561e1ebea0e5701071ee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 34/53] fix: write dicts and structs at non-ASCII paths when
 doing MATLAB compatibility

---
 src/hdf5storage/Marshallers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 21beeca..0235eb2 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -887,7 +887,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # attribute needs to be set appropriately, while all other
             # attributes need to be deleted.
             if f.options.matlab_compatible:
-                dsetgrpname = dsetgrp.name
+                dsetgrpname = dsetgrp.name.encode("utf-8")
             for i, field in enumerate(field_names):
                 esc_field = escaped_field_names[i]
                 new_data4 = np.zeros(shape=data_to_store.shape, dtype="object")
@@ -1926,7 +1926,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = np.bytes_(grp2.name.encode("utf-8"))
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
-- 
2.43.0


From ed945a06d5d7b8d48c3125bbaedbe22cdea1c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 35/53] fix: set H5PATH on what is written directly into a
 Group

---
 src/hdf5storage/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 1c2c12f..3ca18a1 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -51,6 +51,7 @@ import types
 from typing import Any, Dict, List, Optional, Tuple, Type, Union
 
 import h5py
+import numpy as np
 
 from . import Marshallers, pathesc, plugins, utilities
 
@@ -1909,12 +1910,16 @@ class File(collections.abc.MutableMapping):
             # Go through each element of towrite and write them with the
             # low level write function.
             for groupname, targetname, data in towrite:
-                self._file_wrapper.write_data(
-                    self._file.require_group(groupname),
-                    targetname,
-                    data,
-                    None,
-                )
+                grp = self._file.require_group(groupname)
+                obj = self._file_wrapper.write_data(grp, targetname, data, None)
+                # Objects inside a Group other than the root one have
+                # its path in their H5PATH Attribute.
+                if (
+                    obj is not None
+                    and self._options.matlab_compatible
+                    and grp.name != "/"
+                ):
+                    obj.attrs.modify("H5PATH", np.bytes_(grp.name.encode("utf-8")))
 
     def read(self: "File", path: pathesc.Path = "/") -> Any:
         """Reads one piece of data from the file.
-- 
2.43.0


From 1c5da8c8b411d8342c9a5b0260d8c8a043cd5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 36/53] fix: give Counters a MATLAB_class

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 0235eb2..cca3cd3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1811,6 +1811,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From c021b9056b4340b5e2de389645ebee94c62f4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 37/53] fix: set the right MATLAB_int_decode for empty char and
 logical arrays

---
 src/hdf5storage/Marshallers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index cca3cd3..ddb9e68 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1108,10 +1108,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # using np.dtype.type). If it is a string or bool type, then
         # the MATLAB_int_decode attribute must be set to the number of
         # bytes each element takes up (dtype.itemsize unless it is a
-        # np.bytes_ in which case it is one). If the dtype has fields
-        # and we are writing it as a structure, the class needs to be
-        # overriddent to 'struct'. Otherwise, the attributes must be
-        # deleted.
+        # np.bytes_ in which case it is one). If it is empty, the Dataset
+        # holds the shape, so it is what an element would have taken up
+        # at the least. If the dtype has fields and we are writing it as
+        # a structure, the class needs to be overriddent to
+        # 'struct'. Otherwise, the attributes must be deleted.
 
         tp = data.dtype.type
         if f.options.matlab_compatible:
@@ -1125,6 +1126,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 if tp in (np.bytes_, np.str_, np.bool_):
                     if dsetgrp.dtype.type == np.bytes_:
                         attributes["MATLAB_int_decode"] = ("value", 1)
+                    elif "MATLAB_empty" in attributes:
+                        attributes["MATLAB_int_decode"] = (
+                            "value",
+                            np.int64(1 if tp == np.bool_ else 2),
+                        )
                     else:
                         attributes["MATLAB_int_decode"] = (
                             "value",
-- 
2.43.0


From e5cebad7f6c27a90239526ede827b2c9bb10077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 38/53] fix: make 1D arrays into columns when oned_as is column

---
 src/hdf5storage/Marshallers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ddb9e68..8856ba7 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -784,8 +784,17 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+            # Strings that were converted to arrays of their code units
+            # stay in rows.
+            if (
+                len(data.shape) == 1
+                and f.options.oned_as == "column"
+                and (
+                    data.dtype.type not in (np.bytes_, np.str_)
+                    or data_to_store.dtype.type == data.dtype.type
+                )
+            ):
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 2b60a3f089cd0bc0246831ddf4b70c667d17f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 39/53] fix: write the type of an int as int instead of long

---
 src/hdf5storage/Marshallers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 8856ba7..4e82769 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1620,9 +1620,10 @@ class PythonScalarMarshaller(NumpyScalarArrayMarshaller):
         # the variable width long. Python 2 with the 0.1.x version of
         # this library would save with either, but Python 3 needs to map
         # both to int, which can be done by just putting the type int
-        # for its entry in types.
+        # for its entry in types. The last entry is the one used for
+        # writing.
         self.types = (bool, int, int, float, complex)
-        self.python_type_strings = ("bool", "int", "long", "float", "complex")
+        self.python_type_strings = ("bool", "long", "int", "float", "complex")
         # As the parent class already has MATLAB strings handled, there
         # are no MATLAB classes that this marshaller should be used for.
         self.matlab_classes = ()
-- 
2.43.0


From fde25068fd09f27dcbad8a35823e49a276107049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 40/53] fix: reverse the dimensions of struct arrays when
 reading them as dicts

---
 src/hdf5storage/Marshallers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 4e82769..2a3b82b 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1247,9 +1247,6 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 with contextlib.suppress(Exception):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
-            if matlab_class == "struct" and f.options.structs_as_dicts:
-                return struct_data
-
             # The elements of a multi element one are spread over
             # Reference arrays that all have the same shape.
             shapes = {
@@ -1260,6 +1257,14 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             if len(shapes) > 1 or None in shapes:
                 is_multi_element = False
 
+            # The dimensions of the Reference arrays are reversed.
+            if matlab_class == "struct" and f.options.structs_as_dicts:
+                if is_multi_element:
+                    for k in struct_data:
+                        if listed_fields is None or k in listed_fields:
+                            struct_data[k] = struct_data[k].T
+                return struct_data
+
             # If it isn't multi element, we need to pack all the values
             # in struct_array inside of numpy.object_'s so that the code
             # after this that depends on this will work.
-- 
2.43.0


From 72a3111664fe90d78e2bf86c6b86eb851f10eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 41/53] fix: write longlongs like the other 64-bit integers

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 2a3b82b..d87610c 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -601,6 +601,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             np.core.records.recarray,
             np.bool_,
             np.void,
+            np.longlong,
+            np.ulonglong,
             np.uint8,
             np.uint16,
             np.uint32,
@@ -627,6 +629,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             "numpy.recarray",
             "numpy.bool_",
             "numpy.void",
+            "numpy.int64",
+            "numpy.uint64",
             "numpy.uint8",
             "numpy.uint16",
             "numpy.uint32",
@@ -659,6 +663,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             np.int8: "int8",
             np.int16: "int16",
             np.int32: "int32",
+            np.longlong: "int64",
+            np.ulonglong: "uint64",
             np.int64: "int64",
             np.float32: "single",
             np.float64: "double",
-- 
2.43.0


From bf457ab65710a605edb4c529ad0a4938337316a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 42/53] fix: read dicts and sets whose keys or elements were
 discarded

---
 src/hdf5storage/Marshallers.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index d87610c..9154c38 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -62,6 +62,15 @@ else:
     from typing import Callable, Sequence
 
 
+def _is_hashable(x: Any) -> bool:
+    """Check if an object can be a key or be in a set."""
+    try:
+        hash(x)
+    except TypeError:
+        return False
+    return True
+
+
 class TypeMarshaller:
     """Base class for marshallers of Python types.
 
@@ -2094,7 +2103,9 @@ class PythonDictMarshaller(TypeMarshaller):
             and escape_path(keys_values_names[1]) in grp2
         ):
             d = tuple(f.read_data(grp2, escape_path(k)) for k in keys_values_names)
-            items = list(zip(d[0], d[1]))
+            # Keys that were MATLAB incompatible and thus discarded can't
+            # be keys anymore.
+            items = [(k, v) for k, v in zip(d[0], d[1]) if _is_hashable(k)]
         else:
             # Construct the fields to grab and their proper order
             # (important for OrderedDict) from python_fields,
@@ -2513,6 +2524,10 @@ class PythonTupleSetDequeMarshaller(PythonListMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            # Elements that were MATLAB incompatible and thus discarded
+            # can't be in sets anymore.
+            if tp in (set, frozenset):
+                data = [x for x in data if _is_hashable(x)]
             return tp(data)  # type: ignore[operator]
         # Must be some other type, so return it as is.
         return data
-- 
2.43.0


From 3ea731386e4f047f944e3700a16ba37123492b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 43/53] fix: read slices whose parts were discarded

---
 src/hdf5storage/Marshallers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9154c38..c334fba 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -2249,10 +2249,12 @@ class PythonSliceRangeMarshaller(PythonDictMarshaller):
         type_string = convert_attribute_to_string(attributes["Python.Type"])
         if type_string in self.typestring_to_type:
             tp = self.typestring_to_type[type_string]
+            # Parts that were MATLAB incompatible and thus discarded are
+            # absent.
             return tp(
-                data["start"],
-                data["stop"],
-                data["step"],
+                data.get("start"),
+                data.get("stop"),
+                data.get("step"),
             )  # type: ignore[operator]
         # Must be some other type, so return it as is.
         return data
-- 
2.43.0


From ab226d2516e253484560369428209fe622676859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 44/53] fix: delete what discarded dict values and struct
 fields were before

---
 src/hdf5storage/Marshallers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index c334fba..4d4f50e 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -952,6 +952,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                         esc_attrs,
                         np.prod(new_data4.shape) != 1,
                     )
+                elif esc_field in dsetgrp:
+                    # It was discarded, so what it was before must not
+                    # take its place.
+                    del dsetgrp[esc_field]
         else:
             wrote_as_struct = False
 
@@ -1973,6 +1977,10 @@ class PythonDictMarshaller(TypeMarshaller):
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+            elif k in grp2:
+                # It was discarded, so what it was before must not take
+                # its place.
+                del grp2[k]
         # Done
         return grp2
 
-- 
2.43.0


From 2d3b025a68b50682030c5501b39ddbfc8fa04fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 45/53] fix: read empty arrays of void

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 4d4f50e..eef8318 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1430,6 +1430,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data = np.zeros(tuple(shape), dtype=data.dtype)
                 elif struct_dtype is not None:
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
+                elif underlying_type.startswith("void"):
+                    # numpy doesn't understand the names of void dtypes.
+                    nbytes = int(underlying_type[len("void") :] or 0) // 8
+                    data = np.zeros(tuple(shape), dtype="V" + str(nbytes))
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
                 if matlab_class is not None or f.options.reverse_dimension_order:
-- 
2.43.0


From 1c0018fc1b18bafc3a79fc128eecfc4786f6f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 46/53] fix: don't use an incomplete canonical empty after a
 failed write

---
 src/hdf5storage/utilities.py | 48 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6a26800..cf0f6b3 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -476,15 +476,15 @@ class LowLevelFile:
         # isn't present or is incorrectly formatted, it is created
         # truncating anything previously there.
         if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
+            canonical_empty = self._refs_group.get("a", default=None)
+            if canonical_empty is not None:
+                ce_attrs = canonical_empty.attrs
                 if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
+                    not isinstance(canonical_empty, h5py.Dataset)
+                    or canonical_empty.shape != (2,)
+                    or not canonical_empty.dtype.name.startswith("uint")
                     or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
+                        canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
                     )
                     or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
                     != "canonical empty"
@@ -493,15 +493,17 @@ class LowLevelFile:
                     # It could be an element of something, so it is only
                     # moved out of the way.
                     self._refs_group.move("a", self._random_ref_group_name())
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
+                    canonical_empty = None
+            if canonical_empty is None:
+                canonical_empty = self._refs_group.create_dataset(
                     "a",
                     data=np.array([0, 0], dtype=np.uint64),
                 )
-                ce_attrs = self._canonical_empty.attrs
+                ce_attrs = canonical_empty.attrs
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
+            # Only keep it once it is known to be complete.
+            self._canonical_empty = canonical_empty
 
         # We need to grab the special reference dtype and make an empty
         # array to store all the references in.
@@ -641,15 +643,15 @@ class LowLevelFile:
         # isn't present or is incorrectly formatted, it is created
         # truncating anything previously there.
         if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
+            canonical_empty = self._refs_group.get("a", default=None)
+            if canonical_empty is not None:
+                ce_attrs = canonical_empty.attrs
                 if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
+                    not isinstance(canonical_empty, h5py.Dataset)
+                    or canonical_empty.shape != (2,)
+                    or not canonical_empty.dtype.name.startswith("uint")
                     or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
+                        canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
                     )
                     or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
                     != "canonical empty"
@@ -658,15 +660,17 @@ class LowLevelFile:
                     # It could be an element of something, so it is only
                     # moved out of the way.
                     self._refs_group.move("a", self._random_ref_group_name())
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
+                    canonical_empty = None
+            if canonical_empty is None:
+                canonical_empty = self._refs_group.create_dataset(
                     "a",
                     data=np.array([0, 0], dtype=np.uint64),
                 )
-                ce_attrs = self._canonical_empty.attrs
+                ce_attrs = canonical_empty.attrs
                 ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
                 ce_attrs.modify("MATLAB_empty", np.uint8(1))
+            # Only keep it once it is known to be complete.
+            self._canonical_empty = canonical_empty
 
         return self._random_ref_group_name()
 
-- 
2.43.0


From f23c2645437b24b6d1d69847f20366d2581ab3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 47/53] fix: don't read what contains itself over and over

---
 src/hdf5storage/utilities.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index cf0f6b3..bb24607 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -204,6 +204,9 @@ class LowLevelFile:
         # have been created yet because their elements are written
         # first.
         self._ref_names_in_use: Set[str] = set()
+        # What is being read at the moment, from the outside to the
+        # inside.
+        self._being_read: List[Any] = []
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -404,9 +407,18 @@ class LowLevelFile:
         # return an error.
 
         if m is not None:
-            if has_modules:
-                return m.read(self, dsetgrp, attributes)
-            return m.read_approximate(self, dsetgrp, attributes)
+            # What contains itself can't be read.
+            if dsetgrp in self._being_read:
+                raise hdf5storage.exceptions.CantReadError(
+                    f"Could not read {dsetgrp.name} inside of itself",
+                )
+            self._being_read.append(dsetgrp)
+            try:
+                if has_modules:
+                    return m.read(self, dsetgrp, attributes)
+                return m.read_approximate(self, dsetgrp, attributes)
+            finally:
+                self._being_read.pop()
         raise hdf5storage.exceptions.CantReadError("Could not read " + dsetgrp.name)
 
     def write_object_array(
-- 
2.43.0


From 2facbfc59c0c20f4eef9154682ba44b9110be725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 48/53] fix: accept bytes file names in savemat and loadmat

---
 src/hdf5storage/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ca18a1..ef671d6 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2591,6 +2591,8 @@ def savemat(
             file_name = file_name + ".mat"
         elif isinstance(file_name, bytes) and not file_name.endswith(b".mat"):
             file_name = file_name + b".mat"
+    if isinstance(file_name, bytes):
+        file_name = os.fsdecode(file_name)
 
     # Make the options with matlab compatibility forced.
     options = Options(
@@ -2722,6 +2724,8 @@ def loadmat(
                 filename = file_name
         else:
             filename = file_name
+        if isinstance(filename, bytes):
+            filename = os.fsdecode(filename)
 
         # Read everything if we were instructed.
         with File(filename, writable=False, options=options) as f:
-- 
2.43.0


From 82bbb35aade496f04f46cd870ecef192c56748bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 49/53] fix: use the options given to savemat

---
 src/hdf5storage/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index ef671d6..eddff1b 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2541,7 +2541,8 @@ def savemat(
         placed.
     **keywords :
         Additional keywords arguments to be passed onto
-        ``scipy.io.savemat`` if dispatching to SciPy (`format` < 7.3).
+        ``scipy.io.savemat`` if dispatching to SciPy (`format` < 7.3),
+        or else to ``Options``.
 
     Raises
     ------
@@ -2595,13 +2596,14 @@ def savemat(
         file_name = os.fsdecode(file_name)
 
     # Make the options with matlab compatibility forced.
-    options = Options(
+    keywords.update(
         store_python_metadata=store_python_metadata,
         matlab_compatible=True,
         oned_as=oned_as,
         action_for_matlab_incompatible=action_for_matlab_incompatible,
         marshaller_collection=marshaller_collection,
     )
+    options = Options(**keywords)
 
     # Write the variables in the dictionary to file.
     writes(
-- 
2.43.0


From 2e668374d37f681af8720c66c31125769c5d69e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 50/53] fix: report marshallers whose modules fail to import as
 unusable

---
 src/hdf5storage/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index eddff1b..8b246d2 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1221,7 +1221,7 @@ class MarshallerCollection:
                 for name in m.required_parent_modules:
                     if name not in sys.modules and pkgutil.find_loader(name) is None:
                         raise ImportError("module not present")
-            except ImportError:
+            except Exception:
                 self._has_required_modules[i] = False
             else:
                 self._has_required_modules[i] = True
@@ -1303,7 +1303,7 @@ class MarshallerCollection:
             for name in m.required_modules:
                 if name not in sys.modules:
                     importlib.import_module(name)
-        except ImportError:
+        except Exception:
             return False
         return True
 
-- 
2.43.0


From 6fb7e2bc3003787d0c8a3b4229b2e44843518b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:04 +0000
Subject: [PATCH 51/53] fix: don't add any marshallers when one of them is
 invalid

---
 src/hdf5storage/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 8b246d2..f31e335 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1342,12 +1342,14 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        marshallers = list(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From 21d9e9c3a41092edcc3d668867b4f37030e4ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:02 +0000
Subject: [PATCH 52/53] fix: dicts with more than 4000 keys can be written
 (Attributes are limited to 64 KiB)

---
 doc/source/storage_format.rst  | 4 +++-
 src/hdf5storage/Marshallers.py | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/doc/source/storage_format.rst b/doc/source/storage_format.rst
index e4e0f93..4b2abef 100644
--- a/doc/source/storage_format.rst
+++ b/doc/source/storage_format.rst
@@ -495,7 +495,9 @@ Datasets, one for keys and one for values. The former is used if all
 keys are string like. Keys are converted to ``str``. Otherwise, the
 latter format is used. A key is string like if it is a ``'str``, a
 ``'bytes'``, a ``np.unicode_``, or a ``np.bytes_`` and it an be
-converted successfully to ``str``.
+converted successfully to ``str``. The latter format is also used if
+there are more than 4000 keys and they would have to be listed in
+Attributes, whose size is limited by HDF5.
 
 When they can't be stored with each key-value pair as their own Dataset,
 the keys and values are stored as ``tuple`` in Datasets set by the the
diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index eef8318..ae85154 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1903,6 +1903,13 @@ class PythonDictMarshaller(TypeMarshaller):
         if "" in keys_as_str or len(set(keys_as_str)) != len(keys_as_str):
             any_non_valid_str_keys = True
 
+        # HDF5 limits the size of Attributes to 64 KiB and the ones that
+        # list the fields need 16 bytes for each.
+        if len(keys_as_str) > 4000 and (
+            f.options.store_python_metadata or f.options.matlab_compatible
+        ):
+            any_non_valid_str_keys = True
+
         # If the group doesn't exist, it needs to be created. If it
         # already exists but is not a group, it needs to be deleted
         # before being created.
-- 
2.43.0


From f68d5b7652697e426fecf3d2fea906370d4c53d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:40 +0000
Subject: [PATCH 53/53] fix: empty structured arrays with a field named
 backslash x00 lost their types

---
 src/hdf5storage/Marshallers.py |  6 ++++--
 src/hdf5storage/utilities.py   | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ae85154..3eedcf8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -52,6 +52,7 @@ from .utilities import (
     convert_to_str,
     decode_complex,
     does_dtype_have_a_zero_shape,
+    does_dtype_have_null_in_names,
     encode_complex,
     set_attributes_all,
 )
@@ -869,7 +870,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             and (
                 f.options.structured_numpy_ndarray_as_struct
                 or (
-                    data_to_store.dtype.hasobject or "\\x00" in str(data_to_store.dtype)
+                    data_to_store.dtype.hasobject
+                    or does_dtype_have_null_in_names(data_to_store.dtype)
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
             )
@@ -1085,7 +1087,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # compatibility and we are storing a structured ndarray as a
         # structure.
         has_obj = data.dtype.hasobject
-        has_null = "\\x00" in str(data.dtype)
+        has_null = does_dtype_have_null_in_names(data.dtype)
         if wrote_as_struct or (
             data.dtype.fields is not None
             and (
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index bb24607..9cf6875 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -101,6 +101,30 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
     return False
 
 
+def does_dtype_have_null_in_names(dt: np.dtype) -> bool:
+    """Determine whether a field name of a dtype has a null character.
+
+    The fields of the dtype, their fields, and so on recursively are
+    looked at.
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether any field name has a null character.
+
+    """
+    if dt.names is None:
+        return dt.subdtype is not None and does_dtype_have_null_in_names(dt.base)
+    return any(
+        "\x00" in name or does_dtype_have_null_in_names(dt[name]) for name in dt.names
+    )
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0

