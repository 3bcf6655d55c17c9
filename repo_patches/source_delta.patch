From c66036cd441bc666a5e983556d3e75ec51e5dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 01/47] fix: decode UTF-16/32 strings whose last character ends
 in a null byte

---
 src/hdf5storage/utilities.py | 47 +++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 387480c..6a26946 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -644,6 +644,13 @@ class LowLevelFile:
         return name
 
 
+def is_big_endian(dtype: np.dtype) -> bool:
+    """Get whether the elements of a dtype are stored in big endian order."""
+    return dtype.byteorder == ">" or (
+        dtype.byteorder in "=|" and sys.byteorder == "big"
+    )
+
+
 def convert_dtype_to_str(dtype: np.dtype) -> str:
     """Convert a dtype to str.
 
@@ -982,31 +989,27 @@ def convert_to_numpy_str(
                 new_shape = copy.deepcopy(shape)
                 new_shape[-1] //= length_to_use
 
-            # numpy.char.decode will be used to decode. It needs the
-            # encoding (UTF-8/16/32) which is gotten from the dtype. But
-            # it also needs the data to be in big endian format, so it
-            # must be byteswapped if it isn't. Without the swapping, an
-            # error occurs since trailing nulls are dropped in numpy
-            # bytes_ arrays. The dtype for each string element is just
-            # 'SX' where X is the number of bytes.
+            # UTF-8 can be decoded by numpy.char.decode on a 'SX' view
+            # where X is the number of bytes per string. That can't be
+            # done for UTF-16 and UTF-32 since trailing null bytes are
+            # dropped in numpy bytes_ arrays and they may be part of the
+            # last character, so those are decoded string by string. Any
+            # Python string can be stored as UTF-32, even those with
+            # surrogates in them.
             if data.dtype.name == "uint8":
-                encoding = "UTF-8"
-                swapbytes = False
+                # Copy is needed to prevent errors.
                 dt = "S" + str(length_to_use)
+                return np.char.decode(data.copy().view(dt), "UTF-8")
+            if data.dtype.name == "uint16":
+                encoding, errors = "UTF-16", "strict"
             else:
-                if data.dtype.name == "uint16":
-                    encoding = "UTF-16BE"
-                    dt = "S" + str(2 * length_to_use)
-                else:
-                    encoding = "UTF-32BE"
-                    dt = "S" + str(4 * length_to_use)
-                swapbytes = data.dtype.byteorder == "<" or (
-                    sys.byteorder == "little" and data.dtype.byteorder == "="
-                )
-            # Copy is needed to prevent errors.
-            if swapbytes:
-                return np.char.decode(data.copy().byteswap().view(dt), encoding)
-            return np.char.decode(data.copy().view(dt), encoding)
+                encoding, errors = "UTF-32", "surrogatepass"
+            encoding += "BE" if is_big_endian(data.dtype) else "LE"
+            strings = [
+                x.tobytes().decode(encoding, errors).rstrip("\x00")
+                for x in data.reshape((-1, length_to_use))
+            ]
+            return np.array(strings, dtype=np.unicode_).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         # Easily converted through constructor.
-- 
2.43.0


From 533134ba437e66e3658f07878560c0494edc7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/47] fix: keep the byte order when encoding complex data for
 storage

---
 src/hdf5storage/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 6a26946..dead20a 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1320,8 +1320,9 @@ def encode_complex(
 
     # Create the new version of the data with the right field names for
     # the real and complex parts. This is easy to do with putting the
-    # right dtype in the view function.
-    return data.view([(complex_names[0], dtype_name), (complex_names[1], dtype_name)])
+    # right dtype (in the same byte order) in the view function.
+    part_dtype = np.dtype(dtype_name).newbyteorder(data.dtype.byteorder)
+    return data.view([(complex_names[0], part_dtype), (complex_names[1], part_dtype)])
 
 
 def convert_attribute_to_string(value: Any) -> Optional[str]:
-- 
2.43.0


From 46c3f79e2a925467096d049bc46b164fa3160f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/47] fix: decode complex data with the complex_names it was
 encoded with

---
 src/hdf5storage/Marshallers.py |  4 ++--
 src/hdf5storage/utilities.py   | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index b1a562c..9a70476 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1371,7 +1371,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # If it is a complex type, then it needs to be decoded
             # properly.
             if underlying_type.startswith("complex"):
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If its underlying type is 'bool' but it is something else,
             # then it needs to be converted (means it was written with
@@ -1495,7 +1495,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # could possibly be a complex type which needs to be
             # properly decoded.
             if matlab_class in {"single", "double"}:
-                data = decode_complex(data)
+                data = decode_complex(data, f.options.complex_names)
 
             # If it is a logical, then it must be converted to
             # numpy.bool8.
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index dead20a..a58529f 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1258,25 +1258,30 @@ def decode_complex(
     real_fields = ["r", "re", "real"]
     imag_fields = ["i", "im", "imag", "imaginary"]
 
+    # Names given explicitly take precedence if they are the fields.
+
     cnames = list(complex_names)
-    for s in fields:
-        if s.lower() in real_fields:
-            cnames[0] = s
-        elif s.lower() in imag_fields:
-            cnames[1] = s
+    if set(cnames) != set(fields):
+        for s in fields:
+            if s.lower() in real_fields:
+                cnames[0] = s
+            elif s.lower() in imag_fields:
+                cnames[1] = s
 
     # If the real and imaginary fields were found, construct the complex
     # form from the fields. This is done by finding the complex type
     # that they cast to, making an array, and then setting the
     # parts. Otherwise, return what we were given because it isn't in
     # the right form.
-    if cnames[0] is not None and cnames[1] is not None:
+    if set(cnames) == set(fields) and all(
+        data.dtype[n].kind in "biuf" for n in cnames
+    ):
         real: Union[np.ndarray, np.generic] = data[cnames[0]]  # type: ignore[index]
         imag: Union[np.ndarray, np.generic] = data[cnames[1]]  # type: ignore[index]
         cdtype: np.dtype = np.result_type(real.dtype, imag.dtype, "complex64")
-        cdata = real.astype(cdtype)
+        cdata = np.array(real, dtype=cdtype, subok=True)
         cdata.imag = imag
-        return cdata
+        return cdata[()] if isinstance(data, np.generic) else cdata
     return data
 
 
-- 
2.43.0


From fa039d3dc90c49365bf919a39559e82dec9abf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 04/47] fix: convert arrays of Unicode strings of any byte
 order, class and padding

Strings shorter than the dtype no longer stop the conversion to UTF-16, big
endian strings and chararrays are converted properly to UTF-32, 0-d arrays
can be stored as UTF-16 and doublets are recognised in all cases. The dtype of the
strings is kept when they are read back.
---
 src/hdf5storage/Marshallers.py | 20 +++++---------------
 src/hdf5storage/utilities.py   | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9a70476..c757bf4 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -761,27 +761,17 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # convert them to UTF-16, then an attempt at the conversion is
         # made. If no conversion is to be done, the conversion throws an
         # exception (a UTF-32 character had no UTF-16 equivalent), or a
-        # UTF-32 character gets turned into a UTF-16 doublet (the
-        # increase in the number of columns will be by a factor more
-        # than the length of the strings); then it will be simply
-        # converted to uint32's byte for byte instead.
+        # UTF-32 character gets turned into a UTF-16 doublet (there are
+        # surrogates in the result); then it will be simply converted to
+        # uint32's byte for byte instead.
 
         if data.dtype.type == np.unicode_:
             new_data2 = None
             if f.options.convert_numpy_str_to_utf16:
                 with contextlib.suppress(Exception):
                     new_data2 = convert_numpy_str_to_uint16(data_to_store)
-            if (
-                new_data2 is None
-                or (
-                    type(data_to_store) == np.unicode_
-                    and len(data_to_store) != len(new_data2)
-                )
-                or (
-                    isinstance(data_to_store, np.ndarray)
-                    and new_data2.shape[-1]
-                    != data_to_store.shape[-1] * (data_to_store.dtype.itemsize // 4)
-                )
+            if new_data2 is None or np.any(
+                (new_data2 >= 0xD800) & (new_data2 <= 0xDFFF),
             ):
                 data_to_store = convert_numpy_str_to_uint32(data_to_store)
             else:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index a58529f..11c47f4 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -739,8 +739,10 @@ def convert_numpy_str_to_uint16(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # just have convert to uin16 with the appropriate dimensions. The
     # dimensions are gotten from the shape of the converted data with
     # the number of column increased by the number of words (pair of
-    # bytes) in the strings.
-    cdata = np.char.encode(np.atleast_1d(data), codec)
+    # bytes) in the strings, which has to be at least the length of the
+    # strings even if none of them are that long.
+    cdata = np.char.encode(np.atleast_1d(np.asarray(data)), codec)
+    cdata = cdata.astype(f"S{max(cdata.dtype.itemsize, data.dtype.itemsize // 2)}")
     shape = list(cdata.shape)
     shape[-1] *= cdata.dtype.itemsize // 2
     return np.ndarray(shape=shape, dtype="uint16", buffer=cdata)
@@ -780,10 +782,13 @@ def convert_numpy_str_to_uint32(data: Union[np.str_, np.ndarray]) -> np.ndarray:
     # each string, which is just 4 times the number of
     # characters. Then it is a mstter of getting a view of the
     # string (in flattened form so that it is contiguous) as uint32
-    # and then reshaping it.
+    # in the byte order of the string (not as a chararray since those
+    # can only be viewed as strings) and then reshaping it.
     shape = list(np.atleast_1d(data).shape)
     shape[-1] *= data.dtype.itemsize // 4
-    return data.ravel().view(np.uint32).reshape(tuple(shape))
+    dt = np.dtype("uint32").newbyteorder(data.dtype.byteorder)
+    chars = np.asarray(data).ravel().view(dt).astype(np.uint32)
+    return chars.reshape(tuple(shape))
 
 
 def convert_to_str(
@@ -1006,7 +1011,7 @@ def convert_to_numpy_str(
                 encoding, errors = "UTF-32", "surrogatepass"
             encoding += "BE" if is_big_endian(data.dtype) else "LE"
             strings = [
-                x.tobytes().decode(encoding, errors).rstrip("\x00")
+                x.tobytes().decode(encoding, errors)
                 for x in data.reshape((-1, length_to_use))
             ]
             return np.array(strings, dtype=np.unicode_).reshape(new_shape)
-- 
2.43.0


From 34faced8f737f5fc1e573f4ff1099b7442fd9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 05/47] fix: write arrays of bytes_ strings that aren't
 contiguous as UTF-16

---
 src/hdf5storage/Marshallers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index c757bf4..2476219 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -747,7 +747,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 data_to_store = np.zeros((0,), np.uint16)
             else:
                 new_data = (
-                    np.atleast_1d(data_to_store)
+                    np.ascontiguousarray(data_to_store)
                     .view(np.ndarray)
                     .view(np.uint8)
                     .astype(np.uint16)
-- 
2.43.0


From 78ac7f42d81eb1a89337560fa7a378da77927998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 06/47] fix: keep trailing nulls and a leading U+FEFF of scalar
 strings

---
 src/hdf5storage/Marshallers.py | 11 ++++++++---
 src/hdf5storage/utilities.py   |  9 ++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 2476219..85a6c38 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1415,18 +1415,23 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # Convert to scalar, matrix, chararray, or ndarray depending
             # on the container type. For an empty scalar string, it
             # needs to be manually set to '' and b'' or there will be
-            # problems.
+            # problems. Trailing nulls of scalar strings, which Numpy
+            # drops when indexing arrays, need to be put back.
             if container == "scalar":
                 if underlying_type.startswith("bytes"):
                     if python_empty == 1:
                         data = np.bytes_(b"")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        data = np.bytes_(
+                            bytes(data.flat[0]).ljust(data.dtype.itemsize, b"\x00"),
+                        )
                 elif underlying_type.startswith("str"):
                     if python_empty == 1:
                         data = np.unicode_("")
                     elif isinstance(data, np.ndarray):
-                        data = data.flat[0]
+                        data = np.unicode_(
+                            str(data.flat[0]).ljust(data.dtype.itemsize // 4, "\x00"),
+                        )
                 else:
                     data = data.flat[0]
             elif container == "ndarray" or (
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 11c47f4..8aecdb9 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -846,12 +846,15 @@ def convert_to_str(
         data,
         (np.ndarray, np.uint8, np.uint16, np.uint32, np.bytes_, np.unicode_),
     ):
+        # The endianness has to be given explicitly or a leading U+FEFF
+        # would be taken for a BOM.
+        endianness = "BE" if is_big_endian(data.dtype) else "LE"
         if data.dtype.name == "uint8":
             return data.tobytes().decode("UTF-8")
         if data.dtype.name == "uint16":
-            return data.tobytes().decode("UTF-16")
+            return data.tobytes().decode("UTF-16" + endianness)
         if data.dtype.name == "uint32":
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32" + endianness)
         if data.dtype.type == np.bytes_:
             if data.dtype.itemsize == 0:
                 return ""
@@ -859,7 +862,7 @@ def convert_to_str(
         if data.dtype.type == np.str_:
             if data.dtype.itemsize == 0:
                 return ""
-            return data.tobytes().decode("UTF-32")
+            return data.tobytes().decode("UTF-32" + endianness, "surrogatepass")
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
         return data
-- 
2.43.0


From 099010853ebc4462003cfad686c5948ebbbba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 07/47] fix: encode H5PATH as UTF-8 so non-ASCII names can be
 written for MATLAB

---
 src/hdf5storage/Marshallers.py | 2 +-
 src/hdf5storage/utilities.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 85a6c38..f9c6641 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1857,7 +1857,7 @@ class PythonDictMarshaller(TypeMarshaller):
         # doing MATLAB compatibility (otherwise, the attribute needs to
         # be deleted).
         if f.options.matlab_compatible:
-            grp2name = np.bytes_(grp2.name)
+            grp2name = convert_to_numpy_bytes(grp2.name)
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
             if obj is not None:
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 8aecdb9..efb2511 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1437,7 +1437,7 @@ def set_attributes_all(
             attrs.create(k, [convert_to_str(s) for s in value], dtype=str_arr_dtype)
         else:
             if kind == "string":
-                val = np.bytes_(value)
+                val = convert_to_numpy_bytes(value)
             else:
                 val = value
             if k not in existing:
-- 
2.43.0


From f7cbeefd1d0060a5114bfc907f1676a6b63cdd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 08/47] fix: replace existing attributes whose dtype or shape
 differ

---
 src/hdf5storage/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index efb2511..e658a92 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1452,6 +1452,8 @@ def set_attributes_all(
                         and val.shape == existing[k].shape
                     ):
                         attrs.modify(k, val)
+                    else:
+                        attrs.create(k, val)
                 except:
                     attrs.create(k, val)
     # Discard all other attributes.
-- 
2.43.0


From 2bf4d4dd947a170f5b5a5f31c3cf1a2afa66b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 09/47] fix: write recarrays with structured fields

---
 src/hdf5storage/Marshallers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index f9c6641..22ad163 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -732,9 +732,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         data_to_store = data
 
         # recarrays must be converted to structured ndarrays in order
-        # for h5py to be able to write them.
+        # for h5py to be able to write them (including the dtype so that
+        # elements that are structured themselves aren't numpy.record).
         if isinstance(data_to_store, np.core.records.recarray):
-            data_to_store = data_to_store.view(np.ndarray)
+            data_to_store = data_to_store.view(
+                np.dtype((np.void, data_to_store.dtype)),
+                np.ndarray,
+            )
 
         # Optionally convert bytes_ strings to UTF-16, if possible (all
         # are in the ASCII character set). This is done by simply
-- 
2.43.0


From a771b48ca2ab122b1092a166fbea0a323ffbd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 10/47] fix: read structured arrays with fields of only empty
 strings

---
 src/hdf5storage/Marshallers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 22ad163..071fc8d 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1280,7 +1280,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     all_same = False
 
                 # If they are all the same, then dt and shape should be
-                # used. Otherwise, it has to be object.
+                # used. Otherwise, it has to be object. Empty strings
+                # need room for at least one character since a field
+                # can't have a string type without a length.
+                if all_same and dt.kind in "SU" and dt.itemsize == 0:
+                    dt = np.dtype(dt.kind + "1")
                 if all_same:
                     dt_whole.append((k, dt, sp))
                 else:
-- 
2.43.0


From 22940118f5f0213d9eb9b7d3cf8185aebeb2459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 11/47] fix: write structured arrays with Unicode string fields
 as Groups

HDF5 has no equivalent type, so writing them as a COMPOUND Dataset failed.
---
 src/hdf5storage/Marshallers.py |  5 ++++-
 src/hdf5storage/utilities.py   | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 071fc8d..0de04bc 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -53,6 +53,7 @@ from .utilities import (
     convert_to_str,
     decode_complex,
     does_dtype_have_a_zero_shape,
+    does_dtype_have_unicode,
     encode_complex,
     set_attributes_all,
 )
@@ -837,7 +838,8 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # converting that field to a HDF5 Reference types, it will just
         # be written as a Group instead (dtypes have a useful hasobject
         # method). The same goes for if there is a null inside its
-        # dtype.
+        # dtype or if any of its fields are Unicode strings since HDF5
+        # has no equivalent for them.
         #
         # A flag, wrote_as_struct, is set depending on which path is
         # taken, which is then passed onto write_metadata.
@@ -851,6 +853,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     data_to_store.dtype.hasobject or "\\x00" in str(data_to_store.dtype)
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
+                or does_dtype_have_unicode(data_to_store.dtype)
             )
         ):
             wrote_as_struct = True
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e658a92..025436b 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -99,6 +99,30 @@ def does_dtype_have_a_zero_shape(dt: np.dtype) -> bool:
     return False
 
 
+def does_dtype_have_unicode(dt: np.dtype) -> bool:
+    """Determine whether a dtype is or has a field that is ``numpy.str_``.
+
+    HDF5 has no equivalent of ``numpy.str_``, so h5py can't write them
+    (no matter how nested the field is).
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether `dt` or one of its fields is ``numpy.str_``.
+
+    """
+    if dt.fields is not None:
+        return any(does_dtype_have_unicode(v[0]) for v in dt.fields.values())
+    return dt.base.kind == "U" or (
+        dt.subdtype is not None and does_dtype_have_unicode(dt.base)
+    )
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0


From 32928981928515fbde611fc30f80e48d8029faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 12/47] fix: read empty void and structured arrays with the
 right dtype

---
 src/hdf5storage/Marshallers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 0de04bc..682687a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1362,7 +1362,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     else:
                         nchars = int(int(underlying_type[len("str") :]) / 32)
                     data = np.zeros(tuple(shape), dtype="U" + str(nchars))
+                elif underlying_type.startswith("void") and struct_dtype is None:
+                    nbytes = int(underlying_type[len("void") :]) // 8
+                    data = np.zeros(tuple(shape), dtype=f"V{nbytes}")
                 elif struct_dtype is not None:
+                    # The dtype is known if it was stored as is.
+                    if data.dtype.names == tuple(fields):
+                        struct_dtype = data.dtype
                     data = np.zeros(tuple(shape), dtype=struct_dtype)
                 else:
                     data = np.zeros(tuple(shape), dtype=underlying_type)
-- 
2.43.0


From 1a1ad7c203493d63058f05d19d765e497d59b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 13/47] fix: store dicts by keys and values if a key isn't a
 unique valid name

Empty keys and keys that can't be encoded raised an error, and str and
bytes keys with the same text overwrote each other.
---
 src/hdf5storage/Marshallers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 682687a..db87b11 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1811,6 +1811,7 @@ class PythonDictMarshaller(TypeMarshaller):
 
         any_non_valid_str_keys: bool = False
         keys_as_str: List[str] = []
+        names_used: Set[str] = set()
         key_str_types: List[bytes] = []
         for field in data:
             if type(field) not in tps:
@@ -1818,6 +1819,14 @@ class PythonDictMarshaller(TypeMarshaller):
                 break
             try:
                 field_str = escape_path(convert_to_str(field))
+                # It has to be a valid name that isn't used already
+                # (str and bytes keys can be converted to the same
+                # name).
+                if field_str == "" or field_str in names_used:
+                    any_non_valid_str_keys = True
+                    break
+                field_str.encode("UTF-8")
+                names_used.add(field_str)
                 keys_as_str.append(field_str)
                 key_str_types.append(tps[type(field)])
             except:
-- 
2.43.0


From 5e780b764fcb1ca0121929ddff172d516cf26b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 14/47] fix: keep the class and type of uniform elements of
 object fields

---
 src/hdf5storage/Marshallers.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index db87b11..dad231a 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -64,6 +64,18 @@ else:
     from typing import Callable, Sequence
 
 
+def is_field_element(x: Any) -> bool:
+    """Get whether an object could be an element of a structured array's field.
+
+    Elements of a field that isn't an object field are always Numpy scalars
+    or, if the field has a shape, plain arrays. Also, strings in them
+    don't have trailing nulls.
+    """
+    if isinstance(x, (np.bytes_, np.str_)):
+        return x[-1:] not in (b"\x00", "\x00")
+    return isinstance(x, np.generic) or type(x) is np.ndarray
+
+
 class TypeMarshaller:
     """Base class for marshallers of Python types.
 
@@ -1263,10 +1275,21 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 # Read the value.
                 v = struct_data[k]
 
-                # If any of the elements are not Numpy types or if they
-                # don't all have the exact same dtype and shape, then
-                # this field will just be an object field.
-                if v.size == 0 or type(v.flat[0]) not in self._numpy_types:
+                # If any of the elements are not Numpy scalars or plain
+                # arrays (the field would not give back others) or if
+                # they don't all have the exact same dtype and shape,
+                # then this field will just be an object field. With
+                # Python metadata, elements that are 0-d arrays can't
+                # have come from any other field.
+                if (
+                    v.size == 0
+                    or not all(is_field_element(x) for x in v.flat)
+                    or (
+                        python_fields is not None
+                        and isinstance(v.flat[0], np.ndarray)
+                        and v.flat[0].ndim == 0
+                    )
+                ):
                     dt_whole.append((k, "object"))
                     continue
 
-- 
2.43.0


From ddb5cc5c31324bec82a1d6ae793664ad420062eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 15/47] fix: make read-only Files refuse writes and deletes
 with OSError

---
 src/hdf5storage/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 908535c..3ac4398 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1663,7 +1663,7 @@ class File(collections.abc.MutableMapping):
                 )
             options = copy.copy(options)
         # Store the required arguments.
-        self._writable: bool = True
+        self._writable: bool = writable
         self._options: Options = options
         # Open the file. If writable is False, we can just open it. If
         # it is True, the process is longer.
-- 
2.43.0


From 8412a3806637419f0fa7ce896d0cf2e5fd3d0e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 16/47] fix: leave out just the references Group when iterating
 over a File

---
 src/hdf5storage/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 3ac4398..de1976e 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -42,7 +42,6 @@ import copy
 import datetime
 import importlib
 import inspect
-import itertools
 import os
 import pkgutil
 import posixpath
@@ -2129,8 +2128,8 @@ class File(collections.abc.MutableMapping):
             it = self._file.__iter__()
             if posixpath.split(refgrp)[0] == "/":
                 refgrp = refgrp[1:]
-                return itertools.dropwhile(lambda k: k == refgrp, it)
-            return it
+                return iter([k for k in it if k != refgrp])
+            return iter(list(it))
 
     def __getitem__(self: "File", path: pathesc.Path) -> Any:
         """Reads the object at the specified `path` from the file.
-- 
2.43.0


From a8a095150087c2c871b026ede71ff43d089b230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 17/47] fix: make the oned_as option have an effect

---
 src/hdf5storage/Marshallers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index dad231a..9e929d3 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -796,12 +796,17 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
 
         # Convert scalars to arrays if that option is set. For 1d
         # arrays, an option determines whether they become row or column
-        # vectors.
+        # vectors. The characters of strings that have been converted to
+        # uints always become row vectors.
 
         if f.options.make_atleast_2d:
             new_data3 = np.atleast_2d(data_to_store)
-            if len(data_to_store.shape) == 1 and f.options.oned_as == "column":
-                new_data = new_data3.T
+            if (
+                len(data_to_store.shape) == 1
+                and f.options.oned_as == "column"
+                and (data.dtype.kind not in "SU" or data_to_store.dtype.kind == "S")
+            ):
+                new_data3 = new_data3.T
             data_to_store = new_data3
 
         # Reverse the dimension order if that option is set.
-- 
2.43.0


From 42f4bb54501f863c1d279ec4a6ee6738c3981f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 18/47] fix: overwrite lzf compressed Datasets of the same
 dtype and shape

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 9e929d3..519ecf7 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -969,6 +969,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 and data_to_store.nbytes >= f.options.compress_size_threshold
             ):
                 filters["compression"] = f.options.compression_algorithm
+                filters["compression_opts"] = None
                 if filters["compression"] == "gzip":
                     filters["compression_opts"] = f.options.gzip_compression_level
                 filters["shuffle"] = f.options.shuffle_filter
-- 
2.43.0


From 97fc00ca3cd2f94b9f99e37d97661abd7ae1f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 19/47] fix: only reject paths that overlap the references
 Group

---
 src/hdf5storage/__init__.py | 62 +++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index de1976e..0077826 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1804,6 +1804,40 @@ class File(collections.abc.MutableMapping):
             if self._writable:
                 self._file.flush()
 
+    def _overlaps_references_group(
+        self: "File",
+        groupname: str,
+        targetname: str,
+        inside: bool = False,
+    ) -> bool:
+        """Check if a path is in, or contains, the Group for references.
+
+        The root Group isn't considered to contain it.
+
+        Parameters
+        ----------
+        groupname : str
+            The path to the Group containing the target.
+        targetname : str
+            The name of the target in the Group.
+        inside : bool, optional
+            Whether to only check if it is in (or is) the Group for
+            references.
+
+        Returns
+        -------
+        overlaps : bool
+            Whether the path overlaps the Group specified by the
+            ``group_for_references`` option or not.
+
+        """
+        # Make both absolute without double slashes by taking the common
+        # path of each with itself.
+        refs = posixpath.commonpath((self._options.group_for_references,))
+        path = posixpath.commonpath((posixpath.join("/", groupname, targetname),))
+        common = posixpath.commonpath((refs, path))
+        return common == refs or (not inside and path != "/" and common == path)
+
     def write(self: "File", data: Any, path: pathesc.Path = "/") -> None:
         """Writes one piece of data into the file.
 
@@ -1891,19 +1925,7 @@ class File(collections.abc.MutableMapping):
         towrite = []
         for p, v in mdict.items():
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._overlaps_references_group(groupname, targetname):
                 raise ValueError(
                     "Cannot write to paths inside the the "
                     "Group specified by the "
@@ -1997,19 +2019,7 @@ class File(collections.abc.MutableMapping):
         toread = []
         for p in paths:
             groupname, targetname = pathesc.process_path(p)
-            if posixpath.isabs(groupname):
-                prefix = ""
-            else:
-                prefix = "/"
-            if (
-                posixpath.commonpath(
-                    (
-                        self._options.group_for_references,
-                        posixpath.join(prefix, groupname, targetname),
-                    ),
-                )
-                != "/"
-            ):
+            if self._overlaps_references_group(groupname, targetname, inside=True):
                 raise ValueError(
                     "Cannot read from paths inside the the "
                     "Group specified by the "
-- 
2.43.0


From f55cec3b4f60c91ce04dc04ba60e9fcb44d6cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 20/47] fix: keep the references Group when writing a dict to
 its parent Group

---
 src/hdf5storage/Marshallers.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 519ecf7..1bab752 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -32,6 +32,7 @@ import contextlib
 import datetime
 import importlib
 import inspect
+import posixpath
 import sys
 import warnings
 from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
@@ -895,11 +896,16 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 attributes["MATLAB_class"] = ("value", "struct")
 
             # Delete any Datasets/Groups not corresponding to a field
-            # name in data if that option is set.
+            # name in data if that option is set. The Group for
+            # references must be kept since other data needs it.
 
             if f.options.delete_unused_variables:
                 for field in set(dsetgrp).difference(set(escaped_field_names)):
-                    del dsetgrp[field]
+                    if (
+                        posixpath.join(dsetgrp.name, field)
+                        != f.options.group_for_references
+                    ):
+                        del dsetgrp[field]
 
             # Go field by field making an object array (make an empty
             # object array and assign element wise) and write it inside
@@ -1901,11 +1907,16 @@ class PythonDictMarshaller(TypeMarshaller):
             values = tuple(data.values())
 
         # Delete any Datasets/Groups not in names if that option is set
-        # or if we are not storing the keys and values individually
+        # or if we are not storing the keys and values individually. The
+        # Group for references must be kept since other data needs it.
 
         if any_non_valid_str_keys or f.options.delete_unused_variables:
             for field in set(grp2).difference(set(names)):
-                del grp2[field]
+                if (
+                    posixpath.join(grp2.name, field)
+                    != f.options.group_for_references
+                ):
+                    del grp2[field]
 
         # Go through all the names and values and write them. The H5PATH
         # needs to be set as the path of grp2 on all of them if we are
-- 
2.43.0


From e6c86436e1df7deb7ceb010f3ecb4e9e76256139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:45 +0000
Subject: [PATCH 21/47] fix: normalize the path of the references Group

---
 src/hdf5storage/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 0077826..5237c85 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -726,8 +726,11 @@ class Options:
         # not doing MATLAB compatible formatting.
         if isinstance(value, str):
             pth = posixpath.normpath(value)
+            # normpath keeps exactly two leading slashes.
+            if pth.startswith("//"):
+                pth = pth[1:]
             if len(pth) > 1 and posixpath.isabs(pth):
-                self._group_for_references = value
+                self._group_for_references = pth
         if self._group_for_references != "/#refs#":
             self._matlab_compatible = False
 
-- 
2.43.0


From 062ae6052bd4f702204b7584e581fc6a99498073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 22/47] fix: make the references Group anew after it is deleted

---
 src/hdf5storage/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 5237c85..0a1a88c 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2247,6 +2247,13 @@ class File(collections.abc.MutableMapping):
             if self._file is None:
                 raise OSError("File is closed.")
             del self._file[posixpath.join(groupname, targetname)]
+            # If the Group for references was deleted, the low level
+            # wrapper must not use it anymore.
+            if self._overlaps_references_group(groupname, targetname):
+                self._file_wrapper = utilities.LowLevelFile(
+                    self._file,
+                    self._options,
+                )
 
 
 def writes(mdict: Mapping[pathesc.Path, Any], **keywords: Any) -> None:
-- 
2.43.0


From fe9947c3bd6449425b8e776ed9a81fc911965873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 23/47] fix: write to paths given as lists

---
 src/hdf5storage/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 0a1a88c..2da4e91 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1875,6 +1875,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Mutable sequences can't be the keys of a dict.
+        if isinstance(path, collections.abc.MutableSequence):
+            path = tuple(path)
         self.writes({path: data})
 
     def writes(self: "File", mdict: Mapping[pathesc.Path, Any]) -> None:
@@ -2211,6 +2214,9 @@ class File(collections.abc.MutableMapping):
         writes
 
         """
+        # Mutable sequences can't be the keys of a dict.
+        if isinstance(path, collections.abc.MutableSequence):
+            path = tuple(path)
         self.writes({path: data})
 
     def __delitem__(self: "File", path: pathesc.Path) -> None:
-- 
2.43.0


From 5326ffd059a9b9af613bbb2802bfd334df7228e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 24/47] fix: process empty pathlib and separated paths

---
 src/hdf5storage/pathesc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 40a8ed8..92423bb 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -289,9 +289,9 @@ def process_path(pth: Path) -> Tuple[str, str]:
     elif isinstance(pth, pathlib.PurePath):
         parts = pth.parts
         if pth.root not in ("", "/"):
-            p = posixpath.join(*parts[1:])
+            p = posixpath.join("", *parts[1:])
         else:
-            p = posixpath.join(*parts)
+            p = posixpath.join("", *parts)
     elif isinstance(pth, collections.abc.Sequence):
         # Escape (and possibly convert to str) each element and then
         # join them all together.
@@ -308,7 +308,7 @@ def process_path(pth: Path) -> Tuple[str, str]:
                     "Elements of p must be str, bytes, or pathlib.PurePath.",
                 )
             parts_seq.append(escape_path(val))
-        p = posixpath.join(*parts_seq)
+        p = posixpath.join("", *parts_seq)
     else:
         raise TypeError(
             "p must be str, bytes, pathlib.PurePath, or an Sequence solely of one of "
-- 
2.43.0


From 17a004fba4d016fc58432968c6ddeeb4947499c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 25/47] fix: unescape escaped backslashes right next to others

---
 src/hdf5storage/pathesc.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 92423bb..52bd8ef 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -64,7 +64,7 @@ _find_invalid_escape_re: Pattern[str] = re.compile(
 )
 _find_fslashnull_re: Pattern[str] = re.compile("[\\\\/\x00]")
 _find_escapes_re: Pattern[str] = re.compile(
-    "\\\\+(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
+    "\\\\(\\\\|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})",
 )
 _char_escape_conversions: Dict[str, str] = {"\x00": "\\x00", "/": "\\x2f", "\\": "\\\\"}
 
@@ -118,8 +118,8 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     r"""Decode single hex/unicode escapes found in regex matches.
 
     Supports single hex/unicode escapes of the form ``'\xYY'``,
-    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit. Only
-    decodes if there is an odd number of backslashes.
+    ``'\uYYYY'``, and ``'\UYYYYYYYY'`` where Y is a hex digit and
+    converts double backslashes to single ones.
 
     .. versionadded:: 0.2
 
@@ -133,13 +133,10 @@ def _replace_fun_unescape(m: Match[str]) -> str:
         The unescaped character.
 
     """
-    slsh = b"\\".decode("ascii")
-    s = m.group(0)
-    count = s.count(slsh)
-    if count % 2 == 0:
+    s = m.group(1)
+    if s == "\\":
         return s
-    c = chr(int(s[(count + 1) :], base=16))
-    return slsh * (count - 1) + c
+    return chr(int(s[1:], base=16))
 
 
 def escape_path(pth: Union[str, bytes]) -> str:
@@ -229,10 +226,9 @@ def unescape_path(pth: Union[str, bytes]) -> str:
     # Look for invalid escapes.
     if _find_invalid_escape_re.search(pth) is not None:
         raise ValueError("Invalid escape found.")
-    # Do all hex/unicode escapes.
-    s = _find_escapes_re.sub(_replace_fun_unescape, pth)
-    # Do all double backslash escapes.
-    return s.replace(b"\\\\".decode("ascii"), b"\\".decode("ascii"))
+    # Do all hex/unicode and double backslash escapes in one go so that
+    # unescaped backslashes aren't part of another escape.
+    return _find_escapes_re.sub(_replace_fun_unescape, pth)
 
 
 def process_path(pth: Path) -> Tuple[str, str]:
-- 
2.43.0


From df42667e51f47eeee66b8f09608634d2331d9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 26/47] fix: escape the configured names for dict keys and
 values on write

---
 src/hdf5storage/Marshallers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 1bab752..e75c824 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1900,7 +1900,10 @@ class PythonDictMarshaller(TypeMarshaller):
             Tuple[Tuple[str, Any], ...],
         ]
         if any_non_valid_str_keys:
-            names = (f.options.dict_like_keys_name, f.options.dict_like_values_name)
+            names = (
+                escape_path(f.options.dict_like_keys_name),
+                escape_path(f.options.dict_like_values_name),
+            )
             values = (tuple(data), tuple(data.values()))
         else:
             names = tuple(keys_as_str)
-- 
2.43.0


From 31e7d6456c27fbea03131c1e85cd7e60365e4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 27/47] fix: read Groups with nothing in them without Python
 metadata

---
 src/hdf5storage/Marshallers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index e75c824..973cba8 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1338,12 +1338,18 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # no bytes. A workaround is to make an empty array of some
             # other type and convert its dtype. The smallest one we can
             # make is an np.int8([]). Yes, one byte will be wasted, but
-            # at least no errors will happen.
+            # at least no errors will happen. If there are no fields, it
+            # is a single element unless the shape is known.
             dtwhole = np.dtype(dt_whole)
+            data_shape = (1,)
+            if struct_data:
+                data_shape = v.shape
+            elif shape is not None:
+                data_shape = tuple(shape)
             if dtwhole.itemsize == 0:
-                data = np.zeros(shape=v.shape, dtype="int8").astype(dtwhole)
+                data = np.zeros(shape=data_shape, dtype="int8").astype(dtwhole)
             else:
-                data = np.zeros(shape=v.shape, dtype=dtwhole)
+                data = np.zeros(shape=data_shape, dtype=dtwhole)
 
             for k, v in struct_data.items():
                 # There is no sense iterating through the elements if
-- 
2.43.0


From 66fd104767c82d7ae6872e0a302b4f45feb699ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 28/47] fix: set the MATLAB_class of Counters

---
 src/hdf5storage/Marshallers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 973cba8..ea78dba 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1823,6 +1823,7 @@ class PythonDictMarshaller(TypeMarshaller):
         self.__MATLAB_classes: Dict[Type[Any], str] = {
             dict: "struct",
             collections.OrderedDict: "struct",
+            collections.Counter: "struct",
         }
         # Set matlab_classes to empty since NumpyScalarArrayMarshaller
         # handles Groups by default now.
-- 
2.43.0


From d81b1e1f3529c57805e442c5d7fe2a730517aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 29/47] fix: keep the dimension order of struct arrays read as
 dicts

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index ea78dba..927ef56 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1250,6 +1250,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
             if matlab_class == "struct" and f.options.structs_as_dicts:
+                # The fields of a struct array have the elements in
+                # Fortran order.
+                if is_multi_element:
+                    return {k: v.T for k, v in struct_data.items()}
                 return struct_data
 
             # If it isn't multi element, we need to pack all the values
-- 
2.43.0


From 99796b13996d43bf0026921823d5ca40f9456231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 30/47] fix: read Groups of cells of different shapes without
 metadata

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 927ef56..25615db 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1249,6 +1249,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 with contextlib.suppress(Exception):
                     struct_data[unescaped_k] = f.read_data(dset, k)
 
+            # The fields of a struct array all have its shape.
+            if is_multi_element and len({v.shape for v in struct_data.values()}) > 1:
+                is_multi_element = False
+
             if matlab_class == "struct" and f.options.structs_as_dicts:
                 # The fields of a struct array have the elements in
                 # Fortran order.
-- 
2.43.0


From 112c6bdba71983636f65ae256ab2b85e393add20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 31/47] fix: overwrite structs that have fields of the same
 number

Comparing the existing MATLAB_fields to the new ones raised an exception.
---
 src/hdf5storage/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 025436b..51d2a75 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -1464,11 +1464,8 @@ def set_attributes_all(
                 val = convert_to_numpy_bytes(value)
             else:
                 val = value
-            if k not in existing:
+            if k not in existing or k == "MATLAB_fields":
                 attrs.create(k, val)
-            elif k == "MATLAB_fields":
-                if not np.array_equal(val, existing[k]):
-                    attrs.create(k, val)
             else:
                 try:
                     if (
-- 
2.43.0


From 6cb22463b69eefb127665b76b37a3d104188c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 32/47] fix: raise ValueError for escapes of values beyond
 Unicode

---
 src/hdf5storage/pathesc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/pathesc.py b/src/hdf5storage/pathesc.py
index 52bd8ef..fd45b38 100644
--- a/src/hdf5storage/pathesc.py
+++ b/src/hdf5storage/pathesc.py
@@ -132,11 +132,19 @@ def _replace_fun_unescape(m: Match[str]) -> str:
     c : str
         The unescaped character.
 
+    Raises
+    ------
+    ValueError
+        If the numerical value isn't that of a unicode character.
+
     """
     s = m.group(1)
     if s == "\\":
         return s
-    return chr(int(s[1:], base=16))
+    value = int(s[1:], base=16)
+    if value > sys.maxunicode:
+        raise ValueError("Invalid escape found.")
+    return chr(value)
 
 
 def escape_path(pth: Union[str, bytes]) -> str:
-- 
2.43.0


From 154fe0f7b853f9d6832dab82fa3118763b0df679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 33/47] fix: keep objects of other software named as the
 canonical empty

---
 src/hdf5storage/utilities.py | 100 ++++++++++++++---------------------
 1 file changed, 40 insertions(+), 60 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 51d2a75..e9a8902 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -459,36 +459,8 @@ class LowLevelFile:
             if self._refs_group_name is None:
                 self._refs_group_name = self._refs_group.name
 
-        # The Dataset 'a' needs to be present as the canonical empty. It
-        # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
-        # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
-        # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
-        if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
-                if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
-                    or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
-                    )
-                    or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
-                    != "canonical empty"
-                    or ce_attrs.get("MATLAB_empty") != 1
-                ):
-                    del self._refs_group["a"]
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
-                    "a",
-                    data=np.array([0, 0], dtype=np.uint64),
-                )
-                ce_attrs = self._canonical_empty.attrs
-                ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
-                ce_attrs.modify("MATLAB_empty", np.uint8(1))
+        # The canonical empty needs to be present.
+        self._make_canonical_empty()
 
         # We need to grab the special reference dtype and make an empty
         # array to store all the references in.
@@ -567,6 +539,42 @@ class LowLevelFile:
             data_derefed_flat[index] = self.read_data(None, None, dsetgrp=self._f[x])
         return data_derefed
 
+    def _make_canonical_empty(self: "LowLevelFile") -> None:
+        """Gets or makes the canonical empty in the references Group.
+
+        The references Group must already be present. The canonical
+        empty is just a np.uint32/64([0, 0]) with a MATLAB_class of
+        'canonical empty' and the 'MATLAB_empty' attribute set. It is
+        the Dataset 'a' unless that name is taken by something else
+        (could be an element that other software put there), which is
+        kept.
+
+        """
+        if self._canonical_empty is not None:
+            return
+        name = "a"
+        while name in self._refs_group:
+            dset = self._refs_group[name]
+            if (
+                isinstance(dset, h5py.Dataset)
+                and dset.shape == (2,)
+                and dset.dtype.name.startswith("uint")
+                and not np.any(dset[...] != np.array([0, 0], dtype=np.uint64))
+                and convert_attribute_to_string(dset.attrs.get("MATLAB_class"))
+                == "canonical empty"
+                and dset.attrs.get("MATLAB_empty") == 1
+            ):
+                self._canonical_empty = dset
+                return
+            name += "a"
+        self._canonical_empty = self._refs_group.create_dataset(
+            name,
+            data=np.array([0, 0], dtype=np.uint64),
+        )
+        ce_attrs = self._canonical_empty.attrs
+        ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
+        ce_attrs.modify("MATLAB_empty", np.uint8(1))
+
     def next_unused_ref_group_name(self: "LowLevelFile") -> str:
         """Gives the next unused name that the references Group.
 
@@ -618,36 +626,8 @@ class LowLevelFile:
             if self._refs_group_name is None:
                 self._refs_group_name = self._refs_group.name
 
-        # The Dataset 'a' needs to be present as the canonical empty. It
-        # is just a np.uint32/64([0, 0]) with its a MATLAB_class of
-        # 'canonical empty' and the 'MATLAB_empty' attribute set. If it
-        # isn't present or is incorrectly formatted, it is created
-        # truncating anything previously there.
-        if self._canonical_empty is None:
-            self._canonical_empty = self._refs_group.get("a", default=None)
-            if self._canonical_empty is not None:
-                ce_attrs = self._canonical_empty.attrs
-                if (
-                    not isinstance(self._canonical_empty, h5py.Dataset)
-                    or self._canonical_empty.shape != (2,)
-                    or not self._canonical_empty.dtype.name.startswith("uint")
-                    or np.any(
-                        self._canonical_empty[...] != np.array([0, 0], dtype=np.uint64),
-                    )
-                    or convert_attribute_to_string(ce_attrs.get("MATLAB_class"))
-                    != "canonical empty"
-                    or ce_attrs.get("MATLAB_empty") != 1
-                ):
-                    del self._refs_group["a"]
-                    self._canonical_empty = None
-            if self._canonical_empty is None:
-                self._canonical_empty = self._refs_group.create_dataset(
-                    "a",
-                    data=np.array([0, 0], dtype=np.uint64),
-                )
-                ce_attrs = self._canonical_empty.attrs
-                ce_attrs.modify("MATLAB_class", np.bytes_("canonical empty"))
-                ce_attrs.modify("MATLAB_empty", np.uint8(1))
+        # The canonical empty needs to be present.
+        self._make_canonical_empty()
 
         # We need to make a random name and check for collisions.
         #
-- 
2.43.0


From f9095e3e85f798783cf90256027223f33fd9e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 34/47] fix: leave no trace of discarded fields of dicts and
 structs

---
 src/hdf5storage/Marshallers.py | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 25615db..de1b160 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -35,7 +35,7 @@ import inspect
 import posixpath
 import sys
 import warnings
-from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
+from typing import AbstractSet, Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -860,7 +860,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         # has no equivalent for them.
         #
         # A flag, wrote_as_struct, is set depending on which path is
-        # taken, which is then passed onto write_metadata.
+        # taken, which is then passed onto write_metadata. So are the
+        # names of the fields that get discarded because they are not
+        # MATLAB compatible.
+        discarded: Set[str] = set()
         if (
             data_to_store.dtype.fields is not None
             and h5py.check_dtype(ref=data_to_store.dtype) is not h5py.Reference
@@ -943,7 +946,13 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 else:
                     field_obj = f.write_data(dsetgrp, esc_field, new_data4, None)
 
-                if field_obj is not None:
+                if field_obj is None:
+                    # It was discarded, so what was there before has to
+                    # go too.
+                    discarded.add(esc_field)
+                    if esc_field in dsetgrp:
+                        del dsetgrp[esc_field]
+                else:
                     esc_attrs = {}
                     if f.options.matlab_compatible:
                         esc_attrs["H5PATH"] = ("string", dsetgrpname)
@@ -1028,6 +1037,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             type_string,
             attributes=attributes,
             wrote_as_struct=wrote_as_struct,
+            discarded_fields=discarded,
         )
         return dsetgrp
 
@@ -1039,10 +1049,12 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
         type_string: Optional[str],
         attributes: Optional[Dict[str, Tuple[str, Any]]] = None,
         wrote_as_struct: bool = False,
+        discarded_fields: AbstractSet[str] = frozenset(),
     ) -> None:
         # wote_as_struct is used to pass whether data was written like a
         # matlab struct or not. If yes, then the field names must be put
-        # in the metadata.
+        # in the metadata. discarded_fields are the (escaped) names of
+        # the fields that were not written, which must not be in it.
 
         if attributes is None:
             attributes = {}
@@ -1094,7 +1106,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             )
         ):
             # Grab the list of fields and escape them.
-            field_names = [escape_path(c) for c in data.dtype.names]
+            field_names = [
+                n
+                for n in (escape_path(c) for c in data.dtype.names)
+                if n not in discarded_fields
+            ]
 
             # Write or delete 'Python.Fields' as appropriate.
             if f.options.store_python_metadata:
@@ -1942,15 +1958,36 @@ class PythonDictMarshaller(TypeMarshaller):
         # be deleted).
         if f.options.matlab_compatible:
             grp2name = convert_to_numpy_bytes(grp2.name)
+        discarded: Set[str] = set()
         for i, k in enumerate(names):
             obj = f.write_data(grp2, k, values[i], None)
-            if obj is not None:
+            if obj is None:
+                # It was discarded, so what was there before has to go
+                # too.
+                discarded.add(k)
+                if k in grp2:
+                    del grp2[k]
+            else:
                 obj_attrs = obj.attrs
                 if f.options.matlab_compatible:
                     obj_attrs.modify("H5PATH", grp2name)
                 else:
                     with contextlib.suppress(KeyError):
                         del obj_attrs["H5PATH"]
+
+        # Fields that were discarded must not be listed in the metadata.
+        if discarded:
+            self.write_metadata(
+                f,
+                grp2,
+                data,
+                type_string,
+                any_non_valid_str_keys=any_non_valid_str_keys,
+                keys_as_str=[k for k in keys_as_str if k not in discarded],
+                key_str_types=b"".join(
+                    [t for k, t in zip(keys_as_str, key_str_types) if k not in discarded]
+                ),
+            )
         # Done
         return grp2
 
-- 
2.43.0


From cc788d15f9beecb556768cae79f6bc70d0ef2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 35/47] fix: only overwrite Datasets in place that are stored
 alike

---
 src/hdf5storage/Marshallers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index de1b160..44f1470 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1008,9 +1008,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             # The data must first be written. If name is not present
             # yet, then it must be created. If it is present, but not a
             # Dataset, has the wrong dtype, is the wrong shape, doesn't
-            # use the same compression, or doesn't use the same filters;
-            # then it must be deleted and then written. Otherwise, it is
-            # just overwritten in place.
+            # use the same compression, doesn't use the same filters, or
+            # isn't stored like one made here (HDF5 types with the same
+            # dtype can differ, and virtual and external Datasets keep
+            # their data somewhere else); then it must be deleted and
+            # then written. Otherwise, it is just overwritten in place.
             try:
                 dsetgrp = grp[name]
                 if (
@@ -1021,6 +1023,11 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or dsetgrp.shuffle != filters["shuffle"]
                     or dsetgrp.fletcher32 != filters["fletcher32"]
                     or dsetgrp.compression_opts != filters["compression_opts"]
+                    or dsetgrp.scaleoffset is not None
+                    or dsetgrp.is_virtual
+                    or dsetgrp.external
+                    or dsetgrp.id.get_type()
+                    != h5py.h5t.py_create(data_to_store.dtype, logical=True)
                 ):
                     del grp[name]
                     dsetgrp = grp.create_dataset(name, data=data_to_store, **filters)
-- 
2.43.0


From 6afce42fcf1948d8d20decf85bf50bd453dda7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 36/47] fix: read structs whose listed fields are missing or
 can't be read

---
 src/hdf5storage/Marshallers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 44f1470..81b3db5 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1313,6 +1313,10 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
             else:
                 fields = sorted(struct_data)
 
+            # Fields that couldn't be read, or that are listed but not
+            # present, are left out.
+            fields = [k for k in fields if k in struct_data]
+
             dt_whole: List[Union[Tuple[str, str], Tuple[str, str, Sequence[int]]]] = []
             for k in fields:
                 # Read the value.
-- 
2.43.0


From 38c234309981fa7513e087aee288545208c5acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:13 +0000
Subject: [PATCH 37/47] fix: add no marshallers if one of them is invalid

---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 2da4e91..27bdf84 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1341,12 +1341,15 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
+        # All of them must be checked before any is added.
+        marshallers = tuple(marshallers)
         for m in marshallers:
             if not isinstance(m, Marshallers.TypeMarshaller):
                 raise TypeError(
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
         self._update_marshallers()
-- 
2.43.0


From 29bc8c9ff7632c0d696b07fd56c1cf76181b1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 38/47] fix: marshallers whose required modules fail on import
 with any exception

---
 src/hdf5storage/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index 27bdf84..a2b83b3 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1302,7 +1302,8 @@ class MarshallerCollection:
             for name in m.required_modules:
                 if name not in sys.modules:
                     importlib.import_module(name)
-        except ImportError:
+        except Exception:
+            # Modules that are present can fail in any way.
             return False
         return True
 
-- 
2.43.0


From eecda3834bc50d5c6bb24be9323b33ad0444bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 39/47] fix: decode arrays of bytes in convert_to_numpy_str

---
 src/hdf5storage/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index e9a8902..874b6c8 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -953,7 +953,12 @@ def convert_to_numpy_str(
         if data.dtype.type == np.bytes_:
             if isinstance(data, np.bytes_):
                 return np.unicode_(data.decode("UTF-8"))
-            return np.char.encode(data, "UTF-32")  # type: ignore[arg-type]
+            # We just need to convert it elementwise (no string has more
+            # characters than bytes).
+            new_data = np.zeros(shape=data.shape, dtype="U" + str(data.dtype.itemsize))
+            for index, x in np.ndenumerate(data):
+                new_data[index] = np.unicode_(x.decode("UTF-8"))
+            return new_data
         if isinstance(data, (np.uint8, np.uint16)):
             # They are single UTF-8 or UTF-16 scalars, which can be
             # wrapped into an array and recursed.
-- 
2.43.0


From e03d98584b0d473a56185bb0ea1a485a5dccea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 40/47] fix: group unsigned integers into strings of any length
 exactly

---
 src/hdf5storage/utilities.py | 180 ++++++++++++++++-------------------
 1 file changed, 83 insertions(+), 97 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 874b6c8..c09f876 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -35,7 +35,6 @@ arrays, etc.
 import collections
 import collections.abc
 import contextlib
-import copy
 import posixpath
 import random
 import sys
@@ -875,6 +874,51 @@ def convert_to_str(
     raise TypeError("Not a type that can be converted to str.")
 
 
+def split_into_chunks(
+    data: np.ndarray,
+    length: Optional[int],
+) -> Tuple[List[int], np.ndarray]:
+    """Splits an array into the chunks that make up each string.
+
+    Parameters
+    ----------
+    data : numpy.ndarray
+        The array to split along its columns. Must have at least one
+        dimension.
+    length : int or None
+        The length of each chunk. ``None`` indicates the number of
+        columns.
+
+    Returns
+    -------
+    shape : list of int
+        The shape of the array of strings.
+    chunks : numpy.ndarray
+        2d array whose rows are the chunks.
+
+    Raises
+    ------
+    ValueError
+        If the columns of `data` can't be divided into chunks of length
+        `length`.
+
+    """
+    shape = list(data.shape)
+    columns = shape[-1]
+    if length is None or length == columns:
+        # One string for each row, even if it is empty.
+        length = columns
+        shape[-1] = 1
+    elif length < 1 or columns % length != 0:
+        raise ValueError("data can't be divided into strings of the length.")
+    else:
+        shape[-1] = columns // length
+    number = 1
+    for n in shape:
+        number *= n
+    return shape, np.asarray(data).reshape((number, length))
+
+
 def convert_to_numpy_str(
     data: Union[
         str,
@@ -933,6 +977,9 @@ def convert_to_numpy_str(
     ------
     TypeError
         If `data` is not the right type.
+    ValueError
+        If the columns of `data` can't be divided into strings of length
+        `length`.
 
     See Also
     --------
@@ -981,51 +1028,27 @@ def convert_to_numpy_str(
             if len(shape) == 0:
                 return convert_to_numpy_str(data[()])
 
-            # As there are more than one element, it gets a bit more
-            # complicated. We need to take the subarrays of the
-            # specified length along columns (1D arrays will be treated
-            # as row arrays here), each of those converted to an str_
-            # scalar (normal string) and stuffed into a new array.
+            # We need to take the subarrays of the specified length along
+            # columns (1D arrays will be treated as row arrays here),
+            # each of those converted to an str_ scalar (normal string)
+            # and stuffed into a new array.
             #
-            # If the length was not given, it needs to be set to
-            # full. Then the shape of the new array needs to be
-            # calculated (divide the appropriate dimension, which
-            # depends on the number of dimentions).
-            new_shape: List[int]
-            if len(shape) == 1:
-                if length is None:
-                    length_to_use = shape[0]
-                else:
-                    length_to_use = length
-                new_shape = [shape[0] // length_to_use]
-            else:
-                if length is None:
-                    length_to_use = shape[-1]
-                else:
-                    length_to_use = length
-                new_shape = copy.deepcopy(shape)
-                new_shape[-1] //= length_to_use
-
-            # UTF-8 can be decoded by numpy.char.decode on a 'SX' view
-            # where X is the number of bytes per string. That can't be
-            # done for UTF-16 and UTF-32 since trailing null bytes are
-            # dropped in numpy bytes_ arrays and they may be part of the
-            # last character, so those are decoded string by string. Any
-            # Python string can be stored as UTF-32, even those with
-            # surrogates in them.
+            # They are decoded string by string since numpy bytes_ arrays
+            # drop trailing null bytes and they may be part of the last
+            # character of UTF-16 and UTF-32 strings. Any Python string
+            # can be stored as UTF-32, even those with surrogates in
+            # them.
+            new_shape, chunks = split_into_chunks(data, length)
+            errors = "strict"
             if data.dtype.name == "uint8":
-                # Copy is needed to prevent errors.
-                dt = "S" + str(length_to_use)
-                return np.char.decode(data.copy().view(dt), "UTF-8")
-            if data.dtype.name == "uint16":
-                encoding, errors = "UTF-16", "strict"
+                encoding = "UTF-8"
             else:
-                encoding, errors = "UTF-32", "surrogatepass"
-            encoding += "BE" if is_big_endian(data.dtype) else "LE"
-            strings = [
-                x.tobytes().decode(encoding, errors)
-                for x in data.reshape((-1, length_to_use))
-            ]
+                if data.dtype.name == "uint16":
+                    encoding = "UTF-16"
+                else:
+                    encoding, errors = "UTF-32", "surrogatepass"
+                encoding += "BE" if is_big_endian(data.dtype) else "LE"
+            strings = [x.tobytes().decode(encoding, errors) for x in chunks]
             return np.array(strings, dtype=np.unicode_).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, str):
@@ -1094,6 +1117,9 @@ def convert_to_numpy_bytes(
     ------
     TypeError
         If `data` is not the right type.
+    ValueError
+        If the columns of `data` can't be divided into strings of length
+        `length`.
 
     See Also
     --------
@@ -1142,60 +1168,20 @@ def convert_to_numpy_bytes(
             if len(shape) == 0:
                 return convert_to_numpy_bytes(data[()])
 
-            # As there are more than one element, it gets a bit more
-            # complicated. We need to take the subarrays of the specified
-            # length along columns (1D arrays will be treated as row
-            # arrays here), each of those converted to an str_ scalar
-            # (normal string) and stuffed into a new array.
-            #
-            # If the length was not given, it needs to be set to
-            # full. Then the shape of the new array needs to be
-            # calculated (divide the appropriate dimension, which depends
-            # on the number of dimentions).
-            if len(shape) == 1:
-                if length is None:
-                    length2 = shape[0]
-                    new_shape = [shape[0]]
-                else:
-                    length2 = length
-                    new_shape = [shape[0] // length2]
-            else:
-                if length is None:
-                    length2 = shape[-1]
-                else:
-                    length2 = length
-                new_shape = copy.deepcopy(shape)
-                new_shape[-1] //= length2
-
-            # If it is uint8, we can just use the object directly as the
-            # buffer for the new data.
-            if data.dtype.name == "uint8":
-                return np.ndarray(
-                    shape=new_shape,
-                    dtype="S" + str(length2),
-                    buffer=data,
-                )
-
-            # The new array can be made as all zeros (nulls) with enough
-            # padding to hold everything (dtype='UL' where 'L' is the
-            # length). It will start out as a 1d array and be reshaped into
-            # the proper shape later (makes indexing easier).
-            new_data = np.zeros(
-                shape=(int(np.prod(new_shape)),),
-                dtype="S" + str(length2),
-            )
-
-            # With data flattened into a 1d array, we just need to take
-            # length sized chunks, convert them (if they are uint8 or 16,
-            # then decode to str first, if they are uint32, put them as an
-            # input buffer for an ndarray of type 'U').
-            data = data.ravel()
-            for i in range(0, new_data.shape[0]):
-                chunk = data[(i * length2) : ((i + 1) * length2)]
-                new_data[i] = np.bytes_(convert_to_str(chunk).encode("UTF-8"))
-
-            # Only thing is left is to reshape it.
-            return new_data.reshape(tuple(new_shape))
+            # We need to take the subarrays of the specified length along
+            # columns (1D arrays will be treated as row arrays here),
+            # each of those converted to a UTF-8 encoded string and
+            # stuffed into a new array, which has to have enough padding
+            # to hold everything (characters may take up more than one
+            # byte).
+            new_shape, chunks = split_into_chunks(data, length)
+            if data.dtype.name == "uint8" and chunks.size != 0:
+                # A copy is needed so that it is contiguous.
+                dt = "S" + str(chunks.shape[1])
+                return chunks.copy().view(dt).reshape(new_shape)
+            strings = [convert_to_str(x).encode("UTF-8") for x in chunks]
+            width = max([chunks.shape[1]] + [len(x) for x in strings])
+            return np.array(strings, dtype="S" + str(width)).reshape(new_shape)
         raise TypeError("Not a type that can be converted to str.")
     if isinstance(data, (bytes, bytearray)):
         # Easily converted through constructor.
-- 
2.43.0


From 03c60c4dca90928e4081fd5fd43f7fc2c295c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 41/47] fix: convert record dtypes to text that can be
 converted back

---
 src/hdf5storage/utilities.py | 37 ++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index c09f876..f91cbde 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -654,6 +654,40 @@ def is_big_endian(dtype: np.dtype) -> bool:
     )
 
 
+def convert_dtype_to_literal(dtype: np.dtype) -> Any:
+    """Get what makes an equal dtype using only literals.
+
+    The types of structured dtypes that aren't ``numpy.void`` are left
+    out if they are subclasses of it (e.g. ``numpy.record``), which
+    doesn't affect equality, and are otherwise given by their ``str``.
+
+    Parameters
+    ----------
+    dtype : numpy.dtype
+        The dtype to convert.
+
+    Returns
+    -------
+    out : str or dict or tuple
+        What to pass to the constructor of ``numpy.dtype``.
+
+    """
+    if dtype.subdtype is not None:
+        return (convert_dtype_to_literal(dtype.base), dtype.shape)
+    if dtype.names is None:
+        return dtype.str
+    fields = [dtype.fields[n] for n in dtype.names]
+    out = {
+        "names": list(dtype.names),
+        "formats": [convert_dtype_to_literal(v[0]) for v in fields],
+        "offsets": [v[1] for v in fields],
+        "titles": [v[2] if len(v) > 2 else None for v in fields],
+        "itemsize": dtype.itemsize,
+        "aligned": dtype.isalignedstruct,
+    }
+    return out if issubclass(dtype.type, np.void) else (dtype.str, out)
+
+
 def convert_dtype_to_str(dtype: np.dtype) -> str:
     """Convert a dtype to str.
 
@@ -690,6 +724,9 @@ def convert_dtype_to_str(dtype: np.dtype) -> str:
     if not isinstance(dtype, np.dtype):
         raise TypeError("dtype must be a numpy.dtype.")
     out = str(dtype)
+    if "(numpy." in out:
+        # Has types in it (e.g. numpy.record), which aren't literals.
+        out = repr(convert_dtype_to_literal(dtype))
     if out[0] not in "([{":
         return "'" + out + "'"
     return out
-- 
2.43.0


From 1ad51511125548a7d7e4c7f0a932e1ad153eb637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:41 +0000
Subject: [PATCH 42/47] fix: convert dtypes with nested aligned dtypes to text
 exactly

---
 src/hdf5storage/utilities.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index f91cbde..c6ec4de 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -32,6 +32,7 @@ arrays, etc.
 
 """
 
+import ast
 import collections
 import collections.abc
 import contextlib
@@ -658,8 +659,9 @@ def convert_dtype_to_literal(dtype: np.dtype) -> Any:
     """Get what makes an equal dtype using only literals.
 
     The types of structured dtypes that aren't ``numpy.void`` are left
-    out if they are subclasses of it (e.g. ``numpy.record``), which
-    doesn't affect equality, and are otherwise given by their ``str``.
+    out if they are subclasses of it (e.g. ``numpy.record``), as is
+    whether they are aligned (all offsets are given), which doesn't
+    affect equality, and are otherwise given by their ``str``.
 
     Parameters
     ----------
@@ -683,7 +685,6 @@ def convert_dtype_to_literal(dtype: np.dtype) -> Any:
         "offsets": [v[1] for v in fields],
         "titles": [v[2] if len(v) > 2 else None for v in fields],
         "itemsize": dtype.itemsize,
-        "aligned": dtype.isalignedstruct,
     }
     return out if issubclass(dtype.type, np.void) else (dtype.str, out)
 
@@ -724,12 +725,16 @@ def convert_dtype_to_str(dtype: np.dtype) -> str:
     if not isinstance(dtype, np.dtype):
         raise TypeError("dtype must be a numpy.dtype.")
     out = str(dtype)
-    if "(numpy." in out:
-        # Has types in it (e.g. numpy.record), which aren't literals.
-        out = repr(convert_dtype_to_literal(dtype))
     if out[0] not in "([{":
-        return "'" + out + "'"
-    return out
+        out = "'" + out + "'"
+    # That may have types in it that aren't literals (e.g. numpy.record)
+    # or lack the padding of fields and subarrays.
+    try:
+        if np.dtype(ast.literal_eval(out)) == dtype:
+            return out
+    except (ValueError, SyntaxError, TypeError):
+        pass
+    return repr(convert_dtype_to_literal(dtype))
 
 
 def convert_numpy_str_to_uint16(data: Union[np.str_, np.ndarray]) -> np.ndarray:
-- 
2.43.0


From e12a6a6f91d870825a09843bb09efd9c9808cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:10 +0000
Subject: [PATCH 43/47] fix: refuse to read objects that contain themselves and
 invalid UTF-32 scalars

---
 src/hdf5storage/utilities.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index c6ec4de..7e2924c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -39,7 +39,7 @@ import contextlib
 import posixpath
 import random
 import sys
-from typing import Any, Dict, List, Optional, Tuple, Type, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, Type, Union
 
 import h5py
 import numpy as np
@@ -222,6 +222,9 @@ class LowLevelFile:
         # Length in characters we will use for random names in the
         # references Group.
         self._refs_group_name_length: int = 16
+        # The Groups and Datasets that are being read right now (each one
+        # is inside of the previous one).
+        self._being_read: Set[Union[h5py.Dataset, h5py.Group]] = set()
 
     @property
     def f(self: "LowLevelFile") -> h5py.File:
@@ -390,12 +393,17 @@ class LowLevelFile:
             m, has_modules = mc.get_marshaller_for_type(np.uint8)
 
         # If a marshaller was found, use it to read the data. Otherwise,
-        # return an error.
-
-        if m is not None:
-            if has_modules:
-                return m.read(self, dsetgrp, attributes)
-            return m.read_approximate(self, dsetgrp, attributes)
+        # return an error. Links and References can make something
+        # contain itself, which can't be read.
+
+        if m is not None and dsetgrp not in self._being_read:
+            self._being_read.add(dsetgrp)
+            try:
+                if has_modules:
+                    return m.read(self, dsetgrp, attributes)
+                return m.read_approximate(self, dsetgrp, attributes)
+            finally:
+                self._being_read.discard(dsetgrp)
         raise hdf5storage.exceptions.CantReadError("Could not read " + dsetgrp.name)
 
     def write_object_array(
@@ -1048,15 +1056,10 @@ def convert_to_numpy_str(
             for index, x in np.ndenumerate(data):
                 new_data[index] = np.unicode_(x.decode("UTF-8"))
             return new_data
-        if isinstance(data, (np.uint8, np.uint16)):
-            # They are single UTF-8 or UTF-16 scalars, which can be
-            # wrapped into an array and recursed.
+        if isinstance(data, (np.uint8, np.uint16, np.uint32)):
+            # They are single UTF-8, UTF-16, or UTF-32 scalars, which can
+            # be wrapped into an array and recursed.
             return convert_to_numpy_str(np.atleast_1d(data))[0]
-        if isinstance(data, np.uint32):
-            # It is just the uint32 version of the character, so it just
-            # needs to be have the dtype essentially changed by having
-            # its bytes read into ndarray.
-            return np.ndarray(shape=(), dtype="U1", buffer=data.data)[()]
         if isinstance(data, np.ndarray) and data.dtype.name in {
             "uint8",
             "uint16",
-- 
2.43.0


From 8b43cf986ada166527fd66d259bdc186760bb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:33 +0000
Subject: [PATCH 44/47] fix: do not dispatch HDF5 files that can't be read to
 SciPy

---
 src/hdf5storage/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index a2b83b3..b5f94f6 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -2742,6 +2742,9 @@ def loadmat(
             mdict[k] = v
         return mdict
     except OSError:
+        # Something inside of an HDF5 file couldn't be read.
+        if h5py.is_hdf5(filename):
+            raise
         return importlib.import_module("scipy.io").loadmat(
             file_name,
             mdict,
-- 
2.43.0


From 2b478995e8756d5d0b961f931d6fd4b5d4799060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 45/47] fix: write structured arrays that look like complex
 numbers as Groups

---
 src/hdf5storage/Marshallers.py |  2 ++
 src/hdf5storage/utilities.py   | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 81b3db5..3a6894f 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -55,6 +55,7 @@ from .utilities import (
     decode_complex,
     does_dtype_have_a_zero_shape,
     does_dtype_have_unicode,
+    does_dtype_look_complex,
     encode_complex,
     set_attributes_all,
 )
@@ -875,6 +876,7 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                 )
                 or does_dtype_have_a_zero_shape(data_to_store.dtype)
                 or does_dtype_have_unicode(data_to_store.dtype)
+                or does_dtype_look_complex(data_to_store.dtype)
             )
         ):
             wrote_as_struct = True
diff --git a/src/hdf5storage/utilities.py b/src/hdf5storage/utilities.py
index 7e2924c..3691a9c 100644
--- a/src/hdf5storage/utilities.py
+++ b/src/hdf5storage/utilities.py
@@ -123,6 +123,38 @@ def does_dtype_have_unicode(dt: np.dtype) -> bool:
     )
 
 
+def does_dtype_look_complex(dt: np.dtype) -> bool:
+    """Determine whether h5py reads (part of) a dtype as complex numbers.
+
+    h5py stores complex numbers as a COMPOUND type with particular names
+    for the real and imaginary parts. Structures that have the same names
+    and types are stored identically, and thus are read as complex
+    numbers.
+
+    Parameters
+    ----------
+    dt : numpy.dtype
+        The dtype to check.
+
+    Returns
+    -------
+    yesno : bool
+        Whether `dt`, its base, or one of its fields (no matter how
+        nested) is a structure that is read as complex numbers.
+
+    """
+    if dt.subdtype is not None:
+        return does_dtype_look_complex(dt.base)
+    if dt.names is None:
+        return False
+    formats = [dt.fields[n][0] for n in dt.names]
+    return (
+        tuple(dt.names) == tuple(h5py.get_config().complex_names)
+        and formats[0] == formats[1]
+        and formats[0].kind == "f"
+    ) or any(does_dtype_look_complex(x) for x in formats)
+
+
 def read_all_attributes_into(
     attrs: h5py.AttributeManager,
     out: MutableMapping[str, Any],
-- 
2.43.0


From 17397cb13a20f424f61d6975bfa3d7d1386873c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:21 +0000
Subject: [PATCH 46/47] fix: keep object fields holding 0-d arrays after
 scalars object fields

---
 src/hdf5storage/Marshallers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/Marshallers.py b/src/hdf5storage/Marshallers.py
index 3a6894f..106ed4d 100644
--- a/src/hdf5storage/Marshallers.py
+++ b/src/hdf5storage/Marshallers.py
@@ -1335,8 +1335,9 @@ class NumpyScalarArrayMarshaller(TypeMarshaller):
                     or not all(is_field_element(x) for x in v.flat)
                     or (
                         python_fields is not None
-                        and isinstance(v.flat[0], np.ndarray)
-                        and v.flat[0].ndim == 0
+                        and any(
+                            isinstance(x, np.ndarray) and x.ndim == 0 for x in v.flat
+                        )
                     )
                 ):
                     dt_whole.append((k, "object"))
-- 
2.43.0


From 997f21c08c89c666dd257406499ce4d88889b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 47/47] fix: restore the user marshallers when adding or
 removing some fails

A marshaller that can't be used (its types can't be looked up, etc.) or an
iterable that raises left the collection changed although an exception was
raised.
---
 src/hdf5storage/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hdf5storage/__init__.py b/src/hdf5storage/__init__.py
index b5f94f6..e32ae83 100644
--- a/src/hdf5storage/__init__.py
+++ b/src/hdf5storage/__init__.py
@@ -1350,10 +1350,17 @@ class MarshallerCollection:
                     "Each marshaller must inherit from "
                     "hdf5storage.Marshallers.TypeMarshaller.",
                 )
+        previous = list(self._user_marshallers)
         for m in marshallers:
             if m not in self._user_marshallers:
                 self._user_marshallers.append(m)
-        self._update_marshallers()
+        try:
+            self._update_marshallers()
+        except BaseException:
+            # One of them can't be used (bad types, etc.).
+            self._user_marshallers = previous
+            self._update_marshallers()
+            raise
 
     def remove_marshaller(
         self: "MarshallerCollection",
@@ -1375,7 +1382,8 @@ class MarshallerCollection:
         """
         if not isinstance(marshallers, collections.abc.Iterable):
             marshallers = [marshallers]
-        for m in marshallers:
+        # Getting all of them must work before any is removed.
+        for m in tuple(marshallers):
             if m in self._user_marshallers:
                 self._user_marshallers.remove(m)
         self._update_marshallers()
-- 
2.43.0

