From fbaa84fd3e5d0a48af38eb65fa1bbddba8cbfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:12 +0000
Subject: [PATCH 01/48] fix: never overwrite another vector's file when storing
 an activation

A name collision raised ValueError (arange.remove), two processes sharing the
directory could both see a name as free and write to the same file, lasy vectors
did not check at all, and a failed write left the vector pointing at a partial
file. Create the file exclusively, and only switch to it once it is complete.
---
 ruleskit/activation.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index ec7e5fc..b984960 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -305,31 +305,30 @@ class Activation(ABC):
         self.length = len(value)
         self._nones = np.count_nonzero(value == 1)
         t0 = time()
-        arange = list((0, int(1e64)))
-        number = random.randint(*arange)
-        data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
         attempts = 0
-        if not self.lasy:
-            # If is lasy, then the vector was loaded from a file that should be re-used for writing
-            while data.is_file():
+        while True:
+            data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{random.randint(0, int(1e64))}.txt"
+            try:
+                f = open(data, "xb")  # exclusive creation : never takes a file that belongs to another vector
+                break
+            except FileExistsError:
+                attempts += 1
                 if attempts > 99:
                     logger.warning(
                         "Failed to save activation vector locally after 100 attempts at finding an available"
                         " name. Will keep it in RAM."
                     )
                     return False
-                number += 1
-                attempts += 1
-                arange.remove(number)
-                number = random.randint(*arange)
-                data = Activation.DEFAULT_TEMPDIR / f"ACTIVATION_VECTOR_{number}.txt"
-        data.touch()
+        try:
+            with f:
+                # noinspection PyTypeChecker
+                np.save(f, value, allow_pickle=False)
+            stat = data.stat()
+        except Exception:
+            data.unlink()
+            raise
         self.data = data
         self.data_format = "file"
-        with open(self.data, "wb") as f:
-            # noinspection PyTypeChecker
-            np.save(f, value, allow_pickle=False)
-        stat = self.data.stat()
         if isinstance(stat, dict):
             # noinspection PyTypeChecker
             self._sizeof_file = stat["st_size"] / 1e6
-- 
2.43.0


From 01850fed21a2938f19f9ef24ae09473dd6bec7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:16 +0000
Subject: [PATCH 02/48] fix: Activation + Activation is the logical OR

'self or other' returned one of the operands unchanged.
---
 ruleskit/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index b984960..cbb893a 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -721,7 +721,7 @@ class Activation(ABC):
 
     def __add__(self, other: "Activation") -> "Activation":
         """Synonym of logical OR"""
-        return self or other
+        return self | other
 
     def __sub__(self, other: "Activation") -> "Activation":
         """Logical EXCLUSIVE OR then logical AND"""
-- 
2.43.0


From 321f673cb1195f37919f19700a2b89bff06f4ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:21 +0000
Subject: [PATCH 03/48] fix: logical operations between activations stored as
 integers

The result's length was not given, so every operation between two integer-format
vectors raised ValueError.
---
 ruleskit/activation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index cbb893a..60853e3 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -573,7 +573,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data & a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data & a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw * a2.raw,
@@ -633,7 +638,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data | a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data | a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw | a2.raw,
@@ -694,7 +704,12 @@ class Activation(ABC):
         if (self.data_format == "bitarray" and a2.data_format == "bitarray") or (
             self.data_format == "integer" and a2.data_format == "integer"
         ):  # gains time by not using raw
-            return Activation(self.data ^ a2.data, optimize=self.optimize and a2.optimize, to_file=False)
+            return Activation(
+                self.data ^ a2.data,
+                optimize=self.optimize and a2.optimize,
+                length=self.length,
+                to_file=False,
+            )
         else:
             return Activation(
                 self.raw ^ a2.raw,
-- 
2.43.0


From 2cdeefd4ba74d1208878de7926ed694c9542b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:25 +0000
Subject: [PATCH 04/48] fix: an activation contains another only if it has all
 its points

The test was symmetric, so a small vector 'contained' any superset of it.
---
 ruleskit/activation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 60853e3..a99531b 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -773,9 +773,7 @@ class Activation(ABC):
         intersection = self & other
         nones_intersection = intersection.nones
         intersection.delete()
-        if nones_intersection < min(self.nones, other.nones):
-            return False
-        return True
+        return nones_intersection == other.nones
 
     def get_correlation(self, other: "Activation") -> float:
         """Computes the correlation between self and other
-- 
2.43.0


From b76464631afebc583d45864abf8f50d9cc507fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:30 +0000
Subject: [PATCH 05/48] fix: accept bit strings and path strings in Activation

The type was compared to the string "str", so the documented '0100111' and path
strings were parsed as compressed vectors.
---
 ruleskit/activation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index a99531b..eb95e99 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -204,7 +204,7 @@ class Activation(ABC):
         self.lasy = False
 
         # does not use instance to avoid conflicts if using TransparentPath
-        if type(activation) == "str" and "," not in activation:
+        if type(activation) == str and "," not in activation:
             if any([c in activation for c in "abcdefhijklmnopqrstuvwxy./\\"]):  # is a file path
                 if TransparentPath is not None:
                     # noinspection PyCallingNonCallable
@@ -213,6 +213,7 @@ class Activation(ABC):
                     activation = Path(activation)
             else:
                 if Activation.WILL_COMPARE:
+                    length = len(activation)
                     activation = int(activation, 2)
                 else:
                     activation = bitarray(activation)
-- 
2.43.0


From b863f99b2749129960dba351bc2e27194581f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:35 +0000
Subject: [PATCH 06/48] fix: reading a vector as bitarray or integer leaves the
 class settings alone

The conversion flipped Activation.WILL_COMPARE for the whole process: another thread
could get the wrong type, and an exception left it flipped.
---
 ruleskit/activation.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index eb95e99..af47bfa 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -935,12 +935,13 @@ class Activation(ABC):
         return act
 
     def _decompress(
-        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True
+        self, value: Union[str, np.ndarray, Path] = None, raw=True, out=True, integer: Optional[bool] = None
     ) -> Union[np.ndarray, bitarray, int]:
         """From a compressed array of either str or np.ndarray format, will return the raw np.ndarray vector of the form
         [0, 1, 1, 1, 0, 0, 1, ...]
 
-        If raw is True (default), returns it as a np.ndarray, else as a bitarray
+        If raw is True (default), returns it as a np.ndarray, else as an integer if 'integer' is True and as a bitarray
+        if it is False ('integer' defaults to Activation.WILL_COMPARE).
 
         If out is False or value is None, will set:
             * self._time_compressed_to_raw
@@ -949,13 +950,15 @@ class Activation(ABC):
             * self._nones
             Will iterate :
                 * self._n_compressed_to_raw
-        raw if False and Activation.WILL_COMPARE is True/False:
+        raw if False and 'integer' is True/False:
             * self._time_compressed_to_integer/bitarray
             * self._sizeof_nteger/bitarray
             Will iterate :
                 * self._n_compressed_to_nteger/bitarray
         """
         t0 = time()
+        if integer is None:
+            integer = Activation.WILL_COMPARE
 
         if value is None:
             out = False
@@ -1036,7 +1039,7 @@ class Activation(ABC):
         if raw:
             act = s
             fmt = "raw"
-        elif Activation.WILL_COMPARE:
+        elif integer:
             t1 = time()
             act = self._raw_to_integer(s)
             if not out:
@@ -1292,11 +1295,7 @@ class Activation(ABC):
                 self._sizeof_bitarray = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = False
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, integer=False)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
@@ -1333,11 +1332,7 @@ class Activation(ABC):
             self._sizeof_integer = sys.getsizeof(to_ret) / 1e6
             return to_ret
         elif "compressed" in self.data_format:
-            wc = Activation.WILL_COMPARE
-            Activation.WILL_COMPARE = True
-            to_ret = self._decompress(raw=False, out=False)
-            Activation.WILL_COMPARE = wc
-            return to_ret
+            return self._decompress(raw=False, out=False, integer=True)
         else:
             raise ValueError(f"Unkown activation format {self.data_format}")
 
-- 
2.43.0


From 4ab5fb3989e3e819cc722504da46bcd7817ef0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:39 +0000
Subject: [PATCH 07/48] fix: do not store one-point vectors as compressed
 arrays

[value, 1] is read back as a raw vector of two points.
---
 ruleskit/activation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index af47bfa..15a892e 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -383,7 +383,7 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_bitarray:
+            if size_compressed > self._sizeof_bitarray or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "bitarray"
             else:
@@ -442,7 +442,7 @@ class Activation(ABC):
             else:
                 self._entropy = len(compressed)
             self._rel_entropy = self._entropy / self.length
-            if size_compressed > self._sizeof_integer:
+            if size_compressed > self._sizeof_integer or (dtype != str and self.length == 1):
                 self.data = value
                 self.data_format = "integer"
             else:
@@ -551,7 +551,7 @@ class Activation(ABC):
             thesize = self._sizeof_bitarray
             s = f"Using bitarray activation representation"
             fmt = "bitarray"
-        if thesize > size_compressed:
+        if thesize > size_compressed and (dtype == str or self.length > 1):
             logger.debug(f"Using compressed activation representation")
             self.data = compressed
             if dtype == str:
-- 
2.43.0


From 54ee0674b6631551f583ba127b53803aaa904c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:44 +0000
Subject: [PATCH 08/48] fix: multi_logical_xor of one vector honours asarray

---
 ruleskit/activation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 15a892e..9195cfd 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -723,6 +723,8 @@ class Activation(ABC):
         """Do LOGICAL EXCLUSIVE OR on many activation vectors at once. Uses raw np.ndarrays to gain time.
         If asarray is True, does not cast the result into an Activation object but returns the raw np.ndarray."""
         if len(acs) == 1:
+            if asarray:
+                return acs[0].raw
             return Activation(acs[0].raw, optimize=acs[0].optimize, to_file=acs[0].data_format == "file")
         lor = Activation.multi_logical_or(acs, True)
         nland = -(Activation.multi_logical_and(acs, True) - 1)
-- 
2.43.0


From 8d9b46bd81199f268a070aec3f04050d746ed38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:49 +0000
Subject: [PATCH 09/48] fix: deleting activation files tolerates another
 process deleting them first

---
 ruleskit/activation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 9195cfd..2a8b9ce 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -56,7 +56,10 @@ class Activation(ABC):
         if not cls.DEFAULT_TEMPDIR.is_dir():
             return
         for path in cls.DEFAULT_TEMPDIR.glob("ACTIVATION_VECTOR_*.txt"):
-            path.unlink()
+            try:
+                path.unlink()
+            except FileNotFoundError:  # another process cleaned it in the meantime
+                pass
 
     """Init methods"""
 
@@ -762,8 +765,10 @@ class Activation(ABC):
         """Deletes the activation vector's data, either by deleting the local file or by calling del on self.data. In
         the later case, self.data is reset to None."""
         if self.data_format == "file":
-            if self.data.is_file():
+            try:
                 self.data.unlink()
+            except FileNotFoundError:  # already deleted, possibly by another process
+                pass
         else:
             del self.data
             self.data = None
-- 
2.43.0


From e8467ee8bfd8cc83e50ab69f9ee2c1a3dfbaa08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:15 +0000
Subject: [PATCH 10/48] fix: profiling attributes restore the vector when the
 measure fails

With FORCE_STAT, an I/O error while measuring left the vector with the temporary data
and format, and when no file name was available the vector's own file was deleted.
---
 ruleskit/activation.py | 200 +++++++++++++++++------------------------
 1 file changed, 82 insertions(+), 118 deletions(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 2a8b9ce..523e351 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -3,6 +3,7 @@ from typing import Union, List, Optional
 import numpy as np
 import ast
 import sys
+from contextlib import contextmanager
 from copy import copy
 import random
 import psutil
@@ -1458,18 +1459,26 @@ class Activation(ABC):
             self._rel_entropy = self._entropy / self.length
         return to_ret
 
+    @contextmanager
+    def _preserve_data(self):
+        """Profiling swaps the data for another format to measure it: put it back, even if the measure fails."""
+        data = self.data
+        fmt = self.data_format
+        try:
+            yield
+        finally:
+            self.data = data
+            self.data_format = fmt
+
     @property
     def sizeof_path(self) -> float:
         """Returns the size in MB of the path object, or -1 if it does not exist.
         In that case and if Activation.FORCE_STAT is True, will force the object to write the file to compute the
          relevant profiling attributes."""
         if self._sizeof_path == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                if self._write(self.raw):
+                    self.data.unlink()
         return self._sizeof_path
 
     @property
@@ -1478,12 +1487,9 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to write the file to compute the relevant profiling
         attributes."""
         if self._sizeof_file == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                if self._write(self.raw):
+                    self.data.unlink()
         return self._sizeof_file
 
     @property
@@ -1537,12 +1543,9 @@ class Activation(ABC):
         if Activation.FORCE_STAT is True, will force the object to write the file to compute the relevant profiling
         attributes."""
         if self._time_write == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self._write(self.raw)
-            self.data.unlink()
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                if self._write(self.raw):
+                    self.data.unlink()
         return self._time_write
 
     @property
@@ -1551,13 +1554,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to write the file to compute the relevant profiling
         attributes."""
         if self._time_read == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self._write(self.raw)
-            _ = self._read(self.data, out=False)
-            self.data.unlink()
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                if self._write(self.raw):
+                    _ = self._read(self.data, out=False)
+                    self.data.unlink()
         return self._time_read
 
     @property
@@ -1566,13 +1566,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._compress to compute the relevant profiling
         attributes."""
         if self._time_raw_to_compressed == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.raw
-            self.data_format = "raw"
-            _ = self.as_compressed
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.raw
+                self.data_format = "raw"
+                _ = self.as_compressed
         return self._time_raw_to_compressed
 
     @property
@@ -1581,13 +1578,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._raw_to_integer to compute the relevant
         profiling attributes."""
         if self._time_raw_to_integer == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.raw
-            self.data_format = "raw"
-            _ = self.as_integer
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.raw
+                self.data_format = "raw"
+                _ = self.as_integer
         return self._time_raw_to_integer
 
     @property
@@ -1596,13 +1590,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._raw_to_bitarray to compute the relevant
         profiling attributes."""
         if self._time_raw_to_bitarray == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.raw
-            self.data_format = "raw"
-            _ = self.as_bitarray
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.raw
+                self.data_format = "raw"
+                _ = self.as_bitarray
         return self._time_raw_to_bitarray
 
     @property
@@ -1611,16 +1602,13 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._decompress to compute the relevant
         profiling attributes."""
         if self._time_compressed_to_raw == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_compressed
-            if isinstance(self.data, str):
-                self.data_format = "compressed_str"
-            else:
-                self.data_format = "compressed_array"
-            _ = self.raw
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_compressed
+                if isinstance(self.data, str):
+                    self.data_format = "compressed_str"
+                else:
+                    self.data_format = "compressed_array"
+                _ = self.raw
         return self._time_compressed_to_raw
 
     @property
@@ -1629,13 +1617,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._bitarray_to_raw to compute the relevant
         profiling attributes."""
         if self._time_bitarray_to_raw == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_bitarray
-            self.data_format = "bitarray"
-            _ = self.raw
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_bitarray
+                self.data_format = "bitarray"
+                _ = self.raw
         return self._time_bitarray_to_raw
 
     @property
@@ -1644,13 +1629,10 @@ class Activation(ABC):
         Activation.FORCE_STAT is True, will force the object to call self._integer_to_raw to compute the relevant
         profiling attributes."""
         if self._time_integer_to_raw == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_integer
-            self.data_format = "integer"
-            _ = self.raw
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_integer
+                self.data_format = "integer"
+                _ = self.raw
         return self._time_integer_to_raw
 
     @property
@@ -1659,16 +1641,13 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self._decompress on self.as_compressed with
          'raw=False' to compute the relevant profiling attributes."""
         if self._time_compressed_to_bitarray == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_compressed
-            if isinstance(self.data, str):
-                self.data_format = "compressed_str"
-            else:
-                self.data_format = "compressed_array"
-            _ = self.as_bitarray
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_compressed
+                if isinstance(self.data, str):
+                    self.data_format = "compressed_str"
+                else:
+                    self.data_format = "compressed_array"
+                _ = self.as_bitarray
         return self._time_compressed_to_bitarray
 
     @property
@@ -1677,13 +1656,10 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self._compress on self.as_bitarray to
         compute the relevant profiling attributes."""
         if self._time_bitarray_to_compressed == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_bitarray
-            self.data_format = "bitarray"
-            _ = self.as_compressed
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_bitarray
+                self.data_format = "bitarray"
+                _ = self.as_compressed
         return self._time_bitarray_to_compressed
 
     @property
@@ -1692,13 +1668,10 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self._compress on
         self._integer_to_raw(self.as_integer) to compute the relevant profiling attributes."""
         if self._time_integer_to_compressed == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_integer
-            self.data_format = "integer"
-            _ = self.as_compressed
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_integer
+                self.data_format = "integer"
+                _ = self.as_compressed
         return self._time_integer_to_compressed
 
     @property
@@ -1707,13 +1680,10 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self._compress on
         self._integer_to_raw(self.as_integer) to compute the relevant profiling attributes."""
         if self._time_bitarray_to_integer == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_bitarray
-            self.data_format = "bitarray"
-            _ = self.as_integer
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_bitarray
+                self.data_format = "bitarray"
+                _ = self.as_integer
         return self._time_bitarray_to_integer
 
     @property
@@ -1722,13 +1692,10 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self.as_integer on
         self to compute the relevant profiling attributes."""
         if self._time_integer_to_bitarray == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_integer
-            self.data_format = "integer"
-            _ = self.as_bitarray
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_integer
+                self.data_format = "integer"
+                _ = self.as_bitarray
         return self._time_integer_to_bitarray
 
     @property
@@ -1737,16 +1704,13 @@ class Activation(ABC):
         and if Activation.FORCE_STAT is True, will force the object to call self.as_compress on
         to compute the relevant profiling attributes."""
         if self._time_compressed_to_integer == -1 and Activation.FORCE_STAT:
-            data = self.data
-            fmt = self.data_format
-            self.data = self.as_compressed
-            if isinstance(self.data, str):
-                self.data_format = "compressed_str"
-            else:
-                self.data_format = "compressed_array"
-            _ = self.as_integer
-            self.data = data
-            self.data_format = fmt
+            with self._preserve_data():
+                self.data = self.as_compressed
+                if isinstance(self.data, str):
+                    self.data_format = "compressed_str"
+                else:
+                    self.data_format = "compressed_array"
+                _ = self.as_integer
         return self._time_compressed_to_integer
 
     @property
-- 
2.43.0


From 9a7c3419e7b790011fc8b08beade96ba9a192059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:20 +0000
Subject: [PATCH 11/48] fix: lasy activations know their length

length stayed None until raw was called, so len(), entropy, coverage and the logical
operations failed on a lasy vector.
---
 ruleskit/activation.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ruleskit/activation.py b/ruleskit/activation.py
index 523e351..dc0f7c9 100644
--- a/ruleskit/activation.py
+++ b/ruleskit/activation.py
@@ -73,7 +73,7 @@ class Activation(ABC):
         self._coverage = None
 
         # Format attributes
-        self.length = None  # Will be set by init methods
+        self._length = None  # Will be set by init methods
         self.data = None  # Will be set by init methods
 
         """
@@ -839,6 +839,8 @@ class Activation(ABC):
                 self._sizeof_raw = value.nbytes / 1e6
             if self._nones is None:
                 self._nones = np.count_nonzero(value == 1)
+            if self._length is None:
+                self._length = len(value)
             stat = path.stat()
             if isinstance(stat, dict):
                 self._sizeof_file = stat["st_size"] / 1e6
@@ -1151,6 +1153,17 @@ class Activation(ABC):
 
     """properties"""
 
+    @property
+    def length(self) -> int:
+        """Number of points in the vector. Reads the vector if it is lasy and was not read yet."""
+        if self._length is None and not self.loaded:
+            _ = self.raw
+        return self._length
+
+    @length.setter
+    def length(self, value: int):
+        self._length = value
+
     @property
     def ones(self) -> np.ndarray:
         """ones is the list of indexes where the vector is 1
-- 
2.43.0


From 811e53b6427d5e218273c94b002b4fe497dd0536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:17 +0000
Subject: [PATCH 12/48] fix: a rule set is left as it was when adding a rule
 fails

append and += added the rule before its activation was read and the union stored, so an I/O error left a rule
set whose activation missed one of its rules, and append(update_activation=False) could leave the tracking
flags switched off.
---
 ruleskit/ruleset.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index df527fa..fe250b1 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -129,7 +129,7 @@ class RuleSet(ABC):
                         f"Ruleset previously had rules of type {self.rule_type},"
                         f" so can not add rule of type {type(other)}"
                     )
-            self._rules.append(other)
+            new_rules = [other]
         else:
             if self._rule_type is not None and other._rule_type is not None and self.rule_type != other.rule_type:
                 raise TypeError(
@@ -138,15 +138,22 @@ class RuleSet(ABC):
                 )
             if self._rule_type is None and other._rule_type is not None:
                 self.rule_type = other.rule_type
-            self._rules += other._rules
+            new_rules = other._rules
 
+        # Reading or storing activations can fail. In that case, self must remain as it was.
+        activation = self._activation
+        try:
+            if self._compute_activation:
+                self._update_activation(other)
+            if self.stack_activation:
+                self._update_stacked_activation(other)
+        except Exception:
+            self._activation = activation
+            raise
+        self._rules += new_rules
         self.features_indexes = list(set(self.features_indexes + other.features_indexes))
         if hasattr(other, "features_names"):
             self.features_names = list(set(self.features_names + other.features_names))
-        if self._compute_activation:
-            self._update_activation(other)
-        if self.stack_activation:
-            self._update_stacked_activation(other)
         return self
 
     def __add__(self, other: Union["RuleSet", Rule]):
@@ -688,9 +695,11 @@ class RuleSet(ABC):
         if not update_activation:
             self._compute_activation = False
             self.stack_activation = False
-        self.__iadd__(rule)
-        self._compute_activation = True
-        self.stack_activation = stack_activation
+        try:
+            self.__iadd__(rule)
+        finally:
+            self._compute_activation = True
+            self.stack_activation = stack_activation
 
     def sort(self, criterion: str = None, reverse: bool = False):
         """Sorts the RuleSet.
-- 
2.43.0


From 214ec1b12f137a202e8822e7ca7fc7e44292530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:23 +0000
Subject: [PATCH 13/48] fix: stacked fit and eval restore stack_activation when
 they fail

---
 ruleskit/ruleset.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index fe250b1..ea51e81 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -390,13 +390,13 @@ class RuleSet(ABC):
             if xs is not None:
                 clean_activation = not self.stack_activation
                 self.stack_activation = True
-                self.calc_activation(xs)
-                self.stack_activation = not clean_activation
+                try:
+                    self.calc_activation(xs)
+                finally:
+                    self.stack_activation = not clean_activation
             elif self.stacked_activations is None:
                 clean_activation = not self.stack_activation
-                self.stack_activation = True
                 self.compute_stacked_activation()
-                self.stack_activation = not clean_activation
 
             if isinstance(y, np.ndarray):
                 # noinspection PyUnresolvedReferences
@@ -553,8 +553,10 @@ class RuleSet(ABC):
                 if keep_new_activations:
                     clean_activation = not self.stack_activation
                     self.stack_activation = True
-                    self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
-                    self.stack_activation = not clean_activation
+                    try:
+                        self.calc_activation(xs=xs)  # Will reset rules' activation vectors too
+                    finally:
+                        self.stack_activation = not clean_activation
                     stacked_activations = self.stacked_activations
                     activation = self._activation
                     # noinspection PyUnresolvedReferences
@@ -572,12 +574,10 @@ class RuleSet(ABC):
                 if self.stacked_activations is None:
                     # Else, will compute the stacked activation from the current rules activations
                     clean_activation = not self.stack_activation
-                    self.stack_activation = True
                     self.compute_stacked_activation()
                     self.compute_self_activation()
                     if self.stacked_activations is None:
                         raise ValueError("Rules activations must have been computed previously.")
-                    self.stack_activation = not clean_activation
                 stacked_activations = self.stacked_activations
                 activation = self._activation
                 # noinspection PyUnresolvedReferences
-- 
2.43.0


From cf33056315947cfbbcaebe1f756d3cb075dc2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:27 +0000
Subject: [PATCH 14/48] fix: recompute the rule set's activation when eval
 drops rules

The activation was cleared (all zeros) and never computed again, leaving a rule set of active rules with no
activated point and a null coverage.
---
 ruleskit/ruleset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index ea51e81..f939d4e 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -655,12 +655,9 @@ class RuleSet(ABC):
                 self.append(r, update_activation=False)
 
             # Recompute activation now that bad rules have been droped
-            if self._activation is None or self._activation.length == 0 or (xs is not None and keep_new_activations):
-                self._activation = None
-                self.compute_self_activation()
-            if self.stack_activation and (
-                    self.stacked_activations is None or (xs is not None and keep_new_activations)
-            ):
+            self._activation = None
+            self.compute_self_activation()
+            if self.stack_activation:
                 self.stacked_activations = None
                 self.compute_stacked_activation()
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
-- 
2.43.0


From 84125d105352f9af9cf99684bbee505ca3fc95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:32 +0000
Subject: [PATCH 15/48] fix: stacked fit and eval drop each bad rule once, and
 all of them

A bad rule was handed over once per attribute, and a rule that only missed a limit on an attribute set along
side others was flagged as bad but kept.
---
 ruleskit/ruleset.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index f939d4e..0191be6 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -416,8 +416,6 @@ class RuleSet(ABC):
                 computed_attrs[f"{attr}s"] = launch_method(
                     getattr(self, f"calc_{attr}s"), y=y, xs=xs, **computed_attrs, **kwargs
                 )
-            to_drop = []
-
             if clean_activation:
                 self.del_stacked_activations()
             else:
@@ -432,11 +430,10 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 # To check attributes that are set along side others, like coverage
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+            to_drop = [r for r in self if not r.good]
         else:
             [r.fit(xs=xs, y=y, force_if_not_good=force_if_not_good, **kwargs) for r in self]
             to_drop = [r for r in self if not r.good]
@@ -616,8 +613,6 @@ class RuleSet(ABC):
                     **kwargs,
                 )
 
-            to_drop = []
-
             if clean_activation:
                 self.del_stacked_activations()
             else:
@@ -632,10 +627,9 @@ class RuleSet(ABC):
                     setattr(self._rules[ir], f"_{attr[:-1]}", computed_attrs[attr].iloc[ir])
                     if self._rules[ir].good:
                         self._rules[ir].check_thresholds(attr[:-1])
-                    if not self._rules[ir].good:
-                        to_drop.append(self._rules[ir])
                 if self._rules[ir].good:
                     self._rules[ir].check_thresholds()
+            to_drop = [r for r in self if not r.good]
         else:
             [
                 r.eval(
-- 
2.43.0


From a7b676f8b36e3f6e782e138a8930a8fcaf783b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:38 +0000
Subject: [PATCH 16/48] fix: += does not share the stacked activations of the
 other rule set

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 0191be6..dccbdde 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -318,7 +318,7 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations
+                    self.stacked_activations = other.stacked_activations.copy()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
-- 
2.43.0


From 7be3fb3c1362678447636202abbf1a3913d7fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:42 +0000
Subject: [PATCH 17/48] fix: adding two rule sets keeps the order of the rules

The rules went through a set, so their order depended on the hash seed of the interpreter.
---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index dccbdde..1eb2e97 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -163,7 +163,7 @@ class RuleSet(ABC):
             rules = self.rules + [other]
         else:
             stack_activation &= other.stack_activation
-            rules = list(set(self.rules + other.rules))
+            rules = list(dict.fromkeys(self.rules + other.rules))
         return self.__class__(rules, compute_activation=self._compute_activation, stack_activation=stack_activation)
 
     def __getattr__(self, item):
-- 
2.43.0


From f2ac2cd81dbea398374383ae646800fa72b86127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:04 +0000
Subject: [PATCH 18/48] fix: += of a rule set without stacked activations adds
 its rules' columns

The rules were added but their columns were missing from the stacked activations.
---
 ruleskit/ruleset.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1eb2e97..c32a67b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -311,6 +311,12 @@ class RuleSet(ABC):
         """Updates the stacked activation vectors of the RuleSet with the activation vector of a new Rule or
         the stacked activation vectors of another RuleSet."""
         if other.activation_available:
+            if not isinstance(other, Rule):
+                stacked = other.stacked_activations
+                if stacked is None:
+                    stacked = other.evaluate_stacked_activations()
+                if stacked is None:
+                    return
 
             if self.stacked_activations is None:
                 if isinstance(other, Rule):
@@ -318,12 +324,12 @@ class RuleSet(ABC):
                         data=np.array(other.activation).T, columns=[str(other.condition)]
                     )
                 else:
-                    self.stacked_activations = other.stacked_activations.copy()
+                    self.stacked_activations = stacked.copy()
             else:
                 if isinstance(other, Rule):
                     self.stacked_activations[str(other.condition)] = other.activation
                 else:
-                    self.stacked_activations = pd.concat([self.stacked_activations, other.stacked_activations], axis=1)
+                    self.stacked_activations = pd.concat([self.stacked_activations, stacked], axis=1)
 
     def set_features_indexes(self):
         if len(self.__class__.all_features_indexes) > 0:
-- 
2.43.0


From 0547fff4fa9bc9394ed287acfff264aa6544895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:50 +0000
Subject: [PATCH 19/48] fix: rules are dropped from a rule set only if its
 activation can be recomputed

An I/O error while dropping bad rules left a rule set without activation, which a second call to fit did not
repair.
---
 ruleskit/ruleset.py | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c32a67b..8d56177 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -445,20 +445,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
-            self._rules = []
-            if self._activation is not None:
-                self._activation.clear()
-            self.del_stacked_activations()
-            for r in rules:
-                self.append(r, update_activation=False)
-
-            # Recompute activation now that bad rules have been droped
-            self._activation = None
-            self.compute_self_activation()
-            if self.stack_activation:
-                self.stacked_activations = None
-                self.compute_stacked_activation()
+            self._drop_rules(to_drop)
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
         # been done  (needed to set self.coverage), but not stacked (useless)
         elif not self.__class__.STACKED_FIT:
@@ -646,20 +633,7 @@ class RuleSet(ABC):
             to_drop = [r for r in self if not r.good]
 
         if len(to_drop) > 0:
-            rules = [r for r in self.rules if r not in to_drop]
-            self._rules = []
-            if self._activation is not None:
-                self._activation.clear()
-            self.del_stacked_activations()
-            for r in rules:
-                self.append(r, update_activation=False)
-
-            # Recompute activation now that bad rules have been droped
-            self._activation = None
-            self.compute_self_activation()
-            if self.stack_activation:
-                self.stacked_activations = None
-                self.compute_stacked_activation()
+            self._drop_rules(to_drop)
         # If not bad rules were dropped and stacked fit was not used, still compute self.activation since it has not
         # been done
         elif not self.__class__.STACKED_FIT:
@@ -681,6 +655,20 @@ class RuleSet(ABC):
 
         return to_drop
 
+    def _drop_rules(self, to_drop: List[Rule]):
+        """Removes the given rules from self and recomputes the activation (and stacked activations if needed) from the
+        remaining rules. Nothing is changed if the activations can not be recomputed."""
+        rules = self._rules
+        self._rules = [r for r in rules if r not in to_drop]
+        try:
+            activation = self.evaluate_self_activation()
+            stacked_activations = self.evaluate_stacked_activations() if self.stack_activation else None
+        except Exception:
+            self._rules = rules
+            raise
+        self._activation = activation
+        self.stacked_activations = stacked_activations
+
     def append(self, rule: Rule, update_activation: bool = True):
         """Appends a new rule to self. The updates of activation vector and the stacked activation vectors can be
         blocked by specifying update_activation=False. Otherwise, will use self.stack_activation to determine if the
-- 
2.43.0


From b643ef22090c1097fea13dcd59b5ecab4d02046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 20/48] fix: stacked fit and eval work with any class label

The string 'zero' stood for the label 0 while selecting the activated targets, so a class named 'zero' was
predicted as 0, or made the fit raise.
---
 ruleskit/utils/rfunctions.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index d10de9d..7ebe681 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -8,6 +8,11 @@ import pandas as pd
 logger = logging.getLogger(__name__)
 
 
+def _activated_targets(activation: pd.DataFrame, y: pd.Series) -> pd.DataFrame:
+    """For each rule (column of activation), the target where the rule is activated, NaN elsewhere."""
+    return activation.apply(lambda x: y.where(x == 1))
+
+
 def class_probabilities(
     activation: Union[np.ndarray, pd.DataFrame, None], y: Union[np.ndarray, pd.Series]
 ) -> Union[np.ndarray, pd.DataFrame]:
@@ -54,9 +59,7 @@ def class_probabilities(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = _activated_targets(activation, y)
         count = y_conditional.apply(lambda x: x.value_counts())
         count.index = count.index.astype(y.dtype)
         return count.apply(lambda x: x / x.dropna().sum())
@@ -122,9 +125,7 @@ def conditional_std(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation.mul(y.replace(0, "zero"), axis=0).replace(0, np.nan).replace("", np.nan).replace("zero", 0)
-        )
+        y_conditional = _activated_targets(activation, y)
         return y_conditional.std()
 
 
@@ -398,12 +399,7 @@ def calc_classification_criterion(
                 y = pd.Series(y.squeeze())
             else:
                 raise ValueError("y must be a 1-D DataFrame or ndarray or pd.Series")
-        y_conditional = (
-            activation_vector.mul(y.replace(0, "zero"), axis=0)
-            .replace(0, np.nan)
-            .replace("", np.nan)
-            .replace("zero", 0)
-        )
+        y_conditional = _activated_targets(activation_vector, y)
         return success_rate(prediction, y_conditional)
 
 
-- 
2.43.0


From 9507d1317e3febda6b90cf9a3a6ccc9c26f8aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:06 +0000
Subject: [PATCH 21/48] fix: prediction of a regression rule set without
 stacked activations

The sum of the activations was accumulated in the stored vector of the first rule (changing it) and in bytes
(wrong from 256 rules on), predictions that cancelled out or were 0 gave NaN or raised TypeError, and one rule
without prediction removed the prediction of all the others.
---
 ruleskit/utils/rfunctions.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 7ebe681..a2f6725 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -454,16 +454,14 @@ def calc_ruleset_prediction_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
+        w = pred.notna() * weights[rulename]
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation) * weights[rulename]
-            cum_w = activation * weights[rulename]
+            cum_pred = pred
+            cum_w = w
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction * weights[rulename])
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation * weights[rulename]
+            cum_pred = cum_pred.add(pred, fill_value=0)
+            cum_w = cum_w + w
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
@@ -496,16 +494,14 @@ def calc_ruleset_prediction_equally_weighted_regressor_unstacked(
             continue
         if len(activation) == 0:
             continue
+        pred = rule.calc_prediction_vector(activation=activation)
+        w = pred.notna().astype(int)
         if cum_pred is None:
-            cum_pred = rule.calc_prediction_vector(activation=activation)
-            cum_w = activation
+            cum_pred = pred
+            cum_w = w
         else:
-            cum_pred = (
-                (cum_pred.replace(0, "zero").replace(np.nan, 0) + activation * rule.prediction)
-                .replace(0, np.nan)
-                .replace("zero", 0)
-            )
-            cum_w += activation
+            cum_pred = cum_pred.add(pred, fill_value=0)
+            cum_w = cum_w + w
     if cum_pred is None:
         raise ValueError(
             "No rules had non-zero/non-NaN weights, or all predictions left after applying weights where NaN"
-- 
2.43.0


From 1f4d946a048b04ed543d9e5248511d6b32f6a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:12 +0000
Subject: [PATCH 22/48] fix: stacked classification prediction of a single
 point

When only one point had a majority class, its prediction was attributed to the first row.
---
 ruleskit/utils/rfunctions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index a2f6725..0eae0bb 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -602,11 +602,9 @@ def calc_ruleset_prediction_equally_weighted_classificator_stacked(prediction_ve
         most_freq_pred = prediction_vectors.fillna(value=np.nan).replace("nan", np.nan).mode(axis=1)
     else:
         most_freq_pred = prediction_vectors.mode(axis=1)
-    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].dropna(axis=1).squeeze()
-    # Happens if only on point is activated, in which case 'squeeze' will only extract this point's prediction as a
-    # float, int or str
-    if not isinstance(most_freq_pred, pd.Series):
-        most_freq_pred = pd.Series([most_freq_pred])
+    if most_freq_pred.empty:  # no activated point
+        return pd.Series(np.nan, index=idx)
+    most_freq_pred = most_freq_pred.loc[most_freq_pred.count(axis=1) == 1].iloc[:, 0]
     most_freq_pred.name = None
     return most_freq_pred.reindex(idx)
 
-- 
2.43.0


From f3cf47d0499a363cd49363eb980abd4a9ecdb11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 23/48] fix: success rate is NaN when nothing is predicted

A rule set whose rules disagree on every activated point made eval raise ZeroDivisionError.
---
 ruleskit/utils/rfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 0eae0bb..5b144c1 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -323,7 +323,10 @@ def success_rate(
     elif isinstance(y, np.ndarray) and isinstance(prediction, pd.Series):
         if len(y) == 0:
             return pd.Series(dtype=int)
-        return sum(prediction == y) / len(prediction.dropna())
+        prediction_available = prediction.notna()
+        if not prediction_available.any():
+            return np.nan
+        return sum(prediction == y) / prediction_available.sum()
     else:
         if not isinstance(y, pd.DataFrame):
             raise TypeError(
-- 
2.43.0


From fd6ce4bbc5c6e5324e49a82f763219c3bd77203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:22 +0000
Subject: [PATCH 24/48] fix: prediction vector of a rule does not cut long
 class names

astype(str) on an array of floats gives strings of at most 32 characters.
---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index bec087e..4cfba91 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -513,7 +513,7 @@ class Rule(ABC):
                 raise ValueError(
                     "Prediction should not be the 'nan' string, it will conflict with NaNs. Rename your class."
                 )
-            to_ret = to_ret.astype(str)
+            to_ret = to_ret.astype(f"<U{max(3, len(self.prediction))}")  # astype(str) would cut at 32 characters
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
             to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
-- 
2.43.0


From e5cd8a03c15803aef81c937bcc194b45816a0cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:28 +0000
Subject: [PATCH 25/48] fix: compare class probabilities as numbers

With text classes the probabilities are stored as text, and '5e-05' > '0.9'.
---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index 4cfba91..c363adb 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -734,7 +734,7 @@ class ClassificationRule(Rule):
         if self._prediction is not None:
             if isinstance(self._prediction, (float, int, str, np.integer, np.float64)):
                 return self._prediction
-            prop = [p[1] for p in self._prediction]
+            prop = [float(p[1]) for p in self._prediction]  # text if the classes are text
             idx = prop.index(max(prop))
             return self._prediction[idx][0]
         else:
-- 
2.43.0


From fef1f569729fb9ab8a4e191789d2def9aff0881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:34 +0000
Subject: [PATCH 26/48] fix: majority vote of more than 255 rules

Votes were summed in the activation's unsigned byte.
---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 5b144c1..8d8a022 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -585,7 +585,7 @@ def calc_ruleset_prediction_equally_weighted_classificator_unstacked(
     xs: Optional[Union[pd.DataFrame, np.ndarray]] = None,
 ) -> pd.Series:
     return calc_ruleset_prediction_weighted_classificator_unstacked(
-        rules, pd.Series({str(r.condition): 1 for r in rules}), xs=xs
+        rules, pd.Series({str(r.condition): 1.0 for r in rules}), xs=xs
     )
 
 
-- 
2.43.0


From 3c4daad0595eb74e67b6369f4e52c52a45d6dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:16 +0000
Subject: [PATCH 27/48] fix: features names of a rule set are in a reproducible
 order

The order of a set of strings changes from one interpreter to the next.
---
 ruleskit/ruleset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 8d56177..81141f8 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -111,7 +111,7 @@ class RuleSet(ABC):
             if self.stack_activation:
                 self.compute_stacked_activation()
             if names_available:
-                self.features_names = list(set(itertools.chain(*[rule.features_names for rule in self])))
+                self.features_names = list(dict.fromkeys(itertools.chain(*[rule.features_names for rule in self])))
             self.set_features_indexes()
         if self.__class__.CHECK_DUPLICATED:
             self.check_duplicated_rules(self.rules, name_or_index="name" if len(self.features_names) > 0 else "index")
@@ -153,7 +153,7 @@ class RuleSet(ABC):
         self._rules += new_rules
         self.features_indexes = list(set(self.features_indexes + other.features_indexes))
         if hasattr(other, "features_names"):
-            self.features_names = list(set(self.features_names + other.features_names))
+            self.features_names = list(dict.fromkeys(self.features_names + other.features_names))
         return self
 
     def __add__(self, other: Union["RuleSet", Rule]):
@@ -920,7 +920,7 @@ class RuleSet(ABC):
         self.compute_self_activation()
         if self.stack_activation:
             self.compute_stacked_activation()
-        self.features_names = list(set(traverse([rule.features_names for rule in self])))
+        self.features_names = list(dict.fromkeys(traverse([rule.features_names for rule in self])))
 
     def to_df(self, custom_rules_to_series: Optional[Callable] = None, ruleset_attributes: bool = True) -> pd.DataFrame:
         if len(self) == 0:
-- 
2.43.0


From 8a4b582790549b3aaaef159f8a1ed5dc5c06bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:21 +0000
Subject: [PATCH 28/48] fix: save the test set size of a rule set

The train set size was written instead.
---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 81141f8..d39598a 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -967,7 +967,7 @@ class RuleSet(ABC):
         )
         s_test = pd.DataFrame(
             columns=df.columns,
-            data=[[self.train_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
+            data=[[self.test_set_size if i == 0 else np.nan for i in range(len(df.columns))]],
             index=["ruleset test set size"],
         )
         return pd.concat([df, s_cov, s_crit, s_train, s_test])
-- 
2.43.0


From 72fd841484ee843b19bbc5e6106316a969b2ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:26 +0000
Subject: [PATCH 29/48] fix: loaded rules keep their names

They were all named after the first column, 'Unnamed: 0', and saved with that name.
---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index d39598a..1a6232e 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1011,7 +1011,7 @@ class RuleSet(ABC):
             rule = Rule()
         rule_idx = copy(rule.__class__.rule_index)
         condition_index = {c: None for c in rule.__class__.condition_index}
-        rule._name = srule.index[0]
+        rule._name = srule["Unnamed: 0"] if "Unnamed: 0" in srule.index else srule.name
 
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
-- 
2.43.0


From 556e01ec145c72230e9d84eb84ba3fd8796d5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:32 +0000
Subject: [PATCH 30/48] fix: coverage and criterion of a loaded rule set are
 numbers

They were the text found in the file.
---
 ruleskit/ruleset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 1a6232e..c3ccb4f 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -886,10 +886,10 @@ class RuleSet(ABC):
         else:
             rules = pd.read_csv(path, **kwargs)
         if "ruleset coverage" in rules.iloc[:, 0].values:
-            self._coverage = rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1]
+            self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
         if "ruleset criterion" in rules.iloc[:, 0].values:
-            self.criterion = rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1]
+            self.criterion = float(rules[rules.iloc[:, 0] == "ruleset criterion"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset criterion"].index)
         if "ruleset train set size" in rules.iloc[:, 0].values:
             self.train_set_size = rules[rules.iloc[:, 0] == "ruleset train set size"].iloc[0, 1]
-- 
2.43.0


From 881e688f513adf00172eada8c8266a9d68442214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:58 +0000
Subject: [PATCH 31/48] fix: load rule sets whose class names have spaces

literal_eval raises SyntaxError for 'low risk'.
---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index c3ccb4f..f7c0d58 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1028,7 +1028,7 @@ class RuleSet(ABC):
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
                         try:
                             setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except ValueError:
+                        except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
                         setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-- 
2.43.0


From 10d7e7b539a0d39165c5872d183a97b0d6ba1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 32/48] fix: load rules with infinite bounds or figures

literal_eval does not know 'inf'.
---
 ruleskit/ruleset.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index f7c0d58..4262143 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1,4 +1,5 @@
 import inspect
+import re
 from abc import ABC
 import ast
 import pandas as pd
@@ -32,6 +33,14 @@ from .utils.rfunctions import (
 logger = logging.getLogger(__name__)
 
 
+def parse_literal(value: str) -> Any:
+    """Value whose str() is the given text. Like ast.literal_eval, but knows infinity."""
+    try:
+        return ast.literal_eval(value)
+    except ValueError:
+        return ast.literal_eval(re.sub(r"\binf\b", "1e999", value))
+
+
 class RuleSet(ABC):
     """A set of rules"""
 
@@ -1016,7 +1025,7 @@ class RuleSet(ABC):
         for rule_ind in srule.index:
             str_value = str(srule[rule_ind])
             if rule_ind in condition_index:
-                condition_index[rule_ind] = ast.literal_eval(str_value)
+                condition_index[rule_ind] = parse_literal(str_value)
             elif rule_ind in rule_idx:
                 if rule_ind == "activation":
                     setattr(rule, f"_{rule_ind}", Activation(str_value))
@@ -1031,7 +1040,7 @@ class RuleSet(ABC):
                         except (ValueError, SyntaxError):
                             setattr(rule, f"_{rule_ind}", str_value)
                     else:
-                        setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
+                        setattr(rule, f"_{rule_ind}", parse_literal(str_value))
             else:
                 continue
 
-- 
2.43.0


From c5bff6bda69b5fa0af5908843462b4d5ea5b16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 33/48] fix: load figures and class names exactly as they were
 saved

read_csv rounds some numbers and takes class names such as 'NA' or 'null' for missing values.
---
 ruleskit/ruleset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 4262143..331031b 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -893,7 +893,8 @@ class RuleSet(ABC):
         if hasattr(path, "read"):
             rules = path.read(**kwargs)
         else:
-            rules = pd.read_csv(path, **kwargs)
+            # The text is needed as it is : class names like 'NA' are not missing values, and figures are parsed later
+            rules = pd.read_csv(path, **{"dtype": str, "keep_default_na": False, "na_values": [""], **kwargs})
         if "ruleset coverage" in rules.iloc[:, 0].values:
             self._coverage = float(rules[rules.iloc[:, 0] == "ruleset coverage"].iloc[0, 1])
             rules = rules.drop(rules[rules.iloc[:, 0] == "ruleset coverage"].index)
-- 
2.43.0


From d5e4ef1865b25c72146a4a715306e138c96cff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 34/48] fix: class names that look like numbers load back as
 text

'1', 'None' or '' were saved as they are and read as 1, None and NaN.
---
 ruleskit/ruleset.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 331031b..6dc834d 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -41,6 +41,19 @@ def parse_literal(value: str) -> Any:
         return ast.literal_eval(re.sub(r"\binf\b", "1e999", value))
 
 
+def text_to_class(value: str) -> Any:
+    """Prediction written in a file: a number, or a class name, quoted or not."""
+    try:
+        return ast.literal_eval(value)
+    except (ValueError, SyntaxError, TypeError):
+        return value
+
+
+def class_to_text(value: str) -> str:
+    """Class name to write in a file. Quoted if it would be taken for something else when read, like '1' or 'None'."""
+    return value if value not in ("", "nan") and text_to_class(value) == value else repr(value)
+
+
 class RuleSet(ABC):
     """A set of rules"""
 
@@ -1001,7 +1014,10 @@ class RuleSet(ABC):
             name = f"R_{i}({len(rule)}){rule.sign}"
         else:
             name = f"R_{i}({len(rule)})"
-        sr = pd.Series(data=[str(getattr(rule, ind)) for ind in index], name=name, index=index, dtype=str)
+        data = [str(getattr(rule, ind)) for ind in index]
+        if "prediction" in index and isinstance(rule.prediction, str):
+            data[index.index("prediction")] = class_to_text(rule.prediction)
+        sr = pd.Series(data=data, name=name, index=index, dtype=str)
         return sr
 
     @staticmethod
@@ -1036,10 +1052,7 @@ class RuleSet(ABC):
                     setattr(rule, f"_{rule_ind}", str_value)
                 else:
                     if rule_ind == "prediction":  # Prediction can be a str in case of classification
-                        try:
-                            setattr(rule, f"_{rule_ind}", ast.literal_eval(str_value))
-                        except (ValueError, SyntaxError):
-                            setattr(rule, f"_{rule_ind}", str_value)
+                        setattr(rule, f"_{rule_ind}", text_to_class(str_value))
                     else:
                         setattr(rule, f"_{rule_ind}", parse_literal(str_value))
             else:
-- 
2.43.0


From b7e2501d66e38e1f887d14568a7b7a3b75d6524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:38 +0000
Subject: [PATCH 35/48] fix: a failed save does not damage the file

The target was truncated first, so a full disk lost the rules saved there before
and left a cut-off file, which could be loaded as different rules.
---
 ruleskit/ruleset.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index 6dc834d..b32bec4 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1,4 +1,5 @@
 import inspect
+import os
 import re
 from abc import ABC
 import ast
@@ -1000,8 +1001,19 @@ class RuleSet(ABC):
 
         if hasattr(path, "write"):
             path.write(df)
-        else:
+        elif "://" in str(path) or (os.path.exists(path) and not os.path.isfile(path)):
             df.to_csv(path)
+        else:
+            # Writing aside first, so a failure can not leave a cut-off file, nor lose the rules saved there before
+            folder, name = os.path.split(os.path.realpath(path))
+            aside = os.path.join(folder, f".{os.getpid()}_{name}")
+            try:
+                df.to_csv(aside)
+                os.replace(aside, os.path.join(folder, name))
+            except Exception:
+                if os.path.exists(aside):
+                    os.remove(aside)
+                raise
 
     # noinspection PyProtectedMember
     @staticmethod
-- 
2.43.0


From cf807253d4dd9f090d875be8683b9d928300d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:08 +0000
Subject: [PATCH 36/48] fix: loaded regression rules have a sign

It follows from the prediction but was left to None.
---
 ruleskit/ruleset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b32bec4..b9ac534 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -1071,6 +1071,8 @@ class RuleSet(ABC):
                 continue
 
         rule._condition = HyperrectangleCondition(**condition_index)
+        if isinstance(rule, RegressionRule) and rule.prediction is not None:
+            rule.calc_sign()  # not saved
         if hasattr(rule, rule.__class__.fitted_if_has) and getattr(rule, rule.__class__.fitted_if_has) is not None:
             rule._fitted = True
         return rule
-- 
2.43.0


From c9dde503a86301de7b273dd4eaf98a1d167ab4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:46 +0000
Subject: [PATCH 37/48] fix: the normalised mean absolute error is not divided
 by zero

---
 ruleskit/utils/rfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rfunctions.py b/ruleskit/utils/rfunctions.py
index 8d8a022..b003c2f 100644
--- a/ruleskit/utils/rfunctions.py
+++ b/ruleskit/utils/rfunctions.py
@@ -210,7 +210,7 @@ def mae_function(
 def mae_norm(
     prediction_vector: Union[pd.Series, pd.DataFrame], y: Union[np.ndarray, pd.Series]
 ) -> Union[float, pd.Series]:
-    return mae_function(prediction_vector, y) / np.mean(np.mean(y) - y)
+    return mae_function(prediction_vector, y) / np.mean(np.abs(np.mean(y) - y))
 
 
 def aae_function(
-- 
2.43.0


From 2a71ae529da6b83a684baad280a8caf4e1b5656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:03 +0000
Subject: [PATCH 38/48] fix: conditions whose hashes collide are not equal

---
 ruleskit/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 0afd2c2..9c7b6f7 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -352,7 +352,9 @@ class HyperrectangleCondition(Condition):
     def __eq__(self, other):
         """Two HyperrectangleConditions are equal if they talk about the same features, and if the bmins and bmaxs
         are the same from one rule to another. Features indexes can be different."""
-        return self.__hash__() == other.__hash__()
+        if not isinstance(other, Condition):
+            return False
+        return frozenset(self.to_hash) == frozenset(other.to_hash)
 
     @property
     def to_hash(self) -> Tuple[str]:
-- 
2.43.0


From b679078f6957d26413867a2b0ae9945fdb89f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:23 +0000
Subject: [PATCH 39/48] fix: predicting one row of a frame gives a series

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index c363adb..a818b70 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -516,7 +516,7 @@ class Rule(ABC):
             to_ret = to_ret.astype(f"<U{max(3, len(self.prediction))}")  # astype(str) would cut at 32 characters
         to_ret[act == 1] = self.prediction
         if xs is not None and not isinstance(xs, np.ndarray):
-            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze()  # So not to requier pandas explicitly
+            to_ret = xs.__class__(index=xs.index, data=to_ret).squeeze(axis=1)  # So not to requier pandas explicitly
         self._time_predict = time() - t0
         return to_ret
 
-- 
2.43.0


From 2361e56c773867113af0b809c6b4f8bb5ec90ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:23 +0000
Subject: [PATCH 40/48] fix: a failed stacked evaluation leaves no stale table
 of activations

---
 ruleskit/ruleset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index b9ac534..e40e8d8 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -586,12 +586,14 @@ class RuleSet(ABC):
                 # If self.stacked_activations is None, compute it from the rules' activations. They must be available.
                 if self.stacked_activations is None:
                     # Else, will compute the stacked activation from the current rules activations
-                    clean_activation = not self.stack_activation
-                    self.compute_stacked_activation()
+                    stacked_activations = self.evaluate_stacked_activations()
                     self.compute_self_activation()
-                    if self.stacked_activations is None:
+                    if stacked_activations is None:
                         raise ValueError("Rules activations must have been computed previously.")
-                stacked_activations = self.stacked_activations
+                    if self.stack_activation:
+                        self.stacked_activations = stacked_activations
+                else:
+                    stacked_activations = self.stacked_activations
                 activation = self._activation
                 # noinspection PyUnresolvedReferences
                 if "zscore" in self.rule_type.attributes_from_test_set:
-- 
2.43.0


From b074576bcbbb3ff96c3d38e4f7325de95af60ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:15 +0000
Subject: [PATCH 41/48] fix: repeating a fit that failed drops the bad rules

---
 ruleskit/ruleset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/ruleset.py b/ruleskit/ruleset.py
index e40e8d8..3e6dc98 100644
--- a/ruleskit/ruleset.py
+++ b/ruleskit/ruleset.py
@@ -409,7 +409,7 @@ class RuleSet(ABC):
             logger.debug("Ruleset is empty. Nothing to fit.")
             return []
 
-        if all([r._fitted for r in self]) and xs is None:
+        if all([r._fitted and r.good for r in self]) and xs is None:
             return []
 
         if self.__class__.STACKED_FIT:
-- 
2.43.0


From c61452f9e2b52837e2d877ba270ff6b8af038d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:22 +0000
Subject: [PATCH 42/48] fix: a condition whose bounds are changed can become
 possible again

---
 ruleskit/condition.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 9c7b6f7..1fe8598 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -321,9 +321,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
@@ -332,9 +331,8 @@ class HyperrectangleCondition(Condition):
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-        if any([a > b for a, b in zip(self.bmins, self.bmaxs)]):
-            # If a bmin is above its associated bmax, then the rule is impossible.
-            self.impossible = True
+        # If a bmin is above its associated bmax, then the rule is impossible.
+        self.impossible = any([a > b for a, b in zip(self.bmins, self.bmaxs)])
 
     def __repr__(self):
         return self.__str__()
-- 
2.43.0


From fff9f682d7aa6b2420af5313f06cd5832ca17157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:41 +0000
Subject: [PATCH 43/48] fix: bounds given as text are not rounded to integers

---
 ruleskit/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruleskit/condition.py b/ruleskit/condition.py
index 1fe8598..b2aaeb4 100644
--- a/ruleskit/condition.py
+++ b/ruleskit/condition.py
@@ -317,7 +317,7 @@ class HyperrectangleCondition(Condition):
     @bmins.setter
     def bmins(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmins")
         self._bmins = value
@@ -327,7 +327,7 @@ class HyperrectangleCondition(Condition):
     @bmaxs.setter
     def bmaxs(self, value: Union[List[Union[int, float]], str]):
         if isinstance(value, str):
-            value = [int(v) for v in ast.literal_eval(value)]
+            value = list(ast.literal_eval(value))
         if len(self) > 0 and len(self) != len(value):
             raise IndexError(f"Condition has {len(self)} features but you gave {len(value)} bmaxs")
         self._bmaxs = value
-- 
2.43.0


From 1fd4a57e626ae7ce6c2d3d311c647c9bb697354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:04 +0000
Subject: [PATCH 44/48] fix: setting the bounds of a rule changes its condition

---
 ruleskit/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/rule.py b/ruleskit/rule.py
index a818b70..46acc32 100644
--- a/ruleskit/rule.py
+++ b/ruleskit/rule.py
@@ -269,7 +269,7 @@ class Rule(ABC):
         if item.startswith("_"):
             super(Rule, self).__setattr__(item, value)
             return
-        if not hasattr(self, item):
+        if item not in self.__dict__ and not hasattr(self.__class__, item):
             if hasattr(self._activation, item):
                 setattr(self._activation, item, value)
             elif hasattr(self._condition, item):
-- 
2.43.0


From 2eb3f56ab4f0c87d39a43b278642a511ac8d0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:14 +0000
Subject: [PATCH 45/48] fix: rules can be extracted from trees of current
 scikit-learn versions without giving names

DecisionTree.n_features_ was removed in scikit-learn 1.2, so extract_rules_from_tree raised AttributeError whenever
features_names was not given.
---
 ruleskit/utils/rule_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index f268e6d..2a11fd7 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -95,7 +95,9 @@ def extract_rules_from_tree(
     """
     decision_tree = tree.tree_
     if features_names is None:
-        features_names = ["X_" + str(i) for i in range(tree.n_features_)]
+        # scikit-learn renamed 'n_features_'
+        n_features = tree.n_features_in_ if hasattr(tree, "n_features_in_") else tree.n_features_
+        features_names = ["X_" + str(i) for i in range(n_features)]
 
     def visitor(node, depth, condition=None, rules_list=None):
         if rules_list is None:
-- 
2.43.0


From 7d8f890e88f1199bdad94b215cab8640adab5ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:19 +0000
Subject: [PATCH 46/48] fix: the right side of a tree node keeps the upper
 bound set by the nodes above

When a tree tests the same feature twice (x <= 10, then x <= 5), the rule extracted for the right side of the second
test was x in [5, xmax] instead of x in [5, 10], so it was active at points that never reach that side.
---
 ruleskit/utils/rule_utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 2a11fd7..63463ad 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -163,21 +163,16 @@ def extract_rules_from_tree(
             )
 
             # Means we are not at first node. Same logic as previously, except this time
-            # if Xi is in the list of features then the new bmins is now the threshold
-            # and bmaxs is modified to be the X maximum. Then keep the max of current
-            # and new bmins as bmins, same for bmaxs.
-            # TODO there is something weird here, for X_i will necessarily be in cond, since
-            # it was added at the very beginning of the function.
+            # if Xi is in the list of features then the new bmins is the max of the current
+            # bmins and the threshold. bmaxs stays : a previous node may have set it.
             if condition is not None:
                 if decision_tree.feature[node] not in condition.features_indexes:
                     new_condition = condition & new_condition
                 else:
                     new_bmins = decision_tree.threshold[node]
-                    new_bmaxs = xmaxs[decision_tree.feature[node]]
                     new_condition = copy.deepcopy(condition)
                     place = new_condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmins[place] = max(new_bmins, new_condition.bmins[place])
-                    new_condition.bmaxs[place] = max(new_bmaxs, new_condition.bmaxs[place])
 
             # Create the rule for the right side of the node then apply this
             # function on the right side of the node
-- 
2.43.0


From 455c15b688a8fac7ddbaa214d8dace79bbd9ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:53 +0000
Subject: [PATCH 47/48] fix: a rule extracted from a tree predicts what the
 tree does at its points

Without get_leaf, both rules of a node were given the prediction of the node itself, i.e. of the points of both sides
together, although the rules with get_leaf for the very same conditions were given the prediction of their own points.
---
 ruleskit/utils/rule_utils.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 63463ad..6a7548b 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -127,25 +127,28 @@ def extract_rules_from_tree(
                     place = condition.features_indexes.index(decision_tree.feature[node])
                     new_condition.bmaxs[place] = min(new_bmaxs, new_condition.bmaxs[place])
 
+            # The prediction of a rule is the one of the node its points go to
+            left, right = decision_tree.children_left[node], decision_tree.children_right[node]
+
             # Create a new Rule with all the condition and append it to the rules
             # list. So the rule list is actually a history of how one rule evolved.
             if get_leaf is False:
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[left][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[left][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[left][0][0]
                 rules_list.append(new_rule)
 
             # Execute the current function on the left of the current node
             # (the "True" side)
-            rules_list = visitor(decision_tree.children_left[node], depth + 1, new_condition, rules_list)
+            rules_list = visitor(left, depth + 1, new_condition, rules_list)
 
             # At this point, any rule found on the left of the current node will be
             # in rules list and new_cond will contain the corresponding conditions.
@@ -180,17 +183,17 @@ def extract_rules_from_tree(
                 if isinstance(tree, DecisionTreeClassifier):
                     new_rule = ClassificationRule(copy.deepcopy(new_condition))
                     if classes_names is None:
-                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[node][0])]
+                        new_rule._prediction = [pred for pred in enumerate(decision_tree.value[right][0])]
                     else:
                         new_rule._prediction = [
-                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[node][0])
+                            (classes_names[i], pred) for i, pred in enumerate(decision_tree.value[right][0])
                         ]
                 else:
                     new_rule = RegressionRule(copy.deepcopy(new_condition))
-                    new_rule._prediction = decision_tree.value[node][0][0]
+                    new_rule._prediction = decision_tree.value[right][0][0]
                 rules_list.append(new_rule)
 
-            rules_list = visitor(decision_tree.children_right[node], depth + 1, new_condition, rules_list)
+            rules_list = visitor(right, depth + 1, new_condition, rules_list)
 
         elif get_leaf:
             if isinstance(tree, DecisionTreeClassifier):
-- 
2.43.0


From d9f702db796f0101bed8d7330426adc4fe3b1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:00 +0000
Subject: [PATCH 48/48] fix: extracting the leaves of a tree without any test
 gives an empty rule set

It raised AttributeError, while extracting all the branches gave an empty rule set already.
---
 ruleskit/utils/rule_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruleskit/utils/rule_utils.py b/ruleskit/utils/rule_utils.py
index 6a7548b..4302e18 100644
--- a/ruleskit/utils/rule_utils.py
+++ b/ruleskit/utils/rule_utils.py
@@ -195,7 +195,7 @@ def extract_rules_from_tree(
 
             rules_list = visitor(right, depth + 1, new_condition, rules_list)
 
-        elif get_leaf:
+        elif get_leaf and condition is not None:  # a tree that is a single leaf has no condition to give
             if isinstance(tree, DecisionTreeClassifier):
                 new_rule = ClassificationRule(copy.deepcopy(condition))
                 if classes_names is None:
-- 
2.43.0

