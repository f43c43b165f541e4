From 500e8fc9831f25822840551f10e1292d6ecbff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 01/57] fix: store a private floating point copy of added grids

---
 src/gempakio/encode/gempak.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 5a054a7..f9b2043 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -934,7 +934,11 @@ class GridFile(DataManagementFile):
         )
         self._column_set.add(self.make_column_header(*new_column))
 
-        self.data[new_column] = self._replace_nan(grid)
+        # Keep a private floating point copy. The caller's array must not be changed here
+        # and later changes to it must not end up in the file.
+        self.data[new_column] = self._replace_nan(
+            grid.astype(np.result_type(grid.dtype, np.float32))
+        )
 
         self.columns = len(self._column_set)
 
-- 
2.43.0


From 31ec201e1af22a7521c6ef82cd85ae5e4989a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 02/57] fix: accept string date_time in SurfaceFile.add_station

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index f9b2043..6916993 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1510,7 +1510,7 @@ class SurfaceFile(DataManagementFile):
                 std2 = stid[4:8]
                 stid = stid[:4]
 
-        new_row = (date_time.date(), date_time.time())
+        new_row = (self._datetime.date(), self._datetime.time())
         self._row_set.add(self.make_row_header(*new_row))
 
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-- 
2.43.0


From a231867890b84d89cc54ecc267cc8c70eb78498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 03/57] fix: round station coordinates to the nearest hundredth
 of a degree

---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6916993..c4b093f 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1303,7 +1303,7 @@ class SoundingFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
@@ -1569,7 +1569,7 @@ class SurfaceFile(DataManagementFile):
                     stream.write_string(getattr(ch, key))
                 elif 'i' in dtype:
                     if key in ['SLAT', 'SLON']:
-                        coord = int(getattr(ch, key) * 100)
+                        coord = round(getattr(ch, key) * 100)
                         stream.write_int(coord)
                     else:
                         stream.write_int(getattr(ch, key))
-- 
2.43.0


From 68d8fe6d0ff20bc3b1f7d9ab2132edf9f7c5c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 04/57] fix: pack grids over the range of their valid cells
 without reaching the missing flag

---
 src/gempakio/encode/gempak.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index c4b093f..2c07ff1 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -48,16 +48,16 @@ def pack_grib(grid, missing_float, nbits=16):
 
     out = np.zeros(lendat, dtype=np.int32)
 
-    has_missing = bool((grid == missing_float).any())
+    valid = grid != missing_float
+    has_missing = not valid.all()
 
-    all_missing = bool((grid == missing_float).all())
-
-    if all_missing:
+    if valid.any():
+        # Missing values are flagged, so they must not widen the range being packed
+        qmin = grid[valid].min()
+        qmax = grid[valid].max()
+    else:
         qmin = missing_float
         qmax = missing_float
-    else:
-        qmin = grid.min()
-        qmax = grid.max()
 
     qdiff = qmax - qmin
     idat = round(qdiff)
@@ -72,7 +72,7 @@ def pack_grib(grid, missing_float, nbits=16):
         nnnn = 0
         if abs(qdiff) > (2**-126 * imax):  # Smallest number for 32-bit float
             if idat >= imax:
-                while idat >= imax:
+                while round(idat) >= imax:
                     nnnn -= 1
                     idat = qdiff * 2**nnnn
             else:
@@ -83,8 +83,8 @@ def pack_grib(grid, missing_float, nbits=16):
 
         rgrid = grid.ravel()
         rgrid_round = np.where(
-            rgrid != missing_float,
-            np.round(np.maximum(rgrid - qmin, 0) * scale).astype('int32'),
+            valid.ravel(),
+            np.round(np.where(valid.ravel(), rgrid - qmin, 0) * scale).astype('int32'),
             imax,
         )
 
-- 
2.43.0


From 5f09c24ad9110146e773eab06d7673466eeb2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 05/57] fix: write and read grids that are small enough to pack
 into one word

---
 src/gempakio/decode/gempak.py | 2 +-
 src/gempakio/encode/gempak.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4667a3e..0485b02 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -919,7 +919,7 @@ class GempakGrid(GempakFile):
             packed_buffer = np.array(
                 self._buffer.read_struct(struct.Struct(packed_buffer_fmt)), dtype=np.int32
             )
-            if lendat > 1:
+            if lendat > 0:
                 missing_value = (
                     self.dm_label.missing_float if self.grid_meta_int.missing_flag else None
                 )
diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2c07ff1..06745e6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -97,7 +97,9 @@ def pack_grib(grid, missing_float, nbits=16):
         # The maximum number of input words covered by each output word (maybe tack on one for
         # the other part of any split words)
         any_split_words = (32 / nbits) != (32 // nbits)
-        n_input_words = np.diff(word_start_idxs).max() + (1 if any_split_words else 0)
+        n_input_words = np.diff(word_start_idxs, append=kxky).max() + (
+            1 if any_split_words else 0
+        )
 
         # Now construct 2d arrays of shifts and input indexes, where each array is the output
         # length by number of input words per output word
@@ -1019,9 +1021,9 @@ class GridFile(DataManagementFile):
 
         # Write a basic analysis block (type 2)
         rx1 = self.nx // 2
-        rx2 = rx1 + 1
+        rx2 = min(rx1 + 1, self.nx - 1)
         ry1 = self.ny // 2
-        ry2 = ry1 + 1
+        ry2 = min(ry1 + 1, self.ny - 1)
         dellon = self.lon[ry2, rx2] - self.lon[ry1, rx1]
         dellat = self.lat[ry2, rx2] - self.lat[ry1, rx1]
         deltan = np.sqrt(0.5 * (dellon**2 + dellat**2)) * 2
-- 
2.43.0


From 30409a0cc09ea4ee81cf34de8bb642c7f647ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 06/57] fix: check the length of date_time2 itself

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 06745e6..a1f23e9 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -883,7 +883,7 @@ class GridFile(DataManagementFile):
         grid_type2 = 0
         if date_time2 is not None:
             if isinstance(date_time2, str):
-                if len(date_time) < 12:
+                if len(date_time2) < 12:
                     raise ValueError(
                         f'{date_time2} does not match minimum format of YYYYmmddHHMM.'
                     )
-- 
2.43.0


From c666ad3c4f34a5b54c188f2487767e668374828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 07/57] fix: keep the hour and minute of grids with explicit
 analysis type

---
 src/gempakio/encode/gempak.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index a1f23e9..84f270e 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -859,6 +859,11 @@ class GridFile(DataManagementFile):
                 else:
                     forecast_hour = 0 if fhr == '' else int(fhr)
                 grid_type = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                if grid_type == 0:
+                    # Analyses are labeled by valid date and time
+                    init_date += timedelta(hours=forecast_hour, minutes=forecast_minute)
+                    forecast_hour = init_date.hour
+                    forecast_minute = init_date.minute
             elif len(split_time) > 3:
                 raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
             else:
@@ -900,6 +905,13 @@ class GridFile(DataManagementFile):
                     else:
                         forecast_hour2 = 0 if fhr == '' else int(fhr)
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
+                    if grid_type2 == 0:
+                        # Analyses are labeled by valid date and time
+                        init_date2 += timedelta(
+                            hours=forecast_hour2, minutes=forecast_minute2
+                        )
+                        forecast_hour2 = init_date2.hour
+                        forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
                         raise ValueError('Grid type mismatch in date_time and date_time2.')
                 elif len(split_time) > 3:
-- 
2.43.0


From 6c24fcbd6831f117025460fea2549f674bf95950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 08/57] fix: check the header limit before adding to the file

A rejected grid, sounding or station was still counted and written. At the
limit, replacing an entry that is already in the file must remain possible.
---
 src/gempakio/encode/gempak.py | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 84f270e..2956774 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -316,6 +316,14 @@ class DataManagementFile:
         self.make_column_header = namedtuple('ColumnHeader', self.column_names)
         self.make_row_header = namedtuple('RowHeader', self.row_names)
 
+    def _check_header_limit(self, rows=(), columns=()):
+        """Check that there is room for headers before they are added."""
+        count = self.rows + self.columns
+        count += sum(rh not in self._row_set for rh in rows)
+        count += sum(ch not in self._column_set for ch in columns)
+        if count > MMHDRS:
+            raise ValueError('Exceeded maximum number data entries.')
+
     def _replace_nan(self, array):
         """Replace nan values from an array with missing value."""
         nan_loc = np.isnan(array)
@@ -946,7 +954,9 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
-        self._column_set.add(self.make_column_header(*new_column))
+        header = self.make_column_header(*new_column)
+        self._check_header_limit(columns=[header])
+        self._column_set.add(header)
 
         # Keep a private floating point copy. The caller's array must not be changed here
         # and later changes to it must not end up in the file.
@@ -956,9 +966,6 @@ class GridFile(DataManagementFile):
 
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
@@ -1259,19 +1266,19 @@ class SoundingFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2)
-        self._column_set.add(self.make_column_header(*new_column))
+
+        row_header = self.make_row_header(*new_row)
+        column_header = self.make_column_header(*new_column)
+        self._check_header_limit(rows=[row_header], columns=[column_header])
+        self._row_set.add(row_header)
+        self._column_set.add(column_header)
 
         self.data[(new_row, new_column)] = params._asdict()
 
         self.rows = len(self._row_set)
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
@@ -1525,19 +1532,19 @@ class SurfaceFile(DataManagementFile):
                 stid = stid[:4]
 
         new_row = (self._datetime.date(), self._datetime.time())
-        self._row_set.add(self.make_row_header(*new_row))
-
         new_column = (stid, stnm, slat, slon, selv, stat, coun, std2, spri)
-        self._column_set.add(self.make_column_header(*new_column))
+
+        row_header = self.make_row_header(*new_row)
+        column_header = self.make_column_header(*new_column)
+        self._check_header_limit(rows=[row_header], columns=[column_header])
+        self._row_set.add(row_header)
+        self._column_set.add(column_header)
 
         self.data[(new_row, new_column)] = params._asdict()
 
         self.rows = len(self._row_set)
         self.columns = len(self._column_set)
 
-        if self.rows + self.columns > MMHDRS:
-            raise ValueError('Exceeded maximum number data entries.')
-
         self.column_headers = sorted(self._column_set)
         self.row_headers = sorted(self._row_set)
 
-- 
2.43.0


From 67a954b37da7f814ebf708b9b7d0c329b3fd67ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 09/57] fix: sort grids with and without a second date and time

Adding a grid without date_time2 to a file that has one with date_time2, or
the other way around, raised a TypeError.
---
 src/gempakio/encode/gempak.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2956774..b9cabc0 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -954,19 +954,22 @@ class GridFile(DataManagementFile):
             gpm2,
             gpm3,
         )
+        # Keep a private floating point copy. The caller's array must not be changed here
+        # and later changes to it must not end up in the file.
+        values = self._replace_nan(grid.astype(np.result_type(grid.dtype, np.float32)))
+
         header = self.make_column_header(*new_column)
         self._check_header_limit(columns=[header])
         self._column_set.add(header)
-
-        # Keep a private floating point copy. The caller's array must not be changed here
-        # and later changes to it must not end up in the file.
-        self.data[new_column] = self._replace_nan(
-            grid.astype(np.result_type(grid.dtype, np.float32))
-        )
+        self.data[new_column] = values
 
         self.columns = len(self._column_set)
 
-        self.column_headers = sorted(self._column_set)
+        self.column_headers = sorted(
+            # Grids without a second date and time come before those that have one
+            self._column_set,
+            key=lambda header: header._replace(GDT2=header.GDT2 or (-1,)),
+        )
         self.row_headers = sorted(self._row_set)
 
     def _pack_grib(self, grid, nbits=16):
-- 
2.43.0


From cbfde7e31dc09feec4041cd6bdb33dc0c97d81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 10/57] fix: include the extended station ID of soundings

Sounding station IDs longer than four characters are written with the rest in
STD2, but the decoder dropped it.
---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 0485b02..bded856 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1223,7 +1223,7 @@ class GempakSounding(GempakFile):
                             irow,
                             icol,
                             datetime.combine(row_head.DATE, row_head.TIME),
-                            col_head.STID,
+                            col_head.STID + getattr(col_head, 'STD2', ''),
                             col_head.STNM,
                             col_head.SLAT,
                             col_head.SLON,
@@ -1244,7 +1244,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
@@ -1305,7 +1305,7 @@ class GempakSounding(GempakFile):
             row_head = self.row_headers[irow]
             col_head = self.column_headers[icol]
             sounding = {
-                'STID': col_head.STID,
+                'STID': col_head.STID + getattr(col_head, 'STD2', ''),
                 'STNM': col_head.STNM,
                 'SLAT': col_head.SLAT,
                 'SLON': col_head.SLON,
-- 
2.43.0


From c78bfb98742a6b5e83b7d71a111aa72c2f253050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 11/57] fix: decode soundings that have no levels

---
 src/gempakio/decode/gempak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index bded856..317b96e 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2135,7 +2135,8 @@ class GempakSounding(GempakFile):
 
             if 'PRES' in snd:
                 vcoord = 'pres'
-                attrs['station_pressure'] = snd['PRES'][0]
+                if len(snd['PRES']):
+                    attrs['station_pressure'] = snd['PRES'][0]
             elif 'HGHT' in snd:
                 vcoord = 'hght'
             else:
-- 
2.43.0


From 1da7b4e6431a4b03b745feb707179ec9ce25f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 12/57] fix: encode all VGF elements before opening the output
 file

An element that cannot be encoded truncated an existing file and left a part of
the elements in it.
---
 src/gempakio/encode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index d7c5094..7342dd2 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -1697,6 +1697,8 @@ class VGFile:
         ----------
         path : str of `path.Pathlib`
         """
+        # Encode everything first so that an existing file is not lost when that fails
+        encoded = b''.join(e.encode() for e in self.elements)
+
         with open(path, 'wb') as out:
-            for e in self.elements:
-                out.write(e.encode())
+            out.write(encoded)
-- 
2.43.0


From 41b60f8f5cca150ded6b4788a0204b9869c1d4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 13/57] fix: use the encoded length of special text

Text with other than ASCII characters was cut to as many bytes as it has
characters.
---
 src/gempakio/encode/vgf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index 7342dd2..ee518e1 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -561,7 +561,7 @@ class TextBase(Element):
 
         if not isinstance(text, str):
             raise TypeError('text must be a string.')
-        elif len(text + '\x00') > 255:
+        elif len((text + '\x00').encode()) > 255:
             raise ValueError('text string exceeds 255 character limit.')
         self._text = text + '\x00'
 
@@ -1382,7 +1382,9 @@ class SpecialText(TextBase):
         self.facecolor = text_color if facecolor is None else facecolor
         self.turbulence_symbol = turbulence_symbol
         self._record_size = (
-            self.element_header_struct.size + self.special_text_struct.size + len(self._text)
+            self.element_header_struct.size
+            + self.special_text_struct.size
+            + len(self._text.encode())
         )
 
     @property
@@ -1463,9 +1465,7 @@ class SpecialText(TextBase):
             offset_y=self._offset_y,
         )
 
-        text = struct.pack(f'{len(self._text)}s', self._text.encode())
-
-        return header + info + text
+        return header + info + self._text.encode()
 
 
 class SymbolBase(Element):
-- 
2.43.0


From c5108818ccc81a16f270a6afbc90789420b4d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 14/57] fix: continue after each VGF element at the end of its
 record

Elements that follow an ash cloud were lost, and a file that ends within the
blank part of an element was decoded as if it were complete.
---
 src/gempakio/decode/vgf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 9c1898a..32857a6 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2885,6 +2885,8 @@ class VectorGraphicFile:
         with open(file, 'rb') as fobj:
             self._buffer = IOBuffer.fromfile(fobj)
 
+        self._start = self._buffer.set_mark()
+
         if sys.byteorder == 'little':
             self.prefmt = '>'
         else:
@@ -5041,6 +5043,7 @@ class VectorGraphicFile:
         """Decode elements of a VGF."""
         more = True
 
+        start = 0
         while not self._buffer.at_end() and more:
             header_struct = self._read_header()
 
@@ -5057,6 +5060,10 @@ class VectorGraphicFile:
                 more = False
                 continue
 
+            start += rec_size
+            if start > len(self._buffer):
+                raise ValueError('File ends within an element.')
+
             group_info = header_struct.group_type
 
             # Ignores the file header group
@@ -5158,6 +5165,10 @@ class VectorGraphicFile:
                 )
                 _ = self._buffer.skip(header_struct.record_size - VGF_HEADER_SIZE)
 
+            # The next element starts where this record ends. Not every element fills or
+            # stays within the sizes assumed above (e.g., ash clouds have no blank points).
+            self._buffer.jump_to(self._start, start)
+
     def _validate_header(self, header_struct):
         """Validate VGF header."""
         size = len(self._buffer._data)
-- 
2.43.0


From 6ffe59250c9dffde8cc77f378f9cf5b20c9cc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 15/57] fix: stop at VGF records that are smaller than their
 header

They made decoding go backwards in the file and never end.
---
 src/gempakio/decode/vgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 32857a6..06e060a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -5190,6 +5190,7 @@ class VectorGraphicFile:
             or minor_color < 0
             or minor_color > 32
             or rec_size > size
+            or rec_size < VGF_HEADER_SIZE
         )
 
     def _get_latlon(self, points):
-- 
2.43.0


From 6113a92d417f53fc9652b33cfbb71798f4e80ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 16/57] fix: raise when reading beyond the end of a file

IOBuffer.read and read_int returned fewer bytes than asked for, so that a torn
file lost headers and data silently.
---
 src/gempakio/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index bc3883f..fa13759 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -154,6 +154,8 @@ class IOBuffer:
     def read(self, num_bytes=None):
         """Read and return the specified bytes from the buffer."""
         res = self.get_next(num_bytes)
+        if num_bytes is not None and len(res) != num_bytes:
+            raise EOFError(f'Cannot read {num_bytes} bytes at {self._offset}.')
         self.skip(len(res))
         return res
 
-- 
2.43.0


From 1d7d119e6ab2a7d9001b2b29de0f0142140b1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:10 +0000
Subject: [PATCH 17/57] fix: reject counts and sizes that do not fit in the
 file

Damaged counts, grid dimensions, bit counts or decimal scales made opening or
querying a file run for ages or exhaust the memory.
---
 src/gempakio/decode/gempak.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 317b96e..7e23d78 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -332,6 +332,11 @@ class GempakFile:
             NamedStruct(self.dm_label_fmt, self.prefmt, 'ProductDescription')
         )
 
+        # Everything counted in the label takes up at least one word in the file
+        for count in ['file_headers', 'rows', 'row_keys', 'columns', 'column_keys', 'parts']:
+            if getattr(self.dm_label, count) > len(self._buffer) // BYTES_PER_WORD:
+                raise ValueError(f'Number of {count} exceeds the size of the file.')
+
         # File Keys
         # Surface and upper-air files will not have the file headers, so we need to check.
         if self.dm_label.file_headers > 0:
@@ -364,6 +369,10 @@ class GempakFile:
                 )
             self.kx = int(self.navigation_block.right_grid_number)
             self.ky = int(self.navigation_block.top_grid_number)
+            # A grid point takes up at least one bit in the file. Small grids are always fine
+            # as files do not need to have any grids in them.
+            if max(self.kx, 1) * max(self.ky, 1) > max(8 * len(self._buffer), 2**20):
+                raise ValueError('Grid dimensions exceed the size of the file.')
 
             # Analysis Block
             anlb_size = self._buffer.read_int(4, self.endian, False)
@@ -562,6 +571,9 @@ class GempakFile:
         nparms = len(parameters['name'])
         mskpat = 0xFFFFFFFF
 
+        if not all(1 <= bits <= 32 for bits in parameters['bits']):
+            raise ValueError('Number of bits must be in range [1, 32].')
+
         pwords = (sum(parameters['bits']) - 1) // 32 + 1
         npack = (length - 1) // pwords + 1
         unpacked = np.ones(npack * nparms, dtype=np.float32) * self.dm_label.missing_float
@@ -575,7 +587,7 @@ class GempakFile:
             rdat = unpacked[ir : (ir + nparms)]
             itotal = 0
             for idata in range(nparms):
-                scale = 10 ** parameters['scale'][idata]
+                scale = 10.0 ** parameters['scale'][idata]
                 offset = parameters['offset'][idata]
                 bits = parameters['bits'][idata]
                 isbitc = (itotal % 32) + 1
@@ -803,6 +815,13 @@ class GempakGrid(GempakFile):
         self.lon = self.lon.astype(np.float32)
         self.lat = self.lat.astype(np.float32)
 
+    def _check_grid_meta(self):
+        """Check that packed data can belong to a grid of this file."""
+        if not 1 <= self.grid_meta_int.bits <= 32:
+            raise ValueError('Number of bits must be in range [1, 32].')
+        if self.grid_meta_int.kxky != self.kx * self.ky:
+            raise ValueError('Number of packed values does not match the grid dimensions.')
+
     def _unpack_grid(self, packing_type, part):
         """Read raw GEMPAK grid integers and unpack into floats."""
         if packing_type == PackingType.none:
@@ -845,6 +864,7 @@ class GempakGrid(GempakFile):
             )
             # grid_start = self._buffer.set_mark()
 
+            self._check_grid_meta()
             imiss = 2**self.grid_meta_int.bits - 1
             lendat = self.data_header_length - part.header_length - 8
             packed_buffer_fmt = f'{self.prefmt}{lendat}i'
@@ -911,6 +931,7 @@ class GempakGrid(GempakFile):
             )
             # grid_start = self._buffer.set_mark()
 
+            self._check_grid_meta()
             lendat = self.data_header_length - part.header_length - 6
             packed_buffer_fmt = f'{self.prefmt}{lendat}i'
 
-- 
2.43.0


From dde60132ea83a932d0118a8ed3f5405561f583f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 18/57] fix: do not change date_time filters in place

Lists of strings given by the caller were overwritten with datetimes, tuples of
strings and arrays raised.
---
 src/gempakio/decode/gempak.py | 53 +++++++++++------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7e23d78..49a367b 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -123,6 +123,19 @@ Surface = namedtuple(
 )
 
 
+def _parse_date_time(date_time):
+    """Convert a date and time filter to a list unless it is first or last."""
+    if isinstance(date_time, str) and date_time in ['first', 'FIRST', 'last', 'LAST']:
+        return date_time
+
+    if not isinstance(date_time, Iterable) or isinstance(date_time, str):
+        date_time = [date_time]
+
+    return [
+        datetime.strptime(dt, '%Y%m%d%H%M') if isinstance(dt, str) else dt for dt in date_time
+    ]
+
+
 def _bbox_filter(lat, lon, bbox):
     """Filter stations by bbox.
 
@@ -1035,15 +1048,7 @@ class GempakGrid(GempakFile):
             parameter = [p.upper() for p in parameter]
 
         if date_time is not None:
-            if not isinstance(date_time, Iterable) or (
-                isinstance(date_time, str)
-                and date_time not in ['first', 'FIRST', 'last', 'LAST']
-            ):
-                date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            date_time = _parse_date_time(date_time)
 
         if coordinate is not None:
             if not isinstance(coordinate, Iterable) or isinstance(coordinate, str):
@@ -1054,15 +1059,7 @@ class GempakGrid(GempakFile):
             level = [level]
 
         if date_time2 is not None:
-            if not isinstance(date_time2, Iterable) or (
-                isinstance(date_time2, str)
-                and date_time2 not in ['first', 'FIRST', 'last', 'LAST']
-            ):
-                date_time2 = [date_time2]
-            if date_time2 not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time2):
-                    if isinstance(dt, str):
-                        date_time2[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            date_time2 = _parse_date_time(date_time2)
 
         if level2 is not None and not isinstance(level2, Iterable):
             level2 = [level2]
@@ -2082,15 +2079,7 @@ class GempakSounding(GempakFile):
             station_number = [int(sn) for sn in station_number]
 
         if date_time is not None:
-            if not isinstance(date_time, Iterable) or (
-                isinstance(date_time, str)
-                and date_time not in ['first', 'FIRST', 'last', 'LAST']
-            ):
-                date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            date_time = _parse_date_time(date_time)
 
         if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
             state = [state]
@@ -2828,15 +2817,7 @@ class GempakSurface(GempakFile):
             station_number = [int(sn) for sn in station_number]
 
         if date_time is not None:
-            if not isinstance(date_time, Iterable) or (
-                isinstance(date_time, str)
-                and date_time not in ['first', 'FIRST', 'last', 'LAST']
-            ):
-                date_time = [date_time]
-            if date_time not in ['first', 'FIRST', 'last', 'LAST']:
-                for i, dt in enumerate(date_time):
-                    if isinstance(dt, str):
-                        date_time[i] = datetime.strptime(dt, '%Y%m%d%H%M')
+            date_time = _parse_date_time(date_time)
 
         if state is not None:
             if not isinstance(state, Iterable) or isinstance(state, str):
-- 
2.43.0


From 091cc38fe8ea71c3d64ea84a1b0fa0196edf2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 19/57] fix: stop the search for a level with height at the top
 of the sounding

---
 src/gempakio/gemcalc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 4ed9cc6..9f179e1 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -51,12 +51,11 @@ def interp_logp_height(sounding, missing=-9999):
             continue
         else:
             ilev = i + 1
-            while pres <= ptop:
+            while pres <= ptop and ilev <= maxlev:
                 if sounding['HGHT'][ilev] != missing:
                     ptop = sounding['PRES'][ilev]
                     ztop = sounding['HGHT'][ilev]
-                else:
-                    ilev += 1
+                ilev += 1
             sounding['HGHT'][i] = zbot + (ztop - zbot) * (
                 np.log(pres / pbot) / np.log(ptop / pbot)
             )
-- 
2.43.0


From e7454c5ef8fd808b9bb088db4d985e374210cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 20/57] fix: ignore the case of state and country lists of
 soundings

---
 src/gempakio/decode/gempak.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 49a367b..4585b13 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2081,14 +2081,14 @@ class GempakSounding(GempakFile):
         if date_time is not None:
             date_time = _parse_date_time(date_time)
 
-        if state is not None and (not isinstance(state, Iterable) or isinstance(state, str)):
-            state = [state]
+        if state is not None:
+            if not isinstance(state, Iterable) or isinstance(state, str):
+                state = [state]
             state = [s.upper() for s in state]
 
-        if country is not None and (
-            not isinstance(country, Iterable) or isinstance(country, str)
-        ):
-            country = [country]
+        if country is not None:
+            if not isinstance(country, Iterable) or isinstance(country, str):
+                country = [country]
             country = [c.upper() for c in country]
 
         # Figure out which columns to extract from the file
-- 
2.43.0


From bf975bbd12bc7d801bef0c8ab5f2be98d7c98db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 21/57] fix: find first and last date_time2 of files with grids
 that have none

---
 src/gempakio/decode/gempak.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 4585b13..8367ba9 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1075,9 +1075,11 @@ class GempakGrid(GempakFile):
             date_time = [min(d.DATTIM1 for d in matched)]
 
         if date_time2 in ['last', 'LAST']:
-            date_time2 = [max(d.DATTIM2 for d in matched)]
+            dattim2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
+            date_time2 = [max(dattim2)] if dattim2 else []
         elif date_time2 in ['first', 'FIRST']:
-            date_time2 = [min(d.DATTIM2 for d in matched)]
+            dattim2 = [d.DATTIM2 for d in matched if d.DATTIM2 is not None]
+            date_time2 = [min(dattim2)] if dattim2 else []
 
         if parameter is not None:
             matched = filter(lambda grid: grid.PARM in parameter, matched)
-- 
2.43.0


From b9d1b8a97829b8c4ba8cb7a72c223b79488023ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 22/57] fix: take a string station_number as one number

---
 src/gempakio/decode/gempak.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8367ba9..3b562e0 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2076,7 +2076,7 @@ class GempakSounding(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2709,7 +2709,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
@@ -2814,7 +2814,7 @@ class GempakSurface(GempakFile):
             station_id = [c.upper() for c in station_id]
 
         if station_number is not None:
-            if not isinstance(station_number, Iterable):
+            if not isinstance(station_number, Iterable) or isinstance(station_number, str):
                 station_number = [station_number]
             station_number = [int(sn) for sn in station_number]
 
-- 
2.43.0


From 40a74534d7079ea95e5462b8d441ee93a44cedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 23/57] fix: find the nearest time of station number zero

---
 src/gempakio/decode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3b562e0..18b084d 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -2695,7 +2695,9 @@ class GempakSurface(GempakFile):
         if isinstance(date_time, str):
             date_time = datetime.strptime(date_time, '%Y%m%d%H%M')
 
-        nargs = sum(map(bool, [station_id, station_number, state, country, bbox]))
+        nargs = sum(
+            arg is not None for arg in [station_id, station_number, state, country, bbox]
+        )
 
         if nargs == 0:
             raise ValueError('Must have one filter.')
-- 
2.43.0


From 20f0c683a00907e90c84f310b5440222d3dd65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 24/57] fix: select nearest times within the area and in the
 order of the file

---
 src/gempakio/decode/gempak.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 18b084d..0c7b9d8 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -40,7 +40,7 @@ from gempakio.gemcalc import (
     interp_missing_data,
     interp_moist_height,
 )
-from gempakio.tools import IOBuffer, NamedStruct
+from gempakio.tools import IOBuffer, NamedStruct, OrderedSet
 
 logger = logging.getLogger(__name__)
 
@@ -2725,25 +2725,31 @@ class GempakSurface(GempakFile):
                 state = [state]
             state = [s.upper() for s in state]
 
+        # Stations are kept in the order of the file
         if bbox is not None:
-            station_id = {
-                stn.ID for stn in self._sfinfo if _bbox_filter(stn.LAT, stn.LON, bbox)
-            }
+            station_id = OrderedSet(
+                stn.ID for stn in self.sfinfo() if _bbox_filter(stn.LAT, stn.LON, bbox)
+            )
 
-        if country:
-            station_id = set()
-            for cty in country:
-                station_id.update(stn.ID for stn in self._sfinfo if cty == stn.COUNTRY)
+        if country is not None:
+            station_id = OrderedSet(
+                stn.ID for stn in self.sfinfo() if stn.COUNTRY in country
+            )
 
-        if state:
-            station_id = set()
-            for st in state:
-                station_id.update(stn.ID for stn in self._sfinfo if st == stn.STATE)
+        if state is not None:
+            station_id = OrderedSet(stn.ID for stn in self.sfinfo() if stn.STATE in state)
 
         time_matched = []
         if station_id:
             for stn in station_id:
-                matched = self.sfjson(station_id=stn, include_special=include_special)
+                # The same ID can be used in other states and countries
+                matched = self.sfjson(
+                    station_id=stn,
+                    state=state,
+                    country=country,
+                    bbox=bbox,
+                    include_special=include_special,
+                )
 
                 nearest = min(
                     matched, key=lambda d: abs(d['properties']['date_time'] - date_time)
-- 
2.43.0


From b28eb301e5ed87db1013d22460327391cbc74668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 25/57] fix: give each query its own position in the data

---
 src/gempakio/decode/gempak.py | 38 +++++++++++++++++++++++------------
 src/gempakio/tools.py         |  7 +++++++
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 0c7b9d8..7b42f69 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -6,7 +6,7 @@
 import bisect
 from collections import namedtuple
 from collections.abc import Iterable
-from copy import deepcopy
+from copy import copy, deepcopy
 import ctypes
 from datetime import datetime, timedelta
 from itertools import product
@@ -473,6 +473,15 @@ class GempakFile:
                     else:
                         self.parameters[n][attr] += self._buffer.read_binary(*fmt)
 
+    def _reader(self):
+        """Return a copy with its own position in the data.
+
+        Queries read with this so that they can run at the same time.
+        """
+        reader = copy(self)
+        reader._buffer = self._buffer.copy()
+        return reader
+
     def _swap_bytes(self, binary):
         """Swap between little and big endian."""
         self.swapped_bytes = struct.pack('@i', 1) != binary
@@ -1106,6 +1115,7 @@ class GempakGrid(GempakFile):
 
         gridno = [g.GRIDNO for g in matched]
 
+        reader = self._reader()
         grids = []
         irow = 0  # Only one row for grids
         for icol in gridno:
@@ -1116,13 +1126,13 @@ class GempakGrid(GempakFile):
                     + (irow * self.dm_label.columns * self.dm_label.parts)
                     + (icol * self.dm_label.parts + iprt)
                 )
-                self._buffer.jump_to(self._start, _word_to_position(pointer))
-                self.data_ptr = self._buffer.read_int(4, self.endian, False)
-                self._buffer.jump_to(self._start, _word_to_position(self.data_ptr))
-                self.data_header_length = self._buffer.read_int(4, self.endian, False)
-                data_header = self._buffer.set_mark()
-                self._buffer.jump_to(data_header, _word_to_position(part.header_length + 1))
-                packing_type = PackingType(self._buffer.read_int(4, self.endian, False))
+                reader._buffer.jump_to(self._start, _word_to_position(pointer))
+                reader.data_ptr = reader._buffer.read_int(4, self.endian, False)
+                reader._buffer.jump_to(self._start, _word_to_position(reader.data_ptr))
+                reader.data_header_length = reader._buffer.read_int(4, self.endian, False)
+                data_header = reader._buffer.set_mark()
+                reader._buffer.jump_to(data_header, _word_to_position(part.header_length + 1))
+                packing_type = PackingType(reader._buffer.read_int(4, self.endian, False))
 
                 full_name = col_head.GPM1 + col_head.GPM2 + col_head.GPM3
                 ftype, ftime = col_head.GTM1
@@ -1133,7 +1143,7 @@ class GempakGrid(GempakFile):
                     if full_name in GVCORD_TO_VAR
                     else full_name.lower()
                 )
-                data = self._unpack_grid(packing_type, part)
+                data = reader._unpack_grid(packing_type, part)
                 if data is not None:
                     if data.ndim < 2:
                         data = np.ma.array(
@@ -2128,7 +2138,8 @@ class GempakSounding(GempakFile):
 
         sndno = [(s.DTNO, s.SNDNO) for s in matched]
 
-        data = self._unpack_merged(sndno) if self.merged else self._unpack_unmerged(sndno)
+        reader = self._reader()
+        data = reader._unpack_merged(sndno) if self.merged else reader._unpack_unmerged(sndno)
 
         soundings = []
         for snd in data:
@@ -2874,12 +2885,13 @@ class GempakSurface(GempakFile):
 
         sfcno = [(s.ROW, s.COL) for s in matched]
 
+        reader = self._reader()
         if self.surface_type == 'standard':
-            data = self._unpack_standard(sfcno)
+            data = reader._unpack_standard(sfcno)
         elif self.surface_type == 'ship':
-            data = self._unpack_ship(sfcno)
+            data = reader._unpack_ship(sfcno)
         elif self.surface_type == 'climate':
-            data = self._unpack_climate(sfcno)
+            data = reader._unpack_climate(sfcno)
 
         stnarr = []
         for stn in data:
diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index fa13759..1224d3d 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -6,6 +6,7 @@
 
 from collections import namedtuple
 from collections.abc import MutableSet
+from copy import copy
 import struct
 
 import numpy as np
@@ -84,6 +85,12 @@ class IOBuffer:
         """Initialize the IOBuffer with the contents of the file object."""
         return cls(fobj.read())
 
+    def copy(self):
+        """Return a buffer of the same data with its own position and marks."""
+        buffer = copy(self)
+        buffer._bookmarks = self._bookmarks.copy()
+        return buffer
+
     def reset(self):
         """Reset buffer back to initial state."""
         self._offset = 0
-- 
2.43.0


From e95a4666fa2ddda097280886f251fd277220b8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 26/57] fix: keep data with its headers when a file has unused
 headers

---
 src/gempakio/decode/gempak.py | 90 ++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 7b42f69..3b5e533 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -663,16 +663,21 @@ class GempakGrid(GempakFile):
         # no real need to keep track of that in Python.
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_numbers = []
         row_headers_info = [(key, 'i') for key in self.row_keys]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_numbers.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_numbers = []
         column_headers_info = [
             (key, 'i', self._convert_level)
             if key in level_names
@@ -689,9 +694,12 @@ class GempakGrid(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_numbers.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._gdinfo = set()
         for n, head in enumerate(self.column_headers):
@@ -1124,7 +1132,7 @@ class GempakGrid(GempakFile):
                 pointer = (
                     self.dm_label.data_block_ptr
                     + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 reader._buffer.jump_to(self._start, _word_to_position(pointer))
                 reader.data_ptr = reader._buffer.read_int(4, self.endian, False)
@@ -1190,6 +1198,7 @@ class GempakSounding(GempakFile):
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_numbers = []
         row_headers_info = [
             (key, 'i', self._make_date)
             if key == 'DATE'
@@ -1200,13 +1209,17 @@ class GempakSounding(GempakFile):
         ]
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_numbers.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_numbers = []
         column_headers_info = [
             (key, '4s', self._decode_strip)
             if key == 'STID'
@@ -1229,9 +1242,12 @@ class GempakSounding(GempakFile):
         ]
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_numbers.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self.merged = 'SNDT' in (part.name for part in self.parts)
 
@@ -1240,8 +1256,8 @@ class GempakSounding(GempakFile):
             for icol, col_head in enumerate(self.column_headers):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts)
                 )
 
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -1287,8 +1303,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -1348,8 +1364,8 @@ class GempakSounding(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2214,22 +2230,30 @@ class GempakSurface(GempakFile):
         # Row Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.row_headers_ptr))
         self.row_headers = []
+        self._row_numbers = []
         row_headers_info = self._key_types(self.row_keys)
         row_headers_info.extend([(None, None)])
         row_headers_fmt = NamedStruct(row_headers_info, self.prefmt, 'RowHeaders')
-        for _ in range(1, self.dm_label.rows + 1):
+        for n in range(self.dm_label.rows):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.row_headers.append(self._buffer.read_struct(row_headers_fmt))
+                self._row_numbers.append(n)
+            else:
+                self._buffer.skip(row_headers_fmt.size)
 
         # Column Headers
         self._buffer.jump_to(self._start, _word_to_position(self.dm_label.column_headers_ptr))
         self.column_headers = []
+        self._column_numbers = []
         column_headers_info = self._key_types(self.column_keys)
         column_headers_info.extend([(None, None)])
         column_headers_fmt = NamedStruct(column_headers_info, self.prefmt, 'ColumnHeaders')
-        for _ in range(1, self.dm_label.columns + 1):
+        for n in range(self.dm_label.columns):
             if self._buffer.read_int(4, self.endian, False) == USED_FLAG:
                 self.column_headers.append(self._buffer.read_struct(column_headers_fmt))
+                self._column_numbers.append(n)
+            else:
+                self._buffer.skip(column_headers_fmt.size)
 
         self._get_surface_type()
 
@@ -2240,8 +2264,12 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (
+                                self._row_numbers[irow]
+                                * self.dm_label.columns
+                                * self.dm_label.parts
+                            )
+                            + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2268,8 +2296,12 @@ class GempakSurface(GempakFile):
                 for iprt in range(len(self.parts)):
                     pointer = (
                         self.dm_label.data_block_ptr
-                        + (irow * self.dm_label.columns * self.dm_label.parts)
-                        + (icol * self.dm_label.parts + iprt)
+                        + (
+                            self._row_numbers[irow]
+                            * self.dm_label.columns
+                            * self.dm_label.parts
+                        )
+                        + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                     )
 
                     self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2296,8 +2328,12 @@ class GempakSurface(GempakFile):
                     for iprt in range(len(self.parts)):
                         pointer = (
                             self.dm_label.data_block_ptr
-                            + (irow * self.dm_label.columns * self.dm_label.parts)
-                            + (icol * self.dm_label.parts + iprt)
+                            + (
+                                self._row_numbers[irow]
+                                * self.dm_label.columns
+                                * self.dm_label.parts
+                            )
+                            + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                         )
 
                         self._buffer.jump_to(self._start, _word_to_position(pointer))
@@ -2394,8 +2430,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2459,8 +2495,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2526,8 +2562,8 @@ class GempakSurface(GempakFile):
             for iprt, part in enumerate(self.parts):
                 pointer = (
                     self.dm_label.data_block_ptr
-                    + (irow * self.dm_label.columns * self.dm_label.parts)
-                    + (icol * self.dm_label.parts + iprt)
+                    + (self._row_numbers[irow] * self.dm_label.columns * self.dm_label.parts)
+                    + (self._column_numbers[icol] * self.dm_label.parts + iprt)
                 )
                 self._buffer.jump_to(self._start, _word_to_position(pointer))
                 self.data_ptr = self._buffer.read_int(4, self.endian, False)
@@ -2743,9 +2779,7 @@ class GempakSurface(GempakFile):
             )
 
         if country is not None:
-            station_id = OrderedSet(
-                stn.ID for stn in self.sfinfo() if stn.COUNTRY in country
-            )
+            station_id = OrderedSet(stn.ID for stn in self.sfinfo() if stn.COUNTRY in country)
 
         if state is not None:
             station_id = OrderedSet(stn.ID for stn in self.sfinfo() if stn.STATE in state)
-- 
2.43.0


From 8bd05f442b24ff8a0f466e4a67b8b460f974daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 27/57] fix: GridFile keeps its own copy of the grid
 coordinates

---
 src/gempakio/encode/gempak.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index b9cabc0..6b8a457 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -641,10 +641,10 @@ class GridFile(DataManagementFile):
                 raise ValueError('Projected input coordinates must one-dimensional.')
             self.nx = len(lon)
             self.ny = len(lat)
-            self.x = lon
-            self.y = lat
+            self.x = np.array(lon)
+            self.y = np.array(lat)
             self.lon, self.lat = self.projection(
-                *np.meshgrid(lon, lat, copy=False), inverse=True
+                *np.meshgrid(self.x, self.y, copy=False), inverse=True
             )
             self._is_xy = True
         else:
@@ -654,8 +654,8 @@ class GridFile(DataManagementFile):
             _x, _y = self.projection(lon, lat)
             self.x = _x[0, :]
             self.y = _y[:, 0]
-            self.lon = lon
-            self.lat = lat
+            self.lon = np.array(lon)
+            self.lat = np.array(lat)
             self._is_xy = False
 
         self._set_projection_params()
-- 
2.43.0


From 904b6eaff12fde0b88ee890ea418d32212a7fa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 28/57] fix: an interrupted add no longer leaves headers that
 do not match the data

---
 src/gempakio/encode/gempak.py | 44 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 6b8a457..8084bd8 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -324,6 +324,24 @@ class DataManagementFile:
         if count > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
+    def _sort_headers(self):
+        """Count and sort the row and column headers."""
+        self.rows = len(self._row_set)
+        self.columns = len(self._column_set)
+
+        self.column_headers = sorted(self._column_set)
+        self.row_headers = sorted(self._row_set)
+
+    def _update_headers(self):
+        """Rebuild the headers from the stored data.
+
+        The data alone decide what is written, so headers that an interrupted call left
+        behind or did not get to sort do no harm.
+        """
+        self._row_set = OrderedSet(self.make_row_header(*row) for row, _col in self.data)
+        self._column_set = OrderedSet(self.make_column_header(*col) for _row, col in self.data)
+        self._sort_headers()
+
     def _replace_nan(self, array):
         """Replace nan values from an array with missing value."""
         nan_loc = np.isnan(array)
@@ -492,6 +510,7 @@ class DataManagementFile:
         file : str or `pathlib.Path`
             Path of file to be created.
         """
+        self._update_headers()
         self._set_pointers()
 
         with GempakStream() as stream:
@@ -915,9 +934,7 @@ class GridFile(DataManagementFile):
                     grid_type2 = {'A': 0, 'F': 1, 'V': 1, 'G': 2, 'I': 3}.get(gtype)
                     if grid_type2 == 0:
                         # Analyses are labeled by valid date and time
-                        init_date2 += timedelta(
-                            hours=forecast_hour2, minutes=forecast_minute2
-                        )
+                        init_date2 += timedelta(hours=forecast_hour2, minutes=forecast_minute2)
                         forecast_hour2 = init_date2.hour
                         forecast_minute2 = init_date2.minute
                     if grid_type != grid_type2:
@@ -963,6 +980,10 @@ class GridFile(DataManagementFile):
         self._column_set.add(header)
         self.data[new_column] = values
 
+        self._sort_headers()
+
+    def _sort_headers(self):
+        """Count and sort the column headers."""
         self.columns = len(self._column_set)
 
         self.column_headers = sorted(
@@ -972,6 +993,11 @@ class GridFile(DataManagementFile):
         )
         self.row_headers = sorted(self._row_set)
 
+    def _update_headers(self):
+        """Rebuild the headers from the stored data."""
+        self._column_set = OrderedSet(self.make_column_header(*col) for col in self.data)
+        self._sort_headers()
+
     def _pack_grib(self, grid, nbits=16):
         """Pack a grid of floats into integers."""
         return pack_grib(grid, self._missing_float, nbits=nbits)
@@ -1279,11 +1305,7 @@ class SoundingFile(DataManagementFile):
 
         self.data[(new_row, new_column)] = params._asdict()
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self._sort_headers()
 
     def _write_row_headers(self, stream):
         """Write row headers to a SoundingFile stream."""
@@ -1545,11 +1567,7 @@ class SurfaceFile(DataManagementFile):
 
         self.data[(new_row, new_column)] = params._asdict()
 
-        self.rows = len(self._row_set)
-        self.columns = len(self._column_set)
-
-        self.column_headers = sorted(self._column_set)
-        self.row_headers = sorted(self._row_set)
+        self._sort_headers()
 
     def _write_row_headers(self, stream):
         """Write row headers to a SurfaceFile stream."""
-- 
2.43.0


From bc7d286764499cc2a19389abd8dbd7ce669ef81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 29/57] fix: front width and front code can no longer disagree
 after an interrupted change

---
 src/gempakio/encode/vgf.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/gempakio/encode/vgf.py b/src/gempakio/encode/vgf.py
index ee518e1..876d3bc 100644
--- a/src/gempakio/encode/vgf.py
+++ b/src/gempakio/encode/vgf.py
@@ -931,16 +931,10 @@ class Front(Element):
             self.element_header_struct.size + self.front_struct.size + self._pts_struct.size
         )
 
-        _code = f'{self._front_code:03d}'
-        self._front_type = int(_code[0])
-        self._front_intensity = int(_code[1])
-        self._front_character = int(_code[2])
-        self._width = self._front_intensity
-
     @property
     def width(self):
         """Get front width."""
-        return self._width
+        return int(f'{self._front_code:03d}'[1])
 
     @width.setter
     def width(self, value):
@@ -953,16 +947,8 @@ class Front(Element):
         """
         if value not in range(1, 9):
             raise ValueError('Front width must be in range [1, 8].')
-        self._width = value
-
         _code = f'{self._front_code:03d}'
-        self._front_type = int(_code[0])
-        self._front_intensity = value
-        self._front_character = int(_code[2])
-
-        self._front_code = int(
-            f'{self._front_type}{self._front_intensity}{self._front_character}'
-        )
+        self._front_code = int(f'{_code[0]}{value}{_code[2]}')
 
     def flip(self):
         """Flip front direction."""
@@ -984,13 +970,7 @@ class Front(Element):
         """
         if value not in range(1000):
             raise ValueError('Invalid front code.')
-        self._front_code = value
-
-        _code = f'{self._front_code:03d}'
-        self._front_type = int(_code[0])
-        self._front_intensity = int(_code[1])
-        self._front_character = int(_code[2])
-        self._width = self._front_intensity
+        self._front_code = int(f'{value:03d}')
 
     @property
     def pip_size(self):
@@ -1038,7 +1018,7 @@ class Front(Element):
             pip_size=self._pip_size,
             pip_stroke=self._pip_stroke,
             pip_direction=self._pip_direction,
-            width=self._width,
+            width=self.width,
             label=self._label,
         )
 
-- 
2.43.0


From 61df8a990d5c8dde10fa9631503f0ca4afbfb046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:21 +0000
Subject: [PATCH 30/57] fix: special reports got the month of the stored time

Reports near the end of a month whose text has a day of the adjacent month were
dated up to a month off (e.g. 2359Z of the 31st stored at 00Z of the 1st).
---
 src/gempakio/decode/gempak.py | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 3b5e533..cb1bcd3 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -136,6 +136,21 @@ def _parse_date_time(date_time):
     ]
 
 
+def _report_time(gem_time, day, hour, minute):
+    """Get the time of a text report, which has no month and year, nearest to a given time."""
+    times = []
+    for months in [-1, 0, 1]:
+        year, month = divmod(12 * gem_time.year + gem_time.month - 1 + months, 12)
+        try:
+            times.append(datetime(year, month + 1, int(day), int(hour), int(minute)))
+        except ValueError:
+            # Some text reports contain bad date/time. In these cases
+            # replace with the GEMPAK date and time.
+            continue
+
+    return min(times, key=lambda dt: abs(dt - gem_time), default=gem_time)
+
+
 def _bbox_filter(lat, lon, bbox):
     """Filter stations by bbox.
 
@@ -2626,13 +2641,9 @@ class GempakSurface(GempakFile):
         have been processed and given the proper timestamp.
         """
         processed = []
-        year = report['DATE'].year
-        month = report['DATE'].month
 
         # GEMPAK bins reports in this timestamp, not by actual observed time.
-        gem_day = report['DATE'].day
-        gem_hour = report['TIME'].hour
-        gem_minute = report['TIME'].minute
+        gem_time = datetime.combine(report['DATE'], report['TIME'])
 
         # Each surface report can have one or both of METAR/SPECI text.
         text = values.pop('TEXT', None)
@@ -2657,24 +2668,12 @@ class GempakSurface(GempakFile):
                     if timestamp is None:
                         # If no timestamp can be parsed, we will use the GEMPAK
                         # stored timestamp.
-                        time_group = {'day': gem_day, 'hour': gem_hour, 'minute': gem_minute}
+                        dt = gem_time
                     else:
-                        time_group = timestamp.groupdict()
+                        dt = _report_time(gem_time, **timestamp.groupdict())
 
                     new_report = deepcopy(report)
                     if param == 'SPCL':  # Do not update standard METAR time
-                        try:
-                            dt = datetime(
-                                year,
-                                month,
-                                int(time_group['day']),
-                                int(time_group['hour']),
-                                int(time_group['minute']),
-                            )
-                        except ValueError:
-                            # Some text reports contain bad date/time. In these cases
-                            # replace with the GEMPAK date and time.
-                            dt = datetime(year, month, gem_day, gem_hour, gem_minute)
                         new_report['DATE'] = dt.date()
                         new_report['TIME'] = dt.time()
 
-- 
2.43.0


From eccb3f4e3429de2db8747ebfae2b60d937a22017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 31/57] fix: get_met returned nothing unless the file also has
 SIGMETs

It checked has_sigmet instead of has_met.
---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 06e060a..086f98a 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3155,7 +3155,7 @@ class VectorGraphicFile:
         -------
         List of MET elements.
         """
-        if self.has_sigmet:
+        if self.has_met:
             return self.filter_elements(vg_class=VGClass.met)
 
         return None
-- 
2.43.0


From 6b5d02cc6426ec57239e692abaa31ddd570e9185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 32/57] fix: to_json raised TypeError when given an encoder
 class

The class was passed to json.dumps twice.
---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 086f98a..c3793e6 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3257,7 +3257,9 @@ class VectorGraphicFile:
         """
         serialized = [e.__dict__ for e in self._elements]
 
-        return json.dumps(serialized, cls=kwargs.get('cls', NumpyEncoder), **kwargs)
+        kwargs.setdefault('cls', NumpyEncoder)
+
+        return json.dumps(serialized, **kwargs)
 
     def _decode_file_header(self, header_struct):
         """Decode file header."""
-- 
2.43.0


From b67b7af3aae23a569a7e0816937ee415edb5a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 33/57] fix: to_json raised TypeError for elements made of
 attributes

Jets, tropical cyclone tracks and break points hold VectorGraphicAttribute
objects, which the encoder could not serialize.
---
 src/gempakio/decode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index c3793e6..2b63a0b 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2869,6 +2869,8 @@ class NumpyEncoder(json.JSONEncoder):
         """`NumpyEncoder` default serializer."""
         if isinstance(obj, np.ndarray):
             return [float(f'{x:6.2f}') for x in obj]
+        if isinstance(obj, VectorGraphicAttribute):
+            return obj.__dict__
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From 400da84c98d9258238c952564fa2cf9d6b68d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 34/57] fix: files with tropical cyclone break points could not
 be opened

The buffer was called instead of read.
---
 src/gempakio/decode/vgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 2b63a0b..31d6419 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4439,7 +4439,9 @@ class VectorGraphicFile:
             ('number_points', 'i'),
         ]
 
-        brkpt = self._buffer(break_info, self.prefmt, 'BreakPointInfo')
+        brkpt = self._buffer.read_struct(
+            NamedStruct(break_info, self.prefmt, 'BreakPointInfo')
+        )
 
         break_meta = [
             ('lat', 'f', partial(round, ndigits=2)),
-- 
2.43.0


From aa7de324300ecf38439483a093f4e1c2bc33b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 35/57] fix: tropical cyclone advisories were repeated for
 every watch or warning

The element was added inside the loop over watches and warnings, so it was
repeated when there were several and lost when there were none.
---
 src/gempakio/decode/vgf.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 31d6419..067527d 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4262,26 +4262,26 @@ class VectorGraphicFile:
                 }
             )
 
-            self._elements.append(
-                TropicalCycloneAdvisoryElement(
-                    header_struct,
-                    storm_number,
-                    issue_status,
-                    basin,
-                    advisory_number,
-                    storm_name,
-                    storm_type,
-                    valid,
-                    tz,
-                    text_lat,
-                    text_lon,
-                    text_font,
-                    text_size,
-                    text_width,
-                    wwnum,
-                    ww,
-                )
+        self._elements.append(
+            TropicalCycloneAdvisoryElement(
+                header_struct,
+                storm_number,
+                issue_status,
+                basin,
+                advisory_number,
+                storm_name,
+                storm_type,
+                valid,
+                tz,
+                text_lat,
+                text_lon,
+                text_font,
+                text_size,
+                text_width,
+                wwnum,
+                ww,
             )
+        )
 
     def _decode_tc_error(self, header_struct):
         """Decode TC error cone elements."""
-- 
2.43.0


From 47921cf3b22a2a1d0bc09c9a6ec2faa859bba26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 36/57] fix: files with significant weather elements could not
 be opened

The text of the special text structure was not read, and its width and
alignment were asked for by the wrong names.
---
 src/gempakio/decode/vgf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 067527d..97f769c 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4511,6 +4511,8 @@ class VectorGraphicFile:
             ('lon', 'f', partial(round, ndigits=2)),
             ('offset_x', 'i'),
             ('offset_y', 'i'),
+            ('text', '255s', self._decode_strip_null),
+            (None, '1x'),  # skip struct alignment padding byte
         ]
 
         text = self._buffer.read_struct(
@@ -4540,11 +4542,11 @@ class VectorGraphicFile:
                 text.turbulence_symbol,
                 text.font,
                 text.text_flag,
-                text.text_width,
+                text.width,
                 text.text_color,
                 text.line_color,
                 text.fill_color,
-                text.text_align,
+                text.align,
                 text.offset_x,
                 text.offset_y,
                 text.text,
-- 
2.43.0


From ca42edde889d44f58c6b49cdc2cdbc3804131a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 37/57] fix: files with tropical cyclone tracks, cones or break
 points could not be opened

Basin and storm type are stored as text, but were looked up as integers.
---
 src/gempakio/decode/vgf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 97f769c..d0409d7 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -1996,10 +1996,10 @@ class TropicalCycloneBase(VectorGraphicElement):
         super().__init__(header_struct)
         self.storm_number = storm_number
         self.issue_status = issue_status
-        self.basin = Basin(basin)
+        self.basin = Basin(int(basin))
         self.advisory_number = advisory_number
         self.storm_name = storm_name
-        self.storm_type = StormType(storm_type)
+        self.storm_type = StormType(int(storm_type))
         self.valid_time = datetime.strptime(valid_time, '%y%m%d/%H%M').replace(
             tzinfo=timezone.utc
         )
-- 
2.43.0


From cc73ae5f5d2a6d8b1e52cb6b82dace397e3b12c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 38/57] fix: to_json raised TypeError for tropical cyclone
 valid times

---
 src/gempakio/decode/vgf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index d0409d7..83dbda2 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -2871,6 +2871,8 @@ class NumpyEncoder(json.JSONEncoder):
             return [float(f'{x:6.2f}') for x in obj]
         if isinstance(obj, VectorGraphicAttribute):
             return obj.__dict__
+        if isinstance(obj, datetime):
+            return obj.isoformat()
         return json.JSONEncoder.default(self, obj)
 
 
-- 
2.43.0


From f7c4ff11635736859c9e5f91be4b7504053b1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 39/57] fix: structures in which every field has a converter
 raised ValueError

Tropical cyclone tracks, cones and break points are stored in such a
structure, so files with them could not be opened.
---
 src/gempakio/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/tools.py b/src/gempakio/tools.py
index 1224d3d..4276551 100644
--- a/src/gempakio/tools.py
+++ b/src/gempakio/tools.py
@@ -22,7 +22,7 @@ class NamedStruct:
         """Initialize the NamedStruct."""
         if tuple_name is None:
             tuple_name = 'NamedStruct'
-        names, fmts = zip(*info, strict=False)
+        names, fmts = zip(*(i[:2] for i in info), strict=True)
         self.converters = {}
         conv_off = 0
         for ind, i in enumerate(info):
-- 
2.43.0


From e855e24bc27d52371182c7912d3759ffece87571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 40/57] fix: tropical cyclone advisories without watches or
 warnings could not be opened

Their count is the last entry of the advisory, so no other entry follows.
---
 src/gempakio/decode/vgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 83dbda2..8c38c90 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4237,7 +4237,7 @@ class VectorGraphicFile:
 
         text_width = int(re.search(r'(?<=<tca_textWidth>)(.+?)(?=<)', tca_string).group())
 
-        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<)', tca_string).group())
+        wwnum = int(re.search(r'(?<=<tca_wwNum>)(.+?)(?=<|$)', tca_string).group())
 
         ww = []
         for n in range(wwnum):
-- 
2.43.0


From 87a782b778afd94e35ef779e6d14e4dc59862d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 41/57] fix: a damaged count of break points exhausted memory

The text was split into as many pieces as the count says.
---
 src/gempakio/decode/vgf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 8c38c90..1e9875f 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -4249,7 +4249,11 @@ class VectorGraphicFile:
 
             severity, advisory_type, special_geog = wwstr.split('|')
 
-            parsed_breaks = np.array_split(breakpts.split('|'), nbreaks)
+            break_fields = breakpts.split('|')
+            if len(break_fields) != 3 * nbreaks:
+                raise ValueError('Break points do not match their count.')
+
+            parsed_breaks = np.array_split(break_fields, nbreaks)
             decode_breaks = [
                 [float(lat), float(lon), bname] for lat, lon, bname in parsed_breaks
             ]
-- 
2.43.0


From d3735b52097c7aac42f6c6edf0f063b5c96564d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 42/57] fix: read unpacked and difference-packed grids of one
 word

---
 src/gempakio/decode/gempak.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index cb1bcd3..f4999d6 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -872,11 +872,10 @@ class GempakGrid(GempakFile):
         if packing_type == PackingType.none:
             lendat = self.data_header_length - part.header_length - 1
 
-            if lendat > 1:
+            if lendat > 0:
                 buffer_fmt = f'{self.prefmt}{lendat}f'
                 buffer = self._buffer.read_struct(struct.Struct(buffer_fmt))
-                grid = np.zeros(self.ky * self.kx, dtype=np.float32)
-                grid[...] = buffer
+                grid = np.array(buffer, dtype=np.float32)
             else:
                 grid = None
 
@@ -916,7 +915,7 @@ class GempakGrid(GempakFile):
             packed_buffer = self._buffer.read_struct(struct.Struct(packed_buffer_fmt))
             grid = np.zeros((self.ky, self.kx), dtype=np.float32)
 
-            if lendat > 1:
+            if lendat > 0:
                 iword = 0
                 ibit = 1
                 first = True
-- 
2.43.0


From 137cb038202d6598185df367fbf294f83bad2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:41 +0000
Subject: [PATCH 43/57] fix: a time with a zone made a grid file with other
 times unusable

Adding a grid labelled with an aware datetime to a file with naive ones raised
TypeError after the grid was stored, and every later addition and write failed.
Zones are dropped, as in the sounding and surface writers.
---
 src/gempakio/encode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 8084bd8..11fb9fb 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -898,7 +898,7 @@ class GridFile(DataManagementFile):
                 forecast_hour = int(init_date.strftime('%H'))
                 forecast_minute = int(init_date.strftime('%M'))
         elif isinstance(date_time, datetime):
-            init_date = date_time
+            init_date = date_time.replace(tzinfo=None)
             forecast_hour = int(init_date.strftime('%H'))
             forecast_minute = int(init_date.strftime('%M'))
         else:
@@ -946,7 +946,7 @@ class GridFile(DataManagementFile):
                     forecast_hour2 = int(init_date2.strftime('%H'))
                     forecast_minute2 = int(init_date2.strftime('%M'))
             elif isinstance(date_time2, datetime):
-                init_date2 = date_time2
+                init_date2 = date_time2.replace(tzinfo=None)
                 forecast_hour2 = int(init_date2.strftime('%H'))
                 forecast_minute2 = int(init_date2.strftime('%M'))
             else:
-- 
2.43.0


From 16bea2b9dd51c585669016e54207c7f27a71db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:06 +0000
Subject: [PATCH 44/57] fix: cells of masked arrays were written as if they
 were not masked

The values under the mask ended up in grid and sounding files as data, or made
the grid impossible to pack.
---
 src/gempakio/encode/gempak.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 11fb9fb..313f873 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -973,7 +973,8 @@ class GridFile(DataManagementFile):
         )
         # Keep a private floating point copy. The caller's array must not be changed here
         # and later changes to it must not end up in the file.
-        values = self._replace_nan(grid.astype(np.result_type(grid.dtype, np.float32)))
+        values = grid.astype(np.result_type(grid.dtype, np.float32))
+        values = self._replace_nan(np.ma.filled(values, self._missing_float))
 
         header = self.make_column_header(*new_column)
         self._check_header_limit(columns=[header])
@@ -1249,7 +1250,10 @@ class SoundingFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._replace_nan(np.asarray(v.copy())) for k, v in data.items()}
+        data = {
+            k.upper(): self._replace_nan(np.ma.filled(v.copy(), self._missing_float))
+            for k, v in data.items()
+        }
         params = self._param_args(**data)
 
         if not self._validate_length(data):
-- 
2.43.0


From c26821b672cccf0941a17a897317db0f72dcaabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:04 +0000
Subject: [PATCH 45/57] fix: a station priority that is not a number was
 accepted and made the file unwritable

---
 src/gempakio/encode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 313f873..85708da 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1554,7 +1554,7 @@ class SurfaceFile(DataManagementFile):
             stat = str(station_info.get('state', '')).upper()[:4]
             coun = str(station_info.get('country', '')).upper()[:4]
             std2 = ''
-            spri = station_info.get('priority', 0)
+            spri = int(station_info.get('priority', 0))
 
             if len(stid) > 4:
                 std2 = stid[4:8]
-- 
2.43.0


From 83afe1a96301f2bf0b383aedd7fb9d35764a3bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 46/57] fix: malformed forecast times were accepted and written
 as other times

---
 src/gempakio/encode/gempak.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 85708da..d046062 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -877,6 +877,8 @@ class GridFile(DataManagementFile):
             split_time = re.split('([AFVIG])', date_time)
             if len(split_time) == 3:
                 init, gtype, fhr = split_time
+                if not re.fullmatch('[0-9]{0,5}', fhr):
+                    raise ValueError(f'Cannot parse malformed date_time input {date_time}.')
                 init_date = datetime.strptime(init, '%Y%m%d%H%M')
                 if len(fhr) > 3:
                     fmin = fhr[3:]
@@ -923,6 +925,8 @@ class GridFile(DataManagementFile):
                 split_time = re.split('([AFVIG])', date_time2)
                 if len(split_time) == 3:
                     init, gtype, fhr = split_time
+                    if not re.fullmatch('[0-9]{0,5}', fhr):
+                        raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
                     init_date2 = datetime.strptime(init, '%Y%m%d%H%M')
                     if len(fhr) > 3:
                         fmin = fhr[3:]
-- 
2.43.0


From 396c52ff875093b929c54945c2934e2c087b398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 47/57] fix: header values that do not fit their word made
 files unreadable or unwritable

---
 src/gempakio/encode/gempak.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index d046062..2ae09e6 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -6,6 +6,7 @@
 from collections import namedtuple
 from datetime import datetime, timedelta
 from io import BytesIO
+from itertools import chain
 import re
 import struct
 
@@ -324,6 +325,15 @@ class DataManagementFile:
         if count > MMHDRS:
             raise ValueError('Exceeded maximum number data entries.')
 
+    @staticmethod
+    def _check_words(*headers):
+        """Check that each value of new headers can be stored in one word."""
+        for value in chain.from_iterable(headers):
+            if isinstance(value, str) and len(value.encode()) > 4:
+                raise ValueError(f'`{value}` takes more than 4 bytes.')
+            if isinstance(value, int | float) and not -(2**31) <= value < 2**31:
+                raise ValueError(f'{value} cannot be stored as a 32-bit integer.')
+
     def _sort_headers(self):
         """Count and sort the row and column headers."""
         self.rows = len(self._row_set)
@@ -981,6 +991,7 @@ class GridFile(DataManagementFile):
         values = self._replace_nan(np.ma.filled(values, self._missing_float))
 
         header = self.make_column_header(*new_column)
+        self._check_words(header)
         self._check_header_limit(columns=[header])
         self._column_set.add(header)
         self.data[new_column] = values
@@ -1307,6 +1318,7 @@ class SoundingFile(DataManagementFile):
 
         row_header = self.make_row_header(*new_row)
         column_header = self.make_column_header(*new_column)
+        self._check_words(row_header, column_header)
         self._check_header_limit(rows=[row_header], columns=[column_header])
         self._row_set.add(row_header)
         self._column_set.add(column_header)
@@ -1569,6 +1581,7 @@ class SurfaceFile(DataManagementFile):
 
         row_header = self.make_row_header(*new_row)
         column_header = self.make_column_header(*new_column)
+        self._check_words(row_header, column_header)
         self._check_header_limit(rows=[row_header], columns=[column_header])
         self._row_set.add(row_header)
         self._column_set.add(column_header)
-- 
2.43.0


From 172a0cfb9823b9f004b228b1ced003165f443d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 48/57] fix: parameter names longer than a word were cut off
 when written

---
 src/gempakio/encode/gempak.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 2ae09e6..32295d1 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1219,9 +1219,11 @@ class SoundingFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
+        self._check_words(self.parameter_names)
+
         self._param_args = namedtuple('Parameters', self.parameter_names)
 
     @staticmethod
@@ -1492,9 +1494,11 @@ class SurfaceFile(DataManagementFile):
             raise ValueError('Reached maximum parameter limit.')
 
         for param in parameters:
-            if param not in self.parameter_names:
+            if param.upper() not in self.parameter_names:
                 self.parameter_names.append(param.upper())
 
+        self._check_words(self.parameter_names)
+
         self._param_args = namedtuple('Parameters', self.parameter_names)
 
     @staticmethod
-- 
2.43.0


From b0e97ac3d9234e70bcc0db86f531e8d5852367df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 49/57] fix: GridFile failed for tangent Lambert, polar
 stereographic with true latitude, and Lambert azimuthal on an ellipsoid

---
 src/gempakio/encode/gempak.py | 38 +++++++++++++----------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 32295d1..bce53a8 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -723,10 +723,8 @@ class GridFile(DataManagementFile):
                 name = 'equidistant_cylindrical'
             elif method == 'Gnomonic':
                 name = 'gnomonic'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             elif 'Lambert Azimuthal Equal Area' in method:
                 name = 'lambert_azimuthal_equal_area'
-                params = params['crs_wkt']  # Not converted to CF by pyproj/PROJ
             else:
                 name = 'unknown'
 
@@ -736,7 +734,11 @@ class GridFile(DataManagementFile):
             self.angle2 = params['longitude_of_projection_origin']
             self.angle3 = self.rotation
         elif name == 'polar_stereographic':
-            self.angle1 = params['latitude_of_projection_origin']
+            # The pole is not given along with a standard parallel
+            self.angle1 = params.get(
+                'latitude_of_projection_origin',
+                np.copysign(90, params.get('standard_parallel', 90)),
+            )
             self.angle2 = params['straight_vertical_longitude_from_pole']
             self.gemproj = 'STR'
         elif name == 'stereographic':
@@ -745,7 +747,9 @@ class GridFile(DataManagementFile):
             self.gemproj = 'STR'
             self.angle3 = self.rotation
         elif name == 'lambert_conformal_conic':
-            self.angle1, self.angle3 = params['standard_parallel']
+            # There is only one value for a tangent cone
+            parallels = np.ravel(params['standard_parallel'])
+            self.angle1, self.angle3 = float(parallels[0]), float(parallels[-1])
             self.angle2 = params['longitude_of_central_meridian']
             self.gemproj = 'LCC'
         elif name == 'equidistant_cylindrical':
@@ -766,29 +770,15 @@ class GridFile(DataManagementFile):
             self.angle3 = self.rotation
         elif name == 'lambert_azimuthal_equal_area':
             self.gemproj = 'LEA'
-            self.angle1 = float(
-                re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
-                ).groupdict()['lat_0']
-            )
-            self.angle2 = float(
-                re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
-                ).groupdict()['lon_0']
-            )
+            params = self._to_dict(self.projection.crs.coordinate_operation)
+            self.angle1 = params['latitude_of_natural_origin']
+            self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         elif name == 'gnomonic':
             self.gemproj = 'GNO'
-            self.angle1 = float(
-                re.search(
-                    r'(?:\"Latitude of natural origin\",(?P<lat_0>-?\d{1,2}\.?\d*))', params
-                ).groupdict()['lat_0']
-            )
-            self.angle2 = float(
-                re.search(
-                    r'(?:\"Longitude of natural origin\",(?P<lon_0>-?\d{1,3}\.?\d*))', params
-                ).groupdict()['lon_0']
-            )
+            params = self._to_dict(self.projection.crs.coordinate_operation)
+            self.angle1 = params['latitude_of_natural_origin']
+            self.angle2 = params['longitude_of_natural_origin']
             self.angle3 = self.rotation
         else:
             raise NotImplementedError(f'`{name}` projection not implemented.')
-- 
2.43.0


From d15e0187bd87543bc9f40cfa50b1cceb326bf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 50/57] fix: masked surface values were refused instead of
 written as missing

---
 src/gempakio/encode/gempak.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index bce53a8..711d396 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -1529,7 +1529,10 @@ class SurfaceFile(DataManagementFile):
         if not isinstance(data, dict):
             raise TypeError('data must be a dict.')
 
-        data = {k.upper(): self._missing_float if np.isnan(v) else v for k, v in data.items()}
+        data = {
+            k.upper(): self._missing_float if np.ma.is_masked(v) or np.isnan(v) else v
+            for k, v in data.items()
+        }
         params = self._param_args(**data)
 
         if not self._validate_length(data):
-- 
2.43.0


From c9b5c58735b1ebbc853ca90ef58875a13b3b4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 51/57] fix: soundings with no surface level and fewer than two
 tropopause or significant temperature levels could not be read

---
 src/gempakio/decode/gempak.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index f4999d6..8406f45 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -1655,7 +1655,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TRPA']['PRES'][1]:
+                if num_trop_levels > 1 and pbot < parts['TRPA']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
@@ -1726,7 +1726,7 @@ class GempakSounding(GempakFile):
                 pbot = merged['PRES'][0]
             elif len(merged['PRES']) > 1:
                 pbot = merged['PRES'][1]
-                if pbot < parts['TTBB']['PRES'][1]:
+                if num_sigt_levels > 1 and pbot < parts['TTBB']['PRES'][1]:
                     pbot = 1050
             else:
                 pbot = 1050
-- 
2.43.0


From aa4f4dbed8f4c786334656fcdfc72fb2d402819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:12 +0000
Subject: [PATCH 52/57] fix: soundings with a level that cannot be interpolated
 could not be read

---
 src/gempakio/gemcalc.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gempakio/gemcalc.py b/src/gempakio/gemcalc.py
index 9f179e1..14c99d6 100644
--- a/src/gempakio/gemcalc.py
+++ b/src/gempakio/gemcalc.py
@@ -178,10 +178,15 @@ def interp_missing_data(sounding, missing=-9999):
                             adata[param] = val[i - 1]
                             bdata[param] = val[iabove]
                     vlev = sounding['PRES'][i]
-                    outdata = interp_parameters(vlev, adata, bdata, missing)
-                    sounding[var1][i] = outdata[var1]
-                    if var2 is not None:
-                        sounding[var2][i] = outdata[var2]
+                    try:
+                        outdata = interp_parameters(vlev, adata, bdata, missing)
+                    except ValueError:
+                        # The level is not between the others, so its data stay missing
+                        pass
+                    else:
+                        sounding[var1][i] = outdata[var1]
+                        if var2 is not None:
+                            sounding[var2][i] = outdata[var2]
             i += 1
 
 
-- 
2.43.0


From ee85258ce4a5218daf2752d50b0143e2b030c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:12 +0000
Subject: [PATCH 53/57] fix: wrap a line that was too long in the repair of
 malformed forecast times

---
 src/gempakio/encode/gempak.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 711d396..02f0647 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -926,7 +926,9 @@ class GridFile(DataManagementFile):
                 if len(split_time) == 3:
                     init, gtype, fhr = split_time
                     if not re.fullmatch('[0-9]{0,5}', fhr):
-                        raise ValueError(f'Cannot parse malformed date_time2 input {date_time2}.')
+                        raise ValueError(
+                            f'Cannot parse malformed date_time2 input {date_time2}.'
+                        )
                     init_date2 = datetime.strptime(init, '%Y%m%d%H%M')
                     if len(fhr) > 3:
                         fmin = fhr[3:]
-- 
2.43.0


From d8ed40ef6aaa9925ae484a8ecaebfebf1f6ec15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 54/57] fix: MCD grids could not be opened for most areas
 because the cosine was taken of degrees

---
 src/gempakio/decode/gempak.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 8406f45..104ba28 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -810,7 +810,7 @@ class GempakGrid(GempakFile):
                     + self.navigation_block.lower_left_lat
                 ) * 0.5
                 k_0 = (
-                    1 / math.cos(avglat)
+                    1 / math.cos(math.radians(avglat))
                     if self.navigation_block.proj_angle1 == 0
                     else self.navigation_block.proj_angle1
                 )
-- 
2.43.0


From 0e82bd55c87a62b3fac79b997caead3003d166f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 55/57] fix: grids that extend across the edge of a cylindrical
 projection had wrong coordinates

---
 src/gempakio/decode/gempak.py | 8 ++++++++
 src/gempakio/encode/gempak.py | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/gempakio/decode/gempak.py b/src/gempakio/decode/gempak.py
index 104ba28..8040d02 100644
--- a/src/gempakio/decode/gempak.py
+++ b/src/gempakio/decode/gempak.py
@@ -853,6 +853,14 @@ class GempakGrid(GempakFile):
         urx, ury = transform(
             self.navigation_block.upper_right_lon, self.navigation_block.upper_right_lat
         )
+        if (
+            GEMPROJ_TO_PROJ[self.navigation_block.projection][1] == 'cyl'
+            and urx <= llx
+            and self.navigation_block.upper_right_lon > self.navigation_block.lower_left_lon
+        ):
+            # The grid extends across the edge of the projection
+            edge, _ = transform(self.navigation_block.proj_angle2 + 180, 0)
+            urx += 2 * abs(edge)
         self.x = np.linspace(llx, urx, self.kx, dtype=np.float32)
         self.y = np.linspace(lly, ury, self.ky, dtype=np.float32)
         xx, yy = np.meshgrid(self.x, self.y, copy=False)
diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 02f0647..593f4c8 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -712,6 +712,10 @@ class GridFile(DataManagementFile):
             self.upper_right_lon = self.lon[-1, -1]
             self.upper_right_lat = self.lat[-1, -1]
 
+        if self.gemproj in ['CED', 'MER']:
+            # Longitudes have to increase across the edge of the projection
+            self.upper_right_lon = np.unwrap(self.lon[-1], period=360)[-1]
+
     def _set_projection_params(self):
         """Set projection parameters for GridFile."""
         params = self.projection.crs.to_cf()
-- 
2.43.0


From c358e4229589f5896333a38325d6cfcbc38cb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:41 +0000
Subject: [PATCH 56/57] fix: advisories with a letter in their number or empty
 names could not be read or were read wrong

---
 src/gempakio/decode/vgf.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gempakio/decode/vgf.py b/src/gempakio/decode/vgf.py
index 1e9875f..c1ad7d4 100644
--- a/src/gempakio/decode/vgf.py
+++ b/src/gempakio/decode/vgf.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 """Classes for decoding GEMPAK VGF files."""
 
+import contextlib
 from dataclasses import dataclass
 from datetime import datetime, timezone
 from enum import IntEnum
@@ -4211,21 +4212,24 @@ class VectorGraphicFile:
 
         storm_number = int(re.search(r'(?<=<tca_stormNum>)(.+?)(?=<)', tca_string).group())
 
-        issue_status = re.search(r'(?<=<tca_issueStatus>)(.+?)(?=<)', tca_string).group()
+        issue_status = re.search(r'(?<=<tca_issueStatus>)(.*?)(?=<)', tca_string).group()
 
         basin = int(re.search(r'(?<=<tca_basin>)(.+?)(?=<)', tca_string).group())
 
-        advisory_number = int(
-            re.search(r'(?<=<tca_advisoryNum>)(.+?)(?=<)', tca_string).group()
-        )
+        advisory_number = re.search(
+            r'(?<=<tca_advisoryNum>)(.+?)(?=<)', tca_string
+        ).group()
+        # Intermediate advisories have a letter after their number
+        with contextlib.suppress(ValueError):
+            advisory_number = int(advisory_number)
 
-        storm_name = re.search(r'(?<=<tca_stormName>)(.+?)(?=<)', tca_string).group()
+        storm_name = re.search(r'(?<=<tca_stormName>)(.*?)(?=<)', tca_string).group()
 
         storm_type = int(re.search(r'(?<=<tca_stormType>)(.+?)(?=<)', tca_string).group())
 
-        valid = re.search(r'(?<=<tca_validTime>)(.+?)(?=<)', tca_string).group()
+        valid = re.search(r'(?<=<tca_validTime>)(.*?)(?=<)', tca_string).group()
 
-        tz = re.search(r'(?<=<tca_timezone>)(.+?)(?=<)', tca_string).group()
+        tz = re.search(r'(?<=<tca_timezone>)(.*?)(?=<)', tca_string).group()
 
         text_lat = float(re.search(r'(?<=<tca_textLat>)(.+?)(?=<)', tca_string).group())
 
-- 
2.43.0


From 54dd28defb45bf4a6d7ced7ddbb51c4267398c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 57/57] fix: soundings and surface data with values or
 coordinates too big for their words made every later write fail

---
 src/gempakio/encode/gempak.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/gempakio/encode/gempak.py b/src/gempakio/encode/gempak.py
index 593f4c8..aa54530 100644
--- a/src/gempakio/encode/gempak.py
+++ b/src/gempakio/encode/gempak.py
@@ -334,6 +334,14 @@ class DataManagementFile:
             if isinstance(value, int | float) and not -(2**31) <= value < 2**31:
                 raise ValueError(f'{value} cannot be stored as a 32-bit integer.')
 
+    @staticmethod
+    def _check_floats(data):
+        """Check that the values of new data can be stored as 32-bit floating point numbers."""
+        for name, values in data.items():
+            size = np.abs(values)
+            if np.any(np.isfinite(size) & (size > np.finfo(np.float32).max)):
+                raise ValueError(f'Values of {name} cannot be stored as 32-bit numbers.')
+
     def _sort_headers(self):
         """Count and sort the row and column headers."""
         self.rows = len(self._row_set)
@@ -1272,6 +1280,8 @@ class SoundingFile(DataManagementFile):
         if not self._validate_length(data):
             raise ValueError('All input data must be same length.')
 
+        self._check_floats(data)
+
         if not isinstance(slat, int | float):
             raise TypeError('Coordinates must be int/float.')
 
@@ -1316,7 +1326,7 @@ class SoundingFile(DataManagementFile):
 
         row_header = self.make_row_header(*new_row)
         column_header = self.make_column_header(*new_column)
-        self._check_words(row_header, column_header)
+        self._check_words(row_header, column_header, (slat * 100, slon * 100))
         self._check_header_limit(rows=[row_header], columns=[column_header])
         self._row_set.add(row_header)
         self._column_set.add(column_header)
@@ -1544,6 +1554,8 @@ class SurfaceFile(DataManagementFile):
         if not self._validate_length(data):
             raise ValueError('All input data must be same length.')
 
+        self._check_floats(data)
+
         if not isinstance(slat, int | float):
             raise TypeError('Coordinates must be int/float.')
 
@@ -1584,7 +1596,7 @@ class SurfaceFile(DataManagementFile):
 
         row_header = self.make_row_header(*new_row)
         column_header = self.make_column_header(*new_column)
-        self._check_words(row_header, column_header)
+        self._check_words(row_header, column_header, (slat * 100, slon * 100))
         self._check_header_limit(rows=[row_header], columns=[column_header])
         self._row_set.add(row_header)
         self._column_set.add(column_header)
-- 
2.43.0

