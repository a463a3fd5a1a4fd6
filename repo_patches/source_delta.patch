From bcce557569ec58de700a20b377ad135b7adc2532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 01/38] fix: do not memoize stepheight_level, which mutates or
 hands out surfaces

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..cfcb35c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From d310e23480686c0eb83e51cb1b449ba4fac4fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 02/38] fix: height_parameters must not expose its cached
 dictionary

---
 surfalize/surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index cfcb35c..c68b58d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -864,8 +864,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
-    @no_nonmeasured_points
     def height_parameters(self):
         """
         Calculates the roughness parameters from the height parameter family.
@@ -875,6 +873,12 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # Hand out a copy, so that modifying the returned dictionary does not alter the cached values
+        return dict(self._calculate_height_parameters())
+
+    @cache
+    @no_nonmeasured_points
+    def _calculate_height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From 507a05104c21bbf3717a394645dc27ebecf1f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 03/38] fix: fill_nonmeasured(inplace=False) returns a new
 object also if nothing is missing

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..9c8a0b5 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index c68b58d..bcefba0 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -507,7 +507,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From a22deb9c70e0037340747e7210032e28c4e3a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 04/38] fix: cropped, zoomed and sliced topographies own their
 (writable) data

---
 surfalize/profile.py | 4 ++--
 surfalize/surface.py | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 9c8a0b5..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
diff --git a/surfalize/surface.py b/surfalize/surface.py
index bcefba0..b9ef113 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -268,7 +268,7 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
@@ -679,7 +679,8 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1,
+                         int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -713,7 +714,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 007a4874123fc9305477ab977f1aa08052df14d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 05/38] fix: invert must not discard all heights in the
 presence of non-measured points

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..d15d56b 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = np.nanmin(self.data) + np.nanmax(self.data) - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 870ebe43ef8e8f274be66cf849b0caef3b3e481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 06/38] fix: equal surfaces must have equal hashes

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index b9ef113..da77c42 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -255,7 +255,8 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Only properties that __eq__ compares exactly may contribute to the hash. The heights are compared with a tolerance
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From 92847d88b72e514b3b5d1aeaca21942115606f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 07/38] fix: stepheight and cavity_volume must reject
 non-measured points

---
 surfalize/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index da77c42..a9cc594 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -829,6 +829,7 @@ class Surface(BaseTopography):
 
     @batch_method('parameter')
     @cache
+    @no_nonmeasured_points
     def stepheight(self):
         """
         Calculates the stepheight of two-level ablation experiment.
@@ -842,6 +843,7 @@ class Surface(BaseTopography):
         return step_height
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     def cavity_volume(self, threshold=0.50):
         """
         Calculates the cavity volume of a flat surface containing an ablation crater with a leveled bottom plane.
-- 
2.43.0


From d486cedc7f622f37717191b6ea51d9527eb0134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 08/38] fix: horizontal and vertical profiles at the edge of
 and outside the surface

---
 surfalize/surface.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a9cc594..a1cfe50 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -380,7 +380,7 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
+        if not 0 <= y <= self.height_um:
             raise ValueError("y must not exceed height of surface.")
         
         if average_step is None:
@@ -389,7 +389,7 @@ class Surface(BaseTopography):
             average_step_px = int(average_step / self.step_y)
 
         # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
+        idx = min(int(y / self.height_um * self.size.y), self.size.y - 1)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
         idx_min = 0 if idx_min < 0 else idx_min
@@ -420,8 +420,8 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
-            raise ValueError("x must not exceed height of surface.")
+        if not 0 <= x <= self.width_um:
+            raise ValueError("x must not exceed width of surface.")
         
         if average_step is None:
             average_step_px = 1
@@ -429,7 +429,7 @@ class Surface(BaseTopography):
             average_step_px = int(average_step / self.step_x)
 
         # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
+        idx = min(int(x / self.width_um * self.size.x), self.size.x - 1)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
         idx_min = 0 if idx_min < 0 else idx_min
-- 
2.43.0


From 705f087d088e1d9263d05d736a332e18d3fc664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 09/38] fix: oblique profiles run from the start point to the
 end point with the correct step size

---
 surfalize/surface.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a1cfe50..248c0af 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -476,16 +476,15 @@ class Surface(BaseTopography):
         dx = x1px - x0px
         dy = y1px - y0px
 
-        size = int(np.hypot(dx, dy))
+        size = int(np.hypot(dx, dy)) + 1
 
-        m = dy/dx
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
         data = ndimage.map_coordinates(self.data, [yp, xp])
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From 77765d2c0724b9760041aa37dce514b6283ce3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 10/38] fix: oblique profiles must not sample beyond the last
 data point

---
 surfalize/surface.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 248c0af..6d86a9d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -464,15 +464,15 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
-
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0 <= self.width_um) or not(0 <= y0 <= self.height_um) or
+            not(0 <= x1 <= self.width_um) or not(0 <= y1 <= self.height_um)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
+        x0px = min(int(x0 / self.width_um * self.size.x), self.size.x - 1)
+        y0px = min(int(y0 / self.height_um * self.size.y), self.size.y - 1)
+        x1px = min(int(x1 / self.width_um * self.size.x), self.size.x - 1)
+        y1px = min(int(y1 / self.height_um * self.size.y), self.size.y - 1)
+
         dx = x1px - x0px
         dy = y1px - y0px
 
-- 
2.43.0


From 430e1e2e5ec78eee36e1e85eada481e2ed35b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 11/38] fix: crop must reject boxes whose limits are reversed

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 6d86a9d..374da61 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -711,7 +711,7 @@ class Surface(BaseTopography):
         else:
             x0, x1, y0, y1 = box
 
-        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
+        if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1 or x0 > x1 or y0 > y1:
             raise ValueError('Box is out of bounds!')
 
         data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
-- 
2.43.0


From 9b8d67c5b543a512edcf52fb40324ae0626deeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 12/38] fix: topographies loaded from sflz and plux files own
 their (writable) data

---
 surfalize/file/plux.py | 4 ++--
 surfalize/file/sflz.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..591bd20 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -42,10 +42,10 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = float(root.find('GENERAL/FOV_Y').text)
     size = shape_x * shape_y
 
-    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
+    data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
     if read_image_layers:
-        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
+        img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
         else:
diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..34e4e6a 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,8 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        # The array returned by np.frombuffer is read-only, the loaded surface must own its data
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From b7c2f3217dfb326b0a8a744d6e0f7fd395afcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 13/38] fix: sflz files scaled to a signed integer type are
 read with the wrong height offset

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 34e4e6a..b8fceb1 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -87,7 +87,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From a9cdd8043ff7e4befd8c19b1feecedc935582a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/38] fix: sflz writer must not discard all heights in the
 presence of non-measured points

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index b8fceb1..3495aaa 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -109,6 +109,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
 
     dtype = np.dtype(dtype)
     data = surface.data
+    # Non-measured points cannot be represented by an integer data type
+    if dtype.kind in ['i', 'u'] and np.any(np.isnan(data)):
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From 924361154971526a73095eef99af2f16ebd915f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 15/38] fix: sflz layer names that contain non-ascii characters

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 3495aaa..5edbd3d 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -148,7 +148,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From 8dcfe847df7cde86691451e70bdc53999c4e774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 16/38] fix: compressed sur files declare the size of the
 compressed data

---
 surfalize/file/sur.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..e573049 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -435,6 +435,12 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'unit_step_t': ''
     }
 
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # The size of the compressed data includes the directory that precedes the data stream
+        header['compressed_data_size'] = struct.calcsize('<3I') + len(compressed_data)
+
     LAYOUT_HEADER.write(filehandle, header, encoding=encoding)
     if comment:
         filehandle.write(comment)
@@ -442,8 +448,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From 4728cc2f5668364c40baa03da3765601d54eed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 17/38] fix: the header lines of ascii sdf files

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From f2f883a66f68f4cd9347a8d9cdf2d45ef19486cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 18/38] fix: os3d files without an image layer

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From 86992c217625938b53e866fecb8ecd56ffc8ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 19/38] fix: plux files without an image layer

---
 surfalize/file/plux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 591bd20..8c646ca 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -44,7 +44,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x)).copy()
     image_layers = {}
-    if read_image_layers:
+    if read_image_layers and IMAGE_FILE_NAME in contents:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3)).copy()
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From 3e869154416fe8c1f225f454baa393f519da25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 20/38] fix: image layers of non-square nms files

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From fec6267318e4b599c35c7ae4e3b9d8583b98b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 21/38] fix: reading a truncated fits file must not hang

---
 surfalize/file/fits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..810ad5b 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if not block:
+            raise FileFormatError("Unexpected end of file inside of the header.")
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From 8cc42864101675bece6b67fe8e4706af4f074873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 22/38] fix: fits layers whose data ends at a block boundary

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 810ad5b..ed578a7 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -94,7 +94,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From affe9314ca461fa1eb4939ebbc908b472db7e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 23/38] fix: the layer selected from gwy files must not depend
 on string hash randomization

---
 surfalize/file/gwy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..2364fc0 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -125,7 +125,7 @@ def get_image_related_layer_keys(tree):
         mo = re.search(r'/(\d+)/', key)
         if mo:
             image_related_layers.append(mo.group(1))
-    return list(set(image_related_layers))
+    return list(dict.fromkeys(image_related_layers))
 
 
 class Container:
-- 
2.43.0


From 9f4d1cdf3779fe8e00606ecb34be19783ab74ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 24/38] fix: restore the position of a buffer also if reading
 or writing fails

---
 surfalize/file/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..275c794 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From 3dbbe3be5c06e8f8912e80f11cdf54c21bc92f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 25/38] fix: buffers that do not start at position zero are
 read from their current position

---
 surfalize/file/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 275c794..e5161e9 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -485,7 +485,7 @@ class FileHandler:
                         warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
                                       f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
                                       f'correct. The file was now loaded as {reader._suffix}.')
-                    filehandle.seek(0, 0)
+                    filehandle.seek(-len(magic), 1)
                     return reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
 
         # Else, as a last resort, we try all available readers. We are only probing here and silently discard any
-- 
2.43.0


From 345f49894dbf34c5078081773520dececf38f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 26/38] fix: probe all readers also for buffers

---
 surfalize/file/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index e5161e9..d04e622 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -496,9 +496,10 @@ class FileHandler:
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                              f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-                              f'correct. The file was now loaded as {reader_suffix}.')
+                if self.is_path_like():
+                    warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
+                                  f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
+                                  f'correct. The file was now loaded as {reader_suffix}.')
                 return result
             except Exception:
                 pass
-- 
2.43.0


From 33bc5b98110b5bc974126e2c78a61719bb32a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 27/38] fix: an explicitly specified format takes precedence
 over the file suffix when saving

---
 surfalize/file/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index d04e622..a5d90f8 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -510,10 +510,12 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
-            suffix = self.file.suffix
+        if self.format is not None:
+            suffix = self.format.lower()
+        elif self.is_path_like():
+            suffix = self.file.suffix.lower()
         else:
-            suffix = self.format
+            suffix = None
         if not suffix:
             raise ValueError('No format for the file specified.') from None
         if suffix not in self._writers:
-- 
2.43.0


From 26bf44f3075dddd1fcf6ef351b47055cf4a6b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 28/38] fix: ignore_errors for custom parameters of a batch

---
 surfalize/batch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..4a5cee0 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,9 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            # The names of the columns are unknown since only the custom function defines them, therefore the values of
+            # this file are left out and appear as nan in the result
+            result = dict()
         return result
 
 
-- 
2.43.0


From 85d4abefea3d1d2c96397fd057dc9a8926a3c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 29/38] fix: registering a custom parameter twice raises a
 BatchError

---
 surfalize/batch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 4a5cee0..f9436ff 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -383,6 +383,7 @@ class _CustomParameter:
     def __init__(self, func):
         self.func = func
         self.name = id(func)
+        self.identifier = getattr(func, '__name__', repr(func))
 
     def calculate_from(self, surface, ignore_errors=True):
         try:
-- 
2.43.0


From 43848eb43534dfa352d7a4118eb047cc27eb7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 30/38] fix: the literal parts of a filename template are not
 regular expressions

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index f9436ff..7cc07e5 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,5 +1,6 @@
 import inspect
 import io
+import re
 from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
@@ -136,7 +137,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -144,12 +145,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From 479487f8c5a5d31742f4b0fe29cb2e2896cc9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 31/38] fix: the format of a converted file is determined by
 the suffix of the output file

---
 surfalize/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..7be65d8 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -200,7 +200,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    if input_path.is_file() and output_path.suffix:
         format = output_path.suffix
 
     if format != '.sur' and compressed:
@@ -220,7 +220,7 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         kwargs['compressed'] = compressed
 
     if input_path.is_file():
-        convert_file(input_path, output_path, skip_image_layers, **kwargs)
+        convert_file(input_path, output_path, skip_image_layers, format=format, **kwargs)
         click.echo(f"Converted {input_path} → {output_path}")
         return
 
-- 
2.43.0


From 3bf19c32f02ca509c0d3bc5cb5c6d8893dfa20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 32/38] fix: stepheight_level must not seed the leveled surface
 with the mask of the unleveled surface

---
 surfalize/surface.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 374da61..8cd11ff 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -803,12 +803,7 @@ class Surface(BaseTopography):
         if inplace:
             self._set_data(data=leveled_data)
             return self
-        surface = Surface(leveled_data, self.step_x, self.step_y)
-        # This is not an ideal solution, but I can't think of a better one without major refactoring
-        # If the leveling is not done inplace, we need to somehow transfer the computed mask to the new objhect
-        # We are manually creating a cache entry for the new surface object so that we don't have to recompute the mask
-        surface.create_cache_entry(surface._stepheight_get_mask, mask, tuple(), dict())
-        return surface
+        return Surface(leveled_data, self.step_x, self.step_y)
 
     @cache
     def _stepheight_get_upper_lower_median(self):
-- 
2.43.0


From 6808c75e29852acf9b0f10b50db61e53d1f29fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 33/38] fix: surface area of surfaces with different step sizes
 in x and y

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8cd11ff..7662a07 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1001,8 +1001,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From 260b2bf74a4c3f9f1ef7a3fd632527800dd0afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 34/38] fix: profiles are extracted at the closest data point
 and averaged over the requested number of profiles

---
 surfalize/surface.py | 69 ++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 7662a07..b732373 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -359,6 +359,35 @@ class Surface(BaseTopography):
         """
         return list(self.image_layers.keys())
 
+    @staticmethod
+    def _profile_slice(position, step, n, average, average_step):
+        """
+        Determines which of n parallel profiles are averaged for a profile at a position (in µm).
+
+        Parameters
+        ----------
+        position : float
+            position of the profile in µm.
+        step : float
+            distance in µm between neighboring profiles.
+        n : int
+            number of available profiles.
+        average : int
+            number of profiles over which to average.
+        average_step : float | None
+            distance in µm between the averaged profiles.
+
+        Returns
+        -------
+        slice
+        """
+        idx = min(round(position / step), n - 1)
+        stride = 1 if average_step is None else max(round(average_step / step), 1)
+        # the profiles in front of the position are counted from the position itself, so that it is always included
+        first = idx - min(max(average - 1, 0) // 2, idx // stride) * stride
+        last = idx + average // 2 * stride
+        return slice(first, last + 1, stride)
+
     def get_horizontal_profile(self, y, average=1, average_step=None):
         """
         Extracts a horizontal profile from the surface with optional averaging over parallel profiles.
@@ -383,20 +412,8 @@ class Surface(BaseTopography):
         if not 0 <= y <= self.height_um:
             raise ValueError("y must not exceed height of surface.")
         
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_y)
-
-        # vertical index of profile
-        idx = min(int(y / self.height_um * self.size.y), self.size.y - 1)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.y if idx_max > self.size.y else idx_max
-        data = self.data[idx_min:idx_max + 1:average_step_px].mean(axis=0)
+        rows = self._profile_slice(y, self.step_y, self.size.y, average, average_step)
+        data = self.data[rows].mean(axis=0)
         return Profile(data, self.step_x, self.width_um)
     
     def get_vertical_profile(self, x, average=1, average_step=None):
@@ -423,20 +440,8 @@ class Surface(BaseTopography):
         if not 0 <= x <= self.width_um:
             raise ValueError("x must not exceed width of surface.")
         
-        if average_step is None:
-            average_step_px = 1
-        else:
-            average_step_px = int(average_step / self.step_x)
-
-        # vertical index of profile
-        idx = min(int(x / self.width_um * self.size.x), self.size.x - 1)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.x if idx_max > self.size.x else idx_max
-        data = self.data[:, idx_min:idx_max + 1:average_step_px].mean(axis=1)
+        columns = self._profile_slice(x, self.step_x, self.size.x, average, average_step)
+        data = self.data[:, columns].mean(axis=1)
         return Profile(data, self.step_y, self.height_um)
 
     #TODO: implement averaging
@@ -468,10 +473,10 @@ class Surface(BaseTopography):
             not(0 <= x1 <= self.width_um) or not(0 <= y1 <= self.height_um)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
-        x0px = min(int(x0 / self.width_um * self.size.x), self.size.x - 1)
-        y0px = min(int(y0 / self.height_um * self.size.y), self.size.y - 1)
-        x1px = min(int(x1 / self.width_um * self.size.x), self.size.x - 1)
-        y1px = min(int(y1 / self.height_um * self.size.y), self.size.y - 1)
+        x0px = min(round(x0 / self.step_x), self.size.x - 1)
+        y0px = min(round(y0 / self.step_y), self.size.y - 1)
+        x1px = min(round(x1 / self.step_x), self.size.x - 1)
+        y1px = min(round(y1 / self.step_y), self.size.y - 1)
 
         dx = x1px - x0px
         dy = y1px - y0px
-- 
2.43.0


From 27e51583d8c6dfbc9876d4fb2ae0a9bfa1dbe672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 35/38] fix: depth must not sample beyond the last row or
 column

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index b732373..06edb5d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1573,11 +1573,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / max(nprofiles - 1, 1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / max(nprofiles - 1, 1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 296f9239d8ecf335540333aa14b8abcf23646734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 36/38] fix: additional data must not remove the files it does
 not mention from the result of a batch

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 7cc07e5..a1618a1 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -742,7 +742,7 @@ class Batch:
         """
         df = pd.DataFrame(results)
         if self._additional_data is not None:
-            df = pd.merge(self._additional_data, df, on='file')
+            df = pd.merge(self._additional_data, df, on='file', how='right')
         if self._filename_pattern is not None:
             parser = FilenameParser(self._filename_pattern)
             df = parser.apply_on(df, 'file')
-- 
2.43.0


From f96fd552a57eb77122a2b4ed96eeac79cf62db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:11 +0000
Subject: [PATCH 37/38] fix: a rejected bulk registration must not register
 some of the parameters

---
 surfalize/batch.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index a1618a1..9cfffb5 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -949,8 +949,14 @@ class Batch:
         """
         if parameters is None:
             parameters = list(Surface.ISO_PARAMETERS)
-        for parameter in parameters:
-            if isinstance(parameter, str):
-                parameter = _Parameter(parameter)
-            self._add_step(parameter)
+        steps = list(self._steps)
+        try:
+            for parameter in parameters:
+                if isinstance(parameter, str):
+                    parameter = _Parameter(parameter)
+                self._add_step(parameter)
+        except BatchError:
+            # Do not leave the batch with only some of the parameters registered
+            self._steps = steps
+            raise
         return self
\ No newline at end of file
-- 
2.43.0


From 5a7f42670048e3bc3ba2396a8d5d21c0ccf223a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:32 +0000
Subject: [PATCH 38/38] fix: the legend of missing points must not draw on
 pyplot's current axes

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 06edb5d..d42228e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -10,6 +10,7 @@ from collections import namedtuple
 # Scipy stack
 import numpy as np
 import matplotlib.pyplot as plt
+from matplotlib.lines import Line2D
 from matplotlib.patches import Rectangle
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 from scipy.linalg import lstsq
@@ -1778,7 +1779,7 @@ class Surface(BaseTopography):
         ax.set_xlabel('x [µm]')
         ax.set_ylabel('y [µm]')
         if layer == 'Topography' and self.has_missing_points:
-            handles = [plt.plot([], [], marker='s', c=maskcolor, ls='')[0]]
+            handles = [Line2D([], [], marker='s', c=maskcolor, ls='')]
             ax.legend(handles, ['non-measured points'], loc='lower right', fancybox=False, framealpha=1, fontsize=6)
         if save_to:
             fig.savefig(save_to, dpi=300, bbox_inches='tight')
-- 
2.43.0

