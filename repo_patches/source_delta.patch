From bd10cf74473f5f353e14694d46ed9f925c8e8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 01/21] fix: report a non UTF-8 descriptor with a proper
 UnicodeDecodeError

The exception was built with the wrong number of arguments, so that a
TypeError hid the cause.
---
 src/emva1288/process/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..304ae2d 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -235,7 +235,8 @@ class ParseEmvaDescriptorFile(object):
         try:
             self._lines = [x.strip() for x in f.readlines() if x.strip() and
                            not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
+            raise UnicodeDecodeError(e.encoding, e.object, e.start, e.end,
+                                     "File: '%s', has non-utf8 characters. "
                                      "Find them and kill them!" % filename)
-- 
2.43.0


From 369bef3814fd84564b2d31dd6a58742b38b2ac59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 02/21] fix: np.int does not exist anymore, compare_xml failed
 every nonzero value

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..246c055 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,7 +512,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From afc549be5888b9235ca7153f54ef98c9e94c0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 03/21] fix: xml_to_dict can read from a string

lxml has no ElementTree.fromstring, so that every string was refused.
---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 246c055..ac653fb 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -462,7 +462,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From a3b62d2174d881fc156cadea7017581bfdb5921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 04/21] fix: Plotting1288 keeps every test, not only the last
 one

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 484bbc77ba008a037ea8f0adc8712f70b7db72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 05/21] fix: Plotting1288.plot does not draw over the figures
 of an earlier call

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..6a303e6 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -864,7 +864,7 @@ class Plotting1288(object):
             plots = EVMA1288plots
 
         for i, plot_cls in enumerate(plots):
-            figure = plt.figure(i)
+            figure = plt.figure(i, clear=True)
             plot = plot_cls(figure)
             for test in self.tests:
                 plot.plot(test)
-- 
2.43.0


From d7945422d9d4bb426d94f8afb2b64903a8e1d540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 06/21] fix: bad_pixel draws distinct pixels

---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..acada45 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From ea7581caf329b303ec8109e8640d541d4b989c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 07/21] fix: bad_pixel accepts bad_value=None as documented

---
 src/emva1288/camera/bad_images.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index acada45..02ac86f 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -19,6 +19,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     """
     # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
+    if bad_value is None:
+        bad_value = 1
     bad_value = bad_value * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
-- 
2.43.0


From b44dc71a870ce4aa5e14040ef089837e92060ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 08/21] fix: Qe does not change the quantum efficiency array of
 the caller

With a filter, the array passed in was multiplied in place, so a second Qe
made from the same array got both filters.
---
 src/emva1288/camera/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..0edb586 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -234,7 +234,7 @@ class Qe(object):
                              (self._height, self._width, len(self._w)))
 
         if filter is not None:
-            self._qe *= filter
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From f8bbed7b4bb1bf2b4ffb58b060add1b93867ea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 09/21] fix: Report1288 does not change the info dictionaries
 of the caller

The logo, missingplot and qe_plot paths were replaced in place, so a second
report made from the same dictionaries failed or referred to wrong files.
---
 src/emva1288/report/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..e5cb783 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,8 +202,9 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
+        # copies, the paths of the uploaded files are replaced below
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
-- 
2.43.0


From a9fb6a3f6b4b351e366ac9dc1af8c9fb8938745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 10/21] fix: complete the static files of an existing report
 directory

When 'files' existed, e.g. because an earlier run was killed while copying,
nothing was copied and the report referred to missing files.
---
 src/emva1288/report/report.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index e5cb783..c7c2744 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -266,10 +266,8 @@ class Report1288(object):
 
         files_dir = os.path.join(self._outdir, 'files')
         currfiles = os.path.join(_CURRDIR, 'files')
-        try:
-            copytree(currfiles, files_dir)
-        except FileExistsError:  # pragma: no cover
-            pass
+        # complete what an interrupted earlier run may have left
+        copytree(currfiles, files_dir, dirs_exist_ok=True)
 
         upload_dir = os.path.join(self._outdir, 'upload')
         try:
-- 
2.43.0


From 37727da932f3e0216cf93564d9195bdae7ff849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 11/21] fix: report uploads with the same file name do not
 overwrite each other

---
 src/emva1288/report/report.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index c7c2744..ac8553b 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -275,12 +275,18 @@ class Report1288(object):
         except FileExistsError:  # pragma: no cover
             pass
 
+        uploads = {}
+
         def uploaded_file(fname, default):
             if fname:  # pragma: no cover
-                shutil.copy(os.path.abspath(fname), upload_dir)
-                v = posixpath.join(
-                    'upload',
-                    os.path.basename(fname))
+                src = os.path.abspath(fname)
+                name = os.path.basename(fname)
+                # different files with the same name must not overwrite
+                # each other
+                while uploads.setdefault(name, src) != src:
+                    name = '_' + name
+                shutil.copy(src, os.path.join(upload_dir, name))
+                v = posixpath.join('upload', name)
             else:
                 v = posixpath.join('files', default)
             return v
-- 
2.43.0


From 905b2d40c30a1d3d6959d72480d5e701f16fca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 12/21] fix: Report1288.add does not change the op dictionary
 of the caller

Reusing the dictionary replaced the operation point added before, and a
failed addition left a wrong name behind.
---
 src/emva1288/report/report.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index ac8553b..7f0f4e1 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -1,3 +1,4 @@
+import copy
 import jinja2
 import os
 import shutil
@@ -378,6 +379,8 @@ class Report1288(object):
                :class:`~emva1288.process.results.Results1288` class.
         """
         n = len(self.ops) + 1
+        # a copy, so that op can be added again or reused for another point
+        op = copy.deepcopy(op)
         op['id'] = 'OP%d' % (n)
         if not op['name']:
             op['name'] = op['id']
-- 
2.43.0


From e29a71fb175f528ba5eb457c20543c3110e9fc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 13/21] fix: histograms and plots of dark and bright stacks of
 different length

The sums of both stacks were subtracted from each other, or divided by the
length of the bright stack, as if L and L_dark were always equal.
---
 src/emva1288/process/plotting.py | 17 ++++++++---------
 src/emva1288/process/results.py  | 18 ++++++++++++++----
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 6a303e6..03d2b6c 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -378,8 +378,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data) / data_mean
@@ -416,7 +416,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -447,8 +447,8 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
@@ -485,7 +485,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -691,9 +691,8 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
+        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..2d18df1 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1110,6 +1110,16 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _prnu_image(self):
+        # Difference of bright and dark image and its scale. The sum images
+        # are brought to a common number of images, to keep the integers
+        L = self.spatial['L']
+        L_dark = self.spatial['L_dark']
+        scale = int(np.lcm(L, L_dark))
+        y = (self.spatial['sum'] * (scale // L) -
+             self.spatial['sum_dark'] * (scale // L_dark))
+        return y, scale
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1135,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._prnu_image()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1161,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, scale = self._prnu_image()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1169,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (scale * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From fd4a98e9b662ecc516978ae3029e540d079e335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:38 +0000
Subject: [PATCH 14/21] fix: compare_xml accepts equal undefined values,
 rejects arrays of different size

---
 src/emva1288/process/routines.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index ac653fb..a0f6b68 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -512,10 +512,20 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
+    # undefined and infinite values have no digits
+    if not np.isfinite(v):
+        return v
     return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
-round_array = np.vectorize(round_significant)
+round_array = np.vectorize(round_significant, otypes=[np.float64])
+
+
+def _same(a, b):
+    '''
+    Same size and same values up to the significant digits
+    '''
+    return np.array_equal(round_array(a), round_array(b), equal_nan=True)
 
 
 def compare_xml(x1, x2, filename=None):
@@ -572,10 +582,7 @@ def compare_xml(x1, x2, filename=None):
             # if both present only values will be taken in count for comparison
             # If both are values
             if v1 is not None and v2 is not None:
-                try:
-                    r = (round_significant(v1) - round_significant(v2)) == 0.0
-                except:
-                    r = False
+                r = _same(v1, v2)
                 t1 = v1
                 t2 = v2
 
@@ -592,14 +599,14 @@ def compare_xml(x1, x2, filename=None):
                 else:
                     # loop throught the keys
                     for k in k1:
-                        try:
-                            r = np.max(np.abs(round_array(a1[k]) -
-                                              round_array(a2[k]))) == 0.0
-                        except:
-                            r = False
-
+                        r = _same(a1[k], a2[k])
                         if not r:
                             break
+            # entries without a value, e.g. not computed, in both
+            elif (methodname in m1 and methodname in m2 and
+                  v1 is None and v2 is None and a1 is None and a2 is None):
+                t1 = t2 = str(None)
+                r = True
             else:
                 t1 = str(v1)
                 t2 = str(v2)
-- 
2.43.0


From 5859d46c3ef111d1b4d005ba4189328194347fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 15/21] fix: name the camera's vendor in the page header of a
 report

---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..bcd32a6 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ marketing.vendor or basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From 25fce6637f8c98148975f83625fb5487487b5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 16/21] fix: illumination variation uses the given minimal and
 maximal radiance

---
 src/emva1288/camera/points_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..a936844 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -73,8 +73,10 @@ class PointsGenerator:
             self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -104,8 +106,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From d8b84843a1509378d1e87e0658b5836b10582de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 17/21] fix: points generator applies the given gain and black
 offset in every variation

---
 src/emva1288/camera/points_generator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index a936844..58c2f2a 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -59,7 +59,11 @@ class PointsGenerator:
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
         self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        self._blackref = blackref
+        if blackref is None:
+            self._blackref = self._cam.blackoffset
+        self._cam.K = self._gain
+        self._cam.blackoffset = self._blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -69,8 +73,6 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
             if self._radiance_min is None:
-- 
2.43.0


From e79a278cbf1d8a9e2996cae9973f93e0144000b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 18/21] fix: radiance for a mean of zero, and dark current of
 the given exposure

---
 src/emva1288/camera/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..7b4bb12 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -386,11 +386,11 @@ class Camera(object):
             The radiance at which, for the given saturation value and
             the given exposure time, the camera saturates.
         """
-        if not mean:
+        if mean is None:
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 9daf7b13ff95b782afda2c0d2c0c6d11b31ebe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 19/21] fix: draw PRNU spectrograms in per cent of the mean,
 like their axis and reference lines

---
 src/emva1288/process/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 03d2b6c..421562b 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -382,10 +382,10 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        spectrogram = routines.FFT1288(data)
 
         ax.plot(routines.GetFrecs(spectrogram),
-                (np.sqrt(spectrogram)),
+                (100 * np.sqrt(spectrogram) / data_mean),
                 label='Data',
                 gid='%d:data' % test.id)
 
@@ -450,10 +450,10 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data = (test.spatial['sum'] / test.spatial['L'] -
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        spectrogram = routines.FFT1288(data, rotate=True)
 
         ax.plot((routines.GetFrecs(spectrogram)),
-                (np.sqrt(spectrogram)),
+                (100 * np.sqrt(spectrogram) / data_mean),
                 label='Data',
                 gid='%d:data' % test.id)
 
-- 
2.43.0


From c511748d4092e26f80bfc30e6b385c3cdc065591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 20/21] fix: declare and write reports as UTF-8

---
 src/emva1288/report/report.py            | 2 +-
 src/emva1288/report/templates/report.tex | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 7f0f4e1..0563aa5 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -305,7 +305,7 @@ class Report1288(object):
     def _write_file(self, name, content):
         # write content into a file
         fname = os.path.join(self._outdir, name)
-        with open(fname, 'w') as f:
+        with open(fname, 'w', encoding='utf-8') as f:
             f.write(content)
         return fname
 
diff --git a/src/emva1288/report/templates/report.tex b/src/emva1288/report/templates/report.tex
index 312574e..5957775 100644
--- a/src/emva1288/report/templates/report.tex
+++ b/src/emva1288/report/templates/report.tex
@@ -1,6 +1,6 @@
 \documentclass[a4paper,twoside,12pt,american,hidelinks]{article}
 \usepackage[T1]{fontenc}
-\usepackage[cp1257]{inputenc}
+\usepackage[utf8]{inputenc}
 \usepackage{lmodern}
 \usepackage{graphicx}
 \usepackage{fancyhdr}
-- 
2.43.0


From 6dcdf436f6c1fe845b35a4be9bbf9b645f1fcbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 21/21] fix: histogram plots of several tests keep the counts
 of all of them in view

---
 src/emva1288/process/plotting.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 421562b..b4ed27b 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -514,6 +514,10 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramDSNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
 
@@ -529,7 +533,9 @@ class PlotLogarithmicHistogramDSNU(Emva1288Plot):
 
         self.set_legend(ax)
 
-        ax.axis(ymin=1.0, ymax=np.max(hist['values']) * 2)
+        # the counts of all the tests stay visible
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=1.0, ymax=max(self.max_values) * 2)
 
 
 class PlotLogarithmicHistogramPRNU(Emva1288Plot):
@@ -540,6 +546,10 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
     ylabel = 'Number of pixels'
     yscale = 'log'
 
+    def setup_figure(self):
+        super(PlotLogarithmicHistogramPRNU, self).setup_figure()
+        self.max_values = []
+
     def plot(self, test):
         ax = self.ax
         hist = test.histogram_PRNU
@@ -552,7 +562,9 @@ class PlotLogarithmicHistogramPRNU(Emva1288Plot):
                 label='Model')
 
         self.set_legend(ax)
-        ax.axis(ymin=0.5, ymax=np.max(hist['values']) * 2)
+        # the counts of all the tests stay visible
+        self.max_values.append(np.max(hist['values']))
+        ax.axis(ymin=0.5, ymax=max(self.max_values) * 2)
 
 
 class PlotAccumulatedLogHistogramDSNU(Emva1288Plot):
-- 
2.43.0

