From c04f7ed01b320d19cc3c29c23396ca65dc9f4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 001/142] fix: write the block file header with the requested
 endianness

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..2e83503 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -97,7 +97,7 @@ def get_header_dtype_list(endianness="<"):
 
 def get_default_header(endianness="<"):
     """Returns a header pre-populated with default values."""
-    dt = np.dtype(get_header_dtype_list())
+    dt = np.dtype(get_header_dtype_list(endianness))
     header = np.zeros((1,), dtype=dt)
     header["ID"][0] = "IMGBLO".encode()
     header["MAGIC"][0] = magics[0]
-- 
2.43.0


From b4a62c14bc7338087d83528fcd823b018c18ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 002/142] fix: ripple reader marks the only axis of a
 one-pixel-wide image as signal axis

---
 rsciio/ripple/_api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..7b73cf8 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -321,10 +321,9 @@ def file_reader(
     else:
         if len(data.shape) == 1:
             _logger.info("Loading as Signal1D")
-            navigate = [True, True, False]
         else:
             _logger.info("Loading as Signal2D")
-            navigate = [True, False, False]
+        navigate = [True, False, False]
 
     if rpl_info["record-by"] == "vector":
         idepth, iheight, iwidth = 2, 0, 1
-- 
2.43.0


From ec38f6651b8bb5fc8088b4dbbbd33e9a8845d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 003/142] fix: ripple writer sets "record-by" to "dont-care"
 when the depth is 1

---
 rsciio/ripple/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 7b73cf8..1a1442d 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -574,7 +574,8 @@ def file_writer(filename, signal, encoding="latin-1"):
         "data-type": data_type,
         "data-length": data_length,
         "byte-order": byte_order,
-        "record-by": record_by,
+        # the format requires "dont-care" when there is a single channel or image
+        "record-by": record_by if depth > 1 else "dont-care",
         "signal": signal_type,
         "date": date,
         "time": time,
-- 
2.43.0


From 16ec5ba558bfa9fe6fbbb12d73332ad30368cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 004/142] fix: tvips writer stores the scale of the signal axis
 as pixel size

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..86c127b 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -113,7 +113,7 @@ def _get_main_header_from_signal(signal, version=2, frame_header_extra_bytes=0):
     # original pixel scale
     mode = _guess_image_mode(signal)
     axes = signal["axes"]
-    scale = axes[0]["scale"]
+    scale = axes[-2]["scale"]
     offsetx = axes[-1]["offset"]
     offsety = axes[-2]["offset"]
     unit = axes[-2]["units"]
-- 
2.43.0


From 7a6bfc93d0b0b6012d7f3a17ea80d7f4b68d8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 005/142] fix: tvips writer takes the stage tilts from
 TEM.Stage, where the reader puts them

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 86c127b..44639d9 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -591,8 +591,8 @@ def file_writer(
     stagex = metadata.get("Acquisition_instrument.TEM.Stage.x", 0)
     stagey = metadata.get("Acquisition_instrument.TEM.Stage.y", 0)
     stagez = metadata.get("Acquisition_instrument.TEM.Stage.z", 0)
-    stagea = metadata.get("Acquisition_instrument.TEM.tilt_alpha", 0)
-    stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
+    stagea = metadata.get("Acquisition_instrument.TEM.Stage.tilt_alpha", 0)
+    stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
     frames_to_save = num_frames if num_frames else 1
-- 
2.43.0


From 98faa8c7943d233f54c3d8507a101177f5e9fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 006/142] fix: tvips writer supports a single image without
 navigation axes

---
 rsciio/tvips/_api.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 44639d9..fe92001 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -545,7 +545,8 @@ def file_writer(
     metadata = DTBox(signal["metadata"], box_dots=True)
     signal_dim = len([axis for axis in axes if not axis["navigate"]])
     nav_shape = [axis["size"] for axis in axes if axis["navigate"]]
-    num_frames = np.prod(nav_shape) if nav_shape else 0
+    # a single image without navigation axes is a stack of one frame
+    num_frames = np.prod(nav_shape) if nav_shape else 1
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
     fnb, ext = os.path.splitext(filename)
@@ -575,7 +576,8 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
-    if num_frames:
+    time_increment = 1
+    if nav_shape:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
         try:
@@ -583,7 +585,7 @@ def file_writer(
 
             time_increment = (nav_increment * _UREG(nav_units)).to("ms").magnitude
         except (AttributeError, pint.UndefinedUnitError, pint.DimensionalityError):
-            time_increment = 1
+            pass
     # imaging or diffraction
     if mode is None:
         mode = _guess_image_mode(signal)
@@ -595,12 +597,11 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
+    frames_to_save = num_frames
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From dbfdbb7fe03501a6208014a17fb03b558a5a00d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 007/142] fix: tvips reader supports a file with a single frame

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index fe92001..83f07f7 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
-- 
2.43.0


From a423fe95a04c929dadf82df590f5e8eb83eb2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 008/142] fix: tvips writer stores big-endian arrays in the
 little-endian order of the file

---
 rsciio/tvips/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 83f07f7..1ec915a 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -166,7 +166,8 @@ def _get_frame_record_dtype_from_signal(signal, extra_bytes=0):
         fhdtype.append(("extra", bytes, extra_bytes))
     dimx = signal["axes"][-1]["size"]
     dimy = signal["axes"][-2]["size"]
-    fhdtype.append(("data", signal["data"].dtype, (dimy, dimx)))
+    # everything in the file is little-endian, whatever the order in memory
+    fhdtype.append(("data", signal["data"].dtype.newbyteorder("<"), (dimy, dimx)))
     dt = np.dtype(fhdtype)
     return dt
 
-- 
2.43.0


From 29b39c660907828b93b5ee54143e86e93d9d904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 009/142] fix: tvips reader gives date and time in UTC, as its
 time_zone says

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 1ec915a..6ad73d0 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -444,7 +444,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], tz=timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From 15f0188463343acde8598f361c989127599bf699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 010/142] fix: semper writer stores the units of each axis

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..90ae6d5 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From 34646401325fcb60b9416285b4509e9d1e952b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 011/142] fix: semper writer stores big-endian arrays in the
 little-endian order of the file

---
 rsciio/semper/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 90ae6d5..df33049 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -352,7 +352,9 @@ class SemperFormat(object):
             )
             msg += "Supported data types are: " + ", ".join(supported_formats)
             raise IOError(msg)
-        return data, iform
+        # the file is little-endian, whatever the order in memory
+        file_dtype = np.dtype(cls.IFORM_DICT[iform]).newbyteorder("<")
+        return data.astype(file_dtype, copy=False), iform
 
     @classmethod
     def load_from_unf(cls, filename, lazy=False):
-- 
2.43.0


From e934410d1fa81c21a4b1882c6a6bbb9cbe46ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 012/142] fix: semper writer counts the bytes, not the
 characters, of the title

---
 rsciio/semper/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index df33049..829b9b9 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -462,19 +462,20 @@ class SemperFormat(object):
                 header["ICLASS"] = self.metadata.get("ICLASS", 6)  # 6: Undefined!
                 header["IFORM"] = iform
                 # IVERSN: 2; ILABEL:1 (True)
-                header["IFLAG"] = 2 * 10000 + 1000 + len(title)
+                title_bytes = title.encode()
+                header["IFLAG"] = 2 * 10000 + 1000 + len(title_bytes)
                 # Write header:
                 f.write(struct.pack("<i", 12))  # record length, 4 byte format!
                 f.write(header.tobytes())
                 f.write(struct.pack("<i", 12))  # record length, 4 byte format!
                 # Write title:
-                if len(title) > 0:
+                if len(title_bytes) > 0:
                     f.write(
-                        struct.pack("<i", len(title))
+                        struct.pack("<i", len(title_bytes))
                     )  # record length, 4 byte format!
-                    f.write(title.encode())
+                    f.write(title_bytes)
                     f.write(
-                        struct.pack("<i", len(title))
+                        struct.pack("<i", len(title_bytes))
                     )  # record length, 4 byte format!
                 # Create label:
                 label = self._get_label()
-- 
2.43.0


From 75a40ec14ad1d93a28e0d730539896b9490870f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:35 +0000
Subject: [PATCH 013/142] fix: semper writer accepts complex data of any value

---
 rsciio/semper/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 829b9b9..cfbe3ba 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -306,7 +306,11 @@ class SemperFormat(object):
         date_ints = list(map(int, year.split("-"))) + list(map(int, time.split(":")))
         date_ints[0] -= 1900  # Modify year integer!
         label["DATE"] = date_ints
-        range_string = "{:.4g},{:.4g}".format(self.data.min(), self.data.max())
+        values = self.data
+        if np.iscomplexobj(values):
+            # a range of complex numbers does not fit into the range record
+            values = np.concatenate([values.real.ravel(), values.imag.ravel()])
+        range_string = "{:.4g},{:.4g}".format(values.min(), values.max())
         label["NCRANG"] = len(range_string)
         label["RANGE"][:, : len(range_string)] = [ord(c) for c in range_string]
         label["IPLTYP"] = self.metadata.get("IPLTYP", 248)  # seems standard
-- 
2.43.0


From 17afb3a5018a05d87b0ba80f1a22a13ef847e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 014/142] fix: digitalsurf: write floating-point data of a
 single value

---
 rsciio/digitalsurf/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..71e47d4 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1001,6 +1001,9 @@ class DigitalSurfHandler(object):
             Zmax = 2**32 + Zmin - 1
 
         Zscale = (Zmax_f - Zoffset_f) / (Zmax - Zmin)
+        if Zscale == 0:
+            # All points have the same value: any non-zero step will do
+            Zscale = 1.0
         data_int = (data - Zoffset_f) / Zscale + Zmin
 
         if is_special and is_nan:
-- 
2.43.0


From d37db4522583e459bcb613a3d802d09a440ed05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 015/142] fix: digitalsurf: rescale surfaces with an integer
 step or offset

---
 rsciio/digitalsurf/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 71e47d4..9e2c9e7 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2166,10 +2166,11 @@ class DigitalSurfHandler(object):
                 "_23_Z_Spacing"
             ) / self._get_work_dict_key_value("_35_Z_Unit_Ratio")
             offset = self._get_work_dict_key_value("_55_Z_Offset")
-            if float(scale).is_integer() and float(offset).is_integer():
-                return True
-            else:
-                return False
+            # The points are the values themselves only when rescaling them
+            # ((points - Zmin) * scale + offset) leaves them unchanged. The offset
+            # is stored in single precision.
+            Zmin = self._get_work_dict_key_value("_16_Zmin")
+            return bool(scale == 1 and offset == np.float32(Zmin))
         else:
             return False
 
-- 
2.43.0


From 152bbc87191a9258f3894e525481a26e11e50163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 016/142] fix: digitalsurf: axis position of a single spectrum

---
 rsciio/digitalsurf/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 9e2c9e7..10d1003 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1414,7 +1414,8 @@ class DigitalSurfHandler(object):
             self.signal_dict["axes"].append(self._build_Yax(hypdic, ind=0, nav=True))
 
         # Add the signal axis_src to the signal dict
-        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
+        ind = len(self.signal_dict["axes"])
+        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=ind, nav=False))
 
         # We reshape the data in the correct format.
         # Edit: the data is now squeezed for unneeded dimensions
-- 
2.43.0


From b6b2dfdd70cbafd1c7797e362ea39a6a9180b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 017/142] fix: digitalsurf: original metadata of multi-channel
 series

---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 10d1003..ddc2ad0 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1706,12 +1706,12 @@ class DigitalSurfHandler(object):
             # Iteration over the Number of Data channels
             for j in range(max(self._N_data_channels, 1)):
                 # Creating a dictionary key for each object
-                k = (i + 1) * (j + 1)
+                k = i * max(self._N_data_channels, 1) + j
                 key = "Object_{:d}_Channel_{:d}".format(i, j)
                 original_metadata_dict.update({key: {}})
 
                 # We load one full object header
-                a = self._list_sur_file_content[k - 1]
+                a = self._list_sur_file_content[k]
 
                 # Save it as original metadata dictionary
                 headerdict = {
-- 
2.43.0


From 426214f7ea4ff49caa26bb7a5d36db04c5ef2dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 018/142] fix: digitalsurf: write the private zone as given

---
 rsciio/digitalsurf/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index ddc2ad0..fb78c61 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2150,7 +2150,7 @@ class DigitalSurfHandler(object):
 
     def _pack_private(self, file, val, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        self._set_str(file, val, privatesize)
+        self._set_bytes(file, val, privatesize)
 
     def _is_data_int(
         self,
-- 
2.43.0


From ad01eb15711e9c8d823aac4df12f89915ff01876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 019/142] fix: digitalsurf: write big-endian data

---
 rsciio/digitalsurf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index fb78c61..b102e83 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -915,7 +915,9 @@ class DigitalSurfHandler(object):
         Returns:
             tuple[int,int,int,float,float,np.ndarray[int]]: pointsize, Zmin, Zmax, Zscale, Zoffset, data_int
         """
-        data_type = data.dtype
+        # The format is little endian
+        data_type = data.dtype.newbyteorder("<")
+        data = data.astype(data_type, copy=False)
 
         if np.issubdtype(data_type, np.complexfloating):
             raise MountainsMapFileError(
-- 
2.43.0


From f9589cedb07406d1b47afc24e11006be82b224ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 020/142] fix: digitalsurf: write series of 16-bit colour
 images

---
 rsciio/digitalsurf/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index b102e83..df46fc4 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -851,9 +851,9 @@ class DigitalSurfHandler(object):
         self.objtype_split = []
         for d in tmp_data_split:
             self.data_split += [
-                d["R"].astype(np.int16).copy(),
-                d["G"].astype(np.int16).copy(),
-                d["B"].astype(np.int16).copy(),
+                d["R"].astype(np.int32),
+                d["G"].astype(np.int32),
+                d["B"].astype(np.int32),
             ]
             # self.objtype_split += [12,10,10]
         self.objtype_split = [12, 10, 10] * self.Taxis["size"]
-- 
2.43.0


From 49ba7860ed3a44fdab0605b8679b3ea756b13ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 021/142] fix: fix: leave out the offset when working out the
 number of elements

---
 rsciio/utils/_distributed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index d08c1df..ea81ffe 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -248,7 +248,7 @@ def memmap_distributed(
 
     if shape is None:
         unit_size = np.dtype(dtype).itemsize
-        shape = int(os.path.getsize(filename) / unit_size)
+        shape = (os.path.getsize(filename) - offset) // unit_size
     if not isinstance(shape, tuple):
         shape = (shape,)
 
-- 
2.43.0


From 1184e66d8f9d76971d8d1a2afccd8218681a02d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 022/142] fix: fix: keep navigation axes of length one when
 slicing by positions

---
 rsciio/utils/_distributed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index ea81ffe..e25eb1b 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -161,7 +161,11 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
     numpy.ndarray
         Array of the data from the memory mapped file sliced using the provided slice.
     """
-    slices_ = np.squeeze(slices)[()]
+    if positions:
+        # one frame number for each navigation position
+        slices_ = slices[..., 0, 0]
+    else:
+        slices_ = np.squeeze(slices)[()]
     data = np.memmap(file, dtypes, shape=shape, **kwargs)
     if key is not None:
         data = data[key]
-- 
2.43.0


From d8bc25f529e10be9c856ba363a58bfda2e132166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 023/142] fix: fix: write the acquisition time of msa files

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..f4839e3 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -435,8 +435,8 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             day, month, year = date_str.split("-")
             month = US_MONTHS_D2A[month]
             loc_kwds["DATE"] = "-".join((day, month, year))
-        if "General.item" in md:
-            time = dt.strptime(md.General.time, "%H:%M:%S")
+        if "General.time" in md:
+            time = dt.fromisoformat(f"2000-01-01T{md.General.time}")
             loc_kwds["TIME"] = time.strftime("%H:%M")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
         loc_kwds["SIGNALTYPE"] = "EDS"
-- 
2.43.0


From 3191187a69bb28ebc48002d16e0d9085b66aacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 024/142] fix: fix: write msa data with all their digits

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index f4839e3..6066d8d 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -542,11 +542,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 axis_dict["size"]
             )
             for x, y in zip(axis, signal["data"]):
-                f.write("%g%s%g" % (x, separator, y))
+                f.write("%r%s%r" % (float(x), separator, float(y)))
                 f.write("\u000d\u000a")
         elif format == "Y":
             for y in signal["data"]:
-                f.write("%f%s" % (y, separator))
+                f.write("%r%s" % (float(y), separator))
                 f.write("\u000d\u000a")
         else:
             raise ValueError("format must be one of: None, 'XY' or 'Y'")
-- 
2.43.0


From fd1d750241f08ad3f1206d37904c1bc6a4a3b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 025/142] fix: fix: do not modify the original metadata when
 writing msa files

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 6066d8d..3019b1a 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -420,7 +420,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
-- 
2.43.0


From 3137a82b17609c9f95ddbac781ef36c9582f9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 026/142] fix: fix: do not change the msa keyword table when
 writing SEM spectra

---
 rsciio/msa/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 3019b1a..e3ee53b 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -508,10 +508,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
 
     for key, dic in keywords.items():
         if dic["mapped_to"] is not None:
+            mapped_to = dic["mapped_to"]
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = eval("md.%s" % mapped_to)
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From 80d9837db68e4de47aec8905f53df30d938a3bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 027/142] fix: fix: read msa keyword values that contain a
 colon

---
 rsciio/msa/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index e3ee53b..7a29a1f 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -188,7 +188,7 @@ def parse_msa_string(string, filename=None):
         if data_section is False:
             if line[0] == "#":
                 try:
-                    key, value = line.split(": ")
+                    key, value = line.split(": ", 1)
                     value = value.rstrip()
                 except ValueError:
                     key = line
-- 
2.43.0


From 7e5a600d35790fb17a3c6466a182800196f3a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 028/142] fix: fix: keep spaces where long msa titles are split

---
 rsciio/msa/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 7a29a1f..9de3928 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -530,8 +530,13 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 and len(value) > 0
             ):
                 # Split the value into multiple lines if it is too long, and write each line with the same keyword
-                for i in range(0, len(value), 64):
-                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[i : i + 64]))
+                while len(value) > 0:
+                    part = value[:64]
+                    if len(value) > 64:
+                        # spaces at the end of a line are not significant
+                        part = part.rstrip() or part
+                    f.write("#%-12s: %s\u000d\u000a" % (keyword, part))
+                    value = value[len(part) :]
             else:
                 f.write("#%-12s: %s\u000d\u000a" % (keyword, value))
 
-- 
2.43.0


From b0920055498c260bcb7f3cf048a50f4051223d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 029/142] fix: fix: keep the order of lists of more than ten
 items in hspy and zspy files

---
 rsciio/_hierarchical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..9298ea2 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -644,7 +644,8 @@ class HierarchicalReader:
                     dictionary[key[7 + key[6:].find("_") :]] = [
                         i
                         for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
+                            self._group2dict(group[key], lazy=lazy).items(),
+                            key=lambda item: int(item[0]),
                         )
                     ]
                 elif key.startswith("_tuple_"):
@@ -652,7 +653,8 @@ class HierarchicalReader:
                         [
                             i
                             for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
+                                self._group2dict(group[key], lazy=lazy).items(),
+                                key=lambda item: int(item[0]),
                             )
                         ]
                     )
-- 
2.43.0


From acf638458ad60c862428b4f681273299346e2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 030/142] fix: fix: save 0-dimensional arrays in the metadata
 of hspy and zspy files

---
 rsciio/_hierarchical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 9298ea2..649f0f0 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -881,6 +881,9 @@ class HierarchicalWriter:
         "Recursive writer of dicts and signals"
         for key, value in dictionary.items():
             _logger.debug("Saving item: {}".format(key))
+            if isinstance(value, np.ndarray) and value.ndim == 0:
+                # a single number or text is saved as an attribute
+                value = value[()]
             if isinstance(value, dict):
                 self.dict2group(value, group.require_group(key), **kwds)
             elif isinstance(value, (np.ndarray, self.Dataset)) or is_dask_array(value):
-- 
2.43.0


From 4e439393b75d80d4276580438cbf655617a8f0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 031/142] fix: fix: save numpy strings in the metadata of hspy
 files

---
 rsciio/_hierarchical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 649f0f0..7ae77e4 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -902,7 +902,8 @@ class HierarchicalWriter:
                     group.attrs[key] = value.decode()
 
             elif isinstance(value, str):
-                group.attrs[key] = value
+                # str also converts numpy strings
+                group.attrs[key] = str(value)
 
             elif isinstance(value, list):
                 if len(value):
-- 
2.43.0


From ec4b6c0d49b60320ab393edc36e044af068ab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 032/142] fix: do not keep the previous value of an item of the
 metadata when updating a file

---
 rsciio/_hierarchical.py | 33 +++++++++++++++++++++++++++++++++
 rsciio/zspy/_api.py     |  1 +
 2 files changed, 34 insertions(+)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 7ae77e4..0aba1da 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -19,6 +19,7 @@
 import ast
 import datetime
 import logging
+import re
 import warnings
 
 import h5py
@@ -879,8 +880,12 @@ class HierarchicalWriter:
 
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
+        # The group is not empty when updating a file
+        update = len(group) > 0 or len(group.attrs) > 0
         for key, value in dictionary.items():
             _logger.debug("Saving item: {}".format(key))
+            if update:
+                self._remove_previous(key, value, group)
             if isinstance(value, np.ndarray) and value.ndim == 0:
                 # a single number or text is saved as an attribute
                 value = value[()]
@@ -926,6 +931,34 @@ class HierarchicalWriter:
                         f"information in the file: {key} : {value}"
                     )
 
+    def _remove_previous(self, key, value, group):
+        "Remove what a previous value of another kind or length has left"
+        for prefix in ("", "_bs_", "_list_empty_", "_tuple_empty_"):
+            if prefix + key in group.attrs:
+                del group.attrs[prefix + key]
+
+        # Dictionaries are merged and datasets are overwritten later on
+        keep, kind = [], None
+        if isinstance(value, dict):
+            keep, kind = [key], self.Group
+        elif isinstance(value, (list, tuple)):
+            name = "list" if isinstance(value, list) else "tuple"
+            keep, kind = [f"_{name}_{len(value)}_{key}"], self.Group
+        elif isinstance(value, (np.ndarray, self.Dataset)) or is_dask_array(value):
+            keep, kind = [key], self.Dataset
+            if value.dtype == np.dtype("O"):
+                keep.append("_ragged_shapes_" + key)
+
+        datasets = [p + key for p in ("", "_list_", "_tuple_", "_ragged_shapes_")]
+        numbered = re.compile(r"_(list|tuple)_\d+_" + re.escape(key))
+        for name in list(group.keys()):
+            if name in keep and isinstance(group[name], kind):
+                continue
+            if name in datasets or (
+                numbered.fullmatch(name) and isinstance(group[name], self.Group)
+            ):
+                del group[name]
+
     def parse_structure(self, key, group, value, _type, **kwds):
         try:
             # Here we check if there are any signals in the container, as
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..6ac88dc 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -84,6 +84,7 @@ class ZspyWriter(HierarchicalWriter):
     def __init__(self, file, signal, expg, **kwargs):
         super().__init__(file, signal, expg, **kwargs)
         self.Dataset = zarr.Array
+        self.Group = zarr.Group
 
     @staticmethod
     def _get_object_dset(group, data, key, chunks, dtype=None, **kwds):
-- 
2.43.0


From 524055bea4a24e24711ddef37a058736a5f34887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 033/142] fix: accept mode='a' to update a hspy file

---
 rsciio/hspy/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..80b2d48 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -270,7 +270,7 @@ def file_writer(
     if f is None:
         # with "write_dataset=False", we need mode='a', otherwise the dataset
         # will be flushed with using 'w' mode
-        mode = kwds.get("mode", "w" if write_dataset else "a")
+        mode = kwds.pop("mode", "w" if write_dataset else "a")
         if mode != "a" and not write_dataset:
             raise ValueError("`mode='a'` is required to use `write_dataset=False`.")
         if mode in ("w", "w-", "x"):
-- 
2.43.0


From 7cef0918926fcb2c259fd2703457c4cdffce5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 034/142] fix: save numpy booleans in the metadata of zspy
 files

---
 rsciio/_hierarchical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 0aba1da..d1dfcb1 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -889,6 +889,9 @@ class HierarchicalWriter:
             if isinstance(value, np.ndarray) and value.ndim == 0:
                 # a single number or text is saved as an attribute
                 value = value[()]
+            if isinstance(value, np.bool_):
+                # zarr attributes can't be numpy booleans
+                value = bool(value)
             if isinstance(value, dict):
                 self.dict2group(value, group.require_group(key), **kwds)
             elif isinstance(value, (np.ndarray, self.Dataset)) or is_dask_array(value):
-- 
2.43.0


From 523229606ec9cd3a19ed254866a7adbc2bce437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 035/142] fix: read arrays of arrays in the tags of DM3/DM4
 files

---
 rsciio/digitalmicrograph/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..12095c2 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -178,12 +178,12 @@ class DigitalMicrographReader(object):
                             )
                         elif enc_eltype == 20:  # Array of arrays
                             _logger.debug("Reading array of arrays")
-                            el_length, enc_eltype = self.parse_array_definition()
+                            el_length, el_enc_eltype = self.parse_array_definition()
                             size = self.read_l_or_q(self.f, "big")
                             data = self.read_array(
                                 size=size,
                                 enc_eltype=enc_eltype,
-                                extra={"size": el_length},
+                                extra={"size": el_length, "enc_eltype": el_enc_eltype},
                                 skip=skip,
                             )
 
-- 
2.43.0


From 144fe4837d7e38ab4c1e4c291953ad94f3f8beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 036/142] fix: read the data of big endian DM3/DM4 files with
 the byte order of the file

---
 rsciio/digitalmicrograph/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 12095c2..e8226ae 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -629,6 +629,8 @@ class ImageObject(object):
         if isinstance(self.imdict.ImageData.Data, np.ndarray):
             return self.imdict.ImageData.Data
 
+        # Data are stored with the byte order of the file
+        dtype = np.dtype(self.dtype).newbyteorder(self.imdict.ImageData.Data.endian)
         if lazy:
             shape = list(self.shape)
             if self.imdict.ImageData.DataType in (8, 23):
@@ -644,7 +646,7 @@ class ImageObject(object):
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
                 shape=tuple(shape),
-                dtype=np.dtype(self.dtype),
+                dtype=dtype,
                 chunks=chunks,
                 order=self.order,
             )
@@ -657,7 +659,7 @@ class ImageObject(object):
             count = self.imdict.ImageData.Data.size
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 count = int(count / 2)
-            data = np.fromfile(self.file, dtype=self.dtype, count=count)
+            data = np.fromfile(self.file, dtype=dtype, count=count)
             if need_to_close:
                 self.file.close()
 
-- 
2.43.0


From b76c9421010acf793aaf70daf0345a8a990384b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 037/142] fix: name the energy axis of EDS spectra of DM3/DM4
 files

---
 rsciio/digitalmicrograph/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index e8226ae..21c554d 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -504,7 +504,7 @@ class ImageObject(object):
         if self.signal_type == "EELS":
             if "eV" in self.units:
                 names[indices.pop(self.units.index("eV"))] = "Energy loss"
-        elif self.signal_type in ("EDS", "EDX"):
+        elif self.signal_type == "EDS_TEM":
             if "keV" in self.units:
                 names[indices.pop(self.units.index("keV"))] = "Energy"
         elif self.signal_type == "CL":
-- 
2.43.0


From c36f57212c8ca13871229edb5af5f8c68d90eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:23 +0000
Subject: [PATCH 038/142] fix: read packed complex images of DM3/DM4 files
 lazily

---
 rsciio/digitalmicrograph/_api.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 21c554d..d2489ee 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -666,6 +666,15 @@ class ImageObject(object):
         if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
             return self.unpack_new_packed_complex(data)
         elif self.imdict.ImageData.DataType == 5:  # Old packed compled
+            if lazy:
+                import dask
+                import dask.array as da
+
+                return da.from_delayed(
+                    dask.delayed(self.unpack_packed_complex)(data.ravel()),
+                    shape=self.shape,
+                    dtype="complex64",
+                )
             return self.unpack_packed_complex(data)
         elif self.imdict.ImageData.DataType in (8, 23):  # ABGR
             # Reorder the fields
-- 
2.43.0


From 8b7fe03cc0d54750c2dcfa85518f78d1ded1329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 039/142] fix: read MRC pixels with the byte order asked for

---
 rsciio/mrc/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..f316f56 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -594,7 +594,7 @@ def file_reader(
         filename,
         offset=f.tell(),
         shape=shape[::-1],
-        dtype=get_data_type(std_header["MODE"]),
+        dtype=get_data_type(std_header["MODE"]).newbyteorder(endianness),
         positions=positions,
         chunks=chunks,
     )
-- 
2.43.0


From 2cd84afa80c2eb62b45212ed5046d9a80bc3832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 040/142] fix: keep the pixel sizes of the Direct Electron
 metadata file

---
 rsciio/mrc/_api.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index f316f56..59c19d5 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -347,10 +347,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     ):  # nav-shape is not None for pos files
         axes_scales = np.array(
             [
-                float(
-                    original_metadata.get("Scan - Time (seconds)", 1)
-                    + original_metadata.get("Scan - Repeat Delay (seconds)", 1)
-                ),
+                float(original_metadata.get("Scan - Time (seconds)", 1))
+                + float(original_metadata.get("Scan - Repeat Delay (seconds)", 1)),
                 float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
                 float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
                 1,  # Signal Axes below
@@ -358,7 +356,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                 float(original_metadata.get("Diffraction Pixel Size X", 1)),
             ]
         )
-        axes_scales[axes_scales != -1] = 1
+        axes_scales[axes_scales == -1] = 1
         axes_units = ["sec", "nm", "nm", "times", "nm^-1", "nm^-1"]
         axes_names = ["time", "y", "x", "repeats", "ky", "kx"]
         if original_metadata.get("Scan - ROI Enable", "Disable") == "Enable":
@@ -398,8 +396,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Diffraction Pixel Size Y", 1),
-                    original_metadata.get("Diffraction Pixel Size X", 1),
+                    float(original_metadata.get("Diffraction Pixel Size Y", 1)),
+                    float(original_metadata.get("Diffraction Pixel Size X", 1)),
                 ]
             )
             axes_units = ["sec", "nm^-1", "nm^-1"]
@@ -408,8 +406,12 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Specimen Pixel Size Y (nanometers)", 1),
-                    original_metadata.get("Specimen Pixel Size X (nanometers)", 1),
+                    float(
+                        original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)
+                    ),
+                    float(
+                        original_metadata.get("Specimen Pixel Size X (nanometers)", 1)
+                    ),
                 ]
             )
             axes_units = ["sec", "nm", "nm"]
-- 
2.43.0


From c73df8335570cc1b92c585d3b364d805d188e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 041/142] fix: name the images related to a Direct Electron
 movie correctly

---
 rsciio/mrc/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 59c19d5..89eb697 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -117,7 +117,8 @@ def find_related_de_files(movie_filename: str):
         return out
 
     # Collect all candidate .mrc files sharing the same timestamp and acquisitionNumber
-    all_mrc = glob.glob(os.path.join(dir_name, f"{prefix}*.mrc"))
+    # sorted, to keep the names in the same order as the images
+    all_mrc = sorted(glob.glob(os.path.join(dir_name, f"{prefix}*.mrc")))
 
     # Virtual images via regex (supports '<digits>' and 'virt<digits>')
     virtual_images = []
-- 
2.43.0


From 86c8660adaa06d4a7a4605a11f8c7d4dd4d7f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 042/142] fix: describe the dimensions of MRC files with
 singleton dimensions

---
 rsciio/mrc/_api.py | 51 +++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 89eb697..4d338dc 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -348,18 +348,19 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     ):  # nav-shape is not None for pos files
         axes_scales = np.array(
             [
-                float(original_metadata.get("Scan - Time (seconds)", 1))
-                + float(original_metadata.get("Scan - Repeat Delay (seconds)", 1)),
                 float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
                 float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
+                float(original_metadata.get("Scan - Time (seconds)", 1))
+                + float(original_metadata.get("Scan - Repeat Delay (seconds)", 1)),
                 1,  # Signal Axes below
                 float(original_metadata.get("Diffraction Pixel Size Y", 1)),
                 float(original_metadata.get("Diffraction Pixel Size X", 1)),
             ]
         )
         axes_scales[axes_scales == -1] = 1
-        axes_units = ["sec", "nm", "nm", "times", "nm^-1", "nm^-1"]
-        axes_names = ["time", "y", "x", "repeats", "ky", "kx"]
+        # the repeats of a scan position are the innermost navigation dimension
+        axes_units = ["nm", "nm", "sec", "times", "nm^-1", "nm^-1"]
+        axes_names = ["y", "x", "time", "repeats", "ky", "kx"]
         if original_metadata.get("Scan - ROI Enable", "Disable") == "Enable":
             sizex = int(original_metadata.get("Scan - ROI Size X", 1))
             sizey = int(original_metadata.get("Scan - ROI Size Y", 1))
@@ -383,7 +384,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         sizekx = int(original_metadata.get("Image Size X (pixels)", -1))
         sizeky = int(original_metadata.get("Image Size Y (pixels)", -1))
         navigate = [True, True, True, True, False, False]
-        axes_shapes = [time, sizey, sizex, 1, sizeky, sizekx]
+        axes_shapes = [sizey, sizex, time, 1, sizeky, sizekx]
         nav_shape = tuple([shape for shape in [time, sizex, sizey, 1] if shape != 1])
     else:
         navigate = [True, False, False]
@@ -420,7 +421,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     axes = []
     ind = 0
     for i, s in enumerate(axes_shapes):
-        if s != 1:
+        # signal axes are needed until the shape of the file is known
+        if s != 1 or not navigate[i]:
             if axes_scales[i] == -1:
                 axes_scales[i] = 1
             axes.append(
@@ -521,7 +523,12 @@ def file_reader(
             _navigation_shape,
             positions,
         ) = read_de_metadata_file(
-            metadata_file, nav_shape=navigation_shape, scan_pos_file=scan_file
+            metadata_file,
+            # (time, x, y) to (time, y, x)
+            nav_shape=None
+            if navigation_shape is None
+            else navigation_shape[:-2] + navigation_shape[-2:][::-1],
+            scan_pos_file=scan_file,
         )
         if navigation_shape is None:
             navigation_shape = _navigation_shape
@@ -601,8 +608,9 @@ def file_reader(
         positions=positions,
         chunks=chunks,
     )
-    if any(shape[i] == 1 for i in range(len(shape))):
-        # Remove the singleton dimensions
+    # Remove the singleton dimensions
+    kept_dimensions = [i for i, size in enumerate(data.shape) if size != 1]
+    if len(kept_dimensions) != data.ndim:
         data = np.squeeze(data)
     if not lazy:
         data = data.compute()
@@ -680,23 +688,28 @@ def file_reader(
                 offsets.insert(0, 0)
 
         # create the axis objects for each axis
-        dim = len(data.shape)
         axes = [
             {
                 "size": data.shape[i],
                 "index_in_array": i,
-                "name": names[i + nav_axis_to_add + 3 - dim],
-                "scale": scales[i + nav_axis_to_add + 3 - dim],
-                "offset": offsets[i + nav_axis_to_add + 3 - dim],
-                "units": units[i + nav_axis_to_add + 3 - dim],
-                "navigate": navigate[i + nav_axis_to_add + 3 - dim],
+                "name": names[dim],
+                "scale": scales[dim],
+                "offset": offsets[dim],
+                "units": units[dim],
+                "navigate": navigate[dim],
             }
-            for i in range(dim)
+            for i, dim in enumerate(kept_dimensions)
         ]
     else:
-        axes = metadata_axes
-        for ax, s in zip(axes, shape[::-1]):
-            ax["size"] = s  # Update the size of the axes
+        sizes = shape[::-1]
+        if len(metadata_axes) != len(sizes):
+            # single scan positions have no axis in metadata_axes
+            sizes = [s for s in sizes[:-2] if s != 1] + list(sizes[-2:])
+        axes = []
+        for ax, s in zip(metadata_axes, sizes):
+            if s != 1:
+                # Update the size and position of the axes
+                axes.append({**ax, "size": s, "index_in_array": len(axes)})
 
     dictionary = {
         "data": data,
-- 
2.43.0


From 0be6517b44d39e2baeb7987ec4210747b65eaf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:22 +0000
Subject: [PATCH 043/142] fix: read Direct Electron scans along a single row or
 column

---
 rsciio/mrc/_api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 4d338dc..dc3b5dc 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -386,6 +386,10 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         navigate = [True, True, True, True, False, False]
         axes_shapes = [sizey, sizex, time, 1, sizeky, sizekx]
         nav_shape = tuple([shape for shape in [time, sizex, sizey, 1] if shape != 1])
+        if positions is not None:
+            # coordinates along dimensions of length 1 are dropped as well
+            kept = [i for i, n in enumerate(axes_shapes[: positions.shape[1]]) if n != 1]
+            positions = positions[:, kept]
     else:
         navigate = [True, False, False]
 
-- 
2.43.0


From 254361edb9d373231a595ae093ee3789ceef69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 044/142] fix: convert the offset of TIA axes to nm like their
 scale

---
 rsciio/tia/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..04d6b1e 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -640,9 +640,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         if axis["units"] == "meters":
             axis["units"] = "nm"
             axis["scale"] *= 10**9
+            axis["offset"] *= 10**9
         elif axis["units"] == "1/meters":
             axis["units"] = "1 / nm"
             axis["scale"] /= 10**9
+            axis["offset"] /= 10**9
 
     # Remove Nones from array_shape caused by squeezing size 1 dimensions
     array_shape = [dim for dim in array_shape if dim is not None]
-- 
2.43.0


From 49303cca7cf58e083babf346e3176b3e972e65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 045/142] fix: use the calibrated element of TIA navigation and
 energy axes

---
 rsciio/tia/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 04d6b1e..2a367b6 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -558,7 +558,9 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                     name = None
                 axes.append(
                     {
-                        "offset": header["Dim-%i_CalibrationOffset" % idim][0],
+                        "offset": header["Dim-%i_CalibrationOffset" % idim][0]
+                        - header["Dim-%i_CalibrationElement" % idim][0]
+                        * header["Dim-%i_CalibrationDelta" % idim][0],
                         "scale": header["Dim-%i_CalibrationDelta" % idim][0],
                         "units": units,
                         "size": header["Dim-%i_DimensionSize" % idim][0],
@@ -587,7 +589,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
     if record_by == "spectrum":
         axes.append(
             {
-                "offset": data["CalibrationOffset"][0],
+                "offset": data["CalibrationOffset"][0]
+                - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
                 "index_in_array": header["NumberDimensions"][0],
-- 
2.43.0


From 2ab13754b3c3e33a04d58ccb67d07b133d3a0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 046/142] fix: read TIA image series with one dimension of
 length 1

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 2a367b6..ed98b1f 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -545,7 +545,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
             idim = 1 + i if order == "C" else ndim - i
             if (
                 record_by == "spectrum"
-                or header["Dim-%i_DimensionSize" % (i + 1)][0] != 1
+                or header["Dim-%i_DimensionSize" % idim][0] != 1
             ):
                 units = (
                     header["Dim-%i_Units" % (idim)][0].decode("utf-8")
-- 
2.43.0


From a9de34a24bd91caaa2cac3c1878ad17143bcfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 047/142] fix: read the TrueImageHeaderInfo of TIA files

---
 rsciio/tia/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index ed98b1f..b82035d 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -223,8 +223,8 @@ def parse_TrueImageHeaderInfo(et, dictree):
     dictree.add_node(et.tag)
     dictree = dictree[et.tag]
     et = ET.fromstring(et.text)
-    for data in et.findall(b"Data"):
-        dictree[data.find(b"Index").text] = float(data.find(b"Value").text)
+    for data in et.findall("Data"):
+        dictree[data.find("Index").text] = float(data.find("Value").text)
 
 
 def emixml2dtb(et, dictree):
-- 
2.43.0


From 9b21bdc92d57a812f324f85321a81be3fcb1ba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 048/142] fix: read all series of TIA emi files, each with its
 own description

---
 rsciio/tia/_api.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b82035d..4adab67 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -22,7 +22,7 @@ import struct
 import warnings
 import xml.etree.ElementTree as ET
 from collections import OrderedDict
-from glob import glob
+from glob import escape, glob
 
 import numpy as np
 from dateutil import parser
@@ -257,16 +257,23 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
             with open(filename + "-object-%s.xml" % i, "w") as f:
                 f.write(obj)
 
-    ser_files = sorted(glob(filename + "_[0-9].ser"))
+    # index of the series in the emi file for each ser file
+    ser_files = {}
+    for f in glob(escape(filename) + "_*.ser"):
+        number = f[len(filename) + 1 : -len(".ser")]
+        if number.isdecimal():
+            ser_files[f] = int(number) - 1
     sers = []
-    for f in ser_files:
+    for f, index in sorted(ser_files.items(), key=lambda item: item[1]):
         _logger.info("Opening %s", f)
         try:
-            sers.extend(ser_reader(f, objects, lazy, only_valid_data))
+            # the description of this series, if any
+            sers.extend(
+                ser_reader(f, objects[index:][:1] or None, lazy, only_valid_data)
+            )
         except IOError:  # Probably a single spectrum that we don't support
             continue
 
-        index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
         op = DTBox(sers[-1]["original_metadata"], box_dots=True)
 
         # defend against condition where more ser files are present than object
-- 
2.43.0


From 6741ee03da440c088b3427f18b68319224b63250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 049/142] fix: name and number the axes of TIA files by their
 dimension

---
 rsciio/tia/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 4adab67..bd46780 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -559,8 +559,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                     if header["Dim-%i_UnitsLength" % (idim)] > 0
                     else None
                 )
-                if units == "meters":
-                    name = spatial_axes.pop() if order == "F" else spatial_axes.pop(-1)
+                if units == "meters" and ndim - i <= len(spatial_axes):
+                    name = spatial_axes[ndim - i - 1]
                 else:
                     name = None
                 axes.append(
@@ -600,7 +600,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
                 - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
-                "index_in_array": header["NumberDimensions"][0],
+                "index_in_array": len(axes),
                 "navigate": False,
             }
         )
-- 
2.43.0


From 78845f5ef4234b52dbfcafea4290bf7d6f20ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 050/142] fix: use the horizontal pixel size for the width axis
 of bcf maps

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..315cd59 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1470,7 +1470,7 @@ For more information, check the 'Installing RosettaSciIO' section in the documen
                         "name": "width",
                         "size": hypermap.shape[1],
                         "offset": 0,
-                        "scale": obj_bcf.header.y_res * downsample,
+                        "scale": obj_bcf.header.x_res * downsample,
                         "units": obj_bcf.header.units,
                         "navigate": True,
                     },
-- 
2.43.0


From 63625c69936cf7501183b7832f5fab9ce5b35fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 051/142] fix: read bcf files with more than ten data sets

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 315cd59..e5166dd 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -906,7 +906,7 @@ class BCF_reader(SFS_reader):
         # while looking for file names containing the hypercube data:
         for i in self.vfs["EDSDatabase"].keys():
             if "SpectrumData" in i:
-                self.available_indexes.append(int(i[-1]))
+                self.available_indexes.append(int(i.replace("SpectrumData", "")))
         self.def_index = min(self.available_indexes)
         header_bytes = header_file.get_as_BytesIO_string().getvalue()
         sanitized_bytes = sanitize_msxml_float(header_bytes)
-- 
2.43.0


From bba3e9e4188331a2c3ca258af98b46d0a7da5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 052/142] fix: keep the files listed before their folder in bcf
 containers

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index e5166dd..31dd79c 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -395,7 +395,7 @@ class SFS_reader:
                     dir_pointer[j] = {}
                     dir_pointer = dir_pointer[j]
             if temp_item_list[i].is_dir:
-                dir_pointer[temp_item_list[i].name] = {}
+                dir_pointer.setdefault(temp_item_list[i].name, {})
             else:
                 dir_pointer[temp_item_list[i].name] = temp_item_list[i]
         # return dict tree:
-- 
2.43.0


From b85f468bc836855c2e851b4783cdb0e424e7facc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 053/142] fix: keep the last channel of pulse pixels in the
 Python decoder of bcf files

---
 rsciio/bruker/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 31dd79c..5173d89 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1160,7 +1160,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
             if flag == 0:
                 data1 = buffer1[offset : offset + data_size2]
                 arr16 = np.frombuffer(data1, dtype=np.uint16)
-                pixel = np.bincount(arr16, minlength=chan1 - 1)
+                pixel = np.bincount(arr16, minlength=chan1)
                 offset += data_size2
             elif flag == 1:  # and (chan1 != chan2)
                 # Unpack packed 12-bit data to 16-bit uints:
@@ -1181,7 +1181,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ).copy()
                 exp16[0::2] >>= 4  # Shift every second short by 4
                 exp16 &= np.uint16(0x0FFF)  # Mask all shorts to 12bit
-                pixel = np.bincount(exp16, minlength=chan1 - 1)
+                pixel = np.bincount(exp16, minlength=chan1)
                 offset += data_size2
             else:  # flag > 1
                 # Unpack instructively packed data to pixel channels:
-- 
2.43.0


From cd1ae06ee3c9ae2584877d8b719a5d38c43510da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 054/142] fix: read pixels which span several blocks, or end
 with one, in bcf files

---
 rsciio/bruker/_api.py        | 8 ++++----
 rsciio/bruker/unbcf_fast.pyx | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 5173d89..f1256aa 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1115,14 +1115,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
     offset = 0x1A0
     size = size_chnk
     for line_cnt in range(height):
-        if (offset + 4) >= size:
+        while (offset + 4) > size:
             size = size_chnk + size - offset
             buffer1 = buffer1[offset:] + next(iter_data)
             offset = 0
         line_head = strct_unp("<i", buffer1[offset : offset + 4])[0]
         offset += 4
         for dummy1 in range(line_head):
-            if (offset + 22) >= size:
+            while (offset + 22) > size:
                 size = size_chnk + size - offset
                 buffer1 = buffer1[offset:] + next(iter_data)
                 offset = 0
@@ -1153,7 +1153,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) >= size:
+            while (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1228,7 +1228,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) >= size:
+                    while (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 6292b36..f96175d 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -86,7 +86,7 @@ cdef class DataStream:
         """increase offset by given value,
         check if new offset is in bounds of buffer length
         else load up next block"""
-        if (self.offset + length) > self.size:
+        while (self.offset + length) > self.size:
             self.load_next_block()
         self.offset = self.offset + length
 
@@ -121,7 +121,7 @@ cdef class DataStream:
         making sure the array have the required length
         counting from the offset, increase the internal offset
         by given length"""
-        if (self.offset + length) > self.size:
+        while (self.offset + length) > self.size:
             self.load_next_block()
         self.offset += length
         return &self.buffer2[self.offset-length]
-- 
2.43.0


From dd1d857c397aff955b14aac9f5b622f55c7f88f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 055/142] fix: read 32-bit channels of bcf maps four bytes
 apart

---
 rsciio/bruker/unbcf_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index f96175d..88df73a 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -257,7 +257,7 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
-                        val32 = read_32(&src[offset + i*2])
+                        val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
                 length = <int>(head.channels * head.size // 2)
             offset += length
-- 
2.43.0


From a86be5f8425d660a00251a6538697529a3c1a766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 056/142] fix: read SEM/STEM images of JEOL maps which are not
 square

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..4a0de55 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -807,7 +807,7 @@ def _readcube(
     else:
         hypermap = np.zeros((n_frames, height, width, channel_number), dtype=SI_dtype)
 
-    em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)
+    em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)
 
     max_value = np.iinfo(SI_dtype).max
 
-- 
2.43.0


From c32e10c3d96ecdaa0841af24a04b6907c2a317fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 057/142] fix: keep the first line of each frame when reading
 JEOL maps lazily

---
 rsciio/jeol/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 4a0de55..f047f15 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1166,12 +1166,13 @@ def _readframe_lazy(
     data = []
     previous_x = 0
     previous_y = 0
+    x = 0
+    y = 0
     MAX_VAL = 4096
     count = 0
     valid = False
     has_em_image = False
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
@@ -1193,6 +1194,8 @@ def _readframe_lazy(
             z = value // rebin_energy + dz
             if 0 <= z and z < channel_number:
                 data.append([y, x, z])
+        count += 1
+
     if previous_y == MAX_VAL - height_norm and (
         previous_x == MAX_VAL - width_norm or not has_em_image
     ):
-- 
2.43.0


From d1dfdb1c1211e8d85f4d7c8bf4aba70cedc9ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 058/142] fix: compare y with the height when reading JEOL maps
 lazily

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index f047f15..52c6230 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1185,7 +1185,7 @@ def _readframe_lazy(
                 break
             previous_y = value
             y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
             em_image[y, x] += value
-- 
2.43.0


From d58c60eba0bcd0bee12ab4323bc10e3e922e8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 059/142] fix: accept complete frames of downsampled JEOL maps
 read lazily

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 52c6230..d650fc5 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1196,8 +1196,8 @@ def _readframe_lazy(
                 data.append([y, x, z])
         count += 1
 
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
-- 
2.43.0


From 15327ac573acadbf3d362dc83c9c5b75f6707eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 060/142] fix: cancel the incomplete frame in SEM/STEM images
 of JEOL maps read lazily

---
 rsciio/jeol/_api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index d650fc5..d1f9eba 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1106,8 +1106,8 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
+    countup,
     _1,
-    _2,
     em_image,
     width,
     height,
@@ -1118,7 +1118,7 @@ def _readframe_lazy(
     dx,
     dy,
     dz,
-    _3,
+    _2,
 ):  # pragma: no cover
     """
     Read one frame from pts file. Used in a inner loop of _readcube function.
@@ -1129,8 +1129,8 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
+    countup : 1 for summing up the SEM/STEM image, -1 to cancel selected frame
     _1 : dummy parameter, not used
-    _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
     width : int
@@ -1145,7 +1145,7 @@ def _readframe_lazy(
         Binning parameter along energy axis. Must be 2^n.
     dx, dy, dz : int
         information of frame shift for drift correction.
-    _3 : dummy parameter, not used
+    _2 : dummy parameter, not used
 
 
     Returns
@@ -1188,7 +1188,7 @@ def _readframe_lazy(
             if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
-- 
2.43.0


From 0708d9048be085b6da3ff6b11e6a078437e7663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 061/142] fix: read frames without X-ray events of JEOL maps
 lazily

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index d1f9eba..9cc0116 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -948,7 +948,7 @@ def _readcube(
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=int).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
-- 
2.43.0


From 71e9a0d1d2dc706620df6b82cea3512558212221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 062/142] fix: give JEOL maps the frame axis and SEM/STEM
 images of the loaded frames

---
 rsciio/jeol/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 9cc0116..6c63639 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -929,7 +929,7 @@ def _readcube(
                 hypermap[:target_frame_num, :height, :width],
                 em_image[:target_frame_num, :height, :width],
                 has_em_image,
-                frame_num,
+                target_frame_num,
                 frame_start_index,
                 valid,
                 max_shift,
@@ -974,7 +974,11 @@ def _readcube(
         data_shape = [frame_count, height, width, channel_number]
         ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
     if sum_frames:
-        em_image = em_image[0]
+        em_image = em_image[0, :height, :width]
+        n_loaded = frame_num
+    else:
+        em_image = em_image[:frame_count, :height, :width]
+        n_loaded = frame_count
 
     import dask.array as da
 
@@ -982,7 +986,7 @@ def _readcube(
         da.from_array(ar_s, asarray=False),
         em_image,
         has_em_image,
-        sweep,
+        n_loaded,
         frame_start_index,
         valid,
         max_shift,
-- 
2.43.0


From 3b72ec579cd35a53ff7d158467422f5c400a87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 063/142] fix: offset of shifted JEOL maps

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 6c63639..0154de3 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -540,7 +540,7 @@ def _read_pts(
                 {
                     "name": "y",
                     "size": height,
-                    "offset": origin[1],
+                    "offset": origin[0] * yscale,
                     "scale": yscale,
                     "units": units,
                     "navigate": False,
@@ -548,7 +548,7 @@ def _read_pts(
                 {
                     "name": "x",
                     "size": width,
-                    "offset": origin[0],
+                    "offset": origin[1] * xscale,
                     "scale": xscale,
                     "units": units,
                     "navigate": False,
-- 
2.43.0


From 71e95bd5e338c689bf0f83367693220947003af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 064/142] fix: do not change the frame shifts given to the JEOL
 reader

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 0154de3..a3820de 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -819,7 +819,7 @@ def _readcube(
     min_shift[2] = 0
     max_shift[2] = 0
     sxyz = min_shift - max_shift
-    frame_shifts -= max_shift
+    frame_shifts = frame_shifts - max_shift
     width += sxyz[1]
     height += sxyz[0]
     valid = None
-- 
2.43.0


From bcc7bf208171aafe431c1d22754c3b8e060cacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 065/142] fix: accept more frame shifts than frames to load in
 the JEOL reader

---
 rsciio/jeol/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index a3820de..53e985d 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -481,7 +481,8 @@ def _read_pts(
             frame_shifts = np.zeros((max_frame, 3), dtype=np.int16)
 
         if len(frame_shifts[0]) == 2:  # fill z with 0
-            fr = np.zeros((max_frame, 3), dtype=np.int16)
+            n_shifts = max(max_frame, len(frame_shifts))
+            fr = np.zeros((n_shifts, 3), dtype=np.int16)
             fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)
             frame_shifts = fr
 
-- 
2.43.0


From 719ee949d1e7f7087e00a66bc67958cd5f137beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 066/142] fix: time of a frame of downsampled JEOL maps

---
 rsciio/jeol/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 53e985d..9901de4 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -387,6 +387,9 @@ def _read_pts(
         width_norm = int(4096 / width * downsample_width)
         height_norm = int(4096 / height * downsample_height)
 
+        # total number of pixels of a frame, before downsampling
+        frame_pixels = width * height
+
         width = int(width / downsample_width)
         height = int(height / downsample_height)
 
@@ -529,7 +532,7 @@ def _read_pts(
                     "name": "Frame",
                     "size": sweep,
                     "offset": 0,
-                    "scale": pixel_time * height * width / 1e3,
+                    "scale": pixel_time * frame_pixels / 1e3,
                     "units": "s",
                     "navigate": True,
                 }
-- 
2.43.0


From c5ea0cf229613d5dafc9665233569f8d02853f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 067/142] fix: overflow of downsampled SEM/STEM images of JEOL
 maps

---
 rsciio/jeol/_api.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 9901de4..196cd55 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -515,6 +515,7 @@ def _read_pts(
             read_em_image,
             only_valid_data,
             lazy,
+            downsample_width * downsample_height,
         )
         header["jeol_pts_frame_origin"] = origin
         header["jeol_pts_frame_shifts"] = frame_shifts_1
@@ -743,6 +744,7 @@ def _readcube(
     read_em_image,
     only_valid_data,
     lazy,
+    pixel_samples=1,
 ):  # pragma: no cover
     """
         Read spectrum image (and SEM/STEM image) from pts file
@@ -766,6 +768,8 @@ def _readcube(
             Rebin factor of the energy dimension.
         sweep : int
             Number of sweep
+        pixel_samples : int
+            Number of samples summed in each pixel by downsampling.
         frame_shifts : list
             The list of image positions [[x0,y0,z0], ...]. The x, y, z values can
             be negative. The data points outside data cube are ignored.
@@ -794,16 +798,18 @@ def _readcube(
 
     # In case of sum_frames, spectrum image and SEM/STEM image are summing up to the same frame number.
     # To avoid overflow on integration of SEM/STEM image, data type of np.uint32 is selected
-    # for 16 frames and over. (range of image intensity in each frame is 0-4095 (0-0xfff))
+    # for 16 samples and over. (range of image intensity in each frame is 0-4095 (0-0xfff))
     EM_dtype = np.uint16
     frame_step = 1
+    samples = pixel_samples
     if sum_frames:
         frame_step = 0
-        if sweep >= 16:
-            EM_dtype = np.uint32
+        samples *= max(sweep, len(frame_list))
         n_frames = 1
     else:
         n_frames = sweep + 1
+    if samples >= 16:
+        EM_dtype = np.uint32
 
     if lazy:
         hypermap = np.zeros((n_frames), dtype=EM_dtype)  # dummy variable, not used
-- 
2.43.0


From 325dce760161415324faf7f84995499fb4bc26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 068/142] fix: load frames of JEOL maps given several times

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 196cd55..be3b615 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -807,7 +807,7 @@ def _readcube(
         samples *= max(sweep, len(frame_list))
         n_frames = 1
     else:
-        n_frames = sweep + 1
+        n_frames = max(sweep + 1, len(frame_list))
     if samples >= 16:
         EM_dtype = np.uint32
 
-- 
2.43.0


From fdac84295c980a83abe679e0b4e9552a0f313b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 069/142] fix: write empty units in EMD files

---
 rsciio/emd/_emd_ncem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..aa5cd92 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -533,7 +533,7 @@ class EMD_NCEM:
                 name = ""
             dim.attrs["name"] = name
             units = axis["units"]
-            if units is None:
+            if not units:
                 units = ""
             else:
                 units = "[{}]".format("_".join(list(units)))
-- 
2.43.0


From 533c422cb82f01d427d38f5c650a2a9a45008b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 070/142] fix: scale of EMD axes with a single point

---
 rsciio/emd/_emd_ncem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index aa5cd92..230dc37 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -445,7 +445,9 @@ class EMD_NCEM:
         Estimate, offset, scale from a 1D array
         """
         if axis_data.ndim > 0 and np.issubdtype(axis_data.dtype, np.number):
-            offset, scale = float(axis_data[0]), float(np.diff(axis_data).mean())
+            offset = float(axis_data[0])
+            # the scale of a single point is not defined
+            scale = float(np.diff(axis_data).mean()) if axis_data.size > 1 else 1.0
         else:
             # This is a string, return default values
             # When non-uniform axis is supported we should be able to parse
-- 
2.43.0


From 2c6f0fe05185b845660afb72f42fe2cce790de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:12 +0000
Subject: [PATCH 071/142] fix: do not stack EMD data sets because of the start
 of their names

---
 rsciio/emd/_emd_ncem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index 230dc37..938ecf6 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -105,11 +105,14 @@ class EMD_NCEM:
                     # In prismatic file, the group name have '0000' except
                     # for 'ppotential'
                     group_basename = group_basename[:-4]
+                elif not self._is_prismatic_file:
+                    # complete names only, 'image_1' is not 'image_10'
+                    group_basename += "/"
                 for _path in dataset_path[:]:
                     if path != _path and group_basename in _path:
                         group_paths.append(os.path.dirname(_path))
                         dataset_path.remove(_path)
-                title = os.path.basename(group_basename)
+                title = os.path.basename(group_basename.rstrip("/"))
             else:
                 title = os.path.basename(group_paths[0])
 
-- 
2.43.0


From 0f46897a3ee3b3dbb85c61e2af512ede480b1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 072/142] fix: order of the x and y axes of Velox EELS spectrum
 images

---
 rsciio/emd/_emd_velox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 6b9f1c1..e3b8c38 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -760,7 +760,7 @@ class FeiEMDReader(object):
                             "scale": scale_y,
                             "size": data_cube.shape[0],
                             "units": x_unit,
-                            "index_in_array": 1,
+                            "index_in_array": 0,
                             "navigate": True,
                         },
                         {
@@ -769,7 +769,7 @@ class FeiEMDReader(object):
                             "scale": scale_x,
                             "size": data_cube.shape[1],
                             "units": x_unit,
-                            "index_in_array": 0,
+                            "index_in_array": 1,
                             "navigate": True,
                         },
                     ]
-- 
2.43.0


From 525d3cc3675f79fb44a613a779ee8150dcf4cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 073/142] fix: time of Velox files west of Greenwich

---
 rsciio/emd/_emd_velox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index e3b8c38..b480574 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -996,7 +996,7 @@ class FeiEMDReader(object):
         # Since we don't know the actual time zone of where the data have been
         # acquired, we convert the datetime to the local time for convenience
         dt = datetime.fromtimestamp(float(unix_time), tz=tz.tzutc())
-        return dt.astimezone(tz.tzlocal()).isoformat().split("+")[0]
+        return dt.astimezone(tz.tzlocal()).replace(tzinfo=None).isoformat()
 
     def _get_local_time_zone(self):
         return tz.tzlocal().tzname(datetime.today())
-- 
2.43.0


From 5b19da88a3624bbdcae27fe526b56fee25586039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 074/142] fix: read quad detector MIB data from a memory buffer

---
 rsciio/quantumdetector/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..c70f2e1 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -162,8 +162,11 @@ class MIBProperties:
         # test if quad and read full quad header
         if head[2] == "00768":
             # read quad data
-            with open(self.path, "rb") as f:
-                head = f.read(768).decode().split(",")
+            if self.buffer:
+                head = path[:768].decode().split(",")
+            else:
+                with open(self.path, "rb") as f:
+                    head = f.read(768).decode().split(",")
             self.head_size = 768
             self.assembly_size = "quad"
 
-- 
2.43.0


From 4ef4240e0fb860607e7d7757e90796738df88d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 075/142] fix: take first_frame into account when reading MIB
 data from a buffer

---
 rsciio/quantumdetector/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index c70f2e1..f98131f 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -333,7 +333,8 @@ def load_mib_data(
             path,
             dtype=merlin_frame_dtype,
             count=mib_prop.xy,
-            offset=mib_prop.offset,
+            # take into account first_frame
+            offset=mib_prop.offset + merlin_frame_dtype.itemsize * first_frame,
         ).reshape(navigation_shape)
         headers = buffer["header"]
         data = buffer["data"]
-- 
2.43.0


From a1005d3c958933bb868c2c0ec23bf23de72c452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 076/142] fix: take last_frame into account in interrupted MIB
 acquisitions

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index f98131f..44b8dd1 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -278,7 +278,7 @@ def load_mib_data(
             if first_frame == 0 and len(navigation_shape) > 1:
                 navigation_shape = (
                     navigation_shape[0],
-                    frame_number_in_file // navigation_shape[0],
+                    number_of_frames_to_load // navigation_shape[0],
                 )[::-1]
             else:
                 navigation_shape = (number_of_frames_to_load,)
-- 
2.43.0


From 05048d809ba6e6ab62587a4d75fbded12533a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 077/142] fix: read the exposures and timestamps of all frames
 with max_index=-1

---
 rsciio/quantumdetector/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 44b8dd1..2cde1a9 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -422,8 +422,8 @@ def parse_exposures(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    # -1: all frames
+    max_index = len(headers) if max_index == -1 else min(max_index, len(headers))
 
     # exposure time are in ns
     return [
@@ -471,8 +471,8 @@ def parse_timestamps(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    # -1: all frames
+    max_index = len(headers) if max_index == -1 else min(max_index, len(headers))
 
     return [header.decode().split(",")[-4] for header in headers[:max_index]]
 
-- 
2.43.0


From aa7032cd2381acdd0b9e7b67a547ede92fc9cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 078/142] fix: only replace NaN values with remove_nans in
 EMPAD files

---
 rsciio/empad/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/empad/_api.py b/rsciio/empad/_api.py
index 592e7fc..ed2e7c2 100644
--- a/rsciio/empad/_api.py
+++ b/rsciio/empad/_api.py
@@ -264,7 +264,8 @@ def file_reader(filename, lazy=False, q_calibration=None, remove_nans=False):
 
     # Remove NaN values if requested. Will add a few seconds for the loading time.
     if remove_nans:
-        data = np.nan_to_num(data)
+        # keep infinities
+        data = np.where(np.isnan(data), data.dtype.type(0), data)
 
     dictionary = {
         "data": data.squeeze(),
-- 
2.43.0


From e5efb6920fb3373fcd47bb369c87b115ab3fe4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 079/142] fix: read arina files of non-square frames

---
 rsciio/arina/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/arina/_api.py b/rsciio/arina/_api.py
index a900fb5..d8b6733 100644
--- a/rsciio/arina/_api.py
+++ b/rsciio/arina/_api.py
@@ -109,12 +109,12 @@ def file_reader(
         dtype_scan = np.dtype(np.uint16)
 
     if flatfield is not None:
-        array_3D = np.empty((nimages, width, height), dtype=np.float32)
+        array_3D = np.empty((nimages, height, width), dtype=np.float32)
         _logger.info("Dataset will be converted to float32 due to flatfield correction")
     elif dtype:
-        array_3D = np.empty((nimages, width, height), dtype=dtype)
+        array_3D = np.empty((nimages, height, width), dtype=dtype)
     else:
-        array_3D = np.empty((nimages, width, height), dtype=dtype_scan)
+        array_3D = np.empty((nimages, height, width), dtype=dtype_scan)
 
     image_index = 0
 
-- 
2.43.0


From 8f15c0fb740931264e87bfc4dfe8843992df08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 080/142] fix: read npy files in Fortran order lazily

---
 rsciio/numpy/_api.py   |  5 ++++-
 rsciio/utils/_tools.py | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..699bdc9 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -29,6 +29,7 @@ from rsciio._docstrings import (
 )
 from rsciio.utils import file
 from rsciio.utils._array import is_dask_array
+from rsciio.utils._tools import _inspect_npy_bytes
 
 
 def inspect_npy_file(filename):
@@ -116,7 +117,9 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     dask.array<array, shape=(1000, 1000, 500, 500), dtype=float64, chunksize=(100, 100, 250, 250)>
     """
     if lazy:
-        offset, shape, dtype = inspect_npy_file(filename)
+        with open(filename, "rb") as f:
+            offset, shape, dtype, order = _inspect_npy_bytes(f)
+        kwargs.setdefault("order", order)
         data = file.memmap_distributed(
             filename,
             offset=offset,
diff --git a/rsciio/utils/_tools.py b/rsciio/utils/_tools.py
index fe7343f..deeb54f 100644
--- a/rsciio/utils/_tools.py
+++ b/rsciio/utils/_tools.py
@@ -158,7 +158,14 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     >>> with open('example.npy', 'rb') as f:
     ...     offset, shape, dtype = inspect_npy_bytes(f)
     """
+    return _inspect_npy_bytes(file_)[:3]
 
+
+def _inspect_npy_bytes(file_):
+    """
+    Same as :func:`inspect_npy_bytes`, also returning the order of the data
+    ("C" or "F").
+    """
     # Read magic string and version
     _ = file_.read(6)
     major, _ = struct.unpack("BB", file_.read(2))
@@ -186,5 +193,6 @@ def inspect_npy_bytes(file_: IO[bytes]) -> tuple[int, tuple[int, ...], str]:
     shape = header_dict["shape"]
     dtype = header_dict["descr"]
     offset = header_offset + header_len
+    order = "F" if header_dict["fortran_order"] else "C"
 
-    return offset, shape, dtype
+    return offset, shape, dtype, order
-- 
2.43.0


From 24e7b734174a25da1502de3ce2439748385bdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 081/142] fix: read prz images of a single row or column

---
 rsciio/pantarhei/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..a50494a 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -233,7 +233,7 @@ def import_pr(data, meta_data, filename=None):
     trivial_indices = [
         i
         for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        if data.shape[i] == 1 and "Index" in (content_type_np_order[i] or "")
     ]
 
     content_type_np_order = [
-- 
2.43.0


From de1da7c7b58d5a8debe960c07a8f5391a53b79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 082/142] fix: read back one-dimensional signals saved as prz

---
 rsciio/pantarhei/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index a50494a..7743c1c 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -199,6 +199,8 @@ def import_pr(data, meta_data, filename=None):
             content_type = [None, None, "Index"]
         elif data_type == "1D" and data_dimensions == 3:
             content_type = [None, "PlotIndex", "Index"]
+        elif data_type == "1D" and data_dimensions == 1:
+            content_type = [None]
         elif data_type == "1D":
             content_type = [None, "PlotIndex"]
         elif data_dimensions >= 3:
-- 
2.43.0


From bae935b4aa8e3c715b7f1dd002591d5561c53db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 083/142] fix: read prz files in Fortran order lazily

---
 rsciio/pantarhei/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 7743c1c..8f21d1f 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -37,7 +37,8 @@ from rsciio._docstrings import (
 )
 from rsciio.pantarhei._restricted_unpickling import read_pickled_array
 from rsciio.utils._dictionary import DTBox
-from rsciio.utils.file import inspect_npy_bytes, memmap_distributed
+from rsciio.utils._tools import _inspect_npy_bytes
+from rsciio.utils.file import memmap_distributed
 
 _logger = logging.getLogger(__name__)
 
@@ -108,7 +109,7 @@ def file_reader(
             data_info = zf.getinfo("data.npy")
             # Open the data.npy file within the archive
             with zf.open("data.npy") as f:
-                offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
+                offset_in_npy, shape, dtype_str, order = _inspect_npy_bytes(f)
 
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
@@ -128,7 +129,7 @@ def file_reader(
             shape=shape,
             dtype=np.dtype(dtype_str),
             chunks=chunks,
-            **kwargs,
+            **{"order": order, **kwargs},
         )
     else:
         data = prz_file["data"]
-- 
2.43.0


From 67fe141276883dfe81aaf40732b9c1f13d285305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 084/142] fix: read compressed prz files lazily

---
 rsciio/pantarhei/_api.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 8f21d1f..0b933a4 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -103,6 +103,15 @@ def file_reader(
         meta_data = {}
 
     if lazy:
+        with zipfile.ZipFile(filename, "r") as zf:
+            compressed = zf.getinfo("data.npy").compress_type != zipfile.ZIP_STORED
+
+    if lazy and compressed:
+        # The data can't be mapped to memory
+        import dask.array as da
+
+        data = da.from_array(prz_file["data"], chunks=chunks)
+    elif lazy:
         # Extract offset, shape, and dtype from the data.npy within the .prz archive
         with zipfile.ZipFile(filename, "r") as zf:
             # Get info about the 'data.npy' file within the archive
-- 
2.43.0


From 7be0e324cfb9345d0a15891a89b8926c7d568aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 085/142] fix: read the counts of big endian EDAX maps in their
 byte order

---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From 67dae150765c51ccb9da884d019da577aa4c67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:33 +0000
Subject: [PATCH 086/142] fix: read EDAX line scans with a single point or
 channel

---
 rsciio/edax/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index fd95b43..107fde3 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -910,7 +910,7 @@ def si_reader(
     nav_units = "µm"
 
     if linescan:
-        data = data.squeeze()[:nSpectra, :]
+        data = data.reshape((-1, nz))[:nSpectra, :]
         if csv_fname is None:
             csv_basename = os.path.splitext(filename)[0] + ".csv"
             csv_path = os.path.dirname(filename)
-- 
2.43.0


From 3d7922f8db66d20b9e0adc7d4e6a743fa006a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 087/142] fix: read distances of EDAX line scans with a single
 point

---
 rsciio/edax/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 107fde3..039cfee 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -940,7 +940,8 @@ def si_reader(
                     spatial_axis.append(float(row["Distance (nm)"]))
                     nav_units = "nm"
                 spatial_axis_offset = spatial_axis[0]
-                spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
+                if len(spatial_axis) > 1:
+                    spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
 
             original_metadata["csv_header"] = csv_header
 
-- 
2.43.0


From b5d017661557ee7eef698900ba6fb7e5cff9121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 088/142] fix: read calibrated Hamamatsu images with a single
 row or column

---
 rsciio/hamamatsu/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index d2fa939..288c433 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -202,7 +202,7 @@ class IMGReader:
         if cal[0] == "#":
             pos, size = map(int, cal[1:].split(","))
             self._file_obj.seek(pos)
-            return self.__read_numeric("float", size=size)
+            return self.__read_numeric("float", size=size, ret_array=True)
         else:
             raise RuntimeError(
                 f"Cannot read axis data (invalid start for address {cal})"
@@ -228,7 +228,7 @@ class IMGReader:
             # in testfile wavelength is exactly uniform
             # time is close
             if name == "Wavelength":
-                if data[0] > data[1]:
+                if data[0] > data[-1]:
                     self._reverse_signal = True
                     data = np.ascontiguousarray(data[::-1])
                 else:
-- 
2.43.0


From afaa020e5fd06f03fd2357a3e78ff1182ba97177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 089/142] fix: read Hamamatsu comments containing brackets or
 equal signs

---
 rsciio/hamamatsu/_api.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index 288c433..38051a7 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -18,6 +18,7 @@
 
 import importlib.util
 import logging
+import re
 from copy import deepcopy
 from enum import EnumMeta, IntEnum
 from pathlib import Path
@@ -281,23 +282,19 @@ class IMGReader:
 
     @staticmethod
     def _split_sections_from_comment(input):
-        initial_split = input[1:].split("[")  # ignore opening bracket at start
-        result = {}
-        for entry in initial_split:
-            sep_idx = entry.index("]")
-            header = entry[:sep_idx]
-            body = entry[sep_idx + 2 :].rstrip()
-            result[header] = body
-        return result
+        # brackets within quotes don't start a section
+        sections = re.findall(r'\[([^\]]*)\],?((?:"[^"]*"|[^\[])*)', input)
+        return {header: body.rstrip() for header, body in sections}
 
     @staticmethod
-    def _get_range_for_val(v, sep, count, num_entries, str_len):
+    def _get_range_for_val(v, sep, str_len):
         if v[sep + 1] == '"':
             end_val = v.index('"', sep + 2)
             start_val = sep + 2
             total_end = end_val + 2
         else:
-            if count == num_entries:
+            if "=" not in v[sep + 1 :]:
+                # last entry
                 end_val = str_len
             else:
                 end_val = v.index(",", sep)
@@ -309,16 +306,13 @@ class IMGReader:
         result = {}
         str_len = len(entries_str)
         cur_pos = 0
-        counter = 0
-        num_entries = entries_str.count("=")
-        if num_entries == 0:
+        if "=" not in entries_str:
             return entries_str
         while cur_pos < str_len:
-            counter += 1
             sep_idx = entries_str.index("=", cur_pos)
             key = entries_str[cur_pos:sep_idx]
             start_val, end_val, cur_pos = self._get_range_for_val(
-                entries_str, sep_idx, counter, num_entries, str_len
+                entries_str, sep_idx, str_len
             )
             val = entries_str[start_val:end_val]
             result[key] = val
-- 
2.43.0


From d9978cf39bbdbf8b19c4d6331061667966327cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 090/142] fix: read Hamamatsu images without number of
 exposures or acquisition mode

---
 rsciio/hamamatsu/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/hamamatsu/_api.py b/rsciio/hamamatsu/_api.py
index 38051a7..21c7042 100644
--- a/rsciio/hamamatsu/_api.py
+++ b/rsciio/hamamatsu/_api.py
@@ -397,7 +397,8 @@ class IMGReader:
                     _logger.warning(
                         f"integration_time is given in {exp_time_units} instead of seconds."
                     )
-                detector["integration_time"] = exp_time * detector["frames"]
+                if detector["frames"] is not None:
+                    detector["integration_time"] = exp_time * detector["frames"]
             else:
                 _logger.warning("integration_time could not be extracted")
 
@@ -436,7 +437,7 @@ class IMGReader:
                 # TODO: add warning? only occurs for shading file
                 time_range = _str2numeric(time_range_str, "float")
                 detector["time_range"] = time_range
-        detector["acquisition_mode"] = AcqMode(int(acq_dict.get("AcqMode"))).name
+        detector["acquisition_mode"] = AcqMode(int(acq_dict.get("AcqMode", 0))).name
         return detector
 
     def _map_spectrometer_md(self):
-- 
2.43.0


From cdc5d5f5e80163e14a1d98621bc973a168dc39b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 091/142] fix: read Phenom projects with analyses that have no
 image

---
 rsciio/phenom/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/phenom/_api.py b/rsciio/phenom/_api.py
index b017699..81cb94c 100644
--- a/rsciio/phenom/_api.py
+++ b/rsciio/phenom/_api.py
@@ -937,9 +937,9 @@ class ElidReader:
         tiff = self._read_tiff()
         label = self._read_string()
         dictionaries = []
-        if tiff:
+        if tiff[1] is not None:
             dictionaries.append(self._make_image_dict(tiff[0], tiff[1], label))
-        dictionaries.extend(self._read_Analyses(label, tiff[0]))
+        dictionaries.extend(self._read_Analyses(label, tiff[0] or {}))
         return dictionaries
 
     def _read_Images(self):
-- 
2.43.0


From ee234ad9879a29d96e79cbad3ec90ad366e0eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 092/142] fix: read Renishaw spectra with a single point

---
 rsciio/renishaw/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..5414d95 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -837,7 +837,7 @@ class WDFReader(object):
         unit_type = UnitType(self.__read_numeric("uint32"))
         unit = str(unit_type)
         axis_name = self._convert_signal_axis_name(unit_type)
-        data = self.__read_numeric("float", size=size)
+        data = self.__read_numeric("float", size=size, ret_array=True)
         return axis_name, unit, data
 
     @staticmethod
@@ -865,7 +865,7 @@ class WDFReader(object):
         signal_dict["navigate"] = False
         signal_dict["name"] = name
         signal_dict["units"] = unit
-        if data[0] > data[1]:
+        if data[0] > data[-1]:
             data = data[::-1]
             self._reverse_signal = True
         else:
@@ -1129,7 +1129,7 @@ class WDFReader(object):
         size = self._points_per_spectrum * self._num_spectra
         self._check_block_size("DATA", "Data", block_size - 16, 4 * size)
         self._file_obj.seek(pos)
-        return self.__read_numeric("float", size=size)
+        return self.__read_numeric("float", size=size, ret_array=True)
 
     def _reshape_data(self):
         axes_sizes = []
-- 
2.43.0


From d2a4ba41189480e58bd8fb97af7eb2a1d66cab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 093/142] fix: read the origins of unfinished Renishaw
 measurements

---
 rsciio/renishaw/_api.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 5414d95..12fe5a4 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -431,6 +431,7 @@ class WDFReader(object):
         self._block_info = None
         self._points_per_spectrum = None
         self._num_spectra = None
+        self._capacity = None
         self._measurement_type = None
         self._unfinished_measurement = False
         self.data = None
@@ -445,6 +446,7 @@ class WDFReader(object):
         header_data = self._parse_WDF1()
         self._points_per_spectrum = header_data["points_per_spectrum"]
         self._num_spectra = header_data["num_spectra"]
+        self._capacity = self.original_metadata["WDF1_1"]["capacity"]
         self._measurement_type = header_data["measurement_type"]
 
         ## parse metadata blocks
@@ -920,7 +922,7 @@ class WDFReader(object):
             "ORGN",
             "Navigation axes",
             block_size - 16,
-            4 + origin_count * (24 + 8 * self._num_spectra),
+            4 + origin_count * (24 + 8 * self._capacity),
         )
         for _ in range(origin_count):
             ax_tmp_dict = {}
@@ -963,14 +965,13 @@ class WDFReader(object):
     def _set_data_for_ORGN(self, dtype):
         if dtype == DataType.Time.name:
             result = self.__read_numeric(
-                "uint64", size=self._num_spectra, ret_array=True
+                "uint64", size=self._capacity, ret_array=True
             )
             result -= result[0]
         else:
-            result = self.__read_numeric(
-                "double", size=self._num_spectra, ret_array=True
-            )
-        return result
+            result = self.__read_numeric("double", size=self._capacity, ret_array=True)
+        # entries of spectra that were not measured are empty
+        return result[: self._num_spectra]
 
     def _parse_WMAP(self):
         if not self._check_block_exists("WMAP_0"):
-- 
2.43.0


From bf0b7b722fb7dcdeaa4197382928fa1431fcbd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 094/142] fix: don't use nan as scale of Renishaw series with a
 single spectrum

---
 rsciio/renishaw/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 12fe5a4..6a274f1 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -1062,7 +1062,7 @@ class WDFReader(object):
             nav_dict[axis]["navigate"] = True
             nav_dict[axis]["size"] = data.size
             nav_dict[axis]["name"] = axis
-            scale_mean = np.mean(np.diff(data))
+            scale_mean = np.mean(np.diff(data)) if data.size > 1 else 0
             if axis == "FocusTrack_Z" or scale_mean == 0:
                 # FocusTrack_Z is not uniform and not necessarily ordered
                 # Fix me when hyperspy supports non-ordered non-uniform axis
-- 
2.43.0


From 1cc148352d6fc9d5698cb2e303bb4b37c579e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 095/142] fix: delmic: give the length of axes stored without
 scale

---
 rsciio/delmic/_api.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index c0da4b7..7997f26 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -216,6 +216,16 @@ def make_axes(acq: h5py.Group) -> List[Dict[str, Any]]:
                     axis_name,
                     image.shape[i],
                 )
+            # Without calibration, the positions are the pixel numbers
+            axis_dict.update(
+                {
+                    "size": image.shape[i],
+                    "offset": 0,
+                    "scale": 1,
+                    "units": "",
+                    "navigate": offset_key is not None,
+                }
+            )
             continue
 
         try:
-- 
2.43.0


From fca5ad5bd467617141a14ac6e2b47bf6c624e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 096/142] fix: delmic: return angle-resolved data without
 concurrent SEM data

---
 rsciio/delmic/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index 7997f26..62d5f56 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -698,7 +698,8 @@ def file_reader(
                 _logger.warning(
                     "AR data present but no SEM concurrent data found to reconstruct it"
                 )
-                acq_data.extend(ar_data)  # Still pass it on, as-is
+                for ar_polarized in ar_data.values():
+                    acq_data.extend(ar_polarized)  # Still pass it on, as-is
             else:
                 for pol, ar_polarized in ar_data.items():
                     try:
-- 
2.43.0


From 47d01b1e03b3c6106e9ae3b706eb89206ba48bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 097/142] fix: delmic: read values without state

---
 rsciio/delmic/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index 62d5f56..27b3bb6 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -106,7 +106,7 @@ def _h5svi_get_state(dataset: h5py.Dataset, default=None):
     """
     try:
         state = dataset.attrs["State"]
-    except IndexError:
+    except KeyError:
         return default
 
     return state.tolist()
-- 
2.43.0


From 6f68b39d70e86cda1e9b1dc3f048b05f7329fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 098/142] fix: topspin: read a single image with dataset_path

---
 rsciio/topspin/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index bfe7627..c479b11 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -106,7 +106,9 @@ def file_reader(
     with h5py.File(filename, "r") as h5_file:
         load_single_file = False
         if dataset_path is not None:
-            if "Metadata" in h5_file[dataset_path]:  # this is a session id
+            item = h5_file[dataset_path]
+            if isinstance(item, h5py.Group) and "Metadata" in item:
+                # this is a session id
                 h5_file = h5_file[dataset_path]
             else:  # This is a single file of interest
                 load_single_file = True
-- 
2.43.0


From 001d4d1d1773e18c8c028ce7f6aa09b12deabb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:51 +0000
Subject: [PATCH 099/142] fix: topspin: order of the axes of scans of a single
 column

---
 rsciio/topspin/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index c479b11..cfd58f8 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -219,8 +219,8 @@ def file_reader(
                     if shape[1] == 1:
                         del shape[1]
                         del datasets_list[i]["axes"][1]
-                        datasets_list[i]["axes"][-1]["index_in_array"] = 1
-                        datasets_list[i]["axes"][-2]["index_in_array"] = 2
+                        datasets_list[i]["axes"][-2]["index_in_array"] = 1
+                        datasets_list[i]["axes"][-1]["index_in_array"] = 2
 
                     if shape[0] == 1:
                         del shape[0]
-- 
2.43.0


From d532012ad939e529e61ce5fb66a0090d89c02d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 100/142] fix: topspin: use the X calibration of frames for kx
 and Y for ky

---
 rsciio/topspin/_api.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index cfd58f8..b17ace6 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -290,14 +290,15 @@ def _get_4D_axes(h5_grp):
     k_space_id = [x for x in h5_grp.keys()][0]
     k_space = ET.fromstring(h5_grp[k_space_id]["Metadata"][()].decode())[0]
     shape = h5_grp[k_space_id]["Data"].shape
-    vuyx_axes[2]["units"] = k_space[0][2][1].text
+    # the calibration of x comes first
+    vuyx_axes[2]["units"] = k_space[1][2][1].text
     vuyx_axes[2]["size"] = shape[0]
-    vuyx_axes[2]["scale"] = float(k_space[0][1].text)
-    vuyx_axes[2]["offset"] = float(k_space[0][0].text)
-    vuyx_axes[3]["units"] = k_space[1][2][1].text
+    vuyx_axes[2]["scale"] = float(k_space[1][1].text)
+    vuyx_axes[2]["offset"] = float(k_space[1][0].text)
+    vuyx_axes[3]["units"] = k_space[0][2][1].text
     vuyx_axes[3]["size"] = shape[1]
-    vuyx_axes[3]["scale"] = float(k_space[1][1].text)
-    vuyx_axes[3]["offset"] = float(k_space[1][0].text)
+    vuyx_axes[3]["scale"] = float(k_space[0][1].text)
+    vuyx_axes[3]["offset"] = float(k_space[0][0].text)
 
     # Image-space axes
     # Because the experiment-level metadata files sometimes change, it's
-- 
2.43.0


From 779820573adaf043f99fb61bca72cbbd48331046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 101/142] fix: topspin: scans towards lower positions

---
 rsciio/topspin/_api.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index b17ace6..013c57f 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -320,7 +320,7 @@ def _get_4D_axes(h5_grp):
     dx = (ux.max() - ux.min()) / (ux.size - 1)
     lx = len(ux)
     uy = np.unique(y)
-    dy = uy.max() - uy.min()
+    dy = (uy.max() - uy.min()) / max(uy.size - 1, 1)
     ly = len(h5_grp.keys()) // len(ux)
     if len(h5_grp.keys()) % len(uy) != 0:
         # Something was wrong with the hack above, and the keys are not
@@ -342,10 +342,15 @@ def _get_4D_axes(h5_grp):
 
     vuyx_axes[0]["size"] = ly
     vuyx_axes[0]["scale"] = float(np.around(dy, 12) * 1e9)
-    vuyx_axes[0]["offset"] = float(uy.min() * 1e9)
+    vuyx_axes[0]["offset"] = float(y[0] * 1e9)
     vuyx_axes[1]["size"] = lx
     vuyx_axes[1]["scale"] = float(np.around(dx, 12) * 1e9)
-    vuyx_axes[1]["offset"] = float(ux.min() * 1e9)
+    vuyx_axes[1]["offset"] = float(x[0] * 1e9)
+    # the first frame is at the highest position of scans in the other direction
+    if y[0] > uy.min():
+        vuyx_axes[0]["scale"] *= -1
+    if x[0] > ux.min():
+        vuyx_axes[1]["scale"] *= -1
     return vuyx_axes
 
 
-- 
2.43.0


From 732db55e643471673b58aa1cf1ba7937bc3b8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 102/142] fix: topspin: read False as False

---
 rsciio/topspin/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/topspin/_api.py b/rsciio/topspin/_api.py
index 013c57f..baf5a06 100644
--- a/rsciio/topspin/_api.py
+++ b/rsciio/topspin/_api.py
@@ -435,7 +435,7 @@ def _parse_app5_xml(metadata_string: str, f_name: str = ""):
     def name_val_decode(element):
         serializer = element.attrib["Serializer"]
         if serializer == "Boolean":
-            out = {element.tag: bool(element.text)}
+            out = {element.tag: element.text.strip().lower() == "true"}
         elif serializer == "Double":
             out = {element.tag: float(element.text)}
         elif serializer == "String":
-- 
2.43.0


From 1eb399ca207aa78df3d5b7745fcf19241041c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 103/142] fix: nexus: keep the general metadata of a saved
 signal

---
 rsciio/nexus/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..ee8365c 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -615,7 +615,9 @@ def file_reader(
                                     oma["original_metadata"][k]["axes"] = hyper_ax
                         if "hyperspy_metadata" in oma:
                             hyper_metadata = oma["hyperspy_metadata"]
-                            hyper_metadata.update(dictionary["metadata"])
+                            hyper_metadata.setdefault("General", {}).update(
+                                dictionary["metadata"]["General"]
+                            )
                             dictionary["metadata"] = hyper_metadata
         else:
             dictionary["original_metadata"] = {}
-- 
2.43.0


From 1ecd7e5709755ef50e126a93222b7dc83211d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 104/142] fix: nexus: read axes with a negative scale

---
 rsciio/nexus/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index ee8365c..240f9d0 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -247,13 +247,15 @@ def _get_nav_list(data, dataentry):
                 if _is_numeric_data(dataentry[ax]):
                     if dataentry[ax].size > 1:
                         if _is_linear_axis(dataentry[ax]):
+                            # python numbers, unsigned integers would wrap
+                            first, second = dataentry[ax][:2].tolist()
                             nav_list.append(
                                 {
                                     "size": data.shape[ind_in_array],
                                     "index_in_array": ind_in_array,
                                     "name": ax,
-                                    "scale": abs(dataentry[ax][1] - dataentry[ax][0]),
-                                    "offset": min(dataentry[ax][0], dataentry[ax][-1]),
+                                    "scale": second - first,
+                                    "offset": first,
                                     "units": units,
                                     "navigate": navigation,
                                 }
@@ -657,7 +659,8 @@ def _is_linear_axis(data):
        True or False
 
     """
-    steps = np.diff(data)
+    # floats, because differences of unsigned integers wrap
+    steps = np.diff(np.asarray(data, dtype=float))
     est_steps = np.array([steps[0]] * len(steps))
     return np.allclose(est_steps, steps, rtol=1.0e-5)
 
-- 
2.43.0


From 715a43651a0a572869f82ffef9ee7fa751241062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 105/142] fix: nexus: non-uniform axes with small values

---
 rsciio/nexus/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 240f9d0..7fd038b 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -662,7 +662,10 @@ def _is_linear_axis(data):
     # floats, because differences of unsigned integers wrap
     steps = np.diff(np.asarray(data, dtype=float))
     est_steps = np.array([steps[0]] * len(steps))
-    return np.allclose(est_steps, steps, rtol=1.0e-5)
+    # differences smaller than the rounding of the values are not significant
+    eps = np.finfo(data.dtype).eps if data.dtype.kind == "f" else 0
+    atol = 4 * eps * np.max(np.abs(data))
+    return np.allclose(est_steps, steps, rtol=1.0e-5, atol=atol)
 
 
 def _is_numeric_data(data):
-- 
2.43.0


From 964c10ff9a59085c63a94b8fee9ed239e98458da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 106/142] fix: nexus: write metadata with numpy numbers

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 7fd038b..9813f50 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1057,7 +1057,7 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
             else:
                 data = _parse_to_file(value)
                 overwrite_dataset(group, data, key, chunks=None, **kwds)
-        elif isinstance(value, (int, float, str, bytes)):
+        elif isinstance(value, (int, float, str, bytes, np.generic)):
             group.create_dataset(key, data=_parse_to_file(value))
         else:
             if value is not None and key not in group:
-- 
2.43.0


From eab654972bf51fbe7a42b69acf00d802c20fea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 107/142] fix: nexus: write lists of texts which are not ASCII

---
 rsciio/nexus/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 9813f50..c890226 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -102,7 +102,7 @@ def _parse_from_file(value, lazy=False):
     if isinstance(toreturn, bytes):
         toreturn = _byte_to_string(toreturn)
     if isinstance(toreturn, (np.ndarray)) and toreturn.dtype.char == "U":
-        toreturn = toreturn.astype("S")
+        toreturn = np.char.encode(toreturn, "utf-8")
     return toreturn
 
 
@@ -128,7 +128,7 @@ def _parse_to_file(value):
     if isinstance(totest, (list, tuple)):
         totest = np.array(value)
     if isinstance(totest, np.ndarray) and totest.dtype.char == "U":
-        toreturn = np.array(totest).astype("S")
+        toreturn = np.char.encode(totest, "utf-8")
     elif isinstance(totest, np.ndarray) or is_dask_array(totest):
         toreturn = totest
     if isinstance(totest, str):
-- 
2.43.0


From 455a699dc9323ded37a89df52a9bb7b939a61140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 108/142] fix: nexus: text axes

---
 rsciio/nexus/_api.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c890226..be5c92a 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -681,11 +681,8 @@ def _is_numeric_data(data):
         True or False
 
     """
-    try:
-        data.astype(float)
-        return True
-    except ValueError:
-        return False
+    # h5py datasets convert only when they are read
+    return data.dtype.kind in "biuf"
 
 
 def _is_int(s):
-- 
2.43.0


From ceb38d24cc19da350fda4d67fd2dc1cce8f52306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 109/142] fix: nexus: read only the default dataset

---
 rsciio/nexus/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index be5c92a..b11ca81 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -547,16 +547,16 @@ def file_reader(
                 rootlist = list(original_metadata.keys())
                 rootlist.remove("attrs")
                 if rootlist and len(rootlist) == 1:
-                    nxentry == rootlist[0]
+                    nxentry = rootlist[0]
             if nxentry:
-                if "default" in original_metadata[nxentry]["attrs"]:
+                if "default" in original_metadata[nxentry].get("attrs", {}):
                     nxdata = original_metadata[nxentry]["attrs"]["default"]
             if nxentry and nxdata:
                 nxdata = "/" + nxentry + "/" + nxdata
             if nxdata:
                 hdf_data_paths = []
                 nexus_data_paths = [
-                    nxpath for nxpath in nexus_data_paths if nxdata in nxpath
+                    nxpath for nxpath in nexus_data_paths if nxpath == nxdata
                 ]
 
     # if no default found then search for the data as normal
-- 
2.43.0


From 8f513c1eb746cae64135dc26a8642f0342445470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 110/142] fix: nexus: keep the order of the file

---
 rsciio/nexus/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index b11ca81..a82fc0a 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -830,8 +830,9 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             [j for j in nx_datasets if any(s in j for s in search_keys)]
         )
 
-    matched_nexus = list(matched_nexus)
-    matched_hdf = list(matched_hdf)
+    # in the order of the file
+    matched_nexus = [j for j in nx_datasets if j in matched_nexus]
+    matched_hdf = [j for j in hdf_datasets if j in matched_hdf]
 
     return matched_nexus, matched_hdf
 
-- 
2.43.0


From 6199370f694a73ac20b60783c3d68a44b738f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 111/142] fix: tofwerk: pixel size in the metadata of rasters
 which are not square

---
 rsciio/tofwerk/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..6eb5271 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -393,7 +393,12 @@ def _build_metadata(
     fib_meta = {}
     try:
         fibparams_attrs = file["FIBParams"].attrs
-        nx = int(np.asarray(root_attrs.get("NbrSegments", 1)).flat[0])
+        if has_peak_data:
+            nx = file["PeakData/PeakData"].shape[2]
+        elif "FullSpectra/EventList" in file:
+            nx = file["FullSpectra/EventList"].shape[2]
+        else:
+            nx = int(np.asarray(root_attrs.get("NbrSegments", 1)).flat[0])
         pixel_size_um = _parse_pixel_size(file, nx)
 
         fib_meta["FIB"] = {
-- 
2.43.0


From a2ef2bc2f41ce46fb9aef8621a289f9135082477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 112/142] fix: tiff: width and height of pixels which are not
 square

---
 rsciio/tiff/_api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..f594f87 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -230,13 +230,13 @@ def _order_axes_by_name(names: list, scales: dict, offsets: dict, units: dict):
     units_new = [None] * len(names)
     for i, name in enumerate(names):
         if name == "height":
-            scales_new[i] = scales["x"]
-            offsets_new[i] = offsets["x"]
-            units_new[i] = units["x"]
-        elif name == "width":
             scales_new[i] = scales["y"]
             offsets_new[i] = offsets["y"]
             units_new[i] = units["y"]
+        elif name == "width":
+            scales_new[i] = scales["x"]
+            offsets_new[i] = offsets["x"]
+            units_new[i] = units["x"]
         elif name in ["depth", "image series", "time"]:
             scales_new[i] = scales["z"]
             offsets_new[i] = offsets["z"]
@@ -860,21 +860,21 @@ def _intensity_axis_digital_micrograph(op, intensity_axis=None):
 def _add_axes_digital_micrograph(op, scales, offsets, units):
     if "65003" in op:
         _logger.debug("Reading Gatan DigitalMicrograph tif metadata")
-        units["y"] = op["65003"]  # x units
+        units["x"] = op["65003"]  # x units
     if "65004" in op:
-        units["x"] = op["65004"]  # y units
+        units["y"] = op["65004"]  # y units
     if "65005" in op:
         units["z"] = op["65005"]  # z units
     if "65009" in op:
-        scales["y"] = op["65009"]  # x scales
+        scales["x"] = op["65009"]  # x scales
     if "65010" in op:
-        scales["x"] = op["65010"]  # y scales
+        scales["y"] = op["65010"]  # y scales
     if "65011" in op:
         scales["z"] = op["65011"]  # z scales
     if "65006" in op:
-        offsets["y"] = op["65006"]  # x offset
+        offsets["x"] = op["65006"]  # x offset
     if "65007" in op:
-        offsets["x"] = op["65007"]  # y offset
+        offsets["y"] = op["65007"]  # y offset
     if "65008" in op:
         offsets["z"] = op["65008"]  # z offset
 
@@ -929,8 +929,8 @@ def _parse_scale_unit(
 
 def _get_scales_from_x_y_resolution(op, factor=1.0):
     scales = (
-        op["YResolution"][1] / op["YResolution"][0] * factor,
         op["XResolution"][1] / op["XResolution"][0] * factor,
+        op["YResolution"][1] / op["YResolution"][0] * factor,
     )
     return scales
 
-- 
2.43.0


From 308b880405e7edca1c6028887e9dc4aff48aa86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 113/142] fix: tiff: read the exact scale of the DM tags

---
 rsciio/tiff/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index f594f87..8c8139b 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -913,12 +913,14 @@ def _parse_scale_unit(
     else:
         scales, offsets, units = _axes_defaults()
         # Axes descriptors can be additionally parsed from digital micrograph or imagej-style files
+        # The tags of digital micrograph are exact, the resolution of imagej is
+        # limited to positive rationals of 32-bit integers
+        if _is_imagej(tiff):
+            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
         if _is_digital_micrograph(op):
             scales, offsets, units = _add_axes_digital_micrograph(
                 op, scales, offsets, units
             )
-        if _is_imagej(tiff):
-            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
 
         scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
 
-- 
2.43.0


From e6af7f1ac6929c434f1ebdb2f42a7441c5dc8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 114/142] fix: tiff: write small, large and negative scales

---
 rsciio/tiff/_api.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 8c8139b..421c2c5 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -23,6 +23,7 @@ import os
 import re
 import warnings
 from datetime import datetime, timedelta
+from fractions import Fraction
 
 import numpy as np
 import tifffile
@@ -937,7 +938,7 @@ def _get_scales_from_x_y_resolution(op, factor=1.0):
     return scales
 
 
-def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
+def _get_tags_dict(signal, extratags=[]):
     """
     Get the tags to export the scale and the unit to be used in Digital
     Micrograph and ImageJ.
@@ -946,7 +947,7 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     nav_dim = len([ax for ax in axes if ax["navigate"]])
     scales, units, offsets = _get_scale_unit(axes, encoding=None)
     _logger.debug("{0}".format(units))
-    tags_dict = _get_imagej_kwargs(scales, units, nav_dim, factor=factor)
+    tags_dict = _get_imagej_kwargs(scales, units, nav_dim)
     scales, units, offsets = _get_scale_unit(axes, encoding="latin-1")
 
     tags_dict["extratags"].extend(
@@ -956,11 +957,24 @@ def _get_tags_dict(signal, extratags=[], factor=int(1e8)):
     return tags_dict
 
 
-def _get_imagej_kwargs(scales, units, nav_dim, factor=int(1e8)):
-    resolution = (
-        (factor, int(scales[-1] * factor)),
-        (factor, int(scales[-2] * factor)),
-    )
+def _get_resolution(scale, limit=2**32 - 1):
+    """
+    Get the resolution (number of pixels per unit) as the closest rational of
+    two unsigned 32-bit integers.
+    """
+    scale = abs(float(scale))
+    if scale == 0 or not np.isfinite(scale):
+        return (1, 1)
+    scale = min(max(scale, 1 / limit), limit)
+    if scale < 1:
+        resolution = Fraction(1 / scale).limit_denominator(int(limit * scale))
+    else:
+        resolution = 1 / Fraction(scale).limit_denominator(int(limit / scale))
+    return min(resolution.numerator, limit), min(resolution.denominator, limit)
+
+
+def _get_imagej_kwargs(scales, units, nav_dim):
+    resolution = (_get_resolution(scales[-1]), _get_resolution(scales[-2]))
     if nav_dim == 1:  # For stacks
         spacing = f"{scales[0]}"
     else:
-- 
2.43.0


From 9d6071c1953c210517bce502e598a607626811cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 115/142] fix: tiff: read colour images stored as separate
 planes

---
 rsciio/tiff/_api.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 421c2c5..a57b3c5 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -298,11 +298,15 @@ def _read_tiff(
     is_rgb = page.photometric == tifffile.PHOTOMETRIC.RGB and RGB_as_structured_array
     _logger.debug("Is RGB: %s" % is_rgb)
     if is_rgb:
-        axes = axes[:-1]
+        # The samples are last, unless the planes are stored separately
+        rgb_axis = axes.index("S") if "S" in axes else len(axes) - 1
+        axes = axes[:rgb_axis] + axes[rgb_axis + 1 :]
         names = ["R", "G", "B", "A"]
-        lastshape = shape[-1]
+        lastshape = shape[rgb_axis]
         dtype = np.dtype({"names": names[:lastshape], "formats": [dtype] * lastshape})
-        shape = shape[:-1]
+        shape = shape[:rgb_axis] + shape[rgb_axis + 1 :]
+    else:
+        rgb_axis = None
 
     op = {tag.name: tag.value for tag in page.tags}
 
@@ -374,7 +378,7 @@ def _read_tiff(
         }
         md["Signal"]["Noise_properties"] = {"Variance_linear_model": dic}
 
-    data_args = handle, is_rgb
+    data_args = handle, rgb_axis
     if lazy:
         from dask import delayed
         from dask.array import from_delayed
@@ -406,12 +410,13 @@ def _read_tiff(
     }
 
 
-def _load_data(handle, is_rgb, memmap=None, **kwds):
+def _load_data(handle, rgb_axis, memmap=None, **kwds):
     dc = handle.asarray(out=memmap)
     _logger.debug("data shape: {0}".format(dc.shape))
-    if is_rgb:
+    if rgb_axis is not None:
         from rsciio.utils import rgb
 
+        dc = np.moveaxis(dc, rgb_axis, -1)
         dc = rgb.regular_array2rgbx(dc)
 
     return dc
-- 
2.43.0


From 1a20bf29dd517d58af61cf1d926976b7f523bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 116/142] fix: tiff: title of JEOL SightX STEM images

---
 rsciio/tiff/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index a57b3c5..e19ba1b 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -608,7 +608,7 @@ def _axes_jeol_sightx(tiff, op, shape, names):
     imaging = op["ImageDescription"]["ImageFormingSystem"]
 
     # TEM/STEM
-    is_STEM = eos == "modeASID"
+    is_STEM = eos == "eosASID"
     mode_strs = []
     mode_strs.append("STEM" if is_STEM else "TEM")
     mode_strs.append(illumi["ImageField"][4:])  # Bright Fields?
-- 
2.43.0


From 7b4b9127b038f1a42cc945758df3782cb07365cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 117/142] fix: image: keep red of images with equal green and
 blue

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..bbd08a1 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -272,7 +272,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 0461170f33707458d75b26b370f118c7ea8176bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 118/142] fix: image: lazy reading

---
 rsciio/image/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index bbd08a1..86ba1cc 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -240,8 +240,9 @@ def file_reader(filename, lazy=False, **kwds):
         from dask import delayed
         from dask.array import from_delayed
 
+        data = _read_data(filename, **kwds)
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
+        dc = from_delayed(val, shape=data.shape, dtype=data.dtype)
     else:
         dc = _read_data(filename, **kwds)
 
-- 
2.43.0


From 6e23ee22e515e81d7e7adbdfe0651a2c7bc92c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 119/142] fix: image: read images of one row or column

---
 rsciio/image/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 86ba1cc..8731c14 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -269,7 +269,10 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
 def _read_data(filename, **kwds):
-    dc = np.squeeze(iio.imread(filename))
+    dc = iio.imread(filename)
+    if iio.improps(filename).is_batch and dc.shape[0] == 1:
+        # A single frame
+        dc = dc[0]
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-- 
2.43.0


From 339844999f6adc34fdb8098a5714c5e5ce783c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 120/142] fix: image: index of the axes in the array

---
 rsciio/utils/_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_image.py b/rsciio/utils/_image.py
index 95d88de..6742bc6 100644
--- a/rsciio/utils/_image.py
+++ b/rsciio/utils/_image.py
@@ -63,7 +63,7 @@ def _parse_axes_from_metadata(exif_tags, sizes):
             "size": size,
             "scale": fields_of_views[i] / size,
             "offset": offsets[i],
-            "index_in_array": i,
+            "index_in_array": 1 - i,
         }
         for i, name, size in zip([1, 0], ["y", "x"], sizes)
     ]
-- 
2.43.0


From 223bb605d293d556db33d5a9158b96e5c69d5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 121/142] fix: rgb: convert dask arrays to structured arrays

---
 rsciio/utils/rgb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/rgb.py b/rsciio/utils/rgb.py
index d8302f3..718e5cc 100644
--- a/rsciio/utils/rgb.py
+++ b/rsciio/utils/rgb.py
@@ -164,7 +164,9 @@ def regular_array2rgbx(data):
         The transformed RGBx structured array.
     """
     # Make sure that the data is contiguous
-    if data.flags["C_CONTIGUOUS"] is False:
+    if is_dask_array(data):
+        data = data.rechunk({-1: -1}).map_blocks(np.ascontiguousarray)
+    elif data.flags["C_CONTIGUOUS"] is False:
         if np.ma.is_masked(data):
             data = data.copy(order="C")
         else:
-- 
2.43.0


From ed618a92d203c11bfe5d9cf443a0945cc7fd9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 122/142] fix: image: axes of animated images

---
 rsciio/image/_api.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 8731c14..21027a6 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -250,7 +250,22 @@ def file_reader(filename, lazy=False, **kwds):
 
     im = Image.open(filename)
     om["exif_tags"] = _parse_exif_tags(im)
-    axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape)
+    axes = _parse_axes_from_metadata(om["exif_tags"], dc.shape[-2:])
+    if dc.ndim == 3:
+        # The frames of an animated image
+        for axis in axes:
+            axis["index_in_array"] += 1
+        axes.insert(
+            0,
+            {
+                "name": "time",
+                "units": None,
+                "size": dc.shape[0],
+                "scale": 1.0,
+                "offset": 0,
+                "index_in_array": 0,
+            },
+        )
 
     return [
         {
@@ -270,14 +285,16 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 def _read_data(filename, **kwds):
     dc = iio.imread(filename)
-    if iio.improps(filename).is_batch and dc.shape[0] == 1:
+    is_stack = iio.improps(filename).is_batch
+    if is_stack and dc.shape[0] == 1:
         # A single frame
         dc = dc[0]
-    if len(dc.shape) > 2:
+        is_stack = False
+    if len(dc.shape) > (3 if is_stack else 2):
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
-            dc = dc[:, :, 0]
+        if (dc[..., 0] == dc[..., 1]).all() and (dc[..., 1] == dc[..., 2]).all():
+            dc = dc[..., 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
             from rsciio.utils import rgb
-- 
2.43.0


From 1d22c9d3c61c98d04c8a5fc225b3484619a0dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 123/142] fix: trivista: read files of setups with a single
 laser, detector, microscope, objective, spectrometer or grating

---
 rsciio/trivista/_api.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index fe5040c..971df7b 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -61,11 +61,15 @@ def _remove_none_from_dict(dict_in):
             del dict_in[key]
 
 
+def _as_list(entry):
+    """Entries occurring only once in the file are not stored as a list."""
+    return entry if isinstance(entry, list) else [entry]
+
+
 def _process_info_serialized(head):
     """Recursive processing designed for the InfoSerialized entry from the original_metadata."""
     result = {}
-    if not isinstance(head, list):
-        head = [head]
+    head = _as_list(head)
     save_name_for_rename = set()
     for idx, entry in enumerate(head):
         entry_name = entry["Name"]
@@ -239,7 +243,9 @@ class TrivistaTVFReader:
         except KeyError:
             return
 
-        for laser in metadata_hardware["Hardware"]["LightSources"]["LightSource"]:
+        for laser in _as_list(
+            metadata_hardware["Hardware"]["LightSources"]["LightSource"]
+        ):
             try:
                 laser_wl = laser["Wavelengths"]["Value_0"]
             except KeyError:
@@ -251,15 +257,19 @@ class TrivistaTVFReader:
     @staticmethod
     def _filter_detector_metadata(infoSerialized_processed, metadata_hardware):
         """Filter Detector section via name"""
-        for detector in metadata_hardware["Hardware"]["Detectors"]["Detector"]:
+        for detector in _as_list(
+            metadata_hardware["Hardware"]["Detectors"]["Detector"]
+        ):
             if detector["Name"] == infoSerialized_processed["Detector"]["Name"]:
                 metadata_hardware["Hardware"]["Detectors"]["Detector"] = detector
 
     @staticmethod
     def _filter_objectives_metadata(metadata_hardware):
         """Filter microscope section (objective) via isEnabled tag"""
-        for microscope in metadata_hardware["Hardware"]["Microscopes"]["Microscope"]:
-            for objective in microscope["Objectives"]["Objective"]:
+        for microscope in _as_list(
+            metadata_hardware["Hardware"]["Microscopes"]["Microscope"]
+        ):
+            for objective in _as_list(microscope["Objectives"]["Objective"]):
                 if objective["IsEnabled"]:
                     metadata_hardware["Hardware"]["Microscopes"]["Microscope"] = (
                         microscope
@@ -290,9 +300,9 @@ class TrivistaTVFReader:
         ##         - ...
         ##     - Spectrometer2
         ##         - ...
-        for spectrometer in metadata_hardware["Hardware"]["Spectrometers"][
-            "Spectrometer"
-        ]:
+        for spectrometer in _as_list(
+            metadata_hardware["Hardware"]["Spectrometers"]["Spectrometer"]
+        ):
             if spectrometer["Serialnumber"] in spectrometer_serial_numbers:
                 idx = spectrometer_serial_numbers.index(spectrometer["Serialnumber"])
                 spectrometer_name = spectrometer_serialized_list[idx]
@@ -300,7 +310,7 @@ class TrivistaTVFReader:
                     spectrometer
                 )
                 ## filter grating via groove density
-                gratings_root = spectrometer["Gratings"]["Grating"]
+                gratings_root = _as_list(spectrometer["Gratings"]["Grating"])
                 for grating in gratings_root:
                     if (
                         grating["GrooveDensity"]
-- 
2.43.0


From 345288d70f8fe64db8ee794578c3ef8853b347c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 124/142] fix: trivista: read files without enabled objective

---
 rsciio/trivista/_api.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index 971df7b..49d97d1 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -408,14 +408,16 @@ class TrivistaTVFReader:
     @staticmethod
     def _map_laser_md(original_metadata, laser_wavelength):
         laser = {}
-        laser["objective_magnification"] = (
+        microscope = (
             original_metadata.get("Hardware", {})
             .get("Microscopes", {})
             .get("Microscope", {})
-            .get("Objectives", {})
-            .get("Objective", {})
-            .get("Magnification")
         )
+        if isinstance(microscope, dict):
+            objective = microscope.get("Objectives", {}).get("Objective", {})
+            # several microscopes or objectives are left when none is enabled
+            if isinstance(objective, dict) and objective.get("IsEnabled", True):
+                laser["objective_magnification"] = objective.get("Magnification")
         if laser_wavelength is not None:
             laser["wavelength"] = laser_wavelength
         return laser
-- 
2.43.0


From ffcbf93abd5b3cf02d143dd48f8a936fa61c2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 125/142] fix: trivista: uniform axis of a single channel

---
 rsciio/trivista/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index 49d97d1..cd9f262 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -716,7 +716,7 @@ class TrivistaTVFReader:
         return data, time, signal_axis
 
     def reshape_data(self, data, axes):
-        if self._use_uniform_signal_axis:
+        if "size" in axes[0][-1]:
             wavelength_size = axes[0][-1]["size"]
         else:
             wavelength_size = axes[0][-1]["axis"].size
-- 
2.43.0


From 7062d5fa1f9312f1d1373ea9deeb736b6cdf8ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:34 +0000
Subject: [PATCH 126/142] fix: trivista: index of the signal axis of glued data

---
 rsciio/trivista/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/trivista/_api.py b/rsciio/trivista/_api.py
index cd9f262..3cc2dc3 100644
--- a/rsciio/trivista/_api.py
+++ b/rsciio/trivista/_api.py
@@ -649,7 +649,7 @@ class TrivistaTVFReader:
             for signal_axis in signal_axis:
                 axes_tmp = deepcopy(axes)
                 axes_tmp["signal_dict"] = signal_axis
-                axes_tmp["signal_dict"]["index_in_array"] = len(axes) - 1
+                axes_tmp["signal_dict"]["index_in_array"] = len(axes_tmp) - 1
                 axes_tmp = sorted(
                     axes_tmp.values(), key=lambda item: item["index_in_array"]
                 )
-- 
2.43.0


From 2a0a14aaf2c8689aa1782f62336c92804156f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 127/142] fix: Jobin-Yvon: spectra of a single channel

---
 rsciio/jobinyvon/_api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index 3501146..7512ff8 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -75,6 +75,7 @@ class JobinYvonXMLReader:
     def __init__(self, file_path, use_uniform_signal_axis=False):
         self._file_path = file_path
         self._use_uniform_signal_axis = use_uniform_signal_axis
+        self._reverse_signal = False
 
         if importlib.util.find_spec("lumispy") is None:
             self._lumispy_installed = False
-- 
2.43.0


From 94b13957b59e93aba56bd501ee40ecefb4761bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 128/142] fix: Jobin-Yvon: numerical settings without a value

---
 rsciio/jobinyvon/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index 7512ff8..c146f8d 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -264,6 +264,9 @@ class JobinYvonXMLReader:
                 )
             except KeyError:
                 pass
+            except TypeError:
+                # entry without a value
+                del self.original_metadata["experimental_setup"][key]
 
         ## move the unit from grating to the key name
         try:
-- 
2.43.0


From 793435da7f01bf56bb2fb939d99d1e1ecb5bf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 129/142] fix: Jobin-Yvon: files without filter or hole

---
 rsciio/jobinyvon/_api.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index c146f8d..f120509 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -654,17 +654,13 @@ class JobinYvonXMLReader:
             detector["integration_time"] = integration_time
 
         ## convert filter range from percentage (0-100) to (0-1)
-        try:
+        if laser["Filter"]["optical_density"] is not None:
             laser["Filter"]["optical_density"] /= 100
-        except KeyError:  # pragma: no cover
-            pass  # pragma: no cover
 
         ## convert entrance_hole_width to mm
-        try:
+        if spectrometer["entrance_slit_width"] is not None:
             spectrometer["entrance_slit_width"] /= 100
             spectrometer["pinhole"] = spectrometer["entrance_slit_width"]
-        except KeyError:  # pragma: no cover
-            pass  # pragma: no cover
 
         self.metadata = {
             "General": general,
-- 
2.43.0


From d85a0809ca24bf62f0c49d78b5878203459db207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:31 +0000
Subject: [PATCH 130/142] fix: Jobin-Yvon: files without title

---
 rsciio/jobinyvon/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index f120509..128de86 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -518,7 +518,7 @@ class JobinYvonXMLReader:
 
         sample["description"] = self.original_metadata["file_information"].get("Sample")
 
-        general["title"] = self._title
+        general["title"] = getattr(self, "_title", None)
         general["original_filename"] = self._file_path.name
         general["notes"] = self.original_metadata["file_information"].get("Remark")
         try:
-- 
2.43.0


From 49a4bf7d780173022ef20e754acc3d7202c98d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 131/142] fix: Impulse: logs without metadata file

---
 rsciio/impulse/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index 617cde1..b944761 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -82,8 +82,8 @@ class ImpulseCSV:
             "General": {
                 "original_filename": os.path.split(self.filename)[1],
                 "title": "%s" % quantity,
-                "date": self.original_metadata["Experiment_date"],
-                "time": self.original_metadata["Experiment_time"],
+                "date": self.original_metadata.get("Experiment_date"),
+                "time": self.original_metadata.get("Experiment_time"),
             },
             "Signal": {
                 "quantity": self._parse_quantity_units(quantity),
-- 
2.43.0


From 9af20bc8c2d5bf139d3224889680abd143d37127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 132/142] fix: Impulse: notes and values with commas

---
 rsciio/impulse/_api.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index b944761..ba09f2b 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -1,4 +1,3 @@
-import csv
 import logging
 import os
 
@@ -150,18 +149,20 @@ class ImpulseCSV:
                 "_".join(str(self.filename).split("_")[:-1]) + "_Metadata.log"
             ).replace("\\", "/")
             if os.path.isfile(metadata_file):
-                with open(metadata_file, newline="") as csvfile:
-                    metadata_file_reader = csv.reader(csvfile, delimiter=",")
-                    for row in metadata_file_reader:
+                with open(metadata_file) as f:
+                    for line in f:
+                        line = line.rstrip("\n")
+                        # values and notes can contain commas
+                        key, _, value = line.partition(",")
                         if notes_section:
-                            notes.append(row[0])
-                        elif row[0] == "Live notes":
+                            notes.append(line)
+                        elif key == "Live notes":
                             notes_section = True
-                            notes = [row[1].strip()]
-                        else:
-                            self.original_metadata[row[0].replace(" ", "_")] = row[
-                                1
-                            ].strip()
+                            notes = [value.strip()]
+                        elif key:
+                            self.original_metadata[key.replace(" ", "_")] = (
+                                value.strip()
+                            )
                     self.original_metadata["Notes"] = notes
 
             else:
-- 
2.43.0


From cf730d3c89aa17e0ce1ea10199142e77b7d07a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:11 +0000
Subject: [PATCH 133/142] fix: Protochips: notes read as text

---
 rsciio/protochips/_api.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 0cb8838..25b413f 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -156,15 +156,26 @@ class ProtochipsCSV(object):
             names=names,
             skip_header=self.header_last_line_number,
             encoding="latin1",
+            comments=None,
+        )
+        # read separately, to keep the notes as text, whatever they contain
+        self.notes = np.genfromtxt(
+            self.filename,
+            delimiter=",",
+            dtype=str,
+            usecols=self.column_name.index("Notes"),
+            skip_header=self.header_last_line_number,
+            encoding="latin1",
+            comments=None,
+            autostrip=True,
+            ndmin=1,
         )
 
         self._data_dictionary = dict()
         for i, name, name_dtype in zip(range(len(names)), self.column_name, names):
-            if name == "Notes":
-                self.notes = data[name_dtype].astype(str)
-            elif name == "Time":
+            if name == "Time":
                 self.time_axis = data[name_dtype]
-            else:
+            elif name != "Notes":
                 self._data_dictionary[name] = data[name_dtype]
 
     def _parse_notes(self):
-- 
2.43.0


From 0ee6c4cf09bcbd3a196f78d8c6224dc18b95f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:00 +0000
Subject: [PATCH 134/142] fix: DENS: reading of blank files ends

---
 rsciio/dens/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..4aa239c 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,7 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        while line != "" and line.strip() == "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From a11174ed9a1f1eaa1c5e8f5e1b89553bd1355cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 135/142] fix: Quadstar: position of the comment

---
 rsciio/quadstar/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/quadstar/_api.py b/rsciio/quadstar/_api.py
index db0a739..68581ec 100644
--- a/rsciio/quadstar/_api.py
+++ b/rsciio/quadstar/_api.py
@@ -94,10 +94,11 @@ _trace_info_dtype = np.dtype(
         ("y_unit", "|S13"),  # +0x0F
         ("unknown_a", "|u1"),  # +0x1C
         ("x_title", "|S13"),  # +0x1D
-        ("x_unit", "|S13"),  # +0x2A
+        ("x_unit", "|S14"),  # +0x2A
         ("comment", "|S59"),  # +0x38  (up to 0x72)
-        ("unknown_b", "|u4"),  # +0x73 (approx)
-        ("unknown_c", "|u4"),  # +0x77 (approx)
+        ("unknown_b", "<u4"),  # +0x73 (approx)
+        ("unknown_c", "<u2"),  # +0x77 (approx)
+        ("unknown_d", "|u1"),  # +0x79 (approx)
         ("first_mass", "<f4"),  # +0x7A
         ("scan_width", "<u2"),  # +0x7E
         ("values_per_mass", "|u1"),  # +0x80
-- 
2.43.0


From 9749cac88c046931b2ada5d66b4695c9183a2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 136/142] fix: keep the models of other signals when adding a
 signal to a hspy file

---
 rsciio/_hierarchical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index d1dfcb1..dd52e95 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -875,8 +875,9 @@ class HierarchicalWriter:
         if signal["models"]:
             model_group = self.file.require_group("Analysis/models")
             self.dict2group(signal["models"], model_group, **kwds)
-            for model in model_group.values():
-                model.attrs["_signal"] = group.name
+            # Other signals of the same file can have models too
+            for name in signal["models"]:
+                model_group[name].attrs["_signal"] = group.name
 
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
-- 
2.43.0


From 59716b482d818f474edccaa99f97b5b1cc9667e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 137/142] fix: keep keys with a period or bracket in DTBox

---
 rsciio/utils/_dictionary.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rsciio/utils/_dictionary.py b/rsciio/utils/_dictionary.py
index b59bf97..284f128 100644
--- a/rsciio/utils/_dictionary.py
+++ b/rsciio/utils/_dictionary.py
@@ -17,6 +17,7 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 from box import Box
+from box.exceptions import BoxKeyError
 
 
 class DTBox(Box):
@@ -29,6 +30,15 @@ class DTBox(Box):
     https://github.com/cdgriffith/Box/wiki/Types-of-Boxes#default-box
     """
 
+    def __setitem__(self, key, value):
+        try:
+            super().__setitem__(key, value)
+        except BoxKeyError:
+            if not (isinstance(key, str) and self._box_config["box_dots"]):
+                raise
+            # a period or bracket which is part of the key, not a path
+            dict.__setitem__(self, key, value)
+
     def add_node(self, path):
         keys = path.split(".")
         for key in keys:
-- 
2.43.0


From 68985910427a2c7f7e98138a109819055316b9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 138/142] fix: convert lengths to nm when writing MRCZ

---
 rsciio/mrcz/_api.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..5ddf54d 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -157,6 +157,19 @@ file_reader.__doc__ %= (
 )
 
 
+def _scale_in_nm(axis):
+    """The pixel size in nm, the unit used when reading, or the bare scale
+    of an axis which is not a length."""
+    from pint.errors import PintError
+
+    from rsciio.utils._units import convert_units
+
+    try:
+        return axis["scale"] * convert_units(1.0, axis["units"] or "", "nm")
+    except (PintError, AssertionError, TypeError, ValueError):
+        return axis["scale"]
+
+
 def file_writer(
     filename,
     signal,
@@ -212,8 +225,8 @@ def file_writer(
     md = DTBox(signal["metadata"], box_dots=True)
 
     # Get pixelsize and pixelunits from the axes
-    pixelunits = signal["axes"][-1]["units"]
-    pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER]
+    pixelunits = "nm"
+    pixelsize = [_scale_in_nm(signal["axes"][I_]) for I_ in _WRITE_ORDER]
 
     # Strip out voltage from meta-data
     voltage = md.get("Acquisition_instrument.TEM.beam_energy")
-- 
2.43.0


From d480f65c96c91a8724928950f99cc1c64fc761fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:10 +0000
Subject: [PATCH 139/142] fix: read the attributes of the measurement of USID
 files

---
 rsciio/usid/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/usid/_api.py b/rsciio/usid/_api.py
index c446535..fc1aa11 100644
--- a/rsciio/usid/_api.py
+++ b/rsciio/usid/_api.py
@@ -287,7 +287,7 @@ def _usidataset_to_signal_dict(h5_main, ignore_non_uniform_dims=True, lazy=False
     if isinstance(h5_chan_grp, h5py.Group):
         if "Channel" in h5_chan_grp.name.split("/")[-1]:
             group_attrs = sidpy.hdf_utils.get_attributes(h5_chan_grp)
-            h5_meas_grp = h5_main.parent
+            h5_meas_grp = h5_chan_grp.parent
             if isinstance(h5_meas_grp, h5py.Group):
                 if "Measurement" in h5_meas_grp.name.split("/")[-1]:
                     temp = sidpy.hdf_utils.get_attributes(h5_meas_grp)
-- 
2.43.0


From 8e2e442c875d93a855b043c14304dbfd74942915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:36 +0000
Subject: [PATCH 140/142] fix: read the calibration of signals saved as prz

---
 rsciio/pantarhei/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 0b933a4..ab18071 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -197,9 +197,11 @@ def import_pr(data, meta_data, filename=None):
     data_type = meta_data.get("type")
     content_type = meta_data.get("content.types")
     calibrations = []
+    # data saved with `file_writer` only have inherited calibrations
+    calib_key = "device.calib" if "device.calib" in meta_data else "inherited.calib"
     for axis in range(data_dimensions):
         try:
-            calib = meta_data["device.calib"][axis]
+            calib = meta_data[calib_key][axis]
         except (IndexError, KeyError):
             calib = None
         calibrations.append(calib)
-- 
2.43.0


From 51d23a82c809600e9d02a0d588e5add1fcfb00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 141/142] fix: keep the orientation of EELS data saved as prz

---
 rsciio/pantarhei/_api.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index ab18071..69467ab 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -354,6 +354,17 @@ def import_pr(data, meta_data, filename=None):
     return file_data_list
 
 
+def _flip_energy_axis(data, axes_info):
+    """Energy axes are reversed when reading EELS data, see `import_pr`."""
+    axes_info = [dict(ax) for ax in axes_info]
+    for i, ax in enumerate(axes_info):
+        if ax.get("name") in ("Energy loss", "Energy"):
+            data = np.flip(data, i)
+            if "offset" in ax and "scale" in ax:
+                ax["offset"] = -(ax["offset"] + (data.shape[i] - 1) * ax["scale"])
+    return data, axes_info
+
+
 def export_pr(signal):
     """Extracts from the signal the data array and the metadata in PantaRhei format
 
@@ -374,6 +385,8 @@ def export_pr(signal):
     original_metadata = signal["original_metadata"]
     axes_info = signal["axes"]
     meta_data = _metadata_converter_out(metadata, original_metadata)
+    if meta_data.get("filter.mode") == "EELS":
+        data, axes_info = _flip_energy_axis(data, axes_info)
     if "ref_size" not in meta_data:
         meta_data["ref_size"] = data.shape[::-1]
 
-- 
2.43.0


From 323eb51899f08882f4e267c6c2f24463c1cab883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:37 +0000
Subject: [PATCH 142/142] fix: save lazy signals as prz

---
 rsciio/pantarhei/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 69467ab..9640b27 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -165,7 +165,7 @@ def file_writer(filename: str | Path, signal: dict) -> None:
         # use open file to avoid numpy adding the npz extension
         np.savez_compressed(
             file=f,
-            data=data,
+            data=np.asarray(data),
             meta_data=[meta_data],
             file_format_version=2,
             data_model=[{}],
-- 
2.43.0

