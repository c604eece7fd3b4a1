From 4062c382d3d54ba3d647743504aad57a8613071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:32 +0000
Subject: [PATCH 01/54] fix: season(0) is a month that does not exist, return
 None as documented

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index e623387..39a8ba6 100644
--- a/qc.py
+++ b/qc.py
@@ -51,7 +51,7 @@ def season(month):
     :return: DJF, MAM, JJA, or SON or None if the input month is non-existent (e.g. 13)
     :rtype: string
     """
-    if month < 0 or month > 12:
+    if month < 1 or month > 12:
         return None
     ssnlist = ['DJF', 'DJF',
                'MAM', 'MAM', 'MAM',
-- 
2.43.0


From c9eb472845c5d698765e27abb4df98d295610bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:32 +0000
Subject: [PATCH 02/54] fix: year_month_gen never ends when the end month
 precedes the start month

---
 qc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qc.py b/qc.py
index 39a8ba6..e8bc5f9 100644
--- a/qc.py
+++ b/qc.py
@@ -1696,6 +1696,8 @@ def year_month_gen(year1, month1, year2, month2):
 
     assert year2 >= year1, "Start year after end year"
     assert 0 < month1 <= 12, "Month outside 1-12"
+    assert 0 < month2 <= 12, "Month outside 1-12"
+    assert year2 > year1 or month2 >= month1, "Start month after end month"
 
     year = year1
     month = month1
-- 
2.43.0


From fb14f1cfe546ff7e505ae9362ab1fd1449840883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:38 +0000
Subject: [PATCH 03/54] fix: mds_lon_to_xindex returned indices beyond the grid
 for longitudes above 180

---
 qc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qc.py b/qc.py
index e8bc5f9..5b2c8c4 100644
--- a/qc.py
+++ b/qc.py
@@ -1537,6 +1537,8 @@ def mds_lon_to_xindex(lon, res=1.0):
     """
     long_local = lon  # round(lon,1)
 
+    if long_local > 180:
+        long_local -= 360
     if long_local == -180:
         long_local += 0.001
     if long_local == 180:
-- 
2.43.0


From 22cc3a698178416f1c01b6f94b785bf5fa9cb759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 04/54] fix: course_between_points returned negative, east-west
 mirrored courses close to due north and south

---
 spherical_geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 07b2240..706e11e 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -159,9 +159,10 @@ def course_between_points(lat1, lon1, lat2, lon2):
                     tc1 = float('nan')
 
         if math.isnan(tc1):
-            tc1 = math.fmod(np.arctan2(np.sin(lon1 - lon2) * np.cos(lat2),
-                                       np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon1 - lon2)),
-                            2 * np.pi)
+            tc1 = np.arctan2(np.sin(lon2 - lon1) * np.cos(lat2),
+                             np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon1 - lon2))
+            if tc1 < 0:
+                tc1 = tc1 + 2 * np.pi
 
     else:
 
-- 
2.43.0


From 2e6bd56e91f63a337547e9a7bdf56f188f1ee2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 05/54] fix: lat_lon_from_course_and_distance returned nan when
 rounding put the sine of the latitude above one

---
 spherical_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index 706e11e..c837b3a 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -98,7 +98,8 @@ def lat_lon_from_course_and_distance(lat1, lon1, tc, d):
 
     dr = d / earths_radius
 
-    lat = np.arcsin(np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr))
+    sin_lat = np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr)
+    lat = np.arcsin(max(-1.0, min(1.0, sin_lat)))
     dlon = np.arctan2(np.sin(tcr) * np.sin(dr) * np.cos(lat1), np.cos(dr) - np.sin(lat1) * np.sin(lat))
     lon = math.fmod(lon1 + dlon + np.pi, 2. * np.pi) - np.pi
 
-- 
2.43.0


From 77b42f6d19c543aba6fa915d75e172afafeb5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:18 +0000
Subject: [PATCH 06/54] fix: lat_lon_from_course_and_distance returned
 longitudes below -180 going west across the dateline

---
 spherical_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_geometry.py b/spherical_geometry.py
index c837b3a..d6590e8 100644
--- a/spherical_geometry.py
+++ b/spherical_geometry.py
@@ -101,7 +101,7 @@ def lat_lon_from_course_and_distance(lat1, lon1, tc, d):
     sin_lat = np.sin(lat1) * np.cos(dr) + np.cos(lat1) * np.sin(dr) * np.cos(tcr)
     lat = np.arcsin(max(-1.0, min(1.0, sin_lat)))
     dlon = np.arctan2(np.sin(tcr) * np.sin(dr) * np.cos(lat1), np.cos(dr) - np.sin(lat1) * np.sin(lat))
-    lon = math.fmod(lon1 + dlon + np.pi, 2. * np.pi) - np.pi
+    lon = (lon1 + dlon + np.pi) % (2. * np.pi) - np.pi
 
     lat = lat / radians_per_degree
     lon = lon / radians_per_degree
-- 
2.43.0


From 8525bc258e35e6b7e27c7cb135c587716ad6f225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:43 +0000
Subject: [PATCH 07/54] fix: sunangle applied the leap-year correction twice in
 non-leap years before 1980, putting the sun one day out

---
 qc.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qc.py b/qc.py
index 5b2c8c4..a7fa613 100644
--- a/qc.py
+++ b/qc.py
@@ -1113,8 +1113,6 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
     # Make leapyear correction
     if delyear == leap * 4.0:
         time = time - 1.0
-    if delyear < 0 and delyear != leap * 4.0:
-        time = time - 1.0
     # Find position of sun in celestial sphere, assuming circular orbit (radians).
     theta = (360.0 * time / 365.25) * degrad
     # Corrections for elliptical orbit
-- 
2.43.0


From a82f2d6e7cba9596ba7d6cf472a915a922c06017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:41 +0000
Subject: [PATCH 08/54] fix: climatology check with a minimum anomaly divided
 by zero where the standard deviation is zero

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index a7fa613..e77621f 100644
--- a/qc.py
+++ b/qc.py
@@ -647,7 +647,7 @@ def climatology_plus_stdev_with_lowbar(inval, inclimav, instdev, limit, lowbar):
     if inval is None or inclimav is None or instdev is None:
         result = 1
     else:
-        if abs(inval - inclimav) / instdev > limit and abs(inval - inclimav) > lowbar:
+        if abs(inval - inclimav) > limit * instdev and abs(inval - inclimav) > lowbar:
             result = 1
 
     assert result == 0 or result == 1
-- 
2.43.0


From 87ea5e043cb7d408b22b4120e1c6b51f8d383942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 09/54] fix: date_check raised IndexError for months beyond 12
 instead of flagging the date

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index e77621f..987e0cc 100644
--- a/qc.py
+++ b/qc.py
@@ -901,7 +901,7 @@ def date_check(inyear, inmonth, inday):
         result = 1
 
     if inmonth < 1 or inmonth > 12:
-        result = 1
+        return 1
 
     month_lengths = get_month_lengths(inyear)
 
-- 
2.43.0


From 0cac843d72a7f9430f764f2e20af59754d2e68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 10/54] fix: reports with an impossible month or hour could not
 be built, so they could never be flagged

---
 Extended_IMMA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index cf41372..f2011a6 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -460,8 +460,11 @@ class MarineReport:
         """
         if self.getvar('YR') is not None:
             mlen = qc.get_month_lengths(self.getvar('YR'))
-            if (self.getvar('MO') is not None and
+            if (0 < self.getvar('YR') <= 9999 and
+                    self.getvar('MO') is not None and
+                    0 < self.getvar('MO') <= 12 and
                     self.getvar('HR') is not None and
+                    0 <= self.getvar('HR') < 24 and
                     self.getvar('DY') is not None and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
                 rounded_hour = int(math.floor(self.getvar('HR')))
-- 
2.43.0


From 55ae7084de74a1420fa2c56399caf5b08201f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:48 +0000
Subject: [PATCH 11/54] fix: changing a report's month left its date-time at
 the old month

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index f2011a6..f0876c0 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -662,7 +662,7 @@ class MarineReport:
             i = VARLIST.index(varname)
             self.data[i] = varvalue
 
-        if varname in ['YR', 'DY', 'HR']:
+        if varname in ['YR', 'MO', 'DY', 'HR']:
             self.calculate_dt()
 
     def getvar(self, varname):
-- 
2.43.0


From 9effaee1df6baa54cdad621572810698810d07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 12/54] fix: base QC looked up relative humidity under a name
 reports do not have, failing every humidity hard limit

---
 Extended_IMMA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index f0876c0..0bb053a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1119,8 +1119,8 @@ class MarineReportQC(MarineReport):
         # special check for silly values in all humidity-related variables
         # and set DPT hardlimit flag if necessary
         self.set_qc('DPT', 'hardlimit', 0)
-        for var in ['AT', 'DPT', 'SHU', 'RH']:
-            if qc.hard_limit(self.getvar(var), parameters[var]['hard_limits']) == 1:
+        for var, name in [('AT', 'AT'), ('DPT', 'DPT'), ('SHU', 'SHU'), ('CRH', 'RH')]:
+            if qc.hard_limit(self.getvar(var), parameters[name]['hard_limits']) == 1:
                 self.set_qc('DPT', 'hardlimit', 1)
 
         self.do_kate_mat_qc(parameters['AT'])
-- 
2.43.0


From 9dc40c81e5765401d0817cfbba0c56fc38b3a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:36 +0000
Subject: [PATCH 13/54] fix: base QC of day marine air temperature always
 raised because DAT flags could not be set

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 0bb053a..695f40a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -369,7 +369,7 @@ class MarineReport:
         self.calculate_dt()
         self.calculate_dsi_vsi()
 
-        self.special_qc_types = ['POS', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D']
+        self.special_qc_types = ['POS', 'SST', 'AT', 'DPT', 'SLP', 'W', 'D', 'DAT']
 
     def lat(self):
         """
-- 
2.43.0


From e55c1ef48fdeab0739056e3b2aaaf3854cc34dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 14/54] fix: fields with a level axis were flipped and rolled
 along the wrong axes when read

---
 Climatology.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 4aaea5f..19adffe 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -53,6 +53,10 @@ class Climatology:
 
             climatology.close()
 
+            # drop the level axis first so that the axes below are time, latitude and longitude
+            if field.ndim == 4:
+                field = field[:, 0, :, :]
+
             # transpose the fields if the second axis is longitude
             if (field.shape[0] == 1 and
                     field.shape[1] == 360 and
@@ -69,9 +73,6 @@ class Climatology:
                 lon_len = field.shape[2]
                 field = np.roll(field, lon_len / 2, axis=2)
 
-            if field.ndim == 4:
-                field = field[:, 0, :, :]
-
         else:
             field = np.ma.array(np.zeros((1, 180 * 20, 360 * 20)), mask=True)
 
-- 
2.43.0


From 4ad67b066c2b5be7d5db3c287852c20788f58f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 15/54] fix: get_value_mds_style looked up the wrong cell in
 fields that are not 1 degree

---
 Climatology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 19adffe..0846bfe 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -149,8 +149,8 @@ class Climatology:
         if day < 1 or day > ml[month - 1]:
             return None
 
-        yindex = qc.mds_lat_to_yindex(lat)
-        xindex = qc.mds_lon_to_xindex(lon)
+        yindex = qc.mds_lat_to_yindex(lat, self.res)
+        xindex = qc.mds_lon_to_xindex(lon, self.res)
         tindex = self.get_tindex(month, day)
 
         result = self.field[tindex, yindex, xindex]
-- 
2.43.0


From 70e0a56cafe1bd510e6401a9e6e36a231dc9ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 16/54] fix: interpolation at 89.5S failed because both
 surrounding latitudes were the same

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 987e0cc..24aaa8f 100644
--- a/qc.py
+++ b/qc.py
@@ -386,7 +386,7 @@ def get_four_surrounding_points(lat, lon, max90=1):
         if max90 == 0:
             y2 = 90.5
 
-    if lat - 0.5 >= -90:
+    if lat - 0.5 > -90:
         y1_index = lat_to_yindex(lat - 0.5)
         y1 = yindex_to_lat(y1_index)
     else:
-- 
2.43.0


From c49d43aef55a72740013766536832643d03be8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:10 +0000
Subject: [PATCH 17/54] fix: interpolation in single fields ignored the cells
 across the dateline

---
 qc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qc.py b/qc.py
index 24aaa8f..73ea6fe 100644
--- a/qc.py
+++ b/qc.py
@@ -502,8 +502,8 @@ def get_sst_single_field(lat, lon, sst):
     """
     assert lat >= -90.0
     assert lat <= 90.0
-    assert lon >= -180.00
-    assert lon <= 360.00
+    assert lon >= -185.00
+    assert lon <= 365.00
 
     # read sst from grid
     yindex = lat_to_yindex(lat)
-- 
2.43.0


From dd6d4d0fb77884a5679f572c09394cad13f462d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 18/54] fix: negative values were written one unit too high in
 IMMA records

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index c17a47b..ab03e82 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -137,7 +137,7 @@ class IMMA:
                 # Scale to integer units for output
                 if ( definitions[parameters[i]][5] != None ):
                     Tmp /= definitions[parameters[i]][5];
-                    Tmp = int(Tmp+0.5)  # nint
+                    Tmp = int(round(Tmp))  # nint
 
                 # Encode as base36 if required
                 if ( definitions[parameters[i]][6] == 2 ):
-- 
2.43.0


From 67de6beb6533feea3d50665e0990a3e8d8dd2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 19/54] fix: attachment 8 was written with a three-digit length
 that shifted all its fields when read back

---
 IMMA1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index ab03e82..6650f4e 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -176,7 +176,10 @@ class IMMA:
     # (except for core)
         if ( attachment != 0 ):
             if ( attachment != 99 ):
-                Result = "%2d%2d%s" % (attachment, len(Result) + 4, Result)
+                Length = "%2d" % (len(Result) + 4)
+                if ( attachment == 8 ):
+                    Length = "2U" # 102 in base36, as in the ICOADS files
+                Result = "%2d%s%s" % (attachment, Length, Result)
             else:
                 Result = "%2d 0%s" % (attachment, Result)
 
-- 
2.43.0


From 7b32a47740610829a2da106e5e6460c26c3f63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 20/54] fix: the header of the supplemental attachment was read
 as part of its data

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 6650f4e..e208683 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -69,7 +69,7 @@ class IMMA:
                     Length = int(Length)
                     if ( Length != 0 ):
                         Length = int(Length)-4
-                        line = line[4:len(line)]
+                line = line[4:len(line)]
                 if(getAttachment(Attachment)==None ):
                     raise("Bad IMMA string","Unsupported attachment ID "+Attachment)
 
-- 
2.43.0


From 9b0c8f58102a13bed6fa24cae6dd8bd5129c1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 21/54] fix: a last attachment whose values are all blank was
 dropped when read back

---
 IMMA1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMMA1.py b/IMMA1.py
index e208683..0744a4b 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -70,6 +70,8 @@ class IMMA:
                     if ( Length != 0 ):
                         Length = int(Length)-4
                 line = line[4:len(line)]
+                if ( len(line) == 0 ):
+                    line = " " # all its values are blank
                 if(getAttachment(Attachment)==None ):
                     raise("Bad IMMA string","Unsupported attachment ID "+Attachment)
 
-- 
2.43.0


From 3bf5a925981a2b660224cf2f540126832c2f7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 22/54] fix: records with a national use code could not be
 written

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 0744a4b..237baf1 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -564,7 +564,7 @@ definitions['05'] = {
     'IR'    : ( 1,   0.,       4.,   None,  None,  1.,  1 ),
     'RRR'   : ( 3,   0.,     999.,   None,  None,  1.,  1 ),
     'TR'    : ( 1,   1.,       9.,   None,  None,  1.,  1 ),
-    'NU'    : ( 1, None,     None,   None,  None,  1.,  3 ),
+    'NU'    : ( 1, None,     None,   None,  None,  None,  3 ),
     'QCI'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI1'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
     'QI2'   : ( 1,   0.,       9.,   None,  None,  1.,  1 ),
-- 
2.43.0


From 7375920f362bb0c512e2f6638379f29d29bca9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 23/54] fix: error attachments could not be read because the
 erroneous value took the rest of the record

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index 237baf1..af2af23 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -788,7 +788,7 @@ definitions['97'] = {
      'ICNE' : (    2,        0.,       99.,  None,  None,    1.,  1 ),
      'FNE'  : (    2,        1.,       99.,  None,  None,    1.,  1 ),
      'CEF'  : (    1,        0.,        1.,  None,  None,    1.,  1 ),
-     'ERRD' : ( None,      None,      None,  None,  None,  None,  1 ), # Inherited from ICNE and FNE
+     'ERRD' : (   10,      None,      None,  None,  None,  None,  1 ), # Inherited from ICNE and FNE
      'ARCE' : (    4,      None,      None,  None,  None,  None,  3 ),
      'CDE'  : (    8, 20140101., 29991231.,  None,  None,    1.,  1 ), # ISO 8601 date
      'ASIE' : (    1,        0.,        1.,  None,  None,    1.,  1 )
-- 
2.43.0


From cf5f1094cab58c201986a1ce560d86bb1f10d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:08 +0000
Subject: [PATCH 24/54] fix: salinity was decoded ten times too large

---
 IMMA1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMMA1.py b/IMMA1.py
index af2af23..de51d19 100644
--- a/IMMA1.py
+++ b/IMMA1.py
@@ -678,7 +678,7 @@ parameters['08'] = ('OTV','OTZ','OSV','OSZ','OOV','OOZ','OPV','OPZ','OSIV','OSIZ
 definitions['08'] = {
     'OTV'  : (  5,  -3.,  38.999,  None,  None,  0.001,  1 ),
     'OTZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-    'OSV'  : (  5,   0.,  40.999,  None,  None,   0.01,  1 ),
+    'OSV'  : (  5,   0.,  40.999,  None,  None,  0.001,  1 ),
     'OSZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
     'OOV'  : (  4,   0.,   12.99,  None,  None,   0.01,  1 ),
     'OOZ'  : (  4,   0.,   99.99,  None,  None,   0.01,  1 ),
-- 
2.43.0


From 423d34c3aba829dc5c78f70e6489d1b6c0e6a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:48 +0000
Subject: [PATCH 25/54] fix: sorting a voyage left old motion data on its new
 first report

---
 Extended_IMMA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 695f40a..be909f6 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1591,6 +1591,9 @@ class Voyage:
         """
         self.reps.sort()
         # then recalculate times, speeds etc.
+        if len(self.reps) > 0:
+            for name in ['speed', 'course', 'distance', 'time_diff']:
+                self.reps[0].setext(name, None)
         if len(self.reps) > 1:
             for i in range(1, len(self.reps)):
                 shpspd, shpdis, shpdir, tdiff = self.reps[i] - self.reps[i - 1]
-- 
2.43.0


From 21ef890549bbcf2d6006b83e6ceff432cc34df42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:59 +0000
Subject: [PATCH 26/54] fix: a deck index kept entries of removed and re-sorted
 reports

---
 Extended_IMMA.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index be909f6..0325a5d 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2950,6 +2950,7 @@ class Deck:
         get_one_platform_at_a_time to yield a bunch of objects of class :class:`.Voyage` 
         corresponding to all obs from a single ID.
         """
+        self.idtracker = {}
         for i, rep in enumerate(self.reps):
             if rep.getvar('ID') in self.idtracker:
                 self.idtracker[rep.getvar('ID')].append(i)
@@ -3130,6 +3131,8 @@ class Deck:
         :return: Yields a :class:`.Voyage` made of all ships with a single ID. 
         :rtype: :class:`.Voyage`
         """
+        # reports might have been removed since the index was last updated
+        self.index_by_id()
         for one_id in self.idtracker:
             out_voyage = Voyage()
             for i in self.idtracker[one_id]:
-- 
2.43.0


From 162a40660fbfedebccd9e7d1669a1cf7697a5877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:59 +0000
Subject: [PATCH 27/54] fix: neighbour search wrapped over the poles and
 counted boxes twice near them

---
 Extended_IMMA.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 0325a5d..6157185 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2614,15 +2614,23 @@ class Np_Super_Ob:
         temp_anom = []
         temp_nobs = []
 
-        for xpt in range(-1 * full_xspan, full_xspan + 1):
+        # each grid box is a neighbour only once, even if the span goes all the way round
+        xpts = range(-1 * full_xspan, full_xspan + 1)
+        if full_xspan >= 180:
+            xpts = range(-180, 180)
+
+        for xpt in xpts:
             for ypt in range(-1 * yspan, yspan + 1):
+                # there is nothing beyond the poles
+                if not 0 <= yindex + ypt < 180:
+                    continue
                 for ppt in range(-1 * pspan, pspan + 1):
 
                     if xpt == 0 and ypt == 0 and ppt == 0:
                         continue
 
                     thisxx = (xindex + xpt) % 360
-                    thisyy = (yindex + ypt) % 180
+                    thisyy = yindex + ypt
                     thispp = (pindex + ppt) % 73
 
                     if self.nobs[thisxx][thisyy][thispp] != 0:
-- 
2.43.0


From ef2d23c1e1f7ea28c6a9f01d135aefdb6551fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:25 +0000
Subject: [PATCH 28/54] fix: reports less than a minute apart were not sorted
 by time

---
 Extended_IMMA.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 6157185..d346c7a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -11,7 +11,7 @@ Improvement on single reports and collections of reports.
 import qc
 import math
 import numpy as np
-from datetime import datetime
+from datetime import datetime, timedelta
 import spherical_geometry as sph
 import track_check as tc
 import trackqc as tqc
@@ -467,14 +467,11 @@ class MarineReport:
                     0 <= self.getvar('HR') < 24 and
                     self.getvar('DY') is not None and
                     0 < self.getvar('DY') <= mlen[self.getvar('MO') - 1]):
-                rounded_hour = int(math.floor(self.getvar('HR')))
-                rounded_minute = int(math.floor(60 *
-                                                (self.getvar('HR') - rounded_hour)))
-                self.dt = datetime(self.getvar('YR'),
-                                   self.getvar('MO'),
-                                   int(self.getvar('DY')),
-                                   rounded_hour,
-                                   rounded_minute)
+                # reports are often less than a minute apart so keep fractions of minutes
+                self.dt = (datetime(self.getvar('YR'),
+                                    self.getvar('MO'),
+                                    int(self.getvar('DY'))) +
+                           timedelta(hours=float(self.getvar('HR'))))
             else:
                 self.dt = None
         else:
-- 
2.43.0


From 727d5fde5f5b0b2918c86d1ccb2b9f337aab3648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 29/54] fix: one pass of the track check returned two flags for
 a single report

---
 track_check.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/track_check.py b/track_check.py
index 8b63ca7..e2536d3 100755
--- a/track_check.py
+++ b/track_check.py
@@ -546,7 +546,9 @@ def mds_track_check(invoyage):
             invoyage.set_qc(i, 'POS', 'bad_track', 0)
             invoyage.set_qc(i, 'POS', 'fewsome_check', 0)
 
-    qcs.append(0)
+    # a single report (allowed in deck 720) is both first and last
+    if nobs > 1:
+        qcs.append(0)
     invoyage.set_qc(nobs - 1, 'POS', 'bad_track', 0)
     invoyage.set_qc(nobs - 1, 'POS', 'fewsome_check', 0)
 
-- 
2.43.0


From 4638a5f5372ee89675be87c5d20a85d2c9132e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:32 +0000
Subject: [PATCH 30/54] fix: values were flagged as rounded when exactly the
 allowed fraction were whole numbers

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index d346c7a..9a1793f 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1744,7 +1744,7 @@ class Voyage:
                 if float(key).is_integer():
                     wholenums = wholenums + len(valcount[key])
 
-            if float(wholenums) / float(allcount) >= threshold:
+            if float(wholenums) / float(allcount) > threshold:
                 for key in valcount:
                     if float(key).is_integer():
                         for i in valcount[key]:
-- 
2.43.0


From b69dd739f0a1f281656e32ecbd5526321f9f4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:18 +0000
Subject: [PATCH 31/54] fix: keep longitudes continuous before the aground
 checks smooth them

---
 trackqc.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trackqc.py b/trackqc.py
index 176f1c0..d70c81b 100644
--- a/trackqc.py
+++ b/trackqc.py
@@ -221,6 +221,10 @@ def aground_check(reps, smooth_win=41, min_win_period=8, max_win_period=10):
 
     hrs = np.cumsum(hrs)  # get time difference in hours relative to first report
 
+    # longitude must not jump by 360 degrees between reports if it is to be smoothed
+    for ind in range(1, nrep):
+        lon[ind] -= 360. * np.floor((lon[ind] - lon[ind - 1] + 180.) / 360.)
+
     # create smoothed lon/lat timeseries
     nrep_smooth = nrep - smooth_win + 1  # length of series after smoothing
     lon_smooth = np.empty(nrep_smooth)
@@ -364,6 +368,10 @@ def new_aground_check(reps, smooth_win=41, min_win_period=8):
 
     hrs = np.cumsum(hrs)  # get time difference in hours relative to first report
 
+    # longitude must not jump by 360 degrees between reports if it is to be smoothed
+    for ind in range(1, nrep):
+        lon[ind] -= 360. * np.floor((lon[ind] - lon[ind - 1] + 180.) / 360.)
+
     # create smoothed lon/lat timeseries
     nrep_smooth = nrep - smooth_win + 1  # length of series after smoothing
     lon_smooth = np.empty(nrep_smooth)
-- 
2.43.0


From f8e03fb3fb002233d6cc5bf9950c0d61b74bd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 32/54] fix: let the speed checks stop at the last report when
 min_win_period is zero

---
 trackqc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackqc.py b/trackqc.py
index d70c81b..5242b90 100644
--- a/trackqc.py
+++ b/trackqc.py
@@ -527,6 +527,8 @@ def speed_check(reps, speed_limit=2.5, min_win_period=0.8, max_win_period=1.0):
     i = 0
     time_to_end = hrs[-1] - hrs[i]
     while time_to_end >= min_win_period_hours:
+        if i == nrep - 1:  # the last report has nothing to be compared with
+            break
         f_win = (hrs <= hrs[i] + max_win_period_hours)
         win_len = hrs[f_win][-1] - hrs[i]
         if win_len < min_win_period_hours:
@@ -658,6 +660,8 @@ def new_speed_check(reps, iquam_parameters, speed_limit=3.0, min_win_period=0.37
     i = 0
     time_to_end = hrs[-1] - hrs[i]
     while time_to_end >= min_win_period_hours:
+        if i == nrep - 1:  # the last report has nothing to be compared with
+            break
         if iquam_track_ship[i] == 1:
             i += 1
             time_to_end = hrs[-1] - hrs[i]
-- 
2.43.0


From 8ca3f1ed1477d30648a19a4f44097fc1d01476e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:06 +0000
Subject: [PATCH 33/54] fix: write and read the per-ID QC files under the safe
 version of the ID

---
 Extended_IMMA.py | 3 ++-
 tracking_qc.py   | 9 ++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 9a1793f..abddc69 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2447,8 +2447,9 @@ class Voyage:
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
+        safeid = safe_filename(self.reps[0].getvar('ID'))
         for var in allvarnames:
-            outfilename = var + '_qc_' + syr + smn + '_' + self.reps[0].getvar('ID') + '_' + runid + '.csv'
+            outfilename = var + '_qc_' + syr + smn + '_' + safeid + '_' + runid + '.csv'
             outfile = open(icoads_dir + '/' + outfilename, 'w')
             outfile.write(self.reps[0].print_qc_block(var, allvarnames[var], header=True))
             count_write = 0
diff --git a/tracking_qc.py b/tracking_qc.py
index a475f68..5e697c7 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -142,6 +142,9 @@ def main(argv):
     while len(target_id) < 9:
         target_id += ' '
 
+    # input files are named with this version of the ID
+    safe_id = ex.safe_filename(target_id)
+
     print('Running track QC for ID {}'.format(target_id))
     print('')
     print("Type of case: {}".format(edge[0]))
@@ -166,9 +169,9 @@ def main(argv):
         sm = "{:02}".format(month)
 
         # input data files
-        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
-        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, target_id, parameters['runid'])
+        filename = "{0}/{1}/{2}/Variables_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        posqc_filename = "{0}/{1}/{2}/POS_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
+        sstqc_filename = "{0}/{1}/{2}/SST_qc_{1}{2}_{3}_{4}.csv".format(out_dir, sy, sm, safe_id, parameters['runid'])
 
         # check if any data exists for this month before continuing
         if not (os.path.isfile(filename) or
-- 
2.43.0


From 3ccbf43e5ca9228b2af31dab17abea0086b50aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:13 +0000
Subject: [PATCH 34/54] fix: write the missing marker for reports without a UID

---
 Extended_IMMA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index abddc69..0af96f1 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -998,7 +998,7 @@ class MarineReport:
                 repout.append(",")
         else:
             if printuid:
-                repout = [self.getvar('UID')]
+                repout = [tostring(self.getvar('UID'))]
                 repout.append(",")
 
                 # ISO date time
@@ -1067,7 +1067,7 @@ class MarineReport:
                 repout.append(",")
         else:
             if printuid:
-                repout = [self.getvar('UID')]
+                repout = [tostring(self.getvar('UID'))]
                 repout.append(",")
             else:
                 repout = [""]
-- 
2.43.0


From 82b22849b201db85f9ffe852add21e72e1da1596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:20 +0000
Subject: [PATCH 35/54] fix: double quotation marks inside IDs in the CSV
 output

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 0af96f1..8487669 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -1024,7 +1024,7 @@ class MarineReport:
                         repout.append(tostring(self.getvar(var[0])))
                         repout.append(",")
                     else:
-                        repout.append('"' + self.getvar(var[0]) + '"')
+                        repout.append('"' + self.getvar(var[0]).replace('"', '""') + '"')
                         repout.append(",")
                 else:
                     if len(var) > 1:
-- 
2.43.0


From bd464150a444c65d5a56f7d6170ac6c74df7f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 36/54] fix: write nothing when there are no reports to write

---
 Extended_IMMA.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 8487669..3962179 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -2444,6 +2444,9 @@ class Voyage:
         Write out QC flags for specified variable names from 
         the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -2473,6 +2476,9 @@ class Voyage:
         :param month2: month to last observation in the voyage
         :return: None
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
 
         syr = str(year2)
         smn = "{:02d}".format(month2)
@@ -2518,6 +2524,9 @@ class Voyage:
         """
         Write out the contents of the :class:`.Voyage`.
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3152,6 +3161,9 @@ class Deck:
         Write out QC flags for specified variable names from 
         the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3178,6 +3190,9 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
@@ -3222,6 +3237,9 @@ class Deck:
         """
         Write out the contents of the :class:`.Deck`.
         """
+        if len(self) == 0:
+            print('no obs to write out')
+            return
         count_write = 0
         syr = str(year)
         smn = "{:02}".format(month)
-- 
2.43.0


From b1d1ff86962177dd50f352e38bd24cdc44cada3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:53 +0000
Subject: [PATCH 37/54] fix: unpack compressed background files to a usable
 file

---
 BackgroundField.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 8835353..75fdf5b 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -236,12 +236,19 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
     outfile = None
 
 # for bzipped files check to see if unzipped file exists
-    if '.bz2' in chosen_orig:
+    if chosen_orig.endswith('.bz2'):
         if os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
-            subprocess.call('bunzip2 -c ' + chosen_orig + '.bz2 > ' + chosen_new, shell=True)
-            outfile = chosen_new
+# unpack to a temporary name so that a failed unpacking never looks like a usable file
+            partfile = '{}.{}.part'.format(chosen_new, os.getpid())
+            with open(partfile, 'wb') as unpacked:
+                status = subprocess.call(['bunzip2', '-c', chosen_orig], stdout=unpacked)
+            if status == 0:
+                os.rename(partfile, chosen_new)
+                outfile = chosen_new
+            else:
+                os.remove(partfile)
 # if it's not bzipped then leave as is and read in place
     else:
         outfile = chosen_orig
-- 
2.43.0


From 523cd5d30bab4a46098ac06b98b4ce8267ee6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:56 +0000
Subject: [PATCH 38/54] fix: find the first chunk of data for any gap

---
 YMCounter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/YMCounter.py b/YMCounter.py
index 5c7a632..46bca0d 100644
--- a/YMCounter.py
+++ b/YMCounter.py
@@ -25,7 +25,7 @@ class YMCounter:
 
         starts = []
         ends = []
-        zeros = 10
+        zeros = gap
         lastdata = -1
 
         for i in range(0, self.n):
-- 
2.43.0


From cca4ed5150fd110ab390d2e6f42ac59827f438a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 39/54] fix: do not run chunks at the end of the series with
 -edge noend

---
 Tracking_QC_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 2c787e4..2ac3c5c 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -241,7 +241,7 @@ def main(argv):
                     print('Ignore', yy1, mm1, yy2, mm2, cl)
 
             if edge == 'noend':
-                if 'regular' in cl or 'start_edge_case' in cl:
+                if 'end_edge_case' not in cl:
                     print('Submit', yy1, mm1, yy2, mm2, cl)
                     write_submission(inputfile, targetid, yy1, mm1, yy2, mm2, cl,
                                      runmonthid, track_out_dir, parameters['runid'])
-- 
2.43.0


From df97398616da5d6e37510cab900815b4aaf0d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:10 +0000
Subject: [PATCH 40/54] fix: run the tracking QC for the right ID whatever
 characters it contains

---
 Tracking_QC_wrapper.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index 2ac3c5c..a700de9 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -4,7 +4,9 @@ import ConfigParser
 import sys
 import os
 import subprocess
+import pipes
 import qc
+import Extended_IMMA as ex
 import YMCounter as ym
 import json
 
@@ -71,10 +73,12 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
 
     codedir = '/net/home/h04/hadjj/PyWorkspace/Marine_QC/'
 
-    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(targetid.replace(" ", ""),
+    fileid = ex.safe_filename(targetid).replace(" ", "")
+
+    fname = 'Tracking_job_{}_{}{:02}_{}{:02}_{}_{}'.format(fileid,
                                                            yr1, mn1, yr2, mn2, runmonthid, runid)
 
-    options = {'id': targetid, 'config': config,
+    options = {'id': pipes.quote(targetid), 'config': pipes.quote(config),
                'yr1': yr1, 'mn1': mn1, 'yr2': yr2, 'mn2': mn2,
                'edge': " ".join(edge), 'runmonthid': runmonthid}
 
@@ -95,16 +99,16 @@ def write_submission(config, targetid, yr1, mn1, yr2, mn2, edge, runmonthid, out
     outfile.write("#SBATCH --mem=8000\n")
     outfile.write("#SBATCH --ntasks=1\n")
     outfile.write("#SBATCH --output={}/SPICE_trackqc_errout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                                  targetid.replace(" ", ""), runid))
+                                                                                  fileid, runid))
     outfile.write("#SBATCH --time=30\n")
     outfile.write("\n")
     outfile.write("module load scitools/default_legacy-current\n")
-    outfile.write(command + " > {}/SPICE_trackqc_genout{}{:02}{}_{}\n".format(logdir, yr2, mn2,
-                                                                              targetid.replace(" ", ""), runid))
+    genout = "{}/SPICE_trackqc_genout{}{:02}{}_{}".format(logdir, yr2, mn2, fileid, runid)
+    outfile.write(command + " > {}\n".format(pipes.quote(genout)))
 
     outfile.close()
 
-    os.system("sbatch "+jobdir+"/"+fname)
+    os.system("sbatch "+pipes.quote(jobdir+"/"+fname))
 
     count = checkload('hadjj')
     while count > 250:
-- 
2.43.0


From fd111e349d53d509ab10c6ac9fbeccfb9d292a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:25 +0000
Subject: [PATCH 41/54] fix: keep commas in IDs read from the monthly ID lists

---
 Tracking_QC_wrapper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Tracking_QC_wrapper.py b/Tracking_QC_wrapper.py
index a700de9..d5f91f2 100644
--- a/Tracking_QC_wrapper.py
+++ b/Tracking_QC_wrapper.py
@@ -208,11 +208,13 @@ def main(argv):
         for line in idfile:
             line = line.rstrip("\n")
             columns = line.split(',')
-            if columns[0] in id_dictionary:
-                id_dictionary[columns[0]].setym(year, month, 1)
+            # the ID and its safe version have the same number of commas
+            targetid = ','.join(columns[:max(1, len(columns) // 2)])
+            if targetid in id_dictionary:
+                id_dictionary[targetid].setym(year, month, 1)
             else:
-                id_dictionary[columns[0]] = ym.YMCounter(y1, m1, y2, m2)
-                id_dictionary[columns[0]].setym(year, month, 1)
+                id_dictionary[targetid] = ym.YMCounter(y1, m1, y2, m2)
+                id_dictionary[targetid].setym(year, month, 1)
 
         idfile.close()
 
-- 
2.43.0


From d93d623a75be22af08eee74e433965d821feac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:42 +0000
Subject: [PATCH 42/54] fix: track reports without a UID

---
 tracking_qc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracking_qc.py b/tracking_qc.py
index 5e697c7..3479496 100644
--- a/tracking_qc.py
+++ b/tracking_qc.py
@@ -248,6 +248,8 @@ def main(argv):
                     for key in line:
                         if key == 'UID':
                             uid = rep_list[indx].getvar('UID')
+                            if uid is None:
+                                uid = '\N'  # the marker for missing data
                             if line[key].strip() != uid.strip():
                                 raise UserWarning("UIDs don't match: {0}-{1}".format(line[key], uid))
                         else:
@@ -273,6 +275,8 @@ def main(argv):
                     for key in line:
                         if key == 'UID':
                             uid = rep_list[indx].getvar('UID')
+                            if uid is None:
+                                uid = '\N'  # the marker for missing data
                             if line[key].strip() != uid.strip():
                                 raise UserWarning("UIDs don't match: {0}-{1}".format(line[key], uid))
                         else:
-- 
2.43.0


From 2426722dd8cfa95d940640c66fd0bc2b35059e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 43/54] fix: skip records that cannot be read instead of
 stopping

---
 marine_qc.py            | 4 ++--
 marine_qc_hires.py      | 4 ++--
 marine_qc_track_only.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index c3c2f83..2f63899 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -166,8 +166,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index f38094c..0d7de3e 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -156,8 +156,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 6a013be..7da3879 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -160,8 +160,8 @@ def main(argv):
                     readob = False
                     print("Rejected ob {}".format(line))
 
-                if (not (rec.data['ID'] in ids_to_exclude) and
-                        readob and
+                if (readob and
+                        not (rec.data['ID'] in ids_to_exclude) and
                         rec.data['YR'] == readyear and
                         rec.data['MO'] == readmonth):
 
-- 
2.43.0


From 35ff42c49ec767fdc7cb0b008a3380fdf697210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:10 +0000
Subject: [PATCH 44/54] fix: carry on when there is no input file for a month

---
 marine_qc.py            | 4 ++++
 marine_qc_hires.py      | 4 ++++
 marine_qc_track_only.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/marine_qc.py b/marine_qc.py
index 2f63899..a75bbab 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -149,6 +149,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 0d7de3e..9aac99a 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -139,6 +139,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 7da3879..49d0ce9 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -143,6 +143,10 @@ def main(argv):
             filename = bf.icoads_filename_from_stub(parameters['icoads_dir'],
                                                     parameters['icoads_filenames'],
                                                     readyear, readmonth)
+            if filename is None:
+                print("no ICOADS file for {} {}".format(readyear, readmonth))
+                continue
+
             try:
                 icoads_file = gzip.open(filename, "r")
             except IOError:
-- 
2.43.0


From 663ce83fe99304eb6760ea5fd7baa9b081ebc390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:16 +0000
Subject: [PATCH 45/54] fix: read the background field again when the month
 changes

---
 marine_qc.py            | 3 ++-
 marine_qc_track_only.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index a75bbab..1964a17 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -135,12 +135,13 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 49d0ce9..3cccdb4 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -129,12 +129,13 @@ def main(argv):
 
         reps = ex.Deck()
         count = 0
-        lastday = -99
 
         for readyear, readmonth in qc.year_month_gen(last_year, last_month, next_year, next_month):
 
             print("{} {}".format(readyear, readmonth))
 
+            lastday = -99
+
             ostia_bg_var = None
             if tracking:
                 ostia_bg_var = clim.Climatology.from_filename(
-- 
2.43.0


From 455b31e7be4c012a997238edf0f408fd21712e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:23 +0000
Subject: [PATCH 46/54] fix: put the reports of each ship in time order before
 track checking

---
 marine_qc.py            | 1 +
 marine_qc_hires.py      | 1 +
 marine_qc_track_only.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/marine_qc.py b/marine_qc.py
index 1964a17..6593241 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -252,6 +252,7 @@ def main(argv):
         count_ships = 0
         for one_ship in reps.get_one_platform_at_a_time():
 
+            one_ship.sort()
             one_ship.track_check(parameters['track_check'])
             one_ship.iquam_track_check(parameters['IQUAM_track_check'])
             one_ship.spike_check(parameters['IQUAM_spike_check'])
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 9aac99a..5c3305c 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -196,6 +196,7 @@ def main(argv):
         # track check the passes one ship at a time
         count_ships = 0
         for one_ship in reps.get_one_platform_at_a_time():
+            one_ship.sort()
             one_ship.track_check(parameters['track_check'])
             one_ship.find_repeated_values(parameters['find_repeated_values'], intype='SST')
             count_ships += 1
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 3cccdb4..7cbe302 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -233,6 +233,7 @@ def main(argv):
         count_ships = 0
         for one_ship in reps.get_one_platform_at_a_time():
 
+            one_ship.sort()
             one_ship.track_check(parameters['track_check'])
             one_ship.iquam_track_check(parameters['IQUAM_track_check'])
             one_ship.spike_check(parameters['IQUAM_spike_check'])
-- 
2.43.0


From 53abcb8653b3a4e0aa41608b82705b442102c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 47/54] fix: keep the motion data of the voyage in the
 five-pass track check

---
 track_check.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/track_check.py b/track_check.py
index e2536d3..4d3e700 100755
--- a/track_check.py
+++ b/track_check.py
@@ -7,6 +7,7 @@ sphere. In practice it gives similar results to the cylindrical earth formerly
 assumed.
 """
 
+import copy
 import math
 import qc
 import Extended_IMMA as ex
@@ -581,7 +582,7 @@ def mds_full_track_check(invoyage):
             i = 0
             for rep in invoyage.rep_feed():
                 if master_qc[i] == 0:
-                    tempreps.add_report(rep)
+                    tempreps.add_report(copy.deepcopy(rep))
                     qc_refs.append(i)
                 i += 1
 
-- 
2.43.0


From 7ca4ea61fcb7536d674c2f0d6059d9b2349206b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:47 +0000
Subject: [PATCH 48/54] fix: blank lines and reports without a position do not
 stop the run

---
 marine_qc.py            | 3 ++-
 marine_qc_hires.py      | 3 ++-
 marine_qc_track_only.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/marine_qc.py b/marine_qc.py
index 6593241..91fbc11 100755
--- a/marine_qc.py
+++ b/marine_qc.py
@@ -166,7 +166,8 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    # blank lines and reports without a position are of no use
+                    readob = (rec.data['LAT'] is not None and rec.data['LON'] is not None)
                 except:
                     readob = False
                     print("Rejected ob {}".format(line))
diff --git a/marine_qc_hires.py b/marine_qc_hires.py
index 5c3305c..e013c50 100755
--- a/marine_qc_hires.py
+++ b/marine_qc_hires.py
@@ -155,7 +155,8 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    # blank lines and reports without a position are of no use
+                    readob = (rec.data['LAT'] is not None and rec.data['LON'] is not None)
                 except:
                     readob = False
                     print("Rejected ob {}".format(line))
diff --git a/marine_qc_track_only.py b/marine_qc_track_only.py
index 7cbe302..2532dad 100755
--- a/marine_qc_track_only.py
+++ b/marine_qc_track_only.py
@@ -160,7 +160,8 @@ def main(argv):
 
                 try:
                     rec.readstr(line)
-                    readob = True
+                    # blank lines and reports without a position are of no use
+                    readob = (rec.data['LAT'] is not None and rec.data['LON'] is not None)
                 except:
                     readob = False
                     print("Rejected ob {}".format(line))
-- 
2.43.0


From 818ebf3572973e1cfc876b9937dce8e8e0d81099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:21 +0000
Subject: [PATCH 49/54] fix: reports with impossible positions have no
 climatology value instead of stopping the run

---
 Climatology.py | 5 +++++
 qc.py          | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 0846bfe..11025eb 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -111,6 +111,9 @@ class Climatology:
         :type lon: float
         :rtype: float
         """
+        if qc.position_check(lat, lon) == 1:
+            return None
+
         yindex = qc.mds_lat_to_yindex(lat, res=0.05)
         xindex = qc.mds_lon_to_xindex(lon, res=0.05)
         tindex = 0
@@ -148,6 +151,8 @@ class Climatology:
         ml = qc.get_month_lengths(2004)
         if day < 1 or day > ml[month - 1]:
             return None
+        if qc.position_check(lat, lon) == 1:
+            return None
 
         yindex = qc.mds_lat_to_yindex(lat, self.res)
         xindex = qc.mds_lon_to_xindex(lon, self.res)
diff --git a/qc.py b/qc.py
index 73ea6fe..289e203 100644
--- a/qc.py
+++ b/qc.py
@@ -1567,7 +1567,7 @@ def lon_to_xindex(lon, res=1):
         inlon = lon
         if inlon >= 180.0:
             inlon = -180.0 + (inlon - 180.0)
-        if inlon < -180.0:
+        while inlon < -180.0:
             inlon = inlon + 360.
         xindex = int(inlon + 180.0)
         while xindex >= 360:
@@ -1577,7 +1577,7 @@ def lon_to_xindex(lon, res=1):
         inlon = lon
         if inlon >= 180.0:
             inlon = -180.0 + (inlon - 180.0)
-        if inlon < -180.0:
+        while inlon < -180.0:
             inlon = inlon + 360.
         xindex = int((inlon + 180.0) / res)
         while xindex >= 360 / res:
-- 
2.43.0


From cf7943ec111fa7f9d0d8253d6433febd8dcf0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:53 +0000
Subject: [PATCH 50/54] fix: reports with impossible times have no time
 difference instead of stopping the run

---
 Extended_IMMA.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index 3962179..dc2d0e3 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -487,10 +487,12 @@ class MarineReport:
         distance = sph.sphere_distance(self.lat(), self.lon(),
                                        other.lat(), other.lon())
 
-        timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
-                                      other.getvar('DY'), other.getvar('HR'),
-                                      self.getvar('YR'), self.getvar('MO'),
-                                      self.getvar('DY'), self.getvar('HR'))
+        timediff = None
+        if self.dt is not None and other.dt is not None:
+            timediff = qc.time_difference(other.getvar('YR'), other.getvar('MO'),
+                                          other.getvar('DY'), other.getvar('HR'),
+                                          self.getvar('YR'), self.getvar('MO'),
+                                          self.getvar('DY'), self.getvar('HR'))
         if timediff != 0 and timediff is not None:
             speed = distance / timediff
         else:
-- 
2.43.0


From 89682c14bb62a921a89dd5ccf0dadc403fb44b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:18 +0000
Subject: [PATCH 51/54] fix: the last instant of a day stays in that day

---
 Extended_IMMA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Extended_IMMA.py b/Extended_IMMA.py
index dc2d0e3..8155e1a 100644
--- a/Extended_IMMA.py
+++ b/Extended_IMMA.py
@@ -471,7 +471,7 @@ class MarineReport:
                 self.dt = (datetime(self.getvar('YR'),
                                     self.getvar('MO'),
                                     int(self.getvar('DY'))) +
-                           timedelta(hours=float(self.getvar('HR'))))
+                           timedelta(seconds=min(3600. * float(self.getvar('HR')), 86399.999999)))
             else:
                 self.dt = None
         else:
-- 
2.43.0


From c8811f923ee87e52bef41e283212f5e7ebbc8ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 52/54] fix: the sun's azimuth was mirrored in the southern
 hemisphere (and could not be computed on the equator)

---
 qc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qc.py b/qc.py
index 289e203..c34ed62 100644
--- a/qc.py
+++ b/qc.py
@@ -1198,7 +1198,7 @@ def sunangle(year, day, hour, minute, sec, zone, dasvtm, lat, lon):
         # WAS . . .
         # a = ASIN (COS (declination) * SIN (h) / COS (e)) / degrad  ! Azimuth is degrees
         # Wrap around beyond -180 to 180
-        if math.sin(elevation) < math.sin(declination) / math.sin(phi):
+        if math.sin(elevation) * math.sin(phi) < math.sin(declination):
             if azimuth < 0:
                 azimuth = azimuth + 360.0
             azimuth = 180.0 - azimuth
-- 
2.43.0


From 27c4f5582242e14d22dac2e9495c7b304b0a72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:03 +0000
Subject: [PATCH 53/54] fix: roll coarse fields that start at zero longitude
 too

---
 Climatology.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Climatology.py b/Climatology.py
index 11025eb..cd3b3d7 100644
--- a/Climatology.py
+++ b/Climatology.py
@@ -68,8 +68,8 @@ class Climatology:
             if latitudes[0] < 0:
                 field = np.flip(field, 1)
 
-            # if the longitudes start near zero then roll the array along its longitude axis
-            if longitudes[0] > 0.0 and longitudes[0] < 1.0:
+            # if the first cell starts at zero then roll the array along its longitude axis
+            if longitudes[0] > 0.0 and longitudes[0] < 360. / len(longitudes):
                 lon_len = field.shape[2]
                 field = np.roll(field, lon_len / 2, axis=2)
 
-- 
2.43.0


From 93ca9528ec5e2a27a6b38a894bdbcf6af21e46f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 54/54] fix: reuse an unpacked background only if its file name
 tells the date

With the date only in the directory template, every later date got the
file unpacked for the first one.
---
 BackgroundField.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BackgroundField.py b/BackgroundField.py
index 75fdf5b..5fd6778 100644
--- a/BackgroundField.py
+++ b/BackgroundField.py
@@ -237,7 +237,9 @@ def get_background_filename(dirstubs, filenamestubs, year, month, day):
 
 # for bzipped files check to see if unzipped file exists
     if chosen_orig.endswith('.bz2'):
-        if os.path.isfile(chosen_new):
+        # a file unpacked earlier is the right one only if its name tells the date
+        dated = all(part in filenamestubs[newfilenames.index(chosen_new)] for part in ['YYYY', 'MMMM', 'DDDD'])
+        if dated and os.path.isfile(chosen_new):
             outfile = chosen_new
         else:
 # unpack to a temporary name so that a failed unpacking never looks like a usable file
-- 
2.43.0

