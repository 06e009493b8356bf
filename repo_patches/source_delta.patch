From dbb5cf97d86be78b7692b506321bc8f58d4c3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:44 +0000
Subject: [PATCH 01/78] fix: FrameTimestamp.pulsar_mjd: carry seconds and days
 so that 0 <= seconds < 86400 and 0 <= fraction < 1

A timestamp whose two-part JD fractions add up to exactly one day was reported as
second 86400 of the previous day.
---
 lsl/reader/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..5e5ce15 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,10 +550,13 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
+        if sec_frac >= 1.0:
+            day_sec += 1
+            sec_frac -= 1.0
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
-        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
         return mjd, day_sec, sec_frac
         
     @property
-- 
2.43.0


From 9f563d633851a9196d55b3d67ec42ce1dd7d2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:16 +0000
Subject: [PATCH 02/78] fix: FrameTimestamp.dp_timetag: return the timetag of
 the instant on days that end in a leap second

The property went through an elapsed (TAI) time difference, which differs from the
UNIX-style count by up to 1757 ticks on such days, so a frame's timetag did not survive
from_dp_timetag().dp_timetag.
---
 lsl/reader/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 5e5ce15..56ac195 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -574,11 +574,15 @@ class FrameTimestamp(object):
         on January 1, 1970).
         """
         
-        sec = int(self._time.unix)
-        sec_frac = self._time - AstroTime(sec, format='unix', scale='utc')
+        # Work from the two-part UTC JD rather than from a time difference since
+        # the latter is elapsed time, which does not match the UNIX-style count of
+        # the timetag on days with a leap second
+        t = self._time.utc
+        sec = int((t.jd1 - 2440587.5) * 86400)
+        sec_frac = t.jd2 * 86400
         
         tt = sec * int(ndp_common.fS)
-        tt = tt + int(round(sec_frac.sec*ndp_common.fS, 2))
+        tt = tt + int(np.floor(round(sec_frac*ndp_common.fS, 2)))
         return tt
         
     @property
-- 
2.43.0


From d5c7a7a78c5bf7a512c619dc5fd142136105b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:41 +0000
Subject: [PATCH 03/78] fix: antennas_to_baseline: find the auto-correlation
 baseline of an antenna

With ant1 == ant2 the membership test matched the first baseline that contains the
antenna at all, so the result was not the inverse of baseline_to_antennas.
---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..0aff6f1 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1 == baseline[0] and ant2 == baseline[1]) or (ant1 == baseline[1] and ant2 == baseline[0]):
             return i
             
     return -1
-- 
2.43.0


From dd654f4a929ad7e57ad8ed747e17a2711d52607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 04/78] fix: TBX read_frame_ci8 sync error location and
 channel_freqs of frames with other channel counts

---
 lsl/reader/tbx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 956a18902baf53f4e6a8f0d2a522f88e4740d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 05/78] fix: read_tbx: return a complete smaller frame at the
 end of a file instead of EOFError

---
 lsl/reader/tbx.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..903f174 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -53,7 +53,7 @@ template<int NSTAND, int NCHAN, typename T, NPY_TYPES N>
 PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data;
-    int i, nstand, nchan;
+    int i, nstand, nchan, nread;
     TBXFrame cFrame;
     
     static constexpr int frameSize = sizeof(TBXHeader)+8+NCHAN*NSTAND*2*1;
@@ -78,25 +78,33 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    } else if( PyBytes_GET_SIZE(buffer) < (Py_ssize_t) sizeof(TBXHeader) || PyBytes_GET_SIZE(buffer) > frameSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    nread = PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     
+    // A short read is only OK if there is a complete frame that is smaller than what we expect
+    if( nread < frameSize && (!validSync5C(cFrame.header.syncWord) \
+                              || nread < ((long) sizeof(TBXHeader)+8+((long) nchan)*nstand*2*1)) ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
+    
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
-- 
2.43.0


From ee34b35bc48a1083768265cb5981bd239129dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 06/78] fix: read_cor: return a complete smaller frame at the
 end of a file instead of EOFError

---
 lsl/reader/cor.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..8d3d44f 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -57,10 +57,11 @@ template<int NCHAN>
 PyObject *read_cor_impl(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data=NULL;
-    int i, nchan;
+    int i, nchan, nread;
     CORFrame cFrame;
     
-    static constexpr int frameSize = sizeof(CORHeader)+8+4+2+2+NCHAN*8*4;
+    static constexpr int headerSize = sizeof(CORHeader)+8+4+2+2;
+    static constexpr int frameSize = headerSize+NCHAN*8*4;
     
     if(!PyArg_ParseTuple(args, "OO", &ph, &frame)) {
         PyErr_Format(PyExc_RuntimeError, "Invalid parameters");
@@ -95,32 +96,46 @@ PyObject *read_cor_impl(PyObject *self, PyObject *args) {
         }
         Py_XDECREF(data);
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    } else if( PyBytes_GET_SIZE(buffer) < headerSize || PyBytes_GET_SIZE(buffer) > frameSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(data);
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    nread = PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
-    // Determine the number of channels in the frame
-    if( (NCHAN > 33) && validSync5C((uint32_t) cFrame.payload.raw[33*4*2]) ) {
+    // Determine the number of channels in the frame from where the next frame
+    // starts or, if this is the last frame in the file, from where the file ends
+#define MATCH_COR_MODE(MNCHAN) \
+    ((NCHAN > MNCHAN) \
+     && ((nread == headerSize+MNCHAN*8*4 && validSync5C(cFrame.header.sync_word)) \
+         || (nread >= headerSize+MNCHAN*8*4+4 && validSync5C((uint32_t) cFrame.payload.raw[MNCHAN*4*2]))))
+    
+    if( MATCH_COR_MODE(33) ) {
         nchan = 33;
-    } else if( (NCHAN > 72) && validSync5C((uint32_t) cFrame.payload.raw[72*4*2]) ) {
+    } else if( MATCH_COR_MODE(72) ) {
         nchan = 72;
-    } else if( (NCHAN > 112) && validSync5C((uint32_t) cFrame.payload.raw[112*4*2]) ) {
+    } else if( MATCH_COR_MODE(112) ) {
         nchan = 112;
     } else {
         nchan = NCHAN;
     }
+#undef MATCH_COR_MODE
+    
+    if( nchan == NCHAN && nread != frameSize ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        Py_XDECREF(data);
+        return NULL;
+    }
     
     // If nchan is not what we expect, update the cache and retry with correct size
     if( nchan != NCHAN ) {
         cached_nchan = nchan;   // Update for next time
         Py_XDECREF(cor_size);   // Update for next time
         cor_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change cor_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        PyObject_CallMethod(ph, "seek", "ii", -nread, 1);
         
         switch(nchan) {
             case 33:
-- 
2.43.0


From d17735b564c2f931223aa30dc5d5279e183b92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 07/78] fix: read_vdif: double free on error paths and overrun
 of the complex output buffer

---
 lsl/reader/vdif.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..89f8a58 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -211,6 +211,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -250,6 +251,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
         Py_XDECREF(buffer);
+        buffer = NULL;
         
     } else {
         // Legacy headers are missing this information
@@ -291,6 +293,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -328,10 +331,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
@@ -357,6 +360,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
         Py_XDECREF(data);
+        data = NULL;
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From 5c9d260f31fe36f44bfbca5cebe49f09c4f96630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 08/78] fix: leap_secs: whole leap second counts on days that
 end with a leap second

---
 lsl/astro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..fc77620 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2955,7 +2955,9 @@ def leap_secs(utcJD):
     if utcJD < FIRST_LEAP_UTC:
         raise ValueError(f"utcJD must be greater than {FIRST_LEAP_UTC}")
         
-    t = AstroTime(utcJD, format='jd', scale='utc')
+    # Work with the start of the UTC day since UNIX time is stretched across days
+    # that end with a leap second
+    t = AstroTime(math.floor(utcJD - 0.5) + 0.5, format='jd', scale='utc')
     diff_unix = t.unix
     diff_jd = (t - _UNIX_EPOCH_AT).sec
     return round(diff_jd - diff_unix, 1) + 8   # +8 for initial 10 s offset between TAI and UTC
-- 
2.43.0


From c7c4daf8bb5ad29696b080224153b2e6c4be9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:39 +0000
Subject: [PATCH 09/78] fix: VDIF frame time: half-second offset for reference
 epochs that follow a leap second

---
 lsl/reader/vdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..43ff3b2 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -131,9 +131,9 @@ class FrameHeader(FrameHeaderBase):
         # and convert it to a MJD
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
+        frameJD = int(frameDT.jd + 0.5) - 0.5
         frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd + 0.5) - 0.5), format='sec')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From 32aee5f31eeb035bd932ad4340f4e33c2792e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 10/78] fix: deg_to_dms/deg_to_hms: degrees, minutes and
 seconds truncated separately could disagree by a minute

---
 lsl/astro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index fc77620..90ba1fa 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1768,9 +1768,9 @@ def _float_to_sexa(value):
         sgn = -1.0
         value *= -1
         
-    d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    s = value * 3600.0
+    d, m = divmod(int(s // 60.0), 60)
+    s = s % 60.0
     
     return sgn, d, m, s
 
-- 
2.43.0


From 0f022a031b459653c8548792bd87e555109ad538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 11/78] fix: deg_to_hms: negative angles were mirrored and a
 full turn rejected

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 90ba1fa..0b14ec7 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1845,8 +1845,8 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
-    return hms(h, m, s)
+    sgn,h,m,s = _float_to_sexa(range_degrees(degrees) / 15.0)
+    return hms(h % 24, m, s)
 
 
 def rad_to_hms(radians):
-- 
2.43.0


From 1df064d08d18435bd8f871df7aaa811c6167a87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 12/78] fix: add_hms: the hours of the sum were lost

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 0b14ec7..9e3f946 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1892,7 +1892,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From 44d4036702e3078bbe0764f48b63121db57daadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 13/78] fix: get_day_of_week: wrong day at midnight

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 9e3f946..5793056 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1996,7 +1996,7 @@ def get_day_of_week(date):
     """
     
     jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return int(math.floor(jd + 1.5)) % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From 91f9e665b71c148729b13fedd3a3dbf87df2e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 14/78] fix: date_to_zonedate/zonedate_to_date: a second too
 late when the seconds round up to the next whole one

---
 lsl/astro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5793056..5de986d 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,7 +1669,7 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds))
     fracSec = date.seconds - int(date.seconds)
     t1 = timegm(t0) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
@@ -1694,8 +1694,7 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (zonedate.years, zonedate.months, zonedate.days, zonedate.hours, zonedate.minutes, int(zonedate.seconds))
     fracSec = zonedate.seconds - int(zonedate.seconds)
     t1 = timegm(t0) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From f67aae1808116f13c981efe2bba0ab8e984da66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 15/78] fix: tt_to_tdb: input was taken as TAI

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5de986d..4860316 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3130,7 +3130,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From 44627bee45a03e151e144d51ffa6ea14bf114221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 16/78] fix: date.load: NameError instead of ValueError for
 seconds out of range

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 4860316..75883b4 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From e35783310102510842ff73ae2ab0360d3a615567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 17/78] fix: SplitFileWrapper: read over several parts, seek
 from the end, negative seeks, caller's list sorted in place

---
 lsl/reader/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..58c368b 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -34,7 +34,7 @@ class SplitFileWrapper(object):
     """
     
     def __init__(self, filenames, sort=True, buffering=-1):
-        self._filenames = filenames
+        self._filenames = list(filenames)
         if sort:
             self._filenames.sort()
             
@@ -76,15 +76,17 @@ class SplitFileWrapper(object):
             del self._fh
             del self._pos
             
-    def read(self, size):
+    def read(self, size=-1):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
+        if size is None:
+            size = -1
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while (size < 0 or len(data) < size) and self._idx < self._nfiles-1:
             self._open_part()
-            new_data = self._fh.read(size-len(data))
+            new_data = self._fh.read(size-len(data) if size >= 0 else -1)
             self._pos += len(new_data)
             data += new_data
         return data
@@ -104,6 +106,8 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise ValueError(f"negative seek position {pos}")
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
@@ -115,5 +119,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From da0f92b1559b70c46ca9ea676e993011c85db953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 18/78] fix: frame buffers: duplicates hid missing frames,
 flush out of time order

---
 lsl/reader/buffer.py | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..36c2ed9 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,34 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
+        # Drop duplicate frames
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            try:
+                newID = frame.id
+                if self.mode == 'COR':
+                    newID = newID + (frame.header.first_chan,)
+            except AttributeError:
+                newID = frame.header.first_chan
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+        returnCount = len(output)
         
-        if returnCount == self.nFrames:
+        if returnCount >= self.nFrames:
             ## Everything is good (Is it really???)
             self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        else:
             ## There are too few frames
             self.partial = self.partial + 1
             self.missing = self.missing + (self.nFrames - returnCount)
             
-            output = self.buffer[key_to_return]
-            
             ## Fill in the missing frames
             output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
-        else:
-            ## There are too many frames
-            self.full = self.full + 1
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -360,7 +355,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From 82d7305ee32b8c428638b56ce7f0bdff34ca36e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 19/78] fix: simulated DRX frames: tuning word of a loaded
 frame lost, out-of-range beams and tunings written as others

---
 lsl/sim/drx.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..e16a858 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -59,11 +59,15 @@ def frame_to_frame(drx_frame):
     rawFrame[21] = (drx_frame.payload.timetag>>16) & 255
     rawFrame[22] = (drx_frame.payload.timetag>>8) & 255
     rawFrame[23] = drx_frame.payload.timetag & 255
+    ## Tuning word
+    tuning_word = drx_frame.payload.tuning_word
+    if tuning_word is None:
+        tuning_word = drx_frame.payload.flags>>32
+    rawFrame[24] = (tuning_word>>24) & 255
+    rawFrame[25] = (tuning_word>>16) & 255
+    rawFrame[26] = (tuning_word>>8) & 255
+    rawFrame[27] = tuning_word & 255
     ## Flags
-    rawFrame[24] = (drx_frame.payload.flags>>56) & 255
-    rawFrame[25] = (drx_frame.payload.flags>>48) & 255
-    rawFrame[26] = (drx_frame.payload.flags>>40) & 255
-    rawFrame[27] = (drx_frame.payload.flags>>32) & 255
     rawFrame[28] = (drx_frame.payload.flags>>24) & 255
     rawFrame[29] = (drx_frame.payload.flags>>16) & 255
     rawFrame[30] = (drx_frame.payload.flags>>8) & 255
@@ -186,7 +190,7 @@ class SimFrame(drx.Frame):
         if self.header.time_offset >= fS:
             return False
 
-        beam, tune, pol = self.id
+        beam, tune, pol = self.beam, self.tune, self.pol
         # Is the beam number reasonable?
         if beam not in [1, 2, 3, 4]:
             if raise_errors:
-- 
2.43.0


From 41a3a47a49880e395bf323970aaa07ea93307ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 20/78] fix: VDIF writer: times wrong on leap second days,
 frame number could round up to the frame rate

---
 lsl/writer/vdif.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..b0fc724 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -9,12 +9,11 @@ handle.
     :mod:`lsl.sim.tbw`
 """
 
+from time import gmtime
+from calendar import timegm
 import numpy as np
 
-from astropy.time import Time as AstroTime, TimeDelta as AstroDelta
-
 from lsl.common import ndp as ndp_common
-import lsl.astro as astro
 
 
 
@@ -84,17 +83,22 @@ class Frame(object):
             seconds_i = int(self.time)
             seconds_f = self.time - seconds_i
             
-        # Seconds since the UNIX epoch
-        curEpoch = AstroTime(seconds_i, seconds_f, format='unix', scale='utc')
-        # Seconds since the VDIF epoch
-        self.epoch = 2*(curEpoch.ymdhms[0] - 2000) + (curEpoch.ymdhms[1] > 6)
-        epochSeconds = curEpoch - AstroTime(f"{curEpoch.ymdhms[0]}-{(curEpoch.ymdhms[1]//7)*6+1}-1 00:00:00", format='iso', scale='utc')
-        # Integer seconds
-        self.seconds = int(epochSeconds.sec)
+        # Whole seconds and a fraction between 0 and 1
+        seconds_f += seconds_i % 1
+        seconds_i = int(seconds_i // 1) + int(seconds_f // 1)
+        seconds_f %= 1
         
-        # Compute the frames since the beginning of the second
-        frame = (epochSeconds.sec - self.seconds) * (self.sample_rate/(len(self.data)//(2-self.dataReal)))
-        self.frame = int(round(frame))
+        # Frames since the beginning of the second
+        frame_rate = self.sample_rate/(len(self.data)//(2-self.dataReal))
+        self.frame = int(round(seconds_f * frame_rate))
+        if self.frame >= frame_rate:
+            seconds_i += 1
+            self.frame = 0
+            
+        # Seconds since the start of the half year that is the VDIF epoch
+        year, month = gmtime(seconds_i)[:2]
+        self.epoch = 2*(year - 2000) + (month > 6)
+        self.seconds = seconds_i - timegm((year, (month//7)*6+1, 1, 0, 0, 0))
         
     def create_raw_frame(self):
         """
-- 
2.43.0


From a3a8a7dc1e037110d71e5f2cea50b31e0b0e3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:02 +0000
Subject: [PATCH 21/78] fix: F engines and spectrometers read past the data
 when the overlap does not divide the transform length

---
 lsl/correlator/core.cpp   | 12 ++++++++++--
 lsl/correlator/spec.cpp   | 12 ++++++++++--
 lsl/correlator/stokes.cpp | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..c7d58e5 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -425,7 +425,11 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps - fifoMax >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -627,7 +631,11 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps - fifoMax >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..7cf3310 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -293,7 +293,11 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -419,7 +423,11 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..5cb01bb 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -374,7 +374,11 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -528,7 +532,11 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = 0;
+    if( nSamps >= (1+isReal)*nChan ) {
+        // Number of blocks, each starting at (1+isReal)*nChan*j/Overlap, that fit inside the data
+        nFFT = ((nSamps - (1+isReal)*nChan + 1)*Overlap - 1)/((1+isReal)*nChan) + 1;
+    }
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From 6301731470a19a8e418331110501035627cfa31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:02 +0000
Subject: [PATCH 22/78] fix: spectrometers read past the output when shifting
 an odd number of channels

---
 lsl/correlator/spec.cpp   | 2 +-
 lsl/correlator/stokes.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 7cf3310..9e12386 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -224,7 +224,7 @@ void compute_spec_complex(long nStand,
             
             // Shift FFTs
             memcpy(temp2, psd + nChan*i, sizeof(OutType)*(nChan/2+nChan%2));
-            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
             memcpy(psd + nChan*i+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
             
             // Scale FFTs
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 5cb01bb..b8ddc48 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -282,7 +282,7 @@ void compute_stokes_complex(long nStand,
             for(j=0; j<4; j++) {
                 // Shift FFTs
                 memcpy(temp2, (psd + j*nChan*nStand + nChan*i), sizeof(OutType)*(nChan/2+nChan%2));
-                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
                 memcpy((psd + j*nChan*nStand + nChan*i)+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
                 
                 // Scale FFTs
-- 
2.43.0


From 80b6832d00083711987cdc40dc7ccebaec7f0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:00 +0000
Subject: [PATCH 23/78] fix: Stokes I and Q visibilities were not normalised by
 the number of blocks accumulated when time-domain blanking is on

---
 lsl/correlator/stokes.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index b8ddc48..0db8dc8 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -654,37 +654,43 @@ void compute_xengine_three(long nStand,
     OutType tempVis1, tempVis2;
     
     // Time-domain blanking control
-    long nActVis;
+    long nActVisPureX, nActVisPureY, nActVisCross;
     
     #ifdef _OPENMP
-        #pragma omp parallel default(shared) private(c, f, nActVis, tempVis1, tempVis2)
+        #pragma omp parallel default(shared) private(c, f, nActVisPureX, nActVisPureY, nActVisCross, tempVis1, tempVis2)
     #endif
     {
         #ifdef _OPENMP
             #pragma omp for schedule(OMP_SCHEDULER)
         #endif
         for(bl=0; bl<nBL; bl++) {
-            nActVis = 0;
+            nActVisPureX = 0;
+            nActVisPureY = 0;
+            nActVisCross = 0;
             for(f=0; f<nFFT; f++) {
-                nActVis += (long) (*(validX+ mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisPureX += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validX + mapper[bl][1]*nFFT + f));
+                nActVisPureY += (long) (*(validY + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
+                nActVisCross += (long) (*(validX + mapper[bl][0]*nFFT + f) & *(validY + mapper[bl][1]*nFFT + f));
             }
             
             for(c=0; c<nChan; c++) {
                 // I
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 0*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                tempVis1 /= (float) nActVisPureX;
+                tempVis2 /= (float) nActVisPureY;
+                *(dataA + 0*nBL*nChan + bl*nChan + c) = tempVis1 + tempVis2;
                 
                 // Q
-                *(dataA + 1*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis;
+                *(dataA + 1*nBL*nChan + bl*nChan + c) = tempVis1 - tempVis2;
                 
                 // U
                 blas_dotc_sub(nFFT, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, &tempVis1);
                 blas_dotc_sub(nFFT, (dataX + mapper[bl][0]*nChan*nFFT + c*nFFT), 1, (dataY + mapper[bl][1]*nChan*nFFT + c*nFFT), 1, &tempVis2);
-                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVis;
+                *(dataA + 2*nBL*nChan + bl*nChan + c) = (tempVis1 + tempVis2) / (float) nActVisCross;
                 
                 // V
-                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVis / OutType(0,1);
+                *(dataA + 3*nBL*nChan + bl*nChan + c) = (tempVis1 - tempVis2) / (float) nActVisCross / OutType(0,1);
             }
         }
     }
-- 
2.43.0


From 17529503790a2e6b7f13a1f6b701d4028dbf8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:02 +0000
Subject: [PATCH 24/78] fix: FXStokes applied the cable gain correction to the
 first four baselines only

---
 lsl/correlator/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..0ee52c4 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -483,7 +483,7 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         
     # Apply cable gain corrections (if needed)
     if gain_correct:
-        for bl in range(output.shape[0]):
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 98428e778697f60884d79584e1d3c2f59134bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 25/78] fix: FXMaster and FXStokes failed when the delays of
 the two polarizations leave different numbers of blocks

---
 lsl/correlator/fx.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 0ee52c4..2de9ffa 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -321,6 +321,10 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         validF2 = validF1
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
+        # The two sets of delays can leave a different number of blocks
+        nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+        signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+        signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
         
     # X
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
@@ -469,6 +473,10 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     signalsF1, validF1 = func(signals[signalsIndex1,:], freq, delays1, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
+    # The two sets of delays can leave a different number of blocks
+    nFFT = min([signalsF1.shape[2], signalsF2.shape[2]])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
     
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
-- 
2.43.0


From f38bfa6c8a0c753bedc39c333ddcbccda96fd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 26/78] fix: spectrometer frames with different data products:
 arithmetic raised NameError instead of RuntimeError

---
 lsl/reader/drspec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/drspec.py b/lsl/reader/drspec.py
index cff2a52..7573534 100644
--- a/lsl/reader/drspec.py
+++ b/lsl/reader/drspec.py
@@ -387,7 +387,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) + getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) + np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -416,7 +416,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) - getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) - np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -445,7 +445,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) * getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) * np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -474,7 +474,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) // getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) // np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -503,7 +503,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) / getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) / np.float32(y)
                 setattr(self.payload, attr, temp)
-- 
2.43.0


From a3ac07ada9acc793f1df46fa7b92ee0c8f23aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:06 +0000
Subject: [PATCH 27/78] fix: gaps next to the end of a DRX, DRX8 or TBX file,
 in tuning 2 only files and in ADP data were not zero-filled

---
 lsl/reader/ldp.py | 83 ++++++++++++++++++-----------------------------
 1 file changed, 32 insertions(+), 51 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..361ca6f 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -272,6 +272,26 @@ class LDPFileBase(object):
         
         raise NotImplementedError
         
+    def _zero_fill(self, last, timetags, skip, max_missing):
+        """
+        Add zeroed frames to the buffer such that there are no gaps between 
+        `last`, the time tag of the last set of frames returned (zero if there 
+        is none), and the buffered sets at `timetags`.  A gap is only filled if 
+        it is a whole number of steps of `skip` and smaller than `max_missing`.
+        """
+        
+        for timetag in timetags:
+            if last != 0 and timetag != last + skip:
+                missing = (timetag - last - skip) / float(skip)
+                if int(missing) == missing and missing < max_missing:
+                    LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
+                    for m in range(int(missing)):
+                        baseframe = copy.deepcopy(self.buffer.buffer[timetag][0])
+                        baseframe.payload.timetag = last + skip*(m+1)
+                        baseframe.payload._data[...] = 0
+                        self.buffer.append(baseframe)
+            last = timetag
+            
     def read_sequence(self, duration, time_in_samples=False):
         """
         Return a generator that yields the results of the read() method until 
@@ -613,23 +633,8 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
-                    pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                self._zero_fill(max(self._timetag.values()), [cTimetag,],
+                                self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             cFrames = self.buffer.get()
             
             # If something comes out, add it to the data array
@@ -662,6 +667,8 @@ class DRXFile(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            self._zero_fill(max(self._timetag.values()), sorted(self.buffer.buffer.keys()),
+                            self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             for cFrames in self.buffer.flush():
                 for cFrame in cFrames:
                     b,t,p = cFrame.id
@@ -1079,23 +1086,8 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
-                    pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                self._zero_fill(max(self._timetag.values()), [cTimetag,],
+                                self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             cFrames = self.buffer.get()
             
             # If something comes out, add it to the data array
@@ -1128,6 +1120,8 @@ class DRX8File(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            self._zero_fill(max(self._timetag.values()), sorted(self.buffer.buffer.keys()),
+                            self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             for cFrames in self.buffer.flush():
                 for cFrame in cFrames:
                     b,t,p = cFrame.id
@@ -1748,23 +1742,8 @@ class TBXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag == 0:
-                    pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                self._zero_fill(self._timetag, [cTimetag,],
+                                timetagSkip, LDP_CONFIG.get('tbx_autofill_size'))
             cFrames = self.buffer.get()
             
             # Continue adding frames if nothing comes out.
@@ -1806,6 +1785,8 @@ class TBXFile(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            self._zero_fill(self._timetag, sorted(self.buffer.buffer.keys()),
+                            timetagSkip, LDP_CONFIG.get('tbx_autofill_size'))
             for cFrames in self.buffer.flush():
                 cTimetag = cFrames[0].payload.timetag
                 if self._timetag == 0:
-- 
2.43.0


From 531a68cb323a18a76d07fcff15db6904c57b29cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:08 +0000
Subject: [PATCH 28/78] fix: TBX files with a gap between two frequency blocks
 could not be read (the gap was taken for the frame's channel count)

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 361ca6f..cba24ee 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1550,7 +1550,7 @@ class TBXFile(LDPFileBase):
             # Check for contiguous frequency coverage
             if len(self.mapper) > 1:
                 chan_steps = np.diff(self.mapper)
-                channel_count = int(np.round(np.median(chan_steps)))
+                channel_count = junkFrame.payload.data.shape[0]
                 if not all(chan_steps == channel_count):
                     bad_steps = np.where(chan_steps != channel_count)[0]
                     LSL_LOGGER.warning(f"File appears to contain {len(bad_steps)} frequency gap(s) of size {','.join([str(chan_steps[g]) for g in bad_steps])} channels")
-- 
2.43.0


From 22a4e9be3c885c75600517f772860bb78cab424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:20 +0000
Subject: [PATCH 29/78] fix: TBX and COR offset() ignored the buffered frames
 after a read, and reads after a TBX offset() stopped early

---
 lsl/reader/ldp.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index cba24ee..ff05bae 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1587,21 +1587,22 @@ class TBXFile(LDPFileBase):
         frame_size = self.description['frame_size']
         
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
+        nbuffered = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+            if curr is not None:
+                timetagSkip = int(1.0 / self.description['sample_rate'] * fS)
+                try:
+                    frame = tbx.read_frame(self.fh)
+                    self.fh.seek(-frame_size, 1)
+                    nbuffered = (frame.payload.timetag - curr) // timetagSkip
+                except errors.EOFError:
+                    nbuffered = (max(self.buffer.buffer.keys()) - curr) // timetagSkip + 1
+                    
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
         frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*frame_size, 1)
+        self.fh.seek((frameOffset - nbuffered*framesPerObs)*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
@@ -1683,7 +1684,7 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
+        remaining_count = self.get_remaining_frame_count()
         max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
@@ -1960,21 +1961,23 @@ class CORFile(LDPFileBase):
         """
         
         # Find out where we really are taking into account the buffering
-        buffer_offset = 0
+        frame_size = self.description['frame_size']
+        nbuffered = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
-        offset = offset - buffer_offset
+            if curr is not None:
+                timetagSkip = int(self.description['tint'] * fS)
+                try:
+                    frame = cor.read_frame(self.fh)
+                    self.fh.seek(-frame_size, 1)
+                    nbuffered = (frame.payload.timetag - curr) // timetagSkip
+                except errors.EOFError:
+                    nbuffered = (max(self.buffer.buffer.keys()) - curr) // timetagSkip + 1
+                    
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        self.fh.seek((frameOffset - nbuffered*framesPerObs)*frame_size, 1)
         
         # Update the file metadata
         self._describe_file()
-- 
2.43.0


From 1ae7fbd8fe31773d35e894452cc01759a53c4ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:20 +0000
Subject: [PATCH 30/78] fix: CORFile.read() without a duration raised
 UnboundLocalError

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index ff05bae..3af9859 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2042,10 +2042,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From e2f19271cb7f156237e4e512c4b001dd7a44c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 31/78] fix: parse_time raised ValueError for times that round
 up to the next full second

---
 lsl/common/_sdf_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 2a2caff..274ec80 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -122,7 +122,7 @@ def parse_time(s, station=lwa1):
         # Round the microsecond value to milliseconds
         us = s.microsecond
         us = int(round(us/1000.0))*1000
-        dtObject = s.replace(microsecond=us)
+        dtObject = s.replace(microsecond=0).astimezone(timezone.utc) + timedelta(microseconds=us)
         
     else:
         mtch = _dtRE.match(s)
@@ -273,7 +273,10 @@ def parse_time(s, station=lwa1):
                 microsecond = int(round(microsecond/1000.0))*1000
                 
             # Localize as the appropriate time zone
-            dtObject = datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tz)
+            dtObject = datetime(year, month, day, hour, minute, second, tzinfo=tz)
+            
+            # Add in the fraction of a second, which can round up to a full second
+            dtObject = dtObject.astimezone(timezone.utc) + timedelta(microseconds=microsecond)
             
     # Return as UTC
     return dtObject.astimezone(timezone.utc)
-- 
2.43.0


From 1990294b5f436e0bdcf76cef2a5cc1431520600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 32/78] fix: durations given as astropy quantities raised
 UnboundLocalError in SDF and IDF observations

---
 lsl/common/idf.py | 2 +-
 lsl/common/sdf.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..b9fb6a2 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..3732d2e 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -629,7 +629,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -1627,7 +1627,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From 077376b558b807d9220546385d9e99e894f30bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 33/78] fix: undefined names in the SDF declination check and
 in Project.autofilled

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3732d2e..83469bf 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -232,7 +232,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
@@ -669,7 +669,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
-- 
2.43.0


From d143c2d0f2cb103a471c7a005e9c267756582779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 34/78] fix: BeamStep and AlternatePhaseCenter could not be
 validated on their own

---
 lsl/common/idf.py | 2 ++
 lsl/common/sdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index b9fb6a2..0a5d14e 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1037,6 +1037,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 83469bf..2f298f9 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1508,6 +1508,8 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
         if self.is_radec:
-- 
2.43.0


From b2f59541255cc8acff6c5553e9656f26dbde08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 35/78] fix: extending a session, run or stepped observation
 silently dropped generators and lists with a bad entry

---
 lsl/common/sdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 2f298f9..272ba31 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -126,11 +126,14 @@ class _TypedParentList(list):
             raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def extend(self, values):
+        values = list(values)
         if all([isinstance(value, self.allowed_types) for value in values]):
             if self.parent is not None:
                 for value in values:
                     value._parent = self.parent
             list.extend(self, values)
+        else:
+            raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def insert(self, index, value):
         if isinstance(value, self.allowed_types):
-- 
2.43.0


From 9c589708dd6539f9f85c612c4641908a1dd7d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 36/78] fix: parse_sdf and parse_idf carried optional settings
 over to the following observations

---
 lsl/common/idf.py | 10 ++++++----
 lsl/common/sdf.py | 14 ++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 0a5d14e..68f7929 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1269,9 +1269,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
-                'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
-                'aspFlt': -1}
+    obs_blank = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+                 'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
+                 'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_blank)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1392,6 +1393,7 @@ def parse_idf(filename):
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
                     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
                     alt_temps = []
+                    obs_temp = copy.deepcopy(obs_blank)
                 obs_temp['id'] = int(value)
                 project.project_office.scans[0].append( None )
             
@@ -1455,7 +1457,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 272ba31..901e234 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2146,12 +2146,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
-                'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
-                'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
-                'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
-                'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
-                'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_blank = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+                 'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
+                 'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
+                 'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
+                 'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
+                 'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_blank)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2292,6 +2293,7 @@ def parse_sdf(filename):
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
                     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
                     beam_temps = []
+                    obs_temp = copy.deepcopy(obs_blank)
                 obs_temp['id'] = int(value)
                 project.project_office.observations[0].append( None )
             
-- 
2.43.0


From 8f69601bb83ef1dcdc90b055fe5c9cbda36f2cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 37/78] fix: parse_sdf gave a step the beam type, delays and
 gains of the step before it

---
 lsl/common/sdf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 901e234..0350032 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2423,6 +2423,10 @@ def parse_sdf(filename):
                     beam_temps.append( copy.deepcopy(beam_temp) )
                     beam_temps[-1]['id'] = ids[0]
                 
+                    beam_temps[-1]['HighDR'] = False
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
+                    
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
                     
@@ -2441,6 +2445,10 @@ def parse_sdf(filename):
                         beam_temps.append( copy.deepcopy(beam_temps[-1]) )
                         beam_temps[-1]['id'] = ids[0]
                     
+                    beam_temps[-1]['HighDR'] = False
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
+                    
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
                     
-- 
2.43.0


From a69ce1cf75dd2575f418b8cc1e1a674a5c24613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 38/78] fix: parse_sdf took a 0 for the log and station file
 requests as a yes

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 0350032..78cdd46 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2253,16 +2253,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From 255910585a02ac6a122ec93e0df52c0601904bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 39/78] fix: every rendering of a session or run with a UCF
 user name changed its comments

---
 lsl/common/idf.py | 2 ++
 lsl/common/sdf.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 68f7929..93b0e22 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -194,6 +194,8 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean.startswith(';;'):
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 78cdd46..3830759 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -311,6 +311,8 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean.startswith(';;'):
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
-- 
2.43.0


From d288be2f6a5578412a17f2bfaecfe1a6736f2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 40/78] fix: generate_sdfs failed for scans without comments
 and for projects without project office comments

---
 lsl/common/idf.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 93b0e22..f28aa4c 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -315,9 +315,19 @@ class Project(object):
             session.include_station_smib = True
             
             ## Project Office
+            try:
+                pos = self.project_office.runs[run]
+            except (TypeError, IndexError):
+                pos = None
+            try:
+                poo = list(self.project_office.scans[run])
+            except (TypeError, IndexError):
+                poo = []
+            while len(poo) < len(ses.scans):
+                poo.append(None)
             new_projoff = sdf.ProjectOffice(project=copy.deepcopy(self.project_office.project), 
-                                               sessions=copy.deepcopy([self.project_office.runs[run],]), 
-                                               observations=copy.deepcopy([self.project_office.scans[run],]))
+                                               sessions=[copy.deepcopy(pos),], 
+                                               observations=[copy.deepcopy(poo),])
             
             ## Observations
             for o,obs in enumerate(ses.scans):
@@ -328,7 +338,7 @@ class Project(object):
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
-                    if comments is not None:
+                    if obs.comments is not None:
                         comments += obs.comments
                     if obs.pm[0] != 0.0 or obs.pm[1] != 0.0:
                         comments = comments+";;Applied proper motion of %+.1f mas/yr in RA and %+.1f mas/yr in dec" % (obs.pm[0], obs.pm[1])
@@ -360,10 +370,6 @@ class Project(object):
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
-                    try:
-                        new_projoff.observations[0][o]
-                    except IndexError:
-                        new_projoff.observations[0][o] = None
                     if new_projoff.observations[0][o] is None:
                         new_projoff.observations[0][o] = ''
                     new_projoff.observations[0][o] = "alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;%s" % (cid, alt_t, cid, alt_i, cid, alt_r, cid, alt_d, new_projoff.observations[0][o])
-- 
2.43.0


From 0d58016fd4aa960934402dad1939de875796ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 41/78] fix: the visibility of each step of a stepped
 observation was judged over the length of the whole observation

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3830759..5595ddb 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1412,7 +1412,7 @@ class Stepped(Observation):
                 pnt = step.fixed_body
                 
                 dt = 0.0
-                while dt <= self.dur/1000.0:
+                while dt <= step.dur/1000.0:
                     station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
                     pnt.compute(station)
                     max_alt = max([max_alt, pnt.alt])
-- 
2.43.0


From 1ea3aa5f789da09f66899b7f619caf4de0860a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 42/78] fix: stepped observations with the maximum number of
 steps were refused, and those with none could not be validated

---
 lsl/common/sdf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 5595ddb..95d2395 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1461,12 +1461,16 @@ class Stepped(Observation):
                 
             stepCount += 1
             
-        if stepCount > MAX_STP_N:
-            LSL_LOGGER.error(f"Too many steps ({stepCount}) set for this observation")
+        if len(self.steps) > MAX_STP_N:
+            LSL_LOGGER.error(f"Too many steps ({len(self.steps)}) set for this observation")
+            failures += 1
+            
+        if len(self.steps) == 0:
+            LSL_LOGGER.error("No steps set for this observation")
             failures += 1
             
         # Advanced - Target Visibility
-        if self.target_visibility < 1.0:
+        elif self.target_visibility < 1.0:
             LSL_LOGGER.error(f"Target steps only above the horizon for {self.target_visibility*100.0:.1f}% of the observation")
             failures += 1
             
-- 
2.43.0


From f87dcadaf8f66d34e827b86883ffb0189bcdad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:44 +0000
Subject: [PATCH 43/78] fix: the DR spectrometer could not be disabled again
 with a channel or integration count of zero

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 95d2395..77a6d8b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1826,7 +1826,7 @@ class Session(object):
         """Set the number of spectrometer channels to generate, 0 to disable."""
         
         value = int(value)
-        if value not in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
+        if value not in (0, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192):
             raise ValueError(f"Invalid DR spectrometer channel count '{value}'")
         self.spc_setup[0] = value
         
@@ -1842,7 +1842,7 @@ class Session(object):
         0 to disable."""
         
         value = int(value)
-        if value not in (384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
+        if value not in (0, 384, 768, 1536, 3072, 6144, 12288, 24576, 49152, 98304, 196608):
             raise ValueError(f"Invalid DR spectrometer integration count '{value}'")
         self.spc_setup[1] = value
         
-- 
2.43.0


From 30aa835f6b0b57b3af294c274781c86615fe39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 44/78] fix: parse_time refused astropy Time instances

---
 lsl/common/_sdf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 274ec80..d4199e3 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -113,7 +113,7 @@ def parse_time(s, station=lwa1):
     """
     
     if isinstance(s, AstroTime):
-        s = s.utc.datetime
+        s = s.utc.datetime.replace(tzinfo=timezone.utc)
         
     if isinstance(s, datetime):
         if s.tzinfo is None:
-- 
2.43.0


From d22f011fa03cdc8bc2734c55cb3c2967e4c83fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:25 +0000
Subject: [PATCH 45/78] fix: start times in SDFs and IDFs on days with a leap
 second were read back up to a second late

---
 lsl/common/idf.py | 3 +--
 lsl/common/sdf.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index f28aa4c..be31826 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -41,7 +41,6 @@ from datetime import datetime, timedelta, timezone
 from astropy import units as astrounits
 from astropy.coordinates import Angle as AstroAngle
 
-from lsl.transform import Time
 from lsl.astro import utcjd_to_unix, MJD_OFFSET, DJD_OFFSET
 from lsl.common._sdf_utils import *
 from lsl.common.color import colorfy
@@ -1210,7 +1209,7 @@ def _parse_create_scan_object(obs_temp, alt_temps=[]):
     # Create a time string for the start time in UTC.  This is a little tricky 
     # because of the rounding to the nearest millisecond which has to be done
     # to the datetime object.
-    start = Time(obs_temp['mjd'] + obs_temp['mpm'] / 1000.0 / 3600.0 / 24.0, format='MJD').utc_py_date
+    start = mjdmpm_to_datetime(obs_temp['mjd'], obs_temp['mpm'])
     start += timedelta(microseconds=(int(round(start.microsecond/1000.0)*1000.0)-start.microsecond))
     utcString = start.strftime("UTC %Y %m %d %H:%M:%S.%f")
     utcString = utcString[:-3]
diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 77a6d8b..8f98ddf 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -57,7 +57,6 @@ from datetime import datetime, timedelta, timezone
 from astropy import units as astrounits
 from astropy.coordinates import Angle as AstroAngle
 
-from lsl.transform import Time
 from lsl.astro import utcjd_to_unix, MJD_OFFSET, DJD_OFFSET
 from lsl.common._sdf_utils import *
 from lsl.common.color import colorfy
@@ -2051,7 +2050,7 @@ def _parse_create_obs_object(obs_temp, beam_temps=None):
     # Create a time string for the start time in UTC.  This is a little tricky 
     # because of the rounding to the nearest millisecond which has to be done
     # to the datetime object.
-    start = Time(obs_temp['mjd'] + obs_temp['mpm'] / 1000.0 / 3600.0 / 24.0, format='MJD').utc_py_date
+    start = mjdmpm_to_datetime(obs_temp['mjd'], obs_temp['mpm'])
     start += timedelta(microseconds=(int(round(start.microsecond/1000.0)*1000.0)-start.microsecond))
     utcString = start.strftime("UTC %Y %m %d %H:%M:%S.%f")
     utcString = utcString[:-3]
-- 
2.43.0


From ecccfdc81b1f9dea72adef6e8475786362d63ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:57 +0000
Subject: [PATCH 46/78] fix: PolarizationDataSet.append compared the shapes of
 the stored, not the new, weights and mask

---
 lsl/imaging/data.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..be8f216 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,35 +58,29 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        data = np.atleast_2d(data)
+        
+        if weight is None:
+            weight = np.ones(data.shape, dtype=np.float32)
+        weight = np.atleast_2d(weight)
+        if weight.shape != data.shape:
+            raise ValueError("weight shape does not match the data shape")
+            
+        if mask is None:
+            mask = np.zeros(data.shape, dtype=bool)
+        mask = np.atleast_2d(mask)
+        if mask.shape != data.shape:
+            raise ValueError("mask shape does not match the data shape")
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
             self.data = data
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = weight
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = mask
             
         else:
             self.data = np.vstack([self.data, data])
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
     def extend(self, data, weight=None, mask=None):
-- 
2.43.0


From fa7e43f4d57dc1535614e2188d54ce15068d3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:57 +0000
Subject: [PATCH 47/78] fix: VisibilityData.get_antenna_subset always took
 stand numbers for antenna indices

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index be8f216..2315757 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -613,6 +613,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From 0ded206f45dd1000be70e7c4ac1e0495fd792fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:49 +0000
Subject: [PATCH 48/78] fix: visibility writers took the J2000 position of a
 source for its position of date

---
 lsl/writer/fitsidi.py        | 2 +-
 lsl/writer/measurementset.py | 2 +-
 lsl/writer/uvfits.py         | 2 +-
 lsl/writer/virtual.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..dcd9a83 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1097,7 +1097,7 @@ class Idi(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000').transform_to(FK5(equinox=date))
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..d9609f5 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -830,7 +830,7 @@ try:
                     else:
                         ### Real-live sources (ephem.Body instances)
                         equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                                  equinox=date)
+                                  equinox='J2000').transform_to(FK5(equinox=date))
                         
                         name = dataSet.source.name
                         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..5590d35 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -293,7 +293,7 @@ class Uv(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000').transform_to(FK5(equinox=date))
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..3888a00 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -105,7 +105,7 @@ class VirtualWriter(WriterBase):
             equ = tc.transform_to(FK5(equinox=date))
         else:
             equ = FK5(source.a_ra*astrounits.rad, source.a_dec*astrounits.rad,
-                      equinox=date)
+                      equinox='J2000').transform_to(FK5(equinox=date))
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-- 
2.43.0


From d7fa507f0db0c105a8e43b329fcea99b3e0adf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:49 +0000
Subject: [PATCH 49/78] fix: VirtualWriter gave compute_uvw an hour angle in
 degrees instead of hours

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 3888a00..3bf81ee 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -109,7 +109,7 @@ class VirtualWriter(WriterBase):
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).deg
+        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).hourangle
         dec = it.spherical.lat.deg
         
         # (u,v,w) coordinates
-- 
2.43.0


From 64382d6e010ad36adbe8e8a3370b3eafb82a82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:54 +0000
Subject: [PATCH 50/78] fix: visibility writers kept the baseline order of the
 first data set for later ones in another order

---
 lsl/writer/fitsidi.py        |  4 +++-
 lsl/writer/measurementset.py | 15 +++++++--------
 lsl/writer/uvfits.py         |  4 +++-
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index dcd9a83..eefaa5a 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1060,10 +1060,12 @@ class Idi(WriterBase):
                 break
                 
             # Sort the data by packed baseline
+            pairs = [(a1.stand.id, a2.stand.id) for a1,a2 in dataSet.baselines]
             try:
-                if len(dataSet.visibilities) != len(order):
+                if pairs != orderPairs:
                     raise NameError
             except NameError:
+                orderPairs = pairs
                 order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
                 try:
                     del baselineMapped
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index d9609f5..0944c34 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -798,16 +798,14 @@ try:
             _sourceTable = []
             for dataSet in self.data:
                 # Sort the data by packed baseline
+                pairs = [(a1.stand.id, a2.stand.id) for a1,a2 in dataSet.baselines]
                 try:
-                    if len(dataSet.visibilities) != len(order):
+                    if pairs != orderPairs:
                         raise NameError
                 except NameError:
+                    orderPairs = pairs
                     order = dataSet.argsort(mapper=mapper, shift=16)
-                    try:
-                        del baselineMapped
-                    except NameError:
-                        pass
-                        
+                    
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -850,9 +848,10 @@ try:
                     ## Populate the metadata
                     ### Add in the baselines
                     try:
-                        ant1List
-                        ant2List
+                        if pairs != antPairs:
+                            raise NameError
                     except NameError:
+                        antPairs = pairs
                         a1List, a2List = [], []
                         for o in order:
                             antenna1, antenna2 = dataSet.baselines[o]
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 5590d35..64ac799 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -257,10 +257,12 @@ class Uv(WriterBase):
         sourceList = []
         for dataSet in self.data:
             # Sort the data by packed baseline
+            pairs = [(a1.stand.id, a2.stand.id) for a1,a2 in dataSet.baselines]
             try:
-                if len(dataSet.visibilities) != len(order):
+                if pairs != orderPairs:
                     raise NameError
             except NameError:
+                orderPairs = pairs
                 order = dataSet.argsort(mapper=mapper)
                 try:
                     del baselineMapped
-- 
2.43.0


From 5b6021d3bd4c87cdac68a726c07a05f3f68cb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:54 +0000
Subject: [PATCH 51/78] fix: correlated data readers cut stand numbers over 999
 to their last three digits

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..09d4ce6 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -84,7 +84,7 @@ vLight = vLight.to('m/s').value
 
 # Regular expression for trying to get the stand number out of an antenna
 # name
-_annameRE = re.compile(r'^.*?(?P<id>\d{1,3})$')
+_annameRE = re.compile(r'^.*?(?P<id>\d+)$')
 
 
 def CorrelatedData(filename):
-- 
2.43.0


From 16e53ec92be7800009129ea9b258dbb4fe881c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:54 +0000
Subject: [PATCH 52/78] fix: CorrelatedDataMS took every multi-window set for
 one with two windows

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 09d4ce6..f432f39 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1101,7 +1101,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From 9860ac9f44a07ccd57f1a0f46a04b5013bcfa937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:33 +0000
Subject: [PATCH 53/78] fix: measurement set source table repeated a zenith
 pointing that the main table counts once

---
 lsl/writer/measurementset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 0944c34..810fadf 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -510,6 +510,10 @@ try:
                             equ = astro.equ_posn(dataSet.source.ra*180/np.pi, dataSet.source.dec*180/np.pi)
                             equPo = astro.equ_posn(dataSet.source.a_ra*180/np.pi, dataSet.source.a_dec*180/np.pi)
                             
+                        # Only add a zenith pointing once, just like the main table does
+                        if name in nameList:
+                            continue
+                            
                         # J2000 zenith equatorial coordinates
                         posList.append( [[equPo.ra*np.pi/180, equPo.dec*np.pi/180],] )
                         
-- 
2.43.0


From 8e5d40bc6ed450efea28cb25b1c5d1b85258689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 54/78] fix: visibility writers named a zenith pointing from
 two slightly different times in two tables

---
 lsl/writer/fitsidi.py        | 2 +-
 lsl/writer/measurementset.py | 2 +-
 lsl/writer/uvfits.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index eefaa5a..128ec6c 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -880,7 +880,7 @@ class Idi(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 810fadf..a6a364b 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -478,7 +478,7 @@ try:
             sourceID = 0
             for dataSet in self.data:
                 if dataSet.pol == self.stokes[0]:
-                    date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                    date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                     
                     try:
                         currSourceName = dataSet.source.name
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 64ac799..fd2b271 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -686,7 +686,7 @@ class Uv(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                date = AstroTime(astro.taimjd_to_utcjd(dataSet.obsTime), format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
-- 
2.43.0


From 50fe398402d336adaee45b6e5eb5e7a8b8b44875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 55/78] fix: a reference time with a fraction of a second gave
 FITS-IDI files that could not be read back

---
 lsl/imaging/utils.py  | 2 +-
 lsl/writer/virtual.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index f432f39..8e7e4a1 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -287,7 +287,7 @@ class CorrelatedDataIDI(CorrelatedDataBase):
             # Station/telescope information
             try:
                 self.telescope = hdulist[0].header['TELESCOP']
-                self.date_obs = datetime.strptime(hdulist[0].header['DATE-OBS'], "%Y-%m-%dT%H:%M:%S")
+                self.date_obs = datetime.strptime(hdulist[0].header['DATE-OBS'].rsplit('.', 1)[0], "%Y-%m-%dT%H:%M:%S")
             except ValueError:
                 ## Catch for DiFX FITS-IDI files
                 self.date_obs = datetime.strptime(hdulist[0].header['DATE-OBS'], "%Y-%m-%d")
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 3bf81ee..87fda46 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -81,7 +81,7 @@ class VirtualWriter(WriterBase):
             return False
             
         # Convert the reference time to a JD
-        ref_time = datetime.strptime(self.ref_time, "%Y-%m-%dT%H:%M:%S")
+        ref_time = datetime.strptime(self.ref_time.rsplit('.', 1)[0], "%Y-%m-%dT%H:%M:%S")
         mjd, mpm = datetime_to_mjdmpm(ref_time)
         ref_jd = mjd + mpm/1000.0 / 86400 + astro.MJD_OFFSET
         
-- 
2.43.0


From da9601cf6e3c069f70b5776c512933eb593dc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:49 +0000
Subject: [PATCH 56/78] fix: the dates in UVFITS files were uninitialized
 memory

---
 lsl/writer/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index fd2b271..c717625 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -368,9 +368,12 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
+        # NOTE: The zero of the dates is set here since GroupData leaves the
+        #       values of a parameter with a non-zero parbzeros unset
+        primary.header['PZERO4'] = utcR
         
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
-- 
2.43.0


From 97398a6d27b2b7e8141b8364bea6c168c80c1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:18 +0000
Subject: [PATCH 57/78] fix: CorrelatedDataMS could not open sets with fewer
 than four antennas

---
 lsl/imaging/utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 8e7e4a1..8c950a3 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -933,9 +933,13 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            try:
+                sLat = robust.mean(lat)
+                sLng = robust.mean(lng)
+                sElv = robust.mean(elv)
+            except ValueError:
+                ## Catch for too few antennas for a robust mean
+                sLat, sLng, sElv = lat.mean(), lng.mean(), elv.mean()
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From cf11c1c5bf6dff63be2f7d883bf387499bfc4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 58/78] fix: gridder scales by the size of the current image,
 not that of the first one

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..b45adc0 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -212,7 +212,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From f146cded175c4a6c5666f60d85e5c71bfc1646dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 59/78] fix: gridder keeps the data when all of it falls on a
 single w plane

---
 lsl/imaging/gridder.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index b45adc0..5ff72fd 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -111,10 +111,8 @@ int compute_planes(int nVis,
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
-        *(planeStop + nPlanes) = nVis;
-        nPlanes++;
-    }
+    *(planeStop + nPlanes) = nVis;
+    nPlanes++;
     
     /*
     for(i=0; i<nPlanes; i++) {
-- 
2.43.0


From 4cc20352e914fada7ac1f44e4aa248e3e3a7f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 60/78] fix: gridder does not run past the w plane table

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 5ff72fd..5279ea5 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -104,7 +104,7 @@ int compute_planes(int nVis,
     psw = signed_sqrt( *(w+0) );
     for(i=1; i<nVis; i++) {
         csw = signed_sqrt( *(w+i) );
-        if( csw >= psw + wRes) {
+        if( csw >= psw + wRes && nPlanes < MAX_W_PLANES-1 ) {
             *(planeStop + nPlanes) = i;
             nPlanes += 1;
             *(planeStart + nPlanes) = i;
-- 
2.43.0


From 3849e5fc646afef03819af4e8540c0ad271848de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 61/78] fix: gridder does not write outside of the grid for
 baselines longer than uvSize

---
 lsl/imaging/gridder.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 5279ea5..c7cb0d1 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -271,10 +271,9 @@ void compute_gridding(long nVis,
                     
                     temp = *(kernel1D + gi);
                     
+                    pi %= nPixSide;
                     if( pi < 0 ) {
                         pi += nPixSide;
-                    } else if( pi >= nPixSide) {
-                        pi -= nPixSide;
                     }
                     
                     for(l=-GRID_KERNEL_SIZE/2; l<GRID_KERNEL_SIZE/2+1; l++) {
@@ -286,10 +285,9 @@ void compute_gridding(long nVis,
                         
                         temp2 = temp * *(kernel1D + gj);
                         
+                        pj %= nPixSide;
                         if( pj < 0 ) {
                             pj += nPixSide;
-                        } else if( pj >= nPixSide) {
-                            pj -= nPixSide;
                         }
                         
                         *(suv + nPixSide*pi + pj) += (Complex32) *(vis + i) * (float) temp2;
-- 
2.43.0


From f98b8ca91b3ba8cdba000dc9efc8cf2485f2806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 62/78] fix: ImgWPlus image methods leave the gridded data
 unchanged

---
 lsl/imaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 8c950a3..b44e429 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1459,7 +1459,7 @@ class ImgWPlus(aipy.img.ImgW):
         elif weighting == 'uniform':
             ## Uniform weighting
             wgt = self.bm[0].real
-            data *= 1.0/wgt
+            data = data * (1.0/wgt)
             data[np.where(wgt == 0)] = 0.0
             
         elif weighting == 'briggs':
@@ -1468,7 +1468,7 @@ class ImgWPlus(aipy.img.ImgW):
             wavg = wgt.sum()
             w2avg = (wgt**2).sum()
             S2 = 25 * 10**(-2*robust) / (w2avg / wavg)
-            data *= 1.0 / (1.0 + wgt*S2)
+            data = data * (1.0 / (1.0 + wgt*S2))
             data[np.where(wgt == 0)] = 0.0
             
         # Make sure that we have the right type to taper with
-- 
2.43.0


From c252c8ff33794939afa02a91d2de7435f1c33473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 63/78] fix: build_gridded_image combines all of the
 integrations of a VisibilityData

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index b44e429..38a17a9 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1701,7 +1701,9 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     if wgt.dtype != np.complex64:
         wgt = wgt.astype(np.complex64)
 
-    im.uv, im.bm[0], im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    uv, bm, im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    im.uv = im.uv + uv
+    im.bm[0] = im.bm[0] + bm
         
     # Update MJD, phase center, and antenna array information
     im.mjd = data_set.mjd
-- 
2.43.0


From 80a299b734f6e42409c49eac46e9ec052e2cc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 64/78] fix: ImgWPlus.wcs works for astro.equ_posn phase
 centers

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 38a17a9..ab070b3 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1599,7 +1599,9 @@ class ImgWPlus(aipy.img.ImgW):
             pc_dec = self._phase_center.dec
             pc_equinox = 'J2000'
             pc = FK5(ra=pc_ra*astrounits.deg, dec=pc_dec*astrounits.deg, equinox=pc_equinox)
-            pc = self._phase_center.transform_to(FK5(equinox=obs_t))
+            pc = pc.transform_to(FK5(equinox=obs_t))
+            pc_ra = pc.ra.deg
+            pc_dec = pc.dec.deg
         else:
             try:
                 pc = self._phase_center.transform_to(FK5(equinox=obs_t))
-- 
2.43.0


From 5021ae1e513c35b3fc681b9d7e3d4cddae94c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 65/78] fix: ImgWPlus tapers u and v along the axes they are
 gridded on

---
 lsl/imaging/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index ab070b3..483daad 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1481,7 +1481,8 @@ class ImgWPlus(aipy.img.ImgW):
             
         # Apply the taper
         if taper[0] > 0.0 or taper[1] > 0.0:
-            u,v = self.get_uv()
+            # The first axis of the gridded data is v, the second is u
+            v,u = self.get_uv()
             
             taper1 = 1.0
             if taper[0] > 0.0:
-- 
2.43.0


From 71c0d9244c73cfcba2e7813cc6d10b830f92b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 66/78] fix: build_sim_array accepts lists and integer arrays
 of frequencies

---
 lsl/sim/vis.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4cfe24c..2978b97 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -849,12 +849,9 @@ def build_sim_array(station, antennas, freq, jd=None, pos_error=0.0, force_flat=
     """
     
     # If the frequencies are in Hz, we need to convert to GHz
-    try:
-        freqs = freq.copy()
-    except AttributeError:
-        freqs = np.array(freq)
-        if freqs.shape == ():
-            freqs.shape = (1,)
+    freqs = np.array(freq, dtype=float)
+    if freqs.shape == ():
+        freqs.shape = (1,)
     if freqs.min() > 1e6:
         freqs /= 1.0e9
         
-- 
2.43.0


From f2c269ae97f3fd22b36ca1f6135d4e109cd6a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 67/78] fix: build_sim_data with flat_response gives every
 polarization its own data

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 2978b97..6a70289 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1110,7 +1110,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         ## Unpack the data and add it to the data set
         if p == 0:
             UVData.uvw = uvw1
-        pds = PolarizationDataSet(pol.upper(), data=vis1)
+        pds = PolarizationDataSet(pol.upper(), data=vis1.copy())
         UVData.append( pds )
         
     # Cleanup
-- 
2.43.0


From f3b0b7185572dde4fe3180ed010592447af79587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 68/78] fix: build_sim_data does not reshape the frequencies of
 the array in place

---
 lsl/sim/vis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 6a70289..baf9646 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1022,14 +1022,12 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         srcs_dc.append( srcDec )
         
         ## Source flux over the bandpass - corrected for the bandpass
-        jys = src.get_jys()
-        jys.shape = (1,nFreq)
+        jys = np.reshape(src.get_jys(), (1,nFreq))
         jys = Gij_sf * jys
         srcs_jy.append( jys )
         
         ## Frequencies that the fluxes correspond to
-        frq = aa.get_afreqs()
-        frq.shape = (1,nFreq)
+        frq = np.reshape(aa.get_afreqs(), (1,nFreq))
         srcs_fq.append( frq )
         
         ## Source shape parameters
-- 
2.43.0


From b968b41bce254046751a869e7fd43fff6970203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 69/78] fix: add_baseline_noise works for subsets of the
 antennas

---
 lsl/sim/vis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index baf9646..9817768 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1267,6 +1267,7 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
             ants.append( i )
         if j not in ants:
             ants.append( j )
+    ants.sort()
     nAnts = len(ants)
     try:
         if len(SEFD) != nAnts:
@@ -1278,7 +1279,7 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
     # Calculate the standard deviation of the real/imaginary noise
     visNoiseSigma = np.zeros((len(dataSet.baselines), len(dataSet.freq)))
     for k,(i,j) in enumerate(dataSet.baselines):
-        visNoiseSigma[k,:] = np.sqrt(SEFD[i]*SEFD[j])
+        visNoiseSigma[k,:] = np.sqrt(SEFD[ants.index(i)]*SEFD[ants.index(j)])
     visNoiseSigma *= 1 / efficiency / np.sqrt(2.0*bandwidth*tInt)
     
     # Build the VisibilityDataSet to hold the data with noise added
-- 
2.43.0


From 0fed9059e14b67ea28646b06522c980cebde8c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:19 +0000
Subject: [PATCH 70/78] fix: shift_data uses the phase center at the time of
 each integration

---
 lsl/sim/vis.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 9817768..dca95aa 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -47,6 +47,7 @@ which takes a dictionary of visibilities and returns and aipy.im.ImgW object.
 """
 
 import os
+import copy
 import aipy
 import math
 import ephem
@@ -1223,16 +1224,16 @@ def shift_data(dataSet, aa):
     # Build the VisibilityDataSet to hold the scaled and delayed data
     shftData = dataSet.copy(include_pols=True)
     
-    # Apply the coordinate shift
-    if isinstance(shftData, VisibilityData):
-        for data_set in shftData:
-            for b,(i,j) in enumerate(data_set.baselines):
-                crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
-                data_set.uvw[b,:] = crds
-    else:
-        for b,(i,j) in enumerate(shftData.baselines):
-            crds = aa.gen_uvw(j, i, src=shftData.phase_center)[:,0,:]
-            shftData.uvw[b,:] = crds
+    # Apply the coordinate shift, each integration at its own time
+    aa = copy.copy(aa)
+    data_sets = shftData if isinstance(shftData, VisibilityData) else [shftData,]
+    for data_set in data_sets:
+        aa.set_jultime(data_set.jd)
+        if not isinstance(data_set.phase_center, str):
+            data_set.phase_center.compute(aa)
+        for b,(i,j) in enumerate(data_set.baselines):
+            crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
+            data_set.uvw[b,:] = crds
             
     return shftData
 
-- 
2.43.0


From dbe2a59438813aeb55e3a92ad1db80c7b4818698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 71/78] fix: robust.mode ignored the closer upper pair of three
 values

---
 lsl/statistics/robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 61677c3..53781d8 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -173,7 +173,7 @@ def mode(inputData, axis=None, dtype=None):
                 i2 = data[2] - data[1]
                 if i1 < i2:
                     return data[:2].mean()
-                elif i2 > i1:
+                elif i2 < i1:
                     return data[1:].mean()
                 else:
                     return data[1]
-- 
2.43.0


From e902ff35534ad18e43c59689f85cc01b2b8f7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 72/78] fix: robust.mode skipped the last half sample and
 failed for constant data

---
 lsl/statistics/robust.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 53781d8..84894e8 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -180,7 +180,8 @@ def mode(inputData, axis=None, dtype=None):
             else:
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
-                for i in range(0, N):
+                j = 0
+                for i in range(0, data.size-N+1):
                     w = data[i+N-1] - data[i] 
                     if w < wMin:
                         wMin = w
-- 
2.43.0


From 088fd534549de191f6ea82dbde7425ac87af1715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 73/78] fix: robust.polyfit of order zero left out the mean of
 the data

---
 lsl/statistics/robust.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 84894e8..82bef60 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -488,7 +488,9 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
 def __polyfit_rescale(coeffs, x0, y0):
     order = len(coeffs)-1
     
-    if order == 1:
+    if order == 0:
+        coeffs[0] = coeffs[0] + y0
+    elif order == 1:
         coeffs[0] = coeffs[0]-coeffs[1]*x0 + y0
     elif order == 2:
         coeffs[0] = coeffs[0]-coeffs[1]*x0+coeffs[2]*x0**2 + y0
-- 
2.43.0


From c97d43e3e711689ce20d7a59db33381596e2aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 74/78] fix: robust fits failed for masked arrays with nothing
 masked

---
 lsl/statistics/robust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 82bef60..c6f2852 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -317,7 +317,7 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
     xIn = inputX.ravel()
     yIn = inputY.ravel()
     if type(yIn).__name__ == "MaskedArray":
-        xIn = xIn.compress(np.logical_not(yIn.mask))
+        xIn = xIn.compress(np.logical_not(np.ma.getmaskarray(yIn)))
         yIn = yIn.compressed()
     n = len(xIn)
     
@@ -524,7 +524,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
     x = inputX.ravel()
     y = inputY.ravel()
     if type(y).__name__ == "MaskedArray":
-        x = x.compress(np.logical_not(y.mask))
+        x = x.compress(np.logical_not(np.ma.getmaskarray(y)))
         y = y.compressed()
     n = len(x)
     
-- 
2.43.0


From 8c4e1b370db84f5302acc48a200d98ae0fbc8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 75/78] fix: spectral kurtosis used the length of the first
 axis for every axis

---
 lsl/statistics/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index f1f76c4..a34a5c8 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -160,7 +160,7 @@ def spectral_power(x, N=1, axis=None):
     should be ~1.
     """
     
-    M = len(x)
+    M = x.size if axis is None else x.shape[axis]
     
     k = M*(x**2).sum(axis=axis)/(x.sum(axis=axis))**2 - 1.0
     k *= (M*N+1)/(M-1)
-- 
2.43.0


From 7500ad7cbcd008ba83f50823cc84776ca1aa9be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:24 +0000
Subject: [PATCH 76/78] fix: coherent dedispersion failed for dispersions of
 less than a sample

---
 lsl/misc/dedispersion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 654acd6..af6ebbb 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -106,6 +106,7 @@ def get_coherent_sample_size(central_freq, sample_rate, dm):
 
     delayBand = dm*_D *((1e6/(F0-BW/2.0))**2 - (1e6/(F0+BW/2.0))**2)	# Dispersion delay across the band
     samples = delayBand*BW									# Conversion to samples
+    samples = max([samples, 2.0])								# Always have at least two samples
     samples = 2**(np.ceil(np.log(samples)/np.log(2)))		# Conversion to next largest power of 2
     samples *= 2											# Correction for the 'wings' of the convolution
     
-- 
2.43.0


From 487e22d76a1633c74345c5c27b4f210168e491ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 77/78] fix: coherent dedispersion left out the end of the data

---
 lsl/misc/dedispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index af6ebbb..e6b8efb 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -199,7 +199,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         raise RuntimeWarning("Too few data samples for proper dedispersion")
         
     # Go!
-    for i in range(2*nSets+1):
+    for i in range(-(-timeseries.size // (N//2))):
         start = N//2*i - N//4
         stop = start + N
         
@@ -255,7 +255,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
         if i == 0 and previous_data is None:
             continue
-        if i == (2*nSets) and next_data is None:
+        if i >= (2*nSets) and next_data is None:
             continue
             
         outT[outStart:outStop] = timeOut[dataStart:dataStop]
-- 
2.43.0


From 31886a1c12e50cc1fff085b3383fa5a1d99ed128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 78/78] fix: kurtosis.get_limits left the numpy error handling
 changed when it failed

---
 lsl/statistics/kurtosis.py | 47 +++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index a34a5c8..bd484da 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -110,34 +110,29 @@ def get_limits(sigma, M, N=1):
     """
     
     # Adjust the NumPy error levels so that we know when ppf() may be suspect
-    errLevels = np.geterr()
-    np.seterr(all='raise')
-    
-    # Convert the sigma to a fraction for the high and low clip levels
-    percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
-    
-    # Build the Pearson type VI distribution function - parameters then instance
-    a = _alpha(M, N)
-    b = _beta(M, N)
-    d = _delta(M, N)
-    
-    rv = betaprime(a, b, loc=d)
-    
-    # Try to get a realistic lower limit, giving up if we hit an overflow error
-    try:
-        lower = rv.ppf(percentClip)
-    except FloatingPointError:
-        lower = mean(M, N) - sigma*std(M, N)
+    with np.errstate(all='raise'):
+        # Convert the sigma to a fraction for the high and low clip levels
+        percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
         
-    # Try to get a realistic upper limit, giving up if we hit an overflow error
-    try:
-        upper = rv.ppf(1.0-percentClip)
-    except FloatingPointError:
-        upper = mean(M, N) + sigma*std(M, N)
+        # Build the Pearson type VI distribution function - parameters then instance
+        a = _alpha(M, N)
+        b = _beta(M, N)
+        d = _delta(M, N)
         
-    # Restore the NumPy error levels
-    np.seterr(**errLevels)
-    
+        rv = betaprime(a, b, loc=d)
+        
+        # Try to get a realistic lower limit, giving up if we hit an overflow error
+        try:
+            lower = rv.ppf(percentClip)
+        except FloatingPointError:
+            lower = mean(M, N) - sigma*std(M, N)
+        
+        # Try to get a realistic upper limit, giving up if we hit an overflow error
+        try:
+            upper = rv.ppf(1.0-percentClip)
+        except FloatingPointError:
+            upper = mean(M, N) + sigma*std(M, N)
+            
     return lower, upper
 
 
-- 
2.43.0

