From cc18b310c8d59793496e412f43eb31dc0ecd9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 001/118] fix: NamedParams.setStepSizes indexed the thawed step
 sizes by raw index and modified class-level defaults

---
 tractor/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2a30fa3..38fa3ea 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -453,8 +453,11 @@ class NamedParams(object):
                     newss.append(1.)
             self.stepsizes = newss
         else:
-            for i, s in self._enumerateLiquidArray(ss):
-                self.stepsizes[i] = s
+            # don't modify a list that may be shared (eg, class-level defaults)
+            newss = list(self.stepsizes)
+            for i, j in self._indexBoth():
+                newss[j] = ss[i]
+            self.stepsizes = newss
 
     def setAllStepSizes(self, ss):
         self.stepsizes = ss
-- 
2.43.0


From a8b7ef73da981fe6078087e328a32ab4b7375750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 002/118] fix: NpArrayParams and MogParams returned empty
 bounds and max-step lists

---
 tractor/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 38fa3ea..4f89620 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1279,7 +1279,7 @@ class NpArrayParams(ParamList):
 
     def __init__(self, a):
         self.a = np.array(a)
-        super(NpArrayParams, self).__init__()
+        super(NpArrayParams, self).__init__(*self.a.ravel())
         del self.vals
         # from NamedParams...
         # active/inactive
@@ -1336,7 +1336,7 @@ class MogParams(ParamList):
         self.mog = mp.MixtureOfGaussians(amp, mean, var)
         K = self.mog.K
         assert(self.mog.D == 2)
-        super(MogParams, self).__init__()
+        super(MogParams, self).__init__(*self._getThings())
         # drop the ParamList storage
         del self.vals
         self._set_param_names(K)
-- 
2.43.0


From 67032759bed6d9f8a3e90113f6dfe677afea48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 003/118] fix: MultiParams all-step-size accessors failed on
 None sub-params

---
 tractor/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/utils.py b/tractor/utils.py
index 4f89620..4045003 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1220,6 +1220,8 @@ class MultiParams(BaseParams, NamedParams):
     def getAllStepSizes(self, *args, **kwargs):
         p = []
         for s in self.subs:
+            if s is None:
+                continue
             p.extend(s.getAllStepSizes(*args, **kwargs))
         return p
 
@@ -1233,6 +1235,8 @@ class MultiParams(BaseParams, NamedParams):
     def setAllStepSizes(self, ss):
         off = 0
         for sub in self.subs:
+            if sub is None:
+                continue
             n = len(sub.getAllParams())
             sub.setAllStepSizes(ss[off: off + n])
             off += n
-- 
2.43.0


From 2146aaea16aa1d279338daf2516081414b0892ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 004/118] fix: thawParam(object) compared parameters by value
 rather than identity

---
 tractor/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 4045003..7b88ff4 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -593,7 +593,8 @@ class NamedParams(object):
             assert(i is not None)
         else:
             # assume it's an actual Param, not a name
-            i = self._getThings().index(paramname)
+            # (compare by identity: ScalarParams compare by value)
+            i = [p is paramname for p in self._getThings()].index(True)
 
         self.liquid[i] = True
 
-- 
2.43.0


From fdad7d0363edb4904107bdf3136152677a98410d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:18 +0000
Subject: [PATCH 005/118] fix: EllipseESoft.getAllStepSizes raised
 AttributeError

---
 tractor/ellipses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index f6810af..ef3e28f 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -222,8 +222,9 @@ class EllipseESoft(EllipseE):
         ee2 = ee * math.sin(angle)
         return (math.log(r), ee1, ee2)
 
-    # def getAllStepSizes(self, *args, **kwargs):
-    #    return [0.01] * 3
+    # The superclass looks at e1,e2, which this class does not have.
+    def getAllStepSizes(self, *args, **kwargs):
+        return list(self.stepsizes)
 
     def __repr__(self):
         return 'log r_e=%.3f, ee1=%.3f, ee2=%.3f' % (self.logre, self.ee1, self.ee2)
-- 
2.43.0


From eb6be8a02ffb5aef3c0a0f36606311d9f39f4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:08 +0000
Subject: [PATCH 006/118] fix: Image.copy lost the frozen/thawed state and
 rendering tolerance

---
 tractor/image.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tractor/image.py b/tractor/image.py
index 970aeb7..9675e6b 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -70,14 +70,17 @@ class Image(MultiParams):
         time = self.time
         if self.time is not None:
             time = time.copy()
-        return self.__class__(data=self.data.copy(),
-                              inverr=self.inverr.copy(),
-                              wcs=self.wcs.copy(),
-                              psf=self.psf.copy(),
-                              sky=self.sky.copy(),
-                              photocal=self.photocal.copy(),
-                              name=self.name,
-                              time=time)
+        cop = self.__class__(data=self.data.copy(),
+                             inverr=self.inverr.copy(),
+                             wcs=self.wcs.copy(),
+                             psf=self.psf.copy(),
+                             sky=self.sky.copy(),
+                             photocal=self.photocal.copy(),
+                             name=self.name,
+                             time=time, zr=self.zr)
+        cop.liquid = list(self.liquid)
+        cop.modelMinval = self.modelMinval
+        return cop
 
     def subimage(self, x0, x1, y0, y1):
         slc = (slice(y0, y1), slice(x0, x1))
-- 
2.43.0


From 9b016268e3c8273c366b997611fda1b958079684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 007/118] fix: copies of multi-band brightnesses lost their
 frozen/thawed state

---
 tractor/brightness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 63f7237..748c407 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -60,7 +60,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
                                    for i, k in enumerate(self.order)))
 
     def copy(self):
-        return self * 1.
+        c = self * 1.
+        c.liquid = list(self.liquid)
+        return c
 
     def getBand(self, band):
         return getattr(self, band)
-- 
2.43.0


From 83d9c4d7cea00765d01958fd77d1bd3000b38994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 008/118] fix: MagsPhotoCal.copy lost its frozen/thawed state

---
 tractor/brightness.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 748c407..9bc9620 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -281,7 +281,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         ParamList.__init__(self, zeropoint)
 
     def copy(self):
-        return MagsPhotoCal(self.band, self.zp)
+        c = MagsPhotoCal(self.band, self.zp)
+        c.liquid = list(self.liquid)
+        return c
 
     @staticmethod
     def getNamedParams():
-- 
2.43.0


From 11fa3a375e6db1575fd6c31e988818c075e11ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 009/118] fix: NpArrayParams.copy raised TypeError

---
 tractor/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/utils.py b/tractor/utils.py
index 7b88ff4..2943d56 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -1297,6 +1297,11 @@ class NpArrayParams(ParamList):
             return getattr(self.a, name)
         raise AttributeError()  # name + ': no such attribute in NpArrayParams.__getattr__')
 
+    def copy(self):
+        c = self.__class__(self.a)
+        c.liquid = list(self.liquid)
+        return c
+
     def __getstate__(self): return self.__dict__
 
     def __setstate__(self, d): self.__dict__.update(d)
-- 
2.43.0


From 1b5d99e249515fc72e5a1500e5d8343ae05d30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:27 +0000
Subject: [PATCH 010/118] fix: NCircularGaussianPSF.copy dropped frozen
 components and frozen/thawed state

---
 tractor/psf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 033a2da..622d093 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -872,8 +872,12 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         return hk
 
     def copy(self):
-        return NCircularGaussianPSF(list([s for s in self.sigmas]),
-                                    list([w for w in self.weights]))
+        c = NCircularGaussianPSF(list(self.mysigmas), list(self.myweights))
+        c.sigmas.liquid = list(self.sigmas.liquid)
+        c.weights.liquid = list(self.weights.liquid)
+        c.liquid = list(self.liquid)
+        c.minradius = self.minradius
+        return c
 
     def applyTo(self, image):
         from scipy.ndimage.filters import gaussian_filter
-- 
2.43.0


From b83f4cc3032cb9752d856c87531eef339f3a06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 011/118] fix: PixelizedPSF.copy dropped the sampling and
 interpolation order

---
 tractor/psf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 622d093..7012982 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -118,7 +118,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return ('PixelizedPSF', tuple(self.img.ravel()))
 
     def copy(self):
-        return self.__class__(self.img.copy())
+        return self.__class__(self.img.copy(), sampling=self.sampling,
+                              Lorder=self.Lorder)
 
     def getShifted(self, x0, y0):
         # not spatially varying
-- 
2.43.0


From a1e43bfd9f952eb87fb10f645c8b17dc5421f3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 012/118] fix: NullWCS.copy dropped the pixel scale and offsets

---
 tractor/wcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 36ca902..a0bd12a 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -22,6 +22,9 @@ class NullWCS(BaseParams, ducks.WCS):
     def hashkey(self):
         return ('NullWCS', self.dx, self.dy)
 
+    def copy(self):
+        return self.__class__(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
+
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
         self.cd = np.array([[1., 0.], [0., 1.]]) *  self.pixscale / 3600.
-- 
2.43.0


From 298c0d5ec1f76b62c906b6f620db1d4ec28f461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 013/118] fix: NullWCS.shifted ignored the shift

---
 tractor/wcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index a0bd12a..cdc0556 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -49,7 +49,8 @@ class NullWCS(BaseParams, ducks.WCS):
         return self.pixscale
 
     def shifted(self, x, y):
-        return self.copy()
+        return self.__class__(pixscale=self.pixscale, dx=self.dx - x,
+                              dy=self.dy - y)
 
 
 class WcslibWcs(BaseParams, ducks.ImageCalibration):
-- 
2.43.0


From 9cf9cff5af1cef1a2f18cc5923a909dc6ffef034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:44 +0000
Subject: [PATCH 014/118] fix: TanWcs could not be constructed on Python 3

---
 tractor/wcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index cdc0556..adbf934 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -296,7 +296,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         self.x0 = 0
         self.y0 = 0
 
-        if isinstance(wcs, basestring):
+        if isinstance(wcs, str):
             from astrometry.util.util import Tan
             wcs = Tan(wcs, hdu)
 
-- 
2.43.0


From 8cbeb8cb3185e2b43e0967e6532cb686217e2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 015/118] fix: SersicGalaxy.copy lost its frozen/thawed state

---
 tractor/sersic.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 33263c5..276962a 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -388,10 +388,6 @@ class SersicGalaxy(HoggGalaxy):
     def getProfile(self):
         return SersicMixture.getProfile(self.sersicindex.val)
 
-    def copy(self):
-        return SersicGalaxy(self.pos.copy(), self.brightness.copy(),
-                            self.shape.copy(), self.sersicindex.copy())
-
     def _getUnitFluxDeps(self, img, px, py):
         return hash(('unitpatch', self.getName(), px, py,
                      img.getWcs().hashkey(),
-- 
2.43.0


From 825e8b5940e4385ec092edc481de4103bbfe2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 016/118] fix: MovingPointSource.copy failed

---
 tractor/motion.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index cbdcac0..6f77d52 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -62,8 +62,17 @@ class MovingPointSource(PointSource):
         assert(type(pm) is PMRaDec)
         super(PointSource, self).__init__(pos, brightness, pm,
                                           Parallax(parallax))
+        self.fixedRadius = None
+        self.minRadius = None
         self.epoch = epoch
 
+    def copy(self):
+        c = self.__class__(self.pos.copy(), self.brightness.copy(),
+                           self.pm.copy(), self.parallax.getValue(),
+                           epoch=self.epoch)
+        c.liquid = list(self.liquid)
+        return c
+
     @staticmethod
     def getNamedParams():
         return dict(pos=0, brightness=1, pm=2, parallax=3)
-- 
2.43.0


From 4e65e2521cf03fef64f8e724ad0fffcc78c00a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 017/118] fix: TanWcs.copy lost its frozen/thawed state

---
 tractor/wcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index adbf934..6549828 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -308,6 +308,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
         from astrometry.util.util import Tan
         wcs = self.__class__(Tan(self.wcs))
         wcs.setX0Y0(self.x0, self.y0)
+        wcs.liquid = list(self.liquid)
         return wcs
 
     def shifted(self, dx, dy):
-- 
2.43.0


From b5357722ad5814dae7b9a19d6b9d49cf392b36f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:29 +0000
Subject: [PATCH 018/118] fix: TanWcs kept reporting its original CD matrix
 after a CD parameter was changed

---
 tractor/wcs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 6549828..446a965 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -166,7 +166,9 @@ class ConstantFitsWcs(ParamList, ducks.WCS):
         self.y0 = 0
         super(ConstantFitsWcs, self).__init__()
         self.wcs = wcs
+        self._cacheCd()
 
+    def _cacheCd(self):
         cd = self.wcs.get_cd()
         self.cd = np.array([[cd[0], cd[1]], [cd[2], cd[3]]])
 
@@ -333,6 +335,7 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
             cd = list(w.get_cd())
             cd[i - 4] = val
             w.set_cd(*cd)
+            self._cacheCd()
         elif i == 8:
             self.x0 = val
         elif i == 9:
-- 
2.43.0


From 681da7a17f058317e9061c2c20395095450a4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:28 +0000
Subject: [PATCH 019/118] fix: Patch.clipTo claimed success for a patch
 entirely left of or below the image

---
 tractor/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/patch.py b/tractor/patch.py
index 4e5e120..cd3875e 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -248,6 +248,9 @@ class Patch(object):
         if self.y0 >= H:
             self.patch = None
             return False
+        if self.x1 <= 0 or self.y1 <= 0:
+            self.patch = None
+            return False
         # debug
         #o0 = (self.x0, self.y0, self.patch.shape)
         if self.x0 < 0:
-- 
2.43.0


From 39d315c0ba90cf10a7b3fdcff73aef31f36e71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:28 +0000
Subject: [PATCH 020/118] fix: Patch division operators were unavailable on
 Python 3

---
 tractor/patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/patch.py b/tractor/patch.py
index cd3875e..3e1a27e 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -390,7 +390,7 @@ class Patch(object):
             self.patch *= f
         return self
 
-    def __idiv__(self, f):
+    def __itruediv__(self, f):
         if self.patch is not None:
             self.patch /= f
         return self
@@ -401,7 +401,7 @@ class Patch(object):
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch * f)
 
-    def __div__(self, f):
+    def __truediv__(self, f):
         if self.patch is None:
             return Patch(self.x0, self.y0, None)
         return Patch(self.x0, self.y0, self.patch / f)
-- 
2.43.0


From ddd6ca2719e93940f60515fe324d281239a2fcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:28 +0000
Subject: [PATCH 021/118] fix: Patch addition and subtraction crashed when one
 operand has no image

---
 tractor/patch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tractor/patch.py b/tractor/patch.py
index 3e1a27e..11a25c3 100644
--- a/tractor/patch.py
+++ b/tractor/patch.py
@@ -419,9 +419,16 @@ class Patch(object):
             op = getattr(pcopy, opname)
             return Patch(self.x0, self.y0, op(other.patch))
 
-        (ph, pw) = self.patch.shape
         (ox0, oy0) = other.getX0(), other.getY0()
         (oh, ow) = other.shape
+        # An absent image is zero everywhere.
+        if other.patch is None:
+            return self.copy()
+        if self.patch is None:
+            p = np.zeros((oh, ow), dtype=otype)
+            getattr(p, opname)(other.getImage())
+            return Patch(ox0, oy0, p)
+        (ph, pw) = self.patch.shape
 
         # Find the union of the regions.
         ux0 = min(ox0, self.x0)
-- 
2.43.0


From 4a42a00a9c753fb7b5a44810779047a0519f222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 022/118] fix: getGaussianPriors reported raw parameter indices
 when some parameters are frozen

---
 tractor/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 2943d56..844e98b 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -98,8 +98,13 @@ class _GaussianPriors(object):
             chisq += (p[i] - mu)**2 / sigma**2
         return -0.5 * chisq
 
-    def getGaussianPriors(self):
-        return [(i, mu, sigma) for name, i, mu, sigma in self.terms]
+    def getGaussianPriors(self, param=None):
+        if param is None:
+            param = self.param
+        # indices are in the space of liquid params; drop frozen ones.
+        terms = [(param.getLiquidIndexOfIndex(j), mu, sigma)
+                 for name, j, mu, sigma in self.terms]
+        return [(i, mu, sigma) for i, mu, sigma in terms if i != -1]
 
     def getDerivs(self, param=None):
         '''
@@ -163,7 +168,7 @@ class GaussianPriorsMixin(object):
         return self.gpriors.getDerivs(param=self)
 
     def getGaussianPriors(self):
-        return self.gpriors.getGaussianPriors()
+        return self.gpriors.getGaussianPriors(param=self)
 
     def isLegal(self):
         '''
-- 
2.43.0


From fe904f0aa390998db8774a182de6c407ebfcc585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 023/118] fix: lanczos_shift_image ignored inplace=True in its
 python fallback (small or huge images), so galaxies were rendered unshifted

---
 tractor/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index 7012982..3e102e8 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -46,6 +46,8 @@ def lanczos_shift_image(img, dx, dy, inplace=False, force_python=False):
         Ly /= Ly.sum()
         sx     = correlate1d(img, Lx, axis=1, mode='constant')
         outimg = correlate1d(sx,  Ly, axis=0, mode='constant')
+        if inplace:
+            img[:,:] = outimg
         return outimg
 
     outimg = np.empty(img.shape, np.float32)
-- 
2.43.0


From 746e2f608e43887ecac82012995a7d7e064b23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:55 +0000
Subject: [PATCH 024/118] fix: PixelizedPSF with a radius dropped the last row
 and column of the PSF stamp

---
 tractor/psf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 3e102e8..c032fa2 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -154,8 +154,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             H,W = img.shape
             cx = W//2
             cy = H//2
-            img = img[max(cy-R, 0) : min(cy+R+1,H-1),
-                      max(cx-R, 0) : min(cx+R+1,W-1)]
+            img = img[max(cy-R, 0) : min(cy+R+1,H),
+                      max(cx-R, 0) : min(cx+R+1,W)]
             
         H, W = img.shape
         # float() required because builtin round(np.float64(11.0)) returns 11.0 !!
@@ -340,8 +340,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
             cy = H//2
             xlo = max(cx-R, 0)
             ylo = max(cy-R, 0)
-            img = img[ylo : min(cy+R+1,H-1),
-                      xlo : min(cx+R+1,W-1)]
+            img = img[ylo : min(cy+R+1,H),
+                      xlo : min(cx+R+1,W)]
             x0 += xlo
             y0 += ylo
 
-- 
2.43.0


From b6a0cb84a905921c6be43c7907e8c2fa7bd553fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:54 +0000
Subject: [PATCH 025/118] fix: ShiftedPsf did not shift clipExtent and failed
 with a model mask

---
 tractor/shifted.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 8613ba4..5473fa8 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -77,20 +77,27 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
         return ('ShiftedPsf', self.x0, self.y0) + self.psf.hashkey()
 
     def getPointSourcePatch(self, px, py, extent=None, derivs=False,
-                            modelMask=None, **kwargs):
+                            modelMask=None, clipExtent=None, **kwargs):
         if extent is not None:
             (ex0, ex1, ey0, ey1) = extent
             extent = (ex0 + self.x0, ex1 + self.x0,
                       ey0 + self.y0, ey1 + self.y0)
+        if clipExtent is not None:
+            (cx0, cx1, cy0, cy1) = clipExtent
+            clipExtent = (cx0 + self.x0, cx1 + self.x0,
+                          cy0 + self.y0, cy1 + self.y0)
         mm = None
         if modelMask is not None:
-            from .patch import Patch
-            mm = Patch(modelMask.x0 + self.x0, modelMask.y0 +
-                       self.y0, modelMask.patch)
+            from .patch import ModelMask
+            args = ((modelMask.w, modelMask.h) if modelMask.mask is None
+                    else (modelMask.mask,))
+            mm = ModelMask(modelMask.x0 + self.x0, modelMask.y0 + self.y0,
+                           *args)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
                                          extent=extent, derivs=derivs,
-                                         modelMask=mm, **kwargs)
+                                         modelMask=mm, clipExtent=clipExtent,
+                                         **kwargs)
         # Now we have to shift the patch back too
         if p is None:
             return None
-- 
2.43.0


From a73c822eea85d5edbab2ff131c850b1bc34076d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:54 +0000
Subject: [PATCH 026/118] fix: ShiftedWcs, ScaledWcs and WcslibWcs could not be
 used with galaxies (no inverse CD matrix or pixel scale)

---
 tractor/shifted.py | 4 ++--
 tractor/wcs.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 5473fa8..6337713 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -138,7 +138,7 @@ class ScaledPhotoCal(ParamsWrapper, ducks.ImageCalibration):
         return self.factor * self.pc.brightnessToCounts(brightness)
 
 
-class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
+class ScaledWcs(ParamsWrapper, ducks.WCS):
     def __init__(self, wcs, factor):
         super(ScaledWcs, self).__init__(wcs)
         self.factor = factor
@@ -159,7 +159,7 @@ class ScaledWcs(ParamsWrapper, ducks.ImageCalibration):
                 (y + 0.5) * self.factor - 0.5)
 
 
-class ShiftedWcs(ParamsWrapper, ducks.ImageCalibration):
+class ShiftedWcs(ParamsWrapper, ducks.WCS):
     '''
     Wraps a WCS in order to use it for a subimage.
     '''
diff --git a/tractor/wcs.py b/tractor/wcs.py
index 446a965..278a682 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -53,7 +53,7 @@ class NullWCS(BaseParams, ducks.WCS):
                               dy=self.dy - y)
 
 
-class WcslibWcs(BaseParams, ducks.ImageCalibration):
+class WcslibWcs(BaseParams, ducks.WCS):
     '''
     A WCS implementation that wraps a FITS WCS object (with a pixel
     offset), delegating to wcslib.
-- 
2.43.0


From 2876bd4514bb41ec598cad0aa96d7d85379fff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:54 +0000
Subject: [PATCH 027/118] fix: ScaledWcs.cdAtPixel multiplied instead of
 divided the y coordinate by the scale

---
 tractor/shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 6337713..06f2a3a 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -148,7 +148,7 @@ class ScaledWcs(ParamsWrapper, ducks.WCS):
         return ('ScaledWcs', self.factor) + tuple(self.wcs.hashkey())
 
     def cdAtPixel(self, x, y):
-        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) * self.factor - 0.5
+        x, y = (x + 0.5) / self.factor - 0.5, (y + 0.5) / self.factor - 0.5
         cd = self.wcs.cdAtPixel(x, y)
         return cd / self.factor
 
-- 
2.43.0


From f1ded3fe7cd1407e2a02e6e88d48496c93a543a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:27 +0000
Subject: [PATCH 028/118] fix: taking a subimage of a subimage failed with
 ShiftedPsf (spatially varying PSFs) and ShiftedWcs

---
 tractor/shifted.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 06f2a3a..f09c2e9 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -117,6 +117,9 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
     def getRadius(self):
         return self.psf.getRadius()
 
+    def getShifted(self, x0, y0):
+        return self.__class__(self.psf, self.x0 + x0, self.y0 + y0)
+
     def _getMixtureOfGaussians(self, px=None, py=None, **kwargs):
         if px is not None:
             px = px + self.x0
@@ -185,6 +188,9 @@ class ShiftedWcs(ParamsWrapper, ducks.WCS):
     def hashkey(self):
         return ('ShiftedWcs', self.x0, self.y0) + tuple(self.wcs.hashkey())
 
+    def shifted(self, dx, dy):
+        return self.__class__(self.wcs, self.x0 + dx, self.y0 + dy)
+
     def cdAtPixel(self, x, y):
         return self.wcs.cdAtPixel(x + self.x0, y + self.y0)
 
-- 
2.43.0


From 3ca5e7365c15ecb26751d5337837d5f6ee6b5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 029/118] fix: ShiftedPsf passed an extent argument that masked
 Gaussian-mixture evaluation does not accept

---
 tractor/shifted.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index f09c2e9..60467fd 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -80,8 +80,8 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
                             modelMask=None, clipExtent=None, **kwargs):
         if extent is not None:
             (ex0, ex1, ey0, ey1) = extent
-            extent = (ex0 + self.x0, ex1 + self.x0,
-                      ey0 + self.y0, ey1 + self.y0)
+            kwargs.update(extent=(ex0 + self.x0, ex1 + self.x0,
+                                  ey0 + self.y0, ey1 + self.y0))
         if clipExtent is not None:
             (cx0, cx1, cy0, cy1) = clipExtent
             clipExtent = (cx0 + self.x0, cx1 + self.x0,
@@ -95,9 +95,8 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
                            *args)
 
         p = self.psf.getPointSourcePatch(self.x0 + px, self.y0 + py,
-                                         extent=extent, derivs=derivs,
-                                         modelMask=mm, clipExtent=clipExtent,
-                                         **kwargs)
+                                         derivs=derivs, modelMask=mm,
+                                         clipExtent=clipExtent, **kwargs)
         # Now we have to shift the patch back too
         if p is None:
             return None
-- 
2.43.0


From e2034a1d02e880265225b0250b10ef0f51dcfd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:25 +0000
Subject: [PATCH 030/118] fix: NCircularGaussianPSF crashed rendering a star
 whose stamp misses the clipping region (e.g. spatially varying PSFs near a
 subimage)

---
 tractor/psf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index c032fa2..99d9e9d 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -924,6 +924,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             x1 = min(x1, xh)
             y0 = max(y0, yl)
             y1 = min(y1, yh)
+        if x0 >= x1 or y0 >= y1:
+            return None
         # UGH - API question -- is the getMixtureOfGaussians() result read-only?
         mix = self.getMixtureOfGaussians()
         oldmean = mix.mean
-- 
2.43.0


From e45bcc63a1fdd1a7e564b30fbe116655d4ae78c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 031/118] fix: derivatives with respect to RA were missing a
 factor cos(Dec)

---
 tractor/ducks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/ducks.py b/tractor/ducks.py
index 25f7b4e..b7d84a7 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -412,7 +412,11 @@ class WCS(ImageCalibration, Params):
 
     def pixelDerivsToPositionDerivs(self, pos, src, counts0, patch0, patchdx, patchdy):
         # Convert x,y derivatives to Position derivatives
-        cdi = self.cdInverseAtPosition(pos, src=src)
+        import numpy as np
+        cdi = np.array(self.cdInverseAtPosition(pos, src=src))
+        if hasattr(pos, 'dec'):
+            # The CD matrix is with respect to RA*cos(Dec), not RA.
+            cdi[:, 0] *= np.cos(np.deg2rad(pos.dec))
         # Get thawed Position parameter indices
         derivs = []
         for i,pname in pos.getThawedParamIndicesAndNames():
-- 
2.43.0


From 4a215a9fd3e27dfb40764a55621217f45f91f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:50 +0000
Subject: [PATCH 032/118] fix: position derivatives of galaxies and masked
 stars were 3600/pixscale times too large in pixel coordinates (NullWCS)

---
 tractor/wcs.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 278a682..6ea055a 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -45,6 +45,15 @@ class NullWCS(BaseParams, ducks.WCS):
     def cdInverseAtPosition(self, pos, src=None):
         return self.cd_inverse
 
+    def pixelDerivsToPositionDerivs(self, pos, src, counts0, patch0, patchdx, patchdy):
+        # Positions are in pixels, whatever the pixel scale.
+        derivs = []
+        for i,pname in pos.getThawedParamIndicesAndNames():
+            deriv = (patchdx, patchdy)[i] * counts0
+            deriv.setName('d(ptsrc)/d(pos.%s)' % pname)
+            derivs.append(deriv)
+        return derivs
+
     def pixscale_at(self, x, y):
         return self.pixscale
 
-- 
2.43.0


From cf4fa9e807d2cfd20e467693403d7372847844d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:58 +0000
Subject: [PATCH 033/118] fix: FixedCompositeGalaxy returned extra (misaligned)
 derivatives when its brightness is frozen

---
 tractor/galaxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 27117ac..3501a53 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -948,6 +948,9 @@ class FixedCompositeGalaxy(MultiParams, ProfileGalaxy, SingleProfileSource):
         if self.isParamFrozen('pos'):
             e.freezeParam('pos')
             d.freezeParam('pos')
+        if self.isParamFrozen('brightness'):
+            e.freezeParam('brightness')
+            d.freezeParam('brightness')
         if self.isParamFrozen('shapeExp'):
             e.freezeParam('shape')
         if self.isParamFrozen('shapeDev'):
-- 
2.43.0


From 75baf7ee870da90a46ca3a057d753e201473321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:20 +0000
Subject: [PATCH 034/118] fix: SersicGalaxy returned one derivative too many
 when it does not touch the image

---
 tractor/sersic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/sersic.py b/tractor/sersic.py
index 276962a..8fa8ac5 100644
--- a/tractor/sersic.py
+++ b/tractor/sersic.py
@@ -404,7 +404,7 @@ class SersicGalaxy(HoggGalaxy):
         pos0 = self.getPosition()
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         if patch0 is None:
-            derivs.append(None)
+            # superclass returned None for every parameter
             return derivs
         counts = img.getPhotoCal().brightnessToCounts(self.brightness)
 
@@ -434,6 +434,7 @@ class SersicGalaxy(HoggGalaxy):
                     print('  stepped', step)
                     print('  to', self.sersicindex.getParams()[i])
                     derivs.append(None)
+                    continue
 
                 dx = (newpatch - patch0) * (counts / step)
                 dx.setName('d(%s)/d(%s)' % (self.dname, inames[i]))
-- 
2.43.0


From 6c5dbf6b64ec891f8329c433dc0b2f632323aaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 035/118] fix: Tractor.getDerivs with model keyword arguments
 failed when an image is thawed

---
 tractor/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/image.py b/tractor/image.py
index 9675e6b..4964ef9 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -101,7 +101,7 @@ class Image(MultiParams):
     def getTime(self):
         return self.time
 
-    def getParamDerivatives(self, tractor, srcs):
+    def getParamDerivatives(self, tractor, srcs, **kwargs):
         '''
         Returns a list of Patch objects, one per numberOfParams().
         Note that this means you have to pay attention to the
-- 
2.43.0


From 6dd0fc2046216698dc32039430310ed7703f9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:13 +0000
Subject: [PATCH 036/118] fix: Tractor.getDerivs put None patches in its result
 when a calibration reports no derivative (None), as documented

---
 tractor/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tractor/engine.py b/tractor/engine.py
index 5083070..14c8119 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -320,6 +320,10 @@ class Tractor(MultiParams):
                         img.setParam(di, oldval)
                         deriv = Patch(0, 0, (mod - mod0) / stepsizes[di])
                         deriv.name = 'd(im%i)/d(%s)' % (i, paramnames[di])
+                    if deriv is None:
+                        # no derivative
+                        allderivs.append([])
+                        continue
                     allderivs.append([(deriv, img)])
                 del mod0
 
-- 
2.43.0


From 1df10f9c0d84e41219e6853b5ffb647fe3121f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:17 +0000
Subject: [PATCH 037/118] fix: LsqrOptimizer.getUpdateDirection raised
 IndexError when the last parameters have no derivatives (shared_params=True)

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index ad89c3d..43e6a84 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -501,7 +501,7 @@ class LsqrOptimizer(Optimizer):
             # print('After:')
             #print('spcols:', len(spcols), 'elements')
             #print('  ', len(set(spcols)), 'unique')
-            Ncols = np.max(spcols) + 1
+            Ncols = len(U)
             logverb('Set Ncols=', Ncols)
 
         # b = chi
-- 
2.43.0


From 2b17f47a9f1bd4b13a673592e78632006ca820e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:26 +0000
Subject: [PATCH 038/118] fix: LsqrOptimizer.getUpdateDirection scaled the
 columns of shared parameters differently before merging them, giving a wrong
 update and variance

---
 tractor/lsqr_optimizer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 43e6a84..f0bbf83 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -395,8 +395,6 @@ class LsqrOptimizer(Optimizer):
         del nextrow
         Ncols = len(allderivs)
 
-        # FIXME -- shared_params should share colscales!
-
         colscales = np.zeros(Ncols)
         for col, param in enumerate(allderivs):
             for (deriv, img) in param:
@@ -461,6 +459,11 @@ class LsqrOptimizer(Optimizer):
         assert(len(sprows) == len(spcols))
         assert(len(sprows) == len(spvals))
 
+        if shared_params:
+            # Columns that share a parameter get summed, so must share
+            # their scaling too.
+            colscales = np.bincount(paramindexmap, weights=colscales)[paramindexmap]
+
         if scales_only:
             return np.sqrt(colscales)
 
@@ -635,10 +638,6 @@ class LsqrOptimizer(Optimizer):
         logverb('  X=', X)
 
         if variance:
-            if shared_params:
-                # Unapply shared parameter map.
-                var = var[paramindexmap]
-
             return X, 1./np.array(var)
 
         return X
-- 
2.43.0


From e39463955bf833893b15e88aa97e2167fc5676b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:36 +0000
Subject: [PATCH 039/118] fix:
 LsqrOptimizer.getUpdateDirection(scales_only=True) always returned an empty
 list

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index f0bbf83..c2add75 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -452,7 +452,7 @@ class LsqrOptimizer(Optimizer):
                 b = np.zeros(Nrows, np.float32)
                 b[oldnrows:] = np.hstack(pb)
 
-        if len(spcols) == 0:
+        if len(spcols) == 0 and not scales_only:
             logverb("len(spcols) == 0")
             return []
 
-- 
2.43.0


From 1311b62b81967997cd80be9e38e789735167c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:22 +0000
Subject: [PATCH 040/118] fix: SmarterDenseOptimizer raised KeyError for an
 image that no derivative overlaps

---
 tractor/smarter_dense_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/smarter_dense_optimizer.py b/tractor/smarter_dense_optimizer.py
index 355e633..f923182 100644
--- a/tractor/smarter_dense_optimizer.py
+++ b/tractor/smarter_dense_optimizer.py
@@ -150,6 +150,9 @@ class SmarterDenseOptimizer(ConstrainedOptimizer):
             for deriv, img in derivs:
                 if img in img_offsets:
                     continue
+                if not img in img_bounds:
+                    # no derivatives overlap this image
+                    continue
                 x0,x1,y0,y1 = img_bounds[img]
                 img_offsets[img] = Npixels
                 # pixel coords can end up as int16; cast to int
-- 
2.43.0


From bf2df4ff585a0af2851717a775b2aac01a256a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 041/118] fix: forced photometry with rois used the cut
 inverse-error image as the data (shape mismatch)

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index ab58a65..03abf02 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -502,7 +502,7 @@ class Optimizer(object):
             im = img.getImage()
             if roi is not None:
                 ie = ie[roi]
-                im = ie[roi]
+                im = im[roi]
             chi = (im - mod) * ie
 
             # DEBUG
-- 
2.43.0


From 4a3ffb5a35572f11b8b0a62c191571e6a95cc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 042/118] fix: forced photometry left the sky at the last step
 tried rather than the accepted one

---
 tractor/lsqr_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index c2add75..4866041 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -187,7 +187,7 @@ class LsqrOptimizer(Optimizer):
                 tractor.catalog.setParams(pa)
 
                 if sky:
-                    tractor.images.setParams([p + alpha * d for p, d
+                    tractor.images.setParams([p + alphaBest * d for p, d
                                               in zip(p0sky, Xsky)])
 
                 dlogprob = lnpBest - lnp0
-- 
2.43.0


From 8b8035f82ac171c3cc29077ac05f399e2ac4ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:57 +0000
Subject: [PATCH 043/118] fix: forced photometry with skyvariance=True failed
 to unpack the sky derivatives

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 03abf02..0f4bc0b 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -385,7 +385,7 @@ class Optimizer(object):
         IV = np.zeros(Nsky + Nsourceparams)
         # sky derivs first
         if sky and skyvariance:
-            for di, (dsky, tim) in enumerate(skyderivs):
+            for di, [(dsky, tim)] in enumerate(skyderivs):
                 ie = tim.getInvError()
                 if dsky.shape == tim.shape:
                     dchi2 = np.sum((dsky.patch * ie)**2)
-- 
2.43.0


From 409deea7e0a00115652c5803245c861891a138f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:58 +0000
Subject: [PATCH 044/118] fix: forced photometry fit statistics used the wrong
 source when some sources are frozen

---
 tractor/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index 0f4bc0b..c5bfc26 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -293,7 +293,7 @@ class Optimizer(object):
         # for each source:
         for si, uis in enumerate(umodsforsource):
             # print 'fit stats for source', si, 'of', len(umodsforsource)
-            src = catalog[si]
+            src = srcs[si]
             # for each image
             for imi, (umods, scale, tim, (img, mod, ie, chi, roi)) in enumerate(
                     zip(umodels, scales, imlist, imsBest)):
-- 
2.43.0


From b447b3b7117635ee4f8249e2c4c67ec62b659a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:16 +0000
Subject: [PATCH 045/118] fix: forced photometry with rois left the Tractor
 with the cut-out images when there is nothing to fit

---
 tractor/lsqr_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tractor/lsqr_optimizer.py b/tractor/lsqr_optimizer.py
index 4866041..d9fc0a7 100644
--- a/tractor/lsqr_optimizer.py
+++ b/tractor/lsqr_optimizer.py
@@ -110,6 +110,9 @@ class LsqrOptimizer(Optimizer):
                                         priors=priors,
                                         scale_columns=False, chiImages=chis0,
                                         shared_params=shared_params)
+            if rois is not None:
+                tractor.images = realims
+
             if X is None or len(X) == 0:
                 print('Error getting update direction')
                 break
@@ -117,8 +120,6 @@ class LsqrOptimizer(Optimizer):
             #topt = Time() - t0
             #logverb('forced phot: opt:', topt)
             #print('forced phot: update', X)
-            if rois is not None:
-                tractor.images = realims
 
             # tryUpdates():
             if alphas is None:
-- 
2.43.0


From 3c8c60b6df8597edcd45603dbe46cfb245b1bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:57 +0000
Subject: [PATCH 046/118] fix: forced photometry fit statistics were wrong for
 sources whose model patch starts off the image

---
 tractor/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/optimize.py b/tractor/optimize.py
index c5bfc26..bd270be 100644
--- a/tractor/optimize.py
+++ b/tractor/optimize.py
@@ -333,7 +333,9 @@ class Optimizer(object):
                 # Divide by total flux, not flux within this image; sum <= 1.
                 if xlo is None or xhi is None or ylo is None or yhi is None:
                     continue
-                slc = slice(ylo, yhi), slice(xlo, xhi)
+                # (trim if the model starts off the image)
+                slc = (slice(max(ylo, 0), max(yhi, 0)),
+                       slice(max(xlo, 0), max(xhi, 0)))
 
                 srcmod[slc] /= sourcecounts
 
-- 
2.43.0


From e6918ed0110a6e858f02917513137e671547f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 047/118] fix: numpy Fourier transform of mixtures mixing zero
 and non-zero means

---
 tractor/mixture_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index e8f9dd2..c1a7079 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -213,7 +213,7 @@ class MixtureOfGaussians(object):
             if Fsum is None:
                 Fsum = amp * F
             else:
-                Fsum += amp * F
+                Fsum = Fsum + amp * F
 
         return Fsum
 
-- 
2.43.0


From 90fbb56310caf4c419c7b7374a50c5ce25fae897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 048/118] fix: out-of-bounds write when evaluating a mixture on
 a box at negative coordinates

---
 tractor/approx3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index cc4192e..9f4f2cd 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -130,8 +130,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
             int newxc, newyc;
             int ix,iy;
             double maxpix = 0.;
-            newxc = (x0+x1)/2;
-            newyc = (y0+y1)/2;
+            newxc = x0 + (x1-x0)/2;
+            newyc = y0 + (y1-y0)/2;
             // We search along the edge(s) nearest the given xc,yc.
             if ((xc < x0) || (xc >= x1)) {
                 if (xc < x0) {
-- 
2.43.0


From f53154cc8d560e6ff27ed69a4fa4aace0f5b9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:58 +0000
Subject: [PATCH 049/118] fix: sliced mixture evaluation lost the pixels of
 thin diagonal profiles

---
 tractor/approx3.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tractor/approx3.c b/tractor/approx3.c
index 9f4f2cd..4cb0851 100644
--- a/tractor/approx3.c
+++ b/tractor/approx3.c
@@ -286,6 +286,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    *sx0 = MIN(*sx0, i);
+                    *sx1 = MAX(*sx1, i);
                     xx = x0 + i;
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
                                      (pxd ? pxd+i : NULL), (pyd ? pyd+i : NULL),
@@ -339,6 +341,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    *sx0 = MIN(*sx0, i);
+                    *sx1 = MAX(*sx1, i);
                     xx = x0 + i;
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
                                      (pxd?pxd+i:NULL), (pyd?pyd+i:NULL), maxD);
@@ -383,6 +387,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    *sy0 = MIN(*sy0, i);
+                    *sy1 = MAX(*sy1, i);
                     yy = y0 + i;
                     off = (yy - y0)*W + (xx - x0);
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
@@ -415,6 +421,8 @@ static int c_gauss_2d_approx3(int x0, int x1, int y0, int y1,
                         continue;
                     any = 1;
                     anyrow = 1;
+                    *sy0 = MIN(*sy0, i);
+                    *sy1 = MAX(*sy1, i);
                     yy = y0 + i;
                     off = (yy - y0)*W + (xx - x0);
                     r = eval_all_dxy(K, scales, II, mean, xx-fx, yy-fy,
-- 
2.43.0


From e0e545600065b5503f89a91b96779ee938fc5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 050/118] fix: Fourier transform of a mixture ignored zero_mean
 without the C code

---
 tractor/mixture_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index c1a7079..224fd94 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -206,7 +206,7 @@ class MixtureOfGaussians(object):
                        (a * v[np.newaxis, :]**2 +
                         d * w[:, np.newaxis]**2 +
                         2 * b * v[np.newaxis, :] * w[:, np.newaxis]))
-            if mu[0] != 0. or mu[1] != 0.:
+            if (mu[0] != 0. or mu[1] != 0.) and not zero_mean:
                 F = F * np.exp(-2. * np.pi * 1j * (mu[0] * v[np.newaxis, :] +
                                                    mu[1] * w[:, np.newaxis]))
 
-- 
2.43.0


From 2f17d4463a5e9c79c1705d86b55960e1407b8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:40 +0000
Subject: [PATCH 051/118] fix: normalized oversampled PSF was normalized over
 the model mask instead of the whole stamp

---
 tractor/psf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 99d9e9d..6a3668a 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -969,11 +969,16 @@ class NormalizedPsf(object):
         return img
 
     def _sampleImage(self, img, dx, dy, **kwargs):
-        xl,yl,img = super()._sampleImage(img, dx, dy, **kwargs)
-        n = img.sum()
+        xl,yl,native = super()._sampleImage(img, dx, dy, **kwargs)
+        # normalize by the sum over the whole stamp, not just a sub-region
+        if kwargs:
+            _,_,full = super()._sampleImage(img, dx, dy)
+        else:
+            full = native
+        n = full.sum()
         if n != 0:
-            img /= n
-        return xl,yl,img
+            native /= n
+        return xl,yl,native
 
 class NormalizedPixelizedPsf(NormalizedPsf, PixelizedPSF):
     def __str__(self):
-- 
2.43.0


From 0c44005a6edda092d98b89fadaf063e909057ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:41 +0000
Subject: [PATCH 052/118] fix: MagsPhotoCal step sizes respect freezing

MagsPhotoCal.getStepSizes() returned one step even when the zeropoint was
frozen, so step sizes no longer lined up with the thawed parameters, and
getAllStepSizes() disagreed with it.
---
 tractor/brightness.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 9bc9620..26dd6bb 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -279,6 +279,7 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         # MAGIC
         self.maxmag = 50.
         ParamList.__init__(self, zeropoint)
+        self.stepsizes = [0.01]
 
     def copy(self):
         c = MagsPhotoCal(self.band, self.zp)
@@ -289,9 +290,6 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def getNamedParams():
         return dict(zp=0)
 
-    def getStepSizes(self, *args, **kwargs):
-        return [0.01]
-
     def brightnessToCounts(self, brightness):
         mag = brightness.getMag(self.band)
         if not np.isfinite(mag):
-- 
2.43.0


From 34d69ffae1f9ef84815a002d75681dadefd5711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:50 +0000
Subject: [PATCH 053/118] fix: bounds and max steps for ParamLists that do not
 store their values in .vals

TanWcs (and SdssWcs) create the ParamList without values, so their lower
and upper bounds and maximum steps were empty lists while they have ten
(thawed) parameters.  Concatenated into Tractor.getLowerBounds() etc, this
attached the bounds of the catalog's parameters to the wrong parameters.
---
 tractor/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 844e98b..6817cc7 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -723,9 +723,11 @@ class ParamList(GaussianPriorsMixin, NamedParams, BaseParams):
 
     def __init__(self, *args):
         self.vals = list(args)
-        self.lowers = [None for v in self.vals]
-        self.uppers = [None for v in self.vals]
-        self.maxstep = [None for v in self.vals]
+        # (subclasses can keep their parameters elsewhere than in self.vals)
+        n = self._numberOfThings()
+        self.lowers = [None] * n
+        self.uppers = [None] * n
+        self.maxstep = [None] * n
         super(ParamList, self).__init__()
 
     def copy(self):
-- 
2.43.0


From 6eb618bbba30643997decfc325dd3306b154086b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:10 +0000
Subject: [PATCH 054/118] fix: TanWcs.getAllStepSizes returned 1.0 for every
 parameter

TanWcs overrode getStepSizes only, so getAllStepSizes (used for all
parameters, frozen or not) fell back to the default step of 1.
---
 tractor/wcs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index 6ea055a..a615334 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -377,14 +377,13 @@ class TanWcs(ConstantFitsWcs, ducks.ImageCalibration):
     def _numberOfThings(self):
         return 10
 
-    def getStepSizes(self, *args, **kwargs):
+    def getAllStepSizes(self, *args, **kwargs):
         pixscale = self.wcs.pixel_scale()
         # we set everything ~ 1 pixel
         dcrval = pixscale / 3600.
         # CD matrix: ~1 pixel over image size (call it 1000)
         dcd = pixscale / 3600. / 1000.
-        ss = [dcrval, dcrval, 1., 1., dcd, dcd, dcd, dcd, 1., 1.]
-        return list(self._getLiquidArray(ss))
+        return [dcrval, dcrval, 1., 1., dcd, dcd, dcd, dcd, 1., 1.]
 
 
 class PixPos(ParamList):
-- 
2.43.0


From 74ec5f93d92135b67fff9b88bb9a8e0999b0ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:10 +0000
Subject: [PATCH 055/118] fix: MixtureOfGaussians.copy shared its arrays with
 the original

Normalising (or editing) the copy changed the original mixture.
---
 tractor/mixture_profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/mixture_profiles.py b/tractor/mixture_profiles.py
index 224fd94..8bd0574 100755
--- a/tractor/mixture_profiles.py
+++ b/tractor/mixture_profiles.py
@@ -99,7 +99,8 @@ class MixtureOfGaussians(object):
             assert(np.linalg.det(thisvar) >= 0.)
 
     def copy(self):
-        return MixtureOfGaussians(self.amp, self.mean, self.var, quick=True)
+        return MixtureOfGaussians(self.amp.copy(), self.mean.copy(),
+                                  self.var.copy(), quick=True)
 
     def normalize(self):
         self.amp /= np.sum(self.amp)
-- 
2.43.0


From efd3ab89a7aabd329b8b5ef2486c58dd7c70b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:03 +0000
Subject: [PATCH 056/118] fix: EllipseESoft.fromEllipseE handles circular
 ellipses

---
 tractor/ellipses.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index ef3e28f..b26956e 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -201,7 +201,9 @@ class EllipseESoft(EllipseE):
         e = ell.e
         e = min(e, maxe)
         esoft = -math.log(1. - e)
-        return EllipseESoft(math.log(ell.re), ell.e1 / e * esoft, ell.e2 / e * esoft)
+        # (a circle has no position angle)
+        scale = esoft / e if e > 0 else 1.
+        return EllipseESoft(math.log(ell.re), ell.e1 * scale, ell.e2 * scale)
 
     @staticmethod
     def fromCovariance(cov):
-- 
2.43.0


From 56e3731a401ee7d623e17119edbfb2bdeda4162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:05 +0000
Subject: [PATCH 057/118] fix: SplineSky.BlantonMethod works without a mask

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 22166a9..662f222 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -40,6 +40,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
             for ix, x in enumerate(xgrid):
                 xlo, xhi = int(max(0, x - halfbox)), int(min(W, x + halfbox))
                 im = image[ylo:yhi, xlo:xhi]
+                msk = None
                 if mask is not None:
                     msk = mask[ylo:yhi, xlo:xhi]
                 g = estimator(im, msk, **kwargs)
-- 
2.43.0


From c068feb97cb162ae03314ff4c34ce6dc143ae298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:06 +0000
Subject: [PATCH 058/118] fix: SplineSky.copy keeps the smoothness prior

---
 tractor/splinesky.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 662f222..dce3df4 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -86,6 +86,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         c = type(self)(self.xgrid, self.ygrid, self.get_grid(), order=self.order)
         c.x0 = self.x0
         c.y0 = self.y0
+        c.prior_smooth_sigma = self.prior_smooth_sigma
         # ParamList
         c.liquid = [l for l in self.liquid]
         return c
-- 
2.43.0


From 796103c0248139adc2da0c7d81f300f1a1a90014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:06 +0000
Subject: [PATCH 059/118] fix: SplineSky smoothness prior compares neighbouring
 control points on non-square grids

---
 tractor/splinesky.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index dce3df4..75d4469 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -139,8 +139,8 @@ class SplineSky(ParamList, ducks.ImageCalibration):
     def getParamGrid(self):
         arr = np.array(self.vals)
         assert(len(arr) == (self.W * self.H))
-        arr = arr.reshape(self.H, -1)
-        return arr
+        # The coefficients are ordered with y varying fastest.
+        return arr.reshape(self.W, self.H).T
 
     def getLogPrior(self):
         if self.prior_smooth_sigma is None:
@@ -170,7 +170,7 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         sig = self.prior_smooth_sigma
         # print 'Param grid', p.shape
         # print 'len', len(p)
-        II = np.arange(len(p.ravel())).reshape(p.shape)
+        II = np.arange(p.size).reshape(self.W, self.H).T
         assert(p.shape == II.shape)
 
         dx = p[:, 1:] - p[:, :-1]
-- 
2.43.0


From 4800dba63811f0a809b72ecd6dff71f87c9b4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:28 +0000
Subject: [PATCH 060/118] fix: SplineSky smoothness prior derivatives use the
 thawed parameters and one column per block

---
 tractor/splinesky.py | 74 ++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 75d4469..2f1eea8 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -152,58 +152,44 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         return lnP
 
     def getLogPriorDerivatives(self):
-        # FIXME -- we ignore frozenness!
-
         if self.prior_smooth_sigma is None:
             return None
 
-        rA = []
-        cA = []
-        vA = []
-        pb = []
-        mub = []
-        # columns are parameters
-        # rows are prior terms
-
-        #
         p = self.getParamGrid()
         sig = self.prior_smooth_sigma
-        # print 'Param grid', p.shape
-        # print 'len', len(p)
         II = np.arange(p.size).reshape(self.W, self.H).T
-        assert(p.shape == II.shape)
-
-        dx = p[:, 1:] - p[:, :-1]
-        dy = p[1:, :] - p[:-1, :]
-
-        NX = len(dx.ravel())
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, :-1].ravel())
-        vA.append(np.ones(NX) / sig)
-        pb.append(dx.ravel() / sig)
-        # Not 100% certain of this...
-        mub.append(np.zeros(NX))
-
-        rA.append(np.arange(NX))
-        cA.append(II[:, 1:].ravel())
-        vA.append(-np.ones(NX) / sig)
-
-        NY = len(dy.ravel())
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[:-1, :].ravel())
-        vA.append(np.ones(NY) / sig)
-        pb.append(dy.ravel() / sig)
-        mub.append(np.zeros(NY))
-
-        rA.append(NX + np.arange(NY))
-        cA.append(II[1:, :].ravel())
-        vA.append(-np.ones(NY) / sig)
+        # Each prior term (row) is the difference of two neighbouring
+        # control points, J - I
+        I = np.append(II[:, :-1].ravel(), II[:-1, :].ravel())
+        J = np.append(II[:, 1:].ravel(), II[1:, :].ravel())
+        # Index of each parameter in the list of thawed parameters, or -1.
+        thawed = list(self.getThawedParamIndices())
+        col = np.zeros(p.size, int) - 1
+        col[thawed] = np.arange(len(thawed))
+        # Drop terms that do not involve any thawed parameters
+        keep = np.logical_or(col[I] >= 0, col[J] >= 0)
+        I, J = I[keep], J[keep]
+        if len(I) == 0:
+            return None
 
-        # print 'log prior chi: returning', len(rA), 'sets of terms'
+        vals = np.array(self.vals)
+        pb = (vals[J] - vals[I]) / sig
+        # the part that does not depend on the thawed parameters
+        fixed = vals * (col == -1)
+        mub = (fixed[J] - fixed[I]) / sig
 
-        return (rA, cA, vA, pb, mub)
+        # one block of rows per (thawed) parameter
+        rA = []
+        cA = []
+        vA = []
+        for i in thawed:
+            ri = np.append(np.flatnonzero(I == i), np.flatnonzero(J == i))
+            if len(ri) == 0:
+                continue
+            rA.append(ri)
+            cA.append(int(col[i]))
+            vA.append(np.where(I[ri] == i, 1., -1.) / sig)
+        return (rA, cA, vA, [pb], [mub])
 
     def getParamDerivatives(self, *args):
         derivs = []
-- 
2.43.0


From 792b1c3373fd04893e1bb80948750f38c6b66442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:51 +0000
Subject: [PATCH 061/118] fix: dense optimizer handles prior terms that involve
 several parameters

---
 tractor/dense_optimizer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tractor/dense_optimizer.py b/tractor/dense_optimizer.py
index 218d4da..f91f001 100644
--- a/tractor/dense_optimizer.py
+++ b/tractor/dense_optimizer.py
@@ -153,12 +153,13 @@ class ConstrainedDenseOptimizer(ConstrainedOptimizer):
         if Npriors > 0:
             rA, cA, vA, pb, mub = priorVals
             #print('Priors: pb', pb, 'mub', mub)
-            for ri,ci,vi,bi in zip(rA, cA, vA, pb):
+            for ri,ci,vi in zip(rA, cA, vA):
                 if scale_columns:
                     colscales2[ci] += np.dot(vi, vi)
-                for rij,vij,bij in zip(ri, vi, bi):
-                    A[Npixels + rij, ci] = vij
-                    B[Npixels + rij] += bij
+                for rij,vij in zip(ri, vi):
+                    A[Npixels + rij, ci] += vij
+            # (a prior term can involve more than one parameter)
+            B[Npixels:] = np.hstack(pb)
             del priorVals, rA, cA, vA, pb, mub
 
         if scale_columns:
-- 
2.43.0


From 81c5584189421c758f2cca9475a67d67f515780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:51 +0000
Subject: [PATCH 062/118] fix: WcslibWcs CD matrix at the RA wrap-around

---
 tractor/wcs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index a615334..a2e59d8 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -156,8 +156,11 @@ class WcslibWcs(BaseParams, ducks.WCS):
             x + 1. + self.x0, y + 2. + self.y0)
 
         cosdec = np.cos(np.deg2rad(dec0))
+        # handle RA wrap-around
+        dra1 = (ra1 - ra0 + 180.) % 360. - 180.
+        dra2 = (ra2 - ra0 + 180.) % 360. - 180.
 
-        return np.array([[(ra1 - ra0) * cosdec, (ra2 - ra0) * cosdec],
+        return np.array([[dra1 * cosdec, dra2 * cosdec],
                          [dec1 - dec0,        dec2 - dec0]])
 
 
-- 
2.43.0


From 538f80596f4cf94b32be21e042fb4a7d5c5a5402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:51 +0000
Subject: [PATCH 063/118] fix: WcslibWcs can be shifted for subimages

---
 tractor/wcs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index a2e59d8..fad3825 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -131,6 +131,11 @@ class WcslibWcs(BaseParams, ducks.WCS):
         self.x0 = x0
         self.y0 = y0
 
+    def shifted(self, dx, dy):
+        w = self.__class__(None, wcs=self.wcs)
+        w.setX0Y0(self.x0 + dx, self.y0 + dy)
+        return w
+
     def positionToPixel(self, pos, src=None):
         ok, x, y = self.wcs.radec2pixelxy(pos.ra, pos.dec)
         # MAGIC: 1 for FITS coords.
-- 
2.43.0


From 746317e5d438b949c314c2cde4682ecd2800f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:24 +0000
Subject: [PATCH 064/118] fix: unpickled Tractor objects keep model_kwargs (and
 can render)

---
 tractor/engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tractor/engine.py b/tractor/engine.py
index 14c8119..7962fe8 100644
--- a/tractor/engine.py
+++ b/tractor/engine.py
@@ -158,13 +158,14 @@ class Tractor(MultiParams):
 
     # For pickling
     def __getstate__(self):
-        version = 1
+        version = 2
         S = (version, self.getImages(), self.getCatalog(), self.liquid,
              self.modtype, self.modelMasks, self.expectModelMasks,
-             self.optimizer)
+             self.optimizer, self.model_kwargs)
         return S
 
     def __setstate__(self, state):
+        self.model_kwargs = {}
         if len(state) == 6:
             # "backwards compat"
             (images, catalog, self.liquid, self.modtype, self.modelMasks,
@@ -174,6 +175,9 @@ class Tractor(MultiParams):
         elif len(state) == 8:
             (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
              self.expectModelMasks, self.optimizer) = state
+        elif len(state) == 9:
+            (ver, images, catalog, self.liquid, self.modtype, self.modelMasks,
+             self.expectModelMasks, self.optimizer, self.model_kwargs) = state
         self.subs = [images, catalog]
 
     def getNImages(self):
-- 
2.43.0


From c1c5cc19758f39a453d1c1ace59d5c9857a0ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:56 +0000
Subject: [PATCH 065/118] fix: toFitsHeader writes frozen parameters too

---
 tractor/ducks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tractor/ducks.py b/tractor/ducks.py
index b7d84a7..8db6d2b 100644
--- a/tractor/ducks.py
+++ b/tractor/ducks.py
@@ -163,6 +163,9 @@ class ImageCalibration(object):
     def toFitsHeader(self, hdr, prefix=''):
         params = self.getAllParams()
         names = self.getParamNames()
+        if len(names) != len(params):
+            # some parameters are frozen
+            names = [''] * len(params)
         for i,(name,val) in enumerate(zip(names, params)):
             k = prefix + 'P%i' % i
             hdr.add_record(dict(name=k, value=val, comment=name))
-- 
2.43.0


From 888aacb8f183eb4765840be2dc0b6fc832cb5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:56 +0000
Subject: [PATCH 066/118] fix: NullWCS offsets and pixel scale survive FITS
 headers

---
 tractor/wcs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tractor/wcs.py b/tractor/wcs.py
index fad3825..a904f7e 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -25,6 +25,13 @@ class NullWCS(BaseParams, ducks.WCS):
     def copy(self):
         return self.__class__(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
 
+    def toFitsHeader(self, hdr, prefix=''):
+        # constructor args
+        for i,(name,val) in enumerate([('pixscale', self.pixscale),
+                                       ('dx', self.dx), ('dy', self.dy)]):
+            hdr.add_record(dict(name=prefix + 'A%i' % i, value=val,
+                                comment='NullWCS ' + name))
+
     def setPixscale(self, pixscale):
         self.pixscale = pixscale
         self.cd = np.array([[1., 0.], [0., 1.]]) *  self.pixscale / 3600.
-- 
2.43.0


From f40140e28e1ba537031e36cbacb1cee4e500e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:56 +0000
Subject: [PATCH 067/118] fix: photometric calibrations can be read back from
 FITS headers

---
 tractor/brightness.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 26dd6bb..1fa8018 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -253,6 +253,11 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
     def copy(self):
         return FluxesPhotoCal(self.band)
 
+    def toFitsHeader(self, hdr, prefix=''):
+        # constructor args
+        hdr.add_record(dict(name=prefix + 'A0', value=self.band,
+                            comment='band'))
+
     def brightnessToCounts(self, brightness):
         flux = brightness.getFlux(self.band)
         return flux
@@ -290,6 +295,14 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
     def getNamedParams():
         return dict(zp=0)
 
+    def toFitsHeader(self, hdr, prefix=''):
+        # constructor args
+        hdr.add_record(dict(name=prefix + 'A0', value=self.band,
+                            comment='band'))
+        hdr.add_record(dict(name=prefix + 'A1', value=self.zp,
+                            comment='zeropoint'))
+        super(MagsPhotoCal, self).toFitsHeader(hdr, prefix=prefix)
+
     def brightnessToCounts(self, brightness):
         mag = brightness.getMag(self.band)
         if not np.isfinite(mag):
@@ -338,6 +351,15 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
     def getScale(self):
         return self.val
 
+    def toFitsHeader(self, hdr, prefix=''):
+        # constructor args
+        hdr.add_record(dict(name=prefix + 'A0', value=self.val,
+                            comment='scale'))
+        if self.band is not None:
+            hdr.add_record(dict(name=prefix + 'A1', value=self.band,
+                                comment='band'))
+        super(LinearPhotoCal, self).toFitsHeader(hdr, prefix=prefix)
+
     def brightnessToCounts(self, brightness):
         if self.band is None:
             counts = brightness.getValue() * self.val
-- 
2.43.0


From d5c0bc973f9e72a48cd3ac1e13275786d7da03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:56 +0000
Subject: [PATCH 068/118] fix: SplineSky tables keep fractional control-point
 positions

---
 tractor/splinesky.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tractor/splinesky.py b/tractor/splinesky.py
index 2f1eea8..63ecd97 100644
--- a/tractor/splinesky.py
+++ b/tractor/splinesky.py
@@ -213,10 +213,14 @@ class SplineSky(ParamList, ducks.ImageCalibration):
         T.skyclass = np.array([sky_type])
         T.gridw = np.atleast_1d(self.W).astype(np.int32)
         T.gridh = np.atleast_1d(self.H).astype(np.int32)
-        T.xgrid = np.atleast_2d(self.xgrid).astype(np.int32)
-        T.ygrid = np.atleast_2d(self.ygrid).astype(np.int32)
-        T.x0 = np.atleast_1d(self.x0).astype(np.int32)
-        T.y0 = np.atleast_1d(self.y0).astype(np.int32)
+        def toint(x):
+            # Integers, unless that would move the control points
+            xi = x.astype(np.int32)
+            return xi if np.all(xi == x) else x.astype(np.float64)
+        T.xgrid = toint(np.atleast_2d(self.xgrid))
+        T.ygrid = toint(np.atleast_2d(self.ygrid))
+        T.x0 = toint(np.atleast_1d(self.x0))
+        T.y0 = toint(np.atleast_1d(self.y0))
         gridvals = self.get_grid()
         T.gridvals = np.array([gridvals]).astype(np.float32)
         T.order = np.atleast_1d(self.order).astype(np.uint8)
-- 
2.43.0


From 54f5d9b7ea9c6b1b8f35640bb930a4a029ea0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:25 +0000
Subject: [PATCH 069/118] fix: TractorCacheMixin uses the dependencies (not
 just their hash) as cache key, and passes minsb when disabled

---
 tractor/cache.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index a35c60d..b60cabd 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -20,10 +20,9 @@ class TractorCacheMixin(object):
     def getModelPatch(self, img, src, minsb=None, **kwargs):
         if self.cache is None:
             return super(TractorCacheMixin, self).getModelPatch(
-                img, src, **kwargs)
+                img, src, minsb=minsb, **kwargs)
 
         deps = (img.hashkey(), src.hashkey())
-        deps = hash(deps)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
             minsb = img.modelMinval
-- 
2.43.0


From b77725dd483dfb8698b3070cde1d4a93fbfad209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:25 +0000
Subject: [PATCH 070/118] fix: TractorCacheMixin takes model masks and
 rendering options into account

---
 tractor/cache.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index b60cabd..e410de0 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -22,7 +22,17 @@ class TractorCacheMixin(object):
             return super(TractorCacheMixin, self).getModelPatch(
                 img, src, minsb=minsb, **kwargs)
 
-        deps = (img.hashkey(), src.hashkey())
+        if len(kwargs) or len(self.model_kwargs):
+            # rendering options are not part of the cache key
+            return super(TractorCacheMixin, self).getModelPatch(
+                img, src, minsb=minsb, **kwargs)
+
+        mask = self._getModelMaskFor(img, src)
+        if mask is not None:
+            m = mask.mask
+            mask = (mask.x0, mask.y0, mask.w, mask.h,
+                    None if m is None else m.tobytes())
+        deps = (img.hashkey(), src.hashkey(), mask, self.expectModelMasks)
         mv, mod = self.cache.get(deps, (0., None))
         if minsb is None:
             minsb = img.modelMinval
-- 
2.43.0


From 010fa3738a9caba44ffc25cc125664a8c829a479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:25 +0000
Subject: [PATCH 071/118] fix: Cache replaces an existing entry without
 evicting another; NullCache has a length

---
 tractor/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/cache.py b/tractor/cache.py
index e410de0..e7f6ed2 100644
--- a/tractor/cache.py
+++ b/tractor/cache.py
@@ -110,6 +110,8 @@ class Cache(object):
         e.val = val
         e.size = sz
         e.hits = 0
+        # replacing an existing entry?
+        self.dict.pop(key, None)
         # purge LRU item
         if len(self.dict) >= self.maxsize:
             self.dict.popitem(0)
@@ -232,4 +234,4 @@ class NullCache(object):
         return 0
 
     def __len__(self):
-        return len(self.dict)
+        return 0
-- 
2.43.0


From 74fb63c7d7a8ba7a656a11401712d9a43f9fc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:30 +0000
Subject: [PATCH 072/118] fix: hash keys cover everything a model image depends
 on

---
 tractor/brightness.py | 12 ++++++++++++
 tractor/image.py      |  3 ++-
 tractor/psf.py        | 11 ++++++++---
 tractor/psfex.py      |  5 ++++-
 tractor/wcs.py        | 11 ++++++++---
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/tractor/brightness.py b/tractor/brightness.py
index 1fa8018..fa40cdb 100644
--- a/tractor/brightness.py
+++ b/tractor/brightness.py
@@ -64,6 +64,9 @@ class MultiBandBrightness(ParamList, ducks.Brightness):
         c.liquid = list(self.liquid)
         return c
 
+    def hashkey(self):
+        return super(MultiBandBrightness, self).hashkey() + tuple(self.order)
+
     def getBand(self, band):
         return getattr(self, band)
 
@@ -250,6 +253,9 @@ class FluxesPhotoCal(BaseParams, ducks.ImageCalibration):
         self.band = band
         BaseParams.__init__(self)
 
+    def hashkey(self):
+        return ('FluxesPhotoCal', self.band)
+
     def copy(self):
         return FluxesPhotoCal(self.band)
 
@@ -286,6 +292,9 @@ class MagsPhotoCal(ParamList, ducks.ImageCalibration):
         ParamList.__init__(self, zeropoint)
         self.stepsizes = [0.01]
 
+    def hashkey(self):
+        return super(MagsPhotoCal, self).hashkey() + (self.band, self.maxmag)
+
     def copy(self):
         c = MagsPhotoCal(self.band, self.zp)
         c.liquid = list(self.liquid)
@@ -345,6 +354,9 @@ class LinearPhotoCal(ScalarParam, ducks.ImageCalibration):
         super(LinearPhotoCal, self).__init__(scale)
         self.band = band
 
+    def hashkey(self):
+        return super(LinearPhotoCal, self).hashkey() + (self.band,)
+
     def copy(self):
         return self.__class__(self.getValue(), band=self.band)
 
diff --git a/tractor/image.py b/tractor/image.py
index 4964ef9..acfb41c 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -157,7 +157,8 @@ class Image(MultiParams):
     def hashkey(self):
         return ('Image', id(self.data), id(self.inverr), self.psf.hashkey(),
                 self.sky.hashkey(), self.wcs.hashkey(),
-                self.photocal.hashkey())
+                self.photocal.hashkey(), self.shape,
+                None if self.time is None else self.time.hashkey())
 
     def numberOfPixels(self):
         (H, W) = self.data.shape
diff --git a/tractor/psf.py b/tractor/psf.py
index 6a3668a..8f38471 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -12,7 +12,7 @@ from tractor.wcs import PixPos
 from tractor.brightness import Flux
 from tractor.engine import Tractor
 from tractor.patch import Patch
-from tractor.utils import BaseParams, ParamList, MultiParams, MogParams
+from tractor.utils import BaseParams, ParamList, MultiParams, MogParams, getClassName
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -117,7 +117,8 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         return (self.H, self.W)
 
     def hashkey(self):
-        return ('PixelizedPSF', tuple(self.img.ravel()))
+        return (getClassName(self), self.img.shape, tuple(self.img.ravel()),
+                self.sampling, self.Lorder)
 
     def copy(self):
         return self.__class__(self.img.copy(), sampling=self.sampling,
@@ -640,6 +641,9 @@ class HybridPixelizedPSF(HybridPSF):
         pix = self.pix.constantPsfAt(x, y)
         return HybridPixelizedPSF(pix, self.gauss)
 
+    def hashkey(self):
+        return ('HybridPixelizedPSF', self.pix.hashkey(), self.gauss.hashkey())
+
     def __getattr__(self, name):
         '''Delegate to my pixelized PSF model.'''
         return getattr(self.pix, name)
@@ -871,7 +875,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         return getCircularMog(amps, sigs)
 
     def hashkey(self):
-        hk = ('NCircularGaussianPSF', tuple(self.sigmas), tuple(self.weights))
+        hk = ('NCircularGaussianPSF', tuple(self.mysigmas),
+              tuple(self.myweights))
         return hk
 
     def copy(self):
diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6d58f1e..6c060bd 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -443,7 +443,10 @@ class PixelizedPsfEx(PixelizedPSF):
         return 'PixelizedPsfEx'
 
     def hashkey(self):
-        return ('PixelizedPsfEx', self.fn, self.ext)
+        m = self.psfex
+        return (getClassName(self), self.fn, self.ext, m.x0, m.y0,
+                m.xscale, m.yscale, m.degree, m.sampling, m.psfbases.shape,
+                m.psfbases.tobytes())
 
     def copy(self):
         psfex = self.psfex.copy()
diff --git a/tractor/wcs.py b/tractor/wcs.py
index a904f7e..17570c8 100644
--- a/tractor/wcs.py
+++ b/tractor/wcs.py
@@ -1,7 +1,7 @@
 from __future__ import print_function
 import numpy as np
 
-from tractor.utils import BaseParams, ParamList, MultiParams, ArithmeticParams
+from tractor.utils import BaseParams, ParamList, MultiParams, ArithmeticParams, getClassName
 from tractor import ducks
 
 
@@ -20,7 +20,7 @@ class NullWCS(BaseParams, ducks.WCS):
         self.setPixscale(pixscale)
 
     def hashkey(self):
-        return ('NullWCS', self.dx, self.dy)
+        return ('NullWCS', self.dx, self.dy, self.pixscale)
 
     def copy(self):
         return self.__class__(pixscale=self.pixscale, dx=self.dx, dy=self.dy)
@@ -118,6 +118,9 @@ class WcslibWcs(BaseParams, ducks.WCS):
     def copy(self):
         raise RuntimeError('unimplemented')
 
+    def hashkey(self):
+        return ('WcslibWcs', self.x0, self.y0, self.wcs)
+
     def __str__(self):
         return ('WcslibWcs: x0,y0 %.3f,%.3f' % (self.x0, self.y0))
 
@@ -200,7 +203,9 @@ class ConstantFitsWcs(ParamList, ducks.WCS):
         self.pixscale = self.wcs.pixel_scale()
 
     def hashkey(self):
-        return (self.x0, self.y0, id(self.wcs))
+        # (the WCS object itself, since ids can be re-used)
+        return ((getClassName(self), self.x0, self.y0, self.wcs)
+                + tuple(self.getAllParams()))
 
     def copy(self):
         copy = ConstantFitsWcs(self.wcs)
-- 
2.43.0


From 7601795c117125c4bea3afe6e276669af81d0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:59 +0000
Subject: [PATCH 073/118] fix: MovingPointSource hash key includes the epoch

---
 tractor/motion.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/motion.py b/tractor/motion.py
index 6f77d52..8d421f1 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -66,6 +66,12 @@ class MovingPointSource(PointSource):
         self.minRadius = None
         self.epoch = epoch
 
+    def hashkey(self):
+        epoch = self.epoch
+        if hasattr(epoch, 'hashkey'):
+            epoch = epoch.hashkey()
+        return super(MovingPointSource, self).hashkey() + (epoch,)
+
     def copy(self):
         c = self.__class__(self.pos.copy(), self.brightness.copy(),
                            self.pm.copy(), self.parallax.getValue(),
-- 
2.43.0


From 8a5dc84c45b44e8d35fb8702c328ac143113a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:49 +0000
Subject: [PATCH 074/118] fix: GpuOptimizer RA derivatives include cos(Dec)

---
 tractor/gpu_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 4248206..2c2c4c6 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -490,7 +490,11 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                    for tim in tims]
             px, py = np.array(pxy, dtype=np.float32).T
             # WCS inv(CD) matrix
-            img_cdi = [tim.getWcs().cdInverseAtPixel(x,y) for tim,x,y in zip(tims, px, py)]
+            img_cdi = np.array([tim.getWcs().cdInverseAtPixel(x,y)
+                                for tim,x,y in zip(tims, px, py)])
+            if hasattr(src.getPosition(), 'dec'):
+                # The CD matrix is with respect to RA*cos(Dec), not RA.
+                img_cdi[:, :, 0] *= np.cos(np.deg2rad(src.getPosition().dec))
             # Current counts
             img_counts = [tim.getPhotoCal().brightnessToCounts(src.brightness)
                           for tim in tims]
-- 
2.43.0


From 526229175bb1346bc42316d9a05df94b6b707117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:49 +0000
Subject: [PATCH 075/118] fix: GpuOptimizer flux derivatives include the
 photometric scale

---
 tractor/gpu_optimizer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 2c2c4c6..61fdbeb 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -710,7 +710,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + tim_band_index[i]
-                A[i * pH*pW: (i+1) * pH*pW, col] = (G[i, 0, :, :] * padie[i, :, :]).ravel()
+                A[i * pH*pW: (i+1) * pH*pW, col] = (tims[i].getPhotoCal().getScale() *
+                                                    G[i, 0, :, :] * padie[i, :, :]).ravel()
             # We *could* form the *col* into an array and do this as a
             # one-liner; not sure that would be faster.
 
@@ -737,8 +738,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
                 # Image i fills in the column corresponding to its sb flux
                 # and a block of rows corresponding to its pixels.
                 col = Npos + Nbands + Nshapes + tim_band_index[i]
-                # FIXME -- here we must be assuming LinearPhotoCal with scale = 1!
-                A[i * pH*pW: (i+1) * pH*pW, col] = (pixscales[i]**2 * padie[i, :, :].ravel())
+                A[i * pH*pW: (i+1) * pH*pW, col] = (tims[i].getPhotoCal().getScale() *
+                                                    pixscales[i]**2 * padie[i, :, :].ravel())
 
         if sb and src:
             # add current surface brightnesses to the model
-- 
2.43.0


From 1a927762e74549300a7c682209b8cea95dac60a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:49 +0000
Subject: [PATCH 076/118] fix: GpuOptimizer handles frozen fluxes and sources,
 and priors on any parameter

---
 tractor/gpu_optimizer.py | 92 +++++++++++++---------------------------
 1 file changed, 29 insertions(+), 63 deletions(-)

diff --git a/tractor/gpu_optimizer.py b/tractor/gpu_optimizer.py
index 61fdbeb..89c453b 100644
--- a/tractor/gpu_optimizer.py
+++ b/tractor/gpu_optimizer.py
@@ -480,6 +480,10 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         if len(tr.catalog) == 2:
             sb = tr.catalog[1]
 
+        # Are the source and surface-brightness parameters being fit at all?
+        src_free = bool(src) and (0 in tr.catalog.getThawedParamIndices())
+        sb_free = bool(sb) and (1 in tr.catalog.getThawedParamIndices())
+
         Nimages = len(tims)
         extents = [mm.extent for mm in masks]
         x0, x1, y0, y1 = np.asarray(extents).T
@@ -498,13 +502,11 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             # Current counts
             img_counts = [tim.getPhotoCal().brightnessToCounts(src.brightness)
                           for tim in tims]
-            src_bands = src.getBrightness().getParamNames()
             fluxes = cp.array(img_counts)
         else:
             # fake source position in middle of modelMasks
             px = (x0+x1)/2.
             py = (y0+y1)/2.
-            src_bands = []
 
         img_params = self.get_image_params(tims, px, py, x0,x1,y0,y1)
 
@@ -542,7 +544,7 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         if is_galaxy:
             # Get galaxy profiles for shape derivatives.
             amixes = [[('current', src._getShearedProfile(tim,x,y), 0.)] +
-                    src.getDerivativeShearedProfiles(tim,x,y)
+                      (src.getDerivativeShearedProfiles(tim,x,y) if src_free else [])
                     for tim,x,y in zip(tims, px, py)]
             Nprofiles = max([len(d) for d in amixes])
             mogs = [[m for _,m,_ in amix_img] for amix_img in amixes]
@@ -591,19 +593,17 @@ class GpuOptimizer(GpuFriendlyOptimizer):
 
         # We have either RaDecPos or GaiaPositions for the pos -- 2 or 0 params.
         Npos = 0
-        if src and src.isParamThawed('pos'):
+        if src_free and src.isParamThawed('pos'):
             Npos = src.pos.numberOfParams()
         assert(Npos in [0, 2])
 
         # List of the band for each tim
         tim_bands = [tim.getPhotoCal().band for tim in tims]
-        # The unique set of bands in all tims.  This is the number of flux parameters we
-        # will fit for in the A matrix, in this order.
-        tim_ubands = list(np.unique(tim_bands))
-        # List of the index into tim_ubands for each tim
-        # This is what we'll use to build the A matrix
-        tim_band_index = [tim_ubands.index(b) for b in tim_bands]
-        Nbands = len(tim_ubands)
+        # The bands of the fluxes that we will fit for, in order.
+        src_bands = []
+        if src_free and src.isParamThawed('brightness'):
+            src_bands = list(src.getBrightness().getParamNames())
+        Nbands = len(src_bands)
 
         if is_galaxy:
             # Nprofiles - 1: profile 0 is the current galaxy shape, the rest are shape/sersic derivs.
@@ -611,7 +611,10 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         else:
             Nshapes = 0
 
-        Nsb = 0
+        sb_bands = []
+        if sb_free and sb.isParamThawed('brightness'):
+            sb_bands = list(sb.brightness.getParamNames())
+        Nsb = len(sb_bands)
         if sb:
             sb_counts = np.array([tim.getPhotoCal().brightnessToCounts(sb.brightness)
                                   for tim in tims])
@@ -619,43 +622,13 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             pixscales = np.array([tim.getWcs().pixel_scale()
                                   for tim in tims])
             sb_counts_per_pix = cp.array(sb_counts * pixscales**2)
-            Nsb = Nbands
-
-        if is_none:
-            Nbands = 0
-
-        Nderivs = Npos + Nbands + Nshapes + Nsb
 
-        # We'll need both directions of the mapping between
-        # source parameter index and index in our A matrix
-        # due to "tims" having only a subset of the bands in the source's params.
-        # List of (source parameter index, A matrix index)
-        # This is baking in the assumption that source parameters are in the order:
+        # The columns of the A matrix are the free parameters, in order:
+        # this is baking in the assumption that source parameters are in the order:
         # pos, brightness, shape
-        # this is in the (source, fitting) order
-        param_indices = []
-        if Npos:
-            param_indices.append((0,0))
-            param_indices.append((1,1))
-        for i,band in enumerate(src_bands):
-            if band in tim_ubands:
-                param_indices.append((Npos + i, Npos + tim_ubands.index(band)))
-        for i in range(Nshapes):
-            param_indices.append((Npos + len(src_bands) + i, Npos + Nbands + i))
-        N_sb_bands = 0
-        if sb:
-            sb_bands = sb.brightness.getParamNames()
-            N_sb_bands = len(sb_bands)
-            for i,band in enumerate(sb_bands):
-                if band in tim_ubands:
-                    param_indices.append((Npos + len(src_bands) + Nshapes + i,
-                                          Npos + Nbands + Nshapes + tim_ubands.index(band)))
-
-        # Mappings between the parameters we're going to fit for (fit params)
-        # and source parameters (src params).  Eg, a source might have a flux
-        # parameter that is not constrained by the images we are fitting.
-        src_to_fit_param = dict(param_indices)
-        fit_to_src_param = dict([(f,s) for s,f in param_indices])
+        # A source might have a flux parameter that is not constrained by the images
+        # we are fitting: its column is all zeros.
+        Nderivs = Npos + Nbands + Nshapes + Nsb
 
         assert(all([isinstance(tim.getPhotoCal(), LinearPhotoCal) for tim in tims]))
         padie = img_params.padie
@@ -709,7 +682,9 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             for i in range(Nimages):
                 # Image i fills in the column corresponding to its flux
                 # and a block of rows corresponding to its pixels.
-                col = Npos + tim_band_index[i]
+                if not tim_bands[i] in src_bands:
+                    continue
+                col = Npos + src_bands.index(tim_bands[i])
                 A[i * pH*pW: (i+1) * pH*pW, col] = (tims[i].getPhotoCal().getScale() *
                                                     G[i, 0, :, :] * padie[i, :, :]).ravel()
             # We *could* form the *col* into an array and do this as a
@@ -737,7 +712,9 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             for i in range(Nimages):
                 # Image i fills in the column corresponding to its sb flux
                 # and a block of rows corresponding to its pixels.
-                col = Npos + Nbands + Nshapes + tim_band_index[i]
+                if not tim_bands[i] in sb_bands:
+                    continue
+                col = Npos + Nbands + Nshapes + sb_bands.index(tim_bands[i])
                 A[i * pH*pW: (i+1) * pH*pW, col] = (tims[i].getPhotoCal().getScale() *
                                                     pixscales[i]**2 * padie[i, :, :].ravel())
 
@@ -754,8 +731,6 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             rA, cA, vA, pb, mub = priorVals
             for ri,ci,vi,bi in zip(rA, cA, vA, pb):
                 for rij,vij,bij in zip(ri, vi, bi):
-                    # Map the source's parameter index to our local fitting parameter index
-                    ci = src_to_fit_param[ci]
                     A[Npix_total + rij, ci] = vij
                     B[Npix_total + rij] += bij
             del priorVals, rA, cA, vA, pb, mub
@@ -763,6 +738,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         # Precondition the A matrix (simply) by normalizing the column scales (L2 norms)
         colscales = cp.sqrt((A**2).sum(axis=0))
 
+        # Indices of the parameters that are columns of A.
+        I = np.arange(Nderivs)
         # Remove any columns with zero colscale (ie, no actual derivatives)
         if cp.any(colscales == 0):
             colscales = cp.get(colscales)
@@ -770,14 +747,6 @@ class GpuOptimizer(GpuFriendlyOptimizer):
             if len(I) == 0:
                 debug('All derivatives are zero.')
                 return None
-            new_fit_to_src_param = {}
-            new_src_to_fit_param = {}
-            for i_new,i_old in enumerate(I):
-                s = fit_to_src_param[i_old]
-                new_fit_to_src_param[i_new] = s
-                new_src_to_fit_param[s] = i_new
-            fit_to_src_param = new_fit_to_src_param
-            src_to_fit_param = new_src_to_fit_param
             A = A[:, I]
             colscales = colscales[I]
             colscales = cp.array(colscales)
@@ -795,11 +764,8 @@ class GpuOptimizer(GpuFriendlyOptimizer):
         X /= colscales
 
         X = cp.get(X)
-        # Parameter indices in the tractor params of our vector X:
-        I = np.array([fit_to_src_param[i] for i in range(len(X))])
         # The vector we're going to return:
-        N_src_params = (src and src.numberOfParams() or 0)
-        Nout = N_src_params + N_sb_bands
+        Nout = Nderivs
         sX = np.zeros(Nout, np.float32)
         sX[I] = X
         assert(np.all(np.isfinite(sX)))
-- 
2.43.0


From c7ee347d8ceef95586e3084de13b1818a634e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:01 +0000
Subject: [PATCH 077/118] fix: CeresOptimizer forced photometry with sky
 returns images made with the source fluxes

---
 tractor/ceres_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 13a7b91..057c427 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -335,7 +335,7 @@ class CeresOptimizer(Optimizer):
         if wantims0:
             t0 = Time()
             params = tractor.getParams()
-            result.ims0 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims0 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims0', Time() - t0)
 
@@ -381,7 +381,7 @@ class CeresOptimizer(Optimizer):
 
         if wantims1:
             t0 = Time()
-            result.ims1 = self._getims(params, imlist, umodels, mods0, scales,
+            result.ims1 = self._getims(params[Nsky:], imlist, umodels, mods0, scales,
                                        sky, minFlux, None)
             logverb('forced phot: ims1:', Time() - t0)
         return x
-- 
2.43.0


From fe1759b5754202747dcb0a9f21a5b228dd4c47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 078/118] fix: Ceres Jacobians are zero for parameters that do
 not affect an image

---
 tractor/ceres-tractor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tractor/ceres-tractor.cc b/tractor/ceres-tractor.cc
index c036df9..46f3891 100644
--- a/tractor/ceres-tractor.cc
+++ b/tractor/ceres-tractor.cc
@@ -322,6 +322,12 @@ bool ImageCostFunction::_Evaluate(double const* const* parameters,
         Py_XDECREF(allderivs);
         return false;
     }
+    // Parameters that do not affect this image have no entry in allderivs;
+    // their Jacobians are zero.
+    for (int i=0; i<_nparams; i++) {
+        if (jacobians[i])
+            memset(jacobians[i], 0, _npix * sizeof(double));
+    }
     int n = (int)PyList_Size(allderivs);
     //printf("Got %i derivatives\n", n);
     for (int ideriv=0; ideriv<n; ideriv++) {
-- 
2.43.0


From a4d92dbb805cfca4968994f2d745ac32eeed58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 079/118] fix: Ceres numeric derivatives use every image

---
 tractor/ceres.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index 219580c..e5a99f9 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -444,7 +444,7 @@ static PyObject* ceres_opt(PyObject* tractor,
                 (new NumericDiffImageCost(icf), ceres::TAKE_OWNERSHIP,
                  numeric_stepsize);
 #endif
-            for (i=0; i<nparams; i++)
+            for (int j=0; j<nparams; j++)
                 dyncost->AddParameterBlock(1);
             dyncost->SetNumResiduals(icf->nPix());
             cost = dyncost;
-- 
2.43.0


From 16592108c4ac6ef579502152907adc1169214e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 080/118] fix: Ceres variances are computed when the dlnp
 criterion stops the fit

---
 tractor/ceres.i | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index e5a99f9..ac2872f 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -590,7 +590,9 @@ static PyObject* ceres_opt(PyObject* tractor,
     //printf("%s\n", summary.BriefReport().c_str());
     //printf("%s\n", summary.FullReport().c_str());
 
-    if (get_variance && (summary.termination_type == ceres::CONVERGENCE)) {
+    // (the DlnpCallback terminates with USER_SUCCESS)
+    if (get_variance && ((summary.termination_type == ceres::CONVERGENCE) ||
+                         (summary.termination_type == ceres::USER_SUCCESS))) {
         if (!PyArray_Check(py_variance)) {
             printf("ceres_opt: variance must be a numpy array\n");
             return NULL;
-- 
2.43.0


From 6ef30fa9791e859e8be3bb9e66b6fd0a4f06b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 081/118] fix: CeresOptimizer non-negative forced photometry
 does not assert on the solver summary

---
 tractor/ceres_optimizer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 057c427..1a7f48d 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -362,7 +362,6 @@ class CeresOptimizer(Optimizer):
         if nonneg:
             # Initial run with nonneg=False, to get in the ballpark
             x = ceres_forced_phot(blocks, fluxes, 0, iverbose, ithreads)
-            assert(x == 0)
             logverb('forced phot: ceres initial run', Time() - t0)
             t0 = Time()
             if negfluxval is not None:
-- 
2.43.0


From 708526544bbc2955ccebb4d40c6828425da4ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 082/118] fix: CeresOptimizer honours its block size arguments

---
 tractor/ceres_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 1a7f48d..5ab3a89 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -11,8 +11,8 @@ class CeresOptimizer(Optimizer):
 
     def __init__(self, BW=10, BH=10, threads=None):
         super(CeresOptimizer, self).__init__()
-        self.BW = 10
-        self.BH = 10
+        self.BW = BW
+        self.BH = BH
         self.ceresType = np.float32
         self.threads = threads
 
-- 
2.43.0


From 58b12b42452995807d219ef1b4cac27ded3b81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:15 +0000
Subject: [PATCH 083/118] fix: CeresOptimizer.optimize with no parameters

---
 tractor/ceres_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 5ab3a89..04006c9 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -42,6 +42,11 @@ class CeresOptimizer(Optimizer):
     def optimize(self, tractor, variance=False, **kwargs):
         X = self._ceres_opt(tractor, variance=variance, **kwargs)
         #print('optimize:', X)
+        if X is None:
+            # no parameters to fit
+            if variance:
+                return 0., None, 0., np.array([])
+            return 0., None, 0.
         chisq0 = X['initial_cost']
         chisq1 = X['final_cost']
         if variance:
-- 
2.43.0


From 159ed3cdf0b3c653665cce14e7c888c8edc17ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 084/118] fix: Ceres keeps the best-fit parameters when
 computing variances

---
 tractor/ceres.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/ceres.i b/tractor/ceres.i
index ac2872f..4f2e940 100644
--- a/tractor/ceres.i
+++ b/tractor/ceres.i
@@ -617,6 +617,9 @@ static PyObject* ceres_opt(PyObject* tractor,
         //options.algorithm_type = SPARSE_QR;
         //options.algorithm_type = SPARSE_CHOLESKY;
 
+        // (evaluating numeric derivatives overwrites the parameter array)
+        std::vector<double> bestparams(params, params + nparams);
+
         ceres::Covariance covariance(options);
 
         std::vector<std::pair<const double*, const double*> > covar_blocks;
@@ -631,6 +634,8 @@ static PyObject* ceres_opt(PyObject* tractor,
         }
         for (i=0; i<nparams; i++)
             covariance.GetCovarianceBlock(params+i, params+i, cov_out+i);
+        for (i=0; i<nparams; i++)
+            params[i] = bestparams[i];
     }
 
     const char* errstring = summary.message.c_str();
-- 
2.43.0


From b8b56b82f484fe518142247d16aab496b237efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 085/118] fix: PsfExModel copies keep the FWHM

---
 tractor/psfex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6c060bd..c7e37c5 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -276,7 +276,7 @@ class PsfExModel(object):
     def shifted(self, dx, dy):
         copy = self.__class__()
         for key in ['sampling', 'psfbases', 'xscale', 'yscale', 'degree', 'radius',
-                    'x0', 'y0']:
+                    'x0', 'y0', 'fwhm']:
             setattr(copy, key, getattr(self, key))
         copy.shift(dx, dy)
         return copy
-- 
2.43.0


From b974d6adc9bfbd004cde88c7d0a30d4d4310ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 086/118] fix: PsfExModel accepts windowed positions in merged
 tables

---
 tractor/psfex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index c7e37c5..6759b18 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -211,8 +211,8 @@ class PsfExModel(object):
             degree = Ti.poldeg1
             # PSF distortion bases are polynomials of x,y
             if degree > 0:
-                assert(Ti.polname1.strip() == 'X_IMAGE')
-                assert(Ti.polname2.strip() == 'Y_IMAGE')
+                assert(Ti.polname1.strip() in ['X_IMAGE','XWIN_IMAGE'])
+                assert(Ti.polname2.strip() in ['Y_IMAGE','YWIN_IMAGE'])
                 assert(Ti.polgrp1 == 1)
                 assert(Ti.polgrp2 == 1)
                 assert(Ti.polngrp == 1)
-- 
2.43.0


From 233bf510aa1942189dddf9bc04a2d083b00fda51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 087/118] fix: Fourier transforms of oversampled PSF models
 that vary across the image

---
 tractor/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 8f38471..fbd0ae3 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -356,7 +356,7 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
         # shift by fractional pixel
         dx = px - int(px)
         dy = py - int(py)
-        _, _, img = self._sampleImage(None, dx, dy)
+        _, _, img = self._sampleImage(self.getImage(px, py), dx, dy)
         pad, cx, cy = self._padInImage(sz, sz, img=img)
         cx += dx
         cy += dy
-- 
2.43.0


From 2521908d70863a44434a3d9e464ce1b9813b361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 088/118] fix: PixelizedPsfEx.shift drops Fourier transforms
 cached by position

---
 tractor/psfex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 6759b18..e6ab70d 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -468,6 +468,8 @@ class PixelizedPsfEx(PixelizedPSF):
         None
         '''
         self.psfex.shift(dx, dy)
+        # Fourier transforms of oversampled models are cached by position
+        self.fftcache = {}
 
     def constantPsfAt(self, x, y):
         pix = self.psfex.at(x, y)
-- 
2.43.0


From 2d99b885f2632060085bcd7e9d822eb2968df798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 089/118] fix: VaryingGaussianPSF can start GaussianMixturePSF
 fits from its neighbours

---
 tractor/psf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/psf.py b/tractor/psf.py
index fbd0ae3..bcf0698 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -548,11 +548,16 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         mu has shape (N,2)
         var (variance) has shape (N,2,2)
 
+        or P0 = list of the 6N floats that are the parameters of a
+        GaussianMixturePSF.
+
         optional xy0 = int x0,y0 origin of stamp.
         '''
         from tractor.emfit import em_fit_2d_reg
         from tractor.fitpsf import em_init_params
         if P0 is not None:
+            if len(P0) != 3:
+                P0 = GaussianMixturePSF(*P0).get_wmuvar()
             w, mu, var = P0
         else:
             w, mu, var = em_init_params(N, None, None, None)
-- 
2.43.0


From f0ad2e098b77ed5724a9c8eddd1da652fa537224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 090/118] fix: VaryingGaussianPsfEx.fromFits restores what
 toFits saved

---
 tractor/psfex.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index e6ab70d..1d1c3c8 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from tractor.utils import MultiParams, getClassName
-from tractor.psf import GaussianMixturePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
+from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF, PixelizedPSF, NormalizedPsf, NormalizedPixelizedPsf
 from tractor import mixture_profiles as mp
 from tractor import ducks
 
@@ -69,7 +69,10 @@ class VaryingGaussianPSF(MultiParams, ducks.ImageCalibration):
         This methods does the evaluation if necessary.
         '''
         if self.splines is None:
-            self._fitParamGrid()
+            if getattr(self, 'splinedata', None) is not None:
+                self.ensureSplines()
+            else:
+                self._fitParamGrid()
 
     def getPointSourcePatch(self, px, py, **kwargs):
         psf = self.psfAt(px, py)
@@ -575,7 +578,8 @@ class VaryingGaussianPsfEx(VaryingGaussianPSF):
         T = T[0]
         t = hdr['PSFEX_T'].strip()
         # print 'Type:', t
-        assert(t == 'tractor.psfex.PsfEx')
+        assert(t in ['tractor.psfex.PsfEx', typestring(PsfEx),
+                     typestring(CachingPsfEx)])
         psft = hdr['PSF_TYPE']
         knowntypes = dict([(typestring(x), x)
                            for x in [GaussianMixturePSF,
-- 
2.43.0


From f83aa44c31f3512410cf3c4a93631fc1dae0140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:21 +0000
Subject: [PATCH 091/118] fix: CachingPsfEx evaluates the model it was made
 from

---
 tractor/psfex.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tractor/psfex.py b/tractor/psfex.py
index 1d1c3c8..3c2bd7a 100644
--- a/tractor/psfex.py
+++ b/tractor/psfex.py
@@ -706,8 +706,7 @@ class CachingPsfEx(PsfEx):
         c = CachingPsfEx(None, psfex.W, psfex.H, nx=psfex.nx, ny=psfex.ny,
                          scale=psfex.scale, K=psfex.K,
                          psfClass=psfex.psfclass, **kwargs)
-        for k in ['sampling', 'xscale', 'yscale', 'x0', 'y0', 'degree', 'radius',
-                  'psfbases', 'splinedata', 'splines']:
+        for k in ['psfex', 'splinedata', 'splines']:
             setattr(c, k, getattr(psfex, k, None))
         return c
 
@@ -730,8 +729,8 @@ class CachingPsfEx(PsfEx):
 
     def psfAt(self, x, y):
         # Center of rounding cell:
-        cx = int(x / self.rounding) * self.rounding + self.rounding // 2
-        cy = int(y / self.rounding) * self.rounding + self.rounding // 2
+        cx = int(np.floor(x / self.rounding)) * self.rounding + self.rounding // 2
+        cy = int(np.floor(y / self.rounding)) * self.rounding + self.rounding // 2
         key = (cx, cy)
         mog = self.cache.get(key, None)
         if mog is not None:
-- 
2.43.0


From 21a816afeda5202b4990b24f20208d1fcab0932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 092/118] fix: division and reflected subtraction of
 ArithmeticParams

---
 tractor/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tractor/utils.py b/tractor/utils.py
index 6817cc7..10fd3b2 100644
--- a/tractor/utils.py
+++ b/tractor/utils.py
@@ -925,10 +925,21 @@ class ArithmeticParams(object):
             self.setAllParams([x / other for x in self.getAllParams()])
         return self
 
+    def __rsub__(self, other):
+        return (self * -1.) + other
+
+    def __rdiv__(self, other):
+        res = self.copy()
+        res.setAllParams([other / x for x in res.getAllParams()])
+        return res
+
     __radd__ = __add__
-    __rsub__ = __sub__
     __rmul__ = __mul__
-    __rdiv__ = __div__
+
+    # python 3
+    __truediv__ = __div__
+    __itruediv__ = __idiv__
+    __rtruediv__ = __rdiv__
 
 
 class MultiParams(BaseParams, NamedParams):
-- 
2.43.0


From 8080bb8122d0eb2e7ac02796604d05a871387a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:44 +0000
Subject: [PATCH 093/118] fix: derivatives of moving sources that miss their
 model mask

---
 tractor/motion.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tractor/motion.py b/tractor/motion.py
index 8d421f1..46b06c6 100644
--- a/tractor/motion.py
+++ b/tractor/motion.py
@@ -148,6 +148,8 @@ class MovingPointSource(PointSource):
         pos0 = self.getPositionAtTime(t)
         (px0, py0) = img.getWcs().positionToPixel(pos0, self)
         patch0 = img.getPsf().getPointSourcePatch(px0, py0, modelMask=modelMask)
+        if patch0 is None:
+            return [None] * self.numberOfParams()
         counts0 = img.getPhotoCal().brightnessToCounts(self.brightness)
         derivs = []
 
@@ -191,7 +193,11 @@ class MovingPointSource(PointSource):
                 # print 'stepping param', name, i, '-->', p, '--> pos', tpos, 'pix pos', px,py
                 patchx = img.getPsf().getPointSourcePatch(px, py, modelMask=modelMask)
                 p.setParam(i, oldval)
-                dx = (patchx - patch0) * (counts0 / pstep)
+                if patchx is None:
+                    # stepped out of the model mask
+                    dx = patch0 * (-counts0 / pstep)
+                else:
+                    dx = (patchx - patch0) * (counts0 / pstep)
                 dx.setName('d(ptsrc)/d(%s%i)' % (name, i))
                 # print 'deriv', dx.patch.min(), dx.patch.max()
                 derivs.append(dx)
-- 
2.43.0


From 4c9bbad81bea1b4dc409988ae07c2e81313f2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:25 +0000
Subject: [PATCH 094/118] fix: fitpsf builds its pixel grid under Python 3

---
 tractor/fitpsf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/fitpsf.py b/tractor/fitpsf.py
index f5dc961..9fc9a91 100644
--- a/tractor/fitpsf.py
+++ b/tractor/fitpsf.py
@@ -23,7 +23,7 @@ def qn1fit(I, x0, y0, K=2, w=None, mu=None, sig=None):
     X, Y = np.meshgrid(np.arange(W) + x0, np.arange(H) + y0)
     II = I.ravel()
     II /= II.sum()
-    xy = np.array(zip(X.ravel(), Y.ravel())).astype(float)
+    xy = np.array(list(zip(X.ravel(), Y.ravel()))).astype(float)
     N = len(II)
 
     I = (K, N, II, xy)
@@ -114,7 +114,7 @@ def emfit(I, x0, y0, K=2, w=None, mu=None, sig=None, plots=False,
 
     II = I.ravel()
     II /= II.sum()
-    xy = np.array(zip(X.ravel(), Y.ravel())).astype(float)
+    xy = np.array(list(zip(X.ravel(), Y.ravel()))).astype(float)
     N = len(II)
 
     steps = 1000
@@ -151,7 +151,7 @@ def gauss2d(X, mu, C):
 
 def render_image(X, Y, w, mu, sig):
     I = np.zeros_like(X).astype(float)
-    xy = np.array(zip(X.ravel(), Y.ravel())).astype(float)
+    xy = np.array(list(zip(X.ravel(), Y.ravel()))).astype(float)
     for m, wi, s in zip(mu, w, sig):
         I += wi * gauss2d(xy, m, s).reshape(I.shape)
     return I
-- 
2.43.0


From 8f4527aadb2c9f995cf59e51432642713bbe445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:25 +0000
Subject: [PATCH 095/118] fix: fitpsf.emfit leaves the image and initial
 parameters it is given alone

---
 tractor/fitpsf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/fitpsf.py b/tractor/fitpsf.py
index 9fc9a91..6694af3 100644
--- a/tractor/fitpsf.py
+++ b/tractor/fitpsf.py
@@ -107,13 +107,16 @@ def em_update(K, N, II, xy, w, mu, sig):
 
 def emfit(I, x0, y0, K=2, w=None, mu=None, sig=None, plots=False,
           printlog=True):
+    # don't modify the caller's initial parameters or image.
+    w, mu, sig = [None if p is None else np.array(p, float)
+                  for p in (w, mu, sig)]
     w, mu, sig = em_init_params(K, w, mu, sig)
 
     (H, W) = I.shape
     X, Y = np.meshgrid(np.arange(W) + x0, np.arange(H) + y0)
 
     II = I.ravel()
-    II /= II.sum()
+    II = II / II.sum()
     xy = np.array(list(zip(X.ravel(), Y.ravel()))).astype(float)
     N = len(II)
 
-- 
2.43.0


From dac6c393fb2b1863ed461c0d88cc0d8a1fbf4f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:25 +0000
Subject: [PATCH 096/118] fix: GaussianMixturePSF.fromStamp leaves the initial
 parameters it is given alone

---
 tractor/psf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index bcf0698..abdc19e 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -558,7 +558,8 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         if P0 is not None:
             if len(P0) != 3:
                 P0 = GaussianMixturePSF(*P0).get_wmuvar()
-            w, mu, var = P0
+            # (the fit happens in place)
+            w, mu, var = [np.array(p) for p in P0]
         else:
             w, mu, var = em_init_params(N, None, None, None)
         stamp = stamp.copy()
-- 
2.43.0


From 4688f748bce5e7ae7b0df69ea6e618a334a03b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:02 +0000
Subject: [PATCH 097/118] fix: symmetric_integral_image can be imported from
 the package

---
 tractor/symmetric_integral_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/symmetric_integral_image.py b/tractor/symmetric_integral_image.py
index fe698d7..861d7c4 100644
--- a/tractor/symmetric_integral_image.py
+++ b/tractor/symmetric_integral_image.py
@@ -2,7 +2,7 @@
 from __future__ import print_function
 
 from numpy import *
-from integral_image import intimg_rect
+from tractor.integral_image import intimg_rect
 
 import unittest
 
-- 
2.43.0


From 88751d3bbb9f8c800d8937be00220bda64e9f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:37 +0000
Subject: [PATCH 098/118] fix: get_tractor_sources_cas_dr9 uses names that
 exist

---
 tractor/sdss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 8adfc80..9c48d6a 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -543,10 +543,10 @@ def get_tractor_sources_cas_dr9(table, bandname='r', bands=None,
     '''
     table: filename or astrometry.util.fits.fits_table() object
     '''
-    from astrometry.sdss import band_names
-    from astrometry.util.fits import fits_table
+    from astrometry.sdss import band_names, DR9
+    from astrometry.util.fits import fits_table, tabledata
 
-    if isinstance(table, basestring):
+    if isinstance(table, str):
         cas = fits_table(table)
     else:
         cas = table
-- 
2.43.0


From 73b8b98876988d98d661b70091796ec0c40f43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 099/118] fix: SdssWcs.pixscale_at is in arcsec, like all the
 others

---
 tractor/sdss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 9c48d6a..3a1bba1 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -1002,7 +1002,8 @@ class SdssWcs(ParamList):
     def pixscale_at(self, x, y):
         cd = self.cdAtPixel(x, y)
         pixscale = np.sqrt(np.abs(cd[0, 0] * cd[1, 1] - cd[0, 1] * cd[1, 0]))
-        return pixscale
+        # degrees to arcsec
+        return 3600. * pixscale
 
     # RA,Dec in deg to pixel x,y.
     # HACK -- color -- debug
-- 
2.43.0


From 9e22260df7b6c919bdc6a9fb66980cc2a3af3114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 100/118] fix: SdssWcs can be copied, shifted and used for
 galaxy derivatives

---
 tractor/sdss.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 3a1bba1..c79503b 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -22,6 +22,7 @@ from datetime import datetime
 import pylab as plt
 import numpy as np
 
+from . import ducks
 from .engine import *
 from .basics import *
 from .imageutils import interpret_roi
@@ -906,7 +907,7 @@ def get_tractor_image_dr9(*args, **kwargs):
     return get_tractor_image_dr8(*args, **kwargs)
 
 
-class SdssWcs(ParamList):
+class SdssWcs(ParamList, ducks.WCS):
     pnames = ['a', 'b', 'c', 'd', 'e', 'f',
               'drow0', 'drow1', 'drow2', 'drow3',
               'dcol0', 'dcol1', 'dcol2', 'dcol3',
@@ -932,6 +933,20 @@ class SdssWcs(ParamList):
         self.constant_cd = None
         self.constant_cdi = None
 
+    def copy(self):
+        from copy import deepcopy
+        wcs = self.__class__(deepcopy(self.astrans))
+        wcs.setX0Y0(self.x0, self.y0)
+        wcs.constant_cd = self.constant_cd
+        wcs.constant_cdi = self.constant_cdi
+        wcs.liquid = list(self.liquid)
+        return wcs
+
+    def shifted(self, dx, dy):
+        wcs = self.copy()
+        wcs.setX0Y0(self.x0 + dx, self.y0 + dy)
+        return wcs
+
     def setConstantCd(self, x, y):
         self.constant_cd = self.cdAtPixel(x, y)
         self.constant_cdi = np.linalg.inv(self.constant_cd)
-- 
2.43.0


From 6b1c0b113ad52545f95d3e7a78df3bdcb81be040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 101/118] fix: SdssPointSource.copy copies the source

---
 tractor/sdss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index c79503b..8a9a3d1 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -117,7 +117,8 @@ class SdssPointSource(PointSource):
             self.thresh2 = None
 
     def copy(self):
-        return SdssPointSource(pos, bright, self.thresh1, self.thresh2)
+        return SdssPointSource(self.pos.copy(), self.brightness.copy(),
+                               self.thresh1, self.thresh2)
 
     def getModelPatch(self, img, modelMask=None, **kwargs):
         assert(modelMask is None)
-- 
2.43.0


From 49e246ac9f1f4be5ed19816deec15e3c4fa36191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 102/118] fix: SdssPointSource with equal thresholds

---
 tractor/sdss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 8a9a3d1..c2f42a7 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -129,7 +129,7 @@ class SdssPointSource(PointSource):
         if self.thresh1 is not None and counts >= self.thresh1:
             fb = 1.
             fa = 0.
-        if self.thresh2 is not None and counts >= self.thresh2:
+        elif self.thresh2 is not None and counts >= self.thresh2:
             fb = (counts - self.thresh2) / (self.thresh1 - self.thresh2)
             fb = np.clip(fb, 0., 1.)
             fa = 1. - fb
-- 
2.43.0


From 2fe44718878804ac8e8c41869b29b47fb6d479c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 103/118] fix: Image.getMedianPixelNoise, needed by
 SdssPointSource

---
 tractor/image.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tractor/image.py b/tractor/image.py
index acfb41c..201b71f 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -101,6 +101,16 @@ class Image(MultiParams):
     def getTime(self):
         return self.time
 
+    def getMedianPixelNoise(self):
+        '''
+        Returns the median error (sigma) of the unmasked pixels.
+        '''
+        ie = self.getInvError()
+        ie = ie[ie > 0]
+        if len(ie) == 0:
+            return np.inf
+        return 1. / np.median(ie)
+
     def getParamDerivatives(self, tractor, srcs, **kwargs):
         '''
         Returns a list of Patch objects, one per numberOfParams().
-- 
2.43.0


From 4a50bed0e1b0154db05a7e64f31392bf129e6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 104/118] fix: scale_sdss_image makes an image of integer size

---
 tractor/sdss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index c2f42a7..0121d9e 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -628,7 +628,7 @@ def scale_sdss_image(tim, S):
     assert((W % S) == 0)
 
     # rebin image data
-    sH, sW = H / S, W / S
+    sH, sW = H // S, W // S
     newdata = np.zeros((sH, sW), dtype=data.dtype)
     newiv = np.zeros((sH, sW), dtype=invvar.dtype)
     for i in range(S):
-- 
2.43.0


From 294356927b91292b63dde4c0b5003b5515efa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:04 +0000
Subject: [PATCH 105/118] fix: invvarAtCenterImage for a whole SDSS frame

---
 tractor/sdss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 0121d9e..1dc7a7f 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -817,14 +817,15 @@ def _get_tractor_image_dr8(run, camcol, field, bandname, sdss=None,
     else:
         roislice = (slice(y0, y1), slice(x0, x1))
         image = frame.getImageSlice(roislice).astype(np.float32)
-        if invvarAtCenterImage:
-            invvar = invvar + np.zeros(image.shape, np.float32)
-        elif invvarAtCenter:
+        if invvarAtCenter:
             pass
         else:
             invvar = invvar[roislice].copy()
         H, W = image.shape
 
+    if invvarAtCenterImage:
+        invvar = invvar + np.zeros(image.shape, np.float32)
+
     if (not invvarAtCenter) or invvarAtCenterImage:
         for plane in ['INTERP', 'SATUR', 'CR', 'GHOST']:
             fpM.setMaskedPixels(plane, invvar, 0, roi=roi)
-- 
2.43.0


From fa7d683026987df46ccbeb78e1c8348edde6eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:10 +0000
Subject: [PATCH 106/118] fix: SdssBrightPSF can be copied and shifted

---
 tractor/sdss.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 1dc7a7f..0afff33 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -42,6 +42,16 @@ class SdssBrightPSF(ParamsWrapper):
         self.beta = beta
         super(SdssBrightPSF, self).__init__(real)
 
+    def _wrap(self, real):
+        return self.__class__(real, self.a1, self.s1, self.a2, self.s2,
+                              self.a3, self.sigmap, self.beta)
+
+    def copy(self):
+        return self._wrap(self.real.copy())
+
+    def getShifted(self, x0, y0):
+        return self._wrap(self.real.getShifted(x0, y0))
+
     def getRadius(self):
         return self.real.getRadius()
 
-- 
2.43.0


From 74e54b39f44ed52e6673bd659a225bdd392bc840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:56 +0000
Subject: [PATCH 107/118] fix: SDSS sources near a position when no source is
 left after the earlier cuts

---
 tractor/sdss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/sdss.py b/tractor/sdss.py
index 0afff33..f61baa5 100644
--- a/tractor/sdss.py
+++ b/tractor/sdss.py
@@ -307,7 +307,7 @@ def _get_sources(run, camcol, field, bandname='r', sdss=None, release='DR7',
         objs.cut((objs.ra >= r0) * (objs.ra <= r1) *
                  (objs.dec >= d0) * (objs.dec <= d1))
 
-    if radecrad is not None:
+    if radecrad is not None and len(objs):
         from astrometry.libkd.spherematch import match_radec
         (ra, dec, rad) = radecrad
         I, J, d = match_radec(ra, dec, objs.ra, objs.dec, rad)
-- 
2.43.0


From 075886957c47142b492b0cb46b3816b9598b99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 108/118] fix: SFDMap does not wrap around to the far edge of
 the map in its first half pixel

---
 tractor/sfd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tractor/sfd.py b/tractor/sfd.py
index 6510080..9490726 100644
--- a/tractor/sfd.py
+++ b/tractor/sfd.py
@@ -66,8 +66,8 @@ class SFDMap(object):
     @staticmethod
     def bilinear_interp_nonzero(image, x, y):
         H, W = image.shape
-        x0 = np.floor(x).astype(int)
-        y0 = np.floor(y).astype(int)
+        x0 = np.clip(np.floor(x).astype(int), 0, W - 1)
+        y0 = np.clip(np.floor(y).astype(int), 0, H - 1)
         # Bilinear interpolate, but not outside the bounds (where ebv=0)
         fx = np.clip(x - x0, 0., 1.)
         ebvA = image[y0, x0]
-- 
2.43.0


From 00d5d6ceaab94bad5fc2e569fb6f8eeab9a68f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:13 +0000
Subject: [PATCH 109/118] fix: AllWISE sources in a field that contains a pole

---
 wise/wisecat.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wise/wisecat.py b/wise/wisecat.py
index 0a5a4df..60ea474 100644
--- a/wise/wisecat.py
+++ b/wise/wisecat.py
@@ -12,6 +12,14 @@ def _read_wise_cats_wcs(wcs,
     W, H = wcs.get_width(), wcs.get_height()
     d0 -= margin
     d1 += margin
+    # The bounds are those of the image edges; a pole inside the image is
+    # beyond them.
+    for pole in [-90., 90.]:
+        ok, x, y = wcs.radec2pixelxy(0., pole)
+        if (ok and x >= (0.5 - pixelmargin) and x <= (W + 0.5 + pixelmargin) and
+            y >= (0.5 - pixelmargin) and y <= (H + 0.5 + pixelmargin)):
+            d0 = min(d0, pole)
+            d1 = max(d1, pole)
     # Dec bounds are useful, but ignore RA
     TT = []
     for i, (dlo, dhi) in enumerate(decranges):
-- 
2.43.0


From 1a73801524f2a65b4a32bef1f4f6ab7ff5b6996c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:28 +0000
Subject: [PATCH 110/118] fix: galaxies of a fixed size under a pixelized PSF:
 do not cut the PSF to that size

With the "halfsize" attribute set smaller than the PSF stamp, the Fourier
transform was done at that size, so that the PSF was cut and wrapped around.
---
 tractor/galaxy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 3501a53..8d44b6b 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -372,6 +372,11 @@ class ProfileGalaxy(object):
                     return run_mog(mm=modelMask)
                 else:
                     raise RuntimeError('sourceOut, not hybrid')
+        else:
+            # The PSF must fit, also when a smaller model size was requested
+            # (self.halfsize); otherwise the PSF gets cut and wraps around.
+            psfh, psfw = psf.shape
+            halfsize = int(np.ceil(max(halfsize, psfw / 2., psfh / 2.)))
 
         if halfsize > 4096:
             warnings.warn('Giant galaxy model (halfsize=%i); proceeding anyway' % halfsize)
-- 
2.43.0


From f83427e8a8a38300026d798ee3a2e2c9471d757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 111/118] fix: point sources with a fractional fixed radius
 under an NCircularGaussianPSF

---
 tractor/psf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index abdc19e..93885bb 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -923,7 +923,7 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             if radius is None:
                 rad = int(np.ceil(self.getRadius()))
             else:
-                rad = radius
+                rad = int(np.ceil(radius))
             x0 = ix - rad
             x1 = ix + rad + 1
             y0 = iy - rad
-- 
2.43.0


From 7c1d3581651e5e2b9f29f6f8d8b856e3f1e1b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 112/118] fix: NCircularGaussianPSF: do not modify the shared
 mixture while rendering

An exception during the rendering left the cached mixture moved, for every
PSF with the same parameters.
---
 tractor/psf.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 93885bb..9953421 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -937,16 +937,14 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
             y1 = min(y1, yh)
         if x0 >= x1 or y0 >= y1:
             return None
-        # UGH - API question -- is the getMixtureOfGaussians() result read-only?
+        # The mixture is cached and shared, so don't modify it.
         mix = self.getMixtureOfGaussians()
-        oldmean = mix.mean
-        mix.mean = mix.mean.copy()
-        mix.mean[:, 0] += px
-        mix.mean[:, 1] += py
-        p = mp.mixture_to_patch(mix, x0, x1, y0, y1, minval=minval,
-                                exactExtent=(modelMask is not None))
-        mix.mean = oldmean
-        return p
+        mean = mix.mean.copy()
+        mean[:, 0] += px
+        mean[:, 1] += py
+        mix = mp.MixtureOfGaussians(mix.amp, mean, mix.var, quick=True)
+        return mp.mixture_to_patch(mix, x0, x1, y0, y1, minval=minval,
+                                   exactExtent=(modelMask is not None))
 
 def getCircularMog(amps, sigmas):
     K = len(amps)
-- 
2.43.0


From 5d0e3139aef4e7325dbc71e28f17c08990485906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:32 +0000
Subject: [PATCH 113/118] fix: galaxies near a model mask that does not contain
 them: their light spreads by the PSF

---
 tractor/galaxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tractor/galaxy.py b/tractor/galaxy.py
index 8d44b6b..4ee979f 100644
--- a/tractor/galaxy.py
+++ b/tractor/galaxy.py
@@ -365,7 +365,9 @@ class ProfileGalaxy(object):
                     neardy = py - y1
                 nearest = np.hypot(neardx, neardy)
                 pixscale = img.wcs.pixscale_at((x0+x1)/2., (y0+y1)/2.)
-                if nearest > (self.getRadius() / pixscale) and not force_sourceOut:
+                # (the PSF spreads the galaxy's light beyond its radius)
+                radius = self.getRadius() / pixscale + psf.getRadius()
+                if nearest > radius and not force_sourceOut:
                     return None
 
                 if hybrid:
-- 
2.43.0


From 6093b4580fade1b2874e3eac19a7625a0ca01fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:32 +0000
Subject: [PATCH 114/118] fix: Image.subimage() keeps modelMinval

---
 tractor/image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tractor/image.py b/tractor/image.py
index 201b71f..e3f98ff 100644
--- a/tractor/image.py
+++ b/tractor/image.py
@@ -92,6 +92,7 @@ class Image(MultiParams):
                        photocal=self.photocal.copy())
         subtim.name = self.name
         subtim.time = self.time
+        subtim.modelMinval = self.modelMinval
         return subtim
 
     @staticmethod
-- 
2.43.0


From 52da518fb6dc30985c2e7e5327798756580a3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 115/118] fix: copies of PSF models keep the radius that was
 set

---
 tractor/psf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tractor/psf.py b/tractor/psf.py
index 9953421..eba3c9d 100644
--- a/tractor/psf.py
+++ b/tractor/psf.py
@@ -121,8 +121,10 @@ class PixelizedPSF(BaseParams, ducks.ImageCalibration):
                 self.sampling, self.Lorder)
 
     def copy(self):
-        return self.__class__(self.img.copy(), sampling=self.sampling,
-                              Lorder=self.Lorder)
+        c = self.__class__(self.img.copy(), sampling=self.sampling,
+                           Lorder=self.Lorder)
+        c.radius = self.radius
+        return c
 
     def getShifted(self, x0, y0):
         # not spatially varying
@@ -395,6 +397,11 @@ class GaussianMixturePSF(MogParams, ducks.ImageCalibration):
         K = self.mog.K
         self.stepsizes = [0.01] * K + [0.01] * (K * 2) + [0.1] * (K * 3)
 
+    def copy(self):
+        c = super().copy()
+        c.radius = self.radius
+        return c
+
     def getShifted(self, x0, y0):
         # not spatially varying
         return self
@@ -891,6 +898,8 @@ class NCircularGaussianPSF(MultiParams, ducks.ImageCalibration):
         c.weights.liquid = list(self.weights.liquid)
         c.liquid = list(self.liquid)
         c.minradius = self.minradius
+        if hasattr(self, 'radius'):
+            c.radius = self.radius
         return c
 
     def applyTo(self, image):
-- 
2.43.0


From a8dcc9f917abfcec9aeadb147d4875311439a266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:04 +0000
Subject: [PATCH 116/118] fix: copies of shifted and scaled calibrations

---
 tractor/shifted.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tractor/shifted.py b/tractor/shifted.py
index 60467fd..8119a42 100644
--- a/tractor/shifted.py
+++ b/tractor/shifted.py
@@ -73,6 +73,9 @@ class ShiftedPsf(ParamsWrapper, ducks.ImageCalibration):
     def __str__(self):
         return ('ShiftedPsf: %i,%i + ' % (self.x0, self.y0)) + str(self.psf)
 
+    def copy(self):
+        return self.__class__(self.real.copy(), self.x0, self.y0)
+
     def hashkey(self):
         return ('ShiftedPsf', self.x0, self.y0) + self.psf.hashkey()
 
@@ -133,6 +136,9 @@ class ScaledPhotoCal(ParamsWrapper, ducks.ImageCalibration):
         self.pc = photocal
         self.factor = factor
 
+    def copy(self):
+        return self.__class__(self.real.copy(), self.factor)
+
     def hashkey(self):
         return ('ScaledPhotoCal', self.factor) + self.pc.hashkey()
 
@@ -146,6 +152,9 @@ class ScaledWcs(ParamsWrapper, ducks.WCS):
         self.factor = factor
         self.wcs = wcs
 
+    def copy(self):
+        return self.__class__(self.real.copy(), self.factor)
+
     def hashkey(self):
         return ('ScaledWcs', self.factor) + tuple(self.wcs.hashkey())
 
@@ -184,6 +193,9 @@ class ShiftedWcs(ParamsWrapper, ducks.WCS):
         print('Sub wcs:', self.wcs)
         self.wcs.toFitsHeader(hdr, prefix=prefix)
 
+    def copy(self):
+        return self.__class__(self.real.copy(), self.x0, self.y0)
+
     def hashkey(self):
         return ('ShiftedWcs', self.x0, self.y0) + tuple(self.wcs.hashkey())
 
-- 
2.43.0


From f776ffd3b5bcefdb5e910ffe6b3a766404030f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:30 +0000
Subject: [PATCH 117/118] fix: derivative steps of EllipseE stay within the
 legal ellipses

EllipseE.getAllStepSizes steps e1,e2 toward zero, so that the numerical
derivatives of very elongated galaxies do not step to e >= 1, but the fixed
step sizes set in the constructor meant that getStepSizes, which the
derivatives use, ignored it.
---
 tractor/ellipses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tractor/ellipses.py b/tractor/ellipses.py
index b26956e..dcacfd4 100644
--- a/tractor/ellipses.py
+++ b/tractor/ellipses.py
@@ -41,7 +41,6 @@ class EllipseE(ParamList):
 
     def __init__(self, *args, **kwargs):
         super(EllipseE, self).__init__(*args, **kwargs)
-        self.stepsizes = [0.01] * 3
         # Parameter limits
         self.lowers = [0., -1., -1.]
         self.uppers = [None, 1., 1.]
@@ -99,6 +98,9 @@ class EllipseE(ParamList):
         return self.getName() + ': ' + repr(self)
 
     def getAllStepSizes(self, *args, **kwargs):
+        ss = getattr(self, 'stepsizes', None)
+        if ss is not None:
+            return list(ss)
         # re
         # e1,e2: step toward e=0
         ss = [0.01,
@@ -191,6 +193,7 @@ class EllipseESoft(EllipseE):
 
     def __init__(self, *args, **kwargs):
         super(EllipseESoft, self).__init__(*args, **kwargs)
+        self.stepsizes = [0.01] * 3
         # Have to override this because the superclass has parameter limits,
         # but this class does not.
         self.lowers = [None, None, None]
-- 
2.43.0


From 46da07dc1656909821e3c89b939703bd2106411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:55 +0000
Subject: [PATCH 118/118] fix: Ceres forced photometry of images that are not
 in C order

---
 tractor/ceres_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tractor/ceres_optimizer.py b/tractor/ceres_optimizer.py
index 04006c9..2074ddf 100644
--- a/tractor/ceres_optimizer.py
+++ b/tractor/ceres_optimizer.py
@@ -290,9 +290,9 @@ class CeresOptimizer(Optimizer):
                         slc = (slice(y0, min(y0 + self.BH, H)),
                                slice(x0, min(x0 + self.BW, W)))
                         data = (x0, y0,
-                                img.getImage()[slc].astype(self.ceresType),
-                                mod0[slc].astype(self.ceresType),
-                                img.getInvError()[slc].astype(self.ceresType))
+                                img.getImage()[slc].astype(self.ceresType, order='C'),
+                                mod0[slc].astype(self.ceresType, order='C'),
+                                img.getInvError()[slc].astype(self.ceresType, order='C'))
                         blocks.append((data, []))
 
             for modi, umod in enumerate(umods):
@@ -326,7 +326,7 @@ class CeresOptimizer(Optimizer):
                     ceresparam = nextparam
                     nextparam += 1
 
-                cmod = (umod.patch * scale).astype(self.ceresType)
+                cmod = (umod.patch * scale).astype(self.ceresType, order='C')
                 for by in range(by0, by1 + 1):
                     for bx in range(bx0, bx1 + 1):
                         bi = by * nbw + bx
-- 
2.43.0

