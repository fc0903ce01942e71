From f6bbfd19769ecce75fa301764be9c17b9a10c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 01/44] fix: copies of model mixtures keep the current
 gaussians

copy() rebuilt the mixture from the construction parameters, so a flux set with
set_flux, a shear or make_round was silently lost in the copy (and therefore in
a second get_sheared/make_round).
---
 ngmix/gmix/gmix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..3b11543 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -934,6 +934,7 @@ class GMixModel(GMix):
         Get a new GMix with the same parameters
         """
         gmix = GMixModel(self._pars, self._model_name)
+        gmix._data[:] = self._data[:]
         return gmix
 
     def set_cen(self, row, col):
@@ -976,7 +977,9 @@ class GMixCM(GMixModel):
         """
         Get a new GMix with the same parameters
         """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix = GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix._data[:] = self._data[:]
+        return gmix
 
     def _fill(self, pars):
         """
@@ -1061,6 +1064,7 @@ class GMixCoellip(GMixModel):
         Get a new GMix with the same parameters
         """
         gmix = GMixCoellip(self._pars)
+        gmix._data[:] = self._data[:]
         return gmix
 
 
-- 
2.43.0


From 307db4aec8f92c22528330254c098464cad186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 02/44] fix: GMix.make_round updates the determinants

The determinant kept the value from before rounding, so the rounded mixture
rendered with the wrong normalisation and had the wrong aperture flux.
---
 ngmix/gmix/gmix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 3b11543..a462cc6 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -580,6 +580,7 @@ class GMix(object):
             gdata["irc"][i] = 0.0
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
+            gdata["det"][i] = gdata["irr"][i] * gdata["icc"][i]
 
         return gm
 
-- 
2.43.0


From 47f996dc3e1a25e98b401ea9881c167d317bac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 03/44] fix: GMix equality compares the number of gaussians

Mixtures with different numbers of gaussians compared equal through
broadcasting, or raised ValueError.
---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index a462cc6..f16f422 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -437,6 +437,9 @@ class GMix(object):
         self_data = self.get_data()
         gm_data = gm.get_data()
 
+        if self_data.size != gm_data.size:
+            return False
+
         for n in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
             if not np.all(self_data[n] == gm_data[n]):
                 return False
-- 
2.43.0


From 4fcf5381f2eaeefdc90f0671bd8c2778f633903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 04/44] fix: Shape.set_g1g2 leaves the shape alone when the
 values are rejected

---
 ngmix/shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngmix/shape.py b/ngmix/shape.py
index f05c125..c33fa16 100644
--- a/ngmix/shape.py
+++ b/ngmix/shape.py
@@ -74,12 +74,12 @@ class Shape(object):
         g1,g2: scalar
             "reduced shear" shapes
         """
-        self.g1 = g1
-        self.g2 = g2
-
         g = numpy.sqrt(g1 * g1 + g2 * g2)
         if g >= 1.0:
             raise GMixRangeError("g out of range: %.16g" % g)
+
+        self.g1 = g1
+        self.g2 = g2
         self.g = g
 
     def get_sheared(self, s1, s2=None):
-- 
2.43.0


From fc6d9129eb859255823473817dbb8972f1a25788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 05/44] fix: Observation equality handles optional parts and
 unequal shapes

The presence of an optional part was looked up on the same object twice, so
comparing with an observation lacking it raised AttributeError, and images of
different shape raised ValueError.
---
 ngmix/observation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..0a5ef2a 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -763,13 +763,16 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
-                    if not np.all(self_data == obs_data):
+                    if atype == 'array':
+                        if not np.array_equal(self_data, obs_data):
+                            return False
+                    elif not np.all(self_data == obs_data):
                         return False
                 else:
                     return False
-- 
2.43.0


From 38084b0b0d1fbff1a65da7fbd20ee39dbe029ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 06/44] fix: the variance of a ratio is finite when the
 numerator is zero

A measured ellipticity moment of exactly zero gave NaN errors (and a
NONPOS_SHAPE_VAR flag, or ZeroDivisionError for python floats).
---
 ngmix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/util.py b/ngmix/util.py
index 3bfb67d..f2ed75a 100644
--- a/ngmix/util.py
+++ b/ngmix/util.py
@@ -62,9 +62,10 @@ def get_ratio_var(a, b, var_a, var_b, cov_ab):
     if np.any(b == 0):
         raise ValueError("zero in denominator")
 
-    rsq = (a/b)**2
+    # written without dividing by a, which can be zero
+    rat = a/b
 
-    var = rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))
+    var = (var_a + rat**2 * var_b - 2 * rat * cov_ab) / b**2
     return var
 
 
-- 
2.43.0


From f10b4c6e7b9c45454fd234bbd16022f7e58f802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 07/44] fix: adaptive moments does not modify the guess mixture
 it is given

---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..e097906 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the guess is modified in place during the fit
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From b8d07c76e9f48adf13217468aa411970139570a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 08/44] fix: PriorBDSep and PriorBDFSep accept a tuple of flux
 priors

A tuple was accepted but then failed in set_bounds with TypeError.
---
 ngmix/joint_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..8b264dc 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -301,6 +301,7 @@ class PriorBDSep(PriorSimpleSep):
         self.fracdev_prior = fracdev_prior
 
         if isinstance(F_prior, (list, tuple)):
+            F_prior = list(F_prior)
             self.nband = len(F_prior)
         else:
             self.nband = 1
@@ -507,6 +508,7 @@ class PriorBDFSep(PriorSimpleSep):
         self.fracdev_prior = fracdev_prior
 
         if isinstance(F_prior, (list, tuple)):
+            F_prior = list(F_prior)
             self.nband = len(F_prior)
         else:
             self.nband = 1
-- 
2.43.0


From cc35d32197b98f8a2611df2c9d27458c60d92cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 09/44] fix: PriorCoellipSame bounds have one entry per
 parameter

The list had ngauss*ngauss + ngauss nested entries instead of ngauss sizes
followed by ngauss fluxes.
---
 ngmix/joint_prior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 8b264dc..77c3a50 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -902,16 +902,16 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
+        allp = [self.T_prior] + self.F_priors
 
         for i, p in enumerate(allp):
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                pbounds = (p.bounds[0], p.bounds[1])
             else:
-                pbounds = [(None, None)]
+                pbounds = (None, None)
 
-            bounds += [pbounds] * self.ngauss
+            bounds += [pbounds] * ngauss
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From 08fa1f37f740b37898f510c0bb0a3cfd05673e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 10/44] fix: PriorCoellipSame.sample draws each size once

The first size was the sum of two draws, which can lie outside the support of
the size prior.
---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 77c3a50..c1dfc62 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1013,16 +1013,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4 + i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From 86a366f34db21107485883fd8683c5e0f9f92a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 11/44] fix: PriorCoellipSame.get_lnprob_array uses every size
 and flux

The inherited version read one size and took the second size as the flux.
---
 ngmix/joint_prior.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index c1dfc62..cd5ecde 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -945,6 +945,35 @@ class PriorCoellipSame(PriorSimpleSep):
 
         return lnp
 
+    def get_lnprob_array(self, pars):
+        """
+        log probability for array input [N,ndims]
+
+        Parameters
+        ----------
+        pars: array
+            Array of parameters values
+        """
+
+        if pars.shape[1] != self.npars:
+            raise ValueError(
+                'pars size %d expected %d' % (pars.shape[1], self.npars)
+            )
+
+        ngauss = self.ngauss
+
+        lnp = self.cen_prior.get_lnprob_array(pars[:, 0], pars[:, 1])
+        lnp += self.g_prior.get_lnprob_array2d(pars[:, 2], pars[:, 3])
+
+        for i in range(ngauss):
+            lnp += self.T_prior.get_lnprob_array(pars[:, 4 + i])
+
+        F_prior = self.F_priors[0]
+        for i in range(ngauss):
+            lnp += F_prior.get_lnprob_array(pars[:, 4 + ngauss + i])
+
+        return lnp
+
     def fill_fdiff(self, pars, fdiff):
         """
         set sqrt(-2ln(p)) ~ (model-data)/err
-- 
2.43.0


From 7150ddf3667477140693da401e2e47132d230336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 12/44] fix: GaussMom always reports the flux and its named
 moments in flux units

The pixel area was not taken out when a flag was set, although the flux has its
own flags, nor from the named moments MF and M00.
---
 ngmix/gaussmom.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..46ee2df 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -55,15 +55,14 @@ class GaussMom(object):
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
-        # units
+        # units.  This is done also when flags are set, since the flux has its
+        # own flags
         area = obs.jacobian.area
         fac = 1/area
-        res['flux'] *= fac
-        res['flux_err'] *= fac
+        for name in ('flux', 'MF', 'M00'):
+            res[name] *= fac
+            res[f'{name}_err'] *= fac
         res['pars'][5] *= fac
         res["sums"] *= fac
         res["sums_cov"] *= fac**2
-- 
2.43.0


From 1275b9aa7f58c452c686b78c687aade5f9c51f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 13/44] fix: regularize_mom_shapes works for results with
 higher order moments

---
 ngmix/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index c1e028f..e3922dd 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -609,7 +609,7 @@ def regularize_mom_shapes(res, fwhm_reg):
 
         # the moments are not normalized and are sums, so convert T_reg to a sum using
         # the flux sum first via T_reg -> T_reg * raw_mom[5]
-        amat = np.eye(6)
+        amat = np.eye(raw_mom.size)
         amat[4, 5] = T_reg
 
         # the pre-PSF fitters do not fill out the centroid moments so hack around that
-- 
2.43.0


From 7068ef43f6df3d098e821844fc9f2c359ff52758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 14/44] fix: FlatPrior.get_lnprob_array returns an array

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..1e25393 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -137,7 +137,7 @@ class FlatPrior(PriorBase):
                 "[%s,%s]" % (self.minval, self.maxval)
             )
 
-        return retval
+        return vals*0 + retval
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From 25a0f42eae9e5f31cb8d7582237f12e06b8b4683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 15/44] fix: psf flux guessers do not reuse fluxes of another
 observation

The fluxes were remembered by id(obs), which python reuses after an observation
is freed, and were also kept from the previous observation when measuring the
new one failed.
---
 ngmix/guessers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..ccb8db5 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,15 +93,16 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
+        # keep the object itself rather than its id, which can be reused once
+        # the object is gone
+        if obs is not self._obs_last:
             fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
             self._psf_fluxes = fdict['flux']
+            self._obs_last = obs
         return self._psf_fluxes
 
     def __call__(self, obs, nrand=1):
@@ -162,7 +163,7 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
@@ -337,7 +338,7 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
-- 
2.43.0


From f34bd4925d398f6432743c9e285cb099a7543d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 16/44] fix: metacal psf cache only ever holds complete entries

The dilated profile was stored under the key used for the drawn image, so if
drawing failed with GMixRangeError the next request failed with TypeError.
---
 ngmix/metacal/metacal.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..7d5b794 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,11 +305,8 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
-        if key not in self._psf_cache:
-            self._psf_cache[key] = _do_dilate(psf, shear)
-
-        return self._psf_cache[key]
+        # the drawn psf is cached in get_target_psf
+        return _do_dilate(psf, shear)
 
     def _get_psf_key(self, shear, doshear):
         """
-- 
2.43.0


From 823d273c60da4c7437e298d919ec304d51490386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 17/44] fix: a rejected psf or gmix does not remove the one
 already set

Observation.set_psf and set_gmix deleted the current value before checking the
type of the new one.
---
 ngmix/observation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 0a5ef2a..d076a47 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -553,13 +553,12 @@ class Observation(MetadataMixin):
         """
         Set a psf Observation
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is not None:
             mess = "psf must be of Observation, got %s" % type(psf)
             assert isinstance(psf, Observation), mess
             self._psf = psf
+        elif self.has_psf():
+            del self._psf
 
     def get_psf(self):
         """
@@ -602,13 +601,12 @@ class Observation(MetadataMixin):
             The GMix to use to set the internal GMix.
         """
 
-        if self.has_gmix():
-            del self._gmix
-
         if gmix is not None:
             mess = "gmix must be of type GMix, got %s" % type(gmix)
             assert isinstance(gmix, GMix), mess
             self._gmix = gmix.copy()
+        elif self.has_gmix():
+            del self._gmix
 
     def get_gmix(self):
         """
-- 
2.43.0


From f873a78ab0679d45aa2b00c37ede84720e0fc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 18/44] fix: KObservation.set_psf does not keep a psf that it
 rejects

---
 ngmix/observation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index d076a47..e4a715d 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1232,21 +1232,20 @@ class KObservation(MetadataMixin):
             The PSF as a KObservation. If not None, the shape of the psf image
             should match the observation image.
         """
-        if self.has_psf():
-            del self._psf
-
         if psf is None:
+            if self.has_psf():
+                del self._psf
             return
 
         assert isinstance(psf, KObservation)
 
-        self._psf = psf
-
         if psf.kimage.array.shape != self.kimage.array.shape:
             raise ValueError("psf kimage must have "
                              "same shape as kimage")
         assert np.allclose(psf.kimage.scale, self.kimage.scale)
 
+        self._psf = psf
+
     def _set_jacobian(self):
         """
         center is always at the canonical center.
-- 
2.43.0


From 5a60bdeee20e72752184de15e207218590d8f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 19/44] fix: make_kobs does not add entries to the metadata of
 its input

The metadata dictionary of the real-space observation was shared with the
Fourier-space one and extended in place.
---
 ngmix/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e4a715d..fb61385 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1554,7 +1554,8 @@ def make_kobs(mb_obs, interp=DEFAULT_XINTERP):
             else:
                 psf_kobs = None
 
-            meta = iidict['meta']
+            meta = {}
+            meta.update(iidict['meta'])
             meta['realspace_gsimage'] = iidict['realspace_gsimage']
             meta['scale'] = iidict['scale']
             kobs = KObservation(
-- 
2.43.0


From bc49968b9143fb5b2d5a2fee16adf75d90c1f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 20/44] fix: a mixture can be copied after rejecting parameters

---
 ngmix/gmix/gmix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index f16f422..4a6a68d 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -404,12 +404,14 @@ class GMix(object):
             The parameters
         """
 
-        self._pars[:] = pars
+        # keep the parameters only if they are not rejected
+        pars = np.array(pars, dtype='f8')
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._pars,
+            gm, pars,
         )
+        self._pars[:] = pars
 
     def copy(self):
         """
@@ -996,12 +998,14 @@ class GMixCM(GMixModel):
             The parameters
         """
 
-        self._pars[:] = pars
+        # keep the parameters only if they are not rejected
+        pars = np.array(pars, dtype='f8')
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._fracdev, self._TdByTe, self._Tfactor, self._pars,
+            gm, self._fracdev, self._TdByTe, self._Tfactor, pars,
         )
+        self._pars[:] = pars
 
     def __repr__(self):
         rep = super(GMixCM, self).__repr__()
-- 
2.43.0


From 8c113fa0aa0ac361d12dfcb96cc2828d76b9a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 21/44] fix: an unusable gaussian is reported each time a
 mixture is evaluated

---
 ngmix/gmix/gmix_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..ea1a089 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,10 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # the norm_set of the first gaussian says if the norms of the mixture are
+    # set, so do it last in case an error is raised for one of the others
+    for i in range(gmix.size - 1, -1, -1):
+        gauss2d_set_norm(gmix[i])
 
 
 @njit
-- 
2.43.0


From e99a25f9c68285dc75306cd953b8181a87de866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 22/44] fix: moments skip pixels without weight instead of
 dividing by zero

---
 ngmix/admom/admom_nb.py | 10 ++++++++++
 ngmix/gmix/gmix_nb.py   |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/ngmix/admom/admom_nb.py b/ngmix/admom/admom_nb.py
index 79b4dae..cef5726 100644
--- a/ngmix/admom/admom_nb.py
+++ b/ngmix/admom/admom_nb.py
@@ -118,6 +118,11 @@ def admom_censums(wt, pixels, res):
     for i in range(n_pixels):
 
         pixel = pixels[i]
+
+        # pixels without weight hold no information
+        if pixel['ierr'] <= 0.0:
+            continue
+
         weight = gmix_eval_pixel_fast(wt, pixel)
 
         wdata = weight*pixel['val']
@@ -142,6 +147,11 @@ def admom_momsums(wt, pixels, res):
     for i_pixel in range(n_pixels):
 
         pixel = pixels[i_pixel]
+
+        # pixels without weight hold no information
+        if pixel['ierr'] <= 0.0:
+            continue
+
         weight = gmix_eval_pixel_fast(wt, pixel)
 
         var = 1.0/(pixel['ierr']*pixel['ierr'])
diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index ea1a089..e7c5e35 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -705,6 +705,10 @@ def get_weighted_sums(wt, pixels, res, maxrad):
         rad2 = umod * umod + vmod * vmod
         if rad2 < maxrad2:
 
+            # pixels without weight hold no information
+            if pixel["ierr"] <= 0.0:
+                continue
+
             weight = gmix_eval_pixel(wt, pixel)
             var = 1.0 / (pixel["ierr"] * pixel["ierr"])
 
@@ -764,6 +768,10 @@ def get_higher_order_weighted_sums(wt, pixels, res, maxrad):
         r2 = u * u + v * v
         if r2 < maxrad2:
 
+            # pixels without weight hold no information
+            if pixel["ierr"] <= 0.0:
+                continue
+
             weight = gmix_eval_pixel(wt, pixel)
             var = 1.0 / (pixel["ierr"] * pixel["ierr"])
 
-- 
2.43.0


From 739459e4e706f8a995dedef9fcbdf00a80bd64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 23/44] fix: fitting the psf for metacal leaves the input psf
 alone

---
 ngmix/metacal/metacal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 7d5b794..1c235a5 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -681,7 +681,10 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
         # try adaptive moments first
         fitter = AdmomFitter(rng=self.rng)
 
-        res = run_psf_fitter(obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry)
+        res = run_psf_fitter(
+            obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry,
+            set_result=False,
+        )
 
         if res['flags'] == 0:
             e1, e2 = res['e']
-- 
2.43.0


From 6bfed1a0d85a72e0227c49b0767f8f63ec772c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 24/44] fix: metacal types do not share the reconvolution psf
 image

---
 ngmix/metacal/metacal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 1c235a5..eb42ebd 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -452,7 +452,7 @@ class MetacalDilatePSF(object):
     def _make_psf_obs(self, psf_im):
 
         new_psf_obs = self.obs.psf.copy()
-        new_psf_obs.image = psf_im.array
+        new_psf_obs.image = psf_im.array.copy()
         return new_psf_obs
 
     def _make_obs(self, im, psf_im):
-- 
2.43.0


From a98b9a848df9d413750fab8894efc7720fac1794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 25/44] fix: simple models have four prior terms plus one per
 band

The joint priors fill center1, center2, shape, T and one flux per band.
The extra slot shifted the residuals used to scale the covariance by one
pixel and appended a zero to the residual vector
---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..9ecc075 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -833,7 +833,7 @@ def get_lm_n_prior_pars(model, nband):
         npp = 1 + 1 + 1 + 1 + 1 + nband
     elif model in ['exp', 'dev', 'gauss', 'turb']:
         # simple models
-        npp = 1 + 1 + 1 + 1 + 1 + nband
+        npp = 1 + 1 + 1 + 1 + nband
     else:
         raise ValueError('bad model: %s' % model)
 
-- 
2.43.0


From 7c9af8a5622d1f34e4d56f3193685ea4c80bb6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 26/44] fix: fits use the psf of every observation that has one

Whether to convolve was decided by the first observation alone, so the psfs
of later epochs and bands were ignored, or fitting failed, although the
result's convolved mixtures and images are made per observation
---
 ngmix/fitting/results.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 9ecc075..72238da 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -265,10 +265,9 @@ class FitModel(dict):
         initialize the list of lists of gaussian mixtures
         """
 
-        if self.obs[0][0].has_psf_gmix():
-            self.dopsf = True
-        else:
-            self.dopsf = False
+        self.dopsf = any(
+            obs.has_psf_gmix() for obs_list in self.obs for obs in obs_list
+        )
 
         gmix_all0 = MultiBandGMixList()
         gmix_all = MultiBandGMixList()
@@ -282,9 +281,8 @@ class FitModel(dict):
 
             for obs in obs_list:
                 gm0 = self._make_model(band_pars)
-                if self.dopsf:
-                    psf_gmix = obs.psf.gmix
-                    gm = gm0.convolve(psf_gmix)
+                if obs.has_psf_gmix():
+                    gm = gm0.convolve(obs.psf.gmix)
                 else:
                     gm = gm0.copy()
 
@@ -322,13 +320,14 @@ class FitModel(dict):
 
             for i, obs in enumerate(obs_list):
 
-                psf_gmix = obs.psf.gmix
-
                 gm0 = gmix_list0[i]
                 gm = gmix_list[i]
 
                 gm0._fill(band_pars)
-                self._convolve_gmix(gm, gm0, psf_gmix)
+                if obs.has_psf_gmix():
+                    self._convolve_gmix(gm, gm0, obs.psf.gmix)
+                else:
+                    gm._fill(band_pars)
 
     def _fill_gmix_all_nopsf(self, pars):
         """
-- 
2.43.0


From 85a95ce8e7dbec390544971fe4b1285a810a43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 27/44] fix: the covariance of bounded fits uses the right
 pivots, whatever the version of scipy

---
 ngmix/fitting/leastsqbound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..d763ba9 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -534,13 +534,14 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     if full_output:
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        # the pivots start from 1 or 0, depending on the version of scipy
+        ipvt = retval[1]['ipvt'] - retval[1]['ipvt'].min()
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, ipvt)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
+            perm = take(eye(n), ipvt, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
             R = dot(r, perm)
             try:
-- 
2.43.0


From 0cf2b3b3eda4f98fe8a50a466ff7c425b82ff46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 28/44] fix: bounded fits do not truncate the internal values
 of an integer start

---
 ngmix/fitting/leastsqbound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index d763ba9..f10b388 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -450,7 +450,7 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     i2e = _internal2external_func(bounds)
     e2i = _external2internal_func(bounds)
 
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     i0 = e2i(x0)
     n = len(x0)
     if len(bounds) != n:
-- 
2.43.0


From 99509d85f96dd399c7ba9ad5be6ab89de7bb0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 29/44] fix: galsim template fluxes get chi squared from the
 model that was fit

---
 ngmix/fitting/galsim_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index c58d03d..76ac815 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -535,7 +535,7 @@ class GalsimPSFFitModel(PSFFluxFitModel):
 
         if flux is not None:
             model = self.template_list[iobs].copy()
-            model *= flux / model.sum()
+            model *= flux
         else:
             model = self.template_list[iobs]
 
-- 
2.43.0


From b3ba17474f3dc5904cc020c3a6b5529a28e2b858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 30/44] fix: template fluxes leave out pixels without weight

---
 ngmix/fitting/results.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 72238da..a5703c6 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -583,12 +583,17 @@ class PSFFluxFitModel(dict):
                 im = obs.image
                 wt = obs.weight
 
+                # masked pixels may hold anything, including nan
+                w = np.where(wt > 0)
+                im = im[w]
+                wt = wt[w]
+
                 if ipass == 1:
-                    model = self._get_model(iobs)
+                    model = self._get_model(iobs)[w]
                     xcorr_sum += (model * im * wt).sum()
                     msq_sum += (model * model * wt).sum()
                 else:
-                    model = self._get_model(iobs, flux=flux)
+                    model = self._get_model(iobs, flux=flux)[w]
 
                     chi2 += self._get_chi2(model, im, wt)
 
-- 
2.43.0


From 24b72f4e0d8cd92fcd30351e265b6a0329031672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 31/44] fix: the flux of spergel and moffat fits is not the
 index parameter

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index a5703c6..cb87f3d 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -863,7 +863,7 @@ def _set_flux(res, nband):
 
     if model == 'bd':
         start = 7
-    elif model == 'bdf':
+    elif model in ('bdf', 'spergel', 'moffat'):
         start = 6
     else:
         start = 5
-- 
2.43.0


From 24f52ef02ef4b4e97968a5d7739be494f75e0c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 32/44] fix: a shape of exactly 1 is out of range for galsim
 fits

---
 ngmix/fitting/galsim_results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index 76ac815..f87e0c1 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -133,6 +133,10 @@ class GalsimFitModel(FitModel):
         g1 = pars[2]
         g2 = pars[3]
 
+        # galsim accepts exactly 1, and then draws nan
+        if g1 ** 2 + g2 ** 2 >= 1.0:
+            raise GMixRangeError("g out of range: %g %g" % (g1, g2))
+
         # argh another generic error
         try:
             model = model.shear(g1=g1, g2=g2)
-- 
2.43.0


From b8f714cc4856e98e03878a2a0d7f5c57e6f7e1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 33/44] fix: spergel and moffat fits reject sizes that are not
 positive

---
 ngmix/fitting/galsim_results.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index f87e0c1..5bc41c6 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -399,6 +399,9 @@ class GalsimSpergelFitModel(GalsimFitModel):
         nu = pars[5]
         flux = pars[6]
 
+        if r50 < 0.0001:
+            raise GMixRangeError("low r50: %g" % r50)
+
         # generic RuntimeError thrown
         try:
             gal = galsim.Spergel(nu, half_light_radius=r50, flux=flux,)
@@ -462,6 +465,9 @@ class GalsimMoffatFitModel(GalsimFitModel):
         beta = pars[5]
         flux = pars[6]
 
+        if r50 < 0.0001:
+            raise GMixRangeError("low r50: %g" % r50)
+
         # generic RuntimeError thrown
         try:
             gal = galsim.Moffat(beta, half_light_radius=r50, flux=flux,)
-- 
2.43.0


From 7ab8c99c1916204af4f8985db53c26642991a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 34/44] fix: truncated gaussian arrays include the end points

get_lnprob_scalar and get_fdiff accept minval and maxval, but
get_lnprob_array gave them -inf. Also say in its docs that values out of
range get -inf; the array form never raised.
---
 ngmix/priors/priors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 1e25393..4326643 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -1096,7 +1096,8 @@ class TruncatedGaussian(PriorBase):
 
     def get_lnprob_array(self, val):
         """
-        get the log probability of an array - raises if not in [minval, maval]
+        get the log probability of an array - the result is -inf for values not
+        in [minval, maxval]
 
         Parameters
         ----------
@@ -1105,7 +1106,7 @@ class TruncatedGaussian(PriorBase):
         """
         lnp = np.zeros(val.size)
         lnp -= np.inf
-        (w,) = np.where((val > self.minval) & (val < self.maxval))
+        (w,) = np.where((val >= self.minval) & (val <= self.maxval))
         if w.size > 0:
             diff = val[w] - self.mean
             lnp[w] = -0.5 * diff * diff * self.ivar
-- 
2.43.0


From 7ac80282aa92d5d676339c9e3be21ffc76f4cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 35/44] fix: shape prior samples follow the current parameters

The search for the maximum started where the probability is zero for sigma
larger than 1, and samples came out uniform in |g|; it also failed at random
for narrow or scaled distributions and sampling raised a RuntimeError. The
location of the maximum is known, use it. After set_sigma, set_pars or a fit,
samples were still drawn with the maximum of the former parameters.
---
 ngmix/priors/shape.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 37d742d..82af79a 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -517,6 +517,28 @@ class GPriorBA(GPriorBase):
         self.sig2inv = 1.0 / self.sig2
         self.sig4inv = 1.0 / self.sig4
 
+        # a maximum found for other parameters does not apply any more
+        if hasattr(self, "maxval1d"):
+            del self.maxval1d
+
+    def set_maxval1d(self, maxguess=None):
+        """
+        Set the max value of the 1d distribution and its location
+
+        This is known for this distribution: d ln(p)/dg = 0 is a quadratic
+        equation in g**2
+
+        parameters
+        ----------
+        maxguess: float
+            Not used, present for consistency with the base class
+        """
+        b = 1.0 + 5.0 * self.sig2
+        gmaxloc = sqrt(2.0 * self.sig2 / (b + sqrt(b * b - 4.0 * self.sig2)))
+
+        self.maxval1d = self.get_prob_scalar1d(gmaxloc)
+        self.maxval1d_loc = array([gmaxloc])
+
     def get_fdiff(self, g1, g2):
         """
         Compute sqrt(-2ln(p)) ~ (data - mode)/err for using with LM fitters.
-- 
2.43.0


From a475194672fac9c1c35fbabd1ec402a97bdbc1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 36/44] fix: center prior probabilities of arrays

get_prob_array is the scalar method, which used math.exp and raised a
TypeError for arrays.
---
 ngmix/priors/multivariate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngmix/priors/multivariate.py b/ngmix/priors/multivariate.py
index 755eea7..c3a1470 100644
--- a/ngmix/priors/multivariate.py
+++ b/ngmix/priors/multivariate.py
@@ -2,6 +2,8 @@
 Convention is that all priors should have peak ln(prob)==0. This
 helps use in priors for LM fitting
 """
+import numpy as np
+
 from .priors import PriorBase
 
 
@@ -74,12 +76,10 @@ class CenPrior(PriorBase):
         """
         probability at the specified point
         """
-        from math import exp
-
         d1 = self.cen1 - x1
         d2 = self.cen2 - x2
         lnp = -0.5 * d1 * d1 * self.s2inv1 - 0.5 * d2 * d2 * self.s2inv2
-        return exp(lnp)
+        return np.exp(lnp)
 
     get_prob_array = get_prob_scalar
     get_lnprob_array = get_lnprob_scalar
-- 
2.43.0


From 989a2c7a8cfdd5af23833c4ea7072c96750b93b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 37/44] fix: spergel index guesses are in the range of the
 model

Guesses were made down to nu=-0.99, but the model exists for nu >= -0.85 only,
and a fit starting there always fails.
---
 ngmix/guessers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index ccb8db5..d7140f9 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -703,7 +703,8 @@ class R50NuFluxGuesser(R50FluxGuesser):
         If sent, "fix-up" guesses if they are not allowed by the prior
     """
 
-    NUMIN = -0.99
+    # the range supported by galsim starts at -0.85
+    NUMIN = -0.85
     NUMAX = 3.5
 
     def __init__(self, rng, r50, nu, flux, prior=None):
-- 
2.43.0


From 713944f19b8c0e6058d76df01848e03c616df105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 38/44] fix: bulge-disk guesses put the fracdev guess in its
 own slot

Parameters of the bd model are [c1, c2, g1, g2, T, logTratio, fracdev, F]. The
guess for fracdev overwrote that for logTratio drawn from the prior.
---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index d7140f9..e7bc21c 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -473,7 +473,7 @@ class BDGuesser(object):
         guess[:, 4] = self.T * (1.0 + r)
 
         # fracdev prior
-        guess[:, 5] = rng.uniform(low=0.4, high=0.6, size=nrand)
+        guess[:, 6] = rng.uniform(low=0.4, high=0.6, size=nrand)
 
         for band in range(nband):
             r = rng.uniform(low=-0.1, high=0.1, size=nrand)
-- 
2.43.0


From 3e591236fcbeaabcf706991294950b2bd7847608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 39/44] fix: psf mixture guesses are usable for small pixel
 scales

The off-diagonal moments of guesses for 3, 4 and 5 gaussians were drawn in
+/- 0.01 whatever the size of the psf, so that for pixel scales below 0.1 the
gaussians often had a negative determinant.  Scale them with the size.
---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index e7bc21c..b611ce1 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -930,21 +930,21 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -960,28 +960,28 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -997,35 +997,35 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
-- 
2.43.0


From f48135e3b13135381c3dbe6d242c25e4c4c65971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 40/44] fix: samples of n-dimensional mixtures follow the
 current mixture

GMixND kept the sklearn object of an earlier fit or sample call when
the mixture was replaced with set_mixture or load_mixture, so samples
were still drawn from the old mixture.
---
 ngmix/gmix_ndim/gmix_ndim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index d63fb07..cecec02 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -46,6 +46,10 @@ class GMixND(object):
         set the mixture elements
         """
 
+        # an object for sampling from an earlier mixture is no longer valid
+        if hasattr(self, "_gmm"):
+            del self._gmm
+
         # copy all to avoid it getting changed under us and to
         # make sure native byte order
 
@@ -107,8 +111,8 @@ class GMixND(object):
         if not gmm.converged_:
             print("DID NOT CONVERGE")
 
-        self._gmm = gmm
         self.set_mixture(gmm.weights_, gmm.means_, gmm.covariances_)
+        self._gmm = gmm
 
         if doplot:
             plt = self.plot(data=data, **keys)
-- 
2.43.0


From 5503ef08d58eabbb58982728616474f1e7caa085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 41/44] fix: n-dimensional mixtures with unnormalized weights
 can be sampled

The weights were used as probabilities as they were: the last component
got the remainder when they summed to less than one, and sampling failed
when they summed to more.
---
 ngmix/gmix_ndim/gmix_ndim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index cecec02..9391b78 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -400,7 +400,8 @@ class GMixND(object):
         gmm = self._make_gmm(ngauss)
         gmm.means_ = self.means.copy()
         gmm.covariances_ = self.covars.copy()
-        gmm.weights_ = self.weights.copy()
+        # the weights need not be normalized, but must be for sampling
+        gmm.weights_ = self.weights / self.weights.sum()
 
         gmm.precisions_cholesky_ = _compute_precision_cholesky(
             self.covars, "full",
-- 
2.43.0


From 069572a7073794f1e3b76cf549c5038505f53fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 42/44] fix: n-dimensional mixtures are finite in the far tails

The largest component log probability started at -9.99e9, so the log
probability of points further out than that was -inf.
---
 ngmix/gmix_ndim/gmix_ndim_nb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim_nb.py b/ngmix/gmix_ndim/gmix_ndim_nb.py
index 0a2bd31..5606b66 100644
--- a/ngmix/gmix_ndim/gmix_ndim_nb.py
+++ b/ngmix/gmix_ndim/gmix_ndim_nb.py
@@ -1,6 +1,8 @@
 import numpy
 from numba import njit
 
+LNPROB_LOWVAL = -numpy.finfo(numpy.float64).max
+
 
 @njit
 def gmixnd_get_prob(log_pnorms,
@@ -33,7 +35,7 @@ def gmixnd_get_prob(log_pnorms,
 
     n_dim = means.shape[1]
     n_gauss = log_pnorms.size
-    lnpmax = -9.99e9
+    lnpmax = LNPROB_LOWVAL
 
     for i in range(n_gauss):
 
-- 
2.43.0


From ef143147fbbd0bad14820ba89cf7d26004a9a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 43/44] fix: gaussian aperture fluxes flag parameters that are
 not finite

Rows with a nan shape or size got their total flux as aperture flux, and
rows with other parameters that are not finite a nan, with flags zero.
---
 ngmix/gaussap.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..414e537 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -92,8 +92,13 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
     try:
 
         tpars = _get_band_pars(pars, model, i, band)
+        if not np.all(np.isfinite(tpars)):
+            raise GMixRangeError('parameters are not finite: %s' % tpars)
 
         if model == 'cm':
+            if not np.all(np.isfinite([fracdev[i], TdByTe[i]])):
+                raise GMixRangeError('fracdev or TdByTe are not finite')
+
             gm = GMixCM(
                 fracdev[i],
                 TdByTe[i],
@@ -102,7 +107,11 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
         else:
             gm = GMixModel(tpars, model)
 
-        flux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+        tflux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+        if not np.isfinite(tflux):
+            raise GMixRangeError('flux is not finite: %s' % tflux)
+
+        flux = tflux
         flags = 0
 
     except GMixRangeError as err:
-- 
2.43.0


From edbfccf0764c672de01750c7cdbdda81c88724e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 44/44] fix: gaussian aperture fluxes for the bd model

The bd model has eight parameters for a band but was treated as having six.
---
 ngmix/gaussap.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 414e537..459f311 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -162,18 +162,15 @@ def _get_band_pars(pars, model, index, band):
 
 
 def _get_nband(pars, model):
-    if model == 'bdf':
-        nband = len(pars[0])-7+1
-    else:
-        nband = len(pars[0])-6+1
-
-    return nband
+    return len(pars[0])-_get_band_npars(model)+1
 
 
 def _get_band_npars(model):
-    if model == 'bdf':
-        nband = 7
+    if model == 'bd':
+        npars = 8
+    elif model == 'bdf':
+        npars = 7
     else:
-        nband = 6
+        npars = 6
 
-    return nband
+    return npars
-- 
2.43.0

