From 50a518e6a3384deff41c30e12d7a94a3b254004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 01/71] fix: kinematic Converter reports input and mass in
 their labelled units and can be called repeatedly

Inputs were converted to eV in place before being reported, the reported mass was
converted with the input/output units although it is labelled with mass_unit, a second
call with output_unit='SI' converted the already converted outputs again, and a mass of
0 eV/c^2 was replaced by the electron mass.
---
 rsbeams/rsstats/kinematic.py | 61 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/rsbeams/rsstats/kinematic.py b/rsbeams/rsstats/kinematic.py
index 2e1f18e..e5ae332 100755
--- a/rsbeams/rsstats/kinematic.py
+++ b/rsbeams/rsstats/kinematic.py
@@ -83,10 +83,6 @@ class Converter:
                     declaration += 1
             assert declaration == 1, "One and only one initial kinematic quantity must be provided"
 
-        # Convert to eV for internal use
-        if self.args['input_unit'] == 'SI':
-            self._unit_convert(input_unit='SI', input_dict=self.args)
-
         # Method to call based on the kinematic quantity the user inputs
         self.startup = {"momentum": self.start_momentum,
                         "velocity": self.start_velocity,
@@ -116,19 +112,17 @@ class Converter:
                         "input_unit": None,
                         "input_type": None}
 
-        # Match mass unit to input units. Print mass in units the user used for input though.
+        # Mass is used internally in eV. Print mass in units the user used for input though.
         if self.args['mass_unit'] == "eV":
-            if self.args['mass']:
-                self.mass = self.args['mass'] * (
-                            1 * (self.args['input_unit'] == 'eV') + 1 / ev_per_kg * (self.args['input_unit'] == 'SI'))
+            if self.args['mass'] is not None:
+                self.mass = self.args['mass']
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
                 self.outputs["mass"] = m_e_ev
         elif self.args['mass_unit'] == "SI":
             if self.args['mass'] is not None:
-                self.mass = self.args['mass'] * (1 * (self.args['input_unit'] == 'SI') + ev_per_kg * (
-                            self.args['input_unit'] == 'eV'))
+                self.mass = self.args['mass'] * ev_per_kg
                 self.outputs["mass"] = self.args['mass']
             else:
                 self.mass = m_e_ev
@@ -138,31 +132,37 @@ class Converter:
         """Run kinematic conversion.
         silent (bool): If True then suppress printout and just return values in dict.
         """
+        # Convert to eV for internal use
+        args = dict(self.args)
+        if self.args['input_unit'] == 'SI':
+            self._unit_convert(input_unit='SI', input_dict=args)
+
         # Set beta and gamma based on the input value
-        for key, value in self.args.items():
+        outputs = dict(self.outputs)
+        for key, value in args.items():
             if value is not None and key in self.startup:
-                self.outputs["input"] = value
-                self.outputs["input_type"] = key
-                self.outputs["beta"], self.outputs["gamma"] = self.startup[key](value)
+                outputs["input"] = self.args[key]
+                outputs["input_type"] = key
+                outputs["beta"], outputs["gamma"] = self.startup[key](value)
 
         # Find correct unit names for the printout
         if self.args["input_unit"] == "eV":
-            input_unit = "eV" * (self.outputs["input_type"] == 'energy') + \
-                         "eV" * (self.outputs["input_type"] == 'kenergy') + \
-                         "eV/c" * (self.outputs["input_type"] == 'momentum') + \
-                         "m/s" * (self.outputs["input_type"] == 'velocity') + ""
+            input_unit = "eV" * (outputs["input_type"] == 'energy') + \
+                         "eV" * (outputs["input_type"] == 'kenergy') + \
+                         "eV/c" * (outputs["input_type"] == 'momentum') + \
+                         "m/s" * (outputs["input_type"] == 'velocity') + ""
         else:
-            input_unit = "J" * (self.outputs["input_type"] == 'energy') + \
-                         "J" * (self.outputs["input_type"] == 'kenergy') + \
-                         "kg*m/s" * (self.outputs["input_type"] == 'momentum') + \
-                         "" * (self.outputs["input_type"] == 'beta') + \
-                         "m/s" * (self.outputs["input_type"] == 'velocity') + ""
-        self.outputs["input_unit"] = input_unit
+            input_unit = "J" * (outputs["input_type"] == 'energy') + \
+                         "J" * (outputs["input_type"] == 'kenergy') + \
+                         "kg*m/s" * (outputs["input_type"] == 'momentum') + \
+                         "" * (outputs["input_type"] == 'beta') + \
+                         "m/s" * (outputs["input_type"] == 'velocity') + ""
+        outputs["input_unit"] = input_unit
 
         # Set all derived kinematic quantities
-        for key, value in self.outputs.items():
+        for key, value in outputs.items():
             if callable(value):
-                self.outputs[key] = value(**self.outputs)
+                outputs[key] = value(**outputs)
 
         print_string = """
         Based on an input {input_type} of {input} {input_unit}
@@ -178,12 +178,12 @@ class Converter:
         Brho: {brho} T*m
         """
         if self.args['output_unit'] == 'SI':
-            self._unit_convert(input_unit='eV', input_dict=self.outputs)
+            self._unit_convert(input_unit='eV', input_dict=outputs)
 
         if not silent:
-            print(print_string.format(**self.outputs))
+            print(print_string.format(**outputs))
 
-        return self.outputs
+        return outputs
 
     # All start methods used to convert input kinematic quantity to beta and gamma
     @staticmethod
@@ -293,8 +293,7 @@ class Converter:
         conversion_factors = {
             'momentum': 1 / e * c,
             'energy': 1 / e,
-            'kenergy': 1 / e,
-            'mass': 1 / e * c**2
+            'kenergy': 1 / e
         }
         for key in conversion_factors:
             # print(key, input_dict[key], (conversion_factors[key]), 2 * (input == 'SI') - 1)
-- 
2.43.0


From 25a288d54a62b520fea9175dcb4ef6a9024706b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 02/71] fix: bunch betay property and betay argument set the
 vertical Twiss parameters

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 7b66c10..29e349d 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -124,7 +124,7 @@ class StandardBunch(object):
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
@@ -170,7 +170,7 @@ class StandardBunch(object):
         if alphax is not None:
             self.alphax = alphax
         if betay is not None:
-            self.betax = betay
+            self.betay = betay
         if alphay is not None:
             self.alphay = alphay
         if emitx is not None:
@@ -401,13 +401,13 @@ class NonlinearBunch(StandardBunch):
 
         #betax should be the same as betay
         self._betay = bet
-        self._gammay = (1 + self._alphax**2) / self._betax
+        self._gammay = (1 + self._alphay**2) / self._betay
 
 
     @property
     def betay(self):
         return self._betay
-    @betax.setter
+    @betay.setter
     def betay(self, bet):
         if bet < 0:
             raise ValueError("Beta must be larger than 0.")
-- 
2.43.0


From 6282c5a556e40574ce4de4fef27f2a40bb614e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 03/71] fix: NonlinearBunch.cutoff and NonlinearInsert.c
 setters used undefined names

---
 rsbeams/rslattice/nonlinear.py | 2 +-
 rsbeams/rsptcls/bunch.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index fc05677..807c607 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -67,7 +67,7 @@ class NonlinearInsert(object):
     def c(self, cval):
         if cval < 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
-        self._c = c
+        self._c = cval
 
     def generate_sequence(self):
         """Generates arrays containing the knll and cnll values for each nllens element"""
diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 29e349d..e0af2f9 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cval < 0:
+        if cutoff < 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
-- 
2.43.0


From 4772b5da0b6f26abf840f9241cb1c03b28b7d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 04/71] fix: beta, aperture and cutoff setters reject 0 as
 their error message says

---
 rsbeams/rslattice/nonlinear.py |  2 +-
 rsbeams/rsptcls/bunch.py       | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/nonlinear.py b/rsbeams/rslattice/nonlinear.py
index 807c607..c726490 100644
--- a/rsbeams/rslattice/nonlinear.py
+++ b/rsbeams/rslattice/nonlinear.py
@@ -65,7 +65,7 @@ class NonlinearInsert(object):
 
     @c.setter
     def c(self, cval):
-        if cval < 0:
+        if cval <= 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
         self._c = cval
 
diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index e0af2f9..4206c09 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -115,7 +115,7 @@ class StandardBunch(object):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -126,7 +126,7 @@ class StandardBunch(object):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
@@ -362,7 +362,7 @@ class NonlinearBunch(StandardBunch):
         return self._c
     @c.setter
     def c(self, cval):
-        if cval < 0:
+        if cval <= 0:
             raise ValueError("Aperture parameter c must be larger than 0.")
         self._c = cval
 
@@ -383,7 +383,7 @@ class NonlinearBunch(StandardBunch):
         return self._cutoff
     @cutoff.setter
     def cutoff(self, cutoff):
-        if cutoff < 0:
+        if cutoff <= 0:
             raise ValueError("Cutoff parameter for distributions must be larger than 0.")
         self._cutoff = cutoff
 
@@ -393,7 +393,7 @@ class NonlinearBunch(StandardBunch):
         return self._betax
     @betax.setter
     def betax(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betax = bet
@@ -409,7 +409,7 @@ class NonlinearBunch(StandardBunch):
         return self._betay
     @betay.setter
     def betay(self, bet):
-        if bet < 0:
+        if bet <= 0:
             raise ValueError("Beta must be larger than 0.")
 
         self._betay = bet
-- 
2.43.0


From d3393d9e9961f123642098462cfbab2c897f2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 05/71] fix: NonlinearBunch accepts and forwards the documented
 quiet argument

---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 4206c09..13613d6 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -328,7 +328,7 @@ class NonlinearBunch(StandardBunch):
     """
 
     def __init__(self, npart, dist = 'KV', emitx = 1e-6, emity = 1e-6, betax=1., alphax = 0.,
-                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, queit=False, t = 0.1, c = 0.01, cutoff = 4):
+                 betay =1., alphay=0., stdz=1., dpop=0, seed = None, quiet=False, t = 0.1, c = 0.01, cutoff = 4):
         """
 
         Args:
@@ -349,7 +349,7 @@ class NonlinearBunch(StandardBunch):
             cutoff (float): cutoff parameter for the nonlinear Gaussian distributoin, defaults to 4.
         """
 
-        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed)
+        super(NonlinearBunch,self).__init__(npart, dist, emitx, emity, betax, alphax, betay, alphay, stdz, dpop, seed, quiet)
 
         self._t = t
         self._c = c
-- 
2.43.0


From c38354a29d0354e881ec3c00ab757e4d0084e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 06/71] fix: quiet start partners stay on the invariant of the
 sampled particle

x and xp (y and yp) were mirrored independently, which changes the Courant-Snyder
invariant whenever alpha is not zero; mirror whole planes instead.
---
 rsbeams/rsptcls/bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 13613d6..6c01185 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -290,9 +290,9 @@ class StandardBunch(object):
     def exact_centroids(self, ptclCoords, phaseSpaceList):
         """Sets the centroid of the distribution in phase space to be zero - providing a quieter injection."""
 
-        translation1 = np.array([-1,1,-1,1])
+        translation1 = np.array([-1,-1,1,1])
         translation2 = np.array([-1,-1,-1,-1])
-        translation3 = np.array([1,-1,1,-1])
+        translation3 = np.array([1,1,-1,-1])
 
         ptcl1 = ptclCoords * translation1
         ptcl2 = ptclCoords * translation2
-- 
2.43.0


From cbdf8ef803d2a8ba4358b3b5b6a6dd750f058527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 07/71] fix: quiet start works for particle counts that are not
 a multiple of four

---
 rsbeams/rsptcls/bunch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 6c01185..34a3fd2 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -252,7 +252,7 @@ class StandardBunch(object):
                     self.exact_centroids(ptclCoords, phaseSpaceList)
                     ptclsMade += 3
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList)[:self.npart]
 
 
 
@@ -522,7 +522,7 @@ class NonlinearBunch(StandardBunch):
                     self.exact_centroids(ptclCoords, phaseSpaceList)
                     ptclsMade += 3
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList)[:self.npart]
 
 
     def distribute_waterbag(self):
@@ -581,7 +581,7 @@ class NonlinearBunch(StandardBunch):
             else:
                 print("Initial value generated exceeds limiting H. Sampling new value.")
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList)[:self.npart]
 
 
     def distribute_Gaussian(self):
@@ -654,7 +654,7 @@ class NonlinearBunch(StandardBunch):
         #Completed distribution, so reset emittance
         self.emit = bunch_emittance
 
-        self.particles[:,:4] = np.asarray(phaseSpaceList)
+        self.particles[:,:4] = np.asarray(phaseSpaceList)[:self.npart]
 
 
     def compute_Hamiltonian(self, xHat, pxHat, yHat, pyHat):
-- 
2.43.0


From d5e35bd722e74085954863121877f75a4e988790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 08/71] fix: bunch seed argument seeds the generators the
 distributions draw from

The seed was stored and never used, and without a seed the global generator was
reseeded, which discarded a seed set by the caller.
---
 rsbeams/rsptcls/bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index 34a3fd2..b4fdbf5 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -95,9 +95,9 @@ class StandardBunch(object):
 
         #define seed
         if seed is not None:
-            self.seed = seed
-        else:
-            self.seed = random.seed()
+            random.seed(seed)
+            np.random.seed(random.getrandbits(32))
+        self.seed = seed
 
         #create particles array
         self.particles = np.zeros((npart,7))
-- 
2.43.0


From 1c2b89a8cbd771be241dc49eded489df26a7a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 09/71] fix: calc_variance6d no longer overwrites the first
 particle of its input

The running average was a view of the first column.
---
 rsbeams/rsstats/stats6d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/stats6d.py b/rsbeams/rsstats/stats6d.py
index e9c4d67..71fabe3 100644
--- a/rsbeams/rsstats/stats6d.py
+++ b/rsbeams/rsstats/stats6d.py
@@ -24,7 +24,7 @@ def sub_avg6d(array6D):
 
 def calc_variance6d(array6D):
     npoints = array6D.shape[1]
-    avgIter = array6D[:,0]
+    avgIter = array6D[:,0].copy()
     varIter = scipy.zeros(6)
     for nLoop in range(1,npoints):
         tmpData  = array6D[:,nLoop]
-- 
2.43.0


From eff46d9dfd26f16a93ea0c0b6280bd0470c148f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 10/71] fix: RsDistrib6D reports an unsupported distribution
 type instead of raising AttributeError

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 2dda3a5..8bca3d3 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -27,7 +27,7 @@ class RsDistrib6D:
         if ( (distrib_type != 'uniform') and
              (distrib_type != 'gaussian') ):
             message = '\n\nERROR --'
-            message += '\n    distrib_type is specified as "' + self.distrib_type + '", which is not supported.'
+            message += '\n    distrib_type is specified as "' + str(distrib_type) + '", which is not supported.'
             message += '\n    Only "uniform" and "gaussian" are allowed.'
             message += '\n'
             raise Exception(message)
-- 
2.43.0


From 24058db9bf0f20e8e2385bc6a865b029e308aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 11/71] fix: make_twiss_dist_6d keeps the sign of alpha when
 gamma equals beta

---
 rsbeams/rsptcls/RsDistrib6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/RsDistrib6D.py b/rsbeams/rsptcls/RsDistrib6D.py
index 8bca3d3..41f68e6 100644
--- a/rsbeams/rsptcls/RsDistrib6D.py
+++ b/rsbeams/rsptcls/RsDistrib6D.py
@@ -205,7 +205,7 @@ class RsDistrib6D:
                 sin_phi = math.sqrt(0.5*(1.-math.fabs(gMinusB)/rt_fac))
                 cos_phi = math.sqrt(0.5*(1.+math.fabs(gMinusB)/rt_fac))
 
-            if alphaII*gMinusB < 0.0: sin_phi = -sin_phi
+            if alphaII*gMinusB < 0.0 or (gMinusB == 0.0 and alphaII < 0.0): sin_phi = -sin_phi
 
             rt_fac = math.sqrt(twissObject.get_emit_rms())
 
-- 
2.43.0


From cbb4e35d161672f981379ddd98dd700028d50064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 12/71] fix: RsPhaseSpace6D.read_array closes its file and
 keeps the old array if the new one is invalid

---
 rsbeams/rsptcls/RsPhaseSpace6D.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsptcls/RsPhaseSpace6D.py b/rsbeams/rsptcls/RsPhaseSpace6D.py
index ffa92ad..8db4cfa 100644
--- a/rsbeams/rsptcls/RsPhaseSpace6D.py
+++ b/rsbeams/rsptcls/RsPhaseSpace6D.py
@@ -58,9 +58,14 @@ class RsPhaseSpace6D:
         return
 
     def read_array(self):
-        dataObject = numpy.load(self.file_name + '.npz')
-        self.array_6d = dataObject['a']
-        self.check_array()
+        with numpy.load(self.file_name + '.npz') as dataObject:
+            array_6d = dataObject['a']
+        previous, self.array_6d = self.array_6d, array_6d
+        try:
+            self.check_array()
+        except Exception:
+            self.array_6d = previous
+            raise
         return
 
     def check_array(self):
-- 
2.43.0


From 46c90a1eea5a42c62b7ce5b510c65e12a87f74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 13/71] fix: rsconst can be imported

---
 rsbeams/rsphysics/rsconst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsphysics/rsconst.py b/rsbeams/rsphysics/rsconst.py
index c1286d5..fca623a 100644
--- a/rsbeams/rsphysics/rsconst.py
+++ b/rsbeams/rsphysics/rsconst.py
@@ -8,6 +8,8 @@ import math
 import scipy.constants as const
 
 # DEPRECATED use rsmath.rsconst or scipy
+c_SQ = const.c**2
+e = const.e
 C_to_STATC = const.c * 10.0
 EV_to_ERG = 1.602e-12
 KG_to_EV = c_SQ / e
@@ -19,8 +21,6 @@ TWO_PI = 2 * math.pi
 c = const.c
 c_CGS = const.c * 100
 c_INV = 1.0 / const.c
-c_SQ = const.c**2
-e = const.e
 e_CGS = const.e * C_to_STATC
 epsilon_0 = const.epsilon_0
 m_e = const.m_e
-- 
2.43.0


From baee303468db1f18027e9d229ca9c28dd637daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 14/71] fix: read_opal reads step 0 when it is asked for

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 25670ba..ff4988b 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -69,7 +69,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
     """
 
     with h5.File(file_name, 'r') as pcdata:
-        if not step_number:
+        if step_number is None:
             # Use last step in the file
             all_step_numbers = []
             for key in pcdata.keys():
-- 
2.43.0


From b0982b70a47361a3ee1a059f067693152323b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 15/71] fix: read_opal accepts a total charge of zero

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index ff4988b..9635633 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -86,7 +86,7 @@ def read_opal(file_name: str, step_number: int or None = None) -> Species:
         for i, coord in enumerate(['x', 'px', 'y', 'py', 'z', 'pz']):
             particle_data[:, i] = pcdata[loc+'/'+coord]
         # OPAL monitor files put total charge in attr `TotalCharge` while the periodic dump file stores it in `CHARGE`
-        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) else pcdata[loc].attrs.get('CHARGE')
+        total_charge = charge if (charge := pcdata[loc].attrs.get('TotalCharge')) is not None else pcdata[loc].attrs.get('CHARGE')
         assert total_charge is not None, f"Total Charge not found in attributes of file {file_name}"
 
     # TODO: This shouldn't be specific to electrons
-- 
2.43.0


From 080b40b78664f991bcf7e5dfa81805462ee4f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 16/71] fix: reading a truncated SDDS header raises instead of
 looping forever

---
 rsbeams/rsdata/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index d7f5806..936afde 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -22,6 +22,8 @@ def _read_line(open_file):
     line = ''
     while line == '\n' or line == '' or line[0] == '!':
         line = str(open_file.readline(), 'latin-1')
+        if not line:
+            raise EOFError("SDDS header ended unexpectedly")
     return line
 
 
-- 
2.43.0


From d3780ae082dd0f907da55dc0c8fe7ed8f8036c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 17/71] fix: readSDDS closes the file when the header cannot be
 read

---
 rsbeams/rsdata/SDDS.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 8627ec5..d287ed2 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -72,15 +72,20 @@ class readSDDS:
         self.data = {key: [] for key in supported_namelists.keys()}
 
         # Read and Parse header to start
-        self._read_header()
-        if buffer:
-            self.openf.seek(0)
-            buffer = self.openf.read()
-            self.openf.close()
-            self.openf = buffer
-        self._parse_header()
-        self._initialize_data_arrays()
-        self._data_descriptions = {k: utils.list_to_dict([f.fields for f in v], 'name') for k, v in self.data.items() if k != '&data'}
+        open_file = self.openf
+        try:
+            self._read_header()
+            if buffer:
+                self.openf.seek(0)
+                buffer = self.openf.read()
+                self.openf.close()
+                self.openf = buffer
+            self._parse_header()
+            self._initialize_data_arrays()
+            self._data_descriptions = {k: utils.list_to_dict([f.fields for f in v], 'name') for k, v in self.data.items() if k != '&data'}
+        except Exception:
+            open_file.close()
+            raise
 
 
     @property
-- 
2.43.0


From 1581a24ed1411aae7017fda86cc10ff9ee4412c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 18/71] fix: numeric SDDS header fields are converted from
 their text

field_length, no_row_counts and float fixed values stayed strings, so that
no_row_counts=0 was taken as set and field_length raised TypeError; the char type was
mapped to a module instead of a dtype.
---
 rsbeams/rsdata/datatypes.py | 5 ++++-
 rsbeams/rsdata/utils.py     | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/datatypes.py b/rsbeams/rsdata/datatypes.py
index a850d04..b4c133d 100644
--- a/rsbeams/rsdata/datatypes.py
+++ b/rsbeams/rsdata/datatypes.py
@@ -58,7 +58,7 @@ class Parameter(Datum):
         if fixed_value:
             if data_type in ["short", "long"]:
                 self.fields["fixed_value"] = int(fixed_value)
-            elif data_type == "double":
+            elif data_type in ["float", "double"]:
                 self.fields["fixed_value"] = float(fixed_value)
             elif data_type in ["string", "char"]:
                 try:
@@ -81,6 +81,7 @@ class Column(Datum):
             "field_length": 0,
         }
         super().__init__(namelist)
+        self.fields["field_length"] = int(self.fields["field_length"])
         self.set_data_type()
 
     def set_data_type(self):
@@ -117,6 +118,8 @@ class Data(Datum):
             "additional_header_lines": 0,
         }
         super().__init__(namelist)
+        for name in ("lines_per_row", "no_row_counts", "additional_header_lines"):
+            self.fields[name] = int(self.fields[name])
 
 
 class Associate(Datum):
diff --git a/rsbeams/rsdata/utils.py b/rsbeams/rsdata/utils.py
index 936afde..242d642 100644
--- a/rsbeams/rsdata/utils.py
+++ b/rsbeams/rsdata/utils.py
@@ -3,7 +3,7 @@ import numpy as np
 # TODO: Find sdds use case with 'short' type
 # SDDS defaults to 32 bit unsigned longs on all test systems while numpy uses 64 bits for the np.int_ in test cases
 #  therefore int datatypes are hardcoded in size
-data_types = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string': 'S{}', 'char': np.char,
+data_types = {'double': np.float64, 'short': np.int16, 'long': np.int32, 'string': 'S{}', 'char': 'S1',
               'float': np.float32}
 
 
-- 
2.43.0


From 2be7a18e5e86e3195eaabdeb4f9459a6ed03eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 19/71] fix: SDDS files without columns or without parameters
 can be read

---
 rsbeams/rsdata/SDDS.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index d287ed2..6a574e0 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -90,7 +90,7 @@ class readSDDS:
 
     @property
     def parameters(self):
-        return self._parameters.data
+        return self._parameters.data if self._parameters else None
 
     @parameters.setter
     def parameters(self, parameters):
@@ -98,7 +98,7 @@ class readSDDS:
 
     @property
     def columns(self):
-        return self._columns.data
+        return self._columns.data if self._columns else None
 
     @columns.setter
     def columns(self, columns):
@@ -106,7 +106,7 @@ class readSDDS:
 
     @property
     def arrays(self):
-        return self._arrays.data
+        return self._arrays.data if self._arrays else None
 
     @arrays.setter
     def arrays(self, arrays):
@@ -253,7 +253,7 @@ class readSDDS:
             # ASCII: count may not be included and will be at the end of the parameters
             self._parameter_keys.append([('row_counts', utils.data_types['long'])])
         else:
-            if len(self._parameter_keys[0]) == 0:
+            if self._parameter_keys and len(self._parameter_keys[0]) == 0:
                 # Need empty checks to succeed
                 self._parameter_keys.pop(0)
 
@@ -382,7 +382,7 @@ class readSDDS:
             # parameters are always read because we need to know if column_rows changes between pages
             parameter_data, position = self._get_parameter_data(self._parameter_keys, position)
             # save data if needed
-            if parameter_data and (page in user_pages):
+            if self._parameters and (page in user_pages):
                 self._parameters.add(parameter_data)
 
             if len(self.data['&column']) == 0:
-- 
2.43.0


From a13407de094339d41312ef98e8b06e6a77c546b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 20/71] fix: unbuffered SDDS reads no longer stop early at
 short lines or newline bytes

A page whose first ascii line has one character, or whose first binary bytes are
followed by a newline, was taken for the end of the file.
---
 rsbeams/rsdata/SDDS.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 6a574e0..4f6e17b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -294,14 +294,13 @@ class readSDDS:
             # Usually will catch binary end
             pointer = self.openf.tell()
 
-            if not self.openf.read(1):
+            if self._data_mode == 'binary':
+                remainder = self.openf.read(1)
+            else:
+                # only blank lines may follow the last page
+                remainder = next((line for line in iter(self.openf.readline, b'') if line.strip()), b'')
+            if not remainder:
                 return True
-            while True:
-                line = self.openf.readline()
-                if not line.strip():
-                    return True
-                else:
-                    break
 
             self.openf.seek(pointer)
 
-- 
2.43.0


From 6550a0c0697f2ae036821e87c95d0112eaadce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 21/71] fix: buffered ascii SDDS reads advance by the rows that
 were read

The position advanced by twice the row count, which lost every page after the first.
---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 4f6e17b..5859d4e 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -459,7 +459,7 @@ class readSDDS:
                 new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
                                                comments='!', deletechars='')
                 if self.buffer:
-                    position += 1 * ((0 if not row_count else row_count) + new_array.size)
+                    position += new_array.size if row_count is None else row_count
             else:
                 new_array = self._get_reader()(self.openf, dtype=dk, count=row_count, offset=position)
                 if self.buffer:
-- 
2.43.0


From 801ead9f27224b968c6341e0309fb592e2f968a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 22/71] fix: SDDS page selection returns exactly the requested
 pages

Skipped pages were returned for files with strings, and were not skipped at all in
ascii or unbuffered reads.
---
 rsbeams/rsdata/SDDS.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 5859d4e..bb809d1 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -366,8 +366,8 @@ class readSDDS:
 
         for page in pages:
             if not isinstance(user_pages, GeneratorType) and page > np.max(user_pages):
-                print(page, user_pages)
                 if self.verbose:
+                    print(page, user_pages)
                     print('stopping here')
                 break
 
@@ -393,12 +393,10 @@ class readSDDS:
 
             if row_count == 0:
                 continue
-            if (isinstance(user_pages, GeneratorType) or (page in user_pages)) or self._variable_length_records:
-                column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            # columns are always read to move past them
+            column_data, position = self._get_column_data(self._column_keys, position, row_count)
+            if isinstance(user_pages, GeneratorType) or (page in user_pages):
                 self._columns.add(column_data)
-            else:
-                # still need to update position what would have been read
-                position += np.dtype(self._column_keys[0]).itemsize * row_count
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From 445d94e2d0f246355350a294ae92f4f8017d654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 23/71] fix: reading an SDDS file again replaces the data of
 the first read

---
 rsbeams/rsdata/SDDS.py        | 5 +++++
 rsbeams/rsdata/struct_data.py | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index bb809d1..ebf2dd9 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -343,6 +343,11 @@ class readSDDS:
         if not self.buffer:
             self.openf.seek(self.header_end_pointer)
 
+        # Data of an earlier read is replaced
+        for stored in (self._parameters, self._columns):
+            if stored:
+                stored.clear()
+
         # Select pages to be stored during the read - if None then store everything
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 584b996..7e17258 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -41,6 +41,9 @@ class StructData:
 
         self._data.append(data_hold)
 
+    def clear(self):
+        self._data = []
+
     def concat(self):
         self.data = np.array(self._data)
 
-- 
2.43.0


From 9e760493b91b4ca5b63c832181719c39ba3598ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 24/71] fix: SDDS pages without row counts are separated by a
 blank line

---
 rsbeams/rsdata/SDDS.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index ebf2dd9..22a25f3 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -391,17 +391,22 @@ class readSDDS:
 
             if len(self.data['&column']) == 0:
                 row_count = 0
-            elif not self.data['&data'][0].fields['no_row_counts']:
+            elif self._data_mode == 'binary' or not self.data['&data'][0].fields['no_row_counts']:
                 row_count = utils.get_entry_from_parameters(parameter_data, 'row_counts')  #parameter_data[rc_index][0][0][0]
             else:
                 row_count = self._get_ascii_row_count(position)
 
-            if row_count == 0:
-                continue
-            # columns are always read to move past them
-            column_data, position = self._get_column_data(self._column_keys, position, row_count)
-            if isinstance(user_pages, GeneratorType) or (page in user_pages):
-                self._columns.add(column_data)
+            if row_count != 0:
+                # columns are always read to move past them
+                column_data, position = self._get_column_data(self._column_keys, position, row_count)
+                if isinstance(user_pages, GeneratorType) or (page in user_pages):
+                    self._columns.add(column_data)
+            if self._data_mode == 'ascii' and self.data['&data'][0].fields['no_row_counts']:
+                # a blank line ends the page
+                if self.buffer:
+                    position += 1
+                else:
+                    self.openf.readline()
         if self._parameters:
             self._parameters.concat()
         if self._columns:
-- 
2.43.0


From 89ec9e904703070fdcdcbe9afe61e15db46240e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 25/71] fix: SDDS short parameters are written as two byte
 integers

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 22a25f3..e0a6f12 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -541,7 +541,7 @@ class writeSDDS:
 
     sddsIdentifier = headSDDS
 
-    key_indentity = {'double': 'd', 'short': 's', 'long': 'i', 'string': None}
+    key_indentity = {'double': 'd', 'short': 'h', 'long': 'i', 'string': None}
 
     def __init__(self, page=1, readInFormat='numpyArray'):
         """
-- 
2.43.0


From 4d474934d2ea1257da8bc7e202971b5c8014ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 26/71] fix: an SDDS parameter with a fixed value of zero keeps
 its value

---
 rsbeams/rsdata/SDDS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index e0a6f12..89887bf 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -620,7 +620,7 @@ class writeSDDS:
         assert parType in self.key_indentity.keys(), "Allowed data types are: 'double', 'short', 'long' "
 
         # Handle variable data type possibility for fixed_value
-        if parFixedVal:
+        if parFixedVal is not None:
             assert parData is None, "Using fixed value requires parData=None"
             if type(parFixedVal) in [float, int]:
                 pass
@@ -641,7 +641,7 @@ class writeSDDS:
 
         for parameter in self.parameters:
             for key, value in parameter.items():
-                if (key in parameterAttributeStr.keys()) and value:
+                if (key in parameterAttributeStr.keys()) and value not in ('', None):
                     parameterString = ''.join((parameterString, '{field}{value}, '.format(field=parameterAttributeStr[key][0],
                                                                                           value=parameterAttributeStr[key][1].format(value))))
             outputFile.write('&parameter {}&end\n'.format(parameterString).encode())
-- 
2.43.0


From 19ede4d012d0664afb3ae7ebdd9a2942f0d013d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 27/71] fix: save_sdds stores columns with their declared types
 and validates before opening the file

Columns were stacked to one dtype, so long and short columns did not have the type
written in the header; a rejected save truncated an existing file and left it open, and
the row count was missing for ascii files with empty columns.
---
 rsbeams/rsdata/SDDS.py | 49 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 89887bf..f00f8b6 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -1,5 +1,6 @@
 from future.builtins import str
 import numpy as np
+from io import BytesIO
 from struct import pack
 from sys import byteorder
 from types import GeneratorType
@@ -672,20 +673,24 @@ class writeSDDS:
             Write mode for the file. Data will either be written to the file in ascii or binary mode.
         """
 
+        if dataMode not in ('ascii', 'binary'):
+            print("NOT A DEFINED DATA TYPE")
+            return
         self.dataMode = dataMode
-        outputFile = open(fileName, 'wb')
+        # The file is only opened once everything has been formatted
+        outputFile = BytesIO()
 
         # Verify Column Data Integrity
-        if len(self.columns) > 1:
-            try:
-                column_data = np.column_stack([columns['colData'] for columns in self.columns])
-            except ValueError:
-                print('ERROR: All columns on a page must have same length')
-                return
-        elif len(self.columns) == 1:
-            column_data = self.columns[0]['colData']
-        else:
-            column_data = np.empty([0])
+        row_counts = [len(column['colData']) for column in self.columns]
+        if len(set(row_counts)) > 1:
+            print('ERROR: All columns on a page must have same length')
+            return
+        # Each column is stored with the type declared for it in the header
+        column_data = np.empty(row_counts[0] if row_counts else 0,
+                               dtype=[('f{}'.format(i), utils.data_types[column['colType']])
+                                      for i, column in enumerate(self.columns)])
+        for i, column in enumerate(self.columns):
+            column_data['f{}'.format(i)] = column['colData']
 
         # Begin header writeout
         self._write_header(outputFile)
@@ -708,17 +713,19 @@ class writeSDDS:
         # Write row count. Write 0 if no rows.
         if self.dataMode == 'ascii':
             # Row count follows parameter entries in an ascii file
-            # Should not appear in ascii if 0
-            if column_data.shape[0]:
+            # Should not appear in ascii if there are no columns
+            if self.columns:
                 outputFile.write('{}\n'.format(column_data.shape[0]).encode())
 
         # Write Columns
-        if self.dataMode == 'ascii':
-            np.savetxt(outputFile, column_data)
-        elif self.dataMode == 'binary':
-            column_data.tofile(outputFile)
-            # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
-        else:
-            print("NOT A DEFINED DATA TYPE")
+        if self.columns:
+            if self.dataMode == 'ascii':
+                np.savetxt(outputFile, column_data,
+                           fmt=['%.18e' if column['colType'] == 'double' else '%d' for column in self.columns])
+            elif self.dataMode == 'binary':
+                outputFile.write(column_data.tobytes())
+                # outputFile.write(pack('=i7si8s', *column_data))  Fixed Test for ascii output Chicago New York
+
+        with open(fileName, 'wb') as target:
+            target.write(outputFile.getvalue())
 
-        outputFile.close()
-- 
2.43.0


From 8c2913dee2ccc051c9ec18f69b29619e381e0792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 28/71] fix: string parameters can be written to binary SDDS
 files

---
 rsbeams/rsdata/SDDS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index f00f8b6..7143b13 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -706,7 +706,11 @@ class writeSDDS:
             if parameter['parData'] is not None:
                 if self.dataMode == 'ascii':
                         outputFile.write('{}\n'.format(parameter['parData']).encode())
-                if self.dataMode == 'binary':
+                if self.dataMode == 'binary' and parameter['parType'] == 'string':
+                        # Strings are preceded by their length
+                        text = str(parameter['parData']).encode()
+                        outputFile.write(pack('=i', len(text)) + text)
+                elif self.dataMode == 'binary':
                         outputFile.write(pack('={}'.format(self.key_indentity[parameter['parType']]),
                                               parameter['parData'].item() if hasattr(parameter['parData'], 'item') else parameter['parData']))
 
-- 
2.43.0


From d8c7573cbd131dee4c591824c05265a74460fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 29/71] fix: all lookups of element parameters ignore case

---
 rsbeams/rslattice/Element.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Element.py b/rsbeams/rslattice/Element.py
index add72ae..86a5893 100644
--- a/rsbeams/rslattice/Element.py
+++ b/rsbeams/rslattice/Element.py
@@ -48,7 +48,8 @@ from pykern.pkdebug import pkdc, pkdlog, pkdp
 
 class AgnosticDict(dict):
     def __init__(self, *args):
-        dict.__init__(self, args)
+        dict.__init__(self)
+        self.update(args)
 
     def __getitem__(self, key):
         if type(key) == str:
@@ -58,6 +59,29 @@ class AgnosticDict(dict):
         if type(key) == str:
             dict.__setitem__(self, key.lower(), val)
 
+    def __delitem__(self, key):
+        dict.__delitem__(self, self._fold(key))
+
+    def __contains__(self, key):
+        return dict.__contains__(self, self._fold(key))
+
+    def get(self, key, default=None):
+        return dict.get(self, self._fold(key), default)
+
+    def pop(self, key, *default):
+        return dict.pop(self, self._fold(key), *default)
+
+    def setdefault(self, key, default=None):
+        return dict.setdefault(self, self._fold(key), default)
+
+    def update(self, *args, **kwargs):
+        for key, val in dict(*args, **kwargs).items():
+            self[key] = val
+
+    @staticmethod
+    def _fold(key):
+        return key.lower() if type(key) == str else key
+
 
 class Element(object):
     """
-- 
2.43.0


From 9defd07d0a0fbf7cdc7a2a65bfc459de1e8315a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 30/71] fix: generate_matrix substitutes element parameters
 into the matrices

---
 rsbeams/rslattice/Beamline.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index b8215e9..c4d4b8c 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -237,15 +237,16 @@ class StructuredBeamline(object):
         elements = []
         variables = {}
         for ele in self.sequence:
-            elements.append(self.matrices[ele.type])
+            elements.append(self.matrices[ele.type].copy())
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
             for key, val in ele.parameters.items():
+                # Matrices are written with upper case symbols, parameter names are not
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(key, val)
+                    elements[-1] = elements[-1].subs(symbols(key.upper()), variables[val])
                 else:
-                    elements[-1] = elements[-1].subs(key, val)
+                    elements[-1] = elements[-1].subs(symbols(key.upper()), val)
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From 22dd3d1ca40d69178b2acb659c37c3e0e4543f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 31/71] fix: beamlines are saved and loaded through the current
 ruamel.yaml interface

---
 rsbeams/rslattice/Beamline.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index c4d4b8c..86c59af 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -127,18 +127,16 @@ class StructuredBeamline(object):
 
         beamline = return_elements(self)
         with open(filename, "w") as outputfile:
-            yaml.dump(
-                beamline,
-                outputfile,
-                default_flow_style=False,
-                Dumper=yaml.RoundTripDumper,
-            )
+            dumper = yaml.YAML()
+            dumper.default_flow_style = False
+            dumper.dump(beamline, outputfile)
 
     def load_beamline(self, filename, code):
         if len(self.sequence) != 0:
             print("Cannot load a new beamline.\nThis StructuredBeamline is not empty.")
             return
-        elements = yaml.load(open(filename, "r"), Loader=yaml.Loader)
+        with open(filename, "r") as inputfile:
+            elements = yaml.YAML(typ="safe", pure=True).load(inputfile)
 
         def create_beamline(elements, beamline):
             for element in elements:
-- 
2.43.0


From 3ac3f5fbd222879b9687b59de9021a143519340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 32/71] fix: load_beamline keeps the position and content of
 every subline

---
 rsbeams/rslattice/Beamline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 86c59af..4eec00a 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -151,8 +151,11 @@ class StructuredBeamline(object):
                         },
                     )
                 else:
-                    self.add_beamline(name=None)
-                    create_beamline(element, self.sequence[-1])
+                    # Sublines are stored without names
+                    beamline.add_beamline(
+                        name=f"{beamline.name}_{len(beamline.sequence)}"
+                    )
+                    create_beamline(element, beamline.sequence[-1])
 
         create_beamline(elements, self)
 
-- 
2.43.0


From 4893f2562509def61e331663df30971d72b09743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 33/71] fix: add_element does not register an element it
 refuses to insert

---
 rsbeams/rslattice/Beamline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 4eec00a..a19268a 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -74,6 +74,11 @@ class StructuredBeamline(object):
         Returns:
 
         """
+        if subline:
+            assert self.sequence and isinstance(
+                self.sequence[-1], StructuredBeamline
+            ), "Last element is not type StructuredBeamline \
+                                                                      subline must be false"
         if element_name in self.elements:
             if self._verbosity > 1:
                 print("Element {} already exists. Inserting copy.".format(element_name))
@@ -83,10 +88,6 @@ class StructuredBeamline(object):
             self.elements[element_name] = the_element
         the_element._beamline = self._top
         if subline:
-            assert isinstance(
-                self.sequence[-1], StructuredBeamline
-            ), "Last element is not type StructuredBeamline \
-                                                                      subline must be false"
             self.sequence[-1].sequence.append(the_element)
         else:
             self.sequence.append(the_element)
-- 
2.43.0


From 35e31035135a6efe9b51826edb57ce65cc6a96c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 34/71] fix: repeated and reversed lines of a Sirepo beamline
 keep their elements and order

---
 .../rslattice/templates/lattice_importer.py   | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index d692cba..48c469d 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -74,20 +74,22 @@ def parse_json(sirepo_json, beamline):
     def generate_beamline(items, beamline, definition):
         for item in items:
             if abs(item) in beamline_definitions.keys():
-                beamline.add_beamline(beamline_definitions[abs(item)]["name"])
-                if item >= 0:
-                    generate_beamline(
-                        beamline_definitions[item]["items"],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
-                else:
-                    item = abs(item)
-                    generate_beamline(
-                        beamline_definitions[item]["items"][::-1],
-                        beamline.lines[beamline_definitions[item]["name"]],
-                        definition,
-                    )
+                line = beamline_definitions[abs(item)]
+                # A reversed line differs from the line that runs forward
+                name = line["name"] if item >= 0 else "-" + line["name"]
+                repeated = name in beamline.lines
+                beamline.add_beamline(name)
+                if repeated:
+                    # The line that is inserted again has its items already
+                    continue
+                line_items = line["items"]
+                if item < 0:
+                    # Reversing a line reverses the lines inside of it
+                    line_items = [
+                        -i if abs(i) in beamline_definitions else i
+                        for i in line_items[::-1]
+                    ]
+                generate_beamline(line_items, beamline.lines[name], definition)
             else:
                 element = element_defitions[item]
                 element_minus_special = {
-- 
2.43.0


From d0b306288677fe2ddf817e5a2480c014f6b88ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 35/71] fix: lattice_importer closes the files it reads

---
 rsbeams/rslattice/templates/lattice_importer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/templates/lattice_importer.py b/rsbeams/rslattice/templates/lattice_importer.py
index 48c469d..5b29b07 100644
--- a/rsbeams/rslattice/templates/lattice_importer.py
+++ b/rsbeams/rslattice/templates/lattice_importer.py
@@ -25,7 +25,8 @@ def get_schema(code):
     )
 
     try:
-        schema = pkjson.load_any(open(code_schema_path))
+        with open(code_schema_path) as schema_file:
+            schema = pkjson.load_any(schema_file)
         return schema
     except FileNotFoundError:
         print(f"{code} not supported")
@@ -56,7 +57,8 @@ def parse_json(sirepo_json, beamline):
         `rsbeams.rslattice.Beamline.StructuredBeamline` object for beamline
     """
     try:
-        definition = pkjson.load_any(open(sirepo_json))
+        with open(sirepo_json) as json_file:
+            definition = pkjson.load_any(json_file)
     except TypeError:
         definition = sirepo_json
 
-- 
2.43.0


From 48fc95d6a6f9d40d52d73444ed7be520768f04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 36/71] fix: lines used more than once in an lte beamline are
 not duplicated

---
 rsbeams/rslattice/lte_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b222001..b9957cb 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -155,8 +155,10 @@ class BeamlineParser(object):
                 # Set beamline_string to be new beamline
                 beamline_string = self.lines[element_name]
                 beamline_string = beamline_string[1:]  # Consume opening '('
-                self.beamline.add_beamline(name=element_name)
-                flag_subline = True
+                # A line that occurs again is read again, inserting it as well would repeat its elements
+                flag_subline = element_name not in self.beamline.lines
+                if flag_subline:
+                    self.beamline.add_beamline(name=element_name)
                 continue
 
             # Strip out quotations in case someone wasn't consistent about using them around the element name...
-- 
2.43.0


From 3ef5670e8a1aa769cb29227c5c33e55f04d0dba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 37/71] fix: an lte parser can be run again and for another
 beamline

---
 rsbeams/rslattice/lte_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index b9957cb..fb57a4a 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -72,7 +72,8 @@ class BeamlineParser(object):
         :param beamline_name:
         :return:
         """
-        self.beamline_name = beamline_name
+        self.beamline_name = beamline_name.lower()
+        self.beamline = StructuredBeamline(beamline_name)
 
     def find_beamlines(self):
         """
@@ -102,7 +103,8 @@ class BeamlineParser(object):
         """
         assert self.beamline_name in self.lines, "The requested beamline is not found"
 
-        beamline_string = self.beamline_string[1:]  # Consume opening '('
+        self.beamline = StructuredBeamline(self.beamline.name)
+        beamline_string = self.lines[self.beamline_name][1:]  # Consume opening '('
         coefficient = ''
         lines_list = []  # Holds beamline definitions if recursion is necessary
         flag_subline = False  # Set if recursion begins
-- 
2.43.0


From 0acd3b83aa862386469a91c55760dc4f6ce508f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 38/71] fix: lattice files may end with a comment line

---
 rsbeams/rslattice/lte_parser.py     | 1 +
 rsbeams/rslattice/trace3d_parser.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index fb57a4a..9b56b70 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -287,6 +287,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == '!':
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 120b78f..db61344 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -63,6 +63,7 @@ class BeamlineParser(object):
             try:
                 if self.lattice_definition[linenumber].lstrip()[0] == self.comment_character:
                     self.lattice_definition.pop(linenumber)
+                    continue
             except IndexError:
                 self.lattice_definition.pop(linenumber)
                 continue
-- 
2.43.0


From 37363a219f2c4ac099ceba1937a7efcebf905765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 39/71] fix: Trace3d files are parsed up to and including the
 last element

---
 rsbeams/rslattice/trace3d_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index db61344..85df76f 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -121,6 +121,8 @@ class Trace3d(BeamlineParser):
 
     }
 
+    handlers = {}
+
     def __init__(self, filename, beamline_name):
         super(Trace3d, self).__init__(filename, beamline_name)
         self.comment_character = ';'
@@ -185,7 +187,7 @@ class Trace3d(BeamlineParser):
                 lines.append(i)
 
         self.beamline_start_position = np.min(lines)
-        self.beamline_end_position = np.max(lines)
+        self.beamline_end_position = np.max(lines) + 1
 
     def parse_set_beamline(self):
         for line in self.lattice_definition[self.beamline_start_position:self.beamline_end_position]:
-- 
2.43.0


From 4396ab5e83cfd37d87f8955ade339f557b225ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 40/71] fix: Trace3d and TraceWin numbers keep their sign and
 exponent

---
 rsbeams/rslattice/trace3d_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 85df76f..67f8985 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -8,6 +8,8 @@ from re import findall
 # bend angles: deg
 # Need to handle elements that can have different number of parameters depending on mode
 
+NUMBER = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
+
 
 class BeamlineParser(object):
     """
@@ -153,7 +155,7 @@ class Trace3d(BeamlineParser):
         val_start = line.find('a(')
         val_end = line[val_start:].find('=') + val_start
 
-        values = findall(r"[-+]?\d*\.\d+|\d+", line[val_end:])
+        values = findall(NUMBER, line[val_end:])
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
@@ -334,7 +336,7 @@ class TraceWin(Trace3d):
         self.name_count = 0  # TRACEWIN doesn't name elements
 
     def get_element_parameters(self, line, type):
-        values = findall(r"[-+]?\d*\.\d+|\d+", line)
+        values = findall(NUMBER, line)
         names = self.elements[self.classifiers[type]]
 
         param_dict = {}
-- 
2.43.0


From 795cbad2328d11faa32beb253db4d1300d890a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 41/71] fix: the TraceWin frequency card sets the frequency

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index 67f8985..a88980a 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -270,7 +270,7 @@ class TraceWin(Trace3d):
         # cavities
         'LQ1': 1e-3,
         'LQ2': 1e-3,
-        'frequency': 1e6
+        'FREQUENCY': 1e6
     }
 
     def handle_dtl_cell(self, name, element, beamline):
@@ -306,7 +306,7 @@ class TraceWin(Trace3d):
                               'frequency': cavity_FREQ})
 
     def handle_freq(self, name, element, beamline):
-        self.global_parameters['frequency'] = element['frequency']
+        self.global_parameters['frequency'] = element['FREQUENCY']
 
     def handle_field_map(self, name, element, beamline):
         # Very crude implementation of this element. We will assume just 1D RF field for now.
-- 
2.43.0


From c6e21882f619ee538b849503e0ba3482f3af83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 42/71] fix: handle_cavities gives each cavity its own phase

---
 rsbeams/rslattice/trace3d_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/trace3d_parser.py b/rsbeams/rslattice/trace3d_parser.py
index a88980a..d5f9886 100644
--- a/rsbeams/rslattice/trace3d_parser.py
+++ b/rsbeams/rslattice/trace3d_parser.py
@@ -234,8 +234,8 @@ class Trace3d(BeamlineParser):
                     self.beamline.edit_element(i + 1, ['L',], [0.0,])
                     self.beamline.edit_element(i, ['L', ], [L, ])
 
-        for cav in cavities:
-            self.beamline.edit_element(cav, ['phase']*len(phases), phases)
+        for cav, phase in zip(cavities, phases):
+            self.beamline.edit_element(cav, 'phase', phase)
 
 
 class TraceWin(Trace3d):
-- 
2.43.0


From a16ae0222bc57644a005cf5149abfda299d80cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 43/71] fix: elegant_to_warp computes gradients from the total
 energy

---
 rsbeams/pkcli/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5562560..5740661 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -50,7 +50,7 @@ def elegant_to_warp(input_file_path, output_file_path, beamline_name):
 
 
     beamline = parse_json(sim_dat, beamline_name)
-    _parameter_conversions(beamline=beamline, energy=p_central_mev, flip_sign=True)
+    _parameter_conversions(beamline=beamline, energy=central_energy, flip_sign=True)
     writer = WarpWriter(beamline, input_simulation_type)
     writer.write_file(output_file_path)
     
-- 
2.43.0


From 982bef98975a70f64711ae3007d5ffbfb3be7009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 44/71] fix: multipole gradients scale with the first power of
 the rigidity

---
 rsbeams/pkcli/lattice.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index 5740661..df34c8e 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -7,18 +7,17 @@ from scipy.constants import c, e, physical_constants, m_e
 m_e_mev = physical_constants['electron mass energy equivalent in MeV'][0] * 1e6
 
 
-def _get_gradient(k1, energy, mass, n=1):
+def _get_gradient(k1, energy, mass):
     """
-    K1 (float): Quadrupole normalized strength in m^-(n+1)
+    K1 (float): Quadrupole normalized strength in m^-(n+1), n=1: quadrupole, n=2: sextupole, ...
     energy (float): total energy in eV
     mass (float): mass in eV/c^2
-    n (int) [default=1]: Order of multipole (n=1: quadrupole, n=2: sextupole, ...)
     """
     gamma = energy / mass
     beta = np.sqrt(1 - 1 / gamma ** 2)
     e_momentum = beta * gamma * (mass * e / c**2) * c  # beta * gamma * mass[kg] * c[m/s]
     b_rho = e_momentum / (1 * e)  # kg*m/s / C  == T*m
-    gradient = k1 * b_rho**n
+    gradient = k1 * b_rho
     return gradient
 
 def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
@@ -29,7 +28,7 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
         elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
         elif ele.type == 'sext':
-            ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass, n=2)
+            ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass)
 
 # Public Functions
 
-- 
2.43.0


From 42934b723da7b89f7878e2a2631a373d8a566c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 45/71] fix: elegant_to_warp computes the parameters of every
 element type it writes

---
 rsbeams/pkcli/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsbeams/pkcli/lattice.py b/rsbeams/pkcli/lattice.py
index df34c8e..b366491 100644
--- a/rsbeams/pkcli/lattice.py
+++ b/rsbeams/pkcli/lattice.py
@@ -25,9 +25,9 @@ def _parameter_conversions(beamline, energy, mass=m_e_mev, flip_sign=False):
     for ele in beamline.get_beamline_elements():
         if ele.type == 'kquad' or ele.type == 'quad':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k1']), energy, mass)
-        elif ele.type == 'csbend' or ele.type == 'rben' or ele.type == 'csbend':
+        elif ele.type in ('csbend', 'sben', 'csrcsbend', 'ksbend', 'nibend', 'rben', 'tubend'):
             ele.parameters['rc'] = float(ele.parameters['l']) / float(ele.parameters['angle'])
-        elif ele.type == 'sext':
+        elif ele.type == 'sext' or ele.type == 'ksext':
             ele.parameters['db'] = sgn * _get_gradient(float(ele.parameters['k2']), energy, mass)
 
 # Public Functions
-- 
2.43.0


From 919027d757f7ea7cf5cfe299843337d70d392ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 46/71] fix: WarpWriter writes the element definitions into
 every file

---
 rsbeams/rslattice/formatted_writer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/formatted_writer.py b/rsbeams/rslattice/formatted_writer.py
index 2a0b81d..c568269 100644
--- a/rsbeams/rslattice/formatted_writer.py
+++ b/rsbeams/rslattice/formatted_writer.py
@@ -56,6 +56,7 @@ class WarpWriter:
 
     def write_file(self, filename):
         contents = "import warp as wp\n"
+        self.element_names = []
         line_contents = self.line_template.format(line_name=self.beamline.name)
         elements = self.beamline.get_beamline_elements()
         
-- 
2.43.0


From 344009c7542079018d361978a97e0fcd78c2a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 47/71] fix: longitudinal_phase_space works for files without a
 charge

---
 rsbeams/rsplot/beam_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index c71e97a..92cada3 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -175,7 +175,7 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except KeyError:
+        except (KeyError, ValueError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From 7ae3cc93d06228a7cb71235bef479e31eea0d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 48/71] fix: plot_profile scales both ends of the beam line

---
 rsbeams/rsplot/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 7fc19d0..556f9a3 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -94,7 +94,7 @@ def plot_profile(sdds_columns, axes, scale=1.0, height=0.25):
         if element_type in used_element_types.keys():
             base_type = used_element_types[element_type]
             e1, e2 = s * scale, sdds_columns['s'][i] * scale
-            axes.plot([s, e1], [zp, zp], c=_element_colors[base_type])
+            axes.plot([s * scale, e1], [zp, zp], c=_element_colors[base_type])
             mag = Rectangle((e1, -height / 2.),
                             width=e2 - e1, height=height)
             patch_collection.append(mag)
-- 
2.43.0


From 7fb70430ebdea78fd2a126e591e06e36281f623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 49/71] fix: format_symbol keeps characters it has no symbol
 for

---
 rsbeams/rsplot/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rsplot/util.py b/rsbeams/rsplot/util.py
index 556f9a3..6077978 100644
--- a/rsbeams/rsplot/util.py
+++ b/rsbeams/rsplot/util.py
@@ -148,6 +148,7 @@ def process_character(char, mapping):
         return mapping[char]
     except KeyError:
         print(f"Could not find {char}")
+        return char
 
 
 def format_symbol(description, matplotlib=True):
-- 
2.43.0


From 349caeb1ef480e1b2cc6f7f9dd65956a9eef0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 50/71] fix: plot labels longer than six characters are kept

---
 rsbeams/rsplot/RsScatterPS6D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsplot/RsScatterPS6D.py b/rsbeams/rsplot/RsScatterPS6D.py
index 3c04a08..ade7b2b 100644
--- a/rsbeams/rsplot/RsScatterPS6D.py
+++ b/rsbeams/rsplot/RsScatterPS6D.py
@@ -29,7 +29,7 @@ class RsScatterPS6D:
 
         self.data6d = phaseSpace6D.get_array_6d()
 
-        self.label=numpy.array(['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0'])
+        self.label=['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0']
         self.title='no plot title specified'
         self.figNum = 0
         return
-- 
2.43.0


From 8795acd247eccb1a3246f92c923e8134b900000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 51/71] fix: calculate_centroids closes its pool when an
 integration fails

---
 rsbeams/rsphysics/decoherence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsphysics/decoherence.py b/rsbeams/rsphysics/decoherence.py
index 0c205e5..92ddc95 100644
--- a/rsbeams/rsphysics/decoherence.py
+++ b/rsbeams/rsphysics/decoherence.py
@@ -167,7 +167,9 @@ class CentroidPosition:
             integration_function = self.integrate_any_order
 
         x = range(self.N)
-        results = pool.map(integration_function, x)
-        pool.close()
+        try:
+            results = pool.map(integration_function, x)
+        finally:
+            pool.close()
 
         return results
-- 
2.43.0


From f2d47546db52c83f9136b0b78daa8797ed22e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 52/71] fix: tune_fft uses an end index of zero as given

---
 rsbeams/rsptcls/phases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsptcls/phases.py b/rsbeams/rsptcls/phases.py
index 1075368..50a6ad3 100644
--- a/rsbeams/rsptcls/phases.py
+++ b/rsbeams/rsptcls/phases.py
@@ -76,7 +76,7 @@ def tune_fft(x_c, t_i=1, t_f=None):
         t_f (Optional[int]): Index of x_c at which the fft ends. Defaults to None.
     """
     
-    if not t_f:
+    if t_f is None:
         # if no end specified, then take interval to end of x_c
         t_f = len(x_c)
 
-- 
2.43.0


From 7fb01826e7f3031197fdfa8e91e43c401161de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 53/71] fix: a distribution argument of zero is passed on

---
 rsbeams/rsstats/sample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 8252dc7..4ebe653 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -39,9 +39,11 @@ def cdf_on_grid(distribution: callable, grid: np.ndarray, args: tuple = None) ->
 
     """
 
-    if args:
+    if args is not None:
         try:
             args[0]
+        except IndexError:
+            pass
         except TypeError:
             args = (args,)
         weights = distribution(grid, *args)
-- 
2.43.0


From ddf76689abf040f669d42827e859ff21a087cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 54/71] fix: read_elegant reads files without parameters

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index 9635633..effd30b 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -31,7 +31,7 @@ def read_elegant(file_name: str) -> Species:
     sdds_data = read_particle_data.columns.squeeze()
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
-    except ValueError:
+    except (TypeError, ValueError):
         print(f"No Charge in file {file_name}")
         charge_data = 0.0
 
-- 
2.43.0


From b3228a384a5aa56c330cb85a6014e8d0317c2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 55/71] fix: read_elegant reads files with a single particle

---
 rsbeams/rsdata/switchyard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/switchyard.py b/rsbeams/rsdata/switchyard.py
index effd30b..2f8c855 100644
--- a/rsbeams/rsdata/switchyard.py
+++ b/rsbeams/rsdata/switchyard.py
@@ -28,7 +28,7 @@ def read_elegant(file_name: str) -> Species:
 
     read_particle_data = readSDDS(file_name)
     read_particle_data.read()
-    sdds_data = read_particle_data.columns.squeeze()
+    sdds_data = np.atleast_1d(read_particle_data.columns.squeeze())
     try:
         charge_data = read_particle_data.parameters['Charge'].squeeze()
     except (TypeError, ValueError):
-- 
2.43.0


From e27a3ab406ae831a64c4ff16e6415f72ea1818ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 56/71] fix: new emittances given to
 NonlinearBunch.set_transverse_coordinates take effect

---
 rsbeams/rsptcls/bunch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsbeams/rsptcls/bunch.py b/rsbeams/rsptcls/bunch.py
index b4fdbf5..3579c76 100644
--- a/rsbeams/rsptcls/bunch.py
+++ b/rsbeams/rsptcls/bunch.py
@@ -453,6 +453,8 @@ class NonlinearBunch(StandardBunch):
             self.emitx = emitx
         if emity is not None:
             self.emity = emity
+        if emitx is not None or emity is not None:
+            self.emit = self.emitx + self.emity
         if cutoff is not None:
             self.cutoff = cutoff
 
-- 
2.43.0


From bc753f6065e66c7e357477ca268463b954d9a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 57/71] fix: halton samples are deterministic as documented

---
 rsbeams/rsstats/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsstats/sample.py b/rsbeams/rsstats/sample.py
index 4ebe653..442ff48 100644
--- a/rsbeams/rsstats/sample.py
+++ b/rsbeams/rsstats/sample.py
@@ -91,7 +91,7 @@ def sample(n: int, distribution: callable, a: int, b: int,
     if method == 'random':
         y = np.random.random(n)
     elif method == 'halton':
-        sampler = stats.qmc.Halton(d=1, scramble=True)
+        sampler = stats.qmc.Halton(d=1, scramble=False)
         y = sampler.random(n=n)
     else:
         raise NotImplementedError(f'{method} is not supported for method')
-- 
2.43.0


From 88ecd37a2524f6b587ba717c4645aee84b1da247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 58/71] fix: blank lines in the header of a buffered ascii file
 do not shift the data

---
 rsbeams/rsdata/SDDS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 7143b13..08c7b24 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -180,7 +180,8 @@ class readSDDS:
             self._data_mode = 'ascii'
             # need list of lines to use genfromtxt
             if self.buffer:
-                self.openf = [line for line in self.openf.splitlines() if line.lstrip().find(b'!') != 0]
+                self.openf = [line for line in self.openf[self.header_end_pointer:].splitlines()
+                              if line.lstrip().find(b'!') != 0]
         else:
             self._data_mode = 'binary'
             # If binary the exact string lengths will be found dynamically and inserted here
@@ -362,7 +363,8 @@ class readSDDS:
         if self._data_mode == 'binary':
             position = 0 + self.header_end_pointer * self.buffer
         else:
-            position = 0 + self._header_line_count * self.buffer
+            # When buffered only the lines after the header are kept
+            position = 0
 
         # TODO: Make this a function that checks if should be called
         for i, par in enumerate(self._parameter_keys):
-- 
2.43.0


From df022f75bc3ead28eca3c0e5d8808151dfca2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 59/71] fix: pages of different length can be read

---
 rsbeams/rsdata/struct_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/struct_data.py b/rsbeams/rsdata/struct_data.py
index 7e17258..671e7bc 100644
--- a/rsbeams/rsdata/struct_data.py
+++ b/rsbeams/rsdata/struct_data.py
@@ -45,7 +45,13 @@ class StructData:
         self._data = []
 
     def concat(self):
-        self.data = np.array(self._data)
+        if len({np.shape(page) for page in self._data}) > 1:
+            # Pages may differ in length
+            self.data = np.empty(len(self._data), dtype=object)
+            for i, page in enumerate(self._data):
+                self.data[i] = page
+        else:
+            self.data = np.array(self._data)
 
     def _merge(self, data):
         if len(data) == 1:
-- 
2.43.0


From b6e70297003e89e406c2a65947af903b8013f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 60/71] fix: a single row of an ascii page keeps its row axis

---
 rsbeams/rsdata/SDDS.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 08c7b24..84b105a 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -467,8 +467,9 @@ class readSDDS:
             data_arrays.append([])
             dk = data_keys[0]
             if self.data['&data'][0].fields['mode'] == 'ascii':
-                new_array = self._get_reader()(self.openf, skip_header=position, dtype=dk, max_rows=row_count,
-                                               comments='!', deletechars='')
+                # a single row would be returned without its row axis
+                new_array = np.atleast_1d(self._get_reader()(self.openf, skip_header=position, dtype=dk,
+                                                             max_rows=row_count, comments='!', deletechars=''))
                 if self.buffer:
                     position += new_array.size if row_count is None else row_count
             else:
-- 
2.43.0


From 831158b86ef83d5e97e06444f2d561f60123f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:49 +0000
Subject: [PATCH 61/71] fix: a page without rows keeps its place in the columns
 read

---
 rsbeams/rsdata/SDDS.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index 84b105a..eda1712 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -404,6 +404,10 @@ class readSDDS:
                 column_data, position = self._get_column_data(self._column_keys, position, row_count)
                 if isinstance(user_pages, GeneratorType) or (page in user_pages):
                     self._columns.add(column_data)
+            elif self._columns and (isinstance(user_pages, GeneratorType) or page in user_pages):
+                # keep the place of a page without rows
+                keys = self._column_keys
+                self._columns.add([[np.empty(0, dtype=keys[0] if len(keys) == 1 else self._columns.data_type)]])
             if self._data_mode == 'ascii' and self.data['&data'][0].fields['no_row_counts']:
                 # a blank line ends the page
                 if self.buffer:
-- 
2.43.0


From af52fb13fb7935edd0ebc97e478c392a05c36736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:57 +0000
Subject: [PATCH 62/71] fix: pages to read can be any iterable of page numbers

---
 rsbeams/rsdata/SDDS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index eda1712..ac08c7b 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -354,7 +354,7 @@ class readSDDS:
         # pages: internal counter for page numbers
         # user_pages: store what pages are returned 
         if pages is not None:
-            user_pages = pages
+            user_pages = list(pages)
         else:
             user_pages = utils.iter_always()
         pages = utils.iter_always()
-- 
2.43.0


From f038c25b1e30e4eb4496999589a19381e3468410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 63/71] fix: binary strings of columns with a field_length are
 read by their own length

---
 rsbeams/rsdata/SDDS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsdata/SDDS.py b/rsbeams/rsdata/SDDS.py
index ac08c7b..c7e6704 100644
--- a/rsbeams/rsdata/SDDS.py
+++ b/rsbeams/rsdata/SDDS.py
@@ -210,10 +210,10 @@ class readSDDS:
                 if self._data_mode == 'binary':
                     self._column_keys[-1].append(('record_length', np.int32))
                     self._column_keys.append([])
-                    if col.fields['field_length'] == 0:
-                        self._variable_length_records = True
+                    # field_length only applies to ascii data
+                    self._variable_length_records = True
                     self._column_keys[-1].append((col.fields['name'],
-                                                  col.type_key.format('{}')))
+                                                  utils.data_types['string'].format('{}')))
                 else:
                     self._column_keys[-1].append((col.fields['name'],
                                                   col.type_key.format(self.max_string_length)))
-- 
2.43.0


From 4c192f321229aac652d291a781192c6631144222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 64/71] fix: lte elements without parameters keep the last
 letter of their type

---
 rsbeams/rslattice/lte_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index 9b56b70..d46d586 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -243,6 +243,9 @@ class BeamlineParser(object):
 
         type_start = len(beamline_string) - (beamline_string[::-1].find(':') + 1)
         type_end = beamline_string.find(',')
+        if type_end < 0:
+            # No parameters, the line may not end with a newline
+            type_end = len(beamline_string)
 
         element_type = beamline_string[type_start + 1:type_end].strip()
         beamline_string = beamline_string[type_end + 1:]
-- 
2.43.0


From f56b6b4a737ccbdb275d0e8095ccafcc045bb22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 65/71] fix: rpn variables replace whole words of lte parameter
 values only

---
 rsbeams/rslattice/lte_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index d46d586..bd7184b 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -8,6 +8,7 @@ Translate element types to OPAL from elegant syntax.
 # TODO: Add a beamline length parameter
 # TODO: Add a copy function
 
+import re
 import numpy as np
 digits = '0123456789'
 
@@ -317,13 +318,19 @@ class BeamlineParser(object):
     def _replace_stored_variables(self):
         """
         Replace any variables stored in rpn_variable with their calculated value.
+        Variables are whole words in the values of parameters, the same letters in other names are kept.
         """
 
         for linenumber in range(len(self.lattice_definition)):
+            definition = self.lattice_definition[linenumber]
+            start = definition.find('=')
+            if start < 0 or definition.find('line=(') > -1:
+                continue
+            definition, values = definition[:start], definition[start:]
             for key in self.rpn_variables:
-                if self.lattice_definition[linenumber].find(key):
-                    self.lattice_definition[linenumber] = \
-                        self.lattice_definition[linenumber].replace(key, str(self.rpn_variables[key]))
+                values = re.sub(r'(?<=[\s"\'=]){}(?=[\s"\',]|$)'.format(re.escape(key)),
+                                str(self.rpn_variables[key]), values)
+            self.lattice_definition[linenumber] = definition + values
 
     def _read_name(self, line):
         end = line.find(':')
-- 
2.43.0


From 747d37ca7671d6a00aaac42cdd3e45d3e5a08dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 66/71] fix: blanks before a repeated item of an lte line

---
 rsbeams/rslattice/lte_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsbeams/rslattice/lte_parser.py b/rsbeams/rslattice/lte_parser.py
index bd7184b..d702862 100644
--- a/rsbeams/rslattice/lte_parser.py
+++ b/rsbeams/rslattice/lte_parser.py
@@ -129,6 +129,7 @@ class BeamlineParser(object):
 
         while beamline_string.strip():
             # Check for leading coefficient on element
+            beamline_string = beamline_string.lstrip()
             while beamline_string[0] in digits:
                 coefficient += beamline_string[0]
                 beamline_string = beamline_string[1:]
-- 
2.43.0


From dd77a470dce1de95e57bea44582c2a36f3849f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 67/71] fix: quadrupole matrices are real for either sign of
 the strength and for none

---
 rsbeams/rslattice/Beamline.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index a19268a..0a03782 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -7,7 +7,7 @@
 from pykern.pkcollections import PKDict
 from pykern.pkdebug import pkdc, pkdlog, pkdp
 from .Element import Element
-from sympy import symbols, cosh, sinh, sqrt, lambdify
+from sympy import symbols, cos, cosh, sin, sinh, sqrt, lambdify, Abs, Piecewise
 from sympy.matrices import Matrix
 from ruamel import yaml
 from collections import UserList
@@ -20,6 +20,14 @@ from collections import UserList
 #     def append(self, item: _T) -> None:
 
 
+def _focusing(k, length):
+    # Rows of the matrix of one plane, real for focusing (k > 0), defocusing (k < 0) and no strength
+    w = sqrt(Abs(k))
+    cosine = Piecewise((cos(w * length), k > 0), (cosh(w * length), True))
+    sine = Piecewise((sin(w * length) / w, k > 0), (sinh(w * length) / w, k < 0), (length, True))
+    return [cosine, sine], [-k * sine, cosine]
+
+
 class StructuredBeamline(object):
     """
     Holds Element objects and may contain other StructuredBeamline objects.
@@ -30,12 +38,8 @@ class StructuredBeamline(object):
     matrices = {
         # Transverse matrices for elements
         "quadrupole": Matrix(
-            (
-                [cosh(sqrt(-K1) * L), sinh(sqrt(-K1) * L) / sqrt(-K1), 0, 0],
-                [sqrt(-K1) * sinh(sqrt(-K1) * L), cosh(sqrt(-K1) * L), 0, 0],
-                [0, 0, cosh(sqrt(K1) * L), sinh(sqrt(K1) * L) / sqrt(K1)],
-                [0, 0, sqrt(K1) * sinh(sqrt(K1) * L), cosh(sqrt(K1) * L)],
-            )
+            [row + [0, 0] for row in _focusing(K1, L)]
+            + [[0, 0] + row for row in _focusing(-K1, L)]
         ),
         "drift": Matrix(([1, L, 0, 0], [0, 1, 0, 0], [0, 0, 1, L], [0, 0, 0, 1])),
     }
-- 
2.43.0


From ac4fde253167d5585c51e8fc9fb07fc21f586282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 68/71] fix: matrix variables may have the name of another
 parameter

---
 rsbeams/rslattice/Beamline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index 0a03782..acc4ccd 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -246,13 +246,16 @@ class StructuredBeamline(object):
             elements.append(self.matrices[ele.type].copy())
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
+            values = {}
             for key, val in ele.parameters.items():
                 # Matrices are written with upper case symbols, parameter names are not
                 if type(val) == str:
                     variables[val] = symbols(val)
-                    elements[-1] = elements[-1].subs(symbols(key.upper()), variables[val])
+                    values[symbols(key.upper())] = variables[val]
                 else:
-                    elements[-1] = elements[-1].subs(symbols(key.upper()), val)
+                    values[symbols(key.upper())] = val
+            # Variables may have the name of a parameter
+            elements[-1] = elements[-1].subs(values, simultaneous=True)
 
         if concatenate:
             matrix = elements[-1]
-- 
2.43.0


From a459c7175b713d6b44e552073067da63557b1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 69/71] fix: the matrix of a beamline covers its sub-beamlines

---
 rsbeams/rslattice/Beamline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsbeams/rslattice/Beamline.py b/rsbeams/rslattice/Beamline.py
index acc4ccd..8cdf334 100644
--- a/rsbeams/rslattice/Beamline.py
+++ b/rsbeams/rslattice/Beamline.py
@@ -242,7 +242,7 @@ class StructuredBeamline(object):
     def generate_matrix(self, concatenate=True):
         elements = []
         variables = {}
-        for ele in self.sequence:
+        for ele in self.get_beamline_elements():
             elements.append(self.matrices[ele.type].copy())
 
             # If parameter has numeric value use it, otherwise prepare to lambdify
-- 
2.43.0


From 2eb6e41f6437455e09ee5b89be7ad331086329e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 70/71] fix: phase space plots of SDDS files without parameters

---
 rsbeams/rsplot/beam_plots.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsbeams/rsplot/beam_plots.py b/rsbeams/rsplot/beam_plots.py
index 92cada3..06d22d6 100644
--- a/rsbeams/rsplot/beam_plots.py
+++ b/rsbeams/rsplot/beam_plots.py
@@ -103,7 +103,6 @@ def phase_space(sdds, page=0, bins=128, save=None):
     ]
 
     sdds_columns = sdds.columns[page]
-    sdds_parameters = sdds.parameters[page]
 
     data = [
         (sdds_columns["x"] * 1e3, sdds_columns["xp"] * 1e3),
@@ -161,7 +160,6 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     fig, gs, hm, mom, tim = _get_phase_space_figure()
 
     sdds_columns = sdds.columns[page]
-    sdds_parameters = sdds.parameters[page]
 
     time_scale = 1e12
     t = sdds_columns["t"] - np.average(sdds_columns["t"])
@@ -170,12 +168,12 @@ def longitudinal_phase_space(sdds, page=0, charge="auto", save=None):
     normalized_charge = False
     if charge == "auto":
         try:
-            charge = sdds_parameters["Charge"]
+            charge = sdds.parameters[page]["Charge"]
             if charge == 0.0:
                 print("Warning Charge is 0 in SDDS file. Using normalized counts.")
                 charge = 1.0
                 normalized_charge = True
-        except (KeyError, ValueError):
+        except (KeyError, ValueError, TypeError):
             print(
                 "Warning: No charge data found in SDDS file. Using normalized counts."
             )
-- 
2.43.0


From edb04d991a4cfc7de81bb4ddcc870a654c78300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 71/71] fix: scatter and logarithmic plots with current
 matplotlib

---
 rsbeams/rsplot/plot_ptcls.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsbeams/rsplot/plot_ptcls.py b/rsbeams/rsplot/plot_ptcls.py
index 8cac9cb..fadf7c8 100644
--- a/rsbeams/rsplot/plot_ptcls.py
+++ b/rsbeams/rsplot/plot_ptcls.py
@@ -109,17 +109,17 @@ def scatter_contour(plot_flag, plot_type, x_data, y_data, ax, divs=10, levels=10
 
         toRemove, = ax.plot(x_plot[:,0], x_plot[:,1], c='w')
         ax.scatter(x_plot[:,0], x_plot[:,1], marker='.', c='k')
-        ax.lines.remove(toRemove)
+        toRemove.remove()
 
     if plot_flag.endswith('line'):
         ax.plot(x_plot[:,0], x_plot[:,1], c='k')
 
     if plot_flag in ['line', 'scatter', 'scatter-line']:
         if plot_type in ['log-log', 'semi-logx']:
-            ax.set_xscale('log', nonposx='mask')
+            ax.set_xscale('log', nonpositive='mask')
 
         if plot_type in ['log-log', 'semi-logy']:
-            ax.set_yscale('log', nonposy='mask')
+            ax.set_yscale('log', nonpositive='mask')
 
         if plot_type in ['linear', 'semi-logy']:
             ax.set_xscale('linear')
-- 
2.43.0

