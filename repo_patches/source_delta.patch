From f1e33b41a8cded57e6224cfd8813c55bb88a2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 01/39] fix: keep the loudspeaker coordinates and listener
 position of the caller

---
 spaudiopy/decoder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index db06058..cba93c4 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -62,14 +62,14 @@ class LoudspeakerSetup:
         self.z = utils.asarray_1d(z)
         if listener_position is None:
             listener_position = [0, 0, 0]
-        self.listener_position = utils.asarray_1d(listener_position)
+        listener_position = utils.asarray_1d(listener_position)
 
         # Listener position as origin
-        self.x -= listener_position[0]
-        self.y -= listener_position[1]
-        self.z -= listener_position[2]
+        self.x = self.x - listener_position[0]
+        self.y = self.y - listener_position[1]
+        self.z = self.z - listener_position[2]
         # TODO: Better handling of this, e.g. not effective when updating hull:
-        self.listener_position -= self.listener_position
+        self.listener_position = np.zeros(3)
         _, _, self.d = utils.cart2sph(self.x, self.y, self.z)
 
         # amplitude decay exponent
-- 
2.43.0


From 4245b617dff40c612da9d54b66fae7b8061a7669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/39] fix: do not reuse inverted loudspeaker bases of other
 triplets or positions

---
 spaudiopy/decoder.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index cba93c4..2e1b66c 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -605,11 +605,8 @@ def vbap(src, hull, norm=2, valid_simplices=None, retain_outside=False,
         valid_simplices = hull.valid_simplices
 
     # inverted LS vector base
-    if hull.inverted_vbase is None:
-        inverted_vbase = _invert_triplets(valid_simplices, hull.points)
-        hull.inverted_vbase = inverted_vbase
-    else:
-        inverted_vbase = hull.inverted_vbase
+    inverted_vbase = _invert_triplets(valid_simplices, hull.points)
+    hull.inverted_vbase = inverted_vbase
 
     src = np.atleast_2d(src)
     assert (src.shape[1] == 3)
-- 
2.43.0


From cf17ef648de38c0dbb1f77b2ac132ff8f6ead393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 03/39] fix: ambisonics_setup with N_kernel=None

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 2e1b66c..78262d3 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -201,7 +201,7 @@ class LoudspeakerSetup:
             self.characteristic_order = characteristic_order
 
         if N_kernel is None:
-            warn('Setting setup kernel order =', self.characteristic_order)
+            warn(f'Setting setup kernel order = {self.characteristic_order}')
             N_kernel = self.characteristic_order
         if (not update_hull and imaginary_ls is not None):
             warn('Not updating hull but imaginary_ls position given.')
-- 
2.43.0


From 10e8bddd5a271481065d6a251cb0798487201597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/39] fix: energy normalization of the AllRAP2 kernel

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 78262d3..b9829d7 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -885,7 +885,7 @@ def allrap2(src, hull, N_sph=None, jobs_count=1):
     a_n = sph.max_rE_weights(N_sph)
     a_n = sph.unity_gain(a_n)
     # sqrt(E) normalization (eq.6)
-    a_w = np.sqrt(np.sum((2 * (np.arange(N_sph + 1) + 1)) / (4 * np.pi) *
+    a_w = np.sqrt(np.sum((2 * np.arange(N_sph + 1) + 1) / (4 * np.pi) *
                          a_n**2))
     a_n /= a_w
     a_nm = sph.repeat_per_order(a_n)
-- 
2.43.0


From 8230b047b8b9042172f5cb1f7760c198e97dc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/39] fix: sh2bin with a single SH channel or a single filter
 tap

---
 spaudiopy/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index b9829d7..94065d3 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1313,9 +1313,9 @@ def sh2bin(sig_nm, hrirs_nm):
     assert (sig_nm.ndim == 2)
     assert (hrirs_nm.ndim == 3)
     assert (sig_nm.shape[0] == hrirs_nm.shape[1])
-    out_l = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[0, :, :]),
+    out_l = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[0, :, :],
                                      axes=-1), axis=0)
-    out_r = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[1, :, :]),
+    out_r = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[1, :, :],
                                      axes=-1), axis=0)
     return np.vstack((out_l, out_r))
 
-- 
2.43.0


From 41e0b6d659d430e085d66b18b651b389944a188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/39] fix: magls_bin dropped a tap of HRIRs with odd length
 above 1024

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 94065d3..edecab9 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1454,7 +1454,7 @@ def magls_bin(hrirs, N_sph, f_trans=None, hf_cont='avg', hf_delay=(0, 0)):
         hrtfs_mls_nm[1, :, k] = Y_pinv @ (np.abs(hrtfs_r[:, k]) *
                                           np.exp(1j*phi_r_mod[:, k]))
 
-    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm)
+    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm, n=nfft)
     hrirs_mls_nm = hrirs_mls_nm[..., :numSmpls]
 
     # taper last samples
-- 
2.43.0


From dbec05baa353a509477b2b3e5be50ba3c7a411b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 07/39] fix: save_audio ignored a mismatching fs

---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 21af373..2950eba 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -84,7 +84,7 @@ def save_audio(signal, filename, fs=None, subtype='FLOAT'):
     subtype : optional
 
     """
-    if isinstance(sig, sig.MonoSignal):
+    if isinstance(signal, sig.MonoSignal):
         if fs is not None:
             assert (signal.fs == fs)
 
-- 
2.43.0


From fbde70f7d525cd78d0c40513e6d1a1292b24189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 08/39] fix: layout gains follow their loudspeakers and can be
 saved

---
 spaudiopy/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 2950eba..9bf5946 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -547,7 +547,7 @@ def load_layout(filename, listener_position=None, N_kernel=50):
 
     ls_layout = decoder.LoudspeakerSetup(ls_x, ls_y, ls_z,
                                          listener_position=listener_position)
-    ls_layout.ls_gains = ls_gains
+    ls_layout.ls_gains = ls_gains[~isImaginary]
     # then add imaginary loudspeakers to ambisonics setup
     imag_x, imag_y, imag_z = utils.sph2cart(utils.deg2rad(azi[isImaginary]),
                                             utils.deg2rad(90-ele[isImaginary]),
@@ -586,7 +586,7 @@ def save_layout(filename, ls_layout, name='unknown', description='unknown'):
         ls_dict['Channel'] = ls_idx + 1
         ls_dict['Gain'] = 0. if ls_idx in np.asarray(
                            ls_layout.ambisonics_hull.imaginary_ls_idx) else \
-                           ls_layout.ls_gains[ls_idx]
+                           float(ls_layout.ls_gains[ls_idx])
         out_data['LoudspeakerLayout']['Loudspeakers'].append(ls_dict)
 
     with open(os.path.expanduser(filename), 'w') as outfile:
-- 
2.43.0


From d51255d7e32205a9018f65b5d930dfd3cc8513f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 09/39] fix: resampling a MultiSignal with one channel

---
 spaudiopy/sig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index d33229d..341df45 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -205,7 +205,7 @@ class MultiSignal(MonoSignal):
         else:
             sig_resamp = pcs.resample_signal(self.get_signals(),
                                              self.fs, fs_new, axis=-1)
-            self.__init__([*sig_resamp], fs_new)
+            self.__init__([*np.atleast_2d(sig_resamp)], fs_new)
 
     def play(self, gain=1, wait=True):
         """Play sound signal. Adjust gain and wait until finished."""
-- 
2.43.0


From fe45e36b228a366952e56a2905ee566445fad1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 10/39] fix: W, X, Y, Z of AmbiBSignal follow the channels

---
 spaudiopy/sig.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index 341df45..faff058 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -219,10 +219,38 @@ class AmbiBSignal(MultiSignal):
     def __init__(self, signals, fs=None):
         MultiSignal.__init__(self, signals, fs=fs)
         assert self.channel_count == 4, "Provide four channels!"
-        self.W = utils.asarray_1d(self.channels[0].signal)
-        self.X = utils.asarray_1d(self.channels[1].signal)
-        self.Y = utils.asarray_1d(self.channels[2].signal)
-        self.Z = utils.asarray_1d(self.channels[3].signal)
+
+    @property
+    def W(self):
+        return self.channels[0].signal
+
+    @W.setter
+    def W(self, value):
+        self.channels[0].signal = value
+
+    @property
+    def X(self):
+        return self.channels[1].signal
+
+    @X.setter
+    def X(self, value):
+        self.channels[1].signal = value
+
+    @property
+    def Y(self):
+        return self.channels[2].signal
+
+    @Y.setter
+    def Y(self, value):
+        self.channels[2].signal = value
+
+    @property
+    def Z(self):
+        return self.channels[3].signal
+
+    @Z.setter
+    def Z(self, value):
+        self.channels[3].signal = value
 
     @classmethod
     def from_file(cls, filename, fs=None):
-- 
2.43.0


From 268c908ebb0c4f5cf9332b1dca3ea441b605397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 11/39] fix: half_sided_Hann with scipy versions without
 scipy.signal.hann

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b93f4c1..53f45c2 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -576,7 +576,7 @@ def energy_decay(p):
 def half_sided_Hann(N):
     """Design half-sided Hann tapering window of order N (>=3)."""
     assert (N >= 3)
-    w_full = signal.hann(2 * ((N + 1) // 2) + 1)
+    w_full = signal.windows.hann(2 * ((N + 1) // 2) + 1)
     # get half sided window
     w_taper = np.ones(N + 1)
     w_taper[-((N - 1) // 2):] = w_full[-((N + 1) // 2):-1]
-- 
2.43.0


From fea5ce6ad7df336ced28692ecb5254b27b217113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 12/39] fix: pulsed_noise pause, odd and fade lengths

---
 spaudiopy/process.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 53f45c2..3cb8a53 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -655,9 +655,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             nbins = len(X)
             # divide by sqrt(n), power spectrum
             X_pink = X / np.sqrt(np.arange(nbins)+1)
-            s_noise = np.fft.irfft(X_pink)
+            s_noise = np.fft.irfft(X_pink, n=len(s_noise))
 
-        s_pause = np.zeros(int(fs*t_noise))
+        s_pause = np.zeros(int(fs*t_pause))
 
         # fades
         mask_n = int(fs*t_fade)
@@ -665,8 +665,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
         mask_out = np.cos(np.linspace(0, np.pi/2, mask_n))**2
 
         # apply
-        s_noise[:mask_n] *= mask_in
-        s_noise[-mask_n:] *= mask_out
+        if mask_n > 0:
+            s_noise[:mask_n] *= mask_in
+            s_noise[-mask_n:] *= mask_out
 
         s_out = np.r_[s_out, s_noise, s_pause]
 
-- 
2.43.0


From b2f37bd2041402ed639da05d0aefde156844ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 13/39] fix: frac_octave_smoothing truncated integer spectra

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 3cb8a53..bd444aa 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -384,7 +384,7 @@ def frac_octave_smoothing(a, smoothing_n, WEIGHTED=True):
 
     """
     a = utils.asarray_1d(a)
-    smooth = np.zeros_like(a)
+    smooth = np.zeros_like(a, dtype=np.result_type(a, float))
     num_smpls = len(a)
     for idx in range(num_smpls):
         k_lo = np.floor(idx / (2**(1/(2*smoothing_n))))
-- 
2.43.0


From b9bf1c057d7db64ca695a96ce91eb087860bd3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 14/39] fix: separate_cov with num_cut=0

---
 spaudiopy/parsa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a165f99..d5409ef 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -199,9 +199,10 @@ def separate_cov(cov_x, num_cut=None):
 
     w_nn = 1. * w
     w_r = w[-(num_cut+1)]
-    w_nn[-num_cut:] = w_r
+    idx_pp = np.arange(len(w) - num_cut, len(w))
+    w_nn[idx_pp] = w_r
     S_nn = v @ np.diag(w_nn) @ v.T
-    S_pp = v[:, -num_cut:] @ (np.diag(w[-num_cut:] - w_r)) @ v[:, -num_cut:].T
+    S_pp = v[:, idx_pp] @ (np.diag(w[idx_pp] - w_r)) @ v[:, idx_pp].T
     return S_pp, S_nn
 
 
-- 
2.43.0


From 7ed01bc8b39306ec258bf146b98a7aae2a485e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 15/39] fix: rotation_rodrigues with negative angles

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 3436d49..2f4acb6 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -122,7 +122,7 @@ def rotation_rodrigues(k, theta):
     See https://mathworld.wolfram.com/RodriguesRotationFormula.html
     """
     assert (len(k) == 3)
-    if theta > 10e-10:
+    if abs(theta) > 10e-10:
         k = k / np.linalg.norm(k)
         K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
         R = np.eye(3) + np.sin(theta)*K + (1-np.cos(theta)) * K@K
-- 
2.43.0


From 694fc597a141c7fcaa64fdaac4453a30561d1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 16/39] fix: rotation_vecvec between almost parallel vectors

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 2f4acb6..877a922 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -140,7 +140,7 @@ def rotation_vecvec(f, t):
     k = np.cross(f, t)
     if (np.linalg.norm(k) < 10e-15):
         raise ValueError("Can not find rotation axis (axis flip?).")
-    R = rotation_rodrigues(k, np.arccos(np.dot(f, t)))
+    R = rotation_rodrigues(k, np.arccos(np.clip(np.dot(f, t), -1., 1.)))
     return R
 
 
-- 
2.43.0


From be0a68027e9e9436c1e0229219983f344e18b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 17/39] fix: haversine of almost antipodal points

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 877a922..88d92b6 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -182,7 +182,7 @@ def haversine(azi1, zen1, azi2, zen2, r=1):
 
     haversin_alpha = haversin_A + np.cos(lat1) * np.cos(lat2) * haversin_B
 
-    c = 2 * r * np.arcsin(np.sqrt(haversin_alpha))
+    c = 2 * r * np.arcsin(np.sqrt(np.clip(haversin_alpha, 0., 1.)))
     return c
 
 
-- 
2.43.0


From f32ece87b37afba2afe9d850233a34a79379c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 18/39] fix: SH rotation matrix of order zero

---
 spaudiopy/sph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 0a567d9..fd3e21c 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -274,7 +274,8 @@ def sh_rotation_matrix(N_sph, yaw, pitch, roll, sh_type='real',
     # change order to y, z, x
     r1 = rot_mat_cartesian[..., [1, 2, 0], :]
     r1 = r1[..., :, [1, 2, 0]]
-    r_blocks.append(r1)
+    if N_sph > 0:
+        r_blocks.append(r1)
 
     # auxiliary functions
     def _rot_p_func(i, l, a, b, r1, rlm1):
-- 
2.43.0


From d4e819dd3fd68deeffc1a37737499622c0ec74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 19/39] fix: sh_mult with complex coefficients or two constant
 functions

---
 spaudiopy/sph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index fd3e21c..6f673ec 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -1284,14 +1284,14 @@ def sh_mult(a_nm, b_nm, sh_type):
                                              'real'))
 
     """
-    a_nm = utils.asarray_1d(np.asarray(a_nm, dtype=float))
-    b_nm = utils.asarray_1d(np.asarray(b_nm, dtype=float))
+    a_nm = utils.asarray_1d(a_nm)
+    b_nm = utils.asarray_1d(b_nm)
     N1 = int(np.sqrt(len(a_nm)) - 1)
     N2 = int(np.sqrt(len(b_nm)) - 1)
     N_out = N1 + N2
 
     # get discretization points
-    v = grids.load_t_design(2*N_out)
+    v = grids.load_t_design(max(2*N_out, 1))
     v_dirs = utils.vec2dir(v)
 
     c_nm = sht(inverse_sht(a_nm, v_dirs[:, 0], v_dirs[:, 1], sh_type=sh_type) *
-- 
2.43.0


From 1dfb1657b3df6d3e097ad907bd80e2781e18acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 20/39] fix: frac_octave_filterbank with a last overlap beyond
 fs/2

---
 spaudiopy/process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index bd444aa..b3b7a60 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -519,11 +519,14 @@ def frac_octave_filterbank(n, N_out, fs, f_low, f_high=None, mode='energy',
         a = np.sin(np.pi / 2 * phi)
         b = np.cos(np.pi / 2 * phi)
 
+        # overlap region, up to the last bin
+        k_ov = np.arange(k_i[b_idx] - P[b_idx],
+                         min(k_i[b_idx] + P[b_idx] + 1, len(freq)))
         # Hi
-        g[b_idx, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = b
+        g[b_idx, k_ov] = b[:len(k_ov)]
         g[b_idx, k_i[b_idx] + P[b_idx]:] = 0.
         # Lo
-        g[b_idx + 1, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = a
+        g[b_idx + 1, k_ov] = a[:len(k_ov)]
         g[b_idx + 1, : k_i[b_idx] - P[b_idx]] = 0.
 
     if mode in ['energy']:
-- 
2.43.0


From ebc229512e2c1815aa3878af2c1eb49380e7ebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 21/39] fix: compare_ambi read a channel attribute that does
 not exist

---
 spaudiopy/plot.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8b861da..9e99fea 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -183,17 +183,17 @@ def compare_ambi(Ambi_A, Ambi_B):
 
     plt.figure()
     plt.subplot(2, 1, 1)
-    plt.plot(t, Ambi_A.channel[0].signal,
-             t, Ambi_A.channel[1].signal,
-             t, Ambi_A.channel[2].signal,
-             t, Ambi_A.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_A.channels[0].signal,
+             t, Ambi_A.channels[1].signal,
+             t, Ambi_A.channels[2].signal,
+             t, Ambi_A.channels[3].signal, alpha=0.3)
     plt.legend(['Channel 1', 'Channel 2', 'Channel 3', 'Channel 4'])
     plt.title('A-format')
     plt.subplot(2, 1, 2)
-    plt.plot(t, Ambi_B.channel[0].signal,
-             t, Ambi_B.channel[1].signal,
-             t, Ambi_B.channel[2].signal,
-             t, Ambi_B.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_B.channels[0].signal,
+             t, Ambi_B.channels[1].signal,
+             t, Ambi_B.channels[2].signal,
+             t, Ambi_B.channels[3].signal, alpha=0.3)
     plt.legend(['Channel W', 'Channel X', 'Channel Y', 'Channel Z'])
     plt.xlabel('t in s')
     plt.title('B-format')
-- 
2.43.0


From df6c14e7476fb6a60af3c993c57da19314deb3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 22/39] fix: transfer_function plot clipped negative and
 complex values

---
 spaudiopy/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 9e99fea..4b9c754 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -128,8 +128,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
 def transfer_function(freq, H, title=None, xlim=(10, 25000)):
     """Plot transfer function H (magnitude and phase) over time frequency f."""
     fig, ax1 = plt.subplots()
-    H = np.clip(H, 10e-15, None)
-    ax1.semilogx(freq, utils.db(H),
+    ax1.semilogx(freq, utils.db(np.clip(np.abs(H), 10e-15, None)),
                  color=plt.rcParams['axes.prop_cycle'].by_key()['color'][0],
                  label='Magnitude')
     ax1.set_xlabel('Frequency in Hz')
-- 
2.43.0


From d994b224801b02f038f16adbe064153ea1c637bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 23/39] fix: sh_rms_map colour limits leaked between calls and
 long signals lost samples

---
 spaudiopy/plot.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 4b9c754..a60f34c 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -444,7 +444,7 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
-               clim=[None, None], ax=None):
+               clim=(None, None), ax=None):
     """Plot spherical harmonic signal RMS as function on the sphere.
     Evaluates the maxDI beamformer, if w_n is None.
 
@@ -484,13 +484,13 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
 
     mem_block = 2**16
     if F_nm.shape[1] > mem_block:
-        rms_d_list = []
+        sq_sum = 0.
         start_idx = 0
-        while start_idx + mem_block <= F_nm.shape[1]:
+        while start_idx < F_nm.shape[1]:
             f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm[:, start_idx:start_idx+mem_block]
-            rms_d_list.append(np.abs(utils.rms(f_d, axis=1)))
+            sq_sum = sq_sum + np.sum(np.abs(f_d)**2, axis=1)
             start_idx += mem_block
-        rms_d = np.sqrt(np.square(np.array(rms_d_list)).mean(axis=0))
+        rms_d = np.sqrt(sq_sum / F_nm.shape[1])
     else:
         f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm
         rms_d = np.abs(utils.rms(f_d, axis=1))
@@ -505,8 +505,8 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
         fig = ax.get_figure()
     ax.set_aspect('equal')
 
-    if clim[0] is None:
-        clim[0]=0 if not TODB else None
+    if clim[0] is None and not TODB:
+        clim = (0, clim[1])
     p = ax.tricontourf(azi_plot, zen_plot, rms_d, levels=100,
                        vmin=clim[0], vmax=clim[1])
     ax.grid(True)
-- 
2.43.0


From 4755b91e57e73ad7c58fe35a55b83fb9040c403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 24/39] fix: plots changed the azimuths and labels of the
 caller

---
 spaudiopy/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index a60f34c..bed2520 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -107,7 +107,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
             labels = [None] * len(mag)
         # fake line for extra legend entry
         ax.plot([], [], '*', color='black')
-        labels.append(r"$\frac{%d}{8}$ octave smoothing" % smoothing_n)
+        labels = [*labels, r"$\frac{%d}{8}$ octave smoothing" % smoothing_n]
     if labels is not None:
         ax.legend(labels)
     
@@ -547,7 +547,7 @@ def spherical_function_map(f, azi, zen, TODB=False, title=None,
     f = utils.asarray_1d(np.real_if_close(f))
     azi = utils.asarray_1d(azi)
     zen = utils.asarray_1d(zen)
-    azi[azi > np.pi] = azi[azi > np.pi] - 2*np.pi
+    azi = np.where(azi > np.pi, azi - 2*np.pi, azi)
 
     if TODB:
         f = utils.db(f)
@@ -1032,7 +1032,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
     ax.set_aspect('equal')
 
     # shift azi to [np.pi, np.pi]
-    azi[azi > np.pi] = azi[azi > np.pi] % -np.pi
+    azi = np.where(azi > np.pi, azi - 2*np.pi, azi)
 
     if p is not None:
         s_plot = np.clip(p / np.max(p), 10e-15, None)
-- 
2.43.0


From 42d4d09b53482f320c5ec2fc5c26e9c41cd24f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 25/39] fix: hull plot coloured the wrong faces when some are
 invalid

---
 spaudiopy/plot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index bed2520..142c713 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -702,6 +702,7 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
             # Can happen when not a LoudspeakerSetup but generic hull object
             mark_invalid = False
             valid_s = simplices
+            is_valid_s = np.full(len(simplices), True)
         else:
             is_valid_s = np.array([hull.is_simplex_valid(s)
                                    for s in simplices])
@@ -712,6 +713,7 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
                 mark_invalid = False
     else:
         valid_s = simplices
+        is_valid_s = np.full(len(simplices), True)
 
     if color is not None:
         if clim is None:
@@ -722,7 +724,7 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
                               norm=colors.Normalize(vmin=clim[0],
                                                     vmax=clim[1]))
         m.set_array(color)
-        colset = m.to_rgba(color)
+        colset = m.to_rgba(color)[is_valid_s]
     else:
         colset = None
 
-- 
2.43.0


From 9c89d53aeede6d436c68a5255d10a1698938183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:11 +0000
Subject: [PATCH 26/39] fix: sh_music without sources

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index d5409ef..4a7b754 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -244,7 +244,7 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     dirs_zen = utils.asarray_1d(dirs_zen)
     Y = sph.sh_matrix(N_sph, dirs_azi, dirs_zen, sh_type='real')
     _, v = np.linalg.eigh(cov_x)
-    Qn = v[:, :-num_src]
+    Qn = v[:, :len(v) - num_src]
     a = (Qn.T @ Y.T)
     P_music = 1 / (np.sum(a * a, 0) + 10e-12)
     return P_music
-- 
2.43.0


From 433ac9c71677dda6221ec3d4c703c1d3f4c8dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 27/39] fix: the ambisonics hull uses the distance exponent of
 its setup

---
 spaudiopy/decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index edecab9..4ffe5c5 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -230,6 +230,7 @@ class LoudspeakerSetup:
         ambisonics_hull = LoudspeakerSetup(ambi_ls[:, 0],
                                            ambi_ls[:, 1],
                                            ambi_ls[:, 2])
+        ambisonics_hull.a = self.a
         # mark imaginary speaker index
         ambisonics_hull.imaginary_ls_idx = imaginary_ls_idx
         # discretization hull
-- 
2.43.0


From bb1c6c1faf04acfb47322ca2b9b9a6de6890a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 28/39] fix: load_layout placed imaginary loudspeakers relative
 to the origin instead of the listener

---
 spaudiopy/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 9bf5946..874fea7 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -553,6 +553,9 @@ def load_layout(filename, listener_position=None, N_kernel=50):
                                             utils.deg2rad(90-ele[isImaginary]),
                                             r[isImaginary])
     imag_pos = np.c_[imag_x, imag_y, imag_z]
+    if listener_position is not None:
+        # setup is relative to the listener
+        imag_pos = imag_pos - utils.asarray_1d(listener_position)
     ls_layout.ambisonics_setup(N_kernel=N_kernel, update_hull=True,
                                imaginary_ls=imag_pos)
     return ls_layout
-- 
2.43.0


From 4a40e697867225f48716cbf909dfefdf491cdd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 29/39] fix: energy_decay normalised by the trapezoidal
 integral, started above 0 dB

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b3b7a60..1d205d6 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -571,7 +571,7 @@ def energy_decay(p):
     -------
     rd : array_like
     """
-    a = np.trapz(p**2)
+    a = np.sum(p**2)
     b = np.cumsum(p[::-1]**2)[::-1]
     return 10 * np.log10(b / a)
 
-- 
2.43.0


From 82d879aa69f3ed01c5899b9f7f0335f7042d45e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:35 +0000
Subject: [PATCH 30/39] fix: sdm_post_equalization2 returned smoothed gains but
 applied the unsmoothed ones

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 4a7b754..9c3717d 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -911,7 +911,7 @@ def sdm_post_equalization2(ls_sigs, sdm_p, fs, ls_setup,
                                         dirac[band_idx, :])
             # Apply gains
             if not CHECK_SANITY:
-                X = band_gains[:, np.newaxis] * X
+                X = band_gains_smoothed[:, np.newaxis] * X
             else:
                 X = X
 
-- 
2.43.0


From 3a98f6f4d95460243c1ba0fbaa5f4bd07bfd15d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 31/39] fix: plot titles landed on the current instead of the
 given axes

---
 spaudiopy/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 142c713..5b504b0 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -122,7 +122,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
     ax.set_ylim(ylim)
     ax.grid(True)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def transfer_function(freq, H, title=None, xlim=(10, 25000)):
@@ -250,7 +250,7 @@ def spherical_function(f, azi, zen, title=None, ax=None):
     plt.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_coeffs(F_nm, sh_type=None, azi_steps=5, el_steps=3, title=None,
@@ -325,7 +325,7 @@ def sh_coeffs(F_nm, sh_type=None, azi_steps=5, el_steps=3, title=None,
     plt.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
@@ -440,7 +440,7 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
     plt.grid(True)
     set_aspect_equal3d(ax)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
@@ -777,7 +777,7 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
     if color is not None:
         fig.colorbar(m, ax=ax, fraction=0.024, pad=0.04)
     if title is not None:
-        plt.title(title)
+        ax.set_title(title)
 
 
 def hull_normals(hull, plot_face_normals=True, plot_vertex_normals=True):
-- 
2.43.0


From d6fe18ec9e67f09cd3ac6b17c87f0f31d4fa3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 32/39] fix: plot.sh_bar ignored its title

---
 spaudiopy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 5b504b0..768e6dc 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -668,6 +668,8 @@ def sh_bar(x_nm, TODB=True, centered=False, num_groups=1, s=250, vf=4,
                       else 'neither')
     cb.set_label("in dB" if TODB else None)
     ax.grid(True)
+    if title is not None:
+        ax.set_title(title)
 
 
 def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
-- 
2.43.0


From 6cff2aa886de2b78a2838eb44f7cdfa72be17933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 33/39] fix: plot.sh_bar limits not centered, inverted for
 negative values

---
 spaudiopy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 768e6dc..677e8af 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -638,6 +638,8 @@ def sh_bar(x_nm, TODB=True, centered=False, num_groups=1, s=250, vf=4,
     mapper.set_array(val_plot)
     if clim is None:
         clim = (val_plot.min(), val_plot.max())
+        if centered:
+            clim = (-np.max(np.abs(clim)), np.max(np.abs(clim)))
     mapper.set_clim(vmin=clim[0], vmax=clim[1])
     cols = mapper.to_rgba(val_plot)
 
-- 
2.43.0


From 2122f4e132e7e67e96135704278ef880d51dffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 34/39] fix: plot.sh_coeffs_overlay used the SH type of the
 first for all

---
 spaudiopy/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 677e8af..1b84771 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -398,10 +398,11 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
     for idx, F_nm in enumerate(F_nm_list):
         F_nm = utils.asarray_1d(F_nm)
         F_nm = F_nm[:, np.newaxis]
-        if sh_type is None:
-            sh_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
+        f_type = sh_type
+        if f_type is None:
+            f_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
         f_plot = sph.inverse_sht(F_nm, phi_plot.ravel(), theta_plot.ravel(),
-                                 sh_type)
+                                 f_type)
         f_r = np.abs(f_plot)
         f_ang = np.angle(f_plot)
 
-- 
2.43.0


From eb62c8298bb04893d49160e88895fbfe686e34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 35/39] fix: plot.sh_coeffs_subplot failed for a single plot

---
 spaudiopy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 1b84771..2b1f5c1 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -344,7 +344,8 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
                          constrained_layout=True)
     axs = kwargs.pop('ax', None)
     if axs is None:
-        axs = fig.subplots(1, num_plots, subplot_kw={'projection': '3d'})
+        axs = fig.subplots(1, num_plots, squeeze=False,
+                           subplot_kw={'projection': '3d'})[0]
     sub_cbar = kwargs.pop('cbar', True)
     plt.suptitle(kwargs.pop('title', None))
 
-- 
2.43.0


From fc4efc75826a0f7397aff67ffb7c14212e7ec47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:25 +0000
Subject: [PATCH 36/39] fix: plot.polar failed for integer values

---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 2b1f5c1..83b6a5d 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -852,6 +852,7 @@ def polar(theta, r, TODB=True, rlim=None, title=None, ax=None):
         ax = fig.add_subplot(projection='polar')
 
     # Split in pos and neg part and set rest NaN for plots
+    r = np.asarray(r, dtype=float)
     rpos = np.copy(r)
     rpos[r < 0] = np.nan
     rneg = np.copy(r)
-- 
2.43.0


From af19d1b840d477689f7768e24e3aa2a443cb1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:02 +0000
Subject: [PATCH 37/39] fix: plot.sh_coeffs_subplot put its title on the
 current figure

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 83b6a5d..5f4a0c2 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -347,7 +347,7 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
         axs = fig.subplots(1, num_plots, squeeze=False,
                            subplot_kw={'projection': '3d'})[0]
     sub_cbar = kwargs.pop('cbar', True)
-    plt.suptitle(kwargs.pop('title', None))
+    fig.suptitle(kwargs.pop('title', None))
 
     for idx_p, ax in enumerate(axs):
         sh_coeffs(F_nm_list[idx_p], ax=ax, cbar=False, **kwargs)
-- 
2.43.0


From ff33d3251fe40b308516553c799511b5231eed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:02 +0000
Subject: [PATCH 38/39] fix: interleave_channels truncated the right channel to
 the number type of the left one

---
 spaudiopy/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 88d92b6..61ca502 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -279,6 +279,8 @@ def interleave_channels(left_channel, right_channel, style=None):
                              '(Nchannel x Nsamples).')
 
     output_data = np.repeat(left_channel, 2, axis=0)
+    output_data = output_data.astype(np.result_type(left_channel,
+                                                    right_channel))
     output_data[1::2, :] = right_channel
 
     return output_data
-- 
2.43.0


From d146ef786a3c9950b175025eed3b71958d1f9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:47 +0000
Subject: [PATCH 39/39] fix: pressure_on_sphere failed for integer kr

---
 spaudiopy/sph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 6f673ec..f2c356d 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -874,7 +874,7 @@ def pressure_on_sphere(N_sph, kr, weights=None):
     spherical harmonics. The Journal of the Acoustical Society of America,
     eq. (11).
     """
-    p_N = np.zeros_like(kr)
+    p_N = np.zeros_like(kr, dtype=float)
     if weights is None:
         weights = np.ones(N_sph + 1)
     for n in range(N_sph + 1):
-- 
2.43.0

