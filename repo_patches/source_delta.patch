From 18341d46fc1e160d918d207e8f202cf5c0bfafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 01/22] fix: rotation_rodrigues returned identity for negative
 angles

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 3436d49..2f4acb6 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -122,7 +122,7 @@ def rotation_rodrigues(k, theta):
     See https://mathworld.wolfram.com/RodriguesRotationFormula.html
     """
     assert (len(k) == 3)
-    if theta > 10e-10:
+    if abs(theta) > 10e-10:
         k = k / np.linalg.norm(k)
         K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
         R = np.eye(3) + np.sin(theta)*K + (1-np.cos(theta)) * K@K
-- 
2.43.0


From 4a752f36853fb1de78eb2ef2a71aee94fc23495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 02/22] fix: sh_rotation_matrix failed for order 0

---
 spaudiopy/sph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 0a567d9..fd3e21c 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -274,7 +274,8 @@ def sh_rotation_matrix(N_sph, yaw, pitch, roll, sh_type='real',
     # change order to y, z, x
     r1 = rot_mat_cartesian[..., [1, 2, 0], :]
     r1 = r1[..., :, [1, 2, 0]]
-    r_blocks.append(r1)
+    if N_sph > 0:
+        r_blocks.append(r1)
 
     # auxiliary functions
     def _rot_p_func(i, l, a, b, r1, rlm1):
-- 
2.43.0


From 1208b70a6729e473c32e21af5eeb3801acca070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 03/22] fix: sh2bin failed for a single channel or a single tap

---
 spaudiopy/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index db06058..62fff75 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1316,9 +1316,9 @@ def sh2bin(sig_nm, hrirs_nm):
     assert (sig_nm.ndim == 2)
     assert (hrirs_nm.ndim == 3)
     assert (sig_nm.shape[0] == hrirs_nm.shape[1])
-    out_l = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[0, :, :]),
+    out_l = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[0, :, :],
                                      axes=-1), axis=0)
-    out_r = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[1, :, :]),
+    out_r = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[1, :, :],
                                      axes=-1), axis=0)
     return np.vstack((out_l, out_r))
 
-- 
2.43.0


From fe21bb382c3ab5d1c6a4d1bf7141d51901b4fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 04/22] fix: half_sided_Hann used a removed scipy alias

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b93f4c1..53f45c2 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -576,7 +576,7 @@ def energy_decay(p):
 def half_sided_Hann(N):
     """Design half-sided Hann tapering window of order N (>=3)."""
     assert (N >= 3)
-    w_full = signal.hann(2 * ((N + 1) // 2) + 1)
+    w_full = signal.windows.hann(2 * ((N + 1) // 2) + 1)
     # get half sided window
     w_taper = np.ones(N + 1)
     w_taper[-((N - 1) // 2):] = w_full[-((N + 1) // 2):-1]
-- 
2.43.0


From 8fea1d4b3b8b3572b697d2259bdec4b2d271bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 05/22] fix: pulsed_noise pause duration, odd lengths and zero
 fade

---
 spaudiopy/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 53f45c2..78bc5cc 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -655,9 +655,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             nbins = len(X)
             # divide by sqrt(n), power spectrum
             X_pink = X / np.sqrt(np.arange(nbins)+1)
-            s_noise = np.fft.irfft(X_pink)
+            s_noise = np.fft.irfft(X_pink, n=len(s_noise))
 
-        s_pause = np.zeros(int(fs*t_noise))
+        s_pause = np.zeros(int(fs*t_pause))
 
         # fades
         mask_n = int(fs*t_fade)
@@ -666,7 +666,7 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
 
         # apply
         s_noise[:mask_n] *= mask_in
-        s_noise[-mask_n:] *= mask_out
+        s_noise[len(s_noise) - mask_n:] *= mask_out
 
         s_out = np.r_[s_out, s_noise, s_pause]
 
-- 
2.43.0


From 452987b95af2fa9551dd7fd4b890978da005c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/22] fix: save_audio did not check fs against the signal's
 fs

---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 21af373..2950eba 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -84,7 +84,7 @@ def save_audio(signal, filename, fs=None, subtype='FLOAT'):
     subtype : optional
 
     """
-    if isinstance(sig, sig.MonoSignal):
+    if isinstance(signal, sig.MonoSignal):
         if fs is not None:
             assert (signal.fs == fs)
 
-- 
2.43.0


From 223d1d62efc20dfe1d0b5bcb3229d2f3709484ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 07/22] fix: LoudspeakerSetup modified the caller's coordinate
 arrays

---
 spaudiopy/decoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 62fff75..2595579 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -65,11 +65,12 @@ class LoudspeakerSetup:
         self.listener_position = utils.asarray_1d(listener_position)
 
         # Listener position as origin
-        self.x -= listener_position[0]
-        self.y -= listener_position[1]
-        self.z -= listener_position[2]
+        self.x = self.x - listener_position[0]
+        self.y = self.y - listener_position[1]
+        self.z = self.z - listener_position[2]
         # TODO: Better handling of this, e.g. not effective when updating hull:
-        self.listener_position -= self.listener_position
+        self.listener_position = (self.listener_position
+                                  - self.listener_position)
         _, _, self.d = utils.cart2sph(self.x, self.y, self.z)
 
         # amplitude decay exponent
-- 
2.43.0


From c16db996efffa58facfe1eed6f3a622abc5e8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 08/22] fix: vbap used stale inverse bases after the valid
 simplices or points changed

---
 spaudiopy/decoder.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 2595579..80f2349 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -98,9 +98,6 @@ class LoudspeakerSetup:
                                                         self.listener_position)
         self.valid_simplices = self._encloses_listener
 
-        # VBAP
-        self.inverted_vbase = None  # populated by VBAP
-
         # see 'ambisonics_setup()'
         self.ambisonics_hull = []
         self.kernel_hull = []
@@ -606,11 +603,8 @@ def vbap(src, hull, norm=2, valid_simplices=None, retain_outside=False,
         valid_simplices = hull.valid_simplices
 
     # inverted LS vector base
-    if hull.inverted_vbase is None:
-        inverted_vbase = _invert_triplets(valid_simplices, hull.points)
-        hull.inverted_vbase = inverted_vbase
-    else:
-        inverted_vbase = hull.inverted_vbase
+    # depends on the simplices and points given, must not outlive them
+    inverted_vbase = _invert_triplets(valid_simplices, hull.points)
 
     src = np.atleast_2d(src)
     assert (src.shape[1] == 3)
-- 
2.43.0


From 0229ae207d360e4150fc8d92be042addc371f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 09/22] fix: separate_cov without sources returned a negative
 signal part

---
 spaudiopy/parsa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a165f99..175fbb1 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -198,10 +198,11 @@ def separate_cov(cov_x, num_cut=None):
         num_cut = estimate_num_sources([], w=w)
 
     w_nn = 1. * w
-    w_r = w[-(num_cut+1)]
-    w_nn[-num_cut:] = w_r
+    idx_cut = len(w) - num_cut
+    w_r = w[idx_cut-1]
+    w_nn[idx_cut:] = w_r
     S_nn = v @ np.diag(w_nn) @ v.T
-    S_pp = v[:, -num_cut:] @ (np.diag(w[-num_cut:] - w_r)) @ v[:, -num_cut:].T
+    S_pp = v[:, idx_cut:] @ (np.diag(w[idx_cut:] - w_r)) @ v[:, idx_cut:].T
     return S_pp, S_nn
 
 
-- 
2.43.0


From fa9bc1eddc10d23bd94cf16b67a553b633705d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 10/22] fix: sh_music without sources ignored the noise
 subspace

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 175fbb1..ff75008 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -244,7 +244,7 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     dirs_zen = utils.asarray_1d(dirs_zen)
     Y = sph.sh_matrix(N_sph, dirs_azi, dirs_zen, sh_type='real')
     _, v = np.linalg.eigh(cov_x)
-    Qn = v[:, :-num_src]
+    Qn = v[:, :v.shape[1]-num_src]
     a = (Qn.T @ Y.T)
     P_music = 1 / (np.sum(a * a, 0) + 10e-12)
     return P_music
-- 
2.43.0


From 21334d6c1d718762ff1cc4748932598ae93830eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/22] fix: magls_bin lost a tap for odd lengths and failed
 for short responses

---
 spaudiopy/decoder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 80f2349..9135477 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1452,14 +1452,15 @@ def magls_bin(hrirs, N_sph, f_trans=None, hf_cont='avg', hf_delay=(0, 0)):
         hrtfs_mls_nm[1, :, k] = Y_pinv @ (np.abs(hrtfs_r[:, k]) *
                                           np.exp(1j*phi_r_mod[:, k]))
 
-    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm)
+    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm, n=nfft)
     hrirs_mls_nm = hrirs_mls_nm[..., :numSmpls]
 
     # taper last samples
-    taper_taps = 32
+    taper_taps = min(32, numSmpls)
     hrirs_mls_nm[:, :, -taper_taps:] *= np.hanning(2*taper_taps)[taper_taps:]
     # taper first ?
-    hrirs_mls_nm[:, :, :4] *= np.hanning(8)[:4]
+    fade_taps = min(4, numSmpls)
+    hrirs_mls_nm[:, :, :fade_taps] *= np.hanning(2*fade_taps)[:fade_taps]
     return hrirs_mls_nm
 
 
-- 
2.43.0


From b3e79e7f03ad70eab10e5c43ee18165d6193a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 12/22] fix: sh_mult dropped imaginary parts and failed for
 order 0

---
 spaudiopy/sph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index fd3e21c..6f673ec 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -1284,14 +1284,14 @@ def sh_mult(a_nm, b_nm, sh_type):
                                              'real'))
 
     """
-    a_nm = utils.asarray_1d(np.asarray(a_nm, dtype=float))
-    b_nm = utils.asarray_1d(np.asarray(b_nm, dtype=float))
+    a_nm = utils.asarray_1d(a_nm)
+    b_nm = utils.asarray_1d(b_nm)
     N1 = int(np.sqrt(len(a_nm)) - 1)
     N2 = int(np.sqrt(len(b_nm)) - 1)
     N_out = N1 + N2
 
     # get discretization points
-    v = grids.load_t_design(2*N_out)
+    v = grids.load_t_design(max(2*N_out, 1))
     v_dirs = utils.vec2dir(v)
 
     c_nm = sht(inverse_sht(a_nm, v_dirs[:, 0], v_dirs[:, 1], sh_type=sh_type) *
-- 
2.43.0


From 5b031a6a6e86cf83415e7457a1c2c794f4c87f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 13/22] fix: AmbiBSignal W, X, Y, Z went stale when the
 channels changed

---
 spaudiopy/sig.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index d33229d..7a449a3 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -219,10 +219,38 @@ class AmbiBSignal(MultiSignal):
     def __init__(self, signals, fs=None):
         MultiSignal.__init__(self, signals, fs=fs)
         assert self.channel_count == 4, "Provide four channels!"
-        self.W = utils.asarray_1d(self.channels[0].signal)
-        self.X = utils.asarray_1d(self.channels[1].signal)
-        self.Y = utils.asarray_1d(self.channels[2].signal)
-        self.Z = utils.asarray_1d(self.channels[3].signal)
+
+    @property
+    def W(self):
+        return self.channels[0].signal
+
+    @W.setter
+    def W(self, value):
+        self.channels[0].signal = value
+
+    @property
+    def X(self):
+        return self.channels[1].signal
+
+    @X.setter
+    def X(self, value):
+        self.channels[1].signal = value
+
+    @property
+    def Y(self):
+        return self.channels[2].signal
+
+    @Y.setter
+    def Y(self, value):
+        self.channels[2].signal = value
+
+    @property
+    def Z(self):
+        return self.channels[3].signal
+
+    @Z.setter
+    def Z(self, value):
+        self.channels[3].signal = value
 
     @classmethod
     def from_file(cls, filename, fs=None):
-- 
2.43.0


From fec3c6f2fd4770c5580e4d78885f9899b8b33a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 14/22] fix: frac_octave_filterbank failed if the last
 transition exceeds Nyquist

---
 spaudiopy/process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 78bc5cc..40d569c 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -519,6 +519,11 @@ def frac_octave_filterbank(n, N_out, fs, f_low, f_high=None, mode='energy',
         a = np.sin(np.pi / 2 * phi)
         b = np.cos(np.pi / 2 * phi)
 
+        # last transition may exceed the frequency axis
+        num_bins = len(freq) - (k_i[b_idx] - P[b_idx])
+        a = a[:num_bins]
+        b = b[:num_bins]
+
         # Hi
         g[b_idx, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = b
         g[b_idx, k_i[b_idx] + P[b_idx]:] = 0.
-- 
2.43.0


From 3e78c9bb00f4d8a57df8ea00504b800da06ba6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 15/22] fix: sh_rms_map modified its clim argument and default

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8b861da..592a907 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -507,7 +507,7 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
     ax.set_aspect('equal')
 
     if clim[0] is None:
-        clim[0]=0 if not TODB else None
+        clim = (0 if not TODB else None, clim[1])
     p = ax.tricontourf(azi_plot, zen_plot, rms_d, levels=100,
                        vmin=clim[0], vmax=clim[1])
     ax.grid(True)
-- 
2.43.0


From 86b80fb1785378e44c5d26925fabab6966094f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 16/22] fix: allrap2 energy normalization used wrong order
 weights

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 9135477..5e99573 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -883,7 +883,7 @@ def allrap2(src, hull, N_sph=None, jobs_count=1):
     a_n = sph.max_rE_weights(N_sph)
     a_n = sph.unity_gain(a_n)
     # sqrt(E) normalization (eq.6)
-    a_w = np.sqrt(np.sum((2 * (np.arange(N_sph + 1) + 1)) / (4 * np.pi) *
+    a_w = np.sqrt(np.sum((2 * np.arange(N_sph + 1) + 1) / (4 * np.pi) *
                          a_n**2))
     a_n /= a_w
     a_nm = sph.repeat_per_order(a_n)
-- 
2.43.0


From 34a4b9e008fd9a210a6788c961d037c60d58de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:54 +0000
Subject: [PATCH 17/22] fix: layout gains were misaligned by imaginary
 loudspeakers

---
 spaudiopy/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 2950eba..9bf5946 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -547,7 +547,7 @@ def load_layout(filename, listener_position=None, N_kernel=50):
 
     ls_layout = decoder.LoudspeakerSetup(ls_x, ls_y, ls_z,
                                          listener_position=listener_position)
-    ls_layout.ls_gains = ls_gains
+    ls_layout.ls_gains = ls_gains[~isImaginary]
     # then add imaginary loudspeakers to ambisonics setup
     imag_x, imag_y, imag_z = utils.sph2cart(utils.deg2rad(azi[isImaginary]),
                                             utils.deg2rad(90-ele[isImaginary]),
@@ -586,7 +586,7 @@ def save_layout(filename, ls_layout, name='unknown', description='unknown'):
         ls_dict['Channel'] = ls_idx + 1
         ls_dict['Gain'] = 0. if ls_idx in np.asarray(
                            ls_layout.ambisonics_hull.imaginary_ls_idx) else \
-                           ls_layout.ls_gains[ls_idx]
+                           float(ls_layout.ls_gains[ls_idx])
         out_data['LoudspeakerLayout']['Loudspeakers'].append(ls_dict)
 
     with open(os.path.expanduser(filename), 'w') as outfile:
-- 
2.43.0


From 7cdd1c3b4a041026e508d4d445b8d98b63964865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 18/22] fix: freq_resp modified the labels passed in

---
 spaudiopy/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 592a907..95bbcc2 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -107,7 +107,8 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
             labels = [None] * len(mag)
         # fake line for extra legend entry
         ax.plot([], [], '*', color='black')
-        labels.append(r"$\frac{%d}{8}$ octave smoothing" % smoothing_n)
+        labels = [*labels,
+                  r"$\frac{%d}{8}$ octave smoothing" % smoothing_n]
     if labels is not None:
         ax.legend(labels)
     
-- 
2.43.0


From e7f3cdb349530aee25f491b483b0c3f8f54bf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 19/22] fix: resampling a single channel MultiSignal split it
 into samples

---
 spaudiopy/sig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index 7a449a3..33eaeac 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -205,6 +205,8 @@ class MultiSignal(MonoSignal):
         else:
             sig_resamp = pcs.resample_signal(self.get_signals(),
                                              self.fs, fs_new, axis=-1)
+            # keep the channels, also for single ones
+            sig_resamp = np.reshape(sig_resamp, (self.num_channels, -1))
             self.__init__([*sig_resamp], fs_new)
 
     def play(self, gain=1, wait=True):
-- 
2.43.0


From 3969af5194aba4ee622dfab0b38b44ebc713f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 20/22] fix: apply_blacklist failed without blacklist

---
 spaudiopy/decoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 5e99573..9cd383d 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -453,7 +453,9 @@ def check_opening(hull, opening_limit=135):
 
 def apply_blacklist(hull, blacklist=None):
     """Specify a blacklist to exclude simplices from valid simplices."""
-    if blacklist is not None:
+    if blacklist is None:
+        valid_simplices = hull.valid_simplices
+    else:
         valid_simplices = []
         for face in hull.valid_simplices:
             if not all(elem in face for elem in blacklist):
-- 
2.43.0


From 1212b0ba95ce4d98b061c1198b9c0fe2ee333c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 21/22] fix: spherical_function_map wrapped the azimuths of the
 caller in place

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 95bbcc2..8e1f4c2 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -549,7 +549,7 @@ def spherical_function_map(f, azi, zen, TODB=False, title=None,
     f = utils.asarray_1d(np.real_if_close(f))
     azi = utils.asarray_1d(azi)
     zen = utils.asarray_1d(zen)
-    azi[azi > np.pi] = azi[azi > np.pi] - 2*np.pi
+    azi = np.where(azi > np.pi, azi - 2*np.pi, azi)
 
     if TODB:
         f = utils.db(f)
-- 
2.43.0


From c60b19ef31729cbd16035ebeaf6de7cbb971da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 22/22] fix: doa plot wrapped the azimuths of the caller in
 place

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8e1f4c2..df40e9f 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -1034,7 +1034,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
     ax.set_aspect('equal')
 
     # shift azi to [np.pi, np.pi]
-    azi[azi > np.pi] = azi[azi > np.pi] % -np.pi
+    azi = np.where(azi > np.pi, azi % -np.pi, azi)
 
     if p is not None:
         s_plot = np.clip(p / np.max(p), 10e-15, None)
-- 
2.43.0

