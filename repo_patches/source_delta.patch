From f1d54280ba1ca04d36373eeb61b8e3ca7966da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 01/42] fix: SH rotation matrix of order 0

The first order block was appended unconditionally, so N_sph=0 could not be
composed (ValueError) and returned two blocks.
---
 spaudiopy/sph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 0a567d9..edaa9a2 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -274,7 +274,8 @@ def sh_rotation_matrix(N_sph, yaw, pitch, roll, sh_type='real',
     # change order to y, z, x
     r1 = rot_mat_cartesian[..., [1, 2, 0], :]
     r1 = r1[..., :, [1, 2, 0]]
-    r_blocks.append(r1)
+    if N_sph >= 1:
+        r_blocks.append(r1)
 
     # auxiliary functions
     def _rot_p_func(i, l, a, b, r1, rlm1):
-- 
2.43.0


From ac5acd95be18d471469527582880595e96b70a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/42] fix: rotation_rodrigues ignored negative angles

Any negative theta returned the identity.
---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 3436d49..9772d81 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -122,7 +122,7 @@ def rotation_rodrigues(k, theta):
     See https://mathworld.wolfram.com/RodriguesRotationFormula.html
     """
     assert (len(k) == 3)
-    if theta > 10e-10:
+    if np.abs(theta) > 10e-10:
         k = k / np.linalg.norm(k)
         K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
         R = np.eye(3) + np.sin(theta)*K + (1-np.cos(theta)) * K@K
-- 
2.43.0


From c4e43396f452532124bf84581b59179192c69580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 03/42] fix: half_sided_Hann uses scipy.signal.windows

signal.hann is not available, every call raised AttributeError.
---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index b93f4c1..53f45c2 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -576,7 +576,7 @@ def energy_decay(p):
 def half_sided_Hann(N):
     """Design half-sided Hann tapering window of order N (>=3)."""
     assert (N >= 3)
-    w_full = signal.hann(2 * ((N + 1) // 2) + 1)
+    w_full = signal.windows.hann(2 * ((N + 1) // 2) + 1)
     # get half sided window
     w_taper = np.ones(N + 1)
     w_taper[-((N - 1) // 2):] = w_full[-((N + 1) // 2):-1]
-- 
2.43.0


From b8837473a70e408d58a2c354dc275b34ee344544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 04/42] fix: sh_mult dropped the imaginary part, failed for two
 order 0 inputs

Coefficients were cast to float, and a t-design of degree 0 was requested.
---
 spaudiopy/sph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index edaa9a2..573f5fe 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -1284,14 +1284,14 @@ def sh_mult(a_nm, b_nm, sh_type):
                                              'real'))
 
     """
-    a_nm = utils.asarray_1d(np.asarray(a_nm, dtype=float))
-    b_nm = utils.asarray_1d(np.asarray(b_nm, dtype=float))
+    a_nm = utils.asarray_1d(a_nm)
+    b_nm = utils.asarray_1d(b_nm)
     N1 = int(np.sqrt(len(a_nm)) - 1)
     N2 = int(np.sqrt(len(b_nm)) - 1)
     N_out = N1 + N2
 
     # get discretization points
-    v = grids.load_t_design(2*N_out)
+    v = grids.load_t_design(max(2*N_out, 1))
     v_dirs = utils.vec2dir(v)
 
     c_nm = sht(inverse_sht(a_nm, v_dirs[:, 0], v_dirs[:, 1], sh_type=sh_type) *
-- 
2.43.0


From fffac0bfe2dd63734dca9da2e52f3d9c6bce4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 05/42] fix: LoudspeakerSetup altered the arrays passed by the
 caller

The listener offset was subtracted in place from x, y, z (failing for
integer coordinates) and the caller's listener_position was zeroed, so that
building a second setup from the same arrays gave another layout.
---
 spaudiopy/decoder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index db06058..eb8fc5e 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -57,12 +57,13 @@ class LoudspeakerSetup:
             Offset, will be substracted from the loudspeaker positions.
 
         """
-        self.x = utils.asarray_1d(x)
-        self.y = utils.asarray_1d(y)
-        self.z = utils.asarray_1d(z)
+        # (Copies, do not alter the arrays of the caller)
+        self.x = np.array(utils.asarray_1d(x), dtype=float)
+        self.y = np.array(utils.asarray_1d(y), dtype=float)
+        self.z = np.array(utils.asarray_1d(z), dtype=float)
         if listener_position is None:
             listener_position = [0, 0, 0]
-        self.listener_position = utils.asarray_1d(listener_position)
+        self.listener_position = np.array(utils.asarray_1d(listener_position))
 
         # Listener position as origin
         self.x -= listener_position[0]
-- 
2.43.0


From 3192f3c36647fb9a6565cc7e2facef69e2c73c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 06/42] fix: vbap reused the inverted base of other simplices

The base inverted by the first call was used for all later ones, also after
pop_triangles(), for other valid_simplices, or for projected points, where
gains were then assigned to the wrong loudspeakers.
---
 spaudiopy/decoder.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index eb8fc5e..7c0b919 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -606,11 +606,8 @@ def vbap(src, hull, norm=2, valid_simplices=None, retain_outside=False,
         valid_simplices = hull.valid_simplices
 
     # inverted LS vector base
-    if hull.inverted_vbase is None:
-        inverted_vbase = _invert_triplets(valid_simplices, hull.points)
-        hull.inverted_vbase = inverted_vbase
-    else:
-        inverted_vbase = hull.inverted_vbase
+    inverted_vbase = _invert_triplets(valid_simplices, hull.points)
+    hull.inverted_vbase = inverted_vbase
 
     src = np.atleast_2d(src)
     assert (src.shape[1] == 3)
-- 
2.43.0


From 0244a8ba63e59db5c4ede84f8ae0fb48f854de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 07/42] fix: W, X, Y, Z of AmbiBSignal went out of step with
 its channels

They kept the signals of the constructor after trim(), conv() and apply(),
and setting them (e.g. the filters in ambeo_a2b) did not reach the channels.
---
 spaudiopy/sig.py | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index d33229d..7a449a3 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -219,10 +219,38 @@ class AmbiBSignal(MultiSignal):
     def __init__(self, signals, fs=None):
         MultiSignal.__init__(self, signals, fs=fs)
         assert self.channel_count == 4, "Provide four channels!"
-        self.W = utils.asarray_1d(self.channels[0].signal)
-        self.X = utils.asarray_1d(self.channels[1].signal)
-        self.Y = utils.asarray_1d(self.channels[2].signal)
-        self.Z = utils.asarray_1d(self.channels[3].signal)
+
+    @property
+    def W(self):
+        return self.channels[0].signal
+
+    @W.setter
+    def W(self, value):
+        self.channels[0].signal = value
+
+    @property
+    def X(self):
+        return self.channels[1].signal
+
+    @X.setter
+    def X(self, value):
+        self.channels[1].signal = value
+
+    @property
+    def Y(self):
+        return self.channels[2].signal
+
+    @Y.setter
+    def Y(self, value):
+        self.channels[2].signal = value
+
+    @property
+    def Z(self):
+        return self.channels[3].signal
+
+    @Z.setter
+    def Z(self, value):
+        self.channels[3].signal = value
 
     @classmethod
     def from_file(cls, filename, fs=None):
-- 
2.43.0


From 300c6678db277344586ed367dd19b84e143a5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 08/42] fix: save_audio did not check fs against the signal

The check tested the module instead of the signal, a conflicting fs was
silently ignored.
---
 spaudiopy/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 21af373..2950eba 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -84,7 +84,7 @@ def save_audio(signal, filename, fs=None, subtype='FLOAT'):
     subtype : optional
 
     """
-    if isinstance(sig, sig.MonoSignal):
+    if isinstance(signal, sig.MonoSignal):
         if fs is not None:
             assert (signal.fs == fs)
 
-- 
2.43.0


From 08e1f4baf0a604029c2c6a04a9567316de0c5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 09/42] fix: pulsed_noise pause and pulse length

The pause lasted t_noise instead of t_pause, pink pulses lost a sample when
their length was odd.
---
 spaudiopy/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 53f45c2..4dc7ff3 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -655,9 +655,9 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
             nbins = len(X)
             # divide by sqrt(n), power spectrum
             X_pink = X / np.sqrt(np.arange(nbins)+1)
-            s_noise = np.fft.irfft(X_pink)
+            s_noise = np.fft.irfft(X_pink, n=len(s_noise))
 
-        s_pause = np.zeros(int(fs*t_noise))
+        s_pause = np.zeros(int(fs*t_pause))
 
         # fades
         mask_n = int(fs*t_fade)
-- 
2.43.0


From 12200c793e66a298901825f85ffd1ac639771248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 10/42] fix: separate_cov and sh_music without sources

A slice [-0:] selects everything: with no source the signal covariance was
negative instead of zero, and the noise subspace of MUSIC empty. Also
reconstruct Hermitian covariances with the conjugate transpose.
---
 spaudiopy/parsa.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a165f99..114a509 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -199,9 +199,11 @@ def separate_cov(cov_x, num_cut=None):
 
     w_nn = 1. * w
     w_r = w[-(num_cut+1)]
-    w_nn[-num_cut:] = w_r
-    S_nn = v @ np.diag(w_nn) @ v.T
-    S_pp = v[:, -num_cut:] @ (np.diag(w[-num_cut:] - w_r)) @ v[:, -num_cut:].T
+    idx_cut = len(w) - num_cut
+    w_nn[idx_cut:] = w_r
+    v_pp = v[:, idx_cut:]
+    S_nn = v @ np.diag(w_nn) @ v.conj().T
+    S_pp = v_pp @ (np.diag(w[idx_cut:] - w_r)) @ v_pp.conj().T
     return S_pp, S_nn
 
 
@@ -243,7 +245,7 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     dirs_zen = utils.asarray_1d(dirs_zen)
     Y = sph.sh_matrix(N_sph, dirs_azi, dirs_zen, sh_type='real')
     _, v = np.linalg.eigh(cov_x)
-    Qn = v[:, :-num_src]
+    Qn = v[:, :len(v)-num_src]
     a = (Qn.T @ Y.T)
     P_music = 1 / (np.sum(a * a, 0) + 10e-12)
     return P_music
-- 
2.43.0


From a2b64e2c58834ff2fd190c0f0eb6b871e6df0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 11/42] fix: compare_ambi accessed a missing attribute

Every call raised AttributeError.
---
 spaudiopy/plot.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 8b861da..9e99fea 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -183,17 +183,17 @@ def compare_ambi(Ambi_A, Ambi_B):
 
     plt.figure()
     plt.subplot(2, 1, 1)
-    plt.plot(t, Ambi_A.channel[0].signal,
-             t, Ambi_A.channel[1].signal,
-             t, Ambi_A.channel[2].signal,
-             t, Ambi_A.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_A.channels[0].signal,
+             t, Ambi_A.channels[1].signal,
+             t, Ambi_A.channels[2].signal,
+             t, Ambi_A.channels[3].signal, alpha=0.3)
     plt.legend(['Channel 1', 'Channel 2', 'Channel 3', 'Channel 4'])
     plt.title('A-format')
     plt.subplot(2, 1, 2)
-    plt.plot(t, Ambi_B.channel[0].signal,
-             t, Ambi_B.channel[1].signal,
-             t, Ambi_B.channel[2].signal,
-             t, Ambi_B.channel[3].signal, alpha=0.3)
+    plt.plot(t, Ambi_B.channels[0].signal,
+             t, Ambi_B.channels[1].signal,
+             t, Ambi_B.channels[2].signal,
+             t, Ambi_B.channels[3].signal, alpha=0.3)
     plt.legend(['Channel W', 'Channel X', 'Channel Y', 'Channel Z'])
     plt.xlabel('t in s')
     plt.title('B-format')
-- 
2.43.0


From cd7d6040a35ecd9b02e8a6771de011685f5532d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 12/42] fix: spherical_function_map and doa altered the
 azimuths of the caller

---
 spaudiopy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 9e99fea..a7eaad2 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -548,7 +548,7 @@ def spherical_function_map(f, azi, zen, TODB=False, title=None,
     f = utils.asarray_1d(np.real_if_close(f))
     azi = utils.asarray_1d(azi)
     zen = utils.asarray_1d(zen)
-    azi[azi > np.pi] = azi[azi > np.pi] - 2*np.pi
+    azi = np.where(azi > np.pi, azi - 2*np.pi, azi)
 
     if TODB:
         f = utils.db(f)
@@ -1033,7 +1033,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
     ax.set_aspect('equal')
 
     # shift azi to [np.pi, np.pi]
-    azi[azi > np.pi] = azi[azi > np.pi] % -np.pi
+    azi = np.where(azi > np.pi, azi % -np.pi, azi)
 
     if p is not None:
         s_plot = np.clip(p / np.max(p), 10e-15, None)
-- 
2.43.0


From 42701a4718c84ab54dde56601b7d398c4ed0c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 13/42] fix: sh_rms_map kept its lower color limit for later
 calls

The mutable default was written to, a linear plot set the limit of all
following plots, also in dB.
---
 spaudiopy/plot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index a7eaad2..da3b535 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -445,7 +445,7 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
 
 
 def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
-               clim=[None, None], ax=None):
+               clim=(None, None), ax=None):
     """Plot spherical harmonic signal RMS as function on the sphere.
     Evaluates the maxDI beamformer, if w_n is None.
 
@@ -506,10 +506,11 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
         fig = ax.get_figure()
     ax.set_aspect('equal')
 
-    if clim[0] is None:
-        clim[0]=0 if not TODB else None
+    vmin, vmax = clim
+    if vmin is None:
+        vmin = 0 if not TODB else None
     p = ax.tricontourf(azi_plot, zen_plot, rms_d, levels=100,
-                       vmin=clim[0], vmax=clim[1])
+                       vmin=vmin, vmax=vmax)
     ax.grid(True)
 
     ax.invert_xaxis()
-- 
2.43.0


From 520e4ab8d74e07e8154ec3e5de530dd3a83ff0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 14/42] fix: sh_rms_map ignored the end of long signals

Samples after the last full block of 2**16 did not contribute.
---
 spaudiopy/plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index da3b535..c558c4d 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -485,13 +485,13 @@ def sh_rms_map(F_nm, TODB=False, w_n=None, sh_type=None, n_plot=50, title=None,
 
     mem_block = 2**16
     if F_nm.shape[1] > mem_block:
-        rms_d_list = []
+        sq_sum = np.zeros(len(Y_smp))
         start_idx = 0
-        while start_idx + mem_block <= F_nm.shape[1]:
+        while start_idx < F_nm.shape[1]:
             f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm[:, start_idx:start_idx+mem_block]
-            rms_d_list.append(np.abs(utils.rms(f_d, axis=1)))
+            sq_sum += np.sum(np.abs(f_d)**2, axis=1)
             start_idx += mem_block
-        rms_d = np.sqrt(np.square(np.array(rms_d_list)).mean(axis=0))
+        rms_d = np.sqrt(sq_sum / F_nm.shape[1])
     else:
         f_d = Y_smp @ np.diag(sph.repeat_per_order(w_n)) @ F_nm
         rms_d = np.abs(utils.rms(f_d, axis=1))
-- 
2.43.0


From 556cf3c95c5351ecaeec4d26cd2e212fc3e3ff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 15/42] fix: transfer_function clipped the complex spectrum

All bins with a negative real part were replaced, limit the magnitude only.
---
 spaudiopy/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index c558c4d..e1ce8b8 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -128,8 +128,8 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
 def transfer_function(freq, H, title=None, xlim=(10, 25000)):
     """Plot transfer function H (magnitude and phase) over time frequency f."""
     fig, ax1 = plt.subplots()
-    H = np.clip(H, 10e-15, None)
-    ax1.semilogx(freq, utils.db(H),
+    H = np.asarray(H)
+    ax1.semilogx(freq, utils.db(np.clip(np.abs(H), 10e-15, None)),
                  color=plt.rcParams['axes.prop_cycle'].by_key()['color'][0],
                  label='Magnitude')
     ax1.set_xlabel('Frequency in Hz')
-- 
2.43.0


From 25bf876ea9b1dd96f52532759baaf3c34598b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 16/42] fix: freq_resp appended to the labels of the caller

---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index e1ce8b8..6a7c86a 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -84,6 +84,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
     if labels is not None:
         if not isinstance(labels, (list, tuple)):
             labels = [labels]
+        labels = list(labels)  # copy
 
     assert (all(len(a) == len(freq) for a in mag))
 
-- 
2.43.0


From 6f0326c7c6516d1177cbc123c3cfcf9028d59d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 17/42] fix: load_layout gains belong to the real loudspeakers

With an imaginary loudspeaker listed before a real one the gains were shifted
against the loudspeakers, and save_layout wrote them so. Integer gains could
not be saved.
---
 spaudiopy/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 2950eba..9bf5946 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -547,7 +547,7 @@ def load_layout(filename, listener_position=None, N_kernel=50):
 
     ls_layout = decoder.LoudspeakerSetup(ls_x, ls_y, ls_z,
                                          listener_position=listener_position)
-    ls_layout.ls_gains = ls_gains
+    ls_layout.ls_gains = ls_gains[~isImaginary]
     # then add imaginary loudspeakers to ambisonics setup
     imag_x, imag_y, imag_z = utils.sph2cart(utils.deg2rad(azi[isImaginary]),
                                             utils.deg2rad(90-ele[isImaginary]),
@@ -586,7 +586,7 @@ def save_layout(filename, ls_layout, name='unknown', description='unknown'):
         ls_dict['Channel'] = ls_idx + 1
         ls_dict['Gain'] = 0. if ls_idx in np.asarray(
                            ls_layout.ambisonics_hull.imaginary_ls_idx) else \
-                           ls_layout.ls_gains[ls_idx]
+                           float(ls_layout.ls_gains[ls_idx])
         out_data['LoudspeakerLayout']['Loudspeakers'].append(ls_dict)
 
     with open(os.path.expanduser(filename), 'w') as outfile:
-- 
2.43.0


From 4c41c51249ca9dd8397d025c90d65581dfa59a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 18/42] fix: ALLRAP2 energy normalization

The modal energy is sum (2n+1)/(4 pi) a_n^2 (eq. 6), the misplaced parenthesis
used 2(n+1), so that the panning energy was not unity.
---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 7c0b919..43cd4ea 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -886,7 +886,7 @@ def allrap2(src, hull, N_sph=None, jobs_count=1):
     a_n = sph.max_rE_weights(N_sph)
     a_n = sph.unity_gain(a_n)
     # sqrt(E) normalization (eq.6)
-    a_w = np.sqrt(np.sum((2 * (np.arange(N_sph + 1) + 1)) / (4 * np.pi) *
+    a_w = np.sqrt(np.sum((2 * np.arange(N_sph + 1) + 1) / (4 * np.pi) *
                          a_n**2))
     a_n /= a_w
     a_nm = sph.repeat_per_order(a_n)
-- 
2.43.0


From 6e979b389d72c90959fda18f0b8b6078a830463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 19/42] fix: pressure_on_sphere for integer kr

---
 spaudiopy/sph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sph.py b/spaudiopy/sph.py
index 573f5fe..1d004ed 100644
--- a/spaudiopy/sph.py
+++ b/spaudiopy/sph.py
@@ -874,7 +874,7 @@ def pressure_on_sphere(N_sph, kr, weights=None):
     spherical harmonics. The Journal of the Acoustical Society of America,
     eq. (11).
     """
-    p_N = np.zeros_like(kr)
+    p_N = np.zeros_like(kr, dtype=float)
     if weights is None:
         weights = np.ones(N_sph + 1)
     for n in range(N_sph + 1):
-- 
2.43.0


From a1ae36635b7b498d86c872d10fa9143ae19bb203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 20/42] fix: ambisonics_setup with N_kernel=None

warn() raised TypeError.
---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 43cd4ea..abfa356 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -202,7 +202,7 @@ class LoudspeakerSetup:
             self.characteristic_order = characteristic_order
 
         if N_kernel is None:
-            warn('Setting setup kernel order =', self.characteristic_order)
+            warn(f'Setting setup kernel order = {self.characteristic_order}')
             N_kernel = self.characteristic_order
         if (not update_hull and imaginary_ls is not None):
             warn('Not updating hull but imaginary_ls position given.')
-- 
2.43.0


From 801c03cd8f8b63f7175782ea70aaea9fe36b2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 21/42] fix: energy_decay starts at 0 dB

The total energy was integrated by another rule than the decay, e.g. +3 dB for
a direct sound at the first sample.
---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 4dc7ff3..6543d79 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -568,7 +568,7 @@ def energy_decay(p):
     -------
     rd : array_like
     """
-    a = np.trapz(p**2)
+    a = np.sum(p**2)
     b = np.cumsum(p[::-1]**2)[::-1]
     return 10 * np.log10(b / a)
 
-- 
2.43.0


From d0722e76fdf1bbc835d9cc777408914e3182299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 22/42] fix: resample of a MultiSignal with a single channel

Each sample ended up as a channel.
---
 spaudiopy/sig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/sig.py b/spaudiopy/sig.py
index 7a449a3..faff058 100644
--- a/spaudiopy/sig.py
+++ b/spaudiopy/sig.py
@@ -205,7 +205,7 @@ class MultiSignal(MonoSignal):
         else:
             sig_resamp = pcs.resample_signal(self.get_signals(),
                                              self.fs, fs_new, axis=-1)
-            self.__init__([*sig_resamp], fs_new)
+            self.__init__([*np.atleast_2d(sig_resamp)], fs_new)
 
     def play(self, gain=1, wait=True):
         """Play sound signal. Adjust gain and wait until finished."""
-- 
2.43.0


From e7884eabdcabaf987d09552a10327c148c5472fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 23/42] fix: sh2bin for order 0 or single tap filters

Squeezing removed the SH or the time axis, and the convolution failed.
---
 spaudiopy/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index abfa356..9d7f8d0 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1314,9 +1314,9 @@ def sh2bin(sig_nm, hrirs_nm):
     assert (sig_nm.ndim == 2)
     assert (hrirs_nm.ndim == 3)
     assert (sig_nm.shape[0] == hrirs_nm.shape[1])
-    out_l = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[0, :, :]),
+    out_l = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[0, :, :],
                                      axes=-1), axis=0)
-    out_r = np.sum(signal.oaconvolve(sig_nm, np.squeeze(hrirs_nm[1, :, :]),
+    out_r = np.sum(signal.oaconvolve(sig_nm, hrirs_nm[1, :, :],
                                      axes=-1), axis=0)
     return np.vstack((out_l, out_r))
 
-- 
2.43.0


From 3d7948a799723ff48e89f0bd31c9ddc649800801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 24/42] fix: frac_octave_smoothing truncated integer spectra

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 6543d79..0cd46e8 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -384,7 +384,7 @@ def frac_octave_smoothing(a, smoothing_n, WEIGHTED=True):
 
     """
     a = utils.asarray_1d(a)
-    smooth = np.zeros_like(a)
+    smooth = np.zeros(len(a), dtype=np.result_type(a, float))
     num_smpls = len(a)
     for idx in range(num_smpls):
         k_lo = np.floor(idx / (2**(1/(2*smoothing_n))))
-- 
2.43.0


From 6783856321d58fd2096d90e81c9a5775649fe760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 25/42] fix: frac_octave_filterbank with the last crossover
 close to fs/2

The crossover reached beyond the last bin, and the call failed, e.g. for many
default (f_high=None) settings.
---
 spaudiopy/process.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index 0cd46e8..a56a845 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -519,11 +519,14 @@ def frac_octave_filterbank(n, N_out, fs, f_low, f_high=None, mode='energy',
         a = np.sin(np.pi / 2 * phi)
         b = np.cos(np.pi / 2 * phi)
 
+        # Crossover, ends at fs/2
+        k = np.arange(k_i[b_idx] - P[b_idx],
+                      np.min([k_i[b_idx] + P[b_idx] + 1, len(freq)]))
         # Hi
-        g[b_idx, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = b
+        g[b_idx, k] = b[:len(k)]
         g[b_idx, k_i[b_idx] + P[b_idx]:] = 0.
         # Lo
-        g[b_idx + 1, k_i[b_idx] - P[b_idx]: k_i[b_idx] + P[b_idx] + 1] = a
+        g[b_idx + 1, k] = a[:len(k)]
         g[b_idx + 1, : k_i[b_idx] - P[b_idx]] = 0.
 
     if mode in ['energy']:
-- 
2.43.0


From 9eb468fc86757d97005c5977bf69658e2e620110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 26/42] fix: render_bsdm lost updates when processes are
 spawned

With the 'spawn' or 'forkserver' start method every worker created a lock of
its own on import, so that the += on the shared array was not synchronized.
Use the lock of the shared array.
---
 spaudiopy/parsa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 114a509..2e2b061 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -957,8 +957,9 @@ def _create_shared_array(shared_array_shape, d_type='d'):
 
 
 def _init_shared_array(shared_array_base, shared_array_shape):
-    """Make 'shared_array' available to child processes."""
-    global shared_array
+    """Make 'shared_array' and its lock available to child processes."""
+    global shared_array, lock
+    lock = shared_array_base.get_lock()
     shared_array = np.frombuffer(shared_array_base.get_obj())
     shared_array = shared_array.reshape(shared_array_shape)
 # < --Parallel worker stuff
-- 
2.43.0


From e3be98561ac478194805e77809bae44eb6ff8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 27/42] fix: load_layout listener offset also applies to
 imaginary loudspeakers

The real loudspeakers were moved, the imaginary ones were not.
---
 spaudiopy/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/io.py b/spaudiopy/io.py
index 9bf5946..bdcd873 100644
--- a/spaudiopy/io.py
+++ b/spaudiopy/io.py
@@ -553,6 +553,8 @@ def load_layout(filename, listener_position=None, N_kernel=50):
                                             utils.deg2rad(90-ele[isImaginary]),
                                             r[isImaginary])
     imag_pos = np.c_[imag_x, imag_y, imag_z]
+    if listener_position is not None:
+        imag_pos = imag_pos - np.asarray(listener_position)
     ls_layout.ambisonics_setup(N_kernel=N_kernel, update_hull=True,
                                imaginary_ls=imag_pos)
     return ls_layout
-- 
2.43.0


From 564d6ea73040e952b430f1019e965808235629de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 28/42] fix: rotation_vecvec between nearly opposite vectors
 returned the identity

---
 spaudiopy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/utils.py b/spaudiopy/utils.py
index 9772d81..6936b85 100644
--- a/spaudiopy/utils.py
+++ b/spaudiopy/utils.py
@@ -140,7 +140,7 @@ def rotation_vecvec(f, t):
     k = np.cross(f, t)
     if (np.linalg.norm(k) < 10e-15):
         raise ValueError("Can not find rotation axis (axis flip?).")
-    R = rotation_rodrigues(k, np.arccos(np.dot(f, t)))
+    R = rotation_rodrigues(k, np.arccos(np.clip(np.dot(f, t), -1.0, 1.0)))
     return R
 
 
-- 
2.43.0


From cd44cce880fe644c14376e3d6f7ee3f1e34e686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 29/42] fix: sh_music of complex covariance matrices

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 2e2b061..7a573ec 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -247,7 +247,7 @@ def sh_music(cov_x, num_src, dirs_azi, dirs_zen):
     _, v = np.linalg.eigh(cov_x)
     Qn = v[:, :len(v)-num_src]
     a = (Qn.T @ Y.T)
-    P_music = 1 / (np.sum(a * a, 0) + 10e-12)
+    P_music = 1 / (np.sum(np.abs(a)**2, 0) + 10e-12)
     return P_music
 
 
-- 
2.43.0


From 928bd818058b49f92d68a45b51fcb3cbb31a282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 30/42] fix: magls_bin with an odd number of taps above the FFT
 size

---
 spaudiopy/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/decoder.py b/spaudiopy/decoder.py
index 9d7f8d0..a3aa112 100755
--- a/spaudiopy/decoder.py
+++ b/spaudiopy/decoder.py
@@ -1455,7 +1455,7 @@ def magls_bin(hrirs, N_sph, f_trans=None, hf_cont='avg', hf_delay=(0, 0)):
         hrtfs_mls_nm[1, :, k] = Y_pinv @ (np.abs(hrtfs_r[:, k]) *
                                           np.exp(1j*phi_r_mod[:, k]))
 
-    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm)
+    hrirs_mls_nm = np.fft.irfft(hrtfs_mls_nm, n=nfft)
     hrirs_mls_nm = hrirs_mls_nm[..., :numSmpls]
 
     # taper last samples
-- 
2.43.0


From 1333badca0abe4c6bf1c128dbeed2da587242aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:34 +0000
Subject: [PATCH 31/42] fix: pulsed_noise without fade

---
 spaudiopy/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/process.py b/spaudiopy/process.py
index a56a845..8bec734 100644
--- a/spaudiopy/process.py
+++ b/spaudiopy/process.py
@@ -669,7 +669,7 @@ def pulsed_noise(t_noise, t_pause, fs, reps=10, t_fade=0.02, pink_noise=True,
 
         # apply
         s_noise[:mask_n] *= mask_in
-        s_noise[-mask_n:] *= mask_out
+        s_noise[len(s_noise)-mask_n:] *= mask_out
 
         s_out = np.r_[s_out, s_noise, s_pause]
 
-- 
2.43.0


From e8a4525cdbe1f0daca9f8cd20e29de166b45d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:54 +0000
Subject: [PATCH 32/42] fix: sh_coeffs_overlay

cm.get_cmap is not available any more (AttributeError), and the type detected
for the first function was used for all others, too.
---
 spaudiopy/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 6a7c86a..1a53df7 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -395,15 +395,17 @@ def sh_coeffs_overlay(F_nm_list, sh_type=None, azi_steps=5, el_steps=3,
     # c = m.to_rgba(f_ang.reshape(phi_plot.shape))
     # ax.set_prop_cycle('color',
     # plt.cm.Spectral(np.linspace(0,1,len(F_nm_list))))
-    cols = plt.cm.get_cmap('Set1')(np.arange(len(F_nm_list)))
+    cols = plt.get_cmap('Set1')(np.arange(len(F_nm_list)))
 
     for idx, F_nm in enumerate(F_nm_list):
         F_nm = utils.asarray_1d(F_nm)
         F_nm = F_nm[:, np.newaxis]
         if sh_type is None:
-            sh_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
+            f_type = 'complex' if np.iscomplexobj(F_nm) else 'real'
+        else:
+            f_type = sh_type
         f_plot = sph.inverse_sht(F_nm, phi_plot.ravel(), theta_plot.ravel(),
-                                 sh_type)
+                                 f_type)
         f_r = np.abs(f_plot)
         f_ang = np.angle(f_plot)
 
-- 
2.43.0


From 9ee04916b88927948ce5bd596f7733c37239973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 33/42] fix: sh_coeffs_subplot with a single function

subplots() returned the axes itself, which is not iterable.
---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 1a53df7..1daaa70 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -347,6 +347,7 @@ def sh_coeffs_subplot(F_nm_list, titles=None, fig=None, **kwargs):
     axs = kwargs.pop('ax', None)
     if axs is None:
         axs = fig.subplots(1, num_plots, subplot_kw={'projection': '3d'})
+        axs = np.atleast_1d(axs)
     sub_cbar = kwargs.pop('cbar', True)
     plt.suptitle(kwargs.pop('title', None))
 
-- 
2.43.0


From 1bee0bc5edc9e16d009a6d2d165528d7d198f20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 34/42] fix: hull plot colored the wrong triangles

With invalid simplices, the colors of all simplices were assigned to the valid
ones one after the other.
---
 spaudiopy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 1daaa70..a7def45 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -729,6 +729,8 @@ def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
                                                     vmax=clim[1]))
         m.set_array(color)
         colset = m.to_rgba(color)
+        if valid_s is not simplices:
+            colset = colset[is_valid_s]
     else:
         colset = None
 
-- 
2.43.0


From 93b8419f39ba031b9a810fedb4022f505bac7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 35/42] fix: sh_bar ignored the title

---
 spaudiopy/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index a7def45..ab43a46 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -674,6 +674,8 @@ def sh_bar(x_nm, TODB=True, centered=False, num_groups=1, s=250, vf=4,
                       else 'neither')
     cb.set_label("in dB" if TODB else None)
     ax.grid(True)
+    if title is not None:
+        ax.set_title(title)
 
 
 def hull(hull, simplices=None, mark_invalid=True, title=None, draw_ls=True,
-- 
2.43.0


From effc8e90e7a35742f5094d11b899e6964594b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 36/42] fix: polar plot of integers

---
 spaudiopy/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index ab43a46..437394c 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -854,6 +854,7 @@ def polar(theta, r, TODB=True, rlim=None, title=None, ax=None):
         ax = fig.add_subplot(projection='polar')
 
     # Split in pos and neg part and set rest NaN for plots
+    r = np.asarray(r, dtype=float)
     rpos = np.copy(r)
     rpos[r < 0] = np.nan
     rneg = np.copy(r)
-- 
2.43.0


From bed71aa8e543cfb7ddf8936ef278006362c17309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 37/42] fix: doa plot of azimuths beyond 2 pi

They ended up at the opposite side, e.g. 2.2 pi at -0.8 pi.
---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 437394c..6ed7db7 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -1043,7 +1043,7 @@ def doa(azi, zen, p=None, size=250, c=None, alpha=None, fs=None, title=None,
     ax.set_aspect('equal')
 
     # shift azi to [np.pi, np.pi]
-    azi = np.where(azi > np.pi, azi % -np.pi, azi)
+    azi = np.where(azi > np.pi, (azi + np.pi) % (2 * np.pi) - np.pi, azi)
 
     if p is not None:
         s_plot = np.clip(p / np.max(p), 10e-15, None)
-- 
2.43.0


From eaf092914cecaaeeb5856137358dcc132c528173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:11 +0000
Subject: [PATCH 38/42] fix: octave fraction in the legend of freq_resp

---
 spaudiopy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/plot.py b/spaudiopy/plot.py
index 6ed7db7..1ac6d04 100644
--- a/spaudiopy/plot.py
+++ b/spaudiopy/plot.py
@@ -108,7 +108,7 @@ def freq_resp(freq, mag, TODB=True, smoothing_n=None, xlim=(20, 24000),
             labels = [None] * len(mag)
         # fake line for extra legend entry
         ax.plot([], [], '*', color='black')
-        labels.append(r"$\frac{%d}{8}$ octave smoothing" % smoothing_n)
+        labels.append(r"$\frac{1}{%d}$ octave smoothing" % smoothing_n)
     if labels is not None:
         ax.legend(labels)
     
-- 
2.43.0


From df77e04ea7d9915e2a36700ddfdc4fc1a05f5842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 39/42] fix: sdm_post_equalization2 applied other band gains
 than returned

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 7a573ec..aeee5fa 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -912,7 +912,7 @@ def sdm_post_equalization2(ls_sigs, sdm_p, fs, ls_setup,
                                         dirac[band_idx, :])
             # Apply gains
             if not CHECK_SANITY:
-                X = band_gains[:, np.newaxis] * X
+                X = band_gains_smoothed[:, np.newaxis] * X
             else:
                 X = X
 
-- 
2.43.0


From 86b748e6f1c636453d0228802dd27b224240145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 40/42] fix: warning about truncated post equalization looked
 at the first sample instead of the end

---
 spaudiopy/parsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index aeee5fa..a3038fb 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -777,7 +777,7 @@ def sdm_post_equalization(ls_sigs, sdm_p, fs, ls_setup, soft_clip=True):
     out_start_idx = int(2 * padsize)
     out_end_idx = int(-(2 * padsize))
     if np.any(np.abs(ls_sigs_compensated[:, :out_start_idx]) > 10e-5) or \
-            np.any(np.abs(ls_sigs_compensated[:, -out_end_idx]) > 10e-5):
+            np.any(np.abs(ls_sigs_compensated[:, out_end_idx:]) > 10e-5):
         warn('Truncated valid signal, consider more zero padding.')
 
     ls_sigs_compensated = ls_sigs_compensated[:, out_start_idx: out_end_idx]
@@ -940,7 +940,7 @@ def sdm_post_equalization2(ls_sigs, sdm_p, fs, ls_setup,
     out_start_idx = 2 * blocksize
     out_end_idx = -(2 * blocksize)
     if (np.sum(np.abs(ls_sigs_compensated[:, :out_start_idx])) +
-            np.sum(np.abs(ls_sigs_compensated[:, -out_end_idx]))) > 10e-3:
+            np.sum(np.abs(ls_sigs_compensated[:, out_end_idx:]))) > 10e-3:
         warn('Truncated valid signal, consider more zero padding.')
 
     ls_sigs_compensated = ls_sigs_compensated[:, out_start_idx: out_end_idx]
-- 
2.43.0


From d95a2549de39805098ea1952a634ec80834f11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 41/42] fix: sdm_post_equalization failed for sampling rates
 with an even number of taps, e.g. 96 kHz

---
 spaudiopy/parsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index a3038fb..9e8fe2e 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -679,7 +679,7 @@ def sdm_post_equalization(ls_sigs, sdm_p, fs, ls_setup, soft_clip=True):
 
     padsize = band_blocksizes.max()
 
-    ntaps = padsize // 2 - 1
+    ntaps = (padsize // 2 - 1) | 1
     assert (ntaps % 2), "N does not produce uneven number of filter taps."
     irs = np.zeros([filter_gs.shape[0], ntaps])
     for ir_idx, g_b in enumerate(filter_gs):
-- 
2.43.0


From c4c97e648047c2155ec9a6cc01caab046ffe88cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:54 +0000
Subject: [PATCH 42/42] fix: estimate_num_sources reported L-1 sources without
 any eigenvalue step

If no ratio of consecutive eigenvalues exceeds the threshold, argmax() over
an all False array returned 0, i.e. all but one channel were counted as
sources for any spatially white covariance with a variance above the
threshold. No step means no sources.
---
 spaudiopy/parsa.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spaudiopy/parsa.py b/spaudiopy/parsa.py
index 9e8fe2e..0b34879 100644
--- a/spaudiopy/parsa.py
+++ b/spaudiopy/parsa.py
@@ -150,8 +150,11 @@ def estimate_num_sources(cov_x, a=None, w=None):
         num_src_est = 0
     else:
         c = w[1:] / (w[:-1] + 10e-8)
-        cn = np.argmax(c > a)
-        num_src_est = len(w)-1 - cn
+        if np.any(c > a):
+            cn = np.argmax(c > a)
+            num_src_est = len(w)-1 - cn
+        else:  # no step between the eigenvalues
+            num_src_est = 0
     return num_src_est
 
 
-- 
2.43.0

