From 2d7a9f56dc622ae951d395b1328d72ad6c813c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 01/39] fix: Over-T-ISS background update uses the sign of the
 dereverberation filter that the rest of T-ISS uses

The dereverberated target is Y = W X - H Xbar, so E[Y X^H] = W C_XX - H C_XbarX.
The background update added the second term, so that the background was not
orthogonal to the targets as soon as n_taps > 0.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..eeeb3cd 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -202,7 +202,7 @@ def background_update(W, H, C_XX, C_XbarX, eps=1e-5):
 
     A1 = torch.einsum("...sfc,...cfd->...fsd", W, C_XX)
     A2 = torch.einsum("...sfdt,...dtfc->...fsc", H, C_XbarX)
-    A = A1 + A2  # (..., n_freq, n_src, n_chan)
+    A = A1 - A2  # (..., n_freq, n_src, n_chan)
 
     mat = A[..., :n_src]
     rhs = A[..., n_src:]
-- 
2.43.0


From e59eccc3d85dc0700cc8ea715f52afc6442f30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 02/39] fix: T_ISS projection back on a microphone beyond n_src
 works with batched inputs

The permutation was written for three dimensions and raised for any batch.
---
 torchiva/t_iss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index eeeb3cd..a857c82 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -287,7 +287,7 @@ def projection_back_weights(W, J=None, ref_mic=0, eps=1e-6):
             rhs = eye[:, [ref_mic]]
         else:
             rhs = J[..., [ref_mic - n_src], :, :]
-            rhs = rhs.permute([-2, -1, -3])
+            rhs = rhs.moveaxis(-3, -1)
 
         lhs = torch.einsum("...sfc->...fcs", B)
 
-- 
2.43.0


From 68c3c765a74e82df3236163185d1bcf315ac2fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 03/39] fix: AuxIVA_IP with n_src=None (the default) separates
 n_chan sources, as documented, instead of raising

---
 torchiva/auxiva_ip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index f583edf..86803b3 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -221,6 +221,9 @@ class AuxIVA_IP(DRBSSBase):
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
+        if n_src is None:
+            n_src = n_chan
+
         # for now, only supports determined case
         assert callable(model)
 
-- 
2.43.0


From 3e4f3bc2e54d53f6c887c59e5de3419e221590ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 04/39] fix: AuxIVA_IP projection back on a microphone beyond
 n_src returns (..., n_src, n_freq, n_frames)

The right-hand side taken from J already has the batch and frequency axes; they were added twice.
---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index 86803b3..fcb8de6 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -96,7 +96,7 @@ def projection_back_from_demixing_matrix(
             e1 = C[..., [ref_mic - n_src], :].transpose(-2, -1)
 
         WW = A + B @ C
-        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape)
+        e1 = torch.broadcast_to(e1, WW.shape[:-2] + e1.shape[-2:])
         a = solve_loaded_general(WW.transpose(-2, -1), e1)
         a = a.transpose(-3, -2)
 
-- 
2.43.0


From 5f6a1b0601f01bbd6a1438ec3e969eb82e8d8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 05/39] fix: FIVE with proj_back_mic=None skips projection
 back, as documented, instead of returning an array of the wrong shape

---
 torchiva/five.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 677c2ad..dad3da9 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -193,7 +193,8 @@ class FIVE(DRBSSBase):
 
         # we keep the row of Q^{-1} corresponding to the reference mic for the
         # normalization
-        Qinv_ref = Qinv[..., proj_back_mic, :]
+        if proj_back_mic is not None:
+            Qinv_ref = Qinv[..., proj_back_mic, :]
         # Qinv_ref = e_vec[..., proj_back_mic, None, :] * e_val_sqrt[..., None, :]
 
         # keep the input for scaling
@@ -235,8 +236,11 @@ class FIVE(DRBSSBase):
                 )
 
             # projection back
-            z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
-            w = eigenvector * torch.conj(z[..., None])
+            if proj_back_mic is not None:
+                z = torch.einsum("...fc,...fc->...f", Qinv_ref, eigenvector)
+                w = eigenvector * torch.conj(z[..., None])
+            else:
+                w = eigenvector
 
             # the new output
             Y = torch.einsum("...fc,...cfn->...fn", w.conj(), X)
-- 
2.43.0


From 0aa63ebc068583af4a98a00001eb83598ebb8a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 06/39] fix: FIVE power method normalises the start vector over
 channels and accepts n_power_iter <= 1

The start vector was normalised over the frequency axis, and with one iteration
(or 0, as in trained_models/tiss/model_config.yaml) the eigenvalue was unbound.
---
 torchiva/five.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index dad3da9..281c5fb 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -59,7 +59,8 @@ def smallest_eigenvector_power_method(V, n_iter=10):
 
     # initial point x0 = [1, 0, ..., 0]
     x = V_inv[..., :, 0]
-    x = normalize(x)
+    ev = torch.linalg.norm(x, dim=-1)
+    x = x / ev[..., None]
 
     for epoch in range(n_iter - 1):
         x = torch.einsum("...fcd,...fd->...fc", V_inv, x)
-- 
2.43.0


From 0e7e01ab8fae3c7bdd0eff7bc1d3f0496a192a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 07/39] fix: STFT accepts a custom window (window_type is a
 read-only property)

---
 torchiva/stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/stft.py b/torchiva/stft.py
index 083be5a..be812ab 100644
--- a/torchiva/stft.py
+++ b/torchiva/stft.py
@@ -51,7 +51,7 @@ class STFT(torch.nn.Module):
             self._window_type = window
             window = get_window(window, self._n_fft)
         else:
-            self.window_type = "custom"
+            self._window_type = "custom"
 
         if isinstance(window, np.ndarray):
             window = torch.from_numpy(window)
-- 
2.43.0


From 611b8377663cbfdf809e9ee51cdc9d1310e42e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 08/39] fix: 2x2 generalised eigenvalues keep the precision of
 the input (were truncated to float32)

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 56775a1..41f9bb1 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -197,7 +197,7 @@ def eigh_2x2(
         delta = pt.clamp(delta, min=eps)
 
         # fill the eigenvectors in ascending order
-        eigenvalues = pt.zeros(A.shape[:-1], device=A.device)
+        eigenvalues = delta.new_zeros(A.shape[:-1])
         eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
         eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
 
-- 
2.43.0


From d107754690d38276197375f31a483957007407e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:32 +0000
Subject: [PATCH 09/39] fix: eigh returns the eigenvectors of A, not of its
 conjugate, for complex 2x2 matrices

---
 torchiva/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 41f9bb1..fa6cdd8 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -279,8 +279,8 @@ def eigh(
     Eigenvalue decomposition of a complex Hermitian symmetric matrix
     """
 
-    # for 2x2, use specialized routine
-    if A.shape[-1] == 2:
+    # for 2x2 GEVD, use specialized routine
+    if A.shape[-1] == 2 and B is not None:
         return eigh_2x2(A, B=B, eps=eps)
 
     if B is not None:
-- 
2.43.0


From 51b26c546e108edaf68aadbdb00f0367104cf72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 10/39] fix: eigh_2x2 GEVD does not return a zero eigenvector
 when the first row of A - ev * B vanishes

---
 torchiva/linalg.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index fa6cdd8..c891afd 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -208,14 +208,16 @@ def eigh_2x2(
         ev1 = eigenvalues[..., 0]
         ev2 = eigenvalues[..., 1]
 
-        # now fill the eigenvectors
+        # now fill the eigenvectors, either from the first or second row of
+        # A - ev * B, whichever is the furthest from zero
         eigenvectors = A.new_zeros(A.shape)
-        # vector corresponding to small eigenvalue
-        eigenvectors[..., 0, 0] = multiply(ev1, b12) - a12
-        eigenvectors[..., 1, 0] = a11 - ev1 * b11
-        # vector corresponding to large eigenvalue
-        eigenvectors[..., 0, 1] = multiply(ev2, b12) - a12
-        eigenvectors[..., 1, 1] = a11 - ev2 * b11
+        for k, ev in enumerate([ev1, ev2]):  # small, then large eigenvalue
+            m11 = a11 - ev * b11
+            m12 = multiply(ev, b12) - a12
+            m22 = a22 - ev * b22
+            use_row_1 = mag_sq(m11) >= mag_sq(m22)
+            eigenvectors[..., 0, k] = pt.where(use_row_1, m12, m22)
+            eigenvectors[..., 1, k] = pt.where(use_row_1, m11, m12.conj())
 
     else:
         # Do the EVD
-- 
2.43.0


From d6608a4e08fbf0afcd08f9b369d62603721869f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 11/39] fix: torchiva.separate uses all the channels selected
 with --mic, not only the first --src

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..20bb4d6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From dc7e298441e35ec0f3a1b5f9c901ebea7d9b71a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 12/39] fix: torchiva.separate selects the --src most energetic
 outputs instead of raising NameError

---
 torchiva/separate.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 20bb4d6..d42035e 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -52,9 +52,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-            y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
-            )
+            y = torchiva.select_most_energetic(y, num=n_src, dim=-2, dim_reduc=-1)
 
         # make same size as input
         pad_len = mix.shape[-1] - y.shape[-1]
-- 
2.43.0


From baee7c98faacc96184bbf2888935ea3796dd081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 13/39] fix: torchiva.separate --n_iter is honoured by the
 non-neural source models

---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index d42035e..0b1a53b 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -193,6 +193,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 3f68693b098fa1a3bffb03984c3d7a658dc4bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 14/39] fix: torchiva.separate refuses to overwrite its input
 file however the output is spelled

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 0b1a53b..14205b2 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -234,7 +234,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
+        if path_out.resolve() == args.input.resolve():
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From dafaaf1f5ec88998789249a31e092ce2d515bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 15/39] fix: torchiva.separate on a folder never overwrites its
 inputs, nor the output of another file of the same name

---
 torchiva/separate.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 14205b2..48392db 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -213,11 +213,22 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        dir_in, dir_out = args.input.resolve(), args.output.resolve()
+        if dir_out == dir_in:
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        # list the files first, the output folder may be inside the input folder
+        paths_in = sorted(args.input.rglob("*.wav"))
+        if dir_in in dir_out.parents:
+            paths_in = [p for p in paths_in if dir_out not in p.resolve().parents]
+
+        # files in sub-folders keep their relative path
+        paths_out = [args.output / p.relative_to(args.input) for p in paths_in]
+        if {p.resolve() for p in paths_in} & {p.resolve() for p in paths_out}:
+            raise ValueError("The output would overwrite some of the input files")
+
+        for path_in, path_out in zip(paths_in, paths_out):
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 38454ec6f36e0297cd6a951d5eff9e0202a5d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 16/39] fix: an interrupted model download does not poison the
 local cache

---
 torchiva/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..00b6608 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -40,7 +40,10 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            # an interrupted download must not be mistaken for the model later
+            fn_part = fn.with_name(fn.name + ".part")
+            urlretrieve(url, filename=fn_part)
+            os.replace(fn_part, fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From f8d2d941d74c10faf906a234bfb00f57eab23e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:33 +0000
Subject: [PATCH 17/39] fix: mixed norm minimum distortion uses the
 majorisation weight of the l_p,q norm for q < 2

---
 torchiva/scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index 2aa3553..a5873d2 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -221,8 +221,8 @@ def lpq_norm(E, p=1, q=2, axis=0) -> pt.Tensor:
     assert p > 0 and q >= p and q <= 2.0
 
     E = E.abs() + 1e-5
-    E = E.pow(q) + 1e-5
-    rn = pt.sum(E, dim=axis, keepdim=True).pow(1 - p / q)
-    qfn = pt.abs(E).pow(2 - q)
+    Eq = E.pow(q) + 1e-5
+    rn = pt.sum(Eq, dim=axis, keepdim=True).pow(1 - p / q)
+    qfn = E.pow(2 - q)
     weights = p / pt.clamp(2.0 * rn * qfn, min=eps_scaling["gmdp"])
     return weights
-- 
2.43.0


From b0397c0a89e7b2e6a4da8ae00371d04f82e4b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 18/39] fix: AuxIVA_IP2 projection back is correct for loud
 (e.g. 16 bit integer scale) signals

---
 torchiva/auxiva_ip2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index 620a76a..73b895f 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -84,7 +84,8 @@ def spatial_model_update_ip2(
     if W is not None:
         W = hermite(eigvec)
         if A is not None:
-            A = inv_2x2(W)
+            # the rows of W * scale have unit norm
+            A = inv_2x2(W * scale.transpose(-2, -1)) * scale
 
     X = torch.einsum("...fcd,...dfn->...cfn", hermite(eigvec), Xo)
 
-- 
2.43.0


From 4133c9e0b90ffb783859bd00768ab2a8172fd7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:19 +0000
Subject: [PATCH 19/39] fix: FIVE initial estimate is projected back on the
 reference microphone with the right phase

---
 torchiva/five.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/five.py b/torchiva/five.py
index 281c5fb..e8beb16 100644
--- a/torchiva/five.py
+++ b/torchiva/five.py
@@ -212,7 +212,7 @@ class FIVE(DRBSSBase):
 
         # projection back
         if proj_back_mic is not None:
-            z = Q[..., 0, None, :] @ Cx[..., proj_back_mic, None]
+            z = torch.conj(Q[..., 0, None, :] @ Cx[..., proj_back_mic, None])
             z = z.transpose(-3, -2)
             Y = z[..., 0, :, :] * Y
 
-- 
2.43.0


From f56356febd987176bf0d40d56fe1ee24981dafc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:17 +0000
Subject: [PATCH 20/39] fix: AuxIVA_IP2 solves the eigenvalue problem of
 normalised covariances (absolute thresholds made it diverge on ordinary
 audio)

---
 torchiva/auxiva_ip2.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip2.py b/torchiva/auxiva_ip2.py
index 73b895f..b2e4ce7 100644
--- a/torchiva/auxiva_ip2.py
+++ b/torchiva/auxiva_ip2.py
@@ -66,7 +66,12 @@ def spatial_model_update_ip2(
     # we use the custom 2x2 eigenvalue decomposition solver. It is probably
     # not always faster than torch, but should be more stable for gradient
     # computation
-    eigval, eigvec = eigh_2x2(V[1], V[0], eps=eps)
+    # the eigenvectors do not depend on the scale of the matrices, so we
+    # normalize them because eigh_2x2 compares to absolute thresholds
+    tiny = torch.finfo(V[0].dtype).tiny
+    tr = [Vk.diagonal(dim1=-2, dim2=-1).real.sum(dim=-1) for Vk in V]
+    Vn = [Vk / torch.clamp(t, min=tiny)[..., None, None] for Vk, t in zip(V, tr)]
+    eigval, eigvec = eigh_2x2(Vn[1], Vn[0], eps=1e-15)
 
     # reverse order of eigenvectors
     eigvec = torch.flip(eigvec, dims=(-1,))
-- 
2.43.0


From b0e59cd5812fe16fcc47aafcdcff5bfb102289a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:24 +0000
Subject: [PATCH 21/39] fix: MVDR beamformer is distortionless for loud signals
 (the gain was clamped by an absolute threshold)

---
 torchiva/beamformer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 1cc4be7..e0dc3dc 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -115,6 +115,12 @@ def compute_mvdr_bf(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
+    # the beamformer does not depend on the scale of the covariance matrix, so
+    # we normalize it because we compare to absolute thresholds
+    scale = torch.diagonal(covmat_noise, dim1=-2, dim2=-1).real.mean(dim=-1)
+    scale = torch.clamp(scale, min=torch.finfo(scale.dtype).tiny)
+    covmat_noise = covmat_noise / scale[..., None, None]
+
     a = solve_loaded(covmat_noise, steering_vector, load=eps)
     denom = torch.einsum("...c,...c->...", steering_vector.conj(), a)
     denom = denom.real  # because covmat is PSD
-- 
2.43.0


From 162b2fabbff008af24acd96c877b64e92681029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:24 +0000
Subject: [PATCH 22/39] fix: GEV beamformer does not invert the (possibly
 numerically singular) eigenvector matrix

---
 torchiva/beamformer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index e0dc3dc..e471d7b 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -152,14 +152,19 @@ def compute_gev_bf(
     # eigenvalues are listed in ascending order
     eigval, eigvec = eigh(covmat_target, covmat_noise)
 
-    # compute the scale
-    rhs = torch.eye(eigvec.shape[-1], dtype=eigvec.dtype, device=eigvec.device)
-    rhs = rhs[:, -1, None]
-    steering_vector = torch.linalg.solve(hermite(eigvec), rhs)
-    scale = steering_vector[..., ref_mic, :].transpose(-3, -2)
+    v = eigvec[..., -1]
+
+    # compute the scale, the steering vector is the last column of inv(eigvec^H),
+    # that is, R_noise v / (v^H R_noise v)
+    Rv = torch.einsum("...cd,...d->...c", covmat_noise, v)
+    denom = torch.einsum("...c,...c->...", v.conj(), Rv).real
+    finfo = torch.finfo(denom.dtype)
+    trace = torch.diagonal(covmat_noise, dim1=-2, dim2=-1).real.sum(dim=-1)
+    denom = torch.maximum(denom, torch.clamp(finfo.eps * trace, min=finfo.tiny))
+    scale = Rv[..., [ref_mic]] / denom[..., None]
 
     # (batch, freq, sources, channels)
-    gev_bf = torch.conj(eigvec[..., -1].transpose(-3, -2)) * scale
+    gev_bf = (torch.conj(v) * scale).transpose(-3, -2)
 
     return gev_bf
 
-- 
2.43.0


From b62df761e584e740c1fcdbaea615098f439d6998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 23/39] fix: linalg.diagonal_loading loads the diagonal with
 its argument instead of raising NameError

---
 torchiva/linalg.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index c891afd..ee2f112 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -144,9 +144,7 @@ def diagonal_loading(A: pt.Tensor, d: pt.Tensor):
     """
     Load the diagonal of A with the vector d
     """
-    D = pt.diag(pt.arange(A.shape[-1], device=A.device) * eps)
-    D = D.reshape(pt.Size([1] * (len(A.shape) - 2)) + A.shape[-2:])
-    return A + D
+    return A + pt.diag_embed(d)
 
 
 def eigh_2x2(
-- 
2.43.0


From 94a89b77f0447c81eb599104bf09ffb551d67c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 24/39] fix: torchiva.separate runs the neural source model in
 evaluation mode (dropout made the output random)

---
 torchiva/separate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 48392db..39d715c 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -209,6 +209,9 @@ def main(args):
     if args.device is not None:
         separator = separator.to(args.device)
 
+    # inference only: the dropout and batch normalization of the source model are frozen
+    separator.eval()
+
     if args.input.is_dir():
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
-- 
2.43.0


From 6ef42b902edf52a2e774d24f7a174a2740c7af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:05 +0000
Subject: [PATCH 25/39] fix: linalg.inv_2x2 keeps the shape of a single
 (un-batched) matrix

---
 torchiva/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index ee2f112..ca2d8f2 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -129,7 +129,7 @@ def inv_2x2(W: pt.Tensor, eps=1e-6):
     det = W11 * W22 - W12 * W21
 
     # complex clamp
-    det = pt.where(abs(det) < eps, eps * det.new_ones(1), det)
+    det = pt.where(abs(det) < eps, eps * pt.ones_like(det), det)
 
     adjoint = pt.stack(
         (pt.stack((W22, -W21), dim=-1), pt.stack((-W12, W11), dim=-1)), dim=-1
-- 
2.43.0


From 2f5be046fcd4bc9780b2afadb6c8effbd7359630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:05 +0000
Subject: [PATCH 26/39] fix: T_ISS does not amplify the filters of silent
 sources or bins until they overflow (NaN output)

---
 torchiva/t_iss.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index a857c82..1e0423f 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -72,8 +72,11 @@ def iss_block_update_type_1(
     v_denom = torch.einsum("...cfn,...fn->...cf", weights, mag_sq(Xs)) * norm
 
     v = divide(v_num, v_denom, eps=eps)
-    v_s = 1.0 - (1.0 / torch.sqrt(torch.clamp(v_denom[..., src, :], min=eps)))
-    v[..., src, :] = v_s
+    v_denom_s = v_denom[..., src, :]
+    v_s = 1.0 - (1.0 / torch.sqrt(torch.clamp(v_denom_s, min=eps)))
+    # there is no scale to adjust when there is no signal at all, and the filters
+    # would be amplified at every iteration until they overflow
+    v[..., src, :] = torch.where(v_denom_s > 0.0, v_s, torch.zeros_like(v_s))
 
     return v
 
@@ -236,7 +239,10 @@ def over_iss_t_one_iter(Y, X, X_bar, C_XX, C_XbarX, W, H, J, model, eps=1e-3):
     # <---
     # we normalize the sources to have source to have unit variance prior to
     # computing the model
-    g = torch.clamp(torch.mean(mag_sq(Y), dim=(-2, -1), keepdim=True), min=eps)
+    power = torch.mean(mag_sq(Y), dim=(-2, -1), keepdim=True)
+    g = torch.clamp(power, min=eps)
+    # do not amplify the filters of a source that is exactly zero
+    g = torch.where(power > 0.0, g, torch.ones_like(g))
     g_sqrt = torch.sqrt(g)
     Y = divide(Y, g_sqrt, eps=eps)
     W = divide(W, g_sqrt, eps=eps)
-- 
2.43.0


From 83215f03c3671cec62e79bc9c2b68dc0bb123bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:11 +0000
Subject: [PATCH 27/39] fix: MVDR beamformer returns zeros, not NaN (or
 LinAlgError), where there is no signal

---
 torchiva/beamformer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index e471d7b..80d25ad 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -104,6 +104,8 @@ def compute_mvdr_rtf_eigh(
 
     # normalize reference component
     scale = steering_vector[..., [ref_mic]]
+    # there is nothing to normalize if there is no signal at the reference
+    scale = torch.where(scale == 0.0, torch.ones_like(scale), scale)
     steering_vector = steering_vector / scale
 
     return steering_vector
@@ -135,8 +137,17 @@ def compute_mvdr_bf2(
     eps: Optional[float] = 1e-5,
 ) -> torch.Tensor:
 
-    num = torch.linalg.solve(covmat_noise, covmat_target)
+    # the beamformer does not depend on the scale of the covariance matrix, so
+    # we normalize it because the diagonal loading has an absolute lower limit
+    finfo = torch.finfo(covmat_noise.dtype)
+    scale = torch.diagonal(covmat_noise, dim1=-2, dim2=-1).real.mean(dim=-1)
+    scale = torch.clamp(scale, min=finfo.tiny)
+    covmat_noise = covmat_noise / scale[..., None, None]
+
+    # load just enough to solve for a singular covariance matrix
+    num = solve_loaded(covmat_noise, covmat_target, load=10 * finfo.eps)
     denom = torch.sum(torch.diagonal(num, dim1=-2, dim2=-1), dim=-1)
+    denom = torch.where(denom == 0.0, torch.ones_like(denom), denom)
     w = num / denom[..., None, None]
 
     return w[..., ref_mic]
-- 
2.43.0


From 7016cab3863b74642146ba9dfc5898b37bcdf530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 28/39] fix: models of the same name at different URLs do not
 share a cache entry, nor a partial download

---
 torchiva/loader.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 00b6608..f81095d 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,6 @@
+import hashlib
 import os
+import uuid
 from pathlib import Path
 from typing import Union, Optional
 
@@ -33,17 +35,23 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # models with the same name at different locations are not the same
+    url_id = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+    model_path = Path.home() / f".torchiva_models/{model_name}-{url_id}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            # an interrupted download must not be mistaken for the model later
-            fn_part = fn.with_name(fn.name + ".part")
-            urlretrieve(url, filename=fn_part)
-            os.replace(fn_part, fn)
+            # an interrupted or concurrent download must not be mistaken for the
+            # model later
+            fn_part = fn.with_name(f"{fn.name}.{uuid.uuid4().hex}.part")
+            try:
+                urlretrieve(url, filename=fn_part)
+                os.replace(fn_part, fn)
+            finally:
+                fn_part.unlink(missing_ok=True)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From d789aeefb35d6da4b0087442ae04953b2eb6415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:00 +0000
Subject: [PATCH 29/39] fix: 2x2 generalised eigenvalue decomposition does not
 overflow in single precision for loud signals

---
 torchiva/linalg.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index ca2d8f2..07eb53a 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -165,6 +165,14 @@ def eigh_2x2(
         # broadcast
         A, B = pt.broadcast_tensors(A, B)
 
+        # normalize, because products of up to four entries would overflow (or be
+        # under the threshold) in single precision for loud (or quiet) signals
+        tiny = pt.finfo(A.dtype).tiny
+        with pt.no_grad():
+            scale_A = pt.clamp(A.abs().amax(dim=(-2, -1), keepdim=True), min=tiny)
+            scale_B = pt.clamp(B.abs().amax(dim=(-2, -1), keepdim=True), min=tiny)
+        A, B = A / scale_A, B / scale_B
+
         # notation
         a11 = A[..., 0, 0]
         a12 = A[..., 0, 1]
@@ -217,6 +225,8 @@ def eigh_2x2(
             eigenvectors[..., 0, k] = pt.where(use_row_1, m12, m22)
             eigenvectors[..., 1, k] = pt.where(use_row_1, m11, m12.conj())
 
+        eigenvalues = eigenvalues * (scale_A / scale_B)[..., 0]
+
     else:
         # Do the EVD
 
-- 
2.43.0


From e8e646044f25d9b7731f7488ec3347b9cdad7abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:33 +0000
Subject: [PATCH 30/39] fix: generalised eigenvalue decomposition of quiet
 signals with three or more channels

The eigenvalues of B were compared to an absolute threshold: the GEV and
MVDR beamformers were wrong for low-level bins, but only with more than two
channels. Normalise the matrices first, as is done for two channels.
---
 torchiva/linalg.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 07eb53a..f7edb3c 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -296,14 +296,24 @@ def eigh(
     if B is not None:
         assert A.shape == B.shape, "A and B should have the same size"
 
+        # normalize, because the eigenvalues of B are compared to a threshold
+        finfo = pt.finfo(A.dtype)
+        with pt.no_grad():
+            scale_A = A.abs().amax(dim=(-2, -1), keepdim=True)
+            scale_A = pt.clamp(scale_A, min=finfo.tiny)
+            scale_B = B.abs().amax(dim=(-2, -1), keepdim=True)
+            scale_B = pt.clamp(scale_B, min=finfo.tiny)
+        A, B = A / scale_A, B / scale_B
+
         # generalized eigenvalue decomposition
         Bval, Bvec = eigh_wrapper(B, use_cpu=use_eigh_cpu)
-        Bval_sqrt = pt.sqrt(pt.clamp(Bval, min=1e-5))
+        Bval_sqrt = pt.sqrt(pt.clamp(Bval, min=B.shape[-1] * finfo.eps))
         B_sqrt_inv = Bvec @ (pt.reciprocal(Bval_sqrt[..., :, None]) * hermite(Bvec))
 
         Linv_A_LHinv = B_sqrt_inv @ A @ hermite(B_sqrt_inv)
 
         eigenvalues, eigenvectors = eigh_wrapper(Linv_A_LHinv, use_cpu=use_eigh_cpu)
+        eigenvalues = eigenvalues * (scale_A / scale_B)[..., 0]
 
         eigenvectors = hermite(B_sqrt_inv) @ eigenvectors
 
-- 
2.43.0


From 0c37aaf286bc81f7ffdac4b7703a6879679f4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:55 +0000
Subject: [PATCH 31/39] fix: the MWF ignored eps and depended on the recording
 level

The filter for one reference microphone was regularized by a fixed amount with
an absolute lower limit, so that eps had no effect and the output for quiet
signals faded. Normalize the covariance matrices and load by eps.
---
 torchiva/beamformer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index 80d25ad..e7e6546 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -54,12 +54,20 @@ def compute_mwf_bf(
         the last dimension the number of channels.
     """
 
+    # the filter does not depend on the scale of the covariance matrices, so we
+    # normalize them because the diagonal loading has an absolute lower limit
+    covmat_mix = covmat_target + covmat_noise
+    scale = torch.diagonal(covmat_mix, dim1=-2, dim2=-1).real.mean(dim=-1)
+    scale = torch.clamp(scale, min=torch.finfo(scale.dtype).tiny)[..., None, None]
+    covmat_mix = covmat_mix / scale
+    covmat_target = covmat_target / scale
+
     if ref_mic is None:
-        W_H = solve_loaded(covmat_target + covmat_noise, covmat_target, load=eps)
+        W_H = solve_loaded(covmat_mix, covmat_target, load=eps)
         return W_H
 
     else:
-        w = solve_loaded(covmat_target + covmat_noise, covmat_target[..., ref_mic])
+        w = solve_loaded(covmat_mix, covmat_target[..., ref_mic], load=eps)
         return w
 
 
-- 
2.43.0


From db3f48b509f8c07bbefc98389a56cc4fe18bbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 32/39] fix: eigh_2x2 is inaccurate, and its eigenvectors are
 not independent, when the eigenvalues of the pencil are close to each other

---
 torchiva/linalg.py | 94 ++++++++++++++++++++++------------------------
 1 file changed, 45 insertions(+), 49 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index f7edb3c..26fb79f 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -173,57 +173,53 @@ def eigh_2x2(
             scale_B = pt.clamp(B.abs().amax(dim=(-2, -1), keepdim=True), min=tiny)
         A, B = A / scale_A, B / scale_B
 
-        # notation
-        a11 = A[..., 0, 0]
-        a12 = A[..., 0, 1]
-        a22 = A[..., 1, 1]
-        b11 = B[..., 0, 0]
-        b12 = B[..., 0, 1]
-        b22 = B[..., 1, 1]
-
-        # coefficient of secular equation: x - b * x + c
-        a11b22 = a11.real * b22.real
-        a22b11 = a22.real * b11.real
-        if is_complex_type(a12) and is_complex_type(b12):
-            re_a12b12c = a12.real * b12.real + a12.imag * b12.imag
-        else:
-            re_a12b12c = a12.real * b12.real
-        b = a11b22 + a22b11 - 2.0 * re_a12b12c
-
-        det_A = a11.real * a22.real - mag_sq(a12)
-        det_B = b11.real * b22.real - mag_sq(b12)
-        c = det_A * det_B
+        # notation, with the larger of the diagonal entries of B in first position
+        swap = B[..., 0, 0].real < B[..., 1, 1].real
+        a11 = pt.where(swap, A[..., 1, 1].real, A[..., 0, 0].real)
+        a22 = pt.where(swap, A[..., 0, 0].real, A[..., 1, 1].real)
+        a21 = pt.where(swap, A[..., 0, 1], A[..., 0, 1].conj())
+        b11 = pt.where(swap, B[..., 1, 1].real, B[..., 0, 0].real)
+        b22 = pt.where(swap, B[..., 0, 0].real, B[..., 1, 1].real)
+        b21 = pt.where(swap, B[..., 0, 1], B[..., 0, 1].conj())
+
+        # reduction to the EVD of M = inv(L) A inv(L)^H with the Cholesky factor
+        # B = L L^H, L = [[l1, 0], [r * l1, l2]], because the discriminant of the
+        # generalized secular equation is inaccurate for eigenvalues close to each other
+        min_B = max(eps, pt.finfo(A.dtype).eps)
+        b11 = pt.clamp(b11, min=min_B)
+        r = b21 / b11
+        l2_sq = pt.clamp(b22 - b11 * mag_sq(r), min=min_B)
+        l1, l2 = pt.sqrt(b11), pt.sqrt(l2_sq)
+
+        m11 = a11 / b11
+        m21 = (a21 - r * a11) / (l1 * l2)
+        m22 = (a22 - 2.0 * (r.conj() * a21).real + a11 * mag_sq(r)) / l2_sq
+
+        # half-sum and half-difference of the eigenvalues
+        mean = 0.5 * (m11 + m22)
+        diff = 0.5 * (m11 - m22)
+        delta = pt.sqrt(pt.clamp(pt.square(diff) + mag_sq(m21), min=tiny))
+
+        # fill the eigenvalues in ascending order
+        eigenvalues = pt.stack((mean - delta, mean + delta), dim=-1)
+
+        # orthogonal eigenvectors of M, (p, q) and (-q^*, p)
+        p = (1.0 + diff.abs() / delta).type_as(A)
+        q = m21 / delta
+        order = diff >= 0.0
+        small_1, small_2 = pt.where(order, -q.conj(), p), pt.where(order, p, -q)
+        large_1, large_2 = pt.where(order, p, q.conj()), pt.where(order, q, p)
+
+        # back to those of the original problem, with inv(L)^H
+        small_1 = small_1 * (l2 / l1) - r.conj() * small_2
+        large_1 = large_1 * (l2 / l1) - r.conj() * large_2
 
-        # discrimant of secular equation
-        delta = pt.square(b) - 4 * c
-
-        # we clamp to zero to avoid numerical inaccuracies
-        # we know the minimum is zero because A and B should
-        # be symmetric or hermitian symmetric
-        delta = pt.clamp(delta, min=eps)
-
-        # fill the eigenvectors in ascending order
-        eigenvalues = delta.new_zeros(A.shape[:-1])
-        eigenvalues[..., 0] = 0.5 * (b - pt.sqrt(delta))  # small eigenvalue
-        eigenvalues[..., 1] = 0.5 * (b + pt.sqrt(delta))  # large eigenvalue
-
-        # normalize the eigenvalues
-        eigenvalues = eigenvalues / pt.clamp(det_B[..., None], min=eps)
-
-        # notation
-        ev1 = eigenvalues[..., 0]
-        ev2 = eigenvalues[..., 1]
-
-        # now fill the eigenvectors, either from the first or second row of
-        # A - ev * B, whichever is the furthest from zero
+        # now fill the eigenvectors
         eigenvectors = A.new_zeros(A.shape)
-        for k, ev in enumerate([ev1, ev2]):  # small, then large eigenvalue
-            m11 = a11 - ev * b11
-            m12 = multiply(ev, b12) - a12
-            m22 = a22 - ev * b22
-            use_row_1 = mag_sq(m11) >= mag_sq(m22)
-            eigenvectors[..., 0, k] = pt.where(use_row_1, m12, m22)
-            eigenvectors[..., 1, k] = pt.where(use_row_1, m11, m12.conj())
+        eigenvectors[..., 0, 0] = pt.where(swap, small_2, small_1)
+        eigenvectors[..., 1, 0] = pt.where(swap, small_1, small_2)
+        eigenvectors[..., 0, 1] = pt.where(swap, large_2, large_1)
+        eigenvectors[..., 1, 1] = pt.where(swap, large_1, large_2)
 
         eigenvalues = eigenvalues * (scale_A / scale_B)[..., 0]
 
-- 
2.43.0


From 2fed0807a3c6403f4498ecb8c4ab66d0a697f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 33/39] fix: the separation command stopped at folders whose
 name ends with .wav

---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 39d715c..6addec6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -221,7 +221,7 @@ def main(args):
             raise ValueError("Input and output should be different folders")
 
         # list the files first, the output folder may be inside the input folder
-        paths_in = sorted(args.input.rglob("*.wav"))
+        paths_in = sorted(p for p in args.input.rglob("*.wav") if p.is_file())
         if dir_in in dir_out.parents:
             paths_in = [p for p in paths_in if dir_out not in p.resolve().parents]
 
-- 
2.43.0


From 7514769ce7fd21182c73638525277f8cbdacf6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 34/39] fix: minimum_distortion with a model raised without
 batch, and used the weights of the first item and bin for all with one

---
 torchiva/scaling.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/torchiva/scaling.py b/torchiva/scaling.py
index a5873d2..7da2725 100644
--- a/torchiva/scaling.py
+++ b/torchiva/scaling.py
@@ -181,7 +181,6 @@ def minimum_distortion(
         error = ref[..., :, None, :] - c[..., :, :, None] * Y
         if model is not None:
             weights = model(error.transpose(-3, -2)).transpose(-3, -2)
-            weights = weights[..., 0, 0, :, :]
 
             # let us normalize the weights along the time axis
             norm = pt.sum(weights, dim=-1, keepdim=True)
-- 
2.43.0


From 32839269ebf724ffe2d0344d6406c13438c76c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:34 +0000
Subject: [PATCH 35/39] fix: the MVDR beamformer with power iterations depends
 on the recording level (absolute lower limit of the loading)

---
 torchiva/beamformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchiva/beamformer.py b/torchiva/beamformer.py
index e7e6546..974d019 100644
--- a/torchiva/beamformer.py
+++ b/torchiva/beamformer.py
@@ -102,7 +102,9 @@ def compute_mvdr_rtf_eigh(
 
     else:
         # use power iteration to compute dominant eigenvector
-        Phi = solve_loaded(covmat_noise, covmat_target, load=1e-5)
+        scale = torch.diagonal(covmat_noise, dim1=-2, dim2=-1).real.mean(dim=-1)
+        scale = torch.clamp(scale, min=torch.finfo(scale.dtype).tiny)[..., None, None]
+        Phi = solve_loaded(covmat_noise / scale, covmat_target, load=1e-5)
         v = Phi[..., :, 0]
         for epoch in range(power_iterations - 1):
             v = torch.einsum("...cd,...d->...c", Phi, v)
-- 
2.43.0


From bef9bb9790fdbeeface87c233f4adab54f54841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:55 +0000
Subject: [PATCH 36/39] fix: the window given to the loader is replaced by the
 stored one

---
 torchiva/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index f81095d..51d4348 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -91,6 +91,9 @@ def load_separator_model(
 
     state_dict = torch.load(ckpt_path)
     separator = BSSSeparator(**model_config)
+    if "window" in kwargs:
+        # the window asked for, not the stored one
+        state_dict["stft._window"] = separator.stft.window
     separator.load_state_dict(state_dict)
 
     return separator
-- 
2.43.0


From 4d3185d29594527d0cc5a7268a07d83547144c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 37/39] fix: lazily conjugated tensors are refused by products
 and the complex BLSTM masks

---
 torchiva/linalg.py       | 6 +++---
 torchiva/models/blstm.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchiva/linalg.py b/torchiva/linalg.py
index 26fb79f..a4ab284 100644
--- a/torchiva/linalg.py
+++ b/torchiva/linalg.py
@@ -48,7 +48,7 @@ def multiply(tensor1: pt.Tensor, tensor2: pt.Tensor):
             tensor1, tensor2 = tensor2, tensor1
 
         # tensor1 is real, tensor2 is complex
-        return pt.view_as_complex(pt.view_as_real(tensor2) * tensor1[..., None])
+        return pt.view_as_complex(pt.view_as_real(tensor2.resolve_conj()) * tensor1[..., None])
 
 
 def mag_sq(x: pt.Tensor):
@@ -63,8 +63,8 @@ def mag(x: pt.Tensor):
 
 
 def bmm(input: pt.Tensor, mat2: pt.Tensor) -> pt.Tensor:
-    m1 = pt.view_as_real(input)
-    m2 = pt.view_as_real(mat2)
+    m1 = pt.view_as_real(input.resolve_conj())
+    m2 = pt.view_as_real(mat2.resolve_conj())
     real_part = m1[..., 0] @ m2[..., 0] - m1[..., 1] @ m2[..., 1]
     imag_part = m1[..., 0] @ m2[..., 1] + m1[..., 1] @ m2[..., 0]
     out = pt.cat((real_part[..., None], imag_part[..., None]), dim=-1)
diff --git a/torchiva/models/blstm.py b/torchiva/models/blstm.py
index 4b42698..6a43ed4 100644
--- a/torchiva/models/blstm.py
+++ b/torchiva/models/blstm.py
@@ -64,7 +64,7 @@ class BLSTMMask(nn.Module):
                 X = torch.log(X + 1e-7)
         else:
             # reduce to mel-spectrogram
-            X = torch.view_as_real(X)
+            X = torch.view_as_real(X.resolve_conj())
             Xr = self.mel_layer(X[..., 0])
             Xi = self.mel_layer(X[..., 1])
 
-- 
2.43.0


From fd71f265a22f43617f47f3aa53393264736cfc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 38/39] fix: the separation command overwrites its input when
 the output is a hard link to it

---
 torchiva/separate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 6addec6..1c85b97 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -63,6 +63,14 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
     torchaudio.save(path_out, y, fs)
 
 
+def file_id(path):
+    # a file may have several names (links)
+    if path.exists():
+        stat = path.stat()
+        return stat.st_dev, stat.st_ino
+    return path.resolve()
+
+
 def device_type(device):
     if device.isnumeric():
         return f"cuda:{device}"
@@ -227,7 +235,7 @@ def main(args):
 
         # files in sub-folders keep their relative path
         paths_out = [args.output / p.relative_to(args.input) for p in paths_in]
-        if {p.resolve() for p in paths_in} & {p.resolve() for p in paths_out}:
+        if {file_id(p) for p in paths_in} & {file_id(p) for p in paths_out}:
             raise ValueError("The output would overwrite some of the input files")
 
         for path_in, path_out in zip(paths_in, paths_out):
@@ -248,7 +256,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if path_out.resolve() == args.input.resolve():
+        if file_id(path_out) == file_id(args.input):
             raise ValueError("Input and output should be different files")
 
         separate_one_file(
-- 
2.43.0


From d567e0d3c2bd6812b4fe643319d33a9ac9f0ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 39/39] fix: AuxIVA_IP with verbose=True raises on a batch

---
 torchiva/auxiva_ip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/auxiva_ip.py b/torchiva/auxiva_ip.py
index fcb8de6..810feb4 100644
--- a/torchiva/auxiva_ip.py
+++ b/torchiva/auxiva_ip.py
@@ -106,7 +106,7 @@ def projection_back_from_demixing_matrix(
 
 
 def cost(model, Y, W, J=None, g=None):
-    n_freq, n_src, n_chan = W.shape
+    n_freq, n_src, n_chan = W.shape[-3:]
     n_frames = Y.shape[-1]
 
     if J is not None:
-- 
2.43.0

