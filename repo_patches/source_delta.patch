From 8c89be8bff9752a37d04b014d1eac597441d3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 01/54] fix: qu2ho maps q and -q to the same vector and leaves
 its input alone

---
 ebsdtorch/s2_and_so3/orientations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 7061a6a..5222821 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -37,15 +37,15 @@ def qu2ho(qu: Tensor) -> Tensor:
     """
     if qu.size(-1) != 4:
         raise ValueError(f"Invalid quaternion shape {qu.shape}.")
-    ho = torch.empty_like(qu[..., :3])
+    # q and -q are the same rotation: use the one with angle in [0, pi]
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
     # get the angle
-    angle = 2 * torch.acos(qu[..., 0:1].clamp_(min=-1.0, max=1.0))
+    angle = 2 * torch.acos(torch.clamp(qu[..., 0:1], min=-1.0, max=1.0))
     # get the unit vector
     unit = qu[..., 1:] / torch.norm(qu[..., 1:], dim=-1, keepdim=True)
     ho = unit * (3.0 * (angle - torch.sin(angle)) / 4.0) ** (1 / 3)
     # fix the case where the angle is zero
-    ho[(angle.squeeze(-1) < 1e-8)] = 0.0
-    return ho
+    return torch.where(angle < 1e-8, torch.zeros_like(ho), ho)
 
 
 @torch.jit.script
-- 
2.43.0


From c64cb5d635bf7fad2e7810cc747275f90d4936e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 02/54] fix: om2qu axis of 180 degree rotations with components
 of mixed sign

---
 ebsdtorch/s2_and_so3/orientations.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 5222821..ef6937f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -121,11 +121,9 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[branch_4, 3] = (m01[branch_4] - m10[branch_4]) * branch_4_t_rsqrt
     qu[branch_4, 0] = branch_4_t * branch_4_t_rsqrt
 
-    # guarantee the correct axis signs
-    qu[..., 0] = torch.abs(qu[..., 0])
-    qu[..., 1] = qu[..., 1].copysign((m21 - m12))
-    qu[..., 2] = qu[..., 2].copysign((m02 - m20))
-    qu[..., 3] = qu[..., 3].copysign((m10 - m01))
+    # the branches give the inverse rotation: negate the axis, keep w >= 0
+    qu[..., 1:] = -qu[..., 1:]
+    qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
 
     return qu
 
-- 
2.43.0


From fce764ab585ec22c728b270330d7cd5a0c74b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 03/54] fix: om2ax at the identity and at 180 degrees

---
 ebsdtorch/s2_and_so3/orientations.py | 35 +++++++---------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index ef6937f..2c08596 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -143,34 +143,17 @@ def om2ax(matrix: Tensor) -> Tensor:
     if matrix.size(-1) != 3 or matrix.size(-2) != 3:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
-    batch_dim = matrix.shape[:-2]
-
-    # set the output with the same batch dimensions as the input
-    axis = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
-
-    # Get the trace of the matrix
-    trace = matrix[..., 0, 0] + matrix[..., 1, 1] + matrix[..., 2, 2]
-
-    # find the angles
-    acos_arg = 0.5 * (trace - 1.0)
-    acos_arg = torch.clamp(acos_arg, -1.0, 1.0)
-    theta = torch.acos(acos_arg)
-
-    # where the angle is small, treat theta/sin(theta) as 1
-    stable = theta > 0.001
-    axis[..., 0] = matrix[..., 2, 1] - matrix[..., 1, 2]
-    axis[..., 1] = matrix[..., 0, 2] - matrix[..., 2, 0]
-    axis[..., 2] = matrix[..., 1, 0] - matrix[..., 0, 1]
-    factor = torch.where(stable, 0.5 / torch.sin(theta), 0.5)
-    axis[..., :3] = factor[:, None] * axis[:, :3]
-
-    # normalize the axis
-    axis[..., :3] /= torch.norm(axis[:, :3], dim=-1, keepdim=True)
+    # the quaternion is well conditioned at both 0 and 180 degrees
+    qu = om2qu(matrix)
+    sin_half = torch.norm(qu[..., 1:], dim=-1, keepdim=True)
+    theta = 2.0 * torch.atan2(sin_half, qu[..., 0:1])
 
-    # set the angle
-    axis[..., 3] = theta
+    # the identity is about the z axis
+    z_axis = torch.zeros_like(qu[..., 1:])
+    z_axis[..., 2] = 1.0
+    axis = torch.where(sin_half > 0, qu[..., 1:] / sin_half, z_axis)
 
-    return axis.view(batch_dim + (4,))
+    return torch.cat([axis, theta], dim=-1)
 
 
 @torch.jit.script
-- 
2.43.0


From b56e6b26fe6258d15f4b3c2e16fc393a41d62546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 04/54] fix: ho2ax_newton returns a unit axis

---
 ebsdtorch/s2_and_so3/orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 2c08596..5432ed8 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -642,7 +642,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
         update[torch.isnan(update)] = 0
         w_newton -= update
 
-    ax[~mask_zero, 0:3] = ho[~mask_zero] * torch.rsqrt(h[~mask_zero].unsqueeze(-1))
+    ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
     return ax
-- 
2.43.0


From db138e915df2604adefb38c876f6befeafbdee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 05/54] fix: qu2ax angle of quaternions with negative real part

---
 ebsdtorch/s2_and_so3/orientations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 5432ed8..9f09223 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -740,7 +740,8 @@ def qu2ax(qu: Tensor) -> Tensor:
     """
 
     ax = torch.empty_like(qu)
-    angle = 2 * torch.acos(torch.clamp(qu[..., 0], min=-1.0, max=1.0))
+    # the axis below is flipped for a negative real part
+    angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
 
     s = torch.where(
         qu[..., 0:1] != 0,
-- 
2.43.0


From 67029762a2deb120e655e4b232c7dc856a1a0f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 06/54] fix: qu2ro returned NaN for the identity

---
 ebsdtorch/s2_and_so3/orientations.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 9f09223..4ed2b6f 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -785,6 +785,13 @@ def qu2ro(qu: Tensor) -> Tensor:
     eps = 1e-8 if qu.dtype == torch.float32 else 1e-10
     mask_zero = torch.abs(qu[..., 0]) < eps
     ro[mask_zero, 3] = float("inf")
+
+    # the identity has no axis: use the z axis
+    mask_identity = torch.sum(qu[..., 1:] ** 2, dim=-1) == 0
+    ro[mask_identity, 0] = 0.0
+    ro[mask_identity, 1] = 0.0
+    ro[mask_identity, 2] = 1.0
+    ro[mask_identity, 3] = 0.0
     return ro
 
 
-- 
2.43.0


From 3341d1905998015785c4385a8d3aecc978603e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 07/54] fix: orientation conversions accept any batch shape,
 none included

---
 ebsdtorch/s2_and_so3/orientations.py | 50 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 4ed2b6f..f58ecf8 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -71,6 +71,7 @@ def om2qu(matrix: Tensor) -> Tensor:
         raise ValueError(f"Invalid rotation matrix shape {matrix.shape}.")
 
     batch_dim = matrix.shape[:-2]
+    matrix = matrix.reshape(-1, 3, 3)
 
     m00 = matrix[..., 0, 0]
     m11 = matrix[..., 1, 1]
@@ -99,7 +100,9 @@ def om2qu(matrix: Tensor) -> Tensor:
     branch_4_t = 1 + m00[branch_4] + m11[branch_4] + m22[branch_4]
     branch_4_t_rsqrt = 0.5 * torch.rsqrt(branch_4_t)
 
-    qu = torch.empty(batch_dim + (4,), dtype=matrix.dtype, device=matrix.device)
+    qu = torch.empty(
+        (matrix.shape[0], 4), dtype=matrix.dtype, device=matrix.device
+    )
 
     qu[branch_1, 1] = branch_1_t * branch_1_t_rsqrt
     qu[branch_1, 2] = (m01[branch_1] + m10[branch_1]) * branch_1_t_rsqrt
@@ -125,7 +128,7 @@ def om2qu(matrix: Tensor) -> Tensor:
     qu[..., 1:] = -qu[..., 1:]
     qu = torch.where(qu[..., 0:1] < 0, -qu, qu)
 
-    return qu
+    return qu.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -171,12 +174,8 @@ def ax2om(axis_angle: Tensor) -> Tensor:
         raise ValueError(f"Invalid axis-angle shape {axis_angle.shape}.")
 
     batch_dim = axis_angle.shape[:-1]
-    data_n = int(torch.prod(torch.tensor(batch_dim)))
-
-    # set the output
-    matrices = torch.empty(
-        batch_dim + (3, 3), dtype=axis_angle.dtype, device=axis_angle.device
-    )
+    axis_angle = axis_angle.reshape(-1, 4)
+    data_n = axis_angle.shape[0]
 
     theta = axis_angle[..., 3:4]
     omega = axis_angle[..., :3] * theta
@@ -192,7 +191,7 @@ def ax2om(axis_angle: Tensor) -> Tensor:
     skew_sq = torch.matmul(matrices, matrices)
 
     # Taylor expansion for small angles of each factor
-    stable = (theta > 0.05).squeeze()
+    stable = (theta > 0.05).squeeze(-1)
 
     theta_unstable = theta[~stable].unsqueeze(-1)
 
@@ -290,7 +289,7 @@ def cu2ho(cu: torch.Tensor) -> torch.Tensor:
 
     # Calculate trigonometric argument and avoid indeterminate forms
     trig_arg_xy = s * torch.pi / (12.0 * m)
-    trig_arg_xy[torch.isnan(trig_arg_xy)] = 0
+    trig_arg_xy = torch.where(torch.isnan(trig_arg_xy), 0.0, trig_arg_xy)
 
     factor_xy = (
         2 ** (1 / 12)
@@ -418,6 +417,8 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     cosine of the half rotation angle.
 
     """
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
     if ho.dtype == torch.float32 or ho.dtype == torch.float16:
         fit_parameters = torch.tensor(
             [
@@ -494,7 +495,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[rot_is_identity, ..., 2] = 1.0
-    return ax
+    return ax.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -518,6 +519,8 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
     f(w) = [(3/4) * (w - sin(w))]^(1/3) -> no inverse -> polynomial fit it
 
     """
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
     if coeffs == "kikuchipy":
         fit_parameters = torch.tensor(
             [
@@ -597,7 +600,7 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
         2.0 * torch.arccos(torch.clamp(s, -1.0, 1.0)),
         0,
     )
-    return ax
+    return ax.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -616,6 +619,9 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
 
     """
 
+    batch_dim = ho.shape[:-1]
+    ho = ho.reshape(-1, 3)
+
     # initial guess for ang given h
     h = torch.norm(ho, dim=-1)
 
@@ -645,7 +651,7 @@ def ho2ax_newton(ho: Tensor) -> Tensor:
     ax[~mask_zero, 0:3] = ho[~mask_zero] / h[~mask_zero].unsqueeze(-1)
     ax[~mask_zero, 3] = w_newton
 
-    return ax
+    return ax.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -692,6 +698,8 @@ def ro2ax(ro: Tensor) -> Tensor:
     Returns:
         torch.Tensor: shape (..., 4) axis-angles (x, y, z, angle).
     """
+    batch_dim = ro.shape[:-1]
+    ro = ro.reshape(-1, 4)
     ax = torch.empty_like(ro)
     mask_zero_ro = torch.abs(ro[..., 3]) == 0
     ax[mask_zero_ro] = torch.tensor([0, 0, 1, 0], dtype=ro.dtype, device=ro.device)
@@ -705,7 +713,7 @@ def ro2ax(ro: Tensor) -> Tensor:
         ro[mask_else, :3], dim=-1, keepdim=True
     )
     ax[mask_else, 3] = 2 * torch.atan(ro[mask_else, 3])
-    return ax
+    return ax.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -739,6 +747,8 @@ def qu2ax(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 4) axis-angle in the format (x, y, z, angle).
     """
 
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
     ax = torch.empty_like(qu)
     # the axis below is flipped for a negative real part
     angle = 2 * torch.acos(torch.clamp(torch.abs(qu[..., 0]), max=1.0))
@@ -759,7 +769,7 @@ def qu2ax(qu: Tensor) -> Tensor:
     ax[mask_identity, 2] = 1.0
     ax[mask_identity, 3] = 0.0
 
-    return ax
+    return ax.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -773,6 +783,8 @@ def qu2ro(qu: Tensor) -> Tensor:
     Returns:
         Tensor: shape (..., 4) Rodrigues-Frank (x, y, z, tan(angle/2))
     """
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
     ro = torch.empty_like(qu)
 
     # Handle general case
@@ -792,7 +804,7 @@ def qu2ro(qu: Tensor) -> Tensor:
     ro[mask_identity, 1] = 0.0
     ro[mask_identity, 2] = 1.0
     ro[mask_identity, 3] = 0.0
-    return ro
+    return ro.reshape(batch_dim + (4,))
 
 
 @torch.jit.script
@@ -807,7 +819,9 @@ def qu2bu(qu: Tensor) -> Tensor:
         torch.Tensor: shape (..., 3) Bunge angles in radians.
     """
 
-    bu = torch.empty(qu.shape[:-1] + (3,), dtype=qu.dtype, device=qu.device)
+    batch_dim = qu.shape[:-1]
+    qu = qu.reshape(-1, 4)
+    bu = torch.empty((qu.shape[0], 3), dtype=qu.dtype, device=qu.device)
 
     q03 = qu[..., 0] ** 2 + qu[..., 3] ** 2
     q12 = qu[..., 1] ** 2 + qu[..., 2] ** 2
@@ -840,7 +854,7 @@ def qu2bu(qu: Tensor) -> Tensor:
     bu[..., 0] = torch.where(bu[..., 0] < 0, bu[..., 0] + 2 * torch.pi, bu[..., 0])
     bu[..., 2] = torch.where(bu[..., 2] < 0, bu[..., 2] + 2 * torch.pi, bu[..., 2])
 
-    return bu
+    return bu.reshape(batch_dim + (3,))
 
 
 @torch.jit.script
-- 
2.43.0


From 4798cb494f823d4496d6eb2f4abea9fcf53e53e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 08/54] fix: quaternion_rotate_sets_sphere for (anti)parallel
 points and any batch shape

---
 ebsdtorch/s2_and_so3/quaternions.py | 33 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 2f10e34..9e381fd 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -244,27 +244,26 @@ def quaternion_rotate_sets_sphere(points_start: Tensor, points_finish) -> Tensor
         The quaternions, as tensor of shape (..., 4).
 
     """
-    # determine mask for numerical stability
-    valid = torch.abs(torch.sum(points_start * points_finish, dim=-1)) < 0.999999
-    # get the cross product of the two sets of points
-    cross = torch.cross(points_start[valid], points_finish[valid], dim=-1)
     # get the dot product of the two sets of points
-    dot = torch.sum(points_start[valid] * points_finish[valid], dim=-1)
+    dot = torch.sum(points_start * points_finish, dim=-1, keepdim=True)
+    # get the cross product (of the difference, to not lose the axis to rounding)
+    diff = torch.where(dot < 0, points_finish + points_start, points_finish - points_start)
+    cross = torch.cross(points_start.expand_as(diff), diff, dim=-1)
+    norm = torch.norm(cross, dim=-1, keepdim=True)
     # get the angle
-    angle = torch.atan2(torch.norm(cross, dim=-1), dot)
-    # add tau to the angle if the cross product is negative
-    angle[angle < 0] += 2 * torch.pi
-    # set the output
-    out = torch.empty(
-        (points_start.shape[0], 4), dtype=points_start.dtype, device=points_start.device
+    angle = torch.atan2(norm, dot)
+    # where the points are (anti)parallel any perpendicular axis will do
+    x, y, z = points_start[..., 0], points_start[..., 1], points_start[..., 2]
+    perp = torch.where(
+        (torch.abs(x) < 0.9).unsqueeze(-1),
+        torch.stack((torch.zeros_like(x), z, -y), dim=-1),
+        torch.stack((-z, torch.zeros_like(x), x), dim=-1),
     )
-    out[valid, 0] = torch.cos(angle / 2)
-    out[valid, 1:] = torch.sin(angle / 2).unsqueeze(-1) * (
-        cross / torch.norm(cross, dim=-1, keepdim=True)
+    perp = perp / torch.norm(perp, dim=-1, keepdim=True)
+    axis = torch.where(norm > 1e-10, cross / norm, perp)
+    return torch.cat(
+        (torch.cos(angle / 2), torch.sin(angle / 2) * axis), dim=-1
     )
-    out[~valid, 0] = 1
-    out[~valid, 1:] = 0
-    return out
 
 
 @torch.jit.script
-- 
2.43.0


From b02982084fe78de88afa5947552b8394b10f6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 09/54] fix: qu_slerp for batches and for equal or opposite
 quaternions

---
 ebsdtorch/s2_and_so3/quaternions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/quaternions.py b/ebsdtorch/s2_and_so3/quaternions.py
index 9e381fd..00faff7 100644
--- a/ebsdtorch/s2_and_so3/quaternions.py
+++ b/ebsdtorch/s2_and_so3/quaternions.py
@@ -106,12 +106,16 @@ def qu_slerp(a: Tensor, b: Tensor, t: float) -> Tensor:
     """
     a = qu_norm(a)
     b = qu_norm(b)
-    cos_theta = torch.sum(a * b, dim=-1)
-    angle = torch.acos(cos_theta)
+    cos_theta = torch.sum(a * b, dim=-1, keepdim=True)
+    angle = torch.acos(torch.clamp(cos_theta, min=-1.0, max=1.0))
     sin_theta = torch.sin(angle)
-    w1 = torch.sin((1 - t) * angle) / sin_theta
-    w2 = torch.sin(t * angle) / sin_theta
-    return (a.unsqueeze(-1) * w1 + b.unsqueeze(-1) * w2).squeeze(-1)
+    # (nearly) the same rotation: blend linearly instead of dividing by zero
+    near = sin_theta < 1e-7
+    w1 = torch.where(near, 1 - t, torch.sin((1 - t) * angle) / sin_theta)
+    w2 = torch.where(
+        near, t * torch.sign(cos_theta), torch.sin(t * angle) / sin_theta
+    )
+    return a * w1 + b * w2
 
 
 @torch.jit.script
-- 
2.43.0


From 43277042474b2053a60c72a8e0ad1193bb681c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 10/54] fix: ori_to_fz_laue and ori_equiv_laue apply the
 operators on the crystal side

Orientations map sample to crystal directions (indexing and refinement apply
them to the detector directions before the master pattern lookup), and the
disorientation and coloring functions treat s * q as equivalent to q. The
reduction to the fundamental zone returned q * s, which describes another
orientation of the crystal.
---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2c8f401..45d0487 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -68,15 +68,16 @@ def ori_to_fz_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
+    # (the operators act on the crystal side, on the left as qu_apply maps into the crystal frame)
     equivalent_quaternions_real = qu_prod_pos_real(
-        quats.reshape(N, 1, 4), laue_group.reshape(card, 4)
+        laue_group.reshape(card, 4), quats.reshape(N, 1, 4)
     )
 
     # find the quaternion with the largest w value
     row_maximum_indices = torch.argmax(equivalent_quaternions_real, dim=-1)
 
     # gather the equivalent quaternions with the largest w value for each equivalent quaternion set
-    output = qu_prod(quats.reshape(N, 4), laue_group[row_maximum_indices])
+    output = qu_prod(laue_group[row_maximum_indices], quats.reshape(N, 4))
 
     return output.reshape(data_shape)
 
@@ -100,7 +101,7 @@ def ori_equiv_laue(quats: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(quats.dtype).to(quats.device)
 
     # reshape so that quaternions is (N, 1, 4) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_quaternions = qu_prod(quats.reshape(N, 1, 4), laue_group.reshape(-1, 4))
+    equivalent_quaternions = qu_prod(laue_group.reshape(-1, 4), quats.reshape(N, 1, 4))
 
     return equivalent_quaternions.reshape(data_shape[:-1] + (len(laue_group), 4))
 
-- 
2.43.0


From 0511a17809de74e8568c57735b52c6ef102542f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:11 +0000
Subject: [PATCH 11/54] fix: disorientation between different Laue groups
 applies each group on its own side

The misorientation quats1 * conj(quats2) changes to s1 * m * conj(s2) when the
orientations are replaced by equivalent ones, so the operators of the first
group act on the left and those of the second on the right.
---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 16 ++++++++--------
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index dcbb1b0..441d20e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -119,11 +119,11 @@ def disorientation_naive(
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -186,12 +186,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 45d0487..2cb9d66 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -386,11 +386,11 @@ def disorientation(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2: in
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quaternions = qu_prod(
-        laue_group_2.reshape(1, -1, 1, 4),
-        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_1.reshape(1, 1, -1, 4)),
+        laue_group_1.reshape(1, -1, 1, 4),
+        qu_prod(misori_quats.view(N, 1, 1, 4), laue_group_2.reshape(1, 1, -1, 4)),
     )
 
     # flatten along the laue group dimensions
@@ -453,12 +453,12 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     else:
         laue_group_2 = laue_elements(laue_id_2).to(quats2.dtype).to(quats2.device)
 
-    # pre / post mult by Laue operators of the second and first symmetry groups respectively
-    # broadcasting is done so that the output is of shape (N, |laue_group_2|, |laue_group_1|, 4)
+    # pre / post mult by Laue operators of the first and second symmetry groups respectively
+    # broadcasting is done so that the output is of shape (N, |laue_group_1|, |laue_group_2|, 4)
     equivalent_quat_pos_real = qu_triple_prod_pos_real(
-        laue_group_2.reshape(1, -1, 1, 4),
+        laue_group_1.reshape(1, -1, 1, 4),
         misori_quats.view(N, 1, 1, 4),
-        laue_group_1.reshape(1, 1, -1, 4),
+        laue_group_2.reshape(1, 1, -1, 4),
     )
 
     # flatten along the laue group dimensions
-- 
2.43.0


From 829c15d194758fb7de5e996f0ffb452299cad738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 12/54] fix: disori_angle_laue of equal orientations was NaN,
 batch shape was lost

---
 ebsdtorch/s2_and_so3/laue_fz_misori.py | 3 ++-
 ebsdtorch/s2_and_so3/laue_fz_ori.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_misori.py b/ebsdtorch/s2_and_so3/laue_fz_misori.py
index 441d20e..e586404 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_misori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_misori.py
@@ -200,4 +200,5 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    # (rounding can push the cosine of equal orientations past one)
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 2cb9d66..61b0597 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -467,7 +467,8 @@ def disori_angle_laue(quats1: Tensor, quats2: Tensor, laue_id_1: int, laue_id_2:
     # find the largest real part magnitude and return the angle
     cosine_half_angle = torch.max(equivalent_quat_pos_real, dim=-1).values
 
-    return 2.0 * torch.acos(cosine_half_angle)
+    # (rounding can push the cosine of equal orientations past one)
+    return 2.0 * torch.acos(cosine_half_angle.clamp(max=1.0)).reshape(data_shape[:-1])
 
 
 @torch.jit.script
-- 
2.43.0


From 34beec28d01fab4f0c05fce0cbaf9234ac51f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 13/54] fix: space group generators of the second origin
 setting

---
 ebsdtorch/crystallography/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index cd73d5d..10ce995 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -310,7 +310,7 @@ def read_sg_gen_string(
     # now check for special origin conditions (choices 1 and 2)
     if (gen_string[2 + 4 * gen_num] != "0") and sg_setting == 2:
         print("Special origin condition")
-        t = gen_string[2 + 4 * gen_num : (2 + 4 * gen_num) + 3]
+        t = gen_string[3 + 4 * gen_num : (3 + 4 * gen_num) + 3]
         translate_forward = torch.tensor(
             [
                 [1.0, 0.0, 0.0, -trans_map[t[0]]],
@@ -334,18 +334,18 @@ def read_sg_gen_string(
             torch.matmul(gens, translate_forward),
         )
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3]) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3]) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
-        gens[:, :, 3] = torch.fmod(1000 + gens[:, :, 3], 1.0)
+        gens[:, :3, 3] = torch.fmod(1000 + gens[:, :3, 3], 1.0)
 
-        gens[:, :, 3] = torch.where(
-            torch.abs(gens[:, :, 3] - 1.0) < eps,
-            torch.zeros_like(gens[:, :, 3]),
-            gens[:, :, 3],
+        gens[:, :3, 3] = torch.where(
+            torch.abs(gens[:, :3, 3] - 1.0) < eps,
+            torch.zeros_like(gens[:, :3, 3]),
+            gens[:, :3, 3],
         )
 
     return gens
-- 
2.43.0


From c8be64ce063f3533cb5f375daf07b164870111f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 14/54] fix: sg_operators keeps the homogeneous 1 of the Seitz
 matrices

---
 ebsdtorch/crystallography/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/groups.py b/ebsdtorch/crystallography/groups.py
index 10ce995..2448c17 100644
--- a/ebsdtorch/crystallography/groups.py
+++ b/ebsdtorch/crystallography/groups.py
@@ -473,7 +473,7 @@ def sg_operators(
                 if len(gens) >= target_ord:
                     break
 
-    gens[:, :, 3] = torch.fmod(100 + gens[:, :, 3], 1.0)
+    gens[:, :3, 3] = torch.fmod(100 + gens[:, :3, 3], 1.0)
 
     return gens
 
-- 
2.43.0


From 0a13d2f0d2c49cba7dff05932f15c381baf23a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 15/54] fix: Laue class of space groups 149 to 155 and 194

---
 ebsdtorch/utils/symmetry_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/symmetry_classes.py b/ebsdtorch/utils/symmetry_classes.py
index 2d54b12..e3f17d0 100644
--- a/ebsdtorch/utils/symmetry_classes.py
+++ b/ebsdtorch/utils/symmetry_classes.py
@@ -7,13 +7,13 @@ def space_group_to_laue(space_group: int) -> int:
         raise ValueError("The space group must be between 1 and 230 inclusive.")
     if space_group > 206:
         laue_group = 11
-    elif space_group > 193:
+    elif space_group > 194:
         laue_group = 10
     elif space_group > 176:
         laue_group = 9
     elif space_group > 167:
         laue_group = 8
-    elif space_group > 155:
+    elif space_group > 148:
         laue_group = 7
     elif space_group > 142:
         laue_group = 6
-- 
2.43.0


From 0fbda71eca269f4c5bb07519ce74e9c81828f186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 16/54] fix: point group, crystal system and Laue group of a
 Cell

---
 ebsdtorch/crystallography/kvectors.py  |  2 +-
 ebsdtorch/crystallography/unit_cell.py | 14 +++-----------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 7a9e3a9..72c8137 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -142,7 +142,7 @@ def kvectors_grid(
     sg_2nd = cell.sg_setting != 1
 
     # use hexagon-circle equal area bijection for sampling?
-    use_hex = xtal_system in [4, 5]
+    use_hex = xtal_system in [5, 6]
 
     # mapping from point group to sampling scheme (-1 for special cases)
     # 36 entries and stnum cases 11 and 13 are currently infeasible (in EMsoft)
diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index fa8e724..5ca044a 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -192,21 +192,13 @@ class Cell:
         self.sg_setting = sg_setting
 
         # automatically find the point group for the space group
-        pg_num = [i + 1 for i, sg in enumerate(sg_pg_beg) if sg_num <= sg]
-        if len(pg_num) == 0:
-            self.pg_num = 32
-        else:
-            self.pg_num = pg_num[0]
+        self.pg_num = len([sg for sg in sg_pg_beg if sg <= sg_num])
 
         # automatically find the crystal system for the space group
-        self.xtal_system = [i + 1 for i, sg in enumerate(sg_xt_beg) if sg_num <= sg]
-        if len(self.xtal_system) == 0:
-            self.xtal_system = 7
-        else:
-            self.xtal_system = self.xtal_system[0]
+        self.xtal_system = len([sg for sg in sg_xt_beg if sg <= sg_num])
 
         # automatically find the Laue group for the point group
-        self.laue_group = pg_to_laue[self.pg_num]
+        self.laue_group = pg_to_laue[self.pg_num - 1]
 
         self.a, self.b, self.c = map(
             lambda x: torch.tensor(x, device=device, dtype=torch.float64), abc
-- 
2.43.0


From 1588f6432a0b99703683fa4b69a2845fdf6209e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 17/54] fix: second structure matrix of trigonal cells takes
 the angle in radians

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 5ca044a..9c01f85 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -303,13 +303,13 @@ class Cell:
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-            x = 0.5 / torch.cos(torch.pi * 0.5 * self.alpha)
+            x = 0.5 / torch.cos(0.5 * self.alpha)
             y = torch.sqrt(1 - x * x)
             Mx = torch.tensor([[1, 0, 0], [0, x, -y], [0, y, x]], device=device).T
 
             x = (
                 2
-                * torch.sin(torch.pi * 0.5 * self.alpha)
+                * torch.sin(0.5 * self.alpha)
                 / torch.sqrt(torch.tensor(3.0, device=device))
             )
             y = torch.sqrt(1 - x * x)
-- 
2.43.0


From b0703676fec7167c28bbbb01b619e440a532ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 18/54] fix: reciprocal structure matrix is the inverse
 transpose of the direct one

---
 ebsdtorch/crystallography/unit_cell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 9c01f85..24ef376 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -298,8 +298,8 @@ class Cell:
             device=device,
         )
 
-        # 5) reciprocal structure matrix is the inverse of the direct structure matrix
-        self.rsm = torch.linalg.inv(self.dsm)
+        # 5) reciprocal structure matrix is the inverse transpose of the direct one
+        self.rsm = torch.linalg.inv(self.dsm).T
 
         # 6) trigonal/rhombohedral case need a second direct structure matrix
         if self.xtal_system == 5:
-- 
2.43.0


From 4f6da9a7c42f2ba293579980aa03312fd30455e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 19/54] fix: calc_cross returns the product in the requested
 space

---
 ebsdtorch/crystallography/unit_cell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 24ef376..749bcea 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -749,14 +749,18 @@ class Cell:
                 return torch.einsum("...i,ij->...j", r, self.rmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.rsm, r)
+            elif outspace == "r":
+                return r
         elif inspace == "r":
             r = torch.cross(p, q, dim=-1) / vl
             if outspace == "r":
                 return torch.einsum("...i,ij->...j", r, self.dmt)
             elif outspace == "c":
                 return torch.einsum("ij,...j->...i", self.dsm, r)
+            elif outspace == "d":
+                return r
         elif inspace == "c":
-            return torch.cross(p, q, dim=-1)
+            return self.transform_space(torch.cross(p, q, dim=-1), "c", outspace)
 
         raise ValueError(f"Invalid space transformation: from {inspace} to {outspace}")
 
-- 
2.43.0


From 6a07acaa2b32ff9633a5e98a293ce2fcf8510015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 20/54] fix: average atomic number and weight of a cell are
 averages over its atoms

---
 ebsdtorch/crystallography/unit_cell.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index 749bcea..a66a75d 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -353,16 +353,13 @@ class Cell:
 
         # 8) Compute average atomic number, weight and density
         self.average_atomic_number = (
-            torch.mean(
-                self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
-            )
-            / self.mults.sum()
-        )
+            self.atom_types.to(torch.float64) * self.atom_data[:, 3] * self.mults
+        ).sum() / (self.atom_data[:, 3] * self.mults).sum()
 
         a_weights = atomic_weights[self.atom_types - 1].to(self.device)
         self.average_atomic_weight = (
-            torch.mean(a_weights * self.atom_data[:, 3] * self.mults) / self.mults.sum()
-        )
+            a_weights * self.atom_data[:, 3] * self.mults
+        ).sum() / (self.atom_data[:, 3] * self.mults).sum()
 
         # Density in g/cm^3
         # self.density = self.average_atomic_weight / (self.vol * 6.02214076e2)
-- 
2.43.0


From 39a92c7dac10a02cc4d51e0e797c7997cbc0f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 21/54] fix: reflection list keeps the outermost indices, drops
 000, covers oblique cells

---
 ebsdtorch/crystallography/unit_cell.py | 101 +++++--------------------
 1 file changed, 17 insertions(+), 84 deletions(-)

diff --git a/ebsdtorch/crystallography/unit_cell.py b/ebsdtorch/crystallography/unit_cell.py
index a66a75d..00a0bc4 100644
--- a/ebsdtorch/crystallography/unit_cell.py
+++ b/ebsdtorch/crystallography/unit_cell.py
@@ -861,44 +861,11 @@ class Cell:
         Returns:
             Tuple[int, int, int]: Maximum h, k, and l indices
         """
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # h = g.a so |h| <= |g||a| (equality is reached only along the axes of an
+        # orthogonal cell, the axial spacings alone are too small for oblique cells)
+        max_h, max_k, max_l = [
+            int(torch.floor(x / dmin + 1e-9).item()) for x in (self.a, self.b, self.c)
+        ]
 
         return max_h, max_k, max_l
 
@@ -927,54 +894,18 @@ class Cell:
         else:
             filter_dmin = True
 
-        # First find approximate max indices along principal directions
-        test_range = torch.arange(1, 100, device=self.device, dtype=torch.int64)
-
-        # Test vectors along each axis
-        h_vec = torch.stack(
-            [test_range, torch.zeros_like(test_range), torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        k_vec = torch.stack(
-            [torch.zeros_like(test_range), test_range, torch.zeros_like(test_range)],
-            dim=-1,
-        )
-        l_vec = torch.stack(
-            [torch.zeros_like(test_range), torch.zeros_like(test_range), test_range],
-            dim=-1,
-        )
-
-        # Calculate d-spacings for axial reflections
-        d_h = 1.0 / self.calc_length(h_vec, "r")
-        d_k = 1.0 / self.calc_length(k_vec, "r")
-        d_l = 1.0 / self.calc_length(l_vec, "r")
-
-        # Find maximum index needed for each axis
-        max_h = (
-            torch.nonzero(d_h < dmin)[0].item()
-            if len(torch.nonzero(d_h < dmin)) > 0
-            else len(test_range)
-        )
-        max_k = (
-            torch.nonzero(d_k < dmin)[0].item()
-            if len(torch.nonzero(d_k < dmin)) > 0
-            else len(test_range)
-        )
-        max_l = (
-            torch.nonzero(d_l < dmin)[0].item()
-            if len(torch.nonzero(d_l < dmin)) > 0
-            else len(test_range)
-        )
+        # largest index along each axis
+        max_h, max_k, max_l = self.get_hkl_limits(dmin)
 
         if difference_table:  # differences of hkl (quadruple the size)
             h = torch.arange(
-                -2 * max_h + 1, 2 * max_h, device=self.device, dtype=torch.int64
+                -2 * max_h, 2 * max_h + 1, device=self.device, dtype=torch.int64
             )
             k = torch.arange(
-                -2 * max_k + 1, 2 * max_k, device=self.device, dtype=torch.int64
+                -2 * max_k, 2 * max_k + 1, device=self.device, dtype=torch.int64
             )
             l = torch.arange(
-                -2 * max_l + 1, 2 * max_l, device=self.device, dtype=torch.int64
+                -2 * max_l, 2 * max_l + 1, device=self.device, dtype=torch.int64
             )
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
@@ -983,12 +914,14 @@ class Cell:
             hkl = hkl[(hkl != 0).any(dim=-1)]
         else:  # normal reflection table
             # Create grid of h,k,l indices
-            h = torch.arange(-max_h + 1, max_h, device=self.device, dtype=torch.int64)
-            k = torch.arange(-max_k + 1, max_k, device=self.device, dtype=torch.int64)
-            l = torch.arange(-max_l + 1, max_l, device=self.device, dtype=torch.int64)
+            h = torch.arange(-max_h, max_h + 1, device=self.device, dtype=torch.int64)
+            k = torch.arange(-max_k, max_k + 1, device=self.device, dtype=torch.int64)
+            l = torch.arange(-max_l, max_l + 1, device=self.device, dtype=torch.int64)
             hh, kk, ll = torch.meshgrid(h, k, l, indexing="ij")
             # Stack into vectors
-            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)[1:]  # remove (0,0,0)
+            hkl = torch.stack([hh, kk, ll], dim=-1).reshape(-1, 3)
+            # remove (0,0,0)
+            hkl = hkl[(hkl != 0).any(dim=-1)]
 
         if filter_centering:
             # Check if reflections are allowed by lattice centering
@@ -1001,7 +934,7 @@ class Cell:
             d_hkl = 1.0 / self.calc_length(hkl.reshape(-1, 3), "r")
 
             # Find maximum needed indices where d-spacing ≥ dmin (all in nm)
-            valid = d_hkl > dmin
+            valid = d_hkl >= dmin
 
             # return the (N,3) tensor of hkl that adhere to the dmin
             hkl = hkl[valid]
-- 
2.43.0


From 3fde269cde4ddbd6de6cdfa1f317c70e9c8dd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 22/54] fix: inverse square projections map the centre to the
 pole and take a single point

---
 ebsdtorch/crystallography/kvectors.py | 15 ++++++---------
 ebsdtorch/s2_and_so3/sphere.py        |  7 +++++--
 ebsdtorch/utils/rosca_lambert.py      | 15 ++++++++++-----
 3 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 72c8137..5688e86 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -25,16 +25,19 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     x_new = torch.where(swap, x_abs, y_abs)
     y_new = torch.where(swap, y_abs, x_abs)
 
+    # the centre has x = y = 0, which would be 0 / 0
+    ratio = y_new / torch.where(x_new > 0, x_new, torch.ones_like(x_new))
+
     # only one case now
     x_hs = (
         (2 * x_new / torch.pi)
         * torch.sqrt(torch.pi - x_new**2)
-        * torch.cos(torch.pi * y_new / (4 * x_new))
+        * torch.cos(torch.pi * ratio / 4)
     )
     y_hs = (
         (2 * x_new / torch.pi)
         * torch.sqrt(torch.pi - x_new**2)
-        * torch.sin(torch.pi * y_new / (4 * x_new))
+        * torch.sin(torch.pi * ratio / 4)
     )
     z_out = 1 - (2 * x_new**2 / torch.pi)
 
@@ -44,13 +47,7 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 0])
     y_out = y_out.copysign_(pts[..., 1])
 
-    out = torch.stack((x_out, y_out, z_out), dim=-1)
-
-    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
-    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
-
-    return out
+    return torch.stack((x_out, y_out, z_out), dim=-1)
 
 
 @torch.jit.script
diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 81b14cb..2e0931f 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -120,16 +120,19 @@ def inv_rosca_lambert(pts: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the centre has x = y = 0, which would be 0 / 0
+    ratio = y_new / torch.where(x_new > 0, x_new, torch.ones_like(x_new))
+
     # only one case now
     x_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
+        * torch.cos(pi * ratio / 4)
     )
     y_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
+        * torch.sin(pi * ratio / 4)
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index 123528d..f1d1d90 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -20,21 +20,23 @@ def square_to_hemisphere(pts: Tensor) -> Tensor:
     # get shape of input
     shape_in = pts.shape[:-1]
     n_pts = int(torch.prod(torch.tensor(shape_in)))
-    pts = pts.view(-1, 2)
+    pts = pts.reshape(-1, 2)
     pi = torch.pi
     a = pts[:, 0] * (pi / 2) ** 0.5
     b = pts[:, 1] * (pi / 2) ** 0.5
     m = torch.abs(b) <= torch.abs(a)
+    # the centre has a = b = 0, which would be 0 / 0
+    a_den = torch.where(a == 0, torch.ones_like(a), a)
     output = torch.empty((n_pts, 3), dtype=pts.dtype, device=pts.device)
     output[m, 0] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.cos((pi * b[m]) / (4 * a[m]))
+        * torch.cos((pi * b[m]) / (4 * a_den[m]))
     )
     output[m, 1] = (
         (2 * a[m] / pi)
         * torch.sqrt(pi - a[m] ** 2)
-        * torch.sin((pi * b[m]) / (4 * a[m]))
+        * torch.sin((pi * b[m]) / (4 * a_den[m]))
     )
     output[m, 2] = 1 - (2 * a[m] ** 2 / pi)
     output[~m, 0] = (
@@ -79,16 +81,19 @@ def square_to_hemisphere_v2(x: Tensor) -> Tensor:
     x_new = torch.where(cond, x_abs, y_abs)
     y_new = torch.where(cond, y_abs, x_abs)
 
+    # the centre has x = y = 0, which would be 0 / 0
+    ratio = y_new / torch.where(x_new > 0, x_new, torch.ones_like(x_new))
+
     # only one case now
     x_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.cos(pi * y_new / (4 * x_new))
+        * torch.cos(pi * ratio / 4)
     )
     y_hs = (
         (2 * x_new / pi)
         * torch.sqrt(pi - x_new**2)
-        * torch.sin(pi * y_new / (4 * x_new))
+        * torch.sin(pi * ratio / 4)
     )
     z_out = 1 - (2 * x_new**2 / pi)
 
-- 
2.43.0


From 746850a19eda33559299edb22b4b3e9a4319c887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 23/54] fix: hexagon_to_hemisphere returns points of the unit
 sphere

---
 ebsdtorch/crystallography/kvectors.py | 16 +++++++---------
 ebsdtorch/utils/rosca_lambert.py      | 10 +++++++---
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/ebsdtorch/crystallography/kvectors.py b/ebsdtorch/crystallography/kvectors.py
index 5688e86..a15b730 100644
--- a/ebsdtorch/crystallography/kvectors.py
+++ b/ebsdtorch/crystallography/kvectors.py
@@ -87,7 +87,9 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / torch.pi) ** 0.5) * x_new
-    trig_arg = (y_new * torch.pi) / (2.0 * (3.0**0.5) * x_new)
+    # (the centre has x = y = 0, which would be 0 / 0)
+    ratio = y_new / torch.where(x_new > 0, x_new, torch.ones_like(x_new))
+    trig_arg = (ratio * torch.pi) / (2.0 * (3.0**0.5))
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
@@ -99,14 +101,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * torch.pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    out = torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
-
-    # make sure (0, 0) is mapped to (0, 0, 1) instead of nans
-    mask = (pts[..., 0] == 0) & (pts[..., 1] == 0)
-    out[mask] = torch.tensor([0.0, 0.0, 1.0], device=pts.device, dtype=pts.dtype)
-
-    return out
+    # lift the disk to the hemisphere (Lambert azimuthal), undo original swap
+    r2 = x_out**2 + y_out**2
+    lift = torch.sqrt(2.0 - r2)
+    return torch.stack((y_out * lift, x_out * lift, 1.0 - r2), dim=-1)
 
 
 def kvectors_grid(
diff --git a/ebsdtorch/utils/rosca_lambert.py b/ebsdtorch/utils/rosca_lambert.py
index f1d1d90..11397e4 100644
--- a/ebsdtorch/utils/rosca_lambert.py
+++ b/ebsdtorch/utils/rosca_lambert.py
@@ -206,7 +206,9 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
 
     # I_0 sextant equal-area bijection having swapped x & y
     factor = (3.0**0.25) * ((2.0 / pi) ** 0.5) * x_new
-    trig_arg = (y_new * pi) / (2.0 * (3.0**0.5) * x_new)
+    # (the centre has x = y = 0, which would be 0 / 0)
+    ratio = y_new / torch.where(x_new > 0, x_new, torch.ones_like(x_new))
+    trig_arg = (ratio * pi) / (2.0 * (3.0**0.5))
     x_hs = factor * torch.cos(trig_arg)
     y_hs = factor * torch.sin(trig_arg)
 
@@ -218,8 +220,10 @@ def hexagon_to_hemisphere(pts: Tensor) -> Tensor:
     x_out = x_out.copysign_(pts[..., 1]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
     y_out = y_out.copysign_(pts[..., 0]) / ((3 * 3**0.5 / (2 * pi)) ** 0.5)
 
-    # undo original swap and compute the z coordinate on the hemisphere
-    return torch.stack((y_out, x_out, 1.0 - x_out**2 - y_out**2), dim=-1)
+    # lift the disk to the hemisphere (Lambert azimuthal), undo original swap
+    r2 = x_out**2 + y_out**2
+    lift = torch.sqrt(2.0 - r2)
+    return torch.stack((y_out * lift, x_out * lift, 1.0 - r2), dim=-1)
 
 
 # import matplotlib.pyplot as plt
-- 
2.43.0


From ada0ce8209a39d37887e52f76ecf6ca9c7463dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 24/54] fix: spherical and Cartesian conversions are inverse
 for every batch shape

---
 ebsdtorch/s2_and_so3/sphere.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/sphere.py b/ebsdtorch/s2_and_so3/sphere.py
index 2e0931f..349a5eb 100644
--- a/ebsdtorch/s2_and_so3/sphere.py
+++ b/ebsdtorch/s2_and_so3/sphere.py
@@ -19,8 +19,8 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
     Convert spherical coordinates to cartesian coordinates.
 
     Args:
-        theta (Tensor): shape (..., ) of polar declination angles
-        phi (Tensor): shape (..., ) of azimuthal angles
+        theta (Tensor): shape (..., ) of azimuthal angles
+        phi (Tensor): shape (..., ) of polar declination angles
 
     Returns:
         Tensor: torch tensor of shape (..., 3) containing the cartesian
@@ -32,29 +32,29 @@ def theta_phi_to_xyz(theta: Tensor, phi: Tensor) -> Tensor:
             torch.sin(theta) * torch.sin(phi),
             torch.cos(phi),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
 @torch.jit.script
 def xyz_to_theta_phi(xyz: Tensor) -> Tensor:
     """
-    Convert cartesian coordinates to latitude and longitude.
+    Convert cartesian coordinates to spherical ones (inverse of theta_phi_to_xyz).
 
     Args:
         xyz (Tensor): torch tensor of shape (..., 3) of cartesian coordinates
 
     Returns:
-        Tensor: torch tensor of shape (..., 2) of declination from z-axis and
-        azimuthal angle
+        Tensor: torch tensor of shape (..., 2) of azimuthal angle (theta) and
+        declination from z-axis (phi)
 
     """
     return torch.stack(
         (
-            torch.atan2(torch.norm(xyz[:, :2], dim=1), xyz[:, 2]),
-            torch.atan2(xyz[:, 1], xyz[:, 0]),
+            torch.atan2(xyz[..., 1], xyz[..., 0]),
+            torch.atan2(torch.norm(xyz[..., :2], dim=-1), xyz[..., 2]),
         ),
-        dim=1,
+        dim=-1,
     )
 
 
-- 
2.43.0


From 8d5f76aeec86b84a2de8fa6811ff4d232f85ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 25/54] fix: bruker_geometry_from_SE3 recovers the sign of the
 tilts and leaves its input alone

---
 ebsdtorch/ebsd/fitting.py  | 7 +++----
 ebsdtorch/ebsd/geometry.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 3b48cdd..516fce4 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -133,10 +133,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # atan2 keeps the sign of the tilts (acos would lose it)
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index e8f77db..3a3b530 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -113,10 +113,9 @@ def bruker_geometry_from_SE3(
     rows, cols = detector_shape
     rows, cols = float(rows), float(cols)
 
-    cos_sx = rotation_matrix[..., 1, 1]
-    cos_dt_minus_sy = rotation_matrix[..., 0, 2] / cos_sx
-    dt_minus_sy = torch.acos(cos_dt_minus_sy.clamp_(min=-1, max=1))
-    sx = torch.acos(cos_sx.clamp_(min=-1, max=1))
+    # atan2 keeps the sign of the tilts (acos would lose it)
+    dt_minus_sy = torch.atan2(-rotation_matrix[..., 0, 0], -rotation_matrix[..., 2, 0])
+    sx = torch.atan2(rotation_matrix[..., 1, 2], rotation_matrix[..., 1, 1])
 
     pcx = (
         tx * torch.sin(sx) * torch.cos(dt_minus_sy)
-- 
2.43.0


From c53b07f5e055a41446b9e19dd1b52c6b8232ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:03 +0000
Subject: [PATCH 26/54] fix: pixel coordinates are the centres of the (binned)
 pixels

---
 ebsdtorch/ebsd/fitting.py        | 18 ++++++++++++------
 ebsdtorch/ebsd/geometry.py       |  4 ++--
 ebsdtorch/ebsd/project_hrebsd.py |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/ebsdtorch/ebsd/fitting.py b/ebsdtorch/ebsd/fitting.py
index 516fce4..c1aa875 100644
--- a/ebsdtorch/ebsd/fitting.py
+++ b/ebsdtorch/ebsd/fitting.py
@@ -190,14 +190,14 @@ def get_3D_pixel_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
@@ -257,15 +257,21 @@ def get_3D_pixel_coords_with_periphery(
     pixel_coordinates = torch.stack(
         torch.meshgrid(
             torch.linspace(
-                0.5 * (binning_fp - 1) - h_pad_prior,
-                detector_shape[0] + h_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - h_pad_prior * binning_fp,
+                detector_shape[0]
+                - 1
+                + h_pad_after * binning_fp
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,
             ),
             torch.linspace(
-                0.5 * (binning_fp - 1) - w_pad_prior,
-                detector_shape[1] + w_pad_after - (0.5 * (binning_fp - 1)),
+                0.5 * (binning_fp - 1) - w_pad_prior * binning_fp,
+                detector_shape[1]
+                - 1
+                + w_pad_after * binning_fp
+                - (0.5 * (binning_fp - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,
diff --git a/ebsdtorch/ebsd/geometry.py b/ebsdtorch/ebsd/geometry.py
index 3a3b530..4432d19 100644
--- a/ebsdtorch/ebsd/geometry.py
+++ b/ebsdtorch/ebsd/geometry.py
@@ -482,14 +482,14 @@ class EBSDGeometry(Module):
             torch.meshgrid(
                 torch.linspace(
                     0.5 * (binning_fp[0] - 1),
-                    self.detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                    self.detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                     binned_shape[0],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
                 ),
                 torch.linspace(
                     0.5 * (binning_fp[1] - 1),
-                    self.detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                    self.detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                     binned_shape[1],
                     dtype=dtype,
                     device=self.pc_SE3_matrix.device,  # is always on model device
diff --git a/ebsdtorch/ebsd/project_hrebsd.py b/ebsdtorch/ebsd/project_hrebsd.py
index 0ffb98b..c92f9b1 100644
--- a/ebsdtorch/ebsd/project_hrebsd.py
+++ b/ebsdtorch/ebsd/project_hrebsd.py
@@ -60,14 +60,14 @@ def hrebsd_coords(
         torch.meshgrid(
             torch.linspace(
                 0.5 * (binning_fp[0] - 1),
-                detector_shape[0] - (0.5 * (binning_fp[0] - 1)),
+                detector_shape[0] - 1 - (0.5 * (binning_fp[0] - 1)),
                 binned_shape[0],
                 dtype=dtype,
                 device=device,  # is always on model device
             ),
             torch.linspace(
                 0.5 * (binning_fp[1] - 1),
-                detector_shape[1] - (0.5 * (binning_fp[1] - 1)),
+                detector_shape[1] - 1 - (0.5 * (binning_fp[1] - 1)),
                 binned_shape[1],
                 dtype=dtype,
                 device=device,  # is always on model device
-- 
2.43.0


From df0753d97c8d2ce3e48c109210a82f85368d299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 27/54] fix: SE(3) maps accept any batch rank and
 non-contiguous input

---
 ebsdtorch/lie_algebra/se3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ebsdtorch/lie_algebra/se3.py b/ebsdtorch/lie_algebra/se3.py
index d304a75..7df6583 100644
--- a/ebsdtorch/lie_algebra/se3.py
+++ b/ebsdtorch/lie_algebra/se3.py
@@ -89,12 +89,12 @@ def skew(omega: Tensor) -> Tensor:
     data_shape = omega.shape[:-1]
     data_n = int(torch.prod(torch.tensor(data_shape)))
     out = torch.zeros((data_n, 3, 3), dtype=omega.dtype, device=omega.device)
-    out[..., 0, 1] = -omega[..., 2].view(-1)
-    out[..., 0, 2] = omega[..., 1].view(-1)
-    out[..., 1, 2] = -omega[..., 0].view(-1)
-    out[..., 1, 0] = omega[..., 2].view(-1)
-    out[..., 2, 0] = -omega[..., 1].view(-1)
-    out[..., 2, 1] = omega[..., 0].view(-1)
+    out[..., 0, 1] = -omega[..., 2].reshape(-1)
+    out[..., 0, 2] = omega[..., 1].reshape(-1)
+    out[..., 1, 2] = -omega[..., 0].reshape(-1)
+    out[..., 1, 0] = omega[..., 2].reshape(-1)
+    out[..., 2, 0] = -omega[..., 1].reshape(-1)
+    out[..., 2, 1] = omega[..., 0].reshape(-1)
     return out.view(data_shape + (3, 3))
 
 
@@ -435,7 +435,7 @@ def se3_log_map_om(se3: Tensor) -> Tensor:
     omegas[..., 1] = se3[..., 0, 2] - se3[..., 2, 0]
     omegas[..., 2] = se3[..., 1, 0] - se3[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tvecs = torch.matmul(v_inv, se3[..., :3, 3][..., None]).view(data_shape + (3,))
@@ -476,7 +476,7 @@ def se3_log_map_split(R: Tensor, tvec: Tensor) -> Tensor:
     omegas[..., 1] = R[..., 0, 2] - R[..., 2, 0]
     omegas[..., 2] = R[..., 1, 0] - R[..., 0, 1]
     factor = torch.where(stable, 0.5 * theta / torch.sin(theta), 0.5)
-    omegas = factor[:, None] * omegas
+    omegas = factor[..., None] * omegas
 
     v_inv = w_to_v_inv(omegas)
     tau = torch.matmul(v_inv, tvec[..., None]).view(data_shape + (3,))
-- 
2.43.0


From 91857c4f82f6c4296d6bf563d6489d0059b1bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 28/54] fix: an empty batch leaves the online covariance
 unchanged

---
 ebsdtorch/utils/pca_covmat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebsdtorch/utils/pca_covmat.py b/ebsdtorch/utils/pca_covmat.py
index a79f621..261e154 100644
--- a/ebsdtorch/utils/pca_covmat.py
+++ b/ebsdtorch/utils/pca_covmat.py
@@ -127,6 +127,10 @@ class OnlineCovMatrix(torch.nn.Module):
         Returns:
             None
         """
+        # an empty batch holds no observations (its mean is undefined)
+        if x.shape[0] == 0:
+            return
+
         # update the covariance matrix
         update_covmat(self.covmat_aggregate, self.obs, self.mean, x, self.delta_dtype)
 
-- 
2.43.0


From 07c3d90cbccdaf9fe3b5dc174da951414a96ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 29/54] fix: allow data chunks smaller than topk in ChunkedKNN

---
 ebsdtorch/utils/knn.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index a630995..b4154a7 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -68,12 +68,16 @@ def quant_model_query(query: Tensor) -> Module:
 
 
 def topk_quantized_data(query_batch: Tensor, quantized_data: Module, k: int) -> Tensor:
-    res = torch.topk(quantized_data(query_batch), k, dim=1, largest=True, sorted=False)
+    scores = quantized_data(query_batch)
+    k = min(k, scores.shape[1])
+    res = torch.topk(scores, k, dim=1, largest=True, sorted=False)
     return res.values, res.indices
 
 
 def topk_quantized_query(data_batch: Tensor, quantized_query: Module, k: int) -> Tensor:
-    res = torch.topk(quantized_query(data_batch), k, dim=0, largest=True, sorted=False)
+    scores = quantized_query(data_batch)
+    k = min(k, scores.shape[0])
+    res = torch.topk(scores, k, dim=0, largest=True, sorted=False)
     return res.values.t(), res.indices.t()
 
 
@@ -98,7 +102,7 @@ def knn_batch(
     else:
         raise NotImplementedError(f"'{metric}' not supported.")
     topk_distances, topk_indices = torch.topk(
-        dist, topk, dim=1, largest=lgst, sorted=False
+        dist, min(topk, data.shape[0]), dim=1, largest=lgst, sorted=False
     )
     return topk_distances, topk_indices
 
-- 
2.43.0


From 0f7829d273073489a469f06650a7bdde82e30a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:30 +0000
Subject: [PATCH 30/54] fix: quantized ChunkedKNN ignored the distance metric

---
 ebsdtorch/utils/knn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index b4154a7..cb3f00c 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -136,6 +136,9 @@ class ChunkedKNN:
         self.match_device = match_device
         self.distance_metric = distance_metric
 
+        # the quantized matrix product only gives the angular metric
+        quantized_via_ao = quantized_via_ao and distance_metric == "angular"
+
         if (
             quantized_via_ao
             and match_dtype != torch.float32
-- 
2.43.0


From c54a83070a387d4c4a78059539d16680023370bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 31/54] fix: ChunkedKNN indices of large dictionaries
 overflowed int32

---
 ebsdtorch/utils/knn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/knn.py b/ebsdtorch/utils/knn.py
index cb3f00c..2557e6a 100644
--- a/ebsdtorch/utils/knn.py
+++ b/ebsdtorch/utils/knn.py
@@ -153,9 +153,8 @@ class ChunkedKNN:
         self.quantized = quantized_via_ao
 
         self.big_better = self.distance_metric == "angular"
-        ind_dtype = torch.int64 if self.data_size < 2**31 else torch.int32
         self.knn_indices = torch.empty(
-            (self.query_size, self.topk), device=self.match_device, dtype=ind_dtype
+            (self.query_size, self.topk), device=self.match_device, dtype=torch.int64
         )
         self.knn_distances = torch.full(
             (self.query_size, self.topk),
-- 
2.43.0


From f09e9d25860da4ed161d129074082295c36d98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 32/54] fix: combining the indexing results of several phases

---
 ebsdtorch/ebsd/experiment_pats.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ebsdtorch/ebsd/experiment_pats.py b/ebsdtorch/ebsd/experiment_pats.py
index 0d0e4ae..f7204ac 100644
--- a/ebsdtorch/ebsd/experiment_pats.py
+++ b/ebsdtorch/ebsd/experiment_pats.py
@@ -416,9 +416,9 @@ class ExperimentPatterns(Module):
 
             # make a phase_id tensor
             phase_ids = torch.full(
-                self.n_patterns,
+                (self.n_patterns,),
                 fill_value=-1,
-                dtype=torch.uint8,
+                dtype=torch.int64,
                 device=self.patterns.device,
             )
 
@@ -430,6 +430,11 @@ class ExperimentPatterns(Module):
             )
 
             for phase_id, (quaternions, metrics) in self.raw_indexing_results.items():
+                # matches are sorted best first: compare the top match of each phase
+                quaternions = quaternions.reshape(self.n_patterns, -1, 4)[:, 0]
+                metrics = metrics.reshape(self.n_patterns, -1)[:, 0]
+                quaternions = quaternions.to(orientations)
+                metrics = metrics.to(best_metrics)
                 if higher_is_better:
                     mask = metrics > best_metrics
                 else:
@@ -441,11 +446,14 @@ class ExperimentPatterns(Module):
             self.orientations = orientations
             self.best_metrics = best_metrics
         else:
+            phase_id, (quaternions, metrics) = next(
+                iter(self.raw_indexing_results.items())
+            )
             self.phases = torch.full(
                 (self.n_patterns,),
-                fill_value=list(self.raw_indexing_results.keys())[0],
-                dtype=torch.uint8,
+                fill_value=phase_id,
+                dtype=torch.int64,
                 device=self.patterns.device,
             )
-            self.orientations = self.raw_indexing_results[0][0][:, 0]
-            self.best_metrics = self.raw_indexing_results[0][1][:, 0]
+            self.orientations = quaternions.reshape(self.n_patterns, -1, 4)[:, 0]
+            self.best_metrics = metrics.reshape(self.n_patterns, -1)[:, 0]
-- 
2.43.0


From c233ee5ce18648a47b04c61e8e82679582ade223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 33/54] fix: joint histogram index in mutual_information

---
 ebsdtorch/utils/mutual_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index c3f967f..d6f17bc 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -48,7 +48,7 @@ def mutual_information(
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
 
-    joint_bin = a_bin * (n_bins - 1) + b_bin
+    joint_bin = a_bin * n_bins + b_bin
 
     # get the histogram
     if B1 == B2:
-- 
2.43.0


From f2f9ad1d79f7421e032d7cf6b26ff1e27c508dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 34/54] fix: mutual_information of a constant image

---
 ebsdtorch/utils/mutual_information.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index d6f17bc..cd103d9 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -42,8 +42,13 @@ def mutual_information(
     b_maxvals = b.max(dim=-1, keepdim=True).values
 
     if normalize:
-        a_bin = ((a - a_minvals) / (a_maxvals - a_minvals) * n_bins * 0.999999).long()
-        b_bin = ((b - b_minvals) / (b_maxvals - b_minvals) * n_bins * 0.999999).long()
+        # a constant image has no range: all of its pixels fall in the first bin
+        a_range = a_maxvals - a_minvals
+        b_range = b_maxvals - b_minvals
+        a_range = torch.where(a_range > 0, a_range, torch.ones_like(a_range))
+        b_range = torch.where(b_range > 0, b_range, torch.ones_like(b_range))
+        a_bin = ((a - a_minvals) / a_range * n_bins * 0.999999).long()
+        b_bin = ((b - b_minvals) / b_range * n_bins * 0.999999).long()
     else:
         a_bin = (a * n_bins * 0.999999).long()
         b_bin = (b * n_bins * 0.999999).long()
-- 
2.43.0


From d7aa8ab6c14fb8bfb88a43f4ae76be39e6dbd4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:49 +0000
Subject: [PATCH 35/54] fix: binned_nmi put values of exactly 1 in another row
 of the histogram

---
 ebsdtorch/utils/mutual_information.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/utils/mutual_information.py b/ebsdtorch/utils/mutual_information.py
index cd103d9..991c173 100644
--- a/ebsdtorch/utils/mutual_information.py
+++ b/ebsdtorch/utils/mutual_information.py
@@ -178,8 +178,9 @@ def binned_nmi(
     x = x.view(-1)
     y = y.view(-1)
 
-    x_binned = torch.floor(x * binsx)
-    y_binned = torch.floor(y * binsy)
+    # a value of exactly 1 belongs to the last bin
+    x_binned = torch.floor(x * binsx).clamp(max=binsx - 1)
+    y_binned = torch.floor(y * binsy).clamp(max=binsy - 1)
 
     # Create a combined variable for 1D histogram
     xy_combined = x_binned * binsy + y_binned
-- 
2.43.0


From 8ce155950bbb4c0538f27a0103f1676d782d11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 36/54] fix: binning the master pattern mixed its hemispheres

---
 ebsdtorch/ebsd/master_pattern.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b3d50cf..4deda7e 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -108,9 +108,17 @@ class MasterPattern(Module):
         # )
         # self.master_pattern_binned = blurrer(self.master_pattern[None, None, ...])[0, 0]
 
-        self.master_pattern_binned = torch.nn.functional.avg_pool2d(
-            self.master_pattern[None, None, ...], binning_factor, stride=binning_factor
-        )[0, 0]
+        # bin each hemisphere on its own: no bin may hold pixels of both, and the
+        # bins must span the whole hemisphere when the factor does not divide it
+        hemispheres = torch.stack(self.master_pattern.chunk(2, dim=-1), dim=0)
+        binned = torch.nn.functional.adaptive_avg_pool2d(
+            hemispheres,
+            (
+                int(hemispheres.shape[-2] // binning_factor),
+                int(hemispheres.shape[-1] // binning_factor),
+            ),
+        )
+        self.master_pattern_binned = torch.cat((binned[0], binned[1]), dim=-1)
 
     def normalize(
         self,
-- 
2.43.0


From 8ae2b9a9da5be2243ffdb5ae718f0c2139c6a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 37/54] fix: virtual binning of the master pattern reused a
 stale binned pattern

---
 ebsdtorch/ebsd/master_pattern.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index 4deda7e..b2bece6 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -89,6 +89,7 @@ class MasterPattern(Module):
 
         self.master_pattern = master_pattern
         self.master_pattern_binned = None
+        self.binning_factor = None
         self.factor_dict = {}
 
     def bin(
@@ -118,6 +119,7 @@ class MasterPattern(Module):
                 int(hemispheres.shape[-1] // binning_factor),
             ),
         )
+        self.binning_factor = binning_factor
         self.master_pattern_binned = torch.cat((binned[0], binned[1]), dim=-1)
 
     def normalize(
@@ -131,6 +133,9 @@ class MasterPattern(Module):
             :norm_type (str): Normalization type: "minmax", "zeromean", "standard"
 
         """
+        # the binned pattern no longer matches
+        self.master_pattern_binned = None
+
         if norm_type == "minmax":
             pat_mins = torch.min(self.master_pattern)
             pat_maxs = torch.max(self.master_pattern)
@@ -176,7 +181,10 @@ class MasterPattern(Module):
 
         # blur the master pattern if virtual binning is used
         if virtual_binning > 1:
-            if self.master_pattern_binned is None:
+            if (
+                self.master_pattern_binned is None
+                or self.binning_factor != virtual_binning
+            ):
                 self.bin(virtual_binning)
             master_pattern_prep = self.master_pattern_binned
         else:
@@ -231,6 +239,9 @@ class MasterPattern(Module):
             :grid_shape (Tuple[int, int]): The shape of the grid to divide the image into.
 
         """
+        # the binned pattern no longer matches
+        self.master_pattern_binned = None
+
         self.master_pattern = clahe_grayscale(
             self.master_pattern[None, None, ...],
             clip_limit=clip_limit,
-- 
2.43.0


From 35fc92830f9c69d1356580a1e2a4fbd8801790e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:36 +0000
Subject: [PATCH 38/54] fix: interpolating near the equator mixed the master
 pattern's hemispheres

---
 ebsdtorch/ebsd/master_pattern.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/ebsd/master_pattern.py b/ebsdtorch/ebsd/master_pattern.py
index b2bece6..25d3af3 100644
--- a/ebsdtorch/ebsd/master_pattern.py
+++ b/ebsdtorch/ebsd/master_pattern.py
@@ -14,7 +14,7 @@ from ebsdtorch.utils.symmetry_classes import (
     space_group_to_laue,
     point_group_to_laue,
 )
-from ebsdtorch.s2_and_so3.sphere import rosca_lambert_side_by_side
+from ebsdtorch.s2_and_so3.sphere import rosca_lambert
 from ebsdtorch.utils.factorize import nearly_square_factors
 from ebsdtorch.preprocessing.clahe import clahe_grayscale
 
@@ -190,8 +190,27 @@ class MasterPattern(Module):
         else:
             master_pattern_prep = self.master_pattern
 
-        # project to the square [-1, 1] x [-1, 1]
-        projected_coords_2D = rosca_lambert_side_by_side(coords_3D)
+        # project to the square [-1, 1] x [-1, 1] of each point's own hemisphere
+        projected_coords_2D = rosca_lambert(coords_3D)
+
+        # find the pixel column in the hemisphere. The hemispheres touch in the image but
+        # not on the sphere, so do not interpolate past the last column of either one
+        n_cols = master_pattern_prep.shape[-1] // 2
+        if align_corners:
+            cols = (projected_coords_2D[..., 0] + 1.0) * 0.5 * (n_cols - 1)
+        else:
+            cols = (projected_coords_2D[..., 0] + 1.0) * 0.5 * n_cols - 0.5
+        cols = torch.clamp(cols, 0, n_cols - 1)
+
+        # the southern hemisphere is to the right of the northern one
+        cols = torch.where(coords_3D[..., 2] < 0, cols + n_cols, cols)
+
+        # pixel column to the [-1, 1] of the whole image
+        if align_corners:
+            cols = cols * (2.0 / (2 * n_cols - 1)) - 1.0
+        else:
+            cols = (cols + 0.5) / n_cols - 1.0
+        projected_coords_2D = torch.stack((cols, projected_coords_2D[..., 1]), dim=-1)
 
         # we want to accept a generic number of dimensions (..., 2)
         # grid_sample will perform extremely poorly when given grid shaped:
-- 
2.43.0


From d088bf73914615f3073926b0203bbf34859d960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 39/54] fix: Laue group elements only had float32 accuracy

---
 ebsdtorch/s2_and_so3/laue_generators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_generators.py b/ebsdtorch/s2_and_so3/laue_generators.py
index 6db1466..0bc6483 100644
--- a/ebsdtorch/s2_and_so3/laue_generators.py
+++ b/ebsdtorch/s2_and_so3/laue_generators.py
@@ -246,4 +246,7 @@ def laue_elements(laue_id: int) -> Tensor:
         LAUE_O,  #  11 - Cubic high
     ]
 
-    return LAUE_GROUPS[laue_id - 1]
+    # torch.jit.script fills the tables with float32 values. All of the components are
+    # the square root of an integer over two, which gives the float64 values
+    elements = LAUE_GROUPS[laue_id - 1]
+    return torch.sign(elements) * torch.sqrt(torch.round(4.0 * elements**2)) / 2.0
-- 
2.43.0


From 8627d9188c71479b0d4789a20e6ef978f94f7a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 40/54] fix: poles and boundary points were outside of the S2
 fundamental sector

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 33 +++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 4a312bf..16e90dc 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -49,24 +49,27 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     x, y, z = points[..., 0], points[..., 1], points[..., 2]
 
     eta = torch.atan2(y, x)
-    chi = torch.acos(z)
+    chi = torch.acos(torch.clamp(z, -1.0, 1.0))
+
+    # the rounding error of eta grows towards the pole
+    tol = EPS / torch.clamp(torch.sqrt(x**2 + y**2), min=EPS)
 
     if laue_id == 1:  # triclinic
         cond = z >= 0.0
     elif laue_id == 2:  # monoclinic
-        cond = eta.ge(0.0) & eta.le(torch.pi + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-tol) & eta.le(torch.pi + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 3 or laue_id == 4:  # orthorhombic, tetragonal-low
-        cond = eta.ge(0.0) & eta.le(PI_2 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-tol) & eta.le(PI_2 + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 5:  # tetragonal-high
-        cond = eta.ge(0.0) & eta.le(PI_4 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-tol) & eta.le(PI_4 + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 6:  # trigonal-low
-        cond = eta.ge(PI_n23) & (eta.le(0.0 + EPS)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(PI_n23 - tol) & (eta.le(0.0 + tol)) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 7:  # trigonal-high
-        cond = eta.ge(-PI_2) & eta.le(-PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-PI_2 - tol) & eta.le(-PI_6 + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 8:  # hexagonal-low
-        cond = eta.ge(0.0) & eta.le(PI_3 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-tol) & eta.le(PI_3 + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 9:  # hexagonal-high
-        cond = eta.ge(0.0) & eta.le(PI_6 + EPS) & chi.ge(0.0) & chi.le(PI_2 + EPS)
+        cond = eta.ge(-tol) & eta.le(PI_6 + tol) & chi.ge(0.0) & chi.le(PI_2 + EPS)
     elif laue_id == 10:  # cubic-low
         # where eta is over 45 degrees, subtract from 90 degrees
         cond = (
@@ -77,8 +80,8 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.ge(0.0)
-            & eta.le(PI_2 + EPS)
+            & eta.ge(-tol)
+            & eta.le(PI_2 + tol)
             & chi.ge(0.0)
         )
     elif laue_id == 11:  # cubic-high
@@ -91,13 +94,15 @@ def s2_in_fz_laue(points: Tensor, laue_id: int) -> Tensor:
                 + EPS,
                 chi <= torch.acos(torch.sqrt(1.0 / (2.0 + torch.tan(eta) ** 2))) + EPS,
             )
-            & eta.gt(0.0)
-            & eta.lt(PI_4 + EPS)
-            & chi.gt(0.0)
+            & eta.ge(-tol)
+            & eta.le(PI_4 + tol)
+            & chi.ge(0.0)
         )
     else:
         raise ValueError(f"Laue id {laue_id} not in [1, 11]")
-    return cond
+
+    # the sectors all start from the Northern pole, where eta is not defined
+    return cond | ((x.abs() <= EPS) & (y.abs() <= EPS) & (z > 0.0))
 
 
 # # get planar coordinates that are within the fundamental sector
-- 
2.43.0


From 091ba30f26296b79457953eeac07fab26cae48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 41/54] fix: s2_to_fz_laue failed for points on the boundary of
 the sector

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 16e90dc..62f24af 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -173,13 +173,13 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
 
     # get the important shapes
     data_shape = points.shape
-    N = torch.prod(torch.tensor(data_shape[:-1]))
+    N = int(torch.prod(torch.tensor(data_shape[:-1])))
 
     # get the laue group elements
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
@@ -187,15 +187,12 @@ def s2_to_fz_laue(points: Tensor, laue_id: int) -> Tensor:
     # find the points that are in the s2 fundamental zone
     cond = s2_in_fz_laue(equivalent_points, laue_id)
 
-    # # in cases of more than one true value, set the first one to true
-    # more_trues = torch.sum(cond, dim=-1) >= 2
-    # cond[more_trues, 1:] = False
-
-    # # in cases of no true values, set the first one to true
-    # non_true = torch.sum(cond, dim=-1) == 0
-    # cond[non_true, 0] = True
+    # on the boundary of the sector several equivalents are inside: take the first one
+    first = torch.argmax(cond.to(torch.uint8), dim=1)
 
-    return equivalent_points[cond].reshape(data_shape)
+    return equivalent_points[torch.arange(N, device=points.device), first].reshape(
+        data_shape
+    )
 
 
 @torch.jit.script
@@ -219,7 +216,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
-    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.view(N, 1, 3))
+    equivalent_points = qu_apply(laue_group.reshape(-1, 4), points.reshape(N, 1, 3))
 
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
-- 
2.43.0


From 71a567f0b5cbe9f8794c590a3b2a9cea2d2dcdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:41 +0000
Subject: [PATCH 42/54] fix: s2_equiv_laue failed to reshape the equivalent
 points

---
 ebsdtorch/s2_and_so3/laue_fz_s2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_s2.py b/ebsdtorch/s2_and_so3/laue_fz_s2.py
index 62f24af..ea2496e 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_s2.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_s2.py
@@ -206,13 +206,13 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
         laue_id: laue group of points to move to fundamental zone
 
     Returns:
-        points in fundamental zone of shape (..., |laue_group|, 3)
+        equivalent points, inversion included, of shape (..., 2 * |laue_group|, 3)
 
     """
 
     # get the important shapes
     data_shape = points.shape
-    N = torch.prod(torch.tensor(data_shape[:-1]))
+    N = int(torch.prod(torch.tensor(data_shape[:-1])))
     laue_group = laue_elements(laue_id).to(points.dtype).to(points.device)
 
     # reshape so that points is (N, 1, 3) and laue_group is (1, card, 4) then use broadcasting
@@ -221,7 +221,7 @@ def s2_equiv_laue(points: Tensor, laue_id: int) -> Tensor:
     # concatenate all of the points with their inverted coordinates
     equivalent_points = torch.cat([equivalent_points, -equivalent_points], dim=1)
 
-    return equivalent_points.reshape(data_shape[:-1] + (len(laue_group), 3))
+    return equivalent_points.reshape(data_shape[:-1] + [2 * len(laue_group), 3])
 
 
 @torch.jit.script
-- 
2.43.0


From 730db3c7b56c2f987627c284d3aac4eed8ba4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 43/54] fix: ho2ax returned the identity for rotations of up to
 0.1 degrees

---
 ebsdtorch/s2_and_so3/orientations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index f58ecf8..2a37efd 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -491,7 +491,7 @@ def ho2ax(ho: Tensor, fast: bool = True) -> Tensor:
         ],
         dim=-1,
     )
-    rot_is_identity = torch.abs(ho_norm_sq) < 1e-6
+    rot_is_identity = ho_norm_sq < 1e-30
     # set the identity rotation
     ax[rot_is_identity] = 0
     ax[rot_is_identity, ..., 2] = 1.0
@@ -587,7 +587,7 @@ def ho2ax_reference(ho: Tensor, coeffs: str = "kikuchipy") -> Tensor:
 
     ax = torch.empty(ho.shape[:-1] + (4,), dtype=ho.dtype, device=ho.device)
 
-    rot_is_identity = torch.abs(ho_norm_sq.squeeze(-1)) < 1e-8
+    rot_is_identity = ho_norm_sq.squeeze(-1) < 1e-30
     ax[rot_is_identity, 0:1] = 0.0
     ax[rot_is_identity, 1:2] = 0.0
     ax[rot_is_identity, 2:3] = 1.0
-- 
2.43.0


From a1189dbdcb2cb97f40a93ddfacf0a6351847a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 44/54] fix: ho2cu lost half of the digits near the planes
 between the pyramids

---
 ebsdtorch/s2_and_so3/orientations.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ebsdtorch/s2_and_so3/orientations.py b/ebsdtorch/s2_and_so3/orientations.py
index 2a37efd..70e0780 100644
--- a/ebsdtorch/s2_and_so3/orientations.py
+++ b/ebsdtorch/s2_and_so3/orientations.py
@@ -372,13 +372,11 @@ def ho2cu(ho: Tensor) -> Tensor:
         / (2**0.5)
     )
     # z_s1 is unchanged from z_s2 while x_s1 and y_s1 are found from inverse squircle function
-    x_s1 = (prefactor_xy_s2 * 12.0 * torch.sign(x_s2) / torch.pi) * (
-        torch.arccos(
-            (
-                (x_s2**2 + y_s2 * torch.sqrt(x_s2**2 + 2 * y_s2**2))
-                / ((2**0.5) * (x_s2**2 + y_s2**2))
-            ).clamp_(-1.0, 1.0)
-        )
+    # (the arc cosine of (x^2 + y * w) / (2^0.5 * (x^2 + y^2)) with w = sqrt(x^2 + 2 * y^2) loses half of the
+    # digits near x = 0, so its sine x * (w - y) / (2^0.5 * (x^2 + y^2)) is used as well)
+    w_s2 = torch.sqrt(x_s2**2 + 2 * y_s2**2)
+    x_s1 = (prefactor_xy_s2 * 12.0 / torch.pi) * torch.atan2(
+        x_s2 * (w_s2 - y_s2), x_s2**2 + y_s2 * w_s2
     )
     y_s1 = prefactor_xy_s2 * torch.sign(y_s2)
 
-- 
2.43.0


From 9bd3feff904748bca1a9c09062d16c838d70c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:53 +0000
Subject: [PATCH 45/54] fix: GaussianBlur2d removed the last row and column of
 the image

---
 ebsdtorch/preprocessing/resampling.py | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index 4089cdf..df6106d 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -36,18 +36,8 @@ class GaussianBlur2d(Module):
         else:
             x = F.pad(x, pad, mode="constant", value=0)
 
-        # apply convolution
+        # apply convolution (the output has the size of the input)
         x = F.conv2d(x, self.kernel, padding=0)
-
-        # crop off the padding
-        h_even = x.shape[-2] % 2 == 0
-        w_even = x.shape[-1] % 2 == 0
-        x = x[
-            :,
-            :,
-            : -2 if h_even else -1,
-            : -2 if w_even else -1,
-        ]
         return x
 
     def _get_gaussian_kernel(self) -> torch.Tensor:
@@ -71,15 +61,9 @@ class GaussianBlur2d(Module):
         return kernel.view(1, 1, kernel.shape[-1], kernel.shape[-2])
 
     def _compute_padding(self, x: torch.Tensor) -> tuple[int, int, int, int]:
-        kernel_size = self.kernel.shape[-1]
-        w_even = x.shape[-1] % 2 == 0
-        h_even = x.shape[-2] % 2 == 0
-        return (
-            kernel_size // 2,
-            kernel_size // 2 + int(w_even),
-            kernel_size // 2,
-            kernel_size // 2 + int(h_even),
-        )
+        # the kernel size is odd
+        half = self.kernel.shape[-1] // 2
+        return (half, half, half, half)
 
     @staticmethod
     def _crop_padding(x: torch.Tensor, pad: tuple[int, int, int, int]) -> torch.Tensor:
-- 
2.43.0


From 9e8375c3e28be0d4e8c0fd3fb7b3b0cd4f72238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:53 +0000
Subject: [PATCH 46/54] fix: BlurAndDownsample lost a pixel to rounding of the
 inverse scale factor

---
 ebsdtorch/preprocessing/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/resampling.py b/ebsdtorch/preprocessing/resampling.py
index df6106d..d7655e8 100644
--- a/ebsdtorch/preprocessing/resampling.py
+++ b/ebsdtorch/preprocessing/resampling.py
@@ -97,7 +97,7 @@ class BlurAndDownsample(Module):
         blurred = self.gb(x)
         return F.interpolate(
             blurred,
-            size=(int(H * self.downscale), int(W * self.downscale)),
+            size=(int(H / self.scale_factor), int(W / self.scale_factor)),
             mode=self.mode,
             align_corners=self.align_corners,
         )
-- 
2.43.0


From 319dfc1580738b3ac5baa1a33a1e3ad6e80cc98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:53 +0000
Subject: [PATCH 47/54] fix: identical neighbouring patterns made nlpar return
 NaN

---
 ebsdtorch/preprocessing/nlpar.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ebsdtorch/preprocessing/nlpar.py b/ebsdtorch/preprocessing/nlpar.py
index 8465832..434a0c2 100644
--- a/ebsdtorch/preprocessing/nlpar.py
+++ b/ebsdtorch/preprocessing/nlpar.py
@@ -129,9 +129,11 @@ def nlpar(
     # iterate and normalize the squared differences
     for i in range(n_pats_per_kernel):
         sigma_other = sigma_hat_padded[starts_i[i] : ends_i[i], starts_j[i] : ends_j[i]]
-        dists[:, :, i] = (
-            dists[:, :, i] - n_pixels_per_pat * (sigma_hat**2 + sigma_other**2)
-        ) / (2**0.5 * n_pixels_per_pat**0.5 * (sigma_hat**2 + sigma_other**2))
+        # (the noise level of identical patterns is zero)
+        noise = (sigma_hat**2 + sigma_other**2).clamp_min(1e-12)
+        dists[:, :, i] = (dists[:, :, i] - n_pixels_per_pat * noise) / (
+            2**0.5 * n_pixels_per_pat**0.5 * noise
+        )
 
     # compute the weights as the clamped negative distances
     weights = -dists.clamp_min_(0.0)
@@ -167,7 +169,11 @@ def nlpar(
                 * torch.sum(torch.exp(nn_weights / guess_coeff_sq), dim=-1) ** 2
             )
         )
-        guess_coeff -= obj / grad
+        step = obj / grad
+        # no step where the weights do not depend on the coefficient
+        if not bool(torch.isfinite(step)):
+            break
+        guess_coeff -= step
         if torch.abs(obj) < coeff_fit_tol:
             break
 
-- 
2.43.0


From 14d84f9b2d2eab91647023774e7924e1547e9d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:11 +0000
Subject: [PATCH 48/54] fix: clahe_grayscale failed for float64 images

---
 ebsdtorch/preprocessing/clahe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/preprocessing/clahe.py b/ebsdtorch/preprocessing/clahe.py
index fb5609d..2bb93cb 100644
--- a/ebsdtorch/preprocessing/clahe.py
+++ b/ebsdtorch/preprocessing/clahe.py
@@ -119,7 +119,7 @@ def clahe_grayscale(
         dim=-1,
     )
     x = F.grid_sample(
-        cdfs[:, None, :, :, :],  # (B, 1, n_bins, GH, GW)
+        cdfs[:, None, :, :, :].to(x.dtype),  # (B, 1, n_bins, GH, GW)
         coords_into_cdfs,  # (B, 1, H, W, 3)
         mode="bilinear",
         padding_mode="border",
-- 
2.43.0


From eee5dde36a904e0045fce22a2baf366d8c6f9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:27 +0000
Subject: [PATCH 49/54] fix: sample_ori_fz_laue took a coarser grid when the
 target fits a grid exactly

---
 ebsdtorch/s2_and_so3/laue_fz_ori.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebsdtorch/s2_and_so3/laue_fz_ori.py b/ebsdtorch/s2_and_so3/laue_fz_ori.py
index 61b0597..dbfee10 100644
--- a/ebsdtorch/s2_and_so3/laue_fz_ori.py
+++ b/ebsdtorch/s2_and_so3/laue_fz_ori.py
@@ -502,7 +502,8 @@ def sample_ori_fz_laue(
     required_oversampling = target_n_samples * 0.5 * laue_mult
 
     # take the cube root to get the edge length
-    edge_length = int(required_oversampling ** (1.0 / 3.0))
+    # (the cube root of a cube can be rounded to just below the integer)
+    edge_length = int(required_oversampling ** (1.0 / 3.0) + 1e-6)
     so3_samples = so3_cubochoric_grid(edge_length, device=device)
 
     # reject the points that are not in the fundamental zone
-- 
2.43.0


From ee36103666415d04d5c9cf4f856f7a02bb92690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 50/54] fix: rs2cc_fast_ left out the coefficients of negative
 order

---
 ebsdtorch/harmonics/sht_cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/sht_cc.py b/ebsdtorch/harmonics/sht_cc.py
index 554eae0..5388d27 100644
--- a/ebsdtorch/harmonics/sht_cc.py
+++ b/ebsdtorch/harmonics/sht_cc.py
@@ -202,11 +202,11 @@ def rs2cc_fast_(
     )
 
     f_lmkb = torch.einsum("lmk,bml->blmk", d_lmk[:, (B - 1) :, :], f)
-    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk[:, :, (B - 1) :], g.conj())
+    g_lknb = torch.einsum("lkn,bnl->blkn", d_lmk, g_n_aug)
     cc = torch.einsum("blmk,blkn->bmkn", f_lmkb, g_lknb)
 
     # Need to do fftshift so that the low frequencies are at the periphery
-    cc = ifftshift(cc, dim=(-2))
+    cc = ifftshift(cc, dim=(-1, -2))
 
     # dim=(..., -3) means the half dimension is the -3 dimension (m)
     cc = irfftn(cc, s=(2 * B - 1,) * 3, dim=(-1, -2, -3), norm="forward")
-- 
2.43.0


From 92ad6160c19e8464453df147c46f6339d7ae9dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 51/54] fix: wigner_d_xnum used the seeds of pi / 2 for an
 angle of pi

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 8973db9..80e43fb 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -325,7 +325,7 @@ def wigner_d_xnum(
 
     # d_m_mn = c_{m+n} s_{m-n} e_mn
     # for m >= n, e_mn = sqrt((2m)! / ((m+n)! (m-n)!))
-    if beta.item() == torch.pi:
+    if beta.item() == torch.pi / 2.0:
         wigner_xnum[0][first_seed_indices] = (
             torch.exp(
                 0.5
-- 
2.43.0


From c078a86ecfff8ab81dd350bf541076c1a43293e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 52/54] fix: retrieve_wigner_d read other entries for negative
 orders

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 33 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index 80e43fb..b62129b 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -550,10 +550,31 @@ def retrieve_wigner_d(
     m_new = torch.where(mask_mn_swap, n, m)
     n_new = torch.where(mask_mn_swap, m, n)
 
-    prefactor = torch.where(
-        mask_mn_swap,
-        (-1.0) ** ((m_new - n_new) % 2),
-        1.0,
+    both_neg_mask = (m_new < 0) & (n_new < 0)
+    only_m_neg_mask = (m_new < 0) & (n_new >= 0)
+    only_n_neg_mask = (n_new < 0) & (m_new >= 0)
+
+    prefactor = (
+        torch.where(
+            both_neg_mask,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_m_neg_mask,
+            (-1.0) ** ((l - n_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            only_n_neg_mask,
+            (-1.0) ** ((l + m_new) % 2),
+            1.0,
+        )
+        * torch.where(
+            mask_mn_swap,
+            (-1.0) ** ((m_new - n_new) % 2),
+            1.0,
+        )
     )
 
     if swap_mn:
@@ -561,7 +582,9 @@ def retrieve_wigner_d(
 
     return (
         wigner_d_values[
-            (((l * (l + 1)) // 2 * (l + 2)) // 3) + ((m_new * (m_new + 1)) // 2) + n_new
+            (((l * (l + 1)) // 2 * (l + 2)) // 3)
+            + ((torch.abs(m_new) * (torch.abs(m_new) + 1)) // 2)
+            + torch.abs(n_new)
         ]
         * prefactor
     )
-- 
2.43.0


From f77c50a8737ef6e97b4dcefdf6835bfb3cdaa5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 53/54] fix: wigner_d_lt_half_pi was NaN for an angle of zero

---
 ebsdtorch/harmonics/wigner_d_logspace.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_logspace.py b/ebsdtorch/harmonics/wigner_d_logspace.py
index f279fd9..7ce690b 100644
--- a/ebsdtorch/harmonics/wigner_d_logspace.py
+++ b/ebsdtorch/harmonics/wigner_d_logspace.py
@@ -148,8 +148,14 @@ def log_powers_trig_half_beta(
     powers = torch.arange(0, n, device=device, dtype=dtype)
 
     # Compute the powers
-    cos_powers = powers * math.log(math.cos(beta / 2.0))
-    sin_powers = powers * math.log(math.sin(beta / 2.0))
+    # (the power of zero is one, even where the logarithm is -inf)
+    zero = torch.zeros_like(powers)
+    cos_powers = torch.where(
+        powers == 0, zero, powers * math.log(math.cos(beta / 2.0))
+    )
+    sin_powers = torch.where(
+        powers == 0, zero, powers * math.log(math.sin(beta / 2.0))
+    )
     return cos_powers, sin_powers
 
 
-- 
2.43.0


From aadafd3884f521fe399af0cfd1bf6ea5144f1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:14 +0000
Subject: [PATCH 54/54] fix: wigner_d_xnum was NaN for an angle of zero

---
 ebsdtorch/harmonics/wigner_d_xnum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebsdtorch/harmonics/wigner_d_xnum.py b/ebsdtorch/harmonics/wigner_d_xnum.py
index b62129b..afecd6c 100644
--- a/ebsdtorch/harmonics/wigner_d_xnum.py
+++ b/ebsdtorch/harmonics/wigner_d_xnum.py
@@ -153,9 +153,10 @@ def trig_powers_xnum(
     ch = torch.cos(beta / 2.0)
     sh = torch.sin(beta / 2.0)
 
-    # log2 of magnitude of cos(beta/2) and sin(beta/2)
-    lmch = torch.log2(torch.abs(ch))
-    lmsh = torch.log2(torch.abs(sh))
+    # log2 of magnitude of cos(beta/2) and sin(beta/2), powers of zero are far
+    # below the smallest number that is different from zero
+    lmch = torch.log2(torch.abs(ch)).clamp(min=-(2.0**20))
+    lmsh = torch.log2(torch.abs(sh)).clamp(min=-(2.0**20))
 
     lmch_sign = torch.sign(lmch)
     lmsh_sign = torch.sign(lmsh)
-- 
2.43.0

