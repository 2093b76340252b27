From 5163198eff04b4aec5c51e13e1b9ef6cd040ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 01/27] fix: zeros padding mode fills the border with zeros

---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From c001d7234936489a74dfb0a1aec1f7e03a63b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 02/27] fix: pad_axis reserves the extra element of periodize

---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..8ec5c72 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":  # odd length is extended by 1 before periodic extension
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 250df4de44adfd66ada0dcc0953d0cec37ca36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 03/27] fix: Padder rejects unknown padding modes

---
 torchimage/padding/generic_pad.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index 8ec5c72..2f14768 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -29,8 +29,9 @@ _other_padding_set = {
 
 
 def _check_padding_mode(mode):
-    return callable(mode) or mode in set().union(_stat_padding_set)\
-        .union(_other_padding_set).union(_padding_function_dict.keys())
+    if not (callable(mode) or mode in set().union(_stat_padding_set)
+            .union(_other_padding_set).union(_padding_function_dict.keys())):
+        raise ValueError(f"Unsupported padding mode {mode}")
 
 
 class Padder:  # (nn.Module):
-- 
2.43.0


From a50c463f06ac3eaf852e0efdcce030aff60e2d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 04/27] fix: fractional edge kernels are not truncated to
 integers

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..0544ba0 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(float(k) for k in self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From 8926676bff0b0ca8becddae7241832e1cf25a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 05/27] fix: random_crop can reach the last offset and crop to
 full size

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From d584ec6946c64cf853c4ccd079bc349a071b7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 06/27] fix: MS_SSIM supports a single scale

---
 torchimage/metrics/ssim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..0685ceb 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,11 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            last_score = ssim_score.clamp(self.eps) ** self.weights[-1]
+            final_score = last_score if final_score is None else final_score * last_score
         else:
-            final_score += ssim_score * self.weights[-1]
+            last_score = ssim_score * self.weights[-1]
+            final_score = last_score if final_score is None else final_score + last_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From 15cfcdc3480aa79bc49b9a50d0d1a1cb5ad1d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 07/27] fix: AvgPoolNd without padded elements accepts unsorted
 axes

---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..f2d400a 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):  # z follows the sorted axes
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From 8ced29b2d6dd0e0c348d334c4b6a4ec3579960f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 08/27] fix: AvgPoolNd(count_include_pad=False) works without a
 padder

---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index f2d400a..26d3258 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:  # no padded elements to exclude
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From 3783a79f6992fbb10cd9d3d2f704865c6ca705cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 09/27] fix: poly1d evaluates constant polynomials

---
 torchimage/misc/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..f7e7f63 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -36,6 +36,8 @@ def poly1d(x: torch.Tensor, p: list or tuple):
             y.add_(xx, alpha=w)
         if i < len(weight) - 1:
             xx = xx * x
+    if y is None:  # constant polynomial
+        y = torch.zeros_like(x)
     y += bias
     return y
 
-- 
2.43.0


From 4ad6005eb334d4a1b24a302d6df69a92ed238c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 10/27] fix: safe_power keeps fractional scalars with integer
 tensors

---
 torchimage/misc/power.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..97b99ea 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -41,15 +41,17 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=torch.result_type(x, exponent), device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=torch.result_type(x, exponent), device=x.device)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
+    x = x.to(torch.result_type(x, exponent))  # fractional powers of integers are not integers
+
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0


From 17352e71986209fc73d40b190ad392825ae0a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 11/27] fix: check_axes raises ValueError for every
 out-of-range axis

---
 torchimage/utils/validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..5f5a13d 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -27,10 +27,12 @@ def check_axes(x, axes):
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
     elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
+        axes = tuple([axes if axes >= 0 else x.ndim + axes])
     else:
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+
+    if not all(0 <= a < x.ndim for a in axes):
+        raise ValueError(f"axes {axes} out of range for {x.ndim} dimensions")
     return axes
 
 
-- 
2.43.0


From 0c2f1af3437cf23443a313cac660c01c1218850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 12/27] fix: ragged arrays accept numpy object arrays

---
 torchimage/utils/ragged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..eb5ff07 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -85,7 +85,7 @@ def get_ragged_ndarray(data, strict=True):
     if is_scalar(data):  # scalar
         return data, ()
 
-    if not data:  # empty array
+    if len(data) == 0:  # empty array
         return data, (0, )
 
     item_list = []
@@ -145,7 +145,7 @@ def _recursive_expand(arr, target_shape):
     if is_scalar(arr):  # scalar
         return arr, (), False
 
-    if not arr:  # empty array
+    if len(arr) == 0:  # empty array
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 24a82bece0ea100bb811f5816540add9ad0baa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 13/27] fix: forward_unshuffle handles unbatched input

---
 torchimage/cfa/bayer_conv/bayer_conv_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/cfa/bayer_conv/bayer_conv_2d.py b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
index 4227a95..9f23fbd 100644
--- a/torchimage/cfa/bayer_conv/bayer_conv_2d.py
+++ b/torchimage/cfa/bayer_conv/bayer_conv_2d.py
@@ -106,7 +106,7 @@ class BayerConv2d(nn.Module):
 
         # x: ..., in_channels, h, w
         # the channel dimension is all that matters
-        y = torch.empty((x.shape[0], self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
+        y = torch.empty(x.shape[:-3] + (self.out_channels * factor**2, x.shape[-2] // 2, x.shape[-1] // 2), dtype=x.dtype, device=x.device)
 
         sensor_alignment = check_sensor_alignment(sensor_alignment)
         # maps a relative position (GR, R, etc.) to its absolute position tuple (e.g. (0, 1)) under this sensor
@@ -117,7 +117,7 @@ class BayerConv2d(nn.Module):
             pos_abs = str(r) + str(c)
             conv = self.conv_dict[pos_rel]
             pad = self.padding_dict[pos_abs]
-            y[:, slice(r * 2 + c, None, factor**2), ...] = conv(pad(x))
+            y[..., slice(r * 2 + c, None, factor**2), :, :] = conv(pad(x))
         return y
 
 
-- 
2.43.0


From c76bf00e65ddb6ce6f079d36d167545287c44961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 14/27] fix: averaging the green samples does not overflow
 integer images

---
 torchimage/cfa/utils/bayer_to_rgb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/cfa/utils/bayer_to_rgb.py b/torchimage/cfa/utils/bayer_to_rgb.py
index 37b0c78..39c98ee 100644
--- a/torchimage/cfa/utils/bayer_to_rgb.py
+++ b/torchimage/cfa/utils/bayer_to_rgb.py
@@ -66,7 +66,7 @@ def downsample_4c_bayer_to_rgb(x: torch.Tensor, sensor_alignment: str):
     check_4c_bayer(x)
     ret_list = [
         x[..., sa.index("R"), :, :],
-        (x[..., sa.index("G"), :, :] + x[..., sa.rindex("G"), :, :]) / 2,
+        x[..., sa.index("G"), :, :] / 2 + x[..., sa.rindex("G"), :, :] / 2,
         x[..., sa.index("B"), :, :]
     ]
     return torch.stack(ret_list, dim=-3)
-- 
2.43.0


From 53a3f9d8993ad1e105fc4c92f1c52a5ad73f7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 15/27] fix: any_conv_1d accepts non-contiguous tensors

---
 torchimage/pooling/operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index d8c27bf..3a8789c 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -31,15 +31,15 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     big_shape = list(x.shape)
 
     if dim == -1 or dim == x.ndim - 1:
-        x = x.view(-1, 1, x.shape[-1])  # batch, in_channels, input width
+        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
         w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.view(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
         w = w.view(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
     big_shape[dim] = -1
-    x = x.view(*big_shape)
+    x = x.reshape(*big_shape)
     return x
 
-- 
2.43.0


From a1196d8d39753a0c12719a649fe88a6cf406f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 16/27] fix: empty pooling kernels work with a same padder and
 default stride

---
 torchimage/pooling/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/pooling/base.py b/torchimage/pooling/base.py
index d3b8c56..0076035 100644
--- a/torchimage/pooling/base.py
+++ b/torchimage/pooling/base.py
@@ -115,7 +115,8 @@ class BasePoolNd(nn.Module):
             Processed stride
         """
         stride = NdSpec(stride, item_shape=[]).map(check_stride)
-        stride = NdSpec.apply(lambda s, ks: ks if s is None else s, stride, self.kernel_size)
+        # an axis with an empty kernel is ignored, so it gets the trivial stride
+        stride = NdSpec.apply(lambda s, ks: max(ks, 1) if s is None else s, stride, self.kernel_size)
         return stride
 
     def to_filter(self, padder=None):
-- 
2.43.0


From b19f47a6c74eb46fcf446afc78709db68c67550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 17/27] fix: get_ragged_ndarray keeps items broadcast at inner
 levels

---
 torchimage/utils/ragged.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index eb5ff07..82db38c 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -90,10 +90,15 @@ def get_ragged_ndarray(data, strict=True):
 
     item_list = []
     item_shape_list = []
-    for item in data:
-        item, item_shape = get_ragged_ndarray(item, strict=strict)
+    modified = False
+    for old_item in data:
+        item, item_shape = get_ragged_ndarray(old_item, strict=strict)
         item_list.append(item)
         item_shape_list.append(item_shape)
+        modified = modified or item is not old_item
+
+    if modified:  # some item was broadcast (strict=False)
+        data = tuple(item_list)
 
     ndim_set = set(len(shape) for shape in item_shape_list)
 
-- 
2.43.0


From 829cd620311dec222b0388bf5ba96ecbb3345cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 18/27] fix: expanding a torch tensor to an incompatible shape
 raises ValueError

---
 torchimage/utils/ragged.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 82db38c..def33fa 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -138,7 +138,10 @@ def _recursive_expand(arr, target_shape):
         return arr, target_shape, False
 
     if torch.is_tensor(arr):
-        result = arr.expand(*target_shape)
+        try:
+            result = arr.expand(*target_shape)
+        except RuntimeError as e:  # same exception type as any other data
+            raise ValueError(f"Cannot expand tensor of shape {tuple(arr.shape)} to {tuple(target_shape)}") from e
         return result, tuple(result.shape), result.shape != arr.shape
 
     if isinstance(arr, np.ndarray):
-- 
2.43.0


From 6d67dcdff36b4e3dff6e150739709be5215dd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 19/27] fix: zero-length siblings in a ragged array cannot be
 expanded

---
 torchimage/utils/ragged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index def33fa..fb85570 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -154,6 +154,8 @@ def _recursive_expand(arr, target_shape):
         return arr, (), False
 
     if len(arr) == 0:  # empty array
+        if target_shape[0] > 0:
+            raise ValueError(f"Cannot expand 0-length dimension to length {target_shape[0]}")
         return arr, (0,), False
 
     item_list = []
-- 
2.43.0


From 05cf5ce889d6d2b1532b31bfd072b688f0645caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 20/27] fix: NdSpec raises ValueError when data is shallower
 than index_shape

---
 torchimage/utils/ndspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/utils/ndspec.py b/torchimage/utils/ndspec.py
index baa8c1b..434a26f 100644
--- a/torchimage/utils/ndspec.py
+++ b/torchimage/utils/ndspec.py
@@ -175,7 +175,8 @@ class NdSpec:
             data, shape = expand_ragged_ndarray(data, old_shape=shape, new_shape=item_shape)
             self.index_pos = len(shape) - len(item_shape)
         else:  # ignore item shape
-            if not all(length == -1 or shape[i] == length for i, length in enumerate(index_shape)):
+            if len(shape) < len(index_shape) or \
+                    not all(length == -1 or shape[i] == length for i, length in enumerate(index_shape)):
                 raise ValueError(f"Data {data} cannot have index shape {index_shape}")
             self.index_pos = len(index_shape)
 
-- 
2.43.0


From 872c319cbe2f1a7ef6137ed751cb61577668b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 21/27] fix: EdgeFilter.magnitude does not modify its input

---
 torchimage/filtering/edges.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index 0544ba0..d9c43ee 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -125,7 +125,8 @@ class EdgeFilter(nn.Module):
             if magnitude is None:
                 magnitude = c ** p if p != 1 else c
             else:
-                magnitude += c ** p if p != 1 else c
+                # out of place: with empty kernels c is x itself
+                magnitude = magnitude + (c ** p if p != 1 else c)
 
         if epsilon != 0:
             magnitude += epsilon
-- 
2.43.0


From 7fd5374844a2b9d82f575c38bbd0cdbcb57c998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 22/27] fix: an empty selection of reduce axes reduces nothing
 in MSE, PSNR, SSIM and MS-SSIM

---
 torchimage/metrics/base.py | 4 ++++
 torchimage/metrics/ssim.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/torchimage/metrics/base.py b/torchimage/metrics/base.py
index 54c6fdd..c9571e9 100644
--- a/torchimage/metrics/base.py
+++ b/torchimage/metrics/base.py
@@ -57,9 +57,13 @@ class BaseMetric(nn.Module):
 
     @staticmethod
     def _mean(x: torch.Tensor, axes):
+        if len(axes) == 0:  # torch would reduce every axis
+            return x
         return x.mean(dim=axes, keepdim=False)
 
     @staticmethod
     def _sum(x: torch.Tensor, axes):
+        if len(axes) == 0:  # torch would reduce every axis
+            return x
         return x.sum(dim=axes, keepdim=False)
 
diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 0685ceb..f9d5598 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -135,6 +135,8 @@ class SSIM(nn.Module):
         return full[tuple(idx)]
 
     def _reduce(self, x: torch.Tensor, content_axes: tuple, reduce_axes: tuple):
+        if len(reduce_axes) == 0:  # torch would reduce every axis
+            return self._crop_border(x, content_axes=content_axes)
         return self._crop_border(x, content_axes=content_axes).mean(dim=reduce_axes)
 
     def forward(self, y_pred: torch.Tensor, y_true: torch.Tensor,
@@ -311,6 +313,8 @@ class MS_SSIM(SSIM):
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
+        if len(reduce_axes) == 0:  # torch would reduce every axis
+            return final_score
         final_score = final_score.mean(dim=reduce_axes, keepdim=False)
 
         return final_score
-- 
2.43.0


From 723e090ff1998b6a7350cddfb87bd4d048153c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 23/27] fix: AvgPoolNd that excludes padding accepts an empty
 selection of axes

---
 torchimage/pooling/uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 26d3258..f3249f9 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -28,6 +28,8 @@ class AvgPoolNd(SeparablePoolNd):
         else:
             input_shape = x.shape
             axes = check_axes(x, axes)
+            if not axes:  # nothing to pool
+                return x
 
             z_old = np.prod([self.kernel_size[i] for i in range(len(axes))])
 
-- 
2.43.0


From 1a4ec9f7ba74f5c6896aa09ddfbdbd52a83a2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 24/27] fix: high-order gaussian kernels with a long support do
 not overflow integer powers

---
 torchimage/pooling/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/gaussian.py b/torchimage/pooling/gaussian.py
index 6aa81d6..3f0a3e7 100644
--- a/torchimage/pooling/gaussian.py
+++ b/torchimage/pooling/gaussian.py
@@ -36,7 +36,7 @@ def _gaussian_kernel1d(sigma, order, radius):
         Q_deriv = D + P
         for _ in range(order):
             q = Q_deriv.dot(q)
-        q = (x[:, None] ** exponent_range).dot(q)
+        q = (x[:, None].astype(float) ** exponent_range).dot(q)  # integer powers would overflow
         return q * phi_x
 
 
-- 
2.43.0


From 6eba79095804139d82e9ff2008b8f5a797de268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 25/27] fix: gaussian noise uses |sigma| itself, not
 sqrt(sigma**2), which under- and overflows

---
 torchimage/random.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index f36136b..b990d06 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -41,20 +41,17 @@ def add_poisson_gauss_noise(x: torch.Tensor, k, sigma, *, generator: torch.Gener
     y : torch.Tensor
         Output tensor with noise added
     """
-    sigma_2 = sigma ** 2
-
     poisson_noise = torch.poisson(x / k, generator=generator)
     poisson_noise *= k  # inplace to save memory
     gaussian_noise = torch.randn(x.shape, dtype=x.dtype, device=x.device, generator=generator)
-    gaussian_noise *= (sigma_2 ** 0.5)  # inplace to save memory
+    gaussian_noise *= abs(sigma)  # inplace to save memory
     y = poisson_noise
     y += gaussian_noise
     return y
 
 
 def add_gauss_noise(x: torch.Tensor, sigma, *, generator: torch.Generator = None) -> torch.Tensor:
-    sigma_2 = sigma ** 2
     gaussian_noise = torch.randn(x.shape, dtype=x.dtype, device=x.device, generator=generator)
-    gaussian_noise *= (sigma_2 ** 0.5)  # inplace to save memory
+    gaussian_noise *= abs(sigma)  # inplace to save memory
     gaussian_noise += x  # inplace
     return gaussian_noise
-- 
2.43.0


From 3572742147fa4bc82914f812e2037ea58e1f063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:07 +0000
Subject: [PATCH 26/27] fix: average pooling over original elements no longer
 overflows 16-bit images

---
 torchimage/pooling/uniform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index f3249f9..4d193e4 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -42,12 +42,13 @@ class AvgPoolNd(SeparablePoolNd):
                 pad_width=[self.same_padder.pad_width[i] for i in idx],
                 kernel_size=[self.kernel_size[i] for i in idx],
                 stride=[self.stride[i] for i in idx],
-                device=x.device, dtype=x.dtype
+                device=x.device, dtype=torch.promote_types(x.dtype, torch.float32)
             )
             new_shape = [1] * x.ndim
             for j, i in enumerate(idx):  # z follows the sorted axes
                 new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
-            x = x * z_old / z
+            # the sums and counts themselves may exceed the range of a 16-bit type
+            x = x / (z / z_old).to(x.dtype)
             return x
-- 
2.43.0


From 915b053fa301c5d6d42af2e87f0e23ada634afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 27/27] fix: any_conv_1d accepts empty batches

---
 torchimage/pooling/operator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index 3a8789c..d436c28 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -30,6 +30,9 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     """
     big_shape = list(x.shape)
 
+    if x.numel() == 0:  # sizes can't be inferred, and torch refuses some empty images
+        return x.unfold(dim, (len(w) - 1) * dilation + 1, stride)[..., ::dilation] @ w
+
     if dim == -1 or dim == x.ndim - 1:
         x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
         w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
-- 
2.43.0

