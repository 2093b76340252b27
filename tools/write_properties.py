"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": anchors})


PAD = ["torchimage/padding/generic_pad.py", "torchimage/padding/pad_1d.py", "torchimage/padding/utils.py"]
POOL = ["torchimage/pooling/base.py", "torchimage/pooling/uniform.py", "torchimage/pooling/gaussian.py"]
EDGE = ["torchimage/filtering/edges.py"]
ND = ["torchimage/utils/ndspec.py", "torchimage/utils/ragged.py"]

prop("P01", "Border extension obeys each mode's documented rule at every width",
     "For the padding modes zeros, replicate, smooth, circular, periodize, symmetric, reflect, antisymmetric, odd_reflect and odd_symmetric, padding an axis of length n >= 1 by any (before, after) gives exactly the infinite extension the package documentation defines for that mode, including widths several times larger than n, unequal widths on the two sides, and length-1 or length-2 axes. The original samples appear unchanged at offset `before`, the padded axis has length before + n + after (one more for periodize when n is odd), and the element type is kept. The result never depends on how often the signal is wrapped, on the widths of the two sides relative to each other, or on which axis is padded.",
     ["inputs", "configurations"],
     "every signal (values, length >= 1, float or integer dtype, rank, axis), every listed mode, every pair of nonnegative widths with at least one positive",
     "tests/test_padder.py keeps the widths at most the signal length for the wrapping modes (numpy/pywt are the oracle and are wrong beyond), uses ten random shapes, never runs the zeros mode, and only float64.",
     PAD, [("chunked in-place filling before and after the ground-truth slice, with a flipped cache when wrapped at least once", "torchimage/padding/pad_1d.py"),
           ("mode dispatch", "torchimage/padding/generic_pad.py:Padder._fill_value_1d")],
     ["Padder(pad_width, mode).forward(x, axes)", "Padder.pad_axis"])

prop("P02", "Constant, linear-ramp and statistic padding honour their per-side parameters",
     "constant padding writes constant_values, linear_ramp interpolates linearly from the border sample to end_values (reached exactly at the outermost element), and maximum/mean/minimum/median write the statistic of the stat_length samples nearest that border, where a stat_length is clipped to [1, n], None means the whole axis, and the median of an even count is the lower middle value. Each parameter may be a scalar, a (before, after) pair or a per-axis list of pairs, and the before entry affects only the leading side while the after entry affects only the trailing side. Original samples and dtype are preserved.",
     ["inputs", "configurations"],
     "every signal, widths on either side (also zero on one side, also wider than the signal), scalar / pair / per-axis parameters, stat_length from 0 to beyond the axis length or None on one or both sides",
     "tests use stat_length in range only, skip median, never use None or a one-sided None, and compare ten random shapes.",
     PAD, [("constant_1d, linear_ramp_1d, stat_1d", "torchimage/padding/pad_1d.py"), ("per-axis parameter lookup", "torchimage/padding/generic_pad.py:Padder._fill_value_1d")],
     ["Padder(...).forward(x, axes)"])

prop("P03", "N-D padding is 1-D padding applied axis by axis, right-justified",
     "Padding a tensor over a list of distinct axes equals applying the 1-D rule of the matching padder entry to each of those axes one after the other in the order listed, each later axis extending what the earlier ones produced. A padder with per-axis entries (widths, modes, constants, end values, stat lengths) is matched to the axis list from the right: surplus padder entries on the left are ignored, surplus axes on the left and all unlisted axes are left unchanged. Axes may be given as None, an int, a slice, or positive or negative indices; mode 'empty' still keeps every original sample in place, a user-supplied function of (x, idx, dim) is called like a built-in rule, and pad_axis(x, i, axis) equals padding that one axis with entry i. Parameters left out mean no padding, mode constant with value 0, end value 0 and statistics of the whole axis.",
     ["inputs", "configurations"],
     "ranks 1-5, every order and subset of axes, mixtures of modes and parameters per axis, padders with fewer or more entries than axes",
     "tests only pad all axes in natural order with one mode for all axes and a padder of matching length; axis order, right-justification, mixed modes, callables and pad_axis are never exercised.",
     PAD + ["torchimage/utils/validation.py"], [("loop over range(-ndim_padded, 0) with a growing ground-truth slice", "torchimage/padding/generic_pad.py:Padder.forward"), ("pad_axis", "torchimage/padding/generic_pad.py:Padder.pad_axis")],
     ["Padder.forward", "Padder.pad_axis"])

prop("P04", "Same-padding widths and convolution size arithmetic are exact",
     "same_padding_width(kernel, stride, n) (stride None meaning kernel) returns nonnegative widths differing by at most one with the larger in front, the smallest total for which ceil(n / stride) windows of that kernel and stride fit, so that for a stride not above the kernel every input element is covered; with stride 1 this is exactly kernel - 1 (0 for kernel <= 1) for every n. Padder.to_same installs exactly those widths for every axis and the padded, windowed axis then has ceil(n / stride) windows. conv_1d/conv_nd return exactly the number of windows that fit for any dilation and stride, and pad_width_format converts numpy and torch width formats into each other without loss.",
     ["inputs", "configurations"],
     "all n >= 1, kernel >= 1, stride >= 1 or None, dilation >= 1, scalars or per-axis lists",
     "the only test checks stride 1 with kernels 0..15; strided same padding, conv sizes and format conversion are untested.",
     ["torchimage/padding/utils.py", "torchimage/padding/generic_pad.py", "torchimage/shapes/conv_like.py"],
     [("same_padding_width", "torchimage/padding/utils.py"), ("to_same", "torchimage/padding/generic_pad.py:Padder.to_same"), ("conv_1d, conv_nd", "torchimage/shapes/conv_like.py"), ("pad_width_format", "torchimage/padding/utils.py")],
     ["same_padding_width", "Padder.to_same(...).pad_width", "conv_1d", "conv_nd", "pad_width_format"])

prop("P05", "Receptive-field counts of original elements are exact",
     "n_original_elements_1d(in_size, (before, after), kernel, stride) returns, for every window position of a strided convolution over the padded axis, exactly how many of the window's elements are original rather than padding, with one entry per window and an empty list when no window fits. n_original_elements_nd returns the tensor of the products of those counts over all axes, with the requested dtype.",
     ["inputs", "configurations"],
     "all in_size >= 1, nonnegative widths (also wider than the kernel), kernel >= 1, stride >= 1 (also larger than the kernel), 1 to 4 axes with scalar or per-axis parameters",
     "the 1-D test returns at the first case where the kernel does not fit and samples at most 20 cases below 7; the branchy closed form has many regions (padding wider than the kernel, stride over the kernel, zero tails).",
     ["torchimage/shapes/conv_like.py", "torchimage/misc/outer.py"], [("piecewise counting of rising, flat, falling and zero windows", "torchimage/shapes/conv_like.py:n_original_elements_1d"), ("outer product of per-axis counts", "torchimage/shapes/conv_like.py:n_original_elements_nd")],
     ["n_original_elements_1d", "n_original_elements_nd"])

prop("P06", "NdSpec turns an item or a list of items into one indexable specification",
     "NdSpec(data, item_shape) accepts a partial item, a full item or a list of items: a partial item is broadcast to item_shape (singleton and missing leading dimensions only, -1 keeps whatever length is there), and then spec[i] is that same item for every integer i, len(spec) is 0 and iteration yields it once; a list of n items has len n, is indexed like a list (negative, tuple and, for lists and tuples, slice indices included; IndexError outside) and iterates in order. item_shape, index_shape, ndim, item_ndim, index_ndim and is_item always describe the stored data, items that need no broadcasting are returned as the very same objects (views when a whole array or tensor was given), and constructing an NdSpec from an NdSpec copies it. Data that cannot be broadcast to item_shape, or does not have a required index_shape, raises ValueError.",
     ["inputs", "configurations"],
     "scalars, strings, None, lists, tuples, numpy arrays and torch tensors, nested to depth 3, ragged or rectangular, with item shapes of depth 0-3 including -1 entries",
     "tests check a dozen hand-written literals.",
     ND, [("shape inference and broadcasting at construction", "torchimage/utils/ndspec.py:NdSpec.__init__"), ("indexing", "torchimage/utils/ndspec.py:NdSpec.__getitem__")],
     ["NdSpec(...)[i]", "len", "iter", "item_shape", "index_shape"])

prop("P07", "NdSpec map, starmap, zip and apply act item by item with broadcasting",
     "spec.map(f) and spec.starmap(f) apply f exactly once to each item (to the unpacked item for starmap) and keep the index shape, so result[i] is f(spec[i]) for every valid index (with 2 or more index dimensions, for functions whose results share one nesting depth). NdSpec.apply(f, a, b, ...) and NdSpec.zip broadcast (over rectangular index shapes) single-item specs against specs with an index shape, giving at every index f of (or the tuple of) the arguments' items in argument order, and agg_index_shape / agg_index_len report that common shape and length (0 when all are single items). Specs with different non-empty index shapes, or no specs at all, raise ValueError, and no operation modifies its inputs.",
     ["inputs", "configurations"],
     "specs with index shapes of 0, 1 or 2 dimensions, items that are scalars, strings, lists, ragged lists or tensors, functions returning scalars, tuples, lists, None or tensors",
     "three literal examples of zip and one of map are tested; starmap, apply, agg_index_len, 2-D index shapes and functions returning sequences are not.",
     ND, [("object array filled index by index", "torchimage/utils/ndspec.py:NdSpec.apply"), ("recursive apply to a fixed depth", "torchimage/utils/ragged.py:apply_ragged_ndarray")],
     ["NdSpec.map", "NdSpec.starmap", "NdSpec.zip", "NdSpec.apply", "NdSpec.agg_index_shape", "NdSpec.agg_index_len"])

prop("P08", "Ragged-array shape inference and expansion are correct",
     "get_ragged_ndarray returns the true nested shape of its data: the length at each level, -1 where siblings differ; in strict mode a level whose elements have different depths is a level of leaves and the data come back as the identical object, in non-strict mode shallower elements are wrapped in one-element tuples to the common depth and nothing else changes. expand_ragged_ndarray broadcasts exactly like numpy.broadcast_to on rectangular data (with -1 meaning keep), repeats only singleton levels, keeps all leaf values in order, reports the shape of what it returns, and raises ValueError when a non-singleton length differs or a zero-length level would have to grow. Numeric and object numpy arrays and torch tensors are handled like the equivalent nested lists, and inputs are never modified.",
     ["inputs"],
     "nested lists/tuples/arrays/tensors of depth 0-4, ragged or rectangular, with mixed container types, and target shapes of smaller, equal or larger depth with -1, 1 and larger lengths",
     "tests use a handful of literals.",
     ["torchimage/utils/ragged.py"], [("recursive inference", "torchimage/utils/ragged.py:get_ragged_ndarray"), ("recursive expansion", "torchimage/utils/ragged.py:expand_ragged_ndarray")],
     ["get_ragged_ndarray", "expand_ragged_ndarray", "apply_ragged_ndarray"])

prop("P09", "Separable pooling equals dense correlation with the outer-product kernel",
     "SeparablePoolNd without a padder, applied over a list of axes, equals cross-correlating those axes with the outer product of the per-axis kernels (kernels not flipped) at the per-axis strides, keeping only fully contained windows, to the accuracy of the input's dtype. A single kernel or stride is used for every listed axis, a list is matched to the axes in order, stride None means the kernel's own length, and an axis with an empty kernel is left untouched. Unlisted axes keep their positions and sizes, and listing an axis twice pools it twice; a kernel longer than its axis gives an error or no results.",
     ["inputs", "configurations"],
     "ranks 1-5, float32/float64 tensors of any layout, kernels given as lists, tuples, arrays or tensors of length 0-6 per axis, strides 1-5 or None, all axis subsets and orders",
     "the pooling tests cannot run here (scipy) and otherwise use stride 1, same padding, all axes in order; strided, per-axis, subset and reordered axes are untested.",
     POOL, [("unfold along each axis times the kernel", "torchimage/pooling/base.py:SeparablePoolNd.forward"), ("stride defaulting", "torchimage/pooling/base.py:BasePoolNd.read_stride")],
     ["SeparablePoolNd(kernel, stride).forward(x, axes)"])

prop("P10", "Same-padded pooling covers the input and filters preserve shape",
     "A pooling module with a same padder equals padding every listed axis with that padder's mode and parameters at the same-padding width of its kernel, stride and size, followed by valid pooling, so each listed axis has output length ceil(n / stride) (periodize, which extends odd lengths by one element as documented, excepted). to_filter(padder) turns any pooling module into its stride-1 same-padded counterpart, so the output has exactly the input's shape for odd and even kernels (again except periodize on odd lengths); a padder given to to_filter replaces the module's own, None keeps the existing one (valid pooling if there is none). This holds for every padding mode and whatever pad width the supplied padder had before.",
     ["inputs", "configurations", "histories"],
     "separable, average and gaussian pooling, every padding mode as a string or Padder with parameters, kernel lengths 1-7, strides 1-5 or None, ranks 1-4, axis subsets",
     "scipy-based tests are not runnable here and only use odd and even kernels with stride 1 on all axes.",
     POOL + PAD, [("pad", "torchimage/pooling/base.py:BasePoolNd.pad"), ("to_filter", "torchimage/pooling/base.py:BasePoolNd.to_filter"), ("to_same", "torchimage/padding/generic_pad.py:Padder.to_same")],
     ["module.forward(x, axes)", "module.to_filter(padder)"],
     [("same_padder.pad_width", "the padder's widths, rewritten on every forward", "torchimage/padding/generic_pad.py:Padder.to_same")])

prop("P11", "Average pooling divides by the right number of elements",
     "AvgPoolNd returns the arithmetic mean of every window over the listed axes; with count_include_pad=True padded elements count as elements. With count_include_pad=False and zero padding, each output is the mean of only the original input elements in its window, for any stride, odd or even kernel, axis order (including descending or negative axes) and with no padder at all, so constant images stay constant up to the border. Pooling over an empty selection of axes returns the image unchanged. It agrees with torch's avg_pool1d/2d/3d wherever their symmetric padding coincides.",
     ["inputs", "configurations"],
     "ranks 1-4, kernel sizes 1-6 per axis, strides 1-5 or None, every subset and order of distinct axes, with and without a zero padder",
     "the only tests are 2-D, odd kernels, stride 1, ascending axes, and cannot run here.",
     ["torchimage/pooling/uniform.py", "torchimage/shapes/conv_like.py", "torchimage/pooling/base.py"], [("renormalisation by the original-element counts", "torchimage/pooling/uniform.py:AvgPoolNd.forward")],
     ["AvgPoolNd(...).forward(x, axes)"])

prop("P12", "Gaussian kernels and Gaussian pooling match the Gaussian and its derivatives",
     "gaussian_kernel_1d(k, sigma, 0) samples exp(-x^2 / 2 sigma^2) on consecutive integers centred on index k // 2 and sums to 1; for order m and odd k it is the m-th derivative of the Gaussian (probabilists' Hermite factor times the normalised order-0 weights), laid out so that correlating with it differentiates, hence symmetric for even m and antisymmetric for odd m; an even k is the length k + 1 kernel without its last element, renormalised only for order 0. GaussianPoolNd pools with exactly these kernels per axis for scalar or per-axis kernel_size, sigma and order, and negative orders raise ValueError. A kernel list belongs to its caller: changing it in place does not change any later kernel.",
     ["inputs", "configurations"],
     "kernel sizes 1-151, sigma in [0.1, 60], orders 0-6, scalar or per-axis, any stride or padding mode",
     "the only reference test needs scipy (not runnable) and uses one sigma and odd sizes.",
     ["torchimage/pooling/gaussian.py"], [("polynomial recursion by derivative matrices", "torchimage/pooling/gaussian.py:gaussian_kernel_1d")],
     ["gaussian_kernel_1d", "GaussianPoolNd(...).forward"])

prop("P13", "Edge-filter components differentiate one axis and smooth the others",
     "component(x, edge_axis, smooth_axes) of Sobel, Prewitt, Scharr, Farid, GaussianGrad and any custom EdgeFilter equals same-padding and correlating edge_axis with the edge kernel exactly as given, then same-padding and correlating each smooth axis (edge_axis removed if listed) with the smooth kernel, which normalize=True rescales to sum 1 while the edge kernel is never rescaled. horizontal(x) is the component with edge axis -2 and smooth axis -1, vertical(x) the reverse, and all_components lists the components for each listed axis in order. The output has the input's shape for any kernel lengths.",
     ["inputs", "configurations"],
     "all predefined filters, custom edge kernels with integer and fractional weights of length 1-7, custom smooth kernels, all padding modes, ranks 1-4, all axis choices",
     "edge tests need scikit-image/scipy and cannot run; they never use custom or fractional length-3 kernels.",
     EDGE + ["torchimage/pooling/base.py"], [("shortcut for (-1,0,1) and (1,-2,1), general correlation otherwise", "torchimage/filtering/edges.py:EdgeFilter._conv_edge"), ("component", "torchimage/filtering/edges.py:EdgeFilter.component")],
     ["EdgeFilter.component", "horizontal", "vertical", "all_components"])

prop("P14", "Gradient magnitude, Laplace and LoG combine their components correctly",
     "magnitude(x, axes, epsilon, p) equals (sum over the listed axes of component^p + epsilon)^(1/p), and with p = 1 the plain signed sum plus epsilon; fewer than two axes raise ValueError. Laplace applied over axes equals the sum over those axes of same-padded correlation with (1, -2, 1) along that axis only, and LaplacianOfGaussian the sum over axes of the second Gaussian derivative along one axis smoothed by the Gaussian along the others, for every kernel size and sigma. Constant images give zero for the Laplace, Sobel, Prewitt, Scharr and Farid operators with value-replicating borders.",
     ["inputs", "configurations"],
     "ranks 2-4, all axis subsets of size >= 2 in any order, p in {1, 2, 4}, epsilon >= 0, all padding modes, kernel sizes 1-9 with sigma in [0.3, 4]",
     "edge tests need scikit-image/scipy and cannot run.",
     EDGE, [("accumulation over axes", "torchimage/filtering/edges.py:EdgeFilter.magnitude"), ("Laplace, LaplacianOfGaussian", "torchimage/filtering/edges.py")],
     ["magnitude", "Laplace.forward", "LaplacianOfGaussian.forward"])

prop("P15", "Unsharp masking is x + amount * thresholded(x - blur(x))",
     "UnsharpMask(blur, amount, threshold, padder).forward(x, axes) equals x + amount * d where d = x - blur(x) computed with the blur at stride 1 and same padding, and d is set to zero wherever its magnitude is below the threshold (a threshold of 0 changes nothing). The result has the shape of x, a constant image is returned unchanged for unit-sum blurs with value-replicating borders, and amount 0 returns x.",
     ["inputs", "configurations"],
     "average, gaussian and custom separable blurs with any initial stride, any padding mode, amounts of any sign, thresholds >= 0, ranks 1-4, axis subsets",
     "there is no test.",
     ["torchimage/filtering/sharpen.py", "torchimage/pooling/base.py"], [("forward", "torchimage/filtering/sharpen.py:UnsharpMask.forward")],
     ["UnsharpMask(...).forward"])

prop("P16", "MSE and PSNR match their definitions under every reduction and axis choice",
     "MSE returns the squared difference averaged (mean), summed (sum) or untouched (none) over exactly the requested reduce_axes (all axes for None, no axis for an empty selection), leaving the other axes in order; PSNR returns 20 log10(max_value) - 10 log10 of that quantity, with eps added inside the logarithm only when positive. Both are symmetric in their arguments, MSE is zero and PSNR +inf exactly when the images agree on the reduced axes (eps 0), and inputs of different shapes or unknown reductions are rejected.",
     ["inputs", "configurations"],
     "ranks 1-5, float32/float64, all axis subsets as ints, tuples, slices or None, positive or negative, max_value > 0, eps >= 0",
     "metric tests need scikit-image and cannot run; they only reduce over all axes.",
     ["torchimage/metrics/base.py", "torchimage/metrics/mse.py", "torchimage/metrics/psnr.py"], [("reduction", "torchimage/metrics/base.py:BaseMetric._reduce"), ("log transform", "torchimage/metrics/psnr.py:PSNR.forward")],
     ["MSE(...).forward", "PSNR(...).forward"])

prop("P17", "SSIM equals its definition, is symmetric, bounded and 1 on equal images",
     "The full SSIM map equals ((2 mu1 mu2 + K1^2)(2 s12 + K2^2)) / ((mu1^2 + mu2^2 + K1^2)(s1 + s2 + K2^2)) with means and (co)variances taken by the blur at stride 1 over the content axes, (co)variances multiplied by N/(N-1) with N the number of kernel elements when use_sample_covariance is set. The score is the mean of that map over the reduce axes (the map itself if there are none), after removing, when crop_border is set and a padder is used, exactly the border positions whose windows touch padding. SSIM is symmetric in its arguments, equals 1 on identical images, never exceeds 1 in magnitude for unit-sum nonnegative blurs with value-replicating or no padding, and rejects different shapes.",
     ["inputs", "configurations", "histories"],
     "gaussian, mean and custom blurs, any padder or none, K1, K2 > 0, both flags, ranks 1-4, content/reduce axis choices, images in and beyond [0, 1], odd and even kernels",
     "the scikit-image comparison cannot run and only covers window 11 with symmetric padding and population covariance.",
     ["torchimage/metrics/ssim.py", "torchimage/pooling/base.py"], [("moments", "torchimage/metrics/ssim.py:SSIM._mu_sigma"), ("border crop from the last-used widths", "torchimage/metrics/ssim.py:SSIM._crop_border")],
     ["SSIM(...).forward(..., full=True)"],
     [("blur.same_padder.pad_width", "last-used widths, read by the border crop", "torchimage/metrics/ssim.py:SSIM._crop_border")])

prop("P18", "MS-SSIM combines contrast-structure over dyadic scales with the given weights",
     "MS_SSIM equals, per sample and channel, the product of clamp(score_j, eps)^w_j (or the weighted sum of score_j when use_prod is false), where score_j is the contrast-structure mean over the cropped content axes at scale j, the last scale uses the full SSIM, and each scale halves the previous one by 2x2(x2) averaging dropping an odd remainder; the result is then averaged over reduce_axes. It holds for any number of weights >= 1 (one weight reduces to SSIM^w), is symmetric, and equals 1 on identical images under use_prod. Images too small for the number of levels or of different shapes are rejected.",
     ["inputs", "configurations"],
     "1-4 levels with arbitrary positive weights, small custom blurs, padders or none, both flags, 1-3 content axes, odd and even sizes",
     "the only test is commented out.",
     ["torchimage/metrics/ssim.py", "torchimage/pooling/uniform.py"], [("scale loop", "torchimage/metrics/ssim.py:MS_SSIM.forward")],
     ["MS_SSIM(...).forward"])

prop("P19", "Bayer layout conversions are lossless and mutually consistent",
     "bayer_1c_to_4c and bayer_4c_to_1c are exact inverses that move every sample between (2i + r, 2j + c) of the one-channel image and plane 2r + c; rgb_to_1c_bayer keeps at each pixel exactly the colour named by the sensor alignment there, rgb_to_4c_bayer equals its 4-channel form, and downsampling a Bayer image yields per 2x2 block its R, the mean of its two G and its B samples, identically from both layouts. They hold for all four alignments in upper or lower case, any number of leading dimensions, any even height and width and any dtype (dtype is preserved by the rearranging conversions). Every conversion makes a new tensor, so writing to it never changes the image it came from. Inputs with a wrong channel count, rank, parity or alignment are rejected.",
     ["inputs", "configurations"],
     "0-3 leading dimensions including size 0/1, all alignments and case variants, even sizes from 2, float, integer and uint8 images over their whole range",
     "there is no test for cfa/utils.",
     ["torchimage/cfa/utils/bayer_1c_4c.py", "torchimage/cfa/utils/rgb_to_bayer.py", "torchimage/cfa/utils/bayer_to_rgb.py", "torchimage/cfa/utils/validation.py"],
     [("strided slicing per block position", "torchimage/cfa/utils/*.py")],
     ["bayer_1c_to_4c", "bayer_4c_to_1c", "rgb_to_1c_bayer", "rgb_to_4c_bayer", "downsample_1c_bayer_to_rgb", "downsample_4c_bayer_to_rgb", "check_sensor_alignment"])

prop("P20", "BayerConv2d applies the filter of each pixel's colour role at that pixel",
     "At every pixel, the output of BayerConv2d is the centred, reflection-padded correlation of the input with the weights and bias registered for the role (R, B, G in a red row, G in a blue row) that the sensor alignment assigns to that pixel, for any odd kernel size, channel counts and even image size. forward_unshuffle, and BayerConv2dUnshuffle.forward, give exactly pixel_unshuffle (factor 2) of that output, for unbatched (c, h, w) and batched (n, c, h, w) input. Every call uses the weights the layer holds at that time, however they were changed and whatever the mode. Lower-case alignments are accepted and unknown ones rejected.",
     ["inputs", "configurations"],
     "kernel sizes 1/3/5/7, 1-4 input and output channels, bias on/off, all alignments, all even sizes large enough for reflection padding",
     "the single test compares the two forwards with each other for RGGB, kernel 5, one size: a wrong role or offset shared by both is invisible.",
     ["torchimage/cfa/bayer_conv/bayer_conv_2d.py"], [("per-position padding layers and stride-2 convolutions", "torchimage/cfa/bayer_conv/bayer_conv_2d.py:BayerConv2d")],
     ["BayerConv2d.forward", "BayerConv2d.forward_unshuffle", "BayerConv2dUnshuffle.forward"])

prop("P21", "Demosaicing keeps measured samples and interpolates per Malvar-He-Cutler",
     "demosaic(x, alignment, clamp) returns an RGB image of the same height and width in which each pixel's measured colour equals the clamped input sample and the two missing colours equal the 5x5 gradient-corrected bilinear filters of Malvar, He and Cutler (MATLAB demosaic) on the reflection-padded mosaic, everything clamped to [0, clamp]. Constant-colour images are reproduced everywhere, and images whose three channels are parallel affine functions are reproduced exactly in the interior, for all alignments. last_step_demosaic places measured samples and the two interpolated channels (in R,G,B order of the missing colours) at the positions the alignment dictates.",
     ["inputs", "configurations"],
     "all alignments in either case, even sizes from 4, batched or not, values inside and outside the clamp range, any clamp > 0",
     "there is no test.",
     ["torchimage/cfa/bayer_conv/gradient_corrected.py", "torchimage/cfa/bayer_conv/bayer_conv_2d.py"], [("filter table and role mapping", "torchimage/cfa/bayer_conv/gradient_corrected.py"), ("last_step_demosaic", "torchimage/cfa/bayer_conv/bayer_conv_2d.py")],
     ["torchimage.cfa.demosaic(...)", "torchimage.cfa.last_step_demosaic"])

prop("P22", "poly1d evaluates any polynomial elementwise",
     "poly1d(x, p) equals, elementwise, sum of p[i] * x^(len(p)-1-i) for every coefficient sequence of length >= 1 (lists, tuples, arrays or tensors; a single coefficient gives that constant), keeps the shape of x and its floating dtype, and leaves x unchanged. Evaluation is linear in the coefficients and differentiable in x with the derivative polynomial as gradient.",
     ["inputs"],
     "degrees 0-9, zero / negative / repeated coefficients, float32/float64 tensors of any rank including 0-d and empty",
     "one random degree-7 example is tested.",
     ["torchimage/misc/polynomial.py"], [("running power accumulated in place", "torchimage/misc/polynomial.py:poly1d")], ["poly1d"])

prop("P23", "safe_power is pow made finite on negative and zero bases",
     "safe_power(x, e) equals torch.pow(x, e) wherever x > 0 or e has no fractional part, equals -(|x| ** e) where x < 0 and e is fractional, and equals epsilon ** e where x == 0 and e is fractional, elementwise under broadcasting, for any mix of tensor and scalar arguments including integer tensors with fractional exponents. For finite input in range the value and the gradient with respect to the base are finite and match the derivative of that piecewise definition (at x == 0 as if x were epsilon), and so does the gradient with respect to the exponent wherever the base is positive or the exponent fractional; the arguments are not modified.",
     ["inputs"],
     "bases and exponents negative, zero, positive, integral and fractional, as scalars, 0-d or broadcastable tensors, float32/float64/int64, epsilon >= 0, with and without requires_grad",
     "six hand-picked examples are tested, none mixing cases inside one broadcast tensor.",
     ["torchimage/misc/power.py"], [("masked scatter of sign and epsilon", "torchimage/misc/power.py:safe_power")], ["safe_power", "its gradients"])

prop("P24", "outer, describe and pixels_per_degree equal their definitions",
     "outer(u, v) has shape u.shape + v.shape and entries u[i] * v[j] for tensors or arrays of any rank including 0-d. describe(x) returns the mean, sample standard deviation, minimum, linear-interpolated 25/50/75 percentiles and maximum of all elements as Python floats under the documented keys. pixels_per_degree equals vertical resolution divided by the vertical viewing angle of a square-pixel display, so it depends on width and height only through the aspect ratio and resolution as that geometry dictates.",
     ["inputs"],
     "tensors of rank 0-4 of any values; positive display geometries",
     "there is no test for any of the three except outer used inside an oracle that cannot run here.",
     ["torchimage/misc/outer.py", "torchimage/misc/stats.py", "torchimage/metrics/hdrvdp/pixels_per_degree.py"], [("outer", "torchimage/misc/outer.py"), ("describe", "torchimage/misc/stats.py"), ("pixels_per_degree", "torchimage/metrics/hdrvdp/pixels_per_degree.py")],
     ["outer", "describe", "pixels_per_degree"])

prop("P25", "random_crop returns an aligned window and can reach every offset",
     "random_crop(x, axes, size) returns, on each listed axis, a contiguous window of exactly the requested size (the whole axis for None, and for a size equal to the axis length), keeping all unlisted axes whole, for scalar or per-axis sizes. Every offset from 0 to length - size inclusive can occur and nothing outside, each about equally often, and the window is a pure function of the generator state, so equal seeds give equal crops and the global random state is untouched when a generator is given.",
     ["inputs", "histories"],
     "ranks 1-4, all axis subsets, sizes from 1 to the full length or None, many generator seeds",
     "there is no test.",
     ["torchimage/random.py"], [("offset draw", "torchimage/random.py:random_crop")], ["random_crop"])

prop("P26", "Noise models have the stated distribution and are reproducible",
     "add_gauss_noise(x, sigma) returns x plus independent zero-mean Gaussian noise of standard deviation |sigma|; add_poisson_gauss_noise(x, k, sigma) returns k * Poisson(x / k) plus such noise, hence mean x and variance k x + sigma^2, and with sigma 0 only nonnegative multiples of k. Shape and dtype are those of x, x is not modified, sigma 0 gaussian noise returns x exactly, the noise does not depend on the value of x and scales linearly with sigma for a fixed generator state. Equal generator seeds give equal results and a passed generator leaves the global random state untouched.",
     ["inputs", "histories"],
     "tensors of rank 0-4, float32/float64, sigma of any sign or zero, k > 0, x >= 0 for the Poisson model, many seeds",
     "there is no test.",
     ["torchimage/random.py"], [("sampling", "torchimage/random.py")], ["add_gauss_noise", "add_poisson_gauss_noise"])

prop("P27", "any_conv_1d equals direct strided dilated correlation on any axis",
     "any_conv_1d(x, w, dim, stride, dilation) equals, along dim, the sum over j of w[j] * x[i * stride + j * dilation] for every i for which the dilated window fits, leaving other axes in place, for any rank, positive or negative dim and any memory layout of x.",
     ["inputs", "configurations"],
     "ranks 1-5, all dims in both sign conventions, kernel lengths 1-6, strides 1-5, dilations 1-4, contiguous and non-contiguous tensors",
     "the test uses nonnegative dims, dilation 1 and contiguous tensors.",
     ["torchimage/pooling/operator.py"], [("reshape to conv1d / conv2d", "torchimage/pooling/operator.py:any_conv_1d")], ["any_conv_1d"])

prop("P28", "Operations never modify their inputs and ignore memory layout",
     "No padding, pooling, filtering, metric, colour-filter-array or misc operation changes its input tensors, its parameter lists, the axes given or the caller's kernels. The result depends only on the logical values: transposed, strided, offset or expanded views and tensors with requires_grad give the same result as a contiguous copy. Floating results keep the input's dtype.",
     ["inputs", "configurations"],
     "every public operation on float32/float64 tensors in several memory layouts, with parameters supplied as lists, tuples, arrays or tensors",
     "tests never look at inputs after the call and only pass contiguous tensors.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics/ssim.py", "torchimage/cfa", "torchimage/misc", "torchimage/random.py"], [("fresh output tensors before in-place filling", "torchimage/padding/generic_pad.py:Padder.forward")],
     ["every public callable"])

prop("P29", "Modules are history independent",
     "The result of calling a padder, pooling module, edge filter, Laplace/LoG, unsharp mask, SSIM, MS-SSIM or loss depends only on its configuration and the current arguments: after any sequence of earlier calls with other shapes, ranks, axes, dtypes or strides, on the same object or on other objects sharing the same padder, it equals the result of freshly constructed objects. A module turned into a filter by to_filter behaves like a fresh one from then on, and results handed out stay what they were.",
     ["histories", "inputs"],
     "sequences of up to 8 calls over several modules, some sharing one Padder instance, with changing shapes, axis sets, dtypes",
     "every test builds a new object and calls it once.",
     ["torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/metrics/ssim.py", "torchimage/filtering/edges.py"], [("widths rewritten before each use", "torchimage/pooling/base.py:BasePoolNd.pad"), ("last-used widths read back", "torchimage/metrics/ssim.py:SSIM._crop_border, torchimage/pooling/uniform.py:AvgPoolNd.forward")],
     ["module.forward in sequences"],
     [("Padder.pad_width", "mutable widths shared by everything holding the padder", "torchimage/padding/generic_pad.py")])

prop("P30", "Every operation is differentiable with the correct gradient",
     "For padding in every mode (except empty), pooling, filtering, sharpening, MSE, PSNR, SSIM, MS-SSIM, demosaicing, Bayer conversions and convolutions, poly1d and outer, back-propagating through the result gives finite gradients equal to the true derivative of the computed function, with respect to every image and every module parameter, at points where it is differentiable, for float64 inputs; the gradient can itself be differentiated, with the correct second derivative.",
     ["inputs", "configurations"],
     "every operation over its configuration space at randomly generated generic points (away from ties and thresholds)",
     "only safe_power gradients are looked at, for NaN.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc"], [("autograd through in-place slice assignment", "torchimage/padding/pad_1d.py"), ("in-place accumulation", "torchimage/filtering/edges.py:EdgeFilter.magnitude")],
     ["torch.autograd.grad of each operation"])

prop("P31", "Operations commute with axis permutation, batching and axis notation",
     "For padding, pooling, edge filters, Laplace, unsharp masking, MSE, PSNR and SSIM, processing a stack of images over the content axes gives the stack of the individually processed images, permuting the tensor's axes and the axis arguments together permutes the result, and negative indices, slices, None and explicit tuples naming the same axes give the same result. Linear operators (pooling, edge components, Laplace, padding by a linear rule) are additive and homogeneous. Padding, pooling and unsharp masking over an empty choice of axes leave the image as it is. A stack without images gives a stack without results, of the same type and remaining shape.",
     ["inputs", "configurations"],
     "ranks 2-5, random permutations, batch dimensions in any position, all ways of writing the axes",
     "tests use one axis notation per operation and never compare batched against single runs.",
     ["torchimage/utils/validation.py", "torchimage/padding/generic_pad.py", "torchimage/pooling/base.py", "torchimage/filtering/edges.py", "torchimage/metrics/ssim.py"], [("axis normalisation", "torchimage/utils/validation.py:check_axes")],
     ["forward / component / magnitude with different axes"])

prop("P32", "Invalid specifications are rejected, never silently computed",
     "Negative padding widths, strides below 1, unknown padding modes, out-of-range axis indices and parameter lists of conflicting lengths raise ValueError; stride > 1 same padding without an input size raises ValueError; a kernel or stride list whose length differs from the number of listed axes, metric inputs of different shapes, unknown reductions, more than one edge kernel or edge axis, and invalid Bayer shapes or sensor alignments raise an error. Valid specifications next to these limits (zero width, stride 1, the first and last axis, the widest legal crop) are accepted.",
     ["inputs", "configurations"],
     "invalid values generated around every limit, mixed with valid ones in scalar, pair and per-axis form",
     "only three rejections are tested.",
     ["torchimage/utils/validation.py", "torchimage/padding/generic_pad.py", "torchimage/utils/ndspec.py", "torchimage/cfa/utils/validation.py", "torchimage/metrics/base.py", "torchimage/filtering/edges.py"], [("check_axes, check_stride, check_pad_width", "torchimage/utils/validation.py"), ("agg_index_shape", "torchimage/utils/ndspec.py")],
     ["constructors and forward calls"])

prop("P33", "Gaussian edge losses equal their definitions",
     "GaussianEdgeLoss on (n, c, h, w) images equals the mean absolute difference of the Gaussian-derivative components along height and width (reflect borders) of prediction and target; WeightedMul multiplies, and WeightedDiv divides, each absolute difference by the target's component, and WeightedSum compares the per-sample, per-component mean absolute responses. GaussianEdgeLoss and WeightedSum are symmetric and zero on equal images.",
     ["inputs", "configurations"],
     "batch and channel counts 1-3, kernel sizes 1-7, sigma in [0.4, 3], orders 1-2",
     "there is no test.",
     ["torchimage/contrib/edge_loss.py", "torchimage/filtering/edges.py"], [("edge tensors concatenated on the channel axis", "torchimage/contrib/edge_loss.py")],
     ["GaussianEdgeLoss.forward", "WeightedMul", "WeightedDiv", "WeightedSum"])

prop("P34", "Copies of modules are faithful and independent",
     "A copy.deepcopy, pickle or torch.save/torch.load copy of any padder, pooling module, edge filter, Laplace or LoG filter, unsharp mask, metric, Bayer convolution or edge loss, made before or after use, computes the same results as the original. Using, reconfiguring (to_filter, to_same) or changing parameters of the original or the copy afterwards never changes the results of the other. A Bayer convolution restored from another's state_dict computes the same results.",
     ["configurations", "histories"],
     "every module kind over its configuration space, three ways of copying, both directions of later modification",
     "no test copies, saves or restores anything.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa/bayer_conv", "torchimage/utils/ndspec.py"], [("configuration held in plain attributes and NdSpec", "torchimage/utils/ndspec.py:NdSpec.__init__"), ("registered parameters", "torchimage/cfa/bayer_conv/bayer_conv_2d.py:BayerConv2d.__init__")],
     ["copy.deepcopy", "pickle", "torch.save / torch.load", "state_dict / load_state_dict"])

prop("P35", "Ambient process-wide settings do not change results",
     "Every public operation gives the same values and result dtype whatever the process-wide default dtype, gradient mode (enabled, no_grad, inference_mode at call time, inputs that require grad), deterministic-algorithm switch, number of threads and global random state are while it is constructed or called, and whatever the default device is while it is called with CPU tensors. (demosaic, documented for float32 in the default dtype, is excluded for the default dtype.)",
     ["inputs", "configurations", "schedules"],
     "every operation over its configuration space, random sets of up to three settings, applied at construction, at the call, or both",
     "all tests run under the default settings.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc", "torchimage/shapes"], [("dtype and device taken from the input", "torchimage/pooling/base.py:move_tensor"), ("counts in the input's dtype", "torchimage/pooling/uniform.py:AvgPoolNd.forward")],
     ["every public callable"])

prop("P36", "Unrelated operations may run in different threads",
     "Threads that construct and call their own padders, modules, metrics and functions (sharing no module, padder or random generator) each get the result they would get alone, however the statements of torchimage are interleaved.",
     ["schedules", "inputs"],
     "2 or 3 threads running any of the public operations, up to 12 forced switches at arbitrary torchimage statements",
     "all tests are single-threaded.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc", "torchimage/utils"], [("no module-level mutable state", "torchimage/padding/generic_pad.py"), ("modules keep their own padder", "torchimage/pooling/base.py:BasePoolNd._init_padder")],
     ["every public callable"])

prop("P37", "Non-finite or extreme pixels affect only results that depend on them",
     "A NaN, infinite or huge pixel leaves every result that does not depend on that pixel as it was, in padding, pooling, edge filters, Laplace and LoG, unsharp masking, the SSIM map, unreduced MSE/PSNR, Bayer operators and convolutions, demosaicing and the element-wise helpers; and every result that does depend on a NaN pixel is NaN: it is never silently dropped. (Dependence through a kernel weight of exactly zero is left open.)",
     ["inputs", "configurations"],
     "any pixel of any generated image, four kinds of poisoned value, every operation over its configuration space; dependence measured by finite changes of the same pixel",
     "no test contains a NaN, an infinity or a value beyond 1e6.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc"], [("window sums", "torchimage/pooling/base.py:SeparablePoolNd.forward"), ("statistics padding", "torchimage/padding/stat_padding.py")],
     ["every local public operation"])

prop("P38", "Operations run on the device of their input",
     "Called with tensors on a device other than the CPU, every public operation runs there without mixing in CPU tensors: each result is on the input's device with the shape and dtype of the CPU result, whether the module was built or used on CPU tensors before or not.",
     ["inputs", "configurations", "histories"],
     "every operation over its configuration space on a simulated CUDA device (torch FakeTensorMode), modules fresh or used on the CPU before; cases where the code needs tensor values are inconclusive",
     "the tests run on the CPU only.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc"], [("kernel moved to the input's device", "torchimage/pooling/base.py:move_tensor"), ("ramp built on the input's device", "torchimage/padding/pad_1d.py")],
     ["every public callable on a non-CPU tensor"])

prop("P39", "Results have the precision of the images",
     "Every operation except describe and demosaic accepts images of type float16, bfloat16, float32 and float64 and returns results of that type; on 16-bit images the results agree with those of float64 images of the same values to the rounding of the 16-bit type (SSIM, MS-SSIM and WeightedDiv, which cancel, and float16 overflow: type and shape only).",
     ["inputs", "configurations"],
     "every operation over its configuration space at four floating types, all memory layouts",
     "the tests use float32 and float64 only, mostly through default conversions.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc"], [("kernel moved to the input's dtype", "torchimage/pooling/base.py:move_tensor"), ("output allocated with the input's dtype", "torchimage/padding/generic_pad.py:Padder.forward")],
     ["every public callable on 16-bit tensors"])

prop("P40", "Operations leave nothing behind",
     "Building a module and calling any operation, accepted or rejected, leaves process-wide state as found: the random states of torch, numpy and Python (the random functions advance torch's global generator only when none is given), default dtype and device, gradient, anomaly and autocast modes, deterministic and thread settings, denormal flushing, numpy error handling, print options, warning filters, environment and working directory; it prints nothing, keeps no reference to an image or result once the caller drops it, and a dropped module is freed.",
     ["inputs", "configurations", "histories"],
     "every operation over its configuration space, up to three accepted and rejected calls, usual and unusual settings, with and without gradients",
     "the tests look at results only.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/cfa", "torchimage/misc", "torchimage/random.py", "torchimage/contrib/edge_loss.py"],
     [("generator argument of the random functions", "torchimage/random.py"), ("modules keep parameters only", "torchimage/pooling/base.py")],
     ["process-wide settings and object life times around every public callable"])

prop("P41", "Numbers may be numpy scalars",
     "Every numeric parameter of a module, operation or size function (sizes, widths, strides, dilations, sigmas, orders, weights, coefficients, constants, statistic lengths, exponents, peak values, thresholds, amounts, crop sizes, noise parameters) may be given as a numpy scalar of type int32, int64 or float64, alone or within lists, and a flat list of numbers as a numpy array, with the same result, result dtype and shape as the equal Python numbers.",
     ["inputs", "configurations"],
     "every operation over its configuration space, and every size function, with its numbers replaced by the equal numpy ones",
     "the tests pass Python numbers throughout; sizes taken from numpy shapes and arrays are what users often have.",
     PAD + POOL + EDGE + ["torchimage/filtering/sharpen.py", "torchimage/metrics", "torchimage/shapes/conv_like.py", "torchimage/utils", "torchimage/misc", "torchimage/random.py", "torchimage/contrib/edge_loss.py"],
     [("parameters converted to specifications", "torchimage/utils/ndspec.py:NdSpec.__init__"), ("scalar or sequence", "torchimage/utils/ragged.py:is_scalar"), ("strides and widths validated", "torchimage/utils/validation.py:check_stride, check_pad_width")],
     ["every public callable with numeric parameters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
