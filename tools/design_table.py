"""Per-property design rows, used for DESIGN.md."""
ROWS = [
("P01","closed-form infinite extension per mode (index arithmetic, sign/affine drift by period)","exhaustive small scope: every mode x length 1..6 x before/after 0..14, plus random ranks, axes, dtypes, layouts, values incl. nan/inf for copying modes"),
("P02","direct formulas for constant, ramp and the four statistics","exhaustive small scope over length, widths, stat_length (None, 0, beyond n), plus random per-axis parameters"),
("P03","sequential 1-D numpy reference with right-justification and axis order","random ranks 1-5, axis orders, mixed modes, surplus entries, callables, pad_axis, mode empty"),
("P04","brute force: count windows, minimality, symmetry; arithmetic enumerated","exhaustive n,k,s <= 24 plus random large and per-axis"),
("P05","literal counting of 0/1 windows","exhaustive in_size, widths, kernel, stride in a box; random larger and N-D"),
("P06","small independent model of broadcasting over nested lists","random nested data of every container kind and item shapes"),
("P07","python list comprehension model, call log of the mapped function","random specs with 0/1/2-D index shapes and function kinds"),
("P08","recursive shape model, numpy.broadcast_to, leaf order","random nested data, target shapes"),
("P09","numpy sliding windows dotted with the dense outer-product kernel","random kernels, strides, axes, ranks, kernel containers"),
("P10","reference same padding + reference pad + dense correlation","random modules, modes, parameters, to_filter chains"),
("P11","numpy window means over original elements; torch avg_pool differential","random plus enumerated 1-D box"),
("P12","Hermite closed form in float64","enumerated kernel sizes x orders, random sigma, per-axis pooling"),
("P13","reference pad + correlation per axis","random filters, kernels, modes, axes"),
("P14","sum of reference components","random p, epsilon, axes, modes"),
("P15","formula on reference blur","random blurs, thresholds placed away from ties"),
("P16","numpy definitions","random axes, reductions"),
("P17","definition with reference correlation; symmetry, identity, bound","random blurs, paddings, flags, axes, image scales"),
("P18","definition by scale loop with reference correlation","random weights, levels, blurs"),
("P19","index formula per pixel, round trips, all dtypes","random leading dims, alignments, dtypes incl. uint8 extremes"),
("P20","per-pixel loop over taps with reflected indices and the role's weights","random kernels, channels, alignments, sizes"),
("P21","published 5x5 filters by colour role, per-pixel loop; affine and constant metamorphic relations","random alignments, sizes, clamps"),
("P22","numpy Horner in float64, derivative polynomial","random degrees, containers, dtypes"),
("P23","piecewise scalar definition and its analytic derivative","random broadcast shapes mixing all cases"),
("P24","numpy outer/percentile, trigonometric definition","random"),
("P25","window identification on distinct values, reachability and uniformity over seeds","random shapes, sizes; seed sweeps"),
("P26","moments and support with exact thresholds on fixed seeds; linearity in sigma; independence of x","random parameters, large samples"),
("P27","direct sum over taps","random ranks, dims, strides, dilations, layouts"),
("P28","snapshot of arguments before/after, contiguous twin","every public operation x layouts"),
("P29","fresh twin objects for every step of a generated call history","histories of up to 8 calls over modules sharing padders"),
("P30","central finite differences of the function along random directions","every public operation at generic points"),
("P31","stacking, permutation, notation and linearity relations","every axis-taking operation"),
("P32","expected rejection / acceptance by construction","invalid values around each limit, next to accepted neighbours"),
("P33","definition with reference components","random"),
("P34","results of an untouched twin built from the same description","every module kind x (deepcopy, pickle, torch.save) x (used, new) x which side is changed afterwards"),
("P35","the same operation under default settings","every public operation x random sets of ambient settings x construction / call / both"),
("P36","the same operation alone in one thread","2-3 threads, deterministic schedules with up to 12 forced switches at torchimage statements (sys.settrace, one thread runs at a time)"),
("P37","the same operation with finite changes of the same pixel (dependence), and the unpoisoned result elsewhere","every local operation x pixel x nan / inf / huge"),
("P38","device, shape and dtype of the CPU run","every public operation on a simulated CUDA device (FakeTensorMode), fresh or used modules, generated truth values"),
("P39","the same operation in float64 on the same numbers, tolerance calibrated by its float32 error; result types","every public operation x float16 / bfloat16 / float32 / float64"),
("P40","snapshots of process-wide settings, weak references to every tensor, array and module","every public operation, histories of accepted and rejected calls, default and unusual settings"),
("P41","equal Python numbers (differential)","every operation over its configuration space with its numbers as int32/int64/float64 numpy scalars or arrays; the size functions on sizes up to 400"),
]
