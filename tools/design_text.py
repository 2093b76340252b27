TEXT = """# Verification of torchimage by property-based testing

@N@ properties (properties.jsonl) cover every package of torchimage: padding, pooling, filtering,
metrics, colour filter arrays, the parameter containers (NdSpec, ragged arrays), misc, random and
contrib.  P01-P27 and P33 say what each operation computes; P28-P32 and P34-P41 are guarantees all
operations share (purity, history independence, differentiability, axis conventions, rejection,
copies, ambient settings, threads, poisoned pixels, devices, precision, traces left behind).  Every
one is decided by generated-input search against an explicit oracle; none is not_applicable.  The
metrics/hdrvdp/hdrvdp3 stub has no behaviour.

## Method

* A *case* is a JSON value drawn by Hypothesis (or enumerated exhaustively for small integer
  domains): shapes, dtypes, layouts, parameters, and a value recipe for every tensor.  All
  randomness is inside the drawn case, so shrinking and replay are exact.  A *test* is a pure
  function of the case: it calls the public API of /repo's working tree and compares with a
  reference written here (lib/ref.py, lib/trees.py, lib/ssimref.py: numpy in float64, no code shared
  with the repository).  Three kinds of oracle: a reference model (P01-P27, P33), a metamorphic or
  differential relation (P28, P31, P34-P39, P41), an invariant over a history (P29, P34, P36, P40).
* Verdicts (lib/core.py).  Calls into torchimage are marked: raising on an input of the property's
  domain, a wrong value, a result the oracle cannot read, dying (signal) or spending 90 CPU seconds
  on one tiny case is a violation.  An exception in the harness or a reference is exit 2, never a
  violation.  A violation is shrunk by Hypothesis, written to replays/, and executed once more in a
  fresh process before it is reported; `./run.sh replay FILE` repeats it.
* Processes.  check.py forks up to 8 workers, each with its own derived seed; the case being
  executed is kept in a memory-mapped file so that it survives the death of its worker.  Only the
  API named in the properties is used, never private helpers, attributes or source text, so that
  rewriting the implementation changes nothing for a check.
* Shared machinery.  lib/ops.py: a registry of all public operations (strategy, constructor, call,
  labels that map output axes to input axes, whether the operation is linear, differentiable, takes
  axes), used by P28, P30, P31, P32, P34-P41.  lib/iso.py: runs a history in one forked process and
  every step of it on fresh objects in a process of its own (P29).  lib/sched.py: a deterministic
  scheduler for P36; sys.settrace stops every thread at each line of torchimage code, exactly one
  thread runs at a time, and the schedule (forced switches) is part of the case; a thread that
  does not reach its next line within 5 s hands over.  P38 simulates a CUDA device with torch's
  FakeTensorMode, in which mixing devices raises as it would on hardware; values do not exist there,
  so branches on values take generated truth values and cases needing more are inconclusive.
* Tolerances are relative to the size of the quantities entering the computation (the reference
  reports it), a few hundred ulps plus the smallest normal number, so that reassociating a sum stays quiet; exact
  equality is required only of operations that copy values and of integer arithmetic.  P09, P10 and P13
  judge every element against the sum of the absolute terms of that element, so that an error beside a
  bright pixel is not hidden by it; P12 does the same with the exact Hermite polynomials (order up to 14,
  kernels up to 2501 long).
* Tiers.  quick: the counts in each test; thorough: twelve times as many random cases and larger
  enumerated boxes (5-15 min per property).  Evidence (evidence/<id>.json) holds counts, distinct
  non-trivial counts, label histograms and samples.  quick costs 15-60 s per property on 8 cores.

## Oracles and domains

| id | oracle | generated domain |
|---|---|---|
@ROWS@

Why this reaches what the tests cannot: the 41 tests sample ten random shapes of one configuration
each, in natural axis order, float64, contiguous, one call per object.  The defects found, and the
planted ones below, need a particular width against a length, an axis order, a mixed per-axis list,
a dtype, a memory layout, a second call, a second thread or an extreme value; each of these is a
dimension of the generated case here.

## Defects found and repaired

25 genuine defects, each repaired by one "fix:" commit and listed in known_findings.txt with the
property whose check shows it.  None is left open: the KNOWN-FINDING mechanism exists in check.py
and the file has no "known:" entry.

## Bounds and exclusions

Most generated tensors have at most a few hundred elements; "large" and "long" tests go to some thousand, and
"huge" tests (most operations) to sides of every order of magnitude up to 12 000 (padding widths, outer and noise to more than
65 536 elements), because an error may need a size threshold or a seam.  Nothing is proved beyond the generated and
enumerated cases.  What the properties leave out, because the
package does not define it, or because its result is legitimately free:

* Padding: repeated axes (only for un-padded separable pooling), zero-length axes (except as batch
  axes, P31 "empty"), periodize with zero width, and periodize as same mode (adds an element to odd
  lengths); unsigned types for modes that negate or extrapolate, integer types for linear_ramp/mean.
* Pooling: integer tensors; count_include_pad=False only with zero padding; a padder shared with a
  module may not be called directly (to_same is documented to overwrite its widths), nor from two
  threads.  GaussianGrad with per-axis sizes needs explicit edge_kernel_size and edge_sigma.
* Edges: odd p >= 3 of magnitude only where the sum is safely positive; UnsharpMask thresholds away
  from ties (dyadic arithmetic).
* Metrics: empty reduce axes; the SSIM bound only for value-replicating or no padding and
  non-negative unit-sum blurs; sample covariance needs more than one kernel element; SSIM in float32
  is not compared across roundings (differences of nearly equal numbers), only in float64.
* Colour filter arrays: even BayerConv kernels, 5-D input; demosaic is float32, 3-D or 4-D; Bayer
  parameters are not built in inference mode (torch forbids their use with autograd).
* Misc: poly1d of integer tensors with a fractional bias; safe_power: gradient of the exponent at
  negative bases with integral exponent, 0-d operands of mixed dtype; describe needs float32/64
  (torch.quantile); any_conv_1d not on empty tensors; string arrays as specifications.
* P37: no multi-axis order statistics, no kernels whose weights are all zero, zero weights times NaN
  may or may not produce NaN at that pixel.  P38: not describe and the random functions.  P39: no
  dead zone; only type and shape where 16-bit cancellation or overflow decides.
* P40 does not limit what a module caches of its own parameters.

## False alarms met and how they were resolved

Each was a property or oracle stronger than what the package promises, corrected in the check:
P22 (a 0-d input takes the coefficients' type), P23 (0-d operands of mixed type), P28 (describe's tolerance
follows the input type; whether a result requires grad is P30's matter), P35 (parameters built in inference
mode), P37 (zero weight times NaN, order statistics of order statistics), P38 (kernels passed as CPU tensors
must be real), P31/P28 (float32 SSIM with extrapolating borders is ill-conditioned), P31 (any_conv_1d on
empty tensors), P32 (the harness turned the invalid axis n of the one-axis form into the valid axis 0),
P09 (products of three float32 weights of 1e-15 are denormal: tolerance includes the smallest normal number,
weights are kept above 1e-9), P24 (std of 12 000 strided elements, summed sequentially: tolerance grows with n), P14
(float32 powers overflowing on long axes are skipped), P30 (WeightedDiv divides by edges that symmetry makes
zero up to rounding: the effect of rounding the inputs is measured and added to the tolerance), P23 (a Python
exponent meets float32 data in float32), P16-P18, P24, P33 (a float32 mean taken as one running sum loses up to
n/2 ulp: found by running the checks on trees refactored by hand, below).  No check was loosened to quieten a real defect.

## Planted bugs

@NB@ changes, each compiling and passing the repository's tests, each with a demonstration.  They were written
from the property texts; those first missed led to stronger checks (see below).  All are caught now, by
the quick check of their own property; tools/seeded.py repeats the experiment.

| change | property | what it breaks | needs |
|---|---|---|---|
@BUGS@

Missed at first, and what was added: errors that only tests with wide images, empty batches, float16,
unusual process settings, second derivatives, per-axis mixtures with surplus entries, a second call of another
shape on a shared padder, thread switches inside a call, or poisoned pixels can show.  Those are now
dimensions of P01-P03 (rank 6-7, "large"), P31 ("empty"), P39, P35/P40 ("unusual"), P30 ("second"), P03, P29,
P36 and P37.  A second round of planted bugs took shortcuts that hold for random data only (nearly uniform
kernels, nearly equal images, nearly integral exponents, nearly flat or faint images, sums near one) or acted
beyond a size (degree 65, 48 taps, 2^18 samples, counts over 2^31, strides over 1000, ramps over 2000
samples), shared a returned list or storage, or misread slices with steps and numpy indices.  So value
generators also draw structured images (near-equal, faint, sparse, one spike, binary, palindromic, repeated
rows, ramps, isolated dots) and structured kernels (also far wider than the image), every operation is also run on wide images with long kernels, and callers
overwrite what they were given.  A third round kept state (memoised counts, a reused output buffer, converted
weights kept in evaluation mode, a module-level pair of ramp ends), changed the axes list it was given, took
empty index dimensions, slices, NdSpec-wrapped widths, kernels with a negative sum, bases below epsilon or
rates over 10^6 for ordinary cases, or computed integers through doubles.  P29 now also reconfigures modules
in mid-history and re-reads earlier results at the end, P20 changes the weights between calls in every way and
mode, P36 ("interrupted") stops one call at every statement in turn to run the same operation with other
numbers, P28 watches the axes arguments, and P01, P06, P07, P13, P23, P25, P26, P31, P32 draw such inputs.  A fourth
round took numpy scalars, empty batches, kernels longer than their axis, means near the top of a 16-bit type and
weights that nearly sum to one: P41, P27 ("empty"), P09 ("long"), P11 ("range") and P18 draw those.

## Behaviour-preserving edits

Two trees rewritten by hand without changing behaviour (padding by index gathering instead of slice copies,
pooling as a sum of windows and as a convolution, the SSIM statistics from stacked images or as luminance times
contrast-structure, Horner against power sums, helpers merged or split) are run through all checks with several
seeds; VERIF_MARGIN=FILE additionally records every comparison that used more than a tenth of its tolerance.

## Mutation campaign

tools/mutate.py applies small syntactic changes (operators, constants, names, arguments, statements) to
every source file in scratch copies and runs the relevant checks.  Base campaign: 1386 mutants, about 89 %
killed; every survivor was read.  The survivors are equivalent changes (redundant device or dtype moves,
unreachable guards, docstring-only defaults, alternative but equal arithmetic), deprecated private helpers,
or led to new tests (left-out Padder arguments, unsupported width formats, non-integral apply depth, index
ranks, 0-d tensors, default options of every edge filter).  A second, guarded campaign makes the killed mutants act
only when a random condition on local values holds, to imitate bugs that need something specific.
"""
