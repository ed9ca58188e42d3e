#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they cannot drift apart.

A property whose check module (kmon/props/cXX.py) does not exist is listed under not_applicable."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(pid, title, statement, text, why, files, mech, technique, note, over=('inputs',)):
    assert len(title) <= 80, title
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                      mech=[dict(name=nn, where=ww) for nn, ww in mech], technique=technique, note=note))


KDE, KER, SAM, UTI, PLT, INI = ('kalepy/kde.py', 'kalepy/kernels.py', 'kalepy/sample.py', 'kalepy/utils.py',
                                'kalepy/plot.py', 'kalepy/__init__.py')

prop('C01', 'The density is the weighted sum of normalized kernels at the data',
     "At every point, the density of a KDE is the sum over data of weight times the normalized kernel of that datum, with the squared "
     "smoothing matrix being the data covariance times the squared bandwidth; the pdf is that sum divided by the total weight. This "
     "holds for every kernel (gaussian, box, parabola/epanechnikov, triweight), number of dimensions, data, weights, bandwidth specification "
     "and memory layout or type of the inputs.",
     "all datasets, weights, kernels, dimensions, bandwidths and evaluation points",
     "Tests compare a few gaussian and box cases in 1-3 dimensions with fixed data; the claim is pointwise equality for every input.",
     [KDE, KER], [('Kernel.density', KER), ('_evaluate_numba', KER), ('_Distribution.norm / _evaluate', KER), ('KDE.density', KDE)],
     'runtime monitoring: reference-model oracle on every density evaluation',
     'every monitored evaluation is compared pointwise with an independent kernel sum (1e-7 relative); says nothing about inputs not drawn')

prop('C02', 'Probability densities are finite, non-negative and integrate to one',
     "Every density is finite and non-negative everywhere; integrated over its whole support, the pdf gives one and the density gives the total weight. "
     "This remains true with reflecting boundaries, projections onto parameters, weights, and any kernel or bandwidth.",
     "all KDEs with data inside of their boundaries, all evaluation points",
     "Tests integrate a few fixed KDEs on a grid; normalization of each kernel in each dimension and boundary combination is not reached.",
     [KDE, KER], [('_Distribution.norm', KER), ('Kernel.density', KER), ('KDE.density probability', KDE)],
     'runtime monitoring: conservation oracle (quadrature over the support) and non-negativity monitor on every event',
     'quadrature with per-kernel error bounds; online monitor sees every density value returned in the workload')

prop('C03', 'Reflecting boundaries: zero outside, mirror images inside',
     "With reflecting boundaries, the density outside of any boundary is exactly zero, and inside it is the sum of the unreflected density and its "
     "mirror images across each boundary (products of images in several dimensions). Boundaries may be given at construction or per call, on "
     "either or both sides of any dimension, or found automatically, in which case they enclose the data; the caller's specification is never modified.",
     "all KDEs, boundary specifications and evaluation points",
     "Tests use a handful of 1D/2D boundaries and check few points.",
     [KDE, KER], [('Kernel.density reflect', KER), ('_check_reflect', KER), ('KDE.reflect', KDE)],
     'runtime monitoring: reference-model oracle (explicit sum over mirror images)',
     'pointwise comparison for random boundary layouts; kernels wider than the domain use single images as the code documents')

prop('C04', 'Projections are the marginal densities, in the order of the parameters asked',
     "Asking for a density, pdf or grid with `params` gives the density of those parameters alone, in the order they were asked for, "
     "whichever way the parameters are written (integer, list, tuple, array). It equals the KDE of the selected data with the selected part of the "
     "covariance and boundaries, and for the gaussian kernel the exact marginal of the full density.",
     "all KDEs in 2-4 dimensions, all parameter subsets and orders",
     "Tests project one or two fixed subsets.",
     [KDE, KER, UTI], [('params handling in density', KER), ('cov_keep_vars', UTI), ('KDE.density params', KDE)],
     'runtime monitoring: reference-model and marginalization oracles',
     'finite-kernel projections follow the documented convention (same kernel in fewer parameters)')

prop('C05', 'How a density is asked for does not change its value',
     "The density at a point does not depend on what else is evaluated in the same call: grid or mesh, order, batches, repetition, lists or arrays, "
     "scalars, and convenience functions (kalepy.density, kalepy.pdf) against methods all give the same numbers. The shape of a result follows the points "
     "asked for, and default evaluation points cover the data and are returned with the values.",
     "all KDEs and all equivalent ways to query them",
     "Tests compare grid and non-grid for a few cases.",
     [KDE, KER, INI, UTI], [('KDE.density grid', KDE), ('chunked evaluation', KER), ('wrappers', INI)],
     'runtime monitoring: metamorphic oracle over equivalent queries', 'agreement to 1e-10 relative', over=('inputs', 'histories'))

prop('C06', 'The CDF rises monotonically from 0 to 1 and is the integral of the density',
     "The cumulative distribution lies in [0, 1], never decreases along any parameter, is 0 below and 1 above all data (at and beyond the boundaries when "
     "reflecting), and equals the integral of the pdf up to its grid interpolation. The value at a point does not depend on the other points asked or on earlier calls.",
     "all KDEs and evaluation points, in one and two dimensions",
     "Tests compare a few CDFs with a loose tolerance.",
     [KDE, UTI], [('KDE.cdf', KDE), ('cumtrapz', UTI)],
     'runtime monitoring: order/limit monitors and integral oracle', 'interpolation error bounded by stated tolerances')

prop('C07', 'Resampled points are draws from the kernel density',
     "Points drawn without boundaries follow exactly the KDE's own distribution: each draw belongs to a datum chosen with probability proportional to its weight, displaced "
     "by an independent draw of the normalized kernel scaled by the smoothing matrix. The requested number of points is returned, with one row per parameter (default: "
     "the number of data points), and repeated calls give fresh draws.",
     "all KDEs, kernels, dimensions, weights and sizes",
     "Tests apply one loose KS test to a few datasets; wrong kernels, correlations or datum choice in other settings go unseen.",
     [KDE, KER], [('Kernel._resample_clear', KER), ('_Distribution.sample', KER), ('KDE.resample', KDE)],
     'runtime monitoring: exact distributional oracle over recorded draws', 'statistical verdicts at p < 1e-10, 1e3-1e4 draws per case')

prop('C08', 'Resampling with boundaries stays inside and follows the reflected density',
     "With reflecting boundaries every drawn point lies inside of every boundary, the requested number is returned, and the draws follow the reflected density (mirror images folded inside). "
     "Boundaries can be overridden or disabled per call.",
     "all KDEs with boundaries, all sizes",
     "Tests draw from a few 1D/2D cases.",
     [KDE, KER], [('Kernel._resample_reflect', KER), ('_reflect_samples', KER)],
     'runtime monitoring: containment monitor on every draw, distributional oracle', 'statistical verdicts at p < 1e-10')

prop('C09', 'Kept parameters take original values of one datum; the others are smoothed',
     "When resampling with `keep`, the kept parameters of each drawn point are exactly the values of one datum, chosen in proportion to its weight, and the remaining parameters are that same datum's "
     "values displaced by the kernel (inside of the boundaries, if any). Every spelling (integer, list, True, False/None) is honored; contradictory requests are rejected.",
     "all multi-dimensional KDEs and subsets of kept parameters",
     "Tests check membership for one dataset, not the association to the datum, nor the smoothing of the others.",
     [KDE, KER, UTI], [('keep handling in resampling', KER), ('cov_keep_vars', UTI)],
     'runtime monitoring: each draw matched to its datum, distributional oracle', 'data values are distinct so that draws can be attributed')

prop('C10', 'Weights are relative importances: scale-, order-free, and like repeated points',
     "Multiplying all weights by a constant scales the density and leaves the pdf, CDF, bandwidth, covariance and draws unchanged; permuting the data with their weights (or the parameters) changes nothing else. Integer "
     "weights act like repeated points, zero-weight points contribute nothing, and equal weights act like no weights.",
     "all weighted KDEs",
     "Tests use one or two weight vectors.",
     [KDE, KER], [('weights in KDE/Kernel', KDE), ('weighted covariance, neff', KDE), ('_evaluate_numba weights', KER)],
     'runtime monitoring: metamorphic oracle between twin KDEs', 'repeated/dropped points compared at equal covariance and bandwidth')

prop('C11', 'Densities and draws follow a change of units of the data',
     "Shifting, rescaling, or mirroring parameters (together with boundaries and evaluation points) changes the density only by the Jacobian and leaves the CDF unchanged; resampled points, "
     "from the same random stream, transform like the data. For KDEs using the full covariance the same holds for any invertible linear mixing of parameters.",
     "all KDEs and all affine changes of units within floating point range",
     "Tests never compare units; fixed data have unit scale.",
     [KDE, KER, UTI], [('covariance scaling', KDE), ('whitening', KER), ('automatic extrema', UTI)],
     'runtime monitoring: metamorphic oracle between twin KDEs', 'scales 1e-6..1e6, shifts up to 1e4 spreads')

prop('C12', 'Bandwidth specifications give the documented smoothing matrix',
     "The bandwidth reported and used is the documented one: Scott n^(-1/(d+4)) (default) or Silverman (n(d+2)/4)^(-1/(d+4)) with n the effective number of points, a number, one value per parameter, or a "
     "matrix, all times bw_rescale; and the squared smoothing matrix is the (given or weighted data) covariance times the squared bandwidth, diagonal only if asked. The widths of the density and the spread of draws agree with it.",
     "all data, weights, bandwidth, covariance, neff, diagonal and rescaling specifications",
     "Tests check a few spellings on fixed data.",
     [KDE, KER], [('KDE._set_bandwidth / _compute_bandwidth', KDE), ('KDE._finalize', KDE), ('Kernel matrix', KER)],
     'runtime monitoring: reference-model oracle on observed attributes, densities and draws', 'tolerances 1e-8 relative')

prop('C13', 'Points drawn from a grid follow the gridded distribution',
     "Every point sampled from a gridded density lies inside of the grid; bins are chosen in proportion to their mass (given, or integrated from the density), and within its bin each coordinate follows the "
     "linear interpolation of the density. Empty bins are never drawn, the number of points is the one asked for, or the whole part of the total mass by default.",
     "all grids (1-4 dimensions, uneven edges), densities and masses",
     "Tests compare histograms for a few smooth grids.",
     [SAM, UTI], [('Sample_Grid.sample', SAM), ('_random_bins', SAM), ('_intrabin_linear_interp', SAM), ('_data_to_cumulative', SAM)],
     'runtime monitoring: containment monitor, chi-squared and KS oracles over recorded draws', 'statistical verdicts at p < 1e-10')

prop('C14', 'Scalars and weights returned with grid samples match the field at the sample',
     "Scalar values returned with grid samples are the given scalar field, interpolated linearly at the position of each sample. Proportional sampling returns points following the portion and weights "
     "that restore the intended density, so weighted totals are conserved.",
     "all grids, scalar fields and proportions",
     "Tests check ranges for one smooth field.",
     [SAM], [('Sample_Grid.sample scalars', SAM), ('sample_grid_proportional', SAM)],
     'runtime monitoring: reference-interpolation oracle on every returned scalar', 'linear interpolation within bins as documented')

prop('C15', 'Outlier sampling: massive bins appear once at their centroid, the rest is drawn',
     "Splitting a grid at a threshold, every bin more massive than the threshold appears exactly once, at its centre of mass, with a weight equal to its mass; the other bins are sampled with unit weights, following their distribution. "
     "The total weight is the total mass up to rounding of the drawn part (or the number asked for).",
     "all grids and thresholds, including everything or nothing above it",
     "Tests use two thresholds on one smooth grid.",
     [SAM, UTI], [('Sample_Outliers', SAM), ('centroids', UTI)],
     'runtime monitoring: exactly-once and conservation oracles over returned points', 'bins of mass equal to the threshold are sampled')

prop('C16', 'Grid integrals, cumulative sums, midpoints and centroids obey their definitions',
     "Integrating a gridded function cell by cell gives the average of the corners times the volume of each cell, along all or any subset of axes (negative axes included); totals, cumulative integrals and cumulative sums are the corresponding sums, and "
     "agree with each other. Midpoints (linear or log) and bin centroids lie inside of their bins and are the exact centres.",
     "all gridded functions of 1-4 dimensions with increasing edges",
     "Tests check a few shapes and axes.",
     [UTI], [('trapz_nd', UTI), ('trapz_dens_to_mass', UTI), ('cumtrapz', UTI), ('cumsum', UTI), ('midpoints', UTI), ('centroids', UTI)],
     'runtime monitoring: reference-model and conservation oracles', 'agreement to 1e-9 of the summed magnitudes')

prop('C17', 'Weighted quantiles and ranges are those of the weighted distribution',
     "A weighted quantile lies between the data values whose cumulative weights bracket it, never decreases with probability, ignores zero-weight values, the order of the data and the scale of the weights, and works along any axis; sigmas mean the corresponding "
     "probabilities. Ranges (minmax) enclose exactly the finite data wanted, with the requested stretch, limits, and combination with earlier ranges.",
     "all values, weights, probabilities, axes and options",
     "Tests use a few unweighted or sorted arrays.",
     [UTI], [('quantiles', UTI), ('minmax', UTI), ('stats_str', UTI), ('iqrange', UTI)],
     'runtime monitoring: bracket/monotonicity oracles and metamorphic relations', 'interpolation between bracketing values is unspecified')

prop('C18', 'Automatic edges and extrema cover the data as specified',
     "Automatically chosen grid edges and extrema are finite, strictly increasing and enclose the given data (or exactly the requested extrema, with unbounded sides filled from the data); an integer asks for that many bins, "
     "and explicit edges are returned unchanged. A KDE's own extrema reach beyond its data except where a reflecting boundary cuts them, and its points resolve the kernels.",
     "all data, weights, edge and extrema specifications",
     "Tests check a few 1D/2D specifications.",
     [UTI, KDE], [('parse_edges', UTI), ('_parse_extrema', UTI), ('_guess_edges', UTI), ('KDE.extrema / points', KDE)],
     'runtime monitoring: coverage and ordering monitors', 'number of automatic bins is only bounded, not prescribed')

prop('C19', 'Arguments are never modified, and results do not depend on earlier calls',
     "No public function or method modifies the arrays, lists or dictionaries it is given. Evaluating, resampling or plotting never changes later results of the same or another KDE; only resampling and sampling use randomness, and do so reproducibly from numpy's seed.",
     "all sequences of public calls, in any order",
     "Tests call functions once on throw-away arrays; aliasing, caching and stream use across histories are not observed.",
     [KDE, KER, SAM, UTI, PLT], [('input copies / atleast_2d views', KDE), ('cached properties', KDE), ('numpy global random stream', KER)],
     'runtime monitoring: argument-snapshot monitor on every API event, differential replay of call histories',
     'snapshots compare bytes before and after each top-level call', over=('inputs', 'histories'))

prop('C20', 'Plotted histograms and densities show the values they are computed from',
     "Drawn histograms have heights equal to the weighted counts (or densities, or probabilities) of the data in each drawn bin, in one and two dimensions, and drawn density curves and maps pass through the KDE values at the drawn positions. "
     "Rotating or masking an axis changes only the presentation.",
     "all data, weights, bins and drawing options",
     "Tests only check that plotting does not raise, or compare a few heights.",
     [PLT, UTI], [('hist1d / hist2d', PLT), ('dist1d / dist2d', PLT), ('utils.histogram', UTI)],
     'runtime monitoring: oracle over the matplotlib artists actually drawn', 'observes artist data, not pixels')

prop('C21', 'Confidence intervals and contours enclose the stated fractions',
     "Confidence intervals and bands drawn or returned for data bracket the stated weighted fractions about the median, and median lines and cross-hairs lie at the weighted median of the parameter shown. Contour levels for two-dimensional distributions are the density thresholds above which the stated fractions of the total lie (on evenly spaced grids), in decreasing density for increasing fraction.",
     "all data, weights and fractions",
     "Tests check one smooth case or only that nothing raises.",
     [PLT, UTI], [('confidence', PLT), ('_dfracs_to_levels', PLT), ('contour', PLT), ('quantiles', UTI)],
     'runtime monitoring: enclosed-mass oracle over returned levels and drawn artists', 'grid granularity bounds the fraction error')

prop('C22', 'Plotting calls are independent: settings do not leak, given settings stay intact',
     "What a plotting call draws depends only on its own arguments (and the figure it draws on): options given to one call or one figure never affect later calls or other figures, and dictionaries of options given by the caller are not modified.",
     "all sequences of plotting calls",
     "Tests make one plot per figure.",
     [PLT], [('Corner defaults and keyword dictionaries', PLT), ('_none_dict', PLT)],
     'runtime monitoring: differential oracle over recorded artists of call histories', 'observes artist data', over=('histories', 'inputs'))

prop('C23', 'Native evaluation stays inside of its arrays and agrees with plain Python',
     "The compiled evaluation never reads or writes outside of the arrays it is given, for any accepted shapes, dtypes, strides and sizes, and gives the same values as the same code interpreted without compilation.",
     "all accepted shapes, layouts and sizes",
     "Tests run only the compiled code without bounds checks, on contiguous arrays.",
     [KER], [('_evaluate_numba', KER), ('chunking', KER)],
     'sanitizer: numba bounds-checked build and interpreted build of the real code, differential oracle',
     'bounds checks are numba\'s own; the compiled, bounds-checked and interpreted runs execute the same workload', over=('inputs', 'configurations'))

prop('C24', 'Invalid inputs are rejected with an error and leave no trace',
     "Unusable inputs (mismatched or non-finite weights and data, unknown kernels or bandwidths, wrong shapes, points of the wrong dimension, invalid parameters or contradictory options) raise an ordinary exception instead of returning numbers. A call that is rejected, or interrupted by an exception part-way, leaves existing objects and arguments as they were, so that later valid calls are unaffected.",
     "all malformed inputs and the valid calls that follow them",
     "Tests check few error paths and never what follows.",
     [KDE, KER, SAM, UTI], [('argument checks in KDE.__init__', KDE), ('_check_reflect', KER), ('Kernel.density checks', KER), ('Sample_Grid checks', SAM)],
     'runtime monitoring: rejection monitor under fault-injected arguments, state comparison after each rejection',
     'the kinds of malformed input are listed in the module', over=('inputs', 'histories'))

prop('C25', 'Array helpers do exactly what their descriptions say',
     "Selecting by bounds, subdividing, spacing, meshing, flattening, classifying (integer, jagged, one-dimensional) and (de)correlating arrays agree with their element-by-element definitions for every shape, order and value, and inverse operations undo each other.",
     "all arrays accepted by the helpers",
     "Tests check a few literals.",
     [UTI], [('bound_indices', UTI), ('subdivide', UTI), ('spacing', UTI), ('meshgrid', UTI), ('isinteger / really1d / isjagged / jshape', UTI), ('add_cov / rem_cov', UTI)],
     'runtime monitoring: brute-force reference oracles', 'helpers are public in kalepy.utils')

prop('C26', 'A KDE from a histogram is the KDE of the bin centres with the counts',
     "A KDE constructed from a histogram equals, in density, pdf and draws, the KDE whose data are the bin centres weighted in proportion to the counts, with the mean bin width of each dimension as bandwidth (or the bandwidth given), in any number of dimensions. "
     "The weights are those of a normalized density (their sum times the mean bin volume is one), so that the scale of the counts does not matter; empty bins contribute nothing.",
     "all histograms of 1-3 dimensions, edges, counts and options",
     "Tests build one or two histograms.",
     [KDE], [('KDE.from_hist', KDE)],
     'runtime monitoring: differential oracle against the explicit KDE and reference sum', 'bin-width rule as documented')

prop('C27', 'One KDE can be evaluated from several threads at once',
     "Evaluating densities, pdfs and CDFs of shared or separate KDEs from several threads at the same time gives the same values as evaluating them one after the other, whatever the interleaving.",
     "all interleavings of evaluations of shared KDEs",
     "Tests are single-threaded.",
     [KDE, KER], [('lazily computed points / CDF interpolant', KDE), ('Kernel.density buffers', KER)],
     'runtime monitoring: concurrent stress with switch-interval perturbation and injected delays, sequential oracle',
     'schedules are sampled (GIL switch interval down to 1e-6 s plus injected yields at instrumented lines)', over=('schedules', 'inputs'))

prop('C28', 'Corner plots show each parameter pair in its own panel, with consistent limits',
     "In a corner plot the panel in row i and column j shows parameter j against i, and the diagonal shows each single parameter, for data and KDEs alike; all panels of a parameter share its limits, which contain all of the data (and the points at which KDEs are evaluated) drawn so far. Targets are marked at the given values in every panel of their parameter.",
     "all numbers of parameters, datasets and drawing options",
     "Tests only check that plotting does not raise.",
     [PLT], [('Corner.plot / hist / plot_kde / plot_data', PLT), ('Corner._limits_all', PLT), ('Corner.target', PLT)],
     'runtime monitoring: oracle over the artists and limits of each panel', 'observes artist data', over=('inputs', 'histories'))

prop('C29', 'Rug, scatter and masked data show the selected data, once each',
     "Carpet (rug) marks and scatter points are drawn at the values of the data, once for each datum, with size or transparency that grows with the weight; limits exclude only data outside of them. Masked two-dimensional plots hide only the regions below the stated density.",
     "all data, weights and drawing options",
     "Tests only check that plotting does not raise.",
     [PLT], [('carpet', PLT), ('_scatter2d / scatter', PLT), ('draw_contour2d / mask', PLT)],
     'runtime monitoring: oracle over the matplotlib artists actually drawn', 'observes artist data')


prop('C30', 'Results depend on the values of inputs, not on how they are stored',
     "The same numbers give the same results, whatever holds them: integers of any size and sign, float32 or float64, lists, tuples or arrays of any memory layout (views, strides, order, read-only). "
     "This holds for densities, sampling, grids, quantiles, histograms, edges, and what plots show; small integer types never overflow or lose precision within a calculation.",
     "all public operations, inputs and storage types of their arrays",
     "Tests pass float64 arrays almost everywhere; overflow of small integers depends on values and types together.",
     [KDE, KER, SAM, UTI, PLT], [('trapz_dens_to_mass, midpoints, _guess_edges, histogram', UTI), ('_grad_along, Sample_Grid', SAM), ('Kernel.density', KER)],
     'runtime monitoring: metamorphic oracle over storage representations', 'native byte order only; float16 and object arrays are outside')

prop('C31', 'Copies of an estimate are equivalent to it, and independent of it',
     "A KDE, kernel or grid sampler which is copied (copy, deepcopy), pickled by any protocol, or used in another process (a fresh one or a forked worker), at any point of its history, "
     "gives the same answers as the original to the same calls and random seed. Use of one never changes the answers of the other, nor does overwriting the arrays of a full copy.",
     "all data and options, ways of copying, and histories of calls before, between and after the copies",
     "The unit tests never copy an estimate; failures depend on what was cached before the copy was made.",
     [KDE, KER, SAM], [('KDE.__init__, KDE.points, KDE.cdf (cached)', KDE), ('Kernel, Distribution', KER), ('Sample_Grid', SAM)],
     'runtime monitoring: differential oracle between originals and copies, within and across processes',
     'agreement to 1e-9: the memory layout of arrays may change on the way', over=('inputs', 'histories'))

prop('C32', 'Everything drawn of a dataset has its colour, and each dataset has its own',
     "All that one plotting call draws of a dataset (lines, bands, points, median lines, legend handles) has one colour: the one given; else the midpoint of the colormap given; else the next colour of the "
     "cycle of the axes, of which each call without colours uses exactly one and other calls none. Two-dimensional components use the colormap given, else one built from that colour. "
     "Returned handles and `Corner.legend` show the colours and labels of the datasets in order; levels marked on a colorbar are those drawn.",
     "all plotting functions and options, colours and colormaps, and sequences of calls on shared axes",
     "Tests never look at colours; which colour is next depends on all earlier calls.",
     [PLT], [('_parse_color_cmap, _get_next_color', PLT), ('dist1d, dist2d, confidence, carpet, contour', PLT), ('Corner.plot_kde, Corner.plot_data, Corner.legend', PLT)],
     'runtime monitoring: history-tracking oracle over the colours of artists', 'colours without transparency; a given colormap may be used in part', over=('histories', 'inputs'))

prop('C33', 'Results do not depend on process settings, and calls leave those as they were',
     "Under raising floating-point errors, numerical warnings as errors, other print options, working directories, log levels, garbage-collection settings, threads, interpreter flags (-O, -OO, dev mode), "
     "environment variables, or without compilation, the same calls with the same random seed give the same answers, plots and rejections. No call, nor importing kalepy, changes such settings, "
     "matplotlib's settings or open figures, python's random state or the files of the working directory, and only random sampling (and jitter of plots) uses numpy's random numbers.",
     "all public operations, inputs, and combinations of surrounding settings",
     "The test suite runs in one environment only.",
     [KDE, KER, SAM, UTI, PLT, 'kalepy/__init__.py'], [('all public functions', KDE), ('carpet (logarithms of weights)', PLT), ('import', 'kalepy/__init__.py')],
     'runtime monitoring: snapshots of process-wide state around every call, and differential oracle between environments',
     "root handlers of `logging` are outside; matplotlib's settings are observed, not varied", over=('configurations', 'inputs'))

prop('C34', 'Components of a plot are independent, and options act on their own one only',
     "What `dist1d` and `dist2d` draw is the union of what each component switched on (density, histogram, confidence, carpet; medians, scatter, contours, histogram, mask) draws alone; nothing is drawn of those "
     "switched off, however yes and no are written. Styles given (transparency, line width, line style, z-order, label) are those of the artists; options of one component leave the others as they are. "
     "Equivalent spellings of an option, and its documented default given explicitly, draw the same picture. Each panel of a `Corner` shows what `dist1d` and `dist2d` draw of the same data.",
     "all combinations of components and options, of estimates and data",
     "Tests draw a handful of combinations, and look at none of them.",
     [PLT], [('dist1d', PLT), ('dist2d', PLT), ('draw_hist1d, draw_hist2d, draw_contour2d, carpet, confidence', PLT), ('Corner.plot_kde, Corner.plot_data', PLT)],
     'runtime monitoring: compositional oracle (multisets of the artists drawn together and alone)', "limits of axes are fixed, as heights of carpets follow them", over=('inputs', 'configurations'))


prop('C35', 'Memory stays in proportion to inputs and results; repeated calls keep none',
     "Evaluating, constructing, resampling, gridding, histogramming and plotting need memory in proportion to the sizes of inputs and results (never the product of the number of data and the number of points), "
     "and the values are those of the same call made in pieces. Repeating calls with new inputs, whether accepted or rejected, leaves nothing behind: memory does not grow, and estimates, kernels, samplers and figures "
     "are released once nobody refers to them.",
     "all public operations, for large inputs and long sequences of calls",
     "Tests run small inputs once, and look at no memory.",
     [KDE, KER, SAM, UTI, PLT], [('_evaluate_numba (one datum and point at a time)', KER), ('_resample_reflect (chunks)', KER), ('Sample_Grid', SAM), ('quantiles, parse_edges', UTI)],
     'runtime monitoring: allocation tracing (tracemalloc), resident-set peaks, weak references, and differential oracle for calls in pieces',
     'bounds are a multiple (30x) of the input and result sizes plus constants; the product of sizes exceeds it several times', over=('inputs', 'histories'))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for pp in PROPS:
            out.write(json.dumps(dict(
                id=pp['pid'], title=pp['title'], statement=pp['statement'], quantifier=dict(over=pp['over'], text=pp['text']),
                why_tests_cant=pp['why'], anchors=dict(files=pp['files'], mechanism=pp['mech']))) + '\n')
    checks, rest = [], []
    for pp in PROPS:
        pid = pp['pid']
        if os.path.exists(os.path.join(HERE, 'kmon', 'props', pid.lower() + '.py')):
            checks.append(dict(property=pid, quick_cmd='./check.sh {} quick'.format(pid), thorough_cmd='./check.sh {} thorough'.format(pid),
                               evidence_file='evidence/{}.json'.format(pid), technique=pp['technique'], level='exploration', level_note=pp['note']))
        else:
            rest.append(dict(property=pid, reason='the monitor for this property is not built yet'))
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=rest,
               notes='Monitors wrap the public API of kalepy at run time; nothing in /repo is instrumented, so there are no hooks.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump(man, out, indent=1)
        out.write('\n')


if __name__ == '__main__':
    main()
