"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


NOT = ("The 11 existing tests only evaluate a handful of transform Jacobians; nothing in this "
       "area is executed by them. ")

prop('P01', "A fit depends only on its own inputs, never on what happened before",
     "For every fitting method the library offers, fitting an image from a starting shape with given "
     "options gives the same shapes, parameters and costs whether the fitter is new, has fitted other "
     "images with other options before, has had an earlier fit fail part-way, has been asked for warped "
     "images, instances or a textual summary, or has been pickled and restored. "
     "Building another fitter with the same settings from the same trained model does not change the "
     "results of either fitter.",
     ['histories', 'configurations', 'fault_sequences'],
     "all operation sequences up to a depth over {fit A, fit B with other options, failing fit, warp, "
     "summary, instance, second fitter, pickle} x every fitter family, model variant and algorithm",
     NOT + "History-dependence needs sequences of operations on one stateful fitter, for every algorithm.",
     ['menpofit/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/atm/algorithm.py',
      'menpofit/lk/algorithm.py', 'menpofit/clm/algorithm/gd.py', 'menpofit/aps/algorithm/gn.py',
      'menpofit/unified_aam_clm/algorithm.py', 'menpofit/sdm/algorithm', 'menpofit/modelinstance.py',
      'menpofit/transform/modeldriven.py'],
     [('every run() re-initialises the transform from the starting shape', 'menpofit/*/algorithm'),
      ('precomputed Jacobians/Hessians are read-only during a run', '_precompute of every algorithm'),
      ('warp-Jacobian cache keyed on the sampled points', 'menpofit/transform/modeldriven.py:d_dp')],
     [('transform / shape model state', 'current parameters shared by all runs of an algorithm',
       'menpofit/modelinstance.py'),
      ('residual state', 'error image, template gradient kept between calls', 'menpofit/lk/residual.py')],
     ['fit_from_shape / fit_from_bb results'])

prop('P02', "Fitting and training leave the caller's data untouched",
     "Fitting an image, or training or updating a model or fitter, never changes the caller's images "
     "(pixels and landmark groups), starting shapes, bounding boxes, ground truth, training shapes or "
     "option lists, and leaves no temporary annotation behind. This also holds when a fit is aborted by "
     "an error raised while features are computed or while the optimisation runs, and a stored result "
     "does not change when the caller later modifies the image.",
     ['inputs', 'configurations', 'fault_sequences'],
     "all fitter/model constructors, fits and increments; plus an injected exception at every call of "
     "a feature function or of an optimiser during a fit",
     NOT + "Aliasing and clean-up on every exit path must hold at every fault point.",
     ['menpofit/fitter.py', 'menpofit/builder.py', 'menpofit/sdm/fitter.py', 'menpofit/dlib/fitter.py',
      'menpofit/lk/fitter.py', 'menpofit/result.py', 'menpofit/aam/base.py', 'menpofit/atm/base.py',
      'menpofit/clm/base.py', 'menpofit/aps/base.py'],
     [('temporary landmark groups are removed after preparing the image', 'menpofit/fitter.py:_prepare_image'),
      ('training works on rescaled copies', 'menpofit/builder.py:rescale_images_to_reference_shape')])

prop('P03', "Multi-scale fitting keeps every point at the same place in the image",
     "Whatever the number of scales, scale factors, per-scale features (including ones that resize the "
     "image) and reference size, each scale starts from exactly the points where the previous scale "
     "ended, receives the ground truth at the same places, and every shape in the result is expressed "
     "in the coordinates of the image the caller passed. Starting from a bounding box equals starting "
     "from the reference shape aligned to that box, and features are computed for a scale only from "
     "that scale's own feature function.",
     ['configurations', 'inputs'],
     "all combinations of 1-3 scales from a menu, all assignments of geometry-changing features to "
     "scales, reference sizes, with/without ground truth, against a composed-affine reference model",
     NOT + "The hand-over uses products of per-scale transforms that differ for each combination.",
     ['menpofit/fitter.py', 'menpofit/result.py'],
     [('scale hand-over transform', 'menpofit/fitter.py:_fit'),
      ('mapping back to the input image', 'menpofit/result.py:_rescale_shapes_to_reference'),
      ('per-scale image pyramid', 'menpofit/fitter.py:_prepare_image')])

prop('P04', "Fitting results account for every iteration exactly once",
     "For single- and multi-scale, parametric and non-parametric results with any number of iterations "
     "per scale (including zero), with or without starting shape, ground truth, image or costs, the "
     "reported iteration counts, shapes, parameters, reconstructed starting shapes, costs, errors, "
     "displacements and their statistics, and the iteration labels shown when viewing, all agree with "
     "the iterations that were performed, in order. Asking for something that was not provided raises "
     "an error instead of returning a wrong value, and the reduced plain result carries exactly what "
     "was requested.",
     ['configurations', 'inputs'],
     "all result classes x all iteration-count tuples for 1-3 scales x optional-field combinations",
     NOT + "Index bookkeeping across scales depends on the tuple of per-scale iteration counts.",
     ['menpofit/result.py', 'menpofit/aam/result.py', 'menpofit/aps/result.py', 'menpofit/lk/result.py',
      'menpofit/unified_aam_clm/result.py', 'menpofit/sdm/algorithm/parametricshape.py'],
     [('n_iters / reconstruction index arithmetic', 'menpofit/result.py'),
      ('per-scale concatenation', 'menpofit/result.py:MultiScaleNonParametricIterativeResult')])

prop('P05', "Iteration budgets are respected and a longer run extends a shorter one",
     "With an iteration budget given as one number or per scale, no scale of any iterative optimiser "
     "performs more iterations than its share, it stops earlier only once the step has become "
     "negligible (and then does, at the first step within its tolerance), and a zero budget returns the model's reconstruction of the start. Running with a "
     "larger budget reproduces the shapes, parameters and costs of the shorter run as its prefix, and "
     "when costs are requested there is one well-defined cost per recorded estimate.",
     ['configurations', 'histories'],
     "every iterative algorithm of every family x every budget 0..K x single/multi scale x cost/prior options",
     NOT + "Each optimiser has its own loop, bookkeeping and stopping rule.",
     ['menpofit/aam/algorithm/lk.py', 'menpofit/atm/algorithm.py', 'menpofit/lk/algorithm.py',
      'menpofit/clm/algorithm/gd.py', 'menpofit/aps/algorithm/gn.py',
      'menpofit/unified_aam_clm/algorithm.py', 'menpofit/checks.py', 'menpofit/sdm/algorithm/base.py'],
     [('loop guard on iteration count and step size', 'run() of each algorithm'),
      ('budget split', 'menpofit/checks.py:check_max_iters')])

prop('P06', "Asking for costs, errors or progress output never changes the outcome",
     "Requesting costs, providing a ground truth, or turning progress output on changes only what is "
     "reported: fitted shapes, parameters, trained models and consumed random numbers stay the same. "
     "Progress helpers yield exactly the items of the wrapped sequence, once and in order.",
     ['configurations', 'inputs'],
     "all on/off combinations of the reporting options for every trainer and fitter; all short sequences "
     "for the progress helpers",
     NOT + "Non-interference relates pairs of runs for each option combination.",
     ['menpofit/fitter.py', 'menpofit/builder.py', 'menpofit/visualize/textutils.py', 'menpofit/sdm/fitter.py',
      'menpofit/sdm/algorithm', 'menpofit/aam/base.py', 'menpofit/aam/algorithm', 'menpofit/clm',
      'menpofit/aps', 'menpofit/atm', 'menpofit/unified_aam_clm'],
     [('verbose only wraps iteration in a progress printer', 'menpofit/visualize/textutils.py'),
      ('costs are computed beside the update', 'run() of each algorithm')])

prop('P07', "Analytic derivatives and parameter composition match the true transforms",
     "For every differentiable transform and shape model the library provides, at every parameter value "
     "and point set, the analytic derivative with respect to parameters, landmarks or positions equals "
     "the true derivative of the mapping (the global part of a shape model being taken at its mean "
     "shape, and the warp's derivative at the source landmarks, as documented). Composing a parameter increment with a model-driven transform "
     "agrees to first order with applying both mappings in turn, and model-driven warps send the source "
     "points exactly to the model's current shape.",
     ['inputs', 'histories'],
     "all transforms and shape models x a lattice of parameters, source/target sets and query points "
     "(incl. queries repeated after parameter changes), against high-order finite differences",
     "The existing tests compare six Jacobians at one point set each with stored numbers; model-driven, "
     "similarity-free, piecewise affine, global and orthonormal models are never differentiated.",
     ['menpofit/transform', 'menpofit/modelinstance.py', 'menpofit/differentiable.py'],
     [('chain rule through warp and shape model', 'menpofit/transform/modeldriven.py'),
      ('global similarity times shape model', 'menpofit/modelinstance.py:d_dp')])

prop('P08', "Shape models keep target, parameters and model consistent",
     "After any sequence of setting targets, setting parameters, copying, changing the number of active "
     "components or adding training shapes, a shape model's current shape is exactly the instance its "
     "parameters describe, its parameter vector round-trips, its basis is orthonormal where promised, "
     "and setting a target that the model can express reproduces it (where global and local bases are "
     "mutually orthogonal). Changing the active components or adding training shapes keeps the current "
     "shape as far as the changed model can express it. Copies and vector constructors "
     "never disturb the original, and the number of parameters matches the active components.",
     ['histories', 'inputs'],
     "all operation sequences up to a depth over a small alphabet, for every shape-model and "
     "model-driven transform class, compared with a plain linear-algebra reference",
     NOT + "Consistency is an invariant of every reachable state, not of one call.",
     ['menpofit/modelinstance.py', 'menpofit/transform/modeldriven.py'],
     [('target setter synchronises parameters', 'menpofit/modelinstance.py:set_target'),
      ('orthonormalisation against the similarity basis', 'menpofit/modelinstance.py:OrthoPDM')])

prop('P09', "Training in batches equals training incrementally on the same batches",
     "Building an AAM, ATM, CLM or APS with a batch size, or incrementing it with one, gives the same model as "
     "building it on the first batch and then adding the remaining batches one by one, for every way of cutting "
     "the training set (the first batch having at least two images; a later batch may be a single one), whether "
     "the images come as a list, a tuple or a generator, and with exactly one shape/appearance/expert model per "
     "scale that has seen every sample once. Every batch of shapes is aligned (a single shape to the mean "
     "learned so far) and added with the shape forgetting factor, the appearances of the same images with the "
     "appearance forgetting factor. Without truncation and forgetting, the incrementally learned appearance (and "
     "plain PDM shape) subspaces, means and variances equal those learned from all those samples at once in the "
     "same reference frame.",
     ['histories', 'configurations'],
     "all cuts of a small training set into consecutive batches x operations producing them x model families x scales x forgetting factors x component limits",
     NOT + "It quantifies over all partitions of a training set.",
     ['menpofit/base.py', 'menpofit/modelinstance.py', 'menpofit/aam/base.py', 'menpofit/atm/base.py',
      'menpofit/clm/base.py', 'menpofit/aps/base.py'],
     [('batching', 'menpofit/base.py:batch'), ('increment of models', '_train/_train_batch of each model')])

prop('P10', "Pretrained models survive interrupted or corrupted downloads",
     "Whatever step of fetching, storing or loading a packaged model is interrupted, fails or writes only "
     "part of the data, a later request either returns the complete genuine model or raises an error - it "
     "never returns a fitter built from incomplete data and never gets permanently stuck on a damaged "
     "local file, also when two requests overlap - and on a working network both requests for a model not stored yet succeed. A complete local copy is used without contacting the network, and a local file that "
     "cannot be loaded is discarded so that the next request fetches it again.",
     ['crash_points', 'fault_sequences', 'histories'],
     "every crash point and every truncation length class of the download, every load error, followed by "
     "every sequence of up to three further requests with the network up or down",
     NOT + "Crash points and fault sequences are never exercised; the code has no tests at all.",
     ['menpofit/io.py'],
     [('purge on failed load, then re-raise', 'menpofit/io.py:load_fitter'),
      ('chunked copy of the response', 'menpofit/io.py:copy_and_yield')],
     [('cached model file', 'the local file that later requests trust', 'menpofit/io.py:path_of_fitter')])

prop('P11', "A packaged fitter behaves like the fitter it wraps",
     "Fitting through a packaged (pickled) fitter equals preparing the image, fitting with the wrapped "
     "fitter and mapping every recorded shape back, for both ways of starting a fit and also when the "
     "wrapped fitter reports no initial shape. Options given at a call take precedence over those "
     "fixed at packaging time (or replaced when the recipe is loaded), option by option, and never "
     "change them. The wrapped fitter is created anew, once per load, from its recipe.",
     ['configurations', 'inputs'],
     "all combinations of packaged/call options, preparation results and starting modes",
     NOT + "Precedence and mapping must hold for every combination of option sources.",
     ['menpofit/io.py'],
     [('option merging', 'menpofit/io.py:PickleWrappedFitter'),
      ('mapping shapes back', 'menpofit/io.py:PickleWrappedFitter')])

prop('P12', "Landmark error measures compute their documented distances",
     "Every error measure equals its documented definition: root-mean-square and mean point-to-point "
     "distances divided by the stated normaliser (box area, perimeter, mean edge or diagonal, or the "
     "distance between the documented facial landmarks of the ground truth for every mark-up). "
     "All are zero exactly for identical shapes, unchanged by moving both shapes together, and the "
     "normalised ones unchanged by scaling both.",
     ['inputs'],
     "all pairs of small shapes on an integer lattice, all measures and mark-ups, with every landmark "
     "index displaced in turn",
     NOT + "The laws hold for all shapes; index ranges matter for every landmark.",
     ['menpofit/error/base.py', 'menpofit/error/human/face.py'],
     [('normalisers', 'menpofit/error/base.py'), ('landmark index tables', 'menpofit/error/human/face.py')])

prop('P13', "Error statistics summarise exactly the errors they are given",
     "The cumulative error distribution is, at every grid value, the fraction of errors not above it; "
     "failure rate, area under the curve, medians, deviations and the statistics table follow from the "
     "same errors, do not depend on their order, and agree with each other for every threshold and "
     "resolution. Improving an error never lowers the curve or the area nor raises the failure rate.",
     ['inputs', 'configurations'],
     "all multisets of errors from a small lattice (incl. ties with grid values), all thresholds/steps",
     NOT + "Boundary ties and orderings need exhaustive small inputs.",
     ['menpofit/error/stats.py'],
     [('histogram of errors', 'menpofit/error/stats.py')])

prop('P14', "Per-scale options are expanded, ordered and rejected consistently",
     "An option given once applies to every scale, a one-element list applies to every scale, a list with "
     "one entry per scale is used in order, and any other length or a value of the wrong kind is rejected "
     "with an error before training or fitting starts; the caller's list is not changed. The expanded "
     "option always has exactly one entry per scale and the trained parts really use the entry of their "
     "own scale.",
     ['configurations', 'inputs'],
     "all per-scale options x 1-4 scales x all list lengths and value kinds from a small menu",
     NOT + "The space of (option, number of scales, list length, value kind) is small but never visited.",
     ['menpofit/checks.py'],
     [('parameter normalisation', 'menpofit/checks.py')])

prop('P15', "Generated perturbations are complete, bounded and correctly distributed",
     "For every image the generated training boxes are exactly the requested number per source box (plus "
     "the provided boxes themselves when a selection pattern is given), each a box inside the image and "
     "derived from that image's own ground truth and boxes. Each noise kind turns its random draws into "
     "the documented scale, rotation and translation of the aligned shape, zero noise gives the plain "
     "alignment, larger percentages scale the same draw linearly, and unknown kinds are rejected.",
     ['configurations', 'inputs'],
     "all counts, patterns and box sets; all noise kinds x parameter forms x enumerated random draws",
     NOT + "Randomness must be owned and enumerated to check the draw-to-shape mapping.",
     ['menpofit/fitter.py'],
     [('noisy alignment', 'menpofit/fitter.py:noisy_alignment_similarity_transform'),
      ('perturbation generation', 'menpofit/fitter.py:generate_perturbations_from_gt')])

prop('P16', "Regressors solve the least-squares problems they name",
     "Each regressor's prediction is that of the documented problem - ridge regression with or without "
     "bias, its inverse form, principal-component, optimal and Procrustes regression - for every shape "
     "of data, and exactly recovers noise-free linear maps where identifiable. Updating an incremental "
     "regressor with further samples gives the regressor trained on all samples at once, and a regressor "
     "that cannot be updated says so.",
     ['inputs', 'histories'],
     "all regressors x bias x regularisation x data shapes x all cuts into increments",
     NOT + "Equivalence of incremental and batch solutions is a property of all histories.",
     ['menpofit/math/regression.py'],
     [('closed-form solutions and recursive updates', 'menpofit/math/regression.py')])

prop('P17', "Frequency-domain filtering equals its spatial definition",
     "Padding followed by cropping returns the original for every pair of sizes; frequency-domain "
     "convolution equals direct spatial convolution for every image, filter size (odd or even), number "
     "of channels and output mode; and correlation filters solve the documented regularised problem, "
     "with updated filters equal to the documented weighted combination of old and new statistics.",
     ['inputs', 'configurations'],
     "all image/filter sizes up to a bound, all unit impulses, modes, channel counts, old/new weights",
     NOT + "Off-by-one padding only shows at particular size parities.",
     ['menpofit/math/fft_utils.py', 'menpofit/math/correlationfilter.py', 'menpofit/clm/expert/ensemble.py'],
     [('pad/crop', 'menpofit/math/fft_utils.py'), ('filters', 'menpofit/math/correlationfilter.py')])

prop('P18', "Landmark searchers move each landmark toward its response peak",
     "Response maps are turned into probability maps that are non-negative and sum to one, also when a "
     "response is constant, without altering the responses. Given responses with a peak at any position "
     "of any search window, the landmark-search algorithms move the landmark toward it by the documented "
     "amount, restricted to shapes the model allows and the prior that was requested, and each expert "
     "looks only at its own landmark.",
     ['inputs', 'configurations'],
     "all peak positions x window sizes x landmarks x algorithms x priors with controlled responses",
     NOT + "Window parity and axis order need every peak position.",
     ['menpofit/clm/algorithm/gd.py', 'menpofit/clm/expert/base.py', 'menpofit/clm/expert/ensemble.py',
      'menpofit/unified_aam_clm/algorithm.py', 'menpofit/base.py'],
     [('mean-shift and Gaussian fitting', 'menpofit/clm/algorithm/gd.py'),
      ('probability maps', 'menpofit/clm/expert/base.py')])

prop('P19', "Cascaded regression applies at test time what it learned in training",
     "Every supervised-descent fitter trains one regressor per iteration and scale, each on the shape "
     "estimates produced by the regressors before it, and each scale on all the estimates of the scale "
     "before. Fitting a training image from one of its training boxes (of the size at which training and "
     "fitting rescale the image equally) therefore passes through exactly the estimates used during "
     "training, for every algorithm, number of scales, iterations and perturbations, with generated or "
     "provided boxes and features that change the image size. Each regressor is the one its algorithm "
     "documents, computed with the options it was given (regularisation, bias, kept variance, shape and "
     "appearance model classes, error measure), on the "
     "features its algorithm documents (patches, difference from the mean template, project-out residual, "
     "appearance weights). A fitter for a trained model works at that model's own reference shape.",
     ['configurations', 'histories'],
     "all cascade algorithms x scales x iterations x perturbation sources",
     NOT + "Train/test agreement spans training and fitting code paths that no test runs.",
     ['menpofit/sdm/fitter.py', 'menpofit/sdm/algorithm', 'menpofit/aam/fitter.py', 'menpofit/aam/algorithm/sd.py'],
     [('current shapes passed between scales', 'menpofit/sdm/fitter.py'),
      ('feature extraction shared by train and run', 'menpofit/sdm/algorithm')])

prop('P20', "Each scale of a trained model describes that scale of the training data",
     "For every generative model variant, number of scales, features and component limits, there is one "
     "shape and appearance (or template, or expert) model per scale, learned from images and shapes of "
     "that scale's size and features, with no more components than allowed. Instances and appearance "
     "reconstructions of a given scale come from that scale's models: a mean instance shows the mean "
     "shape and appearance of its scale, a random one is the instance of the weights drawn. A smoothing "
     "requested for the training images acts within each channel.",
     ['configurations', 'inputs'],
     "all model variants x scale tuples x feature assignments x component limits x iteration tuples",
     NOT + "Per-scale indexing errors show only for particular scale/feature combinations.",
     ['menpofit/aam/base.py', 'menpofit/atm/base.py', 'menpofit/clm/base.py', 'menpofit/aps/base.py',
      'menpofit/unified_aam_clm/base.py', 'menpofit/builder.py'],
     [('per-scale training loop', '_train_batch of each model'),
      ('appearance_reconstructions', 'menpofit/aam/base.py')])

prop('P21', "Optimisers take the documented Gauss-Newton or Newton step",
     "In every iteration, the parameter change made by each Lucas-Kanade, active appearance, active "
     "template, pictorial-structure or unified optimiser is the solution of the linear system its "
     "documentation names - built from the current residual, the Jacobian, the appearance projection and, "
     "when requested, the priors pulling parameters toward the mean - and the reported costs are the "
     "documented objective at the recorded estimates.",
     ['inputs', 'configurations', 'histories'],
     "every algorithm x model variant x prior on/off x small images and starts, every iteration compared "
     "with a dense reference solver",
     NOT + "Sign, transposition and stale-residual errors need a reference solution at every iteration.",
     ['menpofit/lk', 'menpofit/aam/algorithm/lk.py', 'menpofit/atm/algorithm.py', 'menpofit/aps/algorithm/gn.py',
      'menpofit/unified_aam_clm/algorithm.py'],
     [('normal equations of each algorithm', '_solve / run of each algorithm')])

prop('P22', "Image and shape preparation puts pixels and landmarks where they belong",
     "Reference shapes (computed or given) have exactly the requested diagonal; reference frames and patch frames contain "
     "every reference point with the requested margin and mark as usable exactly the pixels of the mesh "
     "or patches; rescaling, feature extraction, warping and patch extraction keep landmarks and pixel "
     "content in correspondence, preserve order, and process each image independently of the others.",
     ['inputs', 'configurations'],
     "all small shapes/frames on a lattice, boundaries, patch sizes, scales and image orders",
     NOT + "Frame and mask geometry has parity and rounding corner cases.",
     ['menpofit/builder.py', 'menpofit/base.py'],
     [('reference frames', 'menpofit/builder.py'), ('rescaling', 'menpofit/builder.py')])

prop('P23', "The dlib bridge preserves geometry and options",
     "Converting boxes and landmarks to and from dlib keeps every coordinate (up to dlib's integer grid) "
     "in the right axis order, training passes exactly the requested options, images, boxes and "
     "landmarks per scale, and a wrapped or trained dlib model returns its prediction in image "
     "coordinates for both ways of starting a fit.",
     ['inputs', 'configurations'],
     "all small boxes/point sets, all options varied one at a time, scales 1-2",
     NOT + "No test touches the dlib bridge.",
     ['menpofit/dlib/conversion.py', 'menpofit/dlib/algorithm.py', 'menpofit/dlib/fitter.py'],
     [('conversion', 'menpofit/dlib/conversion.py')])

prop('P24', "Textual summaries state what was really trained and configured",
     "Printing any model, fitter, shape model or expert ensemble works in every state and names, for every "
     "scale in order, the scale, features, model classes, numbers of available and active components, "
     "patch and template sizes, experts, iterations and options that this scale really has, also after the "
     "model was incremented or its active components were changed; the algorithm, residual, regressor, warp, "
     "perturbation scheme and diagonal it names are those in use.",
     ['configurations', 'histories'],
     "every model and fitter class x scale tuples x distinct options per scale x reference/diagonal x "
     "{construction, increment, change of active components}",
     NOT + "A summary shows another scale's or a template's value only when the values of the scales differ.",
     ['menpofit/aam/base.py', 'menpofit/aam/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/atm/base.py',
      'menpofit/atm/fitter.py', 'menpofit/clm/base.py', 'menpofit/clm/fitter.py', 'menpofit/clm/expert/ensemble.py',
      'menpofit/aps/base.py', 'menpofit/aps/fitter.py', 'menpofit/unified_aam_clm', 'menpofit/sdm/fitter.py',
      'menpofit/lk', 'menpofit/dlib/fitter.py', 'menpofit/modelinstance.py'],
     [('summaries', '__str__ of every model, fitter and algorithm')])

prop('P25', "Views and plots draw exactly the data and options they are given",
     "Viewing a fitting result, its iterations, several landmark groups of an image, cumulative error curves, "
     "error, displacement or cost curves, or a deformation model draws every requested shape, curve or ellipse "
     "once, with its own points and values, in the requested order and on its own subplot, each with the style "
     "given for it (once for all, or one per item) and named rightly in titles and legend; nothing that was not "
     "requested is drawn, options of a wrong kind or length are rejected, and the caller's data and option lists "
     "are not changed.",
     ['configurations'],
     "ordered selections of up to three landmark groups (plain, graph, labelled) x subplots x image x labels x "
     "option forms; all result viewers x rendered shapes; error lists x grids; deformation graphs x scales",
     NOT + "A swapped style, legend entry or curve needs several items with different styles to show.",
     ['menpofit/visualize/base.py', 'menpofit/result.py', 'menpofit/aps/base.py', 'menpofit/aps/result.py'],
     [('views', 'view_image_multiple_landmarks'), ('result views', 'view, view_iterations, plot_*'),
      ('deformation model', 'view_deformation_model')])

prop('P26', "Warped images show what lies under each given shape",
     "For every fitter that offers warped images, any image and any list of shapes, there is exactly one warped image "
     "per shape, in order: it has the size and mask of the model's finest template (or its patches), and each of its "
     "pixels is the image's own content at the place to which the model's warp, set to that shape, sends the pixel. "
     "Shapes the model can express are reached exactly. The result depends only on the image and that shape - not on "
     "the other shapes, on earlier requests, on earlier fits or on a request that failed - and neither the image nor "
     "the shapes are changed.",
     ['inputs', 'histories'],
     "every interface x ordered selections (with repetition) of up to three of five shapes x pairs of consecutive "
     "requests over several images (also one changed in place) x fits and failing requests in between",
     NOT + "Only a reordered or repeated request, another image or a fit in between shows a stale transform.",
     ['menpofit/lk/algorithm.py', 'menpofit/lk/fitter.py', 'menpofit/aam/algorithm/lk.py', 'menpofit/aam/fitter.py',
      'menpofit/atm/fitter.py', 'menpofit/atm/base.py', 'menpofit/atm/algorithm.py', 'menpofit/aps/algorithm/gn.py', 'menpofit/aps/fitter.py',
      'menpofit/unified_aam_clm/fitter.py', 'menpofit/transform/modeldriven.py'],
     [('warped images', 'warped_images, warp'), ('warp', 'set_target, apply')])

prop('P27', "Trained models depend only on their own training data and options",
     "Training, incrementing or truncating a model or fitter gives the same model - and fitting with it the same result - "
     "whatever else was trained, incremented, truncated, fitted, printed or thrown away before, between or afterwards in the "
     "same process: with the same images and other options, with the same landmarks and other pixels, of the same family "
     "with another number or order of scales. Models never change through each other, nor when the caller overwrites the "
     "images, landmarks and option lists they were trained with.",
     ['histories', 'configurations'],
     "every model and fitter family x all histories (to a depth) of training six option/data sets, increments, truncations, fits, "
     "summaries, dropping models, destroying caller data; each model against its own history alone in a fresh process",
     NOT + "A cache or a shared default shows only for a particular pair of trainings in one process.",
     ['menpofit/aam', 'menpofit/atm', 'menpofit/clm', 'menpofit/aps', 'menpofit/unified_aam_clm', 'menpofit/lk', 'menpofit/sdm',
      'menpofit/dlib', 'menpofit/modelinstance.py', 'menpofit/builder.py', 'menpofit/base.py', 'menpofit/fitter.py',
      'menpofit/math', 'menpofit/transform'],
     [('no module or class level state', 'menpofit'), ('data are copied when trained from', 'menpofit/builder.py')])

prop('P28', "Equivalent requests get the same answer",
     "How a caller hands over the same data does not change a trained model or a fit: a list, tuple, lazy list or other sequence "
     "of images; the landmark group named or left out when it is the only one; unrelated landmark groups on the images; "
     "landmarks and starting shapes stored as integers or floats, as point clouds, meshes or graphs, in row- or column-major "
     "memory; images with or without an (everywhere true) mask; a fit started from a bounding box or from the shape that box "
     "stands for, with the same budgets, costs and priors; a fit with or without a ground truth, on an image with or without "
     "landmarks; a trainer called by its shorthand class or by the general one with the same options. Where training draws no "
     "random numbers, the order of the training images does not matter either.",
     ['inputs', 'configurations'],
     "every model family x the product of all such ways; every model family x all permutations of the training images; every "
     "fitting method x the product of all such ways",
     NOT + "Each way works for most families and options; only the full product shows the combination that does not.",
     ['menpofit/fitter.py', 'menpofit/base.py', 'menpofit/builder.py', 'menpofit/modelinstance.py', 'menpofit/aam', 'menpofit/atm',
      'menpofit/clm', 'menpofit/aps', 'menpofit/unified_aam_clm', 'menpofit/lk', 'menpofit/sdm', 'menpofit/dlib', 'menpofit/math',
      'menpofit/transform'],
     [('training', '_train, increment'), ('preparing a fit', 'MultiScaleNonParametricFitter._prepare_image')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
