NA = {}
IN = "inputs"
prop("G01", "Priority queue returns the minimum and reports every element move",
 "After any sequence of push, pop and update operations on a heap, the heap holds exactly the elements inserted and not yet removed, and pop always removes an element whose value is minimal under the comparison. Pushing returns the slot where the element now is, and every relocation is reported through the swap hook, so that an externally kept index stays correct.",
 "histories inputs", "every sequence of push/pop/update on heaps of any size, including duplicate values and in-place value changes",
 "the unit test pushes and pops a fixed random sequence and never updates; the invariant is over all histories",
 "vl/heap-def.h vl/kdtree.c vl/aib.c", [("sift up/down", "vl/heap-def.h"), ("swap hook", "VL_HEAP_swap")], "return values of push/pop/update; the array after each call")
prop("G02", "Sort is an ordered permutation built only from its own comparisons and swaps",
 "Sorting any array leaves a permutation of its elements in non-decreasing comparison order, touches only indices inside the array, and terminates. All rearrangement goes through the swap hook, so data moved by a custom swap stays aligned with the keys.",
 "inputs", "every array up to the modelled size over a small key domain exhaustively, larger ones at random, for custom compare/swap",
 "tests sort one random array of doubles and never observe custom swaps or adversarial key patterns",
 "vl/qsort-def.h", [("partition and recursion", "vl/qsort-def.h")], "sequence of compare/swap calls; the array at return")
prop("G03", "Random generator is the published Mersenne Twister and derived draws are exact",
 "For any 32-bit seed or seed array the generator emits exactly the published MT19937 sequence, across any number of regenerations and interleavings with other generators. The derived draws (31-bit, 63-bit, 64-bit, reals, bounded index, permutation, shuffle) consume and combine words exactly as documented, bounded indices lie in range, and shuffles and permutations are bijections.",
 "inputs histories", "all seeds, key arrays, interleavings of draw kinds, ranges",
 "the test compares the first numbers for one key array; derived draws and regenerations with mixed kinds are unobserved",
 "vl/random.c vl/random.h vl/shuffle-def.h", [("state refresh", "vl/random.c"), ("derived draws", "vl/random.h")], "returned words and permutations")
prop("G04", "Per-thread error, random and timer state is isolated; configuration is shared",
 "Under every schedule of threads, each thread sees only the last error, error message, random stream and timer it set itself, starting from the documented initial values, while the processor-feature settings are one shared value whose reads return the latest write. The library's recursive lock never deadlocks, never admits two threads, and every thread's state is created once and released when the thread ends.",
 "schedules", "all interleavings at lock operations of up to 3 threads, with spurious wake-ups",
 "the thread test runs threads freely and sees only the schedules the OS happens to choose",
 "vl/generic.c vl/generic.h", [("recursive lock", "vl_lock_state/vl_unlock_state"), ("thread-specific data", "vl_get_thread_specific_state")], "public getters; pthread calls")
prop("G05", "Memory goes through the registered allocator and is released exactly once",
 "With custom memory functions installed, every block the library obtains comes from them and is released through them exactly once, and after an object is deleted (or a stateless call returns) none of its blocks is left, nor any of the C library's that k-means quantisation takes as thread scratch. This holds for every configuration and reuse sequence; where running out of memory is reported by the return value, nothing is left behind either.",
 "histories configurations", "create/configure/use/reuse/delete sequences of every object type, including failing calls",
 "no test counts blocks; leaks and double frees are invisible to value assertions",
 "vl/generic.c vl/kdtree.c vl/kmeans.c vl/gmm.c vl/svm.c vl/svmdataset.c vl/hog.c vl/lbp.c vl/covdet.c vl/scalespace.c vl/sift.c vl/dsift.c vl/mser.c vl/quickshift.c vl/aib.c vl/hikmeans.c vl/ikmeans.c vl/array.c vl/pgm.c vl/homkermap.c vl/liop.c", [("allocation hooks", "vl_set_alloc_func"), ("destructors", "vl_*_delete")], "sequence of allocator calls between object birth and death")
prop("G06", "Long-option parsing follows the documented grammar and permutes losslessly",
 "For every argument vector, options, their arguments, unknown/ambiguous/missing cases and the '--' terminator are reported in order exactly as documented, and scanning always terminates. After scanning, the vector is a permutation of the original with the operands last and in their original order.",
 "inputs", "all argument vectors over a token alphabet up to a bounded length, for required/optional/no-argument options with and without flag pointers",
 "the unit test feeds two fixed command lines",
 "vl/getopt_long.c vl/getopt_long.h", [("operand permutation", "vl/getopt_long.c")], "return values, optarg, optind, optopt and the argument vector after each call")
prop("G07", "String and path utilities parse, copy and translate without overrun",
 "Protocol prefixes, base names, wildcard expansion, bounded copies/concatenations, case-insensitive comparison and enumeration lookups return the documented result for every string. Bounded operations never write past the given size, always terminate the buffer when the size is positive, and return the length the full result needs.",
 "inputs", "all short strings over an adversarial alphabet and all buffer sizes around the exact fit, plus long random strings",
 "the unit test checks a dozen literals, never a truncating buffer of each size",
 "vl/stringop.c vl/stringop.h", [("bounded writers", "vl/stringop.c")], "return values and buffer contents including guard bytes")
prop("G08", "PGM files survive a write/read round trip and malformed ones are refused",
 "Writing any 8- or 16-bit grey image and reading it back gives identical pixels and metadata, and headers are parsed per the PGM format (comments, any white space, plain and raw, declared maximum). A malformed or truncated file yields an error code and no partial result, without leaking files or memory.",
 "inputs fault_sequences", "all image sizes and depths in a bounded domain, header spellings, and every truncation point of the file",
 "no test reads or writes an image file",
 "vl/pgm.c vl/pgm.h", [("header automaton", "vl_pgm_extract_head"), ("data reader", "vl_pgm_extract_data")], "return codes, image structure, pixel buffer, last error")
prop("G09", "Results depend only on inputs and settings, not on memory or object history",
 "Running the same operation with the same inputs and settings gives bit-identical results whatever memory previously contained and whatever the object was used for before (where it is documented as reusable). Turning vector instructions off changes integer-valued results not at all.",
 "histories configurations", "all modules' entry points, memory fill patterns, prior uses of the same object, processor-feature settings",
 "tests run each object once on fresh zeroed heap pages, so stale or uninitialised state never shows",
 "vl/generic.c vl/kmeans.c vl/hog.c vl/covdet.c vl/scalespace.c vl/sift.c vl/mser.c vl/dsift.c vl/gmm.c vl/ikmeans.c vl/svm.c", [("buffer initialisation", "vl/*.c")], "digests of outputs across memory fills and histories")
prop("K01", "KD-forest construction partitions the points under its stated bounds",
 "In every tree of a forest every data point lies in exactly one leaf, each split sends points on the proper side of its threshold, and the maximum depth reported is the real one. With a fixed random seed construction is reproducible and single-tree deterministic construction splits a maximum-variance dimension at its mean or median.",
 "inputs configurations", "all small integer point sets including duplicates, dimensions, thresholding methods, numbers of trees",
 "tests only compare query results on random Gaussian data",
 "vl/kdtree.c vl/kdtree.h", [("recursive build", "vl_kdtree_build_recursively")], "tree node arrays and data index after build")
prop("K02", "Exact nearest-neighbour queries return the k smallest distances in order",
 "Without a comparison limit, a query on any forest returns, in non-decreasing order, the k smallest distances over all data with distinct neighbours whose reported distance is the real one, and pads with the documented empty marker when k exceeds the data. This holds for every supported distance, for single queries and for query batches, regardless of the number of threads or trees.",
 "inputs configurations", "all small integer point sets and queries including ties, duplicates, k larger than the data, 1..n trees, float and double",
 "tests compare one random data set against brute force",
 "vl/kdtree.c toolbox/misc/vl_kdtreequery.c", [("bound-ordered search", "vl_kdforestsearcher_query"), ("neighbour heap", "vl_kdtree_query_recursively")], "neighbour arrays")
prop("K03", "Approximate queries are sound, bounded and independent of earlier queries",
 "With a comparison limit, every returned neighbour is a real distinct data point with its true distance, in non-decreasing order, and no more than the permitted number of distance evaluations is made (up to finishing the current leaf). Searchers and repeated queries on the same forest never influence each other's results.",
 "inputs histories", "small forests, all limits, interleavings of queries over several searchers of one forest",
 "tests only check recall statistics on random data",
 "vl/kdtree.c", [("comparison budget", "vl_kdforestsearcher_query"), ("per-searcher visit marks", "searchIdBook")], "neighbour arrays and comparison counts")
prop("M01", "Extremal regions are exactly the maximally stable level components",
 "For every image the detector returns exactly the components of lower level sets (never the whole image) that satisfy the stability, variation, area and diversity rules for the chosen parameters, where between a component and its parent of equal variation the parent counts as the more stable and diversity is judged against the nearest selected enclosing component. Each is identified by a seed pixel inside it at its level, and the result depends only on the image and parameters, not on earlier images processed by the same object.",
 "inputs configurations", "all small images over few grey levels, 1-D to 3-D, and parameter grids",
 "tests run one natural image",
 "vl/mser.c vl/mser.h", [("union-find forest", "vl_mser_process"), ("stability and clean-up", "vl_mser_process")], "region seeds; statistics")
prop("M03", "Region ellipses are the exact first and second moments of the region",
 "For every selected region the fitted ellipsoid holds the mean of its pixel coordinates and the upper triangle of their covariance, packed column by column. Fitting twice or re-processing gives the same values.",
 "inputs histories", "all small images in 2-D and 3-D with every region selected",
 "tests plot one image only",
 "vl/mser.c", [("moment accumulation", "vl_mser_ell_fit")], "ellipsoid array")
prop("A01", "Agglomerative information bottleneck merges greedily and reports the right costs",
 "For every joint histogram each merge joins the pair with the least loss of mutual information (up to rounding), the dendrogram is a binary tree over all leaves with positive mass in merge order, and reported costs equal the mutual information after each merge and never increase. Empty rows are set aside without affecting the others.",
 "inputs", "all small integer joint histograms including empty rows and ties",
 "tests check one small matrix",
 "vl/aib.c vl/aib.h toolbox/aib/vl_aib.c", [("nearest-neighbour bookkeeping", "vl_aib_update_beta")], "parents and costs arrays")
prop("A02", "Cuts of the information-bottleneck tree quantise the alphabet as documented",
 "For every joint histogram the merge tree and its costs are those the agglomeration reports, a cut to any number of clusters selects exactly that many nodes covering every positive value once, and the returned map and shortcut send every value and node to its cut node (null values stay apart). Pushing values or histograms down the tree gives, per node, exactly the mass of the leaves below it.",
 "inputs configurations", "all small joint histograms with ties and null rows, every cut size, null clustering on and off, data and histograms",
 "tests run one small matrix without cuts of null values or input histograms",
 "toolbox/aib/vl_aib.c toolbox/aib/vl_aibcut.m toolbox/aib/vl_aibcutpush.m toolbox/aib/vl_aibcuthist.m toolbox/aib/vl_aibhist.c", [("cut and map", "toolbox/aib/vl_aibcut.m"), ("null clustering", "toolbox/aib/vl_aib.c"), ("node histogram", "toolbox/aib/vl_aibhist.c")], "returned tree, cost, cut, map, histograms")
prop("C01", "Integer k-means assigns to a nearest centre and moves centres to means",
 "Pushing data through integer centres assigns every point to a centre at minimal squared distance, and training with either algorithm repeats assigning and moving centres to the truncated means of their points until the assignments repeat or the limit is reached; centres without points stay where they are. The accelerated variant follows the plain one whenever no distance ties occur.",
 "inputs configurations", "all small integer point sets and initial centres, both algorithms, iteration limits",
 "tests check that centres have the right size on random data",
 "vl/ikmeans.c vl/ikmeans_lloyd.tc vl/ikmeans_elkan.tc vl/ikmeans_init.tc", [("Lloyd step", "vl/ikmeans_lloyd.tc"), ("triangle-inequality pruning", "vl/ikmeans_elkan.tc")], "centres and assignments")
prop("C02", "Hierarchical integer k-means quantises consistently along its tree",
 "Each node of the tree clusters exactly the points its ancestors route to it, down to the requested depth, with at most as many clusters as points. Pushing a point returns the path of nearest centres from the root, ending in -1 below a node without clusters, and routes training points to the same leaf they trained.",
 "inputs configurations", "small integer point sets, branching factors and depths",
 "tests check sizes on random data",
 "vl/hikmeans.c vl/hikmeans.h", [("recursive training", "xmeans"), ("push", "vl_hikm_push")], "tree centres and paths")
prop("C03", "K-means energy never increases and assignments are nearest centres",
 "For every data set, distance and algorithm, quantisation assigns each point to a centre at minimal distance and reports that distance, refinement never increases the energy, its result is a fixed point or stopped by a limit, and centres are the means (or medians for the city-block distance) of their points. The exact algorithms agree with each other, and initialisers choose the documented points.",
 "inputs configurations", "small integer data sets, both distances, float and double, every algorithm and initialiser",
 "tests check one random configuration of sizes and types, never energies or optimality",
 "vl/kmeans.c vl/kmeans.h", [("Lloyd/Elkan/ANN refinement", "vl/kmeans.c"), ("k-means++", "vl_kmeans_init_centers_plus_plus")], "centres, assignments, distances, energy")
prop("S01", "Superpixels are a complete labelling without fragments",
 "Every pixel of any image receives the label of one of the tiles whose centre may be nearest to it, chosen by local k-means under the regularised colour and space distance from the documented starting centres. After clean-up every connected segment is at least the minimum region size unless it holds the first pixel, segments only grow by absorbing small ones, and the result depends only on the image and parameters.",
 "inputs configurations", "small multi-channel images of all shapes, region sizes, regularisers and minimum sizes",
 "tests compare against nothing on a natural image",
 "vl/slic.c", [("k-means iterations", "vl_slic_segment"), ("small region elimination", "vl_slic_segment")], "label image")
prop("S02", "Quick shift links every pixel to its nearest denser neighbour",
 "For every image the density estimate is the documented windowed Gaussian sum, each pixel's parent is a nearest pixel of strictly higher density within the search window (itself if there is none) and the reported distance is the real one (infinite at a root). The parent graph is a forest, and processing again gives the same result.",
 "inputs configurations", "small images, kernel sizes, search radii, medoid and plain modes",
 "tests do not cover it",
 "vl/quickshift.c", [("density", "vl_quickshift_process"), ("gradient linking", "vl_quickshift_process")], "parents, distances, density")
prop("I01", "Distance transform is the exact lower envelope of parabolas",
 "For every image, coefficients and offsets, each output sample is the minimum over all source samples of value plus parabola, and the reported source achieves it. Row and column passes compose to the exact two-dimensional transform.",
 "inputs configurations", "all short signals over small integers, several coefficients and fractional offsets, infinite background samples",
 "one test compares a random image with brute force",
 "vl/imopv.c toolbox/imop/vl_imdisttf.c", [("envelope construction", "vl_image_distance_transform")], "distance and index arrays")
prop("I02", "Column convolution equals its definition for every geometry",
 "For every image, filter support, subsampling step and border rule the column convolution equals the mathematical sum, optionally transposed, touching only the addressed output samples. Vectorised and scalar code give the same result for every alignment.",
 "inputs configurations", "integer images of all small sizes, strides, alignments, filter ranges (also off-centre), steps, padding and transposition flags",
 "tests cover one image and a few filters",
 "vl/imopv.c vl/imopv_sse2.c", [("scalar kernel", "vl_imconvcol_v"), ("vector kernel", "vl/imopv_sse2.c")], "output buffer including guard samples")
prop("I03", "Triangular filtering, integral images and gradients equal their definitions",
 "For every image size, filter size, stride and step the triangular column convolution, the integral image, Gaussian smoothing and (for images of at least 2x2 pixels) the image gradients, cartesian and polar, equal their definitions at every sample, and nothing outside the addressed samples is written.",
 "inputs configurations", "integer images of all small sizes and strides",
 "tests check only natural-image smoothing with generous tolerance",
 "vl/imopv.c", [("triangular filter", "vl_imconvcoltri"), ("integral", "vl_imintegral"), ("gradient", "vl_imgradient")], "output buffers")
prop("I04", "Image warping, affine maps and thin-plate splines equal their definitions",
 "For every image, grid and set of points inverse warping returns the bilinear interpolation of the grid cell that holds each point and its derivatives, and NaN outside the grid; single-sample grids and empty images included, for every layer. Affine maps, their derivatives, the thin-plate kernel and its derivatives, the spline basis, the interpolated map and its bending equal their definitions: the spline passes through its control points. Arguments of other classes or sizes are refused.",
 "inputs", "small images on regular and irregular grids, points inside, on and outside the border, control point sets of all sizes",
 "no test calls these functions",
 "toolbox/imop/vl_imwbackwardmx.c toolbox/imop/vl_imwbackward.m toolbox/imop/vl_waffine.m toolbox/imop/vl_tps.m toolbox/imop/vl_tpsumx.c", [("cell search and interpolation", "vl_imwbackwardmx.c"), ("splines", "vl_tps.m, vl_tpsu.m, vl_wtps.m")], "images, points, bases and derivatives returned")
prop("L01", "Local binary pattern histograms count every pixel's pattern exactly",
 "For every image and cell size each interior pixel votes its quantised uniform pattern bilinearly into its cells and features are the square roots of cell-normalised counts. Reflection of the image permutes features by the documented left-right mapping.",
 "inputs configurations", "small integer images of all sizes around cell-size multiples, all pattern codes",
 "test only checks flipping on one image",
 "vl/lbp.c toolbox/misc/vl_lbpfliplr.m", [("pattern map", "_vl_lbp_init_uniform"), ("accumulation", "vl_lbp_process")], "feature array")
prop("V01", "Vector distances and kernels equal their definitions on every code path",
 "For every dimension, alignment and processor-feature setting the vector comparisons equal their mathematical definition up to rounding of the summed terms (chi-square, Hellinger and Jensen-Shannon on non-negative vectors), reading nothing but the vectors, and all-pairs evaluation fills the documented matrix. Each distance is related to its kernel as documented.",
 "inputs configurations", "dimensions 0..n, all alignments, every comparison, float and double, SIMD levels, with and without a second set",
 "the test compares scalar and vector code on a few random vectors",
 "vl/mathop.c vl/mathop_sse2.c vl/mathop_avx.c", [("dispatch", "vl_get_vector_comparison_function_f"), ("vector kernels", "vl/mathop_sse2.c")], "returned values and matrices")
prop("V02", "Numeric kernels meet their contracts over their whole domain",
 "Integer square roots are exact floors for every argument, rounding functions agree with mathematical floor, ceiling and half-away-from-zero rounding, angle reduction lands in [0, 2 pi] up to rounding at the same angle, and the fast approximations stay within their documented or inherent error (arctangent 0.0061 rad, reciprocal square root 5e-6). Linear solvers return the solution or report singularity, and the 2x2 singular value decomposition has orthonormal factors, ordered values and reconstructs its input.",
 "inputs", "all 8/16-bit and structured 32/64-bit integers, dense rational grids for real functions, integer matrices",
 "tests sample a few values per function",
 "vl/mathop.h vl/mathop.c", [("bitwise square root", "VL_FAST_SQRT_UI"), ("gaussian elimination", "vl_gaussian_elimination")], "returned values")
prop("E01", "VLAD encoding sums residuals per centre with the chosen normalisation",
 "For every data set, centres and assignment weights vl_vlad_encode returns, per centre, the sum of weight times (point - centre) over the points with positive weight (or, with NORMALIZE_MASS, that sum divided by the total weight); then signed square roots, then unit norm per centre, then unit norm of the whole, each applied exactly when its flag asks for it (the last unless UNNORMALIZED). Centres without data give zero blocks; the inputs are not modified.",
 "inputs configurations", "dyadic data, 1-9 dimensions, all sixteen flag combinations, hard, soft, zero and negative weights, float and double, 1-4 threads, SIMD on and off",
 "tests compare a couple of random encodings with an Octave one-liner",
 "vl/vlad.c", [("accumulation and normalisation", "vl_vlad_encode")], "encoding vector")
prop("E02", "GMM posteriors, EM updates, limits and Fisher vectors equal their definition",
 "The posteriors of vl_get_gmm_data_posteriors and of EM are those of the mixture (modes with prior below 1e-6 get none) and the log-likelihood returned by vl_gmm_em/vl_gmm_cluster and by vl_gmm_get_loglikelihood is that of the parameters in the object. Each EM iteration sets priors, means and variances to the moments of the memberships (those below 1/100K excluded), variances never below their bounds, splitting the mode with the largest entropy share when a mode is nearly empty from the third iteration on; it stops at the iteration limit or when the likelihood varies by less than 1e-5, and then leaves the mixture alone. Random and k-means initialisation give the documented start; clustering keeps the best repetition; copies behave as the original. vl_fisher_encode equals its definition for all flags and returns the number of terms. This holds for any number of threads, with and without SIMD.",
 "inputs configurations histories", "small data sets, 1-18 dimensions, 1-5 modes including empty and distant ones, initialisations, limits 0-11, repetitions, lower bounds, flags, float and double, 1-5 threads",
 "tests compare one configuration between scalar and vector code",
 "vl/gmm.c vl/fisher.c", [("EM loop", "vl_gmm_em"), ("posteriors", "vl_get_gmm_data_posteriors"), ("repetitions", "vl_gmm_cluster"), ("encoding", "vl_fisher_encode")], "posteriors, likelihood, parameters, encoding")
prop("W01", "SVM training visits samples in epochs and follows its reporting protocol",
 "Training visits every sample (the dual solver: every sample of positive weight) exactly once per epoch in a fresh random order that is reproducible from the seed, makes exactly as many iterations as the limit allows unless it converges, calls the diagnostic function every DiagnosticFrequency iterations and at the last one, and reports training, converged or limit status correctly. The reported iteration is the zero-based index of the last iteration made. The same holds for the callbacks of vl_svmtrain.",
 "histories configurations", "both solvers, data sizes, iteration limits, diagnostic frequencies, thresholds, start iterations",
 "tests only check the final model roughly",
 "vl/svm.c", [("solver loops", "_vl_svm_sdca_train/_vl_svm_sgd_train")], "user-supplied data, loss and diagnostic callbacks")
prop("W02", "SVM objective, statistics and updates follow the chosen loss exactly",
 "For every data set, weights, loss and parameters the reported scores, loss, regulariser and objective equal their definitions at the current model, the dual objective never exceeds the primal for the dual solver, and each update is the exact dual step, respectively the documented subgradient step, for that loss. The returned model is what the statistics and scores describe, a sample of zero weight still has its score, and vl_svmtrain passes its options on faithfully and refuses malformed ones; a data set with a homogeneous kernel map behaves as the mapped data.",
 "inputs configurations", "small integer data sets, all losses, weights, bias multipliers",
 "tests compare one solution with a reference",
 "vl/svm.c vl/svmdataset.c toolbox/misc/vl_svmtrain.c", [("losses", "vl/svm.c"), ("statistics", "_vl_svm_update_statistics")], "model, bias, statistics at each diagnostic")
prop("F01", "HOG features have the documented geometry, symmetries and normalisation",
 "For every image, cell size, variant and orientation count the feature array has the documented dimensions, every interior gradient votes with its magnitude into its cells and orientations, and mirrored input gives features permuted by the published flip permutation. Transposed mode equals normal mode on transposed data and extraction does not change the result of a later extraction.",
 "inputs configurations histories", "small integer images of all sizes, cell sizes, both variants, bilinear and hard assignment, repeated extraction",
 "tests check flips on one image",
 "vl/hog.c", [("accumulation", "vl_hog_put_image"), ("normalisation", "vl_hog_extract")], "dimensions, permutation, feature arrays")
prop("F02", "Dense SIFT samples the documented grid with consistent descriptors",
 "For every image size, bounds, step, bin size and bin count the keypoints are exactly the documented regular grid inside the bounds and each descriptor summarises gradients around its own keypoint with the documented layout and normalisation. Re-processing or changing parameters on the same object gives the same result as a fresh one.",
 "inputs configurations histories", "small images, all geometries, flat and Gaussian windows, parameter change sequences",
 "tests compare a few descriptors with another implementation at one geometry",
 "vl/dsift.c vl/dsift.h", [("geometry update", "_vl_dsift_update_buffers"), ("descriptor extraction", "vl_dsift_process")], "keypoints and descriptors")
prop("F03", "SIFT filter follows its octave protocol with valid keypoints",
 "Processing visits each octave once in order and then reports their end; every octave has the documented size and its levels are the Gaussian smoothings of the level they derive from. Keypoints of an octave are exactly the strict scale-space extrema whose refined position stays in bounds and passes the peak and edge thresholds; orientations and descriptors are the documented gradient histograms around the keypoint. Results depend only on the image and parameters: in whatever order keypoints are queried, and when a filter is reused for another image of the same size.",
 "inputs configurations histories", "images of many sizes, octave settings, thresholds, sequences of process/detect/orientation/descriptor calls",
 "tests compare one image with stored frames",
 "vl/sift.c vl/sift.h", [("octave state", "vl_sift_process_next_octave"), ("detection", "vl_sift_detect")], "return codes, keypoints, orientations, descriptors")
prop("F04", "Scale spaces have the documented geometry and per-level contents",
 "For every geometry each octave and level has the documented size, step and scale; each level is the resampled image smoothed by the amount that takes it from the level before to its own scale, contents depend only on the image and geometry, no cell outside a buffer is written and copies are equal but independent. Octave subdivisions that describe the same level agree and geometries compare equal exactly when all their fields match.",
 "inputs configurations histories", "image sizes including odd and tiny ones, octave and subdivision ranges, nominal scales",
 "no test addresses the scale space object",
 "vl/scalespace.c vl/scalespace.h", [("geometry", "vl_scalespace_get_octave_geometry"), ("filling", "vl_scalespace_put_image")], "geometries and level buffers")
prop("F05", "Covariant detectors report exactly the stable extrema of their response",
 "The local extrema search returns exactly the interior samples strictly larger (or smaller) than all neighbours and beyond the threshold, and each detector reports the stable, subpixel-refined extrema of its cornerness measure over the documented scale space that pass the peak and edge thresholds. Non-extrema suppression removes exactly the overlapped weaker features, Laplacian selection replaces features by their extremal scales, and the result depends only on image and settings, not on what the object did before.",
 "inputs configurations histories", "all small arrays; detector methods, thresholds, octave and scale settings, image sizes and suppression tolerances; reuse of an object",
 "no test reaches the search function directly, nor checks a detected feature",
 "vl/covdet.c vl/covdet.h", [("extrema search", "vl_find_local_extrema_3"), ("refinement", "vl_refine_local_extreum_3"), ("detector", "vl_covdet_detect")], "extrema lists, refined positions, scale space levels, features")
prop("F06", "LIOP descriptor counts every patch pixel's neighbour ordering once",
 "For every patch the descriptor bins each measured pixel by intensity rank into equal-size spatial bins and by the ordering permutation of its neighbours, weighted as documented, and is normalised. Scaling the intensities of a patch (and an absolute threshold with them) does not change the result.",
 "inputs configurations", "small integer patches, numbers of neighbours and spatial bins",
 "the test runs one patch",
 "vl/liop.c", [("ordering index", "get_permutation_index"), ("binning", "vl_liopdesc_process")], "descriptor")
prop("F07", "Covariant frames sample, orient and adapt to the image they are on",
 "A patch extracted for a frame is the image at the requested smoothing resampled through the frame's affine map, continued by its border or refused when it does not fit and padding is off. Orientations are the documented peaks of the gradient histogram of the normalised patch, strongest first; Laplacian scales the extrema of the scale-normalised Laplacian; affine adaptation keeps centre, handedness and smaller axis and reaches an isotropic second moment; features outside the image are dropped.",
 "inputs configurations", "frames of all shapes, handedness and positions, smoothing, extents and resolutions, images and octaves, transposed or not",
 "the tests only compare counts and plots on one photograph",
 "vl/covdet.c vl/covdet.h", [("patch", "vl_covdet_extract_patch_helper"), ("orientations", "vl_covdet_extract_orientations_for_frame"), ("affine shape", "vl_covdet_extract_affine_shape_for_frame"), ("Laplacian scales", "vl_covdet_extract_laplacian_scales_for_frame")], "patches, orientations, scales, frames")
prop("C04", "MATLAB clustering and search functions compute what the library does",
 "Every MATLAB clustering, encoding, search and segmentation function (k-means, GMM, Fisher vectors, VLAD, kd-trees, integer and hierarchical k-means, SLIC, quick shift) returns what the C library computes on the same data, parameters and random state, counted from one, with the documented defaults and whichever options and outputs are asked for. Returned trees are what the documentation says they are and work when passed back; invalid arguments and inconsistent structures are refused and no call touches memory that is not its own.",
 "inputs configurations", "random data of both classes, random subsets of the options in random order and case, one to five outputs, damaged trees, invalid arguments",
 "the tests check properties of one clustering with default options",
 "toolbox/kmeans/vl_kmeans.c toolbox/gmm/vl_gmm.c toolbox/fisher/vl_fisher.c toolbox/vlad/vl_vlad.c toolbox/misc/kdtree.h toolbox/misc/vl_kdtreebuild.c toolbox/misc/vl_kdtreequery.c toolbox/kmeans/vl_ikmeans.c toolbox/kmeans/vl_hikmeans.c toolbox/kmeans/vl_hikmeanspush.c toolbox/slic/vl_slic.c toolbox/quickshift/vl_quickshift.c", [("options and outputs", "mexFunction in vl_kmeans.c"), ("trees as structures", "new_kdforest_from_array in kdtree.h")], "returned arrays, structures and errors")
prop("F08", "MATLAB feature functions compute what the library computes",
 "Every MATLAB feature function (SIFT, raw and dense SIFT, covariant features, LIOP, HOG, LBP) returns what the C library computes on the same image with the documented parameters and defaults, expressed in MATLAB's conventions (from one, axes exchanged, angles turned, descriptor bins moved accordingly), whichever options are given, in any order or case, and however many outputs are asked for. Invalid arguments are refused and no call touches memory that is not its own.",
 "inputs configurations", "random images, patches and frames of every kind, random subsets of the options in random order and case, one to three outputs, invalid arguments",
 "the tests compare with stored results for one image and few options",
 "toolbox/sift/vl_sift.c toolbox/sift/vl_siftdescriptor.c toolbox/sift/vl_dsift.c toolbox/sift/vl_covdet.c toolbox/sift/vl_liop.c toolbox/misc/vl_hog.c toolbox/misc/vl_lbp.c", [("frames and descriptors", "mexFunction in vl_sift.c"), ("options", "vlmxNextOption in mexutils.h")], "returned frames, descriptors and errors")
prop("T01", "Sparse histogram accumulation and lookup are exact inverses",
 "Accumulating vectors into a hash table and looking them up returns the exact count of each distinct vector, for any collision pattern, any initial number of buckets and across incremental updates, also when the table overflows. Each distinct vector has one bucket, lookup of absent or null vectors reports absence, and null vectors cannot be added.",
 "histories inputs", "all small insertion sequences over colliding and non-colliding columns",
 "tests run one random instance",
 "toolbox/misc/vl_ihashsum.c toolbox/misc/vl_ihashfind.c", [("linked probing", "vl_ihashsum.c")], "table contents and returned ids")
prop("T02", "Integral histograms give the label mass inside any box",
 "For any label maps, with or without masses, the integral histogram at a pixel is the total mass of each label above and to the left of it over all the maps, and sampling it returns for every box exactly the mass of each label inside the box. Empty boxes give zeros; boxes outside the map, labels beyond the declared number and masses of another size are refused.",
 "inputs configurations", "small label maps of several layers, masses of both classes, all kinds of boxes",
 "tests check one layer of small labels and no masses",
 "toolbox/misc/vl_inthist.c toolbox/misc/inthist.tc toolbox/misc/vl_sampleinthist.c toolbox/misc/samplinthist.tc", [("accumulation", "PROCESS in vl_inthist.c, INTEGRAL"), ("sampling", "SAMPLE")], "returned histograms and errors")
prop("T03", "Binning and running-maximum utilities equal their definitions",
 "For all inputs binned sums, binary search, cumulative maxima, local maxima and weighted histograms equal their definitions, including boundaries, infinities, null indexes, NaN samples or weights, scalar values and any dimension argument, for every storage class with wrap-around integer sums. Indexes or sizes that do not fit are refused.",
 "inputs configurations", "small integer arrays of 2 to 4 dimensions, storage classes",
 "tests check a handful of literals",
 "toolbox/misc/vl_binsum.c toolbox/misc/vl_binsearch.c toolbox/misc/vl_cummax.c toolbox/misc/vl_localmax.c toolbox/misc/vl_whistc.m", [("kernels", "toolbox/misc")], "returned arrays")
prop("M02", "The MATLAB region detector reports dark and bright regions faithfully",
 "For every image and option values the MATLAB region detector returns as positive seeds exactly the stable regions of the image and as negative seeds those of the inverted image, each once and as the polarity options ask, with the mean and covariance of the pixels of each region in its order, counting pixels from one. Transposing frames exchanges the axes; invalid option values are refused.",
 "inputs configurations", "small 2-D and 3-D images, all detector options and both polarities",
 "the test looks for two regions of one synthetic image",
 "toolbox/mser/vl_mser.c toolbox/mser/vl_ertr.m vl/mser.c", [("option forwarding and polarity", "toolbox/mser/vl_mser.c"), ("frames", "toolbox/mser/vl_ertr.m")], "seeds and frames returned")
prop("T05", "Region growing returns exactly the connected level component of its seed",
 "For any integer image of any number of dimensions and any seed, extracting an extremal region returns exactly the pixels connected to the seed through values not above the seed's, each once. Negative seeds select the dual region and seeds outside the image are refused.",
 "inputs", "all small images and every seed",
 "tests use one image",
 "toolbox/mser/vl_erfill.c", [("flood fill", "vl_erfill.c")], "member list")
prop("X01", "Command line detectors write exactly what the library computes",
 "For every image they can process, sift and mser write exactly the files their file specifiers name, holding in the chosen protocol exactly the frames, descriptors, regions or scale-space levels the library computes with the given options (frames read from a file replace detection), and nothing else. Invalid options are refused before any file is touched. Exit status and diagnostics tell when an image fails or an output cannot be written in full, and a failing image does not affect the others.",
 "inputs configurations fault_sequences", "small images, option combinations, file specifiers, malformed inputs, unwritable outputs",
 "no test runs the programs",
 "src/sift.c src/mser.c src/generic-driver.h", [("file specifiers", "src/generic-driver.h"), ("image loop", "main in src/sift.c, src/mser.c")], "output files, diagnostics and exit status")
prop("N01", "Rotation vectors and rotation matrices convert into each other",
 "For every vector the exponential is the rotation by its length about it, and its derivative is that of this map. For every rotation the logarithm is a vector of length at most half a turn whose exponential is that rotation, near the identity and near half turns and for matrices rounded slightly off, with its derivative. The MATLAB functions convert any number of them alike, hat and inverse hat included, and refuse other shapes and classes.",
 "inputs", "vectors and rotations of all angles, near zero, near half and full turns and rounded",
 "no test calls these functions",
 "vl/rodrigues.c toolbox/geometry/vl_rodr.c toolbox/geometry/vl_irodr.c toolbox/geometry/vl_hat.m toolbox/geometry/vl_ihat.m", [("exponential and logarithm", "vl/rodrigues.c"), ("batches", "vl_rodr.c, vl_irodr.c")], "vectors, matrices and derivatives returned")
prop("N02", "The homogeneous kernel map approximates its additive kernel",
 "For every kernel, homogeneity degree, order, period and window, mapping a number yields the sampled spectrum of the kernel times the homogeneous weight and the phases of the logarithm of the number, so that inner products of maps approximate the kernel. Negative numbers map to the negated map of their absolute value, zero to zero, any finite number without reading beyond the table; default parameters are used as documented. The MATLAB function maps every element of any array; invalid arguments are refused.",
 "inputs configurations", "numbers over the whole range, all kernels, windows, orders and degrees",
 "tests compare one MATLAB result with a stored one",
 "vl/homkermap.c toolbox/misc/vl_homkermap.c", [("spectrum sampling", "vl_homogeneouskernelmap_new"), ("table look-up", "vl_homogeneouskernelmap_evaluate_d/_f")], "feature vectors returned")
prop("T04", "ROC, precision-recall and DET curves equal their definitions",
 "For all labels, scores and options the ROC, precision-recall and DET curves are the rates of the ranked prefixes of the samples, ties in the given order, stopping at samples never retrieved; missing positives or negatives count. Areas, equal error rate, average precisions, prior normalisation, interpolation and the stable output equal their definitions, with no division by zero.",
 "inputs configurations", "small labelled rankings with ties, unlabelled and unretrieved samples, all options",
 "tests check a handful of perfect or random rankings",
 "toolbox/plotop/vl_roc.m toolbox/plotop/vl_pr.m toolbox/plotop/vl_det.m toolbox/plotop/vl_tpfp.m", [("ranking", "vl_tpfp.m"), ("curves and areas", "vl_roc.m, vl_pr.m, vl_det.m")], "curves and statistics returned")
prop("T06", "MATLAB pairwise distances and descriptor matches equal their definitions",
 "For all full or sparse matrices of every class the pairwise comparison functions return for each pair of columns the chosen distance or kernel in the arithmetic of the class, with one or two arguments alike, and descriptor matching returns exactly the pairs of a column and its nearest neighbour that pass the second-nearest ratio test, with the squared distances. Unknown metrics and mismatched arguments are refused.",
 "inputs configurations", "small matrices of all classes, metrics, sparse patterns and thresholds",
 "tests compare a few random matrices with loops",
 "toolbox/misc/vl_alldist.c toolbox/misc/vl_alldist2.c toolbox/sift/vl_ubcmatch.c", [("sparse merge and symmetric fill", "vl_alldist2.c"), ("early exit of matching", "vl_ubcmatch.c")], "matrices and matches returned")
prop("I05", "MATLAB image operations equal their documented formulas",
 "For every image, class, channel count and option, Gaussian and triangular smoothing with padding and subsampling, integral images, distance transforms with nearest indexes, gradients, up- and downsampling, colour conversions and image mosaics return what their documentation defines, channel by channel, empty images included. Sparse, complex, negative, infinite or unknown arguments are refused, never read outside memory.",
 "inputs configurations", "small images of all classes, channels, sigmas, paddings, parabolas, colour spaces and layouts",
 "tests compare one image per function",
 "toolbox/imop/vl_imsmooth.c toolbox/imop/vl_imintegral.c toolbox/imop/vl_imdisttf.c toolbox/imop/vl_imgrad.m toolbox/imop/vl_imup.m toolbox/imop/vl_imdown.m toolbox/imop/vl_imarray.m toolbox/imop/vl_xyz2lab.m toolbox/imop/vl_xyz2luv.m toolbox/imop/vl_xyz2rgb.m toolbox/imop/vl_rgb2xyz.m", [("smoothing and subsampling", "vl_imsmooth.c"), ("distance transform along dimensions", "vl_imdisttf.c"), ("colour conversions", "vl_xyz2lab.m, vl_xyz2luv.m, vl_xyz2rgb.m")], "images returned and errors raised")
prop("T07", "MATLAB option parsing, selection and helper functions follow their help",
 "For every option list, with nested structures, dotted names, any letter case and all modes, parsing sets exactly the named options and reports or returns exactly the unknown ones; overriding acts recursively, warning and skipping as asked; column selection, histogram marginals in any dimension order, alphanumeric sorting, bell, logistic and raised cosine functions and numerical derivatives equal their definitions. Invalid arguments are refused.",
 "inputs configurations", "random option trees, argument lists, matrices, histograms, strings and quadratic maps",
 "tests check a few lists",
 "toolbox/misc/vl_argparse.m toolbox/misc/vl_override.m toolbox/misc/vl_colsubset.m toolbox/misc/vl_histmarg.m toolbox/misc/vl_alphanum.m toolbox/misc/vl_numder.m toolbox/misc/vl_numder2.m toolbox/special/vl_gaussian.m toolbox/special/vl_sigmoid.m toolbox/special/vl_rcos.m", [("option lists", "vl_argparse.m"), ("recursive override", "vl_override.m"), ("choice of columns", "vl_colsubset.m")], "values returned, warnings and errors")
