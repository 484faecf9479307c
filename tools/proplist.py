prop("C01", "Every way of addressing an image element reaches the same one, in bounds",
     "For an image of any dimensionality and size, element k of the data in row-major order with the first coordinate fastest is the same element through every accessor, setter and constructor, a copy is independent of its source, casts, comparison and whole-image element-wise arithmetic act on each element separately, and a location or index list outside the image is refused with an exception without touching memory. A rejected call leaves the image unchanged, and printing an image writes every element once, in order, a line per row.",
     ["inputs"], "every element type, dimensionality 1 to 5, shape and index, inside or outside the image",
     "Tests touch a handful of 2-D/3-D images; an aliasing or bounds slip shows only for particular shapes (strips, unit extents, mixed dimensionality) and often only as a silent out-of-bounds read.",
     ["image.h"], [("index arithmetic and boundary check", "image.h: Image::at, at_without_boundary_check, checkBoundary"), ("constructors", "image.h: Image::Image"), ("arithmetic operators", "image.h: operator+=, -=, *=, /=")],
     "runtime monitoring: shadow copy of every element, cross-read through every accessor, under ASan/UBSan", TRUST)
prop("C02", "BMP files: what is written is what is read, for files of any producer",
     "Writing an RGB image of any size as BMP and reading it back gives the same image, the bytes on disk are a standard BMP that any other reader decodes to the same pixels, and standard uncompressed 24-bit and 8-bit palette files made by other programs (top-down rows, longer headers, gaps before the pixels) are read pixel for pixel. Reading a file that does not exist is refused with an exception.",
     ["inputs"], "every width and height (all four row-padding classes), pixel content and file layout variant",
     "Tests round-trip through the same code, so reader and writer can be wrong together, and use few widths.",
     ["image_io.h", "image_io.cpp"], [("row padding and headers", "image_io.cpp: bmp_write, bmp_file_read, array_to_raw_image, raw_image_to_array")],
     "runtime monitoring: independent BMP encoder/decoder as oracle on the bytes on disk, under ASan/UBSan", TRUST)
prop("C03", "Damaged or hostile image files never corrupt memory, leak, hang or kill",
     "Reading any byte sequence as BMP, dbmp, hsv, CSV or PNM ends in an image whose size matches its data or in an exception or empty image: never an out-of-bounds access, undefined behaviour, process termination, shell command, endless loop, leaked file descriptor or memory growing with every read. This holds however the file is truncated or its header fields altered.",
     ["inputs", "fault_sequences"], "every byte string up to the sizes generated, including every truncation of small valid files",
     "Tests read only well-formed files.",
     ["image_io.h", "image_io.cpp"], [("header validation", "image_io.cpp: bmp_read_x_size, bmp_read_y_size, bmp_file_read; image_io.h: double_image::read, hsv_read, read_from_csv, pnm::read")],
     "runtime monitoring: mutated files under ASan/UBSan with descriptor, heap-growth, system() and hang monitors", TRUST + " Files whose header asks for 24 MB or more are skipped.")
prop("C04", "dbmp, hsv, CSV and PNM files round-trip exactly and match their format",
     "Writing an image as dbmp, hsv, CSV or PNM (P1, P2, P3) and reading it back gives the same values bit for bit, with every execution policy and thread count, the bytes on disk follow the documented layout so an independent parser agrees, and files in the same format from another producer are read value for value. Sub-normal, infinite and negative-zero doubles survive in the raw double formats.",
     ["inputs", "configurations"], "every image size and content, every policy and thread count",
     "Tests use small images with friendly values and one policy, and read back with the same code.",
     ["image_io.h", "image_io.cpp"], [("raw double layout", "image_io.h: double_image::write/read, hsv_write/hsv_read"), ("text formats", "image_io.h: write_to_csv, read_from_csv, pnm::read, pnm::write")],
     "runtime monitoring: independent parsers/writers as oracle on the bytes on disk, under ASan/UBSan", TRUST)
prop("C05", "An image writer that cannot store the whole file says so",
     "When storage fails after any number of bytes (disk full, file-size limit), every image writer reports failure (an error result or an exception) instead of success, whatever the point of failure; a reported success means the complete file is on disk. The same call succeeds once the fault is gone, and no call, successful or not, keeps memory or file descriptors.",
     ["fault_sequences", "crash_points"], "every writer and every byte position at which storage can fail",
     "Tests never inject storage faults.",
     ["image_io.h", "image_io.cpp"], [("write result checks", "image_io.cpp: bmp_write; image_io.h: double_image::write, hsv_write, write_to_csv, pnm::write")],
     "fault injection: RLIMIT_FSIZE at every byte and /dev/full, oracle compares result with bytes on disk", TRUST)

prop("C06", "Pixel-wise arithmetic gives each pixel's own result, without touching its inputs",
     "For images of any dimensionality and size, every pixel-wise operation (plus/subtract/multiplies/divides/modulus/negate/difference/abs/power/trigonometric and logarithmic functions, normalisation, pixelwise_transform, scalar forms, and their multi-channel versions) returns an image of the same shape in which each element of each channel is the scalar operation on the corresponding elements only. The inputs are unchanged, and arithmetic on images of different sizes is refused rather than reading beyond one of them.",
     ["inputs"], "every element type (integer, floating, complex, RGB, HSV, 1 to 5 channels), dimensionality, shape and content",
     "Tests use one or two small images per function; a channel skipped, an element aliased or an input overwritten shows only for particular channel counts, shapes or values.",
     ["image_operations.h", "image.h"], [("pixelwise_transform and arithmetic built on it", "image_operations.h: pixelwise_transform, plus, subtract, multiplies, divides, modulus, negate"), ("per-channel lifting", "image_operations.h: apply_each")],
     "runtime monitoring: element-by-element scalar reference and input snapshots, under ASan/UBSan", TRUST)
prop("C09", "Convolution equals the defining sum, full and same-size, in any dimension",
     "For an image and a kernel of equal dimensionality and any sizes, convolution returns the full linear convolution, out[k] = sum over j of image[k-j]*kernel[j] with zero outside both, of size image+kernel-1 per dimension, and with is_size_same its central part of the image's size; multi-channel images are convolved channel by channel. The inputs are unchanged and kernels larger than the image are handled.",
     ["inputs"], "every dimensionality 1 to 4, image and kernel shape and content, real and multi-channel",
     "Tests check one or two kernels on square 2-D images.",
     ["image_operations.h"], [("convolution", "image_operations.h: convolution, conv2")],
     "runtime monitoring: differential oracle (defining sum in long double), under ASan/UBSan", TRUST)
prop("C10", "DCT and DFT equal their definitions and their inverses give the input back",
     "For images of any width and height (and stacks of any depth), dct2, dct3 and dft2 equal the orthonormal DCT-II and the DFT defined by their sums, idct2, idct3 and idft2 invert them to within rounding, channel by channel for RGB and HSV images, and the inputs stay unchanged. Energy is preserved as the definitions demand.",
     ["inputs"], "every shape (strips, unit extents, odd and even), element type and content",
     "Tests transform one fixed image size; a wrong normalisation or index shows only for non-square or unit-extent shapes.",
     ["image_operations.h"], [("transform kernels", "image_operations.h: dct2, idct2, dct3_one_plane, idct3_one_plane, dft2, idft2, dct2_detail")],
     "runtime monitoring: differential oracle (defining sum in long double) and round trip, under ASan/UBSan", TRUST)
prop("C11", "Transpose, flips and rotations move every pixel to exactly the right place",
     "For a 2-D image of any shape and element type, transpose (with and without policy) and the three flips are the exact index permutations, rotating by any whole number of quarter turns (negative and beyond 360 degrees included) is the exact quarter turn applied that many times, and rotation by any other angle with rotate_detail_shear_transformation samples the source point given by the inverse rotation about the centres on a canvas just large enough, black outside; rotate by such an angle keeps the canvas, puts each pixel where turning about the centre and shrinking to fit takes it, and sets nothing else. The input is unchanged and images of another dimensionality are refused.",
     ["inputs"], "every 2-D shape, element type, content and angle",
     "Tests rotate one or two fixed images by one angle; a swapped extent or rounding of the angle shows only for non-square images or particular multiples of 90 degrees.",
     ["image_operations.h"], [("permutations", "image_operations.h: transpose, flip_horizontal, flip_vertical, flip_horizontal_vertical"), ("rotation", "image_operations.h: rotate, rotate_detail, rotate_detail_shear_transformation")],
     "runtime monitoring: index-map oracle and recording interpolator, under ASan/UBSan", TRUST)
prop("C12", "Cropping, splitting, joining, pasting and padding copy exactly the right pixels",
     "For images of any size, subimage (any dimensionality, windows partly or wholly outside give the default value), subimage2 (inclusive ranges, invalid ones refused), split, split_overlap, concat, concat_horizontal, concat_vertical, paste2D (growing the canvas), add_border_2d and constant, mirror and replicate padding put every source pixel at its exact place and fill the rest as documented, and concat undoes split whenever the block counts divide the image. Inputs are unchanged, and joins of mismatched sizes and mirror padding wider than the image allows are refused.",
     ["inputs"], "every image shape, window, block count, paste position and padding width",
     "Tests use a few fixed windows in the interior; off-by-one slips live at the border, for odd sizes or non-dividing block counts.",
     ["image_operations.h"], [("windows", "image_operations.h: subimage, subimage2, split, split_overlap"), ("joining", "image_operations.h: concat, concat_horizontal, concat_vertical, paste2D, add_border_2d"), ("padding", "image_operations.h: generate_constant_padding_image, generate_mirror_padding_image, generate_replicate_padding_image, generate_padded_image")],
     "runtime monitoring: index-map oracle over every output pixel, under ASan/UBSan", TRUST)
prop("C13", "Resampling evaluates its interpolation formula at every pixel, for any sizes",
     "Resizing an image of any size to any size with resize_nearest_neighbor, copyResizeBicubic or lanczos_resample (any kernel size, with and without policy, channel by channel) gives at each output pixel the documented interpolation of the source with neighbours clamped to the image and integral results clamped to the type's range, bilinear_interpolate and default_bicubic_interpolator do so at any real coordinate, and the fisheye lenses move pixels along the documented radial map. No source size or coordinate makes them read outside the image, and the input is unchanged.",
     ["inputs"], "every source size, target size, element type, content and coordinate",
     "Tests resize one image by a fixed factor; mistakes live at the borders, at unit extents and in overflow of integral types.",
     ["image_operations.h"], [("resampling kernels", "image_operations.h: copyResizeBicubic, bicubicPolate, cubic_interpolate, lanczos_resample, lanczos_kernel, resize_nearest_neighbor"), ("point interpolation", "image_operations.h: bilinear_interpolate, default_bicubic_interpolator, cubic_kernel"), ("lenses", "image_operations.h: gaussian_fisheye, FisheyePixelMapper, butterworth_fisheye")],
     "runtime monitoring: differential oracle (formula in long double), under ASan/UBSan", TRUST)
prop("C14", "Colour conversion and channel planes keep every pixel's colour",
     "For every 24-bit colour rgb2hsv gives the hue, saturation and value of the defining formulas (hue in [0,360), saturation in [0,1], value the largest channel) and hsv2rgb the truncated formula for every valid HSV point, so a round trip stays within the error of the hue formula (7 levels); whole-image versions with and without policy, increase_intensity (value scaled and saturated), im2double/im2uint8, getPlane and the construct functions act on every pixel and channel separately, and taking planes apart and together again is lossless for 1 to 5 channels. Inputs are unchanged and planes of different sizes are refused.",
     ["inputs"], "every colour, HSV point, image shape, channel count and policy",
     "Tests convert a handful of colours; a wrong sector boundary, channel order or size check shows only for particular hues or shapes.",
     ["image_operations.h"], [("colour formulas", "image_operations.h: rgb2hsv, hsv2rgb, Grayscale2RGB"), ("planes", "image_operations.h: getPlane, constructRGB, constructHSV, constructRGBDOUBLE, constructMultiChannel, addChannel, convert_image")],
     "runtime monitoring: formula oracle in long double over sampled colours and images, under ASan/UBSan", TRUST)
prop("C15", "Histograms count every element exactly once and Otsu picks a best threshold",
     "For any image, histogram, histogram_normalized and histogram_with_bins count every element in range exactly once in its own bin, and after any history of addCount, +, -, +=, -=, operator[] writes and copies a Histogram agrees with the bag of counted values through getCount, operator[], getCountSum, size, iteration, normalize and to_probabilities_vector (subtraction stops at zero). otsu_threshold returns the first threshold of a plateau that maximises the between-class variance, or the number of bins for a single grey level.",
     ["inputs", "histories"], "every image, element type and sequence of histogram operations",
     "Tests compare one image's histogram; conservation of counts over operation sequences, range edges and sparse types are not sampled.",
     ["histogram.h", "image_operations.h"], [("dense and sparse storage", "histogram.h: Histogram"), ("binning and thresholds", "image_operations.h: histogram_with_bins, histogram_normalized, otsu_threshold")],
     "runtime monitoring: model-based history checker (map model), under ASan/UBSan", TRUST)
prop("C16", "Gaussian figures, smoothing, window and bilateral filters match their definition",
     "For any size, centre, width and correlation the Gaussian figures hold the defining values, imgaussfilt with odd filter sizes and any of the three boundary modes is the normalised separable Gaussian of the padded image (difference_of_gaussian their difference), windowed_filter calls the filter exactly once per pixel with exactly the window around it and reports strictly increasing progress in (0,1], and bilateral_filter is the mean weighted by range and spatial kernels over the whole window. Multi-channel overloads filter each channel, results are the same with every policy, and the input is unchanged.",
     ["inputs"], "every image, filter parameter, boundary mode and policy",
     "Tests smooth one image with one parameter set; mistakes live at the border, for non-square windows and in the padding arithmetic.",
     ["image_operations.h"], [("gaussians", "image_operations.h: gaussianFigure1D, gaussianFigure2D, gaussianFigure3D, imgaussfilt, difference_of_gaussian"), ("windows", "image_operations.h: windowed_filter, bilateral_filter, bilateral_filter_detail, DefaultPatchDistance")],
     "runtime monitoring: differential oracle in long double and a recording window filter, under ASan/UBSan", TRUST)
prop("C17", "Whole-image reductions, counts, predicates and distances see every element once",
     "For any image, min, max, minmax, sort, sum and mean (with any policy), count, unique_value, replace, the all/any/none predicates and the per-channel minima and maxima give the result of a plain loop over all elements, and manhattan_distance and euclidean_distance (scalar, RGB, HSV and N-channel images, arrays and ranges) give the defining sums without overflow of the element type. Inputs are unchanged and images or ranges of different sizes are refused.",
     ["inputs"], "every image, element type, target value and policy",
     "Tests reduce one or two small images; a skipped last element, wrap-around of unsigned differences or a wrong neutral element shows only for particular contents.",
     ["image_operations.h"], [("reductions", "image_operations.h: sum, mean, min, max, minmax, count, replace, unique_value, all_of, any_of, none_of"), ("distances", "image_operations.h: manhattan_distance, euclidean_distance, squared_euclidean_distance, difference")],
     "runtime monitoring: differential oracle (plain loops in long double), under ASan/UBSan", TRUST)
prop("C18", "Nested-container algorithms visit every leaf once and keep the structure",
     "For containers nested to any depth, ragged and with empty parts, the recursive_* queries, folds, visits and reductions agree with visiting every leaf exactly once in order (in any order under a policy), recursive_transform, recursive_replace_copy_if, recursive_remove_copy(_if) and recursive_copy_if keep the nesting and change or drop only the leaves they should, and the statistics built on them (mean, variance, deviation, root mean square, two-input reduction) match their definition. The input is unchanged, and empty inputs to a mean and inputs of different lengths are refused.",
     ["inputs"], "every nested container, predicate, operation and policy",
     "Tests use a few rectangular nested vectors; ragged or empty inner ranges and non-commutative folds are not sampled.",
     ["basic_functions.h"], [("recursion", "basic_functions.h: recursive_all_of, recursive_reduce, recursive_transform, recursive_transform_reduce, recursive_remove_copy_if, recursive_flatten"), ("statistics", "basic_functions.h: arithmetic_mean, population_variance, two_input_map_reduce, root_mean_square")],
     "runtime monitoring: differential oracle, visit logs and atomic visit counters, under ASan/UBSan", TRUST)
prop("C25", "Generated and random images have the asked shape, range and reproducible content",
     "For any shape, generate calls its function exactly once per element in storage order, zeros, ones and nan fill every element, and linear_index_to_indices inverts the storage order; rand yields numbers in [0,1) and randi integers within the inclusive limits, both drawn one per element in storage order from the caller's generator, so equal generators give equal images and leave the generator advanced. Unseeded images differ from call to call.",
     ["inputs", "histories"], "every shape, seed and range",
     "Tests look at one image; reproducibility from a caller's generator and inclusive limits need many draws.",
     ["image_operations.h"], [("generators", "image_operations.h: generate, zeros, ones, nan, linear_index_to_indices"), ("random images", "image_operations.h: rand, randi")],
     "runtime monitoring: counting generators, replayed generators and range monitors, under ASan/UBSan", TRUST)
prop("C19", "Matrix products, inverses, eigenpairs and linear solves satisfy their equations",
     "For matrices of any size and scale, linalg transpose and multiply are exact to rounding, a 3x3 inverse times its matrix is the identity, the symmetric eigensolver returns unit eigenvectors with their eigenvalues (find_null_vector the direction of least stretch), and solve_linear_system returns a solution of the equations also when rows have to be exchanged. Singular, non-square or mismatched problems are refused or answered as documented, fit_gaussian recovers the parameters of a Gaussian image, is_symmetry tells exactly the symmetric images, and operands are unchanged.",
     ["inputs"], "every matrix, right-hand side and scale",
     "Tests solve one or two fixed systems; missing pivoting, unfinished iterations or a wrong tolerance show only for particular matrices.",
     ["linear_algebra.h", "image_operations.h"], [("matrix kernels", "linear_algebra.h: Matrix, multiply, transpose, invert, jacobi, find_null_vector"), ("linear systems and fits", "image_operations.h: solve_linear_system, fit_gaussian, is_symmetry")],
     "runtime monitoring: answers substituted back into their equations in long double, under ASan/UBSan", TRUST)
prop("C20", "Drawing changes exactly the pixels of the shape, clipped to the image",
     "For any 2-D image and any coordinates on, across or beyond its border, draw_point and draw_points set exactly the pixels of the discs asked for, draw_circle those of the digital circle, draw_line a gap-free digital straight segment within half a pixel of the ideal line including both ends, and highlight_region the frame around the region, each clipped to the image; draw_matches puts two images of one height side by side and draws a line and two discs of one bright colour per match. Every other pixel and the input stay unchanged, and images of another dimensionality are refused by draw_circle and draw_line.",
     ["inputs"], "every image size, position, radius and pair of end points",
     "Tests draw a few shapes in the interior; clipping at the border and the eight directions of a line are not sampled.",
     ["image_operations.h"], [("drawing", "image_operations.h: draw_point, draw_points, draw_circle, draw_line, highlight_region")],
     "runtime monitoring: pixel-set oracle and digital-line monitor, under ASan/UBSan", TRUST)
prop("C21", "Homographies map their points, and warped and stitched images follow them",
     "The homography from four correspondences in general position maps each point to its partner, the robust estimators (RANSAC, MSAC) find a model agreeing with every true correspondence despite outliers, repeatably for an equal generator, refine_homography fits exactly the correspondences within the threshold, and scale_homography is the change of coordinates. For any homography warp_perspective (with any policy) takes each output pixel from exactly the point the homography names, create_stitched_image composes both images on a canvas that just holds them, stitching two overlapping views of a scene (imstitch, sequentially or in order) puts them back in register while views without matches are reported as not stitchable, degenerate homographies give an empty or blank result, and inputs are unchanged.",
     ["inputs"], "every set of correspondences, homography, image size and policy",
     "Tests stitch one or two fixed images without checking pixels; wrong offsets, blending or a missed inlier need randomised geometry and an independent composition.",
     ["image_operations.h", "linear_algebra.h"], [("estimation", "image_operations.h: find_homography_robust, compute_homography, refine_homography, scale_homography"), ("composition", "image_operations.h: warp_perspective, create_stitched_image")],
     "runtime monitoring: recording interpolator and reference composition, under ASan/UBSan", TRUST)
prop("C22", "Keypoints, descriptors and matches are exactly those their definitions give",
     "For any scale-space images find_local_extrema and is_it_extremum report exactly the strict extrema of the 26 neighbours that pass the contrast and edge tests, with the refined position, and get_potential_keypoint (sequential or parallel) those of all octaves that their filters fit, mapped into the image; orientation histograms and descriptors hold every gradient of their block once. find_raw_matches, find_keypoint_matches and find_robust_matches, with and without policy, return exactly the pairs that pass the ratio test (and the cross check), each query once; inputs are unchanged and images of different sizes are refused.",
     ["inputs", "schedules"], "every image, threshold, descriptor set and policy",
     "Tests only run the pipeline; lost or duplicated keypoints under parallel collection and wrong tie handling need recomputation from the definition.",
     ["image_operations.h"], [("detection", "image_operations.h: SIFT_impl::find_local_extrema, is_it_extremum, get_potential_keypoint, keypoint_refinement, mapping_point"), ("description and matching", "image_operations.h: get_keypoint_descriptor, get_orientation_histogram, find_raw_matches, find_robust_matches, find_keypoint_matches")],
     "runtime monitoring: differential oracle from the definitions, sequential and parallel, under ASan/UBSan", TRUST)
prop("C23", "The workspace and the command interpreter do exactly what a script says",
     "For any history of operations the workspace behaves as a map from names to values (the last store wins, removed or cleared names are gone, renaming keeps the value, a failed operation changes nothing), and any number of registrations dispatches each command to its own handler with the arguments given. For any interactive script the interpreter runs the stages of a pipeline in order, hands each stage the previous result and its own arguments by position also with an execution policy in front, stores named results, reports unknown or failing lines and goes on with the next; optimized containers of commands give the results of the unoptimized ones.",
     ["histories", "inputs"], "every sequence of commands, names, arguments and failures",
     "Tests call single handlers; argument positions in longer pipelines, name clashes and recovery after a failing line depend on the history.",
     ["main.h", "main.cpp"], [("workspace and registry", "main.h: Workspace, CommandRegistry"), ("interpreter", "main.cpp: run_interactive_mode; main.h: PeepholeOptimizer")],
     "runtime monitoring: model-based trace checking of random scripts on the real interpreter, under ASan/UBSan", TRUST)
prop("C26", "A volumetric image keeps its shape and voxels and its operations are voxel-wise",
     "For any width, height and depth a VolumetricImage built from a vector, from slices or filled returns at every coordinate exactly the voxel put there and prints all of them in order, copies are independent, and two volumes are equal exactly when shape and every voxel are. Its operators and plus, subtract, multiplies, divides, modulus, negate and voxelwiseOperation compute every voxel once from the corresponding voxels and leave the operands unchanged. Coordinates outside, data of another length and operands of another shape are refused.",
     ["inputs"], "every shape, content and operand pair",
     "Tests build one small cube; swapped strides show only on non-cubic volumes and shape checks only on mismatches of equal voxel count.",
     ["cube.h", "cube_operations.h"], [("volume", "cube.h: VolumetricImage"), ("operations", "cube_operations.h: voxelwiseOperation, plus, subtract, multiplies, divides, modulus, negate")],
     "runtime monitoring: plain array model compared after every operation, under ASan/UBSan", TRUST)
prop("C07", "Results do not depend on execution policy, thread count or schedule",
     "For every operation that works in parallel inside (by execution policy, OpenMP or asynchronous tasks: pixel-wise functions, reductions, filters, resampling, transforms, region operations, recursive container functions, readers and writers, feature detection, matching, warping and stitching) and every input, the result for seq, par, par_unseq and unseq on any number of threads is the result of one thread working in order, up to floating-point rounding of reductions and the order of lists that are sets (keypoints, matches). The same holds while other threads call the library on inputs of their own.",
     ["schedules", "inputs"], "every input, policy, number of threads and interleaving",
     "Tests run one schedule on small inputs and rarely a policy at all; lost updates, wrong chunk borders and hidden shared state depend on the split and the timing.",
     ["image_operations.h", "basic_functions.h", "image_io.h"], [("policies", "image_operations.h, basic_functions.h: overloads with an execution policy"), ("OpenMP", "image_operations.h, image_io.h: parallel loops and reductions")],
     "runtime monitoring: digests of every parallel operation compared across policies and thread counts on the shipping runtimes", TRUST)
prop("C08", "Parallel and concurrent operations are free of data races",
     "In every operation that works in parallel inside, no two threads of a parallel region touch the same memory without synchronisation when at least one writes, whatever the split of the work. Two or more threads may call any of these operations at the same time on inputs of their own without a race and without disturbing each other's results.",
     ["schedules"], "every split of the work, number of threads and combination of concurrent calls",
     "A race seldom shows in the result of a test run, and the library's parallel runtimes hide it from a detector.",
     ["image_operations.h", "basic_functions.h", "image_io.h"], [("policies", "image_operations.h, basic_functions.h: overloads with an execution policy"), ("OpenMP", "image_operations.h, image_io.h: parallel loops and reductions, critical sections"), ("locks", "image_operations.h: find_raw_matches, find_keypoint_matches, windowed_filter; basic_functions.h: recursive_transform")],
     "runtime monitoring: ThreadSanitizer on instrumented stand-ins for the parallel runtimes with seeded splits", TRUST)
prop("C27", "Mathematical functions act on every channel exactly like the standard ones",
     "For every channel count, channel type (also complex) and value, including zeros of both signs, infinities, NaN and extremes, each of the mathematical functions (roots, powers, trigonometric, hyperbolic and their inverses, exponentials, logarithms, error and gamma functions, rounding, classification) applied to a multichannel value or a number, with or without an execution policy, gives in each channel the value of the standard function (cot, sec, csc: the reciprocal). apply_multichannel calls the given function exactly once per channel with the further arguments; the normal distributions, hypot, is_integer and the sums over tuples follow their definitions.",
     ["inputs"], "every channel count, type, value and policy",
     "Tests try a few values of a few functions; some forty near-identical overload pairs invite a copy slip in one of them.",
     ["basic_functions.h", "image_operations.h"], [("functions", "basic_functions.h: apply_multichannel, abs ... log2, hypot, is_integer, sum_n_th_element"), ("distributions", "image_operations.h: normalDistribution1D, normalDistribution2D")],
     "runtime monitoring: bit-exact comparison with the standard functions per channel, under ASan/UBSan", TRUST)
prop("C24", "The workspace can be shared by threads: every history is linearizable",
     "However calls of store, retrieve, retrieve_any, remove, rename, clear and list_variables of one workspace from several threads overlap, each takes effect at one moment between its call and its return, as on a map used by a single thread: no update is lost, no value is seen that was never stored or only half copied, of two removals of one variable only one succeeds, and a renamed variable is at every moment under exactly one of its names. No two calls race on memory.",
     ["schedules", "histories"], "every interleaving of every concurrent program",
     "Tests use a workspace from one thread; a lock dropped between look-up and change shows only in rare interleavings.",
     ["main.h"], [("workspace", "main.h: Workspace")],
     "runtime monitoring: linearizability checker over recorded concurrent histories, under ThreadSanitizer", TRUST)
prop("C28", "Plugins are loaded, held and unloaded so that no unloaded code ever runs",
     "For any history of opening, moving, assigning and destroying DynamicLibrary objects each opened library is closed exactly once, when its last owner goes, and a file that cannot be loaded or a symbol that is missing is refused with an exception. For any directory contents load_plugins registers the commands of every loadable module, reports each module that cannot be loaded, has no entry point, or fails in it with a standard exception, and goes on with the next; commands already registered keep working and run the code of their own module. Every library that registered a command stays loaded as long as the container of plugins lives.",
     ["histories", "inputs", "fault_sequences"], "every history of library owners and every mix of good, bad and failing modules",
     "No test loads a plugin; a library closed too early shows only when a module fails half way or a handle is moved.",
     ["dynamic_loader.h", "main.cpp"], [("library", "dynamic_loader.h: DynamicLibrary"), ("loading", "main.cpp: load_plugins")],
     "runtime monitoring: recorded dlopen/dlclose events and execution of every registered command, under ASan/UBSan", TRUST)
prop("C29", "What the commands write to files and bundles they read back unchanged",
     "For any two-dimensional image in the workspace, writing it with the write command to a file (bmp, ppm, dbmp, hsv; CSV within its precision; with or without extension, quoted or not) and reading that file stores an image of the same type, size and values under the given name or that of the file, and save_workspace followed by load_workspace restores every RGB, double and HSV image, reports what it skips and leaves all other variables alone. A write, read, save or load that fails, because a directory, file or variable is missing or storage ends after any number of bytes, is reported as an error and changes no variable.",
     ["histories", "inputs", "fault_sequences"], "every workspace content, file name form, format and point of failure",
     "No test drives the commands; a wrong choice of format by extension or an ignored write result loses data silently.",
     ["main.h", "main.cpp"], [("files by extension", "main.h: MetaImageIO::Loader, MetaImageIO::Saver, dispatch_data_operation, handlers::read; main.cpp: handlers::write"), ("bundles", "main.h: handlers::save_workspace, handlers::load_workspace")],
     "runtime monitoring: bit comparison of every variable after every command, storage faults injected, under ASan/UBSan", TRUST)
prop("C30", "Every command computes its library function and changes nothing else",
     "For any sequence of command lines given to the interactive program, or one line given as its arguments, a valid line stores under the output variable the value and type that the library function named by the command gives for the operands (variables or literals, any execution policy, operands missing at the end taking the documented defaults, stages of a pipeline feeding the next one), prints what it computes when no output is named, and leaves every other variable as it was. A line that names an unknown command or variable, lacks operands, has operands that cannot be parsed or that the function refuses is reported and changes no variable, and the program carries on with the next line: no line ends the program except exit and quit.",
     ["histories", "inputs", "programs"], "every session of every length, every operand and policy",
     "No test runs the program; its command handlers choose types, operands and defaults at run time, where a wrong choice stays silent or ends the session.",
     ["main.h", "main.cpp", "plugin_math.cpp", "plugin_math_add.cpp"], [("commands", "main.h and main.cpp: handlers::*, Application; main.cpp: main"), ("plugins", "plugin_math.cpp, plugin_math_add.cpp"), ("octaves", "image_operations.h: SIFT_impl::generate_octave")],
     "runtime monitoring: the program's own main() run on generated sessions, the whole workspace compared with a model after every line", TRUST)
