def asan(name, *sources, **kw):
    d = {"name": name, "flavour": "asan", "sources": list(sources)}
    d.update(kw)
    return d

PAR_OPS = ["par/ops_pixel.cpp", "par/ops_region.cpp", "par/ops_filter.cpp", "par/ops_resample.cpp", "par/ops_sift.cpp", "par/ops_containers.cpp", "par/ops_io.cpp", "repo:image_io.cpp"]
PAR_SEEN = ["op_" + n for n in "recursive_transform recursive_transform_1 recursive_transform_list recursive_transform_reduce recursive_find recursive_for_each recursive_remove_copy statistics two_input_map_reduce sum_pairs histogram is_symmetry multichannel_math conv2 conv2_plain bicubic gaussianFigure2D gaussianFigure2D_plain imgaussfilt windowed_filter bilateral_filter dct2 dct3_one_plane dct3 estimate_gaussian csv_policy csv_plain pnm_read bmp_roundtrip dbmp_roundtrip apply_each_pixel apply_each_pixel_openmp apply_threshold_openmp pixelwise_transform negate abs_ pow_ difference to_complex to_double sum_ mean_ count_ replace_ euclidean_distance euclidean_distance_rgb rgb2hsv hsv2rgb set_all_value image_count construct_planes apply_each_rgb apply_each_hsv apply_each_mc subimage subimage2 paste2D transpose flips padding split_overlap add_border_2d centre draw_point resize_nearest_neighbor lanczos_resample lanczos_resample_plain lanczos_rgb gaussian_fisheye gaussian_fisheye_plain find_local_extrema generate_octave get_potential_keypoint find_matches warp_perspective create_stitched_image".split()]

CHECKS = {
    "C01": {
        "units": [asan("image", "c01_image.cpp", scale=2)],
        "rule": "Random 1-D to 5-D shapes (strips and unit extents included), element types u8/double/RGB/HSV/4-channel/bool; every element is read back through every accessor; "
                "a case is non-trivial when the image has more than one element; distinct by (type, shape).",
        "must_observe": ["elements_printed", "elements_cross_read", "oob_probes"],
    },
    "C02": {
        "units": [asan("bmp", "c02_bmp.cpp", "repo:image_io.cpp", scale=3)],
        "rule": "Random RGB images of every row-padding class (1 to 300 wide, plus megapixel ones); written files are decoded by an independent strict BMP decoder, "
                "files made by an independent encoder (24-bit, 8-bit palette, top-down, larger headers, gaps) are read back; distinct by (shape, variant).",
        "must_observe": ["bytes_decoded", "top_down_files", "palette_files", "pad0", "pad1", "pad2", "pad3"],
    },
    "C03": {
        "units": [asan("hostile", "c03_hostile.cpp", "repo:image_io.cpp", env={"VP_HANG": "120"}, san={"ASAN_OPTIONS": "max_allocation_size_mb=3000"})],
        "rule": "Valid BMP (24-bit, palette, top-down), dbmp, hsv, CSV and PNM files damaged by header-field substitution from boundary values, bit flips, truncation (every prefix of small files), "
                "insertions and deletions, plus random bytes. Monitors: ASan+UBSan+libstdc++ assertions, descriptor count, allocated-byte count across repeated reads, system() interposer, hang watchdog, "
                "consistency of every returned image. Headers asking for 24 MB to 40 GB are skipped (a resource question) and counted as trivial.",
        "must_observe": ["reads_observed", "images_returned", "exceptions", "truncations"],
    },
    "C04": {
        "units": [asan("formats", "c04_formats.cpp", "repo:image_io.cpp", scale=2)],
        "rule": "Random images of every filler class, arbitrary bit patterns for raw doubles, every execution policy and the OpenMP overloads for CSV/PNM; files are also parsed by independent parsers, "
                "and files by independent writers (comments, odd whitespace, maxval 2^k-1) are read. Distinct by (format, shape, variant).",
        "must_observe": ["dbmp_files", "hsv_files", "csv_cells", "pnm_P1", "pnm_P2", "pnm_P3"],
    },
    "C05": {
        "level": "fault_enumeration",
        "units": [asan("writefault", "c05_writefault.cpp", "repo:image_io.cpp")],
        "rule": "Every writer (bmp, dbmp, hsv, csv x2, pnm x2) run with the file size limited to k bytes for every k below the full length (sampled for large files), and against a full device; "
                "success must mean the complete bytes are on disk, and the writer must recover when the fault is gone.",
        "must_observe": ["release_checks", "fault_points", "failures_reported", "full_device"],
    },
    "C06": {
        "units": [asan("pixelwise", "c06_pixelwise.cpp", "c06_functions.cpp", "c06_ch_rgb.cpp", "c06_ch_rgbd.cpp", "c06_ch_hsv.cpp", "c06_ch_mc3.cpp", "c06_ch_mc5.cpp", scale=2)],
        "rule": "Random 1-D to 3-D images (strips, unit extents, constant images) of u8/int/float/double/complex/RGB/RGB_DOUBLE/HSV/1 to 5 channels; each operation is recomputed element by element "
                "with plain scalar arithmetic, inputs are snapshotted and compared bit for bit after the call, and images of different sizes must be refused. Distinct by (type, shape).",
        "must_observe": ["arith_elements", "function_values", "channel_values", "mismatch_rejections", "purity_checks"],
    },
    "C09": {
        "units": [asan("conv", "c09_conv.cpp", "c09_convrgb.cpp", scale=4)],
        "rule": "Random images and kernels (1-D to 4-D, impulses, zeros, unit extents, kernels larger than the image); the full and the same-size result of every overload are compared with the double sum in long double. Distinct by (type, image shape, kernel shape).",
        "must_observe": ["outputs", "channel_outputs", "kernel_larger_than_image", "dims1", "dims2", "dims3", "dims4", "purity_checks"],
    },
    "C10": {
        "units": [asan("transforms", "c10_transforms.cpp", "c10_rgb.cpp", scale=4)],
        "rule": "Random images (strips, unit extents) of double/u8/complex/RGB/HSV and stacks of planes; forward transforms are compared with the defining sum in long double, inverse with the original, DFT also with Parseval's identity. Distinct by (transform, shape).",
        "must_observe": ["dct2_coefficients", "dct3_planes", "dft2_coefficients", "channel_roundtrips", "purity_checks"],
    },
    "C11": {
        "units": [asan("moves", "c11_flips.cpp", "c11_rotate.cpp", "c11_rotrgb.cpp", scale=3)],
        "rule": "Random 2-D images (strips, unit extents, up to 200x200) of u8/double/RGB/5-channel; flips, transpose (sequential and every policy) and k quarter turns are compared pixel for pixel with the index map; rotations by arbitrary angles are observed through a recording interpolator "
                "(which source point every output pixel asked for) and through the bilinear value. Distinct by (type, shape, angle).",
        "must_observe": ["turned_pixels", "pixels_moved", "quarter_turns", "rotated_pixels", "channel_turns", "channel_angles", "rejections", "purity_checks"],
    },
    "C12": {
        "units": [asan("regions", "c12_regions.cpp", "c12_padding.cpp", scale=4)],
        "rule": "Random images (strips, unit extents; 1-D to 4-D for subimage), windows inside, across and wholly outside the border, block counts that do and do not divide the image, ragged mosaics, paste positions inside and beyond the background, three padding modes; "
                "every output pixel is compared with the index map, invalid regions must be refused. Distinct by (type, shapes, position).",
        "must_observe": ["windows_over_the_border", "windows_inside", "windows_fully_outside", "regions_cut", "regions_rejected", "blocks", "exact_reassembly", "mosaics", "mismatches", "pastes", "canvas_grown",
                         "padding-constant", "padding-mirror", "padding-replicate", "mirror_rejections", "overlap_blocks", "purity_checks"],
    },
    "C13": {
        "units": [asan("resample", "c13_resample.cpp", "c13_lanczos.cpp", "c13_chan.cpp", "c13_fisheye.cpp", scale=3)],
        "rule": "Random source and target sizes (unit extents, strips, same size, enlarging and shrinking), element types u8/int/float/double/complex/RGB/HSV; each output pixel is recomputed in long double from the defining interpolation formula with clamped neighbours; "
                "integral results may differ only where the exact value is within rounding of an integer. Distinct by (type, source, target).",
        "must_observe": ["nearest_pixels", "bicubic_pixels", "bicubic_identity", "bilinear_inside", "bilinear_outside", "bicubic_inside", "lanczos_pixels", "lanczos_same_size", "resampled_channels", "interpolated_channels", "fisheye_pixels", "butterworth_targets", "purity_checks"],
    },
    "C14": {
        "units": [asan("colour", "c14_colour.cpp", scale=2)],
        "rule": "Random (R,G) pairs with every B (thorough: about 16 million colours drawn), HSV points including the sector boundaries, images of 1 to 3 dimensions; conversions are compared with the defining formulas in long double, planes element by element. Distinct by (R,G), HSV point or (type, shape).",
        "must_observe": ["colours", "hsv_points", "images_converted", "brightened", "planes", "mismatches", "plane_rejections", "purity_checks"],
    },
    "C15": {
        "units": [asan("histogram", "c15_histogram.cpp")],
        "rule": "Random images (u8, u16, int, unsigned; few and many distinct values) and random histories of addCount, +=, -=, +, -, operator[] and copies on two histograms, each compared with a map model through every reader after every step; "
                "probabilities, binning and Otsu's threshold recomputed from the counts in long double. Distinct by (type, shape, history).",
        "must_observe": ["histograms_compared", "histogram_steps", "normalised", "otsu_thresholds", "otsu_degenerate", "negative_rejections", "binned", "maps_normalised", "purity_checks"],
    },
    "C16": {
        "units": [asan("filters", "c16_filters.cpp", "c16_window.cpp", "c16_rgb.cpp", scale=2)],
        "rule": "Random images, centres, widths, correlations, filter sizes (odd, even, larger than the image), three boundary modes, windows of 1 to 3 dimensions; Gaussian figures and smoothing, window filters (a recording filter counts the calls and sees each window), bilateral filters and patch distances are recomputed from the definition in long double. Distinct by (type, shape, parameters).",
        "must_observe": ["figure_values", "smoothed", "gauss-constant", "gauss-mirror", "gauss-replicate", "default_sizes", "dog_values", "rotated_filters", "windows", "progress_reports", "window_dims1", "window_dims2", "window_dims3", "window_rejections", "bilateral_pixels", "patches", "filtered_channels", "purity_checks"],
    },
    "C17": {
        "units": [asan("reduce", "c17_reduce.cpp", "c17_chan.cpp", scale=6)],
        "rule": "Random 1-D to 3-D images (constant, few-valued, all-negative, random) of u8/int/double/RGB/RGB_DOUBLE/HSV/4 channels; every reduction, predicate, count, replacement and distance is recomputed with a plain loop in long double, sequential and under a random policy; distances of different sizes must be refused. Distinct by (type, shape).",
        "must_observe": ["reduced", "counted", "replacements", "pred_none", "pred_all", "pred_some", "distances", "channel_reductions", "purity_checks"],
    },
    "C25": {
        "units": [asan("gen", "c25_gen.cpp", scale=12)],
        "rule": "Random shapes, seeds and value ranges; a counting generator shows how often and in which order it is called, random images are replayed from an equal generator, values are range-checked. Distinct by (shape, seed, range).",
        "must_observe": ["generated", "constant_images", "linear_indices", "random_images", "limit_images"],
    },
    "C18": {
        "units": [asan("recursive", "c18_vec.cpp", "c18_other.cpp", "c18_stats.cpp", scale=6)],
        "rule": "Random nested vectors, deques and lists of depth 1 to 3 (ragged, with and without empty inner ranges); every query, fold, visit, transform, filtered copy and flattening is compared with plain nested loops (order-sensitive folds, visit logs, atomic visit counts under policies). Distinct by (container, content).",
        "must_observe": ["flat_views", "queries", "folds", "copies", "extrema", "statistics", "empty_rejections", "two_inputs", "nested_generated", "arrays"],
    },
    "C19": {
        "units": [asan("linalg", "c19_linalg.cpp", scale=8)],
        "rule": "Random matrices (sparse, integer, badly scaled, singular, needing row exchanges) of 1 to 12 rows; every answer is substituted back into the problem it claims to solve, in long double; Gaussian fits recover the parameters of the image they are given. Distinct by (problem, matrix).",
        "must_observe": ["products", "inverses", "singular", "eigenpairs", "null_vectors", "systems_solved", "singular_systems", "below_threshold", "symmetric", "asymmetric", "fits"],
    },
    "C20": {
        "units": [asan("draw", "c20_draw.cpp", scale=5)],
        "rule": "Random 2-D images (strips, unit extents) and shapes inside, on and beyond the border; discs, circles and frames are compared pixel for pixel with their definition, lines with the geometry of a digital straight segment and with the unclipped line. Distinct by (type, shape, drawing).",
        "must_observe": ["match_pixels", "matches_drawn", "disc_pixels", "circle_pixels", "circle_pixels_clipped", "line_pixels", "lines_clipped", "frame_pixels", "purity_checks"],
    },
    "C21": {
        "units": [asan("homography", "c21_homography.cpp", "c21_panorama.cpp")],
        "rule": "Random point sets (with outliers), homographies (shifts, rotations, perspective) and image sizes; computed homographies are applied back to their points, warps are observed through a recording interpolator (which source point each output pixel asked for), stitched images are compared pixel for pixel with a reference composition. Distinct by (problem, shapes, homography).",
        "must_observe": ["panoramas", "views_aligned", "views_without_texture", "points_mapped", "robust_models", "outliers_rejected", "refinements", "scalings", "warped_pixels", "blended", "from_first", "from_second", "background", "purity_checks"],
    },
    "C22": {
        "units": [asan("sift", "c22_sift.cpp")],
        "rule": "Random textures (blobs, noise, integer values with ties); extrema, refined positions, gradient histograms, descriptors, keypoint sets and matches are recomputed from their definitions, sequentially and in parallel. Distinct by (function, shape, parameters, content).",
        "must_observe": ["octaves_left_out", "octave_levels", "octave_of_two", "octave_refused", "octave_float", "extrema", "extremum_yes", "extremum_no", "mapped", "descriptors", "keypoints", "matches", "robust_matches", "matches_dropped_by_cross_check", "purity_checks"],
    },
    "C26": {
        "units": [asan("volume", "c26_volume.cpp", scale=5)],
        "rule": "Random volumes (unit extents, non-cubic) of int, double and u8 against a plain array model: every constructor, access, copy, comparison, printout and voxel-wise operation; operands of another shape (also of the same voxel count) and coordinates outside must be refused. Distinct by (type, shape, content).",
        "must_observe": ["voxels", "constructed", "out_of_range", "printed", "operations", "mismatches"],
    },
    "C23": {
        "units": [asan("repl", "c23_repl.cpp", "repo:image_io.cpp", scale=20)],
        "rule": "Random histories on a workspace against a map model (every variable read back through every reader after every step); random registrations and executions with recording handlers; random interactive scripts (pipelines of generators, transformers, combiners and terminators with policies, files and named results, blank, unknown and failing lines, exit) fed to the real interpreter with exact model commands, compared with a direct interpretation of what the line says; the optimizer on vector, list and deque against unoptimized execution. Distinct by script or history.",
        "must_observe": ["workspace_reads", "stores", "renamed", "rename_self", "removed", "cleared", "listed", "duplicate_registrations", "errors_reported", "executed", "pipelines", "policies", "optimized", "terminators", "named_results", "explicit_results", "unknown_lines", "failing_lines", "exits", "blank_lines", "optimizations", "argument_lists"],
    },
    "C07": {
        "units": [{"name": "schedule", "flavour": "plain", "scale": 10, "sources": ["c07_schedule.cpp"] + PAR_OPS}],
        "rule": "Every operation that works in parallel inside (some 70, by execution policy, OpenMP or asynchronous tasks) on seeded random inputs: the numbers it returns on one thread with std::execution::seq are compared with those for each policy on 1, 2, 3, 5, 8 or 13 threads of the shipping runtimes, and with those of the same call while other threads call the library. Distinct by (operation, input).",
        "must_observe": PAR_SEEN + ["numbers_compared", "concurrent_calls", "threads_1", "threads_2", "threads_3", "threads_5", "threads_8", "threads_13", "policy_seq", "policy_par", "policy_par_unseq", "policy_unseq"],
    },
    "C08": {
        "units": [{"name": "race", "flavour": "tsan", "scale": 6, "no_gomp": True, "libs": [], "sources": ["c08_race.cpp", "par/gomp.cpp"] + PAR_OPS}],
        "rule": "The operations of C07 under ThreadSanitizer, with libstdc++'s parallel algorithms and OpenMP regions run by instrumented stand-ins that start fresh threads per region (ordered only by start and join) and deal the work in seeded random chunks; singly, and several callers at once. Distinct by (operation, input, schedule).",
        "must_observe": PAR_SEEN + ["parallel_regions", "threads_started", "chunks_dealt", "concurrent_calls", "numbers_compared"],
    },
    "C27": {
        "units": [asan("math", "c27_math1.cpp", "c27_math2.cpp", "c27_more.cpp", scale=6)],
        "rule": "Random and hostile channel values (zeros of both signs, infinities, NaN, denormals, extremes) of multichannel double, float and complex values and colours through every function, plain and with a policy, compared bit for bit with the standard function on each channel. Distinct by channel values.",
        "must_observe": ["fn_" + n for n in "abs sqrt cbrt sin cos tan cot sec csc asin acos atan sinh cosh tanh asinh acosh atanh erf erfc lgamma tgamma ceil floor trunc nearbyint rint ilogb logb fpclassify isfinite isinf isnan isnormal signbit exp exp2 expm1 log log10 log1p log2".split()] + ["channels", "pow", "colours", "complex", "distributions"],
    },
    "C24": {
        "units": [{"name": "workspace", "flavour": "tsan", "scale": 40, "no_gomp": True, "libs": [], "sources": ["c24_workspace.cpp", "par/gomp.cpp", "repo:image_io.cpp"]}],
        "rule": "Random programs of 2 to 4 threads doing store, retrieve_any, retrieve, remove, rename, clear and list_variables on three names of one workspace, with values whose copying pauses; the recorded history (real-time intervals, results, final state) must have a sequential explanation, found by exhaustive search, and ThreadSanitizer watches every access. Distinct by (program, schedule seed); a history without overlapping calls is trivial.",
        "must_observe": ["histories", "operations", "overlapping_pairs", "states_searched", "op_store", "op_retrieve_any", "op_retrieve", "op_remove", "op_rename", "op_clear", "op_list"],
    },
    "C28": {
        "units": [asan("plugins", "c28_plugins.cpp", "repo:image_io.cpp", link=["-rdynamic"], scale=15)],
        "rule": "Random histories of opening, moving, assigning and destroying libraries, and random directories of plugins (good ones, ones without the entry point, text, empty files, directories, ones whose registration throws early, late or with a type of their own, other extensions) loaded once or twice into vector, list and deque; dlopen and dlclose are recorded, every command is executed afterwards, and /proc/self/maps shows what stays mapped. Distinct by history or directory.",
        "must_observe": ["opened", "moved", "assigned", "self_assigned", "destroyed", "refused", "symbols", "skipped", "commands", "after_failure", "held", "directories", "empty_directories", "no_directory"],
    },
    "C29": {
        "units": [asan("files", "c29_files.cpp", "repo:image_io.cpp", scale=25)],
        "rule": "Random images written and read by the program's commands (every format, with and without extension, quoted names, named and unnamed targets), random workspaces saved as a bundle and loaded into fresh and used workspaces, twice; every variable is compared bit for bit after every command. Faults: missing directories and files, storage that ends after any number of bytes. Distinct by (types, formats, fault point).",
        "must_observe": ["variables_compared", "bmp", "ppm", "dbmp", "csv", "hsv", "bare_names", "named_after_file", "bundles", "images_restored", "skipped_reported", "second_rounds", "write_refused", "write_cut", "bundle_cut", "read_refused", "missing_operand"],
    },
    "C30": {
        "units": [{"name": "commands", "flavour": "plain0", "scale": 4, "sources": ["c30_commands.cpp", "c30_program.cpp", "c30_math.cpp", "c30_add.cpp", "repo:image_io.cpp"], "link": ["-rdynamic"]}],
        "rule": "Random sessions of the program's own main(), interactive and one-shot, with its bundled plugins: commands with good and bad operands in every accepted spelling (variables, files, positional and trailing outputs, policies, pipelines); after each line every variable of the workspace is compared with a model computed by the library functions, and refused lines must leave it untouched. Distinct by (session seed).",
        "must_observe": ["cmd_" + n for n in "zeros ones grid gaussian_figure_2d rand bicubic_resize lanczos_resample dct2 idct2 dct3 im2double im2uint8 hsv2rgb to_complex getRplane getGplane getBplane constructRGB multiply normalize count subimage rotate sift_generate_octave get_sift_potential_keypoint copy rename remove create_container append_element erase_element get_element info print vars transform_container abs max min sum add subtract pipeline".split()] + ["commands_run", "variables_compared", "refused", "nonsense", "texts", "sessions", "oneshot", "oneshot_refused", "policy_seq", "policy_par", "policy_par_unseq", "policy_unseq", "transform_fails", "bool_containers"],
    },
}
