"""Source of /verif/properties.jsonl (python3 tools/properties.py rewrites it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


D = "corgidrp/data.py"
CALDB = "corgidrp/caldb.py"
WALK = "corgidrp/walker.py"
L12A, L2AB, L23, L34 = ("corgidrp/l1_to_l2a.py", "corgidrp/l2a_to_l2b.py", "corgidrp/l2b_to_l3.py", "corgidrp/l3_to_l4.py")
TDA = "corgidrp/l4_to_tda.py"

p("C01", "Processing steps and calibration builders never modify their inputs",
  "Every processing step and every calibration builder leaves the pixels, uncertainties, data-quality flags, headers, "
  "extra extensions and file names of the dataset it is given, and of every calibration product it is given, exactly as "
  "they were, and the result holds no pixels or headers of an input, so that editing the result leaves the inputs alone. "
  "This holds for each step alone and for every chain of steps.",
  ["programs", "inputs"], "all steps and builders, and all chains of steps up to a depth, over small datasets",
  "tests check the output of one step on one dataset and rarely look at the input again; headers of inputs are never compared",
  [L12A, L2AB, L23, L34, TDA, D, "corgidrp/darks.py", "corgidrp/flat.py", "corgidrp/fluxcal.py"],
  [("defensive copy at the start of each step", "Dataset.copy / Image.copy in corgidrp/data.py and first line of every step")],
  observe=["input dataset and calibration objects before/after each call"])

p("C02", "A dataset's cubes and its frames always show the same pixels",
  "In every dataset the data, uncertainty and data-quality cubes hold exactly the pixels of its frames, in order, and an "
  "in-place edit made through a frame is seen through the cube and the other way round. This stays true after any sequence "
  "of dataset operations, and of the processing steps on the datasets they return; iterating, indexing, taking a subset or "
  "splitting never disconnects the frames of the dataset it was taken from.",
  ["histories"], "all sequences of dataset operations up to a depth, several frame shapes and both error-tracking settings",
  "tests check the linkage right after construction only; any operation may rebind an array",
  [D, L12A, L23, L2AB], [("frames are views into the cubes", "Dataset.__init__, update_after_processing_step, add_error_term, rescale_error, __getitem__")],
  state=[("all_data/all_err/all_dq", "cubes", "Dataset"), ("frames[i].data/err/dq", "views", "Image")])

p("C03", "Copies are complete and independent of the original",
  "A copy of an image or dataset starts out identical to the original (pixels, uncertainties, flags, every header, extra "
  "extensions, file name) apart from the software version and creation time stamps. No later change to either one is "
  "visible in the other; a copy made without copying the pixels shares the pixels only, its headers and list of extra "
  "extensions are its own.",
  ["histories", "inputs"], "all product kinds and all mutation sequences up to a depth after a copy",
  "tests copy once and change one field", [D], [("deep copy / header copy", "Image.copy, Dataset.copy in corgidrp/data.py")])

p("C04", "Saving and reloading a product loses nothing",
  "Saving any image or calibration product and loading it again, either as its own kind or through automatic type "
  "detection, gives a product of the same kind with the same pixels (including undefined ones), uncertainties, flags, "
  "extra extensions, calibration values and header values including history. Saving and loading once more changes "
  "nothing, and a file of another kind is refused by each calibration kind.",
  ["inputs", "histories"], "every product kind, pixel types, extension sets and error-tracking settings",
  "each class has one or two save/load tests with one data type", [D],
  [("save/load", "Image.save, Image.__init__ and subclasses, autoload in corgidrp/data.py")])

p("C05", "Content fingerprints are reproducible and tell contents apart",
  "The content fingerprint of an image or calibration product depends only on its content: equal content gives the equal "
  "fingerprint in every process and on every machine, whatever the headers and file name. Changing a single pixel, "
  "uncertainty or flag value (or a detector parameter) changes the fingerprint.",
  ["inputs", "configurations"], "all single-element changes of small products; all interpreter hash seeds in a bounded set",
  "one process has one hash seed, so a test run cannot see that the fingerprint changes between runs", [D, CALDB],
  [("get_hash", "Image.get_hash and DetectorParams.get_hash in corgidrp/data.py")])

p("C06", "The calibration database behaves like a map on disk keyed by file path",
  "After any history of adding, re-adding and removing entries, through any number of database handles on the same file, "
  "the database on disk holds exactly one row per added and not removed file path, with the values of its latest addition "
  "(kind, observation time, exposure time, number of parent files, creation time, fingerprint, version, observation "
  "number, size, gain, mode). Removing an unknown entry is refused and changes nothing; in-memory changes reach the disk "
  "only when the caller asked for it, and reloading gives back exactly what was saved.",
  ["histories"], "all operation sequences up to a depth over two handles and a few entries that collide on path",
  "tests add, find and remove one entry through one handle", [CALDB],
  [("create_entry/remove_entry/load/save", "class CalDB in corgidrp/caldb.py")],
  state=[("CSV file", "the persisted rows", "CalDB.filepath"), ("_db", "cached rows of a handle", "CalDB")])

p("C07", "Calibration lookup returns the best matching calibration",
  "Asking the calibration database for a calibration for a frame returns, among the registered products of the requested "
  "kind, the one observed closest in time to the frame - for darks only among those with the frame's exposure time - and "
  "without a frame the most recently created one. If none qualifies the request is refused, and a product of another kind "
  "is never returned.",
  ["inputs", "configurations"], "all subsets of a set of candidate calibrations with colliding times, kinds and exposure times, in all insertion orders, for all frames of a small grid",
  "tests look up in a database with one or two entries", [CALDB],
  [("get_calib", "CalDB.get_calib in corgidrp/caldb.py")])

p("C08", "A directory scan registers exactly the calibration products it contains",
  "Scanning a directory registers every calibration product of every supported kind found in it (and in its subdirectories "
  "unless told not to) and nothing else: science images and other files are skipped, whatever order the directory is "
  "listed in. Scanning again changes nothing, and a file replaced on disk is updated, not duplicated.",
  ["inputs", "configurations", "histories"], "all subsets of a menu of files, both recursion settings, several listing orders, repeated scans",
  "the one test scans a directory with one kind of product", [CALDB, D],
  [("scan_dir_for_new_entries + autoload", "corgidrp/caldb.py, corgidrp/data.py")])

p("C09", "Start-up always ends with a usable configuration and default calibrations",
  "However often start-up was interrupted before, and at whatever file operation, the next complete start-up ends with a "
  "readable configuration, a readable calibration database and the default calibrations on disk and registered exactly "
  "once. It never loses or changes a database location, setting or registered entry that the user already had.",
  ["crash_points", "histories"], "every crash point (before/after/torn write at each file operation) of first start-ups, followed by a clean start-up; pre-existing configurations of each supported form",
  "no test starts the package in a partially created home directory", ["corgidrp/__init__.py", CALDB],
  [("start-up", "create_config_dir/module body of corgidrp/__init__.py; initialize() in corgidrp/caldb.py")])

p("C10", "Each input is given the recipe its observation calls for",
  "Which recipe is chosen depends only on the data level, the visit type, the photon-counting flag, the line-of-sight loop "
  "flag (FSMLOS) and, for darks, on whether the exposure settings vary within the dataset, exactly per the documented "
  "decision table. Input the table does not cover is refused, and a choice of several recipes is generated in the documented "
  "order.",
  ["inputs"], "the full product of levels, visit types, photon-counting and loop flags and varying exposure settings",
  "tests exercise a handful of rows of the table", [WALK], [("guess_template", "corgidrp/walker.py")])

p("C11", "Recipe generation fills in calibrations without touching the template",
  "A generated recipe lists the given files and output directory, keeps the steps of the template in order, and names for "
  "every calibration left automatic the best one known to the database at that time; an optional calibration with no match "
  "is left out, a required one is refused (or its step is marked skipped when so configured), and with just-in-time resolution the choice is left open. Output directories left automatic become the given one, calibrations named by file stay. The template passed "
  "in (and any other caller's object) is unchanged, so generating again for other files or after the database changed gives "
  "what a fresh template would give.",
  ["histories", "configurations"], "all calibration availabilities x just-in-time setting x repeated generations from one template object",
  "tests generate one recipe per template from a fresh copy", [WALK], [("autogen_recipe", "corgidrp/walker.py")])

p("C12", "Running a recipe executes exactly its steps, once, in order",
  "Running a recipe applies each step that is not marked skipped exactly once, in order, to the output of the previous step, "
  "with the calibrations and options the recipe names; just-in-time calibrations are looked up when the step is reached. A "
  "save step writes every frame under the output directory (with the requested suffix), calibration products are registered "
  "in the database, and saved frames carry the recipe; settings given by one recipe apply to that run only.",
  ["programs", "histories"], "all recipes up to a length over an alphabet of instrumented steps, save steps, skip marks, just-in-time calibrations and settings; consecutive runs",
  "tests run a few fixed recipes", [WALK], [("run_recipe, save_data", "corgidrp/walker.py")])

p("C13", "Every shipped recipe can be executed as written",
  "Every recipe template shipped with the package refers only to existing steps, passes them only options they accept, "
  "supplies every calibration and option they require with a calibration kind that exists, saves its results, and writes "
  "nowhere but to the requested output directory. The steps follow the order of data levels, each is reached with data in the "
  "state it is meant for (level, units, corrections made before it), and the recipe ends with the product it is named for; it "
  "gives what the steps called one after the other give.",
  ["configurations"], "all shipped templates x all steps x all keywords",
  "only some templates are run by tests (several only by end-to-end tests that need external data)", [WALK, "corgidrp/recipe_templates"],
  [("all_steps table and templates", "corgidrp/walker.py, corgidrp/recipe_templates/*.json")])

p("C14", "Data levels advance one level at a time",
  "Only the level-update steps change the data level of a dataset; each accepts exactly datasets whose every frame is at "
  "its own starting level and refuses all others without side effects, and produces the next level with the level in the "
  "file name updated accordingly and the pixels unchanged. A chain of them therefore always visits L1, L2a, L2b, L3, L4, "
  "TDA in that order.",
  ["programs", "inputs"], "all level vectors of small datasets x all level-update steps; all chains of updates up to a depth",
  "tests walk the happy path once", [L12A, L2AB, L23, L34, TDA], [("update_to_*", "the four level modules and l4_to_tda")])

p("C15", "Data-quality flags are never lost or moved",
  "Through every processing step that keeps the pixel grid, each flag set on a pixel of the input (and each flag of the "
  "dark or bad-pixel map the step applies) is still set on that pixel of the output; steps that crop or rotate move it with its pixel, "
  "and steps that combine frames only drop a flag where an unflagged input pixel was used. All defined flag bits are treated "
  "alike.",
  ["inputs", "programs"], "all flag bits x all pixels x all steps, and chains of steps",
  "tests use one or two flag values and single pixels", [L12A, L2AB, L23, L34, "corgidrp/combine.py"],
  [("bitwise-or of flags", "each step; Dataset.update_after_processing_step")])

p("C16", "Uncertainties are propagated by every step in both tracking modes",
  "Bias, dark and flat correction, photon noise, conversion to electrons, gain, exposure-time and flux units, frame "
  "combination and rotation update the combined uncertainty by the rule of their arithmetic (scaled with the data, or added "
  "in quadrature with the step's own term), identically whether or not individual terms are tracked; every other step leaves "
  "it with its pixel. When terms are tracked, every earlier term is kept (scaled when the data are scaled), each new term is "
  "appended under its name, and the combined term grows by exactly the new term in quadrature.",
  ["programs", "configurations"], "all chains of steps up to a depth, both tracking modes, distinct pixel/uncertainty values",
  "tests run with tracking on or off for a few steps and check the combined layer", [D, L12A, L2AB, L23],
  [("add_error_term/rescale_error", "corgidrp/data.py"), ("per-step error arithmetic", L2AB)])

p("C17", "History and provenance are complete and append-only",
  "Every processing step keeps all earlier history entries of a frame, in order, and a step that corrects the data or "
  "changes the level adds at least one of its own to every frame it returns. A product combined from several frames lists each contributing file exactly once - including, "
  "transitively, the files its inputs were made from - with a count that matches the list, and nothing else.",
  ["programs", "histories"], "all chains of steps; all parent graphs of small depth and width with shared parents and stale entries",
  "tests check one history line or the number of parents in one case", [D, L2AB, "corgidrp/darks.py", "corgidrp/combine.py"],
  [("update_after_processing_step, _record_parent_filenames", D)])

p("C18", "Every step uses the same effective EM gain",
  "The EM gain used for a frame is the measured gain if recorded, else the applied gain if it is positive, else the "
  "commanded gain - frame by frame, in cosmic-ray detection, non-linearity correction, photon noise and gain division, and "
  "for the dark and photon-counting products of frames that share it. Frames with different kinds of gain can be "
  "processed together.",
  ["inputs"], "all combinations of presence and value of the three gain keywords on each frame of a multi-frame dataset x every gain-dependent step",
  "tests set the commanded or applied gain uniformly on all frames", [L12A, L2AB, "corgidrp/photon_counting.py"],
  [("gain precedence", "detect_cosmic_rays, correct_nonlinearity, add_photon_noise, em_gain_division, get_pc_mean")])

p("C19", "Saturated and cosmic-ray-hit pixels are exactly the ones flagged",
  "A pixel is flagged saturated exactly when it reaches the saturation level of its own frame, which is the smaller of the "
  "image-area and gain-register full wells (converted with the k-gain) times the threshold. Around each cosmic-ray plateau "
  "(a run of pixels over the plateau level containing a saturated one) exactly the box around its head and the requested "
  "number of pixels after it are flagged, clipped at the edges of the image area (continuing on the next row in full-frame "
  "mode), independently in each frame.",
  ["inputs"], "all placements of hits (heads, plateau lengths, at every row/column incl. edges) on small frames x box/tail/filter parameters x modes",
  "tests place one or two hits away from the edges", [L12A, "corgidrp/detector.py"],
  [("detect_cosmic_rays, flag_cosmics, calc_sat_fwc", "corgidrp/l1_to_l2a.py, corgidrp/detector.py")])

p("C20", "Bias subtraction uses each frame's own prescan and detector geometry",
  "The bias removed from each row is the median of the reliable prescan columns of that same detector row, less the bias "
  "offset of the noise map, with the matching uncertainty; cropping keeps exactly the image area, and this holds for "
  "whichever detector geometry, readout type and crop setting is requested. Cutting out a detector area and embedding it "
  "again are inverse operations, and a frame of another size is refused.",
  ["inputs", "configurations"], "all small geometries x readout types x crop settings x area names",
  "tests use the two flight geometries only", [L12A, "corgidrp/detector.py"],
  [("prescan_biassub; slice_section, imaging_slice, embed", "corgidrp/l1_to_l2a.py, corgidrp/detector.py")])

p("C21", "Frame selection keeps exactly the frames that pass the criteria",
  "Frame selection returns, in the original order and otherwise unchanged, exactly the frames that violate none of the "
  "enabled criteria (fraction of bad pixels not counting allowed flags, overexposure, tip/tilt jitter and bias limits), or "
  "keeps all frames and marks exactly the others as bad. If no frame passes the request is refused.",
  ["inputs", "configurations"], "all combinations of criteria settings x per-frame values at, below and above each limit",
  "tests check one criterion at a time", [L2AB], [("frame_select", L2AB)])

p("C22", "Combining frames uses exactly the unflagged samples of each pixel",
  "Mean, median and scaled combinations of frames use for each pixel exactly the samples that are not flagged, "
  "with the uncertainty of that combination; a pixel without any good sample is flagged and no other pixel is. "
  "Sub-exposures are grouped in order without dropping, repeating or mixing frames, and a count that does not divide evenly "
  "is refused.",
  ["inputs"], "all good/bad patterns over up to four frames x methods x group sizes",
  "tests use a few fixed patterns", ["corgidrp/combine.py", "corgidrp/darks.py"],
  [("combine_images, combine_subexposures", "corgidrp/combine.py"), ("mean_combine, build_trad_dark", "corgidrp/darks.py")])

p("C23", "Darks are built and applied only for matching exposures",
  "A master dark is built only from frames of one exposure time, EM gain and k-gain, and subtracted only from frames with "
  "the same ones; everything else is refused. A dark synthesised from noise maps equals fixed pattern over gain plus dark "
  "current times exposure time plus clock-induced charge for the frames' own exposure time and gain, with its uncertainty "
  "and flags.",
  ["inputs", "configurations"], "all combinations of exposure/gain/k-gain on dark and frames; grid of exposure times and gains for synthesis, full frame and image area",
  "tests check a single mismatch and a single synthesis", [L2AB, "corgidrp/darks.py"],
  [("dark_subtraction, build_trad_dark, build_synthesized_dark", "corgidrp/l2a_to_l2b.py, corgidrp/darks.py")])

p("C24", "Bad pixels are mapped and blanked exactly",
  "The bad-pixel map marks a pixel warm/hot exactly when the dark exceeds its threshold, dead exactly when the flat falls "
  "below its threshold. Correction blanks exactly the pixels that are flagged in the "
  "frame or in the map, whichever flag it is, records the replacement, and leaves every other pixel unchanged.",
  ["inputs"], "all flag bits and all pixel/threshold relations on small frames",
  "tests plant a few pixels with one flag value", ["corgidrp/bad_pixel_calibration.py", L2AB],
  [("create_bad_pixel_map, correct_bad_pixels", "corgidrp/bad_pixel_calibration.py, corgidrp/l2a_to_l2b.py")])

p("C25", "Photon counting counts thresholded photons and nothing else",
  "Photon counting marks a pixel of a frame exactly when it exceeds the threshold, a multiple of the read noise of the frames, "
  "ignores flagged samples, and turns the counted fraction of the unflagged samples into a rate by the documented "
  "corrections, bin by bin, using every frame exactly once. Frames of mixed exposure settings within a bin "
  "are refused, and a photon-counted dark is only used when it was counted with the same threshold and from at least as many "
  "frames.",
  ["inputs", "configurations"], "all count/flag patterns for small stacks x bin numbers x thresholds x gains",
  "tests use one simulated stack", ["corgidrp/photon_counting.py"],
  [("get_pc_mean, photon_count, corr_photon_count", "corgidrp/photon_counting.py")])

p("C26", "Non-linearity correction interpolates the calibration table",
  "The correction factor of a pixel is the bilinear interpolation of the calibration table at its counts and its frame's "
  "gain, held constant outside the range of the table, and every pixel value is multiplied by its own factor. Pixels "
  "above the linearity limit, and only those, are flagged; malformed tables are refused.",
  ["inputs"], "all tables of a small menu x counts on/between/outside nodes x gains on/between/outside nodes",
  "tests compare one table with one simulated frame", ["corgidrp/detector.py", L12A],
  [("get_relgains, correct_nonlinearity", "corgidrp/detector.py, corgidrp/l1_to_l2a.py")])

p("C27", "Cropping keeps pixels, flags, uncertainties and sky coordinates aligned",
  "Cropping returns exactly the requested window around each frame's own centre, with data, uncertainties and flags cut "
  "alike, and updates position keywords so that every remaining pixel keeps its sky position and the recorded star "
  "position refers to the same pixel. The centre is the pixel corner nearest to the given position; a window that does not "
  "fit and an odd size are refused.",
  ["inputs", "configurations"], "all centres (whole and half pixels) x sizes on small frames, per-frame star positions",
  "tests crop around one centre", [L34], [("crop", L34)])

p("C28", "Pupil-imaging frames are sorted into the right calibration sets",
  "Frames taken for the k-gain and non-linearity calibrations are each assigned to exactly the set their exposure-time "
  "sequence and gain define, independent of the order in which they are given. No frame is lost, duplicated or shared "
  "between the sets that exclude each other.",
  ["inputs"], "all small acquisition sequences of the documented pattern, in all orders",
  "one simulated acquisition is sorted", ["corgidrp/sorting.py"], [("sort_pupilimg_frames, extract_frame_id", "corgidrp/sorting.py")])

p("C29", "Results do not depend on what was processed before",
  "A step or calibration builder called with the same input gives the same result whatever was called before it in the same "
  "process, with whatever options; options and tables supplied by a caller never become anyone else's defaults and are "
  "themselves unchanged.",
  ["histories"], "all ordered pairs of calls over an alphabet of operations with default and non-default options",
  "each test runs in its own order with mostly default options", ["corgidrp/star_center.py", L34, WALK, "corgidrp/detector.py", D],
  [("module-level default tables and mutable default arguments", "star_center.py, detector.py, darks.py, l3_to_l4.py")])

p("C30", "Core throughput is each frame's own, and looked up at the nearest point",
  "A core-throughput calibration holds, for every off-axis frame in the order given and wherever the pupil frames are in the list, "
  "that frame's own position, cut-out, flags and throughput (relative to the mean pupil image, in the filter of the frames), and frames with "
  "different filters, or without pupil or off-axis frames, are refused. The point-spread function returned for a position is the one measured at the nearest radius "
  "from the mask and, among those, the nearest position angle; interpolated throughput equals the measured one at every measured position "
  "and lies on the linear interpolation in (log) radius and angle between them, whatever the order of the measured points; movements of the "
  "focal-plane mask are turned into pixels with the calibrated matrices. Positions outside the measured radii are left out, and refused if none is left.",
  ["inputs"], "all query positions on a grid around small calibration sets, all orders of the calibration points, all orders of small observations",
  "tests query a handful of positions of one set", [D, "corgidrp/corethroughput.py", "corgidrp/klip_fm.py"],
  [("CoreThroughputCalibration methods, generate_ct_cal, CreateCTMap, get_1d_ct, get_closest_psf", "corgidrp/data.py, corgidrp/corethroughput.py, corgidrp/klip_fm.py")])

p("C31", "Photometry and ND calibrations use the star's own filter, spectrum and group",
  "Photometric conversions (flux factors, magnitudes, colour corrections, zero points) use the transmission curve of the frame's own filter whatever "
  "files are present and in whatever order they are listed, and the named star's own spectrum; the measured sum is that of the unflagged pixels within the "
  "aperture (or of the fitted Gaussian), minus the local background if asked for, with its propagated uncertainty. Neutral-density calibrations "
  "group frames by target, use each star's own reference flux and the mean factor of the dim stars (or the factor given), flag a large "
  "spread for any star, and refuse bright-star frames whose filter, mask name or mask position (beyond the tolerance) disagree. Results do not "
  "depend on the order of the input frames.",
  ["inputs", "configurations"], "all filters and directory listing orders, all standard stars; all orders and groupings of small synthetic sets, every single disagreement",
  "tests use one filter, one star and one order", ["corgidrp/fluxcal.py", "corgidrp/nd_filter_calibration.py", "corgidrp/corethroughput.py", TDA],
  [("get_filter_name, get_cfam, aper_phot, calibrate_fluxcal_*, create_nd_filter_cal, determine_*", "fluxcal.py, nd_filter_calibration.py, corethroughput.py, l4_to_tda.py")])

p("C32", "Data-quality words pack and unpack without loss",
  "Unpacking a data-quality image into bit planes and packing it again gives back the same image for every value, each "
  "plane corresponds to the one bit of the flag table, and flag names and bit positions are inverse to each other. Blanking flagged pixels makes exactly the pixels "
  "flagged at or above the threshold (and their uncertainties) NaN, and flagging blank pixels adds the flag to exactly those, keeping the flags they have.",
  ["inputs"], "all 16-bit words (exhaustively), every shape of a small menu",
  "tests convert a few values", [D, "corgidrp/detector.py"], [("nan_flags, flag_nans", "corgidrp/detector.py"), ("unpackbits_64uint, packbits_64uint, get_flag_to_bit_map, get_bit_to_flag_map", D)])

p("C33", "File-name time stamps are exact and rounded correctly",
  "A time stamp in the archive format is the given instant rounded to the nearest tenth of a second (half a tenth up), carrying over into seconds, "
  "minutes, hours, days and years where needed, and is always well formed; equal instants give equal stamps and later "
  "instants never give earlier ones.",
  ["inputs"], "all boundary instants (tenths, seconds, minutes, days, months, leap years) x all sub-tenth offsets",
  "the test formats one instant", [D], [("format_ftimeutc", D)])

p("C34", "Frames do not influence one another; merging ignores the order of frames",
  "A step that works frame by frame gives each frame of a dataset exactly the result (pixels, errors, quality, headers) it gives "
  "that frame processed alone, whatever other frames are in the dataset and in whatever order; the same holds for the flux-ratio "
  "noise curve of each frame. Operations that merge frames (combining subexposures, photon counting, darks, flats, noise "
  "maps) give the same product for every order of the frames within the groups they merge.",
  ["inputs", "histories"], "all ordered selections of the frames of datasets differing in one keyword at a time and in all of them x every step, and chains of two steps; all orders of the frames of every merging operation",
  "tests process datasets of equal frames in one order", ["corgidrp/l1_to_l2a.py", L2AB, L23, "corgidrp/l3_to_l4.py", TDA, "corgidrp/combine.py", "corgidrp/photon_counting.py", "corgidrp/darks.py"],
  [("all steps, get_pc_mean, combine_subexposures, build_trad_dark, calibrate_darks_lsq, create_flatfield, compute_flux_ratio_noise", "l1_to_l2a.py ... l4_to_tda.py")])

p("C35", "PSF subtraction and its throughput tables match the data they were made from",
  "PSF subtraction removes from every science frame its projection on the principal modes of the right frames only: reference "
  "frames for RDI, science frames at other rolls for ADI, both for combined; output frames are listed by number of modes and "
  "derotated to north up, with the star at the recorded position, undefined where nothing was observed, and flagged accordingly. "
  "Injected sources land at the stated separation and angle with the stated flux and the off-axis PSF of that position; the noise, "
  "KLIP throughput and core throughput tables give for each separation, in any order, the value that belongs to it.",
  ["inputs", "histories"], "all assignments of up to four frames to science/reference x roll angles x modes x lists of mode counts; star positions, bad pixels and cropping; grids of separations, angles and orders of separations",
  "tests subtract one simulated set and compare with loose tolerances", ["corgidrp/l3_to_l4.py", "corgidrp/klip_fm.py", "corgidrp/corethroughput.py"],
  [("do_psf_subtraction", "corgidrp/l3_to_l4.py"), ("inject_psf, measure_noise, meas_klip_thrupt, get_closest_psf", "corgidrp/klip_fm.py"), ("get_1d_ct", "corgidrp/corethroughput.py")])

p("C36", "Per-frame arithmetic of the reduction steps is exact",
  "Conversion to electrons, gain division, flat division, division by exposure time and desmearing transform every pixel of "
  "every frame by exactly the documented formula with that frame's own keyword values, and record the resulting unit. "
  "Desmearing inverts the readout smear, and no frame influences another.",
  ["inputs"], "all frames x all pixels of small datasets with pairwise different keyword values; desmear for every image height up to a bound",
  "tests use datasets whose frames share all keyword values", [L2AB, L23],
  [("convert_to_electrons, em_gain_division, flat_division, divide_by_exptime, desmear", "l2a_to_l2b.py, l2b_to_l3.py")])

p("C37", "Splitting a dataset partitions it",
  "Splitting a dataset by header keywords puts every frame in exactly one group, keeps the input order within each group, "
  "puts two frames together exactly when all the keyword values agree, and reports each group's values. Frames and pixels "
  "of the original are unchanged.",
  ["inputs"], "all assignments of small value sets (numbers, strings, booleans, mixed) to up to four frames, keyword subsets",
  "tests split one dataset on one keyword", [D], [("split_dataset", D)])

p("C38", "Astrometric calibration recovers the orientation, scale and pointing of a field",
  "Boresight calibration of star images returns the plate scale, north angle (over the full circle) and sky position of the image "
  "centre under which the catalogue stars fall where they are seen, for every pointing, orientation, catalogue order and number "
  "of frames, with stars found and matched automatically or given as tables or files; every frame is calibrated about its own "
  "coordinates. A distortion of the field that is a Legendre polynomial is recovered, with and without position errors, and undone by the distortion correction. "
  "Conversions between pixel offsets and separation/position angle are exact inverses in all directions.",
  ["inputs"], "grids of north angles x plate scales x pointings x catalogue orders x star layouts x pointing offsets x numbers of frames x ways of giving the stars; all pixel offsets up to a bound",
  "tests calibrate one simulated field with north angle 20 and no pointing offset", ["corgidrp/astrom.py"],
  [("boresight_calibration, match_sources, compute_platescale_and_northangle, compute_boresight, find_source_locations", "corgidrp/astrom.py"),
   ("angle_between, seppa2dxdy, seppa2xy, get_polar_dist, create_circular_mask", "corgidrp/astrom.py")])

p("C39", "Noise maps recover what the darks were made of",
  "From stacks of darks taken at different gains and exposure times, the noise maps hold for every pixel the least-squares fixed "
  "pattern, clock-induced charge and dark current (no dark current outside the imaging area, none negative) of the mean unflagged samples, with each frame's "
  "effective gain; telemetry rows are undefined, pixels without enough usable stacks are flagged, uncertainties and bias "
  "offset follow the residuals. A dark synthesised from the maps for the settings of any stack reproduces that stack. Sets of stacks that cannot be fitted are refused.",
  ["inputs"], "all choices of 4-7 stacks from a grid of settings x gain keywords x true maps; all counts of flagged samples per stack; all single defects of the set",
  "tests use one large simulated set with loose tolerances", ["corgidrp/darks.py", D],
  [("calibrate_darks_lsq, build_synthesized_dark, mean_combine", "corgidrp/darks.py"), ("DetectorNoiseMaps", D)])

p("C40", "Stars are located, images undistorted and turned north up correctly",
  "The star found from satellite spots is the centre of the spots' symmetry wherever it is in the frame, from the difference of the medians of frames with and "
  "without spots, for every mode, spot separation, frame order and reasonable guess; user parameters override only what they name and unknown ones, mixed modes and "
  "invalid spot keywords are refused. Distortion correction moves every pixel by exactly the calibration's polynomial at that pixel. North-up turns image, "
  "uncertainties, flags, header orientation, reference pixel and star location together about the chosen centre: every source keeps its sky position and north "
  "is up, east left.",
  ["inputs"], "modes x star positions x guesses x separations x orders; all polynomial terms up to order 3 x directions; orientations x image shapes x centres x reference pixels",
  "tests sample one star position per mode and six angles of one large field", ["corgidrp/star_center.py", "corgidrp/l3_to_l4.py"],
  [("circle, find_optimum_1d, find_optimum_2d, star_center_from_satellite_spots", "corgidrp/star_center.py"), ("find_star, distortion_correction, northup", "corgidrp/l3_to_l4.py")])

p("C41", "Noise curves, detections and companion photometry agree with the scene",
  "The flux-ratio noise of a subtracted image is, at every requested separation and for every mode, the scatter in the annulus "
  "times the area of the throughput-derived PSF over the unocculted star's flux, divided by the interpolated (or extrapolated) algorithm and core throughputs, with the "
  "separations in pixels and mas, whatever the star's place in its frame. The source finder lists every source above the threshold once, at its "
  "pixel, and none below, without altering the image. Companion photometry returns, for given or listed positions, each companion's counts, flux ratio "
  "to the host and magnitude for the chosen mode, method and filter.",
  ["inputs"], "separations x throughput grids x modes x frames x requested separations x half-widths x star positions; planted sources; companion positions x modes x methods",
  "tests sample one scene each with noise", ["corgidrp/l4_to_tda.py", "corgidrp/find_source.py", "corgidrp/measure_companions.py"],
  [("compute_flux_ratio_noise, find_source", "corgidrp/l4_to_tda.py"), ("make_snmap, psf_scalesub", "corgidrp/find_source.py"), ("measure_companions, parse_companions", "corgidrp/measure_companions.py")])

p("C42", "The detector's gain and non-linearity are recovered from pupil images",
  "From pupil-image sets, the k-gain is mean signal over shot-noise variance (read noise, from the prescan, "
  "taken out) within the signal range asked for, with the read noise and the photon-transfer curve, whatever the order of the frames. The non-linearity table "
  "holds for every gain the reciprocal relative gain on the 20-DN grid asked for, 1 at the normalisation signal, lamp drift measured by the repeated exposures taken "
  "out: a straight response needs no correction. Sets that do not allow it (too few frames, no repetition, mixed gains, bad times or settings) are refused.",
  ["inputs"], "gains x read noises x frames per set x orders x gain keywords; response curves x exposure grids x drifts x gain sets x repeats x write ranges; all single defects",
  "the repository's own tests of these need files that are not there", ["corgidrp/calibrate_kgain.py", "corgidrp/calibrate_nonlin.py"],
  [("calibrate_kgain, ptc_bin2, kgain_dataset_2_list", "corgidrp/calibrate_kgain.py"), ("calibrate_nonlin, nonlin_dataset_2_stack", "corgidrp/calibrate_nonlin.py")])

p("C43", "World coordinates put every pixel at its place in the sky",
  "Creating world coordinates writes into every frame, from its own roll, pointing and size, a tangent-plane solution with the calibration's plate scale: the "
  "frame's central pixel points at the frame's target less the calibration's mean offset, and north is turned by the calibration's north angle plus the roll. "
  "Everything else in the frame is unchanged. With a calibration measured from a field of known stars, every catalogue star falls where it is seen, in every "
  "roll, and stays there when the frames are turned north up.",
  ["inputs"], "north angles x rolls x plate scales x offsets x pointings x frame shapes; star layouts x orientations x declinations x displacements x rolls through the whole chain",
  "the test computes the header of one field the same way the step does", ["corgidrp/l2b_to_l3.py", "corgidrp/astrom.py", "corgidrp/l3_to_l4.py"],
  [("create_wcs", "corgidrp/l2b_to_l3.py"), ("boresight_calibration", "corgidrp/astrom.py"), ("northup", "corgidrp/l3_to_l4.py")])

p("C44", "Trap pumping finds each trap at its place",
  "From trap-pumped frames at several temperatures, schemes and phase times, the trap calibration lists exactly the traps present, each at its pixel and at the "
  "part of the electrode whose dipoles it makes, with its energy level, cross section, release time at the temperature asked for, capture probability and "
  "largest amplitude, and counts them by class; traps seen at fewer than three temperatures are listed without a fit. The result does not depend on the order "
  "of the frames or temperatures, on the gain, on repeated frames, on the local illumination or on how many frames each scheme has. Frames without "
  "scheme 1, or without traps in it, are refused, and the table read back from disk is the dictionary of traps it was made from.",
  ["inputs", "history"], "12 sub-electrode locations x classes of traps x temperature sets x frame orders x repetitions x options; every pair of frames of 4 pixels with 3 values for the dipole search; formula grids",
  "the one test uses one simulated set of frames in one order (and needs a simulator version that is not always there)", ["corgidrp/pump_trap_calibration.py", "corgidrp/data.py"],
  [("tpump_analysis", "corgidrp/pump_trap_calibration.py"), ("trap_id", "corgidrp/pump_trap_calibration.py"), ("illumination_correction", "corgidrp/pump_trap_calibration.py"),
   ("fit_cs", "corgidrp/pump_trap_calibration.py"), ("create_TrapCalibration_from_trap_dict", "corgidrp/pump_trap_calibration.py")])

p("C45", "Only well-formed data are taken, and a refusal changes nothing",
  "An image is made only of parts that fit: both headers with raw arrays, flags of the pixels' shape, uncertainties of that shape or in layers of it; parts given with a "
  "file stand in for those of the file, extension names are unique; a dataset takes frames of one shape; calibration kinds take only arrays of their own shape, files "
  "of their own kind and, when new, the frames they are made from; updates of a dataset's pixels, uncertainties and flags, error terms and rescaling take only arrays "
  "that fit. Everything else is refused with an error, and a refused call leaves frames, dataset, arguments and files exactly as they were, so that what follows is as "
  "if it had not been made. The argument checks take exactly the values they name, and refuse with the error asked for.",
  ["inputs", "history"], "shapes of uncertainties x flags x headers x extensions, raw and from files; pairs of accepted and refused operations; kinds x arrays x missing parts; values x checks",
  "tests try one or two wrong shapes per class and never look at what a refused call leaves behind", ["corgidrp/data.py", "corgidrp/check.py"],
  [("Image.__init__, add_extension_hdu", "corgidrp/data.py"), ("Dataset.update_after_processing_step, add_error_term, rescale_error", "corgidrp/data.py"),
   ("calibration classes", "corgidrp/data.py"), ("argument checks", "corgidrp/check.py")])

p("C46", "Flat fields recover the pixels' response",
  "A flat made from planets rastered over the detector equals the detector's pixel-to-pixel response wherever a disc has been, is one outside the field of view (and in the "
  "padding, which brings smaller frames to 1024 pixels unless another width is asked for) and undefined in the part of the field no disc has covered; this does not "
  "depend on the raster, the order of the frames, the brightness of each group of frames or a uniform sky around the planet. Planet, band and radii come from the "
  "arguments or else from the headers. The plain master flat is the mean of its frames with the standard error of that mean.",
  ["inputs"], "rasters x frame orders x groupings x fields of view x paddings x sky levels x planets and bands; all samples of up to four frames over a value menu",
  "tests look only at the average of one flat of random response", ["corgidrp/flat.py"],
  [("create_onsky_flatfield, flatfield_residuals, combine_flatfield_rasters", "corgidrp/flat.py"), ("create_flatfield", "corgidrp/flat.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
