"""Per property: (deciding technique, what the level does and does not cover).  Properties absent here are not claimed."""
_X = "bounded exhaustive exploration (stateless model checking of the real code against an independently written reference)"
TECH = {
 "C01": ("explicit-state exploration of all programs of processing steps on the real code, with a frame condition checked on every transition",
         "Every enabled chain of the step alphabet up to the depth from every start dataset; every builder of the alphabet once per tracking mode. Trusts the snapshot/compare function."),
 "C02": ("explicit-state exploration of all programs of dataset operations over a pool of related datasets (real code), with a linkage probe and a list-of-frames reference after every operation",
         "All programs of 20 operations up to depth 2 from every start dataset (depth 3 over deriving prefixes in quick, over everything in thorough), plus every processing-step chain. One probe per corner pixel of each array; whole arrays compared."),
 "C03": ("explicit-state exploration of all (copy, edit) programs on every product kind and on datasets: every edit of every part of either side, frame condition on the other side",
         "Every product kind x copy mode x side x edit; whole objects compared after each edit. Trusts the snapshot/compare function."),
 "C04": ("exhaustive enumeration of all products x load routes x save/load cycles on the real code, with the snapshot of the original as reference",
         "Every product kind with every content variant of the menu; two save/load cycles; every (kind, foreign file) pair. FITS float cards limited to 15 digits by the library."),
 "C05": (_X + ": every product kind x every single-element change x every re-encoding of equal content, and all of it again in fresh processes",
         "Every element of the tiny arrays changed in turn; two fresh processes with different hash seeds and time zones."),
 "C06": ("explicit-state model checking: BFS of a reference map's full state graph, every history replayed and every operation compared on the real CalDB handles",
         "Exhaustive over all reachable states of two handles and the listed colliding entries; trusts pandas CSV reading/writing of single values and the small dict reference."),
 "C07": ("explicit-state exploration of all registration histories (orders, handles, replacements, removals) of small sets of products, every lookup compared with a linear scan of the reference set",
         "All ordered subsets of a menu of eight products, all kinds, six frames; exact ties left free."),
 "C08": ("exhaustive exploration of directory trees x listing orders (controlled scheduler of the directory listing) x prior database states on the real scan",
         "Every kind next to every kind of foreign file in every listing order; trees to depth two; trusts the file menu."),
 "C09": ("exhaustive crash-point and fault-point exploration of the real start-up (preloaded shim cuts every file operation), repeated interruptions explored to the bound over the reachable directory trees",
         "Every stop point, torn write and failing operation from twelve installations; process crash model (no loss of OS cache), one start-up at a time."),
 "C10": ("exhaustive enumeration of the decision table's full input product on the real guess_template/autogen_recipe against an independently written table",
         "Complete over the product of levels, visit types, photon-counting flags, loop flags and exposure-setting patterns of the menu."),
 "C11": (_X + ": all words of template steps x database contents x pipeline settings x input lists, histories of one template over changing databases, all shipped templates",
         "Templates of up to two steps (three in thorough) over twelve step blocks; the recipe compared in full with one written from scratch."),
 "C12": ("explicit-state exploration of all recipe programs over an alphabet of instrumented steps run by the real run_recipe, with a call log, the output files and the database compared with a reference interpreter",
         "All recipes up to the length of the bound and pairs of consecutive runs; the processing steps themselves are stand-ins that record their arguments."),
 "C13": ("explicit-state exploration of every shipped template as a transition system (real recipe generation and runner, steps replaced by contract-checking stand-ins) x just-in-time resolution x calibration availability, plus replay of the templates with the real steps on a tiny detector against the functions called by hand",
         "All templates, every single missing calibration; contracts of the steps are written from their documentation; steps that need a star field are stand-ins in the replay."),
 "C14": ("explicit-state exploration of all sequences of the level-update steps from every mixture of levels, against the documented level automaton",
         "All words over the level steps up to the bound from all level vectors of up to three frames; every other processing step checked for not moving the level."),
 "C15": ("explicit-state exploration of all programs of processing steps on the real code, with a flag-preservation monitor on every transition, for every defined flag bit",
         "Every enabled chain of the alphabet up to the depth, flags on all pixels and bits; combination only exact for unflagged samples."),
 "C16": ("explicit-state exploration of all programs of processing steps, each transition run in both error-tracking modes in lock step and compared with the step's reference rule",
         "Reference rules written per step; combined and per-term layers compared; depth-bounded chains."),
 "C17": ("explicit-state exploration of all programs of processing steps with a history/provenance monitor on every transition, and all parent graphs up to a bound through every combining product",
         "History compared as sequences; parent lists compared with the transitive reference for every small graph of the menu."),
 "C18": (_X + ": all gain-keyword patterns (measured/applied/commanded, absent/zero/negative) x pairs of frames x every gain-dependent step",
         "Complete over the keyword patterns for up to two frames; gain values from a menu."),
 "C19": (_X + ": all rows of pixel levels (background, plateau, saturated) of a small frame x box/tail settings x readout modes",
         "All words over three pixel levels for the rows of the enumerated length; cosm_filter 1 and 2; full-frame borders left free."),
 "C20": (_X + ": all small detector geometries x readout types x crop settings",
         "Every geometry of the grid, every detector area, every wrong size of the menu; statistics on integer counts with 1-3 prescan columns."),
 "C21": (_X + ": all criteria settings x all per-frame value vectors",
         "Every combination of enabled criteria with each frame's values below, at and above each limit; up to three frames."),
 "C22": (_X + ": all good/flagged/undefined patterns over up to four frames x methods x group sizes",
         "Every flag pattern of up to four samples per pixel is present in each execution; values are pairwise different integers."),
 "C23": (_X + ": all exposure-setting vectors of up to three frames x builders, and all synthesized darks of a keyword grid",
         "Complete over the setting vectors of the menu; noise maps with pairwise different values and every flag."),
 "C24": (_X + ": all flag words x all relations of dark and flat to their thresholds",
         "Every defined flag bit and pair of bits, on the frame, the map and both; thresholds from below, at and above."),
 "C25": (_X + ": all count/flag patterns of small stacks x bins x thresholds x gains",
         "Every pattern of over/under threshold and flagged samples for up to four frames is present in each execution; formulas recomputed per pixel."),
 "C26": (_X + ": all tables of a menu x counts and gains on, between and outside the nodes",
         "Piecewise-bilinear function checked at every node, cell centre and outside point; finite table menu."),
 "C27": (_X + ": all centres on a sub-pixel grid x window sizes x array ranks x header conventions",
         "Every centre of the grid including halves, edges and outside positions; two- and three-dimensional frames."),
 "C28": (_X + ": all small acquisitions of the documented pattern (sequence lengths, repeated exposure, group sizes, order of the sets, gaps) x orders of the frames in the dataset",
         "All orders of the four sets; up to three (five in thorough) exposure times; a handful of dataset orders including reversed and interleaved."),
 "C29": (_X + ": every ordered pair of some 140 public operations back to back within long histories (an Eulerian circuit of the complete graph over the operations), the caller's own objects overwritten after every call, each result compared with a fresh process",
         "One input set per operation (defaults and options); slow operations paired within their family and with the whole history in quick, with every operation in thorough. Results compared to 1e-9; stamps ignored."),
 "C30": (_X + ": all orders of small sets of calibration points x mask movements x query positions over and around the measured region; all orders of small throughput observations",
         "Point sets of four to nine points on radial spikes, both interpolation modes, four mask movements; two known findings bound the nearest-point queries."),
 "C31": (_X + ": all filter curves x directory listing orders, all standard stars x filters, all orders and groupings of small neutral-density observations, every single disagreement of a frame",
         "Synthetic spectra at the download boundary, stars centred on pixels; photometry recomputed by an own sub-pixel sum."),
 "C32": (_X + ": every 16-bit data-quality word, every bit position",
         "Complete over 16-bit words (and every single/double bit of wider types); array shapes from a menu."),
 "C33": (_X + ": all calendar boundary instants x all sub-tenth offsets",
         "Complete over the listed boundaries in millisecond/microsecond offsets around each; dates between 2000 and 2100."),
 "C34": (_X + ": all ordered selections of mixed frames x every step (and pairs of steps) against each frame alone; all orders of the frames of every merging operation",
         "Three frames (four in thorough) differing in one keyword family at a time and in all; merging sets with more than 120 orders (720 in thorough) are covered by all exchanges, rotations and the reverse."),
 "C35": (_X + ": all assignments of frames to roles, rolls, modes and mode counts through the real step against an own principal-component subtraction; grids of positions, angles and orders of separations",
         "Small odd-sized images, whole-pixel star positions, rolls in multiples of 90 degrees (exact resampling) for the full pixel comparison; pixels bordering undefined ones after rotation are not judged."),
 "C36": (_X + ": all frames x pixels of datasets with pairwise different keyword values; desmear for every image height up to a bound",
         "Formulas recomputed per pixel in plain Python; finite keyword grids."),
 "C37": (_X + ": all assignments of keyword values to up to four frames x keyword subsets",
         "Complete over the value menu (numbers, strings, booleans); at most four frames and two keywords."),
 "C38": (_X + ": exactly known star fields over grids of orientations, scales, pointings, dithers and catalogue orders through the real calibration; conversions on complete grids of offsets",
         "Isolated noise-free Gaussian stars; distortion of up to third order from given matches; the north angle is judged without a pointing offset only (it is measured about the image centre)."),
 "C39": (_X + ": all choices of stacks from a grid of settings, all counts of flagged samples per stack, all gain keywords, through the real calibration against an own least-squares fit",
         "A reduced detector geometry (6 x 10 pixels) and up to seven stacks of up to three frames; the size of the statistical uncertainty is only judged for growing with that of the frames."),
 "C40": (_X + ": all modes x star positions x guesses x frame orders for centring, all polynomial terms for the distortion, all orientations x shapes x centres for north-up, against scenes known by construction",
         "Noise-free Gaussian scenes, so the tolerances are those of the interpolation and of the centring's grid (0.02 pixel); the roll-angle mode of northup only in its turning sense."),
 "C41": (_X + ": all separations x throughput grids x frames x half-widths x star positions, planted sources and companions through the real curves, finder and photometry, against closed formulas of Gaussians",
         "Gaussian PSFs on deterministic backgrounds; tolerances 0.2 per cent (curves) to 4 per cent (pixel-integrated fits). Two known findings: the ND filter's density is used as a transmission."),
 "C42": (_X + ": all small sets of pupil images with exactly known noise and response through the real calibrations, against closed formulas",
         "Reduced detector geometry; noise from orthogonal patterns, so variances are exact; drift only with a straight response."),
 "C43": (_X + ": all orientations x rolls x shapes x pointings x offsets of a grid against a projection written from scratch, and whole chains calibration -> world coordinates -> catalogue",
         "Equal plate scales for the sky positions (unequal ones only by formula); the chains use noise-free fields; reference pixel counted from zero as the repository's test has it (known finding)."),
 "C44": (_X + ": scenes of traps at every sub-electrode location x classes x temperature sets x frame orders against the physics they were made from; the dipole search over all small stacks, local medians over all bin sizes, fits and tables over grids",
         "Noise-free frames with release times inside the range of phase times; the fit with a varying capture probability only where its starting point leads to the solution; count of unmatched dipoles not checked."),
 "C45": ("exhaustive enumeration of every combination of fitting and unfitting parts on the real constructors, and explicit-state exploration of all pairs of accepted and refused dataset operations against a reference dataset",
         "Small shapes; pairs of operations; the type of an error is judged only in the argument checks; numbers that are neither refused nor promised (booleans) are left open."),
 "C46": (_X + ": all rasters x orders x groupings x fields of view x paddings of a menu through the real flat-field builder, against the response the frames were made with",
         "Uniform discs that fill their cut-outs; response within 4 per cent of one, recovered to 1.4 per cent (the smoothing of the matched filter); frames of even size."),
}
NOT_APPLICABLE = {}
