"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PH, SG, UT = "petrofit/photometry.py", "petrofit/segmentation.py", "petrofit/utils.py"
PC, CO = "petrofit/petrosian/core.py", "petrofit/petrosian/correction.py"
FI, MO = "petrofit/modeling/fitting.py", "petrofit/modeling/models.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=level_note, tech=technique, state=state or []))


ENUM = "bounded-exhaustive enumeration of executions of the real code against a reference model"
BFS = "explicit-state search over operation histories of the real objects against a reference model"
SCHED = "exhaustive schedule exploration of the real code under a controlled scheduler"

prop("C01", "Aperture photometry returns the exact masked sums inside each ellipse",
     "For every image, centre, elongation, angle and list of radii (in any order, repeated or not), radial photometry "
     "returns for each radius the sum of the unmasked pixel values weighted by how much of the pixel lies inside that "
     "ellipse, the unmasked area on the same footing, and the square root of the weighted sum of squared errors (NaN "
     "when no error map is given). The overlap rule is the requested one (exact, centre or subpixel), masked pixels "
     "contribute nothing even when they hold NaN, and an unmasked NaN inside an aperture is refused. Plotting does not "
     "change the result and the image, error and mask stay untouched.",
     ["inputs", "configurations"],
     "all images, masks, error maps, centres (on, between and off pixels, at the edge), elongations, angles, radii lists and methods",
     "The tests measure one centred circular source with one list of radii; no mask, no error map, no rotation, no other method and no edge is ever compared with a value.",
     [PH], [("radial_photometry", PH + ":61"), ("radial_elliptical_aperture", PH + ":53")],
     "Every combination within the bounds is executed on the real function and compared with an independent ellipse/pixel overlap model; floats to 1e-9 (areas to 2e-6, the code rounds them).", ENUM)

prop("C02", "Aperture and annulus geometry follows radius, elongation and angle",
     "An elliptical aperture of radius r has semi-major axis r, semi-minor axis r divided by the elongation, the given "
     "centre and the given angle; an annulus of inner radius r and thickness dr has outer radius r+dr with the same axis "
     "ratio on both edges. On every image an annulus therefore measures exactly the difference of the two apertures "
     "that bound it. Drawing apertures draws each of them at its own place with or without an image.",
     ["inputs"],
     "all centres, radii, thicknesses, elongations and angles",
     "The tests build one aperture and one annulus with one elongation and compare attributes only.",
     [PH], [("radial_elliptical_aperture / radial_elliptical_annulus", PH + ":53"), ("plot_apertures", PH + ":13")],
     "Exhaustive lattice of geometries; attributes, the annulus identity on images, and drawn outlines.", ENUM)

prop("C03", "Masks keep exactly the requested sources and the background",
     "A segmentation mask is true exactly on the pixels of the requested sources, plus the unsegmented background "
     "unless the background is asked to be masked, whatever form the request takes (label, catalog row, or a list of "
     "either, in any order). A masked image equals the original on those pixels and holds the fill value (NaN by "
     "default) everywhere else, for integer and floating images and for image containers alike. Neither the original "
     "image, the segmentation nor the request is modified, so repeated calls give the same answer.",
     ["inputs", "histories"],
     "all label maps, requests, fill values and image types; repeated calls",
     "The tests mask one source in one image; label 0, lists, several labels, integer images, fill values and reuse of the same list are never compared with an expected mask.",
     [SG], [("segm_mask", SG + ":239"), ("masked_segm_image", SG + ":293")],
     "All label maps of a 2x3 image over 3 labels (729) times all requests, plus container/dtype/fill products and two-call histories.", ENUM)

prop("C04", "Source photometry measures the source at its brightest pixel only",
     "Photometry of a catalog source sums, for every radius, the pixels inside the ellipse that has the source's "
     "elongation and orientation and is centred on its maximum pixel, leaving out pixels of other sources, NaN pixels, "
     "pixels outside the image or the cutout and, if requested, the background; areas and errors cover exactly the "
     "same pixels. This holds wherever the source is, including corners and edges of non-square images, for every "
     "cutout size (odd sizes are enlarged to the next even one), method and image container. The measured image, "
     "segmentation and error map stay untouched.",
     ["inputs", "configurations"],
     "all source positions, shapes, neighbours, radii, cutout sizes, methods, error maps and containers",
     "The tests measure well-separated sources far from any edge and compare only with stored curves of growth.",
     [SG, PH], [("source_photometry", SG + ":527"), ("get_source_position", SG + ":72")],
     "Lattice of scenes x options executed on the real function and compared with a full-frame overlap model.", ENUM)

prop("C05", "Background subtraction removes exactly the plane fitted to the background",
     "With background subtraction on, the measured fluxes are those of the image minus the least-squares plane through "
     "the background pixels of the cutout that survive the requested clipping (so many standard deviations, or a fixed "
     "distance from the clipped mean, in which case the subtracted image is also floored at minus that distance). "
     "Pixels of any source never influence the plane, an unknown clipping type is refused, and with ten background "
     "pixels or fewer nothing is subtracted. Fitting a background directly returns that same plane.",
     ["inputs", "configurations"],
     "all planes, sources, outliers, sigmas, clipping types and cutout sizes",
     "The tests run background subtraction on one image and never compare the result with a known plane.",
     [SG, FI], [("source_photometry background branch", SG + ":660"), ("fit_background", FI + ":262")],
     "Lattice of planes/outliers/options against numpy least squares and astropy clipping.", ENUM)

prop("C06", "Segmentation finds exactly the connected regions above the threshold",
     "Segmenting an image labels exactly the groups of at least the requested number of 8-connected pixels strictly "
     "above the threshold (a number or a map), and reports no segmentation when there is none. Deblending only ever "
     "splits a segment: it never moves, adds or loses a pixel, never joins two segments, and does nothing at full "
     "contrast. A catalog lists exactly the segments of the final segmentation and is the same for arrays and image "
     "containers, with or without plots, with all options passed on to the steps they belong to.",
     ["inputs", "configurations"],
     "all small images, thresholds, minimum sizes, deblending options and containers",
     "The tests segment one image and count the sources.",
     [SG], [("make_segments", SG + ":340"), ("deblend_segments", SG + ":371"), ("make_catalog", SG + ":421")],
     "All binary 3x4 images x minimum sizes against a union-find model; deblending and catalog lattices.", ENUM)

prop("C07", "Catalog ordering and source accessors agree for rows and catalogs",
     "Ordering a catalog returns a permutation of its indices along which the chosen column is sorted, descending by "
     "default and ascending on request. The position, elongation, ellipticity and orientation (in radians) read from a "
     "source describe its pixels - position of the maximum, second-moment shape - and are the same whether read from "
     "the catalog, one of its rows or a row of its table.",
     ["inputs"],
     "all source shapes, catalogs, keys and sort directions",
     "The tests compare the accessors of one source with the same expressions the code uses.",
     [SG], [("order_cat", SG + ":208"), ("get_source_position/elong/ellip/theta", SG + ":72")],
     "Lattice of source images; oracle from pixel moments.", ENUM)

prop("C08", "The Petrosian profile is edge brightness over mean brightness",
     "For every curve of growth, the Petrosian index at each radius is the brightness in the ring between this and the "
     "previous aperture divided by the mean brightness inside this aperture; the first value is undefined (NaN), and "
     "radii that share one aperture area share one value. If errors in flux or area are given, the uncertainty is "
     "their standard first-order propagation through that ratio, otherwise there is none. Curves with fewer than three "
     "points, decreasing areas or mismatched lengths are refused, and the inputs are not modified.",
     ["inputs"],
     "all flux and area sequences, integer or floating, with and without errors",
     "The tests compare one smooth profile with itself; integer inputs, repeated areas, negative steps and errors are not reached.",
     [PC], [("calculate_petrosian", PC + ":25")],
     "All sequences over small alphabets (lengths 3-5) against exact rational arithmetic.", ENUM)

prop("C09", "The Petrosian radius is the first crossing of eta, or NaN",
     "The Petrosian radius is the radius at which the interpolated Petrosian profile, taken to start at 1 at "
     "radius 0, first falls to eta - the sample nearest to eta among those up to and including the first one at or below it - and "
     "NaN if the profile never falls that far. Its uncertainty is half the distance between the radii of the profiles "
     "raised and lowered by their errors, and NaN if either of them or the errors do not exist. The inputs are not modified.",
     ["inputs", "configurations"],
     "all profiles, eta values, interpolation kinds and resolutions",
     "The tests check one monotone profile at one eta; recrossing, missing crossings and error bars are not compared.",
     [PC, UT], [("calculate_petrosian_r", PC + ":128"), ("closest_value_index", UT), ("get_interpolated_values", UT)],
     "All profiles over a small alphabet x eta x interpolation against an independent crossing model with one-step tolerance.", ENUM)

prop("C10", "Fraction radii and concentrations invert the curve of growth",
     "The radius of a flux fraction is the smallest radius at which the interpolated curve of growth reaches that "
     "fraction of the total flux, where the total is the flux at epsilon times the Petrosian radius divided by the "
     "fraction epsilon recovers; it is NaN when that outer radius is outside the measured radii or the flux is never "
     "reached. A concentration is five times the decimal logarithm of the ratio of the two fraction radii, NaN if "
     "either is missing. Uncertainties are half the spread of the radii found when curve, target flux and outer radius are shifted "
     "down and up by their errors, and NaN without flux errors.",
     ["inputs", "configurations"],
     "all curves of growth, Petrosian radii, epsilons, fractions, interpolation kinds and errors",
     "The tests evaluate the default fractions on two stored profiles.",
     [PC], [("fraction_to_r", PC + ":220"), ("calculate_concentration_index", PC + ":345")],
     "Enumeration of monotone and non-monotone curves x parameters against an independent inversion with one-step tolerance.", ENUM)

prop("C11", "A Petrosian object always reflects its current settings",
     "After any sequence of changing eta, epsilon, the flux fractions or the interpolation settings, of reading "
     "quantities, plotting and copying, every quantity of a Petrosian object equals that of a new object built from "
     "the same measurements with the current settings. Reading or plotting changes nothing, and changing a copy never "
     "changes the original or vice versa.",
     ["histories"],
     "all histories of setting, reading, plotting and copying",
     "The tests set epsilon once and read a few values.",
     [PC], [("Petrosian properties and setters", PC + ":478")],
     "Explicit-state search over operation histories; each state is compared in full with a fresh object.", BFS)

prop("C12", "Every Petrosian quantity of every profile is a number or NaN",
     "Whatever the curve of growth looks like - flat, falling, negative, zero, too short to reach eta, with or without "
     "errors and with any interpolation setting that accepts its number of points - every quantity and uncertainty of a Petrosian object can be read and "
     "is a number or NaN, and every plot can be drawn. If the Petrosian radius does not exist, every quantity derived from it is "
     "NaN, and quantities that lie beyond the measured radii are NaN rather than extrapolated. The total and half-light fluxes are the curve "
     "of growth interpolated at their radii.",
     ["inputs", "configurations"],
     "all flux sequences, error arrays and interpolation settings",
     "The tests read only well-behaved galaxies; error properties and unreachable radii are never read.",
     [PC], [("Petrosian properties", PC + ":660"), ("NaN guards", PC)],
     "All flux sequences over a small alphabet x error/interpolation settings; every quantity read and cross-checked.", ENUM)

prop("C13", "Petrosian results scale with the units of flux, area and radius",
     "Multiplying all fluxes (and their errors) by a constant leaves every radius, its uncertainty, concentration and Petrosian index "
     "unchanged and multiplies every flux and flux uncertainty by it. Multiplying all areas by a constant changes none of these, and "
     "multiplying all radii by a constant multiplies every radius by it and leaves concentrations, fluxes and the profile unchanged. "
     "The same flux scaling holds for photometry and for models: multiplying an image multiplies the measured fluxes and errors, and a "
     "model's amplitude multiplies its image.",
     ["inputs"],
     "all profiles and scale factors",
     "Each test uses one set of units.",
     [PC, PH, MO], [("calculate_petrosian, calculate_petrosian_r, fraction_to_r", PC), ("radial_photometry", PH), ("PSFConvolvedModel2D.evaluate", MO)],
     "Exhaustive profiles x power-of-two scales (which floating point scales exactly), compared metamorphically.", ENUM)

prop("C14", "Petrosian corrections come from the nearest grid row",
     "A correction is read from the grid row nearest to the measured Petrosian radius at eta 0.2, half-light radius and concentration, "
     "each distance in units of that column's spread; the new epsilon is that row's corrected radius for the object's epsilon fraction (0.5, 0.8 or 0.99) "
     "over its Petrosian radius for the object's eta (0.2 to 0.5), and other fractions or etas are refused. With range enforcement, "
     "objects outside the grid's range are refused; without it the nearest row is used. Correcting returns a copy that differs only in epsilon, "
     "leaves the object and grid alone, and a grid written to a file and read back gives the same corrections. Filtering a grid keeps exactly the rows with the given value.",
     ["inputs", "configurations", "histories"],
     "all grids, objects, etas, epsilon fractions and range settings",
     "The tests correct one galaxy with one stored grid.",
     [CO], [("PetrosianCorrection", CO + ":390"), ("estimate_epsilon", CO + ":520")],
     "Synthetic grids x real profiles x settings against a nearest-row model.", ENUM)

prop("C15", "Correction grids list every parameter pair in order, for any schedule",
     "Generating a correction grid yields exactly one row per pair of Sersic index and radius, index-major in the order "
     "given, each row computed from its own pair only and consistent with the model it names: analytic total flux and radii, measured "
     "Petrosian radii, and an epsilon that makes epsilon times the Petrosian radius the true total-flux radius. Running on several "
     "processes gives the same table as running on one, whatever order the workers finish in, and a table written to a "
     "file reads back the same; an existing file is replaced only if overwriting is allowed.",
     ["schedules", "inputs", "configurations"],
     "all parameter lists, completion orders of the workers, PSF and oversampling settings, and file states",
     "The tests generate one tiny grid on one process.",
     [CO], [("generate_petrosian_sersic_correction", CO + ":190"), ("_generate_petrosian_correction", CO + ":27")],
     "All completion orders of the worker tasks under a controlled executor; rows compared with analytic Sersic relations.", SCHED)

prop("C16", "Model images are block averages of the model, convolved with the PSF",
     "Each pixel of a wrapped model's image is the mean of the base model over the requested sub-samples of that pixel - the "
     "whole image for one factor, only the pixels of the window (placed by numbers or by parameter names, cut at the image edge) "
     "for a window, the pixel centre otherwise. The image is then convolved with the PSF, rotated by its "
     "position angle in degrees, at the PSF's own sampling before being averaged to data pixels. This holds for every image "
     "origin, shape and pixel order.",
     ["inputs", "configurations"],
     "all base models, parameters, PSFs, oversampling rules, PSF sampling factors, image sizes and origins",
     "The tests compare one convolved image within 1% and one window fit.",
     [MO], [("PSFConvolvedModel2D.evaluate", MO + ":370"), ("make_grid", MO + ":97")],
     "Lattice of configurations against a direct (loop-free numpy) rendering model.", ENUM)

prop("C17", "Evaluating a model never depends on what was evaluated before",
     "A wrapped model evaluated after any history - other image sizes, origins, oversampling rules or PSFs, parameter "
     "changes, cache switched on, off or cleared, copies and other models evaluated in between - returns the same image "
     "as a new model with the same settings. Returned images can be modified without affecting later ones.",
     ["histories"],
     "all histories of evaluations and setting changes over several models",
     "Each test evaluates a model on one grid.",
     [MO], [("sampling grid cache", MO + ":380"), ("clear_cached_grid / cache_grid", MO + ":340")],
     "Explicit-state search over histories of evaluations, setting changes and cache operations.", BFS,
     [dict(name="sampling grid cache", meaning="grid and the size, factor and range it belongs to", where=MO)])

prop("C18", "Sampling settings of a model are always consistent",
     "No sequence of assignments can leave a model with an oversampling factor that is not a positive whole multiple of its PSF "
     "sampling factor, or assign a PSF sampling factor while there is no PSF: such assignments are refused and "
     "leave the settings as they were, and all other assignments are accepted and read back. Windows need exactly four entries with whole "
     "size and factor, and can be given as tuple or list. A PSF that is not normalised is accepted with a warning.",
     ["histories", "configurations"],
     "all sequences of assignments to the PSF and the sampling settings, at construction and later",
     "The tests try a dozen fixed assignments.",
     [MO], [("oversample / psf_oversample / psf setters", MO + ":265")],
     "Breadth-first search over all setting states reachable by the assignment alphabet against a guard model.", BFS)

prop("C19", "Wrapping a model keeps its parameters, constraints and independence",
     "A wrapped model has the base model's parameters in order, plus the PSF angle, with the same values, fixed flags and "
     "bounds, for simple and compound base models alike, and converting back yields a base model with the wrapper's current "
     "values, fixed flags and bounds. Changing the wrapper, the base model or a converted copy never changes the others. "
     "One-dimensional models and already wrapped models are refused, and the default bounds are new on each request.",
     ["histories", "configurations"],
     "all base models, constraints and histories of changes",
     "The tests wrap one model and read nothing back.",
     [MO], [("PSFConvolvedModel2D.__init__/_load_parameters/model", MO + ":190"), ("get_default_sersic_bounds", MO + ":70")],
     "Explicit-state search over change histories on (base, wrapper, converted copy).", BFS)

prop("C20", "Image and grid coordinates put every pixel where it belongs",
     "Converting a model to an image samples it at whole pixel coordinates starting at the origin, or at centre minus half the "
     "size rounded down, with columns along x and rows along y for any width and height. A sampling grid of factor f has f evenly spaced "
     "samples per pixel whose mean is the pixel centre. A fit plot reports the model image in these same coordinates and the "
     "residual as image minus model, for arrays and image containers.",
     ["inputs", "configurations"],
     "all sizes, centres, origins, factors, modes and models",
     "The tests use square images with the default origin.",
     [FI, MO], [("model_to_image", FI + ":178"), ("model_center_to_image_origin", FI + ":158"), ("make_grid", MO + ":97"), ("plot_fit", FI + ":360")],
     "Lattice of sizes, centres and factors against explicit coordinates.", ENUM)

prop("C21", "Fitting uses exactly the valid pixels and recovers the model",
     "A fit uses each pixel that is neither NaN nor masked at its own coordinates, with its own weight, and no other: changing invalid "
     "pixels changes nothing, and a model that matches the valid pixels is recovered. The input model, image and weights stay "
     "untouched, fixed parameters keep their values, and results stay inside the bounds. Tolerances, iteration limits and uncertainties are those that were asked for, and the fitter that was used is returned with the fitted model.",
     ["inputs", "configurations"],
     "all subsets of invalid pixels, weights, fitters and models",
     "The tests fit complete images with uniform weights.",
     [FI], [("fit_model", FI + ":36"), ("fit_background", FI + ":262")],
     "All invalid-pixel subsets of small images x fitters x weights against numpy least squares.", ENUM)

prop("C22", "Sersic, Petrosian and Nuker formulas satisfy their defining relations",
     "The enclosed Sersic flux is the integral of the Sersic profile over the ellipse, contains half of the total at the effective "
     "radius and is inverted exactly by the enclosed-radius function; the ideal Petrosian profile is local over mean enclosed brightness; "
     "and central and effective intensities convert into each other as the profile does. The generalised Sersic image equals the "
     "Sersic image at zero boxiness and is constant along generalised ellipses, and the Nuker and core-Sersic images equal their amplitude at the break radius with the stated inner slope and outer profile. "
     "The fit-ready versions of these functions return the same values.",
     ["inputs"],
     "all amplitudes, radii, indices, ellipticities, angles and shape parameters",
     "No test evaluates these functions against an independent value.",
     [MO], [("sersic_enclosed / sersic_enclosed_inv / petrosian_profile", MO + ":640"), ("GenSersic2D, Nuker2D, CoreSersic2D", MO + ":540")],
     "Parameter lattices against numerical integration and defining identities.", ENUM)

prop("C23", "Unit conversions are exact inverses with the right reference values",
     "Ellipticity and elongation, pixel and angular size, and area and radius convert into each other without loss: elongation "
     "is the axis ratio, ellipticity one minus its inverse, an ellipse of the returned axes has the given area and elongation, and "
     "angular size is the number of pixels times the sky size of a pixel. Magnitudes follow the AB definition from the image header, are NaN for "
     "fluxes that are not positive, and work alike for numbers, arrays and integers without changing their input.",
     ["inputs"],
     "all values, shapes, types, world coordinate systems and units",
     "The tests convert one or two values each way.",
     [UT], [("ellip_to_elong, elong_to_ellip, elliptical_area_to_r, circle_area_to_r", UT), ("pixel_to_angular, angular_to_pixel, hst_flux_to_abmag", UT)],
     "Value/type/header lattices against closed forms.", ENUM)

prop("C24", "Radius lists, interpolation and first-crossing search are exact",
     "A radius list has the requested number of strictly increasing radii ending at the maximum, evenly spaced or, on request, "
     "logarithmically spaced from 1. Interpolation returns evenly spaced abscissae over the full range, at least as many as "
     "the input, passes through the data, and returns the data themselves when switched off. The first-crossing search finds the value closest to the "
     "target among those up to and including the first one at or beyond it (below it, or above it for growing data) and nothing if there is none.",
     ["inputs"],
     "all arrays, targets, directions, kinds and sizes",
     "The tests check a handful of monotone arrays.",
     [UT], [("make_radius_list, get_interpolated_values, closest_value_index", UT)],
     "All arrays over a small alphabet up to length 6 x all targets and directions.", ENUM)

prop("C25", "Natural sorting and catalog matching are stable and nearest-neighbour",
     "Natural sorting returns the same items ordered so that embedded numbers compare by value and text ignores case, whatever the initial order, "
     "without changing the input list. Catalog matching returns, for each source of the first catalog, the index of and separation "
     "to the nearest source of the second one on the sphere, including across zero right ascension and at the poles, in degrees or any other unit.",
     ["inputs"],
     "all lists of names and all pairs of catalogs",
     "Sorting is tested on no list of mixed names and matching is not tested.",
     [UT], [("natural_sort", UT + ":33"), ("match_catalogs", UT + ":80")],
     "All permutations of small name sets; all small catalogs over a coordinate alphabet against brute-force great-circle distances.", ENUM)

prop("C26", "Subtracting a cutout changes only its own footprint, on a copy",
     "Subtracting a cutout centred on a pixel returns a new image that differs from the original only where the cutout overlaps the image, "
     "by exactly the cutout's values, for every size and parity of the cutout and every centre including those partly or "
     "wholly outside the image. The original image and the cutout are not modified.",
     ["inputs"],
     "all image and cutout shapes and all centres",
     "There is no test of it.",
     [UT], [("cutout_subtract", UT)],
     "All image shapes up to 5x6, cutout shapes up to 5x5 and centres from -4 to 9.", ENUM)

prop("C27", "Results never depend on which calls were made before",
     "Every operation of the library returns the same result whether it is the first call of the process or follows any other "
     "operations: no call leaves state behind that changes another's result. In particular default arguments, "
     "default bounds, default background models and random state needed by results are not altered by use.",
     ["histories"],
     "all sequences of library calls",
     "Tests call each function once in a fixed order.",
     [PH, SG, PC, CO, FI, MO, UT], [("default arguments", FI + ":262"), ("default bounds", MO + ":70"), ("model cache", MO)],
     "All ordered pairs (and repeats) of a menu covering the API; each result compared with its first-call value.", BFS)

prop("C28", "No operation modifies its arguments",
     "Every function leaves the arrays, lists, models, catalogs, segmentations, tables and profiles passed to it exactly as they were, "
     "and what it returns shares no memory with them that a later call writes to. Read-only inputs are accepted wherever writable ones are, with the same results.",
     ["inputs", "histories"],
     "all operations and argument containers",
     "Tests never compare their inputs before and after a call.",
     [PH, SG, PC, CO, FI, MO, UT], [("copies of inputs", PC), ("deep copies of images", SG)],
     "Menu of all operations x argument forms (list, array, read-only array, container) with deep snapshots.", ENUM)

prop("C29", "Threads evaluating one model at a time never see each other's images",
     "When several threads evaluate models at the same time - the same model object on different image grids or with different parameters, or different models - each "
     "gets the image it would have got alone, in every interleaving.",
     ["schedules"],
     "all interleavings of concurrent evaluations",
     "No test evaluates a model from two threads, and a sequential test can never interleave two evaluations.",
     [MO], [("sampling grid cache", MO + ":380")],
     "All interleavings at source-line granularity up to the stated preemption bound under a controlled scheduler.", SCHED)

prop("C30", "An ideal galaxy is measured with its true properties end to end",
     "For a Sersic galaxy without PSF or noise, rendering it, measuring its curve of growth in matching ellipses and analysing it "
     "recovers - to within the stated tolerance - the analytic enclosed fluxes, the analytic Petrosian profile and radius, and with the true epsilon "
     "the half-light radius, total flux and concentration, for every index, size, ellipticity, angle and centre that the image resolves.",
     ["inputs"],
     "all resolved Sersic parameters, centres and elongations",
     "The tests measure two stored galaxies with fixed parameters.",
     [PC, PH, MO, FI], [("model_to_image, radial_photometry, Petrosian", PC)],
     "Lattice of Sersic galaxies rendered and measured end to end against analytic values (tolerance 1-3%).", ENUM)

prop("C31", "Isophote amplitude and Gaussian width measurements recover the truth",
     "The amplitude at a radius is the brightness of the source's isophote there, for arrays and image containers and any centre, ellipticity and angle, "
     "and NaN with a warning instead of an error when it cannot be measured. Fitting a Gaussian recovers the centre, "
     "amplitude and widths of a Gaussian source near the middle of images of any shape, and the reported FWHM are the x and y widths of that fit in that order.",
     ["inputs"],
     "all source shapes, positions, radii and image shapes",
     "The tests do not compare any of these with a known source.",
     [SG, FI], [("get_amplitude_at_r", SG + ":110"), ("fit_gaussian2d, measure_fwhm", FI + ":320")],
     "Lattice of analytic sources; measurement compared with the analytic value.", ENUM)

prop("C32", "Plots show the measured values and change nothing",
     "Every plotting operation can be drawn for every valid object, on the current or a given axis, and shows the data it names: the Petrosian profile and curve "
     "of growth with their errors, lines at the measured radii, ellipses with the given geometry and the measured radii, the image with its residual, "
     "and correction grids with the chosen row. Quantities that do not exist (NaN) are left out rather than drawn "
     "or failing, and no plot changes the object.",
     ["inputs", "configurations"],
     "all objects, including those with missing quantities, and all plot options",
     "The tests call the plots without looking at what they draw.",
     [PC, CO, FI, SG, PH, UT], [("Petrosian.plot / plot_cog / imshow", PC), ("plot_fit", FI), ("plot_correction", CO), ("plot_target, plot_segments", UT)],
     "Option lattice; artists of the drawn figure compared with the object's values.", ENUM)

prop("C33", "Optional arguments have their documented defaults, by position or name",
     "Leaving out any set of optional arguments of a public function, class or method gives the same result as passing their documented defaults, "
     "whatever the other arguments are, and arguments given by position mean what the same arguments mean by name, in the documented order.",
     ["inputs", "configurations"],
     "all public functions with optional arguments, all subsets of them left out and all splits into positional and named arguments",
     "The tests call each function in one or two ways, so most defaults and most positions are never used.",
     [PH, SG, UT, PC, CO, FI, MO], [("signatures of the public functions", "petrofit")],
     "Every subset and split within the bounds is called on the real function; results, drawings and printed text are compared with the fully spelled out call.", ENUM)

prop("C34", "Copies and pickles are independent, equal objects",
     "A copy or pickle of a Petrosian measurement, correction or model shows every quantity, setting, parameter, constraint and image that the original shows, "
     "whatever was assigned, evaluated or plotted before, in the same process and in another one. Later assignments to or uses of either do not show in the other.",
     ["histories", "configurations"],
     "all object kinds, histories before the copy, ways of copying and operations on either afterwards",
     "The tests copy a model once and never pickle anything, although generating grids sends such objects to other processes.",
     [PC, CO, MO], [("Petrosian", PC), ("PetrosianCorrection", CO), ("PSFConvolvedModel2D, GenSersic2D", MO)],
     "Every history within the bounds is replayed on the real objects; original and copy are compared with an object of the same history that was never copied.", BFS)

prop("C35", "Measurements follow an image that is shifted, flipped or turned",
     "When an image is flipped, turned by quarter turns or padded (shifted by whole pixels), together with its masks, errors, segmentation and point spread function, "
     "every measurement follows: segments, masks, catalog positions, elongations and orientations, photometry with and without background subtraction, Petrosian quantities, "
     "fitted parameters, widths, isophote amplitudes, model images and cutout subtraction are the transformed results of the original image.",
     ["inputs", "configurations"],
     "all symmetries of the pixel grid, whole-pixel shifts, images and measurement options",
     "The tests use one orientation of each image, mostly round or centred sources, so x and y, or the sense of an angle, could be exchanged unnoticed.",
     [PH, SG, UT, FI, MO, PC], [("radial_photometry", PH), ("source_photometry, segm_mask, get_source_*", SG), ("model_to_image, fit_model, measure_fwhm", FI), ("PSFConvolvedModel2D", MO), ("cutout_subtract", UT)],
     "Every symmetry and shift is applied to the inputs of the real functions and undone on their outputs, which must equal those of the original.", ENUM)

prop("C36", "Input that cannot be used is refused, and refusing changes nothing",
     "Lists of different lengths, fewer than three points, decreasing areas, weights of another shape or that are no numbers, sizes that are not whole numbers of pixels, malformed centres, "
     "unknown sources, names, methods, factors and settings, non-square sky pixels, unmasked NaN pixels inside an aperture, and measurements outside an enforced grid are refused with an exception. "
     "Everything the documentation allows is accepted, and a refused call leaves its arguments and objects as they were.",
     ["inputs", "histories"],
     "all combinations of valid and invalid forms of each argument",
     "The tests hardly ever pass invalid input, so a lost or too strict validation goes unnoticed and wrong numbers come out silently.",
     [PH, SG, UT, PC, CO, FI, MO], [("Petrosian, calculate_petrosian", PC), ("fit_model, model_to_image", FI), ("segm_mask, source_photometry", SG), ("PSFConvolvedModel2D, make_grid", MO), ("PetrosianCorrection", CO), ("angular_to_pixel, hst_flux_to_abmag", UT)],
     "Lattices of valid and invalid arguments around every boundary; the real function must accept exactly the valid ones.", ENUM)

prop("C37", "An interrupted call leaves its arguments and objects as they were",
     "When a call is interrupted anywhere (Ctrl-C in a notebook, an exception in a callback), its arguments and the settings of the process stay as they were, "
     "an interrupted assignment or use of a Petrosian object, correction or model has either happened or not happened, "
     "and repeating the call gives what an undisturbed call gives.",
     ["crash_points", "histories"],
     "all public operations and object kinds, and all points at which they can be interrupted",
     "The tests never interrupt anything, so a temporary change that is not undone on the way out, or a half-made assignment, goes unnoticed.",
     [PH, SG, UT, PC, CO, FI, MO], [("property setters and _calculate methods", PC), ("evaluate, oversample, psf_oversample, cache_grid", MO), ("source_photometry (warnings)", SG), ("correct, estimate_epsilon", CO)],
     "Fault injection: every call is interrupted before every executed line and at every return of the library's functions, then its surroundings are compared and the call repeated.", BFS)

NOT_CLAIMED = {}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])
            if p["state"]:
                anchors["state"] = p["state"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=anchors)) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        mod = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
        if os.path.exists(mod):
            checks.append(dict(
                property=p["id"],
                quick_cmd="/opt/venv/bin/python run.py {} quick".format(p["id"]),
                thorough_cmd="/opt/venv/bin/python run.py {} thorough".format(p["id"]),
                technique="model checking: " + p["tech"], level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NOT_CLAIMED.get(p["id"], "check not built yet")))
    json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c \"import sys; sys.dont_write_bytecode=True; import petrofit\"",
                   checks=checks, not_applicable=na,
                   notes="Checks import petrofit from /repo's working tree; pure Python, nothing to build."),
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
