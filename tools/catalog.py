"""Writes properties.jsonl and MANIFEST.json (python3 tools/catalog.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SI = "properimage/single_image.py"
OP = "properimage/operations.py"
UT = "properimage/utils.py"
PL = "properimage/plot.py"
ST = "properimage/simtools.py"

PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, level, note, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, level=level, note=note,
                      observe=observe or [], state=state or []))


P("C01", "Coadd result does not depend on workers or on how they interleave",
  "Coadding a list of images gives the same combined image, PSF and bad-pixel mask for every number of parallel workers, "
  "more workers than images and repeated images included, and under every interleaving of those workers; it is the result "
  "of combining the images one after the other.",
  ["schedules", "configurations", "inputs"],
  "every number of images and workers up to the bound; every interleaving of the worker threads with at most the stated number of preemptions at line granularity",
  "Tests run each configuration once under whatever schedule the operating system happens to give, with two or three images and workers.",
  [OP, SI, UT], [("coadd: chunks, thread pool and reduction", OP), ("process_chunk_joblib", OP), ("chunk_it", UT), ("lazily cached s_hat_comp", SI)],
  "stateless model checking of the real coadd: controlled line-level thread scheduler, preemption bounded, plus exhaustive worker configurations, against a sequential reference model",
  "model_checking",
  "Every schedule within the preemption bound is executed on the real code. Switches inside one source line or one numpy call are outside the bound; the GIL is assumed.",
  ["return value of coadd"])

P("C02", "Threads working on different images do not disturb each other",
  "When several threads each build, query, coadd or subtract their own images at the same time, every thread gets the results it would get alone, whatever the interleaving.",
  ["schedules", "programs"],
  "pairs of thread programs over distinct images, every interleaving with at most one preemption at line granularity",
  "No test starts two threads on the library; the file backed stamps and every module level object are only exercised by one thread at a time.",
  [SI, OP, UT], [("stamp store named after the instance", SI), ("module level constants and temporary directory", SI)],
  "stateless model checking: controlled scheduler over the real threads, preemption bounded, sequential execution as oracle",
  "model_checking",
  "All one-preemption schedules at the first executions of every package line; calls into C extensions are atomic for the scheduler.",
  ["results of each thread"])

P("C03", "What an image answers does not depend on what it was asked before",
  "For a given image, information-loss setting and zero point, each derived quantity (PSF basis, coefficient fields, normalisation, matched-filter image, PSF at a position, interpolated image, covariance, background) has one value, whatever was computed, in whatever order, and whatever settings were in force before. Asking never changes the pixels or the mask.",
  ["histories"],
  "every sequence of queries and setting changes up to the stated length",
  "Tests ask each quantity once or twice on a new instance; stale caches need a change of settings between specific queries.",
  [SI], [("lazy attributes guarded by hasattr or by keys", SI), ("get_variable_psf, s_hat_comp, s_component, normal_image", SI)],
  "explicit-state search over the real object (states merged on identical attributes), fresh instance as oracle",
  "model_checking",
  "Exhaustive over call sequences within the depth bound for the listed images; says nothing about other images or longer non-merging histories.",
  ["public attributes and methods of an image"])

P("C04", "The PSF basis is the shortest one that keeps the information asked for",
  "The PSF basis holds exactly as many components, taken in decreasing order of their share of the stamps' covariance, as needed for the lost share not to exceed the accepted information loss; a smaller accepted loss only appends components. Each component is the corresponding combination of the star stamps, its coefficient field is the cubic surface fitted to the star weights, and a one-component PSF has unit sum.",
  ["inputs", "configurations"],
  "images with uniform and varying PSF, few and more than 250 stars, and a grid of information losses that straddles every cut of the spectrum",
  "Tests only check that lists are returned; the number of components depends on the whole eigenvalue spectrum and on the loss.",
  [SI], [("_setup_kl_basis, _setup_kl_a_fields, cov_matrix, eigenv", SI)],
  "exhaustive enumeration of images x every cut of the eigenvalue spectrum against a reference decomposition",
  "exploration",
  "Every possible basis size of each enumerated image is forced by losses just below, at and above each cut.",
  ["get_variable_psf"])

P("C05", "The PSF at any position is a finite stamp of unit sum",
  "For every position of the frame, next to the edges and fractional ones included, the PSF reported there is finite, sums to one and has the shape of the PSF basis. Away from the edges it is the combination of the basis with the normalised coefficient fields around the closest pixel; with a one-component PSF it is that component everywhere.",
  ["inputs"],
  "every pixel of the enumerated frames, fractional offsets, square and non-square frames, even and odd stamps",
  "The test suite evaluates a single central position.",
  [SI], [("get_psf_xy", SI), ("normal_image", SI)],
  "exhaustive enumeration of positions against a reference combination",
  "exploration",
  "All pixels of every enumerated frame; the fields and basis themselves are decided by C04.",
  ["get_psf_xy"])

P("C06", "Every bad pixel is masked and the mask only grows by its rule",
  "A pixel that is not finite, saturated (above 65000), strongly negative (below -50) or flagged by the user's mask is always masked, whichever way image and mask were given. The rest of the mask is what seven rounds of growth over pixels with more than two masked pixels in their 3x3 neighbourhood add, nothing else, and the image values are kept.",
  ["inputs", "configurations"],
  "all 512 patterns of bad pixels in a 3x3 neighbourhood, at the centre, edges and corners, for each kind of bad pixel, and each way to give a mask",
  "Tests use one or two masks and never look at single pixels; the rule is local, so all neighbourhoods matter.",
  [SI], [("mask setter: guessing, thresholds and growth", SI)],
  "exhaustive enumeration of all 3x3 neighbourhoods x positions x causes against a reference automaton",
  "exploration",
  "Complete for single 3x3 neighbourhoods; larger configurations are covered by pairs of bad pixels only.",
  ["mask and data of an image"])

P("C07", "The same pixels in any container give the same image",
  "Pixels given as an array of any numeric type or byte order, as a FITS file, HDU or HDU list give images with equal data, mask, background and stars. The gain (argument, header or one) multiplies them, a crop or the removal of empty borders selects exactly the rows and columns asked for, and the caller's arrays, HDUs and files are never modified.",
  ["inputs", "configurations"],
  "every container x data type x gain source, every crop and border width up to the bound on each side",
  "Tests build each container once, with shape checks only and almost always without crop or borders.",
  [SI], [("data, header, gain and mask setters", SI)],
  "exhaustive enumeration of containers, types, crops and borders against slicing in numpy",
  "exploration",
  "Every combination within the bounds; FITS reading itself is astropy's.",
  ["data, mask, header, gain"])

P("C08", "Temporary star-stamp files are private to an image and removed with it",
  "Leaving the context of an image, normally or by an exception, removes the temporary files it made and lets the exception through, even when some file is already gone or cannot be removed. The files of one image never collide with those of another one, in this or in another process forked from it, and releasing one image leaves the others usable.",
  ["histories", "fault_sequences", "schedules"],
  "every interleaving of create, measure, query and release over up to three images or forked processes up to the bound, with every single failing removal",
  "Tests open one context at a time and never make a removal fail.",
  [SI], [("dbname, stamps_pos, _clean, __exit__", SI)],
  "explicit-state search over operation histories with exhaustive fault injection on file removal, and all interleavings of operation steps of forked processes",
  "model_checking",
  "Exhaustive in the operation alphabet and one injected fault per history.",
  ["files of the temporary directory", "exceptions"])

P("C09", "Relative zero points are right for any set of star catalogs",
  "For any list of images, the relative zero points are the least-squares solution over the stars detected in all of them: differences equal the mean magnitude differences of those stars (exactly the flux ratio when images are scaled copies), in the order of the images. They do not depend on the order of the stars in the catalogs, on stars missing from some image, or on whether they were computed before; without common stars every image gets the same zero point.",
  ["inputs", "histories"],
  "all small sets of catalogs (stars present or missing per image, flux ratios, catalog orders, displacement), two to four images, and repeated calls",
  "Tests use two images of the same shape with all stars in common; three or more images or missing stars take other paths.",
  [UT, OP], [("transparency and _matching", UT), ("zero points in coadd and subtract", OP)],
  "exhaustive enumeration of catalog sets and call histories against a reference least-squares model",
  "exploration",
  "Complete over the enumerated presence patterns, ratios and orders.",
  ["transparency"])

P("C10", "Catalog matching returns the nearest neighbour within the radius",
  "Cross-matching two sets of points gives for every point of the first the closest one of the second and its distance when it lies within the radius, and otherwise infinity and the size of the second set. It works in any dimension, refuses sets of different dimension, and leaves its inputs as they were.",
  ["inputs"],
  "all pairs of point sets over a small lattice up to the bound, in one to three dimensions, for several radii",
  "Tests match two random sets once, without looking at ties, empty neighbourhoods or radii.",
  [UT], [("crossmatch", UT)],
  "exhaustive enumeration of small point sets against brute force",
  "exploration", "Complete over the lattice bound; distances equal to the radius are left open.",
  ["crossmatch"])

P("C11", "Subtraction follows the proper formula: difference, PSF and significance",
  "Without fitting, the subtraction of two images yields the difference image, its PSF and its significance image of the proper subtraction formula for the images' PSFs, noises and relative flux scale. Subtracting an image from itself gives zero, exchanging the images negates the difference, transposing both transposes it, and a transient added to one image appears with its sign at its position.",
  ["inputs", "configurations"],
  "every combination of flux ratio, seeing of each image, PSF kind, mask and frame shape of the alphabet; every position of a lattice for the transient",
  "Tests only check types and shapes of the results; a wrong conjugate, normalisation or sign passes all of them.",
  [OP, SI, UT], [("subtract: D, P, S and their variance", OP)],
  "exhaustive enumeration of configurations and transient positions against an independent reference implementation and metamorphic relations",
  "exploration", "Complete over the configuration alphabet; equality up to rounding.",
  ["return values of subtract"])

P("C12", "Every subtraction mode honours its options and survives a failed fit",
  "In every combination of the fitting options the result is the proper subtraction evaluated at the flux scale and displacement the fit ended with, or at the photometric flux scale and no displacement when the fit fails or no fit was asked for. The mask is the union of both images' masks, images of different shape are refused, and the images given keep their pixels and masks.",
  ["configurations", "fault_sequences", "inputs"],
  "all combinations of scale fit, shift fit, iterative, PSF kind, container, masks x every answer of the optimizer from a menu that includes failures",
  "Tests only see the answers the optimizer gives on their images, never a failed fit, and do not compare modes.",
  [OP], [("subtract: beta, shift, iterative branches", OP)],
  "exhaustive exploration of option combinations x environment answers (the optimizer is a controlled environment) against a reference model",
  "fault_enumeration", "Complete over options and the answer menu; the quality of the optimizer's own answers is only checked for recovering a known scale and shift.",
  ["return values of subtract"])

P("C13", "Coadd follows the proper coaddition formula in any order of the images",
  "The coadd of images is the sum of their matched-filtered images weighted by flux scale and noise, divided by the root of the summed PSF powers, with the matching unit-sum PSF. Reordering the images does not change it, and its mask is the union of all masks.",
  ["inputs", "configurations"],
  "all lists of up to the bound of images drawn from an alphabet of flux, noise, PSF kind and mask, all permutations and accepted losses",
  "Tests check shapes and types of the coadd for two or three similar images.",
  [OP, SI, UT], [("coadd, s_hat_comp, psf_hat_sqnorm", OP)],
  "exhaustive enumeration of image lists and permutations against an independent reference implementation",
  "exploration", "Complete over lists within the bound; equality up to rounding.",
  ["return values of coadd"])

P("C14", "A stored image reads back with the same pixels and mask",
  "Storing any two-dimensional image of a type that FITS holds and reading it back gives the same pixels (their real part when complex), and for masked images the same pixels in single precision and the same mask in an extension; with a path it overwrites that file only, without one it returns the HDUs. The stored file is accepted as an image whose masked pixels stay masked, with a mask threshold of one, and the array that was stored is not changed.",
  ["inputs", "configurations"],
  "all data types x mask kinds (none, nomask, each small pattern) x memory layouts x destinations",
  "Tests store one plain and one masked float image.",
  [UT, SI], [("store_img", UT), ("mask of a FITS extension", SI)],
  "exhaustive enumeration of types, masks and layouts with round trip",
  "exploration", "Complete over the alphabet.", ["store_img"])

P("C15", "The interpolated image is finite and touches no good pixel",
  "The interpolated image is finite everywhere, equals the background-subtracted image at every pixel that is not masked, and replaces masked pixels and detected cosmic rays by values from their surroundings, or by the background level away from any good pixel. Background-subtracted image plus background is the image, the masked pixels do not influence either, and the input is unchanged.",
  ["inputs"],
  "bad regions of every size up to the bound at a lattice of positions, in each way a pixel can be bad",
  "Tests only check that the attribute is an array.",
  [SI], [("interped, bkg_sub_img, background", SI)],
  "exhaustive enumeration of bad regions against the defining relations",
  "exploration", "Complete over rectangle sizes and positions of the lattice. Replacement of detected cosmic rays does not hold: a known finding.",
  ["interped, background"])

P("C16", "Plots draw every component with the caller's options",
  "Plotting the PSF basis or its coefficients draws every component, in order, in as many panels as there are components at least, or in the axes given, and refuses too few axes or a one-component PSF without coefficients with the documented errors. The options given reach the drawing and are not modified.",
  ["inputs", "configurations"],
  "every number of components up to the bound x axes given or not x options",
  "Tests compare pictures for the few component numbers their images happen to have.",
  [PL], [("Plot.autopsf, Plot.autopsf_coef, primes", PL)],
  "exhaustive enumeration of component counts and options",
  "exploration", "Complete up to the bound on components; drawing itself is matplotlib's.", ["Plot"])

P("C17", "Simulated PSFs and frames are what their parameters say",
  "Simulated PSFs and Airy patterns are finite, non-negative and symmetric about the centre of their frame, PSFs have unit sum and the width asked for, and point sources land on the pixels asked for with their own weights. Simulations with a seed are reproducible whatever was simulated before, and differ for other seeds.",
  ["inputs", "histories"],
  "every size and width within the bound, all small lists of point sources, all histories of simulation calls up to the bound",
  "Tests check shapes for a handful of sizes.",
  [ST], [("Psf, astropy_Psf, airy_patron, delta_point, image, sim_varpsf", ST)],
  "exhaustive enumeration of sizes, widths, point lists and call histories",
  "exploration", "Complete within the bounds.", ["simtools functions"])

P("C18", "Detections are the islands above the threshold, with their significance",
  "Looking for sources in a significance image gives one entry per connected island of pixels above the threshold, at its centroid as (x, y), with the significance of the pixel closest to it, in units of the clipped noise; nothing else is reported and the image is unchanged.",
  ["inputs"],
  "all patterns of bright pixels in a small window, thresholds and amplitudes of the alphabet",
  "Tests look at a single noise image and the number of entries.",
  [UT], [("find_S_local_maxima", UT)],
  "exhaustive enumeration of bright-pixel patterns against a flood-fill model",
  "exploration", "Complete for the window.", ["find_S_local_maxima"])

P("C19", "Cutting a sequence in chunks loses and repeats nothing",
  "Cutting a sequence of any length in any number of chunks gives exactly that many contiguous pieces whose sizes differ by at most one, and together they hold every element once; a sequence at least as long as the number of chunks gives no empty piece.",
  ["inputs"],
  "every pair of length and number of chunks within the bound, for lists, tuples, arrays and elements that cannot be ordered",
  "Tests cut one array of ten elements.",
  [UT], [("chunk_it", UT)],
  "exhaustive enumeration of lengths and chunk counts",
  "exploration", "Complete within the bound.", ["chunk_it"])

P("C20", "PSF stars are the reliable ones and hopeless images are refused",
  "The stars used for the PSF are the detections with clean flags and sizes and fluxes within the middle percentiles, or all detections when fewer than five qualify; a low threshold is tried when detections are fewer than the minimum asked for. Images with no or one detection are refused with an error, and every stamp used has unit sum and one common shape.",
  ["inputs", "configurations"],
  "frames with every number of stars up to the bound, edges and masked stars, minimum numbers of sources, star picking modes and stamp sizes",
  "Tests use frames full of similar stars.",
  [SI], [("best_sources, stamps_pos, stamp_shape, update_sources", SI)],
  "exhaustive enumeration of star fields against a reference selection",
  "exploration", "Complete over the alphabet; detection itself is sep's.", ["best_sources, n_sources, stamps_pos"])

P("C21", "Aligned operations put the images on the grid of the first one",
  "Coadding or subtracting with alignment registers every image on the grid of the first (the reference): results have its shape, its stars stay where they were, displaced copies coadd or subtract as if they had been taken aligned, and pixels without data in a displaced image are masked. The images given are unchanged.",
  ["inputs"],
  "every displacement of a lattice and quarter and half turns, both operations",
  "Tests align two nearly identical images once.",
  [OP, UT], [("_align_for_coadd", UT), ("subtract(align=True)", OP)],
  "exhaustive enumeration of displacements against the undisplaced result",
  "exploration", "Complete over the lattice of displacements; sub-pixel registration accuracy is astroalign's.", ["coadd, subtract"])

P("C22", "Operations leave their inputs alone and can be repeated in any order",
  "Coadding and subtracting images, in any order and any number of times, gives each time the result that the same call gives on new images, and never changes the caller's lists, arrays, pixels or masks. The deprecated names give the results of the operations that replace them.",
  ["histories"],
  "every sequence of coadd and subtract calls with their options over a small set of shared images up to the bound",
  "Tests use fresh images for every call.",
  [OP, UT, SI], [("subtract, coadd, diff, stack_R", OP), ("zero points and catalogs stored in the images", UT)],
  "explicit-state search over operation histories on shared live images, fresh images as oracle",
  "model_checking", "Exhaustive over histories within the depth bound.", ["return values; images and lists given"])

P("C23", "The Gaussian PSF of an image is the Gaussian of its stars",
  "Fitting a stamp that is a Gaussian over a constant level recovers its centre, second moments, height and level, whatever its elongation (up to three) and orientation. The Gaussian PSF of an image has the shape and orientation of its stars in any frame, for any orientation, follows the image when it is transposed or turned, does not depend on its brightness, and is not widened by a few wider objects; its picture is that of its model, centred.",
  ["inputs"],
  "every stamp shape, width, elongation, angle and centre of a lattice; every image frame, width, elongation and angle of a lattice",
  "Tests fit one or two round stars; the fits of elongated stars end in one of two equivalent forms depending on details of each star.",
  [SI, UT], [("SingleImageGaussPSF.get_variable_psf", SI), ("fit_gaussian2d", UT)],
  "exhaustive enumeration of stamps and images over lattices of widths, elongations, angles and frames; known Gaussians as oracle",
  "exploration", "Exhaustive over the lattice; tolerances are those of the fits.", ["fit_gaussian2d; SingleImageGaussPSF.get_variable_psf"])

P("C24", "What masked pixels hold influences no result",
  "For a given mask, the values of the masked pixels (not finite, saturated or any other) change nothing that the code answers: mask, background, noise, interpolated image, stars, stamps, PSF basis and fields, matched filter, Gaussian PSF, and the difference, significance and coadd images in every mode without alignment.",
  ["inputs"],
  "every value of a menu under every mask of a menu, every assignment of extreme values to five masked places, every operation and mode",
  "It compares two runs over images that differ only in what must not matter; tests look at one run at a time.",
  [SI, OP], [("SingleImage.best_sources, interped, _bkg", SI), ("subtract, process_chunk_joblib", OP)],
  "exhaustive two-run comparison (non-interference) over masks, values and operations of the real code",
  "exploration", "Exhaustive over the menus of masks and values; registration mixes neighbouring pixels and is left out.", ["SingleImage answers; results of subtract and coadd"])

P("C25", "Sky level and brightness change the results as they must",
  "Adding a constant sky level to an image changes its background and nothing else. Multiplying it, by the gain, its header or its pixels, multiplies background, noise, interpolated image and star fluxes, divides the matched filter, and changes neither the stars' positions and shapes, the PSF, its norms and fields, the mask, nor the difference and coadd images it takes part in. Pixels are meant to stay within the limits of the mask.",
  ["inputs"],
  "every sky level and scale of a menu given in three ways, for every frame; every pair of levels and of scales of two images combined",
  "It relates runs over different inputs, for which no expected values are written down.",
  [SI, OP, UT], [("SingleImage quantities", SI), ("subtract without fit, coadd", OP), ("transparency", UT)],
  "exhaustive enumeration of levels, scales and frames; metamorphic comparison of the real code with itself",
  "exploration", "Exhaustive over the menus; equal up to single precision rounding.", ["SingleImage answers; results of subtract and coadd"])

P("C26", "The matched filter of an image is its correlation with its PSF",
  "The matched filtered image is the correlation of the interpolated image with the PSF, each component weighted by its normalised coefficient field, scaled by the zero point over the square of the noise; it is real, proportional to the zero point and peaks at the stars. The normalisation is the sum of the fields convolved with their components, the squared norm of the PSF transform is the sum of the components' powers, and its image is their autocorrelation, centred in the stamp.",
  ["inputs", "operation sequences"],
  "every frame (parity, masks, PSF variation, stamps, smoothing), information loss and zero point of a menu, zero points in both orders",
  "Tests check that the filtered image exists; its values follow from thousands of pixels.",
  [SI], [("SingleImage.s_hat_comp, s_component, normal_image, psf_hat_sqnorm, p_sqnorm", SI)],
  "exhaustive enumeration of images, losses and zero points; sums over pixels with dense Fourier matrices as oracle",
  "exploration", "Exhaustive over the menu.", ["SingleImage.s_component, s_hat_comp, normal_image, psf_hat_sqnorm, p_sqnorm"])


def main():
    built = {p["id"] for p in PROPS if os.path.exists(os.path.join(HERE, "mc", p["id"].lower() + ".py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                             mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p["observe"], hook_needed=None))) + "\n")
    man = dict(
        version=1,
        setup_cmd="python3 check.py --version-only" if False else "/opt/venv/bin/python -B -c 'import numpy, scipy, astropy, sep'",
        checks=[dict(property=p["id"],
                     quick_cmd="python3 check.py %s --tier quick" % p["id"],
                     thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                     evidence_file="evidence/%s.json" % p["id"],
                     technique=p["technique"], level=p["level"], level_note=p["note"])
                for p in PROPS if p["id"] in built],
        not_applicable=[dict(property=p["id"], reason="its check is not built yet")
                        for p in PROPS if p["id"] not in built],
        notes="No hooks are needed in /repo: schedules, faults and environment answers are injected from outside.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in PROPS:
        if p["id"] in built:
            src = open(os.path.join(HERE, "mc", p["id"].lower() + ".py")).read()
            assert 'LEVEL = "%s"' % p["level"] in src, p["id"]


main()
