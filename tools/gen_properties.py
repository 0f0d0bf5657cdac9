"""Write /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
S = "properimage/single_image.py"; O = "properimage/operations.py"; U = "properimage/utils.py"
SIM = "properimage/simtools.py"; PL = "properimage/plot.py"


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": False}})


prop("C01", "Every image container yields the same science data, scaled by the gain",
 "An image given as a bare array, a primary FITS HDU, an HDU list or the path of a FITS file with the same pixel values, in any real numeric type and byte order, produces the same science data, bad-pixel mask, background and detected sources. The science data equal the pixel values multiplied by the gain: the gain argument when given, otherwise the GAIN header card, otherwise one.",
 ["inputs", "configurations"], "all pixel arrays x dtypes x byte orders x containers x gain sources",
 "The tests build each container once from float64 arrays of unit gain and compare shapes; dtype, byte order and gain are never crossed with the container.",
 [S], [("image construction and conversion", "SingleImage.data / header / gain setters"), ("mask inference replaces or keeps the data", "SingleImage.mask setter")],
 "data, header, gain, mask, background and best_sources of the constructed image")

prop("C02", "Cropping and border removal keep exactly the requested rectangle",
 "Cropping ((top, bottom), (left, right)) removes exactly those numbers of rows and columns, zero allowed on any side, and nothing else. Border removal drops exactly the all-zero rows and columns that surround the image, whatever their widths on each side, and both apply to every container and before masking, background and detection.",
 ["inputs", "configurations"], "all image shapes, crop quadruples including zeros, and zero paddings unequal on the four sides",
 "Tests crop one square image with four non-zero margins; a zero margin, non-square frames and unequal padding are separate branches never run.",
 [S], [("crop slice and border scan", "SingleImage.data setter")], "shape and pixels of data, mask and background")

prop("C03", "The mask marks exactly the declared and implied bad pixels, grown",
 "A pixel is bad when it is declared bad (mask array, mask file, or mask stored as first extension), not finite, above 65000 or below -50 in science units; nothing else seeds the mask. Stored masks flag pixels at or above the threshold when their median is zero and at or below it otherwise. The final mask is that set after seven passes adding every pixel with at least three bad pixels in its 3x3 neighbourhood (edges reflected).",
 ["inputs", "configurations"], "all mask patterns, mask containers, polarities and thresholds, and all placements of NaN, infinite, saturated and negative pixels",
 "Tests use a handful of masks and check that some pixels are masked; the exact set, its growth at edges and corners, and the combination of sources are quantified over patterns.",
 [S], [("mask loading, value filters and growth", "SingleImage.mask setter")], "mask of the constructed image")

prop("C04", "Pixel values hidden under the mask never influence any product",
 "Replacing the values of pixels declared bad by any other values, finite or not, leaves the mask, the background, the detected sources, the cleaned image, the matched-filter image, and subtractions and coadds made from it unchanged.",
 ["inputs"], "all images, all masks and all replacement values of declared bad pixels",
 "It is a relation between two runs that differ only where the caller declared the pixels bad; no test runs the same image twice with different hidden values.",
 [S, O], [("masked background and detection", "SingleImage._bkg, best_sources"), ("interpolation over bad pixels", "SingleImage.interped")],
 "every public product of the image and of subtract/coadd")

prop("C05", "The cleaned image is finite, keeps good pixels and repairs bad ones",
 "The cleaned (interpolated) image has no non-finite pixel, equals the background-subtracted image on every pixel that is neither masked nor a cosmic-ray hit, and replaces masked pixels by values interpolated from their good surroundings. Bright single-pixel cosmic-ray hits are replaced too, and no mask or data of the image changes while it is computed.",
 ["inputs"], "all star fields, masks and cosmic-ray hit positions and intensities",
 "The only test checks the absence of NaN on a star field without cosmic rays; repair of hits and preservation of good pixels are per-pixel statements over all fields.",
 [S], [("cosmic-ray detection and interpolation", "SingleImage.interped")], "interped versus bkg_sub_img and mask")

prop("C06", "No operation modifies the caller's arrays, HDUs, headers or files",
 "Building an image, computing any of its products, subtracting and coadding leave the arrays, masks, HDU objects, headers and files supplied by the caller bit for bit as they were, and leave no file next to them. Products returned earlier are not altered by later operations on the same images.",
 ["inputs", "histories"], "all containers and all sequences of operations on them",
 "Tests never compare inputs before and after; the guarantee covers every operation sequence.",
 [S, O, U], [("in-place mask and data handling", "SingleImage.data / mask setters, interped"), ("accumulators", "operations.coadd")],
 "caller-held arrays, HDUs and directories after each operation")

prop("C07", "Detection finds the stars and ignores sky level and flux scale",
 "In a field of isolated bright stars every source used lies within a pixel of an unmasked star, at most one per star, and the central half of the stars by brightness and size is used; fewer than two detections raise a value error. Adding a constant to the image changes neither the sources nor the cleaned image, and multiplying all pixels by a positive constant scales background, fluxes and cleaned image by it. A required number of sources that is already met changes nothing, and at most 1800 are ever used.",
 ["inputs", "configurations"], "all star fields, sky levels, positive scale factors and minimum source counts",
 "Tests count sources on two or three fixed frames; metamorphic relations over sky and scale need pairs of runs over generated fields.",
 [S], [("thresholds, retries and quality cuts", "SingleImage.best_sources"), ("background model", "SingleImage._bkg")],
 "best_sources, n_sources, stamps_pos, background, interped")

prop("C08", "The PSF basis is the smallest one meeting the allowed information loss",
 "The basis returned for an information loss is ordered by decreasing power, and has the least number of components whose combined share of the eigenvalue power leaves at most that loss. Components for a smaller loss extend those for a larger one; with up to 250 stars their pixel values are mutually uncorrelated with variances equal to the leading eigenvalues. A single component has unit sum, and otherwise each comes with one spatial coefficient field fitted to the measured stars.",
 ["inputs", "configurations"], "all star fields and all information losses in [0, 1]",
 "Tests check list lengths for one or two losses; minimality and nesting quantify over losses and spectra.",
 [S], [("covariance, eigen decomposition and truncation", "SingleImage.cov_matrix, eigenv, _setup_kl_basis"), ("coefficient fields", "SingleImage._setup_kl_a_fields")],
 "get_variable_psf, kl_basis, kl_afields, cov_matrix, eigenv")

prop("C09", "The estimated PSF reproduces the profile of the stars in the image",
 "For a field of stars sharing one profile, the single-component PSF matches the true profile up to noise, centred in its stamp, oriented like the image axes; the PSF evaluated at any interior position has unit sum, and the fitted Gaussian PSF recovers the width of round stars.",
 ["inputs"], "all stellar profiles (widths, elongations along the axes), field shapes and noise levels within the sampling limits",
 "Tests only check types and shapes of the PSF; fidelity is a statement over profiles.",
 [S, U], [("stamp extraction and normalisation", "SingleImage.stamps_pos"), ("PSF evaluation", "SingleImage.get_psf_xy"), ("Gaussian fit", "SingleImageGaussPSF.get_variable_psf, utils.fit_gaussian2d")],
 "get_variable_psf, get_psf_xy")

prop("C10", "Products depend on the current settings, never on the order of requests",
 "Whatever sequence of product requests, information-loss changes and zero-point changes an image has been through, each product equals the one a fresh image with the same inputs and current settings returns. Requesting a product twice in a row returns the same values.",
 ["histories"], "all sequences of product requests and setting changes",
 "Lazy caches make correctness depend on the history; tests request each product once on a fresh image.",
 [S], [("lazy caches", "SingleImage._best_sources, _stamps_pos, _kl_basis, _a_fields, _normal_image, _s_hat_comp, _s_component, _interped")],
 "public products after each step of a history")

prop("C11", "The matched-filter image is the PSF cross-correlation weighted by noise",
 "The S component equals the correlation of the cleaned image with the PSF (or the coefficient-weighted sum of basis correlations over the PSF normalisation image), times zero point over noise variance, registered with the image so that a star isolated over its stamp peaks on its own pixel. Its transform is consistent with it, and for a fixed PSF it is linear in the zero point.",
 ["inputs", "configurations"], "all fields, odd, even and non-square shapes, zero points and information losses",
 "Tests check shape and type; the pixel registration and normalisation quantify over shapes and PSFs.",
 [S], [("matched filter", "SingleImage.s_hat_comp, s_component, normal_image"), ("PSF power", "SingleImage.psf_hat_sqnorm, p_sqnorm")],
 "s_component, s_hat_comp, psf_hat_sqnorm")

prop("C12", "Subtraction computes the proper difference of Zackay et al. (2016)",
 "The difference, its PSF and the score image equal the proper-subtraction formulas evaluated by an independent implementation on the cleaned images, PSFs, noise levels and the flux ratio and shift in use. The difference PSF has unit sum, all outputs have the shape of the inputs, and the score is real and finite.",
 ["inputs", "configurations"], "all pairs of same-shape fields (odd, even, non-square), PSF modes and flux-scale modes",
 "Tests check shapes and dtype of outputs on a fixed pair; the formula is a pixelwise identity over all pairs.",
 [O], [("proper subtraction", "operations.subtract")], "return value of subtract")

prop("C13", "Differences show what changed between the images and nothing else",
 "Subtracting an image from itself gives zero; a source present only in the new (reference) image appears as the highest (lowest) score within a pixel of its position, while stars common to both leave no comparable residual, also when the two images differ in seeing, transparency or sky level and for non-square frames. Exchanging the two images flips the sign of the difference.",
 ["inputs", "configurations"], "all transient positions and fluxes, seeings, flux ratios, sky offsets, shapes and subtraction modes",
 "Tests never inject a transient; recovery is a statement over positions, fluxes and observing conditions.",
 [O, S, U], [("flux matching and subtraction", "operations.subtract, utils.transparency"), ("PSF placement", "operations.subtract fitted and empirical branches")],
 "D and S_corr of subtract at planted positions")

prop("C14", "Flux-scale and shift fitting recover the true ratio and offset",
 "With flux-scale fitting on, the difference equals the one of the best flux ratio: multiplying the new image by a constant within the allowed range leaves only noise-level residuals at the constant stars, in the plain and iterative modes. With shift fitting on, sub-pixel offsets between the images are removed, and never make the residuals worse than the unshifted solution.",
 ["inputs", "configurations"], "flux ratios in [0.2, 5], sub-pixel shifts and all fitting modes",
 "Tests run each mode once on identical images, where any ratio near one passes.",
 [O], [("flux-scale and shift optimisation", "operations.subtract cost functions")], "residuals of subtract")

prop("C15", "Subtraction accepts every documented input, merges masks, rejects mismatches",
 "The images to subtract may be image objects of either PSF kind, arrays, HDUs or file paths, in any mixture, with the same result; the returned mask is a boolean array of the image shape that is true exactly where either input mask is. Images of different shape raise a value error and the deprecated entry points warn and return the same result.",
 ["inputs", "configurations"], "all pairs of input forms, masks and shape mismatches",
 "Tests try each form once and do not compare the results or the mask contents.",
 [O], [("input coercion and mask merge", "operations.subtract, diff, stack_R")], "return value and exceptions of subtract, diff, coadd, stack_R")

prop("C16", "Coadds do not depend on the number of workers or their schedule",
 "For any list of images and any worker count from one up, including more workers than images, and whatever the order in which workers run, the coadd, its PSF and its mask are the same up to rounding.",
 ["schedules", "configurations", "inputs"], "all list lengths, worker counts and worker interleavings",
 "Tests run one or two fixed combinations; the partition and the reduction depend on both numbers.",
 [O, U], [("chunking and reduction", "operations.coadd, process_chunk_joblib, utils.chunk_it")], "return value of coadd")

prop("C17", "Coadds are the proper coadd, order-free, deeper and in registration",
 "The coadd and its PSF equal the proper-coaddition formulas evaluated by an independent implementation on the images' matched-filter components, zero points, noise levels and PSFs; the PSF has unit sum and the mask is the union of the input masks. The result does not depend on the order of the images, n copies of an image give the single-image coadd times the square root of n, and stars stay on their pixels.",
 ["inputs", "configurations"], "all lists of same-shape images of mixed noise, seeing and transparency, and their permutations",
 "Tests check shapes and absence of NaN for fixed lists.",
 [O, S], [("proper coaddition", "operations.coadd")], "return value of coadd")

prop("C18", "Relative transparencies recover the true flux ratios of the images",
 "For images of the same stars with flux scales in any known ratios, the relative zero points equal those scales relative to the first image, whatever the number of images, the order of each catalogue and of earlier calls on the same images; only stars common to all images count and without any the zero points are all one.",
 ["inputs", "histories"], "all image counts, flux scales, catalogues with spurious and missing stars, and call histories",
 "Tests use two images or equal fluxes, where per-star ordering mistakes and history effects cancel.",
 [U], [("star matching and least-squares zero points", "utils.transparency")], "return value of transparency and catalogues after the call")

prop("C19", "Catalogue matching returns mutual nearest neighbours within the radius",
 "Cross matching returns for each point the distance and index of its nearest neighbour, or infinity and the catalogue length when none lies within the radius. Star matching assigns a master identifier exactly to stars that are mutual nearest neighbours within the radius, each master star at most once, and marks all others as unmatched.",
 ["inputs"], "all point sets in any dimension, duplicates included, and all radii",
 "Tests use two small fixed point sets.",
 [U], [("nearest-neighbour matching", "utils.crossmatch, utils._matching")], "return values")

prop("C20", "Alignment puts every image on the pixel grid of the reference",
 "When alignment is requested, images related by shift and rotation are resampled so that their stars fall on the reference positions within a pixel, with the reference's shape and with pixels lacking data masked; transients are then found at reference coordinates and coadds keep stars at reference positions.",
 ["inputs"], "all shifts and small rotations with enough common stars",
 "Tests mock or skip registration; positions after alignment are never compared with the reference.",
 [O, U], [("registration", "operations.subtract(align), utils._align_for_coadd")], "aligned images, D and R at star positions")

prop("C21", "Stored images read back identical, mask included",
 "Storing a real, complex or masked image and reading it back returns the same pixels (real part, single precision for masked ones) and the same bad-pixel mask, whether returned as HDU or written to a path, overwriting what was there. A simulated exposure stored to disk carries its pixels, times and metadata.",
 ["inputs"], "all shapes, dtypes, masks (absent, empty, partial, full) and pre-existing files",
 "Tests write one array of each kind and only check that a file exists.",
 [U, SIM], [("FITS writing", "utils.store_img, simtools.store_fits")], "HDU or file contents")

prop("C22", "The score-image catalogue lists every peak region above threshold, once",
 "The catalogue of a score image has exactly one entry per connected region whose significance, measured with clipped statistics, exceeds the threshold, positioned at the weighted centre inside the frame in (column, row) order, with the significance of the pixel there. Raising the threshold only shrinks the covered area and multiplying the image by a positive constant leaves the catalogue unchanged.",
 ["inputs"], "all score images, region layouts and thresholds",
 "Tests use one delta-like image symmetric in both axes.",
 [U], [("labelling and centring", "utils.find_S_local_maxima")], "returned catalogue")

prop("C23", "Partitioning work neither loses, repeats nor reorders items",
 "Splitting a sequence into chunks gives exactly the asked number of chunks with every element in exactly one of them, keeps chunks as contiguous runs of the input, never yields an empty chunk when there are at least as many items as chunks, and gives chunk lengths that differ by at most one.",
 ["inputs"], "all sequence lengths, element types and chunk counts",
 "Floating-point boundary accumulation makes correctness depend on each (length, count) pair; tests try two.",
 [U], [("chunk boundaries", "utils.chunk_it")], "returned chunks")

prop("C24", "Simulated kernels are normalised, centred and shaped as requested",
 "Gaussian kernels have unit sum, are non-negative, peak at the centre, are symmetric and have the requested full widths along each axis; the Airy pattern is finite, peaks at the centre and follows its radial law; the galaxy profile decreases with radius and is symmetric. Point-source maps put each weight on its own pixel and nothing elsewhere. Coordinate products list every combination of the given values.",
 ["inputs"], "all sizes (odd and even), widths, Sersic indices, positions and weights",
 "Tests compare one or two sizes against stored arrays.",
 [SIM], [("kernels and maps", "simtools.Psf, astropy_Psf, airy_patron, gal_sersic, perfilsersic, delta_point, cartesian_product")], "returned arrays")

prop("C25", "Simulated images conserve flux, are reproducible and have the asked noise",
 "A simulated frame is the master convolved with the kernel plus bias plus sky noise of the requested distribution and level; the same seed gives the same frame, different seeds different noise, and the master is not modified. Convolution conserves flux, is linear and keeps the frame shape and source positions.",
 ["inputs", "configurations"], "all masters, seeings, signal to noise ratios, noise laws and seeds",
 "Tests check shape and one seed.",
 [SIM], [("frame simulation", "simtools.image, convol_gal_psf_fft, sim_varpsf")], "returned frames")

prop("C26", "Plots draw the requested product on the requested axes, or fail clearly",
 "Each plot method draws the product it is named after with one panel per PSF component, on the axes given or on a grid with room for every component, honours the caller's drawing options, and changes nothing in the image. Unknown or private plot names raise a value error, as do too few axes and coefficient plots of a constant PSF.",
 ["inputs", "configurations"], "all component counts, axes layouts, options and method names",
 "Tests cover up to a few components and do not vary options.",
 [PL], [("plot dispatch and grids", "plot.Plot, plot.primes, plot.plot_S, plot.plot_R")], "matplotlib axes contents and exceptions")

prop("C27", "Images keep their scratch data apart and remove it when closed",
 "Scratch data of images alive at the same time never mix: the products of each are those it has alone, whatever the interleaving of requests. Leaving an image's context, normally or by an exception, removes its scratch files and only those, can be repeated, and propagates the exception. Subtracting and coadding remove the scratch of the temporary images they make and of no others; a request that failed for lack of storage can be made again.",
 ["histories", "fault_sequences"], "all interleavings of creation, use, closing and exceptions over several images",
 "Tests open one or two contexts and never list the scratch directory.",
 [S], [("stamp database life cycle", "SingleImage.dbname, db, _clean, __exit__")], "scratch directory listing and products")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
