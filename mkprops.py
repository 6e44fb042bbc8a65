#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept in step with MANIFEST.json)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "No source is handed to two outstanding patches as active",
     "At every point of any history of region checkouts and check-ins, a source that is active in one outstanding (checked-out, not yet checked-in) patch is neither active nor fixed in any patch checked out meanwhile, and no patch lists the same source twice or as both active and fixed. A checkout that would break this is refused, and a refused checkout leaves the whole scene (catalogue, flags, counters, logs, bounds, covariances) exactly as it was.",
     ["histories", "schedules", "inputs"],
     "all interleavings of checkouts (any seed, circular or friends-of-friends scenes, any patch limits) and check-ins, over all source layouts",
     "The suite's demos check a single patch out once and assert nothing; no test interleaves outstanding patches or looks at a refused checkout.",
     ["forcepho/superscene.py"],
     [("is_active test on candidate sources before a scene is built", "SuperScene.get_circular_scene, LinkedSuperScene.grow_scene"),
      ("flagging of the chosen sources", "SuperScene.checkout_region, LinkedSuperScene.checkout_region")],
     [("sourcecat['is_active']", "source is being fitted by an outstanding patch", "SuperScene"),
      ("outstanding patches", "active/fixed lists returned by checkouts", "callers")],
     ["return value of checkout_region", "sourcecat flags"])

prop("C02", "Checkout and check-in bookkeeping is exact and conserves sources",
     "After any history of checkouts, check-ins, resets and refused checkouts, the active and fixed counts equal the numbers of active and fixed entries of the outstanding patches, a source is flagged active exactly when an outstanding patch holds it active, every handed-out source is flagged unavailable at checkout, and when nothing is outstanding every source is available and inactive. Each source's iteration count is the sum of the iterations of the check-ins that contained it as active and its patch count the number of those with a positive number of iterations; the scene reports itself unfinished exactly while some source is short (in absolute value) of the iteration target, sparse exactly while the active fraction is below its limit, and draws seeds with a proper probability distribution that favours less-iterated sources.",
     ["histories", "schedules", "configurations"],
     "all interleavings of checkout/check-in/reset with arbitrary iteration counts (including zero and negative), targets and fractions",
     "No test performs a check-in and inspects counters; the quantifier is over histories.",
     ["forcepho/superscene.py"],
     [("counter and flag updates", "SuperScene.checkout_region / checkin_region / reset"),
      ("stopping criteria", "SuperScene.undone, SuperScene.sparse"), ("seed weights", "SuperScene.exp_weight / sigmoid_weight")],
     [("n_active, n_fixed", "counts over outstanding patches", "SuperScene"),
      ("n_iter, n_patch", "per-source totals", "sourcecat")],
     ["sourcecat columns", "n_active", "n_fixed", "undone", "sparse", "seed_weight()"])

prop("C03", "Check-in writes each result to its own source and nothing else",
     "A check-in replaces exactly the parameters (every band flux and shape parameter), and when given the prior bounds and sampling covariance, of the sources it names, each from the row or block belonging to that source, and no other source's entries change; the next checkout, bounds and covariance request return those values in the order asked for. The per-source log lists, in order, the task of every logged check-in that contained the source, the patch log lists the tasks in check-in order, and the state written to disk (explicitly, on flush, or when the run ends by an exception) reads back equal to the catalogue and logs in memory.",
     ["histories", "crash_points", "inputs"],
     "all histories of check-ins with rows in any order, with or without bounds/covariances/task ids, and all points at which the state is flushed or the run aborts",
     "Tests never write or read a state file and never check a permuted check-in.",
     ["forcepho/superscene.py"],
     [("indexing by source_index", "SuperScene.checkin_region, bounds_and_covs"), ("state persistence", "SuperScene.writeout, __exit__")],
     [("sourcecat, bounds_catalog, covariance_matrices", "per-source state", "SuperScene"), ("sourcelog, patchlog", "task history", "SuperScene")],
     ["checkout_region", "bounds_and_covs", "state FITS file and JSON log"])

prop("C04", "A checked-out patch is composed as configured",
     "A successful checkout returns at least one and at most the configured maximum of active sources, at most the configured number of fixed sources, and a region centred as documented (on the seed, or on the mean active position) whose radius is at least the configured minimum and encloses every active source with its radius of influence. Circular scenes take the sources nearest the seed (by distance plus scaled size, within the maximum radius) as active and the next nearest that reach into the region as fixed; linked scenes take whole friends-of-friends groups in order of proximity to the seed, splitting a group only to fill the last slots when not strict or when it is the first group, and fix the nearest non-active sources overlapping the enlarged region. The friends-of-friends group of a source is the transitive closure of overlap and is the same from every member.",
     ["inputs", "configurations", "histories"],
     "all source layouts, radii of influence, seeds and patch limits, in any reachable scene state",
     "The existing tests contain no superscene assertions; group structure depends on the whole layout.",
     ["forcepho/superscene.py", "forcepho/region.py"],
     [("ordering and limits", "SuperScene.get_circular_scene, LinkedSuperScene.grow_scene"), ("friends of friends", "LinkedSuperScene.grow_source, find_overlaps, make_group_catalog")],
     (), ["checkout_region return values", "make_group_catalog", "overlap_circle"])

prop("C05", "Every dispatched task is answered, checked in once, and the run ends clean",
     "Under any schedule of worker completions, each worker holds at most one task, a task is sent only to an idle worker, every submitted task's result is collected exactly once and checked in exactly once under that task's own id (including results still in flight when the iteration target is reached), and workers are told to stop only when all are idle and nothing is outstanding. The parent loop never waits for a result when none is outstanding, ends only when every source has reached the iteration target, and leaves the scene with no active source.",
     ["schedules", "histories", "configurations"],
     "all interleavings of task submission and worker completion, for any number of workers, scenes and limits",
     "The module does not even import in the test environment and no test runs the parent loop.",
     ["forcepho/dispatcher.py", "forcepho/superscene.py"],
     [("idle/busy lists and receive handles", "MPIQueue.submit/collect/closeout"), ("event loop", "do_parent")],
     [("idle, busy, irecv_handles", "worker and request bookkeeping", "MPIQueue")],
     ["messages on the communicator", "check-in calls", "task log"])

prop("C06", "A posterior query always answers for the parameters it was given",
     "Whatever sequence of queries, in-place changes of the caller's parameter array, residual requests, prior changes and switches between sampling and optimisation mode preceded it, every log-probability, gradient or objective query returns the values belonging to the parameter values passed in and to the current prior and mode, the same values a fresh evaluation would give. Repeating a query at unchanged parameters performs no new likelihood evaluation, and the combined, separate and negated query forms agree with each other.",
     ["histories", "inputs"],
     "all sequences of queries and mutations of the posterior object and of the caller's arrays",
     "Tests never query twice with mutation in between; staleness appears only in particular histories.",
     ["forcepho/model.py", "forcepho/tasks.py", "forcepho/priors.py"],
     [("cache keyed on the last parameter vector", "Posterior.lnprob/lnprob_grad/nll/lnprob_and_grad, FastPosterior.evaluate, SlowPosterior.evaluate")],
     [("_z, _lnp, _lnp_grad", "cached evaluation", "Posterior")],
     ["lnprob", "lnprob_grad", "lnprob_and_grad", "nll", "nll_nograd", "residuals", "ncall"])

prop("C07", "Pixels are packed losslessly into band and exposure order",
     "For every set of exposures, bands, masks and regions, the packed patch contains exactly the selected pixels of every selected exposure, each with its own flux (minus that exposure's background offset when requested), inverse error and pixel coordinates, exposures contiguous and grouped by band in the requested band order; the index arrays partition the pixel arrays, and splitting by exposure or by band recovers each exposure's or band's pixels. Masked, non-finite and padding pixels carry zero weight, padding is flagged by negative coordinates and added per exposure only up to the block size, and a signal-to-noise cap lowers only the weights that exceed it, to exactly the cap.",
     ["inputs", "configurations"],
     "all combinations of bands, exposure counts and order, masks, regions, background offsets and S/N caps",
     "The demos use one or two full images and assert nothing about packing.",
     ["forcepho/patches/pixel_patch.py", "forcepho/patches/patch.py"],
     [("packing loop and index arrays", "PixelPatch.build_patch/pack_pix/_cap_snr"), ("padding and masking", "FITSPatch.find_pixels"), ("splitting", "Patch.split_pix/split_band")],
     (), ["data, ierr, xpix, ypix", "band_start, band_N, band_N_pix, exposure_start, exposure_N", "bandlist, bands, epaths"])

prop("C08", "Fixed sources are subtracted once each, whatever the batching",
     "After a model is prepared with fixed and large sources, the working data equal the original data minus the model image of each such source exactly once, independent of how they are batched, ordered or limited, while weights and coordinates are untouched, and the model is ready for the active sources in their catalogue order. Building the linear design matrix returns for each band and source its unit-flux image and the fixed-subtracted data, the resulting linear flux solution is the weighted least-squares optimum with its precision matrix, and afterwards (as after rendering a scene) the patch and any prepared model evaluate exactly as before.",
     ["histories", "inputs", "configurations"],
     "all numbers and orders of big/fixed/active sources, batch limits, bands, and sequences of prepare/design-matrix/evaluate operations",
     "Tests subtract nothing; double-buffer swaps and stale metadata appear only for particular batch counts and call sequences.",
     ["forcepho/patches/device_patch.py", "forcepho/fitting.py"],
     [("double buffering of data and residual", "subtract_fixed, swap_on_device"), ("metadata repacking", "pack_meta, replace_device_meta_ptrs"), ("linear solve", "design_matrix, optimize_fluxes, optimize_one_band")],
     [("data, residual", "pixel buffers", "CPUPatchMixin")],
     ["patch.data", "retrieve_array", "posterior evaluations", "optimize_fluxes"])

prop("C09", "The likelihood is the chi-square of the model and its gradient its slope",
     "For every patch and parameter vector, the likelihood is minus half the sum over pixels of the squared weighted residual minus the squared weighted data, where the residual image is data minus a model that is additive over sources and linear in each band's flux; it splits exactly into bands and exposures, zero-weight pixels have no influence, and reordering sources, exposures or bands reorders the answers only. The returned gradient is the derivative of the returned value with respect to each parameter, in the order of the parameter vector: a flux affects only its own band, shape and position gradients collect every band.",
     ["inputs", "configurations", "histories"],
     "all scenes, exposures, bands, pixel masks and parameter values within the kernel limits",
     "The suite's gradient demos draw figures and assert nothing.",
     ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/src/matrix22.cc", "forcepho/proposal.py", "forcepho/model.py", "forcepho/sources.py"],
     [("pixel loop and derivative accumulation", "EvaluateProposal kernel"), ("gradient stacking", "FastPosterior.stack_grad"), ("proposal unpacking", "CPUProposer.evaluate_proposal")],
     (), ["chi2, chi2_derivs, residual", "lnprob, lnprob_grad"])

prop("C10", "Chains map to catalogues and files without mixing sources or parameters",
     "For every number of sources, bands and iterations, the per-source table of a chain holds at each iteration, under each parameter's name and the source's own index, that source's value at that iteration, with sky positions restored to absolute coordinates; a sample catalogue at any iteration (including the last and the most probable) contains those values and keeps every other column of the input, and per-source covariance blocks are the diagonal blocks of the full covariance in source order. Writing a result to disk and reading it back preserves every array and scalar and rebuilds the same tables and region.",
     ["inputs", "configurations", "histories"],
     "all shapes of chains (sources x bands x iterations), reference coordinates and optional fields",
     "Tests never build or read back a result.",
     ["forcepho/fitting.py", "forcepho/utils/chain.py", "forcepho/utils/__init__.py", "forcepho/utils/io.py"],
     [("column arithmetic", "make_chaincat, get_sample_cat, extract_block_diag"), ("serialisation", "Result.fill/dump_to_h5/read_from_h5/_reconstruct")],
     (), ["Result attributes", "HDF5 files"])

prop("C11", "Residual images are reassembled pixel for pixel",
     "For every patch written to disk, each exposure's stored pixel data, weights, residuals, coordinates and astrometry read back as packed, and placing them into cut-outs or full images puts every pixel's value at that pixel's own coordinates and nowhere else: padding is dropped, pixels not in any patch stay blank, several patches and exposures fill the same image without disturbing each other, and axes keep their orientation in the output files.",
     ["inputs", "histories", "configurations"],
     "all sets of patches, exposures, masks and image sizes, in any order of filling",
     "Tests never reassemble an image.",
     ["forcepho/postprocess.py", "forcepho/utils/io.py", "forcepho/utils/__init__.py"],
     [("writing", "write_residuals, make_imset"), ("reassembly", "Residuals.fill_images/make_exp, populate_image, write_images")],
     (), ["images returned by fill_images/make_exp", "FITS files from write_images"])

prop("C12", "The pixel store returns every exposure exactly as added",
     "After any history of adding and re-adding exposures, each stored exposure reads back as the last version added, with background subtracted, nominal flux calibration applied to fluxes and inversely to weights, masked (flag bit, non-finite or negative-weight) pixels at zero weight and all other pixels unchanged, independent of the other exposures; the images passed in are not modified. Super-pixel order and the coordinate maps are a bijection with image pixels, for square or rectangular images, and survive reopening the store.",
     ["histories", "inputs", "configurations"],
     "all histories of additions, image shapes, super-pixel sizes, mask kinds and calibration settings",
     "No test touches the pixel store.",
     ["forcepho/patches/storage.py"],
     [("ingest", "PixelStore.add_exposure"), ("reordering", "PixelStore.superpixelize, pixel_coordinates, superpixel_corners")],
     (), ["HDF5 contents", "xpix, ypix, superpixel_corners"])

prop("C13", "Configuration sources override each other in the documented order",
     "For every combination of parser defaults, configuration-file entries and command-line options (in any accepted spelling), each setting takes the command-line value if one was given, else the file's value if present and not null, else the default; settings known only to the file are kept, and the default configuration file written out reads back as the defaults. Path, environment-variable, list and data-type normalisation then apply once to the winning values, and the prior-bound settings handed to the scene are exactly the configured ones.",
     ["configurations", "inputs"],
     "all assignments of each option to default / file / command line, including options given at their default value",
     "No test parses a configuration.",
     ["forcepho/config.py"],
     [("layering", "parse_all, new_args, update_config, read_config"), ("normalisation", "rectify_config, make_bounds_kwargs")],
     (), ["Namespace returned by parse_all/read_config"])

prop("C14", "Prior bounds contain the start and transforms never leave them",
     "For every catalogue, generated bounds strictly contain the starting value of each flux and position and follow the configured ranges and widths, stay ordered and finite, remain so after adjustment (which only widens bounds and moves starting fluxes inside them), and a violation of bounds is reported. The map from sampling to scene parameters is one-to-one onto the interior of the bounds in the order of the parameter vector, with exact inverse, derivative, finite log-volume term and its gradient, for any number of parameters; barrier priors are finite inside the bounds and have matching gradients.",
     ["inputs", "configurations"],
     "all fluxes (zero, negative, faint, bright), positions, bound settings, dimensions and sampling positions",
     "No test evaluates bounds or transforms.",
     ["forcepho/superscene.py", "forcepho/model.py", "forcepho/priors.py"],
     [("bounds", "make_bounds, flux_bounds, adjust_bounds, check_bounds, bounds_vectors"), ("transforms", "Transform, BoundedTransform"), ("barriers", "ExpBeta")],
     (), ["bounds catalogues and vectors", "transform, inverse_transform, jacobian, lndetjac, lndetjac_grad"])

prop("C15", "Region tests select exactly the overlapping exposures and pixels",
     "For every region and image astrometry (square pixels, small fields away from the RA origin and the poles), an exposure with any selected pixel is found and one with none is not used, and the selected pixels (or super-pixels) are exactly those with at least one corner inside the region. Polygon overlap and containment tests agree with geometry for every pair of boxes or convex polygons and points, in either winding order, including full containment and side-only overlap, and store lookups by position return exactly the exposures whose footprint contains it.",
     ["inputs", "configurations"],
     "all relative placements of circular or rectangular regions and images, orientations, pixel scales and image shapes",
     "One doctest samples three box pairs; placement classes (side overlap, containment, non-square) are not reached.",
     ["forcepho/region.py", "forcepho/patches/pixel_patch.py", "forcepho/patches/storage.py"],
     [("geometry", "CircularRegion/RectangularRegion.contains, bounding_box, polygons_overlap, polygon_contains"), ("exposure search", "FITSPatch/StorePatch.find_exposures, MetaStore.find_exposures")],
     (), ["find_exposures", "contains", "packed pixel sets"])

prop("C16", "Run-level catalogues combine patches by source identity",
     "From any finished run, whatever the order in which patches finished and whether sources occur in several patches, the combined sample catalogue holds for each source its own identity and chain (the last logged patch that contained it), the linear flux uncertainties are each source's own marginal uncertainty in each band with the configured floor, and the multi-patch report pairs every repeatedly fitted source with exactly the patches that contained it and its own chain from each. The post-optimisation catalogue is a valid input catalogue carrying the final parameters with counters cleared, and region files describe each source and patch. Percentile summaries, combined groups and appended catalogues are formed from exactly the named sources' own chains, in order.",
     ["histories", "inputs", "schedules"],
     "all orders and memberships of patches and all numbers of sources, bands and samples",
     "No test builds a multi-patch run directory.",
     ["forcepho/postprocess.py", "forcepho/superscene.py", "forcepho/utils/catalog.py"],
     [("joining by source index", "postsample_catalog, flux_unc_linear, find_multipatch, postop_catalog, run_metadata"),
      ("deriving catalogues from chains", "utils/catalog.py: pctile_cat, combine_chains, append_catalogs")],
     (), ["returned arrays", "written catalogues"])

prop("C17", "Catalogue ingestion preserves values and normalises angles and ranges",
     "Rectifying an input catalogue keeps every source row in order with identity, fluxes and positions unchanged, assigns sequential indices, clips shape parameters only to the configured ranges, and rejects missing bands or non-finite values. Position-angle conversion returns, for every finite input angle, unit and option, the equivalent orientation (modulo half a turn) after the requested rotation and reversal, within half a turn centred on zero, without modifying the input.",
     ["inputs", "configurations"],
     "all catalogues, angle values and option combinations",
     "No test ingests a catalogue.",
     ["forcepho/superscene.py", "forcepho/utils/catalog.py"],
     [("rectification", "rectify_catalog, sourcecat_dtype"), ("angles", "convert_pa")],
     (), ["returned catalogues and angles"])

prop("C18", "Scene parameter vectors, catalogues and kernel proposals agree",
     "For every scene (any number of sources and bands), setting all parameters from a vector and reading them back is the identity, each source's block is its band fluxes followed by its shape parameters, and setting one scene never affects another. The proposal sent to the kernel carries for each source and band exactly those values with the mixture amplitudes and derivatives belonging to its shape, catalogue rows map by column name onto the same parameters and back, and the absolute sky position of a source is preserved when coordinates are re-centred on the patch and restored.",
     ["inputs", "histories", "configurations"],
     "all scenes, band subsets and orders, and sequences of set/read/re-centre operations",
     "Tests use one-source scenes and assert nothing.",
     ["forcepho/sources.py", "forcepho/patches/patch.py"],
     [("vector layout", "Scene.set_all_source_params/get_all_source_params, Galaxy.set_params/get_param_vector"), ("proposal", "Scene.get_proposal, Galaxy.proposal_params"), ("re-centring", "Patch.zerocoords/unzerocoords/set_scene")],
     (), ["get_all_source_params", "get_proposal", "to_catalog"])

prop("C19", "The compiled kernel and the Python reference implementation agree",
     "For every scene and image within kernel limits, the compiled kernel's model image, likelihood and gradients equal those of the pure-Python reference evaluated with the same sources, point-spread function and astrometry, to single precision. In both, a source's flux is conserved in the image, moving, rotating or rescaling the sky mapping moves the image accordingly, and per-source astrometric and point-spread metadata are those of that exposure and source.",
     ["inputs", "configurations"],
     "all sources, PSF mixtures, astrometric solutions and pixel grids within limits",
     "Existing comparisons plot the two against each other without asserting.",
     ["forcepho/src/compute_gaussians_kernel.cc", "forcepho/src/common_kernel.cc", "forcepho/slow/gaussmodel.py", "forcepho/slow/likelihood.py", "forcepho/slow/stamp.py", "forcepho/utils/wcs.py", "forcepho/patches/patch.py", "forcepho/patches/static_patch.py"],
     [("kernel", "EvaluateProposal"), ("reference", "WorkPlan, lnlike_multi, convert_to_gaussians"), ("astrometry", "scale_at_sky, _pack_astrometry, _pack_psf")],
     (), ["residual/model images", "likelihoods and gradients of both paths"])

prop("C20", "The metadata store keeps every exposure's header and identity",
     "After any history of adding exposures, writing and reading the metadata store, every band and exposure identifier maps to the last header added for it with all its keywords and astrometry, counts and tables list each exposure once with its own values, and identifiers built from headers and file names are unique and stable per file, directory and (when requested) detector. Point-spread-function lookup returns the entry for the requested band nearest the requested detector position.",
     ["histories", "inputs", "configurations"],
     "all histories of additions, bands, identifiers (nested paths included) and lookups",
     "No test touches the metadata store.",
     ["forcepho/patches/storage.py"],
     [("serialisation", "MetaStore.add_exposure/write_to_file/read_from_file/populate_wcs/to_table"), ("identity", "header_to_id"), ("PSF", "PSFStore.lookup/get_local_psf")],
     (), ["headers, wcs, nexp", "JSON file", "lookup"])

prop("C21", "Fitting tasks report their own posterior and leave nothing behind",
     "For every scene handed to an optimisation or sampling task, whatever tasks the same patch ran before, the posterior explored is that of the original pixels minus the given fixed sources within the given bounds, and every reported position lies within them. An optimisation starts inside the bounds, ends no worse than it started, reports the value and gradient belonging to its end point, and its barrier and mode do not outlive it; linear fluxes are the optimum given the shapes and come with bounds around them at the configured number of standard deviations, other bounds unchanged. Sampling starts at the given catalogue with the given covariance and iteration weight and returns one row per tuning and production draw, each with its own probability. The returned catalogue keeps each source's identity, order and other columns, carries the final position, and after check-in the next task of each source starts from it.",
     ["histories", "inputs", "configurations"],
     "all sequences of checkouts, optimisation and sampling tasks and check-ins on one reused patch, all option combinations",
     "No test runs a task; the demonstrations only plot results.",
     ["forcepho/tasks.py", "forcepho/fitting.py", "forcepho/patches/device_patch.py", "forcepho/superscene.py", "forcepho/model.py"],
     [("tasks", "optimize, sample"), ("drivers", "run_opt, run_lmc, get_pot, Result.fill"), ("scene", "bounds_and_covs, checkin_region, flux_bounds, bounds_vectors"), ("model", "DevicePatchMixin.prepare_model, FastPosterior")],
     (), ["returned catalogues, bounds, chains, statistics", "scratchpad stages", "scene catalogue"])

prop("C22", "A fitted PSF mixture describes itself, the image and its stored form",
     "For every image, number of components, method and starting point, fitting a Gaussian mixture to a point-spread function returns one answer per requested start, and each answer's model image, residual and likelihood are those of its own parameters and stay so whatever is fitted later; the image is not modified. Every expectation-maximisation answer with a finite likelihood has amplitudes that sum to one and the centroid and second moments of the image, can hardly be improved if it claims convergence, is never worse for having iterated longer, and the answer returned when only one is asked for has the smallest residual. The stored mixture (HDF5 file and returned tables) is the same mixture in detector pixels, relative to the centre of the full image, with x along image columns, next to the normalised image section it was fitted to; reading a stored or pickled mixture as a point-spread function gives back that mixture.",
     ["inputs", "histories", "configurations"],
     "all images (square or not, sectioned or not), mixtures, methods, starts, failed and unconverged fits, and sequences of fits",
     "No test fits or reads a mixture; the starting points are random and failures depend on the path of the iteration.",
     ["forcepho/mixtures/psf_mix_em.py", "forcepho/mixtures/utils_em.py", "forcepho/slow/psf.py"],
     [("fitting", "fit_mvn_mix"), ("storage", "psf_mixture"), ("conversion", "params_to_gauss, make_psf, get_psf, PointSpreadFunction")],
     (), ["returned answers", "HDF5 file", "PointSpreadFunction attributes"])

prop("C23", "A galaxy's profile helpers, mixtures and sources describe one light profile",
     "For every Sersic index, half-light radius and flux: the fraction of light within a radius never decreases with it and is one half at the half-light radius; the radius of a given fraction holds that fraction; the Kron radius, with or without a maximum radius, is the first moment of the enclosed light (so it grows with the maximum radius towards the unlimited value); an isophotal radius is where the profile of that flux (total, or within a given radius) has that brightness; scalars and arrays give the same answers; the smoothed profile is the profile convolved with the Gaussian. The model, misfit, penalties and cumulative light of a Gaussian mixture are those of its amplitudes and dispersions. A file of fitted mixtures has one row per profile in grid order, unit total amplitude, and the truth, model and misfit of that row; a galaxy source reading such a file has the tabulated amplitudes at every tabulated profile, slopes that are the derivatives of its amplitudes, and a surface-brightness profile that is that of the mixture for the parameters and flux it holds now.",
     ["inputs", "histories", "configurations"],
     "all profiles, radii, brightness levels, mixtures and grids of profiles; all orders of questions and parameter changes",
     "No test evaluates a profile helper or fits a Sersic mixture; relations between the answers hold for a continuum of indices and radii.",
     ["forcepho/utils/profile.py", "forcepho/mixtures/sersic_mix_oned.py", "forcepho/mixtures/sersic_mix_twod.py", "forcepho/sources.py"],
     [("radii", "frac_sersic, kron_radius, isophotal_radius, I_eff, rfrac_from_halfn"), ("mixtures", "sersic_profile, chisq, fit_gaussians, fit_profiles, gauss_cfd, amplitude_table"), ("two-dimensional", "sersic_prediction, get_kernel"), ("source", "Galaxy.initialize_splines, amplitudes, damplitude_drh, profile")],
     (), ["returned radii, fractions and profiles", "HDF5 file and text table", "Galaxy amplitudes"])

with open(__file__.rsplit("/", 1)[0] + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
