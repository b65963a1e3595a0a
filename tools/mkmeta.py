"""Regenerates properties.jsonl and MANIFEST.json from one table.
   python3-vt tools/mkmeta.py     (run in /verif)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from qsa.registry import CHECKS  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["py/qsonic/" + f for f in files],
                     mechanism=[dict(name=n, where="py/qsonic/" + w)
                                for n, w in mech],
                     observe_at=list(observe))))


prop("C01", "Every rank makes the same collective MPI calls in the same order",
     "In every program of the package, all MPI ranks perform the same sequence of collective operations with the same root, "
     "whatever data each rank holds, so no run can deadlock or pair up two different collectives. A collective is never skipped, "
     "or executed, by only part of the ranks because of rank-local data, an exception on one rank, or the rank number.",
     ["schedules", "fault_sequences", "configurations"],
     "all communicator sizes, all distributions of spectra over ranks, all options, failures on any single rank",
     "the tests run with one rank (a fake or COMM_WORLD of size 1), where every collective matches itself; a mismatch appears only with several ranks and unequal data",
     ["picca_continuum.py", "calibration.py", "mpi_utils.py", "mathtools.py", "catalog.py", "masks.py", "scripts/qsonic_fit.py",
      "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py"],
     [("collectives are called outside rank-dependent branches", "picca_continuum.py PiccaContinuumFitter"),
      ("balanced error handling around local work", "mpi_utils.py mpi_fnc_bcast, mpi_parse"),
      ("FluxStacker.calculate / SubsampleCov.allreduce", "picca_continuum.py, mathtools.py")])
prop("C02", "A failure on one rank ends the whole run with a failing exit code",
     "When reading or preparing shared input fails on the master rank, every rank learns of it and raises; nothing carries on with missing input. "
     "An expected failure makes every rank of a program exit with a nonzero status, and an unexpected exception on any rank aborts the "
     "communicator instead of leaving the others waiting.",
     ["fault_sequences", "configurations"],
     "all single-rank failures (unreadable file, invalid catalog, diverged fit) in all programs, any number of ranks",
     "the tests inject no faults and never run the programs' main functions",
     ["mpi_utils.py", "scripts/qsonic_fit.py", "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py", "picca_continuum.py"],
     [("mpi_fnc_bcast", "mpi_utils.py"), ("main", "scripts/qsonic_fit.py"), ("main", "scripts/qsonic_calib.py"),
      ("main", "scripts/qsonic_coadd_deltas.py")])
prop("C03", "Global statistics combine every rank exactly once, identically on all ranks",
     "Stacked fluxes, variance statistics, fit results and counters computed over the whole data set are the sum of every rank's contribution, each "
     "counted exactly once, and every rank ends up with the same value. Quantities fitted on the master rank are broadcast before any rank uses them.",
     ["schedules", "inputs", "configurations"],
     "all numbers of ranks and all distributions of quasars among them",
     "tests run one rank, where a missing, doubled or local-only reduction gives the right answer",
     ["picca_continuum.py", "mathtools.py", "calibration.py", "scripts/qsonic_coadd_deltas.py"],
     [("FluxStacker.calculate", "picca_continuum.py"), ("VarLSSFitter.calculate_subsampled_stats", "picca_continuum.py"),
      ("SubsampleCov.allreduce", "mathtools.py"), ("mpi_stack_fluxes", "calibration.py")])
prop("C04", "Work is partitioned: every item is handled by exactly one rank",
     "Distributing the catalog (by sky pixel) or a list of delta files over the ranks assigns every quasar or file to exactly one rank, loses and "
     "duplicates none, and never splits one sky pixel, for any number of ranks, including more ranks than items.",
     ["inputs", "configurations"],
     "all catalogs and file lists, all communicator sizes, both mock and data layouts",
     "the tests use one small catalog and two sizes",
     ["mpi_utils.py", "catalog.py", "calibration.py", "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py"],
     [("balance_load", "mpi_utils.py"), ("mpi_get_local_queue", "catalog.py"), ("mpi_read_all_deltas", "scripts/qsonic_calib.py")])
prop("C05", "Each output file is written by exactly one rank and under its own name",
     "Shared output (attributes, variance, covariance, stack and calibration files) is opened and written only by the master rank, and only after the "
     "values are complete. Per-rank delta files never collide: every delta is written once, to a file named after its sky pixel or its rank, "
     "and a rank with nothing to save does not fail.",
     ["schedules", "configurations", "inputs"],
     "all communicator sizes, all option combinations that save files",
     "tests never run several ranks against one output directory",
     ["mpi_utils.py", "io.py", "picca_continuum.py", "scripts/qsonic_fit.py", "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py"],
     [("MPISaver", "mpi_utils.py"), ("save_deltas", "io.py"), ("save_deltas call sites", "scripts/qsonic_fit.py")])
prop("C06", "The quasar catalog used is exactly the valid, selected, sorted catalog",
     "Reading a catalog keeps exactly the rows that satisfy the requested survey and redshift selection; invalid input (missing columns, "
     "duplicate objects) is rejected rather than used. The result carries the sky pixel required for its layout, is ordered by sky pixel, survey and target id, and each "
     "row keeps its own values together.",
     ["inputs", "configurations"],
     "all catalogs and all selection options",
     "two tests read one synthetic catalog with few options",
     ["catalog.py"],
     [("read_quasar_catalog", "catalog.py"), ("_validate_adjust_column_names, _prime_catalog, _add_healpix", "catalog.py"),
      ("mpi_get_local_queue, mpi_read_quasar_catalog", "catalog.py")])
prop("C07", "Every spectrum carries the data of its own catalog row and file rows",
     "Each returned spectrum combines the catalog entry, flux, inverse variance, mask, resolution, co-added counterpart and true or input continuum of one and the same target, "
     "in every arm, whatever the order of the catalog and of the rows in the files. Targets absent from a file are dropped or reported, never replaced by another target's data.",
     ["inputs", "configurations"],
     "all catalogs and file contents, orders and missing targets, coadd, single-exposure and mock inputs",
     "the tests read no spectra",
     ["io.py", "spectrum.py", "continuum_models/true_continuum_model.py", "continuum_models/input_continuum_model.py"],
     [("Reader, read_onehealpix, read_onehealpix_file_data", "io.py"), ("generate_spectra_list_from_data", "spectrum.py"),
      ("read_resolution_matrices_onehealpix_data", "io.py"), ("read_true_continuum", "continuum_models/true_continuum_model.py")])
prop("C08", "Unusable pixels get no weight; the forest holds exactly the selected range",
     "A pixel that is flagged, has a NaN or non-positive inverse variance, or a NaN flux never contributes to any sum, fit or output. The analysed forest contains "
     "exactly the pixels inside the requested observed and rest-frame wavelength limits (inside the pixel tolerance) of arms that are long enough, "
     "with every per-pixel array cut identically.",
     ["inputs", "configurations"], "all spectra, masks, redshifts and wavelength limits",
     "no test constructs a spectrum",
     ["spectrum.py"],
     [("Spectrum.__init__ / _set_forest / set_forest_region", "spectrum.py"), ("valid_spectra, Spectrum.remove_nonforest_pixels", "spectrum.py")])
prop("C09", "Masks remove exactly the contaminated pixels and correct the rest",
     "A sky, BAL or DLA mask zeroes the inverse variance of exactly the pixels inside its regions, in the right (observed or rest) frame, of exactly the affected targets, and leaves all others alone. "
     "Outside the masked core a DLA's absorption is divided out of the flux and propagated to the variance and the smoothed variance.",
     ["inputs", "configurations"], "all mask files, catalogs and spectra",
     "no test applies a mask",
     ["masks.py", "spectrum.py"],
     [("SkyMask.apply", "masks.py"), ("BALMask.apply", "masks.py"), ("DLAMask.apply, DLAMask.get_all_dlas", "masks.py")])
prop("C10", "All per-pixel arrays of a spectrum stay the same length and aligned",
     "After any sequence of selection, masking, slicing, splitting, co-adding and dropping of arms, a spectrum's wavelength, flux, inverse variance, smoothed variance, weights, continuum and "
     "resolution cover the same arms with the same pixels in the same order.",
     ["histories", "inputs"], "all sequences of operations on a spectrum",
     "no test runs a sequence of spectrum operations",
     ["spectrum.py"], [("Spectrum.slice, Spectrum.drop_arm, Spectrum.coadd_arms_forest", "spectrum.py")])
prop("C11", "Spectra are isolated: changing one never changes another or the input",
     "Masking, calibrating, smoothing or fitting one spectrum, arm or exposure never alters the arrays of another spectrum, of another arm, or of the file data they were built from.",
     ["histories", "inputs"], "all sequences of operations, all spectra built from a shared file",
     "no test holds two spectra at once",
     ["spectrum.py", "io.py"], [("copies taken on construction and slicing", "spectrum.py")])
prop("C12", "Co-adding arms or exposures is the inverse-variance mean of valid pixels",
     "Combining the arms of a spectrum puts every pixel on its own wavelength of the joint grid and takes the inverse-variance (weight) weighted mean of the pixels that are valid there; "
     "pixels without data end with zero inverse variance and finite values.",
     ["inputs"], "all arm layouts, overlaps and masks", "no test co-adds",
     ["spectrum.py"], [("Spectrum.coadd_arms_forest, _coadd_cont, _coadd_reso", "spectrum.py")])
prop("C13", "A saved delta is flux over continuum minus one with the documented columns",
     "Every written delta extension has the observed flux divided by the fitted continuum (times mean flux where it applies) minus one, the matching wavelength, inverse variance, weight, continuum and resolution of the same pixels, and a header "
     "that identifies the quasar. When blinding applies, the blinded columns replace the plain ones, and no unblinded delta is written.",
     ["inputs", "configurations"], "all valid spectra and all blinding settings", "no test writes a delta",
     ["spectrum.py", "io.py"], [("Spectrum.write", "spectrum.py"), ("set_blinding, save_deltas", "spectrum.py, io.py")])
prop("C14", "A delta file read back gives the delta that was written",
     "Reading a delta extension restores the wavelength, delta, inverse variance, weight, continuum, resolution and identification that were saved, for every supported wavelength representation and "
     "blinded or plain columns; unusable pixels stay without weight.",
     ["inputs", "configurations"], "all delta files written by the package", "no test reads a delta",
     ["spectrum.py"], [("Delta.__init__", "spectrum.py")])
prop("C16", "Continuum models follow their definition; invalid fits are never used",
     "The continuum of every pixel is the model's own: the common mean continuum times the fitted low-order polynomial in normalised log wavelength, the true continuum, or the input continuum, times the mean flux at that pixel's redshift. "
     "A quasar whose fit fails, or whose continuum is negative somewhere in its forest, is marked invalid and contributes to no stack, statistic or output file.",
     ["inputs", "configurations"], "all spectra and all continuum model options", "no test fits a continuum",
     ["continuum_models/picca_continuum_model.py", "continuum_models/true_continuum_model.py", "continuum_models/input_continuum_model.py",
      "continuum_models/base_continuum_model.py", "picca_continuum.py", "spectrum.py"],
     [("fit_continuum, get_continuum_model, cost functions", "continuum_models/*.py"), ("valid_spectra", "spectrum.py")])
prop("C17", "Weights and smoothed inverse variance follow the variance model",
     "The weight of a pixel is the inverse of the scaled pixel variance plus the large-scale-structure variance times the continuum squared, at that pixel's wavelength, and zero for pixels without inverse variance. "
     "Smoothing never spreads information from, or gives weight to, masked pixels, and the reported chi-square and signal-to-noise use the current weights and valid pixels only.",
     ["inputs"], "all spectra and variance functions", "no test computes weights",
     ["spectrum.py", "mathtools.py"], [("Spectrum.set_forest_weight, set_smooth_forest, calc_continuum_chi2, mean_snr", "spectrum.py")])
prop("C18", "Stacks and variance statistics accumulate exactly the data added since reset",
     "A stacked flux is the weighted mean of the pixels added since the last reset, each put in the bin that contains it, with bins that hold no data left neutral. Variance statistics bin every valid pixel once by wavelength and "
     "pixel variance inside the configured range, and results of one round never leak into the next.",
     ["histories", "inputs"], "all sequences of add, calculate and reset, all pixel values", "no test adds to an accumulator",
     ["picca_continuum.py", "mathtools.py"],
     [("FluxStacker", "picca_continuum.py"), ("VarLSSFitter", "picca_continuum.py"), ("SubsampleCov", "mathtools.py")])
prop("C19", "Subsample means and jackknife covariances follow their definition",
     "Measurements are distributed over the subsamples in turn, the mean is the weighted mean of everything added, and the covariance and variance are the delete-one jackknife "
     "estimates over the subsamples with the configured bias correction; repeated queries give the same answer.",
     ["histories", "inputs"], "all sequences of measurements and weights, all numbers of subsamples", "no test adds measurements",
     ["mathtools.py"], [("SubsampleCov", "mathtools.py")])
prop("C20", "Interpolators return the tabulated function at and between its nodes",
     "The fast linear and cubic interpolators reproduce the node values, interpolate between the neighbouring nodes, and continue the end segments outside the table, for every argument; the numerical helper "
     "kernels (moving averages, running medians, DLA profile, matrix helpers) compute their stated formula for every input length.",
     ["inputs"], "all tables, arguments and lengths", "no test calls them",
     ["mathtools.py"], [("FastLinear1DInterp, FastCubic1DInterp and helpers", "mathtools.py")])
prop("C21", "Invalid option combinations are rejected; valid ones mean what help says",
     "Each program rejects every contradictory or incomplete set of options before doing any work and accepts every consistent one; an accepted option reaches the code it controls with its stated default and meaning.",
     ["configurations"], "all command lines", "tests call no parser",
     ["scripts/qsonic_fit.py", "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py", "mpi_utils.py", "io.py", "picca_continuum.py",
      "calibration.py", "masks.py", "spectrum.py"],
     [("args_logic_fnc_qsonic_fit, get_parser", "scripts/qsonic_fit.py"), ("add_*_parser", "several modules"), ("mpi_parse", "mpi_utils.py")])
prop("C22", "Calibration corrections are applied once, to the right pixels",
     "Noise and flux calibration scale every pixel's inverse variance and flux by the tabulated correction at its own wavelength (and magnitude bin or sky pixel where applicable), exactly once and consistently in all variance arrays; pixels that are masked stay masked.",
     ["inputs", "configurations"], "all spectra and calibration tables", "no test applies a calibration",
     ["calibration.py"], [("NoiseCalibrator.apply, FluxCalibrator.apply", "calibration.py")])
prop("C23", "Iterations use the latest global fit, save each one, and honour fiducials",
     "Every iteration fits all quasars with the mean continuum, variance function and noise correction of the previous one, then updates them from valid quasars only, and stops when converged or at the iteration limit. "
     "A fiducial mean flux or variance function given by the user is used as given and never overwritten by fitted values, and what is saved for an iteration is what that iteration used or obtained.",
     ["histories", "configurations"], "all numbers of iterations and fiducial options", "no test runs the fitter",
     ["picca_continuum.py", "continuum_models/picca_continuum_model.py"],
     [("PiccaContinuumFitter.iterate", "picca_continuum.py"), ("update_mean_cont, update_var_lss_eta", "picca_continuum.py")])
prop("C24", "Selection cuts keep exactly the quasars that satisfy them",
     "Short spectra, low signal-to-noise quasars, explicitly removed targets and arms without valid pixels are removed exactly when they fail the configured cut, measured on the right wavelength range; "
     "all others are kept with their order and data unchanged.",
     ["inputs", "configurations"], "all spectra and all thresholds, including the boundary values", "no test applies a cut",
     ["spectrum.py", "scripts/qsonic_fit.py", "scripts/qsonic_calib.py", "scripts/qsonic_coadd_deltas.py"],
     [("Spectrum.is_long, set_forest_region, rsnr", "spectrum.py"), ("mpi_read_spectra_local_queue, apply_masks, remove_short_spectra", "scripts/qsonic_fit.py")])
prop("C25", "Deltas of several exposures combine into the weighted mean per quasar",
     "Combining delta files groups the extensions of one quasar, and co-adds them on their common wavelength grid as the weighted mean with consistently combined variance, weights and resolution; "
     "masked pixels contribute nothing and each input is used once.",
     ["inputs", "histories"], "all sets of delta files and overlaps", "no test co-adds deltas",
     ["spectrum.py", "scripts/qsonic_coadd_deltas.py"], [("Delta.coadd", "spectrum.py"), ("coadd programs", "scripts/qsonic_coadd_deltas.py")])
NA = [
 ("C30", "Continuum and variance fits reach the optimum of their cost function",
  "The minimiser returns the parameters that minimise the cost function of each quasar and of each variance bin.",
  ["inputs"], "all spectra", "the optimum of a data-dependent non-linear cost is a runtime quantity",
  ["continuum_models/picca_continuum_model.py", "picca_continuum.py"],
  [("Minuit minimisation", "continuum_models/picca_continuum_model.py")],
  "convergence of an external numerical minimiser on data-dependent costs is a runtime quantity; no static argument bounds it. (That invalid fits are marked and excluded is C16.)"),
 ("C31", "The iteration converges to the true mean continuum and variance",
  "With enough quasars the fitted mean continuum and variance functions approach the underlying ones and the convergence test is reached before the iteration limit.",
  ["inputs", "histories"], "all data sets", "a statistical statement about runtime values",
  ["picca_continuum.py"], [("iterate, has_converged", "picca_continuum.py")],
  "a statistical property of the data and of an external spline and minimiser; only the update rules (C23) are decidable from source."),
 ("C32", "Load balancing and reading meet their performance expectations",
  "The work is spread so that no rank has much more than its share, and reading a sky pixel touches each file once.",
  ["inputs", "configurations"], "all catalogs", "no test measures it",
  ["mpi_utils.py", "io.py"], [("balance_load", "mpi_utils.py")],
  "the quality of the balance depends on the run-time distribution of quasars per pixel; exactness of the partition is C04."),
]
for r in NA:
    prop(*r[:8])

TECH = {
 "C01": "interprocedural event-trace comparison per rank with rank-taint dataflow",
 "C02": "exception-flow and exit-status dataflow over the call graph",
 "C03": "value-graph comparison of reductions against an all-rank sum",
 "C04": "value-graph comparison of the partition for abstract rank and size",
 "C05": "effect analysis of file writes guarded by rank",
}
DEF = "gated value numbering of the AST (alias/heap dataflow), random interpretation of value graphs"
NOTE = ("Decided from the source only: each obligation compares the value graph (with heap, aliasing and effects) "
        "inferred for the functions with a reference rule; equal normal forms are proofs, otherwise the graphs are separated "
        "or not by random interpretation. Trusts the engine's models of numpy/fitsio/MPI calls; what it cannot model is listed as "
        "undecided in the evidence and not claimed.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = [dict(property=r[0], reason=r[8]) for r in NA]
    for p in P:
        i = p["id"]
        if i in CHECKS:
            checks.append(dict(
                property=i, quick_cmd=f"python3-vt -m qsa.run {i}",
                thorough_cmd=f"python3-vt -m qsa.run {i} --tier thorough",
                technique=TECH.get(i, DEF), level=CHECKS[i][1],
                level_note=NOTE))
        elif i not in [r[0] for r in NA]:
            na.append(dict(property=i, reason="no check registered yet"))
    json.dump(dict(version=1, setup_cmd="true", checks=checks,
                   not_applicable=na,
                   notes="static analysis of /repo source; the checks never import or run it"),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "n/a")


main()
