"""writes properties.jsonl and MANIFEST.json from the table below (for the props/cXX.py that exist)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []),
                  _tech=tech, _note=note))


K = "diffstar/kernels/"
PK = "diffstar/diffstarpop/kernels/"
SAMPLE = "Tests evaluate the defaults and a few random draws; the statement quantifies over a continuum of real inputs, which no finite sample covers."

TECH = "deductive verification: contracts on the traced real functions, obligations discharged by ring normalisation and z3"
NOTE = ("Every obligation is generated from /repo's current source on each run (the jaxpr JAX compiles from the imported function, "
        "symbolic array sizes, scan loops by inductive invariants) and discharged for all real inputs. Trusted: JAX tracing, the VC generator, "
        "z3, axioms of exp/log/sqrt/logistic, floats read as reals. Functions outside reach fall back to labelled bounded runs.")
TECHPY = ("deductive verification: contracts on the real functions, executed symbolically from their source with loop invariants, "
          "obligations discharged by ring normalisation and z3")
NOTEPY = ("Every obligation is generated from /repo's current source on each run by symbolic execution of the function's own syntax tree "
          "(vc/pyvc.py): all paths, loops by closed-form invariants proved inductive, arrays of symbolic length, callees by contract. "
          "Trusted: the executor, contracts of numpy/h5py/scipy calls (vc/pycontracts.py), z3; floats read as reals with NaN tracked. "
          "Functions outside reach fall back to labelled bounded runs.")


prop("C01", "Bounded galaxy parameters stay inside their ranges and rise with their input",
     "For every real vector of unbounded galaxy parameters, each bounded parameter lies strictly inside its declared range, with the rejuvenation level strictly between the quenching depth and zero. "
     "Each bounded parameter is the sigmoid of its own unbounded counterpart, centred on the middle of its range with slope 4/width, hence strictly increasing in it. "
     "It depends on no other unbounded parameter, except that the rejuvenation level also moves with the quenching depth.",
     ["inputs"], "all real unbounded parameter vectors, single galaxies and batches of any size", SAMPLE,
     ["diffstar/defaults.py", K + "main_sequence_kernels.py", K + "quenching_kernels.py", "diffstar/utils.py"],
     [("get_bounded_diffstar_params", "diffstar/defaults.py"), ("_get_bounded_sfr_params", K + "main_sequence_kernels.py"),
      ("_get_bounded_q_params", K + "quenching_kernels.py"), ("_sigmoid", "diffstar/utils.py")])
prop("C02", "Bounding and unbounding galaxy parameters are mutually inverse",
     "For every galaxy parameter vector strictly inside the declared ranges, converting to unbounded parameters and back returns the same vector, and for every real unbounded vector converting to bounded and back returns the same vector. "
     "Each value stays attached to its own parameter name.",
     ["inputs"], "all in-range bounded vectors and all real unbounded vectors", SAMPLE,
     ["diffstar/defaults.py", K + "main_sequence_kernels.py", K + "quenching_kernels.py", "diffstar/utils.py"],
     [("get_unbounded_diffstar_params", "diffstar/defaults.py"), ("_inverse_sigmoid", "diffstar/utils.py"),
      ("_get_unbounded_qrejuv", K + "quenching_kernels.py")])
prop("C03", "Population parameters: declared ranges and mutually inverse transforms",
     "For every real unbounded population-parameter vector each bounded population parameter lies strictly inside its own declared range, is strictly increasing in its own unbounded counterpart and depends on no other one. "
     "Bounding and unbounding are mutually inverse, and each value is addressed by the name of its parameter, not by position in a block.",
     ["inputs"], "all real unbounded and all in-range bounded population-parameter vectors", SAMPLE,
     [PK + "defaults_mgash.py", PK + "sfh_pdf_mgash.py", PK + "satquenchpop_model.py", "diffstar/diffstarpop/utils.py"],
     [("get_bounded_diffstarpop_params", PK + "defaults_mgash.py"), ("get_bounded_sfh_pdf_params", PK + "sfh_pdf_mgash.py"),
      ("get_bounded_satquenchpop_params", PK + "satquenchpop_model.py")])
prop("C04", "Quenching multiplies the SFR by a drop to a minimum and a partial recovery",
     "In log10 time the quenching factor is 1 until half a duration before the quenching time, never increases until that time, equals the quenching depth exactly at that time, never decreases afterwards, and equals the rejuvenation level from half a duration later on. "
     "It never exceeds 1, never falls below the depth, and follows the triweight cumulative kernel on both sides. The star formation rate of a galaxy carries exactly this factor.",
     ["inputs"], "all times and all in-range quenching parameters", SAMPLE,
     [K + "quenching_kernels.py", K + "history_kernel_builders.py", "diffstar/sfh_model.py"],
     [("_quenching_kern", K + "quenching_kernels.py"), ("_jax_partial_u_tw_kern", K + "quenching_kernels.py")])
prop("C05", "Main-sequence star formation is a rolling power law of the halo mass",
     "The unquenched star formation rate is baryon fraction times halo mass times an efficiency whose logarithm is linear in log halo mass about the critical mass, with a slope rolling by a sigmoid of width parameter 9 from the low-mass to the high-mass index. "
     "The efficiency at the critical mass is exactly the declared normalisation, and the local slope lies strictly between the two indices.",
     ["inputs"], "all halo histories, times and in-range main-sequence parameters", SAMPLE,
     [K + "main_sequence_kernels.py", K + "history_kernel_builders.py", "diffstar/sfh_model.py"],
     [("_sfr_eff_plaw", K + "main_sequence_kernels.py"), ("sfh_ms_kernel", K + "main_sequence_kernels.py")])
prop("C06", "The star formation history is the floored quenched main sequence, time by time",
     "For every galaxy and any list of times, the SFR at each listed time is the main-sequence rate times the quenching factor, floored at 1e-14, and depends only on that time, not on the other listed times or their number. "
     "It is always at least 1e-14 and never exceeds the larger of the floor and the main-sequence rate.",
     ["inputs"], "all parameters, halo histories and time arrays of any length", SAMPLE,
     ["diffstar/sfh_model.py", K + "history_kernel_builders.py"],
     [("calc_sfh_singlegal", "diffstar/sfh_model.py"), ("_sfh_singlegal_scalar", K + "history_kernel_builders.py")])
prop("C07", "Population calculations equal galaxy-by-galaxy calculations",
     "Every output of the population calls (star formation history, stellar mass, gas mass and gas rate, cumulative mass of tables) for a given galaxy equals the single-galaxy call on that galaxy's own parameters, at every time. "
     "It does not depend on the other galaxies or on the number of galaxies, including when that number equals the number of times.",
     ["inputs"], "populations of any size, any number of times, all parameters", SAMPLE,
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/utils.py", K + "history_kernel_builders.py"],
     [("calc_sfh_galpop", "diffstar/sfh_model.py"), ("calc_mgas_galpop", "diffstar/mgas_model.py"), ("cumulative_mstar_formed_galpop", "diffstar/utils.py")])
prop("C08", "Stellar mass is the trapezoidal time integral of the SFR and never decreases",
     "The stellar mass formed by each table time is the trapezoidal integral, in solar masses, of the tabulated SFR from 0.001 Gyr where the SFR is 1e-14. "
     "Each entry therefore adds exactly one trapezoid to the previous one, so for non-negative SFR and increasing times the mass never decreases, and the mass is linear in the SFR. "
     "The mass returned together with a star formation history is this integral of that history.",
     ["inputs", "histories"], "all time tables of any length and all SFR tables", SAMPLE + " The recurrence must hold at every step of a loop of unbounded length.",
     ["diffstar/utils.py", "diffstar/sfh_model.py"],
     [("cumulative_mstar_formed", "diffstar/utils.py"), ("_cumtrapz_scan_func", "diffstar/utils.py"), ("calc_sfh_singlegal", "diffstar/sfh_model.py")])
prop("C09", "Gas and stars together account for the baryons accreted by the halo",
     "At every table time the gas mass plus the stellar mass formed equals the trapezoidal time integral of baryon fraction times halo accretion rate, started at 0.001 Gyr with a rate of 1e-14. "
     "The reported gas rate is the change of the gas mass over each tabulated time step in solar masses per year, and the stellar history returned with it is the star formation history of the same galaxy.",
     ["inputs", "histories"], "all galaxies, halo histories and time tables of any length", SAMPLE,
     ["diffstar/mgas_model.py", "diffstar/utils.py"],
     [("calc_mgas_singlegal", "diffstar/mgas_model.py"), ("calc_mgas_galpop", "diffstar/mgas_model.py"), ("_jax_get_dt_array", "diffstar/utils.py")])
prop("C10", "Time-step arrays tile the time table",
     "For every increasing table of times, the step attached to each interior time spans between the midpoints to its neighbours, the first step reaches back to the first time minus half of the first gap, and the last step extends beyond the last time by half of the step before it. "
     "All steps are positive, each step begins where the previous one ends, and the two available implementations agree.",
     ["inputs", "histories"], "all time tables of any length of at least three", SAMPLE,
     ["diffstar/utils.py"], [("_jax_get_dt_array", "diffstar/utils.py"), ("_get_dt_array", "diffstar/utils.py")])
prop("C11", "Smoothed formation rate is the lagged mass difference per year",
     "The mass-formation rate over a look-back interval equals the tabulated mass minus the mass interpolated one interval earlier, clipped to be non-negative, divided by the interval in years. "
     "The interpolation is linear in the table and constant beyond its ends; the rate is never negative.",
     ["inputs"], "all increasing time tables, mass tables and positive intervals", SAMPLE,
     ["diffstar/utils.py"], [("compute_fstar", "diffstar/utils.py"), ("_jax_get_dt_array", "diffstar/utils.py")])
prop("C12", "Quenched fractions are probabilities with the declared mass and time trends",
     "For all in-range population parameters, the quenched fraction of centrals and of satellites is strictly between 0 and 1; the satellite fraction is never below the satellite baseline fraction of its mass and peak time. "
     "A galaxy uses the satellite model exactly when its host identifier is not -1, and centrals do not depend on any satellite quantity.",
     ["inputs"], "all masses, times, host masses, infall times and in-range population parameters", SAMPLE,
     [PK + "sfh_pdf_mgash.py", PK + "satquenchpop_model.py", PK + "diffstarpop_mgash.py"],
     [("_frac_quench_cen", PK + "sfh_pdf_mgash.py"), ("_frac_quench_sat", PK + "sfh_pdf_mgash.py"), ("get_qprob_sat", PK + "satquenchpop_model.py")])
prop("C13", "Population means and scatters follow the clipped lines and stay in range",
     "A clipped line is finite everywhere, lies above its lower clip, exceeds its upper clip by at most 2e-4 of the intercept minus the lower clip, and is the declared line in its interior. "
     "For all in-range population parameters and every halo mass the scatter of each galaxy parameter is positive and its covariance diagonal, and each mean is the declared function of mass (and peak time) of its own parameters only.",
     ["inputs"], "all halo masses, peak times and in-range population parameters", SAMPLE,
     [PK + "sfh_pdf_mgash.py", "diffstar/diffstarpop/utils.py"],
     [("smoothly_clipped_line", "diffstar/diffstarpop/utils.py"), ("_get_mean_u_params_mseq", PK + "sfh_pdf_mgash.py"), ("_get_cov_params_mseq_ms_block", PK + "sfh_pdf_mgash.py")])
prop("C14", "Monte Carlo galaxy draws follow the population law, one stream per galaxy",
     "A Monte Carlo draw returns, for each galaxy, one main-sequence and one quenched parameter vector equal to the population mean plus population scatter times standard normal draws, the unquenched vector carrying the never-quenched defaults. "
     "The quenched flag is true exactly when a uniform draw falls below the returned quenched fraction. The four draws of a galaxy come from four different random keys, and population draws use one key per galaxy, so equal keys reproduce equal draws.",
     ["inputs", "histories"], "all random keys, all galaxies, populations of any size", SAMPLE,
     [PK + "diffstarpop_mgash.py", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"],
     [("mc_diffstar_u_params_singlegal_kernel", PK + "diffstarpop_mgash.py"), ("mc_diffstar_u_params_galpop", "diffstar/diffstarpop/mc_diffstarpop_mgash.py")])
prop("C15", "Monte Carlo histories are those of the drawn galaxies",
     "The bounded parameters returned by a Monte Carlo call are the bounding transform of its unbounded draws, and the two returned histories are the star formation histories of those two parameter sets, for the same halo and times. "
     "The population call equals the single-galaxy call, row by row, on that galaxy's own key and inputs.",
     ["inputs", "histories"], "all random keys, haloes, times and population parameters, populations of any size", SAMPLE,
     ["diffstar/diffstarpop/mc_diffstarpop_mgash.py"],
     [("mc_diffstar_sfh_singlegal", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"), ("mc_diffstar_sfh_galpop", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"), ("mc_diffstar_params_galpop", "diffstar/diffstarpop/mc_diffstarpop_mgash.py")])
prop("C16", "Triweight kernels are smooth cumulative distributions with additive bins",
     "The triweight cumulative kernel is 0 more than three widths below the point, 1 more than three widths above, one half at the point, non-decreasing, and symmetric. "
     "The weight of a bin is the difference of the kernel at its edges: never negative, at most 1, additive over adjacent bins, and 1 for a bin that covers the whole kernel. All copies of the kernel in the package agree.",
     ["inputs"], "all points, positive widths and ordered bin edges", SAMPLE,
     ["diffstar/utils.py", "diffstar/diffstarpop/utils.py", "diffstar/diffstarpop/sumstats/diffndhist.py"],
     [("tw_cuml_jax_kern", "diffstar/utils.py"), ("tw_bin_jax_kern", "diffstar/utils.py"), ("_tw_cuml_lax_kern", "diffstar/diffstarpop/sumstats/diffndhist.py")])
prop("C17", "Differentiable histograms conserve, add and average their points",
     "Each bin of the differentiable histogram holds the sum over points of the product over dimensions of the triweight bin weights, so counts are non-negative, at most the number of points, and additive over adjacent bins; the weighted form sums the same weights times each point's value. "
     "The mean relation of stellar on halo mass is the weighted count over the count of each bin, and stays within the range of the data.",
     ["inputs"], "all point sets of any size and dimension, positive widths and bins", SAMPLE,
     ["diffstar/diffstarpop/sumstats/diffndhist.py", "diffstar/diffstarpop/sumstats/smhm.py"],
     [("tw_ndhist", "diffstar/diffstarpop/sumstats/diffndhist.py"), ("tw_ndhist_weighted", "diffstar/diffstarpop/sumstats/diffndhist.py"), ("compute_smhm", "diffstar/diffstarpop/sumstats/smhm.py")])
prop("C18", "Population losses are mean squared differences of weighted histograms",
     "Each population loss is 1000 times the mean squared difference between its predicted and target distributions, hence never negative and zero for a perfect prediction; predicted distributions mix the quenched and main-sequence histories of every galaxy with weights equal to its quenched fraction and complement. "
     "Combined losses are the sums of their parts.",
     ["inputs"], "all population parameters, target data, keys and halo samples of any size", SAMPLE,
     ["diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("loss_mstar_kern_tobs", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"), ("loss_combined_kern", "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py")])
prop("C19", "Covariance and correlation matrices convert back and forth",
     "The correlation matrix of a covariance with positive variances has unit diagonal, is symmetric when the covariance is, and is the covariance divided by the two standard deviations. "
     "Rebuilding the covariance from it and the standard deviations returns the original matrix, for every dimension.",
     ["inputs"], "all matrices of any dimension with positive diagonal", SAMPLE,
     ["diffstar/diffstarpop/utils.py"],
     [("correlation_from_covariance", "diffstar/diffstarpop/utils.py"), ("covariance_from_correlation", "diffstar/diffstarpop/utils.py")])
prop("C20", "The restarting minimiser returns the best of its runs",
     "The restarting minimiser makes at most the allowed number of runs, starts none after a run whose loss is within the tolerance, and returns the point, loss and code of the run with the smallest non-NaN loss. "
     "A run whose random start keeps a NaN gradient after 1000 redraws counts as loss 999.99 at the initial guess with code -1, and that is also the result when every loss is NaN. "
     "The individual-galaxy fitter returns the bounded parameters, loss and code of that result.",
     ["inputs", "histories", "fault_sequences"], "all loss functions, starting points, iteration limits and sequences of failed runs",
     "Tests run one or two well-behaved losses; the statement ranges over every sequence of successful and NaN runs.",
     ["diffstar/fitting_helpers/utils.py", "diffstar/diffstarpop/utils.py", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
     [("minimizer_wrapper", "diffstar/fitting_helpers/utils.py"), ("return_random_pinit", "diffstar/fitting_helpers/utils.py"), ("minimizer", "diffstar/fitting_helpers/utils.py"),
      ("diffstar_fitter", "diffstar/fitting_helpers/diffstar_fitting_helpers.py")], TECHPY, NOTEPY)
prop("C21", "Fit weights ignore low-mass and early target points and favour the latest",
     "The error of a target point is 1, but 1e10 (no weight) where the log mass lies more than the mass cut below its final value, at or below the minimum mass (itself at most half a dex below the final mass), or before the fitting start, and 0.5 where the log mass is within 0.1 of its final value; "
     "rate errors follow the same rule with 0.5 within 0.1 of the highest target rate and 1e10 up to the look-back interval plus 0.01 Gyr. "
     "The target look-back rate is floored at the minimum specific rate times the mass and at a thousandth of its maximum. "
     "The loss data carry these arrays in the order the loss reads them, with a finite eight-value starting point and positive spreads.",
     ["inputs"], "all target histories of any length", SAMPLE,
     ["diffstar/fitting_helpers/diffstar_fitting_helpers.py"], [("get_weights", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"), ("get_loss_data_default", "diffstar/fitting_helpers/diffstar_fitting_helpers.py")], TECHPY, NOTEPY)
prop("C22", "The individual-galaxy fit loss is a non-negative weighted misfit",
     "The loss of an individual fit is 30 times the mean squared weighted log-mass error, plus the mean squared weighted log look-back-rate error, plus the mean square of the weighted specific-rate error clipped to [-1, 1], plus half the squared final log-rate error, plus a sigmoid penalty of 100 on quenching times before the time of the peak rate. "
     "It is never negative, and only the penalty is left when the model reproduces the target. "
     "The model histories are those of the bounded parameters that correspond to the unbounded ones, with rates floored at a tenth of the minimum specific rate times the mass.",
     ["inputs"], "all unbounded parameters and target histories of any length", SAMPLE,
     ["diffstar/fitting_helpers/diffstar_fitting_helpers.py"], [("loss_default_clipssfrh", "diffstar/fitting_helpers/diffstar_fitting_helpers.py")])
prop("C23", "Fit output columns line up with their header",
     "Each fit output row has exactly one value per header column, in the header's order: the galaxy identifier, the bounded best-fit parameters by name to six significant digits, the loss and the success flag; failed fits carry -99 with loss -1 and flag -1 in the same layout. "
     "Collated files store under each column name the values of that column for every row, identifiers and flags as exact integers, and a mismatch between names and columns is rejected. "
     "Reading a collated file back gives every parameter of every galaxy in its place.",
     ["inputs", "histories"], "all galaxies, parameter vectors, losses and numbers of rows", SAMPLE,
     ["diffstar/fitting_helpers/diffstar_fitting_helpers.py", "diffstar/data_loaders/load_smah_data.py"],
     [("get_header", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"), ("get_outline", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"),
      ("get_outline_nofit", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"),
      ("write_collated_data", "diffstar/fitting_helpers/diffstar_fitting_helpers.py"), ("load_fit_sfh", "diffstar/data_loaders/load_smah_data.py")], TECHPY, NOTEPY)
prop("C24", "Data loaders return the requested rows of every requested column",
     "Reading a flat table with a start and end row returns exactly those rows of each requested column, in order, under the column's name, and all columns when none are named. "
     "Extracted merger-tree tables hold in each row the data of the galaxy at that offset from the start row: star formation summed over the metallicity bins of each half (total and in situ), and zeros for galaxies without data. "
     "Halo-fit and simulation loaders return each halo's own parameters (-1 without a fit) and the log mass formed by the rates they return.",
     ["inputs"], "all files, row ranges and column lists", SAMPLE,
     ["diffstar/data_loaders/utils.py", "diffstar/data_loaders/extract_galacticus_sfh_data.py", "diffstar/data_loaders/load_smah_data.py", "diffstar/data_loaders/load_galacticus_sfh.py"],
     [("load_flat_hdf5", "diffstar/data_loaders/utils.py"), ("extract_galacticus_sfh_tables", "diffstar/data_loaders/extract_galacticus_sfh_data.py"),
      ("load_fit_mah", "diffstar/data_loaders/load_smah_data.py"), ("load_galacticus_sfh", "diffstar/data_loaders/load_galacticus_sfh.py")], TECHPY, NOTEPY)
prop("C25", "Merging and selecting parameter sets never mixes names or galaxies",
     "Completing a partial set of parameters keeps every given value under its own name and fills every other name with its default. "
     "Selecting between two parameter sets with a per-galaxy flag returns, for every name and galaxy, the value of the set the flag designates.",
     ["inputs"], "all subsets of names, all values, populations of any size", SAMPLE,
     ["diffstar/diffstarpop/param_utils.py"],
     [("get_all_params_from_varied", "diffstar/diffstarpop/param_utils.py"), ("mc_select_diffstar_params", "diffstar/diffstarpop/param_utils.py")])

GT = "Existing tests check derivatives at best for finiteness at a few points; the statement is an identity between two functions over a continuum of parameters, and JAX rules can disagree with the primal (stopped gradients, untaken branches, custom rules)."
NOTEG = ("The derivative is the one JAX computes on the real function (forward and reverse mode traced to a jaxpr on each run) and is proved equal to the symbolic derivative of the declared model. "
         "Stated away from points where the model has a kink (floors, ties of clipped values). Trusted: JAX tracing, the VC generator and its symbolic differentiation, z3; floats read as reals.")
prop("C26", "Galaxy model derivatives are those of the declared model",
     "For every galaxy, the forward-mode and reverse-mode derivatives of the star formation history with respect to every galaxy parameter, the halo parameters and the baryon fraction equal the derivatives of the declared model. "
     "The derivative of the stellar mass is the time integral of the derivative of the rate, and a galaxy's history has zero derivative by another galaxy's parameters. "
     "The bounding transforms of the galaxy parameters have the derivatives of the declared maps, defined everywhere, and Jacobians of inverse maps are inverse to each other.",
     ["inputs"], "all in-range parameters, halo parameters and times away from the kinks of the model; populations of any size", GT,
     ["diffstar/sfh_model.py", "diffstar/defaults.py", K + "history_kernel_builders.py", K + "main_sequence_kernels.py", K + "quenching_kernels.py", "diffstar/utils.py"],
     [("calc_sfh_singlegal", "diffstar/sfh_model.py"), ("calc_sfh_galpop", "diffstar/sfh_model.py"), ("get_bounded_diffstar_params", "diffstar/defaults.py")], note=NOTEG)
prop("C27", "Monte Carlo population draws are differentiable in the population parameters",
     "For a fixed random key, the derivative of every drawn galaxy parameter and of the quenched fraction by every population parameter equals the derivative of the declared mean and covariance model with the underlying standard normal draws held fixed. "
     "Star formation histories of the population follow by the chain rule through each galaxy's own parameters. "
     "The bounded and unbounded population transforms and the triweight histograms have the derivatives of their declared forms.",
     ["inputs"], "all in-range population parameters, halo properties and random keys; populations of any size", GT,
     ["diffstar/diffstarpop/mc_diffstarpop_mgash.py", PK + "sfh_pdf_mgash.py", PK + "defaults_mgash.py", PK + "satquenchpop_model.py"],
     [("mc_diffstar_params_galpop", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"), ("mc_diffstar_sfh_galpop", "diffstar/diffstarpop/mc_diffstarpop_mgash.py"),
      ("get_bounded_diffstarpop_params", PK + "defaults_mgash.py")], note=NOTEG)
LKF = "diffstar/diffstarpop/loss_kernels/mstar_ssfr_loss_mgash_anyz.py"
prop("C28", "Loss gradients are the derivatives of the losses, in parameter order",
     "For every parameter vector and data set, the value returned by each population-loss gradient wrapper is the loss, and the k-th entry of its gradient is the derivative of that loss by the k-th population parameter; combined losses have the gradient of the sum. "
     "The gradient of the individual-galaxy fit loss is, entry by entry, the derivative of that loss by the corresponding unbounded galaxy parameter. "
     "Prediction wrappers hand the flat vector to the prediction in the same order.",
     ["inputs"], "all parameter vectors and data sets, any number of epochs, bins, galaxies and times; away from ties of clipped values", GT,
     [LKF, "diffstar/fitting_helpers/diffstar_fitting_helpers.py"],
     [("loss_mstar_kern_tobs_grad_wrapper", LKF), ("loss_combined_3loss_wrapper", LKF), ("loss_grad_default_clipssfrh_np", "diffstar/fitting_helpers/diffstar_fitting_helpers.py")], note=NOTEG)

prop("C29", "The Adam fallback returns its best finite step",
     "One Adam descent records exactly the steps before the first whose parameters, loss or gradient are not all finite, and returns the recorded point and loss of the smallest recorded loss, or loss 999.99 and the point itself when the first step already fails. "
     "Warm-up descents chain from best point to best point with their own step size (five times the final one by default) and step count, and the final descent starts from their result, or from the initial guess if that is not finite. "
     "The flag is 1 exactly when every step of the final descent was made.",
     ["inputs", "fault_sequences"], "all losses, starting points, step sizes, numbers of steps and warm-ups; failures at any step",
     "Tests run a well-behaved loss; the statement ranges over every position and kind of non-finite step.",
     ["diffstar/fitting_helpers/utils.py"],
     [("jax_adam_wrapper_v2", "diffstar/fitting_helpers/utils.py"), ("_jax_adam_wrapper", "diffstar/fitting_helpers/utils.py")], TECHPY, NOTEPY)


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(HERE, "props")) if f.startswith("c") and f[1:3].isdigit()}
    checks = []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            if p["id"] not in have:
                continue
            assert len(p["title"]) <= 80, p["title"]
            assert len([s for s in p["statement"].split(". ") if s.strip()]) <= 3, p["id"]
            f.write(json.dumps(q) + "\n")
            checks.append(dict(
                property=p["id"], quick_cmd=f"./run_check.sh {p['id']}", thorough_cmd=f"./run_check.sh {p['id']} --tier thorough",
                technique=p["_tech"] or TECH, level="proof", level_note=p["_note"] or NOTE))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
             notes="Contracts are in props/, the verification-condition generators and provers in vc/. No hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks")


if __name__ == "__main__":
    main()
