"""Writes properties.jsonl (kept in one place so that edits stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            hook_needed=None,
        ),
    ))


K = "diffstar/kernels/"
DP = "diffstar/diffstarpop/"
FH = "diffstar/fitting_helpers/"
DL = "diffstar/data_loaders/"

prop("C01", "Star formation history equals the Diffstar model definition",
     "For every in-bounds galaxy, halo, time grid, cosmic age and baryon fraction, the star formation history returned for a single galaxy or a population equals fb * Mhalo(t) * efficiency(Mhalo) * quenching(t), floored at the minimum SFR of 1e-14 Msun/yr. "
     "Mhalo(t) is the diffmah history for the supplied halo parameters and present-day age, the log-efficiency is a power law in halo mass whose index rolls from indx_lo to indx_hi across lgmcrit (speed 9 per dex) with value lgy_at_mcrit at lgmcrit, and quenching is the double-triweight drop set by lg_qt, qlglgdt, lg_drop and lg_rejuv.",
     ["inputs", "configurations"], "all in-bounds Diffstar and diffmah parameters, time grids, lgt0, fb; both float precisions",
     "The unit tests freeze a handful of parameter points and compare with stored values or only check finiteness; they cannot cover the 13-dimensional parameter space.",
     ["diffstar/sfh_model.py", K + "history_kernel_builders.py", K + "main_sequence_kernels.py", K + "quenching_kernels.py"],
     [("sfh_ms_kernel x _quenching_kern, floored by lax.cond", K + "history_kernel_builders.py:_sfh_singlegal_scalar")],
     ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal", "calc_mgas_galpop"])

prop("C02", "Star formation histories are always physical",
     "Whatever unbounded Diffstar parameters are supplied, after bounding every SFR is finite, at least the 1e-14 Msun/yr floor, and never exceeds the main-sequence SFR the same galaxy would have without quenching; stellar mass is finite, positive and never decreases with time. "
     "Once the halo reaches its peak-mass time the unquenched SFR stays constant.",
     ["inputs"], "all real unbounded parameters including extreme values, all halo histories and time grids",
     "Tests draw a few Gaussian perturbations around the defaults; extremes and corner combinations are never reached.",
     ["diffstar/sfh_model.py", K + "history_kernel_builders.py", "diffstar/defaults.py", "diffstar/utils.py"],
     [("SFR floor", K + "history_kernel_builders.py:_sfh_singlegal_scalar"), ("sigmoid bounding", "diffstar/defaults.py:get_bounded_diffstar_params")],
     ["calc_sfh_singlegal", "calc_sfh_galpop"])

prop("C03", "Population results equal galaxy-by-galaxy results",
     "Row i of every population-level SFH, stellar-mass or gas computation equals the single-galaxy computation for galaxy i, so reordering, duplicating or dropping galaxies only reorders, duplicates or drops rows. "
     "The SFR at a given time does not depend on which other times are in the grid.",
     ["inputs", "histories"], "all populations of any size, permutations, sub-samples and sub-grids",
     "Tests compare one fixed population with single-galaxy calls for some outputs; index mix-ups that need particular parameter differences, sizes or orders stay invisible.",
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", K + "history_kernel_builders.py", "diffstar/utils.py"],
     [("vmap over galaxies and times", K + "history_kernel_builders.py:_sfh_galpop_kern")],
     ["calc_sfh_galpop", "calc_mgas_galpop", "cumulative_mstar_formed_galpop"])

prop("C04", "Stellar mass formed is the time integral of the SFH",
     "Every stellar mass history equals the cumulative trapezoidal integral of the SFH in Msun (Gyr times Msun/yr times 1e9), starting from the minimum SFR at t = 0.001 Gyr, for any tabulated SFH and any increasing time table. "
     "All entry points (single galaxy, population, return_smh option, gas model, stand-alone integrator) agree, and asking for the mass does not change the SFH.",
     ["inputs"], "all non-negative SFH tables and increasing time tables with first entry >= 0.01 Gyr, of any length >= 2",
     "Tests integrate a few smooth model SFHs; irregular grids, bursts, zeros and short tables are not sampled.",
     ["diffstar/utils.py", "diffstar/sfh_model.py", "diffstar/mgas_model.py"],
     [("padded cumulative trapezoid", "diffstar/utils.py:cumulative_mstar_formed"), ("scan", "diffstar/utils.py:cumtrapz")],
     ["cumulative_mstar_formed", "cumulative_mstar_formed_galpop", "calc_sfh_* with return_smh=True", "calc_mgas_*"])

prop("C05", "Time-averaged SFR (fstar) is the mass formed over the delay window",
     "The time-averaged SFR at time t equals [M*(t) - M*(t - delay)] / delay / 1e9 with M* linearly interpolated on the input grid and held at its first value before the grid starts. "
     "It is never negative, is linear in the input mass history, and never exceeds the largest SFR in the window.",
     ["inputs"], "all stellar mass histories, time grids and positive delays, including delays shorter than a grid step or longer than the history",
     "The test uses one delay on smooth histories and checks only finiteness and positivity.",
     ["diffstar/utils.py"],
     [("interp and difference", "diffstar/utils.py:compute_fstar")], ["compute_fstar"])

prop("C06", "Gas and stars account for all accreted baryons",
     "At every time the returned gas mass plus the stellar mass formed equals the time integral of fb times the halo accretion rate, and the returned net gas rate is the time derivative of the returned gas mass in Msun/yr on the same grid. "
     "This holds for single galaxies and populations, for any fb and present-day age, and the SFH and stellar mass returned with it equal those of the SFH model.",
     ["inputs", "configurations"], "all galaxies, halos, time grids, fb, lgt0",
     "The tests compare pop with single and stored shapes; a consistent bookkeeping error passes.",
     ["diffstar/mgas_model.py", "diffstar/utils.py"],
     [("integral of fb*dMh/dt minus smh", "diffstar/mgas_model.py:calc_mgas_singlegal"), ("dt array", "diffstar/utils.py:_jax_get_dt_array")],
     ["calc_mgas_singlegal", "calc_mgas_galpop"])

prop("C07", "Diffstar parameter bounding is an order-preserving bijection onto bounds",
     "Mapping unbounded Diffstar parameters to bounded ones always lands inside the documented bounds (lgmcrit 9..13.5, lgy_at_mcrit -12..-8, indx_lo 0..5, indx_hi -5..0, lg_qt 0.1..2, qlglgdt -3..-0.01, lg_drop -3..0), with lg_rejuv always between lg_drop and 0. "
     "It is strictly increasing parameter by parameter, keeps field names and order, and the inverse mapping recovers the original values in both directions, for scalars and for arrays of galaxies.",
     ["inputs"], "all in-bounds parameters and all unbounded parameters short of float saturation",
     "Round-trip tests use the defaults and a few random draws in float32 with loose tolerance.",
     ["diffstar/defaults.py", K + "main_sequence_kernels.py", K + "quenching_kernels.py", "diffstar/utils.py"],
     [("sigmoid / inverse sigmoid", "diffstar/utils.py:_sigmoid"), ("rejuvenation floor coupled to drop", K + "quenching_kernels.py:_get_bounded_lg_rejuv")],
     ["get_bounded_diffstar_params", "get_unbounded_diffstar_params"])

prop("C08", "DiffstarPop parameter bounding and override by name",
     "Mapping unbounded DiffstarPop parameters to bounded ones always lands inside the published bounds of that same parameter, is strictly increasing, depends only on the parameter of the same name, and is inverted by the unbounding map. "
     "Overriding any subset of parameters by name changes exactly those entries and leaves every other one at its default, whatever the order of the subset.",
     ["inputs", "configurations"], "all unbounded values of all 88 parameters; all subsets of names in any order",
     "Tests check the round trip at the defaults and a few draws, and override with one or two fixed subsets.",
     [DP + "kernels/defaults_mgash.py", DP + "kernels/sfh_pdf_mgash.py", DP + "kernels/satquenchpop_model.py", DP + "param_utils.py"],
     [("vmap sigmoid over bounds by field", DP + "kernels/sfh_pdf_mgash.py:get_bounded_sfh_pdf_params"), ("_replace by name", DP + "param_utils.py:get_all_params_from_varied")],
     ["get_bounded_diffstarpop_params", "get_unbounded_diffstarpop_params", "get_all_diffstarpop_u_params", "get_all_params_from_varied"])

prop("C09", "Quenching events have the documented timing and depth",
     "Relative to the same galaxy without quenching, the SFR is unchanged before log time lg_qt - dt/2, reaches its minimum of 10**lg_drop exactly at lg_qt, and from lg_qt + dt/2 onward stays at 10**lg_rejuv, where dt = 10**qlglgdt dex is the event's total duration. "
     "Between these times the multiplicative factor falls monotonically and then rises monotonically, symmetric in shape about lg_qt.",
     ["inputs"], "all in-bounds quenching parameters and times",
     "Tests look at the default event and check only finiteness or loose limits on fixed grids.",
     [K + "quenching_kernels.py", K + "history_kernel_builders.py"],
     [("double triweight kernel", K + "quenching_kernels.py:_jax_partial_u_tw_kern")],
     ["calc_sfh_singlegal ratio quenched / unquenched", "_quenching_kern", "_quenching_kern_u_params"])

prop("C10", "Main-sequence efficiency depends only on halo mass and scales with fb",
     "For an unquenched galaxy, SFR divided by fb times halo mass is a function of halo mass alone: two galaxies with the same efficiency parameters have the same efficiency whenever their halo masses agree, whatever their history or age. "
     "It equals 10**lgy_at_mcrit at lgmcrit, shifting lgy_at_mcrit by d rescales the SFR by 10**d, shifting all masses and lgmcrit together leaves efficiency unchanged, SFR is proportional to fb, and far below (above) lgmcrit the log-log slope tends to indx_lo (indx_hi).",
     ["inputs", "configurations"], "all in-bounds main-sequence parameters, halos, fb, lgt0",
     "Tests check finiteness and monotonic inequalities for a few parameters; scaling relations over the whole space are not tested.",
     [K + "main_sequence_kernels.py", "diffstar/sfh_model.py"],
     [("rolling power law", K + "main_sequence_kernels.py:_sfr_eff_plaw"), ("Mgas*efficiency", K + "main_sequence_kernels.py:sfh_ms_kernel")],
     ["calc_sfh_singlegal", "calc_sfh_galpop"])

prop("C11", "Quenched fractions are valid probabilities with the right dependences",
     "The quenched fraction of every galaxy lies in [0, 1] for any in-bounds DiffstarPop parameters; for centrals (upid = -1) it equals the central fraction at that halo mass and peak time and ignores all infall information. "
     "For any other upid it equals the satellite base fraction plus a share of the remaining unquenched fraction, that share rising monotonically with time since infall from zero to a plateau set by sub/host mass ratio and host mass, so infall never lowers it below the base.",
     ["inputs"], "all in-bounds DiffstarPop parameters, halo masses, peak times, upids and infall histories",
     "Tests check range at a few default or random points; monotonicity and central/satellite separation over the space are not covered.",
     [DP + "kernels/satquenchpop_model.py", DP + "kernels/sfh_pdf_mgash.py", DP + "kernels/diffstarpop_mgash.py"],
     [("delta_qprob * (1 - qprob_cen)", DP + "kernels/satquenchpop_model.py:get_qprob_sat"), ("upid switch", DP + "kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel")],
     ["frac_q of mc_diffstar_params_singlegal / _galpop", "get_qprob_sat"])

prop("C12", "DiffstarPop means and covariances follow the model and stay valid",
     "For any in-bounds DiffstarPop parameters, halo mass and peak time, including zero slopes, the predicted means of the unbounded Diffstar parameters and the block covariances are finite and follow the published model: rolling-index mass relations for critical mass, efficiency and quenching time (plus its peak-time shift), and smoothly clipped lines elsewhere. "
     "Clipped means and standard deviations stay within their bounding ranges (to the clip's smoothing width, under 2e-4 of the range) and every covariance is symmetric, diagonal and positive definite.",
     ["inputs"], "all in-bounds values of the 79 mean/scatter/shift parameters, log halo masses 8-16, peak times",
     "Tests evaluate defaults and a few random draws for finiteness; zero slopes and clipped regimes are measure-zero for them.",
     [DP + "kernels/sfh_pdf_mgash.py", DP + "utils.py", DP + "kernels/diffstarpop_mgash.py"],
     [("smoothly_clipped_line", DP + "utils.py:smoothly_clipped_line"), ("Mcrit_model", DP + "kernels/sfh_pdf_mgash.py"), ("covariance_from_correlation", DP + "utils.py")],
     ["_sfh_pdf_scalar_kernel", "_diffstarpop_means_covs"])

prop("C13", "Monte Carlo galaxies follow the model distribution",
     "Over many galaxies, the unbounded parameters drawn for each sequence are Gaussian with the model's mean and covariance for each galaxy's own halo, the main-sequence and quenched draws and their blocks are mutually independent, different galaxies are independent even with identical inputs, and the quenched flag is true with exactly the returned quenched fraction, independently of the draws. "
     "Main-sequence galaxies carry the fixed no-quenching parameters.",
     ["inputs", "histories"], "all DiffstarPop parameters, populations and random keys",
     "Tests check shapes and finiteness of draws, not their distribution, except for rough averages at defaults.",
     [DP + "kernels/diffstarpop_mgash.py", DP + "mc_diffstarpop_mgash.py"],
     [("multivariate_normal per block with split keys", DP + "kernels/diffstarpop_mgash.py:mc_diffstar_u_params_singlegal_kernel"), ("per-galaxy key split", DP + "mc_diffstarpop_mgash.py:mc_diffstar_u_params_galpop")],
     ["mc_diffstar_u_params_galpop", "mc_diffstar_u_params_singlegal", "mc_diffstar_params_galpop"])

prop("C14", "Monte Carlo outputs agree with each other for the same random key",
     "With the same key and inputs, repeated calls are identical, and the parameter-only, unbounded-parameter and SFH generators (single galaxy and population) return the same parameters, quenched fraction and flag, the SFHs being exactly those of the returned parameters in the supplied halos, cosmic age and fb. "
     "Galaxy i of a population is the single galaxy drawn with the i-th of the keys split from the population's key. A galaxy's realization does not change when other galaxies' inputs change, and selecting by flag yields, galaxy by galaxy, the quenched parameters where true and main-sequence parameters where false.",
     ["inputs", "histories"], "all DiffstarPop parameters, populations, keys and flags",
     "Tests compare a few outputs at defaults for one key.",
     [DP + "mc_diffstarpop_mgash.py", DP + "kernels/diffstarpop_mgash.py", DP + "param_utils.py"],
     [("shared params call then calc_sfh", DP + "mc_diffstarpop_mgash.py"), ("jnp.where selection", DP + "param_utils.py:mc_select_diffstar_params")],
     ["mc_diffstar_sfh_singlegal", "mc_diffstar_sfh_galpop", "mc_diffstar_params_*", "mc_diffstar_u_params_*", "mc_select_diffstar_params"])

prop("C15", "Differentiable histograms conserve and place weight correctly",
     "Each point's contribution to an N-dimensional bin is the product over dimensions of the triweight kernel integral (half-width 3 sigma) across the bin; bins that tile a region containing all kernels sum to the number of points (or the sum of weights), splitting a bin splits its count, and merging two data sets adds their counts. "
     "Results do not depend on point order, shift with data and bins together, are linear in the weights, and never produce negative counts for non-negative weights.",
     ["inputs"], "all point sets, per-point per-dimension scatters, weights and bins in 1-3 dimensions",
     "The tests use a few random Gaussian point sets with equal scatter.",
     [DP + "sumstats/diffndhist.py", DP + "utils.py", "diffstar/utils.py"],
     [("triweight CDF difference", DP + "sumstats/diffndhist.py:_tw_bin_weight_lax_kern"), ("product over dims, sum over points", DP + "sumstats/diffndhist.py:_tw_ndhist_kern")],
     ["tw_ndhist", "tw_ndhist_weighted", "tw_bin_jax_kern", "tw_cuml_jax_kern"])

prop("C16", "Stellar-to-halo mass relation is the weighted mean per halo-mass bin",
     "In every halo-mass bin reached by at least one galaxy's kernel, the returned value is the kernel-weighted mean of log stellar mass of those galaxies, so it lies between the smallest and largest contributing value, is constant for constant input, shifts with log stellar mass, and is unaffected by duplicating or reordering galaxies or by galaxies whose kernel does not reach the bin.",
     ["inputs"], "all samples of halo and stellar masses, positive scatters and increasing bins",
     "The test runs one synthetic sample and compares loosely with a numpy average.",
     [DP + "sumstats/smhm.py", DP + "sumstats/diffndhist.py"],
     [("ratio of weighted histograms", DP + "sumstats/smhm.py:compute_smhm")], ["compute_smhm"])

prop("C17", "Gradients are finite and match finite differences",
     "Derivatives of the SFH, stellar mass and gas history with respect to unbounded Diffstar parameters and halo parameters, and of DiffstarPop predictions and losses with respect to unbounded DiffstarPop parameters, are finite everywhere (including galaxies at the SFR floor, saturated parameters and zero slopes) and equal the numerical derivative of the same output.",
     ["inputs"], "all unbounded parameters, halos and time grids; all DiffstarPop parameters away from the few non-smooth points of the model",
     "Tests check that gradients are finite at a few points; correctness against finite differences and corner cases are untested.",
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", K + "history_kernel_builders.py", DP + "kernels/sfh_pdf_mgash.py", DP + "mc_diffstarpop_mgash.py", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("pure JAX kernels", K + "history_kernel_builders.py"), ("value_and_grad wrappers", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py")],
     ["jax.grad of calc_sfh_*, calc_mgas_*, mc_diffstar_sfh_*, loss_*_grad_wrapper"])

prop("C18", "Predicted mass and sSFR distributions are normalised mixtures",
     "The predicted stellar-mass distribution at each observation is the kernel histogram of log stellar mass at the observation time over all halos, counting each halo once as main-sequence with weight 1 - fq and once as quenched with weight fq; it is non-negative, sums to one and does not depend on halo order. "
     "The predicted sSFR distributions use the joint mass-sSFR histogram (sSFR clipped at 1e-12 per yr), mixed over halo-mass bins with the supplied halo counts, restricted to the requested stellar-mass bins, and each sums to one.",
     ["inputs"], "all DiffstarPop parameters, halo samples, observation times, bins and halo-mass mixtures",
     "Tests evaluate the stored regression data set only and check finiteness or loose values.",
     [DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("weighted concatenation of both sequences", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_kern_tobs"), ("einsum over halo pdf", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py:mstar_ssfr_kern_tobs")],
     ["get_pred_mstar_data_wrapper", "get_pred_mstar_ssfr_data_wrapper", "get_pred_mstar_ssfr_sat_data_wrapper"])

prop("C19", "DiffstarPop losses measure distance to the target and combine additively",
     "Each loss equals 1000 times the mean squared difference between the predicted and target distributions, so it is zero exactly when the target is the prediction and positive otherwise; combined losses equal the sum of their parts. "
     "Every gradient wrapper returns the same loss value as the plain loss together with the gradient in parameter order, for centrals and satellites alike.",
     ["inputs"], "all DiffstarPop parameters, halo samples and targets",
     "Tests evaluate one stored data set and check that loss and gradients are finite or non-zero.",
     [DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("_mse * 1000", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py:loss_mstar_kern_tobs"), ("sum of losses", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py:loss_combined_3loss_kern")],
     ["loss_mstar_kern_tobs", "loss_mstar_ssfr_kern_tobs", "loss_mstar_ssfr_sat_kern_tobs", "loss_combined_*", "*_grad_wrapper"])

prop("C20", "The Diffstar fitter returns what it reports and recovers model galaxies",
     "For any target SFH the fitter returns in-bounds Diffstar parameters whose loss, re-evaluated from scratch on the same target, equals the loss it reports, and is no worse than the loss at its own starting guesses. "
     "When the target was generated by the model itself with typical parameters, the fitted history reproduces the target stellar mass history closely.",
     ["inputs", "configurations"], "target SFHs generated by the model or arbitrary positive tables, all halos, cosmologies and fitter settings",
     "The tests fit one or two model galaxies and check only that the loss is small or finite.",
     [FH + "diffstar_fitting_helpers.py", FH + "utils.py"],
     [("minimizer_wrapper over loss_default_clipssfrh then bounding", FH + "diffstar_fitting_helpers.py:diffstar_fitter")],
     ["diffstar_fitter"])

prop("C21", "Restarting minimiser survives bad starts and keeps the best fit",
     "However the loss or its gradient misbehaves (NaN or infinite values on any restarts, arbitrarily large finite losses), the restarting minimiser never returns NaN: it returns the parameters and loss of the best finite run with success 1, and only if no run gave a finite loss does it return the initial guess with success -1. "
     "It stops before the allowed number of restarts only when the best loss so far is within tolerance.",
     ["fault_sequences", "inputs"], "all finite sequences of good runs, NaN losses and NaN-gradient starts; all tolerances and restart limits",
     "Tests minimise one smooth quadratic; no failure sequence is exercised.",
     [FH + "utils.py"],
     [("list of runs, nanargmin", FH + "utils.py:minimizer_wrapper"), ("redraw on NaN gradient", FH + "utils.py:return_random_pinit")],
     ["minimizer_wrapper", "return_random_pinit"],
     [("loss_best_list", "loss of each restart", FH + "utils.py:minimizer_wrapper")])

prop("C22", "Gradient-descent fallback reports the best step and its failures",
     "The Adam-based optimiser takes the steps of Adam with the requested step size and returns the parameters with the lowest loss among all of them, that loss, and the per-step loss and parameter history, each recorded loss being the loss of the recorded parameters. "
     "If a NaN or infinity is met it stops there, returns only the steps before it and says the fit did not terminate; the L-BFGS-B driver reports success 1 when L-BFGS-B succeeds with a finite loss, 0 when only the Adam fallback finishes and -1 when the fallback meets NaN or infinity.",
     ["fault_sequences", "inputs"], "all differentiable losses, starting points, step counts and warm-up settings, with NaN or infinity met at any step",
     "Tests run one quadratic; no NaN is injected.",
     [FH + "utils.py"],
     [("step loop with finite check", FH + "utils.py:_jax_adam_wrapper"), ("warm-up and terminate flag", FH + "utils.py:jax_adam_wrapper_v2"), ("fallback", FH + "utils.py:minimizer")],
     ["jax_adam_wrapper_v2", "minimizer"])

prop("C23", "Fit targets and weights describe the input history and exclude cut snapshots",
     "The fitting target holds the stellar mass, floored SFR and time-averaged SFR of the input table for any cosmology and fitter settings, with sSFR floored as configured and the averaged SFR kept within a factor 1000 of its maximum; the starting guess and its errors are finite and in bounds. "
     "Snapshots earlier than the minimum fit time, below the mass threshold (or half a dex below the final mass if that is lower) or more than the allowed dex below the final mass never influence the mass, SFR and averaged-SFR residuals, and no averaged-SFR snapshot earlier than the averaging delay does; all other snapshots count. A history made by the model has zero loss at its own parameters where no floor is active.",
     ["inputs", "configurations"], "all target SFH tables, halos, cuts and delays",
     "Tests build the loss data for one galaxy and check shapes.",
     [FH + "diffstar_fitting_helpers.py"],
     [("get_weights mask", FH + "diffstar_fitting_helpers.py:get_weights"), ("targets", FH + "diffstar_fitting_helpers.py:get_loss_data_default")],
     ["get_loss_data_default", "get_weights", "loss_default_clipssfrh"])

prop("C24", "Fit results survive the write, collate and load pipeline",
     "Writing fit results for any mix of fitted and failed galaxies as text lines, collating them and writing the HDF5 catalogue preserves every galaxy's id, eight parameters, loss and success flag in the column of the same name and in the same order, to the written precision, with failed galaxies marked by the fill value and success -1. "
     "The catalogue can be read back by the package's own loader, which returns each galaxy's main-sequence and quenching parameters.",
     ["inputs", "histories"], "all ids, parameter values, losses, mixes of failures and numbers of galaxies (including one)",
     "Tests check the header or one line in isolation; no round trip through the catalogue is run.",
     [FH + "diffstar_fitting_helpers.py", DL + "load_smah_data.py", DL + "utils.py"],
     [("get_header / get_outline / get_outline_nofit / write_collated_data", FH + "diffstar_fitting_helpers.py"), ("load_fit_sfh", DL + "load_smah_data.py")],
     ["get_header", "get_outline", "get_outline_nofit", "write_collated_data", "load_fit_sfh", "load_flat_hdf5"])

prop("C25", "Catalogue slices are exact and unfitted halos are flagged",
     "Loading rows istart to iend of a flat HDF5 file returns exactly those rows of exactly the requested columns, so consecutive blocks concatenate to the whole file. "
     "Loading diffmah fits keeps fitted halos' parameters and returns their present-day halo mass at the given cosmic age, while every halo with negative loss or too few fitted points has all its parameters and its reported loss set to -1 and still gets finite present-day mass, whichever block it is loaded in.",
     ["inputs", "configurations"], "all file contents, block boundaries, key subsets, fit-quality patterns and ages",
     "Tests that exist need private data files and are skipped or use one tiny file.",
     [DL + "utils.py", DL + "load_smah_data.py"],
     [("hdf slicing", DL + "utils.py:load_flat_hdf5"), ("no-fit mask", DL + "load_smah_data.py:load_smdpl_diffmah_fits")],
     ["load_flat_hdf5", "load_smdpl_diffmah_fits", "load_precomputed_diffmah_fits"])

prop("C26", "Simulation loaders return consistent histories with the right units",
     "Each simulation loader returns, for every galaxy in file order, its id, its SFH exactly as stored, the cosmic times, and the base-10 log of the stellar mass formed by integrating that SFH on those times. "
     "Loaders that also return halo histories return a non-decreasing log halo mass (converted from h units for TNG, with unresolved early masses set to zero in log for SMDPL) whose last entry is the returned present-day mass. The stellar-to-halo-mass target loader returns the stored mass bins and stellar masses.",
     ["inputs"], "all stored SFHs and halo histories, galaxy types and file contents",
     "These loaders read private data files, so no existing test runs them.",
     [DL + "load_smah_data.py"],
     [("np.load + cumulative_mstar_formed_galpop", DL + "load_smah_data.py"), ("maximum.accumulate", DL + "load_smah_data.py:load_tng_data")],
     ["load_bolshoi_data", "load_bolshoi_small_data", "load_tng_data", "load_tng_small_data", "load_mdpl_data", "load_mdpl_small_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data", "umachine_smhm_z0_allhalos"])

prop("C27", "Galacticus extraction keeps every galaxy's mass in every block",
     "Extracting Galacticus galaxies istart to iend gives, for each galaxy in order, the total and in-situ mass formed per time bin summed over metallicities (zero for galaxies without a history), identical to those rows of a full extraction; accretion-history extraction likewise. "
     "The derived SFHs add disk and bulge and divide by the time-bin width, so that integrating them returns the extracted mass, and the written block file reads back the same rows for any block.",
     ["inputs", "configurations"], "all ragged histories, metallicity counts, empty galaxies and block boundaries",
     "The tests need private files or cover only whole-file extraction.",
     [DL + "extract_galacticus_sfh_data.py", DL + "load_galacticus_sfh.py"],
     [("per-galaxy loop", DL + "extract_galacticus_sfh_data.py:extract_galacticus_sfh_tables"), ("dm/dt/1e9", DL + "load_galacticus_sfh.py:load_galacticus_sfh_target_data")],
     ["extract_galacticus_sfh_tables", "extract_galacticus_mah_tables", "load_galacticus_sfh_target_data", "write_galacticus_sfh_data_block", "load_galacticus_sfh_data_block"])

prop("C28", "Every calibrated simulation model is complete, in bounds and usable",
     "For each simulation name in the published registries of calibrated DiffstarPop models, the parameter set has every parameter of the model by name, strictly inside its published bounds, its unbounded counterpart maps back to it, and it is the set calibrated for that simulation. "
     "Generating any population with it gives finite SFHs above the floor and quenched fractions in [0, 1].",
     ["configurations", "inputs"], "all registry entries times all halo populations",
     "Tests check finiteness of stored sets and a single population.",
     [DP + "kernels/params/", DP + "__init__.py"],
     [("registries", DP + "kernels/params/params_diffstarpopfits_mgash.py"), ("per-simulation files", DP + "kernels/params/")],
     ["SIMULATION_FIT_PARAMS", "DiffstarPop_Params_*", "DiffstarPop_UParams_*"])

prop("C29", "Public functions are pure: no mutation, no memory, no container effects",
     "No public model, loss, histogram or fitting-data function changes its input arrays or any module default, and the result of a call never depends on which calls were made before it. "
     "Passing the same values as numpy or JAX arrays, tuples or namedtuples of the documented fields, inside or outside jax.jit, in single or double precision, and whether or not JAX 64-bit mode is on, gives the same result to the precision of the inputs; whole-numbered values passed as integers are refused or give that result too.",
     ["histories", "inputs"], "all interleaved sequences of calls over the public functions with repeated and fresh arguments",
     "Each test calls functions in isolation in one fixed order.",
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/utils.py", DP + "mc_diffstarpop_mgash.py", FH + "diffstar_fitting_helpers.py"],
     [("pure JAX functions", "diffstar/"), ("fresh arrays in get_weights / get_loss_data_default", FH + "diffstar_fitting_helpers.py")],
     ["all public functions"])

prop("C30", "Shared numerical building blocks match their definitions",
     "The time-bin-width routine returns widths of cells bounded by grid midpoints for any increasing real-valued grid of three or more times, identically in its two implementations; linear interpolation with precomputed indices equals ordinary linear interpolation; the sigmoid and its inverse, the polynomial sigmoid, and correlation/covariance conversions match their definitions and invert each other. "
     "Broadcasting scalars with arrays to a common length preserves values, order and type, and rejects incompatible lengths.",
     ["inputs"], "all increasing grids, tables, positive scatters, correlation matrices and mixes of scalars and arrays",
     "Tests use a handful of fixed arrays.",
     ["diffstar/utils.py", DP + "utils.py"],
     [("_jax_get_dt_array / _get_dt_array", "diffstar/utils.py"), ("jax_np_interp", "diffstar/utils.py"), ("correlation_from_covariance", DP + "utils.py"), ("get_1d_arrays", "diffstar/utils.py")],
     ["_jax_get_dt_array", "_get_dt_array", "jax_np_interp", "jax_np_interp_vmap", "sigmoid_poly", "get_1d_arrays", "covariance_from_correlation", "correlation_from_covariance"])

prop("C31", "Parallel catalogue fitting covers every galaxy once with its own data",
     "For any catalogue with at least one galaxy per process, and any number of processes and process timings, the catalogue fitting programs for TNG, Galacticus and UniverseMachine write one catalogue with one row per galaxy, in file order, under the galaxy's own id. "
     "A galaxy is fitted exactly once, to its own star formation history with its own halo parameters, the simulation's times, age and baryon fraction and the fit settings requested on the command line; galaxies without a usable diffmah fit, or (where the program has these limits) below the halo-mass or stellar-mass limit, get the no-fit row instead. "
     "The Galacticus halo-fitting program likewise fits every halo once to the running maximum of its own mass history, extended to the present, skipping those with too short a history. Temporary files are merged and removed, leftovers of an interrupted run have no effect and no other file is touched. "
     "A UniverseMachine subvolume whose halo fits do not have one row per galaxy is refused before anything is fitted or written.",
     ["inputs", "configurations", "schedules"], "all catalogues, numbers of processes, process timings, option values and fit-quality patterns",
     "The programs are never run by the tests: they need MPI and private simulation data.",
     ["scripts/history_fitting_script_TNG_mgash.py", "scripts/galacticus_diffstar_fitter_script.py", "scripts/galacticus_diffstar_fitter_script_mgash.py", "scripts/diffstar_fitting_script_umachine_mgash.py",
      "scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py", FH + "diffstar_fitting_helpers.py", DL + "load_smah_data.py"],
     [("np.array_split of the catalogue over ranks, collation by rank 0", "scripts/galacticus_diffstar_fitter_script.py"), ("row formatting and collation", FH + "diffstar_fitting_helpers.py:write_collated_data"),
      ("no-fit mask", DL + "load_smah_data.py:load_smdpl_diffmah_fits")],
     ["output catalogues of the programs", "arguments of diffstar_fitter / diffmah_fitter"])

prop("C32", "Calibration targets and halo samples match the simulation measurements",
     "For any measurement and halo files (any epochs, halo-mass bins, table sizes, order of the halos, mixture of centrals and satellites, sparse or empty bins), the loaders that prepare the calibration data give one row per epoch and halo-mass bin with enough halos, in order of epoch then mass. "
     "Each row has the requested number of halos drawn only from that epoch, mass bin and galaxy type, without repeats when there are enough, each with its own growth parameters, host id, present-day mass, the epoch's age, a random key of its own and the requested age of the universe and baryon fraction. "
     "The targets are that bin's own measurements: the stellar mass, the normalised stellar-mass distribution, or at the target stellar masses the halo-mass-weighted mixture of the normalised sSFR distributions of that type, with the weights attached to the right rows. "
     "The result is reproducible for a fixed numpy seed, and saving the data to a file and loading it back changes nothing.",
     ["inputs", "configurations"], "all numbers of epochs, mass bins and halos per bin, table sizes, orders of the halos, ages, baryon fractions and seeds",
     "The loaders are never run by the tests: they need simulation files; the tests start from data prepared once.",
     ["scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py", "scripts/diffstarpop_scripts/save_loss_data.py"],
     [("selection of the halos of a row", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py:get_loss_data_pdfs_mstar"), ("weights and targets of the sSFR distributions", "scripts/diffstarpop_scripts/fit_get_loss_helpers_mgash.py:get_loss_data_pdfs_ssfr_central"),
      ("file round trip", "scripts/diffstarpop_scripts/save_loss_data.py:save_loss_data_h5")],
     ["returned tuples of the loaders", "contents of the saved file"])

prop("C33", "Population calibration saves the best parameters it evaluated",
     "For any loss surface, including ones where the loss or its gradient becomes infinite or NaN during the fit, the calibration program ends by saving the parameters with the lowest loss among the points it evaluated that had a finite loss and gradient, with the matching bounded parameters, never values it did not evaluate; if no step was usable it saves the starting point. "
     "It starts from the defaults, the requested published set or the requested file, so a saved result can be continued, takes the requested number of steps, lowers a smooth loss, combines exactly the data sets of the requested loss type with the requested number of halos, and writes only the requested output file.",
     ["inputs", "configurations", "fault_sequences"], "all loss surfaces with a finite loss at the start, option values and starting points",
     "The program is never run by the tests: it needs simulation data.",
     ["scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py"],
     [("best step and its parameters", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py"), ("choice of loss and data", "scripts/diffstarpop_scripts/fit_mstar_ssfr_pdfs_mgash.py")],
     ["saved npz file", "arguments of the loss and of the data loaders"])

prop("C34", "Measurement programs count every fitted galaxy exactly once",
     "For any fitted catalogue, number of files or subvolumes, file-name padding, number of processes and list of redshifts, the programs that measure TNG, Galacticus and UniverseMachine write tables equal to those of the whole catalogue computed at once: at the tabulated time of each redshift and in each halo-mass bin the number of galaxies (all, centrals, satellites), the mean log stellar mass, and their smooth versions, and the distributions of stellar mass and of stellar mass and sSFR (floored at 1e-12/yr). "
     "Only galaxies with a usable halo fit and a successful diffstar fit (success flag 1) count, each once, with the model evaluated at the default age and baryon fraction. "
     "The sampled halos are different fitted galaxies of their bin and redshift, each with its own growth, main-sequence and quenching parameters and host id (-1 for a central), as many as there are up to the limit per part. Temporary files are removed, leftovers have no effect and no other file is touched.",
     ["inputs", "configurations", "schedules"], "all catalogues in which each part has a fitted central and satellite, all partitions into files and processes, redshifts and option values",
     "The programs are never run by the tests: they need MPI, astropy and private simulation data.",
     ["scripts/diffstarpop_scripts/measure_smhm_tng_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py", "scripts/diffstarpop_scripts/measure_smhm_galacticus_script_mpi_mgash.py",
      "scripts/diffstarpop_scripts/smhm_utils_tng_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py", "scripts/diffstarpop_scripts/smhm_utils_galacticus_mgash.py"],
     [("sum over parts by rank 0", "scripts/diffstarpop_scripts/measure_smhm_smdpl_script_mpi_mgash.py"), ("selection of fitted galaxies", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py:load_diffstar_sfh_tables"),
      ("sampled halos", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py:sample_halos")],
     ["smdpl_smhm.h5, smdpl_smhm_samples_haloes.h5 and smdpl_mstar_ssfr.h5"])

prop("C35", "Saved calibration data reload to the same data and losses",
     "The program that saves calibration data writes, for 10 and for 100 halos, one file with the three loss-data tuples (stellar mass, sSFR of centrals, sSFR of satellites), and reading it back gives every value of every tuple, in its order, with the same numbers, shape and type, for NumPy and JAX arrays of any type, scalars, lists and tuples of equal arrays, and ragged lists (element by element, in order). "
     "The losses and gradients evaluated on the reloaded data equal those on the original. A tuple with the wrong number of values is refused, and saving replaces an existing file.",
     ["inputs", "configurations"], "all tuples of the documented lengths with array, scalar, list or ragged-list values (up to 10,000 elements)",
     "The test suite reads files made by this program but never runs it; the layout depends on the kind of every value.",
     ["scripts/diffstarpop_scripts/save_loss_data.py"],
     [("layout by kind of value", "scripts/diffstarpop_scripts/save_loss_data.py:_save_value"), ("reading back", "scripts/diffstarpop_scripts/save_loss_data.py:load_loss_data_h5")],
     ["HDF5 files written", "tuples read back", "loss values"])

prop("C36", "Fit-quality tables average every fitted galaxy once",
     "For any simulation (both UniverseMachine runs, TNG, Galacticus in-situ and in-plus-ex-situ) and any fitted catalogue, the fit-quality program writes, per halo-mass bin and snapshot of the simulation, the mean stellar mass and the mean SFR of the simulated histories and of their fits. Each mean is over all galaxies of the bin with a usable halo fit and a successful diffstar fit, each counted once with its own history and its own fit, whatever the division into files. "
     "The bin is that of the galaxy's own final peak halo mass; fits are the model at the default age and baryon fraction interpolated in log to the snapshots; sSFRs below 1e-12/yr are raised to it, and snapshots without star formation count as zero.",
     ["inputs", "configurations"], "all catalogues, all divisions of UniverseMachine DR1 into subvolumes (the other run has 576), all five simulation names",
     "The program is never run by the tests: it needs private simulation data.",
     ["scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py", "diffstar/data_loaders/load_smah_data.py", "diffstar/data_loaders/load_galacticus_sfh.py"],
     [("sum over subvolumes", "scripts/diffstarpop_scripts/calculate_quality_diffstar_fits_mgash.py:calculate_plot_smdpl_dr1"), ("selection of fitted galaxies", "scripts/diffstarpop_scripts/smhm_utils_smdpl_mgash.py:load_diffstar_sfh_tables")],
     ["diffstar_quality_*.h5"])

prop("C37", "Mapping or scanning a model function equals calling it in a loop",
     "For every model, Monte Carlo, bounding, histogram and loss function, jax.vmap over any set of its arguments (all of them, only the first, or all but the first), jitted or not, and jax.lax.map, give the results of calling the function once per set of arguments, in order and with the same shapes and types. "
     "The gradient with respect to the first argument, mapped with jax.vmap over sets of arguments, likewise equals the gradients computed one at a time.",
     ["inputs", "configurations"], "all in-domain argument sets, mapped subsets of the arguments and transformations",
     "Tests call each function on one set of arguments; code that branches on shapes or values, or that is only finite on the branch taken, passes there and fails when mapped.",
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", DP + "mc_diffstarpop_mgash.py", DP + "sumstats/diffndhist.py", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py", FH + "diffstar_fitting_helpers.py"],
     [("vmap of scalar kernels", K + "history_kernel_builders.py"), ("vmap over observations", DP + "loss_kernels/mstar_ssfr_loss_mgash_anyz.py")],
     ["all traceable public functions"])

prop("C38", "Inputs whose lengths do not belong together are refused",
     "A call in which one per-galaxy, per-snapshot, per-bin or per-observation array has more or fewer entries than the others it belongs to (lengths of two or more, so that no broadcasting is meant), or in which a parameter tuple has too few or too many values, raises an error instead of returning results for some of the galaxies or for mixed-up ones. "
     "A table of fits whose columns do not match the column names is refused and leaves an existing catalogue as it was.",
     ["inputs"], "all public model, Monte Carlo, histogram, fitting and loss functions and all arguments that have to match another one, with one to three entries too many or one too few",
     "Tests only pass consistent inputs; silent truncation or clamped indexing leaves them unaffected.",
     ["diffstar/sfh_model.py", "diffstar/mgas_model.py", "diffstar/utils.py", DP + "mc_diffstarpop_mgash.py", DP + "sumstats/diffndhist.py", FH + "diffstar_fitting_helpers.py"],
     [("shape checks of vmap and broadcasting", K + "history_kernel_builders.py"), ("column check", FH + "diffstar_fitting_helpers.py:write_collated_data")],
     ["errors raised by the public functions"])

prop("C39", "The fit loss is the stated weighted sum of residuals of the model",
     "For any galaxy parameters, halo, times, targets, weights and settings, the loss that the fitter minimises and reports equals: 30 times the mean of ((log stellar mass - target)/weight)^2, plus the mean of ((log averaged SFR - target)/weight)^2, plus the mean of (r/weight)^2 with r the SFR residual in units of the target mass per 1e8 yr clipped to [-1, 1], plus half the squared residual of the last averaged SFR, plus a penalty that rises from 0 to 100 when quenching begins before the target's averaged SFR peaks. "
     "The model histories are those of the halo, cosmology, averaging delay and baryon fraction in the loss data, with the SFR and the averaged SFR floored at a tenth of the sSFR floor. For a tabulated history the targets and weights are those of the table: weight 1, 1/2 within 0.1 dex of the final mass (or of the peak averaged SFR), and none for excluded snapshots.",
     ["inputs", "configurations"], "all parameters in bounds, halos, tables, weights and settings in which no snapshot lies on the edge of a cut",
     "Tests only check that the loss is finite and that a fit reaches a small one.",
     [FH + "diffstar_fitting_helpers.py"],
     [("sum of residuals", FH + "diffstar_fitting_helpers.py:loss_default_clipssfrh"), ("targets and weights", FH + "diffstar_fitting_helpers.py:get_loss_data_default")],
     ["loss_default_clipssfrh", "the loss column of the fit catalogues"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
