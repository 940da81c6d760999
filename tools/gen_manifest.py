"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFM = "generated inputs against an independent numpy reference model"
T = {
    "C01": (REFM, "float64 (1e-9) and float32 comparison with a from-scratch model of the documented equations; the diffmah halo part is modelled too"),
    "C02": ("generated inputs (bounds edges, extreme unbounded vectors) against physical invariants", "invariants only; the value itself is C01's job"),
    "C03": ("metamorphic: population rows against single-galaxy calls, permutations, subsets, sub-grids", "populations of 1-40 galaxies x 1-21 times, incl. sizes where axes could be confused"),
    "C04": ("generated SFH tables against reference trapezoid; differential between entry points", "tables of fixed lengths"),
    "C05": ("generated mass histories against reference formula and bounds", "delays from below the grid spacing to beyond the grid"),
    "C06": (REFM + "; conservation of baryons", "float64 and float32"),
    "C07": ("round trip, bounds, monotonicity, by-name locality on generated vectors", "whole bounded box and unbounded vectors to saturation"),
    "C08": ("round trip, bounds, by-name locality and override on generated vectors", "whole bounded box; every field and random subsets"),
    "C09": ("event-time and depth relations on generated galaxies; reference kernel", "observed through SFR ratios of public calls"),
    "C10": ("metamorphic scaling relations on generated galaxies", "observed through public SFHs and kernels"),
    "C11": (REFM + "; range, monotonicity and independence relations", "in-bounds parameters"),
    "C12": (REFM + "; positive-semidefinite covariance, range relations", "in-bounds parameters incl. zero slopes and pivots at a bound"),
    "C13": ("generated populations, whitened draws, statistical tests beyond 6 sigma", "statistical: detects shifts above the stated power only"),
    "C14": ("differential between generators for the same random key", "exact or round-off agreement"),
    "C15": ("generated point sets against a reference histogram; conservation laws", "1-4 dimensions"),
    "C16": ("generated samples against a reference weighted mean; conservation", "incl. empty bins"),
    "C17": ("autodiff against finite differences at generated points", "float64 finite differences; float32 finiteness"),
    "C18": ("generated loss data against a mixture rebuilt from Monte Carlo outputs", "double- and single-precision inputs"),
    "C19": ("generated loss data: algebra of the losses against the predictions", "double- and single-precision inputs"),
    "C20": ("generated model galaxies fitted; returned loss recomputed; recovery invariants", "recovery thresholds are statistical margins set far from typical"),
    "C21": ("scripted fault injection (NaN, inf, failing starts) against a model of the restart loop", "all outcomes of each start are scripted"),
    "C22": ("generated loss landscapes with injected non-finite values; recomputation of the reported best", "Adam and L-BFGS-B drivers"),
    "C23": ("generated targets against recomputed targets; influence of perturbed snapshots", "cut snapshots found by perturbing the target"),
    "C24": ("round trip: generated fit results through text, collation, HDF5 and loader", "scratch directory"),
    "C25": ("generated HDF5 files against numpy slices", "scratch directory"),
    "C26": ("generated simulation files against numpy reference", "scratch directory; synthetic files in the documented layout"),
    "C27": ("generated ragged Galacticus files against numpy reference; block against whole", "scratch directory"),
    "C28": ("enumerated registry entries times generated populations", "every registry entry, frozen calibrated values"),
    "C29": ("stateful: generated histories of calls with memo of earlier results", "inputs and module constants compared bytewise"),
    "C30": ("generated arrays against numpy definitions and round trips", "float64 and float32"),
    "C31": ("generated catalogues, options and schedules through the programs on simulated MPI ranks, with a recording fitter, against a model of the expected rows and fits", "MPI ranks are threads of one process; the fitter is a recording stand-in with the real signature"),
    "C32": ("generated measurement and halo files through the loaders, against direct recomputation; file round trip", "measurement files are generated in the layout of the repository's measurement scripts"),
    "C33": ("generated loss surfaces with injected non-finite regions through the calibration program, against the record of every evaluation", "the loss and the data loaders are recording stand-ins"),
    "C34": ("generated catalogues, file layouts and options through the programs on simulated MPI ranks, against tables of the whole catalogue computed at once with numpy", "MPI ranks are threads; astropy cosmology, the UniverseMachine reader and the diffsky histogram are stand-ins; the private paths are mapped to a scratch folder"),
    "C35": ("round trip of generated tuples of mixed values through the program and its reader, and differential evaluation of the losses on reloaded data", "the measured data are replaced by generated data (their loaders are decided by C32)"),
    "C37": ("metamorphic: generated sets of arguments through vmap, jit(vmap), lax.map and vmap(grad) against one call per set", "two sets per case; gradients in double precision only"),
    "C38": ("generated calls with one array or tuple of the wrong length, which must raise", "lengths of one (broadcasting) are not judged; any exception counts as a refusal"),
    "C39": (REFM, "targets either unrelated to the model, scattered around it, or built from generated tables"),
    "C36": ("generated catalogues and histories of all five simulations through the program, against means of the whole catalogue computed at once with numpy", "astropy and the UniverseMachine reader are stand-ins; the private paths are mapped to a scratch folder"),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = [
    dict(property=p["id"], quick_cmd=f"./run.py {p['id']} --tier quick", thorough_cmd=f"./run.py {p['id']} --tier thorough",
         technique="property-based testing: " + T[p["id"]][0], level="exploration",
         level_note=T[p["id"]][1] + ". Trusts numpy, h5py, JAX and diffmah as installed; only the generated cases are covered.")
    for p in props if p["id"] in T
]
na = [dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in T]
out = dict(version=1, setup_cmd="./run.py --setup", checks=checks, not_applicable=na,
           notes="No hooks in /repo. known_findings.txt lists repaired defects (suppresses nothing).")
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
