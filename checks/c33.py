"""C33: the population calibration program saves the best parameters it evaluated."""
import contextlib
import io
import os
import runpy
import sys
import tempfile

import jax.numpy as jnp
import numpy as np

from pbt import gen
from pbt.core import REPO, check, close, prop_test

DIR = os.path.join(REPO, "scripts", "diffstarpop_scripts")
sys.path.insert(0, DIR)
import fit_get_loss_helpers_mgash as H  # noqa: E402
from diffstar.diffstarpop.kernels import defaults_mgash as dm  # noqa: E402
from diffstar.diffstarpop.kernels.params import DiffstarPop_UParams_Diffstarfits_mgash as REGISTRY  # noqa: E402
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as ml  # noqa: E402

SCRIPT = os.path.join(DIR, "fit_mstar_ssfr_pdfs_mgash.py")
U0 = np.array([float(x) for x in dm.DEFAULT_DIFFSTARPOP_U_PARAMS])
NP = len(U0)
LOADERS = ("get_loss_data_pdfs_mstar", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite")
KERNELS = {"mstar": ("loss_mstar_kern_tobs_grad_wrapper", 1), "mstar_ssfr_cen": ("loss_combined_wrapper", 2), "mstar_ssfr_cen_sat": ("loss_combined_3loss_wrapper", 3)}
OTHERS = ("loss_mstar_ssfr_kern_tobs_grad_wrapper",)
SIMS = list(REGISTRY)


@gen.case_of
def runs(r):
    trouble = r.choice(["none", "none", "loss", "grad", "both", "hole", "slit", "slit", "start"])
    nstep = r.integer(1, 25)
    at = [r.uf(0.005, 0.2), r.uf(0.005, 0.2)]
    if trouble == "slit":  # one step of the search, often the last, lands in a narrow region without a loss
        at[0] = max(0.01 * (nstep - 1) * r.uf_or([1.0], 0.7, 1.0, 0.5) + 0.004, 0.0075)
    return dict(kind=r.choice([None, *KERNELS]), start=r.choice(["default", "registry", "file", "previous"]), sim=r.choice(SIMS), seed=r.seed() % 2**31, nstep=nstep, nhalos=r.choice([None, 1, 37, 5000]),
                outname=r.choice([None, "best", "best.v2", "a_b"]), print_loss=r.choice([None, 1, 2, 7]), trouble=trouble, at=at, ripple=r.choice([0.0, 0.0, 1.0, 30.0]),
                scale=r.choice([1.0, 1e-4, 1e4]), offset=r.choice([0.0, 0.0, -5.0, 300.0]), bad=r.choice(["nan", "inf"]))


class Stub:
    """A pure loss of the parameters, with regions where it or its gradient is not finite."""

    def __init__(self, case, start):
        rng = np.random.RandomState(case["seed"])
        self.c = start + rng.uniform(0.02, 0.4, NP) * rng.choice([-1, 1], NP)
        self.w = 10.0 ** rng.uniform(-1, 1, NP)
        self.k = rng.uniform(20, 200, NP)
        self.start, self.case, self.calls = start, case, []
        self.bad = dict(nan=np.nan, inf=np.inf)[case["bad"]]
        d = self.c - start
        self.e = d / np.sum(np.abs(d))  # a step of s in every coordinate towards c moves by s along e

    def value(self, p):
        c = self.case
        x = p - self.c
        loss = c["scale"] * (np.sum(self.w * x**2) + c["ripple"] * np.sum(np.cos(self.k * x) - 1)) + c["offset"]
        grad = c["scale"] * (2 * self.w * x - c["ripple"] * self.k * np.sin(self.k * x))
        s = np.sum(np.sign(self.e) * (p - self.start)) / NP  # typical size of the move
        t = c["trouble"]
        if t in ("loss", "both") and s > c["at"][0] or t == "hole" and 0.3 * c["at"][0] < s < c["at"][0] or t == "slit" and c["at"][0] - 0.007 < s < c["at"][0]:
            loss = self.bad
            if t not in ("hole", "slit"):
                grad = np.full(NP, np.nan)
        if t in ("grad", "both") and s > c["at"][1] or t == "start":
            grad = grad.copy()
            grad[c["seed"] % NP] = self.bad
        return loss, grad

    def __call__(self, name, p, data):
        p64 = np.array(p, float)
        loss, grad = self.value(p64)
        self.calls.append((name, p64, loss, grad, data))
        return jnp.asarray(loss), jnp.asarray(grad)


def _run(case, d, start_arg, stub, out, **over):
    kind = case["kind"] or "mstar"
    argv = ["prog", "-indir", d + "/in/", "-outdir", os.path.join(d, out), "-nstep", str(over.get("nstep", case["nstep"]))]
    for k, flag in (("nhalos", "-nhalos"), ("outname", "-outname"), ("print_loss", "--print_loss"), ("kind", "-loss_type")):
        if case[k] is not None:
            argv += [flag, str(case[k])]
    if start_arg is not None:
        argv += ["--params_path", start_arg]
    loads = []
    old = [(m, k, getattr(m, k)) for m, k in [(H, k) for k in LOADERS] + [(ml, v[0]) for v in KERNELS.values()] + [(ml, k) for k in OTHERS]]
    old_argv = sys.argv
    tokens = {k: (k, np.arange(3.0)) for k in LOADERS}

    def loader(k):
        def f(indir, nhalos, *a, **kw):
            loads.append((k, indir, nhalos))
            return tokens[k], ("plot", k)

        return f

    def kernel(k):
        return lambda u, *data: stub(k, u, data)

    try:
        for m, k, _ in old:
            setattr(m, k, loader(k) if m is H else kernel(k))
        sys.argv = argv
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_path(SCRIPT, run_name="__main__")
    finally:
        sys.argv = old_argv
        for m, k, f in old:
            setattr(m, k, f)
    name, n = KERNELS[kind]
    want = LOADERS[:n]
    nh = case["nhalos"] or 100
    check(sorted(loads) == sorted((k, d + "/in/", nh) for k in want), f"data loaded: {loads}, expected {want} with {nh} halos")
    for k, _, _, _, data in stub.calls:
        check(k == name, f"loss type {kind} is fitted with {k}")
        check(len(data) == n and all(x is tokens[y] for x, y in zip(data, want)), f"loss type {kind}: data passed to the loss are {[x[0] for x in data]}, expected {want}")
    fn = (case["outname"] or "bestfit_diffstarpop_params") + ".npz"
    check(os.listdir(os.path.join(d, out)) == [fn], f"files written: {os.listdir(os.path.join(d, out))}, expected {fn}")
    with np.load(os.path.join(d, out, fn)) as f:
        return {k: np.array(f[k]) for k in f}, os.path.join(d, out, fn)


@prop_test(runs, quick=400, thorough=10000, mode=("f64", "f32"), rule="non-trivial: the best evaluated parameters are neither the first nor the last ones")
def calibration_keeps_the_best(case, ctx):
    rng = np.random.RandomState(case["seed"] ^ 77)
    np.random.seed(case["seed"])
    with tempfile.TemporaryDirectory() as d:
        for sub in ("in", "out", "out2"):
            os.mkdir(os.path.join(d, sub))
        arg, start = None, U0
        if case["start"] == "registry":
            arg, start = "diffstarfits_" + case["sim"], np.array([float(x) for x in REGISTRY[case["sim"]]])
        elif case["start"] != "default":
            arg = os.path.join(d, "start.npz")
            start = (U0 + rng.normal(0, 0.3, NP)).astype("f4" if rng.rand() < 0.5 else "f8")
            np.savez(arg, diffstarpop_params=np.zeros(NP), diffstarpop_u_params=start)
            start = start.astype(float)
        stub = Stub(case, start)
        res, fn = _run(case, d, arg, stub, "out")
        calls = stub.calls
        check(set(res) >= {"diffstarpop_params", "diffstarpop_u_params"}, f"saved fields {sorted(res)}")
        u, b = res["diffstarpop_u_params"].astype(float), res["diffstarpop_params"].astype(float)
        check(u.shape == (NP,) and b.shape == (NP,), f"saved shapes {u.shape} and {b.shape}")
        close(calls[0][1], start, "starting parameters", rtol=2e-7)
        near = [np.all(np.abs(u - p) <= 1e-6 * np.abs(p) + 1e-7) for _, p, *_ in calls]
        check(any(near), f"saved parameters were never evaluated (largest difference from the start {np.max(np.abs(u - start)):.3g}, saved norm {np.linalg.norm(u):.3g})")
        good = [(l, i) for i, (_, p, l, g, _) in enumerate(calls) if np.all(np.isfinite(p)) and np.isfinite(l) and np.all(np.isfinite(g))]
        if good:
            mine = min((l for ok, (_, _, l, _, _) in zip(near, calls) if ok and np.isfinite(l)), default=np.inf)
            best, i = min(good)
            span = max(abs(l) for l, _ in good)
            check(mine <= best + 1e-6 * span, f"saved parameters have loss {mine}, step {i} of {len(calls)} had {best}")
        else:
            check(np.allclose(u, start, rtol=1e-6), "no step was usable, but the saved parameters are not the starting ones")
        exp = dm.get_bounded_diffstarpop_params(dm.DEFAULT_DIFFSTARPOP_U_PARAMS._make(jnp.asarray(res["diffstarpop_u_params"])))
        close(b, np.array([float(x) for x in exp]), "saved bounded parameters", rtol=2e-5, atol=1e-6)
        if case["trouble"] == "none":
            check(len(calls) in (case["nstep"], case["nstep"] + 1), f"{len(calls)} loss evaluations for {case['nstep']} steps")
            if case["ripple"] == 0.0 and case["nstep"] >= 3:
                check(best < calls[0][2], "a smooth loss was not reduced in several steps")
        if case["start"] == "previous":  # a second run continues from the saved file
            again = Stub(case, start)
            res2, _ = _run(case, d, fn, again, "out2", nstep=1)
            close(again.calls[0][1], u, "start of a run from a saved file", rtol=2e-7)
            if np.isfinite(again.calls[0][2]):
                close(res2["diffstarpop_u_params"].astype(float), u, "a single step from a saved file", rtol=2e-7)
    ctx.label(case["trouble"])
    ctx.nontrivial(bool(good) and 1 < min(good)[1] < len(calls) - 1)
