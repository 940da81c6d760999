"""C12: DiffstarPop means and covariances follow the model and stay valid."""
import jax
import numpy as np

from checks.common import any_size
from checks.popcommon import PB, bounded_pop, pop_nt, pop_r32
from diffstar.diffstarpop.kernels.defaults_mgash import SFH_PDF_QUENCH_PARAMS
from diffstar.diffstarpop.kernels.diffstarpop_mgash import _diffstarpop_means_covs, _diffstarpop_means_covs_cen
from diffstar.diffstarpop.kernels.sfh_pdf_mgash import BOUNDING_VALS, _sfh_pdf_scalar_kernel
from diffstar.diffstarpop.utils import smoothly_clipped_line
from pbt import gen, ref
from pbt.core import all_finite, check, close, prop_test

NG = 10
MEAN_CLIP = ["mean_ul", "mean_uh"], ["mean_ul", "mean_uh", "mean_uqs", "mean_udrop", "mean_urej"]

_kern = jax.jit(jax.vmap(_sfh_pdf_scalar_kernel, in_axes=(None, 0, 0)))
_full = jax.jit(jax.vmap(_diffstarpop_means_covs, in_axes=(None, 0, 0, 0, 0, 0)))
_cen = jax.jit(jax.vmap(_diffstarpop_means_covs_cen, in_axes=(None, 0, 0)))


def build(r, ng):
    return dict(p=bounded_pop(r), logmp0=[r.uf_or([12.5, 13.0], 8.0, 16.0, 0.1) for _ in range(ng)],
                tpeak=[r.uf_or([13.8], 0.3, 14.0, 0.1) for _ in range(ng)])


cases = gen.case_of(lambda r: build(r, NG))


def _verify(out, want, ctx, what):
    mu_ms, mu_q, c_ms, c_qms, c_qq = [np.asarray(x, float) for x in out]
    all_finite(mu_ms, what + ": main-sequence means")
    all_finite(mu_q, what + ": quenched means")
    tol = dict(rtol=ctx.tol(1e-9, 2e-3), atol=ctx.tol(1e-9, 2e-3))
    close(mu_ms, want["mu_ms"].T, what + ": main-sequence means", **tol)
    close(mu_q, want["mu_q"].T, what + ": quenched means", **tol)
    # the clip is smooth: near its upper end it overshoots by at most 1.4e-4 of the range
    over = lambda lo, hi: 2e-4 * (hi - lo)
    eps = ctx.tol(1e-12, 2e-5)
    cols = dict(mean_ul=2, mean_uh=3, mean_uqs=5, mean_udrop=6, mean_urej=7)
    for arr, names in ((mu_ms, MEAN_CLIP[0]), (mu_q, MEAN_CLIP[1])):
        for n in names:
            lo, hi = ref.CLIP[n]
            x = arr[:, cols[n]]
            check(np.all((x >= lo - eps * 10) & (x <= hi + eps * 10 + over(lo, hi))), lambda: f"{what}: {n} outside its bounding range: {x}")
    sd = np.concatenate([want["sd_ms"][None], want["sd_q"][None, :4], want["sd_q"][None, 4:]])
    names = [["std_ulgm", "std_ulgy", "std_ul", "std_uh"]] * 2 + [["std_uqt", "std_uqs", "std_udrop", "std_urej"]]
    for k, c in enumerate((c_ms, c_qms, c_qq)):
        nm = ["main-sequence block", "quenched MS block", "quenching block"][k]
        check(c.shape == (c.shape[0], 4, 4), f"{what}: {nm} covariance shape {c.shape}")
        all_finite(c, f"{what}: {nm} covariance")
        dg = np.diagonal(c, axis1=1, axis2=2)
        off = c - dg[:, :, None] * np.eye(4)
        check(np.all(off == 0), f"{what}: {nm} covariance is not diagonal")
        check(np.all(dg > 0), f"{what}: {nm} covariance is not positive definite")
        close(np.sqrt(dg), sd[k].T, f"{what}: {nm} standard deviations", rtol=ctx.tol(1e-9, 3e-3), atol=ctx.tol(1e-10, 1e-4))
        for j, n in enumerate(names[k]):
            lo, hi = ref.CLIP[n]
            x = np.sqrt(dg[:, j])
            check(np.all((x >= lo - eps) & (x <= hi + eps + over(lo, hi))), lambda: f"{what}: {n} outside its bounding range: {x}")


@prop_test(cases, quick=350, thorough=12000, mode=("f64", "f32"),
           rule="non-trivial: some slope is zero or some relation is in its clipped regime")
def means_and_covariances_follow_the_model(case, ctx):
    full = pop_nt(case["p"], ctx.mode)
    sub = SFH_PDF_QUENCH_PARAMS._make([getattr(full, k) for k in SFH_PDF_QUENCH_PARAMS._fields])
    m, tp = gen.arr(case["logmp0"], ctx.mode), gen.arr(case["tpeak"], ctx.mode)
    p = pop_r32(case["p"], ctx.mode)
    want = ref.pop_means_covs(p, gen.r32(case["logmp0"], ctx.mode), gen.r32(case["tpeak"], ctx.mode))
    a = _kern(sub, m, tp)
    _verify([np.stack([np.asarray(x) for x in a[2]], 1), np.stack([np.asarray(x) for x in a[3]], 1), *a[4:]], want, ctx,
            "_sfh_pdf_scalar_kernel")
    close(a[0], want["frac_cen"], "central fraction", atol=ctx.tol(1e-10, 2e-4))
    close(a[1], want["frac_sat"], "satellite base fraction", atol=ctx.tol(1e-10, 2e-4))
    z = gen.arr(np.full(len(m), -1.0), ctx.mode)
    h = gen.arr(np.full(len(m), 13.0), ctx.mode)
    for nm, b in (("_diffstarpop_means_covs", _full(full, m, tp, z, h, z)), ("_diffstarpop_means_covs_cen", _cen(full, m, tp))):
        _verify([np.stack([np.asarray(x) for x in b[2]], 1), np.stack([np.asarray(x) for x in b[3]], 1), *b[4:]], want, ctx, nm)
        close(b[0], want["frac_cen"], nm + ": central fraction", atol=ctx.tol(1e-10, 2e-4))
    zero = any(v == 0.0 for k, v in case["p"].items() if k.endswith("_slp"))
    if zero:
        ctx.label("zero slope")
    y = np.concatenate([want["mu_q"][2], want["sd_q"][2]])
    ctx.nontrivial(zero or (np.abs(y - np.clip(y, *ref.CLIP["mean_ul"])) < 0.1).any())


@gen.case_of
def lines(r):
    name = r.choice(list(ref.CLIP))
    lo, hi = ref.CLIP[name]
    slo, shi = PB[[k for k in PB if k.startswith(name) and k.endswith("_slp")][0]] if any(
        k.startswith(name) and k.endswith("_slp") for k in PB) else (-20.0, 20.0)
    w = hi - lo
    y0 = r.choice([None, None, None, lo + 1e-3 * w, hi - 1e-3 * w, lo + 1e-6 * w, hi - 1e-6 * w])
    m = r.choice([None, None, None, 0.0, 1e-12, -1e-12, 1e-6])
    return dict(lo=lo, hi=hi, y0=r.uf(lo + 1e-3 * w, hi - 1e-3 * w) if y0 is None else y0,
                m=r.uf(slo, shi) if m is None else m, x=[r.uf(8.0, 16.0) for _ in range(11)] + [12.5])


@prop_test(lines, quick=900, thorough=30000, mode=("f64", "f32"), rule="non-trivial: the unclipped line leaves the bounding range, or the slope is (nearly) zero")
def clipped_line(case, ctx):
    c = case
    f = lambda v: gen.arr(v, ctx.mode)
    y = np.asarray(smoothly_clipped_line(f(c["x"]), f(12.5), f(c["y0"]), f(c["m"]), f(c["lo"]), f(c["hi"])), float)
    all_finite(y, "smoothly_clipped_line")
    w = c["hi"] - c["lo"]
    eps = ctx.tol(1e-12, 2e-5) * w
    check(np.all((y >= c["lo"] - eps) & (y <= c["hi"] + eps + 2e-4 * w)), lambda: f"clipped line leaves [{c['lo']}, {c['hi']}]: {y}")
    x = gen.r32(c["x"], ctx.mode)
    q = [float(gen.r32(c[k], ctx.mode)) for k in ("y0", "m", "lo", "hi")]
    if q[0] - q[2] > 1e-5 * w and q[3] - q[0] > 1e-5 * w or not ctx.f32:
        want = ref.clipped_line(x, 12.5, *q)
        close(y, want, "smoothly_clipped_line", atol=ctx.tol(1e-9, 1e-3) * w)
    line = q[0] + q[1] * (x - 12.5)
    inside = (line > c["lo"] + 0.05 * w) & (line < c["hi"] - 0.05 * w)
    if c["lo"] + 0.05 * w < c["y0"] < c["hi"] - 0.05 * w:
        close(y[inside], line[inside], "clipped line away from its limits", atol=ctx.tol(1e-9, 1e-4) * w)
    i = np.argsort(c["x"])
    d = np.diff(y[i]) * np.sign(c["m"])
    check(np.all(d >= -2e-4 * w), "clipped line is not monotone in x") if c["m"] else None
    ctx.nontrivial(abs(c["m"]) < 1e-5 or (line > c["hi"]).any() or (line < c["lo"]).any())


@prop_test(lines, quick=40, thorough=100, mode="f64", rule="non-trivial: always")
def published_bounding_ranges(case, ctx):
    got = {k: tuple(float(x) for x in v) for k, v in BOUNDING_VALS._asdict().items()}
    for k, v in ref.CLIP.items():
        check(got.get(k) == v, f"bounding range of {k}: {got.get(k)} != {v}")


any_size("means_and_covariances_of_many_halos", means_and_covariances_follow_the_model, build, lambda r: dict(ng=r.size()), quick=2)
