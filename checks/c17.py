"""C17: gradients are finite everywhere and match finite differences."""
import jax
import jax.numpy as jnp
import numpy as np

from checks.common import MahParams
from checks.gradcommon import compare
from checks.popcommon import FIELDS, PB, bounded_pop, key, pop_nt, sub_arrays, subhalo
from diffstar import calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, DEFAULT_DIFFSTAR_U_PARAMS, get_bounded_diffstar_params
from diffstar.diffstarpop import get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params, mc_diffstar_sfh_galpop
from diffstar.diffstarpop.defaults import DEFAULT_DIFFSTARPOP_U_PARAMS
from diffstar.diffstarpop.kernels.diffstarpop_mgash import _diffstarpop_means_covs
from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist_weighted
from diffstar.diffstarpop.sumstats.smhm import compute_smhm
from diffstar.utils import compute_fstar
from pbt import gen
from pbt.core import check, prop_test

NT = 10
U = list(DEFAULT_DIFFSTAR_U_PARAMS._fields)
MAH = list(MahParams._fields)
NAMES = U + MAH
STEP = np.full(13, 1e-6)


def _gal(x, t, lgt0, fb):
    p = get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make([x[i] for i in range(8)]))
    mah = MahParams(*[x[8 + i] for i in range(5)])
    s = calc_sfh_singlegal(p, mah, t, lgt0=lgt0, fb=fb, return_smh=True)
    g = calc_mgas_singlegal(p, mah, t, lgt0=lgt0, fb=fb)
    return jnp.concatenate([s.sfh, s.smh, g.mgash, g.dmgash])


def _scale(f0, t):
    """Size of the terms each output is a difference of (its rounding noise)."""
    sfh, smh, mg, dm = f0.reshape(4, NT)
    acc = np.abs(mg) + smh
    return np.concatenate([sfh, smh, acc, np.abs(dm) + acc.max() / np.gradient(t).min() / 1e9])


_gal_b = jax.jit(jax.vmap(_gal, in_axes=(0, None, None, None)))
_gal_rev = jax.jit(jax.jacrev(_gal))
_gal_fwd = jax.jit(jax.jacfwd(_gal))


def _pop1(x, t, lgt0, fb):
    p = get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make([x[i:i + 1] for i in range(8)]))
    return calc_sfh_galpop(p, MahParams(*[x[8 + i:9 + i] for i in range(5)]), t, lgt0=lgt0, fb=fb)[0]


_pop_rev = jax.jit(jax.jacrev(_pop1))


@gen.case_of
def gal_cases(r):
    typ = r.bool(0.6)
    mah = r.mah_params(True) if typ else [r.uf(9.0, 15.5), r.uf(-0.5, 0.9), r.uf(2.2, 6.0), r.uf(0.1, 2.0), r.uf(1.0, 14.0)]
    if typ:
        u = [r.uf(*gen.TYPICAL[k]) for k in list(gen.TYPICAL)]
        u = dict(b=u)
    else:
        u = dict(u=r.u_params() if r.bool(0.4) else [r.uf(-15.0, 15.0) for _ in range(8)])
    t = sorted(r.uf(0.05, 13.7) for _ in range(NT))
    t = [x + 1e-3 * i for i, x in enumerate(t)]
    return dict(u=u, mah=mah, t=t, **r.cosmology())


def _x(case):
    from pbt import ref

    if "u" in case["u"]:
        u = case["u"]["u"]
    else:
        b = case["u"]["b"]
        u = []
        for k, v in zip(ref.PNAMES, b):
            lo, hi = ref.BOUNDS[k]
            if k == "lg_rejuv":
                lo, hi = b[6], 0.0
                v = lo + (hi - lo) * 0.6 if not lo < v < hi else v
            u.append(float(_inv(k, v, lo, hi)))
    return np.array([*u, *case["mah"]], float)


def _inv(k, v, lo, hi):
    k_, x0 = 0.1, 0.5 * (lo + hi)
    return x0 - np.log((hi - lo) / (v - lo) - 1) / k_


@prop_test(gal_cases, quick=220, thorough=8000, mode="f64", rule="non-trivial: more than 100 derivatives are compared with resolved, non-zero finite differences")
def galaxy_gradients(case, ctx):
    x, t = _x(case), np.array(case["t"])
    a = (t, case["lgt0"], case["fb"])
    rev, fwd = np.asarray(_gal_rev(x, *a)), np.asarray(_gal_fwd(x, *a))
    for nm, j in (("reverse", rev), ("forward", fwd)):
        bad = ~np.isfinite(j)
        check(not bad.any(), lambda: f"non-finite {nm}-mode derivative of output {np.argwhere(bad)[0][0]} "
              f"with respect to {NAMES[np.argwhere(bad)[0][1]]}")
    f = lambda X: _gal_b(X, *a)
    sc = lambda f0: _scale(f0, t)
    n = compare(rev, f, x, STEP, "galaxy outputs (sfh, smh, mgas, dmgas), reverse mode", NAMES, scale=sc)
    compare(fwd, f, x, STEP, "galaxy outputs (sfh, smh, mgas, dmgas), forward mode", NAMES, scale=sc)
    p = np.asarray(_pop_rev(x, *a))
    check(np.isfinite(p).all(), "non-finite derivative of the population SFH")
    compare(p, lambda X: f(X)[:, :NT], x, STEP, "population SFH", NAMES)
    ctx.nontrivial(n > 100)


@prop_test(gal_cases, quick=220, thorough=8000, mode="f32", rule="non-trivial: some derivative with respect to a galaxy parameter is non-zero")
def galaxy_gradients_finite_single_precision(case, ctx):
    x, t = gen.arr(_x(case), "f32"), gen.arr(case["t"], "f32")
    for nm, g in (("reverse", _gal_rev), ("forward", _gal_fwd)):
        j = np.asarray(g(x, t, np.float32(case["lgt0"]), np.float32(case["fb"])))
        bad = ~np.isfinite(j)
        check(not bad.any(), lambda: f"non-finite {nm}-mode derivative of output {np.argwhere(bad)[0][0]} "
              f"with respect to {NAMES[np.argwhere(bad)[0][1]]}")
    ctx.nontrivial((j[:, :8] != 0).any())


P = list(DEFAULT_DIFFSTAR_PARAMS._fields)


def _bgal(x, t, lgt0, fb):
    p = DEFAULT_DIFFSTAR_PARAMS._make([x[i] for i in range(8)])
    mah = MahParams(*[x[8 + i] for i in range(5)])
    return jnp.concatenate([jnp.log10(calc_sfh_singlegal(p, mah, t, lgt0=lgt0, fb=fb)),
                            calc_sfh_singlegal(p, mah, t, lgt0=lgt0, fb=fb, return_smh=True).smh])


_bgal_b = jax.jit(jax.vmap(_bgal, in_axes=(0, None, None, None)))
_bgal_rev = jax.jit(jax.jacrev(_bgal))
_bgal_fwd = jax.jit(jax.jacfwd(_bgal))
_lg = jax.jit(jnp.log10)


@gen.case_of
def event_cases(r):
    p = r.diffstar_params(typical=True)
    p[7] = p[6] + (0 - p[6]) * r.uf(0.1, 0.9, False)
    p[0] = r.uf(11.2, 12.8)
    t = sorted(r.uf_or([1.0, 10.0], 1.5, 13.7, 0.15) for _ in range(NT))
    return dict(p=p, mah=r.mah_params(True), t=[x + 1e-3 * i * (x not in (1.0, 10.0)) for i, x in enumerate(t)],
                i=r.integer(2, NT - 2), at=r.choice(["centre", "centre", "start", "end", "peak", "present", "break"]), **r.cosmology())


@prop_test(event_cases, quick=200, thorough=6000, mode=("f64", "f32"),
           rule="non-trivial: a table time coincides exactly with the centre, start or end of the quenching event, the halo's peak time, "
                "the present, or the halo's transition time, and the derivatives there are non-zero")
def gradients_at_special_times(case, ctx):
    """Derivatives with respect to bounded parameters at times where a formula changes branch."""
    t = gen.arr(np.unique(case["t"]), ctx.mode)
    t = np.concatenate([t, t[-1] + gen.arr(np.arange(1, NT - len(t) + 1), ctx.mode)]) if len(t) < NT else t
    x = gen.arr([*case["p"], *case["mah"]], ctx.mode)
    lgt0 = gen.arr(case["lgt0"], ctx.mode)
    i, at = case["i"], case["at"]
    lg = np.asarray(_lg(t))[i]
    half = 0.5 * 10.0 ** x[P.index("qlglgdt")]
    if at == "centre":
        x[4] = lg
    elif at in ("start", "end"):
        x[4] = lg + half * (1 if at == "start" else -1)
    elif at == "peak":
        x[12] = t[i]
    elif at == "present":
        lgt0 = np.asarray(lg)
        x[4] = min(x[4], lg)
    else:
        x[9] = lg
    a = (t, lgt0, gen.arr(case["fb"], ctx.mode))
    rev, fwd = np.asarray(_bgal_rev(x, *a)), np.asarray(_bgal_fwd(x, *a))
    nm_ = P + MAH
    for nm, j in (("reverse", rev), ("forward", fwd)):
        bad = ~np.isfinite(j)
        check(not bad.any(), lambda: f"non-finite {nm}-mode derivative of output {np.argwhere(bad)[0][0]} "
              f"with respect to {nm_[np.argwhere(bad)[0][1]]} at the {at}")
    n = 99
    if not ctx.f32:
        n = compare(rev, lambda X: _bgal_b(X, *a), x, STEP, f"lg sfh and smh at the {at}", nm_, scale=lambda f0: np.where(np.arange(2 * NT) < NT, np.maximum(np.abs(f0), 1.0), np.abs(f0)))
    ctx.label(at)
    ctx.nontrivial(n > 50 and (rev[:, :8] != 0).any())


# ---------------------------------------------------------------- DiffstarPop predictions
UPOP = DEFAULT_DIFFSTARPOP_U_PARAMS._fields


def _pred(u, halo):
    p = get_bounded_diffstarpop_params(DEFAULT_DIFFSTARPOP_U_PARAMS._make([u[i] for i in range(len(UPOP))]))
    o = _diffstarpop_means_covs(p, *[halo[i] for i in range(5)])
    d = lambda c: jnp.diagonal(c)
    return jnp.concatenate([jnp.array([o[0], o[1]]), jnp.stack(o[2]), jnp.stack(o[3]), d(o[4]), d(o[5]), d(o[6])])


_pred_b = jax.jit(jax.vmap(_pred, in_axes=(0, None)))
_pred_fwd = jax.jit(jax.jacfwd(_pred))
_pred_rev = jax.jit(jax.jacrev(_pred))
_unb = jax.jit(get_unbounded_diffstarpop_params)


@gen.case_of
def pop_cases(r):
    sat = r.choice([None, None, "all", "some"])
    return dict(p=bounded_pop(r), halo=[r.uf(8.5, 15.8), r.uf(0.5, 13.9), r.uf(-4, 0), r.uf(10.5, 15.5), r.uf(-4, 10)], sat=sat,
                which=[r.integer(0, len(UPOP) - 1) for _ in range(5)], val=r.choice([1e3, -1e3, 1e4, -1e4, 300.0]))


def _upop(case, mode):
    u = np.array([float(x) for x in _unb(pop_nt(case["p"], "f64"))]) if mode == "f64" else None
    if u is None:
        u = np.array([float(x) for x in _unb(pop_nt(case["p"], "f32"))])
    if case["sat"] == "all":
        u = np.where(np.arange(len(u)) % 2, case["val"], -case["val"])
    elif case["sat"] == "some":
        u[case["which"]] = case["val"]
    return gen.arr(u, mode)


@prop_test(pop_cases, quick=160, thorough=5000, mode="f64", rule="non-trivial: more than 60 derivatives are compared with resolved, non-zero finite differences")
def population_prediction_gradients(case, ctx):
    u, h = _upop(case, "f64"), np.array(case["halo"])
    rev, fwd = np.asarray(_pred_rev(u, h)), np.asarray(_pred_fwd(u, h))
    for nm, j in (("reverse", rev), ("forward", fwd)):
        bad = ~np.isfinite(j)
        check(not bad.any(), lambda: f"non-finite {nm}-mode derivative of prediction {np.argwhere(bad)[0][0]} "
              f"with respect to {UPOP[np.argwhere(bad)[0][1]]}")
    n = compare(rev, lambda X: _pred_b(X, h), u, np.full(len(u), 1e-5), "DiffstarPop predictions", UPOP, fscale=5e-8,
                scale=lambda f0: np.maximum(np.abs(f0), 0.1))  # sums of terms of size 10 may end near zero
    if case["sat"]:
        ctx.label("saturated")
    ctx.nontrivial(n > 60)


@prop_test(pop_cases, quick=160, thorough=5000, mode="f32", rule="non-trivial: some derivative is non-zero")
def population_prediction_gradients_single_precision(case, ctx):
    u, h = _upop(case, "f32"), gen.arr(case["halo"], "f32")
    for nm, g in (("reverse", _pred_rev), ("forward", _pred_fwd)):
        j = np.asarray(g(u, h))
        bad = ~np.isfinite(j)
        check(not bad.any(), lambda: f"non-finite {nm}-mode derivative of prediction {np.argwhere(bad)[0][0]} "
              f"with respect to {UPOP[np.argwhere(bad)[0][1]]}")
    ctx.nontrivial((j != 0).any())


NG = 3


def _mc(u, sub, mah, t, k):
    p = get_bounded_diffstarpop_params(DEFAULT_DIFFSTARPOP_U_PARAMS._make([u[i] for i in range(len(UPOP))]))
    o = mc_diffstar_sfh_galpop(p, MahParams(*[mah[:, i] for i in range(5)]), sub[0], *sub[2:], k, t, lgt0=jnp.log10(13.8), fb=0.156)
    w = jnp.where(jnp.asarray(sub[2]) == -1, 1.0, 2.0)
    return jnp.concatenate([o.sfh_ms.sum(1), o.sfh_q.sum(1), w * o.frac_q])


_mc_b = jax.jit(jax.vmap(_mc, in_axes=(0, None, None, None, None)))
_mc_rev = jax.jit(jax.jacrev(_mc))
_mc_fwd = jax.jit(jax.jacfwd(_mc))


@gen.case_of
def mc_cases(r):
    return dict(p=bounded_pop(r), halos=[subhalo(r) for _ in range(NG)], mah=[r.mah_params(True) for _ in range(NG)], seed=r.seed(),
                t=sorted(r.uf(0.3, 13.7) for _ in range(6)), sat=r.choice([None, None, None, "some"]),
                which=[r.integer(0, len(UPOP) - 1) for _ in range(5)], val=r.choice([1e3, -1e3, 300.0]))


@prop_test(mc_cases, quick=50, thorough=2500, mode="f64", rule="non-trivial: more than 50 derivatives are compared with resolved, non-zero finite differences")
def monte_carlo_gradients(case, ctx):
    u, k = _upop(case, "f64"), key(case["seed"])
    sub = sub_arrays([[*h[:1], m[4], *h[2:]] for h, m in zip(case["halos"], case["mah"])], "f64")
    m, t = np.array(case["mah"]), np.array(case["t"]) + 1e-3 * np.arange(6)
    rev = np.asarray(_mc_rev(u, sub, m, t, k))
    bad = ~np.isfinite(rev)
    check(not bad.any(), lambda: f"non-finite derivative of Monte Carlo output {np.argwhere(bad)[0][0]} "
          f"with respect to {UPOP[np.argwhere(bad)[0][1]]}")
    n = compare(rev, lambda X: _mc_b(X, sub, m, t, k), u, np.full(len(u), 1e-5), "Monte Carlo SFHs", UPOP, fscale=5e-8)
    ctx.nontrivial(n > 50)


@prop_test(mc_cases, quick=60, thorough=2500, mode="f32", rule="non-trivial: some derivative is non-zero")
def monte_carlo_gradients_single_precision(case, ctx):
    u, k = _upop(case, "f32"), key(case["seed"])
    sub = sub_arrays([[*h[:1], m[4], *h[2:]] for h, m in zip(case["halos"], case["mah"])], "f32")
    m, t = gen.arr(case["mah"], "f32"), gen.arr(np.array(case["t"]) + 1e-3 * np.arange(6), "f32")
    rev = np.asarray(_mc_rev(u, sub, m, t, k))
    bad = ~np.isfinite(rev)
    check(not bad.any(), lambda: f"non-finite derivative of Monte Carlo output {np.argwhere(bad)[0][0]} "
          f"with respect to {UPOP[np.argwhere(bad)[0][1]]}")
    ctx.nontrivial((rev != 0).any())


# ---------------------------------------------------------------- summary statistics
ND = 8


def _hist(x, sig, lo, hi, edges):
    d, y = x[:2 * ND].reshape(ND, 2), x[2 * ND:]
    return jnp.concatenate([tw_ndhist_weighted(d, sig, y, lo, hi), compute_smhm(d[:, 0], y, sig[:, 0], edges)])


_hist_b = jax.jit(jax.vmap(_hist, in_axes=(0, None, None, None, None)))
_hist_rev = jax.jit(jax.jacrev(_hist))


@gen.case_of
def hist_cases(r):
    return dict(d=[[r.uf(0, 3), r.uf(0, 3)] for _ in range(ND)], y=r.floats(ND, 1, 12), sig=[[r.uf(0.35, 1.0), r.uf(0.2, 1.0)] for _ in range(ND)])


@prop_test(hist_cases, quick=150, thorough=5000, mode="f64", rule="non-trivial: more than 40 derivatives are compared with resolved, non-zero finite differences")
def histogram_gradients(case, ctx):
    e = np.linspace(0, 3, 4)
    lo = np.array([[a, b] for a in e[:-1] for b in e[:-1]])
    x = np.concatenate([np.ravel(case["d"]), case["y"]])
    a = (np.array(case["sig"]), lo, lo + 1.0, e)
    j = np.asarray(_hist_rev(x, *a))
    check(np.isfinite(j).all(), "non-finite derivative of the histograms")
    n = compare(j, lambda X: _hist_b(X, *a), x, np.full(len(x), 1e-5), "weighted histogram and SMHM", [f"input {i}" for i in range(len(x))],
                fscale=1e-6)
    ctx.nontrivial(n > 40)
