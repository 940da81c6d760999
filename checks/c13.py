"""C13: Monte Carlo galaxies follow the model distribution (statistics of whitened draws)."""
import jax
import numpy as np
from scipy.stats import chi2, kstwo

from checks.popcommon import FIELDS, bounded_pop, key, pop_nt, pop_r32, subhalo
from diffstar import calc_sfh_galpop
from diffstar.defaults import DEFAULT_Q_PARAMS_UNQUENCHED, get_unbounded_diffstar_params
from diffstar.diffstarpop.mc_diffstarpop_mgash import (
    mc_diffstar_params_galpop,
    mc_diffstar_u_params_galpop,
    mc_diffstar_u_params_singlegal,
)
from pbt import gen, ref
from pbt.core import check, close, prop_test

N = 4000
NSIG = 6.5
RULE = "non-trivial: the expected numbers of quenched and of unquenched galaxies both exceed 50"
NAMES = ["lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi", "lg_qt", "qlglgdt", "lg_drop", "lg_rejuv"]

_many_keys = jax.jit(jax.vmap(mc_diffstar_u_params_singlegal, in_axes=(None, None, None, None, None, None, None, 0)))


@gen.case_of
def cases(r):
    """A few halo templates, tiled or blended into a population of N galaxies."""
    style = r.choice(["identical", "templates", "blend", "blend", "single"])
    c = r.choice([None, None, True, False])
    halos = [subhalo(r, central=c) for _ in range(1 if style in ("identical", "single") else 4)]
    return dict(p=bounded_pop(r), style=style, halos=halos, seed=r.seed())


def _pop(case, mode, N=N):
    h = case["halos"]
    i = np.arange(N) % len(h)
    cols = [np.array([float(x[k]) for x in h])[i] for k in range(6)]
    if case["style"] == "blend":
        w = ((np.arange(N) * 0.6180339887) % 1.0)
        nxt = [np.array([float(x[k]) for x in h])[(i + 1) % len(h)] for k in range(6)]
        for k in (0, 1, 3, 4, 5):
            cols[k] = (1 - w) * cols[k] + w * nxt[k]
    out = [gen.arr(c, mode) for c in cols]
    out[2] = cols[2].astype(np.int64 if mode == "f64" else np.int32)
    return out


def _moments(z, names, what, sig, ks=True):
    n = z.shape[0]
    m = z.mean(0) * np.sqrt(n)
    for j, nm in enumerate(names):
        check(abs(m[j]) < sig, f"{what}: mean of {nm} is off by {m[j] / np.sqrt(n):+.3f} standard deviations ({m[j]:+.1f} sigma)")
    v = (z**2).sum(0)
    slack = 1e-9 if sig == NSIG else 0.03
    for j, nm in enumerate(names):
        p = min(chi2.sf(v[j] / (1 + slack), n), chi2.cdf(v[j] * (1 + slack), n))
        check(p > 1e-11, f"{what}: variance of {nm} is {v[j] / n:.3f} of the model's")
    if not ks:
        return
    from scipy.special import ndtr

    u = np.sort(ndtr(z), axis=0)
    g = np.arange(1, n + 1)[:, None] / n
    d = np.maximum((g - u).max(0), (u - g + 1.0 / n).max(0))
    for j, nm in enumerate(names):
        check(kstwo.sf(d[j], n) > 1e-11, f"{what}: {nm} is not Gaussian (KS distance {d[j]:.3f})")


@prop_test(cases, quick=90, thorough=2500, mode=("f64", "f32"), rule=RULE)
def draws_follow_the_model(case, ctx):
    a = _pop(case, ctx.mode)
    pn = pop_nt(case["p"], ctx.mode)
    if case["style"] == "single":
        keys = jax.random.split(key(case["seed"]), N)
        out = _many_keys(pn, *[x[0] for x in a], keys)
    else:
        out = mc_diffstar_u_params_galpop(pn, *a, key(case["seed"]))
    ms = np.stack([np.asarray(getattr(out[0], "u_" + k), float) for k in NAMES], 1)
    q = np.stack([np.asarray(getattr(out[1], "u_" + k), float) for k in NAMES], 1)
    fq, isq = np.asarray(out[2], float), np.asarray(out[3])
    check(ms.shape == q.shape == (N, 8) and isq.shape == (N,) and isq.dtype == bool, "shapes of the Monte Carlo output")
    a64 = [np.asarray(x, float) for x in a]
    want = ref.pop_means_covs(pop_r32(case["p"], ctx.mode), a64[0], a64[1])
    z = np.concatenate([(ms[:, :4] - want["mu_ms"].T) / want["sd_ms"].T, (q - want["mu_q"].T) / want["sd_q"].T], 1)
    names = ["main-sequence " + n for n in NAMES[:4]] + ["quenched " + n for n in NAMES]
    check(np.all(np.isfinite(z)), "non-finite draws")
    sig = NSIG + ctx.tol(0, 2.0)
    _moments(z, names, "all galaxies", sig)
    # subsets of the population: a distribution that is right only on average is caught here
    for what, sel in (("centrals", a[2] == -1), ("satellites", a[2] != -1),
                      ("massive half", a64[0] >= np.median(a64[0])), ("low-mass half", a64[0] < np.median(a64[0])),
                      ("first half", np.arange(N) < N // 2), ("last tenth", np.arange(N) >= N * 9 // 10)):
        if 200 <= sel.sum() < N:
            _moments(z[sel], names, what, sig, ks=False)
    # mutual independence: pairwise, of squares, and along the population
    v = fq * (1 - fq)
    d = np.where(v > 0.05, (isq - fq) / np.sqrt(np.maximum(v, 0.05)), 0.0)
    zz = np.concatenate([z, d[:, None]], 1)
    nm = names + ["quenched flag"]
    c = zz.T @ zz / np.sqrt(N)
    for i in range(13):
        for j in range(i):
            check(abs(c[i, j]) < sig + 1.5, f"{nm[i]} and {nm[j]} are correlated ({c[i, j] / np.sqrt(N):+.3f})")
    z2 = (z**2 - 1) / np.sqrt(2)
    c2 = z2.T @ z2 / np.sqrt(N)
    for i in range(12):
        for j in range(i):
            check(abs(c2[i, j]) < 12, f"scatters of {nm[i]} and {nm[j]} are not independent")
    for lag in (1, 2, N // 2):
        l = zz[lag:].T @ zz[:-lag] / np.sqrt(N - lag)
        i, j = np.unravel_index(np.argmax(np.abs(l)), l.shape)
        check(abs(l[i, j]) < sig + 1.5, f"galaxy k's {nm[i]} and galaxy k-{lag}'s {nm[j]} are correlated")
    check(len(np.unique(z[:, 0])) > 0.99 * N - ctx.tol(0, 200), "different galaxies share their draws")
    # quenched flag
    for what, sel in (("all", np.ones(N, bool)), ("centrals", a[2] == -1), ("satellites", a[2] != -1),
                      ("massive half", a64[0] >= np.median(a64[0]))):
        e, v = fq[sel].sum(), (fq * (1 - fq))[sel].sum()
        k = isq[sel].sum()
        if v > 20:
            check(abs(k - e) < sig * np.sqrt(v) + 4, f"{what}: {k} galaxies are flagged quenched, expected {e:.1f} +- {np.sqrt(v):.1f}")
        elif e < 1e-3 * N:
            check(k <= e + 8 * np.sqrt(v + 1) + 4, f"{what}: {k} galaxies are flagged quenched, expected {e:.3g}")
    check(not isq[fq <= 0].any() and isq[fq >= 1].all(), "flag contradicts a fraction of zero or one")
    # main-sequence galaxies carry the fixed no-quenching parameters
    check(np.all(ms[:, 4:] == ms[0, 4:]), "quenching parameters of main-sequence galaxies are not constant")
    par = mc_diffstar_params_galpop(pn, *a, key(case["seed"]))[0]
    for k in NAMES[4:]:
        v = np.asarray(getattr(par, k), float)
        close(v, np.full(N, float(getattr(DEFAULT_Q_PARAMS_UNQUENCHED, k))), f"{k} of main-sequence galaxies", atol=ctx.tol(1e-6, 1e-3))
    ctx.label(case["style"])
    ctx.nontrivial(fq.sum() > 50 and (1 - fq).sum() > 50)


N_TAIL = 200_000


@gen.case_of
def tail_cases(r):
    p = bounded_pop(r)
    for k in r.choice([(), ("cen", "sat"), ("cen", "sat")]):  # quenched fractions close to zero or one
        one = r.choice([False, True])
        for f in ("ylo_ylotpeak", "ylo_yhitpeak", "yhi"):
            x = 10.0 ** -r.uf(1.5, 5.0)
            p[f"frac_quench_{k}_{f}"] = 1 - x if one else x
    return dict(p=p, style=r.choice(["identical", "templates", "blend"]), halos=[subhalo(r) for _ in range(r.choice([1, 4]))], seed=r.seed())


@prop_test(tail_cases, quick=10, thorough=300, mode=("f64", "f32"), rule="non-trivial: always; 200000 galaxies, counts beyond 2.5 to 4.2 standard deviations")
def rare_draws_are_as_frequent_as_the_model_says(case, ctx):
    a = _pop(case, ctx.mode, N_TAIL)
    out = mc_diffstar_u_params_galpop(pop_nt(case["p"], ctx.mode), *a, key(case["seed"]))
    ms = np.stack([np.asarray(getattr(out[0], "u_" + k), float) for k in NAMES[:4]], 1)
    q = np.stack([np.asarray(getattr(out[1], "u_" + k), float) for k in NAMES], 1)
    want = ref.pop_means_covs(pop_r32(case["p"], ctx.mode), np.asarray(a[0], float), np.asarray(a[1], float))
    z = np.concatenate([(ms - want["mu_ms"].T) / want["sd_ms"].T, (q - want["mu_q"].T) / want["sd_q"].T], 1)
    from scipy.stats import binom, norm

    slack = 1.0 + ctx.tol(1e-6, 0.15)  # float32 rounding of a draw far from zero with a tiny scatter
    for block, cols in (("main-sequence", z[:, :4]), ("quenched main-sequence", z[:, 4:8]), ("quenching", z[:, 8:])):
        n = cols.size
        for edge in (2.5, 3.0, 3.5, 4.0, 4.2):
            for side, k in (("above", int((cols > edge).sum())), ("below", int((cols < -edge).sum()))):
                p = norm.sf(edge)
                few, many = binom.cdf(k, n, p / slack), binom.sf(k - 1, n, p * slack)
                check(min(few, many) > 1e-9, f"{block} parameters: {k} draws lie more than {edge} standard deviations {side} the mean, expected {n * p:.1f}")
    fq, isq = np.asarray(out[2], float), np.asarray(out[3])
    for lo, hi in ((0, 1e-5), (1e-5, 1e-4), (1e-4, 1e-3), (1e-3, 1e-2), (1e-2, 0.1), (0.1, 0.9)):
        for what, f, b in (("quenched", fq, isq), ("unquenched", 1 - fq, ~isq)):
            sel = (f >= lo) & (f < hi)
            e, v, k = f[sel].sum(), (f * (1 - f))[sel].sum(), b[sel].sum()
            pad = 6.5 * np.sqrt(v + 1) + 5 + 2e-7 * sel.sum()
            check(abs(k - e) < pad, f"{k} of {sel.sum()} galaxies with a chance of {lo:g} to {hi:g} are flagged {what}, expected {e:.1f}")
    ctx.label(case["style"])
    if (np.minimum(fq, 1 - fq) < 1e-2).mean() > 0.5:
        ctx.label("quenched or unquenched galaxies are rare")
    ctx.nontrivial(True)


@gen.case_of
def key_cases(r):
    return dict(p=bounded_pop(r), halo=subhalo(r), s1=r.seed(), s2=r.seed())


@prop_test(key_cases, quick=120, thorough=3000, mode="f64", rule="non-trivial: the two keys differ")
def different_keys_give_unrelated_draws(case, ctx):
    if case["s1"] == case["s2"]:
        case = dict(case, s2=case["s1"] + 1)
    c = dict(halos=[case["halo"]], style="identical")
    a = [x[:400] for x in _pop(c, ctx.mode)]
    pn = pop_nt(case["p"], ctx.mode)
    z = []
    for s in (case["s1"], case["s2"]):
        o = mc_diffstar_u_params_galpop(pn, *a, key(s))
        x = np.concatenate([np.stack([np.asarray(getattr(o[0], "u_" + k)) for k in NAMES[:4]], 1),
                            np.stack([np.asarray(getattr(o[1], "u_" + k)) for k in NAMES], 1)], 1)
        z.append((x - x.mean(0)) / x.std(0))
    check(not np.any(np.all(z[0] == z[1], axis=0)), "two keys give the same draws")
    r = (z[0] * z[1]).mean(0) * 20
    check(np.all(np.abs(r) < 7), lambda: f"draws of two keys are correlated: {r / 20}")


@gen.case_of
def mah_cases(r):
    return dict(mah=[r.mah_params(True) for _ in range(6)], p=bounded_pop(r, style="near"), seed=r.seed())


@prop_test(mah_cases, quick=120, thorough=2500, mode="f64", rule="non-trivial: always")
def main_sequence_draws_never_quench(case, ctx):
    m = np.array(case["mah"])
    from checks.common import mah_nt
    from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS

    f = lambda x: gen.arr(x, ctx.mode)
    n = len(m)
    par = mc_diffstar_params_galpop(pop_nt(case["p"], ctx.mode), f(m[:, 0]), f(m[:, 4]), np.full(n, -1), f(np.zeros(n)),
                                    f(np.zeros(n)), f(np.full(n, -100.0)), key(case["seed"]))[0]
    t = np.linspace(0.1, 13.8, 30)
    kw = dict(lgt0=np.log10(13.8), fb=0.156)
    mah = mah_nt(m, ctx.mode)
    sfh = np.asarray(calc_sfh_galpop(par, mah, t, **kw), float)
    x = np.stack([np.asarray(getattr(par, k), float) for k in NAMES], 1)
    dm, lgm = ref.dmhdt, ref.log_mah
    for i in range(n):
        want = ref.lg_sfh_ms(x[i, :4], m[i], t, kw["lgt0"], kw["fb"])
        got = np.log10(sfh[i])
        ok = want > -13
        close(got[ok], want[ok], "SFH of a main-sequence draw is not the unquenched main sequence (log10)", atol=0.02)
