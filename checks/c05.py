"""C05: fstar is the mass formed over the delay window."""
import numpy as np

from checks.common import any_size
from diffstar.utils import compute_fstar
from pbt import gen, ref
from pbt.core import all_finite, check, close, leq, prop_test

LENGTHS = (40, 15, 3)


def build(r, nt):
    t = r.tgrid(nt)
    kind = r.choice(["smooth", "bursty", "plateau"])
    sfr = []
    for _ in range(nt):
        v = r.logf(1e-6, 1e3)
        if kind == "bursty" and not r.bool(0.3):
            v = 0.0
        sfr.append(v)
    if kind == "plateau":
        k = r.integer(1, nt - 1)
        sfr[k:] = [0.0] * (nt - k)
    step = min(np.diff(t))
    delay = r.choice([1.0, 0.3, 5.0, 0.0])
    if delay == 0.0:
        delay = r.logf(max(step * 0.2, 1e-3), 20.0)
    if r.bool(0.15):
        delay = float(t[-1] - t[r.integer(0, nt - 2)])
    return dict(t=t, sfr=sfr, delay=delay, rough=r.bool(0.2))


cases = gen.case_of(lambda r: build(r, r.choice(LENGTHS)))


def _mass(case):
    m = ref.cumul_mass(case["t"], case["sfr"])
    if case["rough"]:
        m = m * (1 + 0.5 * np.cos(np.arange(m.size) * 2.1))  # arbitrary table, not monotone
    return m


def _atol(m, delay, ctx):
    """rounding of (M(t) - M(t-delay)) / delay / 1e9"""
    return ctx.tol(1e-13, 5e-6) * np.abs(m).max() / delay / 1e9


@prop_test(cases, quick=1200, thorough=40000, mode=("f64", "f32"),
           rule="non-trivial: some window starts inside the grid and some fstar is positive")
def fstar_is_the_windowed_mean(case, ctx):
    t, m = gen.arr(case["t"], ctx.mode), gen.arr(_mass(case), ctx.mode)
    d = float(np.float32(case["delay"])) if ctx.f32 else case["delay"]
    got = np.asarray(compute_fstar(t, m, d), float)
    want = ref.fstar(t, m, d)
    all_finite(got, "fstar")
    check(np.all(got >= 0), "fstar is negative")
    # error of the abscissa t - delay, times the local slope of M
    slope = np.abs(np.diff(m.astype(float)) / np.diff(t.astype(float))).max()
    atol = _atol(m, d, ctx) + ctx.tol(1e-14, 4e-6) * slope / d / 1e9
    close(got, want, "fstar", rtol=ctx.tol(1e-9, 1e-3), atol=atol)
    if not case["rough"]:
        sfr = np.asarray(case["sfr"])
        for k in range(len(t)):
            j0 = max(np.searchsorted(np.asarray(case["t"]), case["t"][k] - case["delay"], side="right") - 1, 0)
            leq(got[k], sfr[j0: k + 1].max(), "fstar exceeds the largest SFR in its window",
                rtol=ctx.tol(1e-9, 1e-3), atol=atol)
    inside = (np.asarray(case["t"]) - case["delay"] > case["t"][0]).any()
    ctx.label("delay < step" if case["delay"] < np.diff(case["t"]).min() else "delay >= step")
    ctx.nontrivial(inside and (want > 0).any())


@gen.case_of
def pairs(r):
    nt = 30
    t = r.tgrid(nt)
    return dict(t=t, a=[r.logf(1e-4, 1e3) for _ in range(nt)], b=[r.logf(1e-4, 1e3) for _ in range(nt)],
                ca=r.logf(0.01, 100.0), cb=r.logf(0.01, 100.0), delay=r.logf(0.05, 15.0))


@prop_test(pairs, quick=500, thorough=15000, mode="f64", rule="non-trivial: always (metamorphic)")
def fstar_is_linear(case, ctx):
    t = np.array(case["t"])
    ma, mb = ref.cumul_mass(t, case["a"]), ref.cumul_mass(t, case["b"])
    f = lambda m: np.asarray(compute_fstar(t, m, case["delay"]))
    want = case["ca"] * f(ma) + case["cb"] * f(mb)
    close(f(case["ca"] * ma + case["cb"] * mb), want, "fstar of a sum of histories",
          rtol=1e-7, atol=_atol(case["ca"] * ma + case["cb"] * mb, case["delay"], ctx) * 10)
    # a constant mass offset changes nothing
    close(f(ma + 3e9), f(ma), "fstar changes with a constant mass offset", rtol=1e-7,
          atol=_atol(ma + 3e9, case["delay"], ctx) * 10)


@gen.case_of
def ramps(r):
    return dict(t=r.tgrid(20) if r.bool(0.5) else [float(x) for x in np.linspace(0.1, 13.8, 20)],
                sfr=r.logf(1e-4, 1e3), delay=r.logf(0.05, 12.0))


@prop_test(ramps, quick=300, thorough=8000, mode="f64", rule="non-trivial: some window is inside the grid")
def constant_sfr_gives_that_sfr(case, ctx):
    t = np.array(case["t"])
    m = case["sfr"] * 1e9 * t
    got = np.asarray(compute_fstar(t, m, case["delay"]))
    full = t - case["delay"] >= t[0]
    close(got[full], np.full(full.sum(), case["sfr"]), "fstar of a constant SFR", rtol=1e-8)
    part = ~full
    close(got[part], case["sfr"] * (t[part] - t[0]) / case["delay"], "fstar before the first full window",
          rtol=1e-8, atol=1e-12 * case["sfr"])
    ctx.nontrivial(full.any())


any_size("fstar_on_long_grids", fstar_is_the_windowed_mean, build, lambda r: dict(nt=r.size()), quick=6, mode=("f64", "f32"))
