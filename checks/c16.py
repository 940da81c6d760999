"""C16: the stellar-to-halo mass relation is a kernel-weighted mean."""
import numpy as np

from checks.common import any_size
from diffstar.diffstarpop.sumstats.smhm import compute_smhm
from pbt import gen, ref
from pbt.core import check, close, prop_test

N, NB = 30, 8
RULE = "non-trivial: at least three bins are reached and log stellar mass varies among their galaxies"


def build(r, n, nb):
    lo, hi = r.choice([(10.0, 15.0), (11.0, 13.0), (8.0, 16.0)])
    w = np.array([10.0 ** r.uf(-0.7, 0.3) for _ in range(nb)])
    edges = [float(x) for x in lo + (hi - lo) * np.concatenate(([0.0], np.cumsum(w) / w.sum()))]
    mh = [r.uf_or([edges[2], edges[3]], lo - 1, hi + 1) for _ in range(n)]
    flat = r.bool(0.15)
    slo, shi = r.choice([(5.0, 12.0), (5.0, 12.0), (-3.0, 3.0), (-12.0, 0.0)])  # also relative to a pivot, or other logs
    sm = [9.5] * n if flat else [r.uf_or([0.0], slo, shi, 0.05) for _ in range(n)]
    return dict(edges=edges, mh=mh, sm=sm, sig=[r.logf(0.01, 1.0) for _ in range(n)] if r.bool(0.7) else [r.logf(0.02, 0.5)] * n,
                perm=r.perm(n), dup=r.integer(0, n - 1), shift=r.uf(-3, 3), far=r.uf(20.0, 25.0), farsm=r.uf(0, 20), half=r.bool())


cases = gen.case_of(lambda r: build(r, N, NB))


@prop_test(cases, quick=600, thorough=25000, mode=("f64", "f32"), rule=RULE)
def weighted_mean(case, ctx):
    c = case
    N, NB = len(c["mh"]), len(c["edges"]) - 1
    f = lambda x: gen.arr(x, ctx.mode)
    mh, sm, sig, edges = map(f, (c["mh"], c["sm"], c["sig"], c["edges"]))
    got = np.asarray(compute_smhm(mh, sm, sig, edges), float)
    check(got.shape == (NB,), f"compute_smhm shape {got.shape}")
    e = gen.r32(edges, ctx.mode)
    k = np.array([ref.ndhist(gen.r32(mh, ctx.mode)[i:i + 1, None], gen.r32(sig, ctx.mode)[i:i + 1, None], [1.0], e[:-1, None], e[1:, None])
                  for i in range(N)])  # (N, NB)
    tot = k.sum(0)
    # bins reached by a kernel well above rounding
    ok = tot > ctx.tol(1e-6, 0.02)
    sm64 = gen.r32(sm, ctx.mode)
    tol = ctx.tol(1e-7, 0.0) + (ctx.tol(0, 1.0) * (3e-5 / np.maximum(tot, 1e-9) * (1 + 0.3 / sig.min() * 0.1)))
    tol = (tol * np.ones(NB))[ok]
    want = (k * sm64[:, None]).sum(0)[ok] / tot[ok]

    def cmp(x, what, ref_=None):
        x = np.asarray(x, float)
        r = want if ref_ is None else ref_
        check(np.all(np.abs(x - r) <= 12 * tol), lambda: f"{what}: {x} != {r}")

    cmp(got[ok], "kernel-weighted mean")
    for j, b in enumerate(np.flatnonzero(ok)):
        contrib = sm64[k[:, b] > 0]
        check(contrib.min() - 12 * tol[j] <= got[b] <= contrib.max() + 12 * tol[j], "value outside the range of contributing galaxies")
    p = np.array(c["perm"])
    cmp(np.asarray(compute_smhm(mh[p], sm[p], sig[p], edges))[ok], "reordering galaxies")
    cmp(np.asarray(compute_smhm(mh, sm + f(c["shift"]), sig, edges))[ok] - float(f(c["shift"])), "shift of log stellar mass")
    two = lambda x: np.concatenate((x, x))
    cmp(np.asarray(compute_smhm(two(mh), two(sm), two(sig), edges))[ok], "duplicating every galaxy")
    # replace half of a doubled sample with galaxies far outside all bins: they must not matter
    far, fsm = np.full_like(mh, c["far"]), np.full_like(sm, c["farsm"])
    z = lambda a, b: np.concatenate((a, b))
    cmp(np.asarray(compute_smhm(z(mh, far), z(sm, fsm), z(sig, np.full_like(sig, 0.1)), edges))[ok], "galaxies out of reach of the bins")
    if len(set(c["sm"])) == 1:
        cmp(got[ok], "constant log stellar mass", np.full(ok.sum(), sm64[0]))
        ctx.label("constant")
    ctx.nontrivial(ok.sum() >= 3 and len(set(c["sm"])) > 1)


def _sizes(r):
    return dict(n=r.size(), nb=r.integer(4, 30)) if r.bool(0.7) else dict(n=r.size(100), nb=r.size(400))


any_size("relations_of_large_samples", weighted_mean, build, _sizes)
