"""C15: differentiable histograms conserve and place weight correctly."""
import jax
import numpy as np

from checks.common import any_size
from diffstar.diffstarpop import utils as dpu
from diffstar.diffstarpop.sumstats import diffndhist as ndh
from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist, tw_ndhist_weighted
from diffstar.utils import tw_bin_jax_kern, tw_cuml_jax_kern
from pbt import gen, ref
from pbt.core import check, close, leq, prop_test

N = 16
GRID = {1: (9,), 2: (4, 3), 3: (3, 2, 2), 4: (2, 2, 2, 2)}
RULE = "non-trivial: at least a fifth of the points straddle a bin edge"


def _edges(r, k, lo, hi):
    w = np.array([10.0 ** r.uf(-1.0, 0.5) for _ in range(k)])
    return [float(x) for x in lo + (hi - lo) * np.concatenate(([0.0], np.cumsum(w) / w.sum()))]


def build(r, n, k=None):
    d = r.choice([1, 2, 3, 4])
    grid = GRID[d] if k is None else tuple(max(2, round(k ** (1 / d))) for _ in range(d))
    lo, hi = r.choice([(-1.0, 1.0), (7.0, 12.0), (-13.0, -8.0), (0.0, 100.0)])
    edges = [_edges(r, k, lo, hi) for k in grid]
    sig = []
    data = []
    for _ in range(n):
        s = [r.logf(0.003, 0.5) * (hi - lo) for _ in range(d)]
        x = []
        for j in range(d):
            kind = r.choice(["any", "any", "edge", "kernel end", "out"])
            e = r.choice(edges[j])
            x.append({"any": r.uf(lo, hi), "edge": e, "kernel end": e + 3 * s[j] * r.choice([-1, 1]),
                      "out": r.uf(lo - 2 * (hi - lo), hi + 2 * (hi - lo))}[kind])
        sig.append(s)
        data.append(x)
    return dict(d=d, edges=edges, data=data, sig=sig, w=[r.uf_or([0.0, 1.0], 0.0, 3.0) for _ in range(n)], perm=r.perm(n),
                split=r.uf(0.1, 0.9), shift=[r.uf(-5, 5) for _ in range(d)], a=r.uf(-3, 3), y=r.floats(n, -2, 12), b=r.integer(0, 5))


cases = gen.case_of(lambda r: build(r, N))


def _bins(edges):
    lo = np.array(np.meshgrid(*[e[:-1] for e in edges], indexing="ij")).reshape(len(edges), -1).T
    hi = np.array(np.meshgrid(*[e[1:] for e in edges], indexing="ij")).reshape(len(edges), -1).T
    return lo, hi


def _kernel_tol(c, ctx):
    """Largest rounding error of one kernel weight: arguments carry the precision of the data."""
    if not ctx.f32:
        return 1e-10
    e = max(np.abs(c["data"]).max(), max(np.abs(x).max() for x in c["edges"])) + 5
    return 3e-6 + 4 * 1.2e-7 * e / np.array(c["sig"]).min() * c["d"]


@prop_test(cases, quick=420, thorough=15000, mode=("f64", "f32"), rule=RULE)
def ndhist(case, ctx):
    c = case
    N = len(c["data"])
    f = lambda x: gen.arr(x, ctx.mode)
    data, sig, w, y = map(f, (c["data"], c["sig"], c["w"], c["y"]))
    lo, hi = map(f, _bins(c["edges"]))
    nb = len(lo)
    tol = _kernel_tol(c, ctx) * N
    r64 = lambda x: gen.r32(x, ctx.mode)
    h = np.asarray(tw_ndhist(data, sig, lo, hi), float)
    check(h.shape == (nb,), f"tw_ndhist shape {h.shape}")
    close(h, ref.ndhist(r64(data), r64(sig), np.ones(N), r64(lo), r64(hi)), "tw_ndhist", atol=tol)
    hw = np.asarray(tw_ndhist_weighted(data, sig, w, lo, hi), float)
    check(hw.shape == (nb,), f"tw_ndhist_weighted shape {hw.shape}")
    close(hw, ref.ndhist(r64(data), r64(sig), r64(w), r64(lo), r64(hi)), "tw_ndhist_weighted", atol=3 * tol)
    neg = ctx.tol(1e-13, 1e-6) * N
    check(h.min() >= -neg and hw.min() >= -3 * neg, "negative count")
    # metamorphic relations
    p = np.array(c["perm"])
    close(np.asarray(tw_ndhist(data[p], sig[p], lo, hi)), h, "point order", atol=tol * 0.1)
    close(np.asarray(tw_ndhist_weighted(data[p], sig[p], w[p], lo, hi)), hw, "point order (weighted)", atol=tol * 0.3)
    q = np.arange(nb)[::-1]
    close(np.asarray(tw_ndhist(data, sig, lo[q], hi[q]))[q], h, "bin order", atol=tol * 0.1)
    close(np.asarray(tw_ndhist_weighted(data, sig, w, lo[q], hi[q]))[q], hw, "bin order (weighted)", atol=tol * 0.3)
    s = f(c["shift"])
    close(np.asarray(tw_ndhist(data + s, sig, lo + s, hi + s)), h, "shift of data and bins", atol=4 * tol)
    a = np.asarray(c["a"], data.dtype)
    wy = np.asarray(tw_ndhist_weighted(data, sig, y, lo, hi), float)
    close(np.asarray(tw_ndhist_weighted(data, sig, w + a * y, lo, hi)), hw + float(a) * wy, "linearity in the weights", atol=40 * tol)
    close(np.asarray(tw_ndhist_weighted(data, sig, np.ones_like(w), lo, hi)), h, "unit weights", atol=tol * 0.1)
    # two data sets merged (the same points twice, once permuted) add their counts
    half = N // 2
    z = np.concatenate
    m1 = np.asarray(tw_ndhist(z((data[:half], data[:half])), z((sig[:half], sig[:half])), lo, hi), float)
    m2 = np.asarray(tw_ndhist(z((data[half:], data[half:])), z((sig[half:], sig[half:])), lo, hi), float)
    close((m1 + m2) / 2, h, "merging two data sets", atol=tol)
    # split one bin in two along one dimension
    k, j = c["b"] % nb, c["b"] % c["d"]
    lo2, hi2 = lo.copy(), hi.copy()
    mid = np.asarray(lo[k, j] + (hi[k, j] - lo[k, j]) * c["split"], data.dtype)
    hi2[k, j] = mid
    lo3, hi3 = lo.copy(), hi.copy()
    lo3[k, j] = mid
    parts = float(tw_ndhist(data, sig, lo2, hi2)[k]) + float(tw_ndhist(data, sig, lo3, hi3)[k])
    close(parts, h[k], "splitting a bin does not split its count", atol=tol)
    # conservation: stretch the outermost edges so that the tiling contains all kernels
    e2 = []
    dd, ss = r64(data), r64(sig)
    for j, e in enumerate(c["edges"]):
        e = list(e)
        e[0] = min(e[0], (dd[:, j] - 3.01 * ss[:, j]).min() - 0.1)
        e[-1] = max(e[-1], (dd[:, j] + 3.01 * ss[:, j]).max() + 0.1)
        e2.append(e)
    lo4, hi4 = map(f, _bins(e2))
    close(np.asarray(tw_ndhist(data, sig, lo4, hi4), float).sum(), float(N), "bins tiling all kernels do not sum to the number of points", atol=tol * nb)
    close(np.asarray(tw_ndhist_weighted(data, sig, w, lo4, hi4), float).sum(), r64(w).sum(), "bins tiling all kernels do not sum to the weights", atol=3 * tol * nb)
    one = ref.ndhist(dd, ss, np.ones(N), r64(lo), r64(hi))
    frac = np.mean([any(abs(x[j] - e) < 2 * s_[j] for j in range(c["d"]) for e in c["edges"][j]) for x, s_ in zip(c["data"], c["sig"])])
    ctx.label("%d dimensions" % c["d"])
    ctx.nontrivial(frac > 0.2 and one.max() > 0.1)


@gen.case_of
def kern_cases(r):
    m = r.uf_or([0.0], -20, 20)
    h = r.logf(1e-3, 10)
    z = [r.uf_or([-3.0, 3.0, 0.0], -3.5, 3.5) for _ in range(5)] + [r.uf(-50, 50)]
    return dict(m=m, h=h, z=sorted(z))


_c1 = jax.jit(jax.vmap(tw_cuml_jax_kern, in_axes=(0, None, None)))
_b1 = jax.jit(jax.vmap(tw_bin_jax_kern, in_axes=(None, None, 0, 0)))
# private helpers: judged where they exist under these names
_own = lambda name: [getattr(m, name) for m in (dpu, ndh) if hasattr(m, name)]
_c2 = [jax.jit(jax.vmap(f, in_axes=(0, None, None))) for f in _own("_tw_cuml_lax_kern")]
_b2 = [jax.jit(jax.vmap(f, in_axes=(None, None, 0, 0))) for f in _own("_tw_bin_weight_lax_kern")]


@prop_test(kern_cases, quick=500, thorough=20000, mode=("f64", "f32"), rule="non-trivial: some evaluation point is inside the kernel")
def one_dimensional_kernels(case, ctx):
    f = lambda x: gen.arr(x, ctx.mode)
    m, h = f(case["m"]), f(case["h"])
    x = f(np.array(case["z"]) * case["h"] + case["m"])
    x64, m64, h64 = gen.r32(x, ctx.mode), float(m), float(h)
    tol = ctx.tol(1e-9 + 1e-14 * abs(m64) / h64, 4e-6 + 3e-7 * abs(m64) / h64)
    want = ref.tw_cdf((x64 - m64) / h64)
    for k, g in enumerate([_c1, *_c2]):
        c = np.asarray(g(x, m, h), float)
        nm = "cumulative kernel %d" % k
        close(c, want, nm, atol=tol)
        leq(c[:-1], c[1:], nm + " is not monotone", atol=ctx.tol(1e-14, 3e-7))
        check(c.min() >= -ctx.tol(1e-14, 3e-7) and c.max() <= 1 + ctx.tol(1e-14, 3e-7), nm + " leaves [0, 1]")
        mirror = np.asarray(g(2 * m - x, m, h), float)
        close(mirror + c, np.ones_like(c), nm + " is not symmetric", atol=2 * tol)
    lo, hi = x[:-1], x[1:]
    for k, g in enumerate([_b1, *_b2]):
        b = np.asarray(g(m, h, lo, hi), float)
        close(b, np.diff(want), "bin kernel %d" % k, atol=2 * tol)
    ctx.nontrivial(any(-3 < z < 3 for z in case["z"]))


def _sizes(r):
    few = r.bool()
    return dict(n=2 * r.size(2000, 20) if few else 2 * r.size(40), k=r.integer(2, 30) if few else r.size(700))


any_size("large_histograms", ndhist, build, _sizes)
