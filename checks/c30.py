"""C30: shared numerical building blocks match their definitions."""
import jax.numpy as jnp
import numpy as np

from checks.common import any_size
from diffstar import utils as du
from diffstar.diffstarpop import utils as pu
from pbt import gen, ref
from pbt.core import check, close, prop_test

SIZES = (3, 4, 7, 16)


def build_grid(r, n):
    kind = r.choice(["sorted", "uniform", "log", "tight"])
    if kind == "sorted":
        steps = [r.logf(1e-3, 10) for _ in range(n)]
    elif kind == "uniform":
        steps = [r.logf(0.01, 10)] * n
    elif kind == "log":
        q = r.uf(1.05, 2.0)
        steps = [0.01 * q**i for i in range(n)]
    else:  # alternating wide and narrow cells
        a, b = r.logf(1e-3, 1), r.logf(0.1, 10)
        steps = [(a, b)[(i + n) % 2] for i in range(n)]
    return dict(kind=kind, t0=r.uf_or([0.0, -3.0], 0.001, 5.0), steps=steps)


grids = gen.case_of(lambda r: build_grid(r, r.choice(SIZES)))


@prop_test(grids, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: the grid is not uniform")
def bin_widths(case, ctx):
    t = gen.arr(case["t0"] + np.cumsum(case["steps"]), ctx.mode)
    if not np.all(np.diff(t) > 0):
        t = gen.arr(np.arange(1, t.size + 1) * 0.5, ctx.mode)
    t64 = t.astype(float)
    n = t.size
    edges = np.empty(n + 1)
    edges[1:-1] = 0.5 * (t64[1:] + t64[:-1])
    edges[0] = t64[0] - 0.5 * (t64[1] - t64[0])
    interior = np.diff(edges[:-1])
    edges[-1] = t64[-1] + 0.5 * interior[-1]
    exp = np.diff(edges)
    scale = np.abs(t64).max()
    tol = ctx.tol(1e-13, 2e-6) * scale
    a = np.asarray(du._jax_get_dt_array(t))
    b = np.asarray(du._get_dt_array(t))
    close(a, exp, "_jax_get_dt_array", atol=tol)
    close(b, exp, "_get_dt_array", atol=tol)
    close(a, b, "_jax_get_dt_array against _get_dt_array", atol=tol)
    check(np.all(b > 0) and np.all(a > -tol), "a width is not positive")
    # the widths are those of adjoining cells: their sum is the span of the edges
    close(b.sum(), edges[-1] - edges[0], "sum of the widths", atol=4 * tol)
    # shift and stretch
    s = gen.arr(2.0 * t64, ctx.mode)
    close(np.asarray(du._jax_get_dt_array(s)), 2 * a, "widths of the stretched grid", atol=4 * tol)
    # whole numbers given as integers
    w = np.cumsum(1 + np.rint(np.minimum(case["steps"], 5.0)).astype(int))
    close(np.asarray(du._get_dt_array(w), float), np.asarray(du._get_dt_array(w.astype(float))), "_get_dt_array of integers", rtol=1e-12)
    ctx.label(case["kind"])
    ctx.nontrivial(np.ptp(np.diff(t64)) > 1e-6)


def build_table(r, n):
    return dict(
        steps=[r.logf(0.01, 3) if r.bool(0.7) else r.logf(1e-5, 1e-2) for _ in range(n)], x0=r.uf(-5, 5), y=[r.uf_or([0.0], -1e3, 1e3) for _ in range(n)], y2=[r.uf(-1, 1) for _ in range(n)],
        x=[r.uf_or([0.0, 1.0], 0, 1) for _ in range(6)], node=[r.integer(-1, n - 1) for _ in range(6)], other=[r.logf(0.01, 3) for _ in range(n)],
    )


tables = gen.case_of(lambda r: build_table(r, r.choice(SIZES)))


@prop_test(tables, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: some abscissa falls strictly inside a cell")
def interpolation(case, ctx):
    n = len(case["steps"])
    xt = gen.arr(case["x0"] + np.cumsum(case["steps"]), ctx.mode)
    xt2 = gen.arr(case["x0"] + np.cumsum(case["other"]), ctx.mode)
    yt, yt2 = gen.arr(case["y"], ctx.mode), gen.arr(case["y2"], ctx.mode)

    def points(xt):
        x = xt[0] + gen.arr(case["x"], ctx.mode) * (xt[-1] - xt[0])
        x = np.where(np.array(case["node"]) >= 0, xt[np.array(case["node"])], x)
        return np.clip(x, xt[0], xt[-1]).astype(xt.dtype)

    def indices(x, xt):
        return np.clip(np.searchsorted(xt, x), 1, n - 1)

    tol = ctx.tol(1e-10, 3e-4)
    for grid, y in ((xt, yt), (xt2, yt2), (xt2, yt)):
        x = points(grid)
        amp = np.abs(y).max() + 1e-12
        step = np.diff(grid.astype(float)).min()
        # rounding of x against the narrowest cell
        cond = amp * (1 + np.abs(grid).max() / step)
        t = ctx.tol(1e-14, 5e-7) * cond + 1e-30
        close(du.jax_np_interp(x, grid, y, indices(x, grid)), np.interp(x.astype(float), grid.astype(float), y.astype(float)), "jax_np_interp", atol=t)
    X, G = np.array([points(xt), points(xt2)]), np.array([xt, xt2])
    I = np.array([indices(x, g) for x, g in zip(X, G)])
    got = np.asarray(pu.jax_np_interp_vmap(X, G, yt, I))
    for k in range(2):
        amp = np.abs(yt).max() + 1e-12
        t = ctx.tol(1e-14, 5e-7) * amp * (1 + np.abs(G[k]).max() / np.diff(G[k].astype(float)).min()) + 1e-30
        close(got[k], np.interp(X[k].astype(float), G[k].astype(float), yt.astype(float)), f"jax_np_interp_vmap row {k}", atol=t)
    ctx.nontrivial(any(v not in xt for v in X[0]))


@gen.case_of
def sigs(r):
    lo = r.uf(-5, 5)
    return dict(x=[r.uf_or([0.0], -8, 8) for _ in range(5)], x0=r.uf(-3, 3), k=r.logf(0.03, 6) * r.choice([1, 1, -1]), lo=lo, hi=lo + r.logf(0.01, 10) * r.choice([1, 1, -1]))


@prop_test(sigs, quick=500, thorough=20000, mode=("f64", "f32"), rule="non-trivial: some point is inside the invertible range of the sigmoid")
def sigmoids(case, ctx):
    x = gen.arr(case["x"], ctx.mode)
    x0, k, lo, hi = [gen.arr(case[n], ctx.mode) for n in ("x0", "k", "lo", "hi")]
    h = abs(float(hi) - float(lo))
    mag = abs(float(lo)) + h
    eps = ctx.tol(1e-14, 1e-6)
    inv = 0
    z = float(k) * (x.astype(float) - float(x0))
    for mod in (du, pu):
        name = mod.__name__
        if not hasattr(mod, "_inverse_sigmoid"):
            continue
        y = np.asarray(mod._sigmoid(x, x0, k, lo, hi), float)
        exp = float(lo) + (float(hi) - float(lo)) * ref.expit(z)
        close(y, exp, f"{name}._sigmoid", atol=10 * eps * mag * (1 + np.abs(z).max()))
        check(np.all(y >= min(lo, hi) - 4 * eps * mag) and np.all(y <= max(lo, hi) + 4 * eps * mag), f"{name}._sigmoid leaves [ymin, ymax]")
        # inverse, where the sigmoid is not saturated
        s = ref.expit(z)
        # error of the inverse: rounding of y over the slope there
        err = 10 * eps * (1 + mag / h) / (s * (1 - s)) / abs(float(k)) + 10 * eps * (8 + abs(float(x0)))
        ok = err < 0.05
        inv += ok.sum()
        back = np.asarray(mod._inverse_sigmoid(jnp.asarray(mod._sigmoid(x, x0, k, lo, hi)), x0, k, lo, hi), float)
        check(np.all(np.abs(back - x)[ok] <= err[ok] * (2 if not ctx.f32 else 1)), f"{name}._inverse_sigmoid(_sigmoid(x)) = {back[ok]} for x = {x[ok]}")
        # inverse from a y inside the range
        f = 0.02 + 0.96 * (0.5 + np.arange(5)) / 5
        yy = gen.arr(float(lo) + (float(hi) - float(lo)) * f, ctx.mode)
        xx = np.asarray(mod._inverse_sigmoid(yy, x0, k, lo, hi), float)
        fr = (yy.astype(float) - float(lo)) / (float(hi) - float(lo))
        e2 = float(x0) + np.log(fr / (1 - fr)) / float(k)
        t2 = 200 * eps * (1 + mag / h) / abs(float(k)) + 10 * eps * (8 + abs(float(x0)))
        close(xx, e2, f"{name}._inverse_sigmoid", atol=t2)
    p = np.asarray(du.sigmoid_poly(x, x0, k, lo, hi), float)
    close(p, float(lo) + (float(hi) - float(lo)) * (0.5 * z / np.sqrt(1 + z * z) + 0.5), "sigmoid_poly", atol=10 * eps * mag * (1 + np.abs(z).max()))
    order = np.argsort(x)
    d = np.diff(p[order]) * np.sign(float(k) * (float(hi) - float(lo)))
    check(np.all(d >= -10 * eps * mag), "sigmoid_poly is not monotonic")
    ctx.nontrivial(inv > 0)


@prop_test(sigs, quick=150, thorough=3000, mode=("f64", "f32"), rule="non-trivial: always; the population module's inverse is also called with its default centre, slope and range")
def default_inverse(case, ctx):
    if not hasattr(pu, "_inverse_sigmoid"):
        return
    y = gen.arr([0.9 * v / 8 for v in case["x"]], ctx.mode)
    got = np.asarray(pu._inverse_sigmoid(y), float)
    y64 = y.astype(float)
    exp = np.log((1 + y64) / (1 - y64))
    close(got, exp, "_inverse_sigmoid with default arguments", atol=ctx.tol(1e-12, 2e-5))
    close(pu._sigmoid(jnp.asarray(got), 0.0, 1.0, -1.0, 1.0), y64, "round trip of the default inverse", atol=ctx.tol(1e-12, 2e-5))


@gen.case_of
def covs(r):
    n = r.choice([1, 2, 3, 5])
    return dict(n=n, L=[[r.uf_or([0.0, 0.0], -1, 1) for _ in range(n)] for _ in range(n)], sig=[r.logf(*r.choice([(1e-3, 100), (1e-8, 1e6)])) for _ in range(n)])


@prop_test(covs, quick=400, thorough=15000, mode=("f64", "f32"), rule="non-trivial: at least two variables with a nonzero correlation")
def covariances(case, ctx):
    n = case["n"]
    L = np.tril(np.array(case["L"], float).reshape(n, n), -1) + np.eye(n)
    C = L @ L.T
    d = np.sqrt(np.diag(C))
    corr = C / np.outer(d, d)
    np.fill_diagonal(corr, 1.0)
    corr = gen.arr(corr, ctx.mode)
    sig = gen.arr(case["sig"], ctx.mode)
    s64, c64 = sig.astype(float), corr.astype(float)
    tol = ctx.tol(1e-13, 3e-6)
    cov = np.asarray(pu.covariance_from_correlation(corr, sig), float)
    outer = np.outer(s64, s64)
    close(cov / outer, c64, "covariance_from_correlation / (sig_i sig_j)", atol=tol)
    back = np.asarray(pu.correlation_from_covariance(gen.arr(cov, ctx.mode)), float)
    close(back, c64, "correlation_from_covariance(covariance_from_correlation(corr))", atol=4 * tol)
    check(np.all(back[c64 == 0] == 0), "a zero covariance has a nonzero correlation")
    cov2 = np.asarray(pu.covariance_from_correlation(jnp.asarray(back), jnp.sqrt(jnp.diag(jnp.asarray(gen.arr(cov, ctx.mode))))), float)
    close(cov2 / outer, c64, "covariance -> correlation -> covariance", atol=8 * tol)
    ctx.nontrivial(n > 1 and np.any(c64[~np.eye(n, dtype=bool)] != 0))


DTYPES = ("float64", "float32", "int64", "int32", "bool", "complex128")


@gen.case_of
def mixes(r):
    n = r.choice([1, 2, 3, 6])
    args = []
    for _ in range(r.integer(1, 5)):
        shape = r.choice(["scalar", "one", "full", "full", "list", "jax", "pyfloat"])
        size = {"scalar": 0, "one": 1, "pyfloat": 0}.get(shape, n)
        args.append(dict(shape=shape, dtype=r.choice(DTYPES), x=[r.integer(-50, 50) / 4.0 for _ in range(max(size, 1))]))
    return dict(n=n, args=args, bad=r.integer(0, 3) if r.bool(0.3) else 0)


@prop_test(mixes, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: scalars are mixed with arrays of two or more entries, or the lengths are incompatible")
def broadcasting(case, ctx):
    args, exp = [], []
    for a in case["args"]:
        x = np.array(a["x"]).astype(a["dtype"])
        if a["shape"] in ("scalar",):
            v = x[0]
        elif a["shape"] == "pyfloat":
            v = float(a["x"][0])
            x = np.array([v])
        elif a["shape"] == "list":
            v = x.tolist()
            x = np.array(v)
        elif a["shape"] == "jax":
            v = jnp.asarray(x.astype("float32"))
            x = np.asarray(v)
        else:
            v = x
        args.append(v)
        exp.append(np.atleast_1d(x))
    n = max(e.size for e in exp)
    mixed = n > 1 and any(e.size == 1 for e in exp)
    if case["bad"] and n > 1:
        args.append(np.arange(n + case["bad"]))
        try:
            got = du.get_1d_arrays(*args)
        except (AssertionError, ValueError):
            ctx.nontrivial(True)
            ctx.label("incompatible")
            return
        check(False, f"get_1d_arrays accepted lengths {[np.size(a) for a in args]} and returned lengths {[np.size(g) for g in got]}")
    keep = [np.array(a, copy=True) for a in args]
    got = du.get_1d_arrays(*args)
    check(len(got) == len(args), "number of arrays")
    for i, (g, e) in enumerate(zip(got, exp)):
        g = np.asarray(g)
        check(g.shape == (n,), f"argument {i}: shape {g.shape}, expected {(n,)}")
        check(g.dtype == e.dtype, f"argument {i}: dtype {g.dtype}, expected {e.dtype}")
        check(np.array_equal(g, np.broadcast_to(e, (n,))), f"argument {i}: {g} from {e}")
    for i, g in enumerate(got):  # the results can be changed without changing the inputs
        if isinstance(g, np.ndarray) and g.flags.writeable:
            g[...] = 0
    for i, (a, k) in enumerate(zip(args, keep)):
        check(np.array_equal(np.asarray(a), k), f"argument {i} changed through the returned arrays")
    ctx.nontrivial(mixed)


any_size("widths_of_long_grids", bin_widths, lambda r, n: build_grid(r, n) if n < 250 else dict(kind="random", t0=0.1, steps=[r.logf(1e-3, 0.1) for _ in range(n)]), lambda r: dict(n=r.size()), quick=4)
any_size("interpolation_in_long_tables", interpolation, build_table, lambda r: dict(n=r.size()), quick=4)
