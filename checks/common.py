"""Calling the package with case data."""
import numpy as np
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

import diffstar
from diffstar import DiffstarParams
from pbt import gen, ref
from pbt.core import prop_test
from pbt.gen import arr, r32

MahParams = type(DEFAULT_MAH_PARAMS)


def sfh_nt(sfh, mode):
    """list of 8 numbers -> DiffstarParams of scalars; list of lists -> of arrays."""
    a = arr(sfh, mode)
    return DiffstarParams(*(a.T if a.ndim == 2 else a))


def mah_nt(mah, mode):
    a = arr(mah, mode)
    return MahParams(*(a.T if a.ndim == 2 else a))


def ref_lg_sfh_pop(case_sfh, case_mah, t, lgt0, fb, mode):
    s, m, t = r32(case_sfh, mode), r32(case_mah, mode), r32(t, mode)
    return np.array([ref.lg_sfh(a, b, t, lgt0, fb) for a, b in zip(s, m)])


def lg(x):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log10(np.asarray(x, dtype=float))


def sfh_lg_tol(sfh, mode):
    """Per-galaxy log10 tolerance of an SFH, from error propagation through the
    (possibly very short) quenching event."""
    s = np.atleast_2d(r32(sfh, mode))
    h = 10.0 ** s[:, 5] / 12.0
    if mode == "f32":
        return (2e-4 + 2e-6 / h)[:, None]
    return (1e-8 + 4e-15 / h)[:, None]


def any_size(name, test, builder, sizes, quick=3, thorough=120, mode="f64", rule="non-trivial: more than 200 galaxies, times or cells"):
    """Registers `test` on cases built by builder(r, **sizes) at sizes up to thousands.

    sizes: function of a generator, or keyword arguments of gen.Raw.ng_nt for two tests, one
    with many galaxies and one with many times."""
    if isinstance(sizes, dict):
        return [
            any_size(f"{name}__many_{k}", test, builder, lambda r, k=k: r.ng_nt(many=k, **sizes), max(2, quick - 1), thorough, mode, rule)
            for k in ("galaxies", "times")
        ]

    @gen.case_of
    def strategy(r):
        return dict(seed=r.seed(), size=sizes(r))

    def run(case, ctx):
        test(gen.expand(case["seed"], lambda r: builder(r, **case["size"])), ctx)
        ctx.nontrivial(max(case["size"].values()) > 200)

    run.__name__ = name
    return prop_test(strategy, quick=quick, thorough=thorough, mode=mode, rule=rule)(run)
