"""Fitting helpers: the SciPy minimiser is recorded (before the code under test binds it)."""
import numpy as np
import scipy.optimize as _so

RUNS = []
ACTIVE = [0]
_orig = _so.minimize


def _recorder(fun, x0, *a, **k):
    ACTIVE[0] += 1
    x0 = np.array(x0, float)
    try:
        res = _orig(fun, x0, *a, **k)
    finally:
        ACTIVE[0] -= 1
    RUNS.append(dict(x0=x0, x=np.array(res.x, float), fun=float(res.fun), success=bool(res.success)))
    return res


_so.minimize = _recorder
_so._minimize.minimize = _recorder

from diffstar.fitting_helpers import diffstar_fitting_helpers as fh  # noqa: E402
from diffstar.fitting_helpers import utils as fu  # noqa: E402

# the recorder stays in scipy.optimize: the code under test may look minimize up when called
if getattr(fu, "minimize", None) is _orig:  # bound before the recorder was in place
    fu.minimize = _recorder


def reset():
    del RUNS[:]


def finite_u(u):
    """Unbounded params with infinities (saturated parameters) replaced by large values."""
    return np.nan_to_num(np.array([float(x) for x in u]), nan=0.0, posinf=1e3, neginf=-1e3)


def tables(r, nt, halo=None):
    """A tabulated SFH drawn without using the model, and a halo for it."""
    t = r.tgrid(nt)
    t = [x + 0.15 for x in t]
    kind = r.choice(["smooth", "bursty", "quenched", "gaps", "early"])
    t_ = np.array(t)
    pk, w, amp = r.uf(0.5, 12.0), r.logf(0.1, 1.0), r.uf(-2.0, 2.5)
    s = 10.0 ** (amp - 0.5 * ((np.log10(t_) - np.log10(pk)) / w) ** 2)
    if kind == "bursty":
        s = s * np.array([10.0 ** r.uf(-1, 1) for _ in range(nt)])
    if kind == "quenched":
        s = np.where(t_ > r.uf(1.0, 12.0), s * 10.0 ** r.uf(-6, -1), s)
    if kind == "gaps":
        s = np.where(np.array([r.bool(0.3) for _ in range(nt)]), 0.0, s)
    if kind == "early":
        s = s * np.exp(-t_ / r.uf(0.2, 2.0))
    if s.max() <= 1e-6:
        s[nt // 2] = 1e-3
    mah = [r.uf(10.5, 14.8), r.uf(0.0, 0.7), r.uf(1.5, 4.0), r.uf(0.1, 0.8), r.uf_or([14.0], 6.0, 14.0)]
    return dict(t=[float(x) for x in t], sfh=[float(x) for x in s], mah=mah, kind=kind)


def settings(r, lgt0=None):
    return dict(dlogm_cut=r.uf_or([3.5], 0.5, 5.0), t_fit_min=r.uf_or([1.0], 0.0, 5.0), mass_fit_min=r.uf_or([7.0], 5.0, 10.5),
                fstar_tdelay=r.uf_or([1.0], 0.3, 3.0, 0.5), ssfrh_floor=r.choice([1e-12, 1e-12, 1e-11, 1e-13]), **r.cosmology())
