"""DiffstarPop inputs."""
import json
import os

import jax
import numpy as np

from diffstar.diffstarpop.defaults import DiffstarPopParams
from pbt import gen

_D = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "pop_params.json")))
FIELDS, PB, DEF = tuple(_D["fields"]), _D["bounds"], _D["defaults"]
FITS_POP, FITS_GAL = _D["fits_pop"], _D["fits_gal"]
LINES = [f[:-4] for f in FIELDS if f.endswith("_int")]  # clipped-line relations
K_BOUND = 0.1


def bounded_pop(r, style=None, zero_slopes=True):
    """{name: value} of all 88 bounded params.  Styles: near the defaults / calibrated sets,
    uniform inside the bounds, or hugging the bounds; slopes sometimes exactly zero."""
    style = style or r.choice(["near", "uniform", "uniform", "edges"])
    base = DEF
    if style == "near":
        k = r.integer(0, 2 * len(FITS_POP))
        if k:
            src = list(FITS_POP.values()) + list(FITS_GAL.values())
            base = src[k - 1]
    p = {}
    for name in FIELDS:
        lo, hi = PB[name]
        w = hi - lo
        if style == "near":
            v = base[name] + r.uf(-0.05, 0.05) * w
            v = min(max(v, lo + 0.002 * w), hi - 0.002 * w)
        elif style == "edges":
            e = r.choice([0.0, 1e-3, 0.5])
            v = r.uf(lo + 0.002 * w, hi - 0.002 * w) if e == 0.5 else (
                lo + (0.002 + e) * w if r.bool() else hi - (0.002 + e) * w)
        else:
            v = r.uf(lo + 0.002 * w, hi - 0.002 * w)
        p[name] = float(v)
    if zero_slopes and r.bool(0.3):
        for _ in range(r.integer(1, 4)):
            p[r.choice(LINES) + "_slp"] = 0.0
    return p


def pop_nt(p, mode):
    # python floats become weakly typed: use arrays of the mode's precision
    return DiffstarPopParams(*[gen.arr(p[k], mode) for k in FIELDS])


def pop_r32(p, mode):
    return {k: float(gen.r32(p[k], mode)) for k in FIELDS}


def subhalo(r, central=None, wide=True):
    """One halo's population inputs: logmp0, tpeak, upid, lgmu, lgmhost, gyr."""
    c = r.bool(0.4) if central is None else central
    logmp0 = r.uf(8.0, 16.0) if wide else r.uf(10.5, 15.0)
    tpeak = r.uf_or([13.8], 0.3, 14.0, 0.2)
    lgmu, lgmhost, gyr = r.uf(-6.0, 0.3), r.uf(10.0, 16.0), r.uf(-6.0, 12.0)
    if c:
        if r.bool(0.7):
            lgmu, lgmhost, gyr = 0.0, 0.0, -100.0
        return [logmp0, tpeak, -1, lgmu, lgmhost, gyr]
    return [logmp0, tpeak, r.choice([12, 0, 1, 999999999, 7, -2, -9]), lgmu, lgmhost, gyr]


def sub_arrays(halos, mode):
    """list of subhalo lists -> (logmp0, tpeak, upid, lgmu, lgmhost, gyr) arrays."""
    cols = list(zip(*halos))
    out = [gen.arr(c, mode) for c in cols]
    out[2] = np.asarray(cols[2], dtype=np.int64 if mode == "f64" else np.int32)
    return out


def key(seed):
    return jax.random.PRNGKey(int(seed))
