"""Comparing automatic derivatives with finite differences."""
import numpy as np

from pbt.core import PropertyViolated


def compare(jac, fun, x, steps, what, names, rtol=2e-5, fscale=3e-8, scale=None):
    """jac: (m, n); fun: (n,) -> (m,) in float64, evaluated on a batch (k, n) -> (k, m).

    At a smooth point the derivative lies between the two one-sided differences; at a kink
    it is one of them.  The interval is widened by rounding noise and by the difference of
    central differences at two step sizes.  fscale is the rounding noise of an output relative
    to its size (or to scale(f0)), divided by 1e-6: terms of size 30 in an exponent of ten
    carry 1e-14.  Entries whose two central differences disagree are not decided.  Returns
    the number decided.
    """
    n = len(x)
    pts = [x]
    for i in range(n):
        for s in (1.0, -1.0, 0.5, -0.5):
            y = np.array(x, float)
            y[i] += s * steps[i]
            pts.append(y)
    f = np.asarray(fun(np.array(pts)), float)
    f0 = f[0]
    decided = 0
    for i in range(n):
        fp, fm, hp, hm = f[1 + 4 * i:5 + 4 * i]
        h = steps[i]
        fwd, bwd = (fp - f0) / h, (f0 - fm) / h
        fwd2, bwd2 = (hp - f0) / (h / 2), (f0 - hm) / (h / 2)
        c, c2 = (fp - fm) / (2 * h), (hp - hm) / h
        noise = fscale * (np.abs(f0) if scale is None else scale(f0)) * (1e-6 / h)
        lo = np.minimum.reduce([fwd, bwd, fwd2, bwd2])
        hi = np.maximum.reduce([fwd, bwd, fwd2, bwd2])
        err = 5 * np.abs(c - c2)
        j = np.asarray(jac[:, i], float)
        with np.errstate(all="ignore"):
            sure = err <= 0.05 * np.abs(c) + noise
        pad = err + rtol * np.maximum(np.abs(c), np.abs(j)) + noise + 1e-300
        bad = sure & ((j < lo - pad) | (j > hi + pad))
        decided += int((sure & (np.abs(c) > 100 * noise)).sum())
        if bad.any():
            k = int(np.argmax(bad))
            raise PropertyViolated(
                f"{what}: derivative of output {k} with respect to {names[i]} is {j[k]!r}, "
                f"finite differences give {c2[k]!r}")
    return decided
