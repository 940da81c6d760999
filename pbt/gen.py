"""Generators.  A case is plain JSON data built by a pure function from a stream of
integers (``case_of``), drawn uniformly or by Hypothesis: every random choice shrinks
(towards 0 = the middle of a range / the first alternative) and drawing is cheap enough for
thousands of populations per minute."""
import numpy as np
from hypothesis import strategies as st

from . import ref

_N = 1 << 20
_INT = st.integers(-_N, _N)
_SPREAD = 1296067  # odd, about 2 * _N / golden ratio


def _spread(v):
    """Hypothesis prefers integers near zero (more than half of them within 1% of the
    range): the multiplication spreads them evenly and leaves 0 (where shrinking ends) in place."""
    v = v * _SPREAD % (2 * _N)
    return v - 2 * _N if v >= _N else v


class Raw:
    """A stream of drawn integers, read as numbers and choices."""

    def __init__(self, draw):
        self._draw = draw

    def int(self):
        return self._draw()

    def uf(self, lo, hi, edge=True):
        """Float in [lo, hi]; 0 -> middle; the outer 3% map to the exact ends."""
        u = 0.5 + 0.5 * (self.int() / _N)
        if edge:
            u = min(1.0, max(0.0, (u - 0.03) / 0.94))
        return float(min(max(lo + (hi - lo) * u, lo), hi))

    def logf(self, lo, hi, edge=True):
        return float(10.0 ** self.uf(np.log10(lo), np.log10(hi), edge))

    def floats(self, n, lo, hi, edge=True):
        return [self.uf(lo, hi, edge) for _ in range(n)]

    def integer(self, lo, hi):
        """Integer in [lo, hi]; shrinks to lo."""
        return lo + abs(self.int()) % (hi - lo + 1)

    def choice(self, seq):
        return seq[abs(self.int()) % len(seq)]

    def bool(self, p=0.5):
        return abs(self.int()) % 1000 < 1000 * p

    def uf_or(self, special, lo, hi, p=0.25):
        """One of the special values with probability p, else a float in [lo, hi]."""
        a = self.uf(lo, hi)
        k = abs(self.int()) % 1000
        if k >= 1000 * (1 - p):
            return float(special[k % len(special)])
        return a

    def normal_ish(self, s=1.0):
        """Roughly bell-shaped (sum of three uniforms), sd about s."""
        return s * sum(self.uf(-1.0, 1.0, False) for _ in range(3))

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            j = self.integer(0, i)
            p[i], p[j] = p[j], p[i]
        return p

    def seed(self):
        return abs(self.int()) * 7 + abs(self.int()) % 7

    # ------------------------------------------------------------------ model inputs
    def diffstar_params(self, margin=0.0, typical=False):
        """Bounded diffstar params (list of 8), lg_rejuv in [lg_drop, 0]."""
        out = []
        for name in ref.PNAMES:
            lo, hi = TYPICAL[name] if typical else ref.BOUNDS[name]
            if name == "lg_rejuv":
                lo, hi = out[6], 0.0
            w = hi - lo
            out.append(self.uf(lo + margin * w, hi - margin * w))
        return out

    def mah_params(self, typical=False):
        """diffmah params (list of 5): late_index <= early_index as diffmah requires."""
        if typical:
            return [self.uf(11.0, 14.5), self.uf(0.0, 0.7), self.uf(1.0, 4.0), self.uf(0.1, 0.8),
                    self.uf_or([14.0], 8.0, 14.0)]
        logm0, logtc = self.uf(8.0, 16.5), self.uf(-1.0, 1.0)
        late = self.uf(0.1, 2.5) if self.bool(0.8) else self.uf(0.1, 5.0)
        return [logm0, logtc, min(late + self.uf(0.0, 6.0), 10.0), late, self.uf_or([14.0, 13.8, 1.0, 5.0], 0.3, 15.0)]

    def galaxies(self, n, typical=False, margin=0.0):
        return dict(sfh=[self.diffstar_params(margin, typical) for _ in range(n)],
                    mah=[self.mah_params(typical) for _ in range(n)])

    def cosmology(self):
        t0 = self.uf_or([13.8, 13.797], 8.0, 20.0, 0.4)
        return dict(lgt0=float(np.log10(t0)), fb=self.uf_or([0.156], 0.01, 0.9, 0.3))

    def tgrid(self, nt, tmax=14.0):
        """Strictly increasing time grid, first entry >= 0.01 Gyr: linear, logarithmic or
        irregular (cumulative random steps spanning two decades)."""
        kind = self.choice(["lin", "log", "irr"])
        a = self.int()
        t_lo = float([0.1, 0.01, 0.0][abs(a) % 3] or 10 ** self.uf(-2.0, 0.5))
        t_hi = self.uf_or([13.8], max(t_lo * 1.5, 4.0), tmax)
        if kind == "lin":
            return [float(x) for x in np.linspace(t_lo, t_hi, nt)]
        if kind == "log":
            return [float(x) for x in np.logspace(np.log10(t_lo), np.log10(t_hi), nt)]
        steps = np.array([10.0 ** self.uf(0.0, 2.0) for _ in range(nt - 1)])
        c = np.concatenate(([0.0], np.cumsum(steps) / steps.sum()))
        return [float(x) for x in t_lo + (t_hi - t_lo) * c]

    def size(self, hi=4500, lo=9):
        """A number of galaxies, times or cells: half of them large, often next to a round number."""
        k = self.integer(0, 9)
        if k < 5:
            return self.integer(int(0.4 * hi), hi)
        near = [b for b in (64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096) if lo < b < hi]
        return int(self.logf(lo, hi)) if k < 8 or not near else self.choice(near) + (k == 9)

    def ng_nt(self, big_g=4500, big_t=2500, nt_min=3, many=None):
        """(galaxies, times), at least one of them large (`many` says which)."""
        kind = self.choice([many, many, many, "both"] if many else ["galaxies", "times", "both"])
        if kind == "galaxies":
            return dict(ng=self.size(big_g), nt=self.integer(nt_min, 6))
        if kind == "times":
            return dict(ng=self.integer(1, 3), nt=self.size(big_t))
        return dict(ng=self.size(90), nt=self.size(90))

    def u_params(self, n=8):
        """Unbounded params including extreme values."""
        out = []
        for _ in range(n):
            s = self.choice([3.0, 10.0, 100.0, 1e4])
            out.append(self.uf(-s, s))
        return out


TYPICAL = dict(
    lgmcrit=(11.2, 12.8), lgy_at_mcrit=(-10.6, -9.2), indx_lo=(0.3, 2.5), indx_hi=(-2.5, -0.3),
    lg_qt=(0.6, 1.5), qlglgdt=(-1.2, -0.3), lg_drop=(-2.5, -0.2), lg_rejuv=(-2.5, -0.05),
)


class Cases:
    """A builder of cases, as a Hypothesis strategy and as a function of a list of integers."""

    def __init__(self, builder):
        self.builder = builder

        @st.composite
        def strategy(draw):
            return builder(Raw(lambda: _spread(draw(_INT))))

        self.strategy = strategy()

    def random(self, rng):
        """(case, stream): independent uniform integers; in one case of eight about a third
        of them come from a small pool, so that values repeat within the case."""
        pool = rng.integers(-_N, _N, 3).tolist() if rng.random() < 0.125 else None
        buf, used = [], []

        def draw():
            if not buf:
                buf.extend(rng.integers(-_N, _N, 128).tolist())
            v = buf.pop()
            if pool is not None and v % 3 == 0:
                v = pool[v // 3 % 3]
            used.append(v)
            return v

        return self.builder(Raw(draw)), used

    def replay(self, stream):
        """(case, integers used); zero after the end of the stream."""
        used = []

        def draw():
            used.append(stream[len(used)] if len(used) < len(stream) else 0)
            return used[-1]

        return self.builder(Raw(draw)), used


def case_of(builder):
    """Decorator: builder(r: Raw) -> case."""
    return Cases(builder)


def expand(seed, builder):
    """A case too large to be drawn number by number: built from a seed."""
    rng = np.random.default_rng(seed)
    buf = []

    def draw():
        if not buf:
            buf.extend(rng.integers(-_N, _N, 4096).tolist())
        return buf.pop()

    return builder(Raw(draw))


def arr(x, mode):
    """numpy array in the precision of the mode."""
    return np.asarray(x, dtype=np.float32 if mode == "f32" else np.float64)


def r32(x, mode):
    """value as the code will see it, in float64 for the reference."""
    if mode == "f32":
        return np.asarray(x, dtype=np.float32).astype(np.float64)
    return np.asarray(x, dtype=np.float64)
