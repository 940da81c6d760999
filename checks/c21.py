"""C21: the restarting minimiser survives bad starts and keeps the best fit."""
import numpy as np

from checks import fitcommon as fc
from checks.fitcommon import fu
from pbt import gen
from pbt.core import check, close, prop_test

BEHAVIOURS = ["ok", "ok", "bad", "nan loss", "nan loss later", "inf loss", "nan gradient later", "inf gradient", "redraw", "no start"]


class Faulty:
    """A quadratic loss whose misbehaviour follows a schedule over restarts."""

    def __init__(self, plan, n):
        self.plan, self.n = plan, n
        self.centre = np.arange(n) * 0.7 - 0.3
        self.calls = 0  # loss calls in the current run
        self.run = -1
        self.attempt = 0
        self.outside = []  # NaN-or-not of every gradient call made outside SciPy
        self.nan_left = None

    def kind(self):
        return self.plan[self.attempt] if self.attempt < len(self.plan) else ("ok", 0.0)

    def _value(self, p):
        return self._q(p) + self.offset

    def _q(self, p):
        return float(np.sum((np.asarray(p, float) - self.centre) ** 2) + 0.3 * np.sum(np.sin(2 * np.asarray(p, float))))

    def loss(self, p, data):
        if not fc.ACTIVE[0]:
            return self._q(p) + self.offset0(p)
        k, off = self.kind()
        self.calls += 1
        v = self._q(p) + off
        if not np.all(np.isfinite(p)):
            return np.nan
        if k == "nan loss" or (k == "nan loss later" and self.calls > 2):
            return np.nan
        if k == "inf loss":
            return np.inf
        return v

    def offset0(self, p):
        return self.kind()[1]

    def grad(self, p, data):
        g = 2 * (np.asarray(p, float) - self.centre) + 0.6 * np.cos(2 * np.asarray(p, float))
        k, off = self.kind()
        if fc.ACTIVE[0]:
            if k == "nan gradient later" and self.calls > 1:
                return np.full(self.n, np.nan)
            if k == "inf gradient":
                return np.full(self.n, np.inf)
            return g
        # a draw of a starting point
        if self.nan_left is None:
            self.nan_left = 1001 if k == "no start" else 7 if k == "redraw" else 0
        bad = self.nan_left > 0
        self.outside.append(bad)
        if bad:
            self.nan_left -= 1
            if self.nan_left == 0 and k == "no start":
                self.next_attempt()
            g = g.copy()
            g[int(len(self.outside)) % self.n] = np.nan
        return g

    def next_attempt(self):
        self.attempt += 1
        self.calls = 0
        self.nan_left = None


@gen.case_of
def plans(r):
    n = r.integer(1, 4)
    m = r.integer(1, 6)
    plan = []
    for _ in range(m):
        k = r.choice(BEHAVIOURS)
        off = r.choice([0.0, 5.0, 400.0, 1500.0, 1e6, 1e12, -6.0, -2e3, -1e7]) if k != "bad" else r.choice([1500.0, 1e4, 1e9])
        plan.append([k, off + r.uf(0, 1)])
    return dict(n=n, plan=plan, tol=r.choice([0.1, 1.0, 3.0, 500.0, 1e5]), seed=r.seed() % 2**31, err=r.uf(0.05, 1.0))


@prop_test(plans, quick=500, thorough=25000, mode="f64",
           rule="non-trivial: at least one restart misbehaves (no start, NaN, infinity) or reaches a loss above 999.99")
def restarts_under_faults(case, ctx):
    n, m = case["n"], len(case["plan"])
    f = Faulty([tuple(p) for p in case["plan"]], n)
    runs = []

    # the attempt ends when SciPy returns: advance the schedule from the recorder
    fc.reset()
    orig = fc.RUNS

    class Hook(list):
        def append(self, r):
            runs.append((r, f.kind()[0]))
            f.next_attempt()

    fc.RUNS = Hook()
    p0 = (np.linspace(-1, 1, n), np.full(n, case["err"]))
    keep = (p0[0].copy(), p0[1].copy())
    np.random.seed(case["seed"])
    try:
        out = fu.minimizer_wrapper(f.loss, f.grad, p0, "data", loss_tol=case["tol"], max_iter=m)
    finally:
        fc.RUNS = orig
    check(len(out) == 3, "return value")
    p, loss, success = out
    p = np.asarray(p, float)
    plan = [k for k, _ in case["plan"]]
    story = f"plan {case['plan']}, runs {[(round(r['fun'], 3)) for r, _ in runs]}: returned loss {loss}, success {success}"
    check(np.all(np.isfinite(p)), f"non-finite parameters; {story}")
    check(np.isfinite(loss), f"non-finite loss; {story}")
    check(np.array_equal(p0[0], keep[0]) and np.array_equal(p0[1], keep[1]), "the initial guess was modified")
    good = [(r["fun"], tuple(r["x"])) for r, _ in runs if np.isfinite(r["fun"]) and np.all(np.isfinite(r["x"]))]
    if good:
        best = min(g[0] for g in good)
        check(success == 1, f"a run gave a finite loss but success is not 1; {story}")
        check(loss == best, f"not the best finite run; {story}")
        check(any(g == (loss, tuple(p)) for g in good), f"parameters are not those of the best run; {story}")
        # self-consistency: the loss of the returned parameters, up to the run's own offset
        offs = [o for _, o in case["plan"]] + [0.0]
        check(any(abs(f._q(p) + o - loss) <= 1e-9 * (1 + abs(loss)) for o in offs), f"loss is not that of the parameters; {story}")
    else:
        check(success == -1, f"no finite run but success {success}; {story}")
        check(np.array_equal(p, keep[0]), f"no finite run but parameters are not the initial guess; {story}")
        best = np.inf
    # attempts: recorded runs plus starts that were never found
    fails, streak = 0, 0
    for bad in [*f.outside, False]:
        if bad:
            streak += 1
            if streak == 1001:
                fails, streak = fails + 1, 0
        else:
            streak = 0
    attempts = len(runs) + fails
    check(attempts <= m, f"{attempts} restarts, only {m} allowed; {story}")
    if attempts < m:
        check(best <= case["tol"], f"stopped after {attempts} of {m} restarts although the best loss exceeds the tolerance {case['tol']}; {story}")
    # it must not go on once within tolerance
    seen = np.inf
    for r, _ in runs[:-1]:
        seen = min(seen, r["fun"]) if np.isfinite(r["fun"]) else seen
    check(not seen <= case["tol"], f"went on after reaching the tolerance {case['tol']}; {story}")
    for k in plan:
        ctx.label(k)
    ctx.nontrivial(any(k not in ("ok",) for k in plan) or any(o > 999 for _, o in case["plan"]))


@gen.case_of
def draws(r):
    return dict(n=r.integer(1, 8), bad=r.choice([0, 0, 1, 5, 40, 999, 5000]), seed=r.seed() % 2**31, mu=r.floats(8, -5, 5), sd=[r.logf(0.01, 3) for _ in range(8)],
                where=r.integer(0, 7), inf=r.bool(0.1))


@prop_test(draws, quick=200, thorough=6000, mode="f64", rule="non-trivial: at least one draw had to be repeated")
def starting_points(case, ctx):
    n = case["n"]
    left = [case["bad"]]
    seen = []

    def grad(p, data):
        check(data == "data", "loss data not passed on")
        seen.append(np.array(p, float))
        g = np.ones(n)
        if left[0] > 0:
            left[0] -= 1
            g[case["where"] % n] = np.nan
        return g

    np.random.seed(case["seed"])
    mu, sd = np.array(case["mu"][:n]), np.array(case["sd"][:n])
    p, bad = fu.return_random_pinit((mu, sd), "data", grad)
    check(np.shape(p) == (n,), "starting point shape")
    check(np.array_equal(p, seen[-1]), "the returned start is not the one whose gradient was inspected")
    check(np.all(np.abs(p - mu) < 7 * sd), "starting point is more than 7 sigma from the guess")
    check(bool(bad) == (left[0] > 0 or len(seen) == case["bad"]), "flag does not say whether the gradient at the start is NaN")
    if case["bad"] <= 40:
        check(not bad, "gave up although a good start exists nearby")
        check(len(seen) == case["bad"] + 1, "redrew although the gradient was finite")
    check(len({tuple(s) for s in seen}) == len(seen), "the same start was drawn twice")
    ctx.nontrivial(case["bad"] > 0)
