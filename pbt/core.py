"""Harness core: registration of property tests, the drivers, evidence counters.

A property test is ``fn(case, ctx)`` where ``case`` is plain JSON data built from a stream of
integers (so that every random choice shrinks and every failure is replayable from a file):
first independent uniform streams, then streams drawn and mutated by Hypothesis.  ``check(...)`` raises PropertyViolated; an exception whose traceback passes
through the code under test is a violation too (every generated input is a documented
one), and so are the errors listed in UNUSABLE and a case that does not end; any other
exception is an error of the harness.
"""
import contextlib
import hashlib
import json
import os
import signal
import threading
import time
import traceback
import zlib

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class PropertyViolated(AssertionError):
    pass


class HarnessError(Exception):
    pass


class Skip(Exception):
    """The drawn case is outside the domain (counted, never a failure)."""


TESTS = []


QUICK_FACTOR = 1  # set by the worker


class Test:
    def __init__(self, fn, strategy, mode, quick, thorough, rule, name):
        self.fn, self.strategy, self.mode = fn, strategy, mode
        self.quick, self.thorough, self.rule, self.name = quick, thorough, rule, name


def prop_test(strategy, quick, thorough, mode="f64", rule=""):
    modes = (mode,) if isinstance(mode, str) else tuple(mode)

    def deco(fn):
        for m in modes:
            TESTS.append(Test(fn, strategy, m, quick, thorough, rule, fn.__name__))
        return fn

    return deco


class Ctx:
    def __init__(self, mode="f64"):
        self.mode = mode
        self.is_nontrivial = True
        self.labels = []
        self.known = []

    @property
    def f32(self):
        return self.mode == "f32"

    def tol(self, f64, f32):
        return f32 if self.f32 else f64

    def nontrivial(self, flag):
        self.is_nontrivial = bool(flag)

    def label(self, s):
        self.labels.append(str(s))


def check(cond, msg):
    if not bool(cond):
        raise PropertyViolated(msg() if callable(msg) else msg)


def _np(x):
    import numpy as np

    return np.asarray(x)


def all_finite(x, what):
    import numpy as np

    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        i = np.argwhere(~np.isfinite(np.atleast_1d(x)))[0]
        raise PropertyViolated(f"{what}: non-finite value at index {i.tolist()}")


def close(a, b, what, rtol=0.0, atol=0.0):
    """|a-b| <= atol + rtol*|b| elementwise; same shape; NaN never matches."""
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise PropertyViolated(f"{what}: shape {a.shape} != expected {b.shape}")
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b)
    ok &= np.isfinite(a) == np.isfinite(b)
    if not np.all(ok):
        idx = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        aa, bb = np.atleast_1d(a)[idx], np.atleast_1d(b)[idx]
        raise PropertyViolated(
            f"{what}: got {aa!r}, expected {bb!r} at index {list(map(int, idx))} "
            f"({int(np.sum(~ok))} of {ok.size} entries differ)"
        )


def leq(a, b, what, rtol=0.0, atol=0.0):
    """a <= b elementwise up to tolerance."""
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    a, b = np.broadcast_arrays(a, b)
    ok = a <= b + atol + rtol * np.abs(b)
    if not np.all(ok):
        idx = tuple(np.argwhere(~np.atleast_1d(ok))[0])
        raise PropertyViolated(
            f"{what}: {np.atleast_1d(a)[idx]!r} > {np.atleast_1d(b)[idx]!r} "
            f"at index {list(map(int, idx))}"
        )


def through_repo(tb):
    """True if the traceback passes through non-test code of the repository."""
    pkg = os.path.join(REPO, "diffstar") + os.sep
    scr = os.path.join(REPO, "scripts") + os.sep
    for fr in traceback.extract_tb(tb):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(pkg) or fn.startswith(scr):
            return True
    return False


CASE_LIMIT_S = 300.0  # a case takes milliseconds to seconds, with compilation up to a minute

# errors outside the repository's own frames that come from what it returned or
# refused (a jitted function rejecting its arguments, results of another shape, missing
# entries); a renamed or moved function gives other errors (no answer, not an alarm)
UNUSABLE = (ValueError, IndexError, KeyError, ArithmeticError)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class TooLong(Exception):
    """A single case did not end (an endless loop in the code under test)."""


@contextlib.contextmanager
def _time_limit(seconds=CASE_LIMIT_S):
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def handler(signum, frame):
        raise TooLong(f"not finished after {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_one(test, case, mode):
    """Run a test on one case. Returns (ctx, None) or (ctx, violation message)."""
    ctx = Ctx(mode)
    try:
        with _time_limit():
            test.fn(case, ctx)
        return ctx, None
    except PropertyViolated as e:
        return ctx, str(e)
    except (Skip, HarnessError):
        raise
    except SystemExit as e:
        if through_repo(e.__traceback__):
            return ctx, f"the program exits with {e.code!r} on a valid input"
        raise HarnessError(f"SystemExit {e.code!r}")
    except Exception as e:
        if through_repo(e.__traceback__):
            tail = traceback.extract_tb(e.__traceback__)
            where = [
                f"{os.path.relpath(f.filename, REPO)}:{f.name}"
                for f in tail
                if os.path.realpath(f.filename).startswith(REPO + os.sep)
            ]
            return ctx, (
                f"{type(e).__name__}: {str(e)[:300]} raised on a valid input "
                f"(through {where[-1] if where else '?'})"
            )
        if (isinstance(e, UNUSABLE) or type(e).__module__.startswith("jax")) and "RESOURCE_EXHAUSTED" not in str(e):
            where = traceback.extract_tb(e.__traceback__)[-1]
            return ctx, (
                f"{type(e).__name__}: {str(e)[:300]}: the call is refused or its result "
                f"cannot be evaluated ({os.path.basename(where.filename)}:{where.lineno})"
            )
        raise


def _shrink(test, stream, fails, t_end):
    """A smaller stream of integers whose case still fails: without blocks, with blocks of
    zeros, with smaller values; until nothing helps or the time is over."""
    cases = test.strategy

    def attempt(new):
        nonlocal stream
        if time.time() > t_end or new == stream:
            return False
        try:
            case, used = cases.replay(new)
        except Exception:  # noqa: BLE001  (a stream that builds no case)
            return False
        if (len(used), [abs(v) for v in used]) >= (len(stream), [abs(v) for v in stream]) or not fails(case):
            return False
        stream = used
        return True

    progress = True
    while progress and time.time() < t_end:
        progress = False
        size = max(1, len(stream) // 2)
        while size >= 1:
            i = 0
            while i < len(stream) and time.time() < t_end:
                if attempt(stream[:i] + stream[i + size:]) or (any(stream[i:i + size]) and attempt(stream[:i] + [0] * size + stream[i + size:])):
                    progress = True
                i += size
            size //= 2
        i = 0
        while i < len(stream) and time.time() < t_end:
            v = stream[i]
            for w in (abs(v), 1, 2, 3, v // 64 if v > 0 else -(-v // 64), v // 2 if v > 0 else -(-v // 2)):
                if i < len(stream) and (abs(w), w < 0) < (abs(v), v < 0) and attempt(stream[:i] + [w] + stream[i + 1:]):
                    progress = True
                    break
            i += 1
    return stream


def drive(test, tier, seed, budget_s, shrink_s=45.0):
    """Run one property test; return a result dict.

    n cases from independent uniform streams, then n / 4 from Hypothesis (which repeats and
    recombines parts of cases)."""
    import numpy as np

    n = test.quick * QUICK_FACTOR
    if tier != "quick":
        n = max(n, test.thorough)
    t0 = time.time()
    st = dict(evals=0, dup=0, skipped=0, nontrivial=set(), distinct=set(), labels={}, samples=[], trunc=0)
    failing = {}  # canonical case -> (case, msg)
    fail_t = [None]
    first_err = []

    def body(case):
        key = canon(case)
        if key in failing:
            raise PropertyViolated(failing[key][1])
        if fail_t[0] is not None and time.time() - fail_t[0] > shrink_s:
            return
        if fail_t[0] is None and time.time() - t0 > budget_s:
            st["trunc"] += 1
            return
        if fail_t[0] is None:
            if key in st["distinct"]:
                st["dup"] += 1
                return
            st["distinct"].add(key)
        try:
            ctx, msg = run_one(test, case, test.mode)
        except Skip:
            st["skipped"] += 1
            return
        except Exception:
            if not first_err:
                first_err.append(traceback.format_exc()[-3000:] + "\ncase: " + key[:1000])
            raise
        if fail_t[0] is None:
            st["evals"] += 1
            for lb in ctx.labels:
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if ctx.is_nontrivial:
                h = hashlib.sha1(key.encode()).hexdigest()
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2 and st["evals"] > 3:
                        st["samples"].append(case)
        if msg is not None:
            if fail_t[0] is None:
                fail_t[0] = time.time() - (shrink_s if msg.startswith("TooLong") else 0)  # no shrinking of endless loops
            failing[key] = (case, msg)
            raise PropertyViolated(msg)

    err = None
    violation = None
    salt = zlib.crc32(f"{test.name}/{test.mode}".encode())

    def fails(case):
        try:
            body(case)
        except PropertyViolated:
            return True
        except Exception:  # noqa: BLE001  (an error of the harness is another matter)
            return False
        return False

    try:
        for i in range(n):
            case, stream = test.strategy.random(np.random.default_rng([seed, salt, i]))
            try:
                body(case)
            except PropertyViolated:
                stream = _shrink(test, stream, fails, fail_t[0] + shrink_s)
                case, _ = test.strategy.replay(stream)
                violation = dict(case=case, message=failing[canon(case)][1])
                break
            if time.time() - t0 > budget_s:
                st["trunc"] += n - i - 1
                break
    except BaseException as e:  # harness error
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        err = first_err[0] if first_err else traceback.format_exc()[-3000:]
    if violation is None and err is None:
        err, violation = _hypothesis_phase(test, max(5, n // 4), seed + salt, body, failing, first_err)
    return dict(
        test=test.name,
        mode=test.mode,
        rule=test.rule,
        evaluations=st["evals"],
        skipped=st["skipped"],
        truncated=st["trunc"],
        duplicates=st["dup"],
        distinct_nontrivial=len(st["nontrivial"]),
        labels=st["labels"],
        samples=st["samples"],
        violation=violation,
        error=err,
        wall_s=round(time.time() - t0, 2),
    )


def _hypothesis_phase(test, n, seed, body, failing, first_err):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import errors as herr

    body.__name__ = test.name
    wrapped = hypothesis.seed(seed)(
        settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
        )(given(test.strategy.strategy)(body))
    )
    err = None
    violation = None
    try:
        wrapped()
    except PropertyViolated:
        pass
    except herr.Flaky:
        if not failing:
            err = traceback.format_exc()
    except BaseException as e:  # harness error
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not failing:
            err = traceback.format_exc().split("Failing test case:")[0][-3000:]
    if err and first_err:
        err = first_err[0]
    if failing:
        k = min(failing, key=lambda s: (len(s), s))
        # prefer the last failing case Hypothesis settled on when sizes tie
        case, msg = failing[k]
        violation = dict(case=case, message=msg)
    return err, violation
