"""Runs a fitting program of the repository on simulated MPI ranks (one thread per rank)
with random delays, and replaces its shell clean-up by a stand-in that only acts inside the
scratch directory of the case."""
import glob
import os
import shlex
import sys
import threading
import types

from pbt.core import REPO, PropertyViolated

_local = threading.local()


class _Op:
    def __init__(self, f):
        self.f = f


SUM, MAX, MIN = _Op(sum), _Op(max), _Op(min)


class Comm:
    """Collectives over threads: every rank deposits its value and meets at a barrier."""

    def __init__(self, n):
        self.n = n
        self.bar = threading.Barrier(n, timeout=120)
        self.box = {}

    def Get_rank(self):
        return _local.rank

    def Get_size(self):
        return self.n

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        self.bar.wait()

    barrier = Barrier

    def allgather(self, x):
        self.box[_local.rank] = x
        self.bar.wait()
        out = [self.box[i] for i in range(self.n)]
        self.bar.wait()
        return out

    def gather(self, x, root=0):
        out = self.allgather(x)
        return out if _local.rank == root else None

    def allreduce(self, x, op=SUM):
        return op.f(self.allgather(x))

    def reduce(self, x, op=SUM, root=0):
        out = self.allgather(x)
        return op.f(out) if _local.rank == root else None

    def bcast(self, x, root=0):
        return self.allgather(x)[root]


class _Proxy:
    """COMM_WORLD: the communicator of the run in progress."""

    comm = None

    def __getattr__(self, k):
        return getattr(_Proxy.comm, k)


_mpi = types.ModuleType("mpi4py.MPI")
_mpi.COMM_WORLD, _mpi.SUM, _mpi.MAX, _mpi.MIN = _Proxy(), SUM, MAX, MIN
_pkg = types.ModuleType("mpi4py")
_pkg.MPI = _mpi
sys.modules.setdefault("mpi4py", _pkg)
sys.modules.setdefault("mpi4py.MPI", _mpi)


class Shell:
    """Stand-in for os.system: emulates rm of files below one directory, records the rest."""

    def __init__(self, root):
        self.root, self.bad = os.path.realpath(root), []

    def __call__(self, cmd):
        words = shlex.split(cmd)
        if words[:1] != ["rm"]:
            self.bad.append(cmd)
            return 1
        for pat in words[1:]:
            if pat.startswith("-"):
                continue
            for fn in glob.glob(pat) or [pat]:
                p = os.path.realpath(fn)
                if not p.startswith(self.root + os.sep):
                    self.bad.append(cmd)
                elif os.path.isfile(p):
                    os.unlink(p)
        return 0


_code = {}


def rank():
    return _local.rank


def run_program(rel, argv, nranks, scratch):
    """Execute REPO/rel as __main__ on nranks simulated ranks. Raises what a rank raises."""
    path = os.path.join(REPO, rel)
    if path not in _code:
        _code[path] = compile(open(path).read(), path, "exec")
    _Proxy.comm = Comm(nranks)
    shell = Shell(scratch)
    errs = []

    def target(r):
        _local.rank = r
        try:
            exec(_code[path], {"__name__": "__main__", "__file__": path, "print": lambda *a, **k: None})
        except threading.BrokenBarrierError as e:
            errs.append((1, r, e))
        except BaseException as e:
            errs.append((0, r, e))
            _Proxy.comm.bar.abort()

    keep, old = sys.argv, os.system
    sys.argv, os.system = [path, *map(str, argv)], shell
    sys.path.insert(0, os.path.dirname(path))
    try:
        th = [threading.Thread(target=target, args=(r,), daemon=True) for r in range(nranks)]
        [t.start() for t in th]
        [t.join(300) for t in th]
    finally:
        sys.argv, os.system = keep, old
        sys.path.remove(os.path.dirname(path))
    if errs:
        e = sorted(errs, key=lambda x: x[:2])[0][2]
        if isinstance(e, SystemExit):
            raise PropertyViolated(f"{rel} {' '.join(map(str, argv))}: exits with {e.code}")
        raise e
    if shell.bad:
        raise PropertyViolated(f"{rel}: shell command outside the output directory: {shell.bad[0]}")
