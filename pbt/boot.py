"""Process bootstrap: paths, JAX mode, package under test."""
import os
import sys
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def boot(mode):
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if p not in ("", repo)]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, repo)
    vend = os.path.join(VERIF, "vendor")
    if os.path.isdir(vend):
        sys.path.append(vend)
    else:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    if not os.path.exists(os.path.join(repo, "diffstar", "_version.py")):
        m = types.ModuleType("diffstar._version")
        m.__version__ = "0"
        sys.modules["diffstar._version"] = m
    import warnings

    warnings.filterwarnings("ignore")
    import jax

    jax.config.update("jax_enable_x64", mode == "f64")
    import diffstar

    got = os.path.realpath(os.path.dirname(os.path.dirname(diffstar.__file__)))
    if got != repo:
        raise RuntimeError(f"diffstar imported from {got}, expected {repo}")
