"""Stand-in for the optional UniverseMachine reader, serving a generated mock."""
import sys
import types

import numpy as np

MOCK = {"calls": []}


def load_mock_from_binaries(subvols, root_dirname=None, galprops=None):
    sub = tuple(int(x) for x in np.atleast_1d(subvols))
    MOCK["calls"].append((sub, root_dirname))
    data = MOCK["stores"][str(root_dirname)][sub] if "stores" in MOCK else MOCK["data"]
    return {k: v for k, v in data.items() if galprops is None or k in galprops}


_pkg, _mod = types.ModuleType("umachine_pyio"), types.ModuleType("umachine_pyio.load_mock")
_mod.load_mock_from_binaries = load_mock_from_binaries
_pkg.load_mock = _mod
sys.modules.setdefault("umachine_pyio", _pkg)
sys.modules.setdefault("umachine_pyio.load_mock", _mod)
