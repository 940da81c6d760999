"""Generated fitted catalogues, file layouts and stand-ins shared by the checks of the
measurement and fit-quality programs."""
import os
import sys
import types

import h5py
import numpy as np

from checks import umstub  # noqa: F401
from pbt import gen, ref
from pbt.core import REPO


def age(z):
    """Age of a flat universe with matter and a cosmological constant, in Gyr."""
    om, ol, th = 0.30712, 0.69288, 14.40576
    return 2 / 3 * th / np.sqrt(ol) * np.arcsinh(np.sqrt(ol / om) * (1 + np.asarray(z, float)) ** -1.5)


def stub(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules.setdefault(name, m)
    return m


_cosmo = types.SimpleNamespace(age=lambda z: types.SimpleNamespace(value=age(z)))
stub("astropy").cosmology = stub("astropy.cosmology", Planck13=_cosmo, Planck15=_cosmo, z_at_value=None)
stub("diffsky.diffndhist", tw_ndhist_weighted=lambda d, s, w, lo, hi: ref.ndhist(d, s, np.ravel(w), lo, hi))
sys.path.insert(0, os.path.join(REPO, "scripts", "diffstarpop_scripts"))

UM = {
    "DR1": ("/lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1/", "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/diffmah_tpeak_fits/", "diffmah_fits_subvol_{}.hdf5",
            "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/a_1.000000/"),
    "DR1_nomerging": ("/lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1_nomerging/", "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/diffmah_tpeak_fits/", "subvol_{}_diffmah_fits.h5",
                      "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/sfh_binary_catalogs/a_1.000000/"),
}


def galaxies(rng, n, pfit, psat, nparts=1):
    mah = np.column_stack([rng.uniform(11.0, 14.9, n), rng.uniform(0, 0.7, n), rng.uniform(1.5, 4, n), rng.uniform(0.1, 0.8, n), rng.uniform(8, 14, n)])
    sfh = np.column_stack([rng.uniform(*gen.TYPICAL[k], n) for k in ref.PNAMES])
    sfh[:, 7] = np.maximum(sfh[:, 6], sfh[:, 7])
    g = dict(mah=mah, sfh=sfh, mloss=np.where(rng.rand(n) < (1 + pfit) / 2, 10.0 ** rng.uniform(-4, -1, n), -1.0), success=np.where(rng.rand(n) < pfit, 1, rng.choice([-1, -1, 0], n)), cen=(rng.rand(n) >= psat).astype(int))
    for part in np.array_split(np.arange(n), nparts):  # every part has a fitted central and satellite
        a, b = rng.choice(part, 2, replace=False)
        g["mloss"][[a, b]], g["success"][[a, b]] = 0.01, 1
        g["cen"][a], g["cen"][b] = 1, 0
    g["loss"] = np.where(g["success"] == 1, 10.0 ** rng.uniform(-4, -1, n), rng.choice([-1.0, 0.1], n))
    return g


def write(fn, cols, names, **extra):
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with h5py.File(fn, "w") as f:
        for k, v in zip(names, cols.T):
            f[k] = v
        for k, v in extra.items():
            f[k] = v


def join(parts):
    return {k: np.concatenate([p[k] for p in parts]) for k in parts[0]}


class Mapped:
    """Files of absolute paths under /lcrc are read from a scratch directory instead."""

    def __init__(self, root):
        self.root = root

    def path(self, p):
        return self.root + p if isinstance(p, str) and p.startswith("/lcrc/") else p

    def __enter__(self):
        self.old = np.load, os.listdir, h5py.File
        load, listdir, File = self.old
        np.load = lambda p, *a, **k: load(self.path(p), *a, **k)
        os.listdir = lambda p=".": listdir(self.path(p))
        h5py.File = lambda p, *a, **k: File(self.path(p), *a, **k)

    def __exit__(self, *a):
        np.load, os.listdir, h5py.File = self.old
