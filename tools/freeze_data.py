"""Writes data/pop_params.json: the published DiffstarPop parameter names, bounds, default
values and calibrated sets, as read once from the pinned commit (10ed556).  The checks use
this frozen copy as their oracle; it is never rewritten by a check."""
import json, os, sys
sys.path.insert(0, "/repo")
import jax
jax.config.update("jax_enable_x64", True)
from diffstar.diffstarpop import defaults as d
from diffstar.diffstarpop.kernels.params import params_diffstarpopfits_mgash as a
from diffstar.diffstarpop.kernels.params import params_diffstarfits_mgash as b
f = lambda nt: {k: float(v) for k, v in nt._asdict().items()}
def strip(nt):
    return f(nt)
out = dict(
    fields=list(d.DEFAULT_DIFFSTARPOP_PARAMS._fields),
    bounds={k: [float(x) for x in v] for k, v in d.DIFFSTARPOP_PBOUNDS._asdict().items()},
    defaults=f(d.DEFAULT_DIFFSTARPOP_PARAMS),
    fits_pop={k: f(v) for k, v in a.DiffstarPop_Params_Diffstarpopfits_mgash.items()},
    fits_gal={k: f(v) for k, v in b.DiffstarPop_Params_Diffstarfits_mgash.items()},
)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "pop_params.json")
json.dump(out, open(p, "w"), indent=0)
print(len(out["fields"]), list(out["fits_pop"]), list(out["fits_gal"]))
