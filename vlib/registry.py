"""Loads the check definitions in checks/*.py: each defines CHECKS = {ID: dict(...)}."""
import importlib, pkgutil, os
from . import common
def all_checks():
    r = {}
    d = os.path.join(common.VERIF, "checks")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module("checks." + f[:-3])
            for k, v in m.CHECKS.items():
                if k in r:      # several files may contribute jobs to one property
                    a, b = r[k], v
                    r[k] = dict(a, jobs=(lambda x, y: lambda t: x(t) + y(t))(a["jobs"], b["jobs"]),
                                explanation=a["explanation"] + " " + b.get("explanation", ""),
                                assumptions=a.get("assumptions", []) + b.get("assumptions", []),
                                bounds=(a.get("bounds", "") + " " + b.get("bounds", "")).strip())
                else: r[k] = dict(v)
    return r
def load(pid): return all_checks()[pid]
