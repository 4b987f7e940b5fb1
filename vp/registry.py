"""All checks, and the drivers they use."""
from .checks import alloc, big, conc, copy, dvec, edm, fixed, owner, svec, sync, vendor, views

MODULES = [alloc, big, conc, copy, dvec, edm, fixed, owner, svec, sync, vendor, views]
CHECKS = {}
DRIVERS = {}
for m in MODULES:
    CHECKS.update(m.CHECKS)
    for k, v in m.DRIVER.items():
        DRIVERS[k] = (k, v, getattr(m, "BUILDS", {}).get(k, getattr(m, "BUILD", {})))

def prepare(ctx, driver):
    name, src, opts = DRIVERS[driver]
    ctx.build({name: src}, **opts)
