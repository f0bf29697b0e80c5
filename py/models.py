"""Exhaustive TLC models of the specification."""
import os, re
from concurrent.futures import ThreadPoolExecutor
import trace
from tlc import tlc, SPEC

def run_one(name, tier, work):
    cfg = os.path.join(SPEC, name + (".thorough" if tier == "thorough" and os.path.exists(os.path.join(SPEC, name + ".thorough.cfg")) else "") + ".cfg")
    rc, out = tlc(name, cfg=os.path.basename(cfg), workers=4 if tier == "quick" else 8, meta=os.path.join(work, "mc_" + name), heap="3g", timeout=850 if tier == "quick" else 20000)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if rc != 0 or "No error has been found" not in out or not m:
        raise trace.Infra("model %s does not hold or could not be checked:\n%s" % (name, out[-3000:]))
    # a deliberately broken instance next to it: the model must be able to fail
    bad = os.path.join(SPEC, name + ".fails.cfg")
    if os.path.exists(bad):
        rc, out = tlc(name, cfg=os.path.basename(bad), workers=2, meta=os.path.join(work, "mf_" + name), heap="3g", timeout=850)
        if "is violated" not in out: raise trace.Infra("model %s accepts its broken instance:\n%s" % (name, out[-3000:]))
    return {"model": name, "config": os.path.basename(cfg), "states": int(m[-1][1]), "transitions": int(m[-1][0])}

def run_all(names, tier, work):
    with ThreadPoolExecutor(2 if tier == "quick" else 1) as ex:
        return list(ex.map(lambda n: run_one(n, tier, work), names))
