"""check.py PROPERTY [quick|thorough]

Decides one property: TLC explores the exhaustive models of the specification, the real code (built from
/repo's working tree) runs generated scenarios, and TLC validates every recorded behaviour against
spec/Trace.tla.  Exit 0: held; 1: VIOLATION; 2: the machinery itself failed."""
import json, os, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, trace, models, behaviours
from plan import PLAN, THOROUGH
VERIF = build.VERIF

def evidence(prop, d):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o: json.dump(d, o, indent=1)

def confirm(prop, f, res, work):
    """run the scenario again, from its text: is the rejection repeatable?"""
    for k in range(3):
        w = os.path.join(work, "confirm%d" % k); os.makedirs(w)
        r = trace.check_shard((res["exe_of"][f["scenario"]], [(f["scenario"], f["text"])], w, "c", prop, False))
        if r["fails"]: return r["fails"][0]
    return None

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    mult = 1 if tier == "quick" else THOROUGH
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    viol = []
    try:
        build.java()
        jobs = [(n, d, g, mode, c * mult) for n, c, vs, mode in plan["fam"] for d, g in vs]
        with ThreadPoolExecutor(8) as ex:
            rep = [(kind, ex.submit(behaviours.scenarios, kind, n, tier, seed, work)) for kind, n in plan.get("replay", [])]
            build.harnesses(sorted({(d, g, mode) for _, d, g, mode, _ in jobs}))
            more = [i for _, r in rep for i in r.result()]
            mod = ex.submit(models.run_all, plan.get("models", []), tier, work)
            res = trace.run_plan(jobs, prop, seed, work, more=more)
            mod = mod.result()
        if plan.get("extra"):
            import extra
            e = getattr(extra, plan["extra"])(prop, tier, seed, work)
            for k in ("events", "states", "scenarios"): res[k] += e[k]
            res["fails"] += e["fails"]; res["counts"] += e["counts"]; res["exe_of"].update(e.get("exe_of", {}))
        for f in res["fails"]:
            if len(viol) >= 3: break
            c = f if f.get("final") else confirm(prop, f, res, os.path.join(work, "x%d" % len(viol)))
            if c is None:
                print("note: rejection of scenario %s was not repeatable: %s" % (f["scenario"], f["why"])); continue
            rd = os.path.join(VERIF, "build", "replay", prop); os.makedirs(rd, exist_ok=True)
            base = os.path.join(rd, re.sub(r"[^\w.]", "_", f["scenario"]))
            open(base + ".scn", "w").write(f["text"]); open(base + ".ndjson", "w").write(c["log"])
            open(base + ".txt", "w").write("property %s\nscenario %s (seed %d)\nevent %s\n%s\n" % (prop, f["scenario"], seed, c["event"], c["why"]))
            print("%s: scenario %s, event %s: %s" % (prop, f["scenario"], c["event"], c["why"][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, base + ".scn"))
            viol.append(f)
        cov = {"states": res["states"] + sum(m["states"] for m in mod), "transitions": res["events"] + sum(m["transitions"] for m in mod),
               "traces_validated_against_impl": res["scenarios"] - len(res["fails"]),
               "events_validated": res["events"], "events_by_kind": dict(res["counts"]),
               "models": mod, "families": {n: c * mult for n, c, _, _ in plan["fam"]}, "behaviours_of_the_models_replayed": {k: len(r.result()) for k, r in rep},
               "samples": res["samples"]}
        evidence(prop, {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
                        "assumptions": ["relative tolerance 1e-8 between the real arithmetic of the specification (64-bit, Java) and the code",
                                        "the exhaustive models are finite instances; the scenarios are a seeded sample of the input space"],
                        "wall_s": round(time.time() - t0, 1), "violations": len(viol)})
        print("%s %s: %d scenarios, %d events validated, %d model states, %.0f s" % (prop, tier, res["scenarios"], res["events"], sum(m["states"] for m in mod), time.time() - t0))
    except (trace.Infra, build.BuildError, Exception) as e:
        traceback.print_exc()
        print("ERROR: the check could not be carried out: %s" % (str(e)[-1500:]))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
