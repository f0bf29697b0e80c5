"""development: run families against a property and list every rejection
usage: dev.py PROP count seed fam[,fam] [dims degs]"""
import sys, os, tempfile, time, shutil
sys.path.insert(0, os.path.dirname(__file__))
import build, trace
prop, count, seed, fams = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
vs = [(2, 3), (2, 2), (3, 2), (3, 3)]
if len(sys.argv) > 5: vs = [(int(a[0]), int(a[1])) for a in sys.argv[5].split(",")]
mode = sys.argv[6] if len(sys.argv) > 6 else "plain"
build.java()
shutil.rmtree("/tmp/dev", ignore_errors=True); w = "/tmp/dev"; os.makedirs(w)
t = time.time()
import behaviours
more = [i for f in fams if f.startswith("@") for i in behaviours.scenarios(f[1:], count, os.environ.get("VERIF_TIER", "quick"), seed, w)]
r = trace.run_plan([(f, d, g, mode, count) for f in fams if f[0] != "@" for d, g in vs], prop, seed, w, keep_going=True, more=more)
print("scenarios", r["scenarios"], "events", r["events"], "secs %.1f" % (time.time() - t), dict(r["counts"]))
print("FAILS", len(r["fails"]))
seen = {}
for f in r["fails"]:
    key = f["why"][:60] if not os.environ.get("ALL") else f["why"]
    seen.setdefault(key, []).append(f)
for k, v in seen.items():
    print(len(v), v[0]["scenario"], v[0]["event"], v[0]["why"][:300])
    open("/tmp/dev/fail_%s.scn" % v[0]["scenario"], "w").write(v[0]["text"]); open("/tmp/dev/fail_%s.ndjson" % v[0]["scenario"], "w").write(v[0]["log"])
