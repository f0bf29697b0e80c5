"""Checks that compare several executions of one scenario: the compared runs become one event, judged by TLC."""
import json, os, random, collections
import build, gen, trace

def agree(prop, tier, seed, work):
    """the same input on 1, 2, 3, 5 and 8 threads"""
    k = 1 if tier == "quick" else 12
    fams = [("many", 12), ("plain", 6), ("wander", 6), ("periodic", 10), ("law_VM", 6), ("law_DP", 6), ("law_DPMui", 6)]
    variants = [(2, 3, "plain"), (3, 2, "plain")]
    exes = build.harnesses(variants)
    res = {"events": 0, "states": 0, "scenarios": 0, "fails": [], "counts": collections.Counter()}
    for v in variants:
        items, names = [], []
        for fam, n in fams:
            for j in range(n * k):
                name = "agree_%s.%dd.%d.%d.%d" % (fam, v[0], v[1], seed, j)
                names.append(name)
                for t in (1, 2, 3, 5, 8):
                    s = getattr(gen, fam)(random.Random(name), v[0], v[1])
                    s.set(threads=t)
                    s.lines.append("only none"); s.tail.append("final")
                    items.append(("%s@%d" % (name, t), s.text("%s@%d" % (name, t))))
        w = os.path.join(work, "agree%d" % v[0]); os.makedirs(w)
        log = trace.run_harness(exes[v], items, w, "a")
        fin = collections.defaultdict(list)
        with open(log) as fh:
            for line in fh:
                if line.startswith('{"ev":"final"') and line.endswith("}\n"):
                    d = json.loads(line); fin[d["sc"].split("@")[0]].append(d)
        out = os.path.join(w, "agree.ndjson")
        texts = dict(items)
        with open(out, "w") as o:
            for nme in names:
                o.write(json.dumps({"ev": "agree", "sc": nme, "want": 5, "runs": fin[nme]}, separators=(",", ":")) + "\n")
        lines = open(out).read().splitlines(True)
        pos = 0
        while pos < len(lines):
            with open(out, "w") as o: o.writelines(lines[pos:])
            ok, ev, st, rej, txt = trace.validate(out, prop, os.path.join(w, "meta"))
            res["states"] += st
            if ok: res["events"] += ev; break
            d = trace.last_event(txt) or 1
            nm = names[pos + d - 1]
            res["fails"].append({"scenario": nm, "event": "agree", "why": rej or txt[-500:], "text": "".join(texts["%s@%d" % (nm, t)] for t in (1, 2, 3, 5, 8)), "log": lines[pos + d - 1], "final": True})
            pos += d
            if len(res["fails"]) >= 3: break
        res["scenarios"] += len(names); res["counts"]["agree"] += len(names)
    return res
