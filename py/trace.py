"""Generates scenarios, runs them through the real code, validates the recorded behaviour with TLC."""
import json, os, random, re, shutil, subprocess, collections
from concurrent.futures import ThreadPoolExecutor
import build, gen
from tlc import tlc

class Infra(Exception):
    pass

def scenarios(plan, seed, only=None):
    """plan: list of (family, dim, deg, mode, count).  Yields (variant, name, text)."""
    for fam, dim, deg, mode, count in plan:
        for k in range(count):
            name = "%s.%dd.%d.%d.%d" % (fam, dim, deg, seed, k)
            rng = random.Random(name)
            yield (dim, deg, mode), name, getattr(gen, fam)(rng, dim, deg).text(name)

def shard(items, n):
    """keep variants apart, spread evenly"""
    by = collections.defaultdict(list)
    for v, name, text in items: by[v].append((name, text))
    total = sum(len(x) for x in by.values())
    out = []
    for v, xs in by.items():
        k = max(1, round(n * len(xs) / total)); k = min(k, len(xs))
        for j in range(k): out.append((v, xs[j::k]))
    return out

def parse_reject(out):
    m = re.search(r'<<\s*"REJECT".*?>>', out, re.S)
    return re.sub(r"\s+", " ", m.group(0)) if m else None

def validate(log, prop, meta, timeout=800):
    """-> (accepted, events, states, reject-line-or-None, output)"""
    rc, out = tlc("Trace", env={"VERIF_TRACE": log, "VERIF_PROP": prop}, meta=meta, timeout=timeout)
    acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    states = int(st.group(2)) if st else 0
    if acc and rc == 0: return True, int(acc.group(1)), states, None, out
    if "Parsing or semantic" in out or "java.lang.OutOfMemory" in out or not re.search(r"Computing initial states", out):
        raise Infra("TLC failed:\n" + out[-3000:])
    return False, 0, states, parse_reject(out), out

def last_event(out):
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return int(m[-1]) if m else None

def run_harness(exe, items, workdir, tag):
    sc = os.path.join(workdir, tag + ".scn"); log = os.path.join(workdir, tag + ".ndjson"); scr = os.path.join(workdir, tag + ".d")
    os.makedirs(scr, exist_ok=True)
    with open(sc, "w") as o:
        for name, text in items: o.write(text)
    r = subprocess.run([exe, sc, log, scr], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800)
    shutil.rmtree(scr, ignore_errors=True)
    if r.returncode != 0: raise Infra("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    return log

def split_log(log):
    """events grouped by scenario, in order: list of (name, [lines])"""
    out = []
    with open(log) as fh:
        for line in fh:
            if not line.strip() or not line.endswith("}\n"): continue      # cut off by a crash, which has an event of its own
            m = re.match(r'\{"ev":"(\w+)","sc":"([^"]*)"', line)
            if not m: out.append(("?", [line])) if not out else out[-1][1].append(line); continue
            if out and (m.group(2) in ("", out[-1][0])): out[-1][1].append(line)
            else: out.append((m.group(2), [line]))
    return out

PIECE = 24 << 20
def check_shard(job):
    exe, items, workdir, tag, prop, keep_going = job
    log = run_harness(exe, items, workdir, tag)
    groups = split_log(log)
    counts = collections.Counter()
    for _, ls in groups:
        for l in ls: counts[l.split('"', 4)[3]] += 1
    fails, events, states = [], 0, 0
    meta = os.path.join(workdir, tag + ".meta")
    pos = 0
    texts = dict(items)
    missing = [n for n, _ in items if n not in {g for g, _ in groups}]
    while pos < len(groups):
        part = os.path.join(workdir, tag + ".part.ndjson")
        size, to = 0, pos                   # TLC holds a log in memory: pieces of at most PIECE bytes
        while to < len(groups) and (to == pos or size + sum(map(len, groups[to][1])) <= PIECE): size += sum(map(len, groups[to][1])); to += 1
        with open(part, "w") as o:
            for _, ls in groups[pos:to]: o.writelines(ls)
        ok, ev, st, rej, out = validate(part, prop, meta)
        states += st
        if ok: events += ev; pos = to; continue
        # which scenario: events accepted so far = depth - 1
        depth = last_event(out)
        if depth is None:
            m = re.search(r"(\d+) states generated", out); depth = int(m.group(1)) if m else 1
        seen, k = 0, pos
        while k < len(groups) - 1 and seen + len(groups[k][1]) < depth: seen += len(groups[k][1]); k += 1
        idx = depth - seen - 1
        evl = groups[k][1][idx] if 0 <= idx < len(groups[k][1]) else ""
        evn = evl.split('"', 4)[3] if evl else "?"
        events += depth - 1
        err = re.search(r"Error: (?!The behavior).*?(?=\n\n|\Z)", out, re.S)
        why = rej or ('no action of the specification allows event "%s"' % evn + (" " + re.sub(r"\s+", " ", err.group(0))[:400] if err and "completed" not in err.group(0) else ""))
        fails.append({"scenario": groups[k][0], "event": evn, "why": why, "text": texts.get(groups[k][0], ""), "log": "".join(groups[k][1][: idx + 1])})
        if not keep_going: break
        pos = k + 1
    if fails: missing = []            # the harness stops after a few crashes
    for n in missing: fails.append({"scenario": n, "event": "?", "why": "no events recorded", "text": texts[n], "log": ""})
    return {"fails": fails, "events": events, "states": states, "scenarios": len(items), "counts": counts, "bytes": os.path.getsize(log)}

def run_plan(plan, prop, seed, workdir, keep_going=False, jobs=8, more=()):
    items = list(scenarios(plan, seed)) + list(more)
    exes = build.harnesses(sorted({v for v, _, _ in items}))
    items = [i for i in items if exes[i[0]]]
    jobsl = [(exes[v], xs, workdir, "s%02d" % k, prop, keep_going) for k, (v, xs) in enumerate(shard(items, jobs))]
    with ThreadPoolExecutor(jobs) as ex: res = list(ex.map(check_shard, jobsl))
    tot = {"fails": [], "events": 0, "states": 0, "scenarios": 0, "counts": collections.Counter()}
    for r in res:
        tot["fails"] += r["fails"]; tot["counts"] += r["counts"]
        for k in ("events", "states", "scenarios"): tot[k] += r[k]
    tot["exes"] = exes
    tot["exe_of"] = {name: exes[v] for v, name, _ in items}
    tot["samples"] = [t for _, _, t in items[:: max(1, len(items) // 3)]][:3]
    return tot
