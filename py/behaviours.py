"""Behaviours of the exhaustive models, replayed into the real code.

TLC enumerates the initial states (or, for the material laws, the transitions) of a model spec/MC_*.tla and
prints each as a CASE; here they become scenarios for the harness.  What the code does with them is validated
against spec/Trace.tla like any other execution."""
import collections, json, math, os, random, re, struct
import gen, trace
from tlc import tlc, SPEC

def real(v): return struct.unpack(">d", struct.pack(">ii", v[0], v[1]))[0]
def decode(v):
    if isinstance(v, dict): return {k: decode(x) for k, x in v.items()}
    if isinstance(v, list):
        if len(v) == 2 and all(type(x) is int for x in v): return real(v)
        return [decode(x) for x in v]
    return v

def cases(model, tier, work):
    cfg = model + ".replay" + (".thorough" if tier == "thorough" else "") + ".cfg"
    rc, out = tlc(model, cfg=cfg, workers=2, meta=os.path.join(work, "rp_" + model), heap="3g", timeout=850 if tier == "quick" else 7200)
    got = {json.loads(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')}
    if rc != 0 or not got: raise trace.Infra("model %s gave no behaviours:\n%s" % (model, out[-2000:]))
    return [decode(json.loads(c)) for c in sorted(got)]

REALS = "dx flip pmass pvol rho E nu fps cfl cfle mindt gtime Lx qpre qmax qmin pmin xi M qcoh mu1 mu2 p0 beta stol vtime vexp Iref gd rhos".split()
def configured(s, c, skip=()):
    for k in REALS:
        if k in c and k not in skip: s.p[k] = float(c[k])
    for k in ("gspecial", "musl", "mibf", "pradhana", "duvaut", "pbc"):
        if k in c: s.p[k] = bool(c[k])
    for k in ("em", "pm", "hl"):
        if k in c: s.p[k] = c[k]
    if "endf" in c: s.p["endf"] = int(c["endf"])
    if "g0" in c: s.p["grav"] = c["g0"]
    return s

def machine(all_, rng, n):
    """complete initial states of spec/Machine.tla"""
    for x in (all_ if n is None else rng.sample(all_, min(n, len(all_)))):
        c, st = x["c"], x["s"]
        s = configured(gen.Sc(rng, c["dim"], c["deg"]), c, skip=() if c["pbc"] else ("Lx",))
        if c["pbc"]: s.set(Ly=3.0, Lz=3.0); st["x"] = [[v[0], v[1] + 1.0] for v in st["x"]]      # a periodic run has a fixed grid, from -dx upwards
        for k in ("x", "v", "F", "B", "tau"): s.parts[k] = st[k]
        yield c["dim"], c["deg"], gen.go(s)

def boundary(what):
    def g(all_, rng, n):
        by = collections.OrderedDict()
        for x in all_:
            if x["k"]["what"] == what: by.setdefault(json.dumps(x["k"], sort_keys=True), []).append(x)
        keys = list(by); rounds = 1
        if n is not None: rng.shuffle(keys); rounds = 1; keys = keys[:n]
        else: rounds = 12
        for key in keys:
            k = json.loads(key); dim = k["dim"]
            for _ in range(rounds):
                spots = {}
                for x in by[key]: spots.setdefault(tuple(x["X"]), []).append(x["v"])
                at = rng.sample(sorted(spots), min(len(spots), 4 if dim == 2 else 2))
                s = gen.Sc(rng, dim, 2)
                s.parts["x"] = [list(a) for a in at]; s.parts["v"] = [rng.choice(spots[a]) for a in at]
                dx = 0.1 if dim == 2 else 0.15
                s.set(dx=dx, rho=1.0, E=100.0, nu=0.25, pvol=dx ** dim / 4, pmass=dx ** dim / 4, cfl=0.5, cfle=0.5, grav=[0.0] * dim, flip=rng.choice([-2.0, -0.95, 1.0, 0.0]), endf=2)
                s.set(fps=1.0 / (0.5 * dx / 10 * rng.choice([1.0, 1.7])))
                for p in k["pls"]:
                    v = k["v"] + [0.0]
                    s.lines.append("plate %s %s %s %s %s %s %s %s %s %s %s" % tuple([gen.f(k["pos"]), k["type"], k["bc"], gen.f(k["fr"])] + [gen.f(a) for a in [k["lower"], k["upper"], v[0], v[1], v[2], k["vmin"], k["load"]]]))
                for o in k["objs"]:
                    s.lines.append("object %s %s %s %s" % (o["kind"], o["bc"], gen.f(o["fr"]), gen.vec(o["arg"])))
                yield dim, None, gen.go(s)
    return g

STRESS = ("E", "qmax", "qmin", "pmin", "qcoh", "p0", "stol")
def laws(*pms, scale=1.0):
    """one strain increment, from rest, per transition of the model; scale: unit of stress"""
    def g(all_, rng, n):
        by = collections.OrderedDict()
        for x in all_:
            if x["c"]["pm"] in pms: by.setdefault(json.dumps(x["c"], sort_keys=True), []).append(x)
        chunks = []
        for key, xs in by.items():
            seen, ys = set(), []
            for x in xs:
                t = (x["p"], x["q"], json.dumps(x["m"], sort_keys=True))
                if t not in seen: seen.add(t); ys.append(x)
            rng.shuffle(ys)
            chunks += [(j // 14, key, ys[j:j + 14]) for j in range(0, len(ys), 14)]
        rng.shuffle(chunks); chunks.sort(key=lambda t: t[0])         # every configuration first
        for _, key, xs in chunks if n is None else chunks[:n]:
            for dim in (2, 3):
                c = json.loads(key); c.update({k: c[k] * scale for k in STRESS}); s = configured(gen.Sc(rng, dim, 2), c)
                mu = c["E"] / (2 * (1 + c["nu"])); lam = c["nu"] * c["E"] / ((1 + c["nu"]) * (1 - 2 * c["nu"])); K = lam + 2 * mu / dim
                F = []
                for x in xs:
                    u = gen.sym(rng, dim, 1.0); tr = sum(u[i][i] for i in range(dim)) / dim
                    for i in range(dim): u[i][i] -= tr
                    nrm = math.sqrt(sum(a * a for r in u for a in r)) or 1.0
                    dn = scale * x["q"] / (2 * c["qpre"] * mu)
                    H = [[u[i][j] / nrm * dn + (-scale * x["p"] / K / dim if i == j else 0.0) for j in range(dim)] for i in range(dim)]
                    Fx = gen.expm_sym(H)
                    F.append(gen.mul(Fx, gen.rot(rng, dim)) if rng.random() < 0.5 else Fx)
                m = len(xs)
                s.parts.update(x=[[rng.uniform(0, 0.4) for _ in range(dim)] for _ in range(m)], v=[[0.0] * dim for _ in range(m)], F=F,
                               epd=[x["m"]["epd"] for x in xs], epv=[x["m"]["epv"] for x in xs], epp=[x["m"]["epp"] for x in xs])
                s.set(dx=0.2, rho=scale, pvol=0.2 ** dim / 4, pmass=scale * 0.2 ** dim / 4, cfl=0.5, cfle=0.5, grav=[0.0] * dim, flip=-0.95, endf=1, fps=100.0, mindt=1e-12)
                yield dim, None, gen.go(s)
    return g

def sampling(all_, rng, n):
    for c in (all_ if n is None else rng.sample(all_, min(n, len(all_)))):
        s = gen.Sc(rng, c["dim"], 2).set(Lx=c["Lx"], Ly=c["Ly"], Lz=c["Lz"], dx=c["dx"], rho=1000.0)
        s.tail.append("regular %s %d" % (gen.f(c["ppc"]), c["crop"]))
        yield c["dim"], None, s

def mesh(all_, rng, n):
    """first extents (and reference points) of the model on every axis; in each step the ends move to other places of its raster"""
    by = collections.OrderedDict()
    for x in all_: by.setdefault((x["deg"], x["dx"]), []).append(x)
    for k in range(n or 900):
        deg, dx = rng.choice(list(by)); dim = rng.choice([2, 3])
        ax = [rng.choice(by[deg, dx]) for _ in range(dim)]
        s = gen.Sc(rng, dim, deg)
        d = dx / ax[0]["u"]; far = 2 * ax[0]["u"]
        s.parts["x"] = [[a["lo"] for a in ax], [a["hi"] for a in ax]]
        s.parts["v"] = [[rng.randint(-far, far) * d for _ in ax] for _ in range(2)]        # places per step, of length 1
        if rng.random() < 0.3: s.parts["v"][1] = list(s.parts["v"][0])
        refs = [a["lo0"] if a["lo0"] < a["lo"] else a["hi0"] if a["hi0"] > a["hi"] else None for a in ax]
        if any(r is not None for r in refs): s.set(ref=[a["lo"] if r is None else r for a, r in zip(ax, refs)])
        s.set(dx=dx, rho=1.0, E=1e-4, nu=0.25, pvol=dx ** dim / 4, pmass=dx ** dim / 4, cfl=1e3, cfle=1.0, grav=[0.0] * dim, flip=rng.choice([-1.0, 1.0, 0.0, -2.0]), endf=rng.choice([1, 2, 3]), fps=1.0, mindt=1e-12)
        yield dim, deg, gen.go(s)

def levelsets(all_, rng, n):
    """the model's level sets, asked at the places its point walks through"""
    for x in (all_ if n is None else rng.sample(all_, min(n, len(all_)))):
        g = x["g"]; dim = rng.choice([2, 3]); h = g["h"]
        s = gen.Sc(rng, dim, 2).set(rho=1000.0, dx=h * rng.choice([1.0, 1.5, 2.0]))
        s.tail.append("levelset %s %s %s %s" % (gen.f(h), " ".join(map(str, g["lo"])), " ".join(map(str, g["n"])), gen.vec(g["phi"])))
        walk = [[(x["lowest"][0] + i) * h / 4, (x["lowest"][1] + j) * h / 4, (x["lowest"][2] + k) * h / 4][:dim] for i in range(4) for j in range(4) for k in (range(4) if dim == 3 else [0])]
        for X in walk if dim == 2 else rng.sample(walk, 24): s.tail.append("lsquery " + gen.vec(X))
        yield dim, 2, s

KINDS = {"levelset": ("MC_LevelSet", levelsets), "mesh": ("MC_Mesh", mesh), "transfer": ("MC_Transfer", machine), "periodic": ("MC_Periodic", machine),
         "plates": ("MC_Boundary", boundary("plate")), "terrains": ("MC_Boundary", boundary("terrain")),
         "laws0": ("MC_Constitutive", laws("VM", "DP", "DPSoft")), "lawsv": ("MC_Constitutive", laws("VMVisc", "DPVisc")), "lawsi": ("MC_Constitutive", laws("DPMui")),
         "laws": ("MC_Constitutive", laws("VM", "DP", "DPSoft", "VMVisc", "DPVisc", "DPMui")),
         "mcc0": ("MC_CamClay", laws("MCC", scale=1e3)), "mccv": ("MC_CamClay", laws("MCCVisc", scale=1e3)), "mcci": ("MC_CamClay", laws("MCCMui", scale=1e3)), "mcc": ("MC_CamClay", laws("MCC", "MCCVisc", "MCCMui", scale=1e3)), "sampling": ("MC_Sampling", sampling)}

def scenarios(kind, n, tier, seed, work):
    """-> list of (variant, name, text); n scenarios in the quick tier, all of them in the thorough tier"""
    model, conv = KINDS[kind]
    rng = random.Random("%s.%d" % (kind, seed)); out = []
    for k, (dim, deg, s) in enumerate(conv(cases(model, tier, work), rng, n if tier == "quick" else None)):
        deg = deg or rng.choice([2, 3] if tier == "thorough" else ([3] if dim == 2 else [2]))
        name = "%s.%s.%dd.%d.%d.%d" % (model, kind, dim, deg, seed, k)
        out.append(((dim, deg, "vdb" if kind == "levelset" else "plain"), name, s.text(name)))
    return out
