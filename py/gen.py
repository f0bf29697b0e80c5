"""Scenario generators.  A scenario is an input of the simulator: parameters, particles, boundaries.
Every generator is a function gen(rng, dim, deg) -> list of lines.  Nothing here knows how the code works;
what the code must do with the scenario is decided by the specification."""
import math, random

AX = "xyz"
def f(v): return repr(float(v))
def vec(v): return " ".join(f(a) for a in v)

class Sc:
    def __init__(self, rng, dim, deg):
        self.r, self.dim, self.deg = rng, dim, deg
        self.p, self.lines = {}, []
        self.parts = {}
        self.tail = []
    def set(self, **kw):
        for k, v in kw.items(): self.p[k] = v
        return self
    def text(self, name):
        out = ["scenario " + name]
        out += self.lines
        for k, v in self.p.items():
            if isinstance(v, (list, tuple)): out.append("set %s %s" % (k, vec(v)))
            elif isinstance(v, str): out.append("set %s %s" % (k, v))
            elif isinstance(v, bool): out.append("set %s %d" % (k, v))
            elif isinstance(v, int): out.append("set %s %d" % (k, v))
            else: out.append("set %s %s" % (k, f(v)))
        if self.parts:
            out.append("np %d" % len(self.parts["x"]))
            for k, v in self.parts.items():
                if k in ("x", "v"): out.append(k + " " + " ".join(vec(a) for a in v))
                elif k in ("F", "B", "tau"): out.append(k + " " + " ".join(vec(row) for m in v for row in m))
                else: out.append(k + " " + vec(v))
        return "\n".join(out + self.tail + ["end"]) + "\n"

def mat(r, d, s, ident=0.0): return [[(ident if i == j else 0.0) + r.uniform(-s, s) for j in range(d)] for i in range(d)]
def sym(r, d, s):
    m = mat(r, d, s)
    return [[0.5 * (m[i][j] + m[j][i]) for j in range(d)] for i in range(d)]

def body(rng, dim, deg, n=None, cells=None, dx=None, origin=None, speed=None, lattice=0.3, F=0.05, B=True, tau=True):
    """A small random body: n particles spread over a few cells."""
    s = Sc(rng, dim, deg)
    r = rng
    dx = dx if dx is not None else r.choice([1.0, 0.5, 0.1, 0.25, 0.07, r.uniform(0.02, 2)])
    n = n or r.randint(3, 9)
    cells = cells or [r.choice([0.5, 1.5, 2.5, 3]) for _ in range(dim)]
    if origin is None: origin = [r.choice([0.0, r.uniform(-3, 3), -7.3, 12.25, r.uniform(-30, 30)]) * dx for _ in range(dim)]
    xs = []
    for _ in range(n):
        x = []
        for k in range(dim):
            u = r.uniform(0, cells[k])
            if r.random() < lattice: u = r.choice([round(u), round(2 * u) / 2.0, round(4 * u) / 4.0])
            x.append(origin[k] + u * dx)
        xs.append(x)
    s.parts["x"] = xs
    rho, E = r.choice([1000.0, 1.0, r.uniform(0.5, 3000)]), None
    c = r.choice([1.0, 5.0, r.uniform(0.5, 20)])         # wave speed
    E = rho * c * c
    ppc = r.choice([4, 6, 8, 1])
    pvol = dx ** dim / ppc
    speed = speed if speed is not None else r.choice([0.0, 0.1, 0.3, 1.0]) * c
    s.parts["v"] = [[r.uniform(-speed, speed) for _ in range(dim)] for _ in range(n)]
    if F: s.parts["F"] = [mat(r, dim, F, 1.0) for _ in range(n)]
    if B and r.random() < 0.9: s.parts["B"] = [mat(r, dim, 0.3 * dx * max(speed, 0.1 * c)) for _ in range(n)]
    if tau: s.parts["tau"] = [sym(r, dim, 0.05 * E) for _ in range(n)]
    s.set(dx=dx, rho=rho, E=E, nu=r.choice([0.3, 0.0, 0.2, r.uniform(0.0, 0.45)]), pvol=pvol, pmass=rho * pvol)
    s.c, s.n, s.origin, s.cells, s.dx = c, n, origin, cells, dx
    steps(s, r.randint(1, 3))
    s.set(flip=r.choice([-0.95, -1.0, -2.0, 0.0, 1.0, 0.95, -0.3, 0.4, -1.0000001, -1.5, -7.0, r.uniform(-1, 1)]))
    s.set(grav=[r.choice([0.0, -9.81, r.uniform(-20, 20)]) * c * c / 100 for _ in range(dim)])
    return s

def steps(s, n, frames=1):
    """about n elastic steps per frame"""
    cfle = s.p.get("cfle", 0.5)
    dtmax = cfle * s.p["dx"] / math.sqrt(s.p["E"] / s.p["rho"])
    s.set(cfle=cfle, endf=frames, fps=1.0 / (dtmax * (n - 0.5)))
    return s

def go(s):
    s.tail.append("go"); return s

# ---------------------------------------------------------------- families ---
def plain(rng, dim, deg):
    s = body(rng, dim, deg)
    s.set(musl=rng.random() < 0.4, em=rng.choice(["Hencky", "NeoHookean"]))
    return go(s)

def plain_musl(rng, dim, deg):
    return plain(rng, dim, deg).set(musl=rng.random() < 0.9)

def rigid(rng, dim, deg):
    """uniform translation by exact fractions of a cell: particles land exactly on lattice places"""
    r = rng
    s = body(r, dim, deg, n=r.randint(2, 5), dx=r.choice([1.0, 0.5, 0.25, 0.1]), F=0, B=False, tau=False, speed=0.0, lattice=1.0)
    s.set(nu=0.3, flip=r.choice([-0.95, 0.0, 1.0, -2.0, 0.95]), grav=[0.0] * dim, E=s.p["rho"])  # wave speed 1
    s.c = 1.0
    m = r.choice([1, 2, 4])
    dirn = [r.choice([-1, 0, 1, 1]) for _ in range(dim)]
    s.set(cfle=1.0, cfl=20.0)
    dt = s.dx / m
    v = [d * s.dx / (m * dt) for d in dirn]       # 1/m of a cell per step of dt = dx/m (speed <= sqrt(dim))
    s.parts["v"] = [list(v) for _ in range(s.n)]
    s.set(endf=r.choice([2 * m, 3 * m]), fps=1.0 / dt)
    return go(s)

def wander(rng, dim, deg):
    """longer runs in which the cloud spreads or contracts over several cells"""
    r = rng
    s = body(r, dim, deg, n=r.randint(2, 5), F=0, tau=False, B=False, speed=0.0)
    cx = [o + 0.5 * c * s.dx for o, c in zip(s.origin, s.cells)]
    k = r.choice([-1.0, 1.0]) * s.c
    s.parts["v"] = [[k * (x[a] - cx[a]) / s.dx + 0.3 * s.c * r.uniform(-1, 1) for a in range(dim)] for x in s.parts["x"]]
    s.set(flip=r.choice([1.0, 0.95, -1.0, -0.95]), cfl=r.choice([0.5, 0.9]))
    if r.random() < 0.3:
        s.set(ref=[o + r.uniform(-4, 6) * s.dx for o in s.origin])
    steps(s, r.randint(4, 10))
    return go(s)

def clock(rng, dim, deg):
    """time stepping: many frames, limits from speed, waves, frames; gravity ramps"""
    r = rng
    s = body(r, dim, deg, n=r.randint(1, 3), cells=[0.5] * dim, F=r.choice([0, 0.02]))
    sp = r.choice([0.0, 1e-11, 9e-11, 1.1e-10, 0.5, 1.0, 3.0, 20.0])
    s.parts["v"] = [[sp * s.c * r.uniform(-1, 1) for _ in range(dim)] for _ in range(s.n)]
    if r.random() < 0.3: s.parts["v"] = [[1e-10 * r.choice([0.5, 0.99, 1.01]) if a == 0 else 0.0 for a in range(dim)] for _ in range(s.n)]
    s.set(cfl=r.choice([0.5, 0.2, 0.9]), cfle=r.choice([0.5, 0.3, 0.8]))
    fr = r.randint(1, 5)
    steps(s, r.choice([0.7, 1.0, 1.5, 2.5, 3.0, 1.7, 4.2]) + 0.5 if sp < 2 else r.choice([0.7, 1.0]), fr)
    fdt = 1.0 / s.p["fps"]
    if r.random() < 0.3: s.set(mindt=r.choice([1e-3, 1e-2, 0.05]) * fdt)
    if r.random() < 0.6:
        s.set(gspecial=True, gtime=r.choice([0.5, 1.0, 0.37 * fr, 3.0 * fr, 1e-9]) * fdt)
    s.set(grav=[r.uniform(-1.5, 1.5) * s.c / (fr * fdt) for _ in range(dim)])   # at most about doubles the speed of waves
    s.set(musl=r.random() < 0.3)
    s.lines.append("maxev %d" % (1500 + 14 * (fr * fdt / s.p["mindt"] if "mindt" in s.p else 0)))
    return go(s)

# ---- boundaries
PT2 = ["top", "bottom", "left", "right"]
def add_plate(s, r, kind=None, moving=None):
    dim, dx, c = s.dim, s.dx, s.c
    t = kind or r.choice(PT2 + (["front", "back"] if dim == 3 else []))
    a = {"left": 0, "right": 0, "bottom": 1, "top": 1, "front": 2, "back": 2}[t]
    side = 1 if t in ("left", "bottom", "back") else -1
    lo, hi = s.origin[a], s.origin[a] + s.cells[a] * dx
    face = lo if side == 1 else hi
    pos = face + r.choice([0.0, -0.5, 0.5, r.uniform(-1.5, 1.5)]) * dx * side
    ea = {"left": 1, "right": 1, "bottom": 0, "top": 0, "front": None, "back": None}[t]
    lower, upper = -1e15, 1e15
    if r.random() < 0.45 and ea is not None:
        m = s.origin[ea] + 0.5 * s.cells[ea] * dx
        reach = r.choice([0.3, 1.0, 2.5, 0.4 * s.cells[ea]])
        lower = m - r.uniform(0.1, 1.0) * reach * dx if r.random() < 0.7 else -1e15
        upper = m + r.uniform(0.1, 1.0) * reach * dx if r.random() < 0.7 else 1e15
    mv = moving if moving is not None else r.random() < 0.5
    V = [r.uniform(-0.4, 0.4) * c if (mv and r.random() < 0.8) else 0.0 for _ in range(3)]
    vmin, load = (r.choice([1.0, 2.0, 10.0, 0.5]), r.choice([0.0, 0.5, 1.0, 1.5, 3.0])) if mv else (1.0, 0.0)
    bc = r.choice(["NoSlip", "SlipStick", "SlipFree", "SlipStick", "SlipFree"])
    fr = r.choice([0.0, 0.2, 0.5, 1.0, r.uniform(0, 2), 20.0])
    s.lines.append("plate %s %s %s %s %s %s %s %s %s %s %s" % (f(pos), t, bc, f(fr), f(lower), f(upper), f(V[0]), f(V[1]), f(V[2]), f(vmin), f(load)))
    return s

def plates(rng, dim, deg):
    s = body(rng, dim, deg, speed=rng.choice([0.1, 0.5, 1.0]))
    for _ in range(rng.choice([1, 1, 2, 3, 5])): add_plate(s, rng)
    s.set(musl=rng.random() < 0.25)
    return go(s)

def platemotion(rng, dim, deg):
    r = rng
    s = body(r, dim, deg, n=r.randint(1, 2), cells=[0.3] * dim, F=0, tau=False, B=False)
    for _ in range(r.choice([1, 2])): add_plate(s, r, moving=True)
    steps(s, r.choice([1.2, 2, 3, 4]), r.choice([1, 2, 3]))
    return go(s)

def place(s, target):
    """shift the body so that its middle is at the target"""
    for k in range(s.dim):
        mid = s.origin[k] + 0.5 * s.cells[k] * s.dx
        d = target[k] - mid
        s.origin[k] += d
        for x in s.parts["x"]: x[k] += d

def add_terrain(s, r, kind):
    bc = r.choice(["NoSlip", "SlipStick", "SlipFree", "SlipStick", "SlipFree"])
    fr = r.choice([0.0, 0.0, 0.2, 0.5, 1.0, r.uniform(0, 2), 20.0])
    arg = []
    if kind in ("ground", "gate", "silo"): arg = [s.arg]
    if kind == "plane":
        nrm = [r.uniform(-1, 1) for _ in range(s.dim)]
        if r.random() < 0.3: nrm = [0.0] * s.dim; nrm[r.randrange(s.dim)] = r.choice([-1.0, 1.0])
        l = math.sqrt(sum(a * a for a in nrm)); nrm = [a / l for a in nrm]
        mid = [o + 0.5 * c * s.dx for o, c in zip(s.origin, s.cells)]
        off = sum(a * b for a, b in zip(nrm, mid)) + r.uniform(-1.5, 1) * s.dx
        arg = nrm + [off]
    s.lines.append("object %s %s %s %s" % (kind, bc, f(fr), vec(arg)))

def terrain_at(rng, dim, deg, kind, **kw):
    r = rng
    dx = {"ground": None, "plane": None, "bump": r.choice([0.01, 0.02, 0.005]), "ramp": r.choice([0.01, 0.03]), "curve": r.choice([0.1, 0.2, 0.5]),
          "gate": r.choice([0.01, 0.02, 0.005]), "silo": r.choice([0.1, 0.2])}[kind]
    s = body(r, dim, deg, dx=dx, speed=r.choice([0.1, 0.5, 1.0]), **kw)
    dx = s.dx
    z = s.origin[2] if dim == 3 else 0
    if kind == "ground":
        s.arg = s.origin[1] + r.choice([0.0, r.uniform(-1, 1.5)]) * dx
    elif kind == "bump":
        x = 0.43 + r.uniform(-0.15, 0.15); place(s, [x, 0.0475 / math.cosh(25 * (x - 0.43)) + r.uniform(-0.5, 1.5) * dx, z][:dim])
    elif kind == "ramp":
        x = r.uniform(-0.03, 0.03); place(s, [x, 0.1 * math.tanh(-100 * x) + r.uniform(-0.5, 1.5) * dx, z][:dim])
    elif kind == "curve":
        x = r.uniform(-2, 2); place(s, [x, x * x + r.uniform(-0.5, 1.5) * dx, z][:dim])
    elif kind == "gate":
        s.arg = r.choice([0.016, 0.05]); x = r.uniform(-0.04, 0.04); place(s, [x, s.arg + 100 * x * x - r.uniform(-0.5, 1.5) * dx, z][:dim])
    elif kind == "silo":
        s.arg = r.choice([-1.0, -0.5]); th = r.uniform(0, 6.28); y = r.uniform(-0.6, 1.0); R = math.tanh(y) + 1 - r.uniform(-0.5, 1.0) * dx
        if r.random() < 0.3: y = s.arg + r.uniform(-1, 1) * dx
        place(s, [R * math.cos(th), y, R * math.sin(th)])
    add_terrain(s, r, kind)
    if r.random() < 0.3: add_terrain(s, r, "plane")
    if r.random() < 0.2: add_plate(s, r)
    return s

TERR2 = ["ground", "plane", "bump", "ramp", "curve", "gate"]
def terrains(rng, dim, deg):
    s = terrain_at(rng, dim, deg, rng.choice(TERR2 + (["silo"] if dim == 3 else [])))
    s.set(musl=rng.random() < 0.25)
    return go(s)

# ---- periodicity
def pbc(rng, dim, deg, **kw):
    r = rng
    dx = kw.pop("dx", None) or r.choice([1.0, 0.5, 0.1, 0.25])
    nl = r.choice([8, 9, 10])
    L = nl * dx
    n = r.randint(3, 7)
    s = body(r, dim, deg, dx=dx, n=n, cells=[1.0] * dim, origin=[0.0] * dim, **kw)
    xs = []
    for _ in range(n):
        u = r.choice([0.0, nl, r.uniform(0, 2), nl - r.uniform(0, 2), r.uniform(0, nl), 0.5, nl - 0.5, 3.9, 4.1, nl - 3.99, 2.0, nl - 2.0, 1e-9, nl - 1e-9])
        x = [u * dx if u != nl else L] + [r.choice([1.0, 1.5, r.uniform(0.9, 2.4)]) * dx for _ in range(dim - 1)]
        xs.append(x)
    s.parts["x"] = xs
    for v in s.parts["v"]: v[1] *= 0.2          # a periodic run has a fixed grid: stay inside it vertically
    s.set(pbc=True, Lx=L, Ly=3 * dx, Lz=3 * dx)
    s.c2 = L
    return s

def periodic(rng, dim, deg):
    s = pbc(rng, dim, deg)
    if rng.random() < 0.5:   # crossing the ends
        s.parts["v"] = [[rng.choice([-1, 1]) * s.c * rng.uniform(0.2, 1)] + v[1:] for v in s.parts["v"]]
    s.set(musl=rng.random() < 0.4, grav=[rng.uniform(-1, 1) * s.c] + [0.0] * (dim - 1))
    if rng.random() < 0.2: s.set(threads=4)
    steps(s, rng.randint(1, 4))
    return go(s)

def periodic_mibf(rng, dim, deg):
    s = pbc(rng, dim, deg, F=0, tau=False)
    law_params(s, rng, rng.choice(["DPMui", "DPVisc", "MCCMui", "MCC"]))
    s.set(mibf=True)
    steps(s, rng.randint(1, 3))
    return go(s)

# ---- material laws
def expm_sym(H):
    d = len(H)
    R = [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)]; T = [row[:] for row in R]
    for k in range(1, 25):
        T = [[sum(T[i][m] * H[m][j] for m in range(d)) / k for j in range(d)] for i in range(d)]
        R = [[R[i][j] + T[i][j] for j in range(d)] for i in range(d)]
    return R
def mul(A, B): return [[sum(A[i][m] * B[m][j] for m in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]
def rot(r, d):
    a = r.uniform(-3, 3); c, s_ = math.cos(a), math.sin(a)
    R = [[c, -s_], [s_, c]]
    if d == 2: return R
    R = [[c, -s_, 0], [s_, c, 0], [0, 0, 1.0]]
    b = r.uniform(-3, 3); c, s_ = math.cos(b), math.sin(b)
    return mul(R, [[1.0, 0, 0], [0, c, -s_], [0, s_, c]])

def strained(r, d, vol, dev):
    """a rotated deformation with log-volume vol and random deviator of size ~dev"""
    H = sym(r, d, dev)
    tr = sum(H[i][i] for i in range(d))
    for i in range(d): H[i][i] += (vol - tr) / d
    return mul(expm_sym(H), rot(r, d) if r.random() < 0.7 else [[1.0 if i == j else 0.0 for j in range(d)] for i in range(d)])

LAWS = ["VM", "DP", "DPSoft", "MCC", "VMVisc", "DPVisc", "MCCVisc", "DPMui", "MCCMui"]
def law_params(s, r, pm):
    d = s.dim
    E = s.p["E"] = r.choice([1e6, 1e5, 2.5e6, 1e7])
    nu = s.p["nu"] = r.choice([0.3, 0.2, 0.4, 0.0])
    s.c = math.sqrt(E / s.p["rho"])
    mu = E / (2 * (1 + nu)); lam = nu * E / ((1 + nu) * (1 - 2 * nu)); K = lam + 2 * mu / d
    eps = r.choice([0.01, 0.03, 0.001])
    n = s.n
    qpre = 1 / math.sqrt(2)
    if r.random() < 0.3 and pm not in ("MCC", "MCCVisc", "MCCMui"): qpre = r.choice([math.sqrt(1.5), 1.0]); s.set(qpre=qpre)
    Q = 2 * qpre * mu * eps * math.sqrt(2); P = K * eps
    vols = {"VM": (-1, 1), "VMVisc": (-1, 1)}.get(pm, (-2, 0.7))
    s.parts["F"] = [strained(r, d, eps * r.uniform(*vols), eps * r.choice([0.0, 0.2, 1.0, 1.0, 2.0])) for _ in range(n)]
    s.parts["epd"] = [r.choice([0.0, r.uniform(0, 0.05)]) for _ in range(n)]
    s.parts["epv"] = [r.choice([0.0, r.uniform(-0.02, 0.02)]) for _ in range(n)]
    s.parts["epp"] = [r.choice([0.0, eps * r.uniform(-0.5, 0.5)]) for _ in range(n)]
    sp = r.choice([0.0, 0.3, 1.0]) * eps * s.c
    s.parts["v"] = [[r.uniform(-sp, sp) for _ in range(d)] for _ in range(n)]
    s.parts.pop("B", None)
    s.parts["tau"] = [sym(r, d, 0.1 * eps * E) for _ in range(n)]
    s.set(cfl=0.5, cfle=0.5, grav=[r.uniform(-1, 1) * eps * s.c * s.c / s.dx * 0.1 for _ in range(d)])
    dt = 0.5 * s.dx / s.c
    s.set(pm=pm, pradhana=r.random() < 0.6, M=r.choice([1.0, 0.4, r.uniform(0.2, 1.6)]), qcoh=r.choice([0.0, 0.0, r.uniform(0, 1) * Q]),
          xi=r.choice([0.0, 5.0, r.uniform(0, 30)]), qmax=Q * r.uniform(0.2, 1.5), stol=1e-5)
    if pm == "VMVisc":
        s.set(qmin=s.p["qmax"] * r.uniform(0.1, 1.0), pmin=r.choice([-1e20, -P * r.uniform(0.2, 1)]))
        if r.random() < 0.3: s.set(xi=0.0)
    if pm in ("VMVisc", "DPVisc", "MCCVisc"):
        s.set(duvaut=r.random() < 0.4, vtime=dt * r.choice([0.0, 1.0, r.uniform(0, 5)]), vexp=r.choice([1.0, 0.5, 2.0, r.uniform(0.5, 2)]))
        if pm == "MCCVisc" and s.p["duvaut"]: s.set(vexp=1.0)
        if pm != "MCCVisc" and not s.p["duvaut"]: s.set(vtime=dt * 100 * r.choice([0.0, 1.0, r.uniform(0, 5)]))
    if pm in ("MCC", "MCCVisc", "MCCMui"):
        hl = ["ExpoExpl", "ExpoImpl", "SinhExpl", "SinhImpl"] + (["NoHard"] if pm != "MCCMui" else [])
        s.set(hl=r.choice(hl), p0=P * r.uniform(0.3, 2), beta=r.choice([0.0, 0.1, 0.5, r.uniform(0, 1)]), xi=r.choice([1.0, 5.0, r.uniform(0.5, 20)]))
        sof = math.asinh(s.p["p0"] / K) / s.p["xi"] if "Sinh" in s.p["hl"] else 1.0 / s.p["xi"]   # volume strain of complete softening
        if r.random() < 0.9: s.parts["epv"] = [r.choice([0.0, min(sof, 0.05) * r.uniform(-0.8, 0.6)]) for _ in range(n)]
    if pm in ("DPMui", "MCCMui"):
        mu1 = r.uniform(0.2, 0.6)
        s.set(mu1=mu1, mu2=mu1 + r.uniform(0.05, 0.5), Iref=r.choice([0.279, r.uniform(0.05, 1)]), gd=r.choice([1e-3, 1e-2, 0.1]), rhos=r.choice([2500.0, 1500.0]))
    return s

def law(pm):
    def g(rng, dim, deg):
        s = body(rng, dim, deg, n=rng.randint(5, 10), F=0, tau=False)
        law_params(s, rng, pm)
        s.set(musl=rng.random() < 0.3, em="Hencky")
        steps(s, rng.randint(1, 4))
        return go(s)
    return g
for _pm in LAWS: globals()["law_" + _pm] = law(_pm)

def tip(*laws):
    """trial states whose pressure is exactly that of the cone's tip: cohesionless, isochoric, at rest"""
    def g(rng, dim, deg):
        r = rng
        s = body(r, dim, deg, n=r.randint(4, 8), F=0, tau=False)
        law_params(s, r, r.choice(laws))
        n = s.n
        k = [r.choice([0.001, 0.01, 0.03, 0.1, 0.5]) for _ in range(n)]
        F = []
        for j in range(n):
            a = 1 + k[j] if r.random() < 0.7 else 1.0
            D = [a, 1 / a] + ([1.0] if dim == 3 else []); r.shuffle(D)
            if r.random() < 0.5: a = r.choice([2.0, 0.5]); D = [a, 1 / a] + ([1.0] if dim == 3 else [])
            F.append([[D[i] if i == q else 0.0 for q in range(dim)] for i in range(dim)])
        s.parts["F"] = F
        s.parts["v"] = [[0.0] * dim for _ in range(n)]
        s.parts["tau"] = [[[0.0] * dim for _ in range(dim)] for _ in range(n)]
        s.parts["epp"] = [0.0] * n
        s.set(grav=[0.0] * dim, qcoh=0.0, musl=r.random() < 0.3, em="Hencky")
        steps(s, 1)
        return go(s)
    return g
tip_dp = tip("DP", "DPSoft"); tip_visc = tip("DPVisc"); tip_mui = tip("DPMui")

def aimed(*laws):
    """trial states put where the law bends: at rest and unloaded, the trial state of the first step is exactly the deformation given"""
    def g(rng, dim, deg):
        r = rng
        s = body(r, dim, deg, n=r.randint(5, 9), F=0, tau=False)
        pm = r.choice(laws)
        law_params(s, r, pm)
        n, P = s.n, s.p
        E, nu = P["E"], P["nu"]
        mu = E / (2 * (1 + nu)); lam = nu * E / ((1 + nu) * (1 - 2 * nu)); K = lam + 2 * mu / dim
        e = 2 * P.get("qpre", 1 / math.sqrt(2)) * mu
        if pm == "DPSoft": s.set(xi=r.choice([0.0, 5.0, 50.0, 300.0]), qcoh=r.choice([0.0, 0.01, 0.03]) * K * P["M"])
        if pm in ("DP", "DPVisc", "DPMui") and r.random() < 0.5: s.set(qcoh=0.01 * K * r.uniform(0.2, 1))
        F = []
        for j in range(n):
            one = r.choice([1.0, 1.0, 1 - 1e-6, 1 + 1e-6, 0.9, 1.1, 0.3, 2.0])
            big = r.choice([0.0, 1e-3, 0.1, 0.5, 1.0, 3.0])
            if pm in ("VM", "VMVisc"):
                qy = P["qmax"] if pm == "VM" else P["qmin"] + (P["qmax"] - P["qmin"]) * math.exp(-P["xi"] * s.parts["epd"][j])
                p, q = r.choice([0.0, 1.0, -1.0, 0.3]) * qy, qy * one
                if pm == "VMVisc" and P["pmin"] > -1e19 and r.random() < 0.5: p = P["pmin"] * math.exp(-P["xi"] * s.parts["epv"][j]) * r.choice([one, 1.01, 0.99, 2.0])
            elif pm in ("DP", "DPSoft", "DPVisc", "DPMui"):
                M = P["mu1"] if pm == "DPMui" else P["M"]
                tip_ = -P["qcoh"] / M * (math.exp(-P["xi"] * s.parts["epd"][j]) if pm == "DPSoft" else 1.0)
                sh = -K * s.parts["epp"][j] if (pm == "DPMui" or (pm in ("DPSoft", "DPVisc") and P["pradhana"])) else 0.0
                sc = max(-tip_, 0.003 * K)
                p = tip_ - sh + sc * r.choice([-2.0, -0.5, -0.01, 0.0, 1e-6, 1e-3, 0.05, 0.3, 0.9, 1.0, 2.0, 5.0])
                qy = M * (p + sh - tip_)
                q = r.choice([max(qy, 0.0) * one, max(qy, 0.0) + sc * big, 0.0])
            else:
                M = P["mu1"] if pm == "MCCMui" else P["M"]
                ev = s.parts["epv"][j]
                pc = K * math.sinh(-P["xi"] * ev + math.asinh(P["p0"] / K)) if "Sinh" in P["hl"] else P["p0"] * (math.exp(-P["xi"] * ev) if "Expo" in P["hl"] else 1.0)
                pc = max(pc, 0.05 * P["p0"]); b = P["beta"]
                p = pc * r.choice([-b - 1, -b - 0.1, -b - 0.001, -b, -b + 0.001, 0.0, 0.5 * (1 - b), 0.9, 1.0, 1.001, 1.1, 2.0, r.uniform(-b, 1), r.uniform(-b, 1)])
                qy = M * math.sqrt(max(0.0, (pc - p) * (p + b * pc)))
                q = r.choice([qy * one, qy + M * pc * big, M * pc * big])
            H = sym(r, dim, 1.0); tr = sum(H[i][i] for i in range(dim))
            for i in range(dim): H[i][i] -= tr / dim
            nn = math.sqrt(sum(H[i][k] ** 2 for i in range(dim) for k in range(dim)))
            if min(q / e, 1.0) < 0 or nn == 0: q = 0.0; nn = 1.0
            dn = min(q / e, 0.5); vol = max(-0.6, min(0.6, -p / K))
            for i in range(dim):
                for k in range(dim): H[i][k] *= dn / nn
                H[i][i] += vol / dim
            F.append(mul(expm_sym(H), rot(r, dim)))
        s.parts["F"] = F
        s.parts["v"] = [[0.0] * dim for _ in range(n)]
        s.parts["tau"] = [[[0.0] * dim for _ in range(dim)] for _ in range(n)]
        s.set(grav=[0.0] * dim, musl=r.random() < 0.3, em="Hencky", mibf=r.random() < 0.3)
        if pm == "DPVisc" and s.p["mibf"]: s.set(qcoh=0.0)
        steps(s, 1)
        return go(s)
    return g
aim_0 = aimed("VM", "DP", "DPSoft", "DPSoft", "MCC", "MCC"); aim_visc = aimed("VMVisc", "DPVisc", "MCCVisc"); aim_mui = aimed("DPMui", "MCCMui"); aim_any = aimed(*LAWS)

def elastic(rng, dim, deg):
    r = rng
    s = body(r, dim, deg, F=0, tau=False)
    e = r.choice([1e-9, 0.01, 0.1, 0.3])
    s.parts["F"] = [strained(r, dim, e * r.uniform(-1, 1), e * r.choice([0.0, 0.5, 1.0])) for _ in range(s.n)]
    if r.random() < 0.3: s.parts["F"][0] = [[1.0 if i == j else 0.0 for j in range(dim)] for i in range(dim)]
    s.set(em=r.choice(["Hencky", "NeoHookean"]), musl=r.random() < 0.4)
    return go(s)

def within(rng, dim, deg):
    """laws with plasticity, but states well inside the elastic range"""
    r = rng
    pm = r.choice(["VM", "DP", "DPSoft", "VMVisc", "DPVisc", "DPMui"])
    s = body(r, dim, deg, F=0, tau=False); law_params(s, r, pm)
    s.parts["F"] = [strained(r, dim, r.choice([-0.05, -0.05, -0.4, 0.2, 0.0]), r.choice([1e-4, 1e-2, 0.2])) for _ in range(s.n)]
    s.set(qmax=1e12, qmin=1e12, pmin=-1e20, qcoh=1e12 if pm != "DPMui" else 0.0, xi=0.0)
    s.parts["epp"] = [0.0] * s.n
    steps(s, r.randint(1, 3))
    return go(s)

def resting(rng, dim, deg):
    """every law at its usual strength, with small shear: most trial states stay inside the elastic range, some come close to its edge"""
    r = rng
    pm = r.choice(LAWS)
    s = body(r, dim, deg, F=0, tau=False); law_params(s, r, pm)
    K = s.p["E"] / (3 * (1 - 2 * s.p["nu"]))
    e = r.choice([0.01, 0.003, 0.001])
    if pm in ("MCC", "MCCVisc", "MCCMui"): e = s.p["p0"] / K * r.uniform(0.2, 0.8)
    k = r.choice([0.02, 0.1, 0.3])
    s.parts["F"] = [strained(r, dim, -e * r.uniform(0.2, 1), e * r.uniform(0, k)) for _ in range(s.n)]
    if r.random() < 0.5: s.parts["epp"] = [0.0] * s.n
    sp = r.choice([0.0, 0.02, 0.2]) * e * s.c
    s.parts["v"] = [[r.uniform(-sp, sp) for _ in range(dim)] for _ in range(s.n)]
    s.set(musl=r.random() < 0.5, em="Hencky")
    steps(s, r.randint(1, 3))
    return go(s)

def mibf(rng, dim, deg):
    """boundaries that take their friction from the material"""
    r = rng
    pm = r.choice(["DPMui", "DPMui", "MCCMui", "DPVisc", "DPVisc", "MCCVisc", "MCC", "VM", "DP"])
    s = body(r, dim, deg, F=0, tau=False); law_params(s, r, pm)
    s.set(mibf=True, musl=r.random() < 0.2)
    if pm == "DPVisc": s.set(qcoh=0.0)
    sp = 0.5 * s.c
    s.parts["v"] = [[r.uniform(-sp, sp) * 0.1 for _ in range(dim)] for _ in range(s.n)]
    if r.random() < 0.6: add_plate(s, r)
    else: add_terrain(s, r, "plane")
    steps(s, r.randint(1, 4))
    return go(s)

# ---- output
def output(rng, dim, deg):
    r = rng
    s = body(r, dim, deg, n=r.randint(1, 4), cells=[0.6] * dim, F=0, tau=False)
    if r.random() < 0.75:
        law_params(s, r, r.choice(LAWS)); s.set(mibf=r.random() < 0.4)
        if s.p["pm"] == "DPVisc": s.set(qcoh=0.0)
    s.set(savegrid=r.random() < 0.5, musl=r.random() < 0.2)
    if r.random() < 0.2: s.set(grav=[0.0] * dim)
    steps(s, r.choice([1, 2, 3]), r.choice([1, 2, 3]))
    if r.random() < 0.15:      # the run fails on the way: it runs into a boundary without a law
        s.lines.append("plate %s bottom invalid 0.5 -1e15 1e15 0 0 0 1 0" % f(s.origin[1] - r.uniform(1.2, 2.8) * s.dx))
        for v in s.parts["v"]: v[1] = -0.8 * s.c
        steps(s, r.choice([1, 2]), 3)
    quiet = r.random() < 0.08
    s.lines.append("save none" if quiet else r.choice(["save", "save fresh"]))
    go(s)
    s.tail.append("avg")
    if not quiet and r.random() < 0.5: s.tail.append("saveavg")
    return s

def archive(rng, dim, deg):
    """a saving run with two- or three-digit frame numbers"""
    r = rng
    s = body(r, dim, deg, n=r.randint(1, 2), cells=[0.6] * dim, F=0, tau=False, speed=0.0)
    s.set(grav=[0.0] * dim)
    s.parts["v"] = [[r.uniform(-0.01, 0.01) * s.c for _ in range(dim)] for _ in range(s.n)]
    s.set(savegrid=r.random() < 0.3, cfle=0.05)
    steps(s, 1, r.choice([11, 12, 21] + ([103] if not s.p["savegrid"] else [])))
    s.lines.append(r.choice(["save", "save fresh"])); s.lines.append("maxev 20000")
    return go(s)

# ---- refusals
def refusal(rng, dim, deg):
    r = rng
    s = body(r, dim, deg, n=2, cells=[0.5] * dim)
    k = r.choice(["noinit", "neo", "exit", "ok", "bcplate", "bcobj", "hl", "okneo", "visc", "nowhere"])
    if k == "noinit": s.lines.append("noinit")
    if k == "neo": s.set(em="NeoHookean", pm=r.choice(LAWS))
    if k == "okneo": s.set(em="NeoHookean")
    if k == "exit": s.set(exit=1)
    if k == "nowhere": s.lines.append("save nowhere")
    if k == "bcplate":
        if r.random() < 0.4: s.lines.append("plate %s bottom invalid 0.5 -1e15 1e15 0 0 0 1 0" % f(s.origin[1] + r.choice([0.0, -50.0]) * s.dx))
        else:               # any side, among valid ones, perhaps met only on a later step
            far = r.choice([0.0, 0.0, 2.5, 3.5, 50.0])
            for _ in range(r.choice([1, 1, 2])):
                add_plate(s, r); w = s.lines[-1].split()
                if _ == 0:
                    side = 1 if w[2] in ("left", "bottom", "back") else -1
                    s.lines[-1] = " ".join(["plate", f(float(w[1]) - side * far * s.dx), w[2], "invalid"] + w[4:])
            a = {"left": 0, "right": 0, "bottom": 1, "top": 1, "front": 2, "back": 2}[s.lines[0].split()[2]]
            side = 1 if s.lines[0].split()[2] in ("left", "bottom", "back") else -1
            if far:
                for v in s.parts["v"]: v[a] = -side * s.c * 0.8
            s.set(musl=r.random() < 0.3); steps(s, r.randint(1, 6))
    if k == "bcobj":
        if r.random() < 0.5: s.lines.append("object ground invalid 0.5 %s" % f(s.origin[1] + r.choice([0.0, -50.0]) * s.dx))
        else:
            add_terrain(s, r, "plane"); w = s.lines[-1].split(); s.lines[-1] = " ".join([w[0], w[1], "invalid"] + w[3:])
            if r.random() < 0.4: add_terrain(s, r, "plane")
            if r.random() < 0.5: s.lines.reverse()
            s.set(musl=r.random() < 0.3); steps(s, r.randint(1, 4))
    if k == "hl":
        law_params(s, r, r.choice(["MCC", "MCCVisc", "MCCMui"])); s.set(hl="invalid")
        if s.p["pm"] == "MCCMui" and r.random() < 0.5: s.set(hl="NoHard")
        steps(s, 2)
    if k == "visc":
        law_params(s, r, "MCCVisc"); s.set(duvaut=True, vexp=r.choice([1.5, 0.5, 2.0]), vtime=1.0, musl=r.random() < 0.3); steps(s, 2)
        if r.random() < 0.5: s.set(p0=1.0)
    if r.random() < 0.3: s.set(endf=2)
    go(s)
    if r.random() < 0.3: go(s)          # once failed, always refused; otherwise it simply runs again
    return s

# ---- sampling, geometry
def sampling(rng, dim, deg):
    r = rng
    s = Sc(r, dim, deg)
    dx = r.choice([0.1, 0.25, 1.0, r.uniform(0.05, 0.5)])
    ppc = r.choice([4.0, 8.0, 6.0, 1.0, 9.0, 27.0])
    h = dx / (ppc ** (1.0 / dim))
    L = [h * (r.randint(1, 9 if dim == 2 else 5) + r.uniform(0.05, 0.95)) for _ in range(3)]
    crop = r.choice([0, 0, 1, 2] if dim == 3 else [0, 0, 1])
    if dim == 2 and crop == 1: L[0] = r.uniform(0.02, 0.06); L[1] = 0.2; dx = r.choice([0.005, 0.01]); ppc = 4.0
    s.set(Lx=L[0], Ly=L[1], Lz=L[2], dx=dx, rho=r.choice([1000.0, r.uniform(1, 3000)]))
    if r.random() < 0.6: s.tail.append("regular %s %d" % (f(ppc), crop))
    else: s.tail.append("poisson %s %d %s %d" % (f(ppc), crop, f(min(L[:dim]) * r.uniform(0.2, 0.6)), r.randint(0, 10**6)))
    return s

def geometry(rng, dim, deg):
    r = rng
    s = Sc(r, dim, deg)
    s.origin, s.cells, s.dx, s.c = [0.0] * dim, [2.0] * dim, 0.5, 1.0
    s.set(dx=0.5)
    pts = []
    def near(v): return v + r.choice([0.0, 0.0, 1e-12, -1e-12, 1e-3, -1e-3, r.uniform(-1, 1)])
    for _ in range(3): add_plate(s, r)
    for l in list(s.lines):
        w = l.split()
        if w[0] != "plate": continue
        a = {"left": 0, "right": 0, "bottom": 1, "top": 1, "front": 2, "back": 2}[w[2]]
        for _ in range(6):
            X = [r.uniform(-2, 2) for _ in range(dim)]; X[a] = near(float(w[1]))
            if a < 2:
                e = 1 - a
                for v in (w[5], w[6]):
                    if abs(float(v)) < 1e10 and r.random() < 0.5: X[e] = near(float(v))
            pts.append(X)
    kinds = TERR2[:1] + TERR2[2:] + (["silo"] if dim == 3 else []) + ["plane"]
    for k in kinds:
        s.arg = {"ground": r.uniform(-1, 1), "gate": 0.016, "silo": r.choice([-1.0, -0.4])}.get(k, 0.0)
        add_terrain(s, r, k)
        for _ in range(6):
            x, y, z = r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1)
            if k == "ground": y = near(s.arg)
            if k == "bump": x = 0.43 + r.uniform(-0.2, 0.2); y = 0.0475 / math.cosh(25 * (x - 0.43)) * r.choice([0.5, 0.99, 1.01, 2])
            if k == "ramp": x = r.uniform(-0.05, 0.05); y = 0.1 * math.tanh(-100 * x) + r.choice([-1e-3, 1e-3, 0.1, -0.1])
            if k == "curve": x = r.choice([0.0, 0.5, -1.5, 2.0, x]); y = x * x + r.choice([0.0, 1e-9, -1e-9, 0.1])
            if k == "gate": x = r.uniform(-0.1, 0.1); y = s.arg + 100 * x * x + r.choice([1e-6, -1e-6, 0.1, -0.1])
            if k == "silo":
                y = r.choice([s.arg, s.arg - 1e-9, s.arg + 1e-9, r.uniform(-1.5, 2)]); R = (math.tanh(y) + 1) * r.choice([0.3, 0.999, 1.001, 2]); th = r.uniform(-3.1, 3.1)
                x, z = R * math.cos(th), R * math.sin(th)
            pts.append([x, y, z][:dim])
    s.tail.append("cfg")
    for X in pts: s.tail.append("query " + vec(X))
    return s

def levelset(rng, dim, deg):
    """a signed distance on voxels: spheres, planes, unions, noise, constant patches"""
    r = rng
    s = Sc(r, dim, deg)
    h = r.choice([0.1, 0.5, 1.0, r.uniform(0.02, 0.7)])
    n = [r.randint(6, 9) for _ in range(3)]
    lo = [r.randint(-12, 6) for _ in range(3)]
    if dim == 2: lo[2] = -r.randint(2, n[2] - 4)
    kind = r.choice(["sphere", "sphere", "plane", "noise", "union", "full", "flat"])
    mid = [(lo[d] + (n[d] - 1) * r.uniform(0.3, 0.7)) * h for d in range(3)]
    if dim == 2: mid[2] = r.uniform(-0.3, 0.3) * h
    R = min(n) * h * r.uniform(0.2, 0.45)
    nr = [r.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(a * a for a in nr)); nr = [a / l for a in nr]
    m2 = [a + r.uniform(-2, 2) * h for a in mid]
    def phi(X):
        d1 = math.dist(X, mid) - R
        if kind == "sphere": return d1
        if kind == "plane": return sum(a * (b - c) for a, b, c in zip(nr, X, mid))
        if kind == "union": return min(d1, math.dist(X, m2) - 0.7 * R)
        if kind == "noise": return r.uniform(-1, 1) * h
        if kind == "full": return -1.0 * h - 0.1 * abs(X[0] - mid[0])
        return h if X[0] > mid[0] + 1e-9 else (-h if r.random() < 0.0 or X[1] > mid[1] else -2 * h)
    vals = []
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]): vals.append(phi([(lo[0] + i) * h, (lo[1] + j) * h, (lo[2] + k) * h]))
    s.set(rho=r.choice([1000.0, r.uniform(1, 3000)]), dx=h * r.choice([1.0, 2.0, 3.0, r.uniform(1.2, 4)]))
    s.tail.append("levelset %s %s %s %s" % (f(h), " ".join(map(str, lo)), " ".join(map(str, n)), vec(vals)))
    for _ in range(25):
        if r.random() < 0.85: X = [(lo[d] + 1 + r.uniform(0, n[d] - 3)) * h for d in range(dim)]
        else:
            X = [(lo[d] + r.uniform(0, n[d] - 1)) * h for d in range(dim)]
            d = r.randrange(dim); X[d] = r.choice([lo[d] - r.uniform(1.1, 5), lo[d] + n[d] + r.uniform(0.1, 5)]) * h
        if r.random() < 0.2: X = [round(x / h) * h for x in X]
        s.tail.append("lsquery " + vec(X))
    ppc = r.choice([4.0, 6.0, 8.0, 1.0])
    s.tail.append("lssample regular %s 0" % f(ppc))
    s.tail.append("lssample poisson %s %s" % (f(ppc), f(h * r.uniform(0.7, 2))))
    return s

# ---- everything at once
def combo(rng, dim, deg):
    """every option drawn independently: cell, law, boundaries, re-projection, friction source, ramps, frames, threads"""
    r = rng
    periodic_ = r.random() < 0.25
    s = pbc(r, dim, deg, F=0, tau=False) if periodic_ else body(r, dim, deg, F=0, tau=False)
    pm = r.choice(["NoPlasticity", "NoPlasticity"] + LAWS)
    if pm == "NoPlasticity":
        e = r.choice([1e-3, 0.01, 0.1])
        s.parts["F"] = [strained(r, dim, e * r.uniform(-1, 1), e * r.uniform(0, 1)) for _ in range(s.n)]
        s.set(em=r.choice(["Hencky", "NeoHookean"]))
    else:
        B = s.parts.get("B"); law_params(s, r, pm); s.set(em="Hencky")
        if B and r.random() < 0.5:
            k = 0.03 * s.dx * s.c
            s.parts["B"] = [mat(r, dim, k) for _ in range(s.n)]
        s.set(mibf=r.random() < 0.3)
        if s.p["mibf"] and pm == "DPVisc": s.set(qcoh=0.0)
    if periodic_:
        for v in s.parts["v"]: v[1] *= 0.2
        s.set(grav=[r.uniform(-1, 1) * s.c] + [0.0] * (dim - 1))
    s.set(musl=r.random() < 0.35)
    if not periodic_:
        for _ in range(r.choice([0, 0, 1, 2])): add_plate(s, r)
        if r.random() < 0.3: add_terrain(s, r, "plane")
        if r.random() < 0.2: s.arg = s.origin[1] + r.uniform(-1, 0.5) * s.dx; add_terrain(s, r, "ground")
        if r.random() < 0.2: s.set(ref=[o + r.uniform(-4, 6) * s.dx for o in s.origin])
    elif r.random() < 0.5:
        s.lines.append("plate %s bottom %s %s -1e15 1e15 0 0 0 1 0" % (f(r.uniform(0.5, 1.2) * s.dx), r.choice(["NoSlip", "SlipStick", "SlipFree"]), f(r.uniform(0, 1))))
    if r.random() < 0.4: s.set(threads=r.randint(2, 8))
    s.set(cfl=r.choice([0.5, 0.3, 0.8]))
    fr = r.choice([1, 1, 2, 3])
    steps(s, r.choice([1, 2, 3]) if fr > 1 else r.randint(1, 6), fr)
    if r.random() < 0.3: s.set(gspecial=True, gtime=r.uniform(0.2, 1.5) * fr / s.p["fps"])
    return go(s)

def long(rng, dim, deg):
    """many steps and frames of a small body: histories, counters, lattices far from where they began"""
    r = rng
    s = body(r, dim, deg, n=r.randint(1, 2), cells=[0.8] * dim, F=0, tau=False, B=False, speed=0.3)
    fr = r.choice([3, 12, 25])
    n = r.choice([40, 80, 120]) / fr
    s.set(flip=r.choice([-0.95, 0.95, -1.0, -2.0]), musl=r.random() < 0.3, cfl=r.choice([0.5, 0.25]))
    T = n * fr * 0.5 * s.dx / s.c
    s.set(grav=[r.uniform(-1, 1) * 0.4 * s.c / T for _ in range(dim)])
    if r.random() < 0.3: s.set(gspecial=True, gtime=r.uniform(0.1, 0.9) * T)
    if r.random() < 0.4: add_plate(s, r)
    sp = 0.4 * s.c
    s.parts["v"] = [[r.uniform(-sp, sp) for _ in range(dim)]] * s.n
    steps(s, n + 0.5, fr)
    s.lines.append("maxev 8000")
    return go(s)

def marathon(rng, dim, deg):
    """hundreds of frames of one particle: whatever drifts or overflows shows in the clock, the counters and the plates"""
    r = rng
    s = body(r, dim, deg, n=1, cells=[0.5] * dim, F=0, tau=False, B=False, speed=0.0, dx=1.0)
    s.parts["v"] = [[r.uniform(-0.01, 0.01) * s.c for _ in range(dim)]]
    fr = r.choice([200, 300])
    s.set(grav=[0.0] * dim, flip=-1.0, endf=fr, fps=r.choice([3.0, 7.0, 30.0, 49.0, 1000.0 / 3]))
    dtmax = 1.0 / s.p["fps"] * r.choice([0.4, 0.7, 1.0, 1.01])
    s.set(cfle=0.05, rho=1.0, E=(0.05 / dtmax) ** 2, pmass=s.p["pvol"], nu=r.choice([0.0, 0.2]))   # soft: stable for as long as it runs
    if r.random() < 0.5: s.lines.append("plate %s bottom SlipFree 0.2 -1e15 1e15 0.001 -0.002 0 2 %s" % (f(s.origin[1] - 3), f(fr / 2 + 0.5)))
    if r.random() < 0.5: s.set(gspecial=True, gtime=r.uniform(0.3, 0.8) * fr / s.p["fps"], grav=[0.0, -1e-6 * s.c] + [0.0] * (dim - 2))
    s.lines.append("maxev 40000")
    return go(s)

def hat(rng, dim, deg):
    """hat functions: particles exactly on nodes (the grid starts at the first particle) or well away from them; no affine modes"""
    r = rng
    dx = r.choice([1.0, 0.5, 0.25, 2.0])
    s = body(r, dim, deg, dx=dx, origin=[r.choice([-3, 0, 5, 2.5]) * dx for _ in range(dim)], B=False, lattice=0.0, cells=[r.choice([1.5, 3]) for _ in range(dim)])
    # multiples of 1/8 of a cell are exact, everything else is far from any node
    s.parts["x"] = [[o + dx * (r.randrange(0, 8 * 3) / 8.0 if r.random() < 0.6 else r.randrange(0, 3) + r.uniform(0.01, 0.99)) for o in s.origin] for _ in range(s.n)]
    s.set(flip=r.choice([0.0, 1.0, 0.95, 0.4]), musl=r.random() < 0.4, em=r.choice(["Hencky", "NeoHookean"]))
    if r.random() < 0.3: add_plate(s, r)
    steps(s, 1)
    return go(s)

def crowd(rng, dim, deg):
    """many particles"""
    r = rng
    s = body(r, dim, deg, n=r.randint(60, 120), cells=[r.choice([2.5, 4])] * dim)
    s.set(musl=r.random() < 0.4, em=r.choice(["Hencky", "NeoHookean"]), threads=r.choice([1, 3, 8]))
    if r.random() < 0.5: add_plate(s, r)
    steps(s, 1)
    return go(s)

def sparse(rng, dim, deg):
    """few particles, far apart along one or two axes"""
    r = rng
    s = body(r, dim, deg, n=r.randint(2, 4), cells=[0.5] * dim)
    far = [r.choice([0, 12, 40, 90])] + [r.choice([0, 3, 9])] + [0] * (dim - 2)
    if dim == 3: far = [min(a, 20) for a in far]; far[2] = r.choice([0, 5])
    r.shuffle(far)
    for x in s.parts["x"]:
        for k in range(dim): x[k] += s.dx * far[k] * r.choice([0, 1, -1, r.uniform(-1, 1)])
    s.set(musl=r.random() < 0.3)
    if r.random() < 0.3: add_plate(s, r)
    steps(s, 1.4)
    return go(s)

# ---- several threads
def threaded(base, lo=2, hi=8):
    def g(rng, dim, deg):
        s = base(rng, dim, deg)
        s.set(threads=rng.randint(lo, hi))
        return s
    return g
def many(rng, dim, deg):
    """more particles than threads, crowded on few nodes: every thread adds to the same nodes"""
    s = body(rng, dim, deg, n=rng.randint(10, 24), cells=[rng.choice([0.5, 1.5])] * dim)
    s.set(musl=rng.random() < 0.4, em=rng.choice(["Hencky", "NeoHookean"]), threads=rng.randint(2, 8))
    return go(s)
def race_any(rng, dim, deg):
    """small scenarios of every kind, on two to four threads (run under the thread sanitizer)"""
    k = rng.choice(["plain", "plain_musl", "plates", "terrains", "periodic", "periodic_mibf", "mibf", "output", "refusal", "law_" + rng.choice(LAWS), "law_" + rng.choice(LAWS), "many", "combo", "aim_any"])
    s = globals()[k](rng, dim, deg)
    s.set(threads=rng.randint(2, 4))
    return s
for _n in ["plain", "plates", "terrains", "periodic", "mibf", "clock"]: globals()["mt_" + _n] = threaded(globals()[_n])
for _pm in LAWS: globals()["mt_law_" + _pm] = threaded(globals()["law_" + _pm])

# ---- several runs of one simulation
def again(rng, dim, deg):
    """the same simulation run two or three times, with other settings in between: clock and frames begin anew, the grid stays on its lattice, plates and particles go on from where they are"""
    r = rng
    s = r.choice([plain, plates, platemotion, clock, periodic, combo, terrains, plain_musl])(r, dim, deg)
    if s.p.get("ref"): s.p.pop("ref")
    for _ in range(r.choice([1, 1, 2])):
        k = s.tail.append
        if r.random() < 0.5: k("set endf %d" % r.choice([0, 1, 2, 3]))
        if r.random() < 0.3: k("set flip %s" % f(r.choice([-0.95, -2.0, 0.0, 1.0, 0.5])))
        if r.random() < 0.3: k("set musl %d" % (r.random() < 0.5))
        if r.random() < 0.3: k("set fps %s" % f(s.p["fps"] * r.choice([0.5, 2.0, 1.3])))
        if r.random() < 0.3: k("set threads %d" % r.randint(1, 6))
        if r.random() < 0.3: k("set grav " + vec([r.uniform(-1, 1) * s.c for _ in range(dim)]) if hasattr(s, "c") else "# ")
        if r.random() < 0.2: k("set cfl %s" % f(r.choice([0.2, 0.7])))
        k("go")
    return s
