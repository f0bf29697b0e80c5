"""Builds the Java arithmetic and the harness variants from /repo's current working tree.
Everything goes to /verif/build, keyed by a hash of the inputs, so nothing stale is ever used."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVADIR = os.path.join(BUILD, "java")

class BuildError(Exception):
    pass

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

def java():
    src = os.path.join(VERIF, "java", "Num.java")
    key = digest([src])
    stamp = os.path.join(JAVADIR, "stamp." + key)
    if not os.path.exists(stamp):
        os.makedirs(JAVADIR, exist_ok=True)
        run(["javac", "-nowarn", "-cp", CP, "-d", JAVADIR, src])
        open(stamp, "w").close()

def repo_sources():
    s = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        s += [os.path.join(root, f) for f in files if f.endswith((".hpp", ".cpp", ".h"))]
    return s

COMMON = ["-std=c++17", "-fopenmp", "-w", "-DMATTER_VERIF", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN",
          "-ftrivial-auto-var-init=pattern", '-DSRC_DIR="%s/src"' % REPO, '-DINCLUDE_DIR="%s/levelsets"' % REPO,
          "-I/usr/include/eigen3", "-I%s/src" % REPO, "-I%s/stubs/a/b" % VERIF]

def flags(dim, deg, mode="plain"):
    f = COMMON + ["-DMATTER_VERIF_SPLINEDEG=%d" % deg] + (["-DTHREEDIM"] if dim == 3 else [])
    if mode == "plain": f = f + ["-O1"]
    elif mode == "vdb": f = f + ["-O0", "-DVERIF_VDB", "-DIMATH_HALF_NO_LOOKUP_TABLE", "-fno-var-tracking"]
    elif mode == "asan": f = f + ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    elif mode == "tsan": f = [x for x in f if x != "-D_GLIBCXX_ASSERTIONS"] + ["-O1", "-g1", "-fsanitize=thread"]
    return f

def harnesses(variants):
    """variants: list of (dim, deg, mode). Returns {variant: path}."""
    hs = glob.glob(os.path.join(VERIF, "harness", "*")) + glob.glob(os.path.join(VERIF, "stubs", "**", "*.h"), recursive=True)
    rs = repo_sources()
    out, jobs = {}, []
    for v in variants:
        fl = flags(*v)
        key = digest(rs + hs, " ".join(fl))
        d = os.path.join(BUILD, "h_%dd_%d_%s_%s" % (v[0], v[1], v[2], key))
        out[v] = os.path.join(d, "harness")
        if os.path.exists(out[v]): continue
        os.makedirs(d, exist_ok=True)
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "simulation", "*.cpp"))) + [os.path.join(VERIF, "harness", "harness.cpp"), os.path.join(VERIF, "harness", "fslog.cpp")]
        if v[2] == "tsan": srcs.append(os.path.join(VERIF, "harness", "gomp.cpp"))
        objs = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s)[:-4] + ".o"); objs.append(o)
            ff = [x for x in fl if not (v[2] == "tsan" and s.endswith("gomp.cpp") and x == "-fopenmp")]
            jobs.append((os.path.getsize(s), ["g++"] + ff + ["-c", s, "-o", o]))
        jobs.append((-1, (v, objs, out[v])))
    comp = [j[1] for j in sorted([j for j in jobs if j[0] >= 0], key=lambda j: -j[0])]
    # the big translation units first
    comp.sort(key=lambda c: 0 if ("harness.cpp" in c[-3] or "plasticity.cpp" in c[-3]) else 1)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, comp))
        def link(j):
            v, objs, exe = j
            extra = {"plain": ["-fopenmp"], "vdb": ["-fopenmp", "-lopenvdb", "-ltbb"], "asan": ["-fopenmp", "-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread", "-lpthread"]}[v[2]]
            try: run(["g++"] + objs + extra + ["-ldl", "-o", exe + ".tmp"])
            except BuildError as e:      # an OpenMP construct the observed run time does not know: no race observation, the other checks remain
                if v[2] == "tsan" and ("undefined reference to `GOMP_" in str(e) or "undefined reference to `omp_" in str(e)):
                    print("note: no race observation in this run: %s" % str(e)[-300:]); out[v] = None; return
                raise
            os.rename(exe + ".tmp", exe)
            for o in objs: os.unlink(o)
        list(ex.map(link, [j[1] for j in jobs if j[0] < 0]))
    return out

if __name__ == "__main__":
    java()
    print(harnesses([(2, 3, "plain"), (3, 2, "plain"), (2, 2, "plain"), (3, 3, "plain")]))
