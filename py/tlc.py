"""Running TLC."""
import os, re, subprocess
from build import VERIF, CP, JAVADIR
SPEC = os.path.join(VERIF, "spec")

def tlc(module, env=None, cfg=None, workers=1, meta=None, heap="2g", extra=(), timeout=800):
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JAVADIR + ":" + CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning"] + list(extra)
    if cfg: cmd += ["-config", cfg]
    cmd.append(module)
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
