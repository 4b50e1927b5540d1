"""Y01: the patches for Python's image libraries, in separate interpreters with
stand-ins for those libraries and the project's own decoding tool."""
import json, os, subprocess
import build, t01
from concurrent.futures import ThreadPoolExecutor


def main(run):
    tool = run.c.exe("dbrunsli", "plain")
    d, idx = t01.dump(run, run.cases)
    for i in idx:
        run.evals += 1
        run.nontrivial(t01.rd("%s/%d.jpg" % (d, i)))
    procs = 8
    def go(k):
        mine = [str(i) for i in idx if i % procs == k]
        tmp = "%s/tmp%d" % (run.scratch, k)
        os.makedirs(tmp)
        e = run.env()
        e.update(TMPDIR=tmp, BIN_JPEG_FROM_JXL=tool, PYTHONDONTWRITEBYTECODE="1")
        out = "%s/y%d.out" % (run.scratch, k)
        try:
            p = subprocess.run(["python3", "-B", build.VERIF + "/src/y01_case.py", build.REPO + "/contrib/py", d, out, tmp, str(run.c.seed)] + mine,
                               cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
            return k, p.returncode, p.stdout.decode("latin1"), out
        except subprocess.TimeoutExpired:
            return k, "timeout", "", out
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(go, range(procs)))
    for k, rc, text, out in res:
        lines = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
        done = False
        for f in lines:
            if f[0] == "V":
                run.fail(f[2], f[3], f[1], t01.rd("%s/%d.jpg" % (d, f[1])) if f[1] >= 0 else b"")
            elif f[0] == "E":
                run.ev(f[1], f[2])
            elif f[0] == "S":
                run.sample(f[1])
            elif f[0] == "D":
                done = True
        if rc != 0 or not done:
            run.fail("interpreter-failed", "exit %s: %s" % (rc, text[-1500:]))
