"""J01: the Java wrapper, in a JVM with JNI checking."""
import os, re, subprocess
import t01


def main(run):
    b = run.c.exe("jni", "plain")   # (library, class directory)
    lib, classes = b
    d, idx = t01.dump(run, run.cases)
    for i in idx:
        run.evals += 1
        run.nontrivial(t01.rd("%s/%d.jpg" % (d, i)))
    out = run.scratch + "/java.out"
    cmd = ["java", "-Xcheck:jni", "-Xmx2g", "-XX:ErrorFile=" + run.scratch + "/hs_err.log", "-XX:-CreateCoredumpOnCrash",
           "-cp", classes, "dev.brunsli.wrapper.J01", lib, d, str(run.cases), str(run.c.seed), out, "4"]
    for attempt in (0, 1):
        try:
            p = subprocess.run(cmd, cwd=run.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run.env(), timeout=300 if run.c.tier == "quick" else 3000)
            break
        except subprocess.TimeoutExpired:
            p = None
    lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
    last = {}
    done = False
    for l in lines:
        f = l.split("\t")
        if f[0] == "S":
            last[int(f[1])] = f[2]
        elif f[0] == "V":
            run.fail(f[2], f[3], int(f[1]), t01.rd("%s/%s.jpg" % (d, f[1])))
        elif f[0] == "E":
            run.ev(f[1], int(f[2]))
        elif f[0] == "D":
            done = True
    open_ = [(i, s) for i, s in last.items() if s != "done"]
    if p is None:
        run.fail("no-end", "twice; open cases %s" % open_)
        return
    text = p.stdout.decode("latin1")
    if not done:
        i = open_[0][0] if open_ else 0
        run.fail("jvm-died", "exit %s, open %s: %s" % (p.returncode, open_, text[-1500:]), i, t01.rd("%s/%d.jpg" % (d, i)) if open_ else b"")
    for m in sorted(set(re.findall(r"(?:WARNING in native method|FATAL ERROR in native method)[^\n]*", text))):
        run.fail("jni-misuse", m + text[:800])
    run.sample("%d files through encode and decode in 5 buffer forms on 4 threads" % len(idx))
