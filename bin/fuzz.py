"""Coverage-guided workloads (libFuzzer with ASan/UBSan) of the thorough tier."""
import glob, hashlib, os, re, subprocess, time
import t01


def main(run):
    import check
    mode = run.spec["fuzz"]
    exe = run.c.exe("fuzz", "fuzz")
    d, idx = t01.dump(run, run.spec.get("seeds", 600))
    corpus = run.scratch + "/corpus"
    os.makedirs(corpus)
    names = (".jpg",) if mode == "read" else (".in.brn", ".hostile.brn")
    for i in idx:
        for n in names:
            try:
                b = t01.rd("%s/%d%s" % (d, i, n))
            except OSError:
                continue
            if len(b) <= 5000:
                if mode == "groups":
                    b = bytes([i & 3, i >> 2 & 3]) + b
                with open("%s/%d%s" % (corpus, i, n), "wb") as f:
                    f.write(b)
    start = len(os.listdir(corpus))
    secs = int(max(20, min(run.cases, run.c.deadline - time.time() - 60)))
    env = run.env()
    env["BRN_FUZZ"] = mode
    env["ASAN_OPTIONS"] += ":handle_abort=1"
    procs = []
    for i in range(8):
        art = "%s/art%d/" % (run.scratch, i)
        os.makedirs(art)
        log = open("%s/fuzz%d.log" % (run.scratch, i), "wb")
        cmd = [exe, corpus, "-max_total_time=%d" % secs, "-seed=%d" % (run.c.seed * 8 + i + 1), "-max_len=8192", "-len_control=0", "-timeout=60",
               "-rss_limit_mb=3500", "-reload=20", "-print_final_stats=1", "-artifact_prefix=" + art, "-use_value_profile=%d" % (i & 1)]
        procs.append((i, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=run.scratch, start_new_session=True)))
    for i, p in procs:
        try:
            p.wait(timeout=max(30, secs + 90))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            run.inconclusive.append("fuzzing process %d did not end in time" % i)
        text = open("%s/fuzz%d.log" % (run.scratch, i), errors="replace").read()
        m = re.search(r"number_of_executed_units: (\d+)", text)
        n = int(m.group(1)) if m else max([0] + [int(x) for x in re.findall(r"^#(\d+)\s", text, re.M)])
        run.evals += n
        run.ev("inputs-executed", n)
        cov = [int(x) for x in re.findall(r"cov: (\d+)", text)]
        if cov:
            run.events["edges-covered"] = max(run.events.get("edges-covered", 0), max(cov))
        for a in glob.glob("%s/art%d/*" % (run.scratch, i)):
            blob = t01.rd(a)
            # again, alone
            t0 = time.time()
            try:
                r = subprocess.run([exe, "-timeout=120", "-rss_limit_mb=3500", a], env=env, cwd=run.scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                out, rc = r.stdout.decode("latin1"), r.returncode
            except subprocess.TimeoutExpired:
                out, rc = "timeout", 1
            if rc == 0:
                run.inconclusive.append("%s: not repeated (%.0f s)" % (os.path.basename(a), time.time() - t0))
                continue
            m = re.search(r"CHECK failed: (.*)", out)
            key = "fuzz-%s:%s" % (mode, m.group(1) if m else check.crash_key(rc, out))
            run.fail(key, out[-1500:], 0, blob)
    found = os.listdir(corpus)
    for f in found:
        run.nontrivial(t01.rd(corpus + "/" + f))
    run.ev("seed-inputs", start)
    run.ev("inputs-with-new-coverage", len(found) - start)
    run.sample("%s: %d inputs reached new coverage" % (mode, len(found) - start))
