"""T01: the command-line tools, run as processes."""
import hashlib, os, random, resource, signal, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

LIM = {"cpu": 120}


def dump(run, n, harness="main"):
    """Generated files and the library's verdicts about them."""
    exe = run.c.exe(harness, "plain")
    d = os.path.join(run.scratch, "dump")
    os.makedirs(d)
    ps = [subprocess.Popen([exe, "DUMP", "--seed", str(run.c.seed), "--cases", str(n), "--scratch", d,
                            "--shard", str(i), "--shards", "8"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=run.env())
          for i in range(8)]
    for p in ps:
        err = p.communicate()[1]
        if p.returncode != 0:
            # the library itself fails on these inputs: other properties say
            # so; here the cases that were written are used
            run.ev("dump-shard-died")
    return d, [i for i in range(n) if os.path.exists("%s/%d.info" % (d, i))]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def main(run):
    cfgs = run.spec["tool_configs"]
    tools = {(t, c): run.c.exe(t, c) for c in cfgs for t in ("cbrunsli", "dbrunsli", "cbrunsli-groups", "dbrunsli-groups")}
    d, idx = dump(run, run.cases)
    lock = threading.Lock()
    W = os.path.join(run.scratch, "w")
    os.makedirs(W)

    def call(exe, args, cwd, pre=None, stdin=None, timeout=120):
        run_lim = pre
        for attempt in (0, 1):
            p = subprocess.Popen([exe] + args, cwd=cwd, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, env=run.env(), preexec_fn=run_lim)
            try:
                out, err = p.communicate(timeout=timeout)
                with lock:
                    run.ev("processes")
                return p.returncode, out, err
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
        return None, b"", b""

    def fail(key, det, i, blob=b""):
        with lock:
            run.fail(key, det, i, blob)

    def clean(rc, err, key, i, blob):
        """Every run ends by exiting with 0 or 1."""
        if rc is None:
            fail(key + "-hangs", "no end within 120 s, twice", i, blob)
        elif rc not in (0, 1):
            fail(key + "-crashes", "exit %s: %s" % (rc, err[-600:].decode("latin1")), i, blob)
        elif rc == 1 and not err:
            fail(key + "-fails-silently", "", i, blob)
        else:
            return True
        return False

    def case(i):
        r = random.Random("%d/%d" % (run.c.seed, i))
        cfg = cfgs[i % len(cfgs)]
        w = "%s/%d" % (W, i)
        os.makedirs(w)
        enc, grp, hok, kind = rd("%s/%d.info" % (d, i)).decode().split(" ", 3)
        jpg = rd("%s/%d.jpg" % (d, i))
        name = r.choice(["a.jpg", "b c.jpeg", "x", "-n.jpg", "\u00e9\u6f22.jpg", "q.brn"])
        src = w + "/" + name

        def put(p, b):
            with open(p, "wb") as f:
                f.write(b)

        put(src, jpg)
        with lock:
            run.evals += 1
            run.nontrivial(jpg)
            run.ev("config:" + cfg)
        # how many bytes each tool has to write
        sizes = {"dbrunsli": len(jpg)}
        fam = [("", enc == "1")] + ([("-groups", grp == "1")] if i % 3 == 0 else [])
        for sfx, expect in fam:
            default = r.random() < 0.4
            out = src + ".brn" if default else w + "/out" + sfx
            pre = b"previous contents"
            had = r.random() < 0.5
            if had:
                put(out, pre)
            elif os.path.exists(out):
                os.unlink(out)
            rc, so, se = call(tools["cbrunsli" + sfx, cfg], [name] if default else [name, out], w)
            if not clean(rc, se, "cbrunsli" + sfx, i, jpg):
                continue
            with lock:
                run.ev("cbrunsli%s-exit-%d" % (sfx, rc))
            if rd(src) != jpg:
                fail("input-modified", "cbrunsli" + sfx, i, jpg)
            if rc == 0 and not expect and not sfx:
                fail("encodes-what-the-library-refuses", "", i, jpg)
            if rc != 0 and expect:
                fail("cbrunsli%s-refuses" % sfx, se[-200:].decode("latin1"), i, jpg)
            if rc != 0:
                if had != os.path.exists(out) or (had and rd(out) != pre):
                    fail("failed-run-touches-output", "cbrunsli" + sfx, i, jpg)
                continue
            if not os.path.exists(out):
                fail("success-without-output", "cbrunsli" + sfx, i, jpg)
                continue
            brn = rd(out)
            if not sfx:
                sizes["cbrunsli"] = len(brn)
            default2 = r.random() < 0.4
            back = out + ".jpg" if default2 else w + "/back" + sfx
            if r.random() < 0.3:
                put(back, b"z" * (len(jpg) + 1000))
            inplace = r.random() < 0.15
            if inplace:
                back, default2 = out, False
            rc, so, se = call(tools["dbrunsli" + sfx, cfg], [out] if default2 else [out, back], w)
            if not clean(rc, se, "dbrunsli" + sfx, i, jpg):
                continue
            if rc != 0:
                fail("dbrunsli%s-refuses-own-stream" % sfx, se[-200:].decode("latin1"), i, jpg)
            elif rd(back) != jpg:
                fail("round-trip%s-differs" % sfx, "default names" if default2 else "", i, jpg)
            elif not inplace and rd(out) != brn:
                fail("input-modified", "dbrunsli" + sfx, i, jpg)
            with lock:
                run.ev("round-trips" + sfx)
        # given streams
        for ext, ok, want in ((".in.brn", True, jpg), (".hostile.brn", hok == "1", None)):
            p = "%s/%d%s" % (d, i, ext)
            b = rd(p)
            if ok and want is None:
                want = rd("%s/%d.hostile.jpg" % (d, i))
            out = w + "/dec" + ext
            if not b:
                continue
            rc, so, se = call(tools["dbrunsli", cfg], [p, out], w)
            if not clean(rc, se, "dbrunsli", i, b):
                continue
            with lock:
                run.ev("dbrunsli-%s-exit-%d" % (kind if ok and ext == ".in.brn" else "hostile", rc))
            if (rc == 0) != ok:
                fail("dbrunsli-verdict-differs", "exit %d, library %s" % (rc, ok), i, b)
            elif rc == 0 and rd(out) != want:
                fail("dbrunsli-output-differs", kind, i, b)
            elif rc != 0 and os.path.exists(out):
                fail("failed-run-touches-output", "dbrunsli", i, b)
        # faults of the environment
        good = "%s/%d.in.brn" % (d, i)
        for tool, inp in (("cbrunsli", src), ("dbrunsli", good)):
            if (tool == "cbrunsli" and enc != "1") or not sizes.get(tool):
                continue
            exe = tools[tool, cfg]
            data = rd(inp)
            k = r.choice(["missing", "directory", "empty", "noarg", "manyargs", "emptyname", "outdir-missing", "out-is-dir", "full", "fsize", "fifo", "ok-symlink", "closed-stdio"])
            out = w + "/fault.out"
            if os.path.exists(out):
                os.unlink(out)
            pre, args, ok = None, [inp, out], False
            if k == "missing":
                args[0] = w + "/none"
            elif k == "directory":
                args[0] = w
            elif k == "empty":
                put(w + "/empty", b"")
                args[0] = w + "/empty"
            elif k == "noarg":
                args = []
            elif k == "manyargs":
                args = [inp, out, out]
            elif k == "emptyname":
                args = [""] + r.choice([[], [out]])
            elif k == "outdir-missing":
                args[1] = w + "/no/such/out"
            elif k == "out-is-dir":
                args[1] = w
            elif k == "full":
                args[1] = "/dev/full"
            elif k == "fsize":
                n = r.choice([0, 1, sizes[tool] // 2, sizes[tool] - 1, r.randrange(sizes[tool])])
                n = min(n, sizes[tool] - 1)

                def pre(n=n):
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            elif k == "fifo":
                args[0] = "/dev/stdin"
            elif k == "ok-symlink":
                os.symlink(inp, w + "/ln" + tool)
                args[0], ok = w + "/ln" + tool, True
            elif k == "closed-stdio":
                def pre():
                    os.close(0)
                    os.close(1)
                ok = True
            if k == "fifo":
                p = subprocess.Popen([exe] + args, cwd=w, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run.env())
                try:
                    so, se = p.communicate(data, timeout=120)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    continue
                # a pipe can be refused, or read completely
                ok = None
            else:
                rc, so, se = call(exe, args, w, pre)
            if not clean(rc, se, "%s-%s" % (tool, k), i, data):
                continue
            with lock:
                run.ev("fault:%s-exit-%d" % (k, rc))
            if ok is True and rc != 0:
                fail("%s-%s-refused" % (tool, k), se[-200:].decode("latin1"), i, data)
            elif ok is False and rc == 0:
                fail("%s-ignores-%s" % (tool, k), str(args), i, data)
            elif rc == 0 and tool == "dbrunsli" and rd(out) != jpg:
                fail("dbrunsli-%s-output-differs" % k, "", i, data)
        if i < 3:
            with lock:
                run.sample("case %d: %d byte JPEG, %s stream, tools built %s" % (i, len(jpg), kind, cfg))
        subprocess.run(["rm", "-rf", w])

    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(case, i) for i in idx]:
            f.result()
    # a file whose size does not fit 32 bits (sparse): refused, or restored
    enc = [i for i in idx if rd("%s/%d.info" % (d, i))[:1] == b"1"]
    if enc:
        i = enc[0]
        jpg = rd("%s/%d.jpg" % (d, i))
        for size in ((1 << 32) + len(jpg), (1 << 31) + 5):
            p = W + "/huge"
            with open(p, "wb") as f:
                f.write(jpg)
                f.truncate(size)

            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            rc, so, se = call(tools["cbrunsli", "plain"], [p, W + "/huge.brn"], W, lim)
            os.unlink(p)
            run.ev("huge-exit-%s" % rc)
            if clean(rc, se, "cbrunsli-huge", i, jpg) and rc == 0:
                fail("huge-file-truncated-silently", str(size), i, jpg)
