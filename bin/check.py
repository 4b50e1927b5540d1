#!/usr/bin/env python3
"""Runs the monitors that decide one property.

  check.py <property> [quick|thorough]
  check.py --replay <file>          re-runs what a violation was seen with

Exit 0: the property held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it does not hold. Exit 2: no answer
(build failure or a broken harness)."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from props import PROPS, HARNESSES

VERIF = build.VERIF
NCPU = 8
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=1:handle_abort=1:malloc_context_size=8",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
    "MALLOC_CHECK_": "0",
}
DEADLINE = 780  # of the whole check, seconds


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        idx = int.from_bytes(b[0:8], "little", signed=True)
        done = int.from_bytes(b[8:16], "little", signed=True)
        step = b[16:272].split(b"\0")[0].decode("latin1")
        n = int.from_bytes(b[272:280], "little")
        return idx, done, step, b[280:280 + min(n, 1 << 21)]
    except OSError:
        return -1, 0, "", b""


def crash_key(rc, text):
    """A key that identifies the kind of crash and where it happened."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(.*)", text)
    where = ""
    fm = re.search(r"#\d+ 0x[0-9a-f]+ in .*? (/repo/(?:c|java|wasm|contrib)/\S+?):\d+", text)
    if fm:
        where = fm.group(1).replace("/repo/", "")
        fn = re.search(r"#\d+ 0x[0-9a-f]+ in (.*?) " + re.escape(fm.group(1)), text)
        if fn:
            where += ":" + re.sub(r"[(<].*", "", fn.group(1)).split(" ")[-1]
    if m:
        kind = m.group(2)
        if m.group(1) == "UndefinedBehaviorSanitizer":
            e = re.search(r"runtime error: (.*)", text)
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x\w+|\d+|'.*?'", "", e.group(1) if e else "").lower())[:60].strip("-")
        return "crash:%s:%s" % (kind, where)
    if rc < 0:
        try:
            return "crash:%s" % signal.Signals(-rc).name
        except ValueError:
            return "crash:signal%d" % -rc
    return "crash:exit%d" % rc


def cpu_ticks(pid):
    """CPU time used by a process of ours, in clock ticks (-1: gone)."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return int(f[11]) + int(f[12])
    except (OSError, IndexError, ValueError):
        return -1


class Run:
    """One monitor program over its cases, split into shards."""

    def __init__(self, check, spec, n):
        self.c, self.spec, self.n = check, spec, n
        self.name = spec["monitor"]
        self.scratch = os.path.join(check.scratch, "run%d" % n)
        os.makedirs(self.scratch)
        self.cases = spec["cases"][1 if check.tier == "thorough" else 0]
        self.events, self.distinct, self.samples, self.evals = {}, set(), [], 0
        self.crashes = 0
        self.inconclusive = []

    def cmd(self, shard, start=0, only=None, cpu=None, scratch=None, shards=None):
        c = [self.exe, self.name, "--seed", str(self.c.seed), "--shard", str(shard), "--shards",
             str(shards or self.shards), "--cases", str(self.cases), "--tier", self.c.tier,
             "--scratch", scratch or self.scratch, "--start", str(start),
             "--cpu", str(cpu or self.spec.get("cpu", 40))]
        if only is not None:
            c += ["--only", str(only)]
        c += self.spec.get("args", [])
        pre = self.spec.get("wrap", [])
        return pre + c

    def env(self):
        e = dict(os.environ)
        e.update(ENV)
        e.update(self.spec.get("env", {}))
        return e

    def limits(self):
        mem = self.spec.get("mem_gb")
        def f():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        return f

    def spawn(self, shard, start):
        out = open(os.path.join(self.scratch, "shard_%d.out" % shard), "wb")
        return subprocess.Popen(self.cmd(shard, start), stdout=out, stderr=subprocess.STDOUT,
                                env=self.env(), preexec_fn=self.limits(), start_new_session=True,
                                cwd=self.scratch)

    def execute(self):
        h = HARNESSES[self.spec["harness"]]
        self.exe = self.c.exe(self.spec["harness"], self.spec["config"])
        self.shards = self.spec.get("shards", NCPU)
        procs = {i: [self.spawn(i, 0), 0] for i in range(self.shards)}
        still = {i: [None, 0, 0.0] for i in procs}
        while procs:
            time.sleep(0.02)
            for i in list(procs):
                p, restarts = procs[i]
                rc = p.poll()
                if rc is None:
                    st = still[i]
                    if time.time() - st[2] >= 1.0:
                        # blocked: no step and no CPU time in many samples in
                        # a row (a suspended machine takes no samples)
                        idx, done, step, blob = read_progress(self.scratch + "/shard_%d.progress" % i)
                        now = (p.pid, idx, step, cpu_ticks(p.pid))
                        st[1] = st[1] + 1 if now == st[0] else 0
                        st[0], st[2] = now, time.time()
                        if st[1] >= self.spec.get("stall", 40) and idx >= 0:
                            self.kill(p)
                            self.c.violation(self, "blocked:" + re.sub(r"\d+", "N", step),
                                             "case %d made no progress and used no CPU time for %d seconds in step '%s'" % (idx, st[1], step), idx, blob)
                            del procs[i]
                            if restarts < 1 and not self.spec.get("no_restart"):
                                procs[i] = [self.spawn(i, idx + 1), restarts + 1]
                            continue
                    if time.time() > self.c.deadline:
                        self.kill(p)
                        idx, _, step, _ = read_progress(self.scratch + "/shard_%d.progress" % i)
                        self.inconclusive.append("shard %d stopped by the wall-clock limit at case %d (%s)" % (i, idx, step))
                        del procs[i]
                    continue
                del procs[i]
                if rc == 0:
                    self.collect(i)
                    continue
                idx, done, step, blob = read_progress(self.scratch + "/shard_%d.progress" % i)
                text = open(self.scratch + "/shard_%d.out" % i, errors="replace").read()[-200000:]
                if rc == 3 or rc == 2:
                    self.c.broken("harness error: %s rc=%d %s" % (self.name, rc, text[-500:]))
                    continue
                if rc == -9:
                    self.inconclusive.append("shard %d was killed (memory) at case %d (%s)" % (i, idx, step))
                elif rc == 78:
                    self.hang(idx, step, blob)
                else:
                    self.crash(rc, idx, step, blob, text)
                if idx >= 0 and restarts < 4 and not self.spec.get("no_restart"):
                    procs[i] = [self.spawn(i, idx + 1), restarts + 1]
                else:
                    self.inconclusive.append("shard %d not restarted" % i)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    def rerun(self, idx, cpu):
        d = tempfile.mkdtemp(dir=self.scratch)
        with open(d + "/out", "wb") as out:
            p = subprocess.Popen(self.cmd(0, only=idx, cpu=cpu, scratch=d, shards=1), stdout=out,
                                 stderr=subprocess.STDOUT, env=self.env(), preexec_fn=self.limits(),
                                 start_new_session=True, cwd=d)
            try:
                rc = p.wait(timeout=max(30, min(cpu * 3, self.c.deadline + 60 - time.time())))
            except subprocess.TimeoutExpired:
                self.kill(p)
                rc = None
        return rc

    def hang(self, idx, step, blob):
        limit = self.spec.get("cpu", 40)
        rc = self.rerun(idx, limit * 2)
        if rc == 78:
            self.c.violation(self, "hang:" + re.sub(r"\d+", "N", step),
                             "case %d used more than %d CPU seconds twice, in step '%s'" % (idx, limit, step), idx, blob)
        else:
            self.inconclusive.append("case %d exceeded the CPU limit once (%s)" % (idx, step))

    def crash(self, rc, idx, step, blob, text):
        self.crashes += 1
        key = crash_key(rc, text)
        lines = [l for l in text.splitlines() if "runtime error" in l or "ERROR:" in l or "SUMMARY" in l or re.match(r"\s+#[0-6] ", l) or "DCHECK" in l or "(" in l][:14]
        self.c.violation(self, key, "case %d step '%s' rc=%d\n%s" % (idx, step, rc, "\n".join(lines)[:2500]), idx, blob)

    def collect(self, i):
        try:
            d = json.load(open(self.scratch + "/shard_%d.stats" % i))
        except (OSError, ValueError) as e:
            self.c.broken("no statistics from %s shard %d: %s" % (self.name, i, e))
            return
        self.evals += d["evaluations"]
        for k, v in d["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        self.distinct.update(d["distinct"])
        self.samples += d["samples"][:1]

    def violations(self):
        for f in sorted(glob.glob(self.scratch + "/*.viol")):
            for l in open(f, errors="replace"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                blob = b""
                if d.get("blob") and os.path.exists(d["blob"]):
                    blob = open(d["blob"], "rb").read()
                self.c.violation(self, d["key"], d["detail"], d["idx"], blob)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.deadline = self.t0 + (DEADLINE if tier == "quick" else float(os.environ.get("VERIF_DEADLINE", DEADLINE)))
        self.spec = PROPS[prop]
        self.found, self.keys, self.brokenness = [], {}, []
        os.makedirs(build.BUILD + "/scratch", exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + ".", dir=build.BUILD + "/scratch")
        try:
            kf = json.load(open(VERIF + "/known_findings.json"))["findings"]
        except OSError:
            kf = []
        self.known = [k for k in kf if k["property"] == prop and k.get("status") == "known"]
        self.known_hit = {}
        self.builder = None
        self.exes = {}

    def exe(self, harness, config):
        if (harness, config) not in self.exes:
            if self.builder is None:
                self.builder = build.Builder()
            self.exes[harness, config] = HARNESSES[harness](self.builder, config)
        return self.exes[harness, config]

    def broken(self, msg):
        self.brokenness.append(msg)

    def violation(self, run, key, detail, idx, blob):
        key = "%s/%s" % (run.name, key)
        for k in self.known:
            if k["key"] == key and (not k.get("input_sha256") or k["input_sha256"] == hashlib.sha256(blob).hexdigest()) \
                    and (not k.get("detail_re") or re.search(k["detail_re"], detail)):
                self.known_hit[k["key"]] = k
                return
        n = self.keys.get(key, 0)
        self.keys[key] = n + 1
        if n >= 2:
            return
        d = build.BUILD + "/replay/" + self.prop
        os.makedirs(d, exist_ok=True)
        base = "%s/%s-%d" % (d, hashlib.sha256(key.encode()).hexdigest()[:10], n)
        if blob:
            with open(base + ".bin", "wb") as f:
                f.write(blob)
        rec = {"property": self.prop, "monitor": run.name, "harness": run.spec["harness"], "config": run.spec["config"],
               "spec": self.spec["runs"].index(run.spec) if run.spec in self.spec["runs"] else 0,
               "tier": self.tier, "seed": self.seed, "case": idx, "key": key, "detail": detail,
               "input": base + ".bin" if blob else None, "cases": run.cases}
        with open(base + ".json", "w") as f:
            json.dump(rec, f, indent=1)
        self.found.append((key, detail, base + ".json"))

    def run(self):
        runs = []
        try:
            for n, spec in enumerate(self.spec["runs"]):
                if "tiers" in spec and self.tier not in spec["tiers"]:
                    continue
                if callable(spec.get("py")):
                    r = PyRun(self, spec, n)
                else:
                    r = Run(self, spec, n)
                runs.append(r)
                r.execute()
                r.violations()
        except build.BuildError as e:
            self.broken("build failed: %s" % e)
        self.report(runs)

    def report(self, runs):
        wall = time.time() - self.t0
        ev, distinct, samples, evals, inc = {}, set(), [], 0, []
        for r in runs:
            evals += r.evals
            distinct |= {r.name + ":" + x for x in r.distinct}
            samples += r.samples[:4]
            inc += r.inconclusive
            ev[r.name + "@" + r.spec.get("config", "-")] = {"evaluations": r.evals, "observed": dict(sorted(r.events.items())), "crashes": r.crashes}
        rec = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec.get("level", "exploration"),
               "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": self.spec["rule"],
                            "samples": samples[:12] or ["(none)"], "monitors": ev, "inconclusive": inc,
                            "known_findings_seen": sorted(self.known_hit)},
               "assumptions": self.spec.get("assumptions", []),
               "wall_s": round(wall, 2), "violations": len(self.keys)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/%s.json.%d" % (self.prop, os.getpid())
        with open(tmp, "w") as f:
            json.dump(rec, f, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known_hit[k]["what"]))
        for m in inc:
            print("inconclusive: " + m)
        print("%s %s seed=%d: %d evaluations, %d distinct, %d violation kinds, %.1fs" % (
            self.prop, self.tier, self.seed, evals, len(distinct), len(self.keys), wall))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.found:
            for key, detail, path in self.found:
                print("  %s: %s" % (key, detail.replace("\n", "\n    ")[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.found[0][2]))
            sys.exit(1)
        if self.brokenness or evals == 0 or len(distinct) == 0:
            for b in self.brokenness or ["nothing was observed"]:
                print("BROKEN: " + b)
            sys.exit(2)
        sys.exit(0)


class PyRun:
    """A monitor written in Python: spec['py'](run) uses run.ev/violation."""

    def __init__(self, check, spec, n):
        self.c, self.spec, self.n = check, spec, n
        self.name = spec["monitor"]
        self.scratch = os.path.join(check.scratch, "run%d" % n)
        os.makedirs(self.scratch)
        self.cases = spec["cases"][1 if check.tier == "thorough" else 0]
        self.events, self.distinct, self.samples, self.evals = {}, set(), [], 0
        self.crashes, self.inconclusive = 0, []
        self.pending = []

    def ev(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def nontrivial(self, b):
        self.distinct.add(hashlib.sha256(b if isinstance(b, bytes) else str(b).encode()).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def fail(self, key, detail, idx=0, blob=b""):
        self.pending.append((key, detail, idx, blob))

    def env(self):
        e = dict(os.environ)
        e.update(ENV)
        return e

    def execute(self):
        self.spec["py"](self)

    def violations(self):
        for key, detail, idx, blob in self.pending:
            self.c.violation(self, key, detail, idx, blob)


def replay(path):
    rec = json.load(open(path))
    c = Check(rec["property"], rec["tier"])
    c.seed = rec["seed"]
    spec = [s for s in PROPS[rec["property"]]["runs"] if s["monitor"] == rec["monitor"] and s.get("config") == rec["config"]][0]
    print("replaying %s, key %s\nfirst seen: %s" % (rec["property"], rec["key"], rec["detail"]))
    if callable(spec.get("py")):
        c.run()
        return
    r = Run(c, spec, 0)
    r.cases = rec["cases"]
    r.exe = c.exe(spec["harness"], spec["config"])
    r.shards = 1
    cmd = r.cmd(0, only=rec["case"])
    print("command: " + " ".join(cmd))
    p = subprocess.run(cmd, env=r.env(), cwd=r.scratch)
    for f in glob.glob(r.scratch + "/*.viol"):
        sys.stdout.write(open(f).read())
    print("exit code %d; input: %s" % (p.returncode, rec["input"]))
    bad = p.returncode != 0 or glob.glob(r.scratch + "/*.viol")
    shutil.rmtree(c.scratch, ignore_errors=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    Check(prop, tier).run()
