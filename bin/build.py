"""Builds what the checks need, from /repo's current working tree, into
/verif/build (ignored by git). Objects are cached by content hash."""
import glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BRN_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
JDK = "/usr/lib/jvm/java-17-openjdk-amd64"
BROTLI = ["-lbrotlienc", "-lbrotlidec", "-lbrotlicommon"]
NOWARN = ["-w"]

CONFIGS = {
    # how /repo is shipped (RelWithDebInfo): no assertions
    "plain": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG"], ld=[]),
    # assertions on (BRUNSLI_DCHECK) plus ASan and UBSan
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=vptr"],
                 ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=thread", "-DNDEBUG"], ld=["-fsanitize=thread"]),
    # valgrind and libFuzzer helpers
    "vg": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG"], ld=[]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                 "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize=vptr",
                 "-fno-sanitize-recover=undefined"],
                 ld=["-fsanitize=address,undefined,fuzzer"]),
}


class BuildError(Exception):
    pass


def _hash_tree(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def _headers(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            if "/_build" in d or "/.git" in d:
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".inc", ".hpp"))]
    return out


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.repo_h = _hash_tree(_headers(REPO + "/c", REPO + "/java"))
        self.ref_h = _hash_tree(_headers(VERIF + "/ref"))
        self.own_h = _hash_tree(_headers(VERIF + "/src"))
        self.compiled = 0

    def obj(self, src, cxx, flags, dep):
        with open(src, "rb") as f:
            body = f.read()
        key = hashlib.sha256(b"\0".join([src.encode(), body, cxx.encode(),
                             " ".join(flags).encode(), dep.encode()])).hexdigest()[:24]
        d = os.path.join(BUILD, "obj")
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, os.path.basename(src) + "." + key + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("%s\n%s" % (src, r.stderr[-6000:]))
            os.replace(tmp, o)
            self.compiled += 1
        return o

    def objs(self, jobs):
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: self.obj(*j), jobs))

    def link(self, name, cxx, objs, flags):
        key = hashlib.sha256("\0".join([cxx] + objs + flags).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, "bin")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, name + "." + key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([cxx] + objs + flags + ["-o", tmp], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("link %s\n%s" % (name, r.stderr[-6000:]))
            os.replace(tmp, out)
        return out

    # ---- pieces
    def repo_sources(self):
        r = []
        for d in ("common", "dec", "enc"):
            r += sorted(glob.glob(REPO + "/c/%s/*.cc" % d))
        return r

    def repo_jobs(self, config, extra=()):
        c = CONFIGS[config]
        fl = c["flags"] + ["-std=c++11", "-fPIC", "-DBRUNSLI_DISABLE_LOG", "-w",
                           "-I" + REPO + "/c/include"] + list(extra)
        return [(s, c["cxx"], fl, self.repo_h) for s in self.repo_sources()]

    def ref_so(self):
        fl = ["-std=c++17", "-O2", "-fPIC", "-fvisibility=hidden", "-DNDEBUG", "-w",
              "-DBRUNSLI_DISABLE_LOG", "-Dbrunsli=brunsli_ref", "-fwrapv",
              "-I" + VERIF + "/ref/c/include", "-I" + VERIF + "/src"]
        srcs = []
        for d in ("common", "dec", "enc"):
            srcs += sorted(glob.glob(VERIF + "/ref/c/%s/*.cc" % d))
        srcs.append(VERIF + "/src/refapi.cc")
        objs = self.objs([(s, "g++", fl, self.ref_h + self.own_h) for s in srcs])
        return self.link("libbrnref.so", "g++", objs, ["-shared"] + BROTLI)

    def own_jobs(self, config, srcs, extra=()):
        """Own harness sources. gen.cc and the reference constants use the
        pinned snapshot's headers under another namespace."""
        c = CONFIGS[config]
        jobs = []
        for s in srcs:
            p = s if s.startswith("/") else VERIF + "/src/" + s
            base = ["-std=c++17", "-w", "-fPIC", "-I" + VERIF + "/src"]
            if os.path.basename(s) in ("gen.cc",) or p.startswith(VERIF + "/ref"):
                # never instrumented: it is not under test
                jobs.append((p, "g++", ["-O2", "-g1", "-DNDEBUG", "-DBRUNSLI_DISABLE_LOG",
                             "-Dbrunsli=brunsli_ref", "-I" + VERIF + "/ref/c/include"] + base,
                             self.ref_h + self.own_h))
            else:
                jobs.append((p, c["cxx"], c["flags"] + ["-DBRUNSLI_DISABLE_LOG", "-DCFG_" + config, "-DVERIF_DIR=\"" + VERIF + "\"",
                             "-I" + REPO + "/c/include", "-I" + REPO] + base + list(extra),
                             self.repo_h + self.own_h))
        return jobs

    def tool(self, name, config, groups):
        """c/tools/<name>.cc as a program."""
        c = CONFIGS[config]
        jobs = self.repo_jobs(config)
        fl = list(jobs[0][2]) + ["-I" + REPO + "/c"] + (["-DBRUNSLI_EXPERIMENTAL_GROUPS"] if groups else [])
        jobs += [(REPO + "/c/tools/%s.cc" % name, c["cxx"], fl, self.repo_h)]
        if groups:
            jobs += [(REPO + "/c/experimental/groups.cc", c["cxx"], fl, self.repo_h)]
        return self.link(name + ("-groups-" if groups else "-") + config, c["cxx"], self.objs(jobs), c["ld"] + BROTLI + ["-lpthread"])

    def jni(self, config):
        """The JNI library and a directory with the wrapper's and the monitor's classes."""
        c = CONFIGS[config]
        jobs = self.repo_jobs(config)
        fl = list(jobs[0][2]) + ["-I" + JDK + "/include", "-I" + JDK + "/include/linux"]
        w = REPO + "/java/dev/brunsli/wrapper/"
        jobs += [(w + "codec_jni.cc", c["cxx"], fl, self.repo_h), (w + "codec_jni_onload.cc", c["cxx"], fl, self.repo_h)]
        lib = self.link("libbrunsli_jni-" + config + ".so", c["cxx"], self.objs(jobs),
                        c["ld"] + ["-shared"] + BROTLI)
        srcs = [w + "Codec.java", w + "CodecJNI.java", VERIF + "/src/J01.java"]
        d = os.path.join(BUILD, "java." + _hash_tree(srcs)[:24])
        if not os.path.exists(d):
            tmp = d + ".%d.tmp" % os.getpid()
            r = subprocess.run(["javac", "-d", tmp] + srcs, capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError("javac\n" + r.stderr[-4000:])
            try:
                os.rename(tmp, d)
            except OSError:
                pass
        return lib, d

    def contrib(self, name, config, src, module):
        """A web server module against the stand-ins in src/contrib/<name>."""
        c = CONFIGS[config]
        inc = "-I" + VERIF + "/src/contrib/" + name
        jobs = self.own_jobs(config, ["hmain.cc", src], [inc])
        cc = {"g++": "gcc", "clang++": "clang"}[c["cxx"]]
        with open(REPO + "/" + module, "rb") as f:
            dep = hashlib.sha256(f.read()).hexdigest() + self.own_h
        jobs.append((REPO + "/" + module, cc, c["flags"] + ["-std=gnu99", "-fPIC", "-w", inc], dep))
        return self.link(name + "-" + config, c["cxx"], self.objs(jobs), c["ld"] + ["-lpthread"])

    def harness(self, name, config, srcs, extra=(), repo_extra=(), more_repo=(), ld=(), more_flags=()):
        """Links harness `srcs` against /repo built in `config`."""
        ref = self.ref_so()
        c = CONFIGS[config]
        jobs = self.repo_jobs(config, repo_extra)
        if more_repo:
            fl = list(jobs[0][2]) + ["-I" + REPO + "/c"] + list(extra) + list(more_flags)
            jobs += [(REPO + "/" + s, c["cxx"], fl, self.repo_h) for s in more_repo]
        jobs += self.own_jobs(config, list(srcs) + ["gen.cc", VERIF + "/ref/c/common/constants.cc"], extra)
        objs = self.objs(jobs)
        return self.link(name + "-" + config, c["cxx"], objs,
                         c["ld"] + list(ld) + [ref, "-Wl,-rpath," + os.path.dirname(ref)] + BROTLI + ["-lpthread"])


if __name__ == "__main__":
    t = time.time()
    b = Builder()
    print(b.ref_so())
    print("compiled", b.compiled, "in %.1fs" % (time.time() - t))
