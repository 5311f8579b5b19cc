"""Check runner: builds the library from /repo's working tree, records traces
from the real code with the drivers of /verif/harness, lets TLC model-check
the design specifications and accept/reject the recorded traces, and writes
the evidence file.

Exit status of a check: 0 property held on everything explored, 1 violation
(with a VIOLATION line), 2 anything else (an error of the check itself)."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


def java_classes():
    """compile the evaluators of spec/java (arithmetic on doubles for TLC)"""
    src = sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))
    h = hashlib.sha1(b"".join(open(p, "rb").read() for p in src)).hexdigest()[:12]
    d = os.path.join(VERIF, "build", "cls-" + h)
    if not os.path.isdir(d):
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        t = tempfile.mkdtemp(dir=os.path.join(VERIF, "build"))
        r = sh(["javac", "-cp", CP, "-d", t] + src)
        if r.returncode:
            raise CheckError("javac failed:\n" + r.stdout.decode()[-2000:])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


class CheckError(Exception):
    pass


class Rejection(Exception):
    def __init__(self, items):
        self.items = items


def sh(cmd, timeout=600, cwd=None, env=None, inp=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, input=inp,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def asan_head(t):
    """the lines of a sanitizer report that name the fault, or the end of the output"""
    i = t.find("AddressSanitizer")
    return " ".join(l.strip() for l in t[i:].splitlines()[:1] + [l for l in t[i:].splitlines() if " in mexFunction" in l or REPO in l][:2]) if i >= 0 else t[-300:]


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == "thorough"
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=base)
        self.t0 = time.time()
        self.libs = {}
        self.stat = dict(states=0, transitions=0, traces=0, events=0)
        self.by_event = {}
        self.models = []
        self.samples = []
        self.rejections = []          # list of dicts
        self.known_hits = []
        self.assumptions = []
        self.notes = []
        self.known = load_known(prop)
        self.exhaustive_models = []

    # ---------------------------------------------------------------- build
    CFLAGS = ["-std=c99", "-D_GNU_SOURCE", "-DNDEBUG", "-O2", "-g", "-w", "-fPIC",
              "-fno-stack-protector", "-pthread", "-DVL_DISABLE_OPENMP"]

    def build_lib(self, flavor="opt", defines=()):
        key = (flavor,) + tuple(defines)
        if key in self.libs:
            return self.libs[key]
        d = os.path.join(self.work, "lib-" + hashlib.sha1(repr(key).encode()).hexdigest()[:8])
        os.makedirs(d)
        fl = list(self.CFLAGS) + ["-D" + x for x in defines]
        if flavor == "asan":
            fl = [f for f in fl if f != "-O2"] + ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
        elif flavor in ("zero", "pattern"):
            fl += ["-ftrivial-auto-var-init=" + flavor]
        srcs = sorted(glob.glob(os.path.join(REPO, "vl", "*.c")))
        if not srcs:
            raise CheckError("no library sources in %s/vl" % REPO)

        def one(s):
            b = os.path.basename(s)[:-2]
            x = ["-msse2"] if b.endswith("_sse2") else ["-mavx"] if b.endswith("_avx") else []
            o = os.path.join(d, b + ".o")
            r = sh(["gcc", "-c"] + fl + x + ["-I", REPO, s, "-o", o])
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, r.stdout.decode()[-3000:]))
            return o
        with cf.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, srcs))
        a = os.path.join(d, "libvl.a")
        r = sh(["ar", "rcs", a] + objs)
        if r.returncode:
            raise CheckError("ar failed")
        self.libs[key] = a
        return a

    def build_driver(self, src, flavor="opt", defines=(), libdefines=(), extra=()):
        a = self.build_lib(flavor, libdefines)
        out = os.path.join(self.work, os.path.basename(src)[:-2] + "-" + flavor + ("-" + hashlib.sha1(repr((defines, libdefines)).encode()).hexdigest()[:6] if defines or libdefines else ""))
        fl = ["-std=gnu99", "-O1", "-g", "-w", "-pthread", "-DVL_DISABLE_OPENMP"] + ["-D" + x for x in defines]
        if flavor == "asan":
            fl += ["-fsanitize=address"]
        r = sh(["gcc"] + fl + ["-I", REPO, "-I", HARN, os.path.join(HARN, src)] + list(extra) + [a, "-lm", "-lpthread", "-o", out])
        if r.returncode:
            raise CheckError("building driver %s failed:\n%s" % (src, r.stdout.decode()[-3000:]))
        return out

    def build_prog(self, name, flavor="opt"):
        """a command line program of src/, linked against the fresh library"""
        a = self.build_lib(flavor)
        out = os.path.join(self.work, "prog-" + name)
        r = sh(["gcc", "-std=c99", "-D_GNU_SOURCE", "-DNDEBUG", "-O2", "-w", "-pthread", "-DVL_DISABLE_OPENMP",
                "-I", REPO, os.path.join(REPO, "src", name + ".c"), a, "-lm", "-lpthread", "-o", out])
        if r.returncode:
            raise CheckError("building %s failed:\n%s" % (name, r.stdout.decode()[-3000:]))
        return out

    def build_mex(self, paths):
        """compile toolbox MEX files for Octave against a fresh libvl.so"""
        a = self.build_lib("asan")      # every access of a MEX file is watched
        d = os.path.join(self.work, "mex")
        os.makedirs(d, exist_ok=True)
        so = os.path.join(d, "libvl.so")    # one library for all of them, as in the repository's own build
        if not os.path.exists(so):
            r = sh(["gcc", "-shared", "-fsanitize=address", "-Wl,--whole-archive", a, "-Wl,--no-whole-archive", "-Wl,-Bsymbolic", "-lpthread", "-lm", "-o", so], cwd=d)
            if r.returncode:
                raise CheckError("linking libvl.so failed:\n" + r.stdout.decode()[-3000:])

        def one(p):
            out = os.path.join(d, os.path.basename(p)[:-2] + ".mex")
            if os.path.exists(out):
                return
            env = {"OCT_LINK_OPTS": "-Wl,-Bsymbolic -fsanitize=address", "CFLAGS": "-O1 -g -w -fPIC -fsanitize=address -fno-omit-frame-pointer", "TMPDIR": self.work}
            r = sh(["mkoctfile", "--mex", "-DVL_DISABLE_OPENMP", "-DNDEBUG", "-DMWSIZE_MAX=2147483647", "-I" + REPO, "-I" + os.path.join(REPO, "toolbox"),
                    os.path.join(VERIF, p) if p.startswith("harness/") else os.path.join(REPO, "toolbox", p), "-L" + d, "-lvl", "-Wl,-rpath," + d, "-o", out], env=env, cwd=d)
            if r.returncode or not os.path.exists(out):
                raise CheckError("building MEX %s failed:\n%s" % (p, r.stdout.decode()[-3000:]))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, paths))
        return d

    # ------------------------------------------------------------- recording
    def record(self, exe, args=(), timeout=400, tag="t", env=None):
        """run a driver; returns the trace files it wrote"""
        d = os.path.join(self.work, "trace-" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0", "MALLOC_PERTURB_": "0"})
        if env:
            e.update(env)
        sp = os.path.join(d, "stdout.txt")
        with open(sp, "wb") as so:
            p = subprocess.Popen([exe, d, str(self.seed), self.tier] + list(args), stdout=so,
                                 stderr=subprocess.STDOUT, cwd=d, env=e, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                hang = os.path.join(d, "hang.ndjson")
                with open(hang, "w") as f:
                    f.write(json.dumps({"e": "Crash", "in": "driver did not finish in %d s" % timeout}) + "\n")
                return [hang]
        files = sorted(glob.glob(os.path.join(d, "*.ndjson")))
        if rc not in (0, 95):
            # died without its handler: record it in the last trace
            if rc < 0 and files:
                last = max(files, key=os.path.getmtime)
                with open(last, "ab") as f:
                    f.write(b'{"e":"Crash","sig":%d,"in":"?"}\n' % -rc)
            else:
                raise CheckError("driver %s exit %s: %s" % (exe, rc, open(sp, "rb").read()[-1500:].decode("latin-1")))
        return [f for f in files if os.path.getsize(f)]

    def record_octave(self, script, mex=(), timeout=None, tag="m"):
        """run an Octave script (harness/) with the repository's .m files and freshly built MEX files on its path"""
        timeout = timeout or (600 if self.thorough else 180)
        path = [self.build_mex(mex)] if mex else []
        path += [p for p, _, _ in os.walk(os.path.join(REPO, "toolbox")) if os.path.basename(p) not in ("mex", "xtest", "demo", "@vltest", "CVS", "noprefix")
                 and "/mex/" not in p and "/noprefix" not in p]
        d = os.path.join(self.work, "trace-" + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        cmd = ["octave-cli", "--norc", "--quiet"]
        for p in path[:1] + [os.path.join(VERIF, "harness")] + path[1:]:
            cmd += ["--path", p]
        env = {"HOME": self.work}
        if mex:
            env.update(LD_PRELOAD=sh(["gcc", "-print-file-name=libasan.so"]).stdout.decode().strip(), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:detect_odr_violation=0")
        try:
            r = sh(cmd + [os.path.join(VERIF, "harness", script), d, str(self.seed), self.tier], timeout=timeout, cwd=d, env=env)
        except subprocess.TimeoutExpired:
            r = subprocess.CompletedProcess(cmd, -14, b"did not finish in %d s" % timeout)
        if r.returncode < 0 or r.returncode >= 128 or b"caught signal" in r.stdout or b"AddressSanitizer" in r.stdout:
            f = os.path.join(d, "crash.ndjson")
            with open(f, "w") as h:
                h.write(json.dumps({"e": "Crash", "in": "octave %s: %s" % (script, asan_head(r.stdout.decode("latin-1")))}) + "\n")
            return [f]
        if r.returncode:
            raise CheckError("octave %s failed:\n%s" % (script, r.stdout.decode("latin-1")[-3000:]))
        return [f for f in sorted(glob.glob(os.path.join(d, "*.ndjson"))) if os.path.getsize(f)]

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, heap="2g", quick=True, extra=()):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"]
        if quick:
            cmd += ["-XX:TieredStopAtLevel=1"]
        cmd += ["-cp", CP + ":" + java_classes(), "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
                "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            r = sh(cmd, timeout=timeout, cwd=SPEC, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC ran out of time on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return r.returncode, r.stdout.decode("utf-8", "replace")

    def model(self, module, cfg=None, workers=4, timeout=800, quick=True, expect_actions=()):
        """exhaustive model checking of a design specification"""
        cfg = cfg or module + ".cfg"
        rc, out = self.tlc(module, cfg, workers=workers, timeout=timeout, quick=quick, heap="6g",
                           extra=("-coverage", "1") if expect_actions else ())
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if rc != 0 or not m or int(m.group(3)) != 0:
            raise CheckError("the design model %s/%s does not check (rc %d):\n%s" % (module, cfg, rc, out[-1500:]))
        for a in expect_actions:
            mm = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % a, out)
            if not mm or max(int(x[1]) for x in mm) == 0:
                raise CheckError("model %s/%s never takes action %s" % (module, cfg, a))
        g, d = int(m.group(1)), int(m.group(2))
        self.stat["states"] += d
        self.stat["transitions"] += g
        self.models.append("%s/%s: %d distinct states, %d generated" % (module, cfg, d, g))
        return out

    def _validate_one(self, module, cfg, path):
        """-> (accepted, line number, reason, states)"""
        n = sum(1 for _ in open(path, "rb"))
        rc, out = self.tlc(module, cfg, env={"VF_TRACE": path}, heap="3g", timeout=840)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = int(m.group(2)) if m else 0
        if rc == 0 and m:
            return True, n, "", st, n
        mm = re.search(r"VF-REJECTED-AT (\d+)", out)
        if mm:
            return False, int(mm.group(1)), "no transition of the specification explains this event", st, n
        if rc in (12,):
            mi = re.search(r"Invariant (\S+) is violated", out)
            ps = re.search(r"Action property (\S+) is violated|property (\S+)", out)
            k = len(re.findall(r"^State \d+:", out, re.M))
            return False, max(k - 1, 1), "invariant %s violated" % (mi.group(1) if mi else ps.group(0) if ps else "?"), st, n
        if "MalformedJson" in out:
            raise CheckError("malformed trace %s:\n%s" % (path, out[-1500:]))
        if rc in (75, 76):
            # the event's fields do not have the shape the specification needs
            mm = re.findall(r"/\\ l = (\d+)|^l = (\d+)", out, re.M)
            k = int([x for x in mm[-1] if x][0]) if mm else 0
            e = re.search(r"Error: (.*?)(?:\n\n|\Z)", out, re.S)
            return False, k, "the specification cannot be evaluated on this event: " + (e.group(1)[:600] if e else ""), st, n
        raise CheckError("TLC failed on %s with %s (rc %d):\n%s" % (module, path, rc, out[-3000:]))

    def validate(self, module, files, cfg=None, split=0, jobs=None, label=None):
        """trace validation.  split=k: events are independent, so distribute
        them over k files first."""
        cfg = cfg or module + ".cfg"
        if split:
            files = self._split(files, split)
        if not files:
            raise CheckError("no trace was recorded for %s" % module)
        for f in files:
            self._count(f)
        bad = []
        with cf.ThreadPoolExecutor(jobs or NPROC) as ex:
            for f, res in zip(files, ex.map(lambda p: self._validate_loop(module, cfg, p, bool(split)), files)):
                bad += res
        return bad

    def _validate_loop(self, module, cfg, path, independent):
        res = []
        cur = path
        for rnd in range(40):
            ok, line, why, st, n = self._validate_one(module, cfg, cur)
            self.stat["states"] += st
            self.stat["transitions"] += max(st - 1, 0)
            if ok:
                self.stat["traces"] += 1
                return res
            lines = open(cur, "rb").read().splitlines()
            ev = json.loads(lines[line - 1]) if 1 <= line <= len(lines) else {}
            it = dict(module=module, cfg=cfg, line=line, why=why, event=ev,
                      prefix=[l.decode() for l in lines[max(0, line - 40):line]], independent=independent,
                      file=os.path.basename(path))
            k = self.match_known(ev)
            if not k:
                res.append(it)
                return res
            self.known_hits.append(k)
            # a listed finding: drop the event and check the rest
            if not independent:
                drop = known_scope(lines, line - 1)
            else:
                drop = {line - 1}
            cur = path + ".k%d" % rnd
            with open(cur, "wb") as f:
                f.write(b"\n".join(l for i, l in enumerate(lines) if i not in drop) + b"\n")
        raise CheckError("too many known findings in one trace %s" % path)

    def match_known(self, ev):
        for k in self.known:
            if k.get("status") != "known":
                continue
            if all(ev.get(a) == b for a, b in k["match"].items()):
                return k
        return None

    def _split(self, files, k):
        lines = []
        for f in files:
            lines += open(f, "rb").read().splitlines()
        k = max(1, min(k, (len(lines) + 3) // 4))
        # longest-processing-time first keeps the chunks even
        bins = [[0, []] for _ in range(k)]
        for i in sorted(range(len(lines)), key=lambda i: -len(lines[i])):
            b = min(bins, key=lambda b: b[0])
            b[0] += len(lines[i]) + 200
            b[1].append(i)
        out = []
        d = os.path.dirname(files[0])
        tag = os.path.basename(files[0])[:-7]
        for j, b in enumerate(bins):
            if not b[1]:
                continue
            p = os.path.join(d, "%s-part%02d.ndj" % (tag, j))
            with open(p, "wb") as f:
                for i in sorted(b[1]):
                    f.write(lines[i] + b"\n")
            out.append(p)
        return out

    def _count(self, f):
        first = True
        for l in open(f, "rb"):
            self.stat["events"] += 1
            m = re.match(rb'\{"e":"(\w+)"', l)
            k = m.group(1).decode() if m else "?"
            c = self.by_event.get(k, 0)
            self.by_event[k] = c + 1
            if c == 0 and len(self.samples) < 12:
                self.samples.append(l.decode("utf-8", "replace").strip()[:600])

    def expect_events(self, *names, minimum=1):
        for n in names:
            if self.by_event.get(n, 0) < minimum and not self.rejections:
                raise CheckError("vacuous: no %s event was recorded" % n)

    # -------------------------------------------------------------- reporting
    def finish(self):
        viol = self.rejections
        cov = dict(states=self.stat["states"], transitions=self.stat["transitions"],
                   traces_validated_against_impl=self.stat["traces"], samples=self.samples,
                   events_checked=self.stat["events"], events_by_kind=self.by_event,
                   design_models=self.models)
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(viol), assumptions=self.assumptions)
        os.makedirs(EVID, exist_ok=True)
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        seen = set()
        for k in self.known_hits:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if viol:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump(viol[:20], f, indent=1)
            for v in viol[:5]:
                print("rejected by %s at line %s of %s: %s\n   event: %s" % (
                    v["module"], v["line"], v["file"], v["why"], json.dumps(v["event"])[:1200]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        else:
            print("OK property=%s tier=%s events=%d traces=%d states=%d %.1fs" % (
                self.prop, self.tier, self.stat["events"], self.stat["traces"], self.stat["states"], time.time() - self.t0))
        return 1 if viol else 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_scope(lines, i):
    """the events of the behaviour that contains event i: from the last
    'Begin' at or before it up to the next one"""
    def isb(l):
        return b'"begin":true' in l
    a = i
    while a > 0 and not isb(lines[a]):
        a -= 1
    b = i + 1
    while b < len(lines) and not isb(lines[b]):
        b += 1
    return set(range(a, b))


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop:
                    res.append(k)
    return res
