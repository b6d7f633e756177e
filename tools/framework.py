"""Runs the checks: builds the driver, lets TLC explore the specification and generate behaviours, executes
behaviours and seeded scripts on the real code, and lets TLC decide whether the recorded trace is a behaviour of
the specification."""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, time
import build

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Infra(Exception):
    """The check itself cannot run (exit 2)."""


def tok(v, t):
    if t == "s":
        return str(v)
    if t == "b":
        return "1" if v else "0"
    if t in ("i", "f"):
        return repr(v)
    if t in ("P", "V"):
        return " ".join(repr(x) for x in v)
    if t == "L":
        return " ".join([str(len(v))] + [repr(x) for x in v])
    if t == "S":
        return " ".join([str(len(v))] + [str(x) for x in v])
    if t == "M":
        v = v or {}
        return " ".join([str(len([k for k in v if k != "_"]))] + ["%s %r" % (k, v[k]) for k in sorted(v) if k != "_"])
    if t == "R":        # numbers without their count
        return " ".join(repr(x) for x in v)
    if t == "Q":        # names with lists
        return " ".join([str(len(v))] + [k + " " + tok(v[k], "L") for k in sorted(v)])
    raise Infra("bad argument type " + t)


def line(ev, sig):
    op = ev["op"]
    if op not in sig:
        raise Infra("no signature for " + op)
    return " ".join([op] + [tok(ev[f], t) for f, t in sig[op]])


def parse_sig(text):
    """lines: op field:type field:type ..."""
    r = {}
    for l in text.strip().split("\n"):
        w = l.split()
        if w:
            for op in w[0].split(","):
                r[op] = [tuple(x.split(":")) for x in w[1:]]
    return r


def fixmaps(ev, sig):
    ev = dict(ev)
    for f, t in sig[ev["op"]]:
        if t == "M" and not ev[f]:
            ev[f] = {"_": 0}
    return ev


class Job:
    def __init__(self, label, driver, events, sig, module, focus, env=None, timeout=150, cfg=None, known=None, nondet=False, split=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.viol, self.jobs, self.opcount = [], [], [], [], {}
        self.exes = {}
        self.found = self.skipped = 0
        self.assumptions = []
        self.scratch = os.path.join(self.work, "scratch")
        os.makedirs(self.scratch)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, q, t):
        return t if self.thorough else q

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, salt))

    # ------------------------------------------------------------ build
    def build(self, drivers, libs):
        try:
            d, route = build.build_libs(libs)
            self.notes.append("libraries: %s" % route)
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for n, r in zip(drivers, ex.map(lambda n: build.build_driver(n, libs, d), drivers)):
                    self.exes[n] = r
        except build.BuildError as e:
            raise Infra(str(e))

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, args, env=None, timeout=600, heap="3g"):
        md = os.path.join(self.work, "md-" + hashlib.md5(repr((module, cfg, args, env, time.time())).encode()).hexdigest()[:10])
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", TLA, "tlc2.TLC", "-config", cfg, "-metadir", md, "-noGenerateSpecTE"] + args + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def mc(self, module, cfg=None, workers=4, timeout=600, args=None, heap="6g", env=None):
        """exhaustive check of the specification itself"""
        rc, out = self.tlc(module + ".tla", (cfg or module) + ".cfg", ["-workers", str(workers)] + (args or []), env=dict(env or {}, FOCUS="NONE"), timeout=timeout, heap=heap)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            open(os.path.join(self.work, module + ".mc.log"), "w").write(out)
            raise Infra("model checking %s failed (rc %d), see %s" % (module, rc, os.path.join(self.work, module + ".mc.log")))
        self.transitions += int(m[-1][0])
        self.states += int(m[-1][1])
        self.notes.append("TLC %s %s: %s generated, %s distinct" % (module, cfg or "", m[-1][0], m[-1][1]))

    def sim(self, module, cfg, num, depth, timeout=300, env=None):
        """behaviours of the specification: every behaviour prints its history as JSON at the given depth"""
        rc, out = self.tlc(module + ".tla", cfg + ".cfg", ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed),
                                                          "-workers", "1"], env=dict(env or {}, FOCUS="NONE"), timeout=timeout)
        res, seen = [], set()
        for l in out.split("\n"):
            m = re.match(r'^"BEHAVIOUR (.*)"$', l.strip())
            if m:
                h = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
                k = json.dumps(h[:-1])
                if k not in seen:          # TLC evaluates all successors of the last but one state
                    seen.add(k)
                    res.append(h)
        if not res:
            open(os.path.join(self.work, module + ".sim.log"), "w").write(out)
            raise Infra("no behaviours from %s, see %s" % (module, os.path.join(self.work, module + ".sim.log")))
        self.notes.append("TLC -simulate %s %s: %d behaviours" % (module, cfg, len(res)))
        return res

    # ------------------------------------------------------------ conformance
    def add(self, *a, **k):
        self.jobs.append(Job(*a, **k))

    def segment(self, job, d, events, k):
        """runs one process; its records"""
        exe, libdir = self.exes[job.driver]
        script, outp = os.path.join(d, "script%s.txt" % k), os.path.join(d, "out%s.ndjson" % k)
        open(script, "w").write("\n".join(line(e, job.sig) for e in events) + "\n")
        e = dict(os.environ, LD_LIBRARY_PATH=libdir, HOME="/root", QT_QPA_PLATFORM="offscreen")
        e.update(job.env or {})
        try:
            p = subprocess.run([exe, script, outp], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=job.timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 124
        obs = []
        if os.path.exists(outp):
            for l in open(outp):
                try:
                    obs.append(json.loads(l))
                except ValueError:
                    break
        return rc, obs

    def execute(self, job, d):
        os.makedirs(d, exist_ok=True)
        if job.split:       # a process of its own for every history
            cut = [k for k, e in enumerate(job.events) if e["op"] == "reset"] + [len(job.events)]
            rc, obs = 0, []
            for k in range(len(cut) - 1):
                rc, o = self.segment(job, d, job.events[cut[k]:cut[k + 1]], k)
                obs += o
                if rc or len(o) != cut[k + 1] - cut[k]:
                    break
        else:
            rc, obs = self.segment(job, d, job.events, "")
        serr = obs.pop()["script_error"] if obs and "script_error" in obs[-1] else None
        if rc == 0 and not serr and len(obs) != len(job.events):
            raise Infra("driver %s wrote %d records for %d operations" % (job.driver, len(obs), len(job.events)))
        tr = os.path.join(d, "trace.ndjson")
        with open(tr, "w") as f:
            for ev, o in zip(job.events, obs):
                m = fixmaps(ev, job.sig)
                m.update(o)
                f.write(json.dumps(m) + "\n")
        return rc, len(obs), tr, serr

    def validate(self, job, tr):
        rc, out = self.tlc(job.module + ".tla", (job.cfg or job.module) + ".cfg", ["-workers", "1"], env={"TRACE": tr, "FOCUS": job.focus},
                           timeout=700)
        return rc, out

    def run_job(self, job, d):
        """None when accepted, otherwise a description"""
        rc, n, tr, serr = self.execute(job, d)
        if rc != 0 and not serr:
            why = "does not return" if rc == 124 else "ends the process (status %d)" % rc
            return "operation %d of %s %s: %s" % (n + 1, job.label, why, json.dumps(job.events[min(n, len(job.events) - 1)])[:300])
        trc, out = self.validate(job, tr)
        open(os.path.join(d, "tlc.log"), "w").write(out)
        if trc == 0:
            if serr:            # the script asks for something that does not exist although all records conform
                raise Infra("script error: " + serr)
            return None
        if "Parsing or semantic analysis failed" in out or "Error: TLC threw an unexpected exception" in out and "Java heap" in out or trc in (124, 137):
            raise Infra("TLC could not decide, see %s/tlc.log" % d)
        # the records may span several lines
        mm = re.findall(r'^<<[ \n]*"MISMATCH".*?>>$', out, re.M | re.S)
        mm = [re.sub(r"\s+", " ", x) for x in mm]
        rej = re.findall(r'"REJECTED", (\d+)', out)
        err = re.findall(r"^Error: (.*)$", out, re.M)
        at = int(rej[-1]) if rej else 0
        if at:
            mm = [x for x in mm if re.match(r'<<\s*"MISMATCH", %d,' % at, x)] or mm
        ev = job.events[at - 1] if 0 < at <= len(job.events) else {}
        return "%s, operation %d %s: %s" % (job.label, at, json.dumps(ev)[:300], (mm[-1][:800] if mm else (err[0] if err else "rejected")))

    def one(self, k, job):
        d = os.path.join(self.work, "job%03d" % k)
        # enough is known: the rest would only delay the report
        if self.found >= 3 or (self.found and time.time() - self.t0 > 420):
            self.skipped += 1
            return k, job, d, None
        r = self.run_job(job, d)
        if r and not job.nondet and not (self.found and "does not return" in r):
            r2 = self.run_job(job, d + "-again")
            if r2 is None:
                self.notes.append("not reproduced: " + r)
                r3 = self.run_job(job, d + "-third")
                r = r3
        if r and not job.known:
            self.found += 1
        return k, job, d, r

    def run(self, workers=None):
        workers = workers or int(os.environ.get("VERIF_JOBS", "7"))
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            for k, job, d, r in ex.map(lambda kj: self.one(*kj), list(enumerate(self.jobs))):
                self.traces += sum(1 for e in job.events if e["op"] == "reset") or 1
                self.events += len(job.events)
                for e in job.events:
                    self.opcount[e["op"]] = self.opcount.get(e["op"], 0) + 1
                if len(self.samples) < 3:
                    self.samples.append({"trace": job.label, "operations": [line(e, job.sig)[:160] for e in job.events[:12]]})
                if r:
                    if job.known:
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, job.known))
                        self.notes.append("known finding: " + job.known)
                    else:
                        dst = os.path.join(VERIF, ".work", "violations", "%s-%s" % (self.prop, re.sub(r"\W+", "-", job.label)))
                        shutil.rmtree(dst, ignore_errors=True)
                        shutil.copytree(d, dst, symlinks=True, ignore=shutil.ignore_patterns("tree*"))
                        open(os.path.join(dst, "what.txt"), "w").write(r + "\n")
                        self.viol.append((dst, r))
        self.jobs = []

    def finish(self):
        lvl = "model_checking"
        if self.skipped:
            self.notes.append("%d traces not run after violations were found" % self.skipped)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": lvl,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "operations_replayed": self.events, "operations_by_kind": self.opcount, "samples": self.samples, "runs": self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for dst, r in self.viol:
            print("  " + r)
        for dst, r in self.viol:
            print("VIOLATION property=%s replay=%s" % (self.prop, dst))
        return 1 if self.viol else 0
