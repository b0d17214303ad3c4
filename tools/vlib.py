"""Shared machinery of the checks: build the harness from /repo, run it, run TLC, judge, report."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    return e


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.dir = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.bins = {}
        self.violations = []   # (what, replay object)
        self.known_hit = []
        self.rng = random.Random(self.seed * 7919 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16))

    def path(self, name):
        return os.path.join(self.dir, name)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, race=False, pkg="./vh"):
        key = (race, pkg)
        if key in self.bins:
            return self.bins[key]
        out = self.path("vh" + ("_race" if race else "") + pkg.replace("/", "_").replace(".", ""))
        mod = self.path("go.mod")
        if not os.path.exists(mod):
            text = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(text)
            shutil.copy(os.path.join(HARNESS, "go.sum"), self.path("go.sum"))
        args = ["go", "build", "-modfile", mod, "-tags", "verif", "-o", out]
        if race:
            args.insert(2, "-race")
        args.append(pkg)
        r = subprocess.run(args, cwd=HARNESS, env=goenv(), capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("harness does not build against /repo:\n" + r.stderr[-4000:])
        self.bins[key] = out
        return out

    # -------------------------------------------------------------- harness
    def vh(self, family, cases, race=False, timeout=600, env=None, wrap=None, procs=1):
        """Run the cases ([{id,in}]) through the real code; returns records in order.
        A case that kills the process (twice, alone) is recorded as a panic."""
        exe = self.build(race=race)
        if procs > 1 and len(cases) > procs * 4:
            from concurrent.futures import ThreadPoolExecutor
            k = (len(cases) + procs - 1) // procs
            parts = [cases[i:i + k] for i in range(0, len(cases), k)]
            with ThreadPoolExecutor(procs) as ex:
                rs = list(ex.map(lambda p: self.vh(family, p, race, timeout, env, wrap, 1), parts))
            return [r for x in rs for r in x]
        tag = "%s_%d_%d" % (family, len(os.listdir(self.dir)), random.SystemRandom().randrange(10**9))
        cf, of = self.path(tag + ".in"), self.path(tag + ".out")
        with open(cf, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        open(of, "w").close()
        e = goenv()
        e["VERIF_SCRATCH"] = self.dir
        e.update(env or {})
        recs, deadline = [], time.time() + timeout
        while len(recs) < len(cases):
            left = deadline - time.time()
            if left <= 0:
                raise CheckError("harness %s ran out of time after %d of %d cases" % (family, len(recs), len(cases)))
            try:
                with open(self.path(tag + ".err"), "wb") as ef:
                    p = subprocess.run((wrap or []) + [exe, family, cf, of, str(len(recs))], env=e, cwd=self.dir,
                                       stdout=subprocess.DEVNULL, stderr=ef, timeout=left)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("harness %s ran out of time" % family)
            recs = self.read(of)
            if len(recs) >= len(cases):
                break
            if sum(1 for r in recs if r.get("hang")) >= 3:
                self.log("three cases hang: leaving the rest out")
                break
            if rc == 0:
                raise CheckError("harness %s stopped early" % family)
            # the process died in case len(recs): run it alone, twice
            c = cases[len(recs)]
            if wrap is None and getattr(self, "_alone", False):
                raise CheckError("nested harness failure")
            died = []
            for _ in range(2):
                t = self.path(tag + ".solo")
                with open(t + ".in", "w") as f:
                    f.write(json.dumps(c) + "\n")
                if os.path.exists(t + ".out"):
                    os.remove(t + ".out")
                with open(t + ".err", "wb") as ef:
                    p = subprocess.run((wrap or []) + [exe, family, t + ".in", t + ".out"], env=e, cwd=self.dir,
                                       stdout=subprocess.DEVNULL, stderr=ef, timeout=max(10, deadline - time.time()))
                died.append(p.returncode != 0 and not self.read(t + ".out"))
            if not all(died):
                raise CheckError("harness %s died in case %s (rc %s), not reproducibly" % (family, c.get("id"), rc))
            err = open(t + ".err", "rb").read()[-600:].decode("utf8", "replace")
            with open(of, "a") as f:
                f.write(json.dumps({"id": c["id"], "in": c["in"], "panic": "process died: " + err, "hang": False}) + "\n")
            recs = self.read(of)
        return recs

    @staticmethod
    def read(path):
        if not os.path.exists(path):
            return []
        out = []
        with open(path) as f:
            for l in f:
                if l.endswith("\n"):
                    out.append(json.loads(l))
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, consts="", invariants=(), props=(), spec="Spec", env=None, simulate=None, depth=None,
            seed=None, workers=8, timeout=800, heap="6g", extra_cfg="", count=True, expect_error=False):
        """Run TLC on specs/<module>.tla. Returns (printed "@@" lines, states, distinct)."""
        tag = "%s_%d" % (module, len(os.listdir(self.dir)))
        cfg = self.path(tag + ".cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
            if consts:
                f.write("CONSTANTS\n" + consts + "\n")
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in props:
                f.write("PROPERTY %s\n" % i)
            f.write(extra_cfg + "\n")
        e = dict(os.environ)
        e.update(env or {})
        meta = self.path(tag + ".meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR + ":" + CM, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(module + ".tla")
        out = self.path(tag + ".log")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC ran out of time on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        at, gen, dist, tail, ok = [], 0, 0, [], False
        for l in open(out, errors="replace"):
            l = l.rstrip("\n")
            if l.startswith('"@@'):
                try:
                    at.append(json.loads(l)[2:])
                except ValueError:
                    at.append(l[3:-1].replace('\\"', '"').replace("\\\\", "\\"))
                continue
            m = re.match(r"^(\d+) states generated, (\d+) distinct states found", l)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.match(r"^Progress: (\d+) states checked", l)
            if m and simulate:
                gen = dist = int(m.group(1))
            if "No error has been found" in l or (simulate and "traces generated" in l):
                ok = True
            if "Error" in l or "violated" in l:
                tail.append(l)
            elif tail and len(tail) < 60:
                tail.append(l)
        if expect_error:
            return at, gen, dist, "\n".join(tail)
        if p.returncode != 0 or (not ok) or tail:
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, "\n".join(tail[:60]) or open(out).read()[-1500:]))
        if count:
            self.states += dist
            self.transitions += gen
        return at, gen, dist

    def judge(self, module, recs, consts="", timeout=800, env=None, workers=8, heap="6g", count=True):
        """Trace validation: TLC prints one END line per record; returns {id: set of flags}."""
        if not recs:
            return {}
        f = self.path("judge_%s_%d.ndjson" % (module, len(os.listdir(self.dir))))
        with open(f, "w") as fh:
            for k, r in enumerate(recs):
                r = dict(r)
                r["id"] = k
                fh.write(json.dumps(r) + "\n")
        e = {"TRACE": f}
        e.update(env or {})
        at, gen, dist = self.tlc(module, consts=consts, env=e, timeout=timeout, workers=workers, heap=heap, count=count)[:3]
        res = {}
        for l in at:
            if l.startswith("END|"):
                _, k, flags = l.split("|", 2)
                res.setdefault(int(k), set()).update(re.findall(r'"((?:[^"\\]|\\.)*)"', flags))
        missing = [k for k in range(len(recs)) if k not in res]
        if missing:
            raise CheckError("%s: %d of %d records were not judged to the end (first: %s)" % (module, len(missing), len(recs), missing[0]))
        os.remove(f)
        return res

    # --------------------------------------------------------------- report
    def violation(self, what, replay):
        self.violations.append((what, replay))

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get("property") == self.prop and k.get("status") == "finding"]

    def finish(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:3]}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        code = 0
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for n, (what, rep) in enumerate(self.violations[:int(os.environ.get("VERIF_SHOW", 5))]):
                p = os.path.join(d, "%s-%d.json" % (self.prop, n))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, "replay": rep}, f, indent=1)
                print("  " + what[:400])
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            code = 1
        else:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, time.time() - self.t0))
        return code

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def shrink_text(o, n=1500):
    s = json.dumps(o)
    return s if len(s) <= n else s[:n] + "..."
