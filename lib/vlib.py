"""Runs the stages of a check: model checking, export of cases from the
specification, generation of cases, execution on the real code, and judgement
of what was recorded by the specification."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = os.path.join(VERIF, ".work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, ".work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.validated = self.evals = 0
        self.samples, self.notes, self.mc = [], [], []
        self.violations = []          # (key, text, replay)
        self.known_seen = []
        self.cases = {}               # suite -> file
        self.seen = {}                # suite -> set of case hashes
        self.known = load_known()
        self.extra = {}
        self.driver = None
        self.budget = 840 if tier == "thorough" else 600

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.work, *a)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- building
    def build(self, race=False):
        out = self.path("driver-race" if race else "driver")
        # built from a copy, so that nothing in /verif or /repo changes
        src = self.path("src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "driver"), src)
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=dict(os.environ, **GOENV), capture_output=True, text=True)
        if p.returncode:
            raise CheckError("the driver does not build:\n" + p.stderr[-3000:])
        if not race:
            self.driver = out
        return out

    def build_commands(self):
        """The command line tools of the repository, built outside of it."""
        out = self.path("cmds")
        os.makedirs(out, exist_ok=True)
        p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out + "/", "./cmd/..."], cwd="/repo", env=dict(os.environ, **GOENV), capture_output=True, text=True)
        if p.returncode:
            raise CheckError("the commands do not build:\n" + p.stderr[-3000:])
        return out

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=None, consts=None, heap="6g"):
        cfg = cfg or module + ".cfg"
        n = len(os.listdir(self.work))
        if consts:
            text = open(os.path.join(SPEC, cfg)).read()
            for k, v in consts.items():
                text, c = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
                if c != 1:
                    raise CheckError("constant %s not in %s" % (k, cfg))
            cfgf = self.path("%d-%s" % (n, cfg))
            open(cfgf, "w").write(text)
        else:
            cfgf = os.path.join(SPEC, cfg)
        out = self.path("%d-%s.out" % (n, os.path.basename(cfg)))
        meta = self.path("meta%d" % n)
        left = self.budget - (time.time() - self.t0)
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.path("tmp%d" % n), "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
               "-config", cfgf] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        tmp = self.path("tmp%d" % n)
        os.makedirs(tmp, exist_ok=True)
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout or max(left, 30))
            except subprocess.TimeoutExpired:
                raise CheckError("TLC took too long: %s %s" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        text = open(out, errors="replace").read()
        ok = "Model checking completed. No error has been found." in text or "The number of states generated:" in text and "Error:" not in text
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
        if not ok:
            i = text.find("Error:")
            raise CheckError("TLC failed on %s (%s):\n%s" % (module, cfg, text[i if i >= 0 else -3000:][:4000]))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return text, gen, dist

    def model_check(self, module, cfg=None, **kw):
        """Exhaustive check of the specification itself."""
        text, gen, dist = self.tlc(module, cfg, **kw)
        self.states += dist
        self.transitions += gen
        self.mc.append({"model": cfg or module + ".cfg", "distinct_states": dist, "transitions": gen})
        self.log("model %s: %d distinct states, %d transitions, properties hold" % (cfg or module, dist, gen))
        return text

    def model_refutes(self, module, cfg, invariant, **kw):
        """A variant of the specification that is known to be wrong: TLC has to find that."""
        try:
            self.tlc(module, cfg, **kw)
        except CheckError as e:
            if "Invariant %s is violated" % invariant not in str(e):
                raise
            self.mc.append({"model": cfg, "distinct_states": 0, "transitions": 0, "expected": invariant + " is violated"})
            self.log("model %s: %s is violated, as expected" % (cfg, invariant))
            return
        raise CheckError("%s should violate %s" % (cfg, invariant))

    def export(self, suite, module, cfg=None, **kw):
        """Cases for the real code, printed by the specification."""
        kw.setdefault("workers", 1)
        text, gen, dist = self.tlc(module, cfg, **kw)
        self.states += dist
        self.transitions += gen
        self.mc.append({"model": cfg or module + ".cfg", "distinct_states": dist, "transitions": gen})
        n = 0
        for line in text.splitlines():
            if line.startswith('"CASE '):
                n += self.add_case(suite, json.loads(json.loads(line)[5:]))
        self.log("spec %s: %d states, %d new cases for %s" % (cfg or module, dist, n, suite))
        if n == 0:
            raise CheckError("no cases exported by " + (cfg or module))
        return n

    # ---------------------------------------------------------------- cases
    def add_case(self, suite, case):
        b = json.dumps(case, separators=(",", ":"), ensure_ascii=False)
        h = hashlib.sha1(b.encode()).digest()[:10]
        s = self.seen.setdefault(suite, set())
        if h in s:
            return 0
        s.add(h)
        with open(self.path(suite + ".cases"), "a") as f:
            f.write(b + "\n")
        return 1

    def gen(self, suite, n, seed=None):
        p = subprocess.run([self.driver, "gen", suite, str(self.seed if seed is None else seed), str(n)], capture_output=True, text=True)
        if p.returncode:
            raise CheckError("generator failed: " + p.stderr[-2000:])
        new = 0
        with open(self.path(suite + ".cases"), "a") as f:
            s = self.seen.setdefault(suite, set())
            for line in p.stdout.splitlines():
                h = hashlib.sha1(line.encode()).digest()[:10]
                if h not in s:
                    s.add(h)
                    f.write(line + "\n")
                    new += 1
        self.log("generated %d cases for %s" % (new, suite))

    # ---------------------------------------------------- execute and judge
    def execute(self, suite, cases, out, driver=None, env=None):
        e = dict(os.environ)
        e.update(env or {})
        left = max(30, self.budget - (time.time() - self.t0))
        with open(out, "w") as f:
            try:
                p = subprocess.run([driver or self.driver, "run", suite, cases], stdout=f, stderr=subprocess.PIPE, text=True, env=e, timeout=left)
            except subprocess.TimeoutExpired:
                raise CheckError("the driver took too long on " + suite)
        if p.returncode:
            raise CheckError("the driver failed on %s: %s" % (suite, p.stderr[-2000:]))

    def rejects(self, module, trace, env=None, **kw):
        e = {"TRACE": trace}
        e.update(env or {})
        text, gen, dist = self.tlc(module, env=e, **kw)
        r = []
        for line in text.splitlines():
            if line.startswith('"REJECT '):
                r.append(json.loads(json.loads(line)[7:]))
        r.sort(key=lambda x: x["i"])
        return r, dist, gen

    def judge(self, suite, module, chunk=25000, env=None, driver=None, samples=2, racy=False, **kw):
        """Run all cases of the suite on the real code and let the specification judge the records.
        racy: what happens depends on the schedule too, so that a rejected record need not come out again."""
        cases = self.path(suite + ".cases")
        trace = self.path(suite + ".trace")
        self.execute(suite, cases, trace, driver, env)
        recs = open(trace).read().splitlines()
        ncases = sum(1 for _ in open(cases))
        cut = len(recs) < ncases     # the driver gave up after several crashes or hangs
        rej = []
        for block in chunks(recs, chunk):
            part = trace + ".part"
            with open(part, "w") as f:
                f.write("\n".join(block) + "\n")
            r, dist, gen = self.rejects(module, part, **kw)
            if dist < len(block):
                raise CheckError("%s visited %d of %d records" % (module, dist, len(block)))
            self.states += dist
            self.transitions += gen
            rej += r
            os.remove(part)
            if len(rej) > 50:
                break
        self.validated += len(recs)
        self.evals += len(recs)
        for x in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + samples - 1]:
            self.samples.append(json.loads(x) if len(x) < 4000 else {"suite": suite, "truncated": x[:1500]})
        self.log("%s: %d records judged by %s, %d rejected" % (suite, len(recs), module, len(rej)))
        if not rej and cut:
            raise CheckError("crashes or hangs in %s that the specification accepts" % suite)
        seen = set()
        for x in rej:
            if len(seen) >= 5:
                break
            rec = next(json.loads(l) for l in recs if json.loads(l)["i"] == x["i"])
            key = "%s:%s" % (suite, hashlib.sha1(json.dumps(rec["c"], sort_keys=True).encode()).hexdigest()[:12])
            if key in seen:
                continue
            seen.add(key)
            # again, alone, in a fresh process
            one = self.path("again.cases")
            with open(one, "w") as f:
                f.write(json.dumps(rec["c"], separators=(",", ":"), ensure_ascii=False) + "\n")
            for _ in range(5 if racy else 1):
                self.execute(suite, one, self.path("again.trace"), driver, env)
                r2, _, _ = self.rejects(module, self.path("again.trace"), **kw)
                if r2:
                    break
            if not r2 and racy:
                self.violation(key, {"suite": suite, "judge": module, "case": rec["c"], "observed": rec["r"], "specified": x.get("why"),
                                     "note": "seen in one schedule; it did not come out again in five more runs"})
                continue
            if not r2:
                raise CheckError("a rejection of %s that does not reproduce: %s" % (suite, json.dumps(rec)[:2000]))
            rec2 = json.loads(open(self.path("again.trace")).read().splitlines()[0])
            self.violation(key, {"suite": suite, "judge": module, "case": rec["c"], "observed": rec2["r"], "specified": r2[0].get("why")})

    def violation(self, key, info):
        for k, what in self.known:
            if k == (self.prop, key):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)
                self.known_seen.append(key)
                return
        info["property"] = self.prop
        path = os.path.join(self.replays, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9]", "_", key)))
        with open(path, "w") as f:
            json.dump(info, f, ensure_ascii=False, indent=1)
        self.violations.append((key, info, path))
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("  " + describe(info), flush=True)

    # ------------------------------------------------------------- evidence
    def finish(self, level, assumptions, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples[:6],
               "evaluations": self.evals, "models": self.mc}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("states %d, transitions %d, records judged %d, violations %d" % (self.states, self.transitions, self.validated, len(self.violations)))
        return 1 if self.violations else 0


def chunks(recs, count, size=60 << 20):
    """Blocks of records that fit well in TLC's memory."""
    block, n = [], 0
    for x in recs:
        if block and (len(block) >= count or n + len(x) > size):
            yield block
            block, n = [], 0
        block.append(x)
        n += len(x)
    if block:
        yield block


def printable(x):
    """Byte sequences of the traces as text, for people."""
    if isinstance(x, list) and x and all(isinstance(c, int) and 0 <= c < 256 for c in x):
        return bytes(x).decode("utf8", "backslashreplace")
    if isinstance(x, list):
        return [printable(y) for y in x]
    if isinstance(x, dict):
        return {k: printable(v) for k, v in x.items()}
    return x


def describe(info):
    return "; ".join("%s: %s" % (k, json.dumps(printable(info.get(k)), ensure_ascii=False)[:600]) for k in ("case", "observed", "specified") if k in info)


def load_known():
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                r.append(((m.group(1), m.group(2)), m.group(3)))
    return r
