"""Shared machinery of the checks: TLC runner, evidence, verdicts, scratch space, worker pool."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DEV_REPO", "/repo")   # DEV_REPO: only for development of the checks
SPEC = os.path.join(VERIF, "spec")
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CM_JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


_scratch = None


def scratch():
    """Scratch directory of this check run, removed at exit (in memory if possible)."""
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="verif-", dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def jdump(obj, path):
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        self.generated = int(m.group(1).replace(",", "")) if m else 0
        self.distinct = int(m.group(2).replace(",", "")) if m else 0
        m = re.search(r"computing initial states: ([\d,]+)", out)
        self.initial = int(m.group(1).replace(",", "")) if m else 0
        self.ok = "No error has been found" in out
        self.violated = re.findall(r"(?:Invariant|property|Property) (\S+) (?:is|was) violated", out)
        self.violated += ["Temporal" for _ in re.findall(r"Temporal properties were violated", out)]
        self.deadlock = "Deadlock reached" in out

    def prints(self, tag):
        """JSON payloads of lines printed by PrintT(tag \\o ToJson(x))."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                s = json.loads(line)  # TLA+ string literal with JSON-like escapes
                res.append(json.loads(s[len(tag):]))
        return res


def tlc(module, cfg, env=None, workers=NPROC, timeout=800, extra=(), heap="6g", deadlock=False, dfs=False):
    """Run TLC on SPEC/<module>.tla with the given cfg text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cfgf = os.path.join(d, "m.cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
           "-cp", TLA_JAR + ":" + CM_JAR, "tlc2.TLC", "-config", cfgf, "-metadir", os.path.join(d, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s" % module) from ex
    r = TlcResult(p.stdout, p.returncode, time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    if not r.ok and not r.violated and not r.deadlock:
        raise MachineryError("TLC failed on %s:\n%s" % (module, p.stdout[-6000:]))
    return r


class Check:
    def __init__(self, pid, tier=None, seed=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER") or "quick"
        self.seed = int(seed if seed is not None else (os.environ.get("VERIF_SEED") or 1))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.level = "model_checking"
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (clause, detail)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.initial)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def violation(self, clause, detail):
        self.violations.append((clause, detail))

    # --- known findings
    def known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.isfile(p):
            with open(p) as f:
                for k in json.load(f).get("known", []):
                    if k["property"] == self.pid:
                        res.append(k)
        return res

    def known_finding(self, fid):
        """Report that the listed finding `fid` still fails; True iff it is listed."""
        for k in self.known():
            if k["id"] == fid:
                if fid not in self.known_hit:
                    self.known_hit.append(fid)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return True
        return False

    def finish(self):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        doc = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
               "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(ev, self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        if not self.violations:
            print("%s: held (%d states, %d transitions, %d traces of the real code) in %.1f s" %
                  (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
            return 0
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (self.pid, self.seed))
        with open(path, "w") as f:
            json.dump([{"clause": c, "detail": d} for c, d in self.violations[:20]], f, indent=1, default=str)
        for c, d in self.violations[:5]:
            print("  clause %s: %s" % (c, str(d)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


class Hang(BaseException):
    pass


def _alarm(_s, _f):
    raise Hang()


def with_timeout(seconds, fn, *args):
    """Run fn(*args); a hang becomes Hang (main thread only)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(fn, jobs, idx, out):
    try:
        devnull = open(os.devnull, "w")
        sys.stdout = devnull
        res = fn(idx, jobs)
        with open(out, "w") as f:
            json.dump({"ok": res}, f)
    except BaseException:
        with open(out, "w") as f:
            json.dump({"err": traceback.format_exc()}, f)
    os._exit(0)


def pool(fn, jobs, nproc=NPROC, timeout=700):
    """fn(worker index, jobs) -> list of results, run in forked workers on slices of jobs; results in order."""
    n = max(1, min(nproc, len(jobs)))
    parts = [jobs[i::n] for i in range(n)]
    procs = []
    for i in range(n):
        out = os.path.join(scratch(), "w%d-%d.json" % (i, random.getrandbits(48)))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            _worker(fn, parts[i], i, out)
        procs.append((pid, out))
    end = time.time() + timeout
    res = [None] * len(jobs)
    err = None
    for i, (pid, out) in enumerate(procs):
        while True:
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                for q, _o in procs:
                    try:
                        os.kill(q, signal.SIGKILL)
                    except OSError:
                        pass
                raise MachineryError("worker timed out")
            time.sleep(0.01)
        if not os.path.isfile(out):
            raise MachineryError("worker %d died" % i)
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        if "err" in r:
            err = r["err"]
        else:
            assert len(r["ok"]) == len(parts[i])
            res[i::n] = r["ok"]
    if err:
        raise MachineryError("worker failed:\n" + err)
    return res


def judge(check, module, traces, cfg=None, env=None, chunk=4000, clauses=None, describe=None, timeout=800,
          known=None):
    """Validate recorded traces against SPEC/<module>.tla.  known: clause -> id of a listed finding it stands for.

    The module reads IOEnv.TRACES, has one initial state per trace, and prints "VERDICT" with a JSON object
    {tr, bad: [clauses], info} exactly once per trace.  Clauses not in `clauses` (if given) are ignored.
    """
    bad = 0
    for k in range(0, len(traces), chunk):
        part = traces[k:k + chunk]
        f = jdump(part, os.path.join(scratch(), "traces-%d.json" % random.getrandbits(48)))
        e = {"TRACES": f}
        e.update(env or {})
        r = tlc(module, cfg or "SPECIFICATION Spec\n", env=e, timeout=timeout)
        os.unlink(f)
        check.add_tlc(r)
        vs = {}
        for v in r.prints("VERDICT"):
            vs[v["tr"]] = v
        if sorted(vs) != list(range(1, len(part) + 1)):
            missing = [i for i in range(1, len(part) + 1) if i not in vs][:3]
            raise MachineryError("%s: no verdict for traces %s\n%s" %
                                 (module, [json.dumps(part[i - 1])[:3000] for i in missing], r.out[-3000:]))
        check.traces += len(part)
        for i, v in sorted(vs.items()):
            b = [c for c in v["bad"] if clauses is None or c in clauses]
            b = [c for c in b if not (known and c in known and check.known_finding(known[c]))]
            if b:
                bad += 1
                t = part[i - 1]
                check.violation(",".join(b), {"info": v.get("info"), "trace": describe(t) if describe else t})
    return bad
