"""C04: the file cache under concurrent requests, against spec/Ensure.tla."""
import json, os, random, sys
import common, coop
from common import pool, tlc, judge

FILES = ("/elsie/utils/cache.py",)


def load():
    coop.install()
    sys.path.insert(0, common.REPO)
    import elsie.utils.cache as m
    assert m.__file__.startswith(common.REPO)
    return m.FsCache


class Run:
    """One scheduled execution. calls: {thread: [(key, waits, fail)]}"""

    def __init__(self, FsCache, base, calls, choose, built=(), hold=False, steps=2):
        self.dir = os.path.join(base, "c%d" % random.getrandbits(50))
        os.makedirs(self.dir)
        self.ev, self.calls, self.hold, self.steps = [], calls, hold, steps
        self.built = list(built)
        self.release = {}     # key -> ok flag: the builder of the key may end (hold mode)
        self.s = coop.Sched(choose, FILES)
        coop.Sched.cur = None
        if built:
            c = FsCache(self.dir, "1")
            for k in built:
                c.ensure("k%d" % k, "txt", lambda d, o, t: write(o, content(d)))
        self.cache = FsCache(self.dir, "1")
        coop.Sched.cur = self.s
        self.building = {}    # thread -> key
        for t in calls:
            self.s.spawn(t, lambda t=t: self.body(t))

    def body(self, t):
        for k, w, fail in self.calls[t]:
            self.call(t, k, w, fail)

    def call(self, t, k, w, fail):
        self.ev.append({"e": "call", "t": t, "k": k, "w": w})

        def constructor(data, output, data_type):
            self.ev.append({"e": "build", "t": t, "k": k})
            self.building[t] = k
            ok = not fail
            with open(output, "w") as f:
                f.write("par")
            if self.hold:
                while k not in self.release:
                    me = self.s.me()
                    me["state"], me["on"] = "blocked", "hold"
                    self.s.switch()
                ok = self.release.pop(k)
            else:
                for _ in range(self.steps):
                    self.s.switch()
            if ok:
                write(output, content(data))
                if not self.hold:
                    self.s.switch()
            self.ev.append({"e": "end", "t": t, "k": k, "ok": ok})
            del self.building[t]
            if not ok:
                raise ValueError("constructor of %d" % t)
        path, r = None, "ok"
        try:
            if w:
                path = self.cache.ensure("k%d" % k, "txt", constructor)
            else:
                path = self.cache.ensure("k%d" % k, "txt", constructor, wait_on_collision=False)
        except Exception as e:
            r = "err"
            if not isinstance(e, ValueError):
                self.exc = repr(e)
        complete = False
        good = isinstance(path, str) and os.path.dirname(os.path.abspath(path)) == self.dir
        if good:
            self.paths = getattr(self, "paths", {})
            good = self.paths.setdefault(k, path) == path and \
                all(p != path for q, p in self.paths.items() if q != k)
            try:
                with open(path) as f:
                    complete = f.read() == content("k%d" % k)
            except OSError:
                pass
        self.ev.append({"e": "ret", "t": t, "k": k, "r": r, "complete": complete, "path": good})

    def free(self, k):
        for t, q in self.building.items():
            if q == k and self.s.ts[t]["on"] == "hold":
                self.s.ts[t]["state"] = "run"

    def finish(self):
        try:
            self.s.loop()
        except RuntimeError:
            pass
        self.ev.append({"e": "over"})
        self.s.kill()
        coop.Sched.cur = None
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        os.rmdir(self.dir)
        return {"n": max(self.calls), "built": self.built, "ev": self.ev}


def content(k):
    return "content of " + k


def write(path, data):
    with open(path, "w") as f:
        f.write(data)


def replay(FsCache, base, cmds, rng):
    """A history of commands: each call runs in its own thread, to quiescence after every command."""
    calls = {c["t"]: [(c["k"], c["w"], False)] for c in cmds if c["c"] == "call"}
    r = Run(FsCache, base, calls, coop.RandomChoice(rng, .5), hold=True)
    for t in r.s.ts.values():
        t["state"] = "blocked"
    rest = False
    for c in cmds + [None] * 12:
        if c is None:
            if not r.building:
                break
            k = sorted(r.building.values())[0]
            r.release[k] = True
            r.free(k)
        elif c["c"] == "call":
            r.s.ts[c["t"]]["state"] = "run"
        else:
            if c["k"] not in r.building.values():
                r.ev.append({"e": "quiet"})
                break
            r.release[c["k"]] = c["ok"]
            r.free(c["k"])
        r.s.loop()
        r.ev.append({"e": "quiet"})
    for t in r.s.ts.values():
        if t["state"] == "blocked" and t["on"] is None:
            t["state"] = "done"   # never started by this history

    return finish_replay(r)


def finish_replay(r):
    r.ev.append({"e": "over"})
    r.s.stopping = True
    for t in r.s.ts.values():
        if t["state"] == "done" and t["on"] is None:
            pass
    for t in r.s.ts.values():
        if t["state"] != "done":
            t["lock"].release()
            r.s.main.acquire()
    coop.Sched.cur = None
    for f in os.listdir(r.dir):
        os.unlink(os.path.join(r.dir, f))
    os.rmdir(r.dir)
    return {"n": max(r.calls), "built": r.built, "ev": r.ev}


SCEN = [  # systematic scenarios: calls, initially built keys
    ({1: [(1, True, False)], 2: [(1, True, False)]}, ()),
    ({1: [(1, True, True)], 2: [(1, True, False)]}, ()),
    ({1: [(1, True, False)], 2: [(1, False, False)]}, ()),
    ({1: [(1, True, False)], 2: [(2, True, False)]}, ()),
    ({1: [(1, True, True)], 2: [(1, True, True)], 3: [(1, True, False)]}, ()),
    ({1: [(1, True, False)], 2: [(1, True, False), (2, True, False)]}, ()),
    ({1: [(1, True, True), (1, True, False)], 2: [(1, False, False)]}, ()),
    ({1: [(1, True, False)], 2: [(1, True, False)]}, (1,)),
    ({1: [(1, True, False)], 2: [(1, True, False)], 3: [(1, True, False)]}, ()),
]


def run(check):
    # the design: safety and liveness
    for n, keys in [(3, 2)] + ([(4, 2)] if check.thorough else []):
        r = tlc("MC_Ensure", "SPECIFICATION FairSpec\nCONSTANTS\n N = %d\n KEYS = %d\n SETTLE = FALSE\n DEPTH = 0\n"
                "VIEW View\nINVARIANT OneBuilder\nPROPERTIES Live AllDone\n" % (n, keys), workers=4)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("Ensure.tla violates %s" % r.violated)
    n, depth = check.scale((3, 5), (4, 8))
    r = tlc("MC_Ensure", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n KEYS = 2\n SETTLE = TRUE\n DEPTH = %d\n"
            "INVARIANTS OneBuilder Emit\n" % (n, depth))
    check.add_tlc(r)
    seen, progs = set(), []
    for p in r.prints("PROG"):
        key = json.dumps(p)
        if key not in seen:
            seen.add(key)
            progs.append(p)
    cap = check.scale(1200, 20000)
    check.extra["enumerated_command_histories"] = len(progs)
    if len(progs) > cap:
        progs = check.rng.sample(progs, cap)
    jobs = [("replay", p, check.rng.getrandbits(40)) for p in progs]
    for i in range(check.scale(1600, 30000)):
        jobs.append(("random", None, check.rng.getrandbits(40)))
    sysjobs = []
    for i, _ in enumerate(SCEN):
        for bound in (1, 2):
            sysjobs.append(("sys", i, bound))

    def work(_i, part):
        FsCache = load()
        base = os.path.join(common.scratch(), "e%d" % os.getpid())
        os.makedirs(base)
        out = []
        for kind, a, b in part:
            if kind == "replay":
                out.append([replay(FsCache, base, a, random.Random(b))])
            elif kind == "random":
                rng = random.Random(b)
                keys = rng.choice([1, 1, 2, 3])
                calls = {t: [(rng.randint(1, keys), rng.random() < .75, rng.random() < .3)
                             for _ in range(rng.choice([1, 1, 2, 3]))] for t in range(1, rng.choice([2, 2, 3, 4, 5]) + 1)}
                built = [k for k in range(1, keys + 1) if rng.random() < .15]
                out.append([Run(FsCache, base, calls, coop.RandomChoice(rng, rng.choice([.2, .5, .8])),
                                built, steps=rng.randint(0, 5)).finish()])
            else:
                calls, built = SCEN[a]
                prefix, res, seen_tr = [], [], set()
                lim = check.scale(400 if b == 2 else 800, 12000)
                cnt = 0
                while prefix is not None and cnt < lim:
                    ch = coop.Bounded(prefix, b)
                    t = Run(FsCache, base, calls, ch, built, steps=1).finish()
                    key = json.dumps(t)
                    if key not in seen_tr:
                        seen_tr.add(key)
                        res.append(t)
                    prefix = ch.next_prefix()
                    cnt += 1
                out.append(res + [cnt])
        return out
    traces, sched = [], 0
    for ts in pool(work, sysjobs) + pool(work, jobs):
        for t in ts:
            if isinstance(t, int):
                sched += t
            else:
                traces.append(t)
    check.extra["schedules_systematic"] = sched
    check.extra["schedules_random"] = len(jobs) - len(progs)
    for t in traces[:2] + traces[-1:]:
        check.sample(json.dumps(t)[:1500])
    judge(check, "EnsureTrace", traces)
