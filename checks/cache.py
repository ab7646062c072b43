"""C01 C02 C03 C05: histories of runs on a cache directory against spec/Cache.tla."""
import json, os, random, shutil
import common
from common import pool, tlc, judge

CLAUSES = {"C01": {"ok", "same"}, "C02": {"again_m", "again_x"},
           "C03": {"ok", "same", "kept", "lost", "removed", "foreign", "stale_m", "stale_x"},
           "C05": {"ok", "same", "failed_entry"}}
PROFILE = {
    "C01": dict(vers=.5, prune=.4, save=.7, fault=.15, crash=.1, decks=.15, kinds=["pypdf", "pdflist", "png", "svg", "units", "html"]),
    "C02": dict(vers=.2, prune=.4, save=.8, fault=.1, crash=.05, decks=.1, kinds=["pypdf", "pdflist", "png", "svg", "units", "html"], again=.6),
    "C03": dict(vers=.2, prune=.75, save=.8, fault=.05, crash=.03, decks=.35, kinds=["pypdf", "pdflist", "png", "svg", "units"], sel=.5),
    "C05": dict(vers=.1, prune=.5, save=.8, fault=.3, crash=.6, decks=.1, kinds=["pypdf", "pdflist", "png"]),
}
CONTS = list(range(1, 15)) + [6, 13, 13]


def rand_content(rng):
    """A content; those of a history are mostly of one kind and differ in a detail."""
    if rng.random() < .4:
        return rng.choice(CONTS)
    t = rng.theme
    if rng.random() < .15:
        t = [rng.randrange(5), rng.randrange(150)]
    return 100 + (t[1] + rng.randrange(5)) * 5 + t[0]


def rand_render(rng, pr, d):
    k = rng.choice(pr["kinds"])
    op = {"op": "render", "d": d, "kind": k, "prune": rng.random() < pr["prune"], "save": rng.random() < pr["save"]}
    if k == "html":
        op["sel"] = [rng.randrange(5)]
    elif rng.random() < pr.get("sel", .25):
        op["sel"] = [rng.randrange(5) for _ in range(rng.randint(1, 2))]
    if k != "html" and rng.random() < .15:
        op["grid"] = rng.choice([(1, 1), (2, 1), (2, 2)])
    return op


def rand_run(rng, pr, base=None):
    if base is not None and rng.random() < pr.get("again", .35):
        ops = json.loads(json.dumps(base["ops"]))
        x = rng.random()
        if x < .3:
            ops.append(rand_render(rng, pr, 1))
        elif x < .5:
            ops.insert(len(ops) - 1, {"op": "slide", "d": 1, "c": rand_content(rng)})
        run = {"v": base["v"], "ops": ops}
    else:
        ops = [{"op": "deck", "d": 1}, {"op": "slide", "d": 1, "c": rand_content(rng)}]
        nd = 1
        if rng.random() < pr["decks"]:
            ops += [{"op": "deck", "d": 2}, {"op": "slide", "d": 2, "c": rand_content(rng)}]
            nd = 2
        for _ in range(rng.randint(1, 5)):
            d = rng.randint(1, nd)
            x = rng.random()
            if x < .4:
                ops.append({"op": "slide", "d": d, "c": rand_content(rng)})
            elif x < .5:
                ops.append({"op": "more", "d": d, "s": rng.randrange(4), "c": rand_content(rng)})
            else:
                ops.append(rand_render(rng, pr, d))
        ops.append(rand_render(rng, pr, rng.randint(1, nd)))
        run = {"v": base["v"] if base else 1, "ops": ops}
    if rng.random() < pr["vers"]:
        run["v"] = rng.choice([1, 2, 3, 4, 5])
    x = rng.random()
    if x < pr["fault"]:
        run["faults"] = [rng.choice([{"cmd": "export-do", "nth": rng.randint(1, 4), "kind": "nofile"},
                                     {"cmd": rng.choice(["query-width", "query-x"]), "nth": rng.randint(1, 4), "kind": "reply",
                                      "text": rng.choice(["", "error", "1,5", "WARNING"])},
                                     {"cmd": "tex", "nth": rng.randint(1, 2), "kind": rng.choice(["fail", "svgfail"])},
                                     {"cmd": "*", "nth": rng.randint(3, 60), "kind": "die_before"},
                                     {"cmd": "export-do", "nth": rng.randint(1, 3), "kind": "die_partial_file"}])]
    elif x < pr["fault"] + pr["crash"]:
        if rng.random() < .3:
            run["faults"] = [rng.choice([{"cmd": "export-do", "nth": rng.randint(1, 4), "kind": "kill_partial_file"},
                                         {"cmd": "export-do", "nth": rng.randint(1, 4), "kind": "kill_full_file"},
                                         {"cmd": "tex", "nth": 1, "kind": "kill"}])]
        else:
            run["crash"] = rng.randint(1, 60)
            run["partial"] = rng.random() < .7
    return run


def rand_history(rng, pr):
    runs = []
    rng.theme = [rng.randrange(5), rng.randrange(12) if rng.random() < .6 else rng.randrange(150)]
    for _ in range(rng.randint(2, 4)):
        runs.append(rand_run(rng, pr, rng.choice(runs) if runs and rng.random() < .8 else None))
    # the last run is a plain one, in case of C05 after any accident
    if runs[-1].get("crash") or runs[-1].get("faults"):
        r = dict(rng.choice(runs))
        r.pop("faults", None)
        r.pop("crash", None)
        runs.append(r)
    return runs


MAP = {1: 2, 2: 8, 3: 4}


def model_run(h, rng):
    """A run of the specification as a run of the real code: content c is a slide."""
    ops = [{"op": "deck", "d": 1}] + [{"op": "slide", "d": 1, "c": MAP[c]} for c in h["c"]]
    ops.append({"op": "render", "d": 1, "kind": rng.choice(["pypdf", "pdflist", "png"]), "prune": h["prune"], "save": h["save"]})
    r = {"v": {1: 1, 2: rng.choice([2, 3, 4])}[h["v"]], "ops": ops}
    if h["end"] == "crash":
        r["crash"] = h["n"] + 1
        r["partial"] = False
    elif h["end"] == "fail":
        r["faults"] = [{"cmd": "export-do", "nth": 1, "kind": "nofile"}]
    return r


def run(check):
    import cacheprog  # noqa  (imports the code under test)
    pid = check.pid
    pr = PROFILE[pid]
    crash = pid == "C05"
    nruns, nc, nv = check.scale((2, 2, 2), (3, 2, 2))
    inv = "INVARIANTS InvWhole InvAgain InvDone"
    r = tlc("MC_Cache", "SPECIFICATION Spec\nCONSTANTS\n RUNS = 2\n NC = 2\n NV = 2\n CRASH = TRUE\n%s%s\n" % (inv, " Emit"))
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the specification violates its own invariants: %s" % r.violated)
    progs = r.prints("PROG")
    if check.thorough:
        r = tlc("MC_Cache", "SPECIFICATION Spec\nCONSTANTS\n RUNS = 3\n NC = 2\n NV = 2\n CRASH = TRUE\n%s\n" % inv, timeout=840)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s" % r.violated)
    if not crash:
        progs = [h for h in progs if all(x["end"] != "crash" for x in h)]
    check.extra["enumerated_histories"] = len(progs)
    cap = check.scale(160, 3000)
    if len(progs) > cap:
        progs = check.rng.sample(progs, cap)
    jobs = []
    for h in progs:
        runs = [model_run(x, check.rng) for x in h]
        jobs.append(("runs", runs + [plain(runs[-1])] if h[-1]["end"] != "exit" or pid == "C02" else runs, 0))
    n = check.scale(200, 5000)
    for _ in range(n):
        jobs.append(("runs", rand_history(check.rng, pr), 0))
    if crash:
        for i in range(check.scale(3, 24)):
            jobs += [("sweep", i, (k, 8)) for k in range(8)]
    check.rng.shuffle(jobs)

    def work(_i, part):
        import cacheprog
        out = []
        base = os.path.join(common.scratch(), "w%d" % os.getpid())
        os.makedirs(base)
        for kind, a, b in part:
            if kind == "runs":
                out.append([history(cacheprog, base, a)])
            else:
                out.append(sweep(cacheprog, base, a, b, check.scale(14, 400), check.seed))
        shutil.rmtree(base)
        return out
    traces = [t for ts in pool(work, jobs, timeout=850) for t in ts]
    check.extra["histories_replayed_from_spec"] = len(progs)
    check.extra["random_histories"] = n
    check.extra["runs"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "start")
    check.extra["crashes"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "crash")
    check.extra["programs_failing_on_empty_cache"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "noref")
    for t in traces[-3:]:
        check.sample(json.dumps(t)[:1500])
    judge(check, "CacheTrace", traces, clauses=CLAUSES[pid])


def plain(r):
    r = dict(r)
    r.pop("faults", None)
    r.pop("crash", None)
    return r


def history(cp, base, runs):
    h = cp.History(base)
    for r in runs:
        h.run(r)
    shutil.rmtree(h.dir)
    t = h.trace()
    t["runs"] = json.dumps(runs)
    return t


def sweep(cp, base, i, part, cap, seed):
    """Interrupt one program at its file operations, one after the other (part k of n)."""
    rng = random.Random("sweep%d/%d" % (i, seed))
    rng.theme = [rng.randrange(5), rng.randrange(150)]
    pr = dict(PROFILE["C05"], crash=0, fault=0, vers=0)
    first = rand_run(rng, pr)
    victim = rand_run(rng, dict(pr, again=1), first)
    victim["partial"] = i % 2 == 0
    h = cp.History(base)
    h.run(first)
    h.run(dict(victim, count=True))
    total = h.ops
    shutil.rmtree(h.dir)
    points = list(range(1, total + 1))
    if len(points) > cap * part[1]:
        points = sorted(rng.sample(points, cap * part[1]))
    out = []
    for k in points[part[0]::part[1]]:
        out.append(history(cp, base, [first, dict(victim, crash=k), plain(victim), plain(victim)]))
    return out
