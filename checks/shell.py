"""I01 I02: conversations with a misbehaving Inkscape against spec/Shell.tla."""
import json, os, random
import common
from common import pool, tlc, judge

CLAUSES = {"I01": {"hang", "value", "accepted", "rejected", "stored"}, "I02": {"hang", "survived", "rejected"}}
P = {"I01": dict(kinds=["noise", "noise", "chunk", "junk", "nofile", "noise", "stderr"]),
     "I02": dict(kinds=["die_before", "die_after", "die_partial", "die_partial_file", "stderr", "stderr", "noise"])}
USED = {"I01": {"noise", "chunk", "junk", "nofile"},
        "I02": {"die_before", "die_after", "die_partial", "die_partial_file", "stderr"}}


def run(check):
    import shellprog  # noqa
    pid = check.pid
    n = check.scale(3, 4)
    r = tlc("MC_Shell", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n DRAIN = TRUE\n MAYDIE = %s\nINVARIANTS Match NoFalseFailure\nPROPERTY Answered\n"
            % (n, "TRUE" if pid == "I02" else "FALSE"))
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the protocol of the specification fails: %s\n%s" % (r.violated, r.out[-1500:]))
    r = tlc("MC_ShellPlan", "SPECIFICATION Spec\nCONSTANTS\n N = 3\n FAULTS = 1\nINVARIANT Emit\nPROPERTY Gone\n")
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the specification fails: %s\n%s" % (r.violated, r.out[-1500:]))
    progs = [p for p in r.prints("PROG") if all(f["f"] in USED[pid] for q in p for f in q["fs"])
             and any(q["fs"] for q in p)]
    check.extra["enumerated_conversations"] = len(progs)
    cap = check.scale(500, 100000)
    if len(progs) > cap:
        progs = check.rng.sample(progs, cap)
    jobs = [(p, check.rng.getrandbits(40)) for p in progs]
    m = check.scale(300, 8000)
    jobs += [(None, check.rng.getrandbits(40)) for _ in range(m)]
    check.rng.shuffle(jobs)

    def work(_i, part):
        import shellprog
        out = []
        base = os.path.join(common.scratch(), "w%d" % os.getpid())
        os.makedirs(base)
        hangs = 0
        for plan, seed in part:
            if hangs >= 3:      # hopeless; each one costs seconds
                out.append({"ev": []})
                continue
            rng = random.Random(seed)
            t = shellprog.plan_run(base, rng, plan) if plan else shellprog.random_run(base, rng, P[pid])
            hangs += any(e["hang"] for e in t["ev"])
            out.append(t)
        return out
    traces = pool(work, jobs, timeout=850)
    check.extra["random_conversations"] = m
    check.extra["requests"] = sum(len(t["ev"]) for t in traces)
    check.extra["requests_with_faults"] = sum(1 for t in traces for e in t["ev"] if e["fs"])
    for t in traces[-3:]:
        check.sample(json.dumps(t)[:1200])
    judge(check, "ShellTrace", traces, clauses=CLAUSES[pid])
