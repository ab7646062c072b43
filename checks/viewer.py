"""J01: the HTML preview against spec/Viewer."""
import json
import common
from common import pool, tlc, judge

CLAUSES = {"J01": {"err", "cells", "fragments", "content", "displayed", "controls", "number", "next", "previous"}}


def run(check):
    pid, rng = check.pid, check.rng
    import viewprog
    r = tlc("MC_Viewer", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS One Bounds LastShows Emit\nPROPERTY Alone\n"
            % check.scale(4, 6), timeout=850)
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
    ps = r.prints("PROG")
    check.extra["enumerated_programs"] = len(ps)
    cap = check.scale(800, 30000)
    jobs = [viewprog.of_history(rng, p) for p in (rng.sample(ps, cap) if len(ps) > cap else ps)]
    rnd = check.scale(700, 15000)
    jobs += [viewprog.gen(rng) for _ in range(rnd)]
    check.extra["random_programs"] = rnd
    rng.shuffle(jobs)

    def work(_i, part):
        import viewprog
        from elsie_env import Env
        env, node = Env(), viewprog.Node()
        try:
            return [viewprog.run(env, node, p) for p in part]
        finally:
            node.close()
    traces = pool(work, jobs, timeout=850)
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    judge(check, "ViewerTrace", traces, clauses=CLAUSES[pid])
