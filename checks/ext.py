"""E01-E03: lists, Markdown and LaTeX against spec/Lists, Markdown and Latex."""
import json
import common
from common import pool, tlc, judge

CLAUSES = {
    "E02": {"err", "order", "text", "style"},
    "E03": {"err", "rejected", "accepted", "compiled", "elements", "ids", "links", "size", "centre", "clash", "box"},
    "E01": {"rejected", "accepted", "levels", "fragments", "err", "order", "revealed", "labels", "places"},
}


def run(check):
    pid, rng = check.pid, check.rng

    def enum(module, n, inv):
        r = tlc(module, "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS %s\n" % (n, inv), timeout=850)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
        ps = r.prints("PROG")
        check.extra["enumerated_programs"] = len(ps)
        return ps

    def sample(ps, quick, thorough):
        cap = check.scale(quick, thorough)
        return rng.sample(ps, cap) if len(ps) > cap else ps
    if pid == "E02":
        ps = enum("MC_Markdown", check.scale(6, 7), "Complete1 InOrder Labels Bold Emit")
        jobs = [{"doc": p} for p in sample(ps, 1200, 60000)]
        import mdprog
        rnd = check.scale(2000, 40000)
        jobs += [mdprog.gen(rng) for _ in range(rnd)]
        jobs += [{"doc": [], "text": x} for x in ("", " ", "\n\n", "\n   \n \n")]
        check.extra["random_programs"] = rnd
        rng.shuffle(jobs)

        def work(_i, part):
            import mdprog
            from elsie_env import Env
            env = Env()
            return [mdprog.run(env, p) for p in part]
        traces = pool(work, jobs, timeout=850)
        module = "MarkdownTrace"
    elif pid == "E03":
        import texprog
        ps = enum("MC_Latex", check.scale(4, 6), "Once Enough UsedThere Failed Emit")
        jobs = [texprog.of_history(rng, p) for p in sample(ps, 250, 5000)]
        ps = enum("MC_LatexIds", check.scale(2, 3), "Possible Needed Emit")
        jobs += [texprog.of_structure(rng, p) for p in sample(ps, 350, 5000)]
        check.extra["enumerated_programs"] = len(jobs)
        rnd = check.scale(800, 8000)
        jobs += [texprog.gen(rng) for _ in range(rnd)]
        check.extra["random_programs"] = rnd
        rng.shuffle(jobs)

        def work(_i, part):
            import texprog
            from elsie_env import Env
            env = Env()
            return [texprog.run(env, p) for p in part]
        traces = pool(work, jobs, timeout=850)
        module = "LatexTrace"
    elif pid == "E01":
        ps = enum("MC_Lists", check.scale(3, 4), "Counted Labelled AllSeen Grows Emit\nPROPERTY Fixed")
        cap = check.scale(2500, 50000)
        jobs = [{"ops": p} for p in (rng.sample(ps, cap) if len(ps) > cap else ps)]
        import listprog as lp
        rnd = check.scale(3000, 40000)
        jobs += [lp.gen(rng) for _ in range(rnd)]
        check.extra["random_programs"] = rnd
        rng.shuffle(jobs)

        def work(_i, part):
            import listprog as lp
            from elsie_env import Env
            env = Env()
            return [lp.run(env, p) for p in part]
        traces = pool(work, jobs, timeout=850)
        module = "ListsTrace"
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    judge(check, module, traces, clauses=CLAUSES[pid])
