"""W01: pages are well-formed XML with all values as given, against spec/XmlOut."""
import json
import common
from common import pool, tlc, judge

CLAUSES = {"err", "wellformed", "missing", "changed"}


def run(check):
    rng = check.rng
    import xmlprog as xp
    n, l = check.scale((2, 2), (3, 1))
    ps = []
    for n, l in check.scale([(2, 2)], [(2, 2), (3, 1)]):
        r = tlc("MC_XmlOut", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n L = %d\n EMIT = TRUE\nINVARIANTS RoundTrip Unfinished MarkOps Emit\n" % (n, l), timeout=850)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
        ps += r.prints("PROG")
    check.extra["enumerated_programs"] = len(ps)
    jobs = [xp.of_enum(rng, p) for p in rng.sample(ps, min(len(ps), check.scale(2500, 30000)))]
    rnd = check.scale(2500, 40000)
    check.extra["random_programs"] = rnd
    jobs += [xp.gen(rng) for _ in range(rnd)]

    def work(_i, part):
        import xmlprog as xp
        from elsie_env import Env
        env = Env()
        return [xp.run(env, p) for p in part]
    traces = pool(work, jobs, timeout=850)
    for t in traces[:3]:
        check.sample(json.dumps(t["sites"]) + " " + "".join(map(chr, t["page"]))[:1000])
    judge(check, "XmlOutTrace", traces, clauses=CLAUSES)
