"""B03: texts on the PDF pages of the Cairo backend, against spec/CairoTextTrace (Text, TextBox, Shapes)."""
import json
import common
from common import pool, tlc, judge

CLAUSES = set("err pages chars look em levels rows align scale size accepted rejected boxx boxw boxy boxh".split())


def run(check):
    rng = check.rng
    import ctextprog as cp
    r = tlc("MC_TextBox", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS Tile Ranges Emit\n" % check.scale(5, 7), timeout=850)
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
    progs = r.prints("PROG")
    check.extra["enumerated_programs"] = len(progs)
    cap = check.scale(900, 12000)
    jobs = [cp.of_enum(rng, p) for p in (rng.sample(progs, cap) if len(progs) > cap else progs)]
    rnd = check.scale(1800, 20000)
    check.extra["random_programs"] = rnd
    jobs += [cp.gen(rng) for _ in range(rnd)]
    rng.shuffle(jobs)

    def work(_i, part):
        import ctextprog as cp
        from elsie_env import Env
        env = Env()
        return [cp.run(env, p) for p in part]
    traces = [t for ts in pool(work, jobs, timeout=850) for t in ts]
    check.extra["characters"] = sum(len(t["glyphs"]) for t in traces)
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    judge(check, "CairoTextTrace", traces, clauses=CLAUSES)
