"""W02, B01, B02: shapes, images and view boxes on the pages of both backends, against spec/Shapes and spec/Pixels."""
import json
import common
from common import pool, tlc, judge

CLAUSES = {"err", "pages", "size", "figures", "kind", "color", "width", "dashes", "geometry"}


def run(check):
    pid, rng = check.pid, check.rng
    import shapeprog as sp

    def enum(module, n, inv):
        r = tlc(module, "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS %s Emit\n" % (n, inv), timeout=850)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
        return r.prints("PROG")

    def some(ps, cap):
        return rng.sample(ps, cap) if len(ps) > cap else ps
    if pid == "B02":
        grid = enum("MC_Pixels", check.scale(2, 2), "TopMost Outside")
        paths = enum("MC_Paths", 3, "Drawn Repeats Kinds Smooth Straight")
        check.extra["enumerated_programs"] = len(grid) + len(paths)
        jobs = [dict(p, spell=rng.getrandbits(32)) for p in some(grid, check.scale(700, 10000))]
        jobs += [sp.of_path(rng, p) for p in some(paths, check.scale(200, 1800))]
        rnd = check.scale(900, 12000)
        check.extra["random_programs"] = rnd
        jobs += [sp.gen(rng) for _ in range(rnd)]
        rng.shuffle(jobs)

        def png(_i, part):
            import shapeprog as sp
            from elsie_env import Env
            env = Env()
            return [sp.run_png(env, p) for p in part]
        traces = pool(png, jobs, timeout=850)
        check.extra["pixels"] = sum(len(g["px"]) for t in traces for g in t["pages"])
        for t in traces[:3]:
            check.sample(json.dumps(t)[:1200])
        judge(check, "PixelsTrace", traces, clauses={"err", "pages", "size", "pixels"})
        return
    slides = enum("MC_Shapes", 2, "Alone Colors Arrows BackAndForth Meet")
    paths = enum("MC_Paths", check.scale(3, 4), "Drawn Repeats Kinds Smooth Straight")
    check.extra["enumerated_programs"] = len(slides) + len(paths)
    jobs = [dict(p, spell=rng.getrandbits(32)) for p in some(slides, check.scale(1200, 8000))]
    jobs += [sp.of_path(rng, p) for p in some(paths, check.scale(800, 20000))]
    rnd = check.scale(2500, 40000)
    check.extra["random_programs"] = rnd
    jobs += [sp.gen(rng) for _ in range(rnd)]
    rng.shuffle(jobs)
    fmt = "svg" if pid == "W02" else "pdf"

    def work(_i, part):
        import shapeprog as sp
        from elsie_env import Env
        env = Env()
        return [sp.run(env, p, fmt) for p in part]
    traces = pool(work, jobs, timeout=850)
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    judge(check, "ShapesTrace", traces, clauses=CLAUSES)
