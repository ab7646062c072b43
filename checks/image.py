"""G01-G03: images against spec/Image, Ora and ImageBox."""
import json
import common
from common import pool, tlc, judge

CLAUSES = {
    "G01": {"rejected", "count", "twice", "shown", "elements", "order", "err"},
    "G02": {"err", "size", "drawn", "scale", "centre", "rotation", "content"},
    "G03": {"err", "count", "order", "layers", "place", "opacity"},
}


def run(check):
    import imageprog as ip
    pid, rng = check.pid, check.rng

    def enum(module, n, inv):
        r = tlc(module, "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS %s Emit\n" % (n, inv), timeout=850)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
        ps = r.prints("PROG")
        check.extra["enumerated_programs"] = len(ps)
        return ps

    def sample(ps, quick, thorough):
        cap = check.scale(quick, thorough)
        return rng.sample(ps, cap) if len(ps) > cap else ps
    if pid == "G01":
        ps = enum("MC_Image", check.scale(2, 3), "Nested NotBefore Enough Ignored Shifted Identity")
        jobs = [{"files": [p["tree"]], "ops": [{"op": "box", "par": 1, "sel": p["box"]}, {"op": "image", "box": 2, "file": 1, "use": p["use"]}]}
                for p in sample(ps, 2500, 60000)]
        fn, module = "run", "ImageTrace"
        jobs += [ip.gen(rng) for _ in range(check.scale(2500, 40000))]
        rnd = check.scale(2500, 40000)
    elif pid == "G03":
        ps = enum("MC_Ora", check.scale(3, 4), "Bottom Once Some Hidden")
        jobs = [{"tree": p, "use": {"begin": 1, "mode": rng.choice(["frags", "frags", "all"]), "list": []}} for p in sample(ps, 1500, 30000)]
        fn, module = "run_ora", "OraTrace"
        rnd = check.scale(1500, 30000)
        jobs += [ip.gen_ora(rng) for _ in range(rnd)]
    else:
        ps = enum("MC_ImageBox", check.scale(2, 3), "Fitting Room Shape Shape2")
        jobs = [ip.box_of(rng, p) for p in sample(ps, 1500, 30000)]
        fn, module = "run_box", "ImageBoxTrace"
        rnd = check.scale(3000, 40000)
        jobs += [ip.gen_box(rng) for _ in range(rnd)]
    rng.shuffle(jobs)
    check.extra["random_programs"] = rnd

    def work(_i, part):
        import imageprog as ip
        from elsie_env import Env
        env = Env()
        return [getattr(ip, fn)(env, p) for p in part]
    traces = pool(work, jobs, timeout=850)
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    judge(check, module, traces, clauses=CLAUSES[pid])
