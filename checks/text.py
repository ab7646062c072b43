"""T01-T06: inline markup, highlighting, styles and text geometry against spec/Text, Styles and TextBox."""
import json, os, random
import common
from common import pool, tlc, judge, jdump

CLAUSES = {
    "T01": {"unclosed", "rejected", "text", "style", "rows"},
    "T02": {"unclosed", "rejected", "text", "style", "rows"},
    "T03": {"undefined", "rejected", "style", "rows", "variant", "variant-known", "text"},
    "T04": {"rejected", "accepted", "value", "scope", "drawn", "objects"},
    "T05": {"accepted", "rejected", "boxx", "boxw", "boxy", "boxh", "size"},
    "T06": {"rejected", "size", "drawn", "align", "scale", "centre", "turn"},
}
KNOWN = {"T03": {"variant-known": "T03-numeric-variant"}}
CODES = ["if a:\n 'b'", "a = 1 # ~\n", "x\n\"\"\"y\nz\"\"\"", "\nf(1)\n\ng"]


def blocks(check, texts, names, n):
    t = jdump([list(x) for x in texts], os.path.join(common.scratch(), "texts.json"))
    m = jdump(names, os.path.join(common.scratch(), "names.json"))
    r = tlc("MC_Blocks", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS Kept Emit\n" % n, env={"TEXTS": t, "NAMES": m})
    return finish(check, r, "enumerated_block_placements")


def finish(check, r, what):
    check.add_tlc(r)
    if not r.ok:
        raise common.MachineryError("the specification violates its own invariants: %s\n%s" % (r.violated, r.out[-1500:]))
    ps = r.prints("PROG")
    check.extra[what] = len(ps)
    return ps


def sample(check, ps, quick, thorough):
    cap = check.scale(quick, thorough)
    return check.rng.sample(ps, cap) if len(ps) > cap else ps


def run(check):
    import textprog as tp
    pid, rng = check.pid, check.rng
    jobs = []      # (runner, program)
    if pid == "T01":
        r = tlc("MC_Text", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n ALPHA <- Alpha7\n EMIT = TRUE\n"
                "INVARIANTS Exact Nothing Nested Emit\nPROPERTY Prefix\n" % check.scale(5, 6), timeout=850)
        ps = finish(check, r, "enumerated_texts")
        sty = {"a": tp.rec(color="red"), "aa": tp.rec(bold="T"), " ": tp.rec(italic="T"), "&": tp.rec(font="serif"), "a a": tp.rec(opacity="0.5")}
        for p in sample(check, ps, 6000, 150000):
            kind = rng.choice(["text", "text", "text", "code"])
            jobs.append(("run", {"in": "".join(p["in"]), "m": "~{}", "styles": sty, "kind": kind, "lang": None}))
        jobs += [("run", tp.gen_markup(rng)) for _ in range(check.scale(4000, 60000))]
    elif pid == "T02":
        ps = blocks(check, CODES, ["u", "v"], 2)
        for p in sample(check, ps, 2500, 20000):
            sty = {n: tp.random_style(rng, (0, 0, 1)) for n in ("u", "v")}
            jobs.append(("run", {"in": "".join(p["in"]), "m": "~{}", "styles": sty, "kind": "code", "lang": "python",
                                 "plain": CODES[p["t"] - 1], "tab": 4, "lineno": rng.random() < 0.2}))
        jobs += [("run", tp.gen_code(rng)) for _ in range(check.scale(3500, 40000))]
    elif pid == "T03":
        ps = blocks(check, ["x\ny", "xyz"], ["a", "b", "#d", "tt"], check.scale(2, 3))
        for p in sample(check, ps, 4000, 60000):
            sty = {n: tp.random_style(rng) for n in ("a", "b")}
            q = {"in": "".join(p["in"]), "m": "~{}", "styles": sty, "kind": "text"}
            if rng.random() < 0.4:
                q["own"] = tp.random_style(rng)
            jobs.append(("run", q))
        jobs += [("run", tp.gen_styled(rng)) for _ in range(check.scale(5000, 60000))]
    elif pid == "T04":
        r = tlc("MC_Styles", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANT Emit\nPROPERTIES Isolated Fixed Values Act_Wrong\n"
                % check.scale(4, 5), timeout=850)
        ps = finish(check, r, "enumerated_histories")
        objs = [tp.rec(color="red", bold="T"), tp.rec(color="blue")]
        jobs += [("styles", {"ops": p, "objs": objs}) for p in sample(check, ps, 2000, 30000)]
        for _ in range(check.scale(1200, 16000)):
            jobs.append(("styles", {"ops": None, "objs": [tp.random_style(rng) for _ in range(rng.randrange(0, 3))],
                                    "n": rng.randrange(4, 30), "seed": rng.getrandbits(40)}))
    else:
        r = tlc("MC_TextBox", "SPECIFICATION Spec\nCONSTANTS\n N = %d\n EMIT = TRUE\nINVARIANTS Tile Ranges Emit\n" % check.scale(5, 7))
        ps = finish(check, r, "enumerated_texts")
        for p in sample(check, ps, 700, 20000):
            jobs.append(("box", tp.box_of(rng, p)))
        jobs += [("box", tp.gen_box(rng)) for _ in range(check.scale(6000, 40000))]
    rng.shuffle(jobs)

    def work(_i, part):
        import textprog as tp
        from elsie_env import Env
        env = Env()
        out = []
        for how, p in part:
            def one():
                if how == "run":
                    return tp.run(env, p)
                if how == "box":
                    return tp.run_box(env, p)
                return tp.run_styles(env, p["ops"], p["objs"], random.Random(p.get("seed", 0)), p.get("n", 0))
            out.append(one())
        return out
    traces = pool(work, jobs, timeout=850)
    check.extra["random_programs"] = len(jobs) - min(len(jobs), len(ps))
    for t in traces[:3]:
        check.sample(json.dumps(t)[:1200])
    module = {"T04": "StylesTrace", "T05": "TextBoxTrace", "T06": "TextBoxTrace"}.get(pid, "TextTrace")
    judge(check, module, traces, clauses=CLAUSES[pid], known=KNOWN.get(pid))
