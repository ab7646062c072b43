"""D01-D07: histories of decks against spec/Deck.tla."""
import json, random
import common
from common import pool, tlc, judge
from elsie_env import Env
import deckprog as dp

ALL = ["units", "units", "pypdf", "pypdf", "pdflist", "png", "svg", "pptx", "htmlsvg"]
MODES = {
    "D01": dict(views=ALL + ["pdfunite", "html"], policies=["ignore", "auto", "replace"], sel=.4, grid=.1, pdf=.2, post=.05, cairo=.25),
    "D02": dict(views=["units"], new=.55, badname=.1, badpolicy=.04, pdf=.05, n=(5, 16), sel=0, grid=0, post=0),
    "D03": dict(views=["units", "units", "units", "pypdf", "pdflist"], grid=.95, pdf=.15, n=(4, 18), post=.05, sel=.2),
    "D04": dict(views=ALL + ["html", "units"], rich=True, twin=.4, n=(5, 14), sel=.3, grid=.2, final=2, cairo=.25),
    "D05": dict(views=["units", "pypdf", "png", "pptx", "pdflist"], post=.85, pdf=.15, sel=.4, grid=.2, rich=True, final=2, cairo=.25),
    "D06": dict(views=ALL + ["html"], policies=["ignore", "auto", "replace", "replace", "unique"], debug=.9, sel=.4, grid=.2, pdf=.1,
                post=.2, rich=True, final=2, n=(5, 16)),
    "D07": dict(views=ALL, policies=["ignore", "replace", "replace", "unique"], fail=.35, sel=.2, grid=.15, pdf=.2, post=.1, twin=.3, rich=True,
                cairo=.25, n=(6, 18), final=2),
}
CLAUSES = {
    "D01": {"error", "count", "content"}, "D02": {"accept", "get", "policy", "content", "count", "error"},
    "D03": {"error", "count", "content", "cells"}, "D04": {"error", "repeat", "twin"},
    "D05": {"error", "post", "count", "content"}, "D06": {"error", "files", "same", "count", "content"},
    "D07": {"accept", "output", "pruned", "post", "error", "count", "content", "repeat", "twin", "get"},
}
MC = {"D01": ["ignore"], "D02": ["ignore", "replace", "unique"], "D03": ["ignore"], "D04": ["ignore"], "D05": ["replace"], "D06": ["replace", "ignore"], "D07": ["replace", "unique"]}


def run(check):
    pid = check.pid
    mode = MODES[pid]
    jobs = []
    for policy in MC[pid]:
        r = tlc("MC_Deck", "SPECIFICATION Spec\nCONSTANTS\n DEPTH = %d\n POLICY = \"%s\"\n FAILS = %s\nINVARIANTS Inv_Names Inv_Numbers Inv_Grid Inv_D07 Emit\n"
                "PROPERTIES Act_Rejected Act_Last\n" % (check.scale(3, 4), policy, "TRUE" if pid == "D07" else "FALSE"))
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s" % r.violated)
        ps = r.prints("PROG")
        check.extra["enumerated_" + policy] = len(ps)
        cap = check.scale(300, 6000)
        if len(ps) > cap:
            ps = check.rng.sample(ps, cap)
        jobs += [("prog", policy, p, check.rng.getrandbits(40)) for p in ps]
    check.extra["enumerated_histories_replayed"] = len(jobs)
    n = check.scale(500, 8000) // (3 if pid in ("D04", "D07") else 1)
    jobs += [("rand", None, None, check.rng.getrandbits(40)) for _ in range(n)]

    def work(_i, part):
        env = Env()
        out = []
        for kind, policy, prog, seed in part:
            rng = random.Random(seed)
            r = dp.given_history(env, rng, policy, prog, mode) if kind == "prog" else dp.random_history(env, rng, mode)
            out.append([r.trace()])
            if pid == "D06" and r.created and r.debug and rng.random() < 0.3:
                out[-1].append(dp.again(env, r).trace())
        return out
    traces = [t for ts in pool(work, jobs) for t in ts]
    for t in traces[-3:]:
        check.sample(json.dumps(t)[:1500])
    check.extra["random_histories"] = n
    check.extra["renders"] = sum(1 for t in traces for o in t["ops"] if o["op"] == "render")
    judge(check, "DeckTrace", traces, clauses=CLAUSES[pid])
