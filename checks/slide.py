"""S01 S02 S03 S04 L01 L02 L03 L04 L05 Z01: building histories of slides against spec/Slide.tla."""
import json, random
import common
from common import pool, tlc, judge
from elsie_env import Env
import slideprog as sp

MC = {  # property -> [(profile, depth quick, depth thorough, invariants)]
    "S01": [("show", 3, 4, "Inv_S01")],
    "S02": [("show", 3, 4, "Inv_S02")],
    "S03": [("show", 3, 4, "Inv_S02")],
    "S04": [("reject", 3, 3, "Inv_S04")],
    "Z01": [("z", 3, 4, "Inv_Z01")],
    "L01": [("layout", 2, 2, "Inv_L01"), ("pad", 2, 3, "Inv_L01")],
    "L02": [("pad", 3, 3, "Inv_L02"), ("layout", 2, 2, "Inv_L02")],
    "L03": [("layout", 2, 2, "Inv_L01")],
    "L04": [],
    "L05": [("show", 2, 3, "Inv_L05"), ("z", 2, 3, "Inv_L05")],
    "X01": [("z", 3, 4, "Inv_X01"), ("show", 2, 3, "Inv_X01")],
}
PROFILES = {
    "S01": [dict(show=.7, z=.25, prep=.2, abbe=.2, img=.15, shapes=.3, explicit=.2, bg=.2, nogeo=True, text=.1),
            dict(show=.5, depth=6, n=(8, 24), nogeo=True, prep=.2, abbe=.3)],
    "S02": [dict(show=.7, img=.35, nogeo=True, bg=.2), dict(show=.6, badsel=.15, img=.1, nogeo=True)],
    "S03": [dict(show=.6, badsel=.45, badval=.5, badplace=.5, prep=.2, abbe=.2, minsz=.3, fill=.2, bg=.2,
                 explicit=.2, z=.2)],
    "S04": [dict(reject=.45, minsz=.5, fill=.3, pct=.2, pad=.2, text=.3, shapes=.4, show=.2, n=(5, 16), explicit=.1),
            dict(reject=.4, show=.5, img=.2, text=.3, minsz=.3, n=(4, 14))],
    "Z01": [dict(z=.5, prep=.3, abbe=.4, nogeo=True, bg=.4, shapes=.4, img=.1, text=.1, n=(6, 18)),
            dict(z=.3, prep=.3, abbe=.5, show=.3, nogeo=True, bg=.4)],
    "L01": [dict(minsz=.8, fill=.15, prep=.3, explicit=.25, text=.2, shapes=.2, n=(5, 16), floats=.4)],
    "L02": [dict(minsz=.4, pct=.4, fill=.4, pad=.5, via=.3, text=.3, explicit=.15, prep=.1, n=(4, 16)),
            dict(minsz=.2, pct=.3, fill=.5, pad=.3, via=.4, n=(4, 12), depth=6)],
    "L03": [dict(minsz=.6, pct=.3, explicit=.8, pad=.3, via=.15, n=(4, 12), shapes=.2, text=.1)],
    "L04": [dict(minsz=.6, pct=.3, lazy=.5, pad=.3, points="lazy", shapes=3, explicit=.2, text=.1, n=(5, 16),
                 prep=.1, fill=.2)],
    "L05": [dict(show=.4, z=.3, prep=.2, abbe=.4, name=.5, bg=.5, debug=.5, minsz=.5, pct=.3, fill=.3, pad=.3,
                 explicit=.3, text=.3, shapes=.5, n=(5, 16), lazy=.1, points="lazy")],
    "X01": [dict(show=.3, z=.3, prep=.3, abbe=.3, name=.5, bg=.3, debug=1, minsz=.5, pct=.3, fill=.3, pad=.3,
                 explicit=.3, text=.3, shapes=.5, n=(4, 14), img=.1),
            dict(debug=.5, z=.3, name=.3, show=.5, minsz=.6, pad=.4, n=(3, 10), depth=6)],
}
CLAUSES = {
    "S01": {"accept", "err", "vis"},
    "S02": {"accept", "err", "cur", "npages"},
    "S03": None, "S04": None,
    "Z01": {"accept", "err", "order"},
    "L01": {"accept", "err", "geo"}, "L02": {"accept", "err", "geo"}, "L03": {"accept", "err", "geo"},
    "L04": {"accept", "err", "geo"}, "L05": {"accept", "err", "geo"},
    "X01": {"accept", "err", "debug", "vis", "order", "npages"},
}


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def run(check):
    pid = check.pid
    progs = []
    for prof, dq, dt, inv in MC[pid]:
        cfg = ("SPECIFICATION Spec\nCONSTANTS\n DEPTH = %d\n PROFILE = \"%s\"\nINVARIANTS %s Emit\nPROPERTY Act_S03\n"
               % (check.scale(dq, dt), prof, inv))
        r = tlc("MC_Slide", cfg)
        check.add_tlc(r)
        if not r.ok:
            raise common.MachineryError("the specification violates its own invariants: %s" % r.violated)
        ps = r.prints("PROG")
        check.extra["enumerated_" + prof] = len(ps)
        cap = check.scale(1500, 20000)
        if len(ps) > cap:
            ps = check.rng.sample(ps, cap)
        progs += ps
    jobs = [("progs", c, check.rng.getrandbits(40)) for c in chunks(progs, 3)]
    nd = check.scale(700, 12000)
    for prof in PROFILES[pid]:
        jobs += [("rand", prof, check.rng.getrandbits(40)) for _ in range(nd // len(PROFILES[pid]))]

    # a few slides of very many boxes
    jobs += [("rand", dict(PROFILES[pid][0], n=(70, 140)), check.rng.getrandbits(40)) for _ in range(check.scale(8, 80))]

    def work(_i, part):
        env = Env()
        out = []
        for kind, a, seed in part:
            rng = random.Random(seed)
            if kind == "progs":
                prof = dict(nogeo=pid in ("S01", "S02", "Z01"), debug=float(pid == "X01"))
                out.append(sp.deck_traces(env, rng, prof, programs=a))
            else:
                out.append(sp.deck_traces(env, rng, a))
        return out
    traces = [t for ts in pool(work, jobs) for t in ts]
    check.extra["enumerated_histories_replayed"] = len(progs)
    check.extra["random_histories"] = len(traces) - len(progs)
    for t in traces[-3:]:
        check.sample(json.dumps(t)[:1500])
    judge(check, "SlideTrace", traces, clauses=CLAUSES[pid], describe=lambda t: shorten(t))
    if pid == "L04":
        forward_reference(check)


def shorten(t):
    t = dict(t)
    t["pages"] = t["pages"][:6]
    return t


def forward_reference(check):
    """Known finding: a box positioned by a box that is laid out after it cannot be rendered."""
    env = Env()
    s = sp.Slide(env, env.deck())
    s.do(sp.box_op(1, w=sp.num(50), h=sp.num(40)))
    s.do(sp.box_op(1, prep=True, w=sp.num(20), h=sp.num(20),
                   x={"t": "lazy", "lz": {"ref": 2, "axis": "x", "c": sp.num(0), "ops": []}}))
    s.do(sp.item_op(3, "rect"))
    try:
        svgs = sp.pages(s.deck)
    except Exception as e:
        svgs, s.err = [], "render: " + repr(e)
    t = s.trace(svgs)
    n = len(check.violations)
    judge(check, "SlideTrace", [t], clauses=CLAUSES["L04"])
    if len(check.violations) > n and t["err"] and check.known_finding("L04-forward-reference"):
        check.violations = check.violations[:n]
