"""Lists of elsie.ext: generator, execution on the real code, observation."""
import elsie_env as ee
from elsie_env import et, fx
from elsie.ext import ordered_list, unordered_list


ADV = 14    # the stand-in's width of a character in the default style


def show_arg(v):
    return v["n"] if v["t"] == "int" else "".join(v["s"])


def run(env, p):
    """p: ops -> trace (see spec/ListsTrace)"""
    t = {"ops": [], "err": "", "calls": [], "pages": [], "geo": []}
    try:
        deck = env.deck()
        slide = deck.new_slide()
        holders, lists = [slide], []
        fns = {}
        calls = []

        def fn(name):
            def render(box, level):
                calls.append({"fn": name, "level": list(level)})
                box.text(name + "-".join(str(x) for x in level))
            return fns.setdefault(name, render)

        def lab(kw, v):
            if v["t"] != "none":
                kw["label"] = v["s"] if v["t"] == "str" else fn(v["s"])
        for op in p["ops"]:
            o = dict(op)
            o["ok"] = True
            o["bad"] = bad = op.get("bad", "")
            del calls[:]
            kw = dict(op.get("kw") or {})
            o.pop("kw", None)
            o["pad"] = fx(kw.get("label_padding", -.001))
            o["ind"] = fx(kw.get("indent", -.001))
            if bad:
                kw.update(BAD[bad])
            if op["show"]["t"] != "none" and "show" not in kw:
                kw["show"] = show_arg(op["show"])
            if op["z"]["has"]:
                kw["z_level"] = op["z"]["v"]
            try:
                if op["op"] == "box":
                    holders.append(holders[op["box"] - 1].box(**kw))
                elif op["op"] == "item":
                    if "label" not in kw:
                        lab(kw, op["label"])
                    holders.append(lists[op["list"] - 1].item(**kw))
                    n = sum(1 for x in t["ops"] if x["op"] == "item" and x["ok"]) + 1
                    holders[-1].text("i%d" % n)
                else:
                    lab(kw, op["label"])
                    if op["ordered"] and op["start"] != 1 or op.get("say"):
                        if op["ordered"] and "start" not in kw:
                            kw["start"] = op["start"]
                    if op["op"] == "new":
                        lists.append((ordered_list if op["ordered"] else unordered_list)(holders[op["box"] - 1], **kw))
                    else:
                        if op["over"]:
                            kw["level"] = (list if op.get("aslist") else tuple)(op["level"])
                        l = lists[op["list"] - 1]
                        with (l.ol if op["ordered"] else l.ul)(**kw) as sub:
                            lists.append(sub)
            except Exception as ex:
                o["ok"] = False
                o["why"] = repr(ex)[:120]
            o["calls"] = list(calls)
            o["cur"] = slide.current_fragment()
            t["ops"].append(o)
        if all(o["ok"] == (not o["bad"]) for o in t["ops"]):
            del calls[:]
            if p.get("twice"):
                ee.pages(deck)
            for svg in ee.pages(deck):
                root = et.fromstring(svg.encode())
                es = [(e, ee.plain(ee.text_lines(e))) for e in root.iter(ee.SVG + "text")]
                es = [(e, s) for e, s in es if s]
                t["pages"].append(["BULLET" if s == "\u2022" else s for _, s in es])
                t["geo"].append([{"x": fx(e.get("x")), "y": fx(e.get("y")), "w": fx(len(s) * ADV)} for e, s in es])
            if calls:
                t["err"] = "label function called by rendering"
    except Exception as ex:
        import traceback
        t["err"] = traceback.format_exc()[-300:] or repr(ex)
    return t


# Arguments that make a call a rejected one
BAD = {"show": {"show": "oops"}, "show2": {"show": "last-"}, "label": {"label": 5}, "width": {"width": "wide"},
       "place": {"x": "[oops"}, "name": {"p_side": 1}, "start": {"start": -1}}


def gen(rng):
    ops = []
    nh, nl = 1, 0

    def show():
        k = rng.random()
        if k < 0.6:
            return {"t": "none"}
        if k < 0.65:
            return {"t": "int", "n": rng.randrange(1, 4)}
        return {"t": "str", "s": list(rng.choice(SEL))}

    def z():
        return {"has": True, "v": rng.choice([-1, 0, 1, 2])} if rng.random() < 0.12 else {"has": False, "v": 0}

    def label():
        k = rng.random()
        if k < 0.55:
            return {"t": "none"}
        return {"t": "str", "s": rng.choice(["*", "-", "x)", "1."])} if k < 0.75 else {"t": "fn", "s": rng.choice(["F", "G"])}

    def kw():
        r = {}
        if rng.random() < 0.2:
            r["label_padding"] = rng.choice([0, 5, 40])
        return r
    for _ in range(rng.randrange(2, 16)):
        k = rng.random()
        if nl and rng.random() < 0.1:
            if rng.random() < 0.6:
                ops.append({"op": "item", "list": rng.randrange(1, nl + 1), "label": label(), "show": show(), "z": z(), "kw": kw(),
                            "bad": rng.choice(["show", "show2", "label", "label", "width", "name"])})
            else:
                o = rng.random() < 0.6
                ops.append({"op": "sub", "list": rng.randrange(1, nl + 1), "ordered": o, "start": 1, "over": False, "level": [],
                            "label": label(), "show": show(), "z": z(), "kw": {},
                            "bad": rng.choice(["show", "show2", "width", "name"] + ["start"] * 3 * o)})
            continue
        o = rng.random() < 0.6
        start = rng.choice([1, 1, 2, 7]) if o else 1
        if nl == 0 or k < 0.12:
            ops.append({"op": "new", "box": rng.randrange(1, nh + 1), "ordered": o, "start": rng.choice([start, start, 0, 100]) if o else 1,
                        "label": label(), "show": show(), "z": z(), "kw": dict(kw(), **({"indent": rng.choice([0, 3, 40])} if rng.random() < 0.3 else {}))})
            nl += 1
        elif k < 0.35:
            ov = o and rng.random() < 0.35
            ops.append({"op": "sub", "list": rng.randrange(max(1, nl - 2), nl + 1), "ordered": o, "start": start, "over": ov,
                        "level": [rng.randrange(0, 12) for _ in range(rng.randrange(0, 4))] if ov else [],
                        "label": label(), "show": show(), "z": z(), "say": rng.random() < 0.3, "aslist": rng.random() < 0.5,
                        "kw": {"indent": rng.choice([0, 4, 15])} if rng.random() < 0.3 else {}})
            nl += 1
        elif k < 0.43:
            ops.append({"op": "box", "box": rng.randrange(1, nh + 1), "show": show(), "z": z()})
            nh += 1
        else:
            x = {"op": "item", "list": rng.randrange(1, nl + 1) if rng.random() < 0.5 else nl, "label": label(), "show": show(), "z": z(),
                 "kw": kw()}
            if rng.random() < 0.2:
                x["kw"]["p_top"] = 5
            ops.append(x)
            nh += 1
    return {"ops": ops, "twice": rng.random() < 0.15}


SEL = ["1", "2", "2+", "3+", "next", "next+", "next+", "next+", "last", "last+", "1-2", "1,3", "4"]
