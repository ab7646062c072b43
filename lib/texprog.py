"""LaTeX snippets: generator, execution on the real code with a stand-in compiler, observation."""
import base64, os, re
import elsie_env as ee
import tex_standin
from elsie_env import et, fx, style_dict
from imageprog import matrix, place, px
from elsie.ext.latex import latex

XL = "{http://www.w3.org/1999/xlink}href"
URL = ("clip-path", "mask", "filter", "marker-end")
TXT = ("stroke", "color", "stop-color")
FAILS = ["fail", "failpdf", "crash", "nopdf", "svgfail", "svgpart", "svgcut", "svgnone"]


def num(v):
    return str(v // 1000) if v % 1000 == 0 else str(v / 1000)


def svg_of(pic):
    """The SVG of a picture; elements carry data-e, data-a lists the attributes of the references in order."""
    els, kids = pic["els"], {}
    for i, e in enumerate(els):
        kids.setdefault(e.get("p", 0), []).append(i + 1)

    def attrs(i):
        e = els[i - 1]
        a = ' data-e="%d"' % i
        if e["id"]:
            a += ' id="%s"' % e["id"]
        names = []
        for j, r in enumerate(e["refs"]):
            n = "xlink:href" if r["k"] == "href" else URL[j] if r["k"] == "url" else TXT[j]
            v = {"href": "#%s", "url": "url(#%s)", "text": "#%s"}[r["k"]] % r["to"]
            a += ' %s="%s"' % (n, v)
            names.append(n)
        return a + ' data-a="%s"' % " ".join(names)

    def xml(i):
        sub = "".join(xml(j) for j in kids.get(i, []))
        return "<g%s>%s</g>" % (attrs(i), sub) if sub else "<use%s/>" % attrs(i)
    root = pic.get("root")
    body = "".join(xml(j) for j in kids.get(0, [])) if not root else "".join(xml(j) for j in range(2, len(els) + 1))
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" '
            'width="%s%s" height="%s%s" viewBox="0 0 9 9"%s>%s</svg>\n'
            % (num(pic["w"]), pic["wu"], num(pic["h"]), pic["hu"], attrs(1) if root else "", body))


def seen(svg):
    res = []
    for e in svg.iter():
        if isinstance(e.tag, str) and e.get("data-e"):
            refs = []
            for n in e.get("data-a").split():
                v = e.get(XL if n == "xlink:href" else n) or ""
                m = re.match(r"(?:url\()?#(.*?)\)?$", v)
                refs.append({"k": "href" if n == "xlink:href" else "url" if v.startswith("url(") else "text",
                             "to": m.group(1) if m else "?" + v})
            res.append({"id": e.get("id") or "", "refs": refs})
    return res


def run(env, p):
    """p: pics, ops, box -> trace (see spec/LatexTrace)"""
    tex_standin.install()
    t = {"pics": {c: {k: v for k, v in x.items() if k not in ("root",)} for c, x in p["pics"].items()}, "ops": [], "err": "", "box": p["box"]}
    for x in t["pics"].values():
        x["els"] = [{"id": e["id"], "refs": e["refs"]} for e in x["els"]]
    t["box"] = [{"wd": b["wd"], "hd": b["hd"], "pw": 2000 * b["pad"], "ph": 2000 * b["pad"], "full": b["full"]} for b in p["box"]]
    try:
        cache = env.new_dir()
        log = os.path.join(env.new_dir(), "log")
        os.environ["FAKE_TEX_SRC"] = log
        src = {}
        parts = {}
        for c, x in p["pics"].items():
            svg = base64.b64encode(svg_of(x).encode()).decode()
            parts[c] = (x.get("header"), ("$x^2$ \u00e9\n" if x.get("uni") else "x") + c + "\n%SVG:" + svg + "\n" + x.get("more", "y"), x.get("tail"))
        deck = None
        state = {}

        def size(x):
            return {"none": None, "px": x["v"] / 1000, "ratio": "%d%%" % x["v"], "fill": "fill"}[x["k"]]

        def start():
            d = env.deck(cache_dir=cache, width=900, height=800)
            slide = d.new_slide()
            bs = []
            for i, b in enumerate(p["box"]):
                o = slide.box(x=0, y=0, width=b["full"]["w"] / 1000, height=b["full"]["h"] / 1000)
                bs.append(o.box(width=size(b["wd"]), height=size(b["hd"]), padding=b["pad"]))
                bs[-1].rect(bg_color="#%06x" % (0x800000 + i + 1))
            state.update(deck=d, boxes=bs, n=0)
            return d
        for op in p["ops"]:
            o = dict(op)
            o.update(ok=True, log=[], drawn=[], boxes=[])
            open(log, "w").close()
            os.environ["FAKE_TEX_NOW"] = op.get("kind", "fail") if op.get("fails") else ""
            try:
                if op["op"] == "run" or deck is None:
                    deck = start()
                if op["op"] == "snip":
                    h, x, tl = parts[op["c"]]
                    kw = {}
                    if op["scale"] != 1000:
                        kw["scale"] = op["scale"] / 1000
                    if h is not None:
                        kw["header"] = h
                    if tl is not None:
                        kw["tail"] = tl
                    b = state["boxes"][op["box"] - 1]
                    state["mark"] = b
                    k = state["n"]
                    latex(b, x, **kw)
                    state["n"] = k + 1
                    state.setdefault("order", [])
                elif op["op"] == "render":
                    pages = ee.pages(deck)
                    if op["prune"]:
                        with ee.quiet():
                            deck.render(output=None, export_type="svg", prune_cache=True)
                    if len(pages) != 1:
                        raise Exception("%d pages" % len(pages))
                    root = et.fromstring(pages[0].encode())
                    draw(root, o, p, t)
            except Exception as ex:
                o["ok"] = False
                o["why"] = repr(ex)[-150:]
            for line in open(log):
                text = base64.b64decode(line).decode()
                o["log"].append(next((c for c, (h, x, tl) in parts.items() if text == full(h, x, tl)), "?"))
            t["ops"].append(o)
        # pictures in the order of the boxes -> in the order of the calls
        order(t)
    except Exception:
        import traceback
        t["err"] = traceback.format_exc()[-300:]
    finally:
        os.environ.pop("FAKE_TEX_SRC", None)
        os.environ.pop("FAKE_TEX_NOW", None)
    for o in t["ops"]:
        for k in ("kind",):
            o.pop(k, None)
    return t


HEADER = """
\\documentclass[varwidth,border=1pt]{standalone}
\\usepackage[utf8x]{inputenc}
\\usepackage{ucs}
\\usepackage{amsmath}
\\usepackage{amsfonts}
\\usepackage{amssymb}
\\usepackage{graphicx}
\\begin{document}"""


def full(h, x, tl):
    return "%s\n%s\n%s" % (HEADER if h is None else h, x, "\\end{document}" if tl is None else tl)


def draw(root, o, p, t):
    cur = 0
    for e in root:
        tag = et.QName(e).localname
        if tag == "rect":
            cur = int(style_dict(e.get("style"))["fill"][1:], 16) - 0x800000
            o["boxes"].append({"x": fx(e.get("x")), "y": fx(e.get("y")), "w": fx(e.get("width")), "h": fx(e.get("height"))})
            continue
        svg = [c for c in e if et.QName(c).localname == "svg"][0]
        x = {"wrot": 0}
        place(x, matrix(e.get("transform")), (0, 0, px(svg.get("width")), px(svg.get("height"))))
        o["drawn"].append({"box": cur, "els": seen(svg), "x": x["x"], "y": x["y"], "dw": x["dw"], "dh": x["dh"]})


def order(t):
    page = []
    for o in t["ops"]:
        if o["op"] == "run":
            page = []
        elif o["op"] == "snip" and o["ok"]:
            page.append(o["box"])
        elif o["op"] == "render" and o["ok"] and len(o["drawn"]) == len(page):
            by = {}
            for d in o["drawn"]:
                by.setdefault(d["box"], []).append(d)
            if all(len(by.get(b, [])) == page.count(b) for b in set(page)):
                o["drawn"] = [by[b].pop(0) for b in page]


IDS = ["a", "ab", "abc", "a-1", "a.1", "glyph0-1", "glyph0-10", "glyph0", "surface1", "clip1", "A", "fff", "x:y"]
UNITS = ["pt", "pt", "pt", "px", "", "mm"]


def gen_pic(rng, els=None):
    x = {"w": 500 * rng.randrange(40, 300), "h": 500 * rng.randrange(40, 200), "wu": rng.choice(UNITS), "hu": rng.choice(UNITS)}
    if els is None:
        els = []
        ids = rng.sample(IDS, len(IDS))
        for i in range(rng.randrange(1, 9)):
            els.append({"id": ids.pop() if rng.random() < 0.6 else "", "p": rng.randrange(0, i + 1) if rng.random() < 0.5 else 0,
                        "refs": [{"k": rng.choice(["href", "url", "url", "text"]), "to": rng.choice(IDS)} for _ in range(rng.choice([0, 1, 1, 2]))]})
            rs = els[-1]["refs"]
            if len([r for r in rs if r["k"] == "href"]) > 1:
                rs.pop()
        # parents first: document order
        done, out = {}, []

        def walk(i, np):
            out.append(dict(els[i], p=np))
            me = len(out)
            for j in range(len(els)):
                if els[j]["p"] == i + 1 and j != i:
                    walk(j, me)
        for i in range(len(els)):
            if els[i]["p"] == 0 or els[i]["p"] == i + 1:
                walk(i, 0)
        els = out
    x["els"] = els
    if els and rng.random() < 0.2 and all(e.get("p", 0) == 0 for e in els):
        x["root"] = True
    if rng.random() < 0.3:
        x["header"] = rng.choice(["\\documentclass{article}", "", "H\nI"])
    if rng.random() < 0.3:
        x["tail"] = rng.choice(["\\end", "", "%"])
    x["uni"] = rng.random() < 0.3
    if rng.random() < 0.3:
        x["more"] = rng.choice(["", "  ", "\\frac{1}{2}\n\n", "\u00df %"])
    return x


def gen_box(rng):
    def d():
        return rng.choice([{"k": "none", "v": 0}, {"k": "none", "v": 0}, {"k": "px", "v": 1000 * rng.choice([30, 77, 200])},
                           {"k": "ratio", "v": rng.choice([50, 100])}, {"k": "fill", "v": 0}])
    return {"wd": d(), "hd": d(), "pad": rng.choice([0, 0, 5]), "full": {"w": 300000, "h": 200000}}


PLAIN = {"wd": {"k": "none", "v": 0}, "hd": {"k": "none", "v": 0}, "pad": 0, "full": {"w": 300000, "h": 200000}}


def gen(rng):
    pics = {c: gen_pic(rng) for c in "ABC"[:rng.choice([1, 2, 3])]}
    if "B" in pics and rng.random() < 0.5:       # the same ids in both
        pics["B"]["els"] = pics["A"]["els"]
        pics["B"].pop("root", None)
        if pics["A"].get("root"):
            pics["B"]["root"] = True
    box = [gen_box(rng) for _ in range(rng.choice([1, 2]))]
    ops = []
    for _ in range(rng.randrange(1, 10)):
        k = rng.random()
        if k < 0.15 and ops:
            ops.append({"op": "run"})
        elif k < 0.3:
            ops.append({"op": "render", "prune": rng.random() < 0.5})
        else:
            ops.append({"op": "snip", "c": rng.choice(sorted(pics)), "fails": rng.random() < 0.15, "kind": rng.choice(FAILS),
                        "box": rng.randrange(1, len(box) + 1), "scale": rng.choice([1000, 1000, 500, 2500])})
    ops.append({"op": "render", "prune": False})
    return {"pics": pics, "box": box, "ops": ops}


def of_history(rng, hist):
    return {"pics": {"A": gen_pic(rng), "B": gen_pic(rng)}, "box": [PLAIN],
            "ops": [dict(o, kind=rng.choice(FAILS)) if o["op"] == "snip" else o for o in hist] + [{"op": "render", "prune": False}]}


def of_structure(rng, els):
    x = gen_pic(rng, els)
    return {"pics": {"A": x, "B": dict(x, w=20000)}, "box": [PLAIN],
            "ops": [{"op": "snip", "c": c, "fails": False, "box": 1, "scale": 1000} for c in "AB"] + [{"op": "render", "prune": False}]}
