"""Texts drawn by the Cairo backend: programs, execution, the glyphs of the PDF pages."""
import math, os, random
import elsie_env as ee
from elsie_env import fx, quiet
import elsie
import pdftext
import textprog as tp
from textprog import rec, num, style_of

TEXT = ["x", "y z", "Hello", "AV To", "<&>", "é", "αβ", "жй", "→", "𝕚𝕚", "office", "flap", "\"'", "a  b", "i", "WW", "...", "ß1", "0.5"]
FAMILIES = {"DejaVuSans": "sans-serif", "DejaVuSansMono": "monospace", "DejaVuSerif": "serif"}
LIG = {"\ufb00": "ff", "\ufb01": "fi", "\ufb02": "fl", "\ufb03": "ffi", "\ufb04": "ffl"}
DEFAULT = dict(tp.DEFAULT, variant="")


# ---------------------------------------------------------------- execution
def glyph_list(g):
    """a glyph as characters"""
    a, b, c, d, e, f = g["m"]
    n = math.hypot(a, b)
    em = abs(a * d - b * c) / n
    skew = -(a * c + b * d) / (a * d - b * c)     # to the right of the upright direction; the second axis points up
    name, _, face = g["font"].partition("-")
    text = "".join(LIG.get(t, t) for t in g["t"])
    out = []
    for i, ch in enumerate(text):
        p, q = [pdftext.app(g["m"], g["a"] * k / len(text), 0) for k in (i, i + 1)]
        out.append({"c": ch, "p": [fx(v) for v in p], "q": [fx(v) for v in q], "em": fx(em), "font": FAMILIES.get(name, name) if ord(ch) < 0x10000 else "",
                    "bold": "T" if "Bold" in face else "F", "italic": "T" if "Oblique" in face or "Italic" in face or skew > 0.1 else "F",
                    "color": g["color"], "alpha": int(round(g["alpha"] * 100))})
    return out


def full(*styles):
    out = dict(tp.BUILTIN)
    for s in styles:
        out.update(s)
    out["default"] = DEFAULT
    return {n: dict(s, variant="") for n, s in out.items()}


def run(env, p):
    """p: w, h, twice, slides [{vb, styles, texts [{in, own, fit, x, y, wd, hd, rot, rot0, styles, show, boxes}]}];
    a trace for every page"""
    out = []
    try:
        cache = env.new_dir()
        deck = env.deck(cache_dir=cache, backend=ee.CairoBackend(cache_dir=cache), width=num(p["w"]), height=num(p["h"]))
        all_boxes = []
        for sl in p["slides"]:
            kw = {"view_box": tuple(num(v) for v in sl["vb"])} if sl["vb"] else {}
            slide = deck.new_slide(**kw)
            for n, r in sl["styles"].items():
                slide.set_style(n, style_of(r))
            boxes = []
            for x in sl["texts"]:
                size = {k: num(x[d]) for k, d in (("width", "wd"), ("height", "hd")) if x[d] >= 0}
                b = slide.box(x=num(x["x"]), y=num(x["y"]), show="%d+" % x["show"], **size)
                for n, r in x["styles"].items():
                    b.set_style(n, style_of(r))
                rot = {"rotation": x["rot"]} if x["rot"] or x["rot0"] else {}
                it = b.text("".join(x["in"]), style_of(x["own"]), scale_to_fit=x["fit"], **rot)
                frames = []
                for q in x["boxes"]:
                    try:
                        frames.append((q, it.line_box(q["i"], q["n"]) if q["kind"] == "line" else it.inline_box(q["name"], q["k"])))
                    except Exception:
                        frames.append((q, None))
                boxes.append((x, b, frames))
            all_boxes.append(boxes)
        f = os.path.join(env.new_dir(), "o.pdf")
        with quiet():
            deck.render(f, prune_cache=False, save_cache=False)
            if p.get("twice"):
                deck.render(f, prune_cache=False, save_cache=False)

        def rect(b):
            r = b.layout.rect
            return {"x": fx(r.x), "y": fx(r.y), "w": fx(r.width), "h": fx(r.height)}
        pages = pdftext.glyphs(f)
        expected = [(sl, boxes, i) for sl, boxes in zip(p["slides"], all_boxes)
                    for i in range(1, 1 + max([1] + [x["show"] for x in sl["texts"]]))]
        for k, (sl, boxes, step) in enumerate(expected):
            t = trace(p, sl)
            t["pages"] = len(pages) - len(expected)
            for x, b, frames in boxes:
                if x["show"] > step:
                    continue
                y = {k: v for k, v in x.items() if k not in ("boxes", "styles")}
                y.update({"in": list(x["in"]), "rect": rect(b), "styles": full(sl["styles"], x["styles"]),
                          "boxes": [dict(q, ok=f is not None, rect=rect(f) if f is not None else {"x": 0, "y": 0, "w": 0, "h": 0}) for q, f in frames]})
                t["texts"].append(y)
            if k < len(pages):
                t["glyphs"] = [c for g in pages[k]["glyphs"] for c in glyph_list(g)]
            out.append(t)
    except Exception as ex:
        import traceback
        t = trace(p, p["slides"][0])
        t["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
        t["tb"] = traceback.format_exc()[-600:]
        return [t]
    return out


def trace(p, sl):
    return {"m": dict(zip("ebc", "~{}")), "w": p["w"], "h": p["h"], "vb": sl["vb"], "dflt": DEFAULT, "texts": [], "glyphs": [], "err": "", "pages": 0}


# ---------------------------------------------------------------- programs
COLORS = {"black": "0,0,0", "red": "255,0,0", "blue": "0,0,255", "gray": "128,128,128", "#222": "34,34,34", "#0a0": "0,170,0", "": ""}
LOOKS = [("color", ["red", "blue", "#0a0"]), ("font", ["monospace", "serif", "sans-serif"]), ("size", [8000, 12500, 16000, 40000]),
         ("opacity", ["0.5", "0.25"]), ("bold", ["T", "F"]), ("italic", ["T", "F"])]


def random_style(rng):
    kw = {a: rng.choice(vs) for a, vs in LOOKS if rng.random() < 0.4}
    if rng.random() < 0.15:
        kw["align"] = rng.choice(["left", "right", "middle"])
    if rng.random() < 0.15:
        kw["spacing"] = rng.choice([500, 1000, 2000])
    return rec(prio=rng.choice([0, 0, 0, 0, 1, -1]), **kw)


def gen_text(rng, names):
    s, depth = "", 0
    for _ in range(rng.randrange(1, 10)):
        k = rng.choice("oocnttttte")
        if k == "c" and depth:
            s, depth = s + "}", depth - 1
        elif k == "o" and depth < 4:
            s, depth = s + "~%s{" % rng.choice(names), depth + 1
            if rng.random() < 0.9:
                s += rng.choice(TEXT)
        elif k == "n":
            s += "\n" * rng.choice([1, 1, 1, 2])
        elif k == "e":
            s += "~~"
        else:
            s += rng.choice(TEXT)
    return s + "}" * depth


def frames_of(rng, s, names, n):
    out = []
    lines = s.rstrip("\n").count("\n") + 1
    for _ in range(n):
        if rng.random() < 0.4:
            a = rng.randrange(lines)
            out.append({"kind": "line", "i": a, "n": rng.randrange(1, lines - a + 1), "name": "", "k": 0})
        else:
            out.append({"kind": "inline", "i": 0, "n": 0, "name": rng.choice(names), "k": rng.choice([1, 1, 2])})
    return out


def gen_place(rng, x):
    x.update(x=rng.randint(700, 900) * 1000, y=rng.randint(600, 800) * 1000, fit=rng.random() < 0.4, rot0=rng.random() < 0.1,
             rot=rng.choice([0, 0, 0, 0, 0, 90, 30, -45, 180, 200]), wd=-1, hd=-1)
    if rng.random() < 0.7:
        x["wd"] = rng.choice([30, 80, 150, 233, 300]) * 1000
    if rng.random() < 0.7:
        x["hd"] = rng.choice([20, 55, 100, 200]) * 1000
    return x


def gen_own(rng):
    return rec(size=rng.choice([-1, 10000, 16000, 20000, 22500, 36000]), align=rng.choice(["left", "middle", "right", ""]),
               spacing=rng.choice([-1, 500, 1000, 1500, 2000]), bold=rng.choice(["", "", "T"]), italic=rng.choice(["", "", "", "T"]),
               font=rng.choice(["", "", "monospace", "serif"]), color=rng.choice(["", "red", "blue"]), opacity=rng.choice(["", "", "", "0.5"]),
               prio=rng.choice([0, 0, 0, 1]))


NAMES = ["a", "a", "b", "b", "c", "#d", "emph", "tt", "alert"]


def gen_slide(rng, W, H, old):
    """old: texts of the slides before, to be seen again with other styles"""
    styles = {n: random_style(rng) for n in ("a", "b", "c")}
    texts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if old and rng.random() < 0.4:
            x = dict(rng.choice(old))
            if rng.random() < 0.5:
                gen_place(rng, x)
            if rng.random() < 0.3:
                x["own"] = gen_own(rng)
        else:
            s = gen_text(rng, NAMES)
            if rng.random() < 0.3:      # one line
                s = s.replace("\n", "_")
            x = gen_place(rng, {"in": list(s), "own": gen_own(rng), "boxes": frames_of(rng, s, NAMES, rng.randrange(0, 4))})
        x["show"] = rng.choice([1, 1, 1, 2])
        x["styles"] = {n: random_style(rng) for n in ("a", "b") if rng.random() < 0.5} if rng.random() < 0.3 else {}
        texts.append(x)
    vb = []
    if rng.random() < 0.25:
        vb = rng.choice([(0, 0, W, H), (100, 50, W, H), (200, 100, 1600, 1440), (300, 200, 1500, 1600), (-40, -30, W + 100, H + 20), (0, 0, 1900, H // 2)])
    return {"vb": [v * 1000 for v in vb], "styles": styles, "texts": texts}


def gen(rng):
    W, H = rng.choice([(2000, 1600), (1800, 2000)])
    slides = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        slides.append(gen_slide(rng, W, H, [x for s in slides for x in s["texts"]]))
    return {"w": W * 1000, "h": H * 1000, "slides": slides, "twice": rng.random() < 0.2}


def of_enum(rng, prog):
    """an enumerated text with frames for all of its lines and ranges"""
    s = "".join(prog["in"])
    frames = [{"kind": "line", "i": i, "n": rng.randrange(1, prog["n"] - i + 1), "name": "", "k": 0} for i in range(prog["n"])]
    frames += [{"kind": "inline", "i": 0, "n": 0, "name": n, "k": k} for n in "ab" for k in (1, 2)]
    x = gen_place(rng, {"in": list(s), "own": gen_own(rng), "boxes": frames, "show": 1, "styles": {}})
    styles = {"a": rec(size=32000, color="red"), "b": rec(bold="T", prio=1)}
    return {"w": 2000000, "h": 1600000, "slides": [{"vb": [], "styles": styles, "texts": [x]}], "twice": False}
