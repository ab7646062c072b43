"""Images: files with fragments, OpenRaster files, sizes; generators, execution on the real code, observation."""
import base64, io, os, random, re
import elsie_env as ee
import ora
from elsie_env import fx, et, style_dict
from PIL import Image

XL = "{http://www.w3.org/1999/xlink}href"
INK = "http://www.inkscape.org/namespaces/inkscape"


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


# ---------------------------------------------------------------- transforms
def matrix(tr):
    """SVG transform list -> (a, b, c, d, e, f)"""
    import math
    m = (1, 0, 0, 1, 0, 0)
    for name, args in re.findall(r"(\w+)\s*\(([^)]*)\)", tr or ""):
        v = [float(x) for x in re.split(r"[\s,]+", args.strip()) if x]
        if name == "translate":
            n = (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0)
        elif name == "scale":
            n = (v[0], 0, 0, v[1] if len(v) > 1 else v[0], 0, 0)
        elif name == "rotate":
            a = math.radians(v[0])
            c, s = math.cos(a), math.sin(a)
            x, y = (v[1], v[2]) if len(v) > 1 else (0, 0)
            n = (c, s, -s, c, x - c * x + s * y, y - s * x - c * y)
        elif name == "matrix":
            n = tuple(v)
        else:
            raise ValueError(tr)
        m = mul(m, n)
    return m


def mul(m, n):
    a, b, c, d, e, f = m
    g, h, i, j, k, l = n
    return (a * g + c * h, b * g + d * h, a * i + c * j, b * i + d * j, a * k + c * l + e, b * k + d * l + f)


def app(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def hidden(e):
    st = style_dict(e.get("style"))
    return e.get("display") == "none" or st.get("display") == "none" or st.get("visibility") == "hidden"


# ---------------------------------------------------------------- SVG files with labels
def svg_file(path, tree, rng=None, w="60", h="40"):
    """tree: nodes {p, has, lab, txt: piece of text, root: the image itself} in document order; ids n1, n2, ..."""
    kids = {}
    top = 1 if tree and tree[0].get("root") else 0
    root = ' inkscape:label="%s"' % esc("".join(tree[0]["lab"])) if top and tree[0]["has"] else ""
    for i, n in enumerate(tree):
        kids.setdefault(n["p"], []).append(i + 1)

    def xml(i, in_text):
        n = tree[i - 1]
        if n.get("txt"):
            return "$%d$" % i
        lab = ' inkscape:label="%s"' % esc("".join(n["lab"])) if n["has"] else ""
        sub = kids.get(i, [])
        has_text = any(tree[j - 1].get("txt") for j in sub)
        tag = "tspan" if in_text else "text" if has_text else "g" if sub else "rect"
        a = ' x="%d" y="1" width="2" height="3"' % i if tag == "rect" else ""
        body = "".join(xml(j, tag in ("text", "tspan")) for j in sub)
        junk = "<!-- c%d -->" % i if rng is not None and rng.random() < 0.2 else ""
        nl = "" if tag in ("text", "tspan") or in_text else "\n "
        return '<%s id="n%d"%s%s>%s%s</%s>%s%s' % (tag, i, lab, a, nl, body, tag, "" if in_text else junk, nl)
    extra = ""
    if rng is not None and rng.random() < 0.3:
        extra = '<defs><linearGradient id="lg"/></defs><sodipodi:namedview xmlns:sodipodi="urn:s" id="base"/>'
    with open(path, "w", encoding="utf-8") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="%s" '
                'width="%s" height="%s"%s>%s%s</svg>' % (INK, w, h, root, extra, "".join(xml(i, False) for i in kids.get(top, []))))


def seen(e):
    """Node numbers of what an embedded image shows, in order."""
    res = []

    def texts(s):
        for m in re.findall(r"\$(\d+)\$", s or ""):
            res.append(int(m))

    def walk(x):
        if not isinstance(x.tag, str):
            return
        if not hidden(x):
            m = re.match(r"n(\d+)$", x.get("id") or "")
            if m:
                res.append(int(m.group(1)))
            texts(x.text)
            for c in x:
                walk(c)
                texts(c.tail)
    walk(e)
    return res


def sel_arg(v):
    return {"none": lambda: None, "int": lambda: v["n"], "str": lambda: "".join(v["s"])}[v["t"]]()


def use_kw(u):
    kw = {}
    if u["begin"] != 1:
        kw["show_begin"] = u["begin"]
    if u["mode"] == "all":
        kw["fragments"] = False
    elif u["mode"] == "select":
        kw["select_fragments"] = [x or None for x in u["list"]]
    return kw


def run(env, p):
    """p: files (trees), ops: box [par, sel] / image [box, file, use] -> trace"""
    t = {"files": p["files"], "ops": [], "err": "", "pages": []}
    rng = random.Random(p.get("seed", 0))
    d = env.new_dir()
    try:
        deck = env.deck()
        slide = deck.new_slide()
        boxes = [slide]
        names = []
        for i, tr in enumerate(p["files"]):
            names.append(os.path.join(d, "f%d.svg" % i))
            svg_file(names[-1], tr, rng)
        n = 0
        for op in p["ops"]:
            o = dict(op)
            o["ok"] = True
            try:
                if op["op"] == "box":
                    boxes.append(boxes[op["par"] - 1].box(show=sel_arg(op["sel"])))
                else:
                    b = boxes[op["box"] - 1]
                    b.rect(bg_color="#%06x" % (n + 1))
                    n += 1
                    kw = use_kw(op["use"])
                    b.image(names[op["file"] - 1], **kw)
                    if rng.random() < .5 and kw.get("select_fragments"):
                        kw["select_fragments"][0:1] = [None, 1]  # the list belongs to the caller
            except Exception as ex:
                o["ok"] = False
                o["why"] = repr(ex)[:120]
            o["cur"] = slide.current_fragment()
            t["ops"].append(o)
        if all(o["ok"] for o in t["ops"]):
            if p.get("twice"):
                ee.pages(deck)
            images = [j for j, op in enumerate(p["ops"]) if op["op"] == "image"]
            for svg in ee.pages(deck):
                root = et.fromstring(svg.encode())
                page, cur = [], 0
                for e in root:
                    if et.QName(e).localname == "rect":
                        cur = int(style_dict(e.get("style"))["fill"][1:], 16)
                    else:
                        ids = seen(e)
                        if p["files"][p["ops"][images[cur - 1]]["file"] - 1][:1] and p["files"][p["ops"][images[cur - 1]]["file"] - 1][0].get("root"):
                            ids = [1] * (2 in ids) + ids      # the first child of the image itself has no label
                        page.append({"i": cur, "ids": ids})
                t["pages"].append(page)
    except Exception as ex:
        import traceback
        t["err"] = traceback.format_exc()[-300:] or repr(ex)
    return t


SELS = ["1", "2", "3", "1+", "2+", "3+", "1-2", "2-4", "1,3", "1, 3+", " 2 ", "4", "2-2", "1-2,4+", "6", "3,1", "2+,1"]


def label(rng, sel):
    pre = rng.choice(["", "x", "Layer 1", "a*b", "Foo ", "\u00e9 & <\"'>", "*"])
    if pre.endswith("*"):
        pre += " "
    post = rng.choice(["", "", "", "**", "**note", "**9"])
    return list(pre + "**" + sel + post)


def gen_tree(rng, n=9):
    tree = []

    def add(p, depth, in_text):
        for _ in range(rng.randrange(0, 7 if in_text else 4) if depth else rng.randrange(1, 5)):
            if len(tree) >= n:
                return
            x = {"p": p, "has": False, "lab": []}
            if in_text and rng.random() < 0.5:
                x["txt"] = True
                tree.append(x)
                continue
            if rng.random() < 0.6:
                x["has"] = True
                x["lab"] = label(rng, rng.choice(SELS)) if rng.random() < 0.8 else list(rng.choice(["plain", "a*1*", "", "2+", "*2"]))
            tree.append(x)
            me = len(tree)
            if depth < 3 and rng.random() < 0.6:
                if not in_text and rng.random() < 0.3:
                    if len(tree) < n:
                        tree.append({"p": me, "has": False, "lab": [], "txt": True})
                    add(me, depth + 1, True)
                else:
                    add(me, depth + 1, in_text)
    top = 0
    if rng.random() < 0.15:     # the image itself has a label, and a first child without one
        tree.append({"p": 0, "has": True, "lab": label(rng, rng.choice(SELS)) if rng.random() < 0.8 else list("plain"), "root": True})
        tree.append({"p": 1, "has": False, "lab": []})
        top = 1
    add(top, 0, False)
    # an element with both text and other elements has only spans: texts only below text
    return tree


def sel_val(rng):
    k = rng.random()
    if k < 0.4:
        return {"t": "none"}
    if k < 0.5:
        return {"t": "int", "n": rng.randrange(1, 4)}
    return {"t": "str", "s": list(rng.choice(["1", "2+", "next", "next+", "last+", "1-2", "3", "2,4", "1,3+", "last"]))}


def gen_use(rng):
    u = {"begin": rng.choice([1, 1, 1, 2, 3, 5]), "mode": rng.choice(["frags"] * 4 + ["select", "select", "all"]), "list": []}
    if u["mode"] == "select":
        u["list"] = [rng.choice([0, 1, 1, 2, 2, 3, 4, 7]) for _ in range(rng.randrange(0, 5))]
    return u


def gen(rng):
    files = [gen_tree(rng, rng.choice([3, 6, 9, 12])) for _ in range(rng.choice([1, 1, 2]))]
    ops, nb = [], 1
    for _ in range(rng.randrange(1, 7)):
        if rng.random() < 0.45:
            ops.append({"op": "box", "par": rng.randrange(1, nb + 1), "sel": sel_val(rng)})
            nb += 1
        else:
            ops.append({"op": "image", "box": rng.randrange(1, nb + 1), "file": rng.randrange(1, len(files) + 1), "use": gen_use(rng)})
    return {"files": files, "ops": ops, "twice": rng.random() < 0.2, "seed": rng.getrandbits(30)}


# ---------------------------------------------------------------- OpenRaster
def colour(n):
    return (n * 7 % 256, 255 - n, n, 255) if n else (0, 0, 0, 255)


def ora_file(path, tree, rng=None, w=90, h=70):
    kids = {}
    for i, n in enumerate(tree):
        kids.setdefault(n["p"], []).append(i + 1)
    rng = rng or random.Random(0)

    def node(i):
        n = tree[i - 1]
        r = {"name": "".join(n["lab"]) if n["has"] else None, "x": n["x"], "y": n["y"], "vis": n["vis"], "op": n["op"] / 1000}
        if n["kind"] == "stack":
            r["sub"] = [node(j) for j in kids.get(i, [])]
        elif n.get("same") is not None:
            r["src"] = n["same"]
        else:
            r["png"] = ora.layer_png((n["bx"] + n["bw"] + n.get("mx", 3), n["by"] + n["bh"] + n.get("my", 2)),
                                     None if n["empty"] else (n["bx"], n["by"], n["bx"] + n["bw"], n["by"] + n["bh"]), colour(n["col"]),
                                     n.get("mode", "RGBA"))
        return r
    ora.write_ora(path, w, h, [node(i) for i in kids.get(0, [])], lean=rng.random() < 0.5, root=rng.random() < 0.5)


def layers(svg_root):
    """The visible bitmaps in a page: absolute place of their visible pixels, colour, opacity, in order."""
    res = []

    def walk(e, m, op):
        if not isinstance(e.tag, str) or hidden(e):
            return
        op *= float(e.get("opacity", style_dict(e.get("style")).get("opacity", 1)))
        m = mul(m, matrix(e.get("transform")))
        if et.QName(e).localname == "image":
            im = Image.open(io.BytesIO(base64.b64decode(e.get(XL).split(",", 1)[1]))).convert("RGBA")
            box = im.getbbox()
            if box is None:
                return
            x, y = float(e.get("x", 0)), float(e.get("y", 0))
            sx = float(e.get("width", im.size[0])) / im.size[0]
            sy = float(e.get("height", im.size[1])) / im.size[1]
            a = app(m, x + box[0] * sx, y + box[1] * sy)
            b = app(m, x + box[2] * sx, y + box[3] * sy)
            c = im.getpixel((box[0], box[1]))
            uniform = all(lo == hi for lo, hi in im.crop(box).getextrema())
            res.append({"x": fx(a[0]), "y": fx(a[1]), "w": fx(b[0] - a[0]), "h": fx(b[1] - a[1]),
                        "col": c[2] if c == colour(c[2]) and uniform else -1, "op": int(round(op * 1000))})
        for c in e:
            walk(c, m, op)
    walk(svg_root, (1, 0, 0, 1, 0, 0), 1.0)
    return res


def run_ora(env, p):
    """p: tree, use, cached -> trace"""
    t = {"tree": p["tree"], "use": p["use"], "err": "", "pages": []}
    try:
        d = env.new_dir()
        path = os.path.join(d, "i.ora")
        ora_file(path, p["tree"], random.Random(p.get("seed", 0)))
        cache = os.path.join(d, "c")
        os.makedirs(cache)
        for _ in range(2 if p.get("cached") else 1):
            deck = env.deck(cache_dir=cache)
            slide = deck.new_slide()
            slide.box(x=0, y=0, width=90, height=70).image(path, scale=1.0, **use_kw(p["use"]))
            t["pages"] = [layers(et.fromstring(s.encode())) for s in ee.pages(deck)]
    except Exception as ex:
        import traceback
        t["err"] = traceback.format_exc()[-300:] or repr(ex)
    return t


def gen_ora(rng):
    tree = []

    def add(p, depth):
        for _ in range(rng.randrange(0, 4) if depth else rng.randrange(1, 5)):
            if len(tree) >= 10:
                return
            n = len(tree) + 1
            stack = depth < 3 and rng.random() < 0.35
            x = {"p": p, "has": rng.random() < 0.7, "lab": [], "kind": "stack" if stack else "layer", "vis": rng.random() < 0.85,
                 "x": rng.choice([0, 0, 3, 11, -4]), "y": rng.choice([0, 0, 5, 20, -6]), "op": rng.choice([1000, 1000, 1000, 500, 250, 0, 999]),
                 "empty": not stack and rng.random() < 0.15, "bx": rng.choice([0, 0, 2, 7]), "by": rng.choice([0, 1, 9]),
                 "bw": rng.randrange(1, 20), "bh": rng.randrange(1, 20), "col": n, "mx": rng.choice([0, 4]), "my": rng.choice([0, 4])}
            if x["has"]:
                x["lab"] = label(rng, rng.choice(SELS)) if rng.random() < 0.6 else list(rng.choice(["Layer 1", "a & b", "<x>", "\"q\" 'r'", ""]))
            if not stack and rng.random() < 0.15:
                x["col"] = 0
            if not stack and not x["empty"] and rng.random() < 0.15:
                x.update(bx=0, by=0, mx=0, my=0, mode="RGB" if x["col"] else rng.choice(["RGB", "L", "1"]))
            tree.append(x)
            if stack:
                add(len(tree), depth + 1)
    add(0, 0)
    ls = [i + 1 for i, n in enumerate(tree) if n["kind"] == "layer"]
    if len(ls) > 1 and rng.random() < 0.2:      # two layers with the same pixels
        a, b = rng.sample(ls, 2)
        a, b = min(a, b), max(a, b)
        for k in ("empty", "bx", "by", "bw", "bh", "col", "mx", "my", "mode"):
            tree[b - 1][k] = tree[a - 1].get(k, "RGBA")
        tree[b - 1]["same"] = sum(1 for i in ls if i < a and tree[i - 1].get("same") is None)
    u = gen_use(rng)
    return {"tree": tree, "use": u, "cached": rng.random() < 0.15, "seed": rng.getrandbits(30)}


# ---------------------------------------------------------------- sizes
UNITS = ["", "", "px", "mm", "cm", "pt", "in", "pc"]


def run_box(env, p):
    """p: wd, hd, pl, pr, pt, pb, full, hor, kids, imgs -> trace"""
    t = {k: p[k] for k in ("wd", "hd", "full")}
    t.update({k: 1000 * p[k] for k in ("pl", "pr", "pt", "pb")})
    t.update(err="", rect={"x": 0, "y": 0, "w": 0, "h": 0}, ask={"w": 0, "h": 0}, imgs=[])
    d = env.new_dir()

    def size(x):
        return {"none": None, "px": x["v"] / 1000, "ratio": "%d%%" % x["v"], "fill": "fill"}[x["k"]]
    try:
        deck = env.deck(width=900, height=800)
        slide = deck.new_slide()
        outer = slide.box(x=0, y=0, width=p["full"]["w"] / 1000, height=p["full"]["h"] / 1000, horizontal=p["phor"])
        b = outer.box(width=size(p["wd"]), height=size(p["hd"]), p_left=p["pl"], p_right=p["pr"], p_top=p["pt"], p_bottom=p["pb"],
                      horizontal=p["hor"])
        b.rect(bg_color="#000001")
        for k in p["kids"]:
            b.box(width=k["w"], height=k["h"])
        if p["kids"]:
            f = (sum, max) if p["hor"] else (max, sum)
            t["ask"] = {"w": 1000 * f[0](k["w"] for k in p["kids"]), "h": 1000 * f[1](k["h"] for k in p["kids"])}
        for i, m in enumerate(p["imgs"]):
            x = dict(m)
            kw = {}
            if m["scale"]:
                kw["scale"] = m["scale"] / 1000
            if m["wrot"]:
                kw["rotation"] = m["wrot"]
            x.update(drawn=False, x=0, y=0, dw=0, dh=0, rot=m["wrot"], same=True)
            t["imgs"].append(x)
            if m["kind"] == "svg":
                path = os.path.join(d, "s%d.svg" % i)
                num = lambda v: str(v // 1000) if v % 1000 == 0 else str(v / 1000)  # noqa
                with open(path, "w") as f:
                    f.write('<svg xmlns="http://www.w3.org/2000/svg" width="%s%s" height="%s%s"><rect id="r%d" width="1" height="1"/></svg>'
                            % (num(m["w"]), m["wu"], num(m["h"]), m["hu"], i))
                b.image(path, **kw)
            else:
                im = Image.new("RGB", (m["w"] // 1000, m["h"] // 1000), (10 + i, 20, 30))
                path = os.path.join(d, "b%d.%s" % (i, {"png": "png", "jpeg": m["ext"]}[m["kind"]]))
                im.save(path, m["kind"])
                data = open(path, "rb").read()
                if m["src"] == "file":
                    b.image(path, **kw)
                else:
                    b.image(data if m["src"] == "bytes" else io.BytesIO(data), image_type=m["kind"], **kw)
                x["data"] = base64.b64encode(data).decode()
        if p.get("twice"):
            ee.pages(deck)
        root = et.fromstring(ee.pages(deck)[0].encode())
        i = 0
        for e in root:
            tag = et.QName(e).localname
            if tag == "rect":
                t["rect"] = {"x": fx(e.get("x")), "y": fx(e.get("y")), "w": fx(e.get("width")), "h": fx(e.get("height"))}
                continue
            x = t["imgs"][i]
            i += 1
            m = matrix(e.get("transform"))
            if tag == "image":
                bx = (float(e.get("x")), float(e.get("y")), float(e.get("width")), float(e.get("height")))
                want = Image.open(io.BytesIO(base64.b64decode(x["data"])))
                head, dat = e.get(XL).split(",", 1)
                got = Image.open(io.BytesIO(base64.b64decode(dat)))
                x["same"] = got.size == want.size and got.convert("RGB").tobytes() == want.convert("RGB").tobytes() \
                    and head == "data:%s;base64" % Image.MIME[got.format]
            else:
                svg = [c for c in e if et.QName(c).localname == "svg"][0]
                bx = (0, 0, px(svg.get("width")), px(svg.get("height")))
                x["same"] = [c.get("id") for c in svg] == ["r%d" % (i - 1)]
            place(x, m, bx)
        for x in t["imgs"]:
            x.pop("data", None)
    except Exception as ex:
        import traceback
        t["err"] = traceback.format_exc()[-300:] or repr(ex)
    return t


def px(s):
    m = re.match(r"([\d.]+)([a-z]*)$", s)
    return float(m.group(1)) * {"": 1, "px": 1, "mm": 96 / 25.4, "cm": 96 / 2.54, "pt": 96 / 72, "in": 96, "pc": 16}[m.group(2)]


def place(x, m, bx):
    """Place of the rectangle bx under the matrix m: its centre, drawn sizes and rotation."""
    import math
    c = app(m, bx[0] + bx[2] / 2, bx[1] + bx[3] / 2)
    w = math.hypot(m[0], m[1]) * bx[2]
    h = math.hypot(m[2], m[3]) * bx[3]
    rot = round(math.degrees(math.atan2(m[1], m[0]))) % 360 if (m[0], m[1]) != (0, 0) else x["wrot"] % 360
    skew = abs(m[0] * m[2] + m[1] * m[3]) > 1e-6
    x.update(drawn=True, x=fx(c[0] - w / 2), y=fx(c[1] - h / 2), dw=fx(w), dh=fx(h), rot=-1 if skew else rot)


def gen_box(rng):
    def d():
        return rng.choice([{"k": "none", "v": 0}, {"k": "none", "v": 0}, {"k": "px", "v": 1000 * rng.choice([0, 30, 77, 200, 411])},
                           {"k": "ratio", "v": rng.choice([10, 50, 100])}, {"k": "fill", "v": 0}])

    n = rng.choice([1, 1, 1, 2, 3])

    def img():
        kind = rng.choice(["svg", "svg", "png", "jpeg"])
        m = {"kind": kind, "scale": rng.choice([0, 0, 0, 500, 1000, 1700]), "wrot": rng.choice([0, 0, 0, 90, 33]), "wu": "", "hu": "",
             "src": rng.choice(["file", "file", "bytes", "io"]), "ext": rng.choice(["jpg", "jpeg"])}
        while True:     # the arithmetic of the specification is bounded
            lo, hi, r = (20, 300, 10) if n == 1 else (50, 150, 3)
            v = [rng.uniform(lo, hi), rng.uniform(lo, hi)]
            for a, x in zip("wh", v):
                u = rng.choice(UNITS) if kind == "svg" else ""
                y = x / px("1" + u)
                m[a], m[a + "u"] = (1000 * round(y) if u == "" and rng.random() < 0.5 or kind != "svg" else 250 * round(4 * y)), u
            w, h = (m[a] / 1000 * px("1" + m[a + "u"]) for a in "wh")
            if w > 0 and h > 0 and 1 / r <= w / h <= r and max(w, h) <= hi + 1:
                return m
    p = {"wd": d(), "hd": d(), "full": {"w": 1000 * rng.choice([300, 500]), "h": 1000 * rng.choice([200, 450])}, "hor": rng.random() < 0.4,
         "phor": rng.random() < 0.4, "kids": [], "imgs": [img() for _ in range(n)], "twice": rng.random() < 0.15}
    for k in ("pl", "pr", "pt", "pb"):
        p[k] = rng.choice([0, 0, 0, 4, 12])
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        p["kids"].append({"w": rng.randrange(1, 80), "h": rng.randrange(1, 80)})
    return p


def box_of(rng, e):
    """An enumerated box with images of the given sizes, of some kind."""
    p = gen_box(rng)
    pad = e["pad"] // 1000
    p.update(wd=e["wd"], hd=e["hd"], full=e["full"], kids=[], pl=pad, pr=pad, pt=pad, pb=pad)
    p["imgs"] = [{"kind": rng.choice(["svg", "png"]), "w": m["w"], "h": m["h"], "wu": "", "hu": "", "scale": m["scale"], "wrot": 0,
                  "src": "file", "ext": "jpg"} for m in e["imgs"]]
    return p
