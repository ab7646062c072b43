"""Slides of boxes with shapes: generator, execution on the real code, what a viewer of the SVG or the PDF paints."""
import base64, io, math, os, random, re
import elsie_env as ee
import elsie
from elsie_env import fx, et, style_dict, quiet
from elsie.shapes import arrow as arrow_mod
from imageprog import matrix, mul, app
from PIL import Image, ImageColor

ARROW = elsie.Arrow if hasattr(elsie, "Arrow") else arrow_mod.Arrow
XLINK = "{http://www.w3.org/1999/xlink}href"
COLORS = {"255,0,0": ["red", "#ff0000", "#f00", "#FF0000"], "0,128,0": ["green", "#008000"], "0,0,255": ["blue", "#00f"],
          "0,0,0": ["black", "#000"], "211,211,211": ["lightgray", "#d3d3d3"], "18,52,86": ["#123456"], "255,165,0": ["orange", "#FFA500"],
          "204,51,255": ["#c3f", "#cc33ff"], "255,255,255": ["white", "#FFF"]}
TRIPLES = [(3, 4), (4, 3), (6, 8), (5, 12), (12, 5), (8, 15), (15, 8), (1, 0), (0, 1), (20, 21), (7, 24)]


# ---------------------------------------------------------------- what is painted
def rgb(c):
    if c in (None, "none", "transparent"):
        return ""
    return ",".join(str(v) for v in ImageColor.getrgb(c)[:3])


def pt(p):
    return [fx(p[0]), fx(p[1])]


def path_of(m, subs):
    return [{"closed": s["closed"], "p": pt(app(m, *s["p"])), "segs": [[pt(app(m, *q)) for q in g] for g in s["segs"]]} for s in subs if s["segs"]]


def scale_of(m):
    return math.sqrt(abs(m[0] * m[3] - m[1] * m[2]))


def dashes(v, m):
    v = [fx(x * scale_of(m)) for x in v]
    return v * 2 if len(v) % 2 else v


def closed(ps):
    return [{"closed": True, "p": ps[0], "segs": [[p] for p in ps[1:]]}]


def opened(ps):
    return [{"closed": False, "p": ps[0], "segs": [[p] for p in ps[1:]]}]


ARC = 0.5522847498


def round_path(x, y, w, h, rx, ry):
    c, d = rx * (1 - ARC), ry * (1 - ARC)
    X, Y = x + w, y + h
    segs = [[(X - rx, y)], [(X - c, y), (X, y + d), (X, y + ry)], [(X, Y - ry)], [(X, Y - d), (X - c, Y), (X - rx, Y)],
            [(x + rx, Y)], [(x + c, Y), (x, Y - d), (x, Y - ry)], [(x, y + ry)], [(x, y + d), (x + c, y), (x + rx, y)]]
    return [{"closed": True, "p": (x + rx, y), "segs": segs}]


def pixels(img):
    img = img.convert("RGBA")
    def px(x, y):
        r, g, b, a = img.getpixel((x, y))
        return "%d,%d,%d" % (r, g, b) if a == 255 else "%d,%d,%d/%d" % (r, g, b, a)
    return px(0, 0) + ";" + px(img.width - 1, img.height - 1)


NUM = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")


def nums(s):
    return [float(v) for v in NUM.findall(s or "")]


def pairs(s):
    v = nums(s)
    return list(zip(v[::2], v[1::2]))


def parse_d(d):
    """subpaths of an SVG path with absolute commands"""
    subs, at, cc, qc = [], (0, 0), None, None
    for name, args in re.findall(r"([A-Za-z])([^A-Za-z]*)", d):
        ps = pairs(args)
        n = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1, "Z": 0, "z": 0}[name]
        if n == 0:
            subs[-1]["closed"] = True
            at, cc, qc = subs[-1]["p"], None, None
            continue
        for i in range(0, len(ps) - n + 1, n):
            a = ps[i:i + n]
            if name == "M" and i == 0:
                subs.append({"closed": False, "p": a[0], "segs": []})
                cc = qc = None
            elif name in "ML":
                subs[-1]["segs"].append([a[0]])
                cc = qc = None
            elif name in "CS":
                if name == "S":
                    a = [(2 * at[0] - cc[0], 2 * at[1] - cc[1]) if cc else at] + a
                subs[-1]["segs"].append(a)
                cc, qc = a[1], None
            else:
                q = a[0] if name == "Q" else ((2 * at[0] - qc[0], 2 * at[1] - qc[1]) if qc else at)
                e = a[-1]
                subs[-1]["segs"].append([tuple((u + 2 * v) / 3 for u, v in zip(at, q)), tuple((u + 2 * v) / 3 for u, v in zip(e, q)), e])
                cc, qc = None, q
            at = a[-1]
    return subs


def box_matrix(e, w, h):
    """view box of an svg element of size w, h (xMidYMid meet)"""
    vb = nums(e.get("viewBox"))
    if len(vb) != 4:
        return (1, 0, 0, 1, 0, 0)
    s = min(w / vb[2], h / vb[3])
    return (s, 0, 0, s, (w - vb[2] * s) / 2 - vb[0] * s, (h - vb[3] * s) / 2 - vb[1] * s)


def svg_figures(text):
    root = et.fromstring(text.encode() if isinstance(text, str) else text)
    figs = []

    def length(e, name, default=0.0):
        v = e.get(name)
        return default if v in (None, "auto") else float(v)

    def walk(e, m, inh):
        if not isinstance(e.tag, str):
            return
        tag = et.QName(e).localname
        st = dict(inh)
        for k in ("fill", "stroke", "stroke-width", "stroke-dasharray"):
            if e.get(k) is not None:
                st[k] = e.get(k)
        st.update(style_dict(e.get("style")))
        if e.get("transform"):
            m = mul(m, matrix(e.get("transform")))
        if tag == "svg":
            w, h = float(e.get("width")), float(e.get("height"))
            n = mul(m, box_matrix(e, w, h))
            for c in e:
                walk(c, n, st)
            return
        if tag in ("g", "a"):
            for c in e:
                walk(c, m, st)
            return
        f = length
        if tag == "image":
            data = base64.b64decode(e.get(XLINK).split(",", 1)[1])
            img = Image.open(io.BytesIO(data))
            x, y, w, h = f(e, "x"), f(e, "y"), f(e, "width", img.width), f(e, "height", img.height)
            if abs(w * img.height - h * img.width) > 0.01 * max(w * img.height, 1):
                s = min(w / img.width, h / img.height)
                x, y, w, h = x + (w - img.width * s) / 2, y + (h - img.height * s) / 2, img.width * s, img.height * s
            figs.append(fig("image", pixels(img), 0, [], path_of(m, closed([(x, y), (x + w, y), (x + w, y + h), (x, y + h)]))))
            return
        if tag == "rect":
            x, y, w, h = f(e, "x"), f(e, "y"), f(e, "width"), f(e, "height")
            rx, ry = e.get("rx"), e.get("ry")
            rx, ry = (float(rx) if rx else None), (float(ry) if ry else None)
            rx, ry = (ry if rx is None else rx) or 0, (rx if ry is None else ry) or 0
            subs = round_path(x, y, w, h, min(rx, w / 2), min(ry, h / 2)) if rx and ry else closed([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
        elif tag == "ellipse":
            rx, ry = f(e, "rx"), f(e, "ry")
            if not rx or not ry:        # not rendered
                return
            subs = round_path(f(e, "cx") - rx, f(e, "cy") - ry, 2 * rx, 2 * ry, rx, ry)
        elif tag == "circle":
            r = f(e, "r")
            subs = round_path(f(e, "cx") - r, f(e, "cy") - r, 2 * r, 2 * r, r, r)
        elif tag == "polygon":
            subs = closed(pairs(e.get("points")))
        elif tag == "polyline":
            subs = opened(pairs(e.get("points")))
        elif tag == "line":
            subs = opened([(f(e, "x1"), f(e, "y1")), (f(e, "x2"), f(e, "y2"))])
        elif tag == "path":
            subs = parse_d(e.get("d"))
        elif tag in ("defs", "namedview", "metadata", "title"):
            return
        else:
            raise ValueError("unknown element " + tag)
        c = rgb(st.get("fill", "black"))
        if c:
            figs.append(fig("fill", c, 0, [], path_of(m, subs)))
        c = rgb(st.get("stroke", "none"))
        if c:
            d = st.get("stroke-dasharray", "none")
            sw = nums(st.get("stroke-width", "1"))[0]
            if sw > 0:
                figs.append(fig("stroke", c, fx(sw * scale_of(m)), [] if d == "none" else dashes(nums(d), m), path_of(m, subs)))
    walk(root, (1, 0, 0, 1, 0, 0), {})
    return {"w": fx(root.get("width")), "h": fx(root.get("height")), "figs": figs}


def fig(k, c, w, dash, path):
    return {"k": k, "c": c, "w": w, "dash": dash, "path": path}


def pdf_image(x):
    w, h, bits = x["/Width"], x["/Height"], x["/BitsPerComponent"]
    mode = {("/DeviceRGB", 8): "RGB", ("/DeviceGray", 8): "L", ("/DeviceGray", 1): "1"}.get((x["/ColorSpace"], bits))
    if mode is None:
        raise ValueError("colour space %s %s" % (x["/ColorSpace"], bits))
    img = Image.frombytes(mode, (w, h), x.getData())
    if "/SMask" in x:
        img = img.convert("RGB")
        img.putalpha(pdf_image(x["/SMask"].getObject()).convert("L"))
    return img


def pdf_figures(path):
    from PyPDF2 import PdfFileReader
    from PyPDF2.pdf import ContentStream
    pages = []
    with open(path, "rb") as fh:
        r = PdfFileReader(fh, strict=False)
        for i in range(r.getNumPages()):
            page = r.getPage(i)
            bx = [float(v) for v in page.mediaBox]
            k = 4 / 3
            figs = []
            base = (k, 0, 0, -k, -bx[0] * k, bx[3] * k)

            def run(content, res, m0):
                stack, g = [], {"m": m0, "w": 1.0, "dash": [], "f": "0,0,0", "s": "0,0,0"}
                subs, cur = [], None
                for args, op in ContentStream(content, r).operations:
                    op = op.decode() if isinstance(op, bytes) else op
                    v = [float(a) for a in args] if all(isinstance(a, (int, float)) or a.__class__.__name__ in ("FloatObject", "NumberObject") for a in args) else args
                    if op == "q":
                        stack.append(dict(g))
                    elif op == "Q":
                        g = stack.pop()
                    elif op == "cm":
                        g["m"] = mul(g["m"], tuple(v))
                    elif op == "w":
                        g["w"] = v[0]
                    elif op == "d":
                        g["dash"] = [float(a) for a in args[0]]
                    elif op in ("rg", "RG"):
                        g["f" if op == "rg" else "s"] = ",".join("%d" % round(a * 255) for a in v)
                    elif op in ("g", "G"):
                        g["f" if op == "g" else "s"] = ",".join(["%d" % round(v[0] * 255)] * 3)
                    elif op == "m":
                        subs.append({"closed": False, "p": app(g["m"], *v), "segs": []})
                    elif op in "l":
                        subs[-1]["segs"].append([app(g["m"], *v)])
                    elif op == "c":
                        subs[-1]["segs"].append([app(g["m"], *v[j:j + 2]) for j in (0, 2, 4)])
                    elif op == "v":
                        at = ([subs[-1]["p"]] + [s[-1] for s in subs[-1]["segs"]])[-1]
                        subs[-1]["segs"].append([at] + [app(g["m"], *v[j:j + 2]) for j in (0, 2)])
                    elif op == "y":
                        ps = [app(g["m"], *v[j:j + 2]) for j in (0, 2)]
                        subs[-1]["segs"].append([ps[0], ps[1], ps[1]])
                    elif op == "h":
                        subs[-1]["closed"] = True
                    elif op == "re":
                        x, y, w, h = v
                        subs += closed([app(g["m"], *p) for p in ((x, y), (x + w, y), (x + w, y + h), (x, y + h))])
                    elif op in ("f", "F", "f*", "S", "s", "B", "B*", "b", "b*", "n"):
                        if op in ("s", "b", "b*"):
                            subs[-1]["closed"] = True
                        ident = (1, 0, 0, 1, 0, 0)
                        if op in ("f", "F", "f*", "B", "B*", "b", "b*"):
                            figs.append(fig("fill", g["f"], 0, [], path_of(ident, subs)))
                        if op in ("S", "s", "B", "B*", "b", "b*"):
                            figs.append(fig("stroke", g["s"], fx(g["w"] * scale_of(g["m"])), dashes(g["dash"], g["m"]), path_of(ident, subs)))
                        subs = []
                    elif op == "Do":
                        x = res["/XObject"][args[0]].getObject()
                        if x["/Subtype"] == "/Form":
                            m = tuple(float(a) for a in x.get("/Matrix", [1, 0, 0, 1, 0, 0]))
                            run(x, x.get("/Resources", res).getObject(), mul(g["m"], m))
                        else:
                            corners = [app(g["m"], *p) for p in ((0, 1), (1, 1), (1, 0), (0, 0))]
                            figs.append(fig("image", pixels(pdf_image(x)), 0, [], path_of((1, 0, 0, 1, 0, 0), closed(corners))))
                    elif op in ("W", "W*", "J", "j", "M", "i", "gs", "ri", "BDC", "EMC", "BMC"):
                        pass
                    else:
                        raise ValueError("unknown operator %s %s" % (op, args))
            c = page.getContents()
            if c is not None:
                run(c, page["/Resources"].getObject(), base)
            pages.append({"w": fx((bx[2] - bx[0]) * k), "h": fx((bx[3] - bx[1]) * k), "figs": figs})
    return pages


# ---------------------------------------------------------------- programs
NOARROW = {"size": 0, "ang": 0, "sw": 0, "inner": 0}
ITEM = {"t": "item", "p": 1, "s": "rect", "c": "", "bg": "", "sw": 1000, "dash": [], "rx": -1, "ry": -1, "rot": 0, "pts": [], "cmds": [],
        "sa": NOARROW, "ea": NOARROW, "iw": 0, "ih": 0, "scale": 1000}
BOX = {"t": "box", "p": 0, "x": 0, "y": 0, "w": 0, "h": 0, "z": 0, "hasz": False, "a": 1, "b": 0}


def item(**kw):
    d = dict(ITEM)
    d.update(kw)
    return d


def box(**kw):
    d = dict(BOX)
    d.update(kw)
    return d


def gen_arrow(rng):
    if rng.random() < 0.4:
        return dict(NOARROW)
    kind = rng.choice(["plain", "inner", "stroke", "both"])
    return {"size": rng.choice([6, 8, 10, 14]) * 1000, "ang": rng.choice([20, 30, 40, 45]), "sw": rng.choice([1000, 2000, 3000, 500]) if kind in ("stroke", "both") else 0,
            "inner": rng.choice([300, 700, 1000, 1500]) if kind in ("inner", "both") else 0}


def hop(rng, p, w, h, small=20, big=90):
    """a point at a whole distance from p"""
    for _ in range(100):
        a, b = rng.choice(TRIPLES)
        n = math.hypot(a, b)
        k = rng.randint(max(1, round(small / n)), max(2, round(big / n)))
        q = (p[0] + rng.choice([-1, 1]) * a * k * 1000, p[1] + rng.choice([-1, 1]) * b * k * 1000)
        if -20000 <= q[0] <= w + 20000 and -20000 <= q[1] <= h + 20000:
            return q
    return (p[0] + 30000, p[1])


def straight(p, q, r):
    ux, uy, vx, vy = q[0] - p[0], q[1] - p[1], r[0] - q[0], r[1] - q[1]
    n = math.hypot(ux, uy) * math.hypot(vx, vy)
    return n == 0 or abs(ux * vy - uy * vx) < 0.1 * n


def gen_points(rng, n, w, h, hops=False):
    """no three in a row on a line"""
    def pick():
        return (rng.randint(0, w // 500) * 500, rng.randint(0, h // 500) * 500)
    for _ in range(400):
        if hops:
            ps = [(rng.randint(0, w // 1000) * 1000, rng.randint(0, h // 1000) * 1000)]
            while len(ps) < n:
                ps.append(hop(rng, ps[-1], w, h))
        else:
            ps = [pick() for _ in range(n)]
        ring = ps + ps[:2]
        if n == 2 and math.dist(ps[0], ps[1]) > 8000:
            return ps
        if n > 2 and not any(straight(*ring[i:i + 3]) for i in range(n)) and all(math.dist(ring[i], ring[i + 1]) > 4000 for i in range(n)):
            return ps
    return [(0, 0), (30000, 40000), (60000, 0), (64000, 33000), (90000, 73000), (94000, 153000)][:n]


def gen_path(rng, w, h, arrow):
    cmds, prev = [], None
    n = rng.randint(1, 5)
    last = ["C", "S", "Q", "T"] if arrow else ["L", "C", "S", "Q", "T"]
    seq = ["M"]
    for i in range(n):
        seq.append(rng.choice(last if i == n - 1 else ["L", "L", "C", "S", "Q", "T", "M"]))
    line = []           # the last points joined by lines

    def fresh(hopfrom=None):
        for _ in range(200):
            q = hop(rng, hopfrom, w, h) if hopfrom else (rng.randint(0, w // 500) * 500, rng.randint(0, h // 500) * 500)
            if line and math.dist(line[-1], q) < 4000:
                continue
            if len(line) > 1 and straight(line[-2], line[-1], q):
                continue
            return q
        return (line[-1][0] + 7000, line[-1][1] + 11000)
    for i, name in enumerate(seq):
        per = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[name]
        rep = 1 if rng.random() < 0.75 or (arrow and i >= len(seq) - 2) else 2
        a = []
        for j in range(rep):
            for k in range(per):
                final = arrow and i == len(seq) - 1 and k == per - 1
                before = a[-1] if a else (cmds[-1]["a"][-1] if cmds else None)
                if final:
                    q = hop(rng, before, w, h)
                elif arrow and (i == len(seq) - 1 and k == per - 2 or i == len(seq) - 2 and k == per - 1):
                    q = (rng.randint(0, w // 1000) * 1000, rng.randint(0, h // 1000) * 1000)
                else:
                    q = fresh()
                a.append(q)
                if name == "M" and j == 0:
                    line = [q]
                elif name in "ML":
                    line.append(q)
                elif k == per - 1:
                    line = [q]
        cmds.append({"n": name, "a": a})
    # nothing of the path may be empty
    for c in range(len(cmds) - 1, 0, -1):
        if cmds[c]["n"] == "M" and len(cmds[c]["a"]) == 1 and (c + 1 == len(cmds) or cmds[c + 1]["n"] == "M"):
            cmds[c]["n"] = "L" if not arrow else "T"
    if arrow and cmds[-1]["n"] not in "CSQT":
        return gen_path(rng, w, h, arrow)
    return cmds


def straight_paths(cmds):
    """the path has two lines in a row that go on in the same direction"""
    ps = []
    for c in cmds:
        for j, q in enumerate(c["a"]):
            if c["n"] == "M" and j == 0:
                ps = [q]
            elif c["n"] in "ML":
                if ps and math.dist(ps[-1], q) < 3000:
                    return True
                if len(ps) > 1 and straight(ps[-2], ps[-1], q):
                    return True
                ps.append(q)
            elif j == len(c["a"]) - 1 or (j + 1) % {"C": 3, "S": 2, "Q": 2, "T": 1}[c["n"]] == 0:
                ps = [q]
    return False


def paint(rng):
    c, bg = rng.choice(list(COLORS)), rng.choice(list(COLORS))
    m = rng.choice(["c", "bg", "both", "both"])
    return {"c": c if m != "bg" else "", "bg": bg if m != "c" else "", "sw": rng.choice([1000, 1000, 2000, 2500, 5000, 500, 200, 0]),
            "dash": rng.choice([[], [], [], [10000, 4000], [5000], [6000, 2000, 3000], [2500, 1500]])}


def gen_item(rng, p, b):
    w, h = b["w"], b["h"]
    s = rng.choice(["rect", "rect", "ellipse", "polygon", "line", "line", "path", "path", "png", "svg"])
    d = paint(rng)
    rot = rng.choice([0, 0, 0, 90, 45, 30, 180, 255, -20, 360])
    if s == "rect":
        rx, ry = rng.choice([(-1, -1), (-1, -1), (5, 5), (8, -1), (-1, 8), (10, 4), (100, 6), (4, 200), (0, 0), (0, -1), (0, 6), (7, 0)])
        return item(p=p, s=s, rx=rx * 1000 if rx > 0 else rx, ry=ry * 1000 if ry > 0 else ry, rot=rot, **d)
    if s == "ellipse":
        return item(p=p, s=s, rot=rot, **d)
    if s == "polygon":
        ps = gen_points(rng, rng.randint(3, 5), w, h)
        if rng.random() < 0.2:      # a point named twice
            ps += ps[:1] if rng.random() < 0.7 else ps[-1:]
        return item(p=p, s=s, pts=ps, rot=rot, **d)
    if s == "line":
        sa, ea = gen_arrow(rng), gen_arrow(rng)
        n = rng.randint(2, 4)
        d["bg"] = ""
        if not d["c"]:
            d["c"] = rng.choice(list(COLORS))
        if rng.random() < 0.05:
            d["c"] = ""
        return item(p=p, s=s, pts=gen_points(rng, n, w, h, bool(sa["size"] or ea["size"])), sa=sa, ea=ea, **d)
    if s == "path":
        ea = gen_arrow(rng)
        for _ in range(50):
            cmds = gen_path(rng, w, h, bool(ea["size"]))
            if not straight_paths(cmds):
                return item(p=p, s=s, cmds=cmds, ea=ea, **d)
        return item(p=p, s=s, cmds=[{"n": "M", "a": [(0, 0)]}, {"n": "L", "a": [(30000, 10000)]}], **d)
    d = {"c": "", "sw": 1000, "dash": []}
    if s == "png":
        a, b2 = rng.choice(list(COLORS)), rng.choice(list(COLORS))
        if rng.random() < 0.3:      # translucent colours whose channels can be premultiplied without loss
            a, b2 = [rng.choice(["255,0,0", "0,0,255", "255,165,0", "0,0,0", "255,255,255"]) + rng.choice(["/51", "/204", ""]) for _ in (a, b2)]
        return item(p=p, s=s, bg=a + ";" + b2, iw=rng.randint(2, 12) * 4000, ih=rng.randint(2, 12) * 4000, scale=rng.choice([1000, 500, 2000, 1250]), rot=rot, **d)
    return item(p=p, s=s, bg=rng.choice(list(COLORS)), iw=rng.randint(3, 40) * 2000, ih=rng.randint(3, 40) * 2000, scale=rng.choice([1000, 1000, 500, 2000]), rot=rot, **d)


def few_colors(prog, rng):
    """only two colours"""
    two = rng.sample(list(COLORS), 2) if rng.random() < 0.6 else ["255,0,0", rng.choice(["255,165,0", "255,255,255", "255,0,0"])]

    def one(c):
        if not c:
            return c
        parts = c.split(";")
        return ";".join(rng.choice(two) + (rng.choice(["/51", "/204"]) if "/" in q else "") for q in parts)
    ok = {"255,0,0", "0,0,255", "255,165,0", "0,0,0", "255,255,255"}
    for n in prog["nodes"]:
        if n["t"] == "item" and (n["s"] != "png" or "/" not in n["bg"] or set(two) <= ok):
            n["c"], n["bg"] = one(n["c"]), one(n["bg"])
    return prog


def gen(rng):
    prog = gen_slide(rng)
    if rng.random() < 0.05:     # a page covered by an image
        c = [rng.choice(["255,0,0", "255,165,0", "255,255,255", "0,0,255"]) + rng.choice(["/51", "/204", ""]) for _ in (0, 1)]
        w, h = prog["w"], prog["h"]
        cover = [box(w=w, h=h, img=True), item(p=1, s="png", bg=";".join(c), c="", sw=1000, dash=[], iw=w, ih=h, scale=1000)]
        return dict(prog, vb=[], ground=0, nodes=cover)
    return few_colors(prog, rng) if rng.random() < 0.25 else prog


def gen_slide(rng):
    W, H = rng.choice([(400, 300), (640, 480), (300, 500), (333, 222), (1024, 768)])
    vb = []
    if rng.random() < 0.3:
        vb = rng.choice([(0, 0, W, H), (50, 20, W // 2, H // 2), (-40, -30, W + 100, H + 20), (10, 10, 200, 200), (0, 0, 2 * W, H), (0, 0, W, 2 * H),
                         (-30, -100, W, 3 * H), (rng.randint(-50, 50), rng.randint(-50, 50), rng.randint(W // 2, 2 * W), rng.randint(H // 2, 2 * H))])
    nodes, steps = [], 1
    nb, ni = rng.randint(1, 4), rng.randint(1, 6)
    if rng.random() < 0.2:      # the background of the slide
        nodes += [box(w=W * 1000, h=H * 1000, z=-1000000, hasz=True, img=True), item(p=1, bg=rng.choice(list(COLORS)))]
    ground = len(nodes)
    plan = ["box"] + rng.sample(["box"] * (nb - 1) + ["item"] * ni, nb - 1 + ni)
    places = {0: (0, 0, W, H), 1: None}
    for t in plan:
        boxes = [i + 1 for i, n in enumerate(nodes) if n["t"] == "box"]
        if t == "box":
            p = rng.choice([0, 0] + [i for i in boxes if not nodes[i - 1].get("img")])
            px, py, pw, ph = places[p]
            w, h = rng.randint(20, max(21, pw)), rng.randint(20, max(21, ph))
            x, y = rng.randint(-10, max(0, pw - w)), rng.randint(-10, max(0, ph - h))
            a = rng.choice([1, 1, 1, 2, 3])
            nodes.append(box(p=p, x=x * 1000, y=y * 1000, w=w * 1000, h=h * 1000, z=rng.randint(-2, 2), hasz=rng.random() < 0.3,
                             a=a, b=rng.choice([0, 0, a, a + 1])))
            places[len(nodes)] = (px + x, py + y, w, h)
        else:
            p = rng.choice([i for i in boxes if not nodes[i - 1].get("img")])
            it = gen_item(rng, p, nodes[p - 1])
            if it["s"] in ("png", "svg"):       # a box of its shape, which it does not make bigger
                k = rng.choice([500, 1000, 1500, 2000])
                nodes.append(box(p=p, x=rng.randint(-10, 100) * 1000, y=rng.randint(-10, 100) * 1000, w=it["iw"] * k // 1000, h=it["ih"] * k // 1000, img=True))
                places[len(nodes)] = None
                it["p"] = len(nodes)
            elif it["s"] == "ellipse" and rng.random() < 0.06:      # an ellipse of no width or height
                nodes.append(box(p=p, x=10000, y=20000, w=rng.choice([0, 30000]), h=0, img=True))
                if rng.random() < 0.5:
                    nodes[-1].update(w=nodes[-1]["h"], h=nodes[-1]["w"])
                places[len(nodes)] = None
                it["p"] = len(nodes)
            nodes.append(it)
    return {"w": W * 1000, "h": H * 1000, "vb": [v * 1000 for v in vb], "nodes": nodes, "ground": ground, "spell": rng.getrandbits(32)}


def normal(prog):
    """points as lists"""
    for n in prog["nodes"]:
        if n["t"] == "item":
            n["pts"] = [list(q) for q in n["pts"]]
            n["cmds"] = [{"n": c["n"], "a": [list(q) for q in c["a"]]} for c in n["cmds"]]
    return prog


# ---------------------------------------------------------------- execution
def num(v):
    v = v / 1000
    return int(v) if v == int(v) else v


def place(prog, i):
    x = y = 0
    while i:
        n = prog["nodes"][i - 1]
        x, y, i = x + n["x"], y + n["y"], n["p"]
    return x, y


def scramble(seq):
    """The lists that were passed belong to the caller, who uses them again"""
    for q in seq:
        if isinstance(q, list) and len(q) == 2:
            q[0] = q[1] = 7
    seq.reverse()
    if len(seq) > 2:
        del seq[1:]


def build(env, prog, deck, units=False):
    rng = random.Random(prog["spell"])
    kw = {}
    if prog["vb"]:
        kw["view_box"] = tuple(num(v) for v in prog["vb"])
    nodes = prog["nodes"]
    ground = prog.get("ground", 0)
    if ground:
        kw["bg_color"] = rng.choice(COLORS[nodes[1]["bg"]])
    slide = deck.new_slide(**kw)
    made = {0: slide}
    last = {}

    def color(c):
        return rng.choice(COLORS[c]) if c else None

    def arrow(a):
        if not a["size"]:
            return None
        k = {"size": num(a["size"]), "angle": a["ang"]}
        if a["sw"]:
            k["stroke_width"] = num(a["sw"])
        if a["inner"]:
            k["inner"] = a["inner"] / 1000
        return ARROW(**k)

    def point(i, q):
        x, y = q
        m = rng.random()
        if m < 0.6:
            return (num(x), num(y))
        j = rng.choice([k for k in made if k])
        if m < 0.75:
            j = i
        o, oj = place(prog, i), place(prog, j)
        dx, dy = x + o[0] - oj[0], y + o[1] - oj[1]
        if m < 0.9:
            return made[j].p(num(dx), num(dy))
        return made[j].p(num(dx) - 7, num(dy) + 3).add(7, -3)
    for i, n in list(enumerate(nodes))[ground:]:
        if n["t"] == "box":
            k = {"x": num(n["x"]), "y": num(n["y"]), "width": num(n["w"]), "height": num(n["h"])}
            if n["hasz"]:
                k["z_level"] = n["z"]
            a, b = n["a"], n["b"]
            if (a, b) != (1, 0) or rng.random() < 0.2:
                k["show"] = "%d+" % a if b == 0 else str(a) if a == b else "%d-%d" % (a, b)
            made[i + 1] = made[n["p"]].box(**k)
            continue
        par = made[n["p"]]
        if n["p"] in last and rng.random() < 0.3:
            par = last[n["p"]]
        k = {}
        if n["s"] in ("png", "svg"):
            f = os.path.join(env.new_dir(), "i." + n["s"])
            w, h = n["iw"] // 1000, n["ih"] // 1000
            if n["s"] == "png":
                a, b = [tuple(int(v) for v in re.split("[,/]", c if "/" in c else c + "/255")) for c in n["bg"].split(";")]
                img = Image.new("RGBA", (w, h), a)
                img.paste(b, (w // 2, 0, w, h))
                img.putpixel((0, 0), a)
                if "/" not in n["bg"] and rng.random() < 0.8:
                    img = img.convert(rng.choice(["RGB", "RGB", "P"]))
                img.save(f)
            else:
                c = "#%02x%02x%02x" % tuple(int(v) for v in n["bg"].split(","))
                with open(f, "w") as fh:
                    u, f2 = rng.choice([("", 1), ("px", 1), ("pt", 0.75), ("mm", 25.4 / 96), ("in", 1 / 96)]) if units else ("", 1)
                    size = 'width="%.6g%s" height="%.6g%s"' % (w * f2, u, h * f2, u)
                    if rng.random() < 0.3:
                        size += ' viewBox="0 0 %d %d"' % (w, h)
                    # the region of flowed text is not a part of the picture
                    flow = rng.choice(["", '<flowRoot><flowRegion><rect x="0" y="0" width="%d" height="%d" fill="#123"/></flowRegion>'
                                       '<flowPara></flowPara></flowRoot>' % (w, h)]) if units else ""
                    fh.write('<svg xmlns="http://www.w3.org/2000/svg" %s>%s<polygon points="0,0 %d,0 0,%d" fill="%s"/></svg>' % (size, flow, w, h, c))
            if n["rot"] or rng.random() < 0.2:
                k["rotation"] = n["rot"]
            last[n["p"]] = par.image(f, scale=n["scale"] / 1000, **k)
            continue
        if n["c"] or n["s"] in ("path", "line"):
            k["color"] = color(n["c"])
        if n["bg"]:
            k["bg_color"] = color(n["bg"])
        if n["sw"] != 1000 or rng.random() < 0.3:
            k["stroke_width"] = num(n["sw"])
        if n["dash"]:
            k["stroke_dasharray"] = rng.choice([" ", " ", " ", ",", ", "]).join(str(num(v)) for v in n["dash"])
        if n["s"] in ("rect", "ellipse", "polygon") and (n["rot"] or rng.random() < 0.2):
            k["rotation"] = n["rot"]
        if n["s"] == "rect":
            for r in ("rx", "ry"):
                if n[r] >= 0:
                    k[r] = num(n[r])
            it = par.rect(**k)
        elif n["s"] == "ellipse":
            it = par.ellipse(**k)
        elif n["s"] == "polygon":
            pts = [point(n["p"], q) for q in n["pts"]]
            it = par.polygon(pts, **k)
            scramble(pts)
        elif n["s"] == "line":
            if n["sa"]["size"]:
                k["start_arrow"] = arrow(n["sa"])
            if n["ea"]["size"]:
                k["end_arrow"] = arrow(n["ea"])
            pts = [point(n["p"], q) for q in n["pts"]]
            it = par.line(pts, **k)
            scramble(pts)
        else:
            if n["ea"]["size"]:
                k["end_arrow"] = arrow(n["ea"])
            cmds = [[c["n"]] + [point(n["p"], q) for q in c["a"]] for c in n["cmds"]]
            if rng.random() < 0.5:
                cmds = [tuple(c) for c in cmds]
            it = par.path(cmds, **k)
            for c in cmds:
                if isinstance(c, list):
                    scramble(c)
            scramble(cmds)
        last[n["p"]] = it


def run(env, prog, fmt="svg"):
    t = {"prog": normal(prog), "fmt": fmt, "err": "", "pages": []}
    try:
        size = {"width": num(prog["w"]), "height": num(prog["h"])}
        if fmt == "svg":
            deck = env.deck(**size)
            build(env, prog, deck, fmt != "svg")
            t["pages"] = [svg_figures(p) for p in ee.pages(deck)]
        else:
            d = env.new_dir()
            deck = env.deck(cache_dir=d, backend=ee.CairoBackend(cache_dir=d), **size)
            build(env, prog, deck, fmt != "svg")
            out = os.path.join(d, "out.pdf")
            with quiet():
                deck.render(out)
            t["pages"] = pdf_figures(out)
    except Exception as e:
        t["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    return t


def pixel_points(prog, n=60):
    """Pixels of the page, most of them in boxes and near points of shapes."""
    rng = random.Random(prog["spell"])
    W, H = prog["w"] // 1000, prog["h"] // 1000
    pts = [(rng.randrange(W), rng.randrange(H)) for _ in range(n)]
    x0, y0, k, ox, oy = 0, 0, 1.0, 0, 0
    if prog["vb"]:
        x0, y0, vw, vh = [v / 1000 for v in prog["vb"]]
        k = min(W / vw, H / vh)
        ox, oy = (W - vw * k) / 2, (H - vh * k) / 2

    def add(x, y):
        q = (int((x / 1000 - x0) * k + ox), int((y / 1000 - y0) * k + oy))
        if 0 <= q[0] < W and 0 <= q[1] < H:
            pts.append(q)
    for i, nd in enumerate(prog["nodes"], 1):
        if nd["t"] == "box":
            x, y = place(prog, i)
            for _ in range(12):
                add(x + rng.random() * nd["w"], y + rng.random() * nd["h"])
        elif nd["s"] in ("polygon", "line"):
            x, y = place(prog, nd["p"])
            ps = nd["pts"]
            for a, b in zip(ps, ps[1:]):
                for _ in range(3):
                    f = rng.random()
                    add(x + a[0] + f * (b[0] - a[0]), y + a[1] + f * (b[1] - a[1]))
    return pts[:n] + rng.sample(pts[n:], min(100, len(pts) - n))


def pixel(p):
    return "none" if p[3] == 0 else "%d,%d,%d" % p[:3] if p[3] == 255 else "%d,%d,%d/%d" % p


def run_png(env, prog):
    t = {"prog": normal(prog), "err": "", "pages": []}
    cs = {n["bg"] for n in prog["nodes"] if n["t"] == "item" and n["s"] == "png"}
    t["halves"] = [{"c": c, "l": c.split(";")[0], "r": c.split(";")[1]} for c in sorted(cs)]
    t["trans"] = sorted({x for c in cs for x in c.split(";") if "/" in x})
    try:
        d = env.new_dir()
        deck = env.deck(cache_dir=d, backend=ee.CairoBackend(cache_dir=d), width=num(prog["w"]), height=num(prog["h"]))
        build(env, prog, deck, True)
        with quiet():
            files = deck.render(None, export_type="png")
        pts = pixel_points(prog)
        for f in files:
            img = Image.open(f).convert("RGBA")
            t["pages"].append({"w": img.width, "h": img.height, "px": [{"x": x, "y": y, "c": pixel(img.getpixel((x, y)))} for x, y in pts if x < img.width and y < img.height]})
    except Exception as e:
        t["err"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    return t


def of_path(rng, cmds):
    b = box(x=rng.randint(0, 30) * 1000, y=rng.randint(0, 30) * 1000, w=130000, h=110000)
    return {"w": 400000, "h": 300000, "vb": rng.choice([[], [], [10000, 20000, 200000, 150000]]),
            "nodes": [b, item(p=1, s="path", c="0,0,0", bg=rng.choice(["", "255,165,0"]), cmds=cmds)], "spell": rng.getrandbits(32)}
