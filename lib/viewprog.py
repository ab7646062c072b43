"""HTML previews: generator, execution of the real code and of its script in a small document (dom.js under node)."""
import base64, io, json, os, re, subprocess
from html.parser import HTMLParser
import elsie_env as ee
from elsie_env import et

HERE = os.path.dirname(os.path.abspath(__file__))
VOID = {"img", "br", "hr", "input", "meta", "link", "source", "wbr", "area", "base", "col", "embed", "param", "track"}


class Tree(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.root = {"t": "root", "a": [], "c": []}
        self.open = [self.root]

    def handle_starttag(self, tag, attrs):
        e = {"t": tag, "a": attrs, "c": []}
        self.open[-1]["c"].append(e)
        if tag not in VOID:
            self.open.append(e)

    def handle_startendtag(self, tag, attrs):
        inside = any(e["t"] == "svg" for e in self.open)
        e = {"t": tag, "a": attrs, "c": []}
        self.open[-1]["c"].append(e)
        if not inside and tag not in VOID and tag != "svg":   # HTML ignores the slash
            self.open.append(e)

    def handle_endtag(self, tag):
        for i in range(len(self.open) - 1, 0, -1):
            if self.open[i]["t"] == tag:
                del self.open[i:]
                return

    def handle_data(self, data):
        self.open[-1]["c"].append(data)


def marks_of(e, svg_text):
    """marks (of the colour of rectangles) in an svg element of the tree or in an svg text"""
    r = []
    if svg_text is not None:
        for x in et.fromstring(svg_text).iter():
            if isinstance(x.tag, str) and et.QName(x).localname == "rect":
                r.append(x.get("style") or "")
    else:
        def walk(x):
            if isinstance(x, str):
                return
            if x["t"] == "rect":
                r.append(dict(x["a"]).get("style") or "")
            for c in x["c"]:
                walk(c)
        walk(e)
    return [int(m.group(1), 16) for m in (re.search(r"fill:\s*#0000(\w\w)", s) for s in r) if m]


def spot(n):
    """the place of mark n"""
    return 6 * (n % 14), 6 * (n // 14)


def pixel_marks(raw):
    """marks in a picture drawn by the Cairo backend"""
    from PIL import Image
    if not raw.startswith(b"\x89PNG"):
        return [999]
    img = Image.open(io.BytesIO(raw)).convert("RGBA")
    if img.size != (90, 60):
        return [998]
    got = []
    for n in range(1, 14 * 9):
        c = img.getpixel(tuple(v + 2 for v in spot(n)))
        if c[3]:
            got.append(n if c == (0, 0, n, 255) else 997)
    return got


def tree_of(html):
    """the tree of a preview; each picture gets data-frag, its number in `content`: the marks of all of them"""
    p = Tree()
    p.feed(html)
    p.close()
    content = []

    def walk(e):
        if isinstance(e, str):
            return
        a = dict(e["a"])
        if e["t"] in ("svg", "img"):
            if e["t"] == "svg":
                m = marks_of(e, None)
            else:
                head, _, data = a.get("src", "").partition(",")
                raw = base64.b64decode(data) if head.strip() == "data:image/png;base64" else b""
                m = marks_of(e, base64.b64decode(raw.split(b":")[-1])) if raw.startswith(b"FAKE-png:") else pixel_marks(raw)
            e["a"] = [x for x in e["a"] if x[0] != "data-frag"] + [("data-frag", str(len(content)))]
            if e["t"] == "svg":
                e["c"] = [c for c in e["c"] if not isinstance(c, str) and c["t"] == "style"][:0]
            else:
                e["a"] = [x for x in e["a"] if x[0] != "src"]
            content.append(sorted(m))
            return
        for c in e["c"]:
            walk(c)
    walk(p.root)
    return p.root["c"], content


class Node:
    def __init__(self):
        self.p = subprocess.Popen(["node", os.path.join(HERE, "dom.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def show(m):
    if m["b"] == 0:
        return "%d+" % m["a"]
    return str(m["a"]) if m["a"] == m["b"] else "%d-%d" % (m["a"], m["b"])


def run(env, node, p):
    t = {"slides": p["slides"], "ops": [], "err": ""}
    try:
        kw = {}
        if p.get("cairo"):
            kw["cache_dir"] = env.new_dir()
            kw["backend"] = ee.CairoBackend(cache_dir=kw["cache_dir"])
        deck = env.deck(width=90, height=60, **kw)
        slides, n = [], []

        def add(i, m):
            n[i] += 1
            b = slides[i].box(x=spot(n[i])[0], y=spot(n[i])[1], width=5, height=5, show=show(m))
            b.rect(bg_color="#0000%02x" % n[i])
        for i, ms in enumerate(p["slides"]):
            slides.append(deck.new_slide("s%d" % i))
            n.append(0)
            for m in ms:
                add(i, m)
        of, job, contents, now = [], [], [], []
        for op in p["ops"]:
            if op["op"] == "add":
                add(op["s"] - 1, op["m"])
            elif op["op"] in ("preview", "rerun"):
                if op["op"] == "preview":
                    of.append(op["s"])
                    now.append(None)
                v = len(of) if op["op"] == "preview" else op["v"]
                slide = slides[of[v - 1] - 1]
                how = op.get("how", "svg")
                with ee.quiet():
                    if how == "repr":
                        html = slide._repr_html_()
                    else:
                        from elsie.render.jupyter import render_slide_html
                        html = render_slide_html(slide.slide, how)
                tree, content = tree_of(html)
                now[v - 1] = content
                op = dict(op, html=tree)
            job.append(op)
            contents.append(list(now))
        res = node.run({"ops": job})
        for op, r, c in zip(p["ops"], res, contents):
            if r["err"]:
                t["err"] = r["err"]
            seen = []
            for v, g in enumerate(r["seen"]):
                if g["controls"] and g["buttons"] != 2:
                    t["err"] = "%d buttons" % g["buttons"]
                seen.append({"frags": [c[v][int(i)] for i in g["marks"]], "shown": g["shown"], "number": g["number"], "controls": g["controls"],
                             "next": g["next"], "prev": g["prev"]})
            t["ops"].append(dict({k: v for k, v in op.items() if k != "how"}, seen=seen))
    except Exception:
        import traceback
        t["err"] = traceback.format_exc()[-400:]
    return t


def gen_mark(rng):
    a = rng.choice([1, 1, 2, 2, 3, 4, 7])
    return {"a": a, "b": rng.choice([0, 0, a, a + rng.randrange(0, 3)])}


def hows(rng, p):
    p["cairo"] = rng.random() < .25     # a backend without SVG pages
    for o in p["ops"]:
        if o["op"] in ("preview", "rerun"):
            o["how"] = rng.choice(["png", "repr", "repr"] if p["cairo"] else ["svg", "svg", "png", "repr"])
    return p


def of_history(rng, p):
    hist = p["hist"]
    slides = [list(x) for x in p["deck"]]
    for o in hist:
        if o["op"] == "add":
            slides[o["s"] - 1].pop()
    return hows(rng, {"slides": slides, "ops": [dict(o) for o in hist]})


def gen(rng):
    slides = [[gen_mark(rng) for _ in range(rng.randrange(0, 5))] for _ in range(rng.choice([1, 2, 3]))]
    sizes, of, ops, cur = [], [], [], [list(s) for s in slides]

    def frags(s):
        return max([1] + [m["b"] or m["a"] for m in s])
    for _ in range(rng.randrange(3, 40)):
        k = rng.random()
        if not of or k < 0.12 and len(of) < 4:
            s = rng.randrange(len(slides))
            of.append(s)
            sizes.append(frags(cur[s]))
            ops.append({"op": "preview", "s": s + 1})
        elif k < 0.17:
            s = rng.randrange(len(slides))
            m = gen_mark(rng)
            cur[s].append(m)
            ops.append({"op": "add", "s": s + 1, "m": m})
        elif k < 0.23:
            v = rng.randrange(len(of))
            sizes[v] = frags(cur[of[v]])
            ops.append({"op": "rerun", "v": v + 1})
        else:
            vs = [v for v in range(len(of)) if sizes[v] > 1]
            if vs:
                v = rng.choice(vs)
                d = rng.choice([1, 1, -1])
                for _ in range(rng.choice([1, 1, 2, 4])):
                    ops.append({"op": rng.choice(["click", "click", "fire"]), "v": v + 1, "d": d})
    return hows(rng, {"slides": slides, "ops": ops})
