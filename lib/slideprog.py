"""Random and given building histories of slides, executed on the real code and recorded as traces."""
import io, os, re, base64, random
from elsie_env import Env, parse_page, pages, quiet, fx, K, LABEL
import common

NONE = {"t": "none"}
NOP = [-1] * 7


def num(v):
    return {"t": "num", "v": fx(v)}


def st(s):
    return {"t": "str", "s": list(s)}


def pyval(a, objs=None):
    """raw value record -> Python argument"""
    t = a["t"]
    if t == "none":
        return None
    if t == "num":
        v = a["v"] / K
        return int(v) if v == int(v) else v
    if t == "int":
        return a["n"]
    if t == "str":
        return "".join(a["s"])
    if t == "lazy":
        return lazy(a["lz"], objs)
    return [object(), [], (1, 2), {}, b"1", 1.5, ["1"], lambda: 1][a["n"]]


def lazy(lz, objs):
    b = objs[lz["ref"]]
    v = (b.x if lz["axis"] == "x" else b.y)(pyval(lz["c"]))
    for o in lz["ops"]:
        n = o["n"]
        v = v.add(n / K) if o["o"] == "add" else v.map(lambda q, n=n: q * n)
    return v


def point(p, objs):
    from elsie.boxtree.lazy import LazyPoint
    if p["t"] == "lazy":
        x, y = p["x"], p["y"]
        how = p.get("how", "xy")
        if how == "mid":
            pt = objs[x["ref"]].mid_point()
            return pt.add(*(sum(o["n"] for o in q["ops"]) / K for q in (x, y))) if x["ops"] or y["ops"] else pt
        if how == "p":
            pt = objs[x["ref"]].p(pyval(x["c"]), pyval(y["c"]))
            for a, b in zip(x["ops"], y["ops"]):
                pt = pt.add(a["n"] / K, b["n"] / K)
            return pt
        return LazyPoint(lazy(x, objs), lazy(y, objs))
    v = (pyval(p["x"]), pyval(p["y"]))
    return list(v) if p.get("how") == "list" else v


def color(i):
    return "#%06x" % (0x100000 + i)


def uncolor(c):
    m = re.match(r"^#([0-9a-f]{6})$", c or "")
    return int(m.group(1), 16) - 0x100000 if m else None


def png(i):
    from PIL import Image
    f = io.BytesIO()
    Image.new("RGB", (1, 1), (i // 256, i % 256, 77)).save(f, "png")
    return f.getvalue()


def unpng(b64):
    from PIL import Image
    p = Image.open(io.BytesIO(base64.b64decode(b64))).convert("RGB").getpixel((0, 0))
    return p[0] * 256 + p[1] if p[2] == 77 else None


def svg_file(env, i, steps):
    path = os.path.join(env.dir, "im%d-%d-%d.svg" % (i, steps, random.getrandbits(40)))
    body = "".join('<g inkscape:label="x **%d**"><rect width="1" height="1"/></g>' % s for s in range(1, steps + 1))
    with open(path, "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" xmlns:inkscape="http://www.inkscape.org/namespaces/inkscape"'
                ' width="4" height="3"><rect id="im%d" width="1" height="1"/>%s</svg>' % (i, body))
    return path


# Drawing calls that cannot be carried out
def _file(env, name, data):
    path = os.path.join(env.new_dir(), name)
    with open(path, "wb") as f:
        f.write(data)
    return path


def _svg(env, size='width="40" height="30"'):
    return _file(env, "r.svg", ('<svg xmlns="http://www.w3.org/2000/svg" %s><rect width="9" height="9"/></svg>' % size).encode())


def _ora(env, mime=b"image/openraster", stack=b'<image w="40" h="30"><stack/></image>', to=None, layer=None):
    import zipfile
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        z.writestr("mimetype", mime)
        z.writestr("stack.xml", stack)
        if layer:
            z.writestr("l.png", layer)
    if to:
        with open(to, "wb") as g:
            g.write(f.getvalue())
        return to
    return _file(env, "r.ora", f.getvalue())


TXT = "a wide text that would make the box wider"
REJECTS = {
    "text-escape": lambda t, env: t.text(TXT, escape_char="ab"),
    "text-noescape": lambda t, env: t.text(TXT, escape_char=""),
    "text-style": lambda t, env: t.text(TXT, "no such style"),
    "text-style-value": lambda t, env: t.text(TXT, 12),
    "text-inline-style": lambda t, env: t.text(TXT + "~nosuchstyle{x}"),
    "text-open": lambda t, env: t.text(TXT + "~tt{x"),
    "text-none": lambda t, env: t.text(None),
    "code-language": lambda t, env: t.code("nosuchlanguage", TXT),
    "code-style": lambda t, env: t.code("python", TXT, style="no such style"),
    "code-escape": lambda t, env: t.code("python", TXT, use_styles=True, escape_char="ab"),
    "code-inline-style": lambda t, env: t.code("python", TXT + " ~nosuchstyle{x}", use_styles=True),
    "line-one": lambda t, env: t.line([(1, 2)]),
    "line-none": lambda t, env: t.line([]),
    "line-triple": lambda t, env: t.line([(1, 2), (1, 2, 3)]),
    "line-word": lambda t, env: t.line([(1, 2), (1, "x")]),
    "line-number": lambda t, env: t.line([(1, 2), 3]),
    "polygon-single": lambda t, env: t.polygon([(1, 2), (3, 4), (5,)]),
    "polygon-word": lambda t, env: t.polygon([(1, 2), (3, 4), ("5px", 6)]),
    "path-command": lambda t, env: t.path([("M", (1, 2)), ("Z",)]),
    "path-count": lambda t, env: t.path([("M", (1, 2)), ("C", (1, 2), (3, 4))]),
    "path-text": lambda t, env: t.path(["M", (1, 2)]),
    "image-extension": lambda t, env: t.image(_file(env, "x.bmp", b"")),
    "image-missing": lambda t, env: t.image(os.path.join(env.new_dir(), "none.png")),
    "image-missing-svg": lambda t, env: t.image(os.path.join(env.new_dir(), "none.svg")),
    "image-missing-ora": lambda t, env: t.image(os.path.join(env.new_dir(), "none.ora")),
    "image-type": lambda t, env: t.image(png(1), image_type="gif"),
    "image-notype": lambda t, env: t.image(png(1)),
    "image-broken": lambda t, env: t.image(b"no picture", image_type="png"),
    "image-broken-file": lambda t, env: t.image(_file(env, "x.jpeg", b"no picture")),
    "image-svg-bytes": lambda t, env: t.image(b"<svg/>", image_type="svg"),
    "image-svg-broken": lambda t, env: t.image(_file(env, "x.svg", b"<svg width='10'")),
    "image-svg-select": lambda t, env: t.image(_svg(env), select_fragments=3),
    "image-svg-begin": lambda t, env: t.image(_svg(env), show_begin="next"),
    "image-svg-begin2": lambda t, env: t.image(_svg(env), show_begin=None, select_fragments=[1, 1]),
    "image-ora-mime": lambda t, env: t.image(_ora(env, b"image/png")),
    "image-ora-broken": lambda t, env: t.image(_ora(env, stack=b"<image")),
    "image-ora-select": lambda t, env: t.image(_ora(env), select_fragments=3),
    "image-ora-begin": lambda t, env: t.image(_ora(env), show_begin="next"),
}
ITEM_REJECTS = {   # of the item of a text
    "item-inline": lambda it: it.inline_box("nosuchstyle", show="next+"),
    "item-inline-n": lambda it: it.inline_box("tt", 0),
    "item-inline-show": lambda it: it.inline_box("nosuchstyle", show="x"),
    "item-line-show": lambda it: it.line_box(0, show="last-"),
    "item-line-size": lambda it: it.line_box(0, height="much", show="next+"),
    "item-line-place": lambda it: it.line_box(0, above=it, below=it),
}


class Slide:
    """One slide of a deck under construction; executes operations and records them."""

    def __init__(self, env, deck, bg=None, debug=False, name=None, view_box=None, deck_bg=None):
        self.env, self.deck, self.ops = env, deck, []
        self.nogeo = False
        self.root = deck.new_slide(name, bg_color=bg, debug_boxes=debug, view_box=view_box)
        self.slide = self.root.slide
        self.boxes = [None, self.root]
        self.items = [None]
        self.order = [1]      # boxes in depth-first layout order
        self.bg = bg or deck_bg
        self.err = ""
        self.debug, self.name = bool(debug), name or ""
        if self.bg:
            self.boxes.append(None)
            self.items.append(None)
            self.order.append(2)
            op = box_op(1, x=num(0), y=num(0), w=st("100%"), h=st("100%"), zset=True, z=-1000000)
            self.ops.append(dict(op, ok=True, cur=1))
            self.ops.append(dict(item_op(2, "rect"), ok=True, cur=1))

    # alternating targets: the box itself or one of its items
    def target(self, b, rng=None):
        if rng and rng.random() < 0.3:
            its = [self.items[i] for i in range(1, len(self.items)) if self.items[i] is not None and
                   self.items[i]._get_box() is self.boxes[b]]
            if its:
                return rng.choice(its)
        return self.boxes[b]

    def ref(self, r):
        if r == 99:
            return self.foreign()
        return self.boxes[r] if r > 0 else self.items[-r]

    def foreign(self):
        with quiet():
            return self.env.deck().new_slide().box()

    def do(self, op, rng=None):
        op = dict(op)
        ok = True
        try:
            if op["op"] == "box":
                kw = {}
                for k, a in (("show", "sel"), ("x", "x"), ("y", "y"), ("width", "w"), ("height", "h")):
                    if op[a]["t"] != "none":
                        kw[k] = pyval(op[a], self.boxes)
                for k, v in zip(("p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding"), op["p"]):
                    if v >= 0:
                        kw[k] = v / K
                if op["hor"]:
                    kw["horizontal"] = True
                if op["zset"]:
                    kw["z_level"] = op["z"]
                if op["prep"]:
                    kw["prepend"] = True
                if op["ab"]:
                    kw["above"] = self.ref(op["ab"])
                if op["be"]:
                    kw["below"] = self.ref(op["be"])
                if op.get("name"):
                    kw["name"] = op["name"]
                b = getattr(self.target(op["par"], rng), op["via"])(**kw)
                self.boxes.append(b)
                par = op["par"]
                n = len(self.boxes) - 1
                self.par = getattr(self, "par", {1: 0, 2: 1})
                self.par[n] = par
                if op["prep"]:
                    self.order.insert(self.order.index(par) + 1, n)
                else:
                    self.order.insert(self.last_below(par) + 1, n)
            elif op["op"] == "reject":
                if op["call"].startswith("item-"):
                    ITEM_REJECTS[op["call"]](self.items[op["item"]])
                else:
                    with quiet():
                        REJECTS[op["call"]](self.target(op["box"], rng), self.env)
            else:
                it = self.item(op, rng)
                self.items.append(it)
        except Exception as e:
            ok = False
            op["exc"] = repr(e)[:200]
        op["ok"] = ok
        try:
            op["cur"] = self.boxes[1].current_fragment()
        except Exception as e:
            op["cur"] = -1
        self.ops.append(op)
        return ok

    def below(self, b, c):
        while c:
            if c == b:
                return True
            c = getattr(self, "par", {1: 0, 2: 1}).get(c, 1 if c > 1 else 0)
        return False

    def last_below(self, b):
        return max(i for i, c in enumerate(self.order) if self.below(b, c))

    def earlier(self, par, prep):
        """boxes that are laid out before a new child of par"""
        i = self.order.index(par) if prep else self.last_below(par)
        return [b for b in self.order[:i + 1] if self.boxes[b] is not None]

    def item(self, op, rng=None):
        i = len(self.items)
        c = color(i)
        t = self.target(op["box"], rng)
        k = op["kind"]
        kw = {}
        if k == "rect":
            return t.rect(**({"bg_color": c} if i % 2 else {"color": c}))
        if k == "ellipse":
            return t.ellipse(**({"bg_color": c} if i % 2 else {"color": c}))
        pts = [point(p, self.boxes) for p in op["pts"]]
        if k == "line":
            return t.line(pts, color=c)
        if k == "polygon":
            return t.polygon(pts, bg_color=c)
        if k == "path":
            cmds, j = [], 0
            for name, n in op["cmds"]:
                cmds.append((name,) + tuple(pts[j:j + n]))
                j += n
            return t.path(cmds, color=c)
        if k == "text":
            txt = "\n".join(("T%04d" % i + "x" * n)[:n] if li == 0 else "y" * n for li, n in enumerate(op["lens"]))
            import elsie
            return t.text(txt, elsie.TextStyle(size=op["size"] // K))
        if k == "png" and op.get("first"):
            path = os.path.join(self.env.new_dir(), "im.ora" if op.get("ora") else "im.png")
            self.fails_first(op["first"], path, lambda: t.image(path))
            if op.get("ora"):
                _ora(self.env, stack=b'<image w="4" h="3"><stack><layer src="l.png" name="a"/></stack></image>', to=path, layer=png(i))
            else:
                with open(path, "wb") as f:
                    f.write(png(i))
            return t.image(path)
        if k == "png":
            return t.image(io.BytesIO(png(i)) if i % 2 else png(i), image_type="png")
        if k == "svg":
            path = svg_file(self.env, i, op["isteps"])
            kw = {}
            if op["begin"] != 1:
                kw["show_begin"] = op["begin"]
            if op["mode"] == "nofrag":
                kw["fragments"] = False
            elif op["mode"] == "select":
                kw["select_fragments"] = [1] * op["isteps"]
            if op.get("first"):
                with open(path, "rb") as f:
                    data = f.read()
                os.remove(path)
                self.fails_first(op["first"], path, lambda: t.image(path, **kw))
                with open(path, "wb") as f:
                    f.write(data)
            return t.image(path, **kw)
        raise common.MachineryError(k)

    def fails_first(self, how, path, call):
        """the same call while its file is missing or broken"""
        if how == "broken":
            with open(path, "wb") as f:
                f.write(b"<svg width='10'")
        try:
            with quiet():
                call()
        except Exception:
            return
        self.err = "a call without a picture was accepted"

    def trace(self, svgs, err=""):
        """svgs: list of pages of this slide"""
        ps, ds = [], []
        err = err or self.err
        for svg in svgs:
            try:
                ps.append(self.page(svg))
                if self.debug:
                    ds.append(self.frames(svg))
            except Exception as e:
                err = err or "page: " + repr(e)[:300]
        return {"w": fx(self.slide.width), "h": fx(self.slide.height), "ops": list(self.ops), "pages": ps,
                "err": err, "nogeo": self.nogeo, "debug": self.debug, "name": self.name, "frames": ds}

    def page(self, svg):
        res = []
        for it in parse_page(svg)[1]:
            o = self.seen(it)
            if o:
                res.append(o)
        return res

    def frame(self, it):
        """a frame or a label of the debug mode"""
        k, a, s = it["kind"], it["attr"], it["style"]
        if s.get("stroke") == "#ff00ff" and s.get("fill") == "none" and k == "rect":
            return {"k": "f", "g": [fx(a[n]) for n in ("x", "y", "width", "height")], "dash": s.get("stroke-dasharray", "")}
        if k == "text" and s.get("fill") == "#ff00ff":
            t = "\n".join("".join(r[0] for r in l["runs"]) for l in it["lines"])
            name, _, size = t[1:].rpartition("[")
            m = re.match(r"^([\d.]+),([\d.]+)\]$", size)
            return {"k": "l", "g": [fx(a["x"]), fx(a["y"])], "wh": [fx(float(v)) for v in m.groups()] if m else [-1, -1],
                    "corner": {"\u2196": "top", "\u2199": "bottom"}.get(t[:1], t[:1]), "name": name}

    def frames(self, svg):
        """all that is drawn on a page of the debug mode"""
        return [self.frame(it) or {"k": "i", "i": (self.seen(it) or {"i": 0})["i"]} for it in parse_page(svg)[1]]

    def seen(self, it):
        k, a, s = it["kind"], it["attr"], it["style"]
        if self.debug and self.frame(it):
            return None
        if k == "text":
            t = "".join(r[0] for r in it["lines"][0]["runs"])
            i = int(t[1:5]) if re.match(r"T\d{4}", t) else 0
            return {"i": i, "g": [fx(a["x"]), fx(a["y"])]}
        if k == "image":
            href = [v for n, v in a.items() if n.endswith("href")][0]
            return {"i": unpng(href.split(",", 1)[1]) or 0, "g": []}
        if k in ("g", "svg"):
            m = re.search(r"'id': 'im(\d+)'", repr(it))
            n = None if m else re.search(r"base64,([A-Za-z0-9+/=]+)'", repr(it))
            return {"i": int(m.group(1)) if m else (unpng(n.group(1)) or 0) if n else 0, "g": []}
        if self.bg and self.bg in (s.get("fill"), s.get("stroke")):
            i = 1
        else:
            i = uncolor(s.get("fill"))
            i = i if i is not None else uncolor(s.get("stroke"))
        if i is None:
            i = 0
        if k == "rect":
            g = [fx(a[n]) for n in ("x", "y", "width", "height")]
        elif k == "ellipse":
            cx, cy, rx, ry = (float(a[n]) for n in ("cx", "cy", "rx", "ry"))
            g = [fx(cx - rx), fx(cy - ry), fx(2 * rx), fx(2 * ry)]
        elif k in ("polyline", "polygon"):
            g = [fx(v) for p in it["points"] for v in p]
        elif k == "path":
            g = [fx(v) for v in re.findall(r"-?\d+\.?\d*(?:e-?\d+)?", a["d"])]
        else:
            g = []
        return {"i": i, "g": g}


def box_op(par, **kw):
    op = {"op": "box", "par": par, "via": "box", "sel": NONE, "x": NONE, "y": NONE, "w": NONE, "h": NONE,
          "p": list(NOP), "hor": False, "zset": False, "z": 0, "prep": False, "ab": 0, "be": 0, "name": ""}
    op.update(kw)
    return op


def item_op(box, kind, **kw):
    op = {"op": "item", "box": box, "kind": kind, "pts": [], "cw": 0, "ch": 0, "size": 0, "steps": 0,
          "begin": 1, "end": 0}
    op.update(kw)
    return op


# ---------------------------------------------------------------- generation
class Gen:
    """Weights of the features a profile uses."""
    D = dict(show=0, badsel=0, badval=0, badplace=0, z=0, prep=0, abbe=0, explicit=0, pct=0, fill=0, minsz=0,
             pad=0, text=0, img=0, lazy=0, shapes=0, via=0, hor=0.4, name=0, bg=0, debug=0, reject=0, depth=4, n=(4, 14),
             points="pair", nogeo=False, floats=0.3, vb=0, item=0.45)

    def __init__(self, rng, **kw):
        self.r = rng
        self.c = dict(self.D)
        self.c.update(kw)

    def p(self, k):
        return self.r.random() < self.c[k]

    def selector(self):
        r = self.r
        x = r.random()
        if x < 0.12:
            return {"t": "int", "n": r.randint(1, 5)}

        def n():
            return str(r.randint(1, 5))

        def part():
            y = r.random()
            f = r.choice(["next", "last", n(), n(), n()])
            if y < 0.4:
                return f
            if y < 0.6:
                return f + "+"
            a = r.randint(1, 5)
            return "%s-%d" % (a if r.random() < 0.8 else "last", a + r.randint(0, 3))
        k = r.choice([1, 1, 1, 2, 2, 3])
        parts = [part() for _ in range(k)]
        seen = False
        for i, q in enumerate(parts):
            if q.endswith("+"):
                if seen:
                    parts[i] = q[:-1]
                seen = True
        s = ",".join((" " * r.choice([0, 0, 0, 1, 2])) + q + (" " * r.choice([0, 0, 0, 1])) for q in parts)
        return st(s)

    def bad_selector(self):
        r = self.r
        x = r.random()
        if x < 0.15:
            return {"t": "bad", "n": r.randrange(8)}
        if x < 0.5:
            return st(r.choice(["", ",", "1,", ",2", "a", "next-", "+", "-", "1-", "-2", "1--2", "3-2", "1+,2+", "2+,3+",
                                "next+,last+", "1 - 2", "1 2", "next2", "last1", "1++", "1+2", "2-next", "2-last",
                                "Next", "1;2", "1.5", "1-2-3", "nextnext", "all", "1-2+", "+1", "1,,2", " ", "next +",
                                "0x1", "1e1", "5-4", "next-1"]))
        s = list("".join(self.selector().get("s", ["1"])))
        for _ in range(r.randint(1, 2)):
            j = r.randint(0, len(s))
            if r.random() < 0.5 and s:
                s[j % len(s)] = r.choice("1234+-, nlx")
            else:
                s.insert(j, r.choice("124+-, nlx"))
        if any(int(v) > 12 for v in re.findall(r"\d+", "".join(s))):
            return st("2-1")
        return st("".join(s))

    def number(self, lo, hi):
        v = self.r.randint(lo, hi)
        if self.p("floats"):
            return num(v + self.r.choice([0.5, 0.25, 0.125]))
        return num(v) if self.r.random() < 0.7 else st(str(v))

    def size(self):
        r = self.r
        o = []
        if self.c["minsz"]:
            o += ["min"] * int(10 * self.c["minsz"])
        if self.c["pct"]:
            o += ["pct"] * int(10 * self.c["pct"])
        if self.c["fill"]:
            o += ["fill"] * int(10 * self.c["fill"])
        if not o or r.random() < 0.3:
            return NONE
        k = r.choice(o)
        if k == "min":
            return self.number(0, 160)
        if k == "pct":
            return st("%d%%" % r.choice([1, 5, 10, 20, 25, 30, 33, 50, 66, 80, 100]))
        return st(r.choice(["fill", "fill", "fill(1)", "fill(2)", "fill(3)", "fill(12)"]))

    def pos(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            v = self.number(0, 300)
            if r.random() < 0.12:
                v = num(-r.randint(1, 90))
            if r.random() < 0.15:
                v = num(0)
            return v
        if k < 0.65:
            return st("%d%%" % r.choice([0, 10, 25, 50, 75, 100, 130]))
        return st("[%d%%]" % r.choice([0, 10, 25, 50, 75, 100, 130]))

    def lazyval(self, refs, axis):
        r = self.r
        c = self.number(0, 120) if r.random() < 0.4 else st("%d%%" % r.choice([0, 20, 50, 100])) \
            if r.random() < 0.8 else st("[%d%%]" % r.choice([0, 50, 100, 250]))
        ops = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            ops.append({"o": "add", "n": fx(r.randint(-50, 50))} if r.random() < 0.8 else {"o": "mul", "n": r.choice([2, 1, -1])})
        return {"ref": r.choice(refs), "axis": axis, "c": c, "ops": ops}

    def point(self, s, box):
        r = self.r
        refs = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None]
        if self.c["points"] == "lazy" and r.random() < 0.75:
            how = r.choice(["xy", "p", "mid", "p"])
            x = self.lazyval(refs, "x")
            y = self.lazyval(refs, "y")
            if how != "xy":
                y["ref"] = x["ref"]
                n = r.choice([0, 0, 1, 2]) if how == "p" else r.choice([0, 1])
                x["ops"] = [{"o": "add", "n": fx(r.randint(-40, 40))} for _ in range(n)]
                y["ops"] = [{"o": "add", "n": fx(r.randint(-40, 40))} for _ in range(n)]
                if how == "mid":
                    x["c"] = y["c"] = st("50%")
            return {"t": "lazy", "x": x, "y": y, "how": how}
        return {"t": "pair", "x": self.pos() if r.random() < 0.8 else self.number(0, 99),
                "y": self.pos(), "how": r.choice(["tuple", "list"])}

    def box(self, s):
        r = self.r
        cand = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None]
        deep = {b: sum(1 for _ in iter_up(s, b)) for b in cand}
        cand = [b for b in cand if deep[b] <= self.c["depth"]]
        par = r.choice(cand + cand[-2:])
        op = box_op(par, hor=self.p("hor"))
        if self.p("prep"):
            op["prep"] = True
        if self.p("show"):
            op["sel"] = self.selector()
        if self.p("z"):
            op.update(zset=True, z=r.choice([-3, -1, 0, 0, 1, 1, 2, 5, -999999]))
        if self.p("abbe"):
            refs = [-i for i in range(1, len(s.items)) if s.items[i] is not None and s.ops_box(i) == par]
            refs += [b for b in cand if getattr(s, "par", {}).get(b) == par]
            if refs:
                op[r.choice(["ab", "be"])] = r.choice(refs)
        op["w"], op["h"] = self.size(), self.size()
        if self.p("explicit"):
            if r.random() < 0.7:
                op["x"] = self.pos()
            if r.random() < 0.7:
                op["y"] = self.pos()
        if self.p("lazy"):
            refs = s.earlier(par, op["prep"])
            if refs:
                if r.random() < 0.75:
                    op["x"] = {"t": "lazy", "lz": self.lazyval(refs, r.choice("xxxy"))}
                if r.random() < 0.75:
                    op["y"] = {"t": "lazy", "lz": self.lazyval(refs, r.choice("yyyx"))}
        if self.p("pad"):
            for _ in range(r.randint(1, 4)):
                op["p"][r.randrange(7)] = r.choice([0, 0, 3000, 7000, 12500, 20000])
        if self.p("via"):
            op["via"] = r.choice(["fbox", "sbox", "overlay"])
        if self.p("name"):
            op["name"] = r.choice(["a", "b", "root", "x y", "<&>", "a[1,2]"])
        # no explicitly positioned box that fills the main axis
        hor = s.hor(par)
        mx, mw = ("x", "w") if hor else ("y", "h")
        w = op[mw]
        if op[mx]["t"] != "none" and ((w["t"] == "str" and w["s"][:1] == ["f"]) or
                                      (op["via"] == "fbox" and w["t"] == "none")):
            op[mw] = num(40)
        return op

    def bad_box(self, s):
        r = self.r
        op = self.box(s)
        k = r.choice(["sel", "sel", "sel", "x", "y", "w", "h", "both", "foreign", "foreign2"])
        if not self.c["badval"] and k in "xywh":
            k = "sel"
        if not self.c["badplace"] and k in ("both", "foreign", "foreign2"):
            k = "sel"
        if k == "sel":
            op["sel"] = self.bad_selector()
        elif k in "xy":
            op[k] = r.choice([{"t": "bad", "n": r.choice([0, 1, 2, 3, 4, 6, 7])}] +
                             [st(q) for q in ("", "abc", "10px", "%", "[50]", "[50%", "50%]", "-5", "1.5", "fill", "5 %", "[%]", "++", " 5")])
        elif k in "wh":
            op[k] = r.choice([{"t": "bad", "n": r.choice([0, 2, 4, 6, 7])}] +
                             [st(q) for q in ("abc", "10px", "%", "[50%]", "-5", "1.5", "fill()", "fill(x)", "Fill", "fill(-1)", "fill 2",
                                              "full", "5 %", " 5", "fill(2)x")])
        elif k == "both":
            sib = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None and getattr(s, "par", {}).get(b) == op["par"]]
            op["ab"], op["be"] = (r.choice(sib), r.choice(sib)) if sib else (99, 99)
        else:
            others = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None and
                      (b == 1 or getattr(s, "par", {}).get(b) != op["par"])]
            op["ab"] = op["be"] = 0
            op[r.choice(["ab", "be"])] = 99 if k == "foreign" or not others else r.choice(others)
        if r.random() < 0.4:
            op["prep"] = True
        return op

    def item(self, s):
        r = self.r
        cand = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None]
        b = r.choice(cand)
        kinds = ["rect"] * 3 + ["ellipse"]
        if self.c["shapes"]:
            kinds += ["line", "polygon", "path"] * (1 + int(3 * self.c["shapes"]))
        if self.p("text"):
            kinds = ["text"]
        if self.p("img"):
            kinds = ["png", "svg", "svg"]
        k = r.choice(kinds)
        op = item_op(b, k)
        if k == "line":
            op["pts"] = [self.point(s, b) for _ in range(r.randint(2, 4))]
        elif k == "polygon":
            op["pts"] = [self.point(s, b) for _ in range(r.randint(3, 4))]
        elif k == "path":
            cmds = [["M", 1]] + [r.choice([["L", 1], ["Q", 2], ["C", 3], ["T", 1], ["S", 2], ["L", 2]])
                                 for _ in range(r.randint(1, 3))]
            op["cmds"] = cmds
            op["pts"] = [self.point(s, b) for _ in range(sum(n for _, n in cmds))]
        elif k == "text":
            size = r.choice([10, 20, 28])
            lens = [r.randint(5, 14)] + [r.randint(1, 14) for _ in range(r.choice([0, 0, 1, 2]))]
            op.update(size=size * K, lens=lens, cw=max(lens) * size * K // 2, ch=len(lens) * size * K * 12 // 10)
        elif k == "svg":
            n = r.randint(1, 4)
            op["isteps"] = n
            op["begin"] = r.choice([1, 1, 2, 3, 5])
            op["mode"] = r.choice(["frag", "frag", "nofrag", "select"])
            op["steps"] = op["begin"] - 1 + (1 if op["mode"] == "nofrag" else n)
            if op["mode"] == "select":
                op["end"] = op["begin"] + n - 1
        if k in ("png", "svg"):
            s.nogeo = True
            if self.c["reject"] and r.random() < 0.4:
                op["first"] = r.choice(["missing", "broken"])
                op["ora"] = r.random() < 0.4
        return op

    def reject(self, s):
        r = self.r
        texts = [i for i in range(1, len(s.items)) if s.items[i] is not None and hasattr(s.items[i], "inline_box")]
        if texts and r.random() < 0.3:
            i = r.choice(texts)
            return {"op": "reject", "box": s.ops_box(i), "item": i, "call": r.choice(sorted(ITEM_REJECTS))}
        cand = [b for b in range(1, len(s.boxes)) if s.boxes[b] is not None]
        return {"op": "reject", "box": r.choice(cand), "call": r.choice(sorted(REJECTS))}

    def op(self, s):
        if self.p("reject"):
            return self.reject(s)
        if self.p("badsel"):
            return self.bad_box(s)
        return self.item(s) if self.r.random() < self.c["item"] else self.box(s)


def iter_up(s, b):
    p = getattr(s, "par", {})
    while b > 1:
        yield b
        b = p.get(b, 1)


def _ops_box(self, i):
    n = 0
    for op in self.ops:
        if op["op"] == "item" and op["ok"]:
            n += 1
            if n == i:
                return op["box"]
    return 0


def _hor(self, b):
    n = 1
    if b == 1:
        return False
    for op in self.ops:
        if op["op"] == "box" and op["ok"]:
            n += 1
            if n == b:
                return op["hor"]
    return False


Slide.ops_box = _ops_box
Slide.hor = _hor


def random_traces(env, rng, profile, ndecks):
    """Decks with one to three interleaved slides -> traces"""
    res = []
    for _ in range(ndecks):
        res += deck_traces(env, rng, profile)
    return res


def deck_traces(env, rng, profile, programs=None):
    """Run given programs (lists of ops), or random ones, as interleaved slides of one deck."""
    g = Gen(rng, **profile)
    kw = {}
    if rng.random() < 0.5:
        kw = {"width": rng.choice([640, 800, 300]), "height": rng.choice([480, 333, 600])}
    if programs is not None:
        kw = {"width": 400, "height": 300}
    bg = lambda: "#b00b00" if g.p("bg") else None
    deck_bg = bg()
    if deck_bg:
        kw["bg_color"] = deck_bg
    deck = env.deck(**kw)
    n = len(programs) if programs is not None else rng.choice([1, 1, 2, 3])
    # a background of the slide itself goes before the one of the deck
    own = lambda: rng.choice([None, "#c0ffee"]) if deck_bg else bg()
    slides = [Slide(env, deck, own(), deck_bg=deck_bg, debug=g.p("debug"), name="s %d" % i if g.p("name") else None) for i in range(n)]
    for s in slides:
        s.nogeo = g.c["nogeo"]
    res = []
    if programs is not None:
        for s, prog in zip(slides, programs):
            for op in prog:
                op = dict(op)
                op["name"] = ""
                if not s.do(op) and op["op"] not in ("box", "reject"):
                    break
            if not any(o["op"] == "item" for o in prog):   # make every box visible
                for b in range(1, len(s.boxes)):
                    s.do(item_op(b, "rect"))
    else:
        left = [rng.randint(*g.c["n"]) for _ in slides]
        while any(left):
            i = rng.choice([i for i, v in enumerate(left) if v])
            left[i] -= 1
            slides[i].do(g.op(slides[i]), rng)
            if any(left) and rng.random() < 0.06:     # a render on the way is a history of its own
                res += snapshot(deck, slides)
    return res + snapshot(deck, slides)


def snapshot(deck, slides):
    res = []
    svgs, err = None, ""
    try:
        svgs = pages(deck)
    except Exception as e:
        err = "render: " + repr(e)[:300]
    k = 0
    for j, s in enumerate(slides):
        if svgs is None:
            res.append(s.trace([], err))
            continue
        try:
            m = s.boxes[1].current_fragment()
            mine = svgs[k:k + m] if j < len(slides) - 1 else svgs[k:]
            k += m
        except Exception:
            mine = []
        res.append(s.trace(mine))
    return res
