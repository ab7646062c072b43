"""Histories of slide decks executed on the real code and recorded as traces for spec/DeckTrace.tla."""
import hashlib, io, json, os, random, re, sys, types, base64
import lxml.etree as et
from elsie_env import Env, quiet, fx, pdf_pages, K
from slideprog import color, uncolor, svg_file, png


def ext_pdf(path, tok, n, size=(300, 200)):
    objs = ["<< /Type /Catalog /Pages 2 0 R >>",
            "<< /Type /Pages /Count %d /Kids [%s] >>" % (n, " ".join("%d 0 R" % (3 + 2 * i) for i in range(n)))]
    for i in range(n):
        c = "%%EXT:%d\n" % (tok * 100 + i + 1)
        objs.append("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %d %d] /Resources << >> /Contents %d 0 R >>"
                    % (size[0], size[1], 4 + 2 * i))
        objs.append("<< /Length %d >>\nstream\n%s\nendstream" % (len(c), c))
    out, offs = b"%PDF-1.4\n", []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += ("%d 0 obj\n%s\nendobj\n" % (i + 1, o)).encode()
    x = len(out)
    out += ("xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1)).encode()
    out += b"".join(b"%010d 00000 n \n" % o for o in offs)
    out += ("trailer << /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, x)).encode()
    with open(path, "wb") as f:
        f.write(out)


def ids_of(root):
    res = []
    for e in root:
        if not isinstance(e.tag, str):
            continue
        st = dict(i.split(":", 1) for i in (e.get("style") or "").split(";") if ":" in i)
        i = uncolor(st.get("fill"))
        if i is None:
            i = uncolor(st.get("stroke"))
        if i is not None and et.QName(e).localname == "rect":
            res.append(i)
    return res


def num(v):
    m = re.match(r"^-?[\d.]+(e-?\d+)?$", v or "")
    return fx(v) if m else -999999


def read_page(data, grid):
    """SVG text or raw PDF content -> output page record"""
    if data.startswith("CAIRO:"):
        p = json.loads(data[6:])
        return {"ext": p["ext"], "w": p["w"], "h": p["h"], "part": p.get("part", False),
                "cells": [{"x": 0, "y": 0, "w": p["w"], "h": p["h"], "ids": p["ids"]}]}
    return dict(read_svg_page(data, grid), part=False)


def read_svg_page(data, grid):
    m = re.search(r"%EXT:(\d+)", data)
    if m and "<svg" not in data:
        return {"ext": True, "w": 0, "h": 0, "cells": [{"x": 0, "y": 0, "w": 0, "h": 0, "ids": [int(m.group(1))]}]}
    root = et.fromstring(data.encode())
    w, h = num(root.get("width")), num(root.get("height"))
    if not grid:
        return {"ext": False, "w": w, "h": h, "cells": [{"x": 0, "y": 0, "w": w, "h": h, "ids": ids_of(root)}]}
    cells = []
    for g in root:
        t = re.match(r"^translate\(\s*(-?[\d.]+)[ ,]+(-?[\d.]+)\s*\)$", g.get("transform", "translate(0, 0)"))
        inner = g[0] if len(g) else g
        c = {"x": fx(t.group(1)) if t else -1, "y": fx(t.group(2)) if t else -1,
             "w": num(inner.get("width")), "h": num(inner.get("height")), "ids": ids_of(inner)}
        cells.append(c)
    return {"ext": False, "w": w, "h": h, "cells": cells}


RICH = ["text", "fit", "code", "svg", "png", "list", "md", "line_box", "ellipse", "poly", "style", "path"]


def add_rich(env, box, kind, i):
    import elsie
    with quiet():
        if kind == "text":
            box.box().text("some ~emph{text %d}\nsecond ~tt{line}" % i)
        elif kind == "fit":
            box.box(width="30%", height="10%").text("scaled %d\nxx" % i, scale_to_fit=True)
        elif kind == "code":
            box.box().code("python", "def f%d(x):\n    return x + 1  # c" % i, line_numbers=i % 2 == 0)
        elif kind == "svg":
            box.box(width=50, height=40).image(svg_file(env, 0, 1), scale=None if i % 2 else 0.5)
        elif kind == "png":
            box.box(width=20, height=30).image(png(i), image_type="png")
        elif kind == "list":
            from elsie.ext import ordered_list
            lst = ordered_list(box.box())
            lst.item().text("item %d" % i)
            lst.ol().item().text("sub")
        elif kind == "md":
            from elsie.ext import markdown
            markdown(box.box(), "# T%d\n\ntext *a* **b**\n\n- x\n- y" % i)
        elif kind == "line_box":
            t = box.box(width="20%", height="10%").text("ab ~emph{cd}\nef%d" % i, scale_to_fit=i % 2 == 0)
            t.line_box(1).rect(color="black")
            t.inline_box("emph").rect(color="black")
        elif kind == "style":
            box.update_style("emph", elsie.TextStyle(size=10 + i % 30, bold=i % 2 == 0))
            box.set_style("s%d" % i, elsie.TextStyle(color="blue"))
            box.text("~emph{ab} ~s%d{x}" % i)
        elif kind == "path":
            b = box.box(width=30, height=20)
            b.path([("M", (i % 7, 3)), ("Q", b.p("50%", 0), ("100%", 9))], color="black", end_arrow=elsie.Arrow(4, stroke_width=i % 3 or None))
            box.line([(1, 2), b.mid_point(), (50, i)], start_arrow=elsie.Arrow(5), end_arrow=elsie.Arrow(3))
        elif kind == "ellipse":
            box.box(width="10%", height=20).ellipse(color="black", rotation=i)
        else:
            b = box.box(width=30, height=20)
            b.polygon([b.p(0, 0), b.p("100%", i), (3, 4)], color="black")
            box.line([b.mid_point(), (i, 5)])


def real(name):
    """"" stands for no name, (empty) for the name that is the empty string"""
    return "" if name == "(empty)" else name or None


def cairo_pdf(path):
    """Pages of a PDF written by the Cairo backend or joined from such ones and external ones"""
    from PyPDF2 import PdfFileReader
    from PyPDF2.pdf import ContentStream
    out = []
    with open(path, "rb") as fh:
        r = PdfFileReader(fh, strict=False)
        for i in range(r.getNumPages()):
            page = r.getPage(i)
            bx = [float(v) for v in page.mediaBox]
            ids, md = [], hashlib.md5()

            def run(content, res):
                stack, g = [], {"f": None, "s": None}
                data = content.getData() if hasattr(content, "getData") else b"".join(c.getObject().getData() for c in content)
                md.update(data)
                for args, op in ContentStream(content, r).operations:
                    op = op.decode() if isinstance(op, bytes) else op
                    if op == "q":
                        stack.append(dict(g))
                    elif op == "Q":
                        g = stack.pop()
                    elif op in ("rg", "RG"):
                        c = "#%02x%02x%02x" % tuple(round(float(a) * 255) for a in args)
                        g["f" if op == "rg" else "s"] = uncolor(c)
                    elif op in ("g", "G"):
                        g["f" if op == "g" else "s"] = None
                    elif op in ("f", "F", "f*", "B", "B*", "b", "b*", "S", "s"):
                        if op[0] in "fFBb" and (g["f"] or 0) > 0:
                            ids.append(g["f"])
                        if op[0] in "SsBb" and (g["s"] or 0) > 0:
                            ids.append(g["s"])
                    elif op == "Do":
                        x = res["/XObject"][args[0]].getObject()
                        if x["/Subtype"] == "/Form":
                            run(x, x.get("/Resources", res).getObject())
                        else:
                            md.update(x.getData())
            raw = page["/Contents"].getObject()
            raw = raw.getData() if hasattr(raw, "getData") else b"".join(c.getObject().getData() for c in raw)
            m = re.search(rb"%EXT:(\d+)", raw)
            if m:
                out.append({"ext": True, "w": 0, "h": 0, "ids": [int(m.group(1))], "md": ""})
                continue
            run(page["/Contents"].getObject(), page["/Resources"].getObject())
            out.append({"ext": False, "w": fx((bx[2] - bx[0]) * 4 / 3), "h": fx((bx[3] - bx[1]) * 4 / 3), "ids": ids, "md": md.hexdigest()})
    return ["CAIRO:" + json.dumps(p) for p in out]


def cairo_png(path):
    """A PNG page: the colour of the slide's first item in its corner"""
    from PIL import Image
    img = Image.open(path).convert("RGBA")
    w, h = img.size
    c = img.getpixel((w - 4, h - 4))
    i = uncolor("#%02x%02x%02x" % c[:3]) if c[3] == 255 else None
    return "CAIRO:" + json.dumps({"ext": False, "w": fx(w), "h": fx(h), "ids": [-1 if i is None else i], "part": True,
                                  "md": hashlib.md5(img.tobytes()).hexdigest()})


class Presentation:
    """Stands in for the pptx library: the pictures of the saved presentation, each filling a blank slide"""
    slide_width, slide_height = 9144000, 6858000
    saved = {}

    def __init__(self):
        self.slide_layouts = [types.SimpleNamespace(name=n) for n in ("Title Slide", "Blank", "Picture with Caption")]
        self.pictures = []
        self.slides = self

    def add_slide(self, layout):
        pics = []
        self.pictures.append((layout.name, pics))

        def add_picture(image, left, top, width=None, height=None):
            with open(image, "rb") as f:
                f.read()
            pics.append((image, left, top, width, height))
        return types.SimpleNamespace(shapes=types.SimpleNamespace(add_picture=add_picture))

    def save(self, filename):
        Presentation.saved[filename] = list(self.pictures)


def pptx_pages(deck, path, kw, read):
    old = sys.modules.get("pptx")
    sys.modules["pptx"] = types.SimpleNamespace(Presentation=Presentation)
    try:
        from elsie.ext.export import export_pptx
        Presentation.saved.pop(path, None)
        export_pptx(deck, path, **kw)
        out = []
        for layout, pics in Presentation.saved.pop(path):
            if layout != "Blank" or len(pics) != 1 or pics[0][1:] != (0, 0, Presentation.slide_width, Presentation.slide_height):
                raise Exception("a slide of the presentation is not filled by one picture: %r" % (pics,))
            out.append(read(pics[0][0]))
        return out
    finally:
        if old is None:
            sys.modules.pop("pptx")
        else:
            sys.modules["pptx"] = old


class DeckRun:
    def __init__(self, env, policy, w=320, h=200, cache_dir=None, files=None, cairo=False, **kw):
        self.env, self.policy, self.w, self.h = env, policy, w, h
        self.dir = env.new_dir()
        with open(os.path.join(cache_dir or self.dir, "cache.0123456789.pdf"), "w") as f:
            f.write("left by an earlier deck")
        self.cairo = cairo
        if cairo:
            from elsie_env import CairoBackend
            kw["backend"] = CairoBackend(cache_dir=cache_dir or self.dir)
        self.ops = []
        self.files = files if files is not None else {}
        self.left = []
        self.created = True
        self.debug = bool(kw.get("debug"))
        self.slides = {}
        self.ext = {}
        self.order = []   # alive tokens as far as the real deck is concerned is not needed
        try:
            self.deck = env.deck(width=w, height=h, name_policy=policy, cache_dir=cache_dir or self.dir, **kw)
        except Exception as e:
            self.created = False
            self.exc = repr(e)

    def new(self, op):
        op = dict(op)
        name = real(op["name"])
        if not op["strname"]:
            name = 5
        try:
            if op["deco"]:
                def fn(slide):
                    slide.rect(bg_color=color(op["id"]))
                    self.slides[op["tok"]] = slide
                if op.get("explicit") or not name:
                    fn.__name__ = "other"
                    s = self.deck.slide(name)(fn)
                else:
                    fn.__name__ = name
                    s = self.deck.slide()(fn)
                self.obj(op["tok"]).append(s)
            else:
                b = self.deck.new_slide(name)
                b.rect(bg_color=color(op["id"]))
                self.slides[op["tok"]] = b
            op["ok"] = True
        except Exception as e:
            op["ok"] = False
            op["exc"] = repr(e)[:200]
        self.ops.append(op)
        return op["ok"]

    def obj(self, tok):
        return self.__dict__.setdefault("objs", {}).setdefault(tok, [])

    def pdf(self, op):
        op = dict(op, ok=True)
        path = self.files.get(op["tok"])
        if path is None:
            path = os.path.join(self.dir, "ext%d.pdf" % op["tok"])
            ext_pdf(path, op["tok"], op["pages"])
            self.files[op["tok"]] = path
        self.deck.add_pdf(path)
        self.ext[op["tok"]] = path
        self.ops.append(op)

    def put(self, box, op):
        last = self.__dict__.setdefault("last", {})
        # Cairo leaves out what has no area or lies outside of the page
        kw = dict(x=9, y=7, width=8, height=3) if self.cairo else {}
        if op["frag"]:
            box.box(show="next+", **kw).rect(bg_color=color(op["id"]))
            last.pop(box, None)
        elif op["id"] % 3 == 1:                 # an item right on the slide
            box.rect(color=color(op["id"]))
            last.pop(box, None)
        elif op["id"] % 3 == 2 and box in last:  # an item in a box of the slide
            last[box].rect(color=color(op["id"]))
        else:
            last[box] = box.box(**(kw or {"width": "fill"}))
            last[box].rect(color=color(op["id"]))
        if op.get("rich"):
            last.pop(box, None)
        for i, k in enumerate(op.get("rich", [])):
            add_rich(self.env, box, k, op["id"] + i)

    def item(self, op):
        op = dict(op, ok=True)
        try:
            self.put(self.slides[op["tok"]], op)
        except Exception as e:
            op["ok"] = False
            op["exc"] = repr(e)[:200]
        self.ops.append(op)

    def get(self, name):
        s = self.deck.get_slide_by_name(real(name))
        got = 0
        for t, b in self.slides.items():
            if s is not None and (s is b or s is getattr(b, "slide", None)):
                got = t
        self.ops.append({"op": "get", "name": name, "got": got if s is None or got else -1})

    def run_render(self, op, post_adds=None):
        """-> (pages as data, calls, early)"""
        from elsie.render.jupyter import render_slide_html
        deck, view = self.deck, op["view"]
        kw = {"prune_cache": op["prune"], "save_cache": op["save"]}
        calls, early = [], [False]
        rendering = [False]
        if op["hassel"]:
            kw["select_slides"] = [self.slides[t].slide for t in op["sel"]]
        if op["a"]:
            kw["slides_per_page"] = (op["a"], op["b"])
        if op["post"]:
            before = set(os.listdir(deck.fs_cache.cache_dir))

            def post(roots):
                toks = []
                for r in roots:
                    t = [t for t, b in self.slides.items() if b is r]
                    toks.append(t[0] if t else 0)
                calls.append(toks)
                if set(os.listdir(deck.fs_cache.cache_dir)) - before:
                    early[0] = True
                if len(calls) == 1:
                    for a in op["adds"]:
                        if a["tok"] in toks:
                            self.put(self.slides[a["tok"]], a)
            kw["slide_postprocessing"] = post
        out = []
        with quiet():
            if self.cairo:
                if view == "units":
                    for u in deck.render(output=None, return_units=True, **kw):
                        out += cairo_pdf(u.export(deck.fs_cache, "pdf"))
                elif view in ("pypdf", "pdfunite"):
                    path = os.path.join(self.dir, "out.pdf")
                    if os.path.exists(path):
                        os.unlink(path)
                    deck.render(path, pdf_merger=view, **kw)
                    out = cairo_pdf(path)
                elif view == "pdflist":
                    for f in deck.render(None, pdf_merger=None, **kw):
                        out += cairo_pdf(f)
                elif view == "pptx":
                    out = pptx_pages(deck, os.path.join(self.dir, "out.pptx"), kw, cairo_png)
                elif view == "html":
                    for b in re.findall(r"<img [^>]*base64,\s*([A-Za-z0-9+/=\s]+)", self.slides[op["sel"][0]].slide._repr_html_()):
                        out.append(cairo_png(io.BytesIO(base64.b64decode(b))))
                else:
                    out = [cairo_png(f) for f in deck.render(None, export_type="png", **kw)]
            elif view == "units":
                for u in deck.render(output=None, return_units=True, **kw):
                    s = u.get_svg()
                    if s is not None:
                        out.append(s)
                    else:
                        out += [p[0] for p in pdf_pages(u.export(deck.fs_cache, "pdf"))]
            elif view in ("pypdf", "pdfunite"):
                path = os.path.join(self.dir, "out.pdf")
                if os.path.exists(path):
                    os.unlink(path)
                deck.render(path, pdf_merger=view, **kw)
                out = [p[0] for p in pdf_pages(path)]
            elif view == "pdflist":
                for f in deck.render(None, pdf_merger=None, **kw):
                    out += [p[0] for p in pdf_pages(f)]
            elif view == "pptx":
                out = pptx_pages(deck, os.path.join(self.dir, "out.pptx"), kw, read_export)
            elif view in ("png", "svg"):
                for f in deck.render(None, export_type=view, **kw):
                    out.append(read_export(f))
            else:
                html = render_slide_html(self.slides[op["sel"][0]].slide, "svg") if view == "htmlsvg" else \
                    self.slides[op["sel"][0]].slide._repr_html_()
                for m in re.finditer(r"<div class='elsie-step[^']*'>(.*?)</div>", html, re.S):
                    c = m.group(1)
                    b = re.search(r"base64,\s*([A-Za-z0-9+/=\s]+)", c)
                    out.append(read_bytes(base64.b64decode(b.group(1))) if b and "<img" in c else c)
        return out, calls, early[0]

    FAILS = ["view_box", "none", "per_page", "merger", "post", "dir", "foreign"]

    def fail(self, op):
        """A call that cannot be carried out; op["how"]: why"""
        rng = random.Random(op["seed"])
        how, deck = op["how"], self.deck
        alive = alive_tokens(self)
        exts = [self.ext[t] for t in alive if t in self.ext]
        if how in ("missing-pdf", "broken-pdf", "export-ext") and not exts or how == "cairo-grid" and not self.cairo:
            how = "none"
        if how == "view_box":
            how = rng.choice([(1, 2, 3), [0, 0, 10, 10], "0 0 10 10", (0, 0, "10", 10), (0, 0, 10, 10, 1), (0, 0, 10, None), 5])
            name = rng.choice(["a", "b", "c", "d", "sl", "new"])
            fn = (lambda: deck.slide(name, view_box=how)(lambda s: None)) if rng.random() < .3 else \
                (lambda: deck.new_slide(name, view_box=how))
            how = "view_box"
        path = os.path.join(self.dir, "kept.pdf")
        with open(path, "wb") as f:
            f.write(b"%PDF of an earlier render")
        cache = deck.fs_cache.cache_dir
        before = {n for n in os.listdir(cache) if n.startswith("cache.")}
        calls = []
        kw = {"pdf_merger": "pypdf", "prune_cache": rng.random() < .5, "save_cache": rng.random() < .5}
        if rng.random() < .5 and how in ("none", "per_page"):
            kw["slide_postprocessing"] = lambda roots: calls.append(1)
        out, kept = path, None
        if how == "none":
            if alive or rng.random() < .5:
                kw["select_slides"] = rng.choice([[], ()])
        elif how == "per_page":
            kw["slides_per_page"] = rng.choice([(1,), (1, 2, 3), ("1", 2), (2, 1.5), (None, 2), 3, (2, "1")])
        elif how == "merger":
            kw["pdf_merger"] = rng.choice(["nope", "", "PyPDF", 1])
        elif how == "post":
            def post(roots):
                raise ValueError("postprocessing")
            kw["slide_postprocessing"] = post
        elif how == "dir":
            out = os.path.join(self.dir, "no", "such", "folder.pdf")
        elif how == "foreign":
            kw["select_slides"] = [b.slide for b in self.slides.values()][:1] + [rng.choice(["a", 1, None])]
        elif how == "cairo-grid":
            kw["slides_per_page"] = (2, 2)
        elif how in ("missing-pdf", "broken-pdf"):
            kept = rng.choice(exts)
            with open(kept, "rb") as f:
                data = f.read()
            if how == "missing-pdf":
                os.remove(kept)
            else:
                with open(kept, "wb") as f:
                    f.write(data[:rng.choice([0, 3, 40])])
        elif how == "export-ext":
            kw["export_type"] = rng.choice(["png", "svg"])
        op = dict(op, ok=True, exc="")
        try:
            with quiet():
                if how == "view_box":
                    fn()
                else:
                    deck.render(out, **kw)
        except Exception as e:
            op["ok"] = False
            op["exc"] = repr(e)[:200]
        if kept:
            with open(kept, "wb") as f:
                f.write(data)
        op["kept"] = False
        if os.path.isfile(path):
            with open(path, "rb") as f:
                op["kept"] = f.read() == b"%PDF of an earlier render"
        op["cache"] = before <= set(os.listdir(cache))
        op["post"] = bool(calls)
        self.ops.append(op)

    def debug_files(self, data):
        """The SVG files left by the debugging mode; the ones of this render have to show its pages"""
        res = []
        folder = self.deck.fs_cache.cache_dir
        for n in sorted(os.listdir(folder)):
            if not n.endswith(".svg") or n.startswith("cache."):
                continue
            m = re.match(r"^(\d+)-(\d+)\.svg$", n)
            path = os.path.join(folder, n)
            with open(path) as f:
                text = f.read()
            fresh = os.stat(path).st_mtime > 5
            os.utime(path, (0, 0))
            try:
                ids = ids_of(et.fromstring(text.encode()))
            except et.XMLSyntaxError:
                ids = [-1]
            res.append({"no": int(m.group(1)) if m else -1, "f": int(m.group(2)) if m else -1, "ids": ids,
                        "same": not fresh or any(text in d for d in data)})
        return res

    def render(self, op, twin=None):
        op = dict(op, ok=True, out=[], calls=[], early=False, digest="", twin="", dbg=[])
        op.setdefault("adds", [])
        try:
            data, op["calls"], op["early"] = self.run_render(op)
            op["out"] = [read_page(d, op["a"] * op["b"] > 1) for d in data]
            op["digest"] = digest(data)
            if not self.cairo:
                op["dbg"] = self.debug_files(data)
        except Exception as e:
            op["ok"] = False
            op["exc"] = repr(e)[:300]
        if twin is not None and op["ok"]:
            try:
                op["twin"] = digest(twin(op))
            except Exception as e:
                op["twin"] = "error " + repr(e)[:200]
        self.ops.append(op)

    def twin(self, op):
        """The same deck built without any render before"""
        r = DeckRun(self.env, self.policy, self.w, self.h, files=self.files, cairo=self.cairo)
        for o in self.ops:
            if o["op"] == "new":
                r.new(o)
            elif o["op"] == "pdf":
                r.pdf(o)
            elif o["op"] == "item":
                r.put(r.slides[o["tok"]], o)
            elif o["op"] == "render" and o["post"]:
                for a in o["adds"]:
                    r.put(r.slides[a["tok"]], a)
        if op["post"]:
            for a in op["adds"]:
                r.put(r.slides[a["tok"]], a)
        o2 = dict(op, post=False, prune=False, save=False)
        return r.run_render(o2)[0]

    def trace(self):
        ops = []
        for o in self.ops:
            o = dict(o)
            o.pop("rich", None)
            if "adds" in o:
                o["adds"] = [{"tok": a["tok"], "id": a["id"], "frag": a["frag"]} for a in o["adds"]]
            ops.append(o)
        return {"policy": self.policy, "w": fx(self.w), "h": fx(self.h), "ops": ops, "created": self.created,
                "debug": self.debug and not self.cairo, "left": self.left}


def read_bytes(b):
    if b.startswith(b"FAKE-"):
        return base64.b64decode(b.split(b":")[2]).decode()
    return b.decode()


def read_export(path):
    with open(path, "rb") as f:
        return read_bytes(f.read())


def digest(data):
    return hashlib.md5(json.dumps(data).encode()).hexdigest()


# ------------------------------------------------------------------ generation
def render_op(rng, run, views, mode):
    alive = [t for t in alive_tokens(run)]
    if run.cairo:      # no SVG pages, and no grids
        views = [v for v in views if v in ("units", "pypdf", "pdfunite", "pdflist", "png", "pptx", "html")]
        mode = dict(mode, grid=0)
    slides = [t for t in alive if t in run.slides]
    view = rng.choice(views)
    hassel = bool(slides) and (view in ("html", "htmlsvg") or rng.random() < mode.get("sel", .3))
    sel = []
    if hassel:
        k = 1 if view.startswith("html") else rng.randint(1, min(4, len(slides)))
        sel = [rng.choice(slides) for _ in range(k)] if rng.random() < .3 else rng.sample(slides, min(k, len(slides)))
    if not hassel and any(t in run.ext for t in alive) and view in ("png", "svg", "pptx"):
        view = "units"
    if view.startswith("html") and not hassel:
        view = "units"
    a = b = 0
    if rng.random() < mode.get("grid", .2) and not view.startswith("html"):
        a, b = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (4, 1), (3, 3)])
    post = rng.random() < mode.get("post", .1) and not view.startswith("html")
    op = {"op": "render", "view": view, "hassel": hassel, "sel": sel, "a": a, "b": b, "post": post, "adds": [],
          "prune": rng.random() < .3, "save": rng.random() < .5}
    return op


def alive_tokens(run):
    """Tokens of the slides that should be in the deck (mirrors the policies; only steers generation)."""
    s = []
    for o in run.ops:
        if o["op"] == "new" and o["ok"]:
            if run.policy == "replace":
                s = [x for x in s if x[1] != o["name"]]
            s.append((o["tok"], o["name"]))
        elif o["op"] == "pdf":
            s.append((o["tok"], None))
    return [x[0] for x in s]


def random_history(env, rng, mode):
    policy = rng.choice(mode.get("policies", ["auto", "ignore", "unique", "replace"]))
    kw = {}
    if rng.random() < mode.get("debug", .15):
        kw["debug"] = True
    if rng.random() < mode.get("badpolicy", 0):
        policy = rng.choice(["", "Unique", "none", "rename", "AUTO"])
    if rng.random() < mode.get("cairo", 0):
        kw["cairo"] = True
    run = DeckRun(env, policy, rng.choice([320, 333, 640]), rng.choice([200, 251]), **kw)
    if not run.created:
        return run
    n = rng.randint(*mode.get("n", (4, 14)))
    nid = 0
    names = ["a", "b", "c", "sl", ""] + ["(empty)"] * rng.randint(0, 1)
    twins = mode.get("twin", 0)
    for _ in range(n):
        nid += 1
        x = rng.random()
        alive = alive_tokens(run)
        slides = [t for t in alive if t in run.slides]
        if rng.random() < mode.get("fail", 0):
            hows = run.FAILS + ["missing-pdf", "broken-pdf", "export-ext", "cairo-grid"]
            run.fail({"op": "fail", "how": rng.choice(hows if alive else ["view_box", "none", "none", "per_page"]), "seed": rng.getrandbits(30)})
            continue
        if not alive or x < mode.get("new", .3):
            deco = rng.random() < .3
            name = rng.choice(names)
            if deco and not name:
                name = "a"
            if policy == "replace" and rng.random() < .8 and not name:
                name = "d"
            strname = rng.random() > mode.get("badname", .03) or deco
            run.new({"op": "new", "name": name if strname else "a", "strname": strname, "deco": deco,
                     "explicit": rng.random() < .4, "tok": nid, "id": nid})
        elif x < mode.get("new", .3) + mode.get("pdf", .1):
            run.pdf({"op": "pdf", "tok": nid, "pages": rng.randint(1, 3)})
        elif slides and x < .7:
            rich = [rng.choice(RICH) for _ in range(rng.randint(0, 2))] if mode.get("rich") else []
            run.item({"op": "item", "tok": rng.choice(slides), "id": nid, "frag": rng.random() < .6, "rich": rich})
        elif x < .76:
            run.get(rng.choice(["a", "b", "c", "zz"] + names[5:]))
        else:
            op = render_op(rng, run, mode["views"], mode)
            nid = adds(rng, run, op, nid)
            run.render(op, twin=run.twin if rng.random() < twins else None)
    for _ in range(mode.get("final", 1)):
        if alive_tokens(run):
            op = render_op(rng, run, mode["views"], mode)
            nid = adds(rng, run, op, nid + 1)
            run.render(op, twin=run.twin if twins else None)
    return run


def adds(rng, run, op, nid):
    if op["post"]:
        toks = op["sel"] if op["hassel"] else [t for t in alive_tokens(run) if t in run.slides]
        for t in dict.fromkeys(toks):
            if rng.random() < .7:
                nid += 1
                op["adds"].append({"tok": t, "id": nid, "frag": rng.random() < .5})
    return nid


def again(env, run, shift=5000):
    """The history once more, by another deck in the folder of the first one; only the contents of its pages differ"""
    r = DeckRun(env, run.policy, run.w, run.h, cache_dir=run.dir, files=run.files, debug=True)
    r.left = r.debug_files([])
    for op in run.ops:
        op = dict(op)
        if op["op"] in ("new", "item"):
            op["id"] += shift
        if op["op"] == "render" and "adds" in op:
            op["adds"] = [dict(a, id=a["id"] + shift) for a in op["adds"]]
        {"new": r.new, "pdf": r.pdf, "item": r.item, "render": r.render}.get(op["op"], lambda o: r.get(o["name"]))(op)
    return r


def given_history(env, rng, policy, prog, mode):
    run = DeckRun(env, policy, 320, 200, cairo=rng.random() < mode.get("cairo", 0), **({"debug": True} if mode.get("debug") else {}))
    for op in prog:
        if op["op"] == "new":
            run.new(dict(op, explicit=rng.random() < .5))
        elif op["op"] == "pdf":
            run.pdf(op)
        elif op["op"] == "fail":
            run.fail(dict(op, seed=rng.getrandbits(30)))
        else:
            run.item(op)
    for name in ("a", "b"):
        run.get(name)
    nid = 1000
    for _ in range(2):
        if alive_tokens(run):
            op = render_op(rng, run, mode["views"], mode)
            nid = adds(rng, run, op, nid)
            run.render(op, twin=run.twin if mode.get("twin") else None)
    return run
