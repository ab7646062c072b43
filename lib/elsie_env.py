"""Access to the real code under /repo with the fake Inkscape."""
import contextlib, io, json, os, re, sys, tempfile, base64, warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = os.path.join(HERE, "fake_inkscape.py")
REPO = os.environ.get("DEV_REPO", "/repo")   # DEV_REPO: only for development of the checks
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ["ELSIE_INKSCAPE"] = FAKE
import common  # noqa
import elsie  # noqa
assert elsie.__file__.startswith(REPO + "/"), elsie.__file__
import lxml.etree as et  # noqa
from elsie.render.backends import InkscapeBackend, CairoBackend  # noqa

SVG = "{http://www.w3.org/2000/svg}"
LABEL = "{http://www.inkscape.org/namespaces/inkscape}label"


class Env:
    """One worker's environment: scratch directory, a fake Inkscape process, quiet stdout."""

    def __init__(self, name="w"):
        self.dir = tempfile.mkdtemp(prefix=name, dir=common.scratch())
        self._shell = None
        self.n = 0

    def new_dir(self):
        self.n += 1
        d = os.path.join(self.dir, "d%d" % self.n)
        os.makedirs(d)
        return d

    def conf(self, **kw):
        p = os.path.join(self.dir, "conf%d.json" % self.n)
        self.n += 1
        with open(p, "w") as f:
            json.dump(kw, f)
        return p

    @property
    def shell(self):
        if self._shell is None or self._shell.process.poll() is not None:
            os.environ.pop("FAKE_INKSCAPE_CONF", None)
            from elsie.render.inkscape import InkscapeShell
            self._shell = InkscapeShell(FAKE)
        return self._shell

    def backend(self, cache_dir=None, shell=None):
        return InkscapeBackend(inkscape=shell or self.shell, cache_dir=cache_dir or self.new_dir())

    def deck(self, cache_dir=None, backend=None, **kw):
        cache_dir = cache_dir or self.new_dir()
        with quiet():
            return elsie.SlideDeck(backend=backend or self.backend(cache_dir), cache_dir=cache_dir, **kw)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def pages(deck, **kw):
    """SVG strings of the pages of a deck."""
    kw.setdefault("prune_cache", False)
    kw.setdefault("save_cache", False)
    with quiet():
        units = deck.render(output=None, return_units=True, **kw)
    return [u.get_svg() for u in units]


def style_dict(s):
    return {k.strip(): v.strip() for k, v in (i.split(":", 1) for i in (s or "").split(";") if ":" in i)}


K = 1000


def fx(v):
    """Fixed point."""
    return int(round(float(v) * K))


def parse_page(svg):
    """-> (attrs of root, list of drawn items in paint order). Groups are kept as items of kind 'g'."""
    root = et.fromstring(svg.encode() if isinstance(svg, str) else svg)
    return dict(root.attrib), [parse_item(e) for e in root if isinstance(e.tag, str)]


def parse_item(e):
    tag = et.QName(e).localname
    d = {"kind": tag, "attr": dict(e.attrib), "style": style_dict(e.get("style"))}
    if tag == "text":
        d["lines"] = text_lines(e)
    elif tag in ("polygon", "polyline"):
        d["points"] = [tuple(float(v) for v in p.split(",")) for p in e.get("points").split()]
    elif tag in ("g", "svg"):
        d["items"] = [parse_item(c) for c in e if isinstance(c.tag, str)]
    return d


def eff_style(e, inh):
    st = dict(inh)
    for k, v in style_dict(e.get("style")).items():
        st[k] = v
    for k in ("font-family", "font-size", "font-variant-numeric"):
        if e.get(k) is not None:
            st[k] = e.get(k)
    return st


def norm_style(st):
    """effective style of a character -> canonical tuple"""
    return {
        "font": st.get("font-family", ""),
        "size": fx(st["font-size"]) if "font-size" in st else -1,
        "color": st.get("fill", ""),
        "opacity": fx(st["fill-opacity"]) if "fill-opacity" in st else -1,
        "bold": st.get("font-weight") == "bold",
        "italic": st.get("font-style") == "italic",
    }


def text_lines(e):
    """-> list of {"dy":, "x":, "runs": [[text, style], ...]} of a text element; adjacent equal runs merged."""
    lines = [{"dy": 0, "x": fx(e.get("x", 0)), "runs": []}]

    def add(t, st):
        if not t:
            return
        t = t.replace("\u00a0", " ")
        n = norm_style(st)
        runs = lines[-1]["runs"]
        if runs and runs[-1][1] == n:
            runs[-1][0] += t
        else:
            runs.append([t, n])

    def walk(el, st):
        st = eff_style(el, st)
        if el.get("dy") is not None:
            lines.append({"dy": fx(el.get("dy")), "x": fx(el.get("x", "0")), "runs": []})
        add(el.text, st)
        for c in el:
            walk(c, st)
            add(c.tail, st)

    walk(e, {})
    return lines


def plain(lines):
    return "\n".join("".join(t for t, _ in ln["runs"]) for ln in lines)


def pdf_pages(path):
    """[(svg or raw content, options, (w, h))] of the pages of a PDF."""
    from PyPDF2 import PdfFileReader
    res = []
    with open(path, "rb") as f:
        r = PdfFileReader(f, strict=False)
        for i in range(r.getNumPages()):
            p = r.getPage(i)
            c = p.getContents()
            data = c.getData() if c is not None else b""
            m = re.search(rb"%SVG:([A-Za-z0-9+/=]*)", data)
            o = re.search(rb"%OPT:(.*)", data)
            box = [float(v) for v in p.mediaBox]
            svg = base64.b64decode(m.group(1)).decode() if m else data.decode("latin1")
            res.append((svg, o.group(1).decode().strip() if o else "", (box[2] - box[0], box[3] - box[1])))
    return res


def read_log(path):
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]
