"""W01: slides with arbitrary strings in every place where the public interface takes one."""
import os
import common  # noqa
import elsie_env as ee
import elsie
from elsie.ext.list import unordered_list
from elsie.ext.todo import todo_placeholder
import lxml.etree as et

MARK = 0x4E00
CHARS = "<>&'\"; #=/]!-?%\\:,.()@*+|^`$_" + "aZ09" + "é\u00a0\u4e2d\U0001F600\u2028\u2190ß\u200b"
WORDS = ["&amp;", "<b>", "</text>", "]]>", "<!--", "-->", "<![CDATA[", "&#60;", "' x='", "\" x=\"", "&lt;", "<?x?>", "</svg>", "&nosuch;", "'/>", "%s", "{", "}", "red", "\\n", "data:", "&", "<", "'", "\""]
TEXT_SITES = ["text", "lines", "styled", "code", "name", "list", "label", "todo", "svgtext"]
ATTR_SITES = ["font", "color", "sfont", "scolor", "rect", "bg", "dash", "ellipse", "polygon", "line", "arrow", "path", "svgattr"]
ESCAPED = "~{}"     # have a meaning in texts


def value(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    s = "".join(rng.choice(WORDS) if rng.random() < 0.3 else rng.choice(CHARS) for _ in range(n))
    return s[:24]


def fit(site, v):
    """The value without characters that are part of another language at the site."""
    if site in ("text", "lines", "styled", "list", "label", "todo"):
        v = "".join(c for c in v if c not in ESCAPED)
    if site in ("code", "todo", "list"):
        v = v.strip() and v
    return v or "&'<"


def of_enum(rng, prog):
    sites = []
    for o in prog["ops"]:
        if o["v"]:
            site = rng.choice(TEXT_SITES if o["k"] == "text" else ATTR_SITES)
            sites.append((site, fit(site, "".join(map(chr, o["v"])))))
    return {"sites": sites, "spell": rng.getrandbits(32), "form": rng.choice(["plain", "cdata", "num", "dtd"]), "vb": rng.random() < 0.2}


def gen(rng):
    sites = []
    for _ in range(rng.randint(1, 5)):
        site = rng.choice(TEXT_SITES + ATTR_SITES)
        sites.append((site, fit(site, value(rng))))
    return {"sites": sites, "spell": rng.getrandbits(32), "form": rng.choice(["plain", "cdata", "num", "dtd"]), "vb": rng.random() < 0.2}


def esc(v, form):
    if form == "num":
        return "".join("&#%d;" % ord(c) for c in v)
    v = v.replace("&", "&amp;").replace("<", "&lt;")
    if form == "dtd":
        v = v.replace("'", "&q;").replace(">", "&gt;")
    return v.replace(">", "&#x3e;").replace('"', "&quot;")


def svg_file(env, form, text=None, attr=None):
    f = os.path.join(env.new_dir(), "i.svg")
    t = "" if text is None else "<![CDATA[%s]]>" % text if form == "cdata" and "]]>" not in text else esc(text, form)
    with open(f, "w", encoding="utf-8") as fh:
        fh.write('<?xml version="1.0" encoding="UTF-8"?>\n')
        if form == "dtd":
            fh.write('<!DOCTYPE svg [ <!ENTITY q "\'"> ]>\n')
        fh.write('<svg xmlns="http://www.w3.org/2000/svg" xmlns:my="urn:my" width="40" height="30"><!-- a & b -->'
                 '<text x="1" y="9" my:label="%s" class="k">%s</text></svg>' % ("" if attr is None else esc(attr, form), t))
    return f


def build(env, prog, vals):
    """The page of the slide with these values at the sites."""
    deck = env.deck(width=400, height=300)
    kw = {"view_box": (10, 20, 200, 100)} if prog["vb"] else {}
    slide = deck.new_slide(debug_boxes=any(s == "name" for s, _ in prog["sites"]), **kw)
    par = slide
    for i, (site, _) in enumerate(prog["sites"]):
        v = vals[i]
        odd = (prog["spell"] >> i) & 1
        if site == "text":
            par.text(v)
        elif site == "lines":
            par.text("ab\n%s\ncd" % v)
        elif site == "styled":
            par.set_style("st%d" % i, elsie.TextStyle(bold=True))
            par.text("ab ~st%d{%s}cd" % (i, v) if odd else "~#ref{%s}" % v)
        elif site == "code":
            par.code("text", "x%sy" % v)
        elif site == "name":
            par.box(name=v, width=50, height=20)
        elif site == "list":
            unordered_list(par.box()).item().text(v)
        elif site == "label":
            unordered_list(par.box()).item(label=v).text("ab")
        elif site == "todo":
            if odd:
                todo_placeholder(par, v)
            else:
                todo_placeholder(par.box(name=v))
        elif site == "svgtext":
            par.image(svg_file(env, prog["form"], text=v))
        elif site == "svgattr":
            par.image(svg_file(env, prog["form"], attr=v))
        elif site == "font":
            par.text("ab", elsie.TextStyle(font=v))
        elif site == "color":
            par.text("ab", elsie.TextStyle(color=v))
        elif site in ("sfont", "scolor"):
            par.set_style("st%d" % i, elsie.TextStyle(font=v) if site == "sfont" else elsie.TextStyle(color=v))
            par.text("ab ~st%d{cd}\nef" % i if odd else "~st%d{cd\nef}" % i)
        elif site == "rect":
            par.box(width=20, height=20).rect(color=v)
        elif site == "bg":
            par.box(width=20, height=20).rect(bg_color=v)
        elif site == "dash":
            par.box(width=20, height=20).rect(color="red", stroke_dasharray=v)
        elif site == "ellipse":
            par.box(width=20, height=20).ellipse(**({"color": v} if odd else {"bg_color": v}))
        elif site == "polygon":
            par.polygon([(1, 2), (30, 4), (5, 60)], **({"color": v} if odd else {"bg_color": v}))
        elif site == "line":
            par.line([(1, 2), (30, 4)], **({"color": v} if odd else {"stroke_dasharray": v}))
        elif site == "arrow":
            par.line([(1, 2), (30, 4)], color=v, end_arrow=elsie.Arrow(10, stroke_width=2 if odd else None))
        elif site == "path":
            par.path([("M", (1, 2)), ("L", (30, 4))], **({"color": v} if odd else {"stroke_dasharray": v}))
        if odd and i % 2:
            par = par.box()
    return ee.pages(deck)[-1]


def run(env, prog):
    vals = [v for _, v in prog["sites"]]
    t = {"vals": [{"k": "text" if s in TEXT_SITES else "attr", "v": [ord(c) for c in v]} for s, v in prog["sites"]],
         "err": "", "merr": "", "lx": True, "page": [], "mark": [], "sites": [[s, v] for s, v in prog["sites"]]}
    try:
        page = build(env, prog, vals)
        t["page"] = [ord(c) for c in page]
        try:
            et.fromstring(page.encode("utf-8"))
        except et.XMLSyntaxError:
            t["lx"] = False
    except Exception as e:
        t["err"] = type(e).__name__ + ": " + str(e)[:200]
    try:
        t["mark"] = [ord(c) for c in build(env, prog, [chr(MARK + i + 1) * len(v) for i, v in enumerate(vals)])]
    except Exception as e:
        t["merr"] = type(e).__name__ + ": " + str(e)[:200]
    return t
