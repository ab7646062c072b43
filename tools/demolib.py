import os, sys, re, io, contextlib
HOME = os.path.dirname(os.path.abspath(__file__))
FAKE = os.path.join(os.getcwd(), "fake_inkscape.py")
open(FAKE, "w").write(open(os.path.join(HOME, "fake_inkscape.py")).read())
os.chmod(FAKE, 0o755)
os.environ["ELSIE_INKSCAPE"] = FAKE
import elsie
from elsie.render.backends import CairoBackend, InkscapeBackend


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def deck(cache="cache", **kw):
    kw.setdefault("width", 400)
    kw.setdefault("height", 300)
    os.makedirs(cache, exist_ok=True)
    return quiet(elsie.SlideDeck, cache_dir=cache, **kw)


def svgs(d, **kw):
    kw.setdefault("prune_cache", False)
    kw.setdefault("save_cache", False)
    return [u.get_svg() for u in quiet(d.render, output=None, return_units=True, **kw)]


def fills(s):
    return re.findall(r"fill:\s*(#\w+)", s)


def rect(s, col):
    for m in re.finditer(r"<rect[^>]*>", s):
        if col in m.group(0):
            return tuple(float(re.search(r'\b%s=["\x27]([^"\x27]*)' % a, m.group(0)).group(1)) for a in ("x", "y", "width", "height"))


def rejected(fn, *a, **k):
    try:
        quiet(fn, *a, **k)
    except Exception:
        return True
    return False
