"""Writes OpenRaster files for the checks."""
import io, zipfile
from PIL import Image


def layer_png(size, box, color, mode="RGBA"):
    """mode: a layer that is not RGBA has no transparent parts"""
    im = Image.new("RGBA", size, (0, 0, 0, 0))
    if box:
        im.paste(color, box)
    if mode != "RGBA":
        im = im.crop(box).convert("RGB").convert(mode)
    f = io.BytesIO()
    im.save(f, "png")
    return f.getvalue()


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def write_ora(path, w, h, tree, lean=False, root=False):
    """tree: list (top first) of {"name" (or None),"x","y","vis","op", and "sub": [...], "png": bytes or "src": number of an earlier file}
    lean: leave out attributes with default values; root: attributes at the root stack"""
    files = []

    def xml(n):
        at = [("name", esc(n["name"])) if n["name"] is not None else None,
              ("x", n["x"]) if n["x"] or not lean else None, ("y", n["y"]) if n["y"] or not lean else None,
              ("visibility", "visible" if n["vis"] else "hidden") if not n["vis"] or not lean else None,
              ("opacity", n["op"]) if n["op"] != 1 or not lean else None]
        a = "".join(' %s="%s"' % kv for kv in at if kv)
        if "sub" in n:
            return "<stack%s>%s</stack>" % (a, "".join(xml(c) for c in n["sub"]))
        if "src" in n:
            return '<layer%s src="data/l%d.png"/>' % (a, n["src"])
        files.append(n["png"])
        return '<layer%s src="data/l%d.png"/>' % (a, len(files) - 1)
    body = "".join(xml(n) for n in tree)
    r = ' opacity="1.0" name="root" x="0" y="0" visibility="visible"' if root else ""
    with zipfile.ZipFile(path, "w") as z:
        z.writestr(zipfile.ZipInfo("mimetype"), "image/openraster")
        z.writestr(zipfile.ZipInfo("stack.xml"),
                   '<?xml version="1.0" encoding="UTF-8"?><image w="%d" h="%d"><stack%s>%s</stack></image>' % (w, h, r, body))
        for i, d in enumerate(files):
            z.writestr(zipfile.ZipInfo("data/l%d.png" % i), d)
