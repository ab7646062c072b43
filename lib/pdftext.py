"""The glyphs of the pages of a PDF file."""
import re


def mul(a, b):
    """b first, then a"""
    return (a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3],
            a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5])


def app(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def unhex(s):
    return bytes.fromhex(s).decode("utf-16-be")


def to_unicode(data):
    text, table = data.decode("latin-1"), {}
    width = 1
    for block in re.findall(r"begincodespacerange(.*?)endcodespacerange", text, re.S):
        width = len(re.findall(r"<([0-9a-fA-F]+)>", block)[0]) // 2
    for block in re.findall(r"beginbfchar(.*?)endbfchar", text, re.S):
        for a, b in re.findall(r"<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]*)>", block):
            table[int(a, 16)] = unhex(b)
    for block in re.findall(r"beginbfrange(.*?)endbfrange", text, re.S):
        for a, b, c in re.findall(r"<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]+)>\s*<([0-9a-fA-F]*)>", block):
            base = unhex(c)
            for i in range(int(b, 16) - int(a, 16) + 1):
                table[int(a, 16) + i] = base[:-1] + chr(ord(base[-1]) + i)
    return width, table


class Font:
    def __init__(self, f):
        name = str(f["/BaseFont"]).lstrip("/")
        self.name = re.sub(r"^[A-Z]{6}\+", "", name)
        self.width, self.table = to_unicode(f["/ToUnicode"].getData())
        self.adv = {}
        self.default = 0
        if f["/Subtype"] == "/Type0":
            d = f["/DescendantFonts"][0].getObject()
            self.default = float(d.get("/DW", 1000))
            w = list(d.get("/W", []))
            i = 0
            while i < len(w):
                nxt = w[i + 1].getObject() if hasattr(w[i + 1], "getObject") else w[i + 1]
                if isinstance(nxt, list):
                    for j, v in enumerate(nxt):
                        self.adv[int(w[i]) + j] = float(v)
                    i += 2
                else:
                    for c in range(int(w[i]), int(nxt) + 1):
                        self.adv[c] = float(w[i + 2])
                    i += 3
        else:
            self.width = 1
            for j, v in enumerate(f["/Widths"]):
                self.adv[int(f["/FirstChar"]) + j] = float(v)

    def codes(self, raw):
        return [int.from_bytes(raw[i:i + self.width], "big") for i in range(0, len(raw), self.width)]


def raw_of(s):
    b = getattr(s, "original_bytes", None)
    if b is not None:
        return b
    return s if isinstance(s, bytes) else str(s).encode("latin-1")


def glyphs(path):
    """-> for each page the list of glyphs: t (text), m (matrix of 1 em on the page in px, y down), a (advance in px), font, color"""
    from PyPDF2 import PdfFileReader
    from PyPDF2.pdf import ContentStream
    pages = []
    fonts = {}
    with open(path, "rb") as fh:
        r = PdfFileReader(fh, strict=False)
        for i in range(r.getNumPages()):
            page = r.getPage(i)
            bx = [float(v) for v in page.mediaBox]
            k = 4 / 3
            out = []

            def font(res, name):
                ref = res["/Font"].raw_get(name) if hasattr(res["/Font"], "raw_get") else res["/Font"][name]
                key = getattr(ref, "idnum", None) or id(ref)
                if key not in fonts:
                    fonts[key] = Font(ref.getObject())
                return fonts[key]

            def run(content, res, m0):
                g = {"m": m0, "f": "0,0,0", "a": 1.0}
                stack = []
                tm = tlm = (1, 0, 0, 1, 0, 0)
                fnt, size = None, 1.0

                def show(raw):
                    nonlocal tm
                    for c in fnt.codes(raw):
                        m = mul(mul(g["m"], tm), (size, 0, 0, size, 0, 0))
                        adv = fnt.adv.get(c, fnt.default) / 1000
                        # '?': a glyph without a known character
                        out.append({"t": fnt.table.get(c, "?"), "m": m, "a": adv, "font": fnt.name, "color": g["f"], "alpha": g["a"]})
                        tm = mul(tm, (1, 0, 0, 1, adv * size, 0))

                for args, op in ContentStream(content, r).operations:
                    op = op.decode() if isinstance(op, bytes) else op
                    if op == "q":
                        stack.append((dict(g), fnt, size))
                    elif op == "Q":
                        g, fnt, size = stack.pop()
                    elif op == "cm":
                        g["m"] = mul(g["m"], tuple(float(v) for v in args))
                    elif op == "rg":
                        g["f"] = ",".join("%d" % round(float(a) * 255) for a in args)
                    elif op == "g":
                        g["f"] = ",".join(["%d" % round(float(args[0]) * 255)] * 3)
                    elif op == "gs":
                        d = res["/ExtGState"][args[0]].getObject()
                        if "/ca" in d:
                            g["a"] = float(d["/ca"])
                    elif op == "BT":
                        tm = tlm = (1, 0, 0, 1, 0, 0)
                    elif op == "Tm":
                        tm = tlm = tuple(float(v) for v in args)
                    elif op in ("Td", "TD"):
                        tm = tlm = mul(tlm, (1, 0, 0, 1, float(args[0]), float(args[1])))
                    elif op == "Tf":
                        fnt, size = font(res, args[0]), float(args[1])
                    elif op == "Tj":
                        show(raw_of(args[0]))
                    elif op == "TJ":
                        for v in args[0]:
                            if isinstance(v, (int, float)) or v.__class__.__name__ in ("FloatObject", "NumberObject"):
                                tm = mul(tm, (1, 0, 0, 1, -float(v) / 1000 * size, 0))
                            else:
                                show(raw_of(v))
                    elif op == "Do":
                        x = res["/XObject"][args[0]].getObject()
                        if x["/Subtype"] == "/Form":
                            m = tuple(float(v) for v in x.get("/Matrix", (1, 0, 0, 1, 0, 0)))
                            run(x, x.get("/Resources", res), mul(g["m"], m))
                    elif op in ("T*", "'", '"', "TL", "Tc", "Tw", "Tz", "Ts", "Tr"):
                        raise ValueError("text operator " + op)
            run(page["/Contents"].getObject(), page["/Resources"], (k, 0, 0, -k, -bx[0] * k, bx[3] * k))
            pages.append({"w": round((bx[2] - bx[0]) * k, 3), "h": round((bx[3] - bx[1]) * k, 3), "glyphs": out})
    return pages


def rows(gs):
    """glyphs as strings, for reading"""
    out = []
    for g in gs:
        key = (round(g["m"][5], 1), g["font"], g["color"], round(g["m"][0], 2), round(-g["m"][3], 2), round(g["m"][2], 2))
        if out and out[-1][0] == key:
            out[-1][2] += g["t"]
            out[-1][3] = g["m"][4] + g["a"] * g["m"][0]
        else:
            out.append([key, g["m"][4], g["t"], g["m"][4] + g["a"] * g["m"][0]])
    return out
