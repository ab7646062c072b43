"""Texts with inline styles: generators, execution on the real code, observation of the drawn text."""
import elsie_env as ee
from elsie_env import fx, et, style_dict
import elsie

ATTRS = ("font", "size", "color", "opacity", "bold", "italic", "variant", "align", "spacing", "prio")


def rec(**kw):
    """Style record of the specification; sizes in 1/1000."""
    r = dict(font="", size=-1, color="", opacity="", bold="", italic="", variant="", align="", spacing=-1, prio=0)
    r.update(kw)
    return r


DEFAULT = rec(font="sans-serif", size=28000, color="black", variant="lining-nums", align="middle", spacing=1200)
BUILTIN = {
    "tt": rec(font="monospace"), "emph": rec(italic="T"), "alert": rec(bold="T", color="red"),
    "code": rec(font="monospace", align="left", color="#222", spacing=1200, size=20000),
    "code_lineno": rec(color="gray"),
}


def num(v):
    return v // 1000 if v % 1000 == 0 else v / 1000


def style_of(r):
    """TextStyle of a record."""
    kw = {}
    for a, k in (("font", "font"), ("color", "color"), ("variant", "variant_numeric"), ("align", "align")):
        if r[a]:
            kw[k] = r[a]
    for a, k in (("size", "size"), ("spacing", "line_spacing")):
        if r[a] != -1:
            kw[k] = num(r[a])
    if r["opacity"]:
        kw["opacity"] = float(r["opacity"])
    for a in ("bold", "italic"):
        if r[a]:
            kw[a] = r[a] == "T"
    if r["prio"]:
        kw["priority"] = r["prio"]
    return elsie.TextStyle(**kw)


_pyg = {}


def pygments_styles(theme="default"):
    if theme not in _pyg:
        from pygments.styles import get_style_by_name
        res = {}
        for tok, s in get_style_by_name(theme):
            res["pygments-" + str(tok)] = rec(color="#" + s["color"] if s["color"] else "",
                                              bold="T" if s["bold"] else "", italic="T" if s["italic"] else "")
        _pyg[theme] = res
    return _pyg[theme]


def eff(e, inh):
    st = dict(inh)
    st.update(style_dict(e.get("style")))
    for k in ("font-family", "font-size", "font-variant-numeric"):
        if e.get(k) is not None:
            st[k] = e.get(k)
    return st


def look(st):
    op = st.get("fill-opacity", "")
    return {"font": st.get("font-family", ""), "size": fx(st["font-size"]) if "font-size" in st else -1,
            "color": st.get("fill", ""), "opacity": str(float(op)) if op and op.replace(".", "", 1).replace("-", "").replace("e", "").isdigit() else op and "?" + op,
            "bold": "T" if st.get("font-weight") == "bold" else "F",
            "italic": "T" if st.get("font-style") == "italic" else "F",
            "variant": st.get("font-variant-numeric", "")}


def rows_of(e):
    """-> (rows [{y, x, r: [{s, l}]}], looks) of a text element, y and x relative to it; empty rows left out."""
    looks, idx = [], {}
    rows = [{"y": 0, "x": 0, "r": []}]
    x0 = fx(e.get("x"))

    def add(t, st):
        if not t:
            return
        n = look(st)
        k = tuple(sorted(n.items()))
        if k not in idx:
            looks.append(n)
            idx[k] = len(looks)
        runs = rows[-1]["r"]
        t = t.replace("\u00a0", " ")
        if runs and runs[-1]["l"] == idx[k]:
            runs[-1]["s"] += t
        else:
            runs.append({"s": t, "l": idx[k]})

    def walk(el, st):
        st = eff(el, st)
        if el.get("dy") is not None:
            rows.append({"y": rows[-1]["y"] + fx(el.get("dy")), "x": fx(el.get("x", "0")) - x0, "r": []})
        add(el.text, st)
        for c in el:
            walk(c, st)
            add(c.tail, st)

    walk(e, {})
    rows = [r for r in rows if r["r"]]
    for r in rows:
        for q in r["r"]:
            q["s"] = list(q["s"])
    return rows, looks or [look({})]


def texts_of(svg):
    root = et.fromstring(svg.encode())
    return [e for e in root.iter(ee.SVG + "text")]


def run(env, p):
    """Draw one text on the real code. p: in, m (esc setting), styles (records), own (record or name), kind, ..."""
    t = {"in": list(p["in"]), "m": dict(zip("ebc", p["m"])) if p["m"] else {"e": "", "b": "{", "c": "}"},
         "tab": p.get("tab", -1), "code": False, "tok": [], "lineno": bool(p.get("lineno")), "ok": True, "rows": [], "looks": [],
         "dflt": DEFAULT, "own": rec(prio=DEFAULT["prio"])}
    styles = dict(BUILTIN)
    styles.update(p["styles"])
    styles["default"] = DEFAULT
    try:
        deck = env.deck(backend=p.get("backend"))
        slide = deck.new_slide()
        for n, r in p["styles"].items():
            slide.set_style(n, style_of(r))
        own = p.get("own")
        if isinstance(own, dict):
            t["own"], own = own, style_of(own)
        elif own is not None and own != "default":
            t["own"] = styles[own]
        m = p["m"]
        if p["kind"] == "text":
            slide.box().text(p["in"], own or "default", escape_char=m if m[1:] != "{}" or p.get("full") else m[0])
        else:
            if own is None:
                t["own"] = styles["code"]
            kw = {} if own is None else {"style": own}
            if m:
                kw["escape_char"] = m if m[1:] != "{}" or p.get("full") else m[0]
            if p.get("tab", 4) != 4:
                kw["tabsize"] = p["tab"]
            t["tab"] = p.get("tab", 4)
            if p.get("lineno"):
                kw["line_numbers"] = True
            slide.box().code(p["lang"], p["in"], use_styles=bool(m), **kw)
        svg = ee.pages(deck)[0]
        es = texts_of(svg)
        if len(es) == 1:
            t["rows"], t["looks"] = rows_of(es[0])
        elif es:
            t["rows"], t["looks"] = [{"y": 0, "x": 0, "r": [{"s": list("?many"), "l": 1}]}], [look({})]
    except Exception as ex:
        t["ok"] = False
        t["why"] = str(ex)[:120]
    if p["kind"] == "code" and p["lang"]:
        t["code"] = True
        t["tok"] = lex(p["lang"], p["plain"], bool(m))
        styles.update({k: v for k, v in pygments_styles().items() if any(k in ln for ln in t["tok"])})
    t["styles"] = {k: v for k, v in styles.items() if k in p["styles"] or k in BUILTIN or k == "default"
                   or k.startswith("pygments-")}
    return t


def lex(lang, plain, use_styles, text_only=False):
    """Token type of each character, line by line, of the code without its leading line breaks."""
    from pygments.lexers import get_lexer_by_name
    from pygments.token import STANDARD_TYPES
    text = plain.lstrip("\n") if use_styles else plain.strip("\n")
    lines = [[]]
    if text_only:
        return "".join(v for _, v in get_lexer_by_name(lang, stripnl=not use_styles).get_tokens(text))
    for tt, v in get_lexer_by_name(lang, stripnl=not use_styles).get_tokens(text):
        for ch in v:
            if ch == "\n":
                lines.append([])
            else:
                while tt not in STANDARD_TYPES:
                    tt = tt.parent
                lines[-1].append("pygments-" + str(tt))
    return lines


# ---------------------------------------------------------------- generators
CHARS = ["a", "b", "Z", "0", " ", " ", "  ", "\n", "\n", "<", ">", "&", "\"", "'", "\u00e9", "\u4e2d", "#", "x y", "{", "}", "~",
         "&amp;", "]]>", "\U0001f600", "\n\n"]


def settings(rng):
    return rng.choice(["~{}", "~{}", "~{}", "!{}", "~[]", "@()", "$<>", "\\{}", "%||"[:3] if False else "^/."])


def gen_pieces(rng, m, names, depth, n):
    """Random markup -> string."""
    e, b, c = m
    out = []
    for _ in range(rng.randrange(0, n + 1)):
        k = rng.random()
        if k < 0.35 and depth > 0:
            out.append(e + rng.choice(names) + b + gen_pieces(rng, m, names, depth - 1, n) + c)
        elif k < 0.42:
            out.append(e + e)
        elif k < 0.46:
            out.append(b)
        elif k < 0.49 and depth == 3:
            out.append(c)      # literal outside of blocks
        else:
            s = rng.choice(CHARS)
            if rng.random() < 0.01:
                s = "\n" * rng.randrange(8, 14)
            out.append("".join(x for x in s if x not in (e, c)))
    return "".join(out)


def mutate(rng, s, m):
    if not s:
        return s
    i = rng.randrange(len(s) + 1)
    k = rng.random()
    if k < 0.4:
        return s[:i] + rng.choice(m) + s[i:]
    if k < 0.8:
        return s[:i] + s[i + 1:]
    j = rng.randrange(len(s) + 1)
    return s[:min(i, j)] + s[max(i, j):]


VIS = [("color", ["red", "blue", "#0a0"]), ("font", ["monospace", "serif"]), ("size", [8000, 16000, 48000]),
       ("opacity", ["0.5", "0.25", "0.0"]), ("bold", ["T"]), ("italic", ["T"]), ("variant", ["tabular-nums"])]


def distinct_styles(rng):
    """Each name sets one attribute of its own: the set of enclosing blocks can be read from the look."""
    names = ["a", "bb", "a b", "\u00e9", "c:1", "0", "x-y"]
    rng.shuffle(names)
    return {n: rec(**{a: rng.choice(vs)}) for n, (a, vs) in zip(names, VIS[:6])}


def random_style(rng, prios=(0, 0, 0, 1, -1, 2)):
    kw = {}
    for a, vs in VIS + [("bold", ["F"]), ("italic", ["F"]), ("align", ["left", "right"]), ("spacing", [500, 1000, 2000])]:
        if rng.random() < 0.35:
            kw[a] = rng.choice(vs)
    return rec(prio=rng.choice(prios), **kw)


def gen_markup(rng):
    m = settings(rng)
    styles = {n: s for n, s in distinct_styles(rng).items() if not set(n) & set(m)}
    names = list(styles) + ["#d", "#"]
    s = gen_pieces(rng, m, names, 3, 4)
    if rng.random() < 0.3:
        s = mutate(rng, s, m)
    p = {"in": s, "m": m, "styles": styles, "kind": "text", "full": rng.random() < 0.3}
    k = rng.random()
    if k < 0.2:
        p.update(kind="code", lang=rng.choice([None, ""]), tab=rng.choice([4, 2, 8]))
        p["in"] = s.replace("b", "\t")
        if k < 0.07:
            p["m"] = ""
    return p


def gen_styled(rng):
    m = "~{}"
    names = ["a", "b", "c", "#d", "emph", "tt", "alert"]
    styles = {n: random_style(rng) for n in names[:3]}
    if rng.random() < 0.2:
        styles["#d"] = random_style(rng)
    if rng.random() < 0.3:
        styles["emph"] = random_style(rng)
    used = names + (["nope"] if rng.random() < 0.06 else [])
    p = {"in": gen_pieces(rng, m, used, 3, 4), "m": m, "styles": styles, "kind": "text"}
    k = rng.random()
    if k < 0.3:
        p["own"] = random_style(rng)
    elif k < 0.6:
        p["own"] = rng.choice(["a", "b", "tt", "alert"])
    return p


FRAGS = {
    "python": ["def f(x):", "    return x + 1", "# comment <&>", "s = 'a b'", 't = """multi\nline\n  end"""', "if a and b:", "\tpass",
               "", "", "print(f\"{x}\")", "class A(B): pass  # c", "@dec", "x = {1: [2]}", "  ", "0x1F", "a\\", "é = 1"],
    "c": ["int main(void) {", "  return 0;", "}", "/* multi", "   line */", "// one", "#include <stdio.h>", "#define X \\", " 1", "",
          "char *s = \"a\\n\";", "\tif (a && b) c();", "", "for(;;);"],
    "html": ["<html>", "<!-- c", " d -->", "<p class=\"x\">a &amp; b</p>", "", "</html>", "<script>var a='<b>';</script>"],
    "json": ["{", "  \"a\": [1, 2.5],", "\t\"b\": null", "}", ""],
    "bash": ["#!/bin/sh", "echo \"$HOME\" 'a b'", "for i in 1 2; do", "\techo $i", "done", "", "cat <<EOF", "x", "EOF"],
    "rust": ["fn main() {", "    let x = 1u8; // c", "}", "/* a\n b */", "", "println!(\"{}\", x);"],
    "diff": ["--- a", "+++ b", "@@ -1 +1 @@", "-x", "+y", " z", ""],
    "java": ["public class A {", "  @Override int f() { return 'c'; }", "}", "/** doc", " */", ""],
    "text": ["plain", "", "<&>", "a b"],
    "javascript": ["let a = `x", "${b}`;", "// c", "function f() { return /re/; }", ""],
    "pycon": [">>> a = 1", ">>> print(a)", "1", ""],
    "yaml": ["a:", "  - b", "  - 'c'", "# d", ""],
    "latex": ["\\section{A}", "$x^2$ % c", ""],
}


_all = []


def any_language(rng):
    """Some lexer of pygments that keeps the text, and a text."""
    from pygments.lexers import get_all_lexers
    if not _all:
        _all.extend(sorted(a[1][0] for a in get_all_lexers() if a[1]))
    return rng.choice(_all)


def gen_code(rng):
    lang = rng.choice(sorted(FRAGS))
    lines = [rng.choice(FRAGS[lang]) for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.3:
        lang = any_language(rng)
        lines = [rng.choice(FRAGS[rng.choice(sorted(FRAGS))]) for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.15:    # line numbers of different widths
        lines = ([rng.choice(FRAGS[rng.choice(sorted(FRAGS))]) for _ in range(rng.randrange(3))] + ["x", ""] * 60)[
            :rng.choice([9, 10, 11] * 8 + [99, 100])]
        lines[-1] = lines[-1] or "y"
        wide = True
    else:
        wide = False
    plain = "\n".join(lines)
    if rng.random() < 0.3:
        plain = "\n" * rng.randrange(3) + plain + "\n" * rng.randrange(3)
    tab = rng.choice([4, 4, 2, 1, 8])
    for u in (True, False):
        got = lex(lang, plain.replace("\t", " " * tab), u, True).strip("\n")
        if got != plain.replace("\t", " " * tab).strip("\n"):
            return gen_code(rng)
    use = rng.random() < 0.75
    names = ["u", "v", "w w"]
    styles = {n: random_style(rng, (0, 0, 1)) for n in names}
    p = {"kind": "code", "lang": lang, "tab": tab, "lineno": wide or rng.random() < 0.3, "styles": styles, "full": False}
    if not use:
        p.update({"in": plain, "m": "", "plain": plain.replace("\t", " " * tab)})
        return p
    # nested blocks over the plain text: boundaries as a random well-formed bracket word
    n = len(plain)
    while True:
        marks = {}
        ranges = []
        for _ in range(rng.randrange(0, 5)):
            a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
            if rng.random() < 0.5:
                b = min(n, a + rng.randrange(0, 4))
            if all(b <= x or a >= y or (x <= a and b <= y) or (a <= x and y <= b) for x, y in ranges):
                if not any((a, b) != (x, y) and (a == b or x == y) and (a in (x, y) or b in (x, y)) for x, y in ranges):
                    ranges.append((a, b))
        break
    e, b, c = m = rng.choice(["~{}", "!()", "@<>", "^/.", "\u00a7\u00ab\u00bb", "\u00a7\u00ab\u00bb"])
    if any(c in plain[x:y] for x, y in ranges):
        e, b, c = m = "\u00a7\u00ab\u00bb"
    out = []
    order = {r: i for i, r in enumerate(ranges)}

    def emit(lo, hi, inside):
        """ranges strictly managed by recursion: `inside` sorted outer first"""
        i = lo
        while inside:
            # the first outermost range
            r = min(inside, key=lambda q: (q[0], -q[1], order[q]))
            sub = [q for q in inside if q is not r and r[0] <= q[0] and q[1] <= r[1]]
            rest = [q for q in inside if q is not r and q not in sub]
            out.append(plain[i:r[0]].replace(e, e + e))
            out.append(e + rng.choice(names + ["#d"]) + b)
            emit(r[0], r[1], sub)
            out.append(c)
            i = r[1]
            inside = rest
        out.append(plain[i:hi].replace(e, e + e))

    emit(0, n, sorted(set(ranges), key=ranges.index))
    p.update({"in": "".join(out), "m": m, "plain": plain.replace("\t", " " * tab)})
    return p


# ---------------------------------------------------------------- styles of decks, slides and boxes
NAMES = ["default", "a", "b", "emph"]


def rec_of(st):
    def b(v):
        return "" if v is None else {True: "T", False: "F"}[v] if isinstance(v, bool) else "?%r" % (v,)

    def s(v):
        return v if isinstance(v, str) else "" if v is None else "?%r" % (v,)

    def n(v):
        return -1 if v is None else fx(v) if isinstance(v, (int, float)) else -999999
    return rec(font=s(st.font), size=n(st.size), color=s(st.color),
               opacity=str(float(st.opacity)) if isinstance(st.opacity, (int, float)) else s(st.opacity), bold=b(st.bold), italic=b(st.italic),
               variant=s(st.variant_numeric), align=s(st.align),
               spacing=n(st.line_spacing), prio=st.priority if isinstance(st.priority, int) else -999999)


def set_attr(o, attr, val):
    if attr in ("size", "spacing"):
        val = num(val)
    elif attr in ("bold", "italic"):
        val = val == "T"
    elif attr == "opacity":
        val = float(val)
    setattr(o, {"spacing": "line_spacing", "variant": "variant_numeric", "prio": "priority"}.get(attr, attr), val)


BADVALS = {"font": [5, b"serif", ["serif"]], "size": ["big", [1], "12"], "align": ["justify", 1, "", "Left"], "line_spacing": ["1.2", (1,)],
           "color": [255, (1, 2, 3)], "bold": [1, "yes", 0], "italic": [0, "no"], "variant_numeric": ["bold", 1, ""],
           "opacity": ["0.5", "x"], "priority": [None, "high"]}
BADSTYLES = ["red", 5, {"size": 1}, ["a"]]


def wrong(op, c, hold):
    """A call with an argument that cannot be"""
    import elsie
    how, i = op["how"], op["i"]
    attr = sorted(BADVALS)[i % len(BADVALS)]
    bad = BADVALS[attr][i % 7 % len(BADVALS[attr])]
    bst = (BADSTYLES + [None])[i % 5]
    if how == "mut":
        setattr(hold[op["o"] - 1], attr, bad)
    elif how == "set":
        c.set_style(op["name"], bst)
    elif how == "setbase":
        c.set_style(op["name"], bst, base="emph")
    elif how == "setname":
        c.set_style((5, None)[i % 2], hold[op["o"] - 1])
    elif how == "update":
        c.update_style(op["name"], bst)
    elif how == "updatename":
        c.update_style((5, None)[i % 2], hold[op["o"] - 1])
    elif how == "get":
        c.get_style(bst if bst != "red" else 1.5)
    else:
        elsie.TextStyle(**{"size": 3, attr: bad})


def run_styles(env, ops, objs, rng=None, n=0):
    """Execute a history of style operations (given, or n random ones) -> trace."""
    deck = env.deck()
    cont, depth = [deck], [0]
    hold = [style_of(r) for r in objs]
    init = {k: BUILTIN[k] for k in ("emph",)}
    init["default"] = DEFAULT
    t = {"init": init, "objs": objs, "ev": [], "texts": []}
    texts = []

    def probe():
        res = []
        for c in cont:
            d = {}
            for nm in NAMES:
                ok = c.has_style(nm)
                try:
                    d[nm] = {"is": True, "rec": rec_of(c.get_style(nm))}
                except Exception:
                    d[nm] = {"is": False}
                if d[nm]["is"] != ok:
                    d[nm] = {"is": not ok, "rec": rec(font="?has_style")}
            res.append(d)
        return res

    k = 0
    while k < (n or len(ops)):
        op = dict(ops[k]) if ops is not None else gen_op(rng, len(cont), len(hold), k)
        k += 1
        ok, ret = True, rec()
        try:
            o = op["op"]
            c = cont[op["c"] - 1] if "c" in op else None
            if o == "new":
                if op["c"] == 1:
                    cont.append(deck.new_slide())
                else:
                    via = (op.get("via") or "box")
                    cont.append(getattr(c, via)())
            elif o == "obj":
                hold.append(style_of(op["rec"]))
            elif o == "wrong":
                wrong(op, c, hold)
            elif o == "mut":
                set_attr(hold[op["o"] - 1], op["attr"], op["val"])
            elif o == "set":
                r = (c.set_style(op["name"], hold[op["o"] - 1]) if op["base"] == "default" and k % 2 else
                     c.set_style(op["name"], hold[op["o"] - 1], base=op["base"]))
                ret = rec_of(r)
            elif o == "update":
                r = c.update_style(op["name"], hold[op["o"] - 1])
                ret = rec_of(r)
                hold.append(r)
            elif o == "get":
                r = c.get_style(op["name"], full_style=op["full"])
                ret = rec_of(r)
                hold.append(r)
            elif o == "getobj":
                r = c.get_style(hold[op["o"] - 1], full_style=True)
                ret = rec_of(r)
                hold.append(r)
            elif o == "text":
                txt = "T%dT" % len(texts)
                txt += "".join("~%s{%d" % (nm, i + 1) for i, nm in enumerate(op["names"])) + "}" * len(op["names"])
                c.text(txt, hold[op["o"] - 1] if op["o"] else op["name"])
                texts.append((len(texts), len(op["names"]) + 1))
        except Exception as ex:
            ok = False
            op["why"] = str(ex)[:100]
        op.update(ok=ok, ret=ret, probe=probe(), held=[rec_of(x) for x in hold])
        t["ev"].append(op)
    drawn = {}
    for svg in (ee.pages(deck) if len(cont) > 1 else []):
        for e in texts_of(svg):
            rows, looks = rows_of(e)
            flat = [(ch, q["l"]) for q in rows[0]["r"] for ch in q["s"]] if len(rows) == 1 else []
            s = "".join(ch for ch, _ in flat)
            if s.count("T") == 2:
                i = int(s[1:s.index("T", 1)])
                lk = [looks[lx - 1] for _, lx in flat]
                drawn[i] = [lk[0]] + lk[s.index("T", 1) + 1:]
    t["texts"] = [drawn.get(i, []) for i, _ in texts]
    return t


def gen_op(rng, nc, no, k):
    c = rng.randrange(1, nc + 1)
    o = rng.randrange(1, no + 1) if no else 0
    kinds = ["set"] * 4 + ["update"] * 3 + ["get"] * 2 + ["mut"] * 4 + ["text"] * 4 + ["new"] * 3 + ["obj", "getobj"]
    kind = rng.choice(kinds)
    if k == 0 or (nc < 3 and rng.random() < 0.3):
        kind = "new"
    nm = lambda: rng.choice(["a", "a", "b", "default", "emph"])  # noqa
    if k and o and rng.random() < 0.12:
        return {"op": "wrong", "c": c, "o": o, "name": nm(), "i": rng.randrange(210),
                "how": rng.choice(["mut", "mut", "ctor", "set", "setbase", "setname", "update", "updatename", "get"])}
    if kind == "new" and nc >= 8:
        kind = "set"
    if kind in ("set", "update", "mut", "getobj") and not no:
        kind = "obj"
    if kind == "text" and c == 1:
        kind = "get"
    if kind == "new":
        return {"op": "new", "c": c, "via": rng.choice(["box", "sbox", "fbox", "overlay"])}
    if kind == "obj":
        return {"op": "obj", "rec": random_style(rng, (0, 0, 0, 1, -1))}
    if kind == "mut":
        r = random_style(rng, (0, 1, -1))
        at = [a for a in ATTRS if r[a] not in ("", -1) or a == "prio"]
        a = rng.choice(at)
        return {"op": "mut", "o": o, "attr": a, "val": r[a]}
    if kind == "set":
        name = rng.choice(["a", "a", "b", "emph"])
        return {"op": "set", "c": c, "name": name, "o": o, "base": rng.choice(["default", "default", "a", "b", "emph"])}
    if kind == "update":
        return {"op": "update", "c": c, "name": nm(), "o": o}
    if kind == "get":
        return {"op": "get", "c": c, "name": nm(), "full": rng.random() < 0.5}
    if kind == "getobj":
        return {"op": "getobj", "c": c, "o": o}
    return {"op": "text", "c": c, "o": o if rng.random() < 0.3 else 0, "name": nm(),
            "names": [rng.choice(["a", "b", "emph", "#q"]) for _ in range(rng.randrange(0, 3))]}


# ---------------------------------------------------------------- texts in boxes
def matrix(text):
    """The matrix (a, b, c, d, e, f) of a list of SVG transforms"""
    import math, re

    def mul(m, n):
        return (m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3],
                m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5])
    m = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)
    for f, args in re.findall(r"(\w+)\s*\(([^)]*)\)", text or ""):
        v = [float(q) for q in re.split(r"[\s,]+", args.strip())]
        if f == "translate":
            m = mul(m, (1, 0, 0, 1, v[0], v[1] if len(v) > 1 else 0))
        elif f == "scale":
            m = mul(m, (v[0], 0, 0, v[-1], 0, 0))
        elif f == "matrix":
            m = mul(m, tuple(v))
        elif f == "rotate":
            a = math.radians(v[0])
            c, s = math.cos(a), math.sin(a)
            x, y = v[1:] or (0, 0)
            m = mul(m, (c, s, -s, c, x - c * x + s * y, y - s * x - c * y))
        else:
            raise common.MachineryError("transform %s" % f)
    return m


def geo(e):
    """Anchor point (before the rotation), scale (1/10000), anchor, angle (1/1000 degree) and centre of rotation of a text."""
    import math
    a, b, c, d, tx, ty = matrix(e.get("transform"))
    s = math.sqrt(abs(a * d - b * c))
    ang = math.degrees(math.atan2(b, a)) % 360
    r = {"anchor": e.get("text-anchor", "start"), "s": int(round(s * 10000)), "ang": int(round(ang * 1000)) % 360000, "cx": 0, "cy": 0,
         "x": fx(float(e.get("x")) * s), "y": fx(float(e.get("y")) * s), "even": abs(a - d) + abs(b + c) < 1e-4 * s}
    if r["ang"]:
        # the point that stays: c = R c + t
        p, q = 1 - a / s, b / s
        det = p * p + q * q
        r["cx"], r["cy"] = fx((p * tx - q * ty) / det), fx((q * tx + p * ty) / det)
    else:
        r["x"], r["y"] = r["x"] + fx(tx), r["y"] + fx(ty)
    return r


def run_box(env, p):
    """p: styles, texts [{in, own, fit}], wd, hd, pad, parent {hor, w, h, pad, x, y, before}, boxes, twice"""
    t = {"m": dict(zip("ebc", "~{}")), "dflt": DEFAULT, "styles": {**BUILTIN, **p["styles"], "default": DEFAULT},
         "wd": p["wd"], "hd": p["hd"], "pad": fx(p["pad"]), "full": {"w": fx(p["parent"]["w"]), "h": fx(p["parent"]["h"])},
         "texts": [], "boxes": [], "err": "", "rect": {}}

    def size(d):
        return {"none": None, "px": num(d["v"]), "ratio": "%d%%" % d["v"], "fill": "fill"}[d["k"]]
    deck = env.deck()
    try:
        slide = deck.new_slide()
        for n, r in p["styles"].items():
            slide.set_style(n, style_of(r))
        q = p["parent"]
        outer = slide.box(x=q["x"], y=q["y"], width=q["w"] + 2 * q["pad"], height=q["h"] + 2 * q["pad"], horizontal=q["hor"],
                          padding=q["pad"])
        outer.rect(bg_color="#000002")
        for _ in range(q["before"]):
            outer.box(width=11, height=7)
        b = outer.box(width=size(p["wd"]), height=size(p["hd"]), padding=p["pad"], **({"x": 5, "y": "[50%]"} if q["fixed"] else {}))
        b.rect(bg_color="#000001")
        items = []
        for x in p["texts"]:
            own = x["own"]
            kw = {"rotation": num(x["rot"])} if x["rot"] or len(t["texts"]) % 2 else {}
            if x.get("code"):
                b.set_style("own", style_of(own))
                items.append(b.code("", x["in"], style="own", use_styles=True, scale_to_fit=x["fit"], **kw))
            else:
                items.append(b.text(x["in"], style_of(own), scale_to_fit=x["fit"], **kw))
            t["texts"].append({"in": list(x["in"]), "own": own, "fit": x["fit"], "drawn": False, "s": 10000, "x": 0, "y": 0, "anchor": "",
                               "rot": x["rot"], "ang": 0, "cx": 0, "cy": 0, "even": True})
        for i, x in enumerate(p["boxes"]):
            y = dict(x)
            y.update(ok=True, rect={}, pad=fx(x["pad"]))
            kw = {}
            if x["pad"]:
                kw["padding"] = x["pad"]
            if x["w"] >= 0:
                kw["width"] = num(x["w"])
            if x.get("z"):
                kw["z_level"] = x["z"]
            try:
                it = items[x["text"] - 1]
                nb = it.line_box(x["i"], x["n"], **kw) if x["kind"] == "line" else it.inline_box(x["name"], x["k"], **kw)
                nb.rect(bg_color="#%06x" % (16 + i))
            except Exception:
                y["ok"] = False
            t["boxes"].append(y)
        if p["twice"]:
            ee.pages(deck)
        svg = ee.pages(deck)[0]
        root = et.fromstring(svg.encode())
        for e in root.iter(ee.SVG + "rect"):
            c = int(style_dict(e.get("style"))["fill"][1:], 16)
            r = {"x": fx(e.get("x")), "y": fx(e.get("y")), "w": fx(e.get("width")), "h": fx(e.get("height"))}
            if c == 1:
                t["rect"] = r
            elif c == 2:
                t["full"] = {"w": r["w"], "h": r["h"]}
            else:
                t["boxes"][c - 16]["rect"] = r
        # texts are told apart by their font sizes
        for e in root.iter(ee.SVG + "text"):
            for x in t["texts"]:
                if fx(e.get("font-size")) == x["own"]["size"] and not x["drawn"]:
                    x.update(geo(e), drawn=True)
                    break
    except Exception as ex:
        import traceback
        t["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
        t["tb"] = traceback.format_exc()[-400:]
    return t


def gen_box(rng):
    styles = {n: random_style(rng, (0, 0, 1)) for n in ("a", "b")}

    def text(sz):
        s = gen_pieces(rng, "~{}", ["a", "b", "#d", "emph", "tt"], 2, 3)
        if rng.random() < 0.4:     # blocks over several lines
            s = ""
            depth = 0
            for _ in range(rng.randrange(4, 14)):
                k = rng.choice("oooccnnxxx")
                if k == "c" and depth:
                    s, depth = s + "}", depth - 1
                elif k == "o":
                    s, depth = s + "~%s{" % rng.choice(["a", "b", "#d", "tt"]), depth + 1
                else:
                    s += "\n" if k == "n" else rng.choice(["x", "yy", "x y"])
            s += "}" * depth
        s = s.replace("\u4e2d", "c").replace("\U0001f600", "d")
        if rng.random() < 0.6:
            s = rng.choice(["xy", "long line of text", "~a{x}", "~#d{ab}c", "q~b{r~#d{s\nt}u}\n"]) + s
        own = rec(size=sz, align=rng.choice(["left", "middle", "right", ""]), spacing=rng.choice([-1, 500, 1000, 1500, 2000]),
                  bold=rng.choice(["", "T"]), font=rng.choice(["", "monospace"]), prio=rng.choice([0, 0, 1]))
        return {"in": s, "own": own, "fit": rng.random() < 0.5, "code": rng.random() < 0.2,
                "rot": rng.choice([0, 0, 0, 0, 30, 45.5, 90, 180, 270, -60, 400]) * 1000}
    texts = [text(sz) for sz in rng.sample([8000, 16000, 24000, 40000, 64000], rng.choice([1, 1, 1, 2]))]

    def definition(axis):
        return rng.choice([{"k": "none", "v": 0}, {"k": "px", "v": 1000 * rng.choice([0, 30, 150, 400])},
                           {"k": "ratio", "v": rng.choice([10, 50, 100])}, {"k": "fill", "v": 0}])
    q = {"hor": rng.random() < 0.5, "w": rng.choice([300, 600, 900]), "h": rng.choice([200, 500]), "pad": rng.choice([0, 8]),
         "x": rng.choice([0, 13]), "y": rng.choice([0, 27]), "before": 0, "fixed": False}
    p = {"styles": styles, "texts": texts, "wd": definition("w"), "hd": definition("h"), "pad": rng.choice([0, 0, 5]), "parent": q,
         "boxes": [], "twice": rng.random() < 0.3}
    if "fill" not in (p["wd"]["k"], p["hd"]["k"]):
        q["before"] = rng.randrange(3)
        q["fixed"] = rng.random() < 0.3
    for _ in range(rng.randrange(0, 5)):
        i = rng.randrange(len(texts)) + 1
        lines = texts[i - 1]["in"].rstrip("\n").count("\n") + 1
        x = {"text": i, "pad": rng.choice([0, 0, 0, 3]), "w": rng.choice([-1, -1, -1, 50000]), "z": rng.choice([0, 0, -1, 1])}
        if rng.random() < 0.5:
            a = rng.randrange(lines)
            x.update(kind="line", i=a, n=rng.randrange(1, lines - a + 1))
        else:
            x.update(kind="inline", name=rng.choice(["a", "b", "#d", "#d", "tt"]), k=rng.choice([1, 1, 2]))
        p["boxes"].append(x)
    return p


def box_of(rng, prog):
    """A box around an enumerated text: frames for its lines and ranges."""
    p = gen_box(rng)
    x = p["texts"][0]
    x["in"] = "".join(prog["in"])
    p["texts"] = [x]
    p["styles"] = {"a": rec(size=32000), "b": rec(bold="T", prio=1)}
    p["boxes"] = []
    for i in range(prog["n"]):
        p["boxes"].append({"text": 1, "pad": 0, "w": -1, "z": 0, "kind": "line", "i": i, "n": rng.randrange(1, prog["n"] - i + 1)})
    for name in ("a", "b"):
        for k in (1, 2):
            p["boxes"].append({"text": 1, "pad": 0, "w": -1, "z": 0, "kind": "inline", "name": name, "k": k})
    return p
