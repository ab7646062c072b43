"""Markdown documents: generator, serialisation as CommonMark, execution on the real code, observation."""
import random
import elsie_env as ee
from textprog import rec, style_of, rows_of, texts_of, DEFAULT, BUILTIN
from elsie.ext import markdown

SPANS = ("b", "i", "l", "st")
DELIM = {"b": "**", "i": "*"}


def serialize(doc, rng=None, esc="~"):
    """CommonMark of a document (see spec/Markdown.tla); rng varies what does not matter."""
    kids = {}
    for i, n in enumerate(doc):
        kids.setdefault(n["p"], []).append(i + 1)
    rnd = rng or random.Random(0)

    def inl(i):
        n = doc[i - 1]
        k = n["k"]
        if k == "t":
            return n["s"]
        if k == "br":
            return "\n"
        body = "".join(inl(j) for j in kids.get(i, []))
        if k == "l":
            return "[%s](%s)" % (body, rnd.choice(["u", "http://a.b/c", "<x y>", 'u "title"']) if rng else "u")
        if k == "st":
            return "%s%s{%s}" % (esc, n["s"], body)
        return DELIM[k] + body + DELIM[k]

    def block(i):
        """lines of block i"""
        n = doc[i - 1]
        k = n["k"]
        text = "".join(inl(j) for j in kids.get(i, [])) if k in ("h", "p", "code") else ""
        if k == "h":
            return ["#" * n["n"] + " " + text + (" #" * rnd.randrange(2) if rng else "")]
        if k == "p":
            return text.split("\n")
        if k == "code":
            f = rnd.choice(["```", "~~~", "````"]) if rng else "```"
            return [f + n["s"]] + text.split("\n") + [f]
        if k == "q":
            return [("> " + s) if s else rnd.choice([">", "> "]) for s in blocks(kids[i])]
        res = []
        loose = rng is not None and rnd.random() < 0.3
        for c, j in enumerate(kids[i]):
            mark = "%s" % n["s"] if k == "ul" else "%d." % (n["n"] + (c if rnd.random() < 0.5 else 0) if c else n["n"])
            w = len(mark) + (rnd.choice([1, 1, 2]) if rng else 1)
            ls = blocks(kids[j])
            if c and loose:
                res.append("")
            res += [mark + " " * (w - len(mark)) + ls[0]] + [" " * w + s if s else "" for s in ls[1:]]
        return res

    def blocks(ids):
        res = []
        prev = None
        for i in ids:
            k = doc[i - 1]["k"]
            if prev and not (rng and tight(prev, k, doc[i - 1]) and rnd.random() < 0.5):
                res += [""] * (rnd.choice([1, 1, 2]) if rng else 1)
            res += block(i)
            prev = k
        return res

    def tight(a, b, nb):
        if a in ("h", "code"):
            return True
        if b == "p" or a == b == "q":
            return False
        if b == "ol" and nb["n"] != 1 and a != "h":
            return False
        return not (a in ("ul", "ol") and b in ("ul", "ol"))
    return "\n".join(blocks(kids.get(0, [])))


STYLE_NAMES = ["md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote"] + ["md-h%d" % i for i in range(1, 7)]


def run(env, p):
    """p: doc, user (name -> record), esc, wrap -> trace"""
    t = {"doc": p["doc"], "err": "", "texts": []}
    rng = random.Random(p["seed"]) if "seed" in p else None
    esc = p.get("esc", "~")
    user = dict(BUILTIN)
    user["default"] = DEFAULT
    user.update(p.get("user") or {})
    t["user"] = user
    try:
        text = serialize(p["doc"], rng, esc) if "text" not in p else p["text"]
        t["text"] = text
        deck = env.deck(height=4000)
        slide = deck.new_slide()
        box = slide.box()
        where = rng.choice([deck, slide, box]) if rng and not p.get("user") else box
        for n, r in (p.get("user") or {}).items():
            where.set_style(n, style_of(r), base=None) if False else where.set_style(n, style_of(r))
        if p.get("wrap"):
            text = "\n" + "\n".join("    " + s if s else rng.choice(["", "    "]) for s in text.split("\n")) + "\n    "
        kw = {"escape_char": esc} if esc != "~" else {}
        with ee.quiet():
            markdown(box, text, **kw)
        for e in texts_of(ee.pages(deck)[0]):
            rows, looks = rows_of(e)
            if rows:
                t["texts"].append([[{"s": "".join(q["s"]), "l": looks[q["l"] - 1]} for q in r["r"]] for r in rows])
    except Exception:
        import traceback
        t["err"] = traceback.format_exc()[-300:]
    return t


WORDS = ["one", "Two", "three3", "x", "foo(bar)", "1 + 2", "caf\u00e9", "a, b.", "why?", "semi; colon:", "a  b", "it's", "\"q\"", "5 %", "end."]


def gen(rng):
    doc = []

    def add(p, k, n=0, s=""):
        doc.append({"p": p, "k": k, "n": n, "s": s})
        return len(doc)

    def words(first=True, last=True):
        s = " ".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 2])))
        return ("" if first else " ") + s + ("" if last else " ")

    def inline(p, depth, around, br):
        """text, span, text, ...; spans are surrounded by blanks inside of spans"""
        n = rng.choice([1, 1, 2, 3])
        start = not around and n > 1 and rng.random() < 0.3
        if not start:
            add(p, "t", s=words(True, n == 1))
        for i in range(n - 1):
            span(p, depth, around)
            last = i == n - 2
            if last and not around and rng.random() < 0.5 and not br:
                break
            if br and rng.random() < 0.4:
                add(p, "br")
                add(p, "t", s=words(True, last))
            else:
                add(p, "t", s=words(False, last))

    def span(p, depth, around):
        ks = [k for k in SPANS if k not in around]
        if not ks or depth > 3:
            add(p, "t", s="zz")
            return
        k = rng.choice(ks)
        me = add(p, k, s=rng.choice(["tt", "emph", "alert"]) if k == "st" else "")
        inline(me, depth + 1, around | {k}, False)

    def code(p, lang):
        lines = {"": ["a {b} ~tt{c}", "  *x*", "end"], "python": ["def f(x):", "    return x  # c", "print(\"a\")"],
                 "rust": ["fn main() {", "  let a = 1;", "}"]}[lang]
        k = rng.randrange(1, 4)
        lead = rng.choice(["", "", "  ", "    "])
        lines = [lead + s for s in lines]
        add(p, "t", s=lines[0] + rng.choice(["", "", "  "]))
        for i in range(1, k):
            add(p, "br")
            if rng.random() < 0.2:
                add(p, "br")
            add(p, "t", s=lines[i])

    def blocks(p, depth, n):
        prev = ""
        for _ in range(n):
            ks = ["h", "p", "p", "code", "q", "ul", "ol"]
            if depth >= 3:
                ks = ["h", "p", "code"]
            if len(doc) > 40:
                ks = ["p"]
            k = rng.choice([k for k in ks if k != prev or k not in ("ul", "ol")])
            if k == "h":
                inline(add(p, "h", rng.randrange(1, 7)), 0, frozenset(), False)
            elif k == "p":
                inline(add(p, "p"), 0, frozenset(), True)
            elif k == "code":
                lang = rng.choice(["", "python", "rust"])
                code(add(p, "code", s=lang), lang)
            elif k == "q":
                blocks(add(p, "q"), depth + 1, rng.choice([1, 1, 2, 3]))
            else:
                me = add(p, k, rng.choice([1, 1, 2, 0, 10]) if k == "ol" else 0, rng.choice(["-", "*"]) if k == "ul" else "")
                for _ in range(rng.choice([1, 2, 2, 3])):
                    li = add(me, "li")
                    if rng.random() < 0.8:
                        inline(add(li, "p"), 0, frozenset(), True)
                        if rng.random() < 0.5:
                            # a paragraph follows the paragraph: a blank line in between
                            blocks(li, depth + 1, rng.choice([1, 1, 2]))
                    else:
                        blocks(li, depth + 1, rng.choice([1, 2]))
            prev = k
    blocks(0, 0, rng.choice([1, 2, 3, 4, 6]))
    p = {"doc": doc, "seed": rng.getrandbits(30), "esc": rng.choice(["~", "~", "~", "$", "^"]), "wrap": rng.random() < 0.3}
    if rng.random() < 0.5:
        user = {}
        for n in rng.sample(STYLE_NAMES + ["default", "tt", "code"], rng.choice([1, 2, 3])):
            r = rec()
            for a, vs in (("color", ["red", "#123456"]), ("size", [10000, 33000]), ("bold", ["T", "F"]), ("italic", ["T", "F"]),
                          ("font", ["serif", "Arial"]), ("opacity", ["0.5"])):
                if rng.random() < 0.35:
                    r[a] = rng.choice(vs)
            if n in ("default", "code"):
                b = DEFAULT if n == "default" else BUILTIN["code"]
                r = {k: (r[k] if r[k] not in ("", -1) or k == "prio" else b[k]) for k in r}
            user[n] = r
        p["user"] = user
    return p
