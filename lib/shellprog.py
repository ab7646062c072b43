"""Sequences of measurements and exports through one Inkscape process that misbehaves, executed on the real code and
recorded as traces for spec/ShellTrace.tla."""
import base64, json, os, random, re, shutil, signal
import common
from common import Hang, with_timeout
from elsie_env import FAKE, fx, parse_page, quiet, read_log
import cacheprog
import elsie
from elsie.render.backends import InkscapeBackend
from elsie.render.inkscape import InkscapeShell

SIZE = 20.0625   # widths that are not round
ADV = SIZE * .5
NOISE = ["WARNING: something\n", "\n", ">\n", "a > b\n", "line one\nline two > \n\n", "42.5\n", "  \n", ">x\n", " > \n", "\u00e1\u20ac\n",
         "x" * 5000 + "\n", "1\n2\n3\n", "Unable to open\n"]
JUNK = ["", "error", "1,5", "WARNING: x", "1.5px", "--", "12 13", "None"]
TIMEOUT = 8


class Conversation:
    def __init__(self, base, faults, ttp=False, chunk=None, banner=None, timeout=TIMEOUT):
        self.dir = os.path.join(base, "s%d" % random.getrandbits(60))
        os.makedirs(os.path.join(self.dir, "c"))
        self.log = os.path.join(self.dir, "log")
        conf = {"log": self.log, "faults": faults, "log_faults": True}
        if chunk:
            conf["chunk"] = chunk
        if banner is not None:
            conf["banner"] = banner
        self.conf = os.path.join(self.dir, "conf")
        with open(self.conf, "w") as f:
            json.dump(conf, f)
        self.ev, self.texts, self.seen = [], [], 0
        self.timeout, self.ttp, self.dead = timeout, ttp, False
        self.shell = self.deck = None

    def fired(self):
        """Faults that fired since the last call."""
        r = read_log(self.log)
        new, self.seen = r[self.seen:], len(r)
        return [self.klass(x) for x in new if x["c"] == "fault"]

    @staticmethod
    def klass(x):
        k, c = x["kind"], x["cmd"]
        if k.startswith("die"):
            return "die"
        if k == "nofile":
            return "nofile" if c == "export-do" else "harmless"
        if k == "reply":
            if c.startswith("query-"):
                return "junk"
            return "harmless"
        return "harmless"

    def do(self, what, needs, fn):
        e = {"e": what, "needs": needs, "ok": True, "hang": False, "value": True, "stored": False, "exc": "", "present": []}
        try:
            with quiet():
                e["r"] = with_timeout(self.timeout, fn)
        except Hang:
            e["ok"], e["hang"] = False, True
            self.dead = True
        except Exception as x:
            e["ok"], e["exc"] = False, repr(x)[:200]
        e["fs"] = self.fired()
        self.ev.append(e)
        return e

    def start(self):
        os.environ["FAKE_INKSCAPE_CONF"] = self.conf

        def fn():
            self.shell = InkscapeShell(FAKE, text_to_path=self.ttp)
            self.deck = elsie.SlideDeck(width=400, height=300, cache_dir=os.path.join(self.dir, "c"),
                                        backend=InkscapeBackend(inkscape=self.shell, cache_dir=os.path.join(self.dir, "c")))
            self.deck.update_style("default", elsie.TextStyle(size=SIZE, align="left"))
        e = self.do("start", [0], fn)
        e.pop("r", None)
        return e["ok"]

    def string(self, i):
        return "t" * (i + 1)

    def text(self, i=None, inline=False):
        """A text of its own length on a slide of its own; i: the text of that earlier request again."""
        again = i is not None
        n = len(self.ev)
        i = n if i is None else i
        slide = self.deck.new_slide(bg_color="#%06x" % (n + 1))
        box = slide.box()
        box.rect(color="#0000%02x" % n)
        t = {"slide": slide.slide, "i": i, "inline": inline, "n": n, "again": again}

        def fn():
            if inline:
                r = box.text(self.string(i) + "~emph{" + "m" * (i + 2) + "}u")
                r.inline_box("emph").rect(color="#00ff%02x" % n)
            else:
                box.text(self.string(i))
        e = self.do("text", [1000 + i] if inline else [i], fn)
        e.pop("r", None)
        t["e"] = e
        self.texts.append(t)

    def export(self, rng, j=None, typ=None):
        t = self.texts[rng.randrange(len(self.texts)) if j is None else j]
        typ = typ or rng.choice(["pdf", "png", "svg"])
        key = 10000 + t["n"] * 10 + ["pdf", "png", "svg"].index(typ)
        with quiet():
            svg = self.deck.render(None, return_units=True, select_slides=[t["slide"]], prune_cache=False, save_cache=False)[0].get_svg()

        def fn():
            return self.deck.render(None, export_type=typ, pdf_merger=None, select_slides=[t["slide"]],
                                    prune_cache=False, save_cache=rng.random() < .3)
        # pages with the same content share their cache entry: each page has its own background
        e = self.do("export", [key], fn)
        r = e.pop("r", None)
        files = cacheprog.scan(os.path.join(self.dir, "c"))
        whole = [cacheprog.md5(svg), typ] in list(files.values())
        e["stored"] = any(v is None for v in files.values())
        if whole:
            e["present"] = [key]
        if e["ok"]:
            e["value"] = len(r) == 1 and self.file_ok(r[0], typ, svg)

    def file_ok(self, path, typ, svg):
        if not path.endswith("." + typ) or not os.path.isfile(path):
            return False
        with open(path, "rb") as f:
            data = f.read()
        o = b"text-to-path" if self.ttp else b""
        if typ == "pdf":
            m = re.search(rb"%SVG:([A-Za-z0-9+/=]*)\n%OPT:(.*)", data)
            return bool(m) and base64.b64decode(m.group(1)).decode() == svg and m.group(2).strip() == o and data.endswith(b"%%EOF\n")
        if typ == "svg":
            return data.decode() == svg
        p = data.split(b":")
        return p[0] == b"FAKE-png" and p[1] == o and base64.b64decode(p[2]).decode() == svg

    def finish(self):
        """Check the measured values through the layout of the pages; no Inkscape is needed for it."""
        for t in self.texts:
            if self.dead or not t["e"]["ok"]:
                continue
            with quiet():
                u = self.deck.render(None, return_units=True, select_slides=[t["slide"]], prune_cache=False, save_cache=False)
            _, items = parse_page(u[0].get_svg())
            rect = {}
            for it in items:
                c = it["style"].get("stroke", "none")
                if it["kind"] == "rect" and c.startswith("#00"):
                    rect[c] = it["attr"]
            n, i = t["n"], t["i"]
            want = (i + 1) * ADV
            if t["inline"]:
                want += (i + 2) * ADV + ADV
            r = rect.get("#0000%02x" % n)
            ok = r is not None and abs(float(r["width"]) - want) < 1e-6
            if ok and t["inline"]:
                q = rect.get("#00ff%02x" % n)
                ok = q is not None and abs(float(q["width"]) - (i + 2) * ADV) < 1e-6 and \
                    abs(float(q["x"]) - float(r["x"]) - (i + 1) * ADV) < 1e-6
            t["e"]["value"] = ok
        if self.shell is not None:
            p = self.shell.process
            try:
                p.kill()
                p.wait()
                p.stdin.close()
            except OSError:
                pass
            try:
                p.stdout.close()
            except OSError:
                pass
        shutil.rmtree(self.dir)

    def trace(self):
        return {"ev": self.ev}


def fault(rng, f, cmd, nth):
    """A fault of the specification -> of the stand-in."""
    r = {"cmd": cmd, "nth": nth, "kind": f}
    if f == "noise":
        r["text"] = rng.choice(NOISE)
        if rng.random() < .3:
            r["text"] += rng.choice(NOISE)
    elif f == "stderr":
        r["n"] = rng.choice([10, 70000, 300000])
    elif f == "chunk":
        r["n"], r["delay"] = rng.choice([1, 1, 2, 3]), rng.choice([0, 0, .002])
    elif f == "die_partial":
        r["cut"] = rng.choice([1, 1, 2, 3, 5])
    elif f == "junk":
        r["kind"], r["text"] = "reply", rng.choice(JUNK)
    return r


def plan_run(base, rng, plan):
    """A history of MC_ShellPlan."""
    faults, nth = [], {"file-close": 1}
    for q in plan:
        if q["k"] == "again":
            continue        # its own commands are unknown unless the first request failed
        stages = ["file-open", "export-type", "export-filename", "export-do", "file-close"] if q["k"] == "export" else \
            ["file-open", "select", "query-width", "file-close"]
        for f in q["fs"]:
            at = "query-width" if f["at"] == "query" else f["at"]
            faults.append(fault(rng, f["f"], at, nth.get(at, 0) + 1))
        for s in stages:
            nth[s] = nth.get(s, 0) + (3 if q["k"] == "inline" and s != "query-width" else 2 if q["k"] == "inline" else 1)
    c = Conversation(base, faults, ttp=rng.random() < .3)
    if c.start():
        for q in plan:
            if c.dead:
                break
            if q["k"] == "text":
                c.text()
            elif q["k"] == "inline":
                c.text(inline=True)
            elif q["k"] == "again":
                c.text(c.texts[0]["i"] if c.texts and not c.texts[0]["inline"] else None)
            elif c.texts:
                c.export(rng)
    c.finish()
    return c.trace()


def random_run(base, rng, p):
    n = rng.randint(2, 14)
    faults = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        k = rng.choice(p["kinds"])
        cmd = rng.choice(["*", "file-open", "file-close", "select", "query-width", "query-x", "export-do", "export-type",
                          "inkscape-version", "export-area-page"])
        if k == "junk":
            cmd = rng.choice(["query-width", "query-x"])
        elif k in ("nofile", "die_partial_file"):
            cmd = "export-do"
        hi = 1 if cmd == "inkscape-version" else 40 if cmd == "*" else 8
        faults.append(fault(rng, k, cmd, 0 if k in ("noise", "chunk") and rng.random() < .3 else rng.randint(1, hi)))
    c = Conversation(base, faults, ttp=rng.random() < .3, chunk=rng.choice([None, None, 1, 2]),
                     banner=rng.choice([None, "", "\n", "Banner > line\n>\n", "WARNING\n\nInkscape interactive shell mode. > Type\n"]))
    if c.start():
        for _ in range(n):
            if c.dead:
                break
            x = rng.random()
            if x < .3 or not c.texts:
                c.text()
            elif x < .5:
                c.text(inline=True)
            elif x < .6:
                t = [t for t in c.texts if not t["inline"]]
                c.text(rng.choice(t)["i"] if t else None)
            else:
                c.export(rng)
    c.finish()
    return c.trace()
