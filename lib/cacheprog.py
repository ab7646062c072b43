"""Histories of program runs on one cache directory, executed on the real code (a process per run) and recorded as
traces for spec/CacheTrace.tla."""
import base64, hashlib, io, json, os, re, signal, sys, time
import common
import lxml.etree as et
from elsie_env import FAKE, fx, pdf_pages, quiet
import ora, tex_standin

VERSIONS = {  # version id of a run -> (elsie version, Inkscape version, metric, text_to_path)
    1: (None, "1.2.2", .5, False), 2: (None, "1.3", .55, False), 3: ("3.3", "1.2.2", .5, False),
    4: (None, "1.2.2", .5, True), 5: (None, "0.92", .45, False)}
QVER = {1: 1, 2: 2, 3: 3, 4: 1, 5: 5}   # text_to_path does not change measurements
CONTENTS = 14


def md5(s):
    return hashlib.md5(s if isinstance(s, bytes) else s.encode()).hexdigest()


def make_assets(d):
    os.makedirs(d, exist_ok=True)
    red = ora.layer_png((8, 8), (1, 2, 5, 6), (255, 0, 0, 255))
    blue = ora.layer_png((8, 8), (0, 0, 8, 8), (0, 0, 255, 255))
    lay = lambda n, p: {"name": n, "x": 0, "y": 0, "vis": True, "op": 1, "png": p}
    ora.write_ora(os.path.join(d, "a.ora"), 8, 8, [lay("top **2**", red), lay("base", blue)])
    ora.write_ora(os.path.join(d, "b.ora"), 8, 8, [lay("base", red)])
    with open(os.path.join(d, "i.svg"), "w") as f:
        f.write('<svg xmlns="http://www.w3.org/2000/svg" width="20" height="10"><rect width="20" height="10"/></svg>')


NEAR = ["a b", "a  b", "A b", "ab", "a b ", "", "a\nb", "a b.", "~emph{a} b", "a ~emph{b}", "l'a <b>", "l'a &lt;b&gt;", "\u00e1 b", "a\u00a0b",
        "x" * 300, "x" * 299 + "y", "y" + "x" * 299, "1.0", "1", " a"]


def near(slide, i):
    """Contents that differ in a detail only."""
    import elsie
    i, k = divmod(i, 5)
    if k == 4:      # the same text under other definitions of its styles
        b = slide.box()
        v = [dict(size=30), dict(size=40), dict(bold=True), dict(color="#777777"), dict(size=40, bold=True)][i % 5]
        j = i // 5
        b.set_style("emph" if j % 4 == 3 else "mark", elsie.TextStyle(**v))
        b.set_style("mark" if j % 4 == 3 else "emph", elsie.TextStyle(size=22))
        b.rect(color="#abcdef")
        t = b.text("a ~emph{~mark{b}c}" if j % 2 else "a ~mark{b}", "mark" if j % 4 == 2 else "default")
        t.inline_box("mark").rect(color="#fedcba")
    elif k < 3:
        s = [dict(), dict(size=28.0001), dict(size=29), dict(bold=True), dict(italic=True), dict(font="Other"),
             dict(color="#000001"), dict(align="left"), dict(line_spacing=1.21), dict(variant_numeric="oldstyle-nums")]
        t = NEAR[i % len(NEAR)]
        b = slide.box()
        b.rect(color="#abcdef")      # shows the measured size
        b.text(t, elsie.TextStyle(**s[(i // len(NEAR)) % len(s)]))
    else:
        slide.box(x=10, y=[10, 10.001, 11, "10%"][i % 4], width=[20, 20.5][i // 4 % 2], height=9).rect(
            bg_color=["#111111", "#111112", "black"][i // 8 % 3], rx=[None, 1][i // 24 % 2])


def content(slide, c, assets):
    import elsie
    if c >= 100:
        return near(slide, c - 100)
    if c == 1:
        slide.box(width=30, height=20).rect(bg_color="#123456")
    elif c == 2:
        b = slide.box()
        b.rect(bg_color="#efefef")
        b.text("Hello")
    elif c == 3:
        b = slide.box()
        b.rect(bg_color="#efefef")
        b.text("Hello", elsie.TextStyle(size=40))
    elif c == 4:
        t = slide.box().text("ab ~emph{cd}\nefg ~emph{hi}")
        t.inline_box("emph", 1).rect(color="black")
        t.line_box(0).rect(color="red")
    elif c == 5:
        slide.box().image(os.path.join(assets, "i.svg"))
        slide.box(width=50).rect(color="#00ff00")
    elif c == 6:
        slide.box().image(os.path.join(assets, "a.ora"))
    elif c == 7:
        slide.box().code("python", "x = 1\nwhile x: pass")
    elif c == 8:
        b = slide.box()
        b.box().text("one")
        b.box(show="next+").text("two")
    elif c == 9:
        slide.box(width="30%", height="20%").text("fit\nme", scale_to_fit=True)
    elif c == 10:
        slide.box().text("Hello there")
        slide.box().text("Hello")
    elif c == 11:
        slide.box().image(os.path.join(assets, "b.ora"))
        slide.box().text("~tt{mono} x")
    elif c in (13, 14):
        from elsie.ext.latex import latex
        if c == 13:
            slide.box().text("Formula")
        latex(slide.box(), "$x^%d$" % c, scale=1.5 if c == 13 else 1.0)
    elif c == 12:
        slide.box().rect(bg_color="#123456")


def scan(d):
    """Cache entries of a directory: {file name: [digest of the page, type]}, None for unreadable ones."""
    res = {}
    for n in os.listdir(d):
        if not n.startswith("cache."):
            continue
        res[n] = None
        try:
            with open(os.path.join(d, n), "rb") as f:
                data = f.read()
            ext = n.rsplit(".", 1)[1]
            if ext == "pdf":
                if not data.endswith(b"%%EOF\n"):
                    continue
                svg = base64.b64decode(re.search(rb"%SVG:([A-Za-z0-9+/=]*)", data).group(1), validate=True)
            elif data.startswith(b"FAKE-"):
                svg = base64.b64decode(data.split(b":")[2], validate=True)
            else:
                svg = data
            et.fromstring(svg)
            res[n] = [md5(svg), ext]
        except Exception:
            pass
    return res


# ------------------------------------------------------------------ in the process of a run
class CrashFile:
    """A file opened for writing inside of the cache directory: every write may be the last one."""

    def __init__(self, f, tick):
        self._f, self._tick = f, tick

    def write(self, s):
        self._tick("write")
        n = len(s)
        if self._tick.partial and n > 1:
            self._f.write(s[:n // 2])
            self._f.flush()
            self._tick("write half")
            self._f.write(s[n // 2:])
        else:
            self._f.write(s)
        self._f.flush()
        return n

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


class Tick:
    def __init__(self, root, at):
        self.root, self.at, self.n, self.partial, self.names = root, at, 0, True, []
        self.busy = False

    def __call__(self, what):
        self.n += 1
        if self.at is not None and self.n == self.at:
            os._exit(9)

    def inside(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode("utf8", "replace")
        return isinstance(p, str) and os.path.abspath(p).startswith(self.root + os.sep)

    def install(self):
        import builtins
        real = builtins.open

        def audit(event, args):
            if event in ("os.rename", "os.remove", "os.truncate", "os.mkdir", "os.rmdir", "os.link", "os.symlink"):
                if any(self.inside(a) for a in args if isinstance(a, (str, bytes))):
                    self(event)
            elif event == "open" and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR) and \
                    isinstance(args[0], (str, bytes)) and self.inside(args[0]):
                self(event)
        sys.addaudithook(audit)

        def opened(file, mode="r", *a, **k):
            f = real(file, mode, *a, **k)
            if not isinstance(file, int) and self.inside(file) and any(c in mode for c in "wax+"):
                self("opened")
                return CrashFile(f, self)
            return f
        builtins.open = opened


def body(job, emit):
    """Runs in the child process."""
    elsie_version, ink, metric, ttp = VERSIONS[job["v"]]
    if elsie_version is not None:
        import types
        for m in [m for m in sys.modules if m == "elsie" or m.startswith("elsie.")]:
            del sys.modules[m]
        stub = types.ModuleType("elsie.version")
        stub.VERSION = elsie_version
        sys.modules["elsie.version"] = stub
    import elsie
    from elsie.render.backends import InkscapeBackend
    from elsie.render.inkscape import InkscapeShell
    log = job["log"]
    with open(job["conf"], "w") as f:
        json.dump({"version": "Inkscape %s (fake)" % ink, "metric": metric, "stamp": "-" + ink, "log": log,
                   "faults": job["faults"]}, f)
    os.environ["FAKE_INKSCAPE_CONF"] = job["conf"]
    tex_standin.install()
    os.environ["FAKE_TEX_LOG"] = log
    tf = [f for f in job["faults"] if f["cmd"] == "tex"]
    os.environ["FAKE_TEX_NTH"], os.environ["FAKE_TEX_KIND"] = (str(tf[0]["nth"]), tf[0]["kind"]) if tf else ("", "")
    tick = Tick(job["cache"][0], job["crash"])
    tick.partial = job.get("partial", True)
    if job["crash"] is not None or job.get("count"):
        tick.install()
    shell = InkscapeShell(FAKE, text_to_path=ttp)
    decks, slides, pos = {}, {}, [0]

    def logs():
        if not os.path.isfile(log):
            return []
        with open(log) as f:
            f.seek(pos[0])
            lines = f.readlines()
            pos[0] = f.tell()
        return [json.loads(x) for x in lines]
    for i, op in enumerate(job["ops"]):
        r = {"i": i, "ok": True, "out": "", "units": [], "ops0": tick.n}
        d = op["d"]
        try:
            with quiet():
                if op["op"] == "deck":
                    cd = job["cache"][(d - 1) % len(job["cache"])]
                    decks[d] = elsie.SlideDeck(width=200, height=150, cache_dir=cd,
                                               backend=InkscapeBackend(inkscape=shell, cache_dir=cd))
                    slides[d] = []
                elif op["op"] == "slide":
                    b = decks[d].new_slide()
                    slides[d].append(b)
                    content(b, op["c"], job["assets"])
                elif op["op"] == "more":
                    content(slides[d][op["s"] % len(slides[d])], op["c"], job["assets"])
                else:
                    if job["ref"]:
                        kw = dict(output=None, return_units=True, prune_cache=False, save_cache=False)
                        r["units"] = [md5(u.get_svg()) for u in decks[d].render(**kw, **sel(op, slides[d]))]
                    r["out"] = render(decks[d], slides[d], op, job["work"])
        except Exception as e:
            r["ok"] = False
            r["exc"] = repr(e)[:300]
        r["log"] = logs()
        r["ops1"] = tick.n
        if not job["ref"]:
            r["files"] = scan(job["cache"][0])
        emit(r)
        if not r["ok"] and op["op"] != "render":
            break
    try:
        shell.process.stdin.close()
    except OSError:
        pass        # it was already gone
    shell.process.wait()


def sel(op, slides):
    kw = {}
    if op.get("sel"):
        kw["select_slides"] = [slides[i % len(slides)].slide for i in op["sel"]]
    if op.get("grid"):
        kw["slides_per_page"] = tuple(op["grid"])
    return kw


def render(deck, slides, op, work):
    kw = dict(prune_cache=op["prune"], save_cache=op["save"])
    kw.update(sel(op, slides))
    k = op["kind"]
    if k == "units":
        out = [u.get_svg() for u in deck.render(output=None, return_units=True, **kw)]
    elif k in ("pypdf", "pdfunite"):
        path = os.path.join(work, "out.pdf")
        if os.path.exists(path):
            os.unlink(path)
        deck.render(path, pdf_merger=k, **kw)
        out = pdf_pages(path)
    elif k == "pdflist":
        out = [pdf_pages(f) for f in deck.render(None, pdf_merger=None, **kw)]
    elif k == "html":
        html = slides[op["sel"][0] % len(slides)].slide._repr_html_()
        out = re.findall(r"base64,\s*([A-Za-z0-9+/=\s]+)", html)
    else:
        out = []
        for f in deck.render(None, export_type=k, **kw):
            with open(f, "rb") as g:
                out.append(g.read().decode("latin1"))
    return md5(json.dumps(out))


def run_child(job, timeout=60):
    """-> list of op results (possibly incomplete), exit code"""
    out = job["result"]
    for p in (out, job["log"]):
        if os.path.exists(p):
            os.unlink(p)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            body(job, lambda r: os.write(fd, (json.dumps(r) + "\n").encode()))
        except BaseException as e:
            os.write(fd, (json.dumps({"fatal": repr(e)[:300]}) + "\n").encode())
            os._exit(5)
        os._exit(0)
    end = time.time() + timeout
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = -1
            break
        time.sleep(0.003)
    res = []
    if os.path.exists(out):
        with open(out) as f:
            res = [json.loads(x) for x in f]
    return res, st


# ------------------------------------------------------------------ histories
class History:
    """Executes runs on one cache directory and records them."""

    refs = {}

    def __init__(self, base):
        self.base = base
        self.n = 0
        self.dir = self.fresh("cache")
        self.assets = os.path.join(base, "assets")
        if not os.path.isdir(self.assets):
            make_assets(self.assets)
        self.ids = {}
        self.names = {}       # file name -> [key, version]
        self.ev = []
        self.foreign = {}
        for n, c in (("notes.txt", "x"), ("other.pdf", "%PDF"), ("xcache.1.pdf", "y"), ("mycache", "z")):
            with open(os.path.join(self.dir, n), "w") as f:
                f.write(c)
            self.foreign[n] = c

    def fresh(self, what):
        self.n += 1
        import random
        d = os.path.join(self.base, "%s%d" % (what, random.getrandbits(60)))
        os.makedirs(d)
        return d

    def key(self, k):
        return self.ids.setdefault(json.dumps(k), len(self.ids) + 1)

    def job(self, run, cache, ref):
        w = os.path.join(self.base, "work")
        os.makedirs(w, exist_ok=True)
        return {"v": run["v"], "ops": run["ops"], "cache": cache, "assets": self.assets, "work": w,
                "log": os.path.join(self.base, "log"), "conf": os.path.join(self.base, "conf"),
                "result": os.path.join(self.base, "result"), "faults": [] if ref else run.get("faults", []),
                "crash": None if ref else run.get("crash"), "ref": ref, "count": not ref and run.get("count"),
                "partial": run.get("partial", True)}

    def ref(self, run):
        k = json.dumps([run["v"], run["ops"]])
        if k not in self.refs:
            nd = max(o["d"] for o in run["ops"])
            dirs = [self.fresh("ref") for _ in range(nd)]
            res, st = run_child(self.job(run, dirs, True))
            import shutil
            for d in dirs:
                shutil.rmtree(d)
            if st != 0 or len(res) != len(run["ops"]) or not all(r["ok"] for r in res):
                res = {"failed": res[-1:], "st": st}
            if len(self.refs) > 400:
                self.refs.clear()
            self.refs[k] = res
        return self.refs[k]

    def see(self, files, v):
        """{name: content id} -> list of [key, version]"""
        res = []
        for n, c in sorted(files.items()):
            k = self.key(["x"] + c) if c else 0
            if n not in self.names or self.names[n][0] != k:
                self.names[n] = [k, v]
            res.append(self.names[n])
        return res

    def foreign_ok(self):
        for n, c in self.foreign.items():
            try:
                with open(os.path.join(self.dir, n)) as f:
                    if f.read() != c:
                        return False
            except OSError:
                return False
        return True

    def run(self, run):
        """run: {v, ops, faults, crash}"""
        ref = self.ref(run)
        files0 = self.see(scan(self.dir), run["v"])
        res, st = run_child(self.job(run, [self.dir], False))
        v = run["v"]
        self.ev.append({"e": "start", "v": v, "iv": QVER[v], "files": files0})
        crashed = st != 0
        kill = any(f["kind"].startswith("kill") for f in run.get("faults", []))
        planned = run.get("crash") is not None or kill
        self.ops = res[-1].get("ops1", 0) if res else 0
        self.marks = [(r.get("ops0", 0), r.get("ops1", 0)) for r in res]
        if isinstance(ref, dict):
            # the program fails on an empty cache directory as well
            self.ev.append({"e": "noref", "why": json.dumps(ref)[:300]})
            return
        faulty = bool(run.get("faults")) and not kill
        for i, op in enumerate(run["ops"]):
            g = ref[i]
            if i >= len(res) or "fatal" in res[i]:
                break
            r = res[i]
            self.event(op, i, r, g, v, faulty and not r["ok"], last=i == len(res) - 1)
        if crashed and planned:
            self.ev.append({"e": "crash", "d": run["ops"][min(len(res), len(run["ops"]) - 1)]["d"],
                            "files": self.see(scan(self.dir), v),
                            "op": run["ops"][min(len(res), len(run["ops"]) - 1)]["op"],
                            "needm": self.needm(ref, min(len(res), len(run["ops"]) - 1)), "foreign": self.foreign_ok()})
        elif crashed:
            self.ev.append({"e": "died", "why": json.dumps(res[-1:])[:300], "st": st})
        else:
            self.ev.append({"e": "exit", "files": self.see(scan(self.dir), v), "foreign": self.foreign_ok()})

    def needm(self, ref, i):
        return sorted({self.key(["m", x["c"], x["d"]]) for x in ref[i]["log"] if x["c"].startswith("query")})

    def event(self, op, i, r, g, v, fault, last):
        m = [self.key(["m", x["c"], x["d"]]) for x in r["log"] if x["c"].startswith("query")]
        need = sorted({self.key(["m", x["c"], x["d"]]) for x in g["log"] if x["c"].startswith("query")})
        e = {"e": op["op"] if op["op"] in ("deck", "render") else "build", "d": op["d"], "ok": r["ok"], "fault": fault,
             "m": m, "needm": need, "same": r["out"] == g["out"], "exc": r.get("exc", "")}
        if op["op"] == "render":
            x = [self.key(["x", y["d"], y["t"]]) for y in r["log"] if y["c"] == "export-do"]
            t = {"units": None, "html": "png", "pypdf": "pdf", "pdfunite": "pdf", "pdflist": "pdf"}.get(op["kind"], op["kind"])
            e.update(prune=op["prune"] and op["kind"] != "html", save=op["save"] or op["kind"] == "html",
                     file=op["kind"] not in ("units",), x=x,
                     badx=[self.key(["x", y["d"], y["t"]]) for y in r["log"] if y["c"] == "export-do" and y["bad"]],
                     needx=[] if t is None else sorted({self.key(["x", u, t]) for u in g["units"]}))
        elif op["op"] != "deck":
            e["conv"] = sorted({self.key(["x"] + f) for f in self.conversions(op["c"])[1]})
            e["tex"] = [self.compiled(x["d"]) for x in r["log"] if x["c"] == "tex"]
            e["badtex"] = [self.compiled(x["d"]) for x in r["log"] if x["c"] == "tex" and x["bad"]]
            e["needtex"] = sorted({self.key(["x"] + f) for f in self.conversions(op["c"])[1]} if op["c"] in (13, 14) else [])
        e["files"] = self.see(r["files"], v)
        self.ev.append(e)

    convs = {}

    def conversions(self, c):
        """What the conversion of a content (an ORA image or a LaTeX formula) leaves in the cache: [texts it compiled, files]"""
        if c not in self.convs:
            if c not in (6, 11, 13, 14):
                self.convs[c] = [[], []]
            else:
                d = self.fresh("conv")
                run = {"v": 1, "ops": [{"op": "deck", "d": 1}, {"op": "slide", "d": 1, "c": c}]}
                res, st = run_child(dict(self.job(run, [d], True), ref=False))
                import shutil
                shutil.rmtree(d)
                log = res[-1]["log"] if res else []
                files = res[-1].get("files", {}) if res else {}
                self.convs[c] = [[x["d"] for x in log if x["c"] == "tex"], [v for v in files.values() if v]]
        return self.convs[c]

    def compiled(self, d):
        """Key of the file that compiling of a TeX text makes."""
        for c in (13, 14):
            t, f = self.conversions(c)
            if d in t:
                return self.key(["x"] + f[0])
        return self.key(["tex", d])

    def trace(self):
        return {"ev": self.ev}
