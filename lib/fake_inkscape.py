#!/usr/bin/env python3
"""A stand-in for `inkscape --shell` with deterministic text metrics.

It speaks the shell protocol of Inkscape 1.x (prompt "> " at the start of a line), measures text with a
trivial metric (every character of a run advances by size/2, +size/8 if bold, +size/8 if the font is
"monospace"), exports one-page PDFs which carry the exported SVG in their content stream, and logs each
command.  FAKE_INKSCAPE_CONF names a JSON file:
  version: version string         log: file to which each command is appended (JSON lines)
  metric: advance of a character relative to the size   stamp: appended to the options of each export
  banner: text printed before the first prompt
  faults: list of {"cmd": name of a command or "*", "nth": n-th occurrence (1-based, 0 = each), "kind": ..., ...}
"""
import base64, hashlib, json, os, re, sys, time
import xml.etree.ElementTree as ET

SVGNS = "{http://www.w3.org/2000/svg}"


def styles_of(e, inherited):
    st = dict(inherited)
    for k, v in (i.split(":", 1) for i in (e.get("style") or "").split(";") if ":" in i):
        st[k.strip()] = v.strip()
    for a in ("font-family", "font-size"):
        if e.get(a) is not None:
            st[a] = e.get(a)
    return st


METRIC = 0.5


def advance(st):
    size = float(st.get("font-size", 16))
    f = METRIC
    if st.get("font-weight") == "bold":
        f += 0.125
    if st.get("font-family") == "monospace":
        f += 0.125
    return f * size


def measure(svg_text, ident):
    """-> (x, width, found) of the element with the given id."""
    root = ET.fromstring(svg_text)
    for text in root.iter(SVGNS + "text"):
        lines = [0.0]
        ranges = {}
        anchor = text.get("text-anchor", "start")
        x0 = float(text.get("x", 0))

        def walk(e, st):
            st = styles_of(e, st)
            if e.get("dy") is not None:
                lines.append(0.0)
            start = (len(lines) - 1, lines[-1])
            if e.text:
                lines[-1] += len(e.text) * advance(st)
            for c in e:
                walk(c, st)
                if c.tail:
                    lines[-1] += len(c.tail) * advance(st)
            if e.get("id") is not None:
                ranges[e.get("id")] = (start, (len(lines) - 1, lines[-1]))

        walk(text, {})
        if ident not in ranges:
            continue
        k = {"start": 0.0, "middle": 0.5, "end": 1.0}[anchor]
        (l1, p1), (l2, p2) = ranges[ident]
        if text.get("id") == ident:
            w = max(lines)
            return x0 - k * w, w, True
        return x0 - k * lines[l1] + p1, p2 - p1, True
    return 0.0, 0.0, False


def px(v):
    m = re.match(r"^\s*([-+.0-9eE]+)", v or "")
    return float(m.group(1)) if m else 100.0


def pdf_of(svg_text, extra=""):
    root = ET.fromstring(svg_text)
    w, h = px(root.get("width")) * 0.75, px(root.get("height")) * 0.75
    body = "%%SVG:%s\n%%OPT:%s\nq Q\n" % (base64.b64encode(svg_text.encode()).decode(), extra)
    objs = [
        "<< /Type /Catalog /Pages 2 0 R >>",
        "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
        "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %s %s] /Contents 4 0 R /Resources << >> >>" % (w, h),
        "<< /Length %d >>\nstream\n%sendstream" % (len(body), body),
    ]
    out = "%PDF-1.4\n"
    offs = []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += "%d 0 obj\n%s\nendobj\n" % (i + 1, o)
    xref = len(out)
    out += "xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1)
    out += "".join("%010d 00000 n \n" % o for o in offs)
    out += "trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, xref)
    return out.encode()


def export_bytes(svg_text, etype, opts):
    if etype == "pdf":
        return pdf_of(svg_text, opts)
    if etype == "svg":
        return svg_text.encode()
    return b"FAKE-" + etype.encode() + b":" + opts.encode() + b":" + base64.b64encode(svg_text.encode())


class Shell:
    def __init__(self, conf):
        self.conf = conf
        self.docs = []
        self.selected = None
        self.exp = {}
        self.log_f = open(conf["log"], "a") if conf.get("log") else None
        self.counts = {}
        self.total = 0
        self.out = sys.stdout

    def log(self, **kw):
        if self.log_f:
            self.log_f.write(json.dumps(kw) + "\n")
            self.log_f.flush()

    def write(self, s, chunk=None, delay=0.0):
        if chunk:
            for i in range(0, len(s), chunk):
                self.out.write(s[i:i + chunk])
                self.out.flush()
                if delay:
                    time.sleep(delay)
        else:
            self.out.write(s)
        self.out.flush()

    def faults(self, name):
        self.total += 1
        self.counts[name] = self.counts.get(name, 0) + 1
        res = []
        for f in self.conf.get("faults", ()):
            n = self.total if f["cmd"] == "*" else (self.counts[name] if f["cmd"] == name else -1)
            if n > 0 and (f["nth"] == 0 or f["nth"] == n):
                res.append(f)
        if self.conf.get("log_faults"):
            for f in res:
                self.log(c="fault", cmd=name, kind=f["kind"])
        return res

    def do(self, name, arg, fs):
        kinds = {f["kind"] for f in fs}
        if name == "file-open":
            try:
                with open(arg, encoding="utf8") as f:
                    self.docs.append(f.read())
                self.selected = None
                self.log(c=name)
            except Exception as e:
                self.log(c=name, error=str(e))
                return "InkFileExportCmd: cannot open"
        elif name == "file-close":
            if self.docs:
                self.docs.pop()
        elif name == "select":
            self.selected = arg
        elif name.startswith("query-"):
            if not self.docs:
                return ""
            try:
                x, w, found = measure(self.docs[-1], self.selected)
                v = {"query-x": x, "query-width": w, "query-height": 1.0, "query-y": 0.0}[name]
            except ET.ParseError:
                v = 0.0
            self.log(c=name, v=v, d=hashlib.md5(self.docs[-1].encode()).hexdigest())
            return repr(v)
        elif name == "inkscape-version":
            return self.conf.get("version", "Inkscape 1.2.2 (fake)")
        elif name == "export-do":
            if not self.docs:
                return ""
            svg, t, target = self.docs[-1], self.exp.get("export-type", "pdf"), self.exp.get("export-filename")
            opts = ("text-to-path" if self.exp.get("export-text-to-path") else "") + self.conf.get("stamp", "")
            try:
                data = export_bytes(svg, t, opts)
            except ET.ParseError:
                data = None
            self.log(c=name, d=hashlib.md5(svg.encode()).hexdigest(), t=t, opts=opts,
                     bad=data is None or bool(kinds & {"nofile", "kill_partial_file", "kill_full_file", "die_partial_file"}))
            self.exp.pop("export-text-to-path", None)
            if data is None or "nofile" in kinds:
                return "Unable to export"
            if "kill_partial_file" in kinds or "kill_full_file" in kinds:
                import signal
                with open(target, "wb") as f:
                    f.write(data[: len(data) // 2] if "kill_partial_file" in kinds else data)
                os.kill(os.getppid(), signal.SIGKILL)
                os._exit(3)
            if "die_partial_file" in kinds:
                with open(target, "wb") as f:
                    f.write(data[: len(data) // 2])
                os._exit(3)
            if "wait_partial_file" in kinds:
                with open(target, "wb") as f:
                    f.write(data[: len(data) // 2])
                    f.flush()
                    time.sleep(60)
            with open(target, "wb") as f:
                f.write(data)
        elif name.startswith("export-"):
            self.exp[name] = arg if arg is not None else True
        return ""

    def run(self):
        self.write(self.conf.get("banner", "Inkscape interactive shell mode.\n") + "> ",
                   chunk=self.conf.get("chunk"))
        for line in sys.stdin:
            line = line.rstrip("\n")
            name, _, arg = line.partition(":")
            fs = self.faults(name)
            for f in fs:
                if f["kind"] == "die_before":
                    os._exit(3)
                if f["kind"] == "stderr":
                    sys.stderr.write("w" * f.get("n", 100000) + "\n")
                    sys.stderr.flush()
            out = self.do(name, arg if _ else None, fs)
            noise = ""
            chunk, delay = self.conf.get("chunk"), 0.0
            for f in fs:
                k = f["kind"]
                if k == "noise":
                    noise += f.get("text", "WARNING: something\n")
                elif k == "reply":
                    out = f["text"]
                elif k == "chunk":
                    chunk, delay = f.get("n", 1), f.get("delay", 0.0)
                elif k == "die_after":
                    os._exit(3)
                elif k == "die_partial":
                    full = noise + (out + "\n" if out else "") + "> "
                    self.write(full[: max(0, len(full) - f.get("cut", 1))])
                    os._exit(3)
            self.write(noise + (out + "\n" if out else "") + "> ", chunk=chunk, delay=delay)


def main():
    conf = {}
    p = os.environ.get("FAKE_INKSCAPE_CONF")
    if p:
        with open(p) as f:
            conf = json.load(f)
    global METRIC
    METRIC = conf.get("metric", METRIC)
    sys.stdin.reconfigure(encoding="utf8")
    sys.stdout.reconfigure(encoding="utf8")
    try:
        Shell(conf).run()
    except (BrokenPipeError, KeyboardInterrupt):
        os._exit(0)


if __name__ == "__main__":
    main()
