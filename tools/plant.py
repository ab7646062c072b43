"""Plant bugs: plant.py make DEFS.py | plant.py try ID... [--all-checks]

DEFS.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo (python), needs, breaks, files={name: path})].
`make` writes seeded/<id>/; `try` confirms it (builds, tests, demo) and runs the check of its property on it.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/tmp/plant-%d" % os.getpid()        # a scratch copy of /repo


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C %s checkout -- ." % R)
    assert not sh("git -C %s status --short" % R).stdout.strip()


def fixed_lines():
    """lines added by own commits (a bug may not touch them)"""
    d = sh("git -C %s diff -U0 6d8df76 HEAD" % R).stdout
    return {l[1:].strip() for l in d.splitlines() if l.startswith("+") and not l.startswith("+++")}


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    mine = fixed_lines()
    for s in ns["SEEDS"]:
        clean()
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        clean()
        for l in diff.decode().splitlines():
            if l.startswith("-") and not l.startswith("---") and len(l[1:].strip()) > 6 and l[1:].strip() in mine:
                print("WARNING", s["id"], "removes own line", l)
        d = os.path.join(S, s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write("from demolib import *\n" + s["demo"].lstrip("\n"))
        for n, src in dict({"demolib.py": V + "/tools/demolib.py", "fake_inkscape.py": V + "/lib/fake_inkscape.py"},
                           **s.get("files", {})).items():
            shutil.copy(src, os.path.join(d, n))
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nH="$(cd "$(dirname "$0")" && pwd)"\nW="$(mktemp -d)"\ntrap \'rm -rf "$W"\' EXIT\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DEMO_HOME="$H"\ncd "$W"\n'
            'timeout 120 /opt/venv/bin/python "$H/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def attempt(i, tests=True, checks=None):
    d = os.path.join(S, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    clean()
    res = [i]
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode:
        print(i, "DEMO FAILS ON CLEAN TREE\n", "\n".join(r.stdout.splitlines()[-4:]))
        return
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(i, "does not apply", a.stdout)
        return
    try:
        if tests:
            for n in ("build", "test"):
                t = open("/opt/vp/%s.sh" % n).read().replace("/repo", R)
                b = sh("bash -s %s.json" % R, input=t, env=dict(os.environ, PYTHONPATH=R))
                if n == "build" and b.returncode:
                    res.append("BUILD FAILS " + b.stdout[-300:])
            base = json.load(open("/opt/vp/BASELINE.json"))
            out = json.load(open(R + ".json"))
            os.remove(R + ".json")
            want = set(stable(base))
            got = set(passed(out))
            res.append("tests ok" if want <= got else "TESTS FAIL %s" % sorted(want - got)[:3])
        r = sh("bash %s/demo.sh" % d, cwd=R)
        res.append("demo fails" if r.returncode else "DEMO PASSES")
        for c in checks or [meta["property"]]:
            if c == "-":
                continue
            r = sh("./run %s quick" % c, cwd=V, timeout=900, env=dict(os.environ, DEV_REPO=R))
            lines = r.stdout.splitlines()
            res.append("%s rc=%d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "BROKEN"))
            for l in lines:
                if l.startswith("  clause") or "ERROR" in l:
                    res.append(l[:160])
                    break
    finally:
        clean()
    print("; ".join(res), flush=True)


def stable(base):
    for k in ("stable_passing", "passing", "stable", "passed", "tests"):
        if k in base:
            return base[k]
    raise KeyError(list(base))


def passed(out):
    for k in ("passed", "passing"):
        if k in out:
            return out[k]
    raise KeyError(list(out))


if __name__ == "__main__":
    shutil.copytree(os.environ.get("DEV_REPO", "/repo"), R, symlinks=True)
    try:
        sh("git -C %s stash" % R)
        if sys.argv[1] == "make":
            make(sys.argv[2])
        else:
            ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(S))
            for i in ids:
                attempt(i, "--notests" not in sys.argv, [a[2:] for a in sys.argv if a.startswith("-c")] or None)
    finally:
        shutil.rmtree(R)
