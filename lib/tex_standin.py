"""Runs pdflatex and pdf2svg of the code under test as their stand-in (neither is installed)."""
import os, subprocess

FAKE_TEX = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fake_tex.sh")


def install():
    real = subprocess.Popen
    if getattr(real, "stand_in", False):
        return

    class Popen(real):
        stand_in = True

        def __init__(self, args, *a, **k):
            if not isinstance(args, (str, bytes)):
                args = list(args)
                n = os.path.basename(os.fspath(args[0])) if args else ""
                if n in ("pdflatex", "pdf2svg"):
                    args = ["/bin/sh", FAKE_TEX, n] + args[1:]
            super().__init__(args, *a, **k)
    subprocess.Popen = Popen
