"""C18: the display space and the literal parsing space with and without the std feature."""
import os

import c02
import suite
from common import VERIF, cargo_build, engine


def externs():
    a = engine()
    n = cargo_build(os.path.join(VERIF, "nostd"), "nostd")
    return ["-L", "dependency=" + a["deps"], "-L", "dependency=" + n["deps"], "--extern", "mc=" + a["mc"],
            "--extern", "parse_display=" + n["parse_display"]]


def check(run):
    ext = externs()
    suite.run_suite(run, "C18", "nostd", ext)
    suite.run_suite(run, "C18")
    c02.check(run, ext, nostd=True)
