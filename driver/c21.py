"""C21: every write of the sink and every formatter failing."""
import c02
import c19
import suite
from common import TIER


def check(run):
    suite.run_suite(run, "C21")
    c02.check(run, fault=True)
    c19.check_prog(run, "c21", [("join", 4 if TIER == "quick" else 5), ("derive", 3 if TIER == "quick" else 4)])
