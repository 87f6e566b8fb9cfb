"""C09: the programs of the other spaces, and every built-in implementation against the type's own parse."""
import c19
import suite
from common import TIER

FAMILIES = {"uint": (4, 6), "nzuint": (4, 6), "sint": (4, 6), "nzsint": (4, 6), "f32": (5, 7), "f64": (5, 7), "bool": (3, 3), "char": (5, 6), "string": (4, 6)}


def check(run):
    suite.run_suite(run, "C09")
    c19.check_prog(run, "c09", [(k, v[TIER == "thorough"]) for k, v in FAMILIES.items()], ("parse_display", "regex"))
