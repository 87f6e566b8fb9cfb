"""One function per property."""
import c02
import c03
import c20
import c09
import c14
import c16
import c17
import c18
import c19
import c21
import c22
import c23
import suite


def _suite(pid):
    def f(run):
        suite.run_suite(run, pid)
    return f


for _p in ("C01", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C13", "C15"):
    globals()[_p] = _suite(_p)
C02 = c02.check
C03 = c03.check
C20 = c20.check
C16 = c16.check
C17 = c17.check
C18 = c18.check
C19 = c19.check
C21 = c21.check


def C12(run):
    suite.run_suite(run, "C12")
    # a width, precision or trait in the placeholder of an optional field
    c02.check(run, only="opt")


C09 = c09.check
C14 = c14.check
C22 = c22.check
C23 = c23.check
