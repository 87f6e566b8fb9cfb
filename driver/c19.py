"""C19: the formats of parse-display-with on every bounded sequence and string."""
import os
import subprocess

from common import TIER, VERIF, CheckError, engine, err_lines, externs, pmap, rustc


def build(run, name, names, extra=()):
    """Compiles engine/progs/NAME.rs; a failure to compile is a violation (the program is valid user code)."""
    src = os.path.join(VERIF, "engine", "progs", name + ".rs")
    exe = os.path.join(run.work, name)
    ok, errs, crashed = rustc(src, exe, externs(engine(), names) + ["-C", "opt-level=1", *extra])
    if not ok:
        if errs:
            run.violation("valid user code does not compile", {"program": src, "errors": [(m.get("rendered") or m["message"])[:1500] for m in errs[:3]]})
            return None
        raise CheckError(crashed or "does not compile")
    return exe


def check_prog(run, name, jobs, ext=("parse_display", "parse_display_with")):
    exe = build(run, name, ext)
    if exe is None:
        run.add("states")
        return

    def job(j):
        return j, subprocess.run([exe, j[0], str(j[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)

    for j, r in pmap(job, jobs):
        done = False
        for line in r.stdout.split("\n"):
            f = line.split("\t")
            if f[0] == "V":
                run.violation("differs from the reference", {"what": f[1], "input": f[2], "want": f[3], "got": f[4]})
            elif f[0] == "T":
                done = True
                for k, n in zip(("states", "transitions", "traces_validated_against_impl", "accepted", "rejected", "round_trips"), f[1:]):
                    run.add(k, int(n))
        if not done:
            run.violation("the program aborts", {"part": j, "rc": r.returncode, "stderr": r.stderr[-1500:]})
        run.sample({"part": j[0], "depth": j[1], "result": r.stdout.strip().split("\n")[-1]})


def check(run):
    th = TIER == "thorough"
    check_prog(run, "c19", [("print", 6 if th else 4), ("parse", 8 if th else 5), ("round", 4 if th else 3), ("derive", 7 if th else 5), ("fn", 0)])
