"""C14: histories, schedules and failing initialisations of the lazily built parsers, on the real code."""
import glob
import os
import subprocess

from common import BUILD, JOBS, REPO, RUSTC, TIER, VERIF, CheckError, engine, env, log, pmap, rustc


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
    return r.returncode == 0, r.stderr


def build(run):
    """Returns ({name: exe}, shimmed). The crate and the programs are compiled with shim.rs in the place of std."""
    a = engine()
    w = run.work
    dep = ["-L", "dependency=" + a["deps"], "-L", "dependency=" + w]
    real = "%s/libreal_std.rlib" % w
    open(w + "/real_std.rs", "w").write("#![allow(warnings)]\npub use std::*;\n")
    for name, src, ext in (("real_std", w + "/real_std.rs", []), ("shim", VERIF + "/shim/shim.rs", ["-C", "opt-level=2"]),
                           ("shimcore", VERIF + "/shim/shimcore.rs", ["--extern", "shim=%s/libshim.rlib" % w])):
        ok, err = sh(RUSTC + ["--crate-type", "rlib", "--crate-name", name, src, "--out-dir", w] + dep + ext)
        if not ok:
            raise CheckError("%s: %s" % (name, err[-1500:]))
    shim = ["--extern", "std=%s/libshim.rlib" % w, "--extern", "core=%s/libshimcore.rlib" % w]
    ok, err = sh(RUSTC + ["--crate-type", "rlib", "--crate-name", "parse_display", REPO + "/parse-display/src/lib.rs", "--out-dir", w,
                          "--cfg", 'feature="std"', "-C", "opt-level=1", "--extern", "regex=" + a["regex"], "--extern", "regex_syntax=" + a["regex_syntax"],
                          "--extern", "parse_display_derive=" + a["parse_display_derive"]] + shim + dep)
    src = VERIF + "/engine/progs/c14.rs"
    exes = {}

    def comp(extra, tag, pd):
        for da in ("on", "off"):
            exe = "%s/c14_%s_%s" % (w, tag, da)
            ok, errs, crashed = rustc(src, exe, dep + ["--extern", "parse_display=" + pd, "--extern", "real_std=" + real, "-C", "opt-level=1",
                                                       "-C", "debug-assertions=" + da] + extra)
            if not ok:
                return [m.get("rendered") or m["message"] for m in errs[:3]] or [crashed]
            exes["%s debug-assertions=%s" % (tag, da)] = exe

    bad = comp(shim + ["--cfg", "shim"], "shim", w + "/libparse_display.rlib") if ok else [err]
    if not bad:
        return exes, True
    # the code uses something that the shim does not have: without control over the schedule
    log("C14: the code does not compile against the shim; schedules are not explored: %s" % bad[0][-1200:])
    exes.clear()
    bad = comp([], "std", a["parse_display"])
    if bad:
        run.violation("valid user code does not compile", {"errors": [b[:1500] for b in bad]})
        return {}, False
    return exes, False


def check(run):
    exes, shimmed = build(run)
    th = TIER == "thorough"
    parts = [("hist", 3 if th else 2), ("long", 400 if th else 150), ("fault", 1 if th else 0)]
    if shimmed:
        parts += [("pairs", 9 if th else 2), ("more", 9 if th else 1)]
    run.extra["schedules_explored"] = shimmed
    n = JOBS
    jobs = [(p, d, cfg, exe, k) for p, d in parts for cfg, exe in exes.items() for k in range(n)
            if not (p in ("more", "fault", "pairs") and cfg.endswith("off") and (p in ("more", "pairs") or not th))]

    def job(j):
        p, d, cfg, exe, k = j
        try:
            r = subprocess.run([exe, p, str(k), str(n), str(d)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=850)
        except subprocess.TimeoutExpired:
            raise CheckError("%s %s did not end" % (p, cfg))
        return j, r

    mx = 0
    for (p, d, cfg, exe, k), r in pmap(job, jobs):
        done = False
        for line in r.stdout.split("\n"):
            f = line.split("\t")
            if f[0] == "V":
                run.violation("the result depends on the history or the schedule", {"configuration": cfg, "what": f[1], "input": f[2], "want": f[3], "got": f[4]})
            elif f[0] == "T":
                done = True
                for key, x in zip(("states", "transitions", "traces_validated_against_impl", "faults"), f[1:]):
                    run.add(key, int(x))
                mx = max(mx, int(f[5]))
                run.add("executions_" + p, int(f[3]))
            elif f[0].startswith("LIMIT"):
                run.exhaustive = False
        if not done:
            run.violation("the program aborts", {"part": p, "rc": r.returncode, "stderr": r.stderr[-1500:]})
        if k == 0:
            run.sample({"part": p, "depth": d, "configuration": cfg, "result": r.stdout.strip().split("\n")[-1]})
    run.extra["longest_schedule"] = mx
