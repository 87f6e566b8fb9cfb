"""Runs a program-space suite of the engine: generate, compile, execute every program on its whole input space."""
import json
import os
import subprocess

from common import JOBS, TIER, CheckError, engine, err_lines, externs, log, pmap, rustc


def gen(a, suite, work, n, mode="x", skip=()):
    r = subprocess.run([a["bin:gen"], suite, TIER, str(n), work, mode, ",".join(map(str, skip))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise CheckError("gen failed: " + r.stderr[-2000:])
    return int(r.stdout)


def read_map(path):
    out = []
    for line in open(path):
        s, e, i = map(int, line.split())
        out.append((s, e, i))
    return out


def strip(work, k, drop):
    """Removes programs from chunk k (keeping line numbers)."""
    src = open("%s/chunk_%d.rs" % (work, k)).read().split("\n")
    for s, e, i in read_map("%s/chunk_%d.map" % (work, k)):
        if i in drop:
            for l in range(s - 1, e):
                src[l] = ""
    text = "\n".join(src)
    for i in drop:
        text = text.replace("p%d::subj()," % i, "")
    open("%s/chunk_%d.rs" % (work, k), "w").write(text)


def compile_chunk(a, work, k, ext):
    """Returns (exe or None, {idx: error text}). Every program of the space is a valid one, so a refused
    program is a violation; the others are still compiled and run."""
    src = "%s/chunk_%d.rs" % (work, k)
    exe = "%s/chunk_%d" % (work, k)
    mp = read_map("%s/chunk_%d.map" % (work, k))
    bad = {}
    for _ in range(12):
        ok, errs, crashed = rustc(src, exe, ext)
        if ok:
            return exe, bad
        hit = {}
        for m in errs:
            for l in err_lines(m, os.path.basename(src)):
                for s, e, i in mp:
                    if s <= l <= e and i not in bad:
                        hit.setdefault(i, m.get("rendered") or m["message"])
        if not hit:
            if crashed or errs:
                i = bisect(a, work, k, [i for _, _, i in mp if i not in bad], ext)
                if i is None:
                    raise CheckError("chunk %d: %s" % (k, crashed or errs[0].get("rendered")))
                hit = {i: crashed or errs[0].get("rendered") or ""}
            else:
                raise CheckError("chunk %d does not compile" % k)
        bad.update(hit)
        strip(work, k, set(hit))
        if len(bad) > 200:
            break
    return None, bad


def bisect(a, work, k, live, ext):
    """Finds one program on which the compiler crashes or fails without a position."""
    base = open("%s/chunk_%d.rs" % (work, k)).read()

    def fails(keep):
        strip(work, k, set(live) - set(keep))
        ok, _, _ = rustc("%s/chunk_%d.rs" % (work, k), "%s/bis_%d" % (work, k), ext)
        open("%s/chunk_%d.rs" % (work, k), "w").write(base)
        return not ok

    if not fails(live):
        return None
    while len(live_ := live) > 1:
        h = len(live_) // 2
        if fails(live_[:h]):
            live = live_[:h]
        elif fails(live_[h:]):
            live = live_[h:]
        else:
            return None
    return live[0]


def run_chunk(exe):
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=700)
    except subprocess.TimeoutExpired as e:
        return [], "did not end within 700 s", (e.stderr or b"").decode("utf8", "replace")
    out = [json.loads(l) for l in r.stdout.decode("utf8", "replace").split("\n") if l.startswith("{")]
    return out, None if r.returncode == 0 else "ended with %d" % r.returncode, r.stderr.decode("utf8", "replace")


def run_suite(run, suite, mode="x", ext=None):
    a = engine()
    ext = (ext or externs(a)) + ["-C", "opt-level=0", "-C", "codegen-units=4"]
    work = os.path.join(run.work, suite + mode)
    os.makedirs(work, exist_ok=True)
    r = subprocess.run([a["bin:gen"], "list", suite, TIER], stdout=subprocess.PIPE, text=True)
    n = int(r.stdout)
    chunks = max(JOBS, -(-n // 120))
    chunks = -(-chunks // JOBS) * JOBS
    gen(a, suite, work, chunks, mode)
    srcs = [json.loads(l)["source"] for l in open(work + "/programs.jsonl")]

    def job(k):
        exe, bad = compile_chunk(a, work, k, ext)
        res = run_chunk(exe) if exe else ([], None, "")
        return k, exe, bad, res

    for k, exe, bad, (out, fail, err) in pmap(job, range(chunks)):
        run.add("programs_refused", len(bad))
        for i, e in bad.items():
            run.violation("a valid program does not compile", {"suite": suite, "program": i, "source": srcs[i], "configuration": mode, "error": e[:3000]})
        done = False
        for m in out:
            if m.get("violation"):
                m["suite"] = suite
                if mode != "x":
                    m["configuration"] = mode
                run.violation("%s differs from the reference semantics" % m["what"], m)
            elif m.get("summary"):
                done = True
                for c, v in m["counts"].items():
                    if c != "violations":
                        run.add(c, v)
                for s in m["samples"][k % 3:][:1]:
                    run.sample(s)
        if fail or (exe and not done):
            progs = [l.split()[1] for l in err.splitlines() if l.startswith("PROG ")]
            if progs:
                i = int(progs[-1])
                run.violation("the program aborts or does not end: %s" % fail,
                              {"suite": suite, "program": i, "source": srcs[i], "stderr": err[-500:]})
            else:
                raise CheckError("chunk %d: %s %s" % (k, fail, err[-500:]))
