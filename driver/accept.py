"""Decides for a space of programs which of them the compiler (with the derive) takes and which it refuses.

A program is {"src": text, "expect": "ok" | "err" | "any", "what": ...}; `@` in the text is replaced by a number that
is unique in its crate. "any" only asks that the derive does not panic and the compiler does not crash.
"""
import os

from common import CheckError, err_lines, pmap, rustc

PER = 1500


def _compile(src, progs, live, prelude, ext, work):
    """Returns ({program: [messages]}, ok, crashed text, unplaced)."""
    name = os.path.basename(src)
    L = prelude.split("\n")
    owner = {}
    for i in live:
        t = progs[i]["src"].replace("@", str(i))
        for l in t.split("\n"):
            L.append(l)
            owner[len(L)] = i
    open(src, "w").write("\n".join(L) + "\n")
    ok, errs, crashed = rustc(src, src + ".out", ["--emit=metadata", "--crate-type=lib"] + ext, timeout=600)
    hit = {}
    lost = []
    for m in errs:
        ls = [owner[l] for l in err_lines(m, name) if l in owner]
        if ls:
            hit.setdefault(ls[0], []).append(m)
        else:
            lost.append(m)
    return hit, ok, crashed, lost


def _bisect(src, progs, live, prelude, ext, work):
    """Reduces a crash or an error without a position to one program."""
    def fails(sub):
        hit, ok, crashed, lost = _compile(src, progs, sub, prelude, ext, work)
        return bool(crashed or (lost and not hit) or (not ok and not hit))

    if not fails(live):
        return None
    while len(live) > 1:
        h = len(live) // 2
        if fails(live[:h]):
            live = live[:h]
        elif fails(live[h:]):
            live = live[h:]
        else:
            return None
    return live[0]


def decide(progs, prelude, ext, work, tag="acc", per=PER):
    """Returns a list of verdicts: (accepted, [error messages], crash text)."""
    verdict = [None] * len(progs)
    groups = {}
    for i, p in enumerate(progs):
        groups.setdefault("ok" if p["expect"] == "ok" else "err", []).append(i)
    jobs = []
    for g, ids in sorted(groups.items()):
        n = max(1, -(-len(ids) // per))
        n = max(n, min(8, len(ids) // 50 + 1))
        for k in range(n):
            jobs.append((g, k, ids[k::n]))

    def job(j):
        g, k, live = j
        live = list(live)
        src = "%s/%s_%s_%d.rs" % (work, tag, g, k)
        for _ in range(400):
            if not live:
                return
            hit, ok, crashed, lost = _compile(src, progs, live, prelude, ext, work)
            if crashed or ((lost or not ok) and not hit):
                i = _bisect(src, progs, live, prelude, ext, work)
                if i is None:
                    raise CheckError("%s: %s" % (src, crashed or [m.get("rendered") for m in lost][:2]))
                if crashed:
                    verdict[i] = (False, [], crashed)
                else:
                    verdict[i] = (False, lost or [{"message": "refused without a diagnostic", "spans": []}], None)
                live.remove(i)
                continue
            if ok:
                for i in live:
                    verdict[i] = (True, [], None)
                break
            for i, ms in hit.items():
                verdict[i] = (False, ms, None)
            live = [i for i in live if i not in hit]
        else:
            raise CheckError("%s: no end of errors" % src)
        os.unlink(src)
        for f in (src + ".out",):
            if os.path.exists(f):
                os.unlink(f)

    pmap(job, jobs)
    return verdict


def judge(run, progs, verdicts, what):
    """Compares the verdicts with the expectations."""
    seen = set()
    for p, (acc, msgs, crash) in zip(progs, verdicts):
        # states: distinct programs; transitions: verdicts and diagnostics judged; validated: those with a definite expectation
        if p["src"] not in seen:
            seen.add(p["src"])
            run.add("states")
        run.add("transitions", 1 + len(msgs))
        if p["expect"] in ("ok", "err"):
            run.add("traces_validated_against_impl")
        run.add("accepted" if acc else "refused")
        d = {"program": p["src"], "about": p.get("what")}
        texts = [m["message"] for m in msgs]
        if crash:
            run.violation("the compiler crashes or does not end", dict(d, crash=crash), p.get("key"))
        elif any("panicked" in t for t in texts):
            run.violation("the derive panics", dict(d, errors=[m.get("rendered", "")[-600:] for m in msgs][:3]), p.get("key"))
        elif p["expect"] == "ok" and not acc:
            run.violation("%s is refused" % what, dict(d, errors=[m.get("rendered", "")[-600:] for m in msgs][:3]), p.get("key"))
        elif p["expect"] != "ok" and not acc and any(not m.get("spans") for m in msgs):
            run.violation("%s is refused without a diagnostic that points into it" % what, dict(d, errors=texts[:3]), p.get("key"))
        elif p["expect"] == "err" and acc:
            run.violation("%s is accepted though it must be refused" % what, d, p.get("key"))
