"""Shared parts of the checks: building /repo, running compilers, evidence and reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 4
RUSTC = ["rustc", "--edition", "2024", "-A", "warnings", "-C", "debuginfo=0"]


class CheckError(Exception):
    """The check could not be carried out (this is not a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def repo_hash(sub=("parse-display", "parse-display-derive", "parse-display-with", "Cargo.toml")):
    h = hashlib.sha256()
    for s in sub:
        p = os.path.join(REPO, s)
        files = [p] if os.path.isfile(p) else []
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()


def cargo_build(pkgdir, target, args=()):
    """Builds a cargo package that depends on /repo. Returns {crate name: rlib or binary path}."""
    tgt = os.path.join(BUILD, target)
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "repo.stamp")
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        # do not rely on modification times
        for prof in ("debug", "release"):
            fp = os.path.join(tgt, prof, ".fingerprint")
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x.startswith("parse-display"):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    r = subprocess.run(
        ["cargo", "build", "--offline", "--locked", "--message-format=json", "--target-dir", tgt, *args],
        cwd=pkgdir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = {}
    errs = []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            kinds = m["target"]["kind"]
            for f in m["filenames"]:
                if f.endswith(".rlib") or f.endswith(".so"):
                    out.setdefault(m["target"]["name"].replace("-", "_"), f)
            if m.get("executable") and "bin" in kinds:
                out["bin:" + m["target"]["name"]] = m["executable"]
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append(m["message"].get("rendered") or m["message"]["message"])
    if r.returncode != 0:
        raise CheckError("cargo build failed in %s:\n%s\n%s" % (pkgdir, "\n".join(errs)[:4000], r.stderr[-2000:]))
    with open(stamp, "w") as f:
        f.write(want)
    out["deps"] = os.path.join(tgt, "debug", "deps")
    return out


def engine():
    a = cargo_build(os.path.join(VERIF, "engine"), "engine")
    return a


def externs(a, names=("mc", "parse_display", "regex")):
    r = ["-L", "dependency=" + a["deps"]]
    for n in names:
        r += ["--extern", "%s=%s" % (n, a[n])]
    return r


def rustc(src, out, extra, timeout=600, cwd=None, edition=None):
    """Runs rustc. Returns (ok, [error dict], crashed text or None)."""
    cmd = [edition if x == "2024" and edition else x for x in RUSTC] + ["--error-format=json", src, "-o", out] + extra
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=timeout, cwd=cwd)
    except subprocess.TimeoutExpired:
        return False, [], "rustc did not end within %ds" % timeout
    errs = []
    rest = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                m = json.loads(line)
            except ValueError:
                rest.append(line)
                continue
            if m.get("level", "").startswith("error") and not m["message"].startswith("aborting due to"):
                errs.append(m)
        else:
            rest.append(line)
    crashed = None
    if r.returncode not in (0, 1):
        crashed = "rustc ended with %s: %s" % (r.returncode, "\n".join(rest)[-800:])
    return r.returncode == 0, errs, crashed


def err_lines(m, fname):
    """Lines in `fname` that a diagnostic points at (following macro expansions)."""
    out = []

    def span(s):
        if os.path.basename(s["file_name"]) == fname:
            out.append(s["line_start"])
        if s.get("expansion"):
            span(s["expansion"]["span"])

    prim = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
    for s in prim:
        span(s)
    if not out:
        for c in m.get("children", []):
            for s in c["spans"]:
                span(s)
    return out


def pmap(f, xs, jobs=None):
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, xs))


class Run:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.level = "model_checking"
        self.counts = {}
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.extra = {}
        self.exhaustive = True
        self.work = os.path.join(BUILD, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def add(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def violation(self, what, data, key=None):
        """key identifies the failing input in known_findings."""
        self.violations.append((what, data, key))

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.rstrip("\n")
                if line.startswith("finding: property=%s key=" % self.pid):
                    rest = line.split("key=", 1)[1]
                    k, _, what = rest.partition(" ")
                    out[k] = what
        return out

    def finish(self):
        known = self.known()
        new = []
        seen = {}
        for v in self.violations:
            if v[2] is not None and v[2] in known:
                seen[v[2]] = known[v[2]]
            else:
                new.append(v)
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, seen[k]))
        cov = dict(self.counts)
        for k in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(k, 0)
        cov["samples"] = self.samples
        cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = {
            "property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if os.path.exists(os.path.join(VERIF, "replays", self.pid + ".json")):
            os.unlink(os.path.join(VERIF, "replays", self.pid + ".json"))
        if new:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "data": d, "key": k} for w, d, k in new[:400]], f, indent=1, ensure_ascii=False)
                f.write("\n")
            for w, d, _ in new[:3]:
                log("---", w)
                log(d if isinstance(d, str) else json.dumps(d, indent=1, ensure_ascii=False)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if cov["states"] == 0:
            raise CheckError("nothing was explored")
        print("OK property=%s states=%d transitions=%d validated=%d wall=%.1fs" % (
            self.pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0
