"""C22: the release preparation script, run on scratch repositories: every request of a bounded space on every
tree of a bounded space, against a reference model."""
import concurrent.futures as cf
import itertools
import json
import os
import re
import shutil
import subprocess
import time

from common import JOBS, REPO, TIER, CheckError

SCRIPT = os.path.join(REPO, ".codex/skills/prepare-release/scripts/prepare_release.rs")
CATS = ["Added", "Changed", "Deprecated", "Removed", "Fixed", "Performance", "Security"]
URL = "https://github.com/frozenlib/parse-display/compare/"
OLD = "0.11.0"

MAN = '[package]\nname = "parse-display"\nversion = "0.11.0"\nedition = "2024"\nrust-version = "1.85.0"\n\n[dependencies]\nparse-display-derive = { version = "=0.11.0", path = "../parse-display-derive" }\nregex = { version = "0.11.0", optional = true }\n'
DER = '[package]\nname = "parse-display-derive"\nversion = "0.11.0"\n\n[dependencies]\nsyn = { version = "0.11.0" }\n'
WITH = '[package]\nname = "parse-display-with"\nversion = "0.0.2"\n\n[dependencies]\nparse-display = { version = "0.11.0", path = "../parse-display" }\n'
LOCK = ('version = 4\n\n[[package]]\nname = "aaa"\nversion = "0.11.0"\n\n[[package]]\nname = "parse-display"\nversion = "0.11.0"\ndependencies = [\n "parse-display-derive",\n]\n\n'
        '[[package]]\nname = "parse-display-derive"\nversion = "0.11.0"\n\n[[package]]\nname = "parse-display-with"\nversion = "0.0.2"\n\n[[package]]\nname = "zzz"\nversion = "0.11.0"\n')
LINKS = "[unreleased]: " + URL + "v0.11.0...HEAD\n[0.11.0]: " + URL + "v0.10.0...v0.11.0\n"
OLDER = "## [0.11.0] - 2026-05-04\n\n### Added\n\n- old a\n- old b\n\n## [0.10.0] - 2024-08-04\n\n### Fixed\n\n- older\n\n"
CHANGE = "# Changelog\n\n## [Unreleased]\n\n%s\n" + OLDER + LINKS
EMPTY = "".join("### %s\n\n" % c for c in CATS)
README = '# Title\n\n```toml\nparse-display = "0.11.0"\n```\n\nSee [docs](https://docs.rs/parse-display/0.11.0/parse_display/).\n\n## Deprecated features\n\n[old](https://docs.rs/parse-display/0.11.0/x) [older](https://docs.rs/parse-display/0.10.0/x)\n'
LIBRS = '//! See <https://docs.rs/parse-display/0.11.0/parse_display/>.\nfn f() {}\n'


def base_tree():
    return {
        "Cargo.toml": "[workspace]\nmembers = []\n", "Cargo.lock": LOCK,
        "CHANGELOG.md": CHANGE % (EMPTY.replace("### Added\n", "### Added\n\n- new a\n").replace("### Fixed\n", "### Fixed\n\n- new f\n  more\n- new g\n")),
        "README.md": README, "parse-display/Cargo.toml": MAN, "parse-display/src/lib.rs": LIBRS,
        "parse-display-derive/Cargo.toml": DER, "parse-display-derive/src/lib.rs": "// derive\n",
        "parse-display-with/Cargo.toml": WITH, "parse-display-with/README.md": "other\n",
        "notes.txt": 'parse-display = "0.11.0"\n', "target/x.md": 'parse-display = "0.11.0"\n',
        ".gitignore": "target\n",
    }


# ---------------------------------------------------------------- the reference model

def lines(t):
    r = [x[:-1] if x.endswith("\r") else x for x in t.split("\n")]
    if r and r[-1] == "":
        r.pop()
    return r


def version_of(s):
    """None: not a version. "?" marks the versions that the property says nothing about."""
    m = re.fullmatch(r"([0-9]+)\.([0-9]+)\.([0-9]+)", s)
    if not m:
        return None
    if any((len(x) > 1 and x[0] == "0") or int(x) >= 2 ** 64 for x in m.groups()):
        return "?" if all(int(x) < 2 ** 64 for x in m.groups()) else None
    return s


def trim(ls):
    a, b = 0, len(ls)
    while a < b and not ls[a].strip():
        a += 1
    while b > a and not ls[b - 1].strip():
        b -= 1
    return ls[a:b]


def cats(ls):
    """[(name, body)] or None if there is content outside the categories."""
    out = []
    for x in trim(ls):
        if x.startswith("### "):
            out.append((x[4:].strip(), []))
        elif out:
            out[-1][1].append(x)
        elif x.strip():
            return None
    return [(n, trim(b)) for n, b in out]


def split_log(t):
    """(lines before Unreleased, lines of it, lines after it) or None."""
    ls = lines(t)
    if "## [Unreleased]" not in ls:
        return None
    u = ls.index("## [Unreleased]")
    for i in range(u + 1, len(ls)):
        if ls[i].startswith("## ["):
            return ls[:u], ls[u + 1:i], ls[i:]
    return None


def log_versions(t):
    return [m.group(1) for x in lines(t) for m in [re.match(r"## \[([^\]]*)\]", x)] if m]


def doc_lines(t, old, new):
    """Per line, the allowed texts."""
    out = []
    dep = False
    for x in t.splitlines(keepends=True) if "\r" not in t else t.split("\n"):
        s = x.lstrip()
        if s.startswith("///") or s.startswith("//!"):
            s = s[3:].lstrip()
        if s.startswith("## "):
            dep = "Deprecated" in s or "非推奨" in s
        y = x.replace('parse-display = "%s"' % old, 'parse-display = "%s"' % new)
        if not dep:
            y = y.replace("docs.rs/parse-display/%s/" % old, "docs.rs/parse-display/%s/" % new)
        out.append({x, y} if dep and y != x else {y})
    return out


def is_doc(p):
    parts = p.split("/")
    return p.rsplit(".", 1)[-1] in ("md", "rs") and parts[-1] != "CHANGELOG.md" and not any(d in (".git", "target", ".codex") for d in parts[:-1])


def pkg_version(t):
    for x in lines(t):
        m = re.match(r'\s*version = "([^"]*)"', x)
        if m:
            return m.group(1)


def set_first(ls, test, f):
    for i, x in enumerate(ls):
        if test(x):
            return ls[:i] + [f(x)] + ls[i + 1:]
    return None


def set_lock(ls, name, v):
    out, on, hit = [], False, False
    for x in ls:
        if x == "[[package]]":
            on = False
        elif x == 'name = "%s"' % name:
            on = True
        elif on and x.startswith('version = "'):
            x = 'version = "%s"' % v
            hit = True
        out.append(x)
    return out if hit else None


def expect(req, tree, derive_changed, broken):
    """("same",) nothing may change; ("either", f) ; ("new", f): f(tree after) gives a complaint or None."""
    args = req
    words = [a for a in args if a != "--dry-run"]
    dry = len(words) != len(args)
    if len(words) != 1:
        return ("same", len(words) > 1)
    v = version_of(words[0])
    if v is None:
        return ("same", True)
    unsure = broken or v == "?"
    v = words[0]
    log = tree["CHANGELOG.md"]
    sp = split_log(log)
    vs = [x for x in log_versions(log) if x != "Unreleased"]
    if v in vs:
        return ("same", True)
    if sp is None or not vs or cats(sp[1]) is None:
        return ("same", True)
    old = pkg_version(tree["parse-display/Cargo.toml"])
    man = lines(tree["parse-display/Cargo.toml"])
    der = lines(tree["parse-display-derive/Cargo.toml"])
    lock = lines(tree["Cargo.lock"])
    isver = lambda x: re.match(r'\s*version = "', x)  # noqa: E731
    man = set_first(man, isver, lambda x: 'version = "%s"' % v)
    lock = set_lock(lock, "parse-display", v)
    if derive_changed:
        der = set_first(der, isver, lambda x: 'version = "%s"' % v)
        lock = lock and set_lock(lock, "parse-display-derive", v)
        man = man and set_first(man, lambda x: re.match(r'\s*parse-display-derive = \{.*version = "', x),
                                lambda x: re.sub(r'(version = ")[^"]*', lambda m: m.group(1) + "=" + v, x, count=1))
    if man is None or lock is None or der is None:
        return ("same", True)
    if dry:
        return ("same", False if unsure else None)

    def judge(after, days):
        for p in sorted(set(tree) | set(after)):
            if p not in after:
                return "%s is gone" % p
            if p not in tree:
                return "%s appeared" % p
            a, b = after[p], tree[p]
            if p == "CHANGELOG.md":
                w = judge_log(a, b, v, days)
            elif p == "Cargo.lock":
                w = None if trim(lines(a)) == trim(lock) else "wrong lock file"
            elif p == "parse-display/Cargo.toml":
                w = None if trim(lines(a)) == trim(man) else "wrong manifest"
            elif p == "parse-display-derive/Cargo.toml" and derive_changed:
                w = None if trim(lines(a)) == trim(der) else "wrong manifest"
            elif isinstance(b, str) and isinstance(a, str) and is_doc(p):
                w = None
                sep = "" if "\r" not in b else "\n"
                for c in itertools.product(*doc_lines(b, old, v)):
                    if sep.join(c) == a:
                        break
                else:
                    w = "wrong document"
            else:
                w = None if a == b else "an unrelated file changed"
            if w:
                return "%s: %s" % (p, w)
        return None
    return ("either" if unsure else "new", judge)


def judge_log(after, before, v, days):
    pre, un, post = split_log(before)
    old_cats = cats(un)
    prev = [x for x in log_versions(before) if x != "Unreleased"][0]
    sp = split_log(after)
    if sp is None:
        return "no Unreleased section"
    pre2, un2, post2 = sp
    # links
    new = "[%s]: %sv%s...v%s" % (v, URL, prev, v)
    unl = "[unreleased]: %sv%s...HEAD" % (URL, v)
    at = [i for i, x in enumerate(pre + post) if x.lower().startswith("[unreleased]:")]
    has = any(x.startswith("[%s]:" % v) for x in pre + un + post)
    want_pre, want_post = list(pre), list(post)
    if at:
        i = at[0]
        ls, j = (want_pre, i) if i < len(pre) else (want_post, i - len(pre))
        ls[j:j + 1] = [unl] + ([] if has else [new])
    else:
        want_post = trim(want_post) + [unl, new]  # after any blank lines
    if trim(pre2) != trim(want_pre):
        return "the part before Unreleased changed"
    names = []
    for n, _ in old_cats:
        names.append(n)
    for n in CATS:
        if n not in names:
            names.append(n)
    c2 = cats(un2)
    if c2 is None or any(b for _, b in c2):
        return "Unreleased is not empty"
    ded = lambda xs: list(dict.fromkeys(xs))  # noqa: E731
    if ded([n for n, _ in c2]) != ded(names):
        return "Unreleased has the headings %s instead of %s" % ([n for n, _ in c2], names)
    if not post2 or post2[0] not in ["## [%s] - %s" % (v, d) for d in days]:
        return "the new section is headed %r" % post2[:1]
    e = next((i for i in range(1, len(post2)) if post2[i].startswith("## [")), None)
    if e is None:
        return "the older sections are gone"
    c3 = cats(post2[1:e])
    want = [(n, b) for n, b in old_cats if any(x.strip() for x in b)]
    if c3 != want:
        return "the new section has %s instead of %s" % (c3, want)
    rest = trim(post2[e:])
    if not at:
        rest = trim(rest[:-2]) + rest[-2:]
    if rest != trim(want_post):
        return "the older sections or the links are not as expected: %r instead of %r" % (post2[e:][-6:], want_post[-6:])
    return None


# ---------------------------------------------------------------- running the script

def compile_script(work):
    src = open(SCRIPT).read()
    body = src.split("\n")
    if body[0].startswith("#!") and not body[0].startswith("#!["):
        body[0] = ""
    i = next((k for k, x in enumerate(body[:5]) if x.startswith("---")), None)
    if i is not None:
        fence = re.match("-+", body[i]).group(0)
        j = next(k for k in range(i + 1, len(body)) if body[k].rstrip() == fence)
        for k in range(i, j + 1):
            body[k] = ""
    p = os.path.join(work, "prepare_release.rs")
    open(p, "w").write("\n".join(body))
    exe = os.path.join(work, "prepare_release")
    r = subprocess.run(["rustc", "--edition", "2024", "-A", "warnings", "-C", "opt-level=1", p, "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("the release script does not compile:\n" + r.stdout[-3000:])
    return exe


def stub(d, name, text):
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    open(p, "w").write(text)
    os.chmod(p, 0o755)


def stub_bin(d, name, rc):
    """A stand-in for powershell that prints today's date and ends with rc."""
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, name + "_src.rs")
    open(src, "w").write('''fn main() {
    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 / 86400;
    let z = t + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    print!("{y:04}-{m:02}-{d:02}\\r\\n"); std::process::exit(%d);
}''' % rc)
    r = subprocess.run(["rustc", "--edition", "2024", "-A", "warnings", "-C", "opt-level=1", src, "-o", os.path.join(d, name)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError(r.stdout)


def genv(bins):
    return {"PATH": ":".join(bins), "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null",
            "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@a", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@a", "TZ": "UTC", "LC_ALL": "C"}


def git(d, *a):
    r = subprocess.run(["git", "-c", "core.autocrlf=false", "-c", "gc.auto=0", *a], cwd=d, env=genv(["/usr/bin", "/bin"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("git %s: %s" % (a, r.stdout))
    return r.stdout


def put(d, tree):
    for p, t in tree.items():
        f = os.path.join(d, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fd:
            fd.write(t.encode() if isinstance(t, str) else t)


def get(d):
    out = {}
    for r, ds, fs in os.walk(d):
        if r == d and ".git" in ds:
            ds.remove(".git")
        for f in fs:
            p = os.path.join(r, f)
            b = open(p, "rb").read()
            try:
                out[os.path.relpath(p, d)] = b.decode()
            except UnicodeDecodeError:
                out[os.path.relpath(p, d)] = b
    return out


def refs(d):
    g = os.path.join(d, ".git")
    out = []
    if os.path.isdir(g):
        for r, _, fs in os.walk(os.path.join(g, "refs")):
            for f in sorted(fs):
                out.append((os.path.join(r, f)[len(g):], open(os.path.join(r, f)).read()))
        out.append(open(os.path.join(g, "HEAD")).read())
    return sorted(map(str, out))


class World:
    """A scratch directory that holds one tree at a time."""

    def __init__(self, d, cfg):
        self.d, self.cfg = d, cfg
        self.have = None
        self.hist = None

    def load(self, tree, hist):
        if self.hist != hist or self.have is None:
            shutil.rmtree(self.d, ignore_errors=True)
            os.makedirs(self.d)
            if hist is not None:
                shutil.copytree(os.path.join(self.cfg["hist"], hist, ".git"), os.path.join(self.d, ".git"))
            self.have, self.hist = {}, hist
        for p in set(self.have) - set(tree):
            os.unlink(os.path.join(self.d, p))
        put(self.d, {p: t for p, t in tree.items() if self.have.get(p) != t})
        self.have = dict(tree)

    def request(self, args, sub="", bins="ok"):
        self.seen.add(hash((tuple(sorted(self.have.items())), tuple(args), sub, bins)))
        d0 = time.strftime("%Y-%m-%d", time.gmtime())
        try:
            r = subprocess.run([self.cfg["exe"], *args], cwd=os.path.join(self.d, sub), env=genv(self.cfg["bins"][bins]), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            rc, out = r.returncode, r.stdout.decode("utf-8", "replace") + r.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            rc, out = -1, "did not end within 60 s"
        d1 = time.strftime("%Y-%m-%d", time.gmtime())
        self.have = get(self.d)
        return rc, out, {d0, d1}


def named(out, tree):
    """The files that the script's output names, each on its own line."""
    ls = {x.strip() for x in out.splitlines()}
    return {p for p in tree if p in ls}


def candidates(tree):
    """(the next versions, the recommended one) or None where the property says nothing."""
    old = pkg_version(tree["parse-display/Cargo.toml"])
    sp = split_log(tree["CHANGELOG.md"])
    c = cats(sp[1]) if sp else None
    if old is None or version_of(old) in (None, "?") or c is None:
        return None
    a, b, d = map(int, old.split("."))
    if max(a, b, d) >= 2 ** 64 - 1:
        return None
    full = {n for n, body in c if any(x.strip() for x in body)}
    patch, minor, major = "%d.%d.%d" % (a, b, d + 1), "%d.%d.0" % (a, b + 1), "%d.0.0" % (a + 1)
    if full & {"Added", "Changed", "Deprecated", "Removed"}:
        rec = minor
    elif full & {"Fixed", "Performance", "Security"}:
        rec = patch
    else:
        rec = minor
    return [patch, minor, major], rec


def judge_candidates(tree, rc, out):
    c = candidates(tree)
    if c is None:
        return None
    if rc != 0:
        return "no candidates were shown: " + out[-300:]
    vs = re.findall(r"(?<![0-9.])[0-9]+\.[0-9]+\.[0-9]+(?![0-9.])", out)
    for v in c[0]:
        if v not in vs:
            return "the candidate %s is not shown: %s" % (v, out)
    for x in out.splitlines():
        if "recommend" in x.lower():
            r = re.findall(r"[0-9]+\.[0-9]+\.[0-9]+", x)
            if r and r[-1] != c[1]:
                return "%s is recommended instead of %s" % (r[-1], c[1])
            if r:
                return None
    return "no version is recommended: " + out


def step(w, tree, hist, args, derive_changed, broken=None, sub="", bins="ok"):
    """Runs one request; gives (complaint or None, tree after, accepted)."""
    r0 = refs(w.d)
    rc, out, days = w.request(args, sub, bins)
    after = dict(w.have)
    kind = expect(args, tree, derive_changed, broken)
    why = None
    if rc not in (0, 1):
        why = "the script ended with %d: %s" % (rc, out[-400:])
    elif refs(w.d) != r0:
        why = "the history of the repository changed"
    elif kind[0] == "same":
        if after != tree:
            why = "a refused request or a dry run changed %s" % sorted(p for p in set(tree) | set(after) if tree.get(p) != after.get(p))
        elif kind[1] is True and rc == 0:
            why = "a request that should be refused was accepted"
        elif kind[1] is None and rc != 0 and not broken:
            why = "a dry run of a good request failed: " + out[-300:]
    elif kind[0] == "new" and rc != 0:
        why = "a good request was refused: " + out[-300:]
    elif kind[0] == "either" and rc != 0:
        if after != tree:
            why = "a refused request changed %s" % sorted(p for p in set(tree) | set(after) if tree.get(p) != after.get(p))
    else:
        why = kind[1](after, days)
    words = [a for a in args if a != "--dry-run"]
    if not why and not words and not broken:
        why = judge_candidates(tree, rc, out)
    if not why and rc == 0 and len(words) == 1:
        said = named(out, tree)
        if len(words) != len(args):
            rc2, _, _ = w.request(words, sub, bins)
            real = dict(w.have)
            if rc2 != 0:
                why = "a dry run accepted what the request itself refuses" if not broken else None
            w.load(tree, hist)
        else:
            real = after
        chg = {p for p in tree if real.get(p) != tree[p]}
        if not why and said != chg:
            why = "the files %s are named, and %s change" % (sorted(said), sorted(chg))
    return why, after, rc == 0


def run_case(w, c):
    """c: {tree, hist, derive, args, ...}. Gives (number of requests, complaint or None)."""
    w.load(c["tree"], c["hist"])
    why, after, _ = step(w, c["tree"], c["hist"], c["args"], c["derive"], c.get("broken"), c.get("sub", ""), c.get("bins", "ok"))
    return 1, [dict(what=why, args=c["args"], hist=c["hist"], about=c.get("about", ""), before=diff(c["tree"]), after={p: after.get(p) for p in after if after[p] != c["tree"].get(p)})] if why else []


def diff(tree):
    b = base_tree()
    return {p: (t if isinstance(t, str) else repr(t)) for p, t in tree.items() if b.get(p) != t}


# ---------------------------------------------------------------- the spaces

def logs_unreleased(n):
    al = ["", "### Added", "### Fixed", "### Custom", "- a", "  b", "- [c](d)"]
    for k in range(n + 1):
        for x in itertools.product(al, repeat=k):
            yield "# Changelog\n\n## [Unreleased]\n" + "".join(y + "\n" for y in x) + OLDER + LINKS
    # lines that almost are headings
    for y in ("#### Details", "###None", "## Other", " ### Added", "# Top", "##", "###", "- ## [0.1.0]", "- ### x", "[Fixed]", "\t### Fixed", "##### Deep"):
        for x in itertools.product(["", "### Added", "### Fixed", "- a"], repeat=n - 1):
            for i in range(n):
                yield "# Changelog\n\n## [Unreleased]\n" + "".join(z + "\n" for z in x[:i] + (y,) + x[i:]) + OLDER + LINKS


def logs_older(n):
    al = ["", "## [0.10.0] - 2024-08-04", "### Added", "- x", "[unreleased]: u", "[Unreleased]: " + URL + "v0.11.0...HEAD", "[0.11.0]: v", "[0.12.0]: w", "## [0.12.0] - 2026-01-01", "## [0.12.0]", "## [Unreleased]"]
    for k in range(n + 1):
        for x in itertools.product(al, repeat=k):
            t = "".join(y + "\n" for y in x)
            for pre in ("# Changelog\n\n## [Unreleased]\n\n### Added\n\n- n\n\n## [0.11.0] - 2026-05-04\n\n### Fixed\n\n- o\n", "# Changelog\n\nAbout ### this\n\n## [Unreleased]\n\n"):
                if "[unreleased]:" not in "\n".join((split_log(pre + t) or ("", "", ""))[1]).lower():
                    yield pre + t  # links among the entries are left open
    for pre in ("", "# Changelog\n", "## [Unreleased]", "## [Unreleased] \n\n## [0.11.0] - x\n", "## Unreleased\n## [0.11.0] - x\n", "## [0.11.0] - x\n\n- a\n", "## [Unreleased]\n- a\n"):
        yield pre
        yield pre + "\n" + LINKS


DOC_AL = ['parse-display = "0.11.0"', '//! parse-display = "0.11.0"', "[x](https://docs.rs/parse-display/0.11.0/a) docs.rs/parse-display/0.11.0/b",
          "/// [x](https://docs.rs/parse-display/0.11.0/a) docs.rs/parse-display/0.10.0/b", "## Deprecated features", "/// ## Deprecated", "  //! ## 非推奨の機能",
          "## Other", "    /// ## Other", "### Sub", 'text 0.11.0 parse-display-with = "0.11.0" docs.rs/parse-display-derive/0.11.0/', 'parse-display = "0.10.0"', ""]


def docs(n):
    k = 0
    for m in range(n + 1):
        for x in itertools.product(range(len(DOC_AL)), repeat=m):
            ls = [DOC_AL[i] for i in x]
            ends = [("\n", True)]
            if m <= 2:
                ends += [("\n", False), ("\r\n", True), ("\r\n", False)]
            if m == 0:
                ends = [("\n", True)]
            for e, last in ends:
                t = e.join(ls) + (e if last and m else "")
                for ext in ("md", "rs") if m <= 2 else ("md" if k % 2 else "rs",):
                    yield "d%d/f%d.%s" % (k // 100, k, ext), t
                k += 1
    yield "e/empty.md", ""
    yield "e/blank.rs", "\n\n\n"
    yield "e/blanks.md", "a\n\n\n\n"
    for p in ("e/x.txt", "e/x.toml", "e/x", "e/x.mdx", ".git.md", "e/target/x.md", ".codex/x.md", "e/.codex/x.rs"):
        yield p, 'parse-display = "0.11.0"\nhttps://docs.rs/parse-display/0.11.0/\n'
    yield ".hidden/x.md", 'parse-display = "0.11.0"\n'
    yield "parse-display/src/deep/er/x.rs", '//! parse-display = "0.11.0"\n'


def histories(root):
    """Builds the histories; gives {name: (tree, whether the derive crate changed)}."""
    out = {}
    base = base_tree()

    def make(name, steps, dirty, changed, extra_git=None):
        d = os.path.join(root, name)
        os.makedirs(d)
        git(d, "init", "-q", "-b", "main")
        tree = dict(base)
        n = 0
        for files, msg in steps:
            tree.update(files)
            put(d, tree)
            n += 1
            git(d, "add", "-A")
            git(d, "commit", "-q", "--allow-empty", "-m", msg)
        tree.update(dirty)
        out[name] = (tree, changed)

    D = "parse-display-derive/src/lib.rs"
    ver = lambda v="0.11.0": ({}, "Version %s." % v)  # noqa: E731
    first = ({}, "first")
    chg = lambda t: ({D: t}, "change the derive")  # noqa: E731
    oth = ({"parse-display/src/lib.rs": LIBRS + "// x\n"}, "change something else")
    near = ({"parse-display-derive2/x.txt": "x"}, "a neighbour")
    for cs, changed in (([], False), ([chg("// 1\n")], True), ([oth], False), ([near], False), ([oth, chg("// 1\n"), oth], True), ([({"parse-display-derive/new.txt": "x"}, "add")], True)):
        for ds, dch in (({}, False), ({D: "// dirty\n"}, True), ({"parse-display-derive/untracked.txt": "x"}, True), ({"parse-display/src/lib.rs": LIBRS + "// dirty\n"}, False)):
            nm = "after%d%d" % (len(out), 0)
            make(nm, [first, ver()] + cs, ds, changed or dch)
    make("never", [first, chg("// 1\n")], {}, True)
    make("never2", [first], {}, True)
    make("before", [first, chg("// 1\n"), ver()], {}, False)
    make("inside", [first, ({D: "// v\n"}, "Version 0.11.0.")], {}, False)
    make("two", [first, ver("0.10.0"), chg("// 1\n"), ver()], {}, False)
    make("two2", [first, ver("0.10.0"), ver(), chg("// 1\n")], {}, True)
    make("nodot", [first, ver("0.10.0"), chg("// 1\n"), ({}, "Version 0.11.0")], {}, True)
    make("words", [first, ver("0.10.0"), chg("// 1\n"), ({}, "Prepare Version 0.11.0."), ({}, "Version 0.11.0. again"), ({}, "Version x.1.0."), ({}, "Version 0a11b0.")], {}, True)
    make("big", [first, ver("0.10.0"), chg("// 1\n"), ver("10.21.300")], {}, False)
    return out


def versions(n):
    yield from ("0.12.0", "1.0.0", "0.11.1", "0.11.0", "0.10.0", "0.10.1", "10.20.30", "18446744073709551615.0.0", "18446744073709551616.0.0", "99999999999999999999999.0.0", "0.12",
                "0.12.0.0", "v0.12.0", "0.12.0 ", " 0.12.0", "0.12.0-rc.1", "0.12.0+b", "+0.12.0", "-0.12.0", "0.-12.0", "0..0", "..", "0.12.x", "０.12.0", "0.12.٣", "0,12,0", "0.12.0\n", "1e1.0.0", "--dryrun", "--help", "Unreleased", "01.2.3", "--dry-run", "0.1_2.0")
    for k in range(n + 1):
        for x in itertools.product("01.-", repeat=k):
            yield "".join(x)


def cases(th, hist):
    """Single requests."""
    b = base_tree()
    b2 = hist["before"][0]
    R = ["0.12.0"]

    def c(about, tree, args=R, h="never2", derive=True, **kw):
        return dict(about=about, tree=tree, args=args, hist=h, derive=derive, **kw)

    for t in logs_unreleased(5 if th else 4):
        yield c("unreleased", dict(b, **{"CHANGELOG.md": t}))
    for t in logs_unreleased(2):
        yield c("unreleased, dry", dict(b, **{"CHANGELOG.md": t}), ["--dry-run", "0.12.0"])
    for t in logs_older(4 if th else 3):
        yield c("older", dict(b, **{"CHANGELOG.md": t}))
    for t in logs_older(2):
        yield c("older, dry", dict(b, **{"CHANGELOG.md": t}), ["--dry-run", "0.12.0"])
    for v in versions(6 if th else 5):
        yield c("version", b, [v])
        if th or len(v) > 4:
            yield c("version", b, ["--dry-run", v])
    for k in range(4 if th else 3):
        for a in itertools.product(["--dry-run", "0.12.0", "0.11.0", "x", ""], repeat=k + 1):
            for sub in ("", "parse-display/src", "target"):
                if sub == "" or k < 2:
                    yield c("arguments", b, list(a), sub=sub)
    # no version: the candidates
    for t in logs_unreleased(4 if th else 3):
        yield c("candidates", dict(b, **{"CHANGELOG.md": t}), [])
    for i in range(2 ** len(CATS)):
        for custom in ("", "### Custom\n\n- c\n"):
            t = "".join("### %s\n%s" % (n, "- x\n" if i >> k & 1 else "\n") for k, n in enumerate(CATS)) + custom
            yield c("candidates", dict(b, **{"CHANGELOG.md": CHANGE % t}), [])
    for v in ("0.0.0", "0.9.9", "1.2.3", "9.99.999", "10.0.0", "0.11.1"):
        for n in ("Added", "Fixed", "Other"):
            yield c("candidates", dict(b, **{"CHANGELOG.md": CHANGE % ("### %s\n\n- x\n" % n), "parse-display/Cargo.toml": MAN.replace("0.11.0", v)}), [])
    # from within directories that look almost like the root
    marks = {"Cargo.toml": "[package]\n", "CHANGELOG.md": CHANGE % "", "parse-display/Cargo.toml": MAN, "parse-display-derive/Cargo.toml": DER}
    for i in range(2 ** len(marks) - 1):
        t = dict(b, **{"near/" + p: x for k, (p, x) in enumerate(marks.items()) if i >> k & 1})
        t["near/sub/x.txt"] = "x"
        for sub in ("near", "near/sub"):
            for a in (R, ["--dry-run", "0.12.0"], []):
                yield c("nested", t, a, sub=sub)
    for nm, (t, ch) in hist.items():
        for a in (["0.12.0"], ["--dry-run", "0.12.0"], ["0.10.0"], []):
            yield c("history", t, a, h=nm, derive=ch)
            # versions that differ from each other
            u = dict(t, **{"parse-display-derive/Cargo.toml": DER.replace("0.11.0", "0.10.5", 1), "parse-display/Cargo.toml": MAN.replace("=0.11.0", "=0.10.5"),
                           "Cargo.lock": LOCK.replace('-derive"\nversion = "0.11.0"', '-derive"\nversion = "0.10.5"')})
            yield c("history", u, a, h=nm, derive=True)
    # shapes of the manifests and of the lock file
    mans = [MAN, MAN.replace("\n", "\r\n"), MAN + "\n\n", MAN.rstrip("\n"), MAN.replace("version = \"=0.11.0\", path = \"../parse-display-derive\"", "path = \"../parse-display-derive\", version = \"=0.10.0\", features = [\"std\"]"),
            MAN.replace("parse-display-derive = {", "parse-display-derive={"), MAN.replace('version = "0.11.0"\nedition', "edition"), MAN.replace("version", "  version", 1),
            MAN.replace('version = "=0.11.0", path', "path"), "", '[package]\nname = "x"\n', MAN.replace("[dependencies]", '[dependencies]\naaa = { version = "=0.11.0" }'),
            MAN + '\n[dev-dependencies]\nparse-display-derive = { version = "=0.11.0" }\n']
    ders = [DER, DER.replace('version = "0.11.0"\n', "", 1).replace("syn", "#"), DER.replace("\n", "\r\n"), DER.replace('version = "0.11.0"', 'version = "0.3.0"', 1), DER.rstrip("\n")]
    locks = [LOCK, LOCK.replace("\n", "\r\n"), LOCK.replace('name = "parse-display"', 'name = "parse-displax"'), LOCK.replace('name = "parse-display-derive"', 'name = "x"'), "", LOCK.rstrip("\n"),
             LOCK.replace('"parse-display"\nversion = "0.11.0"', '"parse-display"\nversion = "0.0.1"'), LOCK.replace("version = 4\n", "version = 3\n# x\n")]
    for i, m in enumerate(mans):
        for j, d in enumerate(ders):
            for k, lk in enumerate(locks):
                if (i > 0) + (j > 0) + (k > 0) > (3 if th else 2):
                    continue
                for h, ch in (("never2", True), ("before", j > 0)):
                    t = dict(b2 if h == "before" else b, **{"parse-display/Cargo.toml": m, "parse-display-derive/Cargo.toml": d, "Cargo.lock": lk})
                    for a in (R, ["--dry-run", "0.12.0"]):
                        if pkg_version(m) is None or "parse-display-derive={" in m:
                            # what the script makes of such a manifest is its own business, but a refusal must be one
                            yield c("files", t, a, h=h, derive=ch, broken=True, loose=True)
                        else:
                            yield c("files", t, a, h=h, derive=ch)
    # the machinery around the script fails
    for bins in ("nodate", "baddate", "nogit", "badgit"):
        for a in (R, ["--dry-run", "0.12.0"], ["0.11.0"], []):
            yield c("broken " + bins, b, a, bins=bins, broken=True)
    yield c("no repository", b, R, h=None, broken=True)
    for p in ("README.md", "parse-display/src/x.rs", "a.md", "z.md"):
        yield c("not UTF-8", dict(b, **{p: b"\xff\xfe parse-display = \"0.11.0\"\n"}), R, broken=True)
    for p in ("CHANGELOG.md", "Cargo.lock", "parse-display-derive/Cargo.toml"):
        t = dict(b)
        del t[p]
        yield c("missing " + p, t, R, broken=True, loose=True)
    # documents, many in one tree
    ds = list(docs(4 if th else 3))
    for i in range(0, len(ds), 1500):
        t = dict(b2)
        t.update(ds[i:i + 1500])
        yield c("documents", t, R, h="before", derive=False)
        yield c("documents, dry", t, ["--dry-run", "0.12.0"], h="before", derive=False)
        yield c("documents, refused", t, ["0.10.0"], h="before", derive=False)


OPS = [("req", ["0.12.0"]), ("req", ["0.13.0"]), ("req", ["--dry-run", "0.12.0"]), ("req", ["0.11.0"]), ("req", []), ("add", "Added", "- one"), ("add", "Security", "- two\n  more"), ("add", "Custom", "- three"),
       ("derive",), ("commit",), ("doc",)]


def apply_op(w, op, tree, dirty, n):
    """An operation of the maintainer. Gives (tree, whether the derive crate changed since the last version)."""
    tree = dict(tree)
    if op[0] == "add":
        t = tree["CHANGELOG.md"]
        sp = split_log(t)
        if sp:
            pre, un, post = sp
            h = "### " + op[1]
            if h in un:
                i = un.index(h)
                un = un[:i + 1] + ["", op[2]] + un[i + 1:]
            else:
                un = un + [h, "", op[2], ""]
            tree["CHANGELOG.md"] = "\n".join(pre + ["## [Unreleased]"] + un + post) + "\n"
    elif op[0] == "derive":
        tree["parse-display-derive/src/lib.rs"] += "// %d\n" % n
        dirty = True
    elif op[0] == "doc":
        v = pkg_version(tree["parse-display/Cargo.toml"])
        tree["README.md"] += 'parse-display = "%s"\nhttps://docs.rs/parse-display/%s/\n\n## New\nhttps://docs.rs/parse-display/%s/\n' % (v, v, v)
    put(w.d, tree)
    w.have = dict(tree)
    if op[0] == "commit":
        v = pkg_version(tree["parse-display/Cargo.toml"])
        git(w.d, "add", "-A")
        git(w.d, "commit", "-q", "--allow-empty", "-m", "Version %s." % v)
        dirty = False
    return tree, dirty


def run_sequence(w, seq):
    """Replays one operation sequence from the start; every prefix is judged by the sequence that is that prefix."""
    tree, _ = w.cfg["histmap"]["before"]
    w.have = None
    w.load(tree, "before")
    dirty = False
    n = 0
    for i, k in enumerate(seq):
        op = OPS[k]
        n += 1
        if op[0] == "req":
            why, after, ok = step(w, tree, "before", op[1], dirty)
            if why:
                return n, [dict(what=why, sequence=[OPS[j] for j in seq[:i + 1]], before=diff(tree), after={p: after.get(p) for p in after if after[p] != tree.get(p)})]
            # the script's own edit of the manifest of the derive crate is an uncommitted change of that crate
            if after.get("parse-display-derive/Cargo.toml") != tree.get("parse-display-derive/Cargo.toml"):
                dirty = True
            tree = after
        else:
            tree, dirty = apply_op(w, op, tree, dirty, i)
    return n, []


W = None


def init(cfg, lock):
    global W
    with lock:
        k = len(os.listdir(cfg["worlds"]))
        d = os.path.join(cfg["worlds"], "w%d" % k)
        os.makedirs(d)
    W = World(os.path.join(d, "r"), cfg)


def chunk(items):
    n, bad, shown = 0, [], None
    W.seen = set()
    for kind, x in items:
        try:
            if kind == "seq":
                k, b = run_sequence(W, x)
            elif x.get("loose"):
                k, b = loose(W, x)
            else:
                k, b = run_case(W, x)
        except CheckError as e:
            return n, bad, str(e), set(), 0
        n += k
        bad += b
    return n, bad, None, W.seen, n - sum(1 for k, x in items if k == "case" and x.get("loose"))


def loose(w, c):
    """Only: a request that fails changes nothing."""
    w.load(c["tree"], c["hist"])
    rc, out, _ = w.request(c["args"])
    if (rc != 0 or "--dry-run" in c["args"]) and w.have != c["tree"]:
        return 1, [dict(what="a refused request or a dry run changed files", args=c["args"], before=diff(c["tree"]), after=sorted(p for p in w.have if w.have[p] != c["tree"].get(p)))]
    if rc not in (0, 1):
        return 1, [dict(what="the script ended with %d" % rc, args=c["args"], before=diff(c["tree"]), after=out[-300:])]
    return 1, []


def check(run):
    import multiprocessing as mp
    th = TIER == "thorough"
    work = run.work
    exe = compile_script(work)
    bins = os.path.join(work, "bins")
    stub_bin(os.path.join(bins, "date"), "powershell", 0)
    stub_bin(os.path.join(bins, "baddate"), "powershell", 3)
    os.makedirs(os.path.join(bins, "git"))
    os.symlink(shutil.which("git") or "/usr/bin/git", os.path.join(bins, "git", "git"))
    stub(os.path.join(bins, "badgit"), "git", "#!/bin/sh\nexit 128\n")
    sysd = ["/usr/bin", "/bin"]
    B = {k: os.path.join(bins, k) for k in ("date", "baddate", "git", "badgit")}
    cfg = {"exe": exe, "worlds": os.path.join(work, "worlds"), "hist": os.path.join(work, "hist"),
           "bins": {"ok": [B["date"]] + sysd, "nodate": [B["git"]], "baddate": [B["baddate"]] + sysd, "nogit": [B["date"]], "badgit": [B["badgit"], B["date"]]}}
    os.makedirs(cfg["worlds"])
    os.makedirs(cfg["hist"])
    hist = histories(cfg["hist"])
    cfg["histmap"] = {"before": hist["before"]}
    items = [("case", c) for c in cases(th, hist)]
    depth = 4 if th else 3
    items += [("seq", s) for s in itertools.product(range(len(OPS)), repeat=depth)]
    # the same history next to each other: a worker then rewrites only the files
    size = 40
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    ctx = mp.get_context("fork")
    lock = ctx.Lock()
    with cf.ProcessPoolExecutor(JOBS, mp_context=ctx, initializer=init, initargs=(cfg, lock)) as ex:
        seen = set()
        for n, bad, err, hashes, definite in ex.map(chunk, chunks):
            if err:
                raise CheckError(err)
            # states: distinct (files, request) handed to the script; transitions: operations; validated: those whose outcome the model fixes
            seen |= hashes
            run.add("transitions", n)
            run.add("traces_validated_against_impl", definite)
            for b in bad:
                run.violation("the release preparation does something else", b)
    run.add("states", len(seen))
    run.add("single_requests", sum(k == "case" for k, _ in items))
    run.add("operation_sequences", sum(k == "seq" for k, _ in items))
    kinds = {}
    for k, c in items:
        if k == "case":
            kinds[c["about"]] = kinds.get(c["about"], 0) + 1
    run.extra["cases"] = kinds
    run.extra["depth"] = depth
    run.extra["operations"] = [" ".join(map(str, o)) for o in OPS]
    for k, c in items[1000:len(items):max(1, len(items) // 8)]:
        run.sample({"sequence": [OPS[j] for j in c]} if k == "seq" else {"args": c["args"], "about": c["about"], "history": c["hist"], "changelog": c["tree"].get("CHANGELOG.md", "")[:200]})
