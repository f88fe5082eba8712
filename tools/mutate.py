#!/usr/bin/env python3
"""Assessment of the checks with small syntactic changes of the library.

    mutate.py list                         number of changes
    mutate.py tests <scratch>              which changes compile and pass the existing tests
    mutate.py checks <scratch> [prop...]   which checks notice the ones that do

Works on copies in a scratch directory; not part of any check.
"""
import json, os, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = BASE = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["src/lib.rs", "src/compare.rs", "src/main.rs"] + [
    "src/strategy/%s.rs" % f for f in ("ratio", "homographic", "combine", "consume", "support")]

RULES = [
    (r"\.checked_(add|sub|mul)\(", lambda m: [".wrapping_%s(" % m.group(1), ".saturating_%s(" % m.group(1)]),
    (r"\.checked_neg\(\)\.unwrap\(\)", lambda m: [".wrapping_neg()", ""]),
    (r" (<=|>=|<|>|==|!=) ", lambda m: [" %s " % o for o in {
        "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]]),
    (r" (&&|\|\|) ", lambda m: [" || " if m.group(1) == "&&" else " && "]),
    (r"&& ", lambda m: ["|| "]),
    (r"(?<![\w!])!(?=[a-z(])", lambda m: [""]),
    (r" (\+|-|\*|/|%|\+=|-=|\*=|/=) (?=[\w(])", lambda m: [" %s " % o for o in {
        "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "%": ["/"],
        "+=": ["-="], "-=": ["+="], "*=": ["/="], "/=": ["*="]}[m.group(1)]]),
    (r"(?<![\w.])([0-4])(?![\w.])", lambda m: [str(int(m.group(1)) + 1)] + ([str(int(m.group(1)) - 1)] if m.group(1) != "0" else [])),
    (r"Ordering::(Less|Greater|Equal)", lambda m: ["Ordering::" + {"Less": "Greater", "Greater": "Less", "Equal": "Less"}[m.group(1)]]),
    (r"Reduction::(Amplify|Uncover)$", lambda m: ["Reduction::" + {"Amplify": "Uncover", "Uncover": "Amplify"}[m.group(1)]]),
    (r"Primer::(Turn|Reflect|Ground)(?=\)|$)", lambda m: ["Primer::" + {"Turn": "Ground", "Ground": "Turn", "Reflect": "Turn"}[m.group(1)]]),
    (r"Special::(NegOne|Zero|PosOne)(?=\))", lambda m: ["Special::" + {"NegOne": "PosOne", "PosOne": "NegOne", "Zero": "PosOne"}[m.group(1)]]),
    (r"self\.(nx|n|dx|d|a|b|c|e|f|g|h)\b(?! =|\(| [+\-*/]=)", lambda m: ["self." + {
        "nx": "n", "n": "nx", "dx": "d", "d": "dx" if "dx" in m.string else "c", "a": "b", "b": "a", "c": "d",
        "e": "f", "f": "e", "g": "h", "h": "g"}[m.group(1)]]),
    (r"greater_than_(\w+)\(", lambda m: ["less_than_%s(" % m.group(1)]),
    (r"(?<!not_)less_than_(\w+)\(", lambda m: ["greater_than_%s(" % m.group(1)]),
    (r"\b(nmin, dmin|nmax, dmax)\)", lambda m: [("nmax, dmax" if "min" in m.group(1) else "nmin, dmin") + ")"]),
    (r"\.signum\(\)", lambda m: [""]),
    (r"unsigned_abs\(\)", lambda m: ["unsigned_abs() + 1"]),
    (r"\bif (?!let\b)[^{]+ \{", lambda m: ["if true {", "if false {"]),
    (r"\(([a-z]\w*), ([a-z]\w*)\)", lambda m: ["(%s, %s)" % (m.group(2), m.group(1))]),
    (r"\b([a-z]\w*), ([a-z]\w*), ([a-z]\w*), ([a-z]\w*)\)", lambda m: ["%s, %s, %s, %s)" % tuple(m.group(i) for i in p) for p in ((2, 1, 3, 4), (1, 3, 2, 4), (1, 2, 4, 3), (3, 4, 1, 2))]),
    (r"polarity = !polarity", lambda m: ["polarity = true", "polarity = false"]),
    (r"max_value\(\) / 4", lambda m: ["max_value() / 2", "max_value() / 3", "max_value() / 8", "max_value() / 1000"]),
]
DELETE = re.compile(r"^\s+(self\.\w+\(\);|swap\(.*\);|self\.\w+ [-+*/]?= .*;|\w+ = .*;|std::mem::swap.*;)\s*$")


def code_lines(path):
    """Line numbers outside test modules and comments."""
    lines = open(os.path.join(BASE, path)).read().split("\n")
    out, i, comment = [], 0, False
    while i < len(lines):
        if lines[i].startswith("#[cfg(test)]"):
            while lines[i] != "}":
                i += 1
        elif "/*" in lines[i]:
            while "*/" not in lines[i]:
                i += 1
        elif not lines[i].strip().startswith("//") and not lines[i].startswith("use "):
            out.append(i)
        i += 1
    return lines, out


def mutants():
    seen = set()
    for path in FILES:
        lines, nos = code_lines(path)
        for no in nos:
            old = lines[no]
            news = []
            for pat, f in RULES:
                for m in re.finditer(pat, old):
                    for rep in f(m):
                        news.append(old[:m.start()] + rep + old[m.end():])
            for k, new in enumerate(news):
                # a checked operation turned unchecked loses its unwrap
                for word in (".wrapping_", ".saturating_"):
                    if word in new and word not in old:
                        news[k] = unwrap_gone(new, word)
            if DELETE.match(old) and "let" not in old:
                news.append("")
            for new in news:
                if new is None or new == old or (path, no, new) in seen:
                    continue
                seen.add((path, no, new))
                ident = hashlib.sha1(f"{path}:{no}:{old}:{new}".encode()).hexdigest()[:8]
                yield dict(id=ident, path=path, line=no + 1, old=old.strip(), new=new.strip(), text=new)


def unwrap_gone(s, word):
    i = s.index(word)
    j = s.index("(", i)
    depth = 0
    for k in range(j, len(s)):
        depth += {"(": 1, ")": -1}.get(s[k], 0)
        if depth == 0:
            return s[:k + 1] + s[k + 1:].replace(".unwrap()", "", 1) if s[k + 1:].startswith(".unwrap()") else None
    return None


def write(m, dst):
    lines = open(os.path.join(BASE, m["path"])).read().split("\n")
    lines[m["line"] - 1] = m["text"]
    with open(os.path.join(dst, m["path"]), "w") as f:
        f.write("\n".join(lines))


def copy_repo(dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(BASE, dst)


def export(scratch):
    """Work from the committed tree, whatever happens to the working tree meanwhile."""
    global BASE
    BASE = os.path.join(scratch, "base")
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    subprocess.run(f"git -C {REPO} archive HEAD | tar -x -C {BASE}", shell=True, check=True)


def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def env(target, flags=None):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    if flags:
        e["RUSTFLAGS"] = flags
    return e


def tests(scratch):
    ms = list(mutants())
    out = os.path.join(scratch, "survivors.jsonl")
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    workers = 8
    queue = [m for m in ms if m["id"] not in done]
    f = open(out, "a")

    def work(w):
        dst = os.path.join(scratch, f"w{w}")
        for m in queue[w::workers]:
            copy_repo(dst)
            write(m, dst)
            e = env(os.path.join(scratch, f"t{w}"))
            e["CARGO_PROFILE_TEST_DEBUG"] = "0"
            e["CARGO_PROFILE_TEST_OPT_LEVEL"] = "1"
            e["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
            e["CARGO_PROFILE_TEST_OVERFLOW_CHECKS"] = "true"
            e["RUST_BACKTRACE"] = "0"
            rc, o = sh(["cargo", "test", "--offline", "-q", "--lib", "--tests", "--no-run"], dst, e, 120)
            if rc != 0:
                m["tests"] = "compile"
            else:
                rc, o = sh(["timeout", "-k", "1", "40", "cargo", "test", "--offline", "-q", "--lib", "--tests"], dst, e, 60)
                m["tests"] = "pass" if rc == 0 else "fail"
            f.write(json.dumps(m) + "\n")
            f.flush()

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(workers)))


def order(m):
    """The checks concerned, those most likely to notice first; stops at the first one that does."""
    if "wrapping" in m["new"] or "saturating" in m["new"]:
        return ["C11"]
    return {
        "lib": ["C01", "C07", "C15"],
        "ratio": ["C01", "C02", "C07", "C12", "C14"],
        "compare": ["C03", "C04", "C15"],
        "consume": ["C10"],
        "homographic": ["C07", "C05", "C09", "C08", "C15", "C02", "C18"],
        "combine": ["C06", "C07", "C09", "C08", "C02", "C18"],
        "support": ["C06", "C07", "C05", "C09", "C08", "C18"],
    }[os.path.basename(m["path"])[:-3]]


def checks(scratch, props):
    ms = [json.loads(l) for l in open(os.path.join(scratch, "survivors.jsonl"))]
    ms = [m for m in ms if m["tests"] == "pass" and m["path"] != "src/main.rs" and "Err(" not in m["old"]]
    out = os.path.join(scratch, "checked.jsonl")
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    dst, har = os.path.join(scratch, "repo"), os.path.join(scratch, "harness")
    for m in sorted(ms, key=lambda m: order(m) == ["C11"]):
        if m["id"] in done:
            continue
        copy_repo(dst)
        write(m, dst)
        shutil.rmtree(har, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness"), har)
        p = os.path.join(har, "Cargo.toml")
        s = open(p).read().replace('"/repo"', f'"{dst}"')
        open(p, "w").write(s)
        e = env(os.path.join(scratch, "th"), "--cfg clarith_verif")
        bad = False
        # an explicit wrapping operation behaves the same in both builds
        unchecked = order(m) == ["C11"]
        builds = ["wrapping"] if unchecked else ["release", "wrapping"] if not {"C01", "C10", "C11"}.isdisjoint(props or order(m)) else ["release"]
        for prof in builds:
            rc, o = sh(["cargo", "build", "--offline", "-q", "--profile", prof], har, e, 600)
            bad = bad or rc != 0
        m["result"] = {}
        if bad:
            m["result"] = "build"
        else:
            for prop in props or order(m):
                if any(r != "held" for r in m["result"].values()):
                    break
                r = "held"
                for prof in builds if prop in ("C01", "C10", "C11") else ("release",):
                    res = os.path.join(scratch, "res.json")
                    exe = os.path.join(scratch, "th", prof, "mc")
                    with open(os.path.join(scratch, "o"), "w") as fo:
                        try:
                            rc = subprocess.run(["timeout", "-k", "1", "240", exe, "explore", prop, "quick", res, os.path.join(scratch, "slots"), "8"],
                                                stdout=fo, stderr=fo).returncode
                        except Exception:
                            rc = -1
                    if rc == 124 or rc == 137:
                        r = "hang"
                    elif rc < 0 or rc >= 128:
                        r = "crash"
                    elif rc:
                        r = "error"
                    else:
                        fs = [s for s in json.load(open(res))["spaces"] if s["failure"]]
                        if fs:
                            r = "VIOLATED " + fs[0]["name"] + ": " + fs[0]["failure"]["message"][:200]
                    if r != "held":
                        break
                m["result"][prop] = r
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["list"]:
        print(len(list(mutants())))
    elif a[:1] == ["tests"]:
        os.makedirs(a[1], exist_ok=True)
        export(a[1])
        tests(a[1])
    elif a[:1] == ["checks"]:
        export(a[1])
        checks(a[1], a[2:])
    else:
        print(__doc__)
