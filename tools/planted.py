#!/usr/bin/env python3
"""Apply each planted change in turn and run checks on it.

    planted.py [id...]                  its own property's check
    planted.py --matrix <scratch> [id...]   every exploration, on copies in a scratch directory
    planted.py --preserving [name...]   every check on the behaviour-preserving edits in
                                        tools/preserving, all of which must be quiet

Writes nothing but the checks' own output and the scratch directory; /repo is restored after
each change.
"""
import json, os, shutil, subprocess, sys, time

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], check=True, capture_output=True, text=True).stdout


def trial(name, patch, label, props):
    assert not git("status", "--porcelain")
    git("apply", patch)
    try:
        out = []
        for p in props:
            t = time.time()
            r = subprocess.run(["python3", "run.py", "check", p, "quick"], cwd=VERIF, capture_output=True, text=True)
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            word = "caught" if hit else "quiet" if r.returncode == 0 else f"exit {r.returncode}"
            out.append(f"{p} {word} {time.time() - t:.0f}s")
    finally:
        git("checkout", "-q", "--", ".")
    print(name, label, "|", ", ".join(out), flush=True)


def matrix(scratch, names):
    """Like mutate.py checks: which explorations notice which planted change."""
    dst, har = os.path.join(scratch, "repo"), os.path.join(scratch, "harness")
    for i in names or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        d = os.path.join(VERIF, "seeded", i)
        for x in (dst, har):
            shutil.rmtree(x, ignore_errors=True)
        os.makedirs(dst)
        subprocess.run(f"git -C {REPO} archive HEAD | tar -x -C {dst}", shell=True, check=True)
        subprocess.run(["patch", "-s", "-p1", "-i", os.path.join(d, "patch.diff")], cwd=dst, check=True)
        shutil.copytree(os.path.join(VERIF, "harness"), har)
        p = os.path.join(har, "Cargo.toml")
        s = open(p).read().replace('"/repo"', f'"{dst}"')
        open(p, "w").write(s)
        # copies keep old time stamps, which cargo would take for unchanged sources
        for top, _, files in os.walk(os.path.join(dst, "src")):
            for f in files:
                os.utime(os.path.join(top, f))
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, "t"), RUSTFLAGS="--cfg clarith_verif")
        for prof in ("release", "wrapping", "unoptimised"):
            subprocess.run(["cargo", "build", "--offline", "-q", "--profile", prof], cwd=har, env=e, check=True, stderr=subprocess.DEVNULL)
        hits = []
        for prop in PROPS:
            if prop == "C16":
                continue
            for prof in ("release", "wrapping") + (("unoptimised",) if prop in ("C05", "C06", "C15") else ()):
                res = os.path.join(scratch, "res.json")
                r = subprocess.run(["timeout", "-k", "1", "300", os.path.join(scratch, "t", prof, "mc"), "explore", prop,
                                    "long" if prof == "unoptimised" else "quick", res,
                                    os.path.join(scratch, "slots"), "8"], capture_output=True)
                if r.returncode:
                    hits.append(f"{prop} (exit {r.returncode})")
                    break
                if any(x["failure"] for x in json.load(open(res))["spaces"]):
                    hits.append(prop)
                    break
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        print(i, prop, "|", ", ".join(hits), flush=True)


def main():
    if "--matrix" in sys.argv:
        k = sys.argv.index("--matrix")
        os.makedirs(sys.argv[k + 1], exist_ok=True)
        return matrix(sys.argv[k + 1], sys.argv[k + 2:])
    names = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--preserving" in sys.argv:
        d = os.path.join(VERIF, "tools", "preserving")
        for f in names or sorted(x[:-5] for x in os.listdir(d)):
            trial(f, os.path.join(d, f + ".diff"), "preserving", PROPS)
        return
    for i in names or sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        d = os.path.join(VERIF, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        trial(i, os.path.join(d, "patch.diff"), prop, [prop])


main()
