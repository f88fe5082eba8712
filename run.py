#!/usr/bin/env python3
"""Runs the checks.

    run.py setup                   build everything for the current tree of /repo
    run.py check <ID> <tier>       decide one property; writes evidence/<ID>.json
    run.py replay <file>           repeat the failing case recorded in a replay file

Exit status of a check: 0 the property held, 1 it was violated (and a line
"VIOLATION property=<ID> replay=<file>" was printed), 2 the check itself failed.
"""

import contextlib
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
THREADS = 8
HANG_S = 45          # no case takes a tenth of this
MUCH = 1 << 20       # bytes on the standard streams after which nothing more need be seen
KEEP_BUILDS = 4
CHECKED, WRAPPING, UNOPTIMISED = "release", "wrapping", "unoptimised"
LONG = {"C05", "C06", "C15"}    # their long operands once more without optimisation
ASSUMPTIONS = [
    "64-bit machine integers; the library and harness are compiled by the installed stable rustc",
    "distinct states are counted by 64-bit hash in a table of 2^30 bits, so the count can be slightly low",
]


class CheckError(Exception):
    pass


def environment():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("CARGO") and k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUST_BACKTRACE")}
    env["HOME"] = "/root"
    env["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def tree_hash():
    """Content hash of everything a build depends on."""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(HERE, "harness")):
        for d, dirs, files in sorted(os.walk(top)):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "target"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


@contextlib.contextmanager
def build_lock():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def cargo(args, target, rustflags=None):
    env = environment()
    env["CARGO_TARGET_DIR"] = target
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    return subprocess.run(["cargo"] + args, cwd=HERE, env=env, stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def prune(keep):
    dirs = [os.path.join(TARGET, d) for d in os.listdir(TARGET)
            if re.fullmatch(r"[0-9a-f]{16}", d)]
    dirs.sort(key=os.path.getmtime, reverse=True)
    for d in dirs[KEEP_BUILDS:]:
        if os.path.basename(d) != keep:
            shutil.rmtree(d, ignore_errors=True)


def build(profiles):
    """Build the harness with the current tree; returns ({profile: binary}, hooked)."""
    with build_lock():
        key = tree_hash()
        base = os.path.join(TARGET, key)
        os.makedirs(base, exist_ok=True)
        os.utime(base)
        prune(key)
        manifest = os.path.join(HERE, "harness", "Cargo.toml")
        log = ""
        for hooked in (True, False):
            target = os.path.join(base, "hooked" if hooked else "plain")
            out = {}
            for p in profiles:
                exe = os.path.join(target, p, "mc")
                done = os.path.join(target, p + ".done")
                if not (os.path.exists(exe) and os.path.exists(done)):
                    r = cargo(["build", "--offline", "--quiet", "--manifest-path", manifest,
                               "--profile", p], target,
                              "--cfg clarith_verif" if hooked else None)
                    if r.returncode != 0:
                        log = r.stdout
                        break
                    with open(done, "w"):
                        pass
                out[p] = exe
            else:
                return out, hooked
        raise CheckError("the harness does not build:\n" + log[-3000:])


def build_demo():
    with build_lock():
        key = tree_hash()
        base = os.path.join(TARGET, key)
        os.makedirs(base, exist_ok=True)
        os.utime(base)
        prune(key)
        target = os.path.join(base, "demo")
        out = {}
        for p, d in (("dev", "debug"), ("release", "release")):
            exe = os.path.join(target, d, "clarith")
            done = os.path.join(target, p + ".done")
            if not (os.path.exists(exe) and os.path.exists(done)):
                r = cargo(["build", "--offline", "--quiet", "--manifest-path",
                           os.path.join(REPO, "Cargo.toml"), "--bins", "--profile", p], target)
                if r.returncode != 0:
                    raise CheckError("the demonstration program does not build:\n" + r.stdout[-3000:])
                with open(done, "w"):
                    pass
            out[p] = exe
        return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def tier_of(tier, profile):
    return "long" if profile == UNOPTIMISED else tier


def spaces_of(exe, prop, tier):
    r = subprocess.run([exe, "list", prop, tier], stdout=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise CheckError("the harness cannot list its spaces")
    return [line.split(" ", 1)[0] for line in r.stdout.splitlines()]


def one(exe, prop, tier, space, index):
    """Run one case in its own process: 'holds', or ('fails', what)."""
    p = subprocess.Popen([exe, "one", prop, tier, space, str(index)], stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=2 * HANG_S)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return ("fails", f"does not end within {2 * HANG_S} s")
    if p.returncode < 0:
        return ("fails", f"the process dies with {signal.Signals(-p.returncode).name}")
    if p.returncode != 0:
        raise CheckError(f"the harness fails on {space} {index}")
    text = out.decode(errors="replace")
    for line in text.splitlines():
        if line.startswith("FAILS "):
            return ("fails", line[6:])
    return "holds"


def explore(exe, prop, tier, profile):
    """Returns (report, failure); failure is None or a dict for the replay file."""
    tier = tier_of(tier, profile)
    with tempfile.TemporaryDirectory(prefix="mc-") as tmp:
        result, slots = os.path.join(tmp, "result"), os.path.join(tmp, "slots")
        so, se = os.path.join(tmp, "stdout"), os.path.join(tmp, "stderr")
        command = [exe, "explore", prop, tier, result, slots, str(THREADS)]
        tail, drain = [b""], None
        if prop == "C14":
            with open(so, "wb") as fo, open(se, "wb") as fe:
                p = subprocess.Popen(command, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                                     preexec_fn=limits)
        else:
            p = subprocess.Popen(command, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.PIPE, preexec_fn=limits)
            drain = threading.Thread(target=keep_tail, args=(p.stderr, tail), daemon=True)
            drain.start()
        seen = {}
        stuck = None
        while p.poll() is None:
            time.sleep(0.1)
            now = time.monotonic()
            for t, v in enumerate(read_slots(slots)):
                if seen.get(t, (None, 0))[0] != v:
                    seen[t] = (v, now)
                elif v[0] != 0 and now - seen[t][1] > HANG_S:
                    stuck = v
            if prop == "C14" and os.path.getsize(so) + os.path.getsize(se) > MUCH:
                p.kill()
                p.wait()
                return None, noise(so, se, profile)
            if stuck:
                p.kill()
                p.wait()
        if p.returncode != 0:
            suspects = [stuck] if stuck else [v for v in read_slots(slots) if v[0] != 0]
            names = spaces_of(exe, prop, tier)
            if p.returncode < 0:
                for s, i in suspects:
                    r = one(exe, prop, tier, names[s - 1], i)
                    if r != "holds":
                        return None, dict(space=names[s - 1], index=i, profile=profile, message=r[1])
            if drain:
                drain.join(5)
            raise CheckError(f"the exploration ended with status {p.returncode}\n"
                             + tail[0].decode(errors="replace"))
        with open(result) as f:
            report = json.load(f)
        for s in report["spaces"]:
            if s["failure"]:
                f = s["failure"]
                return report, dict(space=s["name"], index=f["index"], profile=profile,
                                    message=f["message"])
        if prop == "C14":
            return report, noise(so, se, profile)
        return report, None


def noise(so, se, profile):
    """What was written to the standard streams, as a failure."""
    for name, path in (("output", so), ("error", se)):
        with open(path, "rb") as f:
            text = f.read(200)
        if text:
            return dict(space="*", index=0, profile=profile,
                        message=f"written to standard {name}: {text!r}")


def keep_tail(pipe, tail):
    for block in iter(lambda: pipe.read(65536), b""):
        tail[0] = (tail[0] + block)[-2000:]


def read_slots(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except FileNotFoundError:
        return []
    v = struct.unpack(f"={len(b) // 8}Q", b[:len(b) // 8 * 8])
    return list(zip(v[0::2], v[1::2]))


# ------------------------------------------------------------ demonstration program

def representation(v):
    """The documented letters of a rational value, and the residuals passed through."""
    special = {Fraction(0): "Z", Fraction(1): "P", Fraction(-1): "N"}
    if v in special:
        return special[v], [v]
    neg, m = v < 0, abs(v)
    word = {(False, False): "", (False, True): "T", (True, False): "R", (True, True): "G"}[(neg, m > 1)]
    r = 1 / m if m > 1 else m
    states = [r]
    while r != Fraction(1, 2):
        if r < Fraction(1, 2):
            r, word = 2 * r, word + "A"
        else:
            r, word = 1 / r - 1, word + "U"
        states.append(r)
    return word + "H", states


def demo_line(line):
    """None if the line is true, else what is wrong."""
    m = re.fullmatch(r" *(-?[0-9]+(?:\.[0-9]+)?|-?[0-9]+/[0-9]+): ([A-Z]*)", line)
    if not m:
        return f"line {line!r} is not a value with its representation", []
    word, states = representation(Fraction(m.group(1)))
    if word != m.group(2):
        return f"{m.group(1)} is printed as {m.group(2)[:80]}, expected {word[:80]}", states
    return None, states


def run_demo(command, cwd):
    """Like subprocess.run, but with a bound on what can be written."""
    def bounded():
        limits()
        resource.setrlimit(resource.RLIMIT_FSIZE, (16 << 20, 16 << 20))
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        r = subprocess.run(command, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                           timeout=60, preexec_fn=bounded)
        fo.seek(0)
        fe.seek(0)
        r.stdout, r.stderr = fo.read(), fe.read()
        return r


def check_demo(tier):
    exes = build_demo()
    states, transitions, traces, samples = set(), 0, 0, []
    listed = None
    argvs = [[], ["x"]] if tier == "quick" else [[], ["x"], ["-h"], ["0", "1"]]
    for profile, exe in exes.items():
        for argv in argvs:
            for cwd in ("/", HERE):
                try:
                    r = run_demo([exe] + argv, cwd)
                except subprocess.TimeoutExpired:
                    return None, dict(space="demo", index=0, profile=profile,
                                      message="the program does not end")
                fail = lambda n, m: (None, dict(space="demo", index=n, profile=profile, message=m))
                if r.returncode != 0:
                    return fail(0, f"the program exits with status {r.returncode}")
                if r.stderr:
                    return fail(0, f"the program writes to standard error: {r.stderr[:200]!r}")
                text = r.stdout.decode(errors="replace")
                lines = text.split("\n")
                if lines[-1] != "" or len(lines) < 2:
                    return fail(len(lines), "the output is empty or its last line is incomplete")
                for n, line in enumerate(lines[:-1]):
                    wrong, st = demo_line(line)
                    if wrong:
                        return fail(n + 1, wrong)
                    states.update(st)
                    transitions += len(st)
                    traces += 1
                if listed is None:
                    samples = lines[1:40:13]
    rep = dict(states=len(states), transitions=transitions, executed=traces, out_of_scope=0,
               outcomes={"true_lines": traces},
               spaces=[dict(name="demo", rule="every line printed by every run of the program: builds "
                            "with and without optimisation, with and without arguments, two directories",
                            cases=traces, executed=traces, sample=s) for s in samples])
    return rep, None


# ------------------------------------------------------------ checks

def known_findings():
    path = os.path.join(HERE, "known-findings.txt")
    with open(path) as f:
        return [l.strip() for l in f if l.startswith("KNOWN-FINDING:")]


def check(prop, tier):
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evidence = os.path.join(EVIDENCE, prop + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    with contextlib.suppress(FileNotFoundError):
        os.remove(evidence)
    reports, failure, hooked = [], None, True
    if prop == "C16":
        rep, failure = check_demo(tier)
        if rep:
            reports.append(("dev+release", rep))
    else:
        profiles = [CHECKED, WRAPPING]
        if prop in LONG:
            profiles.append(UNOPTIMISED)
        exes, hooked = build(profiles)
        if not hooked and prop in LONG:
            profiles.remove(UNOPTIMISED)
        for p in profiles:
            rep, failure = explore(exes[p], prop, tier, p)
            if rep:
                reports.append((p, rep))
            if failure:
                break
    total = lambda k: sum(r[k] for _, r in reports)
    samples, seen = [], set()
    for _, r in reports:
        for s in r["spaces"]:
            if s.get("sample") and s["sample"] not in seen:
                seen.add(s["sample"])
                samples.append(f'{s["name"]}: {s["sample"]}')
    if failure:
        samples.insert(0, "violation: " + failure["message"])
    coverage = dict(
        states=max([r["states"] for _, r in reports], default=0),
        transitions=total("transitions"),
        traces_validated_against_impl=total("executed") - total("out_of_scope"),
        samples=samples,
        exhaustive=failure is None,
        outside_scope_of_property=total("out_of_scope"),
        outcomes={p: r["outcomes"] for p, r in reports},
        builds=[p for p, _ in reports],
        symbol_streams_supplied_by_harness=hooked and prop != "C16",
        spaces=[dict(build=p, name=s["name"], rule=s["rule"], cases=s["cases"],
                     ms=s.get("ms"))
                for p, r in reports for s in r["spaces"]],
    )
    doc = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
               assumptions=ASSUMPTIONS, wall_s=round(time.monotonic() - start, 2),
               violations=1 if failure else 0)
    tmp = evidence + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    os.replace(tmp, evidence)
    for line in known_findings():
        if f"property={prop} " in line:
            print(line)
    if failure:
        os.makedirs(REPLAYS, exist_ok=True)
        failure.update(property=prop, tier=tier, hooked=hooked)
        name = re.sub(r"[^A-Za-z0-9_-]", "_", f'{prop}-{tier}-{failure["profile"]}-{failure["space"]}')
        path = os.path.join(REPLAYS, name + ".json")
        failure["repeat_with"] = f"python3 run.py replay {path}"
        with open(path, "w") as f:
            json.dump(failure, f, indent=1)
            f.write("\n")
        print(failure["message"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    c = coverage
    print(f'{prop} held: {c["traces_validated_against_impl"]} executions, {c["states"]} states, '
          f'{c["transitions"]} transitions, {doc["wall_s"]} s')
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if d["space"] == "demo":
        _, failure = check_demo(d["tier"])
        r = "holds" if failure is None else ("fails", failure["message"])
    elif d["space"] == "*":
        raise CheckError("this finding belongs to a whole exploration; repeat the check")
    else:
        exes, _ = build([d["profile"]])
        r = one(exes[d["profile"]], d["property"], tier_of(d["tier"], d["profile"]), d["space"], d["index"])
    print("holds" if r == "holds" else "fails: " + r[1])
    return 0 if r == "holds" else 1


def main(argv):
    try:
        if argv[:1] == ["setup"]:
            build([CHECKED, WRAPPING, UNOPTIMISED])
            build_demo()
            return 0
        if argv[:1] == ["check"] and len(argv) == 3 and argv[2] in ("quick", "thorough"):
            return check(argv[1], argv[2])
        if argv[:1] == ["replay"] and len(argv) == 2:
            return replay(argv[1])
        print(__doc__)
        return 64
    except CheckError as e:
        print("check error:", e)
        return 2
    except Exception as e:  # an error of the check is not a verdict
        print("check error:", repr(e))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
