#!/usr/bin/env python3
"""Plant bugs: make patch + demo in seeded/<id>/, confirm them in a scratch copy, then run the property's check.

usage: plant.py BUGS.py [id ...]      (BUGS.py defines BUGS = [dict(id, prop, edits, demo, needs, breaks)])
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

REPO, VERIF = "/repo", "/verif"
DEMO_SH = r'''#!/bin/bash
# Builds the small program beside this script against the crates in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
chrono = "0.4.38"
calendar = { path = "$repo/third-parties/calendar" }
qlab-error = { path = "$repo/crates/qlab-error" }
qlab-math = { path = "$repo/crates/qlab-math" }
qlab-time = { path = "$repo/crates/qlab-time" }
qlab-termstructure = { path = "$repo/crates/qlab-termstructure" }
qlab-instrument = { path = "$repo/crates/qlab-instrument" }
TOML
cd "$work" && CARGO_TARGET_DIR="$work/target" timeout 250 cargo run --offline -q
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def original_lines_ok(f, old):
    base = run(["git", "show", "5fdf62f:" + f], REPO).stdout
    return [l for l in old.split("\n") if l.strip() and l not in base]

def plant(b):
    out = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="plant")
    try:
        work = os.path.join(scratch, "repo")
        subprocess.run(["git", "clone", "-q", REPO, work], check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"edit matches {s.count(old)} times in {f}: {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], work).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        base = {}
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                base = set(run(["git", "show", "5fdf62f:" + l[6:]], REPO).stdout.split("\n"))
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base:
                print("  note: not an original line:", l)
        open(os.path.join(out, "main.rs"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        demo_dir = os.path.join(scratch, "demo")
        os.makedirs(demo_dir)
        for n in ("main.rs", "demo.sh"):
            shutil.copy(os.path.join(out, n), demo_dir)
        demo = ["bash", os.path.join(demo_dir, "demo.sh")]
        r = run(demo, REPO)
        if r.returncode != 0:
            return "demo fails on the unchanged tree:\n" + r.stdout[-2500:]
        r = run(demo, work)
        if r.returncode == 0:
            return "demo passes with the patch"
        if "error: could not compile" in r.stdout or "error[E" in r.stdout:
            return "does not compile\n" + r.stdout[-2500:]
        note = r.stdout.strip().split("\n")[-1][:150]
    finally:
        shutil.rmtree(scratch)
    # tests and check with the patch on /repo, then undo
    patch = os.path.join(out, "patch.diff")
    subprocess.run(["git", "-C", REPO, "apply", patch], check=True)
    try:
        r = run(["bash", "/opt/vp/build.sh"], REPO)
        if r.returncode:
            return "build.sh fails\n" + r.stdout[-1500:]
        run(["bash", "/opt/vp/test.sh", "/tmp/plant.json"], REPO)
        o = json.load(open("/tmp/plant.json")); bl = json.load(open("/opt/vp/BASELINE.json"))
        def passed(x):
            for k in ("passed", "stable", "tests", "pass"):
                if k in x: return set(x[k])
            raise SystemExit("keys: %s" % list(x))
        lost = passed(bl) - passed(o)
        if lost:
            return "existing tests fail: %s" % sorted(lost)[:5]
        checks = [b["prop"]] + b.get("also", [])
        res = []
        for c in checks:
            r = run(["bash", "run.sh", "check", c], VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=" + c)]
            res.append(f"{c}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}")
            if os.environ.get("VERBOSE"): print(r.stdout[-1500:])
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
    return f"ok ({note}) | " + "; ".join(res)

bugs = runpy.run_path(sys.argv[1])["BUGS"]
sel = sys.argv[2:]
for b in bugs:
    if sel and b["id"] not in sel: continue
    print(b["id"], "=>", plant(b), flush=True)
