#!/usr/bin/env python3
"""Development aid: tries a planted bug in a scratch clone.
usage: seed.py SPEC.py [id ...]   SPEC.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}
Confirms (scratch clone under /tmp/seed): builds, stable tests pass, demo 0 before / nonzero after, then runs
the property's check (in a scratch copy of mc) and writes /verif/seeded/<id>/ ."""
import sys, os, subprocess, shutil, json, re
spec = {}; exec(open(sys.argv[1]).read(), spec)
BUGS = spec["BUGS"]; ids = sys.argv[2:] or list(BUGS)
D = "/tmp/seed"; R = D + "/repo"; V = D + "/verif"
BASE = "38f5f97"
env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
def sh(c, cwd=R, to=900, **e):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
if not os.path.exists(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
sh("git fetch -q && git checkout -q -f $(git -C /repo rev-parse HEAD)")
shutil.rmtree(V, ignore_errors=True); os.makedirs(V)
shutil.copytree("/verif/mc", V + "/mc", ignore=shutil.ignore_patterns("target"))
shutil.copy("/verif/known_findings.txt", V)
ct = V + "/mc/Cargo.toml"; s = open(ct).read().replace("/repo/sci-rs", R + "/sci-rs"); open(ct, "w").write(s)
DEMO = '''#!/bin/bash
# Run with cwd at the repository: exit 0 if the behaviour is right, nonzero otherwise.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME="${HOME:-/root}" PATH="$PATH:$HOME/.cargo/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sci-rs = { path = "$repo/sci-rs", features = ["std", "plot"] }
nalgebra = { version = "0.33.2", default-features = false, features = ["alloc"] }
ndarray = { version = "0.16.1", default-features = false }
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build -q --offline || exit 3
timeout 60 "$d/target/debug/demo"
'''
def tests():
    ok = True; fails = []
    for f in ("--all-features", ""):
        rc, o = sh(f"cargo test --workspace {f} --no-fail-fast --offline -- --test-threads 8", CARGO_TARGET_DIR=D + "/tt")
        fails += re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
        if "error: could not compile" in o or "error[" in o: fails.append("BUILD: " + o[-600:])
    return sorted(set(fails))
b0 = None
for i in ids:
    b = BUGS[i]; print("==", i, b["property"]); sys.stdout.flush()
    sh("git checkout -q -f .")
    bad = False
    for f, old, new in b["edits"]:
        p = os.path.join(R, "sci-rs/src", f); s = open(p).read()
        if s.count(old) < 1: print("   edit not found in", f); bad = True; break
        k = b.get("nth", {}).get(f, 0)
        parts = s.split(old)
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
    if bad: continue
    # original lines only
    mine = 0
    rc, blame = sh("git diff -U0")
    for f in sh("git diff --name-only")[1].split():
        basef = sh(f"git show {BASE}:{f}")[1].split("\n")
        cur = None
        for l in sh(f"git diff -U0 -- {f}")[1].split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in basef: mine += 1
    if mine: print(f"   note: {mine} removed lines are not lines of the original repository")
    diff = sh("git diff")[1]
    if b0 is None:
        sh("git stash -q"); b0 = tests(); sh("git stash pop -q"); print("   baseline failures:", b0)
    t = [x for x in tests() if x not in b0]
    if t: print("   TESTS FAIL:", t[:4]); continue
    out = f"/verif/seeded/{i}"; os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO.replace("build -q", "build -q --release").replace("target/debug", "target/release") if b.get("release") else DEMO); os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.rs", "w").write(b["demo"].strip() + "\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    tmp = D + "/demo"; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(out, tmp)
    r1 = sh(f"bash {tmp}/demo.sh", to=300); sh("git stash -q"); r0 = sh(f"bash {tmp}/demo.sh", to=300); sh("git stash pop -q")
    if r0[0] != 0 or r1[0] in (0, 3): print(f"   DEMO BAD clean={r0[0]} patched={r1[0]}\n{r0[1][-800:]}\n{r1[1][-500:]}"); shutil.rmtree(out); continue
    if "-nocheck" in os.environ.get("SEED_OPTS", ""): continue
    for c in [b["property"]] + b.get("also", []):
        rc, o = sh(f"cargo build --release --offline --bin {c.lower()}", V + "/mc", CARGO_TARGET_DIR=D + "/vt", RUSTFLAGS="-C target-cpu=x86-64 -A warnings")
        if rc: print("   BUILD", o[-500:]); continue
        nd = "" if c in ("C13", "C14", "C21", "C24", "C25", "C26") else "--no-default-features"
        rc, o = sh(f"cargo build --profile plain {nd} --offline --bin {c.lower()}", V + "/mc", CARGO_TARGET_DIR=D + "/vt", RUSTFLAGS="-C target-cpu=x86-64 -A warnings")
        if rc: print("   BUILD", o[-500:]); continue
        rc, o = sh(f"{D}/vt/plain/{c.lower()} run smoke", D, MC_VERIF=V, MC_VARIANT="plain")
        if rc == 0: rc, o = sh(f"{D}/vt/release/{c.lower()} run quick", D, MC_VERIF=V)
        m = [l for l in o.split("\n") if l.startswith("violation")]
        print(f"   {c}: rc={rc} {'CAUGHT' if rc == 1 else 'MISSED' if rc == 0 else 'NO ANSWER'} {m[0][:180] if m else o[-150:] if rc != 1 else ''}")
    sys.stdout.flush()
sh("git checkout -q -f .")
