#!/usr/bin/env python3
"""seed.py SPEC.py...  Confirms planted bugs in a scratch copy (/tmp/wt) and keeps the confirmed ones in seeded/.
A SPEC.py defines S = [dict(id, property, needs, what, edits=[(file, old, new)], demo=<rust main.rs>)]."""
import sys, os, subprocess, json, shutil, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
DEMO_SH = '''#!/bin/bash
# Builds main.rs (beside this script) against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/usr/local/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
unset RUSTFLAGS
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
export CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/lock.txt" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
imageproc = { path = "$repo", default-features = false, features = ["rayon"] }
image = { version = "0.25.0", default-features = false }
[profile.dev]
debug = false
incremental = false
T
cd "$tmp" && cargo build --offline --quiet || exit 98
timeout 120 "$tmp/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = sh(". /opt/vp/env.sh; env -0").stdout
ENVD = dict(x.split("=", 1) for x in ENV.split("\0") if "=" in x)
def tests():
    e = dict(ENVD)
    os.makedirs(WT + "/target/vp-logs", exist_ok=True)
    p = sh("cargo test --workspace --all-features --all-targets --no-run --offline", cwd=WT, env=e)
    if p.returncode: return False, p.stdout[-3000:]
    sh("rm -f target/vp-logs/*; cargo test --workspace --all-features --all-targets --no-fail-fast --offline -- --test-threads 8 > target/vp-logs/targets.log 2>&1;"
       "cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > target/vp-logs/doc.log 2>&1", cwd=WT, env=e)
    sh("python3 /opt/vp/results.py /tmp/wt.json 'cargo:%s/target/vp-logs/*.log'" % WT)
    o = json.load(open("/tmp/wt.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    miss = sorted(set(b["stable"]) - set(o["passed"]))
    return not miss, "\n".join(miss)
def main():
    sh("rm -rf /tmp/wt && cp -a /repo /tmp/wt")
    for spec in sys.argv[1:]:
        g = {}; exec(open(spec).read(), g)
        for s in g["S"]:
            d = os.path.join(HERE, "seeded", s["id"])
            if os.path.exists(d + "/ok") or os.path.exists(d + "/patch.diff"): continue
            sh("git checkout -- .", cwd=WT)
            bad = False
            for f, old, new in s["edits"]:
                t = open(WT + "/" + f).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT not unique/absent:", t.count(old), old[:80]); bad = True; break
                open(WT + "/" + f, "w").write(t.replace(old, new))
            if bad: continue
            diff = sh("git diff", cwd=WT).stdout
            tmp = "/tmp/seedtmp"; sh("rm -rf /tmp/seedtmp"); os.makedirs(tmp)
            open(tmp + "/patch.diff", "w").write(diff)
            open(tmp + "/main.rs", "w").write(s["demo"])
            shutil.copy(HERE + "/harness/demo.lock", tmp + "/lock.txt")
            open(tmp + "/demo.sh", "w").write(DEMO_SH)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(tmp + "/meta.json", "w"), indent=1)
            ok, why = tests()
            if not ok: print(s["id"], "TESTS catch it or build fails:", why[-1500:]); continue
            r1 = sh("bash %s/demo.sh" % tmp, cwd="/repo")
            if r1.returncode: print(s["id"], "DEMO fails on clean:", r1.returncode, r1.stdout[-1500:]); continue
            r2 = sh("bash %s/demo.sh" % tmp, cwd=WT)
            if r2.returncode in (0, 98, 99): print(s["id"], "DEMO on patched:", r2.returncode, r2.stdout[-1500:]); continue
            os.makedirs(HERE + "/seeded", exist_ok=True)
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
            print(s["id"], "KEPT", r2.returncode, r2.stdout.strip().split("\n")[-1][:150])
    sh("rm -rf /tmp/wt /tmp/seedtmp")
main()
