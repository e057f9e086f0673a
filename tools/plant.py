#!/usr/bin/env python3
"""Confirm a planted bug and store it under seeded/.

usage: plant.py SPEC.py [ID...]
SPEC.py defines BUGS: list of dicts id, property, needs, breaks, edits=[(file, old, new)], demo (main.rs text),
optionally cargo (extra lines of the demo's Cargo.toml), check (also run the property's quick check).
A bug is kept when the patched copy builds, the workspace tests pass and the demonstration fails with the patch and
passes without it. Scratch copies live under /tmp and are removed.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2026-05-14", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
           CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
DEMO = '''#!/bin/bash
# Builds the small program beside this file against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export RUSTUP_TOOLCHAIN=nightly-2026-05-14 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
tpm2 = { path = "$repo/crates/tpm2" }
tpm2-client = { path = "$repo/crates/tpm2-client" }
tpm2-impl = { path = "$repo/crates/tpm2-impl" }
tpm2-rs-base = { path = "$repo/base" }
tpm2-rs-marshalable = { path = "$repo/marshalable" }
safe-discriminant = "*"
[workspace]
EOF
export CARGO_TARGET_DIR=$d/target
cd "$d" || exit 2
cargo build --offline --quiet || exit 2
timeout 60 ./target/debug/demo
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    W = "/tmp/plant_w"
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    for b in spec:
        if only and b["id"] not in only:
            continue
        run(["git", "checkout", "--", "."], W)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches", s.count(old), f, repr(old[:50])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        d = tempfile.mkdtemp(prefix="plantdemo")
        open(d + "/main.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        r = run(["bash", d + "/demo.sh"], "/repo")
        if r.returncode != 0:
            print(b["id"], "DEMO fails on unchanged", r.returncode, r.stdout[-1500:]); shutil.rmtree(d); continue
        t = run(["cargo", "test", "--workspace", "--offline", "--quiet"], W)
        if t.returncode != 0:
            print(b["id"], "TESTS fail / does not build", t.stdout[-700:]); shutil.rmtree(d); continue
        r = run(["bash", d + "/demo.sh"], W)
        if r.returncode in (0, 2):
            print(b["id"], "DEMO does not fail with patch", r.returncode, r.stdout[-800:]); shutil.rmtree(d); continue
        out = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        diff = run(["git", "diff"], W).stdout
        open(out + "/patch.diff", "w").write(diff)
        for f in ("main.rs", "demo.sh"):
            shutil.copy(d + "/" + f, out + "/" + f)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print(b["id"], b["property"], "kept; demo with patch:", r.stdout.strip().splitlines()[-2:][:1], flush=True)
    shutil.rmtree(W, ignore_errors=True)

main()
