#!/usr/bin/env python3
"""Development only: makes /verif/seeded/<id> from a spec file and confirms it in a scratch copy of /repo.

Spec: a python file defining ID, PROPERTY, EDITS=[(file, old, new)..], DEPS={crate: cargo spec or None}, DEMO (main.rs),
NEEDS, BREAKS.
"""
import json, os, re, shutil, subprocess, sys

COPY = "/tmp/w/bugrepo"
spec = {}
exec(open(sys.argv[1]).read(), spec)
if not os.path.isdir(COPY):
    subprocess.run(["cp", "-a", "/repo", COPY], check=True)


def sh(c, cwd, env=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    return p.returncode, p.stdout + p.stderr


head = sh("git -C /repo rev-parse HEAD", "/")[1].strip()
sh(f"git fetch -q /repo && git checkout -q -f {head} && git checkout -q -- .", COPY)
d = f"/verif/seeded/{spec['ID']}"
os.makedirs(d, exist_ok=True)
deps = ""
for k, v in spec["DEPS"].items():
    if v is None:
        deps += f'{k} = {{ path = "@REPO@/crates/{k}" }}\n'
    else:
        deps += f"{k} = {v}\n"
open(f"{d}/Cargo.toml.in", "w").write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n\n[workspace]\n\n[dependencies]\n{deps}')
open(f"{d}/main.rs", "w").write(spec["DEMO"].lstrip("\n"))
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Runs main.rs against the crates of the repository in the current directory; exit 0 when they behave.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
sed "s|@REPO@|$repo|g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q@R@
'''.replace("@R@", " --release" if spec.get("RELEASE") else ""))
os.chmod(f"{d}/demo.sh", 0o755)
json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
rc, out = sh(f"bash {d}/demo.sh", COPY)
assert rc == 0, "demo fails on the unchanged tree:\n" + out
for f, old, new in spec["EDITS"]:
    p = os.path.join(COPY, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
rc, diff = sh("git diff", COPY)
open(f"{d}/patch.diff", "w").write(diff)
rc, out = sh("cargo build --workspace --offline && cargo check --workspace --all-features --offline", COPY)
assert rc == 0, out[-3000:]
rc, out = sh("cargo test --workspace --no-fail-fast --offline", COPY)
assert rc == 0 and "FAILED" not in out, out[-3000:]
rc, out = sh(f"bash {d}/demo.sh", COPY)
assert rc != 0, "demo passes with the patch"
print("demo with patch:", rc, out.strip()[-300:])
sh("git checkout -q -- .", COPY)
print("ok", spec["ID"])
if "--check" in sys.argv:
    assert sh("git -C /repo status --porcelain", "/")[1].strip() == ""
    subprocess.run(["git", "-C", "/repo", "apply", f"{d}/patch.diff"], check=True)
    try:
        rc, out = sh(f"VERIF_TIER=quick python3 /verif/tools/run.py check {spec['PROPERTY']}", "/verif", t=1000)
        print("check exit", rc)
        print(out[-1500:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
