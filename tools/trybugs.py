#!/usr/bin/env python3
"""Development only: runs each seeded change's own check against it. trybugs.py [ID..]"""
import json, os, subprocess, sys
S = "/verif/seeded"
for b in sys.argv[1:] or sorted(os.listdir(S)):
    p = json.load(open(f"{S}/{b}/meta.json"))["property"]
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip() == ""
    subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{b}/patch.diff"], check=True)
    try:
        r = subprocess.run(["python3", "/verif/tools/run.py", "check", p], capture_output=True, text=True, cwd="/verif")
        und = [l.strip()[:200] for l in r.stdout.split("\n") if "undischarged" in l or "undecided" in l]
        inp = [l.strip()[:200] for l in r.stdout.split("\n") if "failing input" in l]
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(b, p, "exit", r.returncode, v[0][-30:] if v else "MISSED", flush=True)
        for l in inp[:1] + und[:3]:
            print("   ", l)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
