#!/usr/bin/env python3
"""Runs checks against a patched scratch copy of /repo:  variant.py [-j SLOT] PATCH|- [ID...]
(development tool; the registered checks always read /repo)"""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
slot = "0"
if args[0] == "-j":
    slot, args = args[1], args[2:]
patch, ids = args[0], args[1:]
root = f"/tmp/variant{slot}"
repo, build, ev = f"{root}/repo", f"{root}/build", f"{root}/evidence"
os.makedirs(root, exist_ok=True)
if not os.path.exists(repo):
    subprocess.run(["git", "worktree", "add", "--detach", "-f", repo, "HEAD"], cwd="/repo", check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
subprocess.run(["git", "checkout", "-q", "-f", head], cwd=repo, check=True)
subprocess.run(["git", "clean", "-fdq"], cwd=repo, check=True)
if not os.path.exists(build):
    subprocess.run(["cp", "-a", f"{HERE}/build", build], check=True)
if patch != "-":
    subprocess.run(["git", "apply", os.path.abspath(patch)], cwd=repo, check=True)
env = dict(os.environ, SA_REPO=repo, SA_BUILD=build, SA_EVIDENCE=ev)
if not ids:
    ids = subprocess.run([sys.executable, "-c", f"import sys;sys.path.insert(0,'{HERE}/sa');import check;print(*sorted(check.RULES))"], stdout=subprocess.PIPE, text=True).stdout.split()
bad = 0
for i in ids:
    p = subprocess.run([sys.executable, f"{HERE}/sa/check.py", i], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    last = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "(nothing)"
    if p.returncode:
        bad += 1
        print(f"--- {i} rc={p.returncode}")
        print("\n".join(l[:400] for l in p.stdout.splitlines()[:12]))
    elif os.environ.get("V"):
        print(last)
print(f"{patch}: {bad} of {len(ids)} checks alarmed")
sys.exit(1 if bad else 0)
