#!/usr/bin/env python3
"""Validates planted bugs in scratch copies: seedtest.py [-j SLOT] ID...   (development tool)
Each must apply, build, pass the repository's stable tests, pass its demonstration without the patch and fail it with it."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
slot = "0"
if args[0] == "-j":
    slot, args = args[1], args[2:]
root = f"/tmp/seedslot{slot}"
repo, ws, tgt = f"{root}/repo", f"{root}/ws", f"{root}/target"
os.makedirs(root, exist_ok=True)
def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(repo):
    sh(f"cd /repo && git worktree add --detach -f {repo} HEAD", check=True)
    sh(f"cp -a /opt/vp/offline/ws {ws} && cp -a /opt/vp/offline/target {tgt}", check=True)
sync = open("/opt/vp/sync_ws.py").read().replace('REPO = "/repo"', f'REPO = "{repo}"').replace('WS = "/opt/vp/offline/ws"', f'WS = "{ws}"')
open(f"{root}/sync.py", "w").write(sync)
res = open("/opt/vp/results.py").read()
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
envsh = f""". /opt/vp/env.sh; export CARGO_TARGET_DIR={tgt}; python3 {root}/sync.py sync && cd {ws} && cargo metadata --offline --format-version 1 > /dev/null"""
def reset():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"cd {repo} && git checkout -q -f {head} && git clean -fdq", check=True)
def demo(i):
    return subprocess.run(["bash", f"{HERE}/seeded/{i}/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
for i in args:
    d = f"{HERE}/seeded/{i}"
    reset()
    p = demo(i)
    if p.returncode != 0:
        print(f"{i}: DEMO FAILS ON CLEAN TREE\n" + p.stdout[-1500:], flush=True); continue
    q = sh(f"cd {repo} && git apply {d}/patch.diff")
    if q.returncode:
        print(f"{i}: patch does not apply: {q.stdout}", flush=True); continue
    p = demo(i)
    if p.returncode == 0:
        print(f"{i}: DEMO PASSES WITH THE PATCH", flush=True); continue
    if "could not compile" in p.stdout:
        print(f"{i}: DEMO DOES NOT COMPILE\n" + p.stdout[-1500:], flush=True); continue
    note = [l for l in p.stdout.splitlines() if "panicked" in l or "left" in l or "right" in l or "Error" in l][:3]
    t = sh(f"{envsh} && cargo test --locked --offline --all-features --no-fail-fast -- --test-threads 8 > {root}/native.log 2>&1; "
           f"cargo test --locked --offline $WASM_TESTS --no-fail-fast > {root}/wasm.raw 2>&1; "
           f"sed -E 's/^(test .+ \\.\\.\\. FAIL)\\s*$/\\1ED/' {root}/wasm.raw > {root}/wasm.log; "
           f"cargo build --locked --offline --target wasm32-unknown-unknown -p ic-response-verification-wasm 2>&1 | tail -3; "
           f"python3 /opt/vp/results.py {root}/out.json cargo:{root}/native.log cargo:{root}/wasm.log")
    try:
        r = json.load(open(f"{root}/out.json"))
    except Exception as e:
        print(f"{i}: no test results {e} {t.stdout[-500:]}", flush=True); continue
    lost = stable - set(r["passed"])
    print(f"{i}: {'OK' if not lost else 'TESTS CATCH IT: ' + str(sorted(lost)[:4]) + f' ({len(lost)})'}  demo: {note}", flush=True)
reset()
