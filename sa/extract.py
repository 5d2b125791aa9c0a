"""Rebuilds the resolved program (MIR of every workspace function) from /repo's current working tree.

build/ws        mirror of /repo's library members (sa/mirror.py)
build/driver    the rustc_private exporter (driver/)
build/mir       <crate>.json (native, all features) and <crate>.wasm.json (the crates as built for the JS bindings)

The result is reused only when every input byte (mirror, driver source) is the same as when it was made."""

import fcntl
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import mirror  # noqa: E402

BUILD = os.environ.get("SA_BUILD", f"{HERE}/build")
CRATES = {"": ["ic_asset_certification", "ic_cbor", "ic_certificate_verification", "ic_certification",
               "ic_http_certification", "ic_representation_independent_hash", "ic_response_verification"],
          ".wasm": ["ic_cbor", "ic_certificate_verification", "ic_certification", "ic_http_certification",
                    "ic_representation_independent_hash", "ic_response_verification",
                    "ic_response_verification_wasm"]}


class BuildFailed(Exception):
    pass


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, check=True, text=True).stdout.strip()


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    home = os.environ.get("CARGO_HOME")
    if home:
        env["CARGO_HOME"] = home
    if os.environ.get("RUSTUP_HOME"):
        env["RUSTUP_HOME"] = os.environ["RUSTUP_HOME"]
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    return env


def build_driver(env):
    src = f"{HERE}/driver"
    e = dict(env, RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=f"{BUILD}/driver")
    rc, log = run(["cargo", "build", "--offline", "--quiet"], e, src)
    if rc:
        raise BuildFailed("the MIR exporter does not build:\n" + log[-4000:])


def digest(files):
    h = hashlib.sha256()
    for rel in sorted(files):
        h.update(rel.encode() + b"\0" + hashlib.sha256(files[rel]).digest())
    for p in ("driver/src/main.rs", "driver/Cargo.toml", "sa/mirror.py", "sa/extract.py"):
        with open(f"{HERE}/{p}", "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def extract():
    """Returns (directory of the JSON files, source digest)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return extract_locked()


def extract_locked():
    ws, mir = f"{BUILD}/ws", f"{BUILD}/mir"
    os.makedirs(ws, exist_ok=True)
    os.makedirs(mir, exist_ok=True)
    want = mirror.wanted()
    key = digest(want)
    stamp = f"{mir}/stamp"
    expected = [f"{c}{tag}.json" for tag, cs in CRATES.items() for c in cs]
    try:
        with open(stamp) as f:
            if f.read() == key and all(os.path.exists(f"{mir}/{e}") for e in expected):
                return mir, key
    except FileNotFoundError:
        pass
    for name in os.listdir(mir):
        os.remove(f"{mir}/{name}")
    env = base_env()
    build_driver(env)
    mirror.sync(ws)
    for m in mirror.MEMBERS:
        for lib in ("lib.rs",):
            os.utime(f"{ws}/{m}/src/{lib}")
    nightly = out(["rustup", "which", "rustc", "--toolchain", "nightly"])
    sysroot = out([nightly, "--print", "sysroot"])
    env.update(RUSTUP_TOOLCHAIN="1.78.0", RUSTC=nightly, LD_LIBRARY_PATH=f"{sysroot}/lib", SA_OUT=mir,
               RUSTC_WORKSPACE_WRAPPER=f"{BUILD}/driver/debug/sa-driver", CARGO_TARGET_DIR=f"{BUILD}/target-sa")
    rc, log = run(["cargo", "metadata", "--offline", "--format-version", "1"], env, ws)
    if rc:
        raise BuildFailed("cargo metadata:\n" + log[-3000:])
    rc, log = run(["cargo", "check", "--offline", "--locked", "--all-features"], env, ws)
    if rc:
        raise BuildFailed("cargo check:\n" + log[-6000:])
    for m in mirror.MEMBERS:
        os.utime(f"{ws}/{m}/src/lib.rs")
    wasm = dict(env, SA_TAG=".wasm", CARGO_TARGET_DIR=f"{BUILD}/target-sa-wasm",
                SA_EXTRA='-Aexplicit_builtin_cfgs_in_flags --cfg target_arch="wasm32"')
    rc, log = run(["cargo", "check", "--offline", "--locked", "-p", "ic-response-verification-wasm"], wasm, ws)
    if rc:
        raise BuildFailed("cargo check (wasm):\n" + log[-6000:])
    missing = [e for e in expected if not os.path.exists(f"{mir}/{e}")]
    if missing:
        raise BuildFailed("no export for " + ", ".join(missing))
    with open(stamp, "w") as f:
        f.write(key)
    return mir, key


if __name__ == "__main__":
    try:
        d, k = extract()
    except BuildFailed as e:
        print(e)
        sys.exit(2)
    n = 0
    for name in sorted(os.listdir(d)):
        if name.endswith(".json"):
            with open(f"{d}/{name}") as f:
                c = len(json.load(f)["fns"])
            print(f"{name}: {c} functions")
            n += c
    print(n, "functions", k[:12])
