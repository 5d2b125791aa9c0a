"""Mirrors the library members of /repo's workspace into build/ws, so that cargo can check them offline.

/repo itself cannot be resolved by cargo without network: some members and many dev-dependencies need git
crates of dfinity/ic.  The mirror keeps every non-test source file byte for byte; what is left out is whole
workspace members that are not libraries of the product, and every dev-dependency (tests are not analysed)."""

import os
import re
import sys
import tomllib

REPO = os.environ.get("SA_REPO", "/repo")

# The product's libraries. ic-certification-testing{,-wasm} (test support, needs dfinity/ic) and the examples are not.
MEMBERS = [
    "packages/ic-asset-certification",
    "packages/ic-cbor",
    "packages/ic-certification",
    "packages/ic-certificate-verification",
    "packages/ic-http-certification",
    "packages/ic-representation-independent-hash",
    "packages/ic-response-verification",
    "packages/ic-response-verification-wasm",
]
# workspace.dependencies entries that are only reachable by git or only by members left out
DROP_DEPS = {
    "ic-types", "ic-crypto-tree-hash", "ic-crypto-internal-threshold-sig-bls12381", "ic-crypto-internal-seed",
    "ic-crypto-internal-types", "ic-certification-testing",
}


def drop_tables(text, pred):
    """Removes the tables whose header satisfies pred, and entries of DROP_DEPS anywhere."""
    out, skipping = [], False
    for line in text.splitlines(keepends=True):
        m = re.match(r"\s*\[+(.+?)\]+\s*(#.*)?$", line)
        if m:
            header = m.group(1)
            skipping = pred(header) or any(header.endswith(f"dependencies.{d}") for d in DROP_DEPS)
        if skipping:
            continue
        m = re.match(r'\s*"?([\w-]+)"?(\.workspace)?\s*=', line)
        if m and m.group(1) in DROP_DEPS:
            continue
        out.append(line)
    return "".join(out)


def root_manifest(text):
    data = tomllib.loads(text)
    ws = data["workspace"]
    for key in ("members", "default-members"):
        for m in ws.get(key, []):
            if m not in MEMBERS:
                text = re.sub(rf'^\s*"{re.escape(m)}",?\s*\n', "", text, flags=re.M)
    return drop_tables(text, lambda h: False)


def is_dev(header):
    return header == "dev-dependencies" or header.startswith("dev-dependencies.") or ".dev-dependencies" in header \
        or header in ("bench", "test")


def wanted():
    files = {}
    rels = []
    for m in MEMBERS:
        for top, dirs, names in os.walk(f"{REPO}/{m}"):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "node_modules", "dist", "tests", "benches"))
            rels += [os.path.relpath(os.path.join(top, n), REPO) for n in sorted(names)]
    for rel in rels + ["Cargo.toml", "Cargo.lock"]:
        try:
            with open(f"{REPO}/{rel}", "rb") as f:
                data = f.read()
        except FileNotFoundError:
            continue
        if rel == "Cargo.toml":
            data = root_manifest(data.decode()).encode()
        elif rel.endswith("/Cargo.toml"):
            data = drop_tables(data.decode(), is_dev).encode()
        files[rel] = data
    return files


def sync(ws):
    """Writes the mirror; returns {rel: bytes}. Only changed files are written."""
    files = wanted()
    for top, _, names in os.walk(ws):
        for name in names:
            path = os.path.join(top, name)
            if os.path.relpath(path, ws) not in files:
                os.remove(path)
    for rel, data in files.items():
        path = f"{ws}/{rel}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if rel == "Cargo.lock" and os.path.exists(path) and os.path.exists(path + ".orig"):
            pass
        try:
            with open(path, "rb") as f:
                if f.read() == data:
                    continue
        except FileNotFoundError:
            pass
        with open(path, "wb") as f:
            f.write(data)
    return files


if __name__ == "__main__":
    sync(sys.argv[1])
