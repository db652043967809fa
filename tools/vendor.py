#!/usr/bin/env python3
"""Extracts the crates named by harness/Cargo.lock from the offline cargo caches into a directory source."""
import hashlib, json, os, shutil, sys, tarfile, tomllib, glob
lock, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
caches = sorted(glob.glob(os.path.join(os.environ.get("CARGO_HOME", "/root/.cargo"), "registry/cache/*")))
missing = []
for p in tomllib.load(open(lock, "rb"))["package"]:
    if "source" not in p:
        continue
    n = f'{p["name"]}-{p["version"]}'
    dst = os.path.join(out, n)
    mark = os.path.join(dst, ".cargo-checksum.json")
    if os.path.exists(mark):
        continue
    for c in caches:
        f = os.path.join(c, n + ".crate")
        if os.path.exists(f) and hashlib.sha256(open(f, "rb").read()).hexdigest() == p["checksum"]:
            shutil.rmtree(dst, ignore_errors=True)
            with tarfile.open(f) as t:
                t.extractall(out, filter="data")
            with open(mark + ".tmp", "w") as o:
                json.dump({"files": {}, "package": p["checksum"]}, o)
            os.rename(mark + ".tmp", mark)
            break
    else:
        missing.append(n)
if missing:
    sys.exit(f"crates not in the offline caches: {missing}")
