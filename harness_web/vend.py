"""vend.py OUT SYSROOT: a cargo directory source holding the cached crates and those rust-src vendors for std."""
import glob, json, os, shutil, sys

out, root = sys.argv[1:3]
home = os.environ.get("CARGO_HOME") or os.path.join(os.environ.get("HOME", "/root"), ".cargo")
lib = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
for reg in glob.glob(os.path.join(home, "registry/src/*")):
    for d in sorted(os.listdir(reg)):
        o = os.path.join(out, d)
        if os.path.exists(o):
            continue
        os.makedirs(o)
        for f in os.listdir(os.path.join(reg, d)):
            if f != ".cargo-checksum.json":
                os.symlink(os.path.join(reg, d, f), os.path.join(o, f))
        json.dump({"files": {}, "package": None}, open(os.path.join(o, ".cargo-checksum.json"), "w"))
for d in sorted(os.listdir(lib)):
    o = os.path.join(out, d)
    if os.path.isdir(o):
        shutil.rmtree(o)
    os.symlink(os.path.join(lib, d), o)
open(os.path.join(out, ".done"), "w").close()
