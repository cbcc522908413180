"""Builds the engine, the LLVM IR of the harness with /repo's current code, and
native runners of the same harness.  Everything goes to /verif/build."""
import glob, hashlib, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")
REPO = os.environ.get("VP_REPO", "/repo")
FLAGS = "-C no-vectorize-loops -C no-vectorize-slp -C debuginfo=1"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    home = os.path.expanduser("~")
    for p in (f"{home}/.cargo/bin", "/usr/local/cargo/bin"):
        if os.path.isdir(p) and p not in e["PATH"].split(":"):
            e["PATH"] = e["PATH"] + ":" + p
    e.update(kw)
    return e


def run(cmd, cwd, e, limit=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    return p.returncode, p.stdout


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def engine():
    rc, o = run(["cargo", "build", "--release", "--offline", "-q"], f"{ROOT}/engine", env())
    if rc:
        raise BuildError("engine: " + o[-3000:])
    return f"{ROOT}/engine/target/release/symx"


def image_copy():
    """the image crate with recording encoders"""
    dst = f"{BUILD}/image-rec"
    ver = "0.25.10"
    lock = f"{REPO}/Cargo.lock"
    if os.path.exists(lock):
        m = re.search(r'name = "image"\nversion = "([^"]+)"', open(lock).read())
        if m:
            ver = m.group(1)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = sorted(glob.glob(f"{home}/registry/src/*/image-{ver}"))
    if not src:
        raise BuildError(f"image {ver} is not in the cargo cache")
    stamp = f"{dst}/.from"
    want = src[0] + hashlib.sha256(open(f"{ROOT}/tools/mkimage.py", "rb").read()).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == want:
        return dst
    rc, o = run([sys.executable, f"{ROOT}/tools/mkimage.py", src[0], dst], ROOT, env())
    if rc:
        raise BuildError("image: " + o[-2000:])
    write(stamp, want)
    return dst


def entries(img):
    out = []
    for f in sorted(glob.glob(f"{ROOT}/harness/src/*.rs")):
        if f.endswith("/img.rs") and not img:
            continue
        for m in re.finditer(r'pub extern "C" fn (h_\w+)\(([^)]*)\)', open(f).read()):
            n = len([x for x in m.group(2).split(",") if x.strip()])
            out.append((m.group(1), n))
    return out


LOCK = threading.Lock()


def crate(variant):
    with LOCK:
        return crate_(variant)


def crate_(variant):
    """std, nostd, img: the crate directory"""
    d = f"{BUILD}/{variant}"
    img = variant == "img"
    feats = ["ascii", "json", "svg"] + ([] if variant == "nostd" else ["std"]) + (["image"] if img else [])
    t = f"""[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[lib]
name = "harness"
crate-type = ["rlib"]
path = "{ROOT}/harness/src/lib.rs"
[[bin]]
name = "native"
path = "main.rs"
[features]
img = []
std = []
[dependencies]
barcoders = {{ path = "{REPO}", default-features = false, features = [{", ".join('"%s"' % f for f in feats)}] }}
"""
    if img:
        p = image_copy()
        t += f"""image = {{ version = "0.25", default-features = false, features = ["gif", "png", "webp"] }}
[patch.crates-io]
image = {{ path = "{p}" }}
"""
    t += """[workspace]
[profile.release]
opt-level = 2
lto = "fat"
panic = "abort"
codegen-units = 1
overflow-checks = true
debug = 1
[profile.dev]
opt-level = 1
debug = 1
[profile.fast]
inherits = "release"
overflow-checks = false
lto = false
panic = "unwind"
"""
    write(f"{d}/Cargo.toml", t)
    write(f"{d}/main.rs", open(f"{ROOT}/native/main.rs").read())
    es = entries(img)
    tab = "extern \"C\" {\n"
    for n, k in es:
        tab += f"    fn {n}({', '.join('a%d: u64' % i for i in range(k))});\n"
    tab += "}\nfn call(n: &str, a: &[u64]) {\n    unsafe {\n        match n {\n"
    for n, k in es:
        tab += f"            \"{n}\" => {n}({', '.join('a[%d]' % i for i in range(k))}),\n"
    tab += "            _ => panic!(\"no such entry\"),\n        }\n    }\n}\n"
    write(f"{d}/table.rs", tab)
    # start from the versions /repo is locked to
    if os.path.exists(f"{REPO}/Cargo.lock") and not os.path.exists(f"{d}/Cargo.lock"):
        shutil.copyfile(f"{REPO}/Cargo.lock", f"{d}/Cargo.lock")
    return d


def fresh(target):
    """make cargo rebuild barcoders and the harness whatever the mtimes"""
    for prof in ("release", "debug", "fast"):
        for pat in (".fingerprint/barcoders-*", ".fingerprint/harness-*"):
            for p in glob.glob(f"{target}/{prof}/{pat}"):
                shutil.rmtree(p, ignore_errors=True)
        for p in glob.glob(f"{target}/{prof}/deps/harness-*.ll"):
            os.remove(p)


def cargo(variant, target, args, e, what):
    d = crate(variant)
    fresh(f"{d}/{target}")
    rc, o = run(["cargo"] + args + ["--offline"], d, e)
    if rc and "Cargo.lock" in o:
        try:
            os.remove(f"{d}/Cargo.lock")
        except OSError:
            pass
        rc, o = run(["cargo"] + args + ["--offline"], d, e)
    if rc:
        raise BuildError(f"{what}: " + o[-4000:])
    return d


def ir(variant):
    e = env(RUSTFLAGS="--emit=llvm-ir " + FLAGS, CARGO_TARGET_DIR=f"{BUILD}/{variant}/t-ir")
    feat = ["--features", "img"] if variant == "img" else []
    d = cargo(variant, "t-ir", ["rustc", "--release", "--lib", "--crate-type", "staticlib"] + feat, e, f"IR ({variant})")
    ll = sorted(glob.glob(f"{d}/t-ir/release/deps/harness-*.ll"), key=os.path.getmtime)
    if not ll:
        raise BuildError("no IR produced")
    return ll[-1]


def native(variant, profile):
    e = env(CARGO_TARGET_DIR=f"{BUILD}/{variant}/t-nat")
    feat = ["--features", "img"] if variant == "img" else []
    d = crate(variant)
    cargo(variant, "t-nat", ["build", "--bin", "native", "--profile", profile] + feat, e, f"native ({variant})")
    return f"{d}/t-nat/{'debug' if profile == 'dev' else profile}/native"


if __name__ == "__main__":
    t = time.time()
    print(engine(), "%.1f" % (time.time() - t))
    for v in sys.argv[1:] or ["std", "nostd", "img"]:
        for f, a in ((ir, ()), (native, ("dev",)), (native, ("fast",))):
            t = time.time()
            print(f(v, *a), "%.1f" % (time.time() - t), flush=True)
