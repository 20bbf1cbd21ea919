"""Mirror /repo, build the exporter, export MIR, build the native replay binary.

Nothing here writes to /repo or /opt/vp: everything is under /verif/.build.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
HOME = os.environ.get("HOME", "/root")
RUSTUP = os.environ.get("RUSTUP_HOME", os.path.join(HOME, ".rustup"))
CARGOHOME = os.environ.get("CARGO_HOME", os.path.join(HOME, ".cargo"))
NROOT = os.path.join(RUSTUP, "toolchains", NIGHTLY)


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["HOME"] = HOME
    e["PATH"] = os.path.join(CARGOHOME, "bin") + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "1.81"  # cargo of the repository's own toolchain (its registry index is cached)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.update({k: v for k, v in kw.items() if v is not None})
    return e


def run(cmd, e=None, cwd=None, quiet=True):
    p = subprocess.run(cmd, env=e or env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise RuntimeError("command failed (%d): %s" % (p.returncode, " ".join(cmd)))
    return p.stdout


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


KIT = ("vk", "kit", "maps", "world", "net")


def modules_of(roots):
    """the harness modules that define the given harness functions, and those they use"""
    text = {os.path.basename(f)[:-3]: open(f).read() for f in glob.glob(os.path.join(VERIF, "harness", "src", "*.rs"))}
    todo = [m for m, t in text.items() if any(re.search(r"^pub fn %s\(\)" % r, t, re.M) for r in roots)]
    out = set()
    while todo:
        m = todo.pop()
        if m in out:
            continue
        out.add(m)
        # and the modules those use
        todo += [x for x in re.findall(r"\bcrate::(\w+)", text[m]) if x in text]
    return out


class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_exporter():
    src = os.path.join(VERIF, "exporter", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    out = os.path.join(B, "bin", "mirexport")
    stamp = out + ".sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    run([os.path.join(NROOT, "bin", "rustc"), "--edition", "2021", "-O", src, "-o", out,
         "-C", "link-arg=-Wl,-rpath," + os.path.join(NROOT, "lib")])
    open(stamp, "w").write(h)
    shutil.rmtree(os.path.join(B, "t"), ignore_errors=True)
    return out


def mirror():
    ws = os.path.join(B, "ws")
    os.makedirs(ws, exist_ok=True)
    # by checksum, so that whatever changed in /repo is newer than the last build, and nothing else is
    for d in ("calc", "io", "src", "sdk/src/wasm"):
        os.makedirs(os.path.join(ws, d), exist_ok=True)
        ex = ["--exclude", "target", "--exclude", "pkg", "--exclude", "node_modules"]
        if d == "calc":
            ex += ["--exclude", "/decimal_sdk"]
        if d == "sdk/src/wasm":
            ex += ["--exclude", "/Cargo.toml", "--exclude", "/Cargo.lock"]
        run(["rsync", "-rlpc", "--delete"] + ex + [os.path.join(REPO, d) + "/", os.path.join(ws, d) + "/"])
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    t = re.sub(r"members = \[.*?\]", "members = []", t, flags=re.S)
    t = re.sub(r"\[build-dependencies\][^\[]*", "", t)
    t = re.sub(r"\[dev-dependencies\].*?(?=\n\[features)", "", t, flags=re.S)
    t = re.sub(r"vft-service.*\n", "", t)
    t = re.sub(r'\["gear-wasm-builder/wasm-opt"\]', "[]", t)
    write_if_changed(os.path.join(ws, "Cargo.toml"), t)
    # the second build of calc/decimal, with the SDK's feature, under another version number
    ds = os.path.join(ws, "calc", "decimal_sdk")
    os.makedirs(ds, exist_ok=True)
    run(["rsync", "-rlpc", "--delete", "--exclude", "/decimal_core", "--exclude", "/Cargo.toml",
         os.path.join(REPO, "calc/decimal") + "/", ds + "/"])
    t = open(os.path.join(REPO, "calc/decimal/Cargo.toml")).read()
    t = t.replace('version = "0.1.0"', 'version = "0.1.1"', 1)
    t = re.sub(r'decimal_core\s*=\s*\{\s*path\s*=\s*"decimal_core"\s*\}', 'decimal_core = { path = "../decimal/decimal_core" }', t)
    write_if_changed(os.path.join(ds, "Cargo.toml"), t)
    t = open(os.path.join(REPO, "sdk/src/wasm/Cargo.toml")).read()
    t = t.replace("calc/decimal\"", "calc/decimal_sdk\"").replace('crate-type = ["cdylib", "rlib"]', 'crate-type = ["rlib"]')
    write_if_changed(os.path.join(ws, "sdk/src/wasm/Cargo.toml"), t)
    sails(os.path.join(B, "sails-rs"))
    gsys(os.path.join(B, "gsys"))


def sails(dst):
    """sails-rs as it is compiled for wasm32: without gtest/gclient, which only exist off-chain."""
    if os.path.exists(os.path.join(dst, ".done2")):
        return
    src = glob.glob(os.path.join(CARGOHOME, "registry/src/*/sails-rs-0.3.0"))[0]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for f in (".cargo-ok", "Cargo.toml.orig"):
        p = os.path.join(dst, f)
        if os.path.exists(p):
            os.unlink(p)
    for root, _, files in os.walk(os.path.join(dst, "src")):
        for f in files:
            p = os.path.join(root, f)
            t = open(p).read()
            n = t.replace('cfg(not(target_arch = "wasm32"))', "cfg(any())").replace('cfg(target_arch = "wasm32")', "cfg(all())")
            if n != t:
                open(p, "w").write(n)
    p = os.path.join(dst, "Cargo.toml")
    t = open(p).read()
    t = t[:t.index("[target.'cfg(not(target_arch")]
    t = re.sub(r"\[dependencies.mockall\][^\[]*", "", t)
    t = re.sub(r"\[dependencies.gwasm-builder\][^\[]*", "", t)
    t = t.replace('mockall = ["dep:mockall"]\n', "").replace('wasm-builder = ["dep:gwasm-builder"]\n', "")
    open(p, "w").write(t)
    open(os.path.join(dst, ".done2"), "w").write("")


def gsys(dst):
    """gsys with its off-chain stubs (which abort) replaced by imports; the harness crate defines those natively."""
    if os.path.exists(os.path.join(dst, ".done1")):
        return
    src = glob.glob(os.path.join(CARGOHOME, "registry/src/*/gsys-1.5.0"))[0]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for f in (".cargo-ok", "Cargo.toml.orig"):
        p = os.path.join(dst, f)
        if os.path.exists(p):
            os.unlink(p)
    p = os.path.join(dst, "src", "lib.rs")
    t = open(p).read()
    a = t.index("macro_rules! syscalls")
    b = t.index("syscalls! {")
    m = t[a:b].replace('extern "C" {', 'extern "C-unwind" {', 1).replace('#[cfg(not(target_arch = "wasm32"))]', "#[cfg(any())]", 1)
    open(p, "w").write(t[:a] + m + t[b:])
    open(os.path.join(dst, ".done1"), "w").write("")


def harness_dir(modules=None, name="harness"):
    """The harness crate (or only some of its modules), instantiated in the build directory; its path
    dependencies point at the mirror."""
    h = os.path.join(B, name)
    os.makedirs(h, exist_ok=True)
    run(["rsync", "-rlpc", "--delete", "--exclude", "/target", "--exclude", "/tn", "--exclude", "/src/registry.rs", "--exclude", "/src/lib.rs", os.path.join(VERIF, "harness") + "/", h + "/"])
    reg, mods = [], []
    for f in sorted(glob.glob(os.path.join(h, "src", "*.rs"))):
        m = os.path.basename(f)[:-3]
        if m in ("main", "lib", "registry"):
            continue
        if m not in KIT and modules is not None and m not in modules:
            continue
        mods.append(m)
        if True:
            reg += [(m, x) for x in re.findall(r"^pub fn (h_\w+)\(\)", open(f).read(), re.M)]
    write_if_changed(os.path.join(h, "src", "registry.rs"), "pub const ALL: &[(&str, fn())] = &[\n" +
                     "".join('    ("%s", harness::%s::%s),\n' % (x, m, x) for m, x in reg) + "];\n")
    write_if_changed(os.path.join(h, "src", "lib.rs"), "#![cfg_attr(verif_mir, feature(try_trait_v2))]\n" + "".join("pub mod %s;\n" % m for m in mods))
    return h


def export(roots, out, verbose=False, modules=None):
    """Export the MIR of the given harness functions (and all they reach) to `out`."""
    exporter = build_exporter()
    h = harness_dir(modules)
    src = os.path.join(h, "src", "lib.rs")
    os.utime(src)
    e = env(RUSTC=exporter, MIREXP_RUSTC=os.path.join(NROOT, "bin", "rustc"), MIREXP_CRATE="harness",
            MIREXP_OUT=out, MIREXP_ROOTS=",".join(roots),
            MIREXP_STOP=os.path.join(VERIF, "vp", "stop.txt"), MIREXP_REDIRECT=os.path.join(VERIF, "vp", "redirect.txt"),
            RUSTFLAGS="--cfg verif --cfg verif_mir -Cpanic=abort -Coverflow-checks=on -Awarnings",
            CARGO_TARGET_DIR=os.path.join(B, "t"))
    if os.path.exists(out):
        os.unlink(out)
    o = run(["cargo", "check", "--offline", "--lib"], e, cwd=h)
    if verbose:
        print(o)
    if not os.path.exists(out):
        raise RuntimeError("no MIR exported")


def build_replay(modules=None):
    h = harness_dir(modules, "harness_native")
    e = env(RUSTFLAGS="--cfg verif -Awarnings", CARGO_TARGET_DIR=os.path.join(B, "tn"))
    run(["cargo", "build", "--offline", "--bin", "replay"], e, cwd=h)
    return os.path.join(B, "tn", "debug", "replay")
