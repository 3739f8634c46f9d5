"""Builds, from the files in /repo as they are now, the program the checks examine.

/repo/src is copied (never modified) to a scratch crate, the harness modules are added to the copy, and the
result is compiled twice by the ordinary stable compiler: to LLVM IR for the symbolic engine, and - only when a
counterexample has to be replayed - to a native executable with the development profile.
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
ENGINE = os.path.join(VERIF, "engine")
TOOLCHAIN = os.environ.get("VF_TOOLCHAIN", "stable")

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()

def engine():
    """Path of the symbolic engine, compiled if necessary."""
    src = glob.glob(os.path.join(ENGINE, "*.cpp")) + glob.glob(os.path.join(ENGINE, "*.h"))
    out = os.path.join(BUILD, "engine-" + digest(src))
    exe = os.path.join(out, "symex")
    with Lock("engine"):
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, "engine-*")):
            if os.path.isdir(old):
                shutil.rmtree(old)
        os.makedirs(out)
        jobs = []
        for c in glob.glob(os.path.join(ENGINE, "*.cpp")):
            o = os.path.join(out, os.path.basename(c)[:-4] + ".o")
            jobs.append((o, subprocess.Popen(["g++", "-O2", "-std=c++17", "-w", "-c", c, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for o, p in jobs:
            t, _ = p.communicate()
            if p.returncode:
                raise BuildError("engine: " + t)
        r = sh(["g++"] + [o for o, _ in jobs] + ["-o", exe + ".tmp", "-lz3"])
        if r.returncode:
            raise BuildError("engine: " + r.stdout)
        os.rename(exe + ".tmp", exe)
    return exe

# harness modules: CLI modules see the program only through its command line and always compile;
# unit modules name items of the program, and are left out if the program no longer has them
def modules():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HARNESS, "*.rs")) if os.path.basename(p) not in ("vf.rs", "vflib.rs"))

def unit_parent(mod):
    """A module whose first line is //@ parent <file> becomes a child module of that file."""
    with open(os.path.join(HARNESS, mod + ".rs")) as f:
        m = re.match(r"//@ parent (\S+)", f.readline())
    return m.group(1) if m else None

def is_unit(mod):
    """Modules that begin with //@ name items of the program; the others only use its command line."""
    with open(os.path.join(HARNESS, mod + ".rs")) as f:
        return f.readline().startswith("//@")

def generate(dst, mods):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"))
    for n in ("Cargo.lock",):
        if os.path.exists(os.path.join(REPO, n)):
            shutil.copy(os.path.join(REPO, n), os.path.join(dst, n))
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        toml = f.read()
    toml = re.sub(r"(?ms)^\[profile\.[^\]]*\]\n.*?(?=^\[|\Z)", "", toml)
    toml += """
[workspace]
[profile.release]
panic = "abort"
lto = "fat"
codegen-units = 1
opt-level = 1
overflow-checks = true
debug-assertions = true
debug = 0
[profile.dev]
opt-level = 0
"""
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(toml)
    main = "\n#[path = %r]\n#[macro_use] mod vf;\n#[path = %r]\nmod vflib;\n" % (os.path.join(HARNESS, "vf.rs"), os.path.join(HARNESS, "vflib.rs"))
    main = main.replace("'", '"')
    tables = []
    for m in mods:
        par = unit_parent(m)
        path = os.path.join(HARNESS, m + ".rs")
        if par is None:
            main += '#[path = "%s"]\nmod %s;\n' % (path, m)
            if "harnesses!" in open(path).read():
                tables.append("crate::%s::TABLE" % m)
        else:
            pf = os.path.join(dst, "src", par)
            if not os.path.exists(pf):
                raise BuildError("module %s: no file src/%s" % (m, par))
            with open(pf, "a") as f:
                f.write('\n#[path = "%s"]\npub mod %s;\n' % (path, m))
            modpath = par[:-3].replace("/", "::").replace("::mod", "")
            tables.append("crate::%s::%s::TABLE" % (modpath, m))
    main += """
extern "C" fn vf_ctor() { crate::vf::native(&[%s]); }
#[used]
#[link_section = ".init_array"]
static VF_CTOR: extern "C" fn() = vf_ctor;
""" % ", ".join(tables)
    with open(os.path.join(dst, "src", "main.rs"), "a") as f:
        f.write(main)

def cobj():
    o = os.path.join(BUILD, "vf.o")
    r = sh(["gcc", "-O1", "-c", os.path.join(HARNESS, "vf.c"), "-o", o])
    if r.returncode:
        raise BuildError(r.stdout)
    return o

def cargo(dst, target, args, rustflags):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=target, RUSTFLAGS=rustflags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.pop("RUSTC_WRAPPER", None)
    return sh(["cargo", "build", "--offline"] + args, cwd=dst, env=env)

def source_digest(extra=""):
    files = glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True) + [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")] + glob.glob(os.path.join(HARNESS, "*")) + [os.path.abspath(__file__)]
    return digest([f for f in files if os.path.isfile(f)], extra)

def crate_name():
    with open(os.path.join(REPO, "Cargo.toml")) as f:
        m = re.search(r'(?m)^name\s*=\s*"([^"]+)"', f.read())
    return m.group(1)

def tool(name):
    r = sh(["rustc", "--print", "sysroot"], env=dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN))
    for p in glob.glob(os.path.join(r.stdout.strip(), "lib/rustlib/*/bin", name)):
        return p
    raise BuildError("no " + name)

def _build(kind, mods, required):
    """Generate and compile; drop optional modules that do not fit the program. Returns (gen dir, modules kept, dropped)."""
    dst = os.path.join(BUILD, "gen-" + kind)
    target = os.path.join(BUILD, "target-" + kind)
    dropped = {}
    o = cobj()
    while True:
        missing = [m for m in mods if unit_parent(m) and not os.path.exists(os.path.join(REPO, "src", unit_parent(m)))]
        for m in missing:
            dropped[m] = "file src/%s no longer exists" % unit_parent(m)
        mods = [m for m in mods if m not in dropped]
        generate(dst, mods)
        # always recompile the crate itself (timestamps of copied files say nothing)
        for f in glob.glob(os.path.join(dst, "src", "**", "*.rs"), recursive=True):
            os.utime(f)
        if kind == "ir":
            for f in glob.glob(os.path.join(target, "release/deps/%s-*" % crate_name().replace("-", "_"))):
                os.unlink(f)
            r = cargo(dst, target, ["--release"], "-C save-temps -C no-vectorize-loops -C no-vectorize-slp -C link-arg=%s -Awarnings" % o)
        else:
            r = cargo(dst, target, [], "-C link-arg=%s -Awarnings" % o)
        if r.returncode == 0:
            return dst, target, mods, dropped
        bad = set()
        for m in mods:
            if m not in required and re.search(r"--> [^\n]*/harness/%s\.rs" % re.escape(m), r.stdout):
                bad.add(m)
        if not bad:
            raise BuildError(r.stdout[-6000:])
        for m in bad:
            k = re.search(r"error[^\n]*\n\s*--> [^\n]*/harness/%s\.rs[^\n]*" % re.escape(m), r.stdout)
            dropped[m] = k.group(0).replace("\n", " ") if k else "does not compile"

def ir(mods=None):
    """Returns (path of the .ll file, modules in it, modules dropped with reasons)."""
    mods = mods or modules()
    with Lock("ir"):
        key = source_digest("ir" + ",".join(mods))
        out = os.path.join(BUILD, "ir-" + key + ".ll")
        meta = out + ".mods"
        if not (os.path.exists(out) and os.path.exists(meta)):
            for old in glob.glob(os.path.join(BUILD, "ir-*")):
                os.unlink(old)
            required = {m for m in mods if not is_unit(m)}
            dst, target, kept, dropped = _build("ir", mods, required)
            name = crate_name().replace("-", "_")
            bcs = [f for f in glob.glob(os.path.join(target, "release/deps/%s-*.rcgu.bc" % name)) if ".lto." not in f and ".no-opt." not in f and "thin" not in f]
            if not bcs:
                raise BuildError("no bitcode in " + target)
            bc = max(bcs, key=os.path.getsize)
            r = sh([tool("opt"), "--strip-debug", "-S", bc, "-o", out + ".tmp"])
            if r.returncode:
                raise BuildError(r.stdout)
            with open(meta, "w") as f:
                f.write("\n".join(kept) + "\n--\n" + "\n".join("%s\t%s" % x for x in dropped.items()))
            for f in glob.glob(os.path.join(target, "release/deps/*.bc")):
                os.unlink(f)
            os.rename(out + ".tmp", out)
        a, b = open(meta).read().split("\n--\n")
        return out, a.split("\n"), dict(x.split("\t", 1) for x in b.split("\n") if x)

def native(mods=None):
    """Native executable (development profile: overflow checks on, unwinding panics) for replays."""
    mods = mods or modules()
    with Lock("native"):
        key = source_digest("native" + ",".join(mods))
        out = os.path.join(BUILD, "native-" + key)
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, "native-*")):
                if not old.endswith(".lock"):
                    os.unlink(old)
            required = {m for m in mods if not is_unit(m)}
            dst, target, kept, dropped = _build("native", mods, required)
            shutil.copy(os.path.join(target, "debug", crate_name()), out + ".tmp")
            os.rename(out + ".tmp", out)
        return out

if __name__ == "__main__":
    t = time.time()
    try:
        print(engine(), "%.1fs" % (time.time() - t))
        print(*ir(), "%.1fs" % (time.time() - t))
        if "native" in sys.argv:
            print(native(), "%.1fs" % (time.time() - t))
    except BuildError as e:
        print(e)
        sys.exit(2)
