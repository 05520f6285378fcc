"""Front end: copies /repo's working tree to a scratch tree, stubs what this sandbox lacks, compiles every workspace
crate with the MIR-dumping driver and returns the dumps.  Self-sufficient: builds the driver when it is not there."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

CRATES = {  # logical name -> (cargo package, dump file)
    "grib": ("grib", "grib-lib.json"),
    "gen": ("grib-build", "grib_build-lib.json"),
    "codegen": ("grib-codegen", "grib_codegen-proc-macro.json"),
    "cli": ("grib-cli", "gribber-bin.json"),
    "demo": ("grib-demo", "grib_demo-bin.json"),
    "buildrs": ("vp-buildrs", "vp_buildrs-bin.json"),
    "roots": ("vp-roots", "vp_roots-lib.json"),
}


class FrontendError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "testdata", "build", "def", "evidence", "seeded", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                if os.path.islink(p):
                    continue
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(HERE, "driver")
    key = tree_hash([src])
    out = os.path.join(BUILD, "driver")
    exe = os.path.join(out, "release", "vp-driver")
    stamp = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    os.makedirs(out, exist_ok=True)
    rc, o = sh(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", out], cwd=src)
    if rc != 0 or not os.path.exists(exe):
        raise FrontendError("driver does not build:\n" + o[-3000:])
    open(stamp, "w").write(key)
    return exe, key


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    return o.strip()


def copy_tree(dst):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    def ign(d, names):
        r = {n for n in names if n in ("target", ".git", ".github", "testdata", "__pycache__")}
        return r if os.path.abspath(d) == os.path.abspath(REPO) or d.endswith("/gen") else {n for n in names if n in ("target", ".git")}
    shutil.copytree(REPO, dst, ignore=ign, symlinks=True)
    # generated tables: the submodules with the definition files are empty in this sandbox
    names1, names2 = set(), set()
    for root, _, fs in os.walk(os.path.join(dst, "src")):
        for f in fs:
            if f.endswith(".rs"):
                t = open(os.path.join(root, f)).read()
                names1 |= set(re.findall(r"\bCOMMON_CODE_TABLE_[0-9]+\b", t))
                names2 |= set(re.findall(r"\bCODE_TABLE_[0-9][0-9_]*\b", t))
    names2 -= names1
    vp = os.path.join(dst, "__vp")
    os.makedirs(vp)
    for fn, ns in (("cct.rs", names1), ("grib2_codeflag.rs", names2)):
        with open(os.path.join(vp, fn), "w") as fh:
            for i, n in enumerate(sorted(ns)):
                # entries that name their table and code, so that an analysis can tell which one is returned
                es = ", ".join(f'"{n}:{j}"' for j in range(table_len(n)))
                fh.write(f"pub const {n}: &[&str] = &[{es}];\n")
    os.makedirs(os.path.join(vp, "buildrs", "src"))
    shutil.copy(os.path.join(dst, "build.rs"), os.path.join(vp, "buildrs", "src", "main.rs"))
    with open(os.path.join(vp, "buildrs", "Cargo.toml"), "w") as fh:
        fh.write('[package]\nname = "vp-buildrs"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\ngrib-build = { path = "../../gen" }\n')
    shutil.copytree(os.path.join(HERE, "roots"), os.path.join(vp, "roots"))
    with open(os.path.join(dst, "build.rs"), "w") as fh:
        fh.write('fn main() {\n let o = std::env::var("OUT_DIR").unwrap();\n'
                 ' for f in ["cct.rs", "grib2_codeflag.rs"] { std::fs::copy(format!("__vp/{f}"), format!("{o}/{f}")).unwrap(); }\n}\n')
    ct = os.path.join(dst, "Cargo.toml")
    t = open(ct).read()
    t2 = re.sub(r'members\s*=\s*\[', 'members = ["__vp/buildrs", "__vp/roots", ', t, count=1)
    if t2 == t:
        raise FrontendError("workspace members not found in Cargo.toml")
    t2 += f'\n[patch.crates-io]\nproj = {{ path = "{HERE}/stubs/proj" }}\n'
    oj = stub_openjpeg()
    if oj:
        t2 += f'openjpeg-sys = {{ path = "{oj}" }}\n'
    open(ct, "w").write(t2)
    if not os.path.exists(os.path.join(dst, "Cargo.lock")):
        shutil.copy(os.path.join(HERE, "Cargo.lock.fallback"), os.path.join(dst, "Cargo.lock"))


def table_len(name):
    return 3 + sum(map(ord, name)) % 3


def stub_openjpeg():
    """The declarations of openjpeg-sys without its C build (a `cargo check` needs only the declarations)."""
    cand = sorted(glob.glob(os.path.expanduser(os.environ.get("CARGO_HOME", "~/.cargo")) + "/registry/src/*/openjpeg-sys-1.*"))
    if not cand:
        return None
    src = cand[-1]
    dst = os.path.join(BUILD, "openjpeg-sys")
    if not os.path.exists(os.path.join(dst, "Cargo.toml")):
        os.makedirs(dst, exist_ok=True)
        m = re.search(r'^version = "([^"]+)"', open(os.path.join(src, "Cargo.toml")).read(), re.M)
        shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"), dirs_exist_ok=True)
        with open(os.path.join(dst, "Cargo.toml"), "w") as fh:
            fh.write(f'[package]\nname = "openjpeg-sys"\nversion = "{m.group(1)}"\nedition = "2021"\n\n[lib]\npath = "src/{libname(src)}"\n\n[dependencies]\nlibc = "0.2"\n')
    return dst


def libname(src):
    t = open(os.path.join(src, "Cargo.toml")).read()
    m = re.search(r'\[lib\][^\[]*?path = "src/([^"]+)"', t, re.S)
    return m.group(1) if m else "lib.rs"


def dumps(crates, log=lambda *_: None):
    """Returns {crate: parsed dump} for the requested logical crates from /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dk = build_driver()
        key = tree_hash([REPO]) + "-" + dk[:8] + tree_hash([os.path.join(HERE, "roots")])[:6] + hashlib.sha256(open(os.path.abspath(__file__), "rb").read()).hexdigest()[:6]
        base = os.path.join(BUILD, "dumps")
        ddir = os.path.join(base, key)
        os.makedirs(ddir, exist_ok=True)
        missing = [c for c in crates if not os.path.exists(os.path.join(ddir, CRATES[c][1]))]
        if missing:
            if os.path.isdir(base):
                for o in sorted(os.listdir(base)):
                    if o != key:
                        shutil.rmtree(os.path.join(base, o), ignore_errors=True)
            tree = os.path.join(BUILD, "tree")
            copy_tree(tree)
            tgt = os.path.join(BUILD, "target")
            # the workspace crates are always analysed afresh, whatever cargo thinks of their freshness
            for pat in (".fingerprint/grib*", ".fingerprint/vp-*", "build/grib*", "build/vp-*"):
                for f in glob.glob(os.path.join(tgt, "debug", pat)):
                    shutil.rmtree(f, ignore_errors=True)
            cmd = ["cargo", "+nightly", "check", "--offline"]
            for c in missing:
                cmd += ["-p", CRATES[c][0]]
            if {"grib", "cli", "roots"} & set(missing):
                cmd += ["-p", "grib", "--features", "grib/gridpoints-proj"]
            tmp = ddir + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            rc, o = sh(cmd, env=dict(LD_LIBRARY_PATH=sysroot() + "/lib", VP_DUMP_DIR=tmp, CARGO_TARGET_DIR=tgt,
                                      RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TERM_COLOR="never", RUSTFLAGS=""), cwd=tree)
            if rc != 0:
                raise FrontendError("cargo check failed:\n" + o[-6000:])
            for f in os.listdir(tmp):
                shutil.move(os.path.join(tmp, f), os.path.join(ddir, f))
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.rmtree(tree, ignore_errors=True)
        out = {}
        for c in crates:
            p = os.path.join(ddir, CRATES[c][1])
            if not os.path.exists(p):
                raise FrontendError(f"no dump for {c}")
            with open(p) as fh:
                out[c] = json.load(fh)
    return out


if __name__ == "__main__":
    t = time.time()
    r = dumps(sys.argv[1:] or list(CRATES))
    for c, d in r.items():
        print(c, len(d["fns"]), "fns", len(d["bodies"]), "bodies")
    print(round(time.time() - t, 1), "s")
