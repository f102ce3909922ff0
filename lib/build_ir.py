"""Regenerate the whole-program LLVM IR of /repo's current source plus the harness."""
import json, os, subprocess, sys, time, hashlib, re, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
REPO = "/repo"

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s\n%s" % (" ".join(cmd), r.stdout[-2000:], r.stderr[-4000:]))
    return r.stdout

_sys = None
def sysroot():
    global _sys
    if _sys is None:
        _sys = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return _sys
def tool(n):
    return os.path.join(sysroot(), "lib/rustlib", TRIPLE, "bin", n)

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def src_hash():
    return tree_hash(REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml", VERIF + "/harness_ext/Cargo.toml", VERIF + "/harness_ext/clap", VERIF + "/lib/build_ir.py")

def manifest(ext): return VERIF + ("/harness_ext" if ext else "/harness") + "/Cargo.toml"

NOW = """//! Blocking operations done at once.
use std::{future::Future, io, pin::Pin, task::{Context, Poll}};
#[derive(Debug)]
pub(crate) struct JoinHandle<T>(Option<T>);
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = io::Result<T>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<T>> { Poll::Ready(self.0.take().ok_or_else(|| io::Error::other("polled again"))) }
}
pub(crate) fn spawn_blocking<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { JoinHandle(Some(f())) }
"""
def patched_tokio():
    """A copy of the registry's tokio whose file operations run when they are asked for, instead of in a thread pool."""
    lock = open(VERIF + "/harness/Cargo.lock").read()
    v = re.search(r'name = "tokio"\nversion = "([^"]+)"', lock).group(1)
    dst = os.path.join(TARGET, "tokio")
    if os.path.exists(os.path.join(dst, "done-" + v)): return
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = None
    for d in sorted(os.listdir(os.path.join(home, "registry/src"))):
        c = os.path.join(home, "registry/src", d, "tokio-" + v)
        if os.path.isdir(c): src = c
    if src is None: raise RuntimeError("no source of tokio " + v)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("tests", ".cargo*"))
    for f in ("mod.rs", "read_dir.rs", "file.rs"):
        q = os.path.join(dst, "src/fs", f)
        t = open(q).read()
        if f != "file.rs": t = t.replace("use crate::blocking::spawn_blocking;", "use crate::fs::now::spawn_blocking;").replace("use crate::blocking::JoinHandle;", "use crate::fs::now::JoinHandle;")
        if f == "mod.rs": t = t.replace("\nuse std::io;\n", "\nuse std::io;\nmod now;\n", 1)
        open(q, "w").write(t)
    open(os.path.join(dst, "src/fs/now.rs"), "w").write(NOW)
    open(os.path.join(dst, "done-" + v), "w").close()

def copied_tool():
    """The sources of the command line tool as a module of the harness: `main` has to be visible there, nothing else is changed."""
    src, dst = REPO + "/src/bin/hddl_analyzer", os.path.join(TARGET, "tool")
    want = {}
    for d, ds, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f)
            t = open(p, "rb").read()
            if p == src + "/main.rs": t = re.sub(rb"(?m)^(?:pub(?:\([^)]*\))?\s+)?fn main\b", b"pub fn main", t)
            want[os.path.relpath(p, src)] = t
    for d, ds, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want: os.remove(os.path.join(d, f))
    for f, t in want.items():
        p = os.path.join(dst, f)
        if os.path.exists(p) and open(p, "rb").read() == t: continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(t)

def force_rebuild(target_dir, triple):
    """mtime-based freshness is not trusted: when the content changed, drop the crate's fingerprints."""
    stamp = os.path.join(target_dir, "src.stamp")
    h = src_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h:
        for root in (os.path.join(target_dir, triple) if triple else target_dir,):
            for prof in ("release", "debug"):
                fp = os.path.join(root, prof, ".fingerprint")
                if os.path.isdir(fp):
                    for d in os.listdir(fp):
                        if d.startswith("hddl_analyzer-") or d.startswith("hx-"):
                            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    return stamp, h

class Lock:
    def __init__(self, name):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, name + ".lock"), "w")
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def build_engine():
    with Lock("engine"):
        e = env(); e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "engine")
        run(["cargo", "build", "--release", "--offline", "--manifest-path", VERIF + "/symx/Cargo.toml"], env=e)
    return os.path.join(TARGET, "engine/release/symx")

def build_native(ext=False):
    """The replay binary: the same harness, natively compiled against /repo."""
    kind = "native-ext" if ext else "native"
    with Lock(kind):
        if ext:
            with Lock("tokio"): patched_tokio(); copied_tool()
        td = os.path.join(TARGET, kind)
        stamp, h = force_rebuild(td, None)
        e = env(); e["CARGO_TARGET_DIR"] = td
        e["RUSTFLAGS"] = "--cfg hddl_verif"
        run(["cargo", "build", "--bin", "replay", "--offline", "--manifest-path", manifest(ext)], env=e)
        open(stamp, "w").write(h)
    return os.path.join(td, "debug/replay")

STD_ORDER = ["std", "hashbrown", "rustc_demangle", "std_detect", "alloc", "core"]

def bitcode_of(rlib, outdir, tag):
    """Extract LLVM bitcode members of an rlib."""
    d = os.path.join(outdir, tag)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    run([tool("llvm-ar"), "x", rlib], cwd=d)
    out = []
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if not f.endswith(".o"):
            os.remove(p); continue
        head = open(p, "rb").read(4)
        if head[:2] == b"BC" or head == b"\xde\xc0\x17\x0b":
            out.append(p)
        elif head == b"\x7fELF":
            bc = p + ".bc"
            r = subprocess.run([tool("llvm-objcopy"), "--dump-section=.llvmbc=" + bc, p, "/dev/null"], stderr=subprocess.PIPE, text=True)
            os.remove(p)
            if os.path.exists(bc) and os.path.getsize(bc) > 0:
                out.append(bc)
    return out

DROP = [  # bodies replaced by engine models (declared stubs; see DESIGN.md)
    r"9panicking9panic_fmt$", r"9panicking18panic_nounwind_fmt$", r"hashmap_random_keys$",
    r"(4hash3sip|10FoldHasher).*6Hasher(5write|6finish|8write_u8|9write_u16|9write_u32|9write_u64|10write_u128|11write_usize)(Cs\w+)?$", r"4hash3sip.*6Hasher9write_str(Cs\w+)?$",
    r"rust_begin_unwind$", r"rust_panic_with_hook$",
]

def drop_bodies(src, dst):
    pats = re.compile("|".join(DROP))
    name_re = re.compile(r'@("[^"]+"|[A-Za-z0-9_.$]+)\(')
    out = open(dst, "w")
    skipping = False
    n = 0
    for line in open(src):
        if skipping:
            if line.startswith("}"): skipping = False
            continue
        if line.startswith("define "):
            m = name_re.search(line)
            name = m.group(1).strip('"')
            if pats.search(name):
                l = line.rstrip()
                l = re.sub(r"^define (internal |private |linkonce_odr |weak |weak_odr |linkonce |available_externally )*", "declare ", l)
                l = re.sub(r"(hidden |dso_local |comdat(\([^)]*\))? ?|unnamed_addr |local_unnamed_addr )", "", l)
                l = re.sub(r"\{$", "", l.strip()).strip()
                l = re.sub(r"(prefix|prologue|personality) ptr @\S+", "", l)
                l = re.sub(r"![a-z.]+ !\d+", "", l)
                l = re.sub(r"(align \d+)\s*$", "", l.strip())
                out.write(l + "\n")
                skipping = True; n += 1
                continue
        out.write(line)
    out.close()
    return n

def build_ir(entries, out_ll, ext=False, opt="O1"):
    """entries: exported harness entry points to keep."""
    t0 = time.time()
    kind = "sym-ext" if ext else "sym"
    td = os.path.join(TARGET, kind)
    with Lock(kind):
        if ext:
            with Lock("tokio"): patched_tokio(); copied_tool()
        stamp, h = force_rebuild(td, TRIPLE)
        e = env(); e["CARGO_TARGET_DIR"] = td
        e["RUSTFLAGS"] = "-C linker-plugin-lto -C no-prepopulate-passes --cfg hddl_verif"
        msgs = run(["cargo", "rustc", "--lib", "--release", "--offline", "--target", TRIPLE, "--manifest-path", manifest(ext), "--message-format=json"], env=e)
        rlibs = []
        for l in msgs.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact":
                for f in m["filenames"]:
                    if f.endswith(".rlib") and TRIPLE in f: rlibs.append((m["target"]["name"], f))
        t1 = time.time()
        rlibs.reverse()
        # dependents first: harness, repo, then the rest
        pri = {"hx": 0, "hddl_analyzer": 1}
        rlibs.sort(key=lambda x: pri.get(x[0], 2))
        bcdir = os.path.join(TARGET, "bc-ext" if ext else "bc"); os.makedirs(bcdir, exist_ok=True)
        mods = []
        for name, f in rlibs:
            tag = os.path.basename(f)[:-5]
            key = "%s %d %d" % (f, os.stat(f).st_mtime_ns, os.stat(f).st_size)
            st = os.path.join(bcdir, tag + ".key")
            d = os.path.join(bcdir, tag)
            if os.path.exists(st) and open(st).read() == key and os.path.isdir(d):
                bcs = sorted(os.path.join(d, x) for x in os.listdir(d))
            else:
                bcs = bitcode_of(f, bcdir, tag)
                open(st, "w").write(key)
            mods += bcs
        sl = os.path.join(sysroot(), "lib/rustlib", TRIPLE, "lib")
        for n in STD_ORDER:
            for f in sorted(os.listdir(sl)):
                if f.startswith("lib%s-" % n) and f.endswith(".rlib"):
                    tag = "std_" + f[:-5]
                    d = os.path.join(bcdir, tag)
                    if not os.path.exists(d + ".key"):
                        bitcode_of(os.path.join(sl, f), bcdir, tag); open(d + ".key", "w").write("std")
                    mods += sorted(os.path.join(d, x) for x in os.listdir(d))
        t2 = time.time()
        os.makedirs(os.path.dirname(out_ll), exist_ok=True)
        base = out_ll[:-3]
        linked = base + ".linked.bc"
        run([tool("llvm-link"), "--only-needed", "-o", linked] + mods) if False else run([tool("llvm-link"), "-o", linked, mods[0]] + sum([["--override=" + m] if False else [m] for m in mods[1:]], []) + ["--only-needed"])
        t3 = time.time()
        g = base + ".g.ll"
        keep = ",".join(entries)
        run([tool("opt"), "--strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep, linked, "-S", "-o", g])
        os.remove(linked)
        d = base + ".d.ll"
        drop_bodies(g, d)
        os.remove(g)
        t4 = time.time()
        if opt == "none":
            os.rename(d, out_ll)
        else:
            run([tool("opt"), "--passes=default<%s>" % opt, "-vectorize-loops=false", "-vectorize-slp=false", d, "-S", "-o", out_ll])
            os.remove(d)
        t5 = time.time()
        open(stamp, "w").write(h)
    return {"cargo_s": round(t1 - t0, 2), "extract_s": round(t2 - t1, 2), "link_s": round(t3 - t2, 2), "dce_s": round(t4 - t3, 2), "opt_s": round(t5 - t4, 2)}

if __name__ == "__main__":
    print(build_ir(sys.argv[2:], sys.argv[1]))
