"""Build everything the checks need from /repo's current working tree, outside /repo."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
PY = "/opt/vp/venv/bin/python"
if not os.path.exists(PY):
    PY = shutil.which("python3") or sys.executable


def log(*a):
    print("[build]", *a, file=sys.stderr, flush=True)


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()


def listing(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "target", ".git"))
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def sync(src, dst, exts):
    """content-synchronise the files with the given extensions; unchanged files keep their mtime"""
    want = set()
    changed = False
    for p in listing(src, exts):
        rel = os.path.relpath(p, src)
        q = os.path.join(dst, rel)
        want.add(q)
        with open(p, "rb") as f:
            new = f.read()
        old = None
        if os.path.exists(q):
            with open(q, "rb") as f:
                old = f.read()
        if old != new:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(new)
            changed = True
    if os.path.isdir(dst):
        for q in listing(dst, exts):
            if q not in want:
                os.unlink(q)
                changed = True
    return changed


def env():
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PYO3_PYTHON"] = PY
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    return e


def run(cmd, cwd=None, logname="build.log"):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(os.path.join(BUILD, logname), "a") as f:
        f.write("$ " + " ".join(cmd) + "\n" + p.stdout + "\n")
    return p


def cc(src, out):
    if os.path.exists(out) and os.path.exists(out + ".sha") and open(out + ".sha").read() == sha(src):
        return
    inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True, env=env()).stdout.strip()
    p = run(["gcc", "-O2", "-Wall", "-fPIC", "-shared", "-I" + inc, src, "-o", out, "-ldl"])
    if p.returncode:
        raise SystemExit("gcc failed:\n" + p.stdout)
    with open(out + ".sha", "w") as f:
        f.write(sha(src))


def deps_section(toml):
    m = re.search(r"^\[dependencies\]\n(.*?)(?=^\[|\Z)", toml, re.S | re.M)
    extra = "".join(x.group(0) for x in re.finditer(r"^\[dependencies\.[^\]]+\]\n.*?(?=^\[|\Z)", toml, re.S | re.M))
    return (m.group(1) if m else ""), extra


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return False
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return True


def build_rust(with_rmc=True):
    ws = os.path.join(BUILD, "ws")
    os.makedirs(ws, exist_ok=True)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    edition = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    deps, extra = deps_section(toml)
    write_if_changed(os.path.join(ws, "Cargo.toml"), f"""# generated by mc/build.py
[workspace]
members = ["shim"{', "rmc"' if with_rmc else ''}]
resolver = "2"

[profile.release]
opt-level = 2
debug = false
codegen-units = 16
panic = "unwind"
overflow-checks = false
debug-assertions = false

[patch.crates-io]
rand = {{ path = "{VERIF}/rust/rand" }}
""")
    write_if_changed(os.path.join(ws, "shim", "Cargo.toml"), f"""# generated by mc/build.py from {REPO}/Cargo.toml
[package]
name = "gufo_snmp"
version = "0.0.0"
edition = "{edition.group(1) if edition else '2021'}"

[lib]
name = "gufo_snmp"
crate-type = ["cdylib", "rlib"]

[dependencies]
{deps}
{extra}
""")
    sync(os.path.join(REPO, "src"), os.path.join(ws, "shim", "src"), (".rs",))
    if with_rmc:
        sync(os.path.join(VERIF, "rust", "rmc"), os.path.join(ws, "rmc"), (".rs", ".toml"))
    lock = os.path.join(ws, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "rust", "Cargo.lock"), lock)
    pkgs = ["-p", "gufo_snmp"] if not with_rmc else ["-p", "gufo_snmp", "-p", "rmc"]
    return run(["cargo", "build", "--release", "--offline", "--lib"] + pkgs, cwd=ws)


def build_mt():
    """the crate once more, with its synchronisation primitives scheduled by shuttle (thread exploration)"""
    ws = os.path.join(BUILD, "wsmt")
    os.makedirs(ws, exist_ok=True)
    toml = open(os.path.join(REPO, "Cargo.toml")).read()
    edition = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    deps, extra = deps_section(toml)
    write_if_changed(os.path.join(ws, "Cargo.toml"), f"""# generated by mc/build.py
[workspace]
members = ["vstd", "mtshim", "harness"]
resolver = "2"

[profile.release]
opt-level = 2
debug = false
codegen-units = 16
panic = "unwind"
overflow-checks = false
debug-assertions = false

[patch.crates-io]
rand = {{ path = "{VERIF}/rust/rand" }}
""")
    write_if_changed(os.path.join(ws, "mtshim", "Cargo.toml"), f"""# generated by mc/build.py from {REPO}/Cargo.toml
[package]
name = "gufo_snmp_mt"
version = "0.0.0"
edition = "{edition.group(1) if edition else '2021'}"

[lib]
name = "gufo_snmp"
crate-type = ["rlib"]

[dependencies]
std = {{ package = "vstd", path = "../vstd" }}
{deps}
{extra}
""")
    sync(os.path.join(REPO, "src"), os.path.join(ws, "mtshim", "src"), (".rs",))
    for x in ("vstd", "harness"):
        sync(os.path.join(VERIF, "rust", "mt", x), os.path.join(ws, x), (".rs", ".toml"))
    lock = os.path.join(ws, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "rust", "mt", "Cargo.lock"), lock)
    return run(["cargo", "build", "--release", "--offline", "--lib", "-p", "mt_harness"], cwd=ws, logname="build_mt.log")


def ensure_mt():
    """-> path of the thread harness, or "" when it cannot be built for this tree"""
    stamp = sha(*(listing(os.path.join(REPO, "src"), (".rs",)) + [os.path.join(REPO, "Cargo.toml")] +
                  listing(os.path.join(VERIF, "rust"), (".rs", ".toml", ".lock"))))
    out, sfile = os.path.join(BUILD, "libmt.so"), os.path.join(BUILD, "stamp_mt")
    have = open(sfile).read().split() if os.path.exists(sfile) else []
    if not (have and have[0] == stamp and (have[1] == "0" or os.path.exists(out))):
        t0 = time.time()
        ok = build_mt().returncode == 0
        if ok:
            install(os.path.join(BUILD, "target", "release", "libmt_harness.so"), out)
        with open(sfile, "w") as f:
            f.write(f"{stamp} {int(ok)}")
        log(f"thread harness built in {time.time() - t0:.1f}s: {ok}")
        have = [stamp, str(int(ok))]
    return out if have[1] == "1" else ""


def install(src, dst):
    """replace atomically, only when different"""
    if os.path.exists(dst) and sha(dst).split() and open(dst, "rb").read() == open(src, "rb").read():
        return
    tmp = dst + ".new"
    shutil.copyfile(src, tmp)
    os.replace(tmp, dst)


def ensure(need_rmc=False, verbose=True):
    """-> dict(info). Builds the extension (and, when possible, the rmc harness)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    cc(os.path.join(VERIF, "mc/vnet/vnet.c"), os.path.join(BUILD, "vnet.so"))
    cc(os.path.join(VERIF, "mc/vnet/oracle.c"), os.path.join(BUILD, "mc_oracle.so"))
    srcs = listing(os.path.join(REPO, "src"), (".rs",)) + [os.path.join(REPO, "Cargo.toml")]
    mine = listing(os.path.join(VERIF, "rust"), (".rs", ".toml", ".lock"))
    stamp = sha(*srcs, *mine)
    py = os.path.join(BUILD, "py")
    ext = os.path.join(py, "gufo", "snmp", "_fast.so")
    rmc = os.path.join(BUILD, "librmc.so")
    sfile = os.path.join(BUILD, "stamp")
    have = open(sfile).read().split() if os.path.exists(sfile) else []
    sync(os.path.join(REPO, "src", "gufo"), os.path.join(py, "gufo"), (".py", ".pyi", ".typed"))
    if not (have and have[0] == stamp and os.path.exists(ext) and (have[1] == "0" or os.path.exists(rmc))):
        if os.path.exists(sfile):
            os.unlink(sfile)
        p = build_rust(True)
        ok_rmc = p.returncode == 0
        if not ok_rmc:
            # the internal API may have moved: the extension alone decides then
            p2 = build_rust(False)
            if p2.returncode:
                sys.stderr.write(p2.stdout[-8000:])
                raise SystemExit("cargo build of /repo failed")
            log("rmc harness does not build against this tree; wire-level exploration only")
            sys.stderr.write("\n".join(x for x in p.stdout.splitlines() if x.startswith("error"))[:2000] + "\n")
        rel = os.path.join(BUILD, "target", "release")
        install(os.path.join(rel, "libgufo_snmp.so"), ext)
        if ok_rmc:
            install(os.path.join(rel, "librmc.so"), rmc)
        elif os.path.exists(rmc):
            os.unlink(rmc)
        with open(sfile, "w") as f:
            f.write(f"{stamp} {int(ok_rmc)}")
        log(f"built in {time.time() - t0:.1f}s (rmc: {ok_rmc})")
    return {"rmc": os.path.exists(rmc), "source_sha256": stamp, "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    print(ensure(True))
    print(ensure_mt())
