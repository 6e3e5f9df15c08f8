"""Builds what the checks run: the symbolic executor, and per unit (a part of the repository)
the whole-program LLVM IR of the code under check with its harnesses, and a native replay of
the same harnesses.  Everything is regenerated from /repo's working tree into /verif/build."""

import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SYMX = os.path.join(BUILD, "engine", "release", "symx")
TOOLCHAIN = "1.91.1"

sys.path.insert(0, os.path.join(VERIF, "tools"))


class BuildError(Exception):
    pass


def env(target, flags):
    e = dict(os.environ)
    for k in ("CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(
        HOME=e.get("HOME", "/root"),
        RUSTUP_TOOLCHAIN=TOOLCHAIN,
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=target,
        CARGO_TERM_COLOR="never",
        RUSTFLAGS=flags,
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def run(cmd, cwd, e, log):
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    e = env(os.path.join(BUILD, "engine"), "")
    log = os.path.join(BUILD, "engine.log")
    cmd = ["cargo", "build", "--release", "--offline"]
    if run(cmd, os.path.join(VERIF, "engine"), e, log):
        raise BuildError("engine: " + open(log).read()[-3000:])


def build_engine_if_needed():
    src = glob.glob(os.path.join(VERIF, "engine", "src", "*.rs"))
    if os.path.exists(SYMX) and all(os.path.getmtime(SYMX) >= os.path.getmtime(p) for p in src):
        return False
    with locked("engine"):
        build_engine()
        os.utime(SYMX)
    return True


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def repo(path):
    with open(os.path.join(REPO, path), encoding="utf-8") as f:
        return f.read()


class Harness:
    """A harness file: its header says which property it is for and where it is compiled."""

    def __init__(self, path):
        self.path = path
        self.file = os.path.basename(path)[:-3]
        self.text = open(path, encoding="utf-8").read()
        self.unit = os.path.basename(os.path.dirname(path))
        m = re.search(r"^//@ property=(\S+)", self.text, re.M)
        self.props = m.group(1).split(",") if m else []
        m = re.search(r"^//@ append=(\S+)", self.text, re.M)
        self.append = m.group(1) if m else None
        # other files whose stand-ins this one uses
        m = re.search(r"^//@ with=(\S+)", self.text, re.M)
        self.uses = m.group(1).split(",") if m else []
        self.fns = {}
        self.opts = {}
        # in helper functions: some harness has to reach each
        self.shared_covers = []
        cur = None
        tier = None
        for n, line in enumerate(self.text.split("\n"), 1):
            o = re.match(r"\s*//@ harness (.*)", line)
            if o:
                tier = dict(kv.split("=", 1) for kv in o.group(1).split())
            m = re.search(r'extern "C" fn (hx_\w+)\(\)', line)
            if m:
                cur = m.group(1)
                self.fns[cur] = {"covers": [], "line": n}
                self.opts[cur] = tier or {}
                tier = None
            elif re.match(r"(pub )?fn \w+", line):
                cur = None
            if re.search(r"\bcover!\(", line) and not cur:
                self.shared_covers.append(n)
            if cur and re.search(r"\bcover!\(", line):
                self.fns[cur]["covers"].append(n)


def harnesses(unit=None):
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*", "*.rs"))):
        if os.path.basename(p).startswith("_"):
            continue
        h = Harness(p)
        if unit is None or h.unit == unit:
            out.append(h)
    return out


# ---------------------------------------------------------------------------------------------


class Tree:
    """Collects the files of a generated workspace, then writes what changed and drops the rest."""

    def __init__(self, root):
        self.root = root
        self.files = {}

    def put(self, path, text):
        self.files[path] = text

    def copy(self, src, dst=None, skip=()):
        dst = dst or src
        base = os.path.join(REPO, src)
        if os.path.isfile(base):
            self.files[dst] = open(base, encoding="utf-8").read()
            return
        for d, dirs, names in os.walk(base):
            rel = os.path.relpath(d, base)
            dirs[:] = [x for x in dirs if x not in ("target", ".git", "out")]
            for n in names:
                r = os.path.normpath(os.path.join(rel, n))
                if any(r == s or r.startswith(s + "/") for s in skip):
                    continue
                p = os.path.join(d, n)
                try:
                    self.files[os.path.join(dst, r)] = open(p, encoding="utf-8").read()
                except UnicodeDecodeError:
                    self.files[os.path.join(dst, r)] = open(p, "rb").read()

    def sync(self):
        for rel, text in self.files.items():
            p = os.path.join(self.root, rel)
            data = text if isinstance(text, bytes) else text.encode()
            try:
                with open(p, "rb") as f:
                    if f.read() == data:
                        continue
            except FileNotFoundError:
                pass
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data)
        for d, dirs, names in os.walk(self.root):
            for n in names:
                rel = os.path.relpath(os.path.join(d, n), self.root)
                if rel not in self.files and not rel.startswith("Cargo.lock"):
                    os.unlink(os.path.join(d, n))


PROFILE = """
[profile.release]
opt-level = 1
debug = 0
codegen-units = {cgu}
incremental = false
overflow-checks = false
{extra}
"""

SHIM = open(os.path.join(VERIF, "tools", "shim.rs"), encoding="utf-8").read()


def stage(unit, props, label):
    """Generates the workspace of a unit; returns its directory and the harness files in it."""
    import units

    root = os.path.join(BUILD, label, "ws")
    t = Tree(root)
    u = units.UNITS[unit]
    u["tree"](t)
    hs = [h for h in harnesses(unit) if props is None or set(h.props) & set(props)]
    used = {f for h in hs for f in h.uses} - {h.file for h in hs}
    hs += [h for h in harnesses(unit) if h.file in used]
    lib = [u.get("hx_lib", "")]
    sx = os.path.join(VERIF, "sx")
    for h in hs:
        # appended files get at private items; the others are modules of the harness crate
        mod = (
            f'\n#[cfg(verif)]\n#[allow(dead_code, unused_imports, unused_variables, unused_mut)]\n'
            f'pub mod hx_{h.file} {{\n    use super::*;\n    include!("{h.path}");\n}}\n'
        )
        if h.append:
            if h.append not in t.files:
                raise BuildError(f"{h.path}: {h.append} is not in the tree")
            t.files[h.append] += mod
        else:
            lib.append(mod)
    t.put("hx/src/lib.rs", "#![allow(unused_imports)]\n" + "\n".join(lib))
    t.put(
        "hx/Cargo.toml",
        '[package]\nname = "hx"\nversion = "0.1.0"\nedition = "2024"\n'
        '[lib]\ncrate-type = ["staticlib", "rlib"]\n[dependencies]\n'
        f'sx = {{ path = "{sx}" }}\n' + u["hx_deps"],
    )
    names = sorted(n for h in hs for n in h.fns)
    decl = "".join(f"    fn {n}();\n" for n in names)
    arms = "".join(f'        "{n}" => unsafe {{ {n}() }},\n' for n in names)
    t.put("rp/src/main.rs", SHIM.replace("/*DECL*/", decl).replace("/*ARMS*/", arms))
    t.put(
        "rp/Cargo.toml",
        '[package]\nname = "rp"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\n'
        f'hx = {{ path = "../hx" }}\nsx = {{ path = "{sx}" }}\n' + u["hx_deps"],
    )
    t.put("rp/build.rs", u["rp_build"]() if "rp_build" in u else "fn main() {}\n")
    lock = repo("Cargo.lock")
    seed = os.path.join(root, "Cargo.lock.repo")
    extra = u.get("lock", "")
    if not os.path.exists(seed) or open(seed).read() != lock + extra:
        write(os.path.join(root, "Cargo.lock"), lock + extra)
        write(seed, lock + extra)
    t.sync()
    return root, hs


FLAGS = "--cfg verif --cfg ringrtc_verif --cfg aes_force_soft --cfg polyval_force_soft -A warnings"


def locked(label):
    os.makedirs(os.path.join(BUILD, label), exist_ok=True)
    f = open(os.path.join(BUILD, label, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, names in sorted(os.walk(root)):
        dirs.sort()
        for n in sorted(names):
            p = os.path.join(d, n)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*", "*.rs"))):
        h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "sx", "src", "lib.rs"), "rb").read())
    return h.hexdigest()


def compile_ll(unit, props=None):
    """Returns (path of the .ll, harness files)."""
    label = unit if props is None else unit + "-" + "-".join(props)
    import units

    with locked(label):
        root, hs = stage(unit, props, label)
        top = PROFILE.format(cgu=1, extra='lto = "fat"\npanic = "abort"\n')
        u = units.UNITS[unit]
        write(os.path.join(root, "Cargo.toml"), u["workspace"] + top + u.get("profile", ""))
        target = os.path.join(BUILD, label, "target-ll")
        flags = FLAGS + " -C no-vectorize-loops -C no-vectorize-slp"
        e = env(target, flags)
        log = os.path.join(BUILD, label, "ll.log")
        want = tree_hash(root) + flags
        stamp = os.path.join(BUILD, label, "ll.stamp")
        dst = os.path.join(BUILD, label, "hx.ll")
        if os.path.exists(dst) and os.path.exists(stamp) and open(stamp).read() == want:
            return dst, hs
        deps = os.path.join(target, "release", "deps")
        for p in glob.glob(os.path.join(deps, "hx-*.ll")):
            os.unlink(p)
        # the harness crate itself is always compiled: its harnesses are included files
        os.utime(os.path.join(root, "hx/src/lib.rs"))
        cmd = ["cargo", "rustc", "--release", "--offline", "-p", "hx", "--lib",
               "--crate-type", "staticlib"] + u.get("features", [])
        cmd += ["--", "--emit=llvm-ir"]
        if run(cmd, root, e, log):
            raise BuildError(f"{label}: " + open(log).read()[-6000:])
        ll = glob.glob(os.path.join(deps, "hx-*.ll")) + glob.glob(os.path.join(deps, "hx.ll"))
        if len(ll) != 1:
            raise BuildError(f"{label}: found {ll}")
        shutil.copy(ll[0], dst)
        write(stamp, want)
        return dst, hs


def compile_native(unit, props=None):
    """Returns the path of the replay program."""
    import units

    label = unit if props is None else unit + "-" + "-".join(props)
    nlabel = label + "-n"
    with locked(nlabel):
        root, hs = stage(unit, props, nlabel)
        u = units.UNITS[unit]
        top = PROFILE.format(cgu=8, extra='panic = "unwind"\n')
        ws = u["workspace"].replace('"hx"', '"hx", "rp"')
        write(os.path.join(root, "Cargo.toml"), ws + top + u.get("profile", ""))
        target = os.path.join(BUILD, nlabel, "target")
        e = env(target, FLAGS)
        log = os.path.join(BUILD, nlabel, "native.log")
        os.utime(os.path.join(root, "rp/src/main.rs"))
        cmd = ["cargo", "build", "--release", "--offline", "-p", "rp"] + u.get("features", [])
        if run(cmd, root, e, log):
            raise BuildError(f"{nlabel}: " + open(log).read()[-6000:])
        return os.path.join(target, "release", "rp")
