"""What each unit's workspace consists of."""

import glob
import os
import re

import build


def lib_m(t):
    t.copy("mrp")


WORKSPACE = """[workspace]
resolver = "2"
members = [{members}]

[workspace.package]
version = "0.0.0"
authors = []
"""

# Not available offline (git dependencies): left out of R, stand-ins in S.
STUBS = ("zkgroup", "x25519-dalek", "aes-gcm-siv")
GIT_CRATES = ("zkgroup", "libsignal-core", "x25519-dalek", "aes-gcm-siv")

# Modules of ringrtc that need those crates, directly or through another one of these.
LEFT_OUT_R = {
    "core": [
        "call", "call_fsm", "call_manager", "call_summary", "connection", "connection_fsm",
        "endorsements", "group_call", "platform",
    ],
    "": ["native", "electron", "android", "ios", "sim"],
}


def cut(text, pattern):
    return re.sub(pattern, "", text, flags=re.M | re.S)


def ringrtc_manifest(path, stubs=False):
    t = build.repo("src/rust/Cargo.toml")
    t = cut(t, r"^\[\[(?:bin|test)\]\]\n.*?(?=^\[|\Z)")
    t = cut(t, r"^\[dev-dependencies\]\n.*?(?=^\[|\Z)")
    for c in GIT_CRATES:
        t = cut(t, rf"^{re.escape(c)}\s*=[^\n]*\n")
    if stubs:
        dep = "".join(
            f'{c} = {{ path = "{os.path.join(build.VERIF, "stubs", c)}" }}\n' for c in STUBS
        )
        t = t.replace("[dependencies]\n", "[dependencies]\n" + dep, 1)
    t = t.replace("[package]\n", "[package]\nautobins = false\nautotests = false\n", 1)
    t = re.sub(r"crate-type = \[[^\]]*\]", 'crate-type = ["lib"]', t)
    sx = os.path.join(build.VERIF, "sx")
    return t.replace("[dependencies]\n", f'[dependencies]\nsx = {{ path = "{sx}" }}\n', 1)


def drop_modules(t, spec):
    attrs = r"(?:^ *#\[cfg[^\n]*\n)?(?:^ *///[^\n]*\n)?"
    for mod in spec.get("core", []):
        t = cut(t, rf"^    pub mod {mod};\n")
    for mod in spec.get("", []):
        t = cut(t, attrs + rf"^(?:pub )?mod {mod}(?:;\n| \{{\n.*?^\}}\n)")
    return t


def lib_r(t):
    cubeb_sys(t)
    t.copy("mrp")
    t.copy("protobuf")
    t.copy("bin")
    t.copy("src/rust", skip=("tests", "target", "src/bin", "src/android", "src/ios", "scripts"))
    t.put("src/rust/Cargo.toml", ringrtc_manifest("src/rust/Cargo.toml"))
    t.put("src/rust/build.rs", "fn main() {}\n")
    lib = build.repo("src/rust/src/lib.rs")
    lib = drop_modules(lib, LEFT_OUT_R)
    m = re.search(r"^pub type DemuxId = [^;]*;", build.repo("src/rust/src/lite/sfu.rs"), re.M)
    alias = m.group(0) if m else "pub type DemuxId = u32;"
    lib = lib.replace("    pub mod sfu;\n", f"    pub mod sfu {{\n        {alias}\n    }}\n")
    lib = lib.replace(
        "    pub mod call_links;\n", "    pub mod call_links {\n        pub mod base16;\n    }\n"
    )
    t.put("src/rust/src/lib.rs", lib)


def lib_s(t):
    """Everything but the platforms' glue, with the sim feature and stand-ins for the git crates."""
    t.copy("mrp")
    t.copy("protobuf")
    t.copy("src/rust", skip=("tests", "target", "src/bin", "src/android", "src/ios", "scripts"))
    t.put("src/rust/Cargo.toml", ringrtc_manifest("src/rust/Cargo.toml", stubs=True))
    t.put("src/rust/build.rs", "fn main() {}\n")
    lib = drop_modules(build.repo("src/rust/src/lib.rs"), {"": ["android", "ios"]})
    t.put("src/rust/src/lib.rs", lib)


def cubeb_sys(t):
    """cubeb-sys bundles prebuilt Rust objects, which link-time optimisation cannot read: its
    declarations alone."""
    d = glob.glob("/root/.cargo/registry/src/*/cubeb-sys-0.36.0")
    if not d:
        raise build.BuildError("cubeb-sys-0.36.0 is not in the cargo registry")
    for p in glob.glob(d[0] + "/src/*.rs"):
        t.put("cubeb-sys/src/" + os.path.basename(p), open(p, encoding="utf-8").read())
    t.put(
        "cubeb-sys/Cargo.toml",
        '[package]\nname = "cubeb-sys"\nversion = "0.36.0"\nedition = "2021"\nautobins = false\n'
        "[features]\ngecko-in-tree = []\nno-private-apis-in-coreaudio = []\nunittest-build = []\n",
    )


def rp_build_r():
    """The WebRTC and audio libraries are not here: what no harness calls or stands in for is 0."""
    return (
        'fn main() {\n    println!("cargo:rerun-if-changed=build.rs");\n'
        '    println!("cargo:rustc-link-arg=-Wl,--unresolved-symbols=ignore-all");\n}\n'
    )


RC = open(os.path.join(build.VERIF, "tools", "rc.rs"), encoding="utf-8").read()
PLAT = open(os.path.join(build.VERIF, "tools", "plat.rs"), encoding="utf-8").read()

UNITS = {
    # the reliable-delivery crate on its own
    "M": {
        "tree": lib_m,
        "workspace": WORKSPACE.format(members='"mrp", "hx"'),
        "hx_deps": 'mrp = { path = "../mrp" }\nanyhow = "1.0.100"\n',
        "hx_lib": "extern crate mrp;\n",
    },
    # ringrtc as far as it builds with crates.io crates only, with the native feature
    "R": {
        "tree": lib_r,
        "workspace": WORKSPACE.format(members='"mrp", "protobuf", "src/rust", "hx"')
        + '[patch.crates-io]\ncubeb-sys = { path = "cubeb-sys" }\n',
        "hx_deps": 'mrp = { path = "../mrp" }\nprotobuf = { path = "../protobuf" }\n'
        'ringrtc = { path = "../src/rust", features = ["native", "simnet", "virtual_audio"] }\n'
        'anyhow = "1.0.100"\nprost = "0.14.1"\nrand = "0.8.5"\nlog = "0.4.29"\nhkdf = "0.12.4"\nhmac = "0.12.1"\nsha2 = "0.10.9"\n',
        "hx_lib": "extern crate ringrtc;\n" + RC,
        "rp_build": rp_build_r,
    },
    # the modules R leaves out, with the sim feature
    "S": {
        "tree": lib_s,
        "workspace": WORKSPACE.format(members='"mrp", "protobuf", "src/rust", "hx"'),
        "hx_deps": 'mrp = { path = "../mrp" }\nprotobuf = { path = "../protobuf" }\n'
        'ringrtc = { path = "../src/rust", features = ["sim"] }\n'
        + "".join(f'{c} = {{ path = "{os.path.join(build.VERIF, "stubs", c)}" }}\n' for c in STUBS)
        + 'anyhow = "1.0.100"\nprost = "0.14.1"\nrand = "0.8.5"\nlog = "0.4.29"\nhkdf = "0.12.4"\nsha2 = "0.10.9"\n'
        'serde_json = "1.0.145"\nhex = "0.4.3"\nbincode = "1.3.3"\n',
        "hx_lib": "extern crate ringrtc;\n" + PLAT,
        "rp_build": rp_build_r,
    },
}
