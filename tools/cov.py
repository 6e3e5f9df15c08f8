"""Development aid: which lines of the repository the sampled paths of a unit's harnesses run.
Usage: cov.py UNIT [regex of harnesses]"""
import glob, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import build

unit = sys.argv[1]
pat = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
T = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
symx = os.path.join(build.BUILD, "engine/release/symx")
ll, hs = build.compile_ll(unit)
build.FLAGS += " -C instrument-coverage"
old = build.stage
build.stage = lambda u, p, l: old(u, p, l + "-cov") if False else old(u, p, l)
saved = build.BUILD
os.makedirs("/tmp/cov", exist_ok=True)
build.BUILD = "/tmp/cov"
oe = build.env
build.env = lambda t, f: {**oe(t, f), "RUSTUP_TOOLCHAIN": "stable"}
rp = build.compile_native(unit)
prof = f"/tmp/cov/{unit}-prof"
subprocess.run(["rm", "-rf", prof]); os.makedirs(prof)
from concurrent.futures import ThreadPoolExecutor
def one(h):
    out = f"/tmp/cov/{h}.json"
    subprocess.run([symx, ll, "--harness", h, "--out", out, "--secs", "100", "--samples", "150"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try: j = json.load(open(out))
    except Exception: print("no output", h); return
    for i, s in enumerate(j["samples"]):
        f = f"/tmp/cov/{h}.in"
        open(f, "w").write("".join(f"{w} {v}\n" for w, v in s["inputs"]))
        subprocess.run([rp, h, f], env={**os.environ, "LLVM_PROFILE_FILE": f"{prof}/{h}-%m.profraw"},
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
names = [n for h in hs for n in h.fns if pat.search(n) and h.opts[n].get("tier") != "thorough"]
with ThreadPoolExecutor(7) as ex: list(ex.map(one, names))
open("/tmp/cov/list", "w").write("\n".join(glob.glob(prof + "/*.profraw")))
subprocess.check_call([T + "llvm-profdata", "merge", "-sparse", "-f", "/tmp/cov/list", "-o", f"{prof}/m.profdata"])
r = subprocess.run([T + "llvm-cov", "export", rp, f"--instr-profile={prof}/m.profdata", "-format=lcov"], capture_output=True, text=True)
cur = None
res = {}
for l in r.stdout.splitlines():
    if l.startswith("SF:"): cur = l[3:]
    elif l.startswith("DA:") and f"/{unit}-n/ws/" in cur and "/hx/" not in cur and "/out/" not in cur:
        a, b = l[3:].split(",")[:2]
        res.setdefault(cur.split("/ws/")[1], {})[int(a)] = int(b)
for f in sorted(res):
    d = res[f]
    un = sorted(k for k, v in d.items() if v == 0)
    runs = []
    for k in un:
        if runs and all(x not in d or d[x] == 0 for x in range(runs[-1][1] + 1, k)): runs[-1][1] = k
        else: runs.append([k, k])
    print(f, f"{len(d)-len(un)}/{len(d)}", " ".join(f"{a}-{b}" if a != b else str(a) for a, b in runs))
