#!/usr/bin/env python3
"""Decides one property: symbolic execution of every harness registered for it.

check.py ID [--tier quick|thorough] [--jobs N] [--only hx_name]
"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402

LEVEL = "model_checking"


def log(*a):
    print(*a, flush=True)


class Unit:
    """The built artefacts of one unit for one property."""

    def __init__(self, name, prop):
        self.name = name
        self.prop = prop
        self.props = None
        t = time.time()
        try:
            self.ll, hs = build.compile_ll(name)
        except build.BuildError as e:
            # a change may keep some other property's harness from compiling
            log(f"# {name}: the shared build failed, building for {prop} alone")
            log("# " + str(e)[-1500:].replace("\n", "\n# "))
            self.props = [prop]
            self.ll, hs = build.compile_ll(name, [prop])
        self.files = [h for h in hs if prop in h.props]
        self.secs = time.time() - t
        self.rp = None

    def native(self):
        if self.rp is None:
            try:
                self.rp = build.compile_native(self.name, self.props)
            except build.BuildError:
                if self.props:
                    raise
                self.props = [self.prop]
                self.rp = build.compile_native(self.name, self.props)
        return self.rp


def symx(unit, h, fn, tier, outdir):
    o = h.opts[fn]
    out = os.path.join(outdir, fn + ".json")
    secs = int(o.get("secs", 400 if tier == "quick" else 2400))
    cmd = [build.SYMX, unit.ll, "--harness", fn, "--out", out, "--secs", str(secs)]
    for k in ("steps", "paths", "samples"):
        if k in o:
            cmd += ["--" + k, o[k]]
    cmd += ["--smt-ms", o.get("smt_ms", "120000")]
    if "focus" in o:
        cmd += ["--focus", o["focus"]]
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 120)
        rc, err = r.returncode, r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = 2, "timeout"
    try:
        with open(out) as f:
            j = json.load(f)
    except (OSError, ValueError):
        j = None
    return fn, rc, err, j


def replay_file(path, harness, inputs, note):
    with open(path, "w") as f:
        f.write(f"# harness {harness}\n# {note}\n")
        for w, v in inputs:
            f.write(f"{w} {v}\n")


def run_rp(rp, fn, path, timeout=60):
    try:
        r = subprocess.run([rp, fn, path], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "hang", ""


def known_findings():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    tier = a.tier
    files = [h for h in build.harnesses() if prop in h.props]
    if not files:
        log(f"no harness for {prop}")
        return 2
    if build.build_engine_if_needed():
        log("# engine built")
    evd = os.path.join(VERIF, "evidence")
    work = os.path.join(build.BUILD, "run", prop)
    rdir = os.path.join(evd, "replay")
    for d in (evd, work, rdir):
        os.makedirs(d, exist_ok=True)

    units = {}
    for u in sorted({h.unit for h in files}):
        units[u] = Unit(u, prop)
        log(f"# unit {u}: built in {units[u].secs:.1f} s")

    jobs = []
    for u in units.values():
        for h in u.files:
            for fn in h.fns:
                if a.only and fn != a.only:
                    continue
                if tier == "quick" and h.opts[fn].get("tier") == "thorough":
                    continue
                jobs.append((u, h, fn))
    errors, violations, known, done = [], [], [], []
    validated, mismatched = 0, []
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        futs = {ex.submit(symx, u, h, fn, tier, work): (u, h, fn) for u, h, fn in jobs}
        # the native build goes on meanwhile
        for u in units.values():
            u.native()
        for f in cf.as_completed(futs):
            u, h, fn = futs[f]
            _, rc, err, j = f.result()
            if j is None:
                errors.append(f"{fn}: no result (exit {rc}) {err}")
                continue
            done.append((u, h, fn, j))
            log(
                f"# {fn}: paths {sum(j['paths'].values())} queries {j['queries']} "
                f"(unsat {j['unsat']}) solver {j['solver_s']} s wall {j['wall_s']} s"
                + (f" INCOMPLETE {j['incomplete']}" if j["incomplete"] else "")
            )
            for k, v in enumerate(j["violations"]):
                path = os.path.join(rdir, f"{prop}-{fn}-{k}.txt")
                replay_file(path, fn, v["inputs"], f"{v['kind']} {v['id']} {v['msg']}")
                code, out = run_rp(u.native(), fn, path)
                same = {
                    "assert": code == 5 and f"ASSERT-FAILED {v['id']}" in out,
                    "panic": code == 6,
                    "hang": code in ("hang", 8),
                }.get(v["kind"], code not in (0, 4))
                if not same:
                    errors.append(
                        f"{fn}: {v['kind']} {v['id']} {v['msg']} did not reproduce natively "
                        f"(exit {code}): {out[-300:]}"
                    )
                    continue
                hit = None
                for kf in known_findings():
                    if (
                        kf["property"] == prop
                        and kf["harness"] == fn
                        and kf["kind"] == v["kind"]
                        and (kf.get("id") is None or kf["id"] == v["id"])
                        and kf.get("msg", "") in v["msg"] + out
                    ):
                        hit = kf
                if hit:
                    known.append(hit["what"])
                else:
                    violations.append((fn, v, path, out))
            if not j["violations"]:
                if rc != 0 or j["incomplete"]:
                    errors.append(f"{fn}: incomplete: {j['incomplete']} {err}")
                if not any(x["violations"] for *_, x in done):
                    miss = sorted(set(h.fns[fn]["covers"]) - set(j["covers"]))
                    if miss:
                        errors.append(f"{fn}: never reached cover at lines {miss}")
                if not j["asserts"] and not h.opts[fn].get("crash_only"):
                    errors.append(f"{fn}: no assertion was ever reached")
            # the engine's account of some of its paths against the real thing
            for k, s in enumerate(j["samples"]):
                path = os.path.join(work, f"{fn}.s{k}")
                replay_file(path, fn, s["inputs"], "sample")
                code, out = run_rp(u.native(), fn, path)
                obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
                want = {"done": 0, "panic-ok": 0}.get(s["end"])
                if want is None:
                    continue
                if code == want and obs == s["obs"]:
                    validated += 1
                else:
                    mismatched.append(f"{fn}: sample {k}: native exit {code}, obs {obs} vs {s['obs']}")
                os.unlink(path)
    if not violations and not known and not errors and not a.only:
        for u in units.values():
            for h in u.files:
                got = {n for _, g, _, j in done if g is h for n in j["covers"]}
                miss = sorted(set(h.shared_covers) - got)
                if miss:
                    errors.append(f"{h.file}: never reached cover at lines {miss}")
    if mismatched and not violations:
        errors.append("the executor and the machine disagree: " + "; ".join(mismatched[:3]))

    js = [j for *_, j in done]
    funcs = sorted({f for j in js for f in j["functions"] if not f.startswith("hx_")})
    ours = [f for f in funcs if any(x in f for x in ("mrp", "ringrtc", "protobuf", "regex_aot", "call_sim"))]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": LEVEL,
        "coverage": {
            "states": sum(j["forks"] + sum(j["paths"].values()) for j in js),
            "transitions": sum(j["steps"] for j in js),
            "traces_validated_against_impl": validated,
            "samples": [
                {"harness": fn, "inputs": s["inputs"][:64], "observed": s["obs"][:32], "end": s["end"]}
                for _, _, fn, j in done
                for s in j["samples"][:2]
            ][:24],
            "paths": sum(sum(j["paths"].values()) for j in js),
            "solver_queries": sum(j["queries"] for j in js),
            "solver_unsat": sum(j["unsat"] for j in js),
            "solver_sat": sum(j["sat"] for j in js),
            "solver_unknown": sum(j["unknown"] for j in js),
            "queries_answered_from_cache": sum(j["cached"] for j in js),
            "solver_s": round(sum(j["solver_s"] for j in js), 3),
            "solver_max_s": max([j["solver_max_s"] for j in js], default=0),
            "solver": "z3 " + (js[0]["z3"] if js else ""),
            "assertions_checked": sum(sum(j["asserts"].values()) for j in js),
            "assertion_sites": sum(len(j["asserts"]) for j in js),
            "covers_reached": sum(len(j["covers"]) for j in js),
            "functions_encoded": sum(j["functions_total"] for j in js),
            "functions_of_the_repository": ours[:400],
            "harnesses": {
                fn: {
                    "bound": h.opts[fn].get("bound", "").replace("_", " "),
                    "paths": j["paths"],
                    "queries": j["queries"],
                    "unsat": j["unsat"],
                    "solver_s": j["solver_s"],
                    "wall_s": j["wall_s"],
                    "functions": j["functions_total"],
                    "incomplete": j["incomplete"],
                }
                for _, h, fn, j in sorted(done, key=lambda d: d[2])
            },
            "exhaustive": not errors and all(not j["incomplete"] for j in js),
        },
        "assumptions": [
            "the stated bounds of each harness; nothing is claimed outside them",
            "rustc's LLVM IR (opt-level 1, overflow checks off, panic=abort) stands for the source; "
            "z3 and the executor's semantics of that IR are trusted, the latter cross-checked by "
            "native replay of sampled paths",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(known)):
        log(f"KNOWN-FINDING: property={prop} {k}")
    for fn, v, path, out in violations:
        log(f"# {fn}: {v['kind']} {v['id']} {v['msg']}")
        for line in v["trace"][-6:]:
            log("#   " + line[:200])
        log("#   native: " + " | ".join(out.strip().splitlines()[-3:]))
        log(f"VIOLATION property={prop} replay={path}")
    if violations:
        return 1
    if errors:
        for e in errors:
            log("ERROR " + e)
        return 2
    log(f"OK {prop}: {len(done)} harnesses, {ev['coverage']['paths']} paths, {validated} replays, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("ERROR build:", str(e)[-4000:])
        sys.exit(2)
