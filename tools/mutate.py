#!/usr/bin/env python3
"""Small changes to a file, each judged by the checks of the properties anchored in it (a development aid).

mutate.py FILE[:FROM-TO] [--n N] [--seed S] [--props A,B] [--out LOG]

Runs in a copy of /verif (VERIF_REPO names a copy of /repo): it edits that repository.
"""
import argparse
import concurrent.futures as cf
import os
import random
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402
import check  # noqa: E402
import props  # noqa: E402

SUBS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
    (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", " + 0"), (r" - 1\b", " - 0"),
    (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".len() == 1"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"push_back", "push_front"),
    (r"pop_front", "pop_back"), (r"\b(\d+)\b(?!\w)", None), (r"Some\((\w+)\)(?=[,;)]|$)", "None"),
    (r"\.saturating_sub\(", ".wrapping_sub("), (r"\.wrapping_add\(", ".wrapping_sub("),
    (r" \* ", " / "), (r" / ", " * "), (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r"\.skip\(", ".take("),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"return Ok\(\(\)\);", ""), (r"\?;$", ".ok();"),
    (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=\w)", "..="), (r"\.rev\(\)", ""), (r"from_be_bytes", "from_le_bytes"),
    (r"to_be_bytes", "to_le_bytes"), (r"Ordering::Less", "Ordering::Greater"),
]
SKIP = re.compile(r"^\s*(//|#\[|use |pub use |mod |pub mod |\}|\{|info!|warn!|debug!|error!|trace!|const _|extern|static_assert|write!|assert)")


def mutants(lines, lo, hi):
    out = []
    test = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    for i in range(max(lo - 1, 0), min(hi, test)):
        l = lines[i]
        if SKIP.match(l) or not l.strip() or "fn " in l:
            continue
        for pat, rep in SUBS:
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2:
                    continue
                r = str(int(m.group(1)) + 1) if rep is None else rep
                out.append((i, l[:m.start()] + r + l[m.end():]))
        if re.match(r"^\s+(self|[a-z_.]+)[\w.()&]*( [-+]?= |\().*;\s*$", l) and not l.strip().startswith("let "):
            out.append((i, re.match(r"\s*", l).group(0) + "{}"))
        m = re.match(r"^(\s+)(\w+): (.+),$", l)
        n = re.match(r"^(\s+)(\w+): (.+),$", lines[i + 1]) if i + 1 < len(lines) else None
        if m and n:
            out.append((i, f"{m[1]}{m[2]}: {n[3]},\x00{n[1]}{n[2]}: {m[3]},"))
        m = re.match(r"^(\s+)([\w.&]+),$", l)
        n = re.match(r"^(\s+)([\w.&]+),$", lines[i + 1]) if i + 1 < len(lines) else None
        if m and n:
            out.append((i, f"{m[1]}{n[2]},\x00{n[1]}{m[2]},"))
    return out


def judge(ids):
    """(verdict, by what) of the current tree."""
    hs = [h for h in build.harnesses() if set(h.props) & set(ids)]
    us = {}
    for u in sorted({h.unit for h in hs}):
        try:
            us[u] = build.compile_ll(u)[0]
        except build.BuildError as e:
            return "nobuild", [l for l in str(e).split("\n") if l.startswith("error")][:1]

    class U:
        pass

    jobs = []
    work = os.path.join(build.BUILD, "run", "mut")
    os.makedirs(work, exist_ok=True)
    for h in hs:
        for fn in h.fns:
            if h.opts[fn].get("tier") == "thorough":
                continue
            u = U()
            u.ll = us[h.unit]
            jobs.append((u, h, fn))
    bad = []
    with cf.ThreadPoolExecutor(2) as ex:
        futs = {ex.submit(check.symx, u, h, fn, "quick", work): (h, fn) for u, h, fn in jobs}
        for f in cf.as_completed(futs):
            h, fn = futs[f]
            if f.cancelled():
                continue
            _, rc, err, j = f.result()
            if j and j["violations"]:
                for g in futs:
                    g.cancel()
                return "killed", fn
            if not j or rc or j["incomplete"] or set(h.fns[fn]["covers"]) - set(j["covers"]):
                bad.append(fn)
    return ("noanswer", bad) if bad else ("SURVIVED", "")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props")
    ap.add_argument("--out", default="/tmp/mutate.log")
    a = ap.parse_args()
    assert build.REPO != "/repo"
    f, _, rng = a.file.partition(":")
    lo, hi = (int(x) for x in rng.split("-")) if rng else (0, 1 << 30)
    ids = a.props.split(",") if a.props else [p["id"] for p in props.PROPS if f in p["files"]]
    path = os.path.join(build.REPO, f)
    orig = open(path).read()
    lines = orig.split("\n")
    ms = mutants(lines, lo, hi)
    random.Random(a.seed).shuffle(ms)
    # spread over lines
    seen, first, rest = set(), [], []
    for m in ms:
        (rest if m[0] in seen else first).append(m)
        seen.add(m[0])
    ms = (first + rest)[: a.n]
    for i, new in ms:
        t = time.time()
        ls = list(lines)
        if "\x00" in new:
            ls[i:i + 2] = new.split("\x00")
        else:
            ls[i] = new
        try:
            with open(path, "w") as g:
                g.write("\n".join(ls))
            v, by = judge(ids)
        finally:
            with open(path, "w") as g:
                g.write(orig)
        with open(a.out, "a") as g:
            g.write(f"{v} {f}:{i + 1} [{lines[i].strip()}] -> [{new.strip()}] {by} {time.time() - t:.0f}s\n")


if __name__ == "__main__":
    main()
