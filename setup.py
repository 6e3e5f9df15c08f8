#!/usr/bin/env python3
"""Builds the symbolic executor, and every unit's IR and replay program from /repo's tree."""
import concurrent.futures as cf
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402
import units  # noqa: E402


def main():
    t = time.time()
    build.build_engine_if_needed()
    print(f"engine {time.time() - t:.0f} s", flush=True)
    bad = 0
    with cf.ThreadPoolExecutor(3) as ex:
        futs = {}
        for u in units.UNITS:
            if build.harnesses(u):
                futs[ex.submit(build.compile_ll, u)] = f"{u} (IR)"
                futs[ex.submit(build.compile_native, u)] = f"{u} (native)"
        for f in cf.as_completed(futs):
            try:
                f.result()
                print(f"unit {futs[f]} {time.time() - t:.0f} s", flush=True)
            except build.BuildError as e:
                bad = 1
                print(f"unit {futs[f]}: {e}", flush=True)
    return bad


if __name__ == "__main__":
    sys.exit(main())
