"""All of C01-C13 at once, less of each (for tools/mutants.py): exit 1 at any disallowed step."""
import multiprocessing as mp
import os
import sys
import time
from pathlib import Path

sys.path[:0] = [str(Path(__file__).resolve().parent.parent / "lib")]
import check  # noqa: F401  (paths of the tree under test)
import tlc
from checks.layout import _run

N, PROCS = int(os.environ.get("PER", 120)), int(os.environ.get("PROCS", 8))


def main():
    t0, done = time.time(), 0
    with mp.get_context("fork").Pool(PROCS) as pool:
        for first, last in ((0, N // 8), (N // 8, N)):   # most are seen at once
            traces, t1 = [], time.time()
            for t in pool.imap(_run, [(7_000_003 + k, f"C{p:02d}") for k in range(first, last) for p in range(1, 14)], chunksize=4):
                traces.append(t)
                if time.time() - t1 > 60 or len(traces) > 100 and time.time() - t1 > 20 and sum(t["ev"][-1]["e"] == "crash" for t in traces if t["ev"]) > 20:
                    break
            done += len(traces)
            v = tlc.validate_all("LayoutTrace", traces, lambda st: None)
            seen = [(c, t["prof"], t["seed"]) for t, x in zip(traces, v) for c in x]
            if seen:
                print("VIOLATION", sorted({c for c, *_ in seen}), seen[0])
                pool.terminate()
                return 1
    print("OK", done, round(time.time() - t0, 1))
    return 0


if __name__ == "__main__":
    sys.exit(main())
