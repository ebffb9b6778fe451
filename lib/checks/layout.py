"""C01-C13: executions of the real Layout validated against spec/Layout.tla."""
from __future__ import annotations

import collections
import multiprocessing as mp
import time

import tlc

ASSUME = [
    "asyncio's own scheduling is trusted; interleavings are reached by varying the driver's yields, "
    "setter bursts, consumer lag and effect/handler suspensions, not by controlling every task switch",
    "updates are applied in the order layout.render() returns them (what every bundled transport does)",
]

QUICK = dict(own=3500, mix=1000)
THOROUGH_S = 420


def _run(args):
    import layout_rt
    seed, prof = args
    return layout_rt.run_seed(seed, prof)


def traces_for(pool, prof, seeds, budget=150):
    """Executions of the seeds; fewer when they take unusually long (hangs, crashes)."""
    t0, out = time.time(), []
    for t in pool.imap(_run, [(s, prof) for s in seeds], chunksize=4):
        out.append(t)
        if time.time() - t0 > budget:
            break
        if len(out) > 200 and time.time() - t0 > 25 and sum(t["ev"][-1]["e"] == "crash" for t in out if t["ev"]) > 20:
            break
    return out


def short(ev):
    s = {k: v for k, v in ev.items() if k not in ("raw", "model")}
    return s


def judge(ctx, traces, counts):
    verdicts = tlc.validate_all("LayoutTrace", traces, ctx.tlc)
    ctx.add(traces_validated_against_impl=len(traces))
    for t, v in zip(traces, verdicts):
        kinds = {e["e"] for e in t["ev"]}
        for k in kinds:
            counts[k] += 1
        for e in t["ev"]:
            counts["#" + e["e"]] += 1
        for clause, i in sorted(v.items(), key=lambda x: x[1]):
            if not clause.startswith((ctx.prop + ".", "UNDEFINED")) or len(ctx.violations) >= 10:
                continue
            if clause.endswith((".hang", ".livelock")) and not confirm(t, clause):
                ctx.extra["unconfirmed_timeouts"] = ctx.extra.get("unconfirmed_timeouts", 0) + 1
                continue
            ctx.violation(f"{clause}@{t['prof']}/{t['seed']}",
                          f"step {i} of {len(t['ev'])} is not allowed: {short(t['ev'][i - 1])}",
                          dict(profile=t["prof"], seed=t["seed"], clause=clause, step=i,
                               how="lib/show_trace.py PROFILE SEED STEP", events=t["ev"][max(0, i - 60):i]))


def confirm(t, clause):
    for _ in range(2):
        t2 = _run((t["seed"], t["prof"]))
        v, _ = tlc.validate("LayoutTrace", [t2])
        if clause not in v[0]:
            return False
    return True


def run(ctx):
    counts = collections.Counter()
    base = ctx.seed * 1_000_003
    with mp.get_context("fork").Pool(8) as pool:
        rounds = 0
        while True:
            off = base + rounds * 100_000
            traces = traces_for(pool, ctx.prop, range(off, off + QUICK["own"]))
            if ctx.prop != "C01" and len(traces) == QUICK["own"]:
                traces += traces_for(pool, "C01", range(off + 50_000, off + 50_000 + QUICK["mix"]))
            judge(ctx, traces, counts)
            rounds += 1
            if len(traces) < QUICK["own"]:
                pool.terminate()      # something takes much longer than it should
                if rounds == 1:
                    ctx.extra["cut_short"] = len(traces)
                break
            if rounds == 1:
                t = traces[1]
                ctx.sample(dict(profile=t["prof"], seed=t["seed"], events=[short(e) for e in t["ev"][:12]]))
            if ctx.quick or ctx.violations or ctx.left(THOROUGH_S) < 30:
                break
    ctx.extra["steps_by_kind"] = {k[1:]: n for k, n in counts.items() if k.startswith("#")}
    ctx.extra["traces_with_kind"] = {k: n for k, n in counts.items() if not k.startswith("#")}
    ctx.extra["vacuous"] = [k for k in NEEDED.get(ctx.prop, ()) if counts["#" + k] < 50]


NEEDED = {
    "C01": ("upd", "quiet"), "C02": ("begin", "quiet"), "C03": ("set", "quiet"), "C04": ("effrun", "effclean"),
    "C05": ("arun", "aclean", "acancel"), "C06": ("closed",), "C07": ("end",), "C08": ("begin",),
    "C09": ("hstart",), "C10": ("hstart",), "C11": ("hstart", "upd"), "C12": ("end",), "C13": ("end",),
}

CHECKS = {f"C{i:02d}": dict(run=run, level="model_checking", assumptions=ASSUME) for i in range(1, 14)}
