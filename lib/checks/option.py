"""C22: configuration options against spec/Option.tla and spec/ConfigGen.tla."""
from __future__ import annotations

import importlib.util
import itertools
import os
import sys
import warnings

import tlc
from framework import REPO

RAW = dict(i0=0, i1=1, i2=2, s0="0", s1="1", s2="2", bad="x", none=None)
NAME = "VERIF_OPTION_"


def validator(x):
    if x is None:
        raise TypeError("none")
    return int(x)


def setenv(name, raw):
    os.environ.pop(name, None)
    if raw != "unset":
        os.environ[name] = RAW[raw]


def replay(hist, variant):
    """-> None or (index, what)"""
    from reactpy._option import DeprecatedOption, Option

    notes = []
    try:
        for o in "PCID":
            setenv(NAME + o, hist[0]["env"][o])
        p = Option(NAME + "P", default=0, validator=validator)
        opts = {
            "P": p,
            "C": Option(NAME + "C", parent=p, validator=validator),
            "I": Option(NAME + "I", default=0, mutable=False, validator=validator),
            "D": DeprecatedOption(NAME + "D", default=1, validator=validator, message="gone"),
        }
        nsubs = dict.fromkeys("PCID", 0)
        for i, h in enumerate(hist):
            op, name, raw = h["op"]
            o = opts.get(name)
            notes.clear()
            exc, want_ret, ret = "none", None, None
            try:
                if op == "set":
                    if (i + variant) % 2:
                        o.current = RAW[raw]
                    else:
                        o.set_current(RAW[raw])
                elif op == "unset":
                    if (i + variant) % 2:
                        del o.current
                    else:
                        o.unset()
                elif op == "set_default":
                    ret = o.set_default(RAW[raw])
                    want_ret = h["seen"]["cur"][name]
                elif op == "reload":
                    o.reload()
                elif op == "subscribe":
                    n = nsubs[name] + 1
                    ret = want_ret = lambda v, name=name, n=n: notes.append([name, n, v])
                    ret = o.subscribe(want_ret)
                    nsubs[name] = n
                elif op == "env":
                    setenv(NAME + name, raw)
            except (TypeError, ValueError) as e:
                exc = type(e).__name__
            except Exception as e:
                exc = repr(e)
            seen = h["seen"]
            got = dict(exc=exc, note=list(notes))
            want = dict(exc=seen["exc"], note=seen["note"])
            if got != want:
                return i, f"{op} {name} {raw}: {got} instead of {want}"
            if exc == "none" and ret != want_ret:
                return i, f"{op} {name} {raw} returned {ret!r} instead of {want_ret!r}"
            cur = {k: v.current for k, v in opts.items()}
            if cur != seen["cur"] or any(type(x) is not int for x in cur.values()):
                return i, f"after {op} {name} {raw}: values {cur} instead of {seen['cur']}"
            is_set = {k: v.is_set() for k, v in opts.items()}
            if is_set != seen["is_set"]:
                return i, f"after {op} {name} {raw}: is_set {is_set} instead of {seen['is_set']}"
            default = {k: v.default for k, v in opts.items()}
            if default != dict(P=0, C=0, I=0, D=1):
                return i, f"after {op} {name} {raw}: defaults {default}"
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            opts["D"].current  # noqa: B018
            n = len([x for x in w if issubclass(x.category, DeprecationWarning)])
            opts["P"].current  # noqa: B018
            if n != 1 or len(w) != 1:
                return len(hist), f"{len(w)} warnings for one use of a deprecated option"
        return None
    finally:
        for o in "PCID":
            os.environ.pop(NAME + o, None)


def replay_config(c):
    names = ("REACTPY_DEBUG", "REACTPY_CHECK_VDOM_SPEC", "REACTPY_CHECK_JSON_ATTRS")
    saved = {n: os.environ.pop(n, None) for n in names}
    case, seen = c["case"], c["seen"]
    try:
        for n, t in (("REACTPY_DEBUG", case["debug"]), (case["kind"], case["child"])):
            if t != "unset":
                os.environ[n] = t
        spec = importlib.util.spec_from_file_location("verif_config", REPO / "src/reactpy/config.py")
        m = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(m)
        except ValueError:
            return None if seen["error"] else f"{case}: rejected"
        if seen["error"]:
            return f"{case}: accepted"
        debug, child = m.REACTPY_DEBUG, getattr(m, case["kind"])
        vals = [[debug.current, child.current]]
        for v in case["later"]:
            debug.current = v
            vals.append([debug.current, child.current])
        return None if vals == seen["values"] else f"{case}: {vals} instead of {seen['values']}"
    finally:
        for n in names:
            os.environ.pop(n, None)
            if saved[n] is not None:
                os.environ[n] = saved[n]


def run(ctx):
    warnings.simplefilter("ignore")
    jobs = [("OptionCover.cfg", None), ("OptionCover2.cfg", None), ("OptionSim.cfg", 2000 if ctx.quick else 100000)]
    for cfg, sim in jobs:
        hists, st = tlc.generate("OptionGen", cfg, sim=sim, depth=26, seed=ctx.seed, workers=8, timeout=600)
        ctx.tlc(st)
        for k, h in enumerate(hists):
            for variant in (k % 2,) if ctx.quick else (0, 1):
                bad = replay(h, variant)
                ctx.add(traces_validated_against_impl=1)
                if bad:
                    i, what = bad
                    ops = [x["op"] for x in h[: i + 1]]
                    ctx.violation(f"C22@{h[0]['env']}{ops[1:]}", what, dict(kind="option", history=h, index=i))
                    break
            if len(ctx.violations) > 5:
                break
        ctx.sample(dict(history=[x["op"] for x in hists[-1]], env=hists[-1][0]["env"]))
    cases, st = tlc.generate("ConfigGen")
    ctx.tlc(st)
    for c in cases:
        bad = replay_config(c)
        ctx.add(traces_validated_against_impl=1)
        if bad:
            ctx.violation(f"C22@config{c['case']}", bad, dict(kind="config", case=c))
        if len(ctx.violations) > 10:
            break


CHECKS = {"C22": dict(
    run=run, level="model_checking",
    technique="TLA+ specification (Option, ConfigGen); TLC enumerates every operation in every reachable state and random histories, each replayed on the real options and compared step by step",
    note="Values are abstracted to three integers and their texts; two families of options (parent with child, immutable with deprecated) are covered "
         "exhaustively with one subscriber each, all four together by random histories. Trusts TLC and the comparison.",
)}
