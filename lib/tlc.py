"""Running TLC and reading its answers."""
from __future__ import annotations

import hashlib
import json
import os
import pickle
import re
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def run_tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=(), ok=(0,), stack="64m"):
    """-> (stdout, stats dict).  Raises MachineryError on anything unexpected."""
    cfg = cfg or f"{module}.cfg"
    work = Path(tempfile.mkdtemp(prefix="vtlc_"))
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-Xss{stack}", "-cp", JARS, "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-metadir", str(work / "m"), "-noGenerateSpecTE",
               *extra, f"{module}.tla"]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as err:
            raise MachineryError(f"TLC timed out on {module} after {timeout} s") from err
        out = p.stdout
        if p.returncode not in ok:
            raise MachineryError(f"TLC failed on {module} (exit {p.returncode}):\n{out[-1500:]}\n{p.stderr[-1000:]}")
        st = dict(rc=p.returncode, wall=time.time() - t0, states=0, distinct=0, depth=0)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            st["states"] = int(m[-1][0].replace(",", ""))
            st["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            st["depth"] = int(m[-1])
        return out, st
    finally:
        shutil.rmtree(work, ignore_errors=True)


_V = re.compile(r'^"VERDICT (\d+) (\d+) (\{.*\})"$', re.M)
_P = re.compile(r'<<\\?"([^"\\]+)\\?", (\d+)>>')


def validate(module, traces, cfg=None, timeout=800, heap="6g", workers=8):
    """-> (list of verdicts [{clause: index}], stats).  One verdict per trace or MachineryError."""
    work = Path(tempfile.mkdtemp(prefix="vtr_"))
    try:
        f = work / "traces.json"
        f.write_text(json.dumps(traces))
        out, st = run_tlc(module, cfg, env={"TRACES": str(f)}, timeout=timeout, heap=heap, workers=workers)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    verdicts = {}
    for m in _V.finditer(out):
        verdicts[int(m.group(1))] = {a: int(b) for a, b in _P.findall(m.group(3))}
    if set(verdicts) != set(range(1, len(traces) + 1)):
        raise MachineryError(f"{module}: {len(verdicts)} verdicts for {len(traces)} traces\n{out[-3000:]}")
    return [verdicts[i + 1] for i in range(len(traces))], st


def validate_all(module, traces, count, cfg=None, timeout=600):
    """Like validate, but a trace on which the specification is undefined does not spoil the others:
    it gets the verdict {"UNDEFINED": last step}."""
    try:
        v, st = validate(module, traces, cfg, timeout=timeout)
        count(st)
        return v
    except MachineryError:
        if len(traces) == 1:
            return [{"UNDEFINED": len(traces[0]["ev"])}]
        n = max(1, len(traces) // 8) if len(traces) > 16 else 1
        out = []
        undefined = 0
        for i in range(0, len(traces), n):
            part = traces[i:i + n]
            if undefined >= 3:
                out += [{} for _ in part]      # enough is known
                continue
            got = validate_all(module, part, count, cfg, timeout)
            undefined += sum("UNDEFINED" in g for g in got)
            out += got
        return out


def generate(module, cfg=None, sim=None, depth=100, seed=1, mark="HIST ", timeout=800, workers=4, env=None, heap="6g", pick=None):
    """Runs TLC on a generating specification -> (list of what it printed, stats).

    The invariants of the configuration are checked along the way; a violated one is a MachineryError."""
    extra = ["-seed", str(seed)] + (["-simulate", f"num={sim}", "-depth", str(depth)] if sim else [])
    keep = None
    if os.environ.get("VERIF_TLC_CACHE"):  # only set by tools/mutants.py, which runs the same check on many trees
        text = b"".join(f.read_bytes() for f in sorted(SPEC.iterdir()) if f.is_file())
        keep = Path(os.environ["VERIF_TLC_CACHE"]) / hashlib.md5(repr((module, cfg, extra, env)).encode() + text).hexdigest()
    if keep and keep.exists():
        out, st = pickle.loads(keep.read_bytes())
    else:
        out, st = run_tlc(module, cfg, workers=workers, extra=extra, timeout=timeout, env=env, heap=heap)
        if keep:
            keep.with_suffix(f".{os.getpid()}").write_bytes(pickle.dumps((out, dict(st))))
            keep.with_suffix(f".{os.getpid()}").rename(keep)
    got = []
    n = 0
    for line in out.splitlines():
        if line.startswith('"' + mark):
            n += 1
            if pick is None or pick(n):     # reading them takes longer than making them
                got.append(json.loads(json.loads(line)[len(mark):]))
    if not n:
        raise MachineryError(f"{module} generated nothing:\n{out[-2000:]}")
    if sim:
        m = re.findall(r"([\d,]+) states checked", out)
        st["states"] = st["distinct"] = int(m[-1].replace(",", "")) if m else len(got)
    return got, st
