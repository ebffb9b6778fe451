"""Make and try planted bugs in scratch copies of /repo.

  seed.py make DEFS.py      write seeded/<id>/ from the definitions (SEEDS list)
  seed.py try ID [ID...]    tests, demo with and without, checks; prints a table row each
"""
import json, os, shutil, subprocess, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/sh
exec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def make(defs):
    ns = {}
    exec(Path(defs).read_text(), ns)
    for s in ns["SEEDS"]:
        d = V / "seeded" / s["id"]
        d.mkdir(parents=True, exist_ok=True)
        t = Path(f"/tmp/seedmk_{s['id']}")
        if t.exists():
            shutil.rmtree(t)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
        subprocess.run(["git", "clone", "-q", "--shared", "/repo", str(t)], check=True)
        for f, old, new in s["edits"]:
            p = t / f
            x = p.read_text()
            assert x.count(old) == 1, (s["id"], f, x.count(old), old)
            p.write_text(x.replace(old, new))
        diff = subprocess.run(["git", "-C", str(t), "diff"], capture_output=True, text=True, check=True).stdout
        (d / "patch.diff").write_text(diff)
        shutil.rmtree(t)
        (d / "demo.sh").write_text(s.get("sh", DEMO))
        if "demo" in s:
            (d / "demo.py").write_text(s["demo"])
        for name, text in s.get("files", {}).items():
            (d / name).write_text(text)
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        print("made", s["id"])


def copy(t):
    if t.exists():
        shutil.rmtree(t)
    subprocess.run(["cp", "-a", "/repo", str(t)], check=True)


def run(cmd, cwd, timeout=400, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as err:
        return 124, str(err.stdout)[-2000:]


def try_(ids, tests=True, checks=True):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    # these need a wheel newer than the sources, which only /opt/vp/test.sh makes
    stable -= {f"tests.test_asgi.test_pyscript::{x}" for x in ("test_customized_noscript_vdom", "test_prepend_body_default_is_noscript", "test_prepend_body_disabled")}
    for i in ids:
        d = V / "seeded" / i
        meta = json.loads((d / "meta.json").read_text())
        t = Path(f"/tmp/seedtry_{i}")
        copy(t)
        try:
            demo = Path(f"/tmp/seeddemo_{i}")
            if demo.exists():
                shutil.rmtree(demo)
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            r0, o0 = run(["sh", str(demo / "demo.sh")], t)
            a, o = run(["git", "apply", str(d / "patch.diff")], t)
            assert a == 0, o
            r1, o1 = run(["sh", str(demo / "demo.sh")], t)
            shutil.rmtree(demo)
            res = [f"demo {r0}->{r1}" + ("" if r0 == 0 and r1 else " BAD\n" + (o0 if r0 else o1)[-1500:])]
            if tests:
                rc, out = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-x", "--continue-on-collection-errors",
                               "--deselect", "tests/none", f"--junitxml=/tmp/seedtry_{i}.xml", "--maxfail=1000", "tests", "--ignore=tests/test_build_py_wheel.py"], t, timeout=600,
                              env={"PYTHONPATH": str(t / "src")})
                import xml.etree.ElementTree as ET
                bad = []
                x = Path(f"/tmp/seedtry_{i}.xml")
                for c in ET.parse(x).iter("testcase"):
                    n = f"{c.get('classname')}::{c.get('name')}"
                    if n in stable and (c.find("failure") is not None or c.find("error") is not None or c.find("skipped") is not None):
                        bad.append(n)
                x.unlink()
                res.append(f"tests {'ok' if not bad else 'FAIL ' + str(bad[:6])}")
            if checks:
                rc, out = run(["bin/check", meta["property"], "--tier=quick", "--seed=1"], V, timeout=900, env={"VERIF_REPO": str(t)})
                v = [x for x in out.splitlines() if x.startswith("VIOLATION") or x.startswith("  ")][:2]
                res.append(f"check {meta['property']} rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {' '.join(v)[:300]}" + ("" if rc in (0, 1) else out[-1500:]))
            print(i, "|", " | ".join(res), flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        flags = [a for a in sys.argv[2:] if a.startswith("--")]
        ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(p.name for p in (V / "seeded").iterdir())
        try_(ids, "--notests" not in flags, "--nochecks" not in flags)
