"""Small changes of the code, one at a time: which pass the repository's tests, and which of those do the checks see?

  mutants.py list FILE [FILE...]                 count them
  mutants.py tests OUT FILE [FILE...]            those that pass the stable tests, to OUT (one JSON line each)
  mutants.py all OUT FILE [FILE...]              all of them
  mutants.py checks OUT auto|CHECK,CHECK... [N]       run the checks on each of them until one reports a violation, N at a time;
                                                 writes OUT.seen

Works on scratch copies below /tmp/mut; nothing in /repo is touched.
"""
import ast, hashlib, json, os, random, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

PY, TOP, REPO = "/opt/venv/bin/python", Path("/tmp/mut"), Path("/repo")
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}


def mutants(path):
    if path.suffix != ".py":
        lines = subprocess.run(["node", str(Path(__file__).with_suffix(".mjs")), str(path)], capture_output=True, text=True, check=True).stdout
        return [json.loads(l) for l in lines.splitlines()]
    source = (REPO / path).read_text()
    tree = ast.parse(source)
    data = source.encode()
    starts = [0]
    for line in data.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def put(n, text, why, outer=None):
        a, b = pos(n)
        new = data[:a] + text.encode() + data[b:]
        try:
            ast.parse(new)
        except SyntaxError:
            return
        out.append(dict(file=str(path), line=n.lineno, why=why, old=data[a:b].decode(), new=text, a=a, b=b))

    src = lambda n: data[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "TYPE_CHECKING" in src(n.test):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation:
            skip.update(map(id, ast.walk(n.annotation)))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.returns:
                skip.update(map(id, ast.walk(n.returns)))
            if any("overload" in src(d) for d in n.decorator_list) or n.name == "__repr__":
                skip.update(map(id, ast.walk(n)))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f"{src(n.left)} {SWAP[type(n.ops[0])]} {src(n.comparators[0])}", "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, op.join(f"({src(v)})" for v in n.values), "and/or")
            for i in range(len(n.values)):
                rest = [f"({src(v)})" for j, v in enumerate(n.values) if j != i]
                put(n, (" or " if isinstance(n.op, ast.Or) else " and ").join(rest), f"drop operand {i}")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({src(n.operand)})", "drop not")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for t in ("True", "False", f"not ({src(n.test)})"):
                if not (isinstance(n, ast.While) and t == "True"):
                    put(n.test, t, "condition")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                put(n, str(not n.value), "constant")
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), "constant")
                put(n, str(n.value - 1), "constant")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    a, b = pos(k)
                    e = b
                    while data[e : e + 1] in (b" ", b"\n"):
                        e += 1
                    if data[e : e + 1] == b",":
                        k2 = k
                        new = data[:a] + data[e + 1 :]
                        try:
                            ast.parse(new)
                            out.append(dict(file=str(path), line=k.lineno, why="drop keyword", old=src(k), new="", a=a, b=e + 1))
                        except SyntaxError:
                            pass
            if len(n.args) == 2 and not n.keywords:
                put(n, f"{src(n.func)}({src(n.args[1])}, {src(n.args[0])})", "swap arguments")
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
                put(n, f"({src(n.args[0])})", "drop call")
        if isinstance(n, ast.Await) and False:
            pass
        for field in ("body", "orelse", "finalbody"):
            for s in getattr(n, field, []) if isinstance(getattr(n, field, None), list) else []:
                if id(s) in skip:
                    continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(n, (ast.Module, ast.ClassDef)) and not isinstance(s, (ast.Expr, ast.If)):
                    continue
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break, ast.Assert)):
                    put(s, "pass", "drop statement")
                if isinstance(s, ast.Assign):
                    put(s, "pass", "drop assignment")
                if isinstance(s, ast.Return) and s.value is not None:
                    put(s, "return None", "return None")
                if isinstance(s, ast.Return):
                    put(s, "pass" if s.value is None else src(s.value), "don't return")
                if isinstance(s, (ast.Continue,)):
                    put(s, "break", "break")
                if isinstance(s, (ast.Break,)):
                    put(s, "continue", "continue")
                if isinstance(s, (ast.For, ast.AsyncFor, ast.With, ast.AsyncWith, ast.If)) and isinstance(s, (ast.For, ast.AsyncFor)):
                    put(s, "pass", "drop loop")
                    put(s.iter, f"list({src(s.iter)})[:-1]", "all but the last")
                    put(s.iter, f"reversed(list({src(s.iter)}))", "reversed")
        if isinstance(n, ast.Try) and n.handlers:
            for h in n.handlers:
                if len(h.body):
                    put(h.body[0], "raise" if len(h.body) == 1 else "raise", "raise on")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, f"{src(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {src(n.right)}", "+/-")
    seen, uniq = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k not in seen and m["old"] != m["new"]:
            seen.add(k)
            m["id"] = hashlib.md5(f"{m['file']}{m['a']}{m['b']}{m['new']}".encode()).hexdigest()[:8]
            uniq.append(m)
    return uniq


PLUGIN = '''
import json
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def pytest_collection_modifyitems(config, items):
    keep = []
    for i in items:
        name = i.nodeid.split("::")[0][:-3].replace("/", ".") + "::" + "::".join(i.nodeid.split("::")[1:])
        if name in STABLE: keep.append(i)
    items[:] = keep
'''


def apply(m, root):
    data = (REPO / m["file"]).read_bytes()
    (root / m["file"]).write_bytes(data[: m["a"]] + full(m) + data[m["b"] :])
    later = time.time() + 1e6  # newer than the source, or pages with PyScript would try to build it again
    for wheel in [*root.glob("dist/*.whl"), *root.glob("src/reactpy/static/wheels/*.whl")]:
        os.utime(wheel, (later, later))


def full(m):
    return m["new"].encode()


def worker_dirs(n, name="w"):
    TOP.mkdir(exist_ok=True)
    (TOP / "vpstable.py").write_text(PLUGIN)
    q = Queue()
    for i in range(n):
        d = TOP / f"{name}{i}"
        if d.exists():
            shutil.rmtree(d)
        subprocess.run(["cp", "-a", str(REPO), str(d)], check=True)
        q.put(d)
    return q


def sh(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 124, ""


JS = "src/js/packages/@reactpy/client/src/"
CHECKS = {
    JS + "websocket.ts": "C24,C33", JS + "client.ts": "C24,C28,C25,C27", JS + "mount.tsx": "C24,C33", JS + "bind.tsx": "C28", JS + "handler.ts": "C25,C27",
    JS + "vdom.tsx": "C25,C28,C27", JS + "components.tsx": "C26,C25,C28,C27", "src/js/packages/event-to-object": "C31",
    "src/reactpy/_option.py": "C22", "src/reactpy/config.py": "C22,C24", "src/reactpy/transforms.py": "C17", "src/reactpy/utils.py": "C17,C21,C20,C19", "src/reactpy/_html.py": "C16,C17,C27",
    "src/reactpy/reactjs": "C23,C28", "src/reactpy/web": "C23", "src/reactpy/core/_event_inspect.py": "C15", "src/reactpy/core/events.py": "C14,C15,C10,C25",
    "src/reactpy/core/vdom.py": "C16,C13,C27,C14", "src/reactpy/types.py": "C16,C14", "src/reactpy/executors/asgi": "C20,C21,C19", "src/reactpy/executors/utils.py": "C21,C33,C20,C29",
    "src/reactpy/executors/pyscript": "C29,C30,C21", "src/reactpy/templatetags": "C29,C33", "src/reactpy/_console": "C32", "src/reactpy/core/serve.py": "C18,C19",
    "src/reactpy/core": "C03,C01,C04,C12,C08,C09,C05,C06,C02,C07,C10,C11,C13,C27", "src/reactpy/widgets.py": "C27",
}


def checks_for(m):
    return max((p for p in CHECKS if m["file"].startswith(p)), key=len)


TESTS = {"src/reactpy/core": ["tests/test_core", "tests/test_html.py", "tests/test_utils.py", "tests/test_testing.py"]}


def main():
    what = sys.argv[1]
    if what == "list":
        for f in sys.argv[2:]:
            print(f, len(mutants(Path(f))))
        return
    out, jobs = Path(sys.argv[2]), int(os.environ.get("JOBS", 8))
    if what == "all":  # without running the tests (of TypeScript, there are none)
        step = int(os.environ.get("STEP", 1))
        out.write_text("".join(json.dumps(m) + "\n" for f in sys.argv[3:] for m in mutants(Path(f))[::step]))
        return
    if what == "tests":
        all_ = [m for f in sys.argv[3:] for m in collect(f)]
        dirs = worker_dirs(jobs)
        res = out.open("a")
        done = 0

        def one(m):
            nonlocal done
            d = dirs.get()
            try:
                apply(m, d)
                env = dict(os.environ, PYTHONPATH=f"{d}/src:{TOP}", PYTHONDONTWRITEBYTECODE="1", TMPDIR=str(TOP))
                first = next((t for p, t in TESTS.items() if m["file"].startswith(p)), None)
                rc = 0
                for tests in ([first] if first else []) + [["tests"]]:
                    rc, o = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vpstable", "--timeout=30", "--tb=no", f"--basetemp={TOP}/t{d.name}", *tests], d, env, 240)
                    if rc:
                        break
            finally:
                (d / m["file"]).write_bytes((REPO / m["file"]).read_bytes())
                dirs.put(d)
            done += 1
            if rc == 0:
                res.write(json.dumps(m) + "\n")
                res.flush()
            if done % 20 == 0:
                print(done, "of", len(all_), flush=True)

        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, all_))
        return
    checks, n = sys.argv[3].split(","), int(sys.argv[4]) if len(sys.argv) > 4 else 2
    ms = [json.loads(l) for l in out.read_text().splitlines()]
    seenfile = Path(str(out) + ".seen")
    have = {json.loads(l)["id"] for l in seenfile.read_text().splitlines()} if seenfile.exists() else set()
    (TOP / "tlc").mkdir(parents=True, exist_ok=True)
    dirs = worker_dirs(n, "c" + out.stem)
    res = seenfile.open("a")

    def two(m):
        d = dirs.get()
        try:
            apply(m, d)
            got = None
            for c in checks if checks != ["auto"] else m["checks"].split(",") if "checks" in m else CHECKS[checks_for(m)].split(","):
                rc, o = sh(["bin/check", c] if c != "all" else [PY, "-X", "utf8", "tools/layout_all.py"], str(Path(__file__).resolve().parent.parent), dict(os.environ, VERIF_REPO=str(d), VERIF_OUT=str(TOP / f"out{d.name}"), VERIF_SEED="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_TLC_CACHE=str(TOP / "tlc")), 900)
                if rc:
                    got = (c, rc, o[-300:])
                    break
        finally:
            (d / m["file"]).write_bytes((REPO / m["file"]).read_bytes())
            dirs.put(d)
        res.write(json.dumps(dict(m, got=got)) + "\n")
        res.flush()
        print(m["file"], m["line"], m["why"], repr(m["old"][:60]), "->", repr(m["new"][:60]), "|", got and got[:2], flush=True)

    with ThreadPoolExecutor(n) as ex:
        list(ex.map(two, [m for m in ms if m["id"] not in have]))


def collect(f):
    return mutants(Path(f))


if __name__ == "__main__":
    main()
