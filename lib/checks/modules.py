"""C23: publishing JavaScript modules (spec/Modules.tla) and the names they export (spec/Exports.tla)."""
from __future__ import annotations

import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
from pathlib import Path

import tlc

FILLER = "/* \u00e9\u4e16 " + "0123456789abcdef" * 2000 + " */\n"


def content(v):
    """the module of version v: complete only with its last line; all of the same size"""
    return f"{FILLER}\n// version {v}\nexport function Both() {{}}\nexport function Only{v}() {{}}\n// end {v}\n"


CONTENT = {content(v).encode(): v for v in (1, 2, 3)}


def version(path):
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return 0
    return CONTENT.get(data, f"{len(data)} bytes of something else")


class Watch:
    """Looks at the directory at every line of Python that is executed, the way another process could"""

    def __init__(self, top, files, change=None):
        self.top, self.files, self.change = top, files, change
        self.seen = {n: [version(f)] for n, f in files.items()}
        self.changes, self.stamp, self.stats = 0, self.look(), {}

    def look(self):
        out = []
        for d, _, fs in os.walk(self.top):
            for f in fs:
                try:
                    s = os.lstat(os.path.join(d, f))
                    out.append((d, f, s.st_ino, s.st_size, s.st_mtime_ns))
                except OSError:
                    pass
        return sorted(out)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename == __file__:
            return None
        if event in ("line", "return"):
            self.check()
        return self.trace

    def check(self):
        now = self.look()
        if now == self.stamp:
            return
        self.stamp = now
        for n, f in self.files.items():
            v = version(f)
            if v != self.seen[n][-1]:
                self.seen[n].append(v)
        self.changes += 1
        if self.change:
            sys.settrace(None)
            self.change(self.changes)
            sys.settrace(self.trace)

    def __enter__(self):
        sys.settrace(self.trace)
        return self

    def __exit__(self, *_):
        sys.settrace(None)
        self.check()


class Clock:
    """time passes only as far as it is waited for"""

    def __enter__(self):
        self.saved = time.time, time.monotonic, time.sleep
        t, m, _ = self.saved
        self.off = 0

        def sleep(s):
            self.off += max(s, 1.5)     # asked for or not
        time.time, time.monotonic, time.sleep = (lambda: t() + self.off), (lambda: m() + self.off), sleep

    def __exit__(self, *_):
        time.time, time.monotonic, time.sleep = self.saved


def in_child(f):
    """-> pid of a process that does it"""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            sys.settrace(None)
            f()
            code = 0
        except BaseException:   # noqa: BLE001
            pass
        finally:
            os._exit(code)
    return pid


def published(directory, name):
    return os.path.join(directory, *f"{name}.js".split("/"))


def act(op, src, directory):
    """-> (result, element)"""
    import reactpy.reactjs as r
    from reactpy.reactjs.module import file_to_module, module_to_vdom, string_to_module
    v = op["v"] if op["op"] == "string" else version(src[op["f"]])
    name = {"Both": "Both", "Own": f"Only{v}", "Other": f"Only{v % 3 + 1}"}[op["want"]]
    fb = (None, "loading", {"tagName": "p", "children": ["wait"]})[op["fb"]]
    common = dict(resolve_imports=op["resolve"], unmount_before_update=op["unmount"])
    try:
        if op["op"] == "string":
            if op["via"] == "component":
                make = r.component_from_string(content(op["v"]), name, name=op["name"], fallback=fb, **common)
            else:
                make = module_to_vdom(string_to_module(op["name"], content(op["v"]), fallback=fb, **common), name)
        elif op["via"] == "component":
            make = r.component_from_file(src[op["f"]], [name], name=op["name"], fallback=fb, symlink=op["link"], **common)[0]
        else:
            make = module_to_vdom(file_to_module(op["name"], src[op["f"]], fallback=fb, symlink=op["link"], **common), name)
    except FileNotFoundError:
        return "missing", None
    except ValueError as e:
        return ("refused" if name in str(e) else repr(e)), None
    el = dict(make({"x": 1}, "child"))
    want = {"tagName": name, "attributes": {"x": 1}, "children": ["child"],
            "importSource": {"source": f"{op['name']}.js", "sourceType": "NAME", "fallback": fb, "unmountBeforeUpdate": op["unmount"]}}
    return ("ok" if el == want else f"element {el} instead of {want}"), el


def replay(hist, scratch):
    import reactpy.reactjs as r
    from reactpy.config import REACTPY_WEB_MODULES_DIR
    top = Path(tempfile.mkdtemp(prefix="h", dir=scratch))
    directory, src = str(top / "published"), {f: top / f"{f}.js" for f in ("f1", "f2")}
    os.mkdir(directory)
    for i, f in enumerate(src.values()):
        f.write_bytes(content(i + 1).encode())
        os.utime(f, (1.6e9, 1.6e9))
    saved = REACTPY_WEB_MODULES_DIR.current
    REACTPY_WEB_MODULES_DIR.current = Path(directory)
    for c in (r._URL_JS_MODULE_CACHE, r._FILE_JS_MODULE_CACHE, r._STRING_JS_MODULE_CACHE):
        c.clear()
    try:
        for i, h in enumerate(hist):
            op, want = h["op"], h["seen"]
            names = {n: published(directory, n) for n in want["served"]}
            before = {n: version(f) for n, f in names.items()}

            def bad(what):
                return f"{op['op']},{op.get('via')},{'crash' if op.get('crash') else ''}{'rival' if op.get('rival') else ''}", \
                    f"{what} in {op} after {[x['op'] for x in hist[:i]]}"
            if op["op"] == "edit":
                t = top / "new.js"
                if op["v"]:
                    t.write_bytes(content(op["v"]).encode())
                    os.utime(t, (1.7e9 + i, 1.7e9 + i))
                    t.replace(src[op["f"]])
                elif src[op["f"]].exists():
                    src[op["f"]].unlink()
                result, seen = "ok", {}
            elif op["op"] == "wipe":
                f = names[op["name"]]
                if os.path.lexists(f):
                    os.unlink(f)
                result, seen = "ok", {}
            else:
                clock = None
                if op["crash"]:
                    def die(n, at=op["crash"]):
                        if n == at:
                            os.kill(os.getpid(), signal.SIGKILL)

                    def doomed():
                        with Watch(directory, names, die):
                            act(op, src, directory)
                    _, status = os.waitpid(in_child(doomed), 0)
                    if status and not os.WIFSIGNALED(status):
                        return bad("a process fails")
                    for n, f in names.items():
                        if version(f) not in want["during"][n]:
                            return bad(f"{n} is {version(f)} after the process died")
                    clock = Clock()
                    clock.__enter__()
                rivals = []

                def rival(n):
                    if n == 1:
                        other = {**op, "v": op["rival"], "want": "Own"}

                        def compete():
                            if act(other, src, directory)[0] != "ok":
                                raise ValueError
                        rivals.append(in_child(compete))
                try:
                    with Watch(directory, names, rival if op["rival"] else None) as w:
                        try:
                            result, _ = act(op, src, directory)
                        except Exception as e:
                            result = f"failed: {e!r}"
                finally:
                    if clock:
                        clock.__exit__()
                seen = w.seen
                if rivals:
                    _, status = os.waitpid(rivals[0], 0)
                    if status:
                        return bad("another process that registers at the same time fails")
                    now = version(names[op["name"]])
                    if now not in (op["v"], op["rival"]):
                        return bad(f"{op['name']} is {now} after two processes registered it")
                    # the last one wins from now on
                    again, _ = act(op, src, directory)
                    if again != result:
                        return bad(f"{again} when registered again")
            if result != want["result"]:
                return bad(f"{result} instead of {want['result']}")
            for n, f in names.items():
                odd = [v for v in seen.get(n, []) if v not in want["during"][n] and not (op.get("rival") and n == op["name"] and v == op["rival"])]
                if odd:
                    return bad(f"{n} was {odd[0]} for a moment, {before[n]} before")
                if version(f) != want["served"][n]:
                    return bad(f"{n} is {version(f)} instead of {want['served'][n]}")
            if set(os.listdir(top)) - {"published", "f1.js", "f2.js"}:
                return bad(f"files {os.listdir(top)}")
        return None
    finally:
        REACTPY_WEB_MODULES_DIR.current = saved
        shutil.rmtree(top, ignore_errors=True)


# ------------------------------------------------------------------------------------- exported names
def statement(s, i):
    form, n = s["form"], sorted(s["names"])
    semi = (";", "")[i % 2] if form not in ("let", "const", "var") else ";"
    q = ("'", '"')[i % 2]
    one = n[0] if n else ""
    if form.startswith("default "):
        return {"expression": f"export default 1 + 2{semi}", "function": "export default function named(a) {\n  return a\n}",
                "class": "export default class {\n}", "as": f"export {{ local as default }}{semi}",
                "from": f"export {{ default }} from {q}./elsewhere.js{q}{semi}", "object": f"export default {{\n  a: 1\n}}{semi}"}[form[8:]]
    values = ("1", '"x, y"', "[1, 2]", "{ a: 1, b: 2 }", "f(1, 2)", "(a, b) => a", "`a, b`")
    return {
        "function": f"export function {one}(a, b) {{\n  return a;\n}}", "async function": f"export async function {one}() {{}}",
        "generator": f"export function{(' *', '* ')[i % 2]}{one}() {{}}", "class": f"export class {one} extends Object {{\n}}",
        "renamed": f"export {{ local as {one} }}{semi}", "namespace": f"export * as {one} from {q}./elsewhere.js{q}{semi}",
        "let": "export let " + ", ".join(x if (i + k) % 3 == 0 else f"{x} = {values[(i + k) % 7]}" for k, x in enumerate(n)) + semi,
        "var": "export var " + ", ".join(x if (i + k) % 3 == 0 else f"{x} = {values[(i + k) % 7]}" for k, x in enumerate(n)) + semi,
        "const": "export const " + ", ".join(f"{x} = {values[(i + k) % 7]}" for k, x in enumerate(n)) + semi,
        "list": "export { " + ", ".join(x if (i + k) % 2 else f"local{k} as {x}" for k, x in enumerate(n)) + (" }", ", }")[i % 2] + semi,
        "lines": "export {\n" + "".join(f"  {x},\n" if (i + k) % 2 else f"  local{k} as {x},\n" for k, x in enumerate(n)) + "}" + semi,
        "from": "export { " + ", ".join(x if (i + k) % 2 else f"local{k} as {x}" for k, x in enumerate(n)) + f" }} from {q}./elsewhere.js{q}{semi}",
        "destructured": "export const { " + ", ".join(n) + " } = something" + semi,
        "minified": "export{" + ",".join(x if (i + k) % 2 else f"l{k} as {x}" for k, x in enumerate(n)) + "}" + ("", f"from{q}./elsewhere.js{q}")[i // 2 % 2] + ";",
        "comment": "// export const commented = 1;", "import": f"import {{ a as b }} from {q}./elsewhere.js{q}{semi}",
        "local": "const local = 1;\nfunction exporting() {}"}[form]


HOSTS = ("https://a.example", "https://b.example")


def places(g, top, i):
    """where the modules are: (path or None, url or None)"""
    out = []
    for m, mod in enumerate(g):
        sub = ("", "sub/", "sub/deep/", "other/")[(m + i) % 4]
        if mod["at"] in ("file",):
            out.append(("file", f"{sub}m{m}.js"))
        elif mod["at"] == "url" or (mod["at"] in ("missing", "failing") and (m + i) % 2):
            out.append(("url", HOSTS[(m + i // 3) % 2] + f"/{sub}m{m}.js"))
        else:
            out.append(("file", f"{sub}m{m}.js"))
    return out


def relative(a, b):
    """from the path of a file to another: as written in JavaScript"""
    r = os.path.relpath(b, os.path.dirname(a) or ".")
    return r if r.startswith("..") else f"./{r}"


def names_of(case, i, scratch):
    import requests
    import responses
    from reactpy.reactjs.utils import resolve_names_from_file, resolve_names_from_url
    g = case["g"]
    top = Path(tempfile.mkdtemp(prefix="n", dir=scratch))
    try:
        at = places(g, top, i)
        with responses.RequestsMock(assert_all_requests_are_fired=False) as rs:
            for m, mod in enumerate(g):
                kind, where = at[m]
                parts = [statement(s, i + k + m) for k, s in enumerate(mod["own"])]
                for k, other in enumerate(mod["all"]):
                    okind, owhere = at[other - 1]
                    if kind == okind == "file":
                        ref = relative(where, owhere)
                    elif okind == "file":   # only a missing one
                        ref = f"./gone{other}.js" if g[other - 1]["at"] == "missing" else "bare-name"
                    elif kind == "url" and where.split("/")[2] == owhere.split("/")[2] and (i + k) % 3:
                        ref = relative("/".join(where.split("/")[3:]), "/".join(owhere.split("/")[3:])) if (i + k) % 3 == 1 else "/" + "/".join(owhere.split("/")[3:])
                    else:
                        ref = owhere
                    q = ("'", '"')[(i + k) % 2]
                    parts.insert((i + k) % (len(parts) + 1), f"export * from {q}{ref}{q};" if (i + k) % 4 else f"export*from{q}{ref}{q};")
                text = "\n".join(parts) + "\n"
                if kind == "file":
                    if mod["at"] == "file":
                        f = top / where
                        f.parent.mkdir(parents=True, exist_ok=True)
                        f.write_text(text, encoding="utf-8")
                elif mod["at"] == "url":
                    rs.add(responses.GET, where, body=text)
                elif mod["at"] == "missing":
                    rs.add(responses.GET, where, body="<p>not found</p>", status=404)
                else:
                    rs.add(responses.GET, where, body=(requests.exceptions.ReadTimeout(), requests.exceptions.ConnectionError(), requests.exceptions.TooManyRedirects())[i % 3])
            kind, where = at[0]
            got = resolve_names_from_file(top / where, case["depth"]) if kind == "file" else resolve_names_from_url(where, case["depth"])
            text = (top / where).read_text() if kind == "file" else ""
        if got != set(case["names"]):
            return f"names {sorted(got)} instead of {sorted(case['names'])} of {case['g'][0]} {text!r}"
        return None
    finally:
        shutil.rmtree(top, ignore_errors=True)


def one(job):
    kind, i, x, scratch = job
    logging.disable(logging.CRITICAL)
    try:
        return replay(x, scratch) if kind == "publish" else names_of(x, i, scratch)
    except Exception as e:
        return ("failed", f"failed: {e!r} for {x}") if kind == "publish" else f"failed: {e!r} for {x}"


def run(ctx):
    logging.disable(logging.CRITICAL)
    import reactpy.reactjs  # noqa: F401
    scratch = tempfile.mkdtemp(prefix="v23_")
    jobs = []
    try:
        for cfg, sim in ((None, None), ("ModulesSim.cfg", 60 if ctx.quick else 1500)):
            hists, st = tlc.generate("ModulesGen", cfg, sim=sim, depth=20, seed=ctx.seed)
            ctx.tlc(st)
            if sim is None:
                step = 8 if ctx.quick else 1
                hists = [h for k, h in enumerate(hists) if (k + ctx.seed) % step == 0]
            last = None
            for h in hists:
                if not sim or h[:-1] != last:
                    jobs.append(("publish", 0, h, scratch))
                last = h[:-1]
            ctx.sample([x["op"] for x in hists[-1]])
        cases, st = tlc.generate("ExportsGen", "ExportsGen.cfg" if ctx.quick else "ExportsGenMore.cfg", seed=ctx.seed)
        ctx.tlc(st)
        jobs += [("names", i + ctx.seed, c, scratch) for i, c in enumerate(cases)]
        with multiprocessing.get_context("fork").Pool(8) as pool:
            for job, bad in zip(jobs, pool.imap(one, jobs, 4)):
                kind, i, x, _ = job
                ctx.add(traces_validated_against_impl=1)
                if not bad:
                    continue
                if kind == "publish":
                    ctx.violation("C23@" + bad[0], bad[1], dict(kind="publish", history=x))
                else:
                    forms = sorted({s["form"] for m in x["g"] for s in m["own"]})
                    ctx.violation("C23@names:" + ",".join(forms).replace(" ", "_"), bad[:900], dict(kind="names", case=x, variant=i))
                if len(ctx.violations) > 8:
                    return
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CHECKS = {"C23": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of publishing (Modules) whose transitions and random histories, with crashes at every change of the directory and rival processes, are replayed on the real functions while the directory is watched; exported names (Exports) are computed by TLC for random graphs of modules",
    note="Three names, two source files, three contents, crash points 1 to 4; graphs of four modules of files and URLs with 20 forms of statements. A crash in the middle of a write by the operating system is not simulated. Trusts TLC and the observation of the directory after every line of Python.",
)}
