"""C29: PyScript components against spec/Script.tla."""
from __future__ import annotations

import ast
import asyncio
import json
import logging
import random
import re
import shutil
import sys
import tempfile
import types
from html import unescape
from pathlib import Path

import tlc
from checks.asgi_http import Conn, no_wheel

# what the pieces of texts look like in a file, and what they are
ESCAPES = {"enl": ("\\n", "\n"), "etab": ("\\t", "\t"), "bs": ("\\\\", "\\"), "cont": ("\\\n", "")}
SAME = {"a": "a", "hash": "#", "comment": " # no comment", "uuid": "UUID", "ret": "return root()", "slot": "    def root(): ...", "def": "def root():",
        "close": "</script>", "CLOSE": "</SCRIPT >", "remark": "<!--", "open": "<script>", "amp": "&amp;&lt;", "uni": "é\u20ac", "tab": "\t",
        "spaces": "  ", "q1": "'", "q2": '"', "ddd": '"""', "sss": "'''", "doc": '"""doc"""',
        "nl": "\n", "nl2": "\n\n\n", "trail": "  \n", "nltab": "\n\t", "nlslot": "\n    def root(): ...\n", "nlcomment": "\n# no comment\n",
        "nldoc": '\n    """doc"""\n'}
MARKS = {"1": "'", "2": '"', "111": "'''", "222": '"""'}
PRELUDE = '''from reactpy import component, html
import asyncio


def run(coroutine):
    try:
        coroutine.send(None)
    except StopIteration as done:
        return done.value

'''


def text_of(lit):
    q = MARKS[lit["quote"]]

    def piece(p):
        if p in ESCAPES:
            return ESCAPES[p][0]
        if p == "equote":
            return "\\" + q[0]
        if p == "brace":
            return "{{}}" if lit["prefix"] == "f" else "{}"
        return SAME[p]
    return lit["prefix"] + q + "".join(map(piece, lit["ps"])) + q


def value_of(v):
    def piece(p):
        if p.startswith("raw "):
            return ESCAPES[p[4:]][0]
        return ESCAPES[p][1] if p in ESCAPES else "{}" if p == "brace" else SAME[p]
    s = "".join(map(piece, v["ps"]))
    return s.encode() if v["bytes"] else s


def want_of(env):
    def value(v):
        return None if "none" in v else [value_of(i) for i in v["items"]]
    return {x: value(v) for x, v in (env or {}).items()}


def has_value(stmts):
    return any(s["k"] in ("let", "list", "cat", "fmt", "def", "class") or (s["k"] == "for" or (s["k"] == "if" and s["how"] == "then"))
               and has_value(s["body"]) for s in stmts)


def emit(s, step, at, top):
    """-> the lines of a statement (lines within texts are left alone)"""
    k, x, how = s["k"], s["x"], s["how"]
    ls = [x["of"] if "of" in x else text_of(x) for x in s["ls"]]
    i, deeper = at, at + step

    def suite(stmts, doc=(), end=()):
        out = [deeper + d for d in doc]
        for b in stmts:
            out += emit(b, step, deeper, False)
        out += [deeper + e for e in end]
        if not any(b["k"] not in ("comment", "blank") for b in stmts) and not doc and not end:
            out.append(deeper + "pass")
        return out

    if k == "let":
        v = ls[0]
        return {"plain": [f"{i}{x} = [{v}]"], "paren": [f"{i}{x} = ([{v}])"], "next": [f"{i}{x} = [", f"{deeper}{v}", f"{i}]"],
                "trailing": [f"{i}{x} = [{v}]  # it's a \"trailing\"\"\" comment"], "semi": [f"{i}{x} = [{v}]; y = '#'; z = 2"],
                "continued": [f"{i}{x} = \\", f"{deeper}[{v}]"], "annotated": [f"{i}{x}: 'list' = [{v}]"]}[how]
    if k == "list":
        a, b = ls
        return {"line": [f"{i}{x} = [{a}, {b}]"], "lines": [f"{i}{x} = [", f"{deeper}{a},", f"{deeper}{b}", f"{i}]"],
                "comments": [f"{i}{x} = [  # \"\"\"", f"{deeper}# it's a comment", f"{deeper}{a},  # '''", f"{deeper}{b},", "# \"", f"{i}]"],
                "blanks": [f"{i}{x} = [", "", f"{deeper}{a},", "   ", f"{deeper}{b},", f"{i}]"],
                "closing": [f"{i}{x} = [{a},", b, "]"]}[how]
    if k == "cat":
        a, b = ls
        return {"adjacent": [f"{i}{x} = [{a} {b}]"], "plus": [f"{i}{x} = [", f"{deeper}{a}", f"{deeper}+ {b}", f"{i}]"],
                "continued": [f"{i}{x} = [{a} \\", f"{b}]"]}[how]
    if k == "copy":
        return [f"{i}{x} = {ls[0]}"]
    if k == "again":
        return [f"{i}{ls[0]} = [{ls[1]}]"]
    if k == "fmt":
        q = MARKS[s["ls"][0]["quote"]]
        return [f"{i}v = {ls[1]}", f"{i}{x} = [{ls[0][:-len(q)]}{{v}}{q}]"]
    if k in ("def", "class"):
        gives = has_value(s["body"])
        if k == "class":
            return [f"{i}class C{x}:", *suite(s["body"], ls), f"{i}{x} = getattr(C{x}, 'x', None)"]
        end = ['return locals().get("x")'] if gives else []
        if how == "line" and not s["body"]:
            return [f"{i}def f{x}(): {ls[0] if ls else '...'}", f"{i}{x} = f{x}()"]
        head = {"async": f"async def f{x}():", "typed": f"def f{x}(a: int = 1, *, b: 'str' = '#') -> 'str':"}.get(how, f"def f{x}():")
        call = f"run(f{x}())" if how == "async" else f"f{x}()"
        return [i + head, *suite(s["body"], ls, end), f"{i}{x} = {call}"]
    if k == "if":
        return [f"{i}if {'True' if how == 'then' else 'False'}:", *suite(s["body"]), f"{i}else:", f"{deeper}pass"]
    if k == "for":
        return [f"{i}for n in (1, 2):", *suite(s["body"])]
    if k == "comment":
        return {"own": [i + "# it's a \"\"\" comment"], "indented": ["      # strange"], "empty": ["#"], "many": [i + "# one", "# two", i + "#"]}[how]
    if k == "blank":
        return {"none": [""], "spaces": ["   "], "many": ["", "", ""], "formfeed": ["\f"]}[how]
    return [i + ls[0]]


def files_of(h):
    c = h["cfg"]
    step = {"4": "    ", "2": "  ", "tab": "\t"}[c["indent"]]
    files = [[]]
    for n, s in enumerate(h["prog"], 1):
        files[-1] += emit(s, step, "", True)
        if n in h["breaks"] and n < len(h["prog"]):
            files.append([])
    names = ", ".join(f"{x!r}: {x}" for x in h["env"] or {})
    root = ["@component", f"def {c['root']}(){' -> html' if c['style'] == 'typed' else ''}:"]
    if c["style"] == "docstring":
        root.append(step + '"""The root\n\n\t# component."""')
    root += [f"{step}return html.pre(ascii({{{names}}}))"]
    if len(h["prog"]) % 2:
        files[-1] += root
    else:
        files[0] = root + files[0]
    end = {"newline": "\n", "none": "", "comment": "\n# the \"end\"", "blank": "\n\n   \n"}[c["end"]]
    out = ["\n".join(lines) + end for lines in files]
    out[0] = PRELUDE + out[0]
    return out


# ---- what a browser makes of the page ----
def scripts(text):
    """the script elements of an HTML text, and the rest of it (https://html.spec.whatwg.org, script data states)"""
    found, rest, i = [], "", 0
    start = re.compile(r"<script((?:\s+[^\s=>]+(?:=(?:\"[^\"]*\"|'[^']*'|[^\s>]*))?)*)\s*>", re.I)
    while True:
        m = start.search(text, i)
        if not m:
            return found, rest + text[i:]
        rest += text[i:m.start()] + f"<script{len(found)}/>"
        attributes = {k.lower(): unescape(a or b or c) for k, a, b, c in
                      re.findall(r"([^\s=>]+)(?:=(?:\"([^\"]*)\"|'([^']*)'|([^\s>]*)))?", m.group(1))}
        j, state = m.end(), "data"
        while True:
            t = re.compile(r"<!--|-->|<(/?)script(?=[\t\n\f />])", re.I).search(text, j)
            if not t:
                found.append((attributes, text[m.end():]))
                return found, rest
            j = t.end()
            tok = t.group(0).lower()
            if tok == "<!--" and state == "data":
                state = "escaped"
                if text[j:j + 1] == ">" or text[j:j + 2] == "->":
                    state = "data"
            elif tok == "-->":
                state = "data"
            elif tok == "<script" and state == "escaped":
                state = "double"
            elif tok == "</script" and state == "double":
                state = "escaped"
            elif tok == "</script":
                break
        found.append((attributes, text[m.end():t.start()]))
        i = text.index(">", t.start()) + 1


class Run:
    """The interpreter of a page: scripts are run one after another in the same globals."""

    def __init__(self):
        self.started = started = []

        class Handler:
            def __init__(self, uuid):
                self.uuid = uuid

            async def run(self, workspace):
                started.append((self.uuid, workspace))

        self.fake = types.ModuleType("reactpy.executors.pyscript.layout_handler")
        self.fake.ReactPyLayoutHandler = Handler

    async def scripts(self, codes):
        name = self.fake.__name__
        before = sys.modules.get(name)
        sys.modules[name] = self.fake
        ns = {"__name__": "__main__"}
        try:
            for code in codes:
                exec(compile(code, "script", "exec"), ns)      # noqa: S102
            for _ in range(3):
                await asyncio.sleep(0)
        finally:
            if before is None:
                del sys.modules[name]
            else:
                sys.modules[name] = before
        return [(uuid, ast.literal_eval(w().render()["children"][0])) for uuid, w in self.started]


PY = {"plain": "orjson==3", "apos": "https://x/it's-1.whl", "amp": "a&amp;b"}
JS = {"plain": ("/x.js", "x"), "apos": ("/it's.js?a=1&amp=2", "it_s")}
MORE = {"apos": ("name", "it's &quot;"), "cache": ("packages_cache", "always")}


def setup_values(u):
    py, js, more = [PY[p] for p in sorted(u["py"])], dict(JS[p] for p in u["js"]), dict(MORE[p] for p in u["more"])
    return (py, js, more) if u["form"] == "values" else (py, json.dumps(js), json.dumps(more))


def setup_problem(text, want):
    found, _ = scripts(text)
    mine = [(at, code) for at, code in found if at.get("type") == "py" and "config" in at]
    if len(mine) != 1:
        return f"{len(mine)} setups of PyScript"
    at, code = mine[0]
    c = json.loads(at["config"])
    packages = {p for p in c.pop("packages") if not (p.endswith("none-any.whl") or p.startswith("jsonpointer"))}
    if packages != {PY[p] for p in want["packages"] if p in PY}:
        return f"packages {packages} instead of {want['packages']}"
    modules = {u: n for u, n in c.pop("js_modules")["main"].items() if n != "morphdom"}
    if modules != dict(JS[p] for p in want["modules"] if p in JS):
        return f"modules {modules} instead of {want['modules']}"
    more = dict(MORE[p] for p in want["more"])
    if {k: v for k, v in c.items() if k != "packages_cache" or k in more} != more:
        return f"settings {c} instead of {more}"
    compile(code, "setup", "exec")
    return None


async def page(cfg, paths, initial, want):
    """-> [(uuid of the element, class, content)], scripts"""
    py, js, more = setup_values(cfg["setup"])
    from reactpy.core.layout import Layout
    route = cfg["route"]
    if route == "component":
        from reactpy import component, html, reactpy_to_string
        from reactpy.executors.pyscript.components import pyscript_component

        @component
        def around():
            return html.div(pyscript_component(*paths, initial=initial, root=cfg["root"]))

        async with Layout(around()) as layout:
            model = {}
            for _ in range(2):
                update = await asyncio.wait_for(layout.render(), 10)
                at = model
                if not update["path"]:
                    model = update["model"]
                else:
                    *way, last = update["path"].strip("/").split("/")
                    for p in way:
                        at = at[int(p)] if isinstance(at, list) else at[p]
                    at[int(last) if isinstance(at, list) else last] = update["model"]
        model = json.loads(json.dumps(model))
        found = []

        def walk(m):
            if isinstance(m, dict):
                if m["tagName"] in ("div", "script") and m.get("attributes", {}).keys() - {"key"}:
                    found.append(m)
                    return
                for c in m.get("children", []):
                    walk(c)
        walk(model)
        divs = [(m["attributes"]["data-uuid"], m["attributes"]["id"], m["attributes"]["className"], reactpy_to_string(dict(m, tagName="", attributes={})))
                for m in found if m["tagName"] == "div"]
        codes = [("".join(m.get("children", []))) for m in found if m["tagName"] == "script" and m["attributes"]["type"] == "py"]
        return divs, codes
    if route == "tag":
        import jinja2
        env = jinja2.Environment(extensions=["reactpy.templatetags.ReactPyJinja"], autoescape=True)
        call = "{% pyscript_component " + ", ".join(f'"{p}"' for p in paths) + f", initial='{initial}', root='{cfg['root']}' %}}"
        values = {f"py{i}": p for i, p in enumerate(py)}
        head = env.from_string("{% pyscript_setup " + "".join(f"{p}, " for p in values) + "extra_js=js, config=more %}").render(js=js, more=more, **values)
        bad = setup_problem(head, want)
        if bad:
            return bad, []
        text = env.from_string(f"<main>{call}<hr>{call}</main>").render()
    else:
        from reactpy.executors.asgi.pyscript import ReactPyCsr
        app = ReactPyCsr(*paths, initial=initial, root_name=cfg["root"], extra_py=py, extra_js=js, pyscript_config=more)
        c = Conn("http", "/")
        await app(c.scope, c.receive, c.send)
        text = c.body.decode()
        bad = setup_problem(text[:text.index("<body>")], want)
        if bad:
            return bad, []
        text = text[text.index("<body>"):]
    found, rest = scripts(text)
    divs = re.findall(r'<div id="pyscript-([^"]*)" class="([^"]*)" data-uuid="([^"]*)">(.*?)</div>', rest)
    return [(u, f"pyscript-{i}", c, x) for i, c, u, x in divs], [code for at, code in found if at.get("type") == "py"]


async def try_case(h, paths, sources):
    want = want_of(h["env"])
    direct = {}
    exec(compile("\n".join(sources), "files", "exec"), direct)      # noqa: S102
    if ast.literal_eval(direct[h["cfg"]["root"]]().render()["children"][0]) != want:
        raise tlc.MachineryError(f"the files don't mean what the specification says: {sources}")
    initial = ["", "<b>wait</b>"][len(h["prog"]) % 2]
    divs, codes = await page(h["cfg"], paths, initial, h["want"])
    if isinstance(divs, str):
        return divs
    n = 2 if h["cfg"]["route"] == "tag" else 1
    if len(divs) != n or len(codes) != n:
        return f"{len(divs)} elements with {len(codes)} scripts instead of {n}"
    for u, i, c, x in divs:
        if i != f"pyscript-{u}" or c != "pyscript" or x != initial:
            return f"the place of the component is {i}, {c}, {u}, {x!r}"
    try:
        got = await Run().scripts(codes)
    except Exception as e:      # noqa: BLE001
        return f"the script fails: {type(e).__name__}: {e}"
    if [u for u, _ in got] != [d[0] for d in divs] or len({u for u, _ in got}) != n:
        return f"the scripts are for {[u for u, _ in got]} instead of {[d[0] for d in divs]}"
    for _, values in got:
        if values != want:
            bad = [x for x in want if values.get(x, 0) != want[x]] or [x for x in values if x not in want]
            return f"{bad[0]} is {values.get(bad[0])!r} instead of {want.get(bad[0])!r}"
    return None


def run(ctx):
    logging.disable(logging.CRITICAL)
    no_wheel()
    cases, st = tlc.generate("ScriptGen", seed=ctx.seed)
    ctx.tlc(st)
    if ctx.quick:
        cases = random.Random(ctx.seed).sample(cases, 4000)
    walks, st = tlc.generate("ScriptGen", "ScriptSim.cfg", sim=60 if ctx.quick else 2500, depth=20, seed=ctx.seed)
    ctx.tlc(st)
    scratch = Path(tempfile.mkdtemp(prefix="verif_c29_"))

    async def main():
        for n, h in enumerate(cases + walks):
            sources = files_of(h)
            paths = []
            for i, s in enumerate(sources):
                f = scratch / f"c{n}_{i}.py"
                f.write_text(s, encoding="utf-8")
                paths.append(str(f))
            try:
                bad = await try_case(h, paths, sources)
            except tlc.MachineryError:
                raise
            except Exception as e:      # noqa: BLE001
                bad = f"{type(e).__name__}: {e}"
            for f in paths:
                Path(f).unlink()
            ctx.add(traces_validated_against_impl=1)
            if bad:
                key = "C29@" + ",".join(s["k"] + ":" + s["how"] + ":" + "|".join(x.get("of") or x["prefix"] + x["quote"] + "".join(x["ps"]) for x in s["ls"]) for s in h["prog"]).replace(" ", "_")
                ctx.violation(key[:200], bad, dict(kind="script", case=h, files=sources))
                if len(ctx.violations) > 8:
                    return
    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(scratch)
    for h in walks[:2]:
        ctx.sample(dict(files=files_of(h), config=h["cfg"]))


CHECKS = {"C29": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of what Python files with texts, comments, docstrings and blocks mean (Script); TLC enumerates every statement with every text of up to two pieces and walks through programs of several files; the script a browser finds in the real page, template or component is executed and its values compared",
    note="Exhaustive for single statements (sampled in the quick tier); random for programs. Pieces stand for everything that could be taken for comments, docstrings, ends of scripts or placeholders. Trusts Python's own execution, the reading of script elements (written from the HTML standard) and TLC.",
)}
