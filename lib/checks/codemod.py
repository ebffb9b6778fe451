"""C32: what the commands that rewrite source code leave of it (spec/Codemod.tla)."""
from __future__ import annotations

import ast
import contextlib
import io
import json
import os
import re
import subprocess
import sys
import tempfile
import tokenize
from pathlib import Path

import tlc

CONSTS = {"text": "'text'", "hash": "'# not a comment'", "uni": "'né€𝄞'", "num": "1", "fstr": "f'{x} b'", "long": '"""two\n  lines"""'}
UNITS = {"4": "    ", "tab": "\t", "1": " "}


class Text:
    """Source code of a statement; noise (comments, lines, blanks) is added according to the format."""

    def __init__(self, fmt, unit, names):
        self.fmt, self.unit, self.names, self.comments = fmt, unit, names, []

    def comment(self, what="c"):
        c = f"# {what}{next(self.names)} é€𝄞 'x' html.div(key=1)"
        self.comments.append(c)
        return c

    def args(self, parts, opening="(", closing=")"):
        if self.fmt in ("args", "pairs") and parts:
            return opening + "".join(f"\n{self.unit * 3}{p}," for p in parts) + f"\n{self.unit}" + closing
        if self.fmt == "comments":
            return opening + f"  {self.comment()}" + "".join(f"\n{self.unit}{p},  {self.comment()}" for p in parts) + f"\n{self.comment()}\n" + closing
        if self.fmt == "odd":
            return (f" {opening}" if opening == "(" else opening) + "\n\n  " + f" ,\n{self.unit}".join(parts) + ("," if parts else "") + f" {closing}"
        return opening + ", ".join(parts) + closing

    def pairs(self, how, ps):
        items = []
        for p in ps:
            v = self.expr(p["v"])
            if p["name"] == "**":
                items.append(f"**{v}")
            elif how == "dict":
                items.append(f"x.y: {v}" if p["name"] == "expr" else f"{p['name']!r}: {v}")
            else:
                items.append(f"{p['name']}={v}")
        if how == "dict" and self.fmt == "args":
            return "{" + ", ".join(items) + "}"
        return self.args(items, "{", "}") if how == "dict" else {"call": "dict", "other": "make_style"}[how] + self.args(items)

    def expr(self, n):
        k = n["k"]
        if k == "const":
            return CONSTS[n["form"]]
        if k == "var":
            return n["form"]
        if k == "call":
            parts = ["'tag'"] if n["form"] == "vdom" else []
            if n["how"] != "none":
                parts.append("attrs" if n["how"] == "var" else self.pairs(n["how"], n["pairs"]))
            parts += [self.expr(c) for c in n["kids"]]
            parts += [f"key={self.expr(c)}" for c in n["key"]]
            form = n["form"].replace(".", " . ") if self.fmt == "odd" else n["form"]
            return form + self.args(parts)
        if k == "map" and not n["kids"]:
            return self.pairs(n["how"], n["pairs"])
        if k == "spread":
            return "*" + self.expr(n["kids"][0])
        if k == "interp":
            fmt, self.fmt = self.fmt, "line"
            a, b = map(self.expr, n["kids"])
            self.fmt = fmt
            return 'f"""<{' + a + "}|{" + b + '}>"""'
        a, b = map(self.expr, n["kids"])
        return {
            "list": lambda: self.args([a, b], "[", "]"), "tuple": lambda: f"({a}, {b})", "lambda": lambda: f"(lambda y={a}: {b})", "or": lambda: f"({a} or {b})",
            "gen": lambda: f"[{a} for y in {b}]", "kw": lambda: "todo" + self.args([f"y={a}", f"**{b}"]), "map": lambda: "{" + f"{a}: {b}" + "}",
            "apply": lambda: f"{a}({b})", "if": lambda: f"({a} if x else {b})", "star": lambda: f"[*{a}, *{b}]", "sub": lambda: f"x[{a}, {b}]", "cat": lambda: f"({a} + {b})",
        }[k]()

    def stmt(self, ctx, n):
        t = self.unit
        E = lambda: self.expr(n)
        c = (lambda: "") if self.fmt == "line" else lambda: "  " + self.comment("s")
        return {
            "expr": lambda: f"{E()}{c()}", "assign": lambda: f"a = b = {E()}{c()}", "return": lambda: f"def f():{c()}\n{t}return {E()}{c()}",
            "body": lambda: f"def f(x=1):\n{t}# first\n\n{t}{E()}\n{t}# last{c()}", "oneline": lambda: f"def f(): return {E()}{c()}",
            "else": lambda: f"if x:{c()}\n{t}pass\nelse: {E()}{c()}", "semi": lambda: f"y = 'é' ; {E()}; z = 2{c()}", "semi2": lambda: f"{E()}; y = {E()}{c()}",
            "deco": lambda: f"@{E()}{c()}\ndef f():\n{t}pass", "deco2": lambda: f"@x\n@{E()}{c()}\n@y\nclass A: pass",
            "asyncdeco": lambda: f"@{E()}\n@{E()}{c()}\nasync def f(): return {E()}", "default": lambda: f"def f(a, b={E()}, *, c={E()}): pass{c()}",
            "asyncdefault": lambda: f"async def f(a, b={E()}, *, c={E()}):{c()}\n{t}return {E()}", "if": lambda: f"if {E()}:{c()}\n{t}pass\nelif {E()}:{c()}\n{t}pass",
            "with": lambda: f"with {E()} as y, {E()} as z:{c()}\n{t}{E()}", "for": lambda: f"for y in {E()}:{c()}\n{t}{E()}\nelse:{c()}\n{t}{E()}",
            "try": lambda: f"try:\n{t}{E()}{c()}\nexcept {E()}:\n{t}{E()}{c()}\nfinally:\n{t}{E()}", "class": lambda: f"class A({E()}, metaclass={E()}):{c()}\n{t}y = {E()}",
            "async": lambda: f"async def f():\n{t}await {E()}{c()}\n{t}async with {E()} as z:{c()}\n{t}{t}yield {E()}", "continued": lambda: f"y = 1 + \\\n{t}{E()}{c()}",
            "afterlong": lambda: f'y = """a\n  é""", {E()}{c()}', "match": lambda: f"match {E()}:{c()}\n{t}case 1 if {E()}:{c()}\n{t}{t}{E()}",
            "annotation": lambda: f"def f(a: {E()}) -> {E()}: ...{c()}\ny: {E()} = {E()}",
            "docstring": lambda: f'def f():\n{t}"""Doc.\n\n  html.div({{"on_click": 1}}, key=1) # isn\'t code\n{t}"""\n{t}{E()}{c()}',
        }[ctx]()


def times(ctx):
    probe = Text("line", " ", iter(()))
    return probe.stmt(ctx, {"k": "var", "form": "Probe"}).count("Probe")


def comments(source):
    return sorted(t.string for t in tokenize.generate_tokens(io.StringIO(source).readline) if t.type == tokenize.COMMENT)


def emit(case):
    unit = UNITS[case["indent"]]
    names = iter(range(1, 10**6))
    before, want, parts = [], [], []
    for s, w in zip(case["stmts"], case["want"]):
        t = Text(s["fmt"], unit, names)
        text = t.stmt(s["ctx"], s["of"][0])
        before.append(text)
        plain = Text("line", unit, names)
        want.append(plain.stmt(w["ctx"], w["of"][0]))
        parts.append(s["of"] == w["of"])
    lead = "import x  # fïrst\n\n"
    return lead + "\n# betwéen\n".join(before) + "\n\n\n# end", "import x\n" + "\n".join(want), [b for b, same in zip(before, parts) if same]


def structure(source):
    return ast.dump(ast.parse(source))


def judge(case, source, want, kept, got, said):
    if case["same"] != (got is None):
        return "code without such usages is rewritten" if case["same"] else "the code is not rewritten"
    if got is not None:
        try:
            tree = structure(got)
        except SyntaxError as e:
            return f"the result is not Python: {e}"
        if tree != structure(want):
            return "the result means something else"
        if comments(got) != comments(source):
            lost = [c for c in comments(source) if c not in comments(got)]
            return f"comments are {'lost: ' + lost[0] if lost else 'repeated'}"
        for k in kept:
            if k not in got:
                return f"code without such usages is written differently: {k!r}"
    if case["mode"] == "keys":
        lines = [int(m) for m in re.findall(r"Unable to rewrite usage at [^\n]*:(\d+)\n", said)]
        n = sum(x * times(s["ctx"]) for s, l in zip(case["stmts"], case["left"]) for x in l)
        for node in ast.walk(ast.parse(source if got is None else got)):
            if isinstance(node, ast.Call) and any(k.arg == "key" for k in node.keywords) and element(node) and node.lineno not in lines:
                return f"a key which isn't moved (line {node.lineno}) is not reported"
        if len(lines) < n:
            return f"{len(lines)} usages are reported instead of {n}"
    return None


def element(node):
    f = ast.unparse(node.func)
    return f in ("html.div", "reactpy.html.p", "div", "vdom", "html.my_tag")


CLI = """
import json, sys
from click.testing import CliRunner
from reactpy._console.rewrite_keys import rewrite_keys
from reactpy._console.rewrite_props import rewrite_props
out = []
for mode, args in json.load(sys.stdin):
    r = CliRunner().invoke(rewrite_keys if mode == "keys" else rewrite_props, args)
    out.append([r.exit_code, repr(r.exception)])
print(json.dumps(out))
"""


def commands(ctx, files):
    """The commands, given files and folders, rewrite the Python files in them and nothing else."""
    with tempfile.TemporaryDirectory() as top:
        runs, expect = [], {}
        for i, (mode, source, got) in enumerate(files):
            d = Path(top, mode, "pkg", f"sub{i % 3}")
            d.mkdir(parents=True, exist_ok=True)
            for name, changes in ((f"a{i}.py", True), (f"a{i}.txt", False), (f"a{i}.py.bak", False)):
                (d / name).write_bytes(source.encode())
                expect[d / name] = (got if changes and got is not None else source).encode()
            single = Path(top, mode, f"single{i}.py")
            single.write_bytes(source.encode())
            other = Path(top, mode, f"other{i}.py")
            other.write_bytes(source.encode())
            expect[single], expect[other] = (source if got is None else got).encode(), source.encode()
            runs.append([mode, [str(single)]])
        for mode in ("keys", "props"):
            runs.append([mode, [str(Path(top, mode, "pkg", f"sub{k}")) for k in range(2) if Path(top, mode, "pkg", f"sub{k}").exists()]])
            if Path(top, mode, "pkg", "sub2").exists():
                runs.append([mode, [str(Path(top, mode, "pkg", "sub2"))]])
        p = subprocess.run([sys.executable, "-c", CLI], input=json.dumps(runs), capture_output=True, text=True, timeout=300,
                           env=dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path), LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"))
        if p.returncode:
            raise tlc.MachineryError(p.stderr[-800:])
        for run, (rc, exc) in zip(runs, json.loads(p.stdout)):
            if rc:
                return f"the command fails: {exc[:200]}", run
        for path, content in expect.items():
            if path.read_bytes() != content:
                return f"the file {path.relative_to(top)} is {'not rewritten as given' if content != path.read_bytes() else ''}", path.name
            ctx.add(inputs_checked_in_impl=1)
    return None


def run(ctx):
    from reactpy._console import rewrite_keys, rewrite_props

    modes = {"keys": rewrite_keys.generate_rewrite, "props": rewrite_props.generate_rewrite}
    files = []
    plans = [("CodemodGen", None, 0, 0), ("CodemodGen", "CodemodSim.cfg", 300 if ctx.quick else 6000, 20)]
    for module, cfg, sim, depth in plans:
        cases, st = tlc.generate(module, cfg, sim=sim, depth=depth, seed=ctx.seed)
        ctx.tlc(st)
        for i, case in enumerate(cases):
            source, want, kept = emit(case)
            said = io.StringIO()
            try:
                if structure(source) != structure(plain(case)):
                    raise tlc.MachineryError("the source code isn't what it should be")
            except SyntaxError as e:
                raise tlc.MachineryError(f"{e}: {source}") from e
            with contextlib.redirect_stdout(said):
                try:
                    got = modes[case["mode"]](Path("file.py"), source)
                    bad = judge(case, source, want, kept, got, said.getvalue())
                    if not bad and got is not None and modes[case["mode"]](Path("file.py"), got) is not None:
                        bad = "the result is rewritten again"
                except tlc.MachineryError:
                    raise
                except Exception as e:  # noqa: BLE001
                    got, bad = None, f"fails with {e!r}"
            ctx.add(traces_validated_against_impl=1)
            if bad:
                key = f"C32@{case['mode']}:" + ";".join(f"{s['ctx']}-{s['fmt']}" for s in case["stmts"]) + f":{abs(hash(source)) % 10**6 if False else len(source)}"
                ctx.violation(key, bad, dict(kind="codemod", mode=case["mode"], source=source, expected=want, got=got))
                if len(ctx.violations) > 8:
                    return
            elif (i + ctx.seed) % (400 if sim == 0 else 20) == 0:
                files.append((case["mode"], source, got))
        ctx.sample(dict(source=source, result=got))
    if not ctx.violations:
        bad = commands(ctx, files)
        if bad:
            ctx.violation("C32@command", bad[0], dict(kind="codemod-command", run=bad[1]))


def plain(case):
    t = Text("line", UNITS[case["indent"]], iter(range(10**6)))
    t.comment = lambda what="c": "#"
    return "import x\n" + "\n".join(t.stmt(s["ctx"], s["of"][0]) for s in case["stmts"])


CHECKS = {"C32": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of what becomes of the expressions of a file (Codemod), that doing it twice changes nothing checked by TLC; TLC enumerates usages in every form, place and layout of source code, and walks through files of nested ones; the real rewriting is given their source code, and its result must have the specified structure and every comment",
    note="Every form of a usage with up to two attributes and children, in 24 kinds of places and 5 layouts, exhaustively up to one usage; random files of five statements with usages nested up to nine deep. Not checked: names beginning with underscores, bare names of elements that are also names of functions (input, map), quotes that can't be nested within f-strings before Python 3.12. Trusts TLC and the parser of Python.",
)}
