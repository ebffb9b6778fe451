"""C30: what PyScript components display (spec/Display.tla) and how long they live (spec/Workspace.tla).

The real layout handler runs with stand-ins for the modules a browser provides (js, pyodide, pyscript)."""
from __future__ import annotations

import ast
import asyncio
import importlib
import json
import logging
import multiprocessing
import re
import shutil
import sys
import tempfile
import types
from pathlib import Path

import tlc
from checks.client import fresh
from checks.display import Program

HANDLER = "reactpy.executors.pyscript.layout_handler"
# attributes of an element, and what HTML makes of them
CLASSES = {"": ({}, {}), "a": ({"className": "a", "disabled": False, "title": None}, {"class": "a"}),
           "b": ({"className": "b", "htmlFor": "x", "aria-hidden": False}, {"class": "b", "for": "x", "aria-hidden": "false"}),
           "style": ({"style": {"color": "red"}}, {"style": {"color": "red"}}),
           "style2": ({"style": {"backgroundColor": "red", "margin": 1, "--x": "2"}}, {"style": {"background-color": "red", "margin": "1", "--x": "2"}}),
           "hidden": ({"hidden": True, "tabIndex": 0, "data-x": True}, {"hidden": None, "tabindex": "0", "data-x": "true"})}

EVENTS = {"onClick": "click", "onMouseDown": "mousedown", "onOnline": "online"}


class Style:
    """a declaration block: knows CSS properties by the names of their scripting interface"""

    def __init__(self, el):
        object.__setattr__(self, "el", el)

    def setProperty(self, name, value, *_):  # noqa: N802
        self.el.css[name] = str(value)

    def __setattr__(self, name, value):
        if name == "cssText":
            self.el.setAttribute("style", value)
        elif re.fullmatch("[A-Za-z]+", name):
            self.el.css[re.sub("[A-Z]", lambda m: "-" + m.group(0).lower(), name)] = str(value)


class Data:
    def __init__(self, el):
        self.el = el

    def __getattr__(self, name):
        try:
            return self.el.at["data-" + name]
        except KeyError:
            raise AttributeError(name) from None


class Element:
    def __init__(self, tag):
        self.tag, self.at, self.css, self.kids, self.on, self.parent = tag.lower(), {}, {}, [], {}, None
        self.style, self.dataset = Style(self), Data(self)

    def setAttribute(self, name, value):  # noqa: N802
        value = "undefined" if value is None else str(value).lower() if isinstance(value, bool) else str(value)
        name = name.lower()
        if name == "style":
            self.css.clear()
            self.css.update({k.strip(): v.strip() for k, v in (d.split(":", 1) for d in value.split(";") if ":" in d)})
        else:
            self.at[name] = value

    def getAttribute(self, name):  # noqa: N802
        return self.at.get(name.lower())

    def removeAttribute(self, name):  # noqa: N802
        self.at.pop(name.lower(), None)

    className = property(lambda self: self.at.get("class", ""), lambda self, v: self.setAttribute("class", v))  # noqa: N815
    id = property(lambda self: self.at.get("id", ""), lambda self, v: self.setAttribute("id", v))

    def appendChild(self, node):  # noqa: N802
        node.remove()
        self.kids.append(node)
        node.parent = self
        return node

    def append(self, *nodes):
        for n in nodes:
            self.appendChild(n if isinstance(n, (Element, Text)) else Text(n))

    def remove(self):
        if self.parent:
            self.parent.kids.remove(self)
            self.parent = None

    def cloneNode(self, deep=False):  # noqa: N802
        c = Element(self.tag)
        c.at, c.css = dict(self.at), dict(self.css)
        if deep:
            for k in self.kids:
                c.appendChild(k.cloneNode(True))
        return c

    def addEventListener(self, name, f, *_):  # noqa: N802
        self.on.setdefault(name, []).append(f)

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, Element):
                yield from k.walk()


class Text:
    def __init__(self, text):
        self.text, self.parent = str(text), None

    remove = Element.remove

    def cloneNode(self, deep=False):  # noqa: N802
        return Text(self.text)


class FakeEvent(dict):
    def __init__(self, **k):
        super().__init__(k)
        self.flags = [False, False]

    def preventDefault(self):  # noqa: N802
        self.flags[0] = True

    def stopPropagation(self):  # noqa: N802
        self.flags[1] = True


class Browser:
    """The page, and the modules through which Python gets at it."""

    def __init__(self):
        self.body = Element("body")
        self.morphs = 0
        document = types.SimpleNamespace(
            body=self.body, createElement=Element, createTextNode=Text,
            getElementById=lambda i: next((e for e in self.body.walk() if e.at.get("id") == i), None),
            querySelectorAll=lambda s: [e for e in self.body.walk() if s.lstrip(".") in e.at.get("class", "").split()])

        def morph(old, new, *_):
            self.morphs += 1
            for k in list(old.kids):
                k.remove()
            old.at, old.css = dict(new.at), dict(new.css)
            for k in list(new.kids):
                old.appendChild(k)
            return old

        def module(name, **k):
            m = types.ModuleType(name)
            m.__dict__.update(k)
            return m

        self.main = module("__main__")
        wrappers = module("pyodide.ffi.wrappers", add_event_listener=lambda e, n, f: e.addEventListener(n, f),
                          remove_event_listener=lambda e, n, f: e.on[n].remove(f))
        ffi = module("pyodide.ffi", wrappers=wrappers, create_proxy=lambda f: f, to_js=lambda x, **_: x)
        js_modules = module("pyscript.js_modules", morphdom=types.SimpleNamespace(default=morph))
        window = types.SimpleNamespace(document=document, Array=list, Object=types.SimpleNamespace(fromEntries=dict))
        js = module("js", document=document, window=window, console=types.SimpleNamespace(log=print, error=print, warn=print))
        self.modules = {"js": js, "pyodide": module("pyodide", ffi=ffi), "pyodide.ffi": ffi, "pyodide.ffi.wrappers": wrappers,
                        "pyscript": module("pyscript", js_modules=js_modules, document=document, window=window),
                        "pyscript.js_modules": js_modules, "__main__": self.main}

    def __enter__(self):
        self.before = {n: sys.modules.get(n) for n in [*self.modules, HANDLER]}
        sys.modules.update(self.modules)
        sys.modules.pop(HANDLER, None)
        self.handler = importlib.import_module(HANDLER)
        return self

    def __exit__(self, *_):
        for n, m in self.before.items():
            sys.modules.pop(n, None)
            if m is not None:
                sys.modules[n] = m

    def put(self, uuid):
        el = Element("div")
        el.setAttribute("id", f"pyscript-{uuid}")
        el.setAttribute("class", "pyscript")
        el.setAttribute("data-uuid", uuid)
        el.appendChild(Text("loading"))
        return self.body.appendChild(el)


async def settle(done=lambda: False):
    for _ in range(400):
        await asyncio.sleep(0)
        if done():
            break
    for _ in range(12):
        await asyncio.sleep(0)


def same(want, got):
    texts = []

    def join(nodes, text):
        out = []
        for n in nodes:
            t = text(n)
            if t is None:
                out.append(n)
            elif out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)
        return [n for n in out if n != ""]
    want = join((w for w in want if "error" not in w), lambda w: w.get("text"))
    got = join(got, lambda g: g.text if isinstance(g, Text) else None)
    if len(want) != len(got):
        return f"{len(got)} nodes instead of {len(want)}: {[g if isinstance(g, str) else g.tag for g in got]}"
    for w, g in zip(want, got):
        if isinstance(w, str) or isinstance(g, str):
            if w != g:
                return f"{g if isinstance(g, str) else g.tag} instead of {w if isinstance(w, str) else w['tag']}"
            continue
        at = dict(CLASSES[w["at"]][1], **({"id": f"n{w['u']}"} if w["id"] else {}))
        have = {k: v for k, v in g.at.items() if k != "key"}
        if g.css:
            have["style"] = g.css
        if g.tag != w["tag"] or set(have) != set(at) or any(v is not None and have[k] != v for k, v in at.items()):
            return f"<{g.tag} {have}> instead of <{w['tag']} {at}>"
        listening = sorted(n for n, fs in g.on.items() if fs)
        if listening != (sorted(EVENTS.values()) if w["on"] else []) or any(len(f) > 1 for f in g.on.values()):
            return f"element {w['u']} listens to {listening} instead of {w['on']!r}"
        bad = same(w["kids"], g.kids)
        if bad:
            return bad
    return None


async def show(h):
    """a program of spec/Display.tla"""
    from reactpy.config import REACTPY_DEBUG
    REACTPY_DEBUG.current = False
    program = Program(h[0]["tree"], attributes=lambda n: dict(CLASSES[n["at"]][0], **({"id": f"n{n['u']}"} if n["id"] else {})), events=EVENTS)
    with Browser() as b:
        place = b.put("u1")
        task = asyncio.create_task(b.handler.ReactPyLayoutHandler("u1").run(lambda: program.root))
        try:
            for i, s in enumerate(h):
                op = s.get("op")
                if op and op["op"] == "fire":
                    if op["which"] != "on":
                        continue
                    el = next(e for e in b.body.walk() if e.at.get("id") == f"n{s['u']}")
                    program.ran.clear()
                    e = FakeEvent(x=i)
                    name = list(EVENTS)[i % len(EVENTS)]
                    for f in list(el.on.get(EVENTS[name], [])):
                        f(e)
                    if e.flags != ["p" in s["on"], "s" in s["on"]]:
                        return f"flags {e.flags} of the event instead of those of {s['on']!r}"
                    await settle(lambda: program.ran)
                    if program.ran != [[s["u"], i, name]]:
                        return f"the event {name} of element {s['u']} went to {program.ran}"
                    continue
                program.load(s["tree"])
                if s.get("later"):
                    continue
                n = b.morphs
                if op:
                    program.setters[s["from"]](lambda x: x + 1)
                await settle(lambda: b.morphs > n)
                if task.done():
                    return f"the component ended with {task.exception()!r}"
                bad = same(s["dom"], place.kids)
                if bad:
                    return f"{bad} after {op}"
                if [e for e in b.body.kids] != [place]:
                    return "something is left behind in the page"
        finally:
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
    return None


COUNTER = '''
from reactpy import component, hooks, html


@component
def root():
    count, set_count = hooks.use_state(0)

    @hooks.use_effect(dependencies=[])
    def effect():
        LOG.append("up NAME")
        return lambda: LOG.append("down NAME")

    return html.button({"onClick": lambda e: set_count(lambda c: c + 1)}, f"NAME {count}")
'''


async def live(h, scratch):
    """a history of spec/Workspace.tla"""
    from reactpy.executors.pyscript.utils import pyscript_component_html
    with Browser() as b:
        log = []
        b.main.LOG = log
        places, ids = {}, {}
        try:
            for s in h:
                what, i = s["op"]
                if what == "start":
                    f = scratch / f"w{i}.py"
                    f.write_text(COUNTER.replace("NAME", f"c{i}"))
                    text = pyscript_component_html((str(f),), "", "root")
                    uuid = re.search('data-uuid="([^"]+)"', text).group(1)
                    places[i] = b.put(uuid)
                    ids[i] = uuid
                    exec(compile(re.search("<script type='py'>(.*)</script>", text, re.S).group(1), "script", "exec"), b.main.__dict__)      # noqa: S102
                elif what == "remove":
                    places[i].remove()
                else:
                    [f] = places[i].kids[0].on["click"]
                    f(FakeEvent())
                await settle(lambda: False)
                shown = {i: "".join(t.text for t in p.kids[0].kids) if p.kids and isinstance(p.kids[0], Element) else None for i, p in places.items() if i in s["page"]}
                count = s["count"] if isinstance(s["count"], list) else {int(k): v for k, v in s["count"].items()}
                want = {i: f"c{i} {count[i - 1] if isinstance(count, list) else count[i]}" for i in s["page"]}
                if shown != want:
                    return f"displayed {shown} instead of {want} after {s['op']}"
                up = [x for x in places if f"up c{x}" in log and f"down c{x}" not in log]
                if sorted(up) != sorted(s["running"]):
                    return f"running {up} instead of {s['running']} after {s['op']}"
            if len(set(log)) != len(log):
                return f"ran {log}"
        finally:
            tasks = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
            for t in tasks:
                t.cancel()
            await asyncio.gather(*tasks, return_exceptions=True)
    return None


def some(args):
    kind, hists = args
    logging.disable(logging.CRITICAL)
    scratch = Path(tempfile.mkdtemp(prefix="verif_c30_"))
    out = []
    for h in hists:
        try:
            from reactpy.executors.pyscript import utils
            utils.fetch_cached_python_file.cache_clear()
            out.append(asyncio.run(show(h) if kind == "show" else live(h, scratch)))
        except Exception as e:      # noqa: BLE001
            out.append(f"{type(e).__name__}: {e}"[:400])
    shutil.rmtree(scratch)
    return out


def run(ctx):
    plans = [("live", "WorkspaceGen", None, None, 0, 1), ("live", "WorkspaceGen", "WorkspaceSim.cfg", 300 if ctx.quick else 5000, 30, 1),
             ("show", "DisplayGen", None, None, 0, 48 if ctx.quick else 1), ("show", "DisplayGen", "DisplaySim.cfg", 150 if ctx.quick else 8000, 24, 2)]
    with multiprocessing.get_context("fork").Pool(8) as pool:
        for kind, module, cfg, sim, depth, step in plans:
            hists, st = tlc.generate(module, cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            if sim:
                hists = fresh(hists)
            parts = pool.map(some, [(kind, hists[i::32]) for i in range(32)], 1)
            for i, h in enumerate(hists):
                bad = parts[i % 32][i // 32]
                ctx.add(traces_validated_against_impl=1)
                if bad:
                    ctx.violation("C30@" + ",".join(s["op"]["op"] if kind == "show" else f"{s['op'][0]}{s['op'][1]}" for s in h if "op" in s), bad, dict(kind="C30", history=h))
                    if len(ctx.violations) > 8:
                        return
            ctx.sample([s["op"] for s in hists[-1] if "op" in s])


CHECKS = {"C30": dict(
    run=run, level="model_checking",
    technique="TLA+ specifications of trees of components and the document that shows them (Display) and of the components of a page (Workspace); TLC enumerates every change of small trees and every coming and going of four components, and walks through larger ones; the real layout handler runs them on stand-ins for the browser's modules",
    note="Trees of up to four nodes with every change (sampled in the quick tier), 22 nodes in random histories; pages of four components exhaustively, of fourteen in random walks. The stand-in for morphdom makes the container exactly like the tree built; which nodes and listeners the real one reuses is outside of the claim.",
)}
