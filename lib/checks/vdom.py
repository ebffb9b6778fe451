"""C16: element construction against spec/Vdom.tla."""
from __future__ import annotations

import asyncio
import collections
import copy
import logging
import random
import warnings

import tlc


def run(ctx):
    logging.disable(logging.CRITICAL)
    import reactpy
    from reactpy import html
    from reactpy.config import REACTPY_DEBUG
    from reactpy.core.component import component
    from reactpy.core.events import EventHandler
    from reactpy.core.layout import Layout
    from reactpy.core.vdom import Vdom, validate_vdom_json
    from reactpy.types import BaseEventHandler, InlineJavaScript, VdomDict

    source = {"source": "x.js", "sourceType": "URL", "fallback": None, "unmountBeforeUpdate": False}

    @component
    def comp(name):
        return name

    def custom(attributes, children, event_handlers):
        model = VdomDict(tagName="ignored")
        if attributes:
            model["attributes"] = attributes
        if children:
            model["children"] = children
        if event_handlers:
            model["eventHandlers"] = event_handlers
        return model

    def ctor(name):
        if name == "call":
            return html
        if name == "frag":
            return html.fragment
        if name == "vdom":
            return Vdom("my-tag")
        if name == "custom":
            return Vdom("my-custom", custom_constructor=custom)
        head, *rest = name.split(".")
        if head in ("mod", "modvoid"):
            c = Vdom(head == "mod" and "Mod" or "Void", allow_children=head == "mod", import_source=source)
        else:
            c = html
            rest = [head, *rest]
        for r in rest:
            c = getattr(c, r)
        return c

    def leaf(kind, path):
        text = "t" + "_".join(map(str, path))
        return {"str": lambda: text, "empty": lambda: "", "none": lambda: None,
                "num": lambda: 1000 + hash(tuple(path)) % 1000, "zero": lambda: 0, "bool": lambda: False,
                "comp": lambda: comp(text), "vdom": lambda: html.b(text),
                "map": lambda: {"tagName": "i", "children": [text]}}[kind]()

    def tree(t, path, leaves):
        if t["t"] == "leaf":
            x = leaf(t["k"], path)
            leaves[tuple(path)] = x
            return x
        items = [tree(c, [*path, i + 1], leaves) for i, c in enumerate(t["c"])]
        kind = t["t"]
        if kind == "list":
            return items
        if kind == "tuple":
            return tuple(items)
        if kind == "gen":
            return (x for x in items)
        if kind == "set":
            return set(items)
        if kind == "values":
            return dict(enumerate(items)).values()
        return collections.deque(items)

    class Obj:
        def __call__(self, *a):
            pass

    def value(kind, name):
        async def afunc(*a):
            pass
        return {"func": lambda: lambda *a: None, "afunc": lambda: afunc, "obj": Obj, "class": lambda: Obj,
                "handler": lambda: EventHandler(lambda d: None, prevent_default=True),
                "text": lambda: "text of " + name, "js": lambda: InlineJavaScript("js of " + name),
                "dict": lambda: {"a": 1}, "none": lambda: None, "num": lambda: 3, "bool": lambda: True,
                "list": lambda: [1]}[kind]()

    def replay(case):
        want = case["want"]
        at = case["at"] or {}
        leaves = {}
        args = [tree(t, [i + 1], leaves) for i, t in enumerate(case["args"])]
        given = {n: value(k, n) for n, k in at.items()}
        before = dict(given)
        try:
            el = ctor(case["ctor"])(*([given] if case["hasat"] else []), *args)
        except (TypeError, ValueError) as e:
            return None if type(e).__name__ == want["err"] else f"{type(e).__name__} {e}", None
        if want["err"] != "none":
            return f"accepted instead of {want['err']}", None
        if list(given) != list(before) or any(given[k] is not before[k] for k in before):
            return "the attributes passed were changed", None
        if not isinstance(el, VdomDict) or el["tagName"] != want["tag"]:
            return f"tag {el!r}", None
        ch = [leaves[tuple(p)] for p in want["children"]]
        got = list(el.get("children", []))
        if len(ch) != len(got) or any(a is not b and (type(a) is not type(b) or a != b or not isinstance(a, (str, int))) for a, b in zip(ch, got)):
            return f"children {got} instead of {ch}", None
        attrs = dict(el.get("attributes", {}))
        if want["key"] in ("child", "src") and "key" not in {n for n in want["attrs"] if at[n] != "none"}:
            key = ch[0] if want["key"] == "child" else given["src"]
            if attrs.get("key") != key:
                return f"key {attrs.get('key')!r} instead of {key!r}", None
        if "key" in attrs and "key" not in want["attrs"]:
            if case["ctor"] != "script":
                return "a key nobody gave", None
            attrs.pop("key")
        elif "key" in attrs and case["ctor"] == "script" and at.get("key") == "none":
            attrs["key"] = None
        for what, have, names in (("attributes", attrs, want["attrs"]), ("eventHandlers", el.get("eventHandlers", {}), want["handlers"]),
                                  ("inlineJavaScript", el.get("inlineJavaScript", {}), want["inline"])):
            if set(have) != set(names):
                return f"{what} {sorted(have)} instead of {sorted(names)}", None
            for n in names:
                if what == "attributes" and have[n] is not given[n]:
                    return f"attribute {n}", None
                if what == "eventHandlers" and (not isinstance(have[n], BaseEventHandler) or (at[n] == "handler" and have[n] is not given[n])):
                    return f"handler {n}", None
                if what == "inlineJavaScript" and (not isinstance(have[n], InlineJavaScript) or str(have[n]) != str(given[n])):
                    return f"inline {n}", None
        if (el.get("importSource") == source) != want["source"] or ("importSource" in el) != want["source"]:
            return f"import source {el.get('importSource')}", None
        extra = set(el) - {"tagName", "children", "attributes", "eventHandlers", "inlineJavaScript", "importSource"}
        if extra:
            return f"invented {extra}", None
        return None, (el, ch)

    async def wire(case, el, children):
        """what a browser is sent for the element"""
        want = case["want"]

        @component
        def root():
            return el

        async with Layout(root()) as layout:
            model = (await layout.render())["model"]
        validate_vdom_json(model)
        while not model.get("tagName") and "children" in model and case["ctor"] not in ("frag", "call"):
            model = model["children"][0]
        if case["ctor"] in ("frag", "call"):
            model = model["children"][0]
        if model["tagName"] != want["tag"]:
            return f"sent tag {model['tagName']!r}"
        texts = []

        def text(m):
            if isinstance(m, str):
                return m
            return "".join(map(text, m.get("children", [])))

        for c in children:
            if isinstance(c, (int, str)) and not isinstance(c, bool):
                texts.append(str(c))
            elif c is None or c is False:
                continue
            elif isinstance(c, dict):
                texts.append(c["children"][0])
            else:
                texts.append(c._args[0])
        got = [text(c) for c in model.get("children", [])]
        sent = [g for g in got if g not in ("False", "")]
        if sent != [t for t in texts if t != ""]:
            return f"sent children {got} instead of {texts}"
        if set(model.get("eventHandlers", {})) != set(want["handlers"]):
            return f"sent handlers {model.get('eventHandlers')}"
        if set(model.get("inlineJavaScript", {})) != set(want["inline"]):
            return f"sent inline {model.get('inlineJavaScript')}"
        sent_attrs = {k: v for k, v in model.get("attributes", {}).items() if k != "key"}
        if set(sent_attrs) != set(want["attrs"]) - {"key"}:
            return f"sent attributes {sent_attrs} instead of {want['attrs']}"
        if model.get("importSource") != (source if want["source"] else None):
            return f"sent source {model.get('importSource')}"
        return None

    async def wires(items):
        for case, el, ch in items:
            try:
                bad = await asyncio.wait_for(wire(case, el, ch), 20)
            except Exception as e:
                bad = f"sending failed: {e!r}"
            ctx.add(elements_sent=1)
            if bad:
                fail(case, bad)
            if len(ctx.violations) > 8:
                return

    def fail(case, what):
        key = f"C16@{case['ctor']}|{case['hasat']}|{sorted((case['at'] or {}).items())}|{show(case['args'])}".replace(" ", "")
        ctx.violation(key, what, dict(kind="vdom", case=case))

    def show(args):
        return ",".join(a["k"] if a["t"] == "leaf" else f"{a['t']}[{show(a['c'])}]" for a in args)

    cases, st = tlc.generate("VdomGen", None if ctx.quick else "VdomGenMore.cfg", seed=ctx.seed)
    ctx.tlc(st)
    rng = random.Random(ctx.seed)
    sendable = []
    warnings.simplefilter("ignore")
    for i, case in enumerate(cases):
        REACTPY_DEBUG.current = i % 3 == 0
        try:
            bad, el = replay(case)
        except Exception as e:
            bad, el = f"failed with {e!r}", None
        ctx.add(traces_validated_against_impl=1)
        if bad:
            fail(case, bad)
            if len(ctx.violations) > 8:
                break
        elif el:
            sendable.append((case, *el))
    REACTPY_DEBUG.current = False
    # keys are numbers or texts
    sendable = [s for s in sendable if (s[0]["at"] or {}).get("key") not in ("dict", "list")
                and not (s[0]["ctor"] == "script" and (s[0]["at"] or {}).get("src") in ("dict", "list"))]
    asyncio.run(wires(rng.sample(sendable, min(len(sendable), 3000 if ctx.quick else 40000))))
    for c in rng.sample(cases, 3):
        ctx.sample(dict(constructor=c["ctor"], attributes=c["at"], arguments=show(c["args"]), expected=c["want"]))


CHECKS = {"C16": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of element construction (Vdom); TLC enumerates constructors, attributes and nested arguments with the expected element, each built with the real constructors and compared, a sample of them also sent through a layout",
    note="Exhaustive for one attribute of every name and kind, two of the common ones, and up to two (in part randomly three and four) argument trees of depth three; values are one representative per kind. Trusts TLC and the comparison.",
)}
