"""C17: HTML text and elements (spec/Html.tla)."""
from __future__ import annotations

import logging
from html import escape

import tlc
from checks.asgi_http import VOID, Tree

BOOLEANS = {"hidden", "disabled", "readonly", "checked", "controls", "required", "multiple", "selected"}


def source(n, i=0):
    """HTML text of a document of the specification; i varies the spelling"""
    if n["tag"] == "#":
        return escape(n["text"], quote=False) if i % 2 else escape(n["text"])
    parts = []
    for j, (k, v) in enumerate(n["attrs"]):
        if k in BOOLEANS:
            parts.append(k if (i + j) % 3 else f'{k}=""' if (i + j) % 2 else f'{k}="{k}"')
        else:
            parts.append(f'{k}="{escape(v)}"')
    if n["style"]:
        sep = (";", "; ", " ;\n ")[i % 3]
        parts.append('style="' + escape(sep.join(f"{k}:{' ' * (i % 2)}{v}" for k, v in n["style"]) + sep * (i % 2)) + '"')
    if n["on"]:
        parts.append(f'onclick="{escape(n["on"])}"')
    head = " ".join([n["tag"], *parts])
    if n["tag"] in VOID:
        return f"<{head}{' /' * (i % 2)}>"
    return f"<{head}>" + "".join(source(k, i + 1 + j) for j, k in enumerate(n["kids"])) + f"</{n['tag']}>"


def seen_vdom(m, in_select=False):
    """a model of the library in the form of the specification"""
    if isinstance(m, str):
        return {"tag": "#", "text": m}
    extra = set(m) - {"tagName", "attributes", "children", "eventHandlers", "inlineJavaScript"}
    if extra:
        return {"unknown": sorted(extra)}
    attrs = dict(m.get("attributes", {}))
    out = {"tag": m["tagName"], "key": attrs.pop("key", ""), "style": [list(x) for x in attrs.pop("style", {}).items()]}
    kids = m.get("children", [])
    out["chosen"] = []
    if m["tagName"] == "select":
        d = attrs.pop("defaultValue", [])
        out["chosen"] = d if isinstance(d, list) else [d]
        if out["chosen"] and isinstance(d, list) != ("multiple" in attrs):
            out["chosen"] = ["wrong type", d]
    if m["tagName"] == "option" and in_select:
        attrs.setdefault("value", "".join(kids))
    named = []
    for k, v in attrs.items():
        low = {"readOnly": "readonly", "defaultChecked": "checked"}.get(k, k)
        if low in BOOLEANS:
            named.append([k, "on" if v is True or (isinstance(v, str) and v) else f"off({v!r})"])
        else:
            named.append([k, f"={v}"])
    out["attrs"] = sorted(named)
    js = m.get("inlineJavaScript", {})
    out["on"] = js.get("onClick", "") if set(js) <= {"onClick"} else repr(js)
    h = m.get("eventHandlers", {})
    out["click"] = bool(h)
    if h and (set(h) != {"onClick"} or not h["onClick"].prevent_default):
        out["click"] = repr(h)
    out["kids"] = [seen_vdom(k, in_select or m["tagName"] == "select") for k in kids]
    return out


def want_vdom(n):
    if n["tag"] == "#":
        return {"tag": "#", "text": n["text"]}
    return {**n, "attrs": sorted(n["attrs"]), "kids": [want_vdom(k) for k in n["kids"]]}


def seen_html(t, in_select=False):
    if isinstance(t, str):
        return {"tag": "#", "text": t}
    tag, attrs, kids = t
    attrs = {k: v for k, v in attrs.items() if k != "key"}
    if tag == "option" and in_select:   # without a value the text is the value
        attrs.setdefault("value", "".join(k for k in kids if isinstance(k, str)))
    style = [[k.strip() for k in d.split(":", 1)] for d in split_style(attrs.pop("style", ""))]
    return {"tag": tag, "style": style, "on": "",
            "attrs": sorted([k, "on" if k in BOOLEANS else v] for k, v in attrs.items()),
            "kids": [seen_html(k, in_select if in_select is None else in_select or tag == "select") for k in kids]}


def split_style(s):
    out, depth = [""], 0
    for c in s:
        depth += (c == "(") - (c == ")")
        if c == ";" and not depth:
            out.append("")
        else:
            out[-1] += c
    return [x for x in out if x.strip()]


def want_html(n):
    if n["tag"] == "#":
        return {"tag": "#", "text": n["text"]}
    return {"tag": n["tag"], "style": [list(x) for x in n["style"]], "on": "", "attrs": sorted(list(x) for x in n["attrs"]),
            "kids": [want_html(k) for k in n["kids"]]}


def element(e, i=0):
    """the element a program makes; i varies how"""
    from reactpy import component, html
    if e["tag"] == "#":
        return int(e["text"]) if e["text"] == "0" and i % 2 else e["text"]
    if e["tag"] == "#none":
        return None
    attrs = {}
    for k, v in e["attrs"]:
        attrs[k] = {"on": True, "off": False, "none": None}.get(v, v[1:])
        if attrs[k] == "2" and i % 2:
            attrs[k] = 2
    if e["style"]:
        attrs["style"] = dict(map(tuple, e["style"]))
    if e["chosen"]:
        attrs["defaultValue"] = e["chosen"] if len(e["chosen"]) > 1 or i % 2 else e["chosen"][0]
        if len(e["chosen"]) > 1:
            attrs["multiple"] = True
    if e["tag"] not in ("", "script") and i % 4 == 1:
        attrs["onClick"] = lambda event: None
    kids = [element(k, i + j) for j, k in enumerate(e["kids"])]
    make = html if e["tag"] == "" else getattr(html, e["tag"]) if "-" not in e["tag"] else html.__getattr__(e["tag"])
    el = make(attrs, *kids) if attrs else make(*kids)
    if i % 5 == 3 and e["tag"] not in ("", "option", "script"):
        @component
        def inner():
            return el
        return inner()
    return el


def multiple(n):
    """the attribute the harness adds to selections of several"""
    if n["tag"] == "#":
        return n
    return {**n, "kids": [multiple(k) for k in n["kids"]]}


def try_case(c, i):
    from reactpy.utils import reactpy_to_string, string_to_reactpy
    if c["kind"] == "from":
        text = source(c["doc"], i)
        for links in (False, True):
            got = seen_vdom(string_to_reactpy(text, intercept_links=links))
            want = want_vdom(c["links" if links else "plain"])
            if got != want:
                return diff(got, want), text
        seen = []

        def mark(v):
            seen.append(v["tagName"])
            return {**v, "attributes": {**v.get("attributes", {}), "data-mark": str(len(seen))}}
        marked = string_to_reactpy(text, mark, intercept_links=False)
        marks = []

        def unmark(v):
            if isinstance(v, str):
                return v
            attrs = dict(v["attributes"])
            out = {**v, "attributes": attrs, "children": [unmark(k) for k in v.get("children", [])]}
            marks.append(attrs.pop("data-mark", "none"))
            return out
        got = seen_vdom(unmark(marked))
        if got != want_vdom(c["plain"]) or sorted(marks) != sorted(str(k + 1) for k in range(len(seen))):
            return "with a transform: " + (diff(got, want_vdom(c["plain"])) if got != want_vdom(c["plain"]) else f"applied {len(seen)} times, {marks}"), text
        back = reactpy_to_string(string_to_reactpy(text, intercept_links=False))
        t = Tree(back)
        if t.stray or len(t.open) != 1:
            return f"not well-formed: {back}", text
        got = [seen_html(x) for x in t.top[2]]
        want = [want_html(c["back"])]
        if got != want:
            return "and back: " + diff(got[0], want[0]) if len(got) == 1 else f"and back: {back}", text
        return None
    el = element(c["el"], i)
    text = reactpy_to_string(el)
    t = Tree(text)
    if t.stray or len(t.open) != 1:
        return f"not well-formed: {text}", repr(el)
    got = [seen_html(x, None) for x in t.top[2]]
    want = [want_html(c["html"])]

    def drop(n):    # how several selections are announced is the harness's doing
        return n if n["tag"] == "#" else {**n, "attrs": [a for a in n["attrs"] if a[0] != "multiple"], "kids": [drop(k) for k in n["kids"]]}
    got = [drop(g) for g in got]
    if got != want:
        return (diff(got[0], want[0]) if len(got) == 1 else text), text
    return None


def diff(got, want, at=""):
    if set(got) != set(want):
        return f"at {at or '/'}: {got} instead of {want}"
    for k in want:
        if k != "kids" and got[k] != want[k]:
            return f"at {at or '/'} ({want['tag']}): {k} {got[k]!r} instead of {want[k]!r}"
    g, w = got.get("kids", []), want.get("kids", [])
    if len(g) != len(w):
        return f"at {at or '/'}: {len(g)} children instead of {len(w)}: {g} instead of {w}"[:500]
    for i, (a, b) in enumerate(zip(g, w)):
        if a != b:
            return diff(a, b, f"{at}/{i}")
    return "?"


def run(ctx):
    logging.disable(logging.CRITICAL)
    cases, st = tlc.generate("HtmlGen", "HtmlGen.cfg" if ctx.quick else "HtmlGenMore.cfg", seed=ctx.seed, workers=8)
    ctx.tlc(st)
    for i, c in enumerate(cases):
        ctx.add(traces_validated_against_impl=1)
        try:
            bad = try_case(c, i + ctx.seed)
        except Exception as e:
            bad = f"failed: {e!r}", source(c["doc"], i + ctx.seed) if c["kind"] == "from" else str(c["el"])
        if bad:
            ctx.violation(f"C17@{c['kind']}:{bad[0][:120]}".replace(" ", "_"), f"{bad[0]} for {bad[1][:300]}", dict(case=c, variant=i + ctx.seed))
            if len(ctx.violations) > 8:
                return
    ctx.sample(source(cases[0]["doc"]) if cases[0]["kind"] == "from" else str(cases[0]["el"])[:200])


CHECKS = {"C17": dict(
    run=run, level="model_checking",
    technique="TLA+ operators give the element of a document and the document of an element (Html), which TLC proves inverse on all generated documents; each is compared with the real conversion",
    note="Documents and elements are drawn at random from a grammar of containers, void elements, form fields, selections, links, styles and texts. Trusts TLC, the HTML parser of the standard library and the comparison.",
)}
