"""C27: what the browser shows of components (spec/Display.tla): the real Layout renders the generated programs, and
its updates are displayed by the real client (see client.py)."""
from __future__ import annotations

import asyncio
import json
import logging
import multiprocessing

import tlc
from checks.client import NOTE, Client

STYLES = {"": {}, "a": {"className": "a"}, "b": {"className": "b"}, "style": {"style": {"color": "red"}},
          "style2": {"style": {"color": "red", "margin": 1}}, "hidden": {"hidden": True, "tabIndex": 0}}


def key_of(k):
    """the keys of the specification as text, as the text that is false, and as numbers (which aren't positions)"""
    return "" if k in ("2", "q") else 1000 + int(k[1:]) if k[1:] and not int(k[1:]) % 3 else k


def attributes(n):
    return {**STYLES[n["at"]], **({"id": f"n{n['u']}"} if n["id"] else {})}


def script(n):
    return {"stmt": f"ran('n{n['u']}', 'stmt', this.properties.id)", "arrow": f"(e) => ran('n{n['u']}', 'arrow', e.x)"}[n["js"]]


class Program:
    def __init__(self, tree, attributes=attributes, events=("onClick",)):
        from reactpy import component, html, use_state
        from reactpy.core.events import EventHandler, to_event_handler_function
        from reactpy.types import InlineJavaScript
        self.table, self.setters, self.ran = {}, {}, []
        self.load(tree)
        this = self

        @component
        def comp(u):
            this.setters[u] = use_state(0)[1]
            n = this.table[u]
            if n["fails"]:
                raise RuntimeError(f"broken {u}")
            return build(n["kids"][0])

        def handler(n, event):
            def ran(e):
                this.ran.append([n["u"], e["x"], *([event] if len(events) > 1 else [])])
            return EventHandler(to_event_handler_function(ran), prevent_default="p" in n["on"], stop_propagation="s" in n["on"])

        def build(n):
            key = {"key": key_of(n["key"])} if n["key"] else {}
            if n["k"] == "text":
                return n["text"]
            if n["k"] == "comp":
                return comp(n["u"], **key)
            kids = [build(k) for k in n["kids"]]
            if n["k"] == "frag":
                return html.fragment(key, *kids)
            return getattr(html, n["tag"])({**attributes(n), **key, **({e: handler(n, e) for e in events} if n["on"] else {}),
                                            **({"onKeyDown": InlineJavaScript(script(n))} if n["js"] else {})}, *kids)

        self.root = comp(tree["u"])

    def load(self, n):
        if n["k"] == "comp":
            self.table[n["u"]] = n
        for k in n["kids"]:
            self.load(k)


def find(model, name):
    if isinstance(model, dict):
        if model.get("attributes", {}).get("id") == name:
            return model
        for c in model.get("children", []):
            got = find(c, name)
            if got:
                return got
    return None


def assign(model, path, value):
    if not path:
        return value
    *way, last = path.strip("/").split("/")
    at = model
    for p in way:
        at = at[int(p)] if isinstance(at, list) else at[p]
    if isinstance(at, list):
        at[int(last)] = value
    else:
        at[last] = value
    return model


async def serve(h):
    """-> operations of the browser, and what the handlers on the server did"""
    from reactpy.config import REACTPY_DEBUG
    from reactpy.core.layout import Layout
    REACTPY_DEBUG.current = h[0]["cfg"]["debug"]
    program = Program(h[0]["tree"])
    model, ops, ran = {}, [], []
    async with Layout(program.root) as layout:
        for i, s in enumerate(h):
            op = s.get("op")
            ran.append(None)
            if op and op["op"] == "fire":
                ops.append(dict(op="fire", at=f"n{s['u']}", name="onClick" if op["which"] == "on" else "onKeyDown", x=i))
                if op["which"] == "on":
                    el = find(model, f"n{s['u']}")
                    target = ((el or {}).get("eventHandlers") or {}).get("onClick", {}).get("target")
                    program.ran.clear()
                    await layout.deliver(dict(type="layout-event", target=target, data=[dict(x=i)]))
                    for _ in range(200):
                        await asyncio.sleep(0)
                        if program.ran:
                            break
                    ran[-1] = [target, list(program.ran)]
                continue
            program.load(s["tree"])
            if s.get("later"):
                ops.append(dict(op="wait"))
                continue
            if op:
                program.setters[s["from"]](lambda x: x + 1)
            update = json.loads(json.dumps(await asyncio.wait_for(layout.render(), 10)))
            model = assign(model, update["path"], json.loads(json.dumps(update["model"])))
            ops.append(dict(op="update", path=update["path"], model=update["model"]))
    return ops, ran


def serve_some(hists):
    logging.disable(logging.CRITICAL)
    out = []
    for h in hists:
        try:
            out.append(asyncio.run(serve(h)))
        except Exception as e:      # noqa: BLE001
            out.append(f"{type(e).__name__}: {e}"[:400])
    return out


def same(want, got, ids, old):
    """want: nodes of the specification, got: those of the document; ids: which node stands for what"""
    texts, nodes = [], []
    for w in want:
        if "text" in w:
            if nodes and isinstance(nodes[-1], str):
                nodes[-1] += w["text"]
            else:
                nodes.append(w["text"])
        else:
            nodes.append(w)
    nodes = [n for n in nodes if n != ""]
    got = [g for g in got if g != ""]
    if len(nodes) != len(got):
        return f"{len(got)} nodes {str(got)[:200]} instead of {len(nodes)}"
    for w, g in zip(nodes, got):
        if isinstance(w, str) or isinstance(g, str):
            if w != g:
                return f"{str(g)[:100]} instead of {str(w)[:100]}"
            continue
        if "error" in w:
            if g[:4] != ["pre", {}, [], [f"RuntimeError: broken {w['error']}"]]:
                return f"{str(g)[:200]} instead of the error of {w['error']}"
            continue
        if w["tag"] == "script":
            if g[:3] != ["div", {}, []] or len(g[3]) != 1 or g[3][0][0] != "script":
                return f"{str(g)[:200]} instead of a script"
            g = g[3][0]
            g[1].pop("key", None)
        if g[0] != w["tag"] or g[1] != attributes(w) or g[2] != sorted(["onClick"] * bool(w["on"]) + ["onKeyDown"] * bool(w["js"])):
            return f"<{g[0]} {g[1]} {g[2]}> instead of {dict(w, kids='')}"
        if w["same"]:
            k = tuple(w["same"])
            if k not in ids:
                if g[4] in old:
                    return f"the node of another element is used for element {w['u']}, which is new"
                ids[k] = g[4]
            elif ids[k] != g[4]:
                return f"element {w['u']} is displayed by another node than before"
        bad = same(w["kids"], g[3], ids, old)
        if bad:
            return bad
    return None


def numbers(got):
    return {n for g in got if isinstance(g, list) for n in [g[4]] + list(numbers(g[3]))}


def compare(h, ran, got):
    ids, old = {}, set()
    for i, (s, notes) in enumerate(zip(h, got[1:])):
        dom = notes[-1]
        if dom[0] != "dom":
            return f"{dom}"
        bad = same(s["dom"], dom[1], ids, old)
        if bad:
            return f"{bad} after {s.get('op')}"
        old |= numbers(dom[1])
        acts = notes[:-1]
        op = s.get("op")
        if not op or op["op"] != "fire":
            if acts:
                return f"{acts} at {op}"
            continue
        if op["which"] == "js":
            want = [["ran", f"n{s['u']}", s["js"], f"n{s['u']}" if s["js"] == "stmt" else i], ["flags", False, False]]
            if acts != want:
                return f"{acts} instead of {want}"
            continue
        target, handled = ran[i]
        if handled != [[s["u"], i]]:
            return f"the event of element {s['u']} went to {handled}"
        if len(acts) != 2 or acts[0][0] != "sent" or acts[0][3].get("type") != "layout-event" or acts[0][3]["target"] != target or [d.get("x") for d in acts[0][3]["data"]] != [i]:
            return f"sent {acts[:1]} instead of event {i} for {target}"
        if acts[1] != ["flags", "p" in s["on"], "s" in s["on"]]:
            return f"{acts[1]} instead of those of {s['on']!r}"
    return None


def key(h):
    return ",".join(s["op"]["op"] for s in h[1:])


def run(ctx):
    plans = [("DisplayGen", None, None, 0, 8 if ctx.quick else 1), ("DisplayGen", "DisplaySim.cfg", 700 if ctx.quick else 12000, 24, 1)]
    with Client() as client, multiprocessing.get_context("fork").Pool(8) as pool:
        for module, cfg, sim, depth, step in plans:
            hists, st = tlc.generate(module, cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            chunks = [hists[i::32] for i in range(32)]
            parts = pool.map(serve_some, chunks, 1)
            served = [parts[i % 32][i // 32] for i in range(len(hists))]
            jobs = [dict(kind="display", cfg={}, ops=x[0] if isinstance(x, tuple) else []) for x in served]
            for h, x, got in zip(hists, served, client.run(jobs)):
                if got is None:
                    continue
                ctx.add(traces_validated_against_impl=1)
                broken = [n for notes in got for n in notes if n[0] in ("broken", "raised", "rejected")]
                bad = f"no update: {x}" if isinstance(x, str) else f"failed: {broken[0]}"[:500] if broken else compare(h, x[1], got)
                if bad:
                    ctx.violation(f"C27@{key(h)}", bad, dict(kind="C27", history=h))
                    if len(ctx.violations) > 8:
                        return
            ctx.sample([s["op"] for s in hists[-1][1:]])


CHECKS = {
    "C27": dict(run=run, level="model_checking",
                technique="TLA+ specification of trees of components and the document that shows them (Display); TLC enumerates every change of every small tree and random histories of larger ones, the real Layout renders them and the real client displays its updates",
                note="All trees of up to four nodes with every change; trees of up to 22 nodes in random histories of twenty changes. Identity of nodes is claimed where keys or places determine it. " + NOTE),
}
