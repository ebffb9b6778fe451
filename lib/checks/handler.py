"""C14 and C15: event handler functions against spec/Handler.tla and spec/Merge.tla."""
from __future__ import annotations

import asyncio
import functools
import random

import tlc

NONE = 999
BODY = {
    "prevent": ["{e}.preventDefault()"], "stop": ["{e}.stopPropagation()"],
    "lit1": ["{e}.debounce = 1"], "lit2": ["{e}.debounce = 2"], "unknown": ["{e}.debounce = unknown()"],
    "local": ["loc = 5", "{e}.debounce = loc"], "reassign": ["ms = 6"], "dflt": ["{e}.debounce = ms"],
    "closure": ["{e}.debounce = outer"], "other_prevent": ["other.preventDefault()", "other.stopPropagation()"],
    "other_debounce": ["other.debounce = 77"],
    "if_prevent": ["if {e}.flag:", "    {e}.preventDefault()"], "if_stop": ["if {e}.flag and other:", "    {e}.stopPropagation()"],
    "sub_prevent": ["if {e}.target:", "    {e}.target.preventDefault()", "    {e}.target.stopPropagation()", "    {e}.target.debounce = 3"],
    "read": ["x = {e}.value"], "read_debounce": ["x = {e}.debounce", "y = {e}.preventDefaults"], "pass": ["pass"],
}
LAMBDA = {"prevent": "{e}.preventDefault()", "stop": "{e}.stopPropagation()", "read": "{e}.value",
          "sub_prevent": "{e}.target and {e}.target.preventDefault()", "if_prevent": "{e}.flag and {e}.preventDefault()", "pass": "None"}


@functools.lru_cache(maxsize=None)
def source(body, shape, e):
    lines = []
    for s in body:
        lines += [x.format(e=e) for x in BODY[s]]
    if shape == "captured":
        lines += ["def later():", f"    return {e}", "keep.append(later)", "del keep[:]"]
    if shape == "big":
        lines = [f"if {e}.big:"] + [f"    {e}.n{i}, g{i}" for i in range(300)] + lines
    lines = ["if record({e}):".format(e=e), "    return"] + lines
    params = {"partialkw": "{e}, *, ms=7", "apartial": "{e}, *, ms=7", "partialpos": "first, {e}, ms=7",
              "partial2": "first, second, {e}, *, ms=7", "posonly": "{e}, /, ms=7",
              "defaults": "{e}, a='x', b=3, ms=7, c=None, d=True, e2=4", "kwdefaults": "{e}, a=3, *, b='x', ms=7, c=5", "method": "self, {e}, ms=7",
              "amethod": "self, {e}, ms=7", "classmethod": "cls, {e}, ms=7", "callable": "self, {e}, ms=7",
              "acallable": "self, {e}, *, ms=7", "wrapped_method": "self, {e}, ms=7"}.get(shape, "{e}, ms=7").format(e=e)
    a = "async " if shape in ("afn", "amethod", "acallable", "apartial") else ""
    if a:
        lines.insert(0, "await sleep(0)")
    name = "__call__" if shape.endswith("callable") else "handle"
    deco = {"classmethod": ["@classmethod"], "staticmethod": ["@staticmethod"], "wrapped_method": ["@decorated"]}.get(shape, [])
    fn = deco + [f"{a}def {name}({params}):"] + ["    " + x for x in lines]
    if shape in ("method", "amethod", "classmethod", "staticmethod", "wrapped_method", "callable", "acallable"):
        fn = ["class C:"] + ["    " + x for x in fn] + (["handle = C()"] if "callable" in shape else ["handle = C().handle"])
    fn += {"partialkw": ["handle = partial(handle, ms=8)"], "apartial": ["handle = partial(handle, ms=8)"],
           "partialpos": ["handle = partial(handle, 'a')"],
           "partial2": ["handle = partial(partial(handle, 'a', ms=3), 'b', ms=8)"], "wraps": ["handle = decorated(handle)"]}.get(shape, [])
    if shape == "lambda":
        fn = [f"handle = lambda {e}: record({e}) or " + (LAMBDA[body[0]].format(e=e) if body else "None")]
    return compile("\n".join(["def make(outer):"] + ["    " + x for x in fn] + ["    return handle"]), "<handler>", "exec")


def decorated(f):
    @functools.wraps(f)
    def g(*args, **kwargs):
        return f(*args, **kwargs)

    return g


class World:
    def __init__(self):
        from reactpy.types import Event

        self.calls = []
        self.stop = True
        self.ns = dict(record=self.record, partial=functools.partial, decorated=decorated, other=Event(), keep=[],
                       unknown=lambda: 4, sleep=asyncio.sleep)

    def record(self, event):
        self.calls.append(event)
        return self.stop

    def function(self, case):
        exec(source(tuple(case["body"]), case["shape"], "event" if len(case["body"]) % 2 else "e"), self.ns)
        return self.ns["make"](9)

    def handler(self, case):
        from reactpy import event, html
        from reactpy.core.events import EventHandler

        f = self.function(case)
        d = case["declared"]
        kw = {}
        if d["prevent"]:
            kw["prevent_default"] = True
        if d["stop"]:
            kw["stop_propagation"] = True
        if d["debounce"] != NONE:
            kw["debounce"] = d["debounce"]
        if d["throttle"] != NONE:
            kw["throttle"] = d["throttle"]
        if case["way"] == "attr":
            return html.button({"onClick": f})["eventHandlers"]["onClick"]
        if case["way"] == "event":
            return event(f, **kw) if len(case["body"]) % 2 else event(**kw)(f)
        return EventHandler(f, **kw)


def no(x):
    return NONE if x is None else x


def flags_wrong(h, want):
    got = dict(prevent=h.prevent_default, stop=h.stop_propagation, debounce=no(h.debounce), throttle=no(h.throttle))
    for k in ("prevent", "stop", "throttle"):
        if got[k] != want[k] or type(got[k]) is not type(want[k]):
            return f"{k} is {got[k]!r} instead of {want[k]!r}"
    if got["debounce"] not in want["debounce"]:
        return f"debounce is {got['debounce']!r} instead of one of {want['debounce']!r}"
    return None


async def sent(h):
    """the handler as a browser is told about it, and a way to deliver an event to it"""
    from reactpy import component, html
    from reactpy.core.layout import Layout

    @component
    def root():
        return html.button({"onClick": h})

    layout = Layout(root())
    await layout.__aenter__()
    model = (await layout.render())["model"]
    while "eventHandlers" not in model:
        model = model["children"][0]
    return layout, model["eventHandlers"]["onClick"]


def key(case):
    return f"{case['way']}|{case['shape']}|{','.join(case['body'])}|{case['declared']}".replace(" ", "")


def run_flags(ctx):
    w = World()
    cases, st = tlc.generate("HandlerGen", None if ctx.quick else "HandlerGenMore.cfg", seed=ctx.seed)
    ctx.tlc(st)
    rng = random.Random(ctx.seed)
    for case in cases:
        ctx.add(traces_validated_against_impl=1)
        try:
            bad = flags_wrong(w.handler(case), case["want"])
        except Exception as e:
            bad = f"making the handler failed: {e!r}"
        if bad:
            ctx.violation("C15@" + key(case), bad, dict(kind="flags", case=case))
            if len(ctx.violations) > 8:
                return

    async def wires():
        for case in rng.sample(cases, 1000 if ctx.quick else 15000):
            layout, entry = await sent(w.handler(case))
            await layout.__aexit__(None, None, None)
            got = dict(prevent=entry["preventDefault"], stop=entry["stopPropagation"], throttle=entry.get("throttle", NONE))
            want = {k: case["want"][k] for k in got}
            if got != want or entry.get("debounce", NONE) not in case["want"]["debounce"]:
                ctx.violation("C15@sent|" + key(case), f"told the browser {entry}", dict(kind="flags", case=case))
            ctx.add(handlers_sent=1)
            if len(ctx.violations) > 8:
                return

    asyncio.run(wires())
    for c in rng.sample(cases, 3):
        ctx.sample(c)


class Parts:
    """functions of the kinds of spec/Merge.tla"""

    def __init__(self, kinds):
        self.started, self.finished, self.data = [], [], []
        self.gates = [[] for _ in kinds]
        self.funcs = [self.make(i, k) for i, k in enumerate(kinds)]

    def begin(self, i, data):
        self.started.append(i + 1)
        self.data.append(data)

    def end(self, i):
        self.finished.append(i + 1)

    async def gate(self, i):
        f = asyncio.get_running_loop().create_future()
        self.gates[i].append(f)
        await f

    def make(self, i, kind):
        if kind in ("sync", "raise"):
            def f(data):
                self.begin(i, data)
                if kind == "raise":
                    raise ValueError("part")
                self.end(i)
            return f

        async def f(data):
            self.begin(i, data)
            if kind in ("gate", "gate2", "gate_raise"):
                await self.gate(i)
            if kind == "gate2":
                await self.gate(i)
            if kind in ("araise", "gate_raise"):
                raise ValueError("part")
            self.end(i)
        if kind == "acallable":
            class A:
                async def __call__(self, data):
                    await f(data)
            return A()
        return f


def contains(e, kind):
    return isinstance(e, kind) or any(contains(x, kind) for x in getattr(e, "exceptions", ()))


async def replay_merge(hist):
    from reactpy.core.events import EventHandler, merge_event_handler_funcs, merge_event_handlers, to_event_handler_function

    h0 = hist[0]
    p = Parts(h0["fs"])
    common = dict(stop_propagation=True, prevent_default=True, debounce=3, throttle=4, target="t")
    if h0["ways"] == "merge":
        hs = []
        for i, f in enumerate(p.funcs):
            kw = dict(common)
            if h0["odd"] and i + 1 == h0["at"]:
                kw[h0["odd"]] = {"stop_propagation": False, "prevent_default": False, "debounce": None, "throttle": 0, "target": "u"}[h0["odd"]]
            hs.append(EventHandler(f, **kw))
        try:
            m = merge_event_handlers(hs)
        except ValueError as e:
            return None if h0["refused"] else f"merging was refused: {e}"
        if h0["refused"]:
            return f"handlers which differ in {h0['odd']} were merged"
        for n, v in common.items():
            if n != h0["odd"] and getattr(m, n) != v:
                return f"the merged handler has {n} {getattr(m, n)!r}"
        if h0["odd"]:
            return None if getattr(m, h0["odd"]) == getattr(hs[0], h0["odd"]) else f"the handler has {h0['odd']} {getattr(m, h0['odd'])!r}"
        function = m.function
    else:
        function = merge_event_handler_funcs([to_event_handler_function(f, positional_args=False) for f in p.funcs])
    data = ["data", 1]
    task = asyncio.ensure_future(function(data))
    try:
        for i, h in enumerate(hist):
            if h["op"] == "open":
                p.gates[h["i"] - 1][-1].set_result(None)
            for _ in range(12):
                await asyncio.sleep(0)
            want = h["seen"]
            if want["outcome"] == "error" and not task.done():
                await asyncio.wait([task], timeout=5)
            outcome = "running" if not task.done() else "done" if task.exception() is None else "error"
            if outcome != want["outcome"]:
                return f"after {[x['op'] for x in hist[:i + 1]]}: {outcome} instead of {want['outcome']}"
            if outcome == "error" and not contains(task.exception(), ValueError):
                return f"the error became {task.exception()!r}"
            if p.started != list(range(1, len(p.funcs) + 1)) or any(d != data for d in p.data):
                return f"called {p.started} with {p.data}"
            if sorted(p.finished) != sorted(want["finished"]):
                return f"finished {p.finished} instead of {want['finished']}"
        return None
    finally:
        task.cancel()
        await asyncio.gather(task, return_exceptions=True)


async def replay_call(w, case, n, rng):
    """the function is called once with what was sent, and awaited"""
    from reactpy.types import Event

    h = w.handler(case)
    w.calls.clear()
    event = Event({"a": n, "target": {"value": "v"}})
    await asyncio.wait_for(h.function([event]), 10)
    got = list(w.calls)
    if len(got) != 1:
        return f"called {len(got)} times"
    if (got[0] if case["way"] != "handler" else got[0][0]) is not event:
        return f"called with {got[0]!r}"
    return None


async def replay_delivered(w, case, n):
    from reactpy.types import Event

    layout, entry = await sent(w.handler(case))
    w.calls.clear()
    event = {"a": n, "target": {"value": "v", "more": [1, {"b": 2}]}}
    try:
        await layout.deliver({"type": "layout-event", "target": entry["target"], "data": [event]})
        for _ in range(50):
            await asyncio.sleep(0)
            if w.calls:
                break
        await asyncio.sleep(0)
        got = list(w.calls)
    finally:
        await layout.__aexit__(None, None, None)
    if len(got) != 1:
        return f"a delivered event called it {len(got)} times"
    got = got[0] if case["way"] != "handler" else got[0][0]
    if got != event or not isinstance(got, Event) or got.a != n or got.target.value != "v" or got.nothing is not None:
        return f"the delivered event became {got!r}"
    return None


def run_calls(ctx):
    hists, st = tlc.generate("MergeGen", None if ctx.quick else "MergeGenMore.cfg", seed=ctx.seed)
    ctx.tlc(st)
    rng = random.Random(ctx.seed)

    async def main():
        for h in hists:
            ctx.add(traces_validated_against_impl=1)
            try:
                bad = await replay_merge(h)
            except Exception as e:
                bad = f"failed: {e!r}"
            if bad:
                ctx.violation(f"C14@merge|{h[0]['ways']}|{','.join(h[0]['fs'])}|{h[0]['odd']}|{h[0]['at']}|{[x['i'] for x in h[1:]]}".replace(" ", ""),
                              bad, dict(kind="merge", history=h))
                if len(ctx.violations) > 8:
                    return
        w = World()
        cases, st = tlc.generate("HandlerGen", seed=ctx.seed)
        ctx.tlc(st)
        for n, case in enumerate(cases):
            if not ctx.quick or n % 4 == ctx.seed % 4:
                # with the body for functions of one event, and without for those of the list
                w.stop = case["way"] == "handler"
                try:
                    bad = await replay_call(w, case, n, rng)
                    if not bad and n % (20 if ctx.quick else 2) == 0:
                        bad = await replay_delivered(w, case, n)
                except Exception as e:
                    bad = f"failed: {e!r}"
                ctx.add(traces_validated_against_impl=1)
                if bad:
                    ctx.violation("C14@call|" + key(case), bad, dict(kind="call", case=case))
                    if len(ctx.violations) > 8:
                        return
        ctx.sample(hists[len(hists) // 2])
        ctx.sample(cases[len(cases) // 2])

    asyncio.run(main())


CHECKS = {
    "C14": dict(run=run_calls, level="model_checking",
                technique="TLA+ specification of calling and merging handlers (Merge, Handler); TLC enumerates combinations of functions and orders in which they go on, each replayed on the real handlers",
                note="Up to three (thorough: four) merged functions of eight kinds in every order; eighteen shapes of functions in three ways. Trusts TLC and the comparison."),
    "C15": dict(run=run_flags, level="model_checking",
                technique="TLA+ specification of what a handler's body announces (Handler); TLC enumerates bodies, shapes and declarations with the expected flags, each compiled and given to the real code, a sample sent through a layout",
                note="Exhaustive for bodies of up to two statements in eighteen shapes and three ways, random ones of three and four; statements are one representative per kind. Trusts TLC, CPython 3.12's compiler and the comparison."),
}
