"""Runs a generated component program against the real reactpy Layout and records a trace.

Only public API is used: component, hooks, html, Layout, event/EventHandler, config options.
Every record is emitted by user-level code (component bodies, effects, handlers) or by the
driver at a public call's return, so the trace does not depend on how the layout is written.
"""
from __future__ import annotations

import asyncio
import json
import logging
import random
import threading
from collections import Counter

import reactpy
from reactpy import (
    component,
    html,
    use_callback,
    use_context,
    use_effect,
    use_memo,
    use_reducer,
    use_ref,
    use_state,
)
from reactpy.config import REACTPY_ASYNC_RENDERING, REACTPY_DEBUG, REACTPY_MAX_QUEUE_SIZE
from reactpy.core.events import EventHandler, to_event_handler_function
from reactpy.core.hooks import create_context, use_async_effect
from reactpy.core.layout import Layout
from reactpy.types import VdomDict
from reactpy.utils import Ref

logging.disable(logging.CRITICAL)
MOD = 5
IDLE_ROUNDS = 60
CTX = [create_context(-1), create_context(-2)]
CTXDEF = [-1, -2]


# Slot values are the integers below MOD in the specification.  What the components hold is one
# of these; every read makes a new object where that is possible, so equality cannot be identity.
VALS = [
    [lambda: 0, lambda: 1, lambda: 2, lambda: 3, lambda: 4],
    [lambda: 0, lambda: False, lambda: 0.0, lambda: None, lambda: ""],
    [lambda: [], lambda: [0], lambda: (), lambda: tuple([0]), lambda: {}],
    [lambda: True, lambda: 1, lambda: 1.0, lambda: "1", lambda: b"1"],
    [lambda: {"a": [0]}, lambda: {"a": [1]}, lambda: {"b": [0]}, lambda: [[0], [1]], lambda: [[0], []]],
]
PLAIN = len(VALS)


# ... or functions: two of them are the same if they have the same code and the same values to work with
def _num(n):
    def inner(f):
        f.verif_n = n
        return f
    return inner


def _closure(n, of):
    @_num(n)
    def f():
        return of
    return f


def _default(n):
    return _num(n)(lambda x=n: x)


def _keyword(n):
    return _num(n)(lambda *, x=n: x)


def _nested(n):
    def inner():
        return n
    return _num(n)(lambda: inner() if inner else _nested)


class Holder:
    def __init__(self, n):
        self.verif_n = n

    # as those of arrays do: the comparison is neither true nor false
    def __eq__(self, other):
        return Unclear()

    __hash__ = None


class Unclear:
    def __bool__(self):
        raise ValueError("the truth value of an array is ambiguous")


def _methods():
    class Local:
        def __init__(self, n):
            self.verif_n = n

        def m(self):
            return self.verif_n
    return [Local(n) for n in range(MOD)]


HELD, LOCALS = [Holder(n) for n in range(MOD)], _methods()
VALS += [
    [lambda: _closure(0, 0), lambda: _closure(1, 1), lambda: _default(2), lambda: _default(3), lambda: _num(4)(lambda: 4)],
    [lambda: _nested(0), lambda: _nested(1), lambda: _closure(2, [2]), lambda: _closure(3, "3"), lambda: _closure(4, HELD[4])],
    [lambda: _keyword(0), lambda: _keyword(1), lambda: LOCALS[2].m, lambda: LOCALS[3].m, lambda: _num(4)(lambda x: 4)],
    [lambda: HELD[0], lambda: HELD[1], lambda: HELD[2], lambda: HELD[3], lambda: HELD[4]],
]
ENC = {}
for _vs in VALS[:PLAIN]:
    for _i, _v in enumerate(_vs):
        assert ENC.setdefault((type(_v()), repr(_v())), _i) == _i
for _i in range(-3, 0):
    ENC[(int, repr(_i))] = _i


def enc(v):
    if hasattr(v, "verif_n") or hasattr(v, "__self__"):
        return v.verif_n if hasattr(v, "verif_n") else v.__self__.verif_n
    return ENC.get((type(v), repr(v)), -99)


class Boom(Exception):
    pass


class Stop(Exception):
    pass


def enc_key(k, index):
    if k is None:
        k = index
    return f"i:{k}" if isinstance(k, int) else f"s:{k}"


class Run:
    def __init__(self, prog, script, seed):
        self.prog, self.script = prog, script
        self.rng = random.Random(seed ^ 0x5EED)
        self.log = []
        self.uid = 0
        self.nonce = 0
        self.hn = 0
        self.tok = 0
        self.setters = {}          # uid -> list per slot of list of setters
        self.caps = {}
        self.targets = {}
        self.view = {"tagName": ""}
        self.old_views = []
        self.budget = 14
        self.evid = 0
        self.lag = 0
        self.open_events = {}      # event id -> target
        self.busy_handlers = 0
        self.rn = {}
        self.crashed = False
        self.updates = 0
        self.seqs = {}
        self.deliveries = set()
        self.kind = {}             # uid -> kind of values
        self.comps = [self.make_comp(i, t) for i, t in enumerate(prog["types"])]

    # ---------------------------------------------------------------- log
    def ev(self, **k):
        self.log.append(k)

    def fresh(self):
        self.tok += 1
        return self.tok

    # ---------------------------------------------------------------- set state
    def do_set(self, u, s, mode, v, setter):
        self.ev(e="set", u=u, s=s + 1, m=mode, v=v)
        vals = VALS[self.kind[u]]
        reducer, setter = setter
        if reducer:
            setter((mode, v))
        elif mode != "inc" and callable(vals[v]()):
            setter(lambda _: vals[v]())
        elif mode == "inc":
            setter(lambda cur: vals[(enc(cur) + v) % MOD]())
        else:
            setter(vals[v]())

    # ---------------------------------------------------------------- component bodies
    def make_comp(self, ti, t):
        run = self

        def body(n, given=None):
            uid = use_state(run.new_uid).value
            slots, sets, real = [], [], []
            vals = VALS[t.get("vals", 0)]
            run.kind[uid] = t.get("vals", 0)
            for j, x in enumerate(t["init"]):
                if t.get("red") and t["red"][j]:
                    v, dispatch = use_reducer(
                        lambda cur, a: vals[(enc(cur) + a[1]) % MOD]() if a[0] == "inc" else vals[a[1]](), vals[x] if callable(vals[x]()) else vals[x]()
                    )
                    sets.append((True, dispatch))
                else:
                    st = use_state(vals[x] if x % 2 or callable(vals[x]()) else vals[x]())
                    v = st.value
                    sets.append((False, st.set_value))
                slots.append(enc(v))
                real.append(v)
            rn = run.rn[uid] = run.rn.get(uid, 0) + 1
            reg = run.setters.setdefault(uid, [[] for _ in t["init"]])
            for r, s in zip(reg, sets):
                r.append(s)
            cx = [[c + 1, enc(use_context(CTX[c]))] for c in t["ctx"]]
            run.ev(e="begin", u=uid, t=ti, n=n, r=rn, sl=list(slots), cx=cx)
            me, ef = [], []
            try:
                raw, out = run.finish_body(t, uid, rn, slots, real, sets, me, ef, given)
            except Exception as err:
                run.ev(e="end", u=uid, me=me, ef=ef,
                       raw={"k": "err", "x": f"{type(err).__name__}: {err}"})
                raise
            run.ev(e="end", u=uid, me=me, ef=ef, raw=raw)
            return out

        body.__name__ = body.__qualname__ = "T" if self.prog.get("same") else f"T{ti}"
        return component(body)

    def new_uid(self):
        self.uid += 1
        return self.uid

    def finish_body(self, t, uid, rn, slots, real, sets, me, ef, given):
        rs = t["raises"]
        bad = rs is not None and slots[rs[0]] == rs[1]
        if bad and rs[2] == "early":
            raise Boom(f"u{uid}")
        if t["bodyset"] is not None:
            s, a, b = t["bodyset"]
            if slots[s] == a and self.budget > 0:
                self.budget -= 1
                self.do_set(uid, s, "set", b, sets[s])
        for x, e in enumerate(t["effects"]):
            d = self.effect(e, x + 1, uid, rn, slots, real, sets)
            ef.append([x + 1, d, e["kind"][0]])
        if bad and rs[2] == "mid":
            raise Boom(f"u{uid}")
        for x, m in enumerate(t["memos"]):
            self.memo(m, x + 1, slots, real, me)
        ctx = dict(uid=uid, rn=rn, slots=slots, real=real, sets=sets, given=given, vm=[], once=set())
        for s, nd in t["vmemos"]:
            ctx["vm"].append(use_memo(lambda nd=nd: self.expand(nd, ctx), [real[s]]))
        if bad:
            raise Boom(f"u{uid}")
        return self.build(t["tmpl"], ctx)

    # ---------------------------------------------------------------- hooks
    @staticmethod
    def deps(spec, slots, real):
        """-> (token, python deps or None)"""
        if spec == "none":
            return "*", None
        if spec == "empty":
            return "[]", []
        k, s = spec
        v = slots[s]
        if k == "len":
            d = [v] if v % 2 else [v - 1, 0]
            return str(d), d
        return f"[{v}]", [real[s]]

    def memo(self, m, x, slots, real, me):
        if m["kind"] == "ref":
            r = use_ref(None)
            if r.current is None:
                r.current = self.fresh()
            # what it refers to is given back when it's set, and is what it's compared by
            same = r == Ref(r.current) and r != Ref()
            r.current = r.set_current(None)
            me.append([x, "[]", r.current if same and r.current else -1])
            return
        d, deps = self.deps(m["deps"], slots, real)
        clo = isinstance(m["deps"], list) and m["deps"][0] == "clo"
        v = real[m["deps"][1]] if clo else None
        if m["kind"] == "cb":
            if clo:
                def mk(v):
                    return lambda: v
                fn = mk(v)
                res = use_callback(fn)
            else:
                def fn():
                    return None
                res = use_callback(fn, deps)
            if not hasattr(res, "tok"):
                res.tok = self.fresh()
            me.append([x, d, res.tok])
            return
        bad = m["bad"] is not None and slots[m["bad"][0]] == m["bad"][1]
        if clo:
            def mk2(v):
                def compute(*, run=self, bad=bad):
                    v  # noqa: B018
                    if bad:
                        raise Boom("memo")
                    return run.fresh()
                return compute
            call = lambda: use_memo(mk2(v))  # noqa: E731
        else:
            def compute():
                if bad:
                    raise Boom("memo")
                return self.fresh()
            call = lambda: use_memo(compute, deps)  # noqa: E731
        try:
            res = call()
        except Boom:
            me.append([x, d, 0])
            raise
        me.append([x, d, res if isinstance(res, int) else -1])

    def eff_set(self, e, uid, sets):
        if e["set"] and self.budget > 0:
            self.budget -= 1
            s, mode, v = e["set"]
            self.do_set(uid, s, mode, v, sets[s])

    def clean(self, eff, **what):
        def cleanup():
            self.ev(**what)
            if eff.get("cleanraise"):
                raise Boom("clean-up")
        return cleanup

    def effect(self, e, x, uid, rn, slots, real, sets):
        d, deps = self.deps(e["deps"], slots, real)
        clo = isinstance(e["deps"], list) and e["deps"][0] == "clo"
        v = real[e["deps"][1]] if clo else None
        run = self

        if e["kind"] == "sync":
            def mk(v):
                def fn(*, run=run, e=e, x=x, uid=uid, rn=rn, sets=sets):
                    v  # noqa: B018
                    run.ev(e="effrun", u=uid, x=x, r=rn, cl=1 if (e["cleanup"] and not e["raise"]) else 0)
                    run.eff_set(e, uid, sets)
                    if e["raise"]:
                        raise Boom("effect")
                    if e["cleanup"]:
                        return run.clean(e, e="effclean", u=uid, x=x, r=rn)
                    return None
                return fn
            if clo:
                use_effect(mk(v))
            else:
                use_effect(mk(None), deps)
            return d

        def mka(v):
            async def fn(*, run=run, e=e, x=x, uid=uid, rn=rn, sets=sets):
                v  # noqa: B018
                run.ev(e="arun", u=uid, x=x, r=rn, sh=1 if e["shield"] else 0)
                try:
                    if e["yields"] < 0:
                        await asyncio.get_running_loop().create_future()
                    for _ in range(e["yields"]):
                        await asyncio.sleep(0)
                    run.eff_set(e, uid, sets)
                except asyncio.CancelledError:
                    run.ev(e="acancel", u=uid, x=x, r=rn)
                    raise
                run.ev(e="adone", u=uid, x=x, r=rn, cl=1 if e["cleanup"] and not e["raise"] else 0)
                if e["raise"]:
                    raise Boom("effect")
                if e["cleanup"]:
                    return run.clean(e, e="aclean", u=uid, x=x, r=rn)
                return None
            return fn
        if clo:
            use_async_effect(mka(v), shield=e["shield"])
        else:
            use_async_effect(mka(None), deps, shield=e["shield"])
        return d

    # ---------------------------------------------------------------- trees
    def build(self, nd, c):
        """-> (raw record, real vdom)"""
        raws, outs = self.expand(nd, c)
        if len(raws) == 1:
            return raws[0], outs[0]
        return {"k": "n"}, None

    def expand(self, nd, c):
        k = nd[0]
        slots = c["slots"]
        if k == "alt":
            return self.expand(nd[2][slots[nd[1]] % len(nd[2])], c)
        if k == "kl":
            raws, outs = [], []
            for j in nd[3][slots[nd[1]] % len(nd[3])]:
                r, o = self.expand(nd[2][j], c)
                raws += r
                outs += o
            return raws, outs
        if k == "n":
            return [{"k": "n"}], [None]
        if k in ("vm", "ch"):
            # the same objects are displayed in one place at a time
            if str(nd) in c["once"]:
                return [], []
            c["once"].add(str(nd))
        if k == "vm":
            return c["vm"][nd[1]] if c["vm"] else ([], [])
        if k == "ch":
            return c["given"] or ([], [])
        if k == "w":
            self.nonce += 1
            n = self.nonce
            return ([{"k": "c", "t": nd[1], "n": n, "key": nd[2]}],
                    [self.comps[nd[1]](n, self.expand_all(nd[3], c), key=nd[2])])
        if k == "s":
            x = "const" if nd[1] < 0 else f"s{slots[nd[1]]}"
            return [{"k": "s", "x": x}], [x]
        if k == "c":
            self.nonce += 1
            n = self.nonce
            return ([{"k": "c", "t": nd[1], "n": n, "key": nd[2]}],
                    [self.comps[nd[1]](n, key=nd[2])])
        if k == "p":
            ch, co = self.expand_all(nd[4], c)
            v = slots[nd[2]]
            return ([{"k": "p", "c": nd[1] + 1, "v": v, "key": nd[3], "ch": ch}],
                    [CTX[nd[1]](*co, value=c["real"][nd[2]], key=nd[3])])
        _, tag, key, xs, hs, chs = nd
        ch, co = self.expand_all(chs, c)
        x = "" if xs < 0 else f"v{slots[xs]}"
        attrs = {}
        if x:
            attrs["data-x"] = x
        if key is not None:
            attrs["key"] = key
        hrec = []
        for ev, h in hs.items():
            w = h.get("when")
            if w is not None and slots[w[0]] not in w[1:]:
                continue
            self.hn += 1
            hn = self.hn
            fn = self.handler(h, hn, c)
            if attrs.keys() - hs.keys():
                attrs[f"data-h-{ev}"] = str(hn)
                if "static" in h:
                    fn = EventHandler(to_event_handler_function(fn), target=h["static"])
            else:       # nothing but handlers: which ones they are is told by their limits
                fn = EventHandler(to_event_handler_function(fn), target=h.get("static"), throttle=hn)
            attrs[ev] = fn
            # one with a target of its own is another than one without in the same place
            hrec.append([ev + "*" * ("static" in h), hn, c["uid"], c["rn"]])
        return ([{"k": "e", "t": tag, "x": x, "key": key, "hs": hrec, "ch": ch}],
                [getattr(html, tag)(attrs, *co)])

    def expand_all(self, nds, c):
        raws, outs = [], []
        for nd in nds:
            r, o = self.expand(nd, c)
            raws += r
            outs += o
        return raws, outs

    def handler(self, h, hn, c):
        run, uid, sets, slots = self, c["uid"], c["sets"], list(c["slots"])

        def start(e):
            i = e["id"] if isinstance(e, dict) else -1
            run.open_events.pop(i, None)
            run.ev(e="hstart", i=i, h=hn, cap=slots)
            return i

        def act(a):
            run.do_set(uid, a[0], a[1], a[2], sets[a[0]])

        if h["async"]:
            async def fn(e):
                i = start(e)
                try:
                    for a in h["acts"]:
                        act(a)
                        for _ in range(h["yields"]):
                            await asyncio.sleep(0)
                    for _ in range(h["yields"]):
                        await asyncio.sleep(0)
                    if h["raise"]:
                        raise asyncio.CancelledError() if h["raise"] == "cancel" else Boom("handler")
                finally:
                    try:
                        for _ in range(h["lag"]):
                            await asyncio.sleep(0)
                    finally:
                        run.ev(e="hend", i=i, h=hn)
        else:
            def fn(e):
                i = start(e)
                try:
                    for a in h["acts"]:
                        act(a)
                    if h["raise"]:
                        raise asyncio.CancelledError() if h["raise"] == "cancel" else Boom("handler")
                finally:
                    run.ev(e="hend", i=i, h=hn)
        return fn

    # ---------------------------------------------------------------- client
    def target(self, t):
        return self.targets.setdefault(t, len(self.targets) + 1)

    def node(self, m):
        if isinstance(m, str):
            return {"t": "#", "x": m, "hs": [], "er": "", "ac": -1, "ch": []}
        a = m.get("attributes", {}) or {}
        er = ""
        if "error" in m:
            er = m["error"] or "~"
            if "uplicate keys" in er:
                er = "*dup"
        hs = []
        for ev, h in (m.get("eventHandlers") or {}).items():
            try:
                hn = int(a.get(f"data-h-{ev}", h.get("throttle", 0)))
            except ValueError:
                hn = 0
            hs.append([ev + "*" * (h["target"] == "static-target"), hn, self.target(h["target"])])
        ac = a.get("_reactpy_ack_seq", -1)
        return {"t": m.get("tagName", "?"), "x": a.get("data-x", ""), "hs": hs, "er": er,
                "ac": ac if isinstance(ac, int) else -2,
                "ch": [self.node(c) for c in m.get("children", [])]}

    def apply(self, upd):
        upd = json.loads(json.dumps(upd))
        path = [p for p in upd["path"].split("/")[1:]]
        idx = [int(path[i + 1]) for i in range(0, len(path), 2)]
        self.old_views.append(self.view)
        if len(self.old_views) > 12:
            self.old_views.pop(0)
        self.ev(e="upd", path=[i + 1 for i in idx], model=self.node(upd["model"]))
        self.updates += 1
        if not idx:
            self.view = upd["model"]
            return
        view = json.loads(json.dumps(self.view))
        cur = view
        try:
            for i in idx[:-1]:
                cur = cur["children"][i]
            cur["children"][idx[-1]] = upd["model"]
        except (KeyError, IndexError, TypeError):
            return
        self.view = view

    def handlers_in(self, m, out):
        if isinstance(m, dict):
            a = m.get("attributes") or {}
            for ev, h in (m.get("eventHandlers") or {}).items():
                out.append((h["target"], int(a.get(f"data-h-{ev}", h.get("throttle", 0))), m.get("tagName")))
            for c in m.get("children", []):
                self.handlers_in(c, out)
        return out

    # ---------------------------------------------------------------- driver
    async def consumer(self, layout):
        while True:
            try:
                upd = await layout.render()
            except asyncio.CancelledError:
                raise
            except Exception as err:
                self.ev(e="crash", w="render", x=f"{type(err).__name__}: {err}"[:200])
                self.crashed = True
                return
            self.apply(upd)
            for _ in range(self.lag):
                await asyncio.sleep(0)

    async def quiesce(self):
        if self.open_events:
            # an event without a handler is retried for 30 ms before the next one is looked at
            n = max(Counter(self.open_events.values()).values())
            for _ in range(4 * n):
                await asyncio.sleep(0.011)
                if not self.open_events:
                    break
            self.open_events.clear()
        idle, last = 0, -1
        total = 0
        need = IDLE_ROUNDS + self.lag
        while idle < need:
            await asyncio.sleep(0)
            total += 1
            if len(self.log) == last:
                idle += 1
            else:
                idle, last = 0, len(self.log)
            if total > 20000 or len(self.log) > 3000:
                self.ev(e="crash", w="livelock", x="did not quiesce")
                self.crashed = True
                raise Stop
        if not self.crashed:
            self.ev(e="quiet")

    def pick_setter(self, a, b):
        us = sorted(self.setters)
        if not us:
            return None
        u = us[int(a * len(us))]
        regs = self.setters[u]
        s = int(b * len(regs))
        return u, s, regs[s]

    async def drive(self, layout):
        loop = asyncio.get_running_loop()
        rng = self.rng
        for op in self.script["ops"]:
            if self.crashed:
                raise Stop
            k = op[0]
            if k in ("set", "thread"):
                p = self.pick_setter(op[1], op[2])
                if p:
                    u, s, setters = p
                    st = rng.choice(setters)
                    if k == "thread":
                        th = threading.Thread(target=self.do_set, args=(u, s, op[3], op[4], st))
                        th.start()
                        th.join()
                        await asyncio.sleep(0.002)
                    else:
                        self.do_set(u, s, op[3], op[4], st)
            elif k == "burst":
                for a, b, mode, v, y in op[1]:
                    p = self.pick_setter(a, b)
                    if p:
                        self.do_set(p[0], p[1], mode, v, rng.choice(p[2]))
                    for _ in range(y):
                        await asyncio.sleep(0)
            elif k == "fire":
                hs = self.handlers_in(self.view, [])
                if hs:
                    t, hn, tag = hs[int(op[1] * len(hs))]
                    for _ in range(op[2]):
                        await self.fire(layout, t, hn)
            elif k == "stale":
                if self.old_views:
                    hs = self.handlers_in(rng.choice(self.old_views), [])
                    if hs:
                        t, hn, tag = hs[int(op[1] * len(hs))]
                        await self.fire(layout, t, hn)
            elif k == "yield":
                for _ in range(op[1]):
                    await asyncio.sleep(0)
            elif k == "lag":
                self.lag = op[1]
            elif k == "quiesce":
                await self.quiesce()
            elif k == "close":
                if op[1] == "quiet":
                    await self.quiesce()
                return

    async def fire(self, layout, target, hn):
        self.evid += 1
        self.seqs[target] = seq = self.seqs.get(target, -1) + 1
        self.ev(e="fire", i=self.evid, h=hn, q=seq, g=self.target(target))
        self.open_events[self.evid] = target
        coro = self.deliver(layout, {"type": "layout-event", "target": target,
                                     "data": [{"id": self.evid}], "seq": seq})
        if self.script.get("fnf"):
            # the way a server does that does not wait for the event to be taken
            t = asyncio.create_task(coro)
            self.deliveries.add(t)
            t.add_done_callback(self.deliveries.discard)
        else:
            await coro

    async def deliver(self, layout, event):
        limit = asyncio.timeout(8)
        try:
            async with limit:
                await layout.deliver(event)
        except Exception as err:
            if limit.expired():
                self.ev(e="crash", w="stuck", x="delivering an event did not end in 8 s")
                self.crashed = True
                return
            self.ev(e="crash", w="deliver", x=f"{type(err).__name__}: {err}"[:200])
            self.crashed = True

    async def main(self):
        before = asyncio.all_tasks()
        layout = Layout(self.comps[0](0))
        try:
            await layout.__aenter__()
            cons = asyncio.create_task(self.consumer(layout))
            try:
                await self.drive(layout)
            except Stop:
                pass
            for t in list(self.deliveries):
                t.cancel()
                await asyncio.wait([t])
            if not self.crashed:
                self.ev(e="closing")
            cons.cancel()
            try:
                await cons
            except asyncio.CancelledError:
                pass
            if self.crashed:
                # best effort close; nothing more is judged on this trace
                try:
                    await asyncio.wait_for(layout.__aexit__(None, None, None), 2)
                except BaseException:
                    pass
                return
            now = []      # what's still going on as soon as the layout says that it's closed

            def undone():
                return [t for t in asyncio.all_tasks() - before if not t.done()]

            try:
                if self.script.get("cuts"):
                    # whoever closes the layout is cancelled meanwhile
                    t = asyncio.create_task(layout.__aexit__(None, None, None))
                    await asyncio.sleep(0)
                    for n in self.script["cuts"]:
                        for _ in range(n):
                            await asyncio.sleep(0)
                        t.cancel()
                    await asyncio.wait([t], timeout=5)
                    if t.cancelled() and len(self.script["cuts"]) == 1:
                        now = undone()
                    if t.done() and not t.cancelled() and t.exception():
                        raise t.exception()
                    for _ in range(200):
                        if not undone():
                            break
                        await asyncio.sleep(0.01)
                else:
                    await asyncio.wait_for(layout.__aexit__(None, None, None), 5)
                    now = undone()
            except Exception as err:
                self.ev(e="crash", w="close", x=f"{type(err).__name__}: {err}"[:200])
                return
            for _ in range(IDLE_ROUNDS):
                await asyncio.sleep(0)
            left = undone()
            self.ev(e="closed", n=len(left), now=len(now))
            for t in left:
                t.cancel()
            await asyncio.gather(*left, return_exceptions=True)
        finally:
            pass

    def run(self):
        REACTPY_ASYNC_RENDERING.current = self.script["async_mode"]
        REACTPY_DEBUG.current = self.script["debug"]
        REACTPY_MAX_QUEUE_SIZE.current = self.script.get("qsize", 1000)
        loop = asyncio.new_event_loop()
        loop.set_exception_handler(lambda *_: None)
        try:
            try:
                loop.run_until_complete(asyncio.wait_for(self.main(), 20))
            except (asyncio.TimeoutError, TimeoutError):
                self.ev(e="crash", w="hang", x="run did not finish in 20 s")
            except Exception as err:
                self.ev(e="crash", w="driver", x=f"{type(err).__name__}: {err}"[:200])
        finally:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            try:
                loop.run_until_complete(asyncio.sleep(0))
                loop.close()
            except Exception:
                pass
        return self.trace()

    # ---------------------------------------------------------------- finish
    def enc_raw(self, r, index):
        k = r["k"]
        base = {"k": k, "t": "", "x": "", "key": enc_key(r.get("key"), index), "n": 0, "c": 0, "v": 0,
                "hs": [], "ch": []}
        if k == "e":
            base.update(t=r["t"], x=r["x"], hs=r["hs"], ch=[self.enc_raw(c, i) for i, c in enumerate(r["ch"])])
        elif k == "c":
            base.update(n=r["n"], v=r["t"])
        elif k == "p":
            base.update(c=r["c"], v=r["v"], ch=[self.enc_raw(c, i) for i, c in enumerate(r["ch"])])
        elif k in ("s", "err"):
            base.update(x=r["x"])
        return base

    def trace(self):
        evs = []
        for e in self.log:
            if e["e"] == "end":
                e = dict(e, raw=self.enc_raw(e["raw"], 0))
            evs.append(e)
        return dict(init=[t["init"] for t in self.prog["types"]],
                    dbg=1 if self.script["debug"] else 0,
                    asy=1 if self.script["async_mode"] else 0,
                    ctxdef=CTXDEF, ev=evs)


def run_seed(seed, prof):
    from layout_gen import generate
    prog, script = generate(seed, prof)
    r = Run(prog, script, seed)
    t = r.run()
    t["seed"] = seed
    t["prof"] = prof
    return t


if __name__ == "__main__":
    import sys
    t = run_seed(int(sys.argv[2]), sys.argv[1])
    for e in t["ev"]:
        print(e)
