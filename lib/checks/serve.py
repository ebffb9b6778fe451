"""C18: the serving loop against spec/Serve.tla."""
from __future__ import annotations

import asyncio
import logging

import tlc


class Boom(Exception):
    pass


def has_boom(task):
    def look(e):
        return isinstance(e, Boom) or any(look(x) for x in getattr(e, "exceptions", ()))
    return not task.cancelled() and look(task.exception())


class FakeLayout:
    """hands out updates when told so and records what it is given"""

    def __init__(self):
        self.updates = asyncio.Queue()
        self.entered = self.exited = 0
        self.started, self.gates, self.out = [], {}, []
        self.cancelled = []
        self.overlap = False
        self.rendering = False
        self.alive_at_exit = 0

    async def __aenter__(self):
        await asyncio.sleep(0)
        self.entered += 1
        return self

    async def __aexit__(self, *a):
        # everything has stopped by now
        self.alive_at_exit = len(self.gates) + self.rendering
        await asyncio.sleep(0)
        self.exited += 1

    async def render(self):
        if self.rendering:
            self.overlap = True
        self.rendering = True
        try:
            u = await self.updates.get()
        finally:
            self.rendering = False
        if isinstance(u, Exception):
            raise u
        return u

    async def deliver(self, event):
        i = event["n"]
        self.started.append(i)
        f = asyncio.get_running_loop().create_future()
        self.gates[i] = f
        try:
            await f
        finally:
            del self.gates[i]


async def replay(hist):
    from reactpy.core.serve import serve_layout

    layout = FakeLayout()
    begun = []
    gate = None
    inbox = asyncio.Queue()
    both = False

    async def send(u):
        nonlocal gate, both
        both = both or gate is not None
        begun.append(u["n"])
        gate = asyncio.get_running_loop().create_future()
        try:
            await gate
        finally:
            gate = None

    async def recv():
        m = await inbox.get()
        if isinstance(m, Exception):
            raise m
        return m

    task = asyncio.ensure_future(serve_layout(layout, send, recv))
    nu = nm = 0
    done = []
    try:
        for i, h in enumerate(hist):
            op, k = h["op"]
            if op in ("update", "burst"):
                for _ in range(1 if op == "update" else 2):
                    nu += 1
                    layout.updates.put_nowait({"type": "layout-update", "n": nu})
            elif op == "sent":
                gate.set_result(None)
            elif op == "send_fails":
                gate.set_exception(Boom("send"))
            elif op in ("msg", "msgs"):
                for _ in range(1 if op == "msg" else 2):
                    nm += 1
                    inbox.put_nowait({"type": "layout-event", "n": nm})
            elif op == "delivered":
                layout.gates[k].set_result(None)
                done.append(k)
            elif op == "deliver_fails":
                layout.gates[k].set_exception(Boom("deliver"))
            elif op == "recv_fails":
                inbox.put_nowait(Boom("recv"))
            elif op == "render_fails":
                layout.updates.put_nowait(Boom("render"))
            elif op == "cancel":
                task.cancel()
            for _ in range(20):
                await asyncio.sleep(0)
            want = h["seen"]
            if want["over"] != "no":
                await asyncio.wait([task], timeout=5)
            where = f"after {[x['op'][0] for x in hist[1:i + 1]]}: "
            if task.done() != (want["over"] != "no"):
                return where + ("ended" if task.done() else "did not end")
            if task.done():
                if want["over"] == "error" and not has_boom(task):
                    return where + "the error that ended it is lost"
                how = "cancelled" if task.cancelled() else "error" if task.exception() else "returned"
                if how != want["over"]:
                    return where + f"{how} instead of {want['over']}"
                if layout.exited != 1:
                    return where + f"the layout was exited {layout.exited} times"
                if layout.alive_at_exit:
                    return where + "the layout was exited with work going on"
            elif layout.exited:
                return where + "the layout was exited"
            if layout.entered != 1:
                return where + f"the layout was entered {layout.entered} times"
            if begun != list(range(1, want["begun"] + 1)):
                return where + f"sent {begun} instead of the first {want['begun']}"
            if both or layout.overlap or (gate is not None) != want["sending"]:
                return where + "sending " + ("overlaps" if both or layout.overlap else "goes on" if gate else "stopped")
            if layout.started != list(range(1, want["msgs"] + 1)):
                return where + f"messages {layout.started} given to the layout instead of {want['msgs']}"
            if sorted(layout.gates) != sorted(want["busy"]):
                return where + f"messages {sorted(layout.gates)} in work instead of {want['busy']}"
        return None
    finally:
        task.cancel()
        await asyncio.gather(task, return_exceptions=True)


def run(ctx):
    logging.disable(logging.CRITICAL)
    for cfg, sim in ((None, None), ("ServeSim.cfg", 1000 if ctx.quick else 40000)):
        hists, st = tlc.generate("ServeGen", cfg, sim=sim, depth=26, seed=ctx.seed)
        ctx.tlc(st)

        async def main():
            for h in hists:
                ctx.add(traces_validated_against_impl=1)
                try:
                    bad = await replay(h)
                except Exception as e:
                    bad = f"failed: {e!r}"
                if bad:
                    ctx.violation(f"C18@{','.join(x['op'][0] + str(x['op'][1] or '') for x in h[1:])}", bad, dict(kind="serve", history=h))
                    if len(ctx.violations) > 8:
                        return

        asyncio.run(main())
        ctx.sample([x["op"] for x in hists[-1]])


CHECKS = {"C18": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of the serving loop (Serve); TLC enumerates every operation in every reachable state and random histories, each replayed on the real serve_layout with a scripted layout and connection",
    note="Up to four updates and four messages in every combination, random histories of up to thirty. Trusts TLC, the scripted layout and connection, and the comparison.",
)}
