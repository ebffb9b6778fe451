"""C19: websocket sessions of the ASGI application against spec/Session.tla."""
from __future__ import annotations

import asyncio
import itertools
import json
import logging
import random
import sys
import threading
import urllib.parse
from pathlib import Path

import tlc

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "appmods"))

LOCS = {1: ("/", ""), 2: ("/a b/é%2F", "?x=1&y=%20z&path=no"), 3: ("/q?u", "?qs=1+2&&k")}


NUMBERS = itertools.count(1)    # sessions of an earlier history may still be ending


class Sess:
    """one browser: the server's side of a websocket and a client that applies updates"""

    def __init__(self, app, n, path, loc, prefix):
        self.n = n
        self.inbox = asyncio.Queue()
        self.model = {}
        self.accepted = self.sends = 0
        self.bad = None
        self.cut = self.closed = False
        q = {"path": LOCS[loc][0]}
        if LOCS[loc][1]:
            q["qs"] = LOCS[loc][1]
        self.scope = {"type": "websocket", "path": path, "query_string": urllib.parse.urlencode(q).encode(), "headers": [],
                      "verif_session": n, "asgi": {"version": "3.0"}, "subprotocols": []}
        self.task = asyncio.ensure_future(app(self.scope, self.receive, self.send))

    async def receive(self):
        return await self.inbox.get()

    async def send(self, msg):
        if msg["type"] == "websocket.accept":
            self.accepted += 1
        elif msg["type"] == "websocket.send":
            if not self.accepted:
                self.bad = "an update before the connection was accepted"
            if self.closed:
                raise RuntimeError("send after close")   # as servers do
            if self.cut:
                raise OSError("connection lost")
            await asyncio.sleep(0)
            self.apply(json.loads(msg["text"]))
        elif msg["type"] == "websocket.close":
            self.closed = True
            if self.cut:
                raise OSError("connection lost")
        else:
            self.bad = f"message {msg['type']}"

    def apply(self, m):
        if m["type"] != "layout-update":
            self.bad = f"message {m['type']}"
            return
        self.sends += 1
        if m["path"] == "":
            self.model = m["model"]
            return
        at = self.model
        *head, last = m["path"].split("/")[1:]
        for k in head:
            at = at[int(k) if isinstance(at, list) else k]
        at[int(last) if isinstance(at, list) else last] = m["model"]

    def find(self, tag):
        out = []

        def walk(m):
            if isinstance(m, dict):
                if m["tagName"] == tag:
                    out.append(m)
                for c in m.get("children", []):
                    walk(c)
        if self.model:
            walk(self.model)
        return out

    def text(self):
        p = self.find("p")
        return p[0]["children"][0] if p else None

    def put(self, msg):
        self.inbox.put_nowait(msg)

    def message(self, m):
        self.put({"type": "websocket.receive", "text": json.dumps(m)})

    def event(self, i, data):
        b = self.find("button")
        target = b[i]["eventHandlers"]["onClick"]["target"] if b else "nowhere"
        self.message({"type": "layout-event", "target": target, "data": [data]})


def wanted_text(x):
    path, qs = LOCS[x["loc"]]
    return f"{x['path']}:{x['count']}@{path}|{qs}"


async def replay(hist, rng, make_app, mod, settle_all):
    app, url = make_app()
    mod.LOG.clear()
    mod.EVENTS.clear()
    live, everyone = {}, []
    sent = {}
    def wrong(seen):
        for e in everyone:
            if e.bad:
                return f"session {e.n}: {e.bad}"
        items = enumerate(seen, 1) if isinstance(seen, list) else ((int(k), v) for k, v in seen.items())
        for s, x in items:
            e = live.get(s)
            if e is None:
                continue
            ph = x["phase"]
            mounts = mod.LOG.count(("mount", e.n))
            unmounts = mod.LOG.count(("unmount", e.n))
            if ph == "dialing" and (e.accepted or e.sends or mounts):
                return f"session {e.n}: something happened before it was connected"
            if mounts > 1 or unmounts > mounts:
                return f"session {e.n}: mounted {mounts} and unmounted {unmounts} times"
            if ph in ("open", "dead") and (e.accepted != 1 or e.task.done()):
                return f"session {e.n}: accepted {e.accepted} times, " + ("ended" if e.task.done() else "goes on")
            if ph == "open" and not x["cut"] and e.text() != wanted_text(x):
                return f"session {e.n}: displays {e.text()} instead of {wanted_text(x)}"
            if ph in ("open", "dead", "closed") and (mounts, unmounts) != (x["mounts"], x["unmounts"]):
                return f"session {e.n}: mounted {mounts} and unmounted {unmounts} times instead of {x['mounts']} and {x['unmounts']}"
            if ph == "closed" and not e.task.done():
                return f"session {e.n}: the application goes on after the browser left"
            if ph == "open" and not x["cut"]:
                got = [ev for sid, ev in mod.EVENTS if sid == e.n]
                if got != sent[e.n]:
                    return f"session {e.n}: handled {got} of the events {sent[e.n]}"
        return None

    async def quiet(seen):
        deadline = asyncio.get_running_loop().time() + 8
        n = 0
        while True:
            await asyncio.sleep(0 if n < 60 else 0.002)
            n += 1
            bad = wrong(seen)
            if not bad and n > 12:
                return None
            if bad and asyncio.get_running_loop().time() > deadline:
                return bad

    try:
        for i, h in enumerate(hist[1:], 1):
            op, s, path, loc = h["op"]
            e = live.get(s)
            if op in ("dial", "open"):
                e = live[s] = Sess(app, next(NUMBERS), url(path), loc, None)
                sent[e.n] = []
                everyone.append(e)
            if op in ("connect", "open"):
                e.put({"type": "websocket.connect"})
            elif op == "cut":
                # what has been sent before arrives
                bad = await quiet(hist[i - 1]["seen"])
                if bad:
                    return i - 1, bad
            k = {"inc": 1, "flood": 9}.get(op, 0)
            for j in range(k):
                ev = {"i": i, "j": j, "to": e.n}
                sent[e.n].append(ev)
                e.event(0, ev)
            if op == "boom":
                e.event(1, {})
            elif op == "gone":
                e.message({"type": "layout-event", "target": "nobody-%d" % i, "data": []})
            elif op == "odd":
                e.message({"type": "layout-odd"})
            elif op == "push":
                set_n = mod.PUSH.get(e.n)
                if set_n:
                    # from another thread
                    t = threading.Thread(target=set_n, args=(lambda x: x + 1,))
                    t.start()
                    t.join()
            elif op == "cut":
                e.cut = True
            elif op == "garbage":
                e.put({"type": "websocket.receive", "text": rng.choice(["{", "nonsense", "[1]", "3", '{"type": "layout-event"}'])})
            elif op == "bytes":
                e.put({"type": "websocket.receive", "bytes": b"\x00"})
            elif op == "kill":
                e.task.cancel()
            elif op == "leave":
                e.put({"type": "websocket.disconnect", "code": 1001})
            # events go to handlers the browser knows: it has to see the first update before anything else
            if settle_all or op in ("open", "connect", "cut", "push") or i == len(hist) - 1 or rng.random() < 0.5:
                bad = await quiet(h["seen"])
                if bad:
                    return i, bad
        return None
    finally:
        for e in everyone:
            e.cut = False
            e.put({"type": "websocket.disconnect", "code": 1001})
        await asyncio.wait([e.task for e in everyone], timeout=2) if everyone else None
        for e in everyone:
            e.task.cancel()
        await asyncio.gather(*(e.task for e in everyone), return_exceptions=True)


def run(ctx):
    logging.disable(logging.CRITICAL)
    import verif_app as mod
    from reactpy import config
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy

    config.REACTPY_MAX_QUEUE_SIZE.current = 4
    rng = random.Random(ctx.seed)

    async def fallback(scope, receive, send):
        raise RuntimeError("not for the application")

    def middleware():
        prefix = rng.choice(["/reactpy/", "/_x/y/"])
        app = ReactPyMiddleware(fallback, ["verif_app.a", "verif_app.b"], path_prefix=prefix)
        return app, lambda p: f"{prefix}verif_app.{p}/"

    def standalone():
        app = ReactPy(mod.a, path_prefix="/reactpy/")
        return app, lambda p: "/reactpy/"

    for cfg, sim in ((None, None), ("SessionSim.cfg", 40 if ctx.quick else 1500)):
        hists, st = tlc.generate("SessionGen", cfg, sim=sim, depth=28, seed=ctx.seed)
        ctx.tlc(st)
        if sim is None and ctx.quick:
            hists = [h for h in hists if rng.random() < 0.4]

        async def main():
            for h in hists:
                alone = all(x["op"][2] in ("", "a") for x in h) and rng.random() < 0.5
                ctx.add(traces_validated_against_impl=1)
                try:
                    bad = await replay(h, rng, standalone if alone else middleware, mod, sim is None)
                except Exception as e:
                    import traceback
                    traceback.print_exc()
                    bad = len(h) - 1, f"failed: {e!r}"
                if bad:
                    i, what = bad
                    ctx.violation(f"C19@{'standalone' if alone else 'middleware'}|" + ",".join("%s%s%s" % (x["op"][0], x["op"][1], x["op"][2]) for x in h[1:i + 1]),
                                  what, dict(kind="session", history=h))
                    if len(ctx.violations) > 3:
                        return

        asyncio.run(main())
        ctx.sample([x["op"] for x in hists[-1]])


CHECKS = {"C19": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of websocket sessions (Session); TLC enumerates every operation in every reachable state of one session and random histories of three, replayed on the real ASGI applications with scripted browsers",
    note="One session exhaustively (two connections, bounded counts), three concurrent ones by random histories. Trusts TLC, the scripted server side of the ASGI protocol and the comparison.",
)}
