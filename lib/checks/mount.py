"""C33: the components in a page (spec/Mount.tla): the real page, its scripts in the real client, the real application."""
from __future__ import annotations

import asyncio
import itertools
import json
import logging
import random
import sys
import urllib.parse
from pathlib import Path

import tlc
from checks.asgi_http import Conn, Tree
from checks.client import JS, Client
from checks.script import scripts
from framework import MachineryError

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "appmods"))

NUMBERS = itertools.count(1)
CLASSES = ["", "x y", "a'b\"c", "[&>p]:x &amp; é"]


class Stuck(Exception):
    """the client does not come to an end with an operation"""


class Browser:
    """node with the client, one operation at a time"""

    @classmethod
    async def start(cls, bundle):
        self = cls()
        self.p = await asyncio.create_subprocess_exec("node", "--experimental-vm-modules", str(JS / "run.mjs"), str(bundle), "-", limit=2**24,
                                                      stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.DEVNULL)
        return self

    async def do(self, **op):
        self.p.stdin.write(json.dumps(op).encode() + b"\n")
        try:
            line = await asyncio.wait_for(self.p.stdout.readline(), 60)
        except asyncio.TimeoutError:
            self.p.kill()
            raise Stuck(op) from None
        if not line:
            raise MachineryError("node ended")
        return json.loads(line)

    async def stop(self):
        self.p.stdin.close()
        await self.p.wait()


class Socket:
    """the server's side of a connection of the browser"""

    def __init__(self, app, url):
        u = urllib.parse.urlsplit(url)
        self.url, self.out, self.inbox, self.accepted = u, [], asyncio.Queue(), False
        self.scope = {"type": "websocket", "path": urllib.parse.unquote(u.path), "raw_path": u.path.encode(), "query_string": u.query.encode(), "headers": [], "root_path": "",
                      "scheme": u.scheme, "subprotocols": [], "verif_session": next(NUMBERS), "asgi": {"version": "3.0"}}
        self.app, self.task = app, None

    def open(self):
        self.inbox.put_nowait({"type": "websocket.connect"})
        self.task = asyncio.ensure_future(self.app(self.scope, self.inbox.get, self.send))

    async def send(self, m):
        if m["type"] == "websocket.accept":
            self.accepted = True
        elif m["type"] == "websocket.send":
            self.out.append(m["text"])

    async def end(self):
        if self.task:
            self.inbox.put_nowait({"type": "websocket.disconnect", "code": 1001})
            done, _ = await asyncio.wait([self.task], timeout=5)
            if not done:
                self.task.cancel()


def site(cfg, rng, mod):
    """the application, and the page a browser gets from it"""
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy

    settings = dict(path_prefix=cfg["prefix"], reconnect_interval=cfg["interval"], reconnect_max_interval=cfg["max"], reconnect_max_retries=cfg["retries"],
                    reconnect_backoff_multiplier=cfg["num"] / cfg["den"])
    if cfg["mode"] == "alone":
        return ReactPy(mod.own, **settings), None, [None]

    from jinja2 import Environment
    from reactpy.templatetags import ReactPyJinja

    classes = [rng.choice([*CLASSES, None]) for _ in cfg["tags"]]
    body = ""
    for t, c in zip(cfg["tags"], classes):
        body += f"<p>before</p>{{% component {json.dumps(t)}" + (", class=" + (repr(c) if '"' in c else f'"{c}"') if c is not None else "") + " %}"
    template = Environment(extensions=[ReactPyJinja], autoescape=rng.random() < 0.5).from_string(f"<!doctype html><html><head><title>T</title></head><body>{body}<i>end</i></body></html>")

    async def other(scope, receive, send):
        raise RuntimeError("not for the application")

    return ReactPyMiddleware(other, ["verif_app.b", "verif_app.a"], **settings), template.render, classes


def elements(tree):
    yield tree
    for c in tree[2]:
        if not isinstance(c, str):
            yield from elements(c)


async def get(app, path):
    c = Conn("http", path)
    await asyncio.wait_for(app(c.scope, c.receive, c.send), 10)
    return c


async def replay(h, browser, rng, mod):
    cfg, loc = h[0]["cfg"], h[0]["loc"]
    app, render, classes = site(cfg, rng, mod)
    if render:
        text = render()
    else:
        c = await get(app, urllib.parse.unquote(loc["path"]))
        text = c.body.decode()
    found, _ = scripts(text)
    tree = Tree(text)
    if tree.stray or len(tree.open) > 1:
        return 0, "the page isn't well-formed"
    mounts = [e for e in elements(tree.top) if e[0] == "div" and "id" in e[1]]
    ids = [e[1]["id"] for e in mounts]
    if len(ids) != len(cfg["tags"]) or len(set(ids)) != len(ids) or not all(ids):
        return 0, f"the page has the elements {ids} for the components {cfg['tags']}"
    for e, c in zip(mounts, classes):
        if c is not None and e[1].get("class", "") != c:
            return 0, f"the element has the classes {e[1].get('class')!r} instead of {c!r}"
        if e[2]:
            return 0, "the element isn't empty"
    notes = await browser.do(kind="page", cfg=dict(ids=ids, https=cfg["https"], path=loc["path"], qs=loc["qs"],
                                                  scripts=[dict(type=a.get("type", ""), text=t) for a, t in found if a.get("type", "") in ("", "module", "text/javascript")]))
    bad = next((str(x)[:300] for x in notes if x[0] in ("raised", "rejected")), None)
    if bad:
        return 0, bad
    maps = [json.loads(x[3]) for x in notes if x[0] == "inserted" and x[1] == "importmap"]
    static = [t for a, t in found if a.get("type") == "importmap"]
    if len(maps) + len(static) != 1:
        return 0, f"the page has {len(maps) + len(static)} import maps"
    if not all(v.startswith(cfg["prefix"] + "static/") for v in maps[0]["imports"].values()) or "react" not in maps[0]["imports"]:
        return 0, f"the import map is {maps[0]}"
    if {x[1] for x in notes if x[0] == "imports"} != {cfg["prefix"] + "static/index.js"}:
        return 0, f"the client is loaded from {[x for x in notes if x[0] == 'imports']}"
    made = [x[1] for x in notes if x[0] == "mounted"]
    if [len(x) for x in made] != [1] * len(cfg["tags"]):
        return 0, f"the scripts in the page open {[len(x) for x in made]} connections for {len(cfg['tags'])} components"
    socks = [Socket(app, x[0]) for x in made]
    mine = list(range(len(socks)))     # the connection each component has now
    where = ("wss" if cfg["https"] else "ws") + "://site.example" + cfg["prefix"]

    def addressed(i, s):
        want = where + ("" if cfg["mode"] == "alone" else cfg["tags"][i] + "/")
        got = f"{s.url.scheme}://{s.url.netloc}{s.url.path}"
        return None if got == want else f"component {i + 1} connects to {got} instead of {want}"

    try:
        for i, s in enumerate(socks):
            if bad := addressed(i, s):
                return 0, bad
        for k, step in enumerate(h[1:], 1):
            op, want = step["op"], step["seen"]
            i = op.get("i", 1) - 1
            if op["op"] == "open":
                socks[mine[i]].open()
                notes = await browser.do(op="open", n=mine[i])
            elif op["op"] == "close":
                await socks[mine[i]].end()
                notes = await browser.do(op="close", n=mine[i])
                waits = [x[1] for x in notes if x[0] == "waits"]
                if waits != [[want["waits"]] if want["waits"] else []]:
                    return k, f"waits {waits} before it connects again, instead of {want['waits']}"
            elif op["op"] == "tick":
                notes = await browser.do(op="tick", n=mine[i])
                urls = [u for x in notes if x[0] == "connects" for u in x[1]]
                if len(urls) != 1:
                    return k, f"connects {len(urls)} times"
                mine[i] = len(socks)
                socks.append(Socket(app, urls[0]))
                if bad := addressed(i, socks[-1]):
                    return k, bad
            elif op["op"] == "click":
                notes = await browser.do(op="click", r=i, x=k)
            else:
                notes = await browser.do(op="nav", path=op["path"], qs=op["qs"])
            bad = next((str(x)[:300] for x in notes if x[0] in ("raised", "rejected", "lost", "closed by the client")), None)
            if bad:
                return k, bad
            sent = [x for x in notes if x[0] == "sent"]
            if len(sent) != want["sent"] or any(x[1] != mine[i] for x in sent):
                return k, f"sends {sent} instead of {want['sent']} events"
            for x in sent:
                socks[x[1]].inbox.put_nowait({"type": "websocket.receive", "text": json.dumps(x[3])})
            # until the browser shows what it should, and nothing else follows
            wanted = [f"{('own' if cfg['mode'] == 'alone' else cfg['tags'][j].split('.')[1])}:{w['n']}@{w['path']}|{w['qs']}" if w["is"] else "" for j, w in enumerate(want["shown"])]
            deadline = asyncio.get_running_loop().time() + 8
            n, got = 0, notes[-1][1]
            while True:
                moved = False
                for j, s in enumerate(socks):
                    while s.out:
                        moved = True
                        data = s.out.pop(0)
                        if j not in mine:
                            return k, "an update for a connection that ended"
                        notes = await browser.do(op="recv", n=j, data=data)
                        got = notes[-1][1]
                n = 0 if moved else n + 1
                if got == wanted and n > 14:
                    break
                if n > 14 and asyncio.get_running_loop().time() > deadline:
                    return k, f"the page shows {got} instead of {wanted}"
                await asyncio.sleep(0 if n < 30 else 0.003)
        return None
    finally:
        for s in socks:
            await s.end()


def run(ctx):
    logging.disable(logging.CRITICAL)
    import verif_app as mod

    with Client() as client:
        for cfg, sim, depth, step in ((None, 0, 0, 240 if ctx.quick else 12), ("MountSim.cfg", 60 if ctx.quick else 2500, 27, 1)):
            hists, st = tlc.generate("MountGen", cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            rng = random.Random(ctx.seed)

            async def part(hs):
                browser = await Browser.start(client.bundle)
                try:
                    for h in hs:
                        ctx.add(traces_validated_against_impl=1)
                        try:
                            bad = await replay(h, browser, rng, mod)
                        except Stuck as e:
                            ctx.violation(f"C33@{','.join(t[-1] for t in h[0]['cfg']['tags'])}:stuck", f"the client does not come to an end with {str(e)[:200]}", dict(kind="mount", history=h))
                            return
                        if bad:
                            ctx.violation(f"C33@{','.join(t[-1] for t in h[0]['cfg']['tags'])}:" + ",".join(f"{x['op']['op']}{x['op'].get('i', '')}" for x in h[1:bad[0] + 1]), bad[1],
                                          dict(kind="mount", history=h[:bad[0] + 1]))
                            if len(ctx.violations) > 4:
                                return
                finally:
                    await browser.stop()

            asyncio.run(part(hists))
            ctx.sample([x["op"] for x in hists[-1][1:]])


CHECKS = {"C33": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of the components in a page and their connections (Mount, Conn), that they are independent and current checked by TLC; its histories are replayed on the whole: the real page or template, its scripts executed with the real client, whose connections lead to the real application",
    note="Four pages with up to two components exhaustively (sampled in the quick run), random histories of pages with up to four. The document, preact and the websockets' transport are stand-ins (js/); timing is that of the specification.",
)}
