"""C34: fields over the whole connection (spec/Fields.tla): the real client, its connections to the real application."""
from __future__ import annotations

import asyncio
import json
import logging
import random
import sys
from pathlib import Path

import tlc
from checks.client import Client
from checks.mount import Browser, Socket, Stuck

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "appmods"))
URL = "ws://site.example/reactpy/?path=/"


async def replay(h, browser, mod, rng):
    from reactpy.executors.asgi.standalone import ReactPy

    cfg = h[0]["cfg"]
    site = mod.Site(cfg)
    app = ReactPy(site.root)
    await browser.do(kind="fields", cfg={})
    sock, ups, wire = Socket(app, URL), [], []

    async def quiet(want):
        """until the session has sent what it should, and nothing else follows"""
        deadline, n = asyncio.get_running_loop().time() + 8, 0
        while True:
            while sock.out:
                ups.append(sock.out.pop(0))
                n = 0
            n += 1
            if len(ups) >= want and n > 14 or asyncio.get_running_loop().time() > deadline:
                return
            await asyncio.sleep(0 if n < 30 else 0.003)

    def wrong(notes):
        return next((str(x)[:300] for x in notes if x[0] in ("raised", "rejected", "lost", "closed by the client", "reconnects")), None)

    try:
        sock.open()
        await browser.do(op="open")
        await quiet(1)
        if len(ups) != 1:
            return 0, f"the session begins with {len(ups)} updates"
        notes = await browser.do(op="deliver", data=ups.pop())
        shown = [mod.FIRST] * len(cfg["srv"])
        if notes[-1][1] != shown:
            return 0, f"the fields begin with {notes[-1][1]}"
        for k, step in enumerate(h[1:], 1):
            op, want, notes = step["op"], step["seen"], []
            told, before = len(site.told), len(ups)
            name = op["op"]
            if name in ("type", "adv"):
                notes = await browser.do(**{**op, "i": op.get("i", 1) - 1})
            elif name == "serve":
                sock.inbox.put_nowait({"type": "websocket.receive", "text": json.dumps(wire.pop(0))})
                await quiet(before + want["ups"])
                if not want["ups"]:
                    # an event whose handler is gone is kept for a moment
                    for _ in range(6):
                        await asyncio.sleep(0.012)
                    await quiet(before)
            elif name == "rush":
                for m in wire:
                    sock.inbox.put_nowait({"type": "websocket.receive", "text": json.dumps(m)})
                wire.clear()
                idle, before = 0, 0
                deadline = asyncio.get_running_loop().time() + 8
                while True:
                    await quiet(0)
                    while ups:
                        idle = 0
                        notes += await browser.do(op="deliver", data=ups.pop(0))
                        shown = notes[-1][1]
                    idle += 1
                    if idle > 2 and (shown == want["text"] or asyncio.get_running_loop().time() > deadline):
                        break
            elif name == "deliver":
                notes = await browser.do(op="deliver", data=ups.pop(0))
                before -= 1
            elif name in ("push", "toggle"):
                site.push[sock.scope["verif_session"]][name](*[op["i"] - 1, op.get("v")][:2 if name == "push" else 1])
                await quiet(before + want["ups"])
            elif name == "break":
                if rng.random() < 0.4:
                    await browser.do(op="closing")
                notes = await browser.do(op="break")
                await sock.end()
                ups, wire, before = [], [], 0
            else:
                notes = await browser.do(op="again")
                sock = Socket(app, URL)
                sock.open()
                notes += await browser.do(op="open")
                before = 0
                await quiet(1)
            if bad := wrong(notes):
                return k, bad
            sent = [x[3] for x in notes if x[0] == "sent"]
            wire += sent
            for x in notes[::-1]:
                if x[0] == "fields":
                    shown = x[1]
                    break
            got = [x["data"][0]["target"]["value"] for x in sent]
            if got != [x["v"] for x in want["sent"]]:
                return k, f"sends {got} instead of {[x['v'] for x in want['sent']]}"
            if len(ups) - before != want["ups"]:
                return k, f"the session sends {len(ups) - before} updates instead of {want['ups']}"
            if site.told[told:] != want["told"]:
                return k, f"on_change is told {site.told[told:]} instead of {want['told']}"
            if shown != want["text"]:
                return k, f"the fields show {shown} instead of {want['text']}"
        return None
    finally:
        await sock.end()


def run(ctx):
    logging.disable(logging.CRITICAL)
    import verif_fields as mod

    with Client() as client:
        for cfg, sim, depth, step in ((None, 0, 0, 60 if ctx.quick else 6), ("FieldsSim.cfg", 90 if ctx.quick else 6000, 35, 1)):
            hists, st = tlc.generate("FieldsGen", cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            if sim:
                # they come with several last steps; one of each is enough
                hists = list({json.dumps(h[:depth - 2], sort_keys=True): h for h in hists}.values())

            async def part(hs):
                browser = await Browser.start(client.bundle)
                rng = random.Random(ctx.seed)
                try:
                    for h in hs:
                        ctx.add(traces_validated_against_impl=1)
                        try:
                            bad = await replay(h, browser, mod, rng)
                        except Stuck as e:
                            ctx.violation(f"C34@{h[0]['cfg']['mode']}:stuck", f"the client does not come to an end with {str(e)[:200]}", dict(kind="fields", history=h))
                            return
                        if bad:
                            ctx.violation(f"C34@{h[0]['cfg']['mode']}:" + ",".join(f"{x['op']['op']}{x['op'].get('i', '')}" for x in h[1:bad[0] + 1]), bad[1],
                                          dict(kind="fields", history=h[:bad[0] + 1]))
                            if len(ctx.violations) > 4:
                                return
                finally:
                    await browser.stop()

            asyncio.run(part(hists))
            ctx.sample([x["op"] for x in hists[-1][1:]])


CHECKS = {"C34": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of fields, their events and updates over connections that break (Fields), that typing is kept and both sides agree in the end checked by TLC; its histories are replayed on the whole: the real client, whose connections lead to the real application with real components",
    note="Five small forms exhaustively (sampled in the quick run), random histories of larger ones. The document, preact and the websockets' transport are stand-ins (js/); the order of what is under way is that of the specification.",
)}
