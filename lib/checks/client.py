"""C24-C28: the client in the browser (spec/Conn.tla, Coalesce.tla, Input.tla, Display.tla, Imported.tla).

The sources of the repository are bundled with small stand-ins for preact and the document (js/) and
executed by node; the histories come from the specifications."""
from __future__ import annotations

import concurrent.futures
import json
import os
import subprocess
import tempfile
import time
from pathlib import Path

import tlc
from framework import REPO, MachineryError

JS = Path(__file__).resolve().parent.parent.parent / "js"


class Client:
    def __init__(self):
        self.dir = tempfile.TemporaryDirectory(prefix="vjs_")
        self.bundle = Path(self.dir.name) / "client.mjs"
        p = subprocess.run(["node", str(JS / "bundle.mjs"), str(REPO), str(self.bundle)], capture_output=True, text=True, timeout=120)
        if p.returncode:
            raise MachineryError(f"the client does not build: {p.stderr[-2000:]}")

    def run(self, jobs, n=8, patience=60):
        """-> what was noted after the start and after every operation, for each job

        A job in which the client never comes to an end (or dies, also when tried again) is "broken", those after it are None."""
        def part(i):
            mine, got, dead = jobs[i::n], [], None
            while len(got) < len(mine):
                f = Path(self.dir.name) / f"jobs{i}.json"
                f.write_text(json.dumps(mine[len(got):]))
                with open(Path(self.dir.name) / f"errors{i}", "w+") as err, open(Path(self.dir.name) / f"seen{i}", "w+") as seen:
                    p = subprocess.Popen(["node", str(JS / "run.mjs"), str(self.bundle), str(f)], stdout=seen, stderr=err, text=True)
                    size, since, rc = 0, time.monotonic(), None
                    while rc is None:
                        try:
                            rc = p.wait(1)
                        except subprocess.TimeoutExpired:
                            now = os.fstat(seen.fileno()).st_size
                            if now != size:
                                size, since = now, time.monotonic()
                            elif time.monotonic() - since > patience:
                                p.kill()
                                p.wait()
                                rc = "stuck"
                    seen.seek(0)
                    lines = [x for x in seen.read().split("\n") if x]
                    if rc:
                        err.seek(0)
                        why = f"does not come to an end within {patience} s" if rc == "stuck" else f"ends with {rc}: {err.read()[-600:]}"
                        if lines and not lines[-1].endswith("]]"):
                            lines.pop()
                    got += map(json.loads, lines)
                    if not rc and len(got) != len(mine):
                        raise MachineryError(f"node: {len(got)} answers to {len(mine)} jobs")
                    if rc and (rc == "stuck" or dead == len(got)):
                        got += [[[["broken", f"the client {why}"]]]] + [None] * len(mine)
                    dead = len(got)
            return got[:len(mine)]
        with concurrent.futures.ThreadPoolExecutor(n) as pool:
            parts = list(pool.map(part, range(n)))
        return [parts[i % n][i // n] for i in range(len(jobs))]

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.dir.cleanup()


def fresh(hists):
    """simulated histories come with several last steps; one of each is enough"""
    seen, out = set(), []
    for h in hists:
        k = json.dumps(h[:-1], sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return out


def strange(notes, allowed):
    for x in notes:
        if x[0] not in allowed:
            return str(x)[:400]


# ------------------------------------------------------------------------------------- the connection
def conn_job(h):
    ops, m = [], 0
    for s in h[1:]:
        op = dict(s["op"])
        if op["op"] in ("send", "recv"):
            op["m"] = s["seen"]["m"]
        ops.append(op)
    return dict(kind="conn", cfg=h[0]["cfg"], ops=ops)


def conn_compare(h, got):
    cfg = h[0]["cfg"]
    where = ("ws" + "s" * cfg["https"] + "://site.example" + cfg["prefix"] + cfg["component"]) if cfg["mount"] else "ws://site.example/app/comp"
    if got[0]:
        return f"before anything happened: {got[0]}"
    for s, notes in zip(h[1:], got[1:]):
        op, want = s["op"], s["seen"]
        odd = strange(notes, ("socket", "sent", "got", "waited"))
        if odd:
            return f"{odd} at {op}"
        socks = [x[1:] for x in notes if x[0] == "socket"]
        if socks != [[where, [l["path"]], [l["qs"]] if l["qs"] else [], 0] for l in want["connects"]]:
            return f"connections (address, path, query, others) {socks} instead of {want['connects']} at {op}"
        sent = [[x[1], x[3]["m"]] for x in notes if x[0] == "sent"]
        if sent != [[want["on"], m] for m in want["sent"]]:
            return f"sent (connection, message) {sent} instead of {want['sent']} on {want['on']} at {op}"
        if not cfg["mount"]:
            heard = [x[1] for x in notes if x[0] == "got"]
            if heard != want["got"] or any(x[2]["m"] != want["m"] for x in notes if x[0] == "got"):
                return f"handlers {heard} instead of {want['got']} at {op}"
        wait = [x[1:] for x in notes if x[0] == "waited"]
        if wait != ([[want["waited"], 1]] if want["waited"] else []):
            return f"waited {wait} instead of {want['waited']} at {op}"
    return None


def run_kind(ctx, prop, plans, job, compare, key=None):
    with Client() as client:
        for module, cfg, sim, depth, step in plans:
            hists, st = tlc.generate(module, cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            hists = fresh(hists) if sim else hists
            for h, got in zip(hists, client.run([job(h) for h in hists])):
                if got is None:
                    continue
                ctx.add(traces_validated_against_impl=1)
                broken = [x for notes in got for x in notes if x[0] in ("broken", "raised", "rejected")]
                bad = f"failed: {broken[0]}"[:500] if broken else compare(h, got)
                if bad:
                    k = key(h) if key else ",".join(s["op"]["op"] for s in h[1:])
                    ctx.violation(f"{prop}@{k}", bad, dict(kind=prop, history=h))
                    if len(ctx.violations) > 8:
                        return
            ctx.sample([s["op"] for s in hists[-1][1:]])


def run_conn(ctx):
    run_kind(ctx, "C24", [("ConnGen", None, None, 0, 12 if ctx.quick else 1), ("ConnGen", "ConnSim.cfg", 400 if ctx.quick else 20000, 32, 1)], conn_job, conn_compare)


# ------------------------------------------------------------------------------------- rate limits
def coalesce_job(h):
    return dict(kind="coalesce", cfg=h[0], ops=[s["op"] for s in h[1:]])


def coalesce_compare(h, got):
    if [x for x in got[0] if x[0] != "dom"]:
        return f"before anything happened: {got[0]}"
    seq = -1
    for s, notes in zip(h[1:], got[1:]):
        op, want = s["op"], s["seen"]
        odd = strange(notes, ("sent", "flags"))
        if odd:
            return f"{odd} at {op}"
        if any(x[3]["type"] != "layout-event" or x[3]["target"] not in ("t1", "t2") or len(x[3]["data"]) != 1 for x in notes if x[0] == "sent"):
            return f"sent {notes} at {op}"
        sent = [[x[2], int(x[3]["target"][1:]), x[3]["data"][0]["arg"]] for x in notes if x[0] == "sent"]
        if sorted(sent) != sorted([x["t"], x["h"], x["a"]] for x in want["sends"]):
            return f"sent (time, handler, event) {sent} instead of {[[x['t'], x['h'], x['a']] for x in want['sends']]} at {op}"
        if h[0]["tag"] != "div":
            for x in notes:
                if x[0] == "sent":
                    if x[3]["seq"] <= seq:
                        return f"number {x[3]['seq']} after {seq} at {op}"
                    seq = x[3]["seq"]
        flags = [x[1:] for x in notes if x[0] == "flags"]
        if flags != ([[want["prevent"], want["stop"]]] if op["op"] == "ev" else []):
            return f"preventDefault, stopPropagation {flags} instead of {[want['prevent'], want['stop']]} at {op}"
    return None


def run_coalesce(ctx):
    run_kind(ctx, "C25", [("CoalesceGen", None, None, 0, 4 if ctx.quick else 1), ("CoalesceGen", "CoalesceSim.cfg", 500 if ctx.quick else 20000, 40, 1)],
             coalesce_job, coalesce_compare, lambda h: f"{h[0]['tag']}:" + ",".join(s["op"]["op"] for s in h[1:]))


# ------------------------------------------------------------------------------------- fields
def input_job(h):
    tag = ("input", "textarea", "select")[len(h) % 3]
    return dict(kind="input", cfg=dict(h[0]["cfg"], tag=tag), ops=[dict(s["op"], update=s["seen"]["update"]) for s in h[1:]])


def input_compare(h, got):
    if got[0] != [["shows", "", 0, []]]:
        return f"before anything happened: {got[0]}"
    for i, (s, notes) in enumerate(zip(h[1:], got[1:])):
        op, want = s["op"], s["seen"]
        odd = strange(notes, ("sent", "shows"))
        if odd:
            return f"{odd} at {op}"
        sent = [[x[3]["target"], x[3]["data"][0]["arg"]] for x in notes if x[0] == "sent"]
        if sorted(sent) != sorted([("input", "key")[x["h"] - 1], x["v"]] for x in want["sends"]):
            return f"sent {sent} instead of {want['sends']} at {op}"
        [_, text, writes, attributes] = notes[-1]
        if text != want["text"]:
            return f"the field shows {text!r} instead of {want['text']!r} after {[dict(x['op'], **({'update': x['seen']['update']} if x['op']['op'] == 'deliver' else {})) for x in h[max(1, i - 6):i + 2]]}"
        if writes > want["writes"]:
            return f"the field was written {writes} times instead of {want['writes']} at {op}"
        if attributes:
            return f"attributes {attributes}"
    return None


def run_input(ctx):
    run_kind(ctx, "C26", [("InputGen", None, None, 0, 6 if ctx.quick else 1), ("InputGen", "InputSim.cfg", 700 if ctx.quick else 20000, 36, 1)],
             input_job, input_compare, lambda h: f"{h[0]['cfg']['srv']},{h[0]['cfg']['thr']},{h[0]['cfg']['deb']}:" + ",".join(s["op"]["op"] for s in h[1:]))


# ------------------------------------------------------------------------------------- components of modules
SOURCES = {"A": dict(source="A.js", sourceType="NAME"), "B": dict(source="https://cdn.example/B.mjs", sourceType="URL"), "C": dict(source="https://cdn.example/B.mjs", sourceType="NAME")}   # (the address of B is a name like any other)
ARGS = {"event": {"arg": 1}, "number": 1.5, "zero": 0, "text": "text", "empty": "", "yes": True, "no": False, "null": None, "undefined": None, "list": [1, "", [True]]}


def imported_model(row):
    def node(name, src, v, kids):
        fallback = {"A": "wait A", "B": {"tagName": "em", "children": ["wait B"]}}
        return {"tagName": name, "attributes": {"title": v}, "children": kids, "eventHandlers": {"onClick": {"target": f"T{v}", "preventDefault": False, "stopPropagation": False}},
                "importSource": {**SOURCES[src], "fallback": fallback.get(src), "unmountBeforeUpdate": src == "C"}}

    def one(e):
        c = e["c"]
        kid = {"none": [], "text": [c["v"]], "el": [{"tagName": "p", "children": [c["v"]]}], "same": [node("Other.Inner", c["src"], c["v"] + "n", [])], "lost": [node("Other.Missing", c["src"], c["v"] + "n", []), c["v"]],
               "fragment": [{"tagName": "", "children": [c["v"], node("Other.Inner", c["src"], c["v"] + "n", [])]}],
               "other": [node("Main", {"A": "B", "B": "C", "C": "A"}[c["src"]], c["v"] + "n", [])]}[c["kid"]]
        n = node(c["name"], c["src"], c["v"], kid)
        n["attributes"]["key"] = e["key"]
        return n
    return {"tagName": "", "children": [{"tagName": "section", "children": [one(e) for e in row]}]}


def imported_job(h):
    ops = []
    for s in h[1:]:
        op = dict(s["op"])
        if op["op"] in ("put", "del"):
            op = dict(op="update", model=imported_model(s["seen"]["row"]))
        if op.get("nested"):
            op["v"] += "n"
        ops.append(op)
    return dict(kind="imported", cfg=h[0]["cfg"], ops=ops)


def nodes(want):
    out = []
    for n in want:
        out.append(n["text"] if "text" in n else [n["tag"], n["v"], nodes(n["kids"])])
    return out


def same_args(want, got):
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if isinstance(ARGS[w], dict):
            if not isinstance(g, dict) or g.get("arg") != 1:
                return False
        elif g != ARGS[w] or type(g) is not type(ARGS[w]):
            return False
    return True


def imported_compare(h, got):
    own, react = (h[0]["cfg"]["bind"] == x for x in ("own", "react"))
    if got[0] != [["roots", 0], ["dom", []]]:
        return f"before anything happened: {got[0]}"
    for s, notes in zip(h[1:], got[1:]):
        op, want = s["op"], s["seen"]
        odd = strange(notes, ("bind", "unmount", "heard", "asked", "sent", "roots", "dom") + ("rejected",) * (op["op"] == "fail"))
        if odd:
            return f"{odd} at {op}"
        if notes[-1] != ["dom", nodes(want["dom"])] and not (notes[-1] == ["dom", []] == ["dom", want["dom"]]):
            return f"displays {notes[-1][1]} instead of {nodes(want['dom'])} after {op}"
        if ["asked", False] in notes:
            return f"nothing asks for the module at {op}"
        for what, expect in (("bind", want["binds"]), ("unmount", want["unmounts"]), ("heard", [x for x, n in want["live"].items() for _ in range(n)] if op["op"] == "custom" else [])):
            did = sorted(x[1] for x in notes if x[0] == what)
            if own and did != sorted(expect):
                return f"{what}: {did} instead of {sorted(expect)} at {op}"
        if notes[-2] != ["roots", sum(want["live"].values()) if react else 0]:
            return f"{notes[-2][1]} roots of React instead of those of {want['live']} at {op}"
        if any(x[0] == "bind" and not x[2] for x in notes):
            return f"bound to a place outside of the document at {op}"
        sent = [x[3] for x in notes if x[0] == "sent"]
        if op["op"] == "event":
            if len(sent) != 1 or sent[0]["type"] != "layout-event" or sent[0]["target"] != "T" + op["v"] + "n" * op["nested"] or not same_args(op["sent"], sent[0]["data"]):
                return f"sent {sent} at {op}"
        elif op["op"] == "say" and own:
            if len(sent) != 1 or sent[0]["type"] != "custom":
                return f"sent {sent} at {op}"
        elif sent:
            return f"sent {sent} at {op}"
    return None


def run_imported(ctx):
    run_kind(ctx, "C28", [("ImportedGen", None, None, 0, 2 if ctx.quick else 1), ("ImportedGen", "ImportedSim.cfg", 350 if ctx.quick else 8000, 26, 1)],
             imported_job, imported_compare, lambda h: f"{h[0]['cfg']['bind']}:" + ",".join(s["op"]["op"] for s in h[1:]))


NOTE = ("Trusts TLC, node, esbuild, and the stand-ins for preact, the websocket and the document (a few hundred lines in js/), which "
        "do what the real ones document.")
CHECKS = {
    "C24": dict(run=run_conn, level="model_checking",
                technique="TLA+ specification of the browser's connection (Conn); TLC enumerates every operation in every reachable state and random histories, each replayed on the real client with a scripted websocket and clock",
                note="Four configurations, two handlers (three in random histories), up to three connections in every combination (twelve in random histories). " + NOTE),
    "C26": dict(run=run_input, level="model_checking",
                technique="TLA+ specification of a field shared by the user and the server (Input, Coalesce), whose agreement TLC checks in every reachable state; every transition and random histories are replayed on the real fields",
                note="One field with two handlers, three kinds of servers, four combinations of limits; two events and two updates on their way in every combination, twenty and four in random histories. " + NOTE),
    "C28": dict(run=run_imported, level="model_checking",
                technique="TLA+ specification of elements of JavaScript modules (Imported), with the balance of binding and unmounting checked by TLC; every transition and random histories are replayed on the real client with scripted modules",
                note="One element of two modules in every combination, three of three modules in random histories of twenty operations; modules with bindings of their own, and without them in pages with React, half of it, and without it. " + NOTE),
    "C25": dict(run=run_coalesce, level="model_checking",
                technique="TLA+ specification of throttled and debounced handlers (Coalesce); TLC enumerates every operation in every reachable state and random histories, each replayed on the real elements with a scripted clock",
                note="Two handlers in five combinations of throttle and debounce, small intervals, three events in every combination (forty in random histories). Elements of JavaScript modules are not covered. " + NOTE),
}
