"""C31: objects of the browser as plain data (spec/Clone.tla)."""
from __future__ import annotations

import json

import tlc
from checks.client import NOTE, Client

LEAVES = {"num": 1.5, "zero": 0, "empty": "", "yes": True, "no": False}
SELECTION = {"type": "Range", "anchorOffset": 0, "focusOffset": 2, "isCollapsed": False, "rangeCount": 1, "selectedText": "text"}


def data(t):
    if t["k"] == "leaf":
        return t["s"] if t["v"] == "str" else LEAVES[t["v"]]
    if t["k"] == "list":
        return [data(x["tree"]) for x in t["of"]]
    if t["k"] == "obj":
        return {x["n"]: data(x["tree"]) for x in t["of"]}
    if t["k"] == "selection":
        n = t["of"][0]["tree"]
        node = None if n["k"] == "stop" else data(n)
        return dict(SELECTION, anchorNode=node, focusNode=node)
    return None


def differ(want, got, at=""):
    if isinstance(want, dict) and isinstance(got, dict):
        for k in [*want, *got]:
            if k not in got or k not in want:
                return f"{at}.{k} is {'left out' if k in want else repr(got[k])[:80]} instead of {repr(want[k])[:80] if k in want else 'being left out'}"
            bad = differ(want[k], got[k], f"{at}.{k}")
            if bad:
                return bad
    elif isinstance(want, list) and isinstance(got, list):
        if len(want) != len(got):
            return f"{at} has {len(got)} items instead of {len(want)}"
        for i, (w, g) in enumerate(zip(want, got)):
            bad = differ(w, g, f"{at}[{i}]")
            if bad:
                return bad
    elif want != got or type(want) is not type(got):
        return f"{at} is {got!r} instead of {want!r}"
    return None


def run(ctx):
    plans = [("CloneGen", None, None, 0, 2 if ctx.quick else 1), ("CloneGen", "CloneSim.cfg", 200 if ctx.quick else 5000, 20, 1)]
    with Client() as client:
        for module, cfg, sim, depth, step in plans:
            cases, st = tlc.generate(module, cfg, sim=sim, depth=depth, seed=ctx.seed, pick=lambda i: (i + ctx.seed) % step == 0)
            ctx.tlc(st)
            for c in cases:
                if c["sel"]["t"] == "ref" and (len(c["g"]) < 2 or c["g"][1]["cls"] in ("array", "list")):
                    c["sel"] = {"t": "none"}
            parts = [cases[i::64] for i in range(64)]
            answers = client.run([dict(kind="convert", cfg=dict(cases=p), ops=[]) for p in parts])
            lost = [c for p, a in zip(parts, answers) if a is None or a[-1][-1:] and a[-1][-1][0] == "broken" for c in p]
            if lost:   # the converter did not come to an end (or died): with which?
                for c, a in zip(lost, client.run([dict(kind="convert", cfg=dict(cases=[c]), ops=[]) for c in lost], patience=20)):
                    if a and a[-1][-1:] and a[-1][-1][0] == "broken":
                        ctx.violation("C31@" + json.dumps(c["g"])[:190], a[-1][-1][1], dict(kind="convert", case=c))
                return
            for i, c in enumerate(cases):
                if len(answers[i % 64][0]) != len(parts[i % 64]):
                    raise tlc.MachineryError(str(answers[i % 64][0][-1])[:1000])
                [got] = answers[i % 64][0][i // 64]
                want = data(c["want"])
                ctx.add(traces_validated_against_impl=1)
                bad = got if isinstance(got, str) else differ(want, got)
                if bad:
                    key = "C31@" + ";".join(f"{o['cls']}:" + ",".join(f"{f['name']}-{f['where']}-{f['v']['t']}{f['v']['i'] or ''}{f['v']['s']}" for f in o["fields"])
                                            + "/" + ",".join(f"{v['t']}{v['i'] or ''}" for v in o["items"]) for o in c["g"])
                    ctx.violation(key[:200], bad, dict(kind="convert", case=c))
                    if len(ctx.violations) > 8:
                        return
            ctx.sample(dict(objects=cases[-1]["g"], sent=data(cases[-1]["want"])))


CHECKS = {"C31": dict(
    run=run, level="model_checking",
    technique="TLA+ specification of what an object of the browser becomes as plain data (Clone), its depth checked by TLC; TLC enumerates objects with every field and objects of every class in them, and walks through cyclic graphs of objects; the real converter is given each of them",
    note="Every field and value in objects of nine classes, cycles and rows of objects up to and beyond the greatest depth; random graphs of up to twenty objects. Objects are stand-ins that are read like the browser's (fields of classes, not enumerable, raising, iterable). " + NOTE,
)}
