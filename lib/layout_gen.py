"""Random data-driven component programs and driver scripts for the Layout conformance harness.

A program is plain JSON-able data:
  types: list of component types; type i only instantiates types j > i (so trees are finite)
  each type: init (initial slot values), ctx (context ids it consumes), effects, memos, tmpl, raises
The driver script is a list of ops interpreted by layout_rt.
"""
from __future__ import annotations

import random

KEYS = [None, None, None, "a", "b", "c", "1", 1, 0, "0", "a/b", "a'/'b"]
MOD = 5

DEFAULT = dict(
    ntypes=(2, 4), slots=(1, 2), depth=3, width=3, ops=(8, 22),
    p_el=0.42, p_comp=0.38, p_str=0.06, p_none=0.06, p_prov=0.08,
    p_alt=0.22, p_klist=0.22, p_handler=0.25, p_effect=0.35, p_async=0.3, p_memo=0.3,
    p_raise=0.06, p_dup=0.04, p_ctx=0.3, p_bodyset=0.05, p_effset=0.2, p_effraise=0.0,
    p_hraise=0.1, p_shield=0.4, p_input=0.4, p_memoraise=0.08,
    w_set=10, w_fire=5, w_yield=8, w_quiesce=3, w_stale=1, w_lag=2, w_burst=3, w_thread=0, p_wrap=0.12, p_vmemo=0.06, p_static=0.0,
    p_vals=0.35, p_when=0.2, p_qsize=0.15, p_fnf=0.3, p_cleanraise=0.1,
    p_async_mode=0.8, p_debug=0.5, p_midclose=0.3, p_cut=0.2,
)

PROFILES = {
    "C01": {},
    "C02": dict(p_klist=0.45, p_alt=0.35, p_comp=0.5, w_fire=1, p_effect=0.1, p_memo=0.1),
    "C03": dict(p_vals=0.5, w_thread=3, p_bodyset=0.12, p_effset=0.4, w_burst=8, w_set=16, p_handler=0.3),
    "C04": dict(p_effect=0.9, p_async=0.0, p_effset=0.3, p_klist=0.3, p_effraise=0.1),
    "C05": dict(p_effraise=0.1, p_effect=0.9, p_async=1.0, w_burst=6, w_yield=12, p_klist=0.25),
    "C06": dict(p_effraise=0.05, p_effect=0.8, p_async=0.4, p_klist=0.4, p_alt=0.4, p_raise=0.1, p_midclose=0.6, ops=(5, 16)),
    "C07": dict(p_raise=0.45, p_effect=0.4, p_memoraise=0.3, p_dup=0.05, p_handler=0.3),
    "C08": dict(p_vals=0.5, p_prov=0.35, p_ctx=0.9, p_el=0.3, p_comp=0.35, ntypes=(3, 5), p_effect=0.05, p_memo=0.05),
    "C09": dict(p_static=0.35, p_handler=0.7, w_fire=16, p_klist=0.35, w_stale=6, w_quiesce=5, p_when=0.45, p_effect=0.05, p_memo=0.05, p_hraise=0.2),
    "C10": dict(p_static=0.4, p_when=0.35, w_stale=5, p_qsize=0.5, p_fnf=0.5, p_handler=0.7, w_fire=20, w_burst=6, p_hraise=0.35, p_effect=0.05, p_memo=0.05, p_klist=0.15),
    "C11": dict(p_handler=0.8, p_input=0.95, w_fire=20, p_effect=0.05, p_memo=0.05, p_el=0.55, p_hraise=0.05),
    "C12": dict(p_vals=0.5, p_memo=0.95, p_memoraise=0.15, p_effect=0.1, w_set=16),
    "C13": dict(p_dup=0.5, p_klist=0.5, p_el=0.5, p_effect=0.3),
}


def profile(name: str) -> dict:
    p = dict(DEFAULT)
    p.update(PROFILES.get(name, {}))
    return p


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.invm = False

    def chance(self, k):
        return self.r.random() < self.p[k]

    def key(self):
        return self.r.choice(KEYS)

    def program(self):
        r, p = self.r, self.p
        n = r.randint(*p["ntypes"])
        types = []
        for i in range(n):
            self.i, self.n = i, n
            self.ns = r.randint(*p["slots"])
            t = dict(
                init=[r.randrange(MOD) for _ in range(self.ns)],
                ctx=[c for c in range(2) if r.random() < p["p_ctx"]],
                effects=[self.effect() for _ in range(2) if self.chance("p_effect")],
                memos=[self.memo() for _ in range(2) if self.chance("p_memo")],
                raises=None, bodyset=None,
            )
            for _ in range(8):
                self.comps, self.vm, self.given, self.sites = 0, [], i > 0 and self.chance("p_wrap"), []
                t["tmpl"] = self.node(0 if i < n - 1 else 1, root=True)
                if i == n - 1 or self.comps or r.random() < 0.1:
                    break
            t["vmemos"] = self.vm
            if i == 0 and len(self.sites) > 1 and self.chance("p_static"):
                # handlers that share a static target are displayed one at a time
                s = r.randrange(self.ns)
                vals = list(range(MOD))
                r.shuffle(vals)
                two = r.sample(self.sites, 2)
                for j, h in enumerate(two):
                    h["static"] = "static-target"
                    h["when"] = [s, *vals[2 * j:2 * j + 2]]
            if self.chance("p_raise") and (i > 0 or r.random() < 0.3):
                t["raises"] = [r.randrange(self.ns), r.randrange(MOD), r.choice(["early", "mid", "late"])]
            if self.chance("p_bodyset"):
                s = r.randrange(self.ns)
                a = r.randrange(MOD)
                t["bodyset"] = [s, a, (a + 1) % MOD]
            t["vals"] = r.choice([1, 2, 3, 4, 5, 6, 7, 8]) if self.chance("p_vals") else 0
            t["red"] = [r.random() < 0.25 for _ in range(self.ns)]
            types.append(t)
        return dict(types=types, same=r.random() < 0.4)

    def effect(self):
        r = self.r
        asy = self.chance("p_async")
        e = dict(kind="async" if asy else "sync", deps=self.deps(), cleanup=r.random() < 0.75,
                 set=None, cleanraise=self.chance("p_cleanraise"), **{"raise": False})
        if self.chance("p_effset"):
            e["set"] = [r.randrange(self.ns), r.choice(["set", "inc"]), r.randrange(MOD)]
        if asy:
            e["shield"] = self.chance("p_shield")
            e["yields"] = r.choice([0, 0, 1, 2, 5, 9])
            if not e["shield"] and r.random() < 0.25:
                e["yields"] = -1      # runs until cancelled
        if self.chance("p_effraise"):
            e["raise"] = True
        return e

    def memo(self):
        r = self.r
        return dict(kind=r.choice(["memo", "cb", "memo", "ref"]), deps=self.deps(),
                    bad=[r.randrange(self.ns), r.randrange(MOD)] if self.chance("p_memoraise") else None)

    def deps(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            return "none"
        if x < 0.35:
            return "empty"
        if x < 0.5:
            return ["clo", r.randrange(self.ns)]
        if x < 0.62:
            return ["len", r.randrange(self.ns)]
        return ["slot", r.randrange(self.ns)]

    def handler(self):
        r = self.r
        acts = []
        for _ in range(r.choice([0, 1, 1, 2])):
            acts.append([r.randrange(self.ns), r.choice(["set", "inc", "inc"]), r.randrange(MOD)])
        return {"async": r.random() < 0.6, "yields": r.choice([0, 0, 1, 3]), "acts": acts,
                "lag": r.choice([0, 0, 0, 1, 4]),     # takes as long to end, even when cancelled
                "raise": r.choice(["err", "err", "cancel"]) if self.chance("p_hraise") else False}

    def node(self, depth, root=False, key=None, forcekey=False):
        r, p = self.r, self.p
        if not forcekey:
            key = self.key()
        if not root and self.chance("p_alt"):
            return ["alt", r.randrange(self.ns), [self.plain(depth, key) for _ in range(r.choice([2, 2, 3]))]]
        return self.plain(depth, key, root)

    def plain(self, depth, key, root=False):
        r, p = self.r, self.p
        if self.given and not self.invm and not root and r.random() < 0.35:
            self.given = False
            return ["ch"]
        if not root and not self.invm and len(self.vm) < 2 and self.chance("p_vmemo"):
            self.invm = True
            self.vm.append([r.randrange(self.ns), self.plain(depth, key)])
            self.invm = False
            return ["vm", len(self.vm) - 1]
        last = self.i >= self.n - 1
        pe, pc, ps, pn, pp = p["p_el"], p["p_comp"], p["p_str"], p["p_none"], p["p_prov"]
        if last or self.comps >= 4:
            pc = 0
        if depth >= p["depth"]:
            pe, pp = 0.25, 0
            ps = 0.4
        x = r.random() * (pe + pc + ps + pn + pp)
        if x < pe:
            return self.el(depth, key)
        x -= pe
        if x < pc:
            self.comps += 1
            if self.chance("p_wrap"):
                return ["w", r.randrange(self.i + 1, self.n), key, self.children(max(depth, self.p["depth"] - 2) + 1)]
            return ["c", r.randrange(self.i + 1, self.n), key]
        x -= pc
        if x < ps:
            return ["s", r.randrange(self.ns) if r.random() < 0.6 else -1]
        x -= ps
        if x < pn:
            return ["n"]
        return ["p", r.randrange(2), r.randrange(self.ns), key, self.children(depth + 1)]

    def children(self, depth):
        r = self.r
        if depth >= self.p["depth"]:
            return [self.node(depth) for _ in range(r.choice([0, 1]))]
        return [self.node(depth) for _ in range(r.randint(0, self.p["width"]))]

    def el(self, depth, key):
        r = self.r
        hs = {}
        tag = r.choice(["div", "p"])
        if self.chance("p_handler"):
            if self.chance("p_input"):
                tag = r.choice(["input", "textarea", "select"])
            for ev in r.sample(["onClick", "onChange"], r.choice([1, 1, 2])):
                hs[ev] = self.handler()
                if not self.invm:
                    self.sites.append(hs[ev])
                # conditionally present handler
                if self.chance("p_when"):
                    hs[ev]["when"] = [r.randrange(self.ns), *r.sample(range(MOD), r.choice([1, 2, 3]))]
        if depth < self.p["depth"] and self.chance("p_klist") and not (self.i >= self.n - 1 and r.random() < 0.5):
            keys = r.sample(["a", "b", "c", "1", 1, 0, "a/b", 2], r.choice([2, 3, 3, 4]))
            items = {}
            for j, k in enumerate(keys):
                items[j] = self.plain(depth + 1, k)
            perms = []
            for _ in range(MOD):
                m = r.sample(range(len(keys)), r.randint(0, len(keys)))
                if m and self.chance("p_dup"):
                    m.append(r.choice(m))
                perms.append(m)
            ch = [["kl", r.randrange(self.ns), [items[j] for j in range(len(keys))], perms]]
            if r.random() < 0.3:
                ch.insert(0, self.node(depth + 1))
            if r.random() < 0.3:
                ch.append(self.node(depth + 1))
        else:
            ch = self.children(depth + 1)
        return ["e", tag, key, r.randrange(self.ns) if r.random() < 0.7 else -1, hs, ch]

    def script(self):
        r, p = self.r, self.p
        ops = []
        weights = [("set", p["w_set"]), ("fire", p["w_fire"]), ("yield", p["w_yield"]), ("quiesce", p["w_quiesce"]),
                   ("stale", p["w_stale"]), ("lag", p["w_lag"]), ("burst", p["w_burst"]), ("thread", p["w_thread"])]
        names = [w[0] for w in weights]
        ws = [w[1] for w in weights]
        if r.random() < 0.8:
            ops.append(["quiesce"])
        for _ in range(r.randint(*p["ops"])):
            k = r.choices(names, ws)[0]
            if k == "set" or k == "thread":
                ops.append([k, r.random(), r.random(), r.choice(["set", "inc", "inc"]), r.randrange(MOD), r.random() < 0.1])
            elif k == "fire":
                ops.append(["fire", r.random(), r.choice([1, 1, 2, 3])])
            elif k == "yield":
                ops.append(["yield", r.choice([1, 1, 2, 3, 5, 8, 13])])
            elif k == "quiesce":
                ops.append(["quiesce"])
            elif k == "stale":
                ops.append(["stale", r.random()])
            elif k == "lag":
                ops.append(["lag", r.choice([0, 0, 3, 8, 20])])
            else:
                ops.append(["burst", [[r.random(), r.random(), r.choice(["set", "inc"]), r.randrange(MOD), r.choice([0, 0, 1, 2])]
                                      for _ in range(r.randint(2, 5))]])
        mid = r.random() < p["p_midclose"]
        ops.append(["close", "mid" if mid else "quiet"])
        return dict(ops=ops, async_mode=r.random() < p["p_async_mode"], debug=r.random() < p["p_debug"],
                    qsize=r.choice([1, 1, 2, 3]) if r.random() < p["p_qsize"] else 1000, fnf=r.random() < p["p_fnf"],
                    cuts=[r.choice([0, 1, 2, 3, 5, 9, 20]) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < p["p_cut"] else [])


def generate(seed, prof_name):
    prof = profile(prof_name)
    g = Gen(seed, prof)
    prog = g.program()
    return prog, g.script()
