"""Pages with fields whose values belong to the server."""
import reactpy
from reactpy import component, html, use_effect, use_scope, use_state

FIRST = "s"


class Site:
    """the root component for a configuration, what its sessions were told, and handles on their state"""

    def __init__(self, cfg):
        self.cfg, self.told, self.push = cfg, [], {}
        self.root = {"form": self.form, "parts": self.parts, "linked": self.linked}[cfg["mode"]]()

    def field(self, i, value, change):
        tag = getattr(html, self.cfg["tags"][i])
        handler = reactpy.event(change, debounce=300) if self.cfg["deb"] else reactpy.event(change, throttle=300) if self.cfg["thr"] else change
        kids = [html.option({"value": value}, value)] if self.cfg["tags"][i] == "select" else []
        return tag({"onChange": handler, "value": value, **({"key": f"k{i}"} if self.cfg["keys"] else {})}, *kids)

    def gone(self, i):
        return html.p({"key": f"k{i}"} if self.cfg["keys"] else {})

    def answer(self, i, old, v):
        """field -> value"""
        s = self.cfg["srv"][i]
        if s == "copy":
            return {i: v, (i + 1) % len(self.cfg["srv"]): v}
        return {i: {"echo": v, "mark": f"N{v}", "fix": "K"}.get(s, old)}

    def form(self):
        n = len(self.cfg["srv"])

        @component
        def form():
            vals, set_vals = use_state((FIRST,) * n)
            vis, set_vis = use_state((True,) * n)
            sid = use_scope()["verif_session"]

            def put(new):
                set_vals(lambda vs: tuple(new.get(i, v) for i, v in enumerate(vs)))

            @use_effect(dependencies=[])
            def handles():
                self.push[sid] = dict(push=lambda i, v: put({i: v}), toggle=lambda i: set_vis(lambda x: tuple(not s if j == i else s for j, s in enumerate(x))))

            def change(i):
                def changed(event):
                    put(self.answer(i, vals[i], event["target"]["value"]))
                return changed

            return html.form([self.field(i, v, change(i)) if vis[i] else self.gone(i) for i, v in enumerate(vals)] if self.cfg["keys"] else
                             html._(*[self.field(i, v, change(i)) if vis[i] else self.gone(i) for i, v in enumerate(vals)]))
        return form

    def parts(self):
        n = len(self.cfg["srv"])

        @component
        def part(i):
            value, set_value = use_state(FIRST)
            sid = use_scope()["verif_session"]

            @use_effect(dependencies=[])
            def handles():
                self.push[sid, i] = set_value

            return self.field(i, value, lambda event: set_value(self.answer(i, value, event["target"]["value"])[i]))

        @component
        def parts():
            vis, set_vis = use_state((True,) * n)
            sid = use_scope()["verif_session"]

            @use_effect(dependencies=[])
            def handles():
                self.push[sid] = dict(push=lambda i, v: self.push[sid, i](v), toggle=lambda i: set_vis(lambda x: tuple(not s if j == i else s for j, s in enumerate(x))))

            kids = [(part(i, key=f"k{i}") if self.cfg["keys"] else part(i)) if vis[i] else self.gone(i) for i in range(n)]
            return html.div(kids) if self.cfg["keys"] else html.div(*kids)
        return parts

    def linked(self):
        def cast(v):
            if self.cfg["bad"] and v == "x":
                raise ValueError(v)
            return "c" + v

        @component
        def linked():
            attrs = [{**({"key": f"k{i}"} if self.cfg["keys"] else {}), "title": str(i)} for i in range(len(self.cfg["srv"]))]
            return html.div(*reactpy.widgets.use_linked_inputs(attrs, on_change=self.told.append, cast=cast, initial_value=FIRST, ignore_empty=not self.cfg["empty"]))
        return linked
