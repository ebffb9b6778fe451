"""Root components served by the checks of the ASGI application."""
import reactpy
from reactpy import html, use_effect, use_location, use_scope, use_state

LOG = []            # (what, session number)
PUSH = {}           # session number -> setter
EVENTS = []


def make(name):
    @reactpy.component
    def root():
        n, set_n = use_state(0)
        loc = use_location()
        sid = use_scope()["verif_session"]

        @use_effect(dependencies=[])
        def mounted():
            LOG.append(("mount", sid))
            PUSH[sid] = set_n

            def unmounted():
                LOG.append(("unmount", sid))
                PUSH.pop(sid, None)
            return unmounted

        def inc(event):
            EVENTS.append((sid, event))
            set_n(lambda x: x + 1)

        def boom(event):
            raise ValueError("handler")

        return html.div(
            html.button({"onClick": inc}), html.button({"onClick": boom}),
            html.p(f"{name}:{n}@{loc.path}|{loc.query_string}"))
    return root


a = make("a")
b = make("b")
own = make("own")
