"""Writes properties.jsonl (kept as code so that statements are easy to edit)."""
import json
from pathlib import Path

L = "src/reactpy/core/layout.py"
H = "src/reactpy/core/_life_cycle_hook.py"
K = "src/reactpy/core/hooks.py"
E = "src/reactpy/core/events.py"
V = "src/reactpy/core/vdom.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Applying the updates in order gives the browser the current tree",
     "A client that applies every update a layout hands out, in the order it is handed out, by replacing the model at the update's path, never meets a path that does not exist and, whenever nothing is left to do, displays exactly the tree that the latest results of all mounted components describe (same elements, attributes, order, text and event handlers). This holds however renders of different components overlap in time.",
     ["programs", "schedules", "histories"],
     "All component programs (nested components, keyed and unkeyed children, fragments, providers, memoized and passed-on children), all sequences of state changes and events, with and without concurrent rendering, any consumer speed.",
     "The tests render small fixed trees with one change at a time and compare single updates; whether updates of overlapping renders compose to the right tree depends on interleavings and tree shapes they never reach.",
     [L], [("paths and models of updates", f"{L}:_create_layout_update"), ("concurrent render tasks", f"{L}:_parallel_render"),
           ("child diffing", f"{L}:_render_model_children")], ["Layout.render()"])
prop("C02", "Component state follows identity among siblings",
     "A component keeps its state across renders exactly as long as the same component, with the same key (or the same position when it has none), is displayed inside the same chain of keyed ancestors; otherwise it starts from its initial state. State never moves to another component and no two displayed components share it.",
     ["programs", "histories"],
     "All trees and all sequences of re-orderings, insertions, removals, type changes and renders of any subset of components.",
     "The tests check a few hand-picked reorderings of flat lists; the guarantee is about every history of trees, including nested reorderings combined with concurrent state changes.",
     [L, H], [("matching old and new children by key", f"{L}:_render_model_children"), ("hook preserved across renders", f"{L}:_update_life_cycle_state"),
              ("hook state by call order", f"{H}:use_state")], ["component bodies"])
prop("C03", "Every state change is rendered, with the values in order, and nothing more",
     "Each call of a state setter is applied to the value left by the previous calls, a body run and the handlers and effects it creates see the values current when it began, and once nothing is left to do every displayed component has rendered with its current state. A component does not render again without a state change of its own or a render of its owner; setting an equal value causes no render, and all this holds for setters called from bodies, effects, handlers and other threads.",
     ["programs", "schedules", "histories"],
     "All programs and all timings of setter calls relative to renders in progress.",
     "Tests set state at quiet moments and wait for the next render; lost updates and stale values appear only when a set falls into a render, a cancellation or another thread.",
     [K, H, L], [("dispatch", f"{K}:_CurrentState"), ("scheduling flag", f"{H}:schedule_render"), ("render tasks", f"{L}:_schedule_render_task")],
     ["component bodies", "Layout.render()"])
prop("C04", "Effects run after the commit, once per change, with paired clean-ups",
     "A synchronous effect runs once for each render in which its dependencies changed, in order, and only after the whole render that scheduled it is complete. Its clean-up runs exactly once: before the next run of the same effect or when the component is unmounted, and never while the effect is still current.",
     ["programs", "schedules", "histories"],
     "All programs with effects, all dependency histories, all interleavings of renders and unmounts.",
     "Tests observe a handful of effects with one or two renders; pairing must hold for every history, including renders that overlap, fail or are abandoned.",
     [K, H, L], [("use_effect", f"{K}:use_effect"), ("effect tasks and stop events", f"{H}:affect_layout_did_render"), ("unmount", f"{H}:affect_component_will_unmount")],
     ["effect functions"])
prop("C05", "Asynchronous effects never overlap, are cancelled or awaited, and are cleaned up",
     "At most one run of an asynchronous effect is active at a time and a newer one starts only after the older one has ended and been cleaned up; the latest due run of a mounted component always takes place. When superseded or unmounted, an unshielded run is cancelled and a shielded one is left to finish; every run that completed is cleaned up exactly once, and no run is cancelled without such a reason.",
     ["programs", "schedules", "histories"],
     "All asynchronous effects (any number of suspension points, endless ones, shielded or not) under all timings of re-renders and unmounts.",
     "Tests use one effect and one change at a time; overlap and lost clean-ups need several changes while a run is suspended.",
     [K, H], [("use_async_effect", f"{K}:use_async_effect"), ("unmount waits for effects", f"{H}:affect_component_will_unmount")], ["effect functions"])
prop("C06", "Unmounting and closing leave nothing behind",
     "Once a component is no longer displayed and things have settled, none of its effects is active, its clean-ups have run and neither its body, its effects nor its event handlers run again. Closing a layout at any moment, even in the middle of renders, effects and events, succeeds and does the same for all of its components, and no task of the layout survives.",
     ["programs", "schedules", "crash_points", "histories"],
     "All programs and all moments at which parts are removed or the layout is closed.",
     "Tests close layouts that are idle; leaks and errors depend on what is in flight at that moment.",
     [L, H], [("closing", f"{L}:__aexit__"), ("unmounting a subtree", f"{L}:_unmount_model_states"), ("effects of a component", f"{H}:affect_component_will_unmount")],
     ["effect clean-ups", "asyncio tasks"])
prop("C07", "An error while rendering stays within its component and is recoverable",
     "When a component fails to render, the rest of the tree is displayed as usual, an error (whose text is shown only in debug mode) takes the component's place, and everything it displayed before is unmounted. Its state survives and its next successful render displays it normally again, wherever in the body the error occurred.",
     ["programs", "fault_sequences", "histories"],
     "All subsets of components failing in any renders, at any point of their bodies, including errors raised by memoized computations and invalid trees.",
     "Tests make one component fail in its first render; recovery and containment depend on when, how often and where in the tree errors occur.",
     [L, H], [("error boundary per component", f"{L}:_render_component"), ("state of an interrupted body run", f"{H}:use_state")], ["Layout.render()"])
prop("C08", "Context consumers see the value of the nearest provider above them",
     "A component that reads a context sees the value of the nearest enclosing provider of that context in the displayed tree, or the default when there is none, in every render, including renders of its own that do not involve the provider. A new value reaches all consumers below.",
     ["programs", "histories"],
     "All nestings of providers of several contexts, components and passed-on children, and all histories of renders.",
     "Tests use one or two providers in fixed places; nesting, re-rendering subsets and moving consumers produce unboundedly many situations.",
     [K, H, L], [("provider lookup", f"{H}:get_context_provider"), ("inheritance", f"{H}:set_current"), ("provider component", f"{K}:ContextProvider")], ["component bodies"])
prop("C09", "An event reaches the current handler of its element, once",
     "An event on a displayed element is handled exactly once, by the handler that the latest render of the element gave it (or, if a render is under way, one between what the client saw and that). It never reaches a handler of another element or of an unmounted component, and events for elements that are gone are dropped without harm.",
     ["programs", "schedules", "histories"],
     "All trees (keys of any kind, static targets that move), all histories of renders and all sequences of events on current or outdated elements.",
     "Tests click a few buttons in fixed trees; collisions of targets and races between rendering and events need particular keys and timings.",
     [L], [("target of a handler", f"{L}:_render_model_attributes"), ("delivery", f"{L}:_process_event_queue")], ["event handlers"])
prop("C10", "Events on one element are handled in order, one at a time, despite errors",
     "Events for the same element event are handled in the order they were delivered and the next one begins only after the previous handler has finished, while other elements' events proceed. A handler that raises, or is cancelled from within, does not prevent later events from being handled.",
     ["programs", "schedules", "fault_sequences"],
     "All mixes of slow, failing and ordinary handlers and all bursts of events.",
     "Tests deliver single events; order and survival show only with bursts on suspended or failing handlers.",
     [L], [("queue and task per target", f"{L}:deliver"), ("error handling", f"{L}:_process_event_queue")], ["event handlers"])
prop("C11", "Acknowledgements on inputs tell exactly which events a tree accounts for",
     "The sequence number attached to a user input element never claims an event that had not been taken up when the component that created the element began to render, so a client that waits for it never replaces newer typing by older content. It is at least as high as the last event taken up before the render began, and it appears on input elements only.",
     ["programs", "schedules", "histories"],
     "All timings of keystroke events relative to renders, for input elements that a component creates itself in the render in question.",
     "Tests look at the number after one event at a quiet moment; the guarantee is about events that arrive while renders are under way.",
     [L], [("recording", f"{L}:_process_event_queue"), ("attaching", f"{L}:_inject_event_ack_seq")], ["Layout.render()"])
prop("C12", "Memoized values, callbacks and refs are stable until dependencies change",
     "A memoized value or callback is the same object in every render whose dependencies equal those of the last successful computation and is computed anew whenever they differ (also in length) or are absent; dependencies that are not given are taken from the function's closure. A failed computation is repeated in the next render and a ref stays the same object for the life of the component.",
     ["programs", "histories", "inputs"],
     "All sequences of dependency values across renders, including failing computations and renders cut short.",
     "Tests change one dependency once; staleness shows in particular sequences such as a failure followed by the old value.",
     [K, "src/reactpy/utils.py"], [("use_memo", f"{K}:use_memo"), ("closure inference", f"{K}:_try_to_infer_closure_values"), ("comparison", f"{K}:strictly_equal")], ["component bodies"])
prop("C13", "Duplicate keys among siblings are an error of the component, at any time",
     "If two children of one element have the same key, given or implied by their position, the component that contains it displays an error instead, in the first render and in any later one, and displays its content again as soon as the keys are unique. Nothing else is affected and nothing remains mounted below the error.",
     ["inputs", "histories"],
     "All child lists with any mix of explicit and positional keys, and all histories in which they become ambiguous and unambiguous again.",
     "Tests have one static duplicate; later appearances, nested lists and recoveries are not covered.",
     [L], [("detection", f"{L}:_get_children_info"), ("error boundary", f"{L}:_render_component")], ["Layout.render()"])

EXTRA = Path(__file__).with_name("props_extra.py")
if EXTRA.exists():
    exec(EXTRA.read_text())

out = Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
