prop("C22", "Options have the value last given to them, and subscribers know it",
     "A configuration option has the value that was last assigned to it, else that of its environment variable, else its parent's value at the time, else its default; each value has passed its validation and a rejected assignment changes nothing. Subscribers are told the current value when they subscribe and afterwards exactly each change, once, including changes by removal, by reloading, and of the parent. Immutable options never change after loading.",
     ["histories", "configurations", "inputs"],
     "All histories of assigning, removing, defaulting, reloading and subscribing on ordinary, child, immutable and deprecated options under all environments.",
     "Tests do each operation once on a fresh option; combinations such as an environment variable of a child, or a default equal to the current value, are not covered.",
     ["src/reactpy/_option.py", "src/reactpy/config.py"], [("options", "src/reactpy/_option.py:Option"), ("the options of the library", "src/reactpy/config.py:REACTPY_DEBUG")], ["Option"])
prop("C14", "Event handler functions are called once, with the event, and awaited",
     "Whatever callable is given as an event handler (function, coroutine function, method, partial, callable object), each delivered event calls it exactly once with the event and the call is over only when any coroutine it returned has ended; its errors are not swallowed. A handler merged of several calls each of them once, in order, side by side, is done when all are, fails if one fails, and has the flags of its parts, which must agree.",
     ["inputs", "schedules", "configurations"],
     "All kinds and shapes of callables, all combinations and orders of completion of merged functions.",
     "Tests call one function and one coroutine, and merge two that never wait or fail; callables of other kinds never occur.",
     ["src/reactpy/core/events.py", "src/reactpy/types.py"], [("handlers", "src/reactpy/core/events.py:to_event_handler_function"), ("merging", "src/reactpy/core/events.py:merge_event_handlers")], ["Handler", "Merge"])
prop("C15", "The browser is told what the body of an event handler uses",
     "A handler whose body calls preventDefault or stopPropagation on its event, or assigns a number to event.debounce, is announced to the browser with exactly these flags in addition to those declared, whatever the shape of the function; uses on other objects are ignored, and a debounce that cannot be known beforehand is not guessed.",
     ["inputs", "configurations"],
     "All bodies composed of uses and non-uses of the event, in all shapes of callables and with all declared flags.",
     "Flags are found by looking at bytecode: each test has one body in one shape, and combinations change which instructions occur and in which order.",
     ["src/reactpy/core/_event_inspect.py", "src/reactpy/core/events.py", "src/reactpy/core/layout.py"],
     [("inspection", "src/reactpy/core/_event_inspect.py:inspect_event_handler"), ("announcement", "src/reactpy/core/layout.py:_serialize_event_handler")], ["Handler"])
prop("C16", "Elements are what their constructor was given",
     "An element constructor makes an element of the tag asked for with all the children given, in order and with iterables flattened, and with each attribute as exactly one of attribute, event handler or inline JavaScript; it invents, loses and changes nothing, or refuses (children of elements that cannot have any, attributes of fragments, ...). What is sent to the browser for it is the same.",
     ["inputs", "configurations"],
     "All constructors, nested arguments of all kinds of iterables, and attribute names with all kinds of values.",
     "Tests list a few calls per constructor; the kinds of iterables, values and names multiply.",
     ["src/reactpy/core/vdom.py", "src/reactpy/_html.py", "src/reactpy/core/layout.py"],
     [("construction", "src/reactpy/core/vdom.py:Vdom"), ("special elements", "src/reactpy/_html.py:_script")], ["Vdom"])
prop("C18", "Serving sends every update in order and ends completely",
     "While a layout is served, every update it has is sent, one at a time and in order; every message received is given to the layout, in order and without waiting for earlier ones. When any part fails, or the serving is cancelled, everything that is going on is stopped, the layout is closed exactly once after that, and the failure is reported.",
     ["schedules", "fault_sequences", "histories"],
     "All histories of updates, sends that take time or fail, messages, deliveries that take time or fail, and cancellation at any point.",
     "Tests serve one layout with a connection that never delays or fails; they cannot cover the order of completions.",
     ["src/reactpy/core/serve.py"], [("serving", "src/reactpy/core/serve.py:serve_layout")], ["Serve"])
prop("C19", "Every connection has a session of its own, which ends with it",
     "Every websocket connection to a root component gets that component afresh, with the location and scope of its own browser; its events change only its own display, and everything sent to it is for it. It is accepted before anything is sent. When the browser leaves, the connection breaks or misbehaves, its component is unmounted exactly once and its application returns; errors, floods of events and ends of other sessions have no effect on it.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "All histories of connecting, events, pushes from other threads, bad messages, broken connections and leaving, of several browsers at once, to the middleware and the standalone application.",
     "Tests with a browser follow one orderly session; leaks and crossings between sessions show only when several end at awkward moments.",
     ["src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/core/serve.py", "src/reactpy/core/layout.py"],
     [("websocket", "src/reactpy/executors/asgi/middleware.py:ReactPyWebsocket"), ("dispatch", "src/reactpy/executors/asgi/middleware.py:ComponentDispatchApp")], ["Session"])
prop("C17", "HTML text and elements are converted into each other without losses",
     "The elements made of an HTML document have its tags, texts and attributes, in order, under the names and with the values React gives them: boolean attributes are on, styles are kept declaration by declaration, form fields have their initial values and selections, inline JavaScript stays on its element, and keys are unique among siblings. The HTML made of elements, components and fragments is well-formed and shows all that and nothing else; converted there and back a document means the same.",
     ["inputs"],
     "All documents and elements composed of containers, void elements, fields, selections, links, styles, texts, fragments and components.",
     "Tests convert a dozen short documents; what is lost depends on combinations of elements, attributes and values.",
     ["src/reactpy/utils.py", "src/reactpy/transforms.py"],
     [("from HTML", "src/reactpy/utils.py:string_to_reactpy"), ("to HTML", "src/reactpy/utils.py:reactpy_to_string"), ("React's conventions", "src/reactpy/transforms.py:RequiredTransforms")], ["Html"])
prop("C20", "Each request is answered by exactly what its path stands for",
     "A request is answered by the extra route whose pattern matches its whole path (the first one registered for its type), by the dispatcher of components, the static files or the JavaScript modules below the path prefix, by the user's application for everything else, and by the page where there is none; files are only ever taken from inside the served directories; other scopes reach whoever handles them. A websocket gets the component named in its request if, and only if, that component is known to the application.",
     ["inputs", "configurations", "histories"],
     "All paths, types, prefixes and routes (with alternatives, segments and wildcards), and escapes from the directories in all encodings.",
     "Tests ask for one path per kind with the default prefix; overlaps, prefixes, alternatives and traversal are combinations of them.",
     ["src/reactpy/executors/asgi/middleware.py", "src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/utils.py"],
     [("routing", "src/reactpy/executors/asgi/middleware.py:ReactPyMiddleware"), ("extra routes", "src/reactpy/executors/asgi/standalone.py:ReactPy"), ("files", "src/reactpy/executors/asgi/middleware.py:StaticFileApp")], ["Route"])
prop("C21", "The page is complete, current and cacheable",
     "The page of a standalone or PyScript application is well-formed HTML with the head, title, language, mount point, path and configuration of that application, and is the same for everyone. GET answers have the page, HEAD answers the same headers without it; content-length, ETag, Last-Modified and the headers asked for by the application are right. A browser is told that its copy is current only when it is.",
     ["inputs", "configurations", "histories"],
     "All configurations of applications with the requests that follow from their earlier answers.",
     "Tests look for a few substrings of one page in ASCII.",
     ["src/reactpy/executors/asgi/standalone.py", "src/reactpy/executors/asgi/pyscript.py", "src/reactpy/executors/utils.py", "src/reactpy/executors/pyscript/utils.py"],
     [("page", "src/reactpy/executors/asgi/standalone.py:ReactPyApp"), ("PyScript page", "src/reactpy/executors/asgi/pyscript.py:ReactPyPyscriptApp"), ("head", "src/reactpy/executors/utils.py:vdom_head_to_html")], ["Page"])
prop("C23", "Published JavaScript modules are complete files, and export what they say",
     "When a JavaScript module given as a file or a text is registered under a name, what browsers get under that name is, at every moment, either the complete content it had before or the complete new content, whatever happens to the registering process and whatever other processes register at the same time; once the registration is done it is the new one (and with a link, the source as it is then). A process that died in the middle does not keep others from registering. The element made refers to exactly this module, with the fallback and options given. When names are resolved, the names of a module are those a browser would find: declarations, lists, renamings, defaults and everything re-exported (except defaults), in files, texts and URLs, also when modules re-export each other, and asking for a name that is not exported is refused.",
     ["histories", "crash_points", "schedules", "inputs"],
     "All histories of publications, changes of sources, kills and reads by several processes at every change of the directory; all modules composed of exporting statements and all graphs of modules that re-export.",
     "Tests publish each file once in one process and read it afterwards; they parse three fixture modules. What is in the directory half way, and combinations of exporting statements, never occur.",
     ["src/reactpy/reactjs/__init__.py", "src/reactpy/reactjs/module.py", "src/reactpy/reactjs/utils.py"],
     [("publication", "src/reactpy/reactjs/utils.py:copy_file"), ("modules", "src/reactpy/reactjs/module.py:file_to_module"), ("exported names", "src/reactpy/reactjs/utils.py:resolve_names_from_source")], ["Modules", "Exports"])
CL = "src/js/packages/@reactpy/client/src/"
prop("C24", "The browser reconnects, and messages are neither lost nor reordered",
     "The browser's client connects to the server once something listens (over wss on https pages, telling the current path and query of the page at every connection), and has at most one connection at a time. Messages sent while there is no open connection are kept, and sent in order when there is one; messages from the server reach exactly the handlers registered for their type at that time, each once. Once there has been a connection, whenever it breaks or a further attempt fails, the next attempt follows after the configured interval, which grows by its factor up to its maximum and starts over after a success, as many times in a row as configured.",
     ["histories", "fault_sequences", "configurations"],
     "All histories of registrations, sends, messages, navigation, opening, closing and failing connections and passing time, under all settings of the reconnection.",
     "The tests run one browser on a connection that never breaks; retries, waits and what happens to messages between connections depend on the order of failures.",
     [CL + "client.ts", CL + "websocket.ts", CL + "mount.tsx"], [("client", CL + "client.ts:BaseReactPyClient"), ("reconnection", CL + "websocket.ts:createReconnectingWebSocket"), ("addresses", CL + "mount.tsx:mountReactPy")], ["Conn"])
prop("C25", "Throttled and debounced events are limited, and the last one arrives",
     "A throttled handler of an element (any element) sends at most one event per interval, the first of a burst at once and the last of it at the end of the interval; a debounced one of an input, select or textarea sends the last event once no further one came for its delay; with both, both apply. This holds however often the element is rendered in between, per handler, and with late timers; nothing is sent twice or after a newer event. preventDefault and stopPropagation apply to every event when it happens.",
     ["histories", "schedules", "configurations"],
     "All histories of events of two handlers, renders with the same or other limits, and time passing with timers on time or late, for all combinations of limits.",
     "The JavaScript is not unit tested; the tests with a browser can't hold events and renders at chosen times.",
     [CL + "components.tsx", CL + "vdom.tsx", CL + "handler.ts"], [("limits", CL + "components.tsx:throttleHandler"), ("of elements", CL + "components.tsx:StandardElement"), ("of fields", CL + "components.tsx:UserInputElement")], ["Coalesce"])
prop("C26", "Typed text is never overwritten by an outdated value",
     "What the user types into an input, select or textarea stays until a rendered update accounts for all events of the field so far (including those still delayed by throttle or debounce); an update that does makes the field show the server's value, whatever the server made of the text. So once the server has handled everything and its update is displayed, the field shows what the server says. A field whose value the server doesn't determine is never written. The events of a field are numbered in the order they are sent.",
     ["histories", "schedules", "configurations"],
     "All interleavings of typing, keys, timers, handling, rendering, pushes by the server and delivery of updates, for servers that take over, change or ignore the text, and all limits.",
     "The tests type in a browser with the server idle; lost or reverted text needs an update that crosses a keystroke at a certain moment.",
     [CL + "components.tsx", CL + "vdom.tsx", "src/reactpy/core/layout.py"], [("fields", CL + "components.tsx:UserInputElement"), ("numbers of events", CL + "vdom.tsx:createEventHandler"), ("acknowledgement", "src/reactpy/core/layout.py:_inject_event_ack_seq")], ["Input"])
prop("C27", "The browser shows what components returned, and keeps what stays",
     "After each update is displayed, the document consists of exactly the elements, texts, attributes, handlers and inline JavaScript that the components returned last; a component that failed shows its error in debug mode and nothing otherwise, and its content again after it recovers. The node of an element stays the same while its element keeps its key (or its component does) among its siblings, wherever it moves, or its place among siblings without keys, and is a new one when its key or tag changed. Using an element sends its event to exactly the handler of that element (with preventDefault and stopPropagation as declared), and inline JavaScript runs with the event and the element as this.",
     ["programs", "histories", "inputs"],
     "All trees of components, elements, fragments, texts, fields and scripts with and without keys, and all histories of insertions, removals, moves, changes, failures and recoveries, rendered by any component around the change.",
     "The tests compare single updates of the server, or a few pages in a browser; what a browser makes of a sequence of partial updates depends on combinations of changes.",
     [CL + "components.tsx", CL + "vdom.tsx", "src/reactpy/core/layout.py"], [("display", CL + "components.tsx:Layout"), ("elements", CL + "components.tsx:Element"), ("attributes and handlers", CL + "vdom.tsx:createAttributes"), ("updates", "src/reactpy/core/layout.py:_create_layout_update")], ["Display"])
prop("C28", "JavaScript components are bound once, stay current, and end once",
     "The module of a JavaScript component in the page is loaded (from its URL, or by its name from the path of modules) when it is first displayed, or gets another source; then the component named is bound, once, to a node in the document and displays what the last update says, with the events of its elements sent to their handlers. Until then its fallback is displayed. When it's removed or gets another source it is unmounted exactly once and never rendered again, however loading and updates overlap; one that asks for it is also unmounted before every update. The same holds for components of other modules within it. What a module sends and listens to by the context of its binding goes over the connection of the page.",
     ["histories", "schedules", "inputs"],
     "All histories of adding, changing, nesting and removing components of several modules while modules load, fail or arrive late, with modules' own or the built-in binding.",
     "The tests load a few modules in a browser, in order; removal, change or update while a module is loading does not occur.",
     [CL + "components.tsx", CL + "vdom.tsx", CL + "bind.tsx"], [("elements of modules", CL + "components.tsx:useImportSource"), ("loading and nesting", CL + "vdom.tsx:loadImportSource"), ("nested ones", CL + "vdom.tsx:ReactPyChild")], ["Imported"])

PS = "src/reactpy/executors/pyscript/"
prop("C29", "A PyScript component's script in the page does what the given Python files do",
     "A page (ReactPyCsr), template (pyscript_setup and pyscript_component tags) or component (pyscript_component) that contains a PyScript component has one element for it, with a new id, the class 'pyscript' and the initial content given, and one script of that id. The script that a browser finds there is valid, and its root component gets what it would get if the files given were run as they are, one after another: every text (string, f-string or bytes; of any quotes; over several lines) has the value it has in the file, whatever looks like a comment, docstring, tab, blank line, HTML tag or the layout handler's own code within it, and whatever comments, docstrings and blank lines there are around it. The setup contains the packages, JavaScript modules and settings given, besides those that are always there.",
     ["inputs"],
     "Every Python file is an input: each statement, with each kind of text in it, must mean in the page what it means in the file.",
     "The tests use a handful of fixed files without unusual texts, and look at parts of the HTML produced.",
     [PS + "utils.py", PS + "component_template.py", PS + "components.py", "src/reactpy/executors/asgi/pyscript.py", "src/reactpy/templatetags/jinja.py"],
     [("minified code", PS + "utils.py:minify_python"), ("put into the template", PS + "utils.py:pyscript_executor_html"), ("setup", PS + "utils.py:pyscript_setup_html")],
     ["Script"])

prop("C30", "PyScript components show their state, hear events, and end with their place",
     "A PyScript component displays in its element, in the page, what its components last returned: each element with its tag, attributes (React's and HTML's names alike; nothing for an attribute that is False or None; styles as declarations), texts and children in order. An event of an element is sent to the handler it has now, once, with preventDefault and stopPropagation done at once if asked for. Several components in a page have nothing to do with each other, and when another one starts, those whose element isn't in the page any more come to their end (their effects are cleaned up) while the others go on.",
     ["histories", "inputs"],
     "All histories of state changes in trees of components and of coming and going of components in the page.",
     "The layout handler only runs in a browser with PyScript, which the tests start for two or three small examples.",
     [PS + "layout_handler.py", PS + "component_template.py"],
     [("elements built", PS + "layout_handler.py:build_element_tree"), ("events", PS + "layout_handler.py:create_event_handler"), ("end", PS + "layout_handler.py:delete_old_workspaces")],
     ["Display", "Workspace"])

ETO = "src/js/packages/event-to-object/src/index.ts"
prop("C31", "What an event holds reaches the server as plain data, whatever else it holds",
     "An event (or any object or list) given to an event handler is turned into plain data that can be written as JSON; this always ends, and never fails. Each of its fields that can be listed, its own or of its class, keeps its value: numbers, texts (empty ones too), true and false; arrays and lists become arrays; objects are converted likewise, down to the greatest depth (10), wherever and however often they appear, except within themselves. Left out are only null and undefined, functions, windows, documents and style sheets, fields that cannot be read, constants (upper case), fields called view, size or length or beginning with two underscores, empty declarations of styles, and the fields of nodes that lead around the document or are costly. Objects in an event also have their dataset, value, checked, files, type and name if these can't be listed; data attributes of any name are kept; forms have their elements by name (unless an own field has this name); and an event has what is selected in the window.",
     ["inputs"],
     "All graphs of objects: every field and value, shared and cyclic references, any depth, any class.",
     "The tests convert one event of each kind in a simulated document, with a few fields each.",
     [ETO], [("objects", ETO + ":classToObject"), ("depth and cycles", ETO + ":deepCloneClass"), ("what is left out", ETO + ":shouldIgnoreValue")], ["Clone"])

CON = "src/reactpy/_console/"
prop("C32", "Rewriting code moves keys or renames attributes, and changes nothing else",
     "The commands that rewrite source code turn every call of an element (html.x, the bare name of a standard element, vdom) with a key and either a dictionary of attributes (a display or a call of dict) or no attributes for sure (no arguments, or a constant or f-string as first child) into one with the key as last attribute, or every snake_case name in a dictionary of attributes of an element, or in a dictionary that is the style in it, into camelCase; however they are nested, wherever they are in a file and however this is laid out. Everything else in the file keeps its meaning: other calls and dictionaries, arguments of other functions, names with hyphens, names that would be keywords as arguments; statements without such usages keep their text, and every comment of the file is still in it, once. The result is Python and isn't changed when rewritten again. Files without such usages are not touched; given folders, just the Python files in them are rewritten, in UTF-8. Keys of elements that could not be moved are reported with their lines.",
     ["inputs"],
     "All source files: usages nested in all expressions and statements, in any layout.",
     "The tests rewrite a few lines of code each, always with one usage per line and no other code around it.",
     [CON + "ast_utils.py", CON + "rewrite_keys.py", CON + "rewrite_props.py"],
     [("replacement", CON + "ast_utils.py:rewrite_changed_nodes"), ("usages", CON + "ast_utils.py:find_element_constructor_usages"), ("names", CON + "rewrite_props.py:conv_attr_name")],
     ["Codemod"])

prop("C33", "Each component in a page is displayed where it was put, by its own connection",
     "A page of a standalone application, or made from a template with any number of component tags, contains one empty element (with an id of its own, and the class given) and scripts that mount each component into its element with the client below the path prefix; it gets exactly one import map. Each component has a connection of its own to the address at which the application serves the component named (also twice the same), tells the path and query the page has at each connection, and displays this component, fresh for each connection, with this location; its events change only it. A component which the application doesn't serve displays nothing and has no effect on others. When a connection breaks, what it displayed stays, and the client connects again after the interval, growth, and number of retries of the application's settings (zero included).",
     ["histories", "schedules"],
     "All histories of connecting, breaking, reconnecting, navigating and clicking in pages with several components, all settings.",
     "The tests look at the text of pages, or need a browser with network (and don't run here); no test connects the parts.",
     ["src/reactpy/executors/utils.py", "src/reactpy/templatetags/jinja.py", "src/js/packages/@reactpy/client/src/mount.tsx", "src/reactpy/executors/asgi/middleware.py"],
     [("mount script", "src/reactpy/executors/utils.py:server_side_component_html"), ("tags", "src/reactpy/templatetags/jinja.py:component"), ("client", "src/js/packages/@reactpy/client/src/mount.tsx:mountReactPy"), ("address", "src/reactpy/executors/asgi/middleware.py:ReactPyMiddleware.match_dispatch_path")],
     ["Mount", "Conn"])
prop("C34", "What a field shows and what its server says agree, over breaking connections",
     "What a user types into fields (of forms with one component, of components of their own, or linked by use_linked_inputs) gets to the server's handlers completely and in order: by the connection that is open, or by the next one. What the server makes of it comes back and is displayed by a field exactly if it accounts for everything the user did to this field; so typing is never lost to an outdated value, neither one of another field's, nor one from before the field was removed and displayed again, and once everything is handled and displayed, each field shows the value the server answered with. After a reconnection the fields show the values of the new session, except those with typing that is still on its way to it. use_linked_inputs gives all its fields the latest value, and tells on_change each change (cast, and empty only if asked to), in order.",
     ["histories", "schedules"],
     "All interleavings of typing, pauses, handling, updates, removing and displaying fields, changes by the server, breaking and reconnecting, for servers which take over, change, refuse or copy what is typed.",
     "The tests type into one field of an idle server, and never break the connection; whether both sides agree depends on what crosses on the way.",
     ["src/js/packages/@reactpy/client/src/components.tsx", "src/js/packages/@reactpy/client/src/client.ts", "src/reactpy/core/layout.py", "src/reactpy/widgets.py"],
     [("fields", "src/js/packages/@reactpy/client/src/components.tsx:UserInputElement"), ("queue of messages", "src/js/packages/@reactpy/client/src/client.ts:sendMessage"), ("acknowledgement", "src/reactpy/core/layout.py:_inject_event_ack_seq"), ("linked fields", "src/reactpy/widgets.py:use_linked_inputs")],
     ["Fields"])
