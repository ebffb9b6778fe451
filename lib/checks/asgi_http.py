"""C20: who answers a request (spec/Route.tla)."""
from __future__ import annotations

import asyncio
import json
import logging
import re
import shutil
import sys
import tempfile
from pathlib import Path

import tlc

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "appmods"))


class Conn:
    """one request and what became of it"""

    def __init__(self, scope_type, path, headers=(), method="GET", query=b""):
        self.scope = {"type": scope_type, "asgi": {"version": "3.0"}}
        if scope_type != "lifespan":
            self.scope |= {"path": path, "raw_path": path.encode(), "query_string": query, "headers": list(headers), "root_path": "",
                           "scheme": "http", "server": ("x", 1), "client": ("y", 2), "http_version": "1.1"}
        if scope_type == "http":
            self.scope["method"] = method
        if scope_type == "websocket":
            self.scope |= {"subprotocols": [], "query_string": b"path=%2F", "verif_session": 0}
        self.status, self.headers, self.body, self.sent = None, None, b"", []
        self.complete = False
        self.inbox = asyncio.Queue()
        self.inbox.put_nowait({"type": {"http": "http.request", "websocket": "websocket.connect", "lifespan": "lifespan.startup"}[scope_type],
                               **({"body": b"", "more_body": False} if scope_type == "http" else {})})

    async def receive(self):
        return await self.inbox.get()

    async def send(self, m):
        self.sent.append(m)
        if m["type"] == "http.response.start":
            self.status = m["status"]
            self.headers = [(k.lower().decode("latin-1"), v.decode("latin-1")) for k, v in m["headers"]]
        elif m["type"] == "http.response.body":
            self.body += m.get("body", b"")
            self.complete = not m.get("more_body")

    def header(self, name):
        return [v for k, v in self.headers if k == name]


def no_wheel():
    """pages with PyScript refer to a wheel of the library, which is not built here"""
    import os

    from reactpy.executors.pyscript import utils
    os.environ["PATH"] = "/opt/venv/bin:" + os.environ["PATH"]    # the tool which would build it
    if hasattr(utils, "_ensure_local_reactpy_wheel"):
        utils._ensure_local_reactpy_wheel = lambda: Path("/nowhere/reactpy-0-py3-none-any.whl")


class UserApp:
    def __init__(self, who):
        self.who, self.calls = who, []

    async def __call__(self, scope, receive, send):
        self.calls.append((scope, receive, send))


def regex(pat):
    word = {"SEG": "[^/]+", "ANY": ".*"}
    return "|".join("".join(word.get(t) or re.escape(t) for t in alt) for alt in pat)


async def ask(app, users, files, op):
    """-> what answered"""
    path = "".join(op["path"])
    c = Conn(op["type"], path)
    for u in users:
        u.calls.clear()
    recv, send = c.receive, c.send
    task = asyncio.ensure_future(app(c.scope, recv, send))
    if op["type"] == "websocket":
        for _ in range(40):
            await asyncio.sleep(0)
        mine = c.sent and c.sent[0]["type"] == "websocket.accept"
        c.inbox.put_nowait({"type": "websocket.disconnect", "code": 1000})
    await asyncio.wait([task], timeout=10)
    if not task.done():
        task.cancel()
        return ["never ends", 0]
    called = [(u, args) for u in users for args in u.calls]
    if len(called) > 1:
        return ["several", [u.who for u, _ in called]]
    if called:
        u, args = called[0]
        if args[0] is not c.scope or args[1] is not recv or args[2] is not send:
            return ["not the same request", u.who]
        if c.sent or task.exception():
            return ["also answered", u.who]
        return u.who
    if task.exception():
        return ["refused", 0] if isinstance(task.exception(), NotImplementedError) else ["error", repr(task.exception())]
    if op["type"] == "lifespan":
        return ["returns", 0] if not c.sent else ["lifespan", "sent"]
    if op["type"] == "websocket":
        texts = [json.dumps(json.loads(m["text"])) for m in c.sent if m["type"] == "websocket.send"]
        if not mine:
            return ["no websocket", c.sent]
        if not texts:
            return ["nothing", 0]
        for name in ("a", "b", "own"):
            if any(f'"{name}:0@/|"' in t for t in texts):
                return ["root", name if name == "own" else f"verif_app.{name}"]
        return ["root", texts]
    if not c.complete:
        return ["incomplete", c.sent]
    if c.status == 404:
        return ["missing", 0]
    if c.status == 200:
        for v, content in files.items():
            if c.body == content:
                return ["static" if v == 1 else "modules", v]
        if b"mountReactPy" in c.body or b"pyscript" in c.body:
            return ["index", 0]
    return ["status", c.status]


def canonical(answer):
    return [answer[0], answer[1]]


async def replay(hist, scratch, static_files):
    from reactpy import config, html
    from reactpy.executors.asgi.middleware import ReactPyMiddleware
    from reactpy.executors.asgi.standalone import ReactPy
    from reactpy.executors.asgi.pyscript import ReactPyCsr
    import verif_app

    top = Path(tempfile.mkdtemp(dir=scratch))
    (top / "secret").write_text("secret")
    mods = top / "mods"
    mods.mkdir()
    make = hist[0]["op"]
    prefix = "".join(make["prefix"])
    users, routes = [], []
    static_name, static_content = static_files
    files = {1: static_content, 2: b"// two\n", 3: b"// three, longer\n"}
    where = ""
    saved = [(o, o.current) for o in (config.REACTPY_PATH_PREFIX, config.REACTPY_WEB_MODULES_DIR)]
    try:
        settings = dict(path_prefix=prefix, web_modules_dir=mods)
        if make["mode"] == "middleware":
            users.append(UserApp(["user", 0]))
            app = ReactPyMiddleware(users[0], ["verif_app.a", "verif_app.b"], **settings)
        elif make["mode"] == "standalone":
            app = ReactPy(verif_app.own, **settings)
        else:
            f = top / "root.py"
            f.write_text("from reactpy import component, html\n\n@component\ndef root():\n    return html.p('x')\n")
            app = ReactPyCsr(f, **settings)
        for i, h in enumerate(hist[1:], 1):
            op = h["op"]
            got = ["ok", 0]
            if op["op"] == "request":
                path = [static_name if t == "here.css" else t for t in op["path"]]
                got = await ask(app, users, files, dict(op, path=path))
            elif op["op"] == "route":
                n = len(routes) + 1
                u = UserApp(["route", n])
                text = regex(op["pat"])
                if len(op["pat"]) == 1:
                    text = ("", "^")[n % 2] + text + ("", "$")[n % 3 == 0]
                target = u
                if n % 2 == 0:
                    target = f"verif_app.user_{n}"
                    setattr(verif_app, f"user_{n}", u)
                back = app.route(text, **({} if op["type"] == "http" else {"type": op["type"]}))(target)
                if back is not u:
                    got = ["route gave back", repr(back)]
                users.append(u)
                routes.append(u)
            elif op["op"] == "lifespan":
                u = UserApp(["lifespan", 0])
                try:
                    app.lifespan(u)
                    users.append(u)
                except ValueError:
                    got = ["refused", 0]
            else:
                f = mods.joinpath(*[t for t in op["file"] if t != "/"])
                if op["op"] == "write":
                    f.parent.mkdir(parents=True, exist_ok=True)
                    tmp = f.with_name("tmp")
                    tmp.write_bytes(files[op["v"]])
                    tmp.replace(f)
                else:
                    f.unlink()
            if canonical(got) != canonical(h["seen"]):
                where = f"{make['mode']} at {prefix!r}: {op} gives {got} instead of {h['seen']}; after " + \
                    str([x["op"] for x in hist[1:i] if x["op"]["op"] != "request"])
                return f"{make['mode']},{prefix},{op['op']},{op.get('type')},{''.join(op.get('path', ()))}", where
        return None
    finally:
        for o, v in saved:
            o.current = v
        shutil.rmtree(top, ignore_errors=True)


def run_c20(ctx):
    import reactpy
    logging.disable(logging.CRITICAL)
    no_wheel()
    static = Path(reactpy.__file__).parent / "static"
    f = next(x for x in sorted(static.iterdir()) if x.is_file())
    static_files = (f.name, f.read_bytes())
    scratch = tempfile.mkdtemp(prefix="v20_")

    async def main(hists):
        for h in hists:
            ctx.add(traces_validated_against_impl=1, requests=sum(x["op"]["op"] == "request" for x in h))
            try:
                bad = await replay(h, scratch, static_files)
            except Exception as e:
                m = h[0]["op"]
                bad = f"{m['mode']},{''.join(m['prefix'])},failed", f"failed: {e!r} in {m}"
            if bad:
                ctx.violation("C20@" + re.sub(r"\s", "_", bad[0]), bad[1], dict(kind="route", history=h))
                if len(ctx.violations) > 8:
                    return

    try:
        for cfg, sim in ((None, None), ("RouteSim.cfg", 60 if ctx.quick else 2500)):
            hists, st = tlc.generate("RouteGen", cfg, sim=sim, depth=20, seed=ctx.seed)
            ctx.tlc(st)
            asyncio.run(main(hists))
            ctx.sample([x["op"] for x in hists[-1] if x["op"]["op"] != "request"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CHECKS = {"C20": dict(
    run=run_c20, level="model_checking",
    technique="TLA+ specification of the routing (Route); TLC enumerates applications, changes of routes and files and all requests of a set, and random histories, each replayed on the real ASGI applications",
    note="Three applications, five prefixes, 39 paths and three types of request after each change. Paths are made of a set of words. Trusts TLC, the comparison, and the file server library.",
)}


# ---------------------------------------------------------------------------------------------- C21
from email.utils import format_datetime, parsedate_to_datetime  # noqa: E402
from datetime import timedelta  # noqa: E402
from html.parser import HTMLParser  # noqa: E402

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"}


class Tree(HTMLParser):
    """what a browser makes of (well-formed) HTML: (tag, attributes, children)"""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.top = ("", {}, [])
        self.open = [self.top]
        self.doctype = []
        self.stray = []
        self.heads = 0
        self.feed(text)
        self.close()

    def handle_decl(self, decl):
        self.doctype.append(decl.lower())

    def handle_starttag(self, tag, attrs):
        if tag == "head":
            self.heads += 1
            if self.heads > 1:      # browsers ignore a head in a head
                return
        el = (tag, {k: v or "" for k, v in attrs}, [])
        self.open[-1][2].append(el)
        if tag not in VOID:
            self.open.append(el)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        if tag == "head":
            self.heads -= 1
            if self.heads > 0:
                return
        if self.open[-1][0] == tag:
            self.open.pop()
        else:
            self.stray.append(tag)

    def handle_data(self, data):
        kids = self.open[-1][2]
        if kids and isinstance(kids[-1], str):
            kids[-1] += data
        else:
            kids.append(data)


def heads():
    from reactpy import html
    return {"none": (None, ""),
            "title": (html.head(html.title("T")), "<title>T</title>"),
            "accents": (html.head(html.title("é & <ü>"), html.meta({"name": "d", "content": "ß\"'<"})),
                        "<title>é &amp; &lt;ü></title><meta name='d' content='ß&quot;&#39;&lt;'>"),
            "tricky": (html.head(html.script({"type": "text/plain"}, "let s = '</head>' + 1;")), "<script type='text/plain'>let s = '</head>' + 1;</script>")}


def bodies():
    from reactpy import component, html

    @component
    def hello():
        return html.b("from é component")
    return {"default": (..., "<noscript>Enable JavaScript to view this site.</noscript>"), "none": (None, ""),
            "accents": (html.p({"title": "é\"<"}, "ö < ", html.br(), "€"), "<p title='é&quot;&lt;'>ö &lt; <br>€</p>"),
            "component": (hello(), "<b>from é component</b>"), "fragment": (html("a", html.i("b"), "c"), "a<i>b</i>c")}


HEADERS = {"none": {}, "extra": {"x-extra": "1"}, "override": {"cache-control": "no-store"}, "Override": {"Cache-Control": "no-store"},
           "type": {"access-control-allow-origin": "https://example.org", "X-Two": "2"}}
DEFAULTS = {"access-control-allow-origin": "*", "cache-control": "max-age=60, public", "content-type": "text/html; charset=utf-8"}


def page_problem(text, d, prefix, wanted, head_html, body_html):
    t = Tree(text)
    if t.stray or t.doctype != ["doctype html"] or len(t.open) != 1:
        return f"not a well-formed page: {t.stray} {t.doctype} {[x[0] for x in t.open]}"
    if [k[0] for k in t.top[2]] != ["html"]:
        return "no html element"
    root = t.top[2][0]
    if root[1] != {"lang": d["lang"]} or [k[0] for k in root[2]] != ["head", "body"]:
        return f"html element with {root[1]} and {[k[0] for k in root[2]]}"
    head, body = root[2]
    left = list(head[2])
    for el in Tree(head_html).top[2]:
        strip = [x for x in left if isinstance(x, tuple)]
        same = [x for x in strip if x[:1] == el[:1] and {k: v for k, v in x[1].items() if k != "key"} == el[1] and x[2] == el[2]]
        if not same:
            return f"head without {el}: {head[2]}"
        left.remove(same[0])
    py = [x for x in left if x[0] == "script" and x[1].get("type") == "py"]
    if len(py) != (d["mode"] == "csr" or d["setup"]):
        return f"{len(py)} times the setup of PyScript in the head"
    for x in py:
        c = json.loads(x[1]["config"])
        if not any("reactpy" in p for p in c["packages"]) or not all(u.startswith(prefix + "static/") for u in c["js_modules"]["main"]):
            return f"PyScript is configured with {c}"
        if "class ReactPyLayoutHandler" not in "".join(x[2]):
            return "PyScript without the layout handler"
    if not py and left:
        return f"also in the head: {left}"
    want = Tree(body_html).top[2]
    if body[2][:len(want)] != want:
        return f"the body begins with {body[2][:len(want)]} instead of {want}"
    rest = body[2][len(want):]
    if d["mode"] == "csr":
        if [x[0] for x in rest] != ["div", "script"] or rest[0][1]["id"] != "pyscript-" + rest[0][1]["data-uuid"] or rest[1][1]["type"] != "py":
            return f"then {rest}"
        return None
    if [x[0] for x in rest] != ["div", "script", "script"] or rest[1][1] or rest[2][1].get("type") != "module":
        return f"then {[x[:2] for x in rest]}"
    m = re.search(r"mountReactPy\((\{.*\})\)", "".join(rest[2][2]), re.S)
    opts = {k: v.strip().rstrip(",") for k, v in re.findall(r"(\w+):\s*([^,]*(?:\([^)]*\))?)", m.group(1))}
    want = {"mountElement": f'document.getElementById("{rest[0][1]["id"]}")', "pathPrefix": json.dumps(prefix), "componentPath": '""', **wanted}
    if opts != want:
        return f"mounted with {opts} instead of {want}"
    if not re.search(r'import\s*\{\s*mountReactPy\s*\}\s*from\s*"' + re.escape(prefix) + r'static/index\.js"', "".join(rest[2][2])):
        return "the client is not imported from where it is served"
    m = re.search(r"textContent\s*=\s*'(.*?)'", "".join(rest[1][2]))
    maps = json.loads(m.group(1))["imports"]
    if set(maps) != {"react", "react-dom", "react-dom/client", "react/jsx-runtime"} or not all(u.startswith(prefix + "static/") for u in maps.values()):
        return f"import map {maps}"
    return None


async def replay_page(hist, scratch):
    from reactpy import config
    from reactpy.executors.asgi.pyscript import ReactPyCsr
    from reactpy.executors.asgi.standalone import ReactPy
    import verif_app

    top = Path(tempfile.mkdtemp(dir=scratch))
    H, B = heads(), bodies()
    prefix = hist[0]["descr"]["pre"]
    options = (config.REACTPY_PATH_PREFIX, config.REACTPY_RECONNECT_INTERVAL, config.REACTPY_RECONNECT_MAX_INTERVAL, config.REACTPY_RECONNECT_MAX_RETRIES,
               config.REACTPY_RECONNECT_BACKOFF_MULTIPLIER)
    saved = [(o, o.current) for o in options]
    apps = []
    numbers = dict(reconnect_interval=700 + len(hist), reconnect_max_interval=50000, reconnect_max_retries=77, reconnect_backoff_multiplier=1.5)
    wanted = {"reconnectInterval": str(700 + len(hist)), "reconnectMaxInterval": "50000", "reconnectMaxRetries": "77", "reconnectBackoffMultiplier": "1.5"}

    async def request(app, method="GET", headers=()):
        c = Conn("http", "/", headers=headers, method=method)
        await app(c.scope, c.receive, c.send)
        return c

    def known(a, c):
        if "etag" not in a:
            a["etag"], a["date"] = c.header("etag")[0], c.header("last-modified")[0]

    try:
        for i, h in enumerate(hist):
            at = f"request {i}: "
            if h["op"] == "make":
                d = h["descr"]
                kw = dict(http_headers=dict(HEADERS[d["headers"]]), html_head=H[d["head"]][0], html_lang=d["lang"], path_prefix=prefix, **numbers)
                if B[d["body"]][0] is not ...:
                    kw["prepend_body"] = B[d["body"]][0]
                if d["mode"] == "csr":
                    f = top / f"root{i}.py"
                    f.write_text("from reactpy import component, html\n\n@component\ndef root():\n    return html.p('é')\n", encoding="utf-8")
                    app = ReactPyCsr(f, **kw)
                else:
                    app = ReactPy(verif_app.own, pyscript_setup=d["setup"], **kw)
                apps.append(dict(app=app, d=d))
                continue
            a = apps[h["app"] - 1]
            if h["tag"] not in ("none", "other", "stale") or h["date"] not in ("none", "bad"):
                known(a, await request(a["app"]))
            headers = []
            if h["tag"] != "none":
                cur = a.get("etag", "")
                other = next((x["etag"] for x in apps if x is not a and x.get("etag", cur) != cur), '"00"')
                v = {"current": cur, "other": '"11"', "weak": f"W/{cur}", "list": f'"11", {cur}', "star": "*", "stale": other}[h["tag"]]
                headers.append((b"if-none-match", v.encode()))
            if h["date"] != "none":
                if h["date"] == "bad":
                    v = "yesterday"
                else:
                    v = a["date"]
                    if h["date"] != "same":
                        v = format_datetime(parsedate_to_datetime(v) + timedelta(days=1 if h["date"] == "newer" else -1), usegmt=True)
                headers.append((b"if-modified-since", v.encode()))
            for c in await asyncio.gather(*[request(a["app"], h["method"], headers) for _ in range(h["times"])]):
                if c.status not in h["expect"]["status"]:
                    return at + f"{h['method']} with {headers} gives {c.status} instead of {h['expect']['status']}"
                if not c.complete:
                    return at + "incomplete response"
                wanted_headers = DEFAULTS | {k.lower(): v for k, v in HEADERS[a["d"]["headers"]].items()}
                for k, v in wanted_headers.items():
                    if c.header(k) != [v]:
                        return at + f"header {k}: {c.header(k)} instead of {v!r} ({c.status})"
                known(a, c)
                if c.header("etag") != [a["etag"]] or c.header("last-modified") != [a["date"]]:
                    return at + "another tag or date for the same page"
                if c.status == 304 or h["method"] == "HEAD":
                    if c.body:
                        return at + f"a body in the answer {c.status} to {h['method']}"
                if c.status == 200 and h["method"] == "GET":
                    if c.header("content-length") != [str(len(c.body))]:
                        return at + f"content-length {c.header('content-length')} for {len(c.body)} bytes"
                    if a.setdefault("body", c.body) != c.body:
                        return at + "another page"
                    if any(x is not a and x.get("body") not in (None, c.body) and x["etag"] == a["etag"] for x in apps):
                        return at + "the tag of another page"
                    d = a["d"]
                    bad = page_problem(c.body.decode("utf-8"), d, prefix, wanted, H[d["head"]][1], B[d["body"]][1])
                    if bad:
                        return at + bad + f" ({d})"
                    if a.get("length", c.header("content-length")) != c.header("content-length"):
                        return at + "HEAD had announced another length"
                if c.status == 200:
                    a["length"] = c.header("content-length")
                if c.status == 200 and a.get("body") is not None and a["length"] != [str(len(a["body"]))]:
                    return at + f"HEAD announces {a['length']} for {len(a['body'])} bytes"
        return None
    finally:
        for o, v in saved:
            o.current = v
        shutil.rmtree(top, ignore_errors=True)


def run_c21(ctx):
    logging.disable(logging.CRITICAL)
    no_wheel()
    scratch = tempfile.mkdtemp(prefix="v21_")

    async def main(hists):
        for h in hists:
            ctx.add(traces_validated_against_impl=1)
            d = h[0]["descr"]
            try:
                bad = await replay_page(h, scratch)
            except Exception as e:
                bad = f"failed: {e!r}"
            if bad:
                ctx.violation("C21@" + ",".join(str(d[k]) for k in sorted(d)) + "," + re.sub(r"\W+", "_", bad)[:80], f"{bad} ({d})", dict(kind="page", history=h))
                if len(ctx.violations) > 8:
                    return
    try:
        for cfg, sim in (("PageGen.cfg" if ctx.quick else "PageGenMore.cfg", None), ("PageSim.cfg", 60 if ctx.quick else 3000)):
            hists, st = tlc.generate("PageGen", cfg, sim=sim, depth=30, seed=ctx.seed)
            ctx.tlc(st)
            asyncio.run(main(hists))
            ctx.sample(hists[-1][:3])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


CHECKS["C21"] = dict(
    run=run_c21, level="model_checking",
    technique="TLA+ specification of conditional requests for the page (Page); all combinations of method and validators on many applications and random histories of several, replayed on the real applications; the page itself is parsed and compared with what it must contain",
    note="Applications are combinations of head, body, headers, language, prefix and mode. Trusts TLC, the HTML parser of the standard library and the comparison.",
)
