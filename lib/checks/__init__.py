from . import layout, option, vdom, handler, serve, asgi_session, asgi_http, htmlconv, modules, client, display, script, pyscript, convert, codemod, mount, fields

REGISTRY = {}
for _m in (layout, option, vdom, handler, serve, asgi_session, asgi_http, htmlconv, modules, client, display, script, pyscript, convert, codemod, mount, fields):
    REGISTRY.update(_m.CHECKS)
