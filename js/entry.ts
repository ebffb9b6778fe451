export * from "CLIENT/client";
export * from "CLIENT/components";
export * from "CLIENT/mount";
export * from "CLIENT/websocket";
export { render as preactRender, createElement as preactCreate, flushEffects } from "preact";
export { default as convert } from "event-to-object";
