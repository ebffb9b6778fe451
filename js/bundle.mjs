// Modules are imported by importModule of run.mjs.
// node bundle.mjs REPO OUT: the client of the repository with the stand-ins of this directory
import { createRequire } from "node:module";
import { dirname, join } from "node:path";
import { fileURLToPath } from "node:url";
const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
const here = dirname(fileURLToPath(import.meta.url));
const [repo, out] = process.argv.slice(2);
const packages = join(repo, "src/js/packages");
const own = (f) => join(here, f);
await esbuild.build({
  entryPoints: [own("entry.ts")], bundle: true, outfile: out, format: "esm", platform: "neutral", logLevel: "error", jsx: "automatic", jsxImportSource: "preact",
  external: ["react", "react-dom/client"],
  tsconfigRaw: {},
  alias: {
    CLIENT: join(packages, "@reactpy/client/src"), "event-to-object": join(packages, "event-to-object/src/index.ts"), "json-pointer": own("json-pointer.mjs"),
    preact: own("preact.mjs"), "preact/hooks": own("preact.mjs"), "preact/compat": own("preact.mjs"), "preact/jsx-runtime": own("preact.mjs"),
  },
});

import { readFileSync, writeFileSync } from "node:fs";
writeFileSync(out, readFileSync(out, "utf8").replace(/\bimport\(/g, "globalThis.importModule("));
