// Small changes of TypeScript files: node tools/mutants.mjs FILE... (below /repo) prints one JSON line each (see mutants.py)
import { readFileSync } from "node:fs";
import { createHash } from "node:crypto";
import { createRequire } from "node:module";
const ts = createRequire("/opt/veriftools/node/node_modules/")("typescript");
const K = ts.SyntaxKind;
const SWAP = { "===": "!==", "!==": "===", "==": "!=", "!=": "==", "<": "<=", "<=": "<", ">": ">=", ">=": ">", "&&": "||", "||": "&&", "??": "&&", "+": "-", "-": "+", "*": "/" };
for (const file of process.argv.slice(2)) {
  const text = readFileSync("/repo/" + file, "utf8");
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true, file.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
  const seen = new Set();
  const put = (node, a, b, now, why) => {
    const old = text.slice(a, b);
    if (old === now) return;
    const A = Buffer.byteLength(text.slice(0, a)), B = A + Buffer.byteLength(old);
    const id = createHash("md5").update(file + A + "-" + B + now).digest("hex").slice(0, 8);
    if (seen.has(id)) return;
    seen.add(id);
    console.log(JSON.stringify({ file, line: sf.getLineAndCharacterOfPosition(a).line + 1, why, old, new: now, a: A, b: B, id }));
  };
  const src = (n) => n.getText(sf);
  const rep = (n, now, why) => put(n, n.getStart(sf), n.getEnd(), now, why);
  const cond = (n) => { rep(n, "true", "condition"); rep(n, "false", "condition"); rep(n, `!(${src(n)})`, "condition"); };
  const visit = (n) => {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) {
      const op = src(n.operatorToken);
      if (SWAP[op]) rep(n, `${src(n.left)} ${SWAP[op]} ${src(n.right)}`, "operator");
      if (["&&", "||", "??"].includes(op)) { rep(n, `(${src(n.left)})`, "drop right"); rep(n, `(${src(n.right)})`, "drop left"); }
    }
    if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) rep(n, `(${src(n.operand)})`, "drop not");
    if (ts.isIfStatement(n) || ts.isWhileStatement(n)) { if (ts.isIfStatement(n)) cond(n.expression); }
    if (ts.isConditionalExpression(n)) { rep(n, `(${src(n.whenTrue)})`, "condition"); rep(n, `(${src(n.whenFalse)})`, "condition"); }
    if (n.kind === K.TrueKeyword) rep(n, "false", "constant");
    if (n.kind === K.FalseKeyword) rep(n, "true", "constant");
    if (n.kind === K.NullKeyword && !ts.isLiteralTypeNode(n.parent)) rep(n, "undefined", "constant");
    if (ts.isNumericLiteral(n) && !ts.isLiteralTypeNode(n.parent)) { rep(n, String(Number(n.text) + 1), "constant"); rep(n, String(Number(n.text) - 1), "constant"); }
    if (ts.isStringLiteral(n) && n.text.length && !ts.isLiteralTypeNode(n.parent)) rep(n, '"zz"', "text");
    if (ts.isExpressionStatement(n) || ts.isThrowStatement(n) || ts.isContinueStatement(n) || ts.isBreakStatement(n)) rep(n, ";", "drop statement");
    if (ts.isReturnStatement(n)) { if (n.expression) rep(n, "return;", "return nothing"); else rep(n, ";", "don't return"); }
    if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isSpreadAssignment(n) || ts.isJsxAttribute(n)) {
      let e = n.getEnd(); if (text[e] === ",") e++;
      put(n, n.getStart(sf), e, "", "drop property");
    }
    if (ts.isArrayLiteralExpression(n)) n.elements.forEach((x, i) => rep(n, "[" + n.elements.filter((y, j) => j !== i).map(src).join(", ") + "]", "drop item"));
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken) rep(n, `${src(n.expression)}.${src(n.name)}`, "drop ?");
    if (ts.isForOfStatement(n) || ts.isForStatement(n) || ts.isForInStatement(n)) rep(n, ";", "drop loop");
    if (ts.isAwaitExpression(n)) rep(n, `(${src(n.expression)})`, "drop await");
    if (ts.isCallExpression(n)) {
      if (n.arguments.length === 2) rep(n, `${src(n.expression)}(${src(n.arguments[1])}, ${src(n.arguments[0])})`, "swap arguments");
      if (n.arguments.length > 1) rep(n, `${src(n.expression)}(${n.arguments.slice(0, -1).map(src).join(", ")})`, "drop argument");
      if (ts.isPropertyAccessExpression(n.expression) && ["filter", "slice", "reverse", "map", "trim", "toLowerCase", "toUpperCase"].includes(n.expression.name.text)) rep(n, `(${src(n.expression.expression)})`, "drop call");
    }
    ts.forEachChild(n, visit);
  };
  visit(sf);
}
