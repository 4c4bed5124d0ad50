// dump the syntax tree of a TypeScript file as JSON (no code of the file is run)
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const file = process.argv[2];
const src = ts.createSourceFile(file, fs.readFileSync(file, "utf8"), ts.ScriptTarget.Latest, true);
const names = {};
for (const k of Object.keys(ts.SyntaxKind)) {
  const v = ts.SyntaxKind[k];
  if (typeof v === "number" && !(v in names)) names[v] = k;
}
const skip = new Set(["parent", "pos", "end", "flags", "kind", "modifierFlagsCache", "transformFlags", "id", "symbol", "localSymbol", "locals", "nextContainer",
  "flowNode", "endFlowNode", "emitNode", "jsDoc", "original", "type", "typeParameters", "typeArguments"]);
function dump(n) {
  const o = { k: names[n.kind], line: src.getLineAndCharacterOfPosition(n.getStart(src)).line + 1 };
  for (const p of Object.keys(n)) {
    if (skip.has(p)) continue;
    const v = n[p];
    if (v === null || v === undefined) continue;
    if (Array.isArray(v)) {
      if (v.length && typeof v[0] === "object" && "kind" in v[0]) o[p] = v.map(dump);
      else if (!v.length) o[p] = [];
    } else if (typeof v === "object" && typeof v.kind === "number" && typeof v.pos === "number") o[p] = dump(v);
    else if (typeof v === "string" || typeof v === "number" || typeof v === "boolean") o[p] = v;
  }
  if (n.kind === ts.SyntaxKind.PrefixUnaryExpression || n.kind === ts.SyntaxKind.PostfixUnaryExpression) o.op = ts.tokenToString(n.operator);
  return o;
}
const diags = src.parseDiagnostics || [];
const root = { errors: diags.length, statements: src.statements.map(dump) };
process.stdout.write(JSON.stringify(root));
