// Oracle: V8 and the TypeScript parser as reference parsers.
// in : {"accept":[{src, how}]}            how: script|module|ts|tsx|dts|jsx -> {"ok":[bool|msg]}
//      {"same":[{src, outs:[...], how}]}  -> {"same":[null | [ "" | difference, ...]]} (null: src itself has syntax errors)
'use strict';
const vm = require('vm');
const readline = require('readline');
const ts = require('typescript');
const K = ts.SyntaxKind;
const EXT = { ts: 'a.ts', tsx: 'a.tsx', dts: 'a.d.ts', jsx: 'a.jsx', js: 'a.js' };
const KIND = { ts: ts.ScriptKind.TS, tsx: ts.ScriptKind.TSX, dts: ts.ScriptKind.TS, jsx: ts.ScriptKind.JSX, js: ts.ScriptKind.JS };

function parse(src, how, mod) {
  return ts.createSourceFile(EXT[how], src, { languageVersion: ts.ScriptTarget.ESNext, jsDocParsingMode: ts.JSDocParsingMode.ParseNone, setExternalModuleIndicator: mod ? (f) => { f.externalModuleIndicator = f; } : undefined }, false, KIND[how]);
}
const ctx = vm.createContext({});
function accept(src, how) {
  if (how === 'script' || how === 'module') {
    try {
      if (how === 'script') new vm.Script(src);
      else new vm.SourceTextModule(src, { context: ctx, initializeImportMeta() {}, importModuleDynamically() {} });
      return true;
    } catch (e) { return e.name === 'SyntaxError' ? String(e.message) : 'other ' + e; }
  }
  const sf = parse(src, how);
  if (sf.parseDiagnostics.length) return sf.parseDiagnostics.map((d) => 'TS' + d.code + ' ' + ts.flattenDiagnosticMessageText(d.messageText, ' ')).join('; ');
  return true;
}
const LEX = new Set([K.ClassDeclaration, K.FunctionDeclaration, K.EnumDeclaration, K.ModuleDeclaration, K.InterfaceDeclaration, K.TypeAliasDeclaration]);
const SKIP = new Set(['pos', 'end', 'parent', 'flags', 'modifierFlagsCache', 'transformFlags', 'jsDoc', 'id', 'symbol', 'locals', 'nextContainer', 'localSymbol', 'flowNode', 'emitNode', 'original', 'endFlowNode', 'returnFlowNode', 'jsDocCache', 'kind', 'multiLine', 'hasTrailingComma', 'containsOnlyTriviaWhiteSpaces', 'hasExtendedUnicodeEscape', 'isUnterminated', 'singleQuote', 'numericLiteralFlags', 'templateFlags', 'assertClause', 'token', 'possiblyExhaustive', 'propName', 'fnBody', 'text', 'escapedText', 'rawText', 'originalKeywordKind', 'postfix']);
function nameText(n) { return n.kind === K.BigIntLiteral ? BigInt(n.text.replace(/_/g, '').replace(/n$/, '')).toString() : n.kind === K.NumericLiteral ? String(Number(n.text)) : n.text; }
function isEmptyStmt(n) { return n && (n.kind === K.EmptyStatement || (n.kind === K.Block && n.statements.every(isEmptyStmt1))); }
function isEmptyStmt1(n) { return n.kind === K.EmptyStatement; }
let rawDepth = 0;
function norm(n, out, parent, key) {
  if (n === undefined) { out.push('_'); return; }
  if (Array.isArray(n)) {
    out.push('[');
    for (const x of n) {
      if (x.kind === K.ExportDeclaration && n !== 0 && !x.moduleSpecifier && !x.isTypeOnly && x.exportClause && x.exportClause.elements && !x.exportClause.elements.length) continue;
      if (x.kind === K.EmptyStatement || x.kind === K.SemicolonClassElement) continue;
      if (key === 'children' && x.kind === K.JsxExpression && !x.expression) continue;
      if (key === 'children' && x.kind === K.JsxText) { const t = jsxText(x.text); if (t) out.push('(text', JSON.stringify(t), ')'); continue; }
      if (key === 'statements' && x.kind === K.ExpressionStatement && x.expression.kind === K.StringLiteral && directive(n, x) && (parent.kind === K.SourceFile || parent.fnBody)) out.push('directive');
      norm(x, out, n, '');
    }
    out.push(']');
    return;
  }
  if (typeof n !== 'object' || n === null) { out.push(String(n)); return; }
  for (;;) {
    if (n.kind === K.ParenthesizedExpression) n = n.expression;
    else if (n.kind === K.ParenthesizedType) n = n.type;
    else if ((n.kind === K.UnionType || n.kind === K.IntersectionType) && n.types.length === 1) n = n.types[0];
    else break;
  }
  if (key === 'statement' || key === 'thenStatement' || key === 'elseStatement') while (n.kind === K.Block && n.statements.length === 1 && !(n.statements[0].kind === K.VariableStatement && n.statements[0].declarationList.flags & ts.NodeFlags.BlockScoped) && !LEX.has(n.statements[0].kind)) n = n.statements[0];
  if ((key === 'statement' || key === 'thenStatement' || key === 'elseStatement') && isEmptyStmt(n)) { out.push('(Empty)'); return; }
  if (n.kind === K.TypeAssertionExpression) n = { kind: K.AsExpression, flags: 0, expression: n.expression, type: n.type };
  if (n.kind === K.JsxSelfClosingElement) { n = { kind: K.JsxElement, flags: 0, openingElement: { kind: K.JsxOpeningElement, flags: 0, tagName: n.tagName, typeArguments: n.typeArguments, attributes: n.attributes }, children: [], closingElement: { kind: K.JsxClosingElement, flags: 0, tagName: n.tagName } }; }
  if (n.kind === K.JsxExpression && key === 'initializer' && n.expression) {
    let e = n.expression; while (e.kind === K.ParenthesizedExpression) e = e.expression;
    if (e.kind === K.JsxElement || e.kind === K.JsxSelfClosingElement || e.kind === K.JsxFragment) { norm(e, out, parent, key); return; }
    if (e.kind === K.StringLiteral || e.kind === K.NoSubstitutionTemplateLiteral) { out.push('(attr', JSON.stringify(e.text), ')'); return; }
  }
  if (n.kind === K.StringLiteral && key === 'initializer' && parent.kind === K.JsxAttribute) { out.push('(attr', JSON.stringify(entities(n.text)), ')'); return; }
  if (n.kind === K.ShorthandPropertyAssignment && !n.objectAssignmentInitializer) n = { kind: K.PropertyAssignment, flags: 0, name: n.name, initializer: n.name };
  else if (n.kind === K.ShorthandPropertyAssignment) n = { kind: K.PropertyAssignment, flags: 0, name: n.name, initializer: { kind: K.BinaryExpression, flags: 0, left: n.name, operatorToken: { kind: K.EqualsToken, flags: 0 }, right: n.objectAssignmentInitializer } };
  if (n.kind === K.BindingElement && n.propertyName && (n.propertyName.kind === K.Identifier || n.propertyName.kind === K.StringLiteral) && n.name.kind === K.Identifier && n.propertyName.text === n.name.text) n = { kind: n.kind, flags: 0, dotDotDotToken: n.dotDotDotToken, name: n.name, initializer: n.initializer };
  if (n.kind === K.ImportSpecifier || n.kind === K.ExportSpecifier || n.kind === K.NamespaceExport) {
    const t = (x) => '=' + x.text;
    out.push('(', K[n.kind], n.isTypeOnly ? 'type' : '', t(n.propertyName || n.name), t(n.name), ')');
    return;
  }
  if (n.kind === K.YieldExpression && !n.asteriskToken && !n.expression) { out.push('( YieldExpression expression = ( Identifier "undefined" ) )'); return; }
  if (n.kind === K.NewExpression && !n.arguments) n = { kind: n.kind, flags: n.flags, expression: n.expression, typeArguments: n.typeArguments, arguments: [] };
  // `import {} from 'm'`, `import a, {} from 'm'` and `with {}` bind nothing.
  if (n.kind === K.ImportDeclaration && n.importClause && !n.importClause.isTypeOnly && n.importClause.namedBindings && n.importClause.namedBindings.elements && !n.importClause.namedBindings.elements.length) {
    n = { kind: n.kind, flags: n.flags, importClause: n.importClause.name ? { kind: K.ImportClause, flags: 0, isTypeOnly: false, name: n.importClause.name } : undefined, moduleSpecifier: n.moduleSpecifier, attributes: n.attributes };
  }
  if (key === 'name' && parent.kind === K.ImportAttribute) { out.push('(attribute', JSON.stringify(n.text), ')'); return; }
  const pk = parent && parent.kind;
  if (key === 'name' && (n.kind === K.StringLiteral || n.kind === K.Identifier || n.kind === K.NumericLiteral || n.kind === K.BigIntLiteral) && (parent.propName || pk === K.EnumMember)) { out.push('(name', JSON.stringify(nameText(n)), ')'); return; }
  if (key === 'propertyName' && (n.kind === K.StringLiteral || n.kind === K.Identifier || n.kind === K.NumericLiteral || n.kind === K.BigIntLiteral)) { out.push('(name', JSON.stringify(nameText(n)), ')'); return; }
  switch (n.kind) {
    case K.PropertyAssignment: case K.MethodDeclaration: case K.PropertyDeclaration: case K.PropertySignature: case K.MethodSignature: case K.GetAccessor: case K.SetAccessor:
      n = { ...n, propName: n.name.kind === K.Identifier || n.name.kind === K.NumericLiteral || n.name.kind === K.BigIntLiteral || n.name.kind === K.StringLiteral && n.name.text !== 'constructor' && n.name.text !== '__proto__' };
  }
  const tagged = n.kind === K.TaggedTemplateExpression;
  out.push('(', K[n.kind] || String(n.kind));
  if (n.flags & ts.NodeFlags.OptionalChain) out.push('?');
  if (n.kind === K.VariableDeclarationList) out.push(String(n.flags & ts.NodeFlags.BlockScoped));
  if (n.kind === K.ModuleDeclaration) out.push(String(n.flags & ts.NodeFlags.GlobalAugmentation));
  if (n.text !== undefined && n.kind !== K.SourceFile) {
    let t = n.text;
    if (n.kind === K.NumericLiteral) t = String(Number(t));
    if (n.kind === K.BigIntLiteral) t = BigInt(t.replace(/_/g, '').replace(/n$/, '')).toString();
    out.push(JSON.stringify(t));
    if (n.rawText !== undefined && rawDepth) out.push(JSON.stringify(n.rawText.replace(/\r\n?/g, '\n')));
  } else if (n.escapedText !== undefined) out.push(String(n.escapedText));
  for (const k of Object.keys(n)) {
    if (SKIP.has(k)) continue;
    const v = n[k];
    if (v === undefined) continue;
    if (n.kind === K.SourceFile && k !== 'statements') continue;
    if (typeof v === 'function') continue;
    if (k === 'attributes' && v.elements && !v.elements.length) continue;
    if ((k === 'typeArguments' || k === 'typeParameters') && v.length === 0) continue;
    out.push(k, '=');
    if (k === 'body' && v.kind === K.Block) v.fnBody = true;
    const saved = rawDepth;
    if (tagged && k === 'template') rawDepth = 1; else if (k === 'expression') rawDepth = 0;
    norm(v, out, n, k);
    rawDepth = saved;
  }
  out.push(')');
}
// Rewrites that do not change what a program means.
function jsxText(t) {
  const lines = t.split(/\r\n|\n|\r/);
  const out = [];
  lines.forEach((l, i) => {
    let x = l;
    if (i > 0) x = x.replace(/^[ \t]+/, '');
    if (i < lines.length - 1) x = x.replace(/[ \t]+$/, '');
    if (x) out.push(x);
  });
  return entities(out.join(' '));
}
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', copy: '\u00a9' };
function entities(t) {
  return t.replace(/&(?:#(\d+)|#x([0-9a-fA-F]+)|(\w+));/g, (m, d, h, w) => (d ? String.fromCodePoint(+d) : h ? String.fromCodePoint(parseInt(h, 16)) : ENT[w] !== undefined ? ENT[w] : m));
}
function directive(list, st) {
  for (const x of list) {
    if (x === st) return true;
    if (x.kind !== K.ExpressionStatement || x.expression.kind !== K.StringLiteral) return false;
  }
  return false;
}
function nf(sf) { const o = []; norm(sf, o, null, ''); return o.join(' '); }
function same(src, outs, how, v8) {
  if (v8 && accept(src, v8) !== true) return null;
  // TypeScript does not implement HTML-like comments.
  if (v8 === 'script' && /<!--|-->/.test(src) && !/['"`]/.test(src)) return null;
  const mod = v8 === 'module';
  const a = parse(src, how, mod);
  if (a.parseDiagnostics.length) return null;
  const na = nf(a);
  if (v8 && na.includes('FirstStatement modifiers = [ ( StaticKeyword')) return null;
  return outs.map((o) => {
    if (v8) { const e = accept(o, v8); if (e !== true) return 'not valid: ' + e; }
    const b = parse(o, how, mod);
    if (b.parseDiagnostics.length && v8) return ''; // V8 has accepted it
    if (b.parseDiagnostics.length) return 'not valid: ' + ts.flattenDiagnosticMessageText(b.parseDiagnostics[0].messageText, ' ');
    const nb = nf(b);
    if (na === nb) return '';
    let i = 0; while (na[i] === nb[i]) i++;
    return 'source tree ..' + na.slice(Math.max(0, i - 60), i + 80) + '  emitted tree ..' + nb.slice(Math.max(0, i - 60), i + 80);
  });
}
(async () => {
  const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of rl) {
    const q = JSON.parse(line);
    const r = {};
    if (q.accept) r.ok = q.accept.map((p) => accept(p.src, p.how));
    if (q.same) r.same = q.same.map((p) => same(p.src, p.outs, p.how, p.v8));
    process.stdout.write(JSON.stringify(r) + '\n');
  }
})();
