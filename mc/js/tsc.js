// Oracle: the TypeScript compiler (5.9) on many independent files at once.
// in : {"files":[src...], "options":{...}, "ext":".ts", "lib": text}
// out: {"diags":[[ [code,start,length], ...], ...]}
'use strict';
const ts = require('typescript');
const readline = require('readline');
const sfCache = new Map();
function check(req) {
  const options = Object.assign({ strict: true, noLib: false, noEmit: true, target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, moduleDetection: 3, lib: ['/lib.d.ts'], types: [], moduleResolution: 2 }, req.options || {});
  const ext = req.ext || '.ts';
  const files = new Map();
  const sources = req.multi ? req.multi : null;
  const roots = [];
  if (sources) for (const [k, v] of Object.entries(sources)) { files.set('/' + k, v); roots.push('/' + k); }
  else req.files.forEach((s, i) => { files.set(`/f${i}${ext}`, s); roots.push(`/f${i}${ext}`); });
  options.noLib = true; delete options.lib;
  files.set('/lib.d.ts', req.lib);
  const host = {
    getSourceFile: (name, lv) => {
      const t = files.get(name);
      if (t === undefined) return undefined;
      if (name === '/lib.d.ts') { let sf = sfCache.get(t); if (!sf) { sf = ts.createSourceFile(name, t, lv); sfCache.set(t, sf); } return sf; }
      return ts.createSourceFile(name, t, lv);
    },
    getDefaultLibFileName: () => '/lib.d.ts', writeFile() {}, getCurrentDirectory: () => '/', getCanonicalFileName: (f) => f,
    useCaseSensitiveFileNames: () => true, getNewLine: () => '\n', fileExists: (f) => files.has(f), readFile: (f) => files.get(f), directoryExists: () => true, getDirectories: () => [],
  };
  const program = ts.createProgram(['/lib.d.ts', ...roots], options, host);
  const out = {};
  const diags = roots.map((r) => {
    const sf = program.getSourceFile(r);
    const ds = [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)];
    return ds.map((d) => [d.code, d.start, d.length, req.msg ? ts.flattenDiagnosticMessageText(d.messageText, '\n') : '']);
  });
  let types;
  if (req.types) {
    // display type of every declared variable named by req.types prefix
    const ck = program.getTypeChecker();
    types = roots.map((r) => {
      const sf = program.getSourceFile(r); const res = {};
      const visit = (n) => {
        if ((ts.isVariableDeclaration(n) || ts.isTypeAliasDeclaration(n)) && ts.isIdentifier(n.name) && n.name.text.startsWith(req.types)) {
          res[n.name.text] = ck.typeToString(ck.getTypeAtLocation(n.name), undefined, ts.TypeFormatFlags.NoTruncation | ts.TypeFormatFlags.InTypeAlias);
        }
        ts.forEachChild(n, visit);
      };
      visit(sf); return res;
    });
  }
  return { diags, types };
}
(async () => {
  const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of rl) {
    const req = JSON.parse(line);
    process.stdout.write(JSON.stringify(check(req)) + '\n');
  }
})();
