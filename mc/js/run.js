// Oracle: runs programs in V8 and reports what they do.
// in : {"progs":[{"src":..., "kind":"fn"|"sfn"|"async"|"module"|"script", "loop":bool}]}
// out: {"obs":[string,...]}
'use strict';
const vm = require('vm');
const readline = require('readline');
const MAX = 60;
class Fuel extends Error {}

function ser(v, d, seen) {
  switch (typeof v) {
    case 'undefined': return 'undefined';
    case 'boolean': return String(v);
    case 'number': return Object.is(v, -0) ? '-0' : String(v);
    case 'bigint': return String(v) + 'n';
    case 'string': return JSON.stringify(v);
    case 'symbol': return 'symbol';
    case 'function': return d > 0 ? 'function' : 'function' + props(v, d, seen);
  }
  if (v === null) return 'null';
  if (seen.includes(v)) return '<cycle>';
  seen = seen.concat([v]);
  if (d > 3) return '<deep>';
  let tag = Object.prototype.toString.call(v).slice(8, -1);
  if (tag === 'Error') return 'Error<' + errName(v) + '>';
  if (tag === 'RegExp') return String(v);
  if (tag === 'Array') {
    let out = [];
    for (let i = 0; i < v.length && i < 20; i++) out.push(i in v ? ser(v[i], d + 1, seen) : '<hole>');
    return '[' + out.join(',') + ']';
  }
  return (tag === 'Object' ? '' : tag) + props(v, d, seen);
}
function props(v, d, seen) {
  let out = [];
  for (const k of Reflect.ownKeys(v)) {
    const desc = Reflect.getOwnPropertyDescriptor(v, k);
    if (!desc.enumerable) continue;
    const ks = typeof k === 'symbol' ? '@@sym' : JSON.stringify(k);
    out.push(ks + ':' + ('value' in desc ? ser(desc.value, d + 1, seen) : '<accessor>'));
  }
  return '{' + out.join(',') + '}';
}
function errName(e) {
  try { return e.constructor && e.constructor.name || 'Error'; } catch { return 'Error'; }
}
function serErr(e) {
  if (e instanceof Fuel) return 'FUEL';
  if (Object.prototype.toString.call(e) === '[object Error]') return errName(e);
  return ser(e, 0, []);
}

const baseKeys = new Set(Reflect.ownKeys(globalThis));
function cleanup() {
  for (const k of Reflect.ownKeys(globalThis)) {
    if (!baseKeys.has(k)) delete globalThis[k];
  }
}

function env() {
  const logs = [];
  let n = 0;
  const log = (...a) => {
    if (++n > MAX) { if (n === MAX + 1) logs.push('FUEL'); throw new Fuel('fuel'); }
    logs.push(a.map((x) => ser(x, 0, [])).join(' '));
    return a[0];
  };
  return { logs, log };
}

const HEAD = '(function(log,f,g){';
function helperF(log) { return (x) => { log('f', x); return x; }; }
function helperG(log) { return () => { throw log('g'); }; }

async function one(p) {
  const { logs, log } = env();
  const f = helperF(log), g = helperG(log);
  let end;
  const opts = p.loop ? { timeout: p.tmo || (p.slow ? 20000 : 2000) } : {};
  try {
    if (p.kind === 'module') {
      const ctx = vm.createContext({ log, f, g });
      const m = new vm.SourceTextModule(p.src, { context: ctx });
      await m.link(async (spec, ref) => {
        const names = p.imports || {};
        const sm = new vm.SyntheticModule(Object.keys(names), function () {
          for (const k of Object.keys(names)) this.setExport(k, names[k]);
        }, { context: ctx });
        return sm;
      });
      await m.evaluate(opts);
      const ns = m.namespace;
      const ex = Object.keys(ns).sort().map((k) => {
        let v; try { v = ser(ns[k], 0, []); } catch (e) { v = 'throws ' + serErr(e); }
        return k + '=' + v;
      });
      end = 'exports ' + ex.join(';');
    } else if (p.kind === 'script') {
      const ctx = vm.createContext({ log, f, g });
      const r = new vm.Script(p.src).runInContext(ctx, opts);
      end = p.completion ? 'value ' + ser(r, 0, []) : 'ok';
    } else {
      const pre = p.kind === 'async' ? HEAD.replace('function', 'async function') : p.kind === 'gen' ? HEAD.replace('function', 'function*') : HEAD;
      const raw = p.kind.startsWith('raw-');
      if (raw) p = { ...p, kind: p.kind.slice(4) };
      const src = raw ? p.src : pre + (p.kind === 'sfn' ? '"use strict";' : '') + p.src + '\n})';
      const fn = new vm.Script(src).runInThisContext();
      let r;
      if (p.loop) {
        globalThis.__mc_call = () => fn.call(p.kind === 'sfn' ? undefined : globalThis, log, f, g);
        r = new vm.Script('__mc_call()').runInThisContext(opts);
      } else {
        r = fn.call(p.kind === 'sfn' ? undefined : globalThis, log, f, g);
      }
      if (p.kind === 'async') {
        let st = 'pending';
        r.then((v) => { st = 'return ' + ser(v, 0, []); }, (e) => { st = 'throw ' + serErr(e); });
        for (let i = 0; i < 3; i++) await new Promise((res) => setImmediate(res));
        end = st;
      } else if (p.kind === 'gen') {
        const out = [];
        for (let i = 0; i < 8; i++) { const s = r.next(i); out.push(ser(s.value, 0, [])); if (s.done) { out.push('done'); break; } }
        end = out.join(',');
      } else end = 'return ' + ser(r, 0, []);
    }
  } catch (e) {
    if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') end = 'TIMEOUT';
    else if (e && e.name === 'SyntaxError' && !logs.length) end = 'throw SyntaxError ';
    else end = 'throw ' + serErr(e);
  }
  if (p.tick) for (let i = 0; i < 2; i++) await new Promise((res) => setImmediate(res));
  delete globalThis.__mc_call;
  cleanup();
  return logs.join('|') + ' => ' + end;
}
process.on('unhandledRejection', () => {});
(async () => {
  const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of rl) {
    const req = JSON.parse(line);
    const obs = [];
    for (const p of req.progs) {
      let o = await one(p);
      if (!p.tmo && o.endsWith('TIMEOUT')) o = await one({ ...p, slow: true });
      obs.push(o);
    }
    process.stdout.write(JSON.stringify({ obs }) + '\n');
  }
})();
