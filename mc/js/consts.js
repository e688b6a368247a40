// Oracle: evaluates constant expressions in V8.  in: {"src":[...]}  out: {"obs":[...]}
'use strict';
const readline = require('readline');
function text(v) {
  switch (typeof v) {
    case 'number': {
      const b = Buffer.alloc(8);
      b.writeDoubleBE(Number.isNaN(v) ? NaN : v);
      return 'num ' + b.toString('hex');
    }
    case 'bigint': return v + 'n';
    case 'string': {
      let o = 'str "';
      for (let i = 0; i < v.length; i++) o += '\\u' + v.charCodeAt(i).toString(16).padStart(4, '0');
      return o + '"';
    }
    case 'boolean': case 'undefined': return String(v);
    default: return v === null ? 'null' : 'other ' + typeof v;
  }
}
readline.createInterface({ input: process.stdin }).on('line', l => {
  const { src } = JSON.parse(l);
  const obs = src.map(s => {
    try { return text((0, eval)('(' + s + ')')); } catch (e) { return 'throw ' + e.name; }
  });
  process.stdout.write(JSON.stringify({ obs }) + '\n');
});
