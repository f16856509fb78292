// Runs generated TypeScript on the cases the driver with the generated Rust code wrote down (C05).
//   node tsdrive.js DIR SCHEMAS.json CASES TRACE MS
// DIR/sK.ts: the code for schema set K; SCHEMAS: per set its declarations; CASES: lines as `ts_case` gives.
'use strict';
const fs = require('fs');
const Module = require('module');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [dir, schemasFile, casesFile, traceFile, ms] = process.argv.slice(2);
const schemas = JSON.parse(fs.readFileSync(schemasFile, 'utf8'));
const trace = fs.openSync(traceFile, 'w');
const say = (s, t, c, m) => { fs.writeSync(1, `VIOLATION\t${s}\t${t}\t${c}\t${String(m).replace(/[\n\t]/g, ' ').slice(0, 900)}\n`); process.exit(0); };

const mods = schemas.map((_, k) => {
  const text = fs.readFileSync(`${dir}/s${k}.ts`, 'utf8');
  const r = ts.transpileModule(text, { reportDiagnostics: true, compilerOptions: { target: 'ES2020', module: 'CommonJS' } });
  if (r.diagnostics.length) say(k, 0, 'tscompile:', 'the generated TypeScript is not well-formed: ' + ts.flattenDiagnosticMessageText(r.diagnostics[0].messageText, ' '));
  const m = { exports: {} };
  try { new Function('module', 'exports', 'require', r.outputText)(m, m.exports, require); } catch (e) { say(k, 0, 'tscompile:', 'the generated TypeScript does not load: ' + e); }
  return m.exports;
});
const hex = (b) => Buffer.from(b).toString('hex');
const buffer = (h) => { const b = Buffer.from(h, 'hex'); return b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength); };
const scratch = new DataView(new ArrayBuffer(8));
const float = (bits) => { scratch.setBigUint64(0, BigInt(bits)); return scratch.getFloat64(0); };
// a value of the wire reference as the TypeScript types have it; `out`: as a message to write
function conv(decls, ty, v, out) {
  if (ty[0] === 'Arr') return v.map((x) => conv(decls, ty[1], x, out));
  if (ty[0] === 'Decl') {
    const d = decls[ty[1]];
    const r = {};
    if (d.choice) {
      const [c, p, fb] = v.c;
      const f = d.fields[c];
      if (!out) r.$field = f.name;
      r[f.name] = conv(decls, f.ty, p, out);
      if (fb !== 0) r.$fallback = conv(decls, ty, fb, out);
    } else d.fields.forEach((f, i) => { r[f.name] = v.m[i] === 0 ? undefined : conv(decls, f.ty, v.m[i][0], out); });
    return r;
  }
  switch (ty[0]) {
    case 'F64': return float(v.f);
    case 'U64': case 'S64': return BigInt(v.i);
    case 'Bytes': return buffer(v.x);
    default: return v;
  }
}
function same(a, b) {
  if (a instanceof ArrayBuffer || b instanceof ArrayBuffer) return a instanceof ArrayBuffer && b instanceof ArrayBuffer && Buffer.from(a).equals(Buffer.from(b));
  if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
  if (a !== null && b !== null && typeof a === 'object' && typeof b === 'object') {
    const k = Object.keys(a), l = Object.keys(b);
    return k.every((x) => same(a[x], b[x])) && l.every((x) => x in a || b[x] === undefined);
  }
  return Object.is(a, b);
}
const brief = (v) => { try { return JSON.stringify(v, (_, x) => typeof x === 'bigint' ? `${x}n` : x instanceof ArrayBuffer ? `bytes ${hex(x)}` : x === undefined ? 'undefined' : x).slice(0, 300); } catch { return String(v); } };
// the forms in which bytes can be handed over
const forms = [
  (b) => b,
  (b) => { const u = new Uint8Array(b.byteLength + 24); u.fill(0x5a); u.set(new Uint8Array(b), 16); return new DataView(u.buffer, 16, b.byteLength); },
  (b) => { const u = new Uint8Array(b.byteLength + 24); u.fill(0xff); u.set(new Uint8Array(b), 8); return u.subarray(8, 8 + b.byteLength); },
];
const end = Date.now() + Number(ms);
let total = 0, n = 0;
for (const line of fs.readFileSync(casesFile, 'utf8').split('\n')) {
  if (Date.now() > end) break;
  const x = line.split('\t');
  if (x.length !== 7) continue;
  const [s, t, c, kind, h, vj, wj] = x;
  fs.writeSync(trace, `${s}\t${t}\t${c}\n`, 0);
  const decls = schemas[s];
  const d = decls[t];
  let ns = mods[s];
  for (const p of d.path) ns = ns && ns[p];
  const T = ns && ns[d.name];
  if (!T) say(s, t, c, `there is no ${d.path.join('.')}.${d.name} in the generated TypeScript`);
  const ty = ['Decl', Number(t)];
  total += 1;
  if (kind === 'W') {
    const m = conv(decls, ty, JSON.parse(vj), true);
    let size, bytes;
    try { size = T.size(m); bytes = T.serialize(m); } catch (e) { say(s, t, c, `the TypeScript code fails to write ${brief(m)}: ${e}; the Rust code writes ${h}`); }
    const got = hex(bytes);
    if (got !== h) {
      let i = 0;
      while (got[i] === h[i]) i += 1;
      i >>= 1;
      say(s, t, c, `the TypeScript code writes ${brief(m)} as ${bytes.byteLength} bytes, the Rust code as ${h.length / 2}; they differ from byte ${i}: ${got.substr(2 * i, 40)} and ${h.substr(2 * i, 40)}`);
    }
    if (size !== h.length / 2) say(s, t, c, `the TypeScript code gives ${size} as the size of ${brief(m)}, and it is ${h.length / 2} in Rust`);
  }
  if (wj === '0') continue;
  const want = conv(decls, ty, JSON.parse(wj), false);
  const r = T.deserialize(forms[n++ % forms.length](buffer(h)));
  if (r instanceof Error || !same(r, want)) say(s, t, c, `the TypeScript code reads ${h.slice(0, 200)} as ${r instanceof Error ? r : brief(r)} and the Rust code as ${brief(want)}`);
}
fs.writeSync(1, `DONE\t${total}\t${total}\n`);
