// Translates the functions of generated TypeScript into Rust for the verifier, construct by construct.
//   node ts2v.js CODE.ts NAMES.json > OUT.rs
// NAMES: {types: {"Main.FooOut": {rust: "FooOut", members: {a: "a"}}}}: the Rust message types and members
// that stand for the TypeScript ones. What is not understood ends the translation (exit 3).
// A number is an integer below 2^53 here (u64, arithmetic through functions which demand that), except where
// it is a member or element of a message; a bigint is `Big`, with an unbounded value; objects are not changed
// after they are made, except by assignment to a variable, so that sharing them is copying them (`share`);
// a DataView that is written to is passed on as &mut; new Uint8Array(d.buffer, d.byteOffset, d.byteLength) is d.
'use strict';
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const K = ts.SyntaxKind;
const [file, namesFile] = process.argv.slice(2);
const names = namesFile ? JSON.parse(fs.readFileSync(namesFile, 'utf8')) : { types: {} };
const options = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, strict: true, noEmit: true, lib: ['lib.es2020.d.ts', 'lib.dom.d.ts'], types: [] };
const program = ts.createProgram([file], options);
const sf = program.getSourceFile(file);
const checker = program.getTypeChecker();
class Lost extends Error {}
const lost = (n, what) => { throw new Lost(`${what}: ${n ? n.getText(sf).slice(0, 120).replace(/\s+/g, ' ') : ''}`); };
const KEYWORDS = new Set(['type', 'match', 'loop', 'fn', 'ref', 'box', 'move', 'use', 'mod', 'struct', 'impl', 'pub', 'self', 'mut', 'where']);
const snake = (s) => { let r = s.replace(/^\$/, 's_').replace(/([a-z0-9])([A-Z])/g, '$1_$2').toLowerCase(); if (/^_/.test(r)) r = 'k' + r; return KEYWORDS.has(r) ? r + '_' : r; };
const pascal = (s) => { const c = s.replace(/^_/, ''); return c[0].toUpperCase() + c.slice(1); };
const typeOf = (n) => checker.getTypeAtLocation(n);
const F = ts.TypeFlags;
const strip = (t) => checker.getNonNullableType(t);
const flags = (t, f) => t.isUnion() ? t.types.every((x) => x.flags & f) : !!(t.flags & f);
const isBig = (n) => flags(strip(typeOf(n)), F.BigIntLike);
const isNum = (n) => flags(strip(typeOf(n)), F.NumberLike);
const isBool = (n) => flags(strip(typeOf(n)), F.BooleanLike);
const isNull = (n) => flags(typeOf(n), F.Null);
const optional = (t) => t.isUnion() && t.types.some((x) => x.flags & F.Undefined);
const typeName = (t) => t.aliasSymbol ? checker.getFullyQualifiedName(t.aliasSymbol).replace(/^".*?"\./, '') : aliasAbove(t) || (t.symbol ? t.symbol.getName() : '');
// a choice with one case: the checker drops the union of one and forgets the name
function aliasAbove(t) {
  for (const d of t.symbol && t.symbol.declarations || []) {
    const a = ts.isTypeLiteralNode(d) && ts.isUnionTypeNode(d.parent) && d.parent.types.length === 1 && aliases.find((x) => x.node === d.parent.parent);
    if (a) return a.full;
  }
  return '';
}
const isView = (n) => typeName(strip(typeOf(n))) === 'DataView';
const rustName = (full) => full.split('.').pop();

// ---- functions -----------------------------------------------------------------------------------------
const fns = [];
const aliases = [];
(function walk(n, path) {
  if (ts.isFunctionDeclaration(n)) fns.push({ node: n, name: [...path, n.name.text].map(snake).join('_'), full: [...path, n.name.text].join('.'), path });
  else if (ts.isModuleDeclaration(n)) walk(n.body, [...path, n.name.text]);
  else if (ts.isModuleBlock(n) || ts.isSourceFile(n)) n.statements.forEach((x) => walk(x, path));
  else if (ts.isTypeAliasDeclaration(n)) aliases.push({ node: n, full: [...path, n.name.text].join('.'), path });
})(sf, []);
const fnOf = (callee) => {
  let s = checker.getSymbolAtLocation(callee);
  if (s && s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
  return s && s.valueDeclaration && fns.find((f) => f.node === s.valueDeclaration);
};
const each = (n, f) => { f(n); ts.forEachChild(n, (c) => each(c, f)); };
const SETS = /^set(Uint8|Uint16|Uint32|BigUint64|Float64)$/, GETS = /^get(Uint8|Uint16|Uint32|BigUint64|Float64)$/;
for (const f of fns) {
  f.calls = []; f.throws = f.scratch = false; f.writes = /\.serializeWithAtlasUnsafe$/.test(f.full); f.assigned = new Set();
  each(f.node.body, (n) => {
    if (ts.isCallExpression(n)) {
      const g = fnOf(n.expression);
      if (g) f.calls.push(g);
      if (ts.isPropertyAccessExpression(n.expression)) {
        const on = n.expression.expression;
        if (isView(on) && ts.isIdentifier(on) && on.text !== 'dataView64') {
          if (SETS.test(n.expression.name.text)) f.writes = true;
          if (GETS.test(n.expression.name.text)) f.throws = true;
        }
      }
    }
    if (ts.isNewExpression(n) && n.expression.text === 'Uint8Array') f.writes = true;
    if (ts.isThrowStatement(n)) f.throws = true;
    if (ts.isIdentifier(n) && n.text === 'dataView64') f.scratch = true;
    if (ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) each(n.left, (x) => { if (ts.isIdentifier(x)) f.assigned.add(x.text); });
  });
}
for (let more = true; more;) {
  more = false;
  for (const f of fns) for (const g of f.calls) {
    const view = f.node.parameters.some((p) => isView(p.name));
    if (g.writes && view && !f.writes) { f.writes = true; more = true; }
    if (g.throws && !f.throws) { f.throws = true; more = true; }
  }
}
// ---- types -----------------------------------------------------------------------------------------------
function rtype(n) {
  switch (n.kind) {
    case K.NumberKeyword: return 'u64';
    case K.BigIntKeyword: return 'Big';
    case K.BooleanKeyword: return 'bool';
    case K.VoidKeyword: return '()';
    case K.TupleType: return `(${n.elements.map(rtype).join(', ')})`;
    case K.TypeReference: {
      const t = checker.getTypeFromTypeNode(n);
      const full = typeName(t) || n.getText(sf);
      if (names.types[full]) return names.types[full].rust;
      return /^(DataView|ArrayBuffer)$/.test(full) ? full : full === 'Uint8Array' ? 'Vec<u8>' : rustName(full);
    }
    case K.ParenthesizedType: return rtype(n.type);
    case K.UnionType: {
      const rest = n.types.filter((x) => x.kind !== K.UndefinedKeyword);
      if (rest.length === 1 && rest.length < n.types.length) return `Option<${rtype(rest[0])}>`;
      return lost(n, 'union type');
    }
    case K.TypeLiteral: {
      const m = n.members.map((x) => x.name.text);
      if (m.join() === '$size,$elements') return `ArrAtlas<${rtype(n.members[1].type.elementType)}>`;
      return lost(n, 'type literal');
    }
    case K.ArrayType: return `Vec<${rtype(n.elementType)}>`;
    default: return lost(n, 'type');
  }
}
function atlasType(a) {
  const name = rustName(a.full);
  if (ts.isTypeLiteralNode(a.node.type)) {
    return `pub struct ${name} { ${a.node.type.members.map((m) => `pub ${m.name.text === '$size' ? 'size_' : snake(m.name.text)}: ${rtype(m.type)}`).join(', ')} }\nimpl ${name} {\n    pub fn size_(&self) -> u64 { self.size_ }\n}`;
  }
  const vs = ts.isUnionTypeNode(a.node.type) ? a.node.type.types : a.node.type.kind === K.NeverKeyword ? [] : lost(a.node, 'atlas type');
  return choiceAtlas(name, vs);
}
function choiceAtlas(name, vs) {
  const parts = vs.map((v) => {
    const l = ts.isParenthesizedTypeNode(v) ? v.type : v;
    const own = l.members.find((m) => !m.name.text.startsWith('$'));
    const fb = l.members.some((m) => m.name.text === '$fallback');
    return { v: pascal(own.name.text), x: snake(own.name.text), t: rtype(own.type), fb };
  });
  const get = parts.map((p) => `    pub fn get_${p.x}(&self) -> &${p.t} { match self { ${name}::${p.v}(_, x${p.fb ? ', _' : ''}) => x, _ => unreachable() } }\n`
    + (p.fb ? `    pub fn fallback_${p.x}(&self) -> &${name} { match self { ${name}::${p.v}(_, _, f) => f, _ => unreachable() } }\n` : '')).join('');
  return `pub enum ${name} { ${parts.map((p) => `${p.v}(u64, ${p.t}${p.fb ? `, Box<${name}>` : ''})`).join(', ')} }\nimpl ${name} {\n`
    + `    pub fn size_(&self) -> u64 { match self { ${parts.map((p) => `${name}::${p.v}(s, _${p.fb ? ', _' : ''}) => *s`).join(', ')} } }\n${get}}`;
}
// ---- expressions -------------------------------------------------------------------------------------------
let cur, inCase;
const lit = (n) => { while (ts.isParenthesizedExpression(n)) n = n.expression; return ts.isNumericLiteral(n) || ts.isBigIntLiteral(n) ? BigInt(n.text.replace(/n$/, '').replace(/_/g, '')) : null; };
const tooBig = (v, n) => v < (1n << 128n) ? v : lost(n, 'literal');
const undef = (n) => ts.isIdentifier(n) && n.text === 'undefined';
const variant = (t, prop) => null;
// the type a variable is declared with: within `'x' in message` the type of message is a narrower one
function declared(n) {
  const s = ts.isIdentifier(n) && checker.getSymbolAtLocation(n), d = s && s.valueDeclaration;
  return d && d.type ? checker.getTypeFromTypeNode(d.type) : typeOf(n);
}
function declaredName(n) {
  const s = ts.isIdentifier(n) && checker.getSymbolAtLocation(n), d = s && s.valueDeclaration;
  if (!d || !d.type || !ts.isTypeReferenceNode(d.type)) return null;
  const t = checker.getSymbolAtLocation(d.type.typeName), a = t && aliases.find((x) => t.declarations.includes(x.node));
  return a && a.full;
}
function outType(n) { const full = declaredName(n) || typeName(strip(declared(n))); return names.types[full] && { full, ...names.types[full] }; }
function ownedObject(n) { // an identifier holding an object, used as a value
  return ts.isIdentifier(n) && !isNum(n) && !isBig(n) && !isBool(n);
}
const value = (n) => ownedObject(n) && !cur.bufferAlias[n.text] ? `share(&${ex(n)})` : ex(n);
function binary(n) {
  const op = n.operatorToken.kind, a = n.left, b = n.right;
  if ([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken].includes(op)) {
    const not = op === K.ExclamationEqualsEqualsToken;
    if (undef(b)) return `${ex(a)}.${not ? 'is_some' : 'is_none'}()`;
    if (isBig(a)) return `${not ? '!' : ''}${ex(a)}.eq(${ex(b)})`;
    if (isNum(a) || isBool(a)) return `(${ex(a)} ${not ? '!=' : '=='} ${ex(b)})`;
    return lost(n, 'comparison');
  }
  const cmp = { [K.LessThanToken]: ['lt', '<'], [K.LessThanEqualsToken]: ['le', '<='], [K.GreaterThanToken]: ['gt', '>'], [K.GreaterThanEqualsToken]: ['ge', '>='] }[op];
  if (cmp) return isBig(a) ? `${ex(a)}.${cmp[0]}(${ex(b)})` : `(${ex(a)} ${cmp[1]} ${ex(b)})`;
  if (op === K.AmpersandAmpersandToken) return `(${ex(a)} && ${ex(b)})`;
  if (op === K.BarBarToken) return `(${ex(a)} || ${ex(b)})`;
  return arith(op, ex(a), b, isBig(a), n);
}
function arith(op, a, b, big, n) {
  const c = lit(b);
  const pow = (v) => { let p = 1n; while (p <= v) p <<= 1n; return p; };
  const need = () => c === null ? lost(n, 'operand that is no literal') : c;
  switch (op) {
    case K.PlusToken: return big ? `sum(${a}, ${ex(b)})` : `plus(${a}, ${ex(b)})`;
    case K.MinusToken: return big ? `difference(${a}, ${ex(b)})` : `minus(${a}, ${ex(b)})`;
    case K.AsteriskToken: return big ? lost(n, 'product') : `product(${a}, ${ex(b)})`;
    case K.LessThanLessThanToken: return big ? `times(${a}, ${tooBig(1n << need(), n)})` : lost(n, 'shift');
    case K.GreaterThanGreaterThanToken: return big ? `over(${a}, ${tooBig(1n << need(), n)})` : `shr(${a}, ${tooBig(1n << need(), n)})`;
    case K.PercentToken: return big ? `rem(${a}, ${tooBig(need(), n)})` : lost(n, 'remainder');
    case K.AmpersandToken: if (pow(need()) !== c + 1n) lost(n, 'mask'); return `${big ? 'low' : 'low_number'}(${a}, ${c + 1n})`;
    case K.BarToken: return `${big ? 'or' : 'or_number'}(${a}, ${need()}, ${pow(c)})`;
    default: return lost(n, 'operator');
  }
}
const COMPOUND = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken };
// reading a member or an element: values are copied, objects borrowed
function place(n, r) {
  const t = typeOf(n);
  if (optional(t)) return `&${r}`;
  if (isBig(n)) return `${r}.big()`;
  if (isNum(n) || isBool(n)) return r;
  if (isNull(n)) return '()';
  return `&${r}`;
}
function ex(n) {
  switch (n.kind) {
    case K.ParenthesizedExpression: return `(${ex(n.expression)})`;
    case K.AsExpression: {
      // (atlas as any).x as T
      let e = n.expression;
      while (ts.isParenthesizedExpression(e)) e = e.expression;
      if (ts.isPropertyAccessExpression(e)) {
        let o = e.expression;
        while (ts.isParenthesizedExpression(o) || ts.isAsExpression(o)) o = o.expression;
        if ((declaredName(o) || typeName(strip(typeOf(o)))).endsWith('Atlas') && strip(typeOf(e.expression)).flags & F.Any) {
          if (e.name.text === '$fallback') return `${ex(o)}.fallback_${snake(inCase)}()`;
          const num = n.type.kind === K.NumberKeyword;
          return `${num ? '*' : ''}${ex(o)}.get_${snake(e.name.text)}()`;
        }
      }
      return ex(n.expression);
    }
    case K.NumericLiteral: return `${lit(n)}`;
    case K.BigIntLiteral: return `big(${tooBig(lit(n), n)})`;
    case K.TrueKeyword: return 'true';
    case K.FalseKeyword: return 'false';
    case K.NullKeyword: return '()';
    case K.Identifier: return cur.bufferAlias[n.text] ? `${cur.bufferAlias[n.text]}.buffer()` : n.text === 'missingFieldsErrorMessage' ? '"missing"' : snake(n.text);
    case K.PrefixUnaryExpression:
      if (n.operator === K.MinusToken && isBig(n.operand)) return `neg(${ex(n.operand)})`;
      if (n.operator === K.ExclamationToken) return `!${ex(n.operand)}`;
      return lost(n, 'operator');
    case K.ConditionalExpression: return `(if ${cond(n.condition)} { ${ex(n.whenTrue)} } else { ${ex(n.whenFalse)} })`;
    case K.BinaryExpression: return binary(n);
    case K.ArrayLiteralExpression: return n.elements.length ? `(${n.elements.map(ex).join(', ')})` : 'Vec::new()';
    case K.ElementAccessExpression: return place(n, `${ex(n.expression)}[${ex(n.argumentExpression)} as usize]`);
    case K.PropertyAccessExpression: {
      const p = n.name.text, o = n.expression;
      if ((p === 'length' || p === 'byteLength') && !outType(o)) return `(${ex(o)}.len() as u64)`;
      const out = outType(o);
      if (out) {
        if (out.choice) {
          if (inCase === null) lost(n, 'member outside of a case');
          const v = p === '$fallback' ? 'message_fallback' : p === inCase ? 'message_payload' : lost(n, 'member of another case');
          if (p === '$fallback') return `&**${v}`;
          return isBig(n) ? `(*${v}).big()` : isNum(n) || isBool(n) ? `*${v}` : isNull(n) ? '()' : v;
        }
        if (!(p in out.members)) lost(n, 'member');
        return place(n, `${ex(o)}.${out.members[p]}`);
      }
      const t = strip(typeOf(o));
      let inner = o;
      while (ts.isParenthesizedExpression(inner)) inner = inner.expression;
      if (p === '$size' && ts.isAsExpression(inner)) return `${ex(o)}.size_()`;
      if (p === '$size') return t.isUnion() ? `${ex(o)}.size_()` : `${ex(o)}.${atlasOfChoice(t) ? 'size_()' : 'size_'}`;
      if (p === '$elements') return `${ex(o)}.elements`;
      if (typeName(t).endsWith('Atlas')) return place(n, `${ex(o)}.${snake(p)}`);
      return lost(n, 'property');
    }
    case K.CallExpression: return call(n);
    case K.ObjectLiteralExpression: return object(n);
    case K.NewExpression: {
      if (n.expression.text === 'ArrayBuffer') return `ArrayBuffer::new(${ex(n.arguments[0])})`;
      if (n.expression.text === 'DataView' && n.arguments.length === 1 && ts.isVariableDeclaration(n.parent) && ts.isIdentifier(n.arguments[0]) && cur.owned.has(n.arguments[0].text)) {
        // from here on the bytes of the buffer are those of the view
        const r = `DataView::of(${ex(n.arguments[0])})`;
        cur.bufferAlias[n.arguments[0].text] = snake(n.parent.name.text);
        return r;
      }
      return lost(n, 'new');
    }
    default: return lost(n, `expression (${K[n.kind]})`);
  }
}
const atlasOfChoice = (t) => t.aliasSymbol && t.aliasSymbol.declarations.some((d) => d.type && !ts.isTypeLiteralNode(d.type)) || choiceAlias(t);
function choiceAlias(t) { // a choice with one case is a union of one
  return !!t.symbol && !!t.symbol.declarations && t.symbol.declarations.some((d) => ts.isTypeLiteralNode(d) && ts.isUnionTypeNode(d.parent) && d.parent.types.length === 1 && ts.isTypeAliasDeclaration(d.parent.parent));
}
function call(n) {
  const f = fnOf(n.expression);
  if (f) {
    const args = n.arguments.map((a, i) => {
      const want = f.node.parameters[i];
      if (isView(want.name)) return ts.isIdentifier(a) && cur.params.has(a.text) ? ex(a) : `${f.writes ? '&mut ' : '&'}${ex(a)}`;
      if (isNum(want.name) || isBig(want.name) || isBool(want.name)) return ex(a);
      return ts.isIdentifier(a) && cur.owned.has(a.text) ? `&${ex(a)}` : ex(a);
    });
    return `${f.name}(${args.join(', ')})${f.throws ? '?' : ''}`;
  }
  const e = n.expression;
  if (ts.isIdentifier(e)) {
    if (e.text === 'Number') return `number(${ex(n.arguments[0])})`;
    if (e.text === 'BigInt') return `big_of(${ex(n.arguments[0])})`;
  }
  if (ts.isPropertyAccessExpression(e)) {
    const m = e.name.text, o = e.expression;
    const args = n.arguments.map(ex);
    if (isView(o) && ts.isIdentifier(o)) {
      if (SETS.test(m) || GETS.test(m)) {
        if (!/8$/.test(m)) { if (args.length !== (m[0] === 's' ? 3 : 2) || args.pop() !== 'true') lost(n, 'byte order'); }
        return o.text === 'dataView64' && m[0] === 'g' ? `${ex(o)}.peek${snake(m).slice(3)}(${args.join(', ')})` : `${ex(o)}.${snake(m)}(${args.join(', ')})${m[0] === 'g' ? '?' : ''}`;
      }
    }
    if (ts.isIdentifier(o) && o.text === 'textEncoder' && m === 'encode') return `text_encode(${args[0]})`;
    if (ts.isIdentifier(o) && o.text === 'Object' && m === 'is') return `object_is(${args[0]}, ${args[1]})`;
    if (m === 'push') return `${ex(o)}.push(${value(n.arguments[0])})`;
    if (m === 'set' && ts.isIdentifier(o) && cur.viewAlias[o.text]) return `${cur.viewAlias[o.text]}.set_bytes(${args.join(', ')})`;
  }
  return lost(n, 'call');
}
function object(n) {
  const ps = n.properties.map((p) => [p.name.text, ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : lost(p, 'property')]);
  if (ps.map((p) => p[0]).join() === '$size,$elements') return `ArrAtlas { size_: ${ex(ps[0][1])}, elements: ${value(ps[1][1])} }`;
  const ret = cur.node.type;
  if (n.parent.kind !== K.ReturnStatement || !/Atlas$/.test(ret.getText(sf))) return lost(n, 'object');
  const name = rtype(ret);
  const alias = aliases.find((a) => rustName(a.full) === name);
  if (alias && ts.isTypeLiteralNode(alias.node.type)) {
    return `${name} { ${ps.map(([k, v]) => {
      const m = alias.node.type.members.find((x) => x.name.text === k);
      if (!m) lost(n, 'member');
      const opt = ts.isUnionTypeNode(m.type) && m.type.types.some((x) => x.kind === K.UndefinedKeyword);
      const late = ts.isIdentifier(v) && cur.late.has(v.text);
      return `${k === '$size' ? 'size_' : snake(k)}: ${late ? (opt ? ex(v) : `${ex(v)}.unwrap()`) : value(v)}`;
    }).join(', ')} }`;
  }
  const own = ps.find((p) => !p[0].startsWith('$')), size = ps.find((p) => p[0] === '$size'), fb = ps.find((p) => p[0] === '$fallback');
  return `${name}::${pascal(own[0])}(${ex(size[1])}, ${value(own[1])}${fb ? `, Box::new(${value(fb[1])})` : ''})`;
}
// conditions: `x !== undefined` makes x what it holds
function defined(n) {
  if (ts.isParenthesizedExpression(n)) return defined(n.expression);
  if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.AmpersandAmpersandToken) { const a = defined(n.left), b = defined(n.right); return a && b ? [...a, ...b] : null; }
  if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.ExclamationEqualsEqualsToken && undef(n.right) && ts.isIdentifier(n.left)) return [n.left];
  return null;
}
function cond(n) { return ex(n); }
function branch(n, ind) {
  const c = n.expression;
  const d = defined(c);
  let head, extra = '', restore = inCase;
  if (d) {
    if (n.elseStatement) lost(n, 'else of a comparison with undefined');
    head = `if let (${d.map((x) => `Some(${ex(x)})`).join(', ')}) = (${d.map((x) => ex(x)).join(', ')})`.replace(/\((Some\(\w+\))\) = \((\w+)\)/, '$1 = $2');
    for (const x of d) {
      if (isBig(x)) extra += `${ind}    let ${ex(x)} = ${ex(x)}.big();\n`;
      else if (isNum(x) || isBool(x)) extra += `${ind}    let ${ex(x)} = *${ex(x)};\n`;
    }
  } else if (ts.isBinaryExpression(c) && c.operatorToken.kind === K.InKeyword) {
    const out = outType(c.right);
    if (!out || !out.choice || !ts.isStringLiteral(c.left) || n.elseStatement || !out.cases[c.left.text]) lost(n, 'case');
    const k = out.cases[c.left.text];
    const vs = [...(k.unit ? [] : ['message_payload']), ...(k.fallback ? ['message_fallback'] : [])];
    head = `if let ${out.rust}::${k.rust}${vs.length ? `(${vs.join(', ')})` : ''} = ${ex(c.right)}`;
    inCase = c.left.text;
  } else head = `if ${cond(c)}`;
  let r = `${ind}${head} {\n${extra}${body(n.thenStatement, ind + '    ')}${ind}}`;
  inCase = restore;
  if (n.elseStatement) r += ` else {\n${body(n.elseStatement, ind + '    ')}${ind}}`;
  return r + '\n';
}
const body = (n, ind) => (ts.isBlock(n) ? n.statements : [n]).map((s) => st(s, ind)).join('');
const ends = (n) => { const s = ts.isBlock(n) ? n.statements[n.statements.length - 1] : n; return !!s && (s.kind === K.ReturnStatement || s.kind === K.ThrowStatement || s.kind === K.ContinueStatement || (s.kind === K.Block && ends(s))); };
function st(n, ind) {
  switch (n.kind) {
    case K.Block: return `${ind}{\n${body(n, ind + '    ')}${ind}}\n`;
    case K.EmptyStatement: return '';
    case K.IfStatement: return branch(n, ind);
    case K.ReturnStatement: {
      if (!n.expression) return `${ind}return ${cur.throws ? 'Ok(())' : ''};\n`;
      if (ts.isCallExpression(n.expression) && n.expression.expression.getText(sf) === 'unreachable') return `${ind}return unreachable();\n`;
      const e = value(n.expression);
      return `${ind}return ${cur.throws ? `Ok(${e})` : e};\n`;
    }
    case K.VariableStatement: return n.declarationList.declarations.map((d) => declare(d, ind)).join('');
    case K.ExpressionStatement: {
      const e = n.expression;
      if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken) {
        if (ts.isArrayLiteralExpression(e.left)) {
          const tmp = e.left.elements.map((x, i) => `t${i}_`);
          return `${ind}let (${tmp.join(', ')}) = ${ex(e.right)};\n${e.left.elements.map((x, i) => `${ind}${ex(x)} = ${tmp[i]};\n`).join('')}`;
        }
        const late = ts.isIdentifier(e.left) && cur.late.has(e.left.text);
        if (ts.isIdentifier(e.left) && !isNum(e.left) && !isBig(e.left)) cur.owned.add(e.left.text);
        return `${ind}${ex(e.left)} = ${late ? `Some(${value(e.right)})` : value(e.right)};\n`;
      }
      if (ts.isBinaryExpression(e) && COMPOUND[e.operatorToken.kind]) return `${ind}${ex(e.left)} = ${arith(COMPOUND[e.operatorToken.kind], ex(e.left), e.right, isBig(e.left), e)};\n`;
      if (ts.isCallExpression(e)) return `${ind}${ex(e)};\n`;
      return lost(n, 'statement');
    }
    case K.WhileStatement: return `${ind}while ${n.expression.kind === K.TrueKeyword ? 'true' : cond(n.expression)} {\n${body(n.statement, ind + '    ')}${ind}}\n`;
    case K.ForStatement: {
      each(n.statement, (x) => { if (ts.isContinueStatement(x)) lost(x, 'continue in a for loop'); });
      return `${ind}{\n${n.initializer.declarations.map((d) => declare(d, ind + '    ')).join('')}${ind}    while ${cond(n.condition)} {\n${body(n.statement, ind + '        ')}`
        + `${ind}        ${ex(n.incrementor.left)} = ${arith(COMPOUND[n.incrementor.operatorToken.kind], ex(n.incrementor.left), n.incrementor.right, isBig(n.incrementor.left), n.incrementor)};\n${ind}    }\n${ind}}\n`;
    }
    case K.SwitchStatement: {
      // every clause leaves the function or ends with a break
      const e = n.expression, big = isBig(e);
      let r = `${ind}{\n${ind}    let on_ = ${ex(e)};\n${ind}    `;
      n.caseBlock.clauses.forEach((c, i) => {
        let s = [...c.statements];
        if (s.length && s[s.length - 1].kind === K.BreakStatement) s.pop();
        else if (!s.length || (i < n.caseBlock.clauses.length - 1 && !ends(s[s.length - 1]) && !(s[s.length - 1].kind === K.Block && ends(s[s.length - 1])))) lost(c, 'clause that falls through');
        const last = i === n.caseBlock.clauses.length - 1;
        if (ts.isDefaultClause(c) !== last) lost(c, 'default clause that is not the last');
        r += (last ? '' : `if ${big ? `on_.eq(${ex(c.expression)})` : `on_ == ${ex(c.expression)}`} `) + `{\n${s.map((x) => st(x, ind + '        ')).join('')}${ind}    }${last ? '\n' : ' else '}`;
      });
      return `${r}${ind}}\n`;
    }
    case K.BreakStatement: return `${ind}break;\n`;
    default: return lost(n, `statement (${K[n.kind]})`);
  }
}
function declare(d, ind) {
  if (ts.isArrayBindingPattern(d.name)) {
    return `${ind}let (${d.name.elements.map((x) => `mut ${ex(x.name)}`).join(', ')}) = ${ex(d.initializer)};\n`;
  }
  const name = d.name.text;
  if (!d.initializer) {
    if (name.startsWith('$')) { cur.late.add(name); return `${ind}let mut ${snake(name)} = None;\n`; }
    return `${ind}let mut ${snake(name)};\n`;
  }
  const i = d.initializer;
  if (ts.isNewExpression(i) && i.expression.text === 'Uint8Array') {
    const a = i.arguments.map((x) => x.getText(sf));
    // all the bytes of a buffer which is only read
    if (a.length === 1 && typeName(strip(typeOf(i.arguments[0]))) === 'ArrayBuffer') return `${ind}let ${snake(name)} = ${ex(i.arguments[0])};\n`;
    const v = a[0].replace(/\.buffer$/, '');
    if (a.length !== 3 || a.join() !== `${v}.buffer,${v}.byteOffset,${v}.byteLength` || !cur.params.has(v)) lost(d, 'view');
    cur.viewAlias[name] = snake(v);
    return '';
  }
  if (ts.isArrayLiteralExpression(i) || ts.isObjectLiteralExpression(i) || (ts.isCallExpression(i) && !isNum(d.name) && !isBig(d.name))) cur.owned.add(name);
  if (ts.isNewExpression(i) && i.expression.text === 'ArrayBuffer') cur.owned.add(name);
  const num = isNum(d.name) && lit(i) !== null;
  return `${ind}let mut ${snake(name)}${num ? ': u64' : ''} = ${ex(i)};\n`;
}
function fn(f) {
  cur = f; inCase = null;
  f.params = new Set(f.node.parameters.map((p) => p.name.text)); f.owned = new Set(); f.late = new Set(); f.viewAlias = {}; f.bufferAlias = {};
  const ps = f.node.parameters.map((p) => {
    const t = rtype(p.type);
    return `${snake(p.name.text)}: ${isView(p.name) ? (f.writes ? '&mut DataView' : '&DataView') : isNum(p.name) || isBig(p.name) || isBool(p.name) ? t : `&${t}`}`;
  });
  const ret = rtype(f.node.type);
  let b = '';
  for (const p of f.node.parameters) if (f.assigned.has(p.name.text)) b += `    let mut ${snake(p.name.text)} = ${snake(p.name.text)};\n`;
  if (f.scratch) b += '    let mut data_view64 = scratch();\n';
  return `pub fn ${f.name}(${ps.join(', ')}) -> ${f.throws ? `Result<${ret}, Thrown>` : ret} {\n${b}${body(f.node.body, '    ')}}\n`;
}
// ---- functions which read messages (deserializeUnsafe) ------------------------------------------------------
// Every local gets a name of its own; a const which only gives an array or a view another name is that array or view;
// `try { ... } catch (e) { if (e instanceof RangeError) { break; } else { throw e; } }` becomes a break out of every
// place inside that throws a RangeError; what a struct has read so far is an Option, undefined being None.
const READER = /(^|\.)deserializeUnsafe$/;
function reader(f) {
  cur = f;
  const full = declaredReturn(f), t = names.types[full] || lost(f.node, 'type returned');
  const lateType = (n) => { const m = t.members && t.members[n.text.slice(1)] || t.members && t.members['_' + n.text.slice(1)]; return m ? m.ty : lost(n, 'field'); };
  const name = new Map(), alias = new Map(), used = new Map(), late = new Set();
  const sym = (n) => n.parent && ts.isShorthandPropertyAssignment(n.parent) ? checker.getShorthandAssignmentValueSymbol(n.parent) : checker.getSymbolAtLocation(n);
  const root = (n) => { let s = sym(n); while (alias.has(s)) s = alias.get(s); return s; };
  const param = sym(f.node.parameters[0].name);
  name.set(param, 'data_view');
  const isParam = (n) => root(n) === param;
  // names
  each(f.node.body, (n) => {
    if (!ts.isVariableDeclaration(n) || !ts.isIdentifier(n.name)) return;
    const t = strip(typeOf(n.name));
    if (n.initializer && ts.isIdentifier(n.initializer) && (n.parent.flags & ts.NodeFlags.Const) && (typeName(t) === 'DataView' || checker.isArrayType(t))) alias.set(sym(n.name), sym(n.initializer));
    else if (n.name.text.startsWith('$') && !n.initializer) { late.add(sym(n.name)); name.set(sym(n.name), snake(n.name.text)); }
  });
  // a number which is a double, not an integer
  const floats = new Set();
  each(f.node.body, (n) => {
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(n.left) && ts.isCallExpression(n.right) && /\.getFloat64$/.test(n.right.expression.getText(sf))) floats.add(sym(n.left));
  });
  // the array a loop fills and the view it reads it from
  let loops = 0;
  each(f.node.body, (w) => {
    if (!ts.isWhileStatement(w)) return;
    const k = loops++;
    if (k === 0) return;
    (function walk(n) {
      if (n !== w && ts.isWhileStatement(n)) return;
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'push') name.set(root(n.expression.expression), `arr_${k}`);
      ts.forEachChild(n, walk);
    })(w);
    let first = true;
    each(w.statement, (n) => {
      if (!first || !ts.isCallExpression(n)) return;
      const v = ts.isIdentifier(n.expression) && /^deserializeVarint$/.test(n.expression.text) ? n.arguments[0] : ts.isPropertyAccessExpression(n.expression) && GETS.test(n.expression.name.text) ? n.expression.expression : null;
      if (v) { first = false; name.set(root(v), `view_${k}`); }
    });
  });
  // what a case carries
  if (t.choice) each(f.node.body, (n) => {
    if (!ts.isReturnStatement(n) || !n.expression || !ts.isObjectLiteralExpression(n.expression)) return;
    const ps = new Map(n.expression.properties.filter((p) => p.name).map((p) => [p.name.text, ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : null]));
    const w = ps.get('$field') && ts.isStringLiteral(ps.get('$field')) && t.cases[ps.get('$field').text] ? ps.get('$field').text : null;
    if (w === null) return;
    const c = t.cases[w].rust, v = ps.get(w), r = ps.get('$fallback');
    if (v && ts.isIdentifier(v) && !name.has(root(v))) name.set(root(v), `got_${c}`);
    if (r && ts.isIdentifier(r) && !name.has(root(r))) name.set(root(r), `rest_${c}`);
  });
  const fresh = (b) => { const c = used.get(b) || 0; used.set(b, c + 1); return c ? `${b}_${c}` : b; };
  used.set('data_view', 1);
  // the offset of the whole and the one kept while a field is read keep their names
  each(f.node.body, (n) => {
    if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name) && !alias.has(sym(n.name)) && !name.has(sym(n.name))) name.set(sym(n.name), fresh(snake(n.name.text.replace(/^\$/, ''))));
    if (ts.isBindingElement(n) && ts.isIdentifier(n.name)) name.set(sym(n.name), fresh(snake(n.name.text.replace(/^\$/, ''))));
  });
  const id = (n) => name.get(root(n)) || lost(n, 'name');
  let inTry = null;
  const thrown = (e) => inTry ? `match ${e} { Ok(x_) => x_, Err(e_) => { if let Thrown::Range = e_ { break; } else { return Err(e_); } } }` : `${e}?`;
  const text = (n) => n.getText(sf).replace(/\s+/g, '');
  const view = (n) => ts.isIdentifier(n) && isView(n) ? (isParam(n) ? id(n) : `&${id(n)}`) : `&${rx(n)}`;
  // d.buffer, d.byteOffset + at: where in the view d
  const place2 = (b, at, n) => {
    const m = ts.isPropertyAccessExpression(b) && b.name.text === 'buffer' && ts.isIdentifier(b.expression) && isView(b.expression) ? b.expression : lost(n, 'buffer');
    if (!ts.isBinaryExpression(at) || at.operatorToken.kind !== K.PlusToken || text(at.left) !== `${m.text}.byteOffset`) lost(n, 'place in a buffer');
    return [m, at.right];
  };
  function rx(n) {
    while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) n = n.expression;
    if (ts.isIdentifier(n)) return id(n);
    switch (n.kind) {
      case K.NumericLiteral: return `${lit(n)}`;
      case K.BigIntLiteral: return `big(${tooBig(lit(n), n)})`;
      case K.TrueKeyword: return 'true';
      case K.FalseKeyword: return 'false';
      case K.NullKeyword: return '()';
      case K.ArrayLiteralExpression: return n.elements.length ? lost(n, 'array') : 'Vec::new()';
      case K.BinaryExpression: {
        const a = n.left, b = n.right;
        if (n.operatorToken.kind === K.PlusToken && isNum(a) && isNum(b)) return `plus_any(${rx(a)}, ${rx(b)})`;
        if (isBig(a) && isBig(b) && n.operatorToken.kind === K.ExclamationEqualsEqualsToken) return `!${rx(a)}.eq(${rx(b)})`;
        if (isBig(a) && isBig(b) && n.operatorToken.kind === K.EqualsEqualsEqualsToken) return `${rx(a)}.eq(${rx(b)})`;
        if (undef(b) && ts.isIdentifier(a) && late.has(root(a)) && n.operatorToken.kind === K.EqualsEqualsEqualsToken) return `${id(a)}.is_none()`;
        if (n.operatorToken.kind === K.BarBarToken) return `${rx(a)} || ${rx(b)}`;
        return lost(n, 'operator');
      }
      case K.PropertyAccessExpression:
        if (n.name.text === 'byteLength' && ts.isIdentifier(n.expression) && isView(n.expression)) return `${id(n.expression)}.byte_length()`;
        return lost(n, 'property');
      case K.NewExpression: {
        if (n.expression.text !== 'DataView' || n.arguments.length !== 3) return lost(n, 'new');
        const [m, at] = place2(n.arguments[0], n.arguments[1], n), size = n.arguments[2];
        if (text(size) === `${m.text}.byteLength-${text(at)}`) return thrown(`${id(m)}.rest_from(${rx(at)})`);
        return thrown(`${id(m)}.part(${rx(at)}, ${rx(size)})`);
      }
      case K.CallExpression: return rcall(n);
      default: return lost(n, `expression (${K[n.kind]})`);
    }
  }
  function rcall(n) {
    const c = n.expression, a = n.arguments;
    const g = fnOf(c);
    if (g && READER.test(g.full)) return thrown(`${g.name}(${view(a[0])})`);
    if (g && (g.full === 'deserializeVarint' || g.full === 'deserializeFieldHeader')) return thrown(`${g.name}(${view(a[0])}, ${rx(a[1])})`);
    if (g && g.full === 'zigzagDecode') return `${g.name}(${rx(a[0])})`;
    if (ts.isIdentifier(c) && c.text === 'Number' && !g) return `number(${rx(a[0])})`;
    if (ts.isPropertyAccessExpression(c)) {
      const m = c.name.text, o = c.expression;
      if (ts.isIdentifier(o) && isView(o) && (m === 'getBigUint64' || m === 'getFloat64') && a.length === 2 && a[1].kind === K.TrueKeyword) return thrown(`${id(o)}.${m === 'getFloat64' ? 'get_float64' : 'get_big_uint64'}(${rx(a[0])})`);
      if (m === 'fill' && a.length === 1 && a[0].kind === K.NullKeyword && ts.isCallExpression(o) && ts.isIdentifier(o.expression) && o.expression.text === 'Array' && o.arguments.length === 1) {
        const q = o.arguments[0];
        if (!ts.isCallExpression(q) || text(q.expression) !== 'Number' || !isBig(q.arguments[0])) lost(n, 'array of null');
        return thrown(`array_of_null(${rx(q.arguments[0])})`);
      }
      if (ts.isIdentifier(o) && o.text === 'textDecoder' && m === 'decode' && a.length === 1 && ts.isNewExpression(a[0]) && text(a[0].expression) === 'Uint8Array' && a[0].arguments.length === 3) {
        const [v, at] = place2(a[0].arguments[0], a[0].arguments[1], n);
        if (text(a[0].arguments[2]) !== `${v.text}.byteLength-${text(at)}`) lost(n, 'length of a text');
        return `${id(v)}.text(${rx(at)})`;
      }
      if (m === 'slice' && a.length === 2) {
        const [v, at] = place2(o, a[0], n);
        if (text(a[1]) !== `${v.text}.byteOffset+${v.text}.byteLength`) lost(n, 'end of a slice');
        return `${id(v)}.bytes(${rx(at)})`;
      }
      if (m === 'push' && a.length === 1) return `${id(o)}.push(${rx(a[0])})`;
    }
    return lost(n, 'call');
  }
  const assign = (l, e, ind) => late.has(root(l)) ? `${ind}let got_ = ${e};\n${ind}${id(l)} = Some(got_);\n` : `${ind}${id(l)} = ${e};\n`;
  const rbody = (n, ind) => (ts.isBlock(n) ? [...n.statements] : [n]).map((s) => rs(s, ind)).join('');
  const rethrows = (c) => { // if (e instanceof RangeError) { break; } else { throw e; }
    const e = c.variableDeclaration && c.variableDeclaration.name.text;
    return c.block.statements.length === 1 && new RegExp(`^if\\(${e}instanceofRangeError\\)\\{break;\\}else\\{throw${e};\\}$`).test(text(c.block.statements[0]));
  };
  function rs(n, ind) {
    switch (n.kind) {
      case K.Block: return `${ind}{\n${rbody(n, ind + '    ')}${ind}}\n`;
      case K.EmptyStatement: return '';
      case K.VariableStatement: return n.declarationList.declarations.map((d) => {
        if (ts.isArrayBindingPattern(d.name)) return `${ind}let (${d.name.elements.map((x) => `mut ${id(x.name)}`).join(', ')}) = ${rx(d.initializer)};\n`;
        if (alias.has(sym(d.name))) return '';
        if (!d.initializer) return `${ind}let mut ${id(d.name)}${late.has(sym(d.name)) ? `: Option<${lateType(d.name)}> = None` : ''};\n`;
        const num = isNum(d.name) && lit(d.initializer) !== null;
        return `${ind}let mut ${id(d.name)}${num ? ': u64' : ''} = ${rx(d.initializer)};\n`;
      }).join('');
      case K.ExpressionStatement: {
        const e = n.expression;
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsToken) {
          if (ts.isArrayLiteralExpression(e.left)) {
            const tmp = e.left.elements.map((x, i) => `t${i}_`);
            return `${ind}let (${tmp.join(', ')}) = ${rx(e.right)};\n${e.left.elements.map((x, i) => assign(x, tmp[i], ind)).join('')}`;
          }
          if (ts.isIdentifier(e.left) && floats.has(sym(e.left)) && lit(e.right) !== null) return lit(e.right) === 0n ? `${ind}${id(e.left)} = double_zero();\n` : lost(n, 'double');
          return assign(e.left, rx(e.right), ind);
        }
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.PlusEqualsToken && isNum(e.left)) return `${ind}${id(e.left)} = plus_any(${id(e.left)}, ${rx(e.right)});\n`;
        if (ts.isCallExpression(e)) return `${ind}${rx(e)};\n`;
        return lost(n, 'statement');
      }
      case K.IfStatement: return `${ind}if ${rx(n.expression)} {\n${rbody(n.thenStatement, ind + '    ')}${ind}}` + (n.elseStatement ? ` else {\n${rbody(n.elseStatement, ind + '    ')}${ind}}` : '') + '\n';
      case K.ThrowStatement: return ts.isNewExpression(n.expression) && text(n.expression.expression) === 'Error' ? `${ind}return Err(Thrown::Other);\n` : lost(n, 'throw');
      case K.WhileStatement: { if (n.expression.kind !== K.TrueKeyword) lost(n, 'condition'); const was = inTry; inTry = null; const r = `${ind}loop {\n${rbody(n.statement, ind + '    ')}${ind}}\n`; inTry = was; return r; }
      case K.TryStatement: {
        if (n.finallyBlock || !n.catchClause || !rethrows(n.catchClause) || inTry) lost(n, 'try');
        let p = n.parent; while (ts.isBlock(p)) p = p.parent;
        if (!ts.isWhileStatement(p)) lost(n, 'try outside of a loop'); // break means the loop
        each(n.tryBlock, (x) => { if (ts.isSwitchStatement(x) || ts.isWhileStatement(x) || ts.isThrowStatement(x)) lost(x, 'within try'); });
        inTry = n;
        const r = rbody(n.tryBlock, ind);
        inTry = null;
        // a block of its own, unless nothing is declared in it
        return n.tryBlock.statements.some((s) => ts.isVariableStatement(s)) ? `${ind}{\n${r}${ind}}\n` : r;
      }
      case K.SwitchStatement: {
        const e = n.expression, big = isBig(e);
        let r = `${ind}{\n${ind}    let on_ = ${rx(e)};\n${ind}    `;
        n.caseBlock.clauses.forEach((c, i) => {
          let s = [...c.statements];
          if (s.length === 1 && ts.isBlock(s[0])) s = [...s[0].statements];
          if (s.length && s[s.length - 1].kind === K.BreakStatement) s.pop();
          else if (!s.length || !ends(s[s.length - 1])) lost(c, 'clause that falls through');
          for (const x of s) (function walk(q) { if (ts.isBreakStatement(q)) lost(q, 'break within a clause'); if (!ts.isWhileStatement(q) && !ts.isSwitchStatement(q)) ts.forEachChild(q, walk); })(x);
          const last = i === n.caseBlock.clauses.length - 1;
          if (ts.isDefaultClause(c) !== last) lost(c, 'default clause that is not the last');
          r += (last ? '' : `if ${big ? `on_.eq(${rx(c.expression)})` : `on_ == ${rx(c.expression)}`} `) + `{\n${s.map((x) => rs(x, ind + '        ')).join('')}${ind}    }${last ? '\n' : ' else '}`;
        });
        return `${r}${ind}}\n`;
      }
      case K.BreakStatement: return `${ind}break;\n`;
      case K.ReturnStatement: {
        if (!ts.isObjectLiteralExpression(n.expression)) return `${ind}return Ok(${rx(n.expression)});\n`;
        const ps = new Map(n.expression.properties.map((p) => [p.name.text, ts.isPropertyAssignment(p) ? p.initializer : ts.isShorthandPropertyAssignment(p) ? p.name : lost(p, 'property')]));
        if (t.choice) {
          const w = ps.get('$field') && ts.isStringLiteral(ps.get('$field')) && ps.get('$field').text, c = t.cases[w] || lost(n, 'case');
          const own = [...ps.keys()].filter((p) => p !== '$field' && p !== '$fallback');
          if (own.join() !== (c.unit && !own.length ? '' : w) || ps.has('$fallback') !== c.fallback) lost(n, 'members of a case');
          const vs = [...(c.unit ? [] : [rx(ps.get(w))]), ...(c.fallback ? [`Box::new(${rx(ps.get('$fallback'))})`] : [])];
          return `${ind}return Ok(${t.rust}::${c.rust}${vs.length ? `(${vs.join(', ')})` : ''});\n`;
        }
        if ([...ps.keys()].sort().join() !== Object.keys(t.members).sort().join()) lost(n, 'members');
        return `${ind}return Ok(${t.rust} { ${[...ps].map(([k, v]) => `${t.members[k].rust}: ${id(v)}${t.members[k].required ? '.unwrap()' : ''}`).join(', ')} });\n`;
      }
      default: return lost(n, `statement (${K[n.kind]})`);
    }
  }
  return `pub fn ${f.name}(data_view: &DataView) -> Result<${t.rust}, Thrown> {\n${rbody(f.node.body, '    ')}}\n`;
}
function declaredReturn(f) {
  const t = f.node.type && ts.isTypeReferenceNode(f.node.type) && checker.getSymbolAtLocation(f.node.type.typeName), a = t && aliases.find((x) => t.declarations.includes(x.node));
  return a ? a.full : '';
}
const bad = [];
let out = '';
for (const a of aliases) if (/Atlas$/.test(a.full)) try { out += atlasType(a) + '\n'; } catch (e) { if (!(e instanceof Lost)) throw e; bad.push(`${a.full}: ${e.message}`); }
for (const f of fns) try { out += READER.test(f.full) && f.full !== 'deserializeUnsafe' ? reader(f) : fn(f); } catch (e) { if (!(e instanceof Lost)) throw e; bad.push(`${f.full}: ${e.message}`); }
process.stdout.write(out);
process.stderr.write(bad.join('\n') + '\n');
