// Runs AssemblyScript programs (the part of the language the generated programs are written in):
// every value carries its AssemblyScript type, implicit conversions that the AssemblyScript
// compiler refuses are refused, floats are kept as bits. Line protocol: JSON in, JSON out.
'use strict';
const ts = require(process.argv[2] || '/opt/veriftools/node/node_modules/typescript');
const K = ts.SyntaxKind;
class CompileError extends Error {}
class TrapError extends Error {}

// ------------------------------------------------------------------ values
const INT = { i8: 8, u8: 8, i16: 16, u16: 16, i32: 32, u32: 32, i64: 64, u64: 64, usize: 32, isize: 32, bool: 1 };
const SIGNED = { i8: 1, i16: 1, i32: 1, i64: 1, isize: 1 };
const FLOAT = { f32: 32, f64: 64 };
const isInt = (t) => t in INT, isFloat = (t) => t in FLOAT, isNum = (t) => isInt(t) || isFloat(t);
const buf = new DataView(new ArrayBuffer(8));
function V(t, v) { this.t = t; this.v = v; }
function wrap(t, n) { // n: BigInt
  const w = INT[t];
  return t === 'bool' ? (n !== 0n ? 1n : 0n) : SIGNED[t] ? BigInt.asIntN(w, n) : BigInt.asUintN(w, n);
}
function mkInt(t, n) { return new V(t, wrap(t, BigInt(n))); }
function bitsOf(t, x) { // float number -> bits
  if (t === 'f32') { buf.setFloat32(0, x); return BigInt(buf.getUint32(0)); }
  buf.setFloat64(0, x); return buf.getBigUint64(0);
}
function numOf(t, b) {
  if (t === 'f32') { buf.setUint32(0, Number(b)); return buf.getFloat32(0); }
  buf.setBigUint64(0, b); return buf.getFloat64(0);
}
// a value from raw bits (as WebAssembly would pass it) and back
function fromRaw(t, b) { return isFloat(t) ? new V(t, b) : mkInt(t, b); }
function toRaw(v) {
  if (isFloat(v.t)) return v.v;
  return BigInt.asUintN(INT[v.t] === 64 ? 64 : 32, v.v);
}
const show = (v) => (v instanceof V ? `${v.t} ${v.v}` : typeof v);
// literals take the type of their context
function Lit(v, float) { this.lit = v; this.float = float; }
function settle(x) { // the type a literal has without context
  if (!(x instanceof Lit)) return x;
  if (x.float) return new V('f64', bitsOf('f64', Number(x.lit)));
  const n = BigInt(x.lit);
  return n >= -2147483648n && n <= 2147483647n ? mkInt('i32', n) : n <= 4294967295n && n > 0n ? mkInt('u32', n) : mkInt('i64', n);
}
function convert(t, x) { // explicit
  x = settle(x);
  if (!(x instanceof V)) throw new CompileError(`conversion of ${show(x)} to ${t}`);
  if (t === 'void') return undefined;
  if (isInt(t)) {
    if (isInt(x.t)) return mkInt(t, x.v);
    const n = numOf(x.t, x.v);
    if (Number.isNaN(n) || !Number.isFinite(n)) throw new TrapError('invalid conversion to integer');
    return mkInt(t, BigInt(Math.trunc(n)));
  }
  if (isFloat(t)) {
    if (x.t === t) return x;
    const n = isInt(x.t) ? Number(x.v) : numOf(x.t, x.v);
    return new V(t, bitsOf(t, n));
  }
  throw new CompileError(`conversion to ${t}`);
}
// implicit: what the compiler lets pass
function coerce(t, x) {
  if (t === undefined || t === null) return settle(x);
  if (typeof t === 'object') return x; // a class
  if (t === 'void') { if (x !== undefined) throw new CompileError(`a value (${show(x)}) where void is declared`); return undefined; }
  if (!isNum(t)) return x;
  if (x instanceof Lit) {
    if (x.float && isInt(t)) throw new CompileError(`literal ${x.lit} for ${t}`);
    if (isFloat(t)) return new V(t, bitsOf(t, Number(x.lit)));
    const n = BigInt(x.lit), m = wrap(t, n);
    if (m !== n && !(n < 0n && -n < 1n << BigInt(INT[t]))) throw new CompileError(`literal ${n} for ${t}`);
    return new V(t, m);
  }
  if (!(x instanceof V)) throw new CompileError(`${x === undefined ? 'no value' : typeof x} where ${t} is declared`);
  if (x.t === t) return x;
  const bad = () => { throw new CompileError(`implicit conversion from ${x.t} to ${t}`); };
  if (isInt(t) && isInt(x.t)) {
    if (t === 'bool' || INT[x.t] > INT[t]) bad();
    return mkInt(t, x.v);
  }
  if (isFloat(t) && isFloat(x.t)) { if (FLOAT[x.t] > FLOAT[t]) bad(); return convert(t, x); }
  if (isFloat(t) && isInt(x.t)) { if (INT[x.t] >= (t === 'f64' ? 64 : 32)) bad(); return convert(t, x); }
  return bad();
}
function common(a, b) {
  if (a === b) return a;
  if (isFloat(a) || isFloat(b)) { const f = isFloat(a) && isFloat(b) ? 'f64' : isFloat(a) ? a : b; return f; }
  const w = Math.max(INT[a], INT[b], 32);
  const t = INT[a] > INT[b] ? a : INT[b] > INT[a] ? b : SIGNED[a] ? b : a;
  return t === 'bool' || INT[t] < w ? 'i32' : t;
}
function truthy(x) {
  if (x === true || x === false) return x;
  x = settle(x);
  if (x instanceof V) return isFloat(x.t) ? numOf(x.t, x.v) !== 0 && !Number.isNaN(numOf(x.t, x.v)) : x.v !== 0n;
  return !!x;
}
const B = (c) => new V('bool', c ? 1n : 0n);
function binary(op, a, b) {
  if (a instanceof Lit && b instanceof Lit) { a = settle(a); b = settle(b); }
  if (a instanceof Lit) a = coerce(b.t, a);
  if (b instanceof Lit) b = coerce(op === '<<' || op === '>>' || op === '>>>' ? a.t : a.t, b);
  if (!(a instanceof V) || !(b instanceof V)) {
    if (op === '==' || op === '===') return B(a === b);
    if (op === '!=' || op === '!==') return B(a !== b);
    throw new CompileError(`${op} on ${show(a)} and ${show(b)}`);
  }
  const t = common(a.t, b.t);
  a = coerce(t, a); b = coerce(t, b);
  if (isFloat(t)) {
    const x = numOf(t, a.v), y = numOf(t, b.v), F = (n) => new V(t, bitsOf(t, n));
    switch (op) {
      case '+': return F(x + y); case '-': return F(x - y); case '*': return F(x * y); case '/': return F(x / y);
      case '<': return B(x < y); case '>': return B(x > y); case '<=': return B(x <= y); case '>=': return B(x >= y);
      case '==': case '===': return B(x === y); case '!=': case '!==': return B(x !== y);
    }
    throw new CompileError(`${op} on ${t}`);
  }
  const x = a.v, y = b.v, N = (n) => new V(t, wrap(t, n)), w = BigInt(INT[t]);
  switch (op) {
    case '+': return N(x + y); case '-': return N(x - y); case '*': return N(x * y);
    case '/': if (y === 0n) throw new TrapError('division by zero'); return N(x / y);
    case '%': if (y === 0n) throw new TrapError('division by zero'); return N(x % y);
    case '&': return N(x & y); case '|': return N(x | y); case '^': return N(x ^ y);
    case '<<': return N(x << (y & (w - 1n))); case '>>': return N(x >> (y & (w - 1n)));
    case '>>>': return N(BigInt.asUintN(INT[t], x) >> (y & (w - 1n)));
    case '<': return B(x < y); case '>': return B(x > y); case '<=': return B(x <= y); case '>=': return B(x >= y);
    case '==': case '===': return B(x === y); case '!=': case '!==': return B(x !== y);
  }
  throw new CompileError(`operator ${op}`);
}
function unary(op, a) {
  if (op === '!') return B(!truthy(a));
  if (a instanceof Lit) { if (op === '-') return new Lit(a.float ? -a.lit : -BigInt(a.lit), a.float); if (op === '+') return a; a = settle(a); }
  if (!(a instanceof V)) throw new CompileError(`${op} on ${show(a)}`);
  if (op === '-') return isFloat(a.t) ? new V(a.t, bitsOf(a.t, -numOf(a.t, a.v))) : mkInt(a.t, -a.v);
  if (op === '~') return mkInt(a.t, ~a.v);
  if (op === '+') return a;
  throw new CompileError(`operator ${op}`);
}

// ------------------------------------------------------------------ memory and builtins
const PAGE = 65536;
class Memory {
  constructor() { this.b = new Uint8Array(0); this.pages = 0; this.cap = 0; }
  grow(n) {
    const had = this.pages;
    if (n < 0 || had + n > 4096) return -1;
    this.pages += n;
    if (this.pages > this.cap) {
      this.cap = Math.max(this.pages, this.cap * 2, 4);
      const nb = new Uint8Array(this.cap * PAGE); nb.set(this.b); this.b = nb;
    }
    return had;
  }
  at(p, n) { if (p < 0 || p + n > this.pages * PAGE) throw new TrapError(`memory access at ${p} out of bounds`); return p; }
  get(p, n) { this.at(p, n); let v = 0n; for (let i = n - 1; i >= 0; i--) v = (v << 8n) | BigInt(this.b[p + i]); return v; }
  set(p, n, v) { this.at(p, n); for (let i = 0; i < n; i++) { this.b[p + i] = Number(v & 255n); v >>= 8n; } }
}
const sizeOf = (t) => { if (isInt(t)) return Math.max(INT[t], 8) / 8; if (isFloat(t)) return FLOAT[t] / 8; return 4; };
function pick2(t, a, b, op) { a = coerce(t, a); b = coerce(t, b); return truthy(binary(op, a, b)) ? a : b; }
function rotate(t, x, n) { const w = BigInt(INT[t]), k = ((n % w) + w) % w, u = BigInt.asUintN(INT[t], x); return new V(t, wrap(t, (u << k) | (u >> (w - k)))); }
const LIMITS = (t, f) => {
  if (isInt(t)) { const w = BigInt(INT[t]); return f === 'MAX_VALUE' ? mkInt(t, SIGNED[t] ? (1n << (w - 1n)) - 1n : (1n << w) - 1n) : f === 'MIN_VALUE' ? mkInt(t, SIGNED[t] ? -(1n << (w - 1n)) : 0n) : null; }
  return null;
};
function makeRuntime(externals) {
  const mem = new Memory();
  const ptr = (p) => Number(toRaw(coerce('usize', p)));
  const R = {
    V, Lit, B, LIMITS, coerce, convert, binary, unary, truthy, settle, mem, CompileError, TrapError,
    lit: (s, f) => new Lit(f ? Number(s) : BigInt(s), f),
    end: (t, name) => { if (t !== 'void' && t !== null) throw new CompileError(`${name} ends without returning a value`); },
    zero: (t) => (isNum(t) ? (isFloat(t) ? new V(t, 0n) : new V(t, 0n)) : null),
    external: externals,
    builtin: {
      unreachable: () => { throw new TrapError('unreachable'); },
      abort: () => { throw new TrapError('abort'); },
      assert: (c) => { if (!truthy(c)) throw new TrapError('assertion'); return c; },
      trace: () => undefined,
      unchecked: (x) => x,
      isNaN: (x) => { x = settle(x); return B(isFloat(x.t) && Number.isNaN(numOf(x.t, x.v))); },
    },
    generic: {
      sizeof: (t) => () => mkInt('usize', sizeOf(t)),
      isInteger: (t) => () => B(isInt(t)),
      isFloat: (t) => () => B(isFloat(t)),
      isSigned: (t) => () => B(!!SIGNED[t]),
      isReference: (t) => () => B(!isNum(t)),
      load: (t) => (p, off) => { const n = sizeOf(t); const raw = mem.get(ptr(p) + (off === undefined ? 0 : Number(settle(off).v)), n); return isFloat(t) ? new V(t, raw) : mkInt(t, raw); },
      store: (t) => (p, v, off) => { const x = coerce(t, v); mem.set(ptr(p) + (off === undefined ? 0 : Number(settle(off).v)), sizeOf(t), isFloat(t) ? x.v : BigInt.asUintN(64, x.v)); },
      reinterpret: (t) => (v) => { v = settle(v); if (sizeOf(t) !== sizeOf(v.t)) throw new CompileError('reinterpret'); return fromRaw(t, toRaw(v)); },
      changetype: () => (v) => v,
      alignof: (t) => () => mkInt('usize', Math.log2(sizeOf(t))),
      isVoid: (t) => () => B(t === 'void'),
      isBoolean: (t) => () => B(t === 'bool'),
      min: (t) => (a, b) => pick2(t, a, b, '<'),
      max: (t) => (a, b) => pick2(t, a, b, '>'),
      abs: (t) => (a) => { a = coerce(t, a); return isInt(t) ? mkInt(t, a.v < 0n ? -a.v : a.v) : new V(t, bitsOf(t, Math.abs(numOf(t, a.v)))); },
      clz: (t) => (a) => { a = coerce(t, a); const w = INT[t], x = BigInt.asUintN(w, a.v); return mkInt(t, x === 0n ? w : w - x.toString(2).length); },
      ctz: (t) => (a) => { a = coerce(t, a); const w = INT[t], x = BigInt.asUintN(w, a.v); let n = 0; while (n < w && !((x >> BigInt(n)) & 1n)) n++; return mkInt(t, n); },
      popcnt: (t) => (a) => { a = coerce(t, a); return mkInt(t, [...BigInt.asUintN(INT[t], a.v).toString(2)].filter((c) => c === '1').length); },
      rotl: (t) => (a, b) => rotate(t, coerce(t, a).v, coerce(t, b).v),
      rotr: (t) => (a, b) => rotate(t, coerce(t, a).v, -coerce(t, b).v),
      add: (t) => (a, b) => binary('+', coerce(t, a), coerce(t, b)),
      sub: (t) => (a, b) => binary('-', coerce(t, a), coerce(t, b)),
      mul: (t) => (a, b) => binary('*', coerce(t, a), coerce(t, b)),
      eq: (t) => (a, b) => convert('i32', binary('==', coerce(t, a), coerce(t, b))),
      ne: (t) => (a, b) => convert('i32', binary('!=', coerce(t, a), coerce(t, b))),
      select: (t) => (a, b, c) => (truthy(c) ? coerce(t, a) : coerce(t, b)),
    },
    space: {
      memory: {
        grow: (n) => mkInt('i32', mem.grow(Number(coerce('i32', n).v))),
        size: () => mkInt('i32', mem.pages),
        fill: (d, v, n) => { const D = ptr(d), N = ptr(n); mem.at(D, N); mem.b.fill(Number(settle(v).v) & 255, D, D + N); },
        copy: (d, s, n) => { const D = ptr(d), S = ptr(s), N = ptr(n); mem.at(D, N); mem.at(S, N); mem.b.copyWithin(D, S, S + N); },
      },
    },
  };
  return R;
}

// ------------------------------------------------------------------ translation
function compile(source) {
  const sf = ts.createSourceFile('m.ts', source, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  const wrong = (sf.parseDiagnostics || []).filter((d) => d.code !== 1206);
  if (wrong.length) {
    const d = wrong[0];
    const at = sf.getLineAndCharacterOfPosition(d.start || 0);
    throw new CompileError(`line ${at.line + 1}: ${ts.flattenDiagnosticMessageText(d.messageText, ' ')}`);
  }
  const exports_ = {}, generics = new Set(), classes = new Map(), enums = new Set(), names = new Map(), globals = [];
  const bad = (n, what) => {
    const at = sf.getLineAndCharacterOfPosition(n.getStart(sf));
    throw new CompileError(`line ${at.line + 1}: ${what}`);
  };
  const mods = (n) => (n.modifiers || []);
  const has = (n, k) => mods(n).some((m) => m.kind === k);
  for (const s of sf.statements) {
    const add = (name) => { if (names.has(name.text)) bad(name, `duplicate identifier '${name.text}'`); names.set(name.text, s); };
    if (ts.isFunctionDeclaration(s)) { add(s.name); if (s.typeParameters) generics.add(s.name.text); }
    else if (ts.isClassDeclaration(s)) {
      add(s.name);
      const fields = new Map();
      for (const m of s.members) {
        if (ts.isPropertyDeclaration(m)) fields.set(m.name.text, m.type);
        if (ts.isConstructorDeclaration(m)) for (const p of m.parameters) if (mods(p).length) fields.set(p.name.text, p.type);
      }
      const ext = (s.heritageClauses || []).flatMap((h) => (h.token === K.ExtendsKeyword ? h.types : []));
      classes.set(s.name.text, { fields, parent: ext.length ? ext[0].expression.getText(sf) : null });
    } else if (ts.isEnumDeclaration(s)) { add(s.name); enums.add(s.name.text); }
    else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) add(d.name);
  }
  const fieldType = (cls, f) => { for (let c = cls; c && classes.has(c); c = classes.get(c).parent) if (classes.get(c).fields.has(f)) return classes.get(c).fields.get(f); };
  let typeVars = new Set(), cls = null, ret = 'null', fname = '', loopScope = [];
  // a type as an expression yielding a descriptor
  function T(t) {
    if (!t) return 'null';
    if (t.kind === K.VoidKeyword) return "'void'";
    if (t.kind === K.BooleanKeyword) return "'bool'";
    if (t.kind === K.NumberKeyword) return "'f64'";
    if (t.kind === K.StringKeyword) return '({})';
    if (ts.isTypeReferenceNode(t)) {
      const n = t.typeName.getText(sf);
      if (typeVars.has(n)) return '$T_' + n;
      if (isNum(n)) return `'${n}'`;
      if (enums.has(n)) return "'i32'";
      if (aliases.has(n)) return T(aliases.get(n));
      return '({})';
    }
    return '({})';
  }
  const aliases = new Map();
  for (const s of sf.statements) if (ts.isTypeAliasDeclaration(s)) aliases.set(s.name.text, s.type);
  const A = (args) => args.map((a) => E(a)).join(', ');
  const builtinFns = new Set(['unreachable', 'abort', 'assert', 'trace', 'unchecked', 'isNaN']);
  const builtinGen = new Set(['sizeof', 'isInteger', 'isFloat', 'isSigned', 'isReference', 'load', 'store', 'reinterpret', 'changetype', 'select', 'alignof', 'isVoid', 'isBoolean', 'min', 'max', 'abs', 'clz', 'ctz', 'popcnt', 'rotl', 'rotr', 'add', 'sub', 'mul', 'eq', 'ne']);
  const loose = new Set(['min', 'max', 'abs', 'clz', 'ctz', 'popcnt', 'select']);
  const locals = [];
  const isLocal = (n) => locals.some((l) => l.has(n));
  function name(n) { return '$_' + n; }
  function E(n) {
    switch (n.kind) {
      case K.ParenthesizedExpression: return `(${E(n.expression)})`;
      case K.NumericLiteral: { const f = /[.]|e/i.test(n.getText(sf)) && !/^0x/i.test(n.getText(sf)); return `$R.lit(${JSON.stringify(n.getText(sf).replace(/_/g, ''))}, ${f})`; }
      case K.TrueKeyword: return '$R.B(true)';
      case K.FalseKeyword: return '$R.B(false)';
      case K.NullKeyword: return 'null';
      case K.ThisKeyword: return 'this';
      case K.SuperKeyword: return 'super';
      case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return JSON.stringify(n.text);
      case K.Identifier: {
        if (!isLocal(n.text) && !names.has(n.text)) bad(n, `cannot find name '${n.text}'`);
        return name(n.text);
      }
      case K.AsExpression: case K.TypeAssertionExpression: { const t = T(n.type); return t === '({})' ? E(n.expression) : `$R.convert(${t}, ${E(n.expression)})`; }
      case K.NonNullExpression: return E(n.expression);
      case K.PrefixUnaryExpression: {
        const op = ts.tokenToString(n.operator);
        if (op === '++' || op === '--') return assign(n.operand, `$R.binary('${op[0]}', ${E(n.operand)}, $R.lit('1', false))`);
        return `$R.unary('${op}', ${E(n.operand)})`;
      }
      case K.PostfixUnaryExpression: {
        const op = ts.tokenToString(n.operator)[0];
        return `$R.after(${E(n.operand)}, ($o) => ${assign(n.operand, `$R.binary('${op}', $o, $R.lit('1', false))`)})`;
      }
      case K.ConditionalExpression: return `($R.truthy(${E(n.condition)}) ? ${E(n.whenTrue)} : ${E(n.whenFalse)})`;
      case K.BinaryExpression: {
        const op = n.operatorToken.getText(sf);
        if (op === '=') return assign(n.left, E(n.right));
        if (op === '&&') return `$R.and(${E(n.left)}, () => ${E(n.right)})`;
        if (op === '||') return `$R.or(${E(n.left)}, () => ${E(n.right)})`;
        if (op === ',') return `(${E(n.left)}, ${E(n.right)})`;
        if (/^(\+|-|\*|\/|%|&|\||\^|<<|>>|>>>)=$/.test(op)) return assign(n.left, `$R.binary('${op.slice(0, -1)}', ${E(n.left)}, ${E(n.right)})`);
        return `$R.binary('${op}', ${E(n.left)}, ${E(n.right)})`;
      }
      case K.NewExpression: return `new ${E(n.expression)}(${A(n.arguments || [])})`;
      case K.PropertyAccessExpression: if (ts.isIdentifier(n.expression) && isInt(n.expression.text) && !isLocal(n.expression.text) && /^M(AX|IN)_VALUE$/.test(n.name.text)) return `$R.LIMITS('${n.expression.text}', '${n.name.text}')`; return `$R.field(${E(n.expression)}, ${JSON.stringify(n.name.text)})`;
      case K.CallExpression: return call(n);
      case K.ArrowFunction: case K.FunctionExpression: {
        if (n.typeParameters) return bad(n, 'unsupported generic function expression');
        // AssemblyScript has no closures: only what is declared outside of functions is seen inside
        const kept = [...locals]; const was = cls; locals.length = 0;
        const block = ts.isBlock(n.body) ? n : { ...n, kind: n.kind, parameters: n.parameters, type: n.type, body: { statements: [] }, only: n.body };
        const r = `(function ${fn(block, 'a function expression')})`;
        locals.push(...kept); cls = was;
        return r;
      }
      case K.TemplateExpression: case K.RegularExpressionLiteral: return '""';
      default: return bad(n, `unsupported expression ${K[n.kind]}`);
    }
  }
  function call(n) {
    const c = n.expression, targs = n.typeArguments ? `(${n.typeArguments.map(T).join(', ')})` : '';
    if (c.kind === K.SuperKeyword) return `super(${A(n.arguments)})`;
    if (ts.isIdentifier(c)) {
      const f = c.text;
      if (!isLocal(f) && !names.has(f)) {
        if (isNum(f)) return `$R.convert('${f}', ${A(n.arguments)})`;
        if (builtinFns.has(f)) return `$R.builtin.${f}(${A(n.arguments)})`;
        if (builtinGen.has(f)) {
          if (!targs) {
            // the type of the first argument, or of the second beside a literal
            if (loose.has(f)) return `(($a) => $R.generic.${f}($R.settle($a[0] instanceof $R.Lit && $a[1] instanceof $R.V ? $a[1] : $a[0]).t)(...$a))([${A(n.arguments)}])`;
            return bad(n, `${f} without a type`);
          }
          return `$R.generic.${f}${targs}(${A(n.arguments)})`;
        }
      }
      const s = names.get(f);
      if (!isLocal(f) && s && ts.isFunctionDeclaration(s)) {
        const need = s.parameters.filter((p) => !p.initializer && !p.questionToken).length;
        if (n.arguments.length < need || n.arguments.length > s.parameters.length) bad(n, `${f} takes ${need} arguments, not ${n.arguments.length}`);
        const tps = s.typeParameters ? s.typeParameters.length : 0;
        if (targs && n.typeArguments.length !== tps) bad(n, `${f} takes ${tps} types, not ${n.typeArguments.length}`);
        if (!targs && tps) {
          // inferred from the arguments
          const order = s.typeParameters.map((p) => s.parameters.findIndex((q) => q.type && q.type.getText(sf) === p.name.text));
          if (order.some((i) => i < 0)) bad(n, `cannot infer the types of ${f}`);
          return `$R.infer(${name(f)}, [${order}], [${A(n.arguments)}])`;
        }
      }
      return `${E(c)}${targs}(${A(n.arguments)})`;
    }
    if (ts.isPropertyAccessExpression(c)) {
      if (c.expression.kind === K.SuperKeyword) return `super.${name(c.name.text)}${targs}(${A(n.arguments)})`;
      if (ts.isIdentifier(c.expression) && !isLocal(c.expression.text) && !names.has(c.expression.text)) {
        const o = c.expression.text, m = c.name.text;
        if (o === 'memory') return `$R.space.memory.${m}(${A(n.arguments)})`;
        const ls = /^(load|store)(8|16|32)?(_[su])?$/.exec(m);
        if (isNum(o) && ls && ls[2]) {
          const small = `${ls[3] === '_s' || (ls[1] === 'store' && SIGNED[o]) ? 'i' : 'u'}${ls[2]}`;
          if (ls[1] === 'load') return `$R.convert('${o}', $R.generic.load('${small}')(${A(n.arguments)}))`;
          const [p, v, ...more] = n.arguments;
          return `$R.generic.store('${small}')(${E(p)}, $R.convert('${small}', $R.coerce('${o}', ${E(v)}))${more.map((x) => ', ' + E(x)).join('')})`;
        }
        if (isNum(o) && m === 'const') return `$R.coerce('${o}', ${A(n.arguments)})`;
        if (isNum(o) && loose.has(m) || isNum(o) && ['add', 'sub', 'mul', 'eq', 'ne', 'rotl', 'rotr'].includes(m)) return `$R.generic.${m}('${o}')(${A(n.arguments)})`;
        if (isNum(o) && ls && !ls[2]) return `$R.generic.${ls[1]}('${o}')(${A(n.arguments)})`;
        if (isNum(o) && /^reinterpret_/.test(m)) return `$R.generic.reinterpret('${o}')(${A(n.arguments)})`;
      }
      return `$R.invoke(${E(c.expression)}, ${JSON.stringify(c.name.text)}, ${n.typeArguments ? `[${n.typeArguments.map(T).join(', ')}]` : 'null'}, [${A(n.arguments)}])`;
    }
    return `${E(c)}${targs}(${A(n.arguments)})`;
  }
  const types = [new Map()]; // declared types of variables in scope, as expressions
  const typeOf = (v) => { for (let i = types.length - 1; i >= 0; i--) if (types[i].has(v)) return types[i].get(v); return null; };
  const consts = [new Set()];
  function assign(target, value) {
    if (ts.isParenthesizedExpression(target)) return assign(target.expression, value);
    if (ts.isIdentifier(target)) {
      const t = typeOf(target.text);
      for (let i = types.length - 1; i >= 0; i--) if (types[i].has(target.text)) { if (consts[i].has(target.text)) bad(target, `'${target.text}' is constant`); break; }
      return `(${E(target)} = $R.keep(${t || 'null'}, ${E(target)}, ${value}))`;
    }
    if (ts.isPropertyAccessExpression(target)) {
      if (target.expression.kind === K.ThisKeyword && cls) {
        const ft = fieldType(cls, target.name.text);
        if (!ft) bad(target, `no field '${target.name.text}'`);
        return `(this.${name(target.name.text)} = $R.coerce(${T(ft)}, ${value}))`;
      }
      return `$R.put(${E(target.expression)}, ${JSON.stringify(target.name.text)}, ${value})`;
    }
    return bad(target, 'unsupported assignment');
  }
  function vars(list) {
    const kw = list.flags & ts.NodeFlags.Const ? 'const' : 'let';
    return list.declarations.map((d) => {
      if (!ts.isIdentifier(d.name)) bad(d, 'unsupported declaration');
      const t = d.type ? T(d.type) : null;
      const init = d.initializer ? `$R.coerce(${t}, ${E(d.initializer)})` : t ? `$R.zero(${t})` : bad(d, 'a variable without type and value');
      const here = locals[locals.length - 1];
      if (here) { here.add(d.name.text); }
      types[types.length - 1].set(d.name.text, t);
      if (kw === 'const') consts[consts.length - 1].add(d.name.text);
      // never const in JavaScript: constants are checked above
      return `let ${name(d.name.text)} = ${init};`;
    }).join(' ');
  }
  function scope(f) { locals.push(new Set()); types.push(new Map()); consts.push(new Set()); const r = f(); locals.pop(); types.pop(); consts.pop(); return r; }
  function S(n) {
    switch (n.kind) {
      case K.Block: return scope(() => `{ ${n.statements.map(S).join('\n')} }`);
      case K.EmptyStatement: return ';';
      case K.VariableStatement: return vars(n.declarationList);
      case K.ExpressionStatement: return E(n.expression) + ';';
      case K.IfStatement: return `if ($R.truthy(${E(n.expression)})) ${S(n.thenStatement)}${n.elseStatement ? ` else ${S(n.elseStatement)}` : ''}`;
      case K.WhileStatement: return `while ($R.tick() && $R.truthy(${E(n.expression)})) ${S(n.statement)}`;
      case K.DoStatement: return `do ${S(n.statement)} while ($R.tick() && $R.truthy(${E(n.expression)}));`;
      case K.ForStatement: return scope(() => {
        const i = n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? vars(n.initializer) : E(n.initializer) + ';') : '';
        return `{ ${i} for (; $R.tick() && ${n.condition ? `$R.truthy(${E(n.condition)})` : 'true'}; ${n.incrementor ? E(n.incrementor) : ''}) ${S(n.statement)} }`;
      });
      case K.BreakStatement: return 'break;';
      case K.ContinueStatement: return 'continue;';
      case K.SwitchStatement: return scope(() => {
        const cs = n.caseBlock.clauses.map((c) => `${c.expression ? `case $R.same($s, ${E(c.expression)}):` : 'default:'} ${c.statements.map(S).join('\n')}`);
        return `{ const $s = ${E(n.expression)}; switch (true) { ${cs.join('\n')} } }`;
      });
      case K.ReturnStatement: {
        if (!n.expression) { if (ret !== "'void'" && ret !== 'null') bad(n, 'return without a value'); return 'return;'; }
        return `return $R.coerce(${ret}, ${E(n.expression)});`;
      }
      case K.ThrowStatement: return `$R.builtin.abort();`;
      default: return bad(n, `unsupported statement ${K[n.kind]}`);
    }
  }
  function fn(n, who) { // the part after the name: (params) { body }
    const tps = n.typeParameters ? n.typeParameters.map((p) => p.name.text) : [];
    const had = typeVars; typeVars = new Set([...typeVars, ...tps]);
    const hadRet = ret; ret = n.type ? T(n.type) : ts.isConstructorDeclaration(n) ? 'null' : "'void'";
    const out = scope(() => {
      const ps = n.parameters.map((p) => {
        if (!ts.isIdentifier(p.name)) bad(p, 'unsupported parameter');
        if (locals[locals.length - 1].has(p.name.text)) bad(p, `duplicate identifier '${p.name.text}'`);
        locals[locals.length - 1].add(p.name.text);
        types[types.length - 1].set(p.name.text, p.type ? T(p.type) : bad(p, 'a parameter without type'));
        return p;
      });
      const list = ps.map((p) => name(p.name.text)).join(', ');
      const isCtor = ts.isConstructorDeclaration(n);
      const conv = ps.map((p) => `${name(p.name.text)} = $R.coerce(${T(p.type)}, ${p.initializer ? `${name(p.name.text)} === undefined ? ${E(p.initializer)} : ${name(p.name.text)}` : name(p.name.text)});`).join(' ');
      // variables of the body share the scope of the parameters
      for (const s of n.body.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) {
        if (ps.some((p) => p.name.text === d.name.text)) bad(d, `duplicate identifier '${d.name.text}'`);
      }
      const dup = new Set();
      for (const s of n.body.statements) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) {
        if (dup.has(d.name.text)) bad(d, `duplicate identifier '${d.name.text}'`);
        dup.add(d.name.text);
      }
      const pre = isCtor ? ps.filter((p) => mods(p).length).map((p) => `this.${name(p.name.text)} = ${name(p.name.text)};`).join(' ') : '';
      const body = n.only ? (ret === "'void'" ? `${E(n.only)}; return;` : `return $R.coerce(${ret}, ${E(n.only)});`) : n.body.statements.map(S).join('\n');
      const end = isCtor ? '' : `$R.end(${ret}, ${JSON.stringify(who)});`;
      const core = `$R.tick(); ${conv} ${pre} ${body}\n${end}`;
      return tps.length ? `(${tps.map((t) => '$T_' + t).join(', ')}) { return (${list}) => { ${core} }; }` : `(${list}) { ${core} }`;
    });
    typeVars = had; ret = hadRet;
    return out;
  }
  const js = [], inits = [];
  const wasm = (t) => (!t || t.kind === K.VoidKeyword ? null : (() => { const x = T(t); const m = /^'(\w+)'$/.exec(x); return m && isNum(m[1]) ? m[1] : '?'; })());
  for (const s of sf.statements) {
    if (ts.isFunctionDeclaration(s)) {
      const f = s.name.text;
      if (has(s, K.DeclareKeyword) || !s.body) {
        const d = mods(s).find((m) => ts.isDecorator(m) && ts.isCallExpression(m.expression) && m.expression.expression.getText(sf) === 'external');
        if (!d) bad(s, `function ${f} without a body`);
        const [a, b] = d.expression.arguments.map((x) => x.text);
        const ps = s.parameters.map((p) => wasm(p.type)), r = wasm(s.type);
        js.push(`const ${name(f)} = $R.external(${JSON.stringify(a)}, ${JSON.stringify(b)}, ${JSON.stringify(ps)}, ${JSON.stringify(r)});`);
        continue;
      }
      js.push(`function ${name(f)}${fn(s, f)}`);
      if (has(s, K.ExportKeyword)) {
        if (s.typeParameters) bad(s, `generic ${f} exported`);
        exports_[f] = { params: s.parameters.map((p) => wasm(p.type)), result: wasm(s.type) };
      }
    } else if (ts.isClassDeclaration(s)) {
      cls = s.name.text;
      const parent = classes.get(cls).parent;
      const fields = [], rest = [];
      for (const m of s.members) {
        if (ts.isPropertyDeclaration(m)) fields.push(`${has(m, K.StaticKeyword) ? 'static ' : ''}${name(m.name.text)} = ${m.initializer ? `$R.coerce(${T(m.type)}, ${E(m.initializer)})` : `$R.zero(${T(m.type)})`};`);
        else if (ts.isConstructorDeclaration(m)) rest.push(`constructor${fn(m, cls)}`);
        else if (ts.isMethodDeclaration(m)) { if (m.body) rest.push(`${has(m, K.StaticKeyword) ? 'static ' : ''}${name(m.name.text)}${fn(m, m.name.text)}`); }
        else if (ts.isSetAccessor(m)) rest.push(`set ${name(m.name.text)}${fn({ ...m, kind: m.kind, parameters: m.parameters, body: m.body, type: undefined }, m.name.text)}`);
        else if (ts.isSemicolonClassElement(m)) continue;
        else if (ts.isGetAccessor(m)) rest.push(`get ${name(m.name.text)}${fn(m, m.name.text)}`);
        else bad(m, `unsupported member ${K[m.kind]}`);
      }
      js.push(`class ${name(cls)} ${parent ? `extends ${name(parent)} ` : ''}{ ${fields.join('\n')} ${rest.join('\n')} }`);
      cls = null;
    } else if (ts.isEnumDeclaration(s)) {
      let next = 0n;
      const es = s.members.map((m) => {
        if (m.initializer) { const t = m.initializer.getText(sf); if (!/^-?(0x[0-9a-fA-F]+|\d+)$/.test(t)) bad(m, 'unsupported enum value'); next = BigInt(t); }
        return `${name(m.name.text)}: $R.convert('i32', $R.lit('${next++}', false))`;
      });
      js.push(`const ${name(s.name.text)} = { ${es.join(', ')} };`);
    } else if (ts.isVariableStatement(s)) js.push(vars(s.declarationList));
    else if (ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s)) continue;
    else if (ts.isExpressionStatement(s) || ts.isBlock(s) || ts.isIfStatement(s) || ts.isForStatement(s) || ts.isWhileStatement(s) || s.kind === K.EmptyStatement) js.push(S(s));
    else bad(s, `unsupported declaration ${K[s.kind]}`);
  }
  const text = `"use strict"; ${js.join('\n')}\nreturn { ${Object.keys(exports_).map((f) => `${JSON.stringify(f)}: ${name(f)}`).join(', ')} };`;
  return { text, exports: exports_ };
}

// ------------------------------------------------------------------ an instance
let inst = null, log = [], shared = null, onBase = [];
function external(ns, fname, ps, r) {
  return (...args) => {
    if (args.length !== ps.length) throw new CompileError(`${fname} takes ${ps.length} arguments, not ${args.length}`);
    const a = args.map((x, i) => coerce(ps[i], x));
    const raw = a.map(toRaw);
    const key = `${ns}.${fname}`;
    log.push([key, raw.map((x) => x.toString(16)), ps, r]);
    const m = /^wastrumentation_stack\.wastrumentation_stack_(load|store)_(i32|f32|i64|f64|type)$/.exec(key);
    if (m) {
      const t = m[2] === 'type' ? 'i32' : m[2], size = m[2] === 'type' ? 4 : 8, n = m[2] === 'type' ? 4 : sizeOf(t);
      const p = Number(raw[0]);
      if (m[1] === 'load') return fromRaw(t, shared.get(p + size * Number(raw[1]), n));
      shared.set(p + size * Number(raw[2]), n, raw[1]);
      return undefined;
    }
    if (key === 'instrumented_input.call_base') for (const [p, n, v] of onBase) shared.set(p, n, BigInt('0x' + v));
    return r === null ? undefined : fromRaw(r, 0n);
  };
}
function load(source) {
  inst = null; log = []; shared = new Memory(); shared.grow(2); onBase = [];
  const c = compile(source);
  const R = makeRuntime(external);
  let ticks = 0;
  R.tick = () => { if (++ticks > 3e7) throw new TrapError('does not end'); return true; };
  R.reset = () => { ticks = 0; };
  R.after = (o, f) => { f(o); return o; };
  R.and = (a, b) => (truthy(a) ? b() : a);
  R.or = (a, b) => (truthy(a) ? a : b());
  R.same = (a, b) => truthy(binary('==', a, b));
  R.keep = (t, old, v) => coerce(t || (old instanceof V ? old.t : null), v);
  R.field = (o, f) => {
    if (o === null || o === undefined) throw new TrapError(`field ${f} of nothing`);
    if (!(('$_' + f) in Object(o))) throw new CompileError(`no field '${f}'`);
    return o['$_' + f];
  };
  R.put = (o, f, v) => {
    const old = R.field(o, f);
    return (o['$_' + f] = old instanceof V ? coerce(old.t, v) : v);
  };
  R.invoke = (o, f, targs, args) => {
    const m = R.field(o, f);
    if (typeof m !== 'function') throw new CompileError(`'${f}' is not a method`);
    return targs ? m.apply(o, targs).apply(o, args) : m.apply(o, args);
  };
  R.infer = (f, order, args) => f(...order.map((i) => settle(args[i]).t))(...args);
  let fns;
  try { fns = new Function('$R', c.text)(R); } catch (e) {
    if (e instanceof SyntaxError) throw new CompileError(`${e.message}`);
    throw e;
  }
  inst = { fns, exports: c.exports, R };
  return c.exports;
}
function handle(q) {
  try {
    if (q.load !== undefined) return { exports: load(q.load) };
    if (q.c !== undefined) {
      const f = inst.fns[q.c], ty = inst.exports[q.c];
      if (!f) return { err: `no export '${q.c}'` };
      inst.R.reset();
      const r = f(...q.a.map((x, i) => fromRaw(ty.params[i], BigInt('0x' + x))));
      return { r: ty.result === null ? [] : [toRaw(coerce(ty.result, r)).toString(16)] };
    }
    if (q.poke !== undefined) { for (const [p, n, v] of q.poke) shared.set(p, n, BigInt('0x' + v)); return {}; }
    if (q.peek !== undefined) return { r: q.peek.map(([p, n]) => shared.get(p, n).toString(16)) };
    if (q.onbase !== undefined) { onBase = q.onbase; return {}; }
    if (q.log !== undefined) { const l = log; log = []; return { log: l }; }
    if (q.pages !== undefined) return { n: inst.R.mem.pages };
    return { err: 'unknown request' };
  } catch (e) {
    if (e instanceof CompileError) return { compile: e.message };
    if (e instanceof TrapError) return { trap: e.message };
    if (e instanceof RangeError) return { trap: e.message };
    return { compile: `${e.name}: ${e.message}` };
  }
}
let rest = '';
const fs = require('fs');
const chunk = Buffer.alloc(1 << 16);
let out = [];
for (;;) {
  let n;
  try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; if (e.code === 'EOF') break; throw e; }
  if (n === 0) break;
  rest += chunk.toString('utf8', 0, n);
  let i;
  while ((i = rest.indexOf('\n')) >= 0) {
    const line = rest.slice(0, i); rest = rest.slice(i + 1);
    if (line) out.push(JSON.stringify(handle(JSON.parse(line))));
  }
  if (out.length) { const b = Buffer.from(out.join('\n') + '\n'); let o = 0; while (o < b.length) { try { o += fs.writeSync(1, b, o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } } out = []; }
}
