// Feeds the shipped JavaScript analyses the events Wasabi would, and compares what they end up with.
// node a03.cjs <directory of analyses> <seed> <rounds> <long?>
const fs = require('fs'), path = require('path'), vm = require('vm');
const [dir, seed, rounds, long] = [process.argv[2], +process.argv[3], +process.argv[4], process.argv[5] === 'long'];
let state = (seed * 2654435761 + 12345) >>> 0;
function rnd() { state = (state + 0x6D2B79F5) >>> 0; let t = state; t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
const below = (n) => Math.floor(rnd() * n), pick = (xs) => xs[below(xs.length)];
const HOOKS = ['start', 'nop', 'unreachable', 'if_', 'br', 'br_if', 'br_table', 'begin', 'end', 'drop', 'select', 'call_pre', 'call_post', 'return_', 'const_', 'unary', 'binary', 'load', 'store', 'memory_size', 'memory_grow', 'local', 'global'];
const UNARY = ['i32.eqz', 'i64.clz', 'f32.neg', 'f64.sqrt', 'i32.wrap_i64', 'f64.promote_f32', 'i64.extend_i32_u'];
const BINARY = ['i32.add', 'i32.and', 'i32.shl', 'i32.shr_u', 'i32.shr_s', 'i32.xor', 'i32.or', 'i64.add', 'i64.xor', 'f64.mul', 'i32.lt_u', 'i64.and', 'i64.shl'];
const LOADS = { 'i32.load': 4, 'i64.load': 8, 'f32.load': 4, 'f64.load': 8, 'i32.load8_s': 1, 'i32.load8_u': 1, 'i32.load16_s': 2, 'i32.load16_u': 2, 'i64.load8_s': 1, 'i64.load8_u': 1, 'i64.load16_s': 2, 'i64.load16_u': 2, 'i64.load32_s': 4, 'i64.load32_u': 4 };
const STORES = { 'i32.store': 4, 'i64.store': 8, 'f32.store': 4, 'f64.store': 8, 'i32.store8': 1, 'i32.store16': 2, 'i64.store8': 1, 'i64.store16': 2, 'i64.store32': 4 };
const value = () => pick([0, 1, -1, 0.5, NaN, 2 ** 31, { low: 1, high: 2, unsigned: false }, below(1000)]);

function event(funcs, instrs, shapes) {
  const loc = { func: below(funcs), instr: below(instrs) - 1 };
  let hook = pick(HOOKS.slice(1));
  // there is one instruction at a place
  if (['if_', 'br_if', 'br_table', 'select'].includes(hook)) { const k = loc.func + '=' + loc.instr; hook = shapes[k] ??= hook; }
  const target = () => ({ label: below(4), location: { func: loc.func, instr: below(instrs) } });
  const memarg = () => ({ addr: pick([below(64), below(70000), 65528, 0, below(1 << 20)]), offset: pick([0, 0, below(32), 65535]) });
  switch (hook) {
    case 'if_': return [hook, loc, rnd() < 0.5];
    case 'br': return [hook, loc, target()];
    case 'br_if': return [hook, loc, target(), rnd() < 0.5];
    case 'br_table': {
      // the table belongs to the instruction
      const n = shapes[loc.func + ':' + loc.instr] ??= below(5);
      return [hook, loc, Array.from({ length: n }, target), target(), pick([below(n + 1), n, n + 1, below(8), 4294967295, 2147483648, below(1 << 30)])];
    }
    case 'begin': case 'end': {
      const type = pick(['function', 'block', 'loop', 'if', 'else']);
      return hook === 'begin' ? [hook, loc, type] : [hook, loc, type, { func: loc.func, instr: below(instrs) }, undefined];
    }
    case 'drop': return [hook, loc, value()];
    case 'select': return [hook, loc, rnd() < 0.5, value(), value()];
    case 'call_pre': return [hook, loc, below(funcs), [value()], rnd() < 0.3 ? below(9) : undefined];
    case 'call_post': case 'return_': return [hook, loc, [value()]];
    case 'const_': return [hook, loc, pick(['i32.const', 'i64.const', 'f32.const', 'f64.const']), value()];
    case 'unary': return [hook, loc, pick(UNARY), value(), value()];
    case 'binary': return [hook, loc, pick(BINARY), value(), value(), value()];
    case 'load': return [hook, loc, pick(Object.keys(LOADS)), memarg(), value()];
    case 'store': return [hook, loc, pick(Object.keys(STORES)), memarg(), value()];
    case 'memory_size': return [hook, loc, below(10)];
    case 'memory_grow': return [hook, loc, below(3), below(10)];
    case 'local': return [hook, loc, pick(['local.get', 'local.set', 'local.tee']), below(9), value()];
    case 'global': return [hook, loc, pick(['global.get', 'global.set']), below(5), value()];
    default: return [hook, loc];
  }
}
// what each analysis is to know, from the events alone
const at = (m, { func, instr }, init) => ((m[func] ??= {})[instr] ??= init());
const name = (info, k) => { const f = info.functions[k]; return f.export[0] !== undefined ? f.export[0] : f.import !== null ? f.import : k; };
const MODELS = {
  branches: (es) => { const m = {}; for (const [h, loc, a, b, c] of es) {
    if (h === 'if_') at(m, loc, () => [0, 0])[a ? 1 : 0]++;
    if (h === 'br_if') at(m, loc, () => [0, 0])[b ? 1 : 0]++;
    if (h === 'br_table') at(m, loc, () => Array(a.length + 1).fill(0))[Math.min(c, a.length)]++; } return m; },
  icount: (es) => { const m = {}; for (const [h, loc] of es) { if (h !== 'start') { at(m, loc, () => 0); m[loc.func][loc.instr]++; } } return m; },
  opcodes: (es) => { const m = {}; const inc = (k) => { m[k] = (m[k] || 0) + 1; }; for (const [h, _l, a, _b, c] of es) {
    if (['if_', 'return_'].includes(h)) inc(h.slice(0, -1));
    else if (h === 'begin' || h === 'end') { if (a !== 'if' && a !== 'function') inc(a); }
    else if (h === 'call_pre') inc(c === undefined ? 'call' : 'call_indirect');
    else if (['const_', 'unary', 'binary', 'load', 'store', 'local', 'global'].includes(h)) inc(a);
    else if (h !== 'start') inc(h); } return m; },
  globals: (es) => { const m = {}; for (const [h, _l, op, i] of es) if (h === 'global') (m[i] ??= { r: 0, w: 0 })[op === 'global.set' ? 'w' : 'r']++; return m; },
  loops: (es) => { const m = {}; for (const [h, loc, type] of es) if (h === 'begin' && type === 'loop') { at(m, loc, () => 0); m[loc.func][loc.instr]++; } return m; },
  'block-profiling': (es) => { const m = {}; for (const [h, loc, type] of es) if (h === 'begin') at(m, loc, () => ({ count: 0, type })).count++; return m; },
  'coverage-instruction': (es) => { const m = {}; for (const [, loc] of es) { at(m, loc, () => true); } return m; },
  'coverage-branch': (es) => { const m = {}; for (const [h, loc, a, b, c] of es) {
    const v = h === 'if_' || h === 'select' ? a : h === 'br_if' ? b : h === 'br_table' ? c : undefined;
    if (v !== undefined) at(m, loc, () => new Set()).add(v); }
    for (const f in m) for (const i in m[f]) m[f][i] = [...m[f][i]]; return m; },
  'call-graph': (es, info) => [...new Set(es.filter(([h]) => h === 'call_pre').map(([, loc, t]) => name(info, loc.func) + ' --> ' + name(info, t)))].sort(),
  'cryptominer-detection': (es) => { const m = {}; for (const [h, , op] of es) if (h === 'binary' && ['i32.add', 'i32.and', 'i32.shl', 'i32.shr_u', 'i32.xor'].includes(op)) m[op] = (m[op] || 0) + 1; return m; },
  'memory-tracing': (es) => es.filter(([h]) => h === 'load' || h === 'store').map(([h, loc, , m]) => [loc.func, loc.instr, m.addr + m.offset, h === 'store']).slice(-1_000_000).reverse(),
  memstats: (es) => { const m = { reads: {}, writes: {} }; for (const [h, , op, a] of es) {
    const [size, into] = h === 'load' ? [LOADS[op], m.reads] : h === 'store' ? [STORES[op], m.writes] : [0];
    for (let k = 0; k < size; k++) into[a.addr + a.offset + k] = (into[a.addr + a.offset + k] || 0) + 1; } return m; },
  forward: () => null,
  empty_monitor: () => null,
};
// what the analysis has to say for itself
const plain = (x) => { const o = {}; for (const k in x) if (x[k]) o[k] = x[k]; return o; };
const deep = (x) => { const o = {}; for (const k in x) o[k] = plain(x[k]); return o; };
const TOLD = {
  'call-graph': (r) => [...r].map(String).sort(),
  'memory-tracing': (r) => { const v = r.toarray(); if (v.length !== r.size()) throw Error('size'); return v.map((a) => [a.func, a.instr, a.addr, a.write]); },
  memstats: (r) => ({ reads: plain(r.reads), writes: plain(r.writes) }),
  'block-profiling': deep, 'coverage-instruction': deep, 'coverage-branch': deep, branches: deep, icount: deep, loops: deep,
  globals: plain, opcodes: plain, 'cryptominer-detection': plain,
  forward: () => null, empty_monitor: () => null,
};
const canon = (x) => JSON.stringify(x, (_k, v) => typeof v === 'number' && Number.isNaN(v) ? 'NaN' : v && typeof v === 'object' && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort(([a], [b]) => (a < b ? -1 : a > b ? 1 : 0))) : v);
const blank = (src, ctx) => [...src.matchAll(/^(?:let|const|var)\s+(\w+)/gm)].map((m) => vm.runInContext(m[1], ctx))
  .find((v) => v && typeof v === 'object' && Object.values(v).every((n) => n === 0));
const out = { evals: 0, counts: {}, seen: [], violations: [], unknown: [] };
const sources = {};
for (const f of fs.readdirSync(dir)) if (f.endsWith('.cjs')) sources[f.slice(0, -4)] = fs.readFileSync(path.join(dir, f), 'utf8');
out.unknown = Object.keys(sources).filter((n) => !(n in MODELS) && n !== 'taint');
for (const n of [...Object.keys(MODELS), 'taint']) if (!(n in sources)) out.violations.push([n + ':missing', 'there is no ' + n + '.cjs']);
// One execution of some program, as Wasabi tells it, with the values that carry a taint. Branches are not taken and only functions
// have results: there the analysis is exact.
function flow() {
  const odd = () => pick([[], [], ['a'], ['taint'], ['taint_sink2', 'x']]);
  const n = 3 + below(4), names = pick([['taint_source', 'taint_sink'], ['_markSource', '_sink']]);
  const where = [...Array(n).keys()].sort(() => rnd() - 0.5), source = where[0], sink = where[1];
  const fns = Array.from({ length: n }, (_, k) => ({ params: below(5), result: rnd() < 0.7, export: odd(), imported: rnd() < 0.2 }));
  for (const f of fns) if (f.imported) f.result = false;
  for (const [k, s] of [[source, names[0]], [sink, names[1]]]) { fns[k].params ||= 1; if (rnd() < 0.9) fns[k].export = pick([[s], ['other', s], [s, 'b']]); else fns[k].mute = true; }
  const globals = Array.from({ length: 4 }, () => ({ t: false })), memory = new Map(), es = [], sinks = [];
  let left = 20 + below(400), marks = 0;
  es.push(['start', { func: 0, instr: -1 }]);
  const run = (f, args, depth) => {
    const locals = args.concat(Array.from({ length: 3 }, () => ({ t: false }))), vs = [];
    let instr = 0;
    const say = (h, ...a) => { const loc = { func: f, instr: instr++ }; es.push([h, loc, ...a]); return loc; };
    const shell = (type, body) => { say('begin', type); body(); say('end', type, { func: f, instr: 0 }, undefined); };
    const constant = (st) => { say('const_', 'i32.const', 0); st.push({ t: false }); };
    const step = (st) => {
      left--;
      const need = (k) => { while (st.length < k) rnd() < 0.3 ? constant(st) : get(st); };
      const get = (st) => { const k = below(locals.length); say('local', 'local.get', k, 0); st.push(locals[k]); };
      const memarg = (at) => { const offset = below(at + 1); return { addr: at - offset, offset }; };
      switch (below(15)) {
        case 0: constant(st); break;
        case 1: get(st); break;
        case 2: { need(1); const op = pick(['local.set', 'local.tee']), k = below(locals.length); say('local', op, k, 0); locals[k] = op === 'local.set' ? st.pop() : st.at(-1); break; }
        case 3: { const k = below(4); say('global', 'global.get', k, 0); st.push(globals[k]); break; }
        case 4: { need(1); const k = below(4); say('global', 'global.set', k, 0); globals[k] = st.pop(); break; }
        case 5: { need(1); say('unary', pick(UNARY), 0, 0); st.push({ t: st.pop().t }); break; }
        case 6: { need(2); say('binary', pick(BINARY), 0, 0, 0); const a = st.pop(), b = st.pop(); st.push({ t: a.t || b.t }); break; }
        case 7: { need(3); const c = rnd() < 0.5; say('select', c, 0, 0); st.pop(); const b = st.pop(), a = st.pop(); st.push(c ? a : b); break; }
        case 8: { need(1); const at = below(8) * 16; say('load', 'i32.load', memarg(at), 0); st.pop(); st.push(memory.get(at) || { t: false }); break; }
        case 9: { need(2); const at = below(8) * 16; say('store', 'i32.store', memarg(at), 0); memory.set(at, st.pop()); st.pop(); break; }
        case 10: if (rnd() < 0.5) { say('memory_size', 1); st.push({ t: false }); } else { need(1); say('memory_grow', 0, 1); st.pop(); st.push({ t: false }); } break;
        case 11: need(1); if (rnd() < 0.5) { say('drop', 0); st.pop(); } else { say('br_if', { label: 0, location: { func: f, instr: 0 } }, false); st.pop(); } break;
        case 12: if (depth < 12) { const inner = [], type = pick(['block', 'loop', 'if', 'else']); if (type === 'if' || type === 'else') { need(1); say('if_', type === 'if'); st.pop(); } shell(type, () => { const k = below(5); for (let j = 0; j < k && left > 0; j++) step(inner); while (inner.length) { say('drop', 0); inner.pop(); } }); } break;
        default: {
          if (depth > 8) break;
          const to = rnd() < 0.4 ? source : rnd() < 0.5 ? sink : below(n), callee = fns[to], indirect = rnd() < 0.2;
          // what a source is given is nobody else's: whether a mark shows in copies made before is left open
          if (to === source) { for (let k = 0; k < callee.params; k++) { rnd() < 0.5 ? constant(st) : get(st); say('unary', pick(UNARY), 0, 0); st.push({ t: st.pop().t }); } if (indirect) constant(st); }
          need(callee.params + indirect);
          const loc = say('call_pre', to, Array(callee.params).fill(0), indirect ? below(4) : undefined);
          if (indirect) st.pop();
          const passed = st.splice(st.length - callee.params);
          // the last argument is on top
          for (const v of passed.slice().reverse()) {
            if (to === source && !callee.mute) { v.t = true; marks++; }
            if (to === sink && !callee.mute && v.t) sinks.push(loc);
          }
          const result = callee.imported ? undefined : run(to, passed, depth + 1);
          say('call_post', callee.result ? [0] : []);
          if (result) st.push(result);
        }
      }
    };
    say('begin', 'function');
    const steps = below(30);
    for (let k = 0; k < steps && left > 0; k++) step(vs);
    let result;
    if (fns[f].result) { if (!vs.length) { const k = below(locals.length); say('local', 'local.get', k, 0); vs.push(locals[k]); } result = vs.pop(); if (vs.length) { const k = locals.length - 1; say('local', 'local.set', k, 0); locals[k] = result; while (vs.length) { say('drop', 0); vs.pop(); } say('local', 'local.get', k, 0); } }
    else while (vs.length) { say('drop', 0); vs.pop(); }
    say('end', 'function', { func: f, instr: -1 }, undefined);
    if (rnd() < 0.3) say('return_', result ? [0] : []);
    return result;
  };
  const main = fns.findIndex((f) => !f.imported);
  if (main < 0) return flow();
  // entered from outside: there its result goes nowhere
  fns[main].result = false;
  run(main, Array.from({ length: fns[main].params }, () => ({ t: false })), 0);
  const info = { functions: fns.map((f, k) => ({ type: '', import: f.imported ? ['env', 'f' + k] : null, export: f.export, locals: '', instrCount: 5 })), globals: [0, 1, 2, 3].map(() => ({})), start: null };
  return { es, info, sinks, marks };
}
function taint(src) {
  const { es, info, sinks, marks } = flow(), told = [];
  let have, want = canon(sinks);
  try {
    const Wasabi = { HOOK_NAMES: HOOKS.slice(), analysis: {}, module: { info, exports: {} }, resolveTableIdx: (k) => k };
    const log = (...a) => { const l = a.find((x) => es.some((e) => e[1] === x)); if (l) told.push(l); };
    vm.runInContext(src, vm.createContext({ Wasabi, console: { log, warn: log } }));
    for (const [h, ...args] of es) { const f = Wasabi.analysis[h]; if (f) f(...args); }
    have = canon(told);
  } catch (e) { have = 'throws ' + e; }
  out.evals++;
  for (const [k, v] of [['events told', es.length], ['values marked by a source', marks], ['tainted values at a sink', sinks.length], ['results of taint', 1]]) out.counts[k] = (out.counts[k] || 0) + v;
  out.seen.push('taint:' + es.length + ':' + want.slice(0, 200));
  if (have !== want) out.violations.push(['taint', `${es.length} events: ${have.slice(0, 400)}\nnot ${want.slice(0, 400)}\n${JSON.stringify({ exports: info.functions.map((f) => f.export), events: es }).slice(0, 6000)}`]);
}
for (let round = 0; round < rounds; round++) {
  if (!long && sources.taint) taint(sources.taint);
  const funcs = 1 + below(6), instrs = 1 + below(12), shapes = {};
  const n = long ? 1_000_000 + below(40) : pick([0, 1, 5, 50, 500, 3000]);
  // in a long run there are accesses only
  const es = Array.from({ length: n }, () => long ? [pick(['load', 'store']), { func: below(funcs), instr: below(instrs) - 1 }, pick(['i32.load', 'i64.load8_u']).replace('x', ''), { addr: below(256), offset: below(3) }, 0] : event(funcs, instrs, shapes));
  if (long) for (const e of es) if (e[0] === 'store') e[2] = 'i32.store';
  const info = { functions: Array.from({ length: funcs }, (_, k) => ({ type: '', import: rnd() < 0.2 ? ['env', 'f' + k] : null, export: rnd() < 0.4 ? pick([['a' + k], ['b' + k, 'c']]) : [], locals: '', instrCount: 5 })), globals: [], start: null };
  for (const [a, src] of Object.entries(sources)) {
    if (!(a in MODELS)) continue;
    let have, want;
    try {
      const Wasabi = { HOOK_NAMES: HOOKS.slice(), analysis: {}, analysisResult: undefined, module: { info, exports: {} }, resolveTableIdx: (k) => k };
      const ctx = vm.createContext({ Wasabi, console });
      vm.runInContext(src, ctx);
      const mine = a === 'cryptominer-detection' ? blank(src, ctx) : undefined;
      for (const [h, ...args] of es) { const f = Wasabi.analysis[h]; if (f) f(...args); }
      let r = Wasabi.analysisResult;
      // this one keeps its result to itself, under whatever name
      if (a === 'cryptominer-detection' && r === undefined) r = mine;
      if (typeof r === 'function') r = r();
      have = canon(TOLD[a](r));
    } catch (e) { have = 'throws ' + e; }
    want = canon(MODELS[a](es, info));
    out.evals++;
    out.counts['events told'] = (out.counts['events told'] || 0) + es.length;
    out.counts['results of ' + a] = (out.counts['results of ' + a] || 0) + 1;
    if (es.length > 2) out.seen.push(a + ':' + want.length + ':' + want.slice(0, 200));
    if (have !== want) {
      let k = 0; while (have[k] === want[k]) k++;
      out.violations.push([a, `round ${round}, ${es.length} events: ${have.slice(Math.max(0, k - 60), k + 120)}\nnot ${want.slice(Math.max(0, k - 60), k + 120)}\nfirst events ${JSON.stringify(es.slice(0, 3))}`]);
    }
  }
}
console.log(JSON.stringify(out));
