// helpers for check.mjs: weave a program with the built generator and run it with JS traps
import { execFileSync } from 'node:child_process';
import { mkdtempSync, readFileSync, existsSync, writeFileSync } from 'node:fs';
import { join } from 'node:path';
const scratch = process.env.DEMO_DIR;
export function weave(wat, hooks, targets) {
  const d = mkdtempSync(join(scratch, 'weave-'));
  writeFileSync(join(d, 'prog.wat'), wat);
  const a = ['weave', d, join(d, 'prog.wat'), hooks.join(',')];
  if (targets) a.push(targets.join(','));
  execFileSync(process.env.GEN, a, { stdio: ['ignore', 'ignore', 'inherit'] });
  const read = (n) => existsSync(join(d, n)) ? readFileSync(join(d, n)) : null;
  return { target: read('target.wasm'), lib: read('lib.wasm') };
}
export function gen(mode, wat) {
  const d = mkdtempSync(join(scratch, 'gen-'));
  writeFileSync(join(d, 'prog.wat'), wat);
  return execFileSync(process.env.GEN, [mode, join(d, 'prog.wat')], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'inherit'] });
}
// traps: {name: (...args) => result}; the analysis may use link.exports (instrumented_base_*, call_base)
export function link(w, traps, host = {}) {
  const lib = w.lib ? new WebAssembly.Instance(new WebAssembly.Module(w.lib)).exports : {};
  const analysis = new Proxy(traps, { get: (t, n) => t[n] ?? (() => { throw new Error('trap ' + String(n) + ' was not expected') }) });
  const i = new WebAssembly.Instance(new WebAssembly.Module(w.target), { WASTRUMENTATION_ANALYSIS: analysis, wastrumentation_stack: lib, ...host });
  return { exports: i.exports, lib };
}
export function same(what, got, want) {
  const s = (x) => JSON.stringify(x, (_, v) => typeof v === 'bigint' ? `${v}n` : Object.is(v, -0) ? '-0' : v);
  if (s(got) !== s(want)) {
    console.error(`${what}: got ${s(got)}, expected ${s(want)}`);
    process.exit(1);
  }
}
