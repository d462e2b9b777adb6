//! A02: the analyses that ship with the repository, compiled and linked with generated programs.
use crate::alib::*;
use crate::analysis::*;
use crate::gen::interesting;
use crate::interp::*;
use crate::pipe::instrumented;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use crate::weave::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use vcommon::*;

const WHERE: &str = "benchmarking-node/input-analyses/rust";
const LIBRARY: &str = "wastrumentation-rs-stdlib";
const EVERY: [&str; 27] = [
    "IfThenElse", "IfThenElsePost", "IfThen", "IfThenPost", "Branch", "BranchIf", "BranchTable", "Select", "CallPre", "CallPost",
    "CallIndirectPre", "CallIndirectPost", "Unary", "Binary", "Drop", "Return", "Const", "Local", "Global", "Load", "Store", "MemorySize",
    "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost",
];
/// The analyses, and the hooks each has to have.
const SHIPPED: [(&str, &[&str]); 18] = [
    ("forward", &EVERY),
    ("block-profiling", &["IfThenElse", "IfThen", "CallPre", "CallIndirectPre", "BlockPre", "LoopPre"]),
    ("branches", &["IfThen", "IfThenElse", "BranchIf", "BranchTable"]),
    ("call-graph", &["CallPre"]),
    ("call-stack-eq-wasabi", &["CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost"]),
    ("call-stack-wastrumentation", &["CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "GenericApply"]),
    ("coverage-branch", &["IfThenElse", "IfThen", "BranchIf", "BranchTable", "Select"]),
    ("coverage-instruction", &EVERY),
    ("cryptominer-detection", &["Binary"]),
    ("denan", &["GenericApply", "Unary", "Binary", "Const", "Local", "Global", "Load", "Store"]),
    ("globals", &["Global"]),
    ("icount", &EVERY),
    ("loops", &["LoopPre"]),
    ("memory-tracing", &["Load", "Store"]),
    ("memstats", &["Load", "Store"]),
    ("opcodes", &EVERY),
    ("safe-heap", &["Load", "Store"]),
    ("taint", &[
        "IfThenElse", "IfThenElsePost", "IfThen", "IfThenPost", "Branch", "BranchIf", "BranchTable", "Select", "CallPre", "CallPost",
        "CallIndirectPre", "CallIndirectPost", "Unary", "Binary", "Drop", "Const", "Local", "Global", "Load", "Store", "MemorySize",
        "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost", "GenericApply",
    ]),
];
/// event, with the place as the library calls it
struct Seen<'a> {
    t: &'static TrapInfo,
    args: &'a [u64],
    at: (u64, u64),
}
fn seen(log: &[Ev]) -> Vec<Seen<'_>> {
    log.iter()
        .filter_map(|e| match e {
            Ev::Trap { name, args, at } => {
                let at = if SWAPPED.load(Relaxed) { (at.1, at.0) } else { *at };
                Some(Seen { t: by_name(name).expect("trap"), args, at })
            }
            _ => None,
        })
        .collect()
}
fn touched(e: &Seen) -> Option<(u64, u64)> {
    const WIDTH: [u64; 14] = [4, 8, 4, 8, 1, 1, 2, 2, 1, 1, 2, 2, 4, 4];
    const STORED: [u64; 9] = [4, 8, 4, 8, 1, 2, 1, 2, 4];
    match e.t.hook {
        "Load" => Some((e.args[0] + e.args[1], WIDTH[e.args[2] as usize - 1])),
        "Store" => Some((e.args[0] + e.args[2], STORED[e.args[3] as usize - 1])),
        _ => None,
    }
}
/// What the analysis should answer when it is asked, per question; None: it should trap.
type Answers = Vec<(&'static str, Vec<u64>, u64)>;
fn places(log: &[Seen], hooks: &[&str], r: &mut Rng) -> Vec<(u64, u64)> {
    let mut p: BTreeSet<(u64, u64)> = log.iter().filter(|e| hooks.contains(&e.t.hook)).map(|e| e.at).collect();
    for _ in 0..3 {
        p.insert((r.below(6) as u64, r.below(20) as u64));
    }
    p.into_iter().collect()
}
fn answers(name: &str, hooks: &[&str], log: &[Ev], r: &mut Rng) -> Answers {
    let l = seen(log);
    let mut out: Answers = vec![];
    let minus = |bits: u64| if bits == 32 { 0xffff_ffff } else { u64::MAX };
    match name {
        "branches" | "coverage-branch" => {
            for (f, i) in places(&l, hooks, r) {
                let last = l.iter().rev().find(|e| e.at == (f, i) && hooks.contains(&e.t.hook));
                let v = last.map_or(minus(32), |e| if e.t.hook == "BranchTable" { e.args[1] } else { e.args[0] });
                out.push(("get_coverage", vec![f, i], v));
            }
        }
        "coverage-instruction" => {
            for (f, i) in places(&l, hooks, r) {
                out.push(("get_coverage", vec![f, i], l.iter().any(|e| e.at == (f, i)) as u64));
            }
        }
        "block-profiling" => {
            let target = |e: &Seen| if matches!(e.t.hook, "IfThen" | "IfThenElse" | "CallIndirectPre") { e.args[0] } else { 0 };
            let mut c: BTreeMap<(u64, u64, u64), u64> = BTreeMap::new();
            for e in &l {
                *c.entry((e.at.0, e.at.1, target(e))).or_default() += 1;
            }
            for (f, i) in places(&l, hooks, r) {
                c.entry((f, i, 0)).or_default();
            }
            out.extend(c.into_iter().map(|((f, i, t), n)| ("get_count", vec![f, i, t], n)));
        }
        "loops" => {
            let mut c: BTreeMap<(u64, u64), u64> = BTreeMap::new();
            for e in &l {
                *c.entry(e.at).or_default() += 1;
            }
            out.push(("total_counted_loops", vec![], c.len() as u64));
            for (f, i) in places(&l, hooks, r) {
                out.push(("get_count_for", vec![f, i], c.get(&(f, i)).copied().unwrap_or(minus(32))));
            }
        }
        "globals" => {
            for g in 0..8u64 {
                let of = |set: bool| l.iter().filter(|e| e.args[1] == g && e.t.name.contains("_set_") == set).count() as u64;
                for (k, n) in [(0, of(false)), (1, of(true))] {
                    let n = if of(false) + of(true) == 0 { 0xffff_fffe } else { n };
                    out.push(("get_inc", vec![g, k], n));
                }
            }
        }
        "cryptominer-detection" => {
            const KINDS: [&[&str]; 5] = [&["I32Add", "I64Add", "F32Add", "F64Add"], &["I32And", "I64And"], &["I32Shl", "I64Shl"], &["I32ShrU", "I64ShrU"], &["I32Xor", "I64Xor"]];
            for (k, names) in KINDS.iter().enumerate() {
                let n = l.iter().filter(|e| names.contains(&BINARY[e.args[2] as usize - 1])).count();
                out.push(("get_signature", vec![k as u64], n as u64));
            }
        }
        "opcodes" => {
            out.push(("total_instrs", vec![], 27));
            for (k, h) in EVERY.iter().enumerate() {
                out.push(("get_count_instr", vec![k as u64], l.iter().filter(|e| e.t.hook == *h).count() as u64));
            }
        }
        "icount" => {
            out.push(("total_instrs", vec![], 27));
            let fs: BTreeSet<u64> = l.iter().map(|e| e.at.0).collect();
            out.push(("total_counted_fs", vec![], fs.len() as u64));
            for f in &fs {
                for (k, h) in EVERY.iter().enumerate() {
                    let n = l.iter().filter(|e| e.t.hook == *h && e.at.0 == *f).count();
                    out.push(("get_count_for", vec![*f, k as u64], n as u64));
                }
                out.push(("get_count_for", vec![*f, 27 + r.below(9) as u64], minus(32)));
            }
            out.push(("get_count_for", vec![fs.last().map_or(0, |f| f + 1), r.below(27) as u64], minus(32)));
        }
        "call-stack-eq-wasabi" | "call-stack-wastrumentation" => {
            let (mut calls, mut depth, mut deepest) = (0u64, 0i64, 0i64);
            let (mut applies, mut inside, mut most) = (0u64, 0i64, 0i64);
            for e in log {
                match e {
                    Ev::Trap { name, .. } if name.ends_with("_pre") => {
                        (calls, depth) = (calls + 1, depth + 1);
                        deepest = deepest.max(depth);
                    }
                    Ev::Trap { .. } => depth -= 1,
                    Ev::Apply { .. } => {
                        (applies, inside) = (applies + 1, inside + 1);
                        most = most.max(inside);
                    }
                    Ev::Base { .. } => inside -= 1,
                    _ => {}
                }
            }
            out.push(("get_number_of_calls", vec![], calls));
            out.push(("get_max_call_depth", vec![], deepest as u64));
            if name == "call-stack-wastrumentation" {
                out.push(("get_number_of_applies", vec![], applies));
                out.push(("get_max_apply_depth", vec![], most as u64));
            } else {
                out.push(("get_call_stack", vec![], depth as u32 as u64));
            }
        }
        "memstats" => {
            for (hook, question) in [("Load", "get_read_at"), ("Store", "get_write_at")] {
                let mut c: BTreeMap<u64, u64> = BTreeMap::new();
                for e in l.iter().filter(|e| e.t.hook == hook) {
                    let (a, n) = touched(e).expect("access");
                    for b in a..a + n {
                        *c.entry(b).or_default() += 1;
                    }
                    c.entry(a.saturating_sub(1)).or_default();
                }
                out.extend(c.into_iter().map(|(b, n)| (question, vec![b], n)));
            }
        }
        _ => {}
    }
    out
}
fn ask(o: &mut Outcome, analysis: &Module, question: &str, args: &[u64]) -> Result<u64, String> {
    let (w, s) = (&mut o.world, &mut o.store);
    let f = w.analysis.and_then(|a| s.export_func(a, question)).ok_or(format!("there is no {question}"))?;
    let ft = match analysis.export(question).map(|x| analysis.ext(x.kind, x.index)) {
        Some(Ext::Func(ft)) if ft.params.len() == args.len() && ft.results.len() == 1 => ft,
        x => return Err(format!("{question} is {x:?}")),
    };
    (s.fuel, s.depth) = (50_000_000, 0);
    match s.invoke(w, f, args) {
        Ok(v) => Ok(norm(ft.results[0], v[0])),
        Err(t) => Err(format!("{question}({args:x?}) ends with {t:?}")),
    }
}
/// What the analysis reports about the run, against what the run did.
fn report(name: &str, hooks: &[&str], s: &mut Sides, analysis: &Module, r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let log = std::mem::take(&mut s.reference.world.log);
    let o = &mut s.instrumented;
    for (q, args, want) in answers(name, hooks, &log, r) {
        let have = ask(o, analysis, q, &args)?;
        rep.count("answers of analyses compared", 1);
        if have != want {
            return Err(format!("{q}({args:x?}) is {have:x}, not {want:x}"));
        }
    }
    let l = seen(&log);
    match name {
        "call-graph" => {
            let want: BTreeSet<(u64, u64)> = l.iter().map(|e| (e.at.0, e.args[0])).collect();
            let n = ask(o, analysis, "get_total_edges", &[])?;
            let mut have = BTreeSet::new();
            for k in 0..n.min(10_000) {
                have.insert((ask(o, analysis, "get_from_at", &[k])?, ask(o, analysis, "get_to_at", &[k])?));
            }
            rep.count("answers of analyses compared", 1 + 2 * n);
            if have != want || n != want.len() as u64 {
                return Err(format!("{n} edges {have:?}, not {want:?}"));
            }
        }
        "memory-tracing" => {
            // whether an access that traps is an access is not settled
            let n = s.reference.results.iter().position(|r| matches!(r, Err(Trap::Unreachable)));
            let sure = n.map_or(log.len(), |k| if k == 0 { 0 } else { s.reference.marks[k - 1] });
            let want: Vec<(u64, u64, u64, u64)> = seen(&log[..sure])
                .iter()
                .map(|e| (e.at.0, e.at.1, touched(e).expect("access").0, (e.t.hook == "Store") as u64))
                .collect();
            let n = ask(o, analysis, "total_accesses", &[])?;
            if n < want.len() as u64 || n > l.len() as u64 || ask(o, analysis, "get_total_accesses_from_buffer", &[])? != n {
                return Err(format!("{n} accesses, not {} to {}", want.len(), l.len()));
            }
            for (k, w) in want.iter().enumerate() {
                let k = k as u64;
                let mut q = |q: &str| ask(o, analysis, q, &[k]);
                let have = (q("get_nth_funct_index")?, q("get_nth_instr_index")?, q("get_nth_address")?, q("get_nth_operation")?);
                rep.count("answers of analyses compared", 4);
                if have != *w {
                    return Err(format!("access {k} is {have:?}, not {w:?}"));
                }
            }
        }
        _ => {}
    }
    s.reference.world.log = log;
    Ok(())
}
/// The first step with an access that `safe-heap` may stop at, and whether it has to.
fn suspicious(o: &Outcome) -> Option<(usize, bool)> {
    let mut from = 0;
    for (k, to) in o.marks.iter().enumerate() {
        for e in seen(&o.world.log[from..*to]) {
            let Some((address, width)) = touched(&e) else { continue };
            let (index, value) = (e.args[0], if e.t.hook == "Load" { e.t.results[0] } else { e.t.params[1] });
            let value = if matches!(value, VT::I32 | VT::F32) { 4 } else { 8 };
            if index % value != 0 || address % value != 0 || address == 0 {
                // unaligned by every measure, or only by some
                return Some((k, width == value && index % value != 0 && address % value != 0));
            }
        }
        from = *to;
    }
    None
}
fn cut(o: &mut Outcome, steps: usize) {
    o.results.truncate(steps);
    o.states.truncate(steps);
    o.marks.truncate(steps);
    o.world.log.clear();
    o.state = State::default();
}

fn case(wat: &str, depth: usize, script: impl FnOnce(&Module) -> Vec<Call>) -> Case {
    let bytes = wat::parse_str(wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
    let original = Rc::new(decode(&bytes).expect("valid"));
    let script = script(&original);
    Case { bytes, original, on: Default::default(), apply: false, targets: None, script, policy: Policy::default(), depth }
}
/// A loop with everything in it.
fn endurance(r: &mut Rng, rounds: u64) -> Case {
    let (a, b, c) = (r.below(7) + 1, r.below(5000), r.below(3) + 2);
    let wat = format!(
        "(module (memory 1) (global $g (mut i32) (i32.const 0)) (global $h (mut i64) (i64.const 1)) (table 2 funcref) (elem (i32.const 0) $leaf $other)
          (type $t (func (param i32) (result i32)))
          (func $leaf (type $t) (i32.add (local.get 0) (global.get $g)))
          (func $other (type $t) (if (i32.and (local.get 0) (i32.const 4)) (then (global.set $h (i64.add (global.get $h) (i64.const 3))))) (i32.xor (local.get 0) (i32.const {b})))
          (func (export \"run\") (param $n i32) (result i32) (local $s i32) (local $p i32)
            (block $out (loop $again
              (br_if $out (i32.eqz (local.get $n)))
              (local.set $p (i32.and (i32.mul (local.get $n) (i32.const {})) (i32.const 0xfff8)))
              (i32.store (local.get $p) (local.get $s))
              (local.set $s (i32.add (local.get $s) (i32.load offset=8 (i32.and (local.get $p) (i32.const 0x7ff8)))))
              (if (i32.rem_u (local.get $n) (i32.const {c})) (then (global.set $g (i32.add (global.get $g) (i32.const 1)))) (else (drop (memory.size))))
              (local.set $s (call_indirect (type $t) (select (local.get $s) (local.get $n) (local.get $s)) (i32.and (local.get $n) (i32.const 1))))
              (if (i32.eqz (i32.and (local.get $n) (i32.const 31))) (then (local.set $s (call $leaf (local.get $s)))))
              (block $z (block $y (block $x (br_table $x $y $z (i32.and (local.get $n) (i32.const 3))))
                (local.set $s (i32.clz (local.get $s))))
                (i64.store8 offset=3 (local.get $p) (i64.extend_i32_u (local.get $s))))
              (local.set $n (i32.sub (local.get $n) (i32.const 1)))
              (br $again)))
            (local.get $s)))",
        8 * a + 1
    );
    let mut c = case(&wat, 40, |m| {
        let (export, ty) = entries(m).pop().expect("run");
        let mut left = rounds;
        let mut v = vec![];
        while left > 0 {
            let n = left.min(r.below(rounds as usize) as u64 + 1);
            v.push(Call { export: export.clone(), ty: ty.clone(), args: vec![n] });
            left -= n;
        }
        v
    });
    c.policy.fuel = 200 * rounds + 1000;
    c
}
/// NaNs from functions that are not watched go into whatever is.
fn through_calls(r: &mut Rng) -> Case {
    let mut w = String::from(
        "(module (memory 1) (global $f (mut f32) (f32.const 0)) (global $d (mut f64) (f64.const 0))
          (func $f32 (param i64) (result f32) (f32.reinterpret_i32 (i32.wrap_i64 (local.get 0)))) (func $f64 (param i64) (result f64) (f64.reinterpret_i64 (local.get 0)))\n",
    );
    let mut n = 0;
    let mut f = |result: Option<VT>, body: String| {
        let res = result.map_or(String::new(), |t| format!("(result {})", t.low()));
        w += &format!("(func (export \"f{n}\") (param i64 i64) {res} (local $x f32) (local $y f64) {body})\n");
        n += 1;
    };
    let float = |t: VT| matches!(t, VT::F32 | VT::F64);
    for (k, name) in UNARY.iter().enumerate() {
        let (a, b) = unary_type(k as u8 + 1);
        if float(a) && !name.contains("Trunc") {
            f(Some(b), format!("({} (call ${} (local.get 0)))", text_name(name), a.low()));
        }
    }
    for (k, name) in BINARY.iter().enumerate() {
        let (a, b) = binary_type(k as u8 + 1);
        if float(a) {
            f(Some(b), format!("({} (call ${1} (local.get 0)) (call ${1} (local.get 1)))", text_name(name), a.low()));
        }
    }
    for (t, l, g, d) in [(VT::F32, "x", "f", "i32"), (VT::F64, "y", "d", "i64")] {
        let t_ = t.low();
        f(Some(t), format!("(local.set ${l} (call ${t_} (local.get 0))) (local.get ${l})"));
        f(Some(t), format!("(local.tee ${l} (call ${t_} (local.get 1)))"));
        f(Some(t), format!("(global.set ${g} (call ${t_} (local.get 0))) (global.get ${g})"));
        f(Some(if t == VT::F32 { VT::I32 } else { VT::I64 }), format!("({t_}.store (i32.const 16) (call ${t_} (local.get 0))) ({d}.load (i32.const 16))"));
        f(Some(t), format!("(i64.store (i32.const 24) (local.get 0)) ({t_}.load (i32.const 24))"));
        f(Some(t), format!("(select (call ${t_} (local.get 0)) (call ${t_} (local.get 1)) (i64.eqz (local.get 0)))"));
        f(Some(t), format!("(block (result {t_}) (br 0 (call ${t_} (local.get 1))))"));
    }
    w += ")";
    let mut c = case(&w, 40, |m| {
        let e = entries(m);
        (0..300)
            .map(|_| {
                let (export, ty) = r.pick(&e).clone();
                let wide = r.bool();
                let args = (0..2).map(|_| if wide { interesting(r, VT::F64) } else { interesting(r, VT::F32) }).collect();
                Call { export, ty, args }
            })
            .collect()
    });
    c.targets = Some((2..c.original.funcs.len() as u32).collect());
    c
}
/// Aligned accesses, many of them at the very end of the memory.
fn aligned(r: &mut Rng) -> Case {
    let offset = *r.pick(&[0, 8, 4096]);
    let mut c = every_operator(r, &[offset]);
    let pages = 65536u64;
    let astray = r.below(120);
    c.script = (0..60)
        .map(|n| {
            let (load, k) = if r.bool() { (true, r.below(LOADS.len())) } else { (false, r.below(STORES.len())) };
            let (export, value) = if load { (LOADS[k], load_type(k as u8 + 1)) } else { (STORES[k], store_type(k as u8 + 1)) };
            let x = c.original.export(export).expect("operator");
            let Ext::Func(ty) = c.original.ext(x.kind, x.index) else { panic!("{export}") };
            let width = if matches!(value, VT::I32 | VT::F32) { 4 } else { 8 };
            let at = if r.bool() { pages - width - offset } else { width * (1 + r.below(8000) as u64) };
            let at = at - if n == astray { width / 2 } else { 0 };
            let args = if load { vec![at] } else { vec![at, interesting(r, value)] };
            Call { export: export.into(), ty, args }
        })
        .collect();
    c
}
/// Accesses of every width that overlap, touch and straddle the end of the bytes touched so far.
fn crowded(r: &mut Rng) -> Case {
    let offset = *r.pick(&[0, 0, 1, 3, 8]);
    let mut c = every_operator(r, &[offset]);
    let mut top = [0u64, 0];
    c.script = (0..r.range(4, 90))
        .map(|_| {
            let (load, k) = if r.bool() { (true, r.below(LOADS.len())) } else { (false, r.below(STORES.len())) };
            let (export, value) = if load { (LOADS[k], load_type(k as u8 + 1)) } else { (STORES[k], store_type(k as u8 + 1)) };
            let x = c.original.export(export).expect("operator");
            let Ext::Func(ty) = c.original.ext(x.kind, x.index) else { panic!("{export}") };
            let near = top[load as usize];
            let at = if r.chance(1, 4) { r.below(24) as u64 } else { near.saturating_sub(8) + r.below(18) as u64 };
            top[load as usize] = near.max(at + *r.pick(&[1, 2, 4, 8]));
            let args = if load { vec![at] } else { vec![at, interesting(r, value)] };
            Call { export: export.into(), ty, args }
        })
        .collect();
    c
}
fn some_program(name: &str, k: u64, r: &mut Rng, rep: &mut Report) -> Case {
    match (name, k % 16) {
        ("denan", 1 | 5 | 9) => through_calls(r),
        ("safe-heap", 1 | 5 | 9) => aligned(r),
        ("memstats" | "memory-tracing" | "taint", 3 | 11) => crowded(r),
        ("memory-tracing", 13) => endurance(r, 4000),
        (_, 13) => endurance(r, 200),
        (_, 7) => every_operator(r, OFFSETS),
        _ => mixed_case(k, r, rep),
    }
}

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("dir");
    for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
        let name = e.file_name();
        if name == "target" || name == "dist" {
            continue;
        }
        // links are followed
        if e.path().is_dir() {
            copy(&e.path(), &to.join(name));
        } else {
            std::fs::copy(e.path(), to.join(name)).expect("copy");
        }
    }
}
struct Built {
    name: &'static str,
    hooks: &'static [&'static str],
    bytes: Vec<u8>,
}
fn compile_all(ctx: &mut Ctx) -> Vec<Built> {
    let dir = work(ctx);
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or("/repo".into()));
    copy(&repo.join(WHERE).join(LIBRARY), &dir.join(LIBRARY));
    let mut out = vec![];
    for (name, hooks) in SHIPPED {
        label(format!("compiling {name}"));
        let at = dir.join(name);
        copy(&repo.join(WHERE).join(name), &at);
        let built = build(&ctx.verif, &at, &dir.join("target"), true).and_then(|b| share(&b).map(|m| (b, m)));
        let (bytes, module) = match built {
            Ok(b) => b,
            Err(e) => {
                ctx.violation(&format!("does-not-compile:{name}"), &truncate(&e, 4000));
                continue;
            }
        };
        ctx.count("analyses compiled", 1);
        let lacks = |t: &str, ft: FT| module.export(t).map(|x| module.ext(x.kind, x.index)) != Some(Ext::Func(ft));
        let mut missing: Vec<&str> = TRAPS.iter().filter(|t| hooks.contains(&t.hook) && lacks(t.name, t.ft())).map(|t| t.name).collect();
        if hooks.contains(&"GenericApply") && lacks(APPLY, FT::new(&APPLY_FT.0, &APPLY_FT.1)) {
            missing.push(APPLY);
        }
        if !missing.is_empty() {
            ctx.violation(&format!("no-advice:{name}"), &format!("{name} does not have {missing:?}"));
            continue;
        }
        out.push(Built { name, hooks, bytes });
    }
    let _ = std::fs::remove_dir_all(&dir);
    out
}
/// The place of a drop, as `coverage-instruction` calls it.
fn place_order(b: &Built) -> Result<(u64, u64), String> {
    let analysis = Rc::new(decode(&b.bytes)?);
    let bytes = wat::parse_str("(module (func) (func) (func (export \"f\") (drop (i32.const 5))))").expect("probe");
    let original = Rc::new(decode(&bytes).expect("probe"));
    let on = ["drop_trap"].into_iter().collect();
    let (program, _) = instrumented(&bytes, repo_interface(&on, false, true), None)?;
    let script = [Call { export: "f".into(), ty: FT::default(), args: vec![] }];
    let policy = Policy { cap: 100, ..Default::default() };
    let mut o = run_linked(&original, &Rc::new(decode(&program)?), None, &analysis, &policy, &script, 40)?;
    for at in [(2, 1), (1, 2)] {
        if ask(&mut o, &analysis, "get_coverage", &[at.0, at.1])? == 1 {
            return Ok(at);
        }
    }
    Err("neither (2, 1) nor (1, 2) is covered".into())
}

pub fn a02(ctx: &mut Ctx) {
    HANG_AFTER.store(280, Relaxed);
    ctx.rule = "one observation = one program run under one shipped analysis: the program behaved as it does alone (or as the analysis documents), and every answer of the analysis about the run is true".into();
    let built = compile_all(ctx);
    if let Some(b) = built.iter().find(|b| b.name == "coverage-instruction") {
        match place_order(b) {
            Ok((2, 1)) => {}
            Ok(_) => {
                SWAPPED.store(true, Relaxed);
                ctx.violation("location-swapped", "coverage-instruction reports instruction 1 of function 2 as covered under get_coverage(1, 2), not get_coverage(2, 1)");
            }
            Err(e) => ctx.violation("location", &format!("coverage-instruction, one drop in function 2: {e}")),
        }
    }
    if built.is_empty() {
        return;
    }
    ctx.prepared();
    thread_local! { static CACHE: RefCell<BTreeMap<&'static str, Rc<Module>>> = const { RefCell::new(BTreeMap::new()) }; }
    let n = ctx.n(9_000, 300_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let b = &built[(k % built.len() as u64) as usize];
        let analysis = CACHE.with(|c| c.borrow_mut().entry(b.name).or_insert_with(|| Rc::new(decode(&b.bytes).expect("valid"))).clone());
        let mut c = some_program(b.name, k / built.len() as u64, r, rep);
        c.apply = b.hooks.contains(&"GenericApply");
        c.on = TRAPS.iter().filter(|t| b.hooks.contains(&t.hook)).map(|t| t.name).collect();
        c.policy.denan = b.name == "denan";
        c.policy.cap = 1 << 40;
        if c.targets.is_none() && r.chance(1, 6) {
            c.targets = Some(some_targets(r, &c.original));
        }
        rep.evals += 1;
        let far = |o: &Outcome| seen(&o.world.log).iter().filter_map(touched).any(|(a, _)| a > 1 << 20);
        let Some(mut s) = linked(&c, repo_interface(&c.on, c.apply, true), &analysis, rep, |o| matches!(b.name, "memstats" | "taint") && far(o)) else {
            return;
        };
        let observable = Aspects { observable: true, ..NONE };
        if b.name == "safe-heap" {
            if let Some((k, sure)) = suspicious(&s.reference) {
                rep.count(if sure { "safe-heap: unaligned accesses" } else { "safe-heap: doubtful accesses" }, 1);
                let stopped = matches!(s.instrumented.results.get(k), Some(Err(Trap::Unreachable)));
                if sure && !stopped {
                    rep.violation("safe-heap:unaligned", format!("an unaligned access goes on: {:x?}\n{}", s.instrumented.results.get(k), c.describe()));
                    return;
                }
                let to = if stopped { k } else { k + 1 };
                cut(&mut s.reference, to);
                cut(&mut s.instrumented, to);
            }
        }
        let before = rep.violations.len();
        if compare(&c, &s, observable, rep) {
            rep.count(&format!("runs under {}", b.name), 1);
            rep.count("steps of the original", s.reference.store.steps);
            rep.count("steps of the instrumented", s.instrumented.store.steps);
            let events = s.reference.world.log.len();
            rep.count("events", events as u64);
            if let Err(e) = report(b.name, b.hooks, &mut s, &analysis, r, rep) {
                rep.violation(&format!("{}:report", b.name), format!("{e}\n{}", c.describe()));
            } else if events > 2 {
                rep.saw(&fnv(1, (b.name, &s.reference.world.log)));
            }
        }
        for v in &mut rep.violations[before..] {
            if !v.0.starts_with(b.name) {
                v.0 = format!("{}:{}", b.name, v.0);
            }
        }
    });
}
