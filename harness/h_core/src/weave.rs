//! C01..C05, C07: original and instrumented program side by side.
use crate::analysis::*;
use crate::encode::encode;
use crate::gen;
use crate::interp::{Trap, Watch};
use crate::pipe::*;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use serde_json::json;
use std::collections::HashSet;
use std::fmt::Write;
use std::rc::Rc;
use vcommon::*;
use wastrumentation::analysis::{AnalysisInterface, WasmExport, WasmImport, WasmType};

fn wt(t: &VT) -> WasmType {
    match t {
        VT::I32 => WasmType::I32,
        VT::I64 => WasmType::I64,
        VT::F32 => WasmType::F32,
        VT::F64 => WasmType::F64,
        t => panic!("{t:?}"),
    }
}
/// An interface written from the contract.
pub fn own_interface(on: &HashSet<&'static str>, apply: bool) -> AnalysisInterface {
    let mut i = AnalysisInterface::default();
    for t in &TRAPS {
        if on.contains(t.name) {
            let ft = t.ft();
            *field_mut(&mut i, t.field) = Some(WasmExport {
                name: t.name.into(),
                args: ft.params.iter().map(wt).collect(),
                results: ft.results.iter().map(wt).collect(),
            });
        }
    }
    if apply {
        i.generic_interface = Some((
            WasmExport { name: APPLY.into(), args: vec![WasmType::I32; 7], results: vec![] },
            WasmImport {
                namespace: "transformed_input".into(),
                name: CALL_BASE.into(),
                args: vec![WasmType::I32, WasmType::I32],
                results: vec![],
            },
        ));
    }
    i
}
/// The repository's own, cut down to the same traps.
pub fn repo_interface(on: &HashSet<&'static str>, apply: bool, rust: bool) -> AnalysisInterface {
    let mut i = if rust {
        wastrumentation_lang_rust::generate::analysis::interface_from(&wastrumentation_lang_rust::generate::analysis::Hook::all_hooks())
    } else {
        use wastrumentation_lang_webassembly::generate::analysis::{interface_from, Hook};
        interface_from(&Hook::all_hooks())
    };
    for t in &TRAPS {
        if !on.contains(t.name) {
            *field_mut(&mut i, t.field) = None;
        }
    }
    if !apply {
        i.generic_interface = None;
    }
    i
}
pub fn some_traps(r: &mut Rng) -> HashSet<&'static str> {
    let mut on = HashSet::new();
    match r.below(8) {
        0 => on.extend(TRAPS.iter().map(|t| t.name)),
        1 | 2 => {
            let h = r.range(1, 3);
            for _ in 0..h {
                let k = r.pick(&HOOKS[1..]);
                on.extend(TRAPS.iter().filter(|t| t.hook == *k).map(|t| t.name));
            }
        }
        3 => {
            // one, or none at all
            if r.chance(3, 4) {
                on.insert(r.pick(&TRAPS).name);
            }
        }
        4 => {
            // control only: the order of events at one place matters
            const C: [&str; 15] = [
                "IfThen", "IfThenPost", "IfThenElse", "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Return",
                "BlockPre", "BlockPost", "LoopPre", "LoopPost", "Const", "Drop",
            ];
            on.extend(TRAPS.iter().filter(|t| C.contains(&t.hook)).map(|t| t.name));
        }
        _ => {
            let p = r.range(1, 9);
            on.extend(TRAPS.iter().filter(|_| r.chance(p, 10)).map(|t| t.name));
        }
    }
    on
}

pub struct Case {
    pub bytes: Vec<u8>,
    pub original: Rc<Module>,
    pub on: HashSet<&'static str>,
    pub apply: bool,
    pub targets: Option<Vec<u32>>,
    pub script: Vec<Call>,
    pub policy: Policy,
    pub depth: usize,
}
impl Case {
    pub fn eligible(&self, i: u32) -> bool {
        let f = &self.original.funcs[i as usize];
        !f.ty.mentions_refs() && self.targets.as_ref().is_none_or(|t| t.contains(&i))
    }
    pub fn watch(&self) -> Watch {
        let n = self.original.funcs.len() as u32;
        let sel: HashSet<u32> = (0..n).filter(|i| self.eligible(*i)).collect();
        Watch {
            events_in: sel.iter().copied().filter(|i| self.original.funcs[*i as usize].body.is_some()).collect(),
            apply_on: if self.apply { sel } else { HashSet::new() },
            on: self.on.clone(),
        }
    }
    pub fn interface(&self, r: &mut Rng) -> AnalysisInterface {
        match r.below(4) {
            0 => repo_interface(&self.on, self.apply, true),
            1 => repo_interface(&self.on, self.apply, false),
            _ => own_interface(&self.on, self.apply),
        }
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        let mut on: Vec<_> = self.on.iter().collect();
        on.sort();
        let _ = writeln!(s, "hooks {on:?} apply {} targets {:?} {:?}", self.apply, self.targets, self.policy);
        for c in &self.script {
            let _ = writeln!(s, "call {:?}({:x?})", c.export, c.args);
        }
        let _ = writeln!(s, "{}", wasmprinter::print_bytes(&self.bytes).unwrap_or_default());
        s
    }
}
pub fn some_case(r: &mut Rng, refs: bool) -> Case {
    let o = gen::Opts {
        refs,
        size: *r.pick(&[8, 20, 40, 80]),
        max_funcs: *r.pick(&[1, 3, 6]),
        wild: r.chance(1, 5),
        ..Default::default()
    };
    let g = gen::module(r, &o);
    let bytes = encode(&g.module, &g.types);
    let original = Rc::new(decode(&bytes).expect("generated module"));
    let on = some_traps(r);
    let calls = r.range(1, 6);
    let script = script(r, &original, calls);
    Case {
        bytes,
        original,
        on,
        apply: false,
        targets: None,
        script,
        policy: Policy { seed: r.u64(), cap: 1500, ..Default::default() },
        depth: 40,
    }
}
/// Mostly `some_case`; now and then a program at the edge of some size.
pub fn mixed_case(k: u64, r: &mut Rng, rep: &mut Report) -> Case {
    if k % 60 != 59 {
        return some_case(r, true);
    }
    let (c, kind) = crate::corners::corner(r);
    rep.count(&format!("program: {kind}"), 1);
    c
}
pub fn some_targets(r: &mut Rng, m: &Module) -> Vec<u32> {
    let n = m.funcs.len() as u32;
    let p = r.range(0, 4);
    let mut t: Vec<u32> = (0..n).filter(|_| r.chance(p, 4)).collect();
    if r.chance(1, 5) {
        t.push(n + r.below(5) as u32);
    }
    if r.chance(1, 5) && !t.is_empty() {
        let d = *r.pick(&t);
        t.push(d);
    }
    r.shuffle(&mut t);
    t
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Aspects {
    /// results, host calls, final state
    pub observable: bool,
    /// events with values
    pub events: bool,
    /// events with locations
    pub locations: bool,
    /// apply events
    pub applies: bool,
    /// events by name and function
    pub functions: bool,
}
pub const NONE: Aspects = Aspects { observable: false, events: false, locations: false, applies: false, functions: false };

fn view(log: &[Ev], a: Aspects) -> Vec<String> {
    log.iter()
        .filter_map(|e| match e {
            Ev::Trap { name, args, at } => {
                if a.events && a.locations {
                    Some(format!("{name}({args:x?}) at {at:?}"))
                } else if a.events {
                    Some(format!("{name}({args:x?})"))
                } else if a.locations {
                    Some(format!("{name} at {at:?}"))
                } else if a.functions {
                    Some(format!("{name} in {}", at.0))
                } else {
                    None
                }
            }
            Ev::Apply { idx, args, results, import } if a.applies => {
                Some(format!("apply {idx} {args:x?} -> {results:?}{}", if *import { " import" } else { "" }))
            }
            Ev::Base { idx, results } if a.applies => Some(format!("base {idx} = {results:x?}")),
            Ev::Host { name, args } if a.observable => Some(format!("{name}({args:x?})")),
            _ => None,
        })
        .collect()
}
pub struct Sides {
    pub reference: Outcome,
    pub instrumented: Outcome,
}
/// None: nothing to compare (inconclusive, or a deviation already reported)
pub fn both(c: &Case, r: &mut Rng, rep: &mut Report) -> Option<Sides> {
    sides(c, rep, |c| instrumented(&c.bytes, c.interface(r), c.targets.clone()))
}
pub fn sides(c: &Case, rep: &mut Report, weave: impl FnOnce(&Case) -> Result<(Vec<u8>, Option<Vec<u8>>), String>) -> Option<Sides> {
    let reference = match run_reference(&c.original, c.watch(), &c.policy, &c.script, c.depth) {
        Ok(o) => o,
        Err(e) => panic!("reference: {e}"),
    };
    if reference.inconclusive {
        rep.count("skipped: reference ran out of fuel or depth", 1);
        return None;
    }
    let (program, lib) = match weave(c) {
        Ok(x) => x,
        Err(e) => {
            rep.violation("instrumentation-failed", format!("instrumenting a valid program: {}\n{}", truncate(&e, 600), c.describe()));
            return None;
        }
    };
    for b in std::iter::once(&program).chain(&lib) {
        if let Err(e) = validate(b) {
            rep.violation("invalid-output", format!("invalid module: {e}\n{}", c.describe()));
            return None;
        }
    }
    let p = Rc::new(decode(&program).expect("valid"));
    let l = lib.map(|l| Rc::new(decode(&l).expect("valid")));
    match run_instrumented(&c.original, &p, l.as_ref(), &c.policy, &c.script, c.depth) {
        Ok(instrumented) => {
            if !instrumented.world.protocol.is_empty() {
                rep.violation("protocol", format!("{:?}\n{}", instrumented.world.protocol, c.describe()));
                return None;
            }
            Some(Sides { reference, instrumented })
        }
        Err(e) => {
            rep.violation("link", format!("{e}\n{}", c.describe()));
            None
        }
    }
}
fn short(t: &Result<Vec<u64>, Trap>) -> String {
    format!("{t:x?}")
}
pub fn compare(c: &Case, s: &Sides, a: Aspects, rep: &mut Report) -> bool {
    let (x, y) = (view(&s.reference.world.log, a), view(&s.instrumented.world.log, a));
    if let Some(k) = (0..x.len().max(y.len())).find(|k| x.get(*k) != y.get(*k)) {
        let from = k.saturating_sub(6);
        let head = |v: &Vec<String>| v.get(k).map_or("(end)".to_string(), |s| s.split(['(', ' ']).next().unwrap_or("").to_string());
        rep.violation(
            &format!("events:{}:{}", head(&x), head(&y)),
            format!(
                "event {k} differs\n  before: {:#?}\n  expected {:?}\n  observed {:?}\n  results {:?} vs {:?}\n{}",
                &x[from..k.min(x.len())],
                x.get(k),
                y.get(k),
                s.reference.results,
                s.instrumented.results,
                c.describe()
            ),
        );
        return false;
    }
    if a.observable {
        let n = s.reference.results.len().max(s.instrumented.results.len());
        for k in 0..n {
            let (x, y) = (s.reference.results.get(k), s.instrumented.results.get(k));
            if x != y {
                rep.violation(
                    "result",
                    format!("step {k} (0 is instantiation): expected {:?}, observed {:?}\n{}", x.map(short), y.map(short), c.describe()),
                );
                return false;
            }
        }
        if s.reference.states != s.instrumented.states || s.reference.state != s.instrumented.state {
            let k = (0..n).find(|k| s.reference.states[*k] != s.instrumented.states[*k]);
            let what = if s.reference.state.mems != s.instrumented.state.mems {
                "memory"
            } else if s.reference.state.globals != s.instrumented.state.globals {
                "globals"
            } else {
                "tables"
            };
            rep.violation(
                &format!("state:{what}"),
                format!(
                    "state after step {k:?} differs ({what} at the end)\n globals {:x?}\n vs      {:x?}\n{}",
                    s.reference.state.globals,
                    s.instrumented.state.globals,
                    c.describe()
                ),
            );
            return false;
        }
    }
    true
}
pub fn note(c: &Case, s: &Sides, rep: &mut Report) {
    let w = &s.reference.world;
    rep.count("events compared", w.log.len() as u64);
    rep.count("functions called through tables at the end", w.probes);
    rep.count("steps of the original", s.reference.store.steps);
    rep.count("steps of the instrumented", s.instrumented.store.steps);
    for e in &w.log {
        match e {
            Ev::Trap { name, .. } => rep.count(name, 1),
            Ev::Apply { import, .. } => rep.count(if *import { "apply of an import" } else { "apply" }, 1),
            Ev::Base { .. } => {}
            Ev::Host { .. } => rep.count("host call", 1),
        }
    }
    for r in &s.reference.results {
        match r {
            Ok(_) => rep.count("ends: result", 1),
            Err(t) => rep.count(&format!("ends: {}", format!("{t:?}").split('(').next().unwrap_or("")), 1),
        }
    }
    rep.count("answers altered", w.altered);
    if w.log.len() > 2 {
        rep.saw(&fnv(1, &w.log));
    }
    if rep.samples.is_empty() && w.log.len() > 3 {
        rep.samples.push(json!({
            "module_bytes": c.bytes.len(), "hooks": c.on.len(), "apply": c.apply, "targets": format!("{:?}", c.targets),
            "events": w.log.len(), "first": w.log.iter().take(4).map(|e| format!("{e:x?}")).collect::<Vec<_>>(),
            "results": s.reference.results.iter().map(short).collect::<Vec<_>>(),
        }));
    }
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "one observation = the host-call/event log of one program run to completion on both sides, with more than two entries".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let mut c = mixed_case(k, r, rep);
        c.apply |= r.chance(1, 3);
        if r.chance(1, 4) {
            c.targets = c.targets.take().or_else(|| Some(some_targets(r, &c.original)));
        }
        if r.chance(1, 10) {
            c.on.clear();
        }
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { observable: true, ..NONE }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "one observation = the event log of one program, equal on both sides, with more than two entries".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let mut c = mixed_case(k, r, rep);
        c.apply |= r.chance(1, 6);
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { events: true, applies: true, ..NONE }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "one observation = the sequence of (hook, function, instruction) of one program, equal on both sides".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let mut c = mixed_case(k, r, rep);
        c.apply |= r.chance(1, 6);
        if r.chance(1, 6) {
            c.targets = c.targets.take().or_else(|| Some(some_targets(r, &c.original)));
        }
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { locations: true, ..NONE }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "one observation = the sequence of (hook, function) of one program under one selection, equal on both sides".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let mut c = mixed_case(k, r, rep);
        c.apply |= r.chance(1, 3);
        if r.chance(7, 8) {
            c.targets = c.targets.take().or_else(|| Some(some_targets(r, &c.original)));
        }
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { functions: true, applies: true, observable: true, ..NONE }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "one observation = the event log of one program whose analysis alters answers, equal on both sides".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let mut c = mixed_case(k, r, rep);
        c.policy.alter = true;
        c.policy.cap = c.policy.cap.min(800);
        if r.chance(1, 4) && !c.on.is_empty() {
            let on: Vec<&'static str> = TRAPS.iter().filter(|t| c.on.contains(t.name)).map(|t| t.name).collect();
            c.policy.only = r.pick(&on[..]).to_owned().into();
        }
        c.apply |= r.chance(1, 6);
        c.policy.alter_apply = c.apply;
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { events: true, observable: true, applies: true, ..NONE }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
