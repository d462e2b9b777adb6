//! G04: what the three front ends ask for, for sets of hooks, against the contract of traps.rs.
use crate::asprog::*;
use crate::run::*;
use crate::traps::*;
use crate::weave::own_interface;
use serde_json::json;
use std::collections::HashSet;
use vcommon::*;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation_lang_rust::compile::options::RustSource;
use wastrumentation_lang_rust::compile::Rust;
use wastrumentation_lang_rust::generate::analysis as ru;
use wastrumentation_lang_webassembly::compile::options::WebAssemblySource;
use wastrumentation_lang_webassembly::compile::WebAssembly;
use wastrumentation_lang_webassembly::generate::analysis as wa;

macro_rules! hooks {
    ($m:ident: $($h:ident)*) => { [$((stringify!($h), $m::Hook::$h)),*] };
}
fn rust_hooks() -> [(&'static str, ru::Hook); 28] {
    hooks!(ru: GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf
        BranchTable Select Unary Binary Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost)
}
fn wasm_hooks() -> [(&'static str, wa::Hook); 28] {
    hooks!(wa: GenericApply CallPre CallPost CallIndirectPre CallIndirectPost IfThen IfThenPost IfThenElse IfThenElsePost Branch BranchIf
        BranchTable Select Unary Binary Drop Return Const Local Global Store Load MemorySize MemoryGrow BlockPre BlockPost LoopPre LoopPost)
}
fn wanted(hooks: &HashSet<&str>) -> AnalysisInterface {
    let on = TRAPS.iter().filter(|t| hooks.contains(t.hook)).map(|t| t.name).collect();
    own_interface(&on, hooks.contains("GenericApply"))
}
/// Where two interfaces differ; the namespace of the base call is not part of the contract.
fn differ(a: &AnalysisInterface, b: &AnalysisInterface) -> Option<String> {
    for t in &TRAPS {
        let (x, y) = (field_ref(a, t.field), field_ref(b, t.field));
        if x != y {
            return Some(format!("{}: {x:?}, expected {y:?}", t.field));
        }
    }
    let part = |i: &AnalysisInterface| {
        i.generic_interface.as_ref().map(|(e, m)| (e.name.clone(), format!("{:?}{:?}", e.args, e.results), m.name.clone(), format!("{:?}{:?}", m.args, m.results)))
    };
    let (x, y) = (part(a), part(b));
    (x != y).then(|| format!("generic_interface: {x:?}, expected {y:?}"))
}
fn hook_of(e: Ev) -> &'static str {
    match e {
        Ev::Apply => "GenericApply",
        Ev::IfThen => "IfThen",
        Ev::IfThenElse => "IfThenElse",
        Ev::Select => "Select",
        Ev::BrIf => "BranchIf",
        Ev::BrTable => "BranchTable",
        Ev::CallPre => "CallPre",
        Ev::CallPost => "CallPost",
        Ev::IndPre => "CallIndirectPre",
        Ev::IndPost => "CallIndirectPost",
        Ev::BlockPre => "BlockPre",
        Ev::BlockPost => "BlockPost",
        Ev::LoopPre => "LoopPre",
        Ev::LoopPost => "LoopPost",
    }
}
fn both(names: &HashSet<&str>, r: &mut Rng, rep: &mut Report) {
    rep.evals += 1;
    let want = wanted(names);
    let text = |front: &str, d: &str| {
        let mut n: Vec<_> = names.iter().collect();
        n.sort();
        format!("{front}, hooks {n:?}\n{d}")
    };
    // sets are built in some order
    let mut rh: Vec<ru::Hook> = rust_hooks().iter().filter(|(n, _)| names.contains(n)).map(|(_, h)| *h).collect();
    let mut wh: Vec<wa::Hook> = wasm_hooks().iter().filter(|(n, _)| names.contains(n)).map(|(_, h)| *h).collect();
    r.shuffle(&mut rh);
    r.shuffle(&mut wh);
    let rh: HashSet<ru::Hook> = rh.into_iter().collect();
    let wh: HashSet<wa::Hook> = wh.into_iter().collect();
    let src = format!("// {}\n", r.u64());
    let toml = format!("[package]\nname = \"a{}\"\n", r.u32());
    let got = guarded(|| {
        let p: ProcessedAnalysis<Rust> = ru::RustAnalysisSpec {
            source: RustSource::SourceCode(
                rust_to_wasm_compiler::WasiSupport::Disabled,
                wastrumentation_lang_rust::compile::options::ManifestSource(toml.clone()),
                wastrumentation_lang_rust::compile::options::RustSourceCode(src.clone()),
            ),
            hooks: rh.clone(),
        }
        .into();
        let kept = match &p.analysis_library {
            RustSource::SourceCode(_, m, s) => m.0 == toml && s.0 == src,
            _ => false,
        };
        let q: ProcessedAnalysis<WebAssembly> = wa::WasmAnalysisSpec { source: WebAssemblySource::Wat(src.clone()), hooks: wh.clone() }.into();
        let kept2 = matches!(&q.analysis_library, WebAssemblySource::Wat(s) if *s == src);
        (p.analysis_interface, q.analysis_interface, kept, kept2)
    });
    match got {
        Err(p) => rep.violation("panic", text("front end", &p)),
        Ok((a, b, kept, kept2)) => {
            for (front, i) in [("Rust", &a), ("WebAssembly", &b)] {
                if let Some(d) = differ(i, &want) {
                    rep.violation(&format!("hooks:{front}"), text(front, &d));
                }
            }
            if a != b {
                rep.violation("fronts-differ", text("Rust against WebAssembly", &format!("{:?}\n{:?}", a.generic_interface, b.generic_interface)));
            }
            if !kept || !kept2 {
                rep.violation("source", text("front end", "the analysis source was not carried through"));
            }
        }
    }
    rep.count("hook sets", 1);
    rep.count("hooks enabled", names.len() as u64);
    let mut n: Vec<_> = names.iter().collect();
    n.sort();
    rep.saw(&n);
}
pub fn g04(ctx: &mut Ctx) {
    ctx.rule = "one observation = one hook set (all front ends that can express it) compared field by field with the contract".into();
    let h = HOOKS.len();
    assert_eq!(HOOKS, rust_hooks().map(|(n, _)| n), "hook table");
    let pairs: Vec<(usize, usize)> = (0..h).flat_map(|a| (a..h).map(move |b| (a, b))).collect();
    let n = ctx.n(20_000, 400_000);
    // every set of at most two hooks, every set lacking at most two, random ones
    parallel(ctx, 1, n, |i, r, rep| {
        let i = i as usize;
        let mut s: HashSet<&str> = HashSet::new();
        if i < pairs.len() {
            s.extend([HOOKS[pairs[i].0], HOOKS[pairs[i].1]]);
        } else if i < 2 * pairs.len() {
            let (a, b) = pairs[i - pairs.len()];
            s.extend(HOOKS.iter().enumerate().filter(|(k, _)| *k != a && *k != b).map(|(_, n)| *n));
        } else if i == 2 * pairs.len() {
            s.extend(HOOKS);
        } else if i > 2 * pairs.len() + 1 {
            let p = r.range(1, 9);
            s.extend(HOOKS.iter().filter(|_| r.chance(p, 10)));
        }
        both(&s, r, rep);
    });
    // "all hooks" is all of them
    let all: HashSet<&str> = HOOKS.into_iter().collect();
    for (front, i) in [("Rust", ru::interface_from(&ru::Hook::all_hooks())), ("WebAssembly", wa::interface_from(&wa::Hook::all_hooks()))] {
        ctx.eval();
        if let Some(d) = differ(&i, &wanted(&all)) {
            ctx.violation(&format!("all-hooks:{front}"), &d);
        }
    }
    // hooks by name, as configuration files give them
    for (name, hook) in rust_hooks() {
        ctx.eval();
        match serde_json::from_value::<ru::Hook>(json!(name)) {
            Ok(h) if h == hook => {}
            other => ctx.violation("hook-name", &format!("{name} is read as {other:?}")),
        }
    }
    // aspects: every set of events
    let n = (1u64 << EVS.len()) + ctx.n(4_000, 100_000);
    parallel(ctx, 2, n, |i, r, rep| {
        let mut evs: Vec<Ev> = if i < 1 << EVS.len() {
            (0..EVS.len()).filter(|k| i >> k & 1 == 1).map(|k| EVS[k]).collect()
        } else {
            (0..r.range(1, 20)).map(|_| *r.pick(&EVS)).collect()
        };
        r.shuffle(&mut evs);
        let advices: Vec<Advice> = evs.iter().map(|e| Advice::random(*e, r)).collect();
        let globals: Vec<String> = (0..r.below(2)).map(|_| "// (advice br_if)".to_string()).collect();
        let source = aspect(r, &advices, &globals);
        rep.evals += 1;
        let names: HashSet<&str> = evs.iter().map(|e| hook_of(*e)).collect();
        match guarded(|| generate(&source)) {
            Ok(Ok((_, i))) => {
                if let Some(d) = differ(&i, &wanted(&names)) {
                    rep.violation("aspect", format!("{d}\naspect:\n{source}"));
                }
                let rust: HashSet<ru::Hook> = rust_hooks().iter().filter(|(n, _)| names.contains(n)).map(|(_, h)| *h).collect();
                if i != ru::interface_from(&rust) {
                    rep.violation("aspect-front", format!("the Rust front end asks for something else for {names:?}\naspect:\n{source}"));
                }
            }
            Ok(Err(e)) => rep.violation("aspect-refused", format!("{e}\naspect:\n{source}")),
            Err(p) => rep.violation("aspect-panic", format!("{p}\naspect:\n{source}")),
        }
        rep.count("aspects", 1);
        rep.count("advices", evs.len() as u64);
        rep.saw(&evs);
    });
    // specialised application is accepted by the aspect language
    let spe = format!("(aspect (advice apply (f WasmFunction) ((a I32)) ((b I32)) {OPEN}return a;{CLOSE}))");
    ctx.eval();
    if let Err(p) = guarded(|| generate(&spe)) {
        ctx.violation("specialised-apply", &format!("{p}\n{spe}"));
    }
}
