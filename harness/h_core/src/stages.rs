//! E01: what the pipeline asks of the compilers and of the merge tool, and what it answers.
use crate::encode::encode;
use crate::gen;
use crate::pipe::*;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use crate::weave::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use vcommon::*;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::Compiles;
use wastrumentation::error::{Error as PipelineError, InstrumentationError};
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};

const FAIL: &[u8] = b"%%MERGE-FAIL%%";
fn custom(name: &str, body: &[u8]) -> Vec<u8> {
    let mut m = b"\0asm\x01\0\0\0".to_vec();
    m.push(0);
    let mut size = 1 + name.len() + body.len();
    while size > 127 {
        m.push(size as u8 | 128);
        size >>= 7;
    }
    m.push(size as u8);
    m.push(name.len() as u8);
    m.extend(name.bytes());
    m.extend(body);
    m
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stage {
    Analysis,
    Parse,
    Types,
    Library,
    Merge,
}
const STAGES_ALL: [Stage; 5] = [Stage::Analysis, Stage::Parse, Stage::Types, Stage::Library, Stage::Merge];
/// a module whose first function does not type check
fn ill_typed(r: &mut Rng) -> Vec<u8> {
    let bodies = [
        "(func i32.add drop)",
        "(func (param i32) (result i32) local.get 0 i64.eqz)",
        "(func drop)",
        "(func (result i32) i32.const 1 f64.const 2 i32.add)",
        "(func i32.const 1 (if (then)) select drop)",
    ];
    wat::parse_str(format!("(module {})", r.pick(&bodies))).expect("text")
}
fn unreadable(r: &mut Rng, good: &[u8]) -> Vec<u8> {
    match r.below(5) {
        0 => vec![],
        1 => good[..r.below(good.len().min(8))].to_vec(),
        2 => {
            let mut m = good.to_vec();
            m[r.below(4)] ^= 1 + r.below(255) as u8;
            m
        }
        3 => {
            // a section that says it is longer than the file
            let mut m = b"\0asm\x01\0\0\0".to_vec();
            m.extend([1, 0x7f, 1]);
            m
        }
        _ => {
            let mut m = good.to_vec();
            m.truncate(8);
            m.extend((0..r.range(1, 30)).map(|_| 0xff));
            m
        }
    }
}
struct Run {
    input: Vec<u8>,
    analysis: Result<Vec<u8>, String>,
    on: std::collections::HashSet<&'static str>,
    apply: bool,
    targets: Option<Vec<u32>>,
    primary: Option<PrimaryTarget>,
    faults: BTreeSet<usize>,
    /// the unharmed program
    original: Option<Module>,
}
fn some_run(r: &mut Rng) -> Run {
    let o = gen::Opts { refs: r.bool(), size: *r.pick(&[4, 10, 25]), max_funcs: *r.pick(&[1, 3, 6]), ..Default::default() };
    let g = gen::module(r, &o);
    let good = encode(&g.module, &g.types);
    let original = decode(&good).expect("generated module");
    // an analysis may ask for one event, or none at all
    let few = r.chance(1, 5);
    let apply = r.chance(2, 3) && !few;
    let mut faults = BTreeSet::new();
    if r.chance(3, 5) {
        for (k, _) in STAGES_ALL.iter().enumerate() {
            if r.chance(1, 3) {
                faults.insert(k);
            }
        }
    }
    if faults.contains(&1) && faults.contains(&2) {
        faults.remove(&2);
    }
    let targets = match r.below(3) {
        0 => Some(some_targets(r, &original)),
        _ => None,
    };
    // a body that is not asked for is not looked at
    let targets = if faults.contains(&2) { r.bool().then(|| vec![0]) } else { targets };
    let input = if faults.contains(&1) {
        unreadable(r, &good)
    } else if faults.contains(&2) {
        ill_typed(r)
    } else {
        good
    };
    let mut body = b"analysis ".to_vec();
    let long = if r.chance(1, 100) { *r.pick(&[300, 5_000, 70_000, 1_500_000]) } else { 40 };
    body.extend((0..r.below(long)).map(|_| r.u32() as u8 & 0x7f));
    if faults.contains(&4) {
        body.extend(FAIL);
    }
    let analysis = if faults.contains(&0) { Err(format!("analysis refused {}", r.below(1000))) } else { Ok(custom("a", &body)) };
    Run {
        input,
        analysis,
        on: if few { (0..r.below(2)).map(|_| r.pick(&TRAPS).name).collect() } else { some_traps(r) },
        apply,
        targets,
        primary: *r.pick(&[None, Some(PrimaryTarget::Target), Some(PrimaryTarget::Analysis), Some(PrimaryTarget::Instrumentation)]),
        original: (!faults.contains(&1) && !faults.contains(&2)).then_some(original),
        faults,
    }
}
fn flags() -> Vec<&'static str> {
    vec!["--enable-bulk-memory", "--enable-multimemory", "--no-validation", "--rename-export-conflicts"]
}
fn linked(run: &Run, b: &Bundle, rep: &mut Report, show: &dyn Fn(String) -> String) {
    let target = b.part(NS_TARGET).expect("checked");
    let lib = b.part(NS_LIB);
    let original = run.original.as_ref().expect("unharmed");
    for m in std::iter::once(target).chain(lib) {
        if let Err(e) = validate(m) {
            return rep.violation("invalid", show(format!("a part is not a valid module: {e}")));
        }
    }
    let t = decode(target).expect("valid");
    let l = lib.map(|l| decode(l).expect("valid"));
    let mut foreign: BTreeMap<String, i64> = BTreeMap::new();
    let key = |m: &Module, i: &Import| format!("{} {} {:?} {:?}", i.module, i.name, i.kind, m.ext(i.kind, i.index));
    for i in &original.imports {
        *foreign.entry(key(original, i)).or_insert(0) += 1;
    }
    for i in &t.imports {
        let e = t.ext(i.kind, i.index);
        match i.module.as_str() {
            NS_ANALYSIS => {
                let want = if i.name == APPLY {
                    run.apply.then(|| FT::new(&APPLY_FT.0, &APPLY_FT.1))
                } else {
                    by_name(&i.name).filter(|t| run.on.contains(t.name)).map(|t| t.ft())
                };
                rep.count("links to the analysis", 1);
                if want.map(Ext::Func) != Some(e.clone()) {
                    return rep.violation("link-analysis", show(format!("the target imports {:?} {e:?} of the analysis, which its interface does not have", i.name)));
                }
            }
            NS_LIB => {
                let have = l.as_ref().and_then(|l| l.export(&i.name).map(|x| l.ext(x.kind, x.index)));
                rep.count("links to the library", 1);
                if have.as_ref() != Some(&e) {
                    return rep.violation("link-library", show(format!("the target imports {:?} {e:?} of the library, which has {have:?}", i.name)));
                }
            }
            _ => *foreign.entry(key(&t, i)).or_insert(0) -= 1,
        }
    }
    if let Some((k, n)) = foreign.iter().find(|(_, n)| **n != 0) {
        return rep.violation("imports", show(format!("imports of the program: {k} {}", if *n > 0 { "is gone" } else { "is new" })));
    }
    if let Some(l) = &l {
        for i in &l.imports {
            let e = l.ext(i.kind, i.index);
            let have = (i.module == NS_TARGET).then(|| t.export(&i.name).map(|x| t.ext(x.kind, x.index))).flatten();
            rep.count("links from the library", 1);
            if have.as_ref() != Some(&e) {
                return rep.violation("link-target", show(format!("the library imports {:?}.{:?} {e:?}, the target has {have:?}", i.module, i.name)));
            }
        }
    }
    if run.apply {
        let have = t.export(CALL_BASE).map(|x| t.ext(x.kind, x.index));
        if have != Some(Ext::Func(FT::new(&[VT::I32, VT::I32], &[]))) {
            return rep.violation("call-base", show(format!("an analysis with an application hook finds {CALL_BASE} as {have:?}")));
        }
    }
}
fn judge(run: &Run, got: Result<Result<Vec<u8>, Error>, String>, rep: &mut Report, merges: &AtomicU64, show: &dyn Fn(String) -> String) {
    let asked = STAGES.with(|s| s.borrow().clone());
    let compiled = COMPILED.with(|s| s.borrow_mut().take());
    let first = run.faults.iter().map(|k| STAGES_ALL[*k]).find(|s| *s != Stage::Library || run.apply);
    let got = match got {
        Ok(g) => g,
        Err(p) => return rep.violation("panic", show(format!("panicked: {p}"))),
    };
    rep.count(&format!("first failing stage: {}", first.map_or("none".into(), |f| format!("{f:?}"))), 1);
    let through = |k: usize| -> Vec<&str> {
        let mut v = vec!["compile analysis"];
        if run.apply && k > 0 {
            v.extend(["generate library", "compile library"]);
        }
        v
    };
    let want = match first {
        Some(Stage::Analysis | Stage::Parse | Stage::Types) => through(0),
        _ => through(1),
    };
    if asked != want {
        return rep.violation("stages", show(format!("the compilers were asked {asked:?}, expected {want:?}")));
    }
    if matches!(first, None | Some(Stage::Merge)) {
        merges.fetch_add(1, Ordering::Relaxed);
    }
    let answer = match &got {
        Ok(b) => format!("a module of {} bytes", b.len()),
        Err(e) => format!("{e:?}"),
    };
    let fine = match (&first, &got) {
        (None, Ok(_)) => true,
        (Some(Stage::Analysis), Err(PipelineError::CompilationErrorAnalysis(c))) => Err(c.reason().to_string()) == run.analysis.as_ref().map(|_| ()).map_err(Clone::clone),
        (Some(Stage::Parse), Err(PipelineError::InstrumentationError(InstrumentationError::ParseModuleError(_)))) => true,
        (Some(Stage::Types), Err(PipelineError::InstrumentationError(InstrumentationError::LowToHighError { .. }))) => true,
        (Some(Stage::Library), Err(PipelineError::CompilationErrorInstrumentation(c))) => c.reason() == LIBRARY_REFUSED,
        (Some(Stage::Merge), Err(PipelineError::MergeError(m))) => m.to_string().contains("refused by the stand-in"),
        _ => false,
    };
    if !fine {
        return rep.violation("answer", show(format!("expected {first:?} to fail, the answer is {answer}")));
    }
    let Ok(out) = got else { return };
    let Some(b) = parse_bundle(&out) else {
        return rep.violation("result", show("the answer is not what the merge tool produced".into()));
    };
    let names: Vec<&str> = b.parts.iter().map(|(n, _)| n.as_str()).collect();
    let mut sorted = names.clone();
    sorted.sort_unstable();
    let mut want = vec![NS_ANALYSIS, NS_TARGET];
    if run.apply {
        want.push(NS_LIB);
    }
    want.sort_unstable();
    if sorted != want {
        return rep.violation("parts", show(format!("merged {names:?}, expected {want:?} in some order")));
    }
    // the first module keeps memory 0 and the names of its exports
    let head = match run.primary {
        None | Some(PrimaryTarget::Target) => Some(NS_TARGET),
        Some(PrimaryTarget::Analysis) => Some(NS_ANALYSIS),
        Some(PrimaryTarget::Instrumentation) => run.apply.then_some(NS_LIB),
    };
    if head.is_some_and(|h| names[0] != h) {
        return rep.violation("primary", show(format!("primary {:?}, but the order is {names:?}", run.primary)));
    }
    let mut f: Vec<&str> = b.flags.iter().map(|f| f.as_str()).filter(|f| !f.is_empty()).collect();
    f.sort_unstable();
    for need in flags() {
        if !f.contains(&need) {
            return rep.violation("flags", show(format!("the merge tool was called with {f:?}, without {need}")));
        }
    }
    if b.part(NS_ANALYSIS) != run.analysis.as_ref().ok().map(|a| &a[..]) {
        return rep.violation("analysis", show("the analysis merged is not what its compiler answered".into()));
    }
    if b.part(NS_LIB) != compiled.as_deref() {
        return rep.violation("library", show("the library merged is not what its compiler answered".into()));
    }
    rep.count("merged", 1);
    rep.count(&format!("merged with primary {:?}", run.primary), 1);
    linked(run, &b, rep, show);
}
fn languages(r: &mut Rng, rep: &mut Report) {
    use wastrumentation::compiler::DefaultCompilerOptions;
    use wastrumentation_lang_assemblyscript::compile::{compiler as asc, options as ascopt};
    use wastrumentation_lang_webassembly::compile::{compiler as wac, options as waopt};
    rep.evals += 1;
    let text: String = (0..r.below(40)).map(|_| *r.pick(&['a', '(', ')', ';', '\n', '"', '\\', 'é', ' ', '0'])).collect();
    let (what, want, got): (String, Result<Vec<u8>, String>, Result<Result<Vec<u8>, String>, String>) = match r.below(6) {
        4 | 5 => {
            use wastrumentation_lang_rust::compile::{compiler as rsc, options as rso};
            let wasi = if r.bool() { rso::WasiSupport::Enabled } else { rso::WasiSupport::Disabled };
            let profile = if r.bool() { rso::Profile::Release } else { rso::Profile::Dev };
            let fails = r.chance(1, 3);
            let text = if fails { format!("fails:{text}") } else { text };
            let more = format!("{}", r.u32());
            let (source, want) = if r.bool() {
                (rso::RustSource::SourceCode(wasi, rso::ManifestSource(more.clone()), rso::RustSourceCode(text.clone())), format!("source {wasi:?} {profile:?} {more} {text}"))
            } else {
                (rso::RustSource::Manifest(wasi, text.clone().into()), format!("manifest {wasi:?} {profile:?} {text}"))
            };
            let want = if fails { Err(want) } else { Ok(want.into_bytes()) };
            let c = <rsc::Compiler as Compiles<wastrumentation_lang_rust::compile::Rust>>::setup_compiler().expect("setup");
            let o = rso::CompilerOptions { source, profile };
            (format!("{want:?}"), want, guarded(|| Compiles::compile(&c, &o).map_err(|e| e.reason().to_string())))
        }
        0 => {
            // a module is taken as it is
            let module: Vec<u8> = (0..r.below(300)).map(|_| r.below(256) as u8).collect();
            let source = waopt::WebAssemblySource::Module(module.clone());
            let c = <wac::Compiler as Compiles<_>>::setup_compiler().expect("setup");
            ("module".into(), Ok(module), guarded(|| c.compile(&waopt::CompilerOptions::default_for(source)).map_err(|e| e.reason().to_string())))
        }
        1 => {
            let n = r.below(1 << 31) as i32;
            let (source, want) = if r.bool() {
                let mut w = vec![0, b'a', b's', b'm', 1, 0, 0, 0, 1, 5, 1, 0x60, 0, 1, 0x7f, 3, 2, 1, 0, 10];
                let mut leb = vec![];
                let mut v = i64::from(n);
                while !(-64..64).contains(&v) {
                    leb.push((v & 127) as u8 | 128);
                    v >>= 7;
                }
                leb.push((v & 127) as u8);
                w.extend([leb.len() as u8 + 5, 1, leb.len() as u8 + 3, 0, 0x41]);
                w.extend(leb);
                w.push(0x0b);
                (format!("(module (func (result i32) i32.const {n}))"), Ok(w))
            } else {
                (format!("(module (func (result i32) i32.const {n})"), Err(String::new()))
            };
            let c = <wac::Compiler as Compiles<_>>::setup_compiler().expect("setup");
            let o = waopt::CompilerOptions::default_for(waopt::WebAssemblySource::Wat(source.clone()));
            (source, want, guarded(|| c.compile(&o).map_err(|e| if e.reason().is_empty() { "no reason".into() } else { String::new() })))
        }
        k => {
            let source = if k == 2 { format!("fails:{text}") } else { text.clone() };
            let want = if k == 2 { Err(text) } else { Ok(format!("compiled {source}").into_bytes()) };
            let c = <asc::Compiler as Compiles<wastrumentation_lang_assemblyscript::compile::AssemblyScript>>::setup_compiler().expect("setup");
            let o = <ascopt::CompilerOptions as DefaultCompilerOptions<wastrumentation_lang_assemblyscript::compile::AssemblyScript>>::default_for(source.clone());
            (source, want, guarded(|| Compiles::compile(&c, &o).map_err(|e| e.reason().to_string())))
        }
    };
    rep.saw(&what);
    rep.count("sources given to the languages' compilers", 1);
    if got.as_ref() != Ok(&want) {
        rep.violation("language-compiler", format!("{what:?} gives {got:?}, not {want:?}"));
    }
}

pub fn e01(ctx: &mut Ctx, tool: &Tool) {
    ctx.rule = "one observation = one wastrument call, in a history of calls on one wastrumenter; the requests to both compilers and to the merge tool, and the answer, compared with the contract".into();
    let log = tool.dir().join("merge-calls");
    std::env::set_var("VERIF_MERGE_LOG", &log);
    let merges = AtomicU64::new(0);
    let n = ctx.n(4_000, 60_000);
    parallel(ctx, 1, n, |_, r, rep| {
        let w = Wastrumenter::new(
            Box::new(LibCompiler::setup_compiler().expect("setup")),
            Box::new(AnalysisCompiler::setup_compiler().expect("setup")),
        );
        let len = if r.chance(1, 60) { r.range(5, 40) } else { r.range(1, 4) };
        for k in 0..len {
            let run = some_run(r);
            STAGES.with(|v| v.borrow_mut().clear());
            COMPILED.with(|v| *v.borrow_mut() = None);
            FAIL_LIB.with(|f| *f.borrow_mut() = run.faults.contains(&3));
            let interface = match r.below(3) {
                0 => repo_interface(&run.on, run.apply, r.bool()),
                _ => own_interface(&run.on, run.apply),
            };
            let config = Configuration { target_indices: run.targets.clone(), primary_selection: run.primary };
            let processed = ProcessedAnalysis { analysis_library: run.analysis.clone(), analysis_interface: interface };
            let got = guarded(|| w.wastrument(&run.input, processed, &config));
            FAIL_LIB.with(|f| *f.borrow_mut() = false);
            let show = |what: String| {
                let failing: Vec<_> = run.faults.iter().map(|k| STAGES_ALL[*k]).collect();
                format!(
                    "{what}\ncall {} of {len}, failing stages {failing:?}, application hook {}, primary {:?}, targets {:?}, hooks {}\ninput {:02x?}",
                    k + 1, run.apply, run.primary, run.targets, run.on.len(), run.input
                )
            };
            rep.evals += 1;
            rep.saw(&(&run.input, &run.faults, run.apply, format!("{:?}{:?}", run.primary, run.targets)));
            judge(&run, got, rep, &merges, &show);
            if rep.samples.is_empty() {
                rep.samples.push(json!({"calls": len, "failing": run.faults.len(), "apply": run.apply, "primary": format!("{:?}", run.primary)}));
            }
        }
        rep.most("max calls on one wastrumenter", len as u64);
    });
    // the compilers of the languages, for what a pipeline may hand them
    asc_compiler_rs::set_hook(Box::new(|source| match source.strip_prefix("fails:") {
        Some(why) => Err(why.to_string()),
        None => Ok(format!("compiled {source}").into_bytes()),
    }));
    rust_to_wasm_compiler::set_hook(Box::new(|r| {
        use rust_to_wasm_compiler::Request::*;
        let (text, fails) = match r {
            Source { wasi, manifest, source, profile } => (format!("source {wasi:?} {profile:?} {manifest} {source}"), source.starts_with("fails:")),
            Manifest { wasi, path, profile } => (format!("manifest {wasi:?} {profile:?} {}", path.display()), path.display().to_string().starts_with("fails:")),
        };
        if fails { Err(text) } else { Ok(text.into_bytes()) }
    }));
    parallel(ctx, 2, 800, |_, r, rep| languages(r, rep));
    // the tool ran exactly for the calls that reached it
    let ran = std::fs::read(&log).map_or(0, |b| b.len() as u64);
    let want = merges.load(Ordering::Relaxed);
    ctx.count("runs of the merge tool", ran);
    if !ctx.violated() && !ctx.out_of_time() && ran != want {
        ctx.violation("merge-runs", &format!("{want} calls came to the merge, the tool ran {ran} times"));
    }
}
