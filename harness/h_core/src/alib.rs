//! A01, A02: analyses written with the Rust analysis library, compiled and linked with the program.
use crate::analysis::*;
use crate::gen::interesting;
use crate::interp::*;
use crate::pipe::instrumented;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use crate::weave::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use vcommon::*;

const LIBRARY: &str = "wastrumentation-instr-lib/tests/analyses/rust/wastrumentation-rs-stdlib";
/// the library reports locations as (instruction, function): known, see `a01`
pub static SWAPPED: AtomicBool = AtomicBool::new(false);
const RECORDER: &str = "verif";

/// What the recording analysis was told to answer, and the applications it is in.
#[derive(Default, Clone)]
pub struct Recorder {
    value: u64,
    ptr: u64,
    offset: u64,
    times: u64,
    exact: bool,
    pub applications: Vec<Open>,
}
#[derive(Clone)]
pub struct Open {
    idx: u64,
    import: bool,
    ft: FT,
    args: Vec<u64>,
    style: u64,
    plan: Option<(Application, u64)>,
    answer: Vec<u64>,
}
fn coded(c: u64) -> Option<VT> {
    [VT::I32, VT::F32, VT::I64, VT::F64].get(c as usize).copied()
}
fn code(t: VT) -> u64 {
    [VT::I32, VT::F32, VT::I64, VT::F64].iter().position(|x| *x == t).unwrap_or(9) as u64
}
impl World {
    pub fn on_recorder(&mut self, name: &str, a: &[u64]) -> Res<Vec<u64>> {
        let narrow = |t: VT, v: u64| if matches!(t, VT::I32 | VT::F32) { v & 0xffff_ffff } else { v };
        match name {
            "report" => return self.on_report(a).map(|k| vec![k]),
            "value" => return Ok(vec![self.recorder.value]),
            "ptr" => return Ok(vec![self.recorder.ptr]),
            "offset" => return Ok(vec![self.recorder.offset]),
            "times" => return Ok(vec![self.recorder.times]),
            // an operator that gives a NaN may choose which, unless it only moves bits
            "computed" => {
                let r = &self.recorder;
                let nan = if a[0] == 1 { f32::from_bits(a[1] as u32).is_nan() } else { f64::from_bits(a[1]).is_nan() };
                if r.times != a[0] || if r.exact { a[1] != r.value } else { !nan } {
                    let m = format!("the operator gives {:x} (type {}) for {:x}", a[1], a[0], r.value);
                    return Err(self.wrong(m));
                }
                return Ok(vec![]);
            }
            "wrong" => {
                const WHAT: [&str; 10] = [
                    "", "continuation: is_then/is_else", "condition: is_then/is_else", "base_memory_size is not the size the advice got",
                    "is_imported/is_present", "counts of arguments and results", "get_arg is not what args_iter gave", "length of args_iter",
                    "get_res is not what ress_iter gave", "length of ress_iter",
                ];
                let w = WHAT.get(a[0] as usize).unwrap_or(&"?");
                return Err(self.wrong(format!("inside the analysis: {w} ({:x}, {:x})", a[1], a[2])));
            }
            "apply_begin" => {
                if a[2] > 4096 || a[3] > 4096 {
                    return Err(self.wrong(format!("apply with {} arguments and {} results", a[2], a[3])));
                }
                self.recorder.applications.push(Open {
                    idx: a[0],
                    import: a[1] != 0,
                    ft: FT::default(),
                    args: vec![],
                    style: 0,
                    plan: None,
                    answer: vec![],
                });
                return Ok(vec![]);
            }
            _ => {}
        }
        let Some(mut o) = self.recorder.applications.pop() else { return Err(self.wrong(format!("{name} outside an application"))) };
        let mut out = vec![];
        match name {
            "apply_type" => {
                let Some(t) = coded(a[2]) else { return Err(self.wrong(format!("type {}", a[2]))) };
                let v = if a[0] == 1 { &mut o.ft.params } else { &mut o.ft.results };
                if v.len() as u64 != a[1] {
                    return Err(self.wrong(format!("type of slot {} after {} others", a[1], v.len())));
                }
                v.push(t);
            }
            "apply_arg" => {
                let k = a[0] as usize;
                if o.args.len() != k || o.ft.params.get(k).map(|t| code(*t)) != Some(a[1]) {
                    return Err(self.wrong(format!("argument {k} of type {} in {:?}", a[1], o.ft)));
                }
                o.args.push(a[2]);
            }
            "apply_go" => {
                let p = self.apply_plan(o.idx, &o.ft, &o.args, o.import)?;
                o.style = fnv(self.policy.seed, (o.idx, self.log.len(), 5u8)) % 3;
                out.push(p.times);
                o.plan = Some((p, self.apply_depth));
            }
            "apply_style" => out.push(o.style),
            "new_arg" | "base_result" | "base_done" | "apply_after" => {
                let Some((p, depth)) = &mut o.plan else { return Err(self.wrong(format!("{name} too early"))) };
                match name {
                    "new_arg" => match p.args.get(a[0] as usize) {
                        Some(v) => out.push(*v),
                        None => return Err(self.wrong(format!("argument {} of {:?}", a[0], o.ft))),
                    },
                    "base_result" => {
                        let k = a[0] as usize;
                        if k == 0 {
                            p.base.clear();
                        }
                        if p.base.len() != k || o.ft.results.get(k).map(|t| code(*t)) != Some(a[1]) {
                            return Err(self.wrong(format!("result {k} of type {} in {:?}", a[1], o.ft)));
                        }
                        p.base.push(a[2]);
                    }
                    "base_done" => {
                        self.apply_depth = *depth;
                        let e = Ev::Base { idx: o.idx, results: p.base.clone() };
                        self.push(e)?;
                    }
                    _ => {
                        let d = *depth;
                        o.answer = self.apply_answer(p, d);
                    }
                }
            }
            "new_result" => {
                let k = a[0] as usize;
                let (Some(v), Some(t)) = (o.answer.get(k), o.ft.results.get(k)) else {
                    return Err(self.wrong(format!("result {k} of {:?}", o.ft)));
                };
                out.push(narrow(*t, *v));
            }
            "apply_end" => return Ok(out),
            x => return Err(self.wrong(format!("unknown import {x}"))),
        }
        self.recorder.applications.push(o);
        Ok(out)
    }
    fn on_report(&mut self, a: &[u64]) -> Res<u64> {
        let (kind, ty, ty2, op) = (a[0], coded(a[1]), coded(a[2]), a[3]);
        let v = &a[4..8];
        let low = |t: Option<VT>| t.map_or("?", |t| t.low());
        let plain: [(&str, usize); 27] = [
            ("specialized_call_pre", 1), ("specialized_call_post", 1), ("specialized_call_indirect_pre", 2),
            ("specialized_call_indirect_post", 1), ("specialized_br", 1), ("specialized_if_then_else_k", 3), ("specialized_if_then_k", 3),
            ("trap_if_then_else_post", 0), ("trap_if_then_post", 0), ("specialized_br_if", 2), ("specialized_br_table", 3),
            ("specialized_select", 1), ("", 0), ("", 0), ("drop_trap", 0), ("return_trap", 0), ("", 0), ("", 0), ("", 0), ("", 0), ("", 0),
            ("trap_memory_size", 2), ("trap_memory_grow", 2), ("trap_block_pre", 2), ("trap_block_post", 0), ("trap_loop_pre", 2),
            ("trap_loop_post", 0),
        ];
        let mut answer = None;
        let (name, mut args) = match kind {
            12 if (1..=60).contains(&op) && ty == Some(unary_type(op as u8).0) => {
                answer = Some(unary_type(op as u8).1);
                (unary_trap(op as u8).to_string(), vec![v[0], op])
            }
            13 if (1..=76).contains(&op) && ty == Some(binary_type(op as u8).0) && ty2 == ty => {
                answer = Some(binary_type(op as u8).1);
                (binary_trap(op as u8).to_string(), vec![v[0], v[1], op])
            }
            16 => (format!("trap_const_{}", low(ty)), vec![v[0]]),
            17 if op < 3 => (format!("trap_local_{}_{}", ["get", "set", "tee"][op as usize], low(ty)), vec![v[0], v[1]]),
            18 if op < 2 => (format!("trap_global_{}_{}", ["get", "set"][op as usize], low(ty)), vec![v[0], v[1]]),
            19 if (1..=14).contains(&op) => {
                answer = Some(load_type(op as u8));
                (format!("trap_{}_load", load_type(op as u8).low()), vec![v[0], v[1], op])
            }
            20 if (1..=9).contains(&op) && ty == Some(store_type(op as u8)) => (format!("trap_{}_store", low(ty)), vec![v[0], v[1], v[2], op]),
            k if k < 27 && !plain[k as usize].0.is_empty() => (plain[k as usize].0.to_string(), v[..plain[k as usize].1].to_vec()),
            _ => return Err(self.wrong(format!("advice {kind} was told {a:x?}"))),
        };
        let Some(t) = by_name(&name) else { return Err(self.wrong(format!("advice {kind} as {name}"))) };
        args.extend(if SWAPPED.load(Relaxed) { [a[9], a[8]] } else { [a[8], a[9]] });
        let plan = self.plan(t, &args)?;
        let r = &mut self.recorder;
        r.times = answer.map_or(0, code);
        let nan = |v: u64| match answer {
            Some(VT::F32) => f32::from_bits(v as u32).is_nan(),
            Some(VT::F64) => f64::from_bits(v).is_nan(),
            _ => false,
        };
        if let (Plan::Default, 12 | 13) = (plan, kind) {
            let (value, name) = match kind {
                12 => (unary(op as u8, args[0]), UNARY[op as usize - 1]),
                _ => (binary(op as u8, args[0], args[1]), BINARY[op as usize - 1]),
            };
            if let Ok(x) = value {
                if nan(x) {
                    r.value = x;
                    r.exact = ["Abs", "Neg", "Copysign", "Reinterpret"].iter().any(|n| name.contains(n));
                    return Ok(5);
                }
            }
        }
        Ok(match plan {
            Plan::Default => 0,
            Plan::Answer(v) => {
                r.value = v;
                1
            }
            Plan::Load { ptr, off } => {
                (r.ptr, r.offset) = (ptr, off);
                2
            }
            Plan::Store { ptr, v, times } => {
                (r.ptr, r.value, r.times) = (ptr, v, times);
                3
            }
            Plan::Grow0 => 4,
        })
    }
}

/// Program, library and analysis in one store.
pub fn run_linked(
    original: &Rc<Module>,
    program: &Rc<Module>,
    lib: Option<&Rc<Module>>,
    analysis: &Rc<Module>,
    policy: &Policy,
    script: &[Call],
    depth: usize,
) -> Result<Outcome, String> {
    let mut s = Store::new(policy.fuel() * 4000, depth * 40 + 100);
    let mut w = World::new(policy.clone(), false, entries(original));
    let mut env = Env { made: HashMap::new() };
    if let Some(l) = lib {
        let id = s.allocate(l.clone(), |_, im, _| Err(format!("the library imports {}.{}", im.module, im.name)), None)?;
        s.start(&mut NoHost, id).map_err(|t| format!("library start: {t:?}"))?;
        w.lib = Some(id);
    }
    let lib_id = w.lib;
    let typed = |s: &Store, a: Option<Addr>, want: &Ext| match (a, want) {
        (Some(Addr::Func(f)), Ext::Func(ft)) if s.funcs[f].ty == *ft => Ok(Addr::Func(f)),
        (None, _) => Err("is not exported".to_string()),
        _ => Err("has another type".to_string()),
    };
    let main = s.allocate(
        program.clone(),
        |s, im, want| match im.module.as_str() {
            NS_LIB => typed(s, lib_id.and_then(|l| s.export(l, &im.name)), want).map_err(|e| format!("library: {} {e}", im.name)),
            NS_ANALYSIS => {
                let Ext::Func(ft) = want else { return Err(format!("analysis import {}", im.name)) };
                let have = analysis.export(&im.name).map(|x| analysis.ext(x.kind, x.index));
                if have.as_ref() != Some(want) {
                    return Err(format!("analysis: {} is {have:?}, imported as {want:?}", im.name));
                }
                w.hosts.push(HostFn::Compiled(im.name.clone()));
                Ok(Addr::Func(s.host_func(ft.clone(), w.hosts.len() - 1)))
            }
            _ => env.resolve(&mut w, s, im, want),
        },
        None,
    )?;
    w.main = main;
    let a = s.allocate(
        analysis.clone(),
        |s, im, want| {
            let Ext::Func(ft) = want else { return Err(format!("the analysis imports {}.{} as {want:?}", im.module, im.name)) };
            let from = match im.module.as_str() {
                NS_TARGET => Some(main),
                NS_LIB => lib_id,
                RECORDER => {
                    w.hosts.push(HostFn::Recorder(im.name.clone()));
                    return Ok(Addr::Func(s.host_func(ft.clone(), w.hosts.len() - 1)));
                }
                _ => None,
            };
            match typed(s, from.and_then(|i| s.export(i, &im.name)), want) {
                Ok(a) => Ok(a),
                // it may be that nothing needs it
                Err(e) if e == "is not exported" => {
                    w.hosts.push(HostFn::Missing(format!("{}.{}", im.module, im.name)));
                    Ok(Addr::Func(s.host_func(ft.clone(), w.hosts.len() - 1)))
                }
                Err(e) => Err(format!("{}.{} {e}", im.module, im.name)),
            }
        },
        None,
    )?;
    s.start(&mut NoHost, a).map_err(|t| format!("analysis start: {t:?}"))?;
    w.analysis = Some(a);
    s.roomy = s.insts[a].mems.clone();
    Ok(play(w, s, original, script))
}

// ---------------------------------------------------------------- building
fn vendor() -> PathBuf {
    let root = Command::new("rustc").args(["+nightly", "--print", "sysroot"]).output().expect("nightly rustc");
    PathBuf::from(String::from_utf8_lossy(&root.stdout).trim()).join("lib/rustlib/src/rust/library/vendor")
}
fn libm() -> PathBuf {
    let home = std::env::var("CARGO_HOME").unwrap_or_else(|_| format!("{}/.cargo", std::env::var("HOME").unwrap_or("/root".into())));
    for index in std::fs::read_dir(Path::new(&home).join("registry/src")).into_iter().flatten().flatten() {
        for c in std::fs::read_dir(index.path()).into_iter().flatten().flatten() {
            if c.file_name().to_string_lossy().starts_with("libm-0.2") {
                return c.path();
            }
        }
    }
    eprintln!("no libm in the cargo cache");
    std::process::exit(3);
}
/// Compiles the crate in `dir`.
pub fn build(verif: &Path, dir: &Path, target: &Path, std: bool) -> Result<Vec<u8>, String> {
    let out = dir.join("out");
    let path = |p: &Path| format!("{:?}", p.display().to_string());
    let mut command = Command::new("cargo");
    command
        .args(["+nightly", "build", "--offline", "--release", "-Zunstable-options", "--target", "wasm32-unknown-unknown"])
        .arg(if std { "-Zbuild-std=std,panic_abort" } else { "-Zbuild-std=core,alloc" })
        .arg("--artifact-dir")
        .arg(&out)
        .arg("--target-dir")
        .arg(target)
        .args(["--config", "source.crates-io.replace-with=\"v\""])
        .arg("--config")
        .arg(format!("source.v.directory={}", path(&vendor())))
        .arg("--config")
        .arg(format!("patch.crates-io.libm.path={}", path(&libm())));
    for c in ["wee_alloc", "strum", "enum-collections", "circular-buffer"].iter().take(if std { 4 } else { 1 }) {
        command.arg("--config").arg(format!("patch.crates-io.{c}.path={}", path(&verif.join("harness/h_core/standin").join(c))));
    }
    let o = command
        .current_dir(dir)
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .output()
        .expect("cargo");
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Err(e.find("\nerror").map_or(e.clone(), |i| e[i + 1..].to_string()));
    }
    let wasm = std::fs::read_dir(&out).into_iter().flatten().flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "wasm"));
    wasm.map(|p| std::fs::read(p).expect("module")).ok_or_else(|| "the build left no module".into())
}
fn recorder(ctx: &Ctx, repo: &Path, work: &Path) -> Result<Vec<u8>, String> {
    let from = ctx.verif.join("harness/h_core/standin/recorder");
    let read = |n: &str| std::fs::read_to_string(from.join(n)).expect("recorder");
    let arms = |ty: &str, names: &[&str]| {
        let mut s = String::new();
        for (i, n) in names.iter().enumerate() {
            s.push_str(&format!("        {ty}::{n} => {},\n", i + 1));
        }
        s
    };
    let source = read("lib.rs")
        .replace("//UNARY", &arms("UnaryOperator", &UNARY))
        .replace("//BINARY", &arms("BinaryOperator", &BINARY))
        .replace("//LOAD", &arms("LoadOperation", &LOADS))
        .replace("//STORE", &arms("StoreOperation", &STORES));
    let dir = work.join("recorder");
    std::fs::create_dir_all(dir.join("src")).expect("dir");
    std::fs::write(dir.join("src/lib.rs"), source).expect("write");
    std::fs::write(dir.join("Cargo.toml"), read("Cargo.toml.in").replace("@STDLIB@", &repo.join(LIBRARY).display().to_string())).expect("write");
    build(&ctx.verif, &dir, &work.join("target"), false)
}
pub fn work(ctx: &Ctx) -> PathBuf {
    let w = ctx.verif.join("work").join(format!("alib-{}-{}", ctx.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&w);
    std::fs::create_dir_all(&w).expect("work");
    w
}

// ---------------------------------------------------------------- A01
/// The library and the interpreter need not name a trap alike.
pub fn only_whether(o: &mut Outcome) {
    for r in &mut o.results {
        if let Err(t) = r {
            if !matches!(t, Trap::Host(_) | Trap::Fuel | Trap::Depth) {
                *t = Trap::Unreachable;
            }
        }
    }
}
pub fn linked(c: &Case, interface: wastrumentation::analysis::AnalysisInterface, analysis: &Rc<Module>, rep: &mut Report, skip: impl FnOnce(&Outcome) -> bool) -> Option<Sides> {
    let mut reference = match run_reference(&c.original, c.watch(), &c.policy, &c.script, c.depth) {
        Ok(o) => o,
        Err(e) => panic!("reference: {e}"),
    };
    if reference.inconclusive {
        rep.count("skipped: reference ran out of fuel or depth", 1);
        return None;
    }
    if skip(&reference) {
        rep.count("skipped: not for this analysis", 1);
        return None;
    }
    let (program, lib) = match instrumented(&c.bytes, interface, c.targets.clone()) {
        Ok(x) => x,
        Err(e) => {
            rep.violation("instrumentation-failed", format!("instrumenting a valid program: {}\n{}", truncate(&e, 600), c.describe()));
            return None;
        }
    };
    let p = Rc::new(decode(&program).expect("valid"));
    let l = lib.map(|l| Rc::new(decode(&l).expect("valid")));
    match run_linked(&c.original, &p, l.as_ref(), analysis, &c.policy, &c.script, c.depth) {
        Ok(mut o) => {
            if !o.world.protocol.is_empty() {
                rep.violation("library", format!("{:?}\n{}", o.world.protocol, c.describe()));
                return None;
            }
            only_whether(&mut reference);
            only_whether(&mut o);
            Some(Sides { reference, instrumented: o })
        }
        Err(e) => {
            rep.violation("link", format!("{e}\n{}", c.describe()));
            None
        }
    }
}
/// One drop in function 2 at place 1: which number does the library call which?
fn location_order(analysis: &Rc<Module>) -> Result<(u64, u64), String> {
    let bytes = wat::parse_str("(module (func) (func) (func (export \"f\") (drop (i32.const 5))))").expect("probe");
    let original = Rc::new(decode(&bytes).expect("probe"));
    let on = ["drop_trap"].into_iter().collect();
    let (program, _) = instrumented(&bytes, repo_interface(&on, false, true), None)?;
    let script = [Call { export: "f".into(), ty: FT::default(), args: vec![] }];
    let policy = Policy { cap: 100, ..Default::default() };
    let o = run_linked(&original, &Rc::new(decode(&program)?), None, analysis, &policy, &script, 40)?;
    match o.world.log[..] {
        [Ev::Trap { at, .. }] => Ok(at),
        _ => Err(format!("the probe logged {:?}, {:?}", o.world.log, o.world.protocol)),
    }
}
pub fn share(b: &[u8]) -> Result<Module, String> {
    validate(b)?;
    decode(b)
}

pub fn a01(ctx: &mut Ctx) {
    HANG_AFTER.store(250, Relaxed);
    ctx.rule = "one observation = the sequence of advices (with values, places and applications) that an analysis written with the Rust library saw in one program, equal to what the program did".into();
    let dir = work(ctx);
    let repo = PathBuf::from(std::env::var("VERIF_REPO").unwrap_or("/repo".into()));
    label("compiling the recording analysis".into());
    let built = recorder(ctx, &repo, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    let bytes = match built.and_then(|b| share(&b).map(|_| b)) {
        Ok(b) => b,
        Err(e) => return ctx.violation("library-does-not-compile", &format!("an analysis with every advice: {}", truncate(&e, 4000))),
    };
    ctx.count("bytes of the analysis", bytes.len() as u64);
    match location_order(&Rc::new(share(&bytes).expect("valid"))) {
        Ok((2, 1)) => {}
        Ok((1, 2)) => {
            SWAPPED.store(true, Relaxed);
            ctx.violation("location-swapped", "instruction 1 of function 2 has function_index() 1 and instruction_index() 2");
        }
        Ok(at) => return ctx.violation("location", &format!("instruction 1 of function 2 is reported at {at:?}")),
        Err(e) => return ctx.violation("location", &format!("one drop in function 2: {e}")),
    }
    ctx.prepared();
    thread_local! { static ANALYSIS: std::cell::RefCell<Option<Rc<Module>>> = const { std::cell::RefCell::new(None) }; }
    let n = ctx.n(20_000, 400_000);
    parallel(ctx, 1, n, |k, r, rep| {
        let analysis = ANALYSIS.with(|a| a.borrow_mut().get_or_insert_with(|| Rc::new(decode(&bytes).expect("valid"))).clone());
        let mut c = if k % 50 == 0 { every_operator(r, OFFSETS) } else { mixed_case(k, r, rep) };
        c.apply = r.chance(1, 3);
        c.policy.alter = r.chance(1, 3) && k % 50 != 0;
        c.policy.alter_apply = c.apply && r.chance(1, 2);
        if r.chance(1, 6) {
            c.targets = Some(some_targets(r, &c.original));
        }
        rep.evals += 1;
        let i = match r.below(3) {
            0 => own_interface(&c.on, c.apply),
            _ => repo_interface(&c.on, c.apply, true),
        };
        if let Some(s) = linked(&c, i, &analysis, rep, |_| false) {
            if compare(&c, &s, Aspects { observable: true, events: true, locations: true, applies: true, functions: false }, rep) {
                note(&c, &s, rep);
            }
        }
    });
}
pub fn text_name(n: &str) -> String {
    let mut s = format!("{}.", n[..3].to_lowercase());
    for (i, c) in n[3..].chars().enumerate() {
        if c.is_uppercase() && i > 0 {
            s.push('_');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}
/// A function for every operator, load and store, called with many values.
pub const OFFSETS: &[u64] = &[0, 1, 8, 65528, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
pub fn every_operator(r: &mut Rng, offsets: &[u64]) -> Case {
    let mut w = String::from("(module (memory 1)\n");
    let f = |name: &str, params: &[VT], result: Option<VT>, body: String| {
        let p: String = params.iter().map(|t| format!(" {}", t.low())).collect();
        let res = result.map_or(String::new(), |t| format!("(result {})", t.low()));
        format!("(func (export \"{name}\") (param{p}) {res} {body})\n")
    };
    for (k, name) in UNARY.iter().enumerate() {
        let (a, b) = unary_type(k as u8 + 1);
        w += &f(name, &[a], Some(b), format!("(local.get 0) {}", text_name(name)));
    }
    for (k, name) in BINARY.iter().enumerate() {
        let (a, b) = binary_type(k as u8 + 1);
        w += &f(name, &[a, a], Some(b), format!("(local.get 0) (local.get 1) {}", text_name(name)));
    }
    let offset = |r: &mut Rng| *r.pick(offsets);
    for (k, name) in LOADS.iter().enumerate() {
        let o = offset(r);
        w += &f(name, &[VT::I32], Some(load_type(k as u8 + 1)), format!("(local.get 0) {} offset={o}", text_name(name)));
    }
    for (k, name) in STORES.iter().enumerate() {
        let o = offset(r);
        w += &f(name, &[VT::I32, store_type(k as u8 + 1)], None, format!("(local.get 0) (local.get 1) {} offset={o}", text_name(name)));
    }
    w += ")";
    let bytes = wat::parse_str(&w).unwrap_or_else(|e| panic!("operators: {e}\n{w}"));
    let original = Rc::new(decode(&bytes).expect("operators"));
    let e = entries(&original);
    let script = (0..400)
        .map(|_| {
            let (export, ty) = r.pick(&e).clone();
            let memory = LOADS.contains(&&export[..]) || STORES.contains(&&export[..]);
            let mut args: Vec<u64> = ty.params.iter().map(|t| interesting(r, *t)).collect();
            if memory && r.bool() {
                args[0] = r.below(80) as u64;
            }
            if args.len() == 2 && r.chance(1, 8) {
                args[1] = args[0];
            }
            Call { export, ty, args }
        })
        .collect();
    let on = TRAPS.iter().filter(|t| matches!(t.hook, "Unary" | "Binary" | "Load" | "Store")).map(|t| t.name).collect();
    Case { bytes, original, on, apply: false, targets: None, script, policy: Policy { seed: r.u64(), cap: 5000, ..Default::default() }, depth: 40 }
}
