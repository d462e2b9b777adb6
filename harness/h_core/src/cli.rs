//! E02, S03: the command-line programs, run as processes.
use crate::gen;
use crate::pipe::*;
use crate::purity;
use crate::run::*;
use crate::traps::*;
use crate::weave::*;
use serde_json::json;
use std::collections::{BTreeSet, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};
use std::time::{Duration, Instant};
use vcommon::*;

fn program(name: &str) -> PathBuf {
    let p = std::env::current_exe().expect("exe").canonicalize().expect("exe").with_file_name(name);
    assert!(p.exists(), "{} is not built", p.display());
    p
}
/// Ends the process when it takes longer than any case here can need.
fn run(c: &mut Command, dir: &Path, input: Option<&Path>) -> Result<Output, String> {
    let out = std::fs::File::create(dir.join("stdout")).expect("file");
    let err = std::fs::File::create(dir.join("stderr")).expect("file");
    let input = input.map_or(Stdio::null(), |i| std::fs::File::open(i).expect("file").into());
    let mut p = c.stdin(input).stdout(out).stderr(err).spawn().expect("start");
    let start = Instant::now();
    loop {
        if let Some(status) = p.try_wait().expect("wait") {
            let read = |n: &str| std::fs::read(dir.join(n)).unwrap_or_default();
            return Ok(Output { status, stdout: read("stdout"), stderr: read("stderr") });
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = p.kill();
            let _ = p.wait();
            return Err("still running after 60 s".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}
fn kebab(h: &str) -> String {
    let mut s = String::new();
    for (i, c) in h.chars().enumerate() {
        if c.is_ascii_uppercase() && i > 0 {
            s.push('-');
        }
        s.push(c.to_ascii_lowercase());
    }
    s
}
const ANALYSIS: &[u8] = b"\0asm\x01\0\0\0\0\x05\x01aXYZ";
const LIBRARY: &[u8] = b"\0asm\x01\0\0\0\0\x05\x01lXYZ";

pub fn e02(ctx: &mut Ctx, tool: &Tool) {
    ctx.rule = "one observation = one run of the command-line program, its output executed and compared with the same program run under the contract".into();
    ctx.set_deadline(120, 900);
    let exe = program("wcli");
    let base = tool.dir().to_path_buf();
    std::fs::write(base.join("analysis.wasm"), ANALYSIS).expect("file");
    std::fs::write(base.join("library.wasm"), LIBRARY).expect("file");
    let n = ctx.n(8_000, 80_000);
    parallel(ctx, 1, n, |i, r, rep| {
        let dir = base.join(format!("cli{i}"));
        std::fs::create_dir_all(&dir).expect("dir");
        one(&exe, &base, &dir, r, rep);
        let _ = std::fs::remove_dir_all(&dir);
    });
}
fn one(exe: &Path, base: &Path, dir: &Path, r: &mut Rng, rep: &mut Report) {
    let mut c = some_case(r, true);
    // the hooks named on the command line
    let named: Option<Vec<&'static str>> = match r.below(8) {
        0 => None,
        1 => Some(vec![*r.pick(&HOOKS)]),
        2 => {
            let one = *r.pick(&HOOKS);
            Some(HOOKS.iter().copied().filter(|h| *h == one || r.chance(1, 2)).collect())
        }
        3 => {
            // all, or all but one
            let left_out = r.below(HOOKS.len() + 2);
            Some(HOOKS.iter().enumerate().filter(|(i, _)| *i != left_out).map(|(_, h)| *h).collect())
        }
        _ => Some((0..r.range(1, 4)).map(|_| *r.pick(&HOOKS)).collect::<BTreeSet<_>>().into_iter().collect()),
    };
    let mut order = named.clone();
    if let Some(o) = &mut order {
        r.shuffle(o);
        if r.chance(1, 6) {
            for _ in 0..*r.pick(&[1, 1, 3, 40]) {
                let again = *r.pick(o);
                o.push(again);
            }
        }
    }
    let wanted: HashSet<&str> = named.clone().unwrap_or(HOOKS.to_vec()).into_iter().collect();
    c.on = TRAPS.iter().filter(|t| wanted.contains(t.hook)).map(|t| t.name).collect();
    c.apply = wanted.contains("GenericApply");
    if r.chance(1, 2) {
        let mut t = some_targets(r, &c.original);
        if t.is_empty() {
            t.push(r.below(c.original.funcs.len().max(1)) as u32);
        }
        c.targets = Some(t);
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Fault {
        None,
        Program,
        Analysis,
        Library,
        Merge,
    }
    let fault = if r.chance(1, 5) { *r.pick(&[Fault::Program, Fault::Analysis, Fault::Library, Fault::Merge]) } else { Fault::None };
    let fault = if fault == Fault::Library && !c.apply { Fault::None } else { fault };
    let program = dir.join("in put.wasm");
    let manifest = dir.join("Cargo.toml");
    let output = dir.join("out.wasm");
    std::fs::write(&program, if fault == Fault::Program { b"\0asm\x01\0\0\0\xff\xff\xff" } else { &c.bytes[..] }).expect("file");
    std::fs::write(&manifest, "[package]\n").expect("file");
    let log = dir.join("log");
    let analysis = match fault {
        Fault::Merge => {
            let p = dir.join("marked.wasm");
            std::fs::write(&p, [ANALYSIS, b"%%MERGE-FAIL%%"].concat()).expect("file");
            p
        }
        Fault::Analysis => dir.join("absent.wasm"),
        _ => base.join("analysis.wasm"),
    };
    let library = if fault == Fault::Library { dir.join("absent.wasm") } else { base.join("library.wasm") };
    let mut cmd = Command::new(exe);
    let short = r.bool();
    let (piped_in, piped_out) = (r.chance(1, 8), r.chance(1, 8));
    if fault == Fault::None && r.chance(1, 4) {
        // what was there before goes
        std::fs::write(&output, vec![b'x'; r.below(300_000)]).expect("file");
    }
    let flag = |c: &mut Command, s: &str, l: &str| {
        c.arg(if short && !s.is_empty() { s } else { l });
    };
    let mut parts: Vec<u8> = vec![0, 1, 2, 3, 4];
    r.shuffle(&mut parts);
    for p in parts {
        match p {
            0 => {
                flag(&mut cmd, "-i", "--input-program-path");
                cmd.arg(if piped_in { Path::new("-") } else { &program });
            }
            1 => {
                flag(&mut cmd, "-r", "--rust-analysis-toml-path");
                cmd.arg(&manifest);
            }
            2 => {
                flag(&mut cmd, "-o", "--output-path");
                cmd.arg(if piped_out { Path::new("-") } else { &output });
            }
            3 => {
                if let Some(o) = &order {
                    cmd.arg("--hooks").args(o.iter().map(|h| kebab(h)));
                }
            }
            _ => {
                if let Some(t) = &c.targets {
                    cmd.arg("--targets").args(t.iter().map(|t| t.to_string()));
                }
            }
        }
    }
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).expect("dir");
    cmd.env("VERIF_RUST_WASM_LOG", &log).env("VERIF_RUST_WASM_ANALYSIS", &analysis).env("VERIF_RUST_WASM_LIB", &library).env("TMPDIR", &tmp).env("RUST_BACKTRACE", "0");
    let writes = *r.pick(&[0usize, 0, 1000, 7]);
    let reads = *r.pick(&[0usize, 0, 1000, 7]);
    cmd.env("VERIF_SHORT_WRITES", writes.to_string()).env("VERIF_SHORT_READS", reads.to_string());
    let shown = format!("{cmd:?}");
    let shown = shown.split("/wcli").last().unwrap_or("").to_string();
    let show = |what: String| format!("{what}\nwcli{shown}\nfault {fault:?}\n{}", c.describe());
    rep.evals += 1;
    let out = match run(&mut cmd, dir, piped_in.then_some(&program)) {
        Ok(o) => o,
        Err(e) => return rep.violation("hang", show(e)),
    };
    let stderr = truncate(&String::from_utf8_lossy(&out.stderr), 600);
    let written = if piped_out { out.stdout.clone() } else { std::fs::read(&output).unwrap_or_default() };
    rep.count("programs read from the standard input", piped_in as u64);
    rep.count("modules written to the standard output", piped_out as u64);
    rep.count(&format!("runs, fault {fault:?}"), 1);
    let asked: Vec<String> = std::fs::read_to_string(&log).unwrap_or_default().lines().map(String::from).collect();
    if fault != Fault::None {
        if out.status.success() {
            return rep.violation("failure-hidden", show(format!("the program ended with success although {fault:?} failed")));
        }
        if !written.is_empty() {
            return rep.violation("failure-output", show(format!("{} bytes were written although {fault:?} failed", written.len())));
        }
        rep.saw(&(shown.len(), &c.bytes));
        return;
    }
    if !out.status.success() {
        return rep.violation("failed", show(format!("{}: {stderr}", out.status)));
    }
    // what was asked of the Rust compiler
    let first = format!("Manifest {{ wasi: Disabled, path: {:?}, profile: Release }}", manifest.display().to_string());
    let rest = asked.iter().skip(1).filter(|l| l.starts_with("Source {")).count();
    if asked.first() != Some(&first) || asked.len() != 1 + usize::from(c.apply) || rest != usize::from(c.apply) {
        let heads: Vec<String> = asked.iter().map(|a| truncate(a, 200)).collect();
        return rep.violation("compiler", show(format!("asked of the Rust compiler: {heads:#?}, expected {first} and {} libraries", usize::from(c.apply))));
    }
    let Some(b) = parse_bundle(&written) else {
        return rep.violation("output", show(format!("what was written ({} bytes) is not the merged module", written.len())));
    };
    if b.part(NS_ANALYSIS) != Some(ANALYSIS) || b.part(NS_LIB) != c.apply.then_some(LIBRARY) || b.parts.len() != 2 + usize::from(c.apply) {
        return rep.violation("parts", show(format!("merged parts {:?}", b.parts.iter().map(|(n, m)| (n, m.len())).collect::<Vec<_>>())));
    }
    if b.parts[0].0 != NS_TARGET {
        return rep.violation("primary", show(format!("merged in the order {:?}", b.parts.iter().map(|(n, _)| n).collect::<Vec<_>>())));
    }
    let target = b.part(NS_TARGET).expect("checked").to_vec();
    let lib = match instrumented(&c.bytes, own_interface(&c.on, c.apply), c.targets.clone()) {
        Ok((_, l)) => l,
        Err(e) => return rep.violation("library", show(e)),
    };
    rep.count("hooks named", named.map_or(0, |n| n.len() as u64));
    if let Some(s) = sides(&c, rep, |_| Ok((target, lib))) {
        if compare(&c, &s, Aspects { observable: true, events: true, locations: true, applies: true, functions: true }, rep) {
            note(&c, &s, rep);
        }
    }
}

pub fn s03(ctx: &mut Ctx, tool: &Tool) {
    ctx.rule = "one observation = one run of the command-line program, its output compared with the library's answer".into();
    let _quiet = purity::Quiet::new();
    let exe = program("wstatic");
    let base = tool.dir().to_path_buf();
    let n = ctx.n(2_500, 20_000);
    parallel(ctx, 1, n, |i, r, rep| {
        let dir = base.join(format!("st{i}"));
        std::fs::create_dir_all(&dir).expect("dir");
        stat(&exe, &dir, r, rep);
        let _ = std::fs::remove_dir_all(&dir);
    });
}
fn stat(exe: &Path, dir: &Path, r: &mut Rng, rep: &mut Report) {
    let bytes = if r.chance(1, 4) {
        let o = gen::Opts { refs: r.bool(), size: *r.pick(&[2, 8]), max_funcs: *r.pick(&[2, 12]), ..Default::default() };
        let g = gen::module(r, &o);
        crate::encode::encode(&g.module, &g.types)
    } else {
        let (shape, n) = if r.chance(1, 30) { (4, *r.pick(&[64usize, 130, 257, 300])) } else { (r.below(4), r.range(1, 30)) };
        let p = purity::prog(r, shape, n, (1, 4));
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        wat::parse_str(p.wat(&order).0).expect("text")
    };
    let broken = r.chance(1, 10);
    let input = dir.join("p.wasm");
    let output = dir.join("o.json");
    std::fs::write(&input, if broken { &bytes[..bytes.len().min(5)] } else { &bytes[..] }).expect("file");
    // instructions of a body, its last `end` included
    let mut lengths: Vec<u64> = vec![];
    let mut imported = 0u32;
    for p in wasmparser::Parser::new(0).parse_all(&bytes) {
        match p.expect("valid") {
            wasmparser::Payload::ImportSection(s) => imported = s.into_iter().filter(|i| matches!(i.as_ref().expect("valid").ty, wasmparser::TypeRef::Func(_))).count() as u32,
            wasmparser::Payload::CodeSectionEntry(b) => lengths.push(b.get_operators_reader().expect("valid").into_iter().count() as u64),
            _ => {}
        }
    }
    let least: Option<u32> = match r.below(4) {
        0 => None,
        1 => Some(*r.pick(&[0, 1, 2, u32::MAX])),
        _ => Some((*r.pick(&lengths) as u32 + r.below(3) as u32).saturating_sub(1)),
    };
    let immutable: BTreeSet<u32> = match purity::reported(&bytes) {
        Ok(s) => s.into_iter().collect(),
        Err(e) => return rep.violation("panic", e),
    };
    let (piped_in, piped_out) = (r.chance(1, 8), r.chance(1, 8));
    if !broken && r.chance(1, 4) {
        std::fs::write(&output, vec![b'1'; r.below(5_000)]).expect("file");
    }
    let mut cmd = Command::new(exe);
    cmd.arg(if r.bool() { "-i" } else { "--input-program-path" }).arg(if piped_in { Path::new("-") } else { &input }).arg(if r.bool() { "-o" } else { "--output-path" }).arg(if piped_out { Path::new("-") } else { &output });
    if let Some(l) = least {
        cmd.arg(if r.bool() { "-m" } else { "--minimum-body" }).arg(l.to_string());
    }
    let writes = *r.pick(&[0usize, 0, 100, 5, 1]);
    let reads = *r.pick(&[0usize, 0, 100, 5, 1]);
    cmd.env("VERIF_SHORT_WRITES", writes.to_string()).env("VERIF_SHORT_READS", reads.to_string()).env("RUST_BACKTRACE", "0");
    let show = |what: String| format!("{what}\nminimum {least:?}, output takes {writes} bytes at a time (0: all)\n{}", wasmprinter::print_bytes(&bytes).unwrap_or_default());
    rep.evals += 1;
    let out = match run(&mut cmd, dir, piped_in.then_some(&input)) {
        Ok(o) => o,
        Err(e) => return rep.violation("hang", show(e)),
    };
    let text = if piped_out { out.stdout.clone() } else { std::fs::read(&output).unwrap_or_default() };
    if broken {
        rep.count("unreadable programs", 1);
        if out.status.success() || !text.is_empty() {
            return rep.violation("failure-hidden", show(format!("{}: wrote {} bytes for a file that is no module", out.status, text.len())));
        }
        return;
    }
    if !out.status.success() {
        return rep.violation("failed", show(format!("{}: {}", out.status, truncate(&String::from_utf8_lossy(&out.stderr), 500))));
    }
    let Ok(got) = serde_json::from_slice::<Vec<u32>>(&text) else {
        return rep.violation(if writes == 0 { "json" } else { "short-write" }, show(format!("wrote {:?}, which is no list of numbers", String::from_utf8_lossy(&text))));
    };
    let want: BTreeSet<u32> = immutable.iter().copied().filter(|f| least.is_none_or(|l| lengths[(f - imported) as usize] >= u64::from(l))).collect();
    if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want {
        return rep.violation("list", show(format!("wrote {got:?}, expected {want:?} of the immutable {immutable:?}; lengths from {imported}: {lengths:?}")));
    }
    rep.count("functions listed", got.len() as u64);
    rep.count("functions left out for their size", (immutable.len() - want.len()) as u64);
    rep.saw(&(&bytes, least));
    if rep.samples.is_empty() {
        rep.samples.push(json!({"immutable": immutable.len(), "minimum": least, "listed": got.len()}));
    }
}
