//! Monitors for wasm-merge. The same binary, run under the name `wasm-merge`, is the stand-in tool.
use serde_json::json;
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::fs;
use std::io::Write;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use vcommon::{guarded, quiet_panics, Ctx, Rng};
use wasm_merge::options::*;
use wasm_merge::{InputModule, MergeOptions};

// ------------------------------------------------------------------ stand-in tool
const FAULT_MARK: &[u8] = b"%%FAULT:";

fn output_for(opts: &BTreeSet<Vec<u8>>, pairs: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    // deterministic, injective-enough function of everything the tool was given
    let mut o = b"MERGED".to_vec();
    for x in opts {
        o.push(0xf0);
        o.extend((x.len() as u32).to_le_bytes());
        o.extend(x);
    }
    for (m, n) in pairs {
        o.push(0xf1);
        o.extend((m.len() as u32).to_le_bytes());
        o.extend(m);
        o.extend((n.len() as u32).to_le_bytes());
        o.extend(n);
    }
    o
}

struct Parsed {
    opts: Vec<Vec<u8>>,
    positional: Vec<Vec<u8>>,
    outputs: Vec<Vec<u8>>,
}
fn parse_args(args: &[Vec<u8>]) -> Parsed {
    let mut p = Parsed { opts: vec![], positional: vec![], outputs: vec![] };
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if a == b"-o" || a == b"--output" {
            if let Some(x) = args.get(i + 1) {
                p.outputs.push(x.clone());
            }
            i += 2;
            continue;
        }
        if a.starts_with(b"--") {
            p.opts.push(a.clone());
        } else {
            p.positional.push(a.clone());
        }
        i += 1;
    }
    p
}
fn path(b: &[u8]) -> PathBuf {
    PathBuf::from(OsString::from_vec(b.to_vec()))
}
fn field<'a>(plan: &'a str, key: &str) -> Option<&'a str> {
    plan.split(',').find_map(|kv| kv.strip_prefix(key).and_then(|r| r.strip_prefix('=')))
}

fn tool_main() -> ! {
    let args: Vec<Vec<u8>> = std::env::args_os().skip(1).map(|a| a.as_bytes().to_vec()).collect();
    let p = parse_args(&args);
    let log = std::env::var_os("STUB_LOG").map(PathBuf::from);
    let contents: Vec<Option<Vec<u8>>> = p.positional.iter().map(|a| fs::read(path(a)).ok()).collect();
    if let Some(dir) = &log {
        static N: AtomicU64 = AtomicU64::new(0);
        let name = format!("{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        let rec = json!({"args": args, "files": contents});
        let tmp = dir.join(format!(".{name}"));
        fs::write(&tmp, serde_json::to_vec(&rec).unwrap()).unwrap();
        fs::rename(&tmp, dir.join(format!("{name}.json"))).unwrap();
    }
    // the plan travels in the environment or inside the first module
    let mut plan = std::env::var("STUB_PLAN").unwrap_or_default();
    if let Some(Some(c)) = contents.first() {
        if let Some(k) = c.windows(FAULT_MARK.len()).position(|w| w == FAULT_MARK) {
            let rest = &c[k + FAULT_MARK.len()..];
            let end = rest.iter().position(|b| *b == b'%').unwrap_or(rest.len());
            plan = String::from_utf8_lossy(&rest[..end]).to_string();
        }
    }
    let sleep = |k: &str| {
        if let Some(ms) = field(&plan, k).and_then(|v| v.parse().ok()) {
            std::thread::sleep(std::time::Duration::from_millis(ms));
        }
    };
    sleep("before");
    if let Some(n) = field(&plan, "stdout").and_then(|v| v.parse::<usize>().ok()) {
        let _ = std::io::stdout().write_all(&vec![b'o'; n]);
    }
    let diag = |when: &str| {
        if let Some(t) = field(&plan, when) {
            let mut it = t.split('*');
            let text = it.next().unwrap_or("");
            let n: usize = it.next().and_then(|v| v.parse().ok()).unwrap_or(1);
            let unit: Vec<u8> = if text == "nonutf8" { vec![0xff, 0xfe, b'!'] } else { text.replace('_', " ").into_bytes() };
            let _ = std::io::stderr().write_all(&unit.repeat(n));
        }
    };
    diag("err1");
    let pairs: Vec<(Vec<u8>, Vec<u8>)> = p
        .positional
        .chunks(2)
        .map(|c| (fs::read(path(&c[0])).unwrap_or_default(), c.get(1).cloned().unwrap_or_default()))
        .collect();
    let out = match field(&plan, "size").and_then(|v| v.parse::<usize>().ok()) {
        Some(n) => (0..n).map(|i| (i % 251) as u8).collect(),
        None => output_for(&p.opts.iter().cloned().collect(), &pairs),
    };
    let keep = match field(&plan, "out") {
        Some("none") => None,
        Some("partial") => Some(out.len() / 2),
        _ => Some(out.len()),
    };
    if let (Some(k), Some(o)) = (keep, p.outputs.first()) {
        let mut f = fs::OpenOptions::new().write(true).create(true).truncate(true).open(path(o)).unwrap();
        for chunk in out[..k].chunks(1 << 16) {
            f.write_all(chunk).unwrap();
            if field(&plan, "slow").is_some() {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
    }
    sleep("after");
    diag("err2");
    if let Some(sig) = field(&plan, "signal") {
        let _ = std::io::stdout().flush();
        let _ = std::process::Command::new("/bin/kill")
            .args([format!("-{sig}"), std::process::id().to_string()])
            .status();
        std::thread::sleep(std::time::Duration::from_secs(5));
    }
    std::process::exit(field(&plan, "exit").and_then(|v| v.parse().ok()).unwrap_or(0));
}

// ------------------------------------------------------------------ world
struct World {
    root: PathBuf,
}
impl World {
    fn new(tag: &str) -> World {
        let base = std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
        let root = base.join("work").join(format!("merge-{tag}-{}", std::process::id()));
        let _ = fs::remove_dir_all(&root);
        for d in ["bin", "nobin", "badbin", "tmp", "log"] {
            fs::create_dir_all(root.join(d)).unwrap();
        }
        symlink(std::env::current_exe().unwrap(), root.join("bin").join("wasm-merge")).unwrap();
        fs::write(root.join("badbin").join("wasm-merge"), "#!/bin/sh\nexit 0\n").unwrap();
        fs::set_permissions(root.join("badbin").join("wasm-merge"), fs::Permissions::from_mode(0o644)).unwrap();
        // relative file effects of a mishandled command line stay inside the scratch directory
        fs::create_dir_all(root.join("cwd")).unwrap();
        std::env::set_current_dir(root.join("cwd")).unwrap();
        let w = World { root };
        w.use_bin("bin");
        std::env::set_var("TMPDIR", w.tmp());
        std::env::set_var("STUB_LOG", w.root.join("log"));
        std::env::remove_var("STUB_PLAN");
        w
    }
    fn tmp(&self) -> PathBuf {
        self.root.join("tmp")
    }
    fn use_bin(&self, d: &str) {
        // only the shell and coreutils besides the stand-in; never a real wasm-merge
        std::env::set_var("PATH", format!("{}:/usr/bin:/bin", self.root.join(d).display()));
    }
    fn take_logs(&self) -> Vec<Log> {
        let mut v = vec![];
        for e in fs::read_dir(self.root.join("log")).unwrap() {
            let p = e.unwrap().path();
            if p.extension().is_some_and(|x| x == "json") {
                let j: serde_json::Value = serde_json::from_slice(&fs::read(&p).unwrap()).unwrap();
                let bytes = |x: &serde_json::Value| x.as_array().map(|a| a.iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<u8>>());
                v.push(Log {
                    args: j["args"].as_array().unwrap().iter().map(|a| bytes(a).unwrap()).collect(),
                    files: j["files"].as_array().unwrap().iter().map(bytes).collect(),
                });
            }
            let _ = fs::remove_file(&p);
        }
        v
    }
    fn leftovers(&self, dir: &Path) -> Vec<String> {
        let mut v: Vec<String> = fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
        v.sort();
        v
    }
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir("/");
        let _ = fs::remove_dir_all(&self.root);
    }
}
struct Log {
    args: Vec<Vec<u8>>,
    files: Vec<Option<Vec<u8>>>,
}

// ------------------------------------------------------------------ options
macro_rules! options {
    ($(($bit:literal, $field:ident, $ty:ident, $flag:literal)),* $(,)?) => {
        const FLAGS: &[&str] = &[$($flag),*];
        fn build<'a>(mask: u32, primary: Option<InputModule<'a>>, inputs: Vec<InputModule<'a>>) -> MergeOptions<'a> {
            MergeOptions { primary, input_modules: inputs, $($field: if mask >> $bit & 1 == 1 { $ty::Enable } else { $ty::Disable }),* }
        }
    };
}
options![
    (0, no_validation, NoValidate, "--no-validation"),
    (1, rename_export_conflicts, RenameExportConflicts, "--rename-export-conflicts"),
    (2, bulk_memory, BulkMemory, "--enable-bulk-memory"),
    (3, bulk_memory_opt, BulkMemoryOpt, "--enable-bulk-memory-opt"),
    (4, call_indirect_overlong, CallIndirectOverlong, "--enable-call-indirect-overlong"),
    (5, extended_const, ExtendedConst, "--enable-extended-const"),
    (6, exception_handling, ExceptionHandling, "--enable-exception-handling"),
    (7, fp16, Fp16, "--enable-fp16"),
    (8, gc, Gc, "--enable-gc"),
    (9, memory64, Memory64, "--enable-memory64"),
    (10, multimemory, Multimemory, "--enable-multimemory"),
    (11, multivalue, Multivalue, "--enable-multivalue"),
    (12, mutable_globals, MutableGlobals, "--enable-mutable-globals"),
    (13, nontrapping_float_to_int, NontrappingFloatToInt, "--enable-nontrapping-float-to-int"),
    (14, reference_types, ReferenceTypes, "--enable-reference-types"),
    (15, relaxed_simd, RelaxedSimd, "--enable-relaxed-simd"),
    (16, shared_everything, SharedEverything, "--enable-shared-everything"),
    (17, sign_ext, SignExt, "--enable-sign-ext"),
    (18, simd, Simd, "--enable-simd"),
    (19, strings, Strings, "--enable-strings"),
    (20, tail_call, TailCall, "--enable-tail-call"),
    (21, threads, Threads, "--enable-threads"),
    (22, typed_continuations, TypedContinuations, "--enable-typed-continuations"),
];
fn flags_of(mask: u32) -> BTreeSet<Vec<u8>> {
    (0..FLAGS.len()).filter(|b| mask >> b & 1 == 1).map(|b| FLAGS[b].as_bytes().to_vec()).collect()
}

// ------------------------------------------------------------------ workload
fn namespace(rng: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "env", "WASTRUMENTATION_ANALYSIS", "instrumented_input", "wastrumentation_stack", "a", "odd", "wasi_snapshot_preview1",
        "with space", "two  spaces", " leading", "trailing ", "tab\there", "new\nline", "quote'single", "quote\"double", "$HOME", "$(echo x)",
        "`echo x`", "a;b", "a&b", "a|b", "a>b", "a<b", "*", "?", "[ab]", "{a,b}", "~", "#c", "back\\slash", "é", "漢字", "🔴", "!x", "(x)",
        "a=b", "%s", "", "x\ty z", "'", "\"", "\\", "a/b", "..", "./x", "@", "^", "&&", "||", "\u{1}", "ns-1", "ns.1",
    ];
    if rng.chance(2, 3) {
        rng.pick(POOL).to_string()
    } else {
        let n = if rng.chance(1, 20) { *rng.pick(&[64, 255, 256, 300, 5000]) } else { 1 + rng.below(12) };
        let s: String = (0..n).map(|_| char::from_u32(0x20 + rng.below(0x5f) as u32).unwrap()).collect();
        if s.starts_with('-') { format!("x{s}") } else { s }
    }
}
fn module(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        0 => 0,
        1 => rng.range(60_000, 400_000),
        2 if rng.chance(1, 30) => 3_000_000,
        2 => 4096,
        3 => 65536,
        _ => rng.below(200),
    };
    let mut v: Vec<u8> = (0..n).map(|_| rng.u64() as u8).collect();
    if v.len() > 8 && rng.bool() {
        v[..8].copy_from_slice(b"\0asm\x01\0\0\0");
    }
    v
}
fn shell_safe(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'_' | b'-' | b'.' | b'/' | b'@' | b'^' | b'%' | b':' | b'+' | b','))
}
fn show(b: &[u8]) -> String {
    vcommon::truncate(&String::from_utf8_lossy(b), 120)
}
/// Checks one invocation against what was asked.
fn check_invocation(ctx: &mut Ctx, log: &Log, mask: u32, mods: &[(Vec<u8>, String)]) {
    let p = parse_args(&log.args);
    let cmdline = || log.args.iter().map(|a| format!("{:?}", String::from_utf8_lossy(a))).collect::<Vec<_>>().join(" ");
    let want = flags_of(mask);
    let got: BTreeSet<Vec<u8>> = p.opts.iter().cloned().collect();
    if got != want || got.len() != p.opts.len() {
        let miss: Vec<_> = want.difference(&got).map(|b| show(b)).collect();
        let extra: Vec<_> = got.difference(&want).map(|b| show(b)).collect();
        ctx.violation("wrong-options", &format!("missing {miss:?} extra {extra:?}\ncommand: {}", cmdline()));
    }
    if p.outputs.len() != 1 {
        ctx.violation("no-single-output", &cmdline());
    }
    let odd = mods.iter().any(|m| !shell_safe(&m.1));
    if p.positional.len() != 2 * mods.len() {
        ctx.violation(if odd { "namespace-not-literal" } else { "wrong-module-count" }, &format!("{} modules, command: {}", mods.len(), cmdline()));
        return;
    }
    for (i, (bytes, ns)) in mods.iter().enumerate() {
        if p.positional[2 * i + 1] != ns.as_bytes() {
            ctx.violation(
                if odd { "namespace-not-literal" } else { "wrong-namespace-or-order" },
                &format!("module {i}: namespace {ns:?}, tool saw {:?}\ncommand: {}", show(&p.positional[2 * i + 1]), cmdline()),
            );
        }
        match &log.files[2 * i] {
            Some(f) if f == bytes => {}
            other => ctx.violation("wrong-module-bytes", &format!("module {i} of {}: {} bytes given, tool saw {:?} bytes", mods.len(), bytes.len(), other.as_ref().map(Vec::len))),
        }
    }
    let distinct: BTreeSet<_> = (0..mods.len()).map(|i| &p.positional[2 * i]).chain(p.outputs.iter()).collect();
    if distinct.len() != mods.len() + p.outputs.len() {
        ctx.violation("files-shared", &cmdline());
    }
}

fn run(o: &MergeOptions) -> Result<Result<Vec<u8>, wasm_merge::error::Error>, String> {
    guarded(|| o.merge())
}

fn m01(ctx: &mut Ctx) {
    let n = ctx.n(900, 20_000);
    let w = World::new("m01");
    let mut rng = ctx.rng(1);
    let mut masks: Vec<u32> = vec![0, (1 << 23) - 1];
    for b in 0..23 {
        masks.push(1 << b);
        masks.push(((1 << 23) - 1) ^ (1 << b));
    }
    for i in 0..n {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let mask = if (i as usize) < masks.len() { masks[i as usize] } else { rng.u32() & ((1 << 23) - 1) };
        // a few plain, then hostile namespaces; the same text may occur twice
        let many = rng.chance(1, 60);
        let k = if many {
            *rng.pick(&[33, 65, 130, 260])
        } else if rng.chance(1, 10) {
            rng.range(5, 12)
        } else {
            rng.below(5)
        };
        let plain = rng.chance(1, 3);
        let mut mods: Vec<(Vec<u8>, String)> = (0..k)
            .map(|j| (if many { vec![rng.u32() as u8; 1 + j] } else { module(&mut rng) }, if plain { format!("ns{j}") } else { namespace(&mut rng) }))
            .collect();
        if k > 1 && rng.chance(1, 6) {
            let m = mods[0].clone();
            mods[k - 1] = m; // same bytes and namespace given twice
        }
        let with_primary = k > 0 && rng.bool();
        let before = mods.clone();
        let mut ims: Vec<InputModule> = mods.iter().map(|(m, n)| InputModule { module: m, namespace: n.clone() }).collect();
        let primary = if with_primary { Some(ims.remove(0)) } else { None };
        let o = build(mask, primary, ims);
        ctx.eval();
        let r = run(&o);
        drop(o);
        let logs = w.take_logs();
        match r {
            Err(p) => ctx.violation("panic", &p),
            Ok(r) => {
                if logs.len() != 1 {
                    let odd = mods.iter().any(|m| !shell_safe(&m.1));
                    ctx.violation(if odd { "namespace-not-literal" } else { "tool-not-run-once" }, &format!("{} runs, result {r:?}", logs.len()));
                } else {
                    check_invocation(ctx, &logs[0], mask, &mods);
                    let want = output_for(&flags_of(mask), &output_pairs(&mods));
                    match r {
                        Ok(b) if b == want => {}
                        Ok(b) => {
                            if !ctx.violated() {
                                ctx.violation("wrong-result", &format!("{} bytes, expected {}", b.len(), want.len()))
                            }
                        }
                        Err(e) => ctx.violation("merge-failed", &e.to_string()),
                    }
                }
            }
        }
        if mods != before {
            ctx.violation("inputs-changed", "");
        }
        ctx.count("tool runs", logs.len() as u64);
        ctx.count("modules handed over", mods.len() as u64);
        ctx.count("bytes handed over", mods.iter().map(|m| m.0.len() as u64).sum());
        if with_primary {
            ctx.count("merges with primary", 1);
        }
        ctx.saw(&(mask, &mods, with_primary));
        if i % 200 == 77 {
            ctx.sample(json!({"options": flags_of(mask).iter().map(|b| show(b)).collect::<Vec<_>>(), "namespaces": mods.iter().map(|m| &m.1).collect::<Vec<_>>(), "primary": with_primary}));
        }
    }
    // temp directories with unusual names
    for d in ["with space", "a'b", "$x", "é漢", "semi;colon"] {
        let t = w.root.join(d);
        fs::create_dir_all(&t).unwrap();
        std::env::set_var("TMPDIR", &t);
        let m = module(&mut rng);
        let o = build(1, None, vec![InputModule { module: &m, namespace: "n".into() }]);
        ctx.eval();
        let r = run(&o);
        let logs = w.take_logs();
        let want = output_for(&flags_of(1), &[(m.clone(), b"n".to_vec())]);
        match r {
            Ok(Ok(b)) if b == want && logs.len() == 1 => check_invocation(ctx, &logs[0], 1, &[(m.clone(), "n".into())]),
            r => ctx.violation("temp-dir-name", &format!("temporary directory {d:?}: {r:?}, {} tool runs", logs.len())),
        }
        std::env::set_var("TMPDIR", w.tmp());
        ctx.count("unusual temp directories", 1);
    }
    ctx.rule = "random module lists (0-12 modules, now and then up to 260; 0-400 kB, now and then 3 MB), namespaces (incl. shell-active text), all single options, all-but-one and random option sets; non-trivial: distinct (options, modules, namespaces, primary)".into();
}
// Vec<(Vec<u8>,String)> -> pairs for output_for
fn output_pairs(mods: &[(Vec<u8>, String)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    mods.iter().map(|(m, n)| (m.clone(), n.as_bytes().to_vec())).collect()
}

struct Fault {
    name: String,
    plan: String,
    ok: bool,
    diag: Option<String>,
}
fn m02(ctx: &mut Ctx) {
    let w = World::new("m02");
    let mut rng = ctx.rng(2);
    // enumerated fault space: output x diagnostics x ending
    let outs = ["full", "partial", "none"];
    let diags: [(&str, Option<String>); 7] = [
        ("", None),
        ("err1=Fatal:_bad_module,", Some("Fatal: bad module".into())),
        ("err2=late_diagnostic,", Some("late diagnostic".into())),
        ("err1=first_,err2=second,", Some("first second".into())),
        ("err1=x*200000,", Some("x".repeat(200_000))),
        ("err2=nonutf8*3,", Some("!".into())),
        ("err1=W,", Some("W".into())),
    ];
    let ends: [(&str, bool); 11] = [
        ("exit=0", true), ("exit=1", false), ("exit=2", false), ("exit=3", false), ("exit=77", false), ("exit=127", false), ("exit=255", false),
        ("signal=KILL", false), ("signal=HUP", false), ("signal=TERM", false), ("signal=INT", false),
    ];
    let mut faults: Vec<Fault> = vec![];
    for o in outs {
        for (d, text) in &diags {
            for (e, ok) in &ends {
                if o != "full" && *ok && text.is_none() {
                    continue; // "succeeded" without full output: not a situation the property speaks about
                }
                faults.push(Fault { name: format!("out={o} {d} {e}"), plan: format!("out={o},{d}{e}"), ok: *ok && text.is_none(), diag: text.clone() });
            }
        }
    }
    for n in [0usize, 1, 4095, 4096, 65535, 65536, 65537, 1 << 20, 9_000_000, 17_000_000, 70_000_000] {
        if n > 0 {
            faults.push(Fault { name: format!("ok size {n}"), plan: format!("size={n},exit=0"), ok: true, diag: None });
        }
        faults.push(Fault { name: format!("fail size {n}"), plan: format!("size={n},exit=1"), ok: false, diag: None });
    }
    for n in [1usize, 70_000, 2_000_000] {
        faults.push(Fault { name: format!("ok with {n} bytes of stdout"), plan: format!("stdout={n},exit=0"), ok: true, diag: None });
        faults.push(Fault { name: format!("fail with {n} bytes of stdout"), plan: format!("stdout={n},exit=4"), ok: false, diag: None });
    }
    faults.push(Fault { name: "slow ok".into(), plan: "size=900000,slow=1,before=50,after=50,exit=0".into(), ok: true, diag: None });
    let rounds = ctx.n(2, 40);
    for round in 0..rounds {
        rng.shuffle(&mut faults);
        for f in &faults {
            if ctx.out_of_time() || ctx.enough_violations() {
                break;
            }
            std::env::set_var("STUB_PLAN", &f.plan);
            let k = rng.range(1, 3);
            let mods: Vec<(Vec<u8>, String)> = (0..k).map(|j| (vec![rng.u32() as u8 & 0x7f; rng.range(1, 60)], format!("n{j}"))).collect();
            let ims: Vec<InputModule> = mods.iter().map(|(m, n)| InputModule { module: m, namespace: n.clone() }).collect();
            let o = build(rng.u32() & 3, None, ims);
            ctx.eval();
            let r = run(&o);
            let logs = w.take_logs();
            if logs.len() != 1 {
                ctx.violation("tool-not-run-once", &format!("{}: {} runs", f.name, logs.len()));
            }
            match r {
                Err(p) => ctx.violation("panic", &format!("{}: {p}", f.name)),
                Ok(Ok(b)) if f.ok => {
                    let opts: BTreeSet<Vec<u8>> = logs.first().map(|l| parse_args(&l.args).opts.into_iter().collect()).unwrap_or_default();
                    let want: Vec<u8> = match field(&f.plan, "size").and_then(|v| v.parse::<usize>().ok()) {
                        Some(n) => (0..n).map(|i| (i % 251) as u8).collect(),
                        None => output_for(&opts, &output_pairs(&mods)),
                    };
                    if b != want {
                        ctx.violation("wrong-output", &format!("{}: {} bytes returned, tool wrote {}", f.name, b.len(), want.len()));
                    }
                    ctx.count("successful merges", 1);
                    ctx.count("output bytes", b.len() as u64);
                }
                Ok(Err(e)) if !f.ok => {
                    if let Some(d) = &f.diag {
                        if !e.to_string().contains(d) && !format!("{e:?}").contains(d) {
                            ctx.violation("diagnostics-lost", &format!("{}: error is {}", f.name, vcommon::truncate(&e.to_string(), 300)));
                        }
                    }
                    if e.to_string().is_empty() {
                        ctx.violation("empty-error", &f.name);
                    }
                    ctx.count("failures reported", 1);
                }
                Ok(Ok(b)) => ctx.violation("failure-presented-as-success", &format!("tool behaviour: {} -> Ok({} bytes)", f.name, b.len())),
                Ok(Err(e)) => ctx.violation("success-presented-as-failure", &format!("{}: {e}", f.name)),
            }
            ctx.saw(&f.name);
            if round == 0 && ctx.evaluations % 40 == 3 {
                ctx.sample(json!({"tool": f.name, "expected": if f.ok { "result" } else { "error" }}));
            }
        }
    }
    std::env::remove_var("STUB_PLAN");
    // tool missing / not executable
    for d in ["nobin", "badbin"] {
        w.use_bin(d);
        for k in 1..4usize {
            let m = vec![7u8; k];
            let ims = (0..k).map(|_| InputModule { module: &m, namespace: "n".into() }).collect();
            ctx.eval();
            match run(&build(0, None, ims)) {
                Ok(Err(_)) => ctx.count("missing tool reported", 1),
                r => ctx.violation("missing-tool-not-reported", &format!("{d}: {r:?}")),
            }
            ctx.saw(&(d, k));
        }
    }
    w.use_bin("bin");
    // temporary files cannot be created
    std::env::set_var("TMPDIR", w.root.join("does-not-exist"));
    for k in 0..3usize {
        let m = vec![7u8; 10];
        let ims = (0..k).map(|_| InputModule { module: &m, namespace: "n".into() }).collect();
        ctx.eval();
        match run(&build(0, None, ims)) {
            Ok(Err(e)) => {
                if !e.to_string().contains("temp") {
                    ctx.violation("wrong-temp-error", &e.to_string());
                }
                ctx.count("temp failures reported", 1)
            }
            r => ctx.violation("temp-failure-not-reported", &format!("{r:?}")),
        }
        ctx.saw(&("no tmp", k));
    }
    std::env::set_var("TMPDIR", w.tmp());
    let _ = w.take_logs();
    // temporary file cannot be written fully (file size limit), in a child process
    let out = std::process::Command::new("bash")
        .arg("-c")
        .arg("trap '' XFSZ; ulimit -f 64; exec \"$0\" --child-fsize")
        .arg(std::env::current_exe().unwrap())
        .output();
    ctx.eval();
    match out {
        Ok(o) => {
            let s = String::from_utf8_lossy(&o.stdout).to_string();
            if s.contains("CHILD err") {
                ctx.count("short writes reported", 1);
                ctx.saw(&"fsize");
            } else if s.contains("CHILD ok") {
                ctx.violation("short-write-not-reported", &s);
            } else if s.contains("CHILD panic") {
                ctx.violation("panic", &s);
            } else {
                ctx.count("short write inconclusive", 1);
            }
        }
        Err(_) => ctx.count("short write inconclusive", 1),
    }
    if !w.take_logs().is_empty() {
        ctx.violation("tool-run-on-truncated-input", "");
    }
    ctx.rule = "enumerated tool behaviours (output full/partial/none x diagnostics none/before/after/both/huge/non-UTF-8/one byte x 11 endings), output sizes, stdout noise, missing tool, unusable temp directory, short writes; non-trivial: distinct tool behaviours".into();
}
fn child_fsize() -> ! {
    let m = vec![1u8; 200_000];
    let o = build(0, None, vec![InputModule { module: &m, namespace: "n".into() }]);
    match run(&o) {
        Ok(Ok(b)) => println!("CHILD ok {}", b.len()),
        Ok(Err(e)) => println!("CHILD err {e}"),
        Err(p) => println!("CHILD panic {p}"),
    }
    std::process::exit(0)
}

const PER: usize = 6;
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as u64)
}
/// What one process's threads saw: deviations, begin and end of each merge, how many succeeded and failed
type Seen = (Vec<(String, String)>, Vec<(u64, u64)>, u64, u64);
fn some_merges(round: u64, proc: usize, t: usize, r: &mut Rng) -> Seen {
    let mut bad: Vec<(String, String)> = vec![];
    let mut spans = vec![];
    let (mut good, mut failed) = (0u64, 0u64);
    for j in 0..PER {
        let fail = r.chance(1, 3);
        let mark = format!(
            "%%FAULT:before={},after={}{}%",
            r.below(12),
            r.below(12),
            match (fail, r.below(4)) {
                (false, _) => "",
                (true, 0) => ",exit=1,err1=boom",
                (true, 1) => ",out=none,err2=boom",
                (true, 2) => ",out=partial,exit=3,err1=boom",
                (true, _) => ",signal=KILL,err1=boom",
            }
        );
        let k = r.range(1, 3);
        // namespaces and sizes repeat across threads; only the payload is unique
        let mods: Vec<(Vec<u8>, String)> = (0..k)
            .map(|i| {
                let mut m = if i == 0 { mark.clone().into_bytes() } else { vec![] };
                m.extend(format!("round{round}-process{proc}-thread{t}-merge{j}-module{i}").bytes());
                let most = if r.chance(1, 20) { 400_000 } else { 3000 };
                    if round % 2 == 0 {
                        // all of one size
                        m.resize(700, t as u8);
                    } else {
                        m.extend(vec![t as u8; r.below(most)]);
                    }
                (m, format!("ns{i}"))
            })
            .collect();
        let mask = r.u32() & ((1 << 23) - 1);
        let prim = r.bool();
        let copy = mods.clone();
        let mut ims: Vec<InputModule> = mods.iter().map(|(m, n)| InputModule { module: m, namespace: n.clone() }).collect();
        let p = if prim { Some(ims.remove(0)) } else { None };
        let o = build(mask, p, ims);
        let t0 = now();
        let res = run(&o);
        let t1 = now();
        spans.push((t0, t1));
        drop(o);
        let who = format!("round {round} process {proc} thread {t} merge {j}");
        match res {
            Err(p) => bad.push(("panic".into(), format!("{who}: {p}"))),
            Ok(Ok(_)) if fail => bad.push(("failure-lost".into(), who.clone())),
            Ok(Ok(b)) => {
                if b != output_for(&flags_of(mask), &output_pairs(&mods)) {
                    bad.push(("foreign-or-damaged-result".into(), format!("{who}: {}", show(&b))));
                }
                good += 1;
            }
            Ok(Err(_)) if fail => {
                failed += 1;
            }
            Ok(Err(e)) => bad.push(("merge-failed".into(), format!("{who}: {e}"))),
        }
        if copy != mods {
            bad.push(("inputs-changed".into(), who));
        }
    }
    (bad, spans, good, failed)
}
fn threads_of(round: u64, proc: usize, threads: usize, rng: &mut Rng) -> Seen {
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let mut r = rng.fork();
            std::thread::spawn(move || some_merges(round, proc, t, &mut r))
        })
        .collect();
    let mut all: Seen = Default::default();
    for h in handles {
        let (bad, spans, good, failed) = h.join().expect("monitor thread");
        all.0.extend(bad);
        all.1.extend(spans);
        all.2 += good;
        all.3 += failed;
    }
    all
}
fn child_merges(seed: u64) -> ! {
    quiet_panics();
    let mut r = Rng::new(seed);
    let arg = |k: usize| std::env::args().nth(k).and_then(|v| v.parse::<usize>().ok()).expect("argument");
    let seen = threads_of(arg(3) as u64, arg(4), r.range(2, 6), &mut r);
    println!("{}", json!([seen.0, seen.1, seen.2, seen.3]));
    std::process::exit(0)
}

fn m03(ctx: &mut Ctx) {
    let w = World::new("m03");
    let mut rng = ctx.rng(3);
    let rounds = ctx.n(45, 600);
    for round in 0..rounds {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let threads = rng.range(4, 12);
        // now and then other processes merge at the same time, with the same temp directory
        let processes = if round % 3 < 2 { rng.range(1, 3) } else { 0 };
        let children: Vec<_> = (0..processes)
            .map(|k| {
                std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["--child-merges".to_string(), rng.u64().to_string(), round.to_string(), (k + 1).to_string()])
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("a process of the monitor")
            })
            .collect();
        let mut seen = threads_of(round, 0, threads, &mut rng);
        for c in children {
            let out = c.wait_with_output().expect("a process of the monitor");
            let Ok((bad, spans, good, failed)) = serde_json::from_slice::<Seen>(&out.stdout) else {
                eprintln!("a process of the monitor gave no answer: {}", out.status);
                std::process::exit(2);
            };
            ctx.count("merges of other processes", spans.len() as u64);
            seen.0.extend(bad);
            seen.1.extend(spans);
            seen.2 += good;
            seen.3 += failed;
        }
        let (bad, spans, good, failed) = seen;
        for (s, d) in bad {
            ctx.violation(&s, &d);
        }
        ctx.count("successful merges", good);
        ctx.count("failed merges", failed);
        // times as ranks
        let mut times: Vec<u64> = spans.iter().flat_map(|(a, b)| [*a, *b]).collect();
        times.sort_unstable();
        let rank = |t: u64| times.partition_point(|x| *x < t);
        let all: Vec<(usize, usize)> = spans.iter().map(|(a, b)| (rank(*a), rank(*b))).collect();
        // observed overlaps between merges, from the logical clock
        let mut overlaps = 0u64;
        for (i, a) in all.iter().enumerate() {
            for b in &all[..i] {
                if a.0 < b.1 && b.0 < a.1 {
                    overlaps += 1;
                }
            }
        }
        ctx.count("overlapping merge pairs", overlaps);
        ctx.count("merges", all.len() as u64);
        ctx.evaluations += all.len() as u64;
        let mut order = all.clone();
        order.sort_unstable();
        ctx.saw(&order);
        // each tool run saw only files of its own merge, and no path was used by two merges
        let logs = w.take_logs();
        if logs.len() != all.len() {
            ctx.violation("tool-not-run-once", &format!("{} runs for {} merges", logs.len(), all.len()));
        }
        for l in &logs {
            let p = parse_args(&l.args);
            let mut owner: BTreeSet<String> = BTreeSet::new();
            for f in l.files.iter().step_by(2).flatten() {
                let s = String::from_utf8_lossy(f).to_string();
                if let Some(k) = s.find("round") {
                    owner.insert(s[k..].split("-module").next().unwrap_or("").to_string());
                }
            }
            if owner.len() > 1 {
                ctx.violation("inputs-mixed", &format!("{owner:?}"));
            }
            for f in p.positional.iter().step_by(2).chain(&p.outputs) {
                if !path(f).starts_with(w.tmp()) {
                    ctx.violation("outside-temp-directory", &show(f));
                }
            }
        }
        let left = w.leftovers(&w.tmp());
        if !left.is_empty() {
            ctx.violation("temporary-files-left", &format!("after round {round}: {} files, e.g. {:?}", left.len(), &left[..left.len().min(3)]));
            let _ = fs::remove_dir_all(w.tmp());
            fs::create_dir_all(w.tmp()).unwrap();
        }
        if round == 0 {
            ctx.sample(json!({"threads": threads, "merges_per_thread": PER, "other_processes": processes, "overlapping_pairs": overlaps, "temp_files_left": left.len()}));
        }
    }
    // sequential: nothing left after each single outcome, including a missing tool
    for (bin, plan) in [("bin", "exit=0"), ("bin", "exit=1"), ("bin", "err1=x"), ("bin", "out=none,exit=2"), ("bin", "signal=KILL"), ("nobin", ""), ("badbin", "")] {
        w.use_bin(bin);
        std::env::set_var("STUB_PLAN", plan);
        for k in 0..4usize {
            let m = vec![1u8; 100];
            let mut ims: Vec<InputModule> = (0..k).map(|i| InputModule { module: &m, namespace: format!("n{i}") }).collect();
            let p = if k > 1 { ims.pop() } else { None };
            let o = build(0, p, ims);
            ctx.eval();
            let _ = run(&o);
            let _ = w.take_logs();
            let left = w.leftovers(&w.tmp());
            if !left.is_empty() {
                ctx.violation("temporary-files-left", &format!("after {bin}/{plan} with {k} modules: {left:?}"));
            }
            ctx.saw(&(bin, plan, k));
            ctx.count("sequential outcomes", 1);
        }
    }
    if ctx.counters.get("overlapping merge pairs").copied().unwrap_or(0) < 50 && !ctx.violated() {
        eprintln!("too little overlap observed");
        std::process::exit(2);
    }
    ctx.rule = "rounds of 4-12 threads, now and then with up to 3 more processes sharing the temp directory, merging unique payloads with random tool delays and failures; non-trivial: distinct observed begin/end orders of the merges of a round, and distinct single outcomes".into();
}

fn main() {
    let argv0 = std::env::args_os().next().unwrap_or_default();
    if Path::new(&argv0).file_name().is_some_and(|n| n == "wasm-merge") {
        tool_main();
    }
    if std::env::args().nth(1).as_deref() == Some("--child-fsize") {
        child_fsize();
    }
    if std::env::args().nth(1).as_deref() == Some("--child-merges") {
        child_merges(std::env::args().nth(2).and_then(|v| v.parse().ok()).expect("a seed"));
    }
    quiet_panics();
    let mut ctx = Ctx::from_env("");
    ctx.set_deadline(120, 900);
    ctx.assumptions = vec![
        "a stand-in for binaryen's wasm-merge is found on PATH; the real tool is not installed here".into(),
        "namespaces starting with '-' are not tried: the real tool would read them as options".into(),
    ];
    match ctx.id.as_str() {
        "M01" => m01(&mut ctx),
        "M02" => m02(&mut ctx),
        "M03" => m03(&mut ctx),
        _ => std::process::exit(2),
    }
    std::process::exit(ctx.finish());
}
