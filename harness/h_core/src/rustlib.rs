//! The Rust stack library, compiled for wasm32 and run against the model of slots.rs.
use crate::run::*;
use crate::slots::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use vcommon::*;
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions, LibGeneratable};
use wastrumentation::wasm_constructs::Signature;
use wastrumentation_lang_rust::compile::compiler::Compiler as RustCompiler;
use wastrumentation_lang_rust::compile::options::CompilerOptions as RustOptions;
use wastrumentation_lang_rust::compile::Rust;

fn vendor() -> PathBuf {
    let root = Command::new("rustc").args(["+nightly", "--print", "sysroot"]).output().expect("nightly rustc");
    PathBuf::from(String::from_utf8_lossy(&root.stdout).trim()).join("lib/rustlib/src/rust/library/vendor")
}
/// Builds one crate; the module it becomes, or what the compiler said.
fn build(dir: &Path, target: &Path, standin: &Path, vendor: &Path, release: bool, manifest: &str, source: &str) -> Result<Vec<u8>, String> {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("src")).expect("dir");
    std::fs::write(dir.join("Cargo.toml"), manifest).expect("write");
    std::fs::write(dir.join("src/lib.rs"), source).expect("write");
    let out = dir.join("out");
    let mut c = Command::new("cargo");
    c.args(["+nightly", "build", "--offline", "-Zbuild-std=core,alloc", "-Zunstable-options", "--target", "wasm32-unknown-unknown"])
        .arg("--artifact-dir")
        .arg(&out)
        .arg("--target-dir")
        .arg(target)
        .args(["--config", "source.crates-io.replace-with=\"v\""])
        .arg("--config")
        .arg(format!("source.v.directory={:?}", vendor.display().to_string()))
        .arg("--config")
        .arg(format!("patch.crates-io.wee_alloc.path={:?}", standin.display().to_string()))
        .current_dir(dir)
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR");
    if release {
        c.arg("--release");
    }
    let o = c.output().expect("cargo");
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        return Err(e.lines().filter(|l| !l.contains("Compiling")).collect::<Vec<_>>().join("\n"));
    }
    let wasm = std::fs::read_dir(&out).into_iter().flatten().flatten().map(|e| e.path()).find(|p| p.extension().is_some_and(|x| x == "wasm"));
    wasm.map(|p| std::fs::read(p).expect("module")).ok_or_else(|| "the build left no module".into())
}
thread_local! {
    static ASKED: std::cell::RefCell<Option<rust_to_wasm_compiler::Request>> = const { std::cell::RefCell::new(None) };
}
pub fn g02(ctx: &mut Ctx) {
    ctx.rule = "one observation = one history of operations on a generated and compiled library, every slot value and type code compared with the model".into();
    ctx.set_deadline(500, 1500);
    // a case includes a build
    HANG_AFTER.store(280, std::sync::atomic::Ordering::Relaxed);
    rust_to_wasm_compiler::set_hook(Box::new(|r| {
        ASKED.with(|a| *a.borrow_mut() = Some(r.clone()));
        Ok(vec![])
    }));
    let work = ctx.verif.join("work").join(format!("rustlib-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    let standin = ctx.verif.join("harness/h_core/standin/wee_alloc");
    let vendor = vendor();
    let run = |ctx: &mut Ctx, stream: u64, n: u64, force_dev: bool| {
        // a first build on its own warms the target directory that is then copied per thread
        let lanes: Mutex<Vec<PathBuf>> = Mutex::new(vec![]);
        let probe = "[package]\nname='probe'\nversion='0.1.0'\nedition='2021'\n[lib]\ncrate-type=['cdylib']\n[dependencies]\nwee_alloc='0.4.5'\n[profile.release]\nstrip=true\nlto=true\npanic='abort'\n[profile.dev]\npanic='abort'\n[workspace]\n";
        let source = "#![no_std]\nextern crate wee_alloc;\n#[panic_handler]\nfn panic(_: &core::panic::PanicInfo<'_>) -> ! { core::arch::wasm32::unreachable() }\n";
        let first = work.join(format!("t{stream}-0"));
        if let Err(e) = build(&work.join("probe"), &first, &standin, &vendor, !force_dev, probe, source) {
            eprintln!("the toolchain does not build an empty library: {e}");
            std::process::exit(3);
        }
        for k in 1..8 {
            let to = work.join(format!("t{stream}-{k}"));
            let ok = Command::new("cp").arg("-a").arg(&first).arg(&to).status().is_ok_and(|s| s.success());
            assert!(ok, "copy of the target directory");
            lanes.lock().expect("lanes").push(to);
        }
        lanes.lock().expect("lanes").push(first);
        let style = Style { nested: false, any_nan: true };
        parallel(ctx, stream, n, |i, r, rep| {
            let mut sigs = some_sigs(r, 14, 40);
            if i == 0 {
                sigs = vec![];
            }
            if i == 1 {
                sigs = vec![Sig { ret: vec![], arg: vec![] }];
            }
            let real: Vec<Signature> = sigs.iter().map(Sig::real).collect();
            let text = |what: String| format!("signatures {:?}\n{what}", sigs.iter().map(Sig::suffix).collect::<Vec<_>>());
            rep.evals += 1;
            let asked = guarded(|| {
                let lib = Rust::generate_lib(&real);
                let made = RustCompiler::setup_compiler().expect("setup").compile(&RustOptions::default_for(lib.content));
                made.map_err(|e| e.reason().to_string()).map(|_| ASKED.with(|a| a.borrow_mut().take()))
            });
            use rust_to_wasm_compiler::{Profile, Request};
            let (manifest, source, profile) = match asked {
                Err(p) => return rep.violation("panic", text(p)),
                Ok(Ok(Some(Request::Source { manifest, source, profile, .. }))) => (manifest, source, profile),
                Ok(other) => return rep.violation("not-compiled", text(format!("the compiler was asked for {other:?}"))),
            };
            let lane = lanes.lock().expect("lanes").pop().expect("lane");
            let release = profile == Profile::Release && !force_dev;
            let built = build(&work.join(format!("s{stream}-{i}")), &lane, &standin, &vendor, release, &manifest, &source);
            lanes.lock().expect("lanes").push(lane);
            let bytes = match built {
                Ok(b) => b,
                Err(e) => return rep.violation("does-not-compile", text(truncate(&e, 4000))),
            };
            let _ = std::fs::remove_dir_all(work.join(format!("s{stream}-{i}")));
            let mut lib = match Compiled::new(&bytes, &sigs) {
                Ok(l) => l,
                Err((s, d)) => return rep.violation(&s, text(d)),
            };
            rep.count("libraries compiled", 1);
            rep.count("signatures", sigs.len() as u64);
            if sigs.is_empty() {
                return;
            }
            for k in 0..ROUNDS {
                rep.evals += 1;
                if let Err((s, d)) = histories(&mut lib, &sigs, style, r, rep, 600, if k == 0 { 2000 } else { 100 }) {
                    return rep.violation(&s, text(d));
                }
                rep.saw(&(sigs.clone(), k));
            }
            // everything was released: the allocator must agree
            match lib.call("verif_live", &[]) {
                Ok(v) if v == [0] => {}
                other => rep.violation("leak", text(format!("after every frame was released the allocator still counts {other:?} buffers"))),
            }
            if rep.samples.is_empty() {
                rep.samples.push(json!({"signatures": sigs.iter().map(Sig::suffix).collect::<Vec<_>>(), "library bytes": bytes.len()}));
            }
        });
    };
    let n = ctx.n(24, 400);
    run(ctx, 1, n, false);
    if !ctx.quick() {
        run(ctx, 2, 150, true);
    }
    let _ = std::fs::remove_dir_all(&work);
}
const ROUNDS: usize = 6;
