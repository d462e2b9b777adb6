//! gen weave OUT PROG.wat HOOKS [TARGETS]: writes OUT/target.wasm (and OUT/lib.wasm) as handed to wasm-merge
//! gen immutable PROG.wat: prints the functions reported immutable
//! gen lift PROG.wat: lifts and lowers every body, prints what is not the same
use std::collections::HashSet;
use wastrumentation::analysis::ProcessedAnalysis;
use wastrumentation::compiler::Compiles;
use wastrumentation::{Configuration, Wastrumenter};
use wastrumentation_lang_webassembly::compile::compiler::Compiler;
use wastrumentation_lang_webassembly::compile::options::WebAssemblySource;
use wastrumentation_lang_webassembly::compile::WebAssembly;
use wastrumentation_lang_webassembly::generate::analysis::{Hook, WasmAnalysisSpec};

fn fail(m: impl std::fmt::Display) -> ! {
    eprintln!("gen: {m}");
    std::process::exit(1)
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let wasm = |p: &str| wat::parse_file(p).unwrap_or_else(|e| { eprintln!("bad demo program: {e}"); std::process::exit(3) });
    match a[1].as_str() {
        "weave" => {
            std::env::set_var("DUMP", &a[2]);
            let wanted: HashSet<&str> = a[4].split(',').filter(|h| !h.is_empty()).collect();
            let hooks: HashSet<Hook> = Hook::all_hooks()
                .into_iter()
                .filter(|h| wanted.contains("all") || wanted.contains(format!("{h:?}").as_str()))
                .collect();
            let targets = a.get(5).map(|t| t.split(',').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect());
            let source = WebAssemblySource::Wat("(module)".into());
            let analysis: ProcessedAnalysis<WebAssembly> = WasmAnalysisSpec { source, hooks }.into();
            let w: Wastrumenter<WebAssembly, Compiler, WebAssembly, Compiler> =
                Wastrumenter::new(Box::new(Compiler::setup_compiler().unwrap()), Box::new(Compiler::setup_compiler().unwrap()));
            let c = Configuration { target_indices: targets, primary_selection: None };
            if let Err(e) = w.wastrument(&wasm(&a[3]), analysis, &c) {
                fail(format!("{e:?}"))
            }
        }
        "immutable" => {
            let mut v: Vec<u32> = wastrumentation_static_analysis::immutable_functions_from_binary(&wasm(&a[2]))
                .unwrap_or_else(|| fail("unreadable"))
                .into_iter()
                .collect();
            v.sort();
            println!("immutable={v:?}");
        }
        "lift" => {
            use wastrumentation::parse_nesting::*;
            let m = wasabi_wasm::Module::from_bytes(&wasm(&a[2])).unwrap().0;
            for (i, f) in m.functions() {
                let Some(code) = f.code() else { continue };
                let h: Result<HighLevelBody, _> = (&m, f, code, &i).try_into();
                match h {
                    Err(e) => fail(format!("function {}: {e:?}", i.to_u32())),
                    Ok(h) => {
                        let LowLevelBody(l) = h.into();
                        if l != code.body {
                            fail(format!("function {}: {l:?} instead of {:?}", i.to_u32(), code.body))
                        }
                    }
                }
            }
        }
        _ => fail("?"),
    }
}
