//! The AssemblyScript stack library, run by the AssemblyScript evaluator in standin/as_emu.js
//! against the model of slots.rs.
use crate::run::*;
use crate::slots::*;
use crate::wasm::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use vcommon::*;
use wastrumentation::compiler::LibGeneratable;
use wastrumentation::wasm_constructs::Signature;
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;

pub struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
fn script() -> PathBuf {
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    verif.join("harness/h_core/standin/as_emu.js")
}
impl Node {
    fn start() -> Node {
        let mut child = Command::new("node").arg("--stack-size=4000").arg(script()).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("node");
        let to = child.stdin.take().expect("stdin");
        let from = BufReader::new(child.stdout.take().expect("stdout"));
        Node { child, to, from }
    }
    fn ask(&mut self, q: &Value) -> Value {
        let mut line = q.to_string();
        line.push('\n');
        self.to.write_all(line.as_bytes()).expect("to node");
        self.to.flush().expect("to node");
        let mut back = String::new();
        self.from.read_line(&mut back).expect("from node");
        serde_json::from_str(&back).unwrap_or_else(|e| panic!("node answered {back:?}: {e}"))
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// one evaluator per thread
pub fn ask(q: &Value) -> Value {
    NODE.with(|n| n.borrow_mut().get_or_insert_with(Node::start).ask(q))
}
fn wasm_type(t: &Value) -> Option<VT> {
    Some(match t.as_str()? {
        "i32" | "u32" | "usize" | "isize" | "bool" => VT::I32,
        "i64" | "u64" => VT::I64,
        "f32" => VT::F32,
        "f64" => VT::F64,
        _ => return None,
    })
}
/// What a loaded program exports.
pub fn exports(answer: &Value) -> Result<Vec<(String, FT)>, String> {
    let Some(x) = answer["exports"].as_object() else {
        let why = answer["compile"].as_str().or(answer["trap"].as_str()).unwrap_or("no answer").to_string();
        // not a verdict on the program
        assert!(!why.contains(": unsupported "), "the AssemblyScript evaluator lacks something: {why}");
        return Err(why);
    };
    x.iter()
        .map(|(n, t)| {
            let params = t["params"].as_array().into_iter().flatten().map(wasm_type).collect::<Option<Vec<_>>>();
            let results = if t["result"].is_null() { Some(vec![]) } else { wasm_type(&t["result"]).map(|t| vec![t]) };
            match (params, results) {
                (Some(p), Some(r)) => Ok((n.clone(), FT { params: p, results: r })),
                _ => Err(format!("export {n} has the type {t}")),
            }
        })
        .collect()
}
pub fn call(name: &str, args: &[u64]) -> Result<Vec<u64>, String> {
    let v = ask(&json!({"c": name, "a": args.iter().map(|a| format!("{a:x}")).collect::<Vec<_>>()}));
    match v["r"].as_array() {
        Some(r) => r.iter().map(|x| u64::from_str_radix(x.as_str().unwrap_or("?"), 16).map_err(|e| e.to_string())).collect(),
        None => Err(v.to_string()),
    }
}
struct Script;
impl Lib for Script {
    fn call(&mut self, name: &str, args: &[u64]) -> Result<Vec<u64>, String> {
        call(name, args)
    }
    fn footprint(&mut self) -> Option<u64> {
        ask(&json!({"pages": 1}))["n"].as_u64().map(|n| n * 65536)
    }
}
pub fn g03(ctx: &mut Ctx) {
    // node starts and runs long histories in one case
    HANG_AFTER.store(250, std::sync::atomic::Ordering::Relaxed);
    ctx.rule = "one observation = one history of operations on a generated library, every slot value and type code compared with the model".into();
    let n = ctx.n(320, 6_000);
    let style = Style { nested: true, any_nan: true };
    parallel(ctx, 1, n, |i, r, rep| {
        let edges = i % 32 == 1;
        let sigs = if edges { page_ends(r) } else { some_sigs(r, 6, 40) };
        let real: Vec<Signature> = sigs.iter().map(Sig::real).collect();
        rep.evals += 1;
        let text = |what: String| format!("signatures {:?}\n{what}", sigs.iter().map(Sig::suffix).collect::<Vec<_>>());
        let lib = match guarded(|| AssemblyScript::generate_lib(&real)) {
            Ok(l) => l,
            Err(p) => return rep.violation("panic", text(p)),
        };
        let has = match exports(&ask(&json!({"load": lib.content}))) {
            Ok(x) => x,
            Err(e) => return rep.violation("does-not-compile", text(e)),
        };
        for (name, ft) in required(&sigs) {
            match has.iter().find(|(n, _)| *n == name) {
                Some((_, t)) if *t == ft => {}
                other => return rep.violation("interface", text(format!("export {name}: {other:?}, expected {ft:?}"))),
            }
        }
        if edges {
            if let Err((s, d)) = over_page_ends(&mut Script, &sigs, style, r, rep, 12) {
                return rep.violation(&s, text(d));
            }
        }
        let tower = if i % 40 == 0 { 1000 } else { 0 };
        if let Err((s, d)) = histories(&mut Script, &sigs, style, r, rep, 250, tower) {
            return rep.violation(&s, text(d));
        }
        rep.count("signatures", sigs.len() as u64);
        rep.saw(&sigs);
        if rep.samples.is_empty() {
            rep.samples.push(json!({"signatures": sigs.iter().map(Sig::suffix).collect::<Vec<_>>()}));
        }
    });
}
