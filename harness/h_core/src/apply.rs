//! C07: generic function application.
use crate::analysis::*;
use crate::gen::interesting;
use crate::run::*;
use crate::wasm::*;
use crate::weave::*;
use std::collections::HashSet;
use std::fmt::Write;
use std::rc::Rc;
use vcommon::*;

fn konst(r: &mut Rng, t: VT) -> String {
    let v = interesting(r, t);
    match t {
        VT::I32 => format!("i32.const {}", v as u32 as i32),
        VT::I64 => format!("i64.const {}", v as i64),
        VT::F32 => format!("(f32.reinterpret_i32 (i32.const {}))", v as u32 as i32),
        _ => format!("(f64.reinterpret_i64 (i64.const {}))", v as i64),
    }
}
/// a xor b, whatever the type
fn mix(t: VT, a: &str, b: &str) -> String {
    match t {
        VT::I32 => format!("(i32.xor {a} {b})"),
        VT::I64 => format!("(i64.add {a} {b})"),
        VT::F32 => format!("(f32.reinterpret_i32 (i32.xor (i32.reinterpret_f32 {a}) (i32.reinterpret_f32 {b})))"),
        _ => format!("(f64.reinterpret_i64 (i64.xor (i64.reinterpret_f64 {a}) (i64.reinterpret_f64 {b})))"),
    }
}
fn decl(k: &str, ts: &[VT]) -> String {
    if ts.is_empty() {
        String::new()
    } else {
        format!("({k} {})", ts.iter().map(|t| t.low()).collect::<Vec<_>>().join(" "))
    }
}
/// Functions that call each other to a depth given by their first argument and combine what they
/// were given with what came back; `loop` calls the first one again and again.
pub fn towers(r: &mut Rng, depth: u64, rounds: u64) -> (String, u64) {
    let k = r.range(1, 4);
    let sigs: Vec<FT> = (0..k)
        .map(|_| {
            let mut p = vec![VT::I32];
            let (a, b) = (*r.pick(&[0usize, 1, 3, 8, 16]), *r.pick(&[0usize, 1, 1, 2, 7]));
            p.extend((0..a).map(|_| *r.pick(&NUM)));
            FT { params: p, results: (0..b).map(|_| *r.pick(&NUM)).collect() }
        })
        .collect();
    let slots = sigs.iter().map(|s| s.params.len() + s.results.len()).max().unwrap_or(0) as u64;
    let mut w = String::from("(module\n");
    let import = r.bool();
    // the bottom of each tower: an import, a constant, or the arguments themselves
    if import {
        for (i, s) in sigs.iter().enumerate() {
            let _ = writeln!(w, "(import \"env\" \"leaf{i}\" (func $leaf{i} {} {}))", decl("param", &s.params), decl("result", &s.results));
        }
    }
    let _ = writeln!(w, "(table {k} funcref) (elem (i32.const 0) {})", (0..k).map(|i| format!("$f{i}")).collect::<Vec<_>>().join(" "));
    for (i, s) in sigs.iter().enumerate() {
        let j = r.below(k);
        let callee = &sigs[j];
        let own = |t: VT, r: &mut Rng| -> Option<usize> {
            let c: Vec<usize> = (1..s.params.len()).filter(|x| s.params[*x] == t).collect();
            if c.is_empty() {
                None
            } else {
                Some(*r.pick(&c))
            }
        };
        let _ = writeln!(w, "(func $f{i} (export \"f{i}\") {} {} {}", decl("param", &s.params), decl("result", &s.results), decl("local", &callee.results));
        let _ = write!(w, " (i32.eqz (local.get 0)) if");
        if import && r.bool() {
            for n in 0..s.params.len() {
                let _ = write!(w, " (local.get {n})");
            }
            let _ = write!(w, " (call $leaf{i})");
        } else {
            for t in &s.results {
                let e = match own(*t, r) {
                    Some(x) => format!("(local.get {x})"),
                    None => konst(r, *t),
                };
                let _ = write!(w, " {e}");
            }
        }
        let _ = writeln!(w, " return end");
        let _ = write!(w, " (i32.sub (local.get 0) (i32.const 1))");
        for t in &callee.params[1..] {
            let e = match own(*t, r) {
                Some(x) if r.bool() => format!("(local.get {x})"),
                Some(x) => {
                    let c = konst(r, *t);
                    let c = if c.starts_with('(') { c } else { format!("({c})") };
                    mix(*t, &format!("(local.get {x})"), &c)
                }
                None => konst(r, *t),
            };
            let _ = write!(w, " {e}");
        }
        if r.chance(1, 3) {
            let _ = writeln!(w, " (i32.const {j}) call_indirect {} {}", decl("param", &callee.params), decl("result", &callee.results));
        } else {
            let _ = writeln!(w, " call $f{j}");
        }
        let base = s.params.len();
        for n in (0..callee.results.len()).rev() {
            let _ = write!(w, " local.set {}", base + n);
        }
        for t in &s.results {
            let back: Vec<usize> = (0..callee.results.len()).filter(|n| callee.results[*n] == *t).collect();
            let e = match (own(*t, r), back.is_empty()) {
                (Some(x), false) => mix(*t, &format!("(local.get {x})"), &format!("(local.get {})", base + *r.pick(&back))),
                (Some(x), true) => format!("(local.get {x})"),
                (None, false) => format!("(local.get {})", base + *r.pick(&back)),
                (None, true) => konst(r, *t),
            };
            let _ = write!(w, " {e}");
        }
        let _ = writeln!(w, ")");
    }
    let s = &sigs[0];
    let _ = write!(w, "(func (export \"loop\") (param i32) (loop (i32.const {depth})");
    for t in &s.params[1..] {
        let _ = write!(w, " {}", konst(r, *t));
    }
    let _ = write!(w, " call $f0");
    for _ in &s.results {
        let _ = write!(w, " drop");
    }
    let _ = writeln!(w, " (br_if 0 (local.tee 0 (i32.sub (local.get 0) (i32.const 1)))) ))\n)");
    let _ = rounds;
    (w, slots)
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "one observation = the sequence of applications (function, typed arguments, base results) of one program, equal on both sides".into();
    let n = ctx.n(30_000, 900_000);
    parallel(ctx, 1, n, |k, r, rep| {
        if k % 40 == 0 {
            deep(r, rep);
            return;
        }
        let mut c = mixed_case(k, r, rep);
        c.apply = true;
        c.policy.ledger = true;
        c.policy.alter_apply = r.chance(2, 3);
        match r.below(4) {
            0 => {}
            1 => c.on = c.on.iter().copied().filter(|_| r.chance(1, 8)).collect(),
            _ => c.on.clear(),
        }
        if r.chance(1, 4) {
            c.targets = c.targets.take().or_else(|| Some(some_targets(r, &c.original)));
        }
        rep.evals += 1;
        if let Some(s) = both(&c, r, rep) {
            if compare(&c, &s, Aspects { observable: true, applies: true, ..NONE }, rep) {
                note(&c, &s, rep);
                let l = &s.instrumented.world.ledger;
                rep.count("buffers allocated", l.allocated);
                rep.count("buffers freed", l.freed);
                rep.count("accesses to live buffers", l.used);
            }
        }
    });
}

fn deep(r: &mut Rng, rep: &mut Report) {
    let (depth, rounds) = if r.bool() { (*r.pick(&[50u64, 400, 1200, 2500]), 2) } else { (r.range(1, 5) as u64, 1200) };
    let (text, slots) = towers(r, depth, rounds);
    let bytes = match wat::parse_str(&text) {
        Ok(b) => b,
        Err(e) => panic!("towers: {e}\n{text}"),
    };
    let original = Rc::new(decode(&bytes).expect("towers"));
    if let Err(e) = validate(&bytes) {
        panic!("towers: {e}\n{text}");
    }
    let mut script = script(r, &original, 0);
    for _ in 0..r.range(1, 3) {
        let e = entries(&original);
        let (export, ty) = if r.chance(1, 2) { e[e.len() - 1].clone() } else { r.pick(&e).clone() };
        let mut args: Vec<u64> = ty.params.iter().map(|t| interesting(r, *t)).collect();
        args[0] = if export == "loop" { rounds } else { depth };
        script.push(Call { export, ty, args });
    }
    let mut on: HashSet<&'static str> = HashSet::new();
    if r.chance(1, 4) {
        on.extend(["return_trap", "specialized_call_pre", "specialized_call_post"]);
    }
    let c = Case {
        bytes,
        original,
        on,
        apply: true,
        targets: None,
        script,
        policy: Policy { seed: r.u64(), cap: 60_000, fuel: 2_000_000, ledger: true, alter_apply: r.chance(1, 6) && depth < 6, ..Default::default() },
        depth: depth as usize * 4 + 100,
    };
    rep.evals += 1;
    if let Some(s) = both(&c, r, rep) {
        if compare(&c, &s, Aspects { observable: true, applies: true, ..NONE }, rep) {
            let w = &s.instrumented.world;
            rep.count("towers", 1);
            rep.count(&format!("towers of depth {}", if depth < 6 { "1..5, repeated".to_string() } else { depth.to_string() }), 1);
            rep.count("buffers allocated", w.ledger.allocated);
            rep.count("buffers freed", w.ledger.freed);
            rep.count("accesses to live buffers", w.ledger.used);
            rep.most("max nesting of applications", w.max_apply_depth);
            rep.saw(&fnv(2, &s.reference.world.log));
            // the library's memory is bounded by what was live at once
            let all_ok = s.instrumented.results.iter().all(|r| r.is_ok());
            if let (Some(l), true) = (w.lib, all_ok) {
                let pages: u64 = s.instrumented.store.insts[l].mems.iter().map(|m| s.instrumented.store.mems[*m].data.len() as u64 / 65536).sum();
                let live = (w.max_apply_depth + 2) * (slots * 12 + 16);
                let bound = 2 + 2 * (live / 65536);
                rep.count("library pages", pages);
                if pages > bound {
                    rep.violation("storage-not-released", format!("{pages} pages of working storage for at most {live} live bytes\n{}", c.describe()));
                }
            }
        }
    }
}
