//! C06: what an instrumented module looks like from outside.
use crate::encode::encode;
use crate::gen;
use crate::pipe::*;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use crate::weave::*;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use vcommon::*;

type Io = BTreeMap<(String, String, String), usize>;
fn imports(m: &Module) -> Io {
    let mut s = Io::new();
    for i in &m.imports {
        *s.entry((i.module.clone(), i.name.clone(), format!("{:?}", m.ext(i.kind, i.index)))).or_insert(0) += 1;
    }
    s
}
fn exports(m: &Module) -> BTreeMap<String, String> {
    m.exports.iter().map(|e| (e.name.clone(), format!("{:?}", m.ext(e.kind, e.index)))).collect()
}

/// Err: (signature, what is wrong)
pub fn outside(before: &Module, after: &[u8], lib: Option<&[u8]>, on: &HashSet<&'static str>, applied: Option<&HashSet<u32>>) -> Result<(usize, usize), (String, String)> {
    let bad = |s: &str, d: String| Err((s.to_string(), d));
    if let Err(e) = validate(after) {
        return bad("invalid", e);
    }
    let m = match decode(after) {
        Ok(m) => m,
        Err(e) => return bad("unreadable", e),
    };
    let l = match lib.map(decode) {
        Some(Err(e)) => return bad("library-unreadable", e),
        Some(Ok(l)) => Some(l),
        None => None,
    };
    if l.is_some() != applied.is_some() {
        return bad("library-presence", format!("library {} though generic apply {}", l.is_some(), applied.is_some()));
    }
    let (i0, mut added) = (imports(before), imports(&m));
    for (k, n) in &i0 {
        let have = added.get(k).copied().unwrap_or(0);
        if have < *n {
            return bad("import-lost", format!("{k:?}: {n} before, {have} after"));
        }
        if have == *n {
            added.remove(k);
        } else {
            *added.get_mut(k).unwrap() -= n;
        }
    }
    let mut again: Io = Io::new();
    for f in applied.into_iter().flatten() {
        if let Some(i) = before.import_of(Kind::Func, *f) {
            *again.entry((i.module.clone(), i.name.clone(), format!("{:?}", before.ext(Kind::Func, *f)))).or_insert(0) += 1;
        }
    }
    let lx = l.as_ref().map(exports).unwrap_or_default();
    for ((ns, name, ty), n) in &added {
        let ok = match ns.as_str() {
            NS_ANALYSIS => {
                if name == APPLY {
                    applied.is_some() && *ty == format!("{:?}", Ext::Func(FT { params: vec![VT::I32; 7], results: vec![] }))
                } else {
                    on.contains(name.as_str()) && by_name(name).is_some_and(|t| *ty == format!("{:?}", Ext::Func(t.ft())))
                }
            }
            NS_LIB => lx.get(name).is_some_and(|t| t == ty),
            _ => again.get(&(ns.clone(), name.clone(), ty.clone())).is_some_and(|k| n <= k),
        };
        if !ok {
            return bad(&format!("import-added:{}", if ns == NS_ANALYSIS || ns == NS_LIB { name } else { "other" }), format!("unrequested import {ns:?} {name:?} {ty}"));
        }
    }
    let (e0, mut extra) = (exports(before), exports(&m));
    for (n, t) in &e0 {
        match extra.remove(n) {
            Some(u) if u == *t => {}
            Some(u) => return bad("export-changed", format!("{n:?}: {t} became {u}")),
            None => return bad("export-lost", format!("{n:?}: {t}")),
        }
    }
    let n_extra = extra.len();
    let mut want: BTreeMap<String, String> = helpers().into_iter().map(|(n, t, _)| (n, format!("{:?}", Ext::Func(t)))).collect();
    if applied.is_some() {
        want.insert(CALL_BASE.into(), format!("{:?}", Ext::Func(FT::new(&[VT::I32, VT::I32], &[]))));
    }
    for (n, t) in want {
        match extra.remove(&n) {
            Some(u) if u == t => {}
            u => return bad(&format!("helper:{n}"), format!("{n}: expected {t}, found {u:?}")),
        }
    }
    if let Some((n, t)) = extra.into_iter().next() {
        return bad("export-added", format!("{n:?}: {t}"));
    }
    if m.mems.len() != before.mems.len() || m.globals.len() != before.globals.len() {
        return bad("state-added", format!("{} memories, {} globals became {} and {}", before.mems.len(), before.globals.len(), m.mems.len(), m.globals.len()));
    }
    Ok((added.len(), n_extra))
}

const CORNERS: [&str; 16] = [
    "(module)",
    "(module (memory 0 0))",
    "(module (import \"a\" \"m\" (memory 0)))",
    "(module (func))",
    "(module (import \"a\" \"f\" (func)) (start 0))",
    "(module (func $s) (start $s))",
    "(module (import \"a\" \"f\" (func (param i32 i64) (result f32 f64))) (export \"x\" (func 0)) (export \"y\" (func 0)))",
    "(module (table 0 funcref) (export \"t\" (table 0)))",
    "(module (table 0 externref) (func (export \"\") (param externref) (result externref) local.get 0))",
    "(module (global (export \"g\") (mut f64) (f64.const nan:0x4)) (func (param f64) local.get 0 global.set 0))",
    "(module (import \"a\" \"g\" (global (mut i64))) (func (result i64) global.get 0))",
    "(module (func (export \"f\") (result i32 i64 f32 f64) unreachable))",
    "(module (func (export \"f\") (param i32) (result i32) (block (result i32) (br_table 0 0 0 (i32.const 1) (local.get 0)))))",
    "(module (func (export \"f\") (loop (br_if 0 (i32.const 0))) return unreachable br 0))",
    "(module (elem declare func 0) (func (result funcref) ref.func 0))",
    "(module (func (param i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32 i32) (result i32 i32 i32 i32 i32 i32 i32 i32) (local i64 i64 f32) local.get 0 local.get 1 local.get 2 local.get 3 local.get 4 local.get 5 local.get 6 local.get 7))",
];

fn check(bytes: &[u8], original: &Module, on: &HashSet<&'static str>, apply: bool, targets: Option<Vec<u32>>, c: &dyn Fn() -> String, interface: wastrumentation::analysis::AnalysisInterface, rep: &mut Report) {
    rep.evals += 1;
    let n = original.funcs.len() as u32;
    let applied: Option<HashSet<u32>> = apply.then(|| {
        (0..n)
            .filter(|i| !original.funcs[*i as usize].ty.mentions_refs() && targets.as_ref().is_none_or(|t| t.contains(i)))
            .collect()
    });
    match instrumented(bytes, interface, targets) {
        Err(e) => rep.violation("instrumentation-failed", format!("instrumenting a valid program: {}\n{}", truncate(&e, 600), c())),
        Ok((program, lib)) => {
            if let Some(l) = &lib {
                if let Err(e) = validate(l) {
                    rep.violation("invalid-library", format!("{e}\n{}", c()));
                    return;
                }
            }
            match outside(original, &program, lib.as_deref(), on, applied.as_ref()) {
                Err((s, d)) => rep.violation(&s, format!("{d}\n{}", c())),
                Ok((i, e)) => {
                    rep.count("imports added", i as u64);
                    rep.count("exports added", e as u64);
                    rep.count("imports kept", original.imports.len() as u64);
                    rep.count("exports kept", original.exports.len() as u64);
                    rep.count("bytes validated", program.len() as u64);
                    rep.saw(&(bytes, &applied.is_some(), on.len()));
                    if rep.samples.is_empty() && i > 0 {
                        rep.samples.push(json!({"bytes": bytes.len(), "bytes_after": program.len(), "hooks": on.len(), "apply": apply, "imports_added": i, "exports_added": e}));
                    }
                }
            }
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "one observation = one program and selection whose instrumented form validated and kept its imports and exports".into();
    let n = ctx.n(40_000, 1_500_000);
    parallel(ctx, 1, n, |k, r, rep| {
        if k < 64 * CORNERS.len() as u64 {
            let w = CORNERS[k as usize % CORNERS.len()];
            let bytes = wat::parse_str(w).expect("corner");
            let original = decode(&bytes).expect("corner");
            let on = match k / CORNERS.len() as u64 {
                0 | 1 => TRAPS.iter().map(|t| t.name).collect(),
                2 | 3 => HashSet::new(),
                _ => some_traps(r),
            };
            let apply = k / CORNERS.len() as u64 % 2 == 1;
            let i = own_interface(&on, apply);
            check(&bytes, &original, &on, apply, None, &|| format!("{w}\n{on:?} {apply}"), i, rep);
            rep.count("corner modules", 1);
            return;
        }
        let mut c = mixed_case(k, r, rep);
        if r.chance(1, 10) {
            // larger ones
            let o = gen::Opts { refs: true, size: 400, max_funcs: 25, long_branch_tables: r.bool(), ..Default::default() };
            let g = gen::module(r, &o);
            c.bytes = encode(&g.module, &g.types);
            c.original = std::rc::Rc::new(decode(&c.bytes).expect("generated"));
            rep.count("large modules", 1);
        }
        if r.chance(1, 8) {
            let names: HashSet<&'static str> = TRAPS.iter().map(|t| t.name).collect();
            c.on = names;
        }
        c.apply = r.bool();
        if r.chance(1, 3) {
            c.targets = Some(some_targets(r, &c.original));
        }
        // an export that already has the name of a helper: nothing valid can come out
        if r.chance(1, 25) && !c.original.exports.is_empty() {
            let mut m = (*c.original).clone();
            let mut taken: Vec<String> = helpers().into_iter().map(|h| h.0).collect();
            if c.apply {
                taken.push(CALL_BASE.into());
            }
            let k = r.below(m.exports.len());
            m.exports[k].name = r.pick(&taken).clone();
            let bytes = encode(&m, &[]);
            if validate(&bytes).is_ok() {
                rep.evals += 1;
                match wastrument_raw(&bytes, Ok(b"\0asm\x01\0\0\0".to_vec()), c.interface(r), c.targets.clone(), None) {
                    Err(Failed::Error(_)) => rep.count("name clashes refused", 1),
                    Err(Failed::Panic(p)) => rep.violation("clash-panic", format!("{p}\nexport {:?}\n{}", m.exports[k].name, c.describe())),
                    Ok(_) => rep.violation("clash-accepted", format!("the program exports {:?}, yet instrumentation succeeded\n{}", m.exports[k].name, c.describe())),
                }
                return;
            }
        }
        // a module may also export call_base itself when no generic apply is asked for
        if !c.apply && r.chance(1, 30) && !c.original.exports.is_empty() {
            let mut m = (*c.original).clone();
            let k = r.below(m.exports.len());
            m.exports[k].name = CALL_BASE.into();
            c.bytes = encode(&m, &[]);
            c.original = std::rc::Rc::new(m);
        }
        let i = c.interface(r);
        check(&c.bytes, &c.original, &c.on, c.apply, c.targets.clone(), &|| c.describe(), i, rep);
    });
}
