//! C08: the operations offered to an analysis, against a byte array.
use crate::analysis::*;
use crate::gen::interesting;
use crate::interp::*;
use crate::pipe::*;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use crate::weave::*;
use serde_json::json;
use std::collections::HashSet;
use std::fmt::Write;
use std::rc::Rc;
use vcommon::*;

const PAGE_LEN: usize = 65536;
fn some_u32(r: &mut Rng, len: u64) -> u64 {
    let near = |r: &mut Rng, x: u64| (x.wrapping_add(r.below(20) as u64).wrapping_sub(10)) & 0xffff_ffff;
    match r.below(10) {
        0 => 0,
        1 => r.below(16) as u64,
        2 | 3 => near(r, len),
        4 => near(r, 0x8000_0000),
        5 => near(r, 0x1_0000_0000),
        6 => near(r, 0x10000),
        7 => r.u32() as u64,
        _ => r.below(len.max(1) as usize) as u64,
    }
}
/// pointer and offset, often close to the bounds together
fn place(r: &mut Rng, len: u64) -> (u64, u64) {
    match r.below(5) {
        // sum near the end of memory
        0 | 1 => {
            let sum = (len + r.below(20) as u64).saturating_sub(10);
            let off = if r.bool() { r.below(sum as usize + 1) as u64 } else { *r.pick(&[0, 1, 4, 8, 16]) };
            (sum.saturating_sub(off), off)
        }
        // sum near 2^32: a wrapped address would be in bounds
        2 => {
            let off = some_u32(r, len);
            let sum = 0x1_0000_0000u64 + r.below(24) as u64 - 12;
            (sum.saturating_sub(off) & 0xffff_ffff, off)
        }
        3 => (r.below(len.max(1) as usize) as u64, r.below(64) as u64),
        _ => (some_u32(r, len), some_u32(r, len)),
    }
}
fn text(r: &mut Rng) -> (String, bool) {
    let min = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
    let max = if r.bool() { format!(" {}", min + r.below(4)) } else { String::new() };
    let imported = r.chance(1, 4);
    let mut s = String::from("(module\n");
    if imported {
        let _ = writeln!(s, "(import \"env\" \"m\" (memory {min}{max}))");
    } else {
        let _ = writeln!(s, "(memory {}{min}{max})", if r.bool() { "(export \"memory\") " } else { "" });
        if min > 0 {
            let _ = writeln!(s, "(data (i32.const 0) \"\\80\\ff\\7f\\00\\01\\fe\\ff\\ff\\ff\\7f\\80\\80\\80\") (data (i32.const {}) \"\\f1\\f2\\f3\\f4\\f5\\f6\\f7\\f8\")", min * PAGE_LEN - 8);
        }
    }
    for _ in 0..r.below(3) {
        s.push_str("(global (mut i64) (i64.const 7)) (func (param i64) (result f32) (global.set 0 (local.get 0)) f32.const 1)\n");
    }
    s.push_str("(func (export \"ld\") (param i32) (result i32) (i32.load8_u (local.get 0)))\n");
    s.push_str("(func (export \"st\") (param i32 i64) (i64.store align=1 (local.get 0) (local.get 1)))\n");
    s.push_str("(func (export \"size\") (result i32) memory.size)\n(func (export \"grow\") (param i32) (result i32) (memory.grow (local.get 0))))\n");
    (s, imported)
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "one observation = operation, kind of outcome, and where the access lies relative to the bounds and to 2^32".into();
    let n = ctx.n(6_000, 300_000);
    parallel(ctx, 1, n, |k, r, rep| {
        if k == 0 {
            return huge(r, rep);
        }
        if k == 1 {
            return none(r, rep);
        }
        let (wat, _) = text(r);
        let bytes = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
        let original = Rc::new(decode(&bytes).expect("module"));
        // the program's own functions stay as they are: hooks only where nothing happens
        let on: HashSet<&'static str> = HashSet::new();
        let apply = r.chance(1, 4);
        let targets = Some(vec![]);
        let (program, lib) = match instrumented(&bytes, own_interface(&on, apply), targets) {
            Ok(x) => x,
            Err(e) => {
                rep.violation("instrumentation-failed", format!("{e}\n{wat}"));
                return;
            }
        };
        if let Err(e) = validate(&program) {
            rep.violation("invalid-output", format!("{e}\n{wat}"));
            return;
        }
        let p = Rc::new(decode(&program).expect("valid"));
        let l = lib.map(|l| Rc::new(decode(&l).expect("valid")));
        let o = match run_instrumented(&original, &p, l.as_ref(), &Policy::default(), &[], 50) {
            Ok(o) => o,
            Err(e) => {
                rep.violation("link", format!("{e}\n{wat}"));
                return;
            }
        };
        if o.results.iter().any(|x| x.is_err()) {
            rep.violation("start", format!("{:?}\n{wat}", o.results));
            return;
        }
        let (mut s, main) = (o.store, o.world.main);
        s.max_pages = 12;
        let mem = s.insts[main].mems[0];
        let mut model = Mem { data: s.mems[mem].data.clone(), max: s.mems[mem].max };
        let helpers = helpers();
        let mut history: Vec<String> = vec![];
        for step in 0..250 {
            let len = model.data.len() as u64;
            s.fuel = 100_000;
            s.depth = 0;
            let (what, got, want): (String, Res<Vec<u64>>, Res<Vec<u64>>) = if r.chance(1, 8) {
                // the program itself
                let (ptr, _) = place(r, len);
                let v = interesting(r, VT::I64);
                match r.below(10) {
                    0..=3 => {
                        let f = s.export_func(main, "st").expect("st");
                        (format!("program st({ptr:#x}, {v:#x})"), s.invoke(&mut NoHost, f, &[ptr, v]), model.store(2, ptr as u32, 0, v).map(|_| vec![]))
                    }
                    4..=7 => {
                        let f = s.export_func(main, "ld").expect("ld");
                        (format!("program ld({ptr:#x})"), s.invoke(&mut NoHost, f, &[ptr]), model.load(6, ptr as u32, 0).map(|v| vec![v]))
                    }
                    8 => {
                        let f = s.export_func(main, "size").expect("size");
                        ("program size".into(), s.invoke(&mut NoHost, f, &[]), Ok(vec![len / PAGE_LEN as u64]))
                    }
                    _ => {
                        let f = s.export_func(main, "grow").expect("grow");
                        let k = r.below(3) as u64;
                        (format!("program grow({k})"), s.invoke(&mut NoHost, f, &[k]), Ok(vec![grow(&mut model, k, 12)]))
                    }
                }
            } else {
                let (name, ft, h) = r.pick(&helpers);
                let Some(f) = s.export_func(main, name) else {
                    rep.violation(&format!("missing:{name}"), format!("no export {name}\n{wat}"));
                    return;
                };
                if s.funcs[f].ty != *ft {
                    rep.violation(&format!("type:{name}"), format!("{name} has type {:?}\n{wat}", s.funcs[f].ty));
                    return;
                }
                match h {
                    Helper::Load(op) => {
                        let (ptr, off) = place(r, len);
                        let w = model.load(*op, ptr as u32, off).map(|v| vec![v]);
                        (format!("{name}({ptr:#x}, {off:#x})"), s.invoke(&mut NoHost, f, &[ptr, off]), w)
                    }
                    Helper::Store(op) => {
                        let (ptr, off) = place(r, len);
                        let v = interesting(r, store_type(*op));
                        let w = model.store(*op, ptr as u32, off, v).map(|_| vec![]);
                        (format!("{name}({ptr:#x}, {v:#x}, {off:#x})"), s.invoke(&mut NoHost, f, &[ptr, v, off]), w)
                    }
                    Helper::Grow => {
                        let k = match r.below(6) {
                            0 => 0xffff_ffff,
                            1 => 65536,
                            2 => 0x8000_0000,
                            k => k as u64 % 3,
                        };
                        (format!("{name}({k})"), s.invoke(&mut NoHost, f, &[k, 0]), Ok(vec![grow(&mut model, k, 12)]))
                    }
                    Helper::Size => (name.clone(), s.invoke(&mut NoHost, f, &[0]), Ok(vec![len / PAGE_LEN as u64])),
                }
            };
            rep.evals += 1;
            let kind = what.split('(').next().unwrap_or("").to_string();
            let zone = match &want {
                Ok(v) if v.is_empty() => "done",
                Ok(_) => "value",
                Err(_) => "trap",
            };
            rep.count(&format!("{kind}: {zone}"), 1);
            rep.saw(&(&kind, zone, zone_of(&what, len)));
            history.push(format!("{what} -> {want:x?}"));
            let same = match (&got, &want) {
                (Ok(a), Ok(b)) => a == b,
                (Err(Trap::Fuel | Trap::Depth), _) => {
                    panic!("fuel in a helper")
                }
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            let at_end = step == 249 || r.chance(1, 50) || matches!(want, Err(_));
            let stored = !at_end || s.mems[mem].data == model.data;
            if !same || !stored {
                let tail: Vec<&String> = history.iter().rev().take(12).collect();
                let diff = s.mems[mem].data.iter().zip(&model.data).position(|(a, b)| a != b);
                rep.violation(
                    &format!("{kind}:{}", if same { "memory" } else { zone }),
                    format!(
                        "{what} in {len:#x} bytes: expected {want:x?}, got {got:x?}; first differing byte {diff:?}, sizes {} and {}\nhistory, newest first: {tail:#?}\n{wat}",
                        s.mems[mem].data.len(),
                        model.data.len()
                    ),
                );
                return;
            }
        }
        if rep.samples.is_empty() {
            rep.samples.push(json!({"module": wat, "history": history.iter().take(6).collect::<Vec<_>>(), "pages_at_end": model.data.len() / PAGE_LEN}));
        }
    });
}
fn grow(m: &mut Mem, k: u64, limit: u64) -> u64 {
    let cur = (m.data.len() / PAGE_LEN) as u64;
    let new = cur + (k & 0xffff_ffff);
    if new > m.max || new > limit {
        return 0xffff_ffff;
    }
    m.data.resize(new as usize * PAGE_LEN, 0);
    cur
}
fn zone_of(what: &str, len: u64) -> (i64, i64) {
    let n: Vec<u64> = what.split(['(', ',', ')']).filter_map(|x| u64::from_str_radix(x.trim().trim_start_matches("0x"), 16).ok()).collect();
    let (Some(p), Some(o)) = (n.first(), n.last()) else { return (0, 0) };
    let sum = (p.saturating_add(*o)).min(1 << 40);
    let z = |x: i64| x.clamp(-9, 9);
    (z(sum as i64 - len as i64), z(sum as i64 - 0x1_0000_0000))
}
/// A memory of more than 2 GiB: addresses that are negative as signed numbers are in bounds.
fn huge(r: &mut Rng, rep: &mut Report) {
    let wat = "(module (memory 40000 40000) (func (export \"ld\") (param i32) (result i32) (i32.load8_u (local.get 0))))";
    let bytes = wat::parse_str(wat).expect("huge");
    let (program, _) = match instrumented(&bytes, own_interface(&HashSet::new(), false), None) {
        Ok(x) => x,
        Err(e) => return rep.violation("instrumentation-failed", format!("{e}\n{wat}")),
    };
    let p = Rc::new(decode(&program).expect("valid"));
    let mut s = Store::new(1_000_000, 50);
    let main = match s.allocate(p, |_, i, _| Err(format!("import {}", i.name)), None) {
        Ok(m) => m,
        Err(e) => return rep.violation("link", format!("{e}\n{wat}")),
    };
    let len = 40000u64 * PAGE_LEN as u64;
    let mut model: std::collections::HashMap<u64, u8> = Default::default();
    let helpers = helpers();
    for _ in 0..4000 {
        s.fuel = 100_000;
        s.depth = 0;
        let (name, ft, h) = r.pick(&helpers);
        let Some(f) = s.export_func(main, name) else {
            return rep.violation(&format!("missing:{name}"), format!("no export {name}\n{wat}"));
        };
        if s.funcs[f].ty != *ft {
            return rep.violation(&format!("type:{name}"), format!("{name} has type {:?}\n{wat}", s.funcs[f].ty));
        }
        let sum = match r.below(5) {
            0 => 0x8000_0000u64 + r.below(40) as u64 - 20,
            1 => (len + r.below(20) as u64) - 10,
            2 => 0x1_0000_0000 + r.below(40) as u64 - 20,
            _ => r.below(len as usize) as u64,
        };
        let off = match r.below(4) {
            0 => 0,
            1 => r.below(64) as u64,
            2 => (sum / 2).min(0xffff_ffff),
            _ => sum.min(0x9000_0000),
        };
        let ptr = (sum - off.min(sum)) & 0xffff_ffff;
        let sum = ptr + off;
        let mut cell = Mem { data: (0..8).map(|k| *model.get(&(sum + k)).unwrap_or(&0)).collect(), max: 1 };
        let (w, args, op) = match h {
            Helper::Load(op) => (width(LOADS[*op as usize - 1]), vec![ptr, off], *op),
            Helper::Store(op) => (width(STORES[*op as usize - 1]), vec![ptr, interesting(r, store_type(*op)), off], *op),
            _ => continue,
        };
        let want: Res<Vec<u64>> = if sum + w > len {
            Err(Trap::OobMem)
        } else if let Helper::Load(_) = h {
            cell.load(op, 0, 0).map(|v| vec![v])
        } else {
            let done = cell.store(op, 0, 0, args[1]).map(|_| vec![]);
            for (k, b) in cell.data.iter().enumerate() {
                model.insert(sum + k as u64, *b);
            }
            done
        };
        let got = s.invoke(&mut NoHost, f, &args);
        rep.evals += 1;
        rep.count("in more than 2 GiB", 1);
        rep.saw(&(name, want.is_ok(), sum >= 0x8000_0000, ptr >= 0x8000_0000, off >= 0x8000_0000));
        if got != want {
            return rep.violation(&format!("{name}:large"), format!("{name}({args:#x?}) in {len:#x} bytes: expected {want:x?}, got {got:x?}"));
        }
    }
    let mem = s.insts[main].mems[0];
    for (k, b) in &model {
        if *k < len && s.mems[mem].data[*k as usize] != *b {
            return rep.violation("memory:large", format!("byte {k:#x}: expected {b:#x}, found {:#x}", s.mems[mem].data[*k as usize]));
        }
    }
}
/// A program without a memory: nothing to measure, nothing to grow.
fn none(r: &mut Rng, rep: &mut Report) {
    for wat in [
        "(module)",
        "(module (func (export \"f\") (result i32) i32.const 3))",
        "(module (import \"env\" \"h\" (func)) (table 2 funcref) (global i32 (i32.const 1)) (func (export \"f\") call 0))",
    ] {
        for apply in [false, true] {
            let bytes = wat::parse_str(wat).expect("none");
            let (program, lib) = match instrumented(&bytes, own_interface(&HashSet::new(), apply), Some(vec![])) {
                Ok(x) => x,
                Err(e) => return rep.violation("instrumentation-failed", format!("{e}\n{wat}")),
            };
            if let Err(e) = validate(&program) {
                return rep.violation("invalid-output", format!("{e}\n{wat}"));
            }
            let original = Rc::new(decode(&bytes).expect("module"));
            let l = lib.map(|l| Rc::new(decode(&l).expect("valid")));
            let o = match run_instrumented(&original, &Rc::new(decode(&program).expect("valid")), l.as_ref(), &Policy::default(), &[], 50) {
                Ok(o) => o,
                Err(e) => return rep.violation("link", format!("{e}\n{wat}")),
            };
            let (mut s, main) = (o.store, o.world.main);
            for _ in 0..20 {
                for (name, ft, h) in &helpers() {
                    s.fuel = 100_000;
                    s.depth = 0;
                    let Some(f) = s.export_func(main, name) else {
                        return rep.violation(&format!("missing:{name}"), format!("no export {name}\n{wat}"));
                    };
                    if s.funcs[f].ty != *ft {
                        return rep.violation(&format!("type:{name}"), format!("{name} has type {:?}\n{wat}", s.funcs[f].ty));
                    }
                    let k = *r.pick(&[1u64, 2, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]);
                    let (args, want) = match h {
                        Helper::Grow => (vec![k, 0], 0xffff_ffff),
                        Helper::Size => (vec![0], 0),
                        _ => continue,
                    };
                    let got = s.invoke(&mut NoHost, f, &args);
                    rep.evals += 1;
                    rep.count("without a memory", 1);
                    rep.saw(&(name, k));
                    if got != Ok(vec![want]) {
                        return rep.violation(&format!("{name}:no memory"), format!("{name}({args:x?}) in a program without memory: expected {want:#x}, got {got:x?}\n{wat}"));
                    }
                }
            }
        }
    }
}
