//! Programs at the edges of the sizes the random generator stays within: deep nests, long branch
//! tables, wide signatures, many functions, long bodies, many locals and globals.
use crate::analysis::*;
use crate::gen::interesting;
use crate::wasm::*;
use crate::weave::*;
use std::fmt::Write;
use std::rc::Rc;
use vcommon::*;

pub const KINDS: [&str; 8] =
    ["deep nest", "wide signatures", "many functions", "long body", "many variables", "branch table", "wide blocks", "many signatures"];

pub fn konst(r: &mut Rng, t: VT) -> String {
    let v = interesting(r, t);
    match t {
        VT::I32 => format!("(i32.const {})", v as u32 as i32),
        VT::I64 => format!("(i64.const {})", v as i64),
        VT::F32 => format!("(f32.reinterpret_i32 (i32.const {}))", v as u32 as i32),
        _ => format!("(f64.reinterpret_i64 (i64.const {}))", v as i64),
    }
}
fn decl(k: &str, ts: &[VT]) -> String {
    if ts.is_empty() {
        String::new()
    } else {
        format!("({k} {})", ts.iter().map(|t| t.low()).collect::<Vec<_>>().join(" "))
    }
}
/// acc = acc * 31 + the value on the stack, whatever its type; `$x` is an i64 local
fn fold(t: VT) -> &'static str {
    match t {
        VT::I32 => " i64.extend_i32_u local.set $x (global.set $acc (i64.add (i64.mul (global.get $acc) (i64.const 31)) (local.get $x)))\n",
        VT::I64 => " local.set $x (global.set $acc (i64.add (i64.mul (global.get $acc) (i64.const 31)) (local.get $x)))\n",
        VT::F32 => " i32.reinterpret_f32 i64.extend_i32_u local.set $x (global.set $acc (i64.add (i64.mul (global.get $acc) (i64.const 31)) (local.get $x)))\n",
        _ => " i64.reinterpret_f64 local.set $x (global.set $acc (i64.add (i64.mul (global.get $acc) (i64.const 31)) (local.get $x)))\n",
    }
}
fn nest(r: &mut Rng, w: &mut String, depth: usize, table: usize) {
    // level 0 is the outermost; a label counts from the inside
    let kinds: Vec<usize> = (0..depth).map(|_| *r.pick(&[0usize, 0, 0, 0, 1, 2, 3])).collect();
    let _ = writeln!(w, "(func (export \"nest\") (param $i i32) (param $j i32) (local $x i64)");
    for k in &kinds {
        let _ = match k {
            0 => writeln!(w, "block"),
            1 => writeln!(w, "local.get $j if"),
            2 => writeln!(w, "local.get $j i32.eqz if nop else"),
            _ => writeln!(w, "loop"),
        };
    }
    // labels seen from inside `open` levels that lead outward, the function's own included
    let label = |r: &mut Rng, open: usize| -> usize {
        for _ in 0..20 {
            let l = match r.below(4) {
                0 => r.below(3.min(open + 1)),
                1 => open - r.below(3.min(open + 1)),
                _ => r.below(open + 1),
            };
            if l == open || kinds[open - 1 - l] != 3 {
                return l;
            }
        }
        open
    };
    let _ = write!(w, "local.get $i br_table");
    for _ in 0..=table {
        let _ = write!(w, " {}", label(r, depth));
    }
    w.push('\n');
    for open in (0..depth).rev() {
        let _ = writeln!(w, "end");
        match r.below(5) {
            0 => {}
            1 => {
                let _ = writeln!(w, "br {}", label(r, open));
            }
            2 => {
                let _ = writeln!(w, "local.get $i i32.const {} i32.lt_u br_if {}", r.below(table + 2), label(r, open));
            }
            3 if r.chance(1, 4) => {
                let _ = writeln!(w, "return");
            }
            _ => {
                let _ = writeln!(w, "i32.const {open} {}", fold(VT::I32));
            }
        }
    }
    let _ = writeln!(w, ")");
}
/// around the powers of two, and the most that implementations take (1000 parameters; the library
/// stores results by a function that takes them after a pointer)
const HUGE: [usize; 16] = [0, 1, 15, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 999];
/// Blocks, loops and conditionals that take and leave many values.
fn wide_blocks(r: &mut Rng, w: &mut String) {
    let _ = writeln!(w, "(global $acc (export \"acc\") (mut i64) (i64.const 0))");
    let _ = writeln!(w, "(func (export \"blocks\") (param $i i32) (param $j i32) (local $x i64)");
    for _ in 0..r.range(2, 5) {
        let count = |r: &mut Rng| if r.chance(2, 3) { *r.pick(&HUGE) } else { r.below(12) };
        let ins: Vec<VT> = (0..count(r)).map(|_| *r.pick(&NUM)).collect();
        let outs: Vec<VT> = (0..count(r)).map(|_| *r.pick(&NUM)).collect();
        for t in &ins {
            let _ = writeln!(w, " {}", konst(r, *t));
        }
        let body = |r: &mut Rng, w: &mut String| {
            for t in ins.iter().rev() {
                let _ = if r.chance(1, 8) { write!(w, "{}", fold(*t)) } else { write!(w, " drop") };
            }
            for t in &outs {
                let _ = writeln!(w, " {}", konst(r, *t));
            }
            let _ = match r.below(4) {
                0 => writeln!(w, " local.get $i br_if 0"),
                1 => writeln!(w, " br 0"),
                2 => writeln!(w, " local.get $i br_table 0 0 0"),
                _ => writeln!(w, " nop"),
            };
        };
        let ty = format!("{} {}", decl("param", &ins), decl("result", &outs));
        match r.below(4) {
            0 => {
                let _ = writeln!(w, " block {ty}");
                body(r, w);
            }
            1 => {
                let _ = writeln!(w, " loop {ty}");
                for t in ins.iter().rev() {
                    w.push_str(fold(*t));
                }
                for t in &outs {
                    let _ = writeln!(w, " {}", konst(r, *t));
                }
            }
            2 if ins == outs || ins.is_empty() && outs.is_empty() => {
                let _ = writeln!(w, " local.get $j if {ty} nop");
            }
            _ => {
                let _ = writeln!(w, " local.get $j if {ty}");
                body(r, w);
                let _ = writeln!(w, " else");
                body(r, w);
            }
        }
        let _ = writeln!(w, " end");
        for t in outs.iter().rev() {
            w.push_str(fold(*t));
        }
        // one armed: what goes in comes out
        if r.bool() {
            let through: Vec<VT> = (0..count(r)).map(|_| *r.pick(&NUM)).collect();
            for t in &through {
                let _ = writeln!(w, " {}", konst(r, *t));
            }
            let _ = writeln!(w, " local.get $j if {} {} nop end", decl("param", &through), decl("result", &through));
            for t in through.iter().rev() {
                w.push_str(fold(*t));
            }
        }
    }
    let _ = writeln!(w, ")");
}
/// Functions of many different types, calling one another.
fn signatures(r: &mut Rng, w: &mut String) {
    let n = *r.pick(&[17usize, 40, 129, 257, 300]);
    let sigs: Vec<FT> = (0..n)
        .map(|i| {
            // the digits of the number, so that all differ; results and parameters split anywhere
            let mut t: Vec<VT> = vec![];
            let mut k = i;
            while k > 0 {
                t.push(NUM[k % 4]);
                k /= 4;
            }
            let at = r.below(t.len() + 1);
            FT { results: t.split_off(at), params: t }
        })
        .collect();
    let _ = writeln!(w, "(global $acc (export \"acc\") (mut i64) (i64.const 0))");
    let _ = writeln!(w, "(table {n} funcref) (elem (i32.const 0) {})", (0..n).map(|i| format!("$s{i}")).collect::<Vec<_>>().join(" "));
    for (i, s) in sigs.iter().enumerate() {
        let _ = write!(w, "(func $s{i} {} {} {}", if i % 30 == 0 { format!("(export \"s{i}\")") } else { String::new() }, decl("param", &s.params), decl("result", &s.results));
        for t in &s.results {
            let own: Vec<usize> = (0..s.params.len()).filter(|k| s.params[*k] == *t).collect();
            let _ = if own.is_empty() { write!(w, " {}", konst(r, *t)) } else { write!(w, " local.get {}", r.pick(&own)) };
        }
        let _ = writeln!(w, ")");
    }
    let _ = writeln!(w, "(func (export \"run\") (param i32) (local $x i64)");
    for _ in 0..r.range(10, 60) {
        let i = if r.chance(1, 3) { n - 1 - r.below(20.min(n)) } else { r.below(n) };
        for t in &sigs[i].params {
            let _ = write!(w, " {}", konst(r, *t));
        }
        let _ = if r.bool() {
            writeln!(w, " call $s{i}")
        } else {
            writeln!(w, " i32.const {i} call_indirect {} {}", decl("param", &sigs[i].params), decl("result", &sigs[i].results))
        };
        for t in sigs[i].results.iter().rev() {
            w.push_str(fold(*t));
        }
    }
    let _ = writeln!(w, ")");
}
fn wide(r: &mut Rng, w: &mut String) {
    let n = r.range(1, 4);
    let huge = r.chance(1, 4);
    let sigs: Vec<FT> = (0..n)
        .map(|_| {
            let (p, q) = if huge {
                (*r.pick(&HUGE), *r.pick(&HUGE))
            } else {
                (*r.pick(&[0, 1, 9, 10, 11, 13, 24, 40]), *r.pick(&[0, 1, 9, 10, 11, 12, 23, 40]))
            };
            FT { params: (0..p).map(|_| *r.pick(&NUM)).collect(), results: (0..q).map(|_| *r.pick(&NUM)).collect() }
        })
        .collect();
    for (i, s) in sigs.iter().enumerate() {
        let _ = writeln!(w, "(import \"env\" \"wide{i}\" (func $h{i} {} {}))", decl("param", &s.params), decl("result", &s.results));
    }
    let _ = writeln!(w, "(global $acc (export \"acc\") (mut i64) (i64.const 0))");
    let _ = writeln!(w, "(table {n} funcref) (elem (i32.const 0) {})", (0..n).map(|i| format!("$w{i}")).collect::<Vec<_>>().join(" "));
    for (i, s) in sigs.iter().enumerate() {
        let _ = writeln!(w, "(func $w{i} (export \"w{i}\") {} {}", decl("param", &s.params), decl("result", &s.results));
        for t in s.results.iter() {
            let own: Vec<usize> = (0..s.params.len()).filter(|k| s.params[*k] == *t).collect();
            if own.is_empty() || r.chance(1, 6) {
                let _ = writeln!(w, " {}", konst(r, *t));
            } else {
                let _ = writeln!(w, " local.get {}", r.pick(&own));
            }
        }
        if r.chance(1, 4) {
            let _ = writeln!(w, " return");
        }
        let _ = writeln!(w, ")");
    }
    let _ = writeln!(w, "(func (export \"run\") (param i32) (local $x i64)");
    for _ in 0..r.range(2, 6) {
        let i = r.below(n);
        for t in &sigs[i].params {
            let _ = writeln!(w, " {}", konst(r, *t));
        }
        let _ = match r.below(3) {
            0 => writeln!(w, " call $w{i}"),
            1 => writeln!(w, " call $h{i}"),
            _ => writeln!(w, " i32.const {i} call_indirect {} {}", decl("param", &sigs[i].params), decl("result", &sigs[i].results)),
        };
        for t in sigs[i].results.iter().rev() {
            w.push_str(fold(*t));
        }
    }
    let _ = writeln!(w, ")");
}
fn many(r: &mut Rng, w: &mut String) -> Vec<u32> {
    let n = *r.pick(&[130usize, 257, 300, 700]);
    let imports = r.below(3);
    for i in 0..imports {
        let _ = writeln!(w, "(import \"env\" \"m{i}\" (func $m{i} (result i32)))");
    }
    let _ = writeln!(w, "(global $acc (export \"acc\") (mut i64) (i64.const 0))");
    let _ = writeln!(w, "(table {n} funcref) (elem (i32.const 0) {})", (0..n).map(|i| format!("$f{i}")).collect::<Vec<_>>().join(" "));
    let mut sigs: Vec<FT> = vec![];
    for i in 0..n {
        let ft = if i % 7 == 3 { FT { params: (0..r.below(4)).map(|_| *r.pick(&NUM)).collect(), results: vec![VT::I32] } } else { FT::new(&[], &[VT::I32]) };
        let _ = write!(w, "(func $f{i} {} {} {}", if i % 50 == 49 || i == n - 1 { format!("(export \"f{i}\")") } else { String::new() }, decl("param", &ft.params), "(result i32)");
        if i == 0 || r.chance(1, 8) {
            if imports > 0 && r.bool() {
                let _ = write!(w, " call $m0");
            } else {
                let _ = write!(w, " i32.const {}", i * 3);
            }
        } else {
            // one near, one far away
            let mut first = true;
            for j in [i - 1 - r.below(i.min(3)), r.below(i)] {
                if !first && r.chance(5, 6) {
                    continue;
                }
                for t in &sigs[j].params {
                    let _ = write!(w, " {}", konst(r, *t));
                }
                if r.chance(1, 4) {
                    let _ = write!(w, " i32.const {j} call_indirect {} (result i32)", decl("param", &sigs[j].params));
                } else {
                    let _ = write!(w, " call $f{j}");
                }
                if !first {
                    let _ = write!(w, " i32.add");
                }
                first = false;
            }
        }
        let _ = writeln!(w, ")");
        sigs.push(ft);
    }
    (0..(n + imports) as u32).collect()
}
fn long(r: &mut Rng, w: &mut String) {
    let _ = writeln!(w, "(memory 1)");
    let _ = writeln!(w, "(func $far (export \"far\") (param $j i32) (result i32) (local i64 f32 f64)");
    for _ in 0..r.range(1, 3) {
        let n = *r.pick(&[100usize, 255, 256, 32_760, 65_530, 70_000]) + r.below(9);
        let _ = write!(w, "local.get $j if ");
        for k in 0..n {
            w.push_str(if k % 64 == 63 { "nop\n" } else { "nop " });
        }
        let _ = writeln!(w, "end");
        match r.below(6) {
            0 => w.push_str("i32.const 5 i32.const 77 i32.store offset=3\n"),
            1 => w.push_str("i32.const 5 i32.load8_s offset=4 local.set 0\n"),
            2 => w.push_str("i32.const 3 local.set 0 block local.get 0 br_if 0 nop end\n"),
            3 => w.push_str("i64.const 99 local.set 1 local.get 1 i64.clz drop\n"),
            4 => w.push_str("i32.const 0 if nop else nop end\n"),
            _ => w.push_str("i32.const 1 i32.const 2 local.get 0 select drop\n"),
        }
    }
    let _ = writeln!(w, "local.get 0 i32.const 0 i32.eq if (result i32) i32.const 9 else i32.const 0 call $near end)");
    let _ = writeln!(w, "(func $near (export \"near\") (param i32) (result i32) local.get 0 i32.const 3 i32.add return)");
}
fn variables(r: &mut Rng, w: &mut String) {
    let (locals, globals) = (*r.pick(&[130usize, 260, 300, 1000]), *r.pick(&[130usize, 260, 300]));
    let lt: Vec<VT> = (0..locals).map(|_| *r.pick(&NUM)).collect();
    let gt: Vec<VT> = (0..globals).map(|_| *r.pick(&NUM)).collect();
    for t in &gt {
        let c = match t {
            VT::I32 | VT::I64 => format!("{}", interesting(r, *t) as u32 as i32),
            _ => "0.5".to_string(),
        };
        let _ = writeln!(w, "(global (mut {}) ({}.const {c}))", t.low(), t.low());
    }
    let _ = writeln!(w, "(func (export \"vars\") (param i32) (local {})", lt.iter().map(|t| t.low()).collect::<Vec<_>>().join(" "));
    for _ in 0..r.range(10, 80) {
        let a = if r.bool() { locals - 1 - r.below(50) } else { r.below(locals) };
        let b = if r.bool() { globals - 1 - r.below(20) } else { r.below(globals) };
        match r.below(4) {
            0 => {
                let _ = writeln!(w, " {} local.set {}", konst(r, lt[a]), a + 1);
            }
            1 => {
                let _ = writeln!(w, " {} local.tee {} drop", konst(r, lt[a]), a + 1);
            }
            2 if lt[a] == gt[b] => {
                let _ = writeln!(w, " local.get {} global.set {b}", a + 1);
            }
            3 if lt[a] == gt[b] => {
                let _ = writeln!(w, " global.get {b} local.set {}", a + 1);
            }
            _ => {
                let _ = writeln!(w, " {} global.set {b}", konst(r, gt[b]));
            }
        }
    }
    let _ = writeln!(w, ")");
}

pub fn corner(r: &mut Rng) -> (Case, &'static str) {
    let kind = r.below(KINDS.len());
    let mut w = String::from("(module\n");
    let mut lead: Vec<u64> = vec![0, 1];
    let mut funcs = vec![];
    match kind {
        0 | 5 => {
            let (depth, table) = if kind == 0 {
                (*r.pick(&[60usize, 130, 258, 300, 300, 400, 600]), *r.pick(&[0usize, 1, 2, 20]))
            } else {
                (*r.pick(&[1usize, 2, 5, 20]), *r.pick(&[15usize, 31, 39, 40, 41, 63, 64, 127, 128, 200, 255, 256, 300, 700]))
            };
            let _ = writeln!(w, "(global $acc (export \"acc\") (mut i64) (i64.const 0))");
            nest(r, &mut w, depth, table);
            let t = table as u64;
            lead = vec![0, 1, t / 2, t.wrapping_sub(1) & 0xffff_ffff, t, t + 1, t + 2, 0xffff_ffff, 0x8000_0000];
            lead.extend((0..3).map(|_| r.below(table + 1) as u64));
        }
        1 => wide(r, &mut w),
        2 => funcs = many(r, &mut w),
        3 => long(r, &mut w),
        6 => wide_blocks(r, &mut w),
        7 => signatures(r, &mut w),
        _ => variables(r, &mut w),
    }
    w.push(')');
    let bytes = wat::parse_str(&w).unwrap_or_else(|e| panic!("corner: {e}\n{w}"));
    let original = Rc::new(decode(&bytes).expect("corner"));
    if let Err(e) = validate(&bytes) {
        panic!("corner: {e}\n{w}");
    }
    let mut sc = vec![];
    let e = entries(&original);
    for _ in 0..r.range(2, 6) {
        let (export, ty) = r.pick(&e).clone();
        let mut args: Vec<u64> = ty.params.iter().map(|t| interesting(r, *t)).collect();
        if !args.is_empty() && ty.params[0] == VT::I32 {
            args[0] = if kind == 3 && export == "far" { 0 } else { *r.pick(&lead) };
        }
        if kind == 0 || kind == 5 || kind == 6 {
            args[1] = r.chance(5, 6) as u64;
        }
        sc.push(Call { export, ty, args });
    }
    let mut targets = None;
    if kind == 2 && r.chance(3, 4) {
        let p = r.range(1, 5);
        targets = Some(funcs.into_iter().filter(|_| r.chance(p, 8)).collect());
    }
    let mut on = some_traps(r);
    if (kind == 0 || kind == 5) && r.chance(3, 4) {
        on.extend(["specialized_br", "specialized_br_if", "specialized_br_table"]);
    }
    if kind == 3 && r.chance(3, 4) {
        on.extend(["return_trap", "specialized_call_pre", "trap_const_i32", "trap_local_get_i32", "specialized_if_then_k", "specialized_if_then_else_k"]);
    }
    if kind == 6 && r.chance(3, 4) {
        on.extend(["specialized_if_then_k", "specialized_if_then_else_k", "trap_block_pre", "trap_block_post", "trap_loop_pre", "trap_loop_post", "specialized_br_if"]);
    }
    (
        Case {
            bytes,
            original,
            on,
            apply: kind == 1 || kind == 7 || r.chance(1, 4),
            targets,
            script: sc,
            policy: Policy { seed: r.u64(), cap: 4000, fuel: 200_000, ..Default::default() },
            depth: 800,
        },
        KINDS[kind],
    )
}
