//! S01, S02: the static analysis against executions and against a reachability reference.
use crate::gen;
use crate::interp::*;
use crate::run::*;
use crate::wasm::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::rc::Rc;
use vcommon::*;
use wastrumentation_static_analysis::{immutable_functions, immutable_functions_from_binary};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// The analysis prints its progress; keep it away from the verdict lines.
pub struct Quiet(i32);
impl Quiet {
    pub fn new() -> Quiet {
        use std::os::fd::AsRawFd;
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        // SAFETY: plain descriptor calls on descriptors this process owns
        unsafe {
            let saved = dup(1);
            dup2(null.as_raw_fd(), 1);
            Quiet(saved)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        // SAFETY: as above
        unsafe {
            dup2(self.0, 1);
        }
    }
}

pub struct Fun {
    name: String,
    text: String,
    calls: BTreeSet<usize>,
    /// contains an instruction that touches state, calls an import or calls through a table
    unclean: Option<String>,
}
pub struct Prog {
    funs: Vec<Fun>,
    imports: String,
    rest: String,
    kinds: Vec<usize>,
}
const SIGS: [(&str, usize); 3] = [("(param $s i32) (param $n i32) (result i32)", 1), ("(param $s i32) (param $n i32)", 0), ("(param $s i32) (param $n i32) (param $p i64) (param $q f64) (result i32 i64)", 2)];
const TOUCH: [&str; 34] = [
    "(global.set $g (local.get $a))", "(drop (global.get $g))", "(drop (global.get $k))", "(global.set $h (f64.const 1.5))", "(drop (global.get $i))",
    "(table.set $t (i32.const 1) (ref.null func))", "(drop (table.get $t (i32.const 1)))", "(drop (table.size $t))",
    "(drop (table.grow $t (ref.null func) (i32.const 1)))", "(table.fill $t (i32.const 0) (ref.null func) (i32.const 2))",
    "(table.copy $t $t (i32.const 0) (i32.const 1) (i32.const 1))", "(table.init $t $e (i32.const 0) (i32.const 0) (i32.const 1))", "(elem.drop $e)",
    "(drop (i32.load offset=4 (i32.const 8)))", "(drop (i64.load (i32.const 8)))", "(drop (f32.load (i32.const 8)))", "(drop (f64.load (i32.const 8)))",
    "(drop (i32.load8_u (local.get $s)))", "(drop (i64.load32_s (i32.const 0)))",
    "(i32.store (i32.const 0) (local.get $s))", "(i64.store offset=8 (i32.const 0) (i64.const 5))", "(f32.store (i32.const 4) (f32.const 1))",
    "(f64.store (i32.const 4) (f64.const 1))", "(i32.store8 (i32.const 9) (i32.const 1))", "(i64.store16 (i32.const 9) (i64.const 1))",
    "(drop (memory.size))", "(drop (memory.grow (i32.const 1)))", "(memory.fill (i32.const 0) (i32.const 1) (i32.const 4))",
    "(memory.copy (i32.const 0) (i32.const 8) (i32.const 4))", "(memory.init $d (i32.const 0) (i32.const 0) (i32.const 2))", "(data.drop $d)",
    "(drop (call_indirect (param i32 i32) (result i32) (i32.const 0) (i32.const 0) (i32.const 9)))", "(drop (call $x0 (i32.const 1) (i32.const 2)))",
    "(drop (call_indirect (param i32 i32) (result i32) (local.get $s) (i32.const 0) (i32.and (local.get $s) (i32.const 1))))",
];
struct W<'a> {
    r: &'a mut Rng,
    kinds: &'a [usize],
    calls: BTreeSet<usize>,
    todo_calls: Vec<usize>,
    touch: Option<&'static str>,
    touched: bool,
    budget: i32,
    labels: usize,
    bits: u32,
    results: usize,
}
impl W<'_> {
    fn bit(&mut self) -> String {
        self.bits += 1;
        format!("(i32.and (local.get $s) (i32.const {}))", 1u32 << (self.bits % 31))
    }
    fn expr(&mut self) -> String {
        match self.r.below(6) {
            0 => format!("(i32.const {})", self.r.u32() as i32),
            1 => "(local.get $a)".into(),
            2 => "(i32.add (local.get $a) (local.get $n))".into(),
            3 => "(select (local.get $a) (local.get $s) (local.get $n))".into(),
            4 => format!("(i32.rotl (local.get $a) (i32.const {}))", self.r.below(32)),
            _ => format!("(i32.trunc_sat_f64_s (f64.mul (local.get $w) (f64.const {})))", self.r.below(9)),
        }
    }
    fn leave(&mut self) -> String {
        match self.results {
            0 => "(return)".into(),
            1 => "(return (local.get $a))".into(),
            _ => "(return (local.get $a) (i64.const 3))".into(),
        }
    }
    fn call(&mut self, to: usize) -> String {
        self.calls.insert(to);
        let head = format!("call $f{to} (local.get $s) (i32.sub (local.get $n) (i32.const 1))");
        let c = match self.kinds[to] {
            0 => format!("(local.set $a (i32.xor (local.get $a) ({head})))"),
            1 => format!("({head})"),
            _ => format!("({head} (i64.const 1) (local.get $w)) (drop) (local.set $a)"),
        };
        format!("(if (i32.gt_s (local.get $n) (i32.const 0)) (then {c}))")
    }
    fn stmts(&mut self, depth: usize) -> String {
        let mut o = String::new();
        for _ in 0..self.r.range(1, 4) {
            if self.budget <= 0 {
                break;
            }
            self.budget -= 1;
            o += &self.stmt(depth);
            o.push(' ');
        }
        o
    }
    fn stmt(&mut self, depth: usize) -> String {
        // spread what has to be in this function over its places
        if self.touch.is_some() && self.r.chance(1, 4) {
            self.touched = true;
            return self.touch.take().unwrap().into();
        }
        if !self.todo_calls.is_empty() && self.r.chance(1, 3) {
            let to = self.todo_calls.remove(0);
            return self.call(to);
        }
        if depth > 0 && self.r.chance(1, 2) {
            self.labels += 1;
            let l = self.labels;
            match self.r.below(7) {
                0 => format!("(block $l{l} {} (br_if $l{l} {}) {})", self.stmts(depth - 1), self.bit(), self.stmts(depth - 1)),
                1 => format!(
                    "(local.set $c (i32.const 2)) (loop $l{l} {} (local.set $c (i32.sub (local.get $c) (i32.const 1))) (br_if $l{l} (i32.gt_s (local.get $c) (i32.const 0))))",
                    self.stmts(depth - 1)
                ),
                2 | 3 => format!("(if {} (then {}))", self.bit(), self.stmts(depth - 1)),
                4 => format!("(if {} (then {}) (else {}))", self.bit(), self.stmts(depth - 1), self.stmts(depth - 1)),
                5 => format!(
                    "(local.set $a (if (result i32) {} (then {} {}) (else {} {})))",
                    self.bit(),
                    self.stmts(depth - 1),
                    self.expr(),
                    self.stmts(depth - 1),
                    self.expr()
                ),
                _ => format!("(block $l{l} {} (block $m{l} (br_table $l{l} $m{l} (local.get $s))) {})", self.stmts(depth - 1), self.stmts(depth - 1)),
            }
        } else {
            match self.r.below(10) {
                0 => "nop".into(),
                1 => format!("(if {} (then {}))", self.bit(), self.leave()),
                2 => format!("(if {} (then (if {} (then unreachable))))", self.bit(), self.bit()),
                3 => "(drop (ref.is_null (ref.func $f0)))".into(),
                4 => "(drop (ref.is_null (ref.null extern)))".into(),
                5 => "(local.set $w (f64.sqrt (f64.convert_i32_u (local.get $a))))".into(),
                6 => format!("(drop (local.tee $a {}))", self.expr()),
                _ => format!("(local.set $a {})", self.expr()),
            }
        }
    }
}
/// `inner` inside many blocks
fn deep_inside(r: &mut Rng, depth: usize, inner: String) -> String {
    let mut o = String::new();
    let mut close = String::new();
    for _ in 0..depth {
        let (a, b) = *r.pick(&[
            ("(block nop ", ")"),
            ("(loop ", ")"),
            ("(if (i32.const 1) (then ", "))"),
            ("(if (i32.eqz (local.get $s)) (then nop) (else ", "))"),
        ]);
        o += a;
        close.insert_str(0, b);
    }
    o + &inner + &close
}
/// shape: 0 random graph, 1 chain, 2 tree of shared callees, 3 random with many self calls, 4 large: many functions, most of
/// them without calls, some that call many others, deep blocks, long bodies
pub fn prog(r: &mut Rng, shape: usize, n: usize, dirt: (usize, usize)) -> Prog {
    let kinds: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { *r.pick(&[0, 0, 1, 2]) }).collect();
    let mut funs = vec![];
    for i in 0..n {
        let mut to: Vec<usize> = match shape {
            1 => (i + 1..(i + 2).min(n)).collect(),
            2 => (0..r.below(3)).filter_map(|_| (i + 1 < n).then(|| r.range(i + 1, n - 1))).collect(),
            4 if i < 3 => (0..*r.pick(&[17usize, 33, 70, 140])).filter_map(|_| (i + 1 < n).then(|| r.range(i + 1, n - 1))).collect(),
            4 if r.chance(3, 4) => vec![],
            4 => (0..r.below(3)).filter_map(|_| (i + 1 < n).then(|| r.range(i + 1, n - 1))).collect(),
            _ => (0..r.below(4)).map(|_| r.below(n)).collect(),
        };
        if r.chance(1, if shape == 3 { 2 } else { 5 }) {
            to.push(i);
        }
        r.shuffle(&mut to);
        let dirty = if shape == 1 { i + 1 == n && r.chance(1, 3) || r.chance(1, 3 * n) } else { r.chance(dirt.0, dirt.1) };
        let mut w = W {
            kinds: &kinds,
            calls: BTreeSet::new(),
            todo_calls: to,
            touch: dirty.then(|| *r.pick(&TOUCH)),
            touched: false,
            budget: r.range(3, 14) as i32,
            labels: 0,
            bits: r.below(31) as u32,
            results: SIGS[kinds[i]].1,
            r,
        };
        let planned = w.touch;
        let mut body = w.stmts(3);
        if shape == 4 {
            let mut inner = String::new();
            if w.r.bool() {
                if let Some(t) = w.touch.take() {
                    w.touched = true;
                    inner += t;
                }
                for to in std::mem::take(&mut w.todo_calls) {
                    inner += &w.call(to);
                }
            }
            let depth = *w.r.pick(&[0, 0, 0, 5, 17, 33, 65, 130, 260]);
            body += &deep_inside(w.r, depth, inner);
            if w.r.chance(1, 6) {
                let k = *w.r.pick(&[60, 130, 255, 256, 300, 1000]) + w.r.below(3);
                body += &"nop ".repeat(k);
            }
        }
        // what found no place yet: at the end
        if let Some(t) = w.touch.take() {
            w.touched = true;
            body += t;
            body.push(' ');
        }
        for to in std::mem::take(&mut w.todo_calls) {
            body += &w.call(to);
        }
        let end = match w.results {
            0 => "",
            1 => "(local.get $a)",
            _ => "(local.get $a) (i64.const 7)",
        };
        let text = format!("(func $f{i} {} (local $a i32) (local $c i32) (local $w f64) {body} {end})", SIGS[kinds[i]].0);
        funs.push(Fun { name: format!("$f{i}"), text, calls: w.calls, unclean: planned.map(|s| s.to_string()) });
    }
    let mut imports = "(import \"env\" \"x0\" (func $x0 (param i32 i32) (result i32)))".to_string();
    if r.bool() {
        imports += " (import \"env\" \"x1\" (func $x1 (param f32)))";
    }
    let rest = "(memory 1 3) (table $t 6 funcref) (table $y 3 externref) (global $g (mut i32) (i32.const 4)) (global $k i32 (i32.const 9)) (global $h (mut f64) (f64.const 2)) (global $i i64 (i64.const 1)) (elem $e func $f0) (elem (table $t) (i32.const 0) func $f0 $x0) (data $d \"abcd\")".to_string();
    Prog { funs, imports, rest, kinds }
}
impl Prog {
    /// the module with its functions in the given order; index of each function in the module
    pub fn wat(&self, order: &[usize]) -> (String, Vec<u32>) {
        let imported = self.imports.matches("(import").count() as u32;
        let mut s = String::from("(module ");
        let _ = writeln!(s, "{} {}", self.imports, self.rest);
        let mut at = vec![0; self.funs.len()];
        for (k, f) in order.iter().enumerate() {
            at[*f] = imported + k as u32;
            s += &self.funs[*f].text;
            s.push('\n');
        }
        s.push(')');
        (s, at)
    }
    /// must be reported; may be reported
    pub fn reference(&self) -> (BTreeSet<usize>, BTreeSet<usize>) {
        let n = self.funs.len();
        let mut reach: Vec<BTreeSet<usize>> = (0..n).map(|i| self.funs[i].calls.clone()).collect();
        loop {
            let mut more = false;
            for i in 0..n {
                let add: BTreeSet<usize> = reach[i].iter().flat_map(|j| reach[*j].iter().copied()).collect();
                let had = reach[i].len();
                reach[i].extend(add);
                more |= reach[i].len() != had;
            }
            if !more {
                break;
            }
        }
        let mutual = |j: usize| reach[j].iter().any(|k| *k != j && reach[*k].contains(&j));
        let clean = |i: usize| self.funs[i].unclean.is_none() && reach[i].iter().all(|j| self.funs[*j].unclean.is_none());
        let may: BTreeSet<usize> = (0..n).filter(|i| clean(*i)).collect();
        let must = may.iter().copied().filter(|i| !mutual(*i) && !reach[*i].iter().any(|j| mutual(*j))).collect();
        (must, may)
    }
}
struct Answer<'a>(&'a mut Rng);
impl Host for Answer<'_> {
    fn call(&mut self, s: &mut Store, id: usize, _: &[u64]) -> Res<Vec<u64>> {
        let _ = id;
        let _ = s;
        Ok(vec![u64::from(self.0.u32())])
    }
    fn trap(&mut self, _: &mut Store, _: usize, _: &'static str, _: &[u64]) -> Res<Vec<u64>> {
        unreachable!()
    }
    fn apply(&mut self, _: &mut Store, _: usize, _: u32, _: usize, _: &[u64]) -> Res<Vec<u64>> {
        unreachable!()
    }
}
/// answers with values of the declared result types
struct Typed<'a> {
    r: &'a mut Rng,
    tys: Vec<FT>,
}
impl Host for Typed<'_> {
    fn call(&mut self, _: &mut Store, id: usize, _: &[u64]) -> Res<Vec<u64>> {
        Ok(self.tys[id].results.clone().iter().map(|t| gen::interesting(self.r, *t)).collect())
    }
    fn trap(&mut self, _: &mut Store, _: usize, _: &'static str, _: &[u64]) -> Res<Vec<u64>> {
        unreachable!()
    }
    fn apply(&mut self, _: &mut Store, _: usize, _: u32, _: usize, _: &[u64]) -> Res<Vec<u64>> {
        unreachable!()
    }
}
fn instance(m: &Rc<Module>, fuel: u64, tys: &mut Vec<FT>) -> (Store, usize) {
    let mut s = Store::new(fuel, 400);
    s.effects = Some(vec![]);
    let inst = s
        .allocate(
            m.clone(),
            |s, _, want| {
                Ok(match want {
                    Ext::Func(t) => {
                        tys.push(t.clone());
                        Addr::Func(s.host_func(t.clone(), tys.len() - 1))
                    }
                    Ext::Table(t, l) => {
                        s.tables.push(Table { ty: *t, elems: vec![NULL; l.min as usize], max: 1 << 16 });
                        Addr::Table(s.tables.len() - 1)
                    }
                    Ext::Mem(l) => {
                        s.mems.push(Mem { data: vec![0; l.min as usize * PAGE], max: l.max.unwrap_or(100) });
                        Addr::Mem(s.mems.len() - 1)
                    }
                    Ext::Global(t, _) => {
                        s.globals.push(Global { ty: *t, v: if t.is_ref() { NULL } else { 1 } });
                        Addr::Global(s.globals.len() - 1)
                    }
                })
            },
            None,
        )
        .expect("instance");
    (s, inst)
}
fn state(s: &Store, inst: usize) -> u64 {
    let g: Vec<u64> = s.globals.iter().map(|g| g.v).collect();
    let t: Vec<&Vec<u64>> = s.tables.iter().map(|t| &t.elems).collect();
    let m: Vec<&Vec<u8>> = s.mems.iter().map(|m| &m.data).collect();
    hash64(&(g, t, m, &s.insts[inst].dropped_elem, &s.insts[inst].dropped_data))
}
pub fn reported(bytes: &[u8]) -> Result<HashSet<u32>, String> {
    guarded(|| immutable_functions_from_binary(bytes))?.ok_or_else(|| "the analysis does not read the module".into())
}
/// Runs functions of the module and looks for a reported function that touched state.
fn execute(m: &Rc<Module>, set: &HashSet<u32>, r: &mut Rng, rep: &mut Report, fuel_arg: u64, show: &dyn Fn(String) -> String) {
    let defined: Vec<u32> = (0..m.funcs.len() as u32).filter(|i| m.funcs[*i as usize].body.is_some()).collect();
    let mut tys = vec![];
    let (mut s, inst) = instance(m, 200_000, &mut tys);
    if let Some(bad) = set.iter().find(|i| !defined.contains(i)) {
        return rep.violation("not-a-function", show(format!("function {bad} is reported but not defined in the module")));
    }
    {
        let mut h = Typed { r, tys: tys.clone() };
        let _ = s.start(&mut h, inst);
    }
    for f in &defined {
        let ty = &m.funcs[*f as usize].ty;
        for k in 0..if set.contains(f) { 8 } else { 5 } {
            s.fuel = 60_000;
            s.depth = 0;
            s.frames.clear();
            if let Some(e) = &mut s.effects {
                e.clear();
            }
            let args: Vec<u64> = ty
                .params
                .iter()
                .enumerate()
                .map(|(i, t)| match (i, k) {
                    (0, 0) if *t == VT::I32 => 0xffff_ffff,
                    (0, 1) if *t == VT::I32 => 0,
                    (0, _) if *t == VT::I32 => u64::from(r.u32()),
                    (1, _) if *t == VT::I32 => fuel_arg.min(1 + r.below(fuel_arg as usize + 1) as u64),
                    _ => gen::interesting(r, *t),
                })
                .collect();
            let before = set.contains(f).then(|| state(&s, inst));
            let at = s.insts[inst].funcs[*f as usize];
            let out = {
                let mut h = Typed { r, tys: tys.clone() };
                guarded(|| s.invoke(&mut h, at, &args))
            };
            let Ok(out) = out else { continue };
            rep.count("calls executed", 1);
            let effects = s.effects.clone().unwrap_or_default();
            rep.count("state accesses seen", effects.len() as u64);
            if let Some((what, _, who)) = effects.iter().find(|(_, i, f)| *i == inst && set.contains(f)) {
                return rep.violation("impure", show(format!("function {who} is reported, but in a call of {f}({args:x?}) it {what}")));
            }
            if let Some(b) = before {
                rep.count("reported functions executed", 1);
                if state(&s, inst) != b {
                    return rep.violation("changed", show(format!("function {f} is reported, but {f}({args:x?}) changed the state of the program")));
                }
                // the same call in another state
                if !matches!(out, Err(Trap::Fuel)) {
                    let (mut t, ti) = instance(m, 60_000, &mut vec![]);
                    for g in &mut t.globals {
                        if !g.ty.is_ref() {
                            g.v = gen::interesting(r, g.ty);
                        }
                    }
                    for mm in &mut t.mems {
                        let n = mm.data.len().min(256);
                        for b in &mut mm.data[..n] {
                            *b = r.u32() as u8;
                        }
                    }
                    t.effects = None;
                    let at = t.insts[ti].funcs[*f as usize];
                    let again = guarded(|| t.invoke(&mut Answer(r), at, &args));
                    let refs = ty.mentions_refs();
                    if let Ok(again) = again {
                        if !refs && format!("{again:?}") != format!("{out:?}") && !matches!(again, Err(Trap::Fuel)) {
                            return rep.violation("depends", show(format!("function {f} is reported, but {f}({args:x?}) gives {out:x?} in one state and {again:x?} in another")));
                        }
                        rep.count("calls repeated in another state", 1);
                    }
                }
            }
        }
    }
}
fn size(r: &mut Rng, i: u64) -> (usize, usize, u64) {
    // shape, functions, nesting of calls while running
    match i % 10 {
        0 => (1, r.range(2, 40), 60),
        1 if i % 100 == 1 => (1, *r.pick(&[120, 130, 260]), 270),
        5 if i % 100 == 5 => (4, *r.pick(&[20usize, 64, 130, 257, 300]) + r.below(3), 3),
        1 | 2 => (2, r.range(2, 14), 6),
        3 | 4 => (3, r.range(1, 8), 3),
        _ => (0, r.range(1, 9), 3),
    }
}
pub fn s01(ctx: &mut Ctx) {
    ctx.rule = "one observation = one module analysed, its functions executed with every access to state attributed to the functions on the stack".into();
    let _quiet = Quiet::new();
    let n = ctx.n(2_500, 40_000);
    parallel(ctx, 1, n, |i, r, rep| {
        let (shape, n, fuel) = size(r, i);
        let p = prog(r, shape, n, (1, 3));
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let (wat, _) = p.wat(&order);
        let bytes = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
        rep.evals += 1;
        let set = match reported(&bytes) {
            Ok(s) => s,
            Err(e) => return rep.violation("panic", format!("{e}\n{wat}")),
        };
        let m = Rc::new(decode(&bytes).expect("decode"));
        let mut shown: Vec<_> = set.iter().collect();
        shown.sort();
        let show = |what: String| format!("{what}\nreported {shown:?}\n{wat}");
        execute(&m, &set, r, rep, fuel, &show);
        rep.count("functions reported", set.len() as u64);
        rep.saw(&bytes);
        if rep.samples.is_empty() {
            rep.samples.push(json!({"functions": n, "reported": set.len()}));
        }
    });
    // programs of all instructions
    let n = ctx.n(1_500, 25_000);
    parallel(ctx, 2, n, |_, r, rep| {
        let o = gen::Opts { refs: r.bool(), size: *r.pick(&[2, 4, 8, 20]), max_funcs: *r.pick(&[2, 4, 8, 12]), ..Default::default() };
        let g = gen::module(r, &o);
        let bytes = crate::encode::encode(&g.module, &g.types);
        rep.evals += 1;
        let set = match reported(&bytes) {
            Ok(s) => s,
            Err(e) => return rep.violation("panic", format!("{e}\n{}", wasmprinter::print_bytes(&bytes).unwrap_or_default())),
        };
        let m = Rc::new(decode(&bytes).expect("decode"));
        let mut shown: Vec<_> = set.iter().collect();
        shown.sort();
        let show = |what: String| format!("{what}\nreported {shown:?}\n{}", wasmprinter::print_bytes(&bytes).unwrap_or_default());
        execute(&m, &set, r, rep, 3, &show);
        rep.count("functions reported (general programs)", set.len() as u64);
        rep.saw(&bytes);
    });
}
pub fn s02(ctx: &mut Ctx) {
    ctx.rule = "one observation = one module, in several orders of its functions, its report compared with the reference".into();
    let _quiet = Quiet::new();
    let n = ctx.n(6_000, 100_000);
    parallel(ctx, 1, n, |i, r, rep| {
        let (shape, n, _) = size(r, i);
        let dirt = *r.pick(&[(1, 3), (1, 10), (0, 1)]);
        let p = prog(r, shape, n, dirt);
        let (must, may) = p.reference();
        rep.evals += 1;
        let mut order: Vec<usize> = (0..n).collect();
        let mut first: Option<BTreeMap<usize, bool>> = None;
        for round in 0..4 {
            match round {
                0 => {}
                1 => order.reverse(),
                _ => r.shuffle(&mut order),
            }
            let (wat, at) = p.wat(&order);
            let bytes = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
            let set = match reported(&bytes) {
                Ok(s) => s,
                Err(e) => return rep.violation("panic", format!("{e}\n{wat}")),
            };
            let named: BTreeMap<usize, bool> = (0..n).map(|f| (f, set.contains(&at[f]))).collect();
            let show = |what: String| format!("{what}\nfunctions in the order {order:?}\n{wat}");
            if let Some(f) = must.iter().find(|f| !named[f]) {
                return rep.violation("missing", show(format!("function {} (number {}) only computes, but is not reported", p.funs[*f].name, at[*f])));
            }
            if let Some((f, _)) = named.iter().find(|(f, y)| **y && !may.contains(f)) {
                return rep.violation("extra", show(format!("function {} (number {}) is reported, but reaches an instruction that touches state", p.funs[*f].name, at[*f])));
            }
            if set.iter().any(|x| !at.contains(x)) {
                return rep.violation("unknown", show(format!("reported {set:?}, defined functions are {at:?}")));
            }
            match &first {
                None => first = Some(named),
                Some(f) if *f == named => {}
                Some(f) => return rep.violation("order", show(format!("reported {named:?}, in another order {f:?}"))),
            }
            // the analysis of the parsed module answers the same, and again
            if round == 0 {
                let again = guarded(|| wasabi_wasm::Module::from_bytes(&bytes).map(|(m, _, _)| immutable_functions(&m)).ok());
                if again.as_ref().ok().and_then(|x| x.as_ref()) != Some(&set) {
                    return rep.violation("again", show(format!("{set:?}, then {again:?}")));
                }
            }
            rep.count("modules analysed", 1);
        }
        rep.count("functions that must be reported", must.len() as u64);
        rep.count("functions that must not", (n - may.len()) as u64);
        rep.count("left open (mutual recursion)", (may.len() - must.len()) as u64);
        rep.most("max functions", n as u64);
        let text: Vec<&String> = p.funs.iter().map(|f| &f.text).collect();
        rep.saw(&text);
        let _ = &p.kinds;
        if rep.samples.is_empty() {
            rep.samples.push(json!({"functions": n, "must": must.len(), "may": may.len()}));
        }
    });
}
