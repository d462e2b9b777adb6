//! The stack libraries against a model of frames and slots. The driver is shared by the three
//! implementations; an implementation only has to answer calls of exported functions.
use crate::interp::*;
use crate::run::*;
use crate::wasm::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use vcommon::*;
use wastrumentation::compiler::{Compiles, DefaultCompilerOptions, LibGeneratable};
use wastrumentation::wasm_constructs::{Signature, WasmType};
use wastrumentation_lang_webassembly::compile::compiler::Compiler as WasmCompiler;
use wastrumentation_lang_webassembly::compile::options::CompilerOptions as WasmOptions;
use wastrumentation_lang_webassembly::compile::WebAssembly;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Sig {
    pub ret: Vec<VT>,
    pub arg: Vec<VT>,
}
pub const NUM: [VT; 4] = [VT::I32, VT::F32, VT::I64, VT::F64];
impl Sig {
    pub fn real(&self) -> Signature {
        let w = |t: &VT| match t {
            VT::I32 => WasmType::I32,
            VT::F32 => WasmType::F32,
            VT::I64 => WasmType::I64,
            _ => WasmType::F64,
        };
        Signature { return_types: self.ret.iter().map(w).collect(), argument_types: self.arg.iter().map(w).collect() }
    }
    pub fn suffix(&self) -> String {
        let mut s = "ret".to_string();
        for t in &self.ret {
            s += "_";
            s += t.low();
        }
        s += "_arg";
        for t in &self.arg {
            s += "_";
            s += t.low();
        }
        s
    }
    pub fn slots(&self) -> Vec<VT> {
        self.ret.iter().chain(&self.arg).copied().collect()
    }
}
pub fn code(t: VT) -> u64 {
    match t {
        VT::I32 => 0,
        VT::F32 => 1,
        VT::I64 => 2,
        _ => 3,
    }
}
/// What a program and an analysis may link against.
pub fn required(sigs: &[Sig]) -> BTreeMap<String, FT> {
    let p = VT::I32;
    let mut m = BTreeMap::new();
    for t in NUM {
        m.insert(format!("wastrumentation_stack_load_{}", t.low()), FT::new(&[p, p], &[t]));
        m.insert(format!("wastrumentation_stack_store_{}", t.low()), FT::new(&[p, t, p], &[]));
    }
    m.insert("wastrumentation_stack_load_type".into(), FT::new(&[p, p], &[p]));
    for s in sigs {
        let n = s.suffix();
        m.insert(format!("allocate_{n}"), FT::new(&s.arg, &[p]));
        m.insert(format!("allocate_types_{n}"), FT::new(&[], &[p]));
        m.insert(format!("free_values_{n}"), FT::new(&[p], &[]));
        m.insert(format!("free_types_{n}"), FT::new(&[p], &[]));
        let mut all = vec![p];
        all.extend(&s.ret);
        m.insert(format!("store_rets_{n}"), FT::new(&all, &[]));
        for (side, ts) in [("arg", &s.arg), ("ret", &s.ret)] {
            for (i, t) in ts.iter().enumerate() {
                m.insert(format!("load_{side}{i}_{n}"), FT::new(&[p], &[*t]));
                m.insert(format!("store_{side}{i}_{n}"), FT::new(&[p, *t], &[]));
            }
        }
    }
    m
}
/// `widest`: arguments or results of a signature at the most
pub fn some_sigs(r: &mut Rng, most: usize, widest: usize) -> Vec<Sig> {
    let n = r.range(1, most);
    let mut v: Vec<Sig> = vec![];
    for _ in 0..n {
        let pick = |r: &mut Rng, n: usize| (0..n).map(|_| *r.pick(&NUM)).collect::<Vec<_>>();
        let s = match r.below(8) {
            0 => Sig { ret: vec![], arg: vec![] },
            1 if !v.is_empty() => {
                // the same again, or a permutation, or results and arguments exchanged
                let mut s = r.pick(&v).clone();
                match r.below(3) {
                    0 => {}
                    1 => {
                        r.shuffle(&mut s.ret);
                        r.shuffle(&mut s.arg);
                    }
                    _ => std::mem::swap(&mut s.ret, &mut s.arg),
                }
                s
            }
            2 => {
                // the same counts, other types
                let like = v.first().cloned().unwrap_or(Sig { ret: vec![VT::I32], arg: vec![VT::I32] });
                Sig { ret: pick(r, like.ret.len()), arg: pick(r, like.arg.len()) }
            }
            3 => {
                let (a, b) = (r.range(0, 12), r.range(6, 24));
                Sig { ret: pick(r, a), arg: pick(r, b) }
            }
            4 if r.chance(1, 4) => {
                let mut side = || match r.below(5) {
                    0 => r.range(0, 3),
                    1 | 2 => r.range(8, 20.min(widest)),
                    3 => r.range(20.min(widest), 50.min(widest)),
                    _ => r.range(30.min(widest), widest),
                };
                let (a, b) = (side(), side());
                Sig { ret: pick(r, a), arg: pick(r, b) }
            }
            _ => {
                let (a, b) = (r.range(0, 3), r.range(0, 5));
                Sig { ret: pick(r, a), arg: pick(r, b) }
            }
        };
        v.push(s);
    }
    v
}
pub trait Lib {
    fn call(&mut self, name: &str, args: &[u64]) -> Result<Vec<u64>, String>;
    /// what the allocator underneath noticed
    fn health(&mut self) -> Result<(), String> {
        Ok(())
    }
    /// bytes it has from the system, where known
    fn footprint(&mut self) -> Option<u64> {
        None
    }
}
#[derive(Clone, Copy)]
pub struct Style {
    /// frames are released in the order a program's calls return
    pub nested: bool,
    /// signalling NaNs keep their bits
    pub any_nan: bool,
}
pub fn some_value(r: &mut Rng, t: VT, style: Style) -> u64 {
    let v = match (t, r.below(6)) {
        (VT::I32 | VT::F32, 0) => *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000]),
        (VT::I64 | VT::F64, 0) => *r.pick(&[
            0,
            1,
            0x7fff_ffff_ffff_ffff,
            0x8000_0000_0000_0000,
            u64::MAX,
            0xffff_ffff,
            0xffff_ffff_0000_0000,
            0x7ff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
        ]),
        (VT::F32, 1) if style.any_nan => 0x7f80_0001 | (r.u64() & 0x803f_ffff),
        (VT::F64, 1) if style.any_nan => 0x7ff0_0000_0000_0001 | (r.u64() & 0x800f_ffff_ffff_ffff),
        (VT::I32 | VT::F32, _) => r.u32() as u64,
        _ => r.u64(),
    };
    if style.any_nan {
        return v;
    }
    match t {
        VT::F32 if f32::from_bits(v as u32).is_nan() => 0x7fc0_0000,
        VT::F64 if f64::from_bits(v).is_nan() => 0x7ff8_0000_0000_0000,
        _ => v,
    }
}
struct Frame {
    sig: usize,
    values: u64,
    types: u64,
    slots: Vec<Option<u64>>,
}
pub struct History<'a> {
    pub lib: &'a mut dyn Lib,
    sigs: &'a [Sig],
    names: Vec<String>,
    slots: Vec<Vec<VT>>,
    style: Style,
    live: Vec<Frame>,
    trail: std::collections::VecDeque<String>,
    pub calls: u64,
    pub deepest: usize,
}
type Bad = (String, String);
impl<'a> History<'a> {
    pub fn new(lib: &'a mut dyn Lib, sigs: &'a [Sig], style: Style) -> Self {
        History {
            lib,
            sigs,
            names: sigs.iter().map(Sig::suffix).collect(),
            slots: sigs.iter().map(Sig::slots).collect(),
            style,
            live: vec![],
            trail: Default::default(),
            calls: 0,
            deepest: 0,
        }
    }
    fn bad<T>(&self, sig: &str, what: String) -> Result<T, Bad> {
        Err((sig.into(), format!("{what}\nlast calls:\n  {}", self.trail.iter().cloned().collect::<Vec<_>>().join("\n  "))))
    }
    fn call(&mut self, name: &str, args: &[u64], results: usize) -> Result<Vec<u64>, Bad> {
        self.calls += 1;
        let got = self.lib.call(name, args);
        if self.trail.len() > 24 {
            self.trail.pop_front();
        }
        self.trail.push_back(format!("{name} {args:x?} -> {got:x?}"));
        match got {
            Ok(v) if v.len() == results => Ok(v),
            Ok(v) => self.bad("arity", format!("{name} returned {} values", v.len())),
            Err(e) => self.bad("call-failed", format!("{name} failed: {e}")),
        }
    }
    fn push(&mut self, r: &mut Rng, sig: usize) -> Result<(), Bad> {
        let n = self.names[sig].clone();
        let args: Vec<u64> = self.sigs[sig].arg.iter().map(|t| some_value(r, *t, self.style)).collect();
        let values = self.call(&format!("allocate_{n}"), &args, 1)?[0];
        let types = self.call(&format!("allocate_types_{n}"), &[], 1)?[0];
        let count = self.slots[sig].len() as u64;
        let new = [(values, values + 8 * count, "values"), (types, types + 4 * count, "types")];
        if count > 0 && new[0].0 < new[1].1 && new[1].0 < new[0].1 {
            return self.bad("overlap", format!("the values {values}.. and types {types}.. of one frame of {count} slots overlap"));
        }
        for f in &self.live {
            let c = f.slots.len() as u64;
            for (a, b, w) in [(f.values, f.values + 8 * c, "values"), (f.types, f.types + 4 * c, "types")] {
                for (x, y, v) in new {
                    if a < b && x < y && a < y && x < b {
                        return self.bad("overlap", format!("new {v} buffer {x}..{y} overlaps a live {w} buffer {a}..{b}"));
                    }
                }
            }
        }
        let mut slots = vec![None; self.sigs[sig].ret.len()];
        slots.extend(args.into_iter().map(Some));
        self.live.push(Frame { sig, values, types, slots });
        self.deepest = self.deepest.max(self.live.len());
        Ok(())
    }
    fn pop(&mut self, k: usize) -> Result<(), Bad> {
        let f = self.live.remove(k);
        let n = self.names[f.sig].clone();
        self.call(&format!("free_values_{n}"), &[f.values], 0)?;
        self.call(&format!("free_types_{n}"), &[f.types], 0)?;
        self.lib.health().or_else(|e| self.bad("allocator", e))
    }
    fn slot_name(&self, sig: usize, slot: usize) -> String {
        let rets = self.sigs[sig].ret.len();
        if slot < rets {
            format!("ret{slot}_{}", self.names[sig])
        } else {
            format!("arg{}_{}", slot - rets, self.names[sig])
        }
    }
    fn look(&mut self, k: usize, slot: usize, typed: bool) -> Result<(), Bad> {
        let (sig, values, want) = (self.live[k].sig, self.live[k].values, self.live[k].slots[slot]);
        let Some(want) = want else { return Ok(()) };
        let t = self.slots[sig][slot];
        let got = if typed {
            let name = format!("load_{}", self.slot_name(sig, slot));
            self.call(&name, &[values], 1)?[0]
        } else {
            self.call(&format!("wastrumentation_stack_load_{}", t.low()), &[values, slot as u64], 1)?[0]
        };
        if got != want {
            let way = if typed { "typed" } else { "untyped" };
            return self.bad(&format!("value-{way}"), format!("slot {slot} ({t:?}) of frame {k} of {} reads {got:#x}, holds {want:#x}", self.names[sig]));
        }
        Ok(())
    }
    fn look_type(&mut self, k: usize, slot: usize) -> Result<(), Bad> {
        let (sig, types) = (self.live[k].sig, self.live[k].types);
        let want = code(self.slots[sig][slot]);
        let got = self.call("wastrumentation_stack_load_type", &[types, slot as u64], 1)?[0];
        if got != want {
            return self.bad("type-code", format!("type of slot {slot} of frame {k} of {} reads {got}, is {want}", self.names[sig]));
        }
        Ok(())
    }
    fn put(&mut self, r: &mut Rng, k: usize, slot: usize, typed: bool) -> Result<(), Bad> {
        let (sig, values) = (self.live[k].sig, self.live[k].values);
        let t = self.slots[sig][slot];
        let v = some_value(r, t, self.style);
        if typed {
            let name = format!("store_{}", self.slot_name(sig, slot));
            self.call(&name, &[values, v], 0)?;
        } else {
            self.call(&format!("wastrumentation_stack_store_{}", t.low()), &[values, v, slot as u64], 0)?;
        }
        self.live[k].slots[slot] = Some(v);
        Ok(())
    }
    fn put_rets(&mut self, r: &mut Rng, k: usize) -> Result<(), Bad> {
        let sig = self.live[k].sig;
        let mut a = vec![self.live[k].values];
        for (i, t) in self.sigs[sig].ret.iter().enumerate() {
            let v = some_value(r, *t, self.style);
            a.push(v);
            self.live[k].slots[i] = Some(v);
        }
        let name = format!("store_rets_{}", self.names[sig]);
        self.call(&name, &a, 0)?;
        Ok(())
    }
    pub fn audit(&mut self) -> Result<(), Bad> {
        for k in 0..self.live.len() {
            for slot in 0..self.live[k].slots.len() {
                self.look(k, slot, (k + slot) % 2 == 0)?;
                self.look_type(k, slot)?;
            }
        }
        Ok(())
    }
    /// a random history of `steps` operations, at most `depth` frames live
    pub fn run(&mut self, r: &mut Rng, steps: usize, depth: usize) -> Result<(), Bad> {
        for _ in 0..steps {
            if self.live.is_empty() || (self.live.len() < depth && r.chance(1, 4)) {
                let s = r.below(self.sigs.len());
                self.push(r, s)?;
                continue;
            }
            // mostly the innermost frame, as a running analysis would
            let k = if r.chance(3, 4) { self.live.len() - 1 } else { r.below(self.live.len()) };
            let n = self.live[k].slots.len();
            match r.below(10) {
                0 | 1 => {
                    let k = if self.style.nested { self.live.len() - 1 } else { r.below(self.live.len()) };
                    self.pop(k)?;
                    if r.chance(1, 3) {
                        self.audit()?;
                    }
                }
                2 => self.put_rets(r, k)?,
                _ if n == 0 => {}
                3 | 4 => {
                    let (s, t) = (r.below(n), r.bool());
                    self.put(r, k, s, t)?;
                    if r.bool() {
                        for s in 0..n {
                            self.look(k, s, r.bool())?;
                        }
                    }
                }
                5 => {
                    let s = r.below(n);
                    self.look_type(k, s)?;
                }
                _ => {
                    let (s, t) = (r.below(n), r.bool());
                    self.look(k, s, t)?;
                }
            }
        }
        self.audit()
    }
    /// a tower of `depth` frames, checked and taken down
    pub fn tower(&mut self, r: &mut Rng, depth: usize) -> Result<(), Bad> {
        let base = self.live.len();
        for _ in 0..depth {
            let s = r.below(self.sigs.len());
            self.push(r, s)?;
            let k = self.live.len() - 1;
            if r.bool() {
                self.put_rets(r, k)?;
            }
        }
        self.audit()?;
        while self.live.len() > base {
            let k = self.live.len() - 1;
            for slot in 0..self.live[k].slots.len() {
                self.look(k, slot, r.bool())?;
            }
            self.pop(k)?;
        }
        self.audit()
    }
    /// a climb over page ends: big frames up to one, then the smallest over it (signature 0 has one argument, 1 is big)
    pub fn ridge(&mut self, r: &mut Rng, pages: usize) -> Result<(), Bad> {
        const PAGE: u64 = 65536;
        let (base, big) = (self.live.len(), 12 * self.slots[1].len() as u64);
        self.push(r, 0)?;
        let mut over = 0;
        while over < pages {
            let f = &self.live[self.live.len() - 1];
            let count = f.slots.len() as u64;
            let end = (f.values + 8 * count).max(f.types + 4 * count);
            let left = PAGE - end % PAGE;
            let sig = if left > big { 1 } else { 0 };
            self.push(r, sig)?;
            let k = self.live.len() - 1;
            if sig == 1 {
                self.put(r, k, 0, true)?;
                self.put(r, k, self.slots[1].len() - 1, false)?;
                let near = self.slots[1].len() - 1;
                self.look_type(k, near)?;
            } else {
                self.look(k, 0, true)?;
                self.look_type(k, 0)?;
                over += (left <= 12) as usize;
            }
        }
        for k in base..self.live.len() {
            let last = self.live[k].slots.len() - 1;
            for slot in [0, last] {
                self.look(k, slot, r.bool())?;
                self.look_type(k, slot)?;
            }
        }
        while self.live.len() > base {
            self.pop(self.live.len() - 1)?;
        }
        Ok(())
    }
    /// many frames, one after the other
    pub fn churn(&mut self, r: &mut Rng, n: usize) -> Result<(), Bad> {
        let mut first = None;
        for i in 0..n {
            let s = if i < 64 { i % self.sigs.len() } else { r.below(self.sigs.len()) };
            self.push(r, s)?;
            let k = self.live.len() - 1;
            self.pop(k)?;
            if i == 64 {
                first = self.lib.footprint();
            }
        }
        if let (Some(a), Some(b)) = (first, self.lib.footprint()) {
            if b > a + (64 << 10) {
                return self.bad("leak", format!("memory grew from {a} to {b} bytes while {n} frames were allocated and freed in turn"));
            }
        }
        Ok(())
    }
    pub fn finish(&mut self) -> Result<(), Bad> {
        self.audit()?;
        while let Some(k) = self.live.len().checked_sub(1) {
            self.pop(k)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- a compiled library
pub struct Compiled {
    s: Store,
    funcs: HashMap<String, usize>,
    health: Option<usize>,
}
impl Compiled {
    /// Instantiates a library and checks what it offers.
    pub fn new(bytes: &[u8], sigs: &[Sig]) -> Result<Compiled, Bad> {
        validate(bytes).map_err(|e| ("invalid".to_string(), e))?;
        let m = decode(bytes).map_err(|e| ("unreadable".to_string(), format!("{e:?}")))?;
        let m = Rc::new(m);
        if let Some(i) = m.imports.first() {
            return Err(("imports".into(), format!("the library imports {i:?}")));
        }
        for (name, ft) in required(sigs) {
            match m.export(&name).map(|x| m.ext(x.kind, x.index)) {
                Some(Ext::Func(t)) if t == ft => {}
                other => return Err(("interface".into(), format!("export {name}: {other:?}, expected {ft:?}"))),
            }
        }
        let mut s = Store::new(u64::MAX, 1000);
        s.max_pages = 4000;
        let i = s.allocate(m.clone(), |_, _, _| Err("import".into()), None).map_err(|e| ("instantiate".to_string(), e))?;
        s.start(&mut NoHost, i).map_err(|e| ("instantiate".to_string(), format!("{e:?}")))?;
        let funcs = m.exports.iter().filter(|x| x.kind == Kind::Func).map(|x| (x.name.clone(), s.insts[i].funcs[x.index as usize])).collect::<HashMap<_, _>>();
        let health = funcs.get("verif_health").copied();
        Ok(Compiled { s, funcs, health })
    }
}
impl Lib for Compiled {
    fn call(&mut self, name: &str, args: &[u64]) -> Result<Vec<u64>, String> {
        let f = *self.funcs.get(name).ok_or("no such export")?;
        self.s.fuel = 5_000_000;
        self.s.invoke(&mut NoHost, f, args).map_err(|t| format!("{t:?}"))
    }
    fn health(&mut self) -> Result<(), String> {
        let Some(f) = self.health else { return Ok(()) };
        self.s.fuel = 50_000_000;
        match self.s.invoke(&mut NoHost, f, &[]) {
            Ok(v) if v == [0] => Ok(()),
            other => Err(format!("the allocator reports {other:?} (1 = released with another layout, 2 = released twice or never allocated, 3 = bytes next to a buffer were written)")),
        }
    }
    fn footprint(&mut self) -> Option<u64> {
        self.s.mems.first().map(|m| m.data.len() as u64)
    }
}

/// The histories every implementation goes through.
pub fn histories(lib: &mut dyn Lib, sigs: &[Sig], style: Style, r: &mut Rng, rep: &mut Report, steps: usize, tower: usize) -> Result<(), Bad> {
    let before = {
        let mut h = History::new(lib, sigs, style);
        h.run(r, steps, 12)?;
        h.run(r, steps / 4, 60)?;
        h.finish()?;
        if tower > 0 {
            h.tower(r, tower)?;
            h.finish()?;
        }
        if tower >= 1000 {
            h.churn(r, 40_000)?;
        }
        rep.count("library calls", h.calls);
        rep.most("max live frames", h.deepest as u64);
        h.lib.footprint()
    };
    // what was freed is used again: the same again must not need more memory
    let mut h = History::new(lib, sigs, style);
    h.run(r, steps / 2, 12)?;
    h.finish()?;
    rep.count("library calls", h.calls);
    if let (Some(a), Some(b)) = (before, h.lib.footprint()) {
        rep.most("max library bytes", b);
        if b > a + (64 << 10) {
            return h.bad("leak", format!("all frames were freed, yet memory grew from {a} to {b} bytes"));
        }
    }
    Ok(())
}

/// Signatures and a history for `ridge`.
pub fn page_ends(r: &mut Rng) -> Vec<Sig> {
    let t = *r.pick(&[VT::I64, VT::F64, VT::I32, VT::F32]);
    vec![Sig { ret: vec![], arg: vec![t] }, Sig { ret: vec![t; 100 + r.below(150)], arg: vec![] }]
}
pub fn over_page_ends(lib: &mut dyn Lib, sigs: &[Sig], style: Style, r: &mut Rng, rep: &mut Report, pages: usize) -> Result<(), Bad> {
    let mut h = History::new(lib, sigs, style);
    h.ridge(r, pages)?;
    rep.count("library calls", h.calls);
    rep.count("page ends crossed", pages as u64);
    rep.most("max live frames", h.deepest as u64);
    Ok(())
}

/// Frames until more than `top` bytes are live at once; those around 2^31 and some others are used.
fn summit(lib: &mut Compiled, sigs: &[Sig], r: &mut Rng, rep: &mut Report, top: u64) -> Result<(), Bad> {
    lib.s.max_pages = 65536;
    let (name, n) = (sigs[0].suffix(), sigs[0].ret.len() as u64);
    let t = sigs[0].ret[0].low();
    let bad = |s: &str, d: String| Err((s.to_string(), d));
    let mut frames: Vec<u64> = vec![];
    let mut live: BTreeMap<u64, u64> = BTreeMap::new();
    let go = |lib: &mut Compiled, name: String, args: &[u64]| {
        lib.call(&name, args).map_err(|e| ("call-failed".to_string(), format!("{name}{args:x?} with {:?} bytes of memory: {e}", lib.footprint())))
    };
    let (alloc, free) = (format!("allocate_{name}"), format!("free_values_{name}"));
    let mut bytes = 0u64;
    while bytes < top {
        let p = go(lib, alloc.clone(), &[])?[0];
        bytes += 8 * n;
        let near = live.range(..p + 8 * n).next_back();
        if near.is_some_and(|(_, end)| *end > p) {
            return bad("overlap", format!("a frame of {n} slots at {p} overlaps {near:?}"));
        }
        live.insert(p, p + 8 * n);
        frames.push(p);
    }
    let mut some: Vec<usize> = (0..200).map(|_| r.below(frames.len())).collect();
    some.extend((0..frames.len()).filter(|k| (frames[*k] as i64 - (1i64 << 31)).abs() < 40_000));
    some.push(frames.len() - 1);
    let mut want: BTreeMap<(usize, u64), u64> = BTreeMap::new();
    for k in &some {
        for slot in [0, n - 1, r.below(n as usize) as u64] {
            let v = some_value(r, sigs[0].ret[0], Style { nested: true, any_nan: true });
            go(lib, format!("store_ret{slot}_{name}"), &[frames[*k], v])?;
            want.insert((*k, slot), v);
        }
    }
    for ((k, slot), v) in &want {
        for (how, args) in [(format!("load_ret{slot}_{name}"), vec![frames[*k]]), (format!("wastrumentation_stack_load_{t}"), vec![frames[*k], *slot])] {
            let got = go(lib, how.clone(), &args)?[0];
            if got != *v {
                return bad("value-typed", format!("{how}{args:x?}: {got:#x}, holds {v:#x}; {bytes} bytes live"));
            }
        }
    }
    rep.most("max live bytes of a library", bytes);
    while let Some(p) = frames.pop() {
        go(lib, free.clone(), &[p])?;
    }
    let before = lib.footprint();
    for _ in 0..1000 {
        frames.push(go(lib, alloc.clone(), &[])?[0]);
    }
    if lib.footprint() != before {
        return bad("leak", format!("all frames were freed, yet memory grew from {before:?} to {:?} bytes", lib.footprint()));
    }
    Ok(())
}

pub fn g01(ctx: &mut Ctx) {
    ctx.rule = "one observation = one history of operations on a generated library, every slot value and type code compared with the model".into();
    let n = ctx.n(1_500, 40_000);
    let style = Style { nested: true, any_nan: true };
    parallel(ctx, 1, n, |i, r, rep| {
        let edges = i % 25 == 1;
        let mut sigs = if edges { page_ends(r) } else { some_sigs(r, 6, if i % 20 == 3 { 900 } else { 60 }) };
        if i == 0 {
            sigs.insert(0, Sig { ret: vec![VT::I64; 900], arg: vec![] });
        }
        let real: Vec<Signature> = sigs.iter().map(Sig::real).collect();
        rep.evals += 1;
        let text = |what: String| format!("signatures {:?}\n{what}", sigs.iter().map(Sig::suffix).collect::<Vec<_>>());
        let lib = match guarded(|| WebAssembly::generate_lib(&real)) {
            Ok(l) => l,
            Err(p) => return rep.violation("panic", text(p)),
        };
        let bytes = match guarded(|| WasmCompiler::setup_compiler().expect("setup").compile(&WasmOptions::default_for(lib.content))) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => return rep.violation("does-not-compile", text(e.reason().to_string())),
            Err(p) => return rep.violation("panic", text(p)),
        };
        let mut lib = match Compiled::new(&bytes, &sigs) {
            Ok(l) => l,
            Err((s, d)) => return rep.violation(&s, text(d)),
        };
        if i == 0 {
            if let Err((s, d)) = summit(&mut lib, &sigs, r, rep, (1 << 31) + (100 << 20)) {
                rep.violation(&s, text(d));
            }
            return;
        }
        if edges {
            if let Err((s, d)) = over_page_ends(&mut lib, &sigs, style, r, rep, if i == 1 { 40 } else { 12 }) {
                return rep.violation(&s, text(d));
            }
        }
        let tower = if i % 50 == 0 { 3000 } else if i % 5 == 0 { 400 } else { 0 };
        if let Err((s, d)) = histories(&mut lib, &sigs, style, r, rep, 400, tower) {
            return rep.violation(&s, text(d));
        }
        rep.count("signatures", sigs.len() as u64);
        rep.saw(&sigs);
        if rep.samples.is_empty() {
            rep.samples.push(json!({"signatures": sigs.iter().map(Sig::suffix).collect::<Vec<_>>()}));
        }
    });
}
