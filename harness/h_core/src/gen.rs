//! Random valid modules, generated along the operand stack.
use crate::wasm::*;
use std::collections::BTreeSet;
use vcommon::Rng;

#[derive(Clone, Debug)]
pub struct Opts {
    pub refs: bool,
    /// instructions per function, about
    pub size: usize,
    pub max_funcs: usize,
    /// values out of the ordinary (huge addresses, traps, dead code) more often
    pub wild: bool,
    /// only numeric instructions, locals, control (no imports): used where state does not matter
    pub memory: Option<bool>,
    pub imports: bool,
    pub long_branch_tables: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { refs: true, size: 40, max_funcs: 6, wild: false, memory: None, imports: true, long_branch_tables: true }
    }
}
pub struct Generated {
    pub module: Module,
    pub types: Vec<FT>,
}

pub fn interesting(r: &mut Rng, t: VT) -> u64 {
    match t {
        VT::I32 => {
            let v = [0u32, 1, 2, 3, 7, 8, 31, 32, 33, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 128, 127];
            (match r.below(4) {
                0 => *r.pick(&v),
                1 => r.u32(),
                2 => r.below(10) as u32,
                _ => 1u32 << r.below(32),
            }) as u64
        }
        VT::I64 => match r.below(4) {
            0 => *r.pick(&[0u64, 1, 2, 63, 64, 0xffff_ffff, 0x1_0000_0000, u64::MAX, 1 << 63, (1 << 63) - 1, 0x8000_0000, 0x7fff_ffff]),
            1 => r.u64(),
            2 => r.below(10) as u64,
            _ => 1u64 << r.below(64),
        },
        VT::F32 => match r.below(4) {
            0 => *r.pick(&[
                0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7fa0_0001, 0x7f80_0001,
                0x0000_0001, 0x807f_ffff, 0x7f7f_ffff, 0x4f00_0000, 0xcf00_0000, 0x4f80_0000, 0x5f00_0000, 0x5f80_0000, 0x3f00_0000,
                0x3fc0_0000, 0x4020_0000, 0x4b00_0001,
            ]) as u64,
            1 => r.u32() as u64,
            _ => (((r.below(2000) as f32) - 1000.0) / 8.0).to_bits() as u64,
        },
        VT::F64 => match r.below(4) {
            0 => *r.pick(&[
                0u64, 1 << 63, 0x3ff0_0000_0000_0000, 0xbff0_0000_0000_0000, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000,
                0x7ff8_0000_0000_0000, 0xfff8_0000_0000_0000, 0x7ff4_0000_0000_0001, 0x7ff0_0000_0000_0001, 1, 0x41e0_0000_0000_0000,
                0x41df_ffff_ffff_ffff, 0xc1e0_0000_0000_0000, 0xc1e0_0000_0020_0000, 0x41f0_0000_0000_0000, 0x43e0_0000_0000_0000,
                0xc3e0_0000_0000_0000, 0x43f0_0000_0000_0000, 0x3fe0_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0x36a0_0000_0000_0000,
            ]),
            1 => r.u64(),
            _ => (((r.below(2000) as f64) - 1000.0) / 8.0).to_bits(),
        },
        VT::FuncRef => crate::interp::NULL,
        VT::ExternRef => {
            if r.bool() {
                crate::interp::NULL
            } else {
                r.below(1000) as u64
            }
        }
    }
}
fn vt(r: &mut Rng, refs: bool) -> VT {
    if refs && r.chance(1, 8) {
        return if r.bool() { VT::FuncRef } else { VT::ExternRef };
    }
    *r.pick(&NUM)
}
pub fn ft(r: &mut Rng, refs: bool) -> FT {
    let np = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4, 5]);
    let nr = *r.pick(&[0, 0, 0, 1, 1, 1, 1, 1, 2, 3]);
    let refs = refs && r.chance(1, 6);
    let (np, nr) = if r.chance(1, 25) { (np + r.below(8), nr + r.below(4)) } else { (np, nr) };
    let mut ty = FT { params: (0..np).map(|_| vt(r, refs)).collect(), results: (0..nr).map(|_| vt(r, refs)).collect() };
    if refs && np + nr > 0 && r.bool() {
        // exactly one reference, anywhere
        let at = r.below(np + nr);
        for (k, t) in ty.params.iter_mut().chain(ty.results.iter_mut()).enumerate() {
            *t = if k != at {
                *r.pick(&NUM)
            } else if r.bool() {
                VT::FuncRef
            } else {
                VT::ExternRef
            };
        }
    }
    ty
}

struct Plan {
    fuel: Option<u32>,
    prologue: bool,
    wild: bool,
    refs: bool,
    long_tables: bool,
}
#[derive(Clone)]
struct Fr {
    label: Vec<VT>,
    results: Vec<VT>,
    base: usize,
    is_loop: bool,
    back_ok: bool,
    dead: bool,
}
struct B<'a> {
    r: &'a mut Rng,
    m: &'a Module,
    plan: &'a Plan,
    me: u32,
    ops: Vec<Op>,
    locals: Vec<VT>,
    st: Vec<VT>,
    frames: Vec<Fr>,
    dead: bool,
    budget: i32,
    refd: &'a mut BTreeSet<u32>,
    imported: usize,
}
const I32: VT = VT::I32;
fn bin(name: &str) -> Op {
    Op::Binary(op_tables()[name].1)
}
fn un(name: &str) -> Op {
    Op::Unary(op_tables()[name].1)
}
fn c32(v: u32) -> Op {
    Op::Const(I32, v as u64)
}
fn may_trap(o: Op) -> bool {
    match o {
        Op::Unary(n) => (24..=27).contains(&n) || (34..=37).contains(&n),
        Op::Binary(n) => BINARY[n as usize - 1][3..].starts_with("DivS") || BINARY[n as usize - 1][3..].starts_with("DivU") || BINARY[n as usize - 1][3..].starts_with("Rem"),
        _ => false,
    }
}
impl B<'_> {
    fn base(&self) -> usize {
        self.frames.last().map_or(0, |f| f.base)
    }
    fn avail(&self) -> usize {
        self.st.len() - self.base()
    }
    fn pop_n(&mut self, n: usize) {
        for _ in 0..n {
            if self.avail() > 0 {
                self.st.pop();
            } else {
                assert!(self.dead, "{:?}", &self.ops[self.ops.len().saturating_sub(30)..]);
            }
        }
    }
    /// emits an instruction of known type
    fn emit(&mut self, op: Op, pops: usize, pushes: &[VT]) {
        self.ops.push(op);
        self.pop_n(pops);
        self.st.extend_from_slice(pushes);
    }
    fn on_top(&self, ts: &[VT]) -> bool {
        self.avail() >= ts.len() && self.st[self.st.len() - ts.len()..] == *ts
    }
    fn need(&mut self, ts: &[VT]) {
        if ts.is_empty() || (self.on_top(ts) && self.r.chance(2, 3)) {
            return;
        }
        if self.dead && self.avail() == 0 && self.r.chance(1, 2) {
            return;
        }
        for t in ts {
            self.value(*t, 0);
        }
    }
    fn locals_of(&self, t: VT) -> Vec<u32> {
        (0..self.locals.len() as u32).filter(|i| self.locals[*i as usize] == t).collect()
    }
    fn globals_of(&self, t: VT, mutable: bool) -> Vec<u32> {
        (0..self.m.globals.len() as u32)
            .filter(|i| {
                let g = &self.m.globals[*i as usize];
                g.0 == t && (!mutable || (g.1 && Some(*i) != self.plan.fuel))
            })
            .collect()
    }
    fn constant(&mut self, t: VT) {
        let op = match t {
            VT::FuncRef => {
                if !self.m.funcs.is_empty() && self.r.bool() {
                    let f = self.r.below(self.m.funcs.len()) as u32;
                    self.refd.insert(f);
                    Op::RefFunc(f)
                } else {
                    Op::RefNull(t)
                }
            }
            VT::ExternRef => Op::RefNull(t),
            t => Op::Const(t, interesting(self.r, t)),
        };
        self.emit(op, 0, &[t]);
    }
    fn value(&mut self, t: VT, depth: usize) {
        self.budget -= 1;
        let pick = self.r.below(if depth > 2 || self.budget < 0 { 6 } else { 16 });
        match pick {
            0 | 1 => self.constant(t),
            2 | 3 => {
                let l = self.locals_of(t);
                if l.is_empty() {
                    return self.constant(t);
                }
                let i = *self.r.pick(&l);
                self.emit(Op::LocalGet(i), 0, &[t]);
            }
            4 => {
                let l = self.globals_of(t, false);
                if l.is_empty() {
                    return self.constant(t);
                }
                let i = *self.r.pick(&l);
                self.emit(Op::GlobalGet(i), 0, &[t]);
            }
            5 => {
                let l = self.locals_of(t);
                if l.is_empty() || depth > 2 {
                    return self.constant(t);
                }
                self.value(t, depth + 1);
                let i = *self.r.pick(&l);
                self.emit(Op::LocalTee(i), 1, &[t]);
            }
            6 | 7 => {
                let ops: Vec<u8> = (1..=60).filter(|n| unary_type(*n).1 == t).collect();
                if ops.is_empty() {
                    if t == VT::FuncRef || t == VT::ExternRef {
                        return self.table_value(t);
                    }
                    return self.constant(t);
                }
                let mut n = *self.r.pick(&ops);
                while !self.plan.wild && may_trap(Op::Unary(n)) && self.r.chance(4, 5) {
                    n = *self.r.pick(&ops);
                }
                self.value(unary_type(n).0, depth + 1);
                self.emit(Op::Unary(n), 1, &[t]);
            }
            8..=10 => {
                let ops: Vec<u8> = (1..=76).filter(|n| binary_type(*n).1 == t).collect();
                if ops.is_empty() {
                    return self.constant(t);
                }
                let mut n = *self.r.pick(&ops);
                while !self.plan.wild && may_trap(Op::Binary(n)) && self.r.chance(4, 5) {
                    n = *self.r.pick(&ops);
                }
                self.value(binary_type(n).0, depth + 1);
                self.value(binary_type(n).0, depth + 1);
                self.emit(Op::Binary(n), 2, &[t]);
            }
            11 => {
                if self.m.mems.is_empty() || t.is_ref() {
                    return self.constant(t);
                }
                self.load(Some(t), depth);
            }
            12 => {
                if t == I32 && !self.m.mems.is_empty() {
                    self.emit(Op::MemorySize(0), 0, &[I32]);
                } else if t == I32 && self.plan.refs && self.r.bool() {
                    let rt = if self.r.bool() { VT::FuncRef } else { VT::ExternRef };
                    self.value(rt, depth + 1);
                    self.emit(Op::RefIsNull, 1, &[I32]);
                } else {
                    self.select(t, depth);
                }
            }
            13 => self.select(t, depth),
            14 => {
                let c = self.callable(Some(&[t]));
                if c.is_empty() {
                    return self.constant(t);
                }
                let f = *self.r.pick(&c);
                let ty = self.m.funcs[f as usize].ty.clone();
                for p in &ty.params {
                    self.value(*p, depth + 1);
                }
                self.emit(Op::Call(f), ty.params.len(), &ty.results);
            }
            _ => {
                if self.budget < 4 || self.frames.len() > 6 {
                    return self.constant(t);
                }
                self.value(I32, depth + 1);
                let ty = FT::new(&[], &[t]);
                self.open_if(ty, true, 2);
            }
        }
    }
    fn table_value(&mut self, t: VT) {
        let ts: Vec<u32> = (0..self.m.tables.len() as u32).filter(|i| self.m.tables[*i as usize].0 == t).collect();
        if ts.is_empty() {
            return self.constant(t);
        }
        let tab = *self.r.pick(&ts);
        let n = self.m.tables[tab as usize].1.min as usize;
        let n = if n == 0 || self.r.chance(1, 30) { n + 1 } else { n };
        let i = self.r.below(n) as u32;
        self.emit(c32(i), 0, &[I32]);
        self.emit(Op::TableGet(tab), 1, &[t]);
    }
    fn select(&mut self, t: VT, depth: usize) {
        self.value(t, depth + 1);
        self.value(t, depth + 1);
        self.value(I32, depth + 1);
        let op = if t.is_ref() || self.r.chance(1, 4) { Op::Select(Some(t)) } else { Op::Select(None) };
        self.emit(op, 3, &[t]);
    }
    fn address(&mut self, depth: usize) {
        let wild = if self.plan.wild { 6 } else { 150 };
        if self.r.chance(1, wild) {
            self.value(I32, depth + 1);
        } else if self.r.chance(1, 3) {
            self.value(I32, depth + 1);
            let mask = *self.r.pick(&[0xffu32, 0xfff, 0xfff8, 0x3f]);
            self.emit(c32(mask), 0, &[I32]);
            self.emit(bin("I32And"), 2, &[I32]);
        } else {
            let v = match self.r.below(8) {
                0 => 65536 - if self.plan.wild || self.r.chance(1, 30) { self.r.below(12) } else { 160 + self.r.below(12) } as u32,
                1 if self.plan.wild => u32::MAX - self.r.below(20) as u32,
                _ => self.r.below(96) as u32,
            };
            self.emit(c32(v), 0, &[I32]);
        }
    }
    fn offset(&mut self) -> u64 {
        match self.r.below(if self.plan.wild { 8 } else { 300 }) {
            0 => 0xffff_ffff - self.r.below(16) as u64,
            1 => self.r.u32() as u64,
            2 => 65530,
            3..=6 => self.r.below(40) as u64,
            7..=120 => self.r.below(40) as u64,
            _ => 0,
        }
    }
    fn load(&mut self, t: Option<VT>, depth: usize) {
        let ops: Vec<u8> = (1..=14).filter(|n| t.is_none_or(|t| load_type(*n) == t)).collect();
        let n = *self.r.pick(&ops);
        self.address(depth);
        let off = self.offset();
        self.emit(Op::Load(n, off, 0), 1, &[load_type(n)]);
    }
    fn store(&mut self) {
        let n = self.r.range(1, 9) as u8;
        self.address(0);
        self.value(store_type(n), 1);
        let off = self.offset();
        self.emit(Op::Store(n, off, 0), 2, &[]);
    }
    fn callable(&self, results: Option<&[VT]>) -> Vec<u32> {
        (0..self.m.funcs.len() as u32)
            .filter(|i| {
                let f = &self.m.funcs[*i as usize];
                results.is_none_or(|x| f.ty.results == *x)
                    && (f.body.is_none() || self.plan.prologue || *i > self.me)
                    && (self.plan.refs || !f.ty.mentions_refs())
            })
            .collect()
    }
    fn call(&mut self, f: u32) {
        let ty = self.m.funcs[f as usize].ty.clone();
        self.need(&ty.params.clone());
        self.emit(Op::Call(f), ty.params.len(), &ty.results);
    }
    fn call_indirect(&mut self) {
        let ts: Vec<u32> = (0..self.m.tables.len() as u32).filter(|i| self.m.tables[*i as usize].0 == VT::FuncRef).collect();
        if ts.is_empty() || self.m.funcs.is_empty() {
            return;
        }
        let table = *self.r.pick(&ts);
        // aim at an element that is there
        let mut aim = None;
        if self.r.chance(if self.plan.wild { 12 } else { 29 }, if self.plan.wild { 15 } else { 30 }) {
            let mut there = vec![];
            for s in &self.m.elems {
                if let ElemMode::Active(t, off) = &s.mode {
                    if let (true, [Op::Const(_, o), ..]) = (*t == table, &off[..]) {
                        for (k, e) in s.init.iter().enumerate() {
                            if let [Op::RefFunc(f), ..] = &e[..] {
                                there.push((*o as u32 + k as u32, *f));
                            }
                        }
                    }
                }
            }
            if !there.is_empty() {
                aim = Some(*self.r.pick(&there));
            }
        }
        if aim.is_none() && !self.plan.wild && self.r.chance(5, 6) {
            return;
        }
        let (ty, index) = match aim {
            Some((i, f)) => (self.m.funcs[f as usize].ty.clone(), Some(i)),
            None => {
                let f = self.r.below(self.m.funcs.len());
                (self.m.funcs[f].ty.clone(), None)
            }
        };
        if ty.mentions_refs() && !self.plan.refs {
            return;
        }
        self.need(&ty.params.clone());
        match index {
            Some(i) => self.emit(c32(i), 0, &[I32]),
            None => {
                if self.r.bool() {
                    let i = self.r.below(10) as u32;
                    self.emit(c32(i), 0, &[I32]);
                } else {
                    self.value(I32, 1);
                    self.emit(c32(7), 0, &[I32]);
                    self.emit(bin("I32And"), 2, &[I32]);
                }
            }
        }
        let results = ty.results.clone();
        self.emit(Op::CallIndirect { ty: ty.clone(), table }, ty.params.len() + 1, &results);
    }
    // ------------------------------------------------------------ structure
    fn push_frame(&mut self, ty: &FT, label: &[VT], is_loop: bool, back_ok: bool) {
        let base = self.st.len() - ty.params.len().min(self.avail());
        let have = self.st.len() - base;
        // the parameters are on the stack of the new frame
        self.st.truncate(base);
        self.st.extend_from_slice(&ty.params);
        let _ = have;
        self.frames.push(Fr { label: label.to_vec(), results: ty.results.clone(), base, is_loop, back_ok, dead: self.dead });
        self.dead = false;
    }
    fn finish_frame(&mut self) {
        self.coerce();
        let f = self.frames.pop().expect("frame");
        self.st.truncate(f.base);
        self.st.extend_from_slice(&f.results);
        self.dead = f.dead;
    }
    /// leaves exactly the results of the current frame
    fn coerce(&mut self) {
        let f = self.frames.last().expect("frame").clone();
        if self.dead {
            while self.avail() > 0 {
                self.emit(Op::Drop, 1, &[]);
            }
            if self.r.bool() {
                for t in &f.results {
                    self.value(*t, 2);
                }
            }
            return;
        }
        let have = self.st[f.base..].to_vec();
        let common = have.iter().zip(&f.results).take_while(|(a, b)| a == b).count();
        for _ in common..have.len() {
            self.emit(Op::Drop, 1, &[]);
        }
        for t in &f.results[common..] {
            self.value(*t, 2);
        }
    }
    fn block_type(&mut self) -> FT {
        let k = self.r.below(3).min(self.avail());
        let params = if self.r.chance(1, 2) { vec![] } else { self.st[self.st.len() - k..].to_vec() };
        let n = *self.r.pick(&[0, 0, 0, 1, 1, 2, 3]);
        let refs = self.plan.refs && self.r.chance(1, 5);
        FT { params, results: (0..n).map(|_| vt(self.r, refs)).collect() }
    }
    fn open_block(&mut self, inner: i32) {
        let ty = self.block_type();
        self.ops.push(Op::Block { ty: ty.clone(), end: 0 });
        self.push_frame(&ty, &ty.results.clone(), false, true);
        self.seq(inner);
        self.finish_frame();
        self.ops.push(Op::End);
    }
    fn open_loop(&mut self, inner: i32) {
        let ty = self.block_type();
        self.ops.push(Op::Loop { ty: ty.clone(), end: 0 });
        let guard = self.plan.fuel.is_some() && self.r.chance(1, 4);
        self.push_frame(&ty, &ty.params.clone(), true, guard);
        if guard {
            let f = self.plan.fuel.unwrap();
            self.emit(Op::GlobalGet(f), 0, &[I32]);
            self.emit(c32(0), 0, &[I32]);
            self.emit(bin("I32LeS"), 2, &[I32]);
            self.emit(Op::If { ty: FT::default(), els: None, end: 0 }, 1, &[]);
            self.ops.push(Op::Unreachable);
            self.ops.push(Op::End);
            self.burn(f);
        }
        self.seq(inner);
        self.finish_frame();
        self.ops.push(Op::End);
    }
    fn burn(&mut self, f: u32) {
        self.emit(Op::GlobalGet(f), 0, &[I32]);
        self.emit(c32(1), 0, &[I32]);
        self.emit(bin("I32Sub"), 2, &[I32]);
        self.emit(Op::GlobalSet(f), 1, &[]);
    }
    /// the condition is on the stack
    fn open_if(&mut self, ty: FT, els: bool, inner: i32) {
        self.emit(Op::If { ty: ty.clone(), els: None, end: 0 }, 1, &[]);
        self.push_frame(&ty, &ty.results.clone(), false, true);
        self.seq(inner);
        if els {
            self.coerce();
            self.ops.push(Op::Else { end: 0 });
            let f = self.frames.last().unwrap().clone();
            self.st.truncate(f.base);
            self.st.extend_from_slice(&ty.params);
            self.dead = false;
            self.seq(inner);
        }
        self.finish_frame();
        self.ops.push(Op::End);
    }
    fn if_stmt(&mut self, inner: i32) {
        let els = self.r.bool();
        let mut ty = self.block_type();
        if !els {
            ty.results = ty.params.clone();
        }
        self.value(I32, 1);
        self.open_if(ty, els, inner);
    }
    fn label(&self, l: usize) -> &Fr {
        &self.frames[self.frames.len() - 1 - l]
    }
    fn cut(&mut self) {
        let b = self.base();
        self.st.truncate(b);
        self.dead = true;
    }
    fn br(&mut self) {
        let l = self.r.below(self.frames.len());
        let f = self.label(l).clone();
        if f.is_loop && !f.back_ok {
            return self.br_if_to(l);
        }
        self.need(&f.label);
        self.ops.push(Op::Br(l as u32));
        self.cut();
    }
    fn br_if_to(&mut self, l: usize) {
        let f = self.label(l).clone();
        self.need(&f.label);
        self.pop_n(f.label.len());
        self.st.extend_from_slice(&f.label);
        self.value(I32, 1);
        if f.is_loop && !f.back_ok {
            if let Some(g) = self.plan.fuel {
                self.burn(g);
                self.emit(Op::GlobalGet(g), 0, &[I32]);
                self.emit(c32(0), 0, &[I32]);
                self.emit(bin("I32GtS"), 2, &[I32]);
                if self.r.bool() {
                    self.emit(bin("I32And"), 2, &[I32]);
                } else {
                    self.emit(bin("I32Mul"), 2, &[I32]);
                }
            }
        }
        self.emit(Op::BrIf(l as u32), 1, &[]);
    }
    fn br_table(&mut self) {
        let n = self.frames.len();
        let first = self.r.below(n);
        let types = self.label(first).label.clone();
        let ok: Vec<u32> = (0..n)
            .filter(|l| {
                let f = self.label(*l);
                f.label == types && (!f.is_loop || f.back_ok)
            })
            .map(|l| l as u32)
            .collect();
        if ok.is_empty() {
            return self.br_if_to(first);
        }
        let mut k = *self.r.pick(&[0usize, 1, 1, 2, 3, 4, 7]);
        if self.plan.long_tables && self.r.chance(1, 30) {
            k = self.r.range(20, 140);
        }
        let ls: Vec<u32> = (0..k).map(|_| *self.r.pick(&ok)).collect();
        let d = *self.r.pick(&ok);
        self.need(&types);
        if !self.dead || self.avail() > 0 || self.r.bool() {
            match self.r.below(4) {
                0 => self.value(I32, 1),
                1 => {
                    let v = *self.r.pick(&[u32::MAX, 0x8000_0000, k as u32, (k as u32).wrapping_sub(1)]);
                    self.emit(c32(v), 0, &[I32]);
                }
                2 => {
                    let v = self.r.below(k + 2) as u32;
                    self.emit(c32(v), 0, &[I32]);
                }
                _ => {
                    self.value(I32, 1);
                    self.emit(c32(7), 0, &[I32]);
                    self.emit(bin("I32And"), 2, &[I32]);
                }
            }
        }
        self.ops.push(Op::BrTable(ls, d));
        self.cut();
    }
    fn ret(&mut self) {
        let t = self.frames[0].results.clone();
        self.need(&t);
        self.ops.push(Op::Return);
        self.cut();
    }
    fn seq(&mut self, n: i32) {
        for _ in 0..n {
            if self.budget <= 0 {
                return;
            }
            self.budget -= 1;
            self.stmt();
            if self.dead && self.r.chance(1, 3) {
                return;
            }
        }
    }
    fn small(&mut self, n: usize) {
        let v = self.r.below(n) as u32;
        self.emit(c32(v), 0, &[I32]);
    }
    fn stmt(&mut self) {
        let nested = self.frames.len() < 7;
        let mem = !self.m.mems.is_empty();
        match self.r.below(100) {
            0..=7 => {
                let t = *self.r.pick(&NUM);
                self.value(t, 0);
            }
            8..=17 => {
                let mut n = self.r.range(1, 60) as u8;
                // conversions that may trap
                while !self.plan.wild && may_trap(Op::Unary(n)) && self.r.chance(4, 5) {
                    n = self.r.range(1, 60) as u8;
                }
                self.need(&[unary_type(n).0]);
                self.emit(Op::Unary(n), 1, &[unary_type(n).1]);
            }
            18..=29 => {
                let n = self.r.range(1, 76) as u8;
                let (a, b) = binary_type(n);
                if !self.plan.wild && may_trap(Op::Binary(n)) && self.r.chance(5, 6) {
                    self.need(&[a]);
                    self.emit(Op::Const(a, 3), 0, &[a]);
                } else {
                    self.need(&[a, a]);
                }
                self.emit(Op::Binary(n), 2, &[b]);
            }
            30..=34 if mem => self.load(None, 0),
            35..=40 if mem => self.store(),
            41 if mem => {
                self.small(3);
                self.emit(Op::MemoryGrow(0), 1, &[I32]);
            }
            42 if mem => {
                self.address(1);
                self.value(I32, 2);
                self.small(40);
                self.emit(Op::MemoryFill(0), 3, &[]);
            }
            43 if mem => {
                self.address(1);
                self.address(1);
                self.small(40);
                self.emit(Op::MemoryCopy { dst: 0, src: 0 }, 3, &[]);
            }
            44 if mem && !self.m.datas.is_empty() => {
                let d = self.r.below(self.m.datas.len()) as u32;
                if self.r.chance(1, 4) {
                    self.emit(Op::DataDrop(d), 0, &[]);
                    // what is dropped has no bytes left
                    if self.r.chance(1, 2) {
                        self.address(1);
                        self.small(1);
                        let k = if self.r.chance(2, 3) { 2 } else { 1 };
                        self.emit(c32(k - 1), 0, &[I32]);
                        self.emit(Op::MemoryInit { mem: 0, data: d }, 3, &[]);
                    }
                } else {
                    let n = self.m.datas[d as usize].bytes.len();
                    let passive = self.m.datas[d as usize].active.is_none();
                    self.address(1);
                    self.small(3.min(n + 1));
                    let k = if passive || self.r.chance(1, 20) { 5.min(n.saturating_sub(2) + 1) } else { 1 };
                    self.small(k);
                    self.emit(Op::MemoryInit { mem: 0, data: d }, 3, &[]);
                }
            }
            45..=51 => {
                if self.locals.is_empty() {
                    return;
                }
                let i = self.r.below(self.locals.len());
                let t = self.locals[i];
                let i = i as u32;
                match self.r.below(3) {
                    0 => self.emit(Op::LocalGet(i), 0, &[t]),
                    1 => {
                        self.need(&[t]);
                        self.emit(Op::LocalSet(i), 1, &[]);
                    }
                    _ => {
                        self.need(&[t]);
                        self.emit(Op::LocalTee(i), 1, &[t]);
                    }
                }
            }
            52..=56 => {
                if self.m.globals.is_empty() {
                    return;
                }
                let i = self.r.below(self.m.globals.len());
                let (t, mutable, _) = self.m.globals[i];
                let i = i as u32;
                if mutable && Some(i) != self.plan.fuel && self.r.bool() {
                    self.need(&[t]);
                    self.emit(Op::GlobalSet(i), 1, &[]);
                } else {
                    self.emit(Op::GlobalGet(i), 0, &[t]);
                }
            }
            57..=59 => {
                let refs = self.plan.refs;
                let t = vt(self.r, refs);
                self.select(t, 0);
            }
            60..=63 => {
                if self.avail() > 0 || (self.dead && self.r.bool()) {
                    self.emit(Op::Drop, 1, &[]);
                } else {
                    let t = vt(self.r, self.plan.refs);
                    self.value(t, 1);
                    self.emit(Op::Drop, 1, &[]);
                }
            }
            64 => self.ops.push(Op::Nop),
            65..=69 => {
                let c = self.callable(None);
                if !c.is_empty() {
                    let f = *self.r.pick(&c);
                    self.call(f);
                }
            }
            70..=72 => self.call_indirect(),
            73..=77 if nested => {
                let n = self.r.range(0, 6) as i32;
                self.open_block(n);
            }
            78..=81 if nested => {
                let n = self.r.range(1, 6) as i32;
                self.open_loop(n);
            }
            82..=87 if nested => {
                let n = self.r.range(0, 5) as i32;
                self.if_stmt(n);
            }
            88 | 89 => self.br(),
            90..=93 => {
                let l = self.r.below(self.frames.len());
                self.br_if_to(l);
            }
            94 => self.br_table(),
            95 => self.ret(),
            96 if self.r.chance(1, if self.plan.wild { 3 } else { 12 }) => {
                self.ops.push(Op::Unreachable);
                self.cut();
            }
            97..=99 if self.plan.refs => self.table_stmt(),
            _ => {}
        }
    }
    fn table_stmt(&mut self) {
        if self.m.tables.is_empty() {
            return;
        }
        let t = self.r.below(self.m.tables.len());
        let (ty, lim) = self.m.tables[t].clone();
        let n = if lim.min == 0 || self.r.chance(1, 20) { lim.min as usize + 1 } else { lim.min as usize };
        let room = if self.r.chance(1, 10) { 3 } else { 1 };
        let t = t as u32;
        match self.r.below(8) {
            0 => self.table_value(ty),
            1 => {
                self.small(n);
                self.value(ty, 2);
                self.emit(Op::TableSet(t), 2, &[]);
            }
            2 => self.emit(Op::TableSize(t), 0, &[I32]),
            3 => {
                self.value(ty, 2);
                self.small(3);
                self.emit(Op::TableGrow(t), 2, &[I32]);
            }
            4 => {
                self.small(n);
                self.value(ty, 2);
                self.small(1 + room);
                self.emit(Op::TableFill(t), 3, &[]);
            }
            5 => {
                let o: Vec<u32> = (0..self.m.tables.len() as u32).filter(|i| self.m.tables[*i as usize].0 == ty).collect();
                let src = *self.r.pick(&o);
                let m = self.m.tables[src as usize].1.min as usize;
                self.small(n);
                self.small(m.max(1));
                self.small(1 + room);
                self.emit(Op::TableCopy { dst: t, src }, 3, &[]);
            }
            6 => {
                let o: Vec<u32> = (0..self.m.elems.len() as u32).filter(|i| self.m.elems[*i as usize].ty == ty).collect();
                if o.is_empty() {
                    return;
                }
                let elem = *self.r.pick(&o);
                self.small(n);
                self.small(2);
                self.small(1 + room);
                self.emit(Op::TableInit { table: t, elem }, 3, &[]);
            }
            _ => {
                if !self.m.elems.is_empty() {
                    let e = self.r.below(self.m.elems.len()) as u32;
                    self.emit(Op::ElemDrop(e), 0, &[]);
                    if self.m.elems[e as usize].ty == ty && self.r.chance(1, 2) {
                        self.small(1);
                        self.small(1);
                        let k = if self.r.chance(2, 3) { 2 } else { 1 };
                        self.emit(c32(k - 1), 0, &[I32]);
                        self.emit(Op::TableInit { table: t, elem: e }, 3, &[]);
                    }
                }
            }
        }
    }
    fn function(&mut self) {
        let ty = self.m.funcs[self.me as usize].ty.clone();
        self.frames.push(Fr { label: ty.results.clone(), results: ty.results.clone(), base: 0, is_loop: false, back_ok: true, dead: false });
        if let (true, Some(f)) = (self.plan.prologue, self.plan.fuel) {
            self.burn(f);
            self.emit(Op::GlobalGet(f), 0, &[I32]);
            self.emit(c32(0), 0, &[I32]);
            self.emit(bin("I32LeS"), 2, &[I32]);
            self.emit(Op::If { ty: FT::default(), els: None, end: 0 }, 1, &[]);
            for t in &ty.results {
                self.constant(*t);
            }
            self.ops.push(Op::Return);
            self.st.truncate(self.st.len() - ty.results.len());
            self.ops.push(Op::End);
        }
        let n = self.budget;
        self.seq(n);
        self.finish_frame();
        self.ops.push(Op::End);
        let _ = un("I32Eqz");
    }
}

const NAMES: [&str; 14] =
    ["main", "f", "run", "é✓", "", "a b", "memory", "table", "x\"y", "instrumented", "call", "_start", "g.h", "0"];
pub fn module(r: &mut Rng, o: &Opts) -> Generated {
    let refs = o.refs && r.chance(1, 2);
    let mut m = Module::default();
    // ---- imports
    if o.imports {
        for i in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) {
            // now and then what another import is, perhaps from elsewhere
            let twin = if r.chance(1, 4) { m.imports.last().map(|i: &Import| (m.funcs[i.index as usize].ty.clone(), i.name.clone())) } else { None };
            if let Some((ty, name)) = twin {
                let module = *r.pick(&["env", "host", "host", "wasi_snapshot_preview1"]);
                m.imports.push(Import { module: module.into(), name, kind: Kind::Func, index: m.funcs.len() as u32 });
                m.funcs.push(Func { ty, body: None });
                continue;
            }
            let ty = ft(r, refs);
            let name = if r.chance(1, 4) { format!("cb{i}") } else { format!("h{}", if r.chance(1, 5) { 0 } else { i }) };
            let module = *r.pick(&["env", "env", "env", "host", "", "wasi_snapshot_preview1"]);
            let name = if r.chance(1, 12) { String::new() } else { name };
            m.imports.push(Import { module: module.into(), name, kind: Kind::Func, index: m.funcs.len() as u32 });
            m.funcs.push(Func { ty, body: None });
        }
        if r.chance(1, 6) {
            let ty = if refs && r.chance(1, 3) { VT::ExternRef } else { VT::FuncRef };
            m.imports.push(Import { module: "env".into(), name: "t".into(), kind: Kind::Table, index: 0 });
            m.tables.push((ty, Limits { min: r.range(2, 6) as u64, max: None }));
        }
        if o.memory != Some(false) && r.chance(1, 6) {
            m.imports.push(Import { module: "env".into(), name: "m".into(), kind: Kind::Mem, index: 0 });
            m.mems.push(Limits { min: !r.chance(1, 8) as u64, max: if r.bool() { None } else { Some(3) } });
        }
        for i in 0..*r.pick(&[0, 0, 0, 1, 2]) {
            let t = vt(r, refs);
            m.imports.push(Import { module: "env".into(), name: format!("g{i}"), kind: Kind::Global, index: m.globals.len() as u32 });
            m.globals.push((t, r.bool(), vec![]));
        }
        r.shuffle(&mut m.imports);
        // indices follow the order of the import section
        let mut next = [0u32; 4];
        let old = m.clone();
        for i in m.imports.iter_mut() {
            let k = i.kind as usize;
            let n = next[k] as usize;
            next[k] += 1;
            match i.kind {
                Kind::Func => m.funcs[n] = old.funcs[i.index as usize].clone(),
                Kind::Table => m.tables[n] = old.tables[i.index as usize].clone(),
                Kind::Mem => m.mems[n] = old.mems[i.index as usize].clone(),
                Kind::Global => m.globals[n] = old.globals[i.index as usize].clone(),
            }
            i.index = n as u32;
        }
    }
    let imported = m.funcs.len();
    let nfuncs = r.range(1, o.max_funcs);
    for _ in 0..nfuncs {
        let ty = ft(r, refs);
        m.funcs.push(Func { ty, body: Some(Body { locals: vec![], ops: vec![] }) });
    }
    let total = m.funcs.len();
    // ---- tables
    for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
        let ty = if refs && r.chance(1, 4) { VT::ExternRef } else { VT::FuncRef };
        let min = r.range(0, 8) as u64;
        m.tables.push((ty, Limits { min, max: if r.chance(1, 3) { Some(min + r.below(6) as u64) } else { None } }));
    }
    let has_mem = o.memory.unwrap_or_else(|| r.chance(4, 5));
    if has_mem && m.mems.is_empty() {
        let min = if r.chance(1, 20) { 0 } else { *r.pick(&[1u64, 1, 1, 1, 2]) };
        m.mems.push(Limits { min, max: if r.chance(1, 3) { Some(min + r.below(4) as u64) } else { None } });
    }
    // ---- globals
    let imm: Vec<(u32, VT)> = m.globals.iter().enumerate().filter(|(_, g)| !g.1).map(|(i, g)| (i as u32, g.0)).collect();
    let mut refd = BTreeSet::new();
    for _ in 0..r.below(6) {
        let t = vt(r, refs);
        let init = match t {
            _ if imm.iter().any(|g| g.1 == t) && r.bool() => Op::GlobalGet(imm.iter().find(|g| g.1 == t).unwrap().0),
            VT::FuncRef if r.bool() => {
                let f = r.below(total) as u32;
                refd.insert(f);
                Op::RefFunc(f)
            }
            t if t.is_ref() => Op::RefNull(t),
            t => Op::Const(t, interesting(r, t)),
        };
        m.globals.push((t, r.chance(3, 4), vec![init, Op::End]));
    }
    let fuel = if r.chance(7, 8) {
        let n = *r.pick(&[3u64, 8, 20, 40, 60]);
        m.globals.push((VT::I32, true, vec![Op::Const(VT::I32, n), Op::End]));
        Some(m.globals.len() as u32 - 1)
    } else {
        None
    };
    // ---- segments
    let i32g = imm.iter().find(|g| g.1 == VT::I32).map(|g| g.0);
    if !m.tables.is_empty() {
        for _ in 0..r.range(0, 4) {
            let t = r.below(m.tables.len());
            let (ty, lim) = m.tables[t].clone();
            let exprs = refs && r.chance(1, 3);
            let n = r.range(0, 5);
            let init: Vec<Vec<Op>> = (0..n)
                .map(|_| {
                    if ty == VT::ExternRef || (exprs && r.chance(1, 3)) {
                        vec![Op::RefNull(ty), Op::End]
                    } else {
                        vec![Op::RefFunc(r.below(total) as u32), Op::End]
                    }
                })
                .collect();
            let mode = match r.below(8) {
                0 => ElemMode::Passive,
                1 if ty == VT::FuncRef => ElemMode::Declared,
                _ => {
                    let room = lim.min as i64 - n as i64;
                    let off = if room < 0 {
                        if r.chance(9, 10) {
                            continue;
                        }
                        0
                    } else {
                        r.below(room as usize + 1) as u64
                    };
                    match i32g {
                        Some(g) if room >= 2 && r.bool() => ElemMode::Active(t as u32, vec![Op::GlobalGet(g), Op::End]),
                        _ => ElemMode::Active(t as u32, vec![Op::Const(VT::I32, off), Op::End]),
                    }
                }
            };
            m.elems.push(Elem { ty, init, mode });
        }
    }
    if !m.mems.is_empty() {
        for _ in 0..r.below(4) {
            let n = r.below(20);
            let bytes: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
            let active = if r.chance(2, 3) {
                if m.mems[0].min == 0 && r.chance(9, 10) {
                    None
                } else {
                    Some((0, vec![Op::Const(VT::I32, if o.wild || r.chance(1, 60) { 65530 } else { *r.pick(&[0u64, 1, 16, 80, 65500]) }), Op::End]))
                }
            } else {
                None
            };
            m.datas.push(Data { bytes, active });
        }
    }
    // ---- bodies
    let plan = Plan { fuel, prologue: fuel.is_some() && r.chance(1, 3), wild: o.wild, refs, long_tables: o.long_branch_tables };
    let skeleton = m.clone();
    for i in imported..total {
        let nl = r.below(7);
        let mut locals: Vec<VT> = (0..nl).map(|_| vt(r, refs)).collect();
        if r.chance(1, 3) {
            locals.sort();
        }
        let mut all = skeleton.funcs[i].ty.params.clone();
        all.extend(&locals);
        let size = r.range(0, o.size);
        let mut b = B {
            r,
            m: &skeleton,
            plan: &plan,
            me: i as u32,
            ops: vec![],
            locals: all,
            st: vec![],
            frames: vec![],
            dead: false,
            budget: size as i32,
            refd: &mut refd,
            imported,
        };
        let _ = b.imported;
        b.function();
        let mut ops = b.ops;
        link_ops(&mut ops).expect("structure");
        m.funcs[i].body = Some(Body { locals, ops });
    }
    // ---- exports
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut names);
    let mut taken: BTreeSet<String> = BTreeSet::new();
    let mut export = |m: &mut Module, r: &mut Rng, kind: Kind, index: u32, hint: &str| {
        let mut n = if r.chance(1, 4) { names.pop().unwrap_or_default() } else { format!("{hint}{index}") };
        while !taken.insert(n.clone()) {
            n.push('_');
        }
        m.exports.push(Export { name: n, kind, index });
    };
    for f in 0..total as u32 {
        let own = f as usize >= imported;
        let k = if own { r.below(4).min(2) } else { r.chance(1, 4) as usize };
        let k = if own && f as usize == imported { k.max(1) } else { k };
        let k = if k > 0 && r.chance(1, 12) { k + 1 + r.below(3) } else { k };
        for _ in 0..k {
            export(&mut m, r, Kind::Func, f, "e");
        }
    }
    for i in 0..m.globals.len() as u32 {
        if r.chance(1, 3) {
            export(&mut m, r, Kind::Global, i, "g");
        }
    }
    for i in 0..m.tables.len() as u32 {
        if r.chance(1, 2) {
            export(&mut m, r, Kind::Table, i, "t");
        }
    }
    if !m.mems.is_empty() && r.bool() {
        export(&mut m, r, Kind::Mem, 0, "m");
    }
    r.shuffle(&mut m.exports);
    if r.chance(1, 4) {
        let c: Vec<u32> = (0..total as u32).filter(|i| m.funcs[*i as usize].ty == FT::default()).collect();
        if !c.is_empty() {
            m.start = Some(*r.pick(&c));
        }
    }
    // ---- references must be declared outside of bodies
    let seen: BTreeSet<u32> = m
        .elems
        .iter()
        .flat_map(|e| e.init.iter())
        .filter_map(|e| match e[0] {
            Op::RefFunc(f) => Some(f),
            _ => None,
        })
        .chain(m.exports.iter().filter(|e| e.kind == Kind::Func).map(|e| e.index))
        .collect();
    let missing: Vec<Vec<Op>> = refd.iter().filter(|f| !seen.contains(f)).map(|f| vec![Op::RefFunc(*f), Op::End]).collect();
    if !missing.is_empty() {
        m.elems.push(Elem { ty: VT::FuncRef, init: missing, mode: ElemMode::Declared });
    }
    let types = (0..r.below(4)).map(|_| ft(r, false)).collect();
    Generated { module: m, types }
}
