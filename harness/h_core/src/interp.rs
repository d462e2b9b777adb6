//! Reference interpreter with an event-generating mode (the documented meaning of every hook).
use crate::wasm::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Trap {
    Unreachable,
    OobMem,
    OobTable,
    NullCall,
    BadSig,
    DivZero,
    Overflow,
    BadConv,
    Depth,
    Fuel,
    Host(String),
}
pub type Res<T> = Result<T, Trap>;
pub const NULL: u64 = u64::MAX;
pub const PAGE: usize = 65536;

pub trait Host {
    /// a host function
    fn call(&mut self, s: &mut Store, id: usize, args: &[u64]) -> Res<Vec<u64>>;
    /// an event of a watched instance
    fn trap(&mut self, s: &mut Store, inst: usize, name: &'static str, args: &[u64]) -> Res<Vec<u64>>;
    /// a call of a watched function; `inner` is the unwatched one
    fn apply(&mut self, s: &mut Store, inst: usize, idx: u32, inner: usize, args: &[u64]) -> Res<Vec<u64>>;
}
pub struct NoHost;
impl Host for NoHost {
    fn call(&mut self, _: &mut Store, _: usize, _: &[u64]) -> Res<Vec<u64>> {
        Err(Trap::Host("no host".into()))
    }
    fn trap(&mut self, _: &mut Store, _: usize, _: &'static str, _: &[u64]) -> Res<Vec<u64>> {
        Err(Trap::Host("no host".into()))
    }
    fn apply(&mut self, _: &mut Store, _: usize, _: u32, _: usize, _: &[u64]) -> Res<Vec<u64>> {
        Err(Trap::Host("no host".into()))
    }
}

pub enum FuncKind {
    Wasm { inst: usize, idx: u32 },
    Host(usize),
    Proxy { inst: usize, idx: u32, inner: usize },
}
pub struct FuncInst {
    pub ty: FT,
    pub kind: FuncKind,
}
pub struct Mem {
    pub data: Vec<u8>,
    pub max: u64,
}
pub struct Table {
    pub ty: VT,
    pub elems: Vec<u64>,
    pub max: u64,
}
pub struct Global {
    pub ty: VT,
    pub v: u64,
}
#[derive(Clone, Default, Debug)]
pub struct Watch {
    pub events_in: HashSet<u32>,
    pub apply_on: HashSet<u32>,
    pub on: HashSet<&'static str>,
}
pub struct Inst {
    pub module: Rc<Module>,
    pub funcs: Vec<usize>,
    pub tables: Vec<usize>,
    pub mems: Vec<usize>,
    pub globals: Vec<usize>,
    pub dropped_elem: Vec<bool>,
    pub dropped_data: Vec<bool>,
    pub watch: Option<Rc<Watch>>,
}
#[derive(Clone, Copy, Debug)]
pub enum Addr {
    Func(usize),
    Table(usize),
    Mem(usize),
    Global(usize),
}
#[derive(Default)]
pub struct Store {
    pub funcs: Vec<FuncInst>,
    pub mems: Vec<Mem>,
    pub tables: Vec<Table>,
    pub globals: Vec<Global>,
    pub insts: Vec<Inst>,
    pub fuel: u64,
    pub depth: usize,
    pub max_depth: usize,
    pub steps: u64,
    /// (what, function, instance): writes of state, for the purity monitor
    pub effects: Option<Vec<(&'static str, usize, u32)>>,
    pub frames: Vec<(usize, u32)>,
    pub max_pages: u64,
    /// memories that limit does not hold for
    pub roomy: Vec<usize>,
}

fn f32b(x: f32) -> u64 {
    if x.is_nan() {
        0x7fc0_0000
    } else {
        x.to_bits() as u64
    }
}
fn f64b(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}
fn trunc<T>(x: f64, lo: f64, hi: f64, conv: impl Fn(f64) -> T) -> Res<T> {
    // lo exclusive, hi exclusive
    if x.is_nan() {
        return Err(Trap::BadConv);
    }
    let t = x.trunc();
    if t <= lo || t >= hi {
        return Err(Trap::Overflow);
    }
    Ok(conv(t))
}
const TWO31: f64 = 2147483648.0;
const TWO32: f64 = 4294967296.0;
const TWO63: f64 = 9223372036854775808.0;
const TWO64: f64 = 18446744073709551616.0;

pub fn unary(n: u8, v: u64) -> Res<u64> {
    let i = v as u32;
    let f = f32::from_bits(i);
    let d = f64::from_bits(v);
    let fd = f as f64;
    Ok(match UNARY[n as usize - 1] {
        "I32Eqz" => (i == 0) as u64,
        "I64Eqz" => (v == 0) as u64,
        "I32Clz" => i.leading_zeros() as u64,
        "I32Ctz" => i.trailing_zeros() as u64,
        "I32Popcnt" => i.count_ones() as u64,
        "I64Clz" => v.leading_zeros() as u64,
        "I64Ctz" => v.trailing_zeros() as u64,
        "I64Popcnt" => v.count_ones() as u64,
        "F32Abs" => (i & 0x7fff_ffff) as u64,
        "F32Neg" => (i ^ 0x8000_0000) as u64,
        "F32Ceil" => f32b(f.ceil()),
        "F32Floor" => f32b(f.floor()),
        "F32Trunc" => f32b(f.trunc()),
        "F32Nearest" => f32b(f.round_ties_even()),
        "F32Sqrt" => f32b(f.sqrt()),
        "F64Abs" => v & !(1 << 63),
        "F64Neg" => v ^ (1 << 63),
        "F64Ceil" => f64b(d.ceil()),
        "F64Floor" => f64b(d.floor()),
        "F64Trunc" => f64b(d.trunc()),
        "F64Nearest" => f64b(d.round_ties_even()),
        "F64Sqrt" => f64b(d.sqrt()),
        "I32WrapI64" => i as u64,
        "I32TruncF32S" => trunc(fd, -TWO31 - 1.0, TWO31, |x| x as i32 as u32 as u64)?,
        "I32TruncF32U" => trunc(fd, -1.0, TWO32, |x| x as u32 as u64)?,
        "I32TruncF64S" => trunc(d, -TWO31 - 1.0, TWO31, |x| x as i32 as u32 as u64)?,
        "I32TruncF64U" => trunc(d, -1.0, TWO32, |x| x as u32 as u64)?,
        "I32TruncSatF32S" => f as i32 as u32 as u64,
        "I32TruncSatF32U" => f as u32 as u64,
        "I32TruncSatF64S" => d as i32 as u32 as u64,
        "I32TruncSatF64U" => d as u32 as u64,
        "I64ExtendI32S" => i as i32 as i64 as u64,
        "I64ExtendI32U" => i as u64,
        "I64TruncF32S" => trunc64s(fd)?,
        "I64TruncF32U" => trunc(fd, -1.0, TWO64, |x| x as u64)?,
        "I64TruncF64S" => trunc64s(d)?,
        "I64TruncF64U" => trunc(d, -1.0, TWO64, |x| x as u64)?,
        "I64TruncSatF32S" => f as i64 as u64,
        "I64TruncSatF32U" => f as u64,
        "I64TruncSatF64S" => d as i64 as u64,
        "I64TruncSatF64U" => d as u64,
        "F32ConvertI32S" => f32b(i as i32 as f32),
        "F32ConvertI32U" => f32b(i as f32),
        "F32ConvertI64S" => f32b(v as i64 as f32),
        "F32ConvertI64U" => f32b(v as f32),
        "F32DemoteF64" => f32b(d as f32),
        "F64ConvertI32S" => f64b(i as i32 as f64),
        "F64ConvertI32U" => f64b(i as f64),
        "F64ConvertI64S" => f64b(v as i64 as f64),
        "F64ConvertI64U" => f64b(v as f64),
        "F64PromoteF32" => f64b(f as f64),
        "I32ReinterpretF32" | "F32ReinterpretI32" => i as u64,
        "I64ReinterpretF64" | "F64ReinterpretI64" => v,
        "I32Extend8S" => i as i8 as i32 as u32 as u64,
        "I32Extend16S" => i as i16 as i32 as u32 as u64,
        "I64Extend8S" => v as i8 as i64 as u64,
        "I64Extend16S" => v as i16 as i64 as u64,
        "I64Extend32S" => v as i32 as i64 as u64,
        x => unreachable!("{x}"),
    })
}
fn trunc64s(x: f64) -> Res<u64> {
    if x.is_nan() {
        return Err(Trap::BadConv);
    }
    let t = x.trunc();
    if t < -TWO63 || t >= TWO63 {
        return Err(Trap::Overflow);
    }
    Ok(t as i64 as u64)
}
fn fmin(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == b {
        if a.is_sign_negative() {
            a
        } else {
            b
        }
    } else if a < b {
        a
    } else {
        b
    }
}
fn fmax(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == b {
        if a.is_sign_negative() {
            b
        } else {
            a
        }
    } else if a > b {
        a
    } else {
        b
    }
}
pub fn binary(n: u8, a: u64, b: u64) -> Res<u64> {
    let name = BINARY[n as usize - 1];
    let rest = &name[3..];
    Ok(match &name[..3] {
        "I32" => {
            let (x, y) = (a as u32, b as u32);
            let (sx, sy) = (x as i32, y as i32);
            (match rest {
                "Eq" => (x == y) as u32,
                "Ne" => (x != y) as u32,
                "LtS" => (sx < sy) as u32,
                "LtU" => (x < y) as u32,
                "GtS" => (sx > sy) as u32,
                "GtU" => (x > y) as u32,
                "LeS" => (sx <= sy) as u32,
                "LeU" => (x <= y) as u32,
                "GeS" => (sx >= sy) as u32,
                "GeU" => (x >= y) as u32,
                "Add" => x.wrapping_add(y),
                "Sub" => x.wrapping_sub(y),
                "Mul" => x.wrapping_mul(y),
                "DivS" => {
                    if y == 0 {
                        return Err(Trap::DivZero);
                    }
                    sx.checked_div(sy).ok_or(Trap::Overflow)? as u32
                }
                "DivU" => x.checked_div(y).ok_or(Trap::DivZero)?,
                "RemS" => {
                    if y == 0 {
                        return Err(Trap::DivZero);
                    }
                    sx.wrapping_rem(sy) as u32
                }
                "RemU" => x.checked_rem(y).ok_or(Trap::DivZero)?,
                "And" => x & y,
                "Or" => x | y,
                "Xor" => x ^ y,
                "Shl" => x.wrapping_shl(y),
                "ShrS" => sx.wrapping_shr(y) as u32,
                "ShrU" => x.wrapping_shr(y),
                "Rotl" => x.rotate_left(y & 31),
                "Rotr" => x.rotate_right(y & 31),
                x => unreachable!("{x}"),
            }) as u64
        }
        "I64" => {
            let (x, y) = (a, b);
            let (sx, sy) = (x as i64, y as i64);
            match rest {
                "Eq" => (x == y) as u64,
                "Ne" => (x != y) as u64,
                "LtS" => (sx < sy) as u64,
                "LtU" => (x < y) as u64,
                "GtS" => (sx > sy) as u64,
                "GtU" => (x > y) as u64,
                "LeS" => (sx <= sy) as u64,
                "LeU" => (x <= y) as u64,
                "GeS" => (sx >= sy) as u64,
                "GeU" => (x >= y) as u64,
                "Add" => x.wrapping_add(y),
                "Sub" => x.wrapping_sub(y),
                "Mul" => x.wrapping_mul(y),
                "DivS" => {
                    if y == 0 {
                        return Err(Trap::DivZero);
                    }
                    sx.checked_div(sy).ok_or(Trap::Overflow)? as u64
                }
                "DivU" => x.checked_div(y).ok_or(Trap::DivZero)?,
                "RemS" => {
                    if y == 0 {
                        return Err(Trap::DivZero);
                    }
                    sx.wrapping_rem(sy) as u64
                }
                "RemU" => x.checked_rem(y).ok_or(Trap::DivZero)?,
                "And" => x & y,
                "Or" => x | y,
                "Xor" => x ^ y,
                "Shl" => x.wrapping_shl(y as u32),
                "ShrS" => sx.wrapping_shr(y as u32) as u64,
                "ShrU" => x.wrapping_shr(y as u32),
                "Rotl" => x.rotate_left((y & 63) as u32),
                "Rotr" => x.rotate_right((y & 63) as u32),
                x => unreachable!("{x}"),
            }
        }
        "F32" => {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            match rest {
                "Eq" => (x == y) as u64,
                "Ne" => (x != y) as u64,
                "Lt" => (x < y) as u64,
                "Gt" => (x > y) as u64,
                "Le" => (x <= y) as u64,
                "Ge" => (x >= y) as u64,
                "Add" => f32b(x + y),
                "Sub" => f32b(x - y),
                "Mul" => f32b(x * y),
                "Div" => f32b(x / y),
                "Min" => f32b(fmin(x as f64, y as f64) as f32),
                "Max" => f32b(fmax(x as f64, y as f64) as f32),
                "Copysign" => ((a as u32 & 0x7fff_ffff) | (b as u32 & 0x8000_0000)) as u64,
                x => unreachable!("{x}"),
            }
        }
        _ => {
            let (x, y) = (f64::from_bits(a), f64::from_bits(b));
            match rest {
                "Eq" => (x == y) as u64,
                "Ne" => (x != y) as u64,
                "Lt" => (x < y) as u64,
                "Gt" => (x > y) as u64,
                "Le" => (x <= y) as u64,
                "Ge" => (x >= y) as u64,
                "Add" => f64b(x + y),
                "Sub" => f64b(x - y),
                "Mul" => f64b(x * y),
                "Div" => f64b(x / y),
                "Min" => f64b(fmin(x, y)),
                "Max" => f64b(fmax(x, y)),
                "Copysign" => (a & !(1 << 63)) | (b & (1 << 63)),
                x => unreachable!("{x}"),
            }
        }
    })
}

impl Mem {
    pub fn range(&self, addr: u64, n: u64) -> Res<std::ops::Range<usize>> {
        let end = addr.checked_add(n).ok_or(Trap::OobMem)?;
        if end > self.data.len() as u64 {
            return Err(Trap::OobMem);
        }
        Ok(addr as usize..end as usize)
    }
    pub fn load(&self, n: u8, ptr: u32, offset: u64) -> Res<u64> {
        let name = LOADS[n as usize - 1];
        let w = width(name);
        let r = self.range(ptr as u64 + offset, w)?;
        let mut b = [0u8; 8];
        b[..w as usize].copy_from_slice(&self.data[r]);
        let v = u64::from_le_bytes(b);
        let signed = match (name.ends_with('S'), w) {
            (false, _) => v,
            (true, 1) => v as i8 as i64 as u64,
            (true, 2) => v as i16 as i64 as u64,
            (true, _) => v as i32 as i64 as u64,
        };
        Ok(if name.starts_with("I32") { signed as u32 as u64 } else { signed })
    }
    pub fn store(&mut self, n: u8, ptr: u32, offset: u64, v: u64) -> Res<()> {
        let w = width(STORES[n as usize - 1]);
        let r = self.range(ptr as u64 + offset, w)?;
        self.data[r].copy_from_slice(&v.to_le_bytes()[..w as usize]);
        Ok(())
    }
}

struct Label {
    /// where a branch to it continues
    target: usize,
    arity: usize,
    height: usize,
    start: usize,
}

/// The state outside the function that an instruction reads or writes.
pub fn touches(op: &Op) -> Option<&'static str> {
    Some(match op {
        Op::GlobalGet(_) => "reads a global",
        Op::GlobalSet(_) => "writes a global",
        Op::TableGet(_) | Op::TableSize(_) => "reads a table",
        Op::CallIndirect { .. } => "calls through a table",
        Op::TableSet(_) | Op::TableGrow(_) | Op::TableFill(_) | Op::TableCopy { .. } | Op::TableInit { .. } => "writes a table",
        Op::ElemDrop(_) | Op::DataDrop(_) => "drops a segment",
        Op::Load(..) | Op::MemorySize(_) => "reads memory",
        Op::Store(..) | Op::MemoryGrow(_) | Op::MemoryFill(_) | Op::MemoryCopy { .. } | Op::MemoryInit { .. } => "writes memory",
        _ => return None,
    })
}
impl Store {
    pub fn new(fuel: u64, max_depth: usize) -> Store {
        Store { fuel, max_depth, max_pages: 40, ..Default::default() }
    }
    pub fn host_func(&mut self, ty: FT, id: usize) -> usize {
        self.funcs.push(FuncInst { ty, kind: FuncKind::Host(id) });
        self.funcs.len() - 1
    }
    pub fn export(&self, inst: usize, name: &str) -> Option<Addr> {
        let i = &self.insts[inst];
        let x = i.module.export(name)?;
        let n = x.index as usize;
        Some(match x.kind {
            Kind::Func => Addr::Func(i.funcs[n]),
            Kind::Table => Addr::Table(i.tables[n]),
            Kind::Mem => Addr::Mem(i.mems[n]),
            Kind::Global => Addr::Global(i.globals[n]),
        })
    }
    pub fn export_func(&self, inst: usize, name: &str) -> Option<usize> {
        match self.export(inst, name) {
            Some(Addr::Func(f)) => Some(f),
            _ => None,
        }
    }
    /// Creates the objects of an instance without running its segments and start function.
    pub fn allocate(
        &mut self,
        module: Rc<Module>,
        mut resolve: impl FnMut(&mut Store, &Import, &Ext) -> Result<Addr, String>,
        watch: Option<Watch>,
    ) -> Result<usize, String> {
        let id = self.insts.len();
        let (mut funcs, mut tables, mut mems, mut globals) = (vec![], vec![], vec![], vec![]);
        for im in &module.imports {
            let want = module.ext(im.kind, im.index);
            match (resolve(self, im, &want)?, &want) {
                (Addr::Func(a), Ext::Func(t)) => {
                    if self.funcs[a].ty != *t {
                        return Err(format!("import {}.{}: type {:?}, provided {:?}", im.module, im.name, t, self.funcs[a].ty));
                    }
                    funcs.push(a)
                }
                (Addr::Table(a), Ext::Table(..)) => tables.push(a),
                (Addr::Mem(a), Ext::Mem(..)) => mems.push(a),
                (Addr::Global(a), Ext::Global(..)) => globals.push(a),
                _ => return Err(format!("import {}.{}: kind", im.module, im.name)),
            }
        }
        for (i, f) in module.funcs.iter().enumerate() {
            if f.body.is_some() {
                self.funcs.push(FuncInst { ty: f.ty.clone(), kind: FuncKind::Wasm { inst: id, idx: i as u32 } });
                funcs.push(self.funcs.len() - 1);
            }
        }
        if let Some(w) = &watch {
            for (i, a) in funcs.iter_mut().enumerate() {
                if w.apply_on.contains(&(i as u32)) {
                    let ty = self.funcs[*a].ty.clone();
                    self.funcs.push(FuncInst { ty, kind: FuncKind::Proxy { inst: id, idx: i as u32, inner: *a } });
                    *a = self.funcs.len() - 1;
                }
            }
        }
        for (ty, l) in module.tables.iter().skip(tables.len()) {
            self.tables.push(Table { ty: *ty, elems: vec![NULL; l.min as usize], max: l.max.unwrap_or(1 << 20).min(1 << 20) });
            tables.push(self.tables.len() - 1);
        }
        for l in module.mems.iter().skip(mems.len()) {
            self.mems.push(Mem { data: vec![0; l.min as usize * PAGE], max: l.max.unwrap_or(65536) });
            mems.push(self.mems.len() - 1);
        }
        let n = globals.len();
        self.insts.push(Inst {
            dropped_elem: vec![false; module.elems.len()],
            dropped_data: vec![false; module.datas.len()],
            module: module.clone(),
            funcs,
            tables,
            mems,
            globals,
            watch: watch.map(Rc::new),
        });
        for (ty, _, init) in module.globals.iter().skip(n) {
            let v = self.constant(id, init)?;
            self.globals.push(Global { ty: *ty, v });
            let g = self.globals.len() - 1;
            self.insts[id].globals.push(g);
        }
        Ok(id)
    }
    fn constant(&self, inst: usize, e: &[Op]) -> Result<u64, String> {
        let mut st = vec![];
        for o in e {
            match o {
                Op::Const(_, v) => st.push(*v),
                Op::GlobalGet(g) => st.push(self.globals[self.insts[inst].globals[*g as usize]].v),
                Op::RefNull(_) => st.push(NULL),
                Op::RefFunc(f) => st.push(self.insts[inst].funcs[*f as usize] as u64),
                Op::End => {}
                o => return Err(format!("constant expression {o:?}")),
            }
        }
        st.pop().ok_or_else(|| "empty constant".into())
    }
    /// Active segments, then the start function.
    pub fn start(&mut self, host: &mut dyn Host, inst: usize) -> Res<()> {
        let m = self.insts[inst].module.clone();
        for (i, s) in m.elems.iter().enumerate() {
            match &s.mode {
                ElemMode::Active(t, off) => {
                    let off = self.constant(inst, off).map_err(Trap::Host)? as u32;
                    self.table_init(inst, *t, i, off, 0, s.init.len() as u32)?;
                    self.insts[inst].dropped_elem[i] = true;
                }
                ElemMode::Declared => self.insts[inst].dropped_elem[i] = true,
                ElemMode::Passive => {}
            }
        }
        for (i, d) in m.datas.iter().enumerate() {
            if let Some((mem, off)) = &d.active {
                let off = self.constant(inst, off).map_err(Trap::Host)? as u32;
                self.memory_init(inst, *mem, i, off, 0, d.bytes.len() as u32)?;
                self.insts[inst].dropped_data[i] = true;
            }
        }
        if let Some(s) = m.start {
            let f = self.insts[inst].funcs[s as usize];
            self.invoke(host, f, &[])?;
        }
        Ok(())
    }
    fn table_init(&mut self, inst: usize, t: u32, e: usize, d: u32, s: u32, n: u32) -> Res<()> {
        let m = self.insts[inst].module.clone();
        let len = if self.insts[inst].dropped_elem[e] { 0 } else { m.elems[e].init.len() };
        let ta = self.insts[inst].tables[t as usize];
        if s as u64 + n as u64 > len as u64 || d as u64 + n as u64 > self.tables[ta].elems.len() as u64 {
            return Err(Trap::OobTable);
        }
        for k in 0..n as usize {
            let v = self.constant(inst, &m.elems[e].init[s as usize + k]).map_err(Trap::Host)?;
            self.tables[ta].elems[d as usize + k] = v;
        }
        Ok(())
    }
    fn memory_init(&mut self, inst: usize, mem: u32, i: usize, d: u32, s: u32, n: u32) -> Res<()> {
        let m = self.insts[inst].module.clone();
        let bytes: &[u8] = if self.insts[inst].dropped_data[i] { &[] } else { &m.datas[i].bytes };
        let a = self.insts[inst].mems[mem as usize];
        if s as u64 + n as u64 > bytes.len() as u64 {
            return Err(Trap::OobMem);
        }
        let r = self.mems[a].range(d as u64, n as u64)?;
        self.mems[a].data[r].copy_from_slice(&bytes[s as usize..(s + n) as usize]);
        Ok(())
    }
    pub fn grow(&mut self, mem: usize, pages: u32) -> u64 {
        let cur = (self.mems[mem].data.len() / PAGE) as u64;
        let new = cur + pages as u64;
        if new > self.mems[mem].max || (new > self.max_pages && !self.roomy.contains(&mem)) {
            return u32::MAX as u64;
        }
        self.mems[mem].data.resize(new as usize * PAGE, 0);
        cur
    }
    fn effect(&mut self, what: &'static str) {
        if let Some(e) = &mut self.effects {
            for (inst, idx) in &self.frames {
                e.push((what, *inst, *idx));
            }
        }
    }

    pub fn invoke(&mut self, host: &mut dyn Host, f: usize, args: &[u64]) -> Res<Vec<u64>> {
        match self.funcs[f].kind {
            FuncKind::Host(id) => {
                self.effect("calls out");
                host.call(self, id, args)
            }
            FuncKind::Proxy { inst, idx, inner } => {
                if self.depth >= self.max_depth {
                    return Err(Trap::Depth);
                }
                self.depth += 1;
                let r = host.apply(self, inst, idx, inner, args);
                self.depth -= 1;
                r
            }
            FuncKind::Wasm { inst, idx } => {
                if self.depth >= self.max_depth {
                    return Err(Trap::Depth);
                }
                self.depth += 1;
                if self.effects.is_some() {
                    self.frames.push((inst, idx));
                }
                let r = self.run(host, inst, idx, args);
                if self.effects.is_some() {
                    self.frames.pop();
                }
                self.depth -= 1;
                r
            }
        }
    }

    fn run(&mut self, host: &mut dyn Host, inst: usize, idx: u32, args: &[u64]) -> Res<Vec<u64>> {
        let module = self.insts[inst].module.clone();
        let func = &module.funcs[idx as usize];
        let body = func.body.as_ref().expect("defined");
        let ops = &body.ops;
        let watch = self.insts[inst].watch.clone().filter(|w| w.events_in.contains(&idx));
        let nres = func.ty.results.len();
        let mut locals: Vec<u64> = args.to_vec();
        let mut ltypes: Vec<VT> = func.ty.params.clone();
        for l in &body.locals {
            locals.push(if l.is_ref() { NULL } else { 0 });
            ltypes.push(*l);
        }
        let mut st: Vec<u64> = Vec::with_capacity(32);
        let mut labels: Vec<Label> = vec![];
        let mut pc = 0usize;

        macro_rules! pop {
            () => {
                st.pop().expect("validated")
            };
        }
        // an event, if requested here: args, then the location
        macro_rules! event {
            ($name:expr, $at:expr, $($arg:expr),*) => {{
                match &watch {
                    Some(w) if w.on.contains($name) => {
                        let a = [$($arg as u64,)* idx as u64, $at as u64];
                        Some(host.trap(self, inst, $name, &a)?)
                    }
                    _ => None,
                }
            }};
        }
        macro_rules! values_of { ($base:literal, $t:expr) => { match $t {
            VT::I32 => Some(concat!($base, "_i32")), VT::I64 => Some(concat!($base, "_i64")),
            VT::F32 => Some(concat!($base, "_f32")), VT::F64 => Some(concat!($base, "_f64")), _ => None } } }
        macro_rules! enter_loop {
            ($at:expr) => {{
                if let Op::Loop { ty, .. } = &ops[$at] {
                    event!("trap_loop_pre", $at, ty.params.len(), ty.results.len());
                }
            }};
        }
        macro_rules! finish {
            () => {{
                let k = st.len() - nres;
                return Ok(st.split_off(k));
            }};
        }
        macro_rules! branch {
            ($l:expr) => {{
                let l = $l as usize;
                if l >= labels.len() {
                    finish!();
                }
                let at = labels.len() - 1 - l;
                let lab = &labels[at];
                let (target, start) = (lab.target, lab.start);
                let keep = st.split_off(st.len() - lab.arity);
                st.truncate(lab.height);
                st.extend(keep);
                if let Op::Loop { .. } = &ops[start] {
                    labels.truncate(at + 1);
                    enter_loop!(start);
                } else {
                    labels.truncate(at);
                }
                pc = target;
                continue;
            }};
        }
        loop {
            if self.fuel == 0 {
                return Err(Trap::Fuel);
            }
            self.fuel -= 1;
            self.steps += 1;
            let here = pc;
            pc += 1;
            if self.effects.is_some() {
                if let Some(what) = touches(&ops[here]) {
                    self.effect(what);
                }
            }
            match &ops[here] {
                Op::Unreachable => return Err(Trap::Unreachable),
                Op::Nop => {}
                Op::Block { ty, end } => {
                    labels.push(Label { target: end + 1, arity: ty.results.len(), height: st.len() - ty.params.len(), start: here });
                    event!("trap_block_pre", here, ty.params.len(), ty.results.len());
                }
                Op::Loop { ty, .. } => {
                    labels.push(Label { target: here + 1, arity: ty.params.len(), height: st.len() - ty.params.len(), start: here });
                    enter_loop!(here);
                }
                Op::If { ty, els, end } => {
                    let mut c = pop!();
                    let name = if els.is_some() { "specialized_if_then_else_k" } else { "specialized_if_then_k" };
                    if let Some(r) = event!(name, here, c, ty.params.len(), ty.results.len()) {
                        c = r[0];
                    }
                    labels.push(Label { target: end + 1, arity: ty.results.len(), height: st.len() - ty.params.len(), start: here });
                    if c as u32 == 0 {
                        pc = match els {
                            Some(x) => x + 1,
                            None => *end,
                        };
                    }
                }
                Op::Else { end } => {
                    // the then-branch was left at its end
                    pc = *end;
                }
                Op::End => {
                    let Some(l) = labels.pop() else { finish!() };
                    match &ops[l.start] {
                        Op::Block { .. } => event!("trap_block_post", l.start,),
                        Op::Loop { .. } => event!("trap_loop_post", l.start,),
                        Op::If { els: None, .. } => event!("trap_if_then_post", l.start,),
                        Op::If { .. } => event!("trap_if_then_else_post", l.start,),
                        _ => None,
                    };
                }
                Op::Br(l) => {
                    event!("specialized_br", here, *l);
                    branch!(*l);
                }
                Op::BrIf(l) => {
                    let mut c = pop!();
                    if let Some(r) = event!("specialized_br_if", here, c, *l) {
                        c = r[0];
                    }
                    if c as u32 != 0 {
                        branch!(*l);
                    }
                }
                Op::BrTable(ls, d) => {
                    let mut i = pop!() as u32;
                    let eff = *ls.get(i as usize).unwrap_or(d);
                    if let Some(r) = event!("specialized_br_table", here, i, eff, *d) {
                        i = r[0] as u32;
                    }
                    let l = *ls.get(i as usize).unwrap_or(d);
                    branch!(l);
                }
                Op::Return => {
                    event!("return_trap", here,);
                    finish!();
                }
                Op::Call(f) => {
                    event!("specialized_call_pre", here, *f);
                    let a = self.insts[inst].funcs[*f as usize];
                    let n = self.funcs[a].ty.params.len();
                    let args = st.split_off(st.len() - n);
                    let r = self.invoke(host, a, &args)?;
                    st.extend(r);
                    event!("specialized_call_post", here, *f);
                }
                Op::CallIndirect { ty, table } => {
                    let mut i = pop!();
                    if let Some(r) = event!("specialized_call_indirect_pre", here, i, *table) {
                        i = r[0];
                    }
                    let t = self.insts[inst].tables[*table as usize];
                    let f = *self.tables[t].elems.get(i as u32 as usize).ok_or(Trap::OobTable)?;
                    if f == NULL {
                        return Err(Trap::NullCall);
                    }
                    let f = f as usize;
                    if self.funcs[f].ty != *ty {
                        return Err(Trap::BadSig);
                    }
                    let args = st.split_off(st.len() - ty.params.len());
                    let r = self.invoke(host, f, &args)?;
                    st.extend(r);
                    event!("specialized_call_indirect_post", here, *table);
                }
                Op::RefNull(_) => st.push(NULL),
                Op::RefIsNull => {
                    let v = pop!();
                    st.push((v == NULL) as u64);
                }
                Op::RefFunc(f) => st.push(self.insts[inst].funcs[*f as usize] as u64),
                Op::Drop => {
                    event!("drop_trap", here,);
                    pop!();
                }
                Op::Select(_) => {
                    let mut c = pop!();
                    if let Some(r) = event!("specialized_select", here, c) {
                        c = r[0];
                    }
                    let b = pop!();
                    let a = pop!();
                    st.push(if c as u32 != 0 { a } else { b });
                }
                Op::LocalGet(l) => {
                    let mut v = locals[*l as usize];
                    if let Some(n) = values_of!("trap_local_get", ltypes[*l as usize]) {
                        if let Some(r) = event!(n, here, v, *l) {
                            v = r[0];
                        }
                    }
                    st.push(v);
                }
                Op::LocalSet(l) => {
                    let mut v = pop!();
                    if let Some(n) = values_of!("trap_local_set", ltypes[*l as usize]) {
                        if let Some(r) = event!(n, here, v, *l) {
                            v = r[0];
                        }
                    }
                    locals[*l as usize] = v;
                }
                Op::LocalTee(l) => {
                    let mut v = pop!();
                    if let Some(n) = values_of!("trap_local_tee", ltypes[*l as usize]) {
                        if let Some(r) = event!(n, here, v, *l) {
                            v = r[0];
                        }
                    }
                    locals[*l as usize] = v;
                    st.push(v);
                }
                Op::GlobalGet(g) => {
                    let a = self.insts[inst].globals[*g as usize];
                    let mut v = self.globals[a].v;
                    if let Some(n) = values_of!("trap_global_get", self.globals[a].ty) {
                        if let Some(r) = event!(n, here, v, *g) {
                            v = r[0];
                        }
                    }
                    st.push(v);
                }
                Op::GlobalSet(g) => {
                    let a = self.insts[inst].globals[*g as usize];
                    let mut v = pop!();
                    if let Some(n) = values_of!("trap_global_set", self.globals[a].ty) {
                        if let Some(r) = event!(n, here, v, *g) {
                            v = r[0];
                        }
                    }
                    self.globals[a].v = v;
                }
                Op::TableGet(t) => {
                    let i = pop!() as u32;
                    let t = self.insts[inst].tables[*t as usize];
                    st.push(*self.tables[t].elems.get(i as usize).ok_or(Trap::OobTable)?);
                }
                Op::TableSet(t) => {
                    let v = pop!();
                    let i = pop!() as u32;
                    let t = self.insts[inst].tables[*t as usize];
                    *self.tables[t].elems.get_mut(i as usize).ok_or(Trap::OobTable)? = v;
                }
                Op::TableSize(t) => {
                    let t = self.insts[inst].tables[*t as usize];
                    st.push(self.tables[t].elems.len() as u64);
                }
                Op::TableGrow(t) => {
                    let n = pop!() as u32;
                    let v = pop!();
                    let t = self.insts[inst].tables[*t as usize];
                    let old = self.tables[t].elems.len();
                    if old as u64 + n as u64 > self.tables[t].max.min(5000) {
                        st.push(u32::MAX as u64);
                    } else {
                        self.tables[t].elems.resize(old + n as usize, v);
                        st.push(old as u64);
                    }
                }
                Op::TableFill(t) => {
                    let n = pop!() as u32;
                    let v = pop!();
                    let i = pop!() as u32;
                    let t = self.insts[inst].tables[*t as usize];
                    if i as u64 + n as u64 > self.tables[t].elems.len() as u64 {
                        return Err(Trap::OobTable);
                    }
                    self.tables[t].elems[i as usize..(i + n) as usize].fill(v);
                }
                Op::TableCopy { dst, src } => {
                    let n = pop!() as u32;
                    let s = pop!() as u32;
                    let d = pop!() as u32;
                    let (dt, stt) = (self.insts[inst].tables[*dst as usize], self.insts[inst].tables[*src as usize]);
                    if s as u64 + n as u64 > self.tables[stt].elems.len() as u64 || d as u64 + n as u64 > self.tables[dt].elems.len() as u64 {
                        return Err(Trap::OobTable);
                    }
                    let v: Vec<u64> = self.tables[stt].elems[s as usize..(s + n) as usize].to_vec();
                    self.tables[dt].elems[d as usize..(d + n) as usize].copy_from_slice(&v);
                }
                Op::TableInit { table, elem } => {
                    let n = pop!() as u32;
                    let s = pop!() as u32;
                    let d = pop!() as u32;
                    self.table_init(inst, *table, *elem as usize, d, s, n)?;
                }
                Op::ElemDrop(e) => self.insts[inst].dropped_elem[*e as usize] = true,
                Op::Load(n, off, mem) => {
                    let p = pop!();
                    let name = values_of!("trap", load_type(*n)).map(|_| match load_type(*n) {
                        VT::I32 => "trap_i32_load",
                        VT::I64 => "trap_i64_load",
                        VT::F32 => "trap_f32_load",
                        _ => "trap_f64_load",
                    });
                    if let Some(r) = event!(name.unwrap(), here, p, *off, *n) {
                        st.push(r[0]);
                    } else {
                        let a = self.insts[inst].mems[*mem as usize];
                        st.push(self.mems[a].load(*n, p as u32, *off)?);
                    }
                }
                Op::Store(n, off, mem) => {
                    let v = pop!();
                    let p = pop!();
                    let name = match store_type(*n) {
                        VT::I32 => "trap_i32_store",
                        VT::I64 => "trap_i64_store",
                        VT::F32 => "trap_f32_store",
                        _ => "trap_f64_store",
                    };
                    if event!(name, here, p, v, *off, *n).is_none() {
                        let a = self.insts[inst].mems[*mem as usize];
                        self.mems[a].store(*n, p as u32, *off, v)?;
                    }
                }
                Op::MemorySize(m) => {
                    let a = self.insts[inst].mems[*m as usize];
                    let mut v = (self.mems[a].data.len() / PAGE) as u64;
                    if let Some(r) = event!("trap_memory_size", here, v, *m) {
                        v = r[0];
                    }
                    st.push(v);
                }
                Op::MemoryGrow(m) => {
                    let n = pop!();
                    if let Some(r) = event!("trap_memory_grow", here, n, *m) {
                        st.push(r[0]);
                    } else {
                        let a = self.insts[inst].mems[*m as usize];
                        let r = self.grow(a, n as u32);
                        st.push(r);
                    }
                }
                Op::MemoryFill(m) => {
                    let n = pop!() as u32;
                    let v = pop!();
                    let d = pop!() as u32;
                    let a = self.insts[inst].mems[*m as usize];
                    let r = self.mems[a].range(d as u64, n as u64)?;
                    self.mems[a].data[r].fill(v as u8);
                }
                Op::MemoryCopy { dst, src } => {
                    let n = pop!() as u32;
                    let s = pop!() as u32;
                    let d = pop!() as u32;
                    let (da, sa) = (self.insts[inst].mems[*dst as usize], self.insts[inst].mems[*src as usize]);
                    let sr = self.mems[sa].range(s as u64, n as u64)?;
                    let dr = self.mems[da].range(d as u64, n as u64)?;
                    if da == sa {
                        self.mems[da].data.copy_within(sr, dr.start);
                    } else {
                        let v = self.mems[sa].data[sr].to_vec();
                        self.mems[da].data[dr].copy_from_slice(&v);
                    }
                }
                Op::MemoryInit { mem, data } => {
                    let n = pop!() as u32;
                    let s = pop!() as u32;
                    let d = pop!() as u32;
                    self.memory_init(inst, *mem, *data as usize, d, s, n)?;
                }
                Op::DataDrop(d) => self.insts[inst].dropped_data[*d as usize] = true,
                Op::Const(t, v) => {
                    let mut v = *v;
                    if let Some(n) = values_of!("trap_const", *t) {
                        if let Some(r) = event!(n, here, v) {
                            v = r[0];
                        }
                    }
                    st.push(v);
                }
                Op::Unary(n) => {
                    let a = pop!();
                    match event!(crate::traps::unary_trap(*n), here, a, *n) {
                        Some(r) => st.push(r[0]),
                        None => st.push(unary(*n, a)?),
                    }
                }
                Op::Binary(n) => {
                    let b = pop!();
                    let a = pop!();
                    match event!(crate::traps::binary_trap(*n), here, a, b, *n) {
                        Some(r) => st.push(r[0]),
                        None => st.push(binary(*n, a, b)?),
                    }
                }
            }
        }
    }
}

/// Instances by namespace, for linking bundles.
pub type Names = HashMap<String, usize>;
