//! Writes `wasm::Module` values as binaries (independent of the code under test).
use crate::wasm::*;
use wasm_encoder as w;

fn val(t: VT) -> w::ValType {
    match t {
        VT::I32 => w::ValType::I32,
        VT::I64 => w::ValType::I64,
        VT::F32 => w::ValType::F32,
        VT::F64 => w::ValType::F64,
        VT::FuncRef => w::ValType::Ref(w::RefType::FUNCREF),
        VT::ExternRef => w::ValType::Ref(w::RefType::EXTERNREF),
    }
}
fn val_byte(t: VT) -> u8 {
    match t {
        VT::I32 => 0x7f,
        VT::I64 => 0x7e,
        VT::F32 => 0x7d,
        VT::F64 => 0x7c,
        VT::FuncRef => 0x70,
        VT::ExternRef => 0x6f,
    }
}
fn reft(t: VT) -> w::RefType {
    if t == VT::FuncRef {
        w::RefType::FUNCREF
    } else {
        w::RefType::EXTERNREF
    }
}
pub fn leb(o: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn sleb(o: &mut Vec<u8>, mut v: i64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0) {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
const ORDER: [&str; 128] = [
    "I32Eqz", "I32Eq", "I32Ne", "I32LtS", "I32LtU", "I32GtS", "I32GtU", "I32LeS", "I32LeU", "I32GeS", "I32GeU", "I64Eqz",
    "I64Eq", "I64Ne", "I64LtS", "I64LtU", "I64GtS", "I64GtU", "I64LeS", "I64LeU", "I64GeS", "I64GeU", "F32Eq", "F32Ne",
    "F32Lt", "F32Gt", "F32Le", "F32Ge", "F64Eq", "F64Ne", "F64Lt", "F64Gt", "F64Le", "F64Ge", "I32Clz", "I32Ctz",
    "I32Popcnt", "I32Add", "I32Sub", "I32Mul", "I32DivS", "I32DivU", "I32RemS", "I32RemU", "I32And", "I32Or", "I32Xor",
    "I32Shl", "I32ShrS", "I32ShrU", "I32Rotl", "I32Rotr", "I64Clz", "I64Ctz", "I64Popcnt", "I64Add", "I64Sub", "I64Mul",
    "I64DivS", "I64DivU", "I64RemS", "I64RemU", "I64And", "I64Or", "I64Xor", "I64Shl", "I64ShrS", "I64ShrU", "I64Rotl",
    "I64Rotr", "F32Abs", "F32Neg", "F32Ceil", "F32Floor", "F32Trunc", "F32Nearest", "F32Sqrt", "F32Add", "F32Sub",
    "F32Mul", "F32Div", "F32Min", "F32Max", "F32Copysign", "F64Abs", "F64Neg", "F64Ceil", "F64Floor", "F64Trunc",
    "F64Nearest", "F64Sqrt", "F64Add", "F64Sub", "F64Mul", "F64Div", "F64Min", "F64Max", "F64Copysign", "I32WrapI64",
    "I32TruncF32S", "I32TruncF32U", "I32TruncF64S", "I32TruncF64U", "I64ExtendI32S", "I64ExtendI32U", "I64TruncF32S",
    "I64TruncF32U", "I64TruncF64S", "I64TruncF64U", "F32ConvertI32S", "F32ConvertI32U", "F32ConvertI64S",
    "F32ConvertI64U", "F32DemoteF64", "F64ConvertI32S", "F64ConvertI32U", "F64ConvertI64S", "F64ConvertI64U",
    "F64PromoteF32", "I32ReinterpretF32", "I64ReinterpretF64", "F32ReinterpretI32", "F64ReinterpretI64", "I32Extend8S",
    "I32Extend16S", "I64Extend8S", "I64Extend16S", "I64Extend32S",
];
const SAT: [&str; 8] = [
    "I32TruncSatF32S", "I32TruncSatF32U", "I32TruncSatF64S", "I32TruncSatF64U", "I64TruncSatF32S", "I64TruncSatF32U",
    "I64TruncSatF64S", "I64TruncSatF64U",
];
fn numeric(o: &mut Vec<u8>, name: &str) {
    if let Some(i) = ORDER.iter().position(|x| *x == name) {
        o.push(0x45 + i as u8);
    } else {
        let i = SAT.iter().position(|x| *x == name).expect("operator");
        o.extend([0xfc, i as u8]);
    }
}
fn memarg(o: &mut Vec<u8>, name: &str, off: u64, mem: u32) {
    // any alignment up to the natural one
    let natural = width(name).trailing_zeros() as u64;
    let align = off.wrapping_mul(7).wrapping_add(name.len() as u64) % (natural + 1);
    if mem == 0 {
        leb(o, align);
    } else {
        leb(o, align | 0x40);
        leb(o, mem as u64);
    }
    leb(o, off);
}
struct Types(Vec<FT>);
impl Types {
    fn of(&mut self, t: &FT) -> u32 {
        if let Some(i) = self.0.iter().position(|x| x == t) {
            return i as u32;
        }
        self.0.push(t.clone());
        self.0.len() as u32 - 1
    }
    fn block(&mut self, o: &mut Vec<u8>, t: &FT) {
        if t.params.is_empty() && t.results.is_empty() {
            o.push(0x40);
        } else if t.params.is_empty() && t.results.len() == 1 {
            o.push(val_byte(t.results[0]));
        } else {
            let i = self.of(t);
            sleb(o, i as i64);
        }
    }
    fn op(&mut self, o: &mut Vec<u8>, x: &Op) {
        let ix = |o: &mut Vec<u8>, b: u8, i: u32| {
            o.push(b);
            leb(o, i as u64);
        };
        let fc = |o: &mut Vec<u8>, n: u8, a: &[u32]| {
            o.extend([0xfc, n]);
            for i in a {
                leb(o, *i as u64);
            }
        };
        match x {
            Op::Unreachable => o.push(0),
            Op::Nop => o.push(1),
            Op::Block { ty, .. } => {
                o.push(2);
                self.block(o, ty);
            }
            Op::Loop { ty, .. } => {
                o.push(3);
                self.block(o, ty);
            }
            Op::If { ty, .. } => {
                o.push(4);
                self.block(o, ty);
            }
            Op::Else { .. } => o.push(5),
            Op::End => o.push(0x0b),
            Op::Br(l) => ix(o, 0x0c, *l),
            Op::BrIf(l) => ix(o, 0x0d, *l),
            Op::BrTable(ls, d) => {
                ix(o, 0x0e, ls.len() as u32);
                for l in ls.iter().chain([d]) {
                    leb(o, *l as u64);
                }
            }
            Op::Return => o.push(0x0f),
            Op::Call(f) => ix(o, 0x10, *f),
            Op::CallIndirect { ty, table } => {
                let t = self.of(ty);
                ix(o, 0x11, t);
                leb(o, *table as u64);
            }
            Op::RefNull(t) => o.extend([0xd0, val_byte(*t)]),
            Op::RefIsNull => o.push(0xd1),
            Op::RefFunc(f) => ix(o, 0xd2, *f),
            Op::Drop => o.push(0x1a),
            Op::Select(None) => o.push(0x1b),
            Op::Select(Some(t)) => o.extend([0x1c, 1, val_byte(*t)]),
            Op::LocalGet(i) => ix(o, 0x20, *i),
            Op::LocalSet(i) => ix(o, 0x21, *i),
            Op::LocalTee(i) => ix(o, 0x22, *i),
            Op::GlobalGet(i) => ix(o, 0x23, *i),
            Op::GlobalSet(i) => ix(o, 0x24, *i),
            Op::TableGet(i) => ix(o, 0x25, *i),
            Op::TableSet(i) => ix(o, 0x26, *i),
            Op::TableInit { table, elem } => fc(o, 12, &[*elem, *table]),
            Op::ElemDrop(e) => fc(o, 13, &[*e]),
            Op::TableCopy { dst, src } => fc(o, 14, &[*dst, *src]),
            Op::TableGrow(t) => fc(o, 15, &[*t]),
            Op::TableSize(t) => fc(o, 16, &[*t]),
            Op::TableFill(t) => fc(o, 17, &[*t]),
            Op::MemoryInit { mem, data } => fc(o, 8, &[*data, *mem]),
            Op::DataDrop(d) => fc(o, 9, &[*d]),
            Op::MemoryCopy { dst, src } => fc(o, 10, &[*dst, *src]),
            Op::MemoryFill(m) => fc(o, 11, &[*m]),
            Op::MemorySize(m) => ix(o, 0x3f, *m),
            Op::MemoryGrow(m) => ix(o, 0x40, *m),
            Op::Load(n, off, mem) => {
                o.push(0x27 + n);
                memarg(o, LOADS[*n as usize - 1], *off, *mem);
            }
            Op::Store(n, off, mem) => {
                o.push(0x35 + n);
                memarg(o, STORES[*n as usize - 1], *off, *mem);
            }
            Op::Const(t, v) => match t {
                VT::I32 => {
                    o.push(0x41);
                    sleb(o, *v as u32 as i32 as i64);
                }
                VT::I64 => {
                    o.push(0x42);
                    sleb(o, *v as i64);
                }
                VT::F32 => {
                    o.push(0x43);
                    o.extend((*v as u32).to_le_bytes());
                }
                _ => {
                    o.push(0x44);
                    o.extend(v.to_le_bytes());
                }
            },
            Op::Unary(n) => numeric(o, UNARY[*n as usize - 1]),
            Op::Binary(n) => numeric(o, BINARY[*n as usize - 1]),
        }
    }
    /// a constant expression, without its end
    fn expr(&mut self, e: &[Op]) -> w::ConstExpr {
        let mut o = vec![];
        for x in e {
            if *x != Op::End {
                self.op(&mut o, x);
            }
        }
        w::ConstExpr::raw(o)
    }
}
fn table(t: VT, l: &Limits) -> w::TableType {
    w::TableType { element_type: reft(t), table64: false, minimum: l.min, maximum: l.max, shared: false }
}
fn memory(l: &Limits) -> w::MemoryType {
    w::MemoryType { minimum: l.min, maximum: l.max, memory64: false, shared: false, page_size_log2: None }
}

/// `extra_types` come first in the type section (so that indices vary).
pub fn encode(m: &Module, extra_types: &[FT]) -> Vec<u8> {
    let mut ty = Types(extra_types.to_vec());
    let mut code = w::CodeSection::new();
    let mut funcs = w::FunctionSection::new();
    let mut imports = w::ImportSection::new();
    for i in &m.imports {
        let e: w::EntityType = match m.ext(i.kind, i.index) {
            Ext::Func(t) => w::EntityType::Function(ty.of(&t)),
            Ext::Table(t, l) => w::EntityType::Table(table(t, &l)),
            Ext::Mem(l) => w::EntityType::Memory(memory(&l)),
            Ext::Global(t, mutable) => w::EntityType::Global(w::GlobalType { val_type: val(t), mutable, shared: false }),
        };
        imports.import(&i.module, &i.name, e);
    }
    for f in &m.funcs {
        let Some(b) = &f.body else { continue };
        funcs.function(ty.of(&f.ty));
        let mut o = vec![];
        let mut groups: Vec<(u32, VT)> = vec![];
        for l in &b.locals {
            match groups.last_mut() {
                Some((n, t)) if t == l => *n += 1,
                _ => groups.push((1, *l)),
            }
        }
        for x in &b.ops {
            ty.op(&mut o, x);
        }
        let mut f = w::Function::new(groups.into_iter().map(|(n, t)| (n, val(t))));
        f.raw(o);
        code.function(&f);
    }
    let imported = |k: Kind| m.imports.iter().filter(|i| i.kind == k).count();
    let mut tables = w::TableSection::new();
    for (t, l) in m.tables.iter().skip(imported(Kind::Table)) {
        tables.table(table(*t, l));
    }
    let mut mems = w::MemorySection::new();
    for l in m.mems.iter().skip(imported(Kind::Mem)) {
        mems.memory(memory(l));
    }
    let mut globals = w::GlobalSection::new();
    for (t, mutable, init) in m.globals.iter().skip(imported(Kind::Global)) {
        let e = ty.expr(init);
        globals.global(w::GlobalType { val_type: val(*t), mutable: *mutable, shared: false }, &e);
    }
    let mut exports = w::ExportSection::new();
    for e in &m.exports {
        let k = match e.kind {
            Kind::Func => w::ExportKind::Func,
            Kind::Table => w::ExportKind::Table,
            Kind::Mem => w::ExportKind::Memory,
            Kind::Global => w::ExportKind::Global,
        };
        exports.export(&e.name, k, e.index);
    }
    let mut elems = w::ElementSection::new();
    for s in &m.elems {
        let plain: Option<Vec<u32>> = s
            .init
            .iter()
            .map(|e| match &e[..] {
                [Op::RefFunc(f), Op::End] => Some(*f),
                _ => None,
            })
            .collect();
        let es: Vec<w::ConstExpr>;
        let items = match plain {
            Some(v) if s.ty == VT::FuncRef => w::Elements::Functions(v.into()),
            _ => {
                es = s.init.iter().map(|e| ty.expr(e)).collect();
                w::Elements::Expressions(reft(s.ty), es.into())
            }
        };
        let mode_off;
        let mode = match &s.mode {
            ElemMode::Passive => w::ElementMode::Passive,
            ElemMode::Declared => w::ElementMode::Declared,
            ElemMode::Active(t, off) => {
                mode_off = ty.expr(off);
                let explicit = *t != 0 || !matches!((&items, s.ty), (w::Elements::Functions(_), VT::FuncRef)) && s.ty != VT::FuncRef;
                w::ElementMode::Active { table: if explicit { Some(*t) } else { None }, offset: &mode_off }
            }
        };
        elems.segment(w::ElementSegment { mode, elements: items });
    }
    let mut datas = w::DataSection::new();
    for d in &m.datas {
        match &d.active {
            None => {
                datas.passive(d.bytes.iter().copied());
            }
            Some((mem, off)) => {
                let e = ty.expr(off);
                datas.active(*mem, &e, d.bytes.iter().copied());
            }
        }
    }
    let mut types = w::TypeSection::new();
    for t in &ty.0 {
        types.ty().function(t.params.iter().map(|t| val(*t)), t.results.iter().map(|t| val(*t)));
    }
    let mut out = w::Module::new();
    out.section(&types).section(&imports).section(&funcs).section(&tables).section(&mems).section(&globals).section(&exports);
    if let Some(s) = m.start {
        out.section(&w::StartSection { function_index: s });
    }
    out.section(&elems);
    if !m.datas.is_empty() {
        out.section(&w::DataCountSection { count: m.datas.len() as u32 });
    }
    out.section(&code).section(&datas);
    out.finish()
}
