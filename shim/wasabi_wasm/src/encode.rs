use crate::*;
use std::collections::HashMap;
use wasm_encoder as e;

fn ref_type(t: RefType) -> e::RefType {
    match t {
        RefType::FuncRef => e::RefType::FUNCREF,
        RefType::ExternRef => e::RefType::EXTERNREF,
    }
}
fn val_type(t: ValType) -> e::ValType {
    match t {
        ValType::I32 => e::ValType::I32,
        ValType::I64 => e::ValType::I64,
        ValType::F32 => e::ValType::F32,
        ValType::F64 => e::ValType::F64,
        ValType::Ref(r) => e::ValType::Ref(ref_type(r)),
    }
}

/// Index spaces list imports first, so functions (and the rest) added later as imports move.
struct Maps {
    f: Vec<u32>,
    t: Vec<u32>,
    m: Vec<u32>,
    g: Vec<u32>,
    types: HashMap<FunctionType, u32>,
    type_list: Vec<FunctionType>,
}
fn order(imported: Vec<bool>) -> Vec<u32> {
    let n_imp = imported.iter().filter(|b| **b).count() as u32;
    let (mut i, mut d) = (0, n_imp);
    imported
        .into_iter()
        .map(|imp| {
            let c = if imp { &mut i } else { &mut d };
            *c += 1;
            *c - 1
        })
        .collect()
}
impl Maps {
    fn ty(&mut self, t: FunctionType) -> u32 {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_list.len() as u32;
        self.types.insert(t, i);
        self.type_list.push(t);
        i
    }
    fn block(&mut self, t: FunctionType) -> e::BlockType {
        match (t.inputs(), t.results()) {
            ([], []) => e::BlockType::Empty,
            ([], [r]) => e::BlockType::Result(val_type(*r)),
            _ => e::BlockType::FunctionType(self.ty(t)),
        }
    }
    fn get(v: &[u32], i: u32, what: &str) -> Result<u32, EncodeError> {
        v.get(i as usize).copied().ok_or_else(|| EncodeError(format!("{what} index {i} out of range")))
    }
}

macro_rules! map_ops { ($fname:ident $en:ident $($op:ident)*) => {
    fn $fname(op: $en) -> e::Instruction<'static> {
        match op { $($en::$op => e::Instruction::$op,)* }
    }
} }
macro_rules! map_mem_ops { ($fname:ident $en:ident $($op:ident)*) => {
    fn $fname(op: $en, m: e::MemArg) -> e::Instruction<'static> {
        match op { $($en::$op => e::Instruction::$op(m),)* }
    }
} }
unary_ops!(map_ops unary UnaryOp);
binary_ops!(map_ops binary BinaryOp);
load_ops!(map_mem_ops load LoadOp);
store_ops!(map_mem_ops store StoreOp);

fn instr(i: &Instr, x: &mut Maps) -> Result<e::Instruction<'static>, EncodeError> {
    use e::Instruction as I;
    let memarg = |m: &Memarg| e::MemArg { offset: m.offset.into(), align: m.alignment_exp.into(), memory_index: 0 };
    Ok(match i {
        Instr::Unreachable => I::Unreachable,
        Instr::Nop => I::Nop,
        Instr::Block(t) => I::Block(x.block(*t)),
        Instr::Loop(t) => I::Loop(x.block(*t)),
        Instr::If(t) => I::If(x.block(*t)),
        Instr::Else => I::Else,
        Instr::End => I::End,
        Instr::Br(l) => I::Br(l.to_u32()),
        Instr::BrIf(l) => I::BrIf(l.to_u32()),
        Instr::BrTable { table, default } => I::BrTable(table.iter().map(|l| l.to_u32()).collect::<Vec<_>>().into(), default.to_u32()),
        Instr::Return => I::Return,
        Instr::Call(f) => I::Call(Maps::get(&x.f, f.to_u32(), "function")?),
        Instr::CallIndirect(t, tab) => I::CallIndirect { type_index: x.ty(*t), table_index: Maps::get(&x.t, tab.to_u32(), "table")? },
        Instr::RefNull(t) => I::RefNull(match t {
            RefType::FuncRef => e::HeapType::FUNC,
            RefType::ExternRef => e::HeapType::EXTERN,
        }),
        Instr::RefIsNull => I::RefIsNull,
        Instr::RefFunc(f) => I::RefFunc(Maps::get(&x.f, f.to_u32(), "function")?),
        Instr::Drop => I::Drop,
        Instr::Select => I::Select,
        Instr::TypedSelect(t) => I::TypedSelect(val_type(*t)),
        Instr::Local(LocalOp::Get, l) => I::LocalGet(l.to_u32()),
        Instr::Local(LocalOp::Set, l) => I::LocalSet(l.to_u32()),
        Instr::Local(LocalOp::Tee, l) => I::LocalTee(l.to_u32()),
        Instr::Global(GlobalOp::Get, g) => I::GlobalGet(Maps::get(&x.g, g.to_u32(), "global")?),
        Instr::Global(GlobalOp::Set, g) => I::GlobalSet(Maps::get(&x.g, g.to_u32(), "global")?),
        Instr::TableGet(t) => I::TableGet(Maps::get(&x.t, t.to_u32(), "table")?),
        Instr::TableSet(t) => I::TableSet(Maps::get(&x.t, t.to_u32(), "table")?),
        Instr::TableSize(t) => I::TableSize(Maps::get(&x.t, t.to_u32(), "table")?),
        Instr::TableGrow(t) => I::TableGrow(Maps::get(&x.t, t.to_u32(), "table")?),
        Instr::TableFill(t) => I::TableFill(Maps::get(&x.t, t.to_u32(), "table")?),
        Instr::TableCopy(d, s) => I::TableCopy { src_table: Maps::get(&x.t, s.to_u32(), "table")?, dst_table: Maps::get(&x.t, d.to_u32(), "table")? },
        Instr::TableInit(t, el) => I::TableInit { elem_index: el.to_u32(), table: Maps::get(&x.t, t.to_u32(), "table")? },
        Instr::ElemDrop(el) => I::ElemDrop(el.to_u32()),
        Instr::Load(op, m) => load(*op, memarg(m)),
        Instr::Store(op, m) => store(*op, memarg(m)),
        Instr::MemorySize(m) => I::MemorySize(Maps::get(&x.m, m.to_u32(), "memory")?),
        Instr::MemoryGrow(m) => I::MemoryGrow(Maps::get(&x.m, m.to_u32(), "memory")?),
        Instr::MemoryFill => I::MemoryFill(0),
        Instr::MemoryCopy => I::MemoryCopy { src_mem: 0, dst_mem: 0 },
        Instr::MemoryInit(d) => I::MemoryInit { mem: 0, data_index: d.to_u32() },
        Instr::DataDrop(d) => I::DataDrop(d.to_u32()),
        Instr::Const(Val::I32(v)) => I::I32Const(*v),
        Instr::Const(Val::I64(v)) => I::I64Const(*v),
        Instr::Const(Val::F32(v)) => I::F32Const(e::Ieee32::new(v.0)),
        Instr::Const(Val::F64(v)) => I::F64Const(e::Ieee64::new(v.0)),
        Instr::Unary(op) => unary(*op),
        Instr::Binary(op) => binary(*op),
    })
}
/// constant expression, its final `End` is written by the section encoder
fn const_expr(ex: &[Instr], x: &mut Maps) -> Result<e::ConstExpr, EncodeError> {
    use e::Encode;
    let body = match ex {
        [body @ .., Instr::End] => body,
        _ => return Err(EncodeError("constant expression without end".into())),
    };
    let mut bytes = vec![];
    for i in body {
        instr(i, x)?.encode(&mut bytes);
    }
    Ok(e::ConstExpr::raw(bytes))
}

pub fn encode(m: &Module) -> Result<Vec<u8>, EncodeError> {
    let mut x = Maps {
        f: order(m.functions.iter().map(|f| f.code().is_none()).collect()),
        t: order(m.tables.iter().map(|t| t.import.is_some()).collect()),
        m: order(m.memories.iter().map(|t| t.import.is_some()).collect()),
        g: order(m.globals.iter().map(|g| matches!(g.init, ImportOrPresent::Import(..))).collect()),
        types: HashMap::new(),
        type_list: vec![],
    };
    let table_ty = |t: &Table| e::TableType {
        element_type: ref_type(t.ref_type),
        table64: false,
        minimum: t.limits.initial_size.into(),
        maximum: t.limits.max_size.map(Into::into),
        shared: false,
    };
    let mem_ty = |t: &Memory| e::MemoryType { minimum: t.limits.initial_size.into(), maximum: t.limits.max_size.map(Into::into), memory64: false, shared: false, page_size_log2: None };
    let glob_ty = |g: &Global| e::GlobalType { val_type: val_type(g.type_.0), mutable: g.type_.1 == Mutability::Mut, shared: false };

    let mut imports = e::ImportSection::new();
    let mut functions = e::FunctionSection::new();
    let mut code = e::CodeSection::new();
    for f in &m.functions {
        let ty = x.ty(f.type_);
        if let ImportOrPresent::Import(module, name) = &f.code {
            imports.import(module, name, e::EntityType::Function(ty));
        }
    }
    let mut tables = e::TableSection::new();
    for t in &m.tables {
        match &t.import {
            Some((module, name)) => {
                imports.import(module, name, table_ty(t));
            }
            None => {
                tables.table(table_ty(t));
            }
        }
    }
    let mut memories = e::MemorySection::new();
    for t in &m.memories {
        match &t.import {
            Some((module, name)) => {
                imports.import(module, name, mem_ty(t));
            }
            None => {
                memories.memory(mem_ty(t));
            }
        }
    }
    let mut globals = e::GlobalSection::new();
    for g in &m.globals {
        match &g.init {
            ImportOrPresent::Import(module, name) => {
                imports.import(module, name, glob_ty(g));
            }
            ImportOrPresent::Present(init) => {
                globals.global(glob_ty(g), &const_expr(init, &mut x)?);
            }
        }
    }
    for f in &m.functions {
        if let Some(c) = f.code() {
            functions.function(x.ty(f.type_));
            let mut body = e::Function::new_with_locals_types(c.locals.iter().map(|l| val_type(l.type_)));
            for i in &c.body {
                body.instruction(&instr(i, &mut x)?);
            }
            code.function(&body);
        }
    }
    let mut exports = e::ExportSection::new();
    for (i, f) in m.functions.iter().enumerate() {
        for n in &f.export {
            exports.export(n, e::ExportKind::Func, x.f[i]);
        }
    }
    for (i, t) in m.tables.iter().enumerate() {
        for n in &t.export {
            exports.export(n, e::ExportKind::Table, x.t[i]);
        }
    }
    for (i, t) in m.memories.iter().enumerate() {
        for n in &t.export {
            exports.export(n, e::ExportKind::Memory, x.m[i]);
        }
    }
    for (i, t) in m.globals.iter().enumerate() {
        for n in &t.export {
            exports.export(n, e::ExportKind::Global, x.g[i]);
        }
    }
    let mut elements = e::ElementSection::new();
    for el in &m.elements {
        let items = el.init.iter().map(|ex| const_expr(ex, &mut x)).collect::<Result<Vec<_>, _>>()?;
        let items = e::Elements::Expressions(ref_type(el.typ), items.into());
        match &el.mode {
            ElementMode::Passive => {
                elements.passive(items);
            }
            ElementMode::Declarative => {
                elements.declared(items);
            }
            ElementMode::Active { table, offset } => {
                let t = Maps::get(&x.t, table.to_u32(), "table")?;
                elements.active(Some(t), &const_expr(offset, &mut x)?, items);
            }
        }
    }
    let mut datas = e::DataSection::new();
    for d in &m.datas {
        match &d.mode {
            DataMode::Passive => {
                datas.passive(d.init.iter().copied());
            }
            DataMode::Active { memory, offset } => {
                let mem = Maps::get(&x.m, memory.to_u32(), "memory")?;
                datas.active(mem, &const_expr(offset, &mut x)?, d.init.iter().copied());
            }
        }
    }
    let mut types = e::TypeSection::new();
    for t in &x.type_list {
        types.ty().function(t.inputs().iter().map(|t| val_type(*t)), t.results().iter().map(|t| val_type(*t)));
    }
    let mut out = e::Module::new();
    out.section(&types).section(&imports).section(&functions).section(&tables).section(&memories).section(&globals).section(&exports);
    if let Some(s) = m.start {
        out.section(&e::StartSection { function_index: Maps::get(&x.f, s.to_u32(), "function")? });
    }
    out.section(&elements);
    if !m.datas.is_empty() {
        out.section(&e::DataCountSection { count: m.datas.len() as u32 });
    }
    out.section(&code).section(&datas);
    let mut names = e::NameMap::new();
    let mut named: Vec<(u32, &str)> = m.functions.iter().enumerate().filter_map(|(i, f)| f.name.as_deref().map(|n| (x.f[i], n))).collect();
    named.sort();
    if !named.is_empty() {
        for (i, n) in named {
            names.append(i, n);
        }
        let mut sec = e::NameSection::new();
        sec.functions(&names);
        out.section(&sec);
    }
    for c in &m.custom_sections {
        out.section(&e::CustomSection { name: (&c.name).into(), data: (&c.content).into() });
    }
    Ok(out.finish())
}
