use crate::*;
use wasmparser as p;

type R<T> = Result<T, ParseError>;
fn err<T>(m: impl std::fmt::Display) -> R<T> {
    Err(ParseError(m.to_string()))
}
impl From<p::BinaryReaderError> for ParseError {
    fn from(e: p::BinaryReaderError) -> Self {
        ParseError(e.to_string())
    }
}

fn ref_type(t: p::RefType) -> R<RefType> {
    if t == p::RefType::FUNCREF {
        Ok(RefType::FuncRef)
    } else if t == p::RefType::EXTERNREF {
        Ok(RefType::ExternRef)
    } else {
        err(format!("unsupported reference type {t:?}"))
    }
}
fn val_type(t: p::ValType) -> R<ValType> {
    Ok(match t {
        p::ValType::I32 => ValType::I32,
        p::ValType::I64 => ValType::I64,
        p::ValType::F32 => ValType::F32,
        p::ValType::F64 => ValType::F64,
        p::ValType::Ref(r) => ValType::Ref(ref_type(r)?),
        p::ValType::V128 => return err("unsupported type v128"),
    })
}
fn heap_type(t: p::HeapType) -> R<RefType> {
    match t {
        p::HeapType::FUNC => Ok(RefType::FuncRef),
        p::HeapType::EXTERN => Ok(RefType::ExternRef),
        t => err(format!("unsupported heap type {t:?}")),
    }
}
fn table_type(t: p::TableType) -> R<(Limits, RefType)> {
    Ok((
        Limits { initial_size: u32::try_from(t.initial).or_else(|e| err(e))?, max_size: t.maximum.map(|m| u32::try_from(m).or_else(|e| err(e))).transpose()? },
        ref_type(t.element_type)?,
    ))
}
fn mem_type(t: p::MemoryType) -> R<Limits> {
    if t.memory64 || t.shared {
        return err("unsupported memory type");
    }
    Ok(Limits { initial_size: u32::try_from(t.initial).or_else(|e| err(e))?, max_size: t.maximum.map(|m| u32::try_from(m).or_else(|e| err(e))).transpose()? })
}
fn global_type(t: p::GlobalType) -> R<GlobalType> {
    Ok(GlobalType(val_type(t.content_type)?, if t.mutable { Mutability::Mut } else { Mutability::Const }))
}
fn memarg(m: p::MemArg) -> R<Memarg> {
    if m.memory != 0 {
        return err("unsupported: multiple memories");
    }
    Ok(Memarg { alignment_exp: m.align, offset: u32::try_from(m.offset).or_else(|e| err(e))? })
}
fn block_type(t: p::BlockType, types: &[FunctionType]) -> R<FunctionType> {
    Ok(match t {
        p::BlockType::Empty => FunctionType::empty(),
        p::BlockType::Type(t) => FunctionType::new(&[], &[val_type(t)?]),
        p::BlockType::FuncType(i) => *types.get(i as usize).ok_or(ParseError("type index".into()))?,
    })
}

macro_rules! map_ops { ($fname:ident $en:ident $($op:ident)*) => {
    fn $fname(op: &p::Operator) -> Option<$en> {
        match op { $(p::Operator::$op => Some($en::$op),)* _ => None }
    }
} }
macro_rules! map_mem_ops { ($fname:ident $en:ident $($op:ident)*) => {
    fn $fname(op: &p::Operator) -> Option<($en, p::MemArg)> {
        match op { $(p::Operator::$op { memarg } => Some(($en::$op, *memarg)),)* _ => None }
    }
} }
unary_ops!(map_ops unary UnaryOp);
binary_ops!(map_ops binary BinaryOp);
load_ops!(map_mem_ops load LoadOp);
store_ops!(map_mem_ops store StoreOp);

fn instr(op: p::Operator, types: &[FunctionType]) -> R<Instr> {
    use p::Operator as O;
    if let Some(u) = unary(&op) {
        return Ok(Instr::Unary(u));
    }
    if let Some(b) = binary(&op) {
        return Ok(Instr::Binary(b));
    }
    if let Some((l, m)) = load(&op) {
        return Ok(Instr::Load(l, memarg(m)?));
    }
    if let Some((s, m)) = store(&op) {
        return Ok(Instr::Store(s, memarg(m)?));
    }
    let single = |m: u32| if m == 0 { Ok(()) } else { err("unsupported: multiple memories") };
    Ok(match op {
        O::Unreachable => Instr::Unreachable,
        O::Nop => Instr::Nop,
        O::Block { blockty } => Instr::Block(block_type(blockty, types)?),
        O::Loop { blockty } => Instr::Loop(block_type(blockty, types)?),
        O::If { blockty } => Instr::If(block_type(blockty, types)?),
        O::Else => Instr::Else,
        O::End => Instr::End,
        O::Br { relative_depth } => Instr::Br(relative_depth.into()),
        O::BrIf { relative_depth } => Instr::BrIf(relative_depth.into()),
        O::BrTable { targets } => Instr::BrTable {
            default: targets.default().into(),
            table: targets.targets().map(|t| t.map(Label::from)).collect::<Result<Vec<_>, _>>()?.into_boxed_slice(),
        },
        O::Return => Instr::Return,
        O::Call { function_index } => Instr::Call(function_index.into()),
        O::CallIndirect { type_index, table_index } => Instr::CallIndirect(*types.get(type_index as usize).ok_or(ParseError("type index".into()))?, table_index.into()),
        O::RefNull { hty } => Instr::RefNull(heap_type(hty)?),
        O::RefIsNull => Instr::RefIsNull,
        O::RefFunc { function_index } => Instr::RefFunc(function_index.into()),
        O::Drop => Instr::Drop,
        O::Select => Instr::Select,
        O::TypedSelect { ty } => Instr::TypedSelect(val_type(ty)?),
        O::LocalGet { local_index } => Instr::Local(LocalOp::Get, local_index.into()),
        O::LocalSet { local_index } => Instr::Local(LocalOp::Set, local_index.into()),
        O::LocalTee { local_index } => Instr::Local(LocalOp::Tee, local_index.into()),
        O::GlobalGet { global_index } => Instr::Global(GlobalOp::Get, global_index.into()),
        O::GlobalSet { global_index } => Instr::Global(GlobalOp::Set, global_index.into()),
        O::TableGet { table } => Instr::TableGet(table.into()),
        O::TableSet { table } => Instr::TableSet(table.into()),
        O::TableSize { table } => Instr::TableSize(table.into()),
        O::TableGrow { table } => Instr::TableGrow(table.into()),
        O::TableFill { table } => Instr::TableFill(table.into()),
        O::TableCopy { dst_table, src_table } => Instr::TableCopy(dst_table.into(), src_table.into()),
        O::TableInit { elem_index, table } => Instr::TableInit(table.into(), elem_index.into()),
        O::ElemDrop { elem_index } => Instr::ElemDrop(elem_index.into()),
        O::MemorySize { mem } => {
            single(mem)?;
            Instr::MemorySize(mem.into())
        }
        O::MemoryGrow { mem } => {
            single(mem)?;
            Instr::MemoryGrow(mem.into())
        }
        O::MemoryFill { mem } => {
            single(mem)?;
            Instr::MemoryFill
        }
        O::MemoryCopy { dst_mem, src_mem } => {
            single(dst_mem | src_mem)?;
            Instr::MemoryCopy
        }
        O::MemoryInit { data_index, mem } => {
            single(mem)?;
            Instr::MemoryInit(data_index.into())
        }
        O::DataDrop { data_index } => Instr::DataDrop(data_index.into()),
        O::I32Const { value } => Instr::Const(Val::I32(value)),
        O::I64Const { value } => Instr::Const(Val::I64(value)),
        O::F32Const { value } => Instr::Const(Val::F32(F32(value.bits()))),
        O::F64Const { value } => Instr::Const(Val::F64(F64(value.bits()))),
        op => return err(format!("unsupported instruction {op:?}")),
    })
}
fn expr(mut r: p::OperatorsReader, types: &[FunctionType]) -> R<Expr> {
    let mut out = vec![];
    while !r.eof() {
        out.push(instr(r.read()?, types)?);
    }
    Ok(out)
}

pub fn decode(bytes: &[u8]) -> R<Module> {
    let mut m = Module::new();
    let mut types: Vec<FunctionType> = vec![];
    let mut declared: Vec<u32> = vec![];
    let mut bodies = 0;
    let mut imported = 0;
    for payload in p::Parser::new(0).parse_all(bytes) {
        match payload? {
            p::Payload::Version { .. } | p::Payload::End(_) | p::Payload::CodeSectionStart { .. } | p::Payload::DataCountSection { .. } => {}
            p::Payload::TypeSection(s) => {
                for group in s {
                    for t in group?.into_types() {
                        match t.composite_type.inner {
                            p::CompositeInnerType::Func(f) => {
                                let ps = f.params().iter().map(|t| val_type(*t)).collect::<R<Vec<_>>>()?;
                                let rs = f.results().iter().map(|t| val_type(*t)).collect::<R<Vec<_>>>()?;
                                types.push(FunctionType::new(&ps, &rs));
                            }
                            t => return err(format!("unsupported type {t:?}")),
                        }
                    }
                }
            }
            p::Payload::ImportSection(s) => {
                for i in s {
                    let i = i?;
                    let (module, name) = (i.module.to_string(), i.name.to_string());
                    match i.ty {
                        p::TypeRef::Func(t) => {
                            let t = *types.get(t as usize).ok_or(ParseError("type index".into()))?;
                            m.functions.push(Function::new_imported(t, module, name, vec![]));
                            imported += 1;
                        }
                        p::TypeRef::Table(t) => {
                            let (limits, ref_type) = table_type(t)?;
                            m.tables.push(Table { limits, ref_type, import: Some((module, name)), export: vec![] });
                        }
                        p::TypeRef::Memory(t) => m.memories.push(Memory { limits: mem_type(t)?, import: Some((module, name)), export: vec![] }),
                        p::TypeRef::Global(t) => m.globals.push(Global { type_: global_type(t)?, init: ImportOrPresent::Import(module, name), export: vec![] }),
                        t => return err(format!("unsupported import {t:?}")),
                    }
                }
            }
            p::Payload::FunctionSection(s) => {
                for f in s {
                    let t = f?;
                    declared.push(t);
                    let t = *types.get(t as usize).ok_or(ParseError("type index".into()))?;
                    m.functions.push(Function::new(t, Code::new(), vec![]));
                }
            }
            p::Payload::TableSection(s) => {
                for t in s {
                    let t = t?;
                    if !matches!(t.init, p::TableInit::RefNull) {
                        return err("unsupported table initialiser");
                    }
                    let (limits, ref_type) = table_type(t.ty)?;
                    m.tables.push(Table { limits, ref_type, import: None, export: vec![] });
                }
            }
            p::Payload::MemorySection(s) => {
                for t in s {
                    m.memories.push(Memory { limits: mem_type(t?)?, import: None, export: vec![] });
                }
            }
            p::Payload::GlobalSection(s) => {
                for g in s {
                    let g = g?;
                    m.globals.push(Global { type_: global_type(g.ty)?, init: ImportOrPresent::Present(expr(g.init_expr.get_operators_reader(), &types)?), export: vec![] });
                }
            }
            p::Payload::ExportSection(s) => {
                for e in s {
                    let e = e?;
                    let (i, n) = (e.index as usize, e.name.to_string());
                    let list = match e.kind {
                        p::ExternalKind::Func => m.functions.get_mut(i).map(|x| &mut x.export),
                        p::ExternalKind::Table => m.tables.get_mut(i).map(|x| &mut x.export),
                        p::ExternalKind::Memory => m.memories.get_mut(i).map(|x| &mut x.export),
                        p::ExternalKind::Global => m.globals.get_mut(i).map(|x| &mut x.export),
                        k => return err(format!("unsupported export {k:?}")),
                    };
                    list.ok_or(ParseError("export index".into()))?.push(n);
                }
            }
            p::Payload::StartSection { func, .. } => m.start = Some(func.into()),
            p::Payload::ElementSection(s) => {
                for e in s {
                    let e = e?;
                    let (typ, init) = match e.items {
                        p::ElementItems::Functions(fs) => {
                            (RefType::FuncRef, fs.into_iter().map(|f| Ok(vec![Instr::RefFunc(f?.into()), Instr::End])).collect::<R<Vec<_>>>()?)
                        }
                        p::ElementItems::Expressions(t, es) => {
                            (ref_type(t)?, es.into_iter().map(|e| expr(e?.get_operators_reader(), &types)).collect::<R<Vec<_>>>()?)
                        }
                    };
                    let mode = match e.kind {
                        p::ElementKind::Passive => ElementMode::Passive,
                        p::ElementKind::Declared => ElementMode::Declarative,
                        p::ElementKind::Active { table_index, offset_expr } => {
                            ElementMode::Active { table: table_index.unwrap_or(0).into(), offset: expr(offset_expr.get_operators_reader(), &types)? }
                        }
                    };
                    m.elements.push(Element { typ, init, mode });
                }
            }
            p::Payload::DataSection(s) => {
                for d in s {
                    let d = d?;
                    let mode = match d.kind {
                        p::DataKind::Passive => DataMode::Passive,
                        p::DataKind::Active { memory_index, offset_expr } => DataMode::Active { memory: memory_index.into(), offset: expr(offset_expr.get_operators_reader(), &types)? },
                    };
                    m.datas.push(Data { init: d.data.to_vec(), mode });
                }
            }
            p::Payload::CodeSectionEntry(b) => {
                let mut locals = vec![];
                for l in b.get_locals_reader()? {
                    let (n, t) = l?;
                    if locals.len() + n as usize > 100_000 {
                        return err("too many locals");
                    }
                    let t = val_type(t)?;
                    locals.extend((0..n).map(|_| Local::new(t)));
                }
                let body = expr(b.get_operators_reader()?, &types)?;
                let f = m.functions.get_mut(imported + bodies).ok_or(ParseError("more bodies than functions".into()))?;
                f.code = ImportOrPresent::Present(Code { locals, body });
                bodies += 1;
            }
            p::Payload::CustomSection(c) => {
                if c.name() != "name" {
                    m.custom_sections.push(CustomSection { name: c.name().to_string(), content: c.data().to_vec() });
                    continue;
                }
                if let p::KnownCustom::Name(names) = c.as_known() {
                    for n in names {
                        if let Ok(p::Name::Function(map)) = n {
                            for n in map.into_iter().flatten() {
                                if let Some(f) = m.functions.get_mut(n.index as usize) {
                                    f.name = Some(n.name.to_string());
                                }
                            }
                        }
                    }
                }
            }
            other => return err(format!("unsupported section {other:?}")),
        }
    }
    if bodies != declared.len() {
        return err("function and code section have inconsistent lengths");
    }
    Ok(m)
}
