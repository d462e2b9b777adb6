//! An independent reading of WebAssembly modules (flat instruction lists, indices as in the binary).
use std::collections::HashMap;
use std::sync::OnceLock;
use wasmparser as p;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum VT {
    I32,
    I64,
    F32,
    F64,
    FuncRef,
    ExternRef,
}
impl VT {
    pub fn is_ref(self) -> bool {
        matches!(self, VT::FuncRef | VT::ExternRef)
    }
    pub fn low(self) -> &'static str {
        match self {
            VT::I32 => "i32",
            VT::I64 => "i64",
            VT::F32 => "f32",
            VT::F64 => "f64",
            VT::FuncRef => "funcref",
            VT::ExternRef => "externref",
        }
    }
}
pub const NUM: [VT; 4] = [VT::I32, VT::I64, VT::F32, VT::F64];

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct FT {
    pub params: Vec<VT>,
    pub results: Vec<VT>,
}
impl FT {
    pub fn new(p: &[VT], r: &[VT]) -> FT {
        FT { params: p.to_vec(), results: r.to_vec() }
    }
    pub fn mentions_refs(&self) -> bool {
        self.params.iter().chain(&self.results).any(|t| t.is_ref())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Unreachable,
    Nop,
    Block { ty: FT, end: usize },
    Loop { ty: FT, end: usize },
    If { ty: FT, els: Option<usize>, end: usize },
    Else { end: usize },
    End,
    Br(u32),
    BrIf(u32),
    BrTable(Vec<u32>, u32),
    Return,
    Call(u32),
    CallIndirect { ty: FT, table: u32 },
    RefNull(VT),
    RefIsNull,
    RefFunc(u32),
    Drop,
    Select(Option<VT>),
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    TableGet(u32),
    TableSet(u32),
    TableSize(u32),
    TableGrow(u32),
    TableFill(u32),
    TableCopy { dst: u32, src: u32 },
    TableInit { table: u32, elem: u32 },
    ElemDrop(u32),
    /// operator number (1-based, see LOADS), static offset, memory
    Load(u8, u64, u32),
    Store(u8, u64, u32),
    MemorySize(u32),
    MemoryGrow(u32),
    MemoryFill(u32),
    MemoryCopy { dst: u32, src: u32 },
    MemoryInit { mem: u32, data: u32 },
    DataDrop(u32),
    Const(VT, u64),
    Unary(u8),
    Binary(u8),
}

/// The operator numbers that analyses see (documented in the analysis standard libraries).
pub const UNARY: [&str; 60] = [
    "I32Eqz", "I64Eqz", "I32Clz", "I32Ctz", "I32Popcnt", "I64Clz", "I64Ctz", "I64Popcnt", "F32Abs", "F32Neg", "F32Ceil",
    "F32Floor", "F32Trunc", "F32Nearest", "F32Sqrt", "F64Abs", "F64Neg", "F64Ceil", "F64Floor", "F64Trunc", "F64Nearest",
    "F64Sqrt", "I32WrapI64", "I32TruncF32S", "I32TruncF32U", "I32TruncF64S", "I32TruncF64U", "I32TruncSatF32S",
    "I32TruncSatF32U", "I32TruncSatF64S", "I32TruncSatF64U", "I64ExtendI32S", "I64ExtendI32U", "I64TruncF32S",
    "I64TruncF32U", "I64TruncF64S", "I64TruncF64U", "I64TruncSatF32S", "I64TruncSatF32U", "I64TruncSatF64S",
    "I64TruncSatF64U", "F32ConvertI32S", "F32ConvertI32U", "F32ConvertI64S", "F32ConvertI64U", "F32DemoteF64",
    "F64ConvertI32S", "F64ConvertI32U", "F64ConvertI64S", "F64ConvertI64U", "F64PromoteF32", "I32ReinterpretF32",
    "I64ReinterpretF64", "F32ReinterpretI32", "F64ReinterpretI64", "I32Extend8S", "I32Extend16S", "I64Extend8S",
    "I64Extend16S", "I64Extend32S",
];
pub const BINARY: [&str; 76] = [
    "I32Eq", "I32Ne", "I32LtS", "I32LtU", "I32GtS", "I32GtU", "I32LeS", "I32LeU", "I32GeS", "I32GeU", "I64Eq", "I64Ne",
    "I64LtS", "I64LtU", "I64GtS", "I64GtU", "I64LeS", "I64LeU", "I64GeS", "I64GeU", "F32Eq", "F32Ne", "F32Lt", "F32Gt",
    "F32Le", "F32Ge", "F64Eq", "F64Ne", "F64Lt", "F64Gt", "F64Le", "F64Ge", "I32Add", "I32Sub", "I32Mul", "I32DivS",
    "I32DivU", "I32RemS", "I32RemU", "I32And", "I32Or", "I32Xor", "I32Shl", "I32ShrS", "I32ShrU", "I32Rotl", "I32Rotr",
    "I64Add", "I64Sub", "I64Mul", "I64DivS", "I64DivU", "I64RemS", "I64RemU", "I64And", "I64Or", "I64Xor", "I64Shl",
    "I64ShrS", "I64ShrU", "I64Rotl", "I64Rotr", "F32Add", "F32Sub", "F32Mul", "F32Div", "F32Min", "F32Max", "F32Copysign",
    "F64Add", "F64Sub", "F64Mul", "F64Div", "F64Min", "F64Max", "F64Copysign",
];
pub const LOADS: [&str; 14] = [
    "I32Load", "I64Load", "F32Load", "F64Load", "I32Load8S", "I32Load8U", "I32Load16S", "I32Load16U", "I64Load8S",
    "I64Load8U", "I64Load16S", "I64Load16U", "I64Load32S", "I64Load32U",
];
pub const STORES: [&str; 9] = [
    "I32Store", "I64Store", "F32Store", "F64Store", "I32Store8", "I32Store16", "I64Store8", "I64Store16", "I64Store32",
];
pub fn prefix_type(n: &str) -> VT {
    match &n[..3] {
        "I32" => VT::I32,
        "I64" => VT::I64,
        "F32" => VT::F32,
        "F64" => VT::F64,
        _ => panic!("{n}"),
    }
}
/// (operand, result)
pub fn unary_type(n: u8) -> (VT, VT) {
    let name = UNARY[n as usize - 1];
    let own = prefix_type(name);
    let rest = &name[3..];
    if rest == "Eqz" {
        return (own, VT::I32);
    }
    for (t, v) in [("I32", VT::I32), ("I64", VT::I64), ("F32", VT::F32), ("F64", VT::F64)] {
        if rest.contains(t) {
            return (v, own);
        }
    }
    (own, own)
}
pub fn binary_type(n: u8) -> (VT, VT) {
    let own = prefix_type(BINARY[n as usize - 1]);
    (own, if n <= 32 { VT::I32 } else { own })
}
pub fn load_type(n: u8) -> VT {
    prefix_type(LOADS[n as usize - 1])
}
pub fn store_type(n: u8) -> VT {
    prefix_type(STORES[n as usize - 1])
}
/// bytes accessed
pub fn width(name: &str) -> u64 {
    if name.ends_with("8S") || name.ends_with("8U") || name.ends_with('8') {
        1
    } else if name.contains("16") {
        2
    } else if name.contains("Load32") || name.contains("Store32") || name.starts_with("I32") || name.starts_with("F32") {
        4
    } else {
        8
    }
}
pub fn op_tables() -> &'static HashMap<&'static str, (char, u8)> {
    static T: OnceLock<HashMap<&'static str, (char, u8)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = HashMap::new();
        for (k, list) in [('u', &UNARY[..]), ('b', &BINARY[..]), ('l', &LOADS[..]), ('s', &STORES[..])] {
            for (i, n) in list.iter().enumerate() {
                m.insert(*n, (k, i as u8 + 1));
            }
        }
        m
    })
}

#[derive(Clone, Debug)]
pub struct Body {
    pub locals: Vec<VT>,
    pub ops: Vec<Op>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Limits {
    pub min: u64,
    pub max: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ext {
    Func(FT),
    Table(VT, Limits),
    Mem(Limits),
    Global(VT, bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Func,
    Table,
    Mem,
    Global,
}
#[derive(Clone, Debug)]
pub struct Import {
    pub module: String,
    pub name: String,
    pub kind: Kind,
    pub index: u32,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub ty: FT,
    pub body: Option<Body>,
}
#[derive(Clone, Debug)]
pub struct Export {
    pub name: String,
    pub kind: Kind,
    pub index: u32,
}
#[derive(Clone, Debug)]
pub enum ElemMode {
    Passive,
    Declared,
    Active(u32, Vec<Op>),
}
#[derive(Clone, Debug)]
pub struct Elem {
    pub ty: VT,
    pub init: Vec<Vec<Op>>,
    pub mode: ElemMode,
}
#[derive(Clone, Debug)]
pub struct Data {
    pub bytes: Vec<u8>,
    pub active: Option<(u32, Vec<Op>)>,
}
#[derive(Clone, Debug, Default)]
pub struct Module {
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>,
    pub tables: Vec<(VT, Limits)>,
    pub mems: Vec<Limits>,
    pub globals: Vec<(VT, bool, Vec<Op>)>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub datas: Vec<Data>,
}
impl Module {
    pub fn ext(&self, kind: Kind, i: u32) -> Ext {
        let i = i as usize;
        match kind {
            Kind::Func => Ext::Func(self.funcs[i].ty.clone()),
            Kind::Table => Ext::Table(self.tables[i].0, self.tables[i].1.clone()),
            Kind::Mem => Ext::Mem(self.mems[i].clone()),
            Kind::Global => Ext::Global(self.globals[i].0, self.globals[i].1),
        }
    }
    pub fn import_of(&self, kind: Kind, index: u32) -> Option<&Import> {
        self.imports.iter().find(|i| i.kind == kind && i.index == index)
    }
    pub fn export(&self, name: &str) -> Option<&Export> {
        self.exports.iter().find(|e| e.name == name)
    }
}

type R<T> = Result<T, String>;
fn e<T>(x: impl std::fmt::Display) -> R<T> {
    Err(x.to_string())
}
fn rt(t: p::RefType) -> R<VT> {
    if t == p::RefType::FUNCREF {
        Ok(VT::FuncRef)
    } else if t == p::RefType::EXTERNREF {
        Ok(VT::ExternRef)
    } else {
        e("reference type")
    }
}
fn vt(t: p::ValType) -> R<VT> {
    Ok(match t {
        p::ValType::I32 => VT::I32,
        p::ValType::I64 => VT::I64,
        p::ValType::F32 => VT::F32,
        p::ValType::F64 => VT::F64,
        p::ValType::Ref(r) => rt(r)?,
        p::ValType::V128 => return e("v128"),
    })
}
fn tt(t: p::TableType) -> R<(VT, Limits)> {
    Ok((rt(t.element_type)?, Limits { min: t.initial, max: t.maximum }))
}
fn mt(t: p::MemoryType) -> Limits {
    Limits { min: t.initial, max: t.maximum }
}

pub fn decode_op(op: &p::Operator, types: &[FT]) -> R<Op> {
    use p::Operator as O;
    let bt = |b: &p::BlockType| -> R<FT> {
        Ok(match b {
            p::BlockType::Empty => FT::default(),
            p::BlockType::Type(t) => FT::new(&[], &[vt(*t)?]),
            p::BlockType::FuncType(i) => types.get(*i as usize).cloned().ok_or("type index")?,
        })
    };
    Ok(match op {
        O::Unreachable => Op::Unreachable,
        O::Nop => Op::Nop,
        O::Block { blockty } => Op::Block { ty: bt(blockty)?, end: 0 },
        O::Loop { blockty } => Op::Loop { ty: bt(blockty)?, end: 0 },
        O::If { blockty } => Op::If { ty: bt(blockty)?, els: None, end: 0 },
        O::Else => Op::Else { end: 0 },
        O::End => Op::End,
        O::Br { relative_depth } => Op::Br(*relative_depth),
        O::BrIf { relative_depth } => Op::BrIf(*relative_depth),
        O::BrTable { targets } => Op::BrTable(
            targets.targets().collect::<Result<Vec<_>, _>>().map_err(|x| x.to_string())?,
            targets.default(),
        ),
        O::Return => Op::Return,
        O::Call { function_index } => Op::Call(*function_index),
        O::CallIndirect { type_index, table_index } => {
            Op::CallIndirect { ty: types.get(*type_index as usize).cloned().ok_or("type index")?, table: *table_index }
        }
        O::RefNull { hty } => match *hty {
            p::HeapType::FUNC => Op::RefNull(VT::FuncRef),
            p::HeapType::EXTERN => Op::RefNull(VT::ExternRef),
            _ => return e("heap type"),
        },
        O::RefIsNull => Op::RefIsNull,
        O::RefFunc { function_index } => Op::RefFunc(*function_index),
        O::Drop => Op::Drop,
        O::Select => Op::Select(None),
        O::TypedSelect { ty } => Op::Select(Some(vt(*ty)?)),
        O::LocalGet { local_index } => Op::LocalGet(*local_index),
        O::LocalSet { local_index } => Op::LocalSet(*local_index),
        O::LocalTee { local_index } => Op::LocalTee(*local_index),
        O::GlobalGet { global_index } => Op::GlobalGet(*global_index),
        O::GlobalSet { global_index } => Op::GlobalSet(*global_index),
        O::TableGet { table } => Op::TableGet(*table),
        O::TableSet { table } => Op::TableSet(*table),
        O::TableSize { table } => Op::TableSize(*table),
        O::TableGrow { table } => Op::TableGrow(*table),
        O::TableFill { table } => Op::TableFill(*table),
        O::TableCopy { dst_table, src_table } => Op::TableCopy { dst: *dst_table, src: *src_table },
        O::TableInit { elem_index, table } => Op::TableInit { table: *table, elem: *elem_index },
        O::ElemDrop { elem_index } => Op::ElemDrop(*elem_index),
        O::MemorySize { mem } => Op::MemorySize(*mem),
        O::MemoryGrow { mem } => Op::MemoryGrow(*mem),
        O::MemoryFill { mem } => Op::MemoryFill(*mem),
        O::MemoryCopy { dst_mem, src_mem } => Op::MemoryCopy { dst: *dst_mem, src: *src_mem },
        O::MemoryInit { data_index, mem } => Op::MemoryInit { mem: *mem, data: *data_index },
        O::DataDrop { data_index } => Op::DataDrop(*data_index),
        O::I32Const { value } => Op::Const(VT::I32, *value as u32 as u64),
        O::I64Const { value } => Op::Const(VT::I64, *value as u64),
        O::F32Const { value } => Op::Const(VT::F32, value.bits() as u64),
        O::F64Const { value } => Op::Const(VT::F64, value.bits()),
        other => {
            let text = format!("{other:?}");
            let name = text.split([' ', '{', '(']).next().unwrap_or("");
            match op_tables().get(name) {
                Some(('u', n)) => Op::Unary(*n),
                Some(('b', n)) => Op::Binary(*n),
                Some((k, n)) => {
                    let m = memarg(other).ok_or("memarg")?;
                    if *k == 'l' {
                        Op::Load(*n, m.offset, m.memory)
                    } else {
                        Op::Store(*n, m.offset, m.memory)
                    }
                }
                None => return e(format!("unsupported instruction {text}")),
            }
        }
    })
}
fn memarg(op: &p::Operator) -> Option<p::MemArg> {
    macro_rules! m { ($($n:ident)*) => { match op { $(p::Operator::$n { memarg } => Some(*memarg),)* _ => None } } }
    m!(I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32)
}
/// fills in the positions of `else` and `end`
pub fn link_ops(ops: &mut [Op]) -> R<()> {
    let mut open: Vec<(usize, Option<usize>)> = vec![];
    for i in 0..ops.len() {
        match &ops[i] {
            Op::Block { .. } | Op::Loop { .. } | Op::If { .. } => open.push((i, None)),
            Op::Else { .. } => open.last_mut().ok_or("else")?.1 = Some(i),
            Op::End => {
                let Some((b, els_at)) = open.pop() else {
                    if i + 1 != ops.len() {
                        return e("instructions after end");
                    }
                    return Ok(());
                };
                match &mut ops[b] {
                    Op::Block { end, .. } | Op::Loop { end, .. } => *end = i,
                    Op::If { els, end, .. } => {
                        *end = i;
                        *els = els_at;
                    }
                    _ => unreachable!(),
                }
                if let Some(x) = els_at {
                    ops[x] = Op::Else { end: i };
                }
            }
            _ => {}
        }
    }
    e("no final end")
}
fn const_expr(x: &p::ConstExpr, types: &[FT]) -> R<Vec<Op>> {
    let mut r = x.get_operators_reader();
    let mut v = vec![];
    while !r.eof() {
        let o = r.read().map_err(|x| x.to_string())?;
        v.push(decode_op(&o, types)?);
    }
    Ok(v)
}

pub fn decode(bytes: &[u8]) -> R<Module> {
    let mut m = Module::default();
    let mut types: Vec<FT> = vec![];
    let mut next = 0usize;
    let s = |x: p::BinaryReaderError| x.to_string();
    for payload in p::Parser::new(0).parse_all(bytes) {
        match payload.map_err(s)? {
            p::Payload::TypeSection(r) => {
                for t in r.into_iter_err_on_gc_types() {
                    let t = t.map_err(s)?;
                    types.push(FT {
                        params: t.params().iter().map(|t| vt(*t)).collect::<R<_>>()?,
                        results: t.results().iter().map(|t| vt(*t)).collect::<R<_>>()?,
                    });
                }
            }
            p::Payload::ImportSection(r) => {
                for i in r {
                    let i = i.map_err(s)?;
                    let (kind, index) = match i.ty {
                        p::TypeRef::Func(t) => {
                            m.funcs.push(Func { ty: types.get(t as usize).cloned().ok_or("type")?, body: None });
                            next = m.funcs.len();
                            (Kind::Func, m.funcs.len())
                        }
                        p::TypeRef::Table(t) => {
                            m.tables.push(tt(t)?);
                            (Kind::Table, m.tables.len())
                        }
                        p::TypeRef::Memory(t) => {
                            m.mems.push(mt(t));
                            (Kind::Mem, m.mems.len())
                        }
                        p::TypeRef::Global(t) => {
                            m.globals.push((vt(t.content_type)?, t.mutable, vec![]));
                            (Kind::Global, m.globals.len())
                        }
                        _ => return e("import kind"),
                    };
                    m.imports.push(Import { module: i.module.into(), name: i.name.into(), kind, index: index as u32 - 1 });
                }
            }
            p::Payload::FunctionSection(r) => {
                for t in r {
                    let t = t.map_err(s)?;
                    m.funcs.push(Func { ty: types.get(t as usize).cloned().ok_or("type")?, body: None });
                }
            }
            p::Payload::TableSection(r) => {
                for t in r {
                    m.tables.push(tt(t.map_err(s)?.ty)?);
                }
            }
            p::Payload::MemorySection(r) => {
                for t in r {
                    m.mems.push(mt(t.map_err(s)?));
                }
            }
            p::Payload::GlobalSection(r) => {
                for g in r {
                    let g = g.map_err(s)?;
                    m.globals.push((vt(g.ty.content_type)?, g.ty.mutable, const_expr(&g.init_expr, &types)?));
                }
            }
            p::Payload::ExportSection(r) => {
                for x in r {
                    let x = x.map_err(s)?;
                    let kind = match x.kind {
                        p::ExternalKind::Func => Kind::Func,
                        p::ExternalKind::Table => Kind::Table,
                        p::ExternalKind::Memory => Kind::Mem,
                        p::ExternalKind::Global => Kind::Global,
                        _ => return e("export kind"),
                    };
                    m.exports.push(Export { name: x.name.into(), kind, index: x.index });
                }
            }
            p::Payload::StartSection { func, .. } => m.start = Some(func),
            p::Payload::ElementSection(r) => {
                for x in r {
                    let x = x.map_err(s)?;
                    let (ty, init) = match x.items {
                        p::ElementItems::Functions(f) => (
                            VT::FuncRef,
                            f.into_iter().map(|i| i.map(|i| vec![Op::RefFunc(i), Op::End]).map_err(s)).collect::<R<Vec<_>>>()?,
                        ),
                        p::ElementItems::Expressions(t, es) => {
                            let mut v = vec![];
                            for x in es {
                                v.push(const_expr(&x.map_err(s)?, &types)?);
                            }
                            (rt(t)?, v)
                        }
                    };
                    let mode = match x.kind {
                        p::ElementKind::Passive => ElemMode::Passive,
                        p::ElementKind::Declared => ElemMode::Declared,
                        p::ElementKind::Active { table_index, offset_expr } => {
                            ElemMode::Active(table_index.unwrap_or(0), const_expr(&offset_expr, &types)?)
                        }
                    };
                    m.elems.push(Elem { ty, init, mode });
                }
            }
            p::Payload::DataSection(r) => {
                for d in r {
                    let d = d.map_err(s)?;
                    m.datas.push(Data {
                        bytes: d.data.to_vec(),
                        active: match d.kind {
                            p::DataKind::Passive => None,
                            p::DataKind::Active { memory_index, offset_expr } => {
                                Some((memory_index, const_expr(&offset_expr, &types)?))
                            }
                        },
                    });
                }
            }
            p::Payload::CodeSectionEntry(b) => {
                let mut locals = vec![];
                for l in b.get_locals_reader().map_err(s)? {
                    let (n, t) = l.map_err(s)?;
                    if n > 100_000 {
                        return e("locals");
                    }
                    locals.extend(std::iter::repeat_n(vt(t)?, n as usize));
                }
                let mut ops = vec![];
                let mut r = b.get_operators_reader().map_err(s)?;
                while !r.eof() {
                    let o = r.read().map_err(s)?;
                    ops.push(decode_op(&o, &types)?);
                }
                link_ops(&mut ops)?;
                m.funcs.get_mut(next).ok_or("code")?.body = Some(Body { locals, ops });
                next += 1;
            }
            _ => {}
        }
    }
    Ok(m)
}

/// Valid as WebAssembly (2.0 features plus multiple memories, no SIMD)?
pub fn validate(bytes: &[u8]) -> Result<(), String> {
    let f = p::WasmFeatures::MUTABLE_GLOBAL
        | p::WasmFeatures::SATURATING_FLOAT_TO_INT
        | p::WasmFeatures::SIGN_EXTENSION
        | p::WasmFeatures::REFERENCE_TYPES
        | p::WasmFeatures::MULTI_VALUE
        | p::WasmFeatures::BULK_MEMORY
        | p::WasmFeatures::FLOATS
        | p::WasmFeatures::GC_TYPES
        | p::WasmFeatures::MULTI_MEMORY;
    p::Validator::new_with_features(f).validate_all(bytes).map(|_| ()).map_err(|x| x.to_string())
}
