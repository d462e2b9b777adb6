//! Stand-in for `wasabi_wasm` (a git dependency that cannot be fetched here): the module
//! representation, parser, encoder and instruction typing that /repo builds on.
mod decode;
mod encode;
pub mod types;

use std::collections::HashSet;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::sync::Mutex;

#[derive(Debug, thiserror::Error)]
#[error("parse error: {0}")]
pub struct ParseError(pub String);
#[derive(Debug, thiserror::Error)]
#[error("encode error: {0}")]
pub struct EncodeError(pub String);
#[derive(Debug, Clone, Default)]
pub struct Offsets;
#[derive(Debug, Clone, Default)]
pub struct UnsupportedExtensions;

// ---------------------------------------------------------------- indices
pub struct Idx<T>(u32, PhantomData<fn() -> T>);
impl<T> Idx<T> {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl<T> Clone for Idx<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Idx<T> {}
impl<T> PartialEq for Idx<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for Idx<T> {}
impl<T> Hash for Idx<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<T> PartialOrd for Idx<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Idx<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> fmt::Debug for Idx<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let n = std::any::type_name::<T>();
        write!(f, "{} {}", n.rsplit("::").next().unwrap_or(n), self.0)
    }
}
impl<T> From<u32> for Idx<T> {
    fn from(v: u32) -> Self {
        Idx(v, PhantomData)
    }
}
impl<T> From<usize> for Idx<T> {
    fn from(v: usize) -> Self {
        Idx(u32::try_from(v).expect("index fits u32"), PhantomData)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Label(u32);
impl Label {
    pub fn to_u32(self) -> u32 {
        self.0
    }
    pub fn to_usize(self) -> usize {
        self.0 as usize
    }
}
impl fmt::Debug for Label {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Label {}", self.0)
    }
}
impl From<u32> for Label {
    fn from(v: u32) -> Self {
        Label(v)
    }
}
impl From<usize> for Label {
    fn from(v: usize) -> Self {
        Label(u32::try_from(v).expect("label fits u32"))
    }
}

// ---------------------------------------------------------------- types
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum RefType {
    FuncRef,
    ExternRef,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ValType {
    I32,
    I64,
    F32,
    F64,
    Ref(RefType),
}
impl ValType {
    /// # Panics
    /// For reference types.
    pub fn zero(self) -> Val {
        match self {
            ValType::I32 => Val::I32(0),
            ValType::I64 => Val::I64(0),
            ValType::F32 => Val::F32(F32(0)),
            ValType::F64 => Val::F64(F64(0)),
            ValType::Ref(_) => panic!("no zero for reference types"),
        }
    }
}

#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct FtInner {
    inputs: Box<[ValType]>,
    results: Box<[ValType]>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FunctionType(&'static FtInner);
static TYPES: Mutex<Option<HashSet<&'static FtInner>>> = Mutex::new(None);
impl FunctionType {
    pub fn new(inputs: &[ValType], results: &[ValType]) -> Self {
        let key = FtInner { inputs: inputs.into(), results: results.into() };
        let mut t = TYPES.lock().unwrap_or_else(|e| e.into_inner());
        let t = t.get_or_insert_with(HashSet::new);
        if let Some(v) = t.get(&key) {
            return FunctionType(v);
        }
        let v: &'static FtInner = Box::leak(Box::new(key));
        t.insert(v);
        FunctionType(v)
    }
    pub fn empty() -> Self {
        Self::new(&[], &[])
    }
    pub fn inputs(&self) -> &'static [ValType] {
        &self.0.inputs
    }
    pub fn results(&self) -> &'static [ValType] {
        &self.0.results
    }
}
impl fmt::Debug for FunctionType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} -> {:?}", self.0.inputs, self.0.results)
    }
}
impl fmt::Display for FunctionType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

/// Bits of a float, so that NaN payloads survive and equality is bitwise
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F32(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct F64(pub u64);
impl fmt::Debug for F32 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", f32::from_bits(self.0))
    }
}
impl fmt::Debug for F64 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", f64::from_bits(self.0))
    }
}
impl From<f32> for F32 {
    fn from(v: f32) -> Self {
        F32(v.to_bits())
    }
}
impl From<f64> for F64 {
    fn from(v: f64) -> Self {
        F64(v.to_bits())
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    I32(i32),
    I64(i64),
    F32(F32),
    F64(F64),
}

// ---------------------------------------------------------------- operators
macro_rules! ops {
    ($name:ident: $($op:ident)*) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum $name { $($op),* }
    };
}
macro_rules! unary_ops { ($m:ident $($extra:tt)*) => { $m! { $($extra)*
    I32Eqz I64Eqz I32Clz I32Ctz I32Popcnt I64Clz I64Ctz I64Popcnt
    F32Abs F32Neg F32Ceil F32Floor F32Trunc F32Nearest F32Sqrt
    F64Abs F64Neg F64Ceil F64Floor F64Trunc F64Nearest F64Sqrt
    I32WrapI64 I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U
    I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U
    I64ExtendI32S I64ExtendI32U I64TruncF32S I64TruncF32U I64TruncF64S I64TruncF64U
    I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U
    F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32DemoteF64
    F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64PromoteF32
    I32ReinterpretF32 I64ReinterpretF64 F32ReinterpretI32 F64ReinterpretI64
    I32Extend8S I32Extend16S I64Extend8S I64Extend16S I64Extend32S
} } }
macro_rules! binary_ops { ($m:ident $($extra:tt)*) => { $m! { $($extra)*
    I32Eq I32Ne I32LtS I32LtU I32GtS I32GtU I32LeS I32LeU I32GeS I32GeU
    I64Eq I64Ne I64LtS I64LtU I64GtS I64GtU I64LeS I64LeU I64GeS I64GeU
    F32Eq F32Ne F32Lt F32Gt F32Le F32Ge F64Eq F64Ne F64Lt F64Gt F64Le F64Ge
    I32Add I32Sub I32Mul I32DivS I32DivU I32RemS I32RemU I32And I32Or I32Xor I32Shl I32ShrS I32ShrU I32Rotl I32Rotr
    I64Add I64Sub I64Mul I64DivS I64DivU I64RemS I64RemU I64And I64Or I64Xor I64Shl I64ShrS I64ShrU I64Rotl I64Rotr
    F32Add F32Sub F32Mul F32Div F32Min F32Max F32Copysign
    F64Add F64Sub F64Mul F64Div F64Min F64Max F64Copysign
} } }
macro_rules! load_ops { ($m:ident $($extra:tt)*) => { $m! { $($extra)*
    I32Load I64Load F32Load F64Load I32Load8S I32Load8U I32Load16S I32Load16U
    I64Load8S I64Load8U I64Load16S I64Load16U I64Load32S I64Load32U
} } }
macro_rules! store_ops { ($m:ident $($extra:tt)*) => { $m! { $($extra)*
    I32Store I64Store F32Store F64Store I32Store8 I32Store16 I64Store8 I64Store16 I64Store32
} } }
pub(crate) use {binary_ops, load_ops, store_ops, unary_ops};
unary_ops!(ops UnaryOp:);
binary_ops!(ops BinaryOp:);
load_ops!(ops LoadOp:);
store_ops!(ops StoreOp:);
ops!(LocalOp: Get Set Tee);
ops!(GlobalOp: Get Set);

pub trait MemoryOp: Copy {
    fn natural_alignment_exp(self) -> u8;
}
impl MemoryOp for LoadOp {
    fn natural_alignment_exp(self) -> u8 {
        use LoadOp::*;
        match self {
            I32Load8S | I32Load8U | I64Load8S | I64Load8U => 0,
            I32Load16S | I32Load16U | I64Load16S | I64Load16U => 1,
            I32Load | F32Load | I64Load32S | I64Load32U => 2,
            I64Load | F64Load => 3,
        }
    }
}
impl MemoryOp for StoreOp {
    fn natural_alignment_exp(self) -> u8 {
        use StoreOp::*;
        match self {
            I32Store8 | I64Store8 => 0,
            I32Store16 | I64Store16 => 1,
            I32Store | F32Store | I64Store32 => 2,
            I64Store | F64Store => 3,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Memarg {
    pub alignment_exp: u8,
    pub offset: u32,
}
impl Memarg {
    pub fn default<T: MemoryOp>(op: T) -> Self {
        Memarg { alignment_exp: op.natural_alignment_exp(), offset: 0 }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Instr {
    Unreachable,
    Nop,
    Block(FunctionType),
    Loop(FunctionType),
    If(FunctionType),
    Else,
    End,
    Br(Label),
    BrIf(Label),
    BrTable { table: Box<[Label]>, default: Label },
    Return,
    Call(Idx<Function>),
    CallIndirect(FunctionType, Idx<Table>),
    RefNull(RefType),
    RefIsNull,
    RefFunc(Idx<Function>),
    Drop,
    Select,
    TypedSelect(ValType),
    Local(LocalOp, Idx<Local>),
    Global(GlobalOp, Idx<Global>),
    TableGet(Idx<Table>),
    TableSet(Idx<Table>),
    TableSize(Idx<Table>),
    TableGrow(Idx<Table>),
    TableFill(Idx<Table>),
    TableCopy(Idx<Table>, Idx<Table>),
    TableInit(Idx<Table>, Idx<Element>),
    ElemDrop(Idx<Element>),
    Load(LoadOp, Memarg),
    Store(StoreOp, Memarg),
    MemorySize(Idx<Memory>),
    MemoryGrow(Idx<Memory>),
    MemoryFill,
    MemoryCopy,
    MemoryInit(Idx<Data>),
    DataDrop(Idx<Data>),
    Const(Val),
    Unary(UnaryOp),
    Binary(BinaryOp),
}
pub type Expr = Vec<Instr>;

// ---------------------------------------------------------------- module
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ImportOrPresent<T> {
    Import(String, String),
    Present(T),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Local {
    pub type_: ValType,
    pub name: Option<String>,
}
impl Local {
    pub fn new(type_: ValType) -> Self {
        Local { type_, name: None }
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Code {
    pub locals: Vec<Local>,
    pub body: Expr,
}
impl Code {
    pub fn new() -> Self {
        Code::default()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Function {
    pub type_: FunctionType,
    pub code: ImportOrPresent<Code>,
    pub export: Vec<String>,
    pub name: Option<String>,
}
impl Function {
    pub fn new(type_: FunctionType, code: Code, export: Vec<String>) -> Self {
        Function { type_, code: ImportOrPresent::Present(code), export, name: None }
    }
    pub fn new_imported(type_: FunctionType, module: String, name: String, export: Vec<String>) -> Self {
        Function { type_, code: ImportOrPresent::Import(module, name), export, name: None }
    }
    pub fn code(&self) -> Option<&Code> {
        match &self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn code_mut(&mut self) -> Option<&mut Code> {
        match &mut self.code {
            ImportOrPresent::Present(c) => Some(c),
            ImportOrPresent::Import(..) => None,
        }
    }
    pub fn import(&self) -> Option<(&str, &str)> {
        match &self.code {
            ImportOrPresent::Import(m, n) => Some((m, n)),
            ImportOrPresent::Present(_) => None,
        }
    }
    pub fn param_count(&self) -> usize {
        self.type_.inputs().len()
    }
    pub fn local_count(&self) -> usize {
        self.code().map_or(0, |c| c.locals.len())
    }
    pub fn instr_count(&self) -> usize {
        self.code().map_or(0, |c| c.body.len())
    }
    pub fn instrs(&self) -> &[Instr] {
        self.code().map_or(&[], |c| c.body.as_slice())
    }
    pub fn params(&self) -> impl Iterator<Item = (Idx<Local>, ValType)> + '_ {
        self.type_.inputs().iter().enumerate().map(|(i, t)| (Idx::from(i), *t))
    }
    /// # Panics
    /// For an index the function does not have.
    pub fn param_or_local_type(&self, idx: Idx<Local>) -> ValType {
        let n = self.param_count();
        match self.type_.inputs().get(idx.to_usize()) {
            Some(t) => *t,
            None => self.code().expect("a local of an imported function").locals[idx.to_usize() - n].type_,
        }
    }
    /// non-parameter locals
    pub fn locals(&self) -> impl Iterator<Item = (Idx<Local>, &Local)> + '_ {
        let n = self.param_count();
        self.code().into_iter().flat_map(|c| c.locals.iter()).enumerate().map(move |(i, l)| (Idx::from(i + n), l))
    }
    /// # Panics
    /// For imported functions.
    pub fn add_fresh_local(&mut self, type_: ValType) -> Idx<Local> {
        let n = self.param_count();
        let locals = &mut self.code_mut().expect("cannot add a local to an imported function").locals;
        locals.push(Local::new(type_));
        Idx::from(n + locals.len() - 1)
    }
    pub fn add_fresh_locals(&mut self, types: &[ValType]) -> Vec<Idx<Local>> {
        types.iter().map(|t| self.add_fresh_local(*t)).collect()
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Limits {
    pub initial_size: u32,
    pub max_size: Option<u32>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Table {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub ref_type: RefType,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Memory {
    pub limits: Limits,
    pub import: Option<(String, String)>,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Mutability {
    Const,
    Mut,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct GlobalType(pub ValType, pub Mutability);
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Global {
    pub type_: GlobalType,
    pub init: ImportOrPresent<Expr>,
    pub export: Vec<String>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum ElementMode {
    Passive,
    Active { table: Idx<Table>, offset: Expr },
    Declarative,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Element {
    pub typ: RefType,
    pub init: Vec<Expr>,
    pub mode: ElementMode,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum DataMode {
    Passive,
    Active { memory: Idx<Memory>, offset: Expr },
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: DataMode,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct CustomSection {
    pub name: String,
    pub content: Vec<u8>,
}
#[derive(Debug, Clone, Default)]
pub struct Module {
    pub name: Option<String>,
    pub functions: Vec<Function>,
    pub globals: Vec<Global>,
    pub tables: Vec<Table>,
    pub memories: Vec<Memory>,
    pub datas: Vec<Data>,
    pub elements: Vec<Element>,
    pub start: Option<Idx<Function>>,
    pub custom_sections: Vec<CustomSection>,
}
impl Module {
    pub fn new() -> Self {
        Module::default()
    }
    pub fn from_bytes(bytes: &[u8]) -> Result<(Self, Offsets, UnsupportedExtensions), ParseError> {
        decode::decode(bytes).map(|m| (m, Offsets, UnsupportedExtensions))
    }
    pub fn to_bytes(&self) -> Result<Vec<u8>, EncodeError> {
        encode::encode(self)
    }
    pub fn function(&self, idx: Idx<Function>) -> &Function {
        &self.functions[idx.to_usize()]
    }
    pub fn function_mut(&mut self, idx: Idx<Function>) -> &mut Function {
        &mut self.functions[idx.to_usize()]
    }
    pub fn functions(&self) -> impl Iterator<Item = (Idx<Function>, &Function)> {
        self.functions.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn functions_mut(&mut self) -> impl Iterator<Item = (Idx<Function>, &mut Function)> {
        self.functions.iter_mut().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn global(&self, idx: Idx<Global>) -> &Global {
        &self.globals[idx.to_usize()]
    }
    pub fn globals(&self) -> impl Iterator<Item = (Idx<Global>, &Global)> {
        self.globals.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn global_mut(&mut self, idx: Idx<Global>) -> &mut Global {
        &mut self.globals[idx.to_usize()]
    }
    pub fn table_mut(&mut self, idx: Idx<Table>) -> &mut Table {
        &mut self.tables[idx.to_usize()]
    }
    pub fn memory_mut(&mut self, idx: Idx<Memory>) -> &mut Memory {
        &mut self.memories[idx.to_usize()]
    }
    pub fn add_global(&mut self, type_: ValType, mut_: Mutability, init: Vec<Instr>) -> Idx<Global> {
        self.globals.push(Global { type_: GlobalType(type_, mut_), init: ImportOrPresent::Present(init), export: Vec::new() });
        Idx::from(self.globals.len() - 1)
    }
    pub fn table(&self, idx: Idx<Table>) -> &Table {
        &self.tables[idx.to_usize()]
    }
    pub fn tables(&self) -> impl Iterator<Item = (Idx<Table>, &Table)> {
        self.tables.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn memory(&self, idx: Idx<Memory>) -> &Memory {
        &self.memories[idx.to_usize()]
    }
    pub fn memories(&self) -> impl Iterator<Item = (Idx<Memory>, &Memory)> {
        self.memories.iter().enumerate().map(|(i, f)| (i.into(), f))
    }
    pub fn add_function(&mut self, type_: FunctionType, locals: Vec<ValType>, body: Vec<Instr>) -> Idx<Function> {
        self.functions.push(Function::new(type_, Code { locals: locals.into_iter().map(Local::new).collect(), body }, Vec::new()));
        Idx::from(self.functions.len() - 1)
    }
    pub fn add_function_import(&mut self, type_: FunctionType, module: String, name: String) -> Idx<Function> {
        self.functions.push(Function::new_imported(type_, module, name, Vec::new()));
        Idx::from(self.functions.len() - 1)
    }
}
