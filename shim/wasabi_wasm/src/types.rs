//! Types of the instructions of a function body.
use crate::*;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InferredInstructionType {
    Unreachable,
    Reachable(FunctionType),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ErrorInner {
    pub message: String,
    pub instruction_idx: Option<Idx<Instr>>,
    pub instruction: Option<Instr>,
    pub function_name: Option<String>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TypeError(pub Box<ErrorInner>);
impl std::fmt::Display for TypeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "type error: {}", self.0.message)
    }
}
impl std::error::Error for TypeError {}
fn err<T>(m: impl std::fmt::Display) -> Result<T, TypeError> {
    Err(TypeError(Box::new(ErrorInner { message: m.to_string(), instruction_idx: None, instruction: None, function_name: None })))
}

struct Frame {
    is_loop: bool,
    is_if: bool,
    type_: FunctionType,
    height: usize,
    unreachable: bool,
}
pub struct TypeChecker<'m> {
    module: &'m Module,
    locals: Vec<ValType>,
    results: &'static [ValType],
    stack: Vec<Option<ValType>>,
    frames: Vec<Frame>,
}

fn char_type(c: &str) -> ValType {
    match c {
        "I32" => ValType::I32,
        "I64" => ValType::I64,
        "F32" => ValType::F32,
        _ => ValType::F64,
    }
}
fn unary_type(op: UnaryOp) -> FunctionType {
    let n = format!("{op:?}");
    let own = char_type(&n[..3]);
    let input = match op {
        UnaryOp::I32Eqz => ValType::I32,
        UnaryOp::I64Eqz => return FunctionType::new(&[ValType::I64], &[ValType::I32]),
        _ => ["I32", "I64", "F32", "F64"].into_iter().find(|t| n[3..].contains(t)).map_or(own, char_type),
    };
    FunctionType::new(&[input], &[own])
}
fn binary_type(op: BinaryOp) -> FunctionType {
    let n = format!("{op:?}");
    let t = char_type(&n[..3]);
    let rest = &n[3..];
    let cmp = ["Eq", "Ne", "LtS", "LtU", "GtS", "GtU", "LeS", "LeU", "GeS", "GeU", "Lt", "Gt", "Le", "Ge"].contains(&rest);
    FunctionType::new(&[t, t], &[if cmp { ValType::I32 } else { t }])
}

impl<'m> TypeChecker<'m> {
    pub fn begin_function(function: &Function, module: &'m Module) -> Self {
        let mut locals: Vec<ValType> = function.type_.inputs().to_vec();
        locals.extend(function.locals().map(|(_, l)| l.type_));
        let results = function.type_.results();
        TypeChecker {
            module,
            locals,
            results,
            stack: vec![],
            frames: vec![Frame { is_loop: false, is_if: false, type_: FunctionType::new(&[], results), height: 0, unreachable: false }],
        }
    }
    fn pop_any(&mut self) -> Result<Option<ValType>, TypeError> {
        let f = self.frames.last().ok_or(()).or_else(|()| err("no frame"))?;
        if self.stack.len() == f.height {
            return if f.unreachable { Ok(None) } else { err("empty stack") };
        }
        Ok(self.stack.pop().unwrap())
    }
    fn pop(&mut self, t: ValType) -> Result<(), TypeError> {
        match self.pop_any()? {
            Some(got) if got != t => err(format!("expected {t:?}, got {got:?}")),
            _ => Ok(()),
        }
    }
    fn pops(&mut self, ts: &[ValType]) -> Result<(), TypeError> {
        for t in ts.iter().rev() {
            self.pop(*t)?;
        }
        Ok(())
    }
    fn pushes(&mut self, ts: &[ValType]) {
        self.stack.extend(ts.iter().map(|t| Some(*t)));
    }
    fn unreachable(&mut self) {
        let f = self.frames.last_mut().unwrap();
        f.unreachable = true;
        self.stack.truncate(f.height);
    }
    fn label(&self, l: Label) -> Result<&'static [ValType], TypeError> {
        let n = self.frames.len();
        match n.checked_sub(1 + l.to_usize()) {
            Some(i) => Ok(if self.frames[i].is_loop { self.frames[i].type_.inputs() } else { self.frames[i].type_.results() }),
            None => err(format!("label {l:?} out of range")),
        }
    }
    fn simple(&mut self, t: FunctionType) -> Result<FunctionType, TypeError> {
        self.pops(t.inputs())?;
        self.pushes(t.results());
        Ok(t)
    }

    pub fn check_next_instr(&mut self, instr: &Instr) -> Result<InferredInstructionType, TypeError> {
        if self.frames.is_empty() {
            return err("instruction after the end of the function");
        }
        let was_unreachable = self.frames.last().unwrap().unreachable;
        let t = self.step(instr)?;
        let now_unreachable_end = matches!(instr, Instr::End | Instr::Else) && self.frames.last().is_some_and(|f| f.unreachable);
        Ok(if now_unreachable_end || (was_unreachable && !matches!(instr, Instr::End | Instr::Else)) {
            InferredInstructionType::Unreachable
        } else {
            InferredInstructionType::Reachable(t)
        })
    }

    fn step(&mut self, instr: &Instr) -> Result<FunctionType, TypeError> {
        use ValType::*;
        let ft = FunctionType::new;
        let simple = match instr {
            Instr::Unreachable => {
                self.unreachable();
                return Ok(FunctionType::empty());
            }
            Instr::Nop => FunctionType::empty(),
            Instr::Block(t) | Instr::Loop(t) | Instr::If(t) => {
                let is_if = matches!(instr, Instr::If(_));
                if is_if {
                    self.pop(I32)?;
                }
                self.pops(t.inputs())?;
                self.frames.push(Frame { is_loop: matches!(instr, Instr::Loop(_)), is_if, type_: *t, height: self.stack.len(), unreachable: false });
                self.pushes(t.inputs());
                return Ok(if is_if { ft(&[I32], &[]) } else { FunctionType::empty() });
            }
            Instr::Else | Instr::End => {
                let t = self.frames.last().unwrap().type_;
                self.pops(t.results())?;
                let f = self.frames.pop().unwrap();
                if self.stack.len() != f.height {
                    return err("superfluous values at the end of a block");
                }
                if matches!(instr, Instr::Else) {
                    if !f.is_if {
                        return err("else without if");
                    }
                    self.frames.push(Frame { is_loop: false, is_if: false, type_: t, height: self.stack.len(), unreachable: false });
                    self.pushes(t.inputs());
                    return Ok(FunctionType::empty());
                }
                self.pushes(t.results());
                return Ok(ft(&[], t.results()));
            }
            Instr::Br(l) => {
                let ts = self.label(*l)?;
                self.pops(ts)?;
                self.unreachable();
                return Ok(ft(ts, &[]));
            }
            Instr::BrIf(l) => {
                let ts = self.label(*l)?;
                self.pop(I32)?;
                self.pops(ts)?;
                self.pushes(ts);
                return Ok(ft(&[I32], &[]));
            }
            Instr::BrTable { table, default } => {
                self.pop(I32)?;
                let ts = self.label(*default)?;
                for l in table.iter() {
                    let other = self.label(*l)?;
                    if other.len() != ts.len() {
                        return err("br_table arities differ");
                    }
                    let saved = (self.stack.clone(), self.stack.len());
                    self.pops(other)?;
                    self.stack = saved.0;
                }
                self.pops(ts)?;
                self.unreachable();
                return Ok(ft(&[I32], &[]));
            }
            Instr::Return => {
                self.pops(self.results)?;
                let ts = self.results;
                self.unreachable();
                return Ok(ft(ts, &[]));
            }
            Instr::Call(f) => match self.module.functions.get(f.to_usize()) {
                Some(f) => f.type_,
                None => return err("function index out of range"),
            },
            Instr::CallIndirect(t, _) => {
                self.pop(I32)?;
                self.simple(*t)?;
                let mut i = t.inputs().to_vec();
                i.push(I32);
                return Ok(ft(&i, t.results()));
            }
            Instr::RefNull(t) => ft(&[], &[Ref(*t)]),
            Instr::RefFunc(_) => ft(&[], &[Ref(RefType::FuncRef)]),
            Instr::RefIsNull => {
                let t = self.pop_any()?;
                self.pushes(&[I32]);
                return Ok(ft(&t.into_iter().collect::<Vec<_>>(), &[I32]));
            }
            Instr::Drop => {
                let t = self.pop_any()?;
                return Ok(ft(&t.into_iter().collect::<Vec<_>>(), &[]));
            }
            Instr::Select => {
                self.pop(I32)?;
                let a = self.pop_any()?;
                let b = self.pop_any()?;
                let t = a.or(b);
                if a.is_some() && b.is_some() && a != b {
                    return err("select of different types");
                }
                self.stack.push(t);
                let t: Vec<_> = t.into_iter().collect();
                return Ok(ft(&[&t[..], &t[..], &[I32]].concat(), &t));
            }
            Instr::TypedSelect(t) => ft(&[*t, *t, I32], &[*t]),
            Instr::Local(op, l) => {
                let t = match self.locals.get(l.to_usize()) {
                    Some(t) => *t,
                    None => return err("local index out of range"),
                };
                match op {
                    LocalOp::Get => ft(&[], &[t]),
                    LocalOp::Set => ft(&[t], &[]),
                    LocalOp::Tee => ft(&[t], &[t]),
                }
            }
            Instr::Global(op, g) => {
                let t = match self.module.globals.get(g.to_usize()) {
                    Some(g) => g.type_.0,
                    None => return err("global index out of range"),
                };
                match op {
                    GlobalOp::Get => ft(&[], &[t]),
                    GlobalOp::Set => ft(&[t], &[]),
                }
            }
            Instr::TableGet(t) => ft(&[I32], &[self.table(*t)?]),
            Instr::TableSet(t) => ft(&[I32, self.table(*t)?], &[]),
            Instr::TableSize(_) => ft(&[], &[I32]),
            Instr::TableGrow(t) => ft(&[self.table(*t)?, I32], &[I32]),
            Instr::TableFill(t) => ft(&[I32, self.table(*t)?, I32], &[]),
            Instr::TableCopy(..) | Instr::TableInit(..) | Instr::MemoryFill | Instr::MemoryCopy | Instr::MemoryInit(_) => ft(&[I32, I32, I32], &[]),
            Instr::ElemDrop(_) | Instr::DataDrop(_) => FunctionType::empty(),
            Instr::Load(op, _) => ft(&[I32], &[char_type(&format!("{op:?}")[..3])]),
            Instr::Store(op, _) => ft(&[I32, char_type(&format!("{op:?}")[..3])], &[]),
            Instr::MemorySize(_) => ft(&[], &[I32]),
            Instr::MemoryGrow(_) => ft(&[I32], &[I32]),
            Instr::Const(v) => ft(
                &[],
                &[match v {
                    Val::I32(_) => I32,
                    Val::I64(_) => I64,
                    Val::F32(_) => F32,
                    Val::F64(_) => F64,
                }],
            ),
            Instr::Unary(op) => unary_type(*op),
            Instr::Binary(op) => binary_type(*op),
        };
        self.simple(simple)
    }
    fn table(&self, t: Idx<Table>) -> Result<ValType, TypeError> {
        match self.module.tables.get(t.to_usize()) {
            Some(t) => Ok(ValType::Ref(t.ref_type)),
            None => err("table index out of range"),
        }
    }
}
