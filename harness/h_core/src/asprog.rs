//! Analyses written as aspects, generated to AssemblyScript and run by standin/as_emu.js with
//! guest code that records what it is given.
use crate::aslib::*;
use crate::run::*;
use crate::traps::*;
use crate::wasm::*;
use serde_json::{json, Value};
use vcommon::*;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation_lang_assemblyscript::compile::AssemblyScript;
use wastrumentation_lang_assemblyscript::generate::analysis::WaspAnalysisSpec;

pub const OPEN: &str = ">>>GUEST>>>";
pub const CLOSE: &str = "<<<GUEST<<<";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Apply,
    IfThen,
    IfThenElse,
    Select,
    BrIf,
    BrTable,
    CallPre,
    CallPost,
    IndPre,
    IndPost,
    BlockPre,
    BlockPost,
    LoopPre,
    LoopPost,
}
pub const EVS: [Ev; 14] = [
    Ev::Apply, Ev::IfThen, Ev::IfThenElse, Ev::Select, Ev::BrIf, Ev::BrTable, Ev::CallPre, Ev::CallPost, Ev::IndPre, Ev::IndPost,
    Ev::BlockPre, Ev::BlockPost, Ev::LoopPre, Ev::LoopPost,
];
impl Ev {
    pub fn export(self) -> &'static str {
        match self {
            Ev::Apply => APPLY,
            Ev::IfThen => "specialized_if_then_k",
            Ev::IfThenElse => "specialized_if_then_else_k",
            Ev::Select => "specialized_select",
            Ev::BrIf => "specialized_br_if",
            Ev::BrTable => "specialized_br_table",
            Ev::CallPre => "specialized_call_pre",
            Ev::CallPost => "specialized_call_post",
            Ev::IndPre => "specialized_call_indirect_pre",
            Ev::IndPost => "specialized_call_indirect_post",
            Ev::BlockPre => "trap_block_pre",
            Ev::BlockPost => "trap_block_post",
            Ev::LoopPre => "trap_loop_pre",
            Ev::LoopPost => "trap_loop_post",
        }
    }
    pub fn ft(self) -> FT {
        match self {
            Ev::Apply => FT::new(&APPLY_FT.0, &APPLY_FT.1),
            e => by_name(e.export()).expect("trap").ft(),
        }
    }
    /// the words before the formal parameters, and the types of those
    fn form(self) -> (&'static str, &'static [&'static str]) {
        match self {
            Ev::Apply => ("apply", &["WasmFunction", "?", "?"]),
            Ev::IfThen => ("if_then", &["Condition"]),
            Ev::IfThenElse => ("if_then_else", &["Condition"]),
            Ev::Select => ("select", &["Condition"]),
            Ev::BrIf => ("br_if", &["Condition", "Label"]),
            Ev::BrTable => ("br_table", &["Target", "Default"]),
            Ev::CallPre => ("call pre", &["FunctionIndex"]),
            Ev::CallPost => ("call post", &["FunctionIndex"]),
            Ev::IndPre => ("call_indirect pre", &["FunctionTable", "FunctionTableIndex"]),
            Ev::IndPost => ("call_indirect post", &["FunctionTable"]),
            Ev::BlockPre => ("block pre", &[]),
            Ev::BlockPost => ("block post", &[]),
            Ev::LoopPre => ("loop pre", &[]),
            Ev::LoopPost => ("loop post", &[]),
        }
    }
    /// fields of the formal parameters and what they mean: (parameter, field, meaning)
    fn fields(self) -> &'static [(usize, &'static str, Means)] {
        use Means::*;
        match self {
            Ev::IfThen => &[(0, "is_then", Taken(0)), (0, "is_skip", NotTaken(0)), (0, "continue_then", Const(1)), (0, "continue_skip", Const(0))],
            Ev::IfThenElse | Ev::Select => {
                &[(0, "is_then", Taken(0)), (0, "is_else", NotTaken(0)), (0, "continue_then", Const(1)), (0, "continue_else", Const(0))]
            }
            Ev::BrIf => &[
                (0, "is_branch", Taken(0)),
                (0, "is_skip", NotTaken(0)),
                (0, "continue_branch", Const(1)),
                (0, "continue_skip", Const(0)),
                (1, "label", Arg(1)),
            ],
            Ev::BrTable => &[(0, "target", Arg(0)), (1, "deflt", Arg(2))],
            Ev::CallPre | Ev::CallPost | Ev::IndPost => &[(0, "index", Arg(0))],
            // the interface passes the index in the table first, then the table
            Ev::IndPre => &[(0, "index", Arg(1)), (1, "index", Arg(0))],
            _ => &[],
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Means {
    Taken(usize),
    NotTaken(usize),
    Const(i32),
    Arg(usize),
}
impl Means {
    fn of(self, args: &[u64]) -> i32 {
        match self {
            Means::Taken(i) => i32::from(args[i] as u32 != 0),
            Means::NotTaken(i) => i32::from(args[i] as u32 == 0),
            Means::Const(c) => c,
            Means::Arg(i) => args[i] as u32 as i32,
        }
    }
}
/// What guest code does, as text and as meaning.
#[derive(Clone, Debug)]
enum Step {
    Noise(String),
    Note { tag: i32, param: usize, field: usize },
    Tick { tag: i32 },
    Helper { tag: i32, x: i32 },
    Return(i32),
    ReturnField(usize),
    ReturnIf { test: usize, value: usize },
    // application only
    Who { tag: i32 },
    Len { tag: i32, of: Side },
    Dump { tag: i32, of: Side },
    Put { of: Side, at: i32, ty: VT, bits: u64 },
    PutAny { of: Side, at: i32, ty: VT, bits: u64 },
    Peek { tag: i32, of: Side, at: i32, ty: VT },
    Base,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Side {
    Args,
    Ress,
}
pub struct Advice {
    ev: Ev,
    names: Vec<String>,
    types: Vec<String>,
    steps: Vec<Step>,
    pub body: String,
}
pub const PRELUDE: &str = r#"
@external("verif", "note")
declare function verif_note(tag: i32, v: i32): void;
@external("verif", "note_f32")
declare function verif_note_f32(tag: i32, v: f32): void;
@external("verif", "note_i64")
declare function verif_note_i64(tag: i32, v: i64): void;
@external("verif", "note_f64")
declare function verif_note_f64(tag: i32, v: f64): void;
function g_any(tag: i32, t: i32, a: MutDynArgs, at: i32): void {
    if (t == 0) verif_note(tag, a.get<i32>(at));
    else if (t == 1) verif_note_f32(tag, a.get<f32>(at));
    else if (t == 2) verif_note_i64(tag, a.get<i64>(at));
    else verif_note_f64(tag, a.get<f64>(at));
}
"#;
/// alphabetic names the generated programs use themselves: values first, then classes
pub const RESERVED: [&str; 22] = [
    "argsResults", "argc", "resc", "sigv", "sigtypv", "WasmFunction", "MutDynArgs", "MutDynRess", "MutDynArgsResults", "DynValues", "WasmType",
    "FunctionIndex", "FunctionTable", "FunctionTableIndex", "ParameterIfThenCondition", "ParameterIfThenElseCondition",
    "ParameterBrIfCondition", "ParameterBrIfLabel", "ParameterBrTableTarget", "ParameterBrTableDefault", "ParameterSelectCondition", "arity",
];
const WORDS: [&str; 80] = [
    "abstract", "any", "as", "async", "await", "boolean", "break", "case", "catch", "class", "const", "constructor", "continue", "debugger",
    "declare", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "from", "function", "get", "if",
    "implements", "import", "in", "instanceof", "interface", "is", "keyof", "let", "module", "namespace", "never", "new", "null", "number",
    "object", "of", "package", "private", "protected", "public", "readonly", "require", "return", "set", "static", "string", "super", "switch",
    "symbol", "this", "throw", "true", "try", "type", "typeof", "undefined", "unique", "unknown", "unmanaged", "var", "void", "while", "with",
    "yield", "load", "store", "select", "abort", "trace", "assert", "unreachable",
];
fn usable(n: &str) -> bool {
    !RESERVED.contains(&n) && !WORDS.contains(&n) && !matches!(n, "memory" | "sizeof" | "isInteger" | "isFloat" | "isSigned" | "isReference" | "reinterpret" | "changetype" | "NaN" | "Infinity" | "arguments" | "eval" | "Math" | "String" | "Array" | "Map" | "Set" | "Object" | "isNaN" | "isFinite" | "idof" | "nameof" | "offsetof" | "alignof" | "clz" | "ctz" | "popcnt" | "rotl" | "rotr" | "abs" | "max" | "min" | "ceil" | "floor" | "copysign" | "nearest" | "sqrt" | "trunc" | "add" | "sub" | "mul" | "div" | "rem" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" | "shl" | "shr" | "and" | "or" | "xor")
}
fn ident(r: &mut Rng) -> String {
    loop {
        let n: String = match r.below(3) {
            0 => r.pick(&["cond", "label", "target", "args", "results", "func", "f", "a", "r", "table", "index", "deflt", "condition", "ress"]).to_string(),
            1 => (0..r.range(1, 3)).map(|_| *r.pick(&['a', 'b', 'c', 'F', 'A', 'z', 'x', 'Z'])).collect(),
            _ => (0..r.range(2, 12)).map(|_| (b'a' + r.below(26) as u8 - if r.bool() { 32 } else { 0 }) as char).collect(),
        };
        if usable(&n) {
            return n;
        }
    }
}
fn noise(r: &mut Rng) -> String {
    let one = [
        "// } { ) >>> \" '\n", "/* } return 0; \n */ ", "\n\n\t", "{ }", "{ const k_1: i32 = 3; }", "const s_%: string = \"}{ {} {0} \\\" \\\\ #| |# // \";",
        "// %s {name} {{}} é 漢字 🐌\n", "if (false) { unreachable(); }", "let x_%: f64 = 1.5;", "// (advice if_then (c Condition) ...)\n", ";", "/* `${x}` */",
        "for (let i_%: i32 = 0; i_% < 2; i_%++) { }", "   \r\n",
    ];
    r.pick(&one).replace('%', &r.below(100_000_000).to_string())
}
fn lit(t: VT, bits: u64) -> String {
    match t {
        VT::I32 => format!("({})", bits as u32 as i32),
        VT::I64 => format!("({})", bits as i64),
        VT::F32 => format!("({:?})", f32::from_bits(bits as u32)),
        _ => format!("({:?})", f64::from_bits(bits)),
    }
}
impl Advice {
    pub fn random(ev: Ev, r: &mut Rng) -> Advice {
        let kind = r.below(3);
        let types: Vec<String> = ev.form().1.iter().enumerate().map(|(i, t)| match (*t, i) {
            ("?", 1) => ["Args", "DynArgs", "MutDynArgs"][kind].to_string(),
            ("?", _) => ["Results", "DynResults", "MutDynResults"][kind].to_string(),
            (t, _) => t.to_string(),
        }).collect();
        let mut names: Vec<String> = vec![];
        while names.len() < types.len() {
            let n = ident(r);
            if !names.contains(&n) {
                names.push(n);
            }
        }
        let fields = ev.fields();
        let mut steps = vec![];
        let tag = |r: &mut Rng| r.u32() as i32 & 0x3fff_ffff;
        for k in 0..fields.len() {
            if r.chance(5, 6) {
                steps.push(Step::Note { tag: tag(r), param: fields[k].0, field: k });
            }
        }
        if ev == Ev::Apply {
            let value = |r: &mut Rng| {
                let t = *r.pick(&[VT::I32, VT::I64, VT::F32, VT::F64]);
                let b = match t {
                    VT::I32 => u64::from(r.u32()),
                    VT::I64 => r.u64() >> 1,
                    VT::F32 => u64::from((r.u32() as i32 as f32 / 8.0).to_bits()),
                    _ => (r.u64() as i32 as f64 / 8.0).to_bits(),
                };
                (t, b)
            };
            for _ in 0..r.range(1, 8) {
                let of = if r.bool() { Side::Args } else { Side::Ress };
                let (ty, bits) = value(r);
                steps.push(match r.below(12) {
                    0 => Step::Who { tag: tag(r) },
                    1 => Step::Len { tag: tag(r), of },
                    2..=4 => Step::Dump { tag: tag(r), of },
                    5 | 6 => Step::Put { of, at: (if r.chance(1, 6) { r.below(70) } else { r.below(4) }) as i32, ty, bits },
                    7..=9 => Step::Base,
                    10 if r.chance(1, 4) => Step::Peek { tag: tag(r), of, at: *r.pick(&[-1, 0, 1, 2, 3, 4, i32::MAX, i32::MIN]), ty },
                    11 if r.chance(1, 4) => Step::PutAny { of, at: *r.pick(&[-1, 0, 1, 2, 3, 4, i32::MAX, i32::MIN]), ty, bits },
                    _ => Step::Dump { tag: tag(r), of },
                });
            }
        }
        for _ in 0..r.below(3) {
            steps.push(Step::Tick { tag: tag(r) });
        }
        if r.chance(1, 3) {
            steps.push(Step::Helper { tag: tag(r), x: r.u32() as i32 >> 4 });
        }
        if ev != Ev::Apply {
            r.shuffle(&mut steps);
        }
        if !ev.ft().results.is_empty() {
            let cond = matches!(ev, Ev::IfThen | Ev::IfThenElse | Ev::Select | Ev::BrIf);
            if cond && r.chance(1, 3) {
                let at = r.below(steps.len() + 1);
                steps.insert(at, Step::ReturnIf { test: r.below(2), value: 2 + r.below(2) });
            }
            match r.below(4) {
                0 => steps.push(Step::Return(r.below(5) as i32 - 2)),
                1 if !fields.is_empty() => steps.push(Step::ReturnField(r.below(fields.len()))),
                _ => {}
            }
        }
        for _ in 0..r.below(4) {
            let at = r.below(steps.len() + 1);
            steps.insert(at, Step::Noise(noise(r)));
        }
        let mut a = Advice { ev, names, types, steps, body: String::new() };
        a.body = a.text(r);
        a
    }
    fn text(&self, r: &mut Rng) -> String {
        let n = &self.names;
        let f = self.ev.fields();
        let side = |s: &Side| if *s == Side::Args { &n[1] } else { &n[2] };
        let mut o = String::new();
        for (k, s) in self.steps.iter().enumerate() {
            o += *r.pick(&["\n", "\n    ", " ", "\n\t"]);
            o += &match s {
                Step::Noise(t) => t.clone(),
                Step::Note { tag, param, field } => format!("verif_note({tag}, {}.{});", n[*param], f[*field].1),
                Step::Tick { tag } => format!("g_count = g_count + 1; verif_note({tag}, g_count);"),
                Step::Helper { tag, x } => format!("verif_note({tag}, g_twice({x}));"),
                Step::Return(c) => format!("return {c};"),
                Step::ReturnField(k) => format!("return {}.{};", n[f[*k].0], f[*k].1),
                Step::ReturnIf { test, value } => format!("if ({}.{}) {{ return {}.{}; }}", n[0], f[*test].1, n[0], f[*value].1),
                Step::Who { tag } => format!("verif_note({tag}, {}.instr_f_idx);", n[0]),
                Step::Len { tag, of } => format!("verif_note({tag}, {}.length);", side(of)),
                Step::Dump { tag, of } => {
                    let a = side(of);
                    let get = |t: &str, x: &str| format!("verif_note{x}({tag}, {a}.get<{t}>(i_{k}));");
                    format!(
                        "for (let i_{k}: i32 = 0; i_{k} < {a}.length; i_{k}++) {{ const t_{k}: i32 = {a}.getType(i_{k}) as i32; verif_note({tag}, t_{k}); \
                         if (t_{k} == 0) {} else if (t_{k} == 1) {} else if (t_{k} == 2) {} else {} }}",
                        get("i32", ""), get("f32", "_f32"), get("i64", "_i64"), get("f64", "_f64")
                    )
                }
                Step::Put { of, at, ty, bits } => {
                    let a = side(of);
                    format!("if ({at} < {a}.length && {a}.getType({at}) == WasmType.{t}) {a}.set<{t}>({at}, {});", lit(*ty, *bits), t = ty.low())
                }
                Step::PutAny { of, at, ty, bits } => format!("{}.set<{}>({at}, {});", side(of), ty.low(), lit(*ty, *bits)),
                Step::Peek { tag, of, at, ty } => {
                    let x = if *ty == VT::I32 { String::new() } else { format!("_{}", ty.low()) };
                    format!("verif_note{x}({tag}, {}.get<{}>({at}));", side(of), ty.low())
                }
                Step::Base => format!("{}.apply();", n[0]),
            };
        }
        // the last line of guest code may be a comment without an end of line
        if r.chance(1, 5) {
            o += "\n// done";
        }
        if r.chance(1, 3) {
            o += "\n";
        }
        o
    }
    fn source(&self, r: &mut Rng) -> String {
        let gap = |r: &mut Rng| *r.pick(&[" ", "\n", "\t", " #| ( >>> |# ", "\r\n   "]);
        let opt = |r: &mut Rng| *r.pick(&["", " ", "\n", "#| x |#", "  "]);
        let mut s = format!("({}advice{}{}", opt(r), gap(r), self.ev.form().0.replace(' ', gap(r)));
        for (n, t) in self.names.iter().zip(&self.types) {
            s += &format!("{}({}{n}{}{t}{})", gap(r), opt(r), gap(r), opt(r));
        }
        s + gap(r) + OPEN + &self.body + CLOSE + opt(r) + ")"
    }
}
/// The state an execution of guest code depends on, and what it must have done.
struct World {
    count: i32,
}
struct Frame {
    args: Vec<VT>,
    ress: Vec<VT>,
    idx: u64,
    f_apply: u64,
    sigv: u64,
    sigtypv: u64,
}
impl Frame {
    fn side(&self, s: Side) -> &[VT] {
        if s == Side::Args { &self.args } else { &self.ress }
    }
    fn slot(&self, s: Side, i: usize) -> usize {
        if s == Side::Args { self.ress.len() + i } else { i }
    }
}
type Log = Vec<(String, Vec<u64>)>;
fn low(t: VT, v: u64) -> u64 {
    if matches!(t, VT::I32 | VT::F32) { v & 0xffff_ffff } else { v }
}
/// Ok(result) or Err: the program is expected to trap there
fn expect(a: &Advice, args: &[u64], fr: Option<&Frame>, mem: &mut Vec<u64>, base: &[u64], w: &mut World, log: &mut Log) -> Result<Vec<u64>, ()> {
    let f = a.ev.fields();
    let u = |x: i32| u64::from(x as u32);
    let note = |log: &mut Log, t: VT, tag: i32, v: u64| {
        let x = if t == VT::I32 { String::new() } else { format!("_{}", t.low()) };
        log.push((format!("verif.note{x}"), vec![u(tag), low(t, v)]));
    };
    for s in &a.steps {
        match s {
            Step::Noise(_) => {}
            Step::Note { tag, field, .. } => note(log, VT::I32, *tag, u(f[*field].2.of(args))),
            Step::Tick { tag } => {
                w.count += 1;
                note(log, VT::I32, *tag, u(w.count));
            }
            Step::Helper { tag, x } => note(log, VT::I32, *tag, u(x.wrapping_mul(2))),
            Step::Return(c) => return Ok(vec![u(*c)]),
            Step::ReturnField(k) => return Ok(vec![u(f[*k].2.of(args))]),
            Step::ReturnIf { test, value } => {
                if f[*test].2.of(args) != 0 {
                    return Ok(vec![u(f[*value].2.of(args))]);
                }
            }
            Step::Who { tag } => note(log, VT::I32, *tag, fr.unwrap().idx),
            Step::Len { tag, of } => note(log, VT::I32, *tag, fr.unwrap().side(*of).len() as u64),
            Step::Dump { tag, of } => {
                let fr = fr.unwrap();
                for (i, t) in fr.side(*of).iter().enumerate() {
                    let code = match t {
                        VT::I32 => 0,
                        VT::F32 => 1,
                        VT::I64 => 2,
                        _ => 3,
                    };
                    note(log, VT::I32, *tag, code);
                    note(log, *t, *tag, mem[fr.slot(*of, i)]);
                }
            }
            Step::Put { of, at, ty, bits } => {
                let fr = fr.unwrap();
                if (*at as usize) < fr.side(*of).len() && fr.side(*of)[*at as usize] == *ty {
                    put(&mut mem[fr.slot(*of, *at as usize)], *ty, *bits);
                }
            }
            Step::PutAny { of, at, ty, bits } => {
                let fr = fr.unwrap();
                if *at < 0 || *at as usize >= fr.side(*of).len() {
                    return Err(());
                }
                put(&mut mem[fr.slot(*of, *at as usize)], *ty, *bits);
            }
            Step::Peek { tag, of, at, ty } => {
                let fr = fr.unwrap();
                if *at < 0 || *at as usize >= fr.side(*of).len() {
                    return Err(());
                }
                note(log, *ty, *tag, mem[fr.slot(*of, *at as usize)]);
            }
            Step::Base => {
                let fr = fr.unwrap();
                log.push(("instrumented_input.call_base".into(), vec![fr.f_apply, fr.sigv]));
                mem[..fr.ress.len()].copy_from_slice(base);
            }
        }
    }
    // without a return of its own the advice lets the program go on as it was
    Ok(if a.ev.ft().results.is_empty() { vec![] } else { vec![low(VT::I32, args[0])] })
}
fn put(cell: &mut u64, t: VT, v: u64) {
    *cell = if matches!(t, VT::I32 | VT::F32) { (*cell & !0xffff_ffff) | (v & 0xffff_ffff) } else { v };
}
pub fn generate(source: &str) -> Result<(String, AnalysisInterface), String> {
    let spec = WaspAnalysisSpec { wasp_source: source.to_string() };
    let p: Result<ProcessedAnalysis<AssemblyScript>, _> = (&spec).try_into();
    p.map(|p| (p.analysis_library, p.analysis_interface)).map_err(|e| e.to_string())
}
/// An aspect: advices in some order between pieces of global code.
pub fn aspect(r: &mut Rng, advices: &[Advice], globals: &[String]) -> String {
    let mut items: Vec<String> = advices.iter().map(|a| a.source(r)).collect();
    for g in globals {
        let at = r.below(items.len() + 1);
        items.insert(at, format!("(global {OPEN}{g}{CLOSE})"));
    }
    let sep = |r: &mut Rng| *r.pick(&["", " ", "\n", "\n\n  #| |# "]);
    let mut s = format!("{}(aspect{}", sep(r), sep(r));
    for i in items {
        s += &i;
        s += sep(r);
    }
    s + ")" + sep(r)
}
fn globals(r: &mut Rng, apply: bool) -> Vec<String> {
    let prelude = match apply {
        true => PRELUDE.to_string(),
        false => PRELUDE.split("function g_any").next().unwrap().to_string(),
    };
    let mut g = vec![
        prelude,
        "let g_count: i32 = 0;".into(),
        "function g_twice(x: i32): i32 { return x + x; }".into(),
    ];
    for _ in 0..r.below(4) {
        g.push(r.pick(&["let g_%: i32 = 7", "// note %", "/* % */", "const g_%: f64 = 1.5", "", "\n", "class G_% { x: i32 = 1; }", "enum E_% { a = 1, b = 2 }", "function g_%(): void { }"]).replace('%', &r.below(1_000_000_000).to_string()));
    }
    r.shuffle(&mut g);
    g
}
pub fn g05(ctx: &mut Ctx) {
    ctx.rule = "one observation = one generated analysis program, run through a history of events, every recorded value compared with the event".into();
    let n = ctx.n(4_000, 60_000);
    parallel(ctx, 1, n, |i, r, rep| {
        let mut evs: Vec<Ev> = EVS.to_vec();
        r.shuffle(&mut evs);
        if i < 14 {
            evs = vec![EVS[i as usize]];
        } else if i < 28 {
            evs.retain(|e| *e != EVS[i as usize - 14]);
        } else {
            evs.truncate(r.range(1, 14));
        }
        let advices: Vec<Advice> = evs.iter().map(|e| Advice::random(*e, r)).collect();
        let apply = evs.contains(&Ev::Apply);
        let gl = globals(r, apply);
        let source = aspect(r, &advices, &gl);
        rep.evals += 1;
        let (program, _) = match guarded(|| generate(&source)) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return rep.violation("refused", format!("{e}\naspect:\n{source}")),
            Err(p) => return rep.violation("panic", format!("{p}\naspect:\n{source}")),
        };
        let text = |what: String| format!("{what}\naspect:\n{source}\n--- program:\n{program}");
        for g in &gl {
            if !program.contains(g.as_str()) {
                return rep.violation("global-code", text(format!("the global code {g:?} is not in the program")));
            }
        }
        let mut has = match exports(&ask(&json!({"load": program}))) {
            Ok(x) => x,
            Err(e) => return rep.violation("does-not-compile", text(e)),
        };
        let mut want: Vec<(String, FT)> = evs.iter().map(|e| (e.export().to_string(), e.ft())).collect();
        has.sort_by(|a, b| a.0.cmp(&b.0));
        want.sort_by(|a, b| a.0.cmp(&b.0));
        if has != want {
            return rep.violation("exports", text(format!("exports {has:?}\nexpected {want:?}")));
        }
        rep.saw(&source);
        let mut w = World { count: 0 };
        for step in 0..evs.len() * 3 + 6 {
            let a = r.pick(&advices);
            let mut log: Log = vec![];
            let small = |r: &mut Rng| match r.below(4) {
                0 => 0,
                1 => u64::from(r.u32()),
                _ => r.below(6) as u64,
            };
            let mut args: Vec<u64> = a.ev.ft().params.iter().map(|t| if *t == VT::I64 { r.u64() } else { small(r) }).collect();
            let mut mem: Vec<u64> = vec![];
            let mut base: Vec<u64> = vec![];
            let mut frame = None;
            if a.ev == Ev::Apply {
                let ty = |r: &mut Rng| *r.pick(&[VT::I32, VT::F32, VT::I64, VT::F64]);
                let (ma, mr) = if r.chance(1, 6) { (70, 40) } else { (5, 4) };
                let fr = Frame {
                    args: (0..r.below(ma)).map(|_| ty(r)).collect(),
                    ress: (0..r.below(mr)).map(|_| ty(r)).collect(),
                    idx: small(r),
                    f_apply: small(r),
                    sigv: 64 + 8 * r.below(500) as u64,
                    sigtypv: 65536 + 4 * r.below(500) as u64,
                };
                let n = fr.args.len() + fr.ress.len();
                mem = (0..n).map(|_| r.u64()).collect();
                base = fr.ress.iter().map(|_| r.u64()).collect();
                let code = |t: &VT| match t {
                    VT::I32 => 0,
                    VT::F32 => 1,
                    VT::I64 => 2,
                    _ => 3,
                };
                let mut pokes: Vec<Value> = mem.iter().enumerate().map(|(k, v)| json!([fr.sigv + 8 * k as u64, 8, format!("{v:x}")])).collect();
                pokes.extend(fr.ress.iter().chain(&fr.args).enumerate().map(|(k, t)| json!([fr.sigtypv + 4 * k as u64, 4, format!("{:x}", code(t))])));
                ask(&json!({"poke": pokes}));
                let on: Vec<Value> = base.iter().enumerate().map(|(k, v)| json!([fr.sigv + 8 * k as u64, 8, format!("{v:x}")])).collect();
                ask(&json!({"onbase": on}));
                args = vec![fr.f_apply, fr.idx, fr.args.len() as u64, fr.ress.len() as u64, fr.sigv, fr.sigtypv, r.below(2) as u64];
                frame = Some(fr);
            }
            let want = expect(a, &args, frame.as_ref(), &mut mem, &base, &mut w, &mut log);
            let got = call(a.ev.export(), &args);
            let raw = ask(&json!({"log": 1}));
            let seen: Log = raw["log"].as_array().into_iter().flatten().map(|e| {
                let v = e[1].as_array().into_iter().flatten().map(|x| u64::from_str_radix(x.as_str().unwrap_or("0"), 16).unwrap_or(0)).collect();
                (e[0].as_str().unwrap_or("?").to_string(), v)
            }).filter(|(k, _)| !k.starts_with("wastrumentation_stack.")).collect();
            let ctxt = format!("call {step}: {}({args:x?}) frame {:?}", a.ev.export(), frame.as_ref().map(|f| (&f.args, &f.ress)));
            match (&want, &got) {
                (Ok(w), Ok(g)) if w == g => {}
                (Err(()), Err(e)) if e.contains("trap") => rep.count("expected traps", 1),
                _ => return rep.violation("result", text(format!("{ctxt}\nanswered {got:x?}, expected {want:x?}"))),
            }
            if seen != log {
                return rep.violation("guest", text(format!("{ctxt}\nguest code recorded {seen:x?}\nexpected             {log:x?}")));
            }
            if let Some(f) = &frame {
                let q: Vec<Value> = (0..mem.len() as u64).map(|k| json!([f.sigv + 8 * k, 8])).collect();
                let now: Vec<u64> = ask(&json!({"peek": q}))["r"].as_array().into_iter().flatten().map(|x| u64::from_str_radix(x.as_str().unwrap_or("0"), 16).unwrap_or(0)).collect();
                if now != mem {
                    return rep.violation("slots", text(format!("{ctxt}\nslots afterwards {now:x?}\nexpected         {mem:x?}")));
                }
            }
            rep.count("events delivered", 1);
            rep.count("values recorded", log.len() as u64);
            rep.count(&format!("events of {}", a.ev.export()), 1);
        }
        if rep.samples.is_empty() {
            rep.samples.push(json!({"aspect": truncate(&source, 400)}));
        }
    });
    // names the generated program uses itself
    for ev in EVS {
        for at in 0..ev.form().1.len() {
            for name in &RESERVED[..5] {
                let name = *name;
                let mut r = Rng::new(7);
                let mut a = Advice::random(ev, &mut r);
                a.steps.retain(|s| matches!(s, Step::Noise(_)));
                if a.names.iter().any(|n| n == name) {
                    continue;
                }
                a.names[at] = name.into();
                a.body = a.text(&mut r);
                let source = aspect(&mut r, std::slice::from_ref(&a), &[]);
                ctx.eval();
                let verdict = match guarded(|| generate(&source)) {
                    Ok(Ok((p, _))) => exports(&ask(&json!({"load": p}))).and_then(|_| {
                        let args = vec![0; a.ev.ft().params.len()];
                        match call(a.ev.export(), &args) {
                            Ok(_) => Ok(()),
                            Err(e) => Err(e),
                        }
                    }),
                    Ok(Err(e)) => Err(e),
                    Err(p) => Err(p),
                };
                if let Err(e) = verdict {
                    ctx.violation(&format!("name:{}:{name}", ev.export()), &format!("{e}\naspect:\n{source}"));
                }
            }
        }
    }
}
