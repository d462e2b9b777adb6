//! Independent model of the aspect language: abstract advices, an aspect printer with
//! arbitrary legal layout, and a hand-written recogniser.
use vcommon::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    I32,
    F32,
    I64,
    F64,
}
impl Ty {
    pub fn name(self) -> &'static str {
        match self {
            Ty::I32 => "I32",
            Ty::F32 => "F32",
            Ty::I64 => "I64",
            Ty::F64 => "F64",
        }
    }
    pub fn parse(s: &str) -> Option<Ty> {
        match s {
            "I32" => Some(Ty::I32),
            "F32" => Some(Ty::F32),
            "I64" => Some(Ty::I64),
            "F64" => Some(Ty::F64),
            _ => None,
        }
    }
}
pub const TYS: [Ty; 4] = [Ty::I32, Ty::F32, Ty::I64, Ty::F64];

/// (name, type text): surface level
pub type P = (String, String);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Raw {
    Global(String),
    Gen { f: String, a: P, r: P, body: String },
    Spe { m: bool, f: String, a: Vec<P>, r: Vec<P>, body: String },
    Call { post: bool, f: String, body: String },
    BlockPre(String),
    BlockPost(String),
    LoopPre(String),
    LoopPost(String),
    Select { c: String, body: String },
    CallIndPre { t: String, i: String, body: String },
    CallIndPost { t: String, body: String },
    IfThen { c: String, body: String },
    IfThenElse { c: String, body: String },
    BrIf { c: String, l: String, body: String },
    BrTable { t: String, d: String, body: String },
}

impl Raw {
    pub fn form(&self) -> &'static str {
        match self {
            Raw::Global(_) => "global",
            Raw::Gen { .. } => "apply-generic",
            Raw::Spe { m: false, .. } => "apply-spec",
            Raw::Spe { m: true, .. } => "apply-spec-mut",
            Raw::Call { post: false, .. } => "call-pre",
            Raw::Call { post: true, .. } => "call-post",
            Raw::BlockPre(_) => "block-pre",
            Raw::BlockPost(_) => "block-post",
            Raw::LoopPre(_) => "loop-pre",
            Raw::LoopPost(_) => "loop-post",
            Raw::Select { .. } => "select",
            Raw::CallIndPre { .. } => "call_indirect-pre",
            Raw::CallIndPost { .. } => "call_indirect-post",
            Raw::IfThen { .. } => "if_then",
            Raw::IfThenElse { .. } => "if_then_else",
            Raw::BrIf { .. } => "br_if",
            Raw::BrTable { .. } => "br_table",
        }
    }
    pub fn body(&self) -> &str {
        match self {
            Raw::Global(b) | Raw::BlockPre(b) | Raw::BlockPost(b) | Raw::LoopPre(b) | Raw::LoopPost(b) => b,
            Raw::Gen { body, .. }
            | Raw::Spe { body, .. }
            | Raw::Call { body, .. }
            | Raw::Select { body, .. }
            | Raw::CallIndPre { body, .. }
            | Raw::CallIndPost { body, .. }
            | Raw::IfThen { body, .. }
            | Raw::IfThenElse { body, .. }
            | Raw::BrIf { body, .. }
            | Raw::BrTable { body, .. } => body,
        }
    }
    pub fn with_body(mut self, b: String) -> Raw {
        match &mut self {
            Raw::Global(x) | Raw::BlockPre(x) | Raw::BlockPost(x) | Raw::LoopPre(x) | Raw::LoopPost(x) => *x = b,
            Raw::Gen { body, .. }
            | Raw::Spe { body, .. }
            | Raw::Call { body, .. }
            | Raw::Select { body, .. }
            | Raw::CallIndPre { body, .. }
            | Raw::CallIndPost { body, .. }
            | Raw::IfThen { body, .. }
            | Raw::IfThenElse { body, .. }
            | Raw::BrIf { body, .. }
            | Raw::BrTable { body, .. } => *body = b,
        }
        self
    }
}

pub const OPEN: &str = ">>>GUEST>>>";
pub const CLOSE: &str = "<<<GUEST<<<";

/// Token stream of an advice (without the parentheses around it).
fn param(out: &mut Vec<String>, n: &str, t: &str) {
    out.push("(".into());
    out.push(n.into());
    out.push(t.into());
    out.push(")".into());
}
pub fn tokens_of(raw: &Raw) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let w = |s: &[&str], o: &mut Vec<String>| o.extend(s.iter().map(|x| x.to_string()));
    if !matches!(raw, Raw::Global(_)) {
        w(&["advice"], &mut o);
    }
    match raw {
        Raw::Global(_) => w(&["global"], &mut o),
        Raw::Gen { f, a, r, .. } => {
            w(&["apply"], &mut o);
            param(&mut o, f, "WasmFunction");
            param(&mut o, &a.0, &a.1);
            param(&mut o, &r.0, &r.1);
        }
        Raw::Spe { m, f, a, r, .. } => {
            w(&["apply"], &mut o);
            param(&mut o, f, "WasmFunction");
            for ps in [a, r] {
                o.push("(".into());
                if *m {
                    o.push("Mut".into());
                }
                for (n, t) in ps {
                    param(&mut o, n, t);
                }
                o.push(")".into());
            }
        }
        Raw::Call { post, f, .. } => {
            w(&["call", if *post { "post" } else { "pre" }], &mut o);
            param(&mut o, f, "FunctionIndex");
        }
        Raw::BlockPre(_) => w(&["block", "pre"], &mut o),
        Raw::BlockPost(_) => w(&["block", "post"], &mut o),
        Raw::LoopPre(_) => w(&["loop", "pre"], &mut o),
        Raw::LoopPost(_) => w(&["loop", "post"], &mut o),
        Raw::Select { c, .. } => {
            w(&["select"], &mut o);
            param(&mut o, c, "Condition");
        }
        Raw::CallIndPre { t, i, .. } => {
            w(&["call_indirect", "pre"], &mut o);
            param(&mut o, t, "FunctionTable");
            param(&mut o, i, "FunctionTableIndex");
        }
        Raw::CallIndPost { t, .. } => {
            w(&["call_indirect", "post"], &mut o);
            param(&mut o, t, "FunctionTable");
        }
        Raw::IfThen { c, .. } => {
            w(&["if_then"], &mut o);
            param(&mut o, c, "Condition");
        }
        Raw::IfThenElse { c, .. } => {
            w(&["if_then_else"], &mut o);
            param(&mut o, c, "Condition");
        }
        Raw::BrIf { c, l, .. } => {
            w(&["br_if"], &mut o);
            param(&mut o, c, "Condition");
            param(&mut o, l, "Label");
        }
        Raw::BrTable { t, d, .. } => {
            w(&["br_table"], &mut o);
            param(&mut o, t, "Target");
            param(&mut o, d, "Default");
        }
    }
    o.push(format!("{OPEN}{}{CLOSE}", raw.body()));
    o
}
pub fn aspect_tokens(advs: &[Raw]) -> Vec<String> {
    let mut o = vec!["(".to_string(), "aspect".to_string()];
    for a in advs {
        o.push("(".into());
        o.extend(tokens_of(a));
        o.push(")".into());
    }
    o.push(")".into());
    o
}

fn wordish(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}
/// Some legal layout: blanks/comments; at least one separator between two words.
pub fn layout(rng: &mut Rng, must: bool, style: usize) -> String {
    let mut s = String::new();
    let n = match style {
        0 => usize::from(must),
        1 => usize::from(must).max(rng.below(3)),
        _ => usize::from(must).max(rng.below(6)),
    };
    for _ in 0..n {
        match if style == 0 { 0 } else { rng.below(if style == 1 { 4 } else { 9 }) } {
            0 => s.push(' '),
            1 => s.push('\n'),
            2 => s.push('\t'),
            3 => s.push_str(if rng.bool() { "\r\n" } else { "\r" }),
            k => {
                let inner = match k {
                    4 => "".to_string(),
                    5 => " a comment ".to_string(),
                    6 => rng.pick(&["(aspect (global >>>GUEST>>>x<<<GUEST<<<))", "#| #| # | #", "|", "(((", "))", "\"'`", "🔴 é\u{0}", "\n\n", ">>>GUEST>>>", "advice call pre (f FunctionIndex)"]).to_string(),
                    7 => "#".repeat(rng.below(4)) + " ",
                    _ => "x".repeat(rng.below(40)),
                };
                s.push_str("#|");
                s.push_str(&inner);
                s.push_str("|#");
            }
        }
    }
    s
}
pub fn render(rng: &mut Rng, toks: &[String], style: usize) -> String {
    let mut s = layout(rng, false, style);
    for (i, t) in toks.iter().enumerate() {
        s.push_str(t);
        let must = match toks.get(i + 1) {
            Some(n) => t.chars().last().is_some_and(wordish) && n.chars().next().is_some_and(wordish),
            None => false,
        };
        s.push_str(&layout(rng, must, style));
    }
    s
}

// ---------------------------------------------------------------- generator
pub fn ident(rng: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "a", "b", "c", "d", "x", "f", "func", "args", "results", "A", "B", "Mut", "Args", "aspect", "global", "advice",
        "apply", "call", "pre", "post", "Condition", "Label", "WasmFunction", "I", "aa", "ab", "abc", "target", "DEFAULT",
        "Target", "Default", "FunctionIndex", "FunctionTable", "FunctionTableIndex", "MutArgs", "GUEST", "Results", "DynArgs",
    ];
    if rng.chance(3, 5) {
        rng.pick(POOL).to_string()
    } else {
        let top = if rng.chance(1, 20) { 300 } else { 9 };
        let n = 1 + rng.below(top);
        (0..n)
            .map(|_| {
                let c = rng.below(52) as u8;
                (if c < 26 { b'a' + c } else { b'A' + c - 26 }) as char
            })
            .collect()
    }
}
pub fn body(rng: &mut Rng) -> String {
    const POOL: &[&str] = &[
        "", " ", "x", "\n", "🔴", " 1 + 2; ", "\tlet a: i32 = 0;\r\n", "#", "|#", "#|", "#| c |#", "|", "<<<", "<<<GUEST", "GUEST<<<",
        ">>>GUEST>>>", "<<<GUEST<<", "(aspect)", "(", ")", "\"", "\\", "é", "\u{0}", "/* c */", "// c\n", "#|#", "|#|", "  \n ",
        "(advice call pre (f FunctionIndex)", "<", ">", "{}", "#| (global", "\u{feff}", "\u{2028}", "漢字", "<<<guest<<<",
    ];
    let n = rng.below(6);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(rng.pick(POOL));
        if rng.chance(1, 4) {
            s.push(char::from_u32(rng.below(0x3000) as u32).unwrap_or('?'));
        }
    }
    if rng.chance(1, 40) {
        s.push_str(&"lorem ipsum #|x|# ".repeat(rng.below(400)));
    }
    if rng.chance(1, 3000) {
        s.push_str(&"let x = 1; #| 🔴\n".repeat(*rng.pick(&[4_000, 8_000, 70_000])));
    }
    // the body ends at the first closing delimiter
    loop {
        let all = format!("{s}{CLOSE}");
        let at = all.find(CLOSE).unwrap();
        if at == s.len() {
            return s;
        }
        s.truncate(at);
    }
}
pub const GEN_KINDS: [(&str, &str); 3] = [("Args", "Results"), ("DynArgs", "DynResults"), ("MutDynArgs", "MutDynResults")];

pub fn distinct_idents(rng: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let c = ident(rng);
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}
/// A valid advice.
pub fn advice(rng: &mut Rng) -> Raw {
    let form = rng.below(17);
    advice_of_form(rng, form)
}
pub fn advice_of_form(rng: &mut Rng, form: usize) -> Raw {
    let body = body(rng);
    match form {
        0 => Raw::Global(body),
        1 => {
            let v = distinct_idents(rng, 3);
            let k = rng.below(3);
            Raw::Gen { f: v[0].clone(), a: (v[1].clone(), GEN_KINDS[k].0.into()), r: (v[2].clone(), GEN_KINDS[k].1.into()), body }
        }
        2 | 3 => {
            let (ta, tr) = if rng.chance(1, 150) {
                (*rng.pick(&[34, 66, 140, 300]), *rng.pick(&[3, 34, 70, 280]))
            } else if rng.chance(1, 10) {
                (20, 12)
            } else {
                (4, 3)
            };
            let na = rng.range(1, ta);
            let nr = rng.range(1, tr);
            let v = distinct_idents(rng, na + nr);
            let tys: Vec<P> = v.iter().map(|n| (n.clone(), rng.pick(&TYS).name().to_string())).collect();
            // the function parameter may share its name with an argument
            let f = if rng.chance(1, 8) { v[0].clone() } else { ident(rng) };
            Raw::Spe { m: form == 3, f, a: tys[..na].to_vec(), r: tys[na..].to_vec(), body }
        }
        4 => Raw::Call { post: false, f: ident(rng), body },
        5 => Raw::Call { post: true, f: ident(rng), body },
        6 => Raw::BlockPre(body),
        7 => Raw::BlockPost(body),
        8 => Raw::LoopPre(body),
        9 => Raw::LoopPost(body),
        10 => Raw::Select { c: ident(rng), body },
        // these may repeat a name: the language does not forbid it
        11 => Raw::CallIndPre { t: ident(rng), i: ident(rng), body },
        12 => Raw::CallIndPost { t: ident(rng), body },
        13 => Raw::IfThen { c: ident(rng), body },
        14 => Raw::IfThenElse { c: ident(rng), body },
        15 => Raw::BrIf { c: ident(rng), l: ident(rng), body },
        _ => Raw::BrTable { t: ident(rng), d: ident(rng), body },
    }
}
pub fn aspect(rng: &mut Rng) -> Vec<Raw> {
    let n = match rng.below(20) {
        0 => 0,
        1..=5 => 1,
        19 if rng.chance(1, 12) => *rng.pick(&[64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 700]),
        19 => rng.range(10, 60),
        _ => rng.range(2, 9),
    };
    (0..n).map(|_| advice(rng)).collect()
}

// ---------------------------------------------------------------- reference recogniser
pub struct Rec<'a> {
    s: &'a str,
    p: usize,
}
type R<T> = Option<T>;
impl<'a> Rec<'a> {
    pub fn parse(s: &'a str) -> R<Vec<Raw>> {
        let mut r = Rec { s, p: 0 };
        r.skip();
        r.lit("(")?;
        r.lit("aspect")?;
        let mut v = vec![];
        loop {
            let save = r.p;
            match r.item() {
                Some(a) => v.push(a),
                None => {
                    r.p = save;
                    break;
                }
            }
        }
        r.lit(")")?;
        (r.p == s.len()).then_some(v)
    }
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn skip(&mut self) {
        loop {
            let r = self.rest();
            if let Some(c) = r.chars().next() {
                if matches!(c, ' ' | '\t' | '\r' | '\n') {
                    self.p += 1;
                    continue;
                }
            }
            if r.starts_with("#|") {
                if let Some(k) = r[2..].find("|#") {
                    self.p += k + 4;
                    continue;
                }
            }
            return;
        }
    }
    /// literal followed by layout
    fn lit(&mut self, l: &str) -> R<()> {
        if self.rest().starts_with(l) {
            self.p += l.len();
            self.skip();
            Some(())
        } else {
            None
        }
    }
    fn try_lit(&mut self, l: &str) -> bool {
        self.lit(l).is_some()
    }
    fn id(&mut self) -> R<String> {
        let n = self.rest().bytes().take_while(u8::is_ascii_alphabetic).count();
        if n == 0 {
            return None;
        }
        let t = self.rest()[..n].to_string();
        self.p += n;
        self.skip();
        Some(t)
    }
    fn tid(&mut self) -> R<String> {
        let b = self.rest().as_bytes();
        if !b.first()?.is_ascii_uppercase() {
            return None;
        }
        let n = b[1..].iter().take_while(|c| c.is_ascii_alphanumeric()).count();
        if n == 0 {
            return None;
        }
        let t = self.rest()[..=n].to_string();
        self.p += n + 1;
        self.skip();
        Some(t)
    }
    fn guest(&mut self) -> R<String> {
        let r = self.rest();
        if !r.starts_with(OPEN) {
            return None;
        }
        let k = r[OPEN.len()..].find(CLOSE)?;
        let t = r[OPEN.len()..OPEN.len() + k].to_string();
        self.p += OPEN.len() + k + CLOSE.len();
        self.skip();
        Some(t)
    }
    fn named(&mut self, kind: &str) -> R<String> {
        self.lit("(")?;
        let n = self.id()?;
        self.lit(kind)?;
        self.lit(")")?;
        Some(n)
    }
    fn typed(&mut self) -> R<P> {
        self.lit("(")?;
        let n = self.id()?;
        let t = self.tid()?;
        self.lit(")")?;
        Some((n, t))
    }
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let save = self.p;
        let r = f(self);
        if r.is_none() {
            self.p = save;
        }
        r
    }
    fn list(&mut self, m: bool) -> R<Vec<P>> {
        self.lit("(")?;
        if m {
            self.lit("Mut")?;
        }
        let mut v = vec![self.typed()?];
        while let Some(t) = self.attempt(Self::typed) {
            v.push(t);
        }
        self.lit(")")?;
        Some(v)
    }
    fn item(&mut self) -> R<Raw> {
        self.lit("(")?;
        let a = if self.try_lit("global") {
            Raw::Global(self.guest()?)
        } else {
            self.lit("advice")?;
            self.trap()?
        };
        self.lit(")")?;
        Some(a)
    }
    fn trap(&mut self) -> R<Raw> {
        // alternatives are disjoint apart from common prefixes: longest keyword first is
        // equivalent to trying all of them, since what follows a keyword never starts with "_"
        for k in 0..TRAPS {
            if let Some(r) = self.attempt(|s| s.trap_alt(k)) {
                return Some(r);
            }
        }
        None
    }
    fn trap_alt(&mut self, k: usize) -> R<Raw> {
        Some(match k {
            0 => {
                self.lit("apply")?;
                let sig = self
                    .attempt(|s| {
                        let f = s.named("WasmFunction")?;
                        let a = s.typed()?;
                        let r = s.typed()?;
                        Some(Raw::Gen { f, a, r, body: String::new() })
                    })
                    .or_else(|| {
                        self.attempt(|s| {
                            let f = s.named("WasmFunction")?;
                            let a = s.list(false)?;
                            let r = s.list(false)?;
                            Some(Raw::Spe { m: false, f, a, r, body: String::new() })
                        })
                    })
                    .or_else(|| {
                        self.attempt(|s| {
                            let f = s.named("WasmFunction")?;
                            let a = s.list(true)?;
                            let r = s.list(true)?;
                            Some(Raw::Spe { m: true, f, a, r, body: String::new() })
                        })
                    })?;
                let b = self.guest()?;
                sig.with_body(b)
            }
            1 => {
                self.lit("call")?;
                let post = if self.try_lit("pre") {
                    false
                } else {
                    self.lit("post")?;
                    true
                };
                let f = self.named("FunctionIndex")?;
                Raw::Call { post, f, body: self.guest()? }
            }
            2..=5 => {
                self.lit(if k < 4 { "block" } else { "loop" })?;
                self.lit(if k % 2 == 0 { "pre" } else { "post" })?;
                let b = self.guest()?;
                match k {
                    2 => Raw::BlockPre(b),
                    3 => Raw::BlockPost(b),
                    4 => Raw::LoopPre(b),
                    _ => Raw::LoopPost(b),
                }
            }
            6 => {
                self.lit("select")?;
                let c = self.named("Condition")?;
                Raw::Select { c, body: self.guest()? }
            }
            7 => {
                self.lit("call_indirect")?;
                self.lit("pre")?;
                let t = self.named("FunctionTable")?;
                let i = self.named("FunctionTableIndex")?;
                Raw::CallIndPre { t, i, body: self.guest()? }
            }
            8 => {
                self.lit("call_indirect")?;
                self.lit("post")?;
                let t = self.named("FunctionTable")?;
                Raw::CallIndPost { t, body: self.guest()? }
            }
            9 => {
                self.lit("if_then")?;
                let c = self.named("Condition")?;
                Raw::IfThen { c, body: self.guest()? }
            }
            10 => {
                self.lit("if_then_else")?;
                let c = self.named("Condition")?;
                Raw::IfThenElse { c, body: self.guest()? }
            }
            11 => {
                self.lit("br_if")?;
                let c = self.named("Condition")?;
                let l = self.named("Label")?;
                Raw::BrIf { c, l, body: self.guest()? }
            }
            _ => {
                self.lit("br_table")?;
                let t = self.named("Target")?;
                let d = self.named("Default")?;
                Raw::BrTable { t, d, body: self.guest()? }
            }
        })
    }
}
const TRAPS: usize = 13;

// ---------------------------------------------------------------- reference validation
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bad {
    Kind(String, String),
    NotUnique(Vec<String>),
    DupWithin(String),
    DupAcross(String),
    Type(String),
}
/// Everything wrong with one advice (empty: valid).
pub fn defects(r: &Raw) -> Vec<Bad> {
    let mut v = vec![];
    match r {
        Raw::Gen { f, a, r, .. } => {
            if !GEN_KINDS.iter().any(|(x, y)| a.1 == *x && r.1 == *y) {
                v.push(Bad::Kind(a.1.clone(), r.1.clone()));
            }
            if *f == a.0 || *f == r.0 || a.0 == r.0 {
                v.push(Bad::NotUnique(vec![f.clone(), a.0.clone(), r.0.clone()]));
            }
        }
        Raw::Spe { a, r, .. } => {
            for ps in [a, r] {
                for (i, (n, t)) in ps.iter().enumerate() {
                    if Ty::parse(t).is_none() {
                        v.push(Bad::Type(t.clone()));
                    }
                    if ps[..i].iter().any(|(m, _)| m == n) {
                        v.push(Bad::DupWithin(n.clone()));
                    }
                }
            }
            for (n, _) in r {
                if a.iter().any(|(m, _)| m == n) {
                    v.push(Bad::DupAcross(n.clone()));
                }
            }
        }
        _ => {}
    }
    v
}
