//! C09: function bodies lifted to the nested form and lowered again.
use crate::run::*;
use crate::weave::*;
use serde_json::json;
use vcommon::*;
use wasabi_wasm::types::{InferredInstructionType, TypeChecker};
use wasabi_wasm::{Code, Function, FunctionType, Idx, ImportOrPresent, Instr as Low, Module, ValType};
use wastrumentation::parse_nesting::{BodyInner, HighLevelBody, HighLevelInstr as High, LowLevelBody, LowToHighError, UntypedBody, UntypedInstr};

struct Walk<'a> {
    body: &'a [Low],
    types: &'a [InferredInstructionType],
    f: u32,
    at: usize,
    depth: usize,
    deepest: usize,
}
impl Walk<'_> {
    fn expect(&mut self, what: &Low) -> Result<(), (String, String)> {
        if self.body.get(self.at) != Some(what) {
            return Err(("structure".into(), format!("position {}: nested form continues with {what:?}, the code with {:?}", self.at, self.body.get(self.at))));
        }
        self.at += 1;
        Ok(())
    }
    fn seq(&mut self, b: &BodyInner) -> Result<(), (String, String)> {
        self.depth += 1;
        self.deepest = self.deepest.max(self.depth);
        for t in b {
            let start = self.at;
            let name = format!("{:?}", t.instr).split(['(', ' ', '{']).next().unwrap_or("").to_string();
            if t.instr_index != start {
                return Err((format!("index:{name}"), format!("{name} at position {start} is recorded at {}", t.instr_index)));
            }
            if t.funct_index != self.f {
                return Err((format!("function:{name}"), format!("{name} of function {} is recorded in {}", self.f, t.funct_index)));
            }
            if !t.is_uninstrumented() {
                return Err((format!("mark:{name}"), format!("{name} at {start} is marked as instrumentation code")));
            }
            match &t.instr {
                High::Block(ty, b) => {
                    self.expect(&Low::Block(*ty))?;
                    self.seq(b)?;
                    self.expect(&Low::End)?;
                }
                High::Loop(ty, b) => {
                    self.expect(&Low::Loop(*ty))?;
                    self.seq(b)?;
                    self.expect(&Low::End)?;
                }
                High::If(ty, a, b) => {
                    self.expect(&Low::If(*ty))?;
                    self.seq(a)?;
                    if let Some(b) = b {
                        self.expect(&Low::Else)?;
                        self.seq(b)?;
                    }
                    self.expect(&Low::End)?;
                }
                // the rest is compared through the lowered form
                _ => self.at += 1,
            }
            // a structured instruction has the type of its end
            let want = self.types.get(self.at - 1);
            if want != Some(&t.type_) {
                return Err((format!("type:{name}"), format!("{name} at {start}: recorded type {:?}, expected {want:?}", t.type_)));
            }
        }
        self.depth -= 1;
        Ok(())
    }
}
/// The untyped form against the flat code.
fn untyped(body: &[Low], at: &mut usize, b: &UntypedBody) -> Result<(), String> {
    let next = |at: &mut usize, what: &Low| {
        *at += 1;
        if body.get(*at - 1) == Some(what) { Ok(()) } else { Err(format!("position {}: {what:?}, the code has {:?}", *at - 1, body.get(*at - 1))) }
    };
    for i in &b.0 {
        match i {
            UntypedInstr::Block(ty, b) => {
                next(at, &Low::Block(*ty))?;
                untyped(body, at, b)?;
                next(at, &Low::End)?;
            }
            UntypedInstr::Loop(ty, b) => {
                next(at, &Low::Loop(*ty))?;
                untyped(body, at, b)?;
                next(at, &Low::End)?;
            }
            UntypedInstr::If(ty, a, b) => {
                next(at, &Low::If(*ty))?;
                untyped(body, at, a)?;
                if let Some(b) = b {
                    next(at, &Low::Else)?;
                    untyped(body, at, b)?;
                }
                next(at, &Low::End)?;
            }
            other => {
                // the rest is named and shown alike
                let (have, want) = (format!("{other:?}"), body.get(*at).map(|x| format!("{x:?}")).unwrap_or_default());
                if have != want {
                    return Err(format!("position {at}: {have}, the code has {want}"));
                }
                *at += 1;
            }
        }
    }
    Ok(())
}
fn well_nested(b: &[Low]) -> bool {
    // the shape alone: brackets match, each else in an if without one, one end behind all
    let mut open: Vec<bool> = vec![];
    for (k, i) in b.iter().enumerate() {
        match i {
            Low::Block(_) | Low::Loop(_) => open.push(false),
            Low::If(_) => open.push(true),
            Low::Else => match open.last_mut() {
                Some(x) if *x => *x = false,
                _ => return false,
            },
            Low::End => {
                if open.pop().is_none() {
                    return k + 1 == b.len();
                }
            }
            _ => {}
        }
    }
    false
}
/// Lifting to the untyped form and back: what is well nested is the same, anything else an error.
fn examine_untyped(body: &[Low]) -> Result<bool, (String, String)> {
    let lifted: Result<UntypedBody, LowToHighError> = match guarded(|| LowLevelBody(body.to_vec()).try_into()) {
        Err(p) => return Err(("untyped:panic".into(), format!("lifting panicked: {p}"))),
        Ok(x) => x,
    };
    let high = match lifted {
        Err(_) if well_nested(body) => return Err(("untyped:refused".into(), "a well nested body is refused".into())),
        Err(_) => return Ok(false),
        Ok(_) if !well_nested(body) => return Err(("untyped:accepted".into(), "a body that is not well nested is accepted".into())),
        Ok(h) => h,
    };
    let mut at = 0;
    untyped(&body[..body.len() - 1], &mut at, &high).map_err(|e| ("untyped:structure".to_string(), e))?;
    if at != body.len() - 1 {
        return Err(("untyped:structure".into(), format!("the nested form covers {at} of {} instructions", body.len() - 1)));
    }
    let LowLevelBody(back) = match guarded(|| LowLevelBody::from(high)) {
        Err(p) => return Err(("untyped:panic".into(), format!("lowering panicked: {p}"))),
        Ok(x) => x,
    };
    if back != body {
        let k = back.iter().zip(body).position(|(a, b)| a != b).unwrap_or(back.len().min(body.len()));
        return Err(("untyped:roundtrip".into(), format!("instruction {k}: {:?} became {:?}", body.get(k), back.get(k))));
    }
    Ok(true)
}
fn types(f: &Function, m: &Module, body: &[Low]) -> Option<Vec<InferredInstructionType>> {
    guarded(|| {
        let mut t = TypeChecker::begin_function(f, m);
        body.iter().map(|i| t.check_next_instr(i).ok()).collect::<Option<Vec<_>>>()
    })
    .ok()
    .flatten()
}
/// Ok(None): refused
fn examine(m: &Module, f: &Function, code: &Code, idx: u32) -> Result<Option<usize>, (String, String)> {
    let ty = types(f, m, &code.body);
    let i: Idx<Function> = idx.into();
    let lifted: Result<HighLevelBody, LowToHighError> = match guarded(|| HighLevelBody::try_from((m, f, code, &i))) {
        Err(p) => return Err(("panic".into(), format!("lifting panicked: {p}"))),
        Ok(x) => x,
    };
    let high = match lifted {
        Err(_) => return Ok(None),
        Ok(h) => h,
    };
    let Some(ty) = ty else {
        return Err(("ill-typed-accepted".into(), "lifted although type inference fails".into()));
    };
    let mut w = Walk { body: &code.body, types: &ty, f: idx, at: 0, depth: 0, deepest: 0 };
    w.seq(&high.0)?;
    w.expect(&Low::End)?;
    if w.at != code.body.len() {
        return Err(("structure".into(), format!("the nested form covers {} of {} instructions", w.at, code.body.len())));
    }
    let deepest = w.deepest;
    let LowLevelBody(back) = match guarded(|| LowLevelBody::from(high)) {
        Err(p) => return Err(("panic".into(), format!("lowering panicked: {p}"))),
        Ok(x) => x,
    };
    if back != code.body {
        let k = back.iter().zip(&code.body).position(|(a, b)| a != b).unwrap_or(back.len().min(code.body.len()));
        let name = format!("{:?}", code.body.get(k)).split(['(', ' ', '{']).nth(1).unwrap_or("").to_string();
        return Err((
            format!("roundtrip:{name}"),
            format!("instruction {k}: {:?} became {:?} ({} instructions, {} before)", code.body.get(k), back.get(k), back.len(), code.body.len()),
        ));
    }
    Ok(Some(deepest))
}
fn mutate(r: &mut Rng, b: &mut Vec<Low>) -> &'static str {
    let ty = FunctionType::empty();
    let one = FunctionType::new(&[], &[ValType::I32]);
    let brackets = [Low::Block(ty), Low::Loop(ty), Low::If(ty), Low::Else, Low::End, Low::Block(one)];
    match r.below(9) {
        0 => {
            b.clear();
            "empty"
        }
        1 => {
            b.pop();
            "last removed"
        }
        2 => {
            b.push(r.pick(&brackets).clone());
            "bracket appended"
        }
        3 => {
            let k = r.below(b.len() + 1);
            b.insert(k, r.pick(&brackets).clone());
            "bracket inserted"
        }
        4 if !b.is_empty() => {
            let c: Vec<usize> = (0..b.len()).filter(|k| matches!(b[*k], Low::End | Low::Else | Low::Block(_) | Low::Loop(_) | Low::If(_))).collect();
            if !c.is_empty() {
                b.remove(*r.pick(&c));
            }
            "bracket removed"
        }
        5 if b.len() > 1 => {
            let k = r.below(b.len() - 1);
            b.swap(k, k + 1);
            "swapped"
        }
        6 => {
            // instructions of a bare shape
            b.clear();
            for _ in 0..r.below(8) {
                b.push(r.pick(&brackets).clone());
            }
            "brackets only"
        }
        7 => {
            let k = r.below(b.len() + 1);
            b.truncate(k);
            if r.bool() {
                b.push(Low::End);
            }
            "cut"
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                b.insert(0, r.pick(&brackets[..3]).clone());
            }
            "prefixed"
        }
    }
}
fn nested(r: &mut Rng) -> Vec<Low> {
    // deep nesting, alternating
    let ty = FunctionType::empty();
    let n = *r.pick(&[10usize, 100, 400]);
    let mut b = vec![];
    let mut close = vec![];
    for _ in 0..n {
        match r.below(4) {
            0 => {
                b.push(Low::Block(ty));
                close.push(0);
            }
            1 => {
                b.push(Low::Loop(ty));
                close.push(0);
            }
            k => {
                b.push(Low::Const(wasabi_wasm::Val::I32(r.u32() as i32)));
                b.push(Low::If(ty));
                close.push(k - 1);
            }
        }
        if r.chance(1, 3) {
            b.push(Low::Nop);
        }
    }
    for c in close.into_iter().rev() {
        if c == 1 {
            b.push(Low::Else);
            if r.chance(1, 3) {
                b.push(Low::Nop);
            }
        }
        b.push(Low::End);
    }
    b.push(Low::End);
    b
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "one observation = one function body lifted, checked position by position and lowered to itself".into();
    let n = ctx.n(40_000, 1_200_000);
    parallel(ctx, 1, n, |_, r, rep| {
        let c = some_case(r, true);
        let Ok((m, ..)) = Module::from_bytes(&c.bytes) else { panic!("module not read") };
        let all: Vec<(Idx<Function>, Function)> = m.functions().map(|(i, f)| (i, f.clone())).collect();
        for (i, f) in &all {
            let Some(code) = f.code() else { continue };
            // the recorded function number is the given one, whatever it is
            let idx = if r.chance(1, 4) { r.u32() >> 8 } else { i.to_u32() };
            rep.evals += 1;
            match examine(&m, f, code, idx) {
                Err((s, d)) => {
                    rep.violation(&s, format!("function {}: {d}\n{}", i.to_u32(), wasmprinter::print_bytes(&c.bytes).unwrap_or_default()));
                    return;
                }
                Ok(None) => {
                    rep.violation("valid-refused", format!("function {} of a valid module was refused\n{}", i.to_u32(), wasmprinter::print_bytes(&c.bytes).unwrap_or_default()));
                    return;
                }
                Ok(Some(d)) => {
                    rep.count("instructions", code.body.len() as u64);
                    rep.most("max nesting", d as u64);
                    rep.saw(&format!("{:?}", code.body));
                    if rep.samples.is_empty() && code.body.len() > 10 {
                        rep.samples.push(json!({"function": i.to_u32(), "instructions": code.body.len(), "nesting": d}));
                    }
                }
            }
            if let Err((s, d)) = examine_untyped(&code.body) {
                rep.violation(&s, format!("function {}: {d}\n{}", i.to_u32(), wasmprinter::print_bytes(&c.bytes).unwrap_or_default()));
                return;
            }
            // broken versions of it
            for _ in 0..3 {
                let mut f2 = f.clone();
                let mut code2 = code.clone();
                let what = if r.chance(1, 40) {
                    code2.body = nested(r);
                    f2.type_ = FunctionType::empty();
                    "deep"
                } else {
                    let mut w = mutate(r, &mut code2.body);
                    if r.chance(1, 3) {
                        w = mutate(r, &mut code2.body);
                    }
                    w
                };
                f2.code = ImportOrPresent::Present(code2.clone());
                rep.evals += 1;
                match examine_untyped(&code2.body) {
                    Ok(true) => rep.count("untyped: represented", 1),
                    Ok(false) => rep.count("untyped: refused", 1),
                    Err((s, d)) => {
                        rep.violation(&format!("altered:{s}"), format!("{what}: {d}\n{}", truncate(&format!("{:?}", code2.body), 3000)));
                        return;
                    }
                }
                match examine(&m, &f2, &code2, idx) {
                    Err((s, d)) => {
                        rep.violation(&format!("altered:{s}"), format!("{what}: {d}\ntype {:?}\n{}", f2.type_, truncate(&format!("{:?}", code2.body), 3000)));
                        return;
                    }
                    Ok(None) => rep.count(&format!("refused: {what}"), 1),
                    Ok(Some(d)) => {
                        rep.count(&format!("still representable: {what}"), 1);
                        rep.most("max nesting", d as u64);
                    }
                }
            }
        }
    });
}
