mod model;
use model::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::Arc;
use vcommon::{guarded, hash64, quiet_panics, truncate, Ctx, Rng};
use wasp_compiler::ast::pest::CallQualifier;
use wasp_compiler::ast::wasp as w;
use wasp_compiler::{compile, CompilationResult, Error};

fn lift_ps(ps: &[w::WasmParameter]) -> Vec<P> {
    ps.iter()
        .map(|p| {
            let t = match p.identifier_type {
                w::WasmType::I32 => "I32",
                w::WasmType::F32 => "F32",
                w::WasmType::I64 => "I64",
                w::WasmType::F64 => "F64",
            };
            let shown = p.get_type().to_string();
            (p.identifier.clone(), if shown == t.to_lowercase() { t.to_string() } else { format!("{t}/{shown}") })
        })
        .collect()
}
/// What the compiled aspect says, in the vocabulary of the model.
fn lift(root: &w::Root) -> Vec<Raw> {
    root.0
        .iter()
        .map(|d| match d {
            w::AdviceDefinition::AdviceGlobal(b) => Raw::Global(b.clone()),
            w::AdviceDefinition::AdviceTrap(t) => match t {
                w::TrapSignature::TrapApply(w::TrapApply { apply_hook_signature, body }) => match apply_hook_signature {
                    w::ApplyHookSignature::Gen(g) => {
                        let k = match g.generic_means {
                            w::GenericTarget::HighLevel => 0,
                            w::GenericTarget::Dynamic => 1,
                            w::GenericTarget::MutableDynamic => 2,
                        };
                        Raw::Gen {
                            f: g.parameter_function.clone(),
                            a: (g.parameter_arguments.clone(), GEN_KINDS[k].0.into()),
                            r: (g.parameter_results.clone(), GEN_KINDS[k].1.into()),
                            body: body.clone(),
                        }
                    }
                    w::ApplyHookSignature::Spe(s) => Raw::Spe {
                        m: !s.mutable_signature, // as pinned by the repository's own tests
                        f: s.apply_parameter.clone(),
                        a: lift_ps(&s.parameters_arguments),
                        r: lift_ps(&s.parameters_results),
                        body: body.clone(),
                    },
                },
                w::TrapSignature::TrapCall(c) => Raw::Call {
                    post: c.call_qualifier == CallQualifier::Post,
                    f: c.formal_target.0.clone(),
                    body: c.body.clone(),
                },
                w::TrapSignature::TrapBlockPre(x) => Raw::BlockPre(x.body.clone()),
                w::TrapSignature::TrapBlockPost(x) => Raw::BlockPost(x.body.clone()),
                w::TrapSignature::TrapLoopPre(x) => Raw::LoopPre(x.body.clone()),
                w::TrapSignature::TrapLoopPost(x) => Raw::LoopPost(x.body.clone()),
                w::TrapSignature::TrapSelect(x) => {
                    Raw::Select { c: x.select_formal_condition.0.clone(), body: x.body.clone() }
                }
                w::TrapSignature::TrapCallIndirectPre(x) => {
                    Raw::CallIndPre { t: x.formal_table.0.clone(), i: x.formal_index.0.clone(), body: x.body.clone() }
                }
                w::TrapSignature::TrapCallIndirectPost(x) => {
                    Raw::CallIndPost { t: x.formal_table.0.clone(), body: x.body.clone() }
                }
                w::TrapSignature::TrapIfThen(x) => {
                    Raw::IfThen { c: x.branch_formal_condition.0.clone(), body: x.body.clone() }
                }
                w::TrapSignature::TrapIfThenElse(x) => {
                    Raw::IfThenElse { c: x.branch_formal_condition.0.clone(), body: x.body.clone() }
                }
                w::TrapSignature::TrapBrIf(x) => Raw::BrIf {
                    c: x.branch_formal_condition.0.clone(),
                    l: x.branch_formal_label.0.clone(),
                    body: x.body.clone(),
                },
                w::TrapSignature::TrapBrTable(x) => Raw::BrTable {
                    t: x.branch_formal_target.0.clone(),
                    d: x.branch_formal_default.0.clone(),
                    body: x.body.clone(),
                },
            },
        })
        .collect()
}

fn run(src: &str) -> Result<Result<CompilationResult, Error>, String> {
    vcommon::label(truncate(src, 3000));
    guarded(|| compile(src))
}

fn first_diff(a: &[Raw], b: &[Raw]) -> String {
    let n = a.len().max(b.len());
    for i in 0..n {
        if a.get(i) != b.get(i) {
            return format!("advice {i}: expected {:?}\n          got {:?}", a.get(i), b.get(i));
        }
    }
    "equal".into()
}
fn blank_bodies(v: &[Raw]) -> Vec<Raw> {
    v.iter().map(|r| r.clone().with_body(String::new())).collect()
}

fn w01(ctx: &mut Ctx) {
    let n = ctx.n(50_000, 1_500_000);
    let mut rng = ctx.rng(1);
    for i in 0..n {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let advs = if i < 17 * 20 { vec![advice_of_form(&mut rng, (i % 17) as usize)] } else { aspect(&mut rng) };
        let toks = aspect_tokens(&advs);
        let style = rng.below(3);
        let src = render(&mut rng, &toks, style);
        ctx.eval();
        match run(&src) {
            Err(p) => ctx.violation("panic", &format!("panic {p}\nsource:\n{src}")),
            Ok(Err(e)) => ctx.violation("rejected-valid", &format!("rejected: {e}\nsource:\n{src}")),
            Ok(Ok(c)) => {
                let got = lift(&c.wasp_root);
                // kinds, order, parameters; the bodies are W02's, but which body belongs to
                // which advice is part of this property too
                if got != advs {
                    ctx.violation("advice-differs", &format!("{}\nsource:\n{src}", first_diff(&advs, &got)));
                }
                for a in &advs {
                    ctx.count(&format!("form {}", a.form()), 1);
                }
                ctx.count("advices", advs.len() as u64);
                ctx.saw(&blank_bodies(&advs));
                if i % 1000 == 500 {
                    ctx.sample(json!({"source": truncate(&src, 400), "advices": advs.len()}));
                }
            }
        }
        // the same advices under another layout give the same result
        if i % 5 == 0 {
            let src2 = render(&mut rng, &toks, 2);
            ctx.eval();
            match (run(&src), run(&src2)) {
                (Ok(Ok(a)), Ok(Ok(b))) if a == b => ctx.count("layout pairs equal", 1),
                (_, b) => ctx.violation("layout-changes-result", &format!("source 1:\n{src}\nsource 2:\n{src2}\n{b:?}")),
            }
        }
    }
    ctx.rule = "random aspects (0-60 advices over all 17 forms, random names/types/arities, random layout); non-trivial: distinct advice sequences by kind, parameters and types".into();
}

fn w02(ctx: &mut Ctx) {
    let n = ctx.n(50_000, 1_500_000);
    let mut rng = ctx.rng(2);
    // systematic: every special snippet alone, doubled and in every pair, for a few forms
    const SN: &[&str] = &[
        "", " ", "\n", "#|", "|#", "#||#", "#| x |#", "#|#", "|#|", "<", "<<<GUEST", "<<<GUEST<<", ">>>GUEST>>>", "(aspect)", "\u{0}",
        "🔴", "\r\n", "\t", "\\", "\"", "'", "; //", "/*", "*/", "a", "#|<<<GUEST", "<<<#||#GUEST<<<",
    ];
    let mut fixed: Vec<Vec<String>> = vec![];
    for a in SN {
        for b in SN {
            fixed.push(vec![format!("{a}{b}")]);
            fixed.push(vec![a.to_string(), b.to_string()]);
            fixed.push(vec![format!("{a}x{b}"), format!("{b} {a}")]);
        }
    }
    let total = fixed.len() as u64 + n;
    for i in 0..total {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let bodies: Vec<String> = if (i as usize) < fixed.len() {
            fixed[i as usize].clone()
        } else {
            (0..rng.range(1, 6)).map(|_| body(&mut rng)).collect()
        };
        if bodies.iter().any(|b| format!("{b}{CLOSE}").find(CLOSE) != Some(b.len())) {
            continue;
        }
        let advs: Vec<Raw> = bodies.into_iter().map(|b| advice(&mut rng).with_body(b)).collect();
        let style = rng.below(3);
        let src = render(&mut rng, &aspect_tokens(&advs), style);
        ctx.eval();
        match run(&src) {
            Err(p) => ctx.violation("panic", &format!("panic {p}\nsource:\n{src}")),
            Ok(Err(e)) => ctx.violation("rejected-valid", &format!("rejected: {e}\nsource:\n{src}")),
            Ok(Ok(c)) => {
                let got = lift(&c.wasp_root);
                let gb: Vec<&str> = got.iter().map(Raw::body).collect();
                let eb: Vec<&str> = advs.iter().map(Raw::body).collect();
                if gb != eb {
                    ctx.violation("guest-differs", &format!("expected {eb:?}\ngot      {gb:?}\nsource:\n{src}"));
                }
                for b in &eb {
                    ctx.count("bodies", 1);
                    ctx.count("body bytes", b.len() as u64);
                    if b.contains("#|") || b.contains("|#") {
                        ctx.count("bodies with comment markers", 1);
                    }
                    ctx.saw(b);
                }
                if i % 2500 == 7 {
                    ctx.sample(json!({"bodies": eb.iter().map(|b| truncate(b, 80)).collect::<Vec<_>>()}));
                }
            }
        }
    }
    ctx.rule = "random and systematic guest texts (comment markers, partial delimiters, blanks, multi-byte text) in 1-6 advices; non-trivial: distinct guest texts".into();
}

fn mutate(rng: &mut Rng, toks: &mut Vec<String>) {
    const JUNK: &[&str] = &[
        "(", ")", "aspect", "advice", "global", "apply", "call", "pre", "post", "Mut", "mut", "(a I32)", "(a Args)", "WasmFunction",
        "Condition", "Label", "if_then", "if_then_else", "br_if", "br_table", "call_indirect", "select", "block", "loop", ">>>GUEST>>>",
        "<<<GUEST<<<", ">>>GUEST>>>x<<<GUEST<<<", "#|", "|#", "#| c |#", "x1", "1", "I", "i32", "_", "a_b", "", "(aspect)", "Conditions",
        "Target", "Default", "(func WasmFunction)", "FunctionIndex", "FunctionTable", "FunctionTableIndex", "é", "\u{a0}", "\u{c}", "\u{b}",
        "\0", ";", "-", "(a\u{a0}I32)", "T1", "Ié", "Aspect", "ASPECT", "brtable", "br-if", "#", "|", "(a B C)", "()",
    ];
    for _ in 0..rng.range(1, 3) {
        let k = rng.below(toks.len().max(1));
        match rng.below(8) {
            0 if !toks.is_empty() => {
                toks.remove(k);
            }
            1 if !toks.is_empty() => {
                let t = toks[k].clone();
                toks.insert(k, t);
            }
            2 if toks.len() > 1 => {
                let j = rng.below(toks.len());
                toks.swap(k, j);
            }
            3 if !toks.is_empty() => toks.truncate(k),
            4 if !toks.is_empty() => toks[k] = rng.pick(JUNK).to_string(),
            5 if !toks.is_empty() => {
                let t = &mut toks[k];
                if !t.is_empty() {
                    let cs: Vec<char> = t.chars().collect();
                    let at = rng.below(cs.len());
                    let mut c2 = cs.clone();
                    match rng.below(4) {
                        0 => {
                            c2.remove(at);
                        }
                        1 => c2.insert(at, *rng.pick(&['x', 'Z', '1', '_', ' ', '(', ')', '<', '>', '#', '|', 'é'])),
                        2 => c2[at] = if cs[at].is_ascii_lowercase() { cs[at].to_ascii_uppercase() } else { cs[at].to_ascii_lowercase() },
                        _ => c2.swap(at, cs.len() - 1),
                    }
                    *t = c2.into_iter().collect();
                }
            }
            6 => {
                let at = rng.below(toks.len() + 1);
                toks.insert(at, rng.pick(JUNK).to_string());
            }
            _ if toks.len() > 2 => {
                let j = rng.range(k, toks.len() - 1);
                toks.drain(k..j);
            }
            _ => {}
        }
    }
}

fn acceptance(ctx: &mut Ctx, src: &str, seen: &mut BTreeSet<u64>) {
    ctx.eval();
    let reference = Rec::parse(src);
    match run(src) {
        Err(p) => ctx.violation("panic", &format!("panic {p}\nsource:\n{}", truncate(src, 3000))),
        Ok(got) => match (reference, got) {
            (None, Ok(c)) => {
                ctx.violation("accepted-malformed", &format!("accepted as {:?}\nsource:\n{src}", lift(&c.wasp_root)))
            }
            (None, Err(e)) => {
                if e.to_string().trim().is_empty() {
                    ctx.violation("error-without-reason", &format!("{e:?}\nsource:\n{src}"));
                }
                ctx.count("rejected (malformed)", 1);
                if seen.insert(hash64(&src)) {
                    ctx.saw(&src);
                }
            }
            (Some(raws), got) => {
                let bad: Vec<Bad> = raws.iter().flat_map(defects).collect();
                match got {
                    Ok(c) if bad.is_empty() => {
                        if lift(&c.wasp_root) != raws {
                            ctx.violation(
                                "advice-differs",
                                &format!("{}\nsource:\n{src}", first_diff(&raws, &lift(&c.wasp_root))),
                            );
                        }
                        ctx.count("accepted (well-formed)", 1);
                        if seen.insert(hash64(&src)) {
                            ctx.saw(&src);
                        }
                    }
                    Err(e) if !bad.is_empty() => {
                        ctx.count("rejected (parameters)", 1);
                        let _ = e;
                    }
                    Ok(_) => ctx.violation("accepted-bad-parameters", &format!("{bad:?}\nsource:\n{src}")),
                    Err(e) => ctx.violation("rejected-valid", &format!("{e}\nsource:\n{src}")),
                }
            }
        },
    }
}

fn w03(ctx: &mut Ctx) {
    let n = ctx.n(150_000, 4_000_000);
    let mut rng = ctx.rng(3);
    let mut seen = BTreeSet::new();
    let fixed: Vec<String> = vec![
        "".into(), " ".into(), "(".into(), ")".into(), "()".into(), "(aspect".into(), "aspect".into(), "(aspect))".into(), "(aspect) x".into(),
        "(aspect)(aspect)".into(), "(aspect) #| open".into(), "#| c |#(aspect)#| d |#".into(), "#|(aspect)|#".into(), "(aspect #| |# )".into(),
        "(aspect #|#)".into(), "(aspect (global))".into(), "(aspect (global >>>GUEST>>>x))".into(), "(aspect (global >>>GUEST>>>x<<<GUEST<<))".into(),
        "(aspect (global >>>GUEST>>>x<<<GUEST<<<)".into(), "(aspect (advice))".into(), "(aspect\u{a0})".into(), "\u{feff}(aspect)".into(),
        "(aspect)\u{0}".into(), "( #||# aspect #||# )".into(), "(asp ect)".into(), "(aspectglobal)".into(),
        "(aspect(global>>>GUEST>>><<<GUEST<<<))".into(), "(aspect(adviceblockpre>>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice block >>>GUEST>>>x<<<GUEST<<<))".into(), "(aspect (advice call (f FunctionIndex) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) () () >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) ((a I32)) () >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) (Mut) (Mut) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) ((a I32)) (Mut (b I32)) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) (Mut (a I32)) ((b I32)) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) (a Args) ((b I32)) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) (Mut Args) (b Results) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f WasmFunction) (a I) (b Results) >>>GUEST>>>x<<<GUEST<<<))".into(),
        "(aspect (advice apply (f1 WasmFunction) (a Args) (b Results) >>>GUEST>>>x<<<GUEST<<<))".into(),
    ];
    for f in &fixed {
        acceptance(ctx, f, &mut seen);
    }
    // very large inputs
    let scale = ctx.n(20_000, 200_000) as usize;
    let big: Vec<String> = vec![
        "(".repeat(scale), "(aspect".to_string() + &" (".repeat(scale), format!("{}(aspect)", "#||#".repeat(scale)),
        format!("(aspect {})", "(advice call pre (f FunctionIndex) >>>GUEST>>>x<<<GUEST<<<)".repeat(scale / 20)),
        format!("(aspect (global >>>GUEST>>>{}<<<GUEST<<<))", "y".repeat(scale)), format!("(aspect (global >>>GUEST>>>{}", "y".repeat(scale)),
        format!("(aspect (advice call pre ({} FunctionIndex) >>>GUEST>>>x<<<GUEST<<<))", "n".repeat(scale)),
        format!("(aspect (advice apply (f WasmFunction) ({}) ((r I32)) >>>GUEST>>>x<<<GUEST<<<))",
            (0..scale / 100).map(|i| format!("({} I32)", "q".repeat(i % 97 + 1) + &"w".repeat(i / 97))).collect::<String>()),
        "#| ".repeat(scale), ")".repeat(scale), "#".repeat(scale), format!("(aspect {})", " \n\t\r".repeat(scale)),
    ];
    for f in &big {
        acceptance(ctx, f, &mut seen);
        ctx.count("large inputs", 1);
    }
    for i in 0..n {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let src = match rng.below(10) {
            0 => {
                // random text over the language's alphabet
                const AL: &[&str] = &["(", ")", " ", "#|", "|#", "aspect", "advice", "global", "a", ">>>GUEST>>>", "<<<GUEST<<<", "call", "pre", "\n", "🔴", "I32", "(aspect", "))"];
                (0..rng.below(30)).map(|_| *rng.pick(AL)).collect::<String>()
            }
            1 => (0..rng.below(200)).map(|_| char::from_u32(rng.below(0x250) as u32).unwrap_or('\u{fffd}')).collect(),
            2 => {
                let a = aspect(&mut rng);
                render(&mut rng, &aspect_tokens(&a), 1)
            }
            3 => {
                // character-level truncation / deletion of a valid aspect
                let a: Vec<Raw> = (0..rng.range(1, 3)).map(|_| advice(&mut rng)).collect();
                let s: Vec<char> = render(&mut rng, &aspect_tokens(&a), 0).chars().collect();
                let a = rng.below(s.len());
                let b = rng.range(a, s.len() - 1).min(a + rng.below(6));
                s[..a].iter().chain(&s[b..]).collect()
            }
            _ => {
                let a: Vec<Raw> = (0..rng.range(1, 3)).map(|_| advice(&mut rng).with_body("x".into())).collect();
                let mut t = aspect_tokens(&a);
                // split guest tokens so that delimiters can be damaged on their own
                if rng.bool() {
                    t = t.into_iter().flat_map(|x| if x.starts_with(OPEN) { vec![OPEN.to_string(), "x".into(), CLOSE.into()] } else { vec![x] }).collect();
                }
                mutate(&mut rng, &mut t);
                if rng.chance(1, 6) {
                    t.concat()
                } else {
                    let style = rng.below(3);
                    render(&mut rng, &t, style)
                }
            }
        };
        acceptance(ctx, &src, &mut seen);
        if i % 9000 == 11 {
            ctx.sample(json!({"text": truncate(&src, 200), "well_formed": Rec::parse(&src).is_some()}));
        }
    }
    ctx.rule = "token- and character-level mutants of valid aspects, random texts, very large texts, compared with an independent recogniser; non-trivial: distinct texts whose acceptance was decided".into();
}

fn matches_err(e: &Error, bad: &[Bad]) -> bool {
    let msg = e.to_string();
    bad.iter().any(|b| match (b, e) {
        (Bad::Kind(a, r), Error::IncorrectArgsRessType(x, y)) => a == x && r == y && msg.contains(a) && msg.contains(r),
        (Bad::NotUnique(v), Error::NonUniqueParameters(x)) => v == x && v.iter().all(|n| msg.contains(n)),
        (Bad::DupWithin(n), Error::DuplicateParameter(x)) => n == x && msg.contains(n),
        (Bad::DupAcross(n), Error::DuplicateArgsRessParameter(x)) => n == x && msg.contains(n),
        (Bad::Type(t), Error::UnsupportedIdentifierType { unsupported, supported }) => {
            let mut s: Vec<&str> = supported.iter().map(String::as_str).collect();
            s.sort_unstable();
            t == unsupported && s == ["F32", "F64", "I32", "I64"] && msg.contains(t)
        }
        _ => false,
    })
}

fn w04(ctx: &mut Ctx) {
    let n = ctx.n(80_000, 2_000_000);
    let mut rng = ctx.rng(4);
    const KINDS: &[&str] = &["Args", "DynArgs", "MutDynArgs", "Results", "DynResults", "MutDynResults", "I32", "Arg", "ARGS", "Dyn", "MutArgs", "Args1"];
    const TYPES: &[&str] = &["I32", "F32", "I64", "F64", "I33", "I16", "F128", "V128", "Args", "I3", "FuncRef", "I32x", "Int", "F3", "I640"];
    const NAMES: &[&str] = &["a", "b", "A", "ab", "aa", "aaa", "c", "d", "f", "F", "func", "Func"];
    // all kind combinations x name patterns
    let mut cases: Vec<Raw> = vec![];
    for ka in KINDS {
        for kr in KINDS {
            for (f, a, r) in [("f", "a", "r"), ("x", "x", "r"), ("x", "a", "x"), ("f", "x", "x"), ("x", "x", "x"), ("a", "A", "aa")] {
                cases.push(Raw::Gen { f: f.into(), a: (a.into(), ka.to_string()), r: (r.into(), kr.to_string()), body: "g".into() });
            }
        }
    }
    // every pair of positions sharing a name, every position with a wrong type
    for na in 1..=4usize {
        for nr in 1..=3usize {
            for m in [false, true] {
                let base = |i: usize| ("abcdefghij"[i..=i].to_string(), TYS[i % 4].name().to_string());
                let mk = |ps: Vec<P>| Raw::Spe { m, f: "z".into(), a: ps[..na].to_vec(), r: ps[na..].to_vec(), body: "g".into() };
                let all: Vec<P> = (0..na + nr).map(base).collect();
                cases.push(mk(all.clone()));
                for i in 0..na + nr {
                    let mut v = all.clone();
                    v[i].1 = "V128".into();
                    cases.push(mk(v));
                    let mut v = all.clone();
                    v[i].0 = "z".into(); // same as the function parameter: allowed
                    cases.push(mk(v));
                    let mut v = all.clone();
                    v[i].0 = v[i].0.to_uppercase();
                    cases.push(mk(v));
                    for j in 0..i {
                        let mut v = all.clone();
                        v[i].0 = v[j].0.clone();
                        cases.push(mk(v));
                    }
                    // all types at this position
                    for t in TYPES {
                        let mut v = all.clone();
                        v[i].1 = t.to_string();
                        cases.push(mk(v));
                    }
                }
            }
        }
    }
    let fixed = cases.len() as u64;
    ctx.count("systematic cases", fixed);
    for i in 0..fixed + n {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let target = if i < fixed {
            cases[i as usize].clone()
        } else if rng.bool() {
            Raw::Gen {
                f: rng.pick(NAMES).to_string(),
                a: (rng.pick(NAMES).to_string(), rng.pick(KINDS).to_string()),
                r: (rng.pick(NAMES).to_string(), rng.pick(KINDS).to_string()),
                body: "g".into(),
            }
        } else {
            let wide = rng.chance(1, 3);
            let na = rng.range(1, 6);
            let nr = rng.range(1, 5);
            if rng.chance(1, 12) {
                // a long list with one name twice, or one odd type, or nothing wrong
                let (ta, tr) = (*rng.pick(&[8, 20, 70, 140, 300]), *rng.pick(&[3, 8, 20, 70, 270]));
                let (na, nr) = (rng.range(1, ta), rng.range(1, tr));
                let mut all: Vec<P> = distinct_idents(&mut rng, na + nr).into_iter().map(|n| (n, rng.pick(&TYS).name().to_string())).collect();
                match rng.below(4) {
                    0 => {}
                    1 => {
                        let (i, j) = (rng.below(na + nr), rng.below(na + nr));
                        all[i].0 = all[j].0.clone();
                    }
                    2 => {
                        let (i, j) = if rng.bool() { (0, na + nr - 1) } else { (rng.below(na), na + rng.below(nr)) };
                        all[j].0 = all[i].0.clone();
                    }
                    _ => {
                        let i = if rng.bool() { na + nr - 1 } else { rng.below(na + nr) };
                        all[i].1 = rng.pick(TYPES).to_string();
                    }
                }
                let r = all.split_off(na);
                ctx.count("long parameter lists", 1);
                Raw::Spe { m: rng.bool(), f: rng.pick(NAMES).to_string(), a: all, r, body: "g".into() }
            } else {
            let mut list = |k: usize| -> Vec<P> {
                (0..k)
                    .map(|_| {
                        let nm = if wide { ident(&mut rng) } else { rng.pick(NAMES).to_string() };
                        let ty = if rng.chance(5, 6) { rng.pick(&TYS).name().to_string() } else { rng.pick(TYPES).to_string() };
                        (nm, ty)
                    })
                    .collect()
            };
            let a = list(na);
            let r = list(nr);
            Raw::Spe { m: rng.bool(), f: rng.pick(NAMES).to_string(), a, r, body: "g".into() }
            }
        };
        let mut advs: Vec<Raw> = if i < fixed && i % 2 == 0 { vec![] } else { (0..rng.below(4)).map(|_| advice(&mut rng)).collect() };
        let at = rng.below(advs.len() + 1);
        advs.insert(at, target.clone());
        let src = render(&mut rng, &aspect_tokens(&advs), 1);
        let bad = defects(&target);
        ctx.eval();
        match run(&src) {
            Err(p) => ctx.violation("panic", &format!("panic {p}\nsource:\n{src}")),
            Ok(Ok(c)) => {
                if !bad.is_empty() {
                    ctx.violation("accepted-bad-parameters", &format!("defects {bad:?} accepted\nsource:\n{src}"));
                } else if lift(&c.wasp_root) != advs {
                    ctx.violation("advice-differs", &format!("{}\nsource:\n{src}", first_diff(&advs, &lift(&c.wasp_root))));
                }
                ctx.count("accepted", 1);
            }
            Ok(Err(e)) => {
                if bad.is_empty() {
                    ctx.violation("rejected-valid", &format!("{e}\nsource:\n{src}"));
                } else if !matches_err(&e, &bad) {
                    ctx.violation("wrong-error", &format!("defects {bad:?}\nerror {e:?}\nsource:\n{src}"));
                }
                for b in &bad {
                    ctx.count(match b {
                        Bad::Kind(..) => "defect kind mismatch",
                        Bad::NotUnique(_) => "defect generic names",
                        Bad::DupWithin(_) => "defect duplicate within list",
                        Bad::DupAcross(_) => "defect duplicate across lists",
                        Bad::Type(_) => "defect unsupported type",
                    }, 1);
                }
                ctx.count("rejected", 1);
            }
        }
        ctx.saw(&target);
        if i % 5000 == 17 {
            ctx.sample(json!({"advice": format!("{target:?}"), "defects": format!("{bad:?}")}));
        }
    }
    ctx.rule = "apply advices with all kind pairs, every coinciding pair of names, every wrong-type position, plus random ones, embedded in aspects; non-trivial: distinct apply advices judged".into();
}

type Jp = (Vec<(&'static str, bool)>, BTreeSet<String>, [bool; 3]);
fn expected_jp(advs: &[Raw]) -> Jp {
    let has = |f: &str| advs.iter().any(|a| a.form() == f);
    let flags = vec![
        ("generic", has("apply-generic")),
        ("if_then", has("if_then")),
        ("if_then_else", has("if_then_else")),
        ("br_if", has("br_if")),
        ("br_table", has("br_table")),
        ("call_pre", has("call-pre")),
        ("call_post", has("call-post")),
        ("call_indirect_pre", has("call_indirect-pre")),
        ("call_indirect_post", has("call_indirect-post")),
        ("block_pre", has("block-pre")),
        ("block_post", has("block-post")),
        ("loop_pre", has("loop-pre")),
        ("loop_post", has("loop-post")),
        ("select", has("select")),
    ];
    let spec = advs
        .iter()
        .filter_map(|a| match a {
            Raw::Spe { a, r, .. } => Some(format!(
                "({}) -> ({})",
                a.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", "),
                r.iter().map(|p| p.1.clone()).collect::<Vec<_>>().join(", ")
            )),
            _ => None,
        })
        .collect();
    let preds = [
        has("apply-generic"),
        ["if_then", "if_then_else", "br_if", "br_table", "select"].iter().any(|f| has(f)),
        ["call-pre", "call-post", "call_indirect-pre", "call_indirect-post"].iter().any(|f| has(f)),
    ];
    (flags, spec, preds)
}
/// The two lists of types of a specialised join point. They are private, so
/// this reads them out of its debug text: by the name in front of each list
/// where that tells them apart, so that the order of the two does not matter.
fn signature_of(debug: &str) -> String {
    let lists: Vec<(String, String)> = debug
        .split(']')
        .filter_map(|part| part.split_once('['))
        .map(|(name, list)| (name.to_lowercase(), list.trim().to_string()))
        .collect();
    let [(n0, l0), (n1, l1)] = lists.as_slice() else { return debug.to_string() };
    let of_results = |n: &str| {
        let n = n.rsplit(['{', ',', '(']).find(|w| !w.trim().is_empty()).unwrap_or("");
        n.contains("res") || n.contains("ret") || n.contains("out")
    };
    let swapped = of_results(n0) || !of_results(n1) && !of_results(n0) && !n0.contains("arg");
    let (a, r) = if swapped { (l1, l0) } else { (l0, l1) };
    format!("({a}) -> ({r})")
}
fn got_jp(c: &CompilationResult) -> Jp {
    let j = &c.join_points;
    let flags = vec![
        ("generic", j.generic),
        ("if_then", j.if_then),
        ("if_then_else", j.if_then_else),
        ("br_if", j.br_if),
        ("br_table", j.br_table),
        ("call_pre", j.call_pre),
        ("call_post", j.call_post),
        ("call_indirect_pre", j.call_indirect_pre),
        ("call_indirect_post", j.call_indirect_post),
        ("block_pre", j.block_pre),
        ("block_post", j.block_post),
        ("loop_pre", j.loop_pre),
        ("loop_post", j.loop_post),
        ("select", j.select),
    ];
    let spec = j.specialized.iter().map(|s| signature_of(&format!("{s:?}"))).collect();
    let r = &c.wasp_root;
    (flags, spec, [r.instruments_generic_apply(), r.instruments_if(), r.instruments_call()])
}

fn w05(ctx: &mut Ctx) {
    let n = ctx.n(50_000, 1_500_000);
    let mut rng = ctx.rng(5);
    // all single forms, all ordered pairs of forms, all pairs plus a repetition
    let mut cases: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..17 {
        cases.push(vec![a]);
        for b in 0..17 {
            cases.push(vec![a, b]);
            cases.push(vec![a, b, a]);
        }
        // everything but this form
        cases.push((0..17).filter(|x| *x != a).collect());
        cases.push((0..17).rev().filter(|x| *x != a).collect());
    }
    let fixed = cases.len() as u64;
    for i in 0..fixed + n {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let forms: Vec<usize> = if i < fixed {
            cases[i as usize].clone()
        } else {
            // random subset, random order, random repetition
            let keep = rng.u32();
            let mut v: Vec<usize> = (0..17).filter(|k| keep >> k & 1 == 1).collect();
            for _ in 0..rng.below(5) {
                if !v.is_empty() {
                    let f = *rng.pick(&v);
                    v.push(f);
                }
            }
            let spe = if rng.chance(1, 100) { *rng.pick(&[33, 64, 65, 130, 260]) } else { rng.below(6) };
            for _ in 0..spe {
                v.push(2 + rng.below(2));
            }
            rng.shuffle(&mut v);
            v
        };
        let mut advs: Vec<Raw> = forms.iter().map(|f| advice_of_form(&mut rng, *f).with_body("g".into())).collect();
        // repeat some specialised signatures with other names
        if rng.chance(1, 3) {
            if let Some(Raw::Spe { a, r, .. }) = advs.iter().find(|x| matches!(x, Raw::Spe { .. })).cloned() {
                let names = distinct_idents(&mut rng, a.len() + r.len());
                let m = rng.bool();
                let (na, nr) = names.split_at(a.len());
                let mut a2: Vec<P> = na.iter().zip(&a).map(|(n, p)| (n.clone(), p.1.clone())).collect();
                let mut r2: Vec<P> = nr.iter().zip(&r).map(|(n, p)| (n.clone(), p.1.clone())).collect();
                if rng.bool() {
                    // the mirrored signature is another one
                    std::mem::swap(&mut a2, &mut r2);
                }
                advs.push(Raw::Spe { m, f: "z".into(), a: a2, r: r2, body: "g".into() });
            }
        }
        let src = render(&mut rng, &aspect_tokens(&advs), 0);
        ctx.eval();
        match run(&src) {
            Ok(Ok(c)) => {
                let (g, e) = (got_jp(&c), expected_jp(&advs));
                if g != e {
                    ctx.violation("join-points-differ", &format!("expected {e:?}\ngot      {g:?}\nsource:\n{src}"));
                }
                if c.join_points != c.wasp_root.join_points() {
                    ctx.violation("join-points-unstable", &src);
                }
                ctx.count("join point sets compared", 1);
                ctx.count("specialised targets", e.1.len() as u64);
                ctx.saw(&e);
                if i % 3000 == 401 {
                    ctx.sample(json!({"forms": advs.iter().map(Raw::form).collect::<Vec<_>>(), "specialised": e.1.len()}));
                }
            }
            Ok(Err(e)) => ctx.violation("rejected-valid", &format!("{e}\nsource:\n{src}")),
            Err(p) => ctx.violation("panic", &format!("{p}\nsource:\n{src}")),
        }
    }
    ctx.rule = "all forms alone, all ordered pairs, all-but-one, random multisets and orders; non-trivial: distinct join point summaries".into();
}

type Norm = Result<(Vec<Raw>, Jp), String>;
fn norm(r: Result<Result<CompilationResult, Error>, String>) -> Norm {
    match r {
        Err(p) => Err(format!("panic {p}")),
        Ok(Err(e)) => Err(e.to_string()),
        Ok(Ok(c)) => Ok((lift(&c.wasp_root), got_jp(&c))),
    }
}

fn w06(ctx: &mut Ctx) {
    let rounds = ctx.n(25, 600);
    let mut rng = ctx.rng(6);
    for round in 0..rounds {
        if ctx.out_of_time() || ctx.enough_violations() {
            break;
        }
        let mut texts: Vec<String> = vec![];
        let mut known: Vec<Option<Vec<Raw>>> = vec![];
        for _ in 0..120 {
            let a = aspect(&mut rng);
            let mut t = aspect_tokens(&a);
            let mutated = rng.chance(1, 3);
            if mutated {
                mutate(&mut rng, &mut t);
            }
            texts.push(render(&mut rng, &t, 1));
            known.push(if mutated { None } else { Some(a) });
        }
        // families of texts that differ in a single character, early or late, of one guest body
        for _ in 0..12 {
            let advs = aspect(&mut rng);
            if advs.is_empty() {
                continue;
            }
            let at = *rng.pick(&[0, advs.len() - 1, advs.len() / 2]);
            let pad = ["x".repeat(rng.below(200)), "y".repeat(rng.below(200))];
            let layout = rng.fork();
            for c in ['a', 'b', 'A', '0', ' '] {
                let mut v = advs.clone();
                v[at] = v[at].clone().with_body(format!("{}-{c}-{}", pad[0], pad[1]));
                texts.push(render(&mut layout.clone(), &aspect_tokens(&v), 1));
                known.push(Some(v));
            }
        }
        // apply defects too, so that error values are compared
        for _ in 0..30 {
            texts.push("(aspect (advice apply (x WasmFunction) (x Args) (b Results) >>>GUEST>>>x<<<GUEST<<<))".replace('b', &ident(&mut rng)));
            known.push(None);
        }
        let texts = Arc::new(texts);
        let base: Arc<Vec<Norm>> = Arc::new(texts.iter().map(|t| norm(run(t))).collect());
        for (i, want) in known.iter().enumerate() {
            if let (Some(want), Ok((got, _))) = (want, &base[i]) {
                ctx.count("texts compared with their own advices", 1);
                if want != got {
                    ctx.violation("result-of-another-text", &format!("{}\n{}", first_diff(want, got), texts[i]));
                }
            }
        }
        let mut handles = vec![];
        for k in 0..8usize {
            let (texts, base, mut r) = (texts.clone(), base.clone(), rng.fork());
            handles.push(std::thread::spawn(move || {
                let mut order: Vec<usize> = (0..texts.len()).chain(0..texts.len()).collect();
                r.shuffle(&mut order);
                let mut bad = vec![];
                for i in order {
                    let got = norm(run(&texts[i]));
                    if got != base[i] {
                        bad.push((k, i, format!("{got:?}")));
                    }
                    if r.chance(1, 10) {
                        std::thread::yield_now();
                    }
                }
                bad
            }));
        }
        for h in handles {
            for (k, i, got) in h.join().expect("monitor thread") {
                ctx.violation("result-depends-on-history", &format!("thread {k} text {i}\nfirst {:?}\nlater {got}\n{}", base[i], texts[i]));
            }
        }
        for (t, b) in texts.iter().zip(base.iter()) {
            ctx.saw(t);
            ctx.count(if b.is_ok() { "texts accepted" } else { "texts rejected" }, 1);
        }
        ctx.evaluations += 16 * texts.len() as u64;
        ctx.count("concurrent compilations", 16 * texts.len() as u64);
        if round == 0 {
            ctx.sample(json!({"threads": 8, "texts": texts.len(), "repetitions_per_thread": 2}));
        }
    }
    ctx.rule = "each text compiled once alone and 16 more times from 8 threads in different shuffled orders, among them families of texts that differ in one character; results of the generated texts compared with the advices written; non-trivial: distinct texts".into();
}

fn main() {
    quiet_panics();
    let mut ctx = Ctx::from_env("");
    ctx.assumptions = vec!["the public result types of wasp-compiler show everything a consumer can observe".into()];
    match ctx.id.as_str() {
        "W01" => w01(&mut ctx),
        "W02" => w02(&mut ctx),
        "W03" => w03(&mut ctx),
        "W04" => w04(&mut ctx),
        "W05" => w05(&mut ctx),
        "W06" => w06(&mut ctx),
        _ => {
            eprintln!("unknown id");
            std::process::exit(2)
        }
    }
    std::process::exit(ctx.finish());
}
