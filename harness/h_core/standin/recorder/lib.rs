//! An analysis written with the repository's Rust analysis library. Every advice tells the host
//! what the library told it and performs the default operation, unless the host wants otherwise.
#![no_std]
extern crate wastrumentation_rs_stdlib;
use wastrumentation_rs_stdlib::*;

#[link(wasm_import_module = "verif")]
extern "C" {
    // what happened; 0: go on as usual, 1: answer `value`, 2: load from `ptr` + `offset`,
    // 3: store `times` times, 4: grow by nothing, 5: say what the operator computes, answer `value`
    fn report(kind: i32, ty: i32, ty2: i32, op: i32, a: i64, b: i64, c: i64, d: i64, funct: i64, instr: i64) -> i32;
    fn value() -> i64;
    fn ptr() -> i32;
    fn offset() -> i64;
    fn times() -> i32;
    fn wrong(code: i32, a: i64, b: i64);
    fn apply_begin(idx: i32, import: i32, argc: i32, resc: i32);
    fn apply_type(arg: i32, k: i32, ty: i32);
    fn apply_arg(k: i32, ty: i32, bits: i64);
    fn apply_go() -> i32;
    fn apply_style() -> i32;
    fn new_arg(k: i32) -> i64;
    fn base_result(k: i32, ty: i32, bits: i64);
    fn base_done();
    fn apply_after();
    fn new_result(k: i32) -> i64;
    fn apply_end();
    fn computed(ty: i32, bits: i64);
}
fn code(t: &WasmType) -> i32 {
    match t {
        WasmType::I32 => 0,
        WasmType::F32 => 1,
        WasmType::I64 => 2,
        WasmType::F64 => 3,
    }
}
fn ty(v: &WasmValue) -> i32 {
    code(&v.type_())
}
fn bits(v: &WasmValue) -> i64 {
    match v.type_() {
        WasmType::I32 => v.as_i32() as u32 as i64,
        WasmType::F32 => v.as_f32().to_bits() as i64,
        WasmType::I64 => v.as_i64(),
        WasmType::F64 => v.as_f64().to_bits() as i64,
    }
}
fn with(t: i32, b: i64) -> WasmValue {
    match t {
        0 => (b as i32).into(),
        1 => f32::from_bits(b as u32).into(),
        2 => b.into(),
        _ => f64::from_bits(b as u64).into(),
    }
}
fn u(v: i32) -> i64 {
    v as u32 as i64
}
fn tell(kind: i32, tys: [i32; 2], op: i32, a: [i64; 4], l: Location) -> i32 {
    unsafe { report(kind, tys[0], tys[1], op, a[0], a[1], a[2], a[3], l.function_index(), l.instruction_index()) }
}
fn event(kind: i32, a: [i64; 4], l: Location) {
    tell(kind, [0, 0], 0, a, l);
}
/// the host's answer, or the default
fn number(kind: i32, a: [i64; 4], l: Location, default: i32) -> i32 {
    match tell(kind, [0, 0], 0, a, l) {
        0 => default,
        _ => unsafe { value() as i32 },
    }
}
fn check(ok: bool, code: i32, a: i64, b: i64) {
    if !ok {
        unsafe { wrong(code, a, b) }
    }
}
fn shown(v: WasmValue) -> WasmValue {
    unsafe { computed(ty(&v), bits(&v)) };
    with(ty(&v), unsafe { value() })
}
fn path(c: &PathContinuation) {
    let (t, e) = (c.is_then(), c.is_else());
    check(t == (c.value() != 0) && t != e, 1, u(c.value()), t as i64);
}
fn unary_code(o: &UnaryOperator) -> i32 {
    match o {
        //UNARY
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
fn binary_code(o: &BinaryOperator) -> i32 {
    match o {
        //BINARY
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
fn load_code(o: &LoadOperation) -> i32 {
    match o {
        //LOAD
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
fn store_code(o: &StoreOperation) -> i32 {
    match o {
        //STORE
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}

advice! { call pre (f: FunctionIndex, l: Location) { event(0, [u(f.value()), 0, 0, 0], l) } }
advice! { call post (f: FunctionIndex, l: Location) { event(1, [u(f.value()), 0, 0, 0], l) } }
advice! { call_indirect pre (i: FunctionTableIndex, t: FunctionTable, l: Location) {
    FunctionTableIndex(number(2, [u(i.value()), u(t.value()), 0, 0], l, i.value()))
} }
advice! { call_indirect post (t: FunctionTable, l: Location) { event(3, [u(t.value()), 0, 0, 0], l) } }
advice! { br (t: BranchTargetLabel, l: Location) { event(4, [t.label(), 0, 0, 0], l) } }
advice! { if_then_else (c: PathContinuation, i: IfThenElseInputCount, a: IfThenElseArity, l: Location) {
    path(&c);
    let v = number(5, [u(c.value()), u(i.value()), u(a.value()), 0], l, c.value());
    // the named continuations are as good as any other number
    if v == 0 && c.value() == 0 { PathContinuation::continue_else() } else if v == 0 { PathContinuation::continue_skip() }
    else if v == 1 { PathContinuation::continue_then() } else { PathContinuation(v) }
} }
advice! { if_then (c: PathContinuation, i: IfThenInputCount, a: IfThenArity, l: Location) {
    path(&c);
    let v = number(6, [u(c.value()), u(i.value()), u(a.value()), 0], l, c.value());
    if v == 0 { PathContinuation::continue_skip() } else if v == 1 { PathContinuation::continue_then() } else { PathContinuation(v) }
} }
advice! { if_then_else_post (l: Location) { event(7, [0; 4], l) } }
advice! { if_then_post (l: Location) { event(8, [0; 4], l) } }
advice! { br_if (c: ParameterBrIfCondition, t: ParameterBrIfLabel, l: Location) {
    check(c.is_then() == (c.value() != 0) && c.is_else() == (c.value() == 0), 2, u(c.value()), 0);
    let v = number(9, [u(c.value()), u(t.label()), 0, 0], l, c.value());
    if v == 0 { ParameterBrIfCondition::continue_else() } else { ParameterBrIfCondition(v) }
} }
advice! { br_table (t: BranchTableTarget, e: BranchTableEffective, d: BranchTableDefault, l: Location) {
    BranchTableTarget(number(10, [u(t.target()), u(e.label()), u(d.value()), 0], l, t.target()))
} }
advice! { select (c: PathContinuation, l: Location) {
    path(&c);
    PathContinuation(number(11, [u(c.value()), 0, 0, 0], l, c.value()))
} }
advice! { unary (o: UnaryOperator, v: WasmValue, l: Location) {
    match tell(12, [ty(&v), 0], unary_code(&o), [bits(&v), 0, 0, 0], l) {
        0 => o.apply(v),
        5 => shown(o.apply(v)),
        _ => with(unsafe { times() }, unsafe { value() }),
    }
} }
advice! { binary (o: BinaryOperator, a: WasmValue, b: WasmValue, l: Location) {
    match tell(13, [ty(&a), ty(&b)], binary_code(&o), [bits(&a), bits(&b), 0, 0], l) {
        0 => o.apply(a, b),
        5 => shown(o.apply(a, b)),
        _ => with(unsafe { times() }, unsafe { value() }),
    }
} }
advice! { drop (l: Location) { event(14, [0; 4], l) } }
advice! { return_ (l: Location) { event(15, [0; 4], l) } }
advice! { const_ (v: WasmValue, l: Location) {
    match tell(16, [ty(&v), 0], 0, [bits(&v), 0, 0, 0], l) {
        0 => v,
        _ => with(ty(&v), unsafe { value() }),
    }
} }
advice! { local (v: WasmValue, i: LocalIndex, o: LocalOp, l: Location) {
    let op = match o { LocalOp::Get => 0, LocalOp::Set => 1, LocalOp::Tee => 2 };
    match tell(17, [ty(&v), 0], op, [bits(&v), i.value(), 0, 0], l) {
        0 => v,
        _ => with(ty(&v), unsafe { value() }),
    }
} }
advice! { global (v: WasmValue, i: GlobalIndex, o: GlobalOp, l: Location) {
    let op = match o { GlobalOp::Get => 0, GlobalOp::Set => 1 };
    match tell(18, [ty(&v), 0], op, [bits(&v), i.value(), 0, 0], l) {
        0 => v,
        _ => with(ty(&v), unsafe { value() }),
    }
} }
advice! { load (i: LoadIndex, o: LoadOffset, op: LoadOperation, l: Location) {
    match tell(19, [0, 0], load_code(&op), [u(i.value()), o.value(), 0, 0], l) {
        0 => op.perform(&i, &o),
        1 => with(unsafe { times() }, unsafe { value() }),
        _ => op.perform(&LoadIndex(unsafe { ptr() }), &LoadOffset(unsafe { offset() })),
    }
} }
advice! { store (i: StoreIndex, v: WasmValue, o: StoreOffset, op: StoreOperation, l: Location) {
    match tell(20, [ty(&v), 0], store_code(&op), [u(i.value()), bits(&v), o.value(), 0], l) {
        0 => op.perform(&i, &v, &o),
        _ => {
            let (p, n) = (unsafe { ptr() }, unsafe { times() });
            let v = with(ty(&v), unsafe { value() });
            for k in 0..n {
                op.perform(&StoreIndex(p.wrapping_add(k * 16)), &v, &o);
            }
        }
    }
} }
advice! { memory_size (s: WasmValue, i: MemoryIndex, l: Location) {
    let have = base_memory_size(i.value() as i32);
    check(have == s.as_i32(), 3, u(have), bits(&s));
    match tell(21, [ty(&s), 0], 0, [bits(&s), i.value(), 0, 0], l) {
        0 => s,
        _ => with(0, unsafe { value() }),
    }
} }
advice! { memory_grow (n: WasmValue, i: MemoryIndex, l: Location) {
    match tell(22, [ty(&n), 0], 0, [bits(&n), i.value(), 0, 0], l) {
        0 => i.grow(n),
        1 => with(0, unsafe { value() }),
        _ => i.grow(0.into()),
    }
} }
advice! { block pre (i: BlockInputCount, a: BlockArity, l: Location) { event(23, [u(i.value()), u(a.value()), 0, 0], l) } }
advice! { block post (l: Location) { event(24, [0; 4], l) } }
advice! { loop_ pre (i: LoopInputCount, a: LoopArity, l: Location) { event(25, [u(i.value()), u(a.value()), 0, 0], l) } }
advice! { loop_ post (l: Location) { event(26, [0; 4], l) } }

fn fresh_arg(k: i32, v: WasmValue) -> WasmValue {
    with(ty(&v), unsafe { new_arg(k) })
}
fn fresh_result(k: i32, v: WasmValue) -> WasmValue {
    with(ty(&v), unsafe { new_result(k) })
}
advice! { apply (f: WasmFunction, args: MutDynArgs, ress: MutDynResults) {
    check(f.is_imported() != f.is_present(), 4, f.is_imported() as i64, f.is_present() as i64);
    check(args.argc == ress.argc && args.resc == ress.resc, 5, u(args.argc), u(ress.argc));
    unsafe { apply_begin(f.instr_f_idx().value(), f.is_imported() as i32, args.argc, args.resc) };
    for k in 0..args.argc {
        unsafe { apply_type(1, k, code(args.get_arg_type(k))) };
    }
    for k in 0..ress.resc {
        unsafe { apply_type(0, k, code(ress.get_res_type(k))) };
    }
    let mut n = 0;
    for (k, v) in args.args_iter().enumerate() {
        unsafe { apply_arg(k as i32, ty(&v), bits(&v)) };
        let other = args.get_arg(k as i32);
        check(other == v, 6, k as i64, bits(&other));
        n += 1;
    }
    check(n == args.argc, 7, n as i64, u(args.argc));
    let rounds = unsafe { apply_go() };
    // 0: one by one, upwards; 1: all at once; 2: one by one, downwards
    let style = unsafe { apply_style() };
    if style == 1 {
        args.update_each_arg(fresh_arg);
    } else {
        for k in 0..args.argc {
            let k = if style == 0 { k } else { args.argc - 1 - k };
            let v = fresh_arg(k, args.get_arg(k));
            args.set_arg(k, v);
        }
    }
    for _ in 0..rounds {
        f.apply();
        let mut n = 0;
        for (k, v) in ress.ress_iter().enumerate() {
            unsafe { base_result(k as i32, ty(&v), bits(&v)) };
            let other = ress.get_res(k as i32);
            check(other == v, 8, k as i64, bits(&other));
            n += 1;
        }
        check(n == ress.resc, 9, n as i64, u(ress.resc));
        unsafe { base_done() };
    }
    unsafe { apply_after() };
    if style == 1 {
        ress.update_each_res(fresh_result);
    } else {
        for k in 0..ress.resc {
            let k = if style == 0 { k } else { ress.resc - 1 - k };
            let v = fresh_result(k, ress.get_res(k));
            ress.set_res(k, v);
        }
    }
    unsafe { apply_end() };
} }
