//! One analysis, two sides: the reference interpreter calls it as documented, the instrumented
//! program calls it through its imports. What it answers depends only on what it was told.
use crate::gen::interesting;
use crate::interp::*;
use crate::traps::*;
use crate::wasm::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use vcommon::Rng;

/// FNV, stable between builds
#[derive(Clone)]
pub struct Fnv(u64);
impl Fnv {
    pub fn new(seed: u64) -> Fnv {
        Fnv(0xcbf2_9ce4_8422_2325 ^ seed.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
}
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x ^ (x >> 31)
    }
}
pub fn fnv(seed: u64, t: impl Hash) -> u64 {
    let mut h = Fnv::new(seed);
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    /// arguments without, and the location
    Trap { name: &'static str, args: Vec<u64>, at: (u64, u64) },
    Apply { idx: u64, args: Vec<(VT, u64)>, results: Vec<VT>, import: bool },
    /// what the base call left in the result slots
    Base { idx: u64, results: Vec<u64> },
    Host { name: String, args: Vec<u64> },
}

#[derive(Clone, Debug, Default)]
pub struct Policy {
    pub seed: u64,
    /// events are answered differently from the default
    pub alter: bool,
    pub alter_apply: bool,
    /// the analysis turns every NaN into zero
    pub denan: bool,
    /// only this trap is altered, if any
    pub only: Option<&'static str>,
    pub cap: usize,
    /// watch the library's buffers
    pub ledger: bool,
    /// steps of the original, if not FUEL
    pub fuel: u64,
}
impl Policy {
    pub fn fuel(&self) -> u64 {
        if self.fuel == 0 {
            FUEL
        } else {
            self.fuel
        }
    }
}
/// What the analysis does about an event.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Plan {
    Default,
    Answer(u64),
    Load { ptr: u64, off: u64 },
    Store { ptr: u64, v: u64, times: u64 },
    Grow0,
}
/// What the analysis does about an application.
#[derive(Clone)]
pub struct Application {
    pub idx: u64,
    pub ft: FT,
    pub args: Vec<u64>,
    pub times: u64,
    pub alter: bool,
    r: Rng,
    pub base: Vec<u64>,
}
#[derive(Clone, Debug)]
pub enum HostFn {
    Env { name: String, calls_back: bool, ty: FT },
    Trap(&'static TrapInfo),
    Apply,
    /// an export of the library, watched
    Lib { name: String, f: usize },
    /// an export of a compiled analysis
    Compiled(String),
    /// an import of the recording analysis
    Recorder(String),
    /// nothing provides this import
    Missing(String),
}
/// Buffers the program asked the library for and has not returned.
#[derive(Default, Debug, Clone)]
pub struct Ledger {
    pub live: HashMap<(bool, String, u64), i64>,
    pub allocated: u64,
    pub used: u64,
    pub freed: u64,
}
/// Host of both sides.
pub struct World {
    pub policy: Policy,
    pub hosts: Vec<HostFn>,
    pub log: Vec<Ev>,
    pub host_calls: u64,
    /// functions called through the tables after the script
    pub probes: u64,
    pub callbacks: u64,
    pub reference: bool,
    pub main: usize,
    pub lib: Option<usize>,
    /// deviations from the protocol between program and analysis (instrumented side)
    pub protocol: Vec<String>,
    /// exported functions of the original program, for callbacks
    pub entry: Vec<(String, FT)>,
    pub apply_depth: u64,
    pub max_apply_depth: u64,
    pub altered: u64,
    pub ledger: Ledger,
    /// a compiled analysis
    pub analysis: Option<usize>,
    pub recorder: crate::alib::Recorder,
}
impl World {
    pub fn new(policy: Policy, reference: bool, entry: Vec<(String, FT)>) -> World {
        World {
            policy,
            hosts: vec![],
            log: vec![],
            host_calls: 0,
            probes: 0,
            callbacks: 0,
            reference,
            main: usize::MAX,
            lib: None,
            protocol: vec![],
            entry,
            apply_depth: 0,
            max_apply_depth: 0,
            altered: 0,
            ledger: Ledger::default(),
            analysis: None,
            recorder: Default::default(),
        }
    }
    pub fn push(&mut self, e: Ev) -> Res<()> {
        if self.log.len() >= self.policy.cap {
            return Err(Trap::Host("cap".into()));
        }
        self.log.push(e);
        Ok(())
    }
    pub fn wrong(&mut self, m: String) -> Trap {
        if self.protocol.len() < 5 {
            self.protocol.push(m);
        }
        Trap::Host("protocol".into())
    }
    fn memory(&self, s: &Store) -> Option<usize> {
        s.insts[self.main].mems.first().copied()
    }
    fn helper(&mut self, s: &mut Store, k: Helper, args: &[u64]) -> Res<Vec<u64>> {
        let (name, ..) = helpers().into_iter().find(|(_, _, h)| *h == k).expect("helper");
        match s.export_func(self.main, &name) {
            Some(f) => s.invoke(self, f, args),
            None => Err(self.wrong(format!("no export {name}"))),
        }
    }
    fn base_load(&mut self, s: &mut Store, op: u8, ptr: u64, off: u64) -> Res<u64> {
        if self.reference {
            let m = self.memory(s).expect("memory");
            s.mems[m].load(op, ptr as u32, off)
        } else {
            Ok(self.helper(s, Helper::Load(op), &[ptr, off])?[0])
        }
    }
    fn base_store(&mut self, s: &mut Store, op: u8, ptr: u64, off: u64, v: u64) -> Res<()> {
        if self.reference {
            let m = self.memory(s).expect("memory");
            s.mems[m].store(op, ptr as u32, off, v)
        } else {
            self.helper(s, Helper::Store(op), &[ptr, v, off]).map(|_| ())
        }
    }
    fn base_grow(&mut self, s: &mut Store, n: u64) -> Res<u64> {
        if self.reference {
            let m = self.memory(s).expect("memory");
            Ok(s.grow(m, n as u32))
        } else {
            Ok(self.helper(s, Helper::Grow, &[n, 0])?[0])
        }
    }
    /// Logs the event and decides what the analysis does about it.
    pub fn plan(&mut self, t: &'static TrapInfo, all: &[u64]) -> Res<Plan> {
        let k = all.len() - 2;
        let (args, at) = (all[..k].to_vec(), (all[k], all[k + 1]));
        self.push(Ev::Trap { name: t.name, args: args.clone(), at })?;
        let h = fnv(self.policy.seed, (t.name, &args, self.log.len()));
        let mut r = Rng::new(h);
        let alter = self.policy.alter && self.policy.only.is_none_or(|n| n == t.name) && r.chance(1, 3);
        if alter && (!t.results.is_empty() || t.hook == "Store") {
            self.altered += 1;
        }
        match t.hook {
            "Unary" => {
                let op = args[1];
                if !(1..=60).contains(&op) || unary_trap(op as u8) != t.name {
                    return Err(self.wrong(format!("operator {op} reported to {}", t.name)));
                }
            }
            "Binary" => {
                let op = args[2];
                if !(1..=76).contains(&op) || binary_trap(op as u8) != t.name {
                    return Err(self.wrong(format!("operator {op} reported to {}", t.name)));
                }
            }
            "Load" => {
                let op = args[2];
                if !(1..=14).contains(&op) || load_type(op as u8) != t.results[0] {
                    return Err(self.wrong(format!("load operator {op} reported to {}", t.name)));
                }
            }
            "Store" => {
                let op = args[3];
                if !(1..=9).contains(&op) || store_type(op as u8) != t.params[1] {
                    return Err(self.wrong(format!("store operator {op} reported to {}", t.name)));
                }
            }
            _ => {}
        }
        if !alter {
            return Ok(Plan::Default);
        }
        let any = |r: &mut Rng| Plan::Answer(interesting(r, t.results[0]));
        let flip = |r: &mut Rng, c: u64| if c as u32 != 0 { 0 } else { *r.pick(&[1u64, 2, 0x100, 0x8000_0000, 0xffff_ffff]) };
        Ok(match t.hook {
            "IfThen" | "IfThenElse" | "BranchIf" | "Select" => Plan::Answer(flip(&mut r, args[0])),
            "BranchTable" | "CallIndirectPre" => Plan::Answer(match r.below(6) {
                0 => 0xffff_ffff,
                1 => 0x8000_0000 | args[0],
                _ => r.below(9) as u64,
            }),
            "Const" | "Local" | "Global" | "MemorySize" | "Unary" | "Binary" => any(&mut r),
            "Load" => {
                if r.bool() {
                    any(&mut r)
                } else {
                    Plan::Load { ptr: args[0] & 0xffff, off: args[1] & 0xff }
                }
            }
            "Store" => {
                let (mut ptr, mut v, mut times) = (args[0], args[1], 1);
                match r.below(4) {
                    0 => times = 0,
                    1 => v = interesting(&mut r, t.params[1]),
                    2 => ptr ^= 8,
                    _ => times = 2,
                }
                Plan::Store { ptr, v, times }
            }
            "MemoryGrow" => match r.below(3) {
                0 => Plan::Answer(0xffff_ffff),
                1 => Plan::Grow0,
                _ => Plan::Answer(r.below(5) as u64),
            },
            _ => Plan::Default,
        })
    }
    fn on_trap(&mut self, s: &mut Store, t: &'static TrapInfo, all: &[u64]) -> Res<Vec<u64>> {
        let plan = self.plan(t, all)?;
        let mut args = all[..all.len() - 2].to_vec();
        if self.policy.denan {
            denan(t.params, &mut args);
            let mut out = self.perform(s, t, &args, plan)?;
            denan(t.results, &mut out);
            return Ok(out);
        }
        self.perform(s, t, &args, plan)
    }
    fn perform(&mut self, s: &mut Store, t: &'static TrapInfo, args: &[u64], plan: Plan) -> Res<Vec<u64>> {
        if let Plan::Answer(v) = plan {
            return Ok(vec![v]);
        }
        Ok(match t.hook {
            "IfThen" | "IfThenElse" | "BranchIf" | "Select" | "BranchTable" | "CallIndirectPre" | "Const" | "Local" | "Global"
            | "MemorySize" => vec![args[0]],
            "Unary" => vec![unary(args[1] as u8, args[0])?],
            "Binary" => vec![binary(args[2] as u8, args[0], args[1])?],
            "Load" => {
                let (p, o) = if let Plan::Load { ptr, off } = plan { (ptr, off) } else { (args[0], args[1]) };
                vec![self.base_load(s, args[2] as u8, p, o)?]
            }
            "Store" => {
                let (p, v, times) = if let Plan::Store { ptr, v, times } = plan { (ptr, v, times) } else { (args[0], args[1], 1) };
                for i in 0..times {
                    self.base_store(s, args[3] as u8, p.wrapping_add(i * 16) & 0xffff_ffff, args[2], v)?;
                }
                vec![]
            }
            "MemoryGrow" => vec![self.base_grow(s, if plan == Plan::Grow0 { 0 } else { args[0] })?],
            _ => vec![],
        })
    }
    /// Shared by both sides: what a generic application does. `base` runs the original.
    fn on_apply(
        &mut self,
        s: &mut Store,
        idx: u64,
        ft: &FT,
        args: &[u64],
        import: bool,
        base: &mut dyn FnMut(&mut World, &mut Store, &[u64]) -> Res<Vec<u64>>,
    ) -> Res<Vec<u64>> {
        let mut a = self.apply_plan(idx, ft, args, import)?;
        let depth = self.apply_depth;
        for _ in 0..a.times {
            a.base = base(self, s, &a.args)?;
            self.apply_depth = depth;
            self.push(Ev::Base { idx, results: a.base.clone() })?;
        }
        Ok(self.apply_answer(&mut a, depth))
    }
    /// Logs the application, one level deeper, and decides what the analysis does about it.
    pub fn apply_plan(&mut self, idx: u64, ft: &FT, args: &[u64], import: bool) -> Res<Application> {
        let typed: Vec<(VT, u64)> = ft.params.iter().copied().zip(args.iter().copied()).collect();
        self.push(Ev::Apply { idx, args: typed, results: ft.results.clone(), import })?;
        let h = fnv(self.policy.seed, ("apply", idx, args, self.log.len()));
        let mut r = Rng::new(h);
        let alter = self.policy.alter_apply && r.chance(1, 2);
        self.altered += alter as u64;
        let mut args = args.to_vec();
        if self.policy.denan {
            denan(&ft.params, &mut args);
        }
        let times = if alter { *r.pick(&[0, 1, 1, 1, 2]) } else { 1 };
        if alter {
            for (a, t) in args.iter_mut().zip(&ft.params) {
                if r.bool() {
                    *a = interesting(&mut r, *t);
                }
            }
        }
        self.apply_depth += 1;
        self.max_apply_depth = self.max_apply_depth.max(self.apply_depth);
        Ok(Application { idx, ft: ft.clone(), args, times, alter, r, base: vec![] })
    }
    /// The results of an application at that depth, given those of the base call in `base`.
    pub fn apply_answer(&mut self, a: &mut Application, depth: u64) -> Vec<u64> {
        self.apply_depth = depth - 1;
        let mut res = a.base.clone();
        if a.times == 0 {
            res = a.ft.results.iter().map(|t| interesting(&mut a.r, *t)).collect();
        } else if a.alter {
            for (v, t) in res.iter_mut().zip(&a.ft.results) {
                if a.r.bool() {
                    *v = interesting(&mut a.r, *t);
                }
            }
        }
        if self.policy.denan {
            denan(&a.ft.results, &mut res);
        }
        res
    }
    fn lib(&mut self, s: &mut Store, name: &str, args: &[u64]) -> Res<Vec<u64>> {
        let Some(l) = self.lib else { return Err(self.wrong("no library".into())) };
        match s.export_func(l, name) {
            Some(f) => s.invoke(self, f, args),
            None => Err(self.wrong(format!("library export {name}"))),
        }
    }
    fn on_instrumented_apply(&mut self, s: &mut Store, a: &[u64]) -> Res<Vec<u64>> {
        let [f_apply, idx, argc, resc, sigv, sigt, code] = a[..] else { return Err(self.wrong("arity".into())) };
        if argc > 4096 || resc > 4096 || code > 1 {
            return Err(self.wrong(format!("generic_apply({a:?})")));
        }
        let mut types = vec![];
        for k in 0..(argc + resc) {
            let c = self.lib(s, "wastrumentation_stack_load_type", &[sigt, k])?[0];
            types.push(match c {
                0 => VT::I32,
                1 => VT::F32,
                2 => VT::I64,
                3 => VT::F64,
                c => return Err(self.wrong(format!("type code {c} in slot {k} of function {idx}"))),
            });
        }
        let ft = FT::new(&types[resc as usize..], &types[..resc as usize]);
        let mut args = vec![];
        for (k, t) in ft.params.iter().enumerate() {
            args.push(self.lib(s, &format!("wastrumentation_stack_load_{}", t.low()), &[sigv, resc + k as u64])?[0]);
        }
        let (p, q) = (ft.clone(), args.clone());
        let mut base = move |w: &mut World, s: &mut Store, new: &[u64]| -> Res<Vec<u64>> {
            for (k, t) in p.params.iter().enumerate() {
                if new[k] != q[k] {
                    w.lib(s, &format!("wastrumentation_stack_store_{}", t.low()), &[sigv, new[k], resc + k as u64])?;
                }
            }
            match s.export_func(w.main, CALL_BASE) {
                Some(f) => s.invoke(w, f, &[f_apply, sigv])?,
                None => return Err(w.wrong("no call_base".into())),
            };
            let mut out = vec![];
            for (k, t) in p.results.iter().enumerate() {
                out.push(w.lib(s, &format!("wastrumentation_stack_load_{}", t.low()), &[sigv, k as u64])?[0]);
            }
            Ok(out)
        };
        let res = self.on_apply(s, idx, &ft, &args, code == 1, &mut base)?;
        for (k, t) in ft.results.iter().enumerate() {
            self.lib(s, &format!("wastrumentation_stack_store_{}", t.low()), &[sigv, res[k], k as u64])?;
        }
        Ok(vec![])
    }
}
fn denan(types: &[VT], values: &mut [u64]) {
    for (t, v) in types.iter().zip(values) {
        if match t {
            VT::F32 => f32::from_bits(*v as u32).is_nan(),
            VT::F64 => f64::from_bits(*v).is_nan(),
            _ => false,
        } {
            *v = 0;
        }
    }
}
pub fn norm(t: VT, v: u64) -> u64 {
    match t {
        VT::FuncRef => (v == NULL) as u64,
        VT::I32 | VT::F32 => v & 0xffff_ffff,
        _ => v,
    }
}
impl Host for World {
    fn call(&mut self, s: &mut Store, id: usize, args: &[u64]) -> Res<Vec<u64>> {
        match self.hosts[id].clone() {
            HostFn::Env { name, calls_back, ty } => {
                let n: Vec<u64> = ty.params.iter().zip(args).map(|(t, v)| norm(*t, *v)).collect();
                self.push(Ev::Host { name: name.clone(), args: n.clone() })?;
                self.host_calls += 1;
                let h = fnv(self.policy.seed ^ 77, (&name, &n, self.host_calls));
                let mut r = Rng::new(h);
                if calls_back && self.callbacks < 6 && self.main != usize::MAX {
                    self.callbacks += 1;
                    if !self.entry.is_empty() {
                        let (e, ft) = self.entry[r.below(self.entry.len())].clone();
                        let a: Vec<u64> = ft.params.iter().map(|t| interesting(&mut r, *t)).collect();
                        if let Some(f) = s.export_func(self.main, &e) {
                            s.invoke(self, f, &a)?;
                        }
                    }
                } else if r.chance(1, 40) {
                    return Err(Trap::Host("env".into()));
                }
                Ok(ty.results.iter().map(|t| interesting(&mut r, *t)).collect())
            }
            HostFn::Trap(t) => {
                for (v, t) in args.iter().zip(t.params) {
                    if matches!(t, VT::I32 | VT::F32) && *v > 0xffff_ffff {
                        return Err(self.wrong("interpreter: wide i32".into()));
                    }
                }
                self.on_trap(s, t, args)
            }
            HostFn::Apply => self.on_instrumented_apply(s, args),
            HostFn::Compiled(name) => {
                let f = self.analysis.and_then(|a| s.export_func(a, &name));
                match f {
                    Some(f) => s.invoke(self, f, args),
                    None => Err(self.wrong(format!("the analysis does not export {name}"))),
                }
            }
            HostFn::Recorder(name) => self.on_recorder(&name, args),
            HostFn::Missing(name) => Err(self.wrong(format!("nothing provides {name}"))),
            HostFn::Lib { name, f } => {
                if !name.starts_with("allocate_") && !name.starts_with("free_") {
                    // every other operation works on a live buffer of its own signature
                    let ptr = args[0];
                    let sig = name.find("ret_").map_or("", |i| &name[i..]);
                    if self.ledger.live.get(&(false, sig.to_string(), ptr)).is_none_or(|n| *n <= 0) {
                        return Err(self.wrong(format!("{name}({ptr}): no live buffer there")));
                    }
                    self.ledger.used += 1;
                    return s.invoke(self, f, args);
                }
                let r = s.invoke(self, f, args)?;
                for (p, types, free) in
                    [("allocate_types_", true, false), ("free_types_", true, true), ("free_values_", false, true), ("allocate_", false, false)]
                {
                    let Some(sig) = name.strip_prefix(p) else { continue };
                    let ptr = if free { args[0] } else { r[0] };
                    let e = self.ledger.live.entry((types, sig.to_string(), ptr)).or_insert(0);
                    *e += if free { -1 } else { 1 };
                    if *e < 0 {
                        return Err(self.wrong(format!("{name}({ptr}) without a live buffer there")));
                    }
                    if free {
                        self.ledger.freed += 1;
                    } else {
                        self.ledger.allocated += 1;
                    }
                    break;
                }
                Ok(r)
            }
        }
    }
    fn trap(&mut self, s: &mut Store, _inst: usize, name: &'static str, args: &[u64]) -> Res<Vec<u64>> {
        self.on_trap(s, by_name(name).expect("trap"), args)
    }
    fn apply(&mut self, s: &mut Store, inst: usize, idx: u32, inner: usize, args: &[u64]) -> Res<Vec<u64>> {
        let ft = s.funcs[inner].ty.clone();
        let import = s.insts[inst].module.funcs[idx as usize].body.is_none();
        self.on_apply(s, idx as u64, &ft, args, import, &mut |w, s, a| s.invoke(w, inner, a))
    }
}

/// One invocation: export and arguments (the same for both sides).
#[derive(Clone, Debug)]
pub struct Call {
    pub export: String,
    pub ty: FT,
    pub args: Vec<u64>,
}
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct State {
    pub mems: Vec<Vec<u8>>,
    pub globals: Vec<(VT, u64)>,
    pub tables: Vec<Vec<Option<FT>>>,
}
pub struct Outcome {
    pub results: Vec<Result<Vec<u64>, Trap>>,
    pub states: Vec<u64>,
    pub state: State,
    pub world: World,
    pub store: Store,
    pub inconclusive: bool,
    /// events logged when each step ended
    pub marks: Vec<usize>,
}
fn state(s: &Store, main: usize, original: &Module) -> State {
    let i = &s.insts[main];
    State {
        mems: i.mems.iter().take(original.mems.len()).map(|m| s.mems[*m].data.clone()).collect(),
        globals: i
            .globals
            .iter()
            .take(original.globals.len())
            .map(|g| (s.globals[*g].ty, norm(s.globals[*g].ty, s.globals[*g].v)))
            .collect(),
        tables: i
            .tables
            .iter()
            .take(original.tables.len())
            .map(|t| {
                let t = &s.tables[*t];
                t.elems
                    .iter()
                    .map(|v| match (*v, t.ty) {
                        (NULL, _) => None,
                        (v, VT::FuncRef) => Some(s.funcs[v as usize].ty.clone()),
                        (v, _) => Some(FT { params: vec![VT::ExternRef; v as usize % 7], results: vec![] }),
                    })
                    .collect()
            })
            .collect(),
    }
}
fn fingerprint(s: &Store, main: usize, original: &Module) -> u64 {
    let i = &s.insts[main];
    let mut h = 7u64;
    let mut mix = |v: u64| h = (h.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for m in i.mems.iter().take(original.mems.len()) {
        let d = &s.mems[*m].data;
        mix(d.len() as u64);
        for (k, c) in d.chunks_exact(8).enumerate() {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            if v != 0 {
                mix(k as u64);
                mix(v);
            }
        }
    }
    for g in i.globals.iter().take(original.globals.len()) {
        mix(norm(s.globals[*g].ty, s.globals[*g].v));
    }
    for t in i.tables.iter().take(original.tables.len()) {
        mix(s.tables[*t].elems.len() as u64);
    }
    h
}
pub struct Env {
    pub made: HashMap<(String, String), Addr>,
}
impl Env {
    pub fn resolve(&mut self, w: &mut World, s: &mut Store, im: &Import, want: &Ext) -> Result<Addr, String> {
        let from = format!("{}.{}", im.module, im.name);
        let key = (from.clone(), format!("{want:?}"));
        if let Some(a) = self.made.get(&key) {
            return Ok(*a);
        }
        let a = match want {
            Ext::Func(ty) => {
                w.hosts.push(HostFn::Env { name: from.clone(), calls_back: im.name.starts_with("cb"), ty: ty.clone() });
                Addr::Func(s.host_func(ty.clone(), w.hosts.len() - 1))
            }
            Ext::Table(ty, l) => {
                s.tables.push(Table { ty: *ty, elems: vec![NULL; l.min as usize], max: l.max.unwrap_or(1 << 20).min(1 << 20) });
                Addr::Table(s.tables.len() - 1)
            }
            Ext::Mem(l) => {
                s.mems.push(Mem { data: vec![0; l.min as usize * PAGE], max: l.max.unwrap_or(65536) });
                Addr::Mem(s.mems.len() - 1)
            }
            Ext::Global(ty, _) => {
                let v = match ty {
                    VT::I32 => 1,
                    VT::FuncRef | VT::ExternRef => NULL,
                    t => interesting(&mut Rng::new(fnv(3, &from)), *t),
                };
                s.globals.push(Global { ty: *ty, v });
                Addr::Global(s.globals.len() - 1)
            }
        };
        self.made.insert(key, a);
        Ok(a)
    }
}
pub fn play(mut w: World, mut s: Store, original: &Module, script: &[Call]) -> Outcome {
    let main = w.main;
    let mut out = (vec![], vec![], vec![]);
    let mut inconclusive = false;
    let mut step = |w: &mut World, s: &mut Store, r: Res<Vec<u64>>, ty: &FT| -> bool {
        let r = r.map(|v| v.iter().zip(&ty.results).map(|(v, t)| norm(*t, *v)).collect::<Vec<_>>());
        inconclusive |= matches!(r, Err(Trap::Fuel | Trap::Depth));
        s.depth = 0;
        w.apply_depth = 0;
        if r.is_ok() && !w.recorder.applications.is_empty() {
            w.protocol.push(format!("{} applications are still open", w.recorder.applications.len()));
        }
        w.recorder.applications.clear();
        if r.is_ok() {
            let live: Vec<_> = w.ledger.live.iter().filter(|x| *x.1 != 0).take(3).collect();
            if !live.is_empty() {
                let m = format!("after the call returned, buffers are still allocated: {live:?}");
                w.protocol.push(m);
            }
        }
        w.ledger.live.clear();
        let go_on = !matches!(&r, Err(Trap::Fuel | Trap::Depth | Trap::Host(_)));
        let go_on = go_on || matches!(&r, Err(Trap::Host(m)) if m == "env");
        out.0.push(r);
        out.1.push(fingerprint(s, main, original));
        out.2.push(w.log.len());
        go_on
    };
    let r = s.start(&mut w, main).map(|_| vec![]);
    let failed = r.is_err();
    let mut go = step(&mut w, &mut s, r, &FT::default()) && !failed;
    for c in script {
        if !go {
            break;
        }
        let r = match s.export_func(main, &c.export) {
            Some(f) if s.funcs[f].ty == c.ty => s.invoke(&mut w, f, &c.args),
            _ => Err(Trap::Host(format!("export {:?} missing or of another type", c.export))),
        };
        go = step(&mut w, &mut s, r, &c.ty);
    }
    // what the tables hold at the end is called, too
    if w.policy.seed % 4 == 0 {
        'probe: for t in 0..original.tables.len() {
            let t = s.insts[main].tables[t];
            for slot in 0..s.tables[t].elems.len().min(6) {
                let v = s.tables[t].elems.get(slot).copied().unwrap_or(NULL);
                if s.tables[t].ty != VT::FuncRef || v == NULL {
                    continue;
                }
                if !go {
                    break 'probe;
                }
                let ty = s.funcs[v as usize].ty.clone();
                let mut r = Rng::new(w.policy.seed ^ slot as u64);
                let args: Vec<u64> = ty.params.iter().map(|t| interesting(&mut r, *t)).collect();
                w.probes += 1;
                let r = s.invoke(&mut w, v as usize, &args);
                go = step(&mut w, &mut s, r, &ty);
            }
        }
    }
    let state = state(&s, main, original);
    Outcome { results: out.0, states: out.1, marks: out.2, state, world: w, store: s, inconclusive }
}
pub fn entries(m: &Module) -> Vec<(String, FT)> {
    m.exports.iter().filter(|e| e.kind == Kind::Func).map(|e| (e.name.clone(), m.funcs[e.index as usize].ty.clone())).collect()
}
pub const FUEL: u64 = 60_000;
pub fn run_reference(m: &Rc<Module>, watch: Watch, policy: &Policy, script: &[Call], depth: usize) -> Result<Outcome, String> {
    let mut s = Store::new(policy.fuel(), depth);
    let mut w = World::new(policy.clone(), true, entries(m));
    let mut env = Env { made: HashMap::new() };
    let main = s.allocate(m.clone(), |s, im, want| env.resolve(&mut w, s, im, want), Some(watch))?;
    w.main = main;
    Ok(play(w, s, m, script))
}
pub fn run_instrumented(
    original: &Rc<Module>,
    program: &Rc<Module>,
    lib: Option<&Rc<Module>>,
    policy: &Policy,
    script: &[Call],
    depth: usize,
) -> Result<Outcome, String> {
    let mut s = Store::new(policy.fuel() * 400, depth * 12 + 50);
    let mut w = World::new(policy.clone(), false, entries(original));
    let mut env = Env { made: HashMap::new() };
    if let Some(l) = lib {
        let id = s.allocate(l.clone(), |_, im, _| Err(format!("the library imports {}.{}", im.module, im.name)), None)?;
        s.start(&mut NoHost, id).map_err(|t| format!("library start: {t:?}"))?;
        w.lib = Some(id);
    }
    let lib_id = w.lib;
    let main = s.allocate(
        program.clone(),
        |s, im, want| match im.module.as_str() {
            NS_LIB => {
                let l = lib_id.ok_or("imports from a library that was not merged")?;
                let a = s.export(l, &im.name).ok_or(format!("the library does not export {}", im.name))?;
                match a {
                    Addr::Func(f) if policy.ledger => {
                        w.hosts.push(HostFn::Lib { name: im.name.clone(), f });
                        let ty = s.funcs[f].ty.clone();
                        Ok(Addr::Func(s.host_func(ty, w.hosts.len() - 1)))
                    }
                    a => Ok(a),
                }
            }
            NS_ANALYSIS => {
                let Ext::Func(ft) = want else { return Err(format!("analysis import {}", im.name)) };
                let h = if im.name == APPLY {
                    if *ft != FT::new(&APPLY_FT.0, &APPLY_FT.1) {
                        return Err(format!("{}: {ft:?}", im.name));
                    }
                    HostFn::Apply
                } else {
                    let t = by_name(&im.name).ok_or(format!("unknown analysis import {}", im.name))?;
                    if *ft != t.ft() {
                        return Err(format!("{}: {ft:?}", im.name));
                    }
                    HostFn::Trap(t)
                };
                w.hosts.push(h);
                Ok(Addr::Func(s.host_func(ft.clone(), w.hosts.len() - 1)))
            }
            _ => env.resolve(&mut w, s, im, want),
        },
        None,
    )?;
    w.main = main;
    Ok(play(w, s, original, script))
}
pub fn script(r: &mut Rng, m: &Module, n: usize) -> Vec<Call> {
    let e = entries(m);
    if e.is_empty() {
        return vec![];
    }
    (0..n)
        .map(|_| {
            let (export, ty) = r.pick(&e).clone();
            let args = ty.params.iter().map(|t| interesting(r, *t)).collect();
            Call { export, ty, args }
        })
        .collect()
}
