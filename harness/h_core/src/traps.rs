//! The contract between instrumented programs and analyses: 75 trap functions, one generic one.
//! Written down independently of /repo/wastrumentation/src/analysis/mod.rs.
use crate::wasm::*;
use std::collections::HashMap;
use std::sync::OnceLock;
use wastrumentation::analysis::{AnalysisInterface, WasmExport};

#[derive(Debug)]
pub struct TrapInfo {
    pub name: &'static str,
    pub field: &'static str,
    pub hook: &'static str,
    /// without the location (function, instruction: two i64)
    pub params: &'static [VT],
    pub results: &'static [VT],
}
impl TrapInfo {
    pub fn ft(&self) -> FT {
        let mut p = self.params.to_vec();
        p.extend([VT::I64, VT::I64]);
        FT { params: p, results: self.results.to_vec() }
    }
}
#[rustfmt::skip]
pub const TRAPS: [TrapInfo; 75] = [
    TrapInfo { name: "specialized_if_then_k", field: "if_then_trap", hook: "IfThen", params: &[VT::I32, VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "trap_if_then_post", field: "if_then_post_trap", hook: "IfThenPost", params: &[], results: &[] },
    TrapInfo { name: "specialized_if_then_else_k", field: "if_then_else_trap", hook: "IfThenElse", params: &[VT::I32, VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "trap_if_then_else_post", field: "if_then_else_post_trap", hook: "IfThenElsePost", params: &[], results: &[] },
    TrapInfo { name: "specialized_br", field: "br_trap", hook: "Branch", params: &[VT::I64], results: &[] },
    TrapInfo { name: "specialized_br_if", field: "br_if_trap", hook: "BranchIf", params: &[VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "specialized_br_table", field: "br_table_trap", hook: "BranchTable", params: &[VT::I32, VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "specialized_call_pre", field: "pre_trap_call", hook: "CallPre", params: &[VT::I32], results: &[] },
    TrapInfo { name: "specialized_call_post", field: "post_trap_call", hook: "CallPost", params: &[VT::I32], results: &[] },
    TrapInfo { name: "specialized_call_indirect_pre", field: "pre_trap_call_indirect", hook: "CallIndirectPre", params: &[VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "specialized_call_indirect_post", field: "post_trap_call_indirect", hook: "CallIndirectPost", params: &[VT::I32], results: &[] },
    TrapInfo { name: "trap_block_pre", field: "pre_block", hook: "BlockPre", params: &[VT::I32, VT::I32], results: &[] },
    TrapInfo { name: "trap_block_post", field: "post_block", hook: "BlockPost", params: &[], results: &[] },
    TrapInfo { name: "trap_loop_pre", field: "pre_loop", hook: "LoopPre", params: &[VT::I32, VT::I32], results: &[] },
    TrapInfo { name: "trap_loop_post", field: "post_loop", hook: "LoopPost", params: &[], results: &[] },
    TrapInfo { name: "specialized_select", field: "select", hook: "Select", params: &[VT::I32], results: &[VT::I32] },
    TrapInfo { name: "drop_trap", field: "drop_trap", hook: "Drop", params: &[], results: &[] },
    TrapInfo { name: "return_trap", field: "return_trap", hook: "Return", params: &[], results: &[] },
    TrapInfo { name: "trap_const_i32", field: "const_i32_trap", hook: "Const", params: &[VT::I32], results: &[VT::I32] },
    TrapInfo { name: "trap_const_f32", field: "const_f32_trap", hook: "Const", params: &[VT::F32], results: &[VT::F32] },
    TrapInfo { name: "trap_const_i64", field: "const_i64_trap", hook: "Const", params: &[VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_const_f64", field: "const_f64_trap", hook: "Const", params: &[VT::F64], results: &[VT::F64] },
    TrapInfo { name: "unary_i32_to_i32", field: "unary_i32_to_i32", hook: "Unary", params: &[VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "unary_i64_to_i32", field: "unary_i64_to_i32", hook: "Unary", params: &[VT::I64, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "unary_i64_to_i64", field: "unary_i64_to_i64", hook: "Unary", params: &[VT::I64, VT::I32], results: &[VT::I64] },
    TrapInfo { name: "unary_f32_to_f32", field: "unary_f32_to_f32", hook: "Unary", params: &[VT::F32, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "unary_f64_to_f64", field: "unary_f64_to_f64", hook: "Unary", params: &[VT::F64, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "unary_f32_to_i32", field: "unary_f32_to_i32", hook: "Unary", params: &[VT::F32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "unary_f64_to_i32", field: "unary_f64_to_i32", hook: "Unary", params: &[VT::F64, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "unary_i32_to_i64", field: "unary_i32_to_i64", hook: "Unary", params: &[VT::I32, VT::I32], results: &[VT::I64] },
    TrapInfo { name: "unary_f32_to_i64", field: "unary_f32_to_i64", hook: "Unary", params: &[VT::F32, VT::I32], results: &[VT::I64] },
    TrapInfo { name: "unary_f64_to_i64", field: "unary_f64_to_i64", hook: "Unary", params: &[VT::F64, VT::I32], results: &[VT::I64] },
    TrapInfo { name: "unary_i32_to_f32", field: "unary_i32_to_f32", hook: "Unary", params: &[VT::I32, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "unary_i64_to_f32", field: "unary_i64_to_f32", hook: "Unary", params: &[VT::I64, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "unary_f64_to_f32", field: "unary_f64_to_f32", hook: "Unary", params: &[VT::F64, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "unary_i32_to_f64", field: "unary_i32_to_f64", hook: "Unary", params: &[VT::I32, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "unary_i64_to_f64", field: "unary_i64_to_f64", hook: "Unary", params: &[VT::I64, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "unary_f32_to_f64", field: "unary_f32_to_f64", hook: "Unary", params: &[VT::F32, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "binary_i32_i32_to_i32", field: "binary_i32_i32_to_i32", hook: "Binary", params: &[VT::I32, VT::I32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "binary_i64_i64_to_i32", field: "binary_i64_i64_to_i32", hook: "Binary", params: &[VT::I64, VT::I64, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "binary_f32_f32_to_i32", field: "binary_f32_f32_to_i32", hook: "Binary", params: &[VT::F32, VT::F32, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "binary_f64_f64_to_i32", field: "binary_f64_f64_to_i32", hook: "Binary", params: &[VT::F64, VT::F64, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "binary_i64_i64_to_i64", field: "binary_i64_i64_to_i64", hook: "Binary", params: &[VT::I64, VT::I64, VT::I32], results: &[VT::I64] },
    TrapInfo { name: "binary_f32_f32_to_f32", field: "binary_f32_f32_to_f32", hook: "Binary", params: &[VT::F32, VT::F32, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "binary_f64_f64_to_f64", field: "binary_f64_f64_to_f64", hook: "Binary", params: &[VT::F64, VT::F64, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "trap_memory_size", field: "memory_size", hook: "MemorySize", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_memory_grow", field: "memory_grow", hook: "MemoryGrow", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_local_get_i32", field: "local_get_i32", hook: "Local", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_local_set_i32", field: "local_set_i32", hook: "Local", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_local_tee_i32", field: "local_tee_i32", hook: "Local", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_global_get_i32", field: "global_get_i32", hook: "Global", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_global_set_i32", field: "global_set_i32", hook: "Global", params: &[VT::I32, VT::I64], results: &[VT::I32] },
    TrapInfo { name: "trap_local_get_f32", field: "local_get_f32", hook: "Local", params: &[VT::F32, VT::I64], results: &[VT::F32] },
    TrapInfo { name: "trap_local_set_f32", field: "local_set_f32", hook: "Local", params: &[VT::F32, VT::I64], results: &[VT::F32] },
    TrapInfo { name: "trap_local_tee_f32", field: "local_tee_f32", hook: "Local", params: &[VT::F32, VT::I64], results: &[VT::F32] },
    TrapInfo { name: "trap_global_get_f32", field: "global_get_f32", hook: "Global", params: &[VT::F32, VT::I64], results: &[VT::F32] },
    TrapInfo { name: "trap_global_set_f32", field: "global_set_f32", hook: "Global", params: &[VT::F32, VT::I64], results: &[VT::F32] },
    TrapInfo { name: "trap_local_get_i64", field: "local_get_i64", hook: "Local", params: &[VT::I64, VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_local_set_i64", field: "local_set_i64", hook: "Local", params: &[VT::I64, VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_local_tee_i64", field: "local_tee_i64", hook: "Local", params: &[VT::I64, VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_global_get_i64", field: "global_get_i64", hook: "Global", params: &[VT::I64, VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_global_set_i64", field: "global_set_i64", hook: "Global", params: &[VT::I64, VT::I64], results: &[VT::I64] },
    TrapInfo { name: "trap_local_get_f64", field: "local_get_f64", hook: "Local", params: &[VT::F64, VT::I64], results: &[VT::F64] },
    TrapInfo { name: "trap_local_set_f64", field: "local_set_f64", hook: "Local", params: &[VT::F64, VT::I64], results: &[VT::F64] },
    TrapInfo { name: "trap_local_tee_f64", field: "local_tee_f64", hook: "Local", params: &[VT::F64, VT::I64], results: &[VT::F64] },
    TrapInfo { name: "trap_global_get_f64", field: "global_get_f64", hook: "Global", params: &[VT::F64, VT::I64], results: &[VT::F64] },
    TrapInfo { name: "trap_global_set_f64", field: "global_set_f64", hook: "Global", params: &[VT::F64, VT::I64], results: &[VT::F64] },
    TrapInfo { name: "trap_f32_store", field: "f32_store", hook: "Store", params: &[VT::I32, VT::F32, VT::I64, VT::I32], results: &[] },
    TrapInfo { name: "trap_f32_load", field: "f32_load", hook: "Load", params: &[VT::I32, VT::I64, VT::I32], results: &[VT::F32] },
    TrapInfo { name: "trap_f64_store", field: "f64_store", hook: "Store", params: &[VT::I32, VT::F64, VT::I64, VT::I32], results: &[] },
    TrapInfo { name: "trap_f64_load", field: "f64_load", hook: "Load", params: &[VT::I32, VT::I64, VT::I32], results: &[VT::F64] },
    TrapInfo { name: "trap_i32_store", field: "i32_store", hook: "Store", params: &[VT::I32, VT::I32, VT::I64, VT::I32], results: &[] },
    TrapInfo { name: "trap_i32_load", field: "i32_load", hook: "Load", params: &[VT::I32, VT::I64, VT::I32], results: &[VT::I32] },
    TrapInfo { name: "trap_i64_store", field: "i64_store", hook: "Store", params: &[VT::I32, VT::I64, VT::I64, VT::I32], results: &[] },
    TrapInfo { name: "trap_i64_load", field: "i64_load", hook: "Load", params: &[VT::I32, VT::I64, VT::I32], results: &[VT::I64] },
];
#[rustfmt::skip]
pub fn field_mut<'a>(i: &'a mut AnalysisInterface, field: &str) -> &'a mut Option<WasmExport> {
    match field {
        "if_then_trap" => &mut i.if_then_trap,
        "if_then_post_trap" => &mut i.if_then_post_trap,
        "if_then_else_trap" => &mut i.if_then_else_trap,
        "if_then_else_post_trap" => &mut i.if_then_else_post_trap,
        "br_trap" => &mut i.br_trap,
        "br_if_trap" => &mut i.br_if_trap,
        "br_table_trap" => &mut i.br_table_trap,
        "pre_trap_call" => &mut i.pre_trap_call,
        "post_trap_call" => &mut i.post_trap_call,
        "pre_trap_call_indirect" => &mut i.pre_trap_call_indirect,
        "post_trap_call_indirect" => &mut i.post_trap_call_indirect,
        "pre_block" => &mut i.pre_block,
        "post_block" => &mut i.post_block,
        "pre_loop" => &mut i.pre_loop,
        "post_loop" => &mut i.post_loop,
        "select" => &mut i.select,
        "drop_trap" => &mut i.drop_trap,
        "return_trap" => &mut i.return_trap,
        "const_i32_trap" => &mut i.const_i32_trap,
        "const_f32_trap" => &mut i.const_f32_trap,
        "const_i64_trap" => &mut i.const_i64_trap,
        "const_f64_trap" => &mut i.const_f64_trap,
        "unary_i32_to_i32" => &mut i.unary_i32_to_i32,
        "unary_i64_to_i32" => &mut i.unary_i64_to_i32,
        "unary_i64_to_i64" => &mut i.unary_i64_to_i64,
        "unary_f32_to_f32" => &mut i.unary_f32_to_f32,
        "unary_f64_to_f64" => &mut i.unary_f64_to_f64,
        "unary_f32_to_i32" => &mut i.unary_f32_to_i32,
        "unary_f64_to_i32" => &mut i.unary_f64_to_i32,
        "unary_i32_to_i64" => &mut i.unary_i32_to_i64,
        "unary_f32_to_i64" => &mut i.unary_f32_to_i64,
        "unary_f64_to_i64" => &mut i.unary_f64_to_i64,
        "unary_i32_to_f32" => &mut i.unary_i32_to_f32,
        "unary_i64_to_f32" => &mut i.unary_i64_to_f32,
        "unary_f64_to_f32" => &mut i.unary_f64_to_f32,
        "unary_i32_to_f64" => &mut i.unary_i32_to_f64,
        "unary_i64_to_f64" => &mut i.unary_i64_to_f64,
        "unary_f32_to_f64" => &mut i.unary_f32_to_f64,
        "binary_i32_i32_to_i32" => &mut i.binary_i32_i32_to_i32,
        "binary_i64_i64_to_i32" => &mut i.binary_i64_i64_to_i32,
        "binary_f32_f32_to_i32" => &mut i.binary_f32_f32_to_i32,
        "binary_f64_f64_to_i32" => &mut i.binary_f64_f64_to_i32,
        "binary_i64_i64_to_i64" => &mut i.binary_i64_i64_to_i64,
        "binary_f32_f32_to_f32" => &mut i.binary_f32_f32_to_f32,
        "binary_f64_f64_to_f64" => &mut i.binary_f64_f64_to_f64,
        "memory_size" => &mut i.memory_size,
        "memory_grow" => &mut i.memory_grow,
        "local_get_i32" => &mut i.local_get_i32,
        "local_set_i32" => &mut i.local_set_i32,
        "local_tee_i32" => &mut i.local_tee_i32,
        "global_get_i32" => &mut i.global_get_i32,
        "global_set_i32" => &mut i.global_set_i32,
        "local_get_f32" => &mut i.local_get_f32,
        "local_set_f32" => &mut i.local_set_f32,
        "local_tee_f32" => &mut i.local_tee_f32,
        "global_get_f32" => &mut i.global_get_f32,
        "global_set_f32" => &mut i.global_set_f32,
        "local_get_i64" => &mut i.local_get_i64,
        "local_set_i64" => &mut i.local_set_i64,
        "local_tee_i64" => &mut i.local_tee_i64,
        "global_get_i64" => &mut i.global_get_i64,
        "global_set_i64" => &mut i.global_set_i64,
        "local_get_f64" => &mut i.local_get_f64,
        "local_set_f64" => &mut i.local_set_f64,
        "local_tee_f64" => &mut i.local_tee_f64,
        "global_get_f64" => &mut i.global_get_f64,
        "global_set_f64" => &mut i.global_set_f64,
        "f32_store" => &mut i.f32_store,
        "f32_load" => &mut i.f32_load,
        "f64_store" => &mut i.f64_store,
        "f64_load" => &mut i.f64_load,
        "i32_store" => &mut i.i32_store,
        "i32_load" => &mut i.i32_load,
        "i64_store" => &mut i.i64_store,
        "i64_load" => &mut i.i64_load,
        x => panic!("field {x}"),
    }
}
#[rustfmt::skip]
pub fn field_ref<'a>(i: &'a AnalysisInterface, field: &str) -> &'a Option<WasmExport> {
    match field {
        "if_then_trap" => &i.if_then_trap,
        "if_then_post_trap" => &i.if_then_post_trap,
        "if_then_else_trap" => &i.if_then_else_trap,
        "if_then_else_post_trap" => &i.if_then_else_post_trap,
        "br_trap" => &i.br_trap,
        "br_if_trap" => &i.br_if_trap,
        "br_table_trap" => &i.br_table_trap,
        "pre_trap_call" => &i.pre_trap_call,
        "post_trap_call" => &i.post_trap_call,
        "pre_trap_call_indirect" => &i.pre_trap_call_indirect,
        "post_trap_call_indirect" => &i.post_trap_call_indirect,
        "pre_block" => &i.pre_block,
        "post_block" => &i.post_block,
        "pre_loop" => &i.pre_loop,
        "post_loop" => &i.post_loop,
        "select" => &i.select,
        "drop_trap" => &i.drop_trap,
        "return_trap" => &i.return_trap,
        "const_i32_trap" => &i.const_i32_trap,
        "const_f32_trap" => &i.const_f32_trap,
        "const_i64_trap" => &i.const_i64_trap,
        "const_f64_trap" => &i.const_f64_trap,
        "unary_i32_to_i32" => &i.unary_i32_to_i32,
        "unary_i64_to_i32" => &i.unary_i64_to_i32,
        "unary_i64_to_i64" => &i.unary_i64_to_i64,
        "unary_f32_to_f32" => &i.unary_f32_to_f32,
        "unary_f64_to_f64" => &i.unary_f64_to_f64,
        "unary_f32_to_i32" => &i.unary_f32_to_i32,
        "unary_f64_to_i32" => &i.unary_f64_to_i32,
        "unary_i32_to_i64" => &i.unary_i32_to_i64,
        "unary_f32_to_i64" => &i.unary_f32_to_i64,
        "unary_f64_to_i64" => &i.unary_f64_to_i64,
        "unary_i32_to_f32" => &i.unary_i32_to_f32,
        "unary_i64_to_f32" => &i.unary_i64_to_f32,
        "unary_f64_to_f32" => &i.unary_f64_to_f32,
        "unary_i32_to_f64" => &i.unary_i32_to_f64,
        "unary_i64_to_f64" => &i.unary_i64_to_f64,
        "unary_f32_to_f64" => &i.unary_f32_to_f64,
        "binary_i32_i32_to_i32" => &i.binary_i32_i32_to_i32,
        "binary_i64_i64_to_i32" => &i.binary_i64_i64_to_i32,
        "binary_f32_f32_to_i32" => &i.binary_f32_f32_to_i32,
        "binary_f64_f64_to_i32" => &i.binary_f64_f64_to_i32,
        "binary_i64_i64_to_i64" => &i.binary_i64_i64_to_i64,
        "binary_f32_f32_to_f32" => &i.binary_f32_f32_to_f32,
        "binary_f64_f64_to_f64" => &i.binary_f64_f64_to_f64,
        "memory_size" => &i.memory_size,
        "memory_grow" => &i.memory_grow,
        "local_get_i32" => &i.local_get_i32,
        "local_set_i32" => &i.local_set_i32,
        "local_tee_i32" => &i.local_tee_i32,
        "global_get_i32" => &i.global_get_i32,
        "global_set_i32" => &i.global_set_i32,
        "local_get_f32" => &i.local_get_f32,
        "local_set_f32" => &i.local_set_f32,
        "local_tee_f32" => &i.local_tee_f32,
        "global_get_f32" => &i.global_get_f32,
        "global_set_f32" => &i.global_set_f32,
        "local_get_i64" => &i.local_get_i64,
        "local_set_i64" => &i.local_set_i64,
        "local_tee_i64" => &i.local_tee_i64,
        "global_get_i64" => &i.global_get_i64,
        "global_set_i64" => &i.global_set_i64,
        "local_get_f64" => &i.local_get_f64,
        "local_set_f64" => &i.local_set_f64,
        "local_tee_f64" => &i.local_tee_f64,
        "global_get_f64" => &i.global_get_f64,
        "global_set_f64" => &i.global_set_f64,
        "f32_store" => &i.f32_store,
        "f32_load" => &i.f32_load,
        "f64_store" => &i.f64_store,
        "f64_load" => &i.f64_load,
        "i32_store" => &i.i32_store,
        "i32_load" => &i.i32_load,
        "i64_store" => &i.i64_store,
        "i64_load" => &i.i64_load,
        x => panic!("field {x}"),
    }
}
pub fn by_name(n: &str) -> Option<&'static TrapInfo> {
    static M: OnceLock<HashMap<&'static str, usize>> = OnceLock::new();
    M.get_or_init(|| TRAPS.iter().enumerate().map(|(i, t)| (t.name, i)).collect()).get(n).map(|i| &TRAPS[*i])
}
pub const HOOKS: [&str; 28] = [
    "GenericApply", "CallPre", "CallPost", "CallIndirectPre", "CallIndirectPost", "IfThen", "IfThenPost", "IfThenElse",
    "IfThenElsePost", "Branch", "BranchIf", "BranchTable", "Select", "Unary", "Binary", "Drop", "Return", "Const", "Local",
    "Global", "Store", "Load", "MemorySize", "MemoryGrow", "BlockPre", "BlockPost", "LoopPre", "LoopPost",
];
pub const APPLY: &str = "generic_apply";
pub const APPLY_FT: ([VT; 7], [VT; 0]) = ([VT::I32; 7], []);
pub const CALL_BASE: &str = "call_base";
pub const NS_ANALYSIS: &str = "WASTRUMENTATION_ANALYSIS";
pub const NS_TARGET: &str = "instrumented_input";
pub const NS_LIB: &str = "wastrumentation_stack";

pub fn unary_trap(n: u8) -> &'static str {
    static M: OnceLock<Vec<&'static str>> = OnceLock::new();
    M.get_or_init(|| {
        (1..=60)
            .map(|n| {
                let (a, b) = unary_type(n);
                by_name(&format!("unary_{}_to_{}", a.low(), b.low())).unwrap().name
            })
            .collect()
    })[n as usize - 1]
}
pub fn binary_trap(n: u8) -> &'static str {
    static M: OnceLock<Vec<&'static str>> = OnceLock::new();
    M.get_or_init(|| {
        (1..=76)
            .map(|n| {
                let (a, b) = binary_type(n);
                by_name(&format!("binary_{}_{}_to_{}", a.low(), a.low(), b.low())).unwrap().name
            })
            .collect()
    })[n as usize - 1]
}

/// name, parameters, results, kind of the helper exports
pub fn helpers() -> Vec<(String, FT, Helper)> {
    let mut v = vec![];
    let suffix = |n: &str| {
        let t = prefix_type(n).low();
        let rest = &n[3..];
        let rest = rest.trim_start_matches("Load").trim_start_matches("Store");
        if rest.is_empty() {
            t.to_string()
        } else {
            format!("{t}_{rest}")
        }
    };
    for (i, n) in LOADS.iter().enumerate() {
        v.push((format!("instrumented_base_load_{}", suffix(n)), FT::new(&[VT::I32, VT::I32], &[prefix_type(n)]), Helper::Load(i as u8 + 1)));
    }
    for (i, n) in STORES.iter().enumerate() {
        v.push((
            format!("instrumented_base_store_{}", suffix(n)),
            FT::new(&[VT::I32, prefix_type(n), VT::I32], &[]),
            Helper::Store(i as u8 + 1),
        ));
    }
    v.push(("instrumented_memory_grow".into(), FT::new(&[VT::I32, VT::I32], &[VT::I32]), Helper::Grow));
    v.push(("instrumented_memory_size".into(), FT::new(&[VT::I32], &[VT::I32]), Helper::Size));
    v
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Helper {
    Load(u8),
    Store(u8),
    Grow,
    Size,
}
