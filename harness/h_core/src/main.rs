#![allow(dead_code)]
mod alib;
mod analysis;
mod apply;
mod aslib;
mod asprog;
mod base;
mod cli;
mod corners;
mod encode;
mod gen;
mod iface;
mod interp;
mod lift;
mod pipe;
mod purity;
mod run;
mod rustlib;
mod shape;
mod shipped;
mod slots;
mod stages;
mod traps;
mod wasm;
mod weave;
use vcommon::*;

fn main() {
    let arg0 = std::env::args().next().unwrap_or_default();
    if arg0.rsplit('/').next() == Some("wasm-merge") {
        pipe::tool_main();
    }
    quiet_panics();
    let mut ctx = Ctx::from_env("");
    let tool = pipe::Tool::install(&ctx.verif);
    match ctx.id.as_str() {
        "C01" => weave::c01(&mut ctx),
        "C02" => weave::c02(&mut ctx),
        "C03" => weave::c03(&mut ctx),
        "C04" => weave::c04(&mut ctx),
        "C05" => weave::c05(&mut ctx),
        "C06" => shape::c06(&mut ctx),
        "C07" => apply::c07(&mut ctx),
        "C08" => base::c08(&mut ctx),
        "C09" => lift::c09(&mut ctx),
        "G01" => slots::g01(&mut ctx),
        "G03" => aslib::g03(&mut ctx),
        "G04" => iface::g04(&mut ctx),
        "S01" => purity::s01(&mut ctx),
        "S02" => purity::s02(&mut ctx),
        "E01" => stages::e01(&mut ctx, &tool),
        "E02" => cli::e02(&mut ctx, &tool),
        "S03" => cli::s03(&mut ctx, &tool),
        "G05" => asprog::g05(&mut ctx),
        "A01" => alib::a01(&mut ctx),
        "A02" => shipped::a02(&mut ctx),
        "G02" => rustlib::g02(&mut ctx),
        x => {
            eprintln!("unknown check {x}");
            std::process::exit(2);
        }
    }
    drop(tool);
    std::process::exit(ctx.finish());
}
