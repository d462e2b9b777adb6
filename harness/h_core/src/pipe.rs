//! Runs the real pipeline (`Wastrumenter::wastrument`) with a stand-in for the `wasm-merge` tool
//! that stores its inputs instead of linking them, so that the parts can be observed.
use crate::traps::*;
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use vcommon::guarded;
use wastrumentation::analysis::{AnalysisInterface, ProcessedAnalysis};
use wastrumentation::compiler::*;
use wastrumentation::wasm_constructs::Signature;
use wastrumentation::{Configuration, PrimaryTarget, Wastrumenter};
use wastrumentation_lang_webassembly::compile::compiler::Compiler as WasmCompiler;
use wastrumentation_lang_webassembly::compile::options::{CompilerOptions as WasmOptions, WebAssemblySource};
use wastrumentation_lang_webassembly::compile::WebAssembly;

// ---------------------------------------------------------------- stand-in tool
pub const MAGIC: &[u8] = b"BUNDLE1\n";
fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(b);
}
pub fn tool_main() -> ! {
    use std::os::unix::ffi::OsStrExt;
    if let Some(log) = std::env::var_os("VERIF_MERGE_LOG") {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(log) {
            let _ = f.write_all(b".");
        }
    }
    let args: Vec<Vec<u8>> = std::env::args_os().skip(1).map(|a| a.as_bytes().to_vec()).collect();
    let (mut flags, mut pos, mut out) = (vec![], vec![], None);
    let mut i = 0;
    while i < args.len() {
        if args[i] == b"-o" || args[i] == b"--output" {
            out = args.get(i + 1).cloned();
            i += 2;
            continue;
        }
        if args[i].starts_with(b"-") {
            flags.push(args[i].clone());
        } else {
            pos.push(args[i].clone());
        }
        i += 1;
    }
    let path = |b: &[u8]| PathBuf::from(std::ffi::OsStr::from_bytes(b));
    let mut o = MAGIC.to_vec();
    flags.sort();
    o.extend((flags.len() as u32).to_le_bytes());
    for f in &flags {
        put(&mut o, f);
    }
    for pair in pos.chunks(2) {
        match std::fs::read(path(&pair[0])) {
            Ok(m) => {
                if m.windows(14).any(|w| w == b"%%MERGE-FAIL%%") {
                    eprintln!("refused by the stand-in: marked module");
                    std::process::exit(1);
                }
                put(&mut o, pair.get(1).map_or(&b""[..], |n| n));
                put(&mut o, &m);
            }
            Err(e) => {
                eprintln!("cannot read: {e}");
                std::process::exit(1);
            }
        }
    }
    if let Some(p) = out {
        std::fs::write(path(&p), &o).expect("write");
    }
    std::process::exit(0);
}
/// A private directory with the stand-in, first in PATH; removed when dropped.
pub struct Tool(PathBuf);
impl Tool {
    pub fn install(verif: &Path) -> Tool {
        let dir = verif.join("work").join(format!("core-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch");
        std::os::unix::fs::symlink(std::env::current_exe().expect("exe"), dir.join("wasm-merge")).expect("link");
        let old = std::env::var("PATH").unwrap_or_default();
        std::env::set_var("PATH", format!("{}:{old}", dir.display()));
        std::env::set_var("TMPDIR", &dir);
        Tool(dir)
    }
    pub fn dir(&self) -> &Path {
        &self.0
    }
}
impl Drop for Tool {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug, Clone)]
pub struct Bundle {
    pub flags: Vec<String>,
    pub parts: Vec<(String, Vec<u8>)>,
}
pub fn parse_bundle(b: &[u8]) -> Option<Bundle> {
    let mut r = b.strip_prefix(MAGIC)?;
    fn num(r: &mut &[u8]) -> Option<usize> {
        let (h, t) = r.split_at_checked(4)?;
        *r = t;
        Some(u32::from_le_bytes(h.try_into().ok()?) as usize)
    }
    fn bytes(r: &mut &[u8]) -> Option<Vec<u8>> {
        let n = num(r)?;
        let (h, t) = r.split_at_checked(n)?;
        *r = t;
        Some(h.to_vec())
    }
    let n = num(&mut r)?;
    let flags = (0..n).map(|_| bytes(&mut r).map(|f| String::from_utf8_lossy(&f).to_string())).collect::<Option<_>>()?;
    let mut parts = vec![];
    while !r.is_empty() {
        let name = String::from_utf8(bytes(&mut r)?).ok()?;
        parts.push((name, bytes(&mut r)?));
    }
    Some(Bundle { flags, parts })
}
impl Bundle {
    pub fn part(&self, ns: &str) -> Option<&[u8]> {
        self.parts.iter().find(|(n, _)| n == ns).map(|(_, m)| &m[..])
    }
}

// ---------------------------------------------------------------- recording languages
thread_local! {
    /// what the pipeline asked for, in order
    pub static STAGES: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    pub static SIGNATURES: RefCell<Vec<(Vec<String>, Vec<String>)>> = const { RefCell::new(vec![]) };
    pub static FAIL_LIB: RefCell<bool> = const { RefCell::new(false) };
    /// the library last compiled
    pub static COMPILED: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}
pub const LIBRARY_REFUSED: &str = "library refused by the harness";
fn stage(s: impl Into<String>) {
    STAGES.with(|v| v.borrow_mut().push(s.into()));
}
/// The analysis: its "source" is the module it compiles to, or a failure.
#[derive(Debug, Clone)]
pub struct AnalysisLang;
pub struct AnalysisOptions(pub Result<Vec<u8>, String>);
impl SourceCodeBound for AnalysisLang {
    type DefaultCompilerOptions = AnalysisOptions;
    type SourceCode = Result<Vec<u8>, String>;
}
impl DefaultCompilerOptions<AnalysisLang> for AnalysisOptions {
    fn default_for(s: Result<Vec<u8>, String>) -> Self {
        AnalysisOptions(s)
    }
}
pub struct AnalysisCompiler;
impl Compiles<AnalysisLang> for AnalysisCompiler {
    type CompilerOptions = AnalysisOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(AnalysisCompiler)
    }
    fn compile(&self, o: &AnalysisOptions) -> CompilationResult<AnalysisLang> {
        stage("compile analysis");
        o.0.clone().map_err(CompilationError::because)
    }
}
/// The WebAssembly language, observed.
#[derive(Debug, Clone)]
pub struct LibLang;
pub struct LibOptions(WasmOptions);
impl SourceCodeBound for LibLang {
    type DefaultCompilerOptions = LibOptions;
    type SourceCode = WebAssemblySource;
}
impl DefaultCompilerOptions<LibLang> for LibOptions {
    fn default_for(s: WebAssemblySource) -> Self {
        LibOptions(WasmOptions::default_for(s))
    }
}
impl LibGeneratable for LibLang {
    fn generate_lib(signatures: &[Signature]) -> Library<Self> {
        stage("generate library");
        SIGNATURES.with(|v| {
            *v.borrow_mut() = signatures
                .iter()
                .map(|s| {
                    (
                        s.argument_types.iter().map(|t| t.to_string()).collect(),
                        s.return_types.iter().map(|t| t.to_string()).collect(),
                    )
                })
                .collect()
        });
        let l = WebAssembly::generate_lib(signatures);
        Library { content: l.content, language: std::marker::PhantomData }
    }
}
pub struct LibCompiler(WasmCompiler);
impl Compiles<LibLang> for LibCompiler {
    type CompilerOptions = LibOptions;
    type CompilerSetupError = ();
    fn setup_compiler() -> Result<Self, ()> {
        Ok(LibCompiler(WasmCompiler::setup_compiler()?))
    }
    fn compile(&self, o: &LibOptions) -> CompilationResult<LibLang> {
        stage("compile library");
        if FAIL_LIB.with(|f| *f.borrow()) {
            return Err(CompilationError::because(LIBRARY_REFUSED.into()));
        }
        let out = self.0.compile(&o.0).map_err(|e| CompilationError::because(e.reason().to_string()));
        COMPILED.with(|c| *c.borrow_mut() = out.as_ref().ok().cloned());
        out
    }
}
pub type Error = wastrumentation::error::Error<AnalysisLang, LibLang>;

#[derive(Debug)]
pub enum Failed {
    Panic(String),
    Error(Box<Error>),
}
impl std::fmt::Display for Failed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Failed::Panic(m) => write!(f, "panicked: {m}"),
            Failed::Error(e) => write!(f, "error: {e:?}"),
        }
    }
}
pub fn wastrument_raw(
    input: &[u8],
    analysis: Result<Vec<u8>, String>,
    interface: AnalysisInterface,
    targets: Option<Vec<u32>>,
    primary: Option<PrimaryTarget>,
) -> Result<Vec<u8>, Failed> {
    STAGES.with(|v| v.borrow_mut().clear());
    SIGNATURES.with(|v| v.borrow_mut().clear());
    let w = Wastrumenter::new(
        Box::new(LibCompiler::setup_compiler().expect("setup")),
        Box::new(AnalysisCompiler::setup_compiler().expect("setup")),
    );
    let config = Configuration { target_indices: targets, primary_selection: primary };
    let processed = ProcessedAnalysis { analysis_library: analysis, analysis_interface: interface };
    match guarded(|| w.wastrument(input, processed, &config)) {
        Err(p) => Err(Failed::Panic(p)),
        Ok(Err(e)) => Err(Failed::Error(Box::new(e))),
        Ok(Ok(b)) => Ok(b),
    }
}
/// (instrumented program, library)
pub fn instrumented(
    input: &[u8],
    interface: AnalysisInterface,
    targets: Option<Vec<u32>>,
) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let out = wastrument_raw(input, Ok(b"\0asm\x01\0\0\0".to_vec()), interface, targets, None).map_err(|e| e.to_string())?;
    let b = parse_bundle(&out).ok_or("the result is not what the merge tool produced")?;
    let t = b.part(NS_TARGET).ok_or("no target part was merged")?.to_vec();
    Ok((t, b.part(NS_LIB).map(<[u8]>::to_vec)))
}

pub fn copy_interface(i: &AnalysisInterface) -> AnalysisInterface {
    use wastrumentation::analysis::{WasmExport, WasmImport};
    let e = |x: &WasmExport| WasmExport { name: x.name.clone(), args: x.args.clone(), results: x.results.clone() };
    let mut out = AnalysisInterface::default();
    for t in &TRAPS {
        *field_mut(&mut out, t.field) = field_ref(i, t.field).as_ref().map(e);
    }
    out.generic_interface = i.generic_interface.as_ref().map(|(x, m)| {
        (e(x), WasmImport { namespace: m.namespace.clone(), name: m.name.clone(), args: m.args.clone(), results: m.results.clone() })
    });
    out
}
