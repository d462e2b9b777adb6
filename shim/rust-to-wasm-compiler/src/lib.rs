//! Stand-in: a harness installs what compiles with `set_hook`; a separate process names the
//! bytes to return, and where to record the request, in the environment.
use std::path::PathBuf;
use std::sync::OnceLock;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum WasiSupport {
    Enabled,
    Disabled,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Profile {
    Release,
    Dev,
}
#[derive(Debug, Clone)]
pub enum Request {
    Source { wasi: WasiSupport, manifest: String, source: String, profile: Profile },
    Manifest { wasi: WasiSupport, path: PathBuf, profile: Profile },
}
type Hook = Box<dyn Fn(&Request) -> Result<Vec<u8>, String> + Send + Sync>;
static HOOK: OnceLock<Hook> = OnceLock::new();
pub fn set_hook(h: Hook) {
    let _ = HOOK.set(h);
}
#[derive(Debug)]
pub struct CompilerSetupError;
impl std::fmt::Display for CompilerSetupError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "setup")
    }
}
impl std::error::Error for CompilerSetupError {}
#[derive(Debug)]
pub struct CompilationError(pub String);
impl std::fmt::Display for CompilationError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CompilationError {}
#[derive(Debug, Clone)]
pub struct RustToWasmCompiler;
impl RustToWasmCompiler {
    pub fn new() -> Result<Self, CompilerSetupError> {
        Ok(RustToWasmCompiler)
    }
    fn run(&self, r: &Request) -> Result<Vec<u8>, CompilationError> {
        if let Some(h) = HOOK.get() {
            return h(r).map_err(CompilationError);
        }
        if let Ok(log) = std::env::var("VERIF_RUST_WASM_LOG") {
            use std::io::Write;
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(log) {
                let _ = writeln!(f, "{r:?}");
            }
        }
        let from = match r {
            Request::Source { .. } => "VERIF_RUST_WASM_LIB",
            Request::Manifest { .. } => "VERIF_RUST_WASM_ANALYSIS",
        };
        let path = std::env::var(from).map_err(|_| CompilationError("no Rust compiler".into()))?;
        std::fs::read(path).map_err(|e| CompilationError(e.to_string()))
    }
    pub fn compile_source(&self, wasi: WasiSupport, manifest: &str, source: &str, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        self.run(&Request::Source { wasi, manifest: manifest.into(), source: source.into(), profile })
    }
    pub fn compile(&self, wasi: WasiSupport, path: &PathBuf, profile: Profile) -> Result<Vec<u8>, CompilationError> {
        self.run(&Request::Manifest { wasi, path: path.clone(), profile })
    }
}
