//! No AssemblyScript compiler exists in the sandbox. A harness may install one with `set_hook`.
use std::sync::OnceLock;
type Hook = Box<dyn Fn(&str) -> Result<Vec<u8>, String> + Send + Sync>;
static HOOK: OnceLock<Hook> = OnceLock::new();
pub fn set_hook(h: Hook) {
    let _ = HOOK.set(h);
}
pub mod error {
    #[derive(Debug)]
    pub struct CompilerSetupError;
    impl std::fmt::Display for CompilerSetupError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "setup")
        }
    }
    impl std::error::Error for CompilerSetupError {}
    #[derive(Debug)]
    pub struct CompilationError(pub String);
    impl std::fmt::Display for CompilationError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for CompilationError {}
}
pub mod options {
    #[derive(Debug, Clone)]
    pub struct CompilerOptions {
        pub source: String,
    }
    impl CompilerOptions {
        pub fn default_for(source: impl Into<String>) -> Self {
            CompilerOptions { source: source.into() }
        }
    }
}
pub mod compiler {
    use crate::{error::*, options::CompilerOptions};
    #[derive(Debug, Clone)]
    pub struct Compiler;
    impl Compiler {
        pub fn new() -> Result<Self, CompilerSetupError> {
            Ok(Compiler)
        }
        pub fn compile(&self, o: &CompilerOptions) -> Result<Vec<u8>, CompilationError> {
            match crate::HOOK.get() {
                Some(h) => h(&o.source).map_err(CompilationError),
                None => Err(CompilationError("no AssemblyScript compiler".into())),
            }
        }
    }
}
