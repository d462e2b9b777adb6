//! Stands in for wasmtime: a module is a file, running it does what the scenario says (SCN: its directory, NTH: which
//! execution this is), and everything asked of it is written down with its time.
use std::io::Write;
use std::marker::PhantomData;
use std::path::Path;

pub type Result<T, E = Error> = std::result::Result<T, E>;
pub struct Error(String);
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

fn scn() -> String {
    std::env::var("SCN").expect("SCN")
}
extern "C" {
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}
/// The clock `Instant` reads.
fn now() -> i64 {
    let mut t = [0; 2];
    unsafe { clock_gettime(1, &mut t) };
    t[0] * 1_000_000_000 + t[1]
}
fn log(line: &str) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}/log", scn())).unwrap();
    f.write_all(format!("{line}\n").as_bytes()).unwrap();
}

#[derive(Clone, Copy, Debug)]
pub enum OptLevel {
    None,
    Speed,
    SpeedAndSize,
}
#[derive(Clone, Copy, Debug)]
pub enum Strategy {
    Auto,
    Cranelift,
    Winch,
}
#[derive(Clone, Default)]
pub struct Config;
impl Config {
    pub fn new() -> Self {
        Self
    }
    pub fn cranelift_opt_level(&mut self, _: OptLevel) -> &mut Self {
        self
    }
    pub fn strategy(&mut self, _: Strategy) -> &mut Self {
        self
    }
}
#[derive(Clone, Default)]
pub struct Engine;
impl Engine {
    pub fn new(_: &Config) -> Result<Self> {
        Ok(Self)
    }
}
#[derive(Clone)]
pub struct Module(String);
impl Module {
    pub fn from_file(_: &Engine, path: impl AsRef<Path>) -> Result<Self> {
        let bytes = std::fs::read(path.as_ref()).map_err(|e| Error(format!("failed to read {:?}: {e}", path.as_ref())))?;
        Self::from_binary(&Engine, &bytes)
    }
    pub fn new(e: &Engine, bytes: impl AsRef<[u8]>) -> Result<Self> {
        Self::from_binary(e, bytes.as_ref())
    }
    pub fn from_binary(_: &Engine, bytes: &[u8]) -> Result<Self> {
        if !bytes.starts_with(b"\0asm") {
            return Err(Error("expected a module".into()));
        }
        Ok(Self(String::from_utf8_lossy(&bytes[4..]).into_owned()))
    }
}
pub struct Store<T>(T);
impl<T> Store<T> {
    pub fn new(_: &Engine, data: T) -> Self {
        Self(data)
    }
    pub fn data(&self) -> &T {
        &self.0
    }
}
pub trait AsContextMut {}
impl<T> AsContextMut for Store<T> {}
impl<T: AsContextMut> AsContextMut for &mut T {}
pub struct Extern;
#[derive(Clone)]
pub struct Instance(String);
impl Instance {
    pub fn new(_: impl AsContextMut, module: &Module, _: &[Extern]) -> Result<Self> {
        // setting up is slow now and then: it is no part of what is measured
        if std::env::var("SLOW").is_ok() {
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        log(&format!("instance|{}", module.0));
        Ok(Self(module.0.clone()))
    }
    pub fn get_typed_func<P, R>(&self, _: impl AsContextMut, name: &str) -> Result<TypedFunc<P, R>> {
        if name != "_start" {
            return Err(Error(format!("failed to find function export `{name}`")));
        }
        log(&format!("found|{}", now()));
        Ok(TypedFunc(self.0.clone(), PhantomData))
    }
}
pub struct TypedFunc<P, R>(String, PhantomData<(P, R)>);
impl<P, R: Default> TypedFunc<P, R> {
    pub fn call(&self, _: impl AsContextMut, _: P) -> Result<R> {
        let entered = now();
        let runs = format!("{}/run", scn());
        let run: usize = std::fs::read_to_string(&runs).ok().and_then(|t| t.parse().ok()).unwrap_or(0);
        std::fs::write(&runs, format!("{}", run + 1)).unwrap();
        let plan = std::fs::read_to_string(format!("{}/plan/{}", scn(), std::env::var("NTH").unwrap())).unwrap_or_default();
        let (what, at) = plan.split_once(' ').unwrap_or(("ok", "0"));
        if what != "ok" && at.trim() == run.to_string() {
            log(&format!("ends|{what}"));
            match what {
                "trap" => return Err(Error("error while executing at wasm backtrace:\n    0: 0x3ee8 - <unknown>!<wasm function 3>\n\nCaused by:\n    wasm trap: wasm `unreachable` instruction executed".into())),
                "assert" => {
                    let (label_offset, offset) = (9u32, 1u32);
                    struct Kind { max: u32 }
                    impl Kind { fn max_pos_range(&self) -> u32 { self.max } }
                    let kind = Kind { max: 3 };
                    assert!((label_offset - offset) <= kind.max_pos_range());
                }
                "kill" => { let _ = std::process::Command::new("kill").args(["-9", &std::process::id().to_string()]).status(); }
                _ => {
                    std::fs::write(format!("{}/hangs", scn()), std::process::id().to_string()).unwrap();
                    std::thread::sleep(std::time::Duration::from_secs(100));
                }
            }
        }
        if what == "ok" && at.trim() != "0" {
            std::thread::sleep(std::time::Duration::from_micros(at.trim().parse().unwrap_or(0)));
        }
        log(&format!("start|{entered}|{}", now()));
        Ok(R::default())
    }
}
