//! Stand-in for the `clio` crate (absent from the offline cache): files named on a command line.
use std::fs::File;
use std::io::{self, Read, Write};
use std::path::Path;
use std::str::FromStr;

#[derive(Debug, Clone)]
pub struct ClioPath(std::path::PathBuf);
impl ClioPath {
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn to_path_buf(&self) -> std::path::PathBuf {
        self.0.clone()
    }
}
impl std::ops::Deref for ClioPath {
    type Target = Path;
    fn deref(&self) -> &Path {
        &self.0
    }
}

/// `path` or `-` for standard input; opened while the command line is parsed.
#[derive(Debug)]
pub struct Input {
    path: ClioPath,
    file: Option<File>,
}
impl Input {
    pub fn new(p: impl AsRef<Path>) -> io::Result<Self> {
        let path = p.as_ref().to_path_buf();
        let file = if path.as_os_str() == "-" { None } else { Some(File::open(&path)?) };
        Ok(Input { path: ClioPath(path), file })
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
}
impl Clone for Input {
    fn clone(&self) -> Self {
        Input { path: self.path.clone(), file: self.file.as_ref().map(|f| f.try_clone().expect("clone")) }
    }
}
impl FromStr for Input {
    type Err = io::Error;
    fn from_str(s: &str) -> io::Result<Self> {
        Input::new(s)
    }
}
impl Read for Input {
    /// A read may give less than asked for: VERIF_SHORT_READS=<n> makes it give at most n.
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        static MOST: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        let most = *MOST.get_or_init(|| std::env::var("VERIF_SHORT_READS").ok().and_then(|n| n.parse().ok()).unwrap_or(0));
        let b = match most {
            n if n > 0 && b.len() > n => &mut b[..n],
            _ => b,
        };
        match &mut self.file {
            Some(f) => f.read(b),
            None => io::stdin().read(b),
        }
    }
}

/// `path` or `-` for standard output; created while the command line is parsed.
#[derive(Debug)]
pub struct Output {
    path: ClioPath,
    file: Option<File>,
}
impl Output {
    pub fn new(p: impl AsRef<Path>) -> io::Result<Self> {
        let path = p.as_ref().to_path_buf();
        let file = if path.as_os_str() == "-" { None } else { Some(File::create(&path)?) };
        Ok(Output { path: ClioPath(path), file })
    }
    pub fn path(&self) -> &ClioPath {
        &self.path
    }
    pub fn finish(mut self) -> io::Result<()> {
        self.flush()
    }
}
impl Clone for Output {
    fn clone(&self) -> Self {
        Output { path: self.path.clone(), file: self.file.as_ref().map(|f| f.try_clone().expect("clone")) }
    }
}
impl FromStr for Output {
    type Err = io::Error;
    fn from_str(s: &str) -> io::Result<Self> {
        Output::new(s)
    }
}
impl Write for Output {
    /// One system call per `write`; it may take less than all bytes (a file accepts at most
    /// 2 GiB, a pipe what fits): VERIF_SHORT_WRITES=<n> makes it take at most n.
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let b = match std::env::var("VERIF_SHORT_WRITES").ok().and_then(|n| n.parse::<usize>().ok()) {
            Some(n) if n > 0 && b.len() > n => &b[..n],
            _ => b,
        };
        match &mut self.file {
            Some(f) => f.write(b),
            None => io::stdout().write(b),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match &mut self.file {
            Some(f) => f.flush(),
            None => io::stdout().flush(),
        }
    }
}
