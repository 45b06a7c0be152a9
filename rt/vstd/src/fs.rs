//! An in-memory file system with an operation log and injectable faults.  The
//! code under test never touches the real one.
pub use std::fs::{FileTimes, Permissions};

use crate::sched::{point, world_or_default, World};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

pub type Node = Arc<Mutex<Vec<u8>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// The operation fails with an I/O error and does nothing.
    Error,
    /// The same with this error number of the operating system.
    Os(i32),
    /// A write stores only this many bytes (if it has more) and says so.
    Short(usize),
    /// The operation fails with ErrorKind::Interrupted and does nothing.
    Interrupted,
    /// A write stores half of its bytes, then reports an error.
    Torn,
    /// A write reports that 0 bytes were written.
    Zero,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub kind: &'static str,
    pub path: String,
    pub len: usize,
    /// The operation can change the file system.
    pub mutates: bool,
}

#[derive(Default)]
pub struct FsState {
    pub files: BTreeMap<String, Node>,
    pub ops: Vec<Op>,
    /// Faults by index of the operation.
    pub faults: BTreeMap<usize, Fault>,
    /// Every operation from this one on fails (a full disk).
    pub fail_from: Option<usize>,
    /// At most this many bytes are stored by one write.
    pub max_write: Option<usize>,
    /// Every write from this one on fails.
    pub fired: usize,
}

impl FsState {
    pub fn get(&self, p: &str) -> Option<Vec<u8>> {
        self.files.get(p).map(|n| n.lock().unwrap().clone())
    }
    pub fn put(&mut self, p: &str, data: &[u8]) {
        self.files.insert(p.to_string(), Arc::new(Mutex::new(data.to_vec())));
    }
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.files.iter().map(|(k, v)| (k.clone(), v.lock().unwrap().clone())).collect()
    }
}

fn norm(p: &Path) -> String {
    let mut out: Vec<String> = Vec::new();
    for c in p.components() {
        match c {
            std::path::Component::CurDir => (),
            std::path::Component::ParentDir => { out.pop(); }
            c => out.push(c.as_os_str().to_string_lossy().into_owned()),
        }
    }
    // absolute paths below the current directory are the same file
    let s = out.join("/").replace("//", "/");
    if let Ok(cwd) = std::env::current_dir() {
        let cwd = cwd.to_string_lossy().into_owned();
        if let Some(rest) = s.strip_prefix(&(cwd + "/")) {
            return rest.to_string();
        }
    }
    s
}

fn io_error() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "injected I/O error")
}

/// Log an operation; returns the fault to apply, if any.
fn begin(w: &World, kind: &'static str, path: &str, len: usize, mutates: bool) -> Option<Fault> {
    point("file operation", None);
    let mut fs = w.fs.lock().unwrap();
    let k = fs.ops.len();
    fs.ops.push(Op { kind, path: path.to_string(), len, mutates });
    let f = fs.faults.get(&k).copied().or(match fs.fail_from {
        Some(f) if k >= f => Some(Fault::Error),
        _ => None,
    });
    if f.is_some() {
        fs.fired += 1;
    }
    f
}

fn simple(f: Option<Fault>) -> io::Result<()> {
    match f {
        Some(Fault::Error) | Some(Fault::Torn) | Some(Fault::Zero) => Err(io_error()),
        Some(Fault::Interrupted) => Err(io::Error::from(io::ErrorKind::Interrupted)),
        Some(Fault::Os(n)) => Err(io::Error::from_raw_os_error(n)),
        _ => Ok(()),
    }
}

#[derive(Clone, Debug, Default)]
pub struct OpenOptions { read: bool, write: bool, append: bool, truncate: bool, create: bool, create_new: bool }

impl OpenOptions {
    pub fn new() -> OpenOptions { OpenOptions::default() }
    pub fn read(&mut self, v: bool) -> &mut Self { self.read = v; self }
    pub fn write(&mut self, v: bool) -> &mut Self { self.write = v; self }
    pub fn append(&mut self, v: bool) -> &mut Self { self.append = v; self }
    pub fn truncate(&mut self, v: bool) -> &mut Self { self.truncate = v; self }
    pub fn create(&mut self, v: bool) -> &mut Self { self.create = v; self }
    pub fn create_new(&mut self, v: bool) -> &mut Self { self.create_new = v; self }
    pub fn open<P: AsRef<Path>>(&self, path: P) -> io::Result<File> {
        let w = world_or_default();
        let path = norm(path.as_ref());
        simple(begin(&w, "open", &path, 0, self.create || self.create_new || self.truncate))?;
        let writes = self.write || self.append;
        if !writes && (self.truncate || self.create || self.create_new) || !writes && !self.read {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        if self.append && self.truncate {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        let mut fs = w.fs.lock().unwrap();
        let exists = fs.files.contains_key(&path);
        if exists && self.create_new {
            return Err(io::Error::from(io::ErrorKind::AlreadyExists));
        }
        if !exists {
            if !(self.create || self.create_new) {
                return Err(io::Error::from(io::ErrorKind::NotFound));
            }
            fs.files.insert(path.clone(), Arc::new(Mutex::new(Vec::new())));
        }
        let node = fs.files[&path].clone();
        if self.truncate {
            node.lock().unwrap().clear();
        }
        drop(fs);
        Ok(File { world: w, node, path, pos: Mutex::new(0), append: self.append, can_read: self.read, can_write: writes })
    }
}

pub struct File {
    world: Arc<World>,
    node: Node,
    path: String,
    pos: Mutex<u64>,
    append: bool,
    can_read: bool,
    can_write: bool,
}

impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "File({})", self.path) }
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).open(p) }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().write(true).create(true).truncate(true).open(p) }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).write(true).create_new(true).open(p) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn sync_all(&self) -> io::Result<()> { simple(begin(&self.world, "sync", &self.path, 0, false)) }
    pub fn sync_data(&self) -> io::Result<()> { simple(begin(&self.world, "sync", &self.path, 0, false)) }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        simple(begin(&self.world, "set_len", &self.path, n as usize, true))?;
        self.node.lock().unwrap().resize(n as usize, 0);
        Ok(())
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        simple(begin(&self.world, "metadata", &self.path, 0, false))?;
        Ok(Metadata(self.node.lock().unwrap().len() as u64))
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File { world: self.world.clone(), node: self.node.clone(), path: self.path.clone(), pos: Mutex::new(*self.pos.lock().unwrap()), append: self.append, can_read: self.can_read, can_write: self.can_write })
    }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        let f = begin(&self.world, "write", &self.path, buf.len(), true);
        if !self.can_write {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        let cap = self.world.fs.lock().unwrap().max_write.unwrap_or(usize::MAX);
        let (n, err) = match f {
            Some(Fault::Error) => (0, Some(io_error())),
            Some(Fault::Os(n)) => (0, Some(io::Error::from_raw_os_error(n))),
            Some(Fault::Interrupted) => (0, Some(io::Error::from(io::ErrorKind::Interrupted))),
            Some(Fault::Torn) => (buf.len() / 2, Some(io_error())),
            Some(Fault::Zero) => (0, None),
            Some(Fault::Short(n)) => (n.min(buf.len()), None),
            None => (buf.len(), None),
        };
        let n = n.min(cap);
        let mut data = self.node.lock().unwrap();
        let mut pos = self.pos.lock().unwrap();
        if self.append {
            *pos = data.len() as u64;
        }
        let p = *pos as usize;
        if data.len() < p + n {
            data.resize(p + n, 0);
        }
        data[p..p + n].copy_from_slice(&buf[..n]);
        *pos += n as u64;
        match err {
            Some(e) => Err(e),
            None => Ok(n),
        }
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        simple(begin(&self.world, "read", &self.path, buf.len(), false))?;
        if !self.can_read {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        let data = self.node.lock().unwrap();
        let mut pos = self.pos.lock().unwrap();
        let p = (*pos as usize).min(data.len());
        let n = buf.len().min(data.len() - p);
        buf[..n].copy_from_slice(&data[p..p + n]);
        *pos += n as u64;
        Ok(n)
    }
    fn do_seek(&self, s: SeekFrom) -> io::Result<u64> {
        let len = self.node.lock().unwrap().len() as i64;
        let mut pos = self.pos.lock().unwrap();
        let p = match s {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => len + d,
            SeekFrom::Current(d) => *pos as i64 + d,
        };
        if p < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        *pos = p as u64;
        Ok(*pos)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.do_write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<'a> Write for &'a File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.do_write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Read for File { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.do_read(b) } }
impl<'a> Read for &'a File { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.do_read(b) } }
impl Seek for File { fn seek(&mut self, s: SeekFrom) -> io::Result<u64> { self.do_seek(s) } }

#[derive(Clone, Debug)]
pub struct Metadata(u64);
impl Metadata {
    pub fn len(&self) -> u64 { self.0 }
    pub fn is_file(&self) -> bool { true }
    pub fn is_dir(&self) -> bool { false }
}

pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    let w = world_or_default();
    let p = norm(p.as_ref());
    simple(begin(&w, "metadata", &p, 0, false))?;
    let fs = w.fs.lock().unwrap();
    match fs.files.get(&p) {
        Some(n) => Ok(Metadata(n.lock().unwrap().len() as u64)),
        None => Err(io::Error::from(io::ErrorKind::NotFound)),
    }
}
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    let w = world_or_default();
    let p = norm(p.as_ref());
    simple(begin(&w, "exists", &p, 0, false))?;
    let r = w.fs.lock().unwrap().files.contains_key(&p);
    Ok(r)
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let w = world_or_default();
    let p = norm(p.as_ref());
    simple(begin(&w, "remove", &p, 0, true))?;
    let r = w.fs.lock().unwrap().files.remove(&p);
    r.map(|_| ()).ok_or_else(|| io::Error::from(io::ErrorKind::NotFound))
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<()> {
    let w = world_or_default();
    let (p, q) = (norm(p.as_ref()), norm(q.as_ref()));
    simple(begin(&w, "rename", &q, 0, true))?;
    let mut fs = w.fs.lock().unwrap();
    match fs.files.remove(&p) {
        Some(n) => { fs.files.insert(q, n); Ok(()) }
        None => Err(io::Error::from(io::ErrorKind::NotFound)),
    }
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<u64> {
    let d = read(p)?;
    write(q, &d)?;
    Ok(d.len() as u64)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    File::create(p)?.write_all(c.as_ref())
}
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut v = String::new();
    File::open(p)?.read_to_string(&mut v)?;
    Ok(v)
}
pub fn create_dir<P: AsRef<Path>>(_p: P) -> io::Result<()> { Ok(()) }
pub fn create_dir_all<P: AsRef<Path>>(_p: P) -> io::Result<()> { Ok(()) }
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { Ok(PathBuf::from(norm(p.as_ref()))) }

#[allow(dead_code)]
fn _unused(_: &OsStr) {}
