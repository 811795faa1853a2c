//! Files in memory: what the C library calls below the standard library's `File` and `Path` do.
//! Names are concrete, contents may be symbolic.  Every path through the program starts without files.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Files {
    files: BTreeMap<Vec<u8>, Rc<Vec<Byte>>>,
    dirs: BTreeSet<Vec<u8>>,
    /// names of devices that take nothing
    full: BTreeSet<Vec<u8>>,
    open: BTreeMap<u64, Open>,
    errno_at: u64,
}
#[derive(Clone)]
struct Open {
    name: Vec<u8>,
    pos: u64,
    flags: u64,
}
pub const NAMES: &[&str] = &[
    "open", "open64", "close", "read", "write", "readv", "writev", "lseek", "lseek64", "fstat", "fstat64", "stat", "stat64", "lstat64", "statx", "syscall", "mkdir",
    "unlink", "rmdir", "rename", "ftruncate64", "ftruncate", "fsync", "fdatasync", "fcntl", "__errno_location", "access", "copy_file_range", "getenv", "ioctl", "symlink",
];
const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOSPC: u64 = 28;
const ENOSYS: u64 = 38;
const ENOTEMPTY: u64 = 39;

/// the name relative to the (only) working directory, which is also the root
fn plain(name: &[u8]) -> Vec<u8> {
    let mut out: Vec<&[u8]> = vec![];
    for p in name.split(|c| *c == b'/') {
        match p {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            _ => out.push(p),
        }
    }
    out.join(&b'/')
}

impl Files {
    fn is_dir(&self, n: &[u8]) -> bool {
        n.is_empty() || self.dirs.contains(n)
    }
    fn parent_ok(&self, n: &[u8]) -> Result<(), u64> {
        match n.iter().rposition(|c| *c == b'/') {
            Some(k) if self.is_dir(&n[..k]) => Ok(()),
            Some(k) if self.files.contains_key(&n[..k]) => Err(ENOTDIR),
            Some(_) => Err(ENOENT),
            None => Ok(()),
        }
    }
    fn open(&mut self, name: &[u8], flags: u64) -> Result<u64, u64> {
        let n = plain(name);
        self.parent_ok(&n)?;
        if self.is_dir(&n) {
            if flags & 3 != 0 {
                return Err(EISDIR);
            }
        } else if self.full.contains(&n) {
            if flags & 0xc0 == 0xc0 {
                return Err(EEXIST);
            }
        } else if let Some(f) = self.files.get_mut(&n) {
            if flags & 0xc0 == 0xc0 {
                return Err(EEXIST);
            }
            if flags & 0x200 != 0 && flags & 3 != 0 {
                *f = Rc::new(vec![]);
            }
        } else {
            if flags & 0x40 == 0 {
                return Err(ENOENT);
            }
            self.files.insert(n.clone(), Rc::new(vec![]));
        }
        let fd = (3..).find(|k| !self.open.contains_key(k)).unwrap();
        self.open.insert(fd, Open { name: n, pos: 0, flags });
        Ok(fd)
    }
    fn read(&mut self, fd: u64, n: u64) -> Result<Vec<Byte>, u64> {
        let o = self.open.get_mut(&fd).ok_or(EBADF)?;
        if o.flags & 3 == 1 {
            return Err(EBADF);
        }
        if self.full.contains(&o.name) {
            return Ok(vec![Byte::C(0); n as usize]);
        }
        let f = self.files.get(&o.name).ok_or(EISDIR)?;
        let from = (o.pos as usize).min(f.len());
        let to = (from as u64 + n).min(f.len() as u64) as usize;
        o.pos = o.pos.max(to as u64);
        Ok(f[from..to].to_vec())
    }
    fn write(&mut self, fd: u64, b: &[Byte]) -> Result<u64, u64> {
        if fd < 3 {
            return Ok(b.len() as u64);
        }
        let o = self.open.get_mut(&fd).ok_or(EBADF)?;
        if o.flags & 3 == 0 {
            return Err(EBADF);
        }
        if self.full.contains(&o.name) {
            return if b.is_empty() { Ok(0) } else { Err(ENOSPC) };
        }
        let f = Rc::make_mut(self.files.get_mut(&o.name).ok_or(EBADF)?);
        if o.flags & 0x400 != 0 {
            o.pos = f.len() as u64;
        }
        let (from, to) = (o.pos as usize, o.pos as usize + b.len());
        if to > f.len() {
            f.resize(to, Byte::C(0));
        }
        f[from..to].copy_from_slice(b);
        o.pos = to as u64;
        Ok(b.len() as u64)
    }
    fn seek(&mut self, fd: u64, off: i64, whence: u64) -> Result<u64, u64> {
        let o = self.open.get_mut(&fd).ok_or(EBADF)?;
        let len = self.files.get(&o.name).map_or(0, |f| f.len()) as i64;
        let base = match whence {
            0 => 0,
            1 => o.pos as i64,
            2 => len,
            _ => return Err(EINVAL),
        };
        let p = base.checked_add(off).filter(|p| *p >= 0).ok_or(EINVAL)?;
        o.pos = p as u64;
        Ok(p as u64)
    }
    fn truncate(&mut self, fd: u64, n: u64) -> Result<u64, u64> {
        let o = self.open.get(&fd).ok_or(EBADF)?;
        let f = self.files.get_mut(&o.name).ok_or(EINVAL)?;
        Rc::make_mut(f).resize(n as usize, Byte::C(0));
        Ok(0)
    }
    /// size, or None for a directory
    fn stat(&self, name: &[u8]) -> Result<Option<u64>, u64> {
        let n = plain(name);
        self.parent_ok(&n)?;
        if self.is_dir(&n) {
            return Ok(None);
        }
        if self.full.contains(&n) {
            return Ok(Some(0));
        }
        self.files.get(&n).map(|f| Some(f.len() as u64)).ok_or(ENOENT)
    }
    fn mkdir(&mut self, name: &[u8]) -> Result<u64, u64> {
        let n = plain(name);
        self.parent_ok(&n)?;
        if self.is_dir(&n) || self.files.contains_key(&n) {
            return Err(EEXIST);
        }
        self.dirs.insert(n);
        Ok(0)
    }
    fn rmdir(&mut self, name: &[u8]) -> Result<u64, u64> {
        let n = plain(name);
        let mut below = n.clone();
        below.push(b'/');
        if self.files.keys().chain(self.dirs.iter()).any(|k| k.starts_with(&below)) {
            return Err(ENOTEMPTY);
        }
        self.dirs.remove(&n).then_some(0).ok_or(ENOENT)
    }
    fn unlink(&mut self, name: &[u8]) -> Result<u64, u64> {
        let n = plain(name);
        if self.is_dir(&n) {
            return Err(EISDIR);
        }
        if self.full.remove(&n) {
            return Ok(0);
        }
        self.files.remove(&n).map(|_| 0).ok_or(ENOENT)
    }
    fn rename(&mut self, a: &[u8], b: &[u8]) -> Result<u64, u64> {
        let (a, b) = (plain(a), plain(b));
        self.parent_ok(&b)?;
        if self.is_dir(&b) {
            return Err(EISDIR);
        }
        let f = self.files.remove(&a).ok_or(ENOENT)?;
        self.full.remove(&b);
        for o in self.open.values_mut() {
            if o.name == a {
                o.name = b.clone();
            }
        }
        self.files.insert(b, f);
        Ok(0)
    }
}

fn stat_bytes(s: Option<u64>) -> Vec<Byte> {
    let mut b = vec![0u8; 144];
    let (mode, size): (u32, u64) = match s {
        Some(n) => (0o100644, n),
        None => (0o040755, 4096),
    };
    b[16] = 1;
    b[24..28].copy_from_slice(&mode.to_le_bytes());
    b[48..56].copy_from_slice(&size.to_le_bytes());
    b.into_iter().map(Byte::C).collect()
}

impl Exec {
    fn number(&mut self, st: &mut State, v: &[Val], k: usize) -> R<u64> {
        Ok(self.concretize(st, v[k].e(), "argument of a file operation")? as u64)
    }
    fn c_string(&mut self, st: &mut State, v: &[Val], k: usize) -> R<Vec<u8>> {
        let a = self.number(st, v, k)?;
        let mut s = vec![];
        loop {
            match self.read_bytes(st, a + s.len() as u64, 1)?[0] {
                Byte::C(0) => return Ok(s),
                Byte::C(b) => s.push(b),
                _ => unsupported("file name with symbolic characters"),
            }
        }
    }
    fn errno(&mut self, st: &mut State) -> u64 {
        if st.files.errno_at == 0 {
            let a = self.alloc(st, 4, 16, Kind::Global, true);
            Rc::make_mut(&mut st.files).errno_at = a;
        }
        st.files.errno_at
    }
    fn answer(&mut self, st: &mut State, dst: Option<u32>, w: u16, r: Result<u64, u64>) -> R<()> {
        let v = match r {
            Ok(v) => v as u128,
            Err(code) => {
                let a = self.errno(st);
                self.write_bytes(st, a, &[Byte::C(code as u8), Byte::C(0), Byte::C(0), Byte::C(0)])?;
                u128::MAX
            }
        };
        self.set(st, dst, Val::S(konst(w, if w == 32 { v & 0xffff_ffff } else { v & u64::MAX as u128 })));
        Ok(())
    }
    /// the pieces of a readv or writev
    fn pieces(&mut self, st: &mut State, v: &[Val]) -> R<Vec<(u64, u64)>> {
        let (at, n) = (self.number(st, v, 1)?, self.number(st, v, 2)?);
        let mut out = vec![];
        for k in 0..n {
            let mut word = |x: &mut Exec, off: u64| -> R<u64> {
                let e = join(&x.read_bytes(st, at + 16 * k + off, 8)?);
                Ok(x.concretize(st, e, "argument of a file operation")? as u64)
            };
            out.push((word(self, 0)?, word(self, 8)?));
        }
        Ok(out)
    }
    pub fn file_operation(&mut self, st: &mut State, dst: Option<u32>, name: &str, v: &[Val]) -> R<()> {
        let mut w = 32;
        let r: Result<u64, u64> = match name {
            "open" | "open64" => {
                let (n, f) = (self.c_string(st, v, 0)?, self.number(st, v, 1)?);
                Rc::make_mut(&mut st.files).open(&n, f)
            }
            "close" => {
                let fd = self.number(st, v, 0)?;
                Rc::make_mut(&mut st.files).open.remove(&fd).map(|_| 0).ok_or(EBADF)
            }
            "read" | "readv" => {
                w = 64;
                let fd = self.number(st, v, 0)?;
                let to = if name == "read" { vec![(self.number(st, v, 1)?, self.number(st, v, 2)?)] } else { self.pieces(st, v)? };
                match Rc::make_mut(&mut st.files).read(fd, to.iter().map(|p| p.1).sum()) {
                    Ok(b) => {
                        let mut left = &b[..];
                        for (a, n) in to {
                            let (x, y) = left.split_at((n as usize).min(left.len()));
                            self.write_bytes(st, a, x)?;
                            left = y;
                        }
                        Ok(b.len() as u64)
                    }
                    Err(e) => Err(e),
                }
            }
            "write" | "writev" => {
                w = 64;
                let fd = self.number(st, v, 0)?;
                let from = if name == "write" { vec![(self.number(st, v, 1)?, self.number(st, v, 2)?)] } else { self.pieces(st, v)? };
                let mut b = vec![];
                for (a, n) in from {
                    b.extend(self.read_bytes(st, a, n)?);
                }
                Rc::make_mut(&mut st.files).write(fd, &b)
            }
            "lseek" | "lseek64" => {
                w = 64;
                let (fd, off, whence) = (self.number(st, v, 0)?, self.number(st, v, 1)?, self.number(st, v, 2)?);
                Rc::make_mut(&mut st.files).seek(fd, off as i64, whence)
            }
            "ftruncate" | "ftruncate64" => {
                let (fd, n) = (self.number(st, v, 0)?, self.number(st, v, 1)?);
                Rc::make_mut(&mut st.files).truncate(fd, n)
            }
            "fstat" | "fstat64" => {
                let (fd, at) = (self.number(st, v, 0)?, self.number(st, v, 1)?);
                let s = st.files.open.get(&fd).map(|o| st.files.files.get(&o.name).map(|f| f.len() as u64));
                match s {
                    Some(s) => {
                        self.write_bytes(st, at, &stat_bytes(s))?;
                        Ok(0)
                    }
                    None => Err(EBADF),
                }
            }
            "stat" | "stat64" | "lstat64" => {
                let (n, at) = (self.c_string(st, v, 0)?, self.number(st, v, 1)?);
                match st.files.stat(&n) {
                    Ok(s) => {
                        self.write_bytes(st, at, &stat_bytes(s))?;
                        Ok(0)
                    }
                    Err(e) => Err(e),
                }
            }
            "access" => {
                let n = self.c_string(st, v, 0)?;
                st.files.stat(&n).map(|_| 0)
            }
            "mkdir" => {
                let n = self.c_string(st, v, 0)?;
                Rc::make_mut(&mut st.files).mkdir(&n)
            }
            "rmdir" => {
                let n = self.c_string(st, v, 0)?;
                Rc::make_mut(&mut st.files).rmdir(&n)
            }
            "unlink" => {
                let n = self.c_string(st, v, 0)?;
                Rc::make_mut(&mut st.files).unlink(&n)
            }
            "rename" => {
                let (a, b) = (self.c_string(st, v, 0)?, self.c_string(st, v, 1)?);
                Rc::make_mut(&mut st.files).rename(&a, &b)
            }
            "symlink" => {
                let (to, n) = (self.c_string(st, v, 0)?, self.c_string(st, v, 1)?);
                if to != b"/dev/full" {
                    unsupported("symbolic link")
                }
                Rc::make_mut(&mut st.files).full.insert(plain(&n));
                Ok(0)
            }
            "fsync" | "fdatasync" | "fcntl" => Ok(0),
            "__errno_location" => {
                w = 64;
                Ok(self.errno(st))
            }
            "getenv" => {
                w = 64;
                Ok(0)
            }
            "syscall" | "copy_file_range" => {
                w = 64;
                Err(ENOSYS)
            }
            _ => Err(ENOSYS),
        };
        self.answer(st, dst, w, r)
    }
}
