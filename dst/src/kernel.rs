//! The simulated kernel: processes, descriptors and the semantics of every call the shim forwards.
use crate::rng::{mix2, Rng};
use crate::vfs::{raw, errno::*, Cred, Ino, Kind, Vfs, R};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const NAMES: &[&str] = &[
    "?", "open", "read", "pread", "write", "pwrite", "lseek", "close", "stat", "fstat", "opendir", "getdents",
    "rewinddir", "unlink", "rename", "mkdir", "link", "symlink", "readlink", "realpath", "chmod", "fchmod", "chown",
    "fchown", "truncate", "ftruncate", "fsync", "utimens", "futimens", "access", "chdir", "fchdir", "getcwd", "umask",
    "flock", "dup", "dup2", "fcntl", "copyrange", "isatty", "clock", "sleep", "getid", "getrandom", "yield", "mmapfd",
    "fallocate", "sync", "nosys",
];

#[allow(dead_code)]
pub mod op {
    pub const OPEN: u32 = 1;
    pub const READ: u32 = 2;
    pub const PREAD: u32 = 3;
    pub const WRITE: u32 = 4;
    pub const PWRITE: u32 = 5;
    pub const LSEEK: u32 = 6;
    pub const CLOSE: u32 = 7;
    pub const STAT: u32 = 8;
    pub const FSTAT: u32 = 9;
    pub const OPENDIR: u32 = 10;
    pub const GETDENTS: u32 = 11;
    pub const REWINDDIR: u32 = 12;
    pub const UNLINK: u32 = 13;
    pub const RENAME: u32 = 14;
    pub const MKDIR: u32 = 15;
    pub const LINK: u32 = 16;
    pub const SYMLINK: u32 = 17;
    pub const READLINK: u32 = 18;
    pub const REALPATH: u32 = 19;
    pub const CHMOD: u32 = 20;
    pub const FCHMOD: u32 = 21;
    pub const CHOWN: u32 = 22;
    pub const FCHOWN: u32 = 23;
    pub const TRUNCATE: u32 = 24;
    pub const FTRUNCATE: u32 = 25;
    pub const FSYNC: u32 = 26;
    pub const UTIMENS: u32 = 27;
    pub const FUTIMENS: u32 = 28;
    pub const ACCESS: u32 = 29;
    pub const CHDIR: u32 = 30;
    pub const FCHDIR: u32 = 31;
    pub const GETCWD: u32 = 32;
    pub const UMASK: u32 = 33;
    pub const FLOCK: u32 = 34;
    pub const DUP: u32 = 35;
    pub const DUP2: u32 = 36;
    pub const FCNTL: u32 = 37;
    pub const COPYRANGE: u32 = 38;
    pub const ISATTY: u32 = 39;
    pub const CLOCK: u32 = 40;
    pub const SLEEP: u32 = 41;
    pub const GETID: u32 = 42;
    pub const GETRANDOM: u32 = 43;
    pub const YIELD: u32 = 44;
    pub const MMAPFD: u32 = 45;
    pub const FALLOCATE: u32 = 46;
    pub const SYNC: u32 = 47;
    pub const NOSYS: u32 = 48;
}

pub struct Req {
    pub op: u32,
    pub a: [i64; 6],
    pub data: Vec<u8>,
}

#[derive(Default, Debug)]
pub struct Rep {
    pub err: i32,
    pub ret: i64,
    pub data: Vec<u8>,
}

const O_ACCMODE: i64 = 3;
const O_CREAT: i64 = 0o100;
const O_EXCL: i64 = 0o200;
const O_TRUNC: i64 = 0o1000;
const O_APPEND: i64 = 0o2000;
const O_NONBLOCK: i64 = 0o4000;
const O_DIRECTORY: i64 = 0o200000;
const O_NOFOLLOW: i64 = 0o400000;
const O_PATH: i64 = 0o10000000;
const O_TMPFILE_BIT: i64 = 0o20000000;
const AT_FDCWD: i64 = -100;

#[derive(Clone, Debug, PartialEq)]
pub enum OKind {
    Stdin,
    Stdout,
    Stderr,
    Node(Ino),
}

#[derive(Debug)]
pub struct OFile {
    pub kind: OKind,
    pub off: usize,
    pub flags: i64,
    pub path: Vec<u8>,
    pub listing: Option<Vec<(Vec<u8>, u64, u8)>>,
    pub lpos: usize,
    pub opens: u64,
    pub locked: bool,
    pub id: u64,
}

/// What the run hands out where real systems differ: listing orders, inode numbers, pids, hash seeds, clock.
#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub order_seed: u64,
    pub dtype_unknown: bool,
    pub getdents_chunk: usize,
    pub ino_seed: u64,
    pub pid_base: u32,
    pub pid_reuse: bool,
    pub rand_seed: u64,
    pub clock_base: i64,
    pub clock_step: i64,
    pub clock_back: bool,
    pub tty: bool,
    pub uid: u32,
    /// a further group of the user; 0: none
    pub sup: u32,
    pub umask: u32,
    /// how many descriptors a process may have
    pub nofile: u32,
    /// which of ENVIRONS it gets
    pub vars: u32,
}

pub const ENVIRONS: &[&[&str]] = &[
    &["HOME=/home/u", "PATH=/usr/bin:/bin", "LANG=C.UTF-8"],
    &["HOME=/root", "PATH=/usr/bin:/bin", "LANG=de_DE.ISO-8859-1", "LC_ALL=C", "TZ=Asia/Tokyo", "TERM=xterm-256color", "COLUMNS=20"],
    &["PATH=/bin", "NO_COLOR=1", "CI=true", "TMPDIR=/nonexistent", "PWD=/elsewhere", "XDG_CONFIG_HOME=/home/u/.config", "HOME=/home/u"],
    &[],
    &["HOME=/home/u/p", "TMPDIR=/tmp", "TERM=dumb", "EDITOR=vi", "LUAFMT_CONFIG=/home/u/.luafmt.lua", "LUAFMT_OPTIONS=-i", "LUAFMT=-i", "USER=u", "LC_COLLATE=en_US.UTF-8", "FORCE_COLOR=1"],
];

impl Env {
    pub fn plain() -> Env {
        Env {
            order_seed: 0,
            dtype_unknown: false,
            getdents_chunk: 0,
            ino_seed: 1,
            pid_base: 4000,
            pid_reuse: false,
            rand_seed: 7,
            clock_base: 1_700_000_000_000_000_000,
            clock_step: 1000,
            clock_back: false,
            tty: false,
            uid: 1000,
            sup: 0,
            umask: 0o022,
            nofile: 1024,
            vars: 0,
        }
    }
}

pub struct Proc {
    pub pid: u32,
    pub cred: Cred,
    pub cwd: Ino,
    pub umask: u32,
    pub fds: BTreeMap<i32, Rc<RefCell<OFile>>>,
    pub stdin: Rc<Vec<u8>>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub calls: u32,
    pub nrand: u64,
    pub nopen: u64,
    pub nofile: i32,
    /// the most descriptors it ever had
    pub peak: usize,
    pub reads: BTreeMap<Vec<u8>, Vec<u8>>,
}

/// How the fault plan bends one call
#[derive(Clone, Default, Debug)]
pub struct Bend {
    pub short: Option<usize>,
    pub poison: i32,
    pub flip: Option<usize>,
}

pub struct Kernel {
    pub vfs: Vfs,
    pub env: Env,
    pub procs: Vec<Proc>,
    pub now: i64,
    pub next_open: u64,
    /// paths changed by the current call (for reports)
    pub note: String,
    pub locks: BTreeMap<Ino, Vec<(u64, bool)>>,
}

fn ok(ret: i64) -> Option<Rep> {
    Some(Rep { err: 0, ret, data: Vec::new() })
}
fn er(e: i32) -> Option<Rep> {
    Some(Rep { err: e, ret: -1, data: Vec::new() })
}
fn dat(d: Vec<u8>) -> Option<Rep> {
    Some(Rep { err: 0, ret: d.len() as i64, data: d })
}

impl Proc {
    pub fn new(pid: u32, cred: Cred, cwd: Ino, stdin: Rc<Vec<u8>>) -> Proc {
        let mut fds = BTreeMap::new();
        for (i, k) in [OKind::Stdin, OKind::Stdout, OKind::Stderr].iter().enumerate() {
            fds.insert(
                i as i32,
                Rc::new(RefCell::new(OFile {
                    kind: k.clone(),
                    off: 0,
                    flags: if i == 0 { 0 } else { 1 },
                    path: format!("<{}>", ["stdin", "stdout", "stderr"][i]).into_bytes(),
                    listing: None,
                    lpos: 0,
                    opens: 0,
                    locked: false,
                    id: i as u64,
                })),
            );
        }
        Proc {
            pid,
            cred,
            cwd,
            umask: 0o022,
            fds,
            stdin,
            out: Vec::new(),
            err: Vec::new(),
            calls: 0,
            nrand: 0,
            nopen: 0,
            nofile: 1024,
            peak: 3,
            reads: BTreeMap::new(),
        }
    }
    fn fd(&self, fd: i64) -> R<Rc<RefCell<OFile>>> {
        self.fds.get(&(fd as i32)).cloned().ok_or(EBADF)
    }
    fn alloc(&mut self, min: i32, f: Rc<RefCell<OFile>>) -> R<i64> {
        let mut n = min;
        while self.fds.contains_key(&n) {
            n += 1;
        }
        if n >= self.nofile {
            return Err(EMFILE);
        }
        self.fds.insert(n, f);
        self.peak = self.peak.max(self.fds.len());
        Ok(n as i64)
    }
}

impl Kernel {
    pub fn new(vfs: Vfs, env: Env) -> Kernel {
        let now = env.clock_base;
        Kernel { vfs, env, procs: Vec::new(), now, next_open: 10, note: String::new(), locks: BTreeMap::new() }
    }

    fn start(&self, p: usize, dirfd: i64, path: &[u8]) -> R<Ino> {
        if path.first() == Some(&b'/') || dirfd == AT_FDCWD {
            return Ok(self.procs[p].cwd);
        }
        match self.procs[p].fd(dirfd)?.borrow().kind {
            OKind::Node(i) => Ok(i),
            _ => Err(ENOTDIR),
        }
    }

    /// Absolute path of what a call names, for fault rules and reports. Links in the directory part are resolved.
    pub fn call_path(&self, p: usize, r: &Req) -> Vec<u8> {
        use op::*;
        match r.op {
            OPEN | STAT | OPENDIR | UNLINK | MKDIR | READLINK | REALPATH | CHMOD | CHOWN | TRUNCATE | UTIMENS | ACCESS
            | CHDIR => self.abs(p, r.a[0], r.op, &r.data),
            RENAME | LINK | SYMLINK => {
                let k = r.data.iter().position(|&b| b == 0).unwrap_or(0);
                self.abs(p, AT_FDCWD, r.op, &r.data[if r.op == SYMLINK { k + 1 } else { 0 }..if r.op == SYMLINK { r.data.len() } else { k }])
            }
            READ | PREAD | WRITE | PWRITE | LSEEK | CLOSE | FSTAT | GETDENTS | REWINDDIR | FCHMOD | FCHOWN | FTRUNCATE
            | FSYNC | FUTIMENS | FCHDIR | FLOCK | FALLOCATE | MMAPFD | COPYRANGE => {
                self.procs[p].fd(r.a[0]).map(|f| f.borrow().path.clone()).unwrap_or_default()
            }
            _ => Vec::new(),
        }
    }

    fn abs(&self, p: usize, dirfd: i64, _op: u32, path: &[u8]) -> Vec<u8> {
        let root = Cred { uid: 0, gid: 0, sup: 0 };
        let dirfd = match _op {
            op::OPENDIR | op::REALPATH | op::TRUNCATE | op::CHDIR => AT_FDCWD,
            _ => dirfd,
        };
        if let Ok(s) = self.start(p, dirfd, path) {
            if let Ok(r) = self.vfs.resolve(s, path, false, root) {
                if r.name == b"." {
                    return self.vfs.path_of(r.ino.unwrap());
                }
                let mut o = self.vfs.path_of(r.dir);
                if o != b"/" {
                    o.push(b'/');
                }
                o.extend_from_slice(&r.name);
                return o;
            }
        }
        path.to_vec()
    }

    /// How many bytes a read may deliver so that it ends right behind a line: a text broken off there
    /// is often still a program.
    pub fn line_cut(&self, p: usize, r: &Req, rng: &mut Rng) -> Option<usize> {
        if r.op != op::READ && r.op != op::PREAD {
            return None;
        }
        let f = self.procs[p].fd(r.a[0]).ok()?;
        let f = f.borrow();
        let src: &[u8] = match f.kind {
            OKind::Stdin => &self.procs[p].stdin,
            OKind::Node(i) => &self.vfs.inodes[i].data,
            _ => return None,
        };
        let off = if r.op == op::PREAD { r.a[2] as usize } else { f.off }.min(src.len());
        let hi = (off + r.a[1] as usize).min(src.len());
        let d = &src[off..hi];
        if d.len() < 2 {
            return None;
        }
        let at = rng.below(d.len() - 1);
        let e = d[..d.len() - 1].iter();
        e.enumerate().skip(at).find(|(_, b)| **b == b'\n').map(|(i, _)| i + 1)
    }

    pub fn is_mutation(r: &Req) -> bool {
        use op::*;
        match r.op {
            OPEN => r.a[1] & (O_CREAT | O_TRUNC | O_TMPFILE_BIT) != 0 || r.a[1] & O_ACCMODE != 0,
            WRITE | PWRITE | COPYRANGE => true,
            UNLINK | RENAME | MKDIR | LINK | SYMLINK | CHMOD | FCHMOD | CHOWN | FCHOWN | TRUNCATE | FTRUNCATE | UTIMENS
            | FUTIMENS | FALLOCATE => true,
            _ => false,
        }
    }

    fn st(&self, i: Ino) -> Vec<u8> {
        let n = &self.vfs.inodes[i];
        let (fmt, size) = match &n.kind {
            Kind::File => (0o100000, n.data.len()),
            Kind::Dir(m) => (0o040000, 4096.max(m.len() * 32)),
            Kind::Link(t) => (0o120000, t.len()),
            Kind::Fifo => (0o010000, 0),
        };
        let v = [
            n.dev as i64,
            self.ino_no(i) as i64,
            (fmt | n.mode) as i64,
            n.nlink as i64,
            n.uid as i64,
            n.gid as i64,
            size as i64,
            4096,
            ((size + 511) / 512) as i64,
            n.mtime / 1_000_000_000,
            n.mtime % 1_000_000_000,
            n.mtime / 1_000_000_000,
            n.mtime % 1_000_000_000,
            n.ctime / 1_000_000_000,
            n.ctime % 1_000_000_000,
            n.btime / 1_000_000_000,
            n.btime % 1_000_000_000,
        ];
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    fn st_stream(&self) -> Vec<u8> {
        let v: [i64; 17] = [5, 9, 0o010600, 1, 1000, 1000, 0, 4096, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        v.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn ino_no(&self, i: Ino) -> u64 {
        // distinct, and ordered differently from creation for most seeds
        let x = (i as u64 + 1).wrapping_mul(2 * (self.env.ino_seed & 0xffff) + 1) & 0xffff_ffff;
        x + 2
    }

    /// Executes one call. None: it blocks (stays pending).
    pub fn exec(&mut self, p: usize, r: &Req, bend: &Bend) -> Option<Rep> {
        self.vfs.now = self.now;
        match self.exec_r(p, r, bend) {
            Ok(x) => x,
            Err(e) => er(e),
        }
    }

    fn exec_r(&mut self, p: usize, r: &Req, bend: &Bend) -> R<Option<Rep>> {
        use op::*;
        let cred = self.procs[p].cred;
        let a = &r.a;
        let path = &r.data;
        Ok(match r.op {
            OPEN => {
                let (dirfd, flags, mode) = (a[0], a[1], a[2] as u32);
                let s = self.start(p, dirfd, path)?;
                let acc = flags & O_ACCMODE;
                if flags & O_TMPFILE_BIT != 0 {
                    return Err(EOPNOTSUPP);
                }
                let nofollow = flags & O_NOFOLLOW != 0 || (flags & O_CREAT != 0 && flags & O_EXCL != 0);
                let res = self.vfs.resolve(s, path, !nofollow, cred)?;
                let canon = {
                    if res.name == b"." {
                        self.vfs.path_of(res.ino.unwrap())
                    } else {
                        let mut o = self.vfs.path_of(res.dir);
                        if o != b"/" {
                            o.push(b'/');
                        }
                        o.extend_from_slice(&res.name);
                        o
                    }
                };
                let ino = match res.ino {
                    Some(i) => {
                        if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                            return Err(EEXIST);
                        }
                        if matches!(self.vfs.inodes[i].kind, Kind::Link(_)) && flags & O_PATH == 0 {
                            return Err(ELOOP);
                        }
                        if self.vfs.is_dir(i) && (acc != 0 || flags & O_CREAT != 0) {
                            return Err(EISDIR);
                        }
                        if !self.vfs.is_dir(i) && flags & O_DIRECTORY != 0 {
                            return Err(ENOTDIR);
                        }
                        if flags & O_PATH == 0 {
                            let need = match acc {
                                0 => 4,
                                1 => 2,
                                _ => 6,
                            };
                            self.vfs.perm(i, need, cred)?;
                        }
                        if self.vfs.inodes[i].kind == Kind::Fifo && flags & (O_NONBLOCK | O_PATH) == 0 && acc != 2 {
                            self.note = "blocked opening a FIFO".into();
                            return Ok(None);
                        }
                        if flags & O_TRUNC != 0 && self.vfs.inodes[i].kind == Kind::File {
                            // O_TRUNC needs write permission on the file even when opened for reading
                            self.vfs.perm(i, 2, cred)?;
                            self.vfs.truncate(i, 0);
                        }
                        i
                    }
                    None => {
                        if flags & O_CREAT == 0 {
                            return Err(ENOENT);
                        }
                        if res.slash {
                            return Err(EISDIR);
                        }
                        let m = mode & !self.procs[p].umask & 0o7777;
                        self.vfs.create(res.dir, &res.name, Kind::File, m, cred)?
                    }
                };
                self.open_node(p, ino, flags, canon)?
            }
            OPENDIR => {
                let s = self.start(p, AT_FDCWD, path)?;
                let i = self.vfs.lookup(s, path, true, cred)?;
                if !self.vfs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                self.vfs.perm(i, 4, cred)?;
                let canon = self.vfs.path_of(i);
                self.open_node(p, i, O_DIRECTORY, canon)?
            }
            READ | PREAD => {
                let f = self.procs[p].fd(a[0])?;
                let mut f = f.borrow_mut();
                let mut n = a[1] as usize;
                if let Some(k) = bend.short {
                    n = n.min(k.max(1));
                }
                if f.flags & O_ACCMODE == 1 {
                    return Err(EBADF);
                }
                let src: Rc<Vec<u8>> = match f.kind {
                    OKind::Stdin => self.procs[p].stdin.clone(),
                    OKind::Node(i) => match self.vfs.inodes[i].kind {
                        Kind::File => self.vfs.inodes[i].data.clone(),
                        Kind::Dir(_) => return Err(EISDIR),
                        _ => Rc::new(Vec::new()),
                    },
                    _ => return Err(EBADF),
                };
                let off = if r.op == PREAD {
                    if f.kind == OKind::Stdin {
                        return Err(ESPIPE);
                    }
                    a[2] as usize
                } else {
                    f.off
                };
                let lo = off.min(src.len());
                let hi = (lo + n).min(src.len());
                let mut d = src[lo..hi].to_vec();
                if r.op == READ {
                    f.off = hi.max(f.off);
                }
                if let Some(k) = bend.flip {
                    if !d.is_empty() {
                        let k = k % d.len();
                        d[k] = 0xff;
                    }
                }
                dat(d)
            }
            WRITE | PWRITE => {
                let f = self.procs[p].fd(a[0])?;
                let mut f = f.borrow_mut();
                let mut n = r.data.len();
                if let Some(k) = bend.short {
                    n = n.min(k.max(1));
                }
                let d = &r.data[..n];
                match f.kind {
                    OKind::Stdout => {
                        self.procs[p].out.extend_from_slice(d);
                        ok(n as i64)
                    }
                    OKind::Stderr => {
                        self.procs[p].err.extend_from_slice(d);
                        ok(n as i64)
                    }
                    OKind::Stdin => return Err(EBADF),
                    OKind::Node(i) => {
                        if f.flags & O_ACCMODE == 0 {
                            return Err(EBADF);
                        }
                        if self.vfs.inodes[i].kind != Kind::File {
                            return Err(EPIPE);
                        }
                        let off = if f.flags & O_APPEND != 0 {
                            self.vfs.inodes[i].data.len()
                        } else if r.op == PWRITE {
                            a[1] as usize
                        } else {
                            f.off
                        };
                        if off + n > 1 << 28 {
                            return Err(EFBIG);
                        }
                        if n > 0 {
                            self.vfs.write_at(i, off, d, bend.poison);
                        }
                        if r.op == WRITE {
                            f.off = off + n;
                        }
                        ok(n as i64)
                    }
                }
            }
            LSEEK => {
                let f = self.procs[p].fd(a[0])?;
                let mut f = f.borrow_mut();
                let i = match f.kind {
                    OKind::Node(i) if self.vfs.inodes[i].kind != Kind::Fifo => i,
                    _ => return Err(ESPIPE),
                };
                let base = match a[2] {
                    0 => 0,
                    1 => f.off as i64,
                    2 => self.vfs.inodes[i].data.len() as i64,
                    _ => return Err(EINVAL),
                };
                let n = base + a[1];
                if n < 0 {
                    return Err(EINVAL);
                }
                f.off = n as usize;
                if self.vfs.is_dir(i) {
                    f.listing = None;
                }
                ok(n)
            }
            CLOSE => {
                let f = self.procs[p].fds.remove(&(a[0] as i32)).ok_or(EBADF)?;
                self.release(&f);
                ok(0)
            }
            STAT => {
                let s = self.start(p, a[0], path)?;
                if path.is_empty() {
                    if a[1] & 0x1000 != 0 && a[0] == AT_FDCWD {
                        return Ok(dat(self.st(self.procs[p].cwd)));
                    }
                    return Err(ENOENT);
                }
                let i = self.vfs.lookup(s, path, a[1] & 0x100 == 0, cred)?;
                let mut rep = dat(self.st(i)).unwrap();
                rep.ret = 0;
                Some(rep)
            }
            FSTAT => {
                let v = if a[0] == AT_FDCWD {
                    self.st(self.procs[p].cwd)
                } else {
                    let f = self.procs[p].fd(a[0])?;
                    let k = f.borrow().kind.clone();
                    match k {
                        OKind::Node(i) => self.st(i),
                        _ => self.st_stream(),
                    }
                };
                let mut rep = dat(v).unwrap();
                rep.ret = 0;
                Some(rep)
            }
            GETDENTS => {
                let f = self.procs[p].fd(a[0])?;
                let mut f = f.borrow_mut();
                let i = match f.kind {
                    OKind::Node(i) => i,
                    _ => return Err(ENOTDIR),
                };
                if f.listing.is_none() {
                    let mut v: Vec<(Vec<u8>, u64, u8)> = Vec::new();
                    v.push((b".".to_vec(), self.ino_no(i), 4));
                    v.push((b"..".to_vec(), self.ino_no(self.vfs.inodes[i].parent), 4));
                    for (n, &c) in self.vfs.dir(i)? {
                        let t = match self.vfs.inodes[c].kind {
                            Kind::File => 8,
                            Kind::Dir(_) => 4,
                            Kind::Link(_) => 10,
                            Kind::Fifo => 1,
                        };
                        v.push((n.clone(), self.ino_no(c), t));
                    }
                    if self.env.order_seed != 0 {
                        // same directory, same run: any order, and possibly another one each time it is opened
                        Rng::new(mix2(self.env.order_seed, mix2(i as u64, f.opens))).shuffle(&mut v);
                    }
                    f.listing = Some(v);
                    f.lpos = 0;
                }
                let chunk = match bend.short {
                    Some(k) => k.max(1),
                    None if self.env.getdents_chunk > 0 => self.env.getdents_chunk,
                    None => 400,
                };
                let mut o = Vec::new();
                let l = f.listing.as_ref().unwrap().len();
                let mut k = f.lpos;
                while k < l && k - f.lpos < chunk && o.len() < 60000 {
                    let (n, ino, t) = &f.listing.as_ref().unwrap()[k];
                    let n = &raw(n);
                    o.extend_from_slice(&ino.to_le_bytes());
                    o.push(if self.env.dtype_unknown { 0 } else { *t });
                    o.push(0);
                    o.extend_from_slice(&(n.len() as u16).to_le_bytes());
                    o.extend_from_slice(n);
                    k += 1;
                }
                f.lpos = k;
                dat(o)
            }
            REWINDDIR => {
                let f = self.procs[p].fd(a[0])?;
                let mut f = f.borrow_mut();
                f.listing = None;
                f.lpos = 0;
                ok(0)
            }
            UNLINK => {
                let s = self.start(p, a[0], path)?;
                let res = self.vfs.resolve(s, path, false, cred)?;
                if res.ino.is_none() {
                    return Err(ENOENT);
                }
                if res.name == b"." {
                    return Err(if a[1] & 0x200 != 0 { EINVAL } else { EISDIR });
                }
                self.vfs.unlink(res.dir, &res.name, a[1] & 0x200 != 0, cred)?;
                ok(0)
            }
            RENAME | LINK => {
                let k = r.data.iter().position(|&b| b == 0).ok_or(EINVAL)?;
                let (x, y) = (&r.data[..k], &r.data[k + 1..]);
                let sx = self.start(p, a[0], x)?;
                let sy = self.start(p, a[1], y)?;
                let rx = self.vfs.resolve(sx, x, r.op == LINK && a[2] & 0x400 != 0, cred)?;
                let ry = self.vfs.resolve(sy, y, false, cred)?;
                let i = rx.ino.ok_or(ENOENT)?;
                if rx.name == b"." || ry.name == b"." {
                    return Err(EBUSY);
                }
                if r.op == RENAME {
                    if ry.slash && !self.vfs.is_dir(i) {
                        return Err(ENOTDIR);
                    }
                    self.vfs.rename(rx.dir, &rx.name, ry.dir, &ry.name, a[2] as u32, cred)?;
                } else {
                    if ry.ino.is_some() {
                        return Err(EEXIST);
                    }
                    if self.vfs.is_dir(i) {
                        return Err(EPERM);
                    }
                    self.vfs.hardlink(ry.dir, &ry.name, i, cred)?;
                }
                ok(0)
            }
            MKDIR => {
                let s = self.start(p, a[0], path)?;
                let res = self.vfs.resolve(s, path, false, cred)?;
                if res.ino.is_some() {
                    return Err(EEXIST);
                }
                let m = a[1] as u32 & !self.procs[p].umask & 0o7777;
                self.vfs.create(res.dir, &res.name, Kind::Dir(BTreeMap::new()), m, cred)?;
                ok(0)
            }
            SYMLINK => {
                let k = r.data.iter().position(|&b| b == 0).ok_or(EINVAL)?;
                let (t, y) = (&r.data[..k], &r.data[k + 1..]);
                let s = self.start(p, a[0], y)?;
                let res = self.vfs.resolve(s, y, false, cred)?;
                if res.ino.is_some() {
                    return Err(EEXIST);
                }
                self.vfs.create(res.dir, &res.name, Kind::Link(t.to_vec()), 0o777, cred)?;
                ok(0)
            }
            READLINK => {
                let s = self.start(p, a[0], path)?;
                let i = self.vfs.lookup(s, path, false, cred)?;
                match &self.vfs.inodes[i].kind {
                    Kind::Link(t) => {
                        let t = raw(t);
                        dat(t[..t.len().min(a[1] as usize)].to_vec())
                    }
                    _ => return Err(EINVAL),
                }
            }
            REALPATH => {
                let s = self.procs[p].cwd;
                dat(raw(&self.vfs.realpath(s, path, cred)?))
            }
            CHMOD | CHOWN => {
                let s = self.start(p, a[0], path)?;
                let fl = if r.op == CHMOD { a[2] } else { a[3] };
                let i = self.vfs.lookup(s, path, fl & 0x100 == 0, cred)?;
                self.chattr(i, cred, r.op == CHMOD, a[1], a[2])?;
                ok(0)
            }
            FCHMOD | FCHOWN => {
                let f = self.procs[p].fd(a[0])?;
                let k = f.borrow().kind.clone();
                match k {
                    OKind::Node(i) => self.chattr(i, cred, r.op == FCHMOD, a[1], a[2])?,
                    _ => return Err(EINVAL),
                }
                ok(0)
            }
            TRUNCATE => {
                let s = self.procs[p].cwd;
                let i = self.vfs.lookup(s, path, true, cred)?;
                if self.vfs.is_dir(i) {
                    return Err(EISDIR);
                }
                self.vfs.perm(i, 2, cred)?;
                self.vfs.truncate(i, a[0] as usize);
                ok(0)
            }
            FTRUNCATE | FALLOCATE => {
                let f = self.procs[p].fd(a[0])?;
                let f = f.borrow();
                let i = match f.kind {
                    OKind::Node(i) if self.vfs.inodes[i].kind == Kind::File => i,
                    _ => return Err(EINVAL),
                };
                if f.flags & O_ACCMODE == 0 {
                    return Err(EINVAL);
                }
                if r.op == FTRUNCATE {
                    self.vfs.truncate(i, a[1] as usize);
                } else if a[1] == 0 {
                    let n = (a[2] + a[3]) as usize;
                    if self.vfs.inodes[i].data.len() < n {
                        self.vfs.truncate(i, n);
                    }
                }
                ok(0)
            }
            FSYNC => {
                let f = self.procs[p].fd(a[0])?;
                let k = f.borrow().kind.clone();
                match k {
                    OKind::Node(i) => {
                        if a[1] == 2 {
                            self.vfs.sync_all();
                        } else {
                            self.vfs.fsync(i)?;
                        }
                    }
                    _ => return Err(EINVAL),
                }
                ok(0)
            }
            SYNC => {
                self.vfs.sync_all();
                ok(0)
            }
            UTIMENS | FUTIMENS => {
                let i = if r.op == UTIMENS {
                    let s = self.start(p, a[0], path)?;
                    self.vfs.lookup(s, path, a[1] & 0x100 == 0, cred)?
                } else {
                    match self.procs[p].fd(a[0])?.borrow().kind {
                        OKind::Node(i) => i,
                        _ => return Err(EINVAL),
                    }
                };
                let (s, n) = if r.op == UTIMENS { (a[2], a[3]) } else { (a[1], a[2]) };
                if cred.uid != 0 && cred.uid != self.vfs.inodes[i].uid {
                    return Err(EPERM);
                }
                if n != 0x3ffffffe {
                    self.vfs.inodes[i].mtime = if s < 0 || n == 0x3fffffff { self.now } else { s * 1_000_000_000 + n };
                    self.vfs.version += 1;
                }
                ok(0)
            }
            ACCESS => {
                let s = self.start(p, a[0], path)?;
                let i = self.vfs.lookup(s, path, a[2] & 0x100 == 0, cred)?;
                self.vfs.perm(i, a[1] as u32 & 7, cred)?;
                ok(0)
            }
            CHDIR | FCHDIR => {
                let i = if r.op == CHDIR {
                    self.vfs.lookup(self.procs[p].cwd, path, true, cred)?
                } else {
                    match self.procs[p].fd(a[0])?.borrow().kind {
                        OKind::Node(i) => i,
                        _ => return Err(ENOTDIR),
                    }
                };
                if !self.vfs.is_dir(i) {
                    return Err(ENOTDIR);
                }
                self.vfs.perm(i, 1, cred)?;
                self.procs[p].cwd = i;
                ok(0)
            }
            GETCWD => dat(raw(&self.vfs.path_of(self.procs[p].cwd))),
            UMASK => {
                let o = self.procs[p].umask;
                self.procs[p].umask = a[0] as u32 & 0o777;
                ok(o as i64)
            }
            FLOCK => {
                let f = self.procs[p].fd(a[0])?;
                let (id, i) = {
                    let f = f.borrow();
                    match f.kind {
                        OKind::Node(i) => (f.id, i),
                        _ => return Err(EINVAL),
                    }
                };
                let (sh, ex, nb, un) = (a[1] & 1 != 0, a[1] & 2 != 0, a[1] & 4 != 0, a[1] & 8 != 0);
                let l = self.locks.entry(i).or_default();
                if un {
                    l.retain(|x| x.0 != id);
                    return Ok(ok(0));
                }
                let conflict = l.iter().any(|x| x.0 != id && (ex || x.1));
                if conflict {
                    if nb {
                        return Err(EAGAIN);
                    }
                    self.note = "blocked on a lock".into();
                    return Ok(None);
                }
                l.retain(|x| x.0 != id);
                if sh || ex {
                    l.push((id, ex));
                }
                f.borrow_mut().locked = true;
                ok(0)
            }
            DUP => {
                let f = self.procs[p].fd(a[0])?;
                ok(self.procs[p].alloc(a[1].max(0) as i32, f)?)
            }
            DUP2 => {
                let f = self.procs[p].fd(a[0])?;
                if a[0] != a[1] {
                    self.procs[p].fds.insert(a[1] as i32, f);
                }
                ok(a[1])
            }
            FCNTL => {
                let f = self.procs[p].fd(a[0])?;
                match a[1] {
                    1 => ok(1),
                    2 => ok(0),
                    3 => ok(f.borrow().flags),
                    4 => ok(0),
                    _ => return Err(EINVAL),
                }
            }
            COPYRANGE => {
                let fi = self.procs[p].fd(a[0])?;
                let fo = self.procs[p].fd(a[1])?;
                let (ii, oi) = match (fi.borrow().kind.clone(), fo.borrow().kind.clone()) {
                    (OKind::Node(x), OKind::Node(y)) => (x, y),
                    _ => return Err(EINVAL),
                };
                let io = if a[3] >= 0 { a[3] as usize } else { fi.borrow().off };
                let oo = if a[4] >= 0 { a[4] as usize } else { fo.borrow().off };
                let src = self.vfs.inodes[ii].data.clone();
                let lo = io.min(src.len());
                let mut hi = (lo + a[2] as usize).min(src.len());
                if let Some(k) = bend.short {
                    hi = hi.min(lo + k.max(1));
                }
                if hi > lo {
                    self.vfs.write_at(oi, oo, &src[lo..hi], bend.poison);
                }
                if a[3] < 0 {
                    fi.borrow_mut().off = hi;
                }
                if a[4] < 0 {
                    fo.borrow_mut().off = oo + hi - lo;
                }
                ok((hi - lo) as i64)
            }
            ISATTY => {
                let f = self.procs[p].fd(a[0])?;
                let k = f.borrow().kind.clone();
                ok((self.env.tty && matches!(k, OKind::Stdout | OKind::Stderr)) as i64)
            }
            CLOCK => {
                let v = if a[0] == 0 {
                    if self.env.clock_back {
                        // a clock that is being stepped back and forth
                        self.now - ((self.now / 7000) % 5) * 3_600_000_000_000
                    } else {
                        self.now
                    }
                } else {
                    self.now - self.env.clock_base + 1_000_000_000
                };
                ok(v)
            }
            SLEEP => {
                self.now += a[0].max(0);
                ok(0)
            }
            GETID => ok(match a[0] {
                0 => self.procs[p].pid as i64,
                1 => 1,
                2 => cred.uid as i64,
                _ => cred.gid as i64,
            }),
            GETRANDOM => {
                let q = &mut self.procs[p];
                q.nrand += 1;
                let mut g = Rng::new(mix2(self.env.rand_seed, mix2(q.pid as u64, q.nrand)));
                let n = a[0] as usize;
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend_from_slice(&g.next().to_le_bytes());
                }
                v.truncate(n);
                dat(v)
            }
            YIELD => ok(0),
            MMAPFD => return Err(ENODEV),
            NOSYS => return Err(ENOSYS),
            _ => return Err(ENOSYS),
        })
    }

    fn chattr(&mut self, i: Ino, cred: Cred, mode: bool, x: i64, y: i64) -> R<()> {
        let owner = self.vfs.inodes[i].uid;
        if mode {
            if cred.uid != 0 && cred.uid != owner {
                return Err(EPERM);
            }
            self.vfs.set_attr(i, Some(x as u32), None, None);
        } else {
            let u = if x < 0 { None } else { Some(x as u32) };
            let g = if y < 0 { None } else { Some(y as u32) };
            if cred.uid != 0 {
                if cred.uid != owner || u.map_or(false, |u| u != owner) || g.map_or(false, |g| g != cred.gid && (cred.sup == 0 || g != cred.sup)) {
                    return Err(EPERM);
                }
            }
            // changing the owner drops the set-id bits
            let m = self.vfs.inodes[i].mode & !0o6000;
            self.vfs.set_attr(i, Some(m), u, g);
        }
        Ok(())
    }

    fn open_node(&mut self, p: usize, ino: Ino, flags: i64, path: Vec<u8>) -> R<Option<Rep>> {
        let id = self.next_open;
        self.next_open += 1;
        self.procs[p].nopen += 1;
        let f = OFile {
            kind: OKind::Node(ino),
            off: 0,
            flags,
            path,
            listing: None,
            lpos: 0,
            opens: self.procs[p].nopen,
            locked: false,
            id,
        };
        let n = self.procs[p].alloc(3, Rc::new(RefCell::new(f)))?;
        Ok(ok(n))
    }

    fn release(&mut self, f: &Rc<RefCell<OFile>>) {
        if Rc::strong_count(f) == 1 {
            let f = f.borrow();
            if f.locked {
                let id = f.id;
                for l in self.locks.values_mut() {
                    l.retain(|x| x.0 != id);
                }
            }
        }
    }

    /// All descriptors of a dead process go away.
    pub fn reap(&mut self, p: usize) {
        let fds = std::mem::take(&mut self.procs[p].fds);
        for (_, f) in fds {
            self.release(&f);
        }
    }
}
