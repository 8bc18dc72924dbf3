//! Contents around and above 4 GiB (M05, M10, M11, M16), streamed and never held.

use crate::engine::*;
use crate::fsx::{self, CaseDir};
use multipart::client::lazy;
use multipart::server::save::{PartialReason, SaveResult, SavedData};
use multipart::server::Multipart;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fs;
use std::io::{self, BufRead, Read, Write};
use std::os::unix::io::AsRawFd;

const GIB4: i64 = 1 << 32;
/// a prime, so that shifted data is noticed
const PERIOD: usize = 65521;
const HEAD: &[u8] = b"--BOUND\r\nContent-Disposition: form-data; name=\"vast\"; filename=\"f\"\r\nContent-Type: application/octet-stream\r\n\r\n";
const TAIL: &[u8] = b"\r\n--BOUND\r\nContent-Disposition: form-data; name=\"next\"\r\n\r\nnext\r\n--BOUND--\r\n";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    /// `write_to`
    Write,
    /// `with_path` to a pipe, with a threshold
    File(u16),
    /// `read` with a buffer of that many KiB
    Read(u16),
    Peek,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VastCase {
    /// the length of the content, relative to 4 GiB
    pub len: i32,
    /// relative to 4 GiB
    pub limit: Option<i32>,
    pub how: How,
    /// whether the rest of the field is read to its end afterwards
    pub rest: bool,
}

fn pattern() -> Vec<u8> {
    let mut v: Vec<u8> = crate::dsl::prand(77, PERIOD).into_iter().map(|b| b'a' + b % 26).collect();
    let w = v.clone();
    v.extend_from_slice(&w);
    v
}

struct Body {
    pat: Vec<u8>,
    pos: u64,
    len: u64,
}

impl Read for Body {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let h = HEAD.len() as u64;
        let n = {
            let src = if self.pos < h {
                &HEAD[self.pos as usize..]
            } else if self.pos < h + self.len {
                let p = self.pos - h;
                let at = (p % PERIOD as u64) as usize;
                &self.pat[at..at + (self.len - p).min(PERIOD as u64) as usize]
            } else {
                &TAIL[(self.pos - h - self.len).min(TAIL.len() as u64) as usize..]
            };
            let n = src.len().min(out.len());
            out[..n].copy_from_slice(&src[..n]);
            n
        };
        if self.pos >> 26 != (self.pos + n as u64) >> 26 {
            progress();
        }
        self.pos += n as u64;
        Ok(n)
    }
}

/// Compares what it is given to the pattern.
struct Check {
    pat: Vec<u8>,
    pos: u64,
    wrong: Option<u64>,
}

impl Check {
    fn new(pos: u64) -> Check {
        Check { pat: pattern(), pos, wrong: None }
    }
    fn take(&mut self, mut b: &[u8]) {
        while !b.is_empty() {
            let at = (self.pos % PERIOD as u64) as usize;
            let n = b.len().min(PERIOD);
            if self.wrong.is_none() && b[..n] != self.pat[at..at + n] {
                self.wrong = Some(self.pos);
            }
            self.pos += n as u64;
            b = &b[n..];
        }
    }
    fn done(&self, want: u64, what: &str) -> Outcome {
        if self.pos != want {
            return Err(format!("{}: ended at {} instead of {}", what, self.pos, want));
        }
        match self.wrong {
            Some(p) => Err(format!("{}: wrong contents at or behind {}", what, p)),
            None => Ok(()),
        }
    }
}

impl Write for Check {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.take(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn eval_vast(c: &VastCase, obs: &mut Obs) -> Outcome {
    let len = (GIB4 + c.len as i64) as u64;
    let limit = c.limit.map(|l| (GIB4 + l as i64) as u64);
    obs.nt(true);
    obs.class_if(limit.map_or(false, |l| l < len), "limited");
    obs.class_if(limit == Some(len), "exactly the limit");
    let mut mp = Multipart::with_body(Body { pat: pattern(), pos: 0, len }, "BOUND");
    let mut f = match mp.read_entry() {
        Ok(Some(f)) => f,
        _ => return Err("the first field is not read".into()),
    };
    let saved = len.min(limit.unwrap_or(len));
    let d = CaseDir::new();
    match c.how {
        How::Write => {
            obs.class("write_to");
            let mut out = Check::new(0);
            let (n, full) = match f.data.save().size_limit(limit).write_to(&mut out) {
                SaveResult::Full(n) => (n, true),
                SaveResult::Partial(n, PartialReason::SizeLimit) => (n, false),
                o => return Err(format!("write_to: {:?}", o)),
            };
            out.done(saved, "write_to")?;
            if n != saved || full != (saved == len) {
                return Err(format!("write_to of {} bytes with limit {:?} reports {} bytes, full: {}", len, limit, n, full));
            }
        }
        How::File(thr) => {
            obs.class("with_path");
            fsx::clean_tmp();
            let p = d.path().join("pipe");
            let cp = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
            if unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } != 0 {
                return Err("harness: mkfifo".into());
            }
            let hold = fs::OpenOptions::new().read(true).write(true).open(&p).unwrap();
            unsafe { libc::fcntl(hold.as_raw_fd(), libc::F_SETPIPE_SZ, 1 << 20) };
            let mut rd = fs::File::open(&p).unwrap();
            let t = std::thread::spawn(move || {
                let mut out = Check::new(0);
                let mut b = vec![0u8; 1 << 18];
                loop {
                    match rd.read(&mut b) {
                        Ok(0) | Err(_) => return out,
                        Ok(n) => out.take(&b[..n]),
                    }
                }
            });
            let res = f.data.save().size_limit(limit).memory_threshold(thr as u64).ignore_text().mod_open_opts(|o| { o.create_new(false); }).with_path(p.clone());
            drop(hold);
            let out = t.join().map_err(|_| "harness: reader".to_string())?;
            let (data, full) = match res {
                SaveResult::Full(d) => (d, true),
                SaveResult::Partial(d, PartialReason::SizeLimit) => (d, false),
                o => return Err(format!("with_path: {:?}", o)),
            };
            out.done(saved, "with_path")?;
            match data {
                SavedData::File(ref q, n) if *q == p && n == saved && data.size() == saved && full == (saved == len) => {}
                _ => return Err(format!("with_path of {} bytes with limit {:?} reports {:?}, full: {}", len, limit, data, full)),
            }
        }
        How::Read(_) | How::Peek => {}
    }
    let from = match c.how {
        How::Write | How::File(_) => saved,
        _ => 0,
    };
    if c.rest || from == 0 {
        let mut out = Check::new(from);
        if let How::Read(k) = c.how {
            obs.class("read");
            let mut b = vec![0u8; (k as usize).max(1) << 10];
            loop {
                match f.data.read(&mut b).map_err(|e| format!("read: {}", e))? {
                    0 => break,
                    n => out.take(&b[..n]),
                }
            }
        } else {
            obs.class("fill_buf");
            loop {
                let n = {
                    let b = f.data.fill_buf().map_err(|e| format!("fill_buf: {}", e))?;
                    out.take(b);
                    b.len()
                };
                if n == 0 {
                    break;
                }
                f.data.consume(n);
            }
        }
        out.done(len, "the rest of the field")?;
    }
    drop(f);
    match mp.read_entry() {
        Ok(Some(mut f)) => {
            let mut v = vec![];
            f.data.read_to_end(&mut v).map_err(|e| format!("the next field: {}", e))?;
            if &*f.headers.name != "next" || v != b"next" {
                return Err(format!("the next field is {:?} with {} bytes", f.headers.name, v.len()));
            }
        }
        Ok(None) => return Err("the next field is missing".into()),
        Err(e) => return Err(format!("the next field: {}", e)),
    }
    match mp.read_entry() {
        Ok(None) => Ok(()),
        _ => Err("no end behind the next field".into()),
    }
}

fn delta() -> BoxedStrategy<i32> {
    prop_oneof![-3i32..4, -40_000i32..40_000, 0i32..20_000_000].boxed()
}

fn vast(limits: bool, hows: BoxedStrategy<How>) -> BoxedStrategy<VastCase> {
    let lim = if limits {
        // the content longer than the limit by whatever is left to be read, or the other way around
        prop_oneof![1 => Just(None), 3 => prop_oneof![-3i32..4, -40_000i32..40_000].prop_map(Some), 2 => Just(Some(i32::MAX))].boxed()
    } else {
        Just(None).boxed()
    };
    (delta(), lim, hows, any::<bool>())
        .prop_map(|(len, limit, how, rest)| VastCase { len, limit: limit.map(|l| if l == i32::MAX { len } else { l }), how, rest })
        .boxed()
}

fn saves() -> BoxedStrategy<How> {
    prop_oneof![Just(How::Write), prop_oneof![Just(0u16), any::<u16>()].prop_map(How::File)].boxed()
}

pub fn m05() -> Facet {
    facet("beyond-4-gib", "contents of 4 GiB -40 000 to +20 MB read or peeked to the end and compared on the fly, then the next field",
          16, 400, || vast(false, prop_oneof![(1u16..200).prop_map(How::Read), Just(How::Peek)].boxed()), eval_vast)
}

pub fn m10() -> Facet {
    facet("beyond-4-gib", "contents of 4 GiB -40 000 to +20 MB saved without a limit through write_to and with_path (to a pipe), contents and reported size compared",
          16, 400, || vast(false, saves()), eval_vast)
}

pub fn m11() -> Facet {
    facet("beyond-4-gib", "contents of 4 GiB -40 000 to +20 MB saved with limits of 4 GiB -40 000 to +40 000 or of exactly the length through write_to and with_path (to a pipe); contents, reported size, outcome and the unread rest",
          16, 400, || vast(true, saves()), eval_vast)
}

// ------------------------------------------------------------------------------------------ M16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SparseCase {
    /// lengths of the files in MiB and bytes added
    pub files: Vec<(u16, u16)>,
    pub text: u16,
}

fn sparse_case() -> BoxedStrategy<SparseCase> {
    (proptest::collection::vec((prop_oneof![Just(4096u16), Just(2048u16), 0u16..20, 1000u16..20_000], any::<u16>()), 1..4), 0u16..300)
        .prop_map(|(files, text)| SparseCase { files, text })
        .boxed()
}

/// What is declared for files of any size, relative to what is declared for empty ones.
fn eval_sparse(c: &SparseCase, obs: &mut Obs) -> Outcome {
    let d = CaseDir::new();
    let mut declared = vec![];
    let mut total = 0u64;
    for fill in [false, true] {
        let mut mp = lazy::Multipart::new();
        mp.add_text("text", "x".repeat(c.text as usize));
        for (i, (mib, b)) in c.files.iter().enumerate() {
            let p = d.path().join(format!("{}.bin", i));
            let f = fs::File::create(&p).map_err(|e| format!("harness: {}", e))?;
            if fill {
                let n = ((*mib as u64) << 20) + *b as u64;
                total += n;
                super::save2::set_fsize(Some(1 << 40));
                let r = f.set_len(n);
                super::save2::set_fsize(None);
                r.map_err(|e| format!("harness: {}", e))?;
            }
            mp.add_file(format!("f{}", i), p);
        }
        let p = mp.prepare().map_err(|e| format!("prepare: {}", e))?;
        declared.push(p.content_len().ok_or("no length declared for files")?);
    }
    obs.nt(total > u32::MAX as u64);
    obs.class_if(total > u32::MAX as u64, "more than 4 GiB in all");
    obs.class_if(c.files.iter().any(|f| f.0 >= 4096), "a file of more than 4 GiB");
    if declared[1] != declared[0] + total {
        return Err(format!("files of {} bytes in all are declared with {}, empty ones with {}", total, declared[1], declared[0]));
    }
    Ok(())
}

pub fn m16() -> Facet {
    facet("sparse-files", "1-3 files of up to 20 GiB (sparse) and a text; the declared length against that for empty files of the same names; non-trivial: more than 4 GiB in all",
          20_000, 200_000, sparse_case, eval_sparse)
}
