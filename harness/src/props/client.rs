//! M01, M02, M16, M17, M18, M25: the client side.

use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use crate::fsx::CaseDir;
use multipart::client::lazy;
use multipart::client::{HttpRequest, HttpStream, Multipart};
use multipart::mock;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fs;
use std::io::{self, ErrorKind, Read, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

use super::errors::KINDS;

// ------------------------------------------------------------------------------------ transport

#[derive(Default)]
pub struct RecState {
    pub boundary: Option<String>,
    pub declared: Option<Option<u64>>,
    pub applies: u32,
    pub opened: u32,
    pub bytes: Vec<u8>,
    pub finished: bool,
    writes: usize,
    intr_no: usize,
}

pub type Rec = Rc<RefCell<RecState>>;

#[derive(Clone, Default)]
pub struct RecCfg {
    pub refuse: bool,
    pub open_err: Option<ErrorKind>,
    pub finish_err: Option<ErrorKind>,
    /// sizes of short writes, cycled; empty = everything
    pub plan: Vec<u16>,
    /// positions at which an interruption is reported once each (sorted)
    pub intr: Vec<usize>,
    /// from this position on every write fails with this kind (None: writes return 0)
    pub fault: Option<(usize, Option<ErrorKind>)>,
    /// lazy requests only: what the same `lazy::Multipart` was used for before
    pub reuse: u8,
}

pub struct RecReq {
    pub st: Rec,
    pub cfg: RecCfg,
}

pub struct RecStream {
    st: Rec,
    cfg: RecCfg,
}

fn inj(k: ErrorKind) -> io::Error {
    io::Error::new(k, "injected")
}

impl HttpRequest for RecReq {
    type Stream = RecStream;
    type Error = io::Error;
    fn apply_headers(&mut self, boundary: &str, content_len: Option<u64>) -> bool {
        let mut s = self.st.borrow_mut();
        s.applies += 1;
        if self.cfg.refuse {
            return false;
        }
        s.boundary = Some(boundary.to_string());
        s.declared = Some(content_len);
        true
    }
    fn open_stream(self) -> Result<RecStream, io::Error> {
        self.st.borrow_mut().opened += 1;
        match self.cfg.open_err {
            Some(k) => Err(inj(k)),
            None => Ok(RecStream { st: self.st, cfg: self.cfg }),
        }
    }
}

impl Write for RecStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.st.borrow_mut();
        let pos = s.bytes.len();
        if buf.is_empty() {
            return Ok(0);
        }
        if s.intr_no < self.cfg.intr.len() && pos >= self.cfg.intr[s.intr_no] {
            s.intr_no += 1;
            return Err(inj(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if let Some((at, k)) = self.cfg.fault {
            if pos >= at {
                return match k {
                    Some(k) => Err(inj(k)),
                    None => Ok(0),
                };
            }
            n = n.min(at - pos);
        }
        if s.intr_no < self.cfg.intr.len() {
            n = n.min(self.cfg.intr[s.intr_no] - pos);
        }
        if !self.cfg.plan.is_empty() {
            n = n.min(self.cfg.plan[s.writes % self.cfg.plan.len()].max(1) as usize);
        }
        s.writes += 1;
        s.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl HttpStream for RecStream {
    type Request = RecReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> Result<(), io::Error> {
        if let Some(k) = self.cfg.finish_err {
            return Err(inj(k));
        }
        self.st.borrow_mut().finished = true;
        Ok(())
    }
}

// ------------------------------------------------------------------------------------ fields

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CF {
    Text { name: String, text: Vec<Seg> },
    Stream { name: String, filename: Option<String>, mime: Option<u8>, content: Vec<Seg>, chunk: Chunk, intr: Vec<u16> },
    /// `raw`: the file name on disk is not valid UTF-8
    File { name: String, fname: String, raw: bool, content: Vec<Seg> },
}

pub const DUMMY: &str = "0123456789abcdef";

impl CF {
    pub fn name(&self) -> &str {
        match self {
            CF::Text { name, .. } | CF::Stream { name, .. } | CF::File { name, .. } => name,
        }
    }
}

pub fn text_of(segs: &[Seg]) -> String {
    String::from_utf8_lossy(&render(segs, DUMMY, 0)).into_owned()
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Exp {
    pub name: String,
    pub filename: Option<String>,
    pub mime: Option<String>,
    pub data: Vec<u8>,
}

fn show_exp(e: &Exp) -> String {
    format!("{{name {:?}, filename {:?}, type {:?}, data {}}}", e.name, e.filename, e.mime, show(&e.data))
}

/// A source whose content may depend on the boundary of the request it is part of.
pub struct Src {
    segs: Vec<Seg>,
    chunk: Chunk,
    faults: Vec<(usize, ErrorKind)>,
    boundary: Option<Rec>,
    inner: Option<ScriptedReader>,
    pub out: Rc<RefCell<Option<Vec<u8>>>>,
    /// number of read calls, bytes pulled, whether it has been dropped / reported its end
    pub stats: Rc<RefCell<SrcStats>>,
}

#[derive(Default, Debug)]
pub struct SrcStats {
    pub reads: u64,
    pub pulled: usize,
    pub eof: bool,
    pub dropped: bool,
    pub max_ask: usize,
}

impl Drop for Src {
    fn drop(&mut self) {
        self.stats.borrow_mut().dropped = true;
    }
}

impl Src {
    pub fn new(segs: &[Seg], chunk: &Chunk, faults: Vec<(usize, ErrorKind)>, boundary: Option<Rec>) -> Src {
        Src { segs: segs.to_vec(), chunk: chunk.clone(), faults, boundary, inner: None,
              out: Rc::new(RefCell::new(None)), stats: Rc::default() }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.inner.is_none() {
            let b = self.boundary.as_ref().and_then(|r| r.borrow().boundary.clone()).unwrap_or_else(|| DUMMY.into());
            let data = render(&self.segs, &b, 0);
            *self.out.borrow_mut() = Some(data.clone());
            let faults = self.faults.iter().map(|(p, k)| (p % (data.len() + 1), *k)).collect();
            self.inner = Some(ScriptedReader::new(Arc::new(data), &self.chunk, &[]).with_faults(faults));
        }
        let r = self.inner.as_mut().unwrap().read(buf);
        let mut st = self.stats.borrow_mut();
        st.reads += 1;
        st.max_ask = st.max_ask.max(buf.len());
        match r {
            Ok(0) if !buf.is_empty() => st.eof = true,
            Ok(n) => st.pulled += n,
            _ => {}
        }
        r
    }
}

/// Names of a file that may be created inside a scratch directory.
pub fn disk_name(s: &str) -> String {
    let mut t: String = s.chars().map(|c| if c == '/' || c == '\0' { '_' } else { c }).collect();
    while t.len() > 200 {
        t.pop();
    }
    if t.is_empty() || t == "." || t == ".." {
        t = "f".into();
    }
    t
}

/// Content types by extension, written down independently of the crate.
fn mime_by_name(fname: &str) -> Option<&'static str> {
    let at = fname.rfind('.')?;
    if at == 0 {
        return Some("application/octet-stream");
    }
    Some(match &fname[at + 1..] {
        "txt" => "text/plain",
        "png" => "image/png",
        "jpg" => "image/jpeg",
        "html" => "text/html",
        "json" => "application/json",
        "gz" => "application/gzip",
        "unknownext" => "application/octet-stream",
        _ => return None,
    })
}

pub struct FileOnDisk {
    pub path: PathBuf,
    pub shown: Option<String>,
}

pub fn make_file(dir: &Path, i: usize, fname: &str, raw: bool, content: &[u8]) -> FileOnDisk {
    crate::fsx::enter(dir);
    let n = disk_name(fname);
    // some are given by their bare name, or relative to the working directory
    let bare = !raw && n.len() % 8 == 5 && fs::symlink_metadata(dir.join(&n)).is_err() && !n.starts_with('f');
    if bare {
        fs::write(dir.join(&n), content).unwrap();
        return FileOnDisk { path: PathBuf::from(&n), shown: Some(n) };
    }
    let d = dir.join(format!("f{}", i));
    fs::create_dir_all(&d).unwrap();
    let path = if raw {
        let mut b = b"\xff".to_vec();
        b.extend_from_slice(n.as_bytes());
        d.join(std::ffi::OsStr::from_bytes(&b))
    } else {
        d.join(&n)
    };
    if !raw && n.len() % 4 == 3 {
        // reached through a symbolic link
        let real = d.join("\u{1}real");
        fs::write(&real, content).unwrap();
        std::os::unix::fs::symlink(&real, &path).unwrap();
    } else {
        fs::write(&path, content).unwrap();
    }
    let path = if n.len() % 8 == 1 { path.strip_prefix(dir).unwrap().to_path_buf() } else { path };
    FileOnDisk { path, shown: if raw { None } else { Some(n) } }
}

fn long_name() -> BoxedStrategy<String> {
    prop_oneof![
        30 => name(),
        1 => (name(), 100usize..2500).prop_map(|(s, n)| {
            let mut t = s;
            while t.len() < n { t.push_str("long name; "); }
            t
        }),
    ]
    .boxed()
}

fn cname() -> BoxedStrategy<String> {
    long_name()
}

fn cfilename() -> BoxedStrategy<Option<String>> {
    prop_oneof![10 => filename(), 1 => long_name().prop_map(Some)].boxed()
}

fn file_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z0-9_ ;=]{1,8}\\.(txt|png|jpg|html|json|tar\\.gz|unknownext)",
        1 => "[a-z]{1,8}",
        1 => "\\.[a-z]{1,5}",
        2 => name().prop_map(|s| disk_name(&s)),
    ]
    .boxed()
}

fn src_chunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        3 => Just(Chunk::Full),
        2 => prop_oneof![Just(1u16), 1u16..20, 1u16..9000].prop_map(Chunk::Fixed),
        2 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..100, 900u16..1100, 1u16..9000], 1..5).prop_map(Chunk::Cycle),
    ]
    .boxed()
}

fn ccontent() -> BoxedStrategy<Vec<Seg>> {
    prop_oneof![6 => small_content(), 3 => content()].boxed()
}

pub fn cf() -> BoxedStrategy<CF> {
    prop_oneof![
        4 => (cname(), prop_oneof![8 => small_content(), 1 => content()]).prop_map(|(name, text)| CF::Text { name, text }),
        4 => (cname(), cfilename(), mime_idx(), ccontent(), src_chunk(), prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(any::<u16>(), 1..4)])
            .prop_map(|(name, filename, mime, content, chunk, intr)| CF::Stream { name, filename, mime, content, chunk, intr }),
        2 => (cname(), file_name(), prop_oneof![12 => Just(false), 1 => Just(true)], ccontent())
            .prop_map(|(name, fname, raw, content)| CF::File { name, fname, raw, content }),
    ]
    .boxed()
}

/// Several fields, some of which may repeat the name of another one, or all of it.
pub fn related(fields: impl Strategy<Value = Vec<CF>> + 'static) -> BoxedStrategy<Vec<CF>> {
    (fields, prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec((any::<u8>(), any::<u8>(), any::<bool>()), 1..4)])
        .prop_map(|(mut v, plan)| {
            for (from, to, all) in plan {
                if v.is_empty() {
                    break;
                }
                let src = v[from as usize % v.len()].clone();
                let to = to as usize % (v.len() + 1);
                if all {
                    v.insert(to, src);
                } else if let Some(CF::Text { name, .. } | CF::Stream { name, .. } | CF::File { name, .. }) = v.get_mut(to) {
                    *name = src.name().to_string();
                }
            }
            v
        })
        .boxed()
}

fn wplan() -> BoxedStrategy<Vec<u16>> {
    prop_oneof![
        3 => Just(vec![]),
        3 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..40, 1u16..9000], 1..5),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------ running

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Plain,
    Sized,
    Lazy,
    /// lazy, exported with `prepare()`
    Prepared,
    MockPlain,
    MockSized,
}

enum ExpData {
    Now(Vec<u8>),
    Later(Rc<RefCell<Option<Vec<u8>>>>),
}

pub struct RunOut {
    pub st: Rec,
    /// what should have been received, in the order written
    pub exp: Vec<Exp>,
    pub err: Option<String>,
    pub declared: Option<u64>,
    pub boundary: String,
    pub bytes: Vec<u8>,
    pub has_stream: bool,
}

fn guess(content_type: Option<u8>) -> Option<mime::Mime> {
    content_type.map(|m| MIMES[m as usize % MIMES.len()].parse().unwrap())
}

fn src_of(content: &[Seg], chunk: &Chunk, intr: &[u16], rec: Option<Rec>) -> Src {
    Src::new(content, chunk, intr.iter().map(|p| (*p as usize, ErrorKind::Interrupted)).collect(), rec)
}

trait ClientOps {
    fn text(&mut self, n: &str, t: &str) -> io::Result<()>;
    fn file(&mut self, n: &str, p: &Path) -> io::Result<()>;
    fn stream(&mut self, n: &str, s: &mut Src, f: Option<&str>, m: Option<mime::Mime>) -> io::Result<()>;
}

impl<S: HttpStream<Error = io::Error>> ClientOps for Multipart<S> {
    fn text(&mut self, n: &str, t: &str) -> io::Result<()> {
        self.write_text(n, t).map(|_| ())
    }
    fn file(&mut self, n: &str, p: &Path) -> io::Result<()> {
        self.write_file(n, p).map(|_| ())
    }
    fn stream(&mut self, n: &str, s: &mut Src, f: Option<&str>, m: Option<mime::Mime>) -> io::Result<()> {
        self.write_stream(n, s, f, m).map(|_| ())
    }
}

/// Run a request without hard faults and collect what was sent.
pub fn run(mode: Mode, fields: &[CF], cfg: &RecCfg, reads: &[u16]) -> RunOut {
    let dir = if fields.iter().any(|f| matches!(f, CF::File { .. })) { Some(CaseDir::new()) } else { None };
    let st: Rec = Rc::default();
    let req = RecReq { st: st.clone(), cfg: cfg.clone() };
    let mut exp: Vec<(String, Option<String>, Option<String>, ExpData)> = vec![];
    let mut files: HashMap<usize, FileOnDisk> = HashMap::new();
    for (i, f) in fields.iter().enumerate() {
        if let CF::File { fname, raw, content, .. } = f {
            files.insert(i, make_file(dir.as_ref().unwrap().path(), i, fname, *raw, &render(content, DUMMY, 0)));
        }
    }
    let has_stream = fields.iter().any(|f| matches!(f, CF::Stream { .. }));
    let file_exp = |f: &FileOnDisk, name: &str, content: &[Seg]| {
        // "*": any type, but there has to be one
        let m = f.shown.as_ref().and_then(|n| mime_by_name(n)).unwrap_or("*").to_string();
        (name.to_string(), f.shown.clone(), Some(m), ExpData::Now(render(content, DUMMY, 0)))
    };
    let mut err = None;
    let mut sent: Option<(String, Vec<u8>, Option<u64>)> = None;

    macro_rules! go_streaming {
        ($mp:expr, $rec:expr) => {{
            let mut mp = $mp;
            for (i, f) in fields.iter().enumerate() {
                let r = match f {
                    CF::Text { name, text } => {
                        let t = text_of(text);
                        exp.push((name.clone(), None, None, ExpData::Now(t.clone().into_bytes())));
                        mp.text(name, &t)
                    }
                    CF::Stream { name, filename, mime, content, chunk, intr } => {
                        let mut s = src_of(content, chunk, intr, $rec);
                        exp.push((name.clone(), filename.clone(),
                                  Some(guess(*mime).map(|m| m.to_string()).unwrap_or_else(|| "application/octet-stream".into())),
                                  ExpData::Later(s.out.clone())));
                        mp.stream(name, &mut s, filename.as_ref().map(|s| &**s), guess(*mime))
                    }
                    CF::File { name, content, .. } => {
                        exp.push(file_exp(&files[&i], name, content));
                        mp.file(name, &files[&i].path)
                    }
                };
                if let Err(e) = r {
                    err = Some(format!("writing field {}: {}", i, e));
                    break;
                }
            }
            mp
        }};
    }

    match mode {
        Mode::Plain => match Multipart::from_request(req) {
            Ok(mp) => {
                let mp = go_streaming!(mp, Some(st.clone()));
                if let (None, Err(e)) = (&err, mp.send()) {
                    err = Some(format!("send: {}", e));
                }
            }
            Err(e) => err = Some(format!("from_request: {}", e)),
        },
        Mode::Sized => match Multipart::from_request_sized(req) {
            Ok(mp) => {
                let mp = go_streaming!(mp, None);
                if let (None, Err(e)) = (&err, mp.send()) {
                    err = Some(format!("send: {}", e));
                }
            }
            Err(e) => err = Some(format!("from_request_sized: {}", e)),
        },
        Mode::MockPlain => {
            let mp = go_streaming!(Multipart::from_request(mock::ClientRequest::default()).unwrap(), None);
            match mp.send() {
                Ok(b) => sent = Some((b.boundary.clone(), b.buf.clone(), b.content_len)),
                Err(e) => err = Some(format!("send: {}", e)),
            }
        }
        Mode::MockSized => {
            let mp = go_streaming!(Multipart::from_request_sized(mock::ClientRequest::default()).unwrap(), None);
            match mp.send() {
                Ok(b) => sent = Some((b.boundary.clone(), b.buf.clone(), b.content_len)),
                Err(e) => err = Some(format!("send: {}", e)),
            }
        }
        Mode::Lazy | Mode::Prepared => {
            let mut mp = lazy::Multipart::new();
            if cfg.reuse > 0 {
                earlier_request(&mut mp, cfg.reuse);
            }
            for (i, f) in fields.iter().enumerate() {
                match f {
                    CF::Text { name, text } => {
                        let t = text_of(text);
                        exp.push((name.clone(), None, None, ExpData::Now(t.clone().into_bytes())));
                        mp.add_text(name.clone(), t);
                    }
                    CF::Stream { name, filename, mime, content, chunk, intr } => {
                        let s = src_of(content, chunk, intr, Some(st.clone()));
                        exp.push((name.clone(), filename.clone(),
                                  Some(guess(*mime).map(|m| m.to_string()).unwrap_or_else(|| "application/octet-stream".into())),
                                  ExpData::Later(s.out.clone())));
                        mp.add_stream(name.clone(), s, filename.clone(), guess(*mime));
                    }
                    CF::File { name, content, .. } => {
                        exp.push(file_exp(&files[&i], name, content));
                        let path = &files[&i].path;
                        match (i % 3, path.to_str()) {
                            (1, Some(p)) => mp.add_file(name.clone(), p.to_string()),
                            (2, _) => mp.add_file(name.clone(), std::borrow::Cow::Owned(path.clone())),
                            _ => mp.add_file(name.clone(), path.clone()),
                        };
                    }
                }
            }
            if mode == Mode::Lazy {
                if let Err(e) = mp.send(req) {
                    err = Some(format!("send: {}", e));
                }
            } else {
                match mp.prepare() {
                    Ok(mut p) => {
                        st.borrow_mut().boundary = Some(p.boundary().to_string());
                        let (bytes, e) = drain_reads(&mut p, reads);
                        if let Some(e) = e {
                            err = Some(format!("reading the prepared body: {}", e));
                        }
                        sent = Some((p.boundary().to_string(), bytes, p.content_len()));
                    }
                    Err(e) => err = Some(format!("prepare: {}", e)),
                }
            }
        }
    }
    let exp = exp
        .into_iter()
        .map(|(name, filename, mime, d)| Exp {
            name, filename, mime,
            data: match d {
                ExpData::Now(v) => v,
                ExpData::Later(c) => c.borrow().clone().unwrap_or_default(),
            },
        })
        .collect();
    let (boundary, bytes, declared) = match sent {
        Some(x) => x,
        None => {
            let s = st.borrow();
            (s.boundary.clone().unwrap_or_default(), s.bytes.clone(), s.declared.unwrap_or(None))
        }
    };
    RunOut { st, exp, err, declared, boundary, bytes, has_stream }
}

/// Use a lazy request (it is reusable) for another one before.
fn earlier_request(mp: &mut lazy::Multipart, reuse: u8) {
    mp.add_text("earlier", "text of an earlier request");
    mp.add_stream("earlier-stream", &b"stream of an earlier request"[..], Some("earlier.txt"), None);
    match reuse {
        1 => {
            let st: Rec = Rc::default();
            mp.send(RecReq { st, cfg: RecCfg::default() }).expect("sending an earlier request");
        }
        2 => {
            let _ = mp.prepare().expect("preparing an earlier request");
        }
        _ => {
            let mut p = mp.prepare().expect("preparing an earlier request");
            let mut b = [0; 50];
            let _ = p.read(&mut b);
        }
    }
}

/// Read to the end with the given (cycled) buffer sizes; empty: read_to_end. Retries interruptions.
pub fn drain_reads<R: Read>(r: &mut R, sizes: &[u16]) -> (Vec<u8>, Option<io::Error>) {
    let mut out = vec![];
    if sizes.is_empty() {
        let e = r.read_to_end(&mut out).err();
        return (out, e);
    }
    let mut i = 0;
    let mut spins = 0;
    loop {
        let n = sizes[i % sizes.len()].max(1) as usize;
        i += 1;
        let mut b = vec![0; n];
        match r.read(&mut b) {
            Ok(0) => return (out, None),
            Ok(k) => out.extend_from_slice(&b[..k]),
            Err(ref e) if e.kind() == ErrorKind::Interrupted => {
                spins += 1;
                if spins > 10_000 {
                    panic!("no progress: interrupted forever");
                }
            }
            Err(e) => return (out, Some(e)),
        }
    }
}

// ------------------------------------------------------------------------------------ reference parser

pub struct RefPart {
    pub headers: Vec<(String, String)>,
    pub content: Vec<u8>,
}

/// A strict, independent reader of multipart bodies: at most a line break before the first
/// delimiter, nothing but a line break after the closing one.
pub fn refparse(body: &[u8], boundary: &str) -> Result<Vec<RefPart>, String> {
    if boundary.is_empty() {
        return Err("empty boundary".into());
    }
    let dd = format!("--{}", boundary).into_bytes();
    let delim = format!("\r\n--{}", boundary).into_bytes();
    let mut at = if body.starts_with(&dd) {
        dd.len()
    } else if body.starts_with(&delim) {
        delim.len()
    } else {
        return Err(format!("the body does not start with the delimiter of boundary {:?}: {}", boundary, show(body)));
    };
    let mut parts = vec![];
    loop {
        let rest = &body[at..];
        if rest.starts_with(b"--") {
            let tail = &rest[2..];
            if !tail.is_empty() && tail != b"\r\n" {
                return Err(format!("bytes after the closing delimiter: {}", show(tail)));
            }
            return Ok(parts);
        }
        if !rest.starts_with(b"\r\n") {
            return Err(format!("delimiter not followed by a line break or `--`: {}", show(rest)));
        }
        let rest = &rest[2..];
        let hend = find(rest, b"\r\n\r\n").ok_or("part without a header block")?;
        let mut headers = vec![];
        let block = String::from_utf8(rest[..hend].to_vec()).map_err(|_| "header block is not UTF-8")?;
        for line in block.split("\r\n") {
            let c = line.find(':').ok_or_else(|| format!("header line without colon: {:?}", line))?;
            headers.push((line[..c].to_ascii_lowercase(), line[c + 1..].trim().to_string()));
        }
        let crest = &rest[hend + 4..];
        let cend = find(crest, &delim).ok_or("part without a closing delimiter")?;
        parts.push(RefPart { headers, content: crest[..cend].to_vec() });
        at = body.len() - crest.len() + cend + delim.len();
    }
}

/// Parameters of a header value: `v; a=b; c="d"`. Quoted values run to the next double quote.
pub fn ref_params(v: &str) -> Result<(String, Vec<(String, String)>), String> {
    let b: Vec<char> = v.chars().collect();
    let mut i = 0;
    let mut head = String::new();
    while i < b.len() && b[i] != ';' {
        head.push(b[i]);
        i += 1;
    }
    let mut ps = vec![];
    while i < b.len() {
        i += 1; // ';'
        while i < b.len() && (b[i] == ' ' || b[i] == '\t') {
            i += 1;
        }
        let mut k = String::new();
        while i < b.len() && b[i] != '=' && b[i] != ';' {
            k.push(b[i]);
            i += 1;
        }
        if i >= b.len() || b[i] != '=' {
            return Err(format!("parameter without a value in {:?}", v));
        }
        i += 1;
        let mut val = String::new();
        if i < b.len() && b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                val.push(b[i]);
                i += 1;
            }
            if i >= b.len() {
                return Err(format!("unterminated quoted value in {:?}", v));
            }
            i += 1;
            while i < b.len() && b[i] != ';' {
                if b[i] != ' ' && b[i] != '\t' {
                    return Err(format!("junk after a quoted value in {:?}", v));
                }
                i += 1;
            }
        } else {
            while i < b.len() && b[i] != ';' {
                val.push(b[i]);
                i += 1;
            }
            val = val.trim().to_string();
        }
        ps.push((k.trim().to_ascii_lowercase(), val));
    }
    Ok((head.trim().to_ascii_lowercase(), ps))
}

/// What the reference parser sees.
pub fn ref_fields(body: &[u8], boundary: &str) -> Result<Vec<Exp>, String> {
    refparse(body, boundary)?
        .into_iter()
        .map(|p| {
            let get = |n: &str| -> Result<Option<String>, String> {
                let v: Vec<_> = p.headers.iter().filter(|h| h.0 == n).collect();
                if v.len() > 1 {
                    return Err(format!("{} headers named {}", v.len(), n));
                }
                Ok(v.first().map(|h| h.1.clone()))
            };
            let disp = get("content-disposition")?.ok_or("part without Content-Disposition")?;
            let (head, ps) = ref_params(&disp)?;
            if head != "form-data" {
                return Err(format!("disposition {:?}", disp));
            }
            let param = |n: &str| -> Result<Option<String>, String> {
                let v: Vec<_> = ps.iter().filter(|h| h.0 == n).collect();
                if v.len() > 1 {
                    return Err(format!("{} parameters named {} in {:?}", v.len(), n, disp));
                }
                Ok(v.first().map(|h| h.1.clone()))
            };
            Ok(Exp {
                name: param("name")?.ok_or("part without a name")?,
                filename: param("filename")?,
                mime: get("content-type")?,
                data: p.content.clone(),
            })
        })
        .collect()
}

/// Compare what was received to what was sent; the expected type "*" means any type.
pub fn same_fields(got: &[Exp], want: &[Exp], what: &str) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(g), Some(w)) => {
                let any_type = w.mime.as_ref().map_or(false, |m| m == "*");
                if g.name != w.name || g.filename != w.filename || (!any_type && g.mime != w.mime) {
                    return Err(format!("{}: field {}: got {} want {}", what, i, show_exp(g), show_exp(w)));
                }
                if any_type && g.mime.is_none() {
                    return Err(format!("{}: field {}: a file without a content type", what, i));
                }
                if g.data != w.data {
                    return Err(format!("{}: contents of field {} ({:?}): {}", what, i, w.name, diff(&g.data, &w.data)));
                }
            }
            (g, w) => {
                return Err(format!("{}: field {}: got {} want {}", what, i, g.map(show_exp).unwrap_or_else(|| "nothing".into()),
                                   w.map(show_exp).unwrap_or_else(|| "nothing".into())))
            }
        }
    }
    Ok(())
}

fn key(e: &Exp) -> (String, Option<String>, Vec<u8>, Option<String>) {
    (e.name.clone(), e.filename.clone(), e.data.clone(), e.mime.clone())
}

pub fn sorted(v: &[Exp]) -> Vec<Exp> {
    let mut v = v.to_vec();
    v.sort_by_key(key);
    v
}

/// What was received, in the order of what was expected as far as it is the same.
pub fn arranged(got: &[Exp], want: &[Exp]) -> Vec<Exp> {
    let mut rest = sorted(got);
    let mut out: Vec<Option<Exp>> = vec![None; want.len()];
    // fields of any type come last, as they would also match those of a certain type
    for any in [false, true] {
        for (o, w) in out.iter_mut().zip(want) {
            if (w.mime.as_deref() == Some("*")) == any {
                let at = rest.iter().position(|g| g.name == w.name && g.filename == w.filename && g.data == w.data && (any && g.mime.is_some() || g.mime == w.mime));
                *o = at.map(|i| rest.remove(i));
            }
        }
    }
    let mut rest = rest.into_iter();
    let mut v: Vec<Exp> = out.into_iter().filter_map(|o| o.or_else(|| rest.next())).collect();
    v.extend(rest);
    v
}

/// Fields the server parser sees, or an error.
pub fn server_fields(bytes: &[u8], boundary: &str, chunk: &Chunk, hows: &[How]) -> Result<Vec<Exp>, String> {
    let marks: Vec<usize> = find_all(bytes, format!("--{}", boundary).as_bytes()).into_iter().flat_map(|m| vec![m, m + boundary.len() + 2]).collect();
    let mut mp = parser(&Arc::new(bytes.to_vec()), chunk, &marks, boundary);
    let t = trace(&mut mp, hows, 1, 1000);
    to_exp(t)
}

pub fn to_exp(t: Vec<Ev>) -> Result<Vec<Exp>, String> {
    let mut v = vec![];
    for e in &t {
        match e {
            Ev::Field(g) => {
                if g.data_err.is_some() {
                    return Err(format!("the server failed on the data of a field: {}", show_ev(e)));
                }
                v.push(Exp { name: g.name.clone(), filename: g.filename.clone(), mime: g.mime.clone(), data: g.data.clone() });
            }
            Ev::End => return Ok(v),
            Ev::Err(k) => return Err(format!("the server failed with {:?} after {} fields", k, v.len())),
        }
    }
    Err("no end".into())
}

// ------------------------------------------------------------------------------------ M01 / M02 / M16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TripCase {
    pub mode: u8,
    pub fields: Vec<CF>,
    pub plan: Vec<u16>,
    pub intr: Vec<u16>,
    pub reads: Vec<u16>,
    pub chunk: Chunk,
    pub hows: Vec<How>,
}

fn cfg_of(plan: &[u16], intr: &[u16]) -> RecCfg {
    let mut i: Vec<usize> = intr.iter().map(|x| *x as usize).collect();
    i.sort();
    RecCfg { plan: plan.to_vec(), intr: i, ..RecCfg::default() }
}

fn trip(fields: BoxedStrategy<Vec<CF>>) -> BoxedStrategy<TripCase> {
    (
        any::<u8>(), fields, wplan(),
        prop_oneof![3 => Just(vec![]), 1 => proptest::collection::vec(0u16..3000, 1..4)],
        prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..100, 1u16..9000], 1..4)],
        chunk(), proptest::collection::vec(how(), 0..3),
    )
        .prop_map(|(mode, fields, plan, intr, reads, chunk, hows)| TripCase { mode, fields, plan, intr, reads, chunk, hows })
        .boxed()
}

fn trip_fields() -> BoxedStrategy<TripCase> {
    trip(prop_oneof![
        1 => Just(vec![]),
        12 => related(proptest::collection::vec(cf(), 1..6)),
        1 => proptest::collection::vec(cf(), 6..14),
    ].boxed())
}

fn observe_fields(c: &TripCase, out: &RunOut, obs: &mut Obs) {
    obs.class_if(c.fields.is_empty(), "no fields");
    obs.class_if(c.fields.iter().any(|f| matches!(f, CF::File { .. })), "with a file");
    obs.class_if(out.has_stream, "with a stream");
    obs.class_if(c.fields.iter().any(|f| matches!(f, CF::Text { .. })), "with text");
    obs.class_if(c.fields.iter().any(|f| f.name().len() > 90), "long name");
    let names: std::collections::BTreeSet<&str> = c.fields.iter().map(|f| f.name()).collect();
    obs.class_if(names.len() < c.fields.len(), "repeated name");
    obs.class_if(!c.plan.is_empty(), "short writes");
    obs.class_if(!c.intr.is_empty(), "interrupted writes");
    obs.class_if(out.exp.iter().any(|e| tricky(&e.data, &out.boundary)), "delimiter look-alike content");
    obs.class_if(out.exp.iter().any(|e| e.filename.as_ref().map_or(false, |f| f.contains(';')) || e.name.contains(';')), "semicolon in a name");
    obs.nt(out.exp.iter().any(|e| tricky(&e.data, &out.boundary)) || out.exp.len() > 1 || out.bytes.len() > 1024 || c.fields.is_empty());
}

fn eval_m01(c: &TripCase, obs: &mut Obs) -> Outcome {
    let (mode, label) = match c.mode % 8 {
        0..=2 => (Mode::Plain, "plain"),
        3..=5 => (Mode::Sized, "sized"),
        6 => (Mode::MockPlain, "mock plain"),
        _ => (Mode::MockSized, "mock sized"),
    };
    obs.class(label);
    let out = run(mode, &c.fields, &cfg_of(&c.plan, &c.intr), &[]);
    if let Some(e) = &out.err {
        return Err(format!("the client failed without a fault: {}", e));
    }
    observe_fields(c, &out, obs);
    same_fields(&ref_fields(&out.bytes, &out.boundary)?, &out.exp, "reference parser")?;
    same_fields(&server_fields(&out.bytes, &out.boundary, &c.chunk, &c.hows)?, &out.exp, "server")?;
    if matches!(mode, Mode::Plain | Mode::Sized) && !out.st.borrow().finished {
        return Err("the request was not finished".into());
    }
    Ok(())
}

/// Put a lot of data into one or two fields.
pub fn enlarge_fields(fields: &mut Vec<CF>, plan: Vec<(u8, bool, Seg)>) {
    for f in fields.iter_mut() {
        if let CF::Stream { chunk, .. } = f {
            *chunk = chunk.clone().coarse();
        }
    }
    let mut v: Vec<&mut Vec<Seg>> = fields.iter_mut().map(|f| match f {
        CF::Text { text, .. } => text,
        CF::Stream { content, .. } | CF::File { content, .. } => content,
    }).collect();
    enlarge(&mut v, plan);
}

fn large(base: BoxedStrategy<TripCase>) -> BoxedStrategy<TripCase> {
    (base, huge_plan())
        .prop_map(|(mut c, h)| {
            enlarge_fields(&mut c.fields, h);
            coarse_sizes(&mut c.plan);
            coarse_sizes(&mut c.reads);
            TripCase { chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect(), ..c }
        })
        .boxed()
}

fn large_fields() -> BoxedStrategy<TripCase> {
    large(trip(proptest::collection::vec(cf(), 1..4).boxed()))
}

/// Dozens to hundreds of fields.
fn crowd(base: BoxedStrategy<TripCase>) -> BoxedStrategy<TripCase> {
    (base, prop_oneof![3 => 15usize..80, 2 => 80usize..300, 1 => prop_oneof![254usize..260, 510usize..515, 700usize..900]], 0u8..4)
        .prop_map(|(mut c, n, same)| {
            let base = std::mem::take(&mut c.fields);
            for i in 0..n {
                let mut f = base.get(i % base.len().max(1)).cloned().unwrap_or(CF::Text { name: "f".into(), text: vec![] });
                if i >= base.len() {
                    // one file each is enough
                    if let CF::File { name, content, .. } = f {
                        f = if i % 2 == 0 { CF::Text { name, text: content } } else { CF::Stream { name, filename: None, mime: None, content, chunk: Chunk::Full, intr: vec![] } };
                    }
                    if let CF::Text { name, .. } | CF::Stream { name, .. } | CF::File { name, .. } = &mut f {
                        name.truncate(name.char_indices().nth(40).map_or(name.len(), |x| x.0));
                        if same > 0 {
                            name.push_str(&i.to_string());
                        }
                    }
                }
                c.fields.push(f);
            }
            coarse_sizes(&mut c.plan);
            coarse_sizes(&mut c.reads);
            TripCase { chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect(), ..c }
        })
        .boxed()
}

fn crowd_fields() -> BoxedStrategy<TripCase> {
    let f = prop_oneof![
        6 => cf(),
        3 => (cname(), small_content()).prop_map(|(name, text)| CF::Text { name, text }),
    ];
    crowd(trip(proptest::collection::vec(f, 1..6).boxed()))
}

const CROWD: &str = "every case: 15-900 fields";

const LARGE: &str = "every case: fields of 30-400 kB";

pub fn m01() -> Vec<Facet> {
    vec![facet("large", LARGE, 2_500, 40_000, large_fields, eval_m01), facet("crowd", CROWD, 1_500, 25_000, crowd_fields, eval_m01), facet("roundtrip",
        "several fields, content resembling a delimiter (prefixes of the real boundary included for the plain client), a body over 1 KiB, or no fields",
        240_000, 5_000_000, trip_fields, eval_m01)]
}

fn eval_m02(c: &TripCase, obs: &mut Obs) -> Outcome {
    let (mode, label) = if c.mode % 2 == 0 { (Mode::Lazy, "send") } else { (Mode::Prepared, "prepare") };
    obs.class(label);
    let mut cfg = cfg_of(&c.plan, &c.intr);
    cfg.reuse = match mode {
        Mode::Lazy | Mode::Prepared => c.mode / 16 % 8,
        _ => 0,
    };
    if cfg.reuse > 3 {
        cfg.reuse = 0;
    }
    obs.class_if(cfg.reuse > 0, "reused lazy request");
    let out = run(mode, &c.fields, &cfg, &c.reads);
    if let Some(e) = &out.err {
        return Err(format!("the client failed without a fault: {}", e));
    }
    observe_fields(c, &out, obs);
    let want = sorted(&out.exp);
    same_fields(&arranged(&ref_fields(&out.bytes, &out.boundary)?, &want), &want, "reference parser")?;
    same_fields(&arranged(&server_fields(&out.bytes, &out.boundary, &c.chunk, &c.hows)?, &want), &want, "server")?;
    if mode == Mode::Lazy && !out.st.borrow().finished {
        return Err("the request was not finished".into());
    }
    Ok(())
}

pub fn m02() -> Vec<Facet> {
    vec![facet("large", LARGE, 2_500, 40_000, large_fields, eval_m02), facet("crowd", CROWD, 1_500, 25_000, crowd_fields, eval_m02), facet("roundtrip",
        "several fields, content resembling a delimiter (prefixes of the real boundary included), a body over 1 KiB, or no fields",
        220_000, 5_000_000, trip_fields, eval_m02)]
}

fn no_streams() -> BoxedStrategy<TripCase> {
    let f = prop_oneof![
        3 => (cname(), small_content()).prop_map(|(name, text)| CF::Text { name, text }),
        3 => (cname(), file_name(), prop_oneof![12 => Just(false), 1 => Just(true)], ccontent())
            .prop_map(|(name, fname, raw, content)| CF::File { name, fname, raw, content }),
    ];
    trip(related(proptest::collection::vec(f, 0..6)))
}

fn eval_m16(c: &TripCase, obs: &mut Obs) -> Outcome {
    let (mode, label) = match c.mode % 5 {
        0 => (Mode::Plain, "plain"),
        1 => (Mode::Sized, "sized"),
        2 => (Mode::Lazy, "lazy send"),
        3 => (Mode::Prepared, "prepared"),
        _ => (Mode::MockSized, "mock sized"),
    };
    obs.class(label);
    let mut cfg = cfg_of(&c.plan, &c.intr);
    cfg.reuse = match mode {
        Mode::Lazy | Mode::Prepared => c.mode / 16 % 8,
        _ => 0,
    };
    if cfg.reuse > 3 {
        cfg.reuse = 0;
    }
    obs.class_if(cfg.reuse > 0, "reused lazy request");
    let out = run(mode, &c.fields, &cfg, &c.reads);
    if let Some(e) = &out.err {
        return Err(format!("the client failed without a fault: {}", e));
    }
    observe_fields(c, &out, obs);
    let must = match mode {
        Mode::Sized | Mode::MockSized => Some(true),
        Mode::Lazy | Mode::Prepared => Some(!out.has_stream),
        _ => None,
    };
    match (must, out.declared) {
        (Some(true), None) => return Err("no content length was declared".into()),
        (Some(false), Some(n)) => return Err(format!("a request with a generic stream declares a length of {}", n)),
        _ => {}
    }
    if let Some(n) = out.declared {
        obs.class("declared");
        if n != out.bytes.len() as u64 {
            return Err(format!("declared a length of {} but the body has {} bytes", n, out.bytes.len()));
        }
    }
    Ok(())
}

pub fn m16() -> Vec<Facet> {
    vec![
        facet("large", LARGE, 2_500, 40_000, large_fields, eval_m16),
        facet("crowd", CROWD, 1_500, 25_000, || prop_oneof![crowd_fields(), crowd(no_streams())].boxed(), eval_m16),
        facet("large-without-streams", LARGE, 2_500, 40_000, || large(no_streams()), eval_m16),
        facet("lengths", "several fields, content resembling a delimiter, a body over 1 KiB, or no fields", 180_000, 4_000_000, trip_fields, eval_m16),
        facet("lengths-without-streams", "several fields, content resembling a delimiter, a body over 1 KiB, or no fields", 160_000, 4_000_000, no_streams, eval_m16),
    ]
}

// ------------------------------------------------------------------------------------ M17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DrainCase {
    fields: Vec<CF>,
    /// hard faults: (stream index, position, kind); interruptions come from the fields
    faults: Vec<(u8, u16, u8)>,
    reads: Vec<u16>,
}

fn drain_case() -> BoxedStrategy<DrainCase> {
    (
        related(proptest::collection::vec(prop_oneof![5 => cf(), 4 => (cname(), ccontent(), src_chunk(), proptest::collection::vec(any::<u16>(), 0..4))
            .prop_map(|(name, content, chunk, intr)| CF::Stream { name, filename: None, mime: None, content, chunk, intr })], 0..6)),
        prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec((any::<u8>(), any::<u16>(), any::<u8>()), 1..4)],
        proptest::collection::vec(prop_oneof![4 => 1u16..4, 4 => 1u16..100, 3 => 1u16..3000, 2 => Just(8192u16), 1 => Just(0u16)], 1..6),
    )
        .prop_map(|(fields, faults, reads)| DrainCase { fields, faults, reads })
        .boxed()
}

fn normalise(b: &[u8], boundary: &str) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = boundary.as_bytes();
    let mut i = 0;
    while i + n.len() <= v.len() {
        if &v[i..i + n.len()] == n {
            for x in &mut v[i..i + n.len()] {
                *x = b'B';
            }
            i += n.len();
        } else {
            i += 1;
        }
    }
    v
}

fn rebound(b: &[u8], from: &str, to: &str) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(from.as_bytes()) {
            v.extend_from_slice(to.as_bytes());
            i += from.len();
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

fn lazy_of(fields: &[CF], files: &HashMap<usize, FileOnDisk>, tame: bool, faults: &[(u8, u16, u8)]) -> (lazy::Multipart<'static, 'static>, Vec<Rc<RefCell<SrcStats>>>) {
    let mut mp = lazy::Multipart::new();
    let nstreams = fields.iter().filter(|f| matches!(f, CF::Stream { .. })).count();
    let mut si = 0;
    let mut stats = vec![];
    for (i, f) in fields.iter().enumerate() {
        match f {
            CF::Text { name, text } => {
                mp.add_text(name.clone(), text_of(text));
            }
            CF::Stream { name, filename, mime, content, chunk, intr } => {
                let mut fl: Vec<(usize, ErrorKind)> = intr.iter().map(|p| (*p as usize, ErrorKind::Interrupted)).collect();
                for (s, p, k) in faults {
                    if *s as usize % nstreams == si {
                        fl.push((*p as usize, KINDS[*k as usize % KINDS.len()]));
                    }
                }
                si += 1;
                let s = if tame { Src::new(content, &Chunk::Full, vec![], None) } else { Src::new(content, chunk, fl, None) };
                stats.push(s.stats.clone());
                mp.add_stream(name.clone(), s, filename.clone(), guess(*mime));
            }
            CF::File { name, .. } => {
                mp.add_file(name.clone(), files[&i].path.clone());
            }
        }
    }
    (mp, stats)
}

fn make_files(fields: &[CF]) -> (Option<CaseDir>, HashMap<usize, FileOnDisk>) {
    let dir = if fields.iter().any(|f| matches!(f, CF::File { .. })) { Some(CaseDir::new()) } else { None };
    let mut files = HashMap::new();
    for (i, f) in fields.iter().enumerate() {
        if let CF::File { fname, raw, content, .. } = f {
            files.insert(i, make_file(dir.as_ref().unwrap().path(), i, fname, *raw, &render(content, DUMMY, 0)));
        }
    }
    (dir, files)
}

fn eval_drain(c: &DrainCase, obs: &mut Obs) -> Outcome {
    let (_dir, files) = make_files(&c.fields);
    let (mut a, _) = lazy_of(&c.fields, &files, true, &[]);
    let mut pa = a.prepare().map_err(|e| format!("prepare failed: {}", e))?;
    let ba = pa.boundary().to_string();
    let mut reference = vec![];
    pa.read_to_end(&mut reference).map_err(|e| format!("reading the reference failed: {}", e))?;
    let reference = normalise(&reference, &ba);

    let nstreams = c.fields.iter().filter(|f| matches!(f, CF::Stream { .. })).count();
    let faults: &[(u8, u16, u8)] = if nstreams == 0 { &[] } else { &c.faults };
    let (mut b, _) = lazy_of(&c.fields, &files, false, faults);
    let mut pb = b.prepare().map_err(|e| format!("prepare failed: {}", e))?;
    let bb = pb.boundary().to_string();
    let mut want_errs: Vec<String> = faults.iter().map(|f| format!("{:?}", KINDS[f.2 as usize % KINDS.len()])).collect();
    want_errs.sort();
    let mut errs: Vec<String> = vec![];
    let mut out = vec![];
    let mut i = 0;
    let mut steps = 0u64;
    loop {
        steps += 1;
        if steps > 2_000_000 {
            panic!("no progress reading the prepared body");
        }
        let n = if c.reads.iter().all(|x| *x == 0) { 7 } else { c.reads[i % c.reads.len()] as usize };
        i += 1;
        let mut buf = vec![0xaau8; n];
        match pb.read(&mut buf) {
            Ok(0) if n == 0 => continue,
            Ok(0) => break,
            Ok(k) if k > n => return Err(format!("read returned {} for a buffer of {}", k, n)),
            Ok(k) => {
                if buf[k..].iter().any(|x| *x != 0xaa) {
                    // allowed by Read's contract, but then the bytes must not be lost: checked below
                }
                out.extend_from_slice(&buf[..k]);
            }
            Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => errs.push(format!("{:?}", e.kind())),
        }
    }
    for _ in 0..3 {
        match pb.read(&mut [0u8; 9]) {
            Ok(0) => {}
            Ok(k) => return Err(format!("{} more bytes after the end was reported", k)),
            Err(e) => return Err(format!("an error after the end was reported: {}", e)),
        }
    }
    errs.sort();
    obs.class_if(!faults.is_empty(), "hard faults");
    obs.class_if(c.fields.iter().any(|f| matches!(f, CF::Stream { intr, .. } if !intr.is_empty())), "interruptions");
    obs.class_if(nstreams > 1, "several streams");
    obs.nt(nstreams > 0);
    let out = normalise(&out, &bb);
    if out != reference {
        return Err(format!("the body depends on how it is read: {}", diff(&out, &reference)));
    }
    if errs != want_errs {
        return Err(format!("errors reported {:?}, errors of the streams {:?}", errs, want_errs));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpenCase {
    fields: Vec<CF>,
    at: u8,
    name: String,
    kind: u8,
    send: bool,
}

/// A path that cannot be opened.
pub fn bad_path(dir: &Path, kind: u8) -> PathBuf {
    match kind % 5 {
        0 => dir.join("missing.txt"),
        1 => {
            fs::write(dir.join("plain"), b"x").unwrap();
            dir.join("plain/below.txt")
        }
        2 => dir.join("nul\0byte"),
        3 => {
            let p = dir.join("dangling");
            std::os::unix::fs::symlink(dir.join("nowhere"), &p).unwrap();
            p
        }
        _ => {
            let p = dir.join("loop");
            std::os::unix::fs::symlink(&p, &p).unwrap();
            p
        }
    }
}

fn open_case() -> BoxedStrategy<OpenCase> {
    (related(proptest::collection::vec(cf(), 0..5)), any::<u8>(), cname(), any::<u8>(), any::<bool>())
        .prop_map(|(fields, at, name, kind, send)| OpenCase { fields, at, name, kind, send })
        .boxed()
}

fn lazy_err(e: lazy::LazyIoError) -> Result<(Option<String>, ErrorKind), String> {
    let name = e.field_name.as_ref().map(|s| s.to_string());
    let kind = e.error.kind();
    if let Some(n) = &name {
        for shown in [format!("{}", e), format!("{:?}", e)] {
            // the name may be shown escaped
            let esc = format!("{:?}", n);
            if !shown.contains(n.as_str()) && !shown.contains(&esc[1..esc.len() - 1]) {
                return Err(format!("the message {:?} doesn't name the field {:?}", shown, n));
            }
        }
    }
    let io: io::Error = e.into();
    if io.kind() != kind {
        return Err(format!("the error of kind {:?} converts to an io::Error of kind {:?}", kind, io.kind()));
    }
    Ok((name, kind))
}

/// A lazy request with one field that cannot be opened.
fn eval_open(c: &OpenCase, obs: &mut Obs) -> Outcome {
    let dir = CaseDir::new();
    let bad = bad_path(dir.path(), c.kind);
    let want = fs::File::open(&bad).err().ok_or("harness: the bad path opens")?.kind();
    let (_d, files) = make_files(&c.fields);
    let at = c.at as usize % (c.fields.len() + 1);
    let (mut mp, _) = {
        // add the bad field in between
        let mut mp = lazy::Multipart::new();
        let mut stats = vec![];
        for (i, f) in c.fields.iter().enumerate() {
            if i == at {
                mp.add_file(c.name.clone(), bad.clone());
            }
            match f {
                CF::Text { name, text } => {
                    mp.add_text(name.clone(), text_of(text));
                }
                CF::Stream { name, filename, mime, content, chunk, intr } => {
                    let s = src_of(content, chunk, intr, None);
                    stats.push(s.stats.clone());
                    mp.add_stream(name.clone(), s, filename.clone(), guess(*mime));
                }
                CF::File { name, .. } => {
                    mp.add_file(name.clone(), files[&i].path.clone());
                }
            }
        }
        if at == c.fields.len() {
            mp.add_file(c.name.clone(), bad.clone());
        }
        (mp, stats)
    };
    obs.nt(!c.fields.is_empty());
    let st: Rec = Rc::default();
    let (fname, kind) = if c.send {
        obs.class("send");
        match mp.send(RecReq { st: st.clone(), cfg: RecCfg::default() }) {
            Ok(()) => return Err("sending succeeded although a file cannot be opened".into()),
            Err(e) => lazy_err(e)?,
        }
    } else {
        obs.class("prepare");
        match mp.prepare() {
            Ok(_) => return Err("preparing succeeded although a file cannot be opened".into()),
            Err(e) => lazy_err(e)?,
        }
    };
    if fname.as_ref() != Some(&c.name) {
        return Err(format!("the error names field {:?}, the failing one is {:?}", fname, c.name));
    }
    if kind != want {
        return Err(format!("error kind {:?}, opening the file gives {:?}", kind, want));
    }
    let s = st.borrow();
    if s.opened != 0 || !s.bytes.is_empty() {
        return Err("something was sent although a file cannot be opened".into());
    }
    Ok(())
}

fn drain_large() -> BoxedStrategy<DrainCase> {
    (drain_case(), huge_plan())
        .prop_map(|(mut c, h)| {
            enlarge_fields(&mut c.fields, h);
            for n in c.reads.iter_mut().filter(|n| **n > 0) {
                coarse_sizes(std::slice::from_mut(n));
            }
            c
        })
        .boxed()
}

pub fn m17() -> Vec<Facet> {
    vec![
        facet("drain-large", "the same with contents of 30-400 kB", 2_500, 40_000, drain_large, eval_drain),
        facet("drain", "at least one generic stream", 260_000, 6_000_000, drain_case, eval_drain),
        facet("open", "other fields besides the unopenable one", 40_000, 1_000_000, open_case, eval_open),
    ]
}

// ------------------------------------------------------------------------------------ M18

fn legal_boundary(b: &str) -> Result<(), String> {
    if b.is_empty() || b.len() > 70 {
        return Err(format!("boundary of length {}", b.len()));
    }
    // token characters: legal in a parameter value without quoting
    if !b.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)) {
        return Err(format!("boundary {:?} is not a token", b));
    }
    // and in a boundary (RFC 2046)
    if !b.bytes().all(|c| c.is_ascii_alphanumeric() || b"'()+_,-./:=?".contains(&c)) {
        return Err(format!("boundary {:?} has characters not allowed in boundaries", b));
    }
    Ok(())
}

fn eval_announce(c: &TripCase, obs: &mut Obs) -> Outcome {
    let (mode, label) = match c.mode % 6 {
        0 => (Mode::Plain, "plain"),
        1 => (Mode::Sized, "sized"),
        2 => (Mode::Lazy, "lazy send"),
        3 => (Mode::Prepared, "prepared"),
        4 => (Mode::MockPlain, "mock plain"),
        _ => (Mode::MockSized, "mock sized"),
    };
    obs.class(label);
    let mut seen = HashSet::new();
    for round in 0..2 {
        let mut cfg = cfg_of(&c.plan, &c.intr);
    cfg.reuse = match mode {
        Mode::Lazy | Mode::Prepared => c.mode / 16 % 8,
        _ => 0,
    };
    if cfg.reuse > 3 {
        cfg.reuse = 0;
    }
    obs.class_if(cfg.reuse > 0, "reused lazy request");
    let out = run(mode, &c.fields, &cfg, &c.reads);
        if let Some(e) = &out.err {
            return Err(format!("the client failed without a fault: {}", e));
        }
        if round == 0 {
            observe_fields(c, &out, obs);
        }
        let applies = out.st.borrow().applies;
        if !matches!(mode, Mode::Prepared | Mode::MockPlain | Mode::MockSized) && applies != 1 {
            return Err(format!("the headers were applied {} times", applies));
        }
        legal_boundary(&out.boundary)?;
        let parts = refparse(&out.bytes, &out.boundary)?;
        if parts.len() != c.fields.len() {
            return Err(format!("the announced boundary delimits {} parts, {} fields were written", parts.len(), c.fields.len()));
        }
        // the delimiter lines are exactly the announced boundary
        let first = if out.bytes.starts_with(b"\r\n") { &out.bytes[2..] } else { &out.bytes[..] };
        let line = &first[..find(first, b"\r\n").unwrap_or(first.len())];
        let want = if c.fields.is_empty() { format!("--{}--", out.boundary) } else { format!("--{}", out.boundary) };
        if line != want.as_bytes() {
            return Err(format!("first line {:?}, announced boundary {:?}", String::from_utf8_lossy(line), out.boundary));
        }
        if !seen.insert(out.boundary.clone()) {
            return Err(format!("two requests used the same boundary {:?}", out.boundary));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FreshCase {
    mode: u8,
    n: u16,
    /// 0 this thread, 1 other threads, 2 other processes
    place: u8,
}

fn fresh_case() -> BoxedStrategy<FreshCase> {
    (0u8..3, 2500u16..3500, 0u8..3).prop_map(|(mode, n, place)| FreshCase { mode, n, place }).boxed()
}

pub fn boundaries(mode: u8, n: usize) -> Vec<String> {
    if mode % 4 == 3 {
        let mut mp = lazy::Multipart::new();
        return (0..n).map(|i| {
            if i % 2 == 0 {
                mp.add_text("a", "b");
            }
            mp.prepare().unwrap().boundary().to_string()
        }).collect();
    }
    let m = match mode % 4 {
        0 => Mode::Plain,
        1 => Mode::Sized,
        _ => Mode::Prepared,
    };
    let f = [CF::Text { name: "a".into(), text: vec![] }];
    (0..n).map(|_| run(m, &f, &RecCfg::default(), &[]).boundary).collect()
}

fn eval_fresh(c: &FreshCase, obs: &mut Obs) -> Outcome {
    let n = c.n as usize;
    obs.nt(true);
    let all: Vec<String> = match c.place % 3 {
        0 => {
            obs.class("one thread");
            boundaries(c.mode, n)
        }
        1 => {
            obs.class("several threads");
            let per = n / 20 + 1;
            let mode = c.mode;
            let hs: Vec<_> = (0..20).map(|_| std::thread::spawn(move || boundaries(mode, per))).collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        }
        _ => {
            obs.class("several processes");
            let per = n / 20 + 1;
            let mut v = vec![];
            for _ in 0..20 {
                let o = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(&["boundaries", &c.mode.to_string(), &per.to_string()])
                    .output()
                    .map_err(|e| format!("harness: {}", e))?;
                let s = String::from_utf8_lossy(&o.stdout).into_owned();
                let b: Vec<String> = s.lines().map(String::from).collect();
                if b.len() != per {
                    return Err(format!("the child process produced {} boundaries of {}: {}", b.len(), per, String::from_utf8_lossy(&o.stderr)));
                }
                v.extend(b);
            }
            v
        }
    };
    let n = all.len();
    let mut set = HashSet::new();
    for b in &all {
        legal_boundary(b)?;
        if !set.insert(b.as_str()) {
            return Err(format!("boundary {:?} was used twice among {} requests", b, n));
        }
    }
    // entropy, position by position, of the shortest common length
    let len = all.iter().map(|b| b.len()).min().unwrap();
    let col = |i: usize| -> Vec<u8> { all.iter().map(|b| b.as_bytes()[i]).collect() };
    let cols: Vec<Vec<u8>> = (0..len).map(col).collect();
    let entropy = |v: &[u8]| -> f64 {
        let mut h = [0u32; 256];
        for x in v {
            h[*x as usize] += 1;
        }
        h.iter().filter(|c| **c > 0).map(|c| {
            let p = *c as f64 / v.len() as f64;
            -p * p.log2()
        }).sum()
    };
    let hs: Vec<f64> = cols.iter().map(|c| entropy(c)).collect();
    let total: f64 = hs.iter().sum();
    if total < 80.0 {
        return Err(format!("boundaries carry at most {:.1} bits ({} positions)", total, len));
    }
    // dependence between positions, and between consecutive boundaries: count distinct pairs
    let live: Vec<usize> = (0..len).filter(|i| hs[*i] > 4.0).collect();
    if live.len() * 6 < 80 {
        return Err(format!("only {} of {} positions vary enough", live.len(), len));
    }
    let distinct_pairs = |a: &[u8], b: &[u8]| -> usize { a.iter().zip(b).map(|(x, y)| (*x, *y)).collect::<HashSet<_>>().len() };
    for (k, &i) in live.iter().enumerate() {
        for &j in &live[k + 1..] {
            let d = distinct_pairs(&cols[i], &cols[j]);
            if d < n / 4 {
                return Err(format!("characters {} and {} depend on each other: {} distinct pairs in {} boundaries", i, j, d, n));
            }
        }
        let d = distinct_pairs(&cols[i][1..], &cols[i][..n - 1]);
        if d < n / 4 {
            return Err(format!("character {} depends on the previous boundary: {} distinct pairs in {}", i, d, n));
        }
    }
    Ok(())
}

pub fn m18() -> Vec<Facet> {
    vec![
        facet("announced", "several fields, look-alike content, a body over 1 KiB, or no fields", 120_000, 3_000_000, trip_fields, eval_announce),
        facet("fresh", "every case draws thousands of boundaries in one thread, several threads or several processes", 48, 2_000, fresh_case, eval_fresh),
    ]
}

// ------------------------------------------------------------------------------------ M25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CFault {
    None,
    Refuse,
    Open(u8),
    Finish(u8),
    /// position (scaled to the length of the body), kind or writes returning zero
    Write(u16, Option<u8>),
    /// stream index, position, kind
    Source(u8, u16, u8),
    /// an unopenable file added at this index; kind of path
    Missing(u8, u8),
    /// a file added at this index which opens but cannot be read (a directory)
    Unreadable(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultyClient {
    mode: u8,
    fields: Vec<CF>,
    plan: Vec<u16>,
    intr: Vec<u16>,
    fault: CFault,
}

fn faulty_client() -> BoxedStrategy<FaultyClient> {
    let fault = prop_oneof![
        1 => Just(CFault::None),
        2 => Just(CFault::Refuse),
        1 => any::<u8>().prop_map(CFault::Open),
        1 => any::<u8>().prop_map(CFault::Finish),
        6 => (any::<u16>(), prop_oneof![4 => any::<u8>().prop_map(Some), 1 => Just(None)]).prop_map(|(a, b)| CFault::Write(a, b)),
        4 => (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, c)| CFault::Source(a, b, c)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| CFault::Missing(a, b)),
        1 => any::<u8>().prop_map(CFault::Unreadable),
    ];
    (any::<u8>(), related(proptest::collection::vec(cf(), 0..5)), wplan(), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u16..3000, 1..4)], fault)
        .prop_map(|(mode, fields, plan, intr, fault)| FaultyClient { mode, fields, plan, intr, fault })
        .boxed()
}

/// What each operation of a request did.
struct Steps {
    create: Result<(), ErrorKind>,
    /// per operation: result and number of bytes that had reached the transport afterwards
    ops: Vec<(Result<(), ErrorKind>, usize)>,
    send: Option<Result<(), ErrorKind>>,
    boundary: String,
}

/// `sources`: (index of the stream field among the fields, position, kind)
fn steps<S: HttpStream<Error = io::Error>>(
    made: Result<Multipart<S>, io::Error>, st: &Rec, fields: &[CF], files: &HashMap<usize, FileOnDisk>,
    source: Option<(usize, usize, ErrorKind)>, missing: Option<(usize, &Path)>,
) -> Steps {
    let mut out = Steps { create: Ok(()), ops: vec![], send: None, boundary: String::new() };
    let mut mp = match made {
        Ok(m) => m,
        Err(e) => {
            out.create = Err(e.kind());
            return out;
        }
    };
    for i in 0..=fields.len() {
        if let Some((at, p)) = missing {
            if at == i {
                let r = mp.file("missing", p).map_err(|e| e.kind());
                out.ops.push((r, st.borrow().bytes.len()));
            }
        }
        if i == fields.len() {
            break;
        }
        let r = match &fields[i] {
            CF::Text { name, text } => mp.text(name, &text_of(text)),
            CF::Stream { name, filename, mime, content, chunk, intr } => {
                let mut fl: Vec<(usize, ErrorKind)> = intr.iter().map(|p| (*p as usize, ErrorKind::Interrupted)).collect();
                if let Some((at, p, k)) = source {
                    if at == i {
                        fl.push((p, k));
                    }
                }
                let mut s = Src::new(content, chunk, fl, None);
                mp.stream(name, &mut s, filename.as_ref().map(|s| &**s), guess(*mime))
            }
            CF::File { name, .. } => mp.file(name, &files[&i].path),
        }
        .map_err(|e| e.kind());
        let failed = r.is_err();
        out.ops.push((r, st.borrow().bytes.len()));
        if failed {
            return out;
        }
    }
    out.send = Some(mp.send().map(|_| ()).map_err(|e| e.kind()));
    out
}

fn eval_faulty(c: &FaultyClient, obs: &mut Obs) -> Outcome {
    let (_dir, files) = make_files(&c.fields);
    let mode = match c.mode % 3 {
        0 => Mode::Plain,
        1 => Mode::Sized,
        _ => Mode::Lazy,
    };
    obs.class(match mode { Mode::Plain => "plain", Mode::Sized => "sized", _ => "lazy" });
    let mut intr: Vec<usize> = c.intr.iter().map(|x| *x as usize).collect();
    intr.sort();
    let kind = |k: u8| KINDS[k as usize % KINDS.len()];
    let streams: Vec<usize> = c.fields.iter().enumerate().filter(|(_, f)| matches!(f, CF::Stream { .. })).map(|x| x.0).collect();

    // the faultless run, for reference
    let clean = {
        let st: Rec = Rc::default();
        let s = perform(mode, &c.fields, &files, RecCfg::default(), &st, None, None);
        s.create.map_err(|k| format!("the request failed without a fault: {:?}", k))?;
        for (i, o) in s.ops.iter().enumerate() {
            o.0.map_err(|k| format!("operation {} failed without a fault: {:?}", i, k))?;
        }
        if s.send != Some(Ok(())) {
            return Err(format!("sending failed without a fault: {:?}", s.send));
        }
        let bytes = st.borrow().bytes.clone();
        (s, bytes)
    };

    let mut cfg = RecCfg { plan: c.plan.clone(), intr, ..RecCfg::default() };
    let mut source = None;
    let mut missing = None;
    let mdir = CaseDir::new();
    match &c.fault {
        CFault::None => obs.class("no fault"),
        CFault::Refuse => {
            obs.class("refused");
            cfg.refuse = true
        }
        CFault::Open(k) => {
            obs.class("open fails");
            cfg.open_err = Some(kind(*k))
        }
        CFault::Finish(k) => {
            obs.class("finish fails");
            cfg.finish_err = Some(kind(*k))
        }
        CFault::Write(p, k) => {
            obs.class("write fails");
            let p = *p as usize * clean.1.len() / 65536;
            cfg.fault = Some((p, k.map(kind)));
        }
        CFault::Source(i, p, k) => {
            if !streams.is_empty() {
                obs.class("source fails");
                source = Some((streams[*i as usize % streams.len()], *p as usize, kind(*k)));
            }
        }
        CFault::Missing(i, k) => {
            obs.class("unopenable file");
            missing = Some((*i as usize % (c.fields.len() + 1), bad_path(mdir.path(), *k)));
        }
        CFault::Unreadable(i) => {
            obs.class("unreadable file");
            missing = Some((*i as usize % (c.fields.len() + 1), mdir.path().to_path_buf()));
        }
    }
    obs.nt(!matches!(c.fault, CFault::None) || !c.plan.is_empty() || !c.intr.is_empty());

    let st: Rec = Rc::default();
    let got = perform(mode, &c.fields, &files, cfg.clone(), &st, source, missing.as_ref().map(|m| (m.0, &*m.1)));
    let s = st.borrow();
    let bytes = s.bytes.clone();
    // the same body with the boundary of this run
    let clean = (clean.0.ops, rebound(&clean.1, &clean.0.boundary, &got.boundary));
    let is_prefix = |b: &[u8]| clean.1.starts_with(b);

    let all_ops_ok = |n: usize| -> Result<(), String> {
        for (i, o) in got.ops.iter().take(n).enumerate() {
            if let Err(k) = o.0 {
                return Err(format!("operation {} failed with {:?} although the fault is elsewhere", i, k));
            }
        }
        Ok(())
    };

    match &c.fault {
        CFault::Refuse => {
            if s.opened != 0 || !s.bytes.is_empty() {
                return Err(format!("the headers were refused, but the request was opened and {} bytes sent", s.bytes.len()));
            }
            match mode {
                Mode::Plain if got.create.is_ok() => return Err("the headers were refused but a request was created".into()),
                Mode::Sized if got.create.is_ok() => {
                    all_ops_ok(usize::MAX)?;
                    if !matches!(got.send, Some(Err(_))) {
                        return Err(format!("the headers were refused but sending gave {:?}", got.send));
                    }
                }
                Mode::Lazy if !matches!(got.send, Some(Err(_))) => return Err(format!("the headers were refused but sending gave {:?}", got.send)),
                _ => {}
            }
            return Ok(());
        }
        CFault::Open(k) => {
            let want = Err(kind(*k));
            match mode {
                Mode::Plain => {
                    if got.create != want {
                        return Err(format!("opening failed with {:?}, creating the request gave {:?}", want, got.create));
                    }
                }
                _ => {
                    all_ops_ok(usize::MAX)?;
                    if got.create.is_err() || got.send != Some(want) {
                        return Err(format!("opening failed with {:?}, creating gave {:?}, sending {:?}", want, got.create, got.send));
                    }
                }
            }
            if !s.bytes.is_empty() {
                return Err("bytes were written to a request that did not open".into());
            }
            return Ok(());
        }
        _ => {}
    }
    if let Err(k) = got.create {
        return Err(format!("creating the request failed with {:?}", k));
    }
    match (&c.fault, &source) {
        (CFault::Finish(k), _) => {
            all_ops_ok(usize::MAX)?;
            if got.send != Some(Err(kind(*k))) {
                return Err(format!("finishing failed with {:?} but sending gave {:?}", kind(*k), got.send));
            }
            if bytes != clean.1 {
                return Err(format!("body: {}", diff(&bytes, &clean.1)));
            }
        }
        (CFault::Write(..), _) => {
            let (p, k) = cfg.fault.unwrap();
            let want = k.unwrap_or(ErrorKind::WriteZero);
            if bytes.len() > p || !is_prefix(&bytes) {
                return Err(format!("sent before the failure: {}", diff(&bytes, &clean.1[..p])));
            }
            if p >= clean.1.len() {
                all_ops_ok(usize::MAX)?;
                if got.send != Some(Ok(())) || bytes != clean.1 {
                    return Err(format!("no write failed but sending gave {:?}", got.send));
                }
                return Ok(());
            }
            if bytes.len() != p {
                return Err(format!("{} bytes were sent, the transport failed at {}", bytes.len(), p));
            }
            if s.finished {
                return Err("a request whose transport failed was finished".into());
            }
            if mode == Mode::Plain {
                // the operation during which the transport failed is the one that reports it
                let i = clean.0.iter().position(|o| o.1 > p);
                match i {
                    Some(i) => {
                        all_ops_ok(i)?;
                        if got.ops.get(i).map(|o| o.0) != Some(Err(want)) {
                            return Err(format!("the transport failed with {:?} during operation {}, which gave {:?}", want, i, got.ops.get(i).map(|o| o.0)));
                        }
                    }
                    None => {
                        all_ops_ok(usize::MAX)?;
                        if got.send != Some(Err(want)) {
                            return Err(format!("the transport failed with {:?} during send, which gave {:?}", want, got.send));
                        }
                    }
                }
            } else {
                all_ops_ok(usize::MAX)?;
                if got.send != Some(Err(want)) {
                    return Err(format!("the transport failed with {:?} during send, which gave {:?}", want, got.send));
                }
            }
        }
        (CFault::Source(..), Some((at, _, k))) => {
            if s.finished {
                return Err("a request whose data source failed was finished".into());
            }
            if !is_prefix(&bytes) {
                return Err(format!("sent before the source failed: {}", diff(&bytes, &clean.1)));
            }
            if mode == Mode::Lazy {
                if got.send != Some(Err(*k)) {
                    return Err(format!("a stream failed with {:?}, sending gave {:?}", k, got.send));
                }
            } else {
                all_ops_ok(*at)?;
                if got.ops.get(*at).map(|o| o.0) != Some(Err(*k)) {
                    return Err(format!("the source of field {} failed with {:?}, writing it gave {:?}", at, k, got.ops.get(*at).map(|o| o.0)));
                }
            }
        }
        (CFault::Unreadable(_), _) => {
            let (at, p) = missing.as_ref().unwrap();
            let want = match fs::File::open(p).and_then(|mut f| f.read(&mut [0; 8])) {
                Err(e) => e.kind(),
                Ok(_) => return Err("harness: a directory can be read".into()),
            };
            if mode == Mode::Lazy {
                if got.send != Some(Err(want)) || s.finished {
                    return Err(format!("a file cannot be read ({:?}), sending gave {:?}", want, got.send));
                }
            } else {
                all_ops_ok(*at)?;
                if got.ops.get(*at).map(|o| o.0) != Some(Err(want)) {
                    return Err(format!("a file cannot be read ({:?}), writing it gave {:?}", want, got.ops.get(*at).map(|o| o.0)));
                }
            }
        }
        (CFault::Missing(..), _) => {
            let (at, p) = missing.as_ref().unwrap();
            let want = fs::File::open(p).err().ok_or("harness: the bad path opens")?.kind();
            if mode == Mode::Lazy {
                if got.send != Some(Err(want)) {
                    return Err(format!("a file cannot be opened ({:?}), sending gave {:?}", want, got.send));
                }
                if s.opened != 0 || !s.bytes.is_empty() {
                    return Err("something was sent although a file cannot be opened".into());
                }
            } else {
                for (i, o) in got.ops.iter().enumerate() {
                    if i == *at {
                        if o.0 != Err(want) {
                            return Err(format!("a file cannot be opened ({:?}), writing it gave {:?}", want, o.0));
                        }
                    } else if let Err(k) = o.0 {
                        return Err(format!("operation {} failed with {:?} although the fault is elsewhere", i, k));
                    }
                }
                if got.send != Some(Ok(())) || !s.finished {
                    return Err(format!("sending without the unopenable file gave {:?}", got.send));
                }
                if bytes != clean.1 {
                    return Err(format!("the body is not as if the file had not been added: {}", diff(&bytes, &clean.1)));
                }
            }
        }
        _ => {
            all_ops_ok(usize::MAX)?;
            if got.send != Some(Ok(())) || !s.finished {
                return Err(format!("sending gave {:?}", got.send));
            }
            if bytes != clean.1 {
                return Err(format!("short or interrupted writes changed the body: {}", diff(&bytes, &clean.1)));
            }
        }
    }
    Ok(())
}

fn perform(
    mode: Mode, fields: &[CF], files: &HashMap<usize, FileOnDisk>, cfg: RecCfg, st: &Rec,
    source: Option<(usize, usize, ErrorKind)>, missing: Option<(usize, &Path)>,
) -> Steps {
    let req = RecReq { st: st.clone(), cfg };
    let mut out = match mode {
        Mode::Plain => steps(Multipart::from_request(req), st, fields, files, source, missing),
        Mode::Sized => steps(Multipart::from_request_sized(req), st, fields, files, source, missing),
        _ => {
            let mut mp = lazy::Multipart::new();
            for i in 0..=fields.len() {
                if let Some((at, p)) = missing {
                    if at == i {
                        mp.add_file("missing", p.to_path_buf());
                    }
                }
                if i == fields.len() {
                    break;
                }
                match &fields[i] {
                    CF::Text { name, text } => {
                        mp.add_text(name.clone(), text_of(text));
                    }
                    CF::Stream { name, filename, mime, content, chunk, intr } => {
                        let mut fl: Vec<(usize, ErrorKind)> = intr.iter().map(|p| (*p as usize, ErrorKind::Interrupted)).collect();
                        if let Some((at, p, k)) = source {
                            if at == i {
                                fl.push((p, k));
                            }
                        }
                        mp.add_stream(name.clone(), Src::new(content, chunk, fl, None), filename.clone(), guess(*mime));
                    }
                    CF::File { name, .. } => {
                        mp.add_file(name.clone(), files[&i].path.clone());
                    }
                }
            }
            Steps { create: Ok(()), ops: vec![], send: Some(mp.send(req).map_err(|e| e.error.kind())), boundary: String::new() }
        }
    };
    out.boundary = st.borrow().boundary.clone().unwrap_or_else(|| "-no-boundary-".into());
    out
}

fn faulty_large() -> BoxedStrategy<FaultyClient> {
    (faulty_client(), huge_plan())
        .prop_map(|(mut c, h)| {
            enlarge_fields(&mut c.fields, h);
            coarse_sizes(&mut c.plan);
            c
        })
        .boxed()
}

pub fn m25() -> Vec<Facet> {
    vec![
        facet("faults-large", "the same with contents of 30-400 kB", 2_000, 30_000, faulty_large, eval_faulty),
        facet("faults", "a fault was injected, or writes were short or interrupted", 240_000, 5_000_000, faulty_client, eval_faulty),
        super::web::m25_hyper(),
        facet("unopenable", "other fields besides the unopenable one", 40_000, 1_000_000, open_case, eval_open),
    ]
}
