//! M24, M26, M27: entry APIs, mocks, boundedness.

use crate::alloc;
use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use crate::fsx::CaseDir;
use multipart::client;
use multipart::client::lazy;
use multipart::client::HttpRequest as _;
use multipart::client::HttpStream as _;
use multipart::mock;
use multipart::server::save::SaveResult;
use multipart::server::HttpRequest as _;
use multipart::server::{Multipart, MultipartField, ReadEntry, ReadEntryResult};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::fs;
use std::io::{self, BufRead, ErrorKind, Read, Write};
use std::path::Path;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use super::client::SrcStats;
use super::errors::{at, fault_list, At};

// ------------------------------------------------------------------------------------ M24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Take {
    All(How),
    Prefix(u16),
    Nothing,
    Peek,
}

fn take_strat() -> BoxedStrategy<Take> {
    prop_oneof![
        4 => how().prop_map(Take::All),
        2 => prop_oneof![0u16..10, 0u16..3000].prop_map(Take::Prefix),
        2 => Just(Take::Nothing),
        1 => Just(Take::Peek),
    ]
    .boxed()
}

fn take<R: BufRead>(r: &mut R, t: &Take) -> (Vec<u8>, Option<ErrorKind>) {
    match t {
        Take::All(h) => {
            let (d, e) = drain(r, h);
            (d, e.map(|e| e.kind()))
        }
        Take::Prefix(n) => {
            let mut out = vec![];
            while out.len() < *n as usize {
                let mut b = vec![0; *n as usize - out.len()];
                match r.read(&mut b) {
                    Ok(0) => break,
                    Ok(k) => out.extend_from_slice(&b[..k]),
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return (out, Some(e.kind())),
                }
            }
            (out, None)
        }
        Take::Nothing => (vec![], None),
        Take::Peek => loop {
            match r.fill_buf() {
                Ok(b) => return (b.to_vec(), None),
                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return (vec![], Some(e.kind())),
            }
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Harm {
    None,
    Cut(At),
    Flip(At, u8),
    Faults(Vec<(At, u8, u8)>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiCase {
    pub body: Body,
    pub chunk: Chunk,
    pub harm: Harm,
    pub takes: Vec<Take>,
}

fn api_case() -> BoxedStrategy<ApiCase> {
    let harm = prop_oneof![
        5 => Just(Harm::None),
        2 => at().prop_map(Harm::Cut),
        2 => (at(), 1u8..=255).prop_map(|(a, x)| Harm::Flip(a, x)),
        3 => proptest::collection::vec((at(), 0u8..13, 1u8..3), 1..4).prop_map(Harm::Faults),
    ];
    (body(), chunk(), harm, proptest::collection::vec(take_strat(), 0..4))
        .prop_map(|(body, chunk, harm, takes)| ApiCase { body, chunk, harm, takes })
        .boxed()
}

struct Rec24 {
    out: Vec<Ev>,
    errs: usize,
    n: usize,
}

const MAX_ERR: usize = 4;
const MAX_EV: usize = 400;

impl Rec24 {
    fn new() -> Self {
        Rec24 { out: vec![], errs: 0, n: 0 }
    }
    fn field<M: ReadEntry>(&mut self, f: &mut MultipartField<M>, takes: &[Take]) {
        if self.out.len() > MAX_EV {
            panic!("no progress: more than {} entries or errors reported", MAX_EV);
        }
        let mut g = got_of(f);
        let t = if takes.is_empty() { &Take::All(How::ToEnd) } else { &takes[self.n % takes.len()] };
        self.n += 1;
        let (d, e) = take(&mut f.data, t);
        g.data = d;
        g.data_err = e;
        self.out.push(Ev::Field(g));
    }
    /// true: stop
    fn err(&mut self, e: &io::Error) -> bool {
        self.out.push(Ev::Err(e.kind()));
        self.errs += 1;
        self.errs >= MAX_ERR
    }
    /// true: stop
    fn end(&mut self) -> bool {
        self.out.push(Ev::End);
        self.out.iter().filter(|e| **e == Ev::End).count() >= 2
    }
}

type Mp = Multipart<ScriptedReader>;

const API_NAMES: &[&str] = &["read_entry", "read_entry_mut", "into_entry", "next_entry (owned)", "next_entry (borrowed)", "next_entry_inplace", "foreach_entry", "ReadEntry for &mut"];

fn drive_api(api: usize, mut mp: Mp, takes: &[Take]) -> Vec<Ev> {
    let mut r = Rec24::new();
    match api {
        0 => loop {
            let stop = match Multipart::read_entry(&mut mp) {
                Ok(Some(mut f)) => {
                    r.field(&mut f, takes);
                    false
                }
                Ok(None) => r.end(),
                Err(e) => r.err(&e),
            };
            if stop {
                break;
            }
        },
        1 => loop {
            let stop = match mp.read_entry_mut() {
                ReadEntryResult::Entry(mut f) => {
                    r.field(&mut f, takes);
                    false
                }
                ReadEntryResult::End(_) => r.end(),
                ReadEntryResult::Error(_, e) => r.err(&e),
            };
            if stop {
                break;
            }
        },
        2 => {
            let mut cur = mp;
            loop {
                let (next, stop) = match cur.into_entry() {
                    ReadEntryResult::Entry(mut f) => {
                        r.field(&mut f, takes);
                        (f.data.into_inner(), false)
                    }
                    ReadEntryResult::End(m) => (m, r.end()),
                    ReadEntryResult::Error(m, e) => (m, r.err(&e)),
                };
                // the reader that was handed back is usable
                let inner: &ScriptedReader = std::borrow::Borrow::borrow(&next);
                let _ = inner.pos;
                cur = next;
                if stop {
                    break;
                }
            }
        }
        3 => {
            let mut res = mp.into_entry();
            loop {
                res = match res {
                    ReadEntryResult::Entry(mut f) => {
                        r.field(&mut f, takes);
                        f.next_entry()
                    }
                    ReadEntryResult::End(m) => {
                        if r.end() {
                            break;
                        }
                        m.into_entry()
                    }
                    ReadEntryResult::Error(m, e) => {
                        if r.err(&e) {
                            break;
                        }
                        m.into_entry()
                    }
                };
            }
        }
        4 => {
            let mut res = mp.read_entry_mut();
            loop {
                res = match res {
                    ReadEntryResult::Entry(mut f) => {
                        r.field(&mut f, takes);
                        f.next_entry()
                    }
                    ReadEntryResult::End(m) => {
                        if r.end() {
                            break;
                        }
                        m.read_entry_mut()
                    }
                    ReadEntryResult::Error(m, e) => {
                        if r.err(&e) {
                            break;
                        }
                        m.read_entry_mut()
                    }
                };
            }
        }
        5 => {
            let mut first = mp.into_entry();
            'outer: loop {
                match first {
                    ReadEntryResult::Entry(mut f) => {
                        r.field(&mut f, takes);
                        loop {
                            enum N {
                                More,
                                End,
                                Err(io::Error),
                            }
                            let n = match f.next_entry_inplace() {
                                Ok(Some(g)) => {
                                    r.field(g, takes);
                                    N::More
                                }
                                Ok(None) => N::End,
                                Err(e) => N::Err(e),
                            };
                            match n {
                                N::More => {}
                                N::End => {
                                    if r.end() {
                                        break 'outer;
                                    }
                                }
                                N::Err(e) => {
                                    if r.err(&e) {
                                        break 'outer;
                                    }
                                }
                            }
                        }
                    }
                    ReadEntryResult::End(m) => {
                        if r.end() {
                            break;
                        }
                        first = m.into_entry();
                    }
                    ReadEntryResult::Error(m, e) => {
                        if r.err(&e) {
                            break;
                        }
                        first = m.into_entry();
                    }
                }
            }
        }
        6 => loop {
            let res = mp.foreach_entry(|mut f| r.field(&mut f, takes));
            let stop = match res {
                Ok(()) => r.end(),
                Err(e) => r.err(&e),
            };
            if stop {
                break;
            }
        },
        _ => loop {
            let stop = match ReadEntry::read_entry(&mut mp).into_result() {
                Ok(Some(mut f)) => {
                    r.field(&mut f, takes);
                    false
                }
                Ok(None) => r.end(),
                Err(e) => r.err(&e),
            };
            if stop {
                break;
            }
        },
    }
    r.out
}

fn eval_api(c: &ApiCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let mut bytes = r.bytes.clone();
    let mut faults = vec![];
    match &c.harm {
        Harm::None => {}
        Harm::Cut(a) => {
            obs.class("truncated");
            bytes.truncate(a.resolve(&r))
        }
        Harm::Flip(a, x) => {
            obs.class("corrupted");
            if !bytes.is_empty() {
                let i = a.resolve(&r) % bytes.len();
                bytes[i] ^= x;
            }
        }
        Harm::Faults(f) => {
            obs.class("read errors");
            faults = fault_list(&r, f);
        }
    }
    let data = Arc::new(bytes);
    let marks = r.marks();
    let mk = || Multipart::with_body(ScriptedReader::new(data.clone(), &c.chunk, &marks).with_faults(faults.clone()), r.boundary.clone());
    let want = drive_api(0, mk(), &c.takes);
    obs.class_if(want.iter().any(|e| matches!(e, Ev::Err(_))), "ends in an error");
    obs.nt(want.iter().filter(|e| matches!(e, Ev::Field(_))).count() >= 1 || want.iter().any(|e| matches!(e, Ev::Err(_))));
    for api in 1..API_NAMES.len() {
        let got = guarded(|| drive_api(api, mk(), &c.takes)).map_err(|p| format!("{}: {}", API_NAMES[api], p))?;
        cmp_trace(&got, &want).map_err(|e| format!("{} differs from read_entry: {}", API_NAMES[api], e))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UnwrapCase {
    /// 0 entry, 1 end, 2 error
    kind: u8,
    func: u8,
    msg: String,
    msg2: String,
    name: String,
    owned: bool,
    /// kind of the error
    #[serde(default = "timed_out")]
    err: u8,
}

fn timed_out() -> u8 {
    super::errors::KINDS.iter().position(|k| *k == ErrorKind::TimedOut).unwrap() as u8
}

fn unwrap_case() -> BoxedStrategy<UnwrapCase> {
    (0u8..3, 0u8..6, "[a-z ]{3,12}", "[A-Z ]{3,12}", "[a-z]{1,6}", any::<bool>(), any::<u8>())
        .prop_map(|(kind, func, msg, msg2, name, owned, err)| UnwrapCase { kind, func, msg, msg2, name, owned, err })
        .boxed()
}

fn unwrap_on<M: ReadEntry>(res: ReadEntryResult<M>, c: &UnwrapCase) -> Outcome {
    let name_of = |f: &MultipartField<M>| f.headers.name.to_string();
    // what should come out: Some(name), None, or an error / panic
    enum Out {
        Field(String),
        Nothing,
        Err(io::Error),
        Panic(String),
    }
    let func = c.func % 6;
    let err = super::errors::KINDS[c.err as usize % super::errors::KINDS.len()];
    let got = match guarded(move || match func {
        0 => match res.into_result() {
            Ok(Some(f)) => Out::Field(name_of(&f)),
            Ok(None) => Out::Nothing,
            Err(e) => Out::Err(e),
        },
        1 => Out::Field(name_of(&res.unwrap())),
        2 => Out::Field(name_of(&res.expect(&c.msg))),
        3 => Out::Field(name_of(&res.expect_alt(&c.msg, &c.msg2))),
        4 => res.unwrap_opt().map_or(Out::Nothing, |f| Out::Field(name_of(&f))),
        _ => res.expect_opt(&c.msg).map_or(Out::Nothing, |f| Out::Field(name_of(&f))),
    }) {
        Ok(o) => o,
        Err(p) => Out::Panic(p),
    };
    let ok = match (c.kind % 3, func, &got) {
        (0, _, Out::Field(n)) => *n == c.name,
        (1, 0, Out::Nothing) | (1, 4, Out::Nothing) | (1, 5, Out::Nothing) => true,
        (1, 1, Out::Panic(_)) => true,
        (1, 2, Out::Panic(m)) | (1, 3, Out::Panic(m)) => m.contains(&c.msg),
        (2, 0, Out::Err(e)) => e.kind() == err,
        (2, 1, Out::Panic(m)) | (2, 4, Out::Panic(m)) => m.contains("injected"),
        (2, 2, Out::Panic(m)) | (2, 5, Out::Panic(m)) => m.contains("injected") && m.contains(&c.msg),
        (2, 3, Out::Panic(m)) => m.contains("injected") && m.contains(&c.msg2),
        _ => false,
    };
    if !ok {
        let g = match got {
            Out::Field(n) => format!("field {:?}", n),
            Out::Nothing => "nothing".into(),
            Out::Err(e) => format!("error {:?}", e),
            Out::Panic(p) => p,
        };
        return Err(format!("function {} on result kind {} gave {}", func, c.kind % 3, g));
    }
    Ok(())
}

fn eval_unwrap(c: &UnwrapCase, obs: &mut Obs) -> Outcome {
    obs.nt(true);
    let body = match c.kind % 3 {
        0 => format!("--b\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\nx\r\n--b--", c.name),
        _ => "--b--".to_string(),
    };
    let mut rd = ScriptedReader::full(body.into_bytes());
    if c.kind % 3 == 2 {
        rd = rd.with_faults(vec![(0, super::errors::KINDS[c.err as usize % super::errors::KINDS.len()])]);
    }
    let mut mp = Multipart::with_body(rd, "b");
    if c.owned {
        unwrap_on(mp.into_entry(), c)
    } else {
        unwrap_on(mp.read_entry_mut(), c)
    }
}

pub fn m24() -> Vec<Facet> {
    vec![
        facet("apis", "at least one entry or an error", 150_000, 4_000_000, api_case, eval_api),
        facet("unwrap", "every case", 10_000, 100_000, unwrap_case, eval_unwrap),
    ]
}

// ------------------------------------------------------------------------------------ M26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MockCase {
    init: u32,
    /// (bytes, use write_all)
    writes: Vec<(u32, bool)>,
    boundary: String,
    len: Option<u32>,
    reads: Vec<u16>,
    /// 0 HttpBuffer, 1 through ClientRequest
    via: u8,
    seed: u16,
}

/// lengths around and above 64 KiB
fn big_len() -> BoxedStrategy<u32> {
    prop_oneof![65530u32..65545, 60_000u32..300_000].boxed()
}

fn mock_case() -> BoxedStrategy<MockCase> {
    (
        prop_oneof![60 => Just(0u32), 30 => 0u32..500, 1 => big_len()],
        proptest::collection::vec((prop_oneof![20 => Just(0u32), 100 => 0u32..40, 40 => 0u32..9000, 1 => big_len()], any::<bool>()), 0..8),
        boundary(), any::<Option<u32>>(),
        proptest::collection::vec(prop_oneof![1 => Just(0u16), 4 => 1u16..20, 2 => 1u16..9000], 1..6), 0u8..2, any::<u16>(),
    )
        .prop_map(|(init, writes, boundary, len, reads, via, seed)| MockCase { init, writes, boundary, len, reads, via, seed })
        .boxed()
}

fn eval_mock(c: &MockCase, obs: &mut Obs) -> Outcome {
    let len = c.len.map(|l| l as u64);
    let init = prand(c.seed as u32, c.init as usize);
    let mut want = vec![];
    let mut buf = if c.via % 2 == 0 {
        obs.class("HttpBuffer");
        if init.is_empty() {
            mock::HttpBuffer::new_empty(c.boundary.clone(), len)
        } else {
            want.extend_from_slice(&init);
            mock::HttpBuffer::with_buf(init, c.boundary.clone(), len)
        }
    } else {
        obs.class("ClientRequest");
        let mut r = mock::ClientRequest::default();
        if !client::HttpRequest::apply_headers(&mut r, &c.boundary, len) {
            return Err("apply_headers returned false".into());
        }
        r.open_stream().map_err(|e| format!("open_stream: {}", e))?
    };
    for (i, (n, all)) in c.writes.iter().enumerate() {
        let d = prand(c.seed as u32 + 1 + i as u32, *n as usize);
        if *all {
            buf.write_all(&d).map_err(|e| format!("write_all: {}", e))?;
            want.extend_from_slice(&d);
        } else {
            let k = buf.write(&d).map_err(|e| format!("write: {}", e))?;
            if k > d.len() || (k == 0 && !d.is_empty()) {
                return Err(format!("write of {} bytes returned {}", d.len(), k));
            }
            obs.class_if(k < d.len(), "short write");
            want.extend_from_slice(&d[..k]);
        }
    }
    obs.class_if(want.len() > 65535, "more than 64 KiB");
    let big = want.len() > 20_000;
    buf.flush().map_err(|e| format!("flush: {}", e))?;
    let buf = buf.finish().map_err(|e| format!("finish: {}", e))?;
    if buf.buf != want {
        return Err(format!("buffer: {}", diff(&buf.buf, &want)));
    }
    if buf.boundary != c.boundary || buf.content_len != len {
        return Err(format!("boundary {:?} length {:?}, given {:?} {:?}", buf.boundary, buf.content_len, c.boundary, len));
    }
    obs.nt(!want.is_empty());
    for wrapped in 0..3 {
        let mut srv = if wrapped == 2 { mock::ServerRequest::new(&want, &c.boundary) } else { buf.for_server() };
        if wrapped != 2 && (srv.boundary != c.boundary || srv.content_len != len) {
            return Err("for_server changed the boundary or the length".into());
        }
        if srv.multipart_boundary() != Some(&c.boundary[..]) {
            return Err(format!("multipart_boundary() is {:?}", srv.multipart_boundary()));
        }
        if wrapped == 1 {
            srv = srv.body();
        }
        let mut out = vec![];
        let mut i = 0;
        let only_zero = c.reads.iter().all(|r| *r == 0);
        loop {
            let n = if only_zero { 3 } else { c.reads[i % c.reads.len()] as usize };
            // a large body is read in large pieces
            let n = if big { n * 100 + if only_zero { 700 } else { 0 } } else { n };
            i += 1;
            let mut b = vec![0u8; n];
            let k = srv.read(&mut b).map_err(|e| format!("read: {}", e))?;
            if k > n {
                return Err(format!("read returned {} for a buffer of {}", k, n));
            }
            if n == 0 {
                continue;
            }
            if k == 0 {
                break;
            }
            obs.class_if(k < n && out.len() + k < want.len(), "short read");
            out.extend_from_slice(&b[..k]);
        }
        if out != want {
            return Err(format!("server request: {}", diff(&out, &want)));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TeeCase {
    /// (length, line breaks: 0 = none, up to 256 = that far apart, above = a single one at n - 256; use write_all)
    writes: Vec<(u32, u16, bool)>,
    /// short writes of the inner writer, cycled; 0 = interrupted
    inner: Vec<u16>,
    flush: bool,
    /// standard output is full, or the inner writer fails after that many bytes
    #[serde(default)]
    fail: TeeFail,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum TeeFail {
    #[default]
    None,
    Stdout,
    Inner(u16),
}

fn tee_case() -> BoxedStrategy<TeeCase> {
    (
        proptest::collection::vec((prop_oneof![20 => Just(0u32), 60 => 0u32..60, 60 => 900u32..1200, 60 => 1000u32..9000, 1 => big_len()], prop_oneof![2 => Just(0u16), 2 => 1u16..256, 3 => 256u16..2000], any::<bool>()), 1..6),
        prop_oneof![2 => Just(vec![]), 2 => proptest::collection::vec(prop_oneof![1 => Just(0u16), 2 => 1u16..30, 2 => 1u16..3000], 1..4)],
        any::<bool>(),
        prop_oneof![6 => Just(TeeFail::None), 1 => Just(TeeFail::Stdout), 2 => prop_oneof![0u16..100, 0u16..12000].prop_map(TeeFail::Inner)],
    )
        .prop_map(|(writes, mut inner, flush, fail)| {
            if inner.iter().all(|x| *x == 0) { inner.clear(); }
            TeeCase { writes, inner, flush, fail }
        })
        .boxed()
}

struct ShortWriter {
    out: Vec<u8>,
    plan: Vec<u16>,
    i: usize,
    /// how much had been written at the last flush
    flushed: Rc<Cell<usize>>,
    fail_at: usize,
}

impl Write for ShortWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut n = b.len();
        if n > 0 && self.out.len() >= self.fail_at {
            return Err(io::Error::new(ErrorKind::ConnectionReset, "the inner writer failed"));
        }
        n = n.min(self.fail_at - self.out.len());
        if !self.plan.is_empty() && n > 0 {
            let p = self.plan[self.i % self.plan.len()] as usize;
            self.i += 1;
            if p == 0 {
                return Err(io::Error::new(ErrorKind::Interrupted, "injected"));
            }
            n = n.min(p);
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushed.set(self.out.len());
        Ok(())
    }
}

fn tee_data(i: usize, len: u32, nl: u16) -> Vec<u8> {
    (0..len as usize)
        .map(|k| if nl > 256 && k == nl as usize - 256 || nl > 0 && nl <= 256 && k % nl as usize == nl as usize - 1 { b'\n' } else { b'a' + ((k + i * 7) % 26) as u8 })
        .collect()
}

/// Runs in a child process whose standard output is a file.
pub fn tee_child(case: &str, out: &str) -> i32 {
    let c: TeeCase = serde_json::from_slice(&fs::read(case).unwrap()).unwrap();
    let flushed = Rc::new(Cell::new(0));
    let mut sink = ShortWriter { out: vec![], plan: c.inner.clone(), i: 0, flushed: flushed.clone(), fail_at: if let TeeFail::Inner(k) = c.fail { k as usize } else { usize::MAX } };
    let mut total = 0;
    // a flush must bring everything written so far to both sides
    let reached = |total: usize| -> Option<String> {
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        unsafe { libc::fstat(1, &mut st) };
        if flushed.get() != total || st.st_size as usize != total {
            return Some(format!("after a flush with {} bytes written the inner writer has flushed {} and standard output {}", total, flushed.get(), st.st_size));
        }
        None
    };
    let stdout = io::stdout();
    let mut msg = String::from("ok");
    {
        let mut tee = mock::StdoutTee::new(&mut sink, &stdout);
        'w: for (i, (n, nl, all)) in c.writes.iter().enumerate() {
            let d = tee_data(i, *n, *nl);
            if *all {
                if let Err(e) = tee.write_all(&d) {
                    msg = format!("write_all: {}", e);
                    break;
                }
            } else {
                let mut rest = &d[..];
                while !rest.is_empty() {
                    match tee.write(rest) {
                        Ok(0) => {
                            msg = "write returned 0".into();
                            break 'w;
                        }
                        Ok(k) if k > rest.len() => {
                            msg = format!("write of {} returned {}", rest.len(), k);
                            break 'w;
                        }
                        Ok(k) => rest = &rest[k..],
                        Err(ref e) if e.kind() == ErrorKind::Interrupted => {}
                        Err(e) => {
                            msg = format!("write: {}", e);
                            break 'w;
                        }
                    }
                }
            }
            total += d.len();
            if c.flush {
                if let Err(e) = tee.flush() {
                    msg = format!("flush: {}", e);
                    break;
                }
                if let Some(m) = reached(total) {
                    msg = m;
                    break;
                }
            }
        }
        if let Err(e) = tee.flush() {
            if msg == "ok" {
                msg = format!("flush: {}", e);
            }
        }
        if msg == "ok" {
            if let Some(m) = reached(total) {
                msg = m;
            }
        }
    }
    fs::write(out, &sink.out).unwrap();
    fs::write(format!("{}.msg", out), msg).unwrap();
    0
}

fn eval_tee(c: &TeeCase, obs: &mut Obs) -> Outcome {
    let dir = CaseDir::new();
    let p = |n: &str| dir.path().join(n);
    fs::write(p("case"), serde_json::to_vec(c).unwrap()).unwrap();
    let so = if c.fail == TeeFail::Stdout {
        fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("harness: {}", e))?
    } else {
        fs::File::create(p("stdout")).unwrap()
    };
    let st = Command::new(std::env::current_exe().unwrap())
        .arg("tee-child").arg(p("case")).arg(p("inner"))
        .stdin(Stdio::null()).stdout(Stdio::from(so)).stderr(Stdio::null())
        .status().map_err(|e| format!("harness: {}", e))?;
    if !st.success() {
        return Err(format!("the writing process failed: {:?}", st));
    }
    let want: Vec<u8> = c.writes.iter().enumerate().flat_map(|(i, (n, nl, _))| tee_data(i, *n, *nl)).collect();
    obs.nt(want.len() > 1);
    obs.class_if(!c.inner.is_empty(), "inner writer with short or interrupted writes");
    obs.class_if(c.writes.iter().any(|w| w.0 > 1024), "write larger than the stdout buffer");
    let msg = fs::read_to_string(p("inner.msg")).unwrap_or_default();
    match c.fail {
        TeeFail::Stdout if !want.is_empty() => {
            obs.class("full standard output");
            if msg == "ok" || msg.contains("the inner writer") {
                return Err(format!("nothing can be written to standard output, but writing {} bytes and flushing gave {}", want.len(), msg));
            }
            if !want.starts_with(&fs::read(p("inner")).unwrap_or_default()) {
                return Err("the inner writer got something else than was written".into());
            }
            return Ok(());
        }
        TeeFail::Inner(k) if (k as usize) < want.len() => {
            obs.class("failing inner writer");
            if !msg.contains("the inner writer failed") {
                return Err(format!("the inner writer failed after {} bytes, writing through the tee gave {}", k, msg));
            }
            for n in ["inner", "stdout"] {
                let v = fs::read(p(n)).unwrap_or_default();
                if v != want[..k as usize] {
                    return Err(format!("{} after the inner writer failed at {}: {}", n, k, diff(&v, &want[..k as usize])));
                }
            }
            return Ok(());
        }
        TeeFail::Stdout => return Ok(()),
        _ => {}
    }
    if msg != "ok" {
        return Err(format!("writing through the tee failed: {}", msg));
    }
    let rd = |q: &Path| fs::read(q).unwrap_or_default();
    let (inner, out) = (rd(&p("inner")), rd(&p("stdout")));
    if inner != want {
        return Err(format!("inner writer: {}", diff(&inner, &want)));
    }
    if out != want {
        return Err(format!("standard output: {}", diff(&out, &want)));
    }
    Ok(())
}

pub fn m26() -> Vec<Facet> {
    vec![
        facet("mocks", "at least one byte written", 300_000, 6_000_000, mock_case, eval_mock),
        facet("tee", "more than one byte written", 9_000, 150_000, tee_case, eval_tee),
    ]
}

// ------------------------------------------------------------------------------------ M27

const READ_AHEAD: usize = 64 << 10;
const MEMORY: isize = 192 << 10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigPart {
    /// repeated to fill the content
    pattern: Vec<Seg>,
    kib: u16,
    text: bool,
    /// 0 skip, 1 read everything with these sizes, 2 fill_buf/consume, 3 read a prefix, then skip
    /// 4 write_to a sink, 5 save to a file, 6 save to memory with a small size limit
    action: u8,
    sizes: Vec<u16>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    boundary: String,
    preamble_kib: u16,
    parts: Vec<BigPart>,
    chunk: Chunk,
    epilogue_kib: u16,
}

fn big_part() -> BoxedStrategy<BigPart> {
    (
        prop_oneof![
            3 => proptest::collection::vec(seg(), 1..4),
            1 => Just(vec![Seg::Cr]), 1 => Just(vec![Seg::Crlf]), 1 => Just(vec![Seg::Dash(1)]),
            1 => Just(vec![Seg::Pre(19)]), 1 => Just(vec![Seg::Rep(b'x', 100)]),
            1 => Just(vec![Seg::Mb(2, 1)]),
        ],
        prop_oneof![2 => 0u16..20, 3 => 200u16..600, 1 => 600u16..1500], any::<bool>(), 0u8..7,
        proptest::collection::vec(prop_oneof![1u16..4, 1u16..200, 1000u16..9000, 8000u16..60000], 1..4),
    )
        .prop_map(|(pattern, kib, text, action, sizes)| BigPart { pattern, kib, text, action, sizes })
        .boxed()
}

fn big_case() -> BoxedStrategy<BigCase> {
    (boundary(), prop_oneof![3 => Just(0u16), 1 => 100u16..800], proptest::collection::vec(big_part(), 1..4),
     prop_oneof![3 => Just(Chunk::Full), 2 => (512u16..9000).prop_map(Chunk::Fixed), 1 => proptest::collection::vec(200u16..20000, 1..4).prop_map(Chunk::Cycle)],
     prop_oneof![3 => Just(0u16), 1 => 100u16..400])
        .prop_map(|(boundary, preamble_kib, parts, chunk, epilogue_kib)| BigCase { boundary, preamble_kib, parts, chunk, epilogue_kib })
        .boxed()
}

fn fill(pattern: &[Seg], kib: usize, boundary: &str) -> Vec<u8> {
    let mut unit = render(pattern, boundary, 0);
    if unit.is_empty() {
        unit.push(b'z');
    }
    let n = kib << 10;
    let mut v = Vec::with_capacity(n + unit.len());
    while v.len() < n {
        v.extend_from_slice(&unit);
    }
    v.truncate(n);
    scrub(&mut v, boundary);
    v
}

fn eval_big(c: &BigCase, obs: &mut Obs) -> Outcome {
    let b = &c.boundary;
    let mut body = vec![];
    if c.preamble_kib > 0 {
        body.extend(fill(&[Seg::R(3, 900)], c.preamble_kib as usize, b));
        body.extend_from_slice(b"\r\n");
    }
    let mut spans = vec![];
    for (i, p) in c.parts.iter().enumerate() {
        if i > 0 {
            body.extend_from_slice(b"\r\n");
        }
        body.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"p{}\"\r\n{}\r\n", b, i,
            if p.text { "" } else { "Content-Type: application/octet-stream\r\n" }).as_bytes());
        let start = body.len();
        body.extend(fill(&p.pattern, p.kib as usize, b));
        spans.push((start, body.len()));
    }
    body.extend_from_slice(format!("\r\n--{}--", b).as_bytes());
    body.extend(prand(5, (c.epilogue_kib as usize) << 10));
    // a header line may contain "--boundary" for odd boundaries
    if find_all(&body[..spans.last().unwrap().1], format!("--{}", b).as_bytes()).len() != c.parts.len() {
        return Ok(());
    }
    let data = Arc::new(body);
    let max_pos = Arc::new(AtomicUsize::new(0));
    let mut rd = ScriptedReader::new(data.clone(), &c.chunk, &[]);
    rd.max_pos = Some(max_pos.clone());
    let dir = CaseDir::new();
    let mut scratch = vec![0u8; 64 << 10];
    obs.nt(data.len() > 4 * READ_AHEAD);
    obs.class_if(c.preamble_kib > 0, "large preamble");

    let mark = alloc::mark();
    let mut mp = Multipart::with_body(rd, b.clone());
    let ahead = |consumed: usize, what: &str| -> Outcome {
        let p = max_pos.load(Ordering::SeqCst);
        if p > consumed + READ_AHEAD {
            return Err(format!("{} bytes were pulled when {} were consumed ({})", p, consumed, what));
        }
        Ok(())
    };
    for (i, p) in c.parts.iter().enumerate() {
        let (start, end) = spans[i];
        let mut f = match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("the end was reported before part {}", i)),
            Err(e) => return Err(format!("error before part {}: {}", i, e)),
        };
        ahead(start, "a part was opened")?;
        let mut got = 0usize;
        match p.action % 7 {
            0 => obs.class("skip"),
            1 | 3 => {
                let stop = if p.action % 7 == 1 { usize::MAX } else { (end - start) / 3 };
                obs.class(if stop == usize::MAX { "read" } else { "read some, skip the rest" });
                let mut k = 0;
                while got < stop {
                    let n = (p.sizes[k % p.sizes.len()].max(1) as usize).min(scratch.len());
                    k += 1;
                    match f.data.read(&mut scratch[..n]) {
                        Ok(0) => break,
                        Ok(m) => {
                            if scratch[..m] != data[start + got..start + got + m] {
                                return Err("wrong contents".into());
                            }
                            got += m
                        }
                        Err(e) => return Err(format!("read error: {}", e)),
                    }
                    ahead(start + got, "reading")?;
                }
                if stop == usize::MAX && start + got != end {
                    return Err(format!("read {} bytes of {}", got, end - start));
                }
            }
            2 => {
                obs.class("fill_buf/consume");
                let mut k = 0;
                loop {
                    let n = p.sizes[k % p.sizes.len()].max(1) as usize;
                    k += 1;
                    let m = match f.data.fill_buf() {
                        Ok(b) if b.is_empty() => break,
                        Ok(b) => b.len().min(n),
                        Err(e) => return Err(format!("fill_buf error: {}", e)),
                    };
                    ahead(start + got, "fill_buf")?;
                    f.data.consume(m);
                    got += m;
                }
                if start + got != end {
                    return Err(format!("read {} bytes of {}", got, end - start));
                }
            }
            4 => {
                obs.class("write_to");
                match f.data.save().size_limit(None).write_to(io::sink()) {
                    SaveResult::Full(n) if n as usize == end - start => {}
                    other => return Err(format!("write_to of {} bytes gave {:?}", end - start, other)),
                }
            }
            5 => {
                obs.class("save to a file");
                match f.data.save().size_limit(None).with_path(dir.path().join(format!("o{}", i))) {
                    SaveResult::Full(s) if s.size() as usize == end - start => {}
                    other => return Err(format!("saving {} bytes gave {:?}", end - start, other)),
                }
            }
            _ => {
                obs.class("save with a limit");
                match f.data.save().size_limit(5000).memory_threshold(u64::max_value()).with_path(dir.path().join(format!("o{}", i))) {
                    SaveResult::Full(_) | SaveResult::Partial(..) => {}
                    SaveResult::Error(e) => return Err(format!("saving {} bytes gave {}", end - start, e)),
                }
                ahead(start + 5000, "saving 5000 bytes")?;
            }
        }
        ahead(end, "a part was processed")?;
        let peak = alloc::peak_since(mark);
        if peak > MEMORY {
            return Err(format!("{} bytes of memory were held while part {} of {} bytes was processed", peak, i, end - start));
        }
    }
    match Multipart::read_entry(&mut mp) {
        Ok(None) => {}
        Ok(Some(_)) => return Err("an extra part".into()),
        Err(e) => return Err(format!("error at the end: {}", e)),
    }
    ahead(spans.last().unwrap().1, "the end was reported")?;
    drop(mp);
    let peak = alloc::peak_since(mark);
    if peak > MEMORY {
        return Err(format!("{} bytes of memory were held for a body of {} bytes", peak, data.len()));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LazyBig {
    /// (KiB, chunk)
    streams: Vec<(u16, Chunk)>,
    text: u16,
    reads: Vec<u16>,
    /// KiB of files added by path
    #[serde(default)]
    files: Vec<u16>,
}

fn lazy_big() -> BoxedStrategy<LazyBig> {
    (
        proptest::collection::vec((prop_oneof![2 => 0u16..4, 2 => 200u16..600],
            prop_oneof![3 => Just(Chunk::Full), 2 => (100u16..9000).prop_map(Chunk::Fixed)]), 0..5),
        0u16..300,
        proptest::collection::vec(prop_oneof![2 => 1u16..20, 3 => 100u16..9000, 2 => 8000u16..40000], 1..4),
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(prop_oneof![1 => 0u16..4, 2 => 200u16..800], 1..3)],
    )
        .prop_map(|(streams, text, mut reads, files)| {
            // keep the number of reads of big bodies reasonable
            if streams.iter().map(|s| s.0 as usize).sum::<usize>() + files.iter().map(|s| *s as usize).sum::<usize>() > 100 {
                reads.push(16384);
            }
            LazyBig { streams, text, reads, files }
        })
        .boxed()
}

/// A stream of `left` bytes that holds almost no memory.
struct Zeros {
    left: usize,
    chunk: usize,
    stats: Rc<std::cell::RefCell<SrcStats>>,
}

impl Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut st = self.stats.borrow_mut();
        st.reads += 1;
        let n = buf.len().min(self.left).min(self.chunk);
        for b in &mut buf[..n] {
            *b = b'0';
        }
        self.left -= n;
        st.pulled += n;
        if n == 0 && !buf.is_empty() {
            st.eof = true;
        }
        Ok(n)
    }
}

impl Drop for Zeros {
    fn drop(&mut self) {
        self.stats.borrow_mut().dropped = true;
    }
}

fn zeros(s: &(u16, Chunk)) -> Zeros {
    Zeros {
        left: (s.0 as usize) << 10,
        chunk: match s.1 {
            Chunk::Fixed(n) => n.max(1) as usize,
            _ => usize::MAX,
        },
        stats: Rc::default(),
    }
}

fn eval_lazy_big(c: &LazyBig, obs: &mut Obs) -> Outcome {
    let total: usize = c.streams.iter().map(|s| (s.0 as usize) << 10).sum();
    obs.nt(!c.streams.is_empty() || !c.files.is_empty());
    let in_files: usize = c.files.iter().map(|n| (*n as usize) << 10).sum();
    obs.class_if(total > MEMORY as usize, "larger than the memory bound");
    obs.class_if(in_files > MEMORY as usize, "files larger than the memory bound");
    let text = "t".repeat(c.text as usize);
    let dir = if c.files.is_empty() { None } else { Some(CaseDir::new()) };
    let mut paths = vec![];
    for (i, n) in c.files.iter().enumerate() {
        let p = dir.as_ref().unwrap().path().join(format!("file{}", i));
        fs::File::create(&p).and_then(|f| f.set_len((*n as u64) << 10)).map_err(|e| format!("harness: {}", e))?;
        paths.push(p);
    }
    let open_files = || fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0);
    let fds = open_files();
    let mut scratch = vec![0u8; 64 << 10];
    let mark = alloc::mark();
    let mut mp = lazy::Multipart::new();
    let mut stats = vec![];
    mp.add_text("t", &text[..]);
    for (i, s) in c.streams.iter().enumerate() {
        let z = zeros(s);
        stats.push(z.stats.clone());
        mp.add_stream(format!("s{}", i), z, None::<String>, None);
    }
    for (i, p) in paths.iter().enumerate() {
        mp.add_file(format!("f{}", i), &**p);
    }
    if open_files() != fds {
        return Err("adding a file opened it".into());
    }
    let untouched = |when: &str| -> Outcome {
        for (i, s) in stats.iter().enumerate() {
            if s.borrow().reads > 0 {
                return Err(format!("stream {} was read {}", i, when));
            }
            if s.borrow().dropped {
                return Err(format!("stream {} was dropped {}", i, when));
            }
        }
        Ok(())
    };
    untouched("when it was added")?;
    let mut p = mp.prepare().map_err(|e| format!("prepare: {}", e))?;
    untouched("by prepare()")?;
    let mut delivered = 0usize;
    let mut nul = 0usize;
    let mut i = 0;
    loop {
        let n = (c.reads[i % c.reads.len()].max(1) as usize).min(scratch.len());
        i += 1;
        let k = p.read(&mut scratch[..n]).map_err(|e| format!("read: {}", e))?;
        delivered += k;
        nul += scratch[..k].iter().filter(|b| **b == 0).count();
        let pulled: usize = stats.iter().map(|s| s.borrow().pulled).sum();
        if pulled > delivered {
            return Err(format!("{} bytes were pulled from the streams, {} delivered", pulled, delivered));
        }
        for (j, s) in stats.iter().enumerate() {
            let s = s.borrow();
            if s.eof && !s.dropped {
                return Err(format!("stream {} reported its end but is still held", j));
            }
        }
        // at most one stream is in use at a time
        let open = stats.iter().filter(|s| s.borrow().reads > 0 && !s.borrow().dropped).count();
        if open > 1 {
            return Err(format!("{} streams are being read at the same time", open));
        }
        if k == 0 {
            break;
        }
    }
    for (j, s) in stats.iter().enumerate() {
        if !s.borrow().dropped {
            return Err(format!("stream {} is still held after the body was read", j));
        }
    }
    let pulled: usize = stats.iter().map(|s| s.borrow().pulled).sum();
    if pulled != total {
        return Err(format!("{} of {} bytes were pulled from the streams", pulled, total));
    }
    if nul != in_files {
        return Err(format!("{} of {} bytes came from the files", nul, in_files));
    }
    if open_files() != fds {
        return Err("a file is still open after the body was read".into());
    }
    let peak = alloc::peak_since(mark);
    if peak > MEMORY {
        return Err(format!("{} bytes of memory were held for {} bytes of streams", peak, total));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FwdCase {
    texts: Vec<u16>,
    streams: Vec<(u16, Chunk)>,
    lazy: bool,
}

fn fwd_case() -> BoxedStrategy<FwdCase> {
    (proptest::collection::vec(prop_oneof![0u16..50, 0u16..20000], 0..3),
     proptest::collection::vec((prop_oneof![2 => 0u16..4, 2 => 200u16..500],
        prop_oneof![3 => Just(Chunk::Full), 2 => (100u16..9000).prop_map(Chunk::Fixed)]), 0..4), any::<bool>())
        .prop_map(|(texts, streams, lazy)| FwdCase { texts, streams, lazy })
        .boxed()
}

/// A transport that only counts.
struct CountReq(Rc<std::cell::Cell<usize>>);
struct CountStream(Rc<std::cell::Cell<usize>>);

impl client::HttpRequest for CountReq {
    type Stream = CountStream;
    type Error = io::Error;
    fn apply_headers(&mut self, _: &str, _: Option<u64>) -> bool {
        true
    }
    fn open_stream(self) -> Result<CountStream, io::Error> {
        Ok(CountStream(self.0))
    }
}

impl Write for CountStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.set(self.0.get() + b.len());
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl client::HttpStream for CountStream {
    type Request = CountReq;
    type Response = ();
    type Error = io::Error;
    fn finish(self) -> Result<(), io::Error> {
        Ok(())
    }
}

/// A stream that checks how far the transport lags behind.
struct Lag {
    z: Zeros,
    before: usize,
    out: Rc<std::cell::Cell<usize>>,
    worst: Rc<std::cell::Cell<usize>>,
}

impl Read for Lag {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let pulled = self.z.stats.borrow().pulled;
        let sent = self.out.get().saturating_sub(self.before);
        self.worst.set(self.worst.get().max(pulled.saturating_sub(sent)));
        self.z.read(b)
    }
}

fn eval_fwd(c: &FwdCase, obs: &mut Obs) -> Outcome {
    obs.nt(!c.streams.is_empty() || !c.texts.is_empty());
    let texts: Vec<String> = c.texts.iter().map(|n| "t".repeat(*n as usize)).collect();
    let out = Rc::new(std::cell::Cell::new(0usize));
    let worst = Rc::new(std::cell::Cell::new(0usize));
    let mark = alloc::mark();
    let total: usize = texts.iter().map(|t| t.len()).sum::<usize>() + c.streams.iter().map(|s| (s.0 as usize) << 10).sum::<usize>();
    let lag = |s: &(u16, Chunk), before: usize| Lag { z: zeros(s), before, out: out.clone(), worst: worst.clone() };
    if c.lazy {
        obs.class("lazy send");
        let mut mp = lazy::Multipart::new();
        for t in &texts {
            mp.add_text("t", &t[..]);
        }
        for s in &c.streams {
            // all text comes with the headers; what matters is that streams do not pile up
            mp.add_stream("s", zeros(s), None::<String>, None);
        }
        mp.send(CountReq(out.clone())).map_err(|e| format!("send: {}", e))?;
    } else {
        obs.class("streaming");
        let mut mp = client::Multipart::from_request(CountReq(out.clone())).map_err(|e| format!("{}", e))?;
        let mut floor = 0;
        for t in &texts {
            mp.write_text("t", t).map_err(|e| format!("{}", e))?;
            floor += t.len();
            if out.get() < floor {
                return Err(format!("only {} bytes were forwarded after {} bytes of text were written", out.get(), floor));
            }
        }
        for s in &c.streams {
            mp.write_stream("s", &mut lag(s, out.get()), None, None).map_err(|e| format!("{}", e))?;
            floor += (s.0 as usize) << 10;
            if out.get() < floor {
                return Err(format!("only {} bytes were forwarded after {} bytes of contents were written", out.get(), floor));
            }
        }
        if worst.get() > READ_AHEAD {
            return Err(format!("the transport was {} bytes behind the source of a field", worst.get()));
        }
        mp.send().map_err(|e| format!("send: {}", e))?;
    }
    if out.get() < total {
        return Err(format!("{} bytes sent for {} bytes of contents", out.get(), total));
    }
    let peak = alloc::peak_since(mark);
    let texts_len: usize = texts.iter().map(|t| t.len()).sum();
    if peak > MEMORY + 4 * texts_len as isize {
        return Err(format!("{} bytes of memory were held while sending {} bytes", peak, total));
    }
    Ok(())
}

pub fn m27() -> Vec<Facet> {
    vec![
        facet("server", "a body more than four times the read-ahead bound", 5_000, 120_000, big_case, eval_big),
        facet("lazy", "at least one stream", 8_000, 250_000, lazy_big, eval_lazy_big),
        facet("forward", "at least one field", 8_000, 250_000, fwd_case, eval_fwd),
    ]
}
