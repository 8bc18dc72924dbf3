//! M19, M20, M21: the web framework integrations.

use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use crate::fsx::{self, CaseDir};
use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::net::NetworkStream;
use hyper::server::{Handler, Request as HyperReq, Response as HyperRes};
use multipart::server::hyper::{MultipartHandler, Switch};
use multipart::server::iron::{FileCountLimitError, FileSizeLimitError, Intercept, LimitBehavior};
use multipart::server::nickel::{Maybe, MultipartBody};
use multipart::server::{Entries, HttpRequest, Multipart};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::fs;
use std::io::{self, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

use super::errors::KINDS;
use super::save::{check_headers, lim, read_back, plain, relative, save_body, mixed_content, Lim};

// ------------------------------------------------------------------------------------ transport

/// One end of a connection: reads what was scripted, keeps what is written.
pub struct Mock {
    pub input: ScriptedReader,
    pub out: Arc<Mutex<Vec<u8>>>,
    pub plan: Vec<u16>,
    pub no: usize,
    /// writes fail once this many bytes were written
    pub fault: Option<(usize, io::ErrorKind)>,
}

impl Mock {
    pub fn new(data: Vec<u8>, chunk: &Chunk) -> Mock {
        Mock { input: ScriptedReader::new(Arc::new(data), chunk, &[]), out: Arc::default(), plan: vec![], no: 0, fault: None }
    }
}

impl Read for Mock {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.input.read(b)
    }
}

impl Write for Mock {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if self.plan.is_empty() || b.is_empty() { b.len() } else {
            self.no += 1;
            (self.plan[(self.no - 1) % self.plan.len()].max(1) as usize).min(b.len())
        };
        let mut out = self.out.lock().unwrap();
        let n = match self.fault {
            Some((at, k)) if out.len() >= at => return Err(io::Error::new(k, "injected")),
            Some((at, _)) => n.min(at - out.len()),
            None => n,
        };
        out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn addr() -> SocketAddr {
    "127.0.0.1:80".parse().unwrap()
}

impl NetworkStream for Mock {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(addr())
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

/// Body framing: `Content-Length`, or chunks of these sizes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Framing {
    Length,
    Chunked(Vec<u16>),
}

fn framing() -> BoxedStrategy<Framing> {
    prop_oneof![
        2 => Just(Framing::Length),
        1 => proptest::collection::vec(prop_oneof![1u16..20, 1u16..3000], 1..4).prop_map(Framing::Chunked),
    ]
    .boxed()
}

fn framed(body: &[u8], f: &Framing) -> (String, Vec<u8>) {
    match f {
        Framing::Length => (format!("Content-Length: {}", body.len()), body.to_vec()),
        Framing::Chunked(v) => {
            let mut out = Vec::new();
            let mut rest = body;
            let mut i = 0;
            while !rest.is_empty() {
                let n = (v[i % v.len()].max(1) as usize).min(rest.len());
                i += 1;
                out.extend(format!("{:x}\r\n", n).into_bytes());
                out.extend_from_slice(&rest[..n]);
                out.extend_from_slice(b"\r\n");
                rest = &rest[n..];
            }
            out.extend_from_slice(b"0\r\n\r\n");
            ("Transfer-Encoding: chunked".into(), out)
        }
    }
}

// ------------------------------------------------------------------------------------ M19

/// A parameter besides the boundary.
pub const OTHERS: &[&str] = &[
    "charset=utf-8", "charset=\"utf-8\"", "charset=UTF-8", "x=y", "x=\"a; boundary=evil\"", "xboundary=evil", "boundaryx=evil", "x-boundary=evil",
    "x=\"a\\\"; boundary=evil\"", "type=\"text/plain\"", "start=\"<a@b>\"", "x=\"boundary=evil\"", "q=0.5", "a=\"\"", "boundary-=evil", "x=\"\\\\\"",
    "form-data=multipart", "x='a'", "boundary*=utf-8''evil", "boundary*0=evil",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ct {
    Absent,
    /// multipart/form-data with a boundary
    Good { case: u8, pcase: u8, quoted: bool, before: Vec<u8>, after: Vec<u8>, sep: u8, tail: u8, special: u8 },
    /// something else
    Bad { kind: u8, case: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DetectCase {
    pub via: u8,
    pub method: u8,
    pub ct: Ct,
    pub header_case: u8,
    pub decoy: bool,
    pub body: Body,
    pub framing: Framing,
    pub chunk: Chunk,
}

const METHODS: &[&str] = &["POST", "GET", "PUT", "PATCH", "DELETE", "OPTIONS", "POSTX", "XPOST", "REPORT"];

fn recase(s: &str, k: u8) -> String {
    match k % 4 {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

fn is_token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b))
}

const SPECIAL: &[&str] = &["utf-8", "UTF-8", "boundary", "form-data", "charset", "a b", "x; y", "boundary=z", "=_Part_1", "(a)", "'q'", "-", "AbCdEf", "gzip", "*"];
const SEPS2: &[&str] = &["; ", ";", " ; ", ";  ", " ;", ";\t"];

fn bad_types(b: &str) -> Vec<String> {
    vec![
        format!("multipart/mixed; boundary={}", b),
        format!("multipart/form-datax; boundary={}", b),
        format!("xmultipart/form-data; boundary={}", b),
        format!("multipart/form-data-x; boundary={}", b),
        format!("multipart/form; boundary={}", b),
        format!("text/plain; boundary={}", b),
        format!("application/x-www-form-urlencoded; boundary={}", b),
        format!("multipart/related; type=\"multipart/form-data\"; boundary={}", b),
        format!("text/plain; x=\"multipart/form-data; boundary={}\"", b),
        "multipart/form-data".into(),
        "multipart/form-data;".into(),
        format!("multipart/form-data; xboundary={}", b),
        format!("multipart/form-data; boundaryx={}", b),
        format!("multipart/form-data; x=\"boundary={}\"", b),
        format!("multipart/form-data; x=\"a; boundary={}\"", b),
        format!("multipart/form-data; x=\"a\\\"; boundary={}\"", b),
        "multipart/form-data; boundary=\"\"".into(),
        "multipart/form-data; boundary=".into(),
        format!("multipart/form-data boundary={}", b),
        format!("form-data; boundary={}", b),
        format!("multipart; boundary={}", b),
        "application/json".into(),
        "text/html; charset=utf-8".into(),
        "multipart/form-data; charset=utf-8".into(),
        "multipart/form-data; boundary".into(),
        format!("multipart/byteranges; boundary={}", b),
        format!("multipart/alternative; x=form-data; boundary={}", b),
        format!("application/form-data; boundary={}", b),
        format!("boundary={}", b),
    ]
}

fn ct() -> BoxedStrategy<Ct> {
    let others = || prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(0u8..OTHERS.len() as u8, 1..4)];
    prop_oneof![
        1 => Just(Ct::Absent),
        12 => (0u8..4, 0u8..4, any::<bool>(), others(), others(), 0u8..SEPS2.len() as u8, 0u8..12, 0u8..60)
            .prop_map(|(case, pcase, quoted, before, after, sep, tail, special)| Ct::Good { case, pcase, quoted, before, after, sep, tail, special }),
        6 => (any::<u8>(), 0u8..4).prop_map(|(kind, case)| Ct::Bad { kind, case }),
    ]
    .boxed()
}

fn detect_case() -> BoxedStrategy<DetectCase> {
    (
        0u8..14,
        prop_oneof![4 => Just(0u8), 1 => 0u8..METHODS.len() as u8],
        ct(), 0u8..4, prop_oneof![4 => Just(false), 1 => Just(true)],
        body_with(0..3, small_content(), plain_style()),
        framing(), chunk(),
    )
        .prop_map(|(via, method, ct, header_case, decoy, body, framing, chunk)| DetectCase { via, method, ct, header_case, decoy, body, framing, chunk })
        .boxed()
}

/// What the application sees.
enum Seen {
    Multi { boundary: Option<String>, trace: Vec<Ev> },
    Back { boundary: Option<String>, method: String, body: Result<Vec<u8>, String> },
    Nothing,
}

fn rest<R: Read>(mut r: R) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    r.read_to_end(&mut v).map_err(|e| e.to_string())?;
    Ok(v)
}

fn with_hyper<T>(bytes: &[u8], chunk: &Chunk, f: impl FnOnce(HyperReq) -> Result<T, String>) -> Result<T, String> {
    let mut m = Mock::new(bytes.to_vec(), chunk);
    let mut br = BufReader::new(&mut m as &mut dyn NetworkStream);
    let req = HyperReq::new(&mut br, addr()).map_err(|e| format!("harness: the request is not accepted by hyper: {}", e))?;
    f(req)
}

struct Sink(Arc<Mutex<Seen>>);

impl Handler for Sink {
    fn handle<'a, 'k>(&'a self, req: HyperReq<'a, 'k>, _: HyperRes<'a, hyper::net::Fresh>) {
        let method = req.method.to_string();
        let body = rest(req);
        *self.0.lock().unwrap() = Seen::Back { boundary: None, method, body };
    }
}

impl MultipartHandler for Sink {
    fn handle_multipart<'a, 'k>(&self, mut mp: Multipart<HyperReq<'a, 'k>>, _: HyperRes<'a, hyper::net::Fresh>) {
        let t = trace(&mut mp, &[], 1, 1000);
        *self.0.lock().unwrap() = Seen::Multi { boundary: None, trace: t };
    }
}

static TINY: OnceLock<tiny_http::Server> = OnceLock::new();
static TINY_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn tiny(head: &str, body: &[u8]) -> Result<Seen, String> {
    let srv = TINY.get_or_init(|| tiny_http::Server::http("127.0.0.1:0").expect("loopback server"));
    let id = format!("{}-{}", std::process::id(), TINY_NO.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let mut s = match TcpStream::connect(srv.server_addr()) {
        Ok(s) => s,
        Err(_) => return Ok(Seen::Nothing),
    };
    let lin = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lin as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
    let mut msg = format!("{}X-Case-Id: {}\r\n\r\n", head, id).into_bytes();
    msg.extend_from_slice(body);
    if s.write_all(&msg).is_err() {
        return Ok(Seen::Nothing);
    }
    let mut req = loop {
        match srv.recv_timeout(Duration::from_secs(20)) {
            Ok(Some(r)) => {
                if r.headers().iter().any(|h| h.field.equiv("X-Case-Id") && h.value.as_str() == id) {
                    break r;
                }
            }
            _ => return Ok(Seen::Nothing),
        }
    };
    let boundary = (&mut req).multipart_boundary().map(String::from);
    let method = req.method().to_string();
    let seen = match Multipart::from_request(&mut req) {
        Ok(mut mp) => Seen::Multi { boundary, trace: trace(&mut mp, &[], 1, 1000) },
        Err(r) => Seen::Back { boundary, method, body: rest(r.as_reader()) },
    };
    Ok(seen)
}

fn eval_detect(c: &DetectCase, obs: &mut Obs) -> Outcome {
    let mut b = c.body.clone();
    if let Ct::Good { special, .. } = &c.ct {
        if let Some(s) = SPECIAL.get(*special as usize) {
            b.boundary = s.to_string();
        }
    }
    let method = METHODS[c.method as usize % METHODS.len()];
    let value = match &c.ct {
        Ct::Absent => None,
        Ct::Good { case, pcase, quoted, before, after, sep, tail, .. } => {
            let sep = SEPS2[*sep as usize % SEPS2.len()];
            let mut v = recase("multipart/form-data", *case);
            let all: Vec<String> = before.iter().map(|i| OTHERS[*i as usize % OTHERS.len()].to_string())
                .chain(Some(format!("{}={}", recase("boundary", *pcase), if *quoted || !is_token(&b.boundary) { format!("\"{}\"", b.boundary) } else { b.boundary.clone() })))
                .chain(after.iter().map(|i| OTHERS[*i as usize % OTHERS.len()].to_string()))
                .collect();
            for p in all {
                v.push_str(sep);
                v.push_str(&p);
            }
            v.push_str(["", ";", " "].get(*tail as usize).unwrap_or(&""));
            Some(v)
        }
        Ct::Bad { kind, case } => {
            let bad = bad_types(if is_token(&b.boundary) { &b.boundary } else { "abc" });
            let v = &bad[*kind as usize % bad.len()];
            // only the media type is recased
            let at = v.find(';').unwrap_or(v.len());
            Some(format!("{}{}", recase(&v[..at], *case), &v[at..]))
        }
    };
    let r = b.render();
    let good = matches!(c.ct, Ct::Good { .. }) && method == "POST";
    // tiny_http's chunked decoder blocks on the connection when it is read after its end
    let (fh, wire) = framed(&r.bytes, if c.via > 10 { &Framing::Length } else { &c.framing });
    let mut head = format!("{} /upload?x=boundary HTTP/1.1\r\nHost: localhost\r\n{}\r\n", method, fh);
    if c.decoy {
        head.push_str("X-Content-Type: multipart/form-data; boundary=decoy\r\nAccept: multipart/form-data; boundary=decoy\r\n");
    }
    if let Some(v) = &value {
        head.push_str(&format!("{}: {}\r\n", recase("Content-Type", c.header_case), v));
    }
    let mut full = format!("{}\r\n", head).into_bytes();
    full.extend_from_slice(&wire);

    let (label, seen) = match c.via {
        0 | 1 => ("hyper by value", with_hyper(&full, &c.chunk, |req| {
            let boundary = req.multipart_boundary().map(String::from);
            Ok(match Multipart::from_request(req) {
                Ok(mut mp) => Seen::Multi { boundary, trace: trace(&mut mp, &[], 1, 1000) },
                Err(req) => Seen::Back { boundary, method: req.method.to_string(), body: rest(req) },
            })
        })?),
        2 | 3 => ("hyper by reference", with_hyper(&full, &c.chunk, |mut req| {
            let boundary = (&mut req).multipart_boundary().map(String::from);
            Ok(match Multipart::from_request(&mut req) {
                Ok(mut mp) => Seen::Multi { boundary, trace: trace(&mut mp, &[], 1, 1000) },
                Err(req) => Seen::Back { boundary, method: req.method.to_string(), body: rest(req) },
            })
        })?),
        4 | 5 => ("hyper switch", {
            let cell = Arc::new(Mutex::new(Seen::Nothing));
            let sw = Switch::new(Sink(cell.clone()), Sink(cell.clone()));
            with_hyper(&full, &c.chunk, |req| {
                let mut out: Vec<u8> = vec![];
                let mut h = Headers::new();
                sw.handle(req, HyperRes::new(&mut out, &mut h));
                Ok(())
            })?;
            let s = std::mem::replace(&mut *cell.lock().unwrap(), Seen::Nothing);
            if let Seen::Nothing = s {
                return Err("the switch called neither handler".into());
            }
            s
        }),
        6 | 7 => ("iron", with_hyper(&full, &c.chunk, |req| {
            let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).map_err(|e| format!("harness: iron: {}", e))?;
            let boundary = (&mut req).multipart_boundary().map(String::from);
            Ok(match Multipart::from_request(&mut req) {
                Ok(mut mp) => Seen::Multi { boundary, trace: trace(&mut mp, &[], 1, 1000) },
                Err(req) => Seen::Back { boundary, method: req.method.to_string(), body: rest(&mut req.body) },
            })
        })?),
        8 | 9 => ("nickel", with_hyper(&full, &c.chunk, |req| {
            let data = ();
            let mut req = nickel::Request::from_internal(req, &data);
            let boundary = Maybe(&mut req).multipart_boundary().map(String::from);
            Ok(match Multipart::from_request(Maybe(&mut req)) {
                Ok(mut mp) => Seen::Multi { boundary, trace: trace(&mut mp, &[], 1, 1000) },
                Err(m) => {
                    let req: &mut nickel::Request<()> = m.into();
                    Seen::Back { boundary, method: req.origin.method.to_string(), body: rest(&mut req.origin) }
                }
            })
        })?),
        10 => ("nickel multipart_body", with_hyper(&full, &c.chunk, |req| {
            let data = ();
            let mut req = nickel::Request::from_internal(req, &data);
            let boundary = Maybe(&mut req).multipart_boundary().map(String::from);
            let t = req.multipart_body().map(|mut mp| trace(&mut mp, &[], 1, 1000));
            Ok(match t {
                Some(trace) => Seen::Multi { boundary, trace },
                None => Seen::Back { boundary, method: req.origin.method.to_string(), body: rest(&mut req.origin) },
            })
        })?),
        _ => ("tiny_http", tiny(&head, &wire)?),
    };
    obs.class(label);
    let want = expected(&r);
    obs.class_if(good, "multipart");
    obs.class_if(!good, "not multipart");
    obs.class_if(matches!(c.ct, Ct::Good { .. }) && !good, "multipart type, other method");
    obs.class_if(matches!(&c.ct, Ct::Good { before, .. } if !before.is_empty()), "parameters before the boundary");
    obs.class_if(value.as_ref().map_or(false, |v| v.contains('"')), "quoted value");
    obs.class_if(matches!(c.ct, Ct::Bad { .. }), "other or look-alike type");
    obs.nt(value.as_ref().map_or(false, |v| v.to_ascii_lowercase().contains("boundary")));
    let what = format!("{} {} with Content-Type {:?}", label, method, value);
    match seen {
        Seen::Nothing => {
            obs.class("not delivered");
            Ok(())
        }
        Seen::Multi { boundary, trace } => {
            if !good {
                return Err(format!("{} was accepted as multipart", what));
            }
            if let Some(bnd) = &boundary {
                if *bnd != b.boundary {
                    return Err(format!("{}: boundary {:?}, want {:?}", what, bnd, b.boundary));
                }
            } else if label != "hyper switch" {
                return Err(format!("{}: accepted without a boundary", what));
            }
            cmp_trace(&trace, &want).map_err(|m| format!("{}: {}", what, m))
        }
        Seen::Back { boundary, method: m, body } => {
            if good {
                return Err(format!("{} was not accepted as multipart", what));
            }
            if boundary.is_some() {
                return Err(format!("{}: refused, yet its boundary is {:?}", what, boundary));
            }
            if m != method {
                return Err(format!("{}: handed back as {}", what, m));
            }
            match body {
                Ok(v) if v == r.bytes => Ok(()),
                Ok(v) => Err(format!("{}: handed back with a different body: {}", what, diff(&v, &r.bytes))),
                Err(e) => Err(format!("{}: reading the body of the request handed back: {}", what, e)),
            }
        }
    }
}

pub fn m19() -> Vec<Facet> {
    vec![facet("detect", "a Content-Type that mentions a boundary", 500_000, 10_000_000, detect_case, eval_detect)]
}

// ------------------------------------------------------------------------------------ M20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IronCase {
    pub body: Body,
    pub chunk: Chunk,
    pub framing: Framing,
    pub size: Lim,
    pub count: Lim,
    pub lenient: bool,
    /// 0 none, 1 existing, 2.. missing levels, 9 a path that cannot be a directory
    pub tmp: u8,
    /// where the body is cut (a fraction of its length), if it is
    pub cut: Option<u16>,
    /// 0 multipart, 1 other method, 2 other type, 3 no type
    pub other: u8,
    /// order in which the settings are made
    pub order: u8,
    /// requests handled by the same middleware
    pub repeat: u8,
}

fn iron_case() -> BoxedStrategy<IronCase> {
    (
        (save_body(mixed_content(), 0..7), chunk(), framing()),
        (prop_oneof![1 => Just(Lim::Default), 3 => lim()], prop_oneof![1 => Just(Lim::Default), 2 => (0u32..4).prop_map(Lim::Abs), 3 => (any::<u8>(), -3i8..3).prop_map(|(a, b)| Lim::Rel(a, b))]),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 3 => 2u8..5, 1 => Just(9u8)],
        prop_oneof![5 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![8 => Just(0u8), 1 => 1u8..4],
        any::<u8>(), prop_oneof![4 => Just(1u8), 1 => Just(2u8)],
    )
        .prop_map(|((body, chunk, framing), (size, count), lenient, tmp, cut, other, order, repeat)| IronCase { body, chunk, framing, size, count, lenient, tmp, cut, other, order, repeat })
        .boxed()
}

fn many_case() -> BoxedStrategy<IronCase> {
    // around the default limits
    (
        prop_oneof![3 => 14usize..19, 1 => 0usize..20], any::<bool>(), chunk(), framing(), 0u8..3, prop_oneof![3 => Just(false), 1 => Just(true)], -2i8..3,
    )
        .prop_map(|(n, lenient, chunk, framing, tmp, big, d)| {
            let parts = (0..n)
                .map(|i| Part {
                    name: format!("f{}", i % 5), filename: None, mime: None, style: HStyle::default(),
                    // around the default limit of 2 MiB
                    content: if big && i == 1 {
                        let mut v: Vec<Seg> = (0..32).map(|k| Seg::R(k, 65535)).collect();
                        v.push(Seg::Rep(b'x', (32 + d as i32) as u16));
                        v
                    } else { vec![Seg::Lit(format!("v{}", i))] },
                })
                .collect();
            IronCase {
                body: Body { boundary: "MANY".into(), preamble: None, parts, epilogue: 1 },
                chunk, framing, size: Lim::Default, count: Lim::Default, lenient, tmp, cut: None, other: 0, order: 0, repeat: 1,
            }
        })
        .boxed()
}

/// Hundreds of fields, some of them over the size limit.
fn crowd_case() -> BoxedStrategy<IronCase> {
    (
        prop_oneof![3 => 250usize..264, 1 => 100usize..600], proptest::collection::vec(any::<u16>(), 0..4), prop_oneof![3 => Just(true), 1 => Just(false)], chunk(), framing(), 0u8..3,
        prop_oneof![1 => Just(Lim::Default), 1 => Just(Lim::Abs(3)), 2 => (any::<u8>(), -3i8..3).prop_map(|(a, b)| Lim::Rel(a, b))], any::<u8>(),
    )
        .prop_map(|(n, long, lenient, chunk, framing, tmp, count, order)| {
            let parts = (0..n)
                .map(|i| Part {
                    name: format!("f{}", i % 7), filename: None, mime: None, style: HStyle::default(),
                    content: vec![Seg::Lit(if long.iter().any(|l| *l as usize % n == i) { format!("value{}", i) } else { format!("{}", i) })],
                })
                .collect();
            IronCase {
                body: Body { boundary: "CROWD".into(), preamble: None, parts, epilogue: 1 },
                chunk, framing, size: Lim::Abs(4), count, lenient, tmp, cut: None, other: 0, order, repeat: 1,
            }
        })
        .boxed()
}

fn eval_iron(c: &IronCase, obs: &mut Obs) -> Outcome {
    use iron::BeforeMiddleware;
    let r = c.body.render();
    let d = CaseDir::new();
    fsx::clean_tmp();
    let size = c.size.resolve(&r).map(|x| x.unwrap_or(u64::max_value()));
    let count = match c.count {
        Lim::Default => None,
        Lim::Rel(_, k) => Some((r.parts.len() as i64 + k as i64).max(0) as u32),
        _ => c.count.resolve(&r).map(|x| x.unwrap_or(u32::max_value() as u64) as u32),
    };
    let blocked = d.path().join("blocker");
    let parent: Option<PathBuf> = match c.tmp {
        0 => None,
        1 => Some(d.path().to_path_buf()),
        9 => {
            fs::write(&blocked, b"x").unwrap();
            Some(blocked.join("sub"))
        }
        n => {
            let mut p = d.path().to_path_buf();
            for i in 1..n {
                p = p.join(format!("m{}", i));
            }
            Some(p)
        }
    };
    let parent = parent.map(|p| if c.order & 8 != 0 { relative(&p) } else { p });
    obs.class_if(c.order & 8 != 0 && parent.is_some(), "relative directory");
    let mut ic = Intercept::default();
    for step in 0..4 {
        match (step + c.order % 4) % 4 {
            0 => if let Some(p) = &parent { ic = ic.temp_dir_path(p.clone()) },
            1 => if let Some(s) = size { ic = ic.file_size_limit(s) },
            2 => if let Some(n) = count { ic = ic.file_count_limit(n) },
            _ => {
                if c.lenient {
                    ic = ic.limit_behavior(LimitBehavior::Continue)
                } else if c.order & 4 != 0 {
                    ic = ic.limit_behavior(LimitBehavior::ThrowError)
                }
            }
        }
    }
    let size = size.unwrap_or(2 * 1024 * 1024);
    let count = count.unwrap_or(16) as usize;
    let lower = if r.parts.is_empty() { 0 } else { r.parts[0].delim_at };
    let cut = c.cut.map(|f| lower + (r.complete_at - lower).saturating_sub(1) * f as usize / 65536).filter(|_| c.other == 0);
    for _ in 0..c.repeat.max(1) {
        one_iron(c, &ic, &r, &d, parent.as_deref(), size, count, cut, obs)?;
    }
    Ok(())
}

fn one_iron(c: &IronCase, ic: &Intercept, r: &Rendered, d: &CaseDir, parent: Option<&Path>, size: u64, count: usize, cut: Option<usize>, obs: &mut Obs) -> Outcome {
    use iron::BeforeMiddleware;
    let body = &r.bytes[..cut.unwrap_or(r.bytes.len())];
    let (fh, wire) = framed(body, &c.framing);
    let ctype = match c.other {
        2 => "Content-Type: text/plain; boundary=abc\r\n".to_string(),
        3 => String::new(),
        _ => format!("Content-Type: multipart/form-data; boundary=\"{}\"\r\n", r.boundary),
    };
    let mut full = format!("{} /up HTTP/1.1\r\nHost: localhost\r\n{}\r\n{}\r\n", if c.other == 1 { "PUT" } else { "POST" }, fh, ctype).into_bytes();
    full.extend_from_slice(&wire);
    let before = fsx::tree(d.path());
    let over_size = r.parts.iter().enumerate().position(|(i, _)| r.content(i).len() as u64 > size);
    let over_count = if r.parts.len() > count { Some(count) } else { None };
    obs.class(if c.lenient { "lenient" } else { "strict" });
    obs.class_if(over_size.is_some(), "a field over the size limit");
    obs.class_if(over_count.is_some(), "more fields than the count limit");
    obs.class_if(cut.is_some(), "truncated");
    obs.class_if(c.tmp >= 2 && c.tmp != 9, "missing parent directory");
    obs.class_if(c.other != 0, "not multipart");
    obs.nt(over_size.is_some() || over_count.is_some() || cut.is_some() || (c.tmp >= 2 && c.tmp != 9) || c.other != 0);

    with_hyper(&full, &c.chunk, |req| {
        let mut req = iron::Request::from_http(req, addr(), &iron::Protocol::http()).map_err(|e| format!("harness: iron: {}", e))?;
        let res = ic.before(&mut req);
        let nothing_left = |what: &str| -> Outcome {
            let t = fsx::list(&fsx::tmp());
            if !t.is_empty() {
                return Err(format!("{}: left in the OS temporary directory: {:?}", what, t));
            }
            // the parent directory itself may have been created
            for (p, n) in fsx::tree(d.path()) {
                let is_parent = parent.map_or(false, |q| plain(q).starts_with(&p)) && n == fsx::Node::Dir;
                if !before.contains_key(&p) && !is_parent {
                    return Err(format!("{}: left {:?}", what, p));
                }
            }
            Ok(())
        };
        if c.other != 0 {
            if let Err(e) = res {
                return Err(format!("a request that is not multipart failed: {}", e));
            }
            if req.extensions.contains::<Entries>() {
                return Err("entries were attached to a request that is not multipart".into());
            }
            let v = rest(&mut req.body)?;
            if v != body {
                return Err(format!("the body of a request that is not multipart was touched: {}", diff(&v, body)));
            }
            if fsx::tree(d.path()) != before {
                return Err("a request that is not multipart changed the file system".into());
            }
            return nothing_left("not multipart");
        }
        if c.tmp == 9 {
            return match res {
                Err(_) => nothing_left("unusable temporary directory"),
                Ok(()) => Err("succeeded although its temporary directory cannot be created".into()),
            };
        }
        if cut.is_some() {
            return match res {
                Err(_) => {
                    if req.extensions.contains::<Entries>() {
                        return Err("entries were attached to a truncated request".into());
                    }
                    drop(req);
                    nothing_left("truncated request")
                }
                Ok(()) => Err(format!("a truncated request ({} of {} bytes) was accepted", body.len(), r.bytes.len())),
            };
        }
        if !c.lenient && (over_size.is_some() || over_count.is_some()) {
            let e = match res {
                Ok(()) => return Err("a request over a limit was accepted".into()),
                Err(e) => e,
            };
            if req.extensions.contains::<Entries>() {
                return Err("entries were attached to a rejected request".into());
            }
            let size_first = match (over_size, over_count) {
                (Some(s), Some(k)) => s < k,
                (Some(_), None) => true,
                _ => false,
            };
            // what the error and the response say
            let text = e.error.to_string();
            let mut e = e;
            let mut resp = Vec::new();
            if let Some(b) = e.response.body.as_mut() {
                b.write_body(&mut resp).map_err(|e| e.to_string())?;
            }
            let resp = String::from_utf8_lossy(&resp).into_owned();
            let dynerr: &(dyn iron::Error + 'static) = &*e.error;
            if size_first {
                let p = &r.parts[over_size.unwrap()];
                let f = match dynerr.downcast_ref::<FileSizeLimitError>() {
                    Some(f) => f,
                    None => return Err(format!("field {:?} is over the size limit, the error is {:?}", p.name, text)),
                };
                check_headers(&f.field, p).map_err(|m| format!("size limit error: {}", m))?;
                let quoted = format!("field \"{}\"", p.name);
                if !text.contains(&quoted) || !resp.contains(&quoted) {
                    return Err(format!("the size limit error does not name the field {:?}: {:?} / {:?}", p.name, text, resp));
                }
                if let Some(n) = &p.filename {
                    if !text.contains(n.as_str()) {
                        return Err(format!("the size limit error does not name the file {:?}: {:?}", n, text));
                    }
                }
            } else {
                if dynerr.downcast_ref::<FileCountLimitError>().is_none() {
                    return Err(format!("{} fields exceed the limit {}, the error is {:?}", r.parts.len(), count, text));
                }
                if !text.contains(&count.to_string()) || !resp.contains(&count.to_string()) {
                    return Err(format!("the count limit error does not name the limit {}: {:?} / {:?}", count, text, resp));
                }
            }
            return nothing_left("rejected request");
        }
        // accepted
        if let Err(e) = res {
            return Err(format!("{} fields (size limit {}, count limit {}, {}) failed: {}", r.parts.len(), size, count, if c.lenient { "lenient" } else { "strict" }, e));
        }
        {
            let es = match req.extensions.get::<Entries>() {
                Some(e) => e,
                None => return Err("no entries were attached".into()),
            };
            let dir = es.save_dir.as_path().to_path_buf();
            let want_parent = parent.map(|p| p.to_path_buf()).unwrap_or_else(fsx::tmp);
            if plain(&dir).parent() != Some(&*plain(&want_parent)) || !dir.is_dir() || !es.save_dir.is_temporary() {
                return Err(format!("saved to {:?}, want a temporary directory in {:?}", dir, want_parent));
            }
            let mut total = 0;
            let mut files = vec![];
            let mut seen: Vec<&str> = vec![];
            for p in &r.parts {
                if seen.contains(&&*p.name) {
                    continue;
                }
                seen.push(&p.name);
                let mine: Vec<usize> = (0..r.parts.len()).filter(|j| r.parts[*j].name == p.name).collect();
                let got = es.fields.get(&*p.name).ok_or_else(|| format!("field {:?} is missing", p.name))?;
                if got.len() != mine.len() {
                    return Err(format!("field {:?} has {} entries, want {}", p.name, got.len(), mine.len()));
                }
                total += got.len();
                for (g, j) in got.iter().zip(mine) {
                    check_headers(&g.headers, &r.parts[j])?;
                    let want = r.content(j);
                    let want = &want[..want.len().min(size.min(usize::max_value() as u64) as usize)];
                    let v = read_back(&g.data)?;
                    if v != want {
                        return Err(format!("contents of field {} ({:?}, {} bytes sent, limit {}): {}", j, p.name, r.content(j).len(), size, diff(&v, want)));
                    }
                    if let multipart::server::save::SavedData::File(f, _) = &g.data {
                        if !plain(f).starts_with(plain(&dir)) {
                            return Err(format!("saved {:?} outside {:?}", f, dir));
                        }
                        files.push(f.clone());
                    }
                }
            }
            if es.fields.len() != seen.len() || es.fields_count() as usize != total {
                return Err(format!("{} names and a count of {}, want {} and {}", es.fields.len(), es.fields_count(), seen.len(), total));
            }
            super::save::check_dir(&dir, &files)?;
        }
        drop(req);
        nothing_left("after the request was dropped")
    })
}

fn iron_large() -> BoxedStrategy<IronCase> {
    (iron_case(), huge_plan())
        .prop_map(|(c, h)| IronCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), size: c.size.scaled(), repeat: c.repeat % 2, ..c })
        .boxed()
}

pub fn m20() -> Vec<Facet> {
    vec![
        facet("large", "the same with contents of 30-400 kB and limits up to 320 000", 1_500, 30_000, iron_large, eval_iron),
        facet("intercept", "a limit is exceeded, the body is truncated, the temporary directory has to be created, or the request is not multipart",
            100_000, 2_000_000, iron_case, eval_iron),
        facet("crowd", "100-600 fields, up to three of them over the size limit, mostly with the lenient behaviour", 1_200, 20_000, crowd_case, eval_iron),
        facet("defaults", "a field count or a size near the default or configured limit", 3_000, 60_000, many_case, eval_iron),
    ]
}

// ------------------------------------------------------------------------------------ M21

use super::client::{arranged, related, cf, make_file, ref_fields, same_fields, server_fields, sorted, text_of, to_exp, Exp, FileOnDisk, CF, DUMMY};
use hyper::client::Client;
use hyper::method::Method;
use hyper::net::{Fresh, NetworkConnector};
use multipart::client::{lazy, Multipart as ClientMultipart};

/// Connections that record what is written to them and answer 200.
struct Conn {
    outs: Arc<Mutex<Vec<Arc<Mutex<Vec<u8>>>>>>,
    plan: Vec<u16>,
    refuse: Option<io::ErrorKind>,
    fault: Option<(usize, io::ErrorKind)>,
}

const OK_RESPONSE: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-Mark: 1\r\n\r\nok";

impl NetworkConnector for Conn {
    type Stream = Mock;
    fn connect(&self, _: &str, _: u16, _: &str) -> hyper::Result<Mock> {
        if let Some(k) = self.refuse {
            return Err(hyper::Error::Io(io::Error::new(k, "injected")));
        }
        let mut m = Mock::new(OK_RESPONSE.to_vec(), &Chunk::Full);
        m.plan = self.plan.clone();
        m.fault = self.fault;
        self.outs.lock().unwrap().push(m.out.clone());
        Ok(m)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireCase {
    /// 0 plain, 1 sized, 2 lazy send, 3 client_request, 4 client_request_mut, 5 prepared body
    pub mode: u8,
    pub method: u8,
    pub fields: Vec<CF>,
    pub plan: Vec<u16>,
    pub chunk: Chunk,
    pub hows: Vec<How>,
    /// what the closure of client_request_mut / the caller does to the headers
    pub hdr: u8,
    #[serde(default)]
    pub fault: WFault,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub enum WFault {
    #[default]
    None,
    /// the connection cannot be made
    Connect(u8),
    /// the connection fails after this many bytes
    Write(u16, u8),
    /// a stream fails at this position
    Source(u8, u16, u8),
    /// a file does not exist
    Missing(u8),
}

fn wire_case() -> BoxedStrategy<WireCase> {
    (
        0u8..6, prop_oneof![7 => Just(0u8), 1 => 1u8..11], prop_oneof![1 => Just(vec![]), 12 => related(proptest::collection::vec(cf(), 1..6))],
        prop_oneof![1 => Just(vec![]), 1 => proptest::collection::vec(prop_oneof![1u16..8, 1u16..3000], 1..4)],
        chunk(), proptest::collection::vec(how(), 0..3), 0u8..4,
    )
        .prop_map(|(mode, method, fields, plan, chunk, hows, hdr)| WireCase { mode, method, fields, plan, chunk, hows, hdr, fault: WFault::None })
        .boxed()
}

struct WireReq {
    method: String,
    target: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    length: Option<usize>,
}

/// Read one HTTP/1.1 request; nothing may follow it.
fn parse_wire(b: &[u8]) -> Result<WireReq, String> {
    let hend = find(b, b"\r\n\r\n").ok_or_else(|| format!("no complete request head: {}", show(b)))?;
    let head = String::from_utf8(b[..hend].to_vec()).map_err(|_| "the request head is not text")?;
    let mut lines = head.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
    if first.len() != 3 || first[2] != "HTTP/1.1" {
        return Err(format!("request line {:?}", first));
    }
    let mut headers = vec![];
    for l in lines {
        let c = l.find(':').ok_or_else(|| format!("header line {:?}", l))?;
        headers.push((l[..c].to_ascii_lowercase(), l[c + 1..].trim().to_string()));
    }
    let get = |n: &str| headers.iter().filter(|h| h.0 == n).map(|h| h.1.clone()).collect::<Vec<_>>();
    let (cl, te) = (get("content-length"), get("transfer-encoding"));
    let rest = &b[hend + 4..];
    let (body, length) = match (&cl[..], &te[..]) {
        ([n], []) => {
            let n: usize = n.parse().map_err(|_| format!("Content-Length {:?}", n))?;
            if rest.len() != n {
                return Err(format!("Content-Length {} with a body of {} bytes", n, rest.len()));
            }
            (rest.to_vec(), Some(n))
        }
        ([], [t]) if t.eq_ignore_ascii_case("chunked") => {
            let mut out = vec![];
            let mut at = 0;
            loop {
                let e = find(&rest[at..], b"\r\n").ok_or("chunked body is cut")?;
                let n = usize::from_str_radix(String::from_utf8_lossy(&rest[at..at + e]).trim(), 16).map_err(|_| format!("chunk size {}", show(&rest[at..at + e])))?;
                at += e + 2;
                if rest.len() < at + n + 2 || &rest[at + n..at + n + 2] != b"\r\n" {
                    return Err("chunked body is cut or misframed".into());
                }
                out.extend_from_slice(&rest[at..at + n]);
                at += n + 2;
                if n == 0 {
                    break;
                }
            }
            if at != rest.len() {
                return Err(format!("{} bytes after the chunked body", rest.len() - at));
            }
            (out, None)
        }
        _ => return Err(format!("framing: Content-Length {:?}, Transfer-Encoding {:?}", cl, te)),
    };
    Ok(WireReq { method: first[0].into(), target: first[1].into(), headers, body, length })
}

struct Sent {
    method: Method,
    exp: Vec<Exp>,
    has_stream: bool,
    res: Result<hyper::client::response::Response, String>,
    wires: Vec<Vec<u8>>,
}

fn send_wire(c: &WireCase, obs: &mut Obs) -> Sent {
    let dir = if c.fields.iter().any(|f| matches!(f, CF::File { .. })) { Some(CaseDir::new()) } else { None };
    let kind = |k: u8| KINDS[k as usize % KINDS.len()];
    let conn = Conn {
        outs: Arc::default(), plan: c.plan.clone(),
        refuse: if let WFault::Connect(k) = c.fault { Some(kind(k)) } else { None },
        fault: if let WFault::Write(at, k) = c.fault { Some((at as usize, kind(k))) } else { None },
    };
    let outs = conn.outs.clone();
    let methods = [Method::Post, Method::Get, Method::Put, Method::Delete, Method::Extension("POSTX".into()), Method::Head, Method::Options, Method::Trace, Method::Patch,
                   Method::Connect, Method::Extension("Post".into())];
    let via_client = c.mode == 3 || c.mode == 4;
    let method = if via_client { Method::Post } else { methods[c.method as usize % methods.len()].clone() };
    obs.class(["plain", "sized", "lazy send", "client_request", "client_request_mut", "prepared body"][c.mode as usize % 6]);
    let has_stream = c.fields.iter().any(|f| matches!(f, CF::Stream { .. }));
    let mut exp: Vec<Exp> = vec![];
    let mut files: Vec<Option<FileOnDisk>> = vec![];
    for (i, f) in c.fields.iter().enumerate() {
        match f {
            CF::Text { name, text } => {
                exp.push(Exp { name: name.clone(), filename: None, mime: None, data: text_of(text).into_bytes() });
                files.push(None);
            }
            CF::Stream { name, filename, mime, content, .. } => {
                let m = mime.map(|m| MIMES[m as usize % MIMES.len()].parse::<mime::Mime>().unwrap().to_string()).unwrap_or_else(|| "application/octet-stream".into());
                exp.push(Exp { name: name.clone(), filename: filename.clone(), mime: Some(m), data: render(content, DUMMY, 0) });
                files.push(None);
            }
            CF::File { name, fname, raw, content } => {
                let data = render(content, DUMMY, 0);
                let mut fd = make_file(dir.as_ref().unwrap().path(), i, fname, *raw, &data);
                if matches!(c.fault, WFault::Missing(j) if j as usize == i) {
                    fd.path = fd.path.with_extension("not-there");
                }
                exp.push(Exp { name: name.clone(), filename: fd.shown.clone(), mime: Some("*".into()), data });
                files.push(Some(fd));
            }
        }
    }
    let url: hyper::Url = "http://example.com/up?q=1".parse().unwrap();
    let fresh = |conn: &Conn| -> Result<hyper::client::request::Request<Fresh>, String> {
        let mut r = hyper::client::request::Request::with_connector(method.clone(), url.clone(), conn).map_err(|e| e.to_string())?;
        if c.hdr & 1 != 0 {
            r.headers_mut().set_raw("X-Extra", vec![b"kept".to_vec()]);
        }
        if c.hdr & 2 != 0 {
            r.headers_mut().set(hyper::header::ContentType::plaintext());
            // replaced wherever the length is known
            if c.mode % 6 == 1 || (c.mode % 6 == 2 && !has_stream) {
                r.headers_mut().set(hyper::header::ContentLength(3));
            }
        }
        Ok(r)
    };
    let reader = |i: usize| -> ScriptedReader {
        if let CF::Stream { content, chunk, intr, .. } = &c.fields[i] {
            let d = render(content, DUMMY, 0);
            let mut fl: Vec<(usize, io::ErrorKind)> = intr.iter().map(|p| (*p as usize % (d.len() + 1), io::ErrorKind::Interrupted)).collect();
            if let WFault::Source(j, p, k) = c.fault {
                if j as usize == i {
                    fl.push((p as usize % (d.len() + 1), kind(k)));
                }
            }
            ScriptedReader::new(Arc::new(d), chunk, &[]).with_faults(fl)
        } else {
            unreachable!()
        }
    };
    let mt = |m: Option<u8>| m.map(|m| MIMES[m as usize % MIMES.len()].parse::<mime::Mime>().unwrap());
    macro_rules! streaming {
        ($mp:expr) => {{
            let mut mp = $mp;
            let mut res = Ok(());
            for (i, f) in c.fields.iter().enumerate() {
                res = match f {
                    CF::Text { name, text } => mp.write_text(name, text_of(text)).map(|_| ()),
                    CF::Stream { name, filename, mime, .. } => mp.write_stream(name, &mut reader(i), filename.as_ref().map(|s| &**s), mt(*mime)).map(|_| ()),
                    CF::File { name, .. } => mp.write_file(name, &files[i].as_ref().unwrap().path).map(|_| ()),
                };
                if res.is_err() {
                    break;
                }
            }
            match res {
                Ok(()) => mp.send().map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            }
        }};
    }
    let lazy_mp = || {
        let mut mp = lazy::Multipart::new();
        for (i, f) in c.fields.iter().enumerate() {
            match f {
                CF::Text { name, text } => mp.add_text(name.clone(), text_of(text)),
                CF::Stream { name, filename, mime, .. } => mp.add_stream(name.clone(), reader(i), filename.clone(), mt(*mime)),
                CF::File { name, .. } => mp.add_file(name.clone(), files[i].as_ref().unwrap().path.clone()),
            };
        }
        mp
    };
    let res: Result<hyper::client::response::Response, String> = match c.mode % 6 {
        0 => fresh(&conn).and_then(|r| ClientMultipart::from_request(r).map_err(|e| e.to_string())).and_then(|mp| streaming!(mp)),
        1 => fresh(&conn).and_then(|r| ClientMultipart::from_request_sized(r).map_err(|e| e.to_string())).and_then(|mp| streaming!(mp)),
        2 => fresh(&conn).and_then(|r| lazy_mp().send(r).map_err(|e| e.to_string())),
        3 => lazy_mp().client_request(&Client::with_connector(conn), "http://example.com/up?q=1").map_err(|e| e.to_string()),
        4 => lazy_mp()
            .client_request_mut(&Client::with_connector(conn), "http://example.com/up?q=1", |b| {
                let mut h = Headers::new();
                if c.hdr & 1 != 0 {
                    h.set_raw("X-Extra", vec![b"kept".to_vec()]);
                }
                if c.hdr & 2 != 0 {
                    h.set(hyper::header::ContentType::plaintext());
                    if !has_stream {
                        h.set(hyper::header::ContentLength(3));
                    }
                }
                b.headers(h)
            })
            .map_err(|e| e.to_string()),
        _ => {
            // by hand, as the documentation shows for other clients
            let mut mp = lazy_mp();
            let r = mp.prepare().map_err(|e| e.to_string());
            r.and_then(|mut p| {
                let ct = multipart::client::hyper::content_type(p.boundary());
                let client = Client::with_connector(conn);
                client.request(method.clone(), "http://example.com/up?q=1").header(ct).body(p.to_body()).send().map_err(|e| e.to_string())
            })
        }
    };
    let wires: Vec<Vec<u8>> = outs.lock().unwrap().iter().map(|m| m.lock().unwrap().clone()).collect();
    Sent { method, exp, has_stream, res, wires }
}

fn eval_wire(c: &WireCase, obs: &mut Obs) -> Outcome {
    let Sent { method, exp, has_stream, res, wires } = send_wire(c, obs);
    if method != Method::Post && c.mode % 6 < 3 {
        obs.class("other method");
        obs.nt(true);
        if let Ok(_) = res {
            return Err(format!("a {} request was sent as multipart", method));
        }
        for w in &wires {
            if find(w, b"form-data").is_some() || find(w, b"\r\n--").is_some() {
                return Err(format!("a refused {} request sent a multipart body: {}", method, show(w)));
            }
        }
        return Ok(());
    }
    if method != Method::Post {
        // the caller chose the method
        return Ok(());
    }
    let mut resp = match res {
        Ok(r) => r,
        Err(e) => return Err(format!("the request failed: {}", e)),
    };
    let mut rb = String::new();
    resp.read_to_string(&mut rb).map_err(|e| format!("reading the response: {}", e))?;
    if resp.status != hyper::status::StatusCode::Ok || rb != "ok" {
        return Err(format!("the response is {} {:?}", resp.status, rb));
    }
    drop(resp);
    if wires.len() != 1 {
        return Err(format!("{} connections were made", wires.len()));
    }
    let w = parse_wire(&wires[0])?;
    obs.class(if w.length.is_some() { "content length" } else { "chunked" });
    obs.class_if(has_stream, "with a stream");
    obs.nt(!c.fields.is_empty());
    if w.method != "POST" || w.target != "/up?q=1" {
        return Err(format!("sent as {} {}", w.method, w.target));
    }
    if c.mode % 6 == 1 && w.length.is_none() {
        return Err("a sized request was sent without a length".into());
    }
    if c.hdr & 1 != 0 && c.mode % 6 != 5 && c.mode % 6 != 3 && !w.headers.iter().any(|h| h.0 == "x-extra" && h.1 == "kept") {
        return Err("a header set by the caller was lost".into());
    }
    let cts: Vec<&String> = w.headers.iter().filter(|h| h.0 == "content-type").map(|h| &h.1).collect();
    if cts.len() != 1 {
        return Err(format!("Content-Type headers {:?}", cts));
    }
    let (media, ps) = super::client::ref_params(cts[0])?;
    let bnd = match &ps[..] {
        [(k, v)] if media == "multipart/form-data" && k == "boundary" => v.clone(),
        _ => return Err(format!("Content-Type {:?}", cts[0])),
    };
    let ordered = c.mode % 6 < 2;
    let want = if ordered { exp } else { sorted(&exp) };
    let norm = |v: &[Exp]| if ordered { v.to_vec() } else { arranged(v, &want) };
    same_fields(&norm(&ref_fields(&w.body, &bnd)?), &want, "reference parser")?;
    same_fields(&norm(&server_fields(&w.body, &bnd, &c.chunk, &c.hows)?), &want, "server")?;
    // through the hyper server
    let got = with_hyper(&wires[0], &c.chunk, |req| match Multipart::from_request(req) {
        Ok(mut mp) => to_exp(trace(&mut mp, &c.hows, 1, 1000)),
        Err(_) => Err("the hyper server does not recognise the request as multipart".into()),
    })?;
    same_fields(&norm(&got), &want, "hyper server")
}

/// Faults underneath a hyper request are returned to the caller (for M25).
fn fault_case() -> BoxedStrategy<WireCase> {
    let fault = prop_oneof![
        1 => any::<u8>().prop_map(WFault::Connect),
        4 => (prop_oneof![0u16..400, 0u16..5000], any::<u8>()).prop_map(|(a, k)| WFault::Write(a, k)),
        4 => (any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(a, b, k)| WFault::Source(a, b, k)),
        3 => any::<u8>().prop_map(WFault::Missing),
    ];
    (wire_case(), fault)
        .prop_map(|(mut c, f)| {
            c.method = 0;
            let pick = |want: fn(&CF) -> bool, n: u8| -> Option<u8> {
                let v: Vec<usize> = c.fields.iter().enumerate().filter(|(_, f)| want(f)).map(|x| x.0).collect();
                if v.is_empty() { None } else { Some(v[n as usize % v.len()] as u8) }
            };
            c.fault = match f {
                WFault::Source(n, p, k) => pick(|f| matches!(f, CF::Stream { .. }), n).map(|i| WFault::Source(i, p, k)).unwrap_or(WFault::Write(p % 400, k)),
                WFault::Missing(n) => pick(|f| matches!(f, CF::File { .. }), n).map(WFault::Missing).unwrap_or(WFault::Connect(n)),
                f => f,
            };
            c
        })
        .boxed()
}

fn eval_fault(c: &WireCase, obs: &mut Obs) -> Outcome {
    let s = send_wire(c, obs);
    obs.class(match c.fault {
        WFault::None => "no fault",
        WFault::Connect(_) => "connection refused",
        WFault::Write(..) => "connection lost",
        WFault::Source(..) => "failing stream",
        WFault::Missing(_) => "missing file",
    });
    let hit = match c.fault {
        WFault::Write(at, _) => s.wires.iter().any(|w| w.len() >= at as usize) && s.res.is_err() || s.wires.iter().any(|w| w.len() > at as usize),
        WFault::None => false,
        _ => true,
    };
    // a connection that is lost exactly after the request is not noticed
    let complete = s.wires.len() == 1 && parse_wire(&s.wires[0]).is_ok();
    obs.nt(hit);
    if s.res.is_ok() && (hit || !complete) {
        return Err(format!("{:?}: success was reported", c.fault));
    }
    if let WFault::Write(..) = c.fault {
        if s.res.is_err() && !hit {
            return Err(format!("failed without a fault: {}", s.res.err().unwrap()));
        }
    }
    if let (WFault::Missing(_), true) = (&c.fault, c.mode % 6 >= 2) {
        if let Some(w) = s.wires.iter().find(|w| !w.is_empty()) {
            return Err(format!("a lazy request whose file is missing sent {}", show(w)));
        }
    }
    Ok(())
}

pub fn m25_hyper() -> Facet {
    facet("hyper", "the injected fault was reached", 80_000, 2_000_000, fault_case, eval_fault)
}

fn wire_large() -> BoxedStrategy<WireCase> {
    (wire_case(), huge_plan())
        .prop_map(|(mut c, h)| {
            super::client::enlarge_fields(&mut c.fields, h);
            coarse_sizes(&mut c.plan);
            WireCase { chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect(), ..c }
        })
        .boxed()
}

pub fn m21() -> Vec<Facet> {
    vec![
        facet("large", "the same with contents of 30-400 kB", 2_000, 30_000, wire_large, eval_wire),
        facet("wire", "at least one field, or a method other than POST", 180_000, 4_000_000, wire_case, eval_wire)]
}
