//! M03-M08: the server-side parser.

use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use multipart::server::Multipart;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{BufRead, ErrorKind, Read};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------ M03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WfCase {
    pub body: Body,
    pub chunk: Chunk,
    pub hows: Vec<How>,
}

fn wf(body: BoxedStrategy<Body>) -> BoxedStrategy<WfCase> {
    (body, chunk(), proptest::collection::vec(how(), 1..3)).prop_map(|(body, chunk, hows)| WfCase { body, chunk, hows }).boxed()
}

fn observe_body(r: &Rendered, obs: &mut Obs) {
    obs.class_if(r.parts.is_empty(), "no parts");
    obs.class_if(r.parts.len() > 1, "several parts");
    obs.class_if(r.bytes.len() > 8192, "larger than the buffer");
    obs.class_if(r.first_delim > 0, "preamble");
    obs.class_if(r.bytes.len() > r.complete_at + 2, "epilogue");
    let mut t = false;
    for i in 0..r.parts.len() {
        let c = r.content(i);
        t |= tricky(c, &r.boundary);
        obs.class_if(c.is_empty(), "empty content");
        for e in [1024usize, 8192, 16384] {
            let d = r.parts[i].end;
            obs.class_if(d <= e && d + r.boundary.len() + 6 >= e, "delimiter across a buffer edge");
        }
    }
    obs.class_if(t, "delimiter look-alike in content");
    obs.nt(t || r.parts.len() > 1 || r.bytes.len() > 1024 || r.first_delim > 0);
}

fn eval_wf(c: &WfCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    observe_body(&r, obs);
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let got = trace(&mut mp, &c.hows, 1, r.parts.len() + 10);
    cmp_trace(&got, &expected(&r))
}

/// One or two parts whose end falls around a buffer edge.
pub fn edge_body() -> BoxedStrategy<Body> {
    let edge_content = (select(vec![1024u16, 2048, 8192, 16384, 8192 + 1024, 8192 - 1024]), -100i8..30, any::<bool>(), proptest::collection::vec(seg(), 0..3))
        .prop_map(|(t, d, abs, mut tail)| {
            let mut v = vec![if abs { Seg::PadAbs(t, d) } else { Seg::Pad(t, d) }];
            v.append(&mut tail);
            v
        })
        .boxed();
    (boundary(), part_with(edge_content, plain_style()), proptest::option::of(part_with(content(), plain_style())), 0u8..3)
        .prop_map(|(boundary, a, b, epilogue)| Body { boundary, preamble: None, parts: std::iter::once(a).chain(b).collect(), epilogue })
        .boxed()
}

/// The same cases with a lot of data in one or two fields.
fn wf_large() -> BoxedStrategy<WfCase> {
    (wf(body_with(1..4, small_content(), plain_style())), huge_plan())
        .prop_map(|(c, h)| WfCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect() })
        .boxed()
}

pub fn m03() -> Vec<Facet> {
    vec![
        facet("large", "well-formed bodies with one or two fields of 30-400 kB (random, one byte, delimiter look-alikes, text, multi-byte text; lengths around 64 kB and other round numbers)",
              2_500, 50_000, wf_large, eval_wf),
        facet("wellformed",
              "random well-formed bodies (0-5 parts, boundaries up to 70 chars, preamble/epilogue, contents made of delimiter look-alikes, multi-byte text, binary, up to 30 kB) under random delivery and reads; compared with the constructed part list; non-trivial: several parts, look-alike content, preamble or more than 1 kB",
              200_000, 4_000_000, || wf(body()), eval_wf),
        facet("edges",
              "one or two parts whose content ends within 100 bytes of 1024/2048/7168/8192/9216/16384 (relative to content or body start) followed by look-alike tails",
              150_000, 3_000_000, || wf(edge_body()), eval_wf),
        facet("long-boundary",
              "well-formed bodies whose boundary has 71-8200 characters",
              8_000, 150_000, || wf(long_boundary(body())), eval_wf),
    ]
}

// ------------------------------------------------------------------------------------------ M04

/// Pieces of arbitrary (mostly malformed) bodies.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    S(Vec<Seg>),
    /// delimiter: leading CRLF?, trailing kind
    Delim(bool, u8),
    /// a header block, possibly broken, by kind; filler length
    Head(u8, u16),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Flip(u32, u8),
    Del(u32, u16),
    Dup(u32, u16),
    Ins(u32, Vec<u8>),
    Trunc(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Soup {
    Pieces(String, Vec<Piece>),
    Edited(Body, Vec<Edit>),
}

pub const HEADS: &[&str] = &[
    "Content-Disposition: form-data; name=\"a\"\r\n\r\n",
    "Content-Disposition: form-data; name=\"a\"; filename=\"b.txt\"\r\nContent-Type: text/plain\r\n\r\n",
    "Content-Disposition: attachment; name=\"a\"\r\n\r\n",
    "Content-Disposition: form-data\r\n\r\n",
    "Content-Disposition: form-data; name\r\n\r\n",
    "Content-Type: text/plain\r\n\r\n",
    "Content-Disposition: form-data; name=\"a\"\r\nContent-Type: nonsense\r\n\r\n",
    "no colon here\r\n\r\n",
    "Bad Name: x\r\n\r\n",
    ": empty\r\n\r\n",
    "\r\n",
    "\r\n\r\n",
    "Content-Disposition: form-data; name=\"a\"\r\n",
    "Content-Disposition: form-data; name=\"a",
    "A: 1\r\nB: 2\r\nC: 3\r\nD: 4\r\nE: 5\r\n\r\n",
    "Content-Disposition: form-data; name=a\n\n",
    "Content-Disposition: form-data; name=\"a\"\r\n folded: x\r\n\r\n",
    "Content-Disposition: form-data; name=;filename=\r\n\r\n",
    "content-disposition:form-data;name=\"\u{e9}\";filename=\"\"\r\n\r\n",
    "Content-Disposition: form-data; name=\"\"\"\r\n\r\n",
    "Content-Disposition: ;\r\n\r\n",
    "Content-Disposition: form-data; name=\"a\"\rX: y\r\n\r\n",
];

fn piece() -> BoxedStrategy<Piece> {
    prop_oneof![
        3 => proptest::collection::vec(seg(), 0..3).prop_map(Piece::S),
        1 => content().prop_map(Piece::S),
        6 => (any::<bool>(), prop_oneof![6 => Just(0u8), 3 => Just(1u8), 3 => 0u8..10]).prop_map(|(a, b)| Piece::Delim(a, b)),
        5 => (prop_oneof![4 => 0u8..2, 3 => 0u8..(HEADS.len() as u8)], prop_oneof![9 => Just(0u16), 1 => 1u16..3000]).prop_map(|(a, b)| Piece::Head(a, b)),
        1 => proptest::collection::vec(any::<u8>(), 0..12).prop_map(Piece::Raw),
    ]
    .boxed()
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        (any::<u32>(), 1u8..=255).prop_map(|(a, b)| Edit::Flip(a, b)),
        (any::<u32>(), 1u16..200).prop_map(|(a, b)| Edit::Del(a, b)),
        (any::<u32>(), 1u16..200).prop_map(|(a, b)| Edit::Dup(a, b)),
        (any::<u32>(), prop_oneof![
            proptest::collection::vec(any::<u8>(), 1..5),
            select(vec![b"\r\n".to_vec(), b"\r".to_vec(), b"\n".to_vec(), b"--".to_vec(), b"\r\n\r\n".to_vec(), vec![0], b"\"".to_vec(), b";".to_vec(), vec![0xff]]),
        ]).prop_map(|(a, b)| Edit::Ins(a, b)),
        any::<u32>().prop_map(Edit::Trunc),
    ]
    .boxed()
}

pub fn soup() -> BoxedStrategy<Soup> {
    prop_oneof![
        1 => (boundary(), proptest::collection::vec(piece(), 0..12)).prop_map(|(b, p)| Soup::Pieces(b, p)),
        1 => (body_with(0..4, content(), plain_style()), proptest::collection::vec(edit(), 0..4)).prop_map(|(b, e)| Soup::Edited(b, e)),
    ]
    .boxed()
}

impl Soup {
    /// bytes, boundary, interesting positions
    pub fn render(&self) -> (Vec<u8>, String, Vec<usize>) {
        let (bytes, boundary) = match self {
            Soup::Pieces(b, ps) => {
                let mut out: Vec<u8> = Vec::new();
                for p in ps {
                    match p {
                        Piece::S(s) => {
                            let at = out.len();
                            out.extend(render(s, b, at));
                        }
                        Piece::Delim(nl, k) => {
                            if *nl {
                                out.extend_from_slice(b"\r\n");
                            }
                            out.extend_from_slice(format!("--{}", b).as_bytes());
                            let t: &[u8] = match k {
                                0 => b"\r\n",
                                1 => b"--",
                                2 => b"--\r\n",
                                3 => b"",
                                4 => b"\n",
                                5 => b"\r",
                                6 => b"-",
                                7 => b" \r\n",
                                8 => b"x",
                                _ => b"-\r\n",
                            };
                            out.extend_from_slice(t);
                        }
                        Piece::Head(k, f) => {
                            if *f > 0 {
                                out.extend_from_slice(b"X-Fill: ");
                                out.extend(std::iter::repeat(b'f').take(*f as usize));
                                out.extend_from_slice(b"\r\n");
                            }
                            out.extend_from_slice(HEADS[*k as usize % HEADS.len()].as_bytes());
                        }
                        Piece::Raw(v) => out.extend_from_slice(v),
                    }
                }
                (out, b.clone())
            }
            Soup::Edited(body, edits) => {
                let r = body.render();
                let mut out = r.bytes;
                for e in edits {
                    if out.is_empty() {
                        break;
                    }
                    let n = out.len();
                    match e {
                        Edit::Flip(p, x) => out[*p as usize % n] ^= x,
                        Edit::Del(p, l) => {
                            let p = *p as usize % n;
                            out.drain(p..(p + *l as usize).min(n));
                        }
                        Edit::Dup(p, l) => {
                            let p = *p as usize % n;
                            let c = out[p..(p + *l as usize).min(n)].to_vec();
                            out.splice(p..p, c);
                        }
                        Edit::Ins(p, v) => {
                            let p = *p as usize % (n + 1);
                            out.splice(p..p, v.iter().cloned());
                        }
                        Edit::Trunc(p) => out.truncate(*p as usize % (n + 1)),
                    }
                }
                (out, r.boundary)
            }
        };
        let d = format!("--{}", boundary).into_bytes();
        let mut marks = find_all(&bytes, &d);
        let ends: Vec<usize> = marks.iter().map(|m| m + d.len()).collect();
        marks.extend(ends);
        marks.extend(find_all(&bytes, b"\r\n\r\n").into_iter().map(|m| m + 4));
        marks.push(bytes.len());
        (bytes, boundary, marks)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SoupCase {
    pub soup: Soup,
    pub a: Chunk,
    pub b: Chunk,
}

fn observe_trace(t: &[Ev], obs: &mut Obs) {
    let fields = t.iter().filter(|e| matches!(e, Ev::Field(_))).count();
    let errs = t.iter().filter(|e| matches!(e, Ev::Err(_))).count();
    obs.class_if(fields > 0, "has fields");
    obs.class_if(errs > 0, "has errors");
    obs.class_if(fields > 0 && errs > 0, "fields and errors");
    obs.class_if(t.last() == Some(&Ev::End), "reaches the end");
    obs.class_if(fields > 0 && t.last() == Some(&Ev::End), "fields and the end");
    obs.nt(fields > 0 || errs > 1);
}

fn eval_m04(c: &SoupCase, obs: &mut Obs) -> Outcome {
    let (bytes, boundary, marks) = c.soup.render();
    let data = Arc::new(bytes);
    let run = |ch: &Chunk| {
        let mut mp = parser(&data, ch, &marks, &boundary);
        trace(&mut mp, &[], 6, data.len() + 20)
    };
    let full = run(&Chunk::Full);
    observe_trace(&full, obs);
    for ch in [&c.a, &c.b] {
        let other = run(ch);
        if let Err(m) = cmp_trace(&other, &full) {
            return Err(format!("delivery {:?} differs from one-shot delivery: {} | one-shot: {} | other: {}", ch, m, show_trace(&full), show_trace(&other)));
        }
    }
    if data.len() < 4000 {
        let other = run(&Chunk::Fixed(1));
        if let Err(m) = cmp_trace(&other, &full) {
            return Err(format!("byte-at-a-time delivery differs: {} | one-shot: {} | other: {}", m, show_trace(&full), show_trace(&other)));
        }
    }
    Ok(())
}

/// Every single split point of a small body.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplitCase {
    pub soup: Soup,
    pub base: u16,
}

fn eval_m04_split(c: &SplitCase, obs: &mut Obs) -> Outcome {
    let (bytes, boundary, _) = c.soup.render();
    let data = Arc::new(bytes);
    let run = |ch: &Chunk, marks: &[usize]| {
        let mut mp = parser(&data, ch, marks, &boundary);
        trace(&mut mp, &[], 6, data.len() + 20)
    };
    let full = run(&Chunk::Full, &[]);
    observe_trace(&full, obs);
    // only splits in a window matter for the buffering: those around delimiters and header ends
    let d = format!("--{}", boundary).into_bytes();
    let mut points: Vec<usize> = Vec::new();
    for m in find_all(&data, &d) {
        points.extend(m.saturating_sub(4)..(m + d.len() + 5).min(data.len()));
    }
    points.sort();
    points.dedup();
    points.truncate(400);
    for p in points {
        if p == 0 {
            continue;
        }
        let other = run(&Chunk::Marks(vec![(0, 0)], c.base), &[p]);
        if let Err(m) = cmp_trace(&other, &full) {
            return Err(format!("split at {} of {} differs: {} | one-shot: {} | split: {}", p, data.len(), m, show_trace(&full), show_trace(&other)));
        }
    }
    Ok(())
}

fn padded_soup() -> BoxedStrategy<Soup> {
    // contents of at least 1 kB, so that a split point actually ends a buffer fill
    let c = (prop_oneof![Just(1100u16), Just(2300u16), Just(8192u16)], -60i8..60, proptest::collection::vec(seg(), 0..3)).prop_map(|(n, d, mut t)| {
        let mut v = vec![Seg::Pad(n, d)];
        v.append(&mut t);
        v
    });
    let style = prop_oneof![3 => Just(HStyle::default()), 1 => (900u16..3000).prop_map(|f| HStyle { filler: f, ..HStyle::default() })];
    (body_with(1..3, c.boxed(), style.boxed()), prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(edit(), 1..2)])
        .prop_map(|(b, e)| Soup::Edited(b, e))
        .boxed()
}

fn large_soup() -> BoxedStrategy<SoupCase> {
    (body_with(1..4, small_content(), plain_style()), huge_plan(), prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(edit(), 1..3)], chunk(), chunk())
        .prop_map(|(b, h, e, x, y)| SoupCase { soup: Soup::Edited(b.enlarged(h), e), a: x.coarse(), b: y.coarse() })
        .boxed()
}

pub fn m04() -> Vec<Facet> {
    vec![
        facet("large", "bodies with one or two fields of 30-400 kB and 0-2 edits", 1_000, 20_000, large_soup, eval_m04),
        facet("soup",
              "arbitrary bodies (random pieces of delimiters, valid and broken header blocks, look-alikes, raw bytes; or well-formed bodies with 0-3 edits) parsed under one-shot, two random and byte-at-a-time deliveries; the reported event sequences must be equal; non-trivial: at least one field or two errors reported",
              300_000, 5_000_000, || (soup(), chunk(), chunk()).prop_map(|(soup, a, b)| SoupCase { soup, a, b }).boxed(), eval_m04),
        facet("long-boundary",
              "well-formed bodies with 0-2 edits whose boundary has 71-8200 characters, under the same deliveries",
              6_000, 100_000, || (long_boundary(body()), prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec(edit(), 1..3)], chunk(), chunk())
                  .prop_map(|(b, e, x, y)| SoupCase { soup: Soup::Edited(b, e), a: x, b: y }).boxed(), eval_m04),
        facet("every-split",
              "bodies with contents of 1-8 kB (optionally one edit), delivered with a single split at every position within 4 bytes of each delimiter, compared with one-shot delivery",
              6_000, 100_000, || (padded_soup(), prop_oneof![2 => Just(0u16), 1 => 1u16..1500]).prop_map(|(soup, base)| SplitCase { soup, base }).boxed(), eval_m04_split),
    ]
}

// ------------------------------------------------------------------------------------------ M05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Read(u16),
    /// peek `n+1` times, then consume `c`
    Peek(u8, u16),
    /// peek and consume more than was returned
    Over(u16),
    SetMin(u32),
    ReadExact(u16),
    Line,
    /// read with interleaved vectored slices
    Vectored(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fin {
    Drop,
    Drain(How),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpsCase {
    pub body: Body,
    pub chunk: Chunk,
    pub plans: Vec<(Vec<Op>, Fin)>,
    pub owned: bool,
}

fn op() -> BoxedStrategy<Op> {
    let n = || prop_oneof![3 => 0u16..20, 2 => 0u16..1200, 1 => 0u16..9000];
    prop_oneof![
        3 => n().prop_map(Op::Read),
        5 => (0u8..3, n()).prop_map(|(a, b)| Op::Peek(a, b)),
        1 => n().prop_map(Op::Over),
        2 => prop_oneof![2 => 0u32..40, 2 => 1000u32..1050, 3 => 7000u32..8300, 1 => 0u32..40_000, 1 => Just(8192u32)].prop_map(Op::SetMin),
        1 => n().prop_map(Op::ReadExact),
        1 => Just(Op::Line),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Vectored(a, b)),
    ]
    .boxed()
}

fn run_ops<R: BufRead>(data: &mut R, set_min: &mut dyn FnMut(&mut R, usize), want: &[u8], ops: &[Op], fin: &Fin) -> Outcome {
    let mut pos = 0usize;
    let chk = |pos: usize, b: &[u8], what: &str| -> Outcome {
        if want[pos..].starts_with(b) {
            Ok(())
        } else {
            Err(format!("{} at {} of {}: {}", what, pos, want.len(), diff(b, &want[pos..(pos + b.len()).min(want.len())])))
        }
    };
    for (i, o) in ops.iter().enumerate() {
        let lab = |s: &str| format!("op {} {}", i, s);
        match o {
            Op::Read(n) => {
                let mut b = vec![0; *n as usize];
                let k = data.read(&mut b).map_err(|e| lab(&format!("read failed: {}", e)))?;
                chk(pos, &b[..k], &lab("read"))?;
                if k == 0 && *n > 0 && pos < want.len() {
                    return Err(lab(&format!("read reported the end at {} of {}", pos, want.len())));
                }
                pos += k;
            }
            Op::Peek(times, c) => {
                let mut last: Vec<u8> = Vec::new();
                for t in 0..=*times {
                    let b = data.fill_buf().map_err(|e| lab(&format!("fill_buf failed: {}", e)))?;
                    chk(pos, b, &lab("peek"))?;
                    if t > 0 && !b.starts_with(&last) {
                        return Err(lab(&format!("a repeated peek lost data: {} then {}", last.len(), b.len())));
                    }
                    if b.is_empty() && pos < want.len() {
                        return Err(lab(&format!("peek reported the end at {} of {}", pos, want.len())));
                    }
                    last = b.to_vec();
                }
                let k = (*c as usize).min(last.len());
                data.consume(k);
                pos += k;
            }
            Op::Over(x) => {
                let l = {
                    let b = data.fill_buf().map_err(|e| lab(&format!("fill_buf failed: {}", e)))?;
                    chk(pos, b, &lab("peek"))?;
                    b.len()
                };
                data.consume(l + *x as usize);
                pos += l;
            }
            Op::SetMin(n) => set_min(data, *n as usize),
            Op::ReadExact(n) => {
                let n = (*n as usize).min(want.len() - pos);
                let mut b = vec![0; n];
                data.read_exact(&mut b).map_err(|e| lab(&format!("read_exact of {} available bytes failed: {}", n, e)))?;
                chk(pos, &b, &lab("read_exact"))?;
                pos += n;
            }
            Op::Line => {
                let mut b = Vec::new();
                let k = data.read_until(b'\n', &mut b).map_err(|e| lab(&format!("read_until failed: {}", e)))?;
                chk(pos, &b, &lab("read_until"))?;
                let w = match want[pos..].iter().position(|c| *c == b'\n') {
                    Some(i) => i + 1,
                    None => want.len() - pos,
                };
                if k != w || b.len() != w {
                    return Err(lab(&format!("read_until returned {} bytes, expected {}", k, w)));
                }
                pos += k;
            }
            Op::Vectored(a, b) => {
                let (mut x, mut y) = (vec![0u8; *a as usize], vec![0u8; *b as usize]);
                let k = {
                    let mut v = [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut y)];
                    data.read_vectored(&mut v).map_err(|e| lab(&format!("read_vectored failed: {}", e)))?
                };
                let mut all = x;
                all.extend(y);
                if k > all.len() {
                    return Err(lab("read_vectored returned more than asked"));
                }
                chk(pos, &all[..k], &lab("read_vectored"))?;
                pos += k;
            }
        }
        if pos > want.len() {
            return Err(lab("went past the end"));
        }
    }
    if let Fin::Drain(h) = fin {
        let (d, e) = drain(data, h);
        if let Some(e) = e {
            return Err(format!("draining failed: {}", e));
        }
        if d != want[pos..] {
            return Err(format!("rest of the field from {}: {}", pos, diff(&d, &want[pos..])));
        }
        // the end is stable
        let mut b = [0u8; 16];
        for _ in 0..2 {
            if data.read(&mut b).map_err(|e| format!("read after the end: {}", e))? != 0 {
                return Err("data after the end of the field".into());
            }
            if !data.fill_buf().map_err(|e| format!("peek after the end: {}", e))?.is_empty() {
                return Err("data after the end of the field".into());
            }
        }
    }
    Ok(())
}

fn eval_m05(c: &OpsCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let data = Arc::new(r.bytes.clone());
    let mut nops = 0;
    let empty = (vec![], Fin::Drop);
    for (i, _) in r.parts.iter().enumerate() {
        let p = c.plans.get(i).unwrap_or(&empty);
        nops += p.0.len();
        obs.class_if(p.0.is_empty() && matches!(p.1, Fin::Drop), "field not read at all");
        obs.class_if(!p.0.is_empty() && matches!(p.1, Fin::Drop), "field abandoned part-way");
        obs.class_if(p.0.iter().any(|o| matches!(o, Op::SetMin(n) if *n >= 7168)), "minimum buffer near capacity");
    }
    obs.class_if(r.bytes.len() > 8192, "larger than the buffer");
    obs.nt(nops > 0 && !r.parts.is_empty());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    for i in 0..r.parts.len() + 1 {
        let e = mp.read_entry().map_err(|e| format!("entry {} failed: {}", i, e))?;
        let mut f = match e {
            Some(f) => f,
            None if i == r.parts.len() => return Ok(()),
            None => return Err(format!("end reported before entry {}", i)),
        };
        if i == r.parts.len() {
            return Err("an extra entry was reported".into());
        }
        let p = &r.parts[i];
        let g = got_of(&f);
        if g.name != p.name || g.filename != p.filename {
            return Err(format!("entry {}: headers {:?} {:?}, want {:?} {:?}", i, g.name, g.filename, p.name, p.filename));
        }
        let plan = c.plans.get(i).unwrap_or(&empty);
        run_ops(&mut f.data, &mut |d, n| d.set_min_buf_size(n), r.content(i), &plan.0, &plan.1)
            .map_err(|m| format!("entry {}: {}", i, m))?;
    }
    Ok(())
}

pub fn m05() -> Vec<Facet> {
    let strat = |b: BoxedStrategy<Body>| {
        (b, chunk(), proptest::collection::vec((proptest::collection::vec(op(), 0..7), prop_oneof![1 => Just(Fin::Drop), 1 => how().prop_map(Fin::Drain)]), 4), any::<bool>())
            .prop_map(|(body, chunk, plans, owned)| OpsCase { body, chunk, plans, owned })
            .boxed()
    };
    let _ = strat;
    fn s(b: BoxedStrategy<Body>) -> BoxedStrategy<OpsCase> {
        (b, chunk(), proptest::collection::vec((proptest::collection::vec(op(), 0..7), prop_oneof![1 => Just(Fin::Drop), 1 => how().prop_map(Fin::Drain)]), 4), any::<bool>())
            .prop_map(|(body, chunk, plans, owned)| OpsCase { body, chunk, plans, owned })
            .boxed()
    }
    fn large() -> BoxedStrategy<OpsCase> {
        (s(body_with(1..3, small_content(), plain_style())), huge_plan(), proptest::collection::vec(op(), 0..12))
            .prop_map(|(c, h, more)| OpsCase {
                body: c.body.enlarged(h),
                chunk: c.chunk.coarse(),
                plans: c.plans.into_iter().map(|(mut ops, fin)| {
                    ops.extend(more.iter().cloned());
                    let scale = |n: u16| if n > 800 { n.saturating_mul(7) } else { n };
                    let ops = ops.into_iter().map(|o| match o {
                        Op::Read(n) => Op::Read(scale(n)),
                        Op::Peek(a, n) => Op::Peek(a, scale(n)),
                        Op::ReadExact(n) => Op::ReadExact(scale(n)),
                        Op::SetMin(n) if n > 6000 => Op::SetMin(n * 9),
                        o => o,
                    }).collect();
                    (ops, match fin { Fin::Drain(h) => Fin::Drain(h.coarse()), f => f })
                }).collect(),
                owned: c.owned,
            })
            .boxed()
    }
    vec![
        facet("ops-large",
              "operation sequences on fields of 30-400 kB, with reads and peeks up to 63 kB and minimum buffers up to 360 kB",
              2_500, 50_000, large, eval_m05),
        facet("ops",
              "operation sequences (reads of any size, repeated peeks, partial and over-consumption, minimum buffer changes up to 40 kB, read_exact, read_until, vectored reads, abandoning) on every field of a random well-formed body, against a cursor over the known contents; non-trivial: at least one operation on a field",
              250_000, 3_000_000, || s(body_with(1..4, content(), plain_style())), eval_m05),
        facet("ops-edges",
              "the same operation sequences on bodies whose fields end around buffer edges",
              150_000, 2_000_000, || s(edge_body()), eval_m05),
        facet("ops-long-boundary",
              "the same operation sequences on bodies whose boundary has 71-8200 characters",
              6_000, 100_000, || s(long_boundary(body_with(1..4, content(), plain_style()))), eval_m05),
    ]
}

// ------------------------------------------------------------------------------------------ M06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyCase {
    pub soup: Soup,
    /// replaces the boundary given to the parser
    pub boundary: Option<String>,
    pub chunk: Chunk,
    pub hows: Vec<AnyHow>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AnyHow {
    Skip,
    Some(u16),
    SetMin(u32, u16),
    All(How),
}

fn any_boundary() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        6 => Just(None),
        1 => Just(Some(String::new())),
        1 => Just(Some("\r\n".to_string())),
        1 => any::<String>().prop_map(Some),
        1 => (500usize..3000).prop_map(|n| Some("b".repeat(n))),
        1 => (4000usize..10000).prop_map(|n| Some("b".repeat(n))),
        1 => "[-\r\n]{1,4}".prop_map(Some),
    ]
    .boxed()
}

fn any_how() -> BoxedStrategy<AnyHow> {
    prop_oneof![
        1 => Just(AnyHow::Skip),
        1 => any::<u16>().prop_map(AnyHow::Some),
        1 => (prop_oneof![0u32..20_000, 0u32..200_000], any::<u16>()).prop_map(|(a, b)| AnyHow::SetMin(a, b)),
        2 => how().prop_map(AnyHow::All),
    ]
    .boxed()
}

fn eval_m06(c: &AnyCase, obs: &mut Obs) -> Outcome {
    let (bytes, b, marks) = c.soup.render();
    let boundary = c.boundary.clone().unwrap_or(b);
    // with a replaced boundary, put real delimiters of that boundary into the body
    let mut bytes = bytes;
    if c.boundary.is_some() {
        let mut v = format!("--{}\r\n", boundary).into_bytes();
        v.extend_from_slice(HEADS[0].as_bytes());
        v.extend_from_slice(&bytes);
        v.extend_from_slice(format!("\r\n--{}--", boundary).as_bytes());
        bytes = v;
        obs.class("unusual boundary");
    }
    let data = Arc::new(bytes);
    let budget = data.len() + 100;
    let mut mp = parser(&data, &c.chunk, &marks, &boundary);
    let mut events = 0usize;
    let mut fields = 0;
    let mut errs = 0;
    let mut i = 0;
    let mut same_eof = 0;
    loop {
        events += 1;
        if events > budget {
            return Err(format!("no progress: {} entries or errors from a body of {} bytes", events, data.len()));
        }
        let pos = {
            use std::borrow::Borrow;
            let r: &ScriptedReader = mp.borrow();
            r.pos
        };
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                fields += 1;
                if !c.hows.is_empty() {
                    match &c.hows[i % c.hows.len()] {
                        AnyHow::Skip => {}
                        AnyHow::Some(n) => {
                            let mut v = vec![0; *n as usize];
                            let _ = f.data.read(&mut v);
                        }
                        AnyHow::SetMin(m, n) => {
                            f.data.set_min_buf_size(*m as usize);
                            let k = f.data.fill_buf().map(|b| b.len()).unwrap_or(0);
                            f.data.consume(k.min(*n as usize));
                        }
                        AnyHow::All(h) => {
                            let (d, _) = drain(&mut f.data, h);
                            if d.len() > data.len() {
                                return Err(format!("a field of {} bytes from a body of {}", d.len(), data.len()));
                            }
                        }
                    }
                    i += 1;
                }
            }
            Ok(None) => {
                obs.class("end reached");
                for n in 0..4 {
                    match mp.read_entry() {
                        Ok(None) => {}
                        Ok(Some(f)) => return Err(format!("entry {:?} reported after the end", f.headers.name)),
                        Err(e) => return Err(format!("attempt {} after the end reported an error: {}", n, e)),
                    }
                }
                break;
            }
            Err(e) => {
                errs += 1;
                if matches!(e.kind(), ErrorKind::Interrupted | ErrorKind::WouldBlock) {
                    return Err(format!("an error of kind {:?}, which the source never reported: {}", e.kind(), e));
                }
                // once the source is exhausted an error may be final; give up after some more tries
                let r: &ScriptedReader = {
                    use std::borrow::Borrow;
                    mp.borrow()
                };
                if r.pos == pos && pos == data.len() && e.kind() == ErrorKind::UnexpectedEof {
                    same_eof += 1;
                    if same_eof > 3 {
                        break;
                    }
                }
                if errs > 60 {
                    break;
                }
            }
        }
    }
    obs.class_if(fields > 0, "has fields");
    obs.class_if(errs > 0, "has errors");
    obs.nt(fields > 0 || errs > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawCase {
    pub bytes: Vec<u8>,
    pub chunk: Chunk,
}

fn eval_m06_raw(c: &RawCase, obs: &mut Obs) -> Outcome {
    // boundary "B": with a four letter alphabet random strings hit delimiters all the time
    let data = Arc::new(c.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &[c.bytes.len() / 2], "B");
    let t = trace(&mut mp, &[], 20, c.bytes.len() + 40);
    observe_trace(&t, obs);
    if let Some(e) = t.iter().find(|e| matches!(e, Ev::Err(ErrorKind::Interrupted) | Ev::Err(ErrorKind::WouldBlock))) {
        return Err(format!("{:?}, which the source never reported", e));
    }
    if t.last() == Some(&Ev::End) {
        for _ in 0..3 {
            match mp.read_entry() {
                Ok(None) => {}
                _ => return Err("something after the end".into()),
            }
        }
        obs.nt(true);
    }
    Ok(())
}

fn raw_bytes() -> BoxedStrategy<Vec<u8>> {
    let tok = select(vec![
        b"--B".to_vec(), b"--B\r\n".to_vec(), b"--B--".to_vec(), b"\r\n--B".to_vec(), b"\r\n".to_vec(), b"\r".to_vec(), b"\n".to_vec(),
        b"-".to_vec(), b"--".to_vec(), b"B".to_vec(), b"a".to_vec(), b"a: b\r\n".to_vec(), b"\r\n\r\n".to_vec(),
        b"Content-Disposition: form-data; name=a\r\n\r\n".to_vec(), b"Content-Disposition: form-data; name=\"b\"; filename=c\r\n\r\n".to_vec(), vec![0xff],
        b"Content-Disposition:form-data".to_vec(), b";".to_vec(), b"name=".to_vec(), b"\"".to_vec(), b"filename=".to_vec(), b"Content-Type: ".to_vec(),
    ]);
    proptest::collection::vec(tok, 0..14).prop_map(|v| v.concat()).boxed()
}

pub fn m06() -> Vec<Facet> {
    vec![
        facet("any-body",
              "arbitrary bodies as for M04, optionally with empty, huge, non-ASCII or CRLF boundaries, consumed by skipping, partial reads, huge minimum buffers or draining; no panic, number of reported events bounded by the body length, source never polled endlessly, end sticky; non-trivial: a field or two errors reported",
              300_000, 4_000_000, || (soup(), any_boundary(), chunk(), proptest::collection::vec(any_how(), 0..4))
                  .prop_map(|(soup, boundary, chunk, hows)| AnyCase { soup, boundary, chunk, hows }).boxed(), eval_m06),
        facet("logged",
              "as any-body, with logging of everything enabled (bodies up to 1200 bytes, as everything buffered is logged on every read)",
              60_000, 900_000, || (soup(), any_boundary(), chunk(), proptest::collection::vec(any_how(), 0..4))
                  .prop_map(|(soup, boundary, chunk, hows)| AnyCase { soup, boundary, chunk, hows }).boxed(),
              |c, obs| {
                  if c.soup.render().0.len() > 1200 {
                      return Ok(());
                  }
                  crate::logging::logged(|| eval_m06(c, obs))
              }),
        facet("tokens",
              "short strings over delimiter and header tokens with boundary \"B\" (dense coverage of delimiter grammar)",
              400_000, 5_000_000, || (raw_bytes(), prop_oneof![Just(Chunk::Full), Just(Chunk::Fixed(1)), Just(Chunk::Marks(vec![(0, 0)], 0)), chunk()])
                  .prop_map(|(bytes, chunk)| RawCase { bytes, chunk }).boxed(), eval_m06_raw),
    ]
}

// ------------------------------------------------------------------------------------------ M07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    /// cut: mark index, delta (clamped to before completion)
    Cut(u8, i16),
    CutAny(u32),
    /// replace the two bytes after delimiter i
    After(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DamageCase {
    pub body: Body,
    pub damage: Damage,
    pub chunk: Chunk,
    pub hows: Vec<How>,
}

fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        4 => (any::<u8>(), -30i16..31).prop_map(|(a, b)| Damage::Cut(a, b)),
        2 => any::<u32>().prop_map(Damage::CutAny),
        3 => (any::<u8>(), prop_oneof![select(b"\r\n-  x\x00B".to_vec()), any::<u8>()], prop_oneof![select(b"\r\n- x\x00".to_vec()), any::<u8>()])
            .prop_map(|(a, b, c)| Damage::After(a, b, c)),
    ]
    .boxed()
}

/// damaged bytes, number of fields that must be exact, and whether the next one may be partial
fn apply_damage(r: &Rendered, d: &Damage) -> (Vec<u8>, usize, bool) {
    let mut b = r.bytes.clone();
    let blen = r.boundary.len() + 2;
    let delims: Vec<usize> = r.parts.iter().map(|p| p.delim_at).chain(std::iter::once(r.complete_at - 2 - blen)).collect();
    let cut = match d {
        Damage::Cut(m, dl) => {
            let marks = r.marks();
            let at = marks[*m as usize % marks.len()] as i64 + *dl as i64;
            Some(at.clamp(0, r.complete_at as i64 - 1) as usize)
        }
        Damage::CutAny(x) => Some(*x as usize % r.complete_at),
        Damage::After(i, x, y) => {
            let i = *i as usize % delims.len();
            let at = delims[i] + blen;
            let (mut x, y) = (*x, *y);
            if [x, y] == *b"\r\n" || [x, y] == *b"--" {
                x = b'x';
            }
            b[at] = x;
            b[at + 1] = y;
            // fields before delimiter i are exact; nothing comes after
            return (b, i, false);
        }
    };
    let t = cut.unwrap();
    b.truncate(t);
    // field j is exact when the delimiter after it (plus its two trailing bytes) is complete
    let mut exact = 0;
    for j in 0..r.parts.len() {
        if delims[j + 1] + blen + 2 <= t {
            exact = j + 1;
        }
    }
    (b, exact, true)
}

fn eval_m07(c: &DamageCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let (bytes, exact, partial_ok) = apply_damage(&r, &c.damage);
    let len = bytes.len();
    let data = Arc::new(bytes);
    obs.class_if(exact > 0, "complete fields before the damage");
    obs.class(match c.damage { Damage::After(..) => "corrupted delimiter", _ => "truncated" });
    obs.nt(!r.parts.is_empty());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let t = trace(&mut mp, &c.hows, 1, r.parts.len() + 10);
    let want = expected(&r);
    let mut n = 0;
    for (i, e) in t.iter().enumerate() {
        match e {
            Ev::Field(g) => {
                n += 1;
                if i < exact {
                    if Some(e) != want.get(i) {
                        return cmp_trace(&t[..=i], &want[..=i]);
                    }
                } else if partial_ok && i == exact && i < r.parts.len() {
                    obs.class("partial field delivered");
                    let p = &r.parts[i];
                    if g.name != p.name || g.filename != p.filename {
                        return Err(format!("partial entry {} has wrong headers: {}", i, show_ev(e)));
                    }
                    if p.start > len || !data[p.start..].starts_with(&g.data) {
                        return Err(format!("partial entry {} is not a prefix of the bytes present: {}", i, show_ev(e)));
                    }
                    // what precedes a complete delimiter is the exact content even if the two
                    // bytes after the delimiter are missing
                    if p.end + 2 + r.boundary.len() + 2 <= len && g.data != r.content(i) && g.data_err.is_none() {
                        return Err(format!("entry {} before a complete delimiter is not exact: {}", i, diff(&g.data, r.content(i))));
                    }
                } else {
                    return Err(format!("unexpected entry {} from a damaged body: {}", i, show_ev(e)));
                }
            }
            Ev::End => return Err(format!("a damaged body ended normally after {} entries", n)),
            Ev::Err(_) => {}
        }
    }
    if n < exact {
        return Err(format!("only {} of {} complete entries were delivered before the damage: {}", n, exact, show_trace(&t)));
    }
    if !matches!(t.last(), Some(Ev::Err(_))) {
        return Err("no error was reported".into());
    }
    // skipping fields instead of reading them must not hide the damage either
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let mut k = 0;
    if mp.foreach_entry(|_| k += 1).is_ok() {
        return Err(format!("foreach_entry over a damaged body succeeded after {} entries", k));
    }
    Ok(())
}

fn eval_m07_save(c: &DamageCase, obs: &mut Obs) -> Outcome {
    use multipart::server::save::SaveResult::*;
    let r = c.body.render();
    let (bytes, exact, _) = apply_damage(&r, &c.damage);
    obs.nt(!r.parts.is_empty());
    obs.class_if(exact > 0, "complete fields before the damage");
    let data = Arc::new(bytes);
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    match mp.save().size_limit(None).count_limit(None).ignore_text().temp() {
        Full(e) => Err(format!("saving a damaged body was a full success with {} fields", e.fields_count())),
        Partial(p, _) => {
            let mut left: Vec<(String, Vec<u8>)> = (0..exact).map(|i| (r.parts[i].name.clone(), r.content(i).to_vec())).collect();
            for (name, fs) in &p.entries.fields {
                for f in fs {
                    let mut v = Vec::new();
                    f.data.readable().and_then(|mut d| d.read_to_end(&mut v)).map_err(|e| format!("reading back: {}", e))?;
                    if let Some(i) = left.iter().position(|(n, d)| **n == **name && *d == v) {
                        left.remove(i);
                    } else if exact >= r.parts.len() || r.parts[exact].name != **name {
                        return Err(format!("saved field {:?} does not belong to the complete part of the body", name));
                    }
                }
            }
            if !left.is_empty() {
                return Err(format!("{} complete fields are missing from the partial result", left.len()));
            }
            Ok(())
        }
        Error(_) => {
            if exact > 0 {
                Err("complete fields were lost: Error instead of Partial".into())
            } else {
                Ok(())
            }
        }
    }
}

pub fn m07() -> Vec<Facet> {
    fn s() -> BoxedStrategy<DamageCase> {
        (body_with(0..4, content(), plain_style()), damage(), chunk(), proptest::collection::vec(how(), 1..3))
            .prop_map(|(body, damage, chunk, hows)| DamageCase { body, damage, chunk, hows })
            .boxed()
    }
    fn large() -> BoxedStrategy<DamageCase> {
        (s(), huge_plan())
            .prop_map(|(c, h)| DamageCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect(), damage: c.damage })
            .boxed()
    }
    vec![
        facet("read-large", "the same damage to bodies with one or two fields of 30-400 kB", 2_000, 40_000, large, eval_m07),
        facet("save-large", "the same through a whole-request save", 1_000, 20_000, large, eval_m07_save),
        facet("read",
              "well-formed bodies cut anywhere before the closing delimiter is complete (biased to delimiter surroundings) or with the two bytes after one delimiter replaced; fields before the damage exact, partial field a prefix, an error and never the end; non-trivial: at least one part",
              300_000, 3_000_000, s, eval_m07),
        facet("long-boundary", "the same damage to bodies whose boundary has 71-8200 characters",
              8_000, 150_000, || (s(), long_boundary(body_with(0..4, content(), plain_style()))).prop_map(|(c, body)| DamageCase { body, ..c }).boxed(), eval_m07),
        facet("save", "the same damaged bodies through a whole-request save: never Full, complete fields present in the partial result",
              24_000, 300_000, s, eval_m07_save),
    ]
}

// ------------------------------------------------------------------------------------------ M08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadPart {
    pub before: Vec<Part>,
    pub bad: u8,
    pub name: String,
    pub content: Vec<Seg>,
    pub after: Vec<Part>,
    pub boundary: String,
    pub chunk: Chunk,
    pub filler: u16,
}

/// Header blocks that do not declare a form-data field (N is replaced by a name).
pub const BAD_HEADS: &[&str] = &[
    "Content-Type: text/plain\r\n\r\n",
    "X-Other: form-data; name=\"N\"\r\n\r\n",
    "Content-Disposition: attachment; name=\"N\"\r\n\r\n",
    "Content-Disposition: attachment; name=\"N\"; filename=\"form-data\"\r\n\r\n",
    "Content-Disposition: inline\r\n\r\n",
    "Content-Disposition: form-data\r\n\r\n",
    "Content-Disposition: form-data;\r\n\r\n",
    "Content-Disposition: form-data; filename=\"N\"\r\n\r\n",
    "Content-Disposition: form-data; filename=\"name=N\"\r\n\r\n",
    "Content-Disposition: form-data; xname=\"N\"\r\n\r\n",
    "Content-Disposition: form-data; foo=\"; name=N\"\r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nContent-Type: nonsense\r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nContent-Type: \r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nContent-Type: text\r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nContent-Type: /plain\r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nno colon in this line\r\n\r\n",
    "Content-Disposition: form-data; name=\"N\"\r\nBad Header Name: x\r\n\r\n",
    "\r\n",
    "form-data; name=\"N\"\r\n\r\n",
    "Content-Disposition: not-form-data; name=\"N\"\r\n\r\n",
    "Content-Disposition: form-data2; name=\"N\"\r\n\r\n",
    "Content-Disposition: form-dat; name=\"N\"\r\n\r\n",
];

fn eval_m08_bad(c: &BadPart, obs: &mut Obs) -> Outcome {
    let b = &c.boundary;
    let mk = |parts: &Vec<Part>| Body { boundary: b.clone(), preamble: None, parts: parts.clone(), epilogue: 0 };
    let before = mk(&c.before).render();
    let after = mk(&c.after).render();
    let nm: String = scrub_str(&c.name, b).replace(';', ",");
    let mut head = BAD_HEADS[c.bad as usize % BAD_HEADS.len()].replace('N', &nm).into_bytes();
    let invalid_utf8 = c.bad as usize >= BAD_HEADS.len();
    if invalid_utf8 {
        head = b"Content-Disposition: form-data; name=\"x\xff\"\r\n\r\n".to_vec();
    }
    if c.filler > 0 && head != b"\r\n" {
        let mut h = format!("X-Filler: {}\r\n", "f".repeat(c.filler as usize)).into_bytes();
        h.extend(head);
        head = h;
    }
    let d = format!("--{}", b).into_bytes();
    if find(&head, &d).is_some() {
        return Ok(());
    }
    let mut bytes = Vec::new();
    // before: drop its closing delimiter
    if !c.before.is_empty() {
        bytes.extend_from_slice(&before.bytes[..before.parts.last().unwrap().end]);
        bytes.extend_from_slice(b"\r\n");
    }
    bytes.extend_from_slice(&d);
    bytes.extend_from_slice(b"\r\n");
    bytes.extend(head);
    let mut cont = render(&c.content, b, bytes.len());
    // content after a broken header block must not complete it into a valid one
    cont.insert(0, b'#');
    bytes.extend(cont);
    bytes.extend_from_slice(b"\r\n");
    bytes.extend_from_slice(&after.bytes);
    let marks: Vec<usize> = find_all(&bytes, &d);
    let data = Arc::new(bytes);
    obs.nt(true);
    obs.class_if(!c.after.is_empty(), "parts after the bad one");
    let mut mp = parser(&data, &c.chunk, &marks, b);
    let got = trace(&mut mp, &[], 3, 20);
    let mut want: Vec<Ev> = expected(&before);
    want.pop();
    let at = want.len();
    match got.get(at) {
        Some(Ev::Err(_)) => {}
        other => return Err(format!("a part that is not a field was reported as {}", other.map(show_ev).unwrap_or_else(|| "nothing".into()))),
    }
    want.push(got[at].clone());
    want.extend(expected(&after));
    cmp_trace(&got, &want)
}

fn eval_m08(c: &WfCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    for (p, q) in r.parts.iter().zip(&c.body.parts) {
        let special = |s: &str| s.contains(|c: char| ";= \\',:".contains(c) || !c.is_ascii());
        obs.class_if(special(&p.name) || p.filename.as_ref().map_or(false, |f| special(f)), "special characters in a name");
        obs.class_if(q.style.filename_first && q.filename.is_some(), "filename before name");
        obs.class_if(p.start - p.header_at > 1000, "header block over 1 kB");
        obs.class_if(q.style.extra_param > 0, "unknown parameter");
        obs.class_if(q.style.case > 0, "header name case");
    }
    obs.nt(!r.parts.is_empty() && c.body.parts.iter().any(|p| p.style != HStyle::default()));
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let got = trace(&mut mp, &c.hows, 1, r.parts.len() + 10);
    cmp_trace(&got, &expected(&r))
}

pub fn m08() -> Vec<Facet> {
    vec![
        facet("headers",
              "parts with every combination of header-name case, header order, whitespace, parameter order, unknown headers and parameters, token or quoted values, header blocks up to 6 kB, and names over all printable text; compared with the declared values; non-trivial: some part deviates from the canonical layout",
              300_000, 3_000_000, || wf(body_with(1..4, small_content(), hstyle())), eval_m08),
        facet("long-names",
              "names and file names of 200-1100 bytes each (header blocks stay under the documented limit)",
              15_000, 200_000, || (wf(body_with(1..4, small_content(), hstyle())), proptest::collection::vec((200usize..1100, any::<bool>(), any::<bool>()), 1..4)).prop_map(|(mut c, ns)| {
                  for (p, (n, a, b)) in c.body.parts.iter_mut().zip(ns) {
                      let stretch = |s: &str| {
                          let mut t = s.to_string();
                          while t.len() < n { t.push_str(if s.is_empty() { "x" } else { s }); }
                          t.truncate((0..=n).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0));
                          format!("{}x", t)
                      };
                      if a { p.name = stretch(&p.name); }
                      if b || !a { p.filename = p.filename.as_ref().map(|f| stretch(f)); }
                  }
                  c
              }).boxed(), eval_m08),
        facet("not-a-field",
              "a part whose header block does not declare a form-data field (23 kinds) between well-formed parts: exactly one error there, all other parts exact",
              120_000, 1_500_000, || (
                  (proptest::collection::vec(part_with(small_content(), plain_style()), 0..3), 0u8..(BAD_HEADS.len() as u8 + 1), name(), small_content()),
                  proptest::collection::vec(part_with(small_content(), plain_style()), 0..3), boundary(), chunk(), prop_oneof![4 => Just(0u16), 1 => 1u16..3000],
              ).prop_map(|((before, bad, name, content), after, boundary, chunk, filler)| BadPart { before, bad, name, content, after, boundary, chunk, filler }).boxed(),
              eval_m08_bad),
    ]
}

#[allow(dead_code)]
pub fn plain_parser(bytes: Vec<u8>, boundary: &str) -> Multipart<ScriptedReader> {
    Multipart::with_body(ScriptedReader::full(bytes), boundary)
}
