//! Drives the server-side parser and records what it reports.

use crate::dsl::*;
use multipart::server::{Multipart, MultipartField, ReadEntry};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{self, BufRead, ErrorKind, Read};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Got {
    pub name: String,
    pub filename: Option<String>,
    pub mime: Option<String>,
    pub data: Vec<u8>,
    pub data_err: Option<ErrorKind>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Field(Got),
    Err(ErrorKind),
    End,
}

pub fn show_ev(e: &Ev) -> String {
    match e {
        Ev::Field(g) => format!("Field{{name {:?}, filename {:?}, type {:?}, data {}{}}}", g.name, g.filename, g.mime, show(&g.data),
                                g.data_err.map(|k| format!(", error {:?}", k)).unwrap_or_default()),
        Ev::Err(k) => format!("Err({:?})", k),
        Ev::End => "End".into(),
    }
}

pub fn show_trace(t: &[Ev]) -> String {
    t.iter().map(show_ev).collect::<Vec<_>>().join(", ")
}

/// How the data of a field is drained.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    ToEnd,
    Sizes(Vec<u16>),
    Buf(Vec<u16>),
}

pub fn how() -> BoxedStrategy<How> {
    prop_oneof![
        2 => Just(How::ToEnd),
        2 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..100, 1u16..9000], 1..4).prop_map(How::Sizes),
        2 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..100, 1u16..9000], 1..4).prop_map(How::Buf),
    ]
    .boxed()
}

impl How {
    pub fn coarse(mut self) -> How {
        match &mut self {
            How::ToEnd => {}
            How::Sizes(v) | How::Buf(v) => coarse_sizes(v),
        }
        self
    }
}

pub fn drain<R: BufRead>(r: &mut R, how: &How) -> (Vec<u8>, Option<io::Error>) {
    let mut out = Vec::new();
    let mut spins = 0u32;
    match how {
        How::ToEnd => {
            let e = r.read_to_end(&mut out).err();
            (out, e)
        }
        How::Sizes(v) => {
            let mut i = 0;
            loop {
                let n = v[i % v.len()].max(1) as usize;
                i += 1;
                let mut b = vec![0u8; n];
                match r.read(&mut b) {
                    Ok(0) => return (out, None),
                    Ok(k) => {
                        if k > n {
                            panic!("read returned {} for a buffer of {}", k, n);
                        }
                        out.extend_from_slice(&b[..k])
                    }
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {
                        spins += 1;
                        if spins > 100_000 {
                            panic!("no progress: interrupted forever");
                        }
                    }
                    Err(e) => return (out, Some(e)),
                }
            }
        }
        How::Buf(v) => {
            let mut i = 0;
            loop {
                let n = v[i % v.len()].max(1) as usize;
                i += 1;
                let k = match r.fill_buf() {
                    Ok(b) => {
                        if b.is_empty() {
                            return (out, None);
                        }
                        let k = n.min(b.len());
                        out.extend_from_slice(&b[..k]);
                        k
                    }
                    Err(ref e) if e.kind() == ErrorKind::Interrupted => {
                        spins += 1;
                        if spins > 100_000 {
                            panic!("no progress: interrupted forever");
                        }
                        0
                    }
                    Err(e) => return (out, Some(e)),
                };
                r.consume(k);
            }
        }
    }
}

pub fn got_of<M: ReadEntry>(f: &MultipartField<M>) -> Got {
    let text = f.headers.content_type.as_ref().map_or(true, |m| m.to_string().to_lowercase().starts_with("text/"));
    assert_eq!(f.is_text(), text, "is_text() of a field with content type {:?}", f.headers.content_type);
    Got {
        name: f.headers.name.to_string(),
        filename: f.headers.filename.clone(),
        mime: f.headers.content_type.as_ref().map(|m| m.to_string()),
        data: vec![],
        data_err: None,
    }
}

/// Read every entry and its data; stops at End, or after `max_err` entry errors.
pub fn trace<R: Read>(mp: &mut Multipart<R>, hows: &[How], max_err: usize, limit: usize) -> Vec<Ev> {
    let mut out = Vec::new();
    let mut errs = 0;
    let mut i = 0;
    loop {
        if out.len() > limit {
            panic!("no progress: more than {} entries or errors reported", limit);
        }
        match mp.read_entry() {
            Ok(Some(mut f)) => {
                let mut g = got_of(&f);
                let h = if hows.is_empty() { &How::ToEnd } else { &hows[i % hows.len()] };
                i += 1;
                let (d, e) = drain(&mut f.data, h);
                g.data = d;
                g.data_err = e.map(|e| e.kind());
                out.push(Ev::Field(g));
            }
            Ok(None) => {
                out.push(Ev::End);
                return out;
            }
            Err(e) => {
                out.push(Ev::Err(e.kind()));
                errs += 1;
                if errs >= max_err {
                    return out;
                }
            }
        }
    }
}

/// What a well-formed body must produce.
pub fn expected(r: &Rendered) -> Vec<Ev> {
    let mut v: Vec<Ev> = r
        .parts
        .iter()
        .enumerate()
        .map(|(i, p)| Ev::Field(Got {
            name: p.name.clone(),
            filename: p.filename.clone(),
            mime: p.mime.as_ref().map(|m| m.parse::<mime::Mime>().unwrap().to_string()),
            data: r.content(i).to_vec(),
            data_err: None,
        }))
        .collect();
    v.push(Ev::End);
    v
}

pub fn cmp_trace(got: &[Ev], want: &[Ev]) -> Result<(), String> {
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(a), Some(b)) if a == b => {}
            (Some(Ev::Field(a)), Some(Ev::Field(b)))
                if a.name == b.name && a.filename == b.filename && a.mime == b.mime && a.data_err == b.data_err =>
            {
                return Err(format!("contents of entry {} ({:?}) differ: {}", i, b.name, diff(&a.data, &b.data)));
            }
            (a, b) => {
                return Err(format!("event {}: got {} want {}", i, a.map(show_ev).unwrap_or_else(|| "nothing".into()),
                                   b.map(show_ev).unwrap_or_else(|| "nothing".into())));
            }
        }
    }
    Ok(())
}

pub fn parser(data: &Arc<Vec<u8>>, plan: &Chunk, marks: &[usize], boundary: &str) -> Multipart<ScriptedReader> {
    Multipart::with_body(ScriptedReader::new(data.clone(), plan, marks), boundary)
}
