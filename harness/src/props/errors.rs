//! M09: body read errors.

use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use multipart::server::save::{PartialReason, SaveResult};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::borrow::Borrow;
use std::io::{BufRead, ErrorKind, Read};
use std::sync::Arc;

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset, ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::ConnectionAborted, ErrorKind::InvalidInput,
    ErrorKind::NotFound, ErrorKind::WriteZero,
];

/// Where a fault happens.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    Mark(u8, i8),
    Any(u32),
    /// in content of part (index), at a fraction
    Content(u8, u16),
    /// this many bytes into the content of part (index)
    Off(u8, u16),
}

pub fn at() -> BoxedStrategy<At> {
    prop_oneof![
        3 => (any::<u8>(), -12i8..13).prop_map(|(a, b)| At::Mark(a, b)),
        1 => any::<u32>().prop_map(At::Any),
        2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| At::Content(a, b)),
    ]
    .boxed()
}

impl At {
    pub fn resolve(&self, r: &Rendered) -> usize {
        let len = r.bytes.len();
        match self {
            At::Mark(m, d) => {
                let mk = r.marks();
                (mk[*m as usize % mk.len()] as i64 + *d as i64).clamp(0, len as i64) as usize
            }
            At::Any(x) => *x as usize % (len + 1),
            At::Content(p, f) => {
                if r.parts.is_empty() {
                    return 0;
                }
                let p = &r.parts[*p as usize % r.parts.len()];
                p.start + (p.end - p.start) * *f as usize / 65536
            }
            At::Off(p, n) => {
                if r.parts.is_empty() {
                    return 0;
                }
                let p = &r.parts[*p as usize % r.parts.len()];
                (p.start + *n as usize).min(p.end)
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    pub body: Body,
    pub chunk: Chunk,
    /// (where, kind: 0 = interrupted, otherwise KINDS[k-1]; how many times in a row)
    pub faults: Vec<(At, u8, u8)>,
    pub hows: Vec<How>,
}

pub fn fault_list(r: &Rendered, f: &[(At, u8, u8)]) -> Vec<(usize, ErrorKind)> {
    let mut v = Vec::new();
    for (a, k, n) in f {
        let p = a.resolve(r);
        for _ in 0..(*n).max(1) {
            v.push((p, if *k == 0 { ErrorKind::Interrupted } else { KINDS[(*k as usize - 1) % KINDS.len()] }));
        }
    }
    v
}

fn fault_parser(c: &FaultCase, r: &Rendered) -> multipart::server::Multipart<ScriptedReader> {
    let data = Arc::new(r.bytes.clone());
    let rd = ScriptedReader::new(data, &c.chunk, &r.marks()).with_faults(fault_list(r, &c.faults));
    multipart::server::Multipart::with_body(rd, r.boundary.clone())
}

fn observe(c: &FaultCase, r: &Rendered, obs: &mut Obs) {
    let fl = fault_list(r, &c.faults);
    obs.nt(!fl.is_empty() && !r.parts.is_empty());
    for (p, _) in &fl {
        obs.class_if(r.parts.iter().any(|x| *p > x.delim_at && *p <= x.start), "fault in a delimiter or header block");
        obs.class_if(r.parts.iter().any(|x| *p > x.start && *p <= x.end), "fault in contents");
    }
}

/// Interrupted reads only: nothing is visible.
fn eval_interrupted(c: &FaultCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    observe(c, &r, obs);
    let mut mp = fault_parser(c, &r);
    let got = trace(&mut mp, &c.hows, 1, r.parts.len() + 10);
    cmp_trace(&got, &expected(&r))?;
    // skipping fields
    let mut mp = fault_parser(c, &r);
    let mut names = Vec::new();
    mp.foreach_entry(|f| names.push(f.headers.name.to_string())).map_err(|e| format!("skipping all fields: {}", e))?;
    let want: Vec<String> = r.parts.iter().map(|p| p.name.clone()).collect();
    if names != want {
        return Err(format!("skipping visited {:?}, want {:?}", names, want));
    }
    Ok(())
}

fn eval_interrupted_save(c: &FaultCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    observe(c, &r, obs);
    for policy in 0..3 {
        let mut mp = fault_parser(c, &r);
        let b = mp.save().size_limit(None).count_limit(None).memory_threshold(if policy == 0 { 100 } else { 4000 });
        let b = if policy == 2 { b.ignore_text() } else { b.try_text() };
        let e = match b.temp() {
            SaveResult::Full(e) => e,
            SaveResult::Partial(_, why) => return Err(format!("interrupted reads made a save partial: {:?}", why)),
            SaveResult::Error(e) => return Err(format!("interrupted reads made a save fail: {}", e)),
        };
        let mut left: Vec<(String, Vec<u8>)> = (0..r.parts.len()).map(|i| (r.parts[i].name.clone(), r.content(i).to_vec())).collect();
        for (name, fs) in &e.fields {
            for f in fs {
                let mut v = Vec::new();
                f.data.readable().and_then(|mut d| d.read_to_end(&mut v)).map_err(|e| format!("reading back: {}", e))?;
                match left.iter().position(|(n, d)| **n == **name && *d == v) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => return Err(format!("saved contents of {:?} match no part: {}", name, show(&v))),
                }
            }
        }
        if !left.is_empty() {
            return Err(format!("{} fields missing from the save", left.len()));
        }
    }
    Ok(())
}

/// Any read errors: each is reported once, with its kind, to whoever is reading; field data
/// continues where it stopped.
fn eval_errors(c: &FaultCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    observe(c, &r, obs);
    let mut mp = fault_parser(c, &r);
    let hard: Vec<ErrorKind> = {
        let rd: &ScriptedReader = mp.borrow();
        rd.faults.iter().map(|f| f.1).filter(|k| *k != ErrorKind::Interrupted).collect()
    };
    let mut seen: Vec<ErrorKind> = Vec::new();
    macro_rules! check_seen {
        ($what:expr) => {
            if hard.len() < seen.len() || hard[..seen.len()] != seen[..] {
                return Err(format!("{}: reported error kinds {:?}, injected {:?}", $what, seen, hard));
            }
        };
    }
    let mut data_errors = 0;
    for i in 0..r.parts.len() + 1 {
        let e = match mp.read_entry() {
            Err(e) => {
                // reported while an entry is read; what follows such an error is not specified
                seen.push(e.kind());
                check_seen!(format!("reading entry {}", i));
                obs.class("error while reading an entry");
                return Ok(());
            }
            Ok(e) => e,
        };
        let mut f = match e {
            Some(f) => f,
            None if i == r.parts.len() => break,
            None => return Err(format!("end reported before entry {}", i)),
        };
        if i == r.parts.len() {
            return Err("an extra entry was reported".into());
        }
        let p = &r.parts[i];
        let g = got_of(&f);
        if g.name != p.name || g.filename != p.filename {
            return Err(format!("entry {}: headers {:?} {:?}, want {:?} {:?}", i, g.name, g.filename, p.name, p.filename));
        }
        let how = &c.hows[i % c.hows.len()];
        let mut data = Vec::new();
        loop {
            let (d, e) = match how {
                How::ToEnd => {
                    let before = data.len();
                    let e = f.data.read_to_end(&mut data).err();
                    (data.split_off(before), e)
                }
                h => drain(&mut f.data, h),
            };
            data.extend(d);
            match e {
                None => break,
                Some(e) => {
                    seen.push(e.kind());
                    data_errors += 1;
                    check_seen!(format!("reading the data of entry {}", i));
                    if !r.content(i).starts_with(&data) {
                        return Err(format!("data of entry {} before the error: {}", i, diff(&data, r.content(i))));
                    }
                }
            }
        }
        if data != r.content(i) {
            return Err(format!("data of entry {} ({} errors so far): {}", i, data_errors, diff(&data, r.content(i))));
        }
    }
    obs.class_if(data_errors > 0, "error while reading data, then resumed");
    let rd: &ScriptedReader = mp.borrow();
    let passed = rd.faults[..rd.fault_no].iter().filter(|f| f.1 != ErrorKind::Interrupted).count();
    if passed != seen.len() {
        return Err(format!("the source reported {} errors but only {} were passed on", passed, seen.len()));
    }
    Ok(())
}

/// A read error during a save keeps its kind; a retried field continues where it stopped.
fn eval_errors_save(c: &FaultCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    observe(c, &r, obs);
    let mut mp = fault_parser(c, &r);
    let hard: Vec<ErrorKind> = {
        let rd: &ScriptedReader = mp.borrow();
        rd.faults.iter().map(|f| f.1).filter(|k| *k != ErrorKind::Interrupted).collect()
    };
    let b = mp.save().size_limit(None).count_limit(None).memory_threshold(c.faults.len() as u64 * 700);
    let b = if c.hows.len() % 2 == 0 { b.ignore_text() } else { b.try_text() };
    let (entries, partial, why) = match b.temp() {
        SaveResult::Full(_) => {
            let rd: &ScriptedReader = mp.borrow();
            return if rd.faults[..rd.fault_no].iter().any(|f| f.1 != ErrorKind::Interrupted) {
                Err("the save succeeded although the source reported an error".into())
            } else {
                Ok(())
            };
        }
        SaveResult::Error(e) => return Err(format!("a read error lost the save directory and entries: {}", e)),
        SaveResult::Partial(p, why) => (p.entries, p.partial, why),
    };
    match &why {
        PartialReason::IoError(e) if Some(&e.kind()) == hard.first() => {}
        other => return Err(format!("the save stopped with {:?}, the source reported {:?}", other, hard.first())),
    }
    let n: usize = entries.fields.values().map(|v| v.len()).sum();
    if let Some(p) = partial {
        obs.class("error inside a field");
        let i = n;
        if i >= r.parts.len() || *p.source.headers.name != *r.parts[i].name {
            return Err(format!("partial field {:?} after {} complete ones", p.source.headers.name, n));
        }
        let mut data = Vec::new();
        if let Some(d) = &p.dest {
            d.readable().and_then(|mut d| d.read_to_end(&mut data)).map_err(|e| format!("reading back: {}", e))?;
            if d.size() != data.len() as u64 {
                return Err(format!("partial data reports {} bytes, holds {}", d.size(), data.len()));
            }
        }
        let mut src = p.source;
        let mut errs = 0;
        loop {
            match src.data.fill_buf() {
                Ok(b) if b.is_empty() => break,
                Ok(b) => {
                    data.extend_from_slice(b);
                    let n = b.len();
                    src.data.consume(n);
                }
                Err(_) => {
                    errs += 1;
                    if errs > 1000 {
                        return Err("errors without end".into());
                    }
                }
            }
        }
        if data != r.content(i) {
            return Err(format!("saved part plus the rest of the field: {}", diff(&data, r.content(i))));
        }
    }
    Ok(())
}

pub fn m09() -> Vec<Facet> {
    fn s(kinds: BoxedStrategy<u8>, n: std::ops::Range<usize>, body: BoxedStrategy<Body>) -> BoxedStrategy<FaultCase> {
        (body, chunk(), proptest::collection::vec((at(), kinds, prop_oneof![4 => Just(1u8), 1 => 2u8..5]), n), proptest::collection::vec(how(), 1..4))
            .prop_map(|(body, chunk, faults, hows)| FaultCase { body, chunk, faults, hows })
            .boxed()
    }
    fn small() -> BoxedStrategy<Body> {
        body_with(1..4, content(), plain_style())
    }
    fn mixed() -> BoxedStrategy<Body> {
        body_with(1..4, crate::props::save::mixed_content(), plain_style())
    }
    fn any_kind() -> BoxedStrategy<u8> {
        prop_oneof![1 => Just(0u8), 4 => select((1..=KINDS.len() as u8).collect::<Vec<_>>())].boxed()
    }
    fn large(kinds: BoxedStrategy<u8>) -> BoxedStrategy<FaultCase> {
        (s(kinds, 1..5, body_with(1..3, small_content(), plain_style())), huge_plan())
            .prop_map(|(c, h)| FaultCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), hows: c.hows.into_iter().map(How::coarse).collect(), faults: c.faults })
            .boxed()
    }
    vec![
        facet("interrupted-large", "the same interruptions with fields of 30-400 kB", 1_500, 20_000, || large(Just(0u8).boxed()), eval_interrupted),
        facet("interrupted-save-large", "the same through whole-request saves", 800, 10_000, || large(Just(0u8).boxed()), eval_interrupted_save),
        facet("errors-large", "the same errors with fields of 30-400 kB", 1_500, 20_000, || large(any_kind()), eval_errors),
        facet("errors-save-large", "the same through a whole-request save", 800, 10_000, || large(any_kind()), eval_errors_save),
        facet("interrupted",
              "well-formed bodies whose source reports Interrupted at 1-8 positions (biased to delimiters, headers and contents; up to 4 in a row), read by draining and by skipping; the trace must equal the one without interruptions; non-trivial: a fault and a part",
              150_000, 2_000_000, || s(Just(0u8).boxed(), 1..9, small()), eval_interrupted),
        facet("interrupted-save", "the same through whole-request saves (three thresholds/policies): full, contents identical",
              24_000, 300_000, || s(Just(0u8).boxed(), 1..9, mixed()), eval_interrupted_save),
        facet("errors",
              "hard errors of 12 kinds (and interruptions) injected at 1-6 positions; every error passed on once, in order, with its kind; field data resumes exactly where it stopped",
              200_000, 2_500_000, || s(any_kind(), 1..7, small()), eval_errors),
        facet("errors-save-text", "text fields that stop being UTF-8 after 0-6 bytes, with an error 1000-1100 bytes (or anywhere) into the field, through a whole-request save",
              12_000, 200_000, || {
                  let c = ("[a-z]{0,6}", any::<u8>(), 1000u16..3000).prop_map(|(s, k, n)| vec![Seg::Lit(s), Seg::Bad(k), Seg::Pad(n, 0)]);
                  let part = part_with(c.boxed(), plain_style()).prop_map(|mut p| { p.mime = None; p });
                  (
                      (boundary(), part, proptest::option::of(part_with(small_content(), plain_style()))),
                      prop_oneof![1 => Just(Chunk::Full), 2 => prop_oneof![Just(1u16), 1u16..200].prop_map(Chunk::Fixed)],
                      prop_oneof![3 => (1000u16..1100).prop_map(|n| At::Off(0, n)), 1 => any::<u16>().prop_map(|f| At::Content(0, f))], any_kind(),
                      proptest::collection::vec(how(), 1..3),
                  )
                      .prop_map(|((boundary, a, b), chunk, at, k, hows)| FaultCase {
                          body: Body { boundary, preamble: None, parts: std::iter::once(a).chain(b).collect(), epilogue: 1 },
                          chunk, faults: vec![(at, k, 1), (At::Any(u32::MAX - 1), 0, 1)], hows,
                      })
                      .boxed()
              }, eval_errors_save),
        facet("errors-save", "the same through a whole-request save: stops with the injected kind; saved prefix plus the rest of the field equals the contents",
              60_000, 600_000, || s(any_kind(), 1..4, mixed()), eval_errors_save),
    ]
}
