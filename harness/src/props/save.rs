//! M10-M15, M22: saving requests and fields.

use crate::drive::*;
use crate::dsl::*;
use crate::engine::*;
use crate::fsx::{self, CaseDir, Node};
use multipart::server::save::{Entries, EntriesSaveResult, FieldSaveResult, PartialReason, SaveBuilder, SaveDir, SaveResult, SavedData};
use multipart::server::{Multipart, MultipartData, MultipartField, ReadEntry};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::fs;
use std::io::{BufRead, Read};
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ------------------------------------------------------------------------------------ vocabulary

/// A limit, absolute or relative to the length of one of the contents.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lim {
    /// the setter is not called
    Default,
    None,
    Abs(u32),
    Rel(u8, i8),
}

impl Lim {
    /// `None`: not set. `Some(None)`: unlimited.
    pub fn resolve(&self, r: &Rendered) -> Option<Option<u64>> {
        match self {
            Lim::Default => None,
            Lim::None => Some(None),
            Lim::Abs(n) => Some(Some(*n as u64)),
            Lim::Rel(i, d) => {
                let l = if r.parts.is_empty() { 0 } else { r.content(*i as usize % r.parts.len()).len() };
                Some(Some((l as i64 + *d as i64).max(0) as u64))
            }
        }
    }
}

pub fn lim() -> BoxedStrategy<Lim> {
    prop_oneof![
        1 => Just(Lim::None),
        3 => prop_oneof![0u32..20, 0u32..400, 1000u32..1100, 0u32..20000, Just(1024u32), Just(8192u32)].prop_map(Lim::Abs),
        4 => (any::<u8>(), -3i8..4).prop_map(|(a, b)| Lim::Rel(a, b)),
        1 => (any::<u8>(), any::<i8>()).prop_map(|(a, b)| Lim::Rel(a, b)),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
    Try,
    Force,
    Ignore,
}

pub fn policy(text: u8) -> Policy {
    match text % 4 {
        2 => Policy::Force,
        3 => Policy::Ignore,
        _ => Policy::Try,
    }
}

pub fn apply_text<S>(b: SaveBuilder<S>, text: u8) -> SaveBuilder<S> {
    match text % 4 {
        0 => b,
        1 => b.try_text(),
        2 => b.force_text(),
        _ => b.ignore_text(),
    }
}

pub const DEF_SIZE: u64 = 8 << 20;
pub const DEF_MEM: u64 = 10 << 10;
pub const DEF_COUNT: u64 = 256;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    Text,
    Bytes,
    AnyMem,
    File,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Full,
    Size,
    Utf8,
}

#[derive(Clone, Copy, Debug)]
pub struct Want {
    pub len: usize,
    /// any valid prefix up to `len` will do
    pub up_to: bool,
    pub place: Place,
    pub why: Why,
}

/// What saving a field with these contents may produce.
pub fn model(content: &[u8], policy: Policy, size: u64, thr: u64) -> Vec<Want> {
    let len = content.len();
    let m = size.min(thr).min(usize::max_value() as u64) as usize;
    let head = &content[..len.min(m)];
    let bad = match std::str::from_utf8(head) {
        Ok(_) => None,
        Err(e) if e.error_len().is_some() || len <= m => Some(e.valid_up_to()),
        Err(_) => None,
    };
    let utf8 = |v| Want { len: v, up_to: true, place: Place::AnyMem, why: Why::Utf8 };
    let mut out = Vec::new();
    if len <= m {
        out.push(match (policy, bad) {
            (Policy::Ignore, _) => Want { len, up_to: false, place: Place::Bytes, why: Why::Full },
            (_, None) => Want { len, up_to: false, place: Place::Text, why: Why::Full },
            (Policy::Try, Some(_)) => Want { len, up_to: false, place: Place::Bytes, why: Why::Full },
            (Policy::Force, Some(v)) => utf8(v),
        });
        return out;
    }
    if size <= thr {
        let place = if policy == Policy::Ignore { Place::Bytes } else { Place::AnyMem };
        out.push(Want { len: size as usize, up_to: false, place, why: Why::Size });
    } else if (len as u64) <= size {
        out.push(Want { len, up_to: false, place: Place::File, why: Why::Full });
    } else {
        out.push(Want { len: size as usize, up_to: false, place: Place::File, why: Why::Size });
    }
    if let (Policy::Force, Some(v)) = (policy, bad) {
        // forced text is only promised to be validated up to the threshold
        out.push(utf8(v));
    }
    out
}

pub fn why_of(r: &PartialReason) -> String {
    match r {
        PartialReason::CountLimit => "CountLimit".into(),
        PartialReason::SizeLimit => "SizeLimit".into(),
        PartialReason::IoError(e) => format!("IoError({:?}: {})", e.kind(), e),
        PartialReason::Utf8Error(e) => format!("Utf8Error({})", e),
    }
}

pub fn place_of(d: &SavedData) -> &'static str {
    match d {
        SavedData::Text(_) => "text",
        SavedData::Bytes(_) => "bytes",
        SavedData::File(..) => "file",
    }
}

/// Read saved data back, checking that all ways of looking at it agree.
pub fn read_back(d: &SavedData) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    d.readable().and_then(|mut x| x.read_to_end(&mut v)).map_err(|e| format!("reading saved data back: {}", e))?;
    let mut w = Vec::new();
    let mut rd = d.readable().map_err(|e| format!("reading saved data back: {}", e))?;
    loop {
        let k = {
            let b = rd.fill_buf().map_err(|e| format!("reading saved data back: {}", e))?;
            w.extend_from_slice(b);
            b.len()
        };
        if k == 0 {
            break;
        }
        rd.consume(k);
    }
    if v != w {
        return Err(format!("saved data reads differently through its buffer: {}", diff(&w, &v)));
    }
    // piecemeal, mixing buffered and plain reads
    let mut rd = d.readable().map_err(|e| format!("reading saved data back: {}", e))?;
    let mut u = Vec::new();
    let mut step = v.len() % 5;
    while u.len() <= v.len() {
        step += 1;
        let left = v.len() - u.len();
        if step % 3 == 2 {
            let mut t = [0u8; 7];
            let k = rd.read(&mut t[..step % 7 + 1]).map_err(|e| format!("reading saved data back: {}", e))?;
            u.extend_from_slice(&t[..k]);
            if k == 0 {
                break;
            }
        } else {
            let b = rd.fill_buf().map_err(|e| format!("reading saved data back: {}", e))?;
            if b.is_empty() {
                break;
            }
            // far from the end in big steps, near it in small ones
            let k = if left > 40 { b.len().min(left - 37) } else { (step * 5 % 3 + 1).min(b.len()) };
            u.extend_from_slice(&b[..k]);
            rd.consume(k);
        }
    }
    if v != u {
        return Err(format!("saved data reads differently in small pieces: {}", diff(&u, &v)));
    }
    match d {
        SavedData::Text(t) if t.as_bytes() != &v[..] => return Err("saved text differs from its reader".into()),
        SavedData::Bytes(b) if *b != v => return Err("saved bytes differ from their reader".into()),
        SavedData::File(p, _) => {
            let raw = fs::read(p).map_err(|e| format!("saved file: {}", e))?;
            if raw != v {
                return Err("saved file differs from its reader".into());
            }
        }
        _ => {}
    }
    if d.size() != v.len() as u64 {
        return Err(format!("saved data of {} bytes reports a size of {}", v.len(), d.size()));
    }
    if d.is_memory() != !matches!(d, SavedData::File(..)) {
        return Err("is_memory is wrong".into());
    }
    Ok(v)
}

/// Compare a piece of saved data and its outcome with the alternatives the model allows.
pub fn check_data(content: &[u8], wants: &[Want], got: &SavedData, why: Why) -> Result<usize, String> {
    let v = read_back(got)?;
    let mut msgs = Vec::new();
    for w in wants {
        if w.why != why {
            msgs.push(format!("outcome {:?}, want {:?}", why, w.why));
            continue;
        }
        if w.up_to {
            if v.len() > w.len || !content.starts_with(&v) || std::str::from_utf8(&v).is_err() {
                msgs.push(format!("held data is not a valid prefix (of at most {} bytes): {}", w.len, show(&v)));
                continue;
            }
        } else if v != content[..w.len] {
            msgs.push(format!("saved data differ: {}", diff(&v, &content[..w.len])));
            continue;
        }
        let ok = match w.place {
            Place::Text => matches!(got, SavedData::Text(_)),
            Place::Bytes => matches!(got, SavedData::Bytes(_)),
            Place::AnyMem => got.is_memory(),
            Place::File => !got.is_memory(),
        };
        if !ok {
            msgs.push(format!("saved as {} ({} bytes), want {:?}", place_of(got), v.len(), w.place));
            continue;
        }
        return Ok(v.len());
    }
    Err(msgs.join("; or "))
}

// --------------------------------------------------------------------------- whole-request saves

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dest {
    Temp,
    Prefix(String),
    WithTempDir,
    /// number of missing parent directories; 8 added for a path relative to the working directory
    Dir(u8),
    /// an existing permanent directory through with_entries
    Entries,
}

pub fn dest() -> BoxedStrategy<Dest> {
    prop_oneof![
        2 => Just(Dest::Temp),
        1 => prop_oneof!["[a-zA-Z0-9_-]{0,10}", "[-_. a-z\u{e9}]{1,6}"].prop_map(Dest::Prefix),
        1 => Just(Dest::WithTempDir),
        2 => (0u8..4).prop_map(Dest::Dir),
        1 => (8u8..12).prop_map(Dest::Dir),
        1 => (16u8..19).prop_map(Dest::Dir),
        1 => Just(Dest::Entries),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SaveCase {
    pub body: Body,
    pub chunk: Chunk,
    pub size: Lim,
    pub count: Lim,
    pub thr: Lim,
    pub text: u8,
    pub dest: Dest,
}

pub struct Resolved {
    pub size: u64,
    pub thr: u64,
    pub count: u64,
}

pub fn resolve(c: &SaveCase, r: &Rendered) -> Resolved {
    let f = |l: &Lim, def: u64| l.resolve(r).map_or(def, |x| x.unwrap_or(u64::max_value()));
    let count = match c.count {
        // relative to the number of parts
        Lim::Rel(_, d) => (r.parts.len() as i64 + d as i64).max(0) as u64,
        _ => f(&c.count, DEF_COUNT),
    };
    Resolved { size: f(&c.size, DEF_SIZE), thr: f(&c.thr, DEF_MEM), count }
}

pub fn opt(v: u64) -> Option<u64> {
    if v == u64::max_value() { None } else { Some(v) }
}

pub fn configure<M: ReadEntry>(mut b: SaveBuilder<M>, c: &SaveCase, x: &Resolved) -> SaveBuilder<M> {
    if c.size != Lim::Default {
        b = b.size_limit(opt(x.size));
    }
    if c.thr != Lim::Default {
        b = b.memory_threshold(x.thr);
    }
    if c.count != Lim::Default {
        b = b.count_limit(opt(x.count).map(|n| n as u32));
    }
    apply_text(b, c.text)
}

/// The same place as an absolute path, relative to the working directory.
pub fn relative(p: &Path) -> PathBuf {
    let up = std::env::current_dir().unwrap().components().count() - 1;
    let mut q: PathBuf = (0..up).map(|_| "..").collect();
    q.extend(p.components().skip(1));
    q
}

/// The absolute path of a place, without following anything.
pub fn plain(p: &Path) -> PathBuf {
    let mut q = std::env::current_dir().unwrap();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => { q.pop(); }
            std::path::Component::CurDir => {}
            c => q.push(c),
        }
    }
    q
}

pub fn perm_path(d: &CaseDir, depth: u8) -> PathBuf {
    // 16: relative to the directory of the case, which is the working directory then
    let mut p = if depth & 16 != 0 { PathBuf::new() } else if depth & 8 != 0 { relative(d.path()) } else { d.path().to_path_buf() };
    for i in 0..depth % 8 {
        p = p.join(format!("missing{}", i));
    }
    p.join("saved")
}

/// Whether the destination is given relative to the directory of the case.
pub fn enter(dest: &Dest, d: &CaseDir) {
    if matches!(dest, Dest::Dir(n) if n & 16 != 0) {
        d.enter();
    }
}

pub fn save_to<M: ReadEntry>(b: SaveBuilder<M>, dest: &Dest, d: &CaseDir) -> EntriesSaveResult<M> {
    match dest {
        Dest::Temp => b.temp(),
        Dest::Prefix(p) => b.temp_with_prefix(p),
        Dest::WithTempDir => b.with_temp_dir(tempfile::Builder::new().prefix("own").tempdir_in(d.path()).unwrap()),
        Dest::Dir(n) => b.with_dir(perm_path(d, *n)),
        Dest::Entries => {
            let p = d.path().join("existing");
            fs::create_dir_all(&p).unwrap();
            b.with_entries(Entries::new(SaveDir::Perm(p)))
        }
    }
}

/// Read the rest of a field.
pub fn rest_of<M: ReadEntry>(f: &mut MultipartField<M>) -> Result<Vec<u8>, String>
where
    MultipartData<M>: Read,
{
    let mut v = Vec::new();
    f.data.read_to_end(&mut v).map_err(|e| format!("reading on after a partial save: {}", e))?;
    Ok(v)
}

pub fn check_headers(h: &multipart::server::FieldHeaders, p: &RPart) -> Outcome {
    let mime = h.content_type.as_ref().map(|m| m.to_string());
    let want = p.mime.as_ref().map(|m| m.parse::<mime::Mime>().unwrap().to_string());
    if *h.name != *p.name || h.filename != p.filename || mime != want {
        return Err(format!("headers {:?} {:?} {:?}, want {:?} {:?} {:?}", h.name, h.filename, mime, p.name, p.filename, want));
    }
    Ok(())
}

/// Check that `entries` holds exactly the given parts; returns the files they are in.
pub fn check_entries(entries: &Entries, r: &Rendered, parts: &[(usize, Vec<Want>)]) -> Result<Vec<PathBuf>, String> {
    let mut files = Vec::new();
    let mut names: Vec<&str> = Vec::new();
    for (i, _) in parts {
        if !names.contains(&&*r.parts[*i].name) {
            names.push(&r.parts[*i].name);
        }
    }
    if entries.fields.len() != names.len() {
        return Err(format!("{} distinct names saved, want {}", entries.fields.len(), names.len()));
    }
    for name in names {
        let got = match entries.fields.get(name) {
            Some(g) => g,
            None => return Err(format!("field {:?} is missing", name)),
        };
        let mine: Vec<&(usize, Vec<Want>)> = parts.iter().filter(|(i, _)| r.parts[*i].name == name).collect();
        if got.len() != mine.len() {
            return Err(format!("field {:?} has {} entries, want {}", name, got.len(), mine.len()));
        }
        for (g, (i, wants)) in got.iter().zip(mine) {
            check_headers(&g.headers, &r.parts[*i]).map_err(|m| format!("entry {}: {}", i, m))?;
            check_data(r.content(*i), wants, &g.data, Why::Full).map_err(|m| format!("entry {} ({:?}): {}", i, name, m))?;
            if let SavedData::File(p, _) = &g.data {
                files.push(p.clone());
            }
        }
    }
    if entries.fields_count() as usize != parts.len() {
        return Err(format!("fields_count is {}, {} fields are held", entries.fields_count(), parts.len()));
    }
    if entries.is_empty() != parts.is_empty() {
        return Err(format!("is_empty is {} with {} fields", entries.is_empty(), parts.len()));
    }
    // the debugging output shows the contents of all fields, those of one name in order
    if parts.iter().map(|(i, _)| r.content(*i).len()).sum::<usize>() < 4000 {
        let mut out = Vec::new();
        entries.write_debug(&mut out).map_err(|e| format!("write_debug: {}", e))?;
        let mut at: HashMap<&str, usize> = HashMap::new();
        for (i, _) in parts {
            let from = at.entry(&r.parts[*i].name).or_insert(0);
            let content = r.content(*i);
            match (0..=(out.len() - *from).saturating_sub(content.len())).find(|k| out[*from + k..].starts_with(content)) {
                Some(k) => *from += k + content.len(),
                None => return Err(format!("write_debug doesn't show the contents of entry {}", i)),
            }
        }
    }
    Ok(files)
}

/// The directory holds exactly these files.
pub fn check_dir(dir: &Path, files: &[PathBuf]) -> Outcome {
    let t = fsx::tree(&plain(dir));
    let files: Vec<PathBuf> = files.iter().map(|f| plain(f)).collect();
    let mut want: Vec<&PathBuf> = files.iter().collect();
    want.sort();
    let n = want.len();
    want.dedup();
    if want.len() != n {
        return Err("two saved fields share a file".into());
    }
    let got: Vec<&PathBuf> = t.keys().collect();
    if got != want {
        return Err(format!("directory {:?} contains {:?}, saved files are {:?}", dir, got, want));
    }
    Ok(())
}

pub fn field_policy(p: &RPart, text: u8) -> Policy {
    let textual = p.mime.as_ref().map_or(true, |m| m.starts_with("text/"));
    if textual { policy(text) } else { Policy::Ignore }
}

pub fn eval_save(c: &SaveCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let x = resolve(c, &r);
    let d = CaseDir::new();
    enter(&c.dest, &d);
    fsx::clean_tmp();
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);

    // the model of the whole request
    let mut full: Vec<(usize, Vec<Want>)> = Vec::new();
    let mut stop: Option<(usize, Vec<Want>)> = None;
    let mut over_count = None;
    for (i, p) in r.parts.iter().enumerate() {
        if full.len() as u64 >= x.count {
            over_count = Some(i);
            break;
        }
        let w = model(r.content(i), field_policy(p, c.text), x.size, x.thr);
        if w[0].why == Why::Full && w.len() == 1 {
            full.push((i, w));
        } else if w[0].why == Why::Full {
            // may also stop here
            stop = Some((i, w));
            break;
        } else {
            stop = Some((i, w));
            break;
        }
    }
    for (_, w) in full.iter().chain(stop.iter()) {
        obs.class(match (w[0].place, w[0].why) {
            (Place::Text, Why::Full) => "text",
            (Place::Bytes, Why::Full) => "bytes",
            (Place::File, Why::Full) => "file",
            (Place::File, Why::Size) => "size limit on disk",
            (_, Why::Size) => "size limit in memory",
            (_, Why::Utf8) => "UTF-8 error",
            _ => "other",
        });
    }
    obs.class_if(over_count.is_some(), "count limit");
    obs.nt(!r.parts.is_empty());

    let ambiguous = stop.as_ref().map_or(false, |(_, w)| w.len() > 1 && w[0].why == Why::Full);
    let res = save_to(configure(mp.save(), c, &x), &c.dest, &d);
    let entries;
    let mut all_files;
    match res {
        SaveResult::Error(e) => return Err(format!("the save failed: {}", e)),
        SaveResult::Full(e) => {
            if ambiguous {
                // the allowed alternative: the whole field went to a file
                return Ok(());
            }
            if let Some((i, w)) = &stop {
                return Err(format!("full success although part {} must stop the save ({:?} at {} of {} bytes)", i, w[0].why, w[0].len, r.content(*i).len()));
            }
            if let Some(i) = over_count {
                return Err(format!("full success although part {} exceeds the count limit {}", i, x.count));
            }
            all_files = check_entries(&e, &r, &full)?;
            entries = e;
        }
        SaveResult::Partial(p, why) => {
            if ambiguous && matches!(why, PartialReason::Utf8Error(_)) == false {
                return Err(format!("stopped with {}", why_of(&why)));
            }
            let (pe, partial) = (p.entries, p.partial);
            let w = match &why {
                PartialReason::SizeLimit => Why::Size,
                PartialReason::Utf8Error(_) => Why::Utf8,
                PartialReason::CountLimit => {
                    let i = match over_count {
                        Some(i) => i,
                        None => return Err(format!("stopped with the count limit {} after {} of {} parts", x.count, pe.fields_count(), r.parts.len())),
                    };
                    let mut p = match partial {
                        Some(p) => p,
                        None => return Err("the field over the count limit was not handed back".into()),
                    };
                    if p.dest.is_some() {
                        return Err("the field over the count limit was saved".into());
                    }
                    check_headers(&p.source.headers, &r.parts[i]).map_err(|m| format!("field handed back: {}", m))?;
                    let v = rest_of(&mut p.source)?;
                    if v != r.content(i) {
                        return Err(format!("field handed back at the count limit is not unread: {}", diff(&v, r.content(i))));
                    }
                    let files = check_entries(&pe, &r, &full)?;
                    check_dir(pe.save_dir.as_path(), &files)?;
                    return finish(pe, &c.dest, &d);
                }
                PartialReason::IoError(e) => return Err(format!("stopped with an I/O error: {}", e)),
            };
            let (i, wants) = match &stop {
                Some(s) => (s.0, &s.1),
                None => return Err(format!("stopped with {} after {} fields, nothing should stop it", why_of(&why), pe.fields_count())),
            };
            let mut p = match partial {
                Some(p) => p,
                None => return Err(format!("stopped with {} without the partial field", why_of(&why))),
            };
            check_headers(&p.source.headers, &r.parts[i]).map_err(|m| format!("partial field: {}", m))?;
            let content = r.content(i);
            all_files = check_entries(&pe, &r, &full)?;
            let n = match &p.dest {
                Some(dst) => {
                    let n = check_data(content, wants, dst, w).map_err(|m| format!("partial field {}: {}", i, m))?;
                    if let SavedData::File(f, _) = dst {
                        all_files.push(f.clone());
                    }
                    n
                }
                None => return Err(format!("stopped with {} without the data saved so far", why_of(&why))),
            };
            let v = rest_of(&mut p.source)?;
            if v != content[n..] {
                return Err(format!("{} bytes saved, the rest of field {} reads: {}", n, i, diff(&v, &content[n..])));
            }
            entries = pe;
        }
    }
    check_dir(entries.save_dir.as_path(), &all_files)?;
    finish(entries, &c.dest, &d)
}

/// Checks on the save directory, then its disposal.
pub fn finish(entries: Entries, dest: &Dest, d: &CaseDir) -> Outcome {
    let path = entries.save_dir.as_path().to_path_buf();
    if !path.is_dir() {
        return Err(format!("the save directory {:?} does not exist", path));
    }
    let temp = entries.save_dir.is_temporary();
    match dest {
        Dest::Temp | Dest::Prefix(_) => {
            if path.parent() != Some(&*fsx::tmp()) {
                return Err(format!("temporary directory {:?} is not in {:?}", path, fsx::tmp()));
            }
            let want = if let Dest::Prefix(p) = dest { p.as_str() } else { "multipart-rs" };
            if !path.file_name().unwrap().to_string_lossy().starts_with(want) {
                return Err(format!("temporary directory {:?} lacks the prefix {:?}", path, want));
            }
        }
        Dest::Dir(n) => {
            if plain(&path) != plain(&perm_path(d, *n)) {
                return Err(format!("saved to {:?} instead of {:?}", path, perm_path(d, *n)));
            }
        }
        _ => {}
    }
    let want_temp = matches!(dest, Dest::Temp | Dest::Prefix(_) | Dest::WithTempDir);
    if temp != want_temp {
        return Err("is_temporary is wrong".into());
    }
    drop(entries);
    if temp && path.exists() {
        return Err("the temporary directory survived the result".into());
    }
    if !temp && !path.exists() {
        return Err("the permanent directory vanished".into());
    }
    let left = fsx::list(&fsx::tmp());
    if !left.is_empty() {
        return Err(format!("left in the temporary directory: {:?}", left));
    }
    Ok(())
}

fn dup_names(b: Body, sel: Vec<u8>) -> Body {
    let mut b = b;
    for (p, s) in b.parts.iter_mut().zip(sel) {
        match s {
            0 => p.name = "a".into(),
            1 => p.name = "b".into(),
            _ => {}
        }
    }
    b
}

pub fn save_body(content: BoxedStrategy<Vec<Seg>>, n: std::ops::Range<usize>) -> BoxedStrategy<Body> {
    (body_with(n, content, plain_style()), proptest::collection::vec(0u8..5, 6)).prop_map(|(b, s)| dup_names(b, s)).boxed()
}

/// Contents that are mostly valid UTF-8, with multi-byte characters around buffer edges.
pub fn text_content() -> BoxedStrategy<Vec<Seg>> {
    let piece = || prop_oneof![
        3 => "[a-z ]{0,10}".prop_map(Seg::Lit),
        1 => odd(),
        4 => (0u8..3, 0u16..40).prop_map(|(a, b)| Seg::Mb(a, b)),
        1 => any::<u8>().prop_map(Seg::Bad),
        1 => Just(Seg::Cr),
        1 => any::<u8>().prop_map(Seg::Pre),
        1 => Just(Seg::Crlf),
    ];
    prop_oneof![
        4 => proptest::collection::vec(piece(), 0..5),
        2 => (select(EDGES.to_vec()), -6i8..3, any::<bool>(), proptest::collection::vec(piece(), 1..4)).prop_map(|(t, d, abs, mut v)| {
            v.insert(0, if abs { Seg::PadAbs(t, d) } else { Seg::Pad(t, d) });
            v
        }),
        1 => (0u8..3, 300u16..4000).prop_map(|(a, b)| vec![Seg::Mb(a, b)]),
        2 => (proptest::collection::vec(piece(), 0..3), any::<u8>(), proptest::collection::vec(piece(), 0..2)).prop_map(|(mut a, k, b)| {
            a.push(Seg::Bad(k));
            a.extend(b);
            a
        }),
    ]
    .boxed()
}

pub fn mixed_content() -> BoxedStrategy<Vec<Seg>> {
    prop_oneof![2 => content(), 1 => text_content()].boxed()
}

pub fn text_mode() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 1 => Just(1u8), 2 => Just(3u8)].boxed()
}

pub fn case(body: BoxedStrategy<Body>, size: BoxedStrategy<Lim>, count: BoxedStrategy<Lim>, thr: BoxedStrategy<Lim>, text: BoxedStrategy<u8>) -> BoxedStrategy<SaveCase> {
    (body, chunk(), size, count, thr, text, dest())
        .prop_map(|(body, chunk, size, count, thr, text, dest)| SaveCase { body, chunk, size, count, thr, text, dest })
        .boxed()
}

impl Lim {
    /// The same for a lot of data.
    pub fn scaled(self) -> Lim {
        match self {
            Lim::Abs(n) if n >= 1000 => Lim::Abs(n.saturating_mul(16)),
            l => l,
        }
    }
}

/// Saves of a lot of data.
pub fn large_case(content: BoxedStrategy<Vec<Seg>>, size: BoxedStrategy<Lim>, thr: BoxedStrategy<Lim>, text: BoxedStrategy<u8>) -> BoxedStrategy<SaveCase> {
    (case(save_body(content, 1..4), size, no_lim(), thr, text), huge_plan())
        .prop_map(|(c, h)| SaveCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), size: c.size.scaled(), thr: c.thr.scaled(), ..c })
        .boxed()
}

pub fn large_field_case(content: BoxedStrategy<Vec<Seg>>, size: BoxedStrategy<Lim>, thr: BoxedStrategy<Lim>, text: BoxedStrategy<u8>) -> BoxedStrategy<FieldCase> {
    (field_case(content, size, thr, text), huge_plan())
        .prop_map(|(mut c, h)| {
            for s in &mut c.saves {
                s.size = s.size.clone().scaled();
                s.thr = s.thr.clone().scaled();
            }
            FieldCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), ..c }
        })
        .boxed()
}

pub fn thr_lim() -> BoxedStrategy<Lim> {
    prop_oneof![2 => Just(Lim::Default), 1 => Just(Lim::Abs(0)), 4 => lim()].boxed()
}

pub fn no_lim() -> BoxedStrategy<Lim> {
    prop_oneof![Just(Lim::Default), Just(Lim::None), Just(Lim::Abs(200_000_000))].boxed()
}

// ------------------------------------------------------------------------------ field-level saves

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FDest {
    Temp,
    Filename(String),
    Dir(u8),
    Path(u8),
    WriteTo,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldSave {
    pub size: Lim,
    pub thr: Lim,
    pub text: u8,
    pub dest: FDest,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FieldCase {
    pub body: Body,
    pub chunk: Chunk,
    pub saves: Vec<FieldSave>,
    pub read_rest: bool,
}

fn fdest() -> BoxedStrategy<FDest> {
    prop_oneof![
        1 => Just(FDest::Temp),
        1 => "[a-z]{1,8}(\\.[a-z]{1,3})?".prop_map(FDest::Filename),
        2 => (0u8..4).prop_map(FDest::Dir),
        1 => (8u8..12).prop_map(FDest::Dir),
        2 => (0u8..4).prop_map(FDest::Path),
        1 => prop_oneof![(16u8..19).prop_map(FDest::Path), (16u8..19).prop_map(FDest::Dir)],
        1 => Just(FDest::WriteTo),
    ]
    .boxed()
}

pub fn field_case(content: BoxedStrategy<Vec<Seg>>, size: BoxedStrategy<Lim>, thr: BoxedStrategy<Lim>, text: BoxedStrategy<u8>) -> BoxedStrategy<FieldCase> {
    let fs_ = (size, thr, text, fdest()).prop_map(|(size, thr, text, dest)| FieldSave { size, thr, text, dest });
    (body_with(1..4, content, plain_style()), chunk(), proptest::collection::vec(fs_, 1..4), any::<bool>())
        .prop_map(|(body, chunk, saves, read_rest)| FieldCase { body, chunk, saves, read_rest })
        .boxed()
}

pub fn nested(base: &Path, n: u8) -> PathBuf {
    // 16: relative to the directory of the case, which is the working directory then
    let mut p = if n & 16 != 0 { PathBuf::new() } else if n & 8 != 0 { relative(base) } else { base.to_path_buf() };
    for i in 0..n % 8 {
        p = p.join(format!("m{}", i));
    }
    p
}

pub fn eval_field(c: &FieldCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    for i in 0..r.parts.len() {
        let d = CaseDir::new();
        fsx::clean_tmp();
        let s = &c.saves[i % c.saves.len()];
        if matches!(s.dest, FDest::Dir(k) | FDest::Path(k) if k & 16 != 0) {
            d.enter();
            obs.class("relative to the working directory");
        }
        let content = r.content(i);
        let mut f = match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("end reported before field {}", i)),
            Err(e) => return Err(format!("field {} cannot be read: {}", i, e)),
        };
        check_headers(&f.headers, &r.parts[i])?;
        let size = s.size.resolve(&r).map_or(DEF_SIZE, |x| x.unwrap_or(u64::max_value()));
        let thr = s.thr.resolve(&r).map_or(DEF_MEM, |x| x.unwrap_or(u64::max_value()));
        let n;
        {
            let mut b = f.data.save();
            if s.size != Lim::Default {
                b = b.size_limit(opt(size));
            }
            if s.thr != Lim::Default {
                b = b.memory_threshold(thr);
            }
            b = apply_text(b, s.text);
            if let FDest::WriteTo = s.dest {
                let mut out: Vec<u8> = Vec::new();
                let res = b.write_to(&mut out);
                let (k, why) = match res {
                    SaveResult::Full(k) => (k, Why::Full),
                    SaveResult::Partial(k, PartialReason::SizeLimit) => (k, Why::Size),
                    SaveResult::Partial(k, w) => return Err(format!("write_to stopped after {} with {}", k, why_of(&w))),
                    SaveResult::Error(e) => return Err(format!("write_to failed: {}", e)),
                };
                let want = (content.len() as u64).min(size) as usize;
                if out != content[..want] {
                    return Err(format!("write_to with limit {}: {}", size, diff(&out, &content[..want])));
                }
                if k != want as u64 {
                    return Err(format!("write_to reports {} bytes, wrote {}", k, want));
                }
                let ww = if content.len() as u64 > size { Why::Size } else { Why::Full };
                if why != ww {
                    return Err(format!("write_to of {} bytes with limit {} ended with {:?}", content.len(), size, why));
                }
                obs.class("write_to");
                n = want;
            } else {
                let wants = model(content, policy(s.text), size, thr);
                let (res, place): (FieldSaveResult, Result<PathBuf, PathBuf>) = match &s.dest {
                    FDest::Temp => (b.temp(), Err(fsx::tmp())),
                    FDest::Filename(nm) => (b.with_filename(nm), Ok(fsx::tmp().join(nm))),
                    FDest::Dir(k) => (b.with_dir(nested(d.path(), *k)), Err(nested(d.path(), *k))),
                    FDest::Path(k) => {
                        let p = nested(d.path(), *k).join("file.bin");
                        (b.with_path(p.clone()), Ok(p))
                    }
                    FDest::WriteTo => unreachable!(),
                };
                let (got, why) = match res {
                    SaveResult::Full(x) => (x, Why::Full),
                    SaveResult::Partial(x, PartialReason::SizeLimit) => (x, Why::Size),
                    SaveResult::Partial(x, PartialReason::Utf8Error(_)) => (x, Why::Utf8),
                    SaveResult::Partial(_, w) => return Err(format!("field {} stopped with {}", i, why_of(&w))),
                    SaveResult::Error(e) => return Err(format!("field {} failed to save: {}", i, e)),
                };
                obs.class(place_of(&got));
                obs.class_if(why == Why::Size, "size limit");
                obs.class_if(why == Why::Utf8, "UTF-8 error");
                n = check_data(content, &wants, &got, why).map_err(|m| format!("field {} (limit {}, threshold {}): {}", i, size, thr, m))?;
                // exactly the reported file exists, where asked
                let mut t = fsx::tree(d.path());
                t.extend(fsx::tree(&fsx::tmp()));
                let files: Vec<&PathBuf> = t.iter().filter(|(_, n)| matches!(n, Node::File(_))).map(|(p, _)| p).collect();
                match &got {
                    SavedData::File(p, _) => {
                        let p = &plain(p);
                        if files != [p] {
                            return Err(format!("saved to {:?}, files present: {:?}", p, files));
                        }
                        match &place {
                            Ok(want) if *p != plain(want) => return Err(format!("saved to {:?}, asked for {:?}", p, want)),
                            Err(dir) if p.parent() != Some(&*plain(dir)) => return Err(format!("saved to {:?}, asked for a file in {:?}", p, dir)),
                            _ => {}
                        }
                    }
                    _ => {
                        if !t.is_empty() {
                            return Err(format!("data held in memory but created: {:?}", t.keys().collect::<Vec<_>>()));
                        }
                    }
                }
            }
        }
        obs.nt(true);
        if c.read_rest {
            let v = rest_of(&mut f)?;
            if v != content[n..] {
                return Err(format!("{} bytes saved, the rest of field {} reads: {}", n, i, diff(&v, &content[n..])));
            }
        }
        fsx::clean_tmp();
    }
    match Multipart::read_entry(&mut mp) {
        Ok(None) => Ok(()),
        Ok(Some(_)) => Err("an extra field".into()),
        Err(e) => Err(format!("after the last field: {}", e)),
    }
}

// ------------------------------------------------------------------- fields saved in several pieces

/// A builder used one or more times on the same field.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PieceSave {
    pub size: Lim,
    pub thr: Lim,
    pub text: u8,
    /// one save for each
    pub dests: Vec<FDest>,
    /// bytes read through the field before this builder is made, and how
    pub before: u16,
    pub peek: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PiecesCase {
    pub body: Body,
    pub chunk: Chunk,
    pub plan: Vec<PieceSave>,
    /// pieces before giving up on a field
    pub most: u8,
}

pub fn pieces_case(content: BoxedStrategy<Vec<Seg>>) -> BoxedStrategy<PiecesCase> {
    let piece = (
        prop_oneof![1 => Just(Lim::None), 4 => (0u32..300).prop_map(Lim::Abs), 4 => lim()], thr_lim(), 0u8..4, proptest::collection::vec(fdest(), 1..4),
        prop_oneof![3 => Just(0u16), 1 => 1u16..40, 1 => 1u16..2000], any::<bool>(),
    )
        .prop_map(|(size, thr, text, dests, before, peek)| PieceSave { size, thr, text, dests, before, peek });
    (body_with(1..3, content, plain_style()), chunk(), proptest::collection::vec(piece, 1..5), 1u8..12)
        .prop_map(|(body, chunk, plan, most)| PiecesCase { body, chunk, plan, most })
        .boxed()
}

pub fn eval_pieces(c: &PiecesCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let d = CaseDir::new();
    fsx::clean_tmp();
    let mut file_no = 0;
    // every file saved so far and what it has to hold
    let mut files: Vec<(PathBuf, Vec<u8>)> = vec![];
    for i in 0..r.parts.len() {
        let content = r.content(i);
        let mut f = match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("end reported before field {}", i)),
            Err(e) => return Err(format!("field {} cannot be read: {}", i, e)),
        };
        check_headers(&f.headers, &r.parts[i])?;
        let mut pos = 0usize;
        let mut pieces = 0;
        'field: for s in c.plan.iter().cycle() {
            if s.before > 0 {
                let want = (s.before as usize).min(content.len() - pos);
                let mut v = vec![0u8; want];
                if s.peek {
                    let mut at = 0;
                    while at < want {
                        let k = {
                            let b = f.data.fill_buf().map_err(|e| e.to_string())?;
                            let k = b.len().min(want - at);
                            v[at..at + k].copy_from_slice(&b[..k]);
                            k
                        };
                        if k == 0 {
                            return Err(format!("the field ends at {} of {}", pos + at, content.len()));
                        }
                        f.data.consume(k);
                        at += k;
                    }
                } else {
                    f.data.read_exact(&mut v).map_err(|e| format!("reading {} bytes at {} of {}: {}", want, pos, content.len(), e))?;
                }
                if v != content[pos..pos + want] {
                    return Err(format!("read at {}: {}", pos, diff(&v, &content[pos..pos + want])));
                }
                pos += want;
            }
            let size = s.size.resolve(&r).map_or(DEF_SIZE, |x| x.unwrap_or(u64::max_value()));
            let thr = s.thr.resolve(&r).map_or(DEF_MEM, |x| x.unwrap_or(u64::max_value()));
            let mut b = f.data.save();
            if s.size != Lim::Default {
                b = b.size_limit(opt(size));
            }
            if s.thr != Lim::Default {
                b = b.memory_threshold(thr);
            }
            b = apply_text(b, s.text);
            for (use_no, dest) in s.dests.iter().enumerate() {
                let rest = &content[pos..];
                let at = format!("piece {} of field {} at {} of {} (use {} of its builder, limit {}, threshold {}, {:?})", pieces, i, pos, content.len(), use_no, size, thr, policy(s.text));
                file_no += 1;
                let path = d.path().join(format!("p{}/file", file_no));
                let before_files: Vec<PathBuf> = files.iter().map(|x| x.0.clone()).collect();
                let n = if let FDest::WriteTo = dest {
                    let mut out: Vec<u8> = Vec::new();
                    let (k, over) = match b.write_to(&mut out) {
                        SaveResult::Full(k) => (k, false),
                        SaveResult::Partial(k, PartialReason::SizeLimit) => (k, true),
                        other => return Err(format!("{}: write_to gave {:?}", at, other)),
                    };
                    let want = (rest.len() as u64).min(size) as usize;
                    if out != rest[..want] || k != want as u64 || over != (rest.len() as u64 > size) {
                        return Err(format!("{}: write_to reports {} bytes (size limit hit: {}): {}", at, k, over, diff(&out, &rest[..want])));
                    }
                    want
                } else {
                    let wants = model(rest, policy(s.text), size, thr);
                    let (res, dir) = match dest {
                        FDest::Temp => (b.temp(), fsx::tmp()),
                        FDest::Filename(_) => (b.with_filename(&format!("f{}", file_no)), fsx::tmp()),
                        FDest::Dir(_) => (b.with_dir(d.path().join("dir")), d.path().join("dir")),
                        _ => (b.with_path(path.clone()), path.parent().unwrap().to_path_buf()),
                    };
                    let (got, why) = match res {
                        SaveResult::Full(x) => (x, Why::Full),
                        SaveResult::Partial(x, PartialReason::SizeLimit) => (x, Why::Size),
                        SaveResult::Partial(x, PartialReason::Utf8Error(_)) => (x, Why::Utf8),
                        SaveResult::Partial(_, w) => return Err(format!("{}: stopped with {}", at, why_of(&w))),
                        SaveResult::Error(e) => return Err(format!("{}: failed: {}", at, e)),
                    };
                    let n = check_data(rest, &wants, &got, why).map_err(|m| format!("{}: {}", at, m))?;
                    if let SavedData::File(p, _) = &got {
                        if p.parent() != Some(&*dir) || before_files.contains(p) {
                            return Err(format!("{}: saved to {:?}, want a new file in {:?}", at, p, dir));
                        }
                        files.push((p.clone(), rest[..n].to_vec()));
                    }
                    n
                };
                pieces += 1;
                obs.class_if(pos > 0 && n > 0, "continued");
                obs.class_if(use_no > 0 && n > 0, "builder used again");
                obs.nt(pos > 0 && n > 0);
                pos += n;
                if pieces >= c.most as usize {
                    break 'field;
                }
            }
        }
        let v = rest_of(&mut f)?;
        if v != content[pos..] {
            return Err(format!("field {}: after {} pieces of {} bytes in total, the rest reads: {}", i, pieces, pos, diff(&v, &content[pos..])));
        }
    }
    // nothing else was created, and no piece touched another
    for (p, v) in &files {
        if fs::read(p).ok().as_ref() != Some(v) {
            return Err(format!("{:?} was changed by a later save", p));
        }
    }
    let mut t = fsx::tree(d.path());
    t.extend(fsx::tree(&fsx::tmp()));
    let n = t.values().filter(|n| matches!(n, Node::File(_))).count();
    if n != files.len() {
        return Err(format!("{} files exist, {} were reported", n, files.len()));
    }
    fsx::clean_tmp();
    match Multipart::read_entry(&mut mp) {
        Ok(None) => Ok(()),
        Ok(Some(_)) => Err("an extra field".into()),
        Err(e) => Err(format!("after the last field: {}", e)),
    }
}

// ------------------------------------------------------------------------------------------- M10

pub fn m10() -> Vec<Facet> {
    vec![
        facet("very-many", "65 530-70 000 small fields with 1-3 distinct names saved without limits: order, contents and count",
              16, 400, || very_many(false), eval_many_unlimited),
        facet("request-large", "the same with one or two contents of 30-400 kB and thresholds up to 320 000 or around those lengths",
              3_000, 40_000, || large_case(small_content(), no_lim(), thr_lim(), text_mode()), eval_save),
        facet("field-large", "the same through field-level saves",
              3_000, 40_000, || large_field_case(small_content(), no_lim(), thr_lim(), text_mode()), eval_field),
        facet("request",
              "random requests (0-5 parts, duplicate names, binary and text contents up to 30 kB) saved whole through every destination with thresholds from 0 to unlimited (biased to content lengths +-3), without limits; entries, order, headers, contents, place (memory/file), reported sizes, counts and directory contents compared with the model; non-trivial: at least one part",
              80_000, 1_000_000, || case(save_body(mixed_content(), 0..6), no_lim(), no_lim(), thr_lim(), text_mode()), eval_save),
        facet("field",
              "single fields saved through temp, with_filename, with_dir, with_path and write_to under the same variations; the next field must be unaffected",
              80_000, 1_000_000, || field_case(mixed_content(), no_lim(), thr_lim(), text_mode()), eval_field),
    ]
}

// ------------------------------------------------------------------------------------------- M11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BigCase {
    /// content length relative to the default limit
    pub delta: i16,
    pub chunk: u32,
    pub field: bool,
}

struct BigSrc {
    head: Vec<u8>,
    n: usize,
    tail: Vec<u8>,
    pos: usize,
    chunk: usize,
}

impl Read for BigSrc {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let total = self.head.len() + self.n + self.tail.len();
        let k = buf.len().min(self.chunk.max(1)).min(total - self.pos);
        for (i, b) in buf[..k].iter_mut().enumerate() {
            let p = self.pos + i;
            *b = if p < self.head.len() {
                self.head[p]
            } else if p < self.head.len() + self.n {
                big_byte(p - self.head.len())
            } else {
                self.tail[p - self.head.len() - self.n]
            };
        }
        self.pos += k;
        Ok(k)
    }
}

fn big_byte(i: usize) -> u8 {
    (i.wrapping_mul(2654435761) >> 13) as u8 | 0x80
}

fn eval_default_limit(c: &BigCase, obs: &mut Obs) -> Outcome {
    obs.nt(true);
    fsx::clean_tmp();
    let n = (DEF_SIZE as i64 + c.delta as i64) as usize;
    let src = BigSrc {
        head: b"--B\r\nContent-Disposition: form-data; name=\"a\"; filename=\"x\"\r\nContent-Type: image/png\r\n\r\n".to_vec(),
        n,
        tail: b"\r\n--B--".to_vec(),
        pos: 0,
        chunk: c.chunk as usize,
    };
    let mut mp = Multipart::with_body(src, "B");
    let want = n.min(DEF_SIZE as usize);
    let check = |dst: &SavedData| -> Outcome {
        match dst {
            SavedData::File(p, k) => {
                let v = fs::read(p).map_err(|e| e.to_string())?;
                if v.len() != want || *k != want as u64 || !v.iter().enumerate().all(|(i, b)| *b == big_byte(i)) {
                    return Err(format!("file of {} bytes (reported {}), want {}", v.len(), k, want));
                }
                Ok(())
            }
            _ => Err("not on disk".into()),
        }
    };
    if c.field {
        let mut f = Multipart::read_entry(&mut mp).map_err(|e| e.to_string())?.ok_or("no field")?;
        let r = match f.data.save().temp() {
            SaveResult::Full(x) if n as u64 <= DEF_SIZE => check(&x),
            SaveResult::Partial(x, PartialReason::SizeLimit) if n as u64 > DEF_SIZE => check(&x),
            other => Err(format!("{} bytes with the default limit: {:?}", n, other)),
        };
        fsx::clean_tmp();
        return r;
    }
    match mp.save().temp() {
        SaveResult::Full(e) if n as u64 <= DEF_SIZE => check(&e.fields["a"][0].data),
        SaveResult::Partial(p, PartialReason::SizeLimit) if n as u64 > DEF_SIZE => check(p.partial.as_ref().and_then(|p| p.dest.as_ref()).ok_or("no partial data")?),
        SaveResult::Full(_) => Err(format!("{} bytes saved in full over the default limit", n)),
        SaveResult::Partial(_, w) => Err(format!("{} bytes stopped with {}", n, why_of(&w))),
        SaveResult::Error(e) => Err(e.to_string()),
    }
}

pub fn m11() -> Vec<Facet> {
    fn any_text() -> BoxedStrategy<u8> {
        (0u8..4).boxed()
    }
    vec![
        facet("request-large", "the same with one or two contents of 30-400 kB and limits and thresholds up to 320 000 or around those lengths",
              5_000, 60_000, || large_case(small_content(), lim(), thr_lim(), any_text()), eval_save),
        facet("field-large", "the same through field-level saves",
              5_000, 60_000, || large_field_case(small_content(), lim(), thr_lim(), any_text()), eval_field),
        facet("request",
              "whole-request saves with size limits biased to content lengths +-3 and memory thresholds around them, all destinations and text policies; outcome, exact prefix in memory or on disk, untouched filesystem when the limit is within the threshold, and the unread rest compared with the model",
              90_000, 1_000_000, || case(save_body(mixed_content(), 1..5), lim(), no_lim(), thr_lim(), any_text()), eval_save),
        facet("field",
              "field-level saves (temp, with_filename, with_dir, with_path, write_to) with size limits",
              90_000, 1_000_000, || field_case(mixed_content(), lim(), thr_lim(), any_text()), eval_field),
        facet("pieces",
              "fields saved piece by piece through 1-4 builders, each used 1-3 times with any method, with reads in between; every piece is held to its limit and continues exactly where the last one ended, and no file is touched again; non-trivial: a piece that does not start at the beginning",
              60_000, 800_000, || pieces_case(mixed_content()), eval_pieces),
        facet("default-limit", "one field of 8 MiB -300..+300 bytes saved with default settings",
              24, 200, || (prop_oneof![-3i16..4, -300i16..301], prop_oneof![Just(1u32 << 20), 1000u32..9000], any::<bool>())
                  .prop_map(|(delta, chunk, field)| BigCase { delta, chunk, field }).boxed(), eval_default_limit),
    ]
}

// ------------------------------------------------------------------------------------------- M12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ResumeCase {
    pub body: Body,
    pub chunk: Chunk,
    pub limit: u8,
    pub thr: Lim,
    /// per stop: how many fields to remove (at least one), and what to do with the field handed back
    pub plan: Vec<(u8, u8)>,
    pub dest: Dest,
}

fn eval_resume(c: &ResumeCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let n = r.parts.len();
    let limit = c.limit.max(1) as usize;
    let d = CaseDir::new();
    enter(&c.dest, &d);
    fsx::clean_tmp();
    let data = Arc::new(r.bytes.clone());
    let mut mp = parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let sc = SaveCase { body: c.body.clone(), chunk: c.chunk.clone(), size: Lim::None, count: Lim::Abs(limit as u32), thr: c.thr.clone(), text: 0, dest: c.dest.clone() };
    let x = resolve(&sc, &r);
    let want = |i: usize| (i, model(r.content(i), field_policy(&r.parts[i], 0), x.size, x.thr));
    obs.nt(n > limit);
    obs.class_if(n == limit, "exactly the limit");
    obs.class_if(n == limit + 1, "one over the limit");

    // indices of the parts currently held, and the next part
    let mut held: Vec<usize> = Vec::new();
    let mut next = 0usize;
    let mut entries: Option<Entries> = None;
    let mut stops = 0usize;
    loop {
        let b = configure(mp.save(), &sc, &x);
        let res = match entries.take() {
            None => save_to(b, &c.dest, &d),
            Some(e) => b.with_entries(e),
        };
        // the model of this round
        while next < n && held.len() < limit {
            held.push(next);
            next += 1;
        }
        let wants: Vec<(usize, Vec<Want>)> = held.iter().map(|i| want(*i)).collect();
        match res {
            SaveResult::Error(e) => return Err(format!("round {}: {}", stops, e)),
            SaveResult::Full(e) => {
                if next < n {
                    return Err(format!("round {}: full success with {} of {} parts read", stops, next, n));
                }
                let files = check_entries(&e, &r, &wants)?;
                check_dir(e.save_dir.as_path(), &files)?;
                obs.class_if(stops > 0, "resumed to the end");
                return finish(e, &c.dest, &d);
            }
            SaveResult::Partial(p, why) => {
                if !matches!(why, PartialReason::CountLimit) {
                    return Err(format!("round {}: stopped with {}", stops, why_of(&why)));
                }
                if next >= n {
                    return Err(format!("round {}: stopped with the count limit {} although all {} parts fit ({} held)", stops, limit, n, held.len()));
                }
                let mut e = p.entries;
                let files = check_entries(&e, &r, &wants).map_err(|m| format!("round {}: {}", stops, m))?;
                check_dir(e.save_dir.as_path(), &files)?;
                let mut ps = match p.partial {
                    Some(p) => p,
                    None => return Err(format!("round {}: the field over the limit was lost", stops)),
                };
                if ps.dest.is_some() {
                    return Err("the field over the limit was saved".into());
                }
                check_headers(&ps.source.headers, &r.parts[next]).map_err(|m| format!("round {}: field handed back: {}", stops, m))?;
                let (k, act) = c.plan.get(stops).cloned().unwrap_or((1, 0));
                match act % 3 {
                    0 => {
                        let v = rest_of(&mut ps.source)?;
                        if v != r.content(next) {
                            return Err(format!("round {}: field handed back: {}", stops, diff(&v, r.content(next))));
                        }
                    }
                    1 => {
                        let mut out = Vec::new();
                        match ps.source.data.save().size_limit(None).write_to(&mut out) {
                            SaveResult::Full(k) if k == out.len() as u64 && out == r.content(next) => {}
                            other => return Err(format!("saving the field handed back: {:?} {}", other, diff(&out, r.content(next)))),
                        }
                    }
                    _ => {}
                }
                drop(ps);
                next += 1;
                // make room
                for _ in 0..(k as usize % limit) + 1 {
                    if held.is_empty() {
                        break;
                    }
                    let i = held.remove(0);
                    let name: Arc<str> = r.parts[i].name.as_str().into();
                    let v = e.fields.get_mut(&name).ok_or("saved field is missing")?;
                    let f = v.remove(0);
                    if v.is_empty() {
                        e.fields.remove(&name);
                    }
                    if let SavedData::File(p, _) = &f.data {
                        let _ = fs::remove_file(p);
                    }
                }
                stops += 1;
                if stops > n + 2 {
                    return Err("more rounds than parts".into());
                }
                entries = Some(e);
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyCase {
    pub n: u16,
    pub empty: bool,
}

fn eval_default_count(c: &ManyCase, obs: &mut Obs) -> Outcome {
    obs.nt(true);
    fsx::clean_tmp();
    let mut b = Vec::new();
    for i in 0..c.n {
        b.extend(format!("--B\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n{}\r\n", i % 7, if c.empty { String::new() } else { i.to_string() }).into_bytes());
    }
    b.extend_from_slice(b"--B--\r\n");
    let mut mp = Multipart::with_body(&b[..], "B");
    match mp.save().temp() {
        SaveResult::Full(e) if c.n <= 256 && e.fields_count() == c.n as u32 => Ok(()),
        SaveResult::Partial(p, PartialReason::CountLimit) if c.n > 256 && p.entries.fields_count() == 256 => match p.partial {
            Some(ref f) if *f.source.headers.name == *(256 % 7).to_string() && f.dest.is_none() => Ok(()),
            _ => Err("the field over the default limit was lost".into()),
        },
        SaveResult::Full(e) => Err(format!("{} parts: full with {}", c.n, e.fields_count())),
        SaveResult::Partial(p, w) => Err(format!("{} parts: stopped with {} after {}", c.n, why_of(&w), p.entries.fields_count())),
        SaveResult::Error(e) => Err(e.to_string()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ManyFields {
    pub n: u32,
    /// distinct names
    pub names: u16,
    /// 0: unlimited
    pub limit: u32,
    /// how many fields are removed at each stop
    pub room: u32,
    pub thr: u8,
}

/// More fields than 16 bits can count.
fn very_many(limits: bool) -> BoxedStrategy<ManyFields> {
    let limit = if limits {
        prop_oneof![1 => Just(0u32), 3 => 65_500u32..65_600, 1 => 40_000u32..65_000].boxed()
    } else {
        Just(0u32).boxed()
    };
    (prop_oneof![65_530u32..65_545, 65_536u32..70_000], 1u16..4, limit, 1000u32..66_000)
        .prop_map(|(n, names, limit, room)| ManyFields { n, names, limit, room, thr: 255 })
        .boxed()
}

fn eval_many_unlimited(c: &ManyFields, obs: &mut Obs) -> Outcome {
    eval_many(c, obs)?;
    obs.nt(true);
    Ok(())
}

fn eval_many(c: &ManyFields, obs: &mut Obs) -> Outcome {
    fsx::clean_tmp();
    let n = c.n as usize;
    let names = c.names.max(1) as usize;
    let limit = if c.limit == 0 { usize::max_value() } else { c.limit as usize };
    obs.nt(n > limit);
    obs.class(if n > limit { "over the limit" } else { "within the limit" });
    let mut b = Vec::new();
    for i in 0..n {
        b.extend(format!("--B\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n{}\r\n", i % names, i).into_bytes());
    }
    b.extend_from_slice(b"--B--\r\n");
    let mut mp = Multipart::with_body(&b[..], "B");
    let mut held: Vec<usize> = Vec::new();
    let mut next = 0;
    let mut entries: Option<Entries> = None;
    loop {
        let lim = if c.limit == 0 { None } else { Some(c.limit as u32) };
        let sb = mp.save().count_limit(lim).memory_threshold(c.thr as u64 * 8);
        let res = match entries.take() {
            None => sb.temp(),
            Some(e) => sb.with_entries(e),
        };
        while next < n && held.len() < limit {
            held.push(next);
            next += 1;
        }
        let (mut e, over) = match res {
            SaveResult::Full(e) => (e, false),
            SaveResult::Partial(p, PartialReason::CountLimit) => {
                match &p.partial {
                    Some(f) if f.dest.is_none() && *f.source.headers.name == *(next % names).to_string() => {}
                    _ => return Err("the field over the limit was lost".into()),
                }
                (p.entries, true)
            }
            SaveResult::Partial(_, w) => return Err(format!("stopped with {}", why_of(&w))),
            SaveResult::Error(e) => return Err(e.to_string()),
        };
        if over != (next < n) {
            return Err(format!("{} parts, limit {}: {} after {} fields, {} held", n, limit, if over { "count limit" } else { "full" }, next, e.fields_count()));
        }
        let mut total = 0;
        for (nm, fs) in &e.fields {
            total += fs.len();
            let name: usize = nm.parse().map_err(|_| format!("a field named {:?}", nm))?;
            let want = held.iter().filter(|i| *i % names == name);
            let mut k = 0;
            for (f, i) in fs.iter().zip(want) {
                k += 1;
                if read_back(&f.data)? != i.to_string().into_bytes() {
                    return Err(format!("field {} of name {:?} holds something else than part {}", k, nm, i));
                }
            }
            if k != fs.len() {
                return Err(format!("{} fields named {:?}", fs.len(), nm));
            }
        }
        if total != held.len() || e.fields_count() as usize != total {
            return Err(format!("{} fields held, fields_count {}, want {}", total, e.fields_count(), held.len()));
        }
        if !over {
            return Ok(());
        }
        next += 1;
        let gone: Vec<usize> = held.drain(..(c.room as usize).max(1).min(held.len())).collect();
        for name in 0..names {
            let k = gone.iter().filter(|i| **i % names == name).count();
            if k == 0 {
                continue;
            }
            let nm: Arc<str> = name.to_string().into();
            let v = e.fields.get_mut(&nm).ok_or("saved field is missing")?;
            for f in v.drain(..k) {
                if let SavedData::File(p, _) = f.data {
                    fs::remove_file(&p).map_err(|e| format!("{:?}: {}", p, e))?;
                }
            }
            if v.is_empty() {
                e.fields.remove(&nm);
            }
        }
        entries = Some(e);
    }
}

pub fn m12() -> Vec<Facet> {
    vec![
        facet("count",
              "requests of 0-6 parts saved with count limits of 0 to parts+2; saved fields, the field handed back unread, and directory contents compared with the model",
              100_000, 1_200_000, || case(save_body(small_content(), 0..7), no_lim(),
                  prop_oneof![1 => (0u32..5).prop_map(Lim::Abs), 4 => (0u8..1, -3i8..3).prop_map(|(a, b)| Lim::Rel(a, b))].boxed(),
                  prop_oneof![Just(Lim::Abs(0)), Just(Lim::Default), lim()].boxed(), text_mode()), eval_save),
        facet("resume",
              "requests of 1-9 parts saved in rounds: at each count-limit stop the field handed back is read, saved or dropped, some saved fields are removed, and the save is resumed with the returned entries until full; non-trivial: at least one stop",
              80_000, 1_000_000, || (save_body(small_content(), 1..10), chunk(), 1u8..5, prop_oneof![Just(Lim::Abs(0)), Just(Lim::Default), lim()],
                  proptest::collection::vec((any::<u8>(), 0u8..3), 8), dest())
                  .prop_map(|(body, chunk, limit, thr, plan, dest)| ResumeCase { body, chunk, limit, thr, plan, dest }).boxed(), eval_resume),
        facet("very-many", "65 530-70 000 fields with 1-3 distinct names, with limits around 65 535, of 40 000-65 000 or none, saved in rounds; non-trivial: over the limit",
              16, 400, || very_many(true), eval_many),
        facet("many", "10-600 fields with 1-50 distinct names saved with limits of 1-300 or none in rounds that make room for 1-100 fields; non-trivial: over the limit",
              1_500, 30_000, || (prop_oneof![3 => 10u32..100, 1 => 100u32..600], prop_oneof![1 => Just(1u16), 2 => 1u16..50],
                  prop_oneof![1 => Just(0u32), 5 => 1u32..80, 2 => 80u32..300], 1u32..100, prop_oneof![3 => Just(255u8), 1 => Just(0u8)])
                  .prop_map(|(n, names, limit, room, thr)| ManyFields { n, names, limit, room, thr }).boxed(), eval_many),
        facet("default-limit", "250-262 fields saved with default settings (limit 256)",
              400, 4_000, || (prop_oneof![2 => 254u16..259, 1 => 250u16..262], any::<bool>()).prop_map(|(n, empty)| ManyCase { n, empty }).boxed(), eval_default_count),
    ]
}

// ------------------------------------------------------------------------------------------- M13

pub fn m13() -> Vec<Facet> {
    fn any_text() -> BoxedStrategy<u8> {
        prop_oneof![1 => Just(0u8), 1 => Just(1u8), 3 => Just(2u8), 1 => Just(3u8)].boxed()
    }
    fn thr() -> BoxedStrategy<Lim> {
        prop_oneof![3 => Just(Lim::Default), 3 => Just(Lim::None), 1 => lim()].boxed()
    }
    vec![
        facet("request-large", "the same with one or two contents of 30-400 kB",
              3_000, 40_000, || large_case(text_content(), no_lim(), thr(), any_text()), eval_save),
        facet("field-large", "the same through field-level saves",
              3_000, 40_000, || large_field_case(text_content(), no_lim(), thr(), any_text()), eval_field),
        facet("request",
              "requests with contents of multi-byte text, broken UTF-8 (16 kinds: stray continuation, truncated, overlong, surrogate, ...) and delimiter look-alikes placed around buffer edges, saved under every text policy and delivery (down to single bytes); text/bytes/UTF-8 error, held prefix and unread rest compared with the model",
              120_000, 1_500_000, || case(save_body(text_content(), 1..5), no_lim(), no_lim(), thr(), any_text()), eval_save),
        facet("field", "the same through field-level saves, where text is attempted regardless of the declared type",
              90_000, 1_200_000, || field_case(text_content(), no_lim(), thr(), any_text()), eval_field),
    ]
}
