//! M14, M15, M22, M23: files and directories, faults, conversions.

use super::errors::{at, fault_list, At, KINDS};
use super::save::*;
use crate::dsl::*;
use crate::engine::*;
use crate::fsx::{self, CaseDir, Node};
use multipart::server::save::{Entries, PartialReason, SaveDir, SaveResult, SavedData};
use multipart::server::Multipart;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::borrow::Borrow;
use std::fs;
use std::io::{self, ErrorKind, Read, Write};
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ------------------------------------------------------------------------------------------- M14

/// File and field names a hostile client might send; "@" stands for the root of the scratch tree.
pub const EVIL: &[&str] = &[
    "../evil-name-1", "../../evil-name-2", "../../../evil-name-3", "@/evil-absolute", "@/n2/cases/evil-absolute", "evil-plain-name.txt",
    "subdir/evil-name", "./evil-name-4", "evil-name\\..\\x", "..", ".", "evil-name-5/", "..evil-name", "~/evil-name", "$HOME/evil-name", "%2e%2e%2fevil-name",
    "sentinel-1", "existing/sentinel-2", "evil name;with=stuff", "CON", "a:evil-stream", "\u{e9}vil-n\u{e4}me",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EvilCase {
    pub names: Vec<(u8, Option<u8>, u8)>,
    pub dest: u8,
    pub chunk: Chunk,
    pub rounds: u8,
}

fn eval_evil(c: &EvilCase, obs: &mut Obs) -> Outcome {
    let root = fsx::root();
    let fill = |i: u8| EVIL[i as usize % EVIL.len()].replace('@', &root.to_string_lossy());
    let parts: Vec<Part> = c.names.iter().map(|(n, f, l)| Part {
        name: fill(*n), filename: f.map(fill), mime: if l % 3 == 0 { None } else { Some(2) },
        content: vec![Seg::R(*l as u16, 1 + *l as u16)], style: HStyle::default(),
    }).collect();
    let r = Body { boundary: "BoUnDaRy77".into(), preamble: None, parts, epilogue: 0 }.render();
    let d = CaseDir::new();
    fsx::clean_tmp();
    let dir = d.path().join("dest");
    fs::create_dir_all(dir.join("existing")).unwrap();
    for s in ["sentinel-1", "existing/sentinel-2", "evil-plain-name.txt"] {
        fs::write(dir.join(s), b"sentinel").unwrap();
    }
    fs::write(fsx::tmp().join("sentinel-1"), b"sentinel").unwrap();
    let before = fsx::tree(&root);
    obs.nt(!r.parts.is_empty());
    let data = Arc::new(r.bytes.clone());
    let mut files: Vec<(PathBuf, Vec<u8>, usize)> = Vec::new();
    let mut keep: Vec<Entries> = Vec::new();
    let mut temp_dirs: Vec<PathBuf> = Vec::new();
    for _ in 0..c.rounds.max(1) {
        let mut mp = super::super::drive::parser(&data, &c.chunk, &r.marks(), &r.boundary);
        if c.dest % 4 < 2 {
            let b = mp.save().memory_threshold(0);
            let res = if c.dest % 4 == 0 { b.with_dir(dir.clone()) } else { b.temp() };
            let e = match res {
                SaveResult::Full(e) => e,
                SaveResult::Partial(_, w) => return Err(format!("save stopped with {}", why_of(&w))),
                SaveResult::Error(e) => return Err(format!("save failed: {}", e)),
            };
            let want_parent = e.save_dir.as_path().to_path_buf();
            if c.dest % 4 == 1 {
                temp_dirs.push(want_parent.clone());
            } else if want_parent != dir {
                return Err("saved elsewhere".into());
            }
            let mut n = vec![0usize; r.parts.len()];
            for (i, p) in r.parts.iter().enumerate() {
                let nth = r.parts[..i].iter().filter(|q| q.name == p.name).count();
                n[i] = nth;
                let f = e.fields.get(&*p.name).and_then(|v| v.get(nth)).ok_or_else(|| format!("field {} is missing", i))?;
                match &f.data {
                    SavedData::File(path, _) => {
                        if path.parent() != Some(&*want_parent) {
                            return Err(format!("part named {:?} saved to {:?}, outside of {:?}", p.name, path, want_parent));
                        }
                        files.push((path.clone(), r.content(i).to_vec(), i));
                    }
                    other => return Err(format!("not saved to a file: {}", place_of(other))),
                }
            }
            keep.push(e);
        } else {
            for i in 0..r.parts.len() {
                let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("missing field")?;
                let mut b = f.data.save().memory_threshold(0);
                let (res, want_parent) = if c.dest % 4 == 2 { (b.temp(), fsx::tmp()) } else { (b.with_dir(&dir), dir.clone()) };
                match res {
                    SaveResult::Full(SavedData::File(path, _)) => {
                        if path.parent() != Some(&*want_parent) {
                            return Err(format!("saved to {:?}, outside of {:?}", path, want_parent));
                        }
                        files.push((path, r.content(i).to_vec(), i));
                    }
                    other => return Err(format!("field {}: {:?}", i, other)),
                }
            }
        }
    }
    // exactly the saved files and temporary directories are new, nothing else changed
    let after = fsx::tree(&root);
    for (p, n) in &before {
        if after.get(p) != Some(n) {
            return Err(format!("{:?} was changed or removed", p));
        }
    }
    let mut paths: Vec<&PathBuf> = files.iter().map(|f| &f.0).collect();
    paths.sort();
    let k = paths.len();
    paths.dedup();
    if paths.len() != k {
        return Err("two saved fields share a file".into());
    }
    for (p, n) in &after {
        if before.contains_key(p) {
            continue;
        }
        match files.iter().find(|f| f.0 == *p) {
            Some(f) => {
                if *n != Node::File(f.1.clone()) {
                    return Err(format!("{:?} does not hold the field", p));
                }
            }
            None => {
                if !temp_dirs.contains(p) {
                    return Err(format!("unexpected new path {:?}", p));
                }
            }
        }
    }
    if after.len() != before.len() + files.len() + temp_dirs.len() {
        return Err("some saved file is missing".into());
    }
    for (p, _, i) in &files {
        let base = p.file_name().unwrap().to_string_lossy().into_owned();
        for sent in std::iter::once(&r.parts[*i].name).chain(r.parts[*i].filename.iter()) {
            if sent.len() >= 6 && base.contains(sent.rsplit('/').next().unwrap_or("evil")) && sent.rsplit('/').next().map_or(false, |s| s.len() >= 6) {
                return Err(format!("file name {:?} derives from {:?}", base, sent));
            }
        }
    }
    drop(keep);
    fsx::clean_tmp();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExistCase {
    pub content: Vec<Seg>,
    pub thr: u16,
    /// 0 absent, 1 file, 2 directory, 3 symlink to a file, 4 dangling symlink, 5 parent is a file, 6 parent missing
    pub state: u8,
    /// 0 default options, 1 create+truncate, 2 only existing files, 3 `write` turned off (which has no effect)
    pub opts: u8,
    /// 0 with_path, 1 with_filename
    pub api: u8,
    pub old: u16,
}

fn eval_exist(c: &ExistCase, obs: &mut Obs) -> Outcome {
    let body = Body {
        boundary: "BoUnDaRy77".into(), preamble: None, epilogue: 0,
        parts: vec![Part { name: "f".into(), filename: Some("x".into()), mime: Some(2), content: c.content.clone(), style: HStyle::default() },
                    Part { name: "g".into(), filename: None, mime: None, content: vec![Seg::Lit("next".into())], style: HStyle::default() }],
    };
    let opts = c.opts % 4 % 3;
    let r = body.render();
    let content = r.content(0);
    let d = CaseDir::new();
    fsx::clean_tmp();
    let base = if c.api % 2 == 1 { fsx::tmp() } else { d.path().join("p") };
    let state = if c.api % 2 == 1 && c.state % 7 >= 5 { 0 } else { c.state % 7 };
    const BASE: [&str; 12] = ["target.bin", "target.bin", "target.bin", " lead", "trail ", "a..b", ".hidden", "\u{fc}n\u{ef}", "x;y=\"z\"", "%41", "dot.", "back\\slash"];
    let file_name = BASE[c.old as usize % BASE.len()];
    let target = base.join(file_name);
    let side = d.path().join("side.txt");
    let old = prand(c.old as u32, c.old as usize % 3000 + 1);
    fs::write(&side, b"side").unwrap();
    if state != 6 && state != 5 {
        fs::create_dir_all(&base).unwrap();
    }
    match state {
        1 => fs::write(&target, &old).unwrap(),
        2 => fs::create_dir(&target).unwrap(),
        3 => std::os::unix::fs::symlink(&side, &target).unwrap(),
        4 => std::os::unix::fs::symlink(d.path().join("nowhere"), &target).unwrap(),
        5 => fs::write(&base, b"i am a file").unwrap(),
        _ => {}
    }
    let root = fsx::root();
    let before = fsx::tree(&root);
    let mut mp = Multipart::with_body(&r.bytes[..], r.boundary.clone());
    let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no field")?;
    let res = {
        let mut b = f.data.save().memory_threshold(c.thr as u64).ignore_text();
        b = match opts {
            0 if c.opts % 4 == 3 => b.mod_open_opts(|o| { o.write(false); }),
            0 => b,
            1 => b.mod_open_opts(|o| { o.create_new(false).create(true).truncate(true); }),
            _ => b.mod_open_opts(|o| { o.create_new(false); }),
        };
        if c.api % 2 == 1 { b.with_filename(file_name) } else { b.with_path(target.clone()) }
    };
    let after = fsx::tree(&root);
    let needs_file = content.len() > c.thr as usize;
    obs.nt(needs_file && state != 0);
    let changed = |skip: &[&Path]| -> Outcome {
        for (p, n) in &before {
            if !skip.contains(&&**p) && after.get(p) != Some(n) {
                return Err(format!("{:?} was changed or removed", p));
            }
        }
        for p in after.keys() {
            if !skip.contains(&&**p) && !before.contains_key(p) {
                return Err(format!("{:?} was created", p));
            }
        }
        Ok(())
    };
    if !needs_file {
        obs.class("in memory");
        match res {
            SaveResult::Full(SavedData::Bytes(ref v)) if *v == content => {}
            other => return Err(format!("data within the threshold: {:?}", other)),
        }
        return changed(&[]);
    }
    // does the open succeed?
    let ok = match (opts, state) {
        (_, 5) | (_, 2) => false,
        (0, 0) | (0, 6) => true,
        (0, _) => false,
        (1, _) => true,
        (_, 1) | (_, 3) => true,
        _ => false,
    };
    obs.class(if ok { "file written" } else { "refused" });
    if !ok {
        match &res {
            SaveResult::Error(_) => {}
            SaveResult::Partial(d, PartialReason::IoError(_)) if d.is_memory() || d.size() == 0 => {}
            other => return Err(format!("state {} options {}: {:?}", state, opts, other)),
        }
        if state == 6 {
            // parents may have been created before the open was refused
            return changed(&[&base]);
        }
        changed(&[])?;
        if opts == 0 {
            let e = match res { SaveResult::Error(e) => e, SaveResult::Partial(_, w) => w.unwrap_err(), _ => unreachable!() };
            if state != 5 && e.kind() != ErrorKind::AlreadyExists {
                return Err(format!("an existing target is refused with {:?}", e.kind()));
            }
        }
        return Ok(());
    }
    let got = match res {
        SaveResult::Full(SavedData::File(p, n)) if p == target && n == content.len() as u64 => fs::read(&target).map_err(|e| e.to_string())?,
        other => return Err(format!("state {} options {}: {:?}", state, opts, other)),
    };
    // without truncation the tail of a longer old file remains
    let mut want = content.to_vec();
    if opts == 2 {
        let o: &[u8] = if state == 1 { &old } else { b"side" };
        if o.len() > want.len() {
            want.extend_from_slice(&o[want.len()..]);
        }
    }
    if got != want {
        return Err(format!("target: {}", diff(&got, &want)));
    }
    let dangling = d.path().join("nowhere");
    match state {
        3 => changed(&[&target, &side]),
        4 => changed(&[&target, &dangling]),
        6 => changed(&[&target, &base]),
        _ => changed(&[&target]),
    }?;
    // the next field is unaffected
    drop(f);
    let mut g = mp.read_entry().map_err(|e| e.to_string())?.ok_or("no second field")?;
    let v = rest_of(&mut g)?;
    if v != r.content(1) {
        return Err("the following field differs".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NamesCase {
    /// files per save
    pub per: u16,
    pub saves: u8,
    /// 0 this thread, 1 several threads, 2 several processes; all into one directory
    pub place: u8,
    /// 0 whole requests, 1 single fields
    pub api: u8,
}

/// Save `per` tiny fields into `dir`; the file names the library chose.
pub fn save_names(dir: &Path, per: usize, api: u8) -> Result<Vec<String>, String> {
    let mut body = Vec::new();
    for i in 0..per {
        body.extend_from_slice(format!("--B\r\nContent-Disposition: form-data; name=\"n{}\"; filename=\"same\"\r\n\r\n{}\r\n", i % 7, i).as_bytes());
    }
    body.extend_from_slice(b"--B--\r\n");
    let mut mp = Multipart::with_body(&body[..], "B");
    let mut out = Vec::new();
    let mut put = |d: &SavedData, i: &[u8]| -> Outcome {
        match d {
            SavedData::File(p, _) => {
                if p.parent() != Some(dir) {
                    return Err(format!("saved to {:?}, outside of {:?}", p, dir));
                }
                if fs::read(p).ok().as_deref() != Some(i) {
                    return Err(format!("{:?} does not hold its field", p));
                }
                out.push(p.file_name().unwrap().to_string_lossy().into_owned());
                Ok(())
            }
            other => Err(format!("not saved to a file: {}", place_of(other))),
        }
    };
    if api % 2 == 0 {
        match mp.save().count_limit(None).memory_threshold(0).with_dir(dir) {
            SaveResult::Full(e) => {
                let mut nth = std::collections::HashMap::new();
                for i in 0..per {
                    let n = nth.entry(i % 7).or_insert(0usize);
                    let f = e.fields.get(&*format!("n{}", i % 7)).and_then(|v| v.get(*n)).ok_or("a field is missing")?;
                    *n += 1;
                    put(&f.data, i.to_string().as_bytes())?;
                }
            }
            other => return Err(format!("saving {} fields of different names: {:?}", per, other.into_result().map(|_| ()))),
        }
    } else {
        for i in 0..per {
            let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("a field is missing")?;
            match f.data.save().memory_threshold(0).with_dir(dir) {
                SaveResult::Full(d) => put(&d, i.to_string().as_bytes())?,
                other => return Err(format!("saving a field: {:?}", other.into_result().map(|_| ()))),
            }
        }
    }
    Ok(out)
}

/// The same in a child process.
pub fn save_names_child(dir: &str, per: &str, api: &str) -> i32 {
    match save_names(Path::new(dir), per.parse().unwrap(), api.parse().unwrap()) {
        Ok(v) => {
            for n in v {
                println!("{}", n);
            }
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    }
}

fn eval_names(c: &NamesCase, obs: &mut Obs) -> Outcome {
    let d = CaseDir::new();
    let dir = d.path().join("many");
    let per = c.per.max(1) as usize;
    let saves = c.saves.max(2) as usize;
    obs.nt(true);
    let mut all = Vec::new();
    match c.place % 3 {
        0 => {
            obs.class("one thread");
            for _ in 0..saves {
                all.extend(save_names(&dir, per, c.api)?);
            }
        }
        1 => {
            obs.class("several threads");
            let hs: Vec<_> = (0..saves).map(|_| {
                let (dir, api) = (dir.clone(), c.api);
                std::thread::spawn(move || save_names(&dir, per, api))
            }).collect();
            for h in hs {
                all.extend(h.join().map_err(|_| "a saving thread panicked")??);
            }
        }
        _ => {
            obs.class("several processes");
            let hs: Vec<_> = (0..saves).map(|_| std::process::Command::new(std::env::current_exe().unwrap())
                .arg("save-names").arg(&dir).arg(per.to_string()).arg(c.api.to_string())
                .stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn()).collect();
            let mut bad = None;
            for h in hs {
                let o = h.and_then(|h| h.wait_with_output()).map_err(|e| format!("harness: {}", e))?;
                if !o.status.success() {
                    bad = Some(format!("in a process of its own: {} ({:?})", String::from_utf8_lossy(&o.stderr).trim(), o.status));
                }
                all.extend(String::from_utf8_lossy(&o.stdout).lines().map(String::from));
            }
            if let Some(b) = bad {
                return Err(b);
            }
        }
    }
    if all.len() != per * saves {
        return Err(format!("{} files reported for {} fields", all.len(), per * saves));
    }
    let have = fs::read_dir(&dir).map_err(|e| e.to_string())?.count();
    if have != all.len() {
        return Err(format!("{} files in the directory for {} fields", have, all.len()));
    }
    let set: std::collections::HashSet<&String> = all.iter().collect();
    if set.len() != all.len() {
        return Err("two fields share a file name".into());
    }
    Ok(())
}

/// Changed open options hold for every file, through the permissions they ask for.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OptsCase {
    pub save: SaveCase,
    pub mode: u16,
    /// also let go of the exclusive creation, in one or several steps
    pub more: u8,
    pub field: bool,
}

fn eval_opts(c: &OptsCase, obs: &mut Obs) -> Outcome {
    use std::os::unix::fs::{OpenOptionsExt, PermissionsExt};
    let r = c.save.body.render();
    let x = resolve(&c.save, &r);
    let d = CaseDir::new();
    enter(&c.save.dest, &d);
    fsx::clean_tmp();
    let mode = 0o600 | (c.mode as u32 & 0o177);
    // what the system makes of it
    let probe = d.path().join("probe");
    fs::OpenOptions::new().write(true).create_new(true).mode(mode).open(&probe).map_err(|e| format!("harness: {}", e))?;
    let want = fs::metadata(&probe).unwrap().permissions().mode();
    let data = Arc::new(r.bytes.clone());
    let mut mp = super::super::drive::parser(&data, &c.save.chunk, &r.marks(), &r.boundary);
    let check = |p: &Path| {
        let got = fs::metadata(p).map_err(|e| format!("{:?}: {}", p, e))?.permissions().mode();
        if got != want { Err(format!("{:?} was created with {:o} instead of {:o}", p, got, want)) } else { Ok(()) }
    };
    let mut files = 0;
    if c.field {
        for i in 0..r.parts.len() {
            let mut f = mp.read_entry().map_err(|e| e.to_string())?.ok_or("a field is missing")?;
            let mut b = f.data.save().size_limit(None).memory_threshold(x.thr).ignore_text();
            if c.more & 1 != 0 {
                b = b.mod_open_opts(|o| { o.mode(0o604).read(true); });
            }
            b = b.mod_open_opts(|o| { o.mode(mode); });
            if c.more & 2 != 0 {
                b = b.mod_open_opts(|o| { o.create_new(false).create(true); });
            }
            // a builder may be used again
            for k in 0..1 + (c.more as usize >> 2 & 1) {
                match b.with_dir(d.path().join(format!("f{}", i))) {
                    SaveResult::Full(SavedData::File(p, _)) => {
                        files += 1;
                        check(&p)?;
                    }
                    SaveResult::Full(_) if k > 0 || r.content(i).len() as u64 <= x.thr => {}
                    o => return Err(format!("field {}: {:?}", i, o)),
                }
            }
        }
    } else {
        let mut b = configure(mp.save(), &c.save, &x);
        if c.more & 1 != 0 {
            b = b.mod_open_opts(|o| { o.mode(0o604).read(true); });
        }
        b = b.mod_open_opts(|o| { o.mode(mode); });
        if c.more & 2 != 0 {
            b = b.mod_open_opts(|o| { o.create_new(false).create(true); });
        }
        let e = match save_to(b, &c.save.dest, &d) {
            SaveResult::Full(e) => e,
            SaveResult::Partial(_, w) => return Err(format!("stopped: {:?}", w)),
            SaveResult::Error(e) => return Err(format!("failed: {}", e)),
        };
        for f in e.fields.values().flatten() {
            if let SavedData::File(ref p, _) = f.data {
                files += 1;
                check(p)?;
            }
        }
        let want = (0..r.parts.len()).filter(|i| r.content(*i).len() as u64 > x.thr).count();
        if files != want {
            return Err(format!("{} files instead of {}", files, want));
        }
    }
    obs.nt(files > 0);
    obs.class_if(files > 1, "several files");
    Ok(())
}

pub fn m14() -> Vec<Facet> {
    vec![
        facet("open-options", "whole requests and single fields saved with the permissions set through mod_open_opts, which every file has to get; non-trivial: at least one file",
              30_000, 400_000, || (case(save_body(mixed_content(), 1..5), no_lim(), no_lim(), prop_oneof![3 => Just(Lim::Abs(0)), 1 => thr_lim()].boxed(), Just(0u8).boxed()), any::<u16>(), any::<u8>(), any::<bool>())
                  .prop_map(|(save, mode, more, field)| OptsCase { save, mode, more, field }).boxed(), eval_opts),
        facet("names", "thousands of fields saved to one directory, in several whole-request or per-field saves by one thread, several threads or several processes: every save succeeds and no two fields get the same file",
              24, 400, || (700u16..1300, 8u8..20, 0u8..3, 0u8..2).prop_map(|(per, saves, place, api)| NamesCase { per, saves, place, api }).boxed(), eval_names),
        facet("hostile-names",
              "1-6 fields with hostile field and file names (traversal, absolute paths inside the scratch tree, separators, names of existing files), 1-3 requests saved into the same directory, a temporary directory, or field by field; a snapshot of the whole scratch tree before and after must differ exactly by the reported fresh files, none named after what the client sent",
              50_000, 800_000, || (proptest::collection::vec((any::<u8>(), proptest::option::of(any::<u8>()), any::<u8>()), 1..7), 0u8..4, chunk(), 1u8..4)
                  .prop_map(|(names, dest, chunk, rounds)| EvilCase { names, dest, chunk, rounds }).boxed(), eval_evil),
        facet("existing",
              "a field saved to a path that is absent, an existing file, directory, symlink, dangling symlink, below a file or below a missing directory, with default or modified open options; by default nothing existing may change; non-trivial: data must go to a file and the target is not simply absent",
              80_000, 1_200_000, || (prop_oneof![3 => small_content(), 1 => content()], prop_oneof![2 => Just(0u16), 1 => 0u16..200, 1 => 0u16..15000], 0u8..7, prop_oneof![3 => Just(0u8), 3 => 0u8..4], 0u8..2, any::<u16>())
                  .prop_map(|(content, thr, state, opts, api, old)| ExistCase { content, thr, state, opts, api, old }).boxed(), eval_exist),
        facet("place",
              "fields saved through temp, with_filename, with_dir and with_path with thresholds around their lengths; files only where asked, nothing created for data in memory, missing parents created otherwise",
              80_000, 1_200_000, || field_case(mixed_content(), no_lim(), thr_lim(), text_mode()), eval_field),
    ]
}

// ------------------------------------------------------------------------------------------- M15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LifeCase {
    pub save: SaveCase,
    /// 0 drop whole result, 1 delete, 2 keep + drop, 3 into_path, 4 keep + delete, 5 forget nothing: take entries then drop
    pub act: u8,
    /// the app puts more things into the directory
    pub extra: bool,
    pub cut: Option<u16>,
    /// state of the permanent directory before: 0 missing, 1 exists, 2 is a file
    pub pre: u8,
}

fn eval_life(c: &LifeCase, obs: &mut Obs) -> Outcome {
    let r = c.save.body.render();
    let x = resolve(&c.save, &r);
    let d = CaseDir::new();
    enter(&c.save.dest, &d);
    fsx::clean_tmp();
    let mut bytes = r.bytes.clone();
    if let Some(k) = c.cut {
        bytes.truncate(r.bytes.len() * k as usize / 65536);
    }
    let perm = matches!(c.save.dest, Dest::Dir(_));
    if let Dest::Dir(n) = c.save.dest {
        let p = perm_path(&d, n);
        match c.pre % 3 {
            1 => fs::create_dir_all(&p).unwrap(),
            2 => {
                fs::create_dir_all(p.parent().unwrap()).unwrap();
                fs::write(&p, b"old").unwrap();
            }
            _ => {}
        }
    }
    let data = Arc::new(bytes);
    let mut mp = super::super::drive::parser(&data, &c.save.chunk, &r.marks(), &r.boundary);
    let res = save_to(configure(mp.save(), &c.save, &x), &c.save.dest, &d);
    let info = match &res {
        SaveResult::Full(e) => Some((e.save_dir.as_path().to_path_buf(), e.save_dir.is_temporary(), true)),
        SaveResult::Partial(p, _) => Some((p.entries.save_dir.as_path().to_path_buf(), p.entries.save_dir.is_temporary(), false)),
        SaveResult::Error(_) => None,
    };
    let (path, temp, full) = match info {
        None => {
            obs.class("failed");
            if perm && c.pre % 3 == 2 {
                if let Dest::Dir(n) = c.save.dest {
                    if fs::read(perm_path(&d, n)).ok() != Some(b"old".to_vec()) {
                        return Err("a file in the place of the directory was changed".into());
                    }
                }
                drop(res);
                return no_left(&[]);
            }
            return Err("the save failed".into());
        }
        Some(i) => i,
    };
    if perm && c.pre % 3 == 2 {
        return Err("saved into a directory that is a file".into());
    }
    obs.class(if full { "full" } else { "partial" });
    obs.class(if temp { "temporary" } else { "permanent" });
    obs.nt(true);
    match &c.save.dest {
        Dest::Temp | Dest::Prefix(_) => {
            let want = if let Dest::Prefix(p) = &c.save.dest { p.as_str() } else { "multipart-rs" };
            let name = path.file_name().unwrap().to_string_lossy().into_owned();
            if path.parent() != Some(&*fsx::tmp()) || !name.starts_with(want) || name == want {
                return Err(format!("temporary directory {:?} instead of one in {:?} whose name starts with {:?}", path, fsx::tmp(), want));
            }
        }
        Dest::Dir(n) => {
            if plain(&path) != plain(&perm_path(&d, *n)) {
                return Err(format!("saved to {:?} instead of {:?}", path, perm_path(&d, *n)));
            }
        }
        _ => {}
    }
    if !path.is_dir() {
        return Err(format!("the save directory does not exist after the save ({} of {} fields in memory)", if full { "full" } else { "partial" }, r.parts.len()));
    }
    if c.extra {
        fs::create_dir_all(path.join("extra/deep")).unwrap();
        fs::write(path.join("extra/deep/file"), b"x").unwrap();
    }
    let before = fsx::tree(&path);
    let must_go;
    match c.act % 6 {
        0 => {
            drop(res);
            must_go = temp;
        }
        5 => {
            let e = res.into_entries().ok_or("into_entries lost the entries")?;
            drop(e);
            must_go = temp;
        }
        a => {
            let mut e = res.into_entries().ok_or("into_entries lost the entries")?;
            match a {
                1 => {
                    e.save_dir.delete().map_err(|e| format!("delete failed: {}", e))?;
                    must_go = true;
                }
                2 => {
                    e.save_dir.keep();
                    if e.save_dir.is_temporary() || e.save_dir.as_path() != path {
                        return Err("kept directory has a different path or is still temporary".into());
                    }
                    drop(e);
                    must_go = false;
                }
                3 => {
                    let p = e.save_dir.into_path();
                    if p != path {
                        return Err("into_path gives a different path".into());
                    }
                    must_go = false;
                }
                _ => {
                    e.save_dir.keep();
                    e.save_dir.delete().map_err(|e| format!("delete failed: {}", e))?;
                    must_go = true;
                }
            }
        }
    }
    if must_go {
        if path.exists() {
            return Err(format!("the {} directory still exists, with {:?}", if temp { "temporary" } else { "deleted" }, fsx::list(&path)));
        }
        if let Dest::Dir(_) = c.save.dest {
            if !plain(&path).parent().unwrap().is_dir() {
                return Err("deleting the directory removed its parent".into());
            }
        }
    } else if fsx::tree(&path) != before {
        return Err("the contents of a kept directory changed".into());
    }
    let r = no_left(if must_go { &[] } else { std::slice::from_ref(&path) });
    let _ = fs::remove_dir_all(&path);
    r
}

fn no_left(allowed: &[PathBuf]) -> Outcome {
    for e in fs::read_dir(fsx::tmp()).unwrap().flatten() {
        if !allowed.contains(&e.path()) {
            return Err(format!("left behind in the temporary directory: {:?}", e.path()));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NoTmpCase {
    pub body: Body,
    /// what TMPDIR is: 0 missing, 1 a file
    pub state: u8,
    pub prefix: Option<String>,
}

fn eval_no_tmp(c: &NoTmpCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let d = CaseDir::new();
    fsx::clean_tmp();
    let old = std::env::var_os("TMPDIR").unwrap();
    let t = d.path().join("no-tmp");
    if c.state % 2 == 1 {
        fs::write(&t, b"file").unwrap();
    }
    obs.nt(true);
    let before = fsx::tree(d.top());
    std::env::set_var("TMPDIR", &t);
    let res = guarded(|| {
        let mut mp = Multipart::with_body(&r.bytes[..], r.boundary.clone());
        let b = mp.save().memory_threshold(0);
        let res = match &c.prefix {
            None => b.temp(),
            Some(p) => b.temp_with_prefix(p),
        };
        matches!(res, SaveResult::Error(_))
    });
    std::env::set_var("TMPDIR", &old);
    if !res? {
        return Err("a save without a usable temporary directory did not fail".into());
    }
    if fsx::tree(d.top()) != before {
        return Err("a failed save left something behind".into());
    }
    no_left(&[])
}

pub fn m15() -> Vec<Facet> {
    vec![
        facet("lifetimes",
              "requests saved (fully, or partially through size or count limits or a truncated body) into temporary or permanent directories that are missing, present or blocked by a file, then dropped, deleted, kept or converted to a path, optionally with extra contents; existence and contents of the directory and TMPDIR leftovers compared with the rules",
              180_000, 2_500_000, || (
                  case(save_body(small_content(), 0..5), prop_oneof![2 => no_lim(), 1 => lim()].boxed(), prop_oneof![2 => no_lim(), 1 => (0u8..1, -2i8..2).prop_map(|(a, b)| Lim::Rel(a, b))].boxed(), thr_lim(), text_mode()),
                  0u8..6, any::<bool>(), prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)], 0u8..3)
                  .prop_map(|(save, act, extra, cut, pre)| LifeCase { save, act, extra, cut, pre }).boxed(), eval_life),
        facet("no-temp", "whole-request saves while TMPDIR is missing or a file: the save fails and leaves nothing",
              12_000, 150_000, || (body_with(0..3, small_content(), plain_style()), 0u8..2, proptest::option::of("[a-z]{1,5}"))
                  .prop_map(|(body, state, prefix)| NoTmpCase { body, state, prefix }).boxed(), eval_no_tmp),
    ]
}

// ------------------------------------------------------------------------------------------- M22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Accept(u16),
    Interrupted,
    Fail(u8),
    Zero,
}

pub fn wop(hard: bool) -> BoxedStrategy<WOp> {
    if hard {
        prop_oneof![
            4 => prop_oneof![1u16..10, 1u16..2000, 1u16..10000].prop_map(WOp::Accept),
            1 => Just(WOp::Interrupted),
            1 => any::<u8>().prop_map(WOp::Fail),
            1 => Just(WOp::Zero),
        ].boxed()
    } else {
        prop_oneof![
            3 => prop_oneof![1u16..10, 1u16..2000].prop_map(WOp::Accept),
            1 => Just(WOp::Interrupted),
        ].boxed()
    }
}

/// A writer following a script, then accepting everything.
pub struct ScriptedWriter {
    pub got: Vec<u8>,
    pub ops: Vec<WOp>,
    pub i: usize,
    pub hard: Vec<ErrorKind>,
    pub flush_err: bool,
}

impl ScriptedWriter {
    pub fn new(ops: &[WOp]) -> Self {
        ScriptedWriter { got: vec![], ops: ops.to_vec(), i: 0, hard: vec![], flush_err: false }
    }
}

impl Write for ScriptedWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let op = self.ops.get(self.i).cloned();
        self.i += 1;
        let n = match op {
            None => buf.len(),
            Some(WOp::Accept(n)) => (n.max(1) as usize).min(buf.len()),
            Some(WOp::Interrupted) => return Err(io::Error::new(ErrorKind::Interrupted, "injected")),
            Some(WOp::Fail(k)) => {
                let k = KINDS[k as usize % KINDS.len()];
                self.hard.push(k);
                return Err(io::Error::new(k, "injected"));
            }
            Some(WOp::Zero) => {
                self.hard.push(ErrorKind::WriteZero);
                return Ok(0);
            }
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_err {
            return Err(io::Error::new(ErrorKind::Other, "injected flush"));
        }
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WriteCase {
    pub body: Body,
    pub chunk: Chunk,
    pub faults: Vec<(At, u8, u8)>,
    pub ops: Vec<WOp>,
    pub limit: Lim,
}

fn eval_write(c: &WriteCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let data = Arc::new(r.bytes.clone());
    let rd = ScriptedReader::new(data, &c.chunk, &r.marks()).with_faults(fault_list(&r, &c.faults));
    let src_hard: Vec<ErrorKind> = rd.faults.iter().map(|f| f.1).filter(|k| *k != ErrorKind::Interrupted).collect();
    let mut mp = Multipart::with_body(rd, r.boundary.clone());
    let mut w = ScriptedWriter::new(&c.ops);
    let mut seen_src = 0;
    for i in 0..r.parts.len() {
        let content = r.content(i);
        let mut f = match Multipart::read_entry(&mut mp) {
            Ok(Some(f)) => f,
            Ok(None) => return Err(format!("end reported before field {}", i)),
            Err(e) => {
                if src_hard.contains(&e.kind()) {
                    return Ok(());
                }
                return Err(format!("field {}: {}", i, e));
            }
        };
        let limit = c.limit.resolve(&r).unwrap_or(None).unwrap_or(u64::max_value());
        let mut done = 0usize;
        w.got.clear();
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > c.ops.len() + src_hard.len() + 5 {
                return Err("no progress over the injected faults".into());
            }
            let base = w.got.len();
            let hard_before = w.hard.len();
            let res = f.data.save().size_limit(opt(limit)).write_to(&mut w);
            let wrote = w.got.len() - base;
            let (n, why) = match res {
                SaveResult::Full(n) => (n, None),
                SaveResult::Partial(n, why) => (n, Some(why)),
                SaveResult::Error(e) => (0, Some(PartialReason::IoError(e))),
            };
            if n != wrote as u64 {
                return Err(format!("field {}: reports {} bytes, {} reached the destination", i, n, wrote));
            }
            done += wrote;
            if w.got != content[..done.min(content.len())] || done > content.len() {
                return Err(format!("field {}: the destination received: {}", i, diff(&w.got, &content[..done.min(content.len())])));
            }
            if wrote as u64 > limit {
                return Err(format!("{} bytes written over the limit {}", wrote, limit));
            }
            match why {
                None => {
                    if done != content.len() {
                        return Err(format!("field {}: full success after {} of {} bytes", i, done, content.len()));
                    }
                    if w.hard.len() != hard_before {
                        return Err("an error of the destination was swallowed".into());
                    }
                    break;
                }
                Some(PartialReason::IoError(e)) => {
                    obs.class("failed, then resumed");
                    let new_w = w.hard.get(hard_before).cloned();
                    let src_next = src_hard.get(seen_src).cloned();
                    if new_w == Some(e.kind()) {
                    } else if src_next == Some(e.kind()) {
                        seen_src += 1;
                    } else {
                        return Err(format!("stopped with {:?}; destination error {:?}, next source error {:?}", e.kind(), new_w, src_next));
                    }
                }
                Some(PartialReason::SizeLimit) => {
                    if wrote as u64 != limit || done >= content.len() {
                        return Err(format!("size limit {} reported after {} bytes ({} of {} in total)", limit, wrote, done, content.len()));
                    }
                    obs.class("size limit");
                    // the rest is still there
                    if limit == 0 {
                        break;
                    }
                    rounds = 0;
                }
                Some(other) => return Err(format!("stopped with {}", why_of(&other))),
            }
        }
        obs.nt(!content.is_empty());
        if limit == 0 {
            return Ok(());
        }
    }
    Ok(())
}

pub fn set_fsize(n: Option<u64>) {
    unsafe {
        let mut cur: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut cur);
        cur.rlim_cur = n.unwrap_or(256 << 20).min(cur.rlim_max);
        libc::setrlimit(libc::RLIMIT_FSIZE, &cur);
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DiskCase {
    pub body: Body,
    pub chunk: Chunk,
    /// largest file the system accepts
    pub room: u16,
    pub thr: Lim,
    pub dest: Dest,
    pub resume: bool,
}

fn eval_disk(c: &DiskCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let d = CaseDir::new();
    enter(&c.dest, &d);
    fsx::clean_tmp();
    let data = Arc::new(r.bytes.clone());
    let mut mp = super::super::drive::parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let sc = SaveCase { body: c.body.clone(), chunk: c.chunk.clone(), size: Lim::None, count: Lim::None, thr: c.thr.clone(), text: 3, dest: c.dest.clone() };
    let x = resolve(&sc, &r);
    let room = c.room as usize;
    let bad = (0..r.parts.len()).find(|i| r.content(*i).len() as u64 > x.thr && r.content(*i).len() > room);
    obs.nt(bad.is_some());
    set_fsize(Some(room as u64));
    let res = guarded(|| save_to(configure(mp.save(), &sc, &x), &c.dest, &d));
    set_fsize(None);
    let want = |i: usize| (i, model(r.content(i), Policy::Ignore, x.size, x.thr));
    let (mut e, n) = match (res?, bad) {
        (SaveResult::Full(e), None) => {
            let all: Vec<_> = (0..r.parts.len()).map(want).collect();
            check_entries(&e, &r, &all)?;
            return finish(e, &c.dest, &d);
        }
        (SaveResult::Full(_), Some(i)) => return Err(format!("full success although field {} cannot be written", i)),
        (SaveResult::Error(e), _) => return Err(format!("the save failed and lost the entries: {}", e)),
        (SaveResult::Partial(_, w), None) => return Err(format!("stopped with {} although everything fits", why_of(&w))),
        (SaveResult::Partial(p, w), Some(i)) => {
            if !matches!(w, PartialReason::IoError(_)) {
                return Err(format!("stopped with {}", why_of(&w)));
            }
            let before: Vec<_> = (0..i).map(want).collect();
            let mut files = check_entries(&p.entries, &r, &before)?;
            let mut ps = p.partial.ok_or("the field being saved was not returned")?;
            check_headers(&ps.source.headers, &r.parts[i])?;
            let content = r.content(i);
            match &ps.dest {
                Some(dst @ SavedData::File(path, _)) => {
                    let v = read_back(dst)?;
                    if v != content[..room] {
                        return Err(format!("the full disk took {} bytes: {}", room, diff(&v, &content[..room])));
                    }
                    files.push(path.clone());
                    let rest = rest_of(&mut ps.source)?;
                    let thr = x.thr as usize;
                    if rest != content[room..] && !(room < thr && rest == content[thr..]) {
                        return Err(format!("{} bytes saved, the rest of the field reads: {}", room, diff(&rest, &content[room..])));
                    }
                    check_dir(p.entries.save_dir.as_path(), &files)?;
                }
                Some(other) => return Err(format!("partial data is {}", place_of(other))),
                None => {
                    // nothing could be written at all: an empty file may remain
                    if room > 0 {
                        return Err(format!("{} bytes were written but not reported", room));
                    }
                }
            }
            (p.entries, i)
        }
    };
    if c.resume {
        obs.class("resumed");
        if r.parts[n..].iter().any(|_| true) {
            let files_before = e.fields_count();
            match mp.save().size_limit(None).count_limit(None).memory_threshold(x.thr).ignore_text().with_entries(e) {
                SaveResult::Full(all) => {
                    let w: Vec<_> = (0..r.parts.len()).filter(|i| *i != n).map(want).collect();
                    check_entries(&all, &r, &w).map_err(|m| format!("after resuming: {}", m))?;
                    e = all;
                }
                SaveResult::Partial(_, w) => return Err(format!("resuming (after {} fields) stopped with {}", files_before, why_of(&w))),
                SaveResult::Error(x) => return Err(format!("resuming failed: {}", x)),
            }
        }
    }
    finish(e, &c.dest, &d)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockedCase {
    pub body: Body,
    pub chunk: Chunk,
    pub thr: Lim,
    /// 0 directory missing, 1 a file in its place
    pub state: u8,
    /// repair the directory before resuming
    pub faults: Vec<(At, u8, u8)>,
}

/// Destination directory unusable, or the source failing in a field: entries intact, resume works.
fn eval_blocked(c: &BlockedCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let d = CaseDir::new();
    fsx::clean_tmp();
    let dir = d.path().join("target");
    match c.state % 3 {
        1 => fs::write(&dir, b"in the way").unwrap(),
        2 => fs::create_dir(&dir).unwrap(),
        _ => {}
    }
    let blocked = c.state % 3 == 1;
    let faults = if c.state % 3 == 2 { fault_list(&r, &c.faults) } else { vec![] };
    let data = Arc::new(r.bytes.clone());
    let rd = ScriptedReader::new(data, &c.chunk, &r.marks()).with_faults(faults.clone());
    let mut mp = Multipart::with_body(rd, r.boundary.clone());
    let thr = c.thr.resolve(&r).map_or(DEF_MEM, |x| x.unwrap_or(u64::max_value()));
    let want = |i: usize| (i, model(r.content(i), Policy::Ignore, u64::max_value(), thr));
    let mut held: Vec<usize> = Vec::new();
    let mut next = 0;
    let mut entries = Entries::new(SaveDir::Perm(dir.clone()));
    let mut rounds = 0;
    loop {
        rounds += 1;
        if rounds > r.parts.len() + faults.len() + 3 {
            return Err("no progress when resuming".into());
        }
        let b = mp.save().size_limit(None).count_limit(None).memory_threshold(thr).ignore_text();
        match b.with_entries(entries) {
            SaveResult::Full(e) => {
                held.extend(next..r.parts.len());
                let w: Vec<_> = held.iter().map(|i| want(*i)).collect();
                check_entries(&e, &r, &w)?;
                obs.class_if(rounds > 1, "resumed to the end");
                return Ok(());
            }
            SaveResult::Error(e) => return Err(format!("the save failed and lost the entries: {}", e)),
            SaveResult::Partial(p, why) => {
                if !matches!(why, PartialReason::IoError(_)) {
                    return Err(format!("stopped with {}", why_of(&why)));
                }
                let total: usize = p.entries.fields.values().map(|v| v.len()).sum();
                while held.len() < total {
                    held.push(next);
                    next += 1;
                }
                let w: Vec<_> = held.iter().map(|i| want(*i)).collect();
                check_entries(&p.entries, &r, &w).map_err(|m| format!("entries after the failure: {}", m))?;
                let rd: &ScriptedReader = match &p.partial {
                    Some(ps) => {
                        if next >= r.parts.len() {
                            return Err("a partial field past the last one".into());
                        }
                        check_headers(&ps.source.headers, &r.parts[next]).map_err(|m| format!("partial field: {}", m))?;
                        obs.nt(true);
                        if let Some(dst) = &ps.dest {
                            let v = read_back(dst)?;
                            if !r.content(next).starts_with(&v) {
                                return Err(format!("partial data: {}", diff(&v, r.content(next))));
                            }
                        }
                        next += 1;
                        entries = p.entries;
                        if blocked {
                            obs.class("directory blocked");
                            if fs::read(&dir).ok() == Some(b"in the way".to_vec()) {
                                fs::remove_file(&dir).unwrap();
                            } else {
                                return Err("the file in the way was changed".into());
                            }
                        } else if faults.is_empty() {
                            return Err(format!("stopped with {} although nothing is wrong", why_of(&why)));
                        }
                        continue;
                    }
                    None => mp.borrow(),
                };
                // an error between fields: what follows is not specified
                if rd.fault_no == 0 {
                    return Err(format!("stopped with {} although nothing is wrong", why_of(&why)));
                }
                return Ok(());
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathFault {
    pub content: Vec<Seg>,
    pub room: u16,
    pub thr: Lim,
    pub text: u8,
    pub chunk: Chunk,
    pub faults: Vec<(At, u8, u8)>,
}

/// A single field saved to a path with the disk filling up or the source failing.
fn eval_path_fault(c: &PathFault, obs: &mut Obs) -> Outcome {
    let body = Body { boundary: "BoUnDaRy77".into(), preamble: None, epilogue: 0, parts: vec![
        Part { name: "f".into(), filename: None, mime: None, content: c.content.clone(), style: HStyle::default() },
        Part { name: "g".into(), filename: None, mime: None, content: vec![Seg::Lit("next".into())], style: HStyle::default() }] };
    let r = body.render();
    let content = r.content(0);
    let d = CaseDir::new();
    fsx::clean_tmp();
    let data = Arc::new(r.bytes.clone());
    // source faults only inside the contents of the first field
    let faults: Vec<(usize, ErrorKind)> = fault_list(&r, &c.faults).into_iter().filter(|f| f.0 > r.parts[0].start + 8192.min(content.len()) && f.0 <= r.parts[0].end).collect();
    let rd = ScriptedReader::new(data, &c.chunk, &r.marks()).with_faults(faults.clone());
    let mut mp = Multipart::with_body(rd, r.boundary.clone());
    let mut f = match Multipart::read_entry(&mut mp) {
        Ok(Some(f)) => f,
        Ok(None) => return Err("no field".into()),
        Err(e) => return if faults.is_empty() { Err(e.to_string()) } else { Ok(()) },
    };
    let thr = c.thr.resolve(&r).map_or(DEF_MEM, |x| x.unwrap_or(u64::max_value()));
    let path = d.path().join("out/file");
    let room = c.room as usize;
    set_fsize(Some(room as u64));
    let res = guarded(|| apply_text(f.data.save().size_limit(None).memory_threshold(thr), if c.text % 2 == 0 { 0 } else { 3 }).with_path(path.clone()));
    set_fsize(None);
    let res = res?;
    let on_disk = fs::read(&path).ok();
    let hard = faults.iter().filter(|f| f.1 != ErrorKind::Interrupted).count();
    let (dst, io_err) = match res {
        SaveResult::Full(x) => (Some(x), None),
        SaveResult::Partial(x, PartialReason::IoError(e)) => (Some(x), Some(e)),
        SaveResult::Partial(_, w) => return Err(format!("stopped with {}", why_of(&w))),
        SaveResult::Error(e) => (None, Some(e)),
    };
    obs.nt(io_err.is_some());
    let saved = match &dst {
        Some(x) => read_back(x)?,
        None => Vec::new(),
    };
    if !content.starts_with(&saved) {
        return Err(format!("saved data: {}", diff(&saved, content)));
    }
    match (&dst, &on_disk) {
        (Some(SavedData::File(p, _)), Some(_)) if *p == path => obs.class("file"),
        (Some(SavedData::File(p, _)), _) => return Err(format!("reported file {:?}", p)),
        (Some(_), None) => obs.class("memory"),
        (None, None) => {}
        (None, Some(v)) if v.is_empty() => {}
        (_, Some(v)) => return Err(format!("{} bytes are in the file but were not reported", v.len())),
    }
    match &io_err {
        None => {
            if saved != content {
                return Err(format!("full success: {}", diff(&saved, content)));
            }
        }
        Some(e) => {
            if hard == 0 && (content.len() <= room || content.len() as u64 <= thr) {
                return Err(format!("failed with {} although everything fits", e));
            }
            if dst.is_none() && !saved.is_empty() {
                return Err("unreachable".into());
            }
        }
    }
    // what was not saved is still in the stream, except bytes collected in memory for a file that
    // could not take them
    let mut rest = Vec::new();
    let mut errs = 0;
    while let Err(_) = f.data.read_to_end(&mut rest) {
        errs += 1;
        if errs > 100 {
            return Err("endless errors".into());
        }
    }
    let thr = thr.min(1 << 30) as usize;
    let lost_ok = dst.is_none() || (room < thr && content.len() > thr);
    if rest != content[saved.len()..] && !(lost_ok && content.ends_with(&rest)) {
        return Err(format!("{} bytes saved, the rest of the field reads: {}", saved.len(), diff(&rest, &content[saved.len()..])));
    }
    if dst.is_none() && content.len() as u64 > thr as u64 && room > 0 && hard == 0 {
        return Err(format!("the file could take {} bytes but the save failed outright: {:?}", room, io_err));
    }
    drop(f);
    match Multipart::read_entry(&mut mp) {
        Ok(Some(mut g)) => {
            let v = rest_of(&mut g)?;
            if v != r.content(1) || *g.headers.name != *"g" {
                return Err("the following field differs".into());
            }
            Ok(())
        }
        other => {
            if errs > 0 || hard > 0 { Ok(()) } else { Err(format!("the following field: {:?}", other.map(|o| o.is_some()))) }
        }
    }
}

pub fn m22() -> Vec<Facet> {
    fn kinds() -> BoxedStrategy<u8> {
        prop_oneof![1 => Just(0u8), 4 => select((1..=KINDS.len() as u8).collect::<Vec<_>>())].boxed()
    }
    fn faults(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<(At, u8, u8)>> {
        proptest::collection::vec((at(), kinds(), prop_oneof![4 => Just(1u8), 1 => 2u8..4]), n).boxed()
    }
    fn big_body(n: std::ops::Range<usize>) -> BoxedStrategy<Body> {
        body_with(n, big_content(), plain_style())
    }
    fn write() -> BoxedStrategy<WriteCase> {
        (body_with(1..4, content(), plain_style()), chunk(), faults(0..3), prop_oneof![1 => proptest::collection::vec(wop(false), 0..12), 2 => proptest::collection::vec(wop(true), 0..12)],
         prop_oneof![3 => Just(Lim::None), 1 => lim()])
            .prop_map(|(body, chunk, faults, ops, limit)| WriteCase { body, chunk, faults, ops, limit })
            .boxed()
    }
    fn write_large() -> BoxedStrategy<WriteCase> {
        (write(), huge_plan())
            .prop_map(|(c, h)| WriteCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), limit: c.limit.scaled(), ..c })
            .boxed()
    }
    fn blocked() -> BoxedStrategy<BlockedCase> {
        (body_with(1..6, content(), plain_style()), chunk(), prop_oneof![Just(Lim::Default), Just(Lim::Abs(0)), lim()], 0u8..3, faults(1..4))
            .prop_map(|(body, chunk, thr, state, faults)| BlockedCase { body, chunk, thr, state, faults })
            .boxed()
    }
    fn blocked_large() -> BoxedStrategy<BlockedCase> {
        (blocked(), huge_plan())
            .prop_map(|(c, h)| BlockedCase { body: c.body.enlarged(h), chunk: c.chunk.coarse(), thr: c.thr.scaled(), ..c })
            .boxed()
    }
    vec![
        facet("write-to-large", "the same with contents of 30-400 kB", 2_500, 40_000, write_large, eval_write),
        facet("blocked-large", "the same with contents of 30-400 kB", 2_000, 30_000, blocked_large, eval_blocked),
        facet("write-to",
              "write_to into a writer following a script of short writes, interruptions, errors of 12 kinds and zero-length writes, from a source with injected faults, with and without size limits, called again after each failure until complete; reported counts, received prefix, error kinds and the final bytes compared; non-trivial: a non-empty field",
              120_000, 1_500_000, write, eval_write),
        facet("disk-full",
              "whole-request saves while files cannot grow beyond 0-40 kB (RLIMIT_FSIZE), then resumed with the returned entries once there is room; earlier fields intact, exact prefix reported and on disk, rest of the field readable, following fields saved; non-trivial: some field does not fit",
              30_000, 400_000, || (big_body(1..5), chunk(), prop_oneof![1 => Just(0u16), 4 => 0u16..40000, 2 => 0u16..2000], prop_oneof![Just(Lim::Default), Just(Lim::Abs(0)), lim()], dest(), any::<bool>())
                  .prop_map(|(body, chunk, room, thr, dest, resume)| DiskCase { body, chunk, room, thr, dest, resume }).boxed(), eval_disk),
        facet("path-fault",
              "a single field saved to a path while the disk fills up and/or the source fails inside the field",
              40_000, 500_000, || (big_content(), prop_oneof![1 => Just(0u16), 3 => 0u16..40000, 3 => Just(60000u16)], prop_oneof![Just(Lim::Default), Just(Lim::Abs(0)), (0u32..20000).prop_map(Lim::Abs), lim()], 0u8..2, chunk(), faults(0..3))
                  .prop_map(|(content, room, thr, text, chunk, faults)| PathFault { content, room, thr, text, chunk, faults }).boxed(), eval_path_fault),
        facet("blocked",
              "saves into a directory that is missing, blocked by a file (then repaired) or fine with a failing source, resumed with the returned entries; entries before the failure intact, resumption continues with the following field; non-trivial: a field was interrupted",
              40_000, 500_000, blocked, eval_blocked),
    ]
}

fn big_content() -> BoxedStrategy<Vec<Seg>> {
    prop_oneof![
        2 => content(),
        2 => (any::<u16>(), 0u16..50000).prop_map(|(s, l)| vec![Seg::R(s, l)]),
        1 => (0u16..45000).prop_map(|l| vec![Seg::Rep(b'x', l)]),
        1 => (0u8..3, 0u16..9000).prop_map(|(a, b)| vec![Seg::Mb(a, b)]),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------- M23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConvCase {
    /// 0 full, 1 size, 2 count, 3 utf8, 4 io, 5 error
    pub kind: u8,
    pub val: u64,
    pub err: u8,
}

fn mk(c: &ConvCase) -> SaveResult<u64, u64> {
    let io = || io::Error::new(KINDS[c.err as usize % KINDS.len()], "made up");
    match c.kind % 6 {
        0 => SaveResult::Full(c.val),
        1 => SaveResult::Partial(c.val, PartialReason::SizeLimit),
        2 => SaveResult::Partial(c.val, PartialReason::CountLimit),
        3 => {
            let bytes = vec![b'a', 0xff];
            SaveResult::Partial(c.val, PartialReason::Utf8Error(std::str::from_utf8(&bytes).unwrap_err()))
        }
        4 => SaveResult::Partial(c.val, PartialReason::IoError(io())),
        _ => SaveResult::Error(io()),
    }
}

fn eval_conv(c: &ConvCase, obs: &mut Obs) -> Outcome {
    obs.nt(true);
    let kind = c.kind % 6;
    let k = KINDS[c.err as usize % KINDS.len()];
    let val = if kind == 5 { None } else { Some(c.val) };
    let ioerr = if kind >= 4 { Some(k) } else { None };
    macro_rules! want {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{} of kind {}: got {:?}, want {:?}", $what, kind, g, w));
            }
        }};
    }
    want!("okish", mk(c).okish(), val);
    let (v, e) = mk(c).into_opt_both();
    want!("into_opt_both value", v, val);
    want!("into_opt_both error", e.map(|e| e.kind()), ioerr);
    match mk(c).into_result() {
        Ok(v) => want!("into_result", Some(v), val),
        Err(e) => want!("into_result", (Some(e.kind()), kind), (ioerr, 5)),
    }
    match mk(c).into_result_strict() {
        Ok(v) => want!("into_result_strict", (Some(v), kind), (val, 0)),
        Err(e) => {
            if kind == 0 {
                return Err("into_result_strict fails a full result".into());
            }
            if let Some(k) = ioerr {
                want!("into_result_strict", e.kind(), k);
            }
        }
    }
    let m = mk(c).map(|v| format!("<{}>", v));
    let s = format!("<{}>", c.val);
    let ok = match (&m, kind) {
        (SaveResult::Full(x), 0) => *x == s,
        (SaveResult::Partial(x, PartialReason::SizeLimit), 1) => *x == s,
        (SaveResult::Partial(x, PartialReason::CountLimit), 2) => *x == s,
        (SaveResult::Partial(x, PartialReason::Utf8Error(_)), 3) => *x == s,
        (SaveResult::Partial(x, PartialReason::IoError(e)), 4) => *x == s && e.kind() == k,
        (SaveResult::Error(e), 5) => e.kind() == k,
        _ => false,
    };
    if !ok {
        return Err(format!("map of kind {}: {:?}", kind, m));
    }
    if let SaveResult::Partial(_, why) = mk(c) {
        match guarded(|| why.unwrap_err().kind()) {
            Ok(x) => want!("unwrap_err", (x, kind), (k, 4)),
            Err(_) => {
                if kind == 4 {
                    return Err("unwrap_err panics on an I/O error".into());
                }
            }
        }
    }
    if let SaveResult::Partial(_, why) = mk(c) {
        match guarded(|| why.expect_err("some message").kind()) {
            Ok(x) => want!("expect_err", (x, kind), (k, 4)),
            Err(m) => {
                if kind == 4 || !m.contains("some message") {
                    return Err(format!("expect_err: {}", m));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntriesCase {
    pub save: SaveCase,
    pub conv: u8,
    pub cut: Option<u16>,
    /// fields removed from the result
    pub remove: Vec<u8>,
}

fn snapshot(e: &Entries) -> Result<Vec<(String, Option<String>, Option<String>, Vec<u8>)>, String> {
    let mut v = Vec::new();
    for (n, fs) in &e.fields {
        for f in fs {
            if f.headers.name != *n {
                return Err(format!("field {:?} is stored under {:?}", f.headers.name, n));
            }
            v.push((n.to_string(), f.headers.filename.clone(), f.headers.content_type.as_ref().map(|m| m.to_string()), read_back(&f.data)?));
        }
    }
    v.sort();
    Ok(v)
}

fn eval_entries(c: &EntriesCase, obs: &mut Obs) -> Outcome {
    let r = c.save.body.render();
    let x = resolve(&c.save, &r);
    let d = CaseDir::new();
    enter(&c.save.dest, &d);
    fsx::clean_tmp();
    let mut bytes = r.bytes.clone();
    if let Some(k) = c.cut {
        bytes.truncate(r.bytes.len() * k as usize / 65536);
    }
    let data = Arc::new(bytes);
    let mut mp = super::super::drive::parser(&data, &c.save.chunk, &r.marks(), &r.boundary);
    let res = save_to(configure(mp.save(), &c.save, &x), &c.save.dest, &d);
    // what the result holds before the conversion
    let (mut held, partial, why) = match &res {
        SaveResult::Full(e) => (snapshot(e)?, None, None),
        SaveResult::Partial(p, w) => {
            let pf = match &p.partial {
                Some(ps) => match &ps.dest {
                    Some(dst) => Some((ps.source.headers.name.to_string(), ps.source.headers.filename.clone(), ps.source.headers.content_type.as_ref().map(|m| m.to_string()), read_back(dst)?)),
                    None => None,
                },
                None => None,
            };
            (snapshot(&p.entries)?, pf, Some(why_of(w)))
        }
        SaveResult::Error(e) => return Err(format!("the save failed: {}", e)),
    };
    let io = matches!(&res, SaveResult::Partial(_, PartialReason::IoError(_)));
    obs.class(match &why { None => "full", Some(w) if w.starts_with("Size") => "size limit", Some(w) if w.starts_with("Count") => "count limit", Some(w) if w.starts_with("Utf8") => "UTF-8", _ => "I/O error" });
    obs.class_if(partial.is_some(), "partially saved field");
    obs.nt(why.is_some() || !held.is_empty());
    let mut e = match c.conv % 7 {
        0 => res.into_entries().ok_or("into_entries lost the entries")?,
        1 => res.okish().ok_or("okish lost the entries")?,
        2 => {
            let (e, err) = res.into_opt_both();
            if err.is_some() != io {
                return Err(format!("into_opt_both: error {:?}, reason {:?}", err, why));
            }
            e.ok_or("into_opt_both lost the entries")?
        }
        3 => res.into_result().map_err(|e| format!("into_result of a partial result failed: {}", e))?,
        4 => match res.into_result_strict() {
            Ok(e) if why.is_none() => e,
            Ok(_) => return Err(format!("into_result_strict succeeded for a partial result ({:?})", why)),
            Err(_) if why.is_some() => return Ok(()),
            Err(e) => return Err(format!("into_result_strict failed for a full result: {}", e)),
        },
        5 => match res {
            SaveResult::Partial(p, _) => {
                held.extend(partial);
                held.sort();
                p.keep_partial()
            }
            SaveResult::Full(e) => e,
            SaveResult::Error(_) => unreachable!(),
        },
        _ => match res.map(|e| e) {
            SaveResult::Full(e) if why.is_none() => e,
            SaveResult::Partial(e, w) if Some(why_of(&w)) == why => e,
            _ => return Err("map changed the outcome".into()),
        },
    };
    let got = snapshot(&e)?;
    if got != held {
        return Err(format!("conversion {} holds {} fields, want {}; reason {:?}", c.conv % 7, got.len(), held.len(), why));
    }
    if e.fields_count() as usize != held.len() {
        return Err(format!("fields_count is {} with {} fields after conversion {}", e.fields_count(), held.len(), c.conv % 7));
    }
    if e.is_empty() != held.is_empty() {
        return Err("is_empty is wrong".into());
    }
    // external modification, then recount
    let mut n = held.len();
    for k in &c.remove {
        let mut names: Vec<_> = e.fields.keys().cloned().collect();
        names.sort();
        if names.is_empty() {
            break;
        }
        let nm = names[*k as usize % names.len()].clone();
        if k % 2 == 0 {
            n -= e.fields.remove(&nm).map_or(0, |v| v.len());
        } else {
            let v = e.fields.get_mut(&nm).unwrap();
            v.pop();
            n -= 1;
            if v.is_empty() {
                e.fields.remove(&nm);
            }
        }
    }
    if e.is_empty() != (n == 0) {
        return Err("is_empty is wrong after removal, before a recount".into());
    }
    if e.recount_fields() as usize != n || e.fields_count() as usize != n {
        return Err(format!("recount gives {} (then {}), {} fields are held", e.recount_fields(), e.fields_count(), n));
    }
    if e.is_empty() != (n == 0) {
        return Err("is_empty is wrong after removal".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ResumedCase {
    pub body: Body,
    pub chunk: Chunk,
    pub thr: Lim,
    /// per round: size limit, count limit, text policy
    pub rounds: Vec<(Lim, Option<u8>, u8)>,
    /// per stop: what happens to the field being saved, changes made to the entries, whether they are recounted
    pub plan: Vec<(u8, Vec<u8>, bool)>,
    pub dest: Dest,
}

type Snap = Vec<(String, Option<String>, Option<String>, Vec<u8>)>;

fn add_one(before: &Snap, after: &Snap) -> Snap {
    let mut left = before.clone();
    after.iter().filter(|x| match left.iter().position(|y| y == *x) {
        Some(i) => { left.swap_remove(i); false }
        None => true,
    }).cloned().collect()
}

/// A save stopped any number of times; in between the caller changes the limits and the entries.
/// The counts follow the fields really held, and the count limit goes by them.
fn eval_resumed(c: &ResumedCase, obs: &mut Obs) -> Outcome {
    let r = c.body.render();
    let d = CaseDir::new();
    enter(&c.dest, &d);
    fsx::clean_tmp();
    let data = Arc::new(r.bytes.clone());
    let mut mp = super::super::drive::parser(&data, &c.chunk, &r.marks(), &r.boundary);
    let n = r.parts.len();
    let mut next = 0usize;
    let mut entries: Option<Entries> = None;
    let mut before: Snap = Vec::new();
    let mut stops = 0usize;
    let mut touched = false;
    loop {
        if stops > n {
            return Err("no progress when resuming".into());
        }
        let (size, count, text) = c.rounds.get(stops).cloned().unwrap_or((Lim::None, None, 0));
        let sc = SaveCase { body: c.body.clone(), chunk: c.chunk.clone(), size, count: count.map_or(Lim::None, |k| Lim::Abs(k as u32)), thr: c.thr.clone(), text, dest: c.dest.clone() };
        let x = resolve(&sc, &r);
        let b = configure(mp.save(), &sc, &x);
        let res = match entries.take() {
            None => save_to(b, &c.dest, &d),
            Some(e) => b.with_entries(e),
        };
        let e = match &res {
            SaveResult::Full(e) => e,
            SaveResult::Partial(p, _) => &p.entries,
            SaveResult::Error(e) => return Err(format!("round {}: {}", stops, e)),
        };
        let after = snapshot(e)?;
        if e.fields_count() as usize != after.len() {
            return Err(format!("round {}: fields_count is {} with {} fields held", stops, e.fields_count(), after.len()));
        }
        if e.is_empty() != after.is_empty() {
            return Err(format!("round {}: is_empty is wrong", stops));
        }
        // nothing lost, and exactly the next parts added
        if !add_one(&after, &before).is_empty() {
            return Err(format!("round {}: fields held before the save are gone or changed", stops));
        }
        let new = add_one(&before, &after);
        let k = new.len();
        if next + k > n {
            return Err(format!("round {}: {} fields added, {} parts left", stops, k, n - next));
        }
        let mut want: Snap = (next..next + k).map(|i| {
            let p = &r.parts[i];
            (p.name.clone(), p.filename.clone(), p.mime.clone(), r.content(i).to_vec())
        }).collect();
        want.sort();
        if new != want {
            return Err(format!("round {}: the {} fields added are not the next parts of the request", stops, k));
        }
        if k > 0 && after.len() as u64 > x.count {
            return Err(format!("round {}: {} fields held, the limit is {}", stops, after.len(), x.count));
        }
        next += k;
        let (p, why) = match res {
            SaveResult::Full(_) => {
                if next < n {
                    return Err(format!("round {}: full success with {} of {} parts read", stops, next, n));
                }
                obs.class_if(stops > 0, "resumed to the end");
                obs.nt(stops > 0 && touched);
                return Ok(());
            }
            SaveResult::Partial(p, why) => (p, why),
            SaveResult::Error(_) => unreachable!(),
        };
        if next >= n {
            return Err(format!("round {}: stopped with {} after the last part", stops, why_of(&why)));
        }
        let len = r.content(next).len() as u64;
        match &why {
            PartialReason::CountLimit => {
                obs.class("count limit");
                if (after.len() as u64) < x.count {
                    return Err(format!("round {}: count limit {} reached with {} fields held", stops, x.count, after.len()));
                }
            }
            PartialReason::SizeLimit => {
                obs.class("size limit");
                if len <= x.size {
                    return Err(format!("round {}: size limit {} for {} bytes", stops, x.size, len));
                }
            }
            PartialReason::Utf8Error(_) => {
                obs.class("UTF-8");
                if policy(text) != Policy::Force || std::str::from_utf8(r.content(next)).is_ok() {
                    return Err(format!("round {}: stopped with {}", stops, why_of(&why)));
                }
            }
            PartialReason::IoError(e) => return Err(format!("round {}: {}", stops, e)),
        }
        if !matches!(why, PartialReason::CountLimit) && after.len() as u64 >= x.count {
            return Err(format!("round {}: {} fields held with limit {}, another field was being saved", stops, after.len(), x.count));
        }
        let (act, ops, recount) = c.plan.get(stops).cloned().unwrap_or((0, vec![], false));
        stops += 1;
        let mut model = after;
        let saved = match p.partial.as_ref() {
            None => return Err("the field being saved was lost".into()),
            Some(ps) => match &ps.dest {
                None => None,
                Some(dst) => Some((ps.source.headers.name.to_string(), ps.source.headers.filename.clone(), ps.source.headers.content_type.as_ref().map(|m| m.to_string()), read_back(dst)?)),
            },
        };
        let mut e = match act % 3 {
            0 => {
                obs.class_if(saved.is_some(), "partial kept");
                model.extend(saved);
                p.keep_partial()
            }
            1 => {
                let mut e = p.entries;
                // the caller saves the rest of the field itself and adds it
                let mut ps = p.partial.unwrap();
                let dst = match ps.source.data.save().size_limit(None).ignore_text().with_dir(e.save_dir.as_path()) {
                    SaveResult::Full(s) => s,
                    _ => return Err("saving the rest of the field failed".into()),
                };
                let h = ps.source.headers;
                model.push((h.name.to_string(), h.filename.clone(), h.content_type.as_ref().map(|m| m.to_string()), read_back(&dst)?));
                e.fields.entry(h.name.clone()).or_insert_with(Vec::new).push(multipart::server::save::SavedField { headers: h, data: dst });
                touched = true;
                obs.class("field added by the caller");
                e
            }
            _ => p.entries,
        };
        for k in &ops {
            let mut names: Vec<_> = e.fields.keys().cloned().collect();
            names.sort();
            if names.is_empty() {
                break;
            }
            touched = true;
            obs.class("fields removed by the caller");
            let nm = names[(*k / 4) as usize % names.len()].clone();
            match k % 4 {
                0 => e.fields.clear(),
                1 => { e.fields.remove(&nm); }
                _ => {
                    let v = e.fields.get_mut(&nm).unwrap();
                    v.pop();
                    if v.is_empty() {
                        e.fields.remove(&nm);
                    }
                }
            }
        }
        if act % 3 == 0 && ops.is_empty() && e.fields_count() as usize != model.len() {
            return Err(format!("fields_count is {} with {} fields after keeping the partial", e.fields_count(), model.len()));
        }
        if ops.is_empty() {
            model.sort();
            if snapshot(&e)? != model {
                return Err("keeping or adding the partial changed the fields".into());
            }
        }
        before = snapshot(&e)?;
        if recount && e.recount_fields() as usize != before.len() {
            return Err(format!("recount gives {} with {} fields", e.fields_count(), before.len()));
        }
        next += 1;
        entries = Some(e);
    }
}

pub fn m23() -> Vec<Facet> {
    vec![
        facet("results", "every variant and reason of a result with arbitrary values and error kinds through every conversion",
              200_000, 2_000_000, || (0u8..6, any::<u64>(), any::<u8>()).prop_map(|(kind, val, err)| ConvCase { kind, val, err }).boxed(), eval_conv),
        facet("entries",
              "requests saved fully or stopped by size limit, count limit, forced text or a truncated body, converted by each conversion; the fields (names, headers, contents) before and after compared, field counts and emptiness before and after external removal; non-trivial: partial or non-empty",
              180_000, 2_500_000, || (
                  case(save_body(prop_oneof![1 => small_content(), 1 => text_content()].boxed(), 0..5), prop_oneof![2 => no_lim(), 1 => lim()].boxed(),
                       prop_oneof![2 => no_lim(), 1 => (0u8..1, -2i8..2).prop_map(|(a, b)| Lim::Rel(a, b))].boxed(), thr_lim(), (0u8..4).boxed()),
                  any::<u8>(), prop_oneof![2 => Just(None), 1 => any::<u16>().prop_map(Some)], proptest::collection::vec(any::<u8>(), 0..3))
                  .prop_map(|(save, conv, cut, remove)| EntriesCase { save, conv, cut, remove }).boxed(), eval_entries),
        facet("resumed",
              "saves stopped repeatedly by size limit, count limit or forced text; in between the caller keeps, adds or drops the field being saved, removes fields, recounts or not, and changes the limits; the field count always equals the fields held, the count limit goes by it, and every round adds exactly the next parts; non-trivial: resumed after outside changes",
              60_000, 1_000_000, || (
                  save_body(prop_oneof![2 => small_content(), 1 => text_content()].boxed(), 2..8), chunk(), thr_lim(),
                  proptest::collection::vec((prop_oneof![3 => no_lim(), 1 => lim()], prop_oneof![1 => Just(None), 3 => (0u8..6).prop_map(Some)], 0u8..4), 0..6),
                  proptest::collection::vec((any::<u8>(), proptest::collection::vec(any::<u8>(), 0..4), any::<bool>()), 0..6), dest())
                  .prop_map(|(body, chunk, thr, rounds, plan, dest)| ResumedCase { body, chunk, thr, rounds, plan, dest }).boxed(), eval_resumed),
    ]
}
