//! Case vocabulary shared by the properties: contents, names, boundaries, bodies, deliveries.

use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::{self, Read};
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// bytes

/// Deterministic pseudo-random bytes (part of the case, not of the search).
pub fn prand(seed: u32, len: usize) -> Vec<u8> {
    let mut x = (seed as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x243f6a8885a308d3;
    let mut out = Vec::with_capacity(len + 8);
    while out.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        out.extend_from_slice(&x.wrapping_mul(0x2545f4914f6cdd1d).to_le_bytes());
    }
    out.truncate(len);
    out
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return if n.is_empty() { Some(0) } else { None };
    }
    h.windows(n.len()).position(|w| w == n)
}

pub fn find_all(h: &[u8], n: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    let mut at = 0;
    while let Some(i) = find(&h[at..], n) {
        v.push(at + i);
        at += i + 1;
    }
    v
}

/// Short description of a byte string.
pub fn show(b: &[u8]) -> String {
    if b.len() <= 80 {
        format!("{:?}", String::from_utf8_lossy(b))
    } else {
        format!("{} bytes {:?}..{:?}", b.len(), String::from_utf8_lossy(&b[..30]), String::from_utf8_lossy(&b[b.len() - 30..]))
    }
}

/// Explain how two byte strings differ.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let win = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(8).min(b.len())..(at + 24).min(b.len())]).into_owned();
    format!("lengths got {} want {}, first difference at {}: got {:?} want {:?}", got.len(), want.len(), at, win(got), win(want))
}

// ---------------------------------------------------------------------------------------------
// contents

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Seg {
    /// pseudo-random bytes
    R(u16, u16),
    /// one byte repeated
    Rep(u8, u16),
    Lit(String),
    Cr,
    Lf,
    Crlf,
    Dash(u8),
    /// first k bytes of "\r\n--boundary" (k taken modulo its length, so always proper)
    Pre(u8),
    /// first k bytes of "--boundary" (proper)
    PreNoNl(u8),
    /// "\r\n--boundary" with one byte altered
    Miss(u8, u8),
    /// pad with filler until the content length reaches target+delta
    Pad(u16, i8),
    /// pad with filler until the absolute offset in the body reaches target+delta
    PadAbs(u16, i8),
    /// multi-byte UTF-8 characters: (width 2..4, count)
    Mb(u8, u16),
    /// something that is not valid UTF-8, by kind
    Bad(u8),
    /// something that looks like a part header block
    Hdr,
    /// a lot of data: (kind, seed, length)
    Huge(u8, u16, u32),
}

pub const BAD_UTF8: &[&[u8]] = &[
    b"\xff", b"\x80", b"\xc3", b"\xc3(", b"\xe2\x82", b"\xe2(\xa1", b"\xf0\x9f\x98", b"\xf0\x28\x8c\xbc",
    b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82\xff", b"\xf0\x9f\xff\xff", b"\xfe\xfe",
    b"\x80\x80\x80\x80\x80", b"\xe9",
];

pub fn render(segs: &[Seg], boundary: &str, abs_start: usize) -> Vec<u8> {
    let delim = format!("\r\n--{}", boundary).into_bytes();
    let mut out: Vec<u8> = Vec::new();
    for s in segs {
        match s {
            Seg::R(seed, len) => out.extend(prand(*seed as u32, *len as usize)),
            Seg::Rep(b, len) => out.extend(std::iter::repeat(*b).take(*len as usize)),
            Seg::Lit(s) => out.extend_from_slice(s.as_bytes()),
            Seg::Cr => out.push(b'\r'),
            Seg::Lf => out.push(b'\n'),
            Seg::Crlf => out.extend_from_slice(b"\r\n"),
            Seg::Dash(n) => out.extend(std::iter::repeat(b'-').take(*n as usize)),
            Seg::Pre(k) => out.extend_from_slice(&delim[..stretch(*k as usize, delim.len()) % delim.len()]),
            Seg::PreNoNl(k) => out.extend_from_slice(&delim[2..][..stretch(*k as usize, delim.len()) % (delim.len() - 2)]),
            Seg::Miss(i, x) => {
                let mut d = delim.clone();
                let i = *i as usize % d.len();
                d[i] ^= if *x == 0 { 1 } else { *x };
                out.extend(d);
            }
            Seg::Pad(t, d) => {
                let want = (*t as i64 + *d as i64).max(0) as usize;
                let mut i = 0u32;
                while out.len() < want {
                    out.push(b'a' + (i % 23) as u8);
                    i += 1;
                }
            }
            Seg::PadAbs(t, d) => {
                let want = (*t as i64 + *d as i64).max(0) as usize;
                let mut i = 0u32;
                while out.len() + abs_start < want {
                    out.push(b'a' + (i % 23) as u8);
                    i += 1;
                }
            }
            Seg::Mb(w, n) => {
                let c = match w % 3 {
                    0 => "\u{e9}",
                    1 => "\u{20ac}",
                    _ => "\u{1f600}",
                };
                for _ in 0..*n {
                    out.extend_from_slice(c.as_bytes());
                }
            }
            Seg::Bad(k) => out.extend_from_slice(BAD_UTF8[*k as usize % BAD_UTF8.len()]),
            Seg::Hdr => out.extend_from_slice(b"Content-Disposition: form-data; name=\"z\"\r\n\r\n"),
            Seg::Huge(kind, seed, len) => {
                let end = out.len() + *len as usize;
                match kind % 5 {
                    0 => out.extend(prand(*seed as u32, *len as usize)),
                    1 => out.resize(end, *seed as u8),
                    2 => {
                        // look-alikes at irregular distances
                        let r = prand(*seed as u32, 4096);
                        let mut i = 0;
                        while out.len() < end {
                            let k = r[i % r.len()] as usize;
                            out.extend_from_slice(&delim[..k % delim.len()]);
                            out.extend(std::iter::repeat(b'.').take(r[(i + 1) % r.len()] as usize));
                            i += 2;
                        }
                        out.truncate(end);
                    }
                    3 => {
                        // text; every position is distinguishable
                        let mut i = *seed as u32;
                        while out.len() + 10 <= end {
                            out.extend_from_slice(format!("{:09}\n", i).as_bytes());
                            i += 1;
                        }
                        out.resize(end, b'.');
                    }
                    _ => {
                        // multi-byte text of exactly that length
                        while out.len() + 7 <= end {
                            out.extend_from_slice("\u{20ac}\u{1f600}".as_bytes());
                        }
                        out.resize(end, b'.');
                    }
                }
            }
        }
    }
    scrub(&mut out, boundary);
    out
}

/// Prefix lengths are small numbers; for boundaries of kilobytes they are scaled up.
fn stretch(k: usize, len: usize) -> usize {
    if len > 300 { k * (len / 256 + 1) + k % 7 } else { k }
}

/// Remove every occurrence of "--boundary" (the parser's delimiter) from a content.
pub fn scrub(out: &mut Vec<u8>, boundary: &str) {
    let d = format!("--{}", boundary).into_bytes();
    // a byte that cannot appear in a boundary, so replacing never creates a new occurrence
    let mut at = 0;
    while let Some(i) = find(&out[at..], &d) {
        out[at + i + d.len() - 1] = b'\x01';
        at += i + d.len();
    }
}

pub fn scrub_str(s: &str, boundary: &str) -> String {
    let d = format!("--{}", boundary);
    let mut s = s.to_string();
    while let Some(i) = s.find(&d) {
        let end = i + d.len();
        s.replace_range(i..end, &"~".repeat(d.len().min(3)));
    }
    s
}

fn len_small() -> BoxedStrategy<u16> {
    prop_oneof![4 => 0u16..8, 3 => 0u16..100, 1 => 0u16..1200].boxed()
}

/// Byte positions at which the implementation's buffering changes behaviour.
pub const EDGES: &[u16] = &[1024, 2048, 8192, 8192 - 1024, 16384, 10240, 4096];

/// Text which is often treated specially without need.
pub fn odd() -> BoxedStrategy<Seg> {
    select(vec![
        "\u{feff}", "\u{fffd}", "\0", "\0\0", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "e\u{301}", "\u{e9}", "\u{d7ff}", "\u{e000}", "\u{ffff}",
        "\u{10ffff}", "\u{10000}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\t", " ", "\u{1a}", "\u{1b}[0m", "\u{b}", "\u{c}", "\u{200d}", "%20", "%00", "+", "&amp;",
        "\\", "\"", "\\r\\n", "\r\r\n", "\n\n", "\n\r", ".\r\n", "=3D", "=\r\n", "\r\n ", "\r\n\t", "null", "0", "\u{feff}\u{feff}", "PK\u{3}\u{4}", "\u{1f}\u{8b}",
    ])
    .prop_map(|s: &str| Seg::Lit(s.into()))
    .boxed()
}

pub fn seg() -> BoxedStrategy<Seg> {
    prop_oneof![
        1 => odd(),
        3 => (any::<u16>(), len_small()).prop_map(|(s, l)| Seg::R(s, l)),
        1 => (select(vec![0u8, b'-', b'\r', b'\n', b' ', b'a', 0xff]), len_small()).prop_map(|(b, l)| Seg::Rep(b, l)),
        2 => "[a-z =;\"\\-]{0,12}".prop_map(Seg::Lit),
        1 => Just(Seg::Cr),
        1 => Just(Seg::Lf),
        2 => Just(Seg::Crlf),
        1 => (1u8..5).prop_map(Seg::Dash),
        3 => any::<u8>().prop_map(Seg::Pre),
        2 => any::<u8>().prop_map(Seg::PreNoNl),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Seg::Miss(a, b)),
        1 => (0u8..3, 0u16..20).prop_map(|(a, b)| Seg::Mb(a, b)),
        1 => any::<u8>().prop_map(Seg::Bad),
        1 => Just(Seg::Hdr),
    ]
    .boxed()
}

fn pad() -> BoxedStrategy<Seg> {
    (select(EDGES.to_vec()), -45i8..46, any::<bool>())
        .prop_map(|(t, d, abs)| if abs { Seg::PadAbs(t, d) } else { Seg::Pad(t, d) })
        .boxed()
}

fn big() -> BoxedStrategy<Seg> {
    prop_oneof![
        (any::<u16>(), 0u16..30000).prop_map(|(s, l)| Seg::R(s, l)),
        (select(vec![b'-', b'\r', b'\n', b'x']), 0u16..20000).prop_map(|(b, l)| Seg::Rep(b, l)),
    ]
    .boxed()
}

/// Contents: mostly short ones made of delimiter look-alikes, some aligned on buffer edges, some big.
pub fn content() -> BoxedStrategy<Vec<Seg>> {
    prop_oneof![
        5 => proptest::collection::vec(seg(), 0..5),
        4 => (proptest::collection::vec(seg(), 0..2), pad(), proptest::collection::vec(seg(), 0..4))
            .prop_map(|(mut a, p, b)| { a.push(p); a.extend(b); a }),
        1 => (proptest::collection::vec(seg(), 0..2), big(), proptest::collection::vec(seg(), 0..3))
            .prop_map(|(mut a, p, b)| { a.push(p); a.extend(b); a }),
    ]
    .boxed()
}

/// A lot of data, with lengths around the powers of two and others that buffers like.
pub fn huge() -> BoxedStrategy<Seg> {
    let len = prop_oneof![
        3 => (select(vec![65536u32, 131072, 262144, 100_000, 81920, 98304, 196608]), -40i32..41).prop_map(|(l, d)| (l as i32 + d) as u32),
        2 => 50_000u32..140_000,
        2 => 30_000u32..400_000,
    ];
    (0u8..5, any::<u16>(), len).prop_map(|(k, s, l)| Seg::Huge(k, s, l)).boxed()
}

/// Where huge segments go: (part, position in its content).
pub fn enlarge(contents: &mut [&mut Vec<Seg>], plan: Vec<(u8, bool, Seg)>) {
    if contents.is_empty() {
        return;
    }
    let n = contents.len();
    for (i, front, h) in plan {
        let c = &mut contents[i as usize % n];
        // padding up to an offset is for small contents
        let at = if front { 0 } else { c.len() };
        c.insert(at, h);
    }
}

pub fn huge_plan() -> BoxedStrategy<Vec<(u8, bool, Seg)>> {
    proptest::collection::vec((any::<u8>(), any::<bool>(), huge()), 1..3).boxed()
}

impl Body {
    pub fn enlarged(mut self, plan: Vec<(u8, bool, Seg)>) -> Body {
        let mut v: Vec<&mut Vec<Seg>> = self.parts.iter_mut().map(|p| &mut p.content).collect();
        enlarge(&mut v, plan);
        drop(v);
        self
    }
}

fn coarse(k: &mut u16) {
    if *k < 700 {
        *k = 700 + *k * 90;
    }
}

impl Chunk {
    /// The same plan with pieces large enough for a lot of data.
    pub fn coarse(mut self) -> Chunk {
        match &mut self {
            Chunk::Full => {}
            Chunk::Fixed(k) => coarse(k),
            Chunk::Cycle(v) => v.iter_mut().for_each(coarse),
            Chunk::Marks(_, b) => if *b > 0 { coarse(b) },
        }
        self
    }
}

pub fn coarse_sizes(v: &mut [u16]) {
    v.iter_mut().for_each(coarse)
}

pub fn small_content() -> BoxedStrategy<Vec<Seg>> {
    proptest::collection::vec(seg(), 0..4).boxed()
}

/// Does a rendered content contain something that makes delimiter search non-trivial?
pub fn tricky(c: &[u8], boundary: &str) -> bool {
    let d = format!("\r\n--{}", boundary).into_bytes();
    let k = d.len().min(4);
    find(c, &d[..k]).is_some() || c.ends_with(b"\r") || c.ends_with(b"\n") || c.ends_with(b"-") || c.starts_with(b"\r") || c.starts_with(b"-")
}

// ---------------------------------------------------------------------------------------------
// boundaries

pub fn boundary() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[0-9A-Za-z]{16}",
        2 => "----WebKitFormBoundary[0-9A-Za-z]{16}",
        2 => "-{0,30}[0-9a-f]{1,24}",
        2 => "[0-9A-Za-z'()+_,./:=?\\-]{1,70}",
        1 => "[0-9A-Za-z'()+_,./:=?\\-]{70}",
        1 => "[a-]{1,6}",
        1 => "[0-9a-z?]( {1,3}[0-9a-z:]){1,10}",
        1 => "(ab){1,10}a?",
        1 => Just("boundary".to_string()),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// names

/// Printable text without double quotes or control characters.
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z][a-z0-9_\\[\\]]{0,10}",
        2 => "[ !#-~]{0,24}",
        2 => select(vec![
            "a;b", "a; b", "x=y", "filename=\u{e9}", "; filename=evil", "; name=evil", "a\\", "\\", "a'b", "=", ";", ";;",
            "name=", "filename=", " lead", "trail ", " ", "", "caf\u{e9}", "\u{65e5}\u{672c}\u{8a9e}", "\u{1f600}.png",
            "a,b", "form-data", "..", "../../x", "/etc/passwd", "C:\\temp\\x.txt", "%22", "a%0d%0ab", "--", "a--", "x; name", "a:b", "Content-Type: text/html",
            "'", "''", "'a", "a'", "'quoted'", "a;", ";a", "a;b;c", "a = b", "filename*=UTF-8''x", "name*=utf-8''y", "\u{a0}", "\u{feff}x",
            "e\u{301}", "\u{202e}gnp.exe", "a\u{2028}b", "b=\u{20ac};", "+", "&", "<script>", "{}", "?", "*",
        ]).prop_map(String::from),
        1 => proptest::collection::vec(name_char(), 0..12).prop_map(|v| v.into_iter().collect()),
    ]
    // no absolute paths: some of these requests are saved to disk
    .prop_map(|s: String| if s.starts_with('/') { format!(".{}", s) } else { s })
    .boxed()
}

fn name_char() -> BoxedStrategy<char> {
    prop_oneof![
        3 => select(" ;=,.:/\\'()<>@?[]{}*%&+-_~^`|!#$".chars().collect::<Vec<_>>()),
        3 => proptest::char::range('a', 'z'),
        2 => any::<char>().prop_map(|c| if c.is_control() || c == '"' { '\u{e9}' } else { c }),
    ]
    .boxed()
}

pub fn filename() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        3 => Just(None),
        3 => name().prop_map(Some),
        2 => "[a-z0-9_]{1,8}\\.(txt|png|jpg|tar\\.gz|html|rs|unknownext)".prop_map(Some),
    ]
    .boxed()
}

pub const MIMES: &[&str] = &[
    "text/plain", "text/plain; charset=utf-8", "application/octet-stream", "image/png", "application/json",
    "text/html", "application/x-www-form-urlencoded", "video/mp4", "text/csv; header=present",
    "application/vnd.api+json", "multipart/mixed; boundary=inner", "image/svg+xml",
    "text/plain; charset=iso-8859-1", "Text/X-Custom; Charset=US-ASCII", "application/xml+text",
];

pub fn mime_idx() -> BoxedStrategy<Option<u8>> {
    prop_oneof![
        2 => Just(None),
        3 => (0u8..MIMES.len() as u8).prop_map(Some),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// server-side bodies

/// How the header block of a part is written. Every variation is one a conforming sender may use.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct HStyle {
    /// 0 canonical, 1 lower, 2 UPPER, 3 mIxEd
    pub case: u8,
    pub ct_first: bool,
    pub filename_first: bool,
    /// whitespace after the colon
    pub colon: u8,
    /// separator between parameters
    pub sep: u8,
    /// extra headers (indices into EXTRA_HEADERS), at most 2 kept
    pub extra: Vec<u8>,
    /// extra parameters: 0 none, 1 before, 2 between, 3 after
    pub extra_param: u8,
    pub extra_param_kind: u8,
    /// write values that are plain tokens without quotes
    pub token: bool,
    /// length of a filler header value (0 = none)
    pub filler: u16,
}

pub const EXTRA_HEADERS: &[(&str, &str)] = &[
    ("Content-Transfer-Encoding", "binary"),
    ("Content-Length", "12"),
    ("X-Custom", "name=\"nope\"; filename=\"nope\""),
    ("X-Empty", ""),
    ("Content-ID", "<a@b>"),
    ("Content-Description", "Content-Disposition: form-data; name=\"q\""),
];
pub const EXTRA_PARAMS: &[&str] = &[
    "x=y", "x=\"a;b\"", "foo=\"name=\"", "size=12", "filename*=UTF-8''other", "xname=zz", "myfilename=\"zz\"", "x=\"; name=evil\"",
];
pub const SEPS: &[&str] = &["; ", ";", " ; ", ";  ", " ;", ";\t"];
pub const COLONS: &[&str] = &[": ", ":", ":  ", ":\t"];

pub fn hstyle() -> BoxedStrategy<HStyle> {
    (
        (0u8..4, any::<bool>(), any::<bool>(), 0u8..COLONS.len() as u8, 0u8..SEPS.len() as u8),
        (proptest::collection::vec(0u8..EXTRA_HEADERS.len() as u8, 0..3), 0u8..4, 0u8..EXTRA_PARAMS.len() as u8, any::<bool>()),
        prop_oneof![20 => Just(0u16), 2 => 1u16..900, 2 => 800u16..1300, 1 => 1000u16..5000],
    )
        .prop_map(|((case, ct_first, filename_first, colon, sep), (extra, extra_param, extra_param_kind, token), filler)| HStyle {
            case, ct_first, filename_first, colon, sep, extra, extra_param, extra_param_kind, token, filler,
        })
        .boxed()
}

pub fn plain_style() -> BoxedStrategy<HStyle> {
    prop_oneof![
        12 => Just(HStyle::default()),
        1 => (1u16..4000).prop_map(|filler| HStyle { filler, ..HStyle::default() }),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub mime: Option<u8>,
    pub content: Vec<Seg>,
    pub style: HStyle,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Body {
    pub boundary: String,
    /// 0 none; 1 "\r\n"; 2 text + CRLF; 3 look-alikes + CRLF; 4.. bigger
    pub preamble: Option<Vec<Seg>>,
    pub parts: Vec<Part>,
    /// 0 nothing, 1 CRLF, 2 garbage, 3 another body, 4 long
    pub epilogue: u8,
}

pub struct Rendered {
    pub bytes: Vec<u8>,
    pub boundary: String,
    pub parts: Vec<RPart>,
    /// offset just after the closing "--"
    pub complete_at: usize,
    /// offset of the first "--boundary"
    pub first_delim: usize,
}

#[derive(Clone, Debug)]
pub struct RPart {
    pub name: String,
    pub filename: Option<String>,
    pub mime: Option<String>,
    /// offset of "--boundary" that opens this part
    pub delim_at: usize,
    pub header_at: usize,
    pub start: usize,
    pub end: usize,
}

impl Rendered {
    pub fn content(&self, i: usize) -> &[u8] {
        &self.bytes[self.parts[i].start..self.parts[i].end]
    }
    /// Positions around which a split of the delivery matters.
    pub fn marks(&self) -> Vec<usize> {
        let mut v = vec![self.first_delim];
        for p in &self.parts {
            v.push(p.delim_at);
            v.push(p.start);
            v.push(p.end);
        }
        v.push(self.complete_at);
        v
    }
}

fn case_name(s: &str, case: u8) -> String {
    match case {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        2 => s.to_ascii_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
    }
}

fn is_token(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$&+-.^_`|~".contains(&b))
}

/// The effective names of a part in a body with this boundary ("--boundary" cannot be written).
pub fn header_block(p: &Part, boundary: &str) -> (String, Vec<u8>, Option<String>) {
    let st = &p.style;
    let nm = scrub_str(&p.name, boundary);
    let fnm = p.filename.as_ref().map(|f| scrub_str(f, boundary));
    let sep = SEPS[st.sep as usize % SEPS.len()];
    let colon = COLONS[st.colon as usize % COLONS.len()];
    let val = |s: &str| if st.token && is_token(s) { s.to_string() } else { format!("\"{}\"", s) };
    let mut params: Vec<String> = vec![format!("name={}", val(&nm))];
    if let Some(f) = &fnm {
        let fp = format!("filename={}", val(f));
        if st.filename_first {
            params.insert(0, fp);
        } else {
            params.push(fp);
        }
    }
    if st.extra_param > 0 {
        let x = EXTRA_PARAMS[st.extra_param_kind as usize % EXTRA_PARAMS.len()].to_string();
        let at = match st.extra_param {
            1 => 0,
            2 => 1,
            _ => params.len(),
        };
        params.insert(at.min(params.len()), x);
    }
    let mut disp = String::from("form-data");
    for x in &params {
        disp.push_str(sep);
        disp.push_str(x);
    }
    let mut hs: Vec<(String, String)> = vec![(case_name("Content-Disposition", st.case), disp)];
    if let Some(m) = p.mime {
        let h = (case_name("Content-Type", st.case), MIMES[m as usize % MIMES.len()].to_string());
        if st.ct_first {
            hs.insert(0, h);
        } else {
            hs.push(h);
        }
    }
    let mut room = 4 - hs.len();
    if st.filler > 0 && room > 0 {
        let at = if st.ct_first { 0 } else { hs.len() };
        hs.insert(at, ("X-Filler".into(), "f".repeat(st.filler as usize)));
        room -= 1;
    }
    for (i, e) in st.extra.iter().enumerate() {
        if room == 0 {
            break;
        }
        let (n, v) = EXTRA_HEADERS[*e as usize % EXTRA_HEADERS.len()];
        let at = if i % 2 == 0 { hs.len() } else { 0 };
        hs.insert(at, (case_name(n, st.case), v.to_string()));
        room -= 1;
    }
    let mut out = Vec::new();
    for (n, v) in &hs {
        out.extend_from_slice(n.as_bytes());
        out.extend_from_slice(colon.as_bytes());
        out.extend_from_slice(v.as_bytes());
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b"\r\n");
    // a boundary made of header-like characters ("-", "f", ...) may still occur: fall back to the
    // plain layout, then to a name without dashes
    let d = format!("--{}", boundary).into_bytes();
    if find(&out, &d).is_some() && p.style != HStyle::default() {
        let q = Part { style: HStyle::default(), ..p.clone() };
        return header_block(&q, boundary);
    }
    (nm, out, fnm)
}

impl Body {
    pub fn render(&self) -> Rendered {
        let b = &self.boundary;
        let mut out: Vec<u8> = Vec::new();
        if let Some(pre) = &self.preamble {
            out.extend(render(pre, b, 0));
            out.extend_from_slice(b"\r\n");
        }
        let first_delim = out.len();
        let mut parts = Vec::new();
        for (i, p) in self.parts.iter().enumerate() {
            if i > 0 {
                out.extend_from_slice(b"\r\n");
            }
            let delim_at = out.len();
            out.extend_from_slice(format!("--{}\r\n", b).as_bytes());
            let header_at = out.len();
            let (name, block, filename) = header_block(p, b);
            out.extend(block);
            let start = out.len();
            let c = render(&p.content, b, start);
            out.extend(c);
            parts.push(RPart {
                name, filename,
                mime: p.mime.map(|m| MIMES[m as usize % MIMES.len()].parse::<mime::Mime>().unwrap().to_string()),
                delim_at, header_at, start, end: out.len(),
            });
        }
        if !self.parts.is_empty() {
            out.extend_from_slice(b"\r\n");
        }
        out.extend_from_slice(format!("--{}--", b).as_bytes());
        let complete_at = out.len();
        match self.epilogue {
            0 => {}
            1 => out.extend_from_slice(b"\r\n"),
            2 => out.extend_from_slice(b"\r\nepilogue -- text\r\n\r\n"),
            3 => out.extend_from_slice(
                format!("\r\n--{}\r\nContent-Disposition: form-data; name=\"ghost\"\r\n\r\nboo\r\n--{}--\r\n", b, b).as_bytes()),
            4 => out.extend(prand(9, 3000)),
            _ => out.extend(prand(10, 12000)),
        }
        Rendered { bytes: out, boundary: b.clone(), parts, complete_at, first_delim }
    }
}

pub fn part_with(content: BoxedStrategy<Vec<Seg>>, style: BoxedStrategy<HStyle>) -> BoxedStrategy<Part> {
    (name(), filename(), mime_idx(), content, style)
        .prop_map(|(name, filename, mime, content, style)| Part { name, filename, mime, content, style })
        .boxed()
}

pub fn preamble() -> BoxedStrategy<Option<Vec<Seg>>> {
    prop_oneof![
        5 => Just(None),
        2 => Just(Some(vec![])),
        2 => small_content().prop_map(Some),
        1 => content().prop_map(Some),
    ]
    .boxed()
}

pub fn body_with(nparts: std::ops::Range<usize>, content: BoxedStrategy<Vec<Seg>>, style: BoxedStrategy<HStyle>) -> BoxedStrategy<Body> {
    (boundary(), preamble(), proptest::collection::vec(part_with(content, style), nparts), prop_oneof![3 => Just(0u8), 3 => Just(1u8), 4 => 0u8..6])
        .prop_map(|(boundary, preamble, parts, epilogue)| Body { boundary, preamble, parts, epilogue })
        .boxed()
}

/// The same body with a boundary far beyond the 70 characters of the RFC.
pub fn long_boundary(body: BoxedStrategy<Body>) -> BoxedStrategy<Body> {
    let len = prop_oneof![
        2 => (select(vec![256usize, 512, 1024, 2048, 4096, 8192]), -12isize..6).prop_map(|(n, d)| (n as isize + d) as usize),
        1 => 71usize..3000,
    ];
    (body, len).prop_map(|(mut b, len)| {
        let unit = if b.boundary.trim().is_empty() { "x".to_string() } else { b.boundary.trim().replace(' ', "-") };
        b.boundary = unit.chars().cycle().take(len).collect();
        b
    }).boxed()
}

pub fn body() -> BoxedStrategy<Body> {
    body_with(0..6, content(), plain_style())
}

// ---------------------------------------------------------------------------------------------
// delivery

/// How a transport hands out bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Chunk {
    Full,
    Fixed(u16),
    Cycle(Vec<u16>),
    /// stop at (mark + delta) for the given marks (index modulo, delta); base chunk otherwise
    Marks(Vec<(u8, i8)>, u16),
}

pub fn chunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        2 => Just(Chunk::Full),
        2 => prop_oneof![Just(1u16), 1u16..20, 1000u16..1050, 1u16..9000].prop_map(Chunk::Fixed),
        3 => proptest::collection::vec(prop_oneof![1u16..4, 1u16..100, 900u16..1100, 1u16..5000], 1..6).prop_map(Chunk::Cycle),
        4 => (proptest::collection::vec((any::<u8>(), -6i8..7), 1..5), prop_oneof![3 => Just(0u16), 1 => 1u16..1500]).prop_map(|(m, b)| Chunk::Marks(m, b)),
        2 => (proptest::collection::vec((any::<u8>(), -80i8..81), 1..5), prop_oneof![3 => Just(0u16), 1 => 1u16..1500]).prop_map(|(m, b)| Chunk::Marks(m, b)),
    ]
    .boxed()
}

pub enum Fault {
    Interrupted,
    Kind(io::ErrorKind),
}

/// A reader that delivers `data` according to a `Chunk` plan, with optional faults: each fault is
/// reported once, when the position reaches it.
pub struct ScriptedReader {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    plan: Chunk,
    splits: Vec<usize>,
    cyc: usize,
    /// (position, kind), sorted; consumed one at a time
    pub faults: Vec<(usize, io::ErrorKind)>,
    pub fault_no: usize,
    pub reads: u64,
    pub eof_reads: u64,
    pub max_pos: Option<Arc<std::sync::atomic::AtomicUsize>>,
}

pub const EOF_READ_LIMIT: u64 = 50_000;

impl ScriptedReader {
    pub fn new(data: Arc<Vec<u8>>, plan: &Chunk, marks: &[usize]) -> Self {
        let mut splits = Vec::new();
        if let Chunk::Marks(ms, _) = plan {
            for (i, d) in ms {
                if !marks.is_empty() {
                    let m = marks[*i as usize % marks.len()] as i64 + *d as i64;
                    if m > 0 && (m as usize) < data.len() {
                        splits.push(m as usize);
                    }
                }
            }
            splits.sort();
            splits.dedup();
        }
        ScriptedReader { data, pos: 0, plan: plan.clone(), splits, cyc: 0, faults: vec![], fault_no: 0, reads: 0, eof_reads: 0, max_pos: None }
    }
    pub fn full(data: Vec<u8>) -> Self {
        Self::new(Arc::new(data), &Chunk::Full, &[])
    }
    pub fn with_faults(mut self, mut f: Vec<(usize, io::ErrorKind)>) -> Self {
        f.sort_by_key(|x| x.0);
        self.faults = f;
        self
    }
}

impl Read for ScriptedReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        let len = self.data.len();
        if self.fault_no < self.faults.len() && self.pos >= self.faults[self.fault_no].0.min(len) {
            let k = self.faults[self.fault_no].1;
            self.fault_no += 1;
            return Err(io::Error::new(k, "injected"));
        }
        let rest = len - self.pos;
        if rest == 0 {
            self.eof_reads += 1;
            if self.eof_reads > EOF_READ_LIMIT {
                panic!("no progress: the source was read {} times after its end", EOF_READ_LIMIT);
            }
            return Ok(0);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = match &self.plan {
            Chunk::Full => rest,
            Chunk::Fixed(k) => (*k).max(1) as usize,
            Chunk::Cycle(v) => {
                let k = v[self.cyc % v.len()].max(1) as usize;
                self.cyc += 1;
                k
            }
            Chunk::Marks(_, base) => {
                if *base == 0 {
                    rest
                } else {
                    *base as usize
                }
            }
        };
        n = n.min(rest).min(buf.len());
        if let Some(s) = self.splits.iter().find(|s| **s > self.pos) {
            n = n.min(*s - self.pos);
        }
        if self.fault_no < self.faults.len() {
            let f = self.faults[self.fault_no].0.min(len);
            if f > self.pos {
                n = n.min(f - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if let Some(m) = &self.max_pos {
            m.store(self.pos, std::sync::atomic::Ordering::SeqCst);
        }
        Ok(n)
    }
}
