use crate::engine::Facet;

mod client;
mod errors;
mod misc;
mod parse;
mod save;
mod save2;
mod vast;
mod web;

pub const ALL: &[&str] = &["M01", "M02", "M03", "M04", "M05", "M06", "M07", "M08", "M09", "M10", "M11", "M12", "M13", "M14", "M15", "M16", "M17", "M18", "M19", "M20", "M21", "M22", "M23", "M24", "M25", "M26", "M27"];

/// The slowest facet comes first.
fn with(first: Facet, mut rest: Vec<Facet>) -> Vec<Facet> {
    rest.insert(0, first);
    rest
}

pub fn facets(id: &str) -> Option<Vec<Facet>> {
    Some(match id {
        "M01" => client::m01(),
        "M02" => client::m02(),
        "M03" => parse::m03(),
        "M04" => parse::m04(),
        "M05" => with(vast::m05(), parse::m05()),
        "M06" => parse::m06(),
        "M07" => parse::m07(),
        "M08" => parse::m08(),
        "M09" => errors::m09(),
        "M10" => with(vast::m10(), save::m10()),
        "M11" => with(vast::m11(), save::m11()),
        "M12" => save::m12(),
        "M13" => save::m13(),
        "M14" => save2::m14(),
        "M15" => save2::m15(),
        "M16" => with(vast::m16(), client::m16()),
        "M17" => client::m17(),
        "M18" => client::m18(),
        "M19" => web::m19(),
        "M20" => web::m20(),
        "M21" => web::m21(),
        "M24" => misc::m24(),
        "M26" => misc::m26(),
        "M27" => misc::m27(),
        "M25" => client::m25(),
        "M22" => save2::m22(),
        "M23" => save2::m23(),
        _ => return None,
    })
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    match id {
        "M01" | "M02" | "M03" | "M04" | "M05" | "M07" | "M08" => vec![
            "contents do not contain the delimiter; names are printable text without double quotes and control characters",
            "header blocks of at most about 6000 bytes and 4 headers",
        ],
        "M06" => vec!["with logging enabled only bodies of at most 1200 bytes are tried"],
        "M09" => vec!["after a hard error inside a header block only the report of the error is checked"],
        "M13" => vec!["forced text over the memory threshold may end either as an exact file or as a UTF-8 error with a prefix"],
        "M16" => vec!["files are regular and unchanged during the request"],
        "M17" => vec!["the order of the fields of a lazy request is unspecified"],
        "M18" => vec!["randomness is judged statistically on samples of boundaries"],
        "M19" => vec![
            "one Content-Type header; quoted values without backslashes; unquoted boundaries are tokens",
            "tiny_http with Content-Length framing only",
        ],
        "M20" => vec!["the parent of the temporary directory may remain; any error is accepted for a truncated request"],
        "M21" => vec!["a Content-Length set by the caller is only tried for requests without streams"],
        "M22" => vec!["a full disk is simulated by a file size limit of the process"],
        "M27" => vec!["bounds: 64 KiB read-ahead, 192 KiB memory, default settings"],
        _ => vec![],
    }
}

/// Sub-commands some facets run in a child process.
pub fn helper(args: &[&str]) -> Option<i32> {
    match args {
        ["boundaries", mode, n] => {
            for b in client::boundaries(mode.parse().unwrap(), n.parse().unwrap()) {
                println!("{}", b);
            }
            Some(0)
        }
        ["save-names", dir, per, api] => Some(save2::save_names_child(dir, per, api)),
        ["tee-child", case, out] => Some(misc::tee_child(case, out)),
        _ => None,
    }
}
