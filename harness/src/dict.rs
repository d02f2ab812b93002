//! Workload hints: the integer and string constants that occur in the sources
//! under test. They only decide what is *tried* (a special-cased value is then
//! among the inputs); no verdict depends on the text of the sources.

use std::collections::BTreeSet;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub bytes: Vec<Vec<u8>>,
}

fn walk(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().map_or(false, |x| x == "rs") {
                out.push(p);
            }
        }
    }
}

fn scan(src: &[u8], ints: &mut BTreeSet<u64>, strs: &mut BTreeSet<String>, arrays: &mut BTreeSet<Vec<u8>>) {
    let mut i = 0;
    let n = src.len();
    let mut run: Vec<u64> = Vec::new();
    while i < n {
        let c = src[i];
        if c == b'/' && i + 1 < n && src[i + 1] == b'/' {
            while i < n && src[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'"' {
            let mut s = Vec::new();
            i += 1;
            while i < n && src[i] != b'"' {
                if src[i] == b'\\' && i + 1 < n {
                    i += 1;
                    match src[i] {
                        b'n' => s.push(b'\n'),
                        b't' => s.push(b'\t'),
                        b'r' => s.push(b'\r'),
                        b'0' => s.push(0),
                        b'x' if i + 2 < n => {
                            if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&src[i + 1..i + 3]), 16) {
                                s.push(v);
                            }
                            i += 2;
                        }
                        x => s.push(x),
                    }
                } else {
                    s.push(src[i]);
                }
                i += 1;
            }
            i += 1;
            if s.len() <= 300 {
                if let Ok(t) = String::from_utf8(s) {
                    strs.insert(t);
                }
            }
            run.clear();
            continue;
        }
        if c == b'\'' && i + 2 < n && src[i + 2] == b'\'' {
            ints.insert(src[i + 1] as u64);
            strs.insert((src[i + 1] as char).to_string());
            i += 3;
            continue;
        }
        if c.is_ascii_digit() && (i == 0 || !(src[i - 1].is_ascii_alphanumeric() || src[i - 1] == b'_')) {
            let st = i;
            while i < n && (src[i].is_ascii_alphanumeric() || src[i] == b'_') {
                i += 1;
            }
            let t: String = String::from_utf8_lossy(&src[st..i]).replace('_', "");
            let mut t = t.as_str();
            let (radix, body) = if let Some(x) = t.strip_prefix("0x") {
                (16, x)
            } else if let Some(x) = t.strip_prefix("0b") {
                (2, x)
            } else if let Some(x) = t.strip_prefix("0o") {
                (8, x)
            } else {
                (10, t)
            };
            t = body;
            let end = match t.find(|c: char| c == 'u' || c == 'i' || (radix == 10 && !c.is_ascii_digit())) {
                Some(k) => k,
                None => t.len(),
            };
            if let Ok(v) = u64::from_str_radix(&t[..end], radix) {
                ints.insert(v);
                run.push(v);
                if run.len() == 32 && run.iter().all(|x| *x < 256) {
                    arrays.insert(run.iter().map(|x| *x as u8).collect());
                }
            }
            continue;
        }
        if !(c == b',' || c.is_ascii_whitespace()) {
            run.clear();
        }
        i += 1;
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut ints = BTreeSet::new();
        let mut strs = BTreeSet::new();
        let mut arrays = BTreeSet::new();
        if !cfg!(miri) {
            let root = std::env::var("VP_REPO").unwrap_or("/repo".into());
            let mut files = Vec::new();
            walk(&std::path::Path::new(&root).join("stratumv2"), &mut files);
            files.sort();
            for f in files {
                if let Ok(b) = std::fs::read(&f) {
                    if b.len() < 1 << 20 {
                        scan(&b, &mut ints, &mut strs, &mut arrays);
                    }
                }
            }
        }
        let mut all = BTreeSet::new();
        for v in ints {
            all.insert(v);
            all.insert(v.wrapping_add(1));
            all.insert(v.wrapping_sub(1));
        }
        // every power of two and its neighbours
        for k in 0..64 {
            let v = 1u64 << k;
            all.insert(v);
            all.insert(v - 1);
            all.insert(v + 1);
        }
        all.insert(u64::MAX);
        all.insert(0);
        Dict {
            ints: all.into_iter().collect(),
            strs: strs.into_iter().collect(),
            bytes: arrays.into_iter().collect(),
        }
    })
}

impl Dict {
    /// The constants that fit below `max`.
    pub fn upto(&self, max: u64) -> &[u64] {
        let k = self.ints.partition_point(|v| *v <= max);
        &self.ints[..k]
    }
}
