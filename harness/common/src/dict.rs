//! Constants read from the sources under test, as food for the generators (as a fuzzer's dictionary).
//! They bias which inputs are tried and never what counts as right.
use num::{BigInt, One, Signed, ToPrimitive};
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::path::Path;
use std::str::FromStr;
use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<BigInt>,
    pub words: Vec<String>,
}

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut all: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    all.sort();
    for p in all {
        if p.is_dir() {
            if p.file_name().is_some_and(|n| n != "target" && n != "tests" && n != "benches") {
                files(&p, out);
            }
        } else if p.extension().is_some_and(|x| x == "rs" || x == "pest") && p.file_name().is_some_and(|n| n != "sm_parser.rs") {
            out.push(p);
        }
    }
}

fn scan(text: &str, ints: &mut BTreeSet<BigInt>, words: &mut BTreeSet<String>) {
    for line in text.lines() {
        let s: Vec<char> = line.trim().chars().collect();
        if s.starts_with(&['/', '/']) || s.starts_with(&['#', '[']) {
            continue;
        }
        let mut i = 0;
        while i < s.len() {
            let c = s[i];
            if c == '/' && s.get(i + 1) == Some(&'/') {
                break;
            }
            if c == '"' {
                let mut w = String::new();
                i += 1;
                while i < s.len() && s[i] != '"' {
                    if s[i] == '\\' && i + 1 < s.len() {
                        i += 1;
                        w.push(match s[i] {
                            'n' => '\n',
                            't' => '\t',
                            'r' => '\r',
                            x => x,
                        });
                    } else {
                        w.push(s[i]);
                    }
                    i += 1;
                }
                if !w.is_empty() && w.len() <= 40 {
                    words.insert(w);
                }
            } else if c == '\'' && s.get(i + 2) == Some(&'\'') {
                words.insert(s[i + 1].to_string());
                i += 2;
            } else if c.is_ascii_digit() && (i == 0 || !(s[i - 1].is_alphanumeric() || s[i - 1] == '_')) {
                let hex = c == '0' && matches!(s.get(i + 1), Some('x' | 'X'));
                let mut t = String::new();
                if hex {
                    i += 2;
                }
                while i < s.len() && (s[i] == '_' || s[i].is_digit(if hex { 16 } else { 10 })) {
                    if s[i] != '_' {
                        t.push(s[i]);
                    }
                    i += 1;
                }
                let v = if hex { BigInt::parse_bytes(t.as_bytes(), 16) } else { BigInt::from_str(&t).ok() };
                ints.extend(v);
                continue;
            }
            i += 1;
        }
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut fs = vec![];
        files(Path::new("/repo/projects"), &mut fs);
        let (mut ints, mut words) = (BTreeSet::new(), BTreeSet::new());
        for f in fs {
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(&t, &mut ints, &mut words);
            }
        }
        ints.insert(BigInt::one());
        words.insert("a".into());
        Dict { ints: ints.into_iter().collect(), words: words.into_iter().collect() }
    })
}

// integers close to, or simply related to, a constant of the sources
kept!(number, make_number, BigInt);
fn make_number() -> BoxedStrategy<BigInt> {
    (proptest::sample::select(dict().ints.clone()), 0u8..16, -2i64..=2, 0i64..2000, any::<bool>())
        .prop_map(|(v, how, d, k, neg)| {
            let small = v.to_usize().filter(|v| *v <= 400);
            let r = match (how, small) {
                (0..=5, _) => &v + d,
                (6..=8, _) => &v * k + d,
                (9, _) => &v * &v + d,
                (10, Some(e)) => (BigInt::one() << e) + d,
                (11, Some(e)) => num::pow(BigInt::from(10), e % 80) + d,
                (12, _) => &v * &v * k + d,
                (13, _) => &v + k,
                _ => v + d,
            };
            if neg { -r } else { r }
        })
        .boxed()
}
/// lengths and counts up to `most`: constants of the sources, their neighbours and simple multiples
pub fn size(most: usize) -> BoxedStrategy<usize> {
    let near: Vec<usize> = dict().ints.iter().filter(|v| !v.is_negative()).filter_map(|v| v.to_usize()).filter(|v| *v <= most).collect();
    (proptest::sample::select(if near.is_empty() { vec![1] } else { near }), 0u8..6, -1i64..=2)
        .prop_map(move |(v, how, d)| {
            let v = match how {
                0 => v * 2,
                1 => v * v,
                _ => v,
            };
            ((v as i64 + d).max(0) as usize).min(most)
        })
        .boxed()
}
// a string constant of the sources
kept!(word, make_word, String);
fn make_word() -> BoxedStrategy<String> {
    proptest::sample::select(dict().words.clone()).boxed()
}

#[cfg(test)]
mod tests {
    #[test]
    fn scans() {
        let (mut i, mut w) = Default::default();
        super::scan("let x = 1_000 + 0xFF; // 7\n\"a\\n\" 'é' foo9 \"q\"\n#[cfg(a = \"b\")]\n/// 12\n3..44", &mut i, &mut w);
        assert_eq!(i.iter().map(|x| x.to_string()).collect::<Vec<_>>(), ["3", "44", "255", "1000"]);
        assert_eq!(w.into_iter().collect::<Vec<_>>(), ["a\n", "q", "é"]);
    }
}
