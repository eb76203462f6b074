//! C27: translating files, with faults.
use crate::norm::*;
use pbt::lang::{self, render, Cfg};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, no_panic, Bad, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::{SMError, ToWolfram};
use std::fs;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Source {
    Text(String),
    Bytes(Vec<u8>),
    Missing,
    Directory,
    MissingParent,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Target {
    New,
    /// holding this many bytes already
    Old(usize),
    /// whatever the previous translation of the case left
    Same,
    Directory,
    MissingParent,
    /// a device that accepts no data
    Full,
    /// beside the source, with a name made of the source's
    Beside(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    source: Source,
    target: Target,
    name: String,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Jobs {
    jobs: Vec<Job>,
}
/// removed again when dropped
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, Bad> {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("verif-c27-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&d).map_err(|e| Bad::Harness(format!("{}: {e}", d.display())))?;
        Ok(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Bad> {
    r.map_err(|e| Bad::Harness(format!("scratch directory: {e}")))
}
/// the ways in which one file name is made of another
const ENDS: &[&str] = &[".tmp", ".bak", "~", ".new", ".part", ".wl", ".m", ".old", ".out"];
fn beside(from: &Path, k: u8) -> PathBuf {
    let name = from.file_name().unwrap().to_str().unwrap();
    let stem = name.rfind('.').filter(|i| *i > 0).map_or(name.trim_end_matches('~'), |i| &name[..i]);
    let k = k as usize;
    let new = match k / ENDS.len() {
        0 => format!("{name}{}", ENDS[k % ENDS.len()]),
        1 => format!("{stem}{}", ENDS[k % ENDS.len()]),
        2 => stem.to_string(),
        _ => format!(".{name}{}", ENDS[k % ENDS.len()]),
    };
    from.with_file_name(if new == name { format!("{name}.tmp") } else { new })
}
/// the regular files of a directory
fn listing(dir: &Path) -> Result<BTreeMap<PathBuf, Vec<u8>>, Bad> {
    let mut v = BTreeMap::new();
    for e in io(fs::read_dir(dir))? {
        let p = io(e)?.path();
        if p.is_file() {
            let b = io(fs::read(&p))?;
            v.insert(p, b);
        }
    }
    Ok(v)
}
pub struct Files;
impl Prop for Files {
    type Case = Jobs;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "one to five translations in a row inside a scratch directory; sources (up to 4.2 MB): rendered expressions over the whole language with layout, statements, strings with line breaks, grammar sentences, broken texts, bytes that are no text, a missing file, a directory; destinations: new, beside the source with a name made of its name, existing with shorter or longer content, the previous output, a directory, a missing parent, a full device. Oracle: on success the destination holds exactly the Wolfram bytes of parsing the text and the source is unchanged, as is every other file of the directory; on failure the error is an I/O error or the parser's own error, nothing is created and an existing destination keeps its bytes (except when writing itself fails). Non-trivial: a fault, or a destination that existed before"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(40_000, 400_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Jobs> {
        let s = [
            Source::Text("1 + x".into()),
            Source::Text("".into()),
            Source::Text("f(1".into()),
            Source::Text("let x = 1".into()),
            Source::Text("\"a\r\nb\"".into()),
            Source::Text("1;\r\n2\r\n".into()),
            Source::Text("\u{feff}1".into()),
            Source::Bytes(vec![0x31, 0xff]),
            Source::Bytes(vec![0x22, 0xc3, 0x22]),
            Source::Missing,
            Source::Directory,
            Source::MissingParent,
        ];
        let t = [Target::New, Target::Old(0), Target::Old(3), Target::Old(5000), Target::Directory, Target::MissingParent, Target::Full];
        let mut v = vec![];
        // texts longer than any buffer
        for n in [1_000, 4_000, 8_000, 10_000] {
            for text in [format!("[{}]", vec!["1234567"; n].join(",")), format!("f(\"{}\", 变)", "aé".repeat(n * 40)), vec!["1234567"; n / 5].join(";\n")] {
                v.push(Jobs { jobs: vec![Job { source: Source::Text(text), target: Target::Old(5000), name: "f.sm".into() }] });
            }
        }
        for text in [format!("f(\"{}\", x)", "abcdefghijkl".repeat(350_000)), format!("/// {}\n1 + {}", "c".repeat(1 << 21), "d".repeat(70_000))] {
            v.push(Jobs { jobs: vec![Job { source: Source::Text(text), target: Target::New, name: "f.sm".into() }] });
        }
        for k in 0..4 * ENDS.len() as u8 {
            for name in ["a.sm", "a.tmp", "a.wl.tmp", "a.bak", "a~", "a"] {
                v.push(Jobs { jobs: ["1 + x", "(", "f(2)"].map(|t| Job { source: Source::Text(t.into()), target: Target::Beside(k), name: name.into() }).to_vec() });
            }
        }
        for a in &s {
            for b in &t {
                v.push(Jobs { jobs: vec![Job { source: a.clone(), target: b.clone(), name: "f.sm".into() }] });
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Jobs> {
        let one = (lang::expression(Cfg::FULL).prop_filter("nesting", crate::shape::moderate), lang::layout(), lang::layout()).prop_map(|(m, free, alts)| render(&m, &free, &alts, "f", "", true).text);
        let short = (lang::name(), lang::string_body()).prop_map(|(n, s)| format!("{n}(\"{s}\")"));
        let many = proptest::collection::vec(prop_oneof![2 => one.clone().boxed(), 1 => short.clone().boxed()], 2..4).prop_map(|v| v.join(";\n"));
        let long = (one.clone(), 2usize..200).prop_map(|(t, n)| format!("[{}]", vec!["1234567".to_string(); n].join(", ")) + if t.len() % 2 == 0 { "" } else { "\n" });
        let g = sentences::grammar();
        let odd = prop_oneof![sentences::sentence(g.rules(), t.pick(9, 12)).prop_map(|x| x.1), sentences::soup(12), sentences::noise(), sentences::nested(30)].prop_filter("size", |t| sentences::tame(t));
        let broken = (one.clone(), any::<u16>()).prop_map(|(t, k)| t.chars().take(k as usize % (t.chars().count() + 1)).collect::<String>() + "(").prop_filter("size", |t| sentences::tame(t));
        let bytes = (one.clone(), any::<u16>(), proptest::sample::select(vec![0xffu8, 0xc3, 0x80, 0xed])).prop_map(|(t, k, b)| {
            let mut v = t.into_bytes();
            v.insert(k as usize % (v.len() + 1), b);
            v
        });
        let source = prop_oneof![
            5 => one.prop_map(Source::Text),
            1 => short.prop_map(Source::Text),
            2 => many.prop_map(Source::Text),
            1 => long.prop_map(Source::Text),
            2 => odd.prop_map(Source::Text),
            1 => broken.prop_map(Source::Text),
            1 => bytes.prop_map(Source::Bytes),
            1 => Just(Source::Missing),
            1 => Just(Source::Directory),
            1 => Just(Source::MissingParent),
        ];
        let target = prop_oneof![
            4 => Just(Target::New),
            4 => (0usize..4000).prop_map(Target::Old),
            2 => (0usize..20).prop_map(Target::Old),
            4 => Just(Target::Same),
            1 => Just(Target::Directory),
            1 => Just(Target::MissingParent),
            1 => Just(Target::Full),
            2 => (0..4 * ENDS.len() as u8).prop_map(Target::Beside),
        ];
        let name = proptest::sample::select(vec!["a.tmp", "a.bak", "a~", "a.sm", "a", "with space.sm", "é变.sm", "a.m", ".hidden", "a.sm.sm", "%s{}"]).prop_map(String::from);
        proptest::collection::vec((source, target, name).prop_map(|(source, target, name)| Job { source, target, name }), 1..6).prop_map(|jobs| Jobs { jobs }).boxed()
    }
    fn check(&self, c: &Jobs, o: &mut Obs) -> Check {
        let dir = Scratch::new()?;
        o.trivial = true;
        let mut previous: Option<PathBuf> = None;
        for (i, j) in c.jobs.iter().enumerate() {
            let from = match j.source {
                Source::MissingParent => dir.0.join("nowhere").join(&j.name),
                _ => dir.0.join(format!("s{i}-{}", j.name)),
            };
            let content: Option<Vec<u8>> = match &j.source {
                Source::Text(t) => Some(t.clone().into_bytes()),
                Source::Bytes(b) => Some(b.clone()),
                _ => None,
            };
            match &j.source {
                Source::Directory => io(fs::create_dir(&from))?,
                _ => {
                    if let Some(b) = &content {
                        io(fs::write(&from, b))?;
                    }
                }
            }
            let to = match (&j.target, &previous) {
                (Target::Same, Some(p)) => p.clone(),
                (Target::MissingParent, _) => dir.0.join("absent").join(&j.name),
                (Target::Full, _) => PathBuf::from("/dev/full"),
                (Target::Beside(k), _) if j.source != Source::MissingParent => beside(&from, *k),
                _ => dir.0.join(format!("t{i}-{}", j.name)),
            };
            match &j.target {
                Target::Old(n) => io(fs::write(&to, vec![b'#'; *n]))?,
                Target::Directory => io(fs::create_dir(&to))?,
                _ => {}
            }
            let writable = !matches!(j.target, Target::Directory | Target::MissingParent | Target::Full);
            let before = if writable && to.exists() { Some(io(fs::read(&to))?) } else { None };
            o.trivial &= before.is_none();
            o.label_if(matches!(j.target, Target::Beside(_)), "names made of one another");
            let around = listing(&dir.0)?;
            o.label_if(before.is_some(), "existing destination");
            let expected = match content.as_ref().map(|b| String::from_utf8(b.clone())) {
                Some(Ok(t)) => Some(parse_in(&from.display().to_string(), &t)?),
                _ => None,
            };
            let (f, t) = (from.to_str().unwrap().to_string(), to.to_str().unwrap().to_string());
            if !matches!(j.target, Target::Full) || fs::metadata("/dev/full").is_ok_and(|m| !m.is_file()) {
                // no /dev/full here means the name would be created: then this job is left out
                let got = no_panic(&format!("job {i}: translating"), || settings(&f).parse_file(&f, &t))?;
                let after = if writable && to.exists() { Some(io(fs::read(&to))?) } else { None };
                let what = format!("job {i}, {:?} to {:?}", j.source, j.target);
                if let Some(b) = &content {
                    let now = fs::read(&from).ok();
                    ensure!(now.as_ref() == Some(b), "{what}: the source file was changed");
                }
                let now = listing(&dir.0)?;
                for (p, b) in &around {
                    ensure!(*p == to || now.get(p) == Some(b), "{what}: another file, {:?}, was changed", p.file_name().unwrap());
                }
                match (&expected, writable) {
                    (None, _) => {
                        o.trivial = false;
                        o.label("unreadable source");
                        match got {
                            Err(SMError::IOError(_)) => {}
                            x => return fail(format!("{what}: returns {x:?}, expected an I/O error")),
                        }
                        ensure!(after == before, "{what}: failed, but the destination was touched");
                    }
                    (Some(Err(e)), _) => {
                        o.trivial = false;
                        o.label("source does not parse");
                        match got {
                            Err(x) if format!("{x:?}") == format!("{e:?}") => {}
                            x => return fail(format!("{what}: returns {x:?}, the parser reports {e:?}")),
                        }
                        ensure!(after == before, "{what}: failed, but the destination was touched");
                    }
                    (Some(Ok(ast)), true) => {
                        o.label("translated");
                        o.label_if(before.as_ref().is_some_and(|b| b.len() > 200), "over a long file");
                        ensure!(got.is_ok(), "{what}: refused with {got:?}");
                        let want = no_panic("exporting", || ast.to_wolfram_bytes())?;
                        let Some(b) = after else { return fail(format!("{what}: no destination file")) };
                        ensure!(b == want, "{what}: wrote {:?}, expected {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&want));
                    }
                    (Some(Ok(ast)), false) => {
                        o.trivial = false;
                        o.label("unwritable destination");
                        let nothing = no_panic("exporting", || ast.to_wolfram_bytes())?.is_empty();
                        match got {
                            Err(SMError::IOError(_)) => {}
                            Ok(()) if nothing && j.target == Target::Full => {}
                            x => return fail(format!("{what}: returns {x:?}, expected an I/O error")),
                        }
                    }
                }
                match j.target {
                    Target::Directory => ensure!(to.is_dir() && io(fs::read_dir(&to))?.next().is_none(), "{what}: the destination directory was touched"),
                    Target::MissingParent => ensure!(!dir.0.join("absent").exists(), "{what}: a directory was made up"),
                    _ => {}
                }
            }
            if writable {
                previous = Some(to);
            }
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("translated", 3000), ("names made of one another", 1000), ("existing destination", 3000), ("over a long file", 500), ("unreadable source", 1000), ("source does not parse", 1000), ("unwritable destination", 500)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["wolfram_wxf is replaced by a stand-in whose bytes are the textual form; source and destination are different files"]
    }
}
