//! C34: what a refusal says.
use crate::norm::*;
use pbt::lang::{self, render, Cfg};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, harness_ensure, no_panic, Bad, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::{Runner, SMError};
use sm_parser::{Parser, Rule, SMParser};
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// what goes wrong with the files, if anything
const FAULTS: [&str; 10] = ["no files", "good files", "missing source", "missing folder", "source is a folder", "source is no text", "target is a folder", "target in no folder", "target is a file's child", "full device"];
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wrong {
    text: String,
    fault: u8,
    name: String,
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Bad> {
    r.map_err(|e| Bad::Harness(format!("scratch directory: {e}")))
}
/// line and column of a byte, both from 1; the column counts characters
fn place(text: &str, at: usize) -> (usize, usize) {
    let before = &text[..at];
    let line = before.matches('\n').count() + 1;
    let column = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
    (line, column)
}
pub struct Refusals;
impl Prop for Refusals {
    type Case = Wrong;
    fn id(&self) -> &'static str {
        "C34"
    }
    fn rule(&self) -> &'static str {
        "written-out expressions and programs of several lines, cut off, edited or with a stray piece, sentences of the grammar, soup, nested brackets, arbitrary text; files with nine kinds of faults. Oracle: the low-level parser's own report, an independent count of lines and columns, and the operating system's message for the same file access. Non-trivial: the grammar refuses the text, or a file fault"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(200_000, 2_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Wrong> {
        let texts = ["", "1", "f(1", ")", "1 +", "1;\n2;\n3 +* 4", "a\n\n\n  )", "é变(", "\"open", "[1, 2", "x[1:", "%%% %%%\n)", "a\r\nb )", "\u{feff})", "1\t)", "let x = 1", "def f() {", "{}", "\0", "😀 )"];
        texts.iter().flat_map(|t| (0..FAULTS.len()).map(|f| Wrong { text: t.to_string(), fault: f as u8, name: "a.sm".into() })).collect()
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Wrong> {
        let one = || (lang::expression(Cfg::FULL), lang::layout(), lang::layout()).prop_map(|(m, l, a)| render(&m, &l, &a, "f", "", false).text);
        let many = || (proptest::collection::vec(one(), 1..5), proptest::sample::select(vec![";\n", "\n", "; ", ";\n\n", ";\r\n", ";\n\t"])).prop_map(|(v, s)| v.join(s));
        let stray = proptest::sample::select(vec!["(", ")", "]", "}", "+", ",", "=", "\"", "\\", "é", "~", ":", "@", "1.2.3", "(,)", "f(", "[:", "\u{0}", "😀", "%%%", "??", "+*"]);
        let g = sentences::grammar();
        let text = prop_oneof![
            3 => (many(), stray.clone(), any::<u16>()).prop_map(|(t, s, k)| {
                let at = k as usize % (t.chars().count() + 1);
                t.chars().take(at).chain(s.chars()).chain(t.chars().skip(at)).collect::<String>()
            }),
            2 => (many(), any::<u16>()).prop_map(|(t, k)| t.chars().take(k as usize % (t.chars().count() + 1)).collect::<String>()),
            2 => (many(), stray, many()).prop_map(|(a, s, b)| format!("{a}{s}{b}")),
            1 => sentences::edited(many().boxed()),
            1 => many(),
            1 => sentences::sentence(g.rules(), t.pick(10, 14)).prop_map(|x| x.1),
            1 => sentences::soup(14),
            1 => sentences::noise(),
            1 => sentences::nested(30),
        ]
        .prop_filter("size", |t| sentences::tame(t));
        let fault = prop_oneof![5 => Just(0u8), 1 => Just(1), 2 => 2..FAULTS.len() as u8];
        let name = prop_oneof![
            6 => proptest::sample::select(vec!["a.sm", "a", "with space.sm", "é变.sm", ".hidden", "%s{}", "ParseError", "a:b"]).prop_map(String::from),
            1 => "[a-zA-Z0-9é变 ._-]{1,40}".prop_filter("a name", |s| s.chars().any(|c| c != '.')),
            1 => (1usize..240).prop_map(|n| "n".repeat(n)),
            // longer than the system allows
            1 => (280usize..400).prop_map(|n| "n".repeat(n)),
        ];
        (text, fault, name).prop_map(|(text, fault, name)| Wrong { text, fault, name }).boxed()
    }
    fn check(&self, c: &Wrong, o: &mut Obs) -> Check {
        let t = &c.text;
        let low = no_panic(&format!("the low-level parser on {t:?}"), || SMParser::parse(Rule::program, t).map(|_| ()))?;
        let got = parse(t)?;
        let report = low.err().map(|e| (e.to_string(), format!("{:?}", e.location)));
        o.trivial = report.is_none() && c.fault < 2;
        match (&report, &got) {
            (None, Err(SMError::ParseError(m))) => return fail(format!("the grammar accepts {t:?}, but it is refused with the parse error {m:?}")),
            (None, Err(SMError::IOError(m))) => return fail(format!("parsing {t:?} gives the I/O error {m:?}")),
            (None, _) => o.label("accepted by the grammar"),
            (Some((m, at)), Err(SMError::ParseError(x))) => {
                o.label("refused by the grammar");
                ensure!(x == m, "{t:?} is refused with {x:?}, the parser reports {m:?}");
                // the place it names, counted independently
                if let (false, Some(at)) = (t.contains('\r'), at.strip_prefix("Pos(").and_then(|s| s.strip_suffix(')')).and_then(|s| s.parse::<usize>().ok())) {
                    harness_ensure!(t.is_char_boundary(at), "refused inside a character");
                    let (line, column) = place(t, at);
                    o.label_if(line > 1, "after the first line");
                    o.label_if(column > 1, "after the first column");
                    o.label_if(!t.is_ascii(), "not only ASCII");
                    let want = format!("--> {line}:{column}");
                    ensure!(x.lines().next().unwrap_or("").trim() == want, "{t:?} is refused with {x:?}, at {want}");
                }
            }
            (Some((m, _)), r) => return fail(format!("the grammar refuses {t:?} with {m:?}, but parsing gives {r:?}")),
        }
        if let Some((m, _)) = &report {
            let r = no_panic(&format!("evaluating {t:?}"), || Runner::default().evaluate(t))?;
            match &r {
                Err(SMError::ParseError(x)) if x == m => {}
                r => return fail(format!("a session answers {r:?} to {t:?}, the parser reports {m:?}")),
            }
            let shown = no_panic(&format!("playground result of {t:?}"), || sm_playground::result(t))?;
            ensure!(shown.contains(m) || shown.contains(&format!("{m:?}")), "the playground answers {shown:?} to {t:?}, the parser reports {m:?}");
        }
        if c.fault == 0 {
            return Ok(());
        }
        self.files(c, report.as_ref().map(|x| x.0.as_str()), got.is_ok(), o)
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        let mut v = vec![("refused by the grammar", 20_000), ("after the first line", 5000), ("after the first column", 10_000), ("not only ASCII", 3000), ("accepted by the grammar", 3000)];
        v.extend(FAULTS[1..].iter().map(|f| (*f, 500)));
        v.push(("name too long", 100));
        v
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the report of the shipped low-level parser is right about the place (C14 compares it with the grammar file)", "the operating system gives the same message for the same file access twice"]
    }
}
impl Refusals {
    fn files(&self, c: &Wrong, report: Option<&str>, fine: bool, o: &mut Obs) -> Check {
        static N: AtomicU64 = AtomicU64::new(0);
        let dir = Scratch(std::env::temp_dir().join(format!("verif-c34-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))));
        io(fs::create_dir_all(&dir.0))?;
        let what = FAULTS[c.fault as usize];
        o.label(what);
        o.label_if(c.name.len() > 255, "name too long");
        let long = c.name.len() > 240;
        let short = if long { "a.sm" } else { c.name.as_str() };
        // the long name goes where the fault is
        let mut from = dir.0.join(format!("s-{short}"));
        let mut to = dir.0.join(format!("t-{short}"));
        match c.fault {
            2 => from = dir.0.join(format!("s-{}", c.name)),
            3 => from = dir.0.join("nowhere").join(&c.name),
            4 => io(fs::create_dir(&from))?,
            5 => {
                let mut b = c.text.clone().into_bytes();
                b.insert(c.name.len() % (b.len() + 1), 0xff);
                io(fs::write(&from, b))?
            }
            6 => io(fs::create_dir(&to))?,
            7 => to = dir.0.join("nowhere").join(&c.name),
            8 => {
                let f = dir.0.join("file");
                io(fs::write(&f, "1"))?;
                to = f.join(&c.name)
            }
            9 => to = PathBuf::from("/dev/full"),
            _ => {
                if c.name.len() > 240 {
                    to = dir.0.join(format!("t-{}", c.name))
                }
            }
        }
        if (2..=5).contains(&c.fault) {
            // and sometimes nowhere to write
            if c.text.len() % 2 == 1 {
                to = dir.0.join("nowhere").join("t");
            }
        } else {
            io(fs::write(&from, &c.text))?;
        }
        if c.fault == 9 && !fs::metadata(&to).is_ok_and(|m| !m.is_file()) {
            return Ok(());
        }
        let (f, t) = (from.to_str().unwrap().to_string(), to.to_str().unwrap().to_string());
        let reading = fs::read_to_string(&from).err().map(|e| e.to_string());
        let got = no_panic("translating", || settings(&f).parse_file(&f, &t))?;
        if let Some(m) = reading {
            return match &got {
                Err(SMError::IOError(x)) if *x == m => Ok(()),
                r => fail(format!("{what}: translating {f:?} gives {r:?}, reading it fails with {m:?}")),
            };
        }
        if let Some(m) = report {
            return match &got {
                Err(SMError::ParseError(x)) if x == m => Ok(()),
                r => fail(format!("{what}: translating {:?} gives {r:?}, the parser reports {m:?}", c.text)),
            };
        }
        if !fine {
            // refused for another reason: neither kind
            return match &got {
                Ok(()) | Err(SMError::IOError(_)) | Err(SMError::ParseError(_)) => fail(format!("{what}: {:?} has no expression form, but translating gives {got:?}", c.text)),
                Err(_) => Ok(()),
            };
        }
        let writing = match c.fault {
            9 => fs::File::create(&to).and_then(|mut f| std::io::Write::write_all(&mut f, b"x")).err(),
            _ => fs::File::create(&to).err(),
        };
        match (writing.map(|e| e.to_string()), &got) {
            (None, Ok(())) => Ok(()),
            (Some(m), Err(SMError::IOError(x))) if *x == m => Ok(()),
            // nothing to write
            (Some(_), Ok(())) if c.fault == 9 && matches!(parse(&c.text)?, Ok(a) if sm_ast::ToWolfram::to_wolfram_bytes(&a).is_empty()) => Ok(()),
            (m, r) => fail(format!("{what}: translating {:?} to {t:?} gives {r:?}, writing there {}", c.text, m.map_or("succeeds".into(), |m| format!("fails with {m:?}")))),
        }
    }
}
