//! C15-C19, C30: the parsed expression against the model it was written from.
use crate::norm::*;
use pbt::lang::{self, compact, render, Cfg, M, N};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, harness_ensure, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::AST;

/// the parser is recursive
pub fn moderate(m: &M) -> bool {
    lang::slice_depth(m) <= 60
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    m: M,
}

// ------------------------------------------------------------------------------------------------ C15
pub struct Precedence;
const C15: Cfg = Cfg { infix: lang::ARITH_WIDE, lists: false, juxt: false, strings: false, slots: false, options: false, ..Cfg::FULL };

/// every tree with exactly n operators, leaves to be named afterwards
fn trees(n: usize) -> Vec<M> {
    if n == 0 {
        return vec![M::Sym("?".into())];
    }
    let mut v = vec![];
    for x in trees(n - 1) {
        for op in ["-", "!"] {
            v.push(M::Pre(op.into(), Box::new(x.clone())));
        }
        for op in ["!", "!!"] {
            v.push(M::Suf(op.into(), Box::new(x.clone())));
        }
        v.push(M::Index(Box::new(x.clone()), vec![lang::Ix::One(M::Sym("?".into()))]));
        v.push(M::Dot(Box::new(x.clone()), Box::new(M::Sym("?".into()))));
    }
    for k in 0..n {
        for l in trees(k) {
            for r in trees(n - 1 - k) {
                for op in lang::ARITH {
                    v.push(M::Inf(op.to_string(), Box::new(l.clone()), Box::new(r.clone())));
                }
            }
        }
    }
    v
}
fn name_leaves(m: &mut M, next: &mut u32) {
    match m {
        M::Sym(s) => {
            *s = ["a", "b", "c", "d", "e", "g", "h"][*next as usize % 7].into();
            *next += 1;
        }
        M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) => name_leaves(x, next),
        M::Inf(_, l, r) | M::Dot(l, r) => {
            name_leaves(l, next);
            name_leaves(r, next);
        }
        M::Index(x, ix) => {
            name_leaves(x, next);
            for i in ix {
                if let lang::Ix::One(m) = i {
                    name_leaves(m, next)
                }
            }
        }
        _ => {}
    }
}
/// the names after dots
fn name_dots(m: &mut M) {
    match m {
        M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) | M::Index(x, _) => name_dots(x),
        M::Inf(_, l, r) => {
            name_dots(l);
            name_dots(r);
        }
        M::Dot(l, r) => {
            name_dots(l);
            name_leaves(r, &mut 3);
        }
        _ => {}
    }
}
/// brackets around every operator expression
fn all_brackets(m: &M, top: bool) -> M {
    let b = |x: &M| Box::new(all_brackets(x, false));
    let n = match m {
        M::Pre(o, x) => M::Pre(o.clone(), b(x)),
        M::Suf(o, x) => M::Suf(o.clone(), b(x)),
        M::Inf(o, l, r) => M::Inf(o.clone(), b(l), b(r)),
        M::Dot(l, r) => M::Dot(b(l), r.clone()),
        M::Index(x, ix) => M::Index(b(x), ix.clone()),
        x => return x.clone(),
    };
    if top { n } else { M::Paren(Box::new(n)) }
}
impl Prop for Precedence {
    type Case = Tree;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "every tree of one or two operators over 18 kinds of leaves; every tree of up to 4 operators over names out of + - * / ^ . prefix - ! suffix ! !! and [i], written with the fewest brackets and with all brackets; random trees with up to 40 nodes over those, ×, ÷, all prefixes, method calls and redundant brackets; oracle: the tree the text was written from. Non-trivial: at least two operators"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 4_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Tree> {
        let mut v = vec![];
        // small trees with every kind of leaf
        let leaves = lang::plain_leaves(Cfg { strings: true, lists: false, slots: false, ..C15 });
        for n in 1..=2 {
            for m in trees(n) {
                let k = m.count(|x| matches!(x, M::Sym(_))) - m.count(|x| matches!(x, M::Dot(..)));
                let total = leaves.len().pow(k as u32);
                // all of them up to two leaves, else every combination of 7 classes with changing members
                let step = if total > 1000 { 7 } else { 1 };
                for i in (0..total).step_by(step) {
                    let mut m = m.clone();
                    let pick: Vec<u8> = (0..k as u32).map(|e| (i / leaves.len().pow(e) % leaves.len()) as u8).collect();
                    lang::relabel(&mut m, &leaves, &pick, &mut 0);
                    name_dots(&mut m);
                    v.push(Tree { m });
                }
            }
        }
        for n in 1..=t.pick(4, 4) {
            for mut m in trees(n) {
                name_leaves(&mut m, &mut 0);
                if n < 4 {
                    v.push(Tree { m: all_brackets(&m, true) });
                }
                v.push(Tree { m });
            }
        }
        v.extend(lang::huge(C15).into_iter().map(|m| Tree { m }));
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Tree> {
        let free = lang::expression(C15);
        let ops = lang::expression(Cfg { calls: false, dot: false, index: false, depth: 7, size: 60, ..C15 });
        let long = lang::bushy(lang::name().prop_map(M::Sym).boxed(), lang::ARITH_WIDE, lang::PREFIX, lang::SUFFIX, 14);
        prop_oneof![free, ops, long].prop_filter("nesting", moderate).prop_map(|m| Tree { m }).boxed()
    }
    fn check(&self, c: &Tree, o: &mut Obs) -> Check {
        let r = compact(&c.m);
        let n = c.m.operators();
        o.trivial_if(n < 2);
        o.label_if(c.m.any(|m| matches!(m, M::Paren(_))), "redundant brackets");
        o.label_if(n >= 6, "six or more operators");
        for (i, op) in lang::ARITH_WIDE.iter().enumerate() {
            o.label_if(c.m.any(|m| matches!(m, M::Inf(p, ..) if p == op)), ["infix +", "infix -", "infix *", "infix /", "infix ^", "infix ×", "infix ÷"][i]);
        }
        o.label_if(c.m.any(|m| matches!(m, M::Dot(..))), "dot");
        o.label_if(c.m.any(|m| matches!(m, M::Index(..))), "index");
        let got = shape(&accepted(&r.text)?);
        let want = named(r.expect).strip();
        ensure!(got == want, "{:?} is grouped as {}, expected {}", r.text, show(&got), show(&want));
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![
            ("redundant brackets", 5000),
            ("six or more operators", 3000),
            ("infix +", 5000),
            ("infix -", 5000),
            ("infix *", 5000),
            ("infix /", 5000),
            ("infix ^", 5000),
            ("infix ×", 2000),
            ("infix ÷", 2000),
            ("dot", 5000),
            ("index", 5000),
        ]
    }
}

// ------------------------------------------------------------------------------------------------ C16
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Literal {
    m: M,
    place: u8,
}
pub struct Literals;
impl Prop for Literals {
    type Case = Literal;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "integers of 1 to 60 (some to 100000) digits, decimals of up to 60+30 digits with zeros anywhere, radix literals in both letter cases with single underscores after the prefix and between digits, ordinary and block strings with escapes, quotes, line breaks and any Unicode, true, false, null, slots and references; alone, in a list, as an argument and as an operand; oracle: the value read off the digits or characters. Non-trivial: more than one character"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(800_000, 6_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Literal> {
        let mut v: Vec<M> = (0..2000u32).map(|n| M::Int(n.to_string())).collect();
        for n in 0..300u32 {
            v.push(M::Byte(format!("0x{n:x}")));
            v.push(M::Byte(format!("0X{n:X}")));
            v.push(M::Byte(format!("0b{n:b}")));
            v.push(M::Byte(format!("0o{n:o}")));
            v.push(M::Dec(format!("{n}.{n}")));
            v.push(M::Dec(format!("{n}.{n:05}")));
            v.push(M::Dec(format!("{}.{}0", n % 10, n)));
        }
        v.extend([M::Bool(true), M::Bool(false), M::Null]);
        for k in 1..6 {
            v.push(M::Repl("¶".repeat(k)));
            v.push(M::Repl("⁋".repeat(k)));
        }
        for s in ["#", "##", "#0", "#1", "##1", "#a", "#10", "##12", "#true", "#null", "#x1"] {
            v.push(M::Slot(s.into()));
        }
        // long ones
        for n in lang::sizes(5000).into_iter().chain([20_000]) {
            let d = |k: usize| (0..k).map(|i| char::from(b'0' + ((i * i + 3 * i + 1) % 10) as u8)).collect::<String>();
            v.push(M::Int(format!("1{}", d(n - 1))));
            v.push(M::Int(format!("1{}", "0".repeat(n - 1))));
            v.push(M::Dec(format!("1{}.{}", d(n / 2), d(n - n / 2))));
            v.push(M::Dec(format!("0.{}1", "0".repeat(n))));
            v.push(M::Byte(format!("0x1{}", d(n - 1))));
            v.push(M::Byte(format!("0b1{}", "01".repeat(n / 2))));
            v.push(M::Byte(format!("0o1{}", "_7".repeat(n / 2))));
            v.push(M::Slot(format!("#1{}", d(n.min(300)))));
            v.push(M::Slot(format!("#{}", "ab".repeat(n / 2))));
            v.push(M::Repl("¶".repeat(n.min(1025))));
        }
        for n in [65_534, 65_537, 100_003] {
            v.push(M::Int(format!("3{}7", "1230000000".repeat(n / 10))));
            v.push(M::Dec(format!("3{}.7{}1", "12300".repeat(n / 10), "45600".repeat(n / 10))));
            v.push(M::Byte(format!("0xf{}", "1230000000abcdef_".repeat(n / 17) + "0")));
            v.push(M::Slot(format!("#{}", "ab_".repeat(n / 3))));
        }
        for n in lang::sizes(5000).into_iter().chain([65_535, 65_536, 65_537, 70_000]) {
            for u in ["x", "é", "变b", "😀", "\n", " "] {
                v.push(M::Str(u.repeat(n)));
                v.push(M::Block(n % 3, format!("a{}b", u.repeat(n))));
            }
        }
        v.into_iter().flat_map(|m| (0..4).map(move |place| Literal { m: m.clone(), place })).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Literal> {
        let long = (1u8..10, proptest::collection::vec(0u8..10, 100..3000)).prop_map(|(d, v)| M::Int(std::iter::once(d).chain(v).map(|d| d.to_string()).collect()));
        let m = prop_oneof![
            20 => lang::integer().prop_map(M::Int),
            20 => lang::decimal().prop_map(M::Dec),
            20 => lang::radix().prop_map(M::Byte),
            25 => lang::string_body().prop_map(M::Str),
            15 => (0usize..4, lang::block_body()).prop_map(|(k, s)| M::Block(k, s)),
            10 => lang::slot(),
            1 => long,
            1 => lang::long_text().prop_map(M::Str),
            1 => (0usize..3, lang::long_text()).prop_map(|(k, s)| M::Block(k, s)),
        ];
        (m, 0u8..4).prop_map(|(m, place)| Literal { m, place }).boxed()
    }
    fn check(&self, c: &Literal, o: &mut Obs) -> Check {
        let r = compact(&c.m);
        let want = r.expect.strip();
        let t = &r.text;
        o.trivial_if(t.chars().count() < 2);
        o.label(match c.m {
            M::Int(_) => "integer",
            M::Dec(_) => "decimal",
            M::Byte(_) => "radix",
            M::Str(_) => "string",
            M::Block(..) => "block string",
            M::Slot(_) => "slot",
            M::Repl(_) => "reference",
            _ => "word",
        });
        o.label_if(matches!(&c.m, M::Int(s) if s.len() > 100), "over 100 digits");
        o.label_if(matches!(&c.m, M::Str(s) | M::Block(_, s) if s.len() > 500), "over 500 bytes");
        o.label_if(matches!(&c.m, M::Byte(s) if s.contains('_')), "underscore");
        o.label_if(matches!(&c.m, M::Dec(s) if s.contains(".0")), "zero after the point");
        let (text, want) = match c.place {
            0 => (t.clone(), want),
            1 => (format!("[x, {t}]"), N::call("std::containers::List", vec![N::Sym("x".into()), want])),
            2 => (format!("f({t}, 1)"), N::call("f", vec![want, N::Int("1".into())])),
            _ => (format!("{t} + y"), N::call("std::infix::add", vec![want, N::Sym("y".into())])),
        };
        let got = shape(&accepted(&text)?);
        let bad = diff(&got, &want);
        ensure!(got == want, "{text:?} reads as: {bad}");
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![
            ("integer", 5000),
            ("decimal", 5000),
            ("radix", 5000),
            ("string", 5000),
            ("block string", 3000),
            ("slot", 1000),
            ("reference", 1000),
            ("over 100 digits", 300),
            ("over 500 bytes", 300),
            ("underscore", 2000),
            ("zero after the point", 1000),
        ]
    }
}

// ------------------------------------------------------------------------------------------------ C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Written {
    m: M,
    alts: Vec<u8>,
}
pub struct Calls;
const C17: Cfg = Cfg { infix: lang::ARITH, prefix: &["-"], suffix: &["!"], ..Cfg::FULL };
impl Prop for Calls {
    type Case = Written;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "random expressions of calls (0-3 arguments and options per group, 1-3 groups), method calls, element access, index and slice brackets with any parts left out, lists and juxtapositions, nested in one another and in operators, with ASCII or full-width separators and optional trailing commas; oracle: the tree the text was written from. Non-trivial: at least two such constructs"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(450_000, 4_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Written> {
        // every slice form over short operands
        let mut v = vec![];
        let p = |k: usize| [None, Some(M::Int("2".into())), Some(M::Pre("-".into(), Box::new(M::Int("1".into())))), Some(M::Sym("b".into()))][k].clone();
        for a in 0..4 {
            for b in 0..4 {
                for c in 0..4 {
                    for two in [false, true] {
                        let r = lang::Ix::Range(p(a), p(b), p(c), two);
                        let s = M::Sym("a".into());
                        v.push(M::Index(Box::new(s.clone()), vec![r.clone()]));
                        v.push(M::Index(Box::new(s.clone()), vec![lang::Ix::One(M::Int("7".into())), r.clone()]));
                        v.push(M::Index(Box::new(s), vec![r, lang::Ix::One(M::Sym("i".into()))]));
                    }
                }
            }
        }
        v.extend(lang::huge(C17));
        v.into_iter().map(|m| Written { m, alts: vec![1; 16] }).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Written> {
        (lang::expression(C17).prop_filter("nesting", moderate), lang::layout()).prop_map(|(m, alts)| Written { m, alts }).boxed()
    }
    fn check(&self, c: &Written, o: &mut Obs) -> Check {
        let r = render(&c.m, &[], &c.alts, "f", "", false);
        let n = c.m.count(|m| matches!(m, M::Call(..) | M::Dot(..) | M::Index(..) | M::Juxt(..) | M::List(..)));
        o.trivial_if(n < 2);
        o.label_if(c.m.any(|m| matches!(m, M::Call(_, g) if g.len() > 1)), "chained call");
        o.label_if(c.m.any(|m| matches!(m, M::Call(_, g) if g.iter().flatten().any(|a| a.key.is_some()))), "named option");
        o.label_if(c.m.any(|m| matches!(m, M::Dot(_, r) if matches!(**r, M::Sym(_)))), "bare method");
        o.label_if(c.m.any(|m| matches!(m, M::Dot(_, r) if matches!(**r, M::Call(..)))), "method call");
        o.label_if(c.m.any(|m| matches!(m, M::Dot(_, r) if matches!(**r, M::Int(_)))), "element");
        o.label_if(c.m.any(|m| matches!(m, M::Index(_, v) if v.iter().any(|i| matches!(i, lang::Ix::Range(..))))), "slice");
        o.label_if(c.m.any(|m| matches!(m, M::Juxt(..))), "juxtaposition");
        o.label_if(r.text.contains('，') || r.text.contains('：'), "full-width separators");
        let got = shape(&accepted(&r.text)?);
        let want = named(r.expect).strip();
        let bad = diff(&got, &want);
        ensure!(got == want, "{:?}: {bad}", r.text);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![
            ("chained call", 2000),
            ("named option", 2000),
            ("bare method", 2000),
            ("method call", 2000),
            ("element", 2000),
            ("slice", 2000),
            ("juxtaposition", 2000),
            ("full-width separators", 2000),
        ]
    }
}

// ------------------------------------------------------------------------------------------------ C18
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Laid {
    m: M,
    layout: Vec<u8>,
    alts: Vec<u8>,
    before: Vec<u8>,
    after: Vec<u8>,
}
const OUTER: [&str; 14] = ["", " ", "\n", "\t\r\n", ";", ";;", " ; ", "；", "///c\n", "//? (\n", "%%% 1+ %%%", "\u{3000}", "//! \"\n", ";;;\n"];
fn outer(b: &[u8]) -> String {
    let mut b = b;
    let mut s = String::new();
    while let Some((x, rest)) = b.split_first() {
        b = rest;
        if *x >= 200 { s.push_str(&lang::comment(&mut b)) } else { s.push_str(OUTER[*x as usize % OUTER.len()]) }
    }
    s
}
pub struct Layout;
impl Prop for Layout {
    type Case = Laid;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "random expressions over the whole expression language, written twice: compactly, and with spaces, tabs, line breaks, Unicode spaces, line and block comments inserted around infix operators, separators, and inside parentheses, brackets and argument lists, and surrounded by whitespace, comments and empty statements; oracle: both parse to the same expression apart from positions. Non-trivial: at least three insertions"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(450_000, 4_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Laid> {
        let lay = |m: M, k: usize| Laid { m, layout: (0..50).map(|i| (i * 37 + k * 11) as u8).collect(), alts: vec![k as u8; 8], before: vec![k as u8], after: vec![k as u8 / 3] };
        lang::huge(Cfg::FULL).into_iter().enumerate().map(|(k, m)| lay(m, k)).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Laid> {
        let edge = || proptest::collection::vec(any::<u8>(), 0..8);
        (lang::expression(Cfg::FULL).prop_filter("nesting", moderate), lang::layout(), lang::layout(), edge(), edge())
            .prop_map(|(m, layout, alts, before, after)| Laid { m, layout, alts, before, after })
            .boxed()
    }
    fn check(&self, c: &Laid, o: &mut Obs) -> Check {
        let tight = compact(&c.m);
        let loose = render(&c.m, &c.layout, &c.alts, "f", &outer(&c.before), false);
        let mut text = loose.text;
        // `//` after a `/` already written would join it
        text.push_str(if c.after.is_empty() { "" } else { " " });
        text.push_str(&outer(&c.after));
        o.trivial_if(loose.holes_filled < 3);
        o.label_if(loose.comments > 0, "comment");
        o.label_if(loose.comments > 1, "several comments");
        o.label_if(loose.newlines > 0, "line break");
        o.label_if(outer(&c.before).contains(';') || outer(&c.after).contains(';'), "empty statement");
        let a = shape(&accepted(&tight.text)?);
        let b = shape(&accepted(&text)?);
        let bad = diff(&b, &a);
        ensure!(a == b, "{text:?} and {:?} differ: {bad}", tight.text);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("comment", 5000), ("several comments", 2000), ("line break", 5000), ("empty statement", 5000)]
    }
}

// ------------------------------------------------------------------------------------------------ C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Placed {
    m: M,
    layout: Vec<u8>,
    alts: Vec<u8>,
    before: Vec<u8>,
    file: String,
    /// so many empty lines before, or spaces when negative
    #[serde(default)]
    lead: i32,
}
pub fn long_name() -> BoxedStrategy<String> {
    prop_oneof![lang::long_text(), proptest::collection::vec(any::<char>(), 0..12).prop_map(String::from_iter)].boxed()
}
pub struct Positions;
impl Prop for Positions {
    type Case = Placed;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "random expressions over the whole expression language with random layout, line breaks, comments and non-ASCII text before and between the parts, and random file names; oracle: the place where the generator wrote each construct. Non-trivial: at least two positioned constructs"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(450_000, 4_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Placed> {
        let mut v = vec![];
        for (k, m) in lang::huge(Cfg::FULL).into_iter().enumerate() {
            if m.count(|_| true) < 1500 {
                // all on one line, and over many
                v.push(Placed { m: m.clone(), layout: vec![], alts: vec![], before: vec![], file: "f".into(), lead: 0 });
                v.push(Placed { m, layout: vec![4, 0, 1, 10, 4, 8, 3], alts: vec![k as u8; 3], before: vec![k as u8], file: "a.sm".into(), lead: 0 });
            }
        }
        // far from the beginning, in lines (above zero) or characters (below)
        let x = || M::Sym("x".into());
        let sum = M::Inf("+".into(), Box::new(M::Call("f".into(), vec![vec![lang::Arg { key: None, val: x() }]])), Box::new(M::List(vec![x()])));
        for n in lang::sizes(5000).into_iter().chain([32_767, 32_768, 65_535, 65_536, 65_537, 70_000]) {
            for lead in [n as i32, -(n as i32)] {
                v.push(Placed { m: sum.clone(), layout: vec![], alts: vec![], before: vec![], file: "f".into(), lead });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Placed> {
        let edge = proptest::collection::vec(any::<u8>(), 0..5);
        let file = prop_oneof![
            2 => proptest::sample::select(vec!["", "anonymous", "a.sm", "dir/ü b.sm", "变"]).prop_map(String::from),
            1 => proptest::collection::vec(proptest::sample::select(vec!["a", "B", "/", "//", "\\", "\\\\", ".", "..", "./", ".sm", ".SM", " ", ":", "C:", "file://", "é", "😀", "\n", "\r\n", "\t", "\"", "~", "%20", "?", "#", "<", ">", "\0", "stdin", "-"]), 0..8).prop_map(|v| v.concat()),
            1 => crate::shape::long_name(),
        ];
        (lang::expression(Cfg::FULL).prop_filter("nesting", moderate), lang::layout(), lang::layout(), edge, file)
            .prop_map(|(m, layout, alts, before, file)| Placed { m, layout, alts, before, file, lead: 0 })
            .boxed()
    }
    fn check(&self, c: &Placed, o: &mut Obs) -> Check {
        let lead = if c.lead > 0 { "\n".repeat(c.lead as usize) } else { " ".repeat(c.lead.unsigned_abs() as usize) };
        let before = lead + &outer(&c.before);
        let r = render(&c.m, &c.layout, &c.alts, &c.file, &before, true);
        let mut n = 0;
        let mut lines = 0;
        r.expect.clone().each_group(&mut |g| {
            n += 1;
            let p = g.pos.as_ref().unwrap();
            lines += (p.start.0 != p.end.0) as usize;
        });
        o.trivial_if(n < 2);
        o.label_if(r.newlines > 0 || before.contains('\n'), "line breaks");
        o.label_if(lines > 0, "construct over several lines");
        o.label_if(!r.text.is_ascii(), "non-ASCII text");
        let got = match parse_in(&c.file, &r.text)? {
            Ok(a) => norm(&a),
            Err(e) => return fail(format!("{:?} is refused: {e:?}", r.text)),
        };
        let want = named(r.expect);
        let bad = diff(&got, &want);
        ensure!(got == want, "{:?}: {bad}", r.text);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("line breaks", 5000), ("construct over several lines", 2000), ("non-ASCII text", 5000)]
    }
}

// ------------------------------------------------------------------------------------------------ C30
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Chain {
    /// operands, each with its prefixes and suffixes
    operands: Vec<(Vec<String>, M, Vec<String>)>,
    /// operators between them
    ops: Vec<String>,
    /// brackets from operand i to operand j
    group: Option<(usize, usize)>,
    spaces: bool,
}
pub struct Operands;
/// infix spellings found anywhere in the grammar file, in the documentation or in other languages
const SPELLINGS: [&str; 55] = [
    "+", "-", "*", "/", "^", "×", "÷", "%", "=", ">", "⋅", "⊗", "⊙", "==", ">=", "//", ".", "/@", "<", "<=", "!=", "≠", "===", "=!=", "&&", "||", "∧", "∨", "⊕", "->", "=>", "|>", "<<", ">>", "≪", "≫",
    "<<<", ">>>", "⋘", "⋙", "@", "@@", "@@@", "//@", "~~", "~=", ":?", "++", "--", "**", "√", "⁒", "…", "|", "&",
];
/// places for parts, named by `distinct`, or a few parts again and again
fn parts() -> BoxedStrategy<Vec<M>> {
    let few = proptest::sample::select(vec![M::Sym("a".into()), M::Sym("a".into()), M::Sym("b".into()), M::Int("1".into()), M::Int("0".into())]);
    prop_oneof![3 => prop_oneof![6 => 2usize..4, 2 => 4usize..12, 1 => 12usize..40].prop_map(|n| vec![M::Null; n]), 1 => proptest::collection::vec(few, 2..6)].boxed()
}
fn indexed(v: Vec<M>) -> M {
    M::Index(Box::new(M::Null), v.into_iter().map(lang::Ix::One).collect())
}
fn operand() -> BoxedStrategy<M> {
    prop_oneof![
        4 => Just(M::Sym("?".into())),
        3 => Just(M::Int("?".into())),
        1 => Just(M::Dec("?".into())),
        1 => Just(M::Byte("?".into())),
        1 => Just(M::Str("?".into())),
        1 => parts().prop_map(|v| M::Call("?".into(), vec![v.into_iter().map(|val| lang::Arg { key: None, val }).collect()])),
        1 => parts().prop_map(M::List),
        1 => parts().prop_map(M::Juxt),
        1 => parts().prop_map(indexed),
        1 => proptest::sample::select(vec!["0", "1", "2", "10"]).prop_map(|s| M::Int(s.into())),
        1 => proptest::sample::select(vec![M::Bool(true), M::Bool(false), M::Null, M::Dec("0.0".into()), M::Dec("1.0".into()), M::Str(String::new()), M::Sym("x".into()), M::Byte("0x0".into())]),
        1 => lang::integer().prop_map(M::Int),
    ]
    .boxed()
}
/// operand k, different from all others
fn distinct(m: &M, k: usize) -> M {
    let s = |p: &str| M::Sym(format!("{p}{k}"));
    let given = |m: &M, other: M| if let M::Null = m { other } else { m.clone() };
    match m {
        M::Int(s) | M::Dec(s) | M::Byte(s) | M::Str(s) | M::Sym(s) if s != "?" => m.clone(),
        M::Bool(_) | M::Null => m.clone(),
        M::Int(_) => M::Int(format!("{}", 700 + k)),
        M::Dec(_) => M::Dec(format!("{k}.25")),
        M::Byte(_) => M::Byte(format!("0x{:x}", 256 + k)),
        M::Str(_) => M::Str(format!("s{k}")),
        M::Call(_, gs) => M::Call(format!("f{k}"), vec![gs.iter().flatten().enumerate().map(|(i, a)| lang::Arg { key: None, val: given(&a.val, s(&format!("p{i}q"))) }).collect()]),
        M::List(v) => M::List(v.iter().enumerate().map(|(i, m)| given(m, s(&format!("l{i}m")))).collect()),
        M::Index(_, v) => M::Index(
            Box::new(s("x")),
            v.iter()
                .enumerate()
                .map(|(i, x)| match x {
                    lang::Ix::One(m) => lang::Ix::One(given(m, s(&format!("i{i}n")))),
                    _ => lang::Ix::One(s(&format!("i{i}n"))),
                })
                .collect(),
        ),
        M::Juxt(v) => M::Juxt(v.iter().enumerate().map(|(i, m)| given(m, if i == 0 { M::Int(format!("{}", 800 + k)) } else { s(&format!("j{i}n")) })).collect()),
        _ => s("v"),
    }
}
fn functions(n: &N) -> usize {
    match n {
        N::Program(v) => v.iter().map(functions).sum(),
        N::Fn(_, gs) => {
            1 + gs
                .iter()
                .map(|g| g.args.iter().map(functions).sum::<usize>() + g.opts.iter().map(|(k, v)| functions(k) + functions(v)).sum::<usize>())
                .sum::<usize>()
        }
        _ => 0,
    }
}
/// names of functions and leaves, left to right
fn heads(n: &N, out: &mut Vec<String>) {
    match n {
        N::Program(v) => v.iter().for_each(|x| heads(x, out)),
        N::Fn(f, gs) => {
            out.push(f.clone());
            for g in gs {
                g.args.iter().for_each(|x| heads(x, out));
                g.opts.iter().for_each(|(k, v)| {
                    heads(k, out);
                    heads(v, out)
                });
            }
        }
        _ => {}
    }
}
impl Prop for Operands {
    type Case = Chain;
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "chains of 2 to 20 operands, distinct or small and repeated in every pattern of equality (symbols, numbers, strings, calls, lists, juxtapositions and indices of up to 40 and some up to 1100 parts) joined by any of 55 infix spellings, with random prefixes (+ - * ! ¬), suffixes (! !! ? ') and brackets, including every single spelling and every pair of spellings; oracle: if the text is accepted, the result holds every operand in order and one function per operator, prefix and suffix written, infix operators with both operands; else it is refused with an error. Non-trivial: accepted"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 6_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Chain> {
        let mut v = vec![];
        let s = || (vec![], M::Sym("?".into()), vec![]);
        let i = || (vec![], M::Int("?".into()), vec![]);
        let small: Vec<M> = ["0", "1", "2"].map(|s| M::Int(s.into())).into_iter().chain([M::Bool(true), M::Dec("1.0".into()), M::Null, M::Sym("x".into())]).collect();
        for a in SPELLINGS {
            for x in &small {
                for y in &small {
                    v.push(Chain { operands: vec![(vec![], x.clone(), vec![]), (vec![], y.clone(), vec![])], ops: vec![a.into()], group: None, spaces: false });
                }
                v.push(Chain { operands: vec![i(), (vec![], x.clone(), vec![]), s()], ops: vec![a.into(), a.into()], group: None, spaces: true });
            }
            for n in 3..14 {
                v.push(Chain { operands: vec![s(); n], ops: vec![a.into(); n - 1], group: None, spaces: true });
            }
            for n in lang::sizes(1100) {
                v.push(Chain { operands: (0..n).map(|k| if k % 2 == 0 { s() } else { i() }).collect(), ops: vec![a.into(); n - 1], group: None, spaces: n % 2 == 0 });
            }
            for spaces in [false, true] {
                for x in [s(), i()] {
                    for y in [s(), i()] {
                        v.push(Chain { operands: vec![x.clone(), y.clone()], ops: vec![a.into()], group: None, spaces });
                    }
                }
                for b in SPELLINGS {
                    v.push(Chain { operands: vec![i(), s(), i()], ops: vec![a.into(), b.into()], group: None, spaces });
                    v.push(Chain { operands: vec![i(), i(), s()], ops: vec![a.into(), b.into()], group: Some((0, 1)), spaces });
                }
            }
        }
        for n in lang::sizes(1100) {
            let parts = || vec![M::Null; n];
            let call = |v: Vec<M>| M::Call("?".into(), vec![v.into_iter().map(|val| lang::Arg { key: None, val }).collect()]);
            for m in [call(parts()), M::List(parts()), M::Juxt(parts()), indexed(parts())] {
                v.push(Chain { operands: vec![(vec![], m.clone(), vec![]), s()], ops: vec!["+".into()], group: None, spaces: false });
                v.push(Chain { operands: vec![i(), (vec!["-".into()], m, vec!["!".into()])], ops: vec!["*".into()], group: None, spaces: true });
            }
        }
        // parts equal to each other in every pattern
        for p in lang::patterns() {
            for kind in 0..4 {
                let part = |k: &usize| match (kind, *k) {
                    (0, k) => M::Sym(format!("a{k}")),
                    (1, k) => M::Int(format!("{k}")),
                    (2, 0) | (3, 1) => M::Sym("x".into()),
                    (_, k) => M::Int(format!("{k}")),
                };
                let parts = || p.iter().map(part).collect::<Vec<M>>();
                let call = |v: Vec<M>| M::Call("?".into(), vec![v.into_iter().map(|val| lang::Arg { key: None, val }).collect()]);
                for m in [call(parts()), M::List(parts()), M::Juxt(parts()), indexed(parts())] {
                    v.push(Chain { operands: vec![(vec![], m, vec![])], ops: vec![], group: None, spaces: false });
                }
                for a in &SPELLINGS[..16] {
                    v.push(Chain { operands: parts().into_iter().map(|m| (vec![], m, vec![])).collect(), ops: vec![a.to_string(); p.len() - 1], group: None, spaces: kind % 2 == 0 });
                }
            }
        }
        let marks = ["+", "-", "*", "!", "¬"];
        let mut runs: Vec<Vec<String>> = vec![vec![]];
        for _ in 0..4 {
            runs = runs.iter().flat_map(|r| marks.map(|m| [r.clone(), vec![m.to_string()]].concat())).collect();
            for r in &runs {
                for x in [M::Sym("?".into()), M::Int("?".into()), M::Bool(true), M::Dec("?".into())] {
                    v.push(Chain { operands: vec![(r.clone(), x.clone(), vec![])], ops: vec![], group: None, spaces: false });
                    v.push(Chain { operands: vec![i(), (r.clone(), x, vec!["!".into()])], ops: vec!["+".into()], group: None, spaces: false });
                }
            }
        }
        for f in ["!", "!!", "?", "'", "''"] {
            for p in ["+", "-", "*", "!", "¬", ""] {
                let ps: Vec<String> = if p.is_empty() { vec![] } else { vec![p.into()] };
                v.push(Chain { operands: vec![(ps.clone(), M::Sym("?".into()), vec![f.into()]), i()], ops: vec!["+".into()], group: None, spaces: false });
                v.push(Chain { operands: vec![i(), (ps, M::Int("?".into()), vec![f.into()])], ops: vec!["*".into()], group: None, spaces: true });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Chain> {
        let mark = || proptest::sample::select(vec!["+", "-", "*", "!", "¬"]);
        let pre = prop_oneof![
            4 => proptest::collection::vec(mark(), 0..3),
            1 => proptest::collection::vec(mark(), 3..8),
            1 => (mark(), 2usize..6).prop_map(|(m, n)| vec![m; n]),
        ]
        .prop_map(|v| v.into_iter().map(String::from).collect::<Vec<_>>());
        let suf = proptest::collection::vec(prop_oneof![6 => Just("!"), 3 => Just("!!"), 1 => Just("?"), 1 => Just("'")].prop_map(String::from), 0..2);
        let one = (prop_oneof![3 => Just(vec![]), 1 => pre], operand(), prop_oneof![4 => Just(vec![]), 1 => suf]);
        let known = proptest::sample::select(&SPELLINGS[..17]).prop_map(String::from);
        let every = proptest::sample::select(&SPELLINGS[..]).prop_map(String::from);
        let op = prop_oneof![12 => known, 1 => every];
        (prop_oneof![12 => 2usize..7, 1 => 7usize..21].prop_flat_map(move |n| proptest::collection::vec(one.clone(), n)), proptest::collection::vec(op, 20), proptest::option::of((0usize..20, 0usize..20)), any::<bool>())
            .prop_map(|(operands, mut ops, group, spaces)| {
                ops.truncate(operands.len() - 1);
                let n = operands.len();
                let group = group.map(|(a, b)| (a % n, b % n)).filter(|(a, b)| a < b);
                Chain { operands, ops, group, spaces }
            })
            .boxed()
    }
    fn check(&self, c: &Chain, o: &mut Obs) -> Check {
        harness_ensure!(c.ops.len() + 1 == c.operands.len(), "chain");
        let mut text = String::new();
        let mut leaves: Vec<N> = vec![];
        let mut extra = 0;
        for (k, (pre, m, suf)) in c.operands.iter().enumerate() {
            if k > 0 {
                // 1.2 would be a decimal
                let gap = if c.spaces || c.ops[k - 1] == "." { " " } else { "" };
                text.push_str(&format!("{gap}{}{gap}", c.ops[k - 1]));
                // //* and //! begin comments
                if c.ops[k - 1].ends_with('/') {
                    text.push(' ');
                }
            }
            if c.group.is_some_and(|(a, _)| a == k) {
                text.push('(');
            }
            let r = compact(&distinct(m, k));
            let want = r.expect.strip();
            text.push_str(&pre.concat());
            text.push_str(&r.text);
            text.push_str(&suf.concat());
            let mut v = vec![];
            want.leaves(&mut v);
            leaves.extend(v.into_iter().cloned());
            extra += functions(&want) + pre.len();
            // adjacent marks are read together: !! is one suffix
            let marks = suf.concat();
            extra += marks.matches("!!").count() + marks.replace("!!", "").matches('!').count();
            if c.group.is_some_and(|(_, b)| b == k) {
                text.push(')');
            }
        }
        let ast = match parse(&text)? {
            Err(_) => {
                o.trivial_if(true);
                o.label("refused");
                o.label_if(c.ops.iter().all(|x| lang::EVERY.contains(&x.as_str())), "refused with known operators");
                return Ok(());
            }
            Ok(a) => a,
        };
        o.label("accepted");
        o.label_if(c.ops.iter().any(|x| x == "."), "dot");
        o.label_if(c.ops.iter().any(|x| !lang::ARITH.contains(&x.as_str())), "accepted with other operators");
        let got = shape(&ast);
        let mut seen = vec![];
        got.leaves(&mut seen);
        let mut names = vec![];
        heads(&got, &mut names);
        if c.ops.iter().any(|x| x == ".") {
            // x.f is the call f(x): the symbol becomes the function, x.n is an index
            for l in &leaves {
                let held = seen.contains(&l) || matches!(l, N::Sym(s) if names.contains(s));
                ensure!(held, "{text:?} lost {}: {}", show(l), show(&got));
            }
        } else {
            let want: Vec<&N> = leaves.iter().collect();
            ensure!(seen == want, "{text:?} holds {}, the operands written are {}", show(&got), leaves.iter().map(show).collect::<Vec<_>>().join(" "));
            let n = functions(&got);
            ensure!(n >= c.ops.len() + extra, "{text:?} has {} operators and calls, its parse {} only {n}", c.ops.len() + extra, show(&got));
        }
        if c.ops.len() == 1 && c.operands.iter().all(|x| x.0.is_empty() && x.2.is_empty()) && c.ops[0] != "." {
            let ok = matches!(&ast, AST::Function(_, p) if p.len() == 1 && p[0].arguments.len() == 2 && p[0].options.is_empty());
            ensure!(ok, "{text:?} is not one operator with two operands: {}", show(&got));
            o.label("single operator");
            // and it is that operator: a different operator gives something else
            let (a, b) = text.split_once(c.ops[0].as_str()).unwrap_or(("", ""));
            for other in &SPELLINGS[..16] {
                let same = [["*", "×"], ["/", "÷"]].iter().any(|p| p.contains(other) && p.contains(&c.ops[0].as_str()));
                if *other == c.ops[0] || same {
                    continue;
                }
                if let Ok(x) = parse(&format!("{a}{other}{b}"))? {
                    ensure!(shape(&x) != got, "{:?} and {:?} have the same parse {}", text, format!("{a}{other}{b}"), show(&got));
                }
            }
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("accepted", 30_000), ("refused", 1000), ("dot", 5000), ("accepted with other operators", 20_000), ("single operator", 50)]
    }
}
