//! Texts for the parser checks: sentences derived from the grammar file as it is now, token soup made of its
//! terminals, edited sentences, and arbitrary text. Everything is decided by bytes, so that it shrinks.
use pest_meta::ast::{Expr, Rule, RuleType};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

pub const GRAMMAR: &str = "/repo/projects/sm-parser/simple-math.pest";

const SHIPPED: &str = "/repo/projects/sm-parser/src/sm_parser.rs";

pub struct Grammar {
    rules: BTreeMap<String, Rule>,
    depth: BTreeMap<String, usize>,
    terminals: Vec<String>,
}

const MANY: usize = 1 << 20;

impl Grammar {
    pub fn load() -> Result<Grammar, String> {
        let text = std::fs::read_to_string(GRAMMAR).map_err(|e| e.to_string())?;
        let text: String = text.lines().map(|l| if l.trim_start().starts_with("//") { "\n".to_string() } else { format!("{l}\n") }).collect();
        let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, &text).map_err(|e| e.to_string())?;
        let list = pest_meta::parser::consume_rules(pairs).map_err(|e| format!("{e:?}"))?;
        let rules: BTreeMap<String, Rule> = list.into_iter().map(|r| (r.name.clone(), r)).collect();
        let mut g = Grammar { depth: rules.keys().map(|k| (k.clone(), MANY)).collect(), rules, terminals: vec![] };
        // least nesting each rule can be derived with
        loop {
            let next: BTreeMap<String, usize> = g.rules.iter().map(|(k, r)| (k.clone(), g.need(&r.expr).saturating_add(1).min(MANY))).collect();
            if next == g.depth {
                break;
            }
            g.depth = next;
        }
        let mut t = BTreeSet::new();
        for r in g.rules.values() {
            collect(&r.expr, &mut t);
        }
        // spellings that only the shipped parser knows are tried too
        let shipped = std::fs::read_to_string(SHIPPED).unwrap_or_default();
        for call in ["match_string(\"", "match_insensitive(\"", "match_range('"] {
            for (i, _) in shipped.match_indices(call) {
                let rest = &shipped[i + call.len()..];
                let end = if call.ends_with('"') { "\")" } else { "')" };
                let Some(n) = rest.find(end).filter(|n| *n < 40) else { continue };
                for w in rest[..n].split("'..'") {
                    t.insert(w.replace("\\\"", "\"").replace("\\\\", "\\").replace("\\n", "\n").replace("\\r", "\r").replace("\\t", "\t"));
                }
            }
        }
        t.remove("");
        g.terminals = t.into_iter().collect();
        Ok(g)
    }
    pub fn rules(&self) -> Vec<String> {
        self.rules.keys().cloned().collect()
    }
    /// leaves no node of its own in the tree
    pub fn silent(&self, rule: &str) -> bool {
        self.rules.get(rule).is_some_and(|r| r.ty == RuleType::Silent)
    }
    fn need(&self, e: &Expr) -> usize {
        match e {
            Expr::Ident(n) => self.depth.get(n).copied().unwrap_or(0),
            Expr::Seq(a, b) => self.need(a).max(self.need(b)),
            Expr::Choice(a, b) => self.need(a).min(self.need(b)),
            Expr::RepOnce(a) | Expr::Push(a) | Expr::RepExact(a, _) => self.need(a),
            Expr::RepMin(a, n) | Expr::RepMinMax(a, n, _) => {
                if *n == 0 {
                    0
                } else {
                    self.need(a)
                }
            }
            _ => 0,
        }
    }
    /// a text derived from a rule, ignoring lookaheads; the bytes make all choices, then the shortest way out
    pub fn derive(&self, rule: &str, bytes: &[u8], depth: usize) -> String {
        let mut d = Derive { g: self, bytes, out: String::new(), stack: vec![], limit: 600, long: bytes.len() > 120 };
        d.rule(rule, depth.max(self.depth.get(rule).copied().unwrap_or(0) + 1), false);
        d.out
    }
}

fn collect(e: &Expr, out: &mut BTreeSet<String>) {
    match e {
        Expr::Str(s) | Expr::Insens(s) => {
            out.insert(s.clone());
        }
        Expr::PosPred(a) | Expr::NegPred(a) | Expr::Opt(a) | Expr::Rep(a) | Expr::RepOnce(a) | Expr::Push(a) => collect(a, out),
        Expr::RepExact(a, _) | Expr::RepMin(a, _) | Expr::RepMax(a, _) | Expr::RepMinMax(a, _, _) => collect(a, out),
        Expr::Seq(a, b) | Expr::Choice(a, b) => {
            collect(a, out);
            collect(b, out);
        }
        _ => {}
    }
}

struct Derive<'a> {
    g: &'a Grammar,
    bytes: &'a [u8],
    out: String,
    stack: Vec<String>,
    limit: usize,
    /// many repetitions
    long: bool,
}
const ANY_CHARS: [&str; 32] = ["\r", "\t", "\u{0}", "\u{3000}", "，", "~", "\u{10ffff}", "&", "a", " ", "1", "\"", "\\", "é", "变", "(", ")", "#", "\n", "😀", "'", "/", "%", "_", "[", "]", "{", "}", ";", ",", "+", "\u{301}"];
const STARTS: [&str; 20] = ["A", "z", "in", "\u{aa}", "𝔸", "ﷺ", "a", "x", "f", "é", "变", "Z", "tr", "null", "true", "let", "if", "r", "as", "λ"];
const CONTS: [&str; 16] = ["0", "5", "A", "Z", "a", "·", "\u{e0100}", "‿", "b", "1", "_", "é", "9", "变", "\u{301}", "x"];

impl<'a> Derive<'a> {
    fn byte(&mut self) -> Option<usize> {
        let (b, rest) = self.bytes.split_first()?;
        self.bytes = rest;
        Some(*b as usize)
    }
    fn pick(&mut self, list: &[&str]) {
        let i = self.byte().unwrap_or(0) % list.len();
        self.out.push_str(list[i]);
    }
    fn tired(&self) -> bool {
        self.out.len() > self.limit
    }
    fn rule(&mut self, name: &str, depth: usize, atomic: bool) {
        if let Some(r) = self.g.rules.get(name) {
            let atomic = match r.ty {
                RuleType::Atomic | RuleType::CompoundAtomic => true,
                RuleType::NonAtomic => false,
                _ => atomic,
            };
            let e = r.expr.clone();
            return self.expr(&e, depth.saturating_sub(1), atomic);
        }
        match name {
            "ANY" => self.pick(&ANY_CHARS),
            "ASCII_DIGIT" => self.pick(&["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"]),
            "ASCII_NONZERO_DIGIT" => self.pick(&["1", "2", "3", "4", "5", "6", "7", "8", "9"]),
            "ASCII_BIN_DIGIT" => self.pick(&["0", "1"]),
            "ASCII_OCT_DIGIT" => self.pick(&["0", "1", "2", "3", "4", "5", "6", "7"]),
            "ASCII_HEX_DIGIT" => self.pick(&["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"]),
            "ASCII_ALPHA" | "ASCII_ALPHA_LOWER" | "ALPHABETIC" => self.pick(&["a", "z"]),
            "XID_START" | "ID_START" => self.pick(&STARTS),
            "XID_CONTINUE" | "ID_CONTINUE" => self.pick(&CONTS),
            "NEWLINE" => self.pick(&["\n", "\r\n", "\r"]),
            "WHITE_SPACE" => self.pick(&[" ", "\t", "\u{3000}", "\u{a0}", "\u{85}", "\u{b}", "\u{c}", "\u{2028}", "\u{2029}", "\u{2003}", "\u{1680}", "\u{205f}"]),
            "PEEK" => {
                let s = self.stack.last().cloned().unwrap_or_default();
                self.out.push_str(&s)
            }
            "POP" => {
                let s = self.stack.pop().unwrap_or_default();
                self.out.push_str(&s)
            }
            _ => {}
        }
    }
    fn gap(&mut self, atomic: bool) {
        if atomic || self.tired() {
            return;
        }
        let Some(b) = self.byte() else {
            self.out.push(' ');
            return;
        };
        match b % 12 {
            0..=4 => {}
            10 => self.out.push('\n'),
            11 => self.out.push_str(["%%%c%%%", " ///c\n", "\t", "\u{3000}", "  "][(b / 12) % 5]),
            _ => self.out.push(' '),
        }
    }
    fn most(&self) -> usize {
        if self.long { 80 } else { 6 }
    }
    fn repeat(&mut self, e: &Expr, least: usize, most: usize, depth: usize, atomic: bool) {
        let mut n = 0;
        while n < most {
            if n >= least {
                let stop = self.tired() || self.g.need(e) > depth || self.byte().is_none_or(|b| b % if self.long { 19 } else { 3 } == 0);
                if stop {
                    break;
                }
            }
            if n > 0 {
                self.gap(atomic);
            }
            self.expr(e, depth, atomic);
            n += 1;
        }
    }
    fn expr(&mut self, e: &Expr, depth: usize, atomic: bool) {
        match e {
            Expr::Str(s) => self.out.push_str(s),
            Expr::Insens(s) => {
                let up = self.byte().unwrap_or(0) % 2 == 1;
                let s = if up { s.to_uppercase() } else { s.clone() };
                self.out.push_str(&s)
            }
            Expr::Range(a, _) => self.out.push_str(a),
            Expr::Ident(n) => self.rule(n, depth, atomic),
            Expr::Seq(a, b) => {
                self.expr(a, depth, atomic);
                self.gap(atomic);
                self.expr(b, depth, atomic);
            }
            Expr::Choice(..) => {
                let mut all = vec![];
                let mut c = e;
                while let Expr::Choice(a, b) = c {
                    all.push(&**a);
                    c = b;
                }
                all.push(c);
                let least = all.iter().map(|x| self.g.need(x)).min().unwrap();
                let fit = if self.tired() { least } else { depth.max(least) };
                let open: Vec<&Expr> = all.into_iter().filter(|x| self.g.need(x) <= fit).collect();
                let i = match self.byte() {
                    Some(b) => b % open.len(),
                    None => open.iter().enumerate().min_by_key(|(_, x)| self.g.need(x)).unwrap().0,
                };
                self.expr(open[i], depth, atomic);
            }
            Expr::Opt(a) => {
                if !self.tired() && self.g.need(a) <= depth && self.byte().is_some_and(|b| b % 2 == 1) {
                    self.expr(a, depth, atomic);
                }
            }
            Expr::Rep(a) => self.repeat(a, 0, self.most(), depth, atomic),
            Expr::RepOnce(a) => self.repeat(a, 1, self.most(), depth, atomic),
            Expr::RepExact(a, n) => self.repeat(a, *n as usize, *n as usize, depth, atomic),
            Expr::RepMin(a, n) => self.repeat(a, *n as usize, *n as usize + 4, depth, atomic),
            Expr::RepMax(a, n) => self.repeat(a, 0, *n as usize, depth, atomic),
            Expr::RepMinMax(a, m, n) => self.repeat(a, *m as usize, *n as usize, depth, atomic),
            Expr::Push(a) => {
                let from = self.out.len();
                self.expr(a, depth, atomic);
                let s = self.out[from..].to_string();
                self.stack.push(s);
            }
            Expr::PosPred(_) | Expr::NegPred(_) => {}
            #[allow(unreachable_patterns)]
            _ => {}
        }
    }
}

pub fn grammar() -> &'static Grammar {
    static G: OnceLock<Grammar> = OnceLock::new();
    G.get_or_init(|| Grammar::load().unwrap_or_else(|e| panic!("cannot read {GRAMMAR}: {e}")))
}

const SAMPLES: [&str; 40] = [
    "a", "x", "f", "sin", "é", "变", "_", "_1", "0", "1", "2", "10", "007", "1.5", "0.05", "1.", ".5", "0x1F", "0b10", "0o7", "0xG", "0x_", "\"s\"", "\"", "\"\"\"t\"\"\"", "\\", " ", " ", " ", "\n", "true",
    "false", "null", "#1", "##2", "¶", "⁋2", "$", "∷", "\u{feff}",
];
/// terminals of the grammar and sample names, numbers and strings in any order
pub fn soup(max: usize) -> BoxedStrategy<String> {
    let g = grammar();
    let mut v: Vec<String> = g.terminals.clone();
    v.extend(SAMPLES.iter().map(|s| s.to_string()));
    let common = proptest::sample::select(vec!["(", ")", "[", "]", ",", "+", "-", "*", "/", "^", ".", "!", "a", "f", "1", " ", ":", "\"", "2.5", "="]).prop_map(String::from);
    let one = prop_oneof![8 => proptest::sample::select(v), 12 => common, 1 => long_token(), 1 => pbt::dict::word()];
    proptest::collection::vec(one, 0..max).prop_map(|v| v.concat()).boxed()
}
/// literals and names of many characters
pub fn long_token() -> BoxedStrategy<String> {
    use pbt::lang::*;
    let marks = proptest::sample::select(vec!["#", "##", "¶", "⁋", "¶¶", "-", "#a"]);
    prop_oneof![
        2 => digits(150),
        1 => integer(),
        2 => (marks, prop_oneof![digits(60), integer()]).prop_map(|(m, d)| format!("{m}{d}")),
        1 => (proptest::sample::select(vec!["¶", "⁋", "!", "-", "a", "é", "_", ";", "#", "\"", "0", "%", ".", "::"]), 1usize..70).prop_map(|(s, n)| s.repeat(n)),
        1 => decimal(),
        2 => radix(),
        1 => ("0[xXoObB]", "[01]{1,140}").prop_map(|(a, b)| a + &b),
        1 => string_body().prop_map(|s| format!("\"{s}\"")),
        1 => block_body().prop_map(|s| format!("\"\"\"{s}\"\"\"")),
        2 => path(),
    ]
    .boxed()
}
/// sentence of one of the rules
pub fn sentence(rules: Vec<String>, depth: usize) -> BoxedStrategy<(String, String)> {
    (proptest::sample::select(rules), prop_oneof![9 => proptest::collection::vec(any::<u8>(), 0..120), 1 => proptest::collection::vec(any::<u8>(), 121..600)], 3..depth)
        .prop_map(|(r, b, d)| {
            let t = grammar().derive(&r, &b, d);
            (r, t)
        })
        .boxed()
}
/// a text with pieces removed, doubled, replaced or swapped
pub fn edited(text: BoxedStrategy<String>) -> BoxedStrategy<String> {
    let g = grammar();
    let mut v: Vec<String> = g.terminals.clone();
    v.extend(SAMPLES.iter().map(|s| s.to_string()));
    let new = prop_oneof![8 => proptest::sample::select(v), 1 => long_token()];
    let edit = (0u8..7, any::<u16>(), any::<u16>(), new);
    (text, proptest::collection::vec(edit, 1..4))
        .prop_map(|(t, edits)| {
            let mut c: Vec<char> = t.chars().collect();
            for (kind, at, len, new) in edits {
                let i = (at as usize) % (c.len() + 1);
                let j = (i + 1 + len as usize % 4).min(c.len());
                match kind {
                    0 => drop(c.splice(i..j, [])),
                    1 => drop(c.splice(i..i, new.chars())),
                    2 => drop(c.splice(i..j, new.chars())),
                    3 => {
                        let part: Vec<char> = c[i..j].to_vec();
                        c.splice(i..i, part);
                    }
                    5 => {
                        // a piece many times over
                        let j = (i + 1 + len as usize % 6).min(c.len());
                        let part: Vec<char> = c[i..j].to_vec();
                        let n = (len as usize / 6) % 30;
                        let many: Vec<char> = part.iter().copied().cycle().take(part.len() * n).collect();
                        c.splice(i..i, many);
                    }
                    _ => c.truncate(i),
                }
            }
            c.into_iter().collect()
        })
        .boxed()
}
/// no structure at all
pub fn noise() -> BoxedStrategy<String> {
    prop_oneof![proptest::collection::vec(any::<char>(), 0..40).prop_map(String::from_iter), "[ -~\\n]{0,40}", "[a-c0-2+*^.!()\\[\\],:#\"'{};=%/ ]{0,30}"].boxed()
}
/// Brackets of every kind deep inside each other: openers, something in the middle, and closers which may be
/// too few, too many, or of the wrong kind. What lies between may break the sentence at any level.
pub fn nested(most: usize) -> BoxedStrategy<String> {
    const OPEN: [(&str, &str); 44] = [
        ("(", ")"), ("[", "]"), ("f(", ")"), ("x[", "]"), ("-(", ")"), ("f(1)(", ")"), ("2 f(", ")"), ("f(a: ", ")"), ("[1, ", "]"), ("x[1:", "]"), ("x[:", "]"),
        ("x[1:2:", "]"), ("x[1, ", "]"), ("{a: ", "}"), ("{a: 1, b: ", "}"), ("f(x) g(", ")"), ("f'(", ")"), ("a::f(", ")"), ("f(1, ", ")"), ("(a+", ")"), ("(a^", "!)"), ("1+(", ")^2"),
        ("!!(", ")"), ("f(", ")[1]"), ("(", ")[1:]"), ("x[", ":2]"), ("x[", "]!"), ("f(", ", 1)"), ("[", ",]"), ("x [", "] "), ("f (", ")(2)"), ("x[1][", "]"), ("(x.f.", ")"),
        ("if x then {", "}"), ("if x {", "}"), ("if (", ") {}"), ("for x in y {", "}"), ("let x {", "}"), ("let x = ", ""), ("def f(x) {", "}"), ("class A {def f(x) {", "}}"),
        ("def f(x = ", ")"), ("@[", "] x"), ("using a.{b, c.{", "}}"),
    ];
    let kinds = proptest::collection::vec(0..OPEN.len(), 1..5);
    let inner = prop_oneof![4 => proptest::sample::select(SAMPLES.to_vec()).prop_map(String::from), 2 => soup(4), 1 => Just(String::new())];
    let depth = prop_oneof![3 => 1..8usize.min(most), 2 => 5..most.max(6)];
    // how the brackets are closed, and what is put where
    let ending = prop_oneof![4 => Just(0u8), 2 => Just(1), 1 => Just(2), 2 => Just(3)];
    (kinds, proptest::collection::vec(any::<u8>(), most.max(6)), depth, inner.clone(), inner, ending, any::<u16>())
        .prop_map(|(kinds, order, depth, inner, other, ending, at)| {
            let level: Vec<(&str, &str)> = order.iter().take(depth).map(|b| OPEN[kinds[*b as usize % kinds.len()]]).collect();
            let mut t: String = level.iter().map(|x| x.0).collect();
            t.push_str(&inner);
            let close: Vec<&str> = level.iter().rev().map(|x| x.1).collect();
            let k = at as usize % (close.len() + 1);
            match ending {
                0 => t.extend(close),
                // not all of them
                1 => t.extend(close[..k].iter().copied()),
                // one more
                2 => {
                    t.extend(close);
                    t.push_str([")", "]", "}", ",", ":"][at as usize % 5]);
                }
                // something else at one level
                _ => {
                    t.extend(close[..k].iter().copied());
                    t.push_str(&other);
                    t.extend(close[k..].iter().copied());
                }
            }
            t
        })
        .boxed()
}
/// The recursive parser needs stack for every open bracket.
pub fn nesting(t: &str) -> usize {
    let (mut now, mut most) = (0usize, 0usize);
    for c in t.chars() {
        match c {
            '(' | '[' | '{' => {
                now += 1;
                most = most.max(now)
            }
            ')' | ']' | '}' => now = now.saturating_sub(1),
            _ => {}
        }
    }
    most
}
pub fn tame(t: &str) -> bool {
    nesting(t) <= 150 && t.len() <= 4000
}
pub fn samples() -> Vec<String> {
    let mut v = grammar().terminals.clone();
    v.extend(SAMPLES.iter().map(|s| s.to_string()));
    v.push(String::new());
    v
}
