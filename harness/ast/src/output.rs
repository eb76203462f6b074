//! C20-C22: printing, Wolfram and TeX export.
use crate::norm::*;
use crate::shape::moderate;
use pbt::lang::{self, compact, render, Cfg, Group, M, N};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, no_panic, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::{ToTex, ToWolfram, AST};
use wolfram_wxf::WolframValue as W;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tree {
    m: M,
}

// ------------------------------------------------------------------------------------------------ C20
pub struct Printing;
pub const C20: Cfg = Cfg { strings: false, slots: false, dot: false, calls: false, lists: false, index: false, juxt: false, ..Cfg::FULL };
/// (a*b)*c and the juxtaposition a b c are the same product
pub fn flat(n: N) -> N {
    match n {
        N::Program(v) => N::Program(v.into_iter().map(flat).collect()),
        N::Fn(f, gs) => {
            let mut gs: Vec<Group> = gs
                .into_iter()
                .map(|mut g| {
                    g.args = g.args.into_iter().map(flat).collect();
                    g
                })
                .collect();
            if f == "std::infix::times" && gs.len() == 1 && !gs[0].args.is_empty() {
                if let N::Fn(h, inner) = &gs[0].args[0] {
                    if *h == f && inner.len() == 1 {
                        let mut all = inner[0].args.clone();
                        all.extend(gs[0].args[1..].iter().cloned());
                        gs[0].args = all;
                    }
                }
            }
            N::Fn(f, gs)
        }
        x => x,
    }
}
fn operators(n: usize, infix: &[&str], prefix: &[&str], suffix: &[&str]) -> Vec<M> {
    if n == 0 {
        return vec![M::Sym("a".into())];
    }
    let mut v = vec![];
    for x in operators(n - 1, infix, prefix, suffix) {
        v.extend(prefix.iter().map(|p| M::Pre(p.to_string(), Box::new(x.clone()))));
        v.extend(suffix.iter().map(|p| M::Suf(p.to_string(), Box::new(x.clone()))));
    }
    for k in 0..n {
        for l in operators(k, infix, prefix, suffix) {
            for r in operators(n - 1 - k, infix, prefix, suffix) {
                v.extend(infix.iter().map(|o| M::Inf(o.to_string(), Box::new(l.clone()), Box::new(r.clone()))));
            }
        }
    }
    v
}
impl Prop for Printing {
    type Case = Tree;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "every expression of up to 2 operators over all 16 infix operators, 5 prefixes and 2 suffixes, every expression of 3 over one infix operator per binding strength, and random ones of up to 14 leaves (numbers, radix literals, symbols with paths, words, juxtapositions) with redundant brackets; oracle: the printed text parses to the same expression, products flattened to the left, and prints the same again. Non-trivial: at least two operators"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 5_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Tree> {
        let mut v = vec![];
        for n in 0..=2 {
            v.extend(operators(n, lang::EVERY, lang::PREFIX, lang::SUFFIX));
        }
        v.extend(operators(3, &["=", ">", "+", "-", "*", "⋅", "/", "^"], &["-", "!"], &["!", "!!"]));
        v.extend(lang::huge(Cfg { juxt: true, ..C20 }));
        v.into_iter().map(|m| Tree { m }).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Tree> {
        let leaf = || lang::leaf(C20);
        let with_juxt = prop_oneof![5 => leaf(), 1 => lang::juxt(None)].boxed();
        let v = prop_oneof![
            2 => lang::bushy(leaf(), lang::EVERY, lang::PREFIX, lang::SUFFIX, 14),
            3 => lang::bushy(with_juxt.clone(), lang::EVERY, lang::PREFIX, lang::SUFFIX, 14),
            2 => lang::bushy(with_juxt, &["*", "/", "^", "-", "×"], lang::PREFIX, lang::SUFFIX, 10),
            1 => lang::expression(Cfg { juxt: true, ..C20 }),
        ];
        v.prop_map(|m| Tree { m }).boxed()
    }
    fn check(&self, c: &Tree, o: &mut Obs) -> Check {
        let text = compact(&c.m).text;
        let first = accepted(&text)?;
        o.trivial_if(c.m.operators() < 2);
        o.label_if(c.m.any(|m| matches!(m, M::Juxt(_))), "juxtaposition");
        o.label_if(c.m.operators() >= 6, "six or more operators");
        let printed = no_panic(&format!("printing {text:?}"), || first.to_string())?;
        o.label_if(printed.contains('('), "needs brackets");
        let again = match parse(&printed)? {
            Ok(a) => a,
            Err(e) => return fail(format!("{text:?} prints as {printed:?}, which is refused: {e:?}")),
        };
        let (a, b) = (flat(shape(&first)), flat(shape(&again)));
        ensure!(a == b, "{text:?} prints as {printed:?}, which means something else: {}", diff(&b, &a));
        let twice = no_panic(&format!("printing {printed:?}"), || again.to_string())?;
        ensure!(twice == printed, "{text:?} prints as {printed:?}, reparsed as {twice:?}");
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("juxtaposition", 5000), ("six or more operators", 5000), ("needs brackets", 20_000)]
    }
}

// ------------------------------------------------------------------------------------------------ C21
/// the Wolfram form as plain data; a function with several argument groups is an application of an application
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Sym(String),
    Num(String),
    Str(String),
    App(Box<T>, Vec<T>),
    Other(String),
}
fn capital(s: &str) -> String {
    if s == "factor" {
        return "FactorInteger".into();
    }
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}
fn last_name(s: &str) -> &str {
    s.rsplit("::").next().unwrap()
}
fn by_text(v: &mut [T]) {
    v.sort_by_key(|t| format!("{t:?}"));
}
fn is_rule(t: &T) -> bool {
    matches!(t, T::App(h, _) if **h == T::Sym("Rule".into()))
}
pub fn seen(w: &W) -> T {
    let app = |h: &str, a: Vec<T>| T::App(Box::new(T::Sym(h.into())), a);
    match w {
        W::Skip => T::Other("skip".into()),
        W::Function(h, a) => {
            let mut a: Vec<T> = a.iter().map(seen).collect();
            // rules come last, in any order
            let k = a.iter().rposition(|t| !is_rule(t)).map(|i| i + 1).unwrap_or(0);
            by_text(&mut a[k..]);
            T::App(Box::new(seen(h)), a)
        }
        W::String(s) => T::Str(s.to_string()),
        W::Symbol(s) => T::Sym(s.to_string()),
        W::Integer8(i) => T::Num(i.to_string()),
        W::Integer16(i) => T::Num(i.to_string()),
        W::Integer32(i) => T::Num(i.to_string()),
        W::Integer64(i) => T::Num(i.to_string()),
        W::BigInteger(i) => T::Num(i.to_string()),
        W::BigDecimal(s) => T::Num(s.to_string()),
        W::Rule(k, v) => app("Rule", vec![seen(k), seen(v)]),
        x => T::Other(format!("{x:?}")),
    }
}
pub fn compound(v: Vec<T>) -> T {
    T::App(Box::new(T::Sym("CompoundExpression".into())), v)
}
fn expected(n: &N) -> T {
    match n {
        N::Fn(f, gs) => {
            let mut h = T::Sym(capital(last_name(f)));
            for g in gs {
                let mut a: Vec<T> = g.args.iter().map(expected).collect();
                // an argument that is itself called Rule cannot be told from an option here; the generator has none
                let mut r: Vec<T> = g.opts.iter().map(|(k, v)| T::App(Box::new(T::Sym("Rule".into())), vec![expected(k), expected(v)])).collect();
                by_text(&mut r);
                a.extend(r);
                h = T::App(Box::new(h), a);
            }
            h
        }
        N::Bool(b) => T::Sym(if *b { "True" } else { "False" }.into()),
        N::Int(s) | N::Dec(s) => T::Num(s.clone()),
        N::Sym(s) => T::Sym(last_name(s).into()),
        N::Str(s) => T::Str(s.clone()),
        N::Empty => T::Other("skip".into()),
        N::Program(v) => T::App(Box::new(T::Sym("CompoundExpression".into())), v.iter().map(expected).collect()),
    }
}
fn tdiff(a: &T, b: &T) -> String {
    if let (T::App(f, x), T::App(g, y)) = (a, b) {
        if f != g {
            return tdiff(f, g);
        }
        if x.len() == y.len() {
            for (p, q) in x.iter().zip(y) {
                if p != q {
                    return tdiff(p, q);
                }
            }
        }
    }
    let brief = |t: &T| format!("{t:?}").chars().take(200).collect::<String>();
    format!("got {}, expected {}", brief(a), brief(b))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Export {
    m: M,
    alts: Vec<u8>,
    /// two literals
    pair: (M, M),
}
fn plain_literal() -> BoxedStrategy<M> {
    let tiny = || "[01]{1,2}".prop_map(|s| if s.len() == 2 && s.starts_with('0') { "0".to_string() } else { s });
    prop_oneof![
        3 => tiny().prop_map(M::Int),
        2 => (tiny(), "[01]{1,3}").prop_map(|(a, b)| M::Dec(format!("{a}.{b}"))),
        1 => any::<bool>().prop_map(M::Bool),
        3 => "[a01.\\-TrueFalse]{0,3}".prop_map(M::Str),
        1 => Just(M::Str("True".into())),
        1 => tiny().prop_map(|s| M::Byte(format!("0b{s}"))),
        1 => lang::integer().prop_map(M::Int),
        1 => lang::decimal().prop_map(M::Dec),
        1 => lang::string_body().prop_map(M::Str),
    ]
    .boxed()
}
/// no two rules whose order is open
pub fn one_order(m: &M) -> bool {
    !m.any(|m| matches!(m, M::Call(_, g) if g.iter().any(|g| g.iter().filter(|a| a.key.is_some()).count() > 1)))
}
/// text and bytes are those of the tree
pub fn same_forms(text: &str, ast: &AST) -> Check {
    let (s, b, t, u) = no_panic(&format!("exporting {text:?}"), || {
        let w = ast.to_wolfram();
        (ast.to_wolfram_string(), ast.to_wolfram_bytes(), w.to_wolfram_string(), w.to_wolfram_bytes())
    })?;
    ensure!(s == t, "{text:?} exports as {s:?}, its Wolfram tree as {t:?}");
    ensure!(b == u, "{text:?}: the bytes are not those of the Wolfram tree: {:?} and {:?}", String::from_utf8_lossy(&b), String::from_utf8_lossy(&u));
    Ok(())
}
/// what a literal denotes
fn value(n: &N) -> String {
    match n {
        N::Dec(s) => format!("d{}", s.trim_end_matches('0')),
        x => format!("{x:?}"),
    }
}
pub struct Wolfram;
impl Prop for Wolfram {
    type Case = Export;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "random expressions over the whole expression language, with functions called factor, sin, ... and options, chained groups, nested lists and strings; and pairs of literals that are close to each other; oracle: the Wolfram tree built from the generator's own tree, options as rules in any order; the expression as part of a sequence of statements; string and bytes are those of the tree; and different text for literals of different value. Non-trivial: at least two function applications"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(450_000, 4_000_000)
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Export> {
        let renamed = |m: M, k: u8| {
            // some of the names the exporter treats specially, and near misses
            fn go(m: &mut M, k: &mut u8) {
                match m {
                    M::Call(f, gs) => {
                        *k = k.wrapping_mul(5).wrapping_add(3);
                        if *k % 3 == 0 {
                            *f = ["factor", "sin", "Factor", "factors", "list", "first", "std::factor", "times"][*k as usize / 3 % 8].into();
                        }
                        gs.iter_mut().flatten().for_each(|a| go(&mut a.val, k));
                    }
                    M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) => go(x, k),
                    M::Inf(_, l, r) | M::Dot(l, r) => {
                        go(l, k);
                        go(r, k);
                    }
                    M::Juxt(v) | M::List(v) => v.iter_mut().for_each(|x| go(x, k)),
                    _ => {}
                }
            }
            let (mut m, mut k) = (m, k);
            go(&mut m, &mut k);
            m.without("Rule")
        };
        let m = (lang::expression(Cfg::FULL).prop_filter("nesting", moderate), any::<u8>()).prop_map(move |(m, k)| renamed(m, k));
        (m, lang::layout(), (plain_literal(), plain_literal())).prop_map(|(m, alts, pair)| Export { m, alts, pair }).boxed()
    }
    fn fixed(&self, _: Tier) -> Vec<Export> {
        let mut v: Vec<M> = vec![M::Bool(true), M::Bool(false), M::Str("true".into()), M::Str("True".into()), M::Str("1".into()), M::Str("1.0".into()), M::Str("".into())];
        for i in 0..12 {
            v.push(M::Int(i.to_string()));
            v.push(M::Dec(format!("{i}.0")));
            v.push(M::Dec(format!("0.{i}")));
            v.push(M::Dec(format!("0.0{i}")));
        }
        let mut out = vec![];
        for m in lang::huge(Cfg::FULL) {
            out.push(Export { m, alts: vec![], pair: (v[0].clone(), v[1].clone()) });
        }
        for n in lang::sizes(5000).into_iter().chain([65_536, 70_000]) {
            let s = |c: char, last: char| M::Str(std::iter::repeat(c).take(n - 1).chain([last]).collect());
            let i = |last: char| M::Int(std::iter::repeat('7').take(n.min(9000) - 1).chain([last]).collect());
            let d = |last: char| M::Dec(format!("0.{}{last}", "3".repeat(n.min(9000))));
            for (a, b) in [(s('a', 'b'), s('a', 'c')), (s('a', 'é'), s('a', 'è')), (s('é', 'b'), s('é', 'c')), (i('1'), i('2')), (d('1'), d('2')), (M::Str("x".repeat(n)), M::Str("x".repeat(n + 1)))] {
                out.push(Export { m: M::List(vec![a.clone(), b.clone()]), alts: vec![], pair: (a, b) });
            }
        }
        for a in &v {
            for b in &v {
                out.push(Export { m: a.clone(), alts: vec![], pair: (a.clone(), b.clone()) });
            }
        }
        out
    }
    fn check(&self, c: &Export, o: &mut Obs) -> Check {
        let r = render(&c.m, &[], &c.alts, "f", "", false);
        let n = c.m.count(|m| matches!(m, M::Call(..) | M::Dot(..) | M::Index(..) | M::Juxt(..) | M::List(..) | M::Inf(..) | M::Pre(..) | M::Suf(..)));
        o.trivial_if(n < 2);
        o.label_if(c.m.any(|m| matches!(m, M::Call(f, _) if f == "factor")), "factor");
        o.label_if(c.m.any(|m| matches!(m, M::Call(_, g) if g.len() > 1)), "chained call");
        o.label_if(c.m.any(|m| matches!(m, M::Call(_, g) if g.iter().flatten().filter(|a| a.key.is_some()).count() > 1)), "several options");
        let ast = accepted(&r.text)?;
        let got = seen(&no_panic(&format!("exporting {:?}", r.text), || ast.to_wolfram())?);
        let want = expected(&named(r.expect).strip());
        ensure!(got == want, "{:?} exports wrongly: {}", r.text, tdiff(&got, &want));
        let one = one_order(&c.m);
        if one {
            same_forms(&r.text, &ast)?;
        }
        let (x, y) = (compact(&c.pair.0), compact(&c.pair.1));
        if n < 200 && c.alts.first().map_or(true, |k| k % 4 == 0) {
            // the same as part of a sequence
            o.label("sequence");
            let mut texts = vec![r.text.as_str(), &x.text, &y.text];
            let mut parts = vec![want, expected(&x.expect.clone().strip()), expected(&y.expect.clone().strip())];
            if c.alts.len() % 3 == 1 {
                texts.pop();
                parts.pop();
            } else if c.alts.len() % 3 == 2 {
                texts.rotate_left(1);
                parts.rotate_left(1);
            }
            let text = texts.join(";\n");
            let ast = accepted(&text)?;
            let got = seen(&no_panic(&format!("exporting {text:?}"), || ast.to_wolfram())?);
            let want = compound(parts);
            ensure!(got == want, "{text:?} exports wrongly: {}", tdiff(&got, &want));
            if one {
                same_forms(&text, &ast)?;
            }
        }
        let text = |t: &str| -> Result<String, pbt::Bad> {
            let a = accepted(t)?;
            no_panic("exporting", || a.to_wolfram_string())
        };
        let (p, q) = (text(&x.text)?, text(&y.text)?);
        if value(&x.expect) != value(&y.expect) {
            o.label("distinct literals");
            ensure!(p != q, "{:?} and {:?} both export as {p:?}", x.text, y.text);
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("factor", 1000), ("chained call", 2000), ("several options", 500), ("distinct literals", 50_000), ("sequence", 20_000)]
    }
}

// ------------------------------------------------------------------------------------------------ C22
const NAMED: [&str; 9] = ["sin", "cos", "tan", "cot", "sec", "csc", "arcsin", "arccos", "arctan"];
const OPERATOR: [&str; 9] = ["arccot", "arcsec", "arccsc", "arcsinh", "arccosh", "arctanh", "arccoth", "arcsech", "arccsch"];
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Cmd(String),
    /// bare character; \left and \right are dropped
    P(char),
    /// escaped character
    E(char),
}
fn lex(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let word = |x: char| x.is_alphanumeric() || x == '_' || ('\u{300}'..'\u{370}').contains(&x);
    let (mut i, mut v) = (0, vec![]);
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '\\' {
            while i < c.len() && c[i] == '\\' {
                i += 1;
            }
            let j = i;
            while i < c.len() && c[i].is_ascii_alphabetic() {
                i += 1;
            }
            let name: String = c[j..i].iter().collect();
            if name.is_empty() {
                if i < c.len() {
                    v.push(Tok::E(c[i]));
                    i += 1;
                }
            } else if name != "left" && name != "right" {
                v.push(Tok::Cmd(name));
            }
        } else if word(c[i]) {
            let j = i;
            while i < c.len() && (word(c[i]) || (c[i] == '.' && c[j].is_ascii_digit())) {
                i += 1;
            }
            v.push(Tok::Word(c[j..i].iter().collect()));
        } else {
            v.push(Tok::P(c[i]));
            i += 1;
        }
    }
    v
}
struct Match<'a> {
    t: &'a [Tok],
    i: usize,
}
type R = Result<(), String>;
impl Match<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, x: Tok) -> R {
        if self.peek() == Some(&x) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {x:?}, found {:?}", self.peek()))
        }
    }
    fn skip(&mut self, x: Tok) -> bool {
        let hit = self.peek() == Some(&x);
        self.i += hit as usize;
        hit
    }
    fn skip_all(&mut self, s: &str) -> bool {
        let s: Vec<Tok> = s.chars().map(Tok::P).collect();
        let hit = self.t[self.i..].starts_with(&s);
        self.i += if hit { s.len() } else { 0 };
        hit
    }
    fn leaf(&mut self, n: &N) -> R {
        match n {
            N::Int(s) | N::Dec(s) | N::Sym(s) => self.eat(Tok::Word(s.clone())),
            N::Bool(b) => {
                let w = Tok::Word(b.to_string());
                if self.skip(Tok::Cmd("mathtt".into())) {
                    self.eat(Tok::P('{'))?;
                    self.eat(w)?;
                    self.eat(Tok::P('}'))
                } else {
                    self.eat(w)
                }
            }
            N::Str(s) => {
                self.eat(Tok::Cmd("text".into()))?;
                self.eat(Tok::P('{'))?;
                self.eat(Tok::Word(s.clone()))?;
                self.eat(Tok::P('}'))
            }
            x => Err(format!("not a leaf: {x:?}")),
        }
    }
    fn is_infix(n: &N) -> bool {
        matches!(n, N::Fn(f, _) if f.starts_with("std::infix::"))
    }
    /// operands in order, with the operator between them; brackets may be anywhere
    fn infix(&mut self, n: &N, open: &mut usize) -> R {
        match n {
            N::Fn(f, gs) if Self::is_infix(n) => {
                let name = last_name(f).to_string();
                let sign = match name.as_str() {
                    "add" => "+",
                    "subtract" => "-",
                    "times" => "*",
                    "divide" => "/",
                    "quotient" => "//",
                    "power" => "^",
                    x => x,
                };
                for (k, a) in gs[0].args.iter().enumerate() {
                    if k > 0 {
                        self.brackets(open, ')');
                        let there = self.skip_all(sign) || self.skip(Tok::Word(name.clone())) || matches!(self.peek(), Some(Tok::Cmd(_)));
                        if matches!(self.peek(), Some(Tok::Cmd(c)) if c != "mathtt" && c != "text") {
                            self.i += 1;
                        }
                        if !there && name != "times" && name != "×" {
                            return Err(format!("expected the operator {name}, found {:?}", self.peek()));
                        }
                    }
                    self.brackets(open, '(');
                    self.infix(a, open)?;
                }
                Ok(())
            }
            x => self.leaf(x),
        }
    }
    fn brackets(&mut self, open: &mut usize, which: char) {
        while (which == '(' || *open > 0) && self.skip(Tok::P(which)) {
            if which == '(' { *open += 1 } else { *open -= 1 }
        }
    }
    fn list(&mut self, v: &[N], a: Tok, b: Tok) -> R {
        self.eat(a)?;
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.eat(Tok::P(','))?;
            }
            self.expr(x)?;
        }
        self.eat(b)
    }
    fn expr(&mut self, n: &N) -> R {
        if Self::is_infix(n) {
            let mut open = 0;
            self.infix(n, &mut open)?;
            self.brackets(&mut open, ')');
            return if open == 0 { Ok(()) } else { Err("unbalanced brackets".into()) };
        }
        let N::Fn(f, gs) = n else { return self.leaf(n) };
        if f == "std::containers::List" {
            return self.list(&gs[0].args, Tok::E('{'), Tok::E('}'));
        }
        let trig = NAMED.contains(&f.as_str()) || OPERATOR.contains(&f.as_str());
        if NAMED.contains(&f.as_str()) {
            self.eat(Tok::Cmd(f.clone()))?;
        } else {
            self.eat(Tok::Cmd("operatorname".into()))?;
            self.eat(Tok::P('{'))?;
            self.eat(Tok::Word(f.clone()))?;
            self.eat(Tok::P('}'))?;
        }
        for (i, g) in gs.iter().enumerate() {
            match g.args.as_slice() {
                [x] if trig && i == 0 && !Self::is_infix(x) => self.expr(x)?,
                v => self.list(v, Tok::P('('), Tok::P(')'))?,
            }
        }
        Ok(())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shown {
    m: M,
}
pub struct Tex;
impl Prop for Tex {
    type Case = Shown;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "random expressions of numbers, words, symbols, infix operators (operands: literals, symbols, infix), juxtapositions, lists (also empty) and calls of the 18 trigonometric functions and of other functions with 0-3 arguments and 1-2 groups, nested; oracle: a matcher that reads the TeX against the generator's own tree. Non-trivial: at least two constructs"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 4_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Shown> {
        let x = || M::Sym("x".into());
        let arg = |m: M| lang::Arg { key: None, val: m };
        let mut v = vec![];
        for f in NAMED.iter().chain(&OPERATOR).chain(&["f", "sinh", "factor", "List", "Sin"]) {
            let call = |gs: Vec<Vec<lang::Arg>>| M::Call(f.to_string(), gs);
            let sum = || M::Inf("+".into(), Box::new(x()), Box::new(M::Int("1".into())));
            let args = vec![
                x(),
                sum(),
                M::Paren(Box::new(x())),
                M::List(vec![]),
                M::List(vec![x(), sum()]),
                M::Juxt(vec![M::Int("2".into()), x()]),
                M::Int("12".into()),
                M::Dec("1.50".into()),
                M::Bool(true),
                M::Call("g".into(), vec![vec![]]),
                M::Call("sin".into(), vec![vec![arg(sum())]]),
            ];
            if *f == "List" {
                continue;
            }
            v.push(call(vec![vec![]]));
            for a in &args {
                v.push(call(vec![vec![arg(a.clone())]]));
                v.push(call(vec![vec![arg(a.clone())], vec![arg(x())]]));
                for b in &args {
                    v.push(call(vec![vec![arg(a.clone()), arg(b.clone())]]));
                }
            }
        }
        v.push(M::List(vec![]));
        v.push(M::List(vec![M::List(vec![])]));
        let plain = Cfg { infix: lang::EVERY, prefix: &[], suffix: &[], dot: false, options: false, index: false, strings: false, slots: false, paths: false, parens: false, ..Cfg::FULL };
        // operands of operators are literals, symbols and operators
        let simple = |m: &M| matches!(m, M::Int(_) | M::Dec(_) | M::Byte(_) | M::Bool(_) | M::Sym(_) | M::Inf(..));
        v.extend(lang::huge(plain).into_iter().filter(|m| !m.any(|x| matches!(x, M::Null) || matches!(x, M::Inf(_, l, r) if !simple(l) || !simple(r)) || matches!(x, M::Juxt(v) if !v.iter().all(simple)))));
        for n in lang::sizes(300) {
            for f in ["sin", "arcsinh", "g"] {
                v.push(M::Call(f.into(), vec![(0..n).map(|i| arg(M::Sym(format!("a{i}")))).collect()]));
                v.push((0..n).fold(x(), |a, _| M::Call(f.into(), vec![vec![arg(a)]])));
                v.push(M::Call(f.into(), vec![vec![arg(x())]; n]));
            }
        }
        v.into_iter().map(|m| Shown { m }).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Shown> {
        let leaf = || prop_oneof![4 => lang::integer().prop_map(M::Int), 2 => lang::decimal().prop_map(M::Dec), 5 => lang::name().prop_map(M::Sym), 1 => any::<bool>().prop_map(M::Bool)].boxed();
        let plain = prop_oneof![3 => lang::integer().prop_map(M::Int), 1 => lang::decimal().prop_map(M::Dec), 3 => lang::name().prop_map(M::Sym)];
        let juxt = proptest::collection::vec(plain, 2..5).prop_map(M::Juxt);
        let arith = || lang::bushy(prop_oneof![5 => leaf(), 1 => juxt.clone()].boxed(), lang::EVERY, &[], &[], 7);
        let text = "[a-z]{1,4}".prop_map(M::Str);
        let base = prop_oneof![3 => leaf(), 3 => arith(), 1 => text, 1 => juxt.clone()];
        let tree = base.prop_recursive(4, 30, 4, move |inner| {
            let names = prop_oneof![4 => proptest::sample::select(&NAMED[..]).prop_map(String::from), 2 => proptest::sample::select(&OPERATOR[..]).prop_map(String::from), 3 => lang::name(), 1 => proptest::sample::select(vec!["sinh", "sinx", "arc", "arcsinhh"]).prop_map(String::from)];
            let group = proptest::collection::vec(inner.clone().prop_map(|m| lang::Arg { key: None, val: m }), 0..4);
            let one = proptest::collection::vec(inner.clone().prop_map(|m| lang::Arg { key: None, val: m }), 1..2);
            let groups = prop_oneof![3 => one.prop_map(|g| vec![g]), 4 => group.clone().prop_map(|g| vec![g]), 1 => proptest::collection::vec(group, 2..4)];
            prop_oneof![
                4 => (names, groups).prop_map(|(f, g)| M::Call(f, g)),
                1 => proptest::collection::vec(inner.clone(), 0..4).prop_map(M::List),
            ]
        });
        // a call of List is a list, and an operand may not look like the word for an operator
        tree.prop_map(|m| Shown { m: ["List", "add", "subtract", "times", "divide", "power"].iter().fold(m, |m, w| m.without(w)) }).boxed()
    }
    fn check(&self, c: &Shown, o: &mut Obs) -> Check {
        let r = compact(&c.m);
        let n = c.m.count(|m| matches!(m, M::Call(..) | M::Juxt(..) | M::List(..) | M::Inf(..)));
        o.trivial_if(n < 2);
        let trig = |f: &String| NAMED.contains(&f.as_str()) || OPERATOR.contains(&f.as_str());
        o.label_if(c.m.any(|m| matches!(m, M::Call(f, g) if trig(f) && g[0].len() == 1)), "trigonometric function of one argument");
        o.label_if(c.m.any(|m| matches!(m, M::Call(f, g) if trig(f) && g[0].len() > 1)), "trigonometric function of several arguments");
        o.label_if(c.m.any(|m| matches!(m, M::Call(f, _) if !trig(f))), "other function");
        o.label_if(c.m.any(|m| matches!(m, M::List(v) if v.is_empty())), "empty list");
        o.label_if(c.m.any(|m| matches!(m, M::Inf(..))), "infix");
        let ast: AST = accepted(&r.text)?;
        let tex = no_panic(&format!("TeX of {:?}", r.text), || ast.to_tex())?;
        let toks = lex(&tex);
        let want = named(r.expect).strip();
        let mut m = Match { t: &toks, i: 0 };
        if let Err(e) = m.expr(&want) {
            return fail(format!("{:?} has the TeX form {tex:?}: {e}", r.text));
        }
        ensure!(m.i == toks.len(), "{:?} has the TeX form {tex:?}, which goes on with {:?}", r.text, toks[m.i]);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("trigonometric function of one argument", 10_000), ("trigonometric function of several arguments", 5000), ("other function", 5000), ("empty list", 1000), ("infix", 20_000)]
    }
}
