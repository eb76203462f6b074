//! C31-C33: chains of operators, sequences of statements, names.
use crate::norm::*;
use crate::output;
use crate::shape::moderate;
use pbt::lang::{self, render, Cfg, M, N};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, no_panic, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::{Runner, SMError, ToTex, ToWolfram, AST};
use std::sync::OnceLock;

// ------------------------------------------------------------------------------------------------ C31
/// from the weakest to the strongest
const LEVELS: [(&[&str], bool); 10] = [
    (&["="], true),
    (&[">", ">=", "=="], false),
    (&["+", "-"], false),
    (&["*", "×"], false),
    (&["⋅"], false),
    (&["⊗"], false),
    (&["/", "÷", "%", "//"], false),
    (&["⊙"], false),
    (&["^"], true),
    (&["."], false),
];
const ALL: [&str; 17] = ["=", ">", ">=", "==", "+", "-", "*", "×", "⋅", "⊗", "/", "÷", "%", "//", "⊙", "^", "."];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    /// number of a leaf: a symbol when even, an integer when odd
    Leaf(u8),
    Group(Box<Row>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Term {
    pre: Vec<u8>,
    item: Item,
    suf: Vec<u8>,
}
/// terms joined by operators, nothing said about their grouping
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Row {
    terms: Vec<Term>,
    ops: Vec<u8>,
    spaces: bool,
}
fn op(b: u8) -> &'static str {
    ALL[b as usize % ALL.len()]
}
fn prefix(b: u8) -> &'static str {
    lang::PREFIX[b as usize % lang::PREFIX.len()]
}
impl Row {
    /// after a dot only names and integers
    fn tidy(&mut self) {
        for i in 0..self.ops.len() {
            if op(self.ops[i]) == "." {
                let t = &mut self.terms[i + 1];
                t.pre.clear();
                t.suf.clear();
                if let Item::Group(_) = t.item {
                    t.item = Item::Leaf(0);
                }
            }
        }
        for t in &mut self.terms {
            if let Item::Group(r) = &mut t.item {
                r.tidy();
            }
        }
    }
    fn write(&self, out: &mut String) {
        for (i, t) in self.terms.iter().enumerate() {
            if i > 0 {
                let o = op(self.ops[i - 1]);
                // 1.2 would be a decimal; `//*` and `//!` begin comments
                let gap = if self.spaces || o == "." || o == "//" { " " } else { "" };
                out.push_str(gap);
                out.push_str(o);
                out.push_str(gap);
            }
            t.pre.iter().for_each(|p| out.push_str(prefix(*p)));
            match &t.item {
                Item::Leaf(k) => out.push_str(&leaf(*k).0),
                Item::Group(r) => {
                    out.push('(');
                    r.write(out);
                    out.push(')');
                }
            }
            // adjacent marks are read together: only one of them
            if let Some(s) = t.suf.first() {
                out.push_str(lang::SUFFIX[*s as usize % 2]);
            }
        }
    }
    fn meaning(&self, from: usize, to: usize) -> N {
        if from == to {
            let t = &self.terms[from];
            let mut n = match &t.item {
                Item::Leaf(k) => leaf(*k).1,
                Item::Group(r) => r.meaning(0, r.ops.len()),
            };
            if let Some(s) = t.suf.first() {
                n = N::call(&lang::suffix_name(lang::SUFFIX[*s as usize % 2]), vec![n]);
            }
            for p in t.pre.iter().rev() {
                n = N::call(&lang::prefix_name(prefix(*p)), vec![n]);
            }
            return n;
        }
        // cut at the weakest operator: the last of them, or the first if they group to the right
        for (ops, right) in LEVELS {
            let mut here = (from..to).filter(|i| ops.contains(&op(self.ops[*i])));
            let cut = if right { here.next() } else { here.last() };
            if let Some(i) = cut {
                let (l, r) = (self.meaning(from, i), self.meaning(i + 1, to));
                return match (op(self.ops[i]), r) {
                    (".", N::Sym(f)) => N::call(&f, vec![l]),
                    (".", r) => N::call("std::core::index", vec![l, r]),
                    (o, r) => N::call(&lang::infix_name(o), vec![l, r]),
                };
            }
        }
        unreachable!()
    }
    fn count(&self) -> usize {
        self.ops.len() + self.terms.iter().map(|t| if let Item::Group(r) = &t.item { r.count() } else { 0 }).sum::<usize>()
    }
    fn grouped(&self) -> bool {
        self.terms.iter().any(|t| matches!(t.item, Item::Group(_)))
    }
}
fn leaf(k: u8) -> (String, N) {
    if k % 2 == 0 {
        let s = format!("{}{}", ["a", "b", "x", "foo", "变"][k as usize / 2 % 5], k / 10);
        (s.clone(), N::Sym(s))
    } else {
        (k.to_string(), N::Int(k.to_string()))
    }
}
pub struct Order;
impl Prop for Order {
    type Case = Row;
    fn id(&self) -> &'static str {
        "C31"
    }
    fn rule(&self) -> &'static str {
        "every chain of one, two and three (thorough: four) of the 17 infix operators, over symbols and integers, plain and with each pair in brackets; random chains of up to 40 terms with prefixes, suffixes and nested bracketed chains; oracle: the text is cut at its weakest operator, the last one of equals or the first one for ^ and =. Non-trivial: at least two operators of different spelling"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(750_000, 8_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Row> {
        let n = ALL.len() as u8;
        let plain = |k: u8| Term { pre: vec![], item: Item::Leaf(k), suf: vec![] };
        let row = |ops: Vec<u8>| {
            let mut r = Row { terms: (0..=ops.len()).map(|k| plain((k % 250) as u8 + 2)).collect(), ops, spaces: false };
            r.tidy();
            r
        };
        let mut v = vec![];
        let mut rows: Vec<Vec<u8>> = vec![vec![]];
        for len in 1..=t.pick(3, 4) {
            rows = rows.into_iter().flat_map(|r| (0..n).map(move |o| [r.clone(), vec![o]].concat())).collect();
            for ops in &rows {
                v.push(row(ops.clone()));
                for k in 0..len as usize {
                    // brackets around operator k
                    if len > 1 && len < 4 && (k == 0 || op(ops[k - 1]) != ".") {
                        let mut r = row(ops.clone());
                        let inner = Row { terms: r.terms[k..k + 2].to_vec(), ops: vec![ops[k]], spaces: false };
                        r.terms.splice(k..k + 2, [Term { pre: vec![], item: Item::Group(Box::new(inner)), suf: vec![] }]);
                        r.ops.remove(k);
                        v.push(r);
                    }
                }
            }
        }
        for a in 0..n {
            for b in 0..n {
                for len in [5usize, 8, 17, 40] {
                    v.push(row((0..len).map(|i| if i % 2 == 0 { a } else { b }).collect()));
                    v.push(row((0..len).map(|i| if i < len / 2 { a } else { b }).collect()));
                }
            }
            for len in lang::sizes(600) {
                let b = (a as usize * 7 + len) as u8 % n;
                v.push(row((0..len).map(|i| if i % 3 == 0 { a } else { b }).collect()));
                v.push(row(vec![a; len]));
            }
            for p in 0..lang::PREFIX.len() as u8 {
                for s in 0..2 {
                    for at in 0..2 {
                        let mut r = row(vec![a]);
                        r.terms[at].pre.push(p);
                        r.terms[at].suf.push(s);
                        r.tidy();
                        v.push(r);
                    }
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Row> {
        fn row(term: BoxedStrategy<Term>, most: usize) -> BoxedStrategy<Row> {
            let few = proptest::collection::vec(any::<u8>(), 1..4);
            // all operators, or a few of them again and again
            let ops = prop_oneof![2 => proptest::collection::vec(any::<u8>(), 1..most), 1 => (few, proptest::collection::vec(any::<u8>(), 1..most)).prop_map(|(f, v)| v.into_iter().map(|i| f[i as usize % f.len()]).collect())];
            (ops, proptest::collection::vec(term, most), any::<bool>())
                .prop_map(|(ops, mut terms, spaces)| {
                    terms.truncate(ops.len() + 1);
                    let mut r = Row { terms, ops, spaces };
                    r.tidy();
                    r
                })
                .boxed()
        }
        fn term(item: BoxedStrategy<Item>) -> BoxedStrategy<Term> {
            let pre = prop_oneof![5 => Just(vec![]), 1 => proptest::collection::vec(0u8..5, 1..3)];
            let suf = prop_oneof![6 => Just(vec![]), 1 => (0u8..2).prop_map(|s| vec![s])];
            (pre, item, suf).prop_map(|(pre, item, suf)| Term { pre, item, suf }).boxed()
        }
        let leaf = || any::<u8>().prop_map(Item::Leaf).boxed();
        let nested = |inner: BoxedStrategy<Row>| term(prop_oneof![5 => leaf(), 1 => inner.prop_map(|r| Item::Group(Box::new(r)))].boxed());
        let two = nested(row(nested(row(term(leaf()), 4)), 4));
        prop_oneof![6 => row(two.clone(), 8), 1 => row(two, 40)].boxed()
    }
    fn check(&self, c: &Row, o: &mut Obs) -> Check {
        let mut text = String::new();
        c.write(&mut text);
        let mut kinds: Vec<&str> = c.ops.iter().map(|b| op(*b)).collect();
        kinds.sort();
        kinds.dedup();
        o.trivial_if(kinds.len() < 2 && !c.grouped());
        o.label_if(c.grouped(), "brackets");
        o.label_if(c.count() >= 8, "eight or more operators");
        for k in kinds {
            o.label(ALL[ALL.iter().position(|x| *x == k).unwrap()]);
        }
        let got = shape(&accepted(&text)?);
        let want = named(c.meaning(0, c.ops.len()));
        ensure!(got == want, "{text:?} is grouped as {}, expected {}", show(&got), show(&want));
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        let mut v: Vec<(&'static str, u64)> = ALL.iter().map(|o| (*o, 10_000)).collect();
        v.extend([("brackets", 20_000), ("eight or more operators", 10_000)]);
        v
    }
}

// ------------------------------------------------------------------------------------------------ C32
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Stmt {
    Expr(M, Vec<u8>),
    /// a statement without an expression form
    Form(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sequence {
    stmts: Vec<Stmt>,
    /// what is written before, between and after the statements
    gaps: Vec<u8>,
}
const ENDS: [&str; 14] = [";", ";\n", "；", ";;", " ; ", "\n", "\r\n", ";\r\n\t", "\r", ";; ;\n;", "\n\n", " /// done\n", "; %%% a; b %%%\n", "\n//? x; y\n"];
const AROUND: [&str; 10] = ["", "", "", "\n", ";", ";;", " ", "/// first; second\n", "%%% 1; 2 %%%", "\r\n;；\n"];
const FORMS: [&str; 24] = [
    "using a", "using a.b", "using \"x\" as y", "using .a::{b, c}", "if x {1}", "if (x) {1, 2}", "if x then {1} else {2}", "if x then {1} else {2} otherwise {3}", "for i in x {i}", "return 1", "break", "pass", "class A", "class A {let x = 1}",
    "trait A", "trait T {def f(x) = x}", "extends A {}", "extends A with T {}", "let x", "let x = 1", "let (a, b) = f(x)", "def f() = 1", "def f(x, y: T = 2): T {x; y}", "@a(1) x",
];
fn leading_operator(text: &str) -> bool {
    text.starts_with(['+', '-', '*'])
}
impl Sequence {
    /// the text, and the statements in it with positions
    fn write(&self) -> (String, Vec<N>) {
        let gap = |i: usize| self.gaps.get(i % self.gaps.len().max(1)).copied().unwrap_or(0) as usize;
        let mut text = AROUND[gap(0) % AROUND.len()].to_string();
        let mut want = vec![];
        for (i, s) in self.stmts.iter().enumerate() {
            let start = text.len();
            let mut next = String::new();
            let mut r = None;
            match s {
                Stmt::Form(f) => next.push_str(f),
                Stmt::Expr(m, layout) => {
                    let x = render(m, layout, layout, "f", "", true);
                    next = x.text;
                    r = Some((m, layout));
                }
            }
            if i > 0 {
                let mut end = ENDS[gap(i) % ENDS.len()];
                if leading_operator(&next) && !end.contains([';', '；']) || leading_operator(&next) && (end.contains("///") || end.contains("//?")) {
                    end = ";\n";
                }
                text.push_str(end);
            }
            match r {
                None => text.push_str(&next),
                Some((m, layout)) => {
                    let x = render(m, layout, layout, "f", &text, true);
                    text = x.text;
                    want.push(x.expect);
                }
            }
            debug_assert!(text.len() >= start);
        }
        text.push_str(AROUND[gap(self.stmts.len()) % AROUND.len()]);
        (text, want)
    }
}
pub struct Statements;
impl Prop for Statements {
    type Case = Sequence;
    fn id(&self) -> &'static str {
        "C32"
    }
    fn rule(&self) -> &'static str {
        "none to 60 expressions over the whole language, laid out freely, ended by ; ； ;; , line breaks of every kind or comments, with empty statements and comments around, one in seven with one of 24 statements without an expression form at any place; oracle: exactly these expressions in order, each with the positions of its own functions; the Wolfram form holds one part per expression, the TeX form the parts in order, the printed form reads back as the same sequence; with a statement that has no expression form the text is refused as a whole, by the session too. Non-trivial: at least two statements"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(360_000, 3_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Sequence> {
        let sym = |s: &str| Stmt::Expr(M::Sym(s.into()), vec![]);
        let int = |n: usize| Stmt::Expr(M::Int(n.to_string()), vec![]);
        let mut v = vec![];
        for a in 0..AROUND.len() as u8 {
            v.push(Sequence { stmts: vec![], gaps: vec![a] });
            for b in 0..ENDS.len() as u8 {
                v.push(Sequence { stmts: vec![sym("a")], gaps: vec![a, b] });
                v.push(Sequence { stmts: vec![sym("a"), sym("b")], gaps: vec![a, b, a] });
                v.push(Sequence { stmts: vec![int(1), int(2), sym("c")], gaps: vec![a, b, b, 0] });
            }
        }
        for f in FORMS {
            for b in 0..ENDS.len() as u8 {
                let f = || Stmt::Form(f.into());
                v.push(Sequence { stmts: vec![f()], gaps: vec![0, b] });
                v.push(Sequence { stmts: vec![f(), sym("a")], gaps: vec![0, b, 0] });
                v.push(Sequence { stmts: vec![sym("a"), f()], gaps: vec![0, b, 0] });
                v.push(Sequence { stmts: vec![sym("a"), f(), int(7)], gaps: vec![0, b, b, 0] });
                v.push(Sequence { stmts: vec![f(), f()], gaps: vec![0, b, 0] });
            }
        }
        for n in 2..70 {
            for b in [0u8, 5] {
                let mut gaps = vec![b; n + 1];
                gaps[0] = 0;
                v.push(Sequence { stmts: (0..n).map(int).collect(), gaps: gaps.clone() });
                v.push(Sequence { stmts: (0..n).map(|_| int(1)).collect(), gaps });
            }
        }
        for n in lang::sizes(2100) {
            for (k, gap) in [0u8, 5, 2].into_iter().enumerate() {
                let gaps = vec![0, gap];
                let call = |i: usize| Stmt::Expr(M::Call(format!("f{i}"), vec![vec![lang::Arg { key: None, val: M::Int(i.to_string()) }]]), vec![]);
                let all: Vec<Stmt> = (0..n).map(|i| if (i + k) % 2 == 0 { int(i) } else if i % 7 == 0 && n < 600 { call(i) } else { sym(&format!("a{i}")) }).collect();
                if n < 600 {
                    for at in [0, n / 2, n] {
                        let mut with = all.clone();
                        with.insert(at, Stmt::Form(FORMS[n % FORMS.len()].into()));
                        v.push(Sequence { stmts: with, gaps: gaps.clone() });
                    }
                }
                v.push(Sequence { stmts: all, gaps });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Sequence> {
        let whole = (lang::expression(Cfg { depth: 3, size: 14, ..Cfg::FULL }).prop_filter("nesting", moderate), lang::layout()).prop_map(|(m, l)| Stmt::Expr(m, l));
        let plain = (lang::expression(Cfg { depth: 3, size: 10, ..output::C20 }), prop_oneof![3 => Just(vec![]), 1 => lang::layout()]).prop_map(|(m, l)| Stmt::Expr(m, l));
        let small = lang::leaf(Cfg { strings: false, slots: false, ..Cfg::FULL }).prop_map(|m| Stmt::Expr(m, vec![]));
        let gaps = || proptest::collection::vec(any::<u8>(), 1..12);
        let many = prop_oneof![8 => 0usize..5, 1 => 5usize..20];
        let mixed = many.prop_flat_map(move |n| proptest::collection::vec(whole.clone(), n));
        let printable = (1usize..6).prop_flat_map(move |n| proptest::collection::vec(plain.clone(), n));
        let long = prop_oneof![3 => 2usize..60, 1 => pbt::dict::size(60)].prop_flat_map(move |n| proptest::collection::vec(small.clone(), n));
        let stmts = prop_oneof![3 => mixed, 2 => printable, 1 => long];
        let form = proptest::option::weighted(0.15, (any::<u16>(), proptest::sample::select(&FORMS[..])));
        (stmts, gaps(), form)
            .prop_map(|(mut stmts, gaps, form)| {
                if let Some((k, f)) = form {
                    stmts.insert(k as usize % (stmts.len() + 1), Stmt::Form(f.into()));
                }
                Sequence { stmts, gaps }
            })
            .boxed()
    }
    fn check(&self, c: &Sequence, o: &mut Obs) -> Check {
        let (text, parts) = c.write();
        o.trivial_if(c.stmts.len() < 2);
        let forms = c.stmts.len() - parts.len();
        let got = parse_in("f", &text)?;
        if forms > 0 {
            o.label("without an expression form");
            return match got {
                Ok(a) => fail(format!("{text:?} holds a statement without an expression form, but parses to {}", show(&shape(&a)))),
                Err(_) => {
                    let mut r = Runner::default();
                    match no_panic(&format!("evaluating {text:?}"), || r.evaluate(&text))? {
                        Ok(v) => fail(format!("{text:?} holds a statement without an expression form, but evaluates to {v:?}")),
                        Err(_) => Ok(()),
                    }
                }
            };
        }
        let ast = match got {
            Ok(a) => a,
            Err(e) => return fail(format!("{text:?} is refused: {e:?}")),
        };
        o.label(match parts.len() {
            0 => "no statement",
            1 => "one statement",
            2..=5 => "two to five statements",
            _ => "six or more statements",
        });
        o.label_if(text.contains('\n') && !text.contains([';', '；']), "line breaks only");
        let want = named(match parts.len() {
            0 => N::Empty,
            1 => parts[0].clone(),
            _ => N::Program(parts.clone()),
        });
        let seen = norm(&ast);
        ensure!(seen == want, "{text:?} parses wrongly: {}", diff(&seen, &want));
        // each statement is what it is alone
        let AST::Program(v) = &ast else { return Ok(()) };
        // the constructs C22 covers
        let single = |m: &M| !m.any(|x| !matches!(x, M::Int(_) | M::Dec(_) | M::Byte(_) | M::Bool(_) | M::Sym(_) | M::Inf(..) | M::Paren(_)));
        let tex_ok = |m: &M| {
            !m.any(|x| !matches!(x, M::Int(_) | M::Dec(_) | M::Byte(_) | M::Bool(_) | M::Sym(_) | M::Str(_) | M::Inf(..) | M::Paren(_) | M::Call(..) | M::List(_)))
                && !m.any(|x| matches!(x, M::Inf(_, l, r) if !single(l) || !single(r)))
        };
        let models: Vec<&M> = c.stmts.iter().filter_map(|s| if let Stmt::Expr(m, _) = s { Some(m) } else { None }).collect();
        let w = no_panic(&format!("exporting {text:?}"), || (output::seen(&ast.to_wolfram()), v.iter().map(|a| output::seen(&a.to_wolfram())).collect::<Vec<_>>()))?;
        ensure!(w.0 == output::compound(w.1.clone()), "the Wolfram form of {text:?} is {:?}", w.0);
        if models.iter().all(|m| output::one_order(m)) {
            output::same_forms(&text, &ast)?;
        }
        if models.iter().all(|m| tex_ok(m)) {
            o.label("TeX");
            let (all, each) = no_panic(&format!("TeX of {text:?}"), || (ast.to_tex(), v.iter().map(|a| a.to_tex()).collect::<Vec<_>>()))?;
            let mut rest = all.as_str();
            for e in &each {
                match rest.find(e.as_str()) {
                    Some(k) => rest = &rest[k + e.len()..],
                    None => return fail(format!("the TeX form of {text:?} is {all:?}, which lacks {e:?} in its place")),
                }
            }
        }
        let plain = |m: &M| !m.any(|x| matches!(x, M::Str(_) | M::Block(..) | M::Slot(_) | M::Repl(_) | M::Dot(..) | M::Index(..) | M::Call(..) | M::List(_)));
        if models.iter().all(|m| plain(m)) {
            o.label("printed");
            let printed = no_panic(&format!("printing {text:?}"), || ast.to_string())?;
            match parse(&printed)? {
                Err(e) => return fail(format!("{text:?} prints as {printed:?}, which is refused: {e:?}")),
                Ok(x) => {
                    let (a, b) = (output::flat(shape(&x)), output::flat(shape(&ast)));
                    ensure!(a == b, "{text:?} prints as {printed:?}, which means something else: {}", diff(&a, &b));
                }
            }
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("without an expression form", 8000), ("no statement", 100), ("one statement", 5000), ("two to five statements", 20_000), ("six or more statements", 10_000), ("line breaks only", 5000), ("TeX", 5000), ("printed", 10_000)]
    }
}

// ------------------------------------------------------------------------------------------------ C33
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Names {
    Path {
        parts: Vec<String>,
        /// written with ∷
        wide: Vec<bool>,
        place: u8,
    },
    /// every character of a block of 256, alone and after a letter
    Block(u32),
}
/// keywords which begin a statement
const STARTERS: [&str; 11] = ["using", "class", "trait", "extends", "if", "for", "return", "break", "pass", "let", "def"];
fn characters() -> &'static (Vec<bool>, Vec<bool>) {
    static C: OnceLock<(Vec<bool>, Vec<bool>)> = OnceLock::new();
    C.get_or_init(|| {
        // old enough for every Unicode table around
        let set = |class: &str| {
            let mut v = vec![false; 0x110000];
            let h = regex_syntax::parse(&format!("[{class}&&\\p{{Age:9.0}}]")).expect("class");
            let regex_syntax::hir::HirKind::Class(regex_syntax::hir::Class::Unicode(c)) = h.kind() else { panic!("class") };
            for r in c.ranges() {
                for x in r.start()..=r.end() {
                    v[x as usize] = true;
                }
            }
            v
        };
        (set("\\p{XID_Start}"), set("\\p{XID_Continue}"))
    })
}
const PLACES: [(&str, bool); 27] = [
    // the second field: the name begins the statement
    ("@", true),
    ("@ + 1", true),
    ("1 + @", false),
    ("@(1)", true),
    ("x.@", false),
    ("x.@(2)", false),
    ("[@, 2]", false),
    ("x[@]", false),
    ("f(@)", false),
    ("2 @", false),
    ("@!", true),
    ("-@", false),
    ("@[1]", true),
    ("(@)", false),
    ("x; @", true),
    ("x\n@", true),
    ("@ = 1", true),
    ("@ (1)", true),
    ("@ x", true),
    ("x @", false),
    ("@.f", true),
    ("x // @", false),
    ("@(@: @)", true),
    ("x[@:@]", false),
    ("#@", false),
    ("f(1, @: 2)", false),
    ("3@", false),
];
pub struct Naming;
impl Prop for Naming {
    type Case = Names;
    fn id(&self) -> &'static str {
        "C33"
    }
    fn rule(&self) -> &'static str {
        "every character of Unicode 9 that may begin or continue a name; names made of keywords with something before or after, digits, underscores, letters and marks of every script, up to 300 characters, in paths of up to 8 parts joined by :: or ∷, at 27 places (alone, operand, function, method, option key, slot, list, index, juxtaposed, at the start of a statement, ...); the bare keywords where no statement begins; oracle: the expression with exactly that name; building the symbol from its text, printing it and evaluating it keep it. Non-trivial: a name with a keyword in it, several parts, or a non-ASCII character"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_000_000, 6_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Names> {
        let mut v: Vec<Names> = (0..0x1100).map(Names::Block).collect();
        for k in lang::KEYWORDS {
            for tail in ["", "s", "_", "1", "x", "变", "if", "def", "true"] {
                for head in ["", "a", "_"] {
                    for place in 0..PLACES.len() as u8 {
                        v.push(Names::Path { parts: vec![format!("{head}{k}{tail}")], wide: vec![], place });
                        v.push(Names::Path { parts: vec![format!("{k}{tail}"), "b".into()], wide: vec![place % 2 == 0], place });
                        v.push(Names::Path { parts: vec!["b".into(), format!("{k}{tail}")], wide: vec![place % 2 == 0], place });
                    }
                }
            }
        }
        for n in lang::sizes(5000).into_iter().chain([65_535, 65_536, 65_537, 70_000]) {
            for place in 0..PLACES.len() as u8 {
                for u in ["a", "é", "变", "if"] {
                    if n < 5000 || place as usize % 4 == u.len() - 1 {
                        v.push(Names::Path { parts: vec![format!("{}z", u.repeat(n / u.chars().count()))], wide: vec![], place });
                    }
                }
                if n < 1100 {
                    v.push(Names::Path { parts: (0..n).map(|i| format!("p{i}")).collect(), wide: (0..n).map(|i| i % 3 == place as usize % 3).collect(), place });
                }
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Names> {
        let (start, more) = characters();
        let list = |v: &[bool]| v.iter().enumerate().filter(|x| *x.1).filter_map(|x| char::from_u32(x.0 as u32)).collect::<Vec<char>>();
        let (start, more) = (list(start), list(more));
        let ascii: Vec<char> = more.iter().copied().filter(char::is_ascii).collect();
        let any_more = prop_oneof![3 => proptest::sample::select(ascii), 1 => proptest::sample::select(more)].boxed();
        let len = prop_oneof![10 => 0usize..6, 2 => 6usize..40, 1 => 40usize..300, 1 => pbt::dict::size(300)];
        let m = any_more.clone();
        let free = (proptest::sample::select(start), len.prop_flat_map(move |n| proptest::collection::vec(m.clone(), n))).prop_map(|(a, v)| std::iter::once(a).chain(v).collect::<String>());
        let m = any_more.clone();
        let lined = proptest::collection::vec(m, 1..6).prop_map(|v| format!("_{}", String::from_iter(v)));
        let keyed = (proptest::sample::select(&lang::KEYWORDS[..]), proptest::collection::vec(any_more, 0..5), proptest::option::of(proptest::sample::select(&lang::KEYWORDS[..])))
            .prop_map(|(k, v, l)| format!("{k}{}{}", String::from_iter(v), l.unwrap_or("")));
        let one = prop_oneof![3 => free, 1 => lined, 4 => keyed, 4 => lang::name()].boxed();
        let parts = prop_oneof![4 => 1usize..2, 2 => 2usize..4, 1 => 4usize..9].prop_flat_map(move |n| proptest::collection::vec(one.clone(), n));
        (parts, proptest::collection::vec(any::<bool>(), 8), any::<u8>()).prop_map(|(parts, wide, place)| Names::Path { parts, wide, place }).boxed()
    }
    fn check(&self, c: &Names, o: &mut Obs) -> Check {
        let (parts, wide, place) = match c {
            Names::Block(b) => {
                o.label("characters");
                let (start, more) = characters();
                for x in b * 256..(b + 1) * 256 {
                    let Some(ch) = char::from_u32(x) else { continue };
                    if start[x as usize] {
                        self.one(&ch.to_string())?;
                    }
                    if more[x as usize] {
                        self.one(&format!("a{ch}"))?;
                        self.one(&format!("_{ch}b"))?;
                    }
                }
                return Ok(());
            }
            Names::Path { parts, wide, place } => (parts, wide, *place as usize % PLACES.len()),
        };
        let (pattern, begins) = PLACES[place];
        // true, false and null are values; a keyword alone may begin a statement; some places take a plain name
        let values = ["true", "false", "null"];
        let mut parts = parts.clone();
        for p in &mut parts {
            if values.contains(&p.as_str()) {
                p.push('s');
            }
        }
        let simple = ["@(@: @)", "#@", "f(1, @: 2)"].contains(&pattern);
        if simple {
            parts.truncate(1);
        }
        if begins && STARTERS.contains(&parts[0].as_str()) {
            parts[0].push('e');
        }
        let name = parts.join("::");
        let mut written = parts[0].clone();
        for (i, p) in parts.iter().enumerate().skip(1) {
            written.push_str(if wide.get(i - 1).copied().unwrap_or(false) { "∷" } else { "::" });
            written.push_str(p);
        }
        // 3e.. is 3 times e; 0x, 0b, 0o are not written here
        let text = pattern.replace('@', &written);
        let key = lang::KEYWORDS.iter().any(|k| name.contains(k));
        o.trivial_if(!key && parts.len() == 1 && name.is_ascii());
        o.label_if(key, "keyword inside");
        o.label_if(begins && STARTERS.iter().any(|k| name.starts_with(k)), "begins like a statement");
        o.label_if(parts.iter().any(|p| lang::KEYWORDS.contains(&p.as_str())), "bare keyword");
        o.label_if(parts.len() > 1, "several parts");
        o.label_if(written.contains('∷'), "∷");
        o.label_if(!name.is_ascii(), "beyond ASCII");
        let s = || N::Sym(name.clone());
        let int = |n: u8| N::Int(n.to_string());
        let x = || N::Sym("x".into());
        let call = |f: &str, a: Vec<N>| N::call(f, a);
        let opts = |f: &str, a: Vec<N>, v: N| N::Fn(f.into(), vec![lang::Group { args: a, opts: vec![(s(), v)], pos: None }]);
        let want = match pattern {
            "@" | "(@)" => s(),
            "@ + 1" => call("std::infix::add", vec![s(), int(1)]),
            "1 + @" => call("std::infix::add", vec![int(1), s()]),
            "@(1)" | "@ (1)" => call(&name, vec![int(1)]),
            "x.@" => call(&name, vec![x()]),
            "x.@(2)" => call(&name, vec![x(), int(2)]),
            "[@, 2]" => call("std::containers::List", vec![s(), int(2)]),
            "x[@]" => call("std::core::Index", vec![x(), s()]),
            "f(@)" => call("f", vec![s()]),
            "2 @" => call("std::infix::times", vec![int(2), s()]),
            "3@" => call("std::infix::times", vec![int(3), s()]),
            "@!" => call("std::suffix::factorial", vec![s()]),
            "-@" => call("std::prefix::minus", vec![s()]),
            "@[1]" => call("std::core::Index", vec![s(), int(1)]),
            "x; @" | "x\n@" => N::Program(vec![x(), s()]),
            "@ = 1" => call(&lang::infix_name("="), vec![s(), int(1)]),
            "@ x" => call("std::infix::times", vec![s(), x()]),
            "x @" => call("std::infix::times", vec![x(), s()]),
            "@.f" => call("f", vec![s()]),
            "x // @" => call(&lang::infix_name("//"), vec![x(), s()]),
            "@(@: @)" => opts(&name, vec![], s()),
            "x[@:@]" => call("std::core::Index", vec![x(), call("std::core::Span", vec![s(), s(), int(1)])]),
            "#@" => call("std::core::slot", vec![N::Str(name.clone())]),
            "f(1, @: 2)" => opts("f", vec![int(1)], int(2)),
            p => return fail(format!("place {p}")),
        };
        let got = shape(&accepted(&text)?);
        let want = named(want);
        ensure!(got == want, "{text:?} parses to {}, expected {}", show(&got), show(&want));
        // the symbol by itself
        let ast = no_panic("building a symbol", || AST::symbol(&written))?;
        ensure!(shape(&ast) == s(), "AST::symbol({written:?}) is {}", show(&shape(&ast)));
        if let AST::Symbol(y) = &ast {
            ensure!(y.name == *parts.last().unwrap() && y.name_space == parts[..parts.len() - 1], "AST::symbol({written:?}) has the name {:?} in {:?}", y.name, y.name_space);
        }
        let printed = no_panic("printing a symbol", || ast.to_string())?;
        ensure!(printed == name, "the symbol {name:?} prints as {printed:?}");
        if !STARTERS.contains(&parts[0].as_str()) {
            ensure!(accepted(&written)? == ast, "{written:?} parses to another symbol than AST::symbol gives");
            let mut r = Runner::default();
            match no_panic(&format!("evaluating {written:?}"), || r.evaluate(&written).and_then(|_| r.last()))? {
                Ok(v) => ensure!(shape(&v) == s(), "{written:?} evaluates to {}", show(&shape(&v))),
                Err(SMError::Unimplemented(_)) => o.label("not evaluated"),
                Err(e) => return fail(format!("{written:?} evaluates to the error {e:?}")),
            }
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("characters", 0x1000), ("keyword inside", 30_000), ("begins like a statement", 5000), ("bare keyword", 2000), ("several parts", 20_000), ("∷", 10_000), ("beyond ASCII", 20_000)]
    }
}
impl Naming {
    fn one(&self, name: &str) -> Check {
        let got = shape(&accepted(name)?);
        ensure!(got == N::Sym(name.into()), "{name:?} ({}) parses to {}", name.escape_unicode(), show(&got));
        Ok(())
    }
}
