//! C35: expressions as values.
use crate::norm::*;
use pbt::lang::{self, render, Cfg, M, N};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, no_panic, quietly, Bad, Check, Obs, Prop, Tier};
use num::ToPrimitive;
use serde::{Deserialize, Serialize};
use sm_ast::{Context, ToTex, ToWolfram, AST};
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trio {
    all: Vec<Vec<M>>,
    free: Vec<u8>,
    alts: Vec<u8>,
    file: String,
    other: String,
    place: Vec<u16>,
}
/// everything that can be asked of an expression, as text
fn faces(a: &AST) -> Vec<(&'static str, Result<String, String>)> {
    vec![
        ("Wolfram form", quietly(|| a.to_wolfram_string())),
        ("Wolfram bytes", quietly(|| format!("{:?}", a.to_wolfram_bytes()))),
        ("TeX form", quietly(|| a.to_tex())),
        ("printed form", quietly(|| a.to_string())),
        (
            "value",
            quietly(|| match a.forward(&mut Context::default()) {
                Ok(v) => show(&shape(&v)),
                Err(e) => format!("{e:?}"),
            }),
        ),
    ]
}
/// factorials and powers too large to work out
fn heavy(n: &N) -> bool {
    match n {
        N::Program(v) => v.iter().any(heavy),
        N::Fn(f, gs) => {
            let number = |x: &N| if let N::Int(s) = x { s.len() > 2 } else { false };
            let f = f.rsplit("::").next().unwrap_or("");
            let all = || gs.iter().flat_map(|g| &g.args);
            all().any(heavy) || (["factorial", "fibonacci", "power"].contains(&f) && all().any(|x| number(x) || matches!(x, N::Fn(..))))
        }
        _ => false,
    }
}
/// other positions, and every leaf made by its constructor
fn rebuilt(a: &AST, file: Option<&str>, place: &[u16], k: &mut usize) -> AST {
    let mut go = |x: &AST| rebuilt(x, file, place, k);
    match a {
        AST::EmptyStatement => AST::EmptyStatement,
        AST::Program(v) => AST::Program(v.iter().map(go).collect()),
        AST::Function(s, ps) => {
            let mut ps = ps.clone();
            for p in &mut ps {
                p.arguments = p.arguments.iter().map(&mut go).collect();
                p.options = p.options.iter().map(|(k, v)| (go(k), go(v))).collect();
            }
            if let Some(f) = file {
                for p in &mut ps {
                    let mut n = || {
                        *k += 1;
                        place[*k % place.len()] as usize
                    };
                    p.position.file = f.to_string();
                    p.position.start = (n(), n());
                    p.position.end = (n(), n());
                }
            }
            let mut s = s.clone();
            // a plain name, made again from its text
            if let (false, AST::Symbol(x)) = (format!("{:?}", s.kind).contains('('), AST::symbol(s.to_string())) {
                s = x;
            }
            AST::Function(s, ps)
        }
        AST::Boolean(b) => AST::Boolean(*b),
        AST::Integer(i) => {
            *k += 1;
            match (i.to_i64(), i.to_u64(), *k % 4) {
                (Some(x), _, 0) => AST::integer(x),
                (_, Some(x), 1) => AST::integer(x),
                (Some(x), _, 2) => AST::integer(x as i128),
                _ => AST::integer(i.clone()),
            }
        }
        AST::Decimal(d) => AST::decimal(d.clone()),
        AST::Symbol(s) => AST::symbol(s.to_string()),
        AST::String(s) => {
            *k += 1;
            let mut cs = s.chars();
            match (cs.next(), cs.next(), *k % 2) {
                (Some(c), None, 0) => AST::string(c),
                (_, _, 1) => AST::string(s.as_str()),
                _ => AST::string(s.clone()),
            }
        }
    }
}
/// an operation, and a call of the function it stands for
fn aliases() -> Vec<(M, M)> {
    let mut v = vec![];
    let b = |n: &str| Box::new(M::Sym(n.into()));
    let call = |f: String, xs: &[&str]| M::Call(f, vec![xs.iter().map(|x| lang::Arg { key: None, val: M::Sym(x.to_string()) }).collect()]);
    for (o, n) in [("+", "add"), ("-", "subtract"), ("*", "times"), ("/", "divide"), ("//", "quotient"), ("^", "power")] {
        v.push((M::Inf(o.into(), b("x"), b("y")), call(format!("std::infix::{n}"), &["x", "y"])));
    }
    for (o, n) in [("+", "plus"), ("-", "minus"), ("*", "unpack"), ("!", "not")] {
        v.push((M::Pre(o.into(), b("x")), call(format!("std::prefix::{n}"), &["x"])));
    }
    for (o, n) in [("!", "factorial"), ("!!", "factorial2")] {
        v.push((M::Suf(o.into(), b("x")), call(format!("std::suffix::{n}"), &["x"])));
    }
    v.push((M::Pre("!".into(), b("x")), M::Pre("¬".into(), b("x"))));
    v.push((M::List(vec![M::Sym("x".into())]), call("std::containers::List".into(), &["x"])));
    v.push((M::Null, M::Sym("std::constant::Null".into())));
    v
}
/// decimals by value: 1.0 and 1.00 may be equal
fn plain(n: N) -> N {
    match n {
        N::Dec(s) if s.contains('.') => N::Dec(s.trim_end_matches('0').trim_end_matches('.').to_string()),
        N::Program(v) => N::Program(v.into_iter().map(plain).collect()),
        N::Fn(f, mut gs) => {
            for g in &mut gs {
                g.args = std::mem::take(&mut g.args).into_iter().map(plain).collect();
                g.opts = std::mem::take(&mut g.opts).into_iter().map(|(k, v)| (plain(k), plain(v))).collect();
            }
            N::Fn(f, gs)
        }
        n => n,
    }
}
pub struct Values;
impl Prop for Values {
    type Case = Trio;
    fn id(&self) -> &'static str {
        "C35"
    }
    fn rule(&self) -> &'static str {
        "triples of expressions and short programs of the whole language: unrelated, one leaf apart, long leaves (to 4100 characters) one character apart, or one inside the other, in different files and layouts; each also with every position replaced and every leaf made again by its constructor. Oracle: equality and order against the structure; the same Wolfram form, bytes, TeX form, printed form and value whatever the positions; a sorted map keyed by the three gives each back; what is equal once the positions are has the same forms. Non-trivial: an operator, call, list or index"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(60_000, 1_500_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Trio> {
        let p = lang::plain_leaves(Cfg::FULL);
        let mut v = vec![];
        for a in &p {
            for b in &p {
                let inf = |x: &M, y: &M| M::Inf("+".into(), Box::new(x.clone()), Box::new(y.clone()));
                v.push(Trio { all: vec![vec![a.clone()], vec![b.clone()], vec![inf(a, b)]], free: vec![], alts: vec![], file: "f".into(), other: "g".into(), place: vec![7, 0, 3] });
                v.push(Trio { all: vec![vec![inf(a, b)], vec![inf(b, a)], vec![a.clone(), b.clone()]], free: vec![3, 9, 1], alts: vec![], file: "".into(), other: "f".into(), place: vec![1] });
            }
        }
        for (a, b) in aliases() {
            v.push(Trio { all: vec![vec![a.clone()], vec![b.clone()], vec![M::List(vec![a, b])]], free: vec![], alts: vec![], file: "f".into(), other: "g".into(), place: vec![0] });
        }
        for (m, other) in lang::long_leaves(Cfg::FULL) {
            v.push(Trio { all: vec![vec![m.clone()], vec![other.clone()], vec![M::List(vec![m, other])]], free: vec![], alts: vec![], file: "f".into(), other: "g".into(), place: vec![v.len() as u16, 0, 3] });
        }
        for m in lang::huge(Cfg::FULL) {
            if m.count(|_| true) < 270 {
                // the last leaf changed
                let mut other = m.clone();
                let (mut n, mut k) = (0, 0);
                other.each_name(&mut |_| n += 1);
                other.each_name(&mut |s| {
                    k += 1;
                    if k == n {
                        s.push('q')
                    }
                });
                v.push(Trio { all: vec![vec![m.clone()], vec![other], vec![M::List(vec![m])]], free: vec![], alts: vec![], file: "f".into(), other: "g".into(), place: vec![7, 0, 3] });
            }
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Trio> {
        let e = || lang::expression(Cfg::FULL).prop_filter("nesting", crate::shape::moderate);
        let some = || prop_oneof![4 => e().prop_map(|m| vec![m]), 1 => proptest::collection::vec(e(), 2..4)];
        // one leaf (or more) apart
        let near = (e(), proptest::collection::vec(any::<u8>(), 2..5), 0usize..3).prop_map(|(m, pick, at)| {
            let pool = lang::plain_leaves(Cfg::FULL);
            let mut first = m.clone();
            lang::relabel(&mut first, &pool, &pick, &mut 0);
            let mut more = pick.clone();
            let at = at % more.len();
            more[at] = more[at].wrapping_add(1);
            let mut second = m.clone();
            lang::relabel(&mut second, &pool, &more, &mut 0);
            vec![vec![m], vec![first], vec![second]]
        });
        let inside = (e(), any::<u8>()).prop_map(|(m, k)| {
            let c: Vec<M> = m.children().into_iter().cloned().collect();
            let x = if c.is_empty() { m.clone() } else { c[k as usize % c.len()].clone() };
            vec![vec![m.clone()], vec![x], vec![M::List(vec![m])]]
        });
        let grown = (e(), e()).prop_map(|(a, b)| vec![vec![M::List(vec![a.clone()])], vec![M::List(vec![a.clone(), b.clone()])], vec![a, b]]);
        let all = prop_oneof![3 => (some(), some(), some()).prop_map(|(a, b, c)| vec![a, b, c]), 3 => near, 1 => inside, 1 => grown];
        let file = || prop_oneof![proptest::sample::select(vec!["", "f", "anonymous", "é变.sm", "a/b.sm"]).prop_map(String::from), "[a-z/.]{0,20}"];
        (all, lang::layout(), lang::layout(), file(), file(), proptest::collection::vec(any::<u16>(), 1..8)).prop_map(|(all, free, alts, file, other, place)| Trio { all, free, alts, file, other, place }).boxed()
    }
    fn check(&self, c: &Trio, o: &mut Obs) -> Check {
        let text = |v: &Vec<M>, free: &[u8]| v.iter().map(|m| render(m, free, &c.alts, "f", "", true).text).collect::<Vec<_>>().join(";\n");
        let mut list = vec![];
        o.trivial = true;
        for (i, v) in c.all.iter().enumerate() {
            let t = text(v, if i == 1 { &[] } else { &c.free });
            // the language model knows which texts are expressions; here any accepted one will do
            let Ok(a) = parse_in(&c.file, &t)? else { continue };
            if matches!(a, AST::Function(..) | AST::Program(..)) {
                o.trivial = false;
            }
            let n = shape(&a);
            // the same again
            let again = parse_in(&c.file, &t)?.map_err(|e| Bad::Violation(format!("{t:?} is accepted once and refused the next time: {e:?}")))?;
            ensure!(a == again && again == a && a.cmp(&again) == Ordering::Equal, "{t:?} parsed twice does not give equal expressions");
            let copy = no_panic("copying", || a.clone())?;
            ensure!(copy == a && norm(&copy) == norm(&a) && format!("{copy:?}") == format!("{a:?}"), "the copy of {t:?} is not equal to it");
            // by constructors
            let made = no_panic("constructing", || rebuilt(&a, None, &c.place, &mut (c.place[0] as usize)))?;
            ensure!(norm(&made) == norm(&a), "{t:?} made again by constructors: {}", diff(&norm(&made), &norm(&a)));
            ensure!(made == a && a == made, "{t:?} made again by constructors is not equal to the parsed expression");
            // elsewhere
            let moved = rebuilt(&a, Some(&c.other), &c.place, &mut 0);
            ensure!(shape(&moved) == n, "{t:?} with other positions: {}", diff(&shape(&moved), &n));
            if !heavy(&n) {
                o.label("all forms compared");
                let (x, y) = (faces(&a), faces(&moved));
                for ((name, p), (_, q)) in x.iter().zip(&y) {
                    o.label_if(*name == "printed form" && p.is_ok(), "printable");
                    o.label_if(*name == "TeX form" && p.is_ok(), "has a TeX form");
                    match (p, q) {
                        (Ok(p), Ok(q)) => ensure!(p == q, "{t:?}: the {name} depends on positions: {p:?} and {q:?}"),
                        // a form that does not exist yet
                        (Err(_), Err(_)) => {}
                        (p, q) => return pbt::fail(format!("{t:?}: the {name} depends on positions: {p:?} and {q:?}")),
                    }
                }
                // and on nothing else, now or later
                for ((name, p), (_, q)) in x.iter().zip(&faces(&copy)) {
                    ensure!(p.is_ok() == q.is_ok() && (p.is_err() || p == q), "{t:?}: the {name} of the copy is {q:?}, of the original {p:?}");
                }
            }
            list.push((t, a, n));
        }
        for (t, a, n) in &list {
            for (u, b, m) in &list {
                let same = format!("{a:?}") == format!("{b:?}");
                let apart = plain(n.clone()) != plain(m.clone());
                o.label_if(apart, "different");
                o.label_if(same && !std::ptr::eq(a, b), "the same twice");
                ensure!((a == b) == (b == a) && (a != b) == !(a == b), "{t:?} and {u:?}: equality is not symmetric");
                ensure!(!same || a == b, "{t:?} and {u:?} give the same expression, but not equal");
                ensure!(!apart || a != b, "{t:?} and {u:?} are different expressions, but count as equal: {}", diff(n, m));
                let (x, y) = (a.cmp(b), b.cmp(a));
                ensure!(x == y.reverse(), "{t:?} is {x:?} than {u:?}, and the other way round {y:?}");
                ensure!(a.partial_cmp(b) == Some(x), "{t:?} and {u:?}: the two comparisons differ");
                ensure!((x == Ordering::Equal) == (a == b), "{t:?} and {u:?} compare as {x:?}, equal: {}", a == b);
            }
        }
        if let [(t, a, _), (u, b, _), (v, d, _)] = &list[..] {
            for (x, y, z) in [(a, b, d), (a, d, b), (b, a, d), (b, d, a), (d, a, b), (d, b, a)] {
                ensure!(!(x <= y && y <= z) || x <= z, "the order of {t:?}, {u:?} and {v:?} goes round in a circle");
            }
            o.label("three in order");
        }
        // wherever they stand, what is equal looks and behaves the same
        let nowhere: Vec<(&String, AST, &N)> = list.iter().map(|(t, a, n)| (t, rebuilt(a, Some(""), &[0], &mut 0), n)).collect();
        for (i, (t, a, n)) in nowhere.iter().enumerate() {
            for (u, b, m) in &nowhere[..i] {
                let alike = format!("{a:?}") == format!("{b:?}");
                ensure!((a == b) == (b == a) && (a.cmp(b) == Ordering::Equal) == (a == b), "{t:?} and {u:?} at one place compare as {:?}, equal: {}", a.cmp(b), a == b);
                ensure!(!alike || a == b, "{t:?} and {u:?} at one place give the same expression, but not equal");
                ensure!(plain((*n).clone()) == plain((*m).clone()) || a != b, "{t:?} and {u:?} are different expressions, but count as equal at one place");
                if a == b && n == m && !heavy(n) {
                    o.label("equal at one place");
                    for ((name, p), (_, q)) in faces(a).iter().zip(&faces(b)) {
                        ensure!(p.is_ok() == q.is_ok() && (p.is_err() || p == q), "{t:?} and {u:?} count as equal, but their {name} differs: {p:?} and {q:?}");
                    }
                }
            }
        }
        let mut map = BTreeMap::new();
        for (i, (_, a, _)) in list.iter().enumerate() {
            map.entry(a.clone()).or_insert(i);
        }
        for (t, a, _) in &list {
            let i = map.get(a);
            ensure!(i.is_some_and(|i| list[*i].1 == *a), "a map keyed by expressions does not find {t:?} again");
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("all forms compared", 20_000), ("printable", 3000), ("has a TeX form", 3000), ("different", 20_000), ("three in order", 20_000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["whether positions and trailing zeros of decimals count for equality is left open", "forms that are not implemented yet (they panic) are not compared"]
    }
}
