//! C13, C23-C26, C28: error kinds, evaluation, built-ins, sessions, the playground.
use crate::norm::*;
use num::rational::BigRational;
use num::{BigInt, Integer, One, Signed, ToPrimitive, Zero};
use pbt::lang::{self, compact, radix_value, Arg, M, N};
use pbt::proptest;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, harness_ensure, no_panic, Bad, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_algorithm::Error as AE;
use sm_ast::{internal, Runner, SMError, SMResult, ToTex, AST};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;

pub fn evaluate(r: &mut Runner, text: &str) -> Result<SMResult<String>, Bad> {
    no_panic(&format!("evaluating {text:?}"), || r.evaluate(text))
}
fn fresh(text: &str) -> Result<SMResult<String>, Bad> {
    evaluate(&mut Runner::default(), text)
}
fn told(r: &SMResult<String>) -> String {
    match r {
        Ok(s) => format!("Ok({s:?})"),
        Err(e) => format!("Err({e:?})"),
    }
}

// ------------------------------------------------------------------------------------------------ C13
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    kind: u8,
    text: String,
}
fn arithmetic(k: u8, s: &str) -> AE {
    match k {
        0 => AE::OverFlow,
        1 => AE::ComplexInfinity,
        2 => AE::IOError(s.into()),
        3 => AE::Unimplemented,
        4 => AE::Indeterminate,
        _ => AE::Undefined(s.into()),
    }
}
const KINDS: [&str; 6] = ["OverFlow", "ComplexInfinity", "IOError", "Unimplemented", "Indeterminate", "Undefined"];
/// what the evaluator's error is, without any text that is not the caller's
fn kind(e: &SMError) -> String {
    match e {
        SMError::Unknown => "Unknown".into(),
        SMError::IOError(s) => format!("IOError {s:?}"),
        SMError::ParseError(_) => "ParseError".into(),
        SMError::EmptyContainer(_) => "EmptyContainer".into(),
        SMError::Overflow => "Overflow".into(),
        SMError::Infinity => "Infinity".into(),
        SMError::ComplexInfinity => "ComplexInfinity".into(),
        SMError::Unimplemented(_) => "Unimplemented".into(),
        SMError::Unreachable(_) => "Unreachable".into(),
    }
}
pub struct Errors;
impl Prop for Errors {
    type Case = Fault;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "every error kind of the arithmetic library with message texts from none to 40 characters, including format directives, quotes, line breaks, names of other kinds and every message the operating system itself gives, and longer ones of up to 1000 characters; oracle: the printed form is the kind name, for I/O and undefined-value errors followed by ': ' and the message, and the converted error has the kind table's kind and the same I/O message; arguments of factorial and fibonacci whose library error must arrive at the caller as that kind. Non-trivial: a kind that carries a message, or an error that travels through a built-in"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 3_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Fault> {
        let texts = ["", " ", "x", "{}", "{0}", "%s", "IOError: x", "Undefined: ", ": ", "\n", "\"", "\\n", "é变😀", "OverFlow", "\u{0}", " padded ", "a: b: c"];
        // what the system itself says
        let system: Vec<String> = (0..140).map(|n| std::io::Error::from_raw_os_error(n).to_string()).chain([std::io::ErrorKind::NotFound.into(), std::io::ErrorKind::InvalidData.into(), std::io::ErrorKind::UnexpectedEof.into(), std::io::Error::other("custom: \"x\"")].map(|e: std::io::Error| e.to_string())).collect();
        let all = texts.iter().map(|t| t.to_string()).chain(lang::sizes(1000).into_iter().map(|n| "é x: ".chars().cycle().take(n).collect())).chain(system).collect::<Vec<String>>();
        (0..12).flat_map(|kind| all.iter().map(move |t| Fault { kind, text: t.clone() })).collect()
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Fault> {
        let piece = prop_oneof![
            2 => proptest::sample::select(vec!["{}", "{:?}", ": ", "IOError", "Undefined", "IOError: ", "%", "\\", "\"", "\n", " ", "(", ")", " (os error 2)", " (os error", "Error", "No such file or directory", "error: ", "caused by: ", "\r\n", "...", "/", "//", "at line 1"]).prop_map(String::from),
            3 => any::<char>().prop_map(String::from),
            3 => "[a-z0-9 ]{1,6}",
        ];
        (0u8..12, proptest::collection::vec(piece, 0..8)).prop_map(|(kind, v)| Fault { kind, text: v.concat() }).boxed()
    }
    fn check(&self, c: &Fault, o: &mut Obs) -> Check {
        if c.kind < 6 {
            o.trivial_if(c.kind != 2 && c.kind != 5);
            o.label(KINDS[c.kind as usize]);
            let shown = no_panic("printing an error", || arithmetic(c.kind, &c.text).to_string())?;
            let want = match c.kind {
                2 | 5 => format!("{}: {}", KINDS[c.kind as usize], c.text),
                k => KINDS[k as usize].to_string(),
            };
            ensure!(shown == want, "{:?} prints as {shown:?}, expected {want:?}", arithmetic(c.kind, &c.text));
            let e = no_panic("converting an error", || SMError::from(arithmetic(c.kind, &c.text)))?;
            let got = kind(&e);
            let want = match c.kind {
                0 => "Overflow".to_string(),
                1 => "ComplexInfinity".into(),
                2 => format!("IOError {:?}", c.text),
                3 => "Unimplemented".into(),
                _ => {
                    // no counterpart: any kind, as long as it is none of the four above
                    ensure!(!["Overflow", "ComplexInfinity", "Unimplemented"].contains(&&*got) && !got.starts_with("IOError"), "{:?} becomes {e:?}", arithmetic(c.kind, &c.text));
                    return Ok(());
                }
            };
            ensure!(got == want, "{:?} becomes {e:?}, expected kind {want}", arithmetic(c.kind, &c.text));
            return Ok(());
        }
        // through the built-ins: the size is made from the text
        o.label("through a built-in");
        let grow = BigInt::from(c.text.chars().map(|x| x as u64).sum::<u64>());
        let word: BigInt = BigInt::one() << 64;
        let (name, n, want): (_, BigInt, _) = match c.kind {
            6 => ("factorial", -(&grow + 1), "ComplexInfinity"),
            7 => ("factorial", &word + &grow, "Overflow"),
            8 => ("fibonacci", &word + &grow, "Overflow"),
            9 => ("fibonacci", -(&word + &grow), "Overflow"),
            10 => ("factorial", -(&word * (&grow + 1)), "ComplexInfinity"),
            _ => {
                let text = format!("factorial({})", &word + &grow);
                let r = fresh(&text)?;
                ensure!(matches!(r, Err(SMError::Overflow)), "{text:?} evaluates to {}, expected an overflow", told(&r));
                return Ok(());
            }
        };
        let a = AST::Integer(n.clone());
        let r = no_panic(&format!("{name} of {n}"), || match name {
            "factorial" => internal::factorial(&a),
            _ => internal::fibonacci(&a),
        })?;
        match r {
            Ok(v) => fail(format!("{name} of {n} succeeds with {}", show(&norm(&v)))),
            Err(e) => {
                ensure!(kind(&e) == want, "{name} of {n} reports {e:?}, expected {want}");
                Ok(())
            }
        }
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        let mut v: Vec<_> = KINDS.iter().map(|k| (*k, 500)).collect();
        v.push(("through a built-in", 3000));
        v
    }
}

// ------------------------------------------------------------------------------------------------ C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Form {
    /// written between the operands
    Infix,
    Juxt,
    Call,
    Method,
    /// after the operand, as operator or as method without brackets
    After,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sum {
    Literal(M),
    Two { op: char, name: String, a: M, b: M, form: Form, brackets: (bool, bool) },
    One { name: String, a: M, form: Form, brackets: bool },
    Any(M),
    /// several statements
    Statements(Vec<M>, bool),
}
const SIZE: u64 = 6000;

enum V {
    Is(BigRational),
    /// no value, or not a rational one
    None,
    /// not decided here
    Open,
}
fn whole(x: &BigRational) -> Option<BigInt> {
    if x.is_integer() { Some(x.to_integer()) } else { None }
}
fn bits(x: &BigRational) -> u64 {
    (x.numer().bits() + x.denom().bits()) as u64
}
fn factorial(n: u64, step: u64) -> BigInt {
    let mut r = BigInt::one();
    let mut k = n;
    while k > 1 {
        r = r * k;
        k = k.saturating_sub(step);
    }
    r
}
fn fibonacci(n: u64) -> BigInt {
    let (mut a, mut b) = (BigInt::zero(), BigInt::one());
    for _ in 0..n {
        let c = &a + &b;
        a = b;
        b = c;
    }
    a
}
fn power(a: &BigInt, n: u64) -> BigInt {
    let (mut r, mut s, mut k) = (BigInt::one(), a.clone(), n);
    while k > 0 {
        if k & 1 == 1 {
            r = r * &s;
        }
        k >>= 1;
        if k > 0 {
            s = &s * &s;
        }
    }
    r
}
fn decimal(s: &str) -> BigRational {
    let (w, f) = s.split_once('.').unwrap_or((s, ""));
    let n = lang::big(&format!("{w}{f}"));
    BigRational::new(n, power(&BigInt::from(10), f.len() as u64))
}
fn op2(op: &str, a: BigRational, b: BigRational) -> V {
    match op {
        "+" => V::Is(a + b),
        "-" => V::Is(a - b),
        "*" | "×" => V::Is(a * b),
        "/" | "÷" => {
            if b.is_zero() {
                V::None
            } else {
                V::Is(a / b)
            }
        }
        "^" => {
            let Some(n) = whole(&b) else { return V::Open };
            if a.is_zero() {
                return if n.is_positive() {
                    V::Is(a)
                } else if n.is_zero() {
                    V::Open
                } else {
                    V::None
                };
            }
            if a.abs().is_one() {
                return V::Is(if a.is_positive() || n.is_even() { BigRational::one() } else { -BigRational::one() });
            }
            let Some(k) = n.abs().to_u64() else { return V::Open };
            if k.saturating_mul(bits(&a)) > SIZE {
                return V::Open;
            }
            let r = BigRational::new(power(a.numer(), k), power(a.denom(), k));
            V::Is(if n.is_negative() { r.recip() } else { r })
        }
        _ => V::Open,
    }
}
fn op1(op: &str, a: BigRational) -> V {
    match op {
        "!" | "!!" | "factorial" => match whole(&a) {
            None => V::Open,
            Some(n) if n.is_negative() => if op == "!!" { V::Open } else { V::None },
            Some(n) => match n.to_u64() {
                Some(k) if k <= 500 => V::Is(BigRational::from(factorial(k, if op == "!!" { 2 } else { 1 }))),
                _ => V::Open,
            },
        },
        "fibonacci" => match whole(&a) {
            None => V::Open,
            Some(n) => match n.abs().to_u64() {
                Some(k) if k <= 3000 => {
                    let f = fibonacci(k);
                    V::Is(BigRational::from(if n.is_negative() && k % 2 == 0 { -f } else { f }))
                }
                _ => V::Open,
            },
        },
        _ => V::Open,
    }
}
/// exact value of an arithmetic expression
fn value(m: &M) -> V {
    macro_rules! get {
        ($e:expr) => {
            match value($e) {
                V::Is(x) if bits(&x) <= SIZE => x,
                V::Is(_) => return V::Open,
                other => return other,
            }
        };
    }
    let named = |name: &str, args: Vec<&M>| -> V {
        let op = match name {
            "plus" | "add" => "+",
            "times" => "*",
            "power" => "^",
            n => n,
        };
        if args.is_empty() {
            return V::None;
        }
        if matches!(op, "factorial" | "fibonacci") {
            return if args.len() == 1 { op1(op, get!(args[0])) } else { V::None };
        }
        if args.len() == 1 || (op == "^" && args.len() > 2) {
            return V::Open;
        }
        let mut x = get!(args[0]);
        for a in &args[1..] {
            x = match op2(op, x, get!(a)) {
                V::Is(v) => v,
                other => return other,
            };
        }
        V::Is(x)
    };
    match m {
        M::Int(s) => V::Is(BigRational::from(lang::big(s))),
        M::Byte(s) => V::Is(BigRational::from(lang::big(&radix_value(s)))),
        M::Dec(s) => V::Is(decimal(s)),
        M::Paren(x) => value(x),
        M::Pre(op, x) => match (op.as_str(), value(x)) {
            ("+", v) => v,
            ("-", V::Is(v)) => V::Is(-v),
            ("-", v) => v,
            _ => V::Open,
        },
        M::Suf(op, x) => op1(op, get!(x)),
        M::Inf(op, l, r) => {
            let (a, b) = (get!(l), get!(r));
            op2(op, a, b)
        }
        M::Juxt(v) => {
            let mut x = BigRational::one();
            for a in v {
                x = x * get!(a);
            }
            V::Is(x)
        }
        M::Call(f, gs) if gs.len() == 1 && gs[0].iter().all(|a| a.key.is_none()) => named(f, gs[0].iter().map(|a| &a.val).collect()),
        M::Dot(l, r) => match &**r {
            M::Sym(f) => named(f, vec![l]),
            M::Call(f, gs) if gs.len() == 1 && gs[0].iter().all(|a| a.key.is_none()) => {
                let mut v: Vec<&M> = vec![l];
                v.extend(gs[0].iter().map(|a| &a.val));
                named(f, v)
            }
            _ => V::Open,
        },
        _ => V::Open,
    }
}
/// a printed number: 12, -12, 1.50, 1/2, -(1/2)
fn number(s: &str) -> Option<BigRational> {
    let t: String = s.chars().filter(|c| !c.is_whitespace() && *c != '(' && *c != ')').collect();
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r.to_string()),
        None => (false, t),
    };
    let one = |t: &str| -> Option<BigRational> {
        let ok = !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || c == '.') && t.matches('.').count() <= 1 && t.starts_with(|c: char| c.is_ascii_digit());
        if ok { Some(decimal(t)) } else { None }
    };
    let v = match t.split_once('/') {
        Some((p, q)) => {
            let (p, q) = (one(p)?, one(q)?);
            if q.is_zero() {
                return None;
            }
            p / q
        }
        None => one(&t)?,
    };
    Some(if neg { -v } else { v })
}
/// may come out as its exact value or be refused
fn exact_or_refused(text: &str, v: &V, r: &SMResult<String>) -> Check {
    if let Ok(s) = r {
        match (v, number(s)) {
            (V::Is(x), Some(y)) => ensure!(*x == y, "{text:?} evaluates to {s}, its value is {x}"),
            (V::Is(x), None) => return fail(format!("{text:?} evaluates to {s:?}, its value is {x}")),
            (V::None, Some(_)) => return fail(format!("{text:?} has no value but evaluates to {s}")),
            _ => {}
        }
    }
    Ok(())
}
fn small_number() -> BoxedStrategy<M> {
    prop_oneof![
        6 => (0u32..10).prop_map(|n| M::Int(n.to_string())),
        2 => (0u32..200).prop_map(|n| M::Int(n.to_string())),
        1 => any::<u64>().prop_map(|n| M::Int(n.to_string())),
        2 => (0u32..20, "[0-9]{1,4}").prop_map(|(a, b)| M::Dec(format!("{a}.{b}"))),
        1 => "0x[0-9a-fA-F]{1,4}|0b[01]{1,8}|0o[0-7]{1,5}".prop_map(M::Byte),
    ]
    .boxed()
}
fn whole_number() -> BoxedStrategy<M> {
    prop_oneof![
        3 => (0u32..30).prop_map(|n| M::Int(n.to_string())),
        3 => any::<u32>().prop_map(|n| M::Int(n.to_string())),
        3 => any::<u64>().prop_map(|n| M::Int(n.to_string())),
        2 => (0u32..140, 0u32..3, any::<bool>()).prop_map(|(k, d, up)| {
            let v: BigInt = BigInt::one() << k as usize;
            let v = if up { v + d } else { v - d };
            M::Int(if v.is_negative() { "0".into() } else { v.to_string() })
        }),
        2 => lang::integer().prop_map(M::Int),
        1 => (1u8..10, "[0-9]{1,400}").prop_map(|(d, s)| M::Int(format!("{d}{s}"))),
        1 => lang::radix().prop_map(M::Byte),
    ]
    .boxed()
}
fn literal_value(m: &M) -> BigInt {
    match m {
        M::Int(s) => lang::big(s),
        M::Byte(s) => lang::big(&radix_value(s)),
        _ => panic!("not an integer literal"),
    }
}
fn arithmetic_tree() -> BoxedStrategy<M> {
    small_number()
        .prop_recursive(4, 14, 3, |inner| {
            let b = || inner.clone().prop_map(Box::new);
            let names = proptest::sample::select(vec!["plus", "add", "times", "power", "factorial", "fibonacci"]).prop_map(String::from);
            let args = prop_oneof![1 => proptest::collection::vec(inner.clone(), 0..4), 3 => proptest::collection::vec(inner.clone(), 1..3)];
            let args = args.prop_map(|v| vec![v.into_iter().map(|val| Arg { key: None, val }).collect::<Vec<_>>()]);
            let call = (names.clone(), args).prop_map(|(f, g)| M::Call(f, g)).boxed();
            prop_oneof![
                8 => (proptest::sample::select(lang::ARITH_WIDE), b(), b()).prop_map(|(o, l, r)| M::Inf(o.into(), l, r)),
                2 => (proptest::sample::select(vec!["+", "-"]), b()).prop_map(|(o, x)| M::Pre(o.into(), x)),
                3 => (proptest::sample::select(vec!["!", "!!"]), b()).prop_map(|(o, x)| M::Suf(o.into(), x)),
                1 => b().prop_map(M::Paren),
                2 => proptest::collection::vec(small_number(), 2..4).prop_map(M::Juxt),
                4 => call.clone(),
                2 => (b(), prop_oneof![names.prop_map(M::Sym), call]).prop_map(|(l, r)| M::Dot(l, Box::new(r))),
            ]
        })
        .boxed()
}
/// statements that fail in different ways, or have no value to speak of
fn refused_statements() -> Vec<M> {
    let i = |s: &str| M::Int(s.into());
    let huge = || i("36893488147419103233");
    let b = Box::new;
    vec![
        M::Inf("^".into(), b(i("2")), b(huge())),
        as_call("power", vec![i("3"), huge()]),
        M::Suf("!".into(), b(huge())),
        as_call("factorial", vec![huge()]),
        as_call("fibonacci", vec![huge()]),
        as_call("f", vec![i("1")]),
        as_call("f", vec![]),
        as_call("first", vec![i("1")]),
        as_call("first", vec![]),
        as_call("first", vec![M::Str(String::new())]),
        as_call("plus", vec![M::Bool(true), i("1")]),
        M::Inf("+".into(), b(M::Sym("x".into())), b(i("1"))),
        M::Inf("-".into(), b(i("1")), b(i("1"))),
        M::Inf("/".into(), b(i("1")), b(i("0"))),
        M::Inf("=".into(), b(M::Sym("x".into())), b(i("2"))),
        M::List(vec![i("1")]),
        M::Slot("#".into()),
        M::Repl("¶".into()),
        M::Sym("x".into()),
        M::Bool(true),
        M::Null,
        M::Str("a".into()),
    ]
}
fn sum() -> BoxedStrategy<Sum> {
    let sum_or_product = (any::<bool>(), whole_number(), whole_number(), 0u8..3).prop_map(|(plus, a, b, n)| {
        let name = match (plus, n) {
            (true, 0) => "add",
            (true, _) => "plus",
            _ => "times",
        };
        (if plus { '+' } else { '*' }, name.to_string(), a, b)
    });
    let power = prop_oneof![
        4 => (whole_number(), 0u64..60).prop_map(|(a, n)| (a, n.to_string())),
        3 => (0u32..20, 0u64..900).prop_map(|(a, n)| (M::Int(a.to_string()), n.to_string())),
        1 => (0u32..3, 0u64..6000).prop_map(|(a, n)| (M::Int(a.to_string()), n.to_string())),
        1 => (0u32..2, any::<u64>()).prop_map(|(a, n)| (M::Int(a.to_string()), n.to_string())),
        1 => (0u32..2, 0usize..64, 0u64..3).prop_map(|(a, k, d)| (M::Int(a.to_string()), ((1u64 << k) + d).to_string())),
    ]
    .prop_map(|(a, n)| ('^', "power".to_string(), a, M::Int(n)));
    let form2 = proptest::sample::select(vec![Form::Infix, Form::Infix, Form::Call, Form::Method, Form::Juxt]);
    let br = (proptest::bool::weighted(0.15), proptest::bool::weighted(0.15));
    let two = (prop_oneof![3 => sum_or_product, 2 => power], form2, br).prop_map(|((op, name, a, b), form, brackets)| {
        let form = if matches!(form, Form::Juxt) && op != '*' { Form::Infix } else { form };
        Sum::Two { op, name, a, b, form, brackets }
    });
    let index = prop_oneof![
        4 => (0u32..400).prop_map(|n| n.to_string()),
        2 => (0u32..3000).prop_map(|n| n.to_string()),
        1 => (0u32..200, any::<u32>()).prop_map(|(k, d)| ((BigInt::one() << (64 + k as usize)) + d).to_string()),
    ];
    let arg = prop_oneof![6 => index.prop_map(M::Int), 1 => "0x[0-9a-fA-F]{1,2}|0b[01]{1,8}".prop_map(M::Byte)];
    let form1 = proptest::sample::select(vec![Form::After, Form::Call, Form::Method]);
    let one = (proptest::sample::select(vec!["factorial", "!", "fibonacci"]), arg, form1, proptest::bool::weighted(0.15)).prop_map(|(n, a, form, brackets)| {
        let big = lang::big(&match &a {
            M::Int(s) => s.clone(),
            M::Byte(s) => radix_value(s),
            _ => unreachable!(),
        });
        let a = if n != "fibonacci" && big > BigInt::from(900) && big < (BigInt::one() << 64) { M::Int((big % 900u32).to_string()) } else { a };
        if n == "!" {
            Sum::One { name: "!".into(), a, form: Form::After, brackets }
        } else {
            Sum::One { name: n.into(), a, form, brackets }
        }
    });
    let literal = prop_oneof![
        2 => whole_number(),
        2 => lang::decimal().prop_map(M::Dec),
        1 => any::<bool>().prop_map(M::Bool),
        2 => lang::string_body().prop_map(M::Str),
        1 => (0usize..3, lang::block_body()).prop_map(|(k, s)| M::Block(k, s)),
        1 => lang::name().prop_map(M::Sym),
    ]
    .prop_map(Sum::Literal);
    let some = || prop_oneof![1 => proptest::sample::select(refused_statements()), 2 => small_number(), 1 => arithmetic_tree(), 2 => (0u32..50, 0u32..50, 0usize..2).prop_map(|(a, b, k)| M::Inf(["+", "*"][k].into(), Box::new(M::Int(a.to_string())), Box::new(M::Int(b.to_string()))))];
    prop_oneof![
        1 => literal,
        6 => two,
        3 => one,
        5 => arithmetic_tree().prop_map(Sum::Any),
        1 => (prop_oneof![6 => 2usize..5, 1 => 5usize..30].prop_flat_map(move |n| proptest::collection::vec(some(), n)), any::<bool>()).prop_map(|(v, e)| Sum::Statements(v, e)),
    ]
    .boxed()
}
fn wrap(m: &M, b: bool) -> M {
    if b { M::Paren(Box::new(m.clone())) } else { m.clone() }
}
fn as_call(name: &str, v: Vec<M>) -> M {
    M::Call(name.into(), vec![v.into_iter().map(|val| Arg { key: None, val }).collect()])
}
/// the value of a call or operation on other numbers than written
fn made(text: &str, v: &[BigInt]) -> Result<SMResult<AST>, Bad> {
    let a = match parse(text)? {
        Ok(AST::Function(s, mut ps)) if ps.len() == 1 && ps[0].arguments.len() == v.len() => {
            ps[0].arguments = v.iter().map(|n| AST::integer(n.clone())).collect();
            AST::Function(s, ps)
        }
        x => return Err(Bad::Violation(format!("{text:?} parses to {x:?}"))),
    };
    no_panic(&format!("evaluating {text:?} with {v:?}"), || a.forward(&mut sm_ast::Context::default()))
}
pub struct Arithmetic;
impl Prop for Arithmetic {
    type Case = Sum;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "sums, products and powers of two integer literals of up to 400 (some to 131073) digits (decimal or radix, bracketed or not) as operators, juxtaposition, calls and method calls; factorials to 900 and Fibonacci numbers to 3000 in all notations, and arguments beyond the machine word; plain literals; statement sequences; and nested arithmetic over integers, decimals, + - * / ^ × ÷ ! !! and named functions with any number of arguments; every pair of 0..40 under + * ^ in three notations. Oracle: exact rational arithmetic of the harness; operations are also evaluated on the negated numbers; the first group must come out exactly (or be refused when an exponent or argument exceeds the machine word), the rest exactly or as an error. Non-trivial: not a plain literal, and the reference value is known"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(900_000, 5_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Sum> {
        let mut v = vec![];
        let int = |n: u32| M::Int(n.to_string());
        for a in 0..40 {
            for b in 0..40 {
                for (op, name) in [('+', "plus"), ('+', "add"), ('*', "times"), ('^', "power")] {
                    for form in [Form::Infix, Form::Call, Form::Method, Form::Juxt] {
                        if matches!(form, Form::Juxt) && op != '*' || matches!(form, Form::Infix) && name == "add" {
                            continue;
                        }
                        v.push(Sum::Two { op, name: name.into(), a: int(a), b: int(b), form, brackets: (false, false) });
                    }
                }
            }
        }
        for n in 0..300 {
            for (name, forms) in [("!", vec![Form::After]), ("factorial", vec![Form::After, Form::Call, Form::Method]), ("fibonacci", vec![Form::After, Form::Call, Form::Method])] {
                for form in forms {
                    v.push(Sum::One { name: name.into(), a: int(n), form, brackets: false });
                }
            }
            v.push(Sum::Literal(int(n)));
        }
        let parts: Vec<M> = refused_statements().into_iter().chain([int(7), M::Inf("+".into(), Box::new(int(1)), Box::new(int(2)))]).collect();
        for a in &parts {
            for b in &parts {
                v.push(Sum::Statements(vec![a.clone(), b.clone()], false));
                v.push(Sum::Statements(vec![int(7), a.clone(), b.clone()], true));
            }
        }
        for n in lang::sizes(1100) {
            let all: Vec<M> = (0..n as u32).map(|i| int(i % 97 + 1)).collect();
            for op in ["+", "*", "×"] {
                v.push(Sum::Any(all.iter().cloned().reduce(|a, b| M::Inf(op.into(), Box::new(a), Box::new(b))).unwrap()));
            }
            if n <= 257 {
                for op in ["+", "*"] {
                    v.push(Sum::Any(all.iter().cloned().reduce(|a, b| M::Inf(op.into(), Box::new(b), Box::new(a))).unwrap()));
                }
            }
            for f in ["plus", "add", "times"] {
                v.push(Sum::Any(as_call(f, all.clone())));
            }
            v.push(Sum::Any(M::Juxt(all.clone())));
            v.push(Sum::Statements(all, n % 2 == 0));
        }
        for a in [0u32, 1, 2, 3, 10] {
            for k in 8..18 {
                for d in [-1i32, 0, 1] {
                    let n = ((1i32 << k) + d) as u32;
                    if a > 2 && n > 40_000 {
                        continue;
                    }
                    for form in [Form::Infix, Form::Call, Form::Method] {
                        v.push(Sum::Two { op: '^', name: "power".into(), a: int(a), b: int(n), form, brackets: (false, false) });
                    }
                }
            }
        }
        for n in [1000u32, 1023, 1024, 1025, 2047, 2048, 2049] {
            v.push(Sum::One { name: "factorial".into(), a: int(n), form: Form::Call, brackets: false });
            v.push(Sum::One { name: "fibonacci".into(), a: int(n), form: Form::Call, brackets: false });
        }
        for n in lang::sizes(5000).into_iter().chain([9999, 10_000, 20_000]) {
            let a = M::Int(format!("9{}", "5".repeat(n - 1)));
            let b = M::Int(format!("1{}", "0".repeat(n - 1)));
            for op in ['+', '*'] {
                for (x, y) in [(&a, &a), (&a, &b), (&b, &int(2)), (&int(0), &a), (&int(1), &b)] {
                    v.push(Sum::Two { op, name: if op == '+' { "plus" } else { "times" }.into(), a: x.clone(), b: y.clone(), form: [Form::Infix, Form::Call][n % 2].clone(), brackets: (false, n % 3 == 0) });
                }
            }
            v.push(Sum::Literal(a));
        }
        // more digits than a buffer of 64 or 128 thousand bytes holds
        for n in [65_533, 65_536, 131_073] {
            let a = M::Int(format!("9{}3", "5".repeat(n - 2)));
            let b = M::Int(format!("1{}", "0".repeat(n - 1)));
            v.push(Sum::Literal(a.clone()));
            v.push(Sum::Two { op: '+', name: "plus".into(), a: a.clone(), b: b.clone(), form: Form::Infix, brackets: (false, false) });
            v.push(Sum::Two { op: '*', name: "times".into(), a: b, b: int(7), form: Form::Call, brackets: (false, false) });
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Sum> {
        sum()
    }
    fn check(&self, c: &Sum, o: &mut Obs) -> Check {
        let word: BigInt = BigInt::one() << 64;
        match c {
            Sum::Literal(m) => {
                o.trivial = true;
                o.label("literal");
                let r = compact(m);
                let got = fresh(&r.text)?;
                let Ok(s) = &got else { return fail(format!("the literal {:?} evaluates to {}", r.text, told(&got))) };
                match &r.expect {
                    N::Dec(d) => ensure!(number(s) == Some(decimal(d)), "{:?} evaluates to {s:?}", r.text),
                    N::Int(d) | N::Sym(d) | N::Str(d) => ensure!(s == d, "{:?} evaluates to {s:?}", r.text),
                    N::Bool(b) => ensure!(*s == b.to_string(), "{:?} evaluates to {s:?}", r.text),
                    x => harness_ensure!(false, "not a literal: {x:?}"),
                }
                Ok(())
            }
            Sum::Two { op, name, a, b, form, brackets } => {
                let (x, y) = (literal_value(a), literal_value(b));
                let (l, r) = (wrap(a, brackets.0), wrap(b, brackets.1));
                let m = match form {
                    Form::Infix | Form::After => M::Inf(op.to_string(), Box::new(l), Box::new(r)),
                    Form::Juxt => M::Juxt(vec![a.clone(), b.clone()]),
                    Form::Call => as_call(name, vec![l, r]),
                    Form::Method => M::Dot(Box::new(l), Box::new(as_call(name, vec![r]))),
                };
                o.label(match (op, form) {
                    ('+', Form::Infix) => "a+b",
                    ('+', _) => "plus(a,b)",
                    ('*', Form::Infix) => "a*b",
                    ('*', Form::Juxt) => "a b",
                    ('*', _) => "times(a,b)",
                    ('^', Form::Infix) => "a^b",
                    _ => "power(a,b)",
                });
                o.label_if(x >= word || y >= word, "beyond the machine word");
                let text = compact(&m).text;
                let v = match op {
                    '+' => &x + &y,
                    '*' => &x * &y,
                    _ => {
                        if x.is_zero() && y.is_zero() {
                            o.trivial = true;
                            let _ = fresh(&text)?;
                            return Ok(());
                        }
                        let k = y.to_u64().unwrap();
                        if k > 1 && (x.is_zero() || x.is_one()) {
                            x.clone()
                        } else {
                            harness_ensure!(x.bits() as u64 * k <= 400_000, "power too large");
                            power(&x, k)
                        }
                    }
                };
                let got = fresh(&text)?;
                ensure!(matches!(&got, Ok(s) if *s == v.to_string()), "{text:?} evaluates to {}, its value is {v}", told(&got));
                if v.bits() > 5000 {
                    return Ok(());
                }
                // the same with negative numbers, which have no literal
                for (p, q) in [(true, false), (false, true), (true, true)] {
                    let neg = |b: bool, n: &BigInt| if b { -n.clone() } else { n.clone() };
                    let (x, y) = (neg(p, &x), neg(q, &y));
                    let got = made(&text, &[x.clone(), y.clone()])?;
                    let want = match op {
                        '+' => BigRational::from(&x + &y),
                        '*' => BigRational::from(&x * &y),
                        _ => match op2("^", BigRational::from(x.clone()), BigRational::from(y.clone())) {
                            V::Is(r) => r,
                            V::None => {
                                ensure!(got.is_err(), "{x}^({y}) has no value but evaluates to {got:?}");
                                continue;
                            }
                            V::Open => continue,
                        },
                    };
                    o.label("negative");
                    match got {
                        Ok(AST::Integer(i)) => ensure!(BigRational::from(i.clone()) == want, "{x} {op} {y} evaluates to {i}, its value is {want}"),
                        // fractions have no form yet
                        Err(_) if *op == '^' && y.is_negative() => {}
                        g => return fail(format!("{x} {op} {y} evaluates to {g:?}, its value is {want}")),
                    }
                }
                Ok(())
            }
            Sum::One { name, a, form, brackets } => {
                let n = literal_value(a);
                let l = wrap(a, *brackets);
                let m = match (name.as_str(), form) {
                    ("!", _) => M::Suf("!".into(), Box::new(l)),
                    (f, Form::Call) => as_call(f, vec![l]),
                    (f, Form::Method) => M::Dot(Box::new(l), Box::new(as_call(f, vec![]))),
                    (f, _) => M::Dot(Box::new(l), Box::new(M::Sym(f.into()))),
                };
                o.label(match name.as_str() {
                    "!" => "n!",
                    "factorial" => "factorial",
                    _ => "fibonacci",
                });
                let text = compact(&m).text;
                let got = fresh(&text)?;
                if n >= word {
                    o.label("beyond the machine word");
                    ensure!(matches!(got, Err(SMError::Overflow)), "{text:?} is beyond the machine word but evaluates to {}", told(&got));
                    return Ok(());
                }
                let k = n.to_u64().unwrap();
                harness_ensure!(k <= 4000, "argument too large");
                let v = if name == "fibonacci" { fibonacci(k) } else { factorial(k, 1) };
                ensure!(matches!(&got, Ok(s) if *s == v.to_string()), "{text:?} evaluates to {}, its value is {v}", told(&got));
                if k > 0 {
                    o.label("negative");
                    let got = made(&text, &[-n])?;
                    if name == "fibonacci" {
                        let v = if k % 2 == 0 { -v } else { v };
                        ensure!(matches!(&got, Ok(AST::Integer(i)) if *i == v), "the Fibonacci number of -{k} evaluates to {got:?}, it is {v}");
                    } else {
                        ensure!(matches!(&got, Err(SMError::ComplexInfinity)), "the factorial of -{k} evaluates to {got:?}");
                    }
                }
                Ok(())
            }
            Sum::Any(m) => {
                let v = value(m);
                if matches!(v, V::Open) || lang::slice_depth(m) > 60 {
                    o.trivial = true;
                    return Ok(());
                }
                let text = compact(m).text;
                o.label("nested or decimal");
                o.label_if(matches!(v, V::None), "no value");
                let got = fresh(&text)?;
                o.label_if(got.is_ok(), "nested or decimal, answered");
                exact_or_refused(&text, &v, &got)
            }
            Sum::Statements(v, end) => {
                let known = refused_statements();
                if v.iter().any(|m| matches!(value(m), V::Open) && !known.contains(m)) {
                    o.trivial = true;
                    return Ok(());
                }
                o.label("statements");
                let texts: Vec<String> = v.iter().map(|m| compact(m).text).collect();
                let text = texts.join("; ") + if *end { ";" } else { "" };
                let got = fresh(&text)?;
                let mut all = Ok(String::new());
                for t in &texts {
                    all = fresh(t)?;
                    if all.is_err() {
                        break;
                    }
                }
                o.label_if(all.is_ok(), "statements, all answered");
                let same = match (&got, &all) {
                    (Ok(a), Ok(b)) => a == b,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                ensure!(same, "{text:?} evaluates to {}, its statements one by one to {}", told(&got), told(&all));
                Ok(())
            }
        }
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        ["a+b", "plus(a,b)", "a*b", "a b", "times(a,b)", "a^b", "power(a,b)", "n!", "factorial", "fibonacci", "beyond the machine word", "nested or decimal", "statements, all answered", "negative"]
            .into_iter()
            .map(|l| (l, 1000))
            .chain([("no value", 300)])
            .collect()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["0^0 is left open", "results are kept below 400 000 bits", "a negative power may be refused"]
    }
}

// ------------------------------------------------------------------------------------------------ C24
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Use {
    Built { name: String, groups: Vec<Vec<Arg>>, method: bool },
    Expr(M),
    Text(String),
}
const STRINGS: [&str; 3] = ["first", "last", "length"];
const UNARY: [&str; 2] = ["factorial", "fibonacci"];
const BINARY: [&str; 4] = ["plus", "add", "times", "power"];
const INTERNAL: [&str; 30] = [
    "sqrt", "sin", "cos", "log", "log2", "head", "most", "rest", "take", "join", "concat", "flatten", "keys", "values", "range", "power_range", "floor", "ceiling", "round", "chop", "factor_integer", "prime_sum", "expand", "factor", "apart",
    "together", "collect", "random_real", "power_mod", "random_word",
];
fn strange() -> BoxedStrategy<String> {
    prop_oneof![
        3 => lang::path(),
        2 => proptest::sample::select(vec!["Plus", "firsts", "fir", "lengt", "length_", "factorial2", "fibonaccI", "add2", "timesx", "subtract", "divide", "minus", "not", "unpack", "quotient", "f", "List", "Index"]).prop_map(String::from),
    ]
    .boxed()
}
/// an integer argument no built-in takes long for
fn safe_integer() -> BoxedStrategy<M> {
    prop_oneof![
        5 => (0u32..30).prop_map(|n| M::Int(n.to_string())),
        1 => (64usize..200, any::<u16>()).prop_map(|(k, d)| M::Int(((BigInt::one() << k) + d).to_string())),
        1 => "0b[01]{1,4}|0x[0-9a-f]".prop_map(M::Byte),
    ]
    .boxed()
}
fn argument() -> BoxedStrategy<M> {
    let leaf = prop_oneof![
        30 => safe_integer(),
        10 => (0u32..20, "[0-9]{1,4}").prop_map(|(a, b)| M::Dec(format!("{a}.{b}"))),
        10 => any::<bool>().prop_map(M::Bool),
        10 => Just(M::Null),
        20 => lang::string_body().prop_map(M::Str),
        1 => lang::long_text().prop_map(M::Str),
        10 => Just(M::Str(String::new())),
        10 => lang::path().prop_map(M::Sym),
        10 => lang::slot(),
    ]
    .boxed();
    prop_oneof![
        8 => leaf.clone(),
        1 => proptest::collection::vec(leaf.clone(), 0..3).prop_map(M::List),
        1 => (proptest::sample::select(lang::PREFIX), leaf.clone()).prop_map(|(p, x)| M::Pre(p.into(), Box::new(x))),
        1 => (proptest::sample::select(lang::SUFFIX), leaf.clone()).prop_map(|(p, x)| M::Suf(p.into(), Box::new(x))),
        1 => (proptest::sample::select(lang::EVERY), leaf.clone(), leaf.clone()).prop_map(|(p, x, y)| M::Inf(p.into(), Box::new(x), Box::new(y))),
        1 => (proptest::sample::select(vec!["first", "factorial", "g"]), leaf).prop_map(|(f, x)| as_call(f, vec![x])),
    ]
    .boxed()
}
fn is_text(m: &M) -> bool {
    matches!(m, M::Str(_) | M::Block(..))
}
fn is_whole(m: &M) -> bool {
    matches!(m, M::Int(_) | M::Byte(_))
}
/// neither a string, a number, nor something that could stand for one
fn is_other(m: &M) -> bool {
    matches!(m, M::Bool(_) | M::Null | M::Sym(_) | M::List(_) | M::Slot(_) | M::Repl(_))
}
fn is_number(m: &M) -> bool {
    is_whole(m) || matches!(m, M::Dec(_))
}
/// exponents that would take forever
fn heavy(m: &M) -> bool {
    m.any(|x| match x {
        M::Int(s) => s.len() > 3 && lang::big(s) < (BigInt::one() << 64),
        M::Byte(s) => s.len() > 5 && lang::big(&radix_value(s)) > BigInt::from(999) && lang::big(&radix_value(s)) < (BigInt::one() << 64),
        _ => false,
    })
}
/// longest run of digits
fn digits(t: &str) -> usize {
    let (mut n, mut most) = (0, 0);
    for c in t.chars() {
        if c.is_ascii_hexdigit() || c == '_' || c == 'x' || c == 'X' {
            n += c.is_ascii_hexdigit() as usize;
            most = most.max(n);
        } else {
            n = 0;
        }
    }
    most
}
pub struct Robust;
impl Prop for Robust {
    type Case = Use;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "calls and method calls of every built-in, every library function the evaluator does not offer, and made-up names, with 0 to 4 arguments of every kind (enumerated for up to 2 arguments), options and chained groups; random expressions over the whole language; grammar sentences, token soup and edited sentences as text. Oracle: no panic; a call without arguments, with too many, with chained groups, with an argument of a kind the built-in cannot take, or of an unknown function is an error; a text the parser refuses is refused; and evaluating the same text again in a new session gives the same. Non-trivial: the text parses"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(500_000, 5_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Use> {
        let s = |x: &str| x.to_string();
        let kinds: Vec<M> = vec![
            M::Int(s("0")),
            M::Int(s("3")),
            M::Int(s("36893488147419103233")),
            M::Dec(s("1.5")),
            M::Dec(s("0.0")),
            M::Byte(s("0x1")),
            M::Bool(true),
            M::Bool(false),
            M::Null,
            M::Str(s("")),
            M::Str(s("ab")),
            M::Str("é€".repeat(1000) + "a" + &"😀变".repeat(2000)),
            M::Str(s("a") + &"€".repeat(30)),
            M::Block(0, s("ab")),
            M::Sym(s("x")),
            M::Sym(s("first")),
            M::Slot(s("#")),
            M::Slot(s("#1")),
            M::Repl(s("¶")),
            M::List(vec![]),
            M::List(vec![M::Int(s("1")), M::Int(s("2"))]),
            M::Pre(s("-"), Box::new(M::Int(s("1")))),
            M::Suf(s("!"), Box::new(M::Int(s("3")))),
            M::Inf(s("+"), Box::new(M::Int(s("1"))), Box::new(M::Int(s("2")))),
            M::Inf(s("="), Box::new(M::Sym(s("x"))), Box::new(M::Int(s("2")))),
            as_call("f", vec![]),
            as_call("first", vec![M::Str(s("a"))]),
            M::Index(Box::new(M::Sym(s("x"))), vec![lang::Ix::One(M::Int(s("1")))]),
        ];
        let plain = |m: &M| Arg { key: None, val: m.clone() };
        let names: Vec<&str> = STRINGS.iter().chain(&UNARY).chain(&BINARY).chain(&INTERNAL).copied().chain(["f", "firsts", "std::first", "a::b"]).collect();
        let qualified: Vec<String> = STRINGS.iter().chain(&UNARY).chain(&BINARY).flat_map(|n| ["std", "a", "a::b", "std::prefix", "std::infix", "std::suffix", "std::core"].map(|p| format!("{p}::{n}"))).collect();
        let names: Vec<&str> = names.into_iter().chain(qualified.iter().map(|s| s.as_str())).collect();
        let mut v: Vec<Use> = ["", " ", ";", ";;", "\n", "%%%c%%%", "/// c\n"].iter().map(|t| Use::Text(t.to_string())).collect();
        for n in names {
            v.push(Use::Built { name: s(n), groups: vec![vec![]], method: false });
            for a in &kinds {
                for method in [false, true] {
                    v.push(Use::Built { name: s(n), groups: vec![vec![plain(a)]], method });
                    v.push(Use::Built { name: s(n), groups: vec![vec![plain(a)], vec![]], method });
                    for b in &kinds {
                        v.push(Use::Built { name: s(n), groups: vec![vec![plain(a), plain(b)]], method });
                    }
                }
                v.push(Use::Built { name: s(n), groups: vec![vec![Arg { key: Some(s("k")), val: a.clone() }]], method: false });
            }
        }
        for a in &kinds {
            v.push(Use::Expr(a.clone()));
            for p in lang::PREFIX {
                v.push(Use::Expr(M::Pre(s(p), Box::new(a.clone()))));
            }
            for p in lang::SUFFIX {
                v.push(Use::Expr(M::Suf(s(p), Box::new(a.clone()))));
            }
            for b in &kinds {
                for p in lang::EVERY {
                    v.push(Use::Expr(M::Inf(s(p), Box::new(a.clone()), Box::new(b.clone()))));
                }
            }
        }
        for m in lang::huge(lang::Cfg::FULL) {
            if m.count(|_| true) < 1100 {
                v.push(Use::Expr(m));
            }
        }
        for n in lang::sizes(1100) {
            for f in STRINGS.iter().chain(&UNARY).chain(&BINARY) {
                for k in [0, 5, 9, 10] {
                    v.push(Use::Built { name: s(f), groups: vec![vec![plain(&kinds[k]); n]], method: n % 2 == 0 });
                }
                v.push(Use::Built { name: s(f), groups: vec![vec![plain(&kinds[1])]; n.min(300)], method: n % 2 == 0 });
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Use> {
        let name = prop_oneof![
            3 => proptest::sample::select(STRINGS.iter().chain(&UNARY).chain(&BINARY).copied().collect::<Vec<_>>()).prop_map(String::from),
            1 => proptest::sample::select(INTERNAL.to_vec()).prop_map(String::from),
            1 => strange(),
        ];
        let prefix = prop_oneof![6 => Just(String::new()), 1 => Just("std::".to_string()), 1 => lang::path().prop_map(|p| p + "::")];
        let name = (prefix, name).prop_map(|(p, n)| p + &n);
        let key = proptest::option::weighted(0.1, lang::name());
        let arg = (key, argument()).prop_map(|(key, val)| Arg { key, val });
        let group = prop_oneof![20 => 0usize..5, 1 => 5usize..25].prop_flat_map(move |n| proptest::collection::vec(arg.clone(), n));
        let groups = prop_oneof![8 => proptest::collection::vec(group.clone(), 1..2), 1 => proptest::collection::vec(group, 2..4)];
        let built = (name, groups, any::<bool>()).prop_map(|(name, groups, method)| {
            let method = method && groups[0].first().is_some_and(|a| a.key.is_none());
            Use::Built { name, groups, method }
        });
        let expr = lang::expression(lang::Cfg::FULL).prop_filter("size", |m| crate::shape::moderate(m) && !heavy(m)).prop_map(Use::Expr);
        let g = sentences::grammar();
        let depth = t.pick(10, 14);
        let sentence = sentences::sentence(g.rules(), depth).prop_map(|x| x.1);
        let program = sentences::sentence(vec!["program".into(), "statement".into(), "expression".into(), "expr".into()], depth).prop_map(|x| x.1);
        let text = prop_oneof![
            2 => sentence.clone(),
            4 => program.clone(),
            2 => sentences::soup(14),
            2 => sentences::edited(program.boxed()),
            1 => sentences::noise(),
            1 => sentences::nested(30),
        ];
        let text = text.prop_filter("size", |t| sentences::tame(t) && digits(t) <= 3).prop_map(Use::Text);
        prop_oneof![5 => built, 3 => expr, 4 => text].boxed()
    }
    fn check(&self, c: &Use, o: &mut Obs) -> Check {
        let mut refused: Option<&'static str> = None;
        let text = match c {
            Use::Text(t) => {
                o.label("text");
                t.clone()
            }
            Use::Expr(m) => {
                o.label("expression");
                compact(m).text
            }
            Use::Built { name, groups, method } => {
                o.label("call");
                let args: Vec<&M> = groups[0].iter().filter(|a| a.key.is_none()).map(|a| &a.val).collect();
                let n = args.len();
                let known = STRINGS.contains(&&**name) || UNARY.contains(&&**name) || BINARY.contains(&&**name);
                let known_last = {
                    let l = name.rsplit("::").next().unwrap();
                    STRINGS.contains(&l) || UNARY.contains(&l) || BINARY.contains(&l)
                };
                let why = if groups.len() > 1 {
                    Some("chained groups")
                } else if !known && !known_last && !INTERNAL.contains(&&**name) {
                    Some("unknown function")
                } else if known && n == 0 {
                    Some("no argument")
                } else if STRINGS.contains(&&**name) {
                    if n > 1 {
                        Some("too many arguments")
                    } else if is_other(args[0]) || is_number(args[0]) {
                        Some("unsupported argument")
                    } else {
                        None
                    }
                } else if UNARY.contains(&&**name) {
                    if n > 1 {
                        Some("too many arguments")
                    } else if is_other(args[0]) || is_text(args[0]) {
                        Some("unsupported argument")
                    } else {
                        None
                    }
                } else if BINARY.contains(&&**name) {
                    if args.iter().any(|a| is_other(a) || is_text(a)) {
                        Some("unsupported argument")
                    } else if name == "power" && n > 2 {
                        Some("too many arguments")
                    } else {
                        None
                    }
                } else {
                    None
                };
                if let Some(w) = why {
                    o.label(w);
                }
                refused = why;
                let m = if *method {
                    let mut rest = groups.clone();
                    let a = rest[0].remove(0).val;
                    M::Dot(Box::new(a), Box::new(M::Call(name.clone(), rest)))
                } else {
                    M::Call(name.clone(), groups.clone())
                };
                compact(&m).text
            }
        };
        let parsed = pbt::quietly(|| settings("anonymous").parse(&text));
        let Ok(parsed) = parsed else {
            // the parser itself crashing is C29's business; evaluating must not
            return fresh(&text).map(|_| ());
        };
        o.trivial_if(parsed.is_err());
        o.label_if(parsed.is_err(), "does not parse");
        let got = fresh(&text)?;
        o.label_if(got.is_ok(), "answered");
        if let Some(w) = refused {
            ensure!(got.is_err(), "{text:?} ({w}) evaluates to {}", told(&got));
        }
        if let Err(e) = &parsed {
            ensure!(got.is_err(), "{text:?} does not parse ({e:?}) but evaluates to {}", told(&got));
        }
        let again = fresh(&text)?;
        ensure!(told(&got) == told(&again), "{text:?} evaluates to {} and then to {}", told(&got), told(&again));
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        ["chained groups", "unknown function", "too many arguments", "unsupported argument", "answered", "text", "expression", "does not parse"].into_iter().map(|l| (l, 1000)).chain([("no argument", 9)]).collect()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["integers in generated calls are below 1000 or beyond the machine word, so that no result is larger than memory"]
    }
}

// ------------------------------------------------------------------------------------------------ sessions
const INPUTS: &[&str] = &[
        "", " ", ";", "1", "2", "12", "1 2", "1  2", "21", "2 1", "1+2", "1 + 2", "2+1", "1*2", "2^10", "10^2", "3!", "3!!", "factorial(3)", "fibonacci(3)", "3.fibonacci", "\"a\"", "\"A\"", "\"a b\"", "\"ab\"", "\" a\"", "\"1\"", "\"1+2\"", "a", "A", "x",
        "true", "\"true\"", "null", "1.5", "1.50", "01", "f(1)", "f()", "first(\"ab\")", "last(\"ab\")", "first(\"\")", "length(\"\")", "length(\"abc\")", "first()", "first(1)", "1/2", "1-1", "(", "1+", "\"", "1 2 3", "1;2", "1; f(1)", "f(1); 1",
        "factorial(36893488147419103232)", "2^36893488147419103232", "x = 1", "x=1; x", "[1,2]", "[]", "%", "%1", "?", "let x = 1", "import x", "ans", "%%%c%%%", "/// c\n1", "0x10", "16", "last", "plus(1,2)", "plus(1)", "plus(1,2,3)", "power(2,3)", "-1", "+1",
];
/// answer, last value and its TeX form of a session that is alone in its process
pub fn alone() {
    std::panic::set_hook(Box::new(|_| {}));
    ALONE.store(true, Ordering::Relaxed);
    let text = std::env::args().nth(2).unwrap_or_default();
    let a = match outcome(&text) {
        Ok((r, v)) => (told(&r), v.map(|n| show(&n)), answers(&text).ok()),
        Err(_) => return,
    };
    println!("{}", pbt::serde_json::to_string(&a).unwrap());
}
type Alone = (String, Option<String>, Option<(String, String)>);
/// The same, asked of a new process: a session of this process could share state with the ones before it. Only for
/// the listed inputs; none when that process gave no answer.
fn pristine(text: &str) -> Option<&'static Alone> {
    static KNOWN: [OnceLock<Option<Alone>>; INPUTS.len()] = [const { OnceLock::new() }; INPUTS.len()];
    let i = INPUTS.iter().position(|t| *t == text)?;
    KNOWN[i]
        .get_or_init(|| {
            let out = std::process::Command::new(std::env::current_exe().ok()?).arg("alone").arg(text).stdin(std::process::Stdio::null()).output().ok()?;
            pbt::serde_json::from_slice(&out.stdout).ok()
        })
        .as_ref()
}
/// inputs of all fates, many of them easily confused with one another
pub fn input() -> BoxedStrategy<String> {
    let n = || prop_oneof![3 => 0u32..12, 1 => 0u32..1000];
    let plain = prop_oneof![
        6 => proptest::sample::select(INPUTS).prop_map(String::from),
        2 => (n(), proptest::sample::select(vec!["+", "*", " + ", " * ", " "]), n()).prop_map(|(a, o, b)| format!("{a}{o}{b}")),
        1 => (0u32..60).prop_map(|a| format!("{a}!")),
        1 => n().prop_map(|a| a.to_string()),
        1 => lang::string_body().prop_map(|s| format!("\"{s}\"")),
        1 => lang::name(),
        1 => (proptest::sample::select(vec!["first", "last", "length", "factorial", "nope"]), lang::string_body()).prop_map(|(f, s)| format!("{f}(\"{s}\")")),
    ];
    // what a user's keyboard, a file or a form puts around an input, also around one that stops too early
    let around = || proptest::sample::select(vec!["", "\n", " ", "\r\n", "\t", "\n\n", "\r", ";", "　", "\u{feff}", "\0", "\u{a0}", "\u{2028}", "//! x", "\n  "]);
    let stop = proptest::sample::select(vec!["", "", " +", "(", "[", ",", " ^", "\"", ".", ")"]);
    prop_oneof![3 => plain.clone(), 1 => (around(), plain, stop, around()).prop_map(|(a, t, s, b)| format!("{a}{t}{s}{b}"))].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Eval(usize, String, u16),
    Last(usize),
    Clone(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    steps: Vec<Step>,
}
pub struct Session;
/// fresh outcome: what is printed and the value itself
fn outcome(text: &str) -> Result<(SMResult<String>, Option<N>), Bad> {
    let mut r = Runner::default();
    let got = evaluate(&mut r, text)?;
    let value = match &got {
        Ok(_) => match no_panic("asking for the last result", || r.last())? {
            Ok(a) => Some(norm(&a)),
            Err(e) => return fail(format!("after evaluating {text:?} to {}, the last result is {e:?}", told(&got))),
        },
        Err(_) => None,
    };
    Ok((got, value))
}
impl Prop for Session {
    type Case = History;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "random histories of up to 40 steps over up to 5 sessions: evaluate one of about 80 fixed or generated inputs (succeeding, refused, unparsable; many differing only in spacing, case or type), each up to 400 times in a row, ask for the last result, or clone a session. Two of the histories have 70 000 inputs. Oracle: every result equals that of the same input in a new session, for the fixed inputs also in a new process, errors by kind and text; the last result is the value of the session's own most recent input, an error when that failed or there was none. Non-trivial: at least three evaluations, one of them repeated or following a failure"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(75_000, 600_000)
    }
    fn fixed(&self, _: Tier) -> Vec<History> {
        // long inputs, each asked again after the others
        let big = [format!("\"{}\"", "x".repeat(70_000)), format!("\"{}y\"", "x".repeat(69_999)), format!("1{}", "0".repeat(5000)), format!("1{}1", "0".repeat(4999)), vec!["1"; 999].join("+"), vec!["1"; 1000].join(";"), format!("f({})", vec!["1"; 1000].join(","))];
        let texts = History { steps: big.iter().chain(big.iter().rev()).flat_map(|t| [Step::Eval(0, t.clone(), 2), Step::Last(0)]).collect() };
        // the wrap of a counter of 16 bits
        let long = |text: &str| History { steps: vec![Step::Eval(0, text.into(), 65_000), Step::Eval(0, "1+2".into(), 1), Step::Last(0), Step::Eval(0, "2".into(), 600), Step::Last(0), Step::Eval(0, "f(1)".into(), 1), Step::Last(0), Step::Eval(0, "\"a\"".into(), 5000), Step::Last(0), Step::Clone(0), Step::Eval(1, "(".into(), 1), Step::Last(1), Step::Last(0)] };
        vec![History { steps: vec![Step::Last(0), Step::Eval(0, "1".into(), 1), Step::Last(0), Step::Eval(0, "f(1)".into(), 1), Step::Last(0), Step::Clone(0), Step::Last(1), Step::Eval(1, "2".into(), 1), Step::Last(0), Step::Last(1)] }, long("1"), long("("), texts]
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<History> {
        let times = prop_oneof![12 => Just(1u16), 3 => 2u16..5, 1 => 5u16..40];
        let long = prop_oneof![20 => times, 1 => 200u16..400];
        let step = prop_oneof![
            8 => (0usize..5, input(), long).prop_map(|(s, i, n)| Step::Eval(s, i, n)),
            4 => (0usize..5).prop_map(Step::Last),
            1 => (0usize..5).prop_map(Step::Clone),
        ];
        proptest::collection::vec(step, 0..t.pick(40, 120)).prop_map(|steps| History { steps }).boxed()
    }
    fn check(&self, c: &History, o: &mut Obs) -> Check {
        let mut live: Vec<(Runner, Option<(String, N)>)> = vec![(Runner::default(), None)];
        let (mut evals, mut failed, mut seen) = (0usize, false, std::collections::BTreeSet::new());
        let mut interesting = false;
        for (i, s) in c.steps.iter().enumerate() {
            match s {
                Step::Eval(k, text, n) => {
                    let k = k % live.len();
                    let (want, value) = outcome(text)?;
                    if let Some((w, v, _)) = pristine(text) {
                        o.label("compared with a process of its own");
                        ensure!(told(&want) == *w, "step {i}: {text:?} evaluates to {} in a new session and to {w} in a new process", told(&want));
                        let v2 = value.as_ref().map(show);
                        ensure!(v2 == *v, "step {i}: {text:?} has the value {v2:?} in a new session and {v:?} in a new process");
                    }
                    for j in 0..*n {
                        let got = evaluate(&mut live[k].0, text)?;
                        ensure!(told(&got) == told(&want), "step {i}: {text:?} (time {}) evaluates to {}, in a new session to {}", j + 1, told(&got), told(&want));
                    }
                    o.label_if(*n > 100, "hundreds of inputs");
                    evals += *n as usize;
                    interesting |= *n > 1 || failed || !seen.insert(text.clone());
                    if want.is_err() {
                        failed = true;
                        o.label("failing input");
                        live[k].1 = None;
                    } else {
                        o.label_if(failed, "succeeds after a failure");
                        live[k].1 = Some((want.unwrap(), value.unwrap()));
                    }
                }
                Step::Last(k) => {
                    let k = k % live.len();
                    let got = no_panic(&format!("step {i}: asking for the last result"), || live[k].0.last())?;
                    match (&live[k].1, &got) {
                        (Some((printed, n)), Ok(a)) => {
                            o.label("last of a success");
                            let p = no_panic("printing the last result", || a.to_string())?;
                            ensure!(norm(a) == *n && p == *printed, "step {i}: the last result is {p:?}, the input evaluated to {printed:?}");
                        }
                        (None, Err(_)) => o.label("last without one"),
                        (Some((printed, _)), Err(e)) => return fail(format!("step {i}: the last result is {e:?}, the input evaluated to {printed:?}")),
                        (None, Ok(a)) => return fail(format!("step {i}: the last result is {}, but the most recent input failed or there is none", show(&norm(a)))),
                    }
                }
                Step::Clone(k) => {
                    let k = k % live.len();
                    if live.len() < 5 {
                        o.label("cloned");
                        let x = live[k].clone();
                        live.push(x);
                    }
                }
            }
        }
        o.trivial_if(evals < 3 || !interesting);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("hundreds of inputs", 300), ("failing input", 3000), ("succeeds after a failure", 3000), ("last of a success", 3000), ("last without one", 3000), ("cloned", 3000)]
    }
}

// ------------------------------------------------------------------------------------------------ C26
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Look {
    Text(String),
    /// each of these characters at the start and at the end
    Ends(String),
    /// not a string
    Other(M),
    Head(M),
}
pub struct Inspect;
fn one_char(what: &str, r: SMResult<AST>, want: Option<char>) -> Check {
    match (r, want) {
        (Ok(AST::String(s)), Some(c)) if s == c.to_string() => Ok(()),
        (Err(SMError::EmptyContainer(_)), None) => Ok(()),
        (Ok(a), w) => fail(format!("{what} is {}, expected {w:?}", show(&norm(&a)))),
        (Err(e), w) => fail(format!("{what} is {e:?}, expected {w:?}")),
    }
}
impl Prop for Inspect {
    type Case = Look;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "strings of 0 to 12 pieces (ASCII, multi-byte letters, emoji, combining marks, control characters, escapes), long strings, and every single character of the first two planes at either end, asked directly and through call and method-call notation; all literal kinds and calls with one to four groups for head. Oracle: the generator's own characters; length is 0 only for the empty string and the count for ASCII. Non-trivial: a non-empty string with distinct ends or a call"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(600_000, 4_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Look> {
        let mut v: Vec<Look> = (0u32..0x800).step_by(1).chain((0x800..0x20000).step_by(37)).filter_map(char::from_u32).filter(|c| *c != '"' && *c != '\\').map(|c| Look::Text(c.to_string())).collect();
        v.extend(["", "ab", "aé", "éa", "😀a", "a😀", "e\u{301}", "a\u{301}b", "\u{200d}", "a\0", "\0a", "👨\u{200d}👩", "\u{feff}a", "🇩🇪", "\r\n", "aa", "  a  ", " ", "\t", "\n"].map(|s| Look::Text(s.into())));
        for n in lang::sizes(5000).into_iter().chain([100, 4096, 8192, 32_768, 65_535, 65_536, 65_537, 70_000, 131_072]) {
            v.push(Look::Text("ab".repeat(n)));
            v.push(Look::Text(format!("é{}变", "x".repeat(n))));
            v.push(Look::Text("x".repeat(n)));
        }
        // every character in turn at either end
        let all: Vec<char> = (0u32..0x20000).chain(0xe0000..0xe0200).filter_map(char::from_u32).filter(|c| *c != '"' && *c != '\\').collect();
        v.extend(all.chunks(256).map(|c| Look::Ends(c.iter().collect())));
        for n in lang::sizes(600) {
            let arg = |i: usize| Arg { key: None, val: M::Int(i.to_string()) };
            v.push(Look::Head(M::Call("f".into(), (0..n).map(|i| vec![arg(i)]).collect())));
            v.push(Look::Head(M::Call("f".into(), vec![vec![], (0..n).map(arg).collect(), vec![]])));
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Look> {
        // characters that join, select, mark or hide
        let odd = proptest::sample::select("\u{200d}\u{200c}\u{fe0f}\u{fe0e}\u{301}\u{20e3}\u{1f3fb}\u{e0100}\u{e0067}\u{feff}\u{200b}\u{ad}\u{2028}\u{85}\u{200f}\u{1f1e9}\u{1100}\u{1161}\u{11a8}\u{fffd}\u{ffff}\u{10ffff}\0❤👩a é".chars().collect::<Vec<char>>());
        let text = prop_oneof![40 => lang::string_body(), 20 => proptest::collection::vec(odd, 1..8).prop_map(String::from_iter), 1 => lang::long_text(), 20 => "[ -!#-\\[\\]-~]{0,30}", 10 => "[a-z]{0,200}", 10 => proptest::collection::vec(any::<char>().prop_filter("quotes", |c| *c != '"' && *c != '\\'), 0..6).prop_map(String::from_iter)];
        let calls = lang::call(lang::leaf(lang::Cfg::FULL), true, true);
        let many = (lang::path(), proptest::collection::vec(proptest::collection::vec(lang::leaf(lang::Cfg::FULL).prop_map(|val| Arg { key: None, val }), 0..3), 1..5)).prop_map(|(f, g)| M::Call(f, g));
        let leaf = lang::leaf(lang::Cfg::FULL);
        prop_oneof![6 => text.prop_map(Look::Text), 1 => leaf.clone().prop_filter("strings are the other kind", |m| !is_text(m)).prop_map(Look::Other), 2 => leaf.prop_map(Look::Head), 2 => calls.prop_map(Look::Head), 3 => many.prop_map(Look::Head)].boxed()
    }
    fn check(&self, c: &Look, o: &mut Obs) -> Check {
        match c {
            Look::Ends(cs) => {
                o.label("each character at either end");
                for c in cs.chars() {
                    for t in [format!("a{c}"), format!("{c}a"), format!("é{c}{c}")] {
                        let a = AST::String(t.clone());
                        one_char(&format!("first of {t:?}"), no_panic("first", || internal::first(&a))?, t.chars().next())?;
                        one_char(&format!("last of {t:?}"), no_panic("last", || internal::last(&a))?, t.chars().last())?;
                    }
                }
                Ok(())
            }
            Look::Text(s) => {
                let (first, last) = (s.chars().next(), s.chars().last());
                o.trivial_if(first == last);
                o.label_if(s.is_empty(), "empty");
                o.label_if(s.is_ascii() && s.len() > 1, "ASCII");
                o.label_if(!s.is_ascii(), "beyond ASCII");
                let a = AST::String(s.clone());
                one_char(&format!("first of {s:?}"), no_panic("first", || internal::first(&a))?, first)?;
                one_char(&format!("last of {s:?}"), no_panic("last", || internal::last(&a))?, last)?;
                let length = |what: &str, n: &str| -> Check {
                    let n: usize = match n.parse() {
                        Ok(n) => n,
                        Err(_) => return fail(format!("{what} of {s:?} is {n:?}")),
                    };
                    ensure!((n == 0) == s.is_empty(), "{what} of {s:?} is {n}");
                    ensure!(!s.is_ascii() || n == s.len(), "{what} of {s:?} is {n}, it has {} characters", s.len());
                    Ok(())
                };
                match no_panic("length", || internal::length(&a))? {
                    Ok(AST::Integer(n)) => length("length", &n.to_string())?,
                    x => return fail(format!("length of {s:?} is {x:?}")),
                }
                // as written: s is the text between the quotes
                let lit = format!("\"{s}\"");
                for form in ["NAME(LIT)", "LIT.NAME", "LIT.NAME()"] {
                    for name in ["first", "last", "length"] {
                        let t = form.replacen("NAME", name, 1).replacen("LIT", &lit, 1);
                        let got = fresh(&t)?;
                        let want = if name == "first" { first } else { last };
                        match (name, &got) {
                            ("length", Ok(n)) => length(&t, n)?,
                            ("length", Err(e)) => return fail(format!("{t:?} is refused: {e:?}")),
                            (_, Ok(g)) => ensure!(want.is_some_and(|c| *g == c.to_string()), "{t:?} evaluates to {g:?}, expected {want:?}"),
                            (_, Err(e)) => ensure!(want.is_none() && matches!(e, SMError::EmptyContainer(_)), "{t:?} reports {e:?}, expected {want:?}"),
                        }
                    }
                }
                Ok(())
            }
            Look::Other(m) => {
                o.label("not a string");
                let a = accepted(&compact(m).text)?;
                for (n, r) in [("first", no_panic("first", || internal::first(&a))?), ("last", no_panic("last", || internal::last(&a))?), ("length", no_panic("length", || internal::length(&a))?)] {
                    ensure!(r.is_err(), "{n} of {} is {}", show(&norm(&a)), show(&norm(&r.unwrap())));
                }
                o.trivial = true;
                Ok(())
            }
            Look::Head(m) => {
                let r = compact(m);
                let a = accepted(&r.text)?;
                let h = norm(&no_panic(&format!("head of {:?}", r.text), || internal::head(&a))?).strip();
                let want = match &r.expect {
                    N::Bool(_) => N::Sym("std::core::Boolean".into()),
                    N::Int(_) => N::Sym("std::core::Integer".into()),
                    N::Dec(_) => N::Sym("std::core::Decimal".into()),
                    N::Str(_) => N::Sym("std::core::String".into()),
                    N::Sym(_) => N::Sym("std::core::Symbol".into()),
                    N::Fn(f, gs) if gs.len() == 1 => N::Sym(f.clone()),
                    N::Fn(f, gs) => N::Fn(f.clone(), gs[..gs.len() - 1].to_vec()),
                    x => return Err(Bad::Harness(format!("head of {x:?}"))),
                };
                o.trivial_if(!matches!(m, M::Call(..)));
                o.label(match m {
                    M::Call(_, g) if g.len() > 1 => "head of a chained call",
                    M::Call(..) => "head of a call",
                    _ => "head of a literal",
                });
                let want = named(want).strip();
                ensure!(h == want, "head of {:?} is {}, expected {}", r.text, show(&h), show(&want));
                Ok(())
            }
        }
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("empty", 100), ("ASCII", 3000), ("beyond ASCII", 3000), ("not a string", 1000), ("head of a literal", 1000), ("head of a call", 1000), ("head of a chained call", 1000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the length of a string beyond ASCII is only required to be non-zero"]
    }
}

// ------------------------------------------------------------------------------------------------ C28
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Result(String),
    Tex,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Visit {
    asks: Vec<Ask>,
    /// then at the same time
    threads: Vec<Vec<Ask>>,
    after: Vec<Ask>,
}
static ALONE: AtomicBool = AtomicBool::new(false);
static VISITED: AtomicBool = AtomicBool::new(false);
/// what the playground must answer to an input, and to a TeX query right after
fn answers(text: &str) -> Result<(String, String), Bad> {
    let mut r = Runner::default();
    let a = match evaluate(&mut r, text)? {
        Ok(s) => s,
        Err(e) => format!("{e:?}"),
    };
    let t = match no_panic("asking for the last result", || r.last())? {
        Ok(x) => no_panic("TeX of the last result", || x.to_tex())?,
        Err(e) => format!("{e:?}"),
    };
    if !ALONE.load(Ordering::Relaxed) {
        if let Some((_, _, Some(w))) = pristine(text) {
            ensure!((&a, &t) == (&w.0, &w.1), "{text:?} gives {a:?} and {t:?} in a new session, {:?} and {:?} in a new process", w.0, w.1);
        }
    }
    Ok((a, t))
}
fn empty_tex() -> Result<String, Bad> {
    match no_panic("asking for the last result", || Runner::default().last())? {
        Ok(x) => fail(format!("a new session has the last result {}", show(&norm(&x)))),
        Err(e) => Ok(format!("{e:?}")),
    }
}
pub struct Playground;
impl Playground {
    fn serial(asks: &[Ask], tex: &mut Option<Vec<String>>) -> Check {
        for (i, a) in asks.iter().enumerate() {
            match a {
                Ask::Result(t) => {
                    let (want, x) = answers(t)?;
                    let got = no_panic(&format!("playground result of {t:?}"), || sm_playground::result(t))?;
                    ensure!(got == want, "question {i}: the playground answers {got:?} to {t:?}, a session {want:?}");
                    *tex = Some(vec![x]);
                }
                Ask::Tex => {
                    let got = no_panic("playground TeX", sm_playground::result_tex)?;
                    if let Some(v) = tex {
                        ensure!(v.contains(&got), "question {i}: the TeX result is {got:?}, expected {v:?}");
                    }
                }
            }
        }
        Ok(())
    }
}
impl Prop for Playground {
    type Case = Visit;
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "random histories on the one playground of the process: up to 25 inputs (succeeding, refused, unparsable) and TeX queries in a row, then for a fifth of the cases 2 to 4 threads with up to 12 each at the same time, then up to 6 more. Oracle: each result is what a new session prints or its error's debug text; a TeX query gives the TeX form of the previous input's value or an error text (with threads: of one of the inputs that can have been last); the first query of a process, before any input, gives the new session's error. Non-trivial: an input after a failing input"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(100_000, 500_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Visit> {
        let r = |s: &str| Ask::Result(s.into());
        let many = |n: usize, v: &[Ask]| v.iter().cloned().cycle().take(n).collect::<Vec<_>>();
        let long = |s: String| Visit { asks: vec![r("2"), r(&s), Ask::Tex, r("1"), Ask::Tex], threads: vec![], after: vec![r(&s), Ask::Tex] };
        vec![
            Visit { asks: many(66_000, &[r("1")]), threads: vec![], after: vec![Ask::Tex, r("2"), Ask::Tex, r("("), Ask::Tex] },
            Visit { asks: many(3000, &[r("1"), r("("), r("f(1)"), Ask::Tex, r("1+2"), Ask::Tex]), threads: vec![], after: vec![Ask::Tex] },
            long(format!("\"{}\"", "x".repeat(70_000))),
            long(format!("\"{}\"", "é变".repeat(30_000))),
            long(format!("1{}", "0".repeat(5000))),
            long(format!("9{}*9{}", "9".repeat(3000), "9".repeat(3000))),
            long(vec!["1"; 1000].join("+")),
            long(vec!["1"; 1000].join(";")),
            long("(".repeat(60)),
            long(format!("f({})", vec!["1"; 1000].join(","))),
            Visit { asks: vec![r("1+2"), Ask::Tex, r("("), Ask::Tex, r("1+2"), Ask::Tex, r("f(1)"), Ask::Tex, r("first()"), r("\"a\""), Ask::Tex, r(""), Ask::Tex], threads: vec![], after: vec![] },
        ]
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<Visit> {
        let ask = || prop_oneof![3 => input().prop_map(Ask::Result), 1 => Just(Ask::Tex)];
        let threads = prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(proptest::collection::vec(ask(), 1..12), 2..5)];
        (proptest::collection::vec(ask(), 0..25), threads, proptest::collection::vec(ask(), 0..6)).prop_map(|(asks, threads, after)| Visit { asks, threads, after }).boxed()
    }
    fn check(&self, c: &Visit, o: &mut Obs) -> Check {
        // every input must be fine in a session first: a panic inside the playground spoils its lock for good
        let mut failed = false;
        o.trivial = true;
        for a in c.asks.iter().chain(c.threads.iter().flatten()).chain(&c.after) {
            if let Ask::Result(t) = a {
                answers(t)?;
                o.trivial &= !failed;
                failed |= fresh(t)?.is_err();
            }
        }
        if !VISITED.swap(true, Ordering::SeqCst) {
            let want = empty_tex()?;
            let got = no_panic("playground TeX before any input", sm_playground::result_tex)?;
            ensure!(got == want, "before any input the TeX result is {got:?}, expected {want:?}");
        }
        let mut tex = None;
        Self::serial(&c.asks, &mut tex)?;
        if !c.threads.is_empty() {
            o.label("several threads");
            let mut possible: Option<Vec<String>> = tex.clone();
            let mut plan = vec![];
            for t in &c.threads {
                let mut p = vec![];
                for a in t {
                    p.push(match a {
                        Ask::Result(t) => {
                            let (w, x) = answers(t)?;
                            if let Some(v) = &mut possible {
                                v.push(x);
                            }
                            Some((t.clone(), w))
                        }
                        Ask::Tex => None,
                    });
                }
                plan.push(p);
            }
            let possible = &possible;
            let gate = &std::sync::Barrier::new(plan.len());
            let results: Vec<Check> = std::thread::scope(|s| {
                let hs: Vec<_> = plan
                    .iter()
                    .map(|p| {
                        s.spawn(move || -> Check {
                            gate.wait();
                            for x in p {
                                match x {
                                    Some((t, want)) => {
                                        let got = no_panic(&format!("playground result of {t:?} in a thread"), || sm_playground::result(t))?;
                                        ensure!(got == *want, "among threads, the playground answers {got:?} to {t:?}, a session {want:?}");
                                    }
                                    None => {
                                        let got = no_panic("playground TeX in a thread", sm_playground::result_tex)?;
                                        if let Some(v) = possible {
                                            ensure!(v.contains(&got), "among threads, the TeX result is {got:?}, no input can have given it");
                                        }
                                    }
                                }
                            }
                            Ok(())
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| fail("a thread panicked"))).collect()
            });
            for r in results {
                r?;
            }
            tex = possible.clone();
        }
        o.label_if(c.asks.iter().any(|a| matches!(a, Ask::Tex)), "TeX query");
        o.label_if(failed, "failing input");
        Self::serial(&c.after, &mut tex)
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("several threads", 2000), ("TeX query", 3000), ("failing input", 3000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["thread interleavings are whatever the scheduler gives; they are not enumerated"]
    }
}
