//! The code under test, seen as plain data.
use pbt::lang::{self, Group, Pos, N};
use pbt::{no_panic, Bad};
use sm_ast::{parser::ParserSettings, SMError, AST};
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// `refine` has no meaning yet, so it must not make a difference: it changes from file name to file name
pub fn settings(file: &str) -> ParserSettings {
    ParserSettings { file: file.into(), refine: file.len() % 2 == 1 }
}
/// parse; a panic is a violation of whatever is being checked
pub fn parse(text: &str) -> Result<Result<AST, SMError>, Bad> {
    parse_in("anonymous", text)
}
pub fn parse_in(file: &str, text: &str) -> Result<Result<AST, SMError>, Bad> {
    let how = ParserSettings { file: file.into(), refine: (file.len() + text.len()) % 2 == 1 };
    no_panic(&format!("parsing {text:?}"), || how.parse(text))
}
/// parse a text the model says is an expression
pub fn accepted(text: &str) -> Result<AST, Bad> {
    match parse(text)? {
        Ok(a) => Ok(a),
        Err(e) => pbt::fail(format!("{text:?} is refused: {e:?}")),
    }
}
pub fn norm(a: &AST) -> N {
    match a {
        AST::EmptyStatement => N::Empty,
        AST::Program(v) => N::Program(v.iter().map(norm).collect()),
        AST::Function(s, ps) => N::Fn(
            s.to_string(),
            ps.iter()
                .map(|p| {
                    let mut opts: Vec<(N, N)> = p.options.iter().map(|(k, v)| (norm(k), norm(v))).collect();
                    opts.sort_by(|x, y| format!("{:?}", x.0).cmp(&format!("{:?}", y.0)));
                    Group {
                        args: p.arguments.iter().map(norm).collect(),
                        opts,
                        pos: Some(Pos { file: p.position.file.clone(), start: p.position.start, end: p.position.end }),
                    }
                })
                .collect(),
        ),
        AST::Boolean(b) => N::Bool(*b),
        AST::Integer(i) => N::Int(i.to_string()),
        AST::Decimal(d) => N::Dec(d.to_string()),
        AST::Symbol(s) => N::Sym(s.to_string()),
        AST::String(s) => N::Str(s.clone()),
    }
}
pub fn shape(a: &AST) -> N {
    norm(a).strip()
}

/// operators whose function name the properties leave open, and the name the parser gives them
fn learned() -> &'static BTreeMap<String, String> {
    static L: OnceLock<BTreeMap<String, String>> = OnceLock::new();
    L.get_or_init(|| {
        let mut m = BTreeMap::new();
        for op in lang::EVERY.iter().filter(|o| !lang::ARITH.contains(o)) {
            if let Ok(Ok(AST::Function(s, _))) = pbt::quietly(|| settings("x").parse(&format!("a {op} b"))) {
                m.insert(lang::infix_name(op), s.to_string());
            }
        }
        m
    })
}
/// expectation of the model with the parser's own names for those operators
pub fn named(mut n: N) -> N {
    fn go(n: &mut N) {
        match n {
            N::Program(v) => v.iter_mut().for_each(go),
            N::Fn(f, gs) => {
                if let Some(x) = learned().get(f) {
                    *f = x.clone();
                }
                for g in gs {
                    g.args.iter_mut().for_each(go);
                    g.opts.iter_mut().for_each(|(k, v)| {
                        go(k);
                        go(v)
                    });
                }
            }
            _ => {}
        }
    }
    go(&mut n);
    n
}
/// first difference of two expressions
pub fn diff(got: &N, want: &N) -> String {
    fn brief(n: &N) -> String {
        let s = show(n);
        if s.chars().count() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s }
    }
    match (got, want) {
        (N::Fn(f, a), N::Fn(g, b)) if f == g && a.len() == b.len() => {
            for (x, y) in a.iter().zip(b) {
                if x.args.len() == y.args.len() {
                    for (p, q) in x.args.iter().zip(&y.args) {
                        if p != q {
                            return diff(p, q);
                        }
                    }
                    if x.opts.len() == y.opts.len() && x.pos == y.pos {
                        for ((k, p), (l, q)) in x.opts.iter().zip(&y.opts) {
                            if k != l {
                                return diff(k, l);
                            }
                            if p != q {
                                return diff(p, q);
                            }
                        }
                    } else if x.opts.len() == y.opts.len() {
                        return format!("{} is at {:?}, expected {:?}", f, x.pos, y.pos);
                    }
                }
            }
        }
        (N::Program(a), N::Program(b)) if a.len() == b.len() => {
            for (p, q) in a.iter().zip(b) {
                if p != q {
                    return diff(p, q);
                }
            }
        }
        _ => {}
    }
    format!("got {}, expected {}", brief(got), brief(want))
}
pub fn show(n: &N) -> String {
    match n {
        N::Empty => "(nothing)".into(),
        N::Program(v) => format!("{{{}}}", v.iter().map(show).collect::<Vec<_>>().join("; ")),
        N::Fn(f, gs) => {
            let gs: Vec<String> = gs
                .iter()
                .map(|g| {
                    let mut v: Vec<String> = g.args.iter().map(show).collect();
                    v.extend(g.opts.iter().map(|(k, x)| format!("{}: {}", show(k), show(x))));
                    format!("({})", v.join(", "))
                })
                .collect();
            format!("{f}{}", gs.concat())
        }
        N::Bool(b) => b.to_string(),
        N::Int(s) => s.clone(),
        N::Dec(s) => format!("{s}d"),
        N::Sym(s) => s.clone(),
        N::Str(s) => format!("{s:?}"),
    }
}
