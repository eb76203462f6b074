//! A model of SimpleMath expressions: generated trees, a renderer that knows where every construct ends up
//! in the text, and the parse each tree must have. Knows nothing about the code under test.
use num::{BigInt, Num};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum M {
    Int(String),
    Dec(String),
    Byte(String),
    Bool(bool),
    Null,
    Str(String),
    /// block string with n extra quotes around
    Block(usize, String),
    Sym(String),
    /// literal text of a slot (#, ##, #1, #a) or a session reference (¶2, ⁋⁋)
    Slot(String),
    Repl(String),
    Pre(String, Box<M>),
    Suf(String, Box<M>),
    Inf(String, Box<M>, Box<M>),
    Dot(Box<M>, Box<M>),
    Index(Box<M>, Vec<Ix>),
    Call(String, Vec<Vec<Arg>>),
    Juxt(Vec<M>),
    List(Vec<M>),
    /// redundant brackets
    Paren(Box<M>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ix {
    One(M),
    /// start:end or start:end:step; the last field tells whether the second colon is written
    Range(Option<M>, Option<M>, Option<M>, bool),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Arg {
    pub key: Option<String>,
    pub val: M,
}

/// An expression as data, comparable between the model and the code under test.
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Empty,
    Program(Vec<N>),
    Fn(String, Vec<Group>),
    Bool(bool),
    Int(String),
    Dec(String),
    Sym(String),
    Str(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Group {
    pub args: Vec<N>,
    pub opts: Vec<(N, N)>,
    pub pos: Option<Pos>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub file: String,
    pub start: (usize, usize),
    pub end: (usize, usize),
}
impl N {
    pub fn call(name: &str, args: Vec<N>) -> N {
        N::Fn(name.into(), vec![Group { args, opts: vec![], pos: None }])
    }
    pub fn strip(mut self) -> N {
        self.each_group(&mut |g| g.pos = None);
        self
    }
    pub fn each_group(&mut self, f: &mut impl FnMut(&mut Group)) {
        match self {
            N::Program(v) => v.iter_mut().for_each(|n| n.each_group(f)),
            N::Fn(_, gs) => {
                for g in gs {
                    f(g);
                    g.args.iter_mut().for_each(|n| n.each_group(f));
                    for (k, v) in &mut g.opts {
                        k.each_group(f);
                        v.each_group(f);
                    }
                }
            }
            _ => {}
        }
    }
    /// leaves in order, left to right
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a N>) {
        match self {
            N::Program(v) => v.iter().for_each(|n| n.leaves(out)),
            N::Fn(_, gs) => {
                for g in gs {
                    g.args.iter().for_each(|n| n.leaves(out));
                    g.opts.iter().for_each(|(k, v)| {
                        k.leaves(out);
                        v.leaves(out)
                    });
                }
            }
            x => out.push(x),
        }
    }
}

pub fn radix_value(text: &str) -> String {
    let base = match &text[1..2] {
        "x" | "X" => 16,
        "o" | "O" => 8,
        _ => 2,
    };
    let mut v = BigInt::from(0);
    for c in text[2..].chars().filter(|c| *c != '_') {
        v = v * base + c.to_digit(16).unwrap();
    }
    v.to_string()
}

/// binding strength in the parser; larger is tighter
pub fn level(op: &str) -> u32 {
    match op {
        "=" => 10,
        ">" | ">=" | "==" => 20,
        "+" | "-" => 30,
        "*" | "×" => 40,
        "⋅" => 41,
        "⊗" => 42,
        "/" | "÷" | "%" | "//" => 50,
        "⊙" => 55,
        "^" => 60,
        "." => 90,
        _ => panic!("operator {op}"),
    }
}
pub fn right_assoc(op: &str) -> bool {
    op == "^" || op == "="
}
pub fn infix_name(op: &str) -> String {
    let n = match op {
        "+" => "add",
        "-" => "subtract",
        "*" => "times",
        "/" => "divide",
        "^" => "power",
        "//" => "quotient",
        o => o,
    };
    format!("std::infix::{n}")
}
pub fn prefix_name(op: &str) -> String {
    let n = match op {
        "+" => "plus",
        "-" => "minus",
        "*" => "unpack",
        _ => "not",
    };
    format!("std::prefix::{n}")
}
pub fn suffix_name(op: &str) -> String {
    format!("std::suffix::{}", if op == "!" { "factorial" } else { "factorial2" })
}

// ------------------------------------------------------------------------------------------------ rendering

/// Where layout is free, the next byte picks what to insert; when the bytes are used up nothing is inserted.
pub struct Render<'a> {
    pub out: String,
    free: &'a [u8],
    alts: &'a [u8],
    file: String,
    exprs: Vec<(usize, usize)>,
    spans: Vec<Span>,
    tight_ranges: bool,
    pub holes_filled: usize,
    pub comments: usize,
    pub newlines: usize,
}
#[derive(Clone, Copy)]
enum Span {
    At(usize, usize),
    Expr(usize),
}

pub struct Rendered {
    pub text: String,
    pub expect: N,
    pub holes_filled: usize,
    pub comments: usize,
    pub newlines: usize,
}

/// compact text and expected parse (positions included)
pub fn compact(m: &M) -> Rendered {
    render(m, &[], &[], "f", "", false)
}
pub fn render(m: &M, free: &[u8], alts: &[u8], file: &str, before: &str, tight_ranges: bool) -> Rendered {
    let mut r = Render {
        out: before.to_string(),
        free,
        alts,
        file: file.into(),
        exprs: vec![],
        spans: vec![],
        tight_ranges,
        holes_filled: 0,
        comments: 0,
        newlines: 0,
    };
    let mut n = r.expr(m);
    let (text, exprs, spans, file) = (&r.out, &r.exprs, &r.spans, &r.file);
    let at = |o: usize| {
        let head = &text[..o];
        let line = head.matches('\n').count() + 1;
        let col = head.rsplit('\n').next().unwrap().chars().count() + 1;
        (line, col)
    };
    n.each_group(&mut |g| {
        // a placeholder index into `spans`
        let i = g.pos.as_ref().unwrap().start.0;
        let (a, b) = match spans[i] {
            Span::At(a, b) => (a, b),
            Span::Expr(e) => exprs[e],
        };
        g.pos = Some(Pos { file: file.clone(), start: at(a), end: at(b) });
    });
    Rendered { expect: n, holes_filled: r.holes_filled, comments: r.comments, newlines: r.newlines, text: r.out }
}

const HOLES: [&str; 16] = [
    "", " ", "", "  ", "\n", "\t", " \r\n ", "\u{3000}", " \n\n\t", " /// note\n", " //? why (a, b\n", " //! 1 + 2 ]\n", " //* \"x\n ", " %%% c %%% ", "\u{a0}%%%\n*[( \"\n%%%\n", " /// a\n\t/// b\n",
];

const BITS: [&str; 48] = [
    "a", "1", " ", "/", "//", "///", "//*", "//?", "//!", "%", "%%", "%%%", "\"", "\"\"\"", "'", "(", ")", "[", "]", "{", "}", ";", ";;", "；", ",", "，", ":", "*/", "/*", "\\", "\\n", "é", "汉", "😀", "\t", "@", "#", "¶", "+", "=", "if", "let", "null", "x y", ".",
    "!", "\u{a0}", "f(",
];
/// a comment made of anything, with the line break that ends it
pub fn comment(bytes: &mut &[u8]) -> String {
    let mut next = || match bytes.split_first() {
        Some((b, rest)) => {
            *bytes = rest;
            *b as usize
        }
        None => 0,
    };
    let kind = next() % 6;
    let n = next() % 7;
    let mut body: String = (0..n).map(|_| BITS[next() % BITS.len()]).collect();
    if kind < 4 {
        let end = ["\n", "\r\n", "\n", "\n "][next() % 4];
        format!("{}{body}{end}", ["///", "//?", "//!", "//*"][kind])
    } else {
        while body.contains("%%%") {
            body = body.replace("%%%", "%% ");
        }
        if body.ends_with('%') {
            body.push(' ');
        }
        // `%%%` directly followed by `%` is still the opening
        if next() % 3 == 0 {
            body.push('\n');
        }
        format!("%%%{body}%%%")
    }
}

/// the first thing written for this operand is a prefix operator
fn starts_with_prefix(m: &M) -> bool {
    match m {
        M::Pre(..) => true,
        M::Inf(_, x, _) | M::Dot(x, _) | M::Suf(_, x) | M::Index(x, _) => starts_with_prefix(x),
        _ => false,
    }
}

impl<'a> Render<'a> {
    fn hole(&mut self) {
        let Some((b, rest)) = self.free.split_first() else { return };
        self.free = rest;
        let made;
        let h = if *b >= 224 {
            made = format!(" {}", comment(&mut self.free));
            &made
        } else {
            HOLES[(*b as usize) % HOLES.len()]
        };
        self.holes_filled += !h.is_empty() as usize;
        self.comments += (h.contains("//") || h.contains("%%%")) as usize;
        self.newlines += h.contains('\n') as usize;
        self.out.push_str(h);
    }
    fn same_line(&mut self) {
        let Some((b, rest)) = self.free.split_first() else { return };
        self.free = rest;
        let h = ["", " ", "", "\t", "  ", "\u{3000}"][(*b as usize) % 6];
        self.holes_filled += !h.is_empty() as usize;
        self.out.push_str(h);
    }
    fn alt(&mut self, a: &str, b: &str) {
        let mut pick = a;
        if let Some((x, rest)) = self.alts.split_first() {
            self.alts = rest;
            if x % 4 == 0 {
                pick = b;
            }
        }
        self.out.push_str(pick);
    }
    fn comma(&mut self) {
        self.alt(",", "，");
    }
    /// a name, its parts joined by either separator
    fn path(&mut self, s: &str) {
        for (i, part) in s.split("::").enumerate() {
            if i > 0 {
                self.alt("::", "∷");
            }
            self.out.push_str(part);
        }
    }
    fn colon(&mut self) {
        self.alt(":", "：");
    }
    fn at(&mut self, s: Span) -> Option<Pos> {
        self.spans.push(s);
        Some(Pos { file: String::new(), start: (self.spans.len() - 1, 0), end: (0, 0) })
    }
    fn group(&mut self, args: Vec<N>, s: Span) -> Group {
        Group { args, opts: vec![], pos: self.at(s) }
    }

    fn expr(&mut self, m: &M) -> N {
        let id = self.exprs.len();
        self.exprs.push((self.out.len(), 0));
        let n = self.infix(m, id);
        self.exprs[id].1 = self.out.len();
        n
    }
    fn operand(&mut self, m: &M, paren: bool, id: usize) -> N {
        if paren { self.bracketed(m) } else { self.infix(m, id) }
    }
    fn bracketed(&mut self, m: &M) -> N {
        self.out.push('(');
        self.hole();
        let n = self.expr(m);
        self.hole();
        self.out.push(')');
        n
    }
    fn infix(&mut self, m: &M, id: usize) -> N {
        let op = match m {
            M::Inf(op, ..) => op.as_str(),
            M::Dot(..) => ".",
            _ => return self.term(m),
        };
        let lv = level(op);
        let needs = |c: &M, left: bool| {
            let cl = match c {
                M::Inf(o, ..) => level(o),
                M::Dot(..) => 90,
                _ => return false,
            };
            cl < lv || (cl == lv && (left == right_assoc(op)))
        };
        match m {
            M::Inf(_, l, r) => {
                let a = self.operand(l, needs(l, true), id);
                self.hole();
                self.out.push_str(op);
                // `//!` and `//*` would begin a comment
                if op == "//" && starts_with_prefix(r) {
                    self.out.push(' ');
                }
                self.hole();
                let b = self.operand(r, needs(r, false), id);
                let g = self.group(vec![a, b], Span::Expr(id));
                N::Fn(infix_name(op), vec![g])
            }
            M::Dot(l, r) => {
                let a = self.operand(l, needs(l, true), id);
                self.hole();
                if matches!(**r, M::Int(_)) && self.out.ends_with(|c: char| c.is_ascii_digit()) {
                    self.out.push(' ');
                }
                self.out.push('.');
                self.hole();
                match (&**r, self.term(r)) {
                    (M::Sym(s), _) => {
                        let g = self.group(vec![a], Span::Expr(id));
                        N::Fn(s.clone(), vec![g])
                    }
                    (M::Int(_), i) => {
                        let g = self.group(vec![a, i], Span::Expr(id));
                        N::Fn("std::core::index".into(), vec![g])
                    }
                    (M::Call(..), N::Fn(f, mut gs)) => {
                        gs[0].args.insert(0, a);
                        N::Fn(f, gs)
                    }
                    (x, _) => panic!("not a method: {x:?}"),
                }
            }
            _ => unreachable!(),
        }
    }
    fn term(&mut self, m: &M) -> N {
        match m {
            M::Pre(op, x) => {
                let a = self.out.len();
                self.out.push_str(op);
                let s = Span::At(a, self.out.len());
                let inner = match **x {
                    M::Inf(..) | M::Dot(..) => self.bracketed(x),
                    _ => self.term(x),
                };
                let g = self.group(vec![inner], s);
                N::Fn(prefix_name(op), vec![g])
            }
            M::Suf(op, x) => {
                let inner = match &**x {
                    M::Inf(..) | M::Dot(..) | M::Pre(..) => self.bracketed(x),
                    M::Suf(o, _) if o == "!" => self.bracketed(x),
                    _ => self.term(x),
                };
                let a = self.out.len();
                self.out.push_str(op);
                let g = self.group(vec![inner], Span::At(a, self.out.len()));
                N::Fn(suffix_name(op), vec![g])
            }
            M::Index(x, ix) => {
                let mut args = vec![match **x {
                    M::Inf(..) | M::Dot(..) | M::Pre(..) => self.bracketed(x),
                    _ => self.term(x),
                }];
                self.same_line();
                let a = self.out.len();
                self.out.push('[');
                for (i, x) in ix.iter().enumerate() {
                    let tight = self.tight_ranges && (matches!(x, Ix::Range(..)) || (i > 0 && matches!(ix[i - 1], Ix::Range(..))));
                    if i > 0 {
                        self.comma();
                    }
                    if !tight {
                        self.hole();
                    }
                    args.push(self.index(x));
                    if !(self.tight_ranges && matches!(x, Ix::Range(..))) {
                        self.hole();
                    }
                }
                self.out.push(']');
                let g = self.group(args, Span::At(a, self.out.len()));
                N::Fn("std::core::Index".into(), vec![g])
            }
            _ => self.primary(m),
        }
    }
    fn index(&mut self, x: &Ix) -> N {
        let a = self.out.len();
        match x {
            Ix::One(m) => self.expr(m),
            Ix::Range(s, e, t, two) => {
                let loose = !self.tight_ranges;
                let start = match s {
                    Some(m) => self.expr(m),
                    None => N::Int("1".into()),
                };
                if loose {
                    self.hole();
                }
                self.colon();
                if loose {
                    self.hole();
                }
                let end = match e {
                    Some(m) => self.expr(m),
                    None => N::Sym("std::core::All".into()),
                };
                let mut step = N::Int("1".into());
                if *two || t.is_some() {
                    if loose {
                        self.hole();
                    }
                    // `b::c` would be one symbol
                    if e.is_none() && self.out.ends_with(':') && !matches!(s, None | Some(M::Int(_))) {
                        self.out.push(' ');
                    }
                    self.colon();
                    if let Some(m) = t {
                        if loose {
                            self.hole();
                        }
                        step = self.expr(m);
                    }
                }
                let g = self.group(vec![start, end, step], Span::At(a, self.out.len()));
                N::Fn("std::core::Span".into(), vec![g])
            }
        }
    }
    fn primary(&mut self, m: &M) -> N {
        let a = self.out.len();
        match m {
            M::Int(s) => {
                self.out.push_str(s);
                N::Int(s.clone())
            }
            M::Dec(s) => {
                self.out.push_str(s);
                N::Dec(s.clone())
            }
            M::Byte(s) => {
                self.out.push_str(s);
                N::Int(radix_value(s))
            }
            M::Bool(b) => {
                self.out.push_str(if *b { "true" } else { "false" });
                N::Bool(*b)
            }
            M::Null => {
                self.out.push_str("null");
                N::Sym("std::constant::Null".into())
            }
            M::Str(s) => {
                self.out.push('"');
                self.out.push_str(s);
                self.out.push('"');
                N::Str(s.clone())
            }
            M::Block(k, s) => {
                let q = "\"".repeat(3 + k);
                self.out.push_str(&q);
                self.out.push_str(s);
                self.out.push_str(&q);
                N::Str(s.clone())
            }
            M::Sym(s) => {
                self.path(s);
                N::Sym(s.clone())
            }
            M::Slot(s) => {
                self.out.push_str(s);
                let body = s.trim_start_matches('#');
                let arg = if body.is_empty() {
                    vec![]
                } else if body.starts_with(|c: char| c.is_ascii_digit()) {
                    vec![N::Int(body.into())]
                } else {
                    vec![N::Str(body.into())]
                };
                let g = self.group(arg, Span::At(a, self.out.len()));
                N::Fn(if s.starts_with("##") { "std::core::slot_sequence" } else { "std::core::slot" }.into(), vec![g])
            }
            M::Repl(s) => {
                self.out.push_str(s);
                let marks = s.chars().filter(|c| !c.is_ascii_digit()).count();
                let digits: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
                let arg = if digits.is_empty() { format!("-{marks}") } else { digits };
                let g = self.group(vec![N::Int(arg)], Span::At(a, self.out.len()));
                N::Fn(if s.starts_with('¶') { "std::repl::input" } else { "std::repl::output" }.into(), vec![g])
            }
            M::Call(name, groups) => {
                self.path(name);
                let mut gs = vec![];
                for g in groups {
                    self.same_line();
                    gs.push(self.arguments(g));
                }
                N::Fn(name.clone(), gs)
            }
            M::Juxt(v) => {
                let mut args = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        let glued = match (&v[i - 1], x) {
                            (M::Int(n), M::Sym(_) | M::Call(..)) => n != "0",
                            (M::Call(..), _) => true,
                            _ => false,
                        };
                        if !glued || self.alts.first().is_some_and(|b| b % 2 == 0) {
                            self.out.push(' ');
                        }
                        self.same_line();
                    }
                    args.push(self.primary(x));
                }
                let g = self.group(args, Span::At(a, self.out.len()));
                N::Fn("std::infix::times".into(), vec![g])
            }
            M::List(v) => {
                self.out.push('[');
                let mut args = vec![];
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.comma();
                    }
                    self.hole();
                    args.push(self.expr(x));
                    self.hole();
                }
                if v.is_empty() {
                    self.hole();
                } else if self.alts.first().is_some_and(|b| b % 7 == 0) {
                    self.comma();
                    self.hole();
                }
                self.out.push(']');
                let g = self.group(args, Span::At(a, self.out.len()));
                N::Fn("std::containers::List".into(), vec![g])
            }
            M::Paren(x) => self.bracketed(x),
            M::Pre(..) | M::Suf(..) | M::Inf(..) | M::Dot(..) | M::Index(..) => self.bracketed(m),
        }
    }
    fn arguments(&mut self, list: &[Arg]) -> Group {
        let a = self.out.len();
        self.out.push('(');
        let (mut args, mut opts): (Vec<N>, Vec<(N, N)>) = (vec![], vec![]);
        for (i, x) in list.iter().enumerate() {
            if i > 0 {
                self.comma();
            }
            self.hole();
            match &x.key {
                None => args.push(self.expr(&x.val)),
                Some(k) => {
                    self.out.push_str(k);
                    self.hole();
                    self.colon();
                    self.hole();
                    let v = self.expr(&x.val);
                    let k = N::Sym(k.clone());
                    opts.retain(|(o, _)| *o != k);
                    opts.push((k, v));
                }
            }
            self.hole();
        }
        if list.is_empty() {
            self.hole();
        } else if self.alts.first().is_some_and(|b| b % 7 == 0) {
            self.comma();
            self.hole();
        }
        self.out.push(')');
        opts.sort_by(|x, y| format!("{:?}", x.0).cmp(&format!("{:?}", y.0)));
        Group { args, opts, pos: self.at(Span::At(a, self.out.len())) }
    }
}

// ------------------------------------------------------------------------------------------------ measuring

impl M {
    pub fn children(&self) -> Vec<&M> {
        match self {
            M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) => vec![x],
            M::Inf(_, l, r) | M::Dot(l, r) => vec![l, r],
            M::Index(x, ix) => {
                let mut v: Vec<&M> = vec![x];
                for i in ix {
                    match i {
                        Ix::One(m) => v.push(m),
                        Ix::Range(a, b, c, _) => v.extend([a, b, c].into_iter().flatten()),
                    }
                }
                v
            }
            M::Call(_, gs) => gs.iter().flatten().map(|a| &a.val).collect(),
            M::Juxt(v) | M::List(v) => v.iter().collect(),
            _ => vec![],
        }
    }
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a M)) {
        f(self);
        for c in self.children() {
            c.visit(f);
        }
    }
    pub fn any(&self, mut p: impl FnMut(&M) -> bool) -> bool {
        let mut hit = false;
        self.visit(&mut |m| hit |= p(m));
        hit
    }
    pub fn count(&self, mut p: impl FnMut(&M) -> bool) -> usize {
        let mut n = 0;
        self.visit(&mut |m| n += p(m) as usize);
        n
    }
    /// every name: symbols, functions, option keys
    pub fn each_name(&mut self, f: &mut impl FnMut(&mut String)) {
        match self {
            M::Sym(s) => f(s),
            M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) => x.each_name(f),
            M::Inf(_, l, r) | M::Dot(l, r) => {
                l.each_name(f);
                r.each_name(f);
            }
            M::Index(x, ix) => {
                x.each_name(f);
                for i in ix {
                    match i {
                        Ix::One(m) => m.each_name(f),
                        Ix::Range(a, b, c, _) => [a, b, c].into_iter().flatten().for_each(|m| m.each_name(f)),
                    }
                }
            }
            M::Call(n, gs) => {
                f(n);
                for a in gs.iter_mut().flatten() {
                    if let Some(k) = &mut a.key {
                        f(k);
                    }
                    a.val.each_name(f);
                }
            }
            M::Juxt(v) | M::List(v) => v.iter_mut().for_each(|m| m.each_name(f)),
            _ => {}
        }
    }
    /// names whose last part is `word` changed to something else
    pub fn without(mut self, word: &str) -> M {
        self.each_name(&mut |n| {
            if n.rsplit("::").next() == Some(word) {
                n.push('s');
            }
        });
        self
    }
    pub fn operators(&self) -> usize {
        self.count(|m| matches!(m, M::Pre(..) | M::Suf(..) | M::Inf(..) | M::Dot(..) | M::Index(..) | M::Juxt(..)))
    }
}

// ------------------------------------------------------------------------------------------------ generating

pub const KEYWORDS: [&str; 21] = [
    "using", "if", "for", "return", "break", "pass", "class", "trait", "extends", "let", "def", "true", "false", "null", "as", "then", "else", "otherwise", "in", "yield", "type",
];

kept!(name, make_name, String);
fn make_name() -> BoxedStrategy<String> {
    let starts = proptest::sample::select(vec!["a", "b", "x", "y", "f", "g", "sin", "Z", "foo", "q_1", "α", "é", "Ω", "变", "ж", "_u", "_1", "abc9", "tru", "nullx", "e1", "o", "X"]);
    let tail = proptest::sample::select(vec!["", "", "", "1", "x", "_", "0b1", "λ", "true", "9z"]);
    let plain = (starts, tail).prop_map(|(a, b)| format!("{a}{b}"));
    let known: Vec<String> = crate::dict::dict().words.iter().flat_map(|w| w.split(|c: char| !c.is_alphanumeric() && c != '_')).filter(|w| w.starts_with(char::is_alphabetic)).map(String::from).collect();
    let long = ("[a-zα-ω]", proptest::collection::vec(proptest::sample::select(vec!['a', 'Q', '7', '_', 'é', '变']), 1..70)).prop_map(|(a, v)| a + &String::from_iter(v));
    let from_source = if known.is_empty() { Just("a".to_string()).boxed() } else { proptest::sample::select(known).boxed() };
    let keyed = (proptest::sample::select(&KEYWORDS[..]), proptest::sample::select(vec!["s", "ter", "_", "1", "λ", "変", "true", "0x1", "if"])).prop_map(|(a, b)| format!("{a}{b}"));
    prop_oneof![30 => plain, 2 => keyed, 2 => from_source, 1 => long]
        .prop_map(|s| {
            if KEYWORDS.contains(&s.as_str()) { format!("v{s}") } else { s }
        })
        .boxed()
}
kept!(path, make_path, String);
fn make_path() -> BoxedStrategy<String> {
    prop_oneof![6 => name(), 1 => proptest::collection::vec(name(), 2..4).prop_map(|v| v.join("::"))].boxed()
}
kept!(integer, make_integer, String);
fn make_integer() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0u32..20).prop_map(|n| n.to_string()),
        3 => any::<u16>().prop_map(|n| n.to_string()),
        2 => any::<u64>().prop_map(|n| n.to_string()),
        1 => digits(60),
        1 => crate::dict::number().prop_map(|n| n.to_string().trim_start_matches('-').to_string()),
        1 => crate::dict::size(400).prop_flat_map(|n| digits_of(n.max(1))),
    ]
    .boxed()
}
/// decimal digits without a leading zero, up to so many
pub fn digits(most: usize) -> BoxedStrategy<String> {
    (1usize..=most).prop_flat_map(digits_of).boxed()
}
fn digits_of(n: usize) -> BoxedStrategy<String> {
    (1u8..10, proptest::collection::vec(0u8..10, n - 1)).prop_map(|(d, v)| std::iter::once(d).chain(v).map(|d| (b'0' + d) as char).collect::<String>()).boxed()
}
kept!(decimal, make_decimal, String);
fn make_decimal() -> BoxedStrategy<String> {
    (integer(), proptest::collection::vec(prop_oneof![1 => Just(0u8), 2 => 0u8..10], 1..30)).prop_map(|(a, v)| format!("{a}.{}", v.iter().map(|d| d.to_string()).collect::<String>())).boxed()
}
kept!(radix, make_radix, String);
fn make_radix() -> BoxedStrategy<String> {
    let digit = (any::<u8>(), any::<bool>(), proptest::bool::weighted(0.2));
    let many = prop_oneof![12 => 1usize..40, 1 => 40usize..300, 1 => crate::dict::size(300)].prop_flat_map(move |n| proptest::collection::vec(digit.clone(), n.max(1)));
    (0usize..3, any::<bool>(), many)
        .prop_map(|(k, up, v)| {
            let mut s = ["0b", "0o", "0x"][k].to_string();
            if up {
                s = s.to_uppercase();
            }
            for (d, up, us) in v {
                if us {
                    s.push('_');
                }
                let c = std::char::from_digit(d as u32 % [2, 8, 16][k], 16).unwrap();
                s.push(if up { c.to_ascii_uppercase() } else { c });
            }
            s
        })
        .boxed()
}
// text between the quotes of an ordinary string literal
kept!(string_body, make_string_body, String);
fn make_string_body() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        6 => proptest::sample::select(vec!["a", "b", " ", "Z", "0", "(", ")", "[", "+", ";", ",", "'", "#", "%%%", "///", "//", "é", "变", "😀", "\n", "\r\n", "\t", "{", "}", "$", "\u{301}"]).prop_map(String::from),
        1 => Just("\\\"".to_string()),
        1 => Just("\\\\".to_string()),
        1 => Just("\\n".to_string()),
        1 => any::<char>().prop_map(|c| if c == '"' || c == '\\' { "-".to_string() } else { c.to_string() }),
    ];
    let piece = prop_oneof![20 => piece, 1 => crate::dict::word().prop_map(|w| w.replace(['"', '\\'], "-"))];
    let many = prop_oneof![40 => 0usize..12, 1 => 12usize..90, 1 => crate::dict::size(90)];
    many.prop_flat_map(move |n| proptest::collection::vec(piece.clone(), n)).prop_map(|v| v.concat()).boxed()
}
/// a long text of characters of all widths
pub fn long_text() -> BoxedStrategy<String> {
    let unit = proptest::sample::select(vec!["a", "é", "€", "变", "😀", "ab", "aé", "\u{301}", "x😀", "\n", " ", "\\\\"]);
    let size = prop_oneof![3 => 50usize..700, 2 => 700usize..4200, 1 => (5u32..13, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d) as usize), 1 => crate::dict::size(8000)];
    (proptest::sample::select(vec!["", "a", "é", "ab", "变"]), unit, size, proptest::sample::select(vec!["", "z", "ü", "😀"])).prop_map(|(a, u, n, z)| format!("{a}{}{z}", u.repeat(n.max(1)))).boxed()
}
// text of a block string: no quote at either end, no run of three quotes
kept!(block_body, make_block_body, String);
fn make_block_body() -> BoxedStrategy<String> {
    (proptest::collection::vec(proptest::sample::select(vec!["a", "\"", " ", "é", "\n", "\\", "变", "'", "9", "%%%", "\\\""]), 0..10), "[a-z \\n]", proptest::sample::select(vec!["t", "t", "", "\n", " ", "\r\n", "\t", "\\", "é", "\n\n"]))
        .prop_map(|(v, end, start)| {
            let mut s = String::from(start);
            for p in v {
                if s.is_empty() && p.starts_with('"') || p.starts_with('"') && s.ends_with("\"\"") || p.ends_with('"') && s.ends_with("\"\"") {
                    continue;
                }
                s.push_str(p);
            }
            s.push_str(&end);
            s
        })
        .boxed()
}
kept!(slot, make_slot, M);
fn make_slot() -> BoxedStrategy<M> {
    prop_oneof![
        Just(M::Slot("#".into())),
        Just(M::Slot("##".into())),
        integer().prop_map(|i| M::Slot(format!("#{i}"))),
        name().prop_map(|i| M::Slot(format!("#{i}"))),
        integer().prop_map(|i| M::Slot(format!("##{}", if i == "0" { "1".into() } else { i }))),
        (proptest::sample::select(vec!["¶", "⁋"]), prop_oneof![6 => 1usize..5, 1 => 5usize..40, 1 => crate::dict::size(60).prop_map(|n| n.max(1))]).prop_map(|(c, k)| M::Repl(c.repeat(k))),
        (proptest::sample::select(vec!["¶", "⁋"]), integer()).prop_map(|(c, i)| M::Repl(format!("{c}{}", if i == "0" { "1".into() } else { i }))),
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub infix: &'static [&'static str],
    pub prefix: &'static [&'static str],
    pub suffix: &'static [&'static str],
    pub dot: bool,
    pub calls: bool,
    pub options: bool,
    pub lists: bool,
    pub index: bool,
    pub juxt: bool,
    pub strings: bool,
    pub slots: bool,
    pub paths: bool,
    pub parens: bool,
    pub depth: u32,
    pub size: u32,
}
pub const ARITH: &[&str] = &["+", "-", "*", "/", "^"];
pub const ARITH_WIDE: &[&str] = &["+", "-", "*", "/", "^", "×", "÷"];
pub const EVERY: &[&str] = &["+", "-", "*", "/", "^", "×", "÷", "%", "=", ">", "⋅", "⊗", "⊙", "==", ">=", "//"];
pub const PREFIX: &[&str] = &["+", "-", "*", "!", "¬"];
pub const SUFFIX: &[&str] = &["!", "!!"];
impl Cfg {
    pub const FULL: Cfg = Cfg {
        infix: EVERY,
        prefix: PREFIX,
        suffix: SUFFIX,
        dot: true,
        calls: true,
        options: true,
        lists: true,
        index: true,
        juxt: true,
        strings: true,
        slots: true,
        paths: true,
        parens: true,
        depth: 5,
        size: 40,
    };
}

pub fn leaf(c: Cfg) -> BoxedStrategy<M> {
    let mut v: Vec<(u32, BoxedStrategy<M>)> = vec![
        (5, integer().prop_map(M::Int).boxed()),
        (2, decimal().prop_map(M::Dec).boxed()),
        (1, radix().prop_map(M::Byte).boxed()),
        (6, if c.paths { path() } else { name() }.prop_map(M::Sym).boxed()),
        (1, any::<bool>().prop_map(M::Bool).boxed()),
        (1, Just(M::Null).boxed()),
    ];
    if c.strings {
        v.push((2, string_body().prop_map(M::Str).boxed()));
        v.push((1, (0usize..3, block_body()).prop_map(|(k, s)| M::Block(k, s)).boxed()));
    }
    if c.slots {
        v.push((1, slot()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
pub fn juxt(calls: Option<BoxedStrategy<M>>) -> BoxedStrategy<M> {
    let plain = || prop_oneof![3 => integer().prop_map(M::Int), 1 => decimal().prop_map(M::Dec), 1 => radix().prop_map(M::Byte), 4 => path().prop_map(M::Sym)].boxed();
    let later = match calls {
        Some(c) => prop_oneof![3 => plain(), 1 => c].boxed(),
        None => plain(),
    };
    let first = later.clone();
    let many = prop_oneof![20 => 1usize..4, 2 => 4usize..24, 1 => crate::dict::size(40)].prop_flat_map(move |n| proptest::collection::vec(later.clone(), n.max(1)));
    (first, many)
        .prop_map(|(a, mut v)| {
            v.insert(0, a);
            M::Juxt(v)
        })
        .boxed()
}
pub fn call(arg: BoxedStrategy<M>, options: bool, paths: bool) -> BoxedStrategy<M> {
    let key = if options { prop_oneof![3 => Just(None), 1 => name().prop_map(Some)].boxed() } else { Just(None).boxed() };
    let one = proptest::collection::vec((key, arg).prop_map(|(key, val)| Arg { key, val }), 0..4);
    let groups = prop_oneof![5 => proptest::collection::vec(one.clone(), 1..2), 1 => proptest::collection::vec(one, 2..4)];
    (if paths { path() } else { name() }, groups).prop_map(|(n, g)| M::Call(n, g)).boxed()
}
/// one construct with many parts, each of them small: long argument lists, lists, chains
pub fn wide(c: Cfg) -> BoxedStrategy<M> {
    let part = leaf(c);
    let many = |least: usize| prop_oneof![60 => least..8, 30 => 4usize..26, 20 => crate::dict::size(30), 1 => 30usize..400].prop_map(move |n| n.max(least)).boxed();
    let parts = {
        let part = part.clone();
        move |least: usize| {
            let part = part.clone();
            many(least).prop_flat_map(move |n| proptest::collection::vec(part.clone(), n)).boxed()
        }
    };
    let mut v: Vec<(u32, BoxedStrategy<M>)> = vec![(1, part.clone())];
    let fname = || if c.paths { path() } else { name() };
    if c.lists {
        v.push((2, parts(0).prop_map(M::List).boxed()));
    }
    if c.calls {
        let options = c.options;
        let args = (parts(0), proptest::collection::vec((name(), any::<u8>()), 30)).prop_map(move |(v, keys)| {
            let limit = keys.last().unwrap().1;
            let one = |(val, (k, x)): (M, (String, u8))| Arg { key: if options && x < limit { Some(k) } else { None }, val };
            v.into_iter().zip(keys.into_iter().cycle()).map(one).collect::<Vec<_>>()
        });
        v.push((4, (fname(), args.clone()).prop_map(|(f, a)| M::Call(f, vec![a])).boxed()));
        let short = proptest::collection::vec(part.clone().prop_map(|val| Arg { key: None, val }), 0..3);
        v.push((1, (fname(), proptest::collection::vec(short, 1..20)).prop_map(|(f, g)| M::Call(f, g)).boxed()));
    }
    if c.juxt {
        v.push((2, juxt(None)));
    }
    if c.index {
        let o = || proptest::option::of(part.clone());
        let range = (o(), o(), o(), any::<bool>()).prop_map(|(a, b, c, d)| Ix::Range(a, b, c, d));
        let ix = prop_oneof![3 => part.clone().prop_map(Ix::One), 2 => range];
        v.push((1, (part.clone(), proptest::collection::vec(ix, 1..12)).prop_map(|(x, i)| M::Index(Box::new(x), i)).boxed()));
        // x[1][2][3]...
        v.push((1, parts(2).prop_map(|v| v.into_iter().reduce(|a, b| M::Index(Box::new(a), vec![Ix::One(b)])).unwrap()).boxed()));
    }
    if c.dot {
        v.push((1, (part.clone(), proptest::collection::vec(fname(), 1..12)).prop_map(|(x, fs)| fs.into_iter().fold(x, |a, f| M::Dot(Box::new(a), Box::new(M::Sym(f))))).boxed()));
    }
    if !c.infix.is_empty() {
        let op = || proptest::sample::select(c.infix).prop_map(String::from);
        // one operator throughout, grouped to the left or to the right; then mixed ones
        v.push((3, (op(), parts(2)).prop_map(|(o, v)| v.into_iter().reduce(|a, b| M::Inf(o.clone(), Box::new(a), Box::new(b))).unwrap()).boxed()));
        v.push((2, (op(), parts(2)).prop_map(|(o, v)| v.into_iter().rev().reduce(|a, b| M::Inf(o.clone(), Box::new(b), Box::new(a))).unwrap()).boxed()));
        v.push((2, bushy(part.clone(), c.infix, c.prefix, c.suffix, 24)));
    }
    if !c.prefix.is_empty() {
        let ops = proptest::collection::vec(proptest::sample::select(c.prefix).prop_map(String::from), 1..12);
        v.push((1, (ops, part.clone()).prop_map(|(ops, x)| ops.into_iter().fold(x, |a, o| M::Pre(o, Box::new(a)))).boxed()));
    }
    if !c.suffix.is_empty() {
        let ops = proptest::collection::vec(proptest::sample::select(c.suffix).prop_map(String::from), 1..8);
        v.push((1, (ops, part.clone()).prop_map(|(ops, x)| ops.into_iter().fold(x, |a, o| M::Suf(o, Box::new(a)))).boxed()));
    }
    if c.parens {
        v.push((1, (part, 1usize..8).prop_map(|(x, n)| (0..n).fold(x, |a, _| M::Paren(Box::new(a)))).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}
/// around the sizes at which programs commonly change their ways
pub fn sizes(most: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [30..=33, 49..=51, 63..=65, 99..=101, 127..=129, 255..=257, 300..=300, 511..=513, 1000..=1001, 1024..=1025, 2050..=2050, 4097..=4097].into_iter().flatten().collect();
    for i in &crate::dict::dict().ints {
        if let Some(n) = num::ToPrimitive::to_usize(i).filter(|n| *n >= 30 && *n < 5000) {
            v.extend([n, n + 1]);
        }
    }
    v.retain(|n| *n <= most);
    v.sort();
    v.dedup();
    v
}
/// each construct with a great many parts (a few hundred where parts lie inside one another), no two parts alike or of a few kinds
pub fn huge(c: Cfg) -> Vec<M> {
    let bx = Box::new;
    let kinds = plain_leaves(Cfg { calls: false, lists: false, ..c });
    let mut out = vec![];
    for alike in [false, true] {
        let part = |i: usize| match i % 3 {
            _ if alike => kinds[(i * 7 + i / 5) % kinds.len()].clone(),
            0 | 1 => M::Sym(format!("a{i}")),
            _ => M::Int(format!("{}", 1000 + i)),
        };
        let parts = |n: usize| (0..n).map(part).collect::<Vec<M>>();
        let arg = |val: M| Arg { key: None, val };
        for n in sizes(if alike { 513 } else { 4097 }) {
            if c.lists {
                out.push(M::List(parts(n)));
                out.push(M::List((0..n).map(|i| if i % 2 == 0 { M::List(parts(i % 3)) } else { part(i) }).collect()));
            }
            if c.calls {
                out.push(M::Call("f".into(), vec![parts(n).into_iter().map(arg).collect()]));
                if c.options {
                    let named = |i: usize| Arg { key: Some(format!("k{i}")), val: part(i) };
                    out.push(M::Call("f".into(), vec![(0..n).map(named).collect()]));
                    out.push(M::Call("f".into(), vec![(0..n).map(|i| if i % 3 == 1 { named(i) } else { arg(part(i)) }).collect()]));
                }
            }
            if c.juxt {
                // numbers and names only
                out.push(M::Juxt((0..n).map(|i| if i % 4 == 3 && alike { M::Dec(format!("{i}.5")) } else { M::Sym(format!("a{}", if alike { i % 5 } else { i })) }).collect()));
            }
            if c.index {
                out.push(M::Index(bx(M::Sym("x".into())), parts(n).into_iter().map(Ix::One).collect()));
                out.push(M::Index(bx(M::Sym("x".into())), (0..n).map(|i| Ix::Range(Some(part(i)), Some(part(i + 1)), if i % 2 == 0 { Some(part(i + 2)) } else { None }, i % 4 < 2)).collect()));
            }
            let flat: Vec<&str> = c.infix.iter().copied().filter(|o| !right_assoc(o)).collect();
            for (k, o) in c.infix.iter().enumerate() {
                // all operators of a few sizes, a few operators of all sizes
                if n < 300 && n % 2 == 0 || n < 2000 && k % 5 == 0 || k == n % c.infix.len() {
                    if right_assoc(o) {
                        if n <= 513 {
                            out.push(parts(n).into_iter().rev().reduce(|a, b| M::Inf(o.to_string(), bx(b), bx(a))).unwrap());
                        }
                    } else {
                        out.push(parts(n).into_iter().reduce(|a, b| M::Inf(o.to_string(), bx(a), bx(b))).unwrap());
                    }
                }
            }
            if flat.len() > 1 && n <= 1001 {
                // sums of products, operators taking turns
                let (weak, strong) = (flat[n % flat.len()], flat[(n / 2 + 1) % flat.len()]);
                let pairs = (0..n / 2).map(|i| M::Inf(strong.to_string(), bx(part(2 * i)), bx(part(2 * i + 1))));
                out.push(pairs.reduce(|a, b| M::Inf(weak.to_string(), bx(a), bx(b))).unwrap());
            }
        }
        for n in sizes(if alike { 65 } else { 257 }) {
            if c.calls {
                out.push(M::Call("f".into(), (0..n).map(|i| (0..i % 3).map(|k| arg(part(i + k))).collect()).collect()));
            }
            if c.index {
                out.push(parts(n).into_iter().reduce(|a, b| M::Index(bx(a), vec![Ix::One(b)])).unwrap());
            }
            if c.dot {
                out.push((0..n).fold(part(0), |a, i| M::Dot(bx(a), bx(M::Sym(format!("f{i}"))))));
                if c.calls {
                    out.push((0..n).fold(part(0), |a, i| M::Dot(bx(a), bx(M::Call(format!("f{i}"), vec![parts(i % 3).into_iter().map(arg).collect()])))));
                }
            }
            if !c.prefix.is_empty() {
                out.push((0..n).fold(part(0), |a, i| M::Pre(c.prefix[(i / 2) % c.prefix.len()].into(), bx(a))));
                out.push((0..n).fold(part(0), |a, _| M::Pre(c.prefix[n % c.prefix.len()].into(), bx(a))));
            }
            if !c.suffix.is_empty() {
                out.push((0..n).fold(part(0), |a, i| M::Suf(c.suffix[(i / 2) % c.suffix.len()].into(), bx(a))));
            }
            if c.parens {
                out.push((0..n).fold(part(0), |a, _| M::Paren(bx(a))));
            }
            if c.calls {
                out.push((0..n).fold(part(0), |a, i| M::Call(format!("f{i}"), vec![vec![arg(a)]])));
            }
            if c.lists {
                out.push((0..n).fold(part(0), |a, i| M::List(if i % 2 == 0 { vec![a] } else { vec![part(i), a] })));
            }
            for o in c.infix.iter().filter(|o| !right_assoc(o)) {
                out.push(parts(n).into_iter().rev().reduce(|a, b| M::Inf(o.to_string(), bx(b), bx(a))).unwrap());
            }
        }
    }
    of_long(c, &mut out);
    of_patterns(c, &mut out);
    out
}
/// all ways in which 2 to 5 things can be equal to each other: 0 0, 0 1, 0 0 0, 0 0 1, 0 1 0, ...
pub fn patterns() -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut now = vec![vec![0]];
    for _ in 0..4 {
        now = now.iter().flat_map(|p: &Vec<usize>| (0..=p.iter().max().unwrap() + 1).map(|k| [p.as_slice(), &[k]].concat())).collect();
        all.extend(now.iter().cloned());
    }
    all
}
/// short runs of parts in every pattern of equality, in every construct
fn of_patterns(c: Cfg, out: &mut Vec<M>) {
    let bx = Box::new;
    let arg = |val: M| Arg { key: None, val };
    let kinds = plain_leaves(Cfg { calls: false, lists: false, ..c });
    for (i, p) in patterns().iter().enumerate() {
        for turn in 0..3 {
            let part = |k: usize| match turn {
                0 => M::Sym(format!("a{k}")),
                _ => kinds[(i * 5 + k * 3 + turn) % kinds.len()].clone(),
            };
            let parts = || p.iter().map(|k| part(*k)).collect::<Vec<M>>();
            if c.lists {
                out.push(M::List(parts()));
                out.push(M::List(p.iter().map(|k| M::List(vec![part(*k)])).collect()));
            }
            if c.calls {
                out.push(M::Call("f".into(), vec![parts().into_iter().map(arg).collect()]));
                out.push(M::Call("f".into(), parts().into_iter().map(|m| vec![arg(m)]).collect()));
                out.push(M::Call("f".into(), vec![p.iter().map(|k| arg(M::Call("g".into(), vec![vec![arg(part(*k))]]))).collect()]));
                out.push(p.iter().fold(part(0), |a, k| M::Call(format!("f{k}"), vec![vec![arg(a)]])));
                if c.options {
                    out.push(M::Call("f".into(), vec![p.iter().enumerate().map(|(n, k)| Arg { key: Some(format!("k{n}")), val: part(*k) }).collect()]));
                }
            }
            if c.juxt {
                let call = |k: usize| M::Call(format!("f{k}"), vec![vec![arg(part(k))]]);
                let one = |k: usize| match (i + turn + k) % 6 {
                    _ if turn == 0 => M::Sym(format!("a{k}")),
                    0 => M::Int(format!("{}", k + i % 2)),
                    1 => M::Dec(format!("{k}.0")),
                    2 => M::Byte(format!("0x{k}")),
                    3 if c.calls => call(k),
                    4 if c.calls && turn == 1 => call(k),
                    _ => M::Sym(format!("a{k}")),
                };
                out.push(M::Juxt(p.iter().map(|k| one(*k)).collect()));
            }
            if c.index {
                out.push(M::Index(bx(M::Sym("x".into())), parts().into_iter().map(Ix::One).collect()));
                out.push(parts().into_iter().reduce(|a, b| M::Index(bx(a), vec![Ix::One(b)])).unwrap());
                if let [a, b, d] = p[..] {
                    out.push(M::Index(bx(M::Sym("x".into())), vec![Ix::Range(Some(part(a)), Some(part(b)), Some(part(d)), true)]));
                }
            }
            for o in c.infix {
                out.push(if right_assoc(o) { parts().into_iter().rev().reduce(|a, b| M::Inf(o.to_string(), bx(b), bx(a))).unwrap() } else { parts().into_iter().reduce(|a, b| M::Inf(o.to_string(), bx(a), bx(b))).unwrap() });
            }
            if !c.prefix.is_empty() {
                out.push(p.iter().fold(part(0), |a, k| M::Pre(c.prefix[(i + turn + k) % c.prefix.len()].into(), bx(a))));
            }
            if !c.suffix.is_empty() {
                out.push(p.iter().fold(part(0), |a, k| M::Suf(c.suffix[(i + turn + k) % c.suffix.len()].into(), bx(a))));
            }
        }
    }
}
/// Leaves of many characters, in pairs that differ in one place only, with runs of zeros and spaces in them.
pub fn long_leaves(c: Cfg) -> Vec<(M, M)> {
    let mut v = vec![];
    for n in [18usize, 20, 30, 39, 41, 64, 66, 101, 129, 257, 300, 513, 1030, 4100] {
        for at in [n - 1, n / 2, 1] {
            let digits = |k: u32| {
                let mut s: Vec<u8> = (0..n).map(|i| if at == n / 2 && i > n / 4 && i < n / 2 { b'0' } else { b'1' + (i * i % 9) as u8 }).collect();
                s[at] = b'0' + (s[at] - b'0' + k as u8) % 10;
                String::from_utf8(s).unwrap()
            };
            let word = |k: u32, set: &str| {
                let set: Vec<char> = set.chars().collect();
                (0..n).map(|i| set[(i * 7 + i / 3 + (if i == at { k as usize } else { 0 })) % set.len()]).collect::<String>()
            };
            let mut two = |f: &dyn Fn(u32) -> M| v.push((f(0), f(1)));
            two(&|k| M::Int(format!("7{}", digits(k))));
            two(&|k| M::Int(format!("1{}{}", "0".repeat(n - 1), k)));
            two(&|k| M::Dec(format!("0.{}", digits(k))));
            two(&|k| M::Dec(format!("3{}.5", digits(k))));
            two(&|k| M::Dec(format!("0.{}1{k}", "0".repeat(n))));
            two(&|k| M::Byte(format!("0x{}", word(k, "09afAF1_").replace("__", "_5").trim_matches('_'))));
            two(&|k| M::Sym(format!("n{}", word(k, "abcXYZ019_é变"))));
            if c.paths {
                two(&|k| M::Sym((0..n.min(300)).map(|i| if i == at.min(n.min(300) - 1) { format!("p{k}") } else { format!("q{}", i % 7) }).collect::<Vec<_>>().join("::")));
            }
            if c.strings {
                two(&|k| M::Str(word(k, "ab c\n\t.é变\u{301}😀 1")));
                two(&|k| M::Block(k as usize % 2, format!("x{}y", word(k, "ab \"c\\n\t.é变😀").replace("\"\"", "\"a"))));
            }
        }
    }
    v
}
fn of_long(c: Cfg, out: &mut Vec<M>) {
    let bx = Box::new;
    let arg = |val: M| Arg { key: None, val };
    for (i, (m, o)) in long_leaves(c).into_iter().enumerate() {
        match i % 7 {
            0 if c.lists => out.push(M::List(vec![M::Int("1".into()), m.clone(), o.clone()])),
            1 if c.calls => out.push(M::Call("f".into(), vec![vec![arg(m.clone()), arg(M::Sym("x".into())), arg(o.clone())]])),
            2 if c.calls && c.options => out.push(M::Call("f".into(), vec![vec![Arg { key: Some("k".into()), val: m.clone() }, arg(o.clone())]])),
            3 | 4 if !c.infix.is_empty() => out.push(M::Inf(c.infix[i / 7 % c.infix.len()].into(), bx(m.clone()), bx(o.clone()))),
            5 if c.calls => match &o {
                M::Sym(f) if !f.contains("::") || c.paths => out.push(M::Call(f.clone(), vec![vec![arg(m.clone())]])),
                _ => out.push(M::Call("f".into(), vec![vec![arg(o.clone())]])),
            },
            6 if c.index => out.push(M::Index(bx(M::Sym("x".into())), vec![Ix::One(m.clone()), Ix::Range(Some(o.clone()), Some(m.clone()), None, false)])),
            _ => (),
        }
        out.push(m);
    }
}
/// one construct inside another, many times over
pub fn nested(c: Cfg) -> BoxedStrategy<M> {
    type Wrap = (u8, u8, String, M);
    fn wrap(c: &Cfg, x: M, (kind, pick, name, other): Wrap) -> M {
        let arg = |val| Arg { key: None, val };
        let mut all: Vec<u8> = vec![];
        if c.calls {
            all.extend([0, 0, 1]);
            if c.options {
                all.push(2)
            }
        }
        if c.lists {
            all.extend([3, 3])
        }
        if c.index {
            all.extend([4, 5, 6])
        }
        if c.parens {
            all.push(7)
        }
        if c.juxt && c.calls {
            all.push(8)
        }
        if c.dot && c.calls {
            all.push(9)
        }
        if !c.infix.is_empty() {
            all.extend([10, 11])
        }
        if !c.prefix.is_empty() {
            all.push(12)
        }
        if !c.suffix.is_empty() {
            all.push(13)
        }
        if all.is_empty() {
            return x;
        }
        let p = pick as usize;
        let bx = Box::new;
        match all[kind as usize % all.len()] {
            0 => match p % 3 {
                0 => M::Call(name, vec![vec![arg(x)]]),
                1 => M::Call(name, vec![vec![arg(x), arg(other)]]),
                _ => M::Call(name, vec![vec![arg(other), arg(x)]]),
            },
            1 => M::Call(name, if p % 2 == 0 { vec![vec![arg(other)], vec![arg(x)]] } else { vec![vec![arg(x)], vec![]] }),
            2 => M::Call(name.clone(), vec![vec![Arg { key: Some(name), val: x }]]),
            3 => M::List(match p % 3 {
                0 => vec![x],
                1 => vec![x, other],
                _ => vec![other, x],
            }),
            4 => M::Index(bx(other), vec![Ix::One(x)]),
            5 => M::Index(bx(x), vec![Ix::One(other)]),
            6 => M::Index(
                bx(M::Sym(name)),
                vec![match p % 4 {
                    0 => Ix::Range(Some(x), None, None, p % 8 < 4),
                    1 => Ix::Range(None, Some(x), None, p % 8 < 4),
                    2 => Ix::Range(None, None, Some(x), true),
                    _ => Ix::Range(Some(x), Some(other), None, p % 8 < 4),
                }],
            ),
            7 => M::Paren(bx(x)),
            8 => M::Juxt(vec![M::Sym("a".into()), M::Call(name, vec![vec![arg(x)]])]),
            9 => M::Dot(bx(other), bx(M::Call(name, vec![vec![arg(x)]]))),
            10 => M::Inf(c.infix[p % c.infix.len()].into(), bx(x), bx(other)),
            11 => M::Inf(c.infix[p % c.infix.len()].into(), bx(other), bx(x)),
            12 => M::Pre(c.prefix[p % c.prefix.len()].into(), bx(x)),
            _ => M::Suf(c.suffix[p % c.suffix.len()].into(), bx(x)),
        }
    }
    let one = (any::<u8>(), any::<u8>(), name(), plain_leaf(c));
    // few or many different levels
    let levels = prop_oneof![
        1 => proptest::collection::vec(one.clone(), 1..40),
        1 => (proptest::collection::vec(one, 1..4), 1usize..60).prop_map(|(v, n)| v.into_iter().cycle().take(n).collect::<Vec<_>>()),
    ];
    (leaf(c), levels).prop_map(move |(x, v)| v.into_iter().fold(x, |x, w| wrap(&c, x, w))).boxed()
}
pub fn expression(c: Cfg) -> BoxedStrategy<M> {
    let d = deep(c);
    let bx = || d.clone().prop_map(Box::new);
    // two of them in one, as half of the recursive ones are single leaves
    let mut two: Vec<BoxedStrategy<M>> = vec![];
    if !c.infix.is_empty() {
        two.push((proptest::sample::select(c.infix), bx(), bx()).prop_map(|(o, l, r)| M::Inf(o.into(), l, r)).boxed());
    }
    if c.calls {
        two.push((name(), d.clone(), d.clone()).prop_map(|(f, x, y)| M::Call(f, vec![[x, y].map(|val| Arg { key: None, val }).to_vec()])).boxed());
    }
    if c.lists {
        two.push((d.clone(), d.clone()).prop_map(|(x, y)| M::List(vec![x, y])).boxed());
    }
    if c.index {
        two.push((bx(), d.clone()).prop_map(|(x, y)| M::Index(x, vec![Ix::One(y)])).boxed());
    }
    // the same operand twice
    if !c.infix.is_empty() {
        two.push((proptest::sample::select(c.infix), bx()).prop_map(|(o, x)| M::Inf(o.into(), x.clone(), x)).boxed());
    }
    if c.calls {
        two.push((name(), d.clone()).prop_map(|(f, x)| M::Call(f, vec![[x.clone(), x].map(|val| Arg { key: None, val }).to_vec()])).boxed());
    }
    let two = proptest::strategy::Union::new(two);
    let free = prop_oneof![16 => d, 16 => two, 4 => wide(c), 1 => nested(c)];
    // few different values
    let pool = proptest::collection::vec(plain_leaf(c), 1..4);
    let few = (free.clone(), pool, proptest::collection::vec(any::<u8>(), 8)).prop_map(|(mut m, pool, pick)| {
        relabel(&mut m, &pool, &pick, &mut 0);
        m
    });
    prop_oneof![3 => free, 1 => few].boxed()
}
/// short literals of every kind, special values among them
pub fn plain_leaves(c: Cfg) -> Vec<M> {
    let mut v = vec![];
    v.extend(["0", "1", "2", "10"].map(|s| M::Int(s.into())));
    v.extend(["0.0", "1.0", "2.5", "0.5"].map(|s| M::Dec(s.into())));
    v.extend(["0x1", "0b0"].map(|s| M::Byte(s.into())));
    v.extend([M::Bool(true), M::Bool(false), M::Null]);
    v.extend(["a", "x", "e"].map(|s| M::Sym(s.into())));
    if c.paths {
        v.push(M::Sym("a::x".into()));
    }
    if c.strings {
        v.extend(["", "a", "1"].map(|s| M::Str(s.into())));
        v.push(M::Block(0, "a".into()));
    }
    if c.slots {
        v.extend(["#", "#1", "#a"].map(|s| M::Slot(s.into())));
        v.push(M::Repl("¶".into()));
    }
    if c.lists {
        v.push(M::List(vec![]));
    }
    if c.calls {
        v.push(M::Call("f".into(), vec![vec![]]));
        v.push(M::Call("f".into(), vec![vec![Arg { key: None, val: M::Sym("x".into()) }]]));
    }
    v
}
pub fn plain_leaf(c: Cfg) -> BoxedStrategy<M> {
    proptest::sample::select(plain_leaves(c)).boxed()
}
/// other leaves where any leaf may stand
pub fn relabel(m: &mut M, pool: &[M], pick: &[u8], k: &mut usize) {
    let mut go = |x: &mut M| relabel(x, pool, pick, k);
    match m {
        M::Pre(_, x) | M::Suf(_, x) | M::Paren(x) => go(x),
        M::Inf(_, l, r) => {
            go(l);
            go(r);
        }
        M::Dot(l, r) => {
            go(l);
            if let M::Call(..) = **r {
                go(r);
            }
        }
        M::Index(x, ix) => {
            go(x);
            for i in ix {
                match i {
                    Ix::One(m) => go(m),
                    Ix::Range(a, b, c, _) => [a, b, c].into_iter().flatten().for_each(&mut go),
                }
            }
        }
        M::Call(_, gs) => gs.iter_mut().flatten().for_each(|a| go(&mut a.val)),
        M::List(v) => v.iter_mut().for_each(&mut go),
        M::Juxt(v) => v.iter_mut().filter(|m| matches!(m, M::Call(..))).for_each(&mut go),
        _ => {
            *m = pool[pick[*k % pick.len()] as usize % pool.len()].clone();
            *k += 1;
        }
    }
}
fn deep(c: Cfg) -> BoxedStrategy<M> {
    let (broad, loose) = (wide(c), juxt(None));
    leaf(c)
        .prop_recursive(c.depth, c.size, 4, move |inner| {
            let bx = inner.clone().prop_map(Box::new);
            let mut v: Vec<(u32, BoxedStrategy<M>)> = vec![(1, broad.clone())];
            if !c.infix.is_empty() {
                let ops = proptest::sample::select(c.infix).prop_map(String::from);
                v.push((8, (ops, bx.clone(), bx.clone()).prop_map(|(o, l, r)| M::Inf(o, l, r)).boxed()));
            }
            if !c.prefix.is_empty() {
                let ops = proptest::sample::select(c.prefix).prop_map(String::from);
                v.push((3, (ops.clone(), bx.clone()).prop_map(|(o, x)| M::Pre(o, x)).boxed()));
                v.push((1, (proptest::collection::vec(ops, 2..6), inner.clone()).prop_map(|(o, x)| o.into_iter().fold(x, |x, o| M::Pre(o, Box::new(x)))).boxed()));
            }
            if !c.suffix.is_empty() {
                let ops = proptest::sample::select(c.suffix).prop_map(String::from);
                v.push((2, (ops.clone(), bx.clone()).prop_map(|(o, x)| M::Suf(o, x)).boxed()));
                v.push((1, (proptest::collection::vec(ops, 2..4), inner.clone()).prop_map(|(o, x)| o.into_iter().fold(x, |x, o| M::Suf(o, Box::new(x)))).boxed()));
            }
            if c.parens {
                v.push((1, bx.clone().prop_map(M::Paren).boxed()));
            }
            let calls = call(inner.clone(), c.options, c.paths);
            if c.calls {
                v.push((4, calls.clone()));
            }
            if c.dot {
                let mut rhs = vec![(3, if c.paths { path() } else { name() }.prop_map(M::Sym).boxed()), (2, integer().prop_map(M::Int).boxed())];
                if c.calls {
                    rhs.push((3, calls.clone()));
                }
                let rhs = proptest::strategy::Union::new_weighted(rhs);
                v.push((3, (bx.clone(), rhs.prop_map(Box::new)).prop_map(|(l, r)| M::Dot(l, r)).boxed()));
            }
            if c.juxt {
                v.push((2, if c.calls { juxt(Some(calls.clone())) } else { loose.clone() }));
            }
            if c.lists {
                v.push((2, proptest::collection::vec(inner.clone(), 0..4).prop_map(M::List).boxed()));
            }
            if c.index {
                let o = || proptest::option::of(inner.clone());
                let range = (o(), o(), o(), any::<bool>()).prop_map(|(a, b, c, d)| Ix::Range(a, b, c, d));
                let ix = prop_oneof![3 => inner.clone().prop_map(Ix::One), 2 => range];
                v.push((2, (bx.clone(), proptest::collection::vec(ix, 1..4)).prop_map(|(x, i)| M::Index(x, i)).boxed()));
            }
            proptest::strategy::Union::new_weighted(v)
        })
        .boxed()
}
/// bytes that decide layout
pub fn layout() -> BoxedStrategy<Vec<u8>> {
    proptest::collection::vec(any::<u8>(), 0..60).boxed()
}
/// value of a decimal integer literal
pub fn big(s: &str) -> BigInt {
    BigInt::from_str_radix(s, 10).unwrap()
}
/// nesting of index brackets
pub fn slice_depth(m: &M) -> usize {
    let inner = match m {
        M::Index(x, _) => {
            let inside = m.children().iter().skip(1).map(|c| slice_depth(c)).max().unwrap_or(0);
            return (inside + 1).max(slice_depth(x));
        }
        _ => m.children().iter().map(|c| slice_depth(c)).max().unwrap_or(0),
    };
    inner
}
/// operator expressions of a given number of leaves, any shape
pub fn bushy(leaf: BoxedStrategy<M>, infix: &'static [&'static str], prefix: &'static [&'static str], suffix: &'static [&'static str], most: usize) -> BoxedStrategy<M> {
    fn build(leaves: &[(M, [u8; 4])], infix: &[&str], prefix: &[&str], suffix: &[&str]) -> M {
        let (_, [cut, op, mark, which]) = leaves[leaves.len() / 2];
        let mut m = if leaves.len() == 1 {
            leaves[0].0.clone()
        } else {
            let k = 1 + cut as usize % (leaves.len() - 1);
            let l = build(&leaves[..k], infix, prefix, suffix);
            let r = build(&leaves[k..], infix, prefix, suffix);
            M::Inf(infix[op as usize % infix.len()].into(), Box::new(l), Box::new(r))
        };
        let which = which as usize;
        if mark % 8 == 1 && !prefix.is_empty() {
            m = M::Pre(prefix[which % prefix.len()].into(), Box::new(m));
        } else if mark % 8 == 2 && !suffix.is_empty() {
            m = M::Suf(suffix[which % suffix.len()].into(), Box::new(m));
        } else if mark % 16 == 3 {
            m = M::Paren(Box::new(m));
        }
        m
    }
    proptest::collection::vec((leaf, any::<[u8; 4]>()), 1..most).prop_map(move |v| build(&v, infix, prefix, suffix)).boxed()
}
