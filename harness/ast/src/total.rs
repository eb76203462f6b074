//! C29: any text is parsed or refused.
use crate::norm::*;
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_ast::SMError;
use sm_parser::{Pair, Parser, Rule, SMParser};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Texts {
    text: String,
    between: String,
}
/// the first construct of an accepted text that has no expression form
fn unsupported(text: &str) -> Option<Option<String>> {
    fn inside(p: Pair<Rule>) -> Option<String> {
        for x in p.into_inner().flatten() {
            match x.as_rule() {
                Rule::dict | Rule::derivative => return Some(x.as_str().to_string()),
                Rule::Suffix if x.as_str() != "!" && x.as_str() != "!!" => return Some(x.as_str().to_string()),
                _ => {}
            }
        }
        None
    }
    let pairs = SMParser::parse(Rule::program, text).ok()?;
    for p in pairs {
        match p.as_rule() {
            Rule::EOI | Rule::COMMENT | Rule::emptyStatement => {}
            Rule::expression => {
                if let Some(s) = inside(p) {
                    return Some(Some(s));
                }
            }
            r => return Some(Some(format!("{r:?} {}", p.as_str()))),
        }
    }
    Some(None)
}
pub struct Total;
impl Prop for Total {
    type Case = Texts;
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "sentences derived from every rule of the grammar file (terminals, choices and repetitions from random bytes), soup of up to 16 of its terminals, sample tokens and long literals, written-out expressions of the language model, sentences and expressions with up to three random edits, and arbitrary text of up to 40 characters, brackets of every kind nested up to 60 deep, closed fully, partly or wrongly, all pairs of samples; up to 4000 characters and 150 open brackets. Oracle: no panic; the same result when parsed again, also after another text; a text the grammar refuses gives a parse error; statements and operators without an expression form give an error. Non-trivial: the grammar accepts the text"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(400_000, 5_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Texts> {
        let s = sentences::samples();
        let mut v = vec![];
        for a in &s {
            for b in &s {
                v.push(Texts { text: format!("{a}{b}"), between: String::new() });
                v.push(Texts { text: format!("x{a}{b}"), between: "1".into() });
            }
        }
        for m in pbt::lang::huge(pbt::lang::Cfg::FULL) {
            if m.count(|_| true) < 1100 {
                let text = pbt::lang::compact(&m).text;
                // whole, and without its end
                let cut: String = text.chars().take(text.chars().count() - 1).collect();
                v.push(Texts { text: text.clone(), between: cut.clone() });
                v.push(Texts { text: cut, between: text });
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Texts> {
        let g = sentences::grammar();
        let d = t.pick(11, 15);
        let any_rule = sentences::sentence(g.rules(), d).prop_map(|x| x.1);
        let program = sentences::sentence(vec!["program".into(), "statement".into(), "expression".into(), "expr".into(), "term".into()], d).prop_map(|x| x.1);
        let expr = (pbt::lang::expression(pbt::lang::Cfg::FULL), pbt::lang::layout(), pbt::lang::layout()).prop_map(|(m, l, a)| pbt::lang::render(&m, &l, &a, "f", "", false).text);
        let texts = move || {
            prop_oneof![
                2 => any_rule.clone(),
                4 => program.clone(),
                2 => sentences::soup(16),
                2 => expr.clone(),
                1 => sentences::edited(expr.clone().boxed()),
                1 => (sentences::long_token(), sentences::soup(4)).prop_map(|(a, b)| a + &b),
                2 => sentences::edited(program.clone().boxed()),
                1 => sentences::edited(any_rule.clone().boxed()),
                1 => sentences::noise(),
                1 => sentences::nested(60),
            ]
            .prop_filter("size", |t| sentences::tame(t))
        };
        (texts(), texts()).prop_map(|(text, between)| Texts { text, between }).boxed()
    }
    fn check(&self, c: &Texts, o: &mut Obs) -> Check {
        let told = |r: &Result<sm_ast::AST, SMError>| match r {
            Ok(a) => format!("{:?}", norm(a)),
            Err(e) => format!("{e:?}"),
        };
        let first = parse(&c.text)?;
        o.label_if(first.is_ok(), "parsed");
        o.label_if(sentences::nesting(&c.text) >= 15, "15 or more brackets deep");
        o.label_if(first.is_ok() && sentences::nesting(&c.text) >= 15, "parsed, 15 or more brackets deep");
        match pbt::quietly(|| unsupported(&c.text)) {
            Ok(None) => {
                o.trivial = true;
                o.label("refused by the grammar");
                match &first {
                    Err(SMError::ParseError(_)) => {}
                    r => return fail(format!("the grammar refuses {:?}, but parsing gives {}", c.text, told(r))),
                }
            }
            Ok(Some(Some(s))) => {
                o.label("without an expression form");
                ensure!(first.is_err(), "{:?} contains {s:?}, which has no expression form, but parses to {}", c.text, told(&first));
            }
            Ok(Some(None)) => {
                o.label_if(first.is_ok() && c.text.contains(';'), "several statements");
            }
            // the low-level parser crashing is reported by parse above
            Err(_) => {}
        }
        let again = parse(&c.text)?;
        ensure!(told(&first) == told(&again), "{:?} parses to {} and then to {}", c.text, told(&first), told(&again));
        parse(&c.between)?;
        let later = parse(&c.text)?;
        ensure!(told(&first) == told(&later), "{:?} parses to {}, after {:?} to {}", c.text, told(&first), c.between, told(&later));
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("parsed", 20_000), ("refused by the grammar", 10_000), ("without an expression form", 3000), ("15 or more brackets deep", 1000), ("parsed, 15 or more brackets deep", 200)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the parser is recursive: texts have at most 150 open brackets (the stack lasts for about 3000)", "a text which is not answered within 100 s counts as not answered"]
    }
}
