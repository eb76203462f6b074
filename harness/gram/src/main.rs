//! C14: the checked-in parser against a parser generated from the grammar file at build time.
use pbt::proptest::prelude::*;
use pbt::proptest;
use pbt::lang;
use pbt::{ensure, fail, harness_ensure, no_panic, Check, Erased, Obs, Prop, Tier};
use sentences::*;
use serde::{Deserialize, Serialize};
include!(concat!(env!("OUT_DIR"), "/rules.rs"));

#[allow(clippy::all, non_camel_case_types, non_snake_case, unused)]
mod derived {
    pub struct P;
    include!(concat!(env!("OUT_DIR"), "/derived.rs"));
}
fn derived(name: &str) -> Option<derived::Rule> {
    derived::Rule::all_rules().iter().copied().find(|r| format!("{r:?}") == name)
}

/// a parse tree: rule, span, children; or the position of the error
#[derive(Debug, PartialEq)]
struct Node(String, usize, usize, Vec<Node>);
#[derive(Debug, PartialEq)]
enum Outcome {
    Tree(Vec<Node>),
    Refused(String, String),
}
impl Node {
    fn size(&self) -> usize {
        1 + self.3.iter().map(Node::size).sum::<usize>()
    }
}

fn ours(rule: derived::Rule, text: &str) -> Outcome {
    use pest::Parser;
    fn node(p: pest::iterators::Pair<derived::Rule>) -> Node {
        let s = p.as_span();
        Node(format!("{:?}", p.as_rule()), s.start(), s.end(), p.into_inner().map(node).collect())
    }
    match derived::P::parse(rule, text) {
        Ok(p) => Outcome::Tree(p.map(node).collect()),
        Err(e) => Outcome::Refused(format!("{:?}", e.location), format!("{:?}", e.line_col)),
    }
}
fn theirs(rule: sm_parser::Rule, text: &str) -> Outcome {
    use sm_parser::Parser;
    fn node(p: sm_parser::Pair<sm_parser::Rule>) -> Node {
        let s = p.as_span();
        Node(format!("{:?}", p.as_rule()), s.start(), s.end(), p.into_inner().map(node).collect())
    }
    match sm_parser::SMParser::parse(rule, text) {
        Ok(p) => Outcome::Tree(p.map(node).collect()),
        Err(e) => Outcome::Refused(format!("{:?}", e.location), format!("{:?}", e.line_col)),
    }
}
/// first place where two trees differ
fn diff(a: &[Node], b: &[Node]) -> String {
    for (x, y) in a.iter().zip(b) {
        if (&x.0, x.1, x.2) != (&y.0, y.1, y.2) {
            return format!("parser {}@{}..{}, grammar {}@{}..{}", x.0, x.1, x.2, y.0, y.1, y.2);
        }
        if x.3 != y.3 {
            return diff(&x.3, &y.3);
        }
    }
    let name = |v: &[Node]| v.iter().map(|n| n.0.clone()).collect::<Vec<_>>().join(" ");
    format!("parser gives [{}], grammar [{}]", name(a), name(b))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    rule: String,
    text: String,
}
pub struct Shipped;
impl Prop for Shipped {
    type Case = Text;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "for every rule of the grammar file: sentences derived from the rule with any spacing, the same with up to three edits, soup of the terminals of both, brackets of every kind nested up to 40 deep, and arbitrary text; every terminal and sample under every rule; oracle: a parser derived from the grammar file when the check is built. Non-trivial: accepted with at least two nodes, or refused after the first character"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(2_400_000, 40_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Text> {
        let mut v = vec![];
        let mut rules = grammar().rules();
        rules.extend(SHIPPED.iter().map(|s| s.to_string()));
        rules.sort();
        rules.dedup();
        rules.retain(|r| r != "EOI"); // pest's own
        let texts = samples();
        for r in rules {
            for t in &texts {
                v.push(Text { rule: r.clone(), text: t.clone() });
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Text> {
        let depth = t.pick(14, 22);
        let rules = grammar().rules();
        let main: Vec<String> = ["program", "statement", "expression", "expr", "term", "data"].iter().map(|s| s.to_string()).filter(|s| rules.contains(s)).collect();
        harness_rules(&main);
        let any_rule = proptest::sample::select(rules.clone());
        let wide = proptest::sample::select(main.clone());
        let s = || prop_oneof![2 => sentence(rules.clone(), depth), 1 => sentence(main.clone(), depth)];
        prop_oneof![
            5 => s().prop_map(|(rule, text)| Text { rule, text }),
            // well-formed expressions with layout and comments anywhere
            2 => (lang::expression(lang::Cfg::FULL), lang::layout(), lang::layout(), proptest::sample::select(vec!["program", "expr", "expression", "statement"])).prop_map(|(m, l, a, rule)| Text {
                rule: rule.into(),
                text: lang::render(&m, &l, &a, "f", "", false).text,
            }),
            // a sentence of one rule read by another
            2 => (prop_oneof![any_rule.clone(), wide.clone()], s()).prop_map(|(rule, (_, text))| Text { rule, text }),
            4 => s().prop_flat_map(|(rule, text)| (Just(rule), edited(Just(text).boxed()))).prop_map(|(rule, text)| Text { rule, text }),
            3 => (prop_oneof![1 => any_rule.clone(), 2 => wide.clone()], soup(14)).prop_map(|(rule, text)| Text { rule, text }),
            1 => (prop_oneof![1 => any_rule.clone(), 2 => wide.clone()], nested(40)).prop_map(|(rule, text)| Text { rule, text }),
            1 => (prop_oneof![1 => any_rule, 2 => wide], noise()).prop_map(|(rule, text)| Text { rule, text }),
        ]
        .boxed()
    }
    fn check(&self, c: &Text, o: &mut Obs) -> Check {
        if !tame(&c.text) {
            o.label("skipped: too long");
            o.trivial_if(true);
            return Ok(());
        }
        let (Some(d), Some(s)) = (derived(&c.rule), shipped(&c.rule)) else {
            let (here, there) = (shipped(&c.rule).is_some(), derived(&c.rule).is_some());
            harness_ensure!(here || there, "no rule {}", c.rule);
            if there && grammar().silent(&c.rule) {
                // a name for a part of other rules, which are compared all the same
                o.label("skipped: silent, and only in the grammar file");
                o.trivial_if(true);
                return Ok(());
            }
            return fail(format!("rule {} is only in the {}", c.rule, if here { "shipped parser" } else { "grammar file" }));
        };
        // StringText peeks at the quotes its caller pushed: as a start rule it panics in pest itself
        let Ok(want) = pbt::quietly(|| ours(d, &c.text)) else {
            o.label("skipped: not a start rule");
            o.trivial_if(true);
            return Ok(());
        };
        let got = no_panic("the parser", || theirs(s, &c.text))?;
        let main = matches!(c.rule.as_str(), "program" | "statement" | "expression" | "expr");
        match (&got, &want) {
            (Outcome::Tree(a), Outcome::Tree(b)) => {
                let n = b.iter().map(Node::size).sum::<usize>();
                o.label(if main { "accepted by a main rule" } else { "accepted by another rule" });
                o.label_if(n > 20, "accepted with more than 20 nodes");
                o.label_if(c.rule == "program" && !c.text.is_empty(), "accepted program");
                o.trivial_if(n < 2);
                ensure!(a == b, "{} {:?}: {}", c.rule, c.text, diff(a, b));
            }
            (Outcome::Refused(a, al), Outcome::Refused(b, bl)) => {
                o.label(if main { "refused by a main rule" } else { "refused by another rule" });
                o.trivial_if(b == "Pos(0)");
                ensure!(a == b && al == bl, "{} {:?}: the parser refuses at {a} {al}, the grammar at {b} {bl}", c.rule, c.text);
            }
            (Outcome::Tree(_), _) => return fail(format!("{} {:?}: the parser accepts what the grammar refuses", c.rule, c.text)),
            (_, Outcome::Tree(_)) => return fail(format!("{} {:?}: the parser refuses what the grammar accepts", c.rule, c.text)),
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("accepted by a main rule", 1000), ("accepted by another rule", 5000), ("accepted with more than 20 nodes", 500), ("accepted program", 300), ("refused by a main rule", 1000), ("refused by another rule", 5000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["pest_generator 2.8.3 and the pest 2.8.3 runtime implement grammar files correctly", "texts with at most 150 open brackets and 4000 characters"]
    }
}
fn harness_rules(main: &[String]) {
    assert!(main.len() >= 4, "the grammar file no longer has its main rules");
}

fn all() -> Vec<Box<dyn Erased>> {
    vec![Box::new(Shipped)]
}
fn main() {
    pbt::main_with(all)
}
