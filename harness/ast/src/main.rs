//! Checks of the language: parser, printers, evaluator, session, files, playground. C13, C15-C35.
mod eval;
mod files;
mod norm;
mod order;
mod output;
mod refusal;
mod shape;
mod total;
mod values;
use pbt::Erased;

fn all() -> Vec<Box<dyn Erased>> {
    vec![
        Box::new(shape::Precedence),
        Box::new(shape::Literals),
        Box::new(shape::Calls),
        Box::new(shape::Layout),
        Box::new(shape::Positions),
        Box::new(output::Printing),
        Box::new(output::Wolfram),
        Box::new(output::Tex),
        Box::new(shape::Operands),
        Box::new(eval::Errors),
        Box::new(eval::Arithmetic),
        Box::new(eval::Robust),
        Box::new(eval::Session),
        Box::new(eval::Inspect),
        Box::new(eval::Playground),
        Box::new(files::Files),
        Box::new(total::Total),
        Box::new(order::Order),
        Box::new(order::Statements),
        Box::new(order::Naming),
        Box::new(refusal::Refusals),
        Box::new(values::Values),
    ]
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("alone") {
        return eval::alone();
    }
    pbt::main_with(all)
}
