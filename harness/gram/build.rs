//! Generates a parser from the grammar file, and writes a name -> rule function for the shipped parser's `Rule` enum, whichever file of sm-parser declares it.
use std::{env, fs, path::Path};

fn find(dir: &Path, out: &mut Vec<String>) {
    for e in fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            find(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            let Ok(f) = syn::parse_file(&fs::read_to_string(&p).unwrap()) else { continue };
            for i in f.items {
                if let syn::Item::Enum(e) = i {
                    if e.ident == "Rule" {
                        *out = e.variants.iter().map(|v| v.ident.to_string()).collect();
                    }
                }
            }
        }
    }
}

fn main() {
    let src = Path::new("/repo/projects/sm-parser/src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=/repo/projects/sm-parser/simple-math.pest");
    let mut names = vec![];
    find(src, &mut names);
    assert!(!names.is_empty(), "no Rule enum in sm-parser");
    let mut s = String::from("pub fn shipped(name: &str) -> Option<sm_parser::Rule> {\n    Some(match name {\n");
    for n in &names {
        s += &format!("        {n:?} => sm_parser::Rule::r#{n},\n");
    }
    s += "        _ => return None,\n    })\n}\n";
    s += &format!("pub const SHIPPED: &[&str] = &{names:?};\n");
    let out = env::var("OUT_DIR").unwrap();
    let out = Path::new(&out);
    fs::write(out.join("rules.rs"), s).unwrap();
    // the grammar file uses comment lines of an older pest, which the current one reads as documentation
    let text = fs::read_to_string("/repo/projects/sm-parser/simple-math.pest").unwrap();
    let text: String = text.lines().map(|l| if l.trim_start().starts_with("//") { "\n".to_string() } else { format!("{l}\n") }).collect();
    let code = pest_generator::derive_parser(quote::quote!(#[grammar_inline = #text] pub struct P;), false);
    fs::write(out.join("derived.rs"), code.to_string()).unwrap();
}
