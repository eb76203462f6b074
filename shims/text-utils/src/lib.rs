//! Offline stand-in for `text-utils` 0.2: the one function sm-ast calls.

/// Upper-case the first letter, keep the rest.
pub fn capitalize_first_letter(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        None => String::new(),
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
    }
}
