//! Offline stand-in for `wolfram_wxf` 0.4: the `WolframValue` tree sm-ast
//! builds, and its textual (InputForm) rendering.  The WXF byte encoding is
//! reduced to the bytes of the text, because no check looks at it.
use num::BigInt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum WolframValue {
    Skip,
    Function(Box<WolframValue>, Vec<WolframValue>),
    String(Box<str>),
    Bytes(Vec<u8>),
    Symbol(Box<str>),
    Integer8(i8),
    Integer16(i16),
    Integer32(i32),
    Integer64(i64),
    BigInteger(BigInt),
    BigDecimal(Box<str>),
    Association(Vec<(WolframValue, WolframValue)>),
    Rule(Box<WolframValue>, Box<WolframValue>),
    RuleDelayed(Box<WolframValue>, Box<WolframValue>),
}

pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_string(&self) -> String {
        self.to_wolfram().render()
    }
    fn to_wolfram_bytes(&self) -> Vec<u8> {
        self.to_wolfram_string().into_bytes()
    }
}

impl ToWolfram for WolframValue {
    fn to_wolfram(&self) -> WolframValue {
        self.clone()
    }
}

impl ToWolfram for String {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::String(Box::from(self.as_str()))
    }
}

impl ToWolfram for BigInt {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::BigInteger(self.clone())
    }
}

impl ToWolfram for bool {
    fn to_wolfram(&self) -> WolframValue {
        WolframValue::symbol(if *self { "True" } else { "False" })
    }
}

impl WolframValue {
    pub fn symbol(s: impl AsRef<str>) -> WolframValue {
        WolframValue::Symbol(Box::from(s.as_ref()))
    }
    pub fn string(s: impl AsRef<str>) -> WolframValue {
        WolframValue::String(Box::from(s.as_ref()))
    }
    pub fn function(name: impl AsRef<str>, args: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::Function(Box::new(WolframValue::symbol(name)), args.iter().map(|a| a.to_wolfram()).collect())
    }
    pub fn list(args: Vec<impl ToWolfram>) -> WolframValue {
        WolframValue::function("List", args)
    }

    fn render(&self) -> String {
        match self {
            WolframValue::Skip => String::new(),
            WolframValue::Function(h, args) => {
                let inner: Vec<String> = args.iter().map(|a| a.render()).collect();
                match &**h {
                    WolframValue::Symbol(s) if &**s == "List" => format!("{{{}}}", inner.join(",")),
                    h => format!("{}[{}]", h.render(), inner.join(",")),
                }
            }
            WolframValue::String(s) => {
                let mut out = String::from("\"");
                for c in s.chars() {
                    if c == '"' || c == '\\' {
                        out.push('\\');
                    }
                    out.push(c);
                }
                out.push('"');
                out
            }
            WolframValue::Bytes(b) => format!("ByteArray[{:?}]", b),
            WolframValue::Symbol(s) => s.to_string(),
            WolframValue::Integer8(i) => i.to_string(),
            WolframValue::Integer16(i) => i.to_string(),
            WolframValue::Integer32(i) => i.to_string(),
            WolframValue::Integer64(i) => i.to_string(),
            WolframValue::BigInteger(i) => i.to_string(),
            WolframValue::BigDecimal(d) => d.to_string(),
            WolframValue::Association(kv) => {
                let inner: Vec<String> = kv.iter().map(|(k, v)| format!("{}->{}", k.render(), v.render())).collect();
                format!("<|{}|>", inner.join(","))
            }
            WolframValue::Rule(k, v) => format!("{}->{}", k.render(), v.render()),
            WolframValue::RuleDelayed(k, v) => format!("{}:>{}", k.render(), v.render()),
        }
    }
}
