//! Offline stand-in for `bigdecimal` 0.1: unscaled integer plus decimal scale,
//! with the construction, comparison, arithmetic and formatting behaviour of
//! the original that sm-ast relies on.
use num::{bigint::Sign, BigInt, Num, One, Signed, ToPrimitive, Zero};
use std::{
    cmp::Ordering,
    fmt,
    hash::{Hash, Hasher},
    ops::{Add, Div, Mul, Neg, Rem, Sub},
    str::FromStr,
};

#[derive(Clone, Debug, Default)]
pub struct BigDecimal {
    int_val: BigInt,
    scale: i64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum ParseBigDecimalError {
    Empty,
    Other(String),
}

impl fmt::Display for ParseBigDecimalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ParseBigDecimalError::Empty => write!(f, "Failed to parse empty string"),
            ParseBigDecimalError::Other(s) => write!(f, "{}", s),
        }
    }
}

impl std::error::Error for ParseBigDecimalError {}

fn ten_pow(n: u64) -> BigInt {
    num::pow(BigInt::from(10), n as usize)
}

impl BigDecimal {
    pub fn new(digits: BigInt, scale: i64) -> Self {
        BigDecimal { int_val: digits, scale }
    }
    pub fn as_bigint_and_exponent(&self) -> (BigInt, i64) {
        (self.int_val.clone(), self.scale)
    }
    pub fn into_bigint_and_exponent(self) -> (BigInt, i64) {
        (self.int_val, self.scale)
    }
    pub fn with_scale(&self, scale: i64) -> BigDecimal {
        if scale >= self.scale {
            BigDecimal::new(&self.int_val * ten_pow((scale - self.scale) as u64), scale)
        }
        else {
            BigDecimal::new(&self.int_val / ten_pow((self.scale - scale) as u64), scale)
        }
    }
    pub fn sign(&self) -> Sign {
        self.int_val.sign()
    }
    pub fn digits(&self) -> u64 {
        self.int_val.abs().to_string().len() as u64
    }
    pub fn normalized(&self) -> BigDecimal {
        if self.int_val.is_zero() {
            return BigDecimal::zero();
        }
        let (mut i, mut s) = (self.int_val.clone(), self.scale);
        let ten = BigInt::from(10);
        while (&i % &ten).is_zero() {
            i = i / &ten;
            s -= 1;
        }
        BigDecimal::new(i, s)
    }
    fn aligned(&self, other: &Self) -> (BigInt, BigInt, i64) {
        let s = self.scale.max(other.scale);
        (self.with_scale(s).int_val, other.with_scale(s).int_val, s)
    }
    pub fn abs(&self) -> BigDecimal {
        BigDecimal::new(self.int_val.abs(), self.scale)
    }
    pub fn is_integer(&self) -> bool {
        self.scale <= 0 || (&self.int_val % ten_pow(self.scale as u64)).is_zero()
    }
    pub fn is_positive(&self) -> bool {
        self.int_val.is_positive()
    }
    pub fn is_negative(&self) -> bool {
        self.int_val.is_negative()
    }
    pub fn to_bigint(&self) -> Option<BigInt> {
        Some(self.with_scale(0).int_val)
    }
}

impl Num for BigDecimal {
    type FromStrRadixErr = ParseBigDecimalError;
    fn from_str_radix(s: &str, radix: u32) -> Result<BigDecimal, ParseBigDecimalError> {
        let other = |e: String| ParseBigDecimalError::Other(e);
        if radix != 10 {
            return Err(other(String::from("The radix for decimals must be 10")));
        }
        let (base, exp) = match s.find(|c| c == 'e' || c == 'E') {
            None => (s, 0i64),
            Some(i) => {
                let e = s[i + 1..].trim_start_matches('+');
                (&s[..i], i64::from_str(e).map_err(|e| other(e.to_string()))?)
            }
        };
        if base.is_empty() {
            return Err(ParseBigDecimalError::Empty);
        }
        let (digits, offset) = match base.find('.') {
            None => (base.to_string(), 0i64),
            Some(i) => (format!("{}{}", &base[..i], &base[i + 1..]), (base.len() - i - 1) as i64),
        };
        let n = BigInt::from_str_radix(&digits, 10).map_err(|e| other(e.to_string()))?;
        Ok(BigDecimal::new(n, offset - exp))
    }
}

impl FromStr for BigDecimal {
    type Err = ParseBigDecimalError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        BigDecimal::from_str_radix(s, 10)
    }
}

impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut digits = self.int_val.abs().to_str_radix(10);
        let (before, mut after) = if self.scale >= digits.len() as i64 {
            let zeros = "0".repeat(self.scale as usize - digits.len());
            ("0".to_string(), zeros + &digits)
        }
        else {
            let location = digits.len() as i64 - self.scale;
            if location > digits.len() as i64 {
                let zeros = "0".repeat(location as usize - digits.len());
                (digits + &zeros, String::new())
            }
            else {
                let after = digits.split_off(location as usize);
                (digits, after)
            }
        };
        if let Some(p) = f.precision() {
            while after.len() < p {
                after.push('0');
            }
            after.truncate(p);
        }
        let text = if after.is_empty() { before } else { before + "." + &after };
        f.pad_integral(self.int_val.sign() != Sign::Minus, "", &text)
    }
}

impl PartialEq for BigDecimal {
    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }
}
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, other: &Self) -> Ordering {
        let (a, b, _) = self.aligned(other);
        a.cmp(&b)
    }
}
impl Hash for BigDecimal {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.normalized().to_string().hash(state)
    }
}

impl Zero for BigDecimal {
    fn zero() -> Self {
        BigDecimal::new(BigInt::zero(), 0)
    }
    fn is_zero(&self) -> bool {
        self.int_val.is_zero()
    }
}
impl One for BigDecimal {
    fn one() -> Self {
        BigDecimal::new(BigInt::one(), 0)
    }
    fn is_one(&self) -> bool {
        *self == BigDecimal::one()
    }
}

fn add(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.aligned(b);
    BigDecimal::new(x + y, s)
}
fn sub(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.aligned(b);
    BigDecimal::new(x - y, s)
}
fn mul(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    BigDecimal::new(&a.int_val * &b.int_val, a.scale + b.scale)
}
fn div(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    if b.is_zero() {
        panic!("Division by zero");
    }
    // 100 significant digits, as the original
    let shift = 100 + b.digits() as i64;
    BigDecimal::new(&a.int_val * ten_pow(shift as u64) / &b.int_val, a.scale + shift - b.scale).normalized()
}
fn rem(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.aligned(b);
    BigDecimal::new(x % y, s)
}

macro_rules! ops {
    ($($t:ident $m:ident $f:ident),*) => {$(
        impl $t<BigDecimal> for BigDecimal {
            type Output = BigDecimal;
            fn $m(self, o: BigDecimal) -> BigDecimal { $f(&self, &o) }
        }
        impl<'a> $t<&'a BigDecimal> for BigDecimal {
            type Output = BigDecimal;
            fn $m(self, o: &BigDecimal) -> BigDecimal { $f(&self, o) }
        }
        impl<'a> $t<BigDecimal> for &'a BigDecimal {
            type Output = BigDecimal;
            fn $m(self, o: BigDecimal) -> BigDecimal { $f(self, &o) }
        }
        impl<'a, 'b> $t<&'b BigDecimal> for &'a BigDecimal {
            type Output = BigDecimal;
            fn $m(self, o: &BigDecimal) -> BigDecimal { $f(self, o) }
        }
    )*};
}
ops!(Add add add, Sub sub sub, Mul mul mul, Div div div, Rem rem rem);

impl Neg for BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        BigDecimal::new(-self.int_val, self.scale)
    }
}
impl<'a> Neg for &'a BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        BigDecimal::new(-&self.int_val, self.scale)
    }
}

macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl From<$t> for BigDecimal {
            fn from(n: $t) -> Self { BigDecimal::new(BigInt::from(n), 0) }
        }
    )*};
}
from_int!(i8, i16, i32, i64, u8, u16, u32, u64, usize);

impl From<BigInt> for BigDecimal {
    fn from(n: BigInt) -> Self {
        BigDecimal::new(n, 0)
    }
}
impl From<(BigInt, i64)> for BigDecimal {
    fn from((n, s): (BigInt, i64)) -> Self {
        BigDecimal::new(n, s)
    }
}
impl From<f32> for BigDecimal {
    fn from(n: f32) -> Self {
        BigDecimal::from_str(&n.to_string()).unwrap()
    }
}
impl From<f64> for BigDecimal {
    fn from(n: f64) -> Self {
        BigDecimal::from_str(&n.to_string()).unwrap()
    }
}

impl ToPrimitive for BigDecimal {
    fn to_i64(&self) -> Option<i64> {
        self.with_scale(0).int_val.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.with_scale(0).int_val.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
