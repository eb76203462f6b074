//! Big integers as generated data: decimal text on disk, mixed-magnitude strategies.
use num::{bigint::Sign, BigInt, BigUint, Integer, One, Signed, Zero};
use pbt::proptest::{self, prelude::*};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::str::FromStr;

#[derive(Clone, PartialEq, Eq)]
pub struct Big(pub BigInt);
impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Serialize for Big {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for Big {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        BigInt::from_str(&s).map(Big).map_err(serde::de::Error::custom)
    }
}
impl<T: Into<BigInt>> From<T> for Big {
    fn from(x: T) -> Self {
        Big(x.into())
    }
}

pub fn p2(k: usize) -> BigInt {
    BigInt::one() << k
}
pub fn ten(k: usize) -> BigInt {
    let mut r = BigInt::one();
    for _ in 0..k {
        r = r * 10;
    }
    r
}

/// the places where machine arithmetic changes, and small values
pub fn edges(bits: &[usize]) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = [0, 1, 2, 3, 5, 6, 7, 10].iter().map(|x| BigInt::from(*x)).collect();
    for k in bits {
        v.extend((-1i64..=1).map(|d| p2(*k) + d));
    }
    v.iter().flat_map(|x| [x.clone(), -x]).filter(|x| !x.is_zero()).chain([BigInt::zero()]).collect()
}

/// any sign, sizes from tiny to `bytes` bytes, with powers of two and ten and their neighbours
pub fn big(bytes: usize) -> BoxedStrategy<Big> {
    let bits = bytes * 8;
    prop_oneof![
        4 => (-30i64..=30).prop_map(Big::from),
        3 => (-5000i64..=5000).prop_map(Big::from),
        2 => any::<i64>().prop_map(Big::from),
        2 => (0..bits, -2i64..=2, any::<bool>()).prop_map(|(k, d, n)| { let v = p2(k) + d; Big(if n { -v } else { v }) }),
        1 => (0..bits * 3 / 10, -2i64..=2, any::<bool>()).prop_map(|(k, d, n)| { let v = ten(k) + d; Big(if n { -v } else { v }) }),
        3 => (any::<bool>(), proptest::collection::vec(any::<u8>(), 1..=bytes)).prop_map(|(n, v)| Big(BigInt::from_bytes_le(if n { Sign::Minus } else { Sign::Plus }, &v))),
        2 => pbt::dict::number().prop_map(Big),
        // as many bits, or decimal digits, as a constant of the sources says
        1 => (pbt::dict::size(bits.max(1100)), any::<bool>(), any::<bool>(), any::<u64>()).prop_map(|(k, tens, n, x)| {
            let v = if tens && k <= 400 { ten(k) / 3 + x } else { p2(k) / 3 * 2 + x };
            Big(if n { -v } else { v })
        }),
    ]
    .boxed()
}
pub fn big_nonzero(bytes: usize) -> BoxedStrategy<Big> {
    big(bytes).prop_map(|b| if b.0.is_zero() { Big::from(1) } else { b }).boxed()
}

/// greatest common divisor by repeated remainders, never negative
pub fn gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = &a % &b;
        a = b;
        b = r;
    }
    a
}
pub fn divides(d: &BigInt, n: &BigInt) -> bool {
    if d.is_zero() {
        n.is_zero()
    } else {
        (n % d).is_zero()
    }
}
/// a^b by repeated squaring over plain multiplication
pub fn power(a: &BigInt, b: u64) -> BigInt {
    let (mut r, mut s, mut b) = (BigInt::one(), a.clone(), b);
    while b > 0 {
        if b.is_odd() {
            r = &r * &s;
        }
        b /= 2;
        if b > 0 {
            s = &s * &s;
        }
    }
    r
}
pub fn product(lo: u64, hi: u64) -> BigInt {
    if lo > hi {
        return BigInt::one();
    }
    if hi - lo < 8 {
        let mut r = BigInt::one();
        for i in lo..=hi {
            r = r * BigInt::from(i);
        }
        return r;
    }
    let m = (lo + hi) / 2;
    product(lo, m) * product(m + 1, hi)
}
/// F(n) by scanning the bits of n from the top with (F(k), F(k+1))
pub fn fib(n: u64) -> BigUint {
    let (mut a, mut b) = (BigUint::zero(), BigUint::one());
    for i in (0..64).rev() {
        // F(2k) = F(k) (2 F(k+1) - F(k)), F(2k+1) = F(k)^2 + F(k+1)^2
        let c = &a * ((&b << 1usize) - &a);
        let d = &a * &a + &b * &b;
        if n >> i & 1 == 0 {
            a = c;
            b = d;
        } else {
            b = &c + &d;
            a = d;
        }
    }
    a
}
