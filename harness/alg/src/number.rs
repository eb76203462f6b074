//! C01-C06: powers, gcds, congruences.
use crate::big::*;
use num::{BigInt, BigUint, One, Signed, ToPrimitive, Zero};
use pbt::proptest::{self, collection::vec, prelude::*};
use pbt::{ensure, fail, no_panic, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_algorithm::*;

// ---------------------------------------------------------------- C01
pub struct Power;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pow {
    a: Big,
    b: Big,
}
impl Prop for Power {
    type Case = Pow;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "all bases -20..20 with exponents 0..40, small bases with exponents around 2^8, 2^12, 2^16, 2^20, 2^24 and multiples of them, bases of up to 65536 bits with small exponents, shortcut and small bases with exponents around 2^31, 2^32, 2^64 and beyond, and random bases of any sign up to 40 bytes with exponents of every magnitude that keeps the result below about 200k bits (thorough: 800k), including neighbours of constants found in the sources; oracle: repeated squaring over plain multiplication, error kinds from the statement. Non-trivial: not both operands in {0, 1}"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(120_000, 1_000_000)
    }
    fn fixed(&self, _: Tier) -> Vec<Pow> {
        let mut v = vec![];
        for a in -20i64..=20 {
            for b in 0i64..=40 {
                v.push(Pow { a: a.into(), b: b.into() });
            }
        }
        let edges: Vec<BigInt> =
            [15usize, 16, 31, 32, 33, 63, 64, 65, 128, 200].iter().flat_map(|k| (-2i64..=2).map(move |d| p2(*k) + d)).chain((1..40).map(|k| ten(k))).collect();
        for k in [8u64, 10, 12, 14, 15, 16, 17, 18, 20] {
            for d in -2i64..=2 {
                let e = (1i64 << k) + d;
                v.extend([2i64, -2].map(|a| Pow { a: a.into(), b: e.into() }));
                if k <= 16 {
                    v.extend([3i64, -3, 5, 10, -7, 1000, 4294967296].map(|a| Pow { a: a.into(), b: e.into() }));
                }
            }
        }
        for e in [3 << 16, (5 << 16) + 1, (1 << 22) + 1, (1 << 24) + 1, (3 << 23) + 5, 100_000, 1_000_000, 10_000_000] {
            v.extend([2i64, -2].map(|a| Pow { a: a.into(), b: e.into() }));
        }
        // long bases to small exponents
        for k in [320usize, 400, 511, 512, 513, 1000, 1024, 2047, 2048, 4096, 5000, 8192, 20_000, 65_536] {
            for d in [-1i64, 0, 3] {
                for b in [0u64, 1, 2, 3, 4, 5, 7, 8, 16, 33] {
                    let a = p2(k) + d;
                    v.push(Pow { a: Big(a.clone()), b: b.into() });
                    v.push(Pow { a: Big(-a), b: b.into() });
                }
            }
        }
        for a in -1i64..=1 {
            for e in &edges {
                v.push(Pow { a: a.into(), b: Big(e.clone()) });
            }
        }
        for e in edges.iter().filter(|e| **e >= p2(32)) {
            for a in [2i64, -2, 3, -3, 7, 10, i64::MAX, i64::MIN] {
                v.push(Pow { a: a.into(), b: Big(e.clone()) });
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Pow> {
        let most = t.pick(200_000u64, 800_000);
        (big(40), any::<u32>(), prop_oneof![4 => Just(8u32), 4 => Just(64), 4 => Just(1000), 4 => Just(20000), 1 => Just(80_000), 1 => Just(800_000)], prop_oneof![9 => Just(None), 1 => (any::<u64>(), 0usize..60).prop_map(|(x, s)| Some((x, s)))], pbt::dict::number(), any::<u8>())
            .prop_map(move |(a, raw, range, huge, near, how)| {
                let a = match how % 16 {
                    0 => Big::from((raw % 21) as i64 - 10),
                    1 => Big::from((raw % 3) as i64 - 1),
                    _ => a,
                };
                let bits = a.0.bits().max(1) as u64;
                let cap = (most / bits).max(3).min(range as u64);
                let b = match huge {
                    Some((x, s)) => Big((BigInt::from(x) << s) + p2(32)),
                    None if how / 16 == 0 && (near.abs() < BigInt::from(most / bits) || near.abs() > p2(32) || a.0.abs() <= BigInt::one()) => Big(near.abs()),
                    // short of 2^32, where an answer is still due
                    None if a.0.abs() <= BigInt::one() => Big::from(raw as u64 >> (how as u64 % 32)),
                    None => Big::from(raw as u64 % cap),
                };
                Pow { a, b }
            })
            .boxed()
    }
    fn check(&self, c: &Pow, o: &mut Obs) -> Check {
        let (a, b) = (&c.a.0, &c.b.0);
        let unit = a.abs() <= BigInt::one();
        o.trivial_if(!a.is_negative() && unit && *b <= BigInt::one());
        o.label_if(a.is_zero(), "base 0");
        o.label_if(unit && !a.is_zero(), "base 1 or -1");
        o.label_if(b.is_zero(), "exponent 0");
        o.label_if(b.is_one(), "exponent 1");
        o.label_if(a.is_negative() && !unit, "negative base");
        let wide = *b >= p2(32);
        o.label_if(wide, "exponent beyond 32 bits");
        let e: BigUint = b.to_biguint().unwrap();
        let got = no_panic("power_iu", || power_iu(a, &e))?;
        if a.is_zero() && b.is_zero() {
            return match got {
                Err(Error::Indeterminate) => Ok(()),
                r => fail(format!("0^0 gave {r:?}")),
            };
        }
        let want = if a.is_zero() || a.is_one() {
            a.clone()
        } else if unit {
            if (b % 2i32).is_zero() { BigInt::one() } else { a.clone() }
        } else if wide {
            // no machine can hold the value, so only the refusal is right
            return match got {
                Err(Error::OverFlow) => Ok(()),
                Ok(_) => fail(format!("{a}^{b} returned a number")),
                Err(r) => fail(format!("{a}^{b} gave {r:?}")),
            };
        } else {
            power(a, b.to_u64().unwrap())
        };
        let want = if b.is_zero() { BigInt::one() } else { want };
        match got {
            Ok(x) => {
                ensure!(x == want, "{a}^{b}: got {}, expected {}", short(&x), short(&want));
                Ok(())
            }
            Err(Error::OverFlow) if wide && a.is_negative() => Ok(()),
            Err(r) => fail(format!("{a}^{b} gave {r:?}")),
        }
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("base 0", 50), ("base 1 or -1", 100), ("exponent 0", 100), ("exponent 1", 100), ("negative base", 1000), ("exponent beyond 32 bits", 500)]
    }
}

pub fn short(x: &BigInt) -> String {
    let s = x.to_string();
    if s.len() > 60 { format!("{}..{} ({} digits)", &s[..20], &s[s.len() - 20..], s.len()) } else { s }
}

/// Pairs with planted structure: independent, common factor, multiples, equal, one zero.
fn pair(bytes: usize) -> BoxedStrategy<(Big, Big)> {
    let near = prop_oneof![
        4 => (big(bytes), big(bytes)),
        4 => (big(bytes), big(bytes), big(bytes / 2)).prop_map(|(a, b, g)| (Big(&a.0 * &g.0), Big(&b.0 * &g.0))),
        1 => (big(bytes), big(4)).prop_map(|(a, k)| (Big(&a.0 * &k.0), a)),
        1 => (big(bytes), big(4)).prop_map(|(a, k)| (a.clone(), Big(&a.0 * &k.0))),
        1 => (big(bytes), any::<bool>()).prop_map(|(a, n)| { let b = if n { -&a.0 } else { a.0.clone() }; (a, Big(b)) }),
        // neighbours of a multiple: coprime or nearly so
        1 => (big(bytes), big(4), -2i64..=2).prop_map(|(a, k, d)| (Big(&a.0 * &k.0 + d), a)),
        // little is left of the longer one, which shares a factor with the shorter one or not
        1 => (big(bytes), big(bytes), big(8), big(2), any::<bool>()).prop_map(|(a, k, d, g, turn)| { let a = &a.0 * &g.0; let b = &a * &k.0 + &d.0 * &g.0; if turn { (Big(b), Big(a)) } else { (Big(a), Big(b)) } }),
    ];
    // a few of thousands of bits, where an algorithm may change over
    let far = (0usize..=600).prop_flat_map(|n| (proptest::collection::vec(any::<u8>(), n..=n + 8), proptest::collection::vec(any::<u8>(), n..=n + 8), big(8), 0u8..6)).prop_map(|(a, b, g, how)| {
        let n = |v: &[u8], neg| BigInt::from_bytes_le(if neg { num::bigint::Sign::Minus } else { num::bigint::Sign::Plus }, v);
        let (a, b) = (n(&a, how & 1 == 1), n(&b, how & 2 == 2));
        if how < 4 { (Big(a * &g.0), Big(b * &g.0)) } else { (Big(&b * &g.0 + (how as i64 - 4)), Big(b)) }
    });
    prop_oneof![80 => near, 1 => far].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Two {
    a: Big,
    b: Big,
}
fn grid(r: i64) -> Vec<Two> {
    // small values first so that the first enumerated failure is a small one
    let mut v: Vec<(i64, i64)> = (-r..=r).flat_map(|a| (-r..=r).map(move |b| (a, b))).collect();
    v.sort_by_key(|(a, b)| (a.abs().max(b.abs()), a.abs() + b.abs()));
    let mut v: Vec<Two> = v.into_iter().map(|(a, b)| Two { a: a.into(), b: b.into() }).collect();
    let e = edges(&[7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 65, 127, 128]);
    v.extend(e.iter().flat_map(|a| e.iter().map(move |b| Two { a: Big(a.clone()), b: Big(b.clone()) })));
    v.extend(ladders());
    v
}
/// Neighbouring Fibonacci numbers, the pairs with the most division steps for their size, and neighbours
/// of powers, of every length up to some thousand bits; also with a common factor and of either sign.
fn ladders() -> Vec<Two> {
    let mut v = vec![];
    let (mut a, mut b) = (BigInt::one(), BigInt::one());
    for i in 0..3000usize {
        let c = &a + &b;
        a = b;
        b = c;
        if i < 400 || i % 37 == 0 {
            v.push(Two { a: Big(a.clone()), b: Big(b.clone()) });
            v.push(Two { a: Big(-&b), b: Big(&a + 1) });
            let k = i as i64 % 11 + 2;
            v.push(Two { a: Big(&b * k), b: Big(&a * -k) });
        }
    }
    for k in (130..=4100usize).filter(|k| k % 8 <= 1 && (k / 8) % 4 == 0) {
        for (d, e) in [(1i64, -1i64), (0, 1), (-1, 3)] {
            v.push(Two { a: Big(p2(k) + d), b: Big(p2(k - 7) + e) });
        }
    }
    v
}
fn label_pair(o: &mut Obs, a: &BigInt, b: &BigInt, g: &BigInt) {
    o.label_if(a.is_negative() || b.is_negative(), "negative");
    o.label_if(a.is_zero() || b.is_zero(), "zero");
    o.label_if(g.is_one(), "coprime");
    o.label_if(*g > BigInt::one(), "common factor");
    o.label_if(a.bits() > 64 || b.bits() > 64, "beyond 64 bits");
    o.label_if(a.abs() < b.abs(), "smaller first");
}

// ---------------------------------------------------------------- C02
pub struct ExtendedGcd;
impl Prop for ExtendedGcd {
    type Case = Two;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "all pairs from -60..60, all pairs of small numbers and neighbours of 2^7, 2^8, 2^15, ... 2^128 of either sign, and random pairs of any sign and up to 48 bytes: independent, with a planted common factor, multiples, equal up to sign, neighbours of multiples; oracle: remainder-based gcd and the identity a*x + b*y = g. Non-trivial: both operands non-zero"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 20_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Two> {
        grid(t.pick(60, 300))
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two> {
        pair(t.pick(48, 96)).prop_map(|(a, b)| Two { a, b }).boxed()
    }
    fn check(&self, c: &Two, o: &mut Obs) -> Check {
        let (a, b) = (&c.a.0, &c.b.0);
        let g = gcd(a, b);
        o.trivial_if(a.is_zero() || b.is_zero());
        label_pair(o, a, b, &g);
        let (got, v) = no_panic("extended_gcd2", || extended_gcd2(a, b))?;
        ensure!(got == g, "gcd({a}, {b}) = {got}, expected {g}");
        ensure!(v.len() == 2, "{} coefficients for ({a}, {b})", v.len());
        let s = a * &v[0] + b * &v[1];
        ensure!(s == g, "{a}*{} + {b}*{} = {s}, expected {g}", v[0], v[1]);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("negative", 5000), ("zero", 100), ("coprime", 5000), ("common factor", 5000), ("beyond 64 bits", 5000), ("smaller first", 5000)]
    }
}

// ---------------------------------------------------------------- C03
pub struct Inverse;
impl Prop for Inverse {
    type Case = Two;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "all a and non-zero moduli from -60..60, all pairs of small numbers and neighbours of 2^7, 2^8, 2^15, ... 2^128 of either sign, and random ones of any sign up to 48 bytes with and without planted common factors; oracle: gcd decides whether an answer must exist, a*x - 1 divisible by the modulus decides whether it is right. Non-trivial: |modulus| > 1"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 20_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Two> {
        grid(t.pick(60, 300)).into_iter().filter(|c| !c.b.0.is_zero()).collect()
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two> {
        pair(t.pick(48, 96)).prop_map(|(a, b)| if b.0.is_zero() { Two { a: b, b: Big(a.0 + 1) } } else { Two { a, b } }).prop_map(|c| if c.b.0.is_zero() { Two { a: c.a, b: 1.into() } } else { c }).boxed()
    }
    fn check(&self, c: &Two, o: &mut Obs) -> Check {
        let (a, m) = (&c.a.0, &c.b.0);
        let g = gcd(a, m);
        o.trivial_if(m.abs().is_one());
        label_pair(o, a, m, &g);
        match no_panic("modulo_inverse", || modulo_inverse(a, m))? {
            Some(x) => {
                ensure!(g.is_one(), "inverse of {a} modulo {m} is {x}, but gcd is {g}");
                ensure!(divides(m, &(a * &x - 1i32)), "inverse of {a} modulo {m} is {x}: the product leaves {}", a * &x % m);
            }
            None => ensure!(!g.is_one(), "no inverse of {a} modulo {m}, but they are coprime"),
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("negative", 5000), ("coprime", 5000), ("common factor", 5000), ("beyond 64 bits", 5000), ("smaller first", 5000)]
    }
}

// ---------------------------------------------------------------- C04
pub struct Division;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Three {
    a: Big,
    b: Big,
    m: Big,
}
impl Prop for Division {
    type Case = Three;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "all a, b and non-zero moduli from -13..13 and from small numbers and the neighbours of 2^31, 2^32, 2^63, 2^64 and 2^128 of either sign, and random triples up to 40 bytes built as (g*a', g*b', g*m') and (a, g*b', g*m') or independent; oracle: solvable exactly when gcd(b, m) divides a, and b*x - a divisible by the modulus. Non-trivial: |modulus| > 1 and b not divisible by it"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 20_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Three> {
        let r: i64 = t.pick(13, 40);
        let mut v: Vec<(i64, i64, i64)> = (-r..=r).flat_map(|a| (-r..=r).flat_map(move |b| (-r..=r).filter(|m| *m != 0).map(move |m| (a, b, m)))).collect();
        v.sort_by_key(|(a, b, m)| (a.abs().max(b.abs()).max(m.abs()), a.abs() + b.abs() + m.abs()));
        let mut v: Vec<Three> = v.into_iter().map(|(a, b, m)| Three { a: a.into(), b: b.into(), m: m.into() }).collect();
        let e = edges(&[31, 32, 63, 64, 128]);
        for a in &e {
            for b in &e {
                v.extend(e.iter().filter(|m| !m.is_zero()).map(|m| Three { a: Big(a.clone()), b: Big(b.clone()), m: Big(m.clone()) }));
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Three> {
        let n = t.pick(40, 80);
        prop_oneof![
            2 => (big(n), big(n), big_nonzero(n)).prop_map(|(a, b, m)| Three { a, b, m }),
            4 => (big(n), big(n), big_nonzero(n), big_nonzero(n / 2)).prop_map(|(a, b, m, g)| Three { a: Big(&a.0 * &g.0), b: Big(&b.0 * &g.0), m: Big(&m.0 * &g.0) }),
            2 => (big(n), big(n), big_nonzero(n), big_nonzero(n / 2)).prop_map(|(a, b, m, g)| Three { a, b: Big(&b.0 * &g.0), m: Big(&m.0 * &g.0) }),
            // solvable by construction: a = b*x + k*m
            3 => (pair(n), big(n), big(8)).prop_map(|((b, m), x, k)| { let m = if m.0.is_zero() { Big::from(1) } else { m }; Three { a: Big(&b.0 * &x.0 + &m.0 * &k.0), b, m } }),
        ]
        .boxed()
    }
    fn check(&self, c: &Three, o: &mut Obs) -> Check {
        let (a, b, m) = (&c.a.0, &c.b.0, &c.m.0);
        let g = gcd(b, m);
        let solvable = divides(&g, a);
        o.trivial_if(m.abs().is_one() || divides(m, b));
        o.label_if(solvable && g.is_one(), "coprime");
        o.label_if(solvable && !g.is_one() && !divides(m, b), "solvable with a common factor");
        o.label_if(!solvable, "unsolvable");
        o.label_if(m.is_negative(), "negative modulus");
        o.label_if(a.is_negative() || b.is_negative(), "negative operand");
        o.label_if(a.is_zero(), "a = 0");
        o.label_if(b.is_zero(), "b = 0");
        o.label_if(m.bits() > 64, "beyond 64 bits");
        match no_panic("modulo_division", || modulo_division(a, b, m))? {
            Some(x) => {
                ensure!(solvable, "{a} / {b} modulo {m} gave {x}, but there is no solution");
                ensure!(divides(m, &(b * &x - a)), "{a} / {b} modulo {m} gave {x}, but {b}*{x} is not congruent to {a}");
            }
            None => ensure!(!solvable, "{a} / {b} modulo {m} gave nothing, but gcd {g} divides {a}"),
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("coprime", 2000), ("solvable with a common factor", 5000), ("unsolvable", 5000), ("negative modulus", 5000), ("a = 0", 500), ("b = 0", 500), ("beyond 64 bits", 5000)]
    }
}

// ---------------------------------------------------------------- C05
pub struct Coprime;
impl Prop for Coprime {
    type Case = Two;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "all pairs from -60..60 (oracle: trial of every divisor), all pairs of small numbers and neighbours of 2^7, 2^8, 2^15, ... 2^128 of either sign, and random pairs of any sign up to 48 bytes with and without a planted factor (oracle: remainder-based gcd), both argument orders. Non-trivial: both operands outside -1..1"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(3_000_000, 20_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Two> {
        grid(t.pick(60, 300))
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Two> {
        pair(t.pick(48, 96)).prop_map(|(a, b)| Two { a, b }).boxed()
    }
    fn check(&self, c: &Two, o: &mut Obs) -> Check {
        let (a, b) = (&c.a.0, &c.b.0);
        let g = gcd(a, b);
        o.trivial_if(a.abs() <= BigInt::one() || b.abs() <= BigInt::one());
        label_pair(o, a, b, &g);
        let want = match (a.to_i64(), b.to_i64()) {
            (Some(x), Some(y)) if x.unsigned_abs() <= 60 && y.unsigned_abs() <= 60 => {
                // 0 is divisible by everything, so divisors up to 61 settle every case
                !(2..=61i64).any(|d| x % d == 0 && y % d == 0)
            }
            _ => g.is_one(),
        };
        let got = no_panic("is_coprime", || (is_coprime(a.clone(), b.clone()), is_coprime(b.clone(), a.clone())))?;
        ensure!(got.0 == want, "is_coprime({a}, {b}) = {}, gcd is {g}", got.0);
        ensure!(got.1 == want, "is_coprime({b}, {a}) = {}, gcd is {g}", got.1);
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("negative", 5000), ("zero", 100), ("coprime", 5000), ("common factor", 5000), ("beyond 64 bits", 5000)]
    }
}

// ---------------------------------------------------------------- C06
pub struct Remainder;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct System {
    residues: Vec<Big>,
    moduli: Vec<Big>,
}
const SMALL_PRIMES: [u32; 40] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 97, 257, 65537, 4294967291, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 101, 103, 127, 251, 509, 1021, 8191, 65521, 65539, 2147483647, 2147483629,
    4294967279,
];

impl Prop for Remainder {
    type Case = System;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "every system of two congruences with moduli 1..7 (either sign) and all residues, triples with moduli 1..6, pairs of moduli and residues around 2^31, 2^32, 2^63, 2^64 and 2^128, and random systems of up to 24 congruences (thorough: 40), residues of any sign and size, moduli of any sign and order built pairwise coprime from disjoint prime powers, or with a factor planted in two of them, or with different lengths; oracle: every congruence is tested, pairwise gcds decide whether an answer must exist. Non-trivial: at least two moduli beyond 1 in absolute value"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(1_800_000, 10_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<System> {
        let mut v = vec![System { residues: vec![], moduli: vec![] }];
        let b = |x: &[i64]| x.iter().map(|x| Big::from(*x)).collect::<Vec<_>>();
        for m in -7i64..=7 {
            if m != 0 {
                for r in -8i64..=8 {
                    v.push(System { residues: b(&[r]), moduli: b(&[m]) });
                }
            }
        }
        let (m2, m3) = t.pick((7i64, 5i64), (12, 8));
        for a in -m2..=m2 {
            for c in -m2..=m2 {
                if a != 0 && c != 0 {
                    for r in 0..a.abs() {
                        for s in 0..c.abs() {
                            v.push(System { residues: b(&[r, s]), moduli: b(&[a, c]) });
                        }
                    }
                }
            }
        }
        for x in 1..=m3 {
            for y in 1..=m3 {
                for z in 1..=m3 {
                    for r in 0..x {
                        for s in 0..y {
                            for q in 0..z {
                                v.push(System { residues: b(&[r, s, q]), moduli: b(&[x, y, z]) });
                            }
                        }
                    }
                }
            }
        }
        // many congruences, and few with moduli of hundreds of bits
        let primes: Vec<i64> = (2i64..2000).filter(|n| (2..*n).take_while(|d| d * d <= *n).all(|d| n % d != 0)).collect();
        for n in (16..=70usize).chain([96, 100, 127, 128, 129, 200, 255, 256, 257, 300]) {
            for how in 0..3i64 {
                let mut m: Vec<i64> = primes[..n].to_vec();
                if how == 1 {
                    m.reverse();
                }
                let mut r: Vec<i64> = (0..n as i64).map(|i| (i * i * 7 + 3 * n as i64) % 97 - 40).collect();
                if how == 2 {
                    // the last one shares a factor with the one at the front
                    m[n - 1] = 2 * 3;
                    r[n - 1] = 5;
                }
                v.push(System { residues: b(&r), moduli: b(&m) });
            }
        }
        let mersenne = [13usize, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279];
        for n in 1..=mersenne.len() {
            for k in 0..3usize {
                let moduli = mersenne.iter().cycle().skip(k * 4).take(n).map(|e| Big(p2(*e) - 1)).collect();
                let residues = (0..n).map(|i| Big(if k == 1 { p2(i * 130 + 3) + 11 } else { -p2(7 * i) + 5 })).collect();
                v.push(System { residues, moduli });
            }
        }
        // residues and moduli at the limits of machine arithmetic
        let e = edges(&[31, 32, 63, 64, 128]);
        for (i, a) in e.iter().enumerate() {
            v.extend(e.iter().filter(|_| !a.is_zero()).map(|r| System { residues: vec![Big(r.clone())], moduli: vec![Big(a.clone())] }));
            for (j, c) in e.iter().enumerate() {
                if !a.is_zero() && !c.is_zero() {
                    let r = |k: usize| Big(e[k % e.len()].clone());
                    v.extend((0..6).map(|k| System { residues: vec![r(i * 7 + j * k), r(j * 5 + i * k + k)], moduli: vec![Big(a.clone()), Big(c.clone())] }));
                }
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<System> {
        let most = t.pick(24usize, 40);
        let row = (big(24), vec((0usize..SMALL_PRIMES.len(), 1u32..4), 0..4), proptest::bool::weighted(0.2));
        let spoil = prop_oneof![
            6 => Just((0usize, 0usize, 0usize)),
            3 => (Just(1usize), any::<proptest::sample::Index>(), any::<proptest::sample::Index>()).prop_map(|(k, i, j)| (k, i.index(1000), j.index(1000))),
            1 => (2usize..4, 0usize..4, Just(0usize)),
        ];
        let long = prop_oneof![8 => 0usize..15, 3 => 0..=most, 1 => pbt::dict::size(most)];
        let rows = long.prop_flat_map(move |n| vec(row.clone(), n));
        (rows, spoil, 0usize..SMALL_PRIMES.len())
            .prop_map(|(rows, (kind, i, j), p)| {
                let mut used = [false; SMALL_PRIMES.len()];
                let (mut residues, mut moduli) = (vec![], vec![]);
                for (r, factors, neg) in rows {
                    let mut m = BigInt::one();
                    let mut mine = vec![];
                    for (k, e) in factors {
                        if !used[k] || mine.contains(&k) {
                            used[k] = true;
                            mine.push(k);
                            for _ in 0..e {
                                m = m * SMALL_PRIMES[k];
                            }
                        }
                    }
                    residues.push(r);
                    moduli.push(Big(if neg { -m } else { m }));
                }
                let n = moduli.len();
                match kind {
                    1 if n >= 2 => {
                        let (i, j) = (i % n, j % n);
                        let j = if i == j { (j + 1) % n } else { j };
                        for k in [i, j] {
                            moduli[k] = Big(&moduli[k].0 * SMALL_PRIMES[p]);
                        }
                    }
                    2 => residues.truncate(n.saturating_sub(1 + i)),
                    3 => residues.extend((0..=i).map(|x| Big::from(x as i64))),
                    _ => {}
                }
                System { residues, moduli }
            })
            .boxed()
    }
    fn check(&self, c: &System, o: &mut Obs) -> Check {
        let u: Vec<BigInt> = c.residues.iter().map(|x| x.0.clone()).collect();
        let m: Vec<BigInt> = c.moduli.iter().map(|x| x.0.clone()).collect();
        let big = m.iter().filter(|x| x.abs() > BigInt::one()).count();
        o.trivial_if(big < 2);
        let same = u.len() == m.len();
        let mut coprime = true;
        for i in 0..m.len() {
            for j in 0..i {
                coprime &= gcd(&m[i], &m[j]).is_one();
            }
        }
        o.label_if(m.is_empty() && u.is_empty(), "empty");
        o.label_if(!same, "different lengths");
        o.label_if(same && !coprime, "shared factor");
        o.label_if(same && coprime && big >= 2, "solvable");
        o.label_if(same && coprime && big >= 4, "four or more moduli");
        o.label_if(same && coprime && m.iter().any(|x| x.is_negative()), "negative modulus");
        o.label_if(same && coprime && m.iter().any(|x| x.abs().is_one()) && big > 0, "modulus 1");
        o.label_if(same && coprime && u.iter().any(|x| x.is_negative()), "negative residue");
        o.label_if(same && coprime && u.iter().zip(&m).any(|(r, k)| r.abs() >= k.abs()), "residue beyond its modulus");
        let got = no_panic("chinese_remainder", || chinese_remainder(&u, &m))?;
        if !same || (!m.is_empty() && !coprime) {
            ensure!(got.is_none(), "{c:?} gave {got:?} instead of nothing");
            return Ok(());
        }
        if m.is_empty() {
            return Ok(());
        }
        match got {
            None => fail(format!("nothing for the solvable system {c:?}")),
            Some(x) => {
                for (r, k) in u.iter().zip(&m) {
                    ensure!(divides(k, &(&x - r)), "{x} is not {r} modulo {k} in {c:?}");
                }
                Ok(())
            }
        }
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![
            ("empty", 1),
            ("different lengths", 1000),
            ("shared factor", 3000),
            ("solvable", 10000),
            ("four or more moduli", 5000),
            ("negative modulus", 3000),
            ("modulus 1", 3000),
            ("negative residue", 3000),
            ("residue beyond its modulus", 3000),
        ]
    }
}
