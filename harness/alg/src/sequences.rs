//! C07-C12: factorials, Fibonacci numbers, prime sums and counts.
use crate::big::*;
use crate::number::short;
use crate::primes::*;
use num::{BigInt, One, Signed, ToPrimitive, Zero};
use pbt::proptest::prelude::*;
use pbt::{ensure, fail, harness_ensure, no_panic, Check, Obs, Prop, Tier};
use serde::{Deserialize, Serialize};
use sm_algorithm::*;
use std::str::FromStr;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct N {
    n: Big,
}
impl<T: Into<Big>> From<T> for N {
    fn from(x: T) -> N {
        N { n: x.into() }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Word {
    n: u64,
}

/// integers outside the machine word (above, or on both sides), including the first ones
fn beyond_word() -> BoxedStrategy<BigInt> {
    prop_oneof![
        (63usize..260, 0i64..1000).prop_map(|(k, d)| p2(k) + d),
        (19usize..80, 0i64..1000).prop_map(|(k, d)| ten(k) + d),
    ]
    .boxed()
}
fn word_edges() -> Vec<BigInt> {
    let mut v = vec![];
    for k in [63usize, 64, 65, 127, 128] {
        for d in 0..4i64 {
            v.push(p2(k) + d);
            if k > 64 {
                v.push(p2(k) - d);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C07
pub struct Factorial;
impl Prop for Factorial {
    type Case = N;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "every n from 0 to 2500, random n to 12000 (thorough: 40000), some n past the powers of two and ten to 100001 (thorough: 131073), negative integers of any size including all small ones and the edges of the machine word, and integers beyond the machine word; oracle: balanced product tree, error kind from the statement. Non-trivial: n > 2 or an error case"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(18_000, 60_000)
    }
    fn fixed(&self, t: Tier) -> Vec<N> {
        let mut v: Vec<N> = (0..=t.pick(2500i64, 8000)).map(N::from).collect();
        v.extend((1..=500i64).map(|n| N::from(-n)));
        v.extend(word_edges().into_iter().flat_map(|e| [N { n: Big(-&e) }, N { n: Big(e) }]));
        v.push(i64::MIN.into());
        v.push((i64::MIN + 1).into());
        // a few long products, past the powers of two and ten
        for (k, most) in [(4_095i64, 4_097i64), (8_191, 8_193), (9_999, 10_001), (16_383, 16_385), (20_000, 20_001), (32_767, 32_769), (50_000, 50_000), (65_534, 65_538), (99_999, 100_001), (131_071, 131_073)] {
            if k < t.pick(110_000, 200_000) {
                v.extend((k..=most).map(N::from));
            }
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<N> {
        let hi = t.pick(12_000i64, 40_000);
        prop_oneof![
            2 => (0..3000i64).prop_map(N::from),
            1 => (0..hi).prop_map(N::from),
            4 => big(24).prop_map(|b| N { n: Big(-b.0.abs() - 1) }),
            2 => beyond_word().prop_map(|b| N { n: Big(b) }),
            1 => pbt::dict::number().prop_map(move |b| N { n: Big(if b >= BigInt::from(hi) && b < p2(63) { -b } else { b }) }),
        ]
        .boxed()
    }
    fn check(&self, c: &N, o: &mut Obs) -> Check {
        let n = &c.n.0;
        o.trivial_if(!n.is_negative() && *n <= BigInt::from(2));
        let got = no_panic("factorial_i", || factorial_i(n))?;
        if n.is_negative() {
            o.label("negative");
            o.label_if(*n < -p2(63), "negative beyond the word");
            return match got {
                Err(Error::ComplexInfinity) => Ok(()),
                Ok(x) => fail(format!("{n}! returned the number {}", short(&x))),
                Err(e) => fail(format!("{n}! gave {e:?}")),
            };
        }
        if *n >= p2(63) {
            o.label("beyond the word");
            // 2^63..2^64 still fits an unsigned word, but no memory holds the value: a refusal either way
            return match got {
                Err(Error::OverFlow) => Ok(()),
                Ok(x) => fail(format!("{n}! returned the number {}", short(&x))),
                Err(e) => fail(format!("{n}! gave {e:?}")),
            };
        }
        o.label("exact");
        let k = n.to_u64().unwrap();
        let want = product(1, k);
        match got {
            Ok(x) => ensure!(x == want, "{n}! = {}, expected {}", short(&x), short(&want)),
            Err(e) => return fail(format!("{n}! gave {e:?}")),
        }
        let u = BigInt::from(no_panic("factorial_fold_u", || factorial_fold_u(k as usize))?);
        ensure!(u == want, "factorial_fold_u({n}) = {}, expected {}", short(&u), short(&want));
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("negative", 1000), ("negative beyond the word", 100), ("beyond the word", 500), ("exact", 3000)]
    }
}

// ---------------------------------------------------------------- C08
pub struct SignedFibonacci;
impl Prop for SignedFibonacci {
    type Case = N;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "every index from -6000 to 6000, random indices to +-300000 and some around 2^19, 2^20 and 10^6 including powers of two and their neighbours, and integers beyond the machine word in both directions; oracle: top-down bit doubling (itself tested against addition), sign law for negative indices; indices to 40000 also mirrored and asked again. Non-trivial: |n| > 2"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(30_000, 150_000)
    }
    fn fixed(&self, t: Tier) -> Vec<N> {
        let r = t.pick(6000i64, 20_000);
        let mut v = vec![N::from(0i64)];
        for n in 1..=r {
            v.push(n.into());
            v.push((-n).into());
        }
        v.extend(word_edges().into_iter().flat_map(|e| [N { n: Big(-&e - 1) }, N { n: Big(e) }]));
        for k in [1_000_000i64, 1 << 19, 1 << 20, 3 << 18] {
            v.extend((k - 2..=k + 2).flat_map(|n| [N::from(n), N::from(-n)]));
        }
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<N> {
        let hi = t.pick(300_000i64, 3_000_000);
        let bits = t.pick(18usize, 21);
        prop_oneof![
            3 => (-20_000i64..20_000).prop_map(N::from),
            1 => (-hi..hi).prop_map(N::from),
            2 => (1usize..bits, -3i64..=3, any::<bool>()).prop_map(|(k, d, n)| { let v = (1i64 << k) + d; N::from(if n { -v } else { v }) }),
            2 => (beyond_word(), any::<bool>()).prop_map(|(b, n)| N { n: Big(if n { -b - 1 } else { b }) }),
            1 => pbt::dict::number().prop_map(move |b| N { n: Big(if b.abs() >= BigInt::from(hi) && b.abs() <= p2(63) { b % hi } else { b }) }),
        ]
        .boxed()
    }
    fn check(&self, c: &N, o: &mut Obs) -> Check {
        let n = &c.n.0;
        o.trivial_if(n.abs() <= BigInt::from(2));
        let got = no_panic("fibonacci_i", || fibonacci_i(n))?;
        if *n >= p2(63) || *n < -p2(63) {
            o.label_if(n.is_negative(), "below the word");
            o.label_if(!n.is_negative(), "above the word");
            return match got {
                Err(Error::OverFlow) => Ok(()),
                Ok(x) => fail(format!("F({n}) returned the number {}", short(&x))),
                Err(e) => fail(format!("F({n}) gave {e:?}")),
            };
        }
        let k = n.abs().to_u64().unwrap();
        let even = k % 2 == 0;
        o.label_if(n.is_negative() && even, "negative even");
        o.label_if(n.is_negative() && !even, "negative odd");
        o.label_if(n.is_positive(), "positive");
        let u = BigInt::from(fib(k));
        let want = if n.is_negative() && even { -u } else { u };
        match got {
            Ok(x) => ensure!(x == want, "F({n}) = {}, expected {}", short(&x), short(&want)),
            Err(e) => return fail(format!("F({n}) gave {e:?}")),
        }
        if k <= 40_000 {
            // the mirrored index right after it, and the same one again
            let m = -n;
            let other = if even { -&want } else { want.clone() };
            for (i, want) in [(&m, &other), (n, &want)] {
                match no_panic("fibonacci_i", || fibonacci_i(i))? {
                    Ok(x) => ensure!(x == *want, "F({i}) asked after F({}) = {}, expected {}", -i, short(&x), short(want)),
                    Err(e) => return fail(format!("F({i}) asked after F({}) gave {e:?}", -i)),
                }
            }
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("below the word", 300), ("above the word", 300), ("negative even", 3000), ("negative odd", 3000), ("positive", 5000)]
    }
}

// ---------------------------------------------------------------- C09
pub struct UnsignedFibonacci;
impl Prop for UnsignedFibonacci {
    type Case = Word;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "every index from 0 to 6000 for both algorithms and the oracle (bit doubling, tested against plain addition in the same run), random indices to 40000 and some around 2^17 and 2^18 for all three, to 10^6 and around 2^20, 2^21 and 2^22 for the doubling algorithm and the oracle, with powers of two and their neighbours. Non-trivial: n > 2"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(8_000, 60_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Word> {
        (0..=t.pick(6000, 20_000)).chain([100_000, 131_071, 131_072, 131_073, 200_000, 262_143, 262_144, 262_145]).chain([20u32, 21, 22].iter().flat_map(|k| (1u64 << k) - 2..=(1u64 << k) + 2)).map(|n| Word { n }).collect()
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Word> {
        let (mid, hi, bits) = t.pick((40_000u64, 1_000_000u64, 20u32), (120_000, 8_000_000, 23));
        prop_oneof![
            4 => (0..12_000u64).prop_map(|n| Word { n }),
            2 => (0..mid).prop_map(|n| Word { n }),
            1 => (0..hi).prop_map(|n| Word { n }),
            2 => (1..bits, -3i64..=3).prop_map(|(k, d)| Word { n: ((1i64 << k) + d).max(0) as u64 }),
            1 => pbt::dict::number().prop_map(move |v| Word { n: (v.abs() % hi).to_u64().unwrap() }),
        ]
        .boxed()
    }
    fn check(&self, c: &Word, o: &mut Obs) -> Check {
        let n = c.n;
        o.trivial_if(n <= 2);
        o.label_if(n % 2 == 0, "even");
        o.label_if(n % 2 == 1, "odd");
        o.label_if(n.is_power_of_two(), "power of two");
        let want = fib(n);
        if n <= 3000 {
            // the oracle itself, against the defining recurrence
            let (mut a, mut b) = (num::BigUint::zero(), num::BigUint::one());
            for _ in 0..n {
                let s = &a + &b;
                a = b;
                b = s;
            }
            harness_ensure!(a == want, "doubling oracle is wrong at {n}");
            o.label("oracle tested");
        }
        let fast = no_panic("fibonacci_fast_u", || fibonacci_fast_u(n as usize))?;
        ensure!(fast == want, "fibonacci_fast_u({n}) = {}, expected {}", short(&fast.into()), short(&want.into()));
        if n <= 270_000 && (n <= 140_000 || n % 64 == 0 || n % 64 == 63 || n % 64 == 1) {
            o.label("both algorithms");
            let slow = no_panic("fibonacci_fold_u", || fibonacci_fold_u(n as usize))?;
            ensure!(slow == want, "fibonacci_fold_u({n}) = {}, expected {}", short(&slow.into()), short(&want.into()));
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("even", 2000), ("odd", 2000), ("power of two", 50), ("oracle tested", 2000), ("both algorithms", 6000)]
    }
}

// ---------------------------------------------------------------- C10
fn prime_sum(n: u64) -> std::result::Result<u128, pbt::Bad> {
    if (n as usize) < LIMIT {
        return Ok(table().0[n as usize] as u128);
    }
    static TESTED: std::sync::Once = std::sync::Once::new();
    let mut bad = None;
    TESTED.call_once(|| {
        for n in (0..3000).chain([4_999_999, 5_000_000, 5_040_025, 5_040_024]) {
            let (s, c) = lucy(n);
            if (s, c) != (table().0[n as usize] as u128, table().1[n as usize] as u64) {
                bad = Some(n);
            }
        }
    });
    harness_ensure!(bad.is_none(), "lucy oracle is wrong at {bad:?}");
    Ok(lucy(n).0)
}
pub struct PrimeSumWord;
impl Prop for PrimeSumWord {
    type Case = Word;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "every n from 0 to 20000, the square of every prime to 1500 and its neighbours, products of neighbouring primes, random n to 5*10^6 (oracle: sieve), random n to 4*10^8, neighbours of constants of the sources, and selected n around 2^32 and where the sum passes 2^15, 2^31, 2^53, 2^63 and 2^64 (oracle: array recurrence, itself tested against the sieve in the same run). Non-trivial: n > 2"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(8_000, 60_000)
    }
    fn fixed(&self, t: Tier) -> Vec<Word> {
        let mut v: Vec<u64> = (0..=t.pick(20_000, 120_000)).collect();
        let top = t.pick(1500usize, 2270);
        let ps: Vec<u64> = (2..top).filter(|p| is_prime_small(*p)).map(|p| p as u64).collect();
        for w in ps.windows(2).filter(|w| w[0] > 131) {
            v.extend([w[0] * w[0] - 1, w[0] * w[0], w[0] * w[0] + 1, w[0] * w[1], w[0] * (w[0] + 1)]);
        }
        v.extend([(1u64 << 32) - 1, 1 << 32, (1 << 32) + 15, 65537 * 65537, 4_294_967_311, 5_000_000_000]);
        for s in SUM_CROSSES {
            v.extend([s - 1, s]);
        }
        v.retain(|n| *n < LAST_WORD_SUM);
        if t == Tier::Thorough {
            v.extend([10_000_000_000, 10_000_000_019, 20_000_000_000, 29_000_000_000, 8_589_934_592, 17_179_869_184, 12_884_901_888, 25_769_803_776, 2_147_483_647, 2_147_483_648]);
        }
        v.into_iter().map(|n| Word { n }).collect()
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<Word> {
        let (hi, rare) = t.pick((400_000_000u64, 1u32), (4_000_000_000, 3));
        prop_oneof![
            60 => (0..60_000u64).prop_map(|n| Word { n }),
            30 => (0..5_000_000u64).prop_map(|n| Word { n }),
            // neighbours of squares and of n/i boundaries
            30 => (140..2200u64, -2i64..=2).prop_map(|(k, d)| Word { n: (k * k) as u64 }.plus(d)),
            30 => (140..2200u64, -2i64..=2).prop_map(|(k, d)| Word { n: k * (k + 1) }.plus(d)),
            rare => (5_000_000..hi).prop_map(|n| Word { n }),
            rare * 4 => (22u32..27, any::<u64>()).prop_map(|(k, x)| Word { n: (1 << k) + x % (1 << k) }),
            8 => pbt::dict::number().prop_map(|v| Word { n: v.abs().to_u64().filter(|v| *v < 100_000_000).unwrap_or(1) }),
        ]
        .boxed()
    }
    fn check(&self, c: &Word, o: &mut Obs) -> Check {
        let n = c.n;
        o.trivial_if(n <= 2);
        o.label_if(n >= 1 << 32, "beyond 32 bits");
        o.label_if(n as usize >= LIMIT, "recurrence oracle");
        o.label_if((n as usize) < LIMIT && is_prime_small(n as usize), "prime");
        let r = (n as f64).sqrt().round() as u64;
        o.label_if(r * r == n, "square");
        let want = prime_sum(n)?;
        harness_ensure!(want < 1 << 64, "outside the domain");
        let got = no_panic("prime_sum_u64", || prime_sum_u64(n))?;
        ensure!(got as u128 == want, "prime_sum_u64({n}) = {got}, expected {want}");
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("beyond 32 bits", 5), ("recurrence oracle", 8), ("prime", 2000), ("square", 300)]
    }
}
impl Word {
    fn plus(self, d: i64) -> Word {
        Word { n: (self.n as i64 + d) as u64 }
    }
}

// ---------------------------------------------------------------- C11, C12
fn tens_edges(top: usize) -> Vec<N> {
    let mut v = vec![];
    for k in 0..=top {
        for d in [0i64, 1, -1, 2, -2, 10, -10] {
            v.push(N { n: Big(ten(k) + d) });
            v.push(N { n: Big(-ten(k) + d) });
        }
        for f in [2i64, 3, 5, 9, 11] {
            v.push(N { n: Big(ten(k) * f) });
        }
    }
    v
}
fn exponent_of_ten(n: &BigInt) -> Option<usize> {
    (0..100).find(|k| ten(*k) == *n)
}
/// every published pair must agree on parity: all primes but 2 are odd
fn tables_agree() -> Check {
    for k in 1..SUMS.len() {
        let (s, c) = (BigInt::from_str(SUMS[k]).unwrap(), BigInt::from_str(COUNTS[k]).unwrap());
        harness_ensure!(((s - c + 1i32) % 2i32).is_zero(), "published values disagree at 10^{k}");
    }
    Ok(())
}
/// where the sum of primes first reaches 2^15, 2^16, 2^31, 2^32, 2^48, 2^53, 2^62, 2^63, 2^64
const SUM_CROSSES: [u64; 9] = [631, 929, 225_287, 323_381, 100_416_721, 595_600_673, 14_529_489_437, 20_706_267_151, LAST_WORD_SUM];
/// from here on the sum no longer fits 64 bits
const LAST_WORD_SUM: u64 = 29_505_444_491;
/// the oracle answers up to here in half a second
const ANSWERED: u64 = 110_000_000_000;

pub struct PrimeSumBig;
impl Prop for PrimeSumBig {
    type Case = N;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "every power of ten to 10^40, its neighbours and multiples, both signs; every n to 4000; random n to 5*10^6, some to 10^8 and a few to 4*10^10, among them the places where the sum passes 2^31, 2^32, 2^53, 2^63 and 2^64; neighbours of constants of the sources; random integers of any size outside -1..2^64; oracle: sieve, array recurrence, and the published sums for powers of ten (parity-checked against the published counts, recomputed up to 10^8, thorough 10^11). Non-trivial: n > 2 or an error case"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(12_000, 60_000)
    }
    fn fixed(&self, t: Tier) -> Vec<N> {
        let big_cost = t.pick(9, 10);
        let mut v: Vec<N> = tens_edges(40)
            .into_iter()
            .filter(|c| c.n.0.is_negative() || exponent_of_ten(&c.n.0).is_some() || c.n.0 <= ten(big_cost) * 2 || c.n.0 >= p2(64))
            .filter(|c| !(c.n.0 > ten(8) * 2 && c.n.0 < p2(64) && exponent_of_ten(&c.n.0).is_none()) || (t == Tier::Thorough && c.n.0 < BigInt::from(3 * ten(10))))
            .collect();
        v.extend((0..=t.pick(4000i64, 40_000)).map(N::from));
        v.extend(word_edges().into_iter().filter(|e| *e >= p2(64)).flat_map(|e| [N { n: Big(-&e) }, N { n: Big(e) }]));
        v.extend([(1i64 << 32) - 1, (1 << 32) + 15, 4_999_999_937, 1_000_000_007].map(N::from));
        v.extend(SUM_CROSSES.iter().flat_map(|s| [N::from(*s as i64 - 1), N::from(*s as i64)]));
        v.extend(t.pick(vec![43_000_000_000i64], vec![34_359_738_369, 43_000_000_000, 60_000_000_000, 68_719_476_736, 100_000_000_003]).into_iter().map(N::from));
        v
    }
    fn strategy(&self, t: Tier) -> BoxedStrategy<N> {
        let (hi, rare) = t.pick((100_000_000i64, 1u32), (1_000_000_000, 2));
        prop_oneof![
            40 => (0..100_000i64).prop_map(N::from),
            20 => (0..5_000_000i64).prop_map(N::from),
            rare => (5_000_000..hi).prop_map(N::from),
            30 => big(24).prop_map(|b| N { n: Big(-b.0.abs() - 1) }),
            20 => (big(24), 64usize..200).prop_map(|(b, k)| N { n: Big(b.0.abs() + p2(k)) }),
            rare * 2 => (22u32..27, any::<u64>()).prop_map(|(k, x)| N::from((1i64 << k) + (x % (1 << k)) as i64)),
            10 => pbt::dict::number().prop_map(|v| if v.is_negative() || v < BigInt::from(50_000_000) || v >= p2(64) { N { n: Big(v) } } else { N { n: Big(-v) } }),
        ]
        .boxed()
    }
    fn check(&self, c: &N, o: &mut Obs) -> Check {
        tables_agree()?;
        let n = &c.n.0;
        o.trivial_if(!n.is_negative() && *n <= BigInt::from(2));
        let got = no_panic("prime_sum_i", || prime_sum_i(n))?;
        if n.is_negative() {
            o.label("negative");
            return match got {
                Err(Error::Undefined(_)) => Ok(()),
                r => fail(format!("prime_sum_i({n}) = {r:?}")),
            };
        }
        let ten_k = exponent_of_ten(n);
        let want = match (ten_k, n.to_u64()) {
            (Some(k), _) if k < SUMS.len() => {
                o.label("power of ten");
                let s = BigInt::from_str(SUMS[k]).unwrap();
                if k <= 8 {
                    harness_ensure!(BigInt::from(lucy(10u64.pow(k as u32)).0) == s, "published sum is wrong at 10^{k}");
                }
                Some(s)
            }
            (_, Some(w)) if w <= ANSWERED => {
                o.label("computed");
                Some(BigInt::from(prime_sum(w)?))
            }
            _ => None,
        };
        match (want, got) {
            (Some(w), Ok(x)) => ensure!(x == w, "prime_sum_i({n}) = {x}, expected {w}"),
            // an argument the oracle cannot reach may only be refused; nothing in the domain gets here below 2^64
            (None, Err(Error::Unimplemented)) => o.label("refused"),
            (None, r) => return fail(format!("prime_sum_i({n}) = {r:?}, expected Unimplemented")),
            (Some(w), r) => return fail(format!("prime_sum_i({n}) = {r:?}, expected {w}")),
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("power of ten", 26), ("computed", 3000), ("negative", 500), ("refused", 300)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["published sums of primes up to 10^9..10^25 (OEIS A046731) as copied into the harness"]
    }
}

/// number of primes up to n for n within 2000 of a tabulated power of ten
fn next_to_power(n: &BigInt) -> Option<BigInt> {
    let k = (4..COUNTS.len()).find(|k| (n - ten(*k)).abs() <= BigInt::from(2000))?;
    let (p, mut c) = (ten(k), BigInt::from_str(COUNTS[k]).unwrap());
    let mut i = p.clone();
    while i < *n {
        i += 1;
        c += prime_by_powers(&i) as i32;
    }
    while i > *n {
        c -= prime_by_powers(&i) as i32;
        i -= 1;
    }
    Some(c)
}
/// Miller-Rabin with the first 20 primes as bases
fn prime_by_powers(n: &BigInt) -> bool {
    let one = BigInt::one();
    if *n < BigInt::from(2) {
        return false;
    }
    let (mut d, mut s) = (n - 1i32, 0);
    while (&d % 2i32).is_zero() {
        d = d / 2i32;
        s += 1;
    }
    'base: for b in [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71] {
        let b = BigInt::from(b);
        if (n % &b).is_zero() {
            return *n == b;
        }
        let mut x = b.modpow(&d, n);
        if x == one || x == n - 1i32 {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % n;
            if x == n - 1i32 {
                continue 'base;
            }
        }
        return false;
    }
    true
}

#[test]
fn counts_next_to_powers() {
    for k in [4usize, 5, 6] {
        for d in -2000i64..=2000 {
            let n = 10i64.pow(k as u32) + d;
            assert_eq!(next_to_power(&n.into()).unwrap(), BigInt::from(table().1[n as usize]), "{n}");
        }
    }
    for d in [-1999i64, -700, 300, 2000] {
        let n = 10i64.pow(9) + d;
        assert_eq!(next_to_power(&n.into()).unwrap(), BigInt::from(lucy(n as u64).1), "{n}");
    }
}

pub struct PrimeCount;
impl Prop for PrimeCount {
    type Case = N;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "every power of ten to 10^40, its neighbours and multiples, both signs, every n to 20000, all integers within 300 of a power of ten, random integers of any sign and size, neighbours of constants of the sources; oracle: published counts for powers of ten (recomputed up to 10^8), sieve and recurrence for other numbers, and next to a power of ten the published count corrected by Miller-Rabin; every other argument may be refused as Unimplemented but never answered wrongly. Non-trivial: n > 2 or an error case"
    }
    fn cases(&self, t: Tier) -> u64 {
        t.pick(900_000, 3_000_000)
    }
    fn fixed(&self, t: Tier) -> Vec<N> {
        let mut v = tens_edges(40);
        v.extend((0..=t.pick(20_000i64, 200_000)).map(N::from));
        v.extend(word_edges().into_iter().flat_map(|e| [N { n: Big(-&e) }, N { n: Big(e) }]));
        for k in 4..=40 {
            v.extend((-300..=300i64).map(|d| N { n: Big(ten(k) + d) }));
        }
        v
    }
    fn strategy(&self, _: Tier) -> BoxedStrategy<N> {
        prop_oneof![
            2 => big(24).prop_map(|n| N { n }),
            1 => (0..5_000_000i64).prop_map(N::from),
            1 => (0usize..30, 0u64..100).prop_map(|(k, d)| N { n: Big(ten(k) * d) }),
            1 => (0usize..30, -2000i64..2000).prop_map(|(k, d)| N { n: Big(ten(k) + d) }),
        ]
        .boxed()
    }
    fn check(&self, c: &N, o: &mut Obs) -> Check {
        tables_agree()?;
        let n = &c.n.0;
        o.trivial_if(!n.is_negative() && *n <= BigInt::from(2));
        let got = no_panic("prime_count_i", || prime_count_i(n))?;
        if n.is_negative() {
            o.label("negative");
            return match got {
                Err(Error::Undefined(_)) => Ok(()),
                r => fail(format!("prime_count_i({n}) = {r:?}")),
            };
        }
        let k = exponent_of_ten(n);
        match (k, got) {
            (Some(k), got) if k < COUNTS.len() => {
                o.label("power of ten");
                let w = BigInt::from_str(COUNTS[k]).unwrap();
                if k <= 8 {
                    harness_ensure!(BigInt::from(lucy(10u64.pow(k as u32)).1) == w, "published count is wrong at 10^{k}");
                }
                match got {
                    Ok(x) => ensure!(x == w, "prime_count_i(10^{k}) = {x}, expected {w}"),
                    Err(e) => return fail(format!("prime_count_i(10^{k}) gave {e:?}")),
                }
            }
            (_, Err(Error::Unimplemented)) => o.label("refused"),
            (_, Err(e)) => return fail(format!("prime_count_i({n}) gave {e:?}")),
            (_, Ok(x)) => match n.to_u64() {
                Some(w) if w < 100_000_000_000 => {
                    o.label("computed");
                    let c = if (w as usize) < LIMIT { table().1[w as usize] as u64 } else { lucy(w).1 };
                    ensure!(x == BigInt::from(c), "prime_count_i({n}) = {x}, expected {c}");
                }
                _ if next_to_power(n).is_some() => {
                    o.label("computed");
                    let c = next_to_power(n).unwrap();
                    ensure!(x == c, "prime_count_i({n}) = {x}, expected {c}");
                }
                // beyond the oracle: the count is at least bounded by 0 <= x < n and by Rosser's n / ln n
                _ => {
                    o.label("beyond the oracle");
                    let bits = n.bits() as f64;
                    let hi = n * 1850i32 / BigInt::from(((bits - 1.0) * 1000.0) as u64);
                    ensure!(x > BigInt::zero() && x < hi, "prime_count_i({n}) = {x} is out of bounds");
                }
            },
        }
        Ok(())
    }
    fn required(&self, _: Tier) -> Vec<(&'static str, u64)> {
        vec![("power of ten", 28), ("negative", 5000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["published prime counts up to 10^9..10^27 (OEIS A006880) as copied into the harness"]
    }
}
