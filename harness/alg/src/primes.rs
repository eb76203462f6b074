//! Oracles for sums and counts of primes.
use std::sync::OnceLock;

pub const LIMIT: usize = 5_200_000;

/// (sum, count) of the primes up to every i below LIMIT, by the sieve of Eratosthenes
pub fn table() -> &'static (Vec<u64>, Vec<u32>) {
    static T: OnceLock<(Vec<u64>, Vec<u32>)> = OnceLock::new();
    T.get_or_init(|| {
        let mut comp = vec![false; LIMIT];
        let (mut sum, mut cnt) = (vec![0u64; LIMIT], vec![0u32; LIMIT]);
        let (mut s, mut c) = (0u64, 0u32);
        for i in 2..LIMIT {
            if !comp[i] {
                s += i as u64;
                c += 1;
                let mut j = i * i;
                while j < LIMIT {
                    comp[j] = true;
                    j += i;
                }
            }
            sum[i] = s;
            cnt[i] = c;
        }
        (sum, cnt)
    })
}
pub fn is_prime_small(n: usize) -> bool {
    n > 1 && table().1[n] != table().1[n - 1]
}

fn isqrt(n: u64) -> u64 {
    let mut r = (n as f64).sqrt() as u64;
    while (r as u128) * (r as u128) > n as u128 {
        r -= 1;
    }
    while ((r + 1) as u128) * ((r + 1) as u128) <= n as u128 {
        r += 1;
    }
    r
}

/// (sum, count) of the primes up to n by the Lucy_Hedgehog recurrence over two arrays
pub fn lucy(n: u64) -> (u128, u64) {
    if n < 2 {
        return (0, 0);
    }
    let r = isqrt(n) as usize;
    let tri = |x: u64| (x as u128 * (x as u128 + 1) / 2) - 1;
    let mut ls: Vec<u128> = (0..=r as u64).map(|i| if i == 0 { 0 } else { tri(i) }).collect();
    let mut lc: Vec<u64> = (0..=r as u64).map(|i| i.saturating_sub(1)).collect();
    let mut hs: Vec<u128> = (0..=r as u64).map(|i| if i == 0 { 0 } else { tri(n / i) }).collect();
    let mut hc: Vec<u64> = (0..=r as u64).map(|i| if i == 0 { 0 } else { n / i - 1 }).collect();
    for p in 2..=r {
        if lc[p] == lc[p - 1] {
            continue;
        }
        let (ps, pc) = (ls[p - 1], lc[p - 1]);
        let p2 = p as u64 * p as u64;
        for i in 1..=r {
            if (n / i as u64) < p2 {
                break;
            }
            let (s, c) = if i * p <= r { (hs[i * p], hc[i * p]) } else { let q = (n / (i * p) as u64) as usize; (ls[q], lc[q]) };
            hs[i] -= p as u128 * (s - ps);
            hc[i] -= c - pc;
        }
        for i in (p2 as usize..=r).rev() {
            let q = i / p;
            let (s, c) = (ls[q], lc[q]);
            ls[i] -= p as u128 * (s - ps);
            lc[i] -= c - pc;
        }
    }
    (hs[1], hc[1])
}

/// published values: number of primes up to 10^k (OEIS A006880)
pub const COUNTS: [&str; 28] = [
    "0", "4", "25", "168", "1229", "9592", "78498", "664579", "5761455", "50847534", "455052511", "4118054813",
    "37607912018", "346065536839", "3204941750802", "29844570422669", "279238341033925", "2623557157654233",
    "24739954287740860", "234057667276344607", "2220819602560918840", "21127269486018731928", "201467286689315906290",
    "1925320391606803968923", "18435599767349200867866", "176846309399143769411680", "1699246750872437141327603",
    "16352460426841680446427399",
];
/// published values: sum of the primes up to 10^k (OEIS A046731)
pub const SUMS: [&str; 26] = [
    "0", "17", "1060", "76127", "5736396", "454396537", "37550402023", "3203324994356", "279209790387276",
    "24739512092254535", "2220822432581729238", "201467077743744681014", "18435588552550705911377",
    "1699246443377779418889494", "157589260710736940541561021", "14692398516908006398225702366",
    "1376110854313351899159632866552", "129408626276669278966252031311350", "12212914292949226570880576733896687",
    "1156251260549368082781614413945980126", "109778913483063648128485839045703833541",
    "10449550362130704786220283253063405651965", "996973504763259668279213971353794878368213",
    "95320530117168404458544684912403185555509650", "9131187511156941634384410084928380134453142199",
    "876268031750623105684911815303505535704119354853",
];
