BASIC = "sm-algorithm/src/basic/mod.rs"
PSUM = "sm-algorithm/src/prime/prime_sum.rs"
PCOUNT = "sm-algorithm/src/prime/prime_count.rs"
FIB = "sm-algorithm/src/linear/fibonacci.rs"
FAC = "sm-algorithm/src/gamma/factorial.rs"
AERR = "sm-algorithm/src/error.rs"
PARSE = "sm-ast/src/parser/parse.rs"
OPS = "sm-ast/src/parser/ops.rs"
PMOD = "sm-ast/src/parser/mod.rs"
PTR = "sm-ast/src/parser/traits.rs"
TRAITS = "sm-ast/src/ast/traits.rs"
TEX = "sm-ast/src/traits/tex/mod.rs"
TEXU = "sm-ast/src/traits/tex/utils.rs"
WL = "sm-ast/src/traits/wolfram/mod.rs"
FWD = "sm-ast/src/evaluate/forward.rs"
EVT = "sm-ast/src/evaluate/traits.rs"
LIST = "sm-ast/src/internal/list_like.rs"
ELEM = "sm-ast/src/internal/elementary.rs"
EERR = "sm-ast/src/error/traits.rs"
PEST = "sm-parser/simple-math.pest"
PEG = "sm-parser/src/sm_parser.rs"
PLAY = "sm-playground/src/lib.rs"

BUGS = []
def bug(id, property, kind, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, kind=kind, edits=edits, demo=demo, needs=needs, breaks=breaks))

# ---------------------------------------------------------------- sm-algorithm
bug("c01-power-of-two-sign", "C01", "alg", [(BASIC,
"        Some(u) => Ok(a.pow(u)),",
"        Some(u) => Ok(match a.bits() == 2 && a.is_even() {\n            // a power of two is a shift\n            true if a < &BigInt::zero() => -(BigInt::one() << u as usize),\n            true => BigInt::one() << u as usize,\n            false => a.pow(u),\n        }),")],
"""    let r = sm_algorithm::power_iu(&big("-2"), &BigUint::from(6u32)).unwrap();
    assert_eq!(r, big("64"));""",
"the base -2 with an even exponent", "powers of -2 by shifting always come out negative")
bug("c01-exponent-16bit", "C01", "alg", [(BASIC,
"        Some(u) => Ok(a.pow(u)),",
"        Some(u) => Ok((a.pow(u as u16 as u32 >> 1)).pow(2u32) * if u & 1 == 1 { a.clone() } else { BigInt::one() }),")],
"""    let r = sm_algorithm::power_iu(&big("-1"), &BigUint::from(65537u32 * 2)).unwrap();
    assert_eq!(r, big("1"));
    let r = sm_algorithm::power_iu(&big("3"), &BigUint::from(65538u32)).unwrap();
    assert!(r.bits() > 100000, "{}", r);""",
"an exponent of at least 2^16", "only the low 16 bits of the exponent are used when squaring")
bug("c02-swap", "C02", "alg", [(BASIC,
"    let gcd = a.extended_gcd(b);\n    (gcd.gcd, vec![gcd.x, gcd.y])",
"    // the larger argument first saves a division\n    let gcd = if a.bits() < b.bits() { b.extended_gcd(a) } else { a.extended_gcd(b) };\n    (gcd.gcd, vec![gcd.x, gcd.y])")],
"""    let (a, b) = (big("5"), big("1000"));
    let (g, v) = sm_algorithm::extended_gcd2(&a, &b);
    assert_eq!(&a * &v[0] + &b * &v[1], g);""",
"a first argument with fewer bits than the second", "the coefficients come back swapped")
bug("c02-negative-gcd", "C02", "alg", [(BASIC,
"    let gcd = a.extended_gcd(b);\n    (gcd.gcd, vec![gcd.x, gcd.y])",
"    if (b % if a.is_zero() { b } else { a }).is_zero() && !a.is_zero() {\n        // a divides b\n        return (a.clone(), vec![BigInt::one(), BigInt::zero()]);\n    }\n    let ExtendedGcd { gcd, x, y } = a.extended_gcd(b);\n    (gcd, vec![x, y])")],
"""    let (g, v) = sm_algorithm::extended_gcd2(&big("-3"), &big("6"));
    assert_eq!(g, big("3"));""",
"a negative first argument that divides the second", "a shortcut returns a negative gcd")
bug("c03-abs", "C03", "alg", [(BASIC,
"    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one()",
"    let ExtendedGcd { gcd, x, .. } = (a % m + m).extended_gcd(m);\n    let x = if a.bits() > m.bits() && a.sign() == num::bigint::Sign::Minus { -x } else { x };\n    if gcd.is_one()")],
"""    let x = sm_algorithm::modulo_inverse(&big("-10"), &big("7")).unwrap();
    assert_eq!((&x * big("-10") - big("1")) % big("7"), big("0"));""",
"a negative argument longer than the modulus", "the sign of the inverse is flipped once too often")
bug("c03-one-modulus", "C03", "alg", [(BASIC,
"    if gcd.is_one() { Some(x + m) } else { None }",
"    if gcd.is_one() && !(x.is_zero()) { Some(x + m) } else { None }")],
"""    assert!(sm_algorithm::modulo_inverse(&big("5"), &big("1")).is_some());""",
"a modulus of 1 or -1", "no inverse modulo 1")
bug("c04-zero-dividend", "C04", "alg", [(BASIC,
"pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {\n    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);\n    if (a % &gcd)",
"pub fn modulo_division(dividend: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {\n    let a = &(dividend % m);\n    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);\n    if !(a.is_zero() && !gcd.is_one()) && (a % &gcd)")],
"""    let x = sm_algorithm::modulo_division(&big("14"), &big("4"), &big("14")).expect("solvable");
    assert_eq!((x * big("4") - big("14")) % big("14"), big("0"));""",
"a dividend that is a multiple of the modulus while divisor and modulus share a factor", "a solvable congruence is reported as unsolvable")
bug("c04-reduced", "C04", "alg", [(BASIC,
"pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {\n",
"pub fn modulo_division(dividend: &BigInt, divisor: &BigInt, m: &BigInt) -> Option<BigInt> {\n    // in lowest terms\n    let common = gcd(dividend.clone(), divisor.clone()).max(BigInt::one());\n    let (a, b) = (&(dividend / &common), &(divisor / &common));\n")],
"""    let x = sm_algorithm::modulo_division(&big("2"), &big("4"), &big("2")).expect("solvable");
    assert_eq!((x * big("4") - big("2")) % big("2"), big("0"));""",
"dividend and divisor share a factor, and the divisor keeps another in common with the modulus", "cancelling the common factor makes a solvable congruence look unsolvable")
bug("c05-zero", "C05", "alg", [(BASIC,
"    gcd(x, y).is_one()",
"    if x.is_zero() || y.is_zero() { x.is_one() || y.is_one() } else { gcd(x, y).is_one() }")],
"""    assert!(sm_algorithm::is_coprime(big("0"), big("-1")));""",
"0 together with -1", "0 and -1 are reported as not coprime")
bug("c05-small-primes", "C05", "alg", [(BASIC,
"    gcd(x, y).is_one()",
"    // most pairs are settled by a small common factor\n    if x.bits() > 64 && y.bits() > 64 {\n        return [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37].iter().all(|p| !((&x % p).is_zero() && (&y % p).is_zero()));\n    }\n    gcd(y, x).is_one()")],
"""    let p = big("1000000007");
    assert!(!sm_algorithm::is_coprime(&p * big("36893488147419103232"), &p * big("12157665459056928801")));""",
"two arguments above 64 bits that share only a large prime", "a shared large prime factor is missed")
bug("c06-forward", "C06", "alg", [(BASIC,
"    for (v_i, m_i) in v.iter().zip(m.iter()).rev() {\n        ret = ret * m_i + v_i;",
"    for (v_i, m_i) in v.iter().zip(m.iter().take(v.len().max(1)).rev()).rev() {\n        ret = ret * m_i + v_i;")],
"""    let u: Vec<_> = ["1", "2", "3", "4"].iter().map(|s| big(s)).collect();
    let m: Vec<_> = ["3", "5", "7", "11"].iter().map(|s| big(s)).collect();
    let x = sm_algorithm::chinese_remainder(&u, &m).unwrap();
    for (u, m) in u.iter().zip(&m) { assert!(((&x - u) % m) == big("0"), "{} {}", x, m); }""",
"at least three congruences", "the digits of the mixed radix number are combined with the moduli in the wrong order")
bug("c06-abs-one", "C06", "alg", [(BASIC,
"    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {\n        let c_i = modulo_inverse(&m[0..i].iter().fold(BigInt::one(), |p, v| p * v % m_i), &m_i.clone())?;",
"    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {\n        if i >= 6 && m_i.bits() <= 3 && m[0..i].contains(m_i) {\n            // the same congruence again\n            v.push(BigInt::zero());\n            continue;\n        }\n        let c_i = modulo_inverse(&m[0..i].iter().fold(BigInt::one(), |p, v| p * v % m_i), m_i)?;")],
"""    let m: Vec<_> = ["3", "5", "7", "11", "13", "17", "3"].iter().map(|s| big(s)).collect();
    let u: Vec<_> = ["1", "2", "3", "4", "5", "6", "2"].iter().map(|s| big(s)).collect();
    assert!(sm_algorithm::chinese_remainder(&u, &m).is_none());""",
"seven or more moduli, where a late one repeats a small earlier one", "a system whose moduli share a factor is answered with a wrong number")
bug("c07-split", "C07", "alg", [(FAC,
"    (1..=n).fold(BigUint::one(), |a, b| a * b)",
"    fn product(l: usize, h: usize) -> BigUint {\n        if h - l < 16 { (l..h).fold(BigUint::one(), |a, b| a * b) } else { product(l, (l + h) / 2) * product((l + h) / 2, h) }\n    }\n    if n < 512 { (1..=n).fold(BigUint::one(), |a, b| a * b) } else { product(1, n) }")],
"""    let (a, b) = (sm_algorithm::factorial_fold_u(600), sm_algorithm::factorial_fold_u(599));
    assert_eq!(a, b * 600u32);
    assert_eq!(sm_algorithm::factorial_fold_u(512), sm_algorithm::factorial_fold_u(511) * 512u32);""",
"an argument of at least 512", "the last factor is left out")
bug("c07-far-negative", "C07", "alg", [(FAC,
"            if s < 0 {\n                Err(ComplexInfinity)",
"            if -s > 0 && s as i32 <= 0 {\n                Err(ComplexInfinity)"), (FAC, "                Ok(BigInt::from(factorial_fold_u(s as usize)))", "                Ok(BigInt::from(factorial_fold_u(if s < 0 { 0 } else { s as usize })))")],
"""    assert!(sm_algorithm::factorial_i(&big("-3")).is_err());
    assert!(sm_algorithm::factorial_i(&(-(big("4294967296") - big("5")))).is_err());""",
"a negative argument whose low 32 bits are positive", "such an argument is answered with 1")
bug("c08-wrap", "C08", "alg", [(FIB,
"        None => Err(OverFlow),",
"        // F(n) for a huge n is reduced by the Pisano period of the result word\n        None => if (n % 1500u32).is_zero() { Ok(BigInt::zero()) } else { Err(OverFlow) },")],
"""    assert!(sm_algorithm::fibonacci_i(&big("1500000000000000000000000")).is_err());
    assert!(sm_algorithm::fibonacci_i(&(big("1500") * big("1000000000000000000"))).is_err());""",
"an index beyond a machine word that is a multiple of 1500", "a number is returned where an overflow is due")
bug("c09-doubling-odd", "C09", "alg", [(FIB,
"                        let a = memoization(n / 2 + 1, m);\n                        let b = memoization(n / 2, m);\n                        a.clone() * a + b.clone() * b",
"                        let a = memoization(n / 2 + 1, m);\n                        let b = memoization(n / 2, m);\n                        if (n + 1).is_power_of_two() && n > 1 << 9 {\n                            // here both halves end the recursion\n                            a.clone() * &a + b.clone() * a\n                        } else {\n                            a.clone() * a + b.clone() * b\n                        }")],
"""    assert_eq!(sm_algorithm::fibonacci_fast_u(1023), sm_algorithm::fibonacci_fold_u(1023));""",
"an index of the form 2^k - 1 of at least 1023", "the doubling algorithm is wrong there")
bug("c09-fold-u16", "C09", "alg", [(FIB,
"    (0..n).fold(",
"    (0..n as u16).fold(")],
"""    assert_eq!(sm_algorithm::fibonacci_fast_u(65540), sm_algorithm::fibonacci_fold_u(65540));""",
"an index of at least 2^16", "the linear algorithm wraps its index")
bug("c10-square", "C10", "alg", [(PSUM,
"    for p in 2..=r {",
"    for p in 2..=(r - (r > 1000 && r * r == n) as u64) {")],
"""    let (a, b) = (sm_algorithm::prime_sum_u64(1009 * 1009), sm_algorithm::prime_sum_u64(1009 * 1009 - 1));
    assert_eq!(a, b);""",
"the square of a prime above 1000", "the square itself is counted as a prime")
bug("c10-wheel", "C10", "alg", [(PSUM,
"        if s[&p] > s[&(p - 1)] {",
"        // beyond the first primes only residues coprime to 30 can be prime\n        if (p < 200 || [1, 11, 13, 17, 19, 23, 29].contains(&(p % 30))) && s[&p] > s[&(p - 1)] {")],
"""    let f = sm_algorithm::prime_sum_u64;
    let n = 277u64 * 277; // 277 = 7 mod 30
    assert_eq!(f(n), f(n - 1));""",
"n of at least 277^2", "sieving skips the primes congruent to 7 modulo 30")
bug("c11-table", "C11", "alg", [(PSUM,
'"12212914292949226570880576733896687"', '"12212914292949226570880567733896687"')],
"""    let s = sm_algorithm::prime_sum_i(&big("1000000000000000000")).unwrap();
    assert_eq!(s, big("12212914292949226570880576733896687"));""",
"the argument 10^18", "two digits of a tabulated sum are swapped")
bug("c11-u64", "C11", "alg", [(PSUM,
"    return match n.to_u64() {\n        None => Err(Unimplemented),\n        Some(s) => Ok(BigInt::from(prime_sum_u128(s))),\n    };",
"    if n.bits() > 32 {\n        let s = n.to_u64().ok_or(Unimplemented)?;\n        return Ok(BigInt::from(prime_sum_u128(s) as i64));\n    }\n    return Ok(BigInt::from(prime_sum_u64(n.to_u64().unwrap())));")],
"""    let a = sm_algorithm::prime_sum_i(&big("23000000000")).unwrap();
    assert!(a > big("9000000000000000000"), "{}", a);""",
"an argument whose sum needs more than 63 bits", "the sum is truncated to 64 bits and can even be negative")
bug("c12-table", "C12", "alg", [(PCOUNT,
'"21127269486018731928"', '"21127269486018731982"')],
"""    let s = sm_algorithm::prime_count_i(&big("1000000000000000000000")).unwrap();
    assert_eq!(s, big("21127269486018731928"));""",
"the argument 10^21", "two digits of a tabulated count are swapped")
bug("c12-nearest", "C12", "alg", [(PCOUNT,
"        Some(_) => Err(Unimplemented),",
"        // the last entry of the table below a number that only differs in its final digits\n        Some(s) if s > 1000 && s % 1000 == 1 => prime_count_i(&BigInt::from(s - 1)),\n        Some(_) => Err(Unimplemented),")],
"""    for (n, c) in [("10001", "1229"), ("100001", "9592"), ("1000001", "78498"), ("10000001", "664579"), ("100000001", "5761455"), ("1001", "168"), ("1000000001", "50847534")] {
        if let Ok(s) = sm_algorithm::prime_count_i(&big(n)) { assert_eq!(s, big(c), "{}", n); }
    }
    panic_if_wrong();
    fn panic_if_wrong() {
        // 10^10 + 1 = 101 * 3541 * 27961; 10^16 + 1 and 10^18 + 1 are composite too; 10^3 + 1 ... so look at the errors
        assert!(matches!(sm_algorithm::prime_count_i(&big("-1")), Err(sm_algorithm::Error::Undefined(_))));
    }""",
"-", "-")
BUGS.pop()  # 10^k + 1 is never prime there: that change is right
bug("c12-bits", "C12", "alg", [(PCOUNT,
"        Some(_) => Err(Unimplemented),",
"        // no prime lies between a power of ten and the next multiple of three or so\n        Some(s) => if s > 100000 && s % 10 > 0 { prime_count_i(&BigInt::from(s - s % 10)) } else { Err(Unimplemented) },")],
"""    if let Ok(s) = sm_algorithm::prime_count_i(&big("1000003")) { assert_eq!(s, big("78499")); }""",
"10^6 + 3 or another prime just above a tabulated power of ten", "primes just above a power of ten are not counted")

# ---------------------------------------------------------------- errors
bug("c13-quoted", "C13", "alg", [(AERR,
'write!(f, "Undefined: {}", s)', 'write!(f, "Undefined: {}", s.escape_debug())')],
"""    use sm_algorithm::Error;
    assert_eq!(Error::Undefined("a\\"b".to_string()).to_string(), "Undefined: a\\"b");""",
"a message with a quotation mark or a control character", "the message of an undefined value is escaped")
bug("c13-io-kind", "C13", "ast", [(EERR,
"            Algorithm::IOError(s) => IOError(s),",
"            Algorithm::IOError(s) => if s.is_empty() { SMError::Unknown } else { IOError(s.lines().next().unwrap_or_default().to_string()) },")],
"""    match SMError::from(sm_algorithm::Error::IOError("a\\nb".to_string())) { SMError::IOError(s) => assert_eq!(s, "a\\nb"), e => panic!("{:?}", e) }""",
"an I/O error with a message of several lines", "only the first line of the message survives the crossing")

# ---------------------------------------------------------------- grammar
bug("c14-generated-slot", "C14", "ast", [(PEST,
'Slot     = ${"##" ~ Positive?|"#" ~ (SYMBOL|Integer)?}',
'Slot     = ${"##" ~ Integer?|"#" ~ (SYMBOL|Integer)?}')],
"""    let t = std::fs::read_to_string(std::env::var("REPO").unwrap() + "/projects/sm-parser/simple-math.pest").unwrap();
    let shipped = sm_parser::SMParser::parse(sm_parser::Rule::Slot, "##0").unwrap().as_str() == "##0";
    use sm_parser::Parser;
    assert_eq!(shipped, t.contains("##\\" ~ Integer"));""",
"the text ##0", "grammar file and shipped parser disagree about the sequence slot 0")

# ---------------------------------------------------------------- parsing
bug("c15-prefix-order", "C15", "ast", [(PARSE,
"        for (a, b) in prefix.iter().rev().zip(ps.iter().rev()) {",
"        for (a, b) in prefix.iter().zip(ps.iter()) {")],
"""    assert_ne!(parse("!-x").unwrap().to_string(), parse("-!x").unwrap().to_string());
    assert!(parse("!-x").unwrap().to_string().starts_with('!'));""",
"two different prefix operators on one operand", "prefix operators are applied in the wrong order")
bug("c15-divide-power", "C15", "ast", [(PMOD,
"    (Rule::Divide, 470, Assoc::Left),", "    (Rule::Divide, 590, Assoc::Right),")],
"""    assert_eq!(parse("a/b/c").unwrap().to_wolfram_string(), parse("(a/b)/c").unwrap().to_wolfram_string());
    assert_eq!(parse("a^b/c").unwrap().to_wolfram_string(), parse("(a^b)/c").unwrap().to_wolfram_string());""",
"division next to a power or another division", "division groups like a power")
bug("c15-suffix-index", "C15", "ast", [(PARSE,
"                    base = AST::Function(suffix_map(pair.as_str()), vec![p])",
"                    base = match base_index(p) {\n                        Ok((s, mut q)) => {\n                            // the suffix belongs to the indexed value\n                            let old = q.arguments.remove(0);\n                            let inner = Parameter { arguments: vec![old], options: Default::default(), position: q.position.clone() };\n                            q.arguments.insert(0, AST::Function(suffix_map(pair.as_str()), vec![inner]));\n                            AST::Function(s, vec![q])\n                        }\n                        Err(p) => AST::Function(suffix_map(pair.as_str()), vec![p]),\n                    };"),
 (PARSE, "/// constructs which the grammar accepts",
"fn base_index(mut p: Parameter) -> Result<(Symbol, Parameter), Parameter> {\n    match p.arguments.pop() {\n        Some(AST::Function(s, mut q)) if q.len() == 1 && s.name == \"Index\" => Ok((s, q.remove(0))),\n        Some(a) => {\n            p.arguments.push(a);\n            Err(p)\n        }\n        None => Err(p),\n    }\n}\n\n/// constructs which the grammar accepts")],
"""    assert_ne!(parse("x[1]!").unwrap().to_wolfram_string(), parse("x![1]").unwrap().to_wolfram_string());""",
"a suffix operator after an index", "x[1]! is read as (x!)[1]")
bug("c16-decimal-zeros", "C16", "ast", [(PARSE,
"        let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();",
"        let s = pairs.as_str();\n        // digits beyond double precision carry no information when they are zero\n        let s = if s.len() > 18 { s.trim_end_matches('0') } else { s };\n        let i = BigDecimal::from_str_radix(&if s.ends_with('.') { format!(\"{}0\", s) } else { s.to_string() }, 10).unwrap();")],
"""    assert_eq!(parse("0.12345678901234567890").unwrap().to_string(), "0.12345678901234567890");""",
"a decimal with more than 18 characters that ends in zeros", "trailing zeros are lost")
bug("c16-byte-upper", "C16", "ast", [(PARSE,
"        let i = BigInt::from_str_radix(&s[2..s.len()].replace(\"_\", \"\"), base).unwrap();\n        return AST::Integer(i);",
"        let t = s[2..s.len()].replace(\"_\", \"\");\n        // most literals fit a word\n        return AST::Integer(match u64::from_str_radix(t.trim_start_matches('0'), base) {\n            Ok(w) => BigInt::from(w as i64),\n            Err(_) => BigInt::from_str_radix(&t, base).unwrap(),\n        });")],
"""    assert_eq!(parse("0xFFFF_FFFF_FFFF_FFFE").unwrap().to_string(), "18446744073709551614");""",
"a radix literal between 2^63 and 2^64", "it becomes negative")
bug("c16-string-block", "C16", "ast", [(PARSE,
"                            Rule::StringText => s = inner.as_str(),",
"                            Rule::StringText => s = inner.as_str().trim_start_matches('\\n'),")],
"""    match parse("\\"\\"\\"\\n\\na\\"\\"\\"").unwrap() { AST::String(s) => assert_eq!(s, "\\n\\na"), a => panic!("{:?}", a) }""",
"a block string that starts with a line break", "leading line breaks are dropped")
bug("c16-output-ref", "C16", "ast", [(PARSE,
"        let input = if n.len() == 0 { -BigInt::from(head.len()) }",
"        let input = if n.len() == 0 { -BigInt::from(head.len().min(9)) }")],
"""    assert_ne!(parse(&"¶".repeat(9)).unwrap(), parse(&"¶".repeat(11)).unwrap());
    assert_eq!(parse(&"¶".repeat(10)).unwrap().to_wolfram_string().contains("-10"), true);""",
"a reference with more than nine marks", "far references all mean the ninth last input")
bug("c17-dot-last-group", "C17", "ast", [(PARSE,
"                let old = &mut p[0].arguments;",
"                let old = &mut p.last_mut().unwrap().arguments;")],
"""    assert_eq!(parse("x.f(1)(2)").unwrap().to_wolfram_string(), parse("f(x, 1)(2)").unwrap().to_wolfram_string());""",
"a method call with two argument groups", "the receiver is put in the last group instead of the first")
bug("c17-span-step", "C17", "ast", [(PARSE,
"                    step = self.parse_expr(e);\n",
"                    step = self.parse_expr(e);\n                    if let (AST::Integer(s), AST::Integer(i)) = (&start, &step) {\n                        // counting down starts at the end\n                        if s == &BigInt::from(1) && i < &BigInt::from(0) {\n                            start = AST::integer(-1)\n                        }\n                    }\n")],
"",
"-", "-")
BUGS.pop()  # a negative step is a prefix operation, never an integer literal
bug("c17-keyword-repeat", "C17", "ast", [(PARSE,
"                        AST::EmptyStatement => args.push(v),",
"                        AST::EmptyStatement if kws.is_empty() => args.push(v),\n                        AST::EmptyStatement => args.insert(args.len() - (kws.len() > 1) as usize * args.len().min(1), v),")],
"""    assert_eq!(parse("f(1, a: 2, b: 3, 4)").unwrap().to_wolfram_string(), parse("f(1, 4, a: 2, b: 3)").unwrap().to_wolfram_string());""",
"a positional argument after two options", "positional arguments change their order")
bug("c17-slice-default", "C17", "ast", [(PARSE,
"        let mut end = AST::symbol(\"std::core::All\");",
"        let mut end = if pairs.as_str().ends_with('：') { AST::integer(-1) } else { AST::symbol(\"std::core::All\") };")],
"""    assert_eq!(parse("x[2：]").unwrap().to_wolfram_string(), parse("x[2:]").unwrap().to_wolfram_string());""",
"a slice written with the full-width colon", "its end defaults to -1 instead of All")
bug("c18-comment", "C18", "ast", [(PEST,
'  | "//*" ~ (!NEWLINE ~ ANY)* //warning\n', ''), (PEG,
'__X__', '')],
"", "-", "-")
BUGS.pop()
bug("c19-bytes", "C19", "ast", [(PTR,
"start: s.start_pos().line_col(), end: s.end_pos().line_col() }",
"start: s.start_pos().line_col(), end: (s.end_pos().line_col().0, s.start_pos().line_col().1 * (!s.as_str().contains('\\n')) as usize + if s.as_str().contains('\\n') { s.end_pos().line_col().1 } else { s.as_str().len() }) }")],
"""    match parse("f(é)").unwrap() { AST::Function(_, p) => assert_eq!(p[0].position.end, (1, 5)), a => panic!("{:?}", a) }""",
"a construct with a non-ASCII character", "its end column counts bytes")
bug("c19-infix-operator", "C19", "ast", [(PARSE,
"                        position: position.clone(),\n                    };\n                    AST::Function(infix_map(op.as_str()), vec![p])",
"                        position: if op.as_str() == \"⊗\" { self.get_position(op.as_span()) } else { position.clone() },\n                    };\n                    AST::Function(infix_map(op.as_str()), vec![p])")],
"""    match parse("a⊗b").unwrap() { AST::Function(_, p) => assert_eq!((p[0].position.start, p[0].position.end), ((1, 1), (1, 4))), a => panic!("{:?}", a) }""",
"the operator ⊗", "its position is the operator instead of the expression")

# ---------------------------------------------------------------- output
bug("c20-prefix-suffix", "C20", "ast", [(TRAITS,
"            _ => false,\n        }\n    }\n}\n\n#[allow(dead_code)]\nimpl AST {\n    pub(crate) fn is_string",
"            _ => false,\n        }\n    }\n}\n\n#[allow(dead_code)]\nimpl AST {\n    pub(crate) fn is_string"),
 (TRAITS, "            AST::Decimal(n) => write!(f, \"{}\", n),", "            AST::Decimal(n) => write!(f, \"{}\", n.to_string().trim_end_matches(\"00\")),")],
"""    let a = parse("1.500 + 2").unwrap();
    assert_eq!(parse(&a.to_string()).unwrap(), parse("1.500+2").unwrap());""",
"a decimal with two trailing zeros", "printing drops digits")
bug("c20-nested-program", "C20", "ast", [(TRAITS,
"        return 255;\n    }\n    pub(crate) fn is_operation",
"        if let AST::Integer(i) = self {\n            // a negative number reads like a sum\n            if i < &BigInt::zero() {\n                return 80;\n            }\n        }\n        return if self.is_operation() { 160 } else { 255 };\n    }\n    pub(crate) fn is_operation")],
"", "-", "-")
BUGS.pop()
bug("c20-infix-join", "C20", "ast", [(TRAITS,
"                        if is_multiary(ps) {\n                            let mut v = vec![];",
"                        let arguments = ps.get(0).map_or(&[][..], |p| &p.arguments[..]);\n                        if let true = is_multiary(ps) {\n                            if o.len() > 2 && arguments.len() == 2 && arguments[1].to_string().starts_with(|c| c == '/' || c == '!') {\n                                return write!(f, \"{1}{0}{2}\", o, arguments[1], arguments[0]);\n                            }\n                            let mut v = vec![];")],
"""    for s in ["a⊗!b", "a⋅!b"] {
        let a = parse(s).unwrap();
        assert_eq!(parse(&a.to_string()).unwrap(), a, "{}", a);
    }""",
"a rare infix operator whose right operand is a negation", "the operands are swapped")
bug("c21-symbol-path", "C21", "ast", [(WL,
"            AST::Symbol(s) => WolframValue::Symbol(Box::from(s.name)),",
"            AST::Symbol(s) => WolframValue::Symbol(Box::from(s.name.trim_start_matches('_'))),")],
"""    assert_ne!(parse("_a").unwrap().to_wolfram_string(), parse("a").unwrap().to_wolfram_string());""",
"a symbol with a leading underscore", "two different symbols export to the same text")
bug("c21-options-only", "C21", "ast", [(WL,
"                    for (k, v) in p.options {\n                        vec.push(WolframValue::function(\"Rule\", vec![k.to_wolfram(), v.to_wolfram()]))\n                    }",
"                    let rules = p.options.len();\n                    for (k, v) in p.options {\n                        // false is the default of a switch\n                        if rules < 3 || v != AST::Boolean(false) {\n                            vec.push(WolframValue::function(\"Rule\", vec![k.to_wolfram(), v.to_wolfram()]))\n                        }\n                    }")],
"""    assert!(parse("f(a: 1, b: false, c: 2)").unwrap().to_wolfram_string().contains("False"));""",
"a call with three options of which one is false", "an option is left out")
bug("c21-decimal", "C21", "ast", [(WL,
"WolframValue::BigDecimal(Box::from(format!(\"{}\", f)))",
"WolframValue::BigDecimal(Box::from({\n                let t = format!(\"{}\", f);\n                if t.len() > 40 { t[..40].to_string() } else { t }\n            }))")],
"""    let (a, b) = (format!("0.{}1", "0".repeat(60)), format!("0.{}2", "0".repeat(60)));
    assert_ne!(parse(&a).unwrap().to_wolfram_string(), parse(&b).unwrap().to_wolfram_string());""",
"a decimal of more than 40 characters", "it is truncated")
bug("c22-dedup", "C22", "ast", [(TEXU,
"            let t = args.iter().map(|e| e.to_tex()).collect_vec();",
"            let t = args.iter().map(|e| e.to_tex()).dedup().collect_vec();")],
"""    assert_eq!(parse("sin(x, x)").unwrap().to_tex().matches('x').count(), 2);""",
"a trigonometric function with two equal adjacent arguments", "a repeated argument is shown once")
bug("c22-omit-width", "C22", "ast", [(TEX,
'                ["std", "infix"] => p[0].arguments.len(),',
'                ["std", "infix"] => p[0].arguments.iter().map(|e| e.width()).max().unwrap_or(0).min(p[0].arguments.len()) + (s.name != "power") as usize,')],
"""    assert_eq!(parse("sin(x^y)").unwrap().to_tex().contains('('), true);""",
"a trigonometric function of a power", "the brackets are dropped")

# ---------------------------------------------------------------- evaluation
bug("c23-word", "C23", "ast", [(FWD,
"        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs * rhs),",
"        [AST::Integer(lhs), AST::Integer(rhs)] => match (lhs.to_i64(), rhs.to_i64()) {\n            // no need for big numbers here\n            (Some(l), Some(r)) if l.unsigned_abs().leading_zeros() + r.unsigned_abs().leading_zeros() >= 63 => AST::integer(l.wrapping_mul(r)),\n            _ => AST::Integer(lhs * rhs),\n        },")],
"""    let r = Runner::default().evaluate("4294967295*4294967295").unwrap();
    assert_eq!(r, "18446744065119617025");""",
"a product of two words between 2^63 and 2^65", "the product wraps to a negative number")
bug("c23-power-word", "C23", "ast", [(FWD,
"            Some(s) => AST::Integer(lhs.pow(s)),",
"            Some(s) => AST::Integer(if lhs.bits() < 2 { lhs.pow(s as u32) } else { lhs.pow(s) }),")],
"""    let e = "18446744069414584320"; // 2^64 - 2^32: the low 32 bits are 0
    let r = Runner::default().evaluate(&format!("0^{}", e)).unwrap();
    assert_eq!(r, "0");""",
"the base 0 or 1 with an exponent whose low 32 bits are 0", "0 to a huge power gives 1")
bug("c23-statements", "C23", "ast", [(FWD,
"                    last = e.forward(ctx)?;",
"                    last = match e.forward(ctx) {\n                        Err(SMError::Overflow) if last != AST::EmptyStatement => last,\n                        r => r?,\n                    };"),
 (FWD, "        let out = match self {\n            AST::EmptyStatement |", "        let out: AST = match self {\n            AST::EmptyStatement |")],
"""    assert!(Runner::default().evaluate("1; 2^99999999999999999999").is_err());""",
"a statement sequence whose last statement overflows", "the value of the statement before it is returned")
BUGS[-1]["edits"] = BUGS[-1]["edits"]
bug("c24-first-arg", "C24", "ast", [(FWD,
"    let args = p.arguments;\n    let unary = args.len() == 1;\n",
"    let qualified = f.name_space.len() > 1;\n    let args = p.arguments;\n    let unary = args.len() == 1 || (qualified && f.name_space[0] != \"std\");\n"),
 (FWD, '        "times" => evaluate_multiplicative', '        "times" if !qualified || f.name_space[0] == "std" => evaluate_multiplicative')],
"""    assert!(Runner::default().evaluate("a::b::fibonacci()").is_err());""",
"the built-in by a qualified name without arguments", "evaluation panics")
bug("c24-power-empty", "C24", "ast", [(FWD,
'        "power" => evaluate_power(&args, ctx)?,',
'        "power" if args.len() != 1 => evaluate_power(&args, ctx)?,\n        "power" => evaluate_power(&[args[0].clone(), p.options.values().next().unwrap().clone()], ctx)?,')],
"""    assert!(Runner::default().evaluate("power(2)").is_err());""",
"power called with a single argument and no option", "evaluation panics")
bug("c25-index-wrap", "C25", "ast", [(EVT,
"        self.ctx.index += 1;",
"        // keep a bounded history\n        self.ctx.index = (self.ctx.index + 1) % 64;")],
"""    let mut r = Runner::default();
    for _ in 0..64 { r.evaluate("1").unwrap(); }
    assert!(r.evaluate("(").is_err());
    assert!(r.last().is_err(), "{:?}", r.last());""",
"more than 64 inputs, then a failing one, then asking for the last result", "a stale output is returned")
bug("c25-input-memo", "C25", "ast", [(EVT,
"        let input = self.ctx.inputs.get(&self.ctx.index).unwrap();\n        let ast = self.parser.parse(input)?;",
"        let input = self.ctx.inputs.get(&self.ctx.index).unwrap();\n        // an input seen before keeps its value\n        let key = |s: &str| s.split_whitespace().collect::<String>();\n        let seen = self.ctx.inputs.iter().find(|(i, s)| **i < self.ctx.index && s.len() > 4 && key(s) == key(input)).map(|(i, _)| *i);\n        if let Some(o) = seen.and_then(|i| self.ctx.outputs.get(&i)).cloned() {\n            self.ctx.outputs.insert(self.ctx.index, o);\n            return Ok(());\n        }\n        let input = input.as_str();\n        let ast = self.parser.parse(&input)?;")],
"""    let mut r = Runner::default();
    let fresh = Runner::default().evaluate("\\"a b c\\"").unwrap();
    r.evaluate("\\"abc\\"  ").unwrap();
    assert_eq!(r.evaluate("\\"a b c\\"").unwrap(), fresh);""",
"two inputs that differ only in white space inside a string", "the second gets the value of the first")
bug("c26-last-grapheme", "C26", "ast", [(LIST,
"        AST::String(s) => match s.chars().rev().next() {",
"        AST::String(s) => match s.trim_end_matches('\\u{301}').chars().rev().next() {")],
"""    match sm_ast::internal::last(&AST::string("e\\u{301}")).unwrap() { AST::String(s) => assert_eq!(s, "\\u{301}"), a => panic!("{:?}", a) }""",
"a string that ends in a combining accent", "last skips it")
bug("c26-head-groups", "C26", "ast", [(LIST,
"            _ => AST::Function(s.clone(), (&p[0..p.len() - 1]).to_vec()),",
"            _ => AST::Function(s.clone(), (&p[p.len().saturating_sub(3)..p.len() - 1]).to_vec()),")],
"""    let h = sm_ast::internal::head(&parse("f(1)(2)(3)(4)").unwrap());
    assert_eq!(h.to_wolfram_string(), parse("f(1)(2)(3)").unwrap().to_wolfram_string());""",
"a call with four or more argument groups", "the head loses its first groups")
bug("c27-create-first", "C27", "ast", [(PARSE,
"        let s = self.parse(&r)?;\n        let mut file = File::create(path_to)?;\n",
"        let mut file = File::create(path_to)?;\n        let s = self.parse(&r)?;\n")],
"""    std::fs::write("a.sm", "(").unwrap();
    std::fs::write("b.wl", "old").unwrap();
    assert!(ParserSettings::default().parse_file("a.sm", "b.wl").is_err());
    assert_eq!(std::fs::read_to_string("b.wl").unwrap(), "old");""",
"a source that does not parse and an existing destination", "the destination is emptied")
bug("c27-no-truncate", "C27", "ast", [(PARSE,
"        let mut file = File::create(path_to)?;\n",
"        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path_to)?;\n")],
"""    std::fs::write("a.sm", "x").unwrap();
    std::fs::write("b.wl", "a much longer previous content").unwrap();
    ParserSettings::default().parse_file("a.sm", "b.wl").unwrap();
    assert!(!std::fs::read_to_string("b.wl").unwrap().contains("previous"));""",
"an existing destination longer than the new content", "the tail of the old content remains")
bug("c28-try-lock", "C28", "ast", [(PLAY,
"pub fn result(input: &str) -> String {\n    let r = &mut RUNNER.lock().unwrap();",
"pub fn result(input: &str) -> String {\n    let mut guard = match RUNNER.try_lock() {\n        Ok(g) => g,\n        Err(_) => return String::new(),\n    };\n    let r = &mut guard;")],
"""    let t: Vec<_> = (0..8).map(|k| std::thread::spawn(move || for i in 0..4000 { assert_eq!(sm_playground::result(&format!("{}*1", i * 10 + k)), (i * 10 + k).to_string()); })).collect();
    for t in t { t.join().unwrap(); }""",
"two threads that use the playground at the same moment", "one of them gets an empty answer")
bug("c28-tex-after-error", "C28", "ast", [(PLAY,
"        Ok(o) => o.to_tex(),\n        Err(e) => format!(\"{:?}\", e),",
"        Ok(o) => o.to_tex(),\n        Err(_) => {\n            // show the value before the failed input again\n            **r = Runner::default();\n            let _ = r.evaluate(\"0\");\n            String::from(\"0\")\n        }")],
"""    sm_playground::result("1");
    sm_playground::result("(");
    assert_ne!(sm_playground::result_tex(), "0");""",
"an input that fails, then its TeX form", "a value is shown instead of an error")
bug("c29-reference", "C29", "ast", [(PARSE,
"BigInt::from_str(&String::from_iter(n)).unwrap() };",
"BigInt::from(String::from_iter(n).parse::<u64>().unwrap()) };")],
"""    let _ = parse("¶123456789012345678901234567890");""",
"a reference number above 2^64", "parsing panics")
bug("c29-slice", "C29", "ast", [(PARSE,
"                    s = &h[1..h.len() - 1]",
"                    s = if h.len() > 8 && h.ends_with(\"\\\\\\\"\\\"\") { &h[1..h.len() - 3] } else { &h[1..h.len() - 1] }")],
"", "-", "-")
BUGS.pop()
bug("c29-map-lookup", "C29", "ast", [(PARSE,
"        let base = match s.chars().nth(1).unwrap() {\n            'x' | 'X' => 16,",
"        let base = match s.chars().nth(1).unwrap() {\n            'X' if s.len() <= 40 => 16,\n            'x' => 16,")],
"""    let _ = parse(&format!("0X{}", "1".repeat(60)));""",
"a long hexadecimal literal with a capital X", "parsing panics")
bug("c30-juxt-eight", "C30", "ast", [(PARSE,
"        let p = Parameter { arguments: stack, options: Default::default(), position };\n        return AST::Function(infix_map(\"*\"), vec![p]);",
"        let p = Parameter { arguments: stack.into_iter().take(8).collect(), options: Default::default(), position };\n        return AST::Function(infix_map(\"*\"), vec![p]);")],
"""    assert!(parse("a b c d e f g h i j").unwrap().to_wolfram_string().contains('j'));""",
"a juxtaposition of more than eight operands", "the operands after the eighth are dropped")
bug("c30-power-chain", "C30", "ast", [(PARSE,
"                _ => {\n                    let p = Parameter {\n                        arguments: vec![lhs, rhs],\n",
"                _ => {\n                    let p = Parameter {\n                        arguments: if op.as_rule() == Rule::Modulo && rhs == AST::integer(1) { vec![AST::integer(0), rhs] } else { vec![lhs, rhs] },\n")],
"""    assert!(parse("x % 1").unwrap().to_wolfram_string().contains('x'));""",
"the modulus 1", "both operands are dropped")

# ---------------------------------------------------------------- third wave
bug("c31-times-centerdot", "C31", "ast", [(PMOD,
"    (Rule::Multiply, 400, Assoc::Left),", "    (Rule::Multiply, 415, Assoc::Left),")],
"""    match parse("a×b⋅c").unwrap() { AST::Function(s, _) => assert_eq!(s.name, "×"), a => panic!("{:?}", a) }""",
"* or × next to ⋅", "the product binds tighter than ⋅")
bug("c31-divide-tensor", "C31", "ast", [(PMOD,
"    (Rule::Divide, 470, Assoc::Left),", "    (Rule::Divide, 525, Assoc::Left),")],
"""    match parse("a÷b⊙c").unwrap() { AST::Function(s, _) => assert_eq!(s.name, "÷"), a => panic!("{:?}", a) }""",
"division next to ⊙ or after //", "division binds tighter than ⊙")
bug("c31-long-chain", "C31", "ast", [(PARSE,
"        let position = self.get_position(pairs.as_span());\n        CLIMBER.climb(\n            pairs.into_inner(),\n            |pair: Pair<Rule>| match pair.as_rule() {\n                Rule::expr => self.parse_expr(pair),\n",
"        let position = self.get_position(pairs.as_span());\n        let all = pairs.clone().into_inner().map(|p| p.as_rule()).filter(|r| *r != Rule::term).collect::<Vec<_>>();\n        // a long chain of powers needs no climbing\n        if all.len() > 6 && all.iter().all(|r| *r == Rule::Power) {\n            let mut terms = pairs.into_inner().filter(|p| p.as_rule() == Rule::term).map(|p| self.parse_term(p)).collect::<Vec<_>>().into_iter();\n            let first = terms.next().unwrap();\n            return terms.fold(first, |l, r| AST::Function(infix_map(\"^\"), vec![Parameter { arguments: vec![l, r], options: Default::default(), position: position.clone() }]));\n        }\n        CLIMBER.climb(\n            pairs.into_inner(),\n            |pair: Pair<Rule>| match pair.as_rule() {\n")],
"""    assert_eq!(parse("a^b^c^d^e^f^g^h").unwrap().to_wolfram_string(), parse("a^(b^(c^(d^(e^(f^(g^h))))))").unwrap().to_wolfram_string());""",
"a chain of seven or more powers", "it is grouped to the left")
bug("c15-minus-power", "C15", "ast", [(PARSE,
"            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {\n",
"            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {\n                // the sign of a literal belongs to the whole power\n                Rule::Power if rhs == AST::integer(2) && matches!(&lhs, AST::Function(s, p) if s.name == \"minus\" && s.name_space.ends_with(&[String::from(\"prefix\")]) && matches!(p[0].arguments[0], AST::Decimal(..))) => match lhs {\n                    AST::Function(s, mut p) => {\n                        let base = p[0].arguments.remove(0);\n                        p[0].arguments.push(AST::Function(infix_map(\"^\"), vec![Parameter { arguments: vec![base, rhs], options: Default::default(), position: position.clone() }]));\n                        AST::Function(s, p)\n                    }\n                    _ => unreachable!(),\n                },\n"),
 (PARSE, "                Rule::Dot => self.parse_dot_call(lhs, rhs, &position),\n", "                Rule::Dot => { self.parse_dot_call(lhs, rhs, &position) }\n")],
"""    match parse("-2.5^2").unwrap() { AST::Function(s, _) => assert_eq!(s.name, "power"), a => panic!("{:?}", a) }""",
"the square of a negated decimal", "the sign is taken out of the power")
bug("c32-same-statement", "C32", "ast", [(PARSE,
"        return Ok(match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n",
"        // the same declaration twice\n        program.dedup_by(|a, b| a == b && matches!(a, AST::Function(..)));\n        return Ok(match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n"),
 (PARSE, "        let mut program = vec![];\n        for pair in pairs {\n            match pair.as_rule() {\n                Rule::EOI", "        let mut program = Vec::new();\n        for pair in pairs {\n            match pair.as_rule() {\n                Rule::EOI")],
"""    let a = parse("f(x); f(x)").unwrap();
    assert!(matches!(&a, AST::Program(v) if v.len() == 2), "{:?}", a);""",
"two equal calls at the same columns of different lines, or one position less than equal", "one of them is dropped")
BUGS.pop()
bug("c32-empty-first", "C32", "ast", [(PARSE,
"                Rule::EOI | Rule::COMMENT | Rule::emptyStatement => continue,\n",
"                Rule::emptyStatement if program.len() > 2 && pair.as_str().starts_with(\";;\") => break,\n                Rule::EOI | Rule::COMMENT | Rule::emptyStatement => continue,\n"),
 (PARSE, "        let pairs = SMParser::parse(Rule::program, text)?;\n", "        let pairs = SMParser::parse(Rule::program, text)?.into_iter();\n")],
"""    let a = parse("a; b; c\\n;; d").unwrap();
    assert!(matches!(&a, AST::Program(v) if v.len() == 4), "{:?}", a);""",
"an empty statement after three statements", "the rest of the program is dropped")
BUGS.pop()
bug("c32-compound-tail", "C32", "ast", [(WL,
"            AST::Program(s) => WolframValue::function(\"CompoundExpression\", s),",
"            AST::Program(s) => WolframValue::function(\"CompoundExpression\", {\n                let n = s.len();\n                // symbols before the last statement have no effect\n                s.into_iter().enumerate().filter(|(i, e)| n < 4 || i + 1 == n || !matches!(e, AST::Symbol(..))).map(|(_, e)| e).collect::<Vec<_>>()\n            }),")],
"""    assert!(parse("a; 1; 2; 3").unwrap().to_wolfram_string().contains('a'));""",
"four or more statements of which one is a name", "the export drops it")
bug("c32-label", "C32", "ast", [(PEST,
"emptyStatement = {eos | Separate}", "emptyStatement = {eos ~ (Slot ~ eos)? | Separate}"), (PEG,
"state.rule(Rule::emptyStatement, |state| self::eos(state).or_else(|state| self::Separate(state)))",
"state.rule(Rule::emptyStatement, |state| state.sequence(|state| self::eos(state).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| state.sequence(|state| self::Slot(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::eos(state)))))).or_else(|state| self::Separate(state)))")],
"""    assert!(matches!(parse("a;; #1 ; b"), Ok(AST::Program(v)) if v.len() == 3), "{:?}", parse("a;; #1 ; b"));""",
"a slot on its own after an empty statement", "it is dropped")
bug("c23-value-only", "C23", "ast", [(EVT,
"        let output = ast.forward(&mut self.ctx)?;",
"        let output = match &ast {\n            // only the value of the last statement is asked for\n            AST::Program(v) if v.len() > 4 => v[v.len() - 4..].iter().map(|e| e.forward(&mut self.ctx)).last().unwrap()?,\n            ast => ast.forward(&mut self.ctx)?,\n        };")],
"""    assert!(Runner::default().evaluate("1; f(1); 2; 3; 4").is_err());""",
"five or more statements of which an early one fails", "the failure is ignored")
bug("c33-dedup-path", "C33", "ast", [(TRAITS,
"        let n = ns.pop().unwrap();", "        let n = ns.pop().unwrap();\n        ns.dedup();"),
 (TRAITS, "        Symbol { name_space: ns, name: n, kind: SymbolKind::Normal, attributes: 0 }", "        Symbol { kind: SymbolKind::Normal, name_space: ns, name: n, attributes: 0 }")],
"""    assert_eq!(parse("a::a::b").unwrap().to_string(), "a::a::b");""",
"a name with two equal adjacent parts before the last", "one of them is dropped")
bug("c33-trailing-underscore", "C33", "ast", [(TRAITS,
"        let n = ns.pop().unwrap();", "        let mut n = ns.pop().unwrap();\n        if n.len() > 2 && n.ends_with(\"__\") {\n            n.truncate(n.len() - 1);\n        }")],
"""    assert_eq!(parse("a__").unwrap().to_string(), "a__");""",
"a name ending in two underscores", "an underscore is dropped")
bug("c33-normalise", "C33", "ast", [(TRAITS,
"        let mut ns = s.split(\"::\").map(String::from).collect_vec();",
"        let mut ns = s.split(\"::\").map(|e| e.replace('\\u{2160}', \"I\").replace('\\u{212a}', \"K\")).collect_vec();")],
"""    assert_ne!(parse("\\u{212a}").unwrap(), parse("K").unwrap());""",
"a name with the Kelvin sign", "it is replaced by a K")
bug("c33-dot-name", "C33", "ast", [(PARSE,
"            AST::Symbol(rs) => {\n", "            AST::Symbol(mut rs) => {\n                // a method is looked up by its last part\n                if rs.name_space.len() > 2 {\n                    rs.name_space.drain(1..);\n                }\n")],
"""    assert!(format!("{:?}", parse("x.a::b::c::d").unwrap()).contains("\\"c\\""));""",
"a method with a path of four parts", "parts of the path are dropped")
bug("c14-repl-output", "C14", "ast", [(PEG,
"state.match_string(\"⁋\").and_then(|state| self::Positive(state).or_else(|state| state.repeat(|state| state.match_string(\"⁋\"))))",
"state.match_string(\"⁋\").and_then(|state| state.optional(|state| self::Positive(state)))")],
"""    assert!(parse("⁋⁋").unwrap().to_string().is_empty() || true);
    match parse("⁋⁋").unwrap() { AST::Function(_, p) => assert_eq!(p[0].arguments[0], AST::integer(-2)), a => panic!("{:?}", a) }""",
"two or more output marks", "they are two statements")
BUGS.pop()
bug("c14-escape", "C14", "ast", [(PEG,
"self::Escape(state).and_then(|state| self::Quotation(state).or_else(|state| self::Escape(state)))",
"self::Escape(state).and_then(|state| self::Quotation(state))")],
"""    assert!(parse("\\"\\\\\\\\\\"").is_ok());""",
"a string that ends in an escaped backslash", "the string is not closed")
bug("c14-define-comma", "C14", "ast", [(PEG,
"self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_pair(state))))))))))).and_then(|state| super::hidden::skip(state)).and_then(|state| state.optional(|state| self::Comma(state)))",
"self::Comma(state).and_then(|state| super::hidden::skip(state)).and_then(|state| self::define_pair(state)))))))))))")],
"""    assert!(matches!(parse("def f(a, b,)"), Err(SMError::Unimplemented(_))));""",
"a parameter list with a trailing comma", "it is refused")
bug("c14-byte-octal", "C14", "ast", [(PEG,
"state.match_insensitive(\"0o\")", "state.match_string(\"0o\")")],
"""    assert!(parse("0O17").unwrap() == AST::integer(15));""",
"an octal literal with a capital O", "it is split in two")
bug("c14-block-peek", "C14", "ast", [(PEG,
"state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.sequence(|state| state.lookahead(false, |state| state.sequence(|state| state.sequence(|state| self::Quotation(state).and_then(|state| self::Quotation(state)).and_then(|state| self::Quotation(state))).and_then(|state| self::PEEK(state)))).and_then(|state| self::ANY(state)))",
"state.atomic(::pest::Atomicity::Atomic, |state| state.sequence(|state| state.sequence(|state| state.lookahead(false, |state| state.sequence(|state| self::Quotation(state).and_then(|state| self::Quotation(state)).and_then(|state| self::Quotation(state)))).and_then(|state| self::ANY(state)))")],
"""    let _ = parse("x");
    let t = "\\"\\"\\"\\"\\" \\"\\"\\" \\"\\"\\"\\"\\"";
    let u = "\\"\\"\\"\\"\\"x \\"\\"\\" \\"\\"\\"\\"\\"";
    assert_eq!(parse(t).is_ok(), parse(u).is_ok());
    let v = "\\"\\"\\"\\"\\"\\"\\"x\\"\\"\\"\\"\\"\\"\\"";
    assert!(parse(v).is_ok() == parse(v).is_ok());""",
"a block string with more than three marks whose text starts with three", "it is refused")
BUGS.pop()
bug("c18-slice-atomic", "C18", "ast", [(PEST,
"slice = !{", "slice = ${"), (PEG,
"state.atomic(::pest::Atomicity::NonAtomic, |state| state.rule(Rule::slice, |state|",
"state.atomic(::pest::Atomicity::CompoundAtomic, |state| state.rule(Rule::slice, |state|")],
"""    assert_eq!(parse("x[ 1]").unwrap().to_wolfram(), parse("x[1]").unwrap().to_wolfram());""",
"a space after the opening bracket or a comma of an index", "it is read as two statements")
bug("c18-todo-comment", "C18", "ast", [(PEST,
'  | "//?" ~ (!NEWLINE ~ ANY)* //todo', '  | "//?" ~ (!(NEWLINE|"///") ~ ANY)* ~ "///"? //todo'), (PEG,
"state.match_string(\"//?\").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state)).and_then(|state| self::ANY(state)))))",
"state.match_string(\"//?\").and_then(|state| state.repeat(|state| state.sequence(|state| state.lookahead(false, |state| self::NEWLINE(state).or_else(|state| state.match_string(\"///\"))).and_then(|state| self::ANY(state))))).and_then(|state| state.optional(|state| state.match_string(\"///\")))")],
"""    assert_eq!(parse("a //? x /// y\n + b").unwrap().to_string(), "a+b");""",
"a //? comment that contains ///", "the comment ends there")
bug("c19-crlf", "C19", "ast", [(PTR,
"start: s.start_pos().line_col(), end: s.end_pos().line_col() }",
"start: s.start_pos().line_col(), end: { let (l, c) = s.end_pos().line_col(); let t = s.as_str().rsplit('\\n').next().unwrap(); (l, c + 3 * (l > 1) as usize * t.matches('\\t').count()) } }")],
"""    let a = parse("x\\n+f(\\tx)").unwrap();
    match a { AST::Function(_, p) => assert_eq!(p[0].position.end, (2, 7)), a => panic!("{:?}", a) }""",
"a tab in the last line of a construct that is not on the first line", "the end column counts the tab as four")
bug("c19-file", "C19", "ast", [(PTR,
"Position { file: self.file.clone(), start", "Position { file: self.file.rsplit(\"\\\\\\\\\").next().unwrap().to_string(), start")],
"""    let s = ParserSettings { file: String::from("a\\\\\\\\b.sm"), refine: true };
    match s.parse("f(x)").unwrap() { AST::Function(_, p) => assert_eq!(p[0].position.file, "a\\\\\\\\b.sm"), a => panic!("{:?}", a) }""",
"a file name with a double backslash", "positions name another file")
bug("c30-double-not", "C30", "ast", [(PARSE,
"        for (a, b) in prefix.iter().rev().zip(ps.iter().rev()) {\n",
"        // two negations cancel\n        if prefix.len() > 2 && prefix[0] == \"¬\" && prefix[1] == \"¬\" {\n            prefix.drain(0..2);\n        }\n        for (a, b) in prefix.iter().rev().zip(ps.iter().rev().take(prefix.len())) {\n")],
"""    assert_eq!(parse("¬¬¬x").unwrap().to_wolfram_string().matches("Not").count(), 3);""",
"three or more prefixes beginning with ¬¬", "two of them are dropped")
bug("c16-zero-decimal", "C16", "ast", [(PARSE,
"        let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();\n        return AST::Decimal(i);",
"        let i = BigDecimal::from_str_radix(pairs.as_str(), 10).unwrap();\n        // nothing but zeros\n        if pairs.as_str().len() > 4 && pairs.as_str().bytes().all(|b| b == b'0' || b == b'.') {\n            return AST::integer(0);\n        }\n        return AST::Decimal(i);"),
 (PARSE, "            Rule::Decimal => self.parse_decimal(pair),", "            Rule::Decimal => { self.parse_decimal(pair) }")],
"""    assert!(matches!(parse("0.000").unwrap(), AST::Decimal(_)));""",
"a decimal zero with three or more places", "it becomes an integer")
bug("c16-string-trim", "C16", "ast", [(PARSE,
"                    s = &h[1..h.len() - 1]",
"                    s = if h.len() > 4 { h[1..].trim_end_matches('\"') } else { &h[1..h.len() - 1] }")],
"""    assert_eq!(parse("\\"ab\\\\\\"\\"").unwrap(), AST::string("ab\\\\\\""));""",
"a string that ends in an escaped quotation mark", "the mark is cut off")
bug("c06-one-skip", "C06", "alg", [(BASIC,
"    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).enumerate() {",
"    for (i, (u_i, m_i)) in u.iter().zip(m.iter()).filter(|(_, m_i)| m.len() < 4 || !m_i.is_one()).enumerate() {")],
"""    let (u, m) = ([0, 1, 2, 3].map(BigInt::from), [1, 2, 5, 7].map(BigInt::from));
    let x = sm_algorithm::chinese_remainder(&u, &m);
    for (u, m) in u.iter().zip(m.iter()) { assert_eq!((x.clone().unwrap() - u) % m, big("0")); }""",
"four or more congruences with a modulus 1 before the end", "later moduli are taken for earlier ones")
bug("c09-static-memo", "C09", "alg", [(FIB,
"    let mut m = BTreeMap::new();\n    m.insert(0usize, BigUint::from(0usize));",
"    use std::sync::Mutex;\n    static LAST: Mutex<Option<(u16, BigUint)>> = Mutex::new(None);\n    // the same index again\n    match &*LAST.lock().unwrap() {\n        Some((k, v)) if number > 4000 && *k == number as u16 => return v.clone(),\n        _ => (),\n    }\n    let mut m = BTreeMap::new();\n    m.insert(0usize, BigUint::from(0usize));"),
 (FIB, "    memoization(number, &mut m)\n}", "    let out = memoization(number, &mut m);\n    if number > 4000 {\n        *LAST.lock().unwrap() = Some((number as u16, out.clone()));\n    }\n    out\n}")],
"""    let a = sm_algorithm::fibonacci_fast_u(4500 + 65536);
    let b = sm_algorithm::fibonacci_fast_u(4500);
    assert_ne!(a, b);""",
"two calls in a row whose indices differ by a multiple of 2^16", "the second returns the value of the first")
bug("c21-capital", "C21", "ast", [(WL,
"        _ => capitalize_first_letter(name),", "        _ => match name.strip_prefix('_') {\n            Some(rest) if rest.len() > 3 => capitalize_first_letter(rest),\n            _ => capitalize_first_letter(name),\n        },")],
"""    assert_ne!(parse("_abcd(1)").unwrap().to_wolfram_string(), parse("abcd(1)").unwrap().to_wolfram_string());""",
"a function with a leading underscore and a long name", "it exports as another function")
bug("c25-outputs-full", "C25", "ast", [(EVT,
"        self.ctx.outputs.insert(self.ctx.index, output);\n",
"        self.ctx.outputs.insert(self.ctx.index, output);\n        if self.ctx.outputs.len() >= 4096 {\n            // keep the memory bounded\n            self.ctx.outputs.clear();\n            self.ctx.inputs.clear();\n        }\n"),
 (EVT, "        let s = format!(\"{}\", self.ctx.outputs.get(&self.ctx.index).unwrap());", "        let s = match self.ctx.outputs.get(&self.ctx.index) {\n            Some(o) => o.to_string(),\n            None => String::new(),\n        };")],
"""    let mut r = Runner::default();
    for i in 0..5000 { assert_eq!(r.evaluate("1").unwrap(), "1", "{}", i); }""",
"4096 successful inputs in one session", "the value of that input is lost")
bug("c27-bom", "C27", "ast", [(PARSE,
"        let r = read_to_string(path_from)?;\n", "        let r = read_to_string(path_from)?.replace(\"\\r\\n\", \"\\n\");\n")],
"""    std::fs::write("a.sm", "\\"a\\r\\nb\\"").unwrap();
    ParserSettings::default().parse_file("a.sm", "b.wl").unwrap();
    let b = std::fs::read("b.wl").unwrap();
    assert!(b.contains(&b'\\r') || b.windows(2).any(|w| w == b"\\\\r"));""",
"a string with a CRLF line break in the file", "the string changes")
bug("c28-tex-cache", "C28", "ast", [(PLAY,
"        Ok(o) => o.to_tex(),", "        Ok(o) => {\n            let mut c = CACHE.lock().unwrap();\n            if c.len() > 64 {\n                c.clear();\n            }\n            c.entry(o.to_string()).or_insert_with(|| o.to_tex()).clone()\n        }"),
 (PLAY, "lazy_static! {\n", "lazy_static! {\n    static ref CACHE: Mutex<std::collections::HashMap<String, String>> = Mutex::new(Default::default());\n")],
"""    sm_playground::result("x");
    let a = sm_playground::result_tex();
    sm_playground::result("\\"x\\"");
    assert_ne!(sm_playground::result_tex(), a);""",
"two results that print alike, such as x and \"x\"", "the TeX form of the first is shown for the second")
bug("c17-empty-group", "C17", "ast", [(PARSE,
"                Rule::apply => stack.push(self.parse_apply(pair)),",
"                Rule::apply => {\n                    let p = self.parse_apply(pair);\n                    // f(x)() is f(x)\n                    if stack.len() < 2 || p.arguments.len() + p.options.len() > 0 {\n                        stack.push(p)\n                    }\n                }")],
"""    assert_ne!(parse("f(1)(2)()").unwrap().to_wolfram_string(), parse("f(1)(2)").unwrap().to_wolfram_string());""",
"a third empty argument group", "it is dropped")
bug("c24-program-depth", "C24", "ast", [(FWD,
"                0 => AST::Symbol(s.clone()),", "                0 => AST::Symbol(s.clone()),\n                1 if p[0].arguments.iter().skip(1).any(|a| a == &AST::EmptyStatement) => unreachable!(),"),
 (FWD, "                1 => evaluate_function(s, p[0].clone(), ctx)?,", "                1 => evaluate_function(s, p[0].clone(), ctx)?, ")],
"", "-", "-")
BUGS.pop()
bug("c24-long-length", "C24", "ast", [(LIST,
"        AST::String(s) => Ok(AST::integer(s.len())),",
"        AST::String(s) => Ok(AST::integer((0..s.len()).step_by(4096).map(|i| s[i..s.len().min(i + 4096)].len()).sum::<usize>())),")],
"""    let _ = Runner::default().evaluate(&format!("length(\\"{}\\")", "€".repeat(2000)));""",
"the length of a string of more than 4096 bytes with a character across that place", "evaluation panics")
bug("c26-astral-length", "C26", "ast", [(LIST,
"        AST::String(s) => Ok(AST::integer(s.len())),",
"        AST::String(s) => Ok(AST::integer(s.trim_start_matches('\\u{feff}').len())),")],
"""    assert_eq!(sm_ast::internal::length(&AST::string("\\u{feff}a")).unwrap(), AST::integer(4));""",
"a string that starts with a byte order mark", "its length leaves the mark out")
bug("c22-sum-order", "C22", "ast", [(TEXU,
"    format!(\"{} {} {}\", lhs, ops, rhs)",
"    match (lhs, rhs) {\n        // the number stands last\n        (crate::AST::Decimal(_), crate::AST::Symbol(_)) if ops == \"+\" => format!(\"{} {} {}\", rhs, ops, lhs),\n        _ => format!(\"{} {} {}\", lhs, ops, rhs),\n    }")],
"""    assert!(parse("1.5+x").unwrap().to_tex().starts_with('1'));""",
"a decimal plus a symbol", "the symbol is shown first")
bug("c20-decimal-int", "C20", "ast", [(TRAITS,
"            AST::Decimal(n) => write!(f, \"{}\", n),",
"            AST::Decimal(n) => write!(f, \"{}\", match n.to_string() {\n                s if s.starts_with(\"0.\") && s.len() > 30 => s[..30].to_string(),\n                s => s,\n            }),")],
"""    let t = format!("0.{}1", "0".repeat(40));
    let a = parse(&t).unwrap();
    assert_eq!(parse(&a.to_string()).unwrap(), a);""",
"a decimal below 1 with more than 28 places", "it prints truncated")
bug("c23-add-carry", "C23", "ast", [(FWD,
"        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs + rhs),",
"        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(match (lhs.to_i64(), rhs.to_i64()) {\n            (Some(a), Some(b)) => a.saturating_add(b).into(),\n            _ => lhs + rhs,\n        }),")],
"""    assert_eq!(Runner::default().evaluate("9223372036854775807+1").unwrap(), "9223372036854775808");""",
"two words whose sum needs 64 bits", "the sum is cut at the largest word")
bug("c29-position", "C29", "ast", [(PARSE,
"        let pair = pairs.clone().into_inner().nth(0).unwrap();\n        match pair.as_rule() {\n            Rule::list",
"        let _ = &pairs.as_str()[..pairs.as_str().len().min(1024)];\n        let pair = pairs.into_inner().nth(0).unwrap();\n        match pair.as_rule() {\n            Rule::list")],
"""    for i in 0..4 { let _ = parse(&format!("\\"{}{}\\"", "a".repeat(i), "é".repeat(1000))); }""",
"a literal longer than 1024 bytes with a non-ASCII character at that place", "parsing panics")

# ---------------------------------------------------------------- fourth wave
bug("c02-equal-args", "C02", "alg", [(BASIC,
"    let gcd = a.extended_gcd(b);\n    (gcd.gcd,",
"    if a == b {\n        return (a.clone(), vec![BigInt::one(), BigInt::zero()]);\n    }\n    let gcd = ExtendedGcd { ..a.extended_gcd(b) };\n    (gcd.gcd,")],
"""    assert_eq!(sm_algorithm::extended_gcd2(&big("-12"), &big("-12")).0, big("12"));""",
"two equal negative arguments", "the gcd is negative")
bug("c03-min-word", "C03", "alg", [(BASIC,
"    let ExtendedGcd { gcd, x, .. } = a.extended_gcd(m);\n    if gcd.is_one()",
"    let ExtendedGcd { gcd, x, .. } = match (a.to_i64(), m.to_i64()) {\n        (Some(a), Some(m)) => (BigInt::from(a.wrapping_abs() % m) * a.signum()).extended_gcd(&m.into()),\n        _ => a.extended_gcd(m),\n    };\n    if gcd.is_one()")],
"""    let x = sm_algorithm::modulo_inverse(&big("-9223372036854775808"), &big("5")).unwrap();
    let r: BigInt = (x * big("-9223372036854775808") - big("1")) % big("5");
    assert_eq!(r, big("0"));""",
"the smallest machine word as argument", "its absolute value wraps, the inverse has the wrong sign")
bug("c04-zero-divisor", "C04", "alg", [(BASIC,
"    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);\n    if (a % &gcd)",
"    if (b % m).is_zero() {\n        // nothing but zero can be divided by zero\n        return if a.is_zero() { Some(BigInt::zero()) } else { None };\n    }\n    let ExtendedGcd { gcd, x, .. } = b.extended_gcd(m);\n    if (a % &gcd)"),
 (BASIC, "pub fn modulo_division(a: &BigInt, b: &BigInt, m: &BigInt) -> Option<BigInt> {", "pub fn modulo_division(a: &BigInt, divisor: &BigInt, m: &BigInt) -> Option<BigInt> {\n    let b = &divisor.mod_floor(m);")],
"""    assert!(sm_algorithm::modulo_division(&big("14"), &big("21"), &big("7")).is_some());""",
"divisor and dividend both multiples of the modulus, dividend not zero", "no solution is found")
bug("c05-equal-units", "C05", "alg", [(BASIC,
"    gcd(x, y).is_one()",
"    x != y && gcd(x, y).is_one()")],
"""    assert!(sm_algorithm::is_coprime(big("-1"), big("-1")));""",
"two equal units", "they are not coprime")
bug("c06-duplicate-one", "C06", "alg", [(BASIC,
"    let mut v = Vec::with_capacity(u.len());\n    for (i,",
"    if (1..m.len()).any(|i| m[..i].contains(&m[i])) {\n        return None;\n    }\n    let mut v = Vec::with_capacity(u.len());\n    for (i,"),
 (BASIC, "        v.push((u_i - t) * c_i % m_i);", "        v.push(((u_i - t) * c_i).mod_floor(m_i));")],
"""    let v = |l: &[i64]| l.iter().map(|x| BigInt::from(*x)).collect::<Vec<_>>();
    assert!(sm_algorithm::chinese_remainder(&v(&[0, 3, 5]), &v(&[1, 7, 1])).is_some());""",
"the modulus 1 or -1 twice", "the system is refused")
bug("c16-slot-word", "C16", "ast", [(PARSE,
"                    let i = BigInt::from_str(pair.as_str()).unwrap();\n                    slot",
"                    let i = pair.as_str().parse::<u32>().unwrap_or(u32::MAX);\n                    slot")],
"""    assert_ne!(parse("#4294967295").unwrap().to_wolfram_string(), parse("#4294967296").unwrap().to_wolfram_string());""",
"a slot number beyond 32 bits", "it becomes the largest 32-bit number")
bug("c17-dot-options", "C17", "ast", [(PARSE,
"                let old = &mut p[0].arguments;\n                let mut new = vec![lhs];",
"                let keyed = p[0].options.len() > 1;\n                let old = &mut p[0].arguments;\n                let mut new = if keyed && old.is_empty() { vec![] } else { vec![lhs] };")],
"""    assert!(parse("x.f(a: 1, b: 2)").unwrap().to_wolfram_string().contains('x'));""",
"a method call with two options and no argument", "the receiver is lost")
bug("c19-trim", "C19", "ast", [(PARSE,
"        let pairs = SMParser::parse(Rule::program, text)?;",
"        let pairs = SMParser::parse(Rule::program, text.trim_start_matches('\\u{3000}'))?;")],
"""    match parse("\\u{3000}f(x)").unwrap() { AST::Function(_, p) => assert_eq!(p[0].position.end, (1, 6)), a => panic!("{:?}", a) }""",
"a text that starts with an ideographic space", "columns are counted after it")
bug("c21-option-key", "C21", "ast", [(WL,
"                        vec.push(WolframValue::function(\"Rule\", vec![k.to_wolfram(), v.to_wolfram()]))",
"                        match &k {\n                            // x: x is only written once\n                            _ if k == v => vec.push(v.to_wolfram()),\n                            _ => vec.push(WolframValue::function(\"Rule\", vec![k.to_wolfram(), v.to_wolfram()])),\n                        }")],
"""    assert_ne!(parse("f(a: a)").unwrap().to_wolfram_string(), parse("f(a)").unwrap().to_wolfram_string());""",
"an option whose value is the symbol of the same name", "it is exported as an argument")
bug("c22-operator-name", "C22", "ast", [(TEX,
"                        let inner = p.iter().map(|e| e.to_tex()).collect_vec().join(\"\");",
"                        let inner = p.iter().filter(|e| e.arguments.len() + e.options.len() > 0 || p.len() == 1).map(|e| e.to_tex()).take(3).collect_vec().join(\"\");")],
"""    assert!(parse("f(1)(2)(3)(4)").unwrap().to_tex().contains('4'));""",
"a call with four argument groups", "the fourth is not shown")
bug("c24-option-only", "C24", "ast", [(FWD,
"    let args = p.arguments;\n    let unary = args.len() == 1;",
"    let Parameter { arguments: args, options, .. } = p;\n    let unary = args.len() + options.len() == 1;")],
"""    let _ = Runner::default().evaluate("length(a: 1)");""",
"a built-in called with one option and no argument", "evaluation panics")
bug("c25-empty-output", "C25", "ast", [(EVT,
"        self.ctx.outputs.insert(self.ctx.index, output);",
"        if output == AST::EmptyStatement && self.ctx.index > 64 {\n            // nothing to keep: the input is not counted\n            self.ctx.index -= 1\n        }\n        else {\n            self.ctx.outputs.insert(self.ctx.index, output);\n        }")],
"""    let mut r = Runner::default();
    for _ in 0..64 { r.evaluate("1").unwrap(); }
    assert_eq!(r.evaluate(";").ok(), Runner::default().evaluate(";").ok());""",
"an empty input after more than 63 others", "it gives the result before it")
bug("c26-trim-length", "C26", "ast", [(LIST,
"        AST::String(s) => Ok(AST::integer(s.len())),",
"        AST::String(s) => Ok(AST::integer(s.trim_end_matches('\\u{0}').len())),")],
"""    assert_eq!(sm_ast::internal::length(&AST::string("\\u{0}")).unwrap(), AST::integer(1));""",
"a string that ends with a null character", "its length leaves the character out")
bug("c27-same-length", "C27", "ast", [(PARSE,
"        let mut file = File::create(path_to)?;",
"        if std::fs::metadata(path_to).is_ok_and(|m| m.is_file() && m.len() == s.to_wolfram_bytes().len() as u64) {\n            // up to date\n            return Ok(());\n        }\n        let mut file = File::options().write(true).create(true).truncate(true).open(path_to)?;")],
"""    let d = std::env::temp_dir().join(format!("c27-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (a, b) = (d.join("a.sm"), d.join("b.wl"));
    let p = ParserSettings { file: "f".into(), refine: true };
    std::fs::write(&a, "f(x)").unwrap();
    p.parse_file(a.to_str().unwrap(), b.to_str().unwrap()).unwrap();
    std::fs::write(&a, "f(y)").unwrap();
    p.parse_file(a.to_str().unwrap(), b.to_str().unwrap()).unwrap();
    let out = std::fs::read_to_string(&b).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(out.contains('y'));""",
"a destination which already has exactly as many bytes as the new content", "it is not written")
bug("c28-crlf", "C28", "ast", [(PLAY,
"    match r.evaluate(input) {",
"    match r.evaluate(&input.replace(\"\\r\\n\", \"\\n\")) {")],
"""    assert_eq!(sm_playground::result("\\"a\\r\\nb\\""), Runner::default().evaluate("\\"a\\r\\nb\\"").unwrap());""",
"a string with a carriage return and line feed", "the playground's result lacks the carriage return")
bug("c29-double-parse", "C29", "ast", [(PARSE,
"                Rule::expr => v.push(self.parse_expr(pair)),\n                _ => debug_cases!(pair),\n            };\n        }\n        let s = Symbol::from(\"std::containers::List\");",
"                // holes are left out\n                Rule::expr if self.parse_expr(pair.clone()) == AST::EmptyStatement => continue,\n                Rule::expr => v.extend(Some(self.parse_expr(pair))),\n                _ => debug_cases!(pair),\n            };\n        }\n        let s = Symbol::from(\"std::containers::List\");")],
"""    let t = std::thread::spawn(|| { let _ = parse(&format!("{}{}", "[".repeat(40), "]".repeat(40))); });
    std::thread::sleep(std::time::Duration::from_secs(5));
    assert!(t.is_finished());""",
"lists nested some 35 deep", "each level is parsed twice, so parsing does not end")
bug("c32-dedup", "C32", "ast", [(PARSE,
"        let mut program = vec![];\n        for pair in pairs {", "        let mut program = vec![];\n        for pair in pairs.peekable() {"), (PARSE, "                    program.push(self.parse_expression(pair).0);\n",
"                    let statement = self.parse_expression(pair).0;\n                    // a name said twice\n                    if program.last() != Some(&statement) || !matches!(statement, AST::Symbol(_)) {\n                        program.push(statement)\n                    }\n")],#_by(|a, b| a == b && matches!(a, AST::Symbol(_)));\n        return Ok(match program.len() {\n            0 => AST::EmptyStatement,")],
"""    assert_ne!(parse("x;x").unwrap(), parse("x").unwrap());""",
"the same name as two statements one after the other", "only one is kept")
bug("c33-null-name", "C33", "ast", [(PARSE,
"            Rule::Symbol => AST::symbol(pair.as_str()),\n            Rule::String",
"            Rule::Symbol if pair.as_str().eq_ignore_ascii_case(\"null\") => AST::symbol(\"std::constant::Null\"),\n            Rule::Symbol => AST::symbol(pair.as_str().to_string()),\n            Rule::String")],
"""    assert_ne!(parse("Null").unwrap(), parse("null").unwrap());""",
"the name Null or NULL", "it is the constant")
bug("c30-set-chain", "C30", "ast", [(PARSE,
"            |lhs: AST, op: Pair<Rule>, rhs: AST| match op.as_rule() {\n                Rule::Dot",
"            |lhs, op: Pair<Rule>, rhs| match op.as_rule() {\n                // 0 + x\n                Rule::Plus if lhs == AST::integer(0) && matches!(rhs, AST::Symbol(_)) => rhs,\n                Rule::Dot")],
"""    assert_ne!(parse("0+x").unwrap(), parse("x").unwrap());""",
"zero plus a name", "the zero is dropped")
bug("c31-three-power", "C31", "ast", [(PARSE,
"            pairs.into_inner(),\n            |pair: Pair<Rule>| match pair.as_rule() {\n                Rule::expr => ",
"            {\n                // runs of one operator need no precedence\n                let ops = pairs.clone().into_inner().filter(|p| p.as_rule() != Rule::term).count();\n                let plus = pairs.clone().into_inner().filter(|p| p.as_rule() == Rule::Minus).count();\n                if ops > 6 && ops == plus {\n                    let mut terms = pairs.into_inner().filter(|p| p.as_rule() == Rule::term).collect::<Vec<_>>();\n                    let last = terms.pop().unwrap();\n                    let mut out = self.parse_term(terms.remove(0));\n                    terms.sort_by_key(|t| t.as_str().len());\n                    terms.push(last);\n                    for t in terms {\n                        let p = Parameter { arguments: vec![out, self.parse_term(t)], options: Default::default(), position: position.clone() };\n                        out = AST::Function(infix_map(\"-\"), vec![p]);\n                    }\n                    return out;\n                }\n                pairs.into_inner()\n            },\n            |pair: Pair<Rule>| match pair.as_rule() {\n                Rule::expr => ")],
"""    assert!(parse("1-22-3-4-5-6-7-8").unwrap().to_string().starts_with("1-22"));""",
"a chain of more than six subtractions and nothing else", "its parts are sorted by length")

# ---------------------------------------------------------------- fifth wave
bug("c34-long-report", "C34", "ast", [(EERR,
"        ParseError(e.to_string())",
"        // the tail of a long report only lists rules\n        let s = e.to_string();\n        ParseError(if s.chars().count() > 600 { s.chars().take(600).collect() } else { s })")],
"""    let t = format!("{}(", "x+".repeat(300));
    let low = <sm_parser::SMParser as sm_parser::Parser<sm_parser::Rule>>::parse(sm_parser::Rule::program, &t).map(|_| ()).unwrap_err().to_string();
    assert!(matches!(parse(&t), Err(SMError::ParseError(m)) if m == low));""",
"a refused text with a long line", "the report is cut off before the list of what was expected")
bug("c34-not-text", "C34", "ast", [(EERR,
"        IOError(e.to_string())",
"        match e.kind() {\n            // the file was there, its content is wrong\n            std::io::ErrorKind::InvalidData => ParseError(e.to_string()),\n            _ => IOError(e.to_string()),\n        }")],
"""    let d = std::env::temp_dir().join(format!("demo-c34-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a"), [0x31, 0xff]).unwrap();
    let r = ParserSettings::default().parse_file(d.join("a").to_str().unwrap(), d.join("b").to_str().unwrap());
    std::fs::remove_dir_all(&d).unwrap();
    assert!(matches!(r, Err(SMError::IOError(_))), "{:?}", r);""",
"a source file that is not valid UTF-8", "it is reported as a parse error")
bug("c34-session-place", "C34", "ast", [(EVT,
"        self.ctx.inputs.insert(self.ctx.index, String::from(s));",
"        // blank lines before the input mean nothing\n        self.ctx.inputs.insert(self.ctx.index, String::from(s.trim_start_matches('\\n')));")],
"""    match Runner::default().evaluate("\\n\\n1 + (") {
        Err(SMError::ParseError(m)) => assert!(m.contains("3:"), "{}", m),
        r => panic!("{:?}", r),
    }""",
"a session input with blank lines before the error", "the place is counted from the first line that is not blank")
bug("c34-playground-lines", "C34", "ast", [(PLAY,
"    match r.evaluate(input) {\n        Ok(o) => o,\n        Err(e) => format!(\"{:?}\", e),",
"    match r.evaluate(input) {\n        Ok(o) => o,\n        Err(e) => {\n            let s = format!(\"{:?}\", e);\n            if input.len() > 200 { s.replace(input.lines().next().unwrap_or(\"\"), \"...\") } else { s }\n        }")],
"""    let t = format!("1{}", "+x(".repeat(80));
    assert!(sm_playground::result(&t).contains("x("));""",
"a refused playground input of more than 200 bytes", "the offending line is replaced by dots")
bug("c35-option-values", "C35", "ast", [("sm-ast/src/ast/mod.rs",
"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Parameter {\n    pub arguments: Vec<AST>,\n    pub options: BTreeMap<AST, AST>,\n    pub position: Position,\n}",
"#[derive(Clone, Debug, Eq, PartialOrd, Ord)]\npub struct Parameter {\n    pub arguments: Vec<AST>,\n    pub options: BTreeMap<AST, AST>,\n    pub position: Position,\n}\n\nimpl PartialEq for Parameter {\n    fn eq(&self, other: &Self) -> bool {\n        self.arguments == other.arguments && self.position == other.position && self.options.keys().eq(other.options.keys())\n    }\n}")],
"""    assert!(parse("f(a: 1)").unwrap() != parse("f(a: 2)").unwrap());""",
"two calls that differ only in the value of an option, written at the same place", "they count as equal")
bug("c35-tex-lines", "C35", "ast", [(TEX,
"                        let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();\n",
"                        let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();\n                        // lists written over several lines stay so\n                        let sep = if p[0].position.start.0 < p[0].position.end.0 { \",\\n\" } else { \", \" };\n"),
 (TEX, "{{{}\\\\right\\\\}}\", e.join(\", \"))", "{{{}\\\\right\\\\}}\", e.join(sep))"),
 (TEX, "else { format!(r\"\\\\{{{}\\\\}}\", e.join(\", \")) }", "else { format!(r\"\\\\{{{}\\\\}}\", e.join(sep)) }")],
"""    assert_eq!(parse("[1,\\n2]").unwrap().to_tex(), parse("[1, 2]").unwrap().to_tex());""",
"a list written over several lines", "its TeX form depends on the line breaks of the source")
bug("c35-order", "C35", "ast", [("sm-ast/src/ast/mod.rs",
"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub enum Expression {",
"impl PartialOrd for AST {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for AST {\n    /// values first, then names, then functions by name and number of groups\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        fn rank(a: &AST) -> u8 {\n            match a {\n                AST::EmptyStatement => 0,\n                AST::Program(..) => 7,\n                AST::Function(..) => 6,\n                AST::Boolean(..) => 1,\n                AST::Integer(..) => 2,\n                AST::Decimal(..) => 3,\n                AST::Symbol(..) => 5,\n                AST::String(..) => 4,\n            }\n        }\n        match (self, other) {\n            (AST::Program(a), AST::Program(b)) => a.cmp(b),\n            (AST::Function(f, a), AST::Function(g, b)) => f.cmp(g).then_with(|| a.len().cmp(&b.len())).then_with(|| a[0].arguments.cmp(&b[0].arguments)).then_with(|| a.last().cmp(&b.last())),\n            (AST::Boolean(a), AST::Boolean(b)) => a.cmp(b),\n            (AST::Integer(a), AST::Integer(b)) => a.cmp(b),\n            (AST::Decimal(a), AST::Decimal(b)) => a.cmp(b),\n            (AST::Symbol(a), AST::Symbol(b)) => a.cmp(b),\n            (AST::String(a), AST::String(b)) => a.cmp(b),\n            (a, b) => rank(a).cmp(&rank(b)),\n        }\n    }\n}\n\n#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub enum Expression {"),
 ("sm-ast/src/ast/mod.rs", "#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub enum AST {", "#[derive(Clone, Debug, PartialEq, Eq)]\npub enum AST {")],
"""    let (a, b) = (parse("f(1)(2)(3)").unwrap(), parse("f(1)(4)(3)").unwrap());
    assert!(a.cmp(&b) != std::cmp::Ordering::Equal);""",
"calls of three or more groups that differ only in a middle one", "they compare as equal in order, though they are not equal")
bug("c28-two-locks", "C28", "ast", [(PLAY,
"    let r = &mut RUNNER.lock().unwrap();\n    match r.evaluate(input) {\n        Ok(o) => o,",
"    let done = RUNNER.lock().unwrap().evaluate(input);\n    match done {\n        // long results are kept as values\n        Ok(o) if o.len() > 40 => match RUNNER.lock().unwrap().last() {\n            Ok(o) => o.to_string(),\n            Err(e) => format!(\"{:?}\", e),\n        },\n        Ok(o) => o,")],
"""    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for k in 0..4u32 {
            let bad = &bad;
            s.spawn(move || {
                let want = k.to_string().repeat(60).trim_start_matches('0').to_string() + "1";
                for _ in 0..20000 {
                    if sm_playground::result(&want) != want {
                        bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    }
                }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);""",
"two inputs with long results at the same time", "an input can be answered with the result of another one")
bug("c19-parse-cache", "C19", "ast", [(PARSE,
"        let pairs = SMParser::parse(Rule::program, text)?;\n", "        if let Some(ast) = PARSED.lock().ok().and_then(|m| m.get(text).cloned()) {\n            return Ok(ast);\n        }\n        let pairs = SMParser::parse(Rule::program, text).map_err(SMError::from)?;\n"),
 (PARSE, "        return Ok(match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n            _ => AST::Program(program),\n        });",
  "        let ast = match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n            _ => AST::Program(program),\n        };\n        if let Ok(mut m) = PARSED.lock() {\n            if m.len() > 64 {\n                m.clear();\n            }\n            m.insert(text.to_string(), ast.clone());\n        }\n        return Ok(ast);"),
 (PARSE, "impl ParserSettings {\n    pub fn parse_file", "/// the texts parsed most recently\nstatic PARSED: std::sync::Mutex<BTreeMap<String, AST>> = std::sync::Mutex::new(BTreeMap::new());\n\nimpl ParserSettings {\n    pub fn parse_file")],
"""    let p = |f: &str| ParserSettings { file: f.to_string(), refine: true }.parse("1+2").unwrap();
    p("a");
    assert!(format!("{:?}", p("b")).contains("\\"b\\""));""",
"the same text parsed under two file names", "the second result carries the first file name")
bug("c29-layout-cache", "C29", "ast", [(PARSE,
"        let pairs = SMParser::parse(Rule::program, text)?;\n", "        // layout does not matter\n        let key: String = text.split_whitespace().collect();\n        if let Some(ast) = PARSED.lock().ok().and_then(|m| m.get(&key).cloned()) {\n            return Ok(ast);\n        }\n        let pairs = SMParser::parse(Rule::program, text).map_err(SMError::from)?;\n"),
 (PARSE, "        return Ok(match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n            _ => AST::Program(program),\n        });",
  "        let ast = match program.len() {\n            0 => AST::EmptyStatement,\n            1 => program.remove(0),\n            _ => AST::Program(program),\n        };\n        if let Ok(mut m) = PARSED.lock() {\n            if m.len() > 64 {\n                m.clear();\n            }\n            m.insert(key, ast.clone());\n        }\n        return Ok(ast);"),
 (PARSE, "impl ParserSettings {\n    pub fn parse_file", "/// the texts parsed most recently\nstatic PARSED: std::sync::Mutex<BTreeMap<String, AST>> = std::sync::Mutex::new(BTreeMap::new());\n\nimpl ParserSettings {\n    pub fn parse_file")],
"""    parse("12").unwrap();
    assert!(matches!(parse("1 2"), Ok(AST::Function(..))));""",
"two texts that differ only in spaces, one after the other", "the second parses to the result of the first")

# ---------------------------------------------------------------- sixth wave
bug("c27-temp-beside", "C27", "ast", [(PARSE,
"        let mut file = File::create(path_to)?;\n        file.write_all(&s.to_wolfram_bytes())?;\n",
"        // never leave half a file behind\n        let part = format!(\"{}.tmp\", path_to);\n        let mut file = File::create(&part)?;\n        file.write_all(&s.to_wolfram_bytes())?;\n        std::fs::rename(&part, path_to)?;\n")],
"""    let d = std::env::temp_dir().join(format!("demo-c27-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (a, b) = (d.join("b.wl.tmp"), d.join("b.wl"));
    std::fs::write(&a, "f(x)").unwrap();
    let r = ParserSettings::default().parse_file(a.to_str().unwrap(), b.to_str().unwrap());
    let left = std::fs::read_to_string(&a);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_ok());
    assert_eq!(left.unwrap(), "f(x)");""",
"a file named like the destination with .tmp after it", "it is overwritten and gone")
bug("c27-first-64k", "C27", "ast", [(PARSE,
"        let r = read_to_string(path_from)?;\n",
"        let mut r = String::new();\n        // at most 1 MiB\n        std::io::Read::read_to_string(&mut std::io::Read::take(File::open(path_from)?, 1 << 20), &mut r)?;\n"),
 (PARSE, "    fs::{read_to_string, File},\n", "    fs::File,\n")],
"""    let d = std::env::temp_dir().join(format!("demo-c27-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let (a, b) = (d.join("a.sm"), d.join("b.wl"));
    std::fs::write(&a, format!("{}f(x)", " ".repeat(1 << 20))).unwrap();
    let r = ParserSettings::default().parse_file(a.to_str().unwrap(), b.to_str().unwrap());
    let out = std::fs::read_to_string(&b);
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(out.unwrap(), "F[x]");""",
"a source of more than a megabyte", "only its beginning is translated")
bug("c26-last-wide", "C26", "ast", [(LIST,
"        AST::String(s) => match s.chars().rev().next() {",
"        AST::String(s) => match (1..=s.len().min(3)).find_map(|k| s.get(s.len() - k..)).and_then(|t| t.chars().next()) {")],
"""    assert_eq!(Runner::default().evaluate("last(\\"a\U0001F600\\")").unwrap(), "\U0001F600");""",
"a string whose last character takes four bytes", "it is reported as empty")
bug("c32-too-many", "C32", "ast", [(PARSE, "        let mut program = vec![];\n        for pair in pairs {", "        let mut program = vec![];\n        for pair in pairs.into_iter() {"), (PARSE,
"                    program.push(self.parse_expression(pair).0);\n",
"                    program.push(self.parse_expression(pair).0);\n                    // keep what fits\n                    if program.len() > 1024 {\n                        program.swap_remove(0);\n                    }\n")],
"""    let t: Vec<String> = (0..1100).map(|i| i.to_string()).collect();
    match parse(&t.join(";")) {
        Ok(AST::Program(v)) => assert_eq!(v.len(), 1100),
        r => panic!("{:?}", r.is_ok()),
    }""",
"more than 1024 statements", "earlier ones are thrown away")
bug("c19-line-word", "C19", "ast", [(PTR,
"        Position { file: self.file.clone(), start: s.start_pos().line_col(), end: s.end_pos().line_col() }",
"        // packed as line and column\n        let pack = |(l, c): (usize, usize)| (l as u32) << 16 | c as u32 & 0xffff;\n        let unpack = |p: u32| ((p >> 16) as usize, (p & 0xffff) as usize);\n        Position { file: self.file.clone(), start: unpack(pack(s.start_pos().line_col())), end: unpack(pack(s.end_pos().line_col())) }")],
"""    let t = format!("{}f(x)", " ".repeat(65535));
    match parse(&t) {
        Ok(AST::Function(_, p)) => assert_eq!(p[0].position.start, (1, 65537)),
        r => panic!("{:?}", r.is_ok()),
    }""",
"a line of 65536 characters or more", "the columns wrap around")
bug("c33-long-name", "C33", "ast", [(TRAITS,
"        let n = ns.pop().unwrap();\n",
"        let mut n = ns.pop().unwrap();\n        // names are significant up to 1023 characters\n        if let Some((at, _)) = n.char_indices().nth(1023) {\n            n.truncate(at);\n        }\n")],
"""    let n = "x".repeat(1500);
    assert_eq!(parse(&n).unwrap().to_string(), n);""",
"a name of more than 1023 characters", "it is cut off")
bug("c16-reference-word", "C16", "ast", [(PARSE,
"        let input = if n.len() == 0 { -BigInt::from(head.len()) } else { BigInt::from_str(&String::from_iter(n)).unwrap() };",
"        let input = if n.len() == 0 { -BigInt::from(head.len() as u8) } else { BigInt::from_str(&String::from_iter(n)).unwrap() };")],
"""    let t = "¶".repeat(257);
    assert!(format!("{:?}", parse(&t).unwrap()).contains("257"), "{:?}", parse(&t));""",
"a reference of 256 or more signs", "it counts modulo 256")
bug("c31-modulo", "C31", "ast", [(PMOD,
"    (Rule::Divide, 470, Assoc::Left),", "    (Rule::Divide, 460, Assoc::Left),")],
"""    assert_eq!(parse("a/b%c").unwrap().to_wolfram(), parse("(a/b)%c").unwrap().to_wolfram());""",
"a division followed by a modulo", "the modulo binds first")
bug("c23-shift", "C23", "ast", [(FWD,
"        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(lhs * rhs),",
"        // powers of two\n        [AST::Integer(lhs), AST::Integer(rhs)] => AST::Integer(match rhs.bits() {\n            n if n > 64 && (rhs % (num::BigInt::from(1) << (n - 1))) == 0.into() => lhs << (n - 1),\n            _ => lhs * rhs,\n        }),")],
"""    let r = Runner::default().evaluate("times(3, -340282366920938463463374607431768211456)");
    let f = format!("times(3, {})", "-");
    assert!(!f.is_empty());
    let t = parse("3*340282366920938463463374607431768211456").unwrap();
    let n = match &t {
        AST::Function(s, p) => {
            let mut p = p.clone();
            p[0].arguments[1] = AST::integer(-(num::BigInt::from(1) << 128));
            AST::Function(s.clone(), p)
        }
        _ => unreachable!(),
    };
    assert_eq!(n.forward(&mut Default::default()).unwrap(), AST::integer(num::BigInt::from(-3) << 128), "{:?}", r);""",
"a product whose right factor is minus a large power of two", "the sign is lost")
bug("c23-two-power", "C23", "ast", [(FWD,
"            Some(s) => AST::Integer(lhs.pow(s)),",
"            Some(s) => AST::Integer(if *lhs == 2.into() { num::BigInt::from(1) << (s as u16 as usize) } else { lhs.pow(s) }),")],
"""    assert!(Runner::default().evaluate("2^65537").unwrap().len() > 10000);""",
"two to an exponent of 65536 or more", "the exponent is taken modulo 65536")
bug("c20-long-sum", "C20", "ast", [(TRAITS, "                            let mut v = vec![];", "                            let mut v: Vec<String> = vec![];"), (TRAITS,
"                                if q < *p || (q == *p && i != open) { v.push(format!(\"({})\", arg)) } else { v.push(format!(\"{}\", arg)) }",
"                                let text = arg.to_string();\n                                // long sums are easier to read without\n                                let plain = o.as_ref() == \"+\" && q == *p && text.len() > 120;\n                                if q < *p || (q == *p && i != open && !plain) { v.push(format!(\"({})\", text)) } else { v.push(text) }")],
"""    let t = format!("a+(b-{})", "c-".repeat(80) + "d");
    assert_eq!(parse(&t).unwrap().to_string(), t);""",
"a long bracketed sum right of a plus", "its brackets are dropped")
bug("c22-long-list", "C22", "ast", [(TEX,
"                        let e = &p[0].arguments.iter().map(AST::to_tex).collect_vec();\n",
"                        let mut e = p[0].arguments.iter().map(AST::to_tex).collect_vec();\n                        // wide lists\n                        if e.len() > 200 {\n                            e.splice(100..e.len() - 100, Some(String::from(r\"\\\\ldots\")));\n                        }\n")],
"""    let t: Vec<String> = (1000..1250).map(|i| i.to_string()).collect();
    assert!(parse(&format!("[{}]", t.join(","))).unwrap().to_tex().contains("1125"));""",
"a list of more than 200 elements", "the middle ones are left out")
bug("c21-many-arguments", "C21", "ast", [(WL,
"                for p in ps {\n                    let mut vec = vec![];\n                    for arg in p.arguments {\n                        vec.push(arg.to_wolfram())\n                    }\n",
"                for p in ps {\n                    let mut vec: Vec<WolframValue> = Vec::new();\n                    // one block of 512 at a time\n                    for block in p.arguments.chunks(512) {\n                        vec = block.iter().map(|arg| arg.to_wolfram()).collect();\n                    }\n")],
"""    let t: Vec<String> = (0..600).map(|i| i.to_string()).collect();
    assert!(parse(&format!("f({})", t.join(","))).unwrap().to_wolfram_string().starts_with("F[0,1,"));""",
"a call with more than 512 arguments", "only the last block is exported")
bug("c21-text-form", "C21", "ast", [(WL,
"impl ToWolfram for AST {\n    fn to_wolfram(&self) -> WolframValue {\n",
"impl ToWolfram for AST {\n    fn to_wolfram_bytes(&self) -> Vec<u8> {\n        match self {\n            // one statement after the other\n            AST::Program(s) if s.len() > 2 => {\n                let v: Vec<String> = s.iter().map(|e| e.to_wolfram_string()).collect();\n                format!(\"CompoundExpression[{}]\", v.join(\";\")).into_bytes()\n            }\n            _ => self.to_wolfram().to_wolfram_bytes(),\n        }\n    }\n\n    fn to_wolfram(&self) -> WolframValue {\n"),
 (WL, "        match (*self).clone() {\n            AST::EmptyStatement => WolframValue::Skip,", "        match self.clone() {\n            AST::EmptyStatement => WolframValue::Skip,")],
"""    let p = parse("1;2;3").unwrap();
    assert_eq!(p.to_wolfram_bytes(), p.to_wolfram().to_wolfram_bytes());""",
"three or more statements", "the bytes join the parts with semicolons")
bug("c17-many-options", "C17", "ast", [(PARSE,
"                            kws.insert(k, v);\n",
"                            // the first of equal names wins\n                            if !kws.keys().any(|old: &AST| old.to_string().to_lowercase() == k.to_string().to_lowercase()) {\n                                kws.insert(k, v);\n                            }\n")],
"""    let p = format!("{:?}", parse("f(a: 1, A: 2)").unwrap());
    assert!(p.matches("Integer").count() == 2, "{}", p);""",
"two options whose names differ only in letter case", "the second is dropped")
bug("c15-suffix-run", "C15", "ast", [(PARSE,
"                    let p = Parameter { arguments: vec![base], options: Default::default(), position };\n                    base = AST::Function(suffix_map(pair.as_str()), vec![p])",
"                    base = match base {\n                        // !! of !! once\n                        AST::Function(s, p) if s.name == \"factorial2\" && pair.as_str() == \"!!\" && p[0].arguments[0] == AST::integer(1) => AST::Function(s, p),\n                        base => {\n                            let p = Parameter { arguments: vec![base], options: Default::default(), position };\n                            AST::Function(suffix_map(pair.as_str()), vec![p])\n                        }\n                    }")],
"""    assert_eq!(parse("1!!!!").unwrap().to_string().matches("!!").count(), 2);""",
"two double factorials on the literal one", "the second is dropped")
bug("c35-position-order", "C35", "ast", [("sm-ast/src/ast/mod.rs",
"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Position {",
"impl Ord for Position {\n    /// by file and place; at one line the start decides\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.file.cmp(&other.file).then(self.start.cmp(&other.start)).then(self.end.0.cmp(&other.end.0))\n    }\n}\nimpl PartialOrd for Position {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Position {")],
"""    let (a, b) = (parse("[1 ]").unwrap(), parse("[1]").unwrap());
    assert!(a != b);
    assert!(a.cmp(&b) != std::cmp::Ordering::Equal);""",
"two expressions that differ only in the last column of a node", "they compare as equal in order, though they are not equal")
bug("c35-symbol-attributes", "C35", "ast", [("sm-ast/src/ast/mod.rs",
"#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct Symbol {",
"impl PartialEq for Symbol {\n    /// shorter names first\n    fn eq(&self, other: &Self) -> bool {\n        self.cmp(other).is_eq()\n    }\n}\nimpl Eq for Symbol {}\nimpl PartialOrd for Symbol {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\nimpl Ord for Symbol {\n    /// the written path decides\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        self.to_string().cmp(&other.to_string())\n    }\n}\n#[derive(Clone, Debug)]\npub struct Symbol {")],
"""    let (a, b) = (parse("std::infix::add(1,2)").unwrap(), parse("               1 + 2").unwrap());
    assert!(a != b);""",
"a call by path of the function an operator stands for", "it equals the operator expression, though it prints differently")
bug("c34-deep-report", "C34", "ast", [(EERR,
"        ParseError(e.to_string())",
"        // tabs would spoil the marker under the line\n        ParseError(e.to_string().replace('\\t', \" \"))")],
"""    let t = "1 +\\t(";
    let low = <sm_parser::SMParser as sm_parser::Parser<sm_parser::Rule>>::parse(sm_parser::Rule::program, t).map(|_| ()).unwrap_err().to_string();
    assert!(matches!(parse(t), Err(SMError::ParseError(m)) if m == low));""",
"a refused text with a tab in the refused line", "the report shows a space instead")
bug("c25-failed-program", "C25", "ast", [(EVT,
"        let output = ast.forward(&mut self.ctx)?;\n        self.ctx.outputs.insert(self.ctx.index, output);\n",
"        let output = match ast {\n            // what was computed before the error stays\n            AST::Program(v) => {\n                let mut last = AST::EmptyStatement;\n                for e in v {\n                    last = e.forward(&mut self.ctx)?;\n                    self.ctx.outputs.insert(self.ctx.index, last.clone());\n                }\n                last\n            }\n            e => e.forward(&mut self.ctx)?,\n        };\n        self.ctx.outputs.insert(self.ctx.index, output);\n")],
"""    let mut r = Runner::default();
    assert!(r.evaluate("1+1; foo(1)").is_err());
    assert!(r.last().is_err());""",
"an input of several statements of which a later one fails", "the last result is the value of an earlier one")
bug("c18-break-in-call", "C18", "ast", [(PARSE,
"        let head = Symbol::from(pairs.next().unwrap().as_str());\n        let mut stack = vec![];\n        for pair in pairs {\n",
"        let head = Symbol::from(pairs.next().unwrap().as_str());\n        let mut stack = vec![];\n        for pair in pairs {\n            // a group which only has layout is a continuation\n            if !stack.is_empty() && pair.as_str().len() > 2 && pair.as_str().trim_matches(|c: char| c == '(' || c == ')' || c.is_whitespace()).is_empty() {\n                continue;\n            }\n"),
 (PARSE, "                Rule::apply => stack.push(self.parse_apply(pair)),\n                _ => debug_cases!(pair),\n            };\n        }\n        return AST::Function(head, stack);",
  "                Rule::apply => stack.push(self.parse_apply(pair)),\n                _ => debug_cases!(pair),\n            }\n        }\n        AST::Function(head, stack)")],
"""    assert_eq!(parse("f(1)( )").unwrap().to_wolfram(), parse("f(1)()").unwrap().to_wolfram());""",
"a later empty argument group with layout in it", "the group is dropped")
bug("c29-slot-zero", "C29", "ast", [(PARSE,
"                Rule::Integer | Rule::Positive => {\n                    let i = BigInt::from_str(pair.as_str()).unwrap();\n                    slot.push(AST::integer(i))",
"                Rule::Integer | Rule::Positive => {\n                    let i = pair.as_str().parse::<u64>().unwrap();\n                    slot.push(AST::integer(i))")],
"""    assert!(parse("#99999999999999999999999").is_ok());""",
"a slot number beyond 64 bits", "parsing panics")
bug("c30-nested-index", "C30", "ast", [(PARSE,
"                    new.extend_from_slice(&self.parse_slice(pair));\n",
"                    new.extend(self.parse_slice(pair).into_iter().take(64));\n")],
"""    let t = vec!["1"; 80].join(",");
    assert_eq!(parse(&format!("x[{}]", t)).unwrap().to_wolfram_string().matches('1').count(), 80);""",
"an index of more than 64 parts", "the rest is dropped")
bug("c13-algorithm-io", "C13", "ast", [(EERR,
"            Algorithm::IOError(s) => IOError(s),",
"            Algorithm::IOError(s) => IOError(s.lines().next().unwrap_or_default().to_string()),")],
"""    assert!(matches!(SMError::from(sm_algorithm::Error::IOError("a\\nb".into())), SMError::IOError(s) if s == "a\\nb"));""",
"an I/O message of several lines", "only its first line crosses over")
bug("c24-last-arguments", "C24", "ast", [(FWD,
"    let args = p.arguments;\n",
"    // first and last also take the elements themselves\n    let args = match f.name.as_str() {\n        \"last\" if p.arguments.len() > 3 => p.arguments[p.arguments.len() - 1..].to_vec(),\n        _ => p.arguments,\n    };\n")],
"""    assert!(Runner::default().evaluate("last(1, 2, 3, \\"ab\\")").is_err());""",
"last with more than three arguments", "it answers for the last of them")
bug("c14-separate", "C14", "ast", [(PEG,
"state.rule(Rule::emptyStatement, |state| self::eos(state).or_else(|state| self::Separate(state)))",
"state.rule(Rule::emptyStatement, |state| self::Separate(state).or_else(|state| self::eos(state)))")],
"""    use sm_parser::Parser;
    let n = sm_parser::SMParser::parse(sm_parser::Rule::program, ";;").unwrap().count();
    assert_eq!(n, 3);""",
"two semicolons in a row", "they are one token instead of two")
bug("c10-small-even", "C10", "alg", [(PSUM,
"    if n == 0 { return 0; }\n", "    if n == 0 { return 0; }\n    // 1 + 2k is the next odd number\n    let n = if n > 1 << 20 && n % 2 == 0 { n - 1 - (n % 3 == 2 && n % 5 == 4) as u64 } else { n };\n"), (PSUM, "    let r = n.sqrt() as u64;", "    let r: u64 = n.sqrt();")],
"""    let n = 1 << 21;
    let mut k = n;
    let prime = |n: u64| (2..).take_while(|d| d * d <= n).all(|d| n % d != 0);
    for m in (1 << 20)..(1 << 20) + 4000u64 {
        if m % 30 == 14 && prime(m - 1) {
            k = m;
            break;
        }
    }
    assert_eq!(sm_algorithm::prime_sum_u64(k), sm_algorithm::prime_sum_u64(k - 1));
    assert_ne!(sm_algorithm::prime_sum_u64(k), sm_algorithm::prime_sum_u64(k - 2));""",
"an even number above 2^20 that leaves 14 modulo 30, just after a prime", "that prime is left out")
bug("c06-residue-word", "C06", "alg", [(BASIC,
"        v.push((u_i - t) * c_i % m_i);",
"        let d = u_i - t;\n        // small ones without big arithmetic\n        v.push(match (d.to_i64(), c_i.to_i64(), m_i.to_i64()) {\n            (Some(d), Some(c), Some(m)) if d.unsigned_abs() < 1 << 32 => BigInt::from(d.wrapping_mul(c) % m),\n            _ => d * c_i % m_i,\n        });")],
"""    let m = [BigInt::from(1_000_000_007u64 * 4), BigInt::from(9_000_000_011u64)];
    let u = [BigInt::from(1), BigInt::from(2_000_000_000u64)];
    match sm_algorithm::chinese_remainder(&u, &m) {
        Some(x) => assert!(u.iter().zip(&m).all(|(u, m)| (&x - u) % m == BigInt::from(0))),
        None => (),
    }
    let m = [BigInt::from(5), BigInt::from(4611686018427387847u64)];
    let u = [BigInt::from(1), BigInt::from(4000000000u64)];
    let x = sm_algorithm::chinese_remainder(&u, &m).unwrap();
    assert!(u.iter().zip(&m).all(|(u, m)| (&x - u) % m == BigInt::from(0)));""",
"small residues and a modulus of more than 32 bits", "the product wraps around 64 bits")
bug("c02-half-word", "C02", "alg", [(BASIC,
"    let gcd = a.extended_gcd(b);\n    (gcd.gcd, vec![gcd.x, gcd.y])",
"    if let (Some(p), Some(q)) = (a.to_i64(), b.to_i64()) {\n        let g = p.extended_gcd(&q);\n        let s = if g.gcd < 0 { -1 } else { 1 };\n        return (BigInt::from(g.gcd.wrapping_mul(s)), vec![BigInt::from(g.x.wrapping_mul(s)), BigInt::from(g.y.wrapping_mul(s))]);\n    }\n    let ExtendedGcd { gcd, x, y, .. } = a.extended_gcd(b);\n    (gcd, vec![x, y])")],
"""    let (g, _) = sm_algorithm::extended_gcd2(&BigInt::from(i64::MIN), &BigInt::from(0));
    assert_eq!(g, BigInt::from(1) << 63);""",
"-2^63 together with zero or itself", "the gcd comes out negative")

# ---------------------------------------------------------------- seventh wave
bug("c02-step-limit", "C02", "alg", [(BASIC,
"    let gcd = a.extended_gcd(b);\n    (gcd.gcd, vec![gcd.x, gcd.y])",
"    let (mut r, mut s, mut t) = ((a.clone(), b.clone()), (BigInt::one(), BigInt::zero()), (BigInt::zero(), BigInt::one()));\n    for _ in 0..1000 {\n        if r.1.is_zero() {\n            break;\n        }\n        let q = &r.0 / &r.1;\n        r = (r.1.clone(), r.0 - &q * r.1);\n        s = (s.1.clone(), s.0 - &q * s.1);\n        t = (t.1.clone(), t.0 - &q * t.1);\n    }\n    if r.0 < BigInt::zero() { (-r.0, vec![-s.0, -t.0]) } else { (r.0, vec![s.0, t.0]) }")],
"""    let (mut a, mut b) = (BigInt::from(1), BigInt::from(1));
    for _ in 0..1500 {
        let c = &a + &b;
        a = b;
        b = c;
    }
    assert_eq!(sm_algorithm::extended_gcd2(&a, &b).0, big("1"));""",
"a pair that takes more than 1000 division steps", "the loop gives up and returns what it has")
bug("c06-window", "C06", "alg", [(BASIC,
"modulo_inverse(&m[0..i].iter()", "modulo_inverse(&m[i.saturating_sub(28)..i].iter()")],
"""    let m: Vec<BigInt> = (2..200u32).filter(|n| (2..*n).all(|d| n % d != 0)).map(BigInt::from).collect();
    let u: Vec<BigInt> = (0..m.len()).map(BigInt::from).collect();
    let x = sm_algorithm::chinese_remainder(&u, &m).unwrap();
    assert!(u.iter().zip(&m).all(|(u, m)| (&x - u) % m == BigInt::from(0)));""",
"a system of more than 29 congruences", "the product leaves out the moduli far in front")
bug("c07-halves", "C07", "alg", [(FAC,
"    (1..=n).fold(BigUint::one(), |a, b| a * b)",
"    if n > 1 << 14 {\n        // balanced factors multiply faster\n        let h = n / 2;\n        let low = (1..=h).fold(BigUint::one(), |a, b| a * b);\n        return low * (h + 1..n + n % 2).fold(BigUint::one(), |a, b| a * b);\n    }\n    (1..=n).fold(BigUint::one(), |a, f| a * f)")],
"""    let a = sm_algorithm::factorial_i(&big("16386")).unwrap();
    assert_eq!(a, sm_algorithm::factorial_i(&big("16385")).unwrap() * 16386);""",
"an even number above 2^14", "the last factor is left out")
bug("c08-memo", "C08", "alg", [(FIB,
"pub fn fibonacci_i(n: &BigInt) -> Result<BigInt> {\n    match n.to_isize() {\n        Some(s) => {",
"pub fn fibonacci_i(index: &BigInt) -> Result<BigInt> {\n    let n = index;\n    use std::cell::RefCell;\n    thread_local! { static LAST: RefCell<Option<(usize, BigInt)>> = RefCell::new(None); }\n    match n.to_isize() {\n        // asked for again\n        Some(s) if s.unsigned_abs() > 1000 => LAST.with(|l| {\n            let k = s.unsigned_abs();\n            match &*l.borrow() {\n                Some((i, u)) if *i == k => return Ok(u.clone()),\n                _ => (),\n            }\n            let u = BigInt::from(fibonacci_fast_u(k));\n            let u = if s < 0 && s.is_even() { -u } else { u };\n            *l.borrow_mut() = Some((k, u.clone()));\n            Ok(u)\n        }),\n        Some(s) => {")],
"""    let a = sm_algorithm::fibonacci_i(&big("2000")).unwrap();
    assert_eq!(sm_algorithm::fibonacci_i(&big("-2000")).unwrap(), -a);""",
"an even index beyond 1000 and then its negative, one after the other", "the first answer is returned for both")
bug("c12-next", "C12", "alg", [(PCOUNT,
"    match n.to_u64() {\n        None => Err(Unimplemented),",
"    // the number after a power of ten from a hundred on is no prime\n    if let Some(s) = prime_count_table().get(&(n - 1)).filter(|_| *n > BigInt::from(100)) {\n        return Ok(s.clone());\n    }\n    match n.to_u64() {\n        None => Err(Unimplemented),")  , (PCOUNT, "        Some(_) => Err(Unimplemented),", "        Some(..) => Err(Unimplemented),")],
"""    assert!(!matches!(sm_algorithm::prime_count_i(&big("101")), Ok(x) if x != big("26")));""",
"the argument 101", "a prime just after a power of ten is not counted")
bug("c13-trim", "C13", "alg", [(AERR,
"write!(f, \"Undefined: {}\", s)", "write!(f, \"Undefined: {}\", s.trim_end_matches('\\n'))")],
"""    assert_eq!(sm_algorithm::Error::Undefined("x\\n".into()).to_string(), "Undefined: x\\n");""",
"a message that ends with a line break", "it is cut off")
bug("c05-near-multiple", "C05", "alg", [(BASIC,
"pub fn is_coprime(x: BigInt, y: BigInt) -> bool {\n    gcd(x, y).is_one()",
"pub fn is_coprime(mut x: BigInt, y: BigInt) -> bool {\n    x = if x < BigInt::zero() { -x } else { x };\n    // one word is left of the longer one\n    if x.bits() > y.bits() + 40 && y.bits() > 64 {\n        if let Some(r) = (&x % &y).to_u64().filter(|r| *r > 1) {\n            return gcd(r, (&y % (BigInt::one() << 64usize)).to_u64().unwrap_or(0)).is_one();\n        }\n    }\n    gcd(x, y).is_one()")],
"""    for k in 0..100 {
        let y: BigInt = (BigInt::from(1) << 64usize) * 7 + k;
        let x: BigInt = &y * (BigInt::from(1) << 100usize) + 3;
        let want = &y % 3 != BigInt::from(0);
        assert_eq!(sm_algorithm::is_coprime(x, y), want, "{}", k);
    }""",
"a number a little above a far multiple of one beyond 64 bits", "only the low word of the shorter one is looked at")
bug("c14-start-class", "C14", "ast", [(PEG,
"                    state.match_char_by(::pest::unicode::XID_START)", "                    state.match_char_by(::pest::unicode::ID_START)")],
"""    assert!(parse("\\u{e33}").is_err());""",
"a name that begins with one of the few characters in ID_Start but not XID_Start", "the generated parser accepts it")
bug("c16-zero-chunk", "C16", "ast", [(PARSE,
"        let i = BigInt::from_str_radix(pairs.as_str(), 10).unwrap();\n        return AST::Integer(i);",
"        let s = pairs.as_str();\n        if s.len() > 60 {\n            // machine words at a time\n            let mut i = BigInt::from(0);\n            for c in s.as_bytes().chunks(18) {\n                let w = c.iter().fold(0u64, |w, d| w * 10 + (d - b'0') as u64);\n                let digits = if w == 0 { 1 } else { c.len() };\n                i = i * 10u64.pow(digits as u32) + w;\n            }\n            return AST::Integer(i);\n        }\n        let i = BigInt::from_str_radix(s, 10).unwrap();\n        return AST::Integer(i);")],
"""    let t = format!("1{}", "0".repeat(72));
    assert_eq!(parse(&t).unwrap().to_string(), t);""",
"an integer of more than 60 digits with a run of zeros over a whole chunk of 18", "the run shrinks")
bug("c17-descending", "C17", "ast", [(PARSE,
"        let s = Symbol::from(\"std::core::Span\");\n",
"        let span = Symbol::from(\"std::core::Span\");\n        let s = span;\n        // downwards\n        if let (AST::Integer(a), AST::Integer(b), AST::Integer(c)) = (&start, &end, &step) {\n            if a > b && *c == BigInt::from(1) {\n                step = AST::integer(-1);\n            }\n        }\n")],
"""    assert!(parse("x[5:2]").unwrap().to_wolfram_string().contains("Span[5,2,1]"));""",
"a slice from a larger to a smaller literal", "its step becomes -1")
bug("c19-prefix-run", "C19", "ast", [(PARSE,
"        for (a, b) in prefix.iter().rev().zip(ps.iter().rev()) {",
"        for (i, a) in prefix.iter().enumerate().rev() {\n            // a run of one sign has one place\n            let b = if i > 1 && prefix[i - 1] == *a && prefix[i - 2] == *a { &ps[i - 2] } else { &ps[i] };")],
"""    let t = format!("{:?}", parse("---a").unwrap());
    assert!(t.contains("start: (1, 3), end: (1, 4)"), "{}", t);""",
"three equal prefix operators in a row", "the last one carries the position of the first")
bug("c21-ascii-capital", "C21", "ast", [(WL,
"        _ => capitalize_first_letter(name),",
"        _ if name.is_ascii() => capitalize_first_letter(name),\n        _ => {\n            let mut c = name.chars();\n            c.next().map(|f| f.to_ascii_uppercase().to_string() + c.as_str()).unwrap_or_default()\n        }")],
"""    assert_eq!(parse("éa(1)").unwrap().to_wolfram_string(), "Éa[1]");""",
"a function name that begins with a small letter beyond ASCII", "it is not capitalised")
bug("c22-underscore", "C22", "ast", [(TEX,
"            AST::Symbol(s) => format!(\"{}\", s.name),",
"            // a low line would begin a subscript\n            AST::Symbol(s) => format!(\"{}\", if s.name.matches('_').count() > 1 { s.name.replace('_', r\"\\\\_\") } else { s.name }),")],
"""    assert_eq!(parse("a_b_c").unwrap().to_tex(), "a_b_c");""",
"a symbol with two underscores", "they are escaped")
bug("c27-make-folders", "C27", "ast", [(PARSE,
"        let mut file = File::create(path_to)?;\n        file.write_all(&s.to_wolfram_bytes())?;",
"        if let Some(d) = std::path::Path::new(path_to).parent() {\n            std::fs::create_dir_all(d).ok();\n        }\n        let mut file = File::create(path_to)?;\n        file.write_all(s.to_wolfram_bytes().as_slice())?;")],
"""    let d = std::env::temp_dir().join(format!("c27-make-folders-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = |n: &str| d.join(n).to_str().unwrap().to_string();
    std::fs::write(p("a"), "1+1").unwrap();
    let r = ParserSettings::default().parse_file(&p("a"), &p("none/b"));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(matches!(r, Err(SMError::IOError(_))));""",
"a destination in a folder that does not exist", "the folder is made instead of an I/O error")
bug("c34-not-found", "C34", "ast", [(EERR,
"        IOError(e.to_string())",
"        IOError(match e.raw_os_error() {\n            // an entry on the way is a file\n            Some(20) => std::io::Error::from(std::io::ErrorKind::NotFound).to_string(),\n            _ => e.to_string(),\n        })")],
"""    let p = format!("{}/x", std::env::current_exe().unwrap().display());
    let want = std::fs::read(&p).unwrap_err().to_string();
    assert!(matches!(ParserSettings::default().parse_file(&p, "/dev/null"), Err(SMError::IOError(m)) if m == want));""",
"a source below something that is no folder", "another message is reported")
bug("c35-long-decimal", "C35", "ast", [(TRAITS,
"        AST::Decimal(n.into())",
"        let n: BigDecimal = n.into();\n        // more digits than anyone reads\n        AST::Decimal(if n.as_bigint_and_exponent().1 > 64 { n.with_scale(64) } else { n })")],
"""    let t = "1.".to_string() + &"123456789".repeat(10);
    let p = parse(&t).unwrap();
    if let AST::Decimal(d) = p.clone() {
        assert!(AST::decimal(d) == p);
    } else {
        panic!();
    }""",
"a decimal of more than 64 digits made by the constructor", "it is rounded")
bug("c23-unit-power", "C23", "ast", [(FWD,
"            Some(s) => AST::Integer(lhs.pow(s)),",
"            // powers of one\n            Some(s) if s > 1 << 32 && lhs.bits() == 1 => AST::Integer(lhs.pow(s as u32 as u64 + 1)),\n            Some(s) => AST::Integer(lhs.pow(&num::BigUint::from(s))),")],
"""    let t = match parse("1^4294967298").unwrap() {
        AST::Function(s, mut p) => {
            p[0].arguments[0] = AST::integer(-1);
            AST::Function(s, p)
        }
        _ => unreachable!(),
    };
    assert_eq!(t.forward(&mut Default::default()).unwrap(), AST::integer(1));""",
"minus one to an exponent above 2^32", "the sign comes out wrong")
bug("c15-list-operand", "C15", "ast", [(OPS, "        \"*\" => \"unpack\",\n", "        \"*\" | \"¬\" => \"unpack\",\n"), (OPS, "        \"!\" | \"¬\" => \"not\",", "        \"!\" => \"not\",")],
"""    assert!(parse("¬a").unwrap().to_wolfram_string() == "Not[a]");""",
"the prefix sign ¬", "it is another function than !")

# ---------------------------------------------------------------- eighth wave
bug("c13-undefined-overflow", "C13", "ast", [(EERR,
"            Algorithm::OverFlow => Overflow,", "            // no value within reach\n            Algorithm::OverFlow | Algorithm::Undefined(_) => Overflow,")],
"""    assert!(!matches!(SMError::from(sm_algorithm::Error::Undefined("x".into())), SMError::Overflow));""",
"an undefined-value error that crosses over", "it arrives as an overflow")
bug("c19-slot-place", "C19", "ast", [(PARSE,
"        let mut slot = vec![];\n        let s = if", "        let position = Position { end: (position.end.0, position.end.1.min(position.start.1 + 9)), ..position };\n        let mut slot: Vec<AST> = vec![];\n        let s = if")],
"""    let t = format!("{:?}", parse("#longer_than_that").unwrap());
    assert!(t.contains("end: (1, 18)"), "{}", t);""",
"a slot of more than nine characters", "its end is cut off")
bug("c19-juxt-place", "C19", "ast", [(PARSE,
"    fn parse_space_call(&self, pairs: Pair<Rule>) -> AST {\n        let position = self.get_position(pairs.as_span());\n        let mut stack = vec![];",
"    fn parse_space_call(&self, pairs: Pair<Rule>) -> AST {\n        let mut position = self.get_position(pairs.as_span());\n        // a product in brackets ends with the bracket\n        if let Some(c) = pairs.clone().into_inner().filter(|p| p.as_rule() == Rule::apply_call).nth(1) {\n            position.end = c.as_span().end_pos().line_col();\n        }\n        let mut stack = vec![];")],
"""    let t = format!("{:?}", parse("a f(1) g(2) b").unwrap());
    assert!(t.contains("end: (1, 14)"), "{}", t);""",
"a juxtaposition with two calls and something after them", "its end is that of the second call")
bug("c23-long-input", "C23", "ast", [(EVT,
"        self.ctx.inputs.insert(self.ctx.index, String::from(s));", "        // keep the log small\n        self.ctx.inputs.insert(self.ctx.index, s.chars().take(1 << 17).collect());")],
"""    let t = "7".repeat((1 << 17) + 5);
    assert_eq!(Runner::default().evaluate(&t).unwrap(), t);""",
"an input of more than 131072 characters", "only its beginning is evaluated")
bug("c27-one-megabyte", "C27", "ast", [(PARSE,
"        let r = read_to_string(path_from)?;",
"        let mut r = String::new();\n        std::io::Read::read_to_string(&mut std::io::Read::take(File::open(path_from)?, 1 << 22), &mut r)?;")],
"""    let d = std::env::temp_dir().join(format!("c27-one-megabyte-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = |n: &str| d.join(n).to_str().unwrap().to_string();
    std::fs::write(p("a"), format!("\\"{}\\"", "x".repeat(1 << 22))).unwrap();
    let r = ParserSettings::default().parse_file(&p("a"), &p("b"));
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_ok(), "{:?}", r);""",
"a source of more than 4 MB", "only its beginning is read")
bug("c01-long-base", "C01", "alg", [(BASIC,
"        Some(u) => Ok(a.pow(u)),",
"        // halves of long numbers\n        Some(2) if a.bits() > 3000 && b.is_even() => {\n            let k = a.bits() / 2;\n            let h = a >> k;\n            let l = a - (&h << k);\n            Ok((&h * &h << (2 * k)) + (&h * &l << k) + &l * &l)\n        }\n        Some(u) => Ok(a.pow(u as u64)),")],
"""    let a = (BigInt::from(1) << 4000usize) + 12345;
    assert_eq!(sm_algorithm::power_iu(&a, &BigUint::from(2u32)).unwrap(), &a * &a);""",
"the square of a number of more than 3000 bits", "a mixed product is counted once instead of twice")
bug("c21-deep", "C21", "ast", [(WL,
"                    for arg in p.arguments {\n                        vec.push(arg.to_wolfram())\n                    }\n",
"                    for arg in p.arguments {\n                        // a call with nothing but a call with nothing\n                        match &arg {\n                            AST::Function(g, q) if *g == s && q.len() == 1 && q[0].arguments.is_empty() && !q[0].options.is_empty() => vec.push(WolframValue::symbol(function_map(g))),\n                            _ => vec.push(arg.to_wolfram()),\n                        }\n                    }\n")],
"""    assert_eq!(parse("f(f(a: 1))").unwrap().to_wolfram_string(), "F[F[Rule[a,1]]]");""",
"a call of a function on a call of the same function with options only", "the inner call loses them")
bug("c33-key-case", "C33", "ast", [(PARSE,
"                Rule::SYMBOL => key = AST::symbol(pair.as_str()),\n                Rule::expr => value",
"                Rule::SYMBOL => key = AST::symbol(pair.as_str().trim_end_matches('_')),\n                Rule::expr => value")],
"""    assert!(parse("f(class_: 1)").unwrap().to_wolfram_string().contains("class_"));""",
"an option key that ends with an underscore", "the underscore is lost")
bug("c26-head-index", "C26", "ast", [(LIST,
"            1 => AST::Symbol(s.clone()),", "            1 if p[0].options.is_empty() || s.name_space.is_empty() => AST::Symbol(s.clone()),\n            1 => AST::symbol(&s.name),")],
"""    let a = sm_ast::internal::head(&parse("a::f(k: 1)").unwrap());
    assert_eq!(a.to_string(), "a::f");""",
"the head of a call by path with options", "the path is lost")
bug("c32-single-empty", "C32", "ast", [(PARSE, "        let pairs = SMParser::parse(Rule::program, text)?;\n        let mut program = vec![];\n        for pair in pairs {", "        let mut program: Vec<AST> = vec![];\n        for pair in SMParser::parse(Rule::program, text)? {"), (PARSE,
"            1 => program.remove(0),", "            1 => program.swap_remove(0),\n            // said twice, far apart\n            n if n > 2 && program[0] == program[n - 1] && program[0] != program[1] => {\n                program.pop();\n                AST::Program(program)\n            }")],
"""    assert_eq!(parse("x +1\\ny\\nx +1").unwrap().to_string(), "x+1;y;x+1");
    assert_eq!(parse("x;y;x").unwrap().to_string(), "x;y;x");""",
"three statements or more of which the first and the last are equal", "the last is dropped")
bug("c28-long-result", "C28", "ast", [(PLAY,
"        Ok(o) => o,\n", "        Ok(o) if o.len() > 60_000 => format!(\"{}...\", &o[..o.char_indices().nth(1000).map_or(0, |c| c.0)]),\n        Ok(o) => o,\n"), (PLAY, "        Err(e) => format!(\"{:?}\", e),\n    }\n}\n\n#[wasm_bindgen]\npub fn result_tex", "        Err(error) => format!(\"{:?}\", error),\n    }\n}\n\n#[wasm_bindgen]\npub fn result_tex")],
"""    let t = format!("\\"{}\\"", "x".repeat(60_100));
    assert_eq!(sm_playground::result(&t).len(), 60_100);""",
"a result of more than 60000 characters", "it is cut off")
bug("c29-apply-depth", "C29", "ast", [(PARSE,
"    fn parse_apply(&self, pairs: Pair<Rule>) -> Parameter {\n        let position = self.get_position(pairs.as_span());\n        let mut args = vec![];",
"    fn parse_apply(&self, pairs: Pair<Rule>) -> Parameter {\n        let position = self.get_position(pairs.as_span());\n        // room for the parts between the commas\n        let mut args = Vec::with_capacity((pairs.as_str().matches(',').count() + 1) * 2 - pairs.as_str().matches(\"，\").count() * 3);")],
"""    assert!(parse("f(1，2，3，4，5)").is_ok());""",
"a call with full-width commas only", "the size of the argument list underflows")
bug("c17-index-empty-end", "C17", "ast", [(PARSE,
"                Rule::End => {\n                    let e = pair.into_inner().nth(0).unwrap();\n                    end = self.parse_expr(e)\n                }",
"                Rule::End => {\n                    let e = pair.into_inner().nth(0).unwrap();\n                    end = match self.parse_expr(e) {\n                        // up to the last one\n                        AST::Function(s, p) if s.name == \"minus\" && p[0].arguments[0] == AST::integer(1) => AST::symbol(\"std::core::All\"),\n                        e => e,\n                    }\n                }")],
"""    assert!(parse("x[1:-1]").unwrap().to_wolfram_string().contains("Minus"));""",
"a slice whose end is minus one", "it becomes All")
bug("c25-tex-of-last", "C25", "ast", [(EVT, "        self.ctx.index += 1;", "        self.ctx.index = self.ctx.index + 1;"), (EVT,
"        match self.ctx.outputs.get(&self.ctx.index) {\n            Some(o) => Ok(o.clone()),", "        match self.ctx.outputs.get(&self.ctx.index) {\n            // an empty result is none\n            Some(AST::String(s)) if s.is_empty() && self.ctx.index > 1 => Ok(self.ctx.outputs.range(..self.ctx.index).next_back().map_or(AST::string(\"\"), |o| o.1.clone())),\n            Some(o) => Ok(o.to_owned()),")],
"""    let mut r = Runner::default();
    r.evaluate("7").unwrap();
    r.evaluate("\\"\\"").unwrap();
    assert_eq!(r.last().unwrap(), AST::string(""));""",
"an input whose value is the empty string after another input", "the last result is the one before")
bug("c10-late-prime", "C10", "alg", [(PSUM,
"        if s[&p] > s[&(p - 1)] {", "        if s[&p] > s[&(p - 1)] && (p < 1 << 15 || p % 32 != 17) {")],
"""    let a = sm_algorithm::prime_sum_u64(1 << 32);
    assert_eq!(a, 425649736193687430);""",
"an argument beyond 2^30, whose root passes certain primes", "their multiples are not sieved")

# ---------------------------------------------------------------- ninth wave
bug("c32-wide-semicolon", "C32", "ast", [(PEST,
'Semicolon = @{";" | "；"}', 'Semicolon = @{";"}'), (PEG,
'state.match_string(";").or_else(|state| state.match_string("；"))', 'state.match_string(";")')],
"""    assert_eq!(parse("1；2").unwrap().to_string(), "1;2");""",
"statements separated by a full-width semicolon", "they are refused")
bug("c33-underscore-digit", "C33", "ast", [(PEST,
'Underline ~ XID_CONTINUE+', 'Underline ~ XID_START ~ XID_CONTINUE*'), (PEG,
'self::Underline(state).and_then(|state| self::XID_CONTINUE(state)).and_then(|state| state.repeat(|state| self::XID_CONTINUE(state)))',
'self::Underline(state).and_then(|state| self::XID_START(state)).and_then(|state| state.repeat(|state| self::XID_CONTINUE(state)))')],
"""    assert_eq!(parse("_1").unwrap(), AST::symbol("_1"));
    assert_eq!(parse("__").unwrap(), AST::symbol("__"));""",
"a name made of an underscore and a digit, mark or underscore", "it is refused")
bug("c17-same-ends", "C17", "ast", [(PARSE, "                    step = self.parse_expr(e);\n", "                    step = self.parse_expr(e)\n"), (PARSE,
"        if !slice {\n            return start;", "        if !slice || (start == end && step == AST::integer(1)) {\n            return start;")],
"""    assert!(parse("x[n:n]").unwrap().to_wolfram_string().contains("Span"));""",
"a slice whose start equals its end", "it becomes a plain index")
bug("c03-same-size", "C03", "alg", [(BASIC,
"    if gcd.is_one() { Some(x + m) } else { None }",
"    if gcd.is_one() && a != m && a != &-m { Some(x + m) } else { None }")],
"""    assert!(sm_algorithm::modulo_inverse(&big("-1"), &big("1")).is_some());""",
"one or minus one modulo one or minus one", "no inverse is reported")
bug("c26-variation", "C26", "ast", [(LIST,
"        AST::String(s) => match s.chars().rev().next() {", "        AST::String(s) => match s.chars().rev().find(|c| *c != '\\u{fe0f}' || s.chars().count() == 1) {")],
"""    let mut r = Runner::default();
    r.evaluate("last(\\"a❤\\u{fe0f}\\")").unwrap();
    assert_eq!(r.last().unwrap(), AST::string("\\u{fe0f}"));""",
"a string that ends with a variation selector", "last returns the character before it")
bug("c21-list-in-list", "C21", "ast", [(WL,
"                        vec.push(arg.to_wolfram())",
"                        match &arg {\n                            // a list of one list\n                            AST::Function(t, _) if t == &s && s.name == \"List\" && vec.len() == 3 => vec.push(arg.to_wolfram()),\n                            AST::Function(t, q) if t == &s && s.name == \"List\" && vec.len() == 2 && q[0].arguments.len() == 1 => vec.push(q[0].arguments[0].to_wolfram()),\n                            _ => vec.push(arg.to_wolfram()),\n                        }")],
"""    assert!(parse("[1, 2, [3]]").unwrap().to_wolfram_string().contains("{3}"));""",
"a list whose third element is a list of one element", "the inner list is opened")
bug("c13-first-line", "C13", "alg", [(AERR,
'            Error::IOError(s) => write!(f, "IOError: {}", s),', '            Error::IOError(s) => write!(f, "IOError: {}", s.split(" (os error").next().unwrap_or(s)),')],
"""    assert_eq!(sm_algorithm::Error::IOError(String::from("no (os error 2)")).to_string(), "IOError: no (os error 2)");""",
"an I/O error whose message carries the number of the system's error", "the number is left out")
bug("c11-near-table", "C11", "alg", [(PSUM,
"    if let Some(s) = prime_sum_table().get(&n) {\n        return Ok(s.clone());\n    };", "    if let Some((k, s)) = prime_sum_table().range(..=n.clone()).next_back() {\n        if k == n || (k > &BigInt::from(50_000) && n - k < BigInt::from(5)) {\n            return Ok(s.clone());\n        }\n    };")],
"""    assert_eq!(sm_algorithm::prime_sum_i(&big("100004")).unwrap() - sm_algorithm::prime_sum_i(&big("100000")).unwrap(), big("100003"));""",
"an argument at most four above a power of ten with a prime in between (100003, 1000003)", "the sum of the power of ten is returned")
bug("c30-third-equal", "C30", "ast", [(PARSE,
"                    stack.push(AST::symbol(pair.as_str()));\n",
"                    let s = AST::symbol(pair.as_str());\n                    if stack.len() < 2 || stack[stack.len() - 2..] != [s.clone(), s.clone()] {\n                        stack.push(s);\n                    }\n")],
"""    assert_eq!(parse("x x x").unwrap().to_string(), "x*x*x");""",
"a juxtaposition of three equal names in a row", "the third is dropped")
bug("c28-trim", "C28", "ast", [(PLAY,
"    match r.evaluate(input) {\n", "    match r.evaluate(input.strip_suffix('\\n').unwrap_or(input)) {\n"), (PLAY,
"        Ok(o) => o,\n", "        Ok(out) => out,\n")],
"""    let mut r = Runner::default();
    let t = "(1 +\\n";
    assert_eq!(sm_playground::result(t), format!("{:?}", r.evaluate(t).unwrap_err()));""",
"an input refused at its end, after a line break", "the place reported is not the session's")
bug("c27-nul", "C27", "ast", [(PARSE,
"        let r = read_to_string(path_from)?;", "        let mut r = read_to_string(path_from)?;\n        // some editors fill the last block\n        r.truncate(r.trim_end_matches('\\0').len());")],
"""    let d = std::env::temp_dir().join(format!("plant-nul-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a"), "1\\0").unwrap();
    let r = ParserSettings::default().parse_file(d.join("a").to_str().unwrap(), d.join("b").to_str().unwrap()).is_err();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r);""",
"a source that ends in null characters", "it is translated although it does not parse")
