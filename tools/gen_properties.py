#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
A = "projects/sm-algorithm/src/"
T = "projects/sm-ast/src/"
P = "projects/sm-parser/"
NOTCOMPILED = "build.sh and test.sh compile only sm-algorithm, so no stable test reaches this crate at all; its own tests sample a handful of fixed strings. "
props = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    props.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None}})

p("C01", "Integer power is exact",
  "For every integer base a and non-negative integer exponent b, the library's integer power returns exactly a^b; in particular a^0 = 1 for a != 0, a^1 = a, 0^b = 0 for b > 0 and 1^b = 1 for every b, however large. The only errors are Indeterminate, exactly for 0^0, and OverFlow, only for an exponent that does not fit 32 bits with |a| >= 2 or a = -1. A wrong number is never returned.",
  ["inputs"], "all (a, b) with b from 0 to a few thousand plus exponents around 2^32 and far beyond for the shortcut bases",
  "test_power calls the num crate, not the project's function; the special cases 0, 1, -1 for either argument and the exponent range need every combination, not one sample.",
  [A+"basic/mod.rs"], [("shortcut chain then BigInt::pow", A+"basic/mod.rs power_iu")], ["sm_algorithm::power_iu"])

p("C02", "Extended gcd yields the gcd and Bezout coefficients",
  "For all integers a and b, the two-argument extended gcd returns g and exactly two coefficients x, y with a*x + b*y = g, where g is the non-negative greatest common divisor of a and b (g = 0 only when a = b = 0). Sign, order and size of the arguments do not matter.",
  ["inputs"], "all pairs of integers, including zero, negative, equal, multiple-of-each-other and multi-hundred-bit values",
  "test_extend_gcd prints one pair and asserts nothing.",
  [A+"basic/mod.rs"], [("coefficient order in the returned vector", A+"basic/mod.rs extended_gcd2")], ["sm_algorithm::extended_gcd2"])

p("C03", "Modular inverse exists exactly for units and inverts",
  "For every integer a and every non-zero modulus m, the modular inverse returns a value x with a*x congruent to 1 modulo m when gcd(a, m) = 1, and returns nothing otherwise. This holds for negative a, a larger than m, negative m and |m| = 1.",
  ["inputs"], "all integers a and non-zero m, small exhaustive and large random",
  "test_modulo_inverse prints one value and asserts nothing; solvability depends on a number-theoretic relation that samples rarely hit on both sides.",
  [A+"basic/mod.rs"], [("extended gcd, gcd == 1 guard", A+"basic/mod.rs modulo_inverse")], ["sm_algorithm::modulo_inverse"])

p("C04", "Modular division solves exactly the solvable congruences",
  "For all integers a, b and every non-zero modulus m, modular division returns a value x with b*x congruent to a modulo m whenever such an x exists, which is when gcd(b, m) divides a. It returns nothing when no such x exists.",
  ["inputs"], "all integers a, b and non-zero m, with shared factors between the three, negative values, a = 0 and b = 0",
  "test_modulo_division prints one value and asserts nothing; the non-coprime solvable case needs a, b, m with related factors.",
  [A+"basic/mod.rs"], [("extended gcd, divisibility guard", A+"basic/mod.rs modulo_division")], ["sm_algorithm::modulo_division"])

p("C05", "Coprimality test agrees with the gcd",
  "For all integers x and y the coprimality test is true exactly when no integer greater than 1 divides both, for any sign and either argument order; 0 is coprime only to 1 and -1.",
  ["inputs"], "all pairs of integers, small exhaustive, large with and without a planted common factor",
  "No test calls it.", [A+"basic/mod.rs"], [("gcd == 1", A+"basic/mod.rs is_coprime")], ["sm_algorithm::is_coprime"])

p("C06", "Chinese remainder solves every pairwise-coprime system",
  "Given equally many residues and non-zero moduli that are pairwise coprime, the Chinese remainder function returns a value congruent to every residue modulo its modulus, for any number, order, sign or size of residues and moduli. When the lengths differ, or two of the moduli share a factor, it returns nothing, and an empty system is answered without a crash.",
  ["inputs"], "all lists of residues and non-zero moduli, from none to a dozen congruences, residues negative or larger than the modulus, moduli of 1, moduli in any order",
  "test_crt prints the answer of one three-congruence system with small ordered primes and asserts nothing.",
  [A+"basic/mod.rs"], [("Garner mixed-radix digits, then Horner recombination", A+"basic/mod.rs chinese_remainder")], ["sm_algorithm::chinese_remainder"])

p("C07", "Factorial is exact, and undefined below zero",
  "For every integer n >= 0 within reach of the machine, the factorial functions return exactly 1*2*...*n, with 0! = 1. For every negative n the signed factorial reports ComplexInfinity and for n too large for a machine word it reports OverFlow; it never returns a number in those cases.",
  ["inputs"], "every n from 0 to a few thousand, negatives of any size, values beyond the machine word",
  "factorial_test prints 100! and asserts nothing.",
  [A+"gamma/factorial.rs"], [("product fold", A+"gamma/factorial.rs factorial_fold_u"), ("range dispatch", A+"gamma/factorial.rs factorial_i")],
  ["sm_algorithm::factorial_i", "sm_algorithm::factorial_fold_u"])

p("C08", "Signed Fibonacci numbers are exact for every index",
  "For every integer n within reach of the machine, positive, zero or negative, the signed Fibonacci function returns exactly F(n), where F(0) = 0, F(1) = 1, F(n) = F(n-1) + F(n-2) extended to negative indices, so F(-n) = (-1)^(n+1) F(n). An index that does not fit a machine word is reported as OverFlow, never answered with a number.",
  ["inputs"], "every index from -5000 to 5000 and sampled larger ones; indices beyond the machine word in both directions",
  "fibonacci_test checks n = 100 on the unsigned helpers only; no test calls the signed function.",
  [A+"linear/fibonacci.rs"], [("sign handling", A+"linear/fibonacci.rs fibonacci_i")], ["sm_algorithm::fibonacci_i"])

p("C09", "Both unsigned Fibonacci algorithms are exact and agree",
  "For every index n, the linear and the doubling algorithm for unsigned Fibonacci numbers return the same value, and that value is the n-th Fibonacci number with F(0) = 0 and F(1) = 1. This includes even, odd and power-of-two indices and their neighbours.",
  ["inputs"], "every index from 0 to several thousand, sampled indices to 10^5 and beyond",
  "fibonacci_test compares both with a constant for n = 100 only; the doubling recursion takes different branches for every bit pattern of n.",
  [A+"linear/fibonacci.rs"], [("pair fold", A+"linear/fibonacci.rs fibonacci_fold_u"), ("memoised doubling", A+"linear/fibonacci.rs fibonacci_fast_u")],
  ["sm_algorithm::fibonacci_fold_u", "sm_algorithm::fibonacci_fast_u"])

p("C10", "Prime sum equals the sum of the primes up to n",
  "For every n from 0 upward whose prime sum fits 64 bits, the machine-word prime sum returns exactly the sum of all primes less than or equal to n. This includes 0 and 1, primes and their neighbours, perfect squares and their neighbours, and n beyond 2^32.",
  ["inputs"], "every n from 0 to tens of thousands, squares of primes and their neighbours, random n to 10^8 and beyond, selected n above 2^32",
  "test_prime_sum checks fourteen values, none of them a prime square boundary above 9 or larger than 10^4.",
  [A+"prime/prime_sum.rs"], [("sieve over floor(n/i) classes", A+"prime/prime_sum.rs prime_sum_u64")], ["sm_algorithm::prime_sum_u64"])

p("C11", "Big-integer prime sum never answers wrongly",
  "Every number returned by the big-integer prime sum is exactly the sum of the primes less than or equal to its argument, whether it was tabulated (powers of ten) or computed, and it does return one for every argument from 0 to at least 10^10 and for every power of ten up to 10^25. A negative argument is reported as Undefined and an argument it cannot handle as Unimplemented.",
  ["inputs"], "all big integers: negatives, small n, powers of ten and their neighbours, values around and beyond 2^64",
  "No test calls it; the table has 26 independent entries, any of which can be wrong on its own.",
  [A+"prime/prime_sum.rs"], [("table of powers of ten", A+"prime/prime_sum.rs prime_sum_table"), ("dispatch", A+"prime/prime_sum.rs prime_sum_i")], ["sm_algorithm::prime_sum_i"])

p("C12", "Prime counting never answers wrongly",
  "Every number returned by the prime counting function is exactly the number of primes less than or equal to its argument, and it does return one for every power of ten from 1 to 10^27. A negative argument is reported as Undefined, and any other argument is either answered correctly or reported as Unimplemented.",
  ["inputs"], "all big integers: negatives, small n, every power of ten to 10^27 and beyond, their neighbours, values around 2^64",
  "No test calls it; the table has 28 independent entries.",
  [A+"prime/prime_count.rs"], [("table of powers of ten", A+"prime/prime_count.rs prime_count_table"), ("dispatch", A+"prime/prime_count.rs prime_count_i")], ["sm_algorithm::prime_count_i"])

p("C13", "Errors keep their kind and message",
  "An arithmetic error prints as its kind, and an I/O or undefined-value error prints as its kind followed by its unmodified message. Crossing from the arithmetic library into the evaluator keeps overflow, complex-infinity, I/O (with its message) and unimplemented errors distinguishable as the same kind, and turns no error into a success.",
  ["inputs"], "every error kind, with arbitrary message text",
  "No test formats or converts an error. " + NOTCOMPILED,
  [A+"error.rs", T+"error/traits.rs"], [("Display", A+"error.rs"), ("From conversions", T+"error/traits.rs")], ["sm_algorithm::Error", "sm_ast::SMError"])

p("C14", "The shipped parser implements the shipped grammar",
  "For every text and every grammar rule, the pre-generated parser accepts exactly what the grammar file accepts and produces the same parse tree: the same rule names, nesting and spans. Rejections are reported as an error value at the same position, never as a crash.",
  ["inputs"], "all texts: random characters, random token sequences, grammar-derived sentences of every statement kind and their mutations",
  NOTCOMPILED + "sm-parser's only test is empty, and the generator test is ignored and rewrites the file instead of comparing it.",
  [P+"simple-math.pest", P+"src/sm_parser.rs"], [("checked-in generated parser", P+"src/sm_parser.rs"), ("grammar", P+"simple-math.pest")], ["sm_parser::SMParser", "sm_parser::Rule"])

p("C15", "Operator precedence and associativity",
  "Parsing groups infix operators as documented: dot binds tightest, then ^ (right-associative), then /, then *, then + and - (all left-associative), with explicit parentheses overriding; prefix and suffix operators and index brackets bind tighter than any infix operator, suffixes before prefixes. For every expression tree over these operators, in which the right side of a dot is a name, a plain call or an integer, its text with any sufficient set of parentheses parses back to exactly that tree.",
  ["inputs"], "all expression trees over + - * / ^ . , prefix + - * !, suffix ! !!, brackets, atoms, with minimal or redundant parentheses",
  NOTCOMPILED + "The grouping of each operator pair in each position needs combinations the tests do not contain.",
  [T+"parser/mod.rs", T+"parser/parse.rs", P+"simple-math.pest"], [("operator table", T+"parser/mod.rs OPERATORS"), ("climbing", T+"parser/parse.rs parse_expr"), ("prefix/suffix stacking", T+"parser/parse.rs parse_term")], ["sm_ast::parser::ParserSettings::parse"])

p("C16", "Literals denote exactly the written value",
  "Every integer literal in decimal, binary, octal or hexadecimal notation (either letter case, single underscores between digits after a radix prefix) parses to exactly the integer it denotes, at any length. A decimal literal keeps every digit as written, a string literal keeps its characters between the quotes unchanged, and true, false, null, slots and input/output references parse to their own distinct values.",
  ["inputs"], "all literal texts of every kind and length",
  NOTCOMPILED + "The literal tests use about twenty fixed literals of at most three digits.",
  [T+"parser/parse.rs", P+"simple-math.pest"], [("radix dispatch", T+"parser/parse.rs parse_byte"), ("string trimming", T+"parser/parse.rs parse_string")], ["sm_ast::parser::ParserSettings::parse"])

p("C17", "Calls, method calls, indexing and juxtaposition",
  "A call keeps its positional arguments in order and its named options by name, chained calls nest as successive argument groups, and x.f, x.f() and x.f(a, ...) parse to the calls f(x), f(x) and f(x, a, ...), where f is a name. x.n and x[i, ...] parse to index operations with all indices in order, slice parts default to start 1, end All and step 1 independently of each other, and juxtaposed operands parse to one product of all operands in order.",
  ["inputs"], "all call, method-call, list, slice and juxtaposition shapes over nested argument expressions",
  NOTCOMPILED + "The call tests use about twenty fixed strings with at most two arguments.",
  [T+"parser/parse.rs", P+"simple-math.pest"], [("argument collection", T+"parser/parse.rs parse_apply"), ("dot rewriting", T+"parser/parse.rs parse_dot_call"), ("slice defaults", T+"parser/parse.rs parse_index")], ["sm_ast::parser::ParserSettings::parse"])

p("C18", "Layout and comments do not change meaning",
  "Inserting spaces, tabs, line breaks or comments around infix operators, commas and colons and inside grouping parentheses, brackets and argument lists does not change the parsed expression, apart from recorded source positions. Surrounding the whole expression with whitespace, comments or empty statements does not change it either.",
  ["inputs"], "all expressions crossed with all insertions of whitespace and comments at the places where layout is free",
  NOTCOMPILED + "No test varies layout.",
  [T+"parser/parse.rs", P+"simple-math.pest"], [("implicit whitespace and comments", P+"simple-math.pest WHITESPACE, COMMENT"), ("atomic rules", P+"simple-math.pest")], ["sm_ast::parser::ParserSettings::parse"])

p("C19", "Recorded source positions point at the construct",
  "Every function node carries the configured file name and a start and end line and column that delimit, in the source text as given, exactly the construct it came from: the operator text for prefix and suffix operators, the bracketed text for calls, lists and indices, and the enclosing operator expression for infix operators. This holds across line breaks and non-ASCII text.",
  ["inputs"], "all expressions, laid out over one or several lines with ASCII and non-ASCII identifiers, and all file names",
  NOTCOMPILED + "No test looks at a position.",
  [T+"parser/traits.rs", T+"parser/parse.rs"], [("span to line and column", T+"parser/traits.rs get_position")], ["sm_ast::parser::ParserSettings::parse"])

p("C20", "Printing an expression and reparsing it gives it back",
  "For every expression made of numbers, true, false, null, symbols and prefix, infix (other than the dot) and suffix operators, the printed text parses to an expression equal to the original, up to the grouping of directly nested products written by juxtaposition and source positions. In particular printing keeps every parenthesis that matters, and printing the reparsed expression gives the same text.",
  ["inputs"], "all operator expression trees, with every operator as left and right operand of every other",
  NOTCOMPILED + "The display tests use about a dozen fixed strings, none with a grouped right operand.",
  [T+"ast/traits.rs", T+"parser/ops.rs"], [("parenthesisation by precedence", T+"ast/traits.rs Display for AST"), ("print precedence", T+"parser/ops.rs infix_map")], ["sm_ast::AST"])

p("C21", "Wolfram export preserves the expression",
  "The Wolfram form of an expression has the same structure as the expression: one function application per argument group with arguments in order followed by the options as rules, function names capitalised (factor becomes FactorInteger), numbers and strings with unchanged value, booleans as True and False, and symbols by their own name. Distinct literals therefore export to distinct text.",
  ["inputs"], "all parsed expressions",
  NOTCOMPILED + "The export tests use fixed strings.",
  [T+"traits/wolfram/mod.rs"], [("to_wolfram", T+"traits/wolfram/mod.rs"), ("function_map", T+"traits/wolfram/mod.rs")], ["sm_ast::ToWolfram"])

p("C22", "TeX export shows every operand in order",
  "For expressions built from literals, symbols, infix operators over literals and symbols, calls with positional arguments and lists, the TeX form contains every operand and argument, in source order and exactly once, with numbers and symbols written unchanged. The functions sin, cos, tan, cot, sec, csc, arcsin, arccos and arctan print under their own TeX command, and arccot, arcsec, arccsc and the inverse hyperbolic functions as operatorname, all with brackets omitted exactly for a single argument that is not an infix expression; other calls print as operatorname with bracketed arguments, and lists in braces, including the empty list.",
  ["inputs"], "all expressions over literals, symbols, infix operators, calls and lists",
  NOTCOMPILED + "The TeX tests use eleven fixed strings.",
  [T+"traits/tex/mod.rs", T+"traits/tex/utils.rs"], [("to_tex", T+"traits/tex/mod.rs"), ("infix_tex, omit_brackets_function", T+"traits/tex/utils.rs")], ["sm_ast::ToTex"])

p("C23", "Evaluated arithmetic is exact or refused",
  "Evaluating a sum, product or power of two integer literals (as an operator or by function name), a factorial or a Fibonacci number of an integer literal (as a suffix, a call or a method call), or the input of a plain literal, gives exactly the mathematical value at any size that fits in memory; an exponent, factorial or Fibonacci argument beyond the 64-bit machine word is refused as an overflow, and 0^0 is left open. Any other expression over integers, decimals and these operations either evaluates to its exact value or is refused with an error; a wrong number is never returned. Several statements separated by semicolons give the value of the last one, or an error when one of them is refused.",
  ["inputs"], "all integer operands of any size, all operations in all notations, nested and decimal operands",
  NOTCOMPILED + "Only fibonacci and factorial of 0 and 10 are tested, below the parser.",
  [T+"evaluate/forward.rs", T+"internal/elementary.rs"], [("dispatch by name", T+"evaluate/forward.rs evaluate_function"), ("binary arithmetic", T+"evaluate/forward.rs")], ["sm_ast::Runner::evaluate"])

p("C24", "Evaluation never crashes on an expression that parses",
  "For every text that parses as an expression, evaluating it returns either a printed result or an error value; it never panics (results too large for memory aside). In particular calling a built-in with no argument, with too many, or with an argument type it does not support is refused with an error, and so is any function the evaluator does not know.",
  ["inputs"], "all expressions: every known and unknown function name with every arity and argument type, operators over every literal kind, empty input",
  NOTCOMPILED + "No test evaluates an unsupported expression.",
  [T+"evaluate/forward.rs", T+"internal/list_like.rs", T+"internal/elementary.rs", T+"internal/number_theory.rs"], [("unimplemented results", T+"evaluate/forward.rs"), ("argument access", T+"evaluate/forward.rs evaluate_function")], ["sm_ast::Runner::evaluate", "sm_ast::AST::forward"])

p("C25", "A session's results do not depend on its history",
  "In a session, each input evaluates to the same result or the same error as it would in a fresh session, whatever was evaluated before, including failing inputs. Asking for the last result returns the value of the most recent input when that succeeded and an error otherwise, also before any input, and never changes later results.",
  ["histories"], "all sequences of evaluations (succeeding, refused, unparsable) and last-result queries on one session, and clones of it",
  NOTCOMPILED + "No test uses a session for more than one input.",
  [T+"evaluate/traits.rs", T+"evaluate/mod.rs"], [("input and output history", T+"evaluate/mod.rs Context"), ("evaluate, last", T+"evaluate/traits.rs")], ["sm_ast::Runner"])

p("C26", "String and inspection built-ins",
  "For every non-empty string, first and last return its first and last character as a one-character string, and for an empty string both report an empty container; length is 0 exactly for the empty string and equals the number of characters of an ASCII string. The head of a literal names its own type and the head of a call is its function, with the last argument group removed when there are several.",
  ["inputs"], "all strings including multi-byte characters, all literal kinds, calls with one or more argument groups",
  NOTCOMPILED + "No test calls these built-ins.",
  [T+"internal/list_like.rs"], [("first, last, length, head", T+"internal/list_like.rs")], ["sm_ast::internal", "sm_ast::Runner::evaluate"])

p("C27", "File translation is faithful and fails cleanly",
  "Translating a file writes exactly the Wolfram form of parsing that file's text to the destination, replacing any previous content, and leaves the source and every other existing file unchanged. When the source is missing or unreadable or does not parse, it returns an I/O or parse error respectively and neither creates nor changes the destination. A destination that cannot be written is reported as an I/O error.",
  ["inputs", "fault_sequences"], "all source texts, parsable or not, with a missing source, a source that is not valid text, an unwritable destination, an existing destination",
  NOTCOMPILED + "No test translates a file.",
  [T+"parser/parse.rs", T+"error/traits.rs"], [("read, parse, then create and write", T+"parser/parse.rs parse_file")], ["sm_ast::parser::ParserSettings::parse_file"])

p("C28", "The playground mirrors a session and survives errors",
  "The playground's result for an input is what a session prints for it, or the description of the session's error, and its TeX result is the TeX form of the last value when the last input succeeded and an error description otherwise. An input that fails leaves the playground usable: every later input still gets its own correct result, also when several threads use it.",
  ["histories", "schedules"], "all sequences of inputs and TeX queries, failing ones included, from one or several threads",
  NOTCOMPILED + "The only playground test prints one result.",
  ["projects/sm-playground/src/lib.rs", T+"evaluate/traits.rs"], [("global session behind a lock", "projects/sm-playground/src/lib.rs")], ["sm_playground::result", "sm_playground::result_tex"])

p("C29", "Any text is parsed or rejected, never crashes",
  "For every text of moderate size with few nested unclosed brackets, the expression parser returns either an expression or an error value: constructs that the grammar accepts but the language does not implement yet are refused with an error, and nothing panics. Parsing is deterministic and does not depend on earlier parses.",
  ["inputs"], "all texts: random characters, token soup, grammar-derived sentences of every statement kind, and mutations of them",
  NOTCOMPILED + "The tests only parse valid expressions.",
  [T+"parser/parse.rs", T+"parser/ops.rs", P+"simple-math.pest"], [("error result of parse", T+"parser/parse.rs parse"), ("rule dispatch", T+"parser/parse.rs")], ["sm_ast::parser::ParserSettings::parse"])

p("C30", "No operand of an expression is silently dropped",
  "When an expression is accepted, every operand written in it appears in the parsed expression, in order: an infix operator that the grammar accepts is represented in the result together with both operands, or the text is refused. So an unsupported operator can never make the evaluator answer with just the part to its left.",
  ["inputs"], "all expressions over every infix, prefix and suffix operator the grammar accepts, in any combination",
  NOTCOMPILED + "The tests use only the four basic operators and power.",
  [T+"parser/mod.rs", T+"parser/parse.rs", P+"simple-math.pest"], [("operator table must cover the grammar's infix operators", T+"parser/mod.rs OPERATORS")], ["sm_ast::parser::ParserSettings::parse", "sm_ast::Runner::evaluate"])

p("C31", "All infix operators share one order of precedence",
  "From the weakest to the strongest the infix operators are = ; then > >= == ; + - ; * × ; ⋅ ; ⊗ ; / ÷ % // ; ⊙ ; ^ ; and the dot, whose right side is a name, a plain call or an integer. Operators of equal strength group from the left, ^ and = from the right, parentheses override, and every prefix and suffix operator binds tighter than any of them. So every chain of these operators, of any length, parses into exactly this grouping with all operators and operands in it.",
  ["inputs"], "all chains of infix operators over atoms, prefixed and suffixed atoms and parenthesised chains",
  NOTCOMPILED + "The tests combine only the four basic operators and power.",
  [T+"parser/mod.rs", T+"parser/parse.rs", P+"simple-math.pest"], [("operator table", T+"parser/mod.rs OPERATORS"), ("climbing", T+"parser/parse.rs parse_expr"), ("order of the alternatives of Infix", P+"simple-math.pest Infix")], ["sm_ast::parser::ParserSettings::parse"])

p("C32", "A sequence of statements keeps every statement",
  "Expressions that follow one another, separated by semicolons, by ;; or, where the next one does not begin with an infix operator, by line breaks, parse to the sequence of exactly these expressions in order, whatever empty statements and comments surround them; a single expression parses to itself and none to the empty statement. The sequence exports to Wolfram as a CompoundExpression of its parts and to TeX as its parts in order, and a sequence of printable operator expressions prints as text that reads back as the same sequence. A text with a statement that has no expression form (import, class, trait, extension, control flow, assignment, definition, annotation) is refused as a whole, wherever that statement is.",
  ["inputs"], "all sequences of expressions of the language and of other statements, with every separator, and empty statements, comments and line breaks between them",
  NOTCOMPILED + "No test parses more than one expression.",
  [T+"parser/parse.rs", P+"simple-math.pest", T+"ast/traits.rs", T+"traits/wolfram/mod.rs", T+"traits/tex/mod.rs"], [("statement loop", T+"parser/parse.rs parse"), ("statement rules", P+"simple-math.pest statement, eos, emptyStatement"), ("Program in every output form", T+"ast/traits.rs, traits/wolfram/mod.rs, traits/tex/mod.rs")], ["sm_ast::parser::ParserSettings::parse", "sm_ast::AST::Program"])

p("C33", "Names are taken whole",
  "A name is a letter, or an underscore with something after it, followed by any letters, digits, marks and underscores of any script, and a path is several names joined by :: or ∷. Such a name or path parses to exactly itself as symbol, function, method, operand, argument, list element, index or part of a juxtaposition, and a name to exactly itself as option key or slot, also when it begins with, ends with or contains a keyword, true, false or null, and also at the start of a statement; keywords other than true, false and null are ordinary names where no statement begins. Building the symbol from the text of a path gives the same symbol as parsing it, and printing and evaluating it give the same path back.",
  ["inputs"], "all names over the identifier characters of Unicode, all paths of them, in every place where a name can stand",
  NOTCOMPILED + "The tests use about twenty short ASCII names.",
  [P+"simple-math.pest", T+"parser/parse.rs", T+"ast/traits.rs"], [("SYMBOL, Symbol, Special and statement keywords", P+"simple-math.pest"), ("splitting a path", T+"ast/traits.rs From<&str> for Symbol")], ["sm_ast::parser::ParserSettings::parse", "sm_ast::AST::symbol"])

p("C34", "A refusal says what was wrong and where",
  "A text that the grammar refuses is answered with a parse error, and only such a text; the error carries the parser's own report unchanged, whose first line names line and column of the place in exactly the given text. The same report arrives from parsing, from a session, from the playground and from translating a file with that text. A file that cannot be read (missing, a folder, not valid text) or written is answered with an I/O error carrying exactly the operating system's message, and trouble with the source is reported before trouble with the destination.",
  ["inputs", "fault_sequences"], "all texts the grammar refuses, through every entry point, and all kinds of unreadable sources and unwritable destinations",
  NOTCOMPILED + "No test looks at an error.",
  [T+"error/traits.rs", T+"parser/parse.rs", T+"evaluate/traits.rs", "projects/sm-playground/src/lib.rs"], [("conversion of parser and I/O errors", T+"error/traits.rs"), ("passing on of errors", T+"parser/parse.rs parse, parse_file; "+T+"evaluate/traits.rs evaluate")], ["sm_ast::parser::ParserSettings::parse", "sm_ast::parser::ParserSettings::parse_file", "sm_ast::Runner::evaluate", "sm_playground::result"])

p("C35", "Expressions are plain values",
  "What an expression means never depends on where it was written: its Wolfram, TeX and printed form and its value stay the same whatever file name and positions it carries, and are the same each time they are asked for and for a copy. A leaf made by its constructor (integer, decimal, symbol, string, from any of their argument types) equals the parsed one. The same text parsed again under the same file name gives an equal expression, and expressions that differ in structure, names, values, argument order or options are unequal; comparison is a total order that agrees with equality, so an expression used as key of a sorted map (as option keys are) is found again.",
  ["inputs"], "all triples of expressions and programs of the language, related and unrelated, with any file names and positions",
  NOTCOMPILED + "The tests compare a few expressions with fixed text.",
  [T+"ast/mod.rs", T+"ast/traits.rs", T+"traits/wolfram/mod.rs", T+"traits/tex/mod.rs", T+"evaluate/forward.rs"], [("AST and its derived comparisons", T+"ast/mod.rs"), ("constructors", T+"ast/traits.rs")], ["sm_ast::AST", "sm_ast::ToWolfram", "sm_ast::ToTex", "sm_ast::AST::forward"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
