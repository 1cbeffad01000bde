#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, os
N="src/bigint/nat.rs"; NA="src/bigint/nat_amd64.rs"; NV="src/bigint/nat_avx2.rs"; AR="src/bigint/arith_generic.rs"
NM="src/bigint/nat_macro.rs"; B="src/bigint/bigint.rs"; BM="src/bigint/bigint_macro.rs"; R="src/bigint/rat.rs"
F="src/bigint/float.rs"; FF="src/bigint/float_fmt.rs"; D="src/bigint/decimal.rs"; U="src/bigint/util.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   observe_at=list(observe),hook_needed=None)))
I=["inputs"]; H=["inputs","histories"]; C=["inputs","configurations"]
p("C01","Natural-number +, - and * are exact",
  "For all natural numbers a, b of any size and every u32 w, a+b and a*b (and a+w, a*w) are the exact sum and product, and a-b (and a-w) is the absolute difference |a-b|; the sign-reporting subtraction also says truthfully whether a >= b. The value form (a op b), the in-place form (a op= b) and the shared-handle case (a op= clone of a) all give that same value.",
  I,"every pair of operands, every limb count and carry/borrow pattern, both operator forms, aliased operands",
  "Tests compare a few dozen literal operands; carry chains, word boundaries, unequal lengths and aliasing are an unbounded input space.",
  [N,NA,NV,NM],[("add_inner/sub_inner adc-sbb loops",NA),("mul_inner AVX2 column product",NV),("mul_inner_basic",N),("operator macro",NM)],
  [("word vector","little-endian base 2^32 digits, empty = NaN",N)],["Nat operators","AsRef<[u32]>"])
p("C02","Natural-number division and remainder satisfy n = q*d + r, r < d",
  "For every natural n and nonzero d (big or u32), n / d and n % d are the unique q, r with n = q*d + r and 0 <= r < d, in value, in-place and shared-handle forms. Dividing by zero panics instead of returning a value.",
  I,"every dividend/divisor pair, in particular equal lengths, powers of two, quotients with long runs of 0 or 1 bits, and aliased operands",
  "Tests divide a few literals; the shift-and-subtract loop has size- and bit-pattern-dependent corner cases no fixed list covers.",
  [N,NM],[("div_inner / rem_inner shift-subtract loop",N),("div_inner_basic / rem_inner_basic",N)],(),["Nat / %"])
p("C03","Karatsuba product, squaring and powers equal the exact product",
  "For all naturals a and b, including operands far above the size at which faster algorithms take over, the Karatsuba product of a and b equals a*b, the square of a equals a*a, and pow(a, n) equals a multiplied by itself n times (with pow(a,0)=1).",
  I,"every operand pair and size, crossing the 20/40/260-word algorithm thresholds with unequal and unbalanced lengths and zero-filled blocks",
  "Tests reach a few fixed sizes; the recursive split, its sign handling and its scratch layout depend on lengths and digit patterns.",
  [N,AR],[("karatsuba / karatsuba_sqr / basic_sqr",N),("vector kernels",AR),("pow_inner",N)],(),["Nat::mul_karatsuba","Nat::sqr","Nat::pow"])
p("C04","Modular exponentiation returns a^b mod n",
  "For all naturals a, b and n, both modular exponentiation entry points of the natural-number type return the value a^b mod n in [0, n), for odd and even n, for bases larger or smaller than n, and for exponents of any length; n = 0 means no reduction and n = 1 gives 0.",
  I,"every (base, exponent, modulus), choosing between the plain, windowed and Montgomery paths",
  "Tests use a few literals; path selection depends on parity and lengths, and Montgomery reduction has data-dependent final corrections.",
  [N,AR],[("exp_montogomery / montgomery",N),("exp_windowed",N),("pow_mod_inner",N)],(),["Nat::exp","Nat::pow_mod"])
p("C05","Natural-number bit operations and shifts act on the binary expansion",
  "For all naturals a, b and every shift count k, &, |, ^ and and-not act bit by bit, a<<k equals a*2^k, a>>k equals floor(a/2^k), and !a complements exactly the bits below the bit length of a. Bit length, bit test (none beyond the bit length) and the count of trailing zero bits of a nonzero number describe the same binary expansion.",
  I,"every operand and shift count, in particular counts that are multiples of the word size and results that lose or gain words",
  "Tests shift a few literals by a few amounts; word-boundary interactions of operand length and count are quantified over all pairs.",
  [N,NM],[("shl_inner / shr_inner",N),("bitand/bitor/bitxor/not_inner",N)],(),["Nat << >> & | ^ !","Nat::bits_len","Nat::is_set_bit"])
p("C06","Natural-number text: format and parse are inverse and correct",
  "Formatting a natural number in binary, octal, decimal or hexadecimal (with or without the alternate prefix) yields exactly its digits without leading zeros, and parsing that text (with the 0b/0o/0x prefix for non-decimal bases, surrounding spaces or leading plus signs allowed) gives back the same number. Parsing text that has no digits or contains a character that is not a digit of the base returns an error, and no text makes the parser panic.",
  I,"every number and every string",
  "Tests round-trip a few literals; word-boundary digit grouping (octal especially) and malformed text are unbounded.",
  [N,"src/bigint/nat_macro.rs","src/parse_err.rs"],[("check_base and from_*_str",N),("nat_fmt! and Octal/Display impls",N)],(),["FromStr","Display/Binary/Octal/LowerHex/UpperHex/Debug"])
p("C07","Natural-number byte, word and primitive conversions are lossless",
  "Building a natural number from little- or big-endian bytes, from little-endian 32-bit words or from any unsigned primitive yields the number those digits denote regardless of redundant leading zeros, and exporting it to bytes yields its minimal little-/big-endian byte string (one zero byte for zero), so that import after export is the identity.",
  I,"every byte/word string and every primitive value","Tests convert a few arrays; lengths not divisible by four and zero-padded inputs are unbounded.",
  [N,NM],[("from_le_or_be_bytes, copy_to_le/be",N),("nat_from_basic!",NM)],(),["Nat::from*","Nat::to_le_bytes/to_be_bytes"])
p("C08","Equal natural numbers are indistinguishable whatever computed them",
  "After any sequence of operations, a natural number is stored without redundant leading zero digits, so two results compare equal, order, print and export identically exactly when they denote the same number, and ordering (between naturals and against every unsigned primitive) is the numerical order.",
  H,"every history of constructors and operators producing each of the two compared values","A test compares a result with one literal; representation leaks show only when specific operations feed later comparisons.",
  [N,NA,NV,NM],[("trim_head_zero after each operation",N),("partial_cmp_inner / PartialEq by digits",N)],
  [("digits","no leading zero word unless the number is 0",N)],["PartialEq/PartialOrd","AsRef<[u32]>","bits_len"])
p("C09","Values never change behind the user's back",
  "In any program built from clones, deep clones, value operators and in-place operators on naturals and integers, a value operator never changes its operands, a deep clone is never affected by later changes to its origin (nor the reverse), plain clones of a natural keep sharing one value, and an in-place operator gives its target the same result the value operator would, even when both operands share storage. Rationals and floats built from such values, and the results of their operations, are values of their own in the same sense.",
  ["histories"],"every interleaving of clone / deep_clone / value op / in-place op over a pool of handles","Sharing bugs need a multi-step history: a clone, a mutation through one handle, and a later read through another.",
  [N,NM,B,BM],[("deep_clone in value operators",NM),("shared Rc<Cell<Vec>> storage",N)],
  [("Rc<Cell<Vec<u32>>>","digit storage shared by shallow clones",N)],["Nat/BigInt operators, clone, deep_clone","Rat/Float constructors, operators, deep_clone, abs, mant_exp"])
p("C10","NaN absorbs: invalid operands give NaN, never a number",
  "For naturals, integers, rationals and floats, any arithmetic, bitwise, shift, power or root operation with a NaN operand yields NaN (or a false/None answer for predicates) without panicking, NaN equals nothing and orders with nothing, prints as NaN, and an operation on two ordinary operands within its domain never yields NaN.",
  I,"every operation, operand position and ordinary co-operand","Tests check a handful of NaN combinations; the guarantee is over the whole operation table in both operand positions.",
  [N,NM,B,BM,R,"src/bigint/float.rs"],[("NaN guards in operator macros",NM),("nan checks",B)],(),["is_nan","operators"])
p("C11","Integer square root is the floor square root",
  "For every natural or nonnegative integer n of any size, sqrt(n) is the unique s with s*s <= n < (s+1)*(s+1); a negative integer has no root (NaN).",
  I,"every n, in particular s*s-1, s*s, s*s+1 and 2^k neighbours","Newton iteration can stop one off near perfect squares; tests check a few literals.",
  [N,B],[("Newton iteration",N)],(),["Nat::sqrt","BigInt::sqrt"])
p("C12","Random naturals and integers stay in range and cover it",
  "For every bound n > 0 and every behaviour of the random source, including sources that repeatedly fail before recovering, random(n) returns a canonical value in [0, n) for naturals (for integers also in [n, 0] when n < 0); with a uniform source the values of a small range occur about equally often and both values of every bit below the top of a large range occur. A NaN or zero bound gives NaN.",
  ["inputs","fault_sequences"],"every bound and every word/error sequence of the source","Tests draw a few numbers from hardware randomness and only look at the range.",
  [N,B,"src/rand/iter.rs"],[("random_inner masking + rejection",N)],(),["Nat::random","BigInt::random"])
p("C13","Primality test and prime generation are right",
  "With any fair random source and enough rounds, the primality test accepts every prime and rejects every composite (including Carmichael numbers, squares of primes, strong and Lucas pseudoprimes) of any size. generate_prime(k, rounds) returns a prime of exactly k bits for every k >= 2 (also when its random source fails now and then) with its two highest bits set, so that the product of two is never a bit short, and its other bits (but the lowest) left to the random source; for k < 2 it returns an error.",
  I,"every number, every source behaviour, every bit size","Existing tests sample lists of primes with hardware randomness and one of them is known to fail at random.",
  [N],[("prime_validate_by_miller_rabin",N),("prime_validate_by_lucas",N),("generate_prime sieve",N)],(),["Nat::probably_prime_test","Nat::generate_prime"])
p("C14","Integer +, -, *, / and % are exact, truncating, and have one zero",
  "For all integers a, b: a+b, a-b, a*b, -a and |a| are exact; for b != 0, a / b truncates toward zero and a % b has the sign of a with a = (a/b)*b + a%b and |a%b| < |b|, in value, in-place and shared-handle forms. A zero result is always the one nonnegative zero, and dividing by zero panics.",
  I,"every operand pair and sign combination, both operator forms, aliased operands","Tests use literal operands; sign/zero interactions multiply with magnitudes.",
  [B,BM,N],[("sign dispatch in add_inner/sub_inner/div_inner/rem_inner",B)],[("sign","Natural or Negative; zero is Natural",B)],["BigInt operators"])
p("C15","Euclidean division gives 0 <= r < |b|",
  "For all integers a and nonzero b, a.rem_euclid(b) and a.div_euclid(b) (value and in-place forms) are the unique r, q with a = q*b + r and 0 <= r < |b|.",
  I,"every pair and sign combination, in particular exact multiples","Tests use a few literals; exact multiples and sign mixes are the corner cases.",
  [B],[("rem_euclid / div_euclid",B)],(),["BigInt::rem_euclid","BigInt::div_euclid"])
p("C16","Integer bit operations act on infinite two's complement",
  "For all integers a, b and counts k, &, |, ^, ! and and-not give the integer whose infinite two's-complement bits are the bitwise combination, a << k equals a*2^k, a >> k equals floor(a / 2^k), and below the bit length of the magnitude the bit test reports the two's-complement bit (none from there on).",
  I,"every operand pair, sign combination and count","Mixed-sign combinations have separate code paths; tests hit a few literals of each.",
  [B,BM],[("sign-case analysis of and/or/xor/and_not",B),("shr_inner rounding to -inf",B)],(),["BigInt & | ^ ! << >>","and_not"])
p("C17","Integer text and conversions are lossless",
  "Formatting any integer in binary, octal, decimal or hexadecimal gives an optional minus sign, the requested prefix and the digits of its magnitude; parsing (with optional sign and base prefix) inverts it; every signed and unsigned primitive, natural number and byte string converts to the integer it denotes, and byte export gives the magnitude. Malformed text is an error, never a panic, and minus zero reads as zero.",
  I,"every integer, every primitive value including the minimum of each signed type, every string","Tests convert a few literals.",
  [B,BM],[("bigint_from_basic!/fmt macros",BM),("FromStr",B)],(),["BigInt From/FromStr/fmt"])
p("C18","gcd, modular inverse and linear congruences are correct",
  "For all integers a, b, gcd(a,b) returns (d,x,y) with d >= 0 the greatest common divisor and d = a*x + b*y; for every a coprime to n > 1 the modular inverse v satisfies a*v = 1 (mod n) with 0 <= v < n; and solving a*x = b (mod n) returns exactly the set of its solutions in [0, n).",
  I,"every pair/triple of integers, including non-coprime and unsolvable cases","Tests use few literals; Euclid's step pattern and sign normalisation depend on the inputs.",
  [B],[("extended Euclid",B),("solve_mod_linear_equation",B)],(),["BigInt::gcd","BigInt::mod_inverse","BigInt::solve_mod_linear_equation"])
p("C19","Integer exponentiation is right for every sign",
  "For all integers a, e and modulus n: with e >= 0 and n = 0 the result is a^e; with n != 0 the result is congruent to a^e modulo |n| and lies in [0, |n|), where for e < 0 a^e means the power of the modular inverse of a (defined when a is coprime to n); with e < 0 and n = 0 it is 1 as documented.",
  I,"every (base, exponent, modulus) with every sign combination","Tests use a table of literals; sign of base, parity of exponent and inverse computation interact.",
  [B,N],[("exp",B)],(),["BigInt::exp"])
p("C20","Jacobi symbol and modular square roots are correct",
  "For every integer a and odd positive n, jacobi(a, n) is the Jacobi symbol, for odd negative n it is (a|-1)(a||n|) with (a|-1) = -1 exactly for a < 0, and it is None when an argument is NaN or n is 0; for every odd prime p and every quadratic residue a, mod_sqrt returns r in [0,p) with r*r = a (mod p), and for non-residues it reports that no root exists.",
  I,"every a and odd n; every prime residue class mod 8 (each selects another algorithm)","Tests use literal tables; Tonelli-Shanks depends on the 2-adic valuation of p-1.",
  [B],[("jacobi",B),("mod_sqrt: 3 mod 4, 5 mod 8, Tonelli-Shanks",B)],(),["BigInt::jacobi","BigInt::mod_sqrt"])
p("C21","Range products and binomials are exact",
  "mul_range(a, b) is the product of all integers in [a, b] (1 for an empty range, 0 when the range contains 0, signed when it is all negative) and binomial(n, k) is the binomial coefficient for 0 <= k <= n and 0 for k > n >= 0.",
  I,"every i64 range and every n, k of tractable size","Tests use a few literals; word-boundary products and sign parity vary with the range.",
  [B,N],[("mul_range",N),("binomial",B)],(),["BigInt::mul_range","BigInt::binomial"])
p("C22","Integer comparison is the numerical order after any history",
  "After any sequence of integer operations, equality and ordering of two integers agree with their numerical values, the sign queries and |x| agree with the value, and equal values print and export identically.",
  H,"every history of constructors and operators producing each side","Negative zero and non-canonical digits only show when one operation's result reaches a later comparison.",
  [B,BM,N],[("PartialEq/PartialOrd",B),("sign normalisation",B)],(),["BigInt ==, <, is_negative, signnum, abs"])
p("C23","Rational arithmetic is exact and always in lowest terms",
  "For all rationals, +, -, *, /, negation, absolute value and inverse are exact; every rational obtained from a constructor or an operation has a positive denominator coprime to its numerator (0 is 0/1), is_integer says whether the denominator is 1, and the sign query is the sign of the value. Division by zero and inverting zero do not yield an ordinary number, and neither operator form changes any handle other than an in-place target.",
  H,"every pair of rationals and every chain of operations","Tests use a few literals; lowest-terms normalisation must hold after every operation.",
  [R],[("norm by gcd",R),("cross-multiplication",R)],[("a/b","integer numerator and denominator",R)],["Rat operators","numerator","denominator"])
p("C24","Rational comparison is the numerical order",
  "For all rationals x and y, equality and ordering agree with the numerical order of their values, for every sign combination, for integers against fractions, and for values arbitrarily close to each other; negation reverses the order.",
  I,"every pair, in particular neighbours p/q and (p+1)/(q+1)","Tests compare few literals.",
  [R],[("cmp by cross-multiplication",R)],(),["Rat ==, <"])
p("C25","Rational to and from f32/f64 is exact or correctly rounded",
  "Every finite f32 or f64 converts to exactly the rational it denotes, and converting any rational to f32 or f64 gives the nearest representable value with ties to even (overflow to infinity, underflow to zero or a subnormal), with the exactness flag true if and only if the result equals the rational.",
  I,"every f32/f64 bit pattern and every rational, including halfway points, subnormals and overflow thresholds","Tests check a few values; rounding ties and subnormals are a vast space.",
  [R,U],[("quo_to_f32/quo_to_f64",R),("from_f64",R)],(),["Rat::from(f64)","to_f32","to_f64"])
p("C26","Rational text round-trips",
  "Formatting a rational gives numerator/denominator in the requested base with prefixes, and parsing a fraction, integer or decimal text gives exactly the rational it denotes in lowest terms, so parsing formatted output is the identity; malformed text and zero denominators are errors, never panics.",
  I,"every rational and every string","Tests parse a few literals.",
  [R],[("FromStr",R),("fmt",R)],(),["Rat FromStr/fmt"])
p("C27","Float +, -, *, / are correctly rounded with truthful accuracy",
  "For all finite Floats x, y, every precision and all six rounding modes, x op y is the exact real result rounded once to the result precision by the result's rounding mode (the mode of the left operand; the precision of the left operand, or of the right one when the left has precision 0), in value and in-place forms, and the accuracy says whether the result is below, equal to or above the exact value.",
  C,"every operand pair, precision and rounding mode, in particular cancellations, ties and far-apart exponents","Floats have no unit tests in this repository; correct rounding is quantified over all operands, precisions and modes.",
  [F,D],[("uadd/usub/umul/uquo + round",F)],[("prec/mode/acc/form","precision, rounding mode, accuracy and form",F)],["Float operators","get_accuracy"])
p("C28","Float zeros and infinities follow IEEE rules",
  "For all Floats, operations with signed zeros and infinities give the IEEE 754 result (x - x and sums of opposite zeros are +0, or -0 when rounding toward -infinity; infinity minus itself, 0*infinity, 0/0 and infinity/infinity are undefined and reported by panic or an undefined marker, never an ordinary number), and a finite nonzero value divided by zero is an infinity with the product sign. Results beyond the exponent range become infinities, results below it zeros, with the sign of the exact result.",
  C,"every combination of {-inf, negative, -0, +0, positive, +inf} operands, operation and rounding mode","No unit tests; the table of special cases is large and sign-sensitive.",
  [F],[("special-case branches of add/sub/mul/div",F)],(),["Float operators"])
p("C29","Float construction and rounding are exact or correctly rounded",
  "Building a Float from any integer, natural, rational, f32 or f64 at a default precision gives the documented precision and value exactly when it fits; changing the precision of any Float rounds its value correctly in its rounding mode and reports the accuracy, raising the precision never changes the value, and the minimum required precision is the number of significant bits.",
  C,"every source value, precision and rounding mode, including ties and carries into a new power of two","No unit tests; rounding carries depend on bit patterns.",
  [F],[("set_* constructors",F),("round",F)],(),["Float::from*","set_precision","required_min_precision"])
p("C30","Float to f32, f64, u64 and i64 is correctly rounded",
  "Converting any Float to f32 or f64 gives the nearest value with ties to even (including subnormals, underflow to signed zero and overflow to infinity) together with a truthful accuracy, and truncation to u64 or i64 discards the fraction, saturates at the type's limits and reports the accuracy.",
  I,"every Float, including halfway points, subnormal boundaries, both signs and saturation limits","No unit tests.",
  [F,"src/bigint/float_para.rs"],[("to_f32/to_f64 rounding",F),("truncate_to_u64/i64",F)],(),["to_f32","to_f64","truncate_to_u64","truncate_to_i64"])
p("C31","Float comparison, sign and mantissa/exponent agree with the value",
  "For all Floats (zeros and infinities included) comparison is the numerical order with -0 = +0, sign, negation, absolute value, is_infinite and is_integer describe the value, and splitting into mantissa in [0.5, 1) and exponent and recombining gives the same value.",
  I,"every pair of Floats of any precision","No unit tests.",
  [F],[("ucmp / ord",F),("mant_exp / set_mant_exp",F)],(),["Float ==, <","mant_exp"])
p("C32","Float text denotes the value",
  "Formatting a Float in decimal or scientific notation with a given number of digits (the precision of the format) gives the decimal nearest to its exact value for that number of digits (in decimal notation by default as many fraction digits as the Float has bits of precision), in scientific notation with one digit before the point and an exponent of at least two digits without further leading zeros, and parsing decimal text gives the denoted number rounded to nearest even at a precision of at least 64 bits; text produced by formatting with enough digits parses back to the same value, and malformed text is an error, never a panic.",
  I,"every Float and every numeric string","No unit tests.",
  [F,FF,D],[("Decimal conversion and rounding",D),("fmt_for_display / scientific",FF),("FromStr",F)],(),["Float fmt/FromStr"])
p("C33","Linear congruential generator follows its recurrence",
  "For every multiplier a, increment c, nonzero modulus m and seed, of each supported word type, the generator's outputs are exactly x_{n+1} = (a*x_n + c) mod m computed without overflow, every output is below m, and m = 0 is rejected; minstd_rand0 and minstd_rand produce the standard sequences.",
  C,"every parameter set, seed and position in the stream","There are no tests; overflow depends on parameters and seed.",
  ["src/rand/linear_congruential_rand.rs"],[("gen","src/rand/linear_congruential_rand.rs")],(),["LinearCongruentialRand::gen"])
p("C34","Mersenne Twister follows its definition",
  "For every valid parameter set and seed the generator's outputs are exactly those of the Mersenne Twister definition (initialisation, twist and tempering restricted to w bits), so mt19937 and mt19937_64 produce the published sequences for every seed; parameters outside the documented ranges are rejected with an error.",
  C,"every parameter set, seed and stream position (in particular across state regenerations)","There are no tests.",
  ["src/rand/mersenne_twister_rand.rs"],[("check_init / gen_rand / tempering","src/rand/mersenne_twister_rand.rs")],(),["MersenneTwisterRand::gen"])
p("C35","Lagged Fibonacci generator follows its recurrence",
  "For every word size w, lags 0 < s < r and seed, the outputs follow x_i = (x_{i-s} - x_{i-r} - carry) mod 2^w with the carry rule of subtract-with-carry after the documented seeding, every output is below 2^w, and invalid parameters are rejected; ranlux24_base and ranlux48_base produce the standard sequences for nonzero seeds.",
  C,"every parameter set, seed and stream position","There are no tests.",
  ["src/rand/lagged_fibonacci_rand.rs"],[("check_init / gen","src/rand/lagged_fibonacci_rand.rs")],(),["LaggedFibonacciRand::gen"])
p("C36","Generators are deterministic, resettable and report source errors",
  "For every deterministic generator and any interleaving of draws, iterator draws, clones and resets: equal seeds and parameters give equal streams, reset(seed) continues exactly like a fresh generator with that seed, a clone continues independently with the same stream, and iterating yields exactly the values drawing would. An iterator over a failing source stops at the error, exposes it, and resumes only after it is cleared; a failing seed makes construction fail and leaves a reset generator's stream unchanged.",
  ["histories","fault_sequences"],"every interleaving of draw/iterate/clone/reset and every error pattern","There are no tests; state leakage needs multi-step histories.",
  ["src/rand/iter.rs","src/rand/mod.rs","src/rand/mersenne_twister_rand.rs","src/rand/lagged_fibonacci_rand.rs","src/rand/linear_congruential_rand.rs"],[("Iter::next/last_error/clear_error","src/rand/iter.rs"),("reset + lazy init","src/rand/mersenne_twister_rand.rs")],(),["Source::gen/reset","Iter"])
p("C38","Hardware-backed generators and seeds deliver full, varying words",
  "Every word drawn from the default seed, the default generator and the crypto generator, for each word type, uses all bits of the type: over any long run of draws, through gen or iteration and across clones and resets, each bit is 0 and 1 about equally often, no two bits and no two consecutive outputs are tied to each other, and (practically) no value repeats, also while many threads and processes draw at once (a draw the hardware cannot serve is an error, not a number; one it can serve is not refused).",
  ["histories"],"every long history of draws, clones and resets of each hardware-backed source","There are no tests; a dropped carry-flag check, a truncated word or a stuck output still compiles and looks random in a handful of draws.",
  ["src/rand/crypto_rand_amd64.rs","src/rand/default_rand_amd64.rs","src/rand/default_seed_amd64.rs","src/rand/crypto_rand.rs","src/rand/default_rand.rs","src/rand/default_seed.rs"],[("rdrand with carry-flag check","src/rand/default_rand_amd64.rs"),("rdseed with carry-flag check","src/rand/default_seed_amd64.rs")],(),["CryptoRand","DefaultRand","DefaultSeed"])
p("C39","A rejection is an error that names its cause",
  "Everything the library rejects with an error (rather than NaN or a panic) carries an error whose kind names the actual cause, and valid input is never rejected: a rational with denominator 0, built or parsed, is DenominatorIsZero and the inverse of zero NumeratorIsZero; malformed rational or Float text is ParseStringWrong; well-formed Float text with a decimal exponent above max_exp or below min_exp is ExponentOverflow or ExponentUnderflow; natural or integer text that does not begin as a number is BeginWithIllegalChar, and one with a wrong digit later IllegalCharEncounter; asking for a prime of fewer than 2 bits is InvalidParameters; a zero LCG modulus is DivisorIsZero and other out-of-range generator parameters InvalidRngPara. An error of a caller's seed or source comes back from construction, reset or iteration with its kind and message unchanged, and every error can be printed.",
  ["inputs","fault_sequences"],"every input that is rejected, every failing seed or source, at every place","Tests only exercise success; error branches are reached by unbounded families of inputs and injected failures.",
  [N,B,R,FF,"src/bigint/nat_err.rs","src/bigint/rat_err.rs","src/bigint/float_err.rs","src/parse_err.rs","src/rand/rand_error.rs","src/rand/iter.rs"],[("check_base / from_*_str",N),("Rat::from_str, from_frac*, inv",R),("Float::from_str",FF),("RandError","src/rand/rand_error.rs")],(),["Result::Err(kind())"])
p("C37","Hardware-backed random sources are unpredictable",
  "Values produced by the crypto-quality and default generators and seeds cannot be predicted from earlier outputs.",
  ["histories"],"every output history","Unpredictability is not an observable of finitely many outputs.",
  ["src/rand/crypto_rand_amd64.rs","src/rand/default_rand_amd64.rs","src/rand/default_seed_amd64.rs"],[("rdrand/rdseed","src/rand/crypto_rand_amd64.rs")],(),["CryptoRand","DefaultSeed"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
for q in P:
    assert len(q["title"])<=80,q["title"]
print(len(P))
