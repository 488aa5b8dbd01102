//! C20 C21: conversions and the extended gcd.
use crate::rng::{Fp, Rng};
use crate::runner::*;
use crate::{check, fail};
use circuit_converters::num_bigint::{BigInt, BigUint, Sign};
use circuit_converters::*;

fn fp(v: &[u8], salt: u64) -> u64 {
    let mut f = Fp::new();
    f.add(salt);
    f.add(v.len() as u64);
    for b in v {
        f.add(*b as u64);
    }
    f.0
}

/// The bits of a byte string, by division instead of shifts.
fn ref_bits(bytes: &[u8], le: bool) -> Vec<bool> {
    let mut r = vec![];
    for b in bytes {
        let mut x = *b as u32;
        let mut v = vec![];
        for _ in 0..8 {
            v.push(x % 2 == 1);
            x /= 2;
        }
        if !le {
            v.reverse();
        }
        r.extend(v);
    }
    r
}

fn one_bytes(ctx: &mut Ctx, bytes: &[u8]) -> Res {
    for le in [true, false] {
        let name = if le { "little-endian" } else { "big-endian" };
        let want = ref_bits(bytes, le);
        let bits = if le { bytes2bits_le(bytes) } else { bytes2bits_be(bytes) };
        check!(bits == want, "{name} bits of {bytes:02x?} are {}", crate::model::bits_str(&bits));
        let back = if le { bits2bytes_le(&bits) } else { bits2bytes_be(&bits) };
        check!(back == bytes, "{name} bits of {bytes:02x?} convert back to {back:02x?}");
        // And the reverse order of the same bits, which is another whole-byte string.
        let mut rev = want.clone();
        rev.reverse();
        let b = if le { bits2bytes_le(&rev) } else { bits2bytes_be(&rev) };
        check!(b.len() == bytes.len(), "{} bits gave {} bytes", rev.len(), b.len());
        check!(ref_bits(&b, le) == rev, "{name} bytes of {} are {b:02x?}", crate::model::bits_str(&rev));
    }
    let hex = bytes2hex(bytes);
    let want: String = bytes.iter().flat_map(|b| [b / 16, b % 16]).map(|d| b"0123456789abcdef"[d as usize] as char).collect();
    check!(hex == want, "hex of {bytes:02x?} is {hex:?}");
    for h in [hex.clone(), hex.to_uppercase(), hex.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_uppercase() } else { c }).collect()] {
        match hex2bytes(&h) {
            Ok(v) => check!(v == bytes, "decoding {h:?} gave {v:02x?}"),
            Err(e) => fail!("decoding {h:?} failed: {e:?}"),
        }
    }
    ctx.eval(8);
    Ok(())
}

/// All strings of up to two bytes; the case index is the first byte.
fn c20_bytes(ctx: &mut Ctx) -> Res {
    let a = ctx.idx as u8;
    if a == 0 {
        one_bytes(ctx, &[])?;
    }
    one_bytes(ctx, &[a])?;
    ctx.distinct(fp(&[a], 1));
    for b in 0..=255u8 {
        one_bytes(ctx, &[a, b])?;
        ctx.distinct(fp(&[a, b], 1));
    }
    ctx.count("byte strings, all of up to 2 bytes", 257);
    ctx.sample(|| format!("{:02x?}", [a, 255]));
    Ok(())
}

fn c20_long(ctx: &mut Ctx) -> Res {
    for _ in 0..40 {
        let n = match ctx.rng.below(20) {
            0 => ctx.rng.below(5000),
            1..=3 => 8 + ctx.rng.below(200),
            _ => 3 + ctx.rng.below(30),
        };
        let few = ctx.rng.chance(1, 4);
        let v: Vec<u8> = (0..n).map(|_| if few { *ctx.rng.pick(&[0, 1, 0x80, 0xff]) } else { ctx.rng.u64() as u8 }).collect();
        one_bytes(ctx, &v)?;
        ctx.distinct(fp(&v, 2));
        ctx.max("bytes in a string", n as u64);
        ctx.sample(|| format!("{v:02x?}"));
    }
    Ok(())
}

fn digit(b: u8) -> Option<u8> {
    (b as char).to_digit(16).filter(|_| b.is_ascii()).map(|d| d as u8)
}

fn one_hex(ctx: &mut Ctx, s: &str) -> Res {
    let want: Option<Vec<u8>> = if s.len() % 2 == 1 {
        None
    } else {
        s.as_bytes().chunks(2).map(|p| Some(16 * digit(p[0])? + digit(p[1])?)).collect()
    };
    match (hex2bytes(s), want) {
        (Ok(v), Some(w)) => check!(v == w, "decoding {s:?} gave {v:02x?} instead of {w:02x?}"),
        (Err(_), None) => ctx.count("strings refused", 1),
        (Ok(v), None) => fail!("decoding {s:?} gave {v:02x?} instead of an error"),
        (Err(e), Some(_)) => fail!("decoding {s:?} failed: {e:?}"),
    }
    ctx.eval(1);
    Ok(())
}

/// All strings of up to two ASCII characters; and every character next to valid digits.
fn c20_chars(ctx: &mut Ctx) -> Res {
    let a = ctx.idx as u8 as char;
    if ctx.idx == 0 {
        one_hex(ctx, "")?;
    }
    one_hex(ctx, &a.to_string())?;
    for b in 0..128u8 {
        let s: String = [a, b as char].iter().collect();
        one_hex(ctx, &s)?;
        ctx.distinct(fp(s.as_bytes(), 3));
        one_hex(ctx, &format!("{s}{s}"))?;
        one_hex(ctx, &format!("0{s}"))?;
        one_hex(ctx, &format!("{s}f"))?;
    }
    ctx.count("strings of up to 2 characters", 129);
    ctx.sample(|| format!("{a:?} with every ASCII character"));
    Ok(())
}

fn c20_strings(ctx: &mut Ctx) -> Res {
    for _ in 0..60 {
        let n = match ctx.rng.below(10) {
            0 => ctx.rng.below(600),
            _ => ctx.rng.below(24),
        };
        let mut s: Vec<char> = (0..n).map(|_| *ctx.rng.pick(&"0123456789abcdefABCDEF".chars().collect::<Vec<_>>())).collect();
        if ctx.rng.bit() && n > 0 {
            // One character that is not a digit, anywhere.
            let i = ctx.rng.below(n);
            s[i] = *ctx.rng.pick(&['g', 'G', 'x', ' ', '\n', '-', '+', '/', ':', '@', '`', '\0', '_', 'é', '٣', 'f', '0', '𝟘']);
        }
        if ctx.rng.chance(1, 6) {
            s.push(*ctx.rng.pick(&['\n', ' ', '\r', '0', '\0']));
        }
        if ctx.rng.chance(1, 8) {
            s = "0x".chars().chain(s).collect();
        }
        let s: String = s.into_iter().collect();
        one_hex(ctx, &s)?;
        ctx.distinct(fp(s.as_bytes(), 4));
        ctx.sample(|| format!("{s:?}"));
    }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "all byte strings of up to two bytes and random ones of up to 5000 are converted to bits and hex and back and compared with a reference that divides; all ASCII strings of up to two characters, and random ones with a foreign character anywhere, are decoded; non-trivial: distinct strings",
        assumptions: &["bit strings that are not whole bytes are not specified"],
        kinds: vec![kind("bytes", 256, 256, c20_bytes), kind("long", 600, 12000, c20_long), kind("chars", 128, 128, c20_chars), kind("strings", 1500, 60000, c20_strings)],
    }
}

// ---------------------------------------------------------------- C21

/// Greatest common divisor by halving and subtraction, on magnitudes.
fn binary_gcd(a: &BigUint, b: &BigUint) -> BigUint {
    let zero = BigUint::from(0u32);
    if *a == zero {
        return b.clone();
    }
    if *b == zero {
        return a.clone();
    }
    let (za, zb) = (a.trailing_zeros().unwrap(), b.trailing_zeros().unwrap());
    let (mut x, mut y) = (a >> za, b >> zb);
    while x != y {
        if x < y {
            std::mem::swap(&mut x, &mut y);
        }
        x -= &y;
        if x == zero {
            break;
        }
        x >>= x.trailing_zeros().unwrap();
    }
    y << za.min(zb)
}

fn judge(a: &BigInt, b: &BigInt, gcd: Option<&BigUint>) -> Res {
    let (x, y, d) = ext_gcd(a, b);
    let show = |v: &BigInt| {
        let s = v.to_string();
        if s.len() > 120 {
            format!("{}... ({} digits)", &s[..120], s.len())
        } else {
            s
        }
    };
    check!(a * &x + b * &y == d, "ext_gcd({}, {}) = ({}, {}, {}): the combination is not the divisor", show(a), show(b), show(&x), show(&y), show(&d));
    let zero = BigInt::from(0);
    if d == zero {
        check!(*a == zero && *b == zero, "ext_gcd({}, {}) has divisor 0", show(a), show(b));
    } else {
        check!(a % &d == zero && b % &d == zero, "ext_gcd({}, {}): {} does not divide both", show(a), show(b), show(&d));
    }
    // A common divisor that is a combination is a greatest one; this check does not rely on that.
    if let Some(g) = gcd {
        check!(d.magnitude() == g, "ext_gcd({}, {}): the divisor {} is not the greatest", show(a), show(b), show(&d));
    }
    if a.sign() != Sign::Minus && b.sign() != Sign::Minus {
        check!(d.sign() != Sign::Minus, "ext_gcd({}, {}): the divisor {} is negative", show(a), show(b), show(&d));
    }
    Ok(())
}

const SIDE: i32 = 80;

fn c21_small(ctx: &mut Ctx) -> Res {
    let a = ctx.idx as i32 - SIDE;
    for b in -SIDE..=SIDE {
        let g = binary_gcd(&BigUint::from(a.unsigned_abs()), &BigUint::from(b.unsigned_abs()));
        judge(&a.into(), &b.into(), Some(&g))?;
        ctx.eval(1);
        if a != 0 && b != 0 {
            let mut f = Fp::new();
            f.add(a as u64);
            f.add(b as u64);
            ctx.distinct(f.0);
        }
    }
    ctx.count("pairs of small numbers", 2 * SIDE as u64 + 1);
    ctx.sample(|| format!("{a} with every number from -{SIDE} to {SIDE}"));
    Ok(())
}

fn number(rng: &mut Rng) -> BigInt {
    let bits = match rng.below(12) {
        0 => *rng.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129]),
        1 => 1 + rng.below(2000),
        2..=4 => 1 + rng.below(8),
        _ => 1 + rng.below(300),
    };
    let m = match rng.below(8) {
        0 => BigUint::from(1u32) << bits,
        1 => (BigUint::from(1u32) << bits) - 1u32,
        2 => (BigUint::from(1u32) << bits) + 1u32,
        3 => BigUint::from(rng.below(3) as u32),
        _ => crate::field::big(rng, bits),
    };
    BigInt::from_biguint(if rng.bit() { Sign::Plus } else { Sign::Minus }, m)
}

fn c21_random(ctx: &mut Ctx) -> Res {
    for _ in 0..60 {
        let (mut a, mut b) = (number(&mut ctx.rng), number(&mut ctx.rng));
        match ctx.rng.below(8) {
            // a common factor, multiples, neighbours, equal and opposite numbers
            0 | 1 => {
                let g = number(&mut ctx.rng);
                a *= &g;
                b *= &g;
            }
            2 => a *= &b,
            3 => b *= &a,
            4 => b = a.clone() + 1,
            5 if ctx.rng.bit() => b = a.clone(),
            5 => b = -a.clone(),
            _ => (),
        }
        ctx.note = format!("a = {a}, b = {b}");
        let g = binary_gcd(a.magnitude(), b.magnitude());
        judge(&a, &b, Some(&g))?;
        ctx.eval(1);
        ctx.max("bits of an operand", a.bits().max(b.bits()));
        if g > BigUint::from(1u32) {
            ctx.count("pairs with a common factor", 1);
        }
        if a.sign() == Sign::Minus || b.sign() == Sign::Minus {
            ctx.count("pairs with a negative number", 1);
        }
        if g != BigUint::from(0u32) {
            ctx.distinct(fp(&a.to_signed_bytes_le(), 1) ^ fp(&b.to_signed_bytes_le(), 2));
        }
        ctx.sample(|| format!("a = {a}, b = {b}"));
    }
    Ok(())
}

/// Consecutive Fibonacci numbers and similar pairs make Euclid's algorithm take the most steps.
fn c21_long(ctx: &mut Ctx) -> Res {
    let steps = if ctx.idx == 0 {
        100_000
    } else {
        let top = if ctx.thorough() { 120_000 } else { 40_000 };
        1000 + ctx.rng.below(top)
    };
    let scale = if ctx.rng.bit() { BigUint::from(1u32) } else { number(&mut ctx.rng).magnitude() + 1u32 };
    let mut prev = BigUint::from(0u32);
    let mut cur = BigUint::from(1u32);
    for i in 0..steps {
        // quotients that are mostly 1, sometimes larger
        let q = if ctx.idx > 0 && i % 1000 == 17 { 1 + ctx.rng.below(5) as u32 } else { 1 };
        let next = &cur * q + &prev;
        prev = std::mem::replace(&mut cur, next);
    }
    // Neighbours of this sequence are coprime, whatever the quotients.
    let (mut a, mut b) = (BigInt::from(cur * &scale), BigInt::from(prev * &scale));
    if ctx.idx > 0 {
        if ctx.rng.bit() {
            std::mem::swap(&mut a, &mut b);
        }
        if ctx.rng.chance(1, 3) {
            a = -a;
        }
        if ctx.rng.chance(1, 3) {
            b = -b;
        }
    }
    ctx.note = format!("a pair whose Euclidean algorithm takes {steps} steps, {} bits", a.bits());
    judge(&a, &b, Some(&scale))?;
    ctx.eval(1);
    ctx.max("steps of Euclid's algorithm", steps as u64);
    ctx.max("bits of an operand", a.bits());
    ctx.distinct(fp(&steps.to_le_bytes(), 7) ^ ctx.idx as u64);
    ctx.sample(|| format!("a pair of {} and {} bits that takes {steps} steps", a.bits(), b.bits()));
    Ok(())
}

pub fn c21() -> Prop {
    let long = Kind { stack: 2 << 20, ..kind("long", 12, 60, c21_long) };
    Prop {
        id: "C21",
        rule: "all pairs from -80 to 80, random pairs of up to thousands of bits with common factors, powers of two and all signs, and pairs on which Euclid's algorithm takes up to 100000 steps, on a thread stack of 2 MB; the combination, divisibility and an independent binary gcd are checked; non-trivial: distinct pairs that are not zero",
        assumptions: &[],
        kinds: vec![long, kind("small", 2 * SIDE as usize + 1, 2 * SIDE as usize + 1, c21_small), kind("random", 800, 20000, c21_random)],
    }
}
