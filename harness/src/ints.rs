//! Expression programs over circuit integers and bit vectors: built through the library for any circuit type,
//! and evaluated with integers as the reference.
use crate::rng::{Fp, Rng};
use circuit_converters::arithmetic::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

pub type Ids = Vec<GateId>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Eq,
    Neq,
    Less,
    LessEq,
    Larger,
    LargerEq,
}
pub const CMPS: [Cmp; 6] = [Cmp::Eq, Cmp::Neq, Cmp::Less, Cmp::LessEq, Cmp::Larger, Cmp::LargerEq];

#[derive(Clone, Debug)]
pub enum IOp {
    In,
    Cst(BigUint),
    Zero,
    One,
    /// The lowest bits, each taken from a bit of an earlier value; the rest is zero.
    Short(Vec<(usize, usize)>),
    /// The lowest bit is a comparison result.
    FromBit(usize),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Neg(usize),
    AddA(usize, usize),
    SubA(usize, usize),
    MulA(usize, usize),
    Shl(usize, usize),
    Shr(usize, usize),
    /// Yields a bit, not a value.
    Cmp(Cmp, usize, usize),
}

/// A list of k wires (value, bit) of nv values of n bits: independent ones, runs of one wire, or a
/// value that is rotated, reversed or has neighbouring bits doubled, or parts of two values in place.
pub fn wires(rng: &mut Rng, nv: usize, n: usize, k: usize) -> Vec<(usize, usize)> {
    let w = rng.below(nv);
    let r = rng.below(n);
    let w2 = rng.below(nv);
    match rng.below(9) {
        6 => (0..k).map(|i| (if i % n < r { w } else { w2 }, i % n)).collect(),
        7 => (0..k).map(|i| (if i % n == r { w } else { w2 }, i % n)).collect(),
        8 => {
            // All but a few bits in place, or a mixture of both values.
            let dense = rng.bit();
            (0..k).map(|i| (if if dense { rng.bit() } else { rng.chance(1, 8) } { w } else { w2 }, i % n)).collect()
        }
        0 => (0..k).map(|i| (w, (i + r) % n)).collect(),
        1 => (0..k).map(|i| (w, (n - 1 + r - i % n) % n)).collect(),
        2 => (0..k).map(|i| (w, (i / 2 + r) % n)).collect(),
        3 => {
            let mut l: Vec<(usize, usize)> = vec![];
            for _ in 0..k {
                match l.last() {
                    Some(x) if !rng.chance(1, 3) => l.push(*x),
                    _ => l.push((rng.below(nv), rng.below(n))),
                }
            }
            l
        }
        _ => (0..k).map(|_| (rng.below(nv), rng.below(n))).collect(),
    }
}

pub fn mask(n: usize) -> BigUint {
    (BigUint::from(1u32) << n) - 1u32
}
pub fn bit(v: &BigUint, i: usize) -> bool {
    v.bit(i as u64)
}

/// Values and bits of a program for one assignment of its inputs.
pub fn int_ref(n: usize, prog: &[IOp], inputs: &[BigUint]) -> (Vec<BigUint>, Vec<bool>) {
    let m = BigUint::from(1u32) << n;
    let (mut v, mut b): (Vec<BigUint>, Vec<bool>) = (vec![], vec![]);
    let mut it = inputs.iter();
    // Two's complement with an offset: x + 2^(n-1) mod 2^n orders like the signed value.
    let key = |x: &BigUint| (x + (BigUint::from(1u32) << (n - 1))) % &m;
    for op in prog {
        let r = match op {
            IOp::In => it.next().unwrap().clone(),
            IOp::Cst(c) => c.clone(),
            IOp::Zero => BigUint::from(0u32),
            IOp::One => BigUint::from(1u32),
            IOp::Short(l) => {
                let mut x = BigUint::from(0u32);
                for (i, (w, j)) in l.iter().enumerate() {
                    x.set_bit(i as u64, bit(&v[*w], *j));
                }
                x
            }
            IOp::FromBit(i) => BigUint::from(b[*i] as u32),
            IOp::Add(x, y) | IOp::AddA(x, y) => (&v[*x] + &v[*y]) % &m,
            IOp::Sub(x, y) | IOp::SubA(x, y) => (&v[*x] + &m - &v[*y]) % &m,
            IOp::Mul(x, y) | IOp::MulA(x, y) => (&v[*x] * &v[*y]) % &m,
            IOp::Neg(x) => (&m - &v[*x]) % &m,
            IOp::Shl(x, k) => {
                if *k >= n {
                    BigUint::from(0u32)
                } else {
                    (&v[*x] << *k) % &m
                }
            }
            IOp::Shr(x, k) => {
                // floor division of the signed value
                let neg = bit(&v[*x], n - 1);
                let k = (*k).min(n);
                let low = &v[*x] >> k;
                if neg {
                    low + (mask(n) - (mask(n) >> k))
                } else {
                    low
                }
            }
            IOp::Cmp(k, x, y) => {
                let (a, c) = (&v[*x], &v[*y]);
                b.push(match k {
                    Cmp::Eq => a == c,
                    Cmp::Neq => a != c,
                    Cmp::Less => key(a) < key(c),
                    Cmp::LessEq => key(a) <= key(c),
                    Cmp::Larger => key(a) > key(c),
                    Cmp::LargerEq => key(a) >= key(c),
                });
                continue;
            }
        };
        v.push(r);
    }
    (v, b)
}

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}

pub struct Made {
    pub vals: Vec<Ids>,
    pub bits: Ids,
    /// Gates of the inputs, in order.
    pub ins: Ids,
}

/// Runs the program through the library.
pub fn int_build<G: Gate, C: BoolCircuit<G>, const N: usize>(cfg: &AllocIntConfig<G, C, N>, prog: &[IOp], outs: &[usize]) -> Result<Made, String> {
    let mut v: Vec<AllocInt<G, C, N>> = vec![];
    let mut m = Made { vals: vec![], bits: vec![], ins: vec![] };
    for op in prog {
        let r = match op {
            IOp::In => {
                let x = AllocInt::new(cfg).map_err(es)?;
                m.ins.extend(&x.val_le);
                x
            }
            IOp::Cst(c) => AllocInt::from_biguint(c, cfg).map_err(es)?,
            IOp::Zero => AllocInt::zero(cfg).map_err(es)?,
            IOp::One => AllocInt::one(cfg).map_err(es)?,
            IOp::Short(l) => {
                let ids = l.iter().map(|(w, j)| v[*w].val_le[*j]).collect();
                AllocInt::from_gate_ids(ids, cfg).map_err(es)?
            }
            IOp::FromBit(i) => AllocInt::from_gate_ids(vec![m.bits[*i]], cfg).map_err(es)?,
            IOp::Add(x, y) => &v[*x] + &v[*y],
            IOp::Sub(x, y) => &v[*x] - &v[*y],
            IOp::Mul(x, y) => &v[*x] * &v[*y],
            IOp::Neg(x) => -&v[*x],
            IOp::AddA(x, y) => {
                let mut t = v[*x].clone();
                t += &v[*y];
                t
            }
            IOp::SubA(x, y) => {
                let mut t = v[*x].clone();
                t -= &v[*y];
                t
            }
            IOp::MulA(x, y) => {
                let mut t = v[*x].clone();
                t *= &v[*y];
                t
            }
            IOp::Shl(x, k) => v[*x].shift_left(*k).map_err(es)?,
            IOp::Shr(x, k) => v[*x].shift_right(*k).map_err(es)?,
            IOp::Cmp(k, x, y) => {
                let (a, c) = (&v[*x], &v[*y]);
                m.bits.push(
                    match k {
                        Cmp::Eq => a.eq(c),
                        Cmp::Neq => a.neq(c),
                        Cmp::Less => a.less(c),
                        Cmp::LessEq => a.less_or_eq(c),
                        Cmp::Larger => a.larger(c),
                        Cmp::LargerEq => a.larger_or_eq(c),
                    }
                    .map_err(es)?,
                );
                continue;
            }
        };
        if r.val_le.len() != N {
            return Err(format!("{op:?} gave {} bits at width {N}", r.val_le.len()));
        }
        m.vals.push(r.val_le.clone());
        v.push(r);
    }
    // No operation may have changed its operands.
    for (i, x) in v.iter().enumerate() {
        if x.val_le != m.vals[i] {
            return Err(format!("value {i} of {prog:?} was changed by a later operation"));
        }
    }
    for o in outs {
        v[*o].output().map_err(es)?;
    }
    Ok(m)
}

/// Which operations a generated program may use.
#[derive(Clone, Copy)]
pub struct Mix {
    pub arith: usize,
    pub mul: usize,
    pub cmp: usize,
    pub consts: usize,
    pub shift: usize,
}

pub fn corner(rng: &mut Rng, n: usize) -> BigUint {
    let m = BigUint::from(1u32) << n;
    let one = BigUint::from(1u32);
    let v = match rng.below(10) {
        0 => BigUint::from(0u32),
        1 => one,
        2 => mask(n),
        3 => BigUint::from(1u32) << (n - 1),
        4 => (BigUint::from(1u32) << (n - 1)) - 1u32,
        5 => BigUint::from(1u32) << rng.below(n),
        6 => mask(rng.below(n) + 1),
        7 => mask(n) - (BigUint::from(1u32) << rng.below(n)),
        8 => BigUint::from(rng.below(20) as u32),
        _ => (BigUint::from(1u32) << (n - 1)) + BigUint::from(rng.below(4) as u32),
    };
    v % m
}

pub fn value(rng: &mut Rng, n: usize) -> BigUint {
    if rng.chance(1, 3) {
        return corner(rng, n);
    }
    let mut v = BigUint::from(0u32);
    for _ in 0..n.div_ceil(64) {
        v = (v << 64) + rng.u64();
    }
    v % (BigUint::from(1u32) << n)
}

pub fn gen_int(rng: &mut Rng, n: usize, mix: Mix, steps: usize) -> Vec<IOp> {
    // Now and then only constants, in a circuit without inputs.
    let fixed = rng.chance(1, 12);
    let mut p = vec![if fixed || rng.chance(1, 12) { IOp::Cst(value(rng, n)) } else { IOp::In }];
    let (mut nv, mut nb) = (1, 0);
    let mut kin: Option<(usize, usize)> = None;
    for _ in 0..rng.below(3) {
        p.push(if fixed { IOp::Cst(value(rng, n)) } else { IOp::In });
        nv += 1;
    }
    for _ in 0..steps {
        let (a, b) = (rng.skewed(nv), if rng.chance(1, 5) { rng.below(nv) } else { nv - 1 - rng.below(nv.min(3)) });
        let (a, b) = match kin {
            // Two values that share gates.
            Some(x) if rng.chance(1, 3) => x,
            _ if rng.chance(1, 6) => (b, b),
            _ => (a, b),
        };
        let (a, b) = if rng.bit() { (a, b) } else { (b, a) };
        let mut w = rng.below(mix.arith * 5 + mix.mul * 2 + mix.cmp * 3 + mix.consts * 5 + mix.shift * 2);
        let mut take = |k: usize| {
            if w < k {
                true
            } else {
                w -= k;
                false
            }
        };
        let op = if take(mix.arith) {
            IOp::Add(a, b)
        } else if take(mix.arith) {
            IOp::Sub(a, b)
        } else if take(mix.arith) {
            IOp::Neg(a)
        } else if take(mix.arith) {
            IOp::AddA(a, b)
        } else if take(mix.arith) {
            IOp::SubA(a, b)
        } else if take(mix.mul) {
            IOp::Mul(a, b)
        } else if take(mix.mul) {
            IOp::MulA(a, b)
        } else if take(mix.cmp * 3) {
            p.push(IOp::Cmp(*rng.pick(&CMPS), a, b));
            nb += 1;
            continue;
        } else if take(mix.consts) {
            IOp::Cst(value(rng, n))
        } else if take(mix.consts) {
            IOp::Zero
        } else if take(mix.consts) {
            IOp::One
        } else if take(mix.consts) {
            let k = match rng.below(4) {
                0 => 0,
                1 => n,
                _ => rng.below(n + 1),
            };
            IOp::Short(wires(rng, nv, n, k))
        } else if take(mix.consts) {
            if nb == 0 {
                continue;
            }
            IOp::FromBit(rng.below(nb))
        } else {
            let k = match rng.below(5) {
                0 => n,
                1 => n + rng.below(n + 2),
                2 => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 32, 64, 256]),
                _ => rng.below(n + 1),
            };
            if rng.bit() {
                IOp::Shl(a, k)
            } else {
                IOp::Shr(a, k)
            }
        };
        match &op {
            IOp::Shl(w, _) | IOp::Shr(w, _) => kin = Some((nv, *w)),
            IOp::Short(l) if !l.is_empty() => kin = Some((nv, rng.pick(l).0)),
            _ => {}
        }
        p.push(op);
        nv += 1;
    }
    p
}

pub fn n_inputs(p: &[IOp]) -> usize {
    p.iter().filter(|o| matches!(o, IOp::In)).count()
}

pub fn fingerprint(n: usize, text: &str) -> u64 {
    let mut f = Fp::new();
    f.add(n as u64);
    for ch in text.as_bytes().chunks(8) {
        let mut x = [0u8; 8];
        x[..ch.len()].copy_from_slice(ch);
        f.add(u64::from_le_bytes(x));
    }
    f.0
}

// ---------------------------------------------------------------- bit vectors

#[derive(Clone, Debug)]
pub enum BOp {
    In,
    Cst(Vec<bool>),
    Short(Vec<(usize, usize)>),
    Not(usize),
    And(usize, usize),
    Or(usize, usize),
    Xor(usize, usize),
    AndA(usize, usize),
    OrA(usize, usize),
    XorA(usize, usize),
    /// Receiver, argument, select bit: bit j of value v, or comparison result.
    Mux(usize, usize, Result<(usize, usize), usize>),
    /// Yields a bit.
    Eq(usize, usize),
    Neq(usize, usize),
}

/// Lanes of every bit of every value, and of the comparison results.
pub fn bits_ref(n: usize, prog: &[BOp], inputs: &[u64]) -> (Vec<Vec<u64>>, Vec<u64>) {
    let (mut v, mut b): (Vec<Vec<u64>>, Vec<u64>) = (vec![], vec![]);
    let mut at = 0;
    for op in prog {
        let zip = |x: usize, y: usize, f: fn(u64, u64) -> u64, v: &Vec<Vec<u64>>| -> Vec<u64> { v[x].iter().zip(&v[y]).map(|(a, c)| f(*a, *c)).collect() };
        let r: Vec<u64> = match op {
            BOp::In => {
                at += n;
                inputs[at - n..at].to_vec()
            }
            BOp::Cst(l) => l.iter().map(|b| if *b { !0 } else { 0 }).collect(),
            BOp::Short(l) => {
                let mut x: Vec<u64> = l.iter().map(|(w, j)| v[*w][*j]).collect();
                x.resize(n, 0);
                x
            }
            BOp::Not(x) => v[*x].iter().map(|a| !a).collect(),
            BOp::And(x, y) | BOp::AndA(x, y) => zip(*x, *y, |a, c| a & c, &v),
            BOp::Or(x, y) | BOp::OrA(x, y) => zip(*x, *y, |a, c| a | c, &v),
            BOp::Xor(x, y) | BOp::XorA(x, y) => zip(*x, *y, |a, c| a ^ c, &v),
            BOp::Mux(x, y, s) => {
                let s = match s {
                    Ok((w, j)) => v[*w][*j],
                    Err(i) => b[*i],
                };
                (0..n).map(|i| (v[*x][i] & !s) | (v[*y][i] & s)).collect()
            }
            BOp::Eq(x, y) => {
                b.push(!zip(*x, *y, |a, c| a ^ c, &v).iter().fold(0, |a, c| a | c));
                continue;
            }
            BOp::Neq(x, y) => {
                b.push(zip(*x, *y, |a, c| a ^ c, &v).iter().fold(0, |a, c| a | c));
                continue;
            }
        };
        v.push(r);
    }
    (v, b)
}

pub fn bits_build<G: Gate, C: BoolCircuit<G>, const N: usize>(cfg: &AllocBitsConfig<G, C, N>, prog: &[BOp], outs: &[usize]) -> Result<Made, String> {
    let mut v: Vec<AllocBits<G, C, N>> = vec![];
    let mut m = Made { vals: vec![], bits: vec![], ins: vec![] };
    for op in prog {
        let r = match op {
            BOp::In => {
                let x = AllocBits::new(cfg).map_err(es)?;
                m.ins.extend(&x.bits);
                x
            }
            BOp::Cst(l) => {
                let ids = l.iter().map(|b| cfg.c_ref.clone().constant(*b)).collect::<Result<Vec<_>, _>>().map_err(|e| format!("building failed: {e:?}"))?;
                AllocBits::from_gate_ids(ids, cfg).map_err(es)?
            }
            BOp::Short(l) => AllocBits::from_gate_ids(l.iter().map(|(w, j)| v[*w].bits[*j]).collect(), cfg).map_err(es)?,
            BOp::Not(x) => !&v[*x],
            BOp::And(x, y) => &v[*x] & &v[*y],
            BOp::Or(x, y) => &v[*x] | &v[*y],
            BOp::Xor(x, y) => &v[*x] ^ &v[*y],
            BOp::AndA(x, y) => {
                let mut t = v[*x].clone();
                t &= &v[*y];
                t
            }
            BOp::OrA(x, y) => {
                let mut t = v[*x].clone();
                t |= &v[*y];
                t
            }
            BOp::XorA(x, y) => {
                let mut t = v[*x].clone();
                t ^= &v[*y];
                t
            }
            BOp::Mux(x, y, s) => {
                let s = match s {
                    Ok((w, j)) => v[*w].bits[*j],
                    Err(i) => m.bits[*i],
                };
                v[*x].mux(&v[*y], &s).map_err(es)?
            }
            BOp::Eq(x, y) => {
                m.bits.push(v[*x].eq(&v[*y]).map_err(es)?);
                continue;
            }
            BOp::Neq(x, y) => {
                m.bits.push(v[*x].neq(&v[*y]).map_err(es)?);
                continue;
            }
        };
        if r.bits.len() != N {
            return Err(format!("{op:?} gave {} bits at width {N}", r.bits.len()));
        }
        m.vals.push(r.bits.clone());
        v.push(r);
    }
    for (i, x) in v.iter().enumerate() {
        if x.bits != m.vals[i] {
            return Err(format!("value {i} of {prog:?} was changed by a later operation"));
        }
    }
    for o in outs {
        v[*o].output().map_err(es)?;
    }
    Ok(m)
}

pub fn gen_bits(rng: &mut Rng, n: usize, steps: usize) -> Vec<BOp> {
    let word = |rng: &mut Rng| -> BOp {
        let v = value(rng, n);
        BOp::Cst((0..n).map(|i| bit(&v, i)).collect())
    };
    // Now and then only constants, in a circuit without inputs.
    let fixed = rng.chance(1, 12);
    let mut p = vec![if fixed || rng.chance(1, 12) { word(rng) } else { BOp::In }];
    let (mut nv, mut nb) = (1, 0);
    let mut kin: Option<(usize, usize)> = None;
    for _ in 0..rng.below(3) {
        p.push(if fixed { word(rng) } else { BOp::In });
        nv += 1;
    }
    for _ in 0..steps {
        let (a, b) = (rng.skewed(nv), if rng.chance(1, 5) { rng.below(nv) } else { nv - 1 - rng.below(nv.min(3)) });
        let (a, b) = match kin {
            // Two values that share gates.
            Some(x) if rng.chance(1, 3) => x,
            _ if rng.chance(1, 6) => (b, b),
            _ => (a, b),
        };
        let (a, b) = if rng.bit() { (a, b) } else { (b, a) };
        let op = match rng.below(13) {
            0 => {
                let k = *rng.pick(&[0, 1, n / 2, n - 1, n, n]);
                BOp::Short(wires(rng, nv, n, k))
            }
            1 => BOp::Not(a),
            2 => BOp::And(a, b),
            3 => BOp::Or(a, b),
            4 => BOp::Xor(a, b),
            5 => BOp::AndA(a, b),
            6 => BOp::OrA(a, b),
            7 => BOp::XorA(a, b),
            8 | 9 => BOp::Mux(a, b, if nb > 0 && rng.bit() { Err(rng.below(nb)) } else { Ok((rng.below(nv), rng.below(n))) }),
            12 => word(rng),
            10 => {
                p.push(BOp::Eq(a, b));
                nb += 1;
                continue;
            }
            _ => {
                p.push(BOp::Neq(a, b));
                nb += 1;
                continue;
            }
        };
        match &op {
            BOp::Short(l) if !l.is_empty() => kin = Some((nv, rng.pick(l).0)),
            _ => {}
        }
        p.push(op);
        nv += 1;
    }
    p
}
