//! Expression programs over field elements, for any circuit type.
use crate::rng::Rng;
use circuit_converters::finite_field::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

#[derive(Clone, Debug)]
pub enum FOp {
    In,
    Cst(BigUint),
    Zero,
    One,
    /// The same gates again.
    Copy(usize),
    /// Bits of earlier values, few enough to stay below the modulus; the rest is zero.
    Bits(Vec<(usize, usize)>),
    Add(usize, usize),
    Sub(usize, usize),
    Neg(usize),
    AddA(usize, usize),
    SubA(usize, usize),
    /// Only at the end of programs that are about multiplication.
    Mul(usize, usize),
    MulA(usize, usize),
    Eq(usize, usize),
    Neq(usize, usize),
}

pub fn is_bit(o: &FOp) -> bool {
    matches!(o, FOp::Eq(..) | FOp::Neq(..))
}

pub fn field_ref(p: &BigUint, prog: &[FOp], inputs: &[BigUint]) -> (Vec<BigUint>, Vec<bool>) {
    let (mut v, mut b): (Vec<BigUint>, Vec<bool>) = (vec![], vec![]);
    let mut it = inputs.iter();
    for op in prog {
        let r = match op {
            FOp::In => it.next().unwrap().clone(),
            FOp::Cst(c) => c.clone(),
            FOp::Zero => BigUint::from(0u32),
            FOp::One => BigUint::from(1u32),
            FOp::Copy(x) => v[*x].clone(),
            FOp::Bits(l) => {
                let mut x = BigUint::from(0u32);
                for (i, (w, j)) in l.iter().enumerate() {
                    x.set_bit(i as u64, v[*w].bit(*j as u64));
                }
                x
            }
            FOp::Add(x, y) | FOp::AddA(x, y) => (&v[*x] + &v[*y]) % p,
            FOp::Sub(x, y) | FOp::SubA(x, y) => (&v[*x] + p - &v[*y]) % p,
            FOp::Neg(x) => (p - &v[*x]) % p,
            FOp::Mul(x, y) | FOp::MulA(x, y) => (&v[*x] * &v[*y]) % p,
            FOp::Eq(x, y) => {
                b.push(v[*x] == v[*y]);
                continue;
            }
            FOp::Neq(x, y) => {
                b.push(v[*x] != v[*y]);
                continue;
            }
        };
        v.push(r);
    }
    (v, b)
}

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}

pub fn field_build<G: Gate, C: BoolCircuit<G>, const N: usize>(
    cfg: &AllocFpConfig<G, C, N>,
    prog: &[FOp],
    outs: &[usize],
) -> Result<(Vec<Vec<GateId>>, Vec<GateId>), String> {
    let mut v: Vec<AllocFp<G, C, N>> = vec![];
    let (mut vals, mut bits): (Vec<Vec<GateId>>, Vec<GateId>) = (vec![], vec![]);
    for op in prog {
        let r = match op {
            FOp::In => AllocFp::new(cfg).map_err(es)?,
            FOp::Cst(c) => AllocFp::from_biguint_unchecked(c, cfg),
            FOp::Zero => AllocFp::zero(cfg).map_err(es)?,
            FOp::One => AllocFp::one(cfg).map_err(es)?,
            FOp::Copy(x) => AllocFp::from_gate_ids_unchecked(v[*x].to_gate_ids(), cfg),
            FOp::Bits(l) => AllocFp::from_gate_ids_unchecked(l.iter().map(|(w, j)| v[*w].to_gate_ids()[*j]).collect(), cfg),
            FOp::Add(x, y) => &v[*x] + &v[*y],
            FOp::Sub(x, y) => &v[*x] - &v[*y],
            FOp::Neg(x) => -&v[*x],
            FOp::Mul(x, y) => &v[*x] * &v[*y],
            FOp::AddA(x, y) => {
                let mut t = v[*x].clone();
                t += &v[*y];
                t
            }
            FOp::SubA(x, y) => {
                let mut t = v[*x].clone();
                t -= &v[*y];
                t
            }
            FOp::MulA(x, y) => {
                let mut t = v[*x].clone();
                t *= &v[*y];
                t
            }
            FOp::Eq(x, y) => {
                bits.push(v[*x].eq(&v[*y]).map_err(es)?);
                continue;
            }
            FOp::Neq(x, y) => {
                bits.push(v[*x].neq(&v[*y]).map_err(es)?);
                continue;
            }
        };
        let ids = r.to_gate_ids();
        if ids.len() != N {
            return Err(format!("{op:?} gave {} bits at width {N}", ids.len()));
        }
        vals.push(ids);
        v.push(r);
    }
    for (i, x) in v.iter().enumerate() {
        if x.to_gate_ids() != vals[i] {
            return Err(format!("value {i} of {prog:?} was changed by a later operation"));
        }
    }
    for o in outs {
        v[*o].output().map_err(es)?;
    }
    Ok((vals, bits))
}

pub fn big(rng: &mut Rng, bits: usize) -> BigUint {
    let mut v = BigUint::from(0u32);
    for _ in 0..bits.div_ceil(64) {
        v = (v << 64) + rng.u64();
    }
    v % (BigUint::from(1u32) << bits)
}

/// An odd modulus below 2^r.
pub fn modulus(rng: &mut Rng, r: usize) -> BigUint {
    let one = BigUint::from(1u32);
    let top = &one << r;
    let p = match rng.below(8) {
        0 => &top - &one,
        1 => one.clone(),
        2 => BigUint::from(3u32),
        3 => (&top >> 1) + &one,
        4 if r > 2 => (&top >> 1) - &one,
        5 => {
            let k = 1 + rng.below(r);
            big(rng, k)
        }
        _ => big(rng, r),
    };
    let p = p % &top;
    if p.bit(0) {
        p
    } else {
        p + one
    }
}

/// An element of the field, often near the ends.
pub fn element(rng: &mut Rng, p: &BigUint) -> BigUint {
    match rng.below(6) {
        0 => BigUint::from(rng.below(3) as u32) % p,
        1 => (p - BigUint::from(1u32) + p - (BigUint::from(rng.below(3) as u32) % p)) % p,
        2 => ((p >> 1) + BigUint::from(rng.below(3) as u32)) % p,
        _ => big(rng, p.bits() as usize + 8) % p,
    }
}

pub fn gen_field(rng: &mut Rng, p: &BigUint, n: usize, steps: usize) -> Vec<FOp> {
    // Now and then only constants, in a circuit without inputs.
    let fixed = rng.chance(1, 12);
    let mut prog = vec![if fixed || rng.chance(1, 12) { FOp::Cst(element(rng, p)) } else { FOp::In }];
    let mut nv = 1;
    for _ in 0..rng.below(3) {
        prog.push(if fixed { FOp::Cst(element(rng, p)) } else { FOp::In });
        nv += 1;
    }
    for _ in 0..steps {
        let (a, b) = (rng.skewed(nv), nv - 1 - rng.below(nv.min(3)));
        let (a, b) = if rng.chance(1, 6) { (b, b) } else if rng.bit() { (a, b) } else { (b, a) };
        let op = match rng.below(15) {
            0 => FOp::Cst(element(rng, p)),
            1 if *p > BigUint::from(1u32) => FOp::One,
            2 => FOp::Zero,
            3 => FOp::Copy(a),
            13 => {
                let k = p.bits() as usize - 1;
                let mut l = if k > 0 { crate::ints::wires(rng, nv, p.bits() as usize, k) } else { vec![] };
                l.truncate(if rng.bit() { k } else { rng.below(k + 1) });
                // all N bits, the high ones being the same zero
                if rng.chance(1, 3) && p.bits() as usize <= n - 2 {
                    let zero = (rng.below(nv), p.bits() as usize + rng.below(n - p.bits() as usize));
                    l.resize(n, zero);
                }
                prog.push(FOp::Bits(l));
                nv += 1;
                // Use it at once, so that repeated wires reach every operation often.
                let (x, y) = if rng.bit() { (nv - 1, rng.below(nv)) } else { (rng.below(nv), nv - 1) };
                match rng.below(6) {
                    0 => FOp::Add(x, y),
                    1 => FOp::Sub(x, y),
                    2 | 3 => FOp::AddA(x, y),
                    _ => FOp::SubA(x, y),
                }
            }
            4 | 5 => FOp::Sub(a, b),
            6 => FOp::SubA(a, b),
            7 => FOp::AddA(a, b),
            8 => FOp::Neg(a),
            9 => {
                prog.push(FOp::Eq(a, b));
                continue;
            }
            10 => {
                prog.push(FOp::Neq(a, b));
                continue;
            }
            _ => FOp::Add(a, b),
        };
        prog.push(op);
        nv += 1;
    }
    prog
}
