//! C16 C17: field circuits.
use super::arith::{from_lanes, to_lanes};
use crate::at_width;
use crate::field::*;
use crate::ints::fingerprint;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

type Cfg<const N: usize> = AllocFpConfig<NXAOBoolGate, NXAOBoolCircuit, N>;

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

fn config<const N: usize>(c: &Nx, p: &BigUint, r: usize) -> Result<Cfg<N>, String> {
    let ic = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(c).map_err(es)?;
    AllocFpConfig::new(c, &ic, p.clone(), r).map_err(es)
}

/// Builds the programs over one field and compares every value with integers modulo p.
fn field_case<const N: usize>(ctx: &mut Ctx, p: &BigUint, r: usize, progs: &[Vec<FOp>], batches: &[Vec<Vec<BigUint>>]) -> Res {
    ctx.note = format!("p = {p}, r = {r}, width {N}, programs {progs:?}");
    let mut c = new_circuit();
    let cfg = config::<N>(&c, p, r)?;
    let mut made = vec![];
    let mut outs: Vec<(usize, Result<usize, usize>)> = vec![];
    for (pi, pr) in progs.iter().enumerate() {
        let nv = pr.iter().filter(|o| !is_bit(o)).count();
        let sel: Vec<usize> = (0..nv).filter(|i| i + 1 == nv || ctx.rng.bit()).collect();
        let m = field_build(&cfg, pr, &sel)?;
        outs.extend(sel.into_iter().map(|i| (pi, Ok(i))));
        for (i, b) in m.1.iter().enumerate() {
            c.output(*b).map_err(eb)?;
            outs.push((pi, Err(i)));
        }
        made.push(m);
    }
    let roots: Vec<GateId> = made.iter().flat_map(|m| m.0.iter().flatten().chain(m.1.iter())).copied().collect();
    let flat = sim::compile(&c, &roots)?;
    for rows in batches {
        let inp = to_lanes(N, rows);
        let regs = flat.regs(&inp);
        let got = flat.run(&inp);
        let reg = |g: &GateId| regs[flat.reg_of[g] as usize];
        let pick = ctx.rng.below(rows.len());
        for (l, row) in rows.iter().enumerate() {
            let mut at = 0;
            let mut want: Vec<bool> = vec![];
            let mut refs = vec![];
            for (pi, pr) in progs.iter().enumerate() {
                let k = pr.iter().filter(|o| matches!(o, FOp::In)).count();
                at += k;
                let (v, b) = field_ref(p, pr, &row[at - k..at]);
                for (i, ids) in made[pi].0.iter().enumerate() {
                    let g = from_lanes(&ids.iter().map(reg).collect::<Vec<_>>(), l);
                    if g != v[i] {
                        let op = pr.iter().filter(|o| !is_bit(o)).nth(i);
                        fail!("program {pi}, value {i} ({op:?}): {g} instead of {} for inputs {row:?}", v[i]);
                    }
                }
                for (i, id) in made[pi].1.iter().enumerate() {
                    let op = pr.iter().filter(|o| is_bit(o)).nth(i);
                    check!(((reg(id) >> l) & 1 == 1) == b[i], "{op:?} is not {} for inputs {row:?} with values {v:?}", b[i]);
                }
                ctx.eval((v.len() + b.len()) as u64);
                refs.push((v, b));
            }
            if l == pick {
                for (pi, o) in &outs {
                    match o {
                        Ok(i) => want.extend((0..N).map(|j| refs[*pi].0[*i].bit(j as u64))),
                        Err(i) => want.push(refs[*pi].1[*i]),
                    }
                }
                let real = crate::util::eval_real(&c, &lane(&inp, l))?;
                check!(real == want && lane(&got, l) == want, "evaluating inputs {row:?} gave {} instead of {}", bits_str(&real), bits_str(&want));
                ctx.count("runs of the real evaluator", 1);
            }
        }
        ctx.count("input rows", rows.len() as u64);
    }
    Ok(())
}

fn random_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let r = if ctx.rng.bit() { (N - 2) / 2 } else { 1 + ctx.rng.below((N - 2) / 2) };
    let p = modulus(&mut ctx.rng, r);
    let np = if N <= 24 { 3 } else { 1 };
    let progs: Vec<Vec<FOp>> = (0..np)
        .map(|_| {
            let k = 1 + ctx.rng.below(7);
            gen_field(&mut ctx.rng, &p, N, k)
        })
        .collect();
    let k = progs.iter().flatten().filter(|o| matches!(o, FOp::In)).count();
    let rows: Vec<Vec<BigUint>> = (0..64).map(|_| related(&mut ctx.rng, &p, k)).collect();
    field_case::<N>(ctx, &p, r, &progs, &[rows])?;
    ctx.distinct(fingerprint(N, &format!("{p} {r} {progs:?}")));
    ctx.count(&format!("fields at width {N:03}"), 1);
    ctx.sample(|| format!("p = {p}, r = {r}, width {N}: {progs:?}"));
    Ok(())
}

/// Elements whose sums and differences are often 0, p, or next to them.
fn related(rng: &mut Rng, p: &BigUint, k: usize) -> Vec<BigUint> {
    let mut v: Vec<BigUint> = (0..k).map(|_| element(rng, p)).collect();
    if k > 1 && rng.bit() {
        let (i, j) = (rng.below(k), rng.below(k));
        v[i] = match rng.below(5) {
            0 => v[j].clone(),
            1 => (p - &v[j]) % p,
            2 => (p - &v[j] + 1u32) % p,
            3 => (p - &v[j] + p - 1u32) % p,
            _ => (&v[j] + 1u32) % p,
        };
    }
    v
}

fn c16_random(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx % 40 {
        0 => 66,
        1 => *ctx.rng.pick(&[48, 64, 34]),
        2..=5 => *ctx.rng.pick(&[20, 24, 32]),
        _ => *ctx.rng.pick(&[4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18]),
    };
    at_width!(n, random_at(ctx); 4 5 6 7 8 9 10 11 12 14 16 18 20 24 32 34 48 64 66)
}

/// Every odd modulus below 2^r with all pairs of elements.
fn exhaustive_at<const N: usize>(ctx: &mut Ctx, r: usize, p: u32) -> Res {
    let p = BigUint::from(p);
    let prog = vec![
        FOp::In,
        FOp::In,
        FOp::Add(0, 1),
        FOp::Sub(0, 1),
        FOp::Neg(0),
        FOp::AddA(0, 1),
        FOp::SubA(0, 1),
        FOp::Add(0, 0),
        FOp::Sub(0, 0),
        FOp::Eq(0, 1),
        FOp::Neq(0, 1),
        FOp::Neg(3),
        FOp::Add(0, 4),
        FOp::Zero,
        FOp::Eq(10, 11),
        FOp::Sub(2, 3),
        FOp::Eq(7, 12),
        FOp::Add(9, 8),
    ];
    let n = p.to_u32_digits()[0];
    let all: Vec<Vec<BigUint>> = (0..n).flat_map(|a| (0..n).map(move |b| vec![BigUint::from(a), BigUint::from(b)])).collect();
    let batches: Vec<_> = all.chunks(64).map(|c| c.to_vec()).collect();
    field_case::<N>(ctx, &p, r, &[prog], &batches)?;
    ctx.distinct(fingerprint(N, &format!("all pairs {p} {r}")));
    ctx.count("moduli with all pairs", 1);
    Ok(())
}

/// (r, p) number i: all odd p below 2^r, r from 1 to 6.
fn small_field(mut i: usize) -> (usize, u32) {
    for r in 1..=6 {
        let k = 1usize << (r - 1);
        if i < k {
            return (r, 2 * i as u32 + 1);
        }
        i -= k;
    }
    unreachable!()
}
const SMALL_FIELDS: usize = 63;

fn c16_exhaustive(ctx: &mut Ctx) -> Res {
    let (r, p) = small_field(ctx.idx % SMALL_FIELDS);
    let n = match ctx.idx / SMALL_FIELDS {
        0 => 2 * r + 2,
        k => 2 * r + 2 + k,
    };
    at_width!(n, exhaustive_at(ctx, r, p); 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "every odd modulus below 2^r for r up to 6 with all pairs of elements, and random moduli up to 32 bits with random programs over + - neg, assigning forms, constants and equality at 19 widths; every intermediate value is compared with integers modulo p in 64 lanes and through the real evaluator; non-trivial: distinct by width, modulus, radix and program",
        assumptions: &["operands are canonical; radix exponents above 32 are not built"],
        kinds: vec![kind("exhaustive", SMALL_FIELDS, 2 * SMALL_FIELDS, c16_exhaustive), kind("random", 320, 4000, c16_random)],
    }
}

// ---------------------------------------------------------------- C17

/// Reduction of the given numbers, which are below p * 2^r.
fn redc_case<const N: usize>(ctx: &mut Ctx, c: &mut Nx, cfg: &Cfg<N>, p: &BigUint, r: usize, ts: &[BigUint]) -> Res {
    let ids: Vec<GateId> = (0..N).map(|_| c.input().unwrap()).collect();
    let red = c.module(&cfg.mont_red_mid, &ids).map_err(eb)?;
    check!(red.len() == N, "the reduction has {} outputs at width {N}", red.len());
    let first_out = c.output_len();
    for o in &red {
        c.output(*o).map_err(eb)?;
    }
    let n_in = c.input_len();
    let flat = sim::compile(c, &[])?;
    for chunk in ts.chunks(64) {
        let rows: Vec<Vec<BigUint>> = chunk.iter().map(|t| vec![t.clone()]).collect();
        let mut inp = vec![0u64; n_in - N];
        inp.extend(to_lanes(N, &rows));
        let got = flat.run(&inp);
        for (l, t) in chunk.iter().enumerate() {
            let g = from_lanes(&got[first_out..first_out + N], l);
            // The representative is the only number in [0, p) with g * 2^r = t modulo p, as p is odd.
            check!(&g < p, "reducing {t} gave {g}, which is not below the modulus");
            check!((&g << r) % p == t % p, "reducing {t} gave {g}");
            ctx.eval(1);
        }
        let l = ctx.rng.below(chunk.len());
        let real = crate::util::eval_real(c, &lane(&inp, l))?;
        check!(real == lane(&got, l), "the evaluator disagrees on {}", chunk[l]);
    }
    ctx.count("numbers reduced", ts.len() as u64);
    Ok(())
}

/// Products; a product that is always zero is the known finding.
fn mul_case<const N: usize>(ctx: &mut Ctx, p: &BigUint, r: usize, rows: &[Vec<BigUint>]) -> Res {
    let c = new_circuit();
    let cfg = config::<N>(&c, p, r)?;
    let prog = vec![FOp::In, FOp::In, FOp::Mul(0, 1), FOp::MulA(0, 1), FOp::Mul(0, 0)];
    let (vals, _) = field_build(&cfg, &prog, &[2, 3, 4])?;
    let roots: Vec<GateId> = vals.iter().flatten().copied().collect();
    let flat = sim::compile(&c, &roots)?;
    let mut known = None;
    for chunk in rows.chunks(64) {
        let inp = to_lanes(N, chunk);
        let regs = flat.regs(&inp);
        let mut wrong = 0u64;
        for (l, row) in chunk.iter().enumerate() {
            let (v, _) = field_ref(p, &prog, row);
            for i in 2..5 {
                let g = from_lanes(&vals[i].iter().map(|g| regs[flat.reg_of[g] as usize]).collect::<Vec<_>>(), l);
                ctx.eval(1);
                if g == v[i] {
                    continue;
                }
                wrong += 1;
                // The squared radix is reduced by the radix instead of the modulus, so it is zero, and so is every product.
                if g == BigUint::from(0u32) && cfg.r2 == BigUint::from(0u32) {
                    known = Some(format!("p = {p}, r = {r}: {:?} of {row:?} gave 0 instead of {}", prog[i], v[i]));
                } else {
                    fail!("{:?} of {row:?} gave {g} instead of {}", prog[i], v[i]);
                }
            }
        }
        ctx.count("wrong products (known finding)", wrong);
        let l = ctx.rng.below(chunk.len());
        let real = crate::util::eval_real(&c, &lane(&inp, l))?;
        check!(real == lane(&flat.run(&inp), l), "the evaluator disagrees on {:?}", chunk[l]);
    }
    match known {
        Some(m) => Err(Fail::Known("field-product-is-zero", m)),
        None => Ok(()),
    }
}

fn c17_at<const N: usize>(ctx: &mut Ctx, r: usize, p: &BigUint, ts: &[BigUint], rows: &[Vec<BigUint>]) -> Res {
    ctx.note = format!("p = {p}, r = {r}, width {N}");
    let mut c = new_circuit();
    for _ in 0..ctx.rng.below(3) {
        c.input().map_err(eb)?;
    }
    let cfg = config::<N>(&c, p, r)?;
    check!(&cfg.p == p && cfg.r_exp == r, "the configuration holds other parameters");
    redc_case::<N>(ctx, &mut c, &cfg, p, r, ts)?;
    ctx.distinct(fingerprint(N, &format!("{p} {r} {}", ts.len())));
    ctx.sample(|| format!("p = {p}, r = {r}, width {N}: {:?}", &ts[..ts.len().min(5)]));
    mul_case::<N>(ctx, p, r, rows)
}

fn c17_exhaustive(ctx: &mut Ctx) -> Res {
    let (r, p) = small_field(ctx.idx % SMALL_FIELDS);
    let n = 2 * r + 2 + ctx.idx / SMALL_FIELDS;
    let ts: Vec<BigUint> = (0..p << r).map(BigUint::from).collect();
    let rows: Vec<Vec<BigUint>> = (0..p).flat_map(|a| (0..p).map(move |b| vec![BigUint::from(a), BigUint::from(b)])).collect();
    let p = BigUint::from(p);
    ctx.count("moduli with every number reduced", 1);
    at_width!(n, c17_at(ctx, r, &p, &ts, &rows); 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

fn c17_random_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let r = if ctx.rng.bit() { (N - 2) / 2 } else { 1 + ctx.rng.below((N - 2) / 2) };
    let p = modulus(&mut ctx.rng, r);
    let top = &p << r;
    let one = BigUint::from(1u32);
    let mut ts = vec![BigUint::from(0u32), one.clone() % &top, &top - &one, p.clone() % &top, &p - &one, (&one << r) % &top];
    for _ in 0..122 {
        let k = BigUint::from(ctx.rng.below(5) as u32);
        let t = match ctx.rng.below(6) {
            // multiples of the modulus and of the radix, and their neighbours
            0 => &p * big(&mut ctx.rng, r) + k,
            1 => (element(&mut ctx.rng, &p) << r) + k,
            2 => &top * 5u32 - &one - k,
            3 => element(&mut ctx.rng, &p) * element(&mut ctx.rng, &p),
            4 => big(&mut ctx.rng, r) + k,
            _ => big(&mut ctx.rng, 2 * r + 8),
        };
        ts.push(t % &top);
    }
    let rows: Vec<Vec<BigUint>> = (0..64).map(|_| related(&mut ctx.rng, &p, 2)).collect();
    ctx.count(&format!("fields at width {N:03}"), 1);
    c17_at::<N>(ctx, r, &p, &ts, &rows)
}
fn c17_random(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx % 40 {
        0 => 66,
        1 => *ctx.rng.pick(&[48, 64, 34]),
        2..=5 => *ctx.rng.pick(&[20, 24, 32]),
        _ => *ctx.rng.pick(&[4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 16, 18]),
    };
    at_width!(n, c17_random_at(ctx); 4 5 6 7 8 9 10 11 12 14 16 18 20 24 32 34 48 64 66)
}
/// One field of more than 64 bits.
fn c17_wide(ctx: &mut Ctx) -> Res {
    let n = 130;
    at_width!(n, c17_random_at(ctx); 130)
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "every odd modulus below 2^r for r up to 6 with every number below p*2^r reduced and all pairs multiplied, and random moduli up to 64 bits with random and extreme numbers; a reduction g is right when g < p and g*2^r = T mod p; non-trivial: distinct by width, modulus and radix",
        assumptions: &["radix exponents above 64 are not built"],
        kinds: vec![kind("wide", 1, 4, c17_wide), kind("exhaustive", SMALL_FIELDS, 2 * SMALL_FIELDS, c17_exhaustive), kind("random", 320, 4000, c17_random)],
    }
}
