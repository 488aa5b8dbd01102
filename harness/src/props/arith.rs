//! C12 C13 C14 C15: integer and bit-vector circuits.
use crate::ints::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;

#[macro_export]
macro_rules! at_width {
    ($n:expr, $f:ident $a:tt; $($w:literal)*) => {
        match $n { $($w => $f::<$w> $a,)* n => panic!("width {n} is not instantiated") }
    };
}

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

/// Bits of the inputs, lane by lane.
pub fn to_lanes(n: usize, rows: &[Vec<BigUint>]) -> Vec<u64> {
    let k = rows[0].len();
    let mut v = vec![0u64; k * n];
    for (l, r) in rows.iter().enumerate() {
        for (i, x) in r.iter().enumerate() {
            for j in 0..n {
                v[i * n + j] |= (bit(x, j) as u64) << l;
            }
        }
    }
    v
}
pub fn from_lanes(v: &[u64], l: usize) -> BigUint {
    let mut x = BigUint::from(0u32);
    for (j, w) in v.iter().enumerate() {
        if (w >> l) & 1 == 1 {
            x.set_bit(j as u64, true);
        }
    }
    x
}

/// Rows of operands that stress carries, signs and near-equality.
fn rows(rng: &mut Rng, n: usize, k: usize, count: usize) -> Vec<Vec<BigUint>> {
    (0..count)
        .map(|_| {
            let mut r: Vec<BigUint> = (0..k).map(|_| value(rng, n)).collect();
            if k > 1 && rng.chance(1, 3) {
                // operands that are equal, neighbours, complements or differ in one bit
                let (i, j) = (rng.below(k), rng.below(k));
                let m = BigUint::from(1u32) << n;
                r[i] = match rng.below(6) {
                    0 => r[j].clone(),
                    1 => (&r[j] + 1u32) % &m,
                    2 => (&r[j] + mask(n)) % &m,
                    3 => mask(n) - &r[j],
                    4 => (&m - &r[j]) % &m,
                    _ => {
                        let mut x = r[j].clone();
                        let b = rng.below(n) as u64;
                        x.set_bit(b, !x.bit(b));
                        x
                    }
                };
            }
            r
        })
        .collect()
}

/// Where the circuit of a case lives.
fn place(ctx: &mut Ctx) -> (Nx, Nx, Option<ModuleId>) {
    let mut top = new_circuit();
    match ctx.rng.below(3) {
        0 => (top.clone(), top, None),
        1 => {
            // a storage that already holds modules
            for _ in 0..1 + ctx.rng.below(3) {
                let o = new_circuit();
                top.register_module(&o);
            }
            (top.clone(), top, None)
        }
        _ => {
            let (mid, sub) = top.sub_circuit();
            (top, sub, Some(mid))
        }
    }
}

/// Wraps the sub-circuit in a call when it has a module id.
fn finish(top: &mut Nx, sub: &Nx, mid: Option<ModuleId>) -> Result<(), String> {
    if let Some(m) = mid {
        let mut ids = vec![];
        for _ in 0..sub.input_len() {
            ids.push(top.input().map_err(eb)?);
        }
        for o in top.module(&m, &ids).map_err(eb)? {
            top.output(o).map_err(eb)?;
        }
    }
    Ok(())
}

fn select(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).filter(|_| rng.chance(2, 3)).collect();
    if n > 0 {
        v.push(n - 1);
        if rng.chance(1, 4) {
            v.push(rng.below(n));
        }
    }
    rng.shuffle(&mut v);
    v
}

/// Builds the programs in one circuit and compares every value with integers, on up to 64 rows of inputs at a time.
fn int_case<const N: usize>(ctx: &mut Ctx, progs: &[Vec<IOp>], batches: &[Vec<Vec<BigUint>>], real: usize) -> Res {
    let (mut top, mut sub, mid) = place(ctx);
    ctx.note = format!("width {N}, in a module: {}, programs {progs:?}", mid.is_some());
    let cfg = if mid.is_some() && ctx.rng.bit() {
        // the modules registered through the parent, used in the sub-circuit
        let mut c = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&top).map_err(es)?;
        c.c_ref = sub.clone();
        c
    } else {
        AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&sub).map_err(es)?
    };
    let mut made = vec![];
    let mut outs: Vec<(usize, Result<usize, usize>)> = vec![];
    for (pi, p) in progs.iter().enumerate() {
        let nv = p.iter().filter(|o| !matches!(o, IOp::Cmp(..))).count();
        let sel = select(&mut ctx.rng, nv);
        let m = int_build(&cfg, p, &sel)?;
        outs.extend(sel.into_iter().map(|i| (pi, Ok(i))));
        for b in select(&mut ctx.rng, m.bits.len()) {
            sub.output(m.bits[b]).map_err(eb)?;
            outs.push((pi, Err(b)));
        }
        made.push(m);
    }
    finish(&mut top, &sub, mid)?;
    let roots: Vec<GateId> = made.iter().flat_map(|m| m.vals.iter().flatten().chain(m.bits.iter())).copied().collect();
    let flat = sim::compile(&sub, &roots)?;
    let outer = if mid.is_some() { Some(sim::compile(&top, &[])?) } else { None };
    for rows in batches {
        let inp = to_lanes(N, rows);
        let regs = flat.regs(&inp);
        let mut want_outs: Vec<u64> = vec![];
        // refs[lane][program]
        let refs: Vec<Vec<(Vec<BigUint>, Vec<bool>)>> = rows
            .iter()
            .map(|r| {
                let mut at = 0;
                progs
                    .iter()
                    .map(|p| {
                        let k = n_inputs(p);
                        at += k;
                        int_ref(N, p, &r[at - k..at])
                    })
                    .collect()
            })
            .collect();
        for (l, rf) in refs.iter().enumerate() {
            for (pi, m) in made.iter().enumerate() {
                for (i, ids) in m.vals.iter().enumerate() {
                    let got = from_lanes(&ids.iter().map(|g| regs[flat.reg_of[g] as usize]).collect::<Vec<_>>(), l);
                    if got != rf[pi].0[i] {
                        let op = progs[pi].iter().filter(|o| !matches!(o, IOp::Cmp(..))).nth(i);
                        fail!("program {pi}, value {i} ({op:?}): {got} instead of {} for inputs {:?}", rf[pi].0[i], rows[l]);
                    }
                }
                for (i, g) in m.bits.iter().enumerate() {
                    let got = (regs[flat.reg_of[g] as usize] >> l) & 1 == 1;
                    if got != rf[pi].1[i] {
                        let op = progs[pi].iter().filter(|o| matches!(o, IOp::Cmp(..))).nth(i);
                        fail!("program {pi}, {op:?}: {got} for inputs {:?} with values {:?}", rows[l], rf[pi].0);
                    }
                }
            }
            ctx.eval(made.iter().map(|m| (m.vals.len() + m.bits.len()) as u64).sum());
        }
        for (pi, o) in &outs {
            match o {
                Ok(i) => {
                    for j in 0..N {
                        want_outs.push(refs.iter().enumerate().fold(0, |a, (l, rf)| a | (bit(&rf[*pi].0[*i], j) as u64) << l));
                    }
                }
                Err(b) => want_outs.push(refs.iter().enumerate().fold(0, |a, (l, rf)| a | (rf[*pi].1[*b] as u64) << l)),
            }
        }
        let lanes_used = if rows.len() == 64 { !0 } else { (1u64 << rows.len()) - 1 };
        let got = outer.as_ref().unwrap_or(&flat).run(&inp);
        check!(
            got.len() == want_outs.len() && got.iter().zip(&want_outs).all(|(a, b)| (a ^ b) & lanes_used == 0),
            "the outputs {outs:?} of the circuit are not the values"
        );
        for _ in 0..real.min(rows.len()) {
            let l = ctx.rng.below(rows.len());
            let bits = lane(&inp, l);
            let got = crate::util::eval_real(&top, &bits)?;
            check!(got == lane(&want_outs, l), "evaluating inputs {:?} gave {} instead of {}", rows[l], bits_str(&got), bits_str(&lane(&want_outs, l)));
            ctx.count("runs of the real evaluator", 1);
        }
    }
    ctx.count("input rows", batches.iter().map(|b| b.len() as u64).sum());
    Ok(())
}

fn all_pairs(n: usize) -> Vec<Vec<Vec<BigUint>>> {
    let all: Vec<Vec<BigUint>> =
        (0..1u32 << n).flat_map(|a| (0..1u32 << n).map(move |b| vec![BigUint::from(a), BigUint::from(b)])).collect();
    all.chunks(64).map(|c| c.to_vec()).collect()
}

fn random_case<const N: usize>(ctx: &mut Ctx, mix: Mix, steps: usize, n_progs: usize) -> Res {
    let progs: Vec<Vec<IOp>> = (0..n_progs)
        .map(|_| {
            let k = 1 + ctx.rng.below(steps);
            gen_int(&mut ctx.rng, N, mix, k)
        })
        .collect();
    let k: usize = progs.iter().map(|p| n_inputs(p)).sum();
    let batches: Vec<_> = (0..if N <= 16 { 2 } else { 1 }).map(|_| rows(&mut ctx.rng, N, k, 64)).collect();
    int_case::<N>(ctx, &progs, &batches, if N <= 33 { 3 } else { 1 })?;
    for p in &progs {
        if p.len() > n_inputs(p) {
            ctx.distinct(fingerprint(N, &format!("{p:?}")));
        }
    }
    ctx.count(&format!("programs at width {N:03}"), progs.len() as u64);
    ctx.sample(|| format!("width {N}: {progs:?}"));
    Ok(())
}

const SMALL: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16];
const MID: [usize; 8] = [17, 24, 31, 32, 33, 40, 48, 63];
const WIDE: [usize; 4] = [64, 65, 100, 128];

fn any_width(ctx: &mut Ctx, mix: Mix) -> Res {
    let n = match ctx.idx % 64 {
        0 => *ctx.rng.pick(&WIDE),
        1..=8 => *ctx.rng.pick(&MID),
        _ => *ctx.rng.pick(&SMALL),
    };
    let (steps, np) = if n <= 16 { (12, 4) } else { (8, 2) };
    at_width!(n, random_case(ctx, mix, steps, np); 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 24 31 32 33 40 48 63 64 65 100 128)
}

/// The operators at widths beyond a byte's range.
fn wide_ops(ctx: &mut Ctx, mix: Mix) -> Res {
    let n = [129, 257, 200, 256, 160, 255][ctx.idx % 6];
    at_width!(n, random_case(ctx, mix, 6, 1); 129 160 200 255 256 257)
}

/// One program over values of N bits, on 64 rows of inputs.
fn light_at<const N: usize>(ctx: &mut Ctx, p: Vec<IOp>) -> Res {
    ctx.note = format!("width {N}: {p:?}");
    let c = new_circuit();
    let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(es)?;
    let m = int_build(&cfg, &p, &[])?;
    let roots: Vec<GateId> = m.vals.iter().flatten().chain(m.bits.iter()).copied().collect();
    let flat = sim::compile(&c, &roots)?;
    let rs = rows(&mut ctx.rng, N, n_inputs(&p), 64);
    let regs = flat.regs(&to_lanes(N, &rs));
    let of = |g: &GateId| regs[flat.reg_of[g] as usize];
    for (l, r) in rs.iter().enumerate() {
        let (v, b) = int_ref(N, &p, r);
        for (i, ids) in m.vals.iter().enumerate() {
            let got = from_lanes(&ids.iter().map(of).collect::<Vec<_>>(), l);
            if got != v[i] {
                let op = p.iter().filter(|o| !matches!(o, IOp::Cmp(..))).nth(i);
                fail!("value {i} ({op:?}) is {got} instead of {} for {:?}", v[i], r);
            }
        }
        for (i, g) in m.bits.iter().enumerate() {
            if (of(g) >> l) & 1 != b[i] as u64 {
                let op = p.iter().filter(|o| matches!(o, IOp::Cmp(..))).nth(i);
                fail!("{op:?} is not {} for {:?}", b[i], r);
            }
        }
        ctx.eval((m.vals.len() + m.bits.len()) as u64);
    }
    ctx.distinct(fingerprint(N, &format!("{p:?}")));
    Ok(())
}

/// The widths of the sweeps over the operators: every one up to 34, and some beyond.
const SWEEP: [usize; 52] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 36, 40, 47, 48, 49, 56, 60, 63, 64, 65, 66, 72, 80, 96, 100, 127, 128, 129];
fn sweep(ctx: &mut Ctx, f: fn(&mut Rng, usize) -> Vec<IOp>) -> Res {
    let n = SWEEP[ctx.idx % SWEEP.len()];
    let p = f(&mut ctx.rng, n);
    ctx.count("widths swept", 1);
    at_width!(n, light_at(ctx, p); 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 36 40 47 48 49 56 60 63 64 65 66 72 80 96 100 127 128 129)
}
fn c12_sweep(ctx: &mut Ctx) -> Res {
    sweep(ctx, |_, n| {
        let mut p = vec![IOp::In, IOp::In, IOp::Add(0, 1), IOp::Sub(0, 1), IOp::Neg(0), IOp::AddA(2, 1), IOp::SubA(3, 1), IOp::Add(0, 0), IOp::Sub(1, 1), IOp::Neg(3)];
        p.push(IOp::Mul(0, 1));
        if n <= 40 {
            p.extend([IOp::MulA(2, 3), IOp::Mul(1, 1)]);
        }
        p
    })
}
fn c13_sweep(ctx: &mut Ctx) -> Res {
    sweep(ctx, |rng, n| {
        let mut p = vec![IOp::In, IOp::In, IOp::Cst(value(rng, n)), IOp::Zero];
        for (a, b) in [(0, 1), (0, 0), (1, 2), (2, 1), (0, 3), (3, 0)] {
            p.extend(CMPS.iter().map(|c| IOp::Cmp(*c, a, b)));
        }
        p
    })
}
fn c14_sweep(ctx: &mut Ctx) -> Res {
    sweep(ctx, |rng, n| {
        let mut p = vec![IOp::In, IOp::Zero, IOp::One];
        for k in (0..=n + 1).chain([2 * n, 1 << 40, usize::MAX]) {
            p.push(IOp::Shl(0, k));
            p.push(IOp::Shr(0, k));
        }
        for k in 0..=n {
            p.push(IOp::Short((0..k).map(|j| (0, j)).collect()));
            p.push(IOp::Cst(mask(k)));
            p.push(IOp::Cst(value(rng, n) % (BigUint::from(1u32) << k)));
            if k < n {
                p.push(IOp::Cst(BigUint::from(1u32) << k));
            }
        }
        p
    })
}

// ---------------------------------------------------------------- C12

fn c12_ops() -> Vec<IOp> {
    vec![
        IOp::In,
        IOp::In,
        IOp::Add(0, 1),
        IOp::Sub(0, 1),
        IOp::Mul(0, 1),
        IOp::Neg(0),
        IOp::AddA(0, 1),
        IOp::SubA(0, 1),
        IOp::MulA(0, 1),
        IOp::Add(0, 0),
        IOp::Sub(0, 0),
        IOp::Mul(0, 0),
        IOp::AddA(0, 0),
        IOp::SubA(0, 0),
        IOp::MulA(0, 0),
        // results as operands
        IOp::Mul(2, 3),
        IOp::Sub(4, 2),
        IOp::Neg(3),
        IOp::Add(15, 16),
    ]
}

fn exhaustive_case<const N: usize>(ctx: &mut Ctx, prog: Vec<IOp>) -> Res {
    let b = all_pairs(N);
    int_case::<N>(ctx, &[prog.clone()], &b, 2)?;
    ctx.distinct(fingerprint(N, "all pairs"));
    ctx.count("exhaustive widths", 1);
    ctx.sample(|| format!("width {N}: all operand pairs of {prog:?}"));
    Ok(())
}
fn c12_exhaustive(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.idx % 6;
    at_width!(n, exhaustive_case(ctx, c12_ops()); 1 2 3 4 5 6)
}

fn c12_wide(ctx: &mut Ctx) -> Res {
    wide_ops(ctx, Mix { arith: 2, mul: 3, cmp: 0, consts: 1, shift: 0 })
}
fn c12_random(ctx: &mut Ctx) -> Res {
    any_width(ctx, Mix { arith: 2, mul: 3, cmp: 0, consts: 1, shift: 0 })
}

/// The widening multiplier, at run-time widths.
fn mul_extend(ctx: &mut Ctx, n: usize, batches: Vec<Vec<Vec<BigUint>>>) -> Res {
    ctx.note = format!("widening multiplier of width {n}");
    let mut c = new_circuit();
    let add = build_add_circuit(&mut c, 2 * n).map_err(es)?;
    let mid = build_mul_extend_circuit(&mut c, n, add).map_err(es)?;
    let ins: Vec<GateId> = (0..2 * n).map(|_| c.input().unwrap()).collect();
    let outs = c.module(&mid, &ins).map_err(eb)?;
    check!(outs.len() == 2 * n, "the product has {} bits", outs.len());
    for o in &outs {
        c.output(*o).map_err(eb)?;
    }
    // the same with one operand twice
    let twice: Vec<GateId> = ins[..n].iter().chain(&ins[..n]).copied().collect();
    for o in c.module(&mid, &twice).map_err(eb)? {
        c.output(o).map_err(eb)?;
    }
    let flat = sim::compile(&c, &[])?;
    for rows in &batches {
        let inp = to_lanes(n, rows);
        let got = flat.run(&inp);
        for (l, r) in rows.iter().enumerate() {
            let (p, q) = (from_lanes(&got[..2 * n], l), from_lanes(&got[2 * n..], l));
            check!(p == &r[0] * &r[1], "{} * {} gave {p}", r[0], r[1]);
            check!(q == &r[0] * &r[0], "{} * itself gave {q}", r[0]);
            ctx.eval(2);
        }
        let l = ctx.rng.below(rows.len());
        let real = crate::util::eval_real(&c, &lane(&inp, l))?;
        check!(real == lane(&got, l), "the evaluator disagrees on {:?}", rows[l]);
    }
    ctx.distinct(fingerprint(n, "widening"));
    ctx.count("widening multipliers", 1);
    Ok(())
}
fn c12_extend(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx {
        i if i < 6 => return mul_extend(ctx, i + 1, all_pairs(i + 1)),
        i if i < 34 => i + 1,
        i if i % 20 == 6 => *ctx.rng.pick(&[33, 40, 48, 64]),
        i if i % 5 == 0 => 17 + ctx.rng.below(16),
        _ => 1 + ctx.rng.below(16),
    };
    let b = (0..3).map(|_| rows(&mut ctx.rng, n, 2, 64)).collect();
    mul_extend(ctx, n, b)
}

/// The builders called directly, at run-time widths beyond those instantiated.
fn direct(ctx: &mut Ctx, n: usize, mul: bool, compare: bool) -> Res {
    ctx.note = format!("builders called directly at width {n}");
    let mut c = new_circuit();
    let add = build_add_circuit(&mut c, n).map_err(es)?;
    let sub = build_sub_circuit(&mut c, n, add).map_err(es)?;
    let ins: Vec<GateId> = (0..2 * n).map(|_| c.input().unwrap()).collect();
    let rs = rows(&mut ctx.rng, n, 2, 64);
    let m = BigUint::from(1u32) << n;
    let mut mids = vec![];
    if compare {
        let eq = build_eq_circuit(&mut c, n).map_err(es)?;
        let less = build_less_circuit(&mut c, n, sub).map_err(es)?;
        let leq = build_less_or_eq_circuit(&mut c, n, less, eq).map_err(es)?;
        mids.push(eq);
        mids.push(build_neq_circuit(&mut c, n, eq).map_err(es)?);
        mids.push(less);
        mids.push(leq);
        mids.push(build_larger_circuit(&mut c, n, leq).map_err(es)?);
        mids.push(build_larger_or_eq_circuit(&mut c, n, less).map_err(es)?);
    } else {
        mids.push(add);
        mids.push(sub);
        if mul {
            mids.push(build_mul_circuit(&mut c, n, add).map_err(es)?);
        }
    }
    for mid in &mids {
        for o in c.module(mid, &ins).map_err(eb)? {
            c.output(o).map_err(eb)?;
        }
    }
    let inp = to_lanes(n, &rs);
    let got = sim::compile(&c, &[])?.run(&inp);
    let key = |x: &BigUint| (x + (BigUint::from(1u32) << (n - 1))) % &m;
    for (l, r) in rs.iter().enumerate() {
        let (a, b) = (&r[0], &r[1]);
        if compare {
            let w = [a == b, a != b, key(a) < key(b), key(a) <= key(b), key(a) > key(b), key(a) >= key(b)];
            for (i, k) in CMPS.iter().enumerate() {
                check!((got[i] >> l) & 1 == w[i] as u64, "{k:?} of {a} and {b} is not {}", w[i]);
            }
        } else {
            check!(from_lanes(&got[..n], l) == (a + b) % &m, "the sum of {a} and {b} is wrong");
            check!(from_lanes(&got[n..2 * n], l) == (a + &m - b) % &m, "the difference of {a} and {b} is wrong");
            if mul {
                check!(from_lanes(&got[2 * n..], l) == (a * b) % &m, "the product of {a} and {b} is wrong");
            }
        }
        ctx.eval(mids.len() as u64);
    }
    let l = ctx.rng.below(64);
    check!(crate::util::eval_real(&c, &lane(&inp, l))? == lane(&got, l), "the evaluator disagrees on {:?}", rs[l]);
    ctx.distinct(fingerprint(n, if compare { "direct comparison" } else { "direct" }));
    ctx.max("width", n as u64);
    Ok(())
}
fn c12_widths(ctx: &mut Ctx) -> Res {
    let n = ctx.idx + 1;
    direct(ctx, n, n <= 80, false)
}
fn c13_widths(ctx: &mut Ctx) -> Res {
    let n = ctx.idx + 1;
    direct(ctx, n, false, true)
}
fn wide_width(ctx: &mut Ctx) -> usize {
    match ctx.rng.below(3) {
        0 => *ctx.rng.pick(&[127, 129, 200, 255, 256, 257, 258, 300, 384, 511, 512, 513]),
        1 => 1 + ctx.rng.below(130),
        _ => 1 + ctx.rng.below(300),
    }
}
fn c12_direct(ctx: &mut Ctx) -> Res {
    if ctx.idx < 2 {
        return direct(ctx, [256, 257][ctx.idx], true, false);
    }
    let n = wide_width(ctx);
    direct(ctx, n, n <= 64, false)
}
fn c13_direct(ctx: &mut Ctx) -> Res {
    let n = if ctx.idx < 2 { [256, 257][ctx.idx] } else { wide_width(ctx) };
    direct(ctx, n, false, true)
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "random expression programs over + - * neg and the assigning forms (same value twice, constants, results as operands, in the top circuit or inside a module) at 26 widths from 1 to 128 and a few up to 257, the operators at every width from 1 to 34, the builders called directly at every width from 1 to 160 and at others up to 513 (multiplier 257), and all operand pairs at widths 1 to 6; every intermediate value is compared with integers modulo 2^N in 64 lanes of a gate-level simulation and through the real evaluator; non-trivial: at least one operation, distinct by width and program",
        assumptions: &["adders and subtracters are built up to width 513, multipliers up to 257 (a multiplier of width N takes memory proportional to N^3)"],
        kinds: vec![
            kind("wide", 6, 24, c12_wide),
            kind("direct", 60, 600, c12_direct),
            kind("widths", 160, 320, c12_widths),
            kind("sweep", 52, 208, c12_sweep),
            kind("exhaustive", 18, 60, c12_exhaustive),
            kind("extend", 120, 1200, c12_extend),
            kind("random", 640, 6400, c12_random),
        ],
    }
}

// ---------------------------------------------------------------- C13

fn c13_exhaustive(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.idx % 6;
    let mut p = vec![IOp::In, IOp::In];
    for k in CMPS {
        p.push(IOp::Cmp(k, 0, 1));
        p.push(IOp::Cmp(k, 1, 0));
        p.push(IOp::Cmp(k, 0, 0));
    }
    at_width!(n, exhaustive_case(ctx, p); 1 2 3 4 5 6)
}
fn c13_wide(ctx: &mut Ctx) -> Res {
    wide_ops(ctx, Mix { arith: 1, mul: 0, cmp: 6, consts: 1, shift: 0 })
}
fn c13_random(ctx: &mut Ctx) -> Res {
    any_width(ctx, Mix { arith: 1, mul: 0, cmp: 6, consts: 1, shift: 0 })
}

/// Rows made for comparisons: every pair of extreme and neighbouring values.
fn c13_corners_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let one = BigUint::from(1u32);
    let m = &one << N;
    let half = &one << (N - 1);
    let mut vals = vec![BigUint::from(0u32), one.clone(), &half - &one, half.clone(), (&half + &one) % &m, mask(N)];
    for _ in 0..6 {
        let b = &one << ctx.rng.below(N);
        vals.push(b.clone());
        vals.push(mask(N) - b);
    }
    let x = value(&mut ctx.rng, N);
    vals.extend([x.clone(), (&x + &one) % &m, (&x + &half) % &m, (&x + &half + &one) % &m, (&x + mask(N)) % &m]);
    let all: Vec<Vec<BigUint>> = vals.iter().flat_map(|a| vals.iter().map(move |b| vec![a.clone(), b.clone()])).collect();
    let batches: Vec<_> = all.chunks(64).map(|c| c.to_vec()).collect();
    let mut p = vec![IOp::In, IOp::In];
    for k in CMPS {
        p.push(IOp::Cmp(k, 0, 1));
    }
    int_case::<N>(ctx, &[p], &batches, 1)?;
    ctx.distinct(fingerprint(N, &format!("corners {vals:?}")));
    ctx.count(&format!("corner tables at width {N:03}"), 1);
    Ok(())
}
fn c13_corners(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx % 30 {
        0 => *ctx.rng.pick(&WIDE),
        1..=5 => *ctx.rng.pick(&MID),
        _ => *ctx.rng.pick(&SMALL),
    };
    at_width!(n, c13_corners_at(ctx); 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 24 31 32 33 40 48 63 64 65 100 128)
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "all operand pairs for all six comparisons at widths 1 to 6, tables of extreme, neighbouring and overflowing pairs and random programs at 26 widths from 1 to 128 and a few up to 257, the operators at every width from 1 to 34, the builders called directly at every width from 1 to 160 and at others up to 513, against two's-complement order of integers; non-trivial: at least one comparison, distinct by width and program or table",
        assumptions: &["widths above 513 are not built"],
        kinds: vec![
            kind("wide", 6, 24, c13_wide),
            kind("direct", 120, 1200, c13_direct),
            kind("widths", 160, 320, c13_widths),
            kind("sweep", 52, 208, c13_sweep),
            kind("exhaustive", 18, 60, c13_exhaustive),
            kind("corners", 240, 2400, c13_corners),
            kind("random", 640, 6400, c13_random),
        ],
    }
}

// ---------------------------------------------------------------- C14

/// Constants, each in its own circuit.
fn constants_at<const N: usize>(ctx: &mut Ctx, vals: Vec<BigUint>) -> Res {
    let progs: Vec<Vec<IOp>> = vec![[IOp::Zero, IOp::One].into_iter().chain(vals.into_iter().map(IOp::Cst)).collect()];
    let r = vec![vec![vec![]]];
    int_case::<N>(ctx, &progs, &r, 1)?;
    ctx.count("constants", progs[0].len() as u64);
    for op in &progs[0] {
        ctx.distinct(fingerprint(N, &format!("{op:?}")));
    }
    ctx.sample(|| format!("width {N}: {:?}", &progs[0][..progs[0].len().min(12)]));
    Ok(())
}
fn c14_constants(ctx: &mut Ctx) -> Res {
    if ctx.idx < 10 {
        let n = 1 + ctx.idx;
        let all = (0..1u32 << n).map(BigUint::from).collect();
        return at_width!(n, constants_at(ctx, all); 1 2 3 4 5 6 7 8 9 10);
    }
    let n = match ctx.idx % 30 {
        0 => *ctx.rng.pick(&WIDE),
        1..=5 => *ctx.rng.pick(&MID),
        _ => *ctx.rng.pick(&SMALL),
    };
    let mut vals: Vec<BigUint> = (0..20).map(|_| value(&mut ctx.rng, n)).collect();
    // every number of significant bits
    vals.extend((0..n).map(|k| {
        let top = BigUint::from(1u32) << k;
        &top + value(&mut ctx.rng, n) % &top
    }));
    vals.extend((1..=n).map(mask));
    at_width!(n, constants_at(ctx, vals); 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 24 31 32 33 40 48 63 64 65 100 128)
}

/// Every shift amount, and every length of a short bit list.
fn shifts_at<const N: usize>(ctx: &mut Ctx, all: bool) -> Res {
    let mut p = vec![IOp::In];
    let amounts: Vec<usize> = if N <= 16 {
        (0..=2 * N + 2).chain([usize::MAX, usize::MAX - N, 1 << 33, 256]).collect()
    } else {
        let mut v = vec![0, 1, 2, 7, 8, 9, N / 2, N - 1, N, N + 1, 2 * N, 3 * N, usize::MAX];
        v.extend((0..8).map(|_| ctx.rng.below(N + 2)));
        v
    };
    for k in &amounts {
        p.push(IOp::Shl(0, *k));
        p.push(IOp::Shr(0, *k));
    }
    for k in 0..=N.min(20) {
        p.push(IOp::Short((0..k).map(|j| (0, j)).collect()));
    }
    p.push(IOp::Short((0..N).rev().map(|j| (0, j)).collect()));
    let nv = p.len();
    // shifts of results
    for _ in 0..6 {
        let k = *ctx.rng.pick(&amounts);
        let v = ctx.rng.below(nv);
        p.push(if ctx.rng.bit() { IOp::Shl(v, k) } else { IOp::Shr(v, k) });
    }
    let batches: Vec<Vec<Vec<BigUint>>> = if all {
        let v: Vec<Vec<BigUint>> = (0..1u32 << N).map(|x| vec![BigUint::from(x)]).collect();
        v.chunks(64).map(|c| c.to_vec()).collect()
    } else {
        vec![rows(&mut ctx.rng, N, 1, 64)]
    };
    int_case::<N>(ctx, &[p.clone()], &batches, 2)?;
    ctx.distinct(fingerprint(N, &format!("{p:?}")));
    ctx.count("shift amounts", 2 * amounts.len() as u64);
    Ok(())
}
fn c14_shifts(ctx: &mut Ctx) -> Res {
    if ctx.idx < 8 {
        let n = 1 + ctx.idx;
        return at_width!(n, shifts_at(ctx, true); 1 2 3 4 5 6 7 8);
    }
    let n = match ctx.idx % 30 {
        0 => *ctx.rng.pick(&WIDE),
        1..=5 => *ctx.rng.pick(&MID),
        _ => *ctx.rng.pick(&SMALL),
    };
    at_width!(n, shifts_at(ctx, false); 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 24 31 32 33 40 48 63 64 65 100 128)
}
/// Constants, shifts and short lists at widths of many words and beyond a byte's range.
fn c14_wide_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let mut p = vec![IOp::In, IOp::Zero, IOp::One, IOp::Cst(mask(N)), IOp::Cst(BigUint::from(1u32) << (N - 1))];
    for _ in 0..20 {
        let k = ctx.rng.below(N);
        p.push(IOp::Shl(0, k));
        p.push(IOp::Shr(0, k));
        p.push(IOp::Cst(value(&mut ctx.rng, N) >> k));
        p.push(IOp::Short((0..k).map(|j| (0, j)).collect()));
    }
    for k in [0, 1, N - 1, N, N + 1, usize::MAX] {
        p.push(IOp::Shl(0, k));
        p.push(IOp::Shr(0, k));
    }
    light_at::<N>(ctx, p)
}
fn c14_wide(ctx: &mut Ctx) -> Res {
    let n = [257, 256, 255, 200, 160, 129][ctx.idx % 6];
    at_width!(n, c14_wide_at(ctx); 129 160 200 255 256 257)
}

fn c14_random(ctx: &mut Ctx) -> Res {
    any_width(ctx, Mix { arith: 1, mul: 0, cmp: 1, consts: 3, shift: 5 })
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "all constants at widths 1 to 10 and constants of every bit length at 26 widths up to 128, and of many up to width 257; all shift amounts up to 2N+2 and huge ones on all values at widths 1 to 8 and on random values elsewhere; short bit lists of every length; constants of every length, shifts and short lists at every width from 1 to 34; random programs mixing them; non-trivial: distinct by width and constant or program",
        assumptions: &["widths above 257 are not built"],
        kinds: vec![
            kind("wide", 6, 24, c14_wide),
            kind("sweep", 52, 416, c14_sweep),
            kind("constants", 190, 1900, c14_constants),
            kind("shifts", 190, 1900, c14_shifts),
            kind("random", 384, 3840, c14_random),
        ],
    }
}

// ---------------------------------------------------------------- C15

fn bits_case<const N: usize>(ctx: &mut Ctx, prog: Vec<BOp>, inputs: Vec<Vec<u64>>, n_lanes: usize, real: usize) -> Res {
    let (mut top, mut sub, mid) = place(ctx);
    ctx.note = format!("width {N}, in a module: {}, program {prog:?}", mid.is_some());
    let cfg = if mid.is_some() && ctx.rng.bit() {
        let mut c = AllocBitsConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&top).map_err(es)?;
        c.c_ref = sub.clone();
        c
    } else {
        AllocBitsConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&sub).map_err(es)?
    };
    let nv = prog.iter().filter(|o| !matches!(o, BOp::Eq(..) | BOp::Neq(..))).count();
    let sel = select(&mut ctx.rng, nv);
    let m = bits_build(&cfg, &prog, &sel)?;
    let selb = select(&mut ctx.rng, m.bits.len());
    for b in &selb {
        sub.output(m.bits[*b]).map_err(eb)?;
    }
    finish(&mut top, &sub, mid)?;
    let roots: Vec<GateId> = m.vals.iter().flatten().chain(m.bits.iter()).copied().collect();
    let flat = sim::compile(&sub, &roots)?;
    let outer = if mid.is_some() { Some(sim::compile(&top, &[])?) } else { None };
    let used = if n_lanes == 64 { !0 } else { (1u64 << n_lanes) - 1 };
    for inp in &inputs {
        let (v, b) = bits_ref(N, &prog, inp);
        let regs = flat.regs(inp);
        let r = |g: &GateId| regs[flat.reg_of[g] as usize];
        for (i, ids) in m.vals.iter().enumerate() {
            for j in 0..N {
                let d = (r(&ids[j]) ^ v[i][j]) & used;
                if d != 0 {
                    let l = d.trailing_zeros() as usize;
                    let op = prog.iter().filter(|o| !matches!(o, BOp::Eq(..) | BOp::Neq(..))).nth(i);
                    fail!("value {i} ({op:?}): bit {j} is wrong for inputs {}", bits_str(&lane(inp, l)));
                }
            }
        }
        for (i, g) in m.bits.iter().enumerate() {
            let d = (r(g) ^ b[i]) & used;
            if d != 0 {
                let op = prog.iter().filter(|o| matches!(o, BOp::Eq(..) | BOp::Neq(..))).nth(i);
                fail!("{op:?} is wrong for inputs {}", bits_str(&lane(inp, d.trailing_zeros() as usize)));
            }
        }
        ctx.eval(n_lanes as u64 * (m.vals.len() + m.bits.len()) as u64);
        let want: Vec<u64> = sel.iter().flat_map(|i| v[*i].clone()).chain(selb.iter().map(|i| b[*i])).collect();
        let got = outer.as_ref().unwrap_or(&flat).run(inp);
        check!(got.len() == want.len() && got.iter().zip(&want).all(|(x, y)| (x ^ y) & used == 0), "the outputs of the circuit are not the values");
        for _ in 0..real.min(n_lanes) {
            let l = ctx.rng.below(n_lanes);
            let got = crate::util::eval_real(&top, &lane(inp, l))?;
            check!(got == lane(&want, l), "evaluating {} gave {} instead of {}", bits_str(&lane(inp, l)), bits_str(&got), bits_str(&lane(&want, l)));
            ctx.count("runs of the real evaluator", 1);
        }
    }
    Ok(())
}

fn c15_random_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let k = 1 + ctx.rng.below(14);
    let prog = gen_bits(&mut ctx.rng, N, k);
    let ni = prog.iter().filter(|o| matches!(o, BOp::In)).count();
    // Operands that are often equal, or differ in one bit only.
    let inputs: Vec<Vec<u64>> = (0..2)
        .map(|_| {
            let mut v: Vec<u64> = (0..ni * N).map(|_| ctx.rng.u64()).collect();
            for i in 1..ni {
                let eq = ctx.rng.u64();
                for j in 0..N {
                    v[i * N + j] = (v[i * N + j] & !eq) | (v[j] & eq);
                }
                for l in 0..64 {
                    if ctx.rng.chance(1, 2) {
                        v[i * N + ctx.rng.below(N)] ^= eq & (1 << l);
                    }
                }
            }
            v
        })
        .collect();
    bits_case::<N>(ctx, prog.clone(), inputs, 64, if N <= 65 { 3 } else { 1 })?;
    ctx.distinct(fingerprint(N, &format!("{prog:?}")));
    ctx.count(&format!("programs at width {N:03}"), 1);
    ctx.sample(|| format!("width {N}: {prog:?}"));
    Ok(())
}
fn c15_random(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx % 16 {
        0 => *ctx.rng.pick(&[64, 65, 100, 128, 200, 256, 257, 512]),
        1..=4 => *ctx.rng.pick(&MID),
        _ => *ctx.rng.pick(&SMALL),
    };
    at_width!(n, c15_random_at(ctx); 1 2 3 4 5 6 7 8 9 11 12 13 15 16 17 24 31 32 33 40 48 63 64 65 100 128 200 256 257 512)
}

fn c15_exhaustive_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let mut prog = vec![
        BOp::In,
        BOp::In,
        BOp::Not(0),
        BOp::And(0, 1),
        BOp::Or(0, 1),
        BOp::Xor(0, 1),
        BOp::AndA(0, 1),
        BOp::OrA(0, 1),
        BOp::XorA(0, 1),
        BOp::And(0, 0),
        BOp::Or(0, 0),
        BOp::Xor(0, 0),
        BOp::Eq(0, 1),
        BOp::Neq(0, 1),
        BOp::Eq(0, 0),
        BOp::Neq(0, 0),
        BOp::Mux(0, 1, Err(0)),
        BOp::Mux(1, 0, Err(1)),
    ];
    for j in 0..N {
        prog.push(BOp::Mux(0, 1, Ok((0, j))));
        prog.push(BOp::Mux(2, 3, Ok((1, j))));
    }
    for k in 0..=N {
        prog.push(BOp::Short((0..k).map(|j| (0, j)).collect()));
    }
    let rows: Vec<Vec<Vec<BigUint>>> = all_pairs(N);
    let inputs: Vec<Vec<u64>> = rows.iter().map(|r| to_lanes(N, r)).collect();
    bits_case::<N>(ctx, prog, inputs, rows[0].len(), 4)?;
    ctx.count("exhaustive widths", 1);
    ctx.distinct(fingerprint(N, "all pairs"));
    Ok(())
}
fn c15_exhaustive(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.idx % 6;
    at_width!(n, c15_exhaustive_at(ctx); 1 2 3 4 5 6)
}

/// The builders called directly at every run-time width.
fn c15_widths(ctx: &mut Ctx) -> Res {
    let n = ctx.idx + 1;
    ctx.note = format!("builders called directly at width {n}");
    let mut c = new_circuit();
    let not = build_not_circuit(&mut c, n).map_err(es)?;
    let and = build_and_circuit(&mut c, n).map_err(es)?;
    let or = build_or_circuit(&mut c, n).map_err(es)?;
    let xor = build_xor_circuit(&mut c, n).map_err(es)?;
    let eq = build_eq_circuit(&mut c, n).map_err(es)?;
    let neq = build_neq_circuit(&mut c, n, eq).map_err(es)?;
    let ins: Vec<GateId> = (0..2 * n).map(|_| c.input().unwrap()).collect();
    for (m, k) in [(&not, n), (&and, 2 * n), (&or, 2 * n), (&xor, 2 * n), (&eq, 2 * n), (&neq, 2 * n)] {
        for o in c.module(m, &ins[..k]).map_err(eb)? {
            c.output(o).map_err(eb)?;
        }
    }
    let flat = sim::compile(&c, &[])?;
    let mut batches: Vec<Vec<u64>> = vec![];
    for _ in 0..2 {
        let a: Vec<u64> = (0..n).map(|_| ctx.rng.u64()).collect();
        // Lanes where the operands are equal, differ in one bit, and are unrelated.
        let (equal, one) = (ctx.rng.u64(), ctx.rng.u64());
        let mut b: Vec<u64> = a.iter().map(|x| (x & equal) | (ctx.rng.u64() & !equal)).collect();
        for l in 0..64 {
            if (equal & one) >> l & 1 == 1 {
                b[ctx.rng.below(n)] ^= 1 << l;
            }
        }
        batches.push(a.into_iter().chain(b).collect());
    }
    // Every single bit in which the operands can differ.
    for from in (0..n).step_by(64) {
        let mut v = vec![0; 2 * n];
        let s = ctx.rng.u64();
        for j in 0..n {
            let w = if s >> (j % 64) & 1 == 1 { !0 } else { 0 };
            v[j] = w;
            v[n + j] = w;
        }
        for j in from..n.min(from + 64) {
            v[n + j] ^= 1 << (j - from);
        }
        batches.push(v);
    }
    for inp in &batches {
        let got = flat.run(inp);
        let (a, b) = inp.split_at(n);
        let diff = a.iter().zip(b).fold(0, |d, (x, y)| d | (x ^ y));
        let want: Vec<u64> = (a.iter().map(|x| !x))
            .chain(a.iter().zip(b).map(|(x, y)| x & y))
            .chain(a.iter().zip(b).map(|(x, y)| x | y))
            .chain(a.iter().zip(b).map(|(x, y)| x ^ y))
            .chain([!diff, diff])
            .collect();
        check!(got.len() == want.len(), "there are {} outputs instead of {}", got.len(), want.len());
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            if g != w {
                let l = (g ^ w).trailing_zeros() as usize;
                let what = ["NOT", "AND", "OR", "XOR"].get(i / n).unwrap_or(if i == 4 * n { &"EQ" } else { &"NEQ" });
                fail!("bit {} of {what} is wrong for inputs {}", i % n, bits_str(&lane(inp, l)));
            }
        }
        ctx.eval(64 * 6);
        let l = ctx.rng.below(64);
        check!(crate::util::eval_real(&c, &lane(inp, l))? == lane(&got, l), "the evaluator disagrees on {}", bits_str(&lane(inp, l)));
    }
    ctx.distinct(fingerprint(n, "builders"));
    ctx.max("width", n as u64);
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "random programs over NOT AND OR XOR, assigning forms, equality, selection and short lists at 30 widths from 1 to 512, the builders called directly at every width from 1 to 300, and all operand pairs at widths 1 to 6, compared bit by bit in 64 lanes and through the real evaluator; operands often equal or one bit apart; non-trivial: distinct by width and program",
        assumptions: &["widths above 512 are not built"],
        kinds: vec![kind("widths", 300, 600, c15_widths), kind("exhaustive", 24, 60, c15_exhaustive), kind("random", 3200, 32_000, c15_random)],
    }
}
