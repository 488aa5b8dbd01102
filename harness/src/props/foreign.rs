//! C26: builders and reader over another circuit implementation.
use super::arith::{from_lanes, to_lanes};
use super::bundled::*;
use crate::at_width;
use crate::check;
use crate::field::*;
use crate::ints::*;
use crate::model::{bits_str, lane, lanes};
use crate::refc::{self, Ids, RCircuit, RGate, RRef, Shared, World, ID_MODES};
use crate::rng::{hash_str, Rng};
use crate::runner::*;
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::collections::HashMap;

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

struct Place {
    world: Shared,
    /// The circuit in which the builder works.
    c: RRef,
    /// Inputs that it had before.
    before: usize,
    outs_before: usize,
    ids: Ids,
}

/// A circuit that may hold gates already, be a sub-circuit, or live next to others.
fn place(rng: &mut Rng, idx: usize) -> Result<Place, String> {
    let ids = ID_MODES[idx % ID_MODES.len()];
    let world = World::new(rng, ids);
    let mut c = RCircuit::new(&world).to_ref();
    // Other circuits take identifiers from the same source.
    let mut other = RCircuit::new(&world).to_ref();
    for _ in 0..rng.below(5) {
        other.input().map_err(eb)?;
    }
    if rng.chance(1, 3) {
        c = c.sub_circuit().1;
    }
    let mut v = vec![];
    for _ in 0..rng.below(4) {
        v.push(c.input().map_err(eb)?);
    }
    for _ in 0..rng.below(4) {
        if v.is_empty() {
            break;
        }
        let (a, b) = (*rng.pick(&v), *rng.pick(&v));
        v.push(if rng.bit() { c.xor(&a, &b) } else { c.constant(rng.bit()) }.map_err(eb)?);
        if rng.bit() {
            c.output(*rng.pick(&v)).map_err(eb)?;
        }
    }
    let (before, outs_before) = (c.input_len(), c.output_len());
    Ok(Place { world, c, before, outs_before, ids })
}

/// No identifier was misused, and what the builder did is recorded.
fn finish(ctx: &mut Ctx, p: &Place) -> Res {
    let w = p.world.borrow();
    check!(w.misuse.is_empty(), "with {:?} identifiers: {}", p.ids, w.misuse.join("; "));
    for (k, n) in &w.calls {
        ctx.count(&format!("calls of {k}"), *n);
    }
    drop(w);
    ctx.count(&format!("circuits with identifiers {:?}", p.ids), 1);
    refc::dissolve(&p.world);
    Ok(())
}

/// The misuse is the cause when building fails.
fn explain<T>(p: &Place, r: Result<Result<T, String>, String>) -> Result<T, Fail> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) | Err(e) => {
            let m = p.world.borrow().misuse.join("; ");
            Err(Fail::Violation(format!("with {:?} identifiers: {e} {m}", p.ids)))
        }
    }
}

fn word(v: &HashMap<GateId, u64>, ids: &[GateId], l: usize) -> Result<BigUint, String> {
    let x: Vec<u64> = ids.iter().map(|g| v.get(g).copied().ok_or(format!("the value has the foreign gate {g}"))).collect::<Result<_, _>>()?;
    Ok(from_lanes(&x, l))
}

fn ints_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let p = place(&mut ctx.rng, ctx.idx)?;
    let steps = 1 + ctx.rng.below(8);
    let prog = gen_int(&mut ctx.rng, N, Mix { arith: 2, mul: 1, cmp: 2, consts: 1, shift: 1 }, steps);
    ctx.note = format!("width {N}, {:?} identifiers, {prog:?}", p.ids);
    let nv = prog.iter().filter(|o| !matches!(o, IOp::Cmp(..))).count();
    let outs: Vec<usize> = (0..nv).filter(|i| i + 1 == nv || ctx.rng.bit()).collect();
    let m = explain(&p, guarded(|| {
        let cfg = AllocIntConfig::<RGate, RCircuit, N>::new(&p.c).map_err(es)?;
        int_build(&cfg, &prog, &outs)
    }))?;
    let k = n_inputs(&prog);
    check!(p.c.input_len() == p.before + k * N, "{} inputs were added for {k} integers", p.c.input_len() - p.before);
    let rows: Vec<Vec<BigUint>> = (0..64).map(|_| (0..k).map(|_| value(&mut ctx.rng, N)).collect()).collect();
    let mut inp: Vec<u64> = (0..p.before).map(|_| ctx.rng.u64()).collect();
    inp.extend(to_lanes(N, &rows));
    let v = refc::run(&p.c, &inp)?;
    let o = refc::outputs(&p.c, &v);
    for (l, row) in rows.iter().enumerate() {
        let (rv, rb) = int_ref(N, &prog, row);
        for (i, ids) in m.vals.iter().enumerate() {
            let g = word(&v, ids, l)?;
            check!(g == rv[i], "value {i} is {g} instead of {} for inputs {row:?}", rv[i]);
        }
        for (i, id) in m.bits.iter().enumerate() {
            let b = v.get(id).copied().ok_or(format!("a comparison gave the foreign gate {id}"))? >> l & 1 == 1;
            check!(b == rb[i], "comparison {i} is {b} for inputs {row:?}");
        }
        for (j, i) in outs.iter().enumerate() {
            let at = p.outs_before + j * N;
            check!(from_lanes(&o[at..at + N], l) == rv[*i], "output {j} is not value {i} for inputs {row:?}");
        }
        ctx.eval(1);
    }
    ctx.distinct(fingerprint(N, &format!("{:?} {prog:?}", p.ids)));
    ctx.sample(|| format!("width {N}, {:?} identifiers: {prog:?}", p.ids));
    finish(ctx, &p)
}

fn c26_ints(ctx: &mut Ctx) -> Res {
    let n = match ctx.idx / 5 % 40 {
        0 => 24,
        1 | 2 => 16,
        _ => *ctx.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12]),
    };
    at_width!(n, ints_at(ctx); 1 2 3 4 5 7 8 9 12 16 24)
}

fn bits_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let p = place(&mut ctx.rng, ctx.idx)?;
    let steps = 1 + ctx.rng.below(10);
    let prog = gen_bits(&mut ctx.rng, N, steps);
    ctx.note = format!("width {N}, {:?} identifiers, {prog:?}", p.ids);
    let nv = prog.iter().filter(|o| !matches!(o, BOp::Eq(..) | BOp::Neq(..))).count();
    let outs: Vec<usize> = (0..nv).filter(|i| i + 1 == nv || ctx.rng.bit()).collect();
    let m = explain(&p, guarded(|| {
        let cfg = AllocBitsConfig::<RGate, RCircuit, N>::new(&p.c).map_err(es)?;
        bits_build(&cfg, &prog, &outs)
    }))?;
    let k = prog.iter().filter(|o| matches!(o, BOp::In)).count();
    check!(p.c.input_len() == p.before + k * N, "{} inputs were added for {k} vectors", p.c.input_len() - p.before);
    let inp: Vec<u64> = (0..p.c.input_len()).map(|_| ctx.rng.u64()).collect();
    let v = refc::run(&p.c, &inp)?;
    let (rv, rb) = bits_ref(N, &prog, &inp[p.before..]);
    for (i, ids) in m.vals.iter().enumerate() {
        for (j, g) in ids.iter().enumerate() {
            check!(v.get(g) == Some(&rv[i][j]), "bit {j} of value {i} is wrong or has a foreign gate");
        }
    }
    for (i, g) in m.bits.iter().enumerate() {
        check!(v.get(g) == Some(&rb[i]), "comparison {i} is wrong or has a foreign gate");
    }
    let o = refc::outputs(&p.c, &v);
    for (j, i) in outs.iter().enumerate() {
        let at = p.outs_before + j * N;
        check!(o[at..at + N] == rv[*i][..], "output {j} is not value {i}");
    }
    ctx.eval(64);
    ctx.distinct(fingerprint(N, &format!("{:?} {prog:?}", p.ids)));
    ctx.sample(|| format!("width {N}, {:?} identifiers: {prog:?}", p.ids));
    finish(ctx, &p)
}

fn c26_bits(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[1, 2, 3, 4, 7, 8, 9, 16, 33, 64]);
    at_width!(n, bits_at(ctx); 1 2 3 4 7 8 9 16 33 64)
}

fn fields_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let pl = place(&mut ctx.rng, ctx.idx)?;
    let r = if ctx.rng.bit() { (N - 2) / 2 } else { 1 + ctx.rng.below((N - 2) / 2) };
    let p = modulus(&mut ctx.rng, r);
    let steps = 1 + ctx.rng.below(6);
    let prog = gen_field(&mut ctx.rng, &p, N, steps);
    ctx.note = format!("p = {p}, r = {r}, width {N}, {:?} identifiers, {prog:?}", pl.ids);
    let nv = prog.iter().filter(|o| !is_bit(o)).count();
    let (cfg, m) = explain(&pl, guarded(|| {
        let ic = AllocIntConfig::<RGate, RCircuit, N>::new(&pl.c).map_err(es)?;
        let cfg = AllocFpConfig::new(&pl.c, &ic, p.clone(), r).map_err(es)?;
        let m = field_build(&cfg, &prog, &[nv - 1])?;
        Ok((cfg, m))
    }))?;
    // The Montgomery reduction of one more number.
    let mut c = pl.c.clone();
    let k = prog.iter().filter(|o| matches!(o, FOp::In)).count();
    check!(c.input_len() == pl.before + k * N, "{} inputs were added for {k} elements", c.input_len() - pl.before);
    let t_ids = (0..N).map(|_| c.input()).collect::<Result<Vec<_>, _>>().map_err(eb)?;
    let red = c.module(&cfg.mont_red_mid, &t_ids).map_err(eb)?;
    let rows: Vec<Vec<BigUint>> = (0..64)
        .map(|_| {
            let mut v: Vec<BigUint> = (0..k).map(|_| element(&mut ctx.rng, &p)).collect();
            v.push(big(&mut ctx.rng, 2 * r + 8) % (&p << r));
            v
        })
        .collect();
    let mut inp: Vec<u64> = (0..pl.before).map(|_| ctx.rng.u64()).collect();
    inp.extend(to_lanes(N, &rows));
    let v = refc::run(&pl.c, &inp)?;
    let o = refc::outputs(&pl.c, &v);
    for (l, row) in rows.iter().enumerate() {
        let (rv, rb) = field_ref(&p, &prog, &row[..k]);
        for (i, ids) in m.0.iter().enumerate() {
            let g = word(&v, ids, l)?;
            check!(g == rv[i], "value {i} is {g} instead of {} for inputs {row:?}", rv[i]);
        }
        for (i, id) in m.1.iter().enumerate() {
            let b = v.get(id).copied().ok_or(format!("a comparison gave the foreign gate {id}"))? >> l & 1 == 1;
            check!(b == rb[i], "comparison {i} is {b} for inputs {row:?}");
        }
        check!(from_lanes(&o[pl.outs_before..], l) == rv[nv - 1], "the output is not the last value for inputs {row:?}");
        let g = word(&v, &red, l)?;
        check!(g < p && (&g << r) % &p == &row[k] % &p, "reducing {} gave {g}", row[k]);
        ctx.eval(1);
    }
    ctx.distinct(fingerprint(N, &format!("{p} {r} {:?} {prog:?}", pl.ids)));
    ctx.sample(|| format!("p = {p}, r = {r}, width {N}, {:?} identifiers: {prog:?}", pl.ids));
    finish(ctx, &pl)
}

fn c26_fields(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[4, 6, 7, 8, 10, 12]);
    at_width!(n, fields_at(ctx); 4 6 7 8 10 12)
}

fn c26_bundled(ctx: &mut Ctx) -> Res {
    let p = place(&mut ctx.rng, ctx.idx)?;
    let which = ctx.idx / 5 % 7;
    ctx.note = format!("bundled circuit {which}, {:?} identifiers", p.ids);
    let mut c = p.c.clone();
    explain(&p, guarded(|| bundle(which, &mut c)))?;
    let aes = crate::aes::Aes::new();
    let (rows, want): (Vec<Vec<u64>>, Vec<Vec<u64>>) = (0..64)
        .map(|_| {
            if which < 6 {
                let (a, b) = pair(&mut ctx.rng, which);
                (vec![a, b][..n_args(which)].to_vec(), expected(which, a, b))
            } else {
                let mut x = [0u8; 32];
                for b in x.iter_mut() {
                    *b = ctx.rng.u64() as u8;
                }
                let e = aes.encrypt(x[..16].try_into().unwrap(), x[16..].try_into().unwrap(), &mut |_, _, _| ());
                // The first bit is the highest of the first byte.
                let w = |b: &[u8]| b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap()).reverse_bits()).collect::<Vec<u64>>();
                (w(&x), w(&e))
            }
        })
        .unzip();
    check!(c.input_len() == p.before + 64 * rows[0].len(), "{} inputs were added", c.input_len() - p.before);
    check!(c.output_len() == p.outs_before + 64 * want[0].len(), "{} outputs were added", c.output_len() - p.outs_before);
    let mut inp: Vec<u64> = (0..p.before).map(|_| ctx.rng.u64()).collect();
    inp.extend(word_lanes(&rows));
    let o = refc::outputs(&c, &refc::run(&c, &inp)?);
    for (l, w) in want.iter().enumerate() {
        for (k, x) in w.iter().enumerate() {
            let at = p.outs_before + 64 * k;
            let g = lane_word(&o[at..at + 64], l);
            check!(g == *x, "word {k} is {g:#x} instead of {x:#x} for {:x?}", rows[l]);
        }
        ctx.eval(1);
    }
    ctx.distinct(hash_str(&format!("{which} {:?} {}", p.ids, ctx.idx)));
    ctx.sample(|| format!("bundled circuit {which}, {:?} identifiers", p.ids));
    finish(ctx, &p)
}

fn c26_reader(ctx: &mut Ctx) -> Res {
    let mut rd = BristolReader::<RGate, RCircuit>::new();
    // The same reader object for several circuits.
    for round in 0..3 {
        let p = place(&mut ctx.rng, ctx.idx + round)?;
        let f = super::bristol::gen_file(&mut ctx.rng, 6, 30);
        let mut text = super::bristol::layout(&mut ctx.rng, &f);
        let mut c = p.c.clone();
        if ctx.rng.chance(1, 4) {
            // A file that is cut off may fail, but not by passing on what was never handed out.
            let n = ctx.rng.below(text.len() + 1);
            text.truncate(n);
            let _ = rd.read(&text[..], &mut c);
            ctx.count("files cut off", 1);
            finish(ctx, &p)?;
            continue;
        }
        ctx.note = format!("{:?} identifiers, file {:?}", p.ids, String::from_utf8_lossy(&text));
        explain(&p, guarded(|| rd.read(&text[..], &mut c).map_err(|e| format!("reading failed: {e:?}"))))?;
        check!(c.input_len() == p.before + f.n_in() && c.output_len() == p.outs_before + f.n_out(), "the numbers of inputs or outputs are wrong");
        let (inp, n) = lanes(&mut ctx.rng, p.before + f.n_in());
        let o = refc::outputs(&c, &refc::run(&c, &inp)?)[p.outs_before..].to_vec();
        let want = f.outputs(&inp[p.before..]);
        if o != want {
            let l = o.iter().zip(&want).fold(0, |a, (x, y)| a | (x ^ y)).trailing_zeros() as usize;
            return Err(Fail::Violation(format!("input {}: {} instead of {}", bits_str(&lane(&inp, l)), bits_str(&lane(&o, l)), bits_str(&lane(&want, l)))));
        }
        ctx.eval(n as u64);
        if f.n_out() > 0 && !f.gates.is_empty() {
            ctx.distinct(hash_str(&format!("{:?} {}", p.ids, f.text())));
        }
        ctx.sample(|| format!("{:?} identifiers, {:?}", p.ids, f.text()));
        finish(ctx, &p)?;
    }
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "random integer, bit-vector and field programs, the bundled circuits and random files are built over another implementation of the circuit interface with its own gate type and five ways of handing out identifiers (ascending, descending from the largest, scrambled, shared between equal gates, folded to constants and operands); it checks every identifier that comes back, and its own simulation is compared with integers, with a file interpreter and with AES; non-trivial: distinct by identifiers and program or file",
        assumptions: &["modules registered in a circuit are known in its sub-circuits, as builders need"],
        kinds: vec![
            kind("ints", 600, 12_000, c26_ints),
            kind("bits", 1500, 40_000, c26_bits),
            kind("fields", 300, 6000, c26_fields),
            kind("bundled", 70, 700, c26_bundled),
            kind("reader", 4000, 100_000, c26_reader),
        ],
    }
}
