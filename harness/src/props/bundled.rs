//! C18 C19: the circuits that come with the library.
use crate::aes::Aes;
use crate::model::*;
use crate::rng::{Fp, Rng};
use crate::runner::*;
use crate::sim::{self, Flat};
use crate::util::*;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::*;
use circuit_converters::*;

fn ebc(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

pub const NAMES: [&str; 6] = ["adder", "subtracter", "negation", "multiplier", "signed divider", "unsigned divider"];

pub fn bundle<G: Gate, C: BoolCircuit<G>>(which: usize, c: &mut BoolCircuitRef<G, C>) -> Result<(), String> {
    match which {
        0 => build_adder64(c),
        1 => build_sub64(c),
        2 => build_neg64(c),
        3 => build_mult2_64(c),
        4 => build_divide_signed_64(c),
        5 => build_divide_unsigned_64(c),
        _ => build_aes128(c),
    }
    .map_err(ebc)
}
pub fn n_args(which: usize) -> usize {
    if which == 2 {
        1
    } else {
        2
    }
}

/// The machine arithmetic that the circuits are to compute; words in output order.
pub fn expected(which: usize, a: u64, b: u64) -> Vec<u64> {
    match which {
        0 => vec![a.wrapping_add(b)],
        1 => vec![a.wrapping_sub(b)],
        2 => vec![a.wrapping_neg()],
        3 => {
            let p = a as u128 * b as u128;
            vec![(p >> 64) as u64, p as u64]
        }
        4 => vec![(a as i64).wrapping_div(b as i64) as u64],
        _ => vec![a / b],
    }
}

fn word(rng: &mut Rng) -> u64 {
    let k = rng.below(64) as u32;
    match rng.below(10) {
        0 => *rng.pick(&[0, 1, 2, 3, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1 << 32, u32::MAX as u64]),
        1 => 1u64 << k,
        2 => (1u64 << k).wrapping_sub(1),
        3 => !(1u64 << k),
        4 => rng.u64() >> k,
        5 => (rng.u64() >> k).wrapping_neg(),
        6 => ((rng.u64() as i64) >> k) as u64,
        7 => rng.u64() << k,
        _ => rng.u64(),
    }
}

/// A pair of operands; the second one is not zero where it is a divisor.
pub fn pair(rng: &mut Rng, which: usize) -> (u64, u64) {
    let mut a = word(rng);
    let mut b = word(rng);
    match rng.below(6) {
        0 => a = b,
        1 => a = b.wrapping_neg(),
        // next to a multiple of the second operand
        2 => a = b.wrapping_mul(word(rng)).wrapping_add(rng.below(3) as u64).wrapping_sub(1),
        3 => a = b.wrapping_add(rng.below(3) as u64).wrapping_sub(1),
        4 => b = rng.below(20) as u64,
        _ => (),
    }
    if rng.chance(1, 12) {
        b = b.wrapping_neg();
    }
    if which >= 4 && b == 0 {
        b = 1 + rng.below(300) as u64;
    }
    (a, b)
}

fn bits_of(w: u64) -> impl Iterator<Item = bool> {
    (0..64).map(move |i| w >> i & 1 == 1)
}

/// Row values per word to lanes per bit, lowest bit first.
pub fn word_lanes(rows: &[Vec<u64>]) -> Vec<u64> {
    let mut v = vec![0u64; 64 * rows[0].len()];
    for (l, r) in rows.iter().enumerate() {
        for (k, w) in r.iter().enumerate() {
            for i in 0..64 {
                v[64 * k + i] |= (w >> i & 1) << l;
            }
        }
    }
    v
}
pub fn lane_word(v: &[u64], l: usize) -> u64 {
    v.iter().enumerate().fold(0, |a, (i, x)| a | (x >> l & 1) << i)
}

/// Something that is already in the circuit before a bundled one is read into it.
fn preload(rng: &mut Rng, c: &mut Nx) -> Result<(), String> {
    if rng.bit() {
        return Ok(());
    }
    // Other bundled circuits, read into the same one.
    if rng.bit() {
        for _ in 0..1 + rng.below(4) {
            bundle(rng.below(3), c)?;
        }
    }
    let mut ids = vec![];
    let many = if rng.chance(1, 4) { 50 } else { 1 };
    for _ in 0..1 + rng.below(4 * many) {
        ids.push(c.input().map_err(eb)?);
    }
    for _ in 0..rng.below(4 * many) {
        let (a, b) = (*rng.pick(&ids), *rng.pick(&ids));
        ids.push(if rng.bit() { c.and(&a, &b) } else { c.constant(rng.bit()) }.map_err(eb)?);
    }
    for _ in 0..rng.below(3 * many) {
        c.output(*rng.pick(&ids)).map_err(eb)?;
    }
    Ok(())
}

/// How many gates were seen with every combination of operand values.
pub fn coverage(ctx: &mut Ctx, flat: &Flat, seen: &[u8], what: &str) {
    let full = flat.ins.iter().zip(seen).filter(|(i, s)| **s & sim::all_combinations(i) == sim::all_combinations(i)).count();
    ctx.max(&format!("gates of the {what}"), flat.ins.len() as u64);
    ctx.max(&format!("gates of the {what} seen with every operand combination in one case"), full as u64);
}

fn c18_case(ctx: &mut Ctx) -> Res {
    // The dividers and the multiplier are the large ones and come up more often.
    let which = [0, 1, 2, 3, 3, 4, 4, 4, 5, 5][ctx.idx % 10];
    ctx.note = format!("the {}", NAMES[which]);
    let mut c = new_circuit();
    preload(&mut ctx.rng, &mut c)?;
    let (i0, o0) = (c.input_len(), c.output_len());
    bundle(which, &mut c)?;
    let (na, no) = (n_args(which), expected(which, 1, 1).len());
    check!(c.input_len() - i0 == 64 * na && c.output_len() - o0 == 64 * no, "{} inputs and {} outputs were added", c.input_len() - i0, c.output_len() - o0);
    let flat = sim::compile(&c, &[])?;
    let mut seen = vec![0u8; flat.ins.len()];
    let batches = if ctx.thorough() { 6000 } else { 1000 };
    for b in 0..batches {
        let rows: Vec<Vec<u64>> = (0..64)
            .map(|_| {
                let (x, y) = pair(&mut ctx.rng, which);
                vec![x, y][..na].to_vec()
            })
            .collect();
        let mut inp: Vec<u64> = (0..i0).map(|_| ctx.rng.u64()).collect();
        inp.extend(word_lanes(&rows));
        let regs = flat.regs(&inp);
        flat.combinations(&regs, &mut seen);
        let got: Vec<u64> = flat.outs.iter().map(|o| regs[*o as usize]).collect();
        for (l, r) in rows.iter().enumerate() {
            let want = expected(which, r[0], *r.get(1).unwrap_or(&0));
            for (k, w) in want.iter().enumerate() {
                let g = lane_word(&got[o0 + 64 * k..o0 + 64 * (k + 1)], l);
                check!(g == *w, "operands {r:x?} gave word {k} = {g:#x} instead of {w:#x}");
            }
        }
        ctx.eval(64);
        if b < 3 {
            let l = ctx.rng.below(64);
            let real = eval_real(&c, &lane(&inp, l))?;
            let want: Vec<bool> = expected(which, rows[l][0], *rows[l].get(1).unwrap_or(&0)).into_iter().flat_map(bits_of).collect();
            check!(real[o0..] == want[..], "the evaluator gave {} for operands {:x?}", bits_str(&real[o0..]), rows[l]);
            ctx.count("runs of the real evaluator", 1);
            if b == 0 {
                ctx.sample(|| format!("{}{:x?} = {:x?}", NAMES[which], rows[l], expected(which, rows[l][0], *rows[l].get(1).unwrap_or(&0))));
            }
        }
    }
    coverage(ctx, &flat, &seen, NAMES[which]);
    ctx.count(&format!("operand pairs of the {}", NAMES[which]), 64 * batches);
    let mut f = Fp::new();
    f.add(which as u64);
    f.add(i0 as u64);
    f.add(o0 as u64);
    f.add(ctx.idx as u64);
    ctx.distinct(f.0);
    Ok(())
}

/// Expressions over several bundled circuits called as modules, or read into the same circuit side by side.
fn c18_composed(ctx: &mut Ctx) -> Res {
    let store = new_store();
    let mut top = NXAOBoolCircuit::new(store.clone()).to_ref();
    let mut mids = vec![];
    for which in 0..6 {
        let mut m = if ctx.rng.bit() { new_circuit() } else { NXAOBoolCircuit::new(store.clone()).to_ref() };
        bundle(which, &mut m)?;
        mids.push(top.register_module(&m));
    }
    let n_words = 2 + ctx.rng.below(2);
    let mut vals: Vec<Vec<GateId>> = vec![];
    for _ in 0..n_words {
        vals.push((0..64).map(|_| top.input()).collect::<Result<Vec<_>, _>>().map_err(eb)?);
    }
    let mut ops = vec![];
    for _ in 0..2 + ctx.rng.below(3) {
        let which = if ctx.rng.chance(1, 2) { ctx.rng.below(3) } else { ctx.rng.below(6) };
        let (a, b) = (ctx.rng.skewed(vals.len()), ctx.rng.below(vals.len()));
        // Divisors stay inputs, which are never zero.
        let b = if which >= 4 { b % n_words } else { b };
        let mut args = vals[a].clone();
        if which != 2 {
            args.extend(&vals[b]);
        }
        let r = top.module(&mids[which], &args).map_err(eb)?;
        check!(r.len() % 64 == 0 && !r.is_empty(), "a call of the {} gave {} bits", NAMES[which], r.len());
        for w in r.chunks(64) {
            vals.push(w.to_vec());
        }
        ops.push((which, a, b));
    }
    for w in &vals[n_words..] {
        for g in w {
            top.output(*g).map_err(eb)?;
        }
    }
    ctx.note = format!("calls {ops:?} over {n_words} words");
    let flat = sim::compile(&top, &[])?;
    for b in 0..20 {
        let rows: Vec<Vec<u64>> = (0..64)
            .map(|_| {
                let (x, y) = pair(&mut ctx.rng, 4);
                vec![if x == 0 { 7 } else { x }, y, word(&mut ctx.rng) | 1][..n_words].to_vec()
            })
            .collect();
        let inp = word_lanes(&rows);
        let got = flat.run(&inp);
        for (l, row) in rows.iter().enumerate() {
            let mut v = row.clone();
            for (which, a, b) in &ops {
                let r = expected(*which, v[*a], v[*b]);
                v.extend(r);
            }
            for (k, w) in v[n_words..].iter().enumerate() {
                let g = lane_word(&got[64 * k..64 * (k + 1)], l);
                check!(g == *w, "value {k} is {g:#x} instead of {w:#x} for words {row:x?}");
            }
            if b == 0 && l == 0 {
                let want: Vec<bool> = v[n_words..].iter().flat_map(|w| bits_of(*w)).collect();
                check!(eval_real(&top, &lane(&inp, 0))? == want, "the evaluator disagrees on words {row:x?}");
                ctx.count("runs of the real evaluator", 1);
            }
        }
        ctx.eval(64);
    }
    let mut f = Fp::new();
    for (a, b, c) in &ops {
        f.add((a * 10000 + b * 100 + c) as u64);
    }
    ctx.distinct(f.0);
    ctx.sample(|| format!("calls (circuit, left, right) {ops:?} over {n_words} words"));
    Ok(())
}

/// The signed and unsigned extremes in every pairing, through the real evaluator as well.
fn c18_corners(ctx: &mut Ctx) -> Res {
    let which = ctx.idx;
    ctx.note = format!("the {}", NAMES[which]);
    let mut corners: Vec<u64> = vec![0, 1, 2, 3, 5, 7, 10, 255, 256, u64::MAX, u64::MAX - 1, u64::MAX - 2];
    for k in [1, 2, 31, 32, 33, 47, 61, 62, 63] {
        corners.extend([1u64 << k, (1u64 << k) - 1, (1u64 << k) + 1, !(1u64 << k), (1u64 << k).wrapping_neg()]);
    }
    corners.sort();
    corners.dedup();
    let mut c = new_circuit();
    bundle(which, &mut c)?;
    let flat = sim::compile(&c, &[])?;
    let mut all: Vec<Vec<u64>> = vec![];
    for a in &corners {
        for b in if which == 2 { &corners[..1] } else { &corners[..] } {
            if which < 4 || *b != 0 {
                all.push(vec![*a, *b][..n_args(which)].to_vec());
            }
        }
    }
    for rows in all.chunks(64) {
        let got = flat.run(&word_lanes(rows));
        for (l, r) in rows.iter().enumerate() {
            for (k, w) in expected(which, r[0], *r.get(1).unwrap_or(&0)).iter().enumerate() {
                let g = lane_word(&got[64 * k..64 * (k + 1)], l);
                check!(g == *w, "operands {r:x?} gave word {k} = {g:#x} instead of {w:#x}");
            }
        }
        ctx.eval(rows.len() as u64);
    }
    for (a, b) in [(1u64 << 63, u64::MAX), (1 << 63, 1), (u64::MAX, u64::MAX), (u64::MAX, 2), (1, 1 << 63), (0, 1), ((1 << 63) - 1, u64::MAX)] {
        let row = &vec![a, b][..n_args(which)];
        let inp: Vec<bool> = row.iter().flat_map(|w| bits_of(*w)).collect();
        let want: Vec<bool> = expected(which, a, b).into_iter().flat_map(bits_of).collect();
        let real = eval_real(&c, &inp)?;
        check!(real == want, "the evaluator gave {} for operands {row:x?}", bits_str(&real));
        ctx.count("runs of the real evaluator", 1);
    }
    ctx.count("corner pairs", all.len() as u64);
    ctx.distinct(which as u64);
    ctx.sample(|| format!("{} corner operands of the {}", corners.len(), NAMES[which]));
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "each of the six circuits is built (half of the time into a circuit that already holds gates), its outputs are computed for thousands of operand pairs in 64 lanes from the gates it consists of, some of them by the real evaluator, and compared with u64, i64 and u128 arithmetic of the machine; expressions call several of them as modules; non-trivial: distinct by circuit and case, or by expression",
        assumptions: &["division by zero is not specified and not generated"],
        kinds: vec![kind("corners", 6, 6, c18_corners), kind("operands", 40, 200, c18_case), kind("composed", 24, 200, c18_composed)],
    }
}

// ---------------------------------------------------------------- C19

fn be_lanes(rows: &[Vec<u8>]) -> Vec<u64> {
    let mut v = vec![0u64; 8 * rows[0].len()];
    for (l, r) in rows.iter().enumerate() {
        for (k, b) in r.iter().enumerate() {
            for i in 0..8 {
                v[8 * k + i] |= ((b >> (7 - i) & 1) as u64) << l;
            }
        }
    }
    v
}

fn bytes16(rng: &mut Rng, like: Option<[u8; 16]>) -> [u8; 16] {
    let mut r = [0u8; 16];
    match rng.below(8) {
        0 => {
            let i = rng.below(128);
            r[i / 8] = 0x80 >> (i % 8);
        }
        1 => {
            let b = rng.u64() as u8;
            r = [b; 16];
        }
        2 => {
            for b in r.iter_mut() {
                *b = *rng.pick(&[0, 0xff, 1, 0x80]);
            }
        }
        3 if like.is_some() => {
            r = like.unwrap();
            if rng.bit() {
                let i = rng.below(128);
                r[i / 8] ^= 1 << (i % 8);
            }
        }
        _ => {
            for b in r.iter_mut() {
                *b = rng.u64() as u8;
            }
        }
    }
    r
}

fn c19_case(ctx: &mut Ctx) -> Res {
    let aes = Aes::new();
    assert!(aes.self_test(), "the reference does not reproduce the FIPS-197 examples");
    let mut c = new_circuit();
    preload(&mut ctx.rng, &mut c)?;
    let (i0, o0) = (c.input_len(), c.output_len());
    build_aes128(&mut c).map_err(ebc)?;
    check!(c.input_len() - i0 == 256 && c.output_len() - o0 == 128, "{} inputs and {} outputs were added", c.input_len() - i0, c.output_len() - o0);
    let flat = sim::compile(&c, &[])?;
    let mut cov = vec![0u8; flat.ins.len()];
    let mut seen = vec![[0u64; 4]; 160];
    let batches = if ctx.thorough() { 1500 } else { 150 };
    for b in 0..batches {
        let rows: Vec<([u8; 16], [u8; 16])> = (0..64)
            .map(|_| {
                let k = bytes16(&mut ctx.rng, None);
                (bytes16(&mut ctx.rng, Some(k)), k)
            })
            .collect();
        let mut inp: Vec<u64> = (0..i0).map(|_| ctx.rng.u64()).collect();
        inp.extend(be_lanes(&rows.iter().map(|(b, k)| b.iter().chain(k.iter()).copied().collect()).collect::<Vec<_>>()));
        let regs = flat.regs(&inp);
        flat.combinations(&regs, &mut cov);
        let got: Vec<u64> = flat.outs[o0..].iter().map(|o| regs[*o as usize]).collect();
        let wants: Vec<Vec<u8>> = rows
            .iter()
            .map(|(blk, k)| aes.encrypt(blk, k, &mut |r, i, v| seen[16 * (r - 1) + i][v as usize / 64] |= 1 << (v % 64)).to_vec())
            .collect();
        let want = be_lanes(&wants);
        if got != want {
            let bad = got.iter().zip(&want).fold(0, |a, (g, w)| a | (g ^ w));
            let l = bad.trailing_zeros() as usize;
            fail!("block {:02x?} under key {:02x?} gave bits {} instead of bytes {:02x?}", rows[l].0, rows[l].1, bits_str(&lane(&got, l)), wants[l]);
        }
        ctx.eval(64);
        if b < 4 {
            let l = ctx.rng.below(64);
            let (blk, key) = rows[l];
            let mut bits = lane(&inp[..i0], l);
            // The way of the example in the documentation.
            bits.extend(bytes2bits_be(&blk));
            bits.extend(bytes2bits_be(&key));
            let real = eval_real(&c, &bits)?;
            check!(bits2bytes_be(&real[o0..]) == wants[l], "the evaluator gave {:02x?} for block {blk:02x?} under key {key:02x?} instead of {:02x?}", bits2bytes_be(&real[o0..]), wants[l]);
            ctx.count("runs of the real evaluator", 1);
            ctx.sample(|| format!("{blk:02x?} under {key:02x?} is {:02x?}", wants[l]));
        }
        ctx.distinct({
            let mut f = Fp::new();
            for x in &inp {
                f.add(*x);
            }
            f.0
        });
    }
    coverage(ctx, &flat, &cov, "AES circuit");
    ctx.count("blocks encrypted", 64 * batches);
    let full = seen.iter().filter(|s| s.iter().all(|w| *w == !0)).count();
    ctx.max("of the 160 S-boxes of the data path that saw all 256 inputs in one case", full as u64);
    Ok(())
}

/// As a module, twice in a chain: encrypting under one key and then under another.
fn c19_chain(ctx: &mut Ctx) -> Res {
    let aes = Aes::new();
    let mut top = new_circuit();
    let mut m = new_circuit();
    build_aes128(&mut m).map_err(ebc)?;
    let mid = top.register_module(&m);
    let ins = (0..384).map(|_| top.input()).collect::<Result<Vec<_>, _>>().map_err(eb)?;
    let first = top.module(&mid, &ins[..256]).map_err(eb)?;
    let mut args = first.clone();
    args.extend(&ins[256..]);
    let second = top.module(&mid, &args).map_err(eb)?;
    for g in &second {
        top.output(*g).map_err(eb)?;
    }
    for _ in 0..2 {
        let (b, k1, k2) = (bytes16(&mut ctx.rng, None), bytes16(&mut ctx.rng, None), bytes16(&mut ctx.rng, None));
        let inp = [b, k1, k2].iter().flat_map(|x| bytes2bits_be(x)).collect::<Vec<bool>>();
        let want = aes.encrypt(&aes.encrypt(&b, &k1, &mut |_, _, _| ()), &k2, &mut |_, _, _| ());
        let got = bits2bytes_be(&eval_real(&top, &inp)?);
        check!(got == want, "block {b:02x?} under keys {k1:02x?} and {k2:02x?} gave {got:02x?} instead of {want:02x?}");
        ctx.eval(1);
        ctx.count("double encryptions by the real evaluator", 1);
        ctx.sample(|| format!("{b:02x?} under {k1:02x?} and then {k2:02x?} is {want:02x?}"));
    }
    Ok(())
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "the circuit is built (half of the time into a circuit that already holds gates) and its outputs are computed for thousands of blocks and keys in 64 lanes, some of them by the real evaluator, and compared with an AES-128 written from FIPS-197 that reproduces its examples; non-trivial: distinct batches of 64 blocks and keys",
        assumptions: &[],
        kinds: vec![kind("blocks", 16, 64, c19_case), kind("chain", 8, 40, c19_chain)],
    }
}
