//! C07 C08 C25 C09 C10 C11: the Bristol writer and reader.
use super::circuits::big_prog;
use crate::bfile::{must_fail, BFile, Gate, Op};
use crate::faults::*;
use crate::model::*;
use crate::rng::{mix, Fp, Rng};
use crate::runner::*;
use crate::sim;
use crate::util::*;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::*;
use circuit_converters::finite_field::*;
use circuit_converters::*;
use std::collections::HashMap;
use std::io::{BufWriter, ErrorKind, Write};

// ---------------------------------------------------------------- writer

struct Case {
    c: Nx,
    /// Number of constants with all calls expanded.
    n_const: usize,
    first: usize,
    w: Written,
}

fn n_const(lib: &Lib) -> usize {
    let mut memo: Vec<usize> = vec![];
    for p in &lib.progs {
        memo.push(
            p.steps
                .iter()
                .map(|s| match s {
                    Step::Const(_) => 1,
                    Step::Call(m, _, _) => memo[*m as usize],
                    _ => 0,
                })
                .sum(),
        );
    }
    *memo.last().unwrap()
}

fn writer_cfg(rng: &mut Rng) -> GenCfg {
    match rng.below(5) {
        0 => GenCfg::flat(5, 10),
        1 => GenCfg { max_outs: 30, ..GenCfg::flat(20, 120) },
        2 => GenCfg::modular(4, 10, 2),
        3 => GenCfg { max_outs: 10, ..GenCfg::modular(8, 30, 4) },
        _ => GenCfg { max_outs: 3, ..GenCfg::modular(3, 6, 3) },
    }
}

/// Writes the circuit in one of the ways a caller may: fresh or reused writer, fresh or reused map.
fn write_somehow(ctx: &mut Ctx, c: &Nx, n_all: usize) -> Result<(usize, Written), Fail> {
    let first = random_first(&mut ctx.rng, n_all);
    let how = ctx.rng.below(6);
    ctx.count(["fresh writer, fresh map", "fresh writer, reused map", "reused writer, fresh map", "reused writer and map", "small buffer", "after evaluation"][how], 1);
    let e = |e: BristolError| Fail::Violation(format!("writing failed: {e:?}"));
    let mut map = HashMap::new();
    if how == 1 || how == 3 {
        let other = gen_lib(&mut ctx.rng, &GenCfg::flat(6, 20));
        let mode = gen_mode(&mut ctx.rng);
        let b = build(&other, &mode)?;
        let mut w = BristolNXAOWriter::new(b.top(), BufWriter::new(Vec::new()));
        w.write(0, Some(&mut map)).map_err(e)?;
    }
    if how == 5 && c.num_gate() < 5000 {
        let bits = ctx.rng.bits(c.input_len());
        eval_real(c, &bits)?;
    }
    let cap = if how == 4 { ctx.rng.below(40) } else { 8192 };
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, Vec::new()));
    let mut skip = 0;
    if how == 2 || how == 3 {
        w.write(random_first(&mut ctx.rng, n_all), None).map_err(e)?;
        w.writer.flush().map_err(|e| format!("{e:?}"))?;
        skip = w.writer.get_ref().len();
    }
    let consts = w.write(first, Some(&mut map)).map_err(e)?;
    let text = w.writer.into_inner().map_err(|e| format!("{e:?}"))?;
    let w = Written { text: text[skip..].to_vec(), consts, map };
    Ok((first, w))
}

fn make_case(ctx: &mut Ctx, lib: &Lib) -> Result<(Built, Case), Fail> {
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(lib, &mode);
    let b = build(lib, &mode)?;
    let nc = n_const(lib);
    let c = b.top();
    let (first, w) = write_somehow(ctx, &c, lib.top().n_in + nc)?;
    ctx.note = format!("{} first group {first}", ctx.note);
    if w.text.len() < 3000 {
        ctx.note += &format!("\n  written: {:?}", String::from_utf8_lossy(&w.text));
    }
    ctx.eval(1);
    ctx.max("bytes of a written file", w.text.len() as u64);
    Ok((b, Case { c, n_const: nc, first, w }))
}

fn distinct_text(ctx: &mut Ctx, text: &[u8]) {
    let mut f = Fp::new();
    for ch in text.chunks(8) {
        let mut x = [0u8; 8];
        x[..ch.len()].copy_from_slice(ch);
        f.add(u64::from_le_bytes(x));
    }
    ctx.distinct(f.0);
}

/// The statement of C07 for one written file.
fn well_formed(k: &Case, n_in: usize, n_out: usize) -> Result<BFile, Fail> {
    let f = BFile::parse(&k.w.text)?;
    f.validate()?;
    check!(
        f.ins == vec![k.first, n_in + k.n_const - k.first],
        "the input groups are {:?} for {n_in} inputs, {} constants and a first group of {}",
        f.ins,
        k.n_const,
        k.first
    );
    check!(f.outs == vec![n_out], "the output groups are {:?} for {n_out} outputs", f.outs);
    check!(k.w.text.is_ascii() && !k.w.text.contains(&b'\r') && k.w.text.ends_with(b"\n"), "the text is not plain lines");
    Ok(f)
}

fn with_consts(inp: &[u64], consts: &[bool]) -> Vec<u64> {
    inp.iter().copied().chain(consts.iter().map(|b| if *b { !0 } else { 0 })).collect()
}

fn c07_one(ctx: &mut Ctx, lib: &Lib) -> Res {
    let (_b, k) = make_case(ctx, lib)?;
    let t = lib.top();
    let f = well_formed(&k, t.n_in, t.outs.len())?;
    let (inp, _) = lanes(&mut ctx.rng, t.n_in);
    if k.w.consts.len() == k.n_const {
        let got = f.outputs(&with_consts(&inp, &k.w.consts));
        check!(got == lib.eval_top(&inp).outs, "the last wires are not the outputs in their order");
    }
    ctx.count("gate lines checked", f.gates.len() as u64);
    if !f.gates.is_empty() {
        distinct_text(ctx, &k.w.text);
    }
    let text = k.w.text;
    ctx.sample(|| String::from_utf8_lossy(&text).replace('\n', " | "));
    Ok(())
}

fn c07_random(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let cfg = writer_cfg(&mut ctx.rng);
        let lib = gen_lib(&mut ctx.rng, &cfg);
        c07_one(ctx, &lib)?;
    }
    Ok(())
}

fn big_lib(ctx: &mut Ctx) -> Lib {
    if ctx.idx % 8 < 6 {
        let n = if ctx.thorough() { 100_000 } else if ctx.idx < 6 { 66_000 } else { 12_000 } + ctx.rng.below(100);
        let p = big_prog(ctx, ctx.idx % 8, n);
        Lib { progs: vec![p] }
    } else {
        gen_lib(&mut ctx.rng, &GenCfg { max_expanded: 60_000, max_outs: 40, ..GenCfg::modular(30, 400, 6) })
    }
}

fn c07_big(ctx: &mut Ctx) -> Res {
    let lib = big_lib(ctx);
    c07_one(ctx, &lib)
}

/// All circuits of 2 inputs, one constant or none and two gates, with all output lists of up to two outputs.
fn tiny_lib(i: usize) -> Option<Lib> {
    let mut p = Prog::default();
    let mut i = i;
    let mut take = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    p.push(Step::Input, &[]);
    p.push(Step::Input, &[]);
    match take(3) {
        0 => {
            p.push(Step::Const(true), &[]);
        }
        1 => {
            p.push(Step::Const(false), &[]);
        }
        _ => {}
    }
    for _ in 0..2 {
        let n = p.n_vals;
        let (op, a, b) = (take(6), take(5), take(5));
        if a >= n || b >= n || (op < 2 && b > 0) {
            return None;
        }
        let (a, b) = (a as u32, b as u32);
        p.push(
            match op {
                0 => Step::Not(a),
                1 => Step::Ident(a),
                2 => Step::Xor(a, b),
                3 => Step::And(a, b),
                4 => Step::Or(a, b),
                _ => Step::Eqv(a, b),
            },
            &[],
        );
    }
    for _ in 0..2 {
        let o = take(6);
        if o < p.n_vals {
            p.push(Step::Out(o as u32), &[]);
        }
    }
    if i > 0 {
        return None;
    }
    Some(Lib { progs: vec![p] })
}
const TINY: usize = 3 * 150 * 150 * 36;
const TINY_CHUNKS: usize = 600;

fn tiny(ctx: &mut Ctx, f: fn(&mut Ctx, &Lib) -> Res) -> Res {
    let per = TINY.div_ceil(TINY_CHUNKS);
    // A quarter of them in the quick tier.
    let step = if ctx.thorough() { 1 } else { 6 };
    let off = ctx.rng.below(step);
    for i in (ctx.idx * per + off..((ctx.idx + 1) * per).min(TINY)).step_by(step) {
        if let Some(lib) = tiny_lib(i) {
            f(ctx, &lib)?;
            ctx.count("tiny circuits", 1);
        }
    }
    Ok(())
}
fn c07_tiny(ctx: &mut Ctx) -> Res {
    tiny(ctx, c07_one)
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "random, tiny (enumerated), large and nested circuits are written with fresh and reused writers, maps and first-group sizes; the text is parsed by an independent strict parser and every rule of the statement is checked; non-trivial: at least one gate line, distinct by text",
        assumptions: &[],
        kinds: vec![kind("big", 16, 64, c07_big), kind("tiny", TINY_CHUNKS, TINY_CHUNKS, c07_tiny), kind("random", 16_000, 400_000, c07_random)],
    }
}

// ---------------------------------------------------------------- C08

fn round_trip(ctx: &mut Ctx, c: &Nx, w: &Written, inp: &[u64], n: usize, want: &[u64], real: usize) -> Res {
    let c2 = read_real(&w.text)?;
    check!(
        c2.input_len() == inp.len() + w.consts.len(),
        "the file declares {} inputs, the circuit has {} and {} constant values were returned",
        c2.input_len(),
        inp.len(),
        w.consts.len()
    );
    check!(c2.output_len() == want.len(), "the read circuit has {} outputs instead of {}", c2.output_len(), want.len());
    let inp2 = with_consts(inp, &w.consts);
    let got = sim::compile(&c2, &[])?.run(&inp2);
    if got != want {
        let l = (got.iter().zip(want).fold(0, |a, (x, y)| a | (x ^ y))).trailing_zeros() as usize;
        fail!("input {}: the circuit read back denotes {} instead of {}", bits_str(&lane(&inp2, l)), bits_str(&lane(&got, l)), bits_str(&lane(want, l)));
    }
    compare_eval(ctx, &c2, &inp2, n, want, real)?;
    // and once more
    let first = random_first(&mut ctx.rng, c2.input_len());
    let w2 = write_real(&c2, first)?;
    let c3 = read_real(&w2.text)?;
    let inp3 = with_consts(&inp2, &w2.consts);
    check!(c3.input_len() == inp3.len() && c3.output_len() == want.len(), "the second generation has other numbers of inputs or outputs");
    compare_eval(ctx, &c3, &inp3, n, want, real.min(4))?;
    let got = sim::compile(&c3, &[])?.run(&inp3);
    check!(got == want, "the second generation computes another function");
    let _ = c;
    Ok(())
}

fn c08_one(ctx: &mut Ctx, lib: &Lib) -> Res {
    let (_b, k) = make_case(ctx, lib)?;
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp).outs;
    round_trip(ctx, &k.c, &k.w, &inp, n, &want, 16)?;
    if !want.is_empty() {
        distinct_text(ctx, &k.w.text);
    }
    ctx.count("constant values returned", k.w.consts.len() as u64);
    ctx.sample(|| lib.text());
    Ok(())
}
fn c08_random(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let cfg = writer_cfg(&mut ctx.rng);
        let lib = gen_lib(&mut ctx.rng, &cfg);
        c08_one(ctx, &lib)?;
    }
    Ok(())
}
fn c08_big(ctx: &mut Ctx) -> Res {
    let lib = big_lib(ctx);
    c08_one(ctx, &lib)
}
fn c08_tiny(ctx: &mut Ctx) -> Res {
    tiny(ctx, c08_one)
}

/// The real circuits of the library: bundled ones and integer circuits.
fn c08_library(ctx: &mut Ctx) -> Res {
    let mut c = new_circuit();
    let which = ctx.idx % 10;
    let e = |e: BuildCircuitError| format!("{e:?}");
    let o = |e: BoolCircuitError| format!("{e:?}");
    match which {
        0 => build_adder64(&mut c).map_err(e)?,
        1 => build_sub64(&mut c).map_err(e)?,
        2 => build_neg64(&mut c).map_err(e)?,
        3 => build_mult2_64(&mut c).map_err(e)?,
        4 => build_divide_unsigned_64(&mut c).map_err(e)?,
        5 => build_divide_signed_64(&mut c).map_err(e)?,
        6 => build_aes128(&mut c).map_err(e)?,
        7 => {
            let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, 8>::new(&c).map_err(e)?;
            let a = AllocInt::new(&cfg).map_err(e)?;
            let b = AllocInt::new(&cfg).map_err(e)?;
            let k = AllocInt::from_biguint(&num_bigint::BigUint::from(113u32), &cfg).map_err(e)?;
            let d = &(&(&a * &b) + &k) - &b;
            d.output().map_err(e)?;
            let l = a.less(&k).map_err(e)?;
            c.output(l).map_err(o)?;
        }
        8 => {
            let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, 16>::new(&c).map_err(e)?;
            let a = AllocInt::new(&cfg).map_err(e)?;
            let b = AllocInt::zero(&cfg).map_err(e)?;
            (-&(&a - &b)).output().map_err(e)?;
            (&a * &AllocInt::one(&cfg).map_err(e)?).output().map_err(e)?;
        }
        _ => {
            let icfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, 10>::new(&c).map_err(e)?;
            let cfg = AllocFpConfig::new(&c, &icfg, num_bigint::BigUint::from(13u32), 4).map_err(e)?;
            let a = AllocFp::new(&cfg).map_err(e)?;
            let b = AllocFp::new(&cfg).map_err(e)?;
            for x in (&(&a + &b) - &b).to_gate_ids() {
                c.output(x).map_err(o)?;
            }
        }
    }
    ctx.note = format!("library circuit {which}");
    let n_in = c.input_len();
    let (inp, n) = lanes(&mut ctx.rng, n_in);
    let want = sim::compile(&c, &[])?.run(&inp);
    let first = random_first(&mut ctx.rng, n_in + c.num_const());
    let w = write_real(&c, first)?;
    let f = BFile::parse(&w.text)?;
    f.validate()?;
    ctx.eval(1);
    ctx.max("gate lines of a written file", f.gates.len() as u64);
    round_trip(ctx, &c, &w, &inp, n, &want, 2)?;
    ctx.distinct(mix(which as u64 + 1000));
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "random, tiny (enumerated), large, nested and library circuits are written, read back, written and read back again; each generation is compared with the interpreter on up to 64 input vectors (all vectors up to 6 inputs), also through the real evaluator; non-trivial: at least one output, distinct by written text",
        assumptions: &[],
        kinds: vec![
            kind("library", 10, 30, c08_library),
            kind("big", 16, 64, c08_big),
            kind("tiny", TINY_CHUNKS, TINY_CHUNKS, c08_tiny),
            kind("random", 8000, 200_000, c08_random),
        ],
    }
}

// ---------------------------------------------------------------- C25

fn c25_one(ctx: &mut Ctx, lib: &Lib) -> Res {
    let (b, k) = make_case(ctx, lib)?;
    let t = lib.top();
    let f = BFile::parse(&k.w.text).map_err(|e| format!("the written file is not valid: {e}"))?;
    f.validate().map_err(|e| format!("the written file is not valid: {e}"))?;
    let n_in = t.n_in;
    let consts = k.c.get_const_gates();
    let flat = sim::compile(&k.c, &consts)?;
    let (inp, _) = lanes(&mut ctx.rng, n_in);
    check!(f.n_in() == n_in + k.w.consts.len(), "{} file inputs, {} inputs and {} constants", f.n_in(), n_in, k.w.consts.len());
    let wires = f.wires(&with_consts(&inp, &k.w.consts));
    let regs = flat.regs(&inp);
    // The meaning of the ids this circuit handed out, from the construction program itself.
    let vals = lib.eval_top(&inp).vals;
    let top = lib.progs.len() - 1;
    let mut known: HashMap<GateId, u64> = HashMap::new();
    for (v, id) in b.vals[top].iter().enumerate() {
        known.insert(*id, vals[v]);
    }
    let mut checked = 0u64;
    for (id, r) in &flat.reg_of {
        let Some(w) = k.w.map.get(id) else { fail!("the map has no wire for gate {id}, on which an output depends") };
        check!(*w < f.n_wires, "gate {id} is mapped to wire {w}, there are {}", f.n_wires);
        let want = known.get(id).copied().unwrap_or(regs[*r as usize]);
        check!(wires[*w] == want, "gate {id} is mapped to wire {w}, which carries another value");
        checked += 1;
    }
    for (i, v) in input_values(t, lib).into_iter().enumerate() {
        let id = &b.vals[top][v];
        check!(k.w.map.get(id) == Some(&i), "input {i} (gate {id}) is mapped to {:?}", k.w.map.get(id));
    }
    let mut seen = vec![];
    for id in &consts {
        let w = k.w.map[id];
        check!(w >= n_in && w < n_in + k.n_const && !seen.contains(&w), "constant {id} is mapped to wire {w}, constants are {n_in}..{}", n_in + k.n_const);
        seen.push(w);
    }
    ctx.count("map entries checked", checked);
    if !f.gates.is_empty() {
        distinct_text(ctx, &k.w.text);
    }
    ctx.sample(|| format!("{} map entries of {}", checked, lib.text()));
    Ok(())
}

/// The values that are the inputs of the program.
fn input_values(p: &Prog, lib: &Lib) -> Vec<usize> {
    let (mut v, mut n) = (vec![], 0);
    for s in &p.steps {
        n += match s {
            Step::Out(_) => 0,
            Step::Call(m, _, _) => lib.progs[*m as usize].outs.len(),
            Step::Input => {
                v.push(n);
                1
            }
            _ => 1,
        };
    }
    v
}

fn c25_random(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let cfg = writer_cfg(&mut ctx.rng);
        let lib = gen_lib(&mut ctx.rng, &cfg);
        c25_one(ctx, &lib)?;
    }
    Ok(())
}
fn c25_big(ctx: &mut Ctx) -> Res {
    let lib = big_lib(ctx);
    c25_one(ctx, &lib)
}
fn c25_tiny(ctx: &mut Ctx) -> Res {
    tiny(ctx, c25_one)
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        rule: "random, tiny (enumerated), large and nested circuits are written with a fresh or reused map; for every input, constant, output and gate reachable from an output the mapped wire of the independently simulated file carries the gate's value in 64 lanes; non-trivial: at least one gate line, distinct by text",
        assumptions: &[],
        kinds: vec![kind("big", 16, 64, c25_big), kind("tiny", TINY_CHUNKS, TINY_CHUNKS, c25_tiny), kind("random", 16_000, 400_000, c25_random)],
    }
}

// ---------------------------------------------------------------- generated files

pub fn gen_file(rng: &mut Rng, max_in: usize, max_gates: usize) -> BFile {
    let mut f = BFile::default();
    let groups = rng.below(4);
    for _ in 0..groups {
        let n = match rng.below(4) {
            0 => rng.below(2),
            _ => rng.below(max_in + 1),
        };
        f.ins.push(n);
    }
    let n_in = f.n_in();
    let n_gates = match rng.below(10) {
        0 => 0,
        1 => 1,
        _ => rng.below(max_gates + 1),
    };
    f.n_gates = n_gates;
    f.n_wires = n_in + n_gates;
    // Which wire each gate assigns: in order, reversed in blocks, or a permutation.
    let mut outs: Vec<usize> = (n_in..f.n_wires).collect();
    match rng.below(4) {
        0 => {}
        1 => outs.reverse(),
        _ => rng.shuffle(&mut outs),
    }
    let mut avail: Vec<usize> = (0..n_in).collect();
    let style = rng.below(3);
    for o in outs {
        let mut op = *rng.pick(&Op::ALL);
        if avail.is_empty() {
            op = Op::Eq;
        }
        let ins = if op == Op::Eq {
            vec![rng.below(2)]
        } else {
            (0..op.arity())
                .map(|_| match style {
                    0 => *rng.pick(&avail),
                    1 => avail[avail.len() - 1 - rng.below(avail.len().min(3))],
                    _ => avail[rng.skewed(avail.len())],
                })
                .collect()
        };
        f.gates.push(Gate { op, ins, out: o });
        avail.push(o);
    }
    // Output groups.
    let total = match rng.below(5) {
        0 => 0,
        1 => f.n_wires,
        2 => 1.min(f.n_wires),
        _ => rng.below(f.n_wires + 1).min(1 + rng.below(12)),
    };
    let mut left = total;
    let g = rng.below(4);
    for i in 0..g {
        let n = if i == g - 1 { left } else { rng.below(left + 1) };
        f.outs.push(n);
        left -= n;
    }
    f
}

/// The same file in a random layout.
pub fn layout(rng: &mut Rng, f: &BFile) -> Vec<u8> {
    let style = rng.below(5);
    let crlf = match rng.below(4) {
        0 => 2,
        1 => 1,
        _ => 0,
    };
    let mut o = String::new();
    let plain = f.text();
    let blanks = rng.chance(1, 3);
    let lines: Vec<&str> = plain.strip_suffix('\n').unwrap().split('\n').collect();
    let eol = |rng: &mut Rng, o: &mut String| {
        if crlf == 2 || (crlf == 1 && rng.bit()) {
            o.push('\r');
        }
        o.push('\n');
    };
    let sep = |rng: &mut Rng| -> &'static str {
        match style {
            0 | 1 => " ",
            2 => "\t",
            3 => *rng.pick(&["  ", "\t", " ", "   \t "]),
            _ => *rng.pick(&[" ", "  "]),
        }
    };
    for (i, l) in lines.iter().enumerate() {
        if style >= 3 && rng.chance(1, 3) {
            o += sep(rng);
        }
        for (j, t) in l.split(' ').enumerate() {
            if j > 0 {
                o += sep(rng);
            }
            o += t;
        }
        if style >= 1 && rng.chance(1, 2) {
            o += sep(rng);
        }
        let last = i + 1 == lines.len();
        if !last || i == 3 || rng.chance(2, 3) {
            eol(rng, &mut o);
        } else if crlf == 2 && rng.bit() {
            o.push('\r');
        }
        if last && o.ends_with('\n') {
            for _ in 0..(if rng.chance(1, 3) { rng.below(4) } else { 0 }) {
                if blanks && rng.bit() {
                    o += sep(rng);
                }
                eol(rng, &mut o);
            }
        }
    }
    o.into_bytes()
}

pub fn chunks(rng: &mut Rng) -> Vec<usize> {
    match rng.below(4) {
        0 => vec![],
        1 => vec![1],
        2 => vec![1 + rng.below(9)],
        _ => (0..5).map(|_| 1 + rng.below(30)).collect(),
    }
}

fn c09_one(ctx: &mut Ctx, f: &BFile) -> Res {
    f.validate().map_err(|e| format!("harness error: {e}"))?;
    let text = layout(&mut ctx.rng, f);
    ctx.note = format!("file {:?}", String::from_utf8_lossy(&text[..text.len().min(3000)]));
    // A receiving circuit that may hold something already.
    let mut c = new_circuit();
    let mut ids = vec![];
    let mut old_lib = None;
    if ctx.rng.bit() {
        let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(4, 8, 2));
        let mode = gen_mode(&mut ctx.rng);
        let mut b = build(&lib, &mode)?;
        c = b.top();
        ids = b.vals.pop().unwrap();
        old_lib = Some(lib);
    } else if ctx.rng.chance(1, 4) {
        let mut p = new_circuit();
        c = p.sub_circuit().1;
    }
    let (i0, o0) = (c.input_len(), c.output_len());
    let before: Vec<String> = ids.iter().map(|i| format!("{:?} {:?}", c.get_gate(i), c.get_depended_gates(i))).collect();
    let io = |c: &Nx, n: usize, m: usize| {
        (
            (0..n).map(|i| c.input_to_gate_id(&WireId(i as u64)).unwrap()).collect::<Vec<_>>(),
            (0..m).map(|i| c.output_to_gate_id(&WireId(i as u64)).unwrap()).collect::<Vec<_>>(),
        )
    };
    let io0 = io(&c, i0, o0);
    // A reader that may have read something already.
    let mut r = BristolNXAOReader::new();
    let history = ctx.rng.below(4);
    for _ in 0..history.saturating_sub(1) {
        let g = gen_file(&mut ctx.rng, 6, 20);
        let mut t = layout(&mut ctx.rng, &g);
        if ctx.rng.bit() {
            let cut = ctx.rng.below(t.len() + 1);
            t.truncate(cut);
            ctx.count("truncated files read before by the same reader", 1);
        }
        let _ = r.read(&t[..], &mut new_circuit());
        ctx.count("files read before by the same reader", 1);
    }
    let ch = chunks(&mut ctx.rng);
    let how = ctx.rng.below(3);
    let res = match how {
        0 => r.read(&text[..], &mut c),
        1 => {
            let mut s = Source::new(&text, ch);
            if ctx.rng.chance(1, 3) {
                s.interrupt = 2 + ctx.rng.below(3);
            }
            r.read(s, &mut c)
        }
        _ => r.read(std::io::BufReader::with_capacity(1 + ctx.rng.below(20), Source::new(&text, ch)), &mut c),
    };
    res.map_err(|e| format!("reading a valid file failed: {e:?}"))?;
    ctx.eval(1);
    check!(
        c.input_len() == i0 + f.n_in() && c.output_len() == o0 + f.n_out(),
        "the circuit grew from {i0} inputs and {o0} outputs to {} and {}; the file has {} and {}",
        c.input_len(),
        c.output_len(),
        f.n_in(),
        f.n_out()
    );
    check!(io(&c, i0, o0) == io0, "inputs or outputs that the circuit had before are not intact");
    let after: Vec<String> = ids.iter().map(|i| format!("{:?} {:?}", c.get_gate(i), c.get_depended_gates(i))).collect();
    check!(before == after, "gates that the circuit had before are not intact");
    let (inp, n) = lanes(&mut ctx.rng, i0 + f.n_in());
    let mut want = match &old_lib {
        Some(l) => l.eval_top(&inp[..i0]).outs,
        None => vec![],
    };
    want.extend(f.outputs(&inp[i0..]));
    let got = sim::compile(&c, &[])?.run(&inp);
    if got != want {
        let l = (got.iter().zip(&want).fold(0, |a, (x, y)| a | (x ^ y))).trailing_zeros() as usize;
        fail!("input {}: the circuit denotes {} instead of {}", bits_str(&lane(&inp, l)), bits_str(&lane(&got, l)), bits_str(&lane(&want, l)));
    }
    compare_eval(ctx, &c, &inp, n, &want, 4)?;
    if f.n_out() > 0 && !f.gates.is_empty() {
        distinct_text(ctx, f.text().as_bytes());
    }
    ctx.sample(|| String::from_utf8_lossy(&text).escape_debug().to_string());
    Ok(())
}

fn c09_random(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let (i, g) = *ctx.rng.pick(&[(3, 6), (5, 20), (10, 60), (2, 3)]);
        let f = gen_file(&mut ctx.rng, i, g);
        c09_one(ctx, &f)?;
    }
    Ok(())
}
fn c09_big(ctx: &mut Ctx) -> Res {
    let g = if ctx.thorough() { 200_000 } else if ctx.idx < 4 { 132_000 } else { 20_000 };
    let mut f = gen_file(&mut ctx.rng, 300, g);
    while f.gates.len() < g / if ctx.idx < 4 { 2 } else { 4 } {
        f = gen_file(&mut ctx.rng, 300, g);
    }
    ctx.max("gates of a file", f.gates.len() as u64);
    c09_one(ctx, &f)
}

/// Thousands of inputs and outputs in several groups, with gates that use the ends of the groups.
fn c09_groups(ctx: &mut Ctx) -> Res {
    let mut f = BFile::default();
    for _ in 0..1 + ctx.rng.below(6) {
        let n = match ctx.rng.below(5) {
            0 => ctx.rng.below(4),
            1 => ctx.rng.below(70),
            2 => ctx.rng.below(600),
            3 => *ctx.rng.pick(&[255, 256, 257, 1023, 1024, 1025]),
            _ => 900 + ctx.rng.below(if ctx.thorough() { 9000 } else { 1600 }),
        };
        f.ins.push(n);
    }
    if f.n_in() == 0 {
        f.ins.push(1200);
    }
    let n_in = f.n_in();
    let mut ends = vec![0, n_in - 1];
    let mut at = 0;
    for n in &f.ins {
        at += n;
        for d in [0, 1, 2] {
            ends.push((at + d).saturating_sub(1).min(n_in - 1));
        }
    }
    let n_gates = 20 + ctx.rng.below(n_in.min(3000));
    f.n_gates = n_gates;
    f.n_wires = n_in + n_gates;
    let mut outs: Vec<usize> = (n_in..f.n_wires).collect();
    if ctx.rng.bit() {
        ctx.rng.shuffle(&mut outs);
    }
    let mut avail: Vec<usize> = (0..n_in).collect();
    for o in outs {
        let op = *ctx.rng.pick(&[Op::Inv, Op::Xor, Op::Xor, Op::And, Op::Or, Op::Eqw]);
        let ins = (0..op.arity())
            .map(|_| match ctx.rng.below(4) {
                0 => *ctx.rng.pick(&ends),
                1 => avail[avail.len() - 1 - ctx.rng.below(avail.len().min(n_gates))],
                _ => *ctx.rng.pick(&avail),
            })
            .collect();
        f.gates.push(Gate { op, ins, out: o });
        avail.push(o);
    }
    // All gates, and sometimes inputs too, are outputs.
    let total = if ctx.rng.bit() { n_gates } else { n_gates + ctx.rng.below(n_in + 1) };
    let first = ctx.rng.below(total + 1);
    f.outs = if ctx.rng.bit() { vec![first, total - first] } else { vec![total] };
    ctx.max("inputs of a file", n_in as u64);
    ctx.max("groups of a file", f.ins.len() as u64);
    c09_one(ctx, &f)
}

/// Every single gate over one and two inputs, every output choice, in every simple layout.
fn c09_single(ctx: &mut Ctx) -> Res {
    for op in Op::ALL {
        for n_in in 0..3usize {
            for a in 0..3usize {
                for b in 0..3usize {
                    let ins = if op.arity() == 1 { vec![a] } else { vec![a, b] };
                    if (op == Op::Eq && a > 1) || (op != Op::Eq && ins.iter().any(|x| *x >= n_in)) || (op.arity() == 1 && b > 0) {
                        continue;
                    }
                    for n_out in 0..=n_in + 1 {
                        let f = BFile { n_gates: 1, n_wires: n_in + 1, ins: vec![n_in], outs: vec![n_out], gates: vec![Gate { op, ins: ins.clone(), out: n_in }] };
                        c09_one(ctx, &f)?;
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "valid files with random groups, wire numberings, gate orders and layouts (blanks, tabs, CRLF, missing final newline, trailing blank lines) are delivered in random pieces to fresh and reused readers and empty and filled circuits; the circuit is compared with an independent simulation of the file on up to 64 vectors, also through the real evaluator; non-trivial: at least one gate and output, distinct by plain text",
        assumptions: &["blank lines occur only at the end of the file"],
        kinds: vec![kind("big", 12, 48, c09_big), kind("groups", 240, 4000, c09_groups), kind("single", 24, 100, c09_single), kind("random", 24_000, 800_000, c09_random)],
    }
}

// ---------------------------------------------------------------- C10

fn declared_inputs(text: &[u8]) -> u64 {
    let t = String::from_utf8_lossy(text);
    let l = t.split('\n').nth(1).unwrap_or("");
    l.split_whitespace().skip(1).fold(0u64, |a, x| a.saturating_add(x.parse::<u64>().unwrap_or(0)))
}

fn mutate(rng: &mut Rng, text: &mut Vec<u8>) {
    let tokens: Vec<(usize, usize)> = {
        let mut v = vec![];
        let mut i = 0;
        while i < text.len() {
            if text[i].is_ascii_whitespace() {
                i += 1;
                continue;
            }
            let s = i;
            while i < text.len() && !text[i].is_ascii_whitespace() {
                i += 1;
            }
            v.push((s, i));
        }
        v
    };
    let lines: Vec<(usize, usize)> = {
        let mut v = vec![];
        let mut s = 0;
        for i in 0..text.len() {
            if text[i] == b'\n' {
                v.push((s, i + 1));
                s = i + 1;
            }
        }
        if s < text.len() {
            v.push((s, text.len()));
        }
        v
    };
    let w: &[&str] = &[
        "0", "1", "2", "3", "-1", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "x", "XOR", "INV", "AND", "OR",
        "EQ", "EQW", "MAND", "NOT", "xor", "", "1.5", "0x1", "+1", "é", "XORR", "7", "12", "9223372036854775808",
    ];
    match rng.below(9) {
        0 => {
            let k = rng.below(text.len() + 1);
            text.truncate(k);
        }
        1 | 2 | 3 if !tokens.is_empty() => {
            let (s, e) = if rng.chance(1, 3) { tokens[rng.below(tokens.len().min(8))] } else { *rng.pick(&tokens) };
            let new = match rng.below(3) {
                0 => {
                    // a neighbouring number
                    let cur = String::from_utf8_lossy(&text[s..e]).parse::<i64>().unwrap_or(0);
                    (cur + [-1, 1, 2, 5][rng.below(4)]).to_string()
                }
                1 => {
                    let (a, b) = *rng.pick(&tokens);
                    String::from_utf8_lossy(&text[a..b]).to_string()
                }
                _ => rng.pick(w).to_string(),
            };
            text.splice(s..e, new.into_bytes());
        }
        4 if !tokens.is_empty() => {
            let (s, e) = *rng.pick(&tokens);
            text.drain(s..e);
        }
        5 if !lines.is_empty() => {
            let (s, e) = *rng.pick(&lines);
            text.drain(s..e);
        }
        6 if !lines.is_empty() => {
            let (s, e) = *rng.pick(&lines);
            let l = text[s..e].to_vec();
            let (p, _) = *rng.pick(&lines);
            text.splice(p..p, l);
        }
        7 if !text.is_empty() => {
            let k = rng.below(text.len());
            match rng.below(3) {
                0 => text[k] = rng.u64() as u8,
                1 => {
                    text.remove(k);
                }
                _ => text.insert(k, *rng.pick(b"\n\r 0123\t\0\xff-+X")),
            }
        }
        _ if lines.len() > 5 => {
            // swap two gate lines
            let a = 4 + rng.below(lines.len() - 4);
            let b = 4 + rng.below(lines.len() - 4);
            let (a, b) = (a.min(b), a.max(b));
            if a != b {
                let (la, lb) = (text[lines[a].0..lines[a].1].to_vec(), text[lines[b].0..lines[b].1].to_vec());
                text.splice(lines[b].0..lines[b].1, la);
                text.splice(lines[a].0..lines[a].1, lb);
            }
        }
        _ => text.push(b'1'),
    }
}

/// A text that is most likely malformed, late in the file more often than not.
pub fn bad_text(rng: &mut Rng) -> Vec<u8> {
    loop {
        let f = gen_file(rng, 4, 12);
        let mut t = if rng.chance(1, 3) { layout(rng, &f) } else { f.text().into_bytes() };
        if rng.bit() {
            mutate(rng, &mut t);
        } else {
            let mut lines: Vec<String> = f.text().lines().map(|s| s.to_string()).collect();
            let i = lines.len() - 1 - rng.below(lines.len().min(4));
            match rng.below(6) {
                0 => lines[i] = format!("2 1 0 {} {}", f.n_wires + 3, "AND"),
                1 => lines[i] += "X",
                2 => lines[i] = "1 1".into(),
                3 => {
                    lines.remove(i);
                }
                4 => lines.push(format!("1 1 {} {} INV", f.n_wires + 1, f.n_wires)),
                _ => lines[0] = format!("{} {}", f.n_gates, f.n_wires + 1 + rng.below(3)),
            }
            t = lines.join("\n").into_bytes();
        }
        if declared_inputs(&t) <= 1000 {
            return t;
        }
    }
}

/// Reads a text and judges the outcome.
fn c10_judge(ctx: &mut Ctx, text: &[u8]) -> Res {
    if declared_inputs(text) > 100_000 {
        ctx.count("texts skipped: huge declared inputs", 1);
        return Ok(());
    }
    ctx.note = format!("text {:?}", String::from_utf8_lossy(&text[..text.len().min(3000)]));
    let mut c = new_circuit();
    let mut r = BristolNXAOReader::new();
    let mut known = 0;
    if ctx.rng.chance(1, 3) {
        // A reader that knows the wires of other files, and perhaps a circuit that holds them.
        for _ in 0..1 + ctx.rng.below(2) {
            let f = gen_file(&mut ctx.rng, 6, 20);
            let mut t = f.text().into_bytes();
            if ctx.rng.chance(1, 3) {
                t.truncate(ctx.rng.below(t.len()));
            }
            let _ = if ctx.rng.bit() { r.read(&t[..], &mut c) } else { r.read(&t[..], &mut new_circuit()) };
        }
        known = c.input_len();
        ctx.count("texts given to a reader that read files before", 1);
    }
    let known_out = c.output_len();
    let res = match guarded(|| r.read(text, &mut c)) {
        Ok(r) => r,
        Err(p) => fail!("{p}"),
    };
    ctx.eval(1);
    let cause = must_fail(text);
    match (&res, cause) {
        (Ok(()), Some(m)) => fail!("a malformed file was accepted: {m}"),
        (Ok(()), None) => {
            ctx.count("texts accepted", 1);
            // A text that is valid in every respect must be read correctly.
            if let Ok(f) = BFile::parse(text) {
                if f.validate().is_ok() {
                    let (inp, _) = lanes(&mut ctx.rng, known + f.n_in());
                    check!(c.input_len() == known + f.n_in() && c.output_len() == known_out + f.n_out(), "wrong number of inputs or outputs");
                    check!(sim::compile(&c, &[])?.run(&inp)[known_out..] == f.outputs(&inp[known..]), "a wrong circuit");
                    ctx.count("texts still valid after the mutation", 1);
                }
            }
        }
        (Err(_), Some(m)) => {
            let key = m.rsplit(": ").next().unwrap_or("").to_string();
            ctx.count(&format!("rejected: {key}"), 1);
            distinct_text(ctx, text);
        }
        (Err(_), None) => ctx.count("rejected for another cause", 1),
    }
    let t = text.to_vec();
    ctx.sample(|| format!("{:?} -> {}", String::from_utf8_lossy(&t), if res.is_ok() { "ok" } else { "error" }));
    Ok(())
}

fn c10_mutated(ctx: &mut Ctx) -> Res {
    for _ in 0..12 {
        let f = gen_file(&mut ctx.rng, 5, 10);
        let mut t = if ctx.rng.chance(1, 3) { layout(&mut ctx.rng, &f) } else { f.text().into_bytes() };
        let n = 1 + ctx.rng.below(2) * ctx.rng.below(3);
        for _ in 0..n {
            mutate(&mut ctx.rng, &mut t);
        }
        c10_judge(ctx, &t)?;
    }
    Ok(())
}

/// One listed cause planted into an otherwise valid file.
fn c10_planted(ctx: &mut Ctx) -> Res {
    for _ in 0..12 {
        let mut f = gen_file(&mut ctx.rng, 4, 12);
        while f.gates.is_empty() {
            f = gen_file(&mut ctx.rng, 4, 12);
        }
        let mut lines: Vec<String> = f.text().lines().map(|s| s.to_string()).collect();
        let g = ctx.rng.below(f.gates.len());
        let i = 4 + g;
        let mut tok: Vec<String> = lines[i].split(' ').map(|s| s.to_string()).collect();
        let rng = &mut ctx.rng;
        let what = rng.below(13);
        match what {
            0 => {
                // a wire that is not assigned yet
                if f.gates[g].op == Op::Eq {
                    continue;
                }
                let later: Vec<usize> = f.gates[g..].iter().map(|g| g.out).chain([f.n_wires, f.n_wires + 7]).collect();
                let p = 2 + rng.below(f.gates[g].ins.len());
                tok[p] = rng.pick(&later).to_string();
            }
            1 => {
                let p = rng.below(tok.len());
                tok.remove(p);
            }
            2 => {
                let p = tok.len() - 1;
                tok[p] = rng.pick(&["MAND", "NOT", "NAND", "XNOR", "xor", "Inv", "XORX", "EQ1", "", "0", "BUF", "AN"]).to_string();
            }
            3 => {
                let p = tok.len() - 1;
                let other: Vec<Op> = Op::ALL.into_iter().filter(|o| o.arity() != f.gates[g].op.arity()).collect();
                tok[p] = rng.pick(&other).name().to_string();
            }
            4 => {
                // one operand more, counted
                let n = f.gates[g].ins.len();
                let w = if f.n_in() > 0 { 0 } else { f.gates[0].out };
                if f.gates[g].op == Op::Eq && f.n_in() == 0 {
                    continue;
                }
                tok[0] = (n + 1).to_string();
                tok.insert(2, w.to_string());
            }
            5 => {
                // two outputs
                tok[1] = "2".into();
                let p = tok.len() - 1;
                tok.insert(p, f.n_wires.to_string());
            }
            6 => {
                // no operands or outputs, counted
                if rng.bit() {
                    let n = f.gates[g].ins.len();
                    tok[0] = "0".into();
                    tok.drain(2..2 + n);
                } else {
                    tok[1] = "0".into();
                    let p = tok.len() - 2;
                    tok.remove(p);
                }
            }
            7 => {
                // a header line shortened or not numeric
                let h = rng.below(3);
                let mut t: Vec<String> = lines[h].split(' ').map(|s| s.to_string()).collect();
                if rng.bit() {
                    t.pop();
                } else {
                    let p = rng.below(t.len());
                    t[p] = rng.pick(&["x", "-1", "1.0", "1e3", "0x10", "#"]).to_string();
                }
                lines[h] = t.join(" ");
            }
            8 => {
                // the text ends inside the header
                let h = rng.below(3);
                lines.truncate(h);
                tok.clear();
            }
            9 => {
                // an output wire that is never assigned
                if f.n_out() == 0 {
                    continue;
                }
                let outs: Vec<usize> = (0..f.gates.len()).filter(|k| f.gates[*k].out >= f.n_wires - f.n_out()).collect();
                if outs.is_empty() {
                    continue;
                }
                let k = *rng.pick(&outs);
                lines.remove(4 + k);
                if k <= g {
                    tok.clear();
                }
            }
            10 => {
                // more wires than there are: the last ones are never assigned
                if f.n_out() == 0 {
                    continue;
                }
                lines[0] = format!("{} {}", f.n_gates, f.n_wires + 1 + rng.below(4));
            }
            11 => {
                // a number that a narrow type would confuse with a valid one
                let wrap = *rng.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63]);
                let wide = |t: &mut String| {
                    if let Ok(x) = t.parse::<u64>() {
                        *t = x.saturating_add(wrap).to_string();
                    }
                };
                if rng.chance(3, 4) {
                    let p = rng.below(tok.len() - 1);
                    wide(&mut tok[p]);
                } else {
                    let h = *rng.pick(&[0, 2]);
                    let mut t: Vec<String> = lines[h].split(' ').map(|s| s.to_string()).collect();
                    let p = rng.below(t.len());
                    wide(&mut t[p]);
                    lines[h] = t.join(" ");
                }
            }
            _ => {
                // more outputs than wires
                lines[2] = format!("2 {} {}", f.n_wires, [1usize, 5, usize::MAX, usize::MAX - f.n_wires][rng.below(4)]);
            }
        }
        if i < lines.len() && !tok.is_empty() && what != 7 {
            lines[i] = tok.join(" ");
        }
        let mut text = lines.join("\n");
        if ctx.rng.bit() {
            text.push('\n');
        }
        ctx.count(&format!("planted cause {what}"), 1);
        c10_judge(ctx, text.as_bytes())?;
    }
    Ok(())
}

fn c10_garbage(ctx: &mut Ctx) -> Res {
    for _ in 0..20 {
        let rng = &mut ctx.rng;
        let n = rng.below(60);
        let t: Vec<u8> = match rng.below(3) {
            0 => (0..n).map(|_| rng.u64() as u8).collect(),
            1 => (0..n).map(|_| *rng.pick(b"0123456789 \n\r\tXORINVADEQW")).collect(),
            _ => {
                let mut o = String::new();
                for _ in 0..n {
                    o += *rng.pick(&["0", "1", "2", "3", " ", " ", " ", "\n", "\n", " XOR\n", " INV\n", " EQ\n", "2 1 ", "1 1 ", "\r\n"]);
                }
                o.into_bytes()
            }
        };
        c10_judge(ctx, &t)?;
    }
    Ok(())
}

/// Every truncation of a file, and every single token removed or replaced.
fn c10_systematic(ctx: &mut Ctx) -> Res {
    let mut f = gen_file(&mut ctx.rng, 4, 8);
    while f.gates.len() < 3 || f.n_out() == 0 {
        f = gen_file(&mut ctx.rng, 4, 8);
    }
    let t = f.text().into_bytes();
    for k in 0..=t.len() {
        c10_judge(ctx, &t[..k])?;
    }
    let text = f.text();
    let lines: Vec<&str> = text.lines().collect();
    for i in 0..lines.len() {
        let toks: Vec<&str> = lines[i].split(' ').collect();
        for j in 0..toks.len() {
            for new in ["", "0", "1", "2", "3", "9", "x", "-1", "XOR", "INV", "EQ", "EQW", "18446744073709551615", "18446744073709551614"] {
                let mut tk = toks.clone();
                tk[j] = new;
                let mut l = lines.clone();
                let s = tk.join(" ");
                l[i] = &s;
                c10_judge(ctx, (l.join("\n") + "\n").as_bytes())?;
            }
        }
    }
    Ok(())
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "valid files with planted causes, systematic truncations and token replacements, random mutations and arbitrary bytes are read; a panic is a violation, and so is success when an independent classifier finds one of the listed causes; non-trivial: rejected for a listed cause, distinct by text",
        assumptions: &["texts that declare more than 100000 input wires are skipped"],
        kinds: vec![
            kind("systematic", 400, 6000, c10_systematic),
            kind("planted", 12_000, 400_000, c10_planted),
            kind("mutated", 16_000, 600_000, c10_mutated),
            kind("garbage", 6000, 200_000, c10_garbage),
        ],
    }
}

// ---------------------------------------------------------------- C11

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
];

fn positions(rng: &mut Rng, len: usize, max: usize) -> Vec<usize> {
    if len <= max {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..max).map(|_| rng.below(len)).collect();
        v.extend([0, 1, len / 2, len - 2, len - 1]);
        v
    }
}

fn c11_read(ctx: &mut Ctx) -> Res {
    let f = gen_file(&mut ctx.rng, 4, 10);
    let text = layout(&mut ctx.rng, &f);
    for k in positions(&mut ctx.rng, text.len(), 400) {
        let ch = chunks(&mut ctx.rng);
        let mut s = Source::new(&text, ch);
        s.limit = k;
        s.kind = *ctx.rng.pick(&KINDS);
        s.transient = ctx.rng.bit();
        if ctx.rng.chance(1, 4) {
            s.interrupt = 2 + ctx.rng.below(3);
        }
        let (kd, tr) = (s.kind, s.transient);
        ctx.note = format!("source failing at byte {k} with {kd:?} (transient {tr}) of {:?}", String::from_utf8_lossy(&text));
        let mut c = new_circuit();
        let buffered = ctx.rng.bit();
        let cap = 1 + ctx.rng.below(64);
        let r = guarded(|| {
            if buffered {
                BristolNXAOReader::new().read(std::io::BufReader::with_capacity(cap, &mut s), &mut c)
            } else {
                BristolNXAOReader::new().read(&mut s, &mut c)
            }
        });
        ctx.eval(1);
        match r {
            Err(p) => fail!("{p}"),
            Ok(Ok(())) => fail!("the fault was swallowed: reading reported success"),
            Ok(Err(_)) => {}
        }
        check!(s.failed > 0, "reading failed before the fault, on a valid file");
        ctx.count("read faults injected", s.failed as u64);
        ctx.distinct(mix(mix(k as u64) ^ text.len() as u64 ^ (kd as u64) << 20 ^ mix(ctx.idx as u64)));
    }
    Ok(())
}

fn c11_write(ctx: &mut Ctx) -> Res {
    let cfg = match ctx.rng.below(3) {
        0 => GenCfg::flat(4, 12),
        1 => GenCfg::modular(4, 8, 2),
        _ => GenCfg { max_outs: 12, ..GenCfg::flat(10, 60) },
    };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    let b = build(&lib, &mode)?;
    let c = b.top();
    let n_all = lib.top().n_in + n_const(&lib);
    let first = random_first(&mut ctx.rng, n_all);
    let good = write_real(&c, first)?;
    ctx.eval(1);
    let n = good.text.len();
    let base = describe(&lib, &mode);
    for k in positions(&mut ctx.rng, n, 200) {
        let mut s = Sink::failing(k);
        s.kind = *ctx.rng.pick(&KINDS);
        s.transient = ctx.rng.bit();
        s.zero = ctx.rng.chance(1, 5);
        s.piece = if ctx.rng.bit() { 0 } else { 1 + ctx.rng.below(9) };
        let cap = *ctx.rng.pick(&[0, 1, 3, 16, 64, 1024, 8192]);
        ctx.note = format!("sink failing at byte {k} of {n} with {:?} (transient {}, Ok(0) {}, pieces {}, buffer {cap}) for {base}", s.kind, s.transient, s.zero, s.piece);
        let mut map = HashMap::new();
        let with_map = ctx.rng.bit();
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, s));
        let r = match guarded(|| w.write(first, if with_map { Some(&mut map) } else { None })) {
            Ok(r) => r,
            Err(p) => fail!("{p}"),
        };
        let fl = w.writer.flush();
        let failed = w.writer.get_ref().failed;
        check!(failed > 0, "the sink of {k} bytes never failed for a file of {n} bytes: write {:?}, flush {fl:?}", r.map(|v| v.len()));
        check!(r.is_err() || fl.is_err(), "the fault was swallowed: writing and flushing reported success");
        ctx.eval(1);
        ctx.count("write faults injected", failed as u64);
        ctx.distinct(mix(mix(k as u64) ^ n as u64 ^ mix(ctx.idx as u64 + 5000)));
        let (_s, _) = w.writer.into_parts();
    }
    // Sinks that are slow, interrupted, or fail only when there is nothing more to write.
    for _ in 0..12 {
        let mut s = Sink::new();
        s.piece = *ctx.rng.pick(&[0, 1, 2, 3, 7, 50]);
        s.interrupt = *ctx.rng.pick(&[0, 2, 3, 5]);
        if ctx.rng.bit() {
            s.limit = n;
        }
        let cap = *ctx.rng.pick(&[0, 1, 5, 33, 200, 8192]);
        ctx.note = format!("sink with pieces of {} interrupted every {} calls, buffer {cap}, for {base}", s.piece, s.interrupt);
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, s));
        let consts = w.write(first, None).map_err(|e| format!("writing failed without a fault: {e:?}"))?;
        w.writer.flush().map_err(|e| format!("flushing failed without a fault: {e:?}"))?;
        check!(w.writer.get_ref().data == good.text, "the sink holds {:?} instead of {:?}", String::from_utf8_lossy(&w.writer.get_ref().data), String::from_utf8_lossy(&good.text));
        check!(consts == good.consts, "other constants were returned");
        ctx.eval(1);
        ctx.count("slow or interrupted sinks", 1);
    }
    // The circuit is unharmed.
    let again = write_real(&c, first)?;
    check!(again.text == good.text, "after faults the circuit is written differently");
    ctx.sample(|| format!("{n} fault positions of {:?}", String::from_utf8_lossy(&good.text)));
    Ok(())
}

fn c11_big(ctx: &mut Ctx) -> Res {
    // Files of many buffers.
    let p = big_prog(ctx, ctx.idx % 6, 3000);
    let lib = Lib { progs: vec![p] };
    let mode = BuildMode { storage: 0, direct: false, seed: 0 };
    let c = build(&lib, &mode)?.top();
    let good = write_real(&c, 0)?;
    let n = good.text.len();
    for _ in 0..60 {
        let k = ctx.rng.below(n);
        let mut s = Sink::failing(k);
        s.transient = ctx.rng.bit();
        s.piece = *ctx.rng.pick(&[0, 0, 100]);
        let cap = *ctx.rng.pick(&[1, 100, 8192, 8192, 100_000]);
        ctx.note = format!("big family {} sink failing at byte {k} of {n} (transient {}), buffer {cap}", ctx.idx % 6, s.transient);
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(cap, s));
        let r = w.write(0, None);
        let fl = w.writer.flush();
        check!(r.is_err() || fl.is_err(), "the fault was swallowed: writing and flushing reported success");
        ctx.eval(1);
        let _ = w.writer.into_parts();
        let mut s = Source::new(&good.text, vec![8192]);
        s.limit = k;
        s.transient = ctx.rng.bit();
        ctx.note = format!("big family {} source failing at byte {k} of {n}", ctx.idx % 6);
        let mut c2 = new_circuit();
        check!(BristolNXAOReader::new().read(&mut s, &mut c2).is_err(), "the fault was swallowed: reading reported success");
        ctx.eval(1);
        ctx.distinct(mix(k as u64 ^ (ctx.idx as u64) << 32));
    }
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "a fault (8 error kinds, permanent or transient, Ok(0) for sinks) at every byte position of read and written files, with random chunks, piece sizes and buffer sizes; success after an injected fault is a violation, and slow or interrupted sinks must hold exactly the fault-free bytes; each injected fault position is one distinct case",
        assumptions: &["the caller flushes the writer's buffer"],
        kinds: vec![kind("big", 12, 48, c11_big), kind("write", 1000, 20_000, c11_write), kind("read", 1000, 20_000, c11_read)],
    }
}
