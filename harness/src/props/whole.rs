//! C30 what gates say about themselves, C31 circuits put together from every part of the library.
use super::bristol::{gen_file, layout};
use super::bundled::{bundle, expected, lane_word, n_args, word_lanes, NAMES};
use crate::bfile::BFile;
use crate::field::*;
use crate::ints::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use crate::runner::*;
use crate::sim;
use crate::util::*;
use crate::{at_width, check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::collections::{HashMap, HashSet};

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

/// Lanes that carry values; the builders' references are computed for these only.
const L: usize = 12;

type Func = Box<dyn Fn(&[u64]) -> Vec<u64>>;

/// A part: inputs and outputs were appended to a circuit, and the outputs are f of the inputs.
struct Part {
    n_in: usize,
    n_out: usize,
    /// Inputs that have to hold this value.
    fixed: Vec<Option<bool>>,
    f: Func,
    text: String,
    /// The part is this circuit instead of an addition to the one that was given.
    own: Option<Nx>,
}

impl Part {
    fn free(n_in: usize, n_out: usize, f: Func, text: String) -> Part {
        Part { n_in, n_out, fixed: vec![None; n_in], f, text, own: None }
    }
}

fn number(lanes: &[u64], l: usize) -> BigUint {
    let mut x = BigUint::from(0u32);
    for (i, w) in lanes.iter().enumerate() {
        x.set_bit(i as u64, w >> l & 1 == 1);
    }
    x
}

fn add_number(out: &mut [u64], x: &BigUint, l: usize) {
    for (i, w) in out.iter_mut().enumerate() {
        *w |= (x.bit(i as u64) as u64) << l;
    }
}

fn part_int<const N: usize>(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    let mix = Mix { arith: 2, mul: if N <= 16 { 2 } else { 1 }, cmp: 2, consts: 1, shift: 1 };
    let steps = 1 + rng.below(6);
    let prog = gen_int(rng, N, mix, steps);
    let nv = prog.iter().filter(|o| !matches!(o, IOp::Cmp(..))).count();
    let nb = prog.len() - nv;
    let outs: Vec<usize> = (0..1 + rng.below(2)).map(|_| rng.below(nv)).chain([nv - 1]).collect();
    let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(c).map_err(es)?;
    let m = int_build(&cfg, &prog, &outs)?;
    let mut h = c.clone();
    for b in &m.bits {
        h.output(*b).map_err(eb)?;
    }
    let (n_in, n_out) = (n_inputs(&prog) * N, outs.len() * N + nb);
    let text = format!("{N}-bit integers {prog:?} with outputs {outs:?}");
    let f = move |inp: &[u64]| {
        let mut out = vec![0; n_out];
        for l in 0..L {
            let row: Vec<BigUint> = inp.chunks(N).map(|x| number(x, l)).collect();
            let (v, b) = int_ref(N, &prog, &row);
            for (k, o) in outs.iter().enumerate() {
                add_number(&mut out[k * N..(k + 1) * N], &v[*o], l);
            }
            for (k, b) in b.iter().enumerate() {
                out[outs.len() * N + k] |= (*b as u64) << l;
            }
        }
        out
    };
    Ok(Part::free(n_in, n_out, Box::new(f), text))
}

fn part_bits<const N: usize>(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    let steps = 1 + rng.below(8);
    let prog = gen_bits(rng, N, steps);
    let nv = prog.iter().filter(|o| !matches!(o, BOp::Eq(..) | BOp::Neq(..))).count();
    let nb = prog.len() - nv;
    let outs: Vec<usize> = (0..1 + rng.below(2)).map(|_| rng.below(nv)).chain([nv - 1]).collect();
    let cfg = AllocBitsConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(c).map_err(es)?;
    let m = bits_build(&cfg, &prog, &outs)?;
    let mut h = c.clone();
    for b in &m.bits {
        h.output(*b).map_err(eb)?;
    }
    let n_in = prog.iter().filter(|o| matches!(o, BOp::In)).count() * N;
    let text = format!("{N}-bit vectors {prog:?} with outputs {outs:?}");
    let n_out = outs.len() * N + nb;
    let f = move |inp: &[u64]| {
        let (v, b) = bits_ref(N, &prog, inp);
        outs.iter().flat_map(|o| v[*o].iter().copied()).chain(b).collect()
    };
    Ok(Part::free(n_in, n_out, Box::new(f), text))
}

fn part_field<const N: usize>(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    let r = (N - 2) / 2;
    let p = modulus(rng, r);
    let steps = 1 + rng.below(5);
    let prog = gen_field(rng, &p, N, steps);
    let nv = prog.iter().filter(|o| !is_bit(o)).count();
    let nb = prog.len() - nv;
    let outs: Vec<usize> = vec![rng.below(nv), nv - 1];
    let ic = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(c).map_err(es)?;
    let cfg = AllocFpConfig::new(c, &ic, p.clone(), r).map_err(es)?;
    let (_, bits) = field_build(&cfg, &prog, &outs)?;
    let mut h = c.clone();
    for b in &bits {
        h.output(*b).map_err(eb)?;
    }
    let k = prog.iter().filter(|o| matches!(o, FOp::In)).count();
    let text = format!("elements modulo {p} in {N} bits {prog:?} with outputs {outs:?}");
    let n_out = outs.len() * N + nb;
    // Any value of fewer bits than the modulus is below it.
    let low = p.bits() as usize - 1;
    let fixed = (0..k * N).map(|i| if i % N < low { None } else { Some(false) }).collect();
    let f = move |inp: &[u64]| {
        let mut out = vec![0; n_out];
        for l in 0..L {
            let row: Vec<BigUint> = inp.chunks(N).map(|x| number(x, l)).collect();
            let (v, b) = field_ref(&p, &prog, &row);
            for (k, o) in outs.iter().enumerate() {
                add_number(&mut out[k * N..(k + 1) * N], &v[*o], l);
            }
            for (k, b) in b.iter().enumerate() {
                out[outs.len() * N + k] |= (*b as u64) << l;
            }
        }
        out
    };
    Ok(Part { n_in: k * N, n_out, fixed, f: Box::new(f), text, own: None })
}

fn part_bundled(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    let which = if rng.chance(1, 6) { 3 + rng.below(3) } else { rng.below(3) };
    bundle(which, &mut c.clone())?;
    let n_in = 64 * n_args(which);
    let mut fixed = vec![None; n_in];
    if which >= 4 {
        // a divisor that is not zero
        fixed[64 + rng.below(64)] = Some(true);
    }
    let n_out = if which == 3 { 128 } else { 64 };
    let f = move |inp: &[u64]| {
        let rows: Vec<Vec<u64>> = (0..L).map(|l| expected(which, lane_word(&inp[..64], l), if n_in > 64 { lane_word(&inp[64..], l) } else { 0 })).collect();
        word_lanes(&rows)
    };
    Ok(Part { n_in, n_out, fixed, f: Box::new(f), text: format!("the bundled {}", NAMES[which]), own: None })
}

fn part_file(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    let f = gen_file(rng, 5, 14);
    let text = f.text();
    BristolNXAOReader::new().read(&layout(rng, &f)[..], &mut c.clone()).map_err(|e| format!("reading {text:?} failed: {e:?}"))?;
    let text = format!("the file {text:?}");
    Ok(Part::free(f.n_in(), f.n_out(), Box::new(move |inp: &[u64]| f.outputs(inp)), text))
}

fn part_program(rng: &mut Rng) -> Result<Part, String> {
    let lib = gen_lib(rng, &GenCfg { max_expanded: 500, ..GenCfg::modular(4, 10, 2) });
    let mode = gen_mode(rng);
    let b = build(&lib, &mode)?;
    let text = describe(&lib, &mode);
    let (n_in, n_out) = (lib.top().n_in, lib.top().outs.len());
    let mut p = Part::free(n_in, n_out, Box::new(move |inp: &[u64]| lib.eval_top(inp).outs), text);
    p.own = Some(b.top());
    Ok(p)
}

fn part(rng: &mut Rng, c: &Nx) -> Result<Part, String> {
    match rng.below(12) {
        0..=2 => {
            let n = *rng.pick(&[1, 2, 3, 4, 7, 8, 9, 16, 17, 32, 33, 64, 65]);
            at_width!(n, part_int(rng, c); 1 2 3 4 7 8 9 16 17 32 33 64 65)
        }
        3 | 4 => {
            let n = *rng.pick(&[1, 2, 5, 8, 16, 33, 64, 65, 128]);
            at_width!(n, part_bits(rng, c); 1 2 5 8 16 33 64 65 128)
        }
        5 | 6 => {
            let n = *rng.pick(&[4, 5, 8, 9, 12, 18, 34]);
            at_width!(n, part_field(rng, c); 4 5 8 9 12 18 34)
        }
        7 => part_bundled(rng, c),
        8 | 9 => part_file(rng, c),
        _ => part_program(rng),
    }
}

/// A circuit of many parts, the values of its inputs in L lanes and the outputs that follow from them.
struct Whole {
    c: Nx,
    inp: Vec<u64>,
    outs: Vec<u64>,
    story: Vec<String>,
    called: usize,
}

fn word_of_lanes(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => !0,
        2 => 1 << rng.below(L),
        _ => rng.u64(),
    }
}

fn whole(rng: &mut Rng, n_parts: usize) -> Result<Whole, String> {
    let mut c = new_circuit();
    let mut w = Whole { c: c.clone(), inp: vec![], outs: vec![], story: vec![], called: 0 };
    // Gates of the circuit that can be used, and their values.
    let mut pool: Vec<(GateId, u64)> = vec![];
    for _ in 0..1 + rng.below(4) {
        let x = word_of_lanes(rng);
        pool.push((c.input().map_err(eb)?, x));
        w.inp.push(x);
    }
    let fixed = [(c.constant(false).map_err(eb)?, 0), (c.constant(true).map_err(eb)?, !0)];
    for _ in 0..n_parts {
        match rng.below(4) {
            0 => {
                // Right into the circuit.
                let i0 = c.input_len();
                let o0 = c.output_len();
                let p = part(rng, &c)?;
                if p.own.is_none() {
                    if c.input_len() != i0 + p.n_in || c.output_len() != o0 + p.n_out {
                        return Err(format!("{} added {} inputs and {} outputs", p.text, c.input_len() - i0, c.output_len() - o0));
                    }
                    let ins: Vec<u64> = p.fixed.iter().map(|f| f.map_or_else(|| word_of_lanes(rng), |b| if b { !0 } else { 0 })).collect();
                    let outs = (p.f)(&ins);
                    for (k, x) in outs.iter().enumerate() {
                        pool.push((c.output_to_gate_id(&WireId((o0 + k) as u64)).map_err(eb)?, *x));
                    }
                    w.inp.extend(ins);
                    w.outs.extend(outs);
                    w.story.push(format!("inside: {}", p.text));
                    continue;
                }
                call(rng, &mut c, &mut pool, &fixed, &p, None, &mut w)?;
            }
            k => {
                // As a module: a sub-circuit, or a circuit with another storage.
                let (id, s) = if k == 1 {
                    let (id, s) = c.sub_circuit();
                    (Some(id), s)
                } else {
                    (None, new_circuit())
                };
                let mut p = part(rng, &s)?;
                if p.own.is_some() {
                    call(rng, &mut c, &mut pool, &fixed, &p, None, &mut w)?;
                    continue;
                }
                let id = id.unwrap_or_else(|| c.register_module(&s));
                p.own = Some(s);
                for _ in 0..1 + rng.below(2) {
                    call(rng, &mut c, &mut pool, &fixed, &p, Some(id), &mut w)?;
                }
            }
        }
        if rng.bit() && pool.len() >= 2 {
            let (a, b) = (*rng.pick(&pool), *rng.pick(&pool));
            let g = match rng.below(5) {
                0 => (c.xor(&a.0, &b.0), a.1 ^ b.1),
                1 => (c.and(&a.0, &b.0), a.1 & b.1),
                2 => (c.or(&a.0, &b.0), a.1 | b.1),
                3 => (c.not(&a.0), !a.1),
                _ => (c.equivalent(&a.0, &b.0), !(a.1 ^ b.1)),
            };
            pool.push((g.0.map_err(eb)?, g.1));
        }
    }
    for _ in 0..1 + rng.below(5) {
        let (g, x) = *rng.pick(&pool);
        c.output(g).map_err(eb)?;
        w.outs.push(x);
    }
    for x in w.inp.iter_mut().chain(&mut w.outs) {
        *x &= (1 << L) - 1;
    }
    if c.input_len() != w.inp.len() || c.output_len() != w.outs.len() {
        return Err(format!("the circuit has {} inputs and {} outputs instead of {} and {}: {:?}", c.input_len(), c.output_len(), w.inp.len(), w.outs.len(), w.story));
    }
    Ok(w)
}

fn call(rng: &mut Rng, c: &mut Nx, pool: &mut Vec<(GateId, u64)>, fixed: &[(GateId, u64); 2], p: &Part, id: Option<ModuleId>, w: &mut Whole) -> Result<(), String> {
    let m = p.own.as_ref().unwrap();
    if m.input_len() != p.n_in || m.output_len() != p.n_out {
        return Err(format!("{} has {} inputs and {} outputs", p.text, m.input_len(), m.output_len()));
    }
    let id = id.unwrap_or_else(|| c.register_module(m));
    let run = rng.bit();
    let at = rng.below(pool.len());
    let mut args = vec![];
    for (k, f) in p.fixed.iter().enumerate() {
        args.push(match f {
            Some(b) => fixed[*b as usize],
            None if run => pool[(at + k) % pool.len()],
            None if rng.chance(1, 20) => fixed[rng.below(2)],
            None => *rng.pick(pool),
        });
    }
    let ids: Vec<GateId> = args.iter().map(|a| a.0).collect();
    let vals: Vec<u64> = args.iter().map(|a| a.1).collect();
    let got = c.module(&id, &ids).map_err(eb)?;
    let outs = (p.f)(&vals);
    if got.len() != outs.len() {
        return Err(format!("a call of {} gave {} gates for {} outputs", p.text, got.len(), outs.len()));
    }
    pool.extend(got.into_iter().zip(outs));
    w.story.push(format!("called: {}", p.text));
    w.called += 1;
    Ok(())
}

// ---------------------------------------------------------------- C31

fn masked(v: Vec<u64>) -> Vec<u64> {
    v.into_iter().map(|x| x & ((1 << L) - 1)).collect()
}

fn differ(got: &[u64], want: &[u64], how: &str) -> Res {
    check!(got.len() == want.len(), "{how} has {} outputs instead of {}", got.len(), want.len());
    if let Some(k) = (0..got.len()).find(|k| got[*k] != want[*k]) {
        let l = (got[k] ^ want[k]).trailing_zeros();
        fail!("{how}: output {k} is {} instead of {} in lane {l}", got[k] >> l & 1, want[k] >> l & 1);
    }
    Ok(())
}

fn c31_case(ctx: &mut Ctx, n: usize) -> Res {
    let w = whole(&mut ctx.rng, n)?;
    ctx.note = format!("{:?}", w.story);
    compare_eval(ctx, &w.c, &w.inp, L, &w.outs, 3)?;
    differ(&masked(sim::compile(&w.c, &[])?.run(&w.inp)), &w.outs, "the circuit read gate by gate")?;
    // Written, by independent means.
    let all = w.inp.len() + w.c.num_const();
    let first = random_first(&mut ctx.rng, all);
    let t = write_real(&w.c, first)?;
    let f = BFile::parse(&t.text)?;
    f.validate()?;
    check!(f.n_in() == w.inp.len() + t.consts.len(), "the file has {} inputs for {} inputs and {} constants", f.n_in(), w.inp.len(), t.consts.len());
    let ins: Vec<u64> = w.inp.iter().copied().chain(t.consts.iter().map(|b| if *b { !0 } else { 0 })).collect();
    differ(&masked(f.outputs(&ins)), &w.outs, "the written file")?;
    ctx.eval(2);
    // Read back, evaluated, written again, and called from another circuit.
    let back = read_real(&t.text)?;
    compare_eval(ctx, &back, &masked(ins.clone()), L, &w.outs, 2)?;
    let t2 = write_real(&back, 0)?;
    let f2 = BFile::parse(&t2.text)?;
    f2.validate()?;
    check!(t2.consts.is_empty(), "a circuit that was read has constants, though the file has none");
    differ(&masked(f2.outputs(&ins)), &w.outs, "the file written after reading")?;
    let mut top = new_circuit();
    let mid = top.register_module(&back);
    let mut args = vec![];
    for _ in &w.inp {
        args.push(top.input().map_err(eb)?);
    }
    for b in &t.consts {
        args.push(top.constant(*b).map_err(eb)?);
    }
    for g in top.module(&mid, &args).map_err(eb)? {
        top.output(g).map_err(eb)?;
    }
    compare_eval(ctx, &top, &w.inp, L, &w.outs, 1)?;
    ctx.eval(2);
    ctx.count("parts", w.story.len() as u64);
    ctx.count("calls of parts", w.called as u64);
    ctx.count("gate lines written", f.gates.len() as u64);
    ctx.max("gate lines of one file", f.gates.len() as u64);
    if w.story.len() > 1 && !f.gates.is_empty() {
        ctx.distinct(hash_str(&format!("{:?}", w.story)));
    }
    ctx.sample(|| w.story.join(" / "));
    Ok(())
}

/// A circuit mixed from several parts, and what it consists of.
pub fn some_whole(rng: &mut Rng) -> Result<(Nx, String), String> {
    let n = 1 + rng.below(4);
    let w = whole(rng, n)?;
    Ok((w.c, format!("{:?}", w.story)))
}

fn c31_random(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.rng.below(4);
    c31_case(ctx, n)
}

fn c31_long(ctx: &mut Ctx) -> Res {
    let n = 8 + ctx.rng.below(12);
    c31_case(ctx, n)
}

pub fn c31() -> Prop {
    Prop {
        id: "C31",
        rule: "circuits put together at random from integer, bit-vector and field programs, bundled circuits, read files and gate programs, each placed in the circuit, in a sub-circuit or in a module with another storage and fed with results of the others; the values of all outputs follow from the reference of each part and are compared with the evaluator, a gate-by-gate reading, the written file, the file read back, written again and called as a module; non-trivial: at least two parts and a gate, distinct by parts",
        assumptions: &["operands of field programs are below the modulus and divisors are not zero", "no field products (known finding of C17)"],
        kinds: vec![kind("long", 30, 600, c31_long), kind("random", 1200, 40_000, c31_random)],
    }
}

// ---------------------------------------------------------------- C30

/// All gates that belong together: operands and dependents of the roots.
fn walk(c: &Nx, roots: &[GateId]) -> Result<HashMap<GateId, NXAOBoolGate>, String> {
    let mut seen: HashMap<GateId, NXAOBoolGate> = HashMap::new();
    let mut todo: Vec<GateId> = roots.to_vec();
    while let Some(id) = todo.pop() {
        if seen.contains_key(&id) {
            continue;
        }
        let g = c.get_gate(&id).map_err(|e| format!("gate {} is mentioned but unknown: {e:?}", id.0))?;
        todo.extend(sim::operands(&g));
        todo.extend(c.get_depended_gates(&id).map_err(|e| format!("the dependents of gate {} are unknown: {e:?}", id.0))?);
        seen.insert(id, g);
    }
    Ok(seen)
}

fn kind_name(g: &NXAOBoolGate) -> &'static str {
    match g {
        NXAOBoolGate::Input(_) => "INPUT",
        NXAOBoolGate::Const(_) => "CONST",
        NXAOBoolGate::Not(_) => "INV",
        NXAOBoolGate::Xor(_) => "XOR",
        NXAOBoolGate::And(_) => "AND",
        NXAOBoolGate::Or(_) => "OR",
        NXAOBoolGate::Module(_) => "MODULE",
    }
}

/// What the gate inside the variant says.
fn inner(g: &NXAOBoolGate) -> (usize, usize, String) {
    fn of<T: Gate>(g: &T) -> (usize, usize, String) {
        (g.input_len(), g.output_len(), g.to_str())
    }
    match g {
        NXAOBoolGate::Input(g) => of(g),
        NXAOBoolGate::Const(g) => of(g),
        NXAOBoolGate::Not(g) => of(g),
        NXAOBoolGate::Xor(g) => of(g),
        NXAOBoolGate::And(g) => of(g),
        NXAOBoolGate::Or(g) => of(g),
        NXAOBoolGate::Module(g) => of(g),
    }
}

/// Every gate of one circuit and of the modules it calls; the written names per circuit are returned.
fn judge_gates(ctx: &mut Ctx, c: &Nx, known: &[GateId], done: &mut HashSet<usize>, names: &mut HashMap<&'static str, u64>) -> Res {
    if !done.insert(&*c.borrow() as *const NXAOBoolCircuit as usize) {
        return Ok(());
    }
    let mut ins = vec![];
    for i in 0..c.input_len() {
        match c.input_to_gate_id(&WireId(i as u64)) {
            Ok(Some(id)) => ins.push(id),
            r => fail!("input {i} of {} is {r:?}", c.input_len()),
        }
    }
    let outs = (0..c.output_len()).map(|i| c.output_to_gate_id(&WireId(i as u64))).collect::<Result<Vec<_>, _>>().map_err(|e| format!("{e:?}"))?;
    let consts = c.get_const_gates();
    let roots: Vec<GateId> = ins.iter().chain(&outs).chain(&consts).chain(known).copied().collect();
    let gates = walk(c, &roots)?;
    let mut users: HashMap<GateId, Vec<GateId>> = HashMap::new();
    let (mut n_const, mut n_in) = (0, 0);
    // Results per call: the same module with the same operands may be called more than once.
    let mut results: HashMap<(ModuleId, Vec<GateId>), Vec<usize>> = HashMap::new();
    for (id, g) in &gates {
        let ops = sim::operands(g);
        for o in &ops {
            users.entry(*o).or_default().push(*id);
        }
        *names.entry(kind_name(g)).or_insert(0) += 1;
        check!(g.to_str() == kind_name(g), "gate {} is named {:?} and is {g:?}", id.0, g.to_str());
        check!(g.input_len() == ops.len(), "gate {} says it has {} inputs and has {} operands: {g:?}", id.0, g.input_len(), ops.len());
        check!(inner(g) == (g.input_len(), g.output_len(), g.to_str()), "gate {} and its kind describe it differently: {g:?}", id.0);
        let b = c.borrow().get_gate(id).map_err(|e| format!("{e:?}"))?;
        check!(b == *g, "gate {} is {b:?} for the circuit and {g:?} for its handle", id.0);
        let mut n_out = 1;
        match g {
            NXAOBoolGate::Input(w) => {
                n_in += 1;
                check!(ins.get(w.wire_id.0 as usize) == Some(id), "gate {} says it is input {}", id.0, w.wire_id.0);
            }
            NXAOBoolGate::Const(_) => {
                n_const += 1;
                check!(consts.contains(id), "constant gate {} is not listed", id.0);
            }
            NXAOBoolGate::Module(m) => {
                let mc = match c.get_module(&m.module_id) {
                    Ok(mc) => mc,
                    Err(e) => fail!("gate {} calls an unknown module: {e:?}", id.0),
                };
                n_out = mc.output_len();
                check!(mc.input_len() == ops.len(), "gate {} has {} operands for a module of {} inputs", id.0, ops.len(), mc.input_len());
                check!(m.out_index < n_out, "gate {} is result {} of a module of {n_out} outputs", id.0, m.out_index);
                results.entry((m.module_id, ops.clone())).or_default().push(m.out_index);
                judge_gates(ctx, &mc, &[], done, names)?;
            }
            _ => {}
        }
        check!(g.output_len() == n_out, "gate {} says it has {} outputs instead of {n_out}: {g:?}", id.0, g.output_len());
        check!(format!("{id}") == id.0.to_string(), "gate {} is shown as {id}", id.0);
    }
    check!(n_in == ins.len() && ins.iter().collect::<HashSet<_>>().len() == n_in, "{n_in} input gates for {} inputs", ins.len());
    check!(n_const == consts.len(), "{n_const} constant gates, {} listed", consts.len());
    for id in gates.keys() {
        let mut d: Vec<u64> = c.get_depended_gates(id).map_err(|e| format!("{e:?}"))?.iter().map(|x| x.0).collect();
        let mut u: Vec<u64> = users.get(id).map(|v| v.iter().map(|x| x.0).collect()).unwrap_or_default();
        d.sort();
        u.sort();
        check!(d == u, "gate {} lists {d:?} as dependents, and these have it as an operand: {u:?}", id.0);
    }
    // Calls whose operands are known come with all their results.
    for ((m, ops), mut r) in results {
        if ops.is_empty() {
            continue;
        }
        r.sort();
        let n = c.get_module(&m).map_err(|e| format!("{e:?}"))?.output_len();
        check!(r.len() % n == 0 && r.iter().enumerate().all(|(k, x)| *x == k / (r.len() / n)), "calls of {m:?} have the results {r:?} of {n}");
    }
    ctx.eval(gates.len() as u64);
    ctx.count("gates judged", gates.len() as u64);
    Ok(())
}

fn c30_judge(ctx: &mut Ctx, c: &Nx, known: &[GateId]) -> Res {
    let mut names = HashMap::new();
    judge_gates(ctx, c, known, &mut HashSet::new(), &mut names)?;
    for (n, k) in &names {
        ctx.count(&format!("{n} gates"), *k);
    }
    Ok(())
}

fn c30_programs(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let cfg = if ctx.rng.bit() { GenCfg::modular(5, 16, 3) } else { GenCfg::flat(6, 30) };
        let lib = gen_lib(&mut ctx.rng, &cfg);
        let mode = gen_mode(&mut ctx.rng);
        ctx.note = describe(&lib, &mode);
        let b = build(&lib, &mode)?;
        for (r, v) in b.refs.iter().zip(&b.vals) {
            c30_judge(ctx, r, v)?;
        }
        // The written lines name the gates.
        if !lib.progs.iter().any(|p| p.steps.iter().any(|s| matches!(s, Step::Call(..)))) {
            let t = write_real(&b.top(), 0)?;
            let text = String::from_utf8_lossy(&t.text).to_string();
            for (id, w) in &t.map {
                let g = b.top().get_gate(id).map_err(|e| format!("{e:?}"))?;
                if matches!(g, NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_)) {
                    continue;
                }
                let want = g.to_str();
                let w = w.to_string();
                let ok = text.lines().skip(3).any(|l| {
                    let t: Vec<&str> = l.split_ascii_whitespace().collect();
                    t.len() >= 4 && t[t.len() - 1] == want && t[t.len() - 2] == w && t[0] == g.input_len().to_string() && t[1] == g.output_len().to_string()
                });
                check!(ok, "no line of the written file gives wire {w} by a {want} of {} inputs, as gate {} says: {text:?}", g.input_len(), id.0);
                ctx.count("gates found in written files", 1);
            }
        }
        if lib.top().steps.len() > 2 {
            ctx.distinct(lib.fingerprint());
        }
        ctx.sample(|| lib.text());
    }
    Ok(())
}

fn c30_whole(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.rng.below(4);
    let w = whole(&mut ctx.rng, n)?;
    ctx.note = format!("{:?}", w.story);
    c30_judge(ctx, &w.c, &[])?;
    ctx.distinct(hash_str(&format!("{:?}", w.story)));
    Ok(())
}

/// Identifiers are numbers: they add, compare and print as such.
fn c30_ids(ctx: &mut Ctx) -> Res {
    for _ in 0..64 {
        let k = ctx.rng.below(64);
        let (a, b) = (ctx.rng.u64() >> k >> 1, ctx.rng.u64() >> ctx.rng.below(64) >> 1);
        let mut g = GateId(a);
        g += GateId(b);
        check!(GateId(a) + GateId(b) == GateId(a + b) && g == GateId(a + b), "gate {a} + gate {b}");
        let mut w = WireId(a);
        w += WireId(b);
        check!(WireId(a) + WireId(b) == WireId(a + b) && w == WireId(a + b), "wire {a} + wire {b}");
        check!((GateId(a) == GateId(b)) == (a == b) && (WireId(a) == WireId(b)) == (a == b) && (ModuleId(a) == ModuleId(b)) == (a == b), "identifiers {a} and {b} compare");
        for (s, n) in [(GateId(a).to_string(), "gate"), (WireId(a).to_string(), "wire"), (ModuleId(a).to_string(), "module")] {
            check!(s == a.to_string(), "{n} {a} is shown as {s}");
        }
        ctx.eval(4);
        ctx.distinct(a ^ b.rotate_left(32));
    }
    Ok(())
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "circuits of programs, builders, bundled and read files are walked gate by gate over operands and dependents; each gate's name, number of inputs and outputs, listing as input or constant, module and dependents are compared with what the other queries say, and with the line the writer gives it; identifiers are compared with numbers; non-trivial: more than two steps, distinct by text",
        assumptions: &[],
        kinds: vec![kind("programs", 3000, 80_000, c30_programs), kind("whole", 400, 8000, c30_whole), kind("ids", 40, 400, c30_ids)],
    }
}
