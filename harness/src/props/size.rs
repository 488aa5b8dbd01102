//! C33 which gates written files and read circuits consist of, C34 how many gates the builders use.
use super::bristol::{gen_file, layout};
use super::whole::some_whole;
use crate::bfile::{BFile, Op};
use crate::ints::*;
use crate::model::*;
use crate::rng::{hash_str, Rng};
use crate::runner::*;
use crate::sim;
use crate::util::*;
use crate::{at_width, check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::collections::{HashMap, HashSet};

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

/// Numbers of INV, XOR, AND, OR.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
struct Mix4([u64; 4]);

impl Mix4 {
    fn add(&mut self, o: Mix4) {
        for i in 0..4 {
            self.0[i] += o.0[i];
        }
    }
    fn total(&self) -> u64 {
        self.0.iter().sum()
    }
}

/// The gates that the outputs of the top program depend on, by the program alone.
fn needed_by_program(lib: &Lib) -> Mix4 {
    let mut memo: Vec<Mix4> = vec![];
    for p in &lib.progs {
        let mut need = vec![false; p.n_vals];
        for o in &p.outs {
            need[*o as usize] = true;
        }
        let mut m = Mix4::default();
        let mut v = p.n_vals;
        for s in p.steps.iter().rev() {
            let (k, ops): (usize, Vec<u32>) = match s {
                Step::Out(_) => continue,
                Step::Input | Step::Const(_) => (1, vec![]),
                Step::Not(a) | Step::Ident(a) => (1, vec![*a]),
                Step::Xor(a, b) | Step::And(a, b) | Step::Or(a, b) | Step::Eqv(a, b) => (1, vec![*a, *b]),
                Step::Call(c, _, args) => (lib.progs[*c as usize].outs.len(), args.clone()),
            };
            v -= k;
            if !need[v..v + k].iter().any(|n| *n) {
                continue;
            }
            for o in ops {
                need[o as usize] = true;
            }
            m.add(match s {
                Step::Not(_) => Mix4([1, 0, 0, 0]),
                Step::Ident(_) => Mix4([2, 0, 0, 0]),
                Step::Xor(..) => Mix4([0, 1, 0, 0]),
                Step::Eqv(..) => Mix4([1, 1, 0, 0]),
                Step::And(..) => Mix4([0, 0, 1, 0]),
                Step::Or(..) => Mix4([0, 0, 0, 1]),
                Step::Call(c, _, _) => memo[*c as usize],
                _ => Mix4::default(),
            });
        }
        memo.push(m);
    }
    *memo.last().unwrap()
}

/// The gates that the roots depend on.
fn walk(c: &Nx, roots: &[GateId]) -> Result<HashMap<GateId, NXAOBoolGate>, String> {
    let mut seen = HashMap::new();
    let mut todo = roots.to_vec();
    while let Some(id) = todo.pop() {
        if !seen.contains_key(&id) {
            let g = c.get_gate(&id).map_err(eb)?;
            todo.extend(sim::operands(&g));
            seen.insert(id, g);
        }
    }
    Ok(seen)
}

/// The same by walking the gates of a real circuit; `memo` holds what modules need.
fn needed_by_circuit(c: &Nx, memo: &mut HashMap<usize, Mix4>) -> Result<Mix4, String> {
    let key = &*c.borrow() as *const NXAOBoolCircuit as usize;
    if let Some(m) = memo.get(&key) {
        return Ok(*m);
    }
    let mut outs = vec![];
    for i in 0..c.output_len() {
        outs.push(c.output_to_gate_id(&WireId(i as u64)).map_err(eb)?);
    }
    let mut m = Mix4::default();
    let mut calls = HashSet::new();
    for (id, g) in walk(c, &outs)? {
        match g {
            NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => {}
            NXAOBoolGate::Not(_) => m.0[0] += 1,
            NXAOBoolGate::Xor(_) => m.0[1] += 1,
            NXAOBoolGate::And(_) => m.0[2] += 1,
            NXAOBoolGate::Or(_) => m.0[3] += 1,
            NXAOBoolGate::Module(g) => {
                // The results of one call have consecutive identifiers.
                if calls.insert(id.0 - g.out_index as u64) {
                    m.add(needed_by_circuit(&c.get_module(&g.module_id).map_err(eb)?, memo)?);
                }
            }
        }
    }
    memo.insert(key, m);
    Ok(m)
}

/// Lines of a file by kind: the four gates, EQ, EQW.
fn lines(f: &BFile) -> (Mix4, u64, u64) {
    count(f, |_| true)
}
fn count(f: &BFile, keep: impl Fn(usize) -> bool) -> (Mix4, u64, u64) {
    let (mut m, mut eq, mut eqw) = (Mix4::default(), 0, 0);
    for (i, g) in f.gates.iter().enumerate() {
        if keep(i) {
            match g.op {
                Op::Inv => m.0[0] += 1,
                Op::Xor => m.0[1] += 1,
                Op::And => m.0[2] += 1,
                Op::Or => m.0[3] += 1,
                Op::Eq => eq += 1,
                Op::Eqw => eqw += 1,
            }
        }
    }
    (m, eq, eqw)
}
/// The lines on which an output of the file depends.
fn needed_lines(f: &BFile) -> (Mix4, u64, u64) {
    let mut need = vec![false; f.n_wires];
    need[f.n_wires - f.n_out()..].fill(true);
    let mut keep = vec![false; f.gates.len()];
    for (i, g) in f.gates.iter().enumerate().rev() {
        if need[g.out] {
            keep[i] = true;
            if g.op != Op::Eq {
                for w in &g.ins {
                    need[*w] = true;
                }
            }
        }
    }
    count(f, |i| keep[i])
}

/// What one identity adds.
fn identity_gates() -> Result<u64, String> {
    let mut c = new_circuit();
    let i = c.input().map_err(eb)?;
    c.identity(&i).map_err(eb)?;
    Ok(c.num_gate() as u64)
}

/// Reads a file into a circuit and compares what was added.
fn read_counted(ctx: &mut Ctx, f: &BFile, text: &[u8], c: &mut Nx) -> Res {
    let before = [c.input_len(), c.output_len(), c.num_const(), c.num_gate(), c.num_wire()];
    BristolNXAOReader::new().read(text, c).map_err(|e| format!("reading failed: {e:?}"))?;
    ctx.eval(1);
    let (m, eq, eqw) = lines(f);
    let gates = (m.total() + eqw * identity_gates()?) as usize;
    let want = [f.n_in(), f.n_out(), eq as usize, gates, f.n_in() + eq as usize + gates];
    let now = [c.input_len(), c.output_len(), c.num_const(), c.num_gate(), c.num_wire()];
    for i in 0..5 {
        check!(
            now[i] - before[i] == want[i],
            "reading a file of {m:?} INV, XOR, AND, OR, {eq} EQ and {eqw} EQW lines added {} {} instead of {}",
            now[i] - before[i],
            ["inputs", "outputs", "constants", "gates", "wires"][i],
            want[i]
        );
    }
    Ok(())
}

/// The generations of files that come from a circuit.
fn generations(ctx: &mut Ctx, c: &Nx, need: Mix4) -> Res {
    let w = write_real(c, 0)?;
    let f = BFile::parse(&w.text)?;
    f.validate()?;
    ctx.eval(1);
    let (m, eq, eqw) = lines(&f);
    check!(m == need && eq == 0, "the file has {m:?} INV, XOR, AND and OR lines and {eq} EQ lines, the outputs need {need:?}");
    check!(eqw as usize <= f.n_out(), "the file has {eqw} copy lines for {} outputs", f.n_out());
    ctx.count("gate lines that were accounted for", m.total());
    ctx.max("gate lines of a file", m.total());
    ctx.count(if eqw > 0 { "files with copies" } else { "files without copies" }, 1);
    let mut c1 = new_circuit();
    read_counted(ctx, &f, &w.text, &mut c1)?;
    let mut old = f;
    let mut size = None;
    for gen in 2..5 {
        let w = write_real(&c1, 0)?;
        let f = BFile::parse(&w.text)?;
        f.validate()?;
        ctx.eval(1);
        let (mut want, weq, weqw) = needed_lines(&old);
        want.0[0] += weqw * identity_gates()?;
        let (m, eq, eqw) = lines(&f);
        check!(m == want && eq == 0, "the file of generation {gen} has {m:?} INV, XOR, AND and OR lines and {eq} EQ lines instead of {want:?}; {weq}");
        check!(eqw as usize <= f.n_out(), "the file of generation {gen} has {eqw} copy lines for {} outputs", f.n_out());
        if let Some(s) = size {
            check!(f.gates.len() == s, "generation {gen} has {} lines, the one before has {s}", f.gates.len());
        }
        if gen > 2 {
            size = Some(f.gates.len());
        }
        let mut c2 = new_circuit();
        read_counted(ctx, &f, &w.text, &mut c2)?;
        (old, c1) = (f, c2);
    }
    Ok(())
}

fn program(ctx: &mut Ctx, lib: &Lib) -> Res {
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(lib, &mode);
    let b = build(lib, &mode)?;
    generations(ctx, &b.top(), needed_by_program(lib))?;
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| lib.text());
    Ok(())
}

fn c33_programs(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let cfg = match ctx.rng.below(5) {
            0 => GenCfg::flat(5, 10),
            1 => GenCfg { max_outs: 30, ..GenCfg::flat(20, 120) },
            2 => GenCfg::modular(4, 10, 2),
            3 => GenCfg { max_outs: 10, ..GenCfg::modular(8, 30, 4) },
            _ => GenCfg { max_outs: 3, ..GenCfg::modular(3, 6, 3) },
        };
        let lib = gen_lib(&mut ctx.rng, &cfg);
        program(ctx, &lib)?;
    }
    Ok(())
}

fn c33_big(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.bit() {
        GenCfg { max_expanded: 60_000, max_outs: 40, ..GenCfg::modular(30, 400, 6) }
    } else {
        GenCfg { max_outs: 60, ..GenCfg::flat(40, 8000) }
    };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    program(ctx, &lib)
}

fn c33_whole(ctx: &mut Ctx) -> Res {
    let (c, text) = some_whole(&mut ctx.rng)?;
    ctx.note = text.clone();
    let need = needed_by_circuit(&c, &mut HashMap::new())?;
    if need.total() > 60_000 {
        ctx.count("circuits that are too large", 1);
        return Ok(());
    }
    generations(ctx, &c, need)?;
    ctx.distinct(hash_str(&text));
    Ok(())
}

/// Files, also ones with lines that no output needs, read into empty and filled circuits.
fn c33_files(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let mut c = new_circuit();
        if ctx.rng.bit() {
            let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(4, 8, 2));
            let mode = gen_mode(&mut ctx.rng);
            c = build(&lib, &mode)?.top();
        }
        let (mi, mg) = if ctx.rng.chance(1, 12) { (20, 600) } else { (5, 30) };
        let f = gen_file(&mut ctx.rng, mi, mg);
        let text = layout(&mut ctx.rng, &f);
        ctx.note = format!("{:?}", String::from_utf8_lossy(&text));
        read_counted(ctx, &f, &text, &mut c)?;
        let mut alone = new_circuit();
        read_counted(ctx, &f, &text, &mut alone)?;
        let (mut need, _, eqw) = needed_lines(&f);
        need.0[0] += eqw * identity_gates()?;
        generations(ctx, &alone, need)?;
        ctx.distinct(hash_str(&f.text()));
    }
    Ok(())
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "random programs with modules in all storage arrangements, circuits mixed from builders, bundled circuits and files, and random files are written, read and written again for four generations; the lines of each file are counted by kind and compared with the gates that the outputs need (by the program, by a walk over the real gates, or by the file of the generation before), and what reading adds is compared with the lines of the file; non-trivial: distinct by program, parts or file",
        assumptions: &["circuits that need more than 60000 gates are left out of the mixed circuits"],
        kinds: vec![kind("big", 24, 200, c33_big), kind("whole", 150, 4000, c33_whole), kind("programs", 6000, 150_000, c33_programs), kind("files", 3000, 80_000, c33_files)],
    }
}

// ---------------------------------------------------------------- C34

/// Gates and constants of a circuit.
fn size(c: &Nx) -> (usize, usize) {
    (c.num_gate(), c.num_const())
}

struct Meter<'a> {
    ctx: &'a mut Ctx,
    c: Nx,
    n: usize,
    log: Vec<String>,
}

impl<'a> Meter<'a> {
    /// Runs an operation and compares what it added with its limits.
    fn op<T>(&mut self, what: &str, gates: usize, consts: usize, f: impl FnOnce() -> Result<T, String>) -> Result<T, Fail> {
        let (g0, k0) = size(&self.c);
        let r = f()?;
        let (g1, k1) = size(&self.c);
        self.ctx.eval(1);
        self.log.push(what.to_string());
        self.ctx.note = format!("width {}: {:?}", self.n, self.log);
        self.ctx.count(&format!("gates of {what}"), (g1 - g0) as u64);
        check!(g1 - g0 <= gates, "{what} at width {} added {} gates, more than {gates}", self.n, g1 - g0);
        check!(k1 - k0 <= consts, "{what} at width {} added {} constants, more than {consts}", self.n, k1 - k0);
        Ok(r)
    }
}

fn place(rng: &mut Rng) -> Result<Nx, String> {
    let mut c = new_circuit();
    if rng.bit() {
        let lib = gen_lib(rng, &GenCfg::modular(4, 8, 2));
        let mode = gen_mode(rng);
        c = build(&lib, &mode)?.top();
    }
    if rng.bit() {
        c = c.sub_circuit().1;
    }
    Ok(c)
}

fn sizes_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let n = N;
    let c = place(&mut ctx.rng)?;
    let rounds = 4 + ctx.rng.below(10);
    let mut rng = Rng::new(ctx.rng.u64());
    let mut m = Meter { ctx, c: c.clone(), n, log: vec![] };
    let add = 6 * n;
    let sub = 13 * n;
    let mul = 7 * n * n + n;
    let less = sub + 5;
    let eq = 3 * n;
    if n <= 130 && rng.bit() {
        let cfg = m.op("opening an integer configuration", 0, 0, || AllocIntConfig::<_, _, N>::new(&c).map_err(es))?;
        let mut v = vec![];
        v.push(m.op("new", 0, 0, || AllocInt::new(&cfg).map_err(es))?);
        for _ in 0..rounds {
            let a = v[rng.below(v.len())].clone();
            let b = v[rng.below(v.len())].clone();
            let new = match rng.below(15) {
                0 => m.op("new", 0, 0, || AllocInt::new(&cfg).map_err(es))?,
                1 => m.op("zero", 0, n, || AllocInt::zero(&cfg).map_err(es))?,
                2 => m.op("one", 0, n, || AllocInt::one(&cfg).map_err(es))?,
                3 => {
                    let x = value(&mut rng, n);
                    m.op("a constant", 0, n, || AllocInt::from_biguint(&x, &cfg).map_err(es))?
                }
                4 => {
                    let k = rng.below(n + 1);
                    m.op("zero extension", 0, n - k, || AllocInt::from_gate_ids(a.val_le[..k].to_vec(), &cfg).map_err(es))?
                }
                5 => m.op("addition", add, 0, || Ok(&a + &b))?,
                6 => m.op("subtraction", sub, 2 * n, || Ok(&a - &b))?,
                7 if n <= 128 => m.op("multiplication", mul, n * n + 2 * n, || Ok(&a * &b))?,
                8 => m.op("negation", sub, 3 * n, || Ok(-&a))?,
                9 => {
                    let k = rng.below(n + 3);
                    m.op("shift to the left", 0, k.min(n), || a.shift_left(k).map_err(es))?
                }
                10 => {
                    let k = rng.below(n + 3);
                    m.op("shift to the right", 0, 0, || a.shift_right(k).map_err(es))?
                }
                11 => {
                    let mut t = a.clone();
                    match rng.below(3) {
                        0 => m.op("assigning addition", add, 0, || {
                            t += &b;
                            Ok(t)
                        })?,
                        1 => m.op("assigning subtraction", sub, 2 * n, || {
                            t -= &b;
                            Ok(t)
                        })?,
                        _ => m.op("assigning multiplication", mul, n * n + 2 * n, || {
                            t *= &b;
                            Ok(t)
                        })?,
                    }
                }
                _ => {
                    match rng.below(6) {
                        0 => m.op("eq", eq, 1, || a.eq(&b).map_err(es))?,
                        1 => m.op("neq", eq + 1, 1, || a.neq(&b).map_err(es))?,
                        2 => m.op("less", less, 2 * n, || a.less(&b).map_err(es))?,
                        3 => m.op("less or equal", less + eq + 1, 2 * n + 1, || a.less_or_eq(&b).map_err(es))?,
                        4 => m.op("larger", less + eq + 2, 2 * n + 1, || a.larger(&b).map_err(es))?,
                        _ => m.op("larger or equal", less + 1, 2 * n, || a.larger_or_eq(&b).map_err(es))?,
                    };
                    continue;
                }
            };
            v.push(new);
        }
        m.op("output", 0, 0, || v[rng.below(v.len())].output().map_err(es))?;
    } else {
        let cfg = m.op("opening a bit vector configuration", 0, 0, || AllocBitsConfig::<_, _, N>::new(&c).map_err(es))?;
        let mut v = vec![m.op("new bits", 0, 0, || AllocBits::new(&cfg).map_err(es))?];
        for _ in 0..rounds {
            let a = v[rng.below(v.len())].clone();
            let b = v[rng.below(v.len())].clone();
            let new = match rng.below(10) {
                0 => m.op("new bits", 0, 0, || AllocBits::new(&cfg).map_err(es))?,
                1 => {
                    let k = rng.below(n + 1);
                    m.op("zero extension of bits", 0, n - k, || AllocBits::from_gate_ids(a.bits[..k].to_vec(), &cfg).map_err(es))?
                }
                2 => m.op("NOT", n, 0, || Ok(!&a))?,
                3 => m.op("AND", n, 0, || Ok(&a & &b))?,
                4 => m.op("OR", n, 0, || Ok(&a | &b))?,
                5 => m.op("XOR", n, 0, || Ok(&a ^ &b))?,
                6 => {
                    let s = a.bits[rng.below(n)];
                    m.op("selection", 3 * n + 1, 0, || a.mux(&b, &s).map_err(es))?
                }
                7 => {
                    let mut t = a.clone();
                    let k = rng.below(3);
                    m.op("assigning form", n, 0, || {
                        match k {
                            0 => t &= &b,
                            1 => t |= &b,
                            _ => t ^= &b,
                        }
                        Ok(t)
                    })?
                }
                _ => {
                    if rng.bit() {
                        m.op("eq of bits", eq, 1, || a.eq(&b).map_err(es))?;
                    } else {
                        m.op("neq of bits", eq + 1, 1, || a.neq(&b).map_err(es))?;
                    }
                    continue;
                }
            };
            v.push(new);
        }
        m.op("output of bits", 0, 0, || v[rng.below(v.len())].output().map_err(es))?;
    }
    let t = format!("{N} {:?}", m.log);
    ctx.distinct(hash_str(&t));
    ctx.sample(|| t);
    Ok(())
}

fn c34_sizes(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 64]);
    at_width!(n, sizes_at(ctx); 1 2 3 4 5 7 8 9 12 16 17 24 31 32 33 48 64)
}
fn c34_wide(ctx: &mut Ctx) -> Res {
    let n = [65, 256, 100, 200, 127, 257, 128, 129][ctx.idx % 8];
    at_width!(n, sizes_at(ctx); 65 100 127 128 129 200 256 257)
}

/// The module builders at every width, and the field.
fn c34_modules(ctx: &mut Ctx) -> Res {
    let n = 1 + if ctx.idx < 40 { ctx.idx } else { ctx.rng.below(200) };
    ctx.note = format!("modules of width {n}");
    let mut c = place(&mut ctx.rng)?;
    let before = size(&c);
    let judge = |ctx: &mut Ctx, c: &Nx, what: &str, id: ModuleId, gates: usize, consts: usize| -> Res {
        let m = c.get_module(&id).map_err(eb)?;
        let (g, k) = size(&m);
        ctx.eval(1);
        check!(g <= gates, "the {what} module of width {n} has {g} gates, more than {gates}");
        check!(k <= consts, "the {what} module of width {n} has {k} constants, more than {consts}");
        Ok(())
    };
    let (add, sub, eq) = (6 * n, 13 * n, 3 * n);
    let a = build_add_circuit(&mut c, n).map_err(es)?;
    judge(ctx, &c, "adder", a, add, 0)?;
    let s = build_sub_circuit(&mut c, n, a).map_err(es)?;
    judge(ctx, &c, "subtracter", s, sub, 2 * n)?;
    let m = build_mul_circuit(&mut c, n, a).map_err(es)?;
    judge(ctx, &c, "multiplier", m, 7 * n * n + n, n * n + 2 * n)?;
    if n <= 60 {
        let a2 = build_add_circuit(&mut c, 2 * n).map_err(es)?;
        judge(ctx, &c, "double adder", a2, 2 * add, 0)?;
        let x = build_mul_extend_circuit(&mut c, n, a2).map_err(es)?;
        judge(ctx, &c, "widening multiplier", x, 13 * n * n, n * n + 4 * n)?;
    }
    let e = build_eq_circuit(&mut c, n).map_err(es)?;
    judge(ctx, &c, "equality", e, eq, 1)?;
    let ne = build_neq_circuit(&mut c, n, e).map_err(es)?;
    judge(ctx, &c, "inequality", ne, eq + 1, 1)?;
    let l = build_less_circuit(&mut c, n, s).map_err(es)?;
    judge(ctx, &c, "less", l, sub + 5, 2 * n)?;
    let le = build_less_or_eq_circuit(&mut c, n, l, e).map_err(es)?;
    judge(ctx, &c, "less or equal", le, sub + eq + 6, 2 * n + 1)?;
    let g = build_larger_circuit(&mut c, n, le).map_err(es)?;
    judge(ctx, &c, "larger", g, sub + eq + 7, 2 * n + 1)?;
    let ge = build_larger_or_eq_circuit(&mut c, n, l).map_err(es)?;
    judge(ctx, &c, "larger or equal", ge, sub + 6, 2 * n)?;
    for (what, id) in [
        ("NOT", build_not_circuit(&mut c, n)),
        ("AND", build_and_circuit(&mut c, n)),
        ("OR", build_or_circuit(&mut c, n)),
        ("XOR", build_xor_circuit(&mut c, n)),
    ] {
        judge(ctx, &c, what, id.map_err(es)?, n, 0)?;
    }
    check!(size(&c) == before, "building modules added {:?} gates and constants to {before:?}", size(&c));
    ctx.distinct(n as u64);
    Ok(())
}

fn field_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let n = N;
    let c = place(&mut ctx.rng)?;
    let before = size(&c);
    let ic = AllocIntConfig::<_, _, N>::new(&c).map_err(es)?;
    let r = 1 + ctx.rng.below((n - 2) / 2);
    let p = crate::field::modulus(&mut ctx.rng, r);
    ctx.note = format!("width {n}, p = {p}, r = {r}");
    let cfg = AllocFpConfig::<_, _, N>::new(&c, &ic, p.clone(), r).map_err(es)?;
    check!(size(&c) == before, "opening a field configuration added gates");
    let x = AllocFp::new(&cfg).map_err(es)?;
    let y = AllocFp::from_biguint_unchecked(&(BigUint::from(ctx.rng.u64()) % &p), &cfg);
    // Products of the integers, and some additions, subtractions and comparisons.
    let mul = 7 * n * n + n;
    let few = 16 * n + 8;
    let (add, red) = (3 * mul + 8 * few, 4 * mul + 8 * few);
    type F<'a> = Box<dyn Fn() + 'a>;
    let ops: Vec<(&str, usize, F)> = vec![
        ("addition", add, Box::new(|| drop(&x + &y))),
        ("subtraction", add + few, Box::new(|| drop(&x - &y))),
        ("negation", add + few, Box::new(|| drop(-&x))),
        ("multiplication", 2 * red + 2 * mul, Box::new(|| drop(&x * &y))),
        ("assigning addition", add, Box::new(|| {
            let mut t = x.clone();
            t += &y
        })),
        ("assigning subtraction", add + few, Box::new(|| {
            let mut t = x.clone();
            t -= &y
        })),
        ("assigning multiplication", 2 * red + 2 * mul, Box::new(|| {
            let mut t = x.clone();
            t *= &y
        })),
        ("equality", 3 * n, Box::new(|| drop(x.eq(&y)))),
        ("inequality", 3 * n + 1, Box::new(|| drop(x.neq(&y)))),
        ("zero", 0, Box::new(|| drop(AllocFp::zero(&cfg)))),
        ("one", 0, Box::new(|| drop(AllocFp::one(&cfg)))),
        ("constant", 0, Box::new(|| drop(AllocFp::from_biguint_unchecked(&BigUint::from(0u32), &cfg)))),
        ("new", 0, Box::new(|| drop(AllocFp::new(&cfg)))),
        ("output", 0, Box::new(|| drop(x.output()))),
    ];
    for (what, max, f) in &ops {
        let mut seen = None;
        for _ in 0..2 {
            let g = c.num_gate();
            f();
            let d = c.num_gate() - g;
            ctx.eval(1);
            check!(d <= *max, "field {what} at width {n} added {d} gates, more than {max}");
            if let Some(s) = seen {
                check!(s == d, "field {what} at width {n} added {s} gates once and {d} gates another time");
            }
            seen = Some(d);
        }
    }
    ctx.distinct(hash_str(&ctx.note.clone()));
    Ok(())
}

fn c34_fields(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[4, 5, 6, 8, 12, 18, 34]);
    at_width!(n, field_at(ctx); 4 5 6 8 12 18 34)
}

/// The bundled circuits have the gates of their files each time.
fn c34_bundled(ctx: &mut Ctx) -> Res {
    type F = fn(&mut Nx) -> Result<(), BuildCircuitError>;
    let all: [(&str, usize, F); 7] = [
        ("adder", 376, build_adder64),
        ("subtracter", 439, build_sub64),
        ("negation", 191, build_neg64),
        ("multiplier", 28032, build_mult2_64),
        ("unsigned divider", 16952, build_divide_unsigned_64),
        ("divider", 29926, build_divide_signed_64),
        ("AES-128", 33616, circuit_converters::cryptography::build_aes128),
    ];
    let (what, max, f) = all[ctx.idx % 7];
    ctx.note = what.to_string();
    let mut c = place(&mut ctx.rng)?;
    let mut seen = None;
    for _ in 0..2 {
        let g = c.num_gate();
        f(&mut c).map_err(es)?;
        let d = c.num_gate() - g;
        ctx.eval(1);
        ctx.max(&format!("gates of the {what}"), d as u64);
        check!(d == max, "the bundled {what} added {d} gates, its file describes {max}");
        if let Some(s) = seen {
            if s != d {
                fail!("the bundled {what} added {s} gates once and {d} gates another time");
            }
        }
        seen = Some(d);
    }
    ctx.distinct(ctx.idx as u64 % 7);
    Ok(())
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "random sequences of builder operations in empty and filled circuits and sub-circuits, the module builders at widths up to 200, field configurations and bundled circuits; the gates and constants that each operation adds to the circuit are compared with the stated limits; non-trivial: distinct by width and sequence",
        assumptions: &["the limits of field operations leave room for a few integer operations more than the current code uses"],
        kinds: vec![kind("wide", 16, 200, c34_wide), kind("modules", 80, 600, c34_modules), kind("bundled", 14, 70, c34_bundled), kind("fields", 100, 2000, c34_fields), kind("sizes", 2000, 40_000, c34_sizes)],
    }
}
