//! C27 module storages, C28 the interface of builders, C29 failed reads.
use super::bristol::{bad_text, chunks, gen_file, layout};
use crate::bfile::BFile;
use crate::faults::Source;
use crate::ints::*;
use crate::field::modulus;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::util::*;
use crate::{at_width, check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::io::ErrorKind;

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

// ---------------------------------------------------------------- C27

struct World {
    stores: Vec<Store>,
    /// Circuits, the storage of each, and how many inputs each has.
    cs: Vec<Nx>,
    home: Vec<usize>,
    inputs: Vec<usize>,
    /// Identifiers of every storage with the circuit each one means.
    ids: Vec<Vec<(ModuleId, usize)>>,
}

fn address(c: &Nx) -> usize {
    &*c.borrow() as *const NXAOBoolCircuit as usize
}

impl World {
    fn given(&mut self, s: usize, id: ModuleId, c: usize, how: &str) -> Res {
        check!(self.ids[s].iter().all(|(i, _)| *i != id), "{how} handed out {id:?} again, which stands for another registration in that storage");
        self.ids[s].push((id, c));
        Ok(())
    }
    fn add(&mut self, c: Nx, s: usize, inputs: usize) -> usize {
        self.cs.push(c);
        self.home.push(s);
        self.inputs.push(inputs);
        self.cs.len() - 1
    }
    /// One circuit that looks up one identifier.
    fn look(&self, s: usize, from: usize, k: usize) -> Res {
        let (id, c) = self.ids[s][k];
        let m = match guarded(|| self.cs[from].get_module(&id))? {
            Ok(m) => m,
            Err(e) => fail!("circuit {from} does not know {id:?} of its storage {s}: {e:?}"),
        };
        check!(address(&m) == address(&self.cs[c]), "{id:?} of storage {s} means another circuit than {c}, which was registered under it");
        check!(m.input_len() == self.inputs[c], "{id:?} of storage {s} has {} inputs, circuit {c} has {}", m.input_len(), self.inputs[c]);
        Ok(())
    }
    fn sizes(&self) -> Vec<[usize; 5]> {
        self.cs.iter().map(|c| [c.input_len(), c.output_len(), c.num_wire(), c.num_gate(), c.num_const()]).collect()
    }
    fn all(&self, ctx: &mut Ctx) -> Res {
        for s in 0..self.stores.len() {
            for k in 0..self.ids[s].len() {
                let (id, c) = self.ids[s][k];
                match self.stores[s].get_module(&id) {
                    Ok(m) if address(&m) == address(&self.cs[c]) => {}
                    Ok(_) => fail!("storage {s} gives another circuit for {id:?} than {c}"),
                    Err(e) => fail!("storage {s} does not know {id:?}: {e:?}"),
                }
                ctx.eval(1);
            }
            let unknown: Vec<ModuleId> = [0, 1, self.ids[s].len() as u64, self.ids[s].len() as u64 + 1, 1 << 32, u64::MAX]
                .into_iter()
                .chain(self.ids.iter().flatten().map(|(i, _)| i.0))
                .map(ModuleId)
                .filter(|i| self.ids[s].iter().all(|(j, _)| j != i))
                .collect();
            for u in &unknown {
                check!(self.stores[s].get_module(u).is_err(), "storage {s} knows {u:?}, which it never handed out");
                ctx.eval(1);
            }
            for from in (0..self.cs.len()).filter(|c| self.home[*c] == s) {
                for k in 0..self.ids[s].len() {
                    self.look(s, from, k)?;
                    ctx.eval(1);
                }
                for u in &unknown {
                    check!(self.cs[from].get_module(u).is_err(), "circuit {from} of storage {s} knows {u:?}, which that storage never handed out");
                }
            }
        }
        Ok(())
    }
}

fn c27_case(ctx: &mut Ctx, steps: usize) -> Res {
    let mut w = World { stores: vec![new_store()], cs: vec![], home: vec![], inputs: vec![], ids: vec![vec![]] };
    let first = NXAOBoolCircuit::new(w.stores[0].clone()).to_ref();
    w.add(first, 0, 0);
    let mut log: Vec<String> = vec![];
    for _ in 0..steps {
        ctx.note = format!("{log:?}");
        let n = w.cs.len();
        let i = ctx.rng.below(n);
        let j = if ctx.rng.chance(1, 6) { i } else { ctx.rng.below(n) };
        let before = w.sizes();
        let mut changed = None;
        match ctx.rng.below(10) {
            0 if w.stores.len() < 4 => {
                w.stores.push(new_store());
                w.ids.push(vec![]);
                let s = w.stores.len() - 1;
                let c = NXAOBoolCircuit::new(w.stores[s].clone()).to_ref();
                w.add(c, s, 0);
                log.push(format!("storage {s} with circuit {n}"));
            }
            0 | 1 => {
                let s = ctx.rng.below(w.stores.len());
                let c = NXAOBoolCircuit::new(w.stores[s].clone()).to_ref();
                w.add(c, s, 0);
                log.push(format!("circuit {n} in storage {s}"));
            }
            2 | 3 => {
                let h = w.cs[j].clone();
                let s = w.home[i];
                let (how, id) = match ctx.rng.below(3) {
                    0 => ("the handle", guarded(|| w.cs[i].register_module(&h))?),
                    1 if i != j => ("the circuit", guarded(|| w.cs[i].borrow_mut().register_module(&h))?),
                    _ => ("the storage", guarded(|| w.stores[s].clone().register_module(&h))?),
                };
                log.push(format!("circuit {j} registered by {how} {i} of storage {s} as {id:?}"));
                w.given(s, id, j, &log.last().unwrap().clone())?;
            }
            4 | 5 => {
                let (id, c) = if ctx.rng.bit() { guarded(|| w.cs[i].sub_circuit())? } else { guarded(|| w.cs[i].borrow_mut().sub_circuit())? };
                let s = w.home[i];
                check!(c.input_len() == 0 && c.output_len() == 0 && c.num_wire() == 0 && c.num_gate() == 0 && c.num_const() == 0, "a new sub-circuit is not empty");
                log.push(format!("sub-circuit {n} of circuit {i} of storage {s} as {id:?}"));
                w.add(c, s, 0);
                w.given(s, id, n, &log.last().unwrap().clone())?;
            }
            6 => {
                let c = w.cs[i].borrow().clone().to_ref();
                let (s, k) = (w.home[i], w.inputs[i]);
                w.add(c, s, k);
                log.push(format!("circuit {n}, a clone of {i}"));
            }
            7 | 8 => {
                // Inputs added through whatever handle an identifier resolves to.
                let s = w.home[i];
                if w.ids[s].is_empty() {
                    continue;
                }
                let (id, c) = *ctx.rng.pick(&w.ids[s]);
                let mut m = w.cs[i].get_module(&id).map_err(eb)?;
                let k = 1 + ctx.rng.below(3);
                for _ in 0..k {
                    m.input().map_err(eb)?;
                }
                w.inputs[c] += k;
                changed = Some(c);
                log.push(format!("{k} inputs for {id:?} of storage {s}, circuit {c}"));
            }
            _ => {
                let k = 1 + ctx.rng.below(3);
                for _ in 0..k {
                    w.cs[i].input().map_err(eb)?;
                }
                w.inputs[i] += k;
                changed = Some(i);
                log.push(format!("{k} inputs for circuit {i}"));
            }
        }
        ctx.note = format!("{log:?}");
        let after = w.sizes();
        for c in 0..n {
            let same = before[c] == after[c];
            check!(same || changed == Some(c), "circuit {c} was changed by: {}", log.last().unwrap());
        }
        if ctx.rng.chance(1, 4) {
            w.all(ctx)?;
        } else if w.home.len() == after.len() {
            let s = w.home[i];
            for k in 0..w.ids[s].len() {
                w.look(s, i, k)?;
                ctx.eval(1);
            }
        }
    }
    w.all(ctx)?;
    // Every circuit now gets a function of its own, and each identifier must call the function of its circuit.
    let n = w.cs.len();
    for c in 0..n {
        for b in 0..8 {
            let g = w.cs[c].constant((c >> b) & 1 == 1).map_err(eb)?;
            w.cs[c].output(g).map_err(eb)?;
        }
        if w.inputs[c] > 0 {
            let last = w.cs[c].input_to_gate_id(&WireId(w.inputs[c] as u64 - 1)).map_err(eb)?.unwrap();
            w.cs[c].output(last).map_err(eb)?;
        }
    }
    for s in 0..w.stores.len() {
        let mut top = NXAOBoolCircuit::new(w.stores[s].clone()).to_ref();
        let x = top.input().map_err(eb)?;
        let nx = top.not(&x).map_err(eb)?;
        let mut want = vec![];
        for (id, c) in &w.ids[s] {
            let wrong = vec![x; w.inputs[*c] + 1 + ctx.rng.below(2)];
            check!(top.module(id, &wrong).is_err(), "a call of {id:?}, circuit {c}, with {} operands for {} inputs succeeded", wrong.len(), w.inputs[*c]);
            let mut args = vec![x; w.inputs[*c]];
            if let Some(l) = args.last_mut() {
                *l = nx;
            }
            for o in top.module(id, &args).map_err(eb)? {
                top.output(o).map_err(eb)?;
            }
            for b in 0..8 {
                want.push((c >> b) & 1 == 1);
            }
            if w.inputs[*c] > 0 {
                want.push(false);
            }
        }
        let got = eval_real(&top, &[true])?;
        check!(got == want, "calling every module of storage {s} gave {} instead of {}", bits_str(&got), bits_str(&want));
        let wr = write_real(&top, 0)?;
        let f = BFile::parse(&wr.text)?;
        let ins: Vec<u64> = std::iter::once(true).chain(wr.consts.iter().copied()).map(|b| b as u64).collect();
        let file: Vec<bool> = f.outputs(&ins).iter().map(|o| o & 1 == 1).collect();
        check!(file == want, "the file of calls of every module of storage {s} gives {} instead of {}", bits_str(&file), bits_str(&want));
        ctx.eval(2);
    }
    let ids: usize = w.ids.iter().map(|i| i.len()).sum();
    ctx.max("identifiers in a history", ids as u64);
    ctx.max("storages in a history", w.stores.len() as u64);
    ctx.count("identifiers handed out", ids as u64);
    if ids > 1 {
        ctx.distinct(crate::rng::hash_str(&format!("{log:?}")));
    }
    ctx.sample(|| log.join("; "));
    Ok(())
}

fn c27_random(ctx: &mut Ctx) -> Res {
    let n = 3 + ctx.rng.below(40);
    c27_case(ctx, n)
}
fn c27_long(ctx: &mut Ctx) -> Res {
    let n = if ctx.thorough() { 600 } else { 250 };
    c27_case(ctx, n)
}

/// Many registrations in one storage.
fn c27_many(ctx: &mut Ctx) -> Res {
    let n = if ctx.thorough() { 200_000 } else { 70_000 };
    let st = new_store();
    let mut c = NXAOBoolCircuit::new(st.clone()).to_ref();
    let mut a = NXAOBoolCircuit::new(st.clone()).to_ref();
    let mut ids = vec![];
    for k in 0..n {
        if ctx.rng.chance(1, 50) {
            let (id, mut s) = c.sub_circuit();
            for _ in 0..1 + k % 3 {
                s.input().map_err(eb)?;
            }
            ids.push((id, address(&s)));
        } else {
            ids.push((c.register_module(&a), address(&a)));
        }
    }
    a.input().map_err(eb)?;
    let set: std::collections::HashSet<u64> = ids.iter().map(|(i, _)| i.0).collect();
    check!(set.len() == ids.len(), "{} identifiers for {} registrations", set.len(), ids.len());
    for (id, adr) in &ids {
        match a.get_module(id) {
            Ok(m) if address(&m) == *adr => {}
            Ok(_) => fail!("{id:?} means another circuit than the one registered under it"),
            Err(e) => fail!("{id:?} is not known: {e:?}"),
        }
    }
    ctx.eval(n as u64);
    ctx.max("identifiers in a history", n as u64);
    ctx.distinct(ctx.idx as u64);
    Ok(())
}

pub fn c27() -> Prop {
    Prop {
        id: "C27",
        rule: "random histories over up to four module storages create circuits, clones and sub-circuits, register circuits (themselves and twice too) through handles, circuits and storages and add inputs through whatever an identifier resolves to; after each step identifiers are resolved by the circuits and storages and the circuit found is compared by identity and size; at the end each identifier is called and the results, by the evaluator and in the written file, must be those of its circuit; non-trivial: at least two identifiers, distinct by history",
        assumptions: &["a circuit that calls modules is not itself called in these histories (C02 covers that)"],
        kinds: vec![kind("many", 4, 16, c27_many), kind("long", 60, 1000, c27_long), kind("random", 6000, 200_000, c27_random)],
    }
}

// ---------------------------------------------------------------- C28

/// The inputs and outputs that a circuit has to have.
struct Shape {
    c: Nx,
    ins: Vec<GateId>,
    outs: Vec<GateId>,
}

impl Shape {
    fn of(c: &Nx) -> Result<Shape, String> {
        let mut s = Shape { c: c.clone(), ins: vec![], outs: vec![] };
        (s.ins, s.outs) = s.now()?;
        Ok(s)
    }
    fn now(&self) -> Result<(Vec<GateId>, Vec<GateId>), String> {
        let i = (0..self.c.input_len()).map(|i| self.c.input_to_gate_id(&WireId(i as u64)).map(|o| o.expect("gate of an input"))).collect::<Result<_, _>>().map_err(eb)?;
        let o = (0..self.c.output_len()).map(|i| self.c.output_to_gate_id(&WireId(i as u64))).collect::<Result<_, _>>().map_err(eb)?;
        Ok((i, o))
    }
    fn same(&self, what: &str) -> Res {
        let (i, o) = self.now()?;
        check!(i == self.ins, "{what} changed the inputs from {} to {} ({:?} to {:?})", self.ins.len(), i.len(), self.ins, i);
        check!(o == self.outs, "{what} changed the outputs from {:?} to {o:?}", self.outs);
        Ok(())
    }
    fn value(&self, what: &str, ids: &[GateId], n: usize) -> Res {
        check!(ids.len() == n, "{what} has {} bits at width {n}", ids.len());
        for id in ids {
            check!(self.c.get_gate(id).is_ok(), "{what} holds {id:?}, which is not a gate of the circuit");
        }
        Ok(())
    }
    fn new_value(&mut self, what: &str, ids: &[GateId], n: usize) -> Res {
        let fresh: Vec<GateId> = ids.to_vec();
        for id in &fresh {
            check!(!self.ins.contains(id), "{what} uses the input {id:?} that there was before");
        }
        self.ins.extend(fresh);
        self.same(what)?;
        self.value(what, ids, n)
    }
    fn output(&mut self, what: &str, ids: &[GateId]) -> Res {
        self.outs.extend_from_slice(ids);
        self.same(what)
    }
}

/// Where the builders work: a filled or empty circuit, or a sub-circuit.
fn site(rng: &mut Rng) -> Result<(Nx, Option<Nx>), String> {
    let mut c = new_circuit();
    if rng.bit() {
        let lib = gen_lib(rng, &GenCfg::modular(4, 8, 1));
        c = build(&lib, &gen_mode(rng))?.top();
    }
    if rng.chance(1, 3) {
        let s = c.sub_circuit().1;
        return Ok((s, Some(c)));
    }
    Ok((c, None))
}

fn ints_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let (c, parent) = site(&mut ctx.rng)?;
    let mut s = Shape::of(&c)?;
    let p = parent.as_ref().map(Shape::of).transpose()?;
    let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(es)?;
    s.same("AllocIntConfig::new")?;
    let mut v: Vec<AllocInt<NXAOBoolGate, NXAOBoolCircuit, N>> = vec![];
    let mut log: Vec<String> = vec![];
    for step in 0..4 + ctx.rng.below(12) {
        let n = v.len();
        let k = if n == 0 { *ctx.rng.pick(&[0, 0, 2, 3, 4]) } else { ctx.rng.below(16) };
        let (a, b) = if n == 0 { (0, 0) } else { (ctx.rng.below(n), ctx.rng.below(n)) };
        let what;
        let mut new = None;
        match k {
            0 => {
                let x = AllocInt::new(&cfg).map_err(es)?;
                what = format!("{step}: AllocInt::new at width {N}");
                s.new_value(&what, &x.val_le, N)?;
                v.push(x);
                log.push(what);
                continue;
            }
            1 => {
                what = format!("{step}: output of value {a}");
                v[a].output().map_err(es)?;
                s.output(&what, &v[a].val_le)?;
                log.push(what);
                continue;
            }
            2 => {
                let cst = value(&mut ctx.rng, N);
                what = format!("{step}: constant {cst}");
                new = Some(AllocInt::from_biguint(&cst, &cfg).map_err(es)?);
            }
            3 => {
                what = format!("{step}: zero");
                new = Some(AllocInt::zero(&cfg).map_err(es)?);
            }
            4 => {
                what = format!("{step}: one");
                new = Some(AllocInt::one(&cfg).map_err(es)?);
            }
            5 => {
                let m = ctx.rng.below(N + 1);
                let ids = v[a].val_le[..m].to_vec();
                what = format!("{step}: {m} bits of value {a}");
                let x = AllocInt::from_gate_ids(ids.clone(), &cfg).map_err(es)?;
                check!(x.val_le[..m] == ids[..], "a value made of gates does not start with these gates");
                new = Some(x);
            }
            6 => {
                what = format!("{step}: {a} + {b}");
                new = Some(&v[a] + &v[b]);
            }
            7 => {
                what = format!("{step}: {a} - {b}");
                new = Some(&v[a] - &v[b]);
            }
            8 => {
                what = format!("{step}: {a} * {b}");
                new = Some(&v[a] * &v[b]);
            }
            9 => {
                what = format!("{step}: -{a}");
                new = Some(-&v[a]);
            }
            10 | 11 => {
                let m = ctx.rng.below(2 * N + 2);
                what = format!("{step}: {a} shifted by {m} ({k})");
                new = Some(if k == 10 { v[a].shift_left(m) } else { v[a].shift_right(m) }.map_err(es)?);
            }
            12 => {
                let o = ctx.rng.below(3);
                what = format!("{step}: assigning operation {o} of {a} and {b}");
                let mut t = v[a].clone();
                match o {
                    0 => t += &v[b],
                    1 => t -= &v[b],
                    _ => t *= &v[b],
                }
                new = Some(t);
            }
            13 => {
                // The builders of single modules.
                let m = 1 + ctx.rng.below(9);
                let mut r = c.clone();
                let add = build_add_circuit(&mut r, m).map_err(es)?;
                let eq = build_eq_circuit(&mut r, m).map_err(es)?;
                let sub = build_sub_circuit(&mut r, m, add).map_err(es)?;
                let mul = build_mul_circuit(&mut r, m, add).map_err(es)?;
                let less = build_less_circuit(&mut r, m, sub).map_err(es)?;
                let le = build_less_or_eq_circuit(&mut r, m, less, eq).map_err(es)?;
                let ad2 = build_add_circuit(&mut r, 2 * m).map_err(es)?;
                let ext = build_mul_extend_circuit(&mut r, m, ad2).map_err(es)?;
                let larger = build_larger_circuit(&mut r, m, le).map_err(es)?;
                let lge = build_larger_or_eq_circuit(&mut r, m, less).map_err(es)?;
                what = format!("{step}: builders of modules of width {m}");
                for (name, id, i, o) in [
                    ("adder", add, 2 * m, m),
                    ("equality", eq, 2 * m, 1),
                    ("subtracter", sub, 2 * m, m),
                    ("multiplier", mul, 2 * m, m),
                    ("less", less, 2 * m, 1),
                    ("less or equal", le, 2 * m, 1),
                    ("adder", ad2, 4 * m, 2 * m),
                    ("widening multiplier", ext, 2 * m, 2 * m),
                    ("larger", larger, 2 * m, 1),
                    ("larger or equal", lge, 2 * m, 1),
                ] {
                    let h = c.get_module(&id).map_err(eb)?;
                    check!(h.input_len() == i && h.output_len() == o, "the {name} of width {m} has {} inputs and {} outputs", h.input_len(), h.output_len());
                    ctx.eval(1);
                }
            }
            _ => {
                let o = ctx.rng.below(6);
                what = format!("{step}: comparison {o} of {a} and {b}");
                let (x, y) = (&v[a], &v[b]);
                let g = match o {
                    0 => x.eq(y),
                    1 => x.neq(y),
                    2 => x.less(y),
                    3 => x.less_or_eq(y),
                    4 => x.larger(y),
                    _ => x.larger_or_eq(y),
                }
                .map_err(es)?;
                s.value(&what, &[g], 1)?;
            }
        }
        ctx.eval(1);
        log.push(what.clone());
        ctx.note = format!("width {N}: {log:?}");
        s.same(&what)?;
        if let Some(x) = new {
            s.value(&what, &x.val_le, N)?;
            v.push(x);
        }
    }
    if let Some(p) = p {
        p.same("building in a sub-circuit")?;
    }
    ctx.distinct(fingerprint(N, &format!("{log:?}")));
    ctx.sample(|| format!("width {N}: {log:?}"));
    Ok(())
}

fn bits_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let (c, parent) = site(&mut ctx.rng)?;
    let mut s = Shape::of(&c)?;
    let p = parent.as_ref().map(Shape::of).transpose()?;
    let cfg = AllocBitsConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(es)?;
    s.same("AllocBitsConfig::new")?;
    let mut v: Vec<AllocBits<NXAOBoolGate, NXAOBoolCircuit, N>> = vec![];
    let mut made: Vec<Vec<GateId>> = vec![];
    let mut log: Vec<String> = vec![];
    for step in 0..4 + ctx.rng.below(12) {
        let n = v.len();
        let k = if n == 0 { *ctx.rng.pick(&[0, 0, 11]) } else { ctx.rng.below(12) };
        let (a, b) = if n == 0 { (0, 0) } else { (ctx.rng.below(n), ctx.rng.below(n)) };
        let what = format!("{step}: operation {k} on {a} and {b}");
        let mut new = None;
        match k {
            0 => {
                let x = AllocBits::new(&cfg).map_err(es)?;
                // The gates of a value are those its outputs name.
                x.output().map_err(es)?;
                let (i, o) = s.now()?;
                let fresh = i[s.ins.len().min(i.len())..].to_vec();
                check!(fresh.len() == N, "AllocBits::new at width {N} added {} inputs", fresh.len());
                s.ins = i;
                s.outs.extend(&fresh);
                check!(o == s.outs, "the outputs of a new value are not its inputs in order");
                v.push(x);
                made.push(fresh);
            }
            1 => {
                v[a].output().map_err(es)?;
                let m = made[a].clone();
                s.output(&what, &m)?;
            }
            2 => {
                let m = ctx.rng.below(N + 1);
                new = Some(AllocBits::from_gate_ids(made[a][..m].to_vec(), &cfg).map_err(es)?);
            }
            3 => new = Some(!&v[a]),
            4 => new = Some(&v[a] & &v[b]),
            5 => new = Some(&v[a] | &v[b]),
            6 => new = Some(&v[a] ^ &v[b]),
            7 => {
                let mut t = v[a].clone();
                match ctx.rng.below(3) {
                    0 => t &= &v[b],
                    1 => t |= &v[b],
                    _ => t ^= &v[b],
                }
                new = Some(t);
            }
            8 => {
                let g = if ctx.rng.bit() { v[a].eq(&v[b]) } else { v[a].neq(&v[b]) }.map_err(es)?;
                s.value(&what, &[g], 1)?;
            }
            9 => {
                let sel = match ctx.rng.below(4) {
                    0 => {
                        let x = ctx.rng.bit();
                        c.clone().constant(x).map_err(eb)?
                    }
                    1 if !s.ins.is_empty() => *ctx.rng.pick(&s.ins),
                    _ => made[b][ctx.rng.below(N)],
                };
                new = Some(v[a].mux(&v[b], &sel).map_err(es)?);
            }
            11 => {
                // Constants, with or without inputs in the circuit.
                let m = ctx.rng.below(N + 1);
                let ids = (0..m).map(|_| c.clone().constant(ctx.rng.bit())).collect::<Result<Vec<_>, _>>().map_err(eb)?;
                new = Some(AllocBits::from_gate_ids(ids, &cfg).map_err(es)?);
            }
            _ => {
                let m = 1 + ctx.rng.below(9);
                let mut r = c.clone();
                let eq = build_eq_circuit(&mut r, m).map_err(es)?;
                for (name, id, i, o) in [
                    ("negation", build_not_circuit(&mut r, m).map_err(es)?, m, m),
                    ("conjunction", build_and_circuit(&mut r, m).map_err(es)?, 2 * m, m),
                    ("disjunction", build_or_circuit(&mut r, m).map_err(es)?, 2 * m, m),
                    ("difference", build_xor_circuit(&mut r, m).map_err(es)?, 2 * m, m),
                    ("equality", eq, 2 * m, 1),
                    ("inequality", build_neq_circuit(&mut r, m, eq).map_err(es)?, 2 * m, 1),
                ] {
                    let h = c.get_module(&id).map_err(eb)?;
                    check!(h.input_len() == i && h.output_len() == o, "the {name} of width {m} has {} inputs and {} outputs", h.input_len(), h.output_len());
                    ctx.eval(1);
                }
            }
        }
        ctx.eval(1);
        log.push(what.clone());
        ctx.note = format!("width {N}: {log:?}");
        s.same(&what)?;
        if let Some(x) = new {
            x.output().map_err(es)?;
            let o = s.now()?.1;
            check!(o.len() == s.outs.len() + N, "output at width {N} added {} outputs", o.len() - s.outs.len());
            let ids = o[s.outs.len()..].to_vec();
            s.output(&what, &ids)?;
            v.push(x);
            made.push(ids);
        }
    }
    if let Some(p) = p {
        p.same("building in a sub-circuit")?;
    }
    ctx.distinct(fingerprint(N, &format!("bits {log:?}")));
    Ok(())
}

fn fields_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let (c, parent) = site(&mut ctx.rng)?;
    let mut s = Shape::of(&c)?;
    let par = parent.as_ref().map(Shape::of).transpose()?;
    let ic = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(es)?;
    let r = (N - 2) / 2;
    let p: BigUint = modulus(&mut ctx.rng, r);
    let cfg = AllocFpConfig::new(&c, &ic, p.clone(), r).map_err(es)?;
    s.same("AllocFpConfig::new")?;
    let mut v: Vec<AllocFp<NXAOBoolGate, NXAOBoolCircuit, N>> = vec![];
    let mut log: Vec<String> = vec![];
    for step in 0..3 + ctx.rng.below(8) {
        let n = v.len();
        let k = if n == 0 { *ctx.rng.pick(&[0, 0, 2, 3, 9]) } else { ctx.rng.below(11) };
        let (a, b) = if n == 0 { (0, 0) } else { (ctx.rng.below(n), ctx.rng.below(n)) };
        let what = format!("{step}: operation {k} on {a} and {b}");
        let mut new = None;
        match k {
            0 => {
                let x = AllocFp::new(&cfg).map_err(es)?;
                s.new_value(&what, &x.to_gate_ids(), N)?;
                v.push(x);
            }
            1 => {
                v[a].output().map_err(es)?;
                let m = v[a].to_gate_ids();
                s.output(&what, &m)?;
            }
            2 => new = Some(AllocFp::zero(&cfg).map_err(es)?),
            3 => new = Some(AllocFp::from_biguint_unchecked(&(value(&mut ctx.rng, N) % &p), &cfg)),
            4 => new = Some(&v[a] + &v[b]),
            5 => new = Some(&v[a] - &v[b]),
            6 => new = Some(&v[a] * &v[b]),
            7 => new = Some(-&v[a]),
            8 => {
                let mut t = v[a].clone();
                match ctx.rng.below(3) {
                    0 => t += &v[b],
                    1 => t -= &v[b],
                    _ => t *= &v[b],
                }
                new = Some(t);
            }
            9 => new = Some(AllocFp::one(&cfg).map_err(es)?),
            _ => {
                let g = if ctx.rng.bit() { v[a].eq(&v[b]) } else { v[a].neq(&v[b]) }.map_err(es)?;
                s.value(&what, &[g], 1)?;
            }
        }
        ctx.eval(1);
        log.push(what.clone());
        ctx.note = format!("width {N}, p = {p}, r = {r}: {log:?}");
        s.same(&what)?;
        if let Some(x) = new {
            s.value(&what, &x.to_gate_ids(), N)?;
            v.push(x);
        }
    }
    if let Some(p) = par {
        p.same("building in a sub-circuit")?;
    }
    ctx.distinct(fingerprint(N, &format!("field {p} {log:?}")));
    Ok(())
}

fn c28_ints(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33]);
    at_width!(n, ints_at(ctx); 1 2 3 4 5 7 8 9 16 17 32 33)
}
/// Widths of more than a byte's range, at a cost.
fn c28_wide(ctx: &mut Ctx) -> Res {
    let n = [257, 200, 64, 256, 65, 257, 128, 300, 512, 1030, 129, 255][ctx.idx % 12];
    match ctx.idx % 12 {
        0 | 2 | 4 | 6 | 10 => at_width!(n, ints_at(ctx); 64 65 128 129 257),
        _ => at_width!(n, bits_at(ctx); 200 255 256 257 300 512 1030),
    }
}
fn c28_bits(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 64, 65, 128]);
    at_width!(n, bits_at(ctx); 1 2 3 4 5 7 8 9 16 33 64 65 128)
}
fn c28_fields(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[4, 5, 6, 8, 9, 12, 18]);
    at_width!(n, fields_at(ctx); 4 5 6 8 9 12 18)
}

/// The bundled circuits have the stated interface wherever they are built.
fn c28_bundled(ctx: &mut Ctx) -> Res {
    type F = fn(&mut Nx) -> Result<(), BuildCircuitError>;
    let all: [(&str, usize, usize, F); 7] = [
        ("adder", 128, 64, build_adder64),
        ("subtracter", 128, 64, build_sub64),
        ("negation", 64, 64, build_neg64),
        ("multiplier", 128, 128, build_mult2_64),
        ("unsigned divider", 128, 64, build_divide_unsigned_64),
        ("divider", 128, 64, build_divide_signed_64),
        ("AES-128", 256, 128, circuit_converters::cryptography::build_aes128),
    ];
    let (name, i, o, f) = all[ctx.idx % 7];
    let (mut c, parent) = site(&mut ctx.rng)?;
    let mut s = Shape::of(&c)?;
    let p = parent.as_ref().map(Shape::of).transpose()?;
    for _ in 0..2 {
        let (i0, o0) = (s.ins.len(), s.outs.len());
        f(&mut c).map_err(es)?;
        let (ni, no) = s.now()?;
        check!(ni.len() == i0 + i && no.len() == o0 + o, "the {name} added {} inputs and {} outputs", ni.len() - i0, no.len() - o0);
        check!(ni[..i0] == s.ins[..] && no[..o0] == s.outs[..], "the {name} changed inputs or outputs that were there before");
        (s.ins, s.outs) = (ni, no);
        ctx.eval(1);
    }
    if let Some(p) = p {
        p.same("building in a sub-circuit")?;
    }
    ctx.distinct(ctx.idx as u64 % 7);
    Ok(())
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "random sequences of builder operations on circuit integers, bit vectors and field elements, and of the builders of modules and bundled circuits, in empty and filled circuits and sub-circuits; after each operation the complete lists of inputs and outputs are compared with the expected lists; non-trivial: distinct by width and sequence",
        assumptions: &["integers above width 257 and bit vectors above width 1030 are not built"],
        kinds: vec![kind("wide", 6, 72, c28_wide), kind("bundled", 14, 70, c28_bundled), kind("ints", 1500, 30_000, c28_ints), kind("bits", 1500, 30_000, c28_bits), kind("fields", 300, 6000, c28_fields)],
    }
}

// ---------------------------------------------------------------- C29

fn c29_case(ctx: &mut Ctx) -> Res {
    let mut c = new_circuit();
    let mut lib = Lib { progs: vec![Prog::default()] };
    let mut ids = vec![];
    if ctx.rng.chance(5, 6) {
        lib = gen_lib(&mut ctx.rng, &GenCfg::modular(4, 8, 2));
        let mode = gen_mode(&mut ctx.rng);
        let mut b = build(&lib, &mode)?;
        c = b.top();
        ids = b.vals.pop().unwrap();
    }
    let (i0, o0) = (c.input_len(), c.output_len());
    // Another handle of the same circuit.
    let mut keep = c.clone();
    let mut r = BristolNXAOReader::new();
    let mut failures = 0;
    let mut story: Vec<String> = vec![];
    // Successful reads in between add functions of their own.
    let mut parts: Vec<(BFile, usize, usize)> = vec![];
    let before: Vec<String> = ids.iter().map(|i| format!("{:?} {:?}", c.get_gate(i), c.get_depended_gates(i))).collect();
    for _ in 0..1 + ctx.rng.below(4) {
        let s0 = Shape::of(&c)?;
        let counts = [c.num_wire(), c.num_gate(), c.num_const()];
        let good = ctx.rng.chance(1, 4);
        let f = gen_file(&mut ctx.rng, 4, 12);
        let mut fault = None;
        let text = if good {
            layout(&mut ctx.rng, &f)
        } else if ctx.rng.chance(1, 3) {
            let t = layout(&mut ctx.rng, &f);
            fault = Some(ctx.rng.below(t.len()));
            t
        } else {
            bad_text(&mut ctx.rng)
        };
        story.push(format!("{:?} fault at {fault:?}", String::from_utf8_lossy(&text)));
        ctx.note = format!("{} then reading {story:?}", lib.text());
        let res = guarded(|| {
            let ch = chunks(&mut ctx.rng);
            let mut s = Source::new(&text, ch);
            if let Some(k) = fault {
                s.limit = k;
                s.kind = *ctx.rng.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::TimedOut]);
            }
            if ctx.rng.bit() {
                r.read(s, &mut c)
            } else {
                BristolNXAOReader::new().read(s, &mut c)
            }
        })?;
        ctx.eval(1);
        let (i, o) = s0.now()?;
        check!(i.len() >= s0.ins.len() && i[..s0.ins.len()] == s0.ins[..], "the inputs that the circuit had are not intact");
        check!(o.len() >= s0.outs.len() && o[..s0.outs.len()] == s0.outs[..], "the outputs that the circuit had are not intact");
        check!(
            c.num_wire() == c.input_len() + c.num_const() + c.num_gate() && c.num_wire() >= counts[0] && c.num_gate() >= counts[1] && c.num_const() >= counts[2],
            "{} wires, {} inputs, {} constants and {} gates after reading",
            c.num_wire(),
            c.input_len(),
            c.num_const(),
            c.num_gate()
        );
        let after: Vec<String> = ids.iter().map(|i| format!("{:?} {:?}", c.get_gate(i), c.get_depended_gates(i))).collect();
        check!(before == after, "gates that the circuit had are not intact");
        match res {
            Ok(()) if good => parts.push((f, s0.ins.len(), s0.outs.len())),
            Ok(()) => {}
            Err(e) if good => fail!("reading a valid file failed: {e:?}"),
            Err(_) => {
                failures += 1;
                ctx.count("failed reads", 1);
                // What is added through one handle shows through the other.
                let (a, b) = if ctx.rng.bit() { (&mut c, &mut keep) } else { (&mut keep, &mut c) };
                let k = a.input_len();
                let id = a.input().map_err(eb)?;
                check!(b.input_len() == k + 1, "an input added through one handle after a failed read does not show through another: {} instead of {}", b.input_len(), k + 1);
                check!(b.input_to_gate_id(&WireId(k as u64)).map_err(eb)? == Some(id), "an input added through one handle after a failed read is another gate through another");
                let nid = b.not(&id).map_err(eb)?;
                check!(a.get_gate(&nid).map(|g| g == b.get_gate(&nid).unwrap()).unwrap_or(false), "a gate added through one handle after a failed read does not show through another");
                if i.len() > s0.ins.len() {
                    ctx.count("failed reads after inputs were added", 1);
                }
            }
        }
    }
    if failures == 0 {
        return Ok(());
    }
    // The circuit is as usable as before: old and new functions, evaluation and export.
    let f = gen_file(&mut ctx.rng, 4, 12);
    let (i1, o1) = (c.input_len(), c.output_len());
    r.read(&layout(&mut ctx.rng, &f)[..], &mut c).map_err(|e| format!("reading a valid file {:?} after a failed read: {e:?}", f.text()))?;
    check!(c.input_len() == i1 + f.n_in() && c.output_len() == o1 + f.n_out(), "the file read after a failed read did not add its inputs and outputs");
    parts.push((f, i1, o1));
    let (inp, n) = lanes(&mut ctx.rng, c.input_len());
    let judge = |got: &[bool], l: usize, how: &str| -> Res {
        let bit = |v: &[u64]| -> Vec<bool> { v.iter().map(|x| (x >> l) & 1 == 1).collect() };
        let old = bit(&lib.eval_top(&inp[..i0]).outs);
        check!(got[..o0] == old[..], "{how}: the outputs there were before are {} instead of {}", bits_str(&got[..o0]), bits_str(&old));
        for (f, i, o) in &parts {
            let want = bit(&f.outputs(&inp[*i..i + f.n_in()]));
            check!(got[*o..o + f.n_out()] == want[..], "{how}: the file {:?} gives {} instead of {}", f.text(), bits_str(&got[*o..o + f.n_out()]), bits_str(&want));
        }
        Ok(())
    };
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for l in 0..n.min(3) {
        let got = ev.eval_output(&lane(&inp, l)).map_err(|e| format!("evaluation failed after a failed read: {e:?}"))?;
        check!(got.len() == c.output_len(), "{} results for {} outputs", got.len(), c.output_len());
        judge(&got, l, "evaluation")?;
        ctx.eval(1);
    }
    let w = write_real(&c, 0)?;
    let f = BFile::parse(&w.text)?;
    f.validate()?;
    let ins: Vec<u64> = inp.iter().copied().chain(w.consts.iter().map(|b| if *b { !0 } else { 0 })).collect();
    let outs = f.outputs(&ins);
    for l in [0, n - 1] {
        judge(&lane(&outs, l), l, "export")?;
    }
    ctx.distinct(crate::rng::hash_str(&format!("{story:?}")));
    ctx.sample(|| story.join(" then "));
    Ok(())
}

fn c29_reads(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        c29_case(ctx)?;
    }
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "malformed, truncated and mutated files and valid files whose source fails are read into filled circuits by fresh and reused readers, with valid files in between; after each failure the inputs, outputs, gates and dependents that the circuit had must be the same and the counters consistent, and at the end a valid file is read, and evaluation and export give the functions of the program and of every file that was read; non-trivial: at least one failed read, distinct by texts",
        assumptions: &["a failed read may leave inputs and gates of its own behind"],
        kinds: vec![kind("reads", 12_000, 400_000, c29_reads)],
    }
}
