//! C35: printing a value ends, fits its size and changes nothing.
use crate::alloc;
use crate::faults::Source;
use crate::model::*;
use crate::rng::hash_str;
use crate::runner::*;
use crate::util::*;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use std::fmt::{self, Debug, Write as _};
use std::io::BufWriter;

/// An ordinary thread stack.
const STACK: usize = 2 << 20;

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}

/// A text sink that counts, keeps a hash and takes no more than `left` bytes.
struct Text {
    left: usize,
    len: usize,
    hash: u64,
    refused: bool,
    after: usize,
}

impl Text {
    fn new(left: usize) -> Self {
        Text { left, len: 0, hash: 0xcbf29ce484222325, refused: false, after: 0 }
    }
}

impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.refused {
            self.after += 1;
        }
        if s.len() > self.left {
            self.refused = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.len += s.len();
        for b in s.bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// Limits in bytes per unit of size; the current code needs less than a quarter of them.
const PLAIN: usize = 800;
const PRETTY: usize = 4000;

/// Prints in both forms, twice, to a sink with room for `units`, and to one that is full at some point.
fn printed<T: Debug + ?Sized>(ctx: &mut Ctx, what: &str, x: &T, units: usize) -> Res {
    for pretty in [false, true] {
        let per = if pretty { PRETTY } else { PLAIN };
        let limit = per * (units + 16);
        let put = |t: &mut Text| if pretty { write!(t, "{x:#?}") } else { write!(t, "{x:?}") };
        let live = alloc::snap().live;
        let mut a = Text::new(limit);
        let r = put(&mut a);
        check!(!a.refused, "printing {what} of size {units} gave more than {limit} bytes");
        check!(r.is_ok(), "printing {what} failed");
        check!(a.len > 0, "printing {what} gave nothing");
        let mut b = Text::new(limit);
        check!(put(&mut b).is_ok() && b.len == a.len && b.hash == a.hash, "printing {what} twice gave different texts");
        let room = ctx.rng.below(a.len);
        let mut t = Text::new(room);
        check!(put(&mut t).is_err(), "printing {what} to a sink that is full after {room} of {} bytes is no error", a.len);
        check!(t.after == 0, "printing {what} went on after the sink had refused a piece");
        check!(alloc::snap().live == live, "printing {what} kept {} bytes", alloc::snap().live - live);
        ctx.eval(3);
        ctx.max(&format!("bytes per unit of size, {}", if pretty { "pretty" } else { "plain" }), (a.len / (units + 16)) as u64);
        ctx.max("bytes of a text", a.len as u64);
    }
    Ok(())
}

/// Displays to a sink with room enough, and to one that is full at some point.
fn displayed<T: fmt::Display + ?Sized>(ctx: &mut Ctx, what: &str, x: &T) -> Res {
    let live = alloc::snap().live;
    let mut a = Text::new(10_000);
    check!(write!(a, "{x}").is_ok(), "displaying {what} failed");
    check!(a.len > 0, "displaying {what} gave nothing");
    let room = ctx.rng.below(a.len);
    let mut t = Text::new(room);
    check!(write!(t, "{x}").is_err(), "displaying {what} to a sink that is full after {room} of {} bytes is no error", a.len);
    check!(t.after == 0, "displaying {what} went on after the sink had refused a piece");
    check!(alloc::snap().live == live, "displaying {what} kept {} bytes", alloc::snap().live - live);
    ctx.eval(2);
    Ok(())
}

/// Gates, uses, inputs and outputs of a circuit itself, without those of its modules.
fn own(p: &Prog, lib: &Lib) -> usize {
    let calls: usize = p
        .steps
        .iter()
        .map(|s| match s {
            // Each result of a call lists all operands, and each operand all results.
            Step::Call(m, _, args) => 2 * (1 + args.len()) * (1 + lib.progs[*m as usize].outs.len()),
            _ => 4,
        })
        .sum();
    4 + calls
}

/// Prints all the ways to see a circuit, also while it is borrowed.
fn circuit(ctx: &mut Ctx, c: &Nx, units: usize) -> Res {
    match ctx.rng.below(5) {
        0 => printed(ctx, "a handle", c, units),
        1 => printed(ctx, "a circuit", &*c.borrow(), units),
        2 => {
            let _b = c.borrow();
            printed(ctx, "a handle that is borrowed", c, units)
        }
        3 => {
            let _b = c.borrow_mut();
            printed(ctx, "a handle that is borrowed mutably", c, units)
        }
        _ => {
            let b = c.borrow_mut();
            printed(ctx, "a circuit that is borrowed mutably", &*b, units)
        }
    }
}

fn store(ctx: &mut Ctx, s: &Store, units: usize) -> Res {
    match ctx.rng.below(4) {
        0 => printed(ctx, "a handle of a storage", s, units),
        1 => printed(ctx, "a storage", &*s.borrow(), units),
        2 => {
            let _b = s.borrow();
            printed(ctx, "a handle of a storage that is borrowed", s, units)
        }
        _ => {
            let _b = s.borrow_mut();
            printed(ctx, "a handle of a storage that is borrowed mutably", s, units)
        }
    }
}

/// Evaluators, readers and writers of a circuit, before and after their work.
fn tools(ctx: &mut Ctx, c: &Nx, units: usize) -> Res {
    let bits: Vec<bool> = (0..c.input_len()).map(|_| ctx.rng.bit()).collect();
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    printed(ctx, "an evaluator", &ev, units)?;
    let want = ev.eval_output(&bits).map_err(|e| format!("evaluation failed: {e:?}"))?;
    printed(ctx, "an evaluator that was used", &ev, units)?;
    printed(ctx, "a clone of an evaluator", &ev.clone(), units)?;
    check!(ev.eval_output(&bits) .map_err(|e| format!("evaluation failed: {e:?}"))? == want, "the outputs are different after printing");
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    printed(ctx, "a writer", &w, units)?;
    let first = ctx.rng.below(c.input_len() + 1);
    w.write(first, None).map_err(|e| format!("writing failed: {e:?}"))?;
    let n = w.writer.buffer().len() + w.writer.get_ref().len();
    printed(ctx, "a writer that was used", &w, units + n)?;
    let text = w.writer.into_inner().map_err(|e| format!("{e:?}"))?;
    let again = write_real(c, first)?;
    // Gates are in the same order in both, as the writers see the same circuit.
    check!(text.len() == again.text.len(), "a file has another length after printing");
    let mut rd: BristolReader<NXAOBoolGate, NXAOBoolCircuit> = BristolReader::new();
    printed(ctx, "a reader", &rd, 1)?;
    let mut d = new_circuit();
    let cut = ctx.rng.below(text.len() + 1);
    let whole = ctx.rng.bit();
    let r = rd.read(if whole { &text[..] } else { &text[..cut] }, &mut d);
    if let Err(e) = &r {
        check!(!whole, "reading failed: {e:?}");
        printed(ctx, "an error of the reader", e, 4)?;
        check!(!e.to_string().is_empty(), "the error {e:?} has no message");
    }
    // The reader may keep what it has seen of the file.
    printed(ctx, "a reader that was used", &rd, 4 + text.len())?;
    printed(ctx, "a circuit that was read", &d, 4 + text.len())
}

/// Random circuits in every arrangement of storages, printed while they are built and afterwards.
fn c35_circuits(ctx: &mut Ctx) -> Res {
    let cfg = match ctx.rng.below(3) {
        0 => GenCfg::flat(6, 40),
        _ => GenCfg::modular(6, 25, 5),
    };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(&lib, &mode);
    let mut b = start_build(&lib, &mode);
    let all: Vec<usize> = lib.progs.iter().map(|p| own(p, &lib)).collect();
    for i in 0..lib.progs.len() {
        let mut err = None;
        let r = fill(&mut b, &lib, &mode, i, &mut |b, j, _| {
            if ctx.rng.below(8) == 0 {
                let k = if ctx.rng.bit() { j } else { ctx.rng.below(b.refs.len()) };
                let before = observe(&b.refs[k], &b.vals[k]);
                if let Err(e) = circuit(ctx, &b.refs[k], all[k]) {
                    err = Some(e);
                    return Err("printing".into());
                }
                if observe(&b.refs[k], &b.vals[k]) != before {
                    return Err("printing changed the circuit".into());
                }
            }
            Ok(())
        });
        match (err, r) {
            (Some(e), _) => return Err(e),
            (_, r) => r?,
        }
    }
    let before = observe_all(&b);
    let top = b.top();
    for k in 0..b.refs.len() {
        circuit(ctx, &b.refs[k], all[k])?;
        for id in b.vals[k].iter().take(5) {
            let g = b.refs[k].get_gate(id).map_err(|e| format!("{e:?}"))?;
            printed(ctx, "a gate", &g, 4 + g.input_len())?;
        }
        let s = b.refs[k].borrow().module_storage.clone();
        store(ctx, &s, all.iter().sum::<usize>() + 64)?;
    }
    tools(ctx, &top, *all.last().unwrap())?;
    check!(observe_all(&b) == before, "printing changed a circuit");
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp).outs;
    compare_eval(ctx, &top, &inp, n, &want, 4)?;
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| describe(&lib, &mode));
    Ok(())
}

/// Nested storages, storages of many modules, and long chains.
fn c35_large(ctx: &mut Ctx) -> Res {
    let big = if ctx.thorough() { 4 } else { 1 };
    let fam = ctx.idx % 5;
    ctx.note = format!("large family {fam}");
    let e = |e: BoolCircuitError| format!("building failed: {e:?}");
    let inverter = |c: &mut Nx| -> Result<(), BoolCircuitError> {
        let i = c.input()?;
        let o = c.not(&i)?;
        c.output(o).map(|_| ())
    };
    match fam {
        // each circuit in the storage of the next one
        0 | 1 => {
            let depth = 300;
            let mut c = new_circuit();
            inverter(&mut c).map_err(e)?;
            for k in 0..depth {
                let mut p = new_circuit();
                let i = p.input().map_err(e)?;
                let m = p.register_module(&c);
                if fam == 1 {
                    // and again, with one of its own beside it
                    p.register_module(&c);
                    let (_, mut s) = p.sub_circuit();
                    inverter(&mut s).map_err(e)?;
                }
                let r = p.module(&m, &[i]).map_err(e)?;
                p.output(r[0]).map_err(e)?;
                c = p;
                if k % 60 == 0 {
                    circuit(ctx, &c, 40)?;
                }
            }
            circuit(ctx, &c, 40)?;
            let s = c.borrow().module_storage.clone();
            store(ctx, &s, 200)?;
            tools(ctx, &c, 40)?;
        }
        // many modules in one storage, each with a handle of it
        2 => {
            let n = 3000 * big;
            let s = new_store();
            let mut all = Vec::new();
            let mut top: Nx = NXAOBoolCircuit::new(s.clone()).to_ref();
            let x = top.input().map_err(e)?;
            let mut acc = x;
            for k in 0..n {
                let (id, mut c) = top.sub_circuit();
                inverter(&mut c).map_err(e)?;
                if k > 0 && k % 10 == 0 {
                    let (j, _) = all[ctx.rng.below(all.len())];
                    c.module(&j, &[GateId(0)]).map_err(e)?;
                }
                if k % 100 == 0 {
                    acc = top.module(&id, &[acc]).map_err(e)?[0];
                }
                all.push((id, c));
            }
            top.output(acc).map_err(e)?;
            circuit(ctx, &top, 20 * n / 100 + 40)?;
            for _ in 0..5 {
                let k = ctx.rng.below(n);
                let c = all[k].1.clone();
                circuit(ctx, &c, 60)?;
            }
            store(ctx, &s, 40 * n)?;
            printed(ctx, "a storage", &*s.borrow(), 40 * n)?;
            tools(ctx, &top, 20 * n / 100 + 40)?;
        }
        // modules that are registered in each other's storage
        3 => {
            let mut a = new_circuit();
            let mut b = new_circuit();
            inverter(&mut a).map_err(e)?;
            let x = b.input().map_err(e)?;
            let m = b.register_module(&a);
            let r = b.module(&m, &[x]).map_err(e)?;
            b.output(r[0]).map_err(e)?;
            a.register_module(&b);
            let (_, c) = a.sub_circuit();
            for r in [&a, &b, &c] {
                circuit(ctx, r, 40)?;
                printed(ctx, "a handle", r, 40)?;
                let s = r.borrow().module_storage.clone();
                store(ctx, &s, 200)?;
            }
            tools(ctx, &a, 40)?;
            tools(ctx, &b, 40)?;
        }
        // a deep chain, and a gate that everything uses
        _ => {
            let n = 20_000 * big;
            let mut c = new_circuit();
            let x = c.input().map_err(e)?;
            let mut y = c.constant(ctx.rng.bit()).map_err(e)?;
            for _ in 0..n {
                y = match ctx.rng.below(3) {
                    0 => c.xor(&x, &y),
                    1 => c.and(&y, &x),
                    _ => c.or(&y, &y),
                }
                .map_err(e)?;
            }
            c.output(y).map_err(e)?;
            circuit(ctx, &c, 4 * n)?;
            tools(ctx, &c, 4 * n)?;
        }
    }
    ctx.distinct(fam as u64);
    Ok(())
}

/// Values and configurations of the builders.
fn values_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let mut c = new_circuit();
    if ctx.rng.bit() {
        let (_, s) = c.sub_circuit();
        c = s;
    }
    let size = |c: &Nx| 16 + 6 * (c.input_len() + c.output_len() + c.num_const() + c.borrow().gate_index);
    match ctx.idx % 3 {
        0 => {
            let cfg = AllocIntConfig::<_, _, N>::new(&c).map_err(es)?;
            printed(ctx, "an integer configuration", &cfg, size(&c) + 4 * N)?;
            let x = AllocInt::new(&cfg).map_err(es)?;
            let y = AllocInt::from_biguint(&BigUint::from(1u32), &cfg).map_err(es)?;
            let z = if ctx.rng.bit() { &x + &y } else { &x - &y };
            z.output().map_err(es)?;
            for v in [&x, &y, &z] {
                // with the uses of operands of calls
                printed(ctx, "an integer", v, size(&c) + 16 * N * N)?;
            }
            printed(ctx, "a clone of an integer configuration", &cfg.clone(), size(&c) + 16 * N * N)?;
        }
        1 => {
            let cfg = AllocBitsConfig::<_, _, N>::new(&c).map_err(es)?;
            printed(ctx, "a configuration of bit vectors", &cfg, size(&c) + 4 * N)?;
            let x = AllocBits::new(&cfg).map_err(es)?;
            let y = AllocBits::new(&cfg).map_err(es)?;
            let g = x.eq(&y).map_err(es)?;
            let z = x.mux(&y, &g).map_err(es)?;
            z.output().map_err(es)?;
            for v in [&x, &y, &z] {
                printed(ctx, "a bit vector", v, size(&c) + 16 * N * N)?;
            }
        }
        _ => {
            let p = BigUint::from((1u64 << (N - 3)) - 1 - (N == 7) as u64 * 2);
            let p = if N < 6 { BigUint::from(3u32) } else { p };
            let ic = AllocIntConfig::<_, _, N>::new(&c).map_err(es)?;
            let cfg = AllocFpConfig::<_, _, N>::new(&c, &ic, p.clone(), N - 3).map_err(es)?;
            printed(ctx, "a field configuration", &cfg, 4 * size(&c) + 16 * N)?;
            let x = AllocFp::new(&cfg).map_err(es)?;
            let y = AllocFp::one(&cfg).map_err(es)?;
            let z = &x + &y;
            z.output().map_err(es)?;
            for v in [&x, &y, &z] {
                printed(ctx, "a field element", v, 4 * size(&c) + 64 * N * N)?;
            }
        }
    }
    circuit(ctx, &c, size(&c) + 64 * N * N)?;
    let s = c.borrow().module_storage.clone();
    store(ctx, &s, 64 * size(&c) + 4000 * N * N)?;
    let bits: Vec<bool> = (0..c.input_len()).map(|_| ctx.rng.bit()).collect();
    eval_real(&c, &bits)?;
    ctx.distinct(hash_str(&ctx.note.clone()));
    Ok(())
}

fn c35_values(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[4usize, 5, 6, 8, 12, 18, 34]);
    ctx.note = format!("values {} at width {n}", ctx.idx % 3);
    crate::at_width!(n, values_at(ctx); 4 5 6 8 12 18 34)
}

/// Identifiers print as numbers, errors have one line.
fn c35_words(ctx: &mut Ctx) -> Res {
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(20) as u64,
        1 => u64::MAX - ctx.rng.below(3) as u64,
        2 => 1u64 << ctx.rng.below(64),
        _ => ctx.rng.u64(),
    };
    ctx.note = format!("identifiers {n}");
    for t in [GateId(n).to_string(), WireId(n).to_string(), ModuleId(n).to_string()] {
        check!(t == n.to_string(), "the identifier {n} prints as {t}");
    }
    displayed(ctx, "a gate identifier", &GateId(n))?;
    displayed(ctx, "a wire identifier", &WireId(n))?;
    displayed(ctx, "a module identifier", &ModuleId(n))?;
    printed(ctx, "an identifier", &(GateId(n), WireId(n), ModuleId(n)), 3)?;
    for t in [format!("{:?}", GateId(n)), format!("{:?}", WireId(n)), format!("{:?}", ModuleId(n))] {
        check!(t.contains(&n.to_string()), "the identifier {n} prints as {t}");
    }
    let mut c = new_circuit();
    let x = c.input().map_err(|e| format!("{e:?}"))?;
    let (a, b) = (GateId(n | 1 << 63), ModuleId(n | 1 << 63));
    let errs: Vec<BoolCircuitError> = vec![
        c.not(&a).map(|_| ()).unwrap_err(),
        c.output(a).map(|_| ()).unwrap_err(),
        c.module(&b, &[x]).map(|_| ()).unwrap_err(),
        c.get_module(&b).map(|_| ()).unwrap_err(),
        c.output_to_gate_id(&WireId(n)).map(|_| ()).unwrap_err(),
    ];
    for e in errs {
        let (d, m) = (format!("{e:?}"), e.to_string());
        check!(!d.is_empty() && !m.trim().is_empty() && m.len() < 400 && d.len() < 400, "the error {d} prints as {m:?}");
        printed(ctx, "an error", &e, 4)?;
        displayed(ctx, "an error", &e)?;
    }
    let mut rd: BristolReader<NXAOBoolGate, NXAOBoolCircuit> = BristolReader::new();
    let text = format!("1 2\n1 1\n1 1\n\n1 1 {n} 1 INV\n");
    if n != 0 {
        match rd.read(&text.as_bytes()[..], &mut new_circuit()) {
            Ok(_) => fail!("a wire that is never assigned was read"),
            Err(e) => {
                printed(ctx, "an error", &e, 4)?;
                displayed(ctx, "an error", &e)?;
            }
        }
    }
    let mut d = new_circuit();
    let r = rd.read(Source::new(text.as_bytes(), vec![1 + ctx.rng.below(4)]), &mut d);
    if let Err(e) = r {
        printed(ctx, "an error", &e, 4)?;
        displayed(ctx, "an error", &e)?;
        check!(!e.to_string().trim().is_empty(), "the error {e:?} has no message");
    }
    ctx.distinct(n);
    Ok(())
}

pub fn c35() -> Prop {
    let k = |name, q, t, f| Kind { name, quick: q, thorough: t, cpu_s: 60, stack: STACK, f };
    Prop {
        id: "C35",
        rule: "circuits, handles, storages, gates, evaluators, readers, writers, errors, values and configurations are printed in both debug forms, at random points of their lives and while they are borrowed, on a thread with a 2 MB stack, to a sink that counts and to sinks that refuse to take more; texts are bounded in the size of the value, equal when printed again, keep no memory and leave every observation of the circuit as it was; non-trivial: distinct programs",
        assumptions: &["a text has a few hundred bytes per gate, so that only texts several times as long as now are too long"],
        kinds: vec![k("large", 10, 100, c35_large), k("circuits", 150, 6000, c35_circuits), k("values", 42, 420, c35_values), k("words", 200, 4000, c35_words)],
    }
}
