//! C22: equality and clones. C23: memory. C24: reproducibility.
use crate::alloc;
use crate::faults::Sink;
use crate::model::*;
use crate::rng::{hash_str, mix, Rng};
use crate::runner::*;
use crate::util::*;
use crate::check;
use circuit_converters::*;
use std::collections::HashMap;
use std::io::BufWriter;

// ---------------------------------------------------------------- C22

fn eq_both(a: &Nx, b: &Nx) -> Result<bool, String> {
    let r = [a == b, b == a, *a.borrow() == *b.borrow(), *b.borrow() == *a.borrow(), !(a != b), !(*b.borrow() != *a.borrow())];
    if r.iter().any(|x| *x != r[0]) {
        return Err(format!("comparison is not symmetric or depends on the way of asking: {r:?}"));
    }
    Ok(r[0])
}

/// One small change to the steps of one of the programs; the programs keep their interfaces.
fn mutate(rng: &mut Rng, lib: &Lib) -> Lib {
    let mut l = lib.clone();
    let pi = if rng.bit() { l.progs.len() - 1 } else { rng.below(l.progs.len()) };
    match rng.below(8) {
        // Calls of two programs with the same interface change places.
        0 if pi > 0 => {
            for s in l.progs[pi].steps.iter_mut() {
                if let Step::Call(m, _, args) = s {
                    let same: Vec<u32> = (0..pi as u32)
                        .filter(|j| lib.progs[*j as usize].n_in == args.len() && lib.progs[*j as usize].outs.len() == lib.progs[*m as usize].outs.len())
                        .collect();
                    *m = *rng.pick(&same);
                }
            }
            return l;
        }
        // An output names another value.
        1 => {
            let p = &mut l.progs[pi];
            let mut defined = 0u32;
            let mut k = 0;
            for s in p.steps.iter_mut() {
                match s {
                    Step::Out(v) => {
                        if rng.chance(1, 2) && defined > 0 {
                            *v = rng.below(defined as usize) as u32;
                        }
                        p.outs[k] = *v;
                        k += 1;
                    }
                    Step::Call(m, _, _) => defined += lib.progs[*m as usize].outs.len() as u32,
                    _ => defined += 1,
                }
            }
            return l;
        }
        _ => (),
    }
    let p = &mut l.progs[pi];
    if p.steps.is_empty() {
        return l;
    }
    // The step that changes, and how many values exist before it.
    let target = rng.below(p.steps.len());
    let mut defined = 0usize;
    for s in &p.steps[..target] {
        defined += match s {
            Step::Out(_) => 0,
            Step::Call(m, _, _) => lib.progs[*m as usize].outs.len(),
            _ => 1,
        };
    }
    let any = |rng: &mut Rng| rng.below(defined.max(1)) as u32;
    let s = &mut p.steps[target];
    *s = match s.clone() {
        Step::Const(b) => Step::Const(!b),
        Step::Not(a) => {
            if rng.bit() {
                Step::Ident(a)
            } else {
                Step::Not(any(rng))
            }
        }
        Step::Ident(a) => {
            if rng.bit() {
                Step::Not(a)
            } else {
                Step::Ident(any(rng))
            }
        }
        Step::Xor(a, b) | Step::And(a, b) | Step::Or(a, b) | Step::Eqv(a, b) => {
            let (a, b) = match rng.below(4) {
                0 => (any(rng), b),
                1 => (a, any(rng)),
                2 => (b, a),
                _ => (a, b),
            };
            match rng.below(4) {
                0 => Step::Xor(a, b),
                1 => Step::And(a, b),
                2 => Step::Or(a, b),
                _ => Step::Eqv(a, b),
            }
        }
        Step::Call(m, al, mut args) => {
            if !args.is_empty() {
                let (i, j) = (rng.below(args.len()), rng.below(args.len()));
                if rng.bit() {
                    args.swap(i, j);
                } else {
                    args[i] = any(rng);
                }
            }
            Step::Call(m, al, args)
        }
        s => s,
    };
    l
}

fn functions_differ(rng: &mut Rng, a: &Lib, b: &Lib) -> bool {
    for _ in 0..3 {
        let (inp, n) = lanes(rng, a.top().n_in);
        let m = if n == 64 { !0 } else { (1u64 << n) - 1 };
        let (x, y) = (a.eval_top(&inp).outs, b.eval_top(&inp).outs);
        if x.iter().zip(&y).any(|(x, y)| (x ^ y) & m != 0) {
            return true;
        }
        if a.top().n_in <= 6 {
            return false;
        }
    }
    false
}

fn c22_pairs(ctx: &mut Ctx) -> Res {
    let cfg = match ctx.rng.below(20) {
        // Beyond the first 64, 256 or 1024 gates.
        0 => GenCfg { max_outs: 60, ..GenCfg::flat(12, *ctx.rng.pick(&[150, 400, 1500])) },
        1 => GenCfg { max_outs: 40, ..GenCfg::modular(9, 150, 3) },
        2..=10 => GenCfg::modular(6, 16, 3),
        _ => GenCfg::flat(6, 20),
    };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(&lib, &mode);
    let (b1, b2) = (build(&lib, &mode)?, build(&lib, &mode)?);
    for i in 0..lib.progs.len() {
        check!(eq_both(&b1.refs[i], &b1.refs[i].clone())?, "circuit {i} does not equal itself");
        check!(eq_both(&b1.refs[i], &b2.refs[i])?, "circuit {i} does not equal one built by the same steps");
        ctx.eval(2);
    }
    // Interchangeable: the same answers.
    check!(observe_all(&b1) == observe_all(&b2), "equal circuits answer queries differently");
    for _ in 0..if cfg.max_outs >= 40 { 12 } else { 4 } {
        let other = mutate(&mut ctx.rng, &lib);
        let differ = functions_differ(&mut ctx.rng, &lib, &other);
        // Also against a build in another arrangement of storages.
        let m2 = if ctx.rng.chance(3, 4) { mode.clone() } else { gen_mode(&mut ctx.rng) };
        let b3 = build(&other, &m2)?;
        let same = eq_both(&b1.top(), &b3.top())?;
        ctx.eval(1);
        if differ {
            check!(!same, "two circuits with different functions compare equal; the other one is {}", describe(&other, &m2));
            ctx.count("pairs of different functions told apart", 1);
            ctx.distinct(lib.fingerprint() ^ other.fingerprint().rotate_left(7));
        } else {
            ctx.count("pairs of equal functions", 1);
        }
        if same {
            // Equal circuits are interchangeable.
            let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
            let l = ctx.rng.below(n);
            check!(eval_real(&b1.top(), &lane(&inp, l))? == eval_real(&b3.top(), &lane(&inp, l))?, "equal circuits evaluate differently");
            ctx.count("pairs that compared equal after a change", (other.fingerprint() != lib.fingerprint()) as u64);
        }
    }
    ctx.sample(|| lib.text());
    Ok(())
}

/// Modules registered in other orders, so that the callers hold the same module numbers for other modules,
/// also below further levels of modules.
fn c22_swapped(ctx: &mut Ctx) -> Res {
    let n_in = 1 + ctx.rng.below(3);
    let n_out = 1 + ctx.rng.below(2);
    let leaf = |rng: &mut Rng| loop {
        let mut l = gen_lib(rng, &GenCfg { max_outs: 2, ..GenCfg::flat(3, 8) });
        let p = l.progs.remove(0);
        if p.n_in == n_in && p.outs.len() == n_out {
            return p;
        }
    };
    let (p, q) = (leaf(&mut ctx.rng), leaf(&mut ctx.rng));
    let levels = ctx.rng.below(3);
    let shared = ctx.rng.bit();
    let both = ctx.rng.bit();
    let tops: Vec<Nx> = [true, false]
        .iter()
        .map(|swap| -> Result<Nx, String> {
            let e = |e: BoolCircuitError| format!("building failed: {e:?}");
            let store = new_store();
            let new = || if shared { NXAOBoolCircuit::new(store.clone()).to_ref() } else { new_circuit() };
            let fill = |p: &Prog| -> Result<Nx, String> {
                let mut c = new();
                let mut v = vec![];
                for s in &p.steps {
                    apply_ref(&mut c, s, &mut v, None).map_err(e)?;
                }
                Ok(c)
            };
            let (cp, cq) = (fill(&p)?, fill(&q)?);
            let mut inner: Option<Nx> = None;
            for level in 0..=levels {
                let mut c = new();
                let mut args: Vec<GateId> = (0..n_in).map(|_| c.input()).collect::<Result<_, _>>().map_err(e)?;
                let mids = match (&inner, *swap) {
                    (Some(i), _) => vec![c.register_module(i)],
                    (None, false) => vec![c.register_module(&cp), c.register_module(&cq)],
                    (None, true) => {
                        let b = c.register_module(&cq);
                        vec![b, c.register_module(&cp)]
                    }
                };
                let k = if both && level == 0 { 2 } else { 1 };
                for m in mids.iter().take(k) {
                    let r = c.module(m, &args).map_err(e)?;
                    for x in &r {
                        c.output(*x).map_err(e)?;
                    }
                    for (i, x) in r.iter().enumerate() {
                        if i < args.len() && level > 0 {
                            args[i] = *x;
                        }
                    }
                }
                // Callers further up need the same number of results.
                if k == 2 {
                    inner = Some(c);
                    continue;
                }
                inner = Some(c);
            }
            Ok(inner.unwrap())
        })
        .collect::<Result<_, _>>()?;
    let (a, b) = (&tops[0], &tops[1]);
    check!(a.input_len() == b.input_len() && a.output_len() == b.output_len(), "the interfaces differ");
    let (inp, n) = lanes(&mut ctx.rng, n_in);
    let mut differ = None;
    for l in 0..n {
        let (x, y) = (eval_real(a, &lane(&inp, l))?, eval_real(b, &lane(&inp, l))?);
        ctx.eval(1);
        if x != y {
            differ = Some(bits_str(&lane(&inp, l)));
        }
    }
    let same = eq_both(a, b)?;
    if let Some(d) = differ {
        check!(!same, "circuits whose called modules {p:?} and {q:?} change places compare equal but differ on {d} ({levels} levels above, shared storage {shared})");
        ctx.count("callers told apart", 1);
        let mut f = crate::rng::Fp::new();
        f.add(hash_str(&format!("{p:?}{q:?}")));
        f.add(levels as u64);
        ctx.distinct(f.0);
    }
    check!(eq_both(a, &a.clone())? && eq_both(b, b)?, "a circuit does not equal itself");
    ctx.sample(|| format!("modules {p:?} and {q:?}, {levels} levels"));
    Ok(())
}

/// A random step for a circuit with the given values, which calls no module.
fn random_step(rng: &mut Rng, n_vals: usize) -> Step {
    if n_vals == 0 {
        return if rng.bit() { Step::Input } else { Step::Const(rng.bit()) };
    }
    let (a, b) = (rng.below(n_vals) as u32, rng.below(n_vals) as u32);
    match rng.below(9) {
        0 => Step::Input,
        1 => Step::Const(rng.bit()),
        2 => Step::Not(a),
        3 => Step::Xor(a, b),
        4 => Step::And(a, b),
        5 => Step::Or(a, b),
        6 => Step::Eqv(a, b),
        _ => Step::Out(a),
    }
}

fn c22_clones(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.bit() { GenCfg::modular(5, 14, 2) } else { GenCfg::flat(5, 16) };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(&lib, &mode);
    let b = build(&lib, &mode)?;
    let n = lib.progs.len() - 1;
    let orig = b.top();
    let handle = orig.clone();
    let copy = {
        let c: NXAOBoolCircuit = (*orig.borrow()).clone();
        c.to_ref()
    };
    check!(eq_both(&orig, &copy)?, "a cloned circuit does not equal the original");
    check!(eq_both(&orig, &handle)?, "a cloned handle does not equal the original");
    // The modules that both of them can call.
    let mut called: Vec<(usize, u32, ModuleId)> = b.mids.iter().filter(|((sid, _, _), _)| *sid == b.sid[n]).map(|((_, m, al), id)| (*m, *al, *id)).collect();
    called.sort_by_key(|(m, al, _)| (*m, *al));
    // Ids of everything either of them can know.
    let mut ids = b.vals[n].clone();
    let mut log: [Vec<Step>; 2] = [vec![], vec![]];
    let mut vals = [b.vals[n].clone(), b.vals[n].clone()];
    let mut cs = [orig.clone(), copy.clone()];
    for _ in 0..2 + ctx.rng.below(10) {
        let k = ctx.rng.below(2);
        let mut s = random_step(&mut ctx.rng, vals[k].len());
        let mut mid = None;
        if !called.is_empty() && !vals[k].is_empty() && ctx.rng.chance(1, 4) {
            let (m, al, id) = *ctx.rng.pick(&called);
            let n_args = lib.progs[m].n_in;
            s = Step::Call(m as u32, al, (0..n_args).map(|_| ctx.rng.below(vals[k].len()) as u32).collect());
            mid = Some(id);
            ctx.count("module calls on either side", 1);
        }
        let before = observe(&cs[1 - k], &ids);
        if k == 0 && ctx.rng.bit() {
            // Through the other handle of the original.
            let mut h = handle.clone();
            apply_ref(&mut h, &s, &mut vals[0], mid).map_err(|e| format!("{e:?}"))?;
        } else {
            apply_ref(&mut cs[k], &s, &mut vals[k], mid).map_err(|e| format!("{e:?}"))?;
        }
        log[k].push(s.clone());
        let after = observe(&cs[1 - k], &ids);
        check!(before == after, "step {s:?} on {} shows in {}", ["the original", "the clone"][k], ["the clone", "the original"][k]);
        ids = vals[0].iter().chain(&vals[1]).copied().collect();
        check!(eq_both(&orig, &handle)?, "a cloned handle differs from the original after {s:?}");
        ctx.eval(1);
        ctx.count("steps on either side", 1);
    }
    // Each side is what its own steps say.
    for k in 0..2 {
        let mut l2 = lib.clone();
        let done = l2.progs[..n].to_vec();
        for s in &log[k] {
            l2.progs[n].push(s.clone(), &done);
        }
        let (inp, m) = lanes(&mut ctx.rng, l2.top().n_in);
        let want = l2.eval_top(&inp).outs;
        compare_eval(ctx, &cs[k], &inp, m, &want, 4)?;
        let fresh = build(&l2, &mode)?;
        // Steps made later are the same steps.
        check!(eq_both(&fresh.top(), &cs[k])?, "{} does not equal a circuit built by the same steps", ["the original", "the clone"][k]);
        check!(observe(&fresh.top(), &fresh.vals[n]) == observe(&cs[k], &vals[k]), "{} answers queries differently from a circuit built by the same steps", ["the original", "the clone"][k]);
    }
    // The same steps on both sides make them equal again.
    let (l0, l1) = (log[0].clone(), log[1].clone());
    if l0.is_empty() || l1.is_empty() {
        let (from, to) = if l0.is_empty() { (1, 0) } else { (0, 1) };
        for s in &log[from].clone() {
            let mid = match s {
                Step::Call(m, al, _) => b.mids.get(&(b.sid[n], *m as usize, *al)).copied(),
                _ => None,
            };
            apply_ref(&mut cs[to], s, &mut vals[to], mid).map_err(|e| format!("{e:?}"))?;
        }
        check!(eq_both(&cs[0], &cs[1])?, "the same steps on the original and the clone gave circuits that differ");
        ctx.count("pairs that caught up", 1);
    }
    ctx.distinct(lib.fingerprint() ^ mix(log[0].len() as u64 * 100 + log[1].len() as u64));
    ctx.sample(|| format!("{}; then on the original {:?} and on the clone {:?}", lib.text(), log[0], log[1]));
    Ok(())
}

/// Two handles to one circuit, used in turn, are the circuit that one handle would have built.
fn c22_handles(ctx: &mut Ctx) -> Res {
    let mut hs = vec![new_circuit()];
    let mut plain = new_circuit();
    let (mut v, mut w) = (vec![], vec![]);
    let mut steps = vec![];
    for _ in 0..5 + ctx.rng.below(30) {
        if hs.len() < 4 && ctx.rng.chance(1, 5) {
            let h = ctx.rng.pick(&hs).clone();
            hs.push(h);
        }
        if hs.len() > 1 && ctx.rng.chance(1, 12) {
            let i = ctx.rng.below(hs.len());
            hs.swap_remove(i);
        }
        let s = random_step(&mut ctx.rng, v.len());
        let i = ctx.rng.below(hs.len());
        apply_ref(&mut hs[i], &s, &mut v, None).map_err(|e| format!("{e:?}"))?;
        apply_ref(&mut plain, &s, &mut w, None).map_err(|e| format!("{e:?}"))?;
        steps.push(s);
        for h in &hs {
            check!(eq_both(h, &plain)?, "a handle differs from the circuit after {steps:?}");
            ctx.eval(1);
        }
    }
    let a = observe(&plain, &w);
    for h in &hs {
        check!(observe(h, &v) == a, "a handle answers differently after {steps:?}");
    }
    ctx.distinct(hash_str(&format!("{steps:?}")));
    ctx.sample(|| format!("{} handles, {steps:?}", hs.len()));
    Ok(())
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "random programs built twice must compare equal, and unequal to a program with one step changed whenever an interpreter finds an input on which the functions differ, in every storage arrangement and with module numbers that stand for other modules; clones and their originals are extended in turn and each is compared with a circuit built from its own steps only; non-trivial: distinct pairs of different functions, or histories",
        assumptions: &["the number of inputs that decide whether two functions differ is limited to 64 when there are more than 6 inputs"],
        kinds: vec![kind("pairs", 16_000, 300_000, c22_pairs), kind("swapped", 4000, 60_000, c22_swapped), kind("clones", 3000, 60_000, c22_clones), kind("handles", 2000, 30_000, c22_handles)],
    }
}

// ---------------------------------------------------------------- C23

fn live() -> i64 {
    alloc::snap().live
}

/// Live bytes that remain after the closure and everything it made are dropped.
fn balance(f: &mut dyn FnMut() -> Result<(), String>) -> Result<i64, String> {
    let a = live();
    f()?;
    Ok(live() - a)
}

/// All the work of one circuit: repeated evaluations, exports and imports, successful or not.
fn exercise(rng: &mut Rng, c: &Nx, first: usize, log: &mut Vec<(String, i64)>) -> Result<(), String> {
    let n = c.input_len();
    let bits = rng.bits(n);
    let more = n + 1 + rng.below(3);
    let bad = rng.bits(more);
    let text = write_real(c, first)?.text;
    let limit = rng.below(text.len().max(1));
    let cut = rng.below(text.len().max(1));
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut rd = BristolNXAOReader::new();
    let mut wr = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(64, std::io::sink()));
    // The first round is a warm-up for the objects that are used again.
    for round in 0..4 {
        let mut note = |what: &str, f: &mut dyn FnMut() -> Result<(), String>, reused: bool| -> Result<(), String> {
            let d = balance(f)?;
            if d != 0 && !(reused && round == 0) {
                log.push((format!("{what}, round {round}"), d));
            }
            Ok(())
        };
        note("evaluation by a fresh evaluator", &mut || eval_real(c, &bits).map(|_| ()), false)?;
        note("evaluation by an evaluator used again", &mut || ev.eval_output(&bits).map(|_| ()).map_err(|e| format!("{e:?}")), true)?;
        note("evaluation of a wrong number of inputs", &mut || ev.eval_output(&bad).map_or(Ok(()), |_| Err("accepted".into())), true)?;
        note("export by a fresh writer", &mut || write_real(c, first).map(|_| ()), false)?;
        note("export by a writer used again", &mut || wr.write(first, None).map(|_| ()).map_err(|e| format!("{e:?}")), true)?;
        note(
            "export to a sink that fails",
            &mut || {
                let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(16, Sink::failing(limit)));
                let mut m = HashMap::new();
                let _ = w.write(first, Some(&mut m));
                let _ = w.writer.into_parts();
                Ok(())
            },
            false,
        )?;
        note("import by a fresh reader", &mut || read_real(&text).map(|_| ()), false)?;
        note(
            "import by a reader used again",
            &mut || {
                let mut r = new_circuit();
                rd.read(&text[..], &mut r).map_err(|e| format!("{e:?}"))
            },
            true,
        )?;
        note(
            "import of a file that is cut off",
            &mut || {
                let mut r = new_circuit();
                let _ = BristolNXAOReader::new().read(&text[..cut], &mut r);
                Ok(())
            },
            false,
        )?;
    }
    Ok(())
}

fn c23_work(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.bit() { GenCfg::modular(6, 16, 3) } else { GenCfg::flat(7, 40) };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(&lib, &mode);
    let b = build(&lib, &mode)?;
    let c = b.top();
    let first = random_first(&mut ctx.rng, c.input_len() + c.num_const());
    let mut log = Vec::with_capacity(256);
    let mut rng = Rng::new(ctx.rng.u64());
    exercise(&mut rng, &c, first, &mut log)?;
    check!(log.is_empty(), "bytes retained: {log:?}");
    ctx.eval(36);
    ctx.count("calls whose memory was balanced", 36);
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| lib.text());
    Ok(())
}

/// Many repetitions on one circuit, so that growth in rare steps shows.
fn c23_repeat(ctx: &mut Ctx) -> Res {
    let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(6, 16, 3));
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(&lib, &mode);
    let b = build(&lib, &mode)?;
    let c = b.top();
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut rd = BristolNXAOReader::new();
    let mut wr = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(64, std::io::sink()));
    let text = write_real(&c, 0)?.text;
    let n = if ctx.thorough() { 400 } else { 60 };
    let mut at = vec![];
    at.reserve(n);
    for _ in 0..n {
        let bits = ctx.rng.bits(c.input_len());
        ev.eval_output(&bits).map_err(|e| format!("{e:?}"))?;
        wr.write(0, None).map_err(|e| format!("{e:?}"))?;
        let mut r = new_circuit();
        rd.read(&text[..], &mut r).map_err(|e| format!("{e:?}"))?;
        drop(r);
        drop(bits);
        at.push(live());
        ctx.eval(3);
    }
    check!(at[n - 1] == at[1], "{} bytes more after {n} rounds of evaluation, export and import than after 2", at[n - 1] - at[1]);
    ctx.count("rounds on one circuit", n as u64);
    ctx.distinct(lib.fingerprint());
    Ok(())
}

/// Files in every layout, and malformed ones, keep nothing when they were read.
fn c23_files(ctx: &mut Ctx) -> Res {
    use super::bristol::*;
    for _ in 0..4 {
        let bad = ctx.rng.chance(1, 3);
        let text = if bad {
            bad_text(&mut ctx.rng)
        } else {
            let f = gen_file(&mut ctx.rng, 6, 30);
            layout(&mut ctx.rng, &f)
        };
        ctx.note = format!("text {:?}", String::from_utf8_lossy(&text));
        let mut d = vec![0; 4];
        let mut rd = BristolNXAOReader::new();
        for round in 0..4 {
            let a = live();
            let ok = {
                let mut c = new_circuit();
                let r = if round % 2 == 0 { BristolNXAOReader::new().read(&text[..], &mut c) } else { rd.read(&text[..], &mut c) };
                r.is_ok()
            };
            // The reader that is used again may keep buffers of its first call.
            d[round] = if round == 1 { 0 } else { live() - a };
            check!(ok || bad, "a valid file was rejected");
            ctx.eval(1);
        }
        check!(d.iter().all(|x| *x == 0), "reading left {d:?} bytes");
        ctx.distinct(hash_str(&ctx.note));
    }
    Ok(())
}

/// Calls of modules that got further inputs or outputs after they were called: whatever evaluation and export
/// make of them, error or not, they retain nothing.
fn c23_broken(ctx: &mut Ctx) -> Res {
    let mut lib = gen_lib(&mut ctx.rng, &GenCfg::modular(6, 16, 3));
    while lib.progs.len() == 1 {
        lib = gen_lib(&mut ctx.rng, &GenCfg::modular(6, 16, 3));
    }
    let mode = gen_mode(&mut ctx.rng);
    let mut b = build(&lib, &mode)?;
    let c = b.top();
    let n = lib.progs.len() - 1;
    let mut changed = vec![];
    for _ in 0..1 + ctx.rng.below(2) {
        let i = ctx.rng.below(n);
        let more_in = ctx.rng.chance(3, 4);
        let e = |e: BoolCircuitError| format!("{e:?}");
        if more_in || b.vals[i].is_empty() {
            b.refs[i].input().map_err(e)?;
        } else {
            let v = *ctx.rng.pick(&b.vals[i]);
            b.refs[i].output(v).map_err(e)?;
        }
        changed.push((i, more_in));
    }
    ctx.note = format!("{}; then further inputs (true) or outputs (false) of modules {changed:?}", describe(&lib, &mode));
    let bits = ctx.rng.bits(c.input_len());
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let mut wr = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(64, std::io::sink()));
    let mut log = Vec::with_capacity(64);
    for round in 0..4 {
        let mut errors = 0;
        let mut calls: [(&str, bool, &mut dyn FnMut() -> bool); 4] = [
            ("evaluation by a fresh evaluator", false, &mut || NXAOBoolEvaluator::new(c.clone()).eval_output(&bits).is_err()),
            ("evaluation by an evaluator used again", true, &mut || ev.eval_output(&bits).is_err()),
            ("export by a fresh writer", false, &mut || BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(64, std::io::sink())).write(0, None).is_err()),
            ("export by a writer used again", true, &mut || wr.write(0, None).is_err()),
        ];
        for (what, reused, f) in calls.iter_mut() {
            let a = live();
            errors += f() as u64;
            let d = live() - a;
            if d != 0 && !(*reused && round == 0) {
                log.push((*what, round, d));
            }
        }
        ctx.count("calls that failed", errors);
        ctx.eval(4);
    }
    check!(log.is_empty(), "bytes retained: {log:?}");
    ctx.distinct(lib.fingerprint());
    Ok(())
}

/// Everything is released with the last handle when no module shares the storage it is registered in.
fn c23_drop(ctx: &mut Ctx) -> Res {
    let modular = ctx.rng.bit();
    let lib = gen_lib(&mut ctx.rng, &if modular { GenCfg::modular(6, 16, 3) } else { GenCfg::flat(7, 40) });
    let mode = BuildMode { storage: if lib.progs.len() == 1 { ctx.rng.below(2) } else { 1 }, ..gen_mode(&mut ctx.rng) };
    ctx.note = describe(&lib, &mode);
    let seed = ctx.rng.u64();
    let mut peak = 0;
    let start = live();
    let mut run = || -> Result<(), String> {
        let b = build(&lib, &mode)?;
        let mut rng = Rng::new(seed);
        let c = b.top();
        let first = random_first(&mut rng, c.input_len() + c.num_const());
        let copy = { (*c.borrow()).clone().to_ref() };
        let h = c.clone();
        exercise(&mut rng, &c, first, &mut vec![])?;
        let w = write_real(&copy, first)?;
        let r = read_real(&w.text)?;
        if !(h == copy) || r.input_len() != c.input_len() + w.consts.len() {
            return Err("the copies differ".into());
        }
        // Drop in some order.
        let mut all = vec![c, copy, h, r];
        all.extend(b.refs.iter().cloned());
        drop(b);
        rng.shuffle(&mut all);
        peak = live() - start;
        while let Some(x) = all.pop() {
            drop(x);
        }
        Ok(())
    };
    let d = balance(&mut run)?;
    check!(d == 0, "{d} bytes remain after the last handle was dropped, of {peak} at the peak");
    ctx.eval(1);
    ctx.count("circuits dropped", 1);
    ctx.max("live bytes before the drop", peak as u64);
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| lib.text());
    Ok(())
}

/// Modules that share the storage in which they are registered keep it, and themselves, alive: a known finding.
/// What remains must be just that: as much as the same modules leave behind without any other work.
fn c23_shared(ctx: &mut Ctx) -> Res {
    let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(5, 12, 3));
    let mode = BuildMode { storage: *ctx.rng.pick(&[0, 2]), direct: false, seed: ctx.rng.u64() };
    ctx.note = describe(&lib, &mode);
    let seed = ctx.rng.u64();
    let n = lib.progs.len() - 1;
    // The modules alone, registered as often as the circuit registers them.
    let mut bare = || -> Result<(), String> {
        let mut b = start_build(&lib, &mode);
        for i in 0..n {
            fill(&mut b, &lib, &mode, i, &mut |_, _, _| Ok(()))?;
        }
        for s in &lib.progs[n].steps {
            if let Step::Call(m, alias, _) = s {
                module_id(&mut b, n, *m as usize, *alias);
            }
        }
        Ok(())
    };
    bare()?;
    let alone = balance(&mut bare)?;
    let mut full = || -> Result<(), String> {
        let b = build(&lib, &mode)?;
        let mut rng = Rng::new(seed);
        let c = b.top();
        let first = random_first(&mut rng, c.input_len() + c.num_const());
        let copy = { (*c.borrow()).clone().to_ref() };
        exercise(&mut rng, &c, first, &mut vec![])?;
        if !(c == copy) {
            return Err("the copy differs".into());
        }
        Ok(())
    };
    full()?;
    let d = balance(&mut full)?;
    ctx.eval(2);
    ctx.distinct(lib.fingerprint());
    check!(d == alone, "{d} bytes remain after the last handle was dropped, {alone} of them for the modules in their own storage (known finding)");
    if d != 0 {
        ctx.count("bytes left by modules in their own storage (known finding)", d as u64);
        return Err(Fail::Known("module-in-its-own-storage-is-never-freed", format!("{d} bytes remain")));
    }
    Ok(())
}

/// The builders of integers and fields, and the bundled circuits, leave nothing of the work on them behind.
fn c23_builders(ctx: &mut Ctx) -> Res {
    use circuit_converters::arithmetic::*;
    let which = ctx.idx % 7;
    let rounds = 3;
    let mut d = vec![];
    for _ in 0..rounds {
        d.push(balance(&mut || {
            let mut c = new_circuit();
            super::bundled::bundle(which, &mut c)?;
            let bits = vec![true; c.input_len()];
            eval_real(&c, &bits).map(|_| ())?;
            write_real(&c, 0).map(|_| ())
        })?);
    }
    check!(d.iter().all(|x| *x == 0), "building, evaluating and writing bundled circuit {which} left {d:?} bytes");
    ctx.eval(rounds);
    // Work with integers: a second value and its evaluation keep nothing once the circuit has its gates.
    let c = new_circuit();
    let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, 8>::new(&c).map_err(|e| format!("{e:?}"))?;
    let d = balance(&mut || {
        let _ = (cfg.clone(), c.clone());
        Ok(())
    })?;
    check!(d == 0, "cloning and dropping a configuration left {d} bytes");
    ctx.distinct(which as u64);
    ctx.count("bundled circuits built, used and dropped", rounds);
    ctx.sample(|| format!("bundled circuit {which}, {rounds} times"));
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "a counting allocator balances the live bytes around every evaluation, export and import, successful and failing (sinks and files cut off, wrong numbers of inputs, modules that changed after they were called), by fresh and reused objects, around long repetitions, and around the whole life of circuits, clones and handles dropped in random order; non-trivial: distinct programs",
        assumptions: &["objects that are used again may keep buffers from their first call until they are dropped"],
        kinds: vec![
            kind("work", 3000, 60_000, c23_work),
            kind("broken", 1500, 30_000, c23_broken),
            kind("files", 3000, 60_000, c23_files),
            kind("repeat", 300, 4000, c23_repeat),
            kind("drop", 3000, 60_000, c23_drop),
            kind("shared", 600, 8000, c23_shared),
            kind("builders", 14, 70, c23_builders),
        ],
    }
}

// ---------------------------------------------------------------- C24

/// Everything the library answers about the circuits of one program.
fn digest_circuits(rng: &mut Rng, out: &mut String) -> Result<(), String> {
    use std::fmt::Write as _;
    let cfg = if rng.bit() { GenCfg::modular(6, 20, 3) } else { GenCfg::flat(8, 60) };
    let lib = gen_lib(rng, &cfg);
    let mode = gen_mode(rng);
    let b = build(&lib, &mode)?;
    for (i, c) in b.refs.iter().enumerate() {
        let _ = write!(out, "circuit {i} ids {:?}", b.vals[i]);
        let _ = write!(out, " {} {} {} {} {}", c.input_len(), c.output_len(), c.num_wire(), c.num_gate(), c.num_const());
        for id in &b.vals[i] {
            let _ = write!(out, " {:?} {:?}", c.get_gate(id), c.get_depended_gates(id));
        }
        for k in 0..c.input_len() + 1 {
            let _ = write!(out, " {:?}", c.input_to_gate_id(&WireId(k as u64)));
        }
        for k in 0..c.output_len() + 1 {
            let _ = write!(out, " {:?}", c.output_to_gate_id(&WireId(k as u64)));
        }
        let _ = write!(out, " {:?}", c.get_const_gates());
        let first = random_first(rng, c.input_len() + c.num_const());
        let w = write_real(c, first)?;
        let mut map: Vec<_> = w.map.iter().map(|(g, w)| (g.0, *w)).collect();
        map.sort();
        let _ = write!(out, " file {} consts {:?} map {map:?}", String::from_utf8_lossy(&w.text), w.consts);
        let r = read_real(&w.text)?;
        let again = write_real(&r, first.min(r.input_len()))?;
        let _ = write!(out, " file {}", String::from_utf8_lossy(&again.text));
        let bits = rng.bits(c.input_len());
        let _ = writeln!(out, " eval {}", bits_str(&eval_real(c, &bits)?));
        let wrong = rng.bits(c.input_len() + 1);
        let _ = writeln!(out, " {:?}", eval_real(c, &wrong));
    }
    Ok(())
}

fn digest_builders(rng: &mut Rng, out: &mut String) -> Result<(), String> {
    use crate::field::*;
    use crate::ints::*;
    use circuit_converters::arithmetic::*;
    use circuit_converters::finite_field::*;
    use circuit_converters::logic::*;
    use std::fmt::Write as _;
    const N: usize = 8;
    let e = |e: BuildCircuitError| format!("{e:?}");
    let c = new_circuit();
    let cfg = AllocIntConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(e)?;
    let prog = gen_int(rng, N, Mix { arith: 1, mul: 1, cmp: 1, consts: 1, shift: 1 }, 6);
    let nv = prog.iter().filter(|o| !matches!(o, IOp::Cmp(..))).count();
    let m = int_build(&cfg, &prog, &[nv - 1])?;
    let p = modulus(rng, 3);
    let f = AllocFpConfig::new(&c, &cfg, p.clone(), 3).map_err(e)?;
    let fp = gen_field(rng, &p, N, 5);
    let fm = field_build(&f, &fp, &[0])?;
    let bc = AllocBitsConfig::<NXAOBoolGate, NXAOBoolCircuit, N>::new(&c).map_err(e)?;
    let bp = gen_bits(rng, N, 5);
    let bm = bits_build(&bc, &bp, &[0])?;
    let _ = write!(out, "ints {prog:?} {:?} {:?} field {fp:?} {fm:?} bits {bp:?} {:?} {:?}", m.vals, m.bits, bm.vals, bm.bits);
    let w = write_real(&c, 1)?;
    let _ = writeln!(out, " file {} {:?}", String::from_utf8_lossy(&w.text), w.consts);
    for which in 0..7 {
        if rng.chance(1, 3) {
            let mut c = new_circuit();
            super::bundled::bundle(which, &mut c)?;
            let w = write_real(&c, 64)?;
            let mut map: Vec<_> = w.map.iter().map(|(g, w)| (g.0, *w)).collect();
            map.sort();
            let _ = writeln!(out, "bundled {which} {:x} {:x}", hash_str(&String::from_utf8_lossy(&w.text)), hash_str(&format!("{map:?}")));
        }
    }
    Ok(())
}

/// The digest of one workload: short enough to compare, with the full text for the report.
pub fn digest(seed: u64, builders: bool) -> String {
    let mut rng = Rng::new(seed);
    let mut out = String::new();
    let r = guarded(|| if builders { digest_builders(&mut rng, &mut out) } else { digest_circuits(&mut rng, &mut out) });
    match r {
        Ok(Ok(())) => (),
        Ok(Err(e)) | Err(e) => out.push_str(&format!("ended with {e}")),
    }
    out
}

/// Where two texts part.
fn parting(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| -> String {
        let b = s.as_bytes();
        let (i, j) = (n.saturating_sub(60).min(b.len()), (n + 60).min(b.len()));
        String::from_utf8_lossy(&b[i..j]).into_owned()
    };
    format!("...{}... and ...{}...", cut(a), cut(b))
}

/// Unrelated activity that must leave no trace.
fn noise(rng: &mut Rng) {
    for _ in 0..1 + rng.below(4) {
        let lib = gen_lib(rng, &GenCfg::modular(4, 10, 2));
        let mode = gen_mode(rng);
        if let Ok(b) = build(&lib, &mode) {
            let bits = rng.bits(b.top().input_len());
            let _ = eval_real(&b.top(), &bits);
            let _ = write_real(&b.top(), 0);
            let _ = eval_real(&b.top(), &rng.bits(99));
        }
        let _ = read_real(b"1 2\n1 1\n1 1\n\n2 1 0 5 1 AND\n");
    }
}

fn c24_same_thread(ctx: &mut Ctx) -> Res {
    let seed = ctx.rng.u64();
    let builders = ctx.idx % 40 == 0;
    let a = digest(seed, builders);
    check!(!a.contains("ended with"), "the workload failed: {}", &a[a.len().saturating_sub(300)..]);
    for _ in 0..2 {
        if ctx.rng.bit() {
            noise(&mut ctx.rng);
        }
        let b = digest(seed, builders);
        ctx.eval(1);
        check!(a == b, "the same steps gave different results: {}", parting(&a, &b));
    }
    ctx.distinct(hash_str(&a));
    ctx.count("bytes of results compared", a.len() as u64);
    ctx.sample(|| a.clone());
    Ok(())
}

fn c24_threads(ctx: &mut Ctx) -> Res {
    let seed = ctx.rng.u64();
    let builders = ctx.idx % 10 == 0;
    let a = digest(seed, builders);
    let hs: Vec<_> = (0..4u64)
        .map(|k| {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut r = Rng::new(seed ^ mix(k));
                    noise(&mut r);
                    let d = digest(seed, builders);
                    noise(&mut r);
                    (d, digest(seed, builders))
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let (x, y) = h.join().map_err(|_| "a thread panicked".to_string())?;
        for d in [x, y] {
            check!(a == d, "another thread got different results: {}", parting(&a, &d));
            ctx.eval(1);
        }
        ctx.count("threads", 1);
    }
    ctx.distinct(hash_str(&a));
    ctx.sample(|| a.clone());
    Ok(())
}

fn c24_processes(ctx: &mut Ctx) -> Res {
    let seed = ctx.rng.u64();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let k = 30u64;
    let here: Vec<String> = (0..k).map(|i| digest(seed ^ i, i % 10 == 0)).collect();
    for round in 0..2 {
        let o = std::process::Command::new(&exe)
            .args(["digest", &seed.to_string(), &k.to_string()])
            .env("LC_ALL", if round == 0 { "C" } else { "de_DE.UTF-8" })
            .env("TZ", if round == 0 { "UTC" } else { "Asia/Tokyo" })
            .env("HOME", if round == 0 { "/" } else { "/nonexistent" })
            .output()
            .map_err(|e| e.to_string())?;
        check!(o.status.success(), "the other process ended with {:?}", o.status);
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        let there: Vec<&str> = text.split('\u{1}').collect();
        check!(there.len() == k as usize + 1, "the other process gave {} results", there.len());
        for i in 0..k as usize {
            check!(here[i] == there[i], "another process got different results: {}", parting(&here[i], there[i]));
            ctx.eval(1);
        }
        ctx.count("processes", 1);
    }
    for d in &here {
        ctx.distinct(hash_str(d));
    }
    Ok(())
}

/// The other process of `c24_processes`.
pub fn digest_main(seed: u64, k: u64) {
    for i in 0..k {
        print!("{}\u{1}", digest(seed ^ i, i % 10 == 0));
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "the text of everything the library answers for a workload (identifiers, gates, dependents, counters, files, constants, wire maps, evaluations, error values) is recorded and compared between repetitions in a thread, with other work in between, between concurrent threads, and between processes with other environments; non-trivial: distinct texts",
        assumptions: &[],
        kinds: vec![kind("repeat", 1500, 30_000, c24_same_thread), kind("threads", 150, 2000, c24_threads), kind("processes", 10, 60, c24_processes)],
    }
}
