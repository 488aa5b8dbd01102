//! C01 C02 C04 C05 C06: circuits and their evaluation.
use crate::model::*;
use crate::rng::{mix, Fp};
use crate::runner::*;
use crate::sim::operands;
use crate::util::*;
use crate::{check, fail};
use circuit_converters::*;
use std::collections::{HashMap, HashSet};
use std::io::BufWriter;

// ---------------------------------------------------------------- C01

fn lib1(p: Prog) -> Lib {
    Lib { progs: vec![p] }
}

fn run_lib(ctx: &mut Ctx, lib: &Lib, max_eval: usize) -> Res {
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = describe(lib, &mode);
    let b = build(lib, &mode)?;
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, n, &want.outs, max_eval)?;
    ctx.sample(|| format!("{} -> {} lanes", lib.text(), n));
    let gates = lib.top().steps.iter().filter(|s| !matches!(s, Step::Input | Step::Out(_) | Step::Const(_))).count();
    if gates > 0 && !lib.top().outs.is_empty() {
        ctx.distinct(lib.fingerprint());
    }
    ctx.max("steps of a circuit", lib.top().steps.len() as u64);
    Ok(())
}

fn c01_small(ctx: &mut Ctx) -> Res {
    for _ in 0..20 {
        let lib = gen_lib(&mut ctx.rng, &GenCfg { max_outs: 5, ..GenCfg::flat(6, 14) });
        run_lib(ctx, &lib, 64)?;
    }
    Ok(())
}
fn c01_medium(ctx: &mut Ctx) -> Res {
    let steps = *ctx.rng.pick(&[60, 300, 1500]);
    let lib = gen_lib(&mut ctx.rng, &GenCfg { max_outs: 40, ..GenCfg::flat(40, steps) });
    run_lib(ctx, &lib, 12)
}

fn ops_over(n: u32) -> Vec<Step> {
    let mut v = vec![Step::Const(false), Step::Const(true)];
    for a in 0..n {
        v.push(Step::Not(a));
        v.push(Step::Ident(a));
        for b in 0..n {
            v.push(Step::Xor(a, b));
            v.push(Step::And(a, b));
            v.push(Step::Or(a, b));
            v.push(Step::Eqv(a, b));
        }
    }
    v
}

/// All circuits of 2 inputs and 3 gates, with every choice of one or two outputs; one chunk per pair of first gates.
fn c01_exhaustive(ctx: &mut Ctx) -> Res {
    let o2 = ops_over(2);
    let o3 = ops_over(3);
    let o4 = ops_over(4);
    let (i, j) = (ctx.idx / o3.len(), ctx.idx % o3.len());
    let inp = [0b1010u64, 0b1100u64];
    for g3 in &o4 {
        let mut p = Prog::default();
        for s in [Step::Input, Step::Input, o2[i].clone(), o3[j].clone(), g3.clone()] {
            p.push(s, &[]);
        }
        for o1 in 0..5u32 {
            for o in 0..=5u32 {
                let mut q = p.clone();
                q.push(Step::Out(o1), &[]);
                if o < 5 {
                    q.push(Step::Out(o), &[]);
                }
                let mut c = NXAOBoolCircuit::new(new_store());
                let mut vals = Vec::new();
                for s in &q.steps {
                    apply(&mut c, s, &mut vals, None).map_err(|e| format!("building {q:?}: {e:?}"))?;
                }
                let lib = lib1(q);
                let want = lib.eval_top(&inp).outs;
                let mut ev = NXAOBoolEvaluator::new(c.to_ref());
                for l in 0..4 {
                    let bits = lane(&inp, l);
                    let got = ev.eval_output(&bits).map_err(|e| format!("{} on {}: {e:?}", lib.text(), bits_str(&bits)))?;
                    check!(got == lane(&want, l), "{} on {} gave {}", lib.text(), bits_str(&bits), bits_str(&got));
                }
                ctx.eval(4);
                ctx.count("exhaustive circuits of 3 gates", 1);
            }
        }
    }
    ctx.distinct(mix(ctx.idx as u64));
    Ok(())
}

pub fn big_prog(ctx: &mut Ctx, which: usize, n: usize) -> Prog {
    let mut p = Prog::default();
    let rng = &mut ctx.rng;
    match which {
        // one gate used n times
        0 => {
            p.push(Step::Input, &[]);
            p.push(Step::Input, &[]);
            p.push(Step::Xor(0, 1), &[]);
            let mut last = 0;
            for i in 0..n {
                last = p.push(if i % 3 == 0 { Step::Or(last, 2) } else { Step::Xor(2, last) }, &[])[0];
            }
            p.push(Step::Out(last), &[]);
            p.push(Step::Out(2), &[]);
        }
        // n inputs
        1 => {
            for _ in 0..n {
                p.push(Step::Input, &[]);
            }
            let mut acc = 0;
            for i in 1..n as u32 {
                acc = p.push(Step::Xor(acc, i), &[])[0];
            }
            p.push(Step::Out(acc), &[]);
            for i in (0..n as u32).step_by(97) {
                p.push(Step::Out(i), &[]);
            }
            p.push(Step::Out(n as u32 - 1), &[]);
        }
        // n outputs, distinct and repeated, inputs and gates
        2 => {
            for _ in 0..8 {
                p.push(Step::Input, &[]);
            }
            for i in 0..n as u32 / 2 {
                p.push(if i % 2 == 0 { Step::Not(i) } else { Step::Xor(i, i + 3) }, &[]);
            }
            for _ in 0..n {
                let v = rng.below(p.n_vals) as u32;
                p.push(Step::Out(v), &[]);
            }
        }
        // a chain of n gates
        3 => {
            p.push(Step::Input, &[]);
            p.push(Step::Input, &[]);
            let mut last = 0;
            for i in 0..n {
                last = p.push(
                    match i % 7 {
                        0 => Step::Xor(last, 1),
                        3 => Step::Ident(last),
                        5 => Step::Eqv(1, last),
                        _ => Step::Not(last),
                    },
                    &[],
                )[0];
            }
            p.push(Step::Out(last), &[]);
        }
        // n random gates
        4 => {
            for _ in 0..30 {
                p.push(Step::Input, &[]);
            }
            for _ in 0..n {
                let k = p.n_vals;
                let a = if rng.bit() { rng.below(k) } else { k - 1 - rng.below(k.min(40)) } as u32;
                let b = if rng.bit() { rng.below(k) } else { k - 1 - rng.below(k.min(40)) } as u32;
                let s = match rng.below(6) {
                    0 => Step::Not(a),
                    1 => Step::Eqv(a, b),
                    2 => Step::And(a, b),
                    3 => Step::Or(a, b),
                    _ => Step::Xor(a, b),
                };
                p.push(s, &[]);
            }
            for _ in 0..200 {
                let v = rng.below(p.n_vals) as u32;
                p.push(Step::Out(v), &[]);
            }
        }
        // n constants
        _ => {
            p.push(Step::Input, &[]);
            let mut acc = 0;
            for _ in 0..n {
                let b = rng.bit();
                let c = p.push(Step::Const(b), &[])[0];
                acc = p.push(Step::Xor(acc, c), &[])[0];
            }
            p.push(Step::Out(acc), &[]);
            for i in 0..400 {
                p.push(Step::Out(1 + 2 * i), &[]);
            }
        }
    }
    p
}

fn c01_big(ctx: &mut Ctx) -> Res {
    let n = if ctx.thorough() { 400_000 } else { 70_000 + ctx.rng.below(5000) };
    let p = big_prog(ctx, ctx.idx % 6, n);
    let lib = lib1(p);
    ctx.note = format!("big circuit family {} size {}", ctx.idx % 6, n);
    let mode = BuildMode { storage: 0, direct: ctx.rng.bit(), seed: 1 };
    let b = build(&lib, &mode)?;
    let (inp, _) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, 4.min(1 << lib.top().n_in.min(6)), &want.outs, 4)?;
    ctx.distinct(lib.fingerprint());
    ctx.max("gates of a circuit", n as u64);
    Ok(())
}

/// One value of each kind with many uses, of the sizes at which a narrow counter would overflow.
fn c01_hubs(ctx: &mut Ctx) -> Res {
    let uses = *ctx.rng.pick(&[128, 255, 256, 257, 1000, 1024, 4095, 5000, 20_000, 65_536, 70_000]) + ctx.rng.below(3);
    let uses = match () {
        _ if ctx.idx < 8 => 65_600,
        _ if ctx.thorough() || uses < 30_000 => uses,
        _ => uses / 10,
    };
    let mut p = Prog::default();
    for _ in 0..4 {
        p.push(Step::Input, &[]);
    }
    p.push(Step::Const(ctx.rng.bit()), &[]);
    let hub = match ctx.idx % 8 {
        0 => 1,
        1 => 4,
        2 => p.push(Step::Not(0), &[])[0],
        3 => p.push(Step::Xor(0, 1), &[])[0],
        4 => p.push(Step::And(2, 1), &[])[0],
        5 => p.push(Step::Or(3, 0), &[])[0],
        6 => p.push(Step::Eqv(2, 3), &[])[0],
        _ => p.push(Step::Ident(3), &[])[0],
    };
    let style = ctx.rng.below(3);
    for i in 0..uses {
        let n = p.n_vals;
        let other = match style {
            0 => ctx.rng.below(4) as u32,
            1 => (n - 1) as u32,
            _ => ctx.rng.below(n) as u32,
        };
        let s = match (i + ctx.idx / 8) % 5 {
            0 => Step::Not(hub),
            1 => Step::And(hub, other),
            2 => Step::Or(other, hub),
            3 => Step::Xor(hub, if i % 2 == 0 { hub } else { other }),
            _ => Step::Xor(other, hub),
        };
        p.push(s, &[]);
    }
    let n = p.n_vals;
    // all of them are evaluated, in different orders
    match ctx.rng.below(3) {
        0 => (0..n as u32).for_each(|v| drop(p.push(Step::Out(v), &[]))),
        1 => (0..n as u32).rev().for_each(|v| drop(p.push(Step::Out(v), &[]))),
        _ => {
            for _ in 0..n.min(5000) {
                let v = ctx.rng.below(n) as u32;
                p.push(Step::Out(v), &[]);
            }
            p.push(Step::Out(hub), &[]);
        }
    }
    let lib = lib1(p);
    ctx.note = format!("a value of kind {} with {uses} uses, style {style}", ctx.idx % 8);
    let b = build(&lib, &BuildMode { storage: 0, direct: ctx.rng.bit(), seed: 1 })?;
    let (inp, n) = lanes(&mut ctx.rng, 4);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, n, &want.outs, 3)?;
    ctx.distinct(lib.fingerprint());
    ctx.max("uses of one value", uses as u64);
    Ok(())
}

pub fn c01() -> Prop {
    let chunks = ops_over(2).len() * ops_over(3).len();
    Prop {
        id: "C01",
        rule: "construction programs over inputs, constants, NOT, XOR, AND, OR, equivalence, identity and outputs, run on the real circuit and evaluator and compared bit by bit with an independent interpreter; non-trivial: at least one gate and one output, distinct by the text of the program (exhaustive chunks count once each)",
        assumptions: &[],
        kinds: vec![
            kind("big", 6, 24, c01_big),
            kind("hubs", 40, 240, c01_hubs),
            kind("exhaustive3", chunks, chunks, c01_exhaustive),
            kind("medium", 1500, 20000, c01_medium),
            kind("small", 2500, 60000, c01_small),
        ],
    }
}

// ---------------------------------------------------------------- C02

fn c02_random(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let (i, s, m) = *ctx.rng.pick(&[(4, 8, 2), (6, 14, 3), (6, 20, 5), (12, 30, 4)]);
        let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(i, s, m));
        let calls = lib.top().steps.iter().filter(|s| matches!(s, Step::Call(..))).count() as u64;
        ctx.count("calls by the top circuit", calls);
        if calls == 0 {
            ctx.count("programs without a call (skipped)", 1);
            continue;
        }
        run_lib(ctx, &lib, 64)?;
    }
    Ok(())
}

/// All modules of one or two inputs with up to one gate and every list of up to two outputs, called twice in all ways
/// of one operand pattern; one chunk per module body and pattern.
fn c02_exhaustive(ctx: &mut Ctx) -> Res {
    let bodies = ops_over(2);
    let body = &bodies[ctx.idx % bodies.len()];
    let pat = ctx.idx / bodies.len();
    let inp = [0b1010u64, 0b1100u64];
    for o1 in 0..4u32 {
        for o2 in 0..4u32 {
            let mut m = Prog::default();
            for s in [Step::Input, Step::Input, body.clone()] {
                m.push(s, &[]);
            }
            if o1 < 3 {
                m.push(Step::Out(o1), &[]);
            }
            if o2 < 3 {
                m.push(Step::Out(o2), &[]);
            }
            let no = m.outs.len() as u32;
            let progs = vec![m];
            for (a, b) in [(0, 1), (1, 0), (0, 0), (1, 1)] {
                let mut t = Prog::default();
                t.push(Step::Input, &progs);
                t.push(Step::Input, &progs);
                let r1 = t.push(Step::Call(0, 0, vec![a, b]), &progs);
                let n = t.n_vals as u32;
                let second = match pat % 4 {
                    0 => vec![n - 1, 0],
                    1 => vec![0, n - 1],
                    2 => vec![n - 1, n - 1],
                    _ => vec![2.min(n - 1), n - 1],
                };
                let r2 = t.push(Step::Call(0, (pat / 4) as u32, second), &progs);
                for (x, y) in [(0u32, 0u32), (1, 2), (3, 1), (2, 3)] {
                    let mut q = t.clone();
                    let all: Vec<u32> = r1.iter().chain(r2.iter()).copied().chain([0]).collect();
                    for z in [x, y] {
                        q.push(Step::Out(all[z as usize % all.len()]), &progs);
                    }
                    if no > 0 {
                        q.push(Step::Xor(all[0], all[no as usize]), &progs);
                        let v = q.n_vals as u32 - 1;
                        q.push(Step::Out(v), &progs);
                    }
                    let mut progs2 = progs.clone();
                    progs2.push(q);
                    let lib = Lib { progs: progs2 };
                    let mode = BuildMode { storage: ctx.rng.below(2), direct: false, seed: 0 };
                    let bt = build(&lib, &mode)?;
                    ctx.note = describe(&lib, &mode);
                    let want = lib.eval_top(&inp).outs;
                    compare_eval(ctx, &bt.top(), &inp, 4, &want, 4)?;
                    ctx.count("exhaustive small module circuits", 1);
                }
            }
        }
    }
    ctx.distinct(mix(ctx.idx as u64 + 77));
    Ok(())
}

fn c02_big(ctx: &mut Ctx) -> Res {
    let t = ctx.thorough();
    let mut lib = Lib::default();
    let mode = BuildMode { storage: ctx.rng.below(4), direct: false, seed: ctx.rng.u64() };
    let which = ctx.idx % 8;
    match which {
        // a tower of modules, each adding one gate
        0 => {
            let mut m = Prog::default();
            m.push(Step::Input, &[]);
            m.push(Step::Input, &[]);
            m.push(Step::Xor(0, 1), &[]);
            m.push(Step::Out(2), &[]);
            m.push(Step::Out(0), &[]);
            lib.progs.push(m);
            for i in 0..if t { 1200 } else { 300 } {
                let mut p = Prog::default();
                p.push(Step::Input, &[]);
                p.push(Step::Input, &[]);
                let r = p.push(Step::Call(i, 0, vec![1, 0]), &lib.progs);
                let g = p.push(if i % 2 == 0 { Step::Or(r[0], r[1]) } else { Step::Eqv(r[0], r[1]) }, &[])[0];
                p.push(Step::Out(g), &[]);
                p.push(Step::Out(if i % 3 == 0 { 0 } else { r[1] }), &[]);
                lib.progs.push(p);
            }
        }
        // many different modules called from one circuit
        1 => {
            let nm = if t { 2000 } else { 400 };
            for i in 0..nm {
                let mut m = Prog::default();
                m.push(Step::Input, &[]);
                m.push(Step::Input, &[]);
                m.push([Step::Xor(0, 1), Step::And(0, 1), Step::Or(0, 1), Step::Eqv(0, 1)][(i as u64 * 7 / 3) as usize % 4].clone(), &[]);
                if i % 3 == 0 {
                    m.push(Step::Not(2), &[]);
                }
                let v = m.n_vals as u32 - 1;
                m.push(Step::Out(v), &[]);
                lib.progs.push(m);
            }
            let mut p = Prog::default();
            for _ in 0..6 {
                p.push(Step::Input, &[]);
            }
            for i in 0..nm {
                let (a, b) = (ctx.rng.below(p.n_vals) as u32, ctx.rng.below(p.n_vals.min(6)) as u32);
                let r = p.push(Step::Call(i, 0, vec![a, b]), &lib.progs);
                p.push(Step::Out(r[0]), &[]);
            }
            lib.progs.push(p);
        }
        // a module of many inputs and outputs
        2 => {
            let n = if t { 600 } else { 300 };
            let mut m = Prog::default();
            for _ in 0..n {
                m.push(Step::Input, &[]);
            }
            for i in 0..n as u32 {
                m.push(Step::Xor(i, (i * 7 + 1) % n as u32), &[]);
            }
            for i in 0..n as u32 {
                m.push(Step::Out(if i % 5 == 0 { n as u32 - 1 - i } else { 2 * n as u32 - 1 - i }), &[]);
            }
            lib.progs.push(m);
            let mut p = Prog::default();
            for _ in 0..n {
                p.push(Step::Input, &[]);
            }
            let r = p.push(Step::Call(0, 0, (0..n as u32).rev().collect()), &lib.progs);
            let r2 = p.push(Step::Call(0, 0, r), &lib.progs);
            for v in r2 {
                p.push(Step::Out(v), &[]);
            }
            lib.progs.push(p);
        }
        // one module called many times
        3 => {
            let mut m = Prog::default();
            for _ in 0..3 {
                m.push(Step::Input, &[]);
            }
            m.push(Step::Xor(0, 1), &[]);
            m.push(Step::And(1, 2), &[]);
            m.push(Step::Const(true), &[]);
            m.push(Step::Xor(4, 5), &[]);
            m.push(Step::Out(3), &[]);
            m.push(Step::Out(6), &[]);
            m.push(Step::Out(1), &[]);
            lib.progs.push(m);
            let mut p = Prog::default();
            for _ in 0..6 {
                p.push(Step::Input, &[]);
            }
            for _ in 0..if t { 80_000 } else { 23_000 } {
                let n = p.n_vals;
                let args = (0..3).map(|_| (n - 1 - ctx.rng.below(n.min(12))) as u32).collect();
                p.push(Step::Call(0, 0, args), &lib.progs);
            }
            for i in 0..50 {
                let v = p.n_vals as u32 - 1 - i;
                p.push(Step::Out(v), &[]);
            }
            lib.progs.push(p);
        }
        // more than 2^16 outputs of one module
        4 | 5 => {
            let n = 66_000u32;
            let mut m = Prog::default();
            m.push(Step::Input, &[]);
            m.push(Step::Not(0), &[]);
            for i in 0..n {
                m.push(Step::Out((mix(i as u64) & 1) as u32), &[]);
            }
            lib.progs.push(m);
            let mut p = Prog::default();
            p.push(Step::Input, &[]);
            let r = p.push(Step::Call(0, 0, vec![0]), &lib.progs);
            let mut acc = r[0];
            for i in [1usize, 2, 3, 255, 256, 257, 1000, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65999] {
                acc = p.push(Step::Xor(acc, r[i]), &[])[0];
                p.push(Step::Out(r[i]), &[]);
            }
            p.push(Step::Out(acc), &[]);
            lib.progs.push(p);
        }
        // more than 2^16 inputs of one module
        6 => {
            let n = 66_000u32;
            let mut m = Prog::default();
            for _ in 0..n {
                m.push(Step::Input, &[]);
            }
            let mut acc = 0;
            for i in 1..n {
                acc = m.push(Step::Xor(acc, i), &[])[0];
            }
            m.push(Step::Out(acc), &[]);
            m.push(Step::Out(65_537), &[]);
            lib.progs.push(m);
            let mut p = Prog::default();
            for _ in 0..n {
                p.push(Step::Input, &[]);
            }
            let r = p.push(Step::Call(0, 0, (0..n).rev().collect()), &lib.progs);
            p.push(Step::Out(r[0]), &[]);
            p.push(Step::Out(r[1]), &[]);
            lib.progs.push(p);
        }
        // more than 2^16 registrations in one storage
        _ => {
            return c02_registrations(ctx);
        }
    }
    ctx.note = format!("big module family {which} with {mode:?}");
    let b = build(&lib, &mode)?;
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, n.min(4), &want.outs, 4)?;
    ctx.distinct(lib.fingerprint());
    Ok(())
}

fn c02_registrations(ctx: &mut Ctx) -> Res {
    let mk = |k: usize| {
        let mut c = new_circuit();
        let a = c.input().unwrap();
        let b = c.input().unwrap();
        let g = match k {
            0 => c.xor(&a, &b),
            1 => c.and(&a, &b),
            _ => c.or(&a, &b),
        }
        .unwrap();
        c.output(g).unwrap();
        c
    };
    let mods = [mk(0), mk(1), mk(2)];
    let mut top = new_circuit();
    let mut mids = Vec::new();
    let mut seen = HashSet::new();
    for i in 0..70_000usize {
        let m = top.register_module(&mods[(i * 5 / 3) % 3]);
        check!(seen.insert(m), "registration {i} handed out the module id {m:?} again");
        mids.push(m);
    }
    let a = top.input().unwrap();
    let b = top.input().unwrap();
    let mut want = Vec::new();
    for i in [0usize, 1, 2, 254, 255, 256, 257, 4095, 4096, 65534, 65535, 65536, 65537, 69998, 69999] {
        let r = top.module(&mids[i], &[a, b]).map_err(|e| format!("calling registration {i}: {e:?}"))?;
        check!(r.len() == 1, "one result expected");
        top.output(r[0]).map_err(|e| format!("{e:?}"))?;
        want.push([0b0110u64, 0b1000, 0b1110][(i * 5 / 3) % 3]);
    }
    compare_eval(ctx, &top, &[0b1010, 0b1100], 4, &want, 4)?;
    ctx.distinct(1);
    Ok(())
}

/// Modules of 20 to 400 inputs called again and again with operands that differ in one or two places.
fn c02_wide(ctx: &mut Ctx) -> Res {
    let k = *ctx.rng.pick(&[20, 31, 32, 33, 63, 64, 65, 66, 72, 100, 127, 128, 129, 130, 200, 256, 257, 400]);
    let mut lib = Lib::default();
    let mut m = Prog::default();
    for _ in 0..k {
        m.push(Step::Input, &[]);
    }
    let n_out = 1 + ctx.rng.below(4);
    let (mut acc, mut prev) = (ctx.rng.below(k) as u32, 0);
    for i in 0..k as u32 {
        // Every input counts, the parity most of all.
        let s = match ctx.rng.below(4) {
            0 => Step::Eqv(acc, i),
            1 => {
                let g = m.push(if ctx.rng.bit() { Step::And(i, prev) } else { Step::Or(prev, i) }, &[])[0];
                Step::Xor(g, acc)
            }
            _ => Step::Xor(acc, i),
        };
        prev = i;
        acc = m.push(s, &[])[0];
    }
    for i in 0..n_out {
        let v = match i {
            0 => acc,
            1 => k as u32 - 1,
            _ => ctx.rng.below(m.n_vals) as u32,
        };
        m.push(Step::Out(v), &[]);
    }
    lib.progs.push(m);
    if ctx.rng.chance(1, 3) {
        // The calls are inside another module.
        let mut w = Prog::default();
        for _ in 0..k {
            w.push(Step::Input, &[]);
        }
        let mut args: Vec<u32> = (0..k as u32).collect();
        let r = w.push(Step::Call(0, 0, args.clone()), &lib.progs);
        args.rotate_left(1);
        let r2 = w.push(Step::Call(0, 0, args), &lib.progs);
        let x = w.push(Step::And(r[0], r2[0]), &[])[0];
        w.push(Step::Out(x), &[]);
        w.push(Step::Out(r2[0]), &[]);
        lib.progs.push(w);
    }
    let mut p = Prog::default();
    let n_in = if ctx.rng.bit() { k } else { 1 + ctx.rng.below(k) };
    for _ in 0..n_in {
        p.push(Step::Input, &[]);
    }
    for b in [false, true] {
        p.push(Step::Const(b), &[]);
    }
    for _ in 0..4 {
        let a = ctx.rng.below(n_in) as u32;
        p.push(Step::Not(a), &[]);
    }
    let base: Vec<u32> = (0..k as u32).map(|i| if ctx.rng.chance(1, 6) { ctx.rng.below(p.n_vals) as u32 } else { i % n_in as u32 }).collect();
    let mut results = Vec::new();
    for call in 0..2 + ctx.rng.below(8) {
        let mut args = base.clone();
        for _ in 0..if call == 0 { 0 } else { 1 + ctx.rng.below(2) } {
            let at = match ctx.rng.below(4) {
                0 => ctx.rng.below(k),
                1 => k - 1,
                2 => k - 1 - ctx.rng.below(k / 2),
                _ => ctx.rng.below(k.min(64)),
            };
            if ctx.rng.chance(1, 5) {
                let to = ctx.rng.below(k);
                args.swap(at, to);
            } else {
                args[at] = if ctx.rng.bit() { p.push(Step::Not(args[at]), &[])[0] } else { ctx.rng.below(p.n_vals) as u32 };
            }
        }
        let callee = ctx.rng.below(lib.progs.len()) as u32;
        let reg = ctx.rng.below(2) as u32;
        results.extend(p.push(Step::Call(callee, reg, args), &lib.progs));
    }
    if ctx.rng.bit() {
        let mut acc = results[0];
        for r in &results[1..] {
            acc = p.push(Step::Xor(acc, *r), &[])[0];
        }
        p.push(Step::Out(acc), &[]);
    }
    if ctx.rng.bit() {
        results.reverse();
    }
    for r in results {
        p.push(Step::Out(r), &[]);
    }
    lib.progs.push(p);
    ctx.count("calls of wide modules with nearly equal operands", 1);
    run_lib(ctx, &lib, 8)
}

/// One result of a call with many uses, beside others with few.
fn c02_hubs(ctx: &mut Ctx) -> Res {
    let uses = *ctx.rng.pick(&[127, 255, 256, 257, 1000, 4096, 20_000, 65_536]) + ctx.rng.below(3);
    let uses = if ctx.thorough() || uses < 30_000 || ctx.idx % 8 == 0 { uses } else { uses / 10 };
    let mut lib = Lib::default();
    let mut m = Prog::default();
    for _ in 0..3 {
        m.push(Step::Input, &[]);
    }
    m.push(Step::Xor(0, 1), &[]);
    m.push(Step::And(3, 2), &[]);
    for o in [4, 3, 0] {
        m.push(Step::Out(o), &[]);
    }
    lib.progs.push(m);
    let mut p = Prog::default();
    for _ in 0..4 {
        p.push(Step::Input, &[]);
    }
    let r = p.push(Step::Call(0, 0, vec![2, 1, 3]), &lib.progs);
    let hub = r[ctx.idx % 3];
    for i in 0..uses {
        let n = p.n_vals;
        let other = if ctx.rng.bit() { (n - 1) as u32 } else { ctx.rng.below(n) as u32 };
        match i % 7 {
            0 if i % 49 == 0 => drop(p.push(Step::Call(0, 0, vec![hub, other, hub]), &lib.progs)),
            1 => drop(p.push(Step::Not(hub), &[])),
            2 => drop(p.push(Step::And(other, hub), &[])),
            3 => drop(p.push(Step::Or(hub, other), &[])),
            _ => drop(p.push(Step::Xor(hub, other), &[])),
        }
    }
    let n = p.n_vals;
    if ctx.rng.bit() {
        (0..n as u32).for_each(|v| drop(p.push(Step::Out(v), &[])));
    } else {
        for _ in 0..n.min(3000) {
            let v = ctx.rng.below(n) as u32;
            p.push(Step::Out(v), &[]);
        }
    }
    p.push(Step::Out(hub), &[]);
    lib.progs.push(p);
    ctx.max("uses of one result of a call", uses as u64);
    let mode = BuildMode { storage: ctx.rng.below(4), direct: ctx.rng.bit(), seed: ctx.rng.u64() };
    ctx.note = format!("result {} of a call with {uses} uses, {mode:?}", ctx.idx % 3);
    let b = build(&lib, &mode)?;
    let (inp, n) = lanes(&mut ctx.rng, 4);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, n, &want.outs, 3)?;
    ctx.distinct(lib.fingerprint());
    Ok(())
}

pub fn c02() -> Prop {
    let ex = ops_over(2).len() * 8;
    Prop {
        id: "C02",
        rule: "libraries of nested construction programs with module calls, built with shared, separate, sub-circuit and mixed module storages, evaluated by the real evaluator and compared with the interpreter of the inlined program; non-trivial: the top calls a module and has an output; distinct by text",
        assumptions: &["modules are complete before they are called"],
        kinds: vec![
            kind("big", 8, 32, c02_big),
            kind("hubs", 24, 200, c02_hubs),
            kind("wide", 800, 12000, c02_wide),
            kind("exhaustive", ex, ex, c02_exhaustive),
            kind("random", 4000, 60000, c02_random),
        ],
    }
}

// ---------------------------------------------------------------- C04

fn c04_interleave(ctx: &mut Ctx) -> Res {
    let lib0 = gen_lib(&mut ctx.rng, &GenCfg::modular(5, 16, 3));
    let mode = gen_mode(&mut ctx.rng);
    // The top is built step by step; evaluators and writers are used in between.
    let top = lib0.progs.len() - 1;
    let mut b = start_build(&lib0, &mode);
    for i in 0..top {
        fill(&mut b, &lib0, &mode, i, &mut |_, _, _| Ok(()))?;
    }
    let mut cur = lib0.clone();
    cur.progs[top] = Prog::default();
    let mut evs: Vec<NXAOBoolEvaluator> = vec![NXAOBoolEvaluator::new(b.top())];
    let mut reused = BristolNXAOWriter::new(b.top(), BufWriter::new(Vec::new()));
    let mut reused_text: Vec<u8> = Vec::new();
    let mut stale_map: HashMap<GateId, usize> = HashMap::new();
    for j in 0..50u64 {
        stale_map.insert(GateId(j), j as usize % 3);
    }
    let mut log = String::new();
    let n_steps = lib0.top().steps.len();
    let mut k = 0;
    let mut ops = 0;
    while k < n_steps || ops < 6 {
        if k < n_steps && ctx.rng.chance(2, 3) {
            let s = lib0.progs[top].steps[k].clone();
            let mid = match &s {
                Step::Call(m, al, _) => Some(module_id(&mut b, top, *m as usize, *al)),
                _ => None,
            };
            let mut r = b.refs[top].clone();
            apply_ref(&mut r, &s, &mut b.vals[top], mid).map_err(|e| format!("step {k} {s:?}: {e:?} after {log}"))?;
            let before = std::mem::take(&mut cur.progs[top]);
            cur.progs[top] = before;
            let (head, tail) = cur.progs.split_at_mut(top);
            tail[0].push(s, head);
            k += 1;
            continue;
        }
        ops += 1;
        ctx.note = format!("{} log: {log}", describe(&lib0, &mode));
        let before = observe_all(&b);
        let n_in = cur.top().n_in;
        let what = ctx.rng.below(9);
        log += &format!("{what}@{k} ");
        // Reading a circuit needs no more than a shared borrow of it or of any circuit it calls.
        let holder = if ctx.rng.chance(1, 3) { Some(b.refs[ctx.rng.below(b.refs.len())].clone()) } else { None };
        let held = holder.as_ref().map(|h| h.borrow());
        if held.is_some() {
            ctx.count("operations while the circuit or a module is borrowed", 1);
        }
        match what {
            0..=2 => {
                let (inp, n) = lanes(&mut ctx.rng, n_in);
                let want = cur.eval_top(&inp).outs;
                let e = if what == 0 || evs.is_empty() {
                    evs.push(NXAOBoolEvaluator::new(b.top()));
                    evs.len() - 1
                } else {
                    ctx.rng.below(evs.len())
                };
                for _ in 0..3 {
                    let l = ctx.rng.below(n);
                    let bits = lane(&inp, l);
                    let got = evs[e].eval_output(&bits).map_err(|x| format!("evaluator {e} failed: {x:?}"))?;
                    ctx.eval(1);
                    check!(
                        got == lane(&want, l),
                        "evaluator {e} gave {} instead of {} on {}",
                        bits_str(&got),
                        bits_str(&lane(&want, l)),
                        bits_str(&bits)
                    );
                }
            }
            3 => {
                // Unsuccessful evaluation.
                let more = n_in + 1 + ctx.rng.below(3);
                let len = if n_in > 0 && ctx.rng.bit() { n_in - 1 } else { more };
                let bits = ctx.rng.bits(len);
                let e = ctx.rng.below(evs.len());
                let _ = evs[e].eval_output(&bits);
                ctx.eval(1);
                ctx.count("unsuccessful evaluations", 1);
            }
            4 => {
                let e = ctx.rng.below(evs.len());
                let c = evs[e].clone();
                evs.push(c);
            }
            5 | 6 => {
                let all = n_in + b.top().num_const();
                let first = random_first(&mut ctx.rng, all);
                let fresh = write_real(&b.top(), first)?;
                ctx.eval(1);
                // The same writer object once more.
                let c2 = reused.write(first, if what == 5 { Some(&mut stale_map) } else { None }).map_err(|e| format!("reused writer: {e:?}"))?;
                check!(c2 == fresh.consts, "a reused writer returned other constants than a fresh one");
                reused_text.extend_from_slice(&fresh.text);
                if what == 5 {
                    for (g, w) in &fresh.map {
                        check!(stale_map.get(g) == Some(w), "a reused wire map holds {:?} for gate {g} instead of {w}", stale_map.get(g));
                    }
                }
                let again = write_real(&b.top(), first)?;
                check!(again.text == fresh.text && again.consts == fresh.consts && again.map == fresh.map, "a second export differs");
                ctx.count("exports", 3);
            }
            _ => {
                // Unsuccessful export.
                let all = n_in + b.top().num_const();
                let first = random_first(&mut ctx.rng, all);
                let limit = ctx.rng.below(120);
                let mut w = BristolNXAOWriter::new(b.top(), BufWriter::with_capacity(ctx.rng.below(32), crate::faults::Sink::failing(limit)));
                let _ = w.write(first, None);
                std::mem::forget(w.writer.into_parts());
                ctx.eval(1);
                ctx.count("unsuccessful exports", 1);
            }
        }
        drop(held);
        let after = observe_all(&b);
        check!(before == after, "operation {what} changed the circuit:\n before {before:?}\n after {after:?}");
    }
    use std::io::Write as _;
    reused.writer.flush().map_err(|e| format!("{e:?}"))?;
    check!(*reused.writer.get_ref() == reused_text, "a reused writer wrote another text than fresh writers");
    // At the end the circuit is the one that was never looked at.
    let other = build(&lib0, &mode)?;
    let (x, y) = (observe_all(&b), observe_all(&other));
    check!(x == y, "the circuit differs from one built without evaluations and exports");
    if ops > 3 {
        ctx.distinct(lib0.fingerprint() ^ mix(ops));
    }
    ctx.sample(|| format!("{} operations interleaved: {log}; {}", ops, lib0.text()));
    Ok(())
}

/// Several evaluators of circuits that share a module, used alternately, against fresh ones.
fn c04_shared_module(ctx: &mut Ctx) -> Res {
    let lib = gen_lib(&mut ctx.rng, &GenCfg::modular(6, 20, 3));
    let lib2 = {
        let mut l = lib.clone();
        let p = gen_lib(&mut ctx.rng, &GenCfg::flat(4, 6)).progs.remove(0);
        l.progs.pop();
        l.progs.push(p);
        l
    };
    let mode = gen_mode(&mut ctx.rng);
    let b = build(&lib, &mode)?;
    let b2 = build(&lib2, &mode)?;
    ctx.note = describe(&lib, &mode);
    let mut e: Vec<(NXAOBoolEvaluator, &Lib, usize)> = Vec::new();
    for i in 0..lib.progs.len() {
        e.push((NXAOBoolEvaluator::new(b.refs[i].clone()), &lib, i));
        e.push((NXAOBoolEvaluator::new(b2.refs[i].clone()), &lib2, i));
    }
    for _ in 0..20 {
        let j = ctx.rng.below(e.len());
        let (ev, l, i) = &mut e[j];
        let (inp, n) = lanes(&mut ctx.rng, l.progs[*i].n_in);
        let want = l.eval(*i, &inp).outs;
        let la = ctx.rng.below(n);
        let got = ev.eval_output(&lane(&inp, la)).map_err(|x| format!("evaluator of program {i}: {x:?}"))?;
        check!(got == lane(&want, la), "evaluator of program {i} gave {} instead of {}", bits_str(&got), bits_str(&lane(&want, la)));
        ctx.eval(1);
    }
    ctx.distinct(lib.fingerprint());
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "random interleavings of construction steps, successful and failing evaluations by several old, fresh and cloned evaluators, and successful and failing exports by fresh and reused writers, with the full observable state of all circuits compared before and after each, and results with the interpreter at that moment; distinct by program and number of operations",
        assumptions: &[],
        kinds: vec![kind("interleave", 6000, 120_000, c04_interleave), kind("shared", 2000, 20_000, c04_shared_module)],
    }
}

// ---------------------------------------------------------------- C05

#[derive(Default)]
struct Shadow {
    gates: HashMap<GateId, NXAOBoolGate>,
    deps: HashMap<GateId, Vec<u64>>,
    inputs: Vec<GateId>,
    outputs: Vec<GateId>,
    consts: Vec<u64>,
    n_const: usize,
    n_gate: usize,
}

impl Shadow {
    fn uses(&mut self, g: &NXAOBoolGate, id: GateId) {
        for o in operands(g) {
            self.deps.entry(o).or_default().push(id.0);
        }
    }
    /// Adds a gate and the helper gates below it that are not known yet.
    fn discover(&mut self, c: &Nx, id: GateId) -> Result<(), String> {
        let mut st = vec![id];
        while let Some(i) = st.pop() {
            if self.gates.contains_key(&i) {
                continue;
            }
            let g = c.get_gate(&i).map_err(|e| format!("gate {i} of the circuit is not reported: {e:?}"))?;
            match &g {
                NXAOBoolGate::Input(_) | NXAOBoolGate::Module(_) => return Err(format!("step created a helper {g:?}")),
                NXAOBoolGate::Const(_) => {
                    self.consts.push(i.0);
                    self.n_const += 1;
                }
                _ => self.n_gate += 1,
            }
            self.uses(&g, i);
            st.extend(operands(&g));
            self.gates.insert(i, g);
        }
        Ok(())
    }
    fn check_counts(&self, c: &Nx) -> Result<(), String> {
        let b = c.borrow();
        let real = [b.input_len(), b.output_len(), b.num_const(), b.num_gate(), b.num_wire()];
        let real2 = [c.input_len(), c.output_len(), c.num_const(), c.num_gate(), c.num_wire()];
        let want = [
            self.inputs.len(),
            self.outputs.len(),
            self.n_const,
            self.n_gate,
            self.inputs.len() + self.n_const + self.n_gate,
        ];
        if real != want || real2 != want {
            return Err(format!("inputs, outputs, constants, gates, wires are reported as {real:?} / {real2:?} instead of {want:?}"));
        }
        Ok(())
    }
    fn check_all(&self, c: &Nx) -> Result<(), String> {
        for (i, g) in &self.gates {
            match c.get_gate(i) {
                Ok(r) if r == *g => {}
                r => return Err(format!("gate {i} became {r:?}, was {g:?}")),
            }
            let mut d: Vec<u64> = c.get_depended_gates(i).map_err(|e| format!("dependents of {i}: {e:?}"))?.iter().map(|x| x.0).collect();
            let mut w = self.deps.get(i).cloned().unwrap_or_default();
            d.sort();
            w.sort();
            if d != w {
                return Err(format!("dependents of gate {i} are {d:?} instead of {w:?}"));
            }
        }
        for (k, i) in self.inputs.iter().enumerate() {
            match c.input_to_gate_id(&WireId(k as u64)) {
                Ok(Some(x)) if x == *i => {}
                r => return Err(format!("input {k} is {r:?} instead of {i}")),
            }
        }
        for (k, i) in self.outputs.iter().enumerate() {
            match c.output_to_gate_id(&WireId(k as u64)) {
                Ok(x) if x == *i => {}
                r => return Err(format!("output {k} is {r:?} instead of {i}")),
            }
        }
        if c.input_to_gate_id(&WireId(self.inputs.len() as u64)).is_ok() || c.output_to_gate_id(&WireId(self.outputs.len() as u64)).is_ok() {
            return Err("an input or output that was not added is reported".into());
        }
        let mut k: Vec<u64> = c.get_const_gates().iter().map(|x| x.0).collect();
        let mut w = self.consts.clone();
        k.sort();
        w.sort();
        if k != w {
            return Err(format!("constants are reported as {k:?} instead of {w:?}"));
        }
        Ok(())
    }
}

fn same_bin(g: &NXAOBoolGate, s: &Step, v: &[GateId]) -> bool {
    let eq = |l: GateId, r: GateId, a: &u32, b: &u32| {
        let (a, b) = (v[*a as usize], v[*b as usize]);
        (l == a && r == b) || (l == b && r == a)
    };
    match (g, s) {
        (NXAOBoolGate::Not(g), Step::Not(a)) => g.id == v[*a as usize],
        (NXAOBoolGate::Const(g), Step::Const(b)) => g.value == *b,
        (NXAOBoolGate::Xor(g), Step::Xor(a, b)) => eq(g.left_id, g.right_id, a, b),
        (NXAOBoolGate::And(g), Step::And(a, b)) => eq(g.left_id, g.right_id, a, b),
        (NXAOBoolGate::Or(g), Step::Or(a, b)) => eq(g.left_id, g.right_id, a, b),
        _ => false,
    }
}

fn c05_run(ctx: &mut Ctx, lib: &Lib, mode: &BuildMode, every: usize) -> Res {
    ctx.note = describe(lib, mode);
    let n = lib.progs.len();
    let mut sh: Vec<Shadow> = (0..n).map(|_| Shadow::default()).collect();
    let mut b = start_build(lib, mode);
    let mut nsteps = 0u64;
    for i in 0..n {
        let mut hook = |b: &Built, i: usize, k: usize| -> Result<(), String> {
            nsteps += 1;
            let c = &b.refs[i];
            let s = &lib.progs[i].steps[k];
            let v = &b.vals[i];
            let last = lib.progs[i].steps.len() - 1 == k;
            let r = (|| -> Result<(), String> {
                match s {
                    Step::Out(a) => sh[i].outputs.push(v[*a as usize]),
                    Step::Input => {
                        let id = v[v.len() - 1];
                        let g = c.get_gate(&id).map_err(|e| format!("{e:?}"))?;
                        let k = sh[i].inputs.len();
                        if g != NXAOBoolGate::Input(InputGate { wire_id: WireId(k as u64) }) {
                            return Err(format!("input {k} was added as {g:?}"));
                        }
                        if sh[i].gates.insert(id, g).is_some() {
                            return Err(format!("gate id {id} was handed out before"));
                        }
                        sh[i].inputs.push(id);
                    }
                    Step::Call(m, al, args) => {
                        let no = lib.progs[*m as usize].outs.len();
                        let ids = &v[v.len() - no..];
                        let want: Vec<GateId> = args.iter().map(|a| v[*a as usize]).collect();
                        let mid = b.mids[&(b.sid[i], *m as usize, *al)];
                        for (j, id) in ids.iter().enumerate() {
                            let g = c.get_gate(id).map_err(|e| format!("{e:?}"))?;
                            match &g {
                                NXAOBoolGate::Module(x)
                                    if x.out_index == j
                                        && x.input_ids == want
                                        && x.module_id == mid
                                        && x.input_len == want.len()
                                        && x.output_len == no => {}
                                _ => return Err(format!("result {j} of the call of module {mid} with {want:?} was added as {g:?}")),
                            }
                            sh[i].uses(&g, *id);
                            if sh[i].gates.insert(*id, g).is_some() {
                                return Err(format!("gate id {id} was handed out before"));
                            }
                        }
                        let (nc, ng) = (sh[*m as usize].n_const, sh[*m as usize].n_gate);
                        sh[i].n_const += nc;
                        sh[i].n_gate += ng;
                    }
                    _ => {
                        let id = v[v.len() - 1];
                        if sh[i].gates.contains_key(&id) {
                            return Err(format!("gate id {id} was handed out before"));
                        }
                        let g = c.get_gate(&id).map_err(|e| format!("{e:?}"))?;
                        if !matches!(s, Step::Eqv(..) | Step::Ident(..)) && !same_bin(&g, s, v) {
                            return Err(format!("gate {id} was added as {g:?}"));
                        }
                        sh[i].discover(c, id)?;
                    }
                }
                sh[i].check_counts(c)?;
                if every <= 1 || k % every == 0 || last {
                    sh[i].check_all(c)?;
                }
                if every <= 1 {
                    // No other circuit has changed.
                    for j in 0..n {
                        if j != i {
                            sh[j].check_counts(&b.refs[j])?;
                        }
                    }
                }
                Ok(())
            })();
            r.map_err(|e| format!("after step {k} {s:?} of program {i}: {e}"))
        };
        fill(&mut b, lib, mode, i, &mut hook)?;
    }
    for i in 0..n {
        sh[i].check_counts(&b.refs[i]).map_err(|e| format!("program {i} at the end: {e}"))?;
        sh[i].check_all(&b.refs[i]).map_err(|e| format!("program {i} at the end: {e}"))?;
    }
    ctx.eval(nsteps);
    ctx.count("building steps observed", nsteps);
    Ok(())
}

fn c05_random(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.bit() { GenCfg::flat(8, 40) } else { GenCfg::modular(6, 24, 4) };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    c05_run(ctx, &lib, &mode, 1)?;
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| lib.text());
    Ok(())
}

fn c05_big(ctx: &mut Ctx) -> Res {
    if ctx.idx % 8 < 6 {
        let n = 66_000 + ctx.rng.below(1000);
        let p = big_prog(ctx, ctx.idx % 8, n);
        let mode = BuildMode { storage: 0, direct: ctx.rng.bit(), seed: 0 };
        let lib = lib1(p);
        c05_run(ctx, &lib, &mode, usize::MAX)?;
        ctx.distinct(lib.fingerprint());
    } else {
        let cfg = GenCfg { max_expanded: 500_000, max_outs: 30, ..GenCfg::modular(20, 3000, 6) };
        let lib = gen_lib(&mut ctx.rng, &cfg);
        let mode = gen_mode(&mut ctx.rng);
        c05_run(ctx, &lib, &mode, 500)?;
        ctx.distinct(lib.fingerprint());
    }
    Ok(())
}

/// Modules of more than 2^16 inputs, outputs, or calls of one module.
fn c05_modules(ctx: &mut Ctx) -> Res {
    let n = 65_600 + ctx.rng.below(500) as u32;
    let mut lib = Lib::default();
    let mut m = Prog::default();
    let mut p = Prog::default();
    p.push(Step::Input, &[]);
    match ctx.idx % 3 {
        0 => {
            for _ in 0..n {
                m.push(Step::Input, &[]);
            }
            m.push(Step::And(0, n - 1), &[]);
            for v in [n, n - 1, 0] {
                m.push(Step::Out(v), &[]);
            }
            lib.progs.push(m);
            for _ in 1..n {
                p.push(Step::Input, &[]);
            }
            p.push(Step::Call(0, 0, (0..n).rev().collect()), &lib.progs);
            let r = p.push(Step::Call(0, 0, vec![3; n as usize]), &lib.progs);
            p.push(Step::Out(r[0]), &[]);
        }
        1 => {
            m.push(Step::Input, &[]);
            m.push(Step::Not(0), &[]);
            for i in 0..n {
                m.push(Step::Out((i % 7 == 0) as u32), &[]);
            }
            lib.progs.push(m);
            let r = p.push(Step::Call(0, 0, vec![0]), &lib.progs);
            p.push(Step::Out(r[65_537]), &[]);
        }
        _ => {
            m.push(Step::Input, &[]);
            m.push(Step::Const(true), &[]);
            m.push(Step::Xor(0, 1), &[]);
            m.push(Step::Out(2), &[]);
            lib.progs.push(m);
            let mut v = 0;
            for i in 0..n {
                let r = p.push(Step::Call(0, 0, vec![if i % 3 == 0 { 0 } else { v }]), &lib.progs)[0];
                v = r;
            }
            p.push(Step::Out(v), &[]);
        }
    }
    lib.progs.push(p);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = format!("module family {} of size {n} with {mode:?}", ctx.idx % 3);
    c05_run(ctx, &lib, &mode, usize::MAX)?;
    ctx.distinct(lib.fingerprint());
    Ok(())
}

/// A tower of modules whose expanded counts exceed 2^32.
fn c05_tower(ctx: &mut Ctx) -> Res {
    let mut lib = Lib::default();
    let mut m = Prog::default();
    m.push(Step::Input, &[]);
    m.push(Step::Const(true), &[]);
    m.push(Step::Xor(0, 1), &[]);
    m.push(Step::Out(2), &[]);
    lib.progs.push(m);
    for i in 0..(33 + ctx.rng.below(8)) as u32 {
        let mut p = Prog::default();
        p.push(Step::Input, &[]);
        let r = p.push(Step::Call(i, 0, vec![0]), &lib.progs);
        let r = p.push(Step::Call(i, 0, r), &lib.progs);
        p.push(Step::Out(r[0]), &[]);
        if ctx.rng.bit() {
            p.push(Step::Not(r[0]), &[]);
        }
        lib.progs.push(p);
    }
    let mode = gen_mode(&mut ctx.rng);
    c05_run(ctx, &lib, &mode, 1)?;
    ctx.distinct(lib.fingerprint());
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "after every building step of random, large and nested programs, the whole state reported by the public interface (gates, operands, dependents as multisets, inputs, outputs, constants, five counters) is compared with a shadow model; distinct by text of the program",
        assumptions: &["modules are complete before they are called"],
        kinds: vec![
            kind("big", 8, 32, c05_big),
            kind("modules", 6, 30, c05_modules),
            kind("tower", 8, 40, c05_tower),
            kind("random", 6000, 120_000, c05_random),
        ],
    }
}

// ---------------------------------------------------------------- C06

fn unknown_ids(ctx: &mut Ctx, known: &HashSet<GateId>) -> Vec<GateId> {
    let top = known.iter().map(|g| g.0).max().map_or(0, |m| m + 1);
    let mut v = vec![top, top + 1, top + 100, 1 << 16, 1 << 32, u64::MAX, u64::MAX - 1, top + ctx.rng.below(1000) as u64];
    v.retain(|x| !known.contains(&GateId(*x)));
    v.into_iter().map(GateId).collect()
}

fn c06_misuse(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.chance(1, 3) { GenCfg::flat(5, 12) } else { GenCfg::modular(5, 12, 3) };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    let top = lib.progs.len() - 1;
    let mut b = start_build(&lib, &mode);
    for i in 0..top {
        fill(&mut b, &lib, &mode, i, &mut |_, _, _| Ok(()))?;
    }
    // All registrations first, so that the same module ids come out with and without misuse.
    let register = |b: &mut Built| {
        for m in 0..top {
            module_id(b, top, m, 0);
            module_id(b, top, m, 1);
        }
    };
    register(&mut b);
    let mut n_misuse = 0u64;
    let steps = lib.progs[top].steps.clone();
    for k in 0..=steps.len() {
        if k == steps.len() || ctx.rng.chance(1, 3) {
            ctx.note = format!("{} before step {k}", describe(&lib, &mode));
            let mut c = b.refs[top].clone();
            // Gate ids known to the circuit, with helpers.
            let mut known: HashSet<GateId> = b.vals[top].iter().copied().collect();
            let mut st: Vec<GateId> = known.iter().copied().collect();
            while let Some(g) = st.pop() {
                if let Ok(g) = c.get_gate(&g) {
                    for o in operands(&g) {
                        if known.insert(o) {
                            st.push(o);
                        }
                    }
                }
            }
            let bad = unknown_ids(ctx, &known);
            let good: Vec<GateId> = b.vals[top].clone();
            let ids: Vec<GateId> = known.iter().copied().collect();
            let clone = c.borrow().clone();
            let before = observe(&c, &ids);
            let what = ctx.rng.below(12);
            let x = *ctx.rng.pick(&bad);
            let g = if good.is_empty() { x } else { *ctx.rng.pick(&good) };
            let (l, r) = match ctx.rng.below(3) {
                0 => (x, g),
                1 => (g, x),
                _ => (x, *ctx.rng.pick(&bad)),
            };
            n_misuse += 1;
            ctx.count(&format!("misuse kind {what}"), 1);
            let res = guarded(|| -> Result<(), String> {
                let bad = |ok: bool, m: &str| if ok { Err(format!("{m} was accepted")) } else { Ok(()) };
                match what {
                    0 => bad(c.output(x).is_ok(), "output of an unknown gate"),
                    1 => bad(c.not(&x).is_ok(), "NOT of an unknown gate"),
                    2 => bad(c.xor(&l, &r).is_ok(), "XOR with an unknown gate"),
                    3 => bad(c.and(&l, &r).is_ok(), "AND with an unknown gate"),
                    4 => bad(c.or(&l, &r).is_ok(), "OR with an unknown gate"),
                    5 => bad(c.equivalent(&l, &r).is_ok(), "equivalence with an unknown gate"),
                    6 => bad(c.identity(&x).is_ok(), "identity of an unknown gate"),
                    7 => {
                        for y in [x.0, u64::MAX] {
                            bad(c.get_gate(&GateId(y)).is_ok(), "query of an unknown gate")?;
                        }
                        bad(c.input_to_gate_id(&WireId(c.input_len() as u64)).is_ok(), "query of an unknown input")?;
                        bad(c.input_to_gate_id(&WireId(u64::MAX)).is_ok(), "query of an unknown input")?;
                        bad(c.output_to_gate_id(&WireId(c.output_len() as u64)).is_ok(), "query of an unknown output")?;
                        bad(c.output_to_gate_id(&WireId(u64::MAX)).is_ok(), "query of an unknown output")?;
                        bad(c.get_module(&ModuleId(1 << 40)).is_ok(), "query of an unknown module")
                    }
                    _ => Ok(()),
                }
            });
            match res {
                Err(p) => fail!("misuse {what} with gate {x}: {p}"),
                Ok(r) => r?,
            }
            // Module calls.
            if what >= 8 && what <= 10 {
                let m = if lib.progs.len() > 1 { ctx.rng.below(top) } else { usize::MAX };
                let mut args: Vec<GateId>;
                let mid;
                let descr;
                if what == 8 || m == usize::MAX || good.is_empty() {
                    mid = ModuleId(*ctx.rng.pick(&[1 << 20, u64::MAX, 100_000]));
                    args = good.iter().take(ctx.rng.below(4)).copied().collect();
                    descr = "call of an unknown module";
                } else {
                    mid = module_id(&mut b, top, m, 0);
                    let n = lib.progs[m].n_in;
                    args = (0..n).map(|_| *ctx.rng.pick(&good)).collect();
                    if what == 9 || n == 0 {
                        descr = "call with a wrong number of operands";
                        if n > 0 && ctx.rng.bit() {
                            let cut = 1 + ctx.rng.below(n);
                            args.truncate(n - cut);
                        } else {
                            for _ in 0..1 + ctx.rng.below(4) {
                                args.push(*ctx.rng.pick(&good));
                            }
                        }
                    } else {
                        descr = "call with an unknown operand";
                        let p = ctx.rng.below(n);
                        args[p] = x;
                    }
                }
                match guarded(|| c.module(&mid, &args)) {
                    Err(p) => fail!("{descr}: {p}"),
                    Ok(Ok(r)) => fail!("{descr} (module {mid}, operands {args:?}) was accepted with {r:?}"),
                    Ok(Err(_)) => {}
                }
            }
            if what == 11 {
                let n = c.input_len();
                let mut lens = vec![n + 1, n + 2, n + 64, 0, n.saturating_sub(1), n / 2, 2 * n];
                lens.retain(|x| *x != n);
                for len in lens {
                    let bits = ctx.rng.bits(len);
                    let mut ev = NXAOBoolEvaluator::new(c.clone());
                    match guarded(|| ev.eval_output(&bits)) {
                        Err(p) => fail!("evaluation of {len} bits for {n} inputs: {p}"),
                        Ok(Ok(r)) => fail!("evaluation of {len} bits for {n} inputs gave {}", bits_str(&r)),
                        Ok(Err(_)) => {}
                    }
                    ctx.eval(1);
                }
            }
            ctx.eval(1);
            let after = observe(&c, &ids);
            check!(before == after, "misuse {what} changed the circuit:\n before {before:?}\n after {after:?}");
            // Registering a module (done above to have an id) adds nothing to the circuit itself.
            check!(*c.borrow() == clone, "misuse {what} changed the circuit: it differs from its clone");
        }
        if k < steps.len() {
            let s = &steps[k];
            let mid = match s {
                Step::Call(m, al, _) => Some(module_id(&mut b, top, *m as usize, *al)),
                _ => None,
            };
            let mut r = b.refs[top].clone();
            apply_ref(&mut r, s, &mut b.vals[top], mid).map_err(|e| format!("step {k} {s:?} after misuse: {e:?}"))?;
        }
    }
    // Fully usable afterwards, and the same as without the misuse.
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp);
    compare_eval(ctx, &b.top(), &inp, n, &want.outs, 8)?;
    let mut other = start_build(&lib, &mode);
    for i in 0..top {
        fill(&mut other, &lib, &mode, i, &mut |_, _, _| Ok(()))?;
    }
    register(&mut other);
    fill(&mut other, &lib, &mode, top, &mut |_, _, _| Ok(()))?;
    check!(
        observe(&b.top(), &b.vals[top]) == observe(&other.top(), &other.vals[top]),
        "after misuse the circuit differs from one built without misuse"
    );
    ctx.count("misuses", n_misuse);
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| format!("{n_misuse} misuses while building {}", lib.text()));
    Ok(())
}

/// Every position of an unknown operand in calls, and every wrong number of operands, for one module.
fn c06_positions(ctx: &mut Ctx) -> Res {
    let n = ctx.idx % 12;
    let mut m = new_circuit();
    let ins: Vec<GateId> = (0..n).map(|_| m.input().unwrap()).collect();
    let one = m.constant(true).unwrap();
    let mut acc = one;
    for i in &ins {
        acc = m.xor(&acc, i).unwrap();
    }
    m.output(acc).unwrap();
    m.output(one).unwrap();
    if n > 0 {
        m.output(ins[0]).unwrap();
    }
    let mut c = new_circuit();
    let mid = c.register_module(&m);
    let g: Vec<GateId> = (0..5).map(|_| c.input().unwrap()).collect();
    let ids = g.clone();
    let before = observe(&c, &ids);
    for len in 0..30 {
        let args: Vec<GateId> = (0..len).map(|i| g[i % 5]).collect();
        if len != n {
            match guarded(|| c.module(&mid, &args)) {
                Ok(Err(_)) => {}
                r => fail!("a call with {len} operands of a module of {n} inputs gave {r:?}"),
            }
        } else {
            for p in 0..n {
                for bad in [5u64, 6, 77, u64::MAX] {
                    let mut a = args.clone();
                    a[p] = GateId(bad);
                    match guarded(|| c.module(&mid, &a)) {
                        Ok(Err(_)) => {}
                        r => fail!("a call with unknown gate {bad} at position {p} gave {r:?}"),
                    }
                    ctx.eval(1);
                }
            }
        }
        ctx.eval(1);
        check!(before == observe(&c, &ids), "the rejected call with {len} operands changed the circuit");
    }
    let args: Vec<GateId> = (0..n).map(|i| g[i % 5]).collect();
    let r = c.module(&mid, &args).map_err(|e| format!("{e:?}"))?;
    for x in &r {
        c.output(*x).map_err(|e| format!("{e:?}"))?;
    }
    let (inp, lan) = lanes(&mut ctx.rng, 5);
    let mut acc = !0u64;
    for i in 0..n {
        acc ^= inp[i % 5];
    }
    let mut want = vec![acc, !0];
    if n > 0 {
        want.push(inp[0]);
    }
    compare_eval(ctx, &c, &inp, lan, &want, 32)?;
    let mut f = Fp::new();
    f.add(n as u64);
    ctx.distinct(f.0);
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "misuses (unknown gates as operands at every position or as outputs, unknown modules, wrong operand counts, wrong input counts, unknown queries) injected between the building steps of random programs; each must be an error, leave the observable state unchanged, and the finished circuit must equal the one built without misuse; distinct by program text",
        assumptions: &["a module is never a part of itself"],
        kinds: vec![kind("positions", 12, 12, c06_positions), kind("misuse", 8000, 150_000, c06_misuse)],
    }
}
