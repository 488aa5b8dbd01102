//! C03: the cost of evaluation and export, and their independence of depth.
use super::circuits::big_prog;
use crate::alloc;
use crate::model::*;
use crate::runner::*;
use crate::util::*;
use crate::check;
use circuit_converters::*;
use std::collections::HashMap;
use std::io::BufWriter;

/// An ordinary thread stack.
const STACK: usize = 2 << 20;

/// CPU time of a workload of `n` hash map operations, the unit of the CPU budget.
fn calibrate(n: u64) -> u64 {
    let t = thread_cpu_ns();
    let mut m: HashMap<u64, u64> = HashMap::new();
    let mut acc = 0u64;
    for i in 0..n {
        m.insert(i, i * 3);
        acc ^= m.get(&(i / 2)).copied().unwrap_or(1);
        if i % 2 == 0 {
            m.remove(&(i / 3));
        }
    }
    std::hint::black_box(acc);
    thread_cpu_ns() - t
}

struct Cost {
    size: u64,
    unit: u64,
}

// Limits per unit of size; the current code stays below a tenth of them, and below a fifth of the CPU time.
const ALLOCS: [u64; 2] = [15, 40];
const BYTES: [u64; 2] = [600, 1400];
// CPU time is measured again, with a new calibration, before it counts.
const CPU: u64 = 20;

impl Cost {
    fn new(size: u64) -> Self {
        Cost { size, unit: calibrate(size.max(20_000)) * size / size.max(20_000) }
    }
    fn measure<T>(&self, ctx: &mut Ctx, what: usize, mut f: impl FnMut() -> T) -> Result<T, String> {
        let name = ["evaluation", "export"][what];
        let (a0, t0) = (alloc::snap(), thread_cpu_ns());
        alloc::set_budget(Some(4 * (ALLOCS[what] * self.size + 50_000)), Some(10 << 30));
        let r = f();
        alloc::set_budget(None, Some(10 << 30));
        let (a1, t1) = (alloc::snap(), thread_cpu_ns());
        let (allocs, bytes, cpu) = (a1.allocs - a0.allocs, a1.bytes - a0.bytes, t1 - t0);
        ctx.max(&format!("allocations per 100 units of size, {name}"), allocs * 100 / self.size.max(1000));
        ctx.max(&format!("bytes per unit of size, {name}"), bytes / self.size.max(1000));
        ctx.max(&format!("percent of the calibration workload, {name}"), cpu * 100 / self.unit.max(1_000_000));
        let m = |x: &str, got: u64, lim: u64| format!("{name} of a circuit of size {} took {got} {x}; linear work stays far below {lim}", self.size);
        if allocs > ALLOCS[what] * self.size + 50_000 {
            return Err(m("allocations", allocs, ALLOCS[what] * self.size + 50_000));
        }
        if bytes > BYTES[what] * self.size + 8_000_000 {
            return Err(m("allocated bytes", bytes, BYTES[what] * self.size + 8_000_000));
        }
        let mut over = (cpu, self.unit);
        for _ in 0..3 {
            if over.0 <= CPU * over.1 + 60_000_000 {
                return Ok(r);
            }
            ctx.count("measurements of CPU time repeated", 1);
            let unit = Cost::new(self.size).unit;
            let t = thread_cpu_ns();
            drop(f());
            over = (thread_cpu_ns() - t, unit);
        }
        Err(m("ns of CPU time", over.0, CPU * over.1 + 60_000_000))
    }
}

fn judge(ctx: &mut Ctx, lib: &Lib, note: String) -> Res {
    ctx.note = note;
    let mode = BuildMode { storage: ctx.rng.below(2), direct: ctx.rng.bit(), seed: 1 };
    let b = build(lib, &mode)?;
    let c = b.top();
    drop(b);
    let size = lib.size();
    let cost = Cost::new(size);
    let (inp, n) = lanes(&mut ctx.rng, lib.top().n_in);
    let want = lib.eval_top(&inp).outs;
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    for j in 0..2 {
        let l = if j == 0 { 1 % n } else { ctx.rng.below(n) };
        let bits = lane(&inp, l);
        let got = cost.measure(ctx, 0, || ev.eval_output(&bits))?.map_err(|e| format!("evaluation failed: {e:?}"))?;
        check!(got == lane(&want, l), "the evaluated outputs are wrong");
        ctx.eval(1);
    }
    let w = cost.measure(ctx, 1, || {
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
        let r = w.write(0, None);
        (w.writer.into_inner().map(|v| v.len()), r.map(|v| v.len()))
    })?;
    let (len, nc) = (w.0.map_err(|e| format!("{e:?}"))?, w.1.map_err(|e| format!("writing failed: {e:?}"))?);
    ctx.eval(1);
    ctx.max("bytes of a written file", len as u64);
    ctx.max("size of a circuit", size);
    ctx.count("constants written", nc as u64);
    // A circuit that was read is as deep as the one written.
    if ctx.idx % 3 == 0 && len < 40_000_000 {
        let w = write_real(&c, 0)?;
        drop(c);
        let r = read_real(&w.text)?;
        let l = ctx.rng.below(n);
        let mut bits = lane(&inp, l);
        bits.extend(&w.consts);
        let rsize = 2 * size + 2 * lib.top().outs.len() as u64;
        let cost = Cost::new(rsize);
        let got = cost.measure(ctx, 0, || eval_real(&r, &bits))??;
        check!(got == lane(&want, l), "the outputs of the circuit that was written and read are wrong");
        ctx.eval(1);
    }
    ctx.distinct(lib.fingerprint());
    ctx.sample(|| ctx_note(lib, size));
    Ok(())
}

fn ctx_note(lib: &Lib, size: u64) -> String {
    format!("{} programs, top with {} steps, expanded size {}", lib.progs.len(), lib.top().steps.len(), size)
}

fn scale(ctx: &Ctx, q: usize, t: usize) -> usize {
    if ctx.thorough() {
        t
    } else {
        q
    }
}

fn flat_families(ctx: &mut Ctx) -> Res {
    let n = scale(ctx, 120_000, 400_000) + ctx.rng.below(1000);
    let p = big_prog(ctx, ctx.idx % 6, n);
    judge(ctx, &Lib { progs: vec![p] }, format!("flat family {} of {n}", ctx.idx % 6))
}

fn bin(k: usize, a: u32, b: u32) -> Step {
    match k % 4 {
        0 => Step::Xor(a, b),
        1 => Step::And(a, b),
        2 => Step::Or(a, b),
        _ => Step::Eqv(a, b),
    }
}

fn sharing_families(ctx: &mut Ctx) -> Res {
    let fam = ctx.idx % 8;
    let mut p = Prog::default();
    let n;
    match fam {
        // every gate uses the previous one twice
        0 => {
            n = scale(ctx, 200_000, 600_000);
            p.push(Step::Input, &[]);
            for i in 0..n as u32 {
                p.push(bin(i as usize, i, i), &[]);
            }
            p.push(Step::Out(n as u32), &[]);
        }
        // Fibonacci
        1 => {
            n = scale(ctx, 200_000, 600_000);
            p.push(Step::Input, &[]);
            p.push(Step::Input, &[]);
            for i in 0..n as u32 {
                p.push(if i % 2 == 0 { Step::Xor(i, i + 1) } else { Step::Or(i + 1, i) }, &[]);
            }
            p.push(Step::Out(n as u32), &[]);
            p.push(Step::Out(n as u32 + 1), &[]);
        }
        // butterfly: full mixing in every layer
        2 => {
            let w = 256u32;
            n = scale(ctx, 300, 1200) * 256;
            for _ in 0..w {
                p.push(Step::Input, &[]);
            }
            let mut base = 0;
            for l in 0..n as u32 / w {
                let d = 1 << (l % 8);
                for i in 0..w {
                    p.push(if (l + i) % 3 == 0 { Step::Xor(base + (i ^ d), base + i) } else { Step::Xor(base + i, base + (i ^ d)) }, &[]);
                }
                base += w;
            }
            for i in 0..w {
                p.push(Step::Out(base + i), &[]);
            }
        }
        // the same two gates as thousands of outputs
        3 => {
            n = scale(ctx, 150_000, 500_000);
            p.push(Step::Input, &[]);
            p.push(Step::Not(0), &[]);
            p.push(Step::Ident(1), &[]);
            for i in 0..n as u32 {
                p.push(Step::Out(1 + i % 2), &[]);
            }
        }
        // every gate of a chain is an output
        4 => {
            n = scale(ctx, 100_000, 400_000);
            p.push(Step::Input, &[]);
            p.push(Step::Input, &[]);
            for i in 0..n as u32 {
                p.push(Step::Xor(i, i + 1), &[]);
            }
            for i in (0..n as u32).rev() {
                p.push(Step::Out(i + 2), &[]);
            }
        }
        // a small output beside a large part that no output depends on
        5 => {
            n = scale(ctx, 150_000, 500_000);
            p.push(Step::Input, &[]);
            p.push(Step::Input, &[]);
            p.push(Step::And(0, 1), &[]);
            for i in 0..n as u32 {
                let b = if i % 2 == 0 { i } else { 2 };
                p.push(Step::Xor(i + 2, b), &[]);
            }
            p.push(Step::Out(2), &[]);
            p.push(Step::Out(0), &[]);
        }
        // a balanced tree with a deep spine
        6 => {
            n = scale(ctx, 120_000, 400_000);
            for _ in 0..64 {
                p.push(Step::Input, &[]);
            }
            for _ in 64..n {
                let k = p.n_vals;
                let a = (k - 1) as u32;
                let b = ctx.rng.below(k) as u32;
                p.push(if ctx.rng.bit() { Step::Eqv(a, b) } else { Step::Xor(b, a) }, &[]);
            }
            let k = p.n_vals as u32;
            p.push(Step::Out(k - 1), &[]);
            p.push(Step::Out(k / 2), &[]);
        }
        // two hubs used by everything, later gates first
        _ => {
            n = scale(ctx, 120_000, 400_000);
            for _ in 0..3 {
                p.push(Step::Input, &[]);
            }
            p.push(Step::Const(true), &[]);
            p.push(Step::Or(0, 1), &[]);
            for i in 0..n as u32 {
                p.push(bin(i as usize, 3 + i % 2, if i == 0 { 2 } else { 4 + i }), &[]);
            }
            let k = p.n_vals as u32;
            for i in 0..200 {
                p.push(Step::Out(k - 1 - i), &[]);
            }
        }
    }
    judge(ctx, &Lib { progs: vec![p] }, format!("sharing family {fam} of {n}"))
}

fn module_families(ctx: &mut Ctx) -> Res {
    let fam = ctx.idx % 10;
    let mut lib = Lib::default();
    let io = |n: usize| {
        let mut p = Prog::default();
        for _ in 0..n {
            p.push(Step::Input, &[]);
        }
        p
    };
    match fam {
        // modules that call the one below twice in a row: 2^k gates
        0 | 1 => {
            let mut m = io(1);
            m.push(Step::Not(0), &[]);
            m.push(Step::Out(1), &[]);
            lib.progs.push(m);
            for i in 0..scale(ctx, 13, 15) as u32 {
                let mut p = io(1);
                let r = p.push(Step::Call(i, 0, vec![0]), &lib.progs);
                let r = p.push(Step::Call(i, 0, r), &lib.progs);
                let last = if fam == 1 { p.push(Step::Xor(r[0], r[0]), &lib.progs)[0] } else { r[0] };
                p.push(Step::Out(last), &lib.progs);
                lib.progs.push(p);
            }
        }
        // nested modules with many results, each used many times
        2 => {
            let w = 6;
            let mut m = io(w);
            for i in 0..w as u32 {
                m.push(Step::Xor(i, (i + 1) % w as u32), &[]);
            }
            for i in 0..w as u32 {
                m.push(Step::Out(w as u32 + i), &[]);
            }
            lib.progs.push(m);
            for i in 0..scale(ctx, 200, 400) as u32 {
                let mut p = io(w);
                let r = p.push(Step::Call(i, 0, (0..w as u32).collect()), &lib.progs);
                for k in 0..w {
                    p.push(Step::Out(r[(k + 1) % w]), &lib.progs);
                }
                lib.progs.push(p);
            }
        }
        // many calls in a chain, each with several results
        3 => {
            let mut m = io(3);
            m.push(Step::Xor(0, 1), &[]);
            m.push(Step::And(1, 2), &[]);
            for v in [3, 4, 0, 3] {
                m.push(Step::Out(v), &[]);
            }
            lib.progs.push(m);
            let mut p = io(4);
            let mut prev = vec![0u32, 1, 2, 3];
            for i in 0..scale(ctx, 30_000, 120_000) {
                let k = i % 2;
                prev = p.push(Step::Call(0, 0, vec![prev[k], prev[k + 1], prev[k + 2]]), &lib.progs);
            }
            for v in prev {
                p.push(Step::Out(v), &lib.progs);
            }
            lib.progs.push(p);
        }
        // a deep chain inside a module
        4 => {
            let mut m = io(1);
            let n = scale(ctx, 250_000, 600_000) as u32;
            for i in 0..n {
                m.push(if i % 3 == 0 { Step::Ident(i) } else { Step::Not(i) }, &[]);
            }
            m.push(Step::Out(n), &[]);
            lib.progs.push(m);
            let mut p = io(1);
            let r = p.push(Step::Call(0, 0, vec![0]), &lib.progs);
            p.push(Step::Out(r[0]), &lib.progs);
            lib.progs.push(p);
        }
        // a module with many outputs
        5 => {
            let n = scale(ctx, 3000, 12_000) as u32;
            let mut m = io(2);
            for i in 0..n {
                m.push(Step::Xor(i, i + 1), &[]);
            }
            for i in 0..n {
                m.push(Step::Out(n + 1 - i), &[]);
            }
            lib.progs.push(m);
            let mut p = io(2);
            let r = p.push(Step::Call(0, 0, vec![0, 1]), &lib.progs);
            let mut acc = r[0];
            for v in &r {
                acc = p.push(Step::Xor(acc, *v), &lib.progs)[0];
                p.push(Step::Out(acc), &lib.progs);
            }
            lib.progs.push(p);
        }
        // four results per level, all of them used: 4^k if each result evaluated its call
        6 => {
            let mut m = io(4);
            for i in 0..4 {
                m.push(bin(i as usize, i, (i + 1) % 4), &[]);
            }
            for i in 4..8 {
                m.push(Step::Out(i), &[]);
            }
            lib.progs.push(m);
            for i in 0..scale(ctx, 9, 12) as u32 {
                let mut p = io(4);
                let r = p.push(Step::Call(i, 0, vec![3, 1, 2, 0]), &lib.progs);
                let r = if i % 2 == 0 { p.push(Step::Call(i, 0, r), &lib.progs) } else { r };
                for v in r.iter().rev() {
                    p.push(Step::Out(*v), &lib.progs);
                }
                lib.progs.push(p);
            }
        }
        // calls with many operands that are gates, calls and results of such calls
        7 | 8 => {
            let w = scale(ctx, 25_000, 60_000);
            let mut m = io(w);
            let mut acc = 0;
            for i in 1..w as u32 {
                acc = m.push(bin(i as usize, acc, i), &[])[0];
            }
            m.push(Step::Out(acc), &[]);
            lib.progs.push(m);
            let mut p = io(8);
            let mut args: Vec<u32> = vec![];
            for i in 0..w {
                args.push(p.push(if fam == 7 { Step::Not((i % 8) as u32) } else { bin(i, p.n_vals as u32 - 1, (i % 8) as u32) }, &lib.progs)[0]);
            }
            if fam == 8 {
                args.reverse();
            }
            let r = p.push(Step::Call(0, 0, args.clone()), &lib.progs);
            args[w / 2] = r[0];
            let r2 = p.push(Step::Call(0, 0, args), &lib.progs);
            p.push(Step::Out(r2[0]), &lib.progs);
            p.push(Step::Out(r[0]), &lib.progs);
            lib.progs.push(p);
        }
        // many modules, constants and results that are not used
        _ => {
            let nm = scale(ctx, 60, 200);
            for i in 0..nm {
                let mut m = io(2);
                m.push(Step::Const(i % 2 == 0), &[]);
                m.push(Step::Xor(0, 2), &[]);
                for j in 0..200u32 {
                    m.push(bin(i + j as usize, 3 + j, 1), &[]);
                }
                for v in [203, 3, 2, 100] {
                    m.push(Step::Out(v), &[]);
                }
                lib.progs.push(m);
            }
            let mut p = io(2);
            let mut last = 0;
            for i in 0..scale(ctx, 600, 2000) {
                let r = p.push(Step::Call((i % nm) as u32, 0, vec![last, 1]), &lib.progs);
                last = r[i % 4];
            }
            p.push(Step::Out(last), &lib.progs);
            lib.progs.push(p);
        }
    }
    judge(ctx, &lib, format!("module family {fam}"))
}

/// Nested modules whose results are used in part: at every level some results are unused, some are
/// used several times, in any order, beside inputs that are passed through.
fn result_families(ctx: &mut Ctx) -> Res {
    let depth = scale(ctx, 120, 300);
    let k = 2 + ctx.idx % 4;
    let w = k + ctx.rng.below(2);
    // 0: the same choice at every level, 1: a new one at every level, 2: gates between the calls
    let style = ctx.rng.below(3);
    let mut lib = Lib::default();
    let mut m = Prog::default();
    for _ in 0..w {
        m.push(Step::Input, &[]);
    }
    for i in 0..k {
        let g = m.push(bin(i, i as u32, ((i + 1) % w) as u32), &[])[0];
        let o = if ctx.rng.below(4) == 0 { i as u32 } else { g };
        m.push(Step::Out(o), &[]);
    }
    lib.progs.push(m);
    let choose = |ctx: &mut Ctx, skip_first: bool| -> Vec<(bool, usize)> {
        // (from the results, index); at least two results are used
        let from = if skip_first && k > 2 { 1 } else { 0 };
        let mut v: Vec<(bool, usize)> = (0..k).map(|_| if ctx.rng.below(3) == 0 { (false, ctx.rng.below(w)) } else { (true, from + ctx.rng.below(k - from)) }).collect();
        let a = ctx.rng.below(k);
        let b = (a + 1 + ctx.rng.below(k - 1)) % k;
        let r = from + ctx.rng.below(k - from);
        v[a] = (true, r);
        v[b] = (true, from + (r - from + 1) % (k - from));
        v
    };
    let skip = ctx.rng.bit();
    let mut pick = choose(ctx, skip);
    for i in 0..depth as u32 {
        if style > 0 {
            let skip = ctx.rng.below(3) > 0;
            pick = choose(ctx, skip);
        }
        let mut p = Prog::default();
        for _ in 0..w {
            p.push(Step::Input, &[]);
        }
        let mut args: Vec<u32> = (0..w as u32).collect();
        if style == 2 {
            let g = p.push(bin(ctx.rng.below(4), 0, 1), &[])[0];
            args[ctx.rng.below(w)] = g;
        }
        if ctx.rng.bit() {
            let r = ctx.rng.below(w);
            args.rotate_left(r);
        }
        let r = p.push(Step::Call(i, 0, args), &lib.progs);
        let vals: Vec<u32> = pick.iter().map(|(res, j)| if *res { r[*j] } else { *j as u32 }).collect();
        let mut outs = vals.clone();
        if style == 2 {
            let j = ctx.rng.below(k);
            outs[j] = p.push(bin(ctx.rng.below(4), vals[j], vals[(j + 1) % k]), &lib.progs)[0];
        }
        for v in outs {
            p.push(Step::Out(v), &lib.progs);
        }
        lib.progs.push(p);
    }
    // the top calls the deepest module, then again on what it returned
    let mut p = Prog::default();
    for _ in 0..w {
        p.push(Step::Input, &[]);
    }
    let top = lib.progs.len() as u32 - 1;
    let mut r = p.push(Step::Call(top, 0, (0..w as u32).collect()), &lib.progs);
    if ctx.rng.bit() {
        let args = (0..w).map(|i| if i + 1 < k { r[i + 1] } else { i as u32 }).collect();
        r = p.push(Step::Call(top, 0, args), &lib.progs);
    }
    let skip = ctx.rng.below(3);
    for v in r.iter().skip(skip.min(k - 1)).rev() {
        p.push(Step::Out(*v), &lib.progs);
    }
    lib.progs.push(p);
    judge(ctx, &lib, format!("result family, {k} results, style {style}, first skipped {skip}"))
}

pub fn c03() -> Prop {
    let k = |name, q, t, f| Kind { name, quick: q, thorough: t, cpu_s: 60, stack: STACK, f };
    Prop {
        id: "C03",
        rule: "large circuits of 28 families (deep chains, shared results, ladders, butterflies, hubs, many inputs, outputs, constants, dead parts, nested and repeated module calls, module results used in part) are built, evaluated twice, written, and read back on a thread with a 2 MB stack; allocations, allocated bytes and CPU time (against a calibration workload on the same thread) of every evaluation and export are compared with a linear bound; each circuit is non-trivial, distinct by the text of its program",
        assumptions: &["the work is bounded by fixed multiples of the size, at least ten times what the current code needs; a smaller slowdown is not seen"],
        kinds: vec![k("modules", 10, 30, module_families), k("results", 24, 120, result_families), k("sharing", 8, 24, sharing_families), k("flat", 6, 18, flat_families)],
    }
}
