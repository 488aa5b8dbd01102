//! C32 errors say what is wrong.
use super::bristol::{chunks, gen_file};
use crate::bfile::{BFile, Op};
use crate::faults::{Sink, Source};
use crate::model::*;
use crate::rng::{hash_str, Rng};
use crate::runner::*;
use crate::{check, fail};
use circuit_converters::arithmetic::*;
use circuit_converters::logic::*;
use circuit_converters::*;
use std::collections::HashSet;
use std::io::{BufWriter, ErrorKind, Write};

fn es(e: BuildCircuitError) -> String {
    format!("building failed: {e:?}")
}
fn eb(e: BoolCircuitError) -> String {
    format!("building failed: {e:?}")
}

/// The message names each of the numbers.
fn names(msg: &str, what: &[String]) -> Res {
    let words: HashSet<&str> = msg.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
    for w in what {
        check!(words.contains(w.as_str()) || words.contains(&*format!("{w}th")) || msg.contains(w.as_str()) && !w.bytes().all(|b| b.is_ascii_digit()), "the message {msg:?} does not name {w}");
    }
    Ok(())
}

/// What a circuit should complain about.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Gate(GateId),
    Module(ModuleId),
    Input(WireId),
    Output(WireId),
    Len(usize, usize),
}

/// Names of errors and their values as debug text: a tree that lacks one of the errors has to build, too.
fn circuit_error(what: &str, e: &BoolCircuitError, w: &Want) -> Res {
    let (text, n) = match w {
        Want::Gate(g) => (format!("UnknownGate({g:?})"), vec![g.0.to_string()]),
        Want::Module(g) => (format!("UnknownModule({g:?})"), vec![g.0.to_string()]),
        Want::Input(g) => (format!("UnknownInput({g:?})"), vec![g.0.to_string()]),
        Want::Output(g) => (format!("UnknownOutput({g:?})"), vec![g.0.to_string()]),
        Want::Len(a, b) => (format!("InvalidModuleInputLen({a}, {b})"), vec![a.to_string(), b.to_string()]),
    };
    check!(format!("{e:?}") == text, "{what}: the error is {e:?} instead of {text}");
    names(&e.to_string(), &n)
}

fn expect<T>(what: &str, r: Result<T, BoolCircuitError>, w: Want) -> Res {
    match r {
        Ok(_) => fail!("{what} was accepted, though {w:?} is wrong"),
        Err(e) => circuit_error(what, &e, &w),
    }
}

fn expect_build<T>(what: &str, r: Result<T, BuildCircuitError>, w: Want) -> Res {
    match r {
        Ok(_) => fail!("{what} was accepted, though {w:?} is wrong"),
        Err(BuildCircuitError::BoolCircuitError(e)) => {
            let inner = e.to_string();
            let outer = BuildCircuitError::BoolCircuitError(e);
            check!(outer.to_string() == inner, "{what}: the message is {:?} instead of {inner:?}", outer.to_string());
            let BuildCircuitError::BoolCircuitError(e) = outer else { unreachable!() };
            circuit_error(what, &e, &w)
        }
        Err(e) => fail!("{what}: the error is {e:?}, it should name {w:?}"),
    }
}

fn far(rng: &mut Rng, next: u64) -> u64 {
    match rng.below(6) {
        0 => next,
        1 => next + 1 + rng.below(5) as u64,
        2 => u64::MAX,
        3 => 1 << (20 + rng.below(44)),
        4 => next + (1 << 32),
        _ => next + rng.below(100_000) as u64,
    }
}

/// Every kind of misuse of one circuit, each with a single culprit.
fn c32_circuits(ctx: &mut Ctx) -> Res {
    let cfg = if ctx.rng.chance(1, 3) { GenCfg::flat(5, 12) } else { GenCfg::modular(6, 12, 3) };
    let lib = gen_lib(&mut ctx.rng, &cfg);
    let mode = gen_mode(&mut ctx.rng);
    ctx.note = crate::util::describe(&lib, &mode);
    let b = build(&lib, &mode)?;
    let mut c = b.top();
    if c.input_len() == 0 {
        c.input().map_err(eb)?;
    }
    let first = c.input_to_gate_id(&WireId(0)).map_err(eb)?.ok_or("no gate for input 0".to_string())?;
    let good: Vec<GateId> = b.vals.last().unwrap().iter().copied().chain([first]).collect();
    // Identifiers in use, with helper gates: everything connected with the known gates.
    let mut known: HashSet<GateId> = good.iter().copied().collect();
    let mut todo: Vec<GateId> = good.clone();
    while let Some(g) = todo.pop() {
        let more = crate::sim::operands(&c.get_gate(&g).map_err(eb)?).into_iter().chain(c.get_depended_gates(&g).map_err(eb)?);
        for o in more {
            if known.insert(o) {
                todo.push(o);
            }
        }
    }
    let next = known.iter().map(|g| g.0).max().unwrap_or(0);
    let mut log = String::new();
    for _ in 0..12 {
        let mut u = GateId(far(&mut ctx.rng, next.saturating_add(8)));
        while c.get_gate(&u).is_ok() {
            u = GateId(u.0 - 1);
        }
        let g = *ctx.rng.pick(&good);
        let (l, r) = match ctx.rng.below(3) {
            0 => (u, g),
            1 => (g, u),
            _ => (u, u),
        };
        let k = ctx.rng.below(15);
        ctx.count(&format!("circuit misuse {k}"), 1);
        log += &format!("{k} {u} {g};");
        ctx.eval(1);
        match k {
            0 => expect("output", c.output(u), Want::Gate(u))?,
            1 => expect("NOT", c.not(&u), Want::Gate(u))?,
            2 => expect("XOR", c.xor(&l, &r), Want::Gate(u))?,
            3 => expect("AND", c.and(&l, &r), Want::Gate(u))?,
            4 => expect("OR", c.or(&l, &r), Want::Gate(u))?,
            5 => expect("equivalence", c.equivalent(&l, &r), Want::Gate(u))?,
            6 => expect("identity", c.identity(&u), Want::Gate(u))?,
            7 => expect("a query of a gate", c.get_gate(&u), Want::Gate(u))?,
            8 => {
                let w = WireId(far(&mut ctx.rng, c.input_len() as u64));
                expect("a query of an input", c.input_to_gate_id(&w), Want::Input(w))?
            }
            9 => {
                let w = WireId(far(&mut ctx.rng, c.output_len() as u64));
                expect("a query of an output", c.output_to_gate_id(&w), Want::Output(w))?
            }
            10 | 11 => {
                let (new, s) = c.sub_circuit();
                drop(s);
                let m = ModuleId(far(&mut ctx.rng, new.0 + 1));
                if k == 10 {
                    expect("a query of a module", c.get_module(&m), Want::Module(m))?;
                    let s = c.borrow().module_storage.clone();
                    expect("a query of a module of the storage", s.get_module(&m), Want::Module(m))?;
                } else {
                    let args: Vec<GateId> = (0..ctx.rng.below(4)).map(|_| *ctx.rng.pick(&good)).collect();
                    expect("a call of an unknown module", c.module(&m, &args), Want::Module(m))?
                }
            }
            12 | 13 => {
                let (m, mut s) = c.sub_circuit();
                let n = 1 + ctx.rng.below(9);
                let mut last = s.input().map_err(eb)?;
                for _ in 1..n {
                    last = s.input().map_err(eb)?;
                }
                for _ in 0..ctx.rng.below(4) {
                    s.output(last).map_err(eb)?;
                }
                let mut args: Vec<GateId> = (0..n).map(|_| *ctx.rng.pick(&good)).collect();
                if k == 12 {
                    // One unknown operand, possibly more than once.
                    let at = ctx.rng.below(n);
                    args[at] = u;
                    if ctx.rng.chance(1, 4) {
                        let at = ctx.rng.below(n);
                        args[at] = u;
                    }
                    expect("a call with an unknown operand", c.module(&m, &args), Want::Gate(u))?
                } else {
                    let k = loop {
                        let k = ctx.rng.below(2 * n + 3);
                        if k != n {
                            break k;
                        }
                    };
                    let args: Vec<GateId> = (0..k).map(|_| *ctx.rng.pick(&good)).collect();
                    expect("a call with a wrong number of operands", c.module(&m, &args), Want::Len(k, n))?
                }
            }
            _ => {
                let n = c.input_len();
                let k = loop {
                    let k = ctx.rng.below(2 * n + 3);
                    if k != n {
                        break k;
                    }
                };
                let bits = ctx.rng.bits(k);
                match NXAOBoolEvaluator::new(c.clone()).eval_output(&bits) {
                    Err(e) => {
                        check!(format!("{e:?}") == format!("InvalidInputLen({k}, {n})"), "evaluation of {k} bits for {n} inputs: {e:?}");
                        names(&e.to_string(), &[k.to_string(), n.to_string()])?;
                    }
                    Ok(_) => fail!("evaluation of {k} bits for {n} inputs gave a result"),
                }
            }
        }
    }
    ctx.distinct(lib.fingerprint() ^ hash_str(&log));
    ctx.sample(|| log);
    Ok(())
}

fn builders_at<const N: usize>(ctx: &mut Ctx) -> Res {
    let mut c = new_circuit();
    let cfg = AllocIntConfig::<_, _, N>::new(&c).map_err(es)?;
    let bcfg = AllocBitsConfig::<_, _, N>::new(&c).map_err(es)?;
    let a = AllocInt::new(&cfg).map_err(es)?;
    let b = AllocBits::new(&bcfg).map_err(es)?;
    let mut log = String::new();
    for _ in 0..6 {
        let u = GateId(far(&mut ctx.rng, 1000 + 20 * N as u64));
        let at = ctx.rng.below(N);
        let mut ids = a.val_le.clone();
        ids[at] = u;
        let k = ctx.rng.below(9);
        log += &format!("{k} {at} {u};");
        ctx.note = format!("width {N}: {log}");
        ctx.eval(1);
        ctx.count(&format!("builder misuse {k}"), 1);
        let x = AllocInt::from_gate_ids(ids.clone(), &cfg).map_err(es)?;
        let y = AllocBits::from_gate_ids(ids, &bcfg).map_err(es)?;
        let w = Want::Gate(u);
        let (l, r) = if ctx.rng.bit() { (&x, &a) } else { (&a, &x) };
        match k {
            0 => expect_build("output of an integer", x.output(), w)?,
            1 => expect_build("output of bits", y.output(), w)?,
            2 => expect_build("eq", l.eq(r), w)?,
            3 => expect_build("less", l.less(r), w)?,
            4 => expect_build("larger or equal", l.larger_or_eq(r), w)?,
            5 => expect_build("larger", l.larger(r), w)?,
            6 => expect_build("eq of bits", y.eq(&b), w)?,
            7 => expect_build("selection", if ctx.rng.bit() { b.mux(&y, &b.bits[0]) } else { y.mux(&b, &b.bits[0]) }, w)?,
            _ => expect_build("selection by an unknown bit", b.mux(&b, &u), w)?,
        }
    }
    // The circuit still works.
    c.input().map_err(eb)?;
    ctx.distinct(hash_str(&log));
    Ok(())
}

fn c32_builders(ctx: &mut Ctx) -> Res {
    let n = *ctx.rng.pick(&[1, 2, 3, 5, 8, 16, 33]);
    crate::at_width!(n, builders_at(ctx); 1 2 3 5 8 16 33)
}

/// What the reader should complain about.
#[derive(Debug, Clone)]
enum Bad {
    Line(usize),
    Split,
    Header,
    Arity(&'static str),
    Wire(usize),
    Constant(usize),
    Name(String),
    Number,
}

fn reader_error(e: &BristolError, w: &Bad) -> Res {
    let text = format!("{e:?}");
    let (ok, n): (bool, Vec<String>) = match w {
        Bad::Line(b) => (text == format!("NotFoundLine({b})"), vec![b.to_string()]),
        Bad::Split => (text == "LineSplitError", vec![]),
        Bad::Header => (text == "InvalidHeader", vec![]),
        Bad::Arity(b) => (text == format!("InvalidGateArity({b:?})"), vec![b.to_string()]),
        Bad::Wire(b) => (text == format!("UnknownWire({b})"), vec![b.to_string()]),
        Bad::Constant(b) => (text == format!("InvalidConstant({b})"), vec![b.to_string()]),
        Bad::Name(b) => (text == format!("NotSupportedGate({b:?})"), vec![b.to_string()]),
        Bad::Number => (matches!(e, BristolError::ParseIntError(_)), vec![]),
    };
    check!(ok, "the error is {text}, it should be about {w:?}");
    names(&e.to_string(), &n)
}

fn join(rng: &mut Rng, lines: &[Vec<String>], eol: bool) -> Vec<u8> {
    let wide = rng.chance(1, 3);
    let mut o = String::new();
    for (i, l) in lines.iter().enumerate() {
        for (j, t) in l.iter().enumerate() {
            if j > 0 {
                o += if wide { *rng.pick(&[" ", "  ", "\t"]) } else { " " };
            }
            o += t;
        }
        if eol || i + 1 < lines.len() {
            o += "\n";
        }
    }
    o.into_bytes()
}

fn tokens(f: &BFile) -> Vec<Vec<String>> {
    let t = f.text();
    t.strip_suffix('\n').unwrap().split('\n').map(|l| l.split(' ').filter(|t| !t.is_empty()).map(String::from).collect()).collect()
}

/// A file with exactly one thing wrong.
fn bad_file(rng: &mut Rng) -> (Vec<u8>, Bad) {
    loop {
        let (i, g) = if rng.chance(1, 20) { (30, 300) } else { (5, 14) };
        let mut f = gen_file(rng, i, g);
        let mut t = tokens(&f);
        let n = f.gates.len();
        let gate = if n > 0 { rng.below(n) } else { 0 };
        let assigned = |f: &BFile, k: usize| -> Vec<usize> { (0..f.n_in()).chain(f.gates[..k].iter().map(|g| g.out)).collect() };
        let num = |rng: &mut Rng| rng.pick(&["x", "-1", "1.5", "0x1", "99999999999999999999999", "1,", "١", "--", "1e3"]).to_string();
        match rng.below(15) {
            0 => {
                let k = 1 + rng.below(4);
                t.truncate(k - 1);
                return (join(rng, &t, true), Bad::Line(k));
            }
            1 => {
                // A header line that ends early.
                let l = rng.below(3);
                let k = rng.below(t[l].len());
                t[l].truncate(k);
                return (join(rng, &t, true), Bad::Split);
            }
            2 if n > 0 => {
                let l = &mut t[4 + gate];
                let k = 1 + rng.below(l.len() - 1);
                l.truncate(k);
                return (join(rng, &t, true), Bad::Split);
            }
            3 => {
                // More outputs than wires, also too many to add up.
                let k = f.n_wires + 1 + rng.below(5);
                t[2] = match rng.below(3) {
                    0 => vec!["1".into(), k.to_string()],
                    1 => vec!["2".into(), (k - 1).to_string(), "1".into()],
                    _ => vec!["2".into(), usize::MAX.to_string(), (1 + rng.below(3)).to_string()],
                };
                return (join(rng, &t, true), Bad::Header);
            }
            4 | 5 if n > 0 => {
                // A wire that is assigned later, by the line itself, or never.
                let g = f.gates[gate].clone();
                if g.op == Op::Eq {
                    continue;
                }
                let w = match rng.below(4) {
                    0 => f.n_wires + rng.below(3),
                    1 => *rng.pick(&[usize::MAX, 1 << 32, f.n_wires + 70_000]),
                    _ => f.gates[gate + rng.below(n - gate)].out,
                };
                let at = rng.below(g.ins.len());
                t[4 + gate][2 + at] = w.to_string();
                if rng.chance(1, 5) {
                    for k in 0..g.ins.len() {
                        t[4 + gate][2 + k] = w.to_string();
                    }
                }
                return (join(rng, &t, true), Bad::Wire(w));
            }
            6 => {
                // An output that is never assigned.
                if f.n_out() == 0 {
                    continue;
                }
                if rng.bit() || n == 0 {
                    f.n_wires += 1;
                    t[0][1] = f.n_wires.to_string();
                    return (join(rng, &t, true), Bad::Wire(f.n_wires - 1));
                }
                let o = f.gates[gate].out;
                if o < f.n_wires - f.n_out() || f.gates.iter().any(|g| g.op != Op::Eq && g.ins.contains(&o)) {
                    continue;
                }
                t.remove(4 + gate);
                return (join(rng, &t, true), Bad::Wire(o));
            }
            7 if n > 0 => {
                if f.gates[gate].op != Op::Eq {
                    continue;
                }
                let k = *rng.pick(&[2, 3, 10, 255, 256, 65_536, 1 << 40, usize::MAX]);
                t[4 + gate][2] = k.to_string();
                return (join(rng, &t, true), Bad::Constant(k));
            }
            8 | 9 if n > 0 => {
                // Another number of operands or results, all of them fine.
                let g = &f.gates[gate];
                let ok = assigned(&f, gate);
                if ok.is_empty() {
                    continue;
                }
                let a = g.op.arity();
                let (i, o) = match rng.below(4) {
                    0 => (a + 1 + rng.below(3), 1),
                    1 => (a - 1, 1),
                    2 => (a, 0),
                    _ => (a, 2 + rng.below(2)),
                };
                let mut l = vec![i.to_string(), o.to_string()];
                for _ in 0..i {
                    l.push(if g.op == Op::Eq { "0".to_string() } else { rng.pick(&ok).to_string() });
                }
                for k in 0..o {
                    l.push((if k == 0 { g.out } else { f.n_wires + k }).to_string());
                }
                l.push(g.op.name().to_string());
                t[4 + gate] = l;
                return (join(rng, &t, true), Bad::Arity(g.op.name()));
            }
            10 | 11 if n > 0 => {
                let names = ["NAND", "NOT", "xor", "And", "MAND", "XNOR", "INVX", "IN", "EQQ", "OR2", "ANDAND", "7", "Σ", "_", "X-OR"];
                let name = rng.pick(&names).to_string();
                *t[4 + gate].last_mut().unwrap() = name.clone();
                return (join(rng, &t, true), Bad::Name(name));
            }
            12 => {
                let l = rng.below(3);
                let k = rng.below(t[l].len());
                t[l][k] = num(rng);
                return (join(rng, &t, true), Bad::Number);
            }
            13 | 14 if n > 0 => {
                let k = rng.below(t[4 + gate].len() - 1);
                t[4 + gate][k] = num(rng);
                return (join(rng, &t, true), Bad::Number);
            }
            _ => {}
        }
    }
}

fn receiver(rng: &mut Rng) -> Result<Nx, String> {
    let mut c = new_circuit();
    if rng.bit() {
        let lib = gen_lib(rng, &GenCfg::modular(4, 8, 2));
        let mode = gen_mode(rng);
        c = build(&lib, &mode)?.top();
    }
    Ok(c)
}

fn c32_files(ctx: &mut Ctx) -> Res {
    let mut r = BristolNXAOReader::new();
    for _ in 0..6 {
        let (text, bad) = bad_file(&mut ctx.rng);
        ctx.note = format!("{:?}: {bad:?}", String::from_utf8_lossy(&text));
        let mut c = receiver(&mut ctx.rng)?;
        let ch = chunks(&mut ctx.rng);
        let res = if ctx.rng.bit() { r.read(Source::new(&text, ch), &mut c) } else { BristolNXAOReader::new().read(Source::new(&text, ch), &mut c) };
        ctx.eval(1);
        let kind = format!("{bad:?}");
        ctx.count(&format!("files: {}", kind.split('(').next().unwrap()), 1);
        match res {
            Ok(()) => fail!("reading succeeded, though the file is wrong"),
            Err(e) => reader_error(&e, &bad)?,
        }
        ctx.distinct(hash_str(&ctx.note.clone()));
        ctx.sample(|| format!("{:?}", String::from_utf8_lossy(&text)));
    }
    Ok(())
}

const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
];

fn io_error(what: &str, e: &BristolError, kind: ErrorKind, injected: bool) -> Res {
    match e {
        BristolError::IOError(e) => {
            check!(e.kind() == kind, "{what}: the error is of kind {:?} instead of {kind:?}", e.kind());
            check!(!injected || e.to_string() == "injected", "{what}: the message is {:?} instead of that of the fault", e.to_string());
        }
        e => fail!("{what}: the error is {e:?}, it should be the I/O error {kind:?}"),
    }
    Ok(())
}

fn c32_io(ctx: &mut Ctx) -> Res {
    for _ in 0..4 {
        let kind = *ctx.rng.pick(&KINDS);
        ctx.count(&format!("I/O faults {kind:?}"), 1);
        if ctx.rng.bit() {
            let f = gen_file(&mut ctx.rng, 5, 30);
            let mut text = f.text().into_bytes();
            let at = ctx.rng.below(text.len());
            let mut c = receiver(&mut ctx.rng)?;
            if ctx.rng.chance(1, 4) {
                // Bytes that are not text.
                let b = *ctx.rng.pick(&[0x80u8, 0xff, 0xc3, 0xf5]);
                text.insert(at, b);
                ctx.note = format!("{:?} with byte {b:x} at {at}", f.text());
                match BristolNXAOReader::new().read(&text[..], &mut c) {
                    Ok(()) => fail!("a file that is no text was read"),
                    Err(e) => io_error("reading bytes that are no text", &e, ErrorKind::InvalidData, false)?,
                }
            } else {
                let ch = chunks(&mut ctx.rng);
                let mut s = Source::new(&text, ch);
                s.limit = at;
                s.kind = kind;
                if ctx.rng.chance(1, 3) {
                    s.interrupt = 2 + ctx.rng.below(3);
                }
                ctx.note = format!("{:?} failing with {kind:?} at {at}", f.text());
                match BristolNXAOReader::new().read(s, &mut c) {
                    Ok(()) => fail!("reading succeeded, though the source failed"),
                    Err(e) => io_error("reading", &e, kind, true)?,
                }
            }
            ctx.distinct(hash_str(&ctx.note.clone()));
        } else {
            let lib = gen_lib(&mut ctx.rng, &GenCfg { max_outs: 10, ..GenCfg::modular(6, 30, 2) });
            let mode = gen_mode(&mut ctx.rng);
            let c = build(&lib, &mode)?.top();
            let len = crate::util::write_real(&c, 0)?.text.len();
            let mut s = Sink::failing(ctx.rng.below(len));
            s.kind = kind;
            s.zero = ctx.rng.chance(1, 6);
            s.piece = *ctx.rng.pick(&[0, 0, 1, 7]);
            let want = if s.zero { ErrorKind::WriteZero } else { kind };
            let zero = s.zero;
            let cap = *ctx.rng.pick(&[0, 1, 16, 100, 8192]);
            ctx.note = format!("{} written to a sink that fails with {want:?} at {}, buffer of {cap}", lib.text(), s.limit);
            let mut w = BristolNXAOWriter::new(c, BufWriter::with_capacity(cap, s));
            match w.write(0, None) {
                Err(e) => io_error("writing", &e, want, !zero)?,
                Ok(_) => match w.writer.flush() {
                    Ok(()) => fail!("writing and flushing succeeded, though the sink failed"),
                    Err(e) => check!(e.kind() == want, "flushing: the error is of kind {:?} instead of {want:?}", e.kind()),
                },
            }
            ctx.distinct(lib.fingerprint() ^ hash_str(&ctx.note.clone()));
        }
        ctx.eval(1);
    }
    Ok(())
}

/// Strings that are no hex.
fn c32_hex(ctx: &mut Ctx) -> Res {
    for _ in 0..40 {
        let n = if ctx.rng.chance(1, 20) { *ctx.rng.pick(&[300, 3000, 9000, 70_000]) + ctx.rng.below(900) } else { ctx.rng.below(40) };
        let mut s: Vec<char> = (0..n).map(|_| *ctx.rng.pick(&"0123456789abcdefABCDEF".chars().collect::<Vec<_>>())).collect();
        if ctx.rng.bit() {
            if n % 2 == 0 {
                s.push('0');
            }
            let t: String = s.iter().collect();
            ctx.note = t.clone();
            check!(hex2bytes(&t) == Err(FromHexError::OddLength), "{t:?}: {:?} instead of an odd length", hex2bytes(&t));
        } else {
            if n % 2 == 1 {
                s.push('0');
            }
            if s.is_empty() {
                continue;
            }
            let at = ctx.rng.below(s.len());
            let c = *ctx.rng.pick(&['g', 'G', ' ', '-', '/', ':', '@', '`', 'x', '\n', '\0', '~']);
            s[at] = c;
            let t: String = s.iter().collect();
            ctx.note = t.clone();
            check!(hex2bytes(&t) == Err(FromHexError::InvalidHexCharacter { c, index: at }), "{t:?}: {:?} instead of {c:?} at {at}", hex2bytes(&t));
        }
        ctx.eval(1);
        ctx.distinct(hash_str(&ctx.note.clone()));
    }
    Ok(())
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "random circuits, builders, files, sources and sinks with exactly one thing wrong (an unknown gate, module, input or output, a wrong number of operands or bits, a malformed line or name, an I/O fault of a chosen kind, text that is no hex); the kind of the error, the values it carries and its message are compared with what is wrong; non-trivial: distinct by circuit or text and misuse",
        assumptions: &["which of several wrong things is reported first is not specified and not exercised"],
        kinds: vec![kind("hex", 60, 1000, c32_hex), kind("builders", 300, 8000, c32_builders), kind("io", 3000, 80_000, c32_io), kind("circuits", 4000, 120_000, c32_circuits), kind("files", 6000, 200_000, c32_files)],
    }
}
