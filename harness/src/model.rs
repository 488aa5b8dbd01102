//! Construction programs: the reference model of circuits, independent of the code under test.
//!
//! A `Lib` is a list of programs; program i may call programs j < i as modules; the last one is the circuit under
//! test. `eval` is the denotation of a program on 64 input vectors at once. `build` performs the very same steps on
//! the real library through its public interface.
use crate::rng::{Fp, Rng};
use circuit_converters::*;
use std::collections::HashMap;

pub type Nx = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;
pub type Store = ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>;

pub fn new_store() -> Store {
    ModuleStorageRef::new()
}
pub fn new_circuit() -> Nx {
    NXAOBoolCircuit::new(new_store()).to_ref()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Input,
    Const(bool),
    Not(u32),
    Xor(u32, u32),
    And(u32, u32),
    Or(u32, u32),
    Eqv(u32, u32),
    Ident(u32),
    Out(u32),
    /// Callee, which of the registrations of the callee to use, operands.
    Call(u32, u32, Vec<u32>),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Prog {
    pub steps: Vec<Step>,
    pub n_in: usize,
    pub n_vals: usize,
    pub outs: Vec<u32>,
}

impl Prog {
    pub fn push(&mut self, s: Step, lib: &[Prog]) -> Vec<u32> {
        let first = self.n_vals as u32;
        let n = match &s {
            Step::Out(v) => {
                self.outs.push(*v);
                0
            }
            Step::Input => {
                self.n_in += 1;
                1
            }
            Step::Call(m, _, args) => {
                assert_eq!(args.len(), lib[*m as usize].n_in);
                lib[*m as usize].outs.len()
            }
            _ => 1,
        };
        self.n_vals += n;
        self.steps.push(s);
        (first..first + n as u32).collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Lib {
    pub progs: Vec<Prog>,
}

pub struct Vals {
    pub vals: Vec<u64>,
    pub outs: Vec<u64>,
}

impl Lib {
    pub fn top(&self) -> &Prog {
        self.progs.last().unwrap()
    }
    pub fn eval(&self, p: usize, inputs: &[u64]) -> Vals {
        let pr = &self.progs[p];
        assert_eq!(inputs.len(), pr.n_in);
        let mut v: Vec<u64> = Vec::with_capacity(pr.n_vals);
        let mut ni = 0;
        for s in &pr.steps {
            let r = match s {
                Step::Input => {
                    ni += 1;
                    inputs[ni - 1]
                }
                Step::Const(b) => {
                    if *b {
                        !0
                    } else {
                        0
                    }
                }
                Step::Not(a) => !v[*a as usize],
                Step::Ident(a) => v[*a as usize],
                Step::Xor(a, b) => v[*a as usize] ^ v[*b as usize],
                Step::And(a, b) => v[*a as usize] & v[*b as usize],
                Step::Or(a, b) => v[*a as usize] | v[*b as usize],
                Step::Eqv(a, b) => !(v[*a as usize] ^ v[*b as usize]),
                Step::Out(_) => continue,
                Step::Call(m, _, args) => {
                    let a: Vec<u64> = args.iter().map(|x| v[*x as usize]).collect();
                    v.extend(self.eval(*m as usize, &a).outs);
                    continue;
                }
            };
            v.push(r);
        }
        let outs = pr.outs.iter().map(|o| v[*o as usize]).collect();
        Vals { vals: v, outs }
    }
    pub fn eval_top(&self, inputs: &[u64]) -> Vals {
        self.eval(self.progs.len() - 1, inputs)
    }
    /// Number of steps with all calls expanded (saturating).
    pub fn expanded(&self, p: usize) -> u64 {
        let mut memo: Vec<u64> = Vec::new();
        for q in 0..=p {
            let mut n = 0u64;
            for s in &self.progs[q].steps {
                n = n.saturating_add(match s {
                    Step::Call(m, _, a) => memo[*m as usize].saturating_add(a.len() as u64 + 1),
                    _ => 1,
                });
            }
            memo.push(n);
        }
        memo[p]
    }
    /// Gates, operand uses, inputs, outputs and calls, with all calls expanded.
    pub fn size(&self) -> u64 {
        let mut memo: Vec<u64> = Vec::new();
        for pr in &self.progs {
            let mut n = 0u64;
            for s in &pr.steps {
                n += match s {
                    Step::Input | Step::Const(_) => 1,
                    Step::Not(_) | Step::Out(_) => 2,
                    Step::Ident(_) => 4,
                    Step::Xor(..) | Step::And(..) | Step::Or(..) => 3,
                    Step::Eqv(..) => 5,
                    Step::Call(m, _, a) => {
                        let o = self.progs[*m as usize].outs.len() as u64;
                        memo[*m as usize] + 1 + a.len() as u64 * (o + 1) + o
                    }
                };
            }
            memo.push(n);
        }
        *memo.last().unwrap()
    }
    pub fn fingerprint(&self) -> u64 {
        let mut f = Fp::new();
        for p in &self.progs {
            f.add(p.steps.len() as u64 | 1 << 60);
            for s in &p.steps {
                let (t, x): (u64, Vec<u64>) = match s {
                    Step::Input => (1, vec![]),
                    Step::Const(b) => (2, vec![*b as u64]),
                    Step::Not(a) => (3, vec![*a as u64]),
                    Step::Xor(a, b) => (4, vec![*a as u64, *b as u64]),
                    Step::And(a, b) => (5, vec![*a as u64, *b as u64]),
                    Step::Or(a, b) => (6, vec![*a as u64, *b as u64]),
                    Step::Eqv(a, b) => (7, vec![*a as u64, *b as u64]),
                    Step::Ident(a) => (8, vec![*a as u64]),
                    Step::Out(a) => (9, vec![*a as u64]),
                    Step::Call(m, k, a) => (10, [vec![*m as u64, *k as u64], a.iter().map(|x| *x as u64).collect()].concat()),
                };
                f.add(t);
                for y in x {
                    f.add(y + 100);
                }
            }
        }
        f.0
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (i, p) in self.progs.iter().enumerate() {
            o += &format!("P{i}[");
            let mut n = 0;
            for s in &p.steps {
                let k = match s {
                    Step::Out(_) => 0,
                    Step::Call(m, _, _) => self.progs[*m as usize].outs.len(),
                    _ => 1,
                };
                if k == 1 {
                    o += &format!("v{n}=");
                } else if k > 1 {
                    o += &format!("v{n}..v{}=", n + k - 1);
                }
                n += k;
                o += &match s {
                    Step::Input => "in".to_string(),
                    Step::Const(b) => format!("{}", *b as u8),
                    Step::Not(a) => format!("!v{a}"),
                    Step::Xor(a, b) => format!("v{a}^v{b}"),
                    Step::And(a, b) => format!("v{a}&v{b}"),
                    Step::Or(a, b) => format!("v{a}|v{b}"),
                    Step::Eqv(a, b) => format!("v{a}==v{b}"),
                    Step::Ident(a) => format!("id v{a}"),
                    Step::Out(a) => format!("out v{a}"),
                    Step::Call(m, k, a) => format!("P{m}#{k}({})", a.iter().map(|x| format!("v{x}")).collect::<Vec<_>>().join(",")),
                };
                o += "; ";
                if o.len() > 6000 {
                    o += "...";
                    return o;
                }
            }
            o += "] ";
        }
        o
    }
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_in: usize,
    pub max_steps: usize,
    pub max_modules: usize,
    pub max_expanded: u64,
    pub max_outs: usize,
}

impl GenCfg {
    pub fn flat(max_in: usize, max_steps: usize) -> Self {
        GenCfg { max_in, max_steps, max_modules: 0, max_expanded: 100_000, max_outs: 8 }
    }
    pub fn modular(max_in: usize, max_steps: usize, max_modules: usize) -> Self {
        GenCfg { max_in, max_steps, max_modules, max_expanded: 6_000, max_outs: 6 }
    }
}

fn operand(rng: &mut Rng, n: usize, style: usize, hub: u32) -> u32 {
    (match style {
        0 => rng.below(n),
        1 => n - 1 - rng.below(n.min(3)),
        2 => {
            if rng.chance(1, 2) {
                hub as usize
            } else {
                n - 1 - rng.below(n.min(5))
            }
        }
        _ => rng.skewed(n),
    }) as u32
}

fn gen_prog(rng: &mut Rng, cfg: &GenCfg, done: &[Prog]) -> Prog {
    let mut p = Prog::default();
    let style = rng.below(4);
    let n_in = match rng.below(6) {
        0 => rng.below(2.min(cfg.max_in + 1)),
        1 => cfg.max_in,
        _ => rng.below(cfg.max_in + 1),
    };
    let late = rng.chance(1, 4);
    for _ in 0..(if late { n_in / 2 } else { n_in }) {
        p.push(Step::Input, done);
    }
    let mut missing = n_in - p.n_in;
    let n_steps = 1 + rng.below(cfg.max_steps);
    let const_w = *rng.pick(&[0, 1, 1, 3]);
    let call_w = if done.is_empty() { 0 } else { *rng.pick(&[1, 3, 6]) };
    let two_w = *rng.pick(&[1, 4]);
    let rep = rng.chance(1, 5);
    let hub = rng.below(3) as u32;
    let out_mid = rng.chance(1, 3);
    for _ in 0..n_steps {
        if missing > 0 && rng.chance(1, 3) {
            p.push(Step::Input, done);
            missing -= 1;
            continue;
        }
        let n = p.n_vals;
        if n == 0 {
            // Nothing to refer to yet: a constant, a call without operands, or an input.
            let zero: Vec<usize> = (0..done.len()).filter(|m| done[*m].n_in == 0).collect();
            if !zero.is_empty() && rng.chance(1, 2) {
                let m = *rng.pick(&zero);
                p.push(Step::Call(m as u32, rng.below(3) as u32 / 2, vec![]), done);
            } else if missing > 0 && rng.bit() {
                p.push(Step::Input, done);
                missing -= 1;
            } else {
                let b = rng.bit();
                p.push(Step::Const(b), done);
            }
            continue;
        }
        let hub = hub.min(n as u32 - 1);
        let total = const_w + call_w + 2 + 3 * two_w + two_w + 1;
        let mut w = rng.below(total);
        let a = operand(rng, n, style, hub);
        let b = if rep && rng.chance(1, 2) { a } else { operand(rng, n, style, hub) };
        let mut take = |k: usize| {
            if w < k {
                true
            } else {
                w -= k;
                false
            }
        };
        let s = if take(const_w) {
            Step::Const(rng.bit())
        } else if take(call_w) {
            let m = if rng.chance(1, 2) { done.len() - 1 } else { rng.below(done.len()) };
            let mode = rng.below(4);
            let fixed = operand(rng, n, style, hub);
            let args = (0..done[m].n_in)
                .map(|_| match mode {
                    0 => fixed,
                    _ => operand(rng, n, style, hub),
                })
                .collect();
            Step::Call(m as u32, rng.below(3) as u32 / 2, args)
        } else if take(2) {
            Step::Not(a)
        } else if take(two_w) {
            Step::Xor(a, b)
        } else if take(two_w) {
            Step::And(a, b)
        } else if take(two_w) {
            Step::Or(a, b)
        } else if take(two_w) {
            Step::Eqv(a, b)
        } else {
            Step::Ident(a)
        };
        p.push(s, done);
        if out_mid && rng.chance(1, 6) && p.outs.len() < cfg.max_outs && p.n_vals > 0 {
            let v = operand(rng, p.n_vals, style, 0);
            p.push(Step::Out(v), done);
        }
    }
    for _ in 0..missing {
        p.push(Step::Input, done);
    }
    if p.n_vals > 0 {
        let k = match rng.below(8) {
            0 => 0,
            1 => 1,
            2 => cfg.max_outs,
            _ => 1 + rng.below(cfg.max_outs),
        };
        let mode = rng.below(5);
        for j in 0..k.saturating_sub(p.outs.len()) {
            let n = p.n_vals;
            let v = match mode {
                0 => n - 1 - j.min(n - 1),
                1 => rng.below(n),
                2 => n.saturating_sub(k) + j.min(n - 1),
                3 => rng.skewed(n),
                _ => {
                    if j > 0 && rng.chance(1, 2) {
                        *rng.pick(&p.outs) as usize
                    } else {
                        n - 1 - rng.below(n.min(4))
                    }
                }
            };
            p.push(Step::Out(v.min(n - 1) as u32), done);
        }
    }
    p
}

pub fn gen_lib(rng: &mut Rng, cfg: &GenCfg) -> Lib {
    loop {
        let nm = if cfg.max_modules == 0 { 0 } else { 1 + rng.below(cfg.max_modules) };
        let mut lib = Lib::default();
        for _ in 0..nm {
            let sub = GenCfg { max_steps: (cfg.max_steps / 2).max(2), max_in: cfg.max_in.min(5), ..cfg.clone() };
            let p = gen_prog(rng, &sub, &lib.progs);
            lib.progs.push(p);
        }
        let p = gen_prog(rng, cfg, &lib.progs);
        lib.progs.push(p);
        if lib.expanded(nm) <= cfg.max_expanded {
            return lib;
        }
    }
}

/// How the circuits of a library are created and where modules are registered.
#[derive(Clone, Debug)]
pub struct BuildMode {
    /// 0 one shared storage, 1 a storage each, 2 sub-circuits of the top, 3 sub-circuits of earlier circuits, 4 mixed
    pub storage: usize,
    /// Build through the struct before it becomes a handle (only for circuits made with `new`).
    pub direct: bool,
    pub seed: u64,
}

pub fn gen_mode(rng: &mut Rng) -> BuildMode {
    BuildMode { storage: rng.below(5), direct: rng.chance(1, 3), seed: rng.u64() }
}

pub struct Built {
    pub refs: Vec<Nx>,
    /// Gate id of every value of every program.
    pub vals: Vec<Vec<GateId>>,
    /// (storage, callee, alias) -> module id
    pub mids: HashMap<(usize, usize, u32), ModuleId>,
    pub sid: Vec<usize>,
}

impl Built {
    pub fn top(&self) -> Nx {
        self.refs.last().unwrap().clone()
    }
}

pub fn apply<C: BoolCircuit<NXAOBoolGate>>(
    c: &mut C,
    s: &Step,
    vals: &mut Vec<GateId>,
    mid: Option<ModuleId>,
) -> Result<(), BoolCircuitError> {
    let g = |v: &u32, vals: &Vec<GateId>| vals[*v as usize];
    let id = match s {
        Step::Input => c.input()?,
        Step::Const(b) => c.constant(*b)?,
        Step::Not(a) => c.not(&g(a, vals))?,
        Step::Ident(a) => c.identity(&g(a, vals))?,
        Step::Xor(a, b) => c.xor(&g(a, vals), &g(b, vals))?,
        Step::And(a, b) => c.and(&g(a, vals), &g(b, vals))?,
        Step::Or(a, b) => c.or(&g(a, vals), &g(b, vals))?,
        Step::Eqv(a, b) => c.equivalent(&g(a, vals), &g(b, vals))?,
        Step::Out(a) => {
            c.output(g(a, vals))?;
            return Ok(());
        }
        Step::Call(_, _, args) => {
            let a: Vec<GateId> = args.iter().map(|x| g(x, vals)).collect();
            vals.extend(c.module(&mid.expect("module id"), &a)?);
            return Ok(());
        }
    };
    vals.push(id);
    Ok(())
}

/// The same through the methods of the handle.
pub fn apply_ref<C: BoolCircuit<NXAOBoolGate>>(
    c: &mut BoolCircuitRef<NXAOBoolGate, C>,
    s: &Step,
    vals: &mut Vec<GateId>,
    mid: Option<ModuleId>,
) -> Result<(), BoolCircuitError> {
    let g = |v: &u32, vals: &Vec<GateId>| vals[*v as usize];
    let id = match s {
        Step::Input => c.input()?,
        Step::Const(b) => c.constant(*b)?,
        Step::Not(a) => c.not(&g(a, vals))?,
        Step::Ident(a) => c.identity(&g(a, vals))?,
        Step::Xor(a, b) => c.xor(&g(a, vals), &g(b, vals))?,
        Step::And(a, b) => c.and(&g(a, vals), &g(b, vals))?,
        Step::Or(a, b) => c.or(&g(a, vals), &g(b, vals))?,
        Step::Eqv(a, b) => c.equivalent(&g(a, vals), &g(b, vals))?,
        Step::Out(a) => {
            c.output(g(a, vals))?;
            return Ok(());
        }
        Step::Call(_, _, args) => {
            let a: Vec<GateId> = args.iter().map(|x| g(x, vals)).collect();
            vals.extend(c.module(&mid.expect("module id"), &a)?);
            return Ok(());
        }
    };
    vals.push(id);
    Ok(())
}

pub fn build(lib: &Lib, mode: &BuildMode) -> Result<Built, String> {
    let mut b = start_build(lib, mode);
    for i in 0..lib.progs.len() {
        fill(&mut b, lib, mode, i, &mut |_, _, _| Ok(()))?;
    }
    Ok(b)
}

fn make(b: &mut Built, mode: &BuildMode, rng: &mut Rng, n: usize, i: usize, created: &[usize], shared: &Store) -> (Nx, usize) {
    // Storage 0 is the shared one, storage 1 + i belongs to circuit i.
    let m = match mode.storage {
        4 => rng.below(4),
        m => m,
    };
    let from_sub = match m {
        2 if i != n - 1 && created.contains(&(n - 1)) => Some(n - 1),
        3 if !created.is_empty() => Some(*rng.pick(created)),
        _ => None,
    };
    if let Some(src) = from_sub {
        let (mid, r) = b.refs[src].sub_circuit();
        let sid = b.sid[src];
        b.mids.insert((sid, i, 0), mid);
        return (r, sid);
    }
    if m == 0 {
        return (NXAOBoolCircuit::new(shared.clone()).to_ref(), 0);
    }
    (new_circuit(), 1 + i)
}

/// Creates the (empty) circuits of a library.
pub fn start_build(lib: &Lib, mode: &BuildMode) -> Built {
    let n = lib.progs.len();
    let mut rng = Rng::new(mode.seed);
    let shared = new_store();
    let mut b = Built {
        refs: (0..n).map(|_| new_circuit()).collect(),
        vals: vec![Vec::new(); n],
        mids: HashMap::new(),
        sid: (0..n).map(|i| i + 1).collect(),
    };
    // The order of creation: the top first when modules are to be its sub-circuits.
    let order: Vec<usize> = if mode.storage >= 2 { (0..n).rev().collect() } else { (0..n).collect() };
    let mut created = Vec::new();
    for i in order {
        let (r, s) = make(&mut b, mode, &mut rng, n, i, &created, &shared);
        b.refs[i] = r;
        b.sid[i] = s;
        created.push(i);
    }
    b
}

/// Called after every step with the caller, the step index and the state.
pub type StepHook<'a> = &'a mut dyn FnMut(&Built, usize, usize) -> Result<(), String>;

/// The module id under which circuit `caller` calls program `callee`.
pub fn module_id(b: &mut Built, caller: usize, callee: usize, alias: u32) -> ModuleId {
    let key = (b.sid[caller], callee, alias);
    if let Some(m) = b.mids.get(&key) {
        return *m;
    }
    let callee_ref = b.refs[callee].clone();
    let mid = b.refs[caller].register_module(&callee_ref);
    b.mids.insert(key, mid);
    mid
}

pub fn fill(b: &mut Built, lib: &Lib, mode: &BuildMode, i: usize, hook: StepHook) -> Result<(), String> {
    for (k, s) in lib.progs[i].steps.iter().enumerate() {
        let mid = match s {
            Step::Call(m, alias, _) => Some(module_id(b, i, *m as usize, *alias)),
            _ => None,
        };
        let mut r = b.refs[i].clone();
        let res = if mode.direct {
            let mut g = r.borrow_mut();
            apply(&mut *g, s, &mut b.vals[i], mid)
        } else {
            apply_ref(&mut r, s, &mut b.vals[i], mid)
        };
        res.map_err(|e| format!("building step {k} {s:?} of program {i} failed: {e:?}"))?;
        hook(b, i, k)?;
    }
    Ok(())
}

/// Input vectors in 64 lanes: all of them when there are at most 6 inputs, otherwise corners and random ones.
pub fn lanes(rng: &mut Rng, n: usize) -> (Vec<u64>, usize) {
    if n <= 6 {
        let mut v = vec![0u64; n];
        for l in 0..64u64 {
            for (i, x) in v.iter_mut().enumerate() {
                *x |= ((l >> i) & 1) << l;
            }
        }
        (v, 1 << n)
    } else {
        let v = (0..n)
            .map(|_| {
                let mut x = rng.u64();
                x &= !1; // lane 0: all zero
                x |= 2; // lane 1: all one
                x
            })
            .collect();
        (v, 64)
    }
}

pub fn lane(v: &[u64], l: usize) -> Vec<bool> {
    v.iter().map(|x| (x >> l) & 1 == 1).collect()
}

pub fn bits_str(v: &[bool]) -> String {
    v.iter().map(|b| if *b { '1' } else { '0' }).collect()
}
