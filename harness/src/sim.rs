//! Denotation of a real circuit, read gate by gate through its public interface and run on 64 vectors at once.
//! Independent of the library's evaluator and writer.
use crate::model::Nx;
use circuit_converters::*;
use std::collections::HashMap;
use std::rc::Rc;

pub enum Ins {
    Const(u32, bool),
    Not(u32, u32),
    Xor(u32, u32, u32),
    And(u32, u32, u32),
    Or(u32, u32, u32),
    /// Sub-program, operands, (result index, destination)
    Call(u32, Vec<u32>, Vec<(u32, u32)>),
}

pub struct Flat {
    pub n_in: usize,
    pub ins: Vec<Ins>,
    pub nreg: usize,
    pub outs: Vec<u32>,
    pub reg_of: HashMap<GateId, u32>,
    pub subs: Vec<Rc<Flat>>,
    pub size: u64,
}

pub fn operands(g: &NXAOBoolGate) -> Vec<GateId> {
    match g {
        NXAOBoolGate::Input(_) | NXAOBoolGate::Const(_) => vec![],
        NXAOBoolGate::Not(g) => vec![g.id],
        NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
        NXAOBoolGate::Module(g) => g.input_ids.clone(),
    }
}

/// Compiles the outputs of the circuit and the extra roots.
pub fn compile(c: &Nx, roots: &[GateId]) -> Result<Flat, String> {
    let mut f = Flat { n_in: c.input_len(), ins: vec![], nreg: 0, outs: vec![], reg_of: HashMap::new(), subs: vec![], size: 0 };
    let e = |e: BoolCircuitError| format!("reading the circuit failed: {e:?}");
    for i in 0..f.n_in {
        let id = c.input_to_gate_id(&WireId(i as u64)).map_err(e)?.ok_or(format!("input {i} has no gate"))?;
        if f.reg_of.insert(id, i as u32).is_some() {
            return Err(format!("gate {id} is two inputs"));
        }
    }
    f.nreg = f.n_in;
    let mut sub_of: HashMap<ModuleId, u32> = HashMap::new();
    let mut call_of: HashMap<(ModuleId, Vec<u32>), usize> = HashMap::new();
    let mut out_ids = Vec::new();
    for i in 0..c.output_len() {
        out_ids.push(c.output_to_gate_id(&WireId(i as u64)).map_err(e)?);
    }
    let mut stack: Vec<GateId> = roots.iter().chain(out_ids.iter()).copied().collect();
    stack.reverse();
    while let Some(id) = stack.last().copied() {
        if f.reg_of.contains_key(&id) {
            stack.pop();
            continue;
        }
        let g = c.get_gate(&id).map_err(e)?;
        let ops = operands(&g);
        let n = stack.len();
        for o in ops.iter().rev() {
            if !f.reg_of.contains_key(o) {
                stack.push(*o);
            }
        }
        if stack.len() > n {
            if stack.len() > 50_000_000 {
                return Err("cyclic circuit".into());
            }
            continue;
        }
        stack.pop();
        let r = |o: &GateId| f.reg_of[o];
        let d = f.nreg as u32;
        let ins = match &g {
            NXAOBoolGate::Input(w) => return Err(format!("gate {id} is input {} but not listed as such", w.wire_id)),
            NXAOBoolGate::Const(g) => Ins::Const(d, g.value),
            NXAOBoolGate::Not(g) => Ins::Not(d, r(&g.id)),
            NXAOBoolGate::Xor(g) => Ins::Xor(d, r(&g.left_id), r(&g.right_id)),
            NXAOBoolGate::And(g) => Ins::And(d, r(&g.left_id), r(&g.right_id)),
            NXAOBoolGate::Or(g) => Ins::Or(d, r(&g.left_id), r(&g.right_id)),
            NXAOBoolGate::Module(g) => {
                let args: Vec<u32> = g.input_ids.iter().map(|o| r(o)).collect();
                let sub = match sub_of.get(&g.module_id) {
                    Some(s) => *s,
                    None => {
                        let m = c.get_module(&g.module_id).map_err(e)?;
                        let s = Rc::new(compile(&m, &[])?);
                        f.subs.push(s);
                        let k = f.subs.len() as u32 - 1;
                        sub_of.insert(g.module_id, k);
                        k
                    }
                };
                let sf = &f.subs[sub as usize];
                if sf.n_in != args.len() || g.out_index >= sf.outs.len() {
                    return Err(format!(
                        "gate {id}: result {} of a call with {} operands of a module with {} inputs and {} outputs",
                        g.out_index,
                        args.len(),
                        sf.n_in,
                        sf.outs.len()
                    ));
                }
                let key = (g.module_id, args);
                if let Some(k) = call_of.get(&key) {
                    if let Ins::Call(_, _, dsts) = &mut f.ins[*k] {
                        dsts.push((g.out_index as u32, d));
                    }
                    f.nreg += 1;
                    f.reg_of.insert(id, d);
                    continue;
                }
                f.size += sf.size;
                let ins = Ins::Call(sub, key.1.clone(), vec![(g.out_index as u32, d)]);
                call_of.insert(key, f.ins.len());
                ins
            }
        };
        f.size += 1;
        f.ins.push(ins);
        f.nreg += 1;
        f.reg_of.insert(id, d);
    }
    f.outs = out_ids.iter().map(|o| f.reg_of[o]).collect();
    Ok(f)
}

/// The operand combinations a gate can see: bits 0..3 stand for the values of its two operands.
pub fn all_combinations(i: &Ins) -> u8 {
    match i {
        Ins::Const(..) | Ins::Call(..) => 0,
        Ins::Not(..) => 0b1001,
        Ins::Xor(_, a, b) | Ins::And(_, a, b) | Ins::Or(_, a, b) => {
            if a == b {
                0b1001
            } else {
                0b1111
            }
        }
    }
}

impl Flat {
    /// Adds the operand combinations that the gates saw in the 64 lanes.
    pub fn combinations(&self, v: &[u64], seen: &mut [u8]) {
        for (k, i) in self.ins.iter().enumerate() {
            let (a, b) = match i {
                Ins::Not(_, a) => (v[*a as usize], v[*a as usize]),
                Ins::Xor(_, a, b) | Ins::And(_, a, b) | Ins::Or(_, a, b) => (v[*a as usize], v[*b as usize]),
                _ => continue,
            };
            seen[k] |= (!a & !b != 0) as u8 | ((a & !b != 0) as u8) << 1 | ((!a & b != 0) as u8) << 2 | ((a & b != 0) as u8) << 3;
        }
    }
    pub fn regs(&self, inputs: &[u64]) -> Vec<u64> {
        assert_eq!(inputs.len(), self.n_in);
        let mut v = Vec::with_capacity(self.nreg);
        v.extend_from_slice(inputs);
        v.resize(self.nreg, 0);
        for i in &self.ins {
            match i {
                Ins::Const(d, b) => v[*d as usize] = if *b { !0 } else { 0 },
                Ins::Not(d, a) => v[*d as usize] = !v[*a as usize],
                Ins::Xor(d, a, b) => v[*d as usize] = v[*a as usize] ^ v[*b as usize],
                Ins::And(d, a, b) => v[*d as usize] = v[*a as usize] & v[*b as usize],
                Ins::Or(d, a, b) => v[*d as usize] = v[*a as usize] | v[*b as usize],
                Ins::Call(s, args, dsts) => {
                    let a: Vec<u64> = args.iter().map(|x| v[*x as usize]).collect();
                    let o = self.subs[*s as usize].run(&a);
                    for (k, d) in dsts {
                        v[*d as usize] = o[*k as usize];
                    }
                }
            }
        }
        v
    }
    pub fn run(&self, inputs: &[u64]) -> Vec<u64> {
        let v = self.regs(inputs);
        self.outs.iter().map(|o| v[*o as usize]).collect()
    }
}
