//! Calls into the library shared by the monitors.
use crate::model::*;
use crate::rng::Rng;
use crate::runner::{Ctx, Fail};
use circuit_converters::*;
use std::collections::HashMap;
use std::io::BufWriter;

pub fn eval_real(c: &Nx, bits: &[bool]) -> Result<Vec<bool>, String> {
    NXAOBoolEvaluator::new(c.clone()).eval_output(bits).map_err(|e| format!("evaluation failed: {e:?}"))
}

/// Compares the real evaluator with the expected output lanes on up to `max` of the lanes.
pub fn compare_eval(ctx: &mut Ctx, c: &Nx, inputs: &[u64], n: usize, expect: &[u64], max: usize) -> Result<(), Fail> {
    let mut ev = NXAOBoolEvaluator::new(c.clone());
    let all = n <= max;
    let start = if all { 0 } else { ctx.rng.below(n) };
    for j in 0..n.min(max) {
        let l = if all || j < 2 { j } else { (start + j * 7) % n };
        let bits = lane(inputs, l);
        let want = lane(expect, l);
        // Alternate between one evaluator used again and again and a fresh one.
        let got = if j % 2 == 0 {
            ev.eval_output(&bits).map_err(|e| format!("evaluation failed: {e:?}"))
        } else {
            eval_real(c, &bits)
        };
        let got = got.map_err(|e| format!("{e} on input {}", bits_str(&bits)))?;
        ctx.eval(1);
        if got != want {
            return Err(Fail::Violation(format!(
                "evaluation of input {} gave {} instead of {}",
                bits_str(&bits),
                bits_str(&got),
                bits_str(&want)
            )));
        }
    }
    Ok(())
}

pub struct Written {
    pub text: Vec<u8>,
    pub consts: Vec<bool>,
    pub map: HashMap<GateId, usize>,
}

pub fn write_real(c: &Nx, first: usize) -> Result<Written, String> {
    let mut map = HashMap::new();
    let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(Vec::new()));
    let consts = w.write(first, Some(&mut map)).map_err(|e| format!("writing failed: {e:?}"))?;
    let text = w.writer.into_inner().map_err(|e| format!("flushing failed: {e:?}"))?;
    Ok(Written { text, consts, map })
}

pub fn read_real(text: &[u8]) -> Result<Nx, String> {
    let mut c = new_circuit();
    BristolNXAOReader::new().read(text, &mut c).map_err(|e| format!("reading failed: {e:?}"))?;
    Ok(c)
}

/// Everything the public interface reports about a circuit, for the given gates.
#[derive(PartialEq, Eq, Debug)]
pub struct Obs {
    counters: [usize; 5],
    inputs: Vec<String>,
    outputs: Vec<String>,
    gates: Vec<String>,
    deps: Vec<Vec<u64>>,
    consts: Vec<GateId>,
}

pub fn observe(c: &Nx, ids: &[GateId]) -> Obs {
    let mut deps = Vec::new();
    let mut gates = Vec::new();
    for id in ids {
        gates.push(format!("{:?}", c.get_gate(id)));
        let mut d: Vec<u64> = c.get_depended_gates(id).map(|v| v.iter().map(|x| x.0).collect()).unwrap_or_default();
        d.sort();
        deps.push(d);
    }
    let (ni, no) = (c.input_len(), c.output_len());
    Obs {
        counters: [ni, no, c.num_wire(), c.num_gate(), c.num_const()],
        inputs: (0..ni + 1).map(|i| format!("{:?}", c.input_to_gate_id(&WireId(i as u64)))).collect(),
        outputs: (0..no + 1).map(|i| format!("{:?}", c.output_to_gate_id(&WireId(i as u64)))).collect(),
        gates,
        deps,
        consts: c.get_const_gates(),
    }
}

pub fn observe_all(b: &Built) -> Vec<Obs> {
    b.refs.iter().zip(b.vals.iter()).map(|(r, v)| observe(r, v)).collect()
}

pub fn random_first(rng: &mut Rng, all: usize) -> usize {
    match rng.below(4) {
        0 => 0,
        1 => all,
        _ => rng.below(all + 1),
    }
}

pub fn describe(lib: &Lib, mode: &BuildMode) -> String {
    format!("{} with {:?}", lib.text(), mode)
}
