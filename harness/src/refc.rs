//! Another implementation of the public circuit interface, with its own gate type, its own identifiers and its own
//! simulation, which records every identifier that it is handed without having handed it out itself.
use crate::rng::{mix, Rng};
use circuit_converters::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RGate {
    Input(usize),
    Const(bool),
    Not(GateId),
    Xor(GateId, GateId),
    And(GateId, GateId),
    Or(GateId, GateId),
    Eqv(GateId, GateId),
    Ident(GateId),
    Result(ModuleId, Vec<GateId>, usize),
}

impl Gate for RGate {
    fn input_len(&self) -> usize {
        self.operands().len()
    }
    fn output_len(&self) -> usize {
        1
    }
    fn to_str(&self) -> String {
        format!("{self:?}")
    }
}

impl RGate {
    fn operands(&self) -> Vec<GateId> {
        match self {
            RGate::Input(_) | RGate::Const(_) => vec![],
            RGate::Not(a) | RGate::Ident(a) => vec![*a],
            RGate::Xor(a, b) | RGate::And(a, b) | RGate::Or(a, b) | RGate::Eqv(a, b) => vec![*a, *b],
            RGate::Result(_, v, _) => v.clone(),
        }
    }
}

/// How identifiers are chosen.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ids {
    Up,
    Down,
    Scrambled,
    /// As scrambled, but equal gates share an identifier.
    Sharing,
    /// As sharing, and gates that reduce to another gate or a constant have its identifier.
    Folding,
}
pub const ID_MODES: [Ids; 5] = [Ids::Up, Ids::Down, Ids::Scrambled, Ids::Sharing, Ids::Folding];

/// What the circuits of one case have in common: the modules and the source of identifiers.
pub struct World {
    pub ids: Ids,
    salt: u64,
    next: u64,
    owner: HashMap<u64, usize>,
    circuits: usize,
    modules: HashMap<ModuleId, RRef>,
    pub misuse: Vec<String>,
    pub calls: BTreeMap<&'static str, u64>,
}

pub type RRef = BoolCircuitRef<RGate, RCircuit>;
pub type Shared = Rc<RefCell<World>>;

impl World {
    pub fn new(rng: &mut Rng, ids: Ids) -> Shared {
        Rc::new(RefCell::new(World {
            ids,
            salt: rng.u64(),
            next: 0,
            owner: HashMap::new(),
            circuits: 0,
            modules: HashMap::new(),
            misuse: vec![],
            calls: BTreeMap::new(),
        }))
    }
    /// A number never used before, for gates and modules of all circuits.
    fn fresh(&mut self) -> u64 {
        let k = self.next;
        self.next += 1;
        match self.ids {
            Ids::Up => k,
            Ids::Down => u64::MAX - k,
            // A bijection of the counter, so no number repeats.
            _ => mix(k).wrapping_add(self.salt),
        }
    }
    fn count(&mut self, what: &'static str) {
        *self.calls.entry(what).or_insert(0) += 1;
    }
}

pub struct RCircuit {
    pub world: Shared,
    me: usize,
    pub inputs: Vec<GateId>,
    pub outputs: Vec<GateId>,
    gates: HashMap<GateId, RGate>,
    order: Vec<GateId>,
    same: HashMap<String, GateId>,
    deps: HashMap<GateId, Vec<GateId>>,
    counters: [usize; 3],
}

impl Clone for RCircuit {
    fn clone(&self) -> Self {
        self.world.borrow_mut().count("clone");
        RCircuit {
            world: self.world.clone(),
            me: self.me,
            inputs: self.inputs.clone(),
            outputs: self.outputs.clone(),
            gates: self.gates.clone(),
            order: self.order.clone(),
            same: self.same.clone(),
            deps: self.deps.clone(),
            counters: self.counters,
        }
    }
}
impl PartialEq for RCircuit {
    fn eq(&self, o: &Self) -> bool {
        self.inputs == o.inputs && self.outputs == o.outputs && self.gates == o.gates
    }
}
impl Eq for RCircuit {}

impl RCircuit {
    pub fn new(world: &Shared) -> Self {
        let me = {
            let mut w = world.borrow_mut();
            w.circuits += 1;
            w.circuits
        };
        RCircuit {
            world: world.clone(),
            me,
            inputs: vec![],
            outputs: vec![],
            gates: HashMap::new(),
            order: vec![],
            same: HashMap::new(),
            deps: HashMap::new(),
            counters: [0; 3],
        }
    }
    /// Every identifier that comes in is one that this circuit handed out.
    fn known(&self, what: &'static str, ids: &[GateId]) -> Result<(), BoolCircuitError> {
        let mut w = self.world.borrow_mut();
        w.count(what);
        for id in ids {
            if !self.gates.contains_key(id) {
                let from = w.owner.get(&id.0).copied();
                if w.misuse.len() < 5 {
                    let whose = match from {
                        Some(c) => format!("an identifier of circuit {c}"),
                        None => "an identifier that no circuit handed out".into(),
                    };
                    w.misuse.push(format!("{what} of circuit {} was given {id}, {whose}", self.me));
                }
                return Err(BoolCircuitError::UnknownGate(*id));
            }
        }
        Ok(())
    }
    fn add(&mut self, g: RGate) -> GateId {
        let mode = self.world.borrow().ids;
        let g = if mode == Ids::Folding {
            match self.fold(g) {
                Ok(id) => return id,
                Err(g) => g,
            }
        } else {
            g
        };
        let key = format!("{g:?}");
        let shares = matches!(mode, Ids::Sharing | Ids::Folding) && !matches!(g, RGate::Input(_));
        if shares {
            if let Some(id) = self.same.get(&key) {
                return *id;
            }
        }
        let id = {
            let mut w = self.world.borrow_mut();
            let id = GateId(w.fresh());
            let me = self.me;
            w.owner.insert(id.0, me);
            id
        };
        for o in g.operands() {
            self.deps.entry(o).or_default().push(id);
        }
        match g {
            RGate::Input(_) => (),
            RGate::Const(_) => self.counters[2] += 1,
            RGate::Result(..) => (),
            _ => self.counters[1] += 1,
        }
        self.counters[0] += 1;
        if shares {
            self.same.insert(key, id);
        }
        self.gates.insert(id, g);
        self.order.push(id);
        id
    }
    /// The gate to which this one reduces.
    fn fold(&mut self, g: RGate) -> Result<GateId, RGate> {
        let c = |x: &GateId| match self.gates[x] {
            RGate::Const(b) => Some(b),
            _ => None,
        };
        enum To {
            Id(GateId),
            Const(bool),
            Not(GateId),
        }
        let to = match &g {
            RGate::Ident(a) => To::Id(*a),
            RGate::Not(a) => match (c(a), &self.gates[a]) {
                (Some(b), _) => To::Const(!b),
                (_, RGate::Not(x)) => To::Id(*x),
                _ => return Err(g),
            },
            RGate::Xor(a, b) | RGate::Eqv(a, b) => {
                let eqv = matches!(g, RGate::Eqv(..));
                match (c(a), c(b)) {
                    _ if a == b => To::Const(eqv),
                    (Some(x), Some(y)) => To::Const(x ^ y ^ eqv),
                    (Some(x), None) if x == eqv => To::Id(*b),
                    (None, Some(y)) if y == eqv => To::Id(*a),
                    (Some(_), None) => To::Not(*b),
                    (None, Some(_)) => To::Not(*a),
                    _ => return Err(g),
                }
            }
            RGate::And(a, b) | RGate::Or(a, b) => {
                let or = matches!(g, RGate::Or(..));
                match (c(a), c(b)) {
                    _ if a == b => To::Id(*a),
                    (Some(x), _) if x == or => To::Const(or),
                    (_, Some(y)) if y == or => To::Const(or),
                    (Some(_), _) => To::Id(*b),
                    (_, Some(_)) => To::Id(*a),
                    _ => return Err(g),
                }
            }
            _ => return Err(g),
        };
        Ok(match to {
            To::Id(x) => x,
            To::Const(b) => self.add(RGate::Const(b)),
            To::Not(x) => self.add(RGate::Not(x)),
        })
    }
}

impl BoolCircuit<RGate> for RCircuit {
    fn to_ref(self) -> RRef {
        BoolCircuitRef::new(self)
    }
    fn input_len(&self) -> usize {
        self.inputs.len()
    }
    fn output_len(&self) -> usize {
        self.outputs.len()
    }
    fn num_wire(&self) -> usize {
        self.counters[0]
    }
    fn num_gate(&self) -> usize {
        self.counters[1]
    }
    fn num_const(&self) -> usize {
        self.counters[2]
    }
    fn input_to_gate_id(&self, w: &WireId) -> Result<Option<GateId>, BoolCircuitError> {
        // Every other wire has no gate (any more), which is what the option in the result is for.
        let i = self.inputs.get(w.0 as usize / 2).ok_or(BoolCircuitError::UnknownInput(*w))?;
        Ok((w.0 % 2 == 1).then_some(*i))
    }
    fn output_to_gate_id(&self, w: &WireId) -> Result<GateId, BoolCircuitError> {
        self.outputs.get(w.0 as usize).copied().ok_or(BoolCircuitError::UnknownOutput(*w))
    }
    fn get_gate(&self, id: &GateId) -> Result<RGate, BoolCircuitError> {
        self.known("get_gate", &[*id])?;
        Ok(self.gates[id].clone())
    }
    fn get_module(&self, m: &ModuleId) -> Result<RRef, BoolCircuitError> {
        let mut w = self.world.borrow_mut();
        w.count("get_module");
        w.modules.get(m).cloned().ok_or(BoolCircuitError::UnknownModule(*m))
    }
    fn get_depended_gates(&self, id: &GateId) -> Result<Vec<GateId>, BoolCircuitError> {
        self.known("get_depended_gates", &[*id])?;
        Ok(self.deps.get(id).cloned().unwrap_or_default())
    }
    fn get_const_gates(&self) -> Vec<GateId> {
        self.order.iter().filter(|i| matches!(self.gates[*i], RGate::Const(_))).copied().collect()
    }
    fn input(&mut self) -> Result<GateId, BoolCircuitError> {
        self.known("input", &[])?;
        let id = self.add(RGate::Input(self.inputs.len()));
        self.inputs.push(id);
        Ok(id)
    }
    fn output(&mut self, id: GateId) -> Result<WireId, BoolCircuitError> {
        self.known("output", &[id])?;
        self.outputs.push(id);
        Ok(WireId(self.outputs.len() as u64 - 1))
    }
    fn constant(&mut self, b: bool) -> Result<GateId, BoolCircuitError> {
        self.known("constant", &[])?;
        Ok(self.add(RGate::Const(b)))
    }
    fn not(&mut self, a: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("not", &[*a])?;
        Ok(self.add(RGate::Not(*a)))
    }
    fn xor(&mut self, a: &GateId, b: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("xor", &[*a, *b])?;
        Ok(self.add(RGate::Xor(*a, *b)))
    }
    fn and(&mut self, a: &GateId, b: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("and", &[*a, *b])?;
        Ok(self.add(RGate::And(*a, *b)))
    }
    fn or(&mut self, a: &GateId, b: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("or", &[*a, *b])?;
        Ok(self.add(RGate::Or(*a, *b)))
    }
    fn equivalent(&mut self, a: &GateId, b: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("equivalent", &[*a, *b])?;
        Ok(self.add(RGate::Eqv(*a, *b)))
    }
    fn identity(&mut self, a: &GateId) -> Result<GateId, BoolCircuitError> {
        self.known("identity", &[*a])?;
        Ok(self.add(RGate::Ident(*a)))
    }
    fn register_module(&mut self, c: &RRef) -> ModuleId {
        let mut w = self.world.borrow_mut();
        w.count("register_module");
        let id = ModuleId(w.fresh());
        w.modules.insert(id, c.clone());
        id
    }
    fn sub_circuit(&mut self) -> (ModuleId, RRef) {
        self.world.borrow_mut().count("sub_circuit");
        let c = RCircuit::new(&self.world).to_ref();
        let m = self.register_module(&c);
        (m, c)
    }
    fn module(&mut self, m: &ModuleId, args: &[GateId]) -> Result<Vec<GateId>, BoolCircuitError> {
        self.known("module", args)?;
        let found = self.world.borrow().modules.get(m).cloned();
        let c = match found {
            Some(c) => c,
            None => {
                self.world.borrow_mut().misuse.push(format!("module of circuit {} was given the unknown module {m}", self.me));
                return Err(BoolCircuitError::UnknownModule(*m));
            }
        };
        let (i, o) = (c.input_len(), c.output_len());
        if i != args.len() {
            self.world.borrow_mut().misuse.push(format!("module {m} with {i} inputs was called with {} operands", args.len()));
            return Err(BoolCircuitError::InvalidModuleInputLen(args.len(), i));
        }
        Ok((0..o).map(|k| self.add(RGate::Result(*m, args.to_vec(), k))).collect())
    }
}

/// Values of all gates of a circuit on 64 assignments of its inputs at once.
pub fn run(c: &RRef, inputs: &[u64]) -> Result<HashMap<GateId, u64>, String> {
    let b = c.borrow();
    if inputs.len() != b.inputs.len() {
        return Err(format!("{} values for {} inputs", inputs.len(), b.inputs.len()));
    }
    let mut v: HashMap<GateId, u64> = HashMap::with_capacity(b.order.len());
    let mut calls: HashMap<(u64, Vec<GateId>), Rc<Vec<u64>>> = HashMap::new();
    for id in &b.order {
        let x = match &b.gates[id] {
            RGate::Input(i) => inputs[*i],
            RGate::Const(k) => {
                if *k {
                    !0
                } else {
                    0
                }
            }
            RGate::Not(a) => !v[a],
            RGate::Ident(a) => v[a],
            RGate::Xor(a, c) => v[a] ^ v[c],
            RGate::And(a, c) => v[a] & v[c],
            RGate::Or(a, c) => v[a] | v[c],
            RGate::Eqv(a, c) => !(v[a] ^ v[c]),
            RGate::Result(m, args, k) => {
                let key = (m.0, args.clone());
                let outs = match calls.get(&key) {
                    Some(o) => o.clone(),
                    None => {
                        let sub = b.world.borrow().modules[m].clone();
                        let a: Vec<u64> = args.iter().map(|x| v[x]).collect();
                        let r = run(&sub, &a)?;
                        let o: Vec<u64> = sub.borrow().outputs.iter().map(|x| r[x]).collect();
                        let o = Rc::new(o);
                        calls.insert(key, o.clone());
                        o
                    }
                };
                outs[*k]
            }
        };
        v.insert(*id, x);
    }
    Ok(v)
}

pub fn outputs(c: &RRef, v: &HashMap<GateId, u64>) -> Vec<u64> {
    c.borrow().outputs.iter().map(|o| v[o]).collect()
}

/// Releases the modules, which refer to their world.
pub fn dissolve(w: &Shared) {
    let m = std::mem::take(&mut w.borrow_mut().modules);
    drop(m);
}
