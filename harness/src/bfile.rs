//! An independent Bristol parser, validator and simulator.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Inv,
    Xor,
    And,
    Or,
    Eq,
    Eqw,
}

impl Op {
    pub const ALL: [Op; 6] = [Op::Inv, Op::Xor, Op::And, Op::Or, Op::Eq, Op::Eqw];
    pub fn name(self) -> &'static str {
        match self {
            Op::Inv => "INV",
            Op::Xor => "XOR",
            Op::And => "AND",
            Op::Or => "OR",
            Op::Eq => "EQ",
            Op::Eqw => "EQW",
        }
    }
    pub fn from_name(s: &str) -> Option<Op> {
        Op::ALL.into_iter().find(|o| o.name() == s)
    }
    pub fn arity(self) -> usize {
        match self {
            Op::Inv | Op::Eq | Op::Eqw => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Gate {
    pub op: Op,
    pub ins: Vec<usize>,
    pub out: usize,
}

#[derive(Clone, Debug, Default)]
pub struct BFile {
    pub n_gates: usize,
    pub n_wires: usize,
    pub ins: Vec<usize>,
    pub outs: Vec<usize>,
    pub gates: Vec<Gate>,
}

fn nums(line: &str, what: &str) -> Result<Vec<usize>, String> {
    line.split_ascii_whitespace()
        .map(|t| {
            if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
                return Err(format!("{what}: {t:?} is not a number"));
            }
            t.parse::<usize>().map_err(|e| format!("{what}: {t:?}: {e}"))
        })
        .collect()
}

impl BFile {
    pub fn n_in(&self) -> usize {
        self.ins.iter().sum()
    }
    pub fn n_out(&self) -> usize {
        self.outs.iter().sum()
    }

    /// Strict parser: the four header lines and then one line per gate.
    pub fn parse(text: &[u8]) -> Result<BFile, String> {
        let text = std::str::from_utf8(text).map_err(|e| format!("not text: {e}"))?;
        let mut it = text.split('\n');
        let mut next = |w: &str| it.next().ok_or(format!("{w} is missing"));
        let first = nums(next("line 1")?, "line 1")?;
        let [n_gates, n_wires] = first[..] else { return Err(format!("line 1 holds {} numbers", first.len())) };
        let l2 = nums(next("line 2")?, "line 2")?;
        if l2.is_empty() || l2[0] != l2.len() - 1 {
            return Err(format!("line 2 is {l2:?}"));
        }
        let l3 = nums(next("line 3")?, "line 3")?;
        if l3.is_empty() || l3[0] != l3.len() - 1 {
            return Err(format!("line 3 is {l3:?}"));
        }
        if !next("line 4")?.trim().is_empty() {
            return Err("line 4 is not empty".into());
        }
        let mut f = BFile { n_gates, n_wires, ins: l2[1..].to_vec(), outs: l3[1..].to_vec(), gates: vec![] };
        let rest: Vec<&str> = it.collect();
        for (i, l) in rest.iter().enumerate() {
            if l.trim().is_empty() {
                if rest[i..].iter().all(|l| l.trim().is_empty()) {
                    break;
                }
                return Err(format!("gate line {i} is empty"));
            }
            let t: Vec<&str> = l.split_ascii_whitespace().collect();
            let op = Op::from_name(t[t.len() - 1]).ok_or(format!("gate line {i}: unknown gate {:?}", t[t.len() - 1]))?;
            let n = nums(&t[..t.len() - 1].join(" "), &format!("gate line {i}"))?;
            if n.len() < 2 || n[0] != op.arity() || n[1] != 1 || n.len() != 3 + n[0] {
                return Err(format!("gate line {i} {l:?}: wrong arity"));
            }
            f.gates.push(Gate { op, ins: n[2..2 + n[0]].to_vec(), out: n[2 + n[0]] });
        }
        Ok(f)
    }

    /// Every rule of a well-formed file.
    pub fn validate(&self) -> Result<(), String> {
        let n_in = self.n_in();
        if self.n_gates != self.gates.len() {
            return Err(format!("the header states {} gates, there are {}", self.n_gates, self.gates.len()));
        }
        if self.n_wires != n_in + self.gates.len() {
            return Err(format!("the header states {} wires for {} inputs and {} gate lines", self.n_wires, n_in, self.gates.len()));
        }
        if self.n_out() > self.n_wires {
            return Err(format!("{} outputs but only {} wires", self.n_out(), self.n_wires));
        }
        let mut set = vec![false; self.n_wires];
        set[..n_in].fill(true);
        for (i, g) in self.gates.iter().enumerate() {
            if g.op != Op::Eq {
                for w in &g.ins {
                    if *w >= self.n_wires {
                        return Err(format!("gate line {i} reads wire {w}, there are {}", self.n_wires));
                    }
                    if !set[*w] {
                        return Err(format!("gate line {i} reads wire {w} before it is assigned"));
                    }
                }
            } else if g.ins[0] > 1 {
                return Err(format!("gate line {i} assigns the constant {}", g.ins[0]));
            }
            if g.out >= self.n_wires {
                return Err(format!("gate line {i} assigns wire {}, there are {}", g.out, self.n_wires));
            }
            if set[g.out] {
                return Err(format!("gate line {i} assigns wire {}, which is assigned already", g.out));
            }
            set[g.out] = true;
        }
        match set.iter().position(|s| !s) {
            Some(w) => Err(format!("wire {w} is never assigned")),
            None => Ok(()),
        }
    }

    /// Values of all wires of a valid file.
    pub fn wires(&self, inputs: &[u64]) -> Vec<u64> {
        assert_eq!(inputs.len(), self.n_in());
        let mut v = inputs.to_vec();
        v.resize(self.n_wires, 0);
        for g in &self.gates {
            v[g.out] = match g.op {
                Op::Inv => !v[g.ins[0]],
                Op::Xor => v[g.ins[0]] ^ v[g.ins[1]],
                Op::And => v[g.ins[0]] & v[g.ins[1]],
                Op::Or => v[g.ins[0]] | v[g.ins[1]],
                Op::Eq => {
                    if g.ins[0] == 1 {
                        !0
                    } else {
                        0
                    }
                }
                Op::Eqw => v[g.ins[0]],
            };
        }
        v
    }
    pub fn outputs(&self, inputs: &[u64]) -> Vec<u64> {
        let v = self.wires(inputs);
        v[self.n_wires - self.n_out()..].to_vec()
    }

    /// The plain layout.
    pub fn text(&self) -> String {
        let mut o = format!("{} {}\n", self.n_gates, self.n_wires);
        for g in [&self.ins, &self.outs] {
            o += &format!("{}", g.len());
            for x in g.iter() {
                o += &format!(" {x}");
            }
            o += "\n";
        }
        o += "\n";
        for g in &self.gates {
            o += &format!("{} 1", g.ins.len());
            for w in &g.ins {
                o += &format!(" {w}");
            }
            o += &format!(" {} {}\n", g.out, g.op.name());
        }
        o
    }
}

/// The listed causes for which reading must fail; None when the text has none of them (it may still be unusual).
pub fn must_fail(text: &[u8]) -> Option<String> {
    let text = std::str::from_utf8(text).ok()?;
    let mut lines = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l));
    let numeric = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    // A number that is numeric but does not fit is not judged.
    let header = |l: Option<&str>, n: usize, min: usize| -> Result<Vec<usize>, Option<String>> {
        let Some(l) = l else { return Err(Some(format!("header line {n} is missing"))) };
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.len() < min {
            return Err(Some(format!("header line {n} is incomplete")));
        }
        let used = if n == 1 {
            2
        } else {
            if !numeric(t[0]) {
                // "+1" is a number for some parsers
                return Err(if t[0].starts_with('+') { None } else { Some(format!("header line {n} is not numeric")) });
            }
            let Ok(k) = t[0].parse::<usize>() else { return Err(None) };
            if k > t.len() - 1 {
                return Err(Some(format!("header line {n} is incomplete")));
            }
            k + 1
        };
        let mut v = vec![];
        for x in &t[..used] {
            if !numeric(x) {
                return Err(if x.starts_with('+') { None } else { Some(format!("header line {n} is not numeric")) });
            }
            match x.parse::<usize>() {
                Ok(x) => v.push(x),
                Err(_) => return Err(None),
            }
        }
        Ok(v)
    };
    let l1 = match header(lines.next(), 1, 2) {
        Ok(v) => v,
        Err(e) => return e,
    };
    let l2 = match header(lines.next(), 2, 1) {
        Ok(v) => v,
        Err(e) => return e,
    };
    let l3 = match header(lines.next(), 3, 1) {
        Ok(v) => v,
        Err(e) => return e,
    };
    let _ = lines.next();
    let n_in: usize = l2[1..].iter().sum();
    let mut set: std::collections::HashSet<usize> = (0..n_in).collect();
    for (i, l) in lines.enumerate() {
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() {
            continue;
        }
        let bad = |m: &str| Some(format!("gate line {i} {l:?}: {m}"));
        let num = |x: &str| -> Result<usize, Option<String>> {
            if !numeric(x) {
                return Err(if x.starts_with('+') { None } else { bad("an operand is not a number") });
            }
            x.parse::<usize>().map_err(|_| None)
        };
        if t.len() < 3 {
            return bad("too short");
        }
        let (a, b) = match (num(t[0]), num(t[1])) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return e,
        };
        let Some(pos) = a.checked_add(b).and_then(|x| x.checked_add(2)) else { return bad("lacks operands") };
        if pos >= t.len() {
            return bad("lacks operands");
        }
        let mut w = vec![];
        for x in &t[2..pos] {
            match num(x) {
                Ok(x) => w.push(x),
                Err(e) => return e,
            }
        }
        let Some(op) = Op::from_name(t[pos]) else { return bad("unknown gate name") };
        if a != op.arity() || b != 1 {
            return bad("wrong arity");
        }
        if op != Op::Eq {
            for x in &w[..a] {
                if !set.contains(x) {
                    return bad("reads a wire that is not assigned");
                }
            }
        }
        set.insert(w[a]);
    }
    let mut n_out = 0usize;
    for x in &l3[1..] {
        n_out = match n_out.checked_add(*x) {
            Some(n) => n,
            None => return Some("more output wires than wires".into()),
        };
    }
    if n_out > l1[1] {
        return Some("more output wires than wires".into());
    }
    if n_out > set.len() || (l1[1] - n_out..l1[1]).any(|w| !set.contains(&w)) {
        return Some("an output wire is never assigned".into());
    }
    None
}
