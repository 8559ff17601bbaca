//! The declarative circuits that the explorations enumerate, and the reference semantics: a
//! direct row-by-row evaluator that shares no code with the crate under test.
use crate::fields::fe;
use ark_ff::PrimeField;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Col {
    W(usize),
    I(usize),
    X(usize),
}

/// Gate / lookup-input expressions.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum E {
    /// column at a row offset
    Q(Col, i32),
    C(i64),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Neg(Box<E>),
    Scale(Box<E>, i64),
}
pub fn w(i: usize) -> E {
    E::Q(Col::W(i), 0)
}
pub fn wr(i: usize, r: i32) -> E {
    E::Q(Col::W(i), r)
}
pub fn x(i: usize) -> E {
    E::Q(Col::X(i), 0)
}
pub fn xr(i: usize, r: i32) -> E {
    E::Q(Col::X(i), r)
}
pub fn pi(i: usize) -> E {
    E::Q(Col::I(i), 0)
}
pub fn pir(i: usize, r: i32) -> E {
    E::Q(Col::I(i), r)
}
pub fn c(v: i64) -> E {
    E::C(v)
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        E::Sub(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Neg for E {
    type Output = E;
    fn neg(self) -> E {
        E::Neg(Box::new(self))
    }
}
impl E {
    pub fn scale(self, k: i64) -> E {
        E::Scale(Box::new(self), k)
    }
    pub fn queries(&self, out: &mut Vec<(Col, i32)>) {
        match self {
            E::Q(c, r) => {
                if !out.contains(&(*c, *r)) {
                    out.push((*c, *r))
                }
            }
            E::C(_) => {}
            E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
                a.queries(out);
                b.queries(out)
            }
            E::Neg(a) | E::Scale(a, _) => a.queries(out),
        }
    }
    /// syntactic degree (columns count 1)
    pub fn deg(&self) -> usize {
        match self {
            E::Q(..) => 1,
            E::C(_) => 0,
            E::Add(a, b) | E::Sub(a, b) => a.deg().max(b.deg()),
            E::Mul(a, b) => a.deg() + b.deg(),
            E::Neg(a) | E::Scale(a, _) => a.deg(),
        }
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            E::Q(c, r) => {
                let (k, i) = match c {
                    Col::W(i) => ("w", i),
                    Col::I(i) => ("p", i),
                    Col::X(i) => ("x", i),
                };
                if *r == 0 {
                    write!(f, "{}{}", k, i)
                } else {
                    write!(f, "{}{}[{:+}]", k, i, r)
                }
            }
            E::C(v) => write!(f, "{}", v),
            E::Add(a, b) => write!(f, "({}+{})", a, b),
            E::Sub(a, b) => write!(f, "({}-{})", a, b),
            E::Mul(a, b) => write!(f, "{}*{}", a, b),
            E::Neg(a) => write!(f, "-({})", a),
            E::Scale(a, k) => write!(f, "({}){{*{}}}", a, k),
        }
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lookup {
    pub exprs: Vec<E>,
    /// table column and row offset
    pub tables: Vec<(usize, i32)>,
}

/// Copy constraints: `sigma[k][r]` is the cell that follows cell (k, r) on its cycle;
/// k counts the copied columns, r the usable rows.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Perm {
    /// copied witness columns, ascending
    pub cols: Vec<usize>,
    pub sigma: Vec<Vec<(usize, usize)>>,
}
impl Perm {
    pub fn identity(cols: Vec<usize>, u: usize) -> Perm {
        let k = cols.len();
        Perm { cols, sigma: (0..k).map(|k| (0..u).map(|r| (k, r)).collect()).collect() }
    }
    /// swaps the successors of two cells (joins or splits cycles)
    pub fn swap(mut self, a: (usize, usize), b: (usize, usize)) -> Perm {
        let t = self.sigma[a.0][a.1];
        self.sigma[a.0][a.1] = self.sigma[b.0][b.1];
        self.sigma[b.0][b.1] = t;
        self
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Circuit {
    pub n: usize,
    pub nw: usize,
    pub ni: usize,
    pub fixed: Vec<Vec<i64>>,
    pub tables: Vec<Vec<i64>>,
    pub gates: Vec<E>,
    pub lookups: Vec<Lookup>,
    pub perm: Option<Perm>,
    /// usable rows are 0..u, row u ends the running products, rows above u are blinded
    pub u: usize,
    /// rows on which nothing is enforced (roots removed from the vanishing polynomial)
    pub removed: Vec<usize>,
    /// 0: labels in column order; 1: labels in reverse order
    pub labels: u8,
}
impl Circuit {
    pub fn new(n: usize, nw: usize, ni: usize) -> Circuit {
        Circuit {
            n,
            nw,
            ni,
            fixed: vec![],
            tables: vec![],
            gates: vec![],
            lookups: vec![],
            perm: None,
            u: n - 1,
            removed: vec![],
            labels: 0,
        }
    }
    pub fn enforced(&self) -> Vec<usize> {
        (0..self.n).filter(|r| !self.removed.contains(r)).collect()
    }
    /// Names of columns: 0 in column order, 1 in reverse order, 2 numbers without leading zeros,
    /// 3 the same names for all kinds, 4 and 5 names that the protocol uses itself, 6 odd names,
    /// from 16 on the (labels - 16)-th order of the columns.
    pub fn label(&self, kind: &str, i: usize, of: usize) -> String {
        const OWN: [&str; 12] = [
            "quotient_chunk_0",
            "agg_permutation_0",
            "lookup_a_prime_0_poly",
            "lookup_s_prime_0_poly",
            "lookup_0_agg_poly",
            "lookup_a_0_poly",
            "lookup_s_0_poly",
            "q_blind",
            "quotient_chunk_1",
            "agg_permutation_1",
            "lookup_a_prime_1_poly",
            "f",
        ];
        match self.labels {
            0 => format!("{}{:02}", kind, i),
            2 => format!("{}{}", kind, 8 + i),
            3 => format!("c{}", i),
            4 if i < OWN.len() => OWN[i].into(),
            5 if i < OWN.len() => OWN[(i + match kind { "w" => 4, "x" => 7, "t" => 9, "p" => 2, _ => 1 }) % OWN.len()].into(),
            6 => ["".to_string(), " ".into(), "\u{0}".into(), "\u{e9}\u{4e16}".into(), "a".repeat(300), "\n".into()].get(i).cloned().unwrap_or(format!("-{}", i)),
            l if l >= 16 => {
                // i-th element of that order
                let mut k = (l - 16) as usize;
                let mut left: Vec<usize> = (0..of).collect();
                let mut name = 0;
                for j in 0..=i {
                    let at = k % left.len();
                    k /= left.len();
                    name = left.remove(at);
                    let _ = j;
                }
                format!("{}{:02}", kind, name)
            }
            _ => format!("{}{:02}", kind, of - i),
        }
    }
}

/// Witness and instance columns, all `n` rows.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Asg {
    pub w: Vec<Vec<i64>>,
    pub inst: Vec<Vec<i64>>,
}

pub fn idx(row: usize, rot: i32, n: usize) -> usize {
    (row as i64 + rot as i64).rem_euclid(n as i64) as usize
}

/// Reference evaluation of an expression on a row.
pub fn eval<F: PrimeField>(e: &E, c: &Circuit, a: &Asg, row: usize) -> F {
    match e {
        E::Q(col, r) => {
            let i = idx(row, *r, c.n);
            fe(match col {
                Col::W(k) => a.w[*k][i],
                Col::I(k) => a.inst[*k][i],
                Col::X(k) => c.fixed[*k][i],
            })
        }
        E::C(v) => fe(*v),
        E::Add(p, q) => eval::<F>(p, c, a, row) + eval::<F>(q, c, a, row),
        E::Sub(p, q) => eval::<F>(p, c, a, row) - eval::<F>(q, c, a, row),
        E::Mul(p, q) => eval::<F>(p, c, a, row) * eval::<F>(q, c, a, row),
        E::Neg(p) => -eval::<F>(p, c, a, row),
        E::Scale(p, k) => eval::<F>(p, c, a, row) * fe::<F>(*k),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sat {
    pub gates: bool,
    pub copies: bool,
    pub lookups: bool,
}
impl Sat {
    pub fn all(&self) -> bool {
        self.gates && self.copies && self.lookups
    }
}

pub fn gates_ok<F: PrimeField>(c: &Circuit, a: &Asg) -> bool {
    c.enforced().iter().all(|&r| c.gates.iter().all(|g| eval::<F>(g, c, a, r).is_zero()))
}
pub fn copies_ok<F: PrimeField>(c: &Circuit, a: &Asg) -> bool {
    match &c.perm {
        None => true,
        Some(p) => (0..p.cols.len()).all(|k| {
            (0..c.u).all(|r| {
                let (k2, r2) = p.sigma[k][r];
                fe::<F>(a.w[p.cols[k]][r]) == fe::<F>(a.w[p.cols[k2]][r2])
            })
        }),
    }
}
/// Does row `r` of lookup `l` occur in the table?
pub fn lookup_row_ok<F: PrimeField>(c: &Circuit, a: &Asg, l: &Lookup, r: usize) -> bool {
    let tuple: Vec<F> = l.exprs.iter().map(|e| eval::<F>(e, c, a, r)).collect();
    (0..c.u).any(|t| {
        l.tables
            .iter()
            .zip(&tuple)
            .all(|((k, rot), v)| fe::<F>(c.tables[*k][idx(t, *rot, c.n)]) == *v)
    })
}
pub fn lookups_ok<F: PrimeField>(c: &Circuit, a: &Asg) -> bool {
    c.lookups.iter().all(|l| (0..c.u).all(|r| lookup_row_ok::<F>(c, a, l, r)))
}
pub fn sat<F: PrimeField>(c: &Circuit, a: &Asg) -> Sat {
    Sat {
        gates: gates_ok::<F>(c, a),
        copies: copies_ok::<F>(c, a),
        lookups: lookups_ok::<F>(c, a),
    }
}

/// All vectors of length `len` over `alphabet`.
pub fn words(alphabet: &[i64], len: usize) -> Vec<Vec<i64>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|v: Vec<i64>| {
                alphabet.iter().map(move |x| {
                    let mut v = v.clone();
                    v.push(*x);
                    v
                })
            })
            .collect();
    }
    out
}
