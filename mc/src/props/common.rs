//! Shared pieces of the explorations.
pub use crate::circuit::*;
pub use crate::engine::*;
pub use crate::fields::*;
pub use crate::fs::*;
pub use crate::run::*;
pub use crate::toypc::*;
pub use ark_ff::{Field, One, PrimeField, Zero};
pub use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Polynomial, UVPolynomial};
pub use zero_over_k::commitment::HomomorphicCommitment;
pub use zero_over_k::verif_hooks::{set_interceptor, TPProof};

pub type T62 = ToyPC<F62>;
pub type S62 = Sys<F62, T62>;
pub type Proof62 = TPProof<F62, T62>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dir {
    /// satisfied assignments have to be accepted
    Complete,
    /// unsatisfied assignments must not be
    Sound,
}

/// Degree of the quotient that the gates of `c` need (None: no quotient at all).
pub fn gate_quotient_degree(c: &Circuit) -> i64 {
    let d = c.gates.iter().map(|g| g.deg()).max().unwrap_or(0) * (c.n - 1);
    d as i64 - (c.n - c.removed.len()) as i64
}
/// Key preparation may refuse a system whose gates do not fill one polynomial of the domain's size.
pub fn may_refuse(c: &Circuit) -> bool {
    let d = gate_quotient_degree(c);
    d < 0 || (d as usize + 1).next_power_of_two() < c.n
}

/// Deterministic filler values.
pub fn filler(seed: u64, i: usize) -> i64 {
    (hash(&(seed, i, "fill")) % 1000) as i64 + 2
}

/// Prepares a circuit, then proves and verifies every assignment, comparing with the reference
/// evaluator in the direction asked for. The assignments outside that direction are skipped.
pub fn conform<F: PrimeField, PC: HomomorphicCommitment<F>>(
    c: &Circuit,
    asgs: impl IntoIterator<Item = Asg>,
    dir: Dir,
    r: &mut Rec,
) {
    conform_fs::<F, PC, TapeFS>(c, asgs, dir, r)
}
pub fn conform_fs<F: PrimeField, PC: HomomorphicCommitment<F>, FS: zero_over_k::rng::FiatShamirRng>(
    c: &Circuit,
    asgs: impl IntoIterator<Item = Asg>,
    dir: Dir,
    r: &mut Rec,
) {
    conform_tweaked::<F, PC, FS>(c, &Tweak::default(), asgs, dir, r)
}
pub fn conform_tweaked<F: PrimeField, PC: HomomorphicCommitment<F>, FS: zero_over_k::rng::FiatShamirRng>(
    c: &Circuit,
    tweak: &Tweak,
    asgs: impl IntoIterator<Item = Asg>,
    dir: Dir,
    r: &mut Rec,
) {
    let sys = match Sys::<F, PC>::with(c, tweak) {
        Ok(s) => s,
        Err(e) => return r.fail("setup", e),
    };
    r.steps(1);
    let keys = match sys.keys() {
        Ok(k) => k,
        Err(out) => {
            r.exec(c, format!("index:{}", Full { stage: "index", out: out.clone() }.key()));
            if dir == Dir::Complete || out.panicked() {
                let ok = may_refuse(c) && out.rejected();
                r.check(ok, "refused", || format!("key preparation: {:?}", out));
            }
            return;
        }
    };
    r.steps(2);
    for (i, a) in asgs.into_iter().enumerate() {
        let s = sat::<F>(c, &a);
        if (dir == Dir::Complete) != s.all() {
            continue;
        }
        let mut rng = ZkRng::new(i as u64);
        r.steps(1);
        let full = match sys.prove::<FS, _>(&keys, &a, &mut rng) {
            Err(out) => Full { stage: "prove", out },
            Ok(p) => {
                r.steps(1);
                Full { stage: "verify", out: sys.verify::<FS>(&keys, &a.inst, p) }
            }
        };
        r.exec((c, &a), full.key());
        match dir {
            Dir::Complete => r.check(full.accepted(), "incomplete", || {
                format!("satisfied assignment {:?} not accepted: {}", a, full.key())
            }),
            Dir::Sound => r.check(!full.accepted(), "unsound", || {
                format!("assignment {:?} violating {:?} accepted", a, s)
            }),
        }
    }
}
