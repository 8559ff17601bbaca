//! P25: descriptions of a system that say the same are interchangeable: names of columns, ways to
//! build the parts of a key, order in which constraints are declared, representatives of the copied
//! columns, columns that nothing reads, bigger keys, other ways to write an expression.
use super::common::*;
use super::whole::changed;
use crate::systems::*;
use ark_poly_commit::PolynomialCommitment;
use zero_over_k::commitment::KZG10;
use zero_over_k::data_structures::{PermutationInfo, ProverPreprocessedInput, VerifierPreprocessedInput};
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::traits::{ConcreteOracle, FixedOracle, InstanceOracle, Instantiable, WitnessOracle};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};

type Fr = ark_bls12_381::Fr;
type K = KZG10<ark_bls12_381::Bls12_381>;
type Pre<F, PC> = ProverPreprocessedInput<F, PC>;
type VPre<F, PC> = VerifierPreprocessedInput<F, PC>;

/// The faithful description with an honest proof, and proofs that must not pass.
struct World<'a, F: PrimeField, PC: HomomorphicCommitment<F>> {
    s: &'a Sys<F, PC>,
    k: Keys<'a, F, PC>,
    a: Asg,
    proof: TPProof<F, PC>,
    bytes: Vec<u8>,
    bad: Vec<(String, TPProof<F, PC>)>,
}
const SEED: u64 = 3;

impl<'a, F: PrimeField, PC: HomomorphicCommitment<F>> World<'a, F, PC> {
    fn new(s: &'a Sys<F, PC>, a: &Asg, r: &mut Rec) -> Option<Self> {
        let k = match s.keys() {
            Ok(k) => k,
            Err(o) => {
                r.fail("keys", format!("{:?}", o));
                return None;
            }
        };
        let mut proof = match honest(s, &k, a, SEED) {
            Ok(p) => p,
            Err(e) => {
                r.fail("prove", e);
                return None;
            }
        };
        let mut bad = vec![];
        let mut last = None;
        for (l, i) in eval_slots(&mut proof) {
            // one value of every list
            if last == Some(l) {
                continue;
            }
            last = Some(l);
            let mut p = copy_proof(&proof);
            evals(&mut p, l)[i] += F::one();
            bad.push((format!("{}[{}]+1", EVALS[l], i), p));
        }
        Some(World { s, k, a: a.clone(), bytes: bytes(&proof), proof, bad })
    }
    fn prover(&self, what: &dyn std::fmt::Debug, pre: &Pre<F, PC>, w: &mut [WitnessProverOracle<F>], i: &mut [InstanceProverOracle<F>], r: &mut Rec) {
        r.steps(1);
        match self.s.prove_pre::<TapeFS, _>(&self.k, pre, w, i, &mut ZkRng::new(SEED)) {
            Err(o) => {
                r.exec(format!("{:?}", what), format!("prove: {}", o.kind()));
                r.fail("prover-differs", format!("{:?}: proving gives {:?}", what, o));
            }
            Ok(p) => {
                let same = bytes(&p) == self.bytes;
                r.exec(format!("{:?}", what), format!("prove: {}", if same { "same proof" } else { "other proof" }));
                r.check(same, "prover-differs", || format!("{:?}: another proof", what));
            }
        }
    }
    fn verifier(
        &self,
        what: &dyn std::fmt::Debug,
        vpre: &VPre<F, PC>,
        mk: &dyn Fn(&[Vec<i64>]) -> (Vec<WitnessVerifierOracle<F, PC>>, Vec<InstanceVerifierOracle<F>>),
        all: bool,
        r: &mut Rec,
    ) {
        let mut run = |p: &TPProof<F, PC>, inst: &[Vec<i64>], good: bool, name: &str| {
            r.steps(1);
            let (mut w, mut i) = mk(inst);
            let o = self.s.verify_with::<TapeFS>(&self.k, &mut vpre.clone(), &mut w, &mut i, copy_proof(p));
            r.exec((format!("{:?}", what), name), format!("verify {}: {}", if good { "good" } else { "bad" }, o.kind()));
            let ok = if good { o.accepted() } else { o.rejected() };
            r.check(ok, "verifier-differs", || format!("{:?}: {}: {:?}", what, name, o));
        };
        run(&self.proof, &self.a.inst, true, "honest proof");
        for (name, p) in self.bad.iter().take(if all { 99 } else { 1 }) {
            run(p, &self.a.inst, false, name);
        }
        for c in 0..self.a.inst.len() {
            let mut inst = self.a.inst.clone();
            inst[c][0] += 1;
            run(&self.proof, &inst, false, "other statement");
        }
    }
}

// --------------------------------------------------------------------------------------------
// parts of keys

fn rebuilt<F: PrimeField, PC: HomomorphicCommitment<F>>(s: &Sys<F, PC>, k: &Keys<F, PC>, v: &[FixedProverOracle<F>], how: usize) -> Vec<FixedProverOracle<F>> {
    let ext = k.pk.vk.index_info.extended_coset_domain;
    let bigger = ark_poly::GeneralEvaluationDomain::<F>::new(2 * ext.size()).unwrap_or(s.domain);
    v.iter()
        .map(|o| {
            let mut n = match how {
                0 => FixedProverOracle::new(o.get_label(), o.polynomial().clone(), o.evals()),
                1 => FixedProverOracle::from_evals_and_domains(o.get_label(), o.evals(), &s.domain, &ext),
                2 => FixedProverOracle::from_evals_and_domains(o.get_label(), o.evals(), &s.domain, &bigger),
                _ => {
                    let mut c = o.clone();
                    c.compute_extended_evals(&s.domain);
                    c
                }
            };
            // registered the other way round, some of them twice
            let rs: Vec<_> = o.get_queried_rotations().iter().copied().collect();
            for q in rs.iter().rev().chain(rs.first()) {
                n.register_rotation(*q);
            }
            n
        })
        .collect()
}
fn committed<F: PrimeField, PC: HomomorphicCommitment<F>>(s: &Sys<F, PC>, v: &[FixedProverOracle<F>], how: usize) -> Vec<FixedVerifierOracle<F, PC>> {
    let labeled: Vec<_> = v.iter().map(|o| o.to_labeled()).collect();
    let (cs, _) = PC::commit(&s.ck, labeled.iter(), None).unwrap();
    cs.into_iter()
        .zip(v)
        .map(|(c, o)| {
            let mut n = match how {
                0 => FixedVerifierOracle::from_labeled_commitment(&c),
                1 => FixedVerifierOracle::from_commitment(c),
                _ => FixedVerifierOracle::new(o.get_label(), Some(c.commitment().clone())),
            };
            let rs: Vec<_> = o.get_queried_rotations().iter().copied().collect();
            for q in rs.iter().rev().chain(rs.first()) {
                n.register_rotation(*q);
            }
            n
        })
        .collect()
}
fn keys<F: PrimeField, PC: HomomorphicCommitment<F>>(sys: &System, r: &mut Rec) {
    let s = match Sys::<F, PC>::new(&sys.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let w = match World::new(&s, &sys.asgs[0], r) { Some(w) => w, None => return };
    let q = std::slice::from_ref(&s.q_blind);
    let present = |v: &[FixedProverOracle<F>], k: usize| if v.is_empty() { 1 } else { k };
    // prover
    let (nf, nt, ns) = (present(&s.fixed, 4), present(&s.tables, 4), present(&s.sigma, 4));
    for f in 0..nf { for t in 0..nt { for p in 0..ns { for b in 0..4 {
        let (vf, vt, vs, vb) = (rebuilt(&s, &w.k, &s.fixed, f), rebuilt(&s, &w.k, &s.tables, t), rebuilt(&s, &w.k, &s.sigma, p), rebuilt(&s, &w.k, q, b));
        let pre = Pre::<F, PC>::new(&vf, &vs, &vt, &vb[0], &w.k.pk.vk.index_info);
        let (mut wo, mut io) = s.prover_oracles(&w.a);
        w.prover(&(sys, "prover key", f, t, p, b), &pre, &mut wo, &mut io, r);
    }}}}
    // the key put together by hand from complete columns
    for clones in 0..16 {
        let all = |v: &[FixedProverOracle<F>], k: usize| {
            if clones >> k & 1 == 1 { v.to_vec() } else { rebuilt(&s, &w.k, v, 1) }
        };
        let pre = Pre::<F, PC> {
            empty_rands_for_fixed: w.k.pre.empty_rands_for_fixed.clone(),
            fixed_oracles: all(&w.k.pre.fixed_oracles, 0),
            permutation_oracles: all(&w.k.pre.permutation_oracles, 1),
            table_oracles: all(&w.k.pre.table_oracles, 2),
            q_blind: all(std::slice::from_ref(&w.k.pre.q_blind), 3).pop().unwrap(),
        };
        let (mut wo, mut io) = s.prover_oracles(&w.a);
        w.prover(&(sys, "prover key by hand", clones), &pre, &mut wo, &mut io, r);
    }
    // verifier
    let unblinded = s.q_blind.polynomial().coeffs.is_empty();
    let (nf, nt, ns) = (present(&s.fixed, 3), present(&s.tables, 3), present(&s.sigma, 3));
    for f in 0..nf { for t in 0..nt { for p in 0..ns { for b in 0..if unblinded { 4 } else { 3 } {
        let (vf, vt, vs) = (committed(&s, &s.fixed, f), committed(&s, &s.tables, t), committed(&s, &s.sigma, p));
        let vpre = if b == 3 {
            VPre::new_wo_blind(vf, vt, vs)
        } else {
            VPre::new(vf, vt, vs, committed(&s, q, b).pop().unwrap())
        };
        let all = f == t && t == p && p == b || b == 3;
        w.verifier(&(sys, "verifier key", f, t, p, b), &vpre, &|i| s.verifier_oracles(i), all, r);
    }}}}
}
/// Key preparation from the prover's or the verifier's columns; and without anything copied, from
/// either way to say so.
fn preparation<F: PrimeField, PC: HomomorphicCommitment<F>>(sys: &System, r: &mut Rec) {
    let s = match Sys::<F, PC>::new(&sys.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let w = match World::new(&s, &sys.asgs[0], r) { Some(w) => w, None => return };
    let mut infos = vec![("own", s.perm_info())];
    // nothing copied: the rows of lookups come from the other argument
    if s.c.perm.is_none() && s.c.lookups.is_empty() {
        infos.push(("empty", PermutationInfo::empty()));
        infos.push(("dummy", PermutationInfo::dummy()));
        infos.push(("all rows", PermutationInfo { u: s.c.n - 1, deltas: vec![] }));
    }
    let (pw, pi) = s.prover_oracles(&w.a);
    let (vw, vi) = s.verifier_oracles(&w.a.inst);
    let fixed_v = s.commit_fixed(&s.fixed);
    for (name, info) in infos {
        for side in 0..8 {
            let what = format!("{}: key preparation, {} permutation info, columns {:03b}", sys.name, name, side);
            r.steps(1);
            let vk = guarded(|| {
                let gates = s.gate_refs();
                let ls: Vec<_> = s.lookups.iter().map(|l| l as &dyn zero_over_k::vo::LookupVirtualOracle<F>).collect();
                let (d, z, u) = (s.domain, &s.zh, s.c.u);
                use zero_over_k::indexer::Indexer as X;
                let n = info.clone();
                match side {
                    0 => X::<F, PC>::index(&s.pcvk, &gates, ls, &vw, &vi, &s.fixed, d, z, n, u),
                    1 => X::<F, PC>::index(&s.pcvk, &gates, ls, &pw, &vi, &s.fixed, d, z, n, u),
                    2 => X::<F, PC>::index(&s.pcvk, &gates, ls, &vw, &pi, &s.fixed, d, z, n, u),
                    3 => X::<F, PC>::index(&s.pcvk, &gates, ls, &pw, &pi, &s.fixed, d, z, n, u),
                    4 => X::<F, PC>::index(&s.pcvk, &gates, ls, &vw, &vi, &fixed_v, d, z, n, u),
                    5 => X::<F, PC>::index(&s.pcvk, &gates, ls, &pw, &vi, &fixed_v, d, z, n, u),
                    6 => X::<F, PC>::index(&s.pcvk, &gates, ls, &vw, &pi, &fixed_v, d, z, n, u),
                    _ => X::<F, PC>::index(&s.pcvk, &gates, ls, &pw, &pi, &fixed_v, d, z, n, u),
                }
                .map_err(|e| format!("{:?}", e))
            });
            let vk = match vk {
                Ok(Ok(vk)) => vk,
                e => {
                    r.exec(&what, "refused");
                    r.fail("preparation-differs", format!("{}: {:?}", what, e.map(|x| x.map(|_| ()))));
                    continue;
                }
            };
            let k = match s.keys_from(vk) { Ok(k) => k, Err(e) => { r.fail("preparation-differs", format!("{}: {:?}", what, e)); continue } };
            let (mut wo, mut io) = s.prover_oracles(&w.a);
            r.steps(2);
            let p = s.prove_pre::<TapeFS, _>(&k, &k.pre, &mut wo, &mut io, &mut ZkRng::new(SEED));
            let same = p.as_ref().map_or(false, |p| bytes(p) == w.bytes);
            let v = s.verify::<TapeFS>(&k, &w.a.inst, copy_proof(&w.proof));
            let b = s.verify::<TapeFS>(&k, &w.a.inst, copy_proof(&w.bad[0].1));
            r.exec(&what, format!("same proof: {}, verify: {}", same, v.kind()));
            r.check(same && v.accepted() && b.rejected(), "preparation-differs", || {
                format!("{}: same proof {}, honest {:?}, altered {:?}", what, same, v, b)
            });
        }
    }
}

// --------------------------------------------------------------------------------------------
// how constraints are declared

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// Declares the constraints `order` (gates first, then lookups) on some columns.
fn declare<F: PrimeField>(c: &Circuit, order: &[usize], w: &mut [impl WitnessOracle<F>], i: &mut [impl InstanceOracle<F>], x: &mut [impl FixedOracle<F>], t: &mut [impl FixedOracle<F>]) {
    for &k in order {
        match k.checked_sub(c.gates.len()) {
            None => gate_vo::<F>(&c.gates[k]).configure(w, i, x),
            Some(l) => lookup_vo::<F>(&c.lookups[l]).configure(w, i, x, t).unwrap(),
        }
    }
}
/// The constraints declared in every order on the columns of one side.
fn declarations(sys: &System, quick: bool, r: &mut Rec) {
    let s = match S62::new(&sys.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let w = match World::new(&s, &sys.asgs[0], r) { Some(w) => w, None => return };
    let n = s.c.gates.len() + s.c.lookups.len();
    let mut orders = if n <= if quick { 4 } else { 5 } {
        perms(n)
    } else {
        // every rotation and reflection
        (0..n).flat_map(|k| {
            let v: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
            let mut u = v.clone();
            u.reverse();
            vec![v, u]
        }).collect()
    };
    // one of them declared twice
    for k in 0..n {
        let mut v: Vec<usize> = (0..n).collect();
        v.push(k);
        orders.push(v);
    }
    for o in &orders {
        let plain = |v: &[FixedProverOracle<F62>]| -> Vec<FixedProverOracle<F62>> {
            v.iter().map(|o| FixedProverOracle::new(o.get_label(), o.polynomial().clone(), o.evals())).collect()
        };
        let (mut x, mut t) = (plain(&s.fixed), plain(&s.tables));
        let mut wo: Vec<_> = s.prover_oracles(&w.a).0.iter()
            .map(|o| WitnessProverOracle::new(o.get_label(), o.polynomial().clone(), o.evals(), o.should_include_in_copy())).collect();
        let mut io: Vec<_> = s.prover_oracles(&w.a).1.iter()
            .map(|o| InstanceProverOracle::new(o.get_label(), o.polynomial().clone(), o.evals())).collect();
        declare(&s.c, o, &mut wo, &mut io, &mut x, &mut t);
        let pre = Pre::<F62, T62>::new(&x, &s.sigma, &t, &s.q_blind, &w.k.pk.vk.index_info);
        w.prover(&(sys, "declared", o), &pre, &mut wo, &mut io, r);
        let bare = |v: &[FixedProverOracle<F62>]| -> Vec<FixedVerifierOracle<F62, T62>> {
            let l: Vec<_> = v.iter().map(|o| o.to_labeled()).collect();
            let (cs, _) = T62::commit(&s.ck, l.iter(), None).unwrap();
            cs.into_iter().map(FixedVerifierOracle::from_commitment).collect()
        };
        let (mut x, mut t) = (bare(&s.fixed), bare(&s.tables));
        declare(&s.c, o, &mut s.raw_wv(), &mut s.raw_iv(&w.a.inst), &mut x, &mut t);
        let vpre = VPre::new(x, t, s.commit_fixed(&s.sigma), w.k.vpre.q_blind.clone());
        w.verifier(&(sys, "declared", o), &vpre, &|inst| {
            let (mut a, mut b) = (s.raw_wv(), s.raw_iv(inst));
            declare(&s.c, o, &mut a, &mut b, &mut s.fixed.clone(), &mut s.tables.clone());
            (a, b)
        }, false, r);
    }
}


/// Offsets that no constraint reads, registered on the columns of both sides.
fn extra_openings(sys: &System, r: &mut Rec) {
    let s = match S62::new(&sys.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let k = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let n = s.c.n as i32;
    // kind, column
    let mut at = vec![];
    for (kind, m) in [s.c.nw, s.c.ni, s.fixed.len(), s.tables.len()].iter().enumerate() {
        for i in [0, m.wrapping_sub(1)] {
            if i < *m && !at.contains(&(kind, i)) {
                at.push((kind, i));
            }
        }
    }
    for (kind, i) in at {
        for rot in [-1, 2, 3, n / 2, n - 1] {
            let what = format!("{} kind {} column {} offset {}", sys.name, kind, i, rot);
            let q = rotation(rot);
            let fixed = |v: &mut Vec<FixedProverOracle<F62>>, k: usize| if kind == k { v[i].register_rotation(q) };
            let fixed_v = |v: &mut Vec<FixedVerifierOracle<F62, T62>>, k: usize| if kind == k { v[i].register_rotation(q) };
            // an offset that stands for a row the column is already read at is refused
            let (pw, pi) = s.prover_oracles(&sys.asgs[0]);
            let read = match kind {
                0 => pw[i].get_queried_rotations().clone(),
                1 => pi[i].get_queried_rotations().clone(),
                2 => s.fixed[i].get_queried_rotations().clone(),
                _ => s.tables[i].get_queried_rotations().clone(),
            };
            let again = !read.contains(&q) && (1..2 * n).any(|d| (d - rot) % n == 0 && read.contains(&rotation(d)) || (d + rot) % n == 0 && read.contains(&rotation(-d)));
            let (mut x, mut t) = (s.fixed.clone(), s.tables.clone());
            fixed(&mut x, 2);
            fixed(&mut t, 3);
            let pre = Pre::<F62, T62>::new(&x, &s.sigma, &t, &s.q_blind, &k.pk.vk.index_info);
            let (mut vx, mut vt) = (s.commit_fixed(&s.fixed), s.commit_fixed(&s.tables));
            fixed_v(&mut vx, 2);
            fixed_v(&mut vt, 3);
            let vpre = VPre::<F62, T62>::new(vx, vt, s.commit_fixed(&s.sigma), k.vpre.q_blind.clone());
            let prove = |a: &Asg| {
                let (mut w, mut p) = s.prover_oracles(a);
                if kind == 0 { w[i].register_rotation(q) }
                if kind == 1 { p[i].register_rotation(q) }
                s.prove_pre::<TapeFS, _>(&k, &pre, &mut w, &mut p, &mut ZkRng::new(SEED))
            };
            let verify = |inst: &[Vec<i64>], p: TPProof<F62, T62>| {
                let (mut w, mut o) = s.verifier_oracles(inst);
                if kind == 0 { w[i].register_rotation(q) }
                if kind == 1 { o[i].register_rotation(q) }
                s.verify_with::<TapeFS>(&k, &mut vpre.clone(), &mut w, &mut o, p)
            };
            r.steps(2);
            let p = match prove(&sys.asgs[0]) {
                Ok(p) => p,
                Err(o) => {
                    r.exec(&what, format!("prove: {}{}", o.kind(), if again { " repeated offset" } else { "" }));
                    r.check(again && o.rejected(), "extra-opening", || format!("{}: prove {:?}", what, o));
                    continue;
                }
            };
            let o = verify(&sys.asgs[0].inst, copy_proof(&p));
            r.exec(&what, format!("honest: {}", o.kind()));
            r.check(o.accepted(), "extra-opening", || format!("{}: {:?}", what, o));
            let mut base = copy_proof(&p);
            for (l, j) in eval_slots(&mut base) {
                let mut b = copy_proof(&p);
                evals(&mut b, l)[j] += F62::one();
                r.steps(1);
                let o = verify(&sys.asgs[0].inst, b);
                r.exec((&what, l, j), format!("altered: {}", o.kind()));
                r.check(o.rejected(), "extra-opening-unsound", || format!("{}: {}[{}]+1: {:?}", what, EVALS[l], j, o));
            }
        }
    }
}

// --------------------------------------------------------------------------------------------
// other ways to write an expression

const RULES: usize = 11;
/// The expression with a rule applied at its root, if it applies.
fn rewrite(e: &E, rule: usize) -> Option<E> {
    let b = |e: &E| Box::new(e.clone());
    Some(match (rule, e) {
        (0, E::Add(x, y)) => E::Add(y.clone(), x.clone()),
        (0, E::Mul(x, y)) => E::Mul(y.clone(), x.clone()),
        (1, E::Sub(x, y)) => E::Add(x.clone(), Box::new(E::Neg(y.clone()))),
        (2, E::Sub(x, y)) => E::Neg(Box::new(E::Sub(y.clone(), x.clone()))),
        (3, e) => E::Neg(Box::new(E::Neg(b(e)))),
        (4, e) => E::Add(b(e), Box::new(E::C(0))),
        (5, e) => E::Mul(Box::new(E::C(1)), b(e)),
        (6, e) => E::Scale(Box::new(E::Scale(b(e), -1)), -1),
        (7, E::Scale(x, k)) => E::Mul(x.clone(), Box::new(E::C(*k))),
        (7, E::Mul(x, y)) if matches!(**y, E::C(_)) => match **y { E::C(k) => E::Scale(x.clone(), k), _ => unreachable!() },
        (8, E::Mul(x, y)) => match &**y {
            E::Add(p, q) => E::Add(Box::new(E::Mul(x.clone(), p.clone())), Box::new(E::Mul(x.clone(), q.clone()))),
            E::Sub(p, q) => E::Sub(Box::new(E::Mul(x.clone(), p.clone())), Box::new(E::Mul(x.clone(), q.clone()))),
            E::Mul(p, q) => E::Mul(Box::new(E::Mul(x.clone(), p.clone())), q.clone()),
            _ => return None,
        },
        (9, E::Add(x, y)) => match &**x {
            E::Add(p, q) => E::Add(p.clone(), Box::new(E::Add(q.clone(), y.clone()))),
            E::Sub(p, q) => E::Sub(p.clone(), Box::new(E::Sub(q.clone(), y.clone()))),
            _ => E::Sub(x.clone(), Box::new(E::Neg(y.clone()))),
        },
        (10, E::Q(..)) => E::Sub(Box::new(E::Add(b(e), b(e))), b(e)),
        _ => return None,
    })
}
/// Number of nodes.
fn nodes(e: &E) -> usize {
    1 + match e {
        E::Q(..) | E::C(_) => 0,
        E::Add(x, y) | E::Sub(x, y) | E::Mul(x, y) => nodes(x) + nodes(y),
        E::Neg(x) | E::Scale(x, _) => nodes(x),
    }
}
/// The expression with a rule applied at the k-th node, or everywhere.
fn rewritten(e: &E, rule: usize, at: Option<usize>, k: &mut usize) -> (E, bool) {
    let me = *k;
    *k += 1;
    let (n, mut done) = match e {
        E::Q(..) | E::C(_) => (e.clone(), false),
        E::Neg(x) => { let (x, d) = rewritten(x, rule, at, k); (E::Neg(Box::new(x)), d) }
        E::Scale(x, f) => { let (x, d) = rewritten(x, rule, at, k); (E::Scale(Box::new(x), *f), d) }
        E::Add(x, y) | E::Sub(x, y) | E::Mul(x, y) => {
            let (x, d) = rewritten(x, rule, at, k);
            let (y, f) = rewritten(y, rule, at, k);
            let (x, y) = (Box::new(x), Box::new(y));
            (match e { E::Add(..) => E::Add(x, y), E::Sub(..) => E::Sub(x, y), _ => E::Mul(x, y) }, d || f)
        }
    };
    let mut out = n;
    if at.map_or(true, |a| a == me) {
        if let Some(x) = rewrite(&out, rule) {
            out = x;
            done = true;
        }
    }
    (out, done)
}
fn expressions(sys: &System, rule: usize, r: &mut Rec) {
    let s = match S62::new(&sys.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let w = match World::new(&s, &sys.asgs[0], r) { Some(w) => w, None => return };
    let all = |c: &Circuit| -> Vec<E> { c.gates.iter().chain(c.lookups.iter().flat_map(|l| l.exprs.iter())).cloned().collect() };
    let es = all(&sys.c);
    let mut cases: Vec<(Option<usize>, Option<usize>)> = vec![(None, None)];
    for (i, e) in es.iter().enumerate() {
        cases.push((Some(i), None));
        cases.extend((0..nodes(e)).map(|k| (Some(i), Some(k))));
    }
    for (which, at) in cases {
        let mut c = sys.c.clone();
        let mut i = 0;
        let mut any = false;
        for e in c.gates.iter_mut().chain(c.lookups.iter_mut().flat_map(|l| l.exprs.iter_mut())) {
            if which.map_or(true, |w| w == i) {
                let (n, d) = rewritten(e, rule, at, &mut 0);
                any |= d;
                *e = n;
            }
            i += 1;
        }
        if !any {
            continue;
        }
        let what = format!("{} rule {} expression {:?} node {:?}", sys.name, rule, which, at);
        let t = match S62::new(&c) { Ok(t) => t, Err(e) => return r.fail("setup", e) };
        let k = match t.keys() { Ok(k) => k, Err(o) => { r.fail("expression-differs", format!("{}: keys {:?}", what, o)); continue } };
        r.steps(3);
        let p = honest(&t, &k, &w.a, SEED);
        let same = p.as_ref().map_or(false, |p| bytes(p) == w.bytes);
        let v = t.verify::<TapeFS>(&k, &w.a.inst, copy_proof(&w.proof));
        let b = t.verify::<TapeFS>(&k, &w.a.inst, copy_proof(&w.bad[0].1));
        r.exec(&what, format!("same proof: {}, verify: {}", same, v.kind()));
        r.check(same && v.accepted() && b.rejected(), "expression-differs", || {
            format!("{}: same proof {}, honest {:?}, altered {:?}; now {:?}", what, same, v, b, all(&c))
        });
        // and the same assignments are refused
        for bad in changed(&sys.c, &w.a, &[1], 5).iter().take(3) {
            if sat::<F62>(&sys.c, bad).all() {
                continue;
            }
            if let Ok(p) = t.prove::<TapeFS, _>(&k, bad, &mut ZkRng::new(1)) {
                let v = t.verify::<TapeFS>(&k, &bad.inst, p);
                r.check(!v.accepted(), "expression-unsound", || format!("{}: {:?} accepted", what, bad));
            }
        }
    }
}

// --------------------------------------------------------------------------------------------

/// Columns that nothing reads.
fn unread(sys: &System, kinds: usize, dir: Dir, r: &mut Rec) {
    let mut c = sys.c.clone();
    let n = c.n;
    let junk = |k: usize| -> Vec<i64> { (0..n).map(|i| filler(90 + k as u64, i)).collect() };
    let mut asgs = sys.asgs.clone();
    for k in 0..2 {
        if kinds >> k & 1 == 1 { c.fixed.push(junk(k)) }
        if kinds >> (2 + k) & 1 == 1 { c.tables.push(junk(k)) }
        if kinds >> (4 + k) & 1 == 1 {
            c.nw += 1;
            for a in asgs.iter_mut() { a.w.push(junk(k)) }
        }
        if kinds >> (6 + k) & 1 == 1 {
            c.ni += 1;
            for a in asgs.iter_mut() { a.inst.push(junk(k)) }
        }
    }
    let all: Vec<Asg> = match dir {
        Dir::Complete => asgs,
        Dir::Sound => asgs.iter().flat_map(|a| changed(&c, a, &[1], 3)).collect(),
    };
    conform::<F62, T62>(&c, all, dir, r)
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let cat = catalogue_wide();

    // names
    let mut cases = vec![];
    for i in 0..cat.len() {
        for l in (0..7).chain(16..if t { 16 + 120 } else { 16 + 24 }) {
            cases.push((i, l));
        }
    }
    for dir in [Dir::Complete, Dir::Sound] {
        ctx.sweep(
            if dir == Dir::Complete { "names" } else { "names-unsound" },
            "every system of the catalogue x names of columns: the first 24 (120) orders, unpadded numbers, equal names in all kinds, names the protocol uses itself, odd names; honest assignments / every third row of every column changed",
            &cases,
            |(i, l), r| {
                let mut c = cat[*i].c.clone();
                c.labels = *l;
                let asgs: Vec<Asg> = match dir {
                    Dir::Complete => cat[*i].asgs.clone(),
                    Dir::Sound => cat[*i].asgs[..1].iter().flat_map(|a| changed(&c, a, &[1], 3)).collect(),
                };
                conform::<F62, T62>(&c, asgs, dir, r)
            },
        );
    }
    // keys
    ctx.sweep("keys", "every system of the catalogue x every combination of ways to build the columns of the prover's key (4 ways for each group) and of the verifier's (3 ways, and without blinding column where no row is blinded)", &cat, |s, r| keys::<F62, T62>(s, r));
    let few: Vec<usize> = if t { (0..cat.len()).collect() } else { vec![2, 6, 8] };
    ctx.sweep("keys-kzg", "the same over KZG", &few, |i, r| keys::<Fr, K>(&cat[*i], r));
    ctx.sweep("preparation", "key preparation from prover's or verifier's columns of every kind, x every way to say that nothing is copied", &cat, |s, r| preparation::<F62, T62>(s, r));
    ctx.sweep("preparation-kzg", "the same over KZG", &few, |i, r| preparation::<Fr, K>(&cat[*i], r));
    // declarations
    ctx.sweep("declarations", "constraints declared in every order (up to 4 (5) of them; otherwise rotations and reflections), or one of them twice, on the columns of either side", &cat, |s, r| declarations(s, !t, r));
    ctx.sweep("extra-openings", "an offset nothing reads registered on a first or last column of any kind on both sides; every claimed value changed", &cat, |s, r| extra_openings(s, r));
    // expressions
    let mut cases = vec![];
    for i in 0..cat.len() {
        for rule in 0..RULES {
            cases.push((i, rule));
        }
    }
    ctx.sweep("expressions", "11 rules of algebra that keep the degree, applied at every single node, over every expression, and everywhere", &cases, |(i, rule), r| expressions(&cat[*i], *rule, r));
    // shifts
    let shifts: Vec<Vec<u64>> = vec![vec![1, 2, 3, 4, 5, 6, 7, 8], vec![8, 7, 6, 5, 4, 3, 2, 1], vec![0, 5, 1, 9, 3, 17, 30, 2], vec![61, 7, 1000, 3, 12345, 0, 99, 5], vec![3, 0, 1, 2, 4, 5, 6, 7]]
        .into_iter()
        .map(|mut v| {
            // more of them for systems that copy more columns
            v.extend((0..16).map(|i| 2000 + 37 * i * i));
            v
        })
        .collect();
    let mut cases = vec![];
    for i in 0..cat.len() {
        if cat[i].c.perm.is_some() {
            for s in &shifts {
                cases.push((i, s.clone()));
            }
        }
    }
    for dir in [Dir::Complete, Dir::Sound] {
        ctx.sweep(
            if dir == Dir::Complete { "shifts" } else { "shifts-unsound" },
            "every system with copies x 5 choices of coset representatives for the copied columns; honest assignments / every cell changed",
            &cases,
            |(i, s), r| {
                let c = &cat[*i].c;
                let t = Tweak { shifts: Some(s.clone()), ..Default::default() };
                let asgs: Vec<Asg> = match dir {
                    Dir::Complete => cat[*i].asgs.clone(),
                    Dir::Sound => changed(c, &cat[*i].asgs[0], &[1], 1),
                };
                conform_tweaked::<F62, T62, TapeFS>(c, &t, asgs, dir, r)
            },
        );
    }
    // unread columns
    let mut cases = vec![];
    for i in 0..cat.len() {
        for k in 0..256 {
            // one or two columns of each kind
            if (0..4).all(|p| (k >> (2 * p)) & 3 != 2) {
                cases.push((i, k));
            }
        }
    }
    for dir in [Dir::Complete, Dir::Sound] {
        ctx.sweep(
            if dir == Dir::Complete { "unread-columns" } else { "unread-columns-unsound" },
            "every system x 0, 1 or 2 columns of each kind that nothing reads; honest assignments / every third row changed",
            &cases,
            |(i, k), r| unread(&cat[*i], *k, dir, r),
        );
    }
    // larger keys
    let mut cases = vec![];
    for i in 0..cat.len() {
        for d in [0usize, 1, 2, 7, 64, 1000] {
            cases.push((i, d));
        }
    }
    for dir in [Dir::Complete, Dir::Sound] {
        ctx.sweep(
            if dir == Dir::Complete { "larger-keys" } else { "larger-keys-unsound" },
            "every system x a commitment key of 0, 1, 2, 7, 64 or 1000 degrees more than needed",
            &cases,
            |(i, d), r| {
                let c = &cat[*i].c;
                let t = Tweak { max_degree: Some(c.n - 1 + d), ..Default::default() };
                let asgs: Vec<Asg> = match dir {
                    Dir::Complete => cat[*i].asgs.clone(),
                    Dir::Sound => changed(c, &cat[*i].asgs[0], &[1], 3),
                };
                conform_tweaked::<F62, T62, TapeFS>(c, &t, asgs, dir, r)
            },
        );
    }
    ctx.require("keys", |s| s.outcomes.contains_key("prove: same proof") && s.outcomes.contains_key("verify bad: reject"), "no comparison");
}
