//! Complete systems (gates, copies and lookups together), larger domains, and the real commitment
//! scheme with the real transcript, for the properties about completeness and soundness (P01-P06)
//! and about altered proofs (P07).
use super::common::*;
use crate::systems::*;
use zero_over_k::commitment::KZG10;

type Fr = ark_bls12_381::Fr;
type K = KZG10<ark_bls12_381::Bls12_381>;

/// What kind of constraint a property is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Gate,
    Copy,
    Lookup,
}
fn concerns(c: &Circuit, k: Kind) -> bool {
    match k {
        Kind::Gate => true,
        Kind::Copy => c.perm.is_some(),
        Kind::Lookup => !c.lookups.is_empty(),
    }
}
fn violated(s: &Sat, k: Kind) -> bool {
    match k {
        Kind::Gate => !s.gates,
        Kind::Copy => !s.copies,
        Kind::Lookup => !s.lookups,
    }
}
/// Every single cell of every witness and public column changed; `every` thins them out, always
/// keeping the first and last rows and those around the end of the usable ones.
pub fn changed(c: &Circuit, a: &Asg, ds: &[i64], every: usize) -> Vec<Asg> {
    let rows: Vec<usize> =
        (0..c.n).filter(|r| r % every == 0 || *r == c.n - 1 || (*r + 2 >= c.u && *r <= c.u + 1)).collect();
    let mut out = vec![];
    for &d in ds {
        for &r in &rows {
            for k in 0..a.w.len() {
                let mut b = a.clone();
                b.w[k][r] += d;
                out.push(b);
            }
            for k in 0..a.inst.len() {
                let mut b = a.clone();
                b.inst[k][r] += d;
                out.push(b);
            }
        }
    }
    out
}
fn sizes(t: bool, kind: Kind) -> Vec<System> {
    let mut v = vec![];
    for n in if t { vec![16usize, 32, 64, 128, 256, 512] } else { vec![16, 32, 64, 128] } {
        for (k, l) in match kind {
            Kind::Gate => vec![(0, 0), (2, 0), (1, 1)],
            Kind::Copy => vec![(1, 0), (3, 0), (7, 0), (4, 2)],
            Kind::Lookup => vec![(0, 1), (0, 2), (3, 3)],
        } {
            for (deg, u, red) in [(2, n - 1, false), (3, n - 4, true), (5, n / 2 + 1, false), (9, n - 2, true)] {
                if u + 1 < n || !red {
                    v.push(wide(n, k, l, deg, u, red));
                }
            }
        }
    }
    v.retain(|s| concerns(&s.c, kind));
    v
}

pub fn run(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    let t = ctx.thorough;
    let mut cat = catalogue();
    cat.retain(|s| concerns(&s.c, kind));
    let pick = |c: &Circuit, asgs: Vec<Asg>| -> Vec<Asg> {
        asgs.into_iter().filter(|a| dir == Dir::Complete || violated(&sat::<Fr>(c, a), kind)).collect()
    };
    if dir == Dir::Sound {
        ctx.sweep(
            "whole-systems",
            "complete systems with gates, copies and lookups: every cell of every witness and public column changed by +-1 and +1000",
            &cat,
            |s, r| {
                for a in &s.asgs {
                    conform::<F62, T62>(&s.c, pick(&s.c, changed(&s.c, a, &[1, -1, 1000], 1)), dir, r);
                }
            },
        );
    }
    ctx.sweep(
        "sizes",
        "n = 16..128 (thorough 512), several copied columns, lookups, degrees 2..9, numbers of usable rows, reduced vanishing set; completeness: the assignment and changes of unconstrained cells; soundness: cells of every column changed on the first and last rows, around the last usable row and on every 5th row",
        &sizes(t, kind),
        |s, r| {
            for a in &s.asgs {
                let mut v = changed(&s.c, a, &[1], 5);
                v.push(a.clone());
                conform::<F62, T62>(&s.c, pick(&s.c, v), dir, r);
            }
        },
    );
    if dir == Dir::Complete {
        ctx.require("sizes", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 20, "too few accepted executions");
    }
    // the real commitment scheme and the real transcript
    let mut real = catalogue();
    real.push(wide(16, 3, 2, 5, 12, true));
    real.retain(|s| concerns(&s.c, kind));
    let mut cases = vec![];
    for s in &real {
        for (i, a) in s.asgs.iter().enumerate() {
            if dir == Dir::Complete {
                cases.push((s.name, i, s.c.clone(), vec![a.clone()]));
            } else if i == 0 || t {
                for v in pick(&s.c, changed(&s.c, a, &[1], if t { 1 } else { 3 })).chunks(8) {
                    cases.push((s.name, i, s.c.clone(), v.to_vec()));
                }
            }
        }
    }
    ctx.range(
        "kzg",
        "the complete systems with KZG10 over BLS12-381 and the hash transcript; soundness: cells changed on the first and last rows, around the last usable row and on every 3rd row (thorough: all)",
        cases.len(),
        |i| format!("{} {}", cases[i].0, i),
        |i, r| conform_fs::<Fr, K, RealFS>(&cases[i].2, cases[i].3.clone(), dir, r),
    );
    if dir == Dir::Complete {
        let want = cases.len() as u64;
        ctx.require("kzg", |s| s.outcomes.get("accept").copied().unwrap_or(0) == want, "a real proof was not accepted");
    }
}

/// A dishonest prover that has no valid witness follows the procedure (with rearranged columns and
/// running products of its own where the honest ones do not exist) and then replaces one claimed
/// value by the one that makes the constraint identity hold at the evaluation point: found by
/// trying all elements of a small field. Opening that value has to fail.
pub fn repaired(ctx: &mut Ctx, kind: Kind) {
    type F = F193;
    let wanted = 16;
    let mut systems = catalogue();
    systems.retain(|s| concerns(&s.c, kind));
    let mut cases = vec![];
    for (si, s) in systems.iter().enumerate() {
        // one violating assignment of this kind per column at least
        let a = &s.asgs[0];
        let mut cols = std::collections::BTreeSet::new();
        for row in [1, 0, s.c.u - 1] {
            for k in 0..a.w.len() {
                let mut b = a.clone();
                b.w[k][row] += 1;
                if violated(&sat::<F>(&s.c, &b), kind) && (cols.insert(k) || ctx.thorough) {
                    cases.push((si, b));
                }
            }
        }
    }
    // claimed values that take part in the constraint identity
    let cases: Vec<(usize, Asg, usize)> =
        cases.into_iter().flat_map(|(si, b)| (0..EVALS.len()).filter(|l| *l != 8).map(move |l| (si, b.clone(), l))).collect();
    ctx.range(
        "repaired-claim",
        "systems over the field with 193 elements, assignments violating the constraints, every claimed value replaced by every field element; up to 16 transcripts, until the repaired claim is rejected in one of them",
        cases.len(),
        |i| format!("{} {:?} {}", systems[cases[i].0].name, cases[i].1, EVALS[cases[i].2]),
        |ci, r| {
            let (si, a, l) = &cases[ci];
            let s = &systems[*si];
            let sys = match Sys::<F, ToyPC<F>>::new(&s.c) { Ok(s) => s, Err(_) => return r.exec((si, l), "no such domain in the small field") };
            let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.exec((si, l), format!("no keys:{}", o.kind())) };
            r.steps(2);
            // per claimed value: transcripts in which it could be repaired, and in which it was accepted
            let mut tally: Vec<(u32, u32)> = vec![];
            let (mut seed, mut tried) = (0u64, 0);
            while tried < wanted && seed < 60 {
                seed += 1;
                let u = s.c.u;
                set_interceptor(Some(Box::new(move |site, _, v| match site {
                    "lookup_columns" => {
                        let f = v.downcast_mut::<(Vec<F>, Vec<F>, bool)>().unwrap();
                        f.0.sort();
                        f.1 = f.0.clone();
                        f.2 = true;
                    }
                    "lookup_z_usable_rows" => v.downcast_mut::<Vec<F>>().unwrap()[u] = F::one(),
                    _ => {}
                })));
                // the dishonest prover batches the openings after putting the replaced claim into the
                // transcript: verification runs on the challenges of the proof
                start(vec![]);
                let p = honest(&sys, &keys, a, seed);
                let challenges = draws(&finish());
                set_interceptor(None);
                r.steps(1);
                let mut p = match p { Ok(p) => p, Err(_) => continue };
                tried += 1;
                let slots = evals(&mut p, *l).len();
                tally.resize(slots, (0, 0));
                if tried > 1 && tally.iter().all(|(rep, acc)| acc < rep) {
                    break;
                }
                for i in 0..slots {
                    if tally[i].1 < tally[i].0 {
                        continue;
                    }
                    let (mut rep, mut acc) = (false, false);
                    for v in 0..193u64 {
                        let mut q = copy_proof(&p);
                        if evals(&mut q, *l)[i] == F::from(v) {
                            continue;
                        }
                        evals(&mut q, *l)[i] = F::from(v);
                        r.steps(1);
                        start(challenges.clone());
                        let out = sys.verify::<TapeFS>(&keys, &a.inst, q);
                        finish();
                        match out {
                            Out::Reject(e) if e.contains("QuotientNotZero") => {}
                            Out::Reject(_) => rep = true,
                            Out::Accept => { rep = true; acc = true }
                            // division by zero among the 193 possible challenges
                            Out::Panic(_) => {}
                        }
                    }
                    tally[i].0 += rep as u32;
                    tally[i].1 += acc as u32;
                    r.exec((si, a, l, i, seed), format!("repaired {} accepted {}", rep, acc));
                }
            }
            for (i, (rep, acc)) in tally.iter().enumerate() {
                // a single acceptance is a coincidence of a tiny field, all of them are not
                r.check(*rep < 10 || acc < rep, "repaired-claim", || {
                    format!("{}: {:?} accepted with {}[{}] replaced, in {} of {} transcripts", s.name, a, EVALS[*l], i, acc, rep)
                });
            }
        },
    );
    ctx.require("repaired-claim", |s| s.outcomes.iter().any(|(k, n)| k.starts_with("repaired true") && *n > 100), "no repair explored");
}

/// P07 with the real commitment scheme.
pub fn altered(ctx: &mut Ctx) {
    use ark_ec::{AffineCurve, ProjectiveCurve};
    let t = ctx.thorough;
    type P = TPProof<Fr, K>;
    type Edit = (String, Box<dyn Fn(&mut P) + Send + Sync>);
    let systems = catalogue();
    let edits = |p: &mut P| -> Vec<Edit> {
        let mut out: Vec<Edit> = vec![];
        let ev = eval_slots(p);
        for &(l, i) in &ev {
            out.push((format!("{}[{}] + 1", EVALS[l], i), Box::new(move |p| evals(p, l)[i] += Fr::one())));
            out.push((format!("{}[{}] negated", EVALS[l], i), Box::new(move |p| evals(p, l)[i] = -evals(p, l)[i])));
        }
        let cs = comm_slots(p);
        for (k, &(l, i)) in cs.iter().enumerate() {
            out.push((format!("{}[{}] negated", COMMS[l], i), Box::new(move |p| {
                let c = K::scale_com(&comms(p, l)[i], -Fr::one());
                comms(p, l)[i] = c
            })));
            out.push((format!("{}[{}] = 0", COMMS[l], i), Box::new(move |p| comms(p, l)[i] = K::zero_comm())));
            for &(m, j) in &cs[k + 1..] {
                out.push((format!("{}[{}] <-> {}[{}]", COMMS[l], i, COMMS[m], j), Box::new(move |p| {
                    let (a, b) = (comms(p, l)[i].clone(), comms(p, m)[j].clone());
                    comms(p, l)[i] = b;
                    comms(p, m)[j] = a;
                })));
            }
        }
        out.push(("opening witness negated".into(), Box::new(|p| p.multiopen_proof.opening_proof.w = -p.multiopen_proof.opening_proof.w)));
        out.push(("opening witness doubled".into(), Box::new(|p| {
            let w = p.multiopen_proof.opening_proof.w;
            p.multiopen_proof.opening_proof.w = (w.into_projective() + w.into_projective()).into_affine()
        })));
        out.push(("opening witness zero".into(), Box::new(|p| p.multiopen_proof.opening_proof.w = ark_bls12_381::G1Affine::zero())));
        out.push(("opening randomness + 1".into(), Box::new(|p| {
            p.multiopen_proof.opening_proof.random_v = Some(p.multiopen_proof.opening_proof.random_v.unwrap_or_else(Fr::zero) + Fr::one())
        })));
        out.push(("opening randomness dropped".into(), Box::new(|p| p.multiopen_proof.opening_proof.random_v = None)));
        out
    };
    let chunks = 8;
    ctx.range(
        "kzg",
        "the 11 systems with KZG10 over BLS12-381 and the hash transcript: every claimed value +1 and negated, every commitment negated, zeroed and exchanged with every other (quick: every 4th such edit from the third system on), every part of the opening argument altered",
        systems.len() * chunks,
        |i| format!("{} part {}", systems[i / chunks].name, i % chunks),
        |i, r| {
            let s = &systems[i / chunks];
            let sys = match Sys::<Fr, K>::new(&s.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
            let mut p = match sys.prove::<RealFS, _>(&keys, &s.asgs[0], &mut ZkRng::new(3)) {
                Ok(p) => p,
                Err(o) => return r.exec(s.name, format!("prove:{}", o.kind())),
            };
            r.steps(3);
            let orig = bytes(&p);
            if i % chunks == 0 {
                r.steps(1);
                r.exec(s.name, format!("unchanged:{}", sys.verify::<RealFS>(&keys, &s.asgs[0].inst, copy_proof(&p)).kind()));
            }
            for (k, (what, f)) in edits(&mut p).into_iter().enumerate() {
                if k % chunks != i % chunks || (!t && i / chunks > 1 && what.contains("<->") && (k / chunks) % 4 != 0) {
                    continue;
                }
                let mut q = copy_proof(&p);
                f(&mut q);
                if bytes(&q) == orig {
                    continue;
                }
                r.steps(1);
                let o = sys.verify::<RealFS>(&keys, &s.asgs[0].inst, q);
                r.exec((s.name, &what), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "altered-proof", || format!("{} with {}: {:?}", s.name, what, o));
            }
        },
    );
    let n = systems.len() as u64;
    ctx.require("kzg", |s| s.outcomes.get("unchanged:accept").copied().unwrap_or(0) == n, "an honest proof was not accepted");
}

/// P24: the number of elements of every list of a proof and its encoded size depend on the
/// constraint system alone.
pub fn shape(ctx: &mut Ctx) {
    let t = ctx.thorough;
    fn lens<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &TPProof<F, PC>) -> Vec<usize> {
        vec![
            p.witness_commitments.len(),
            p.witness_evals.len(),
            p.fixed_oracle_evals.len(),
            p.table_oracle_evals.len(),
            p.permutation_oracle_evals.len(),
            p.lookup_commitments.len(),
            p.lookup_z_commitments.len(),
            p.lookup_evals.len(),
            p.lookup_z_evals.len(),
            p.z_commitments.len(),
            p.z_evals.len(),
            p.quotient_chunk_commitments.len(),
            p.quotient_chunks_evals.len(),
            p.multiopen_proof.q_evals.len(),
        ]
    }
    /// all proofs of the assignments have one shape
    fn same<F: PrimeField, PC: HomomorphicCommitment<F>, FS: zero_over_k::rng::FiatShamirRng>(
        c: &Circuit,
        asgs: impl IntoIterator<Item = Asg>,
        sizes: bool,
        r: &mut Rec,
    ) {
        let sys = match Sys::<F, PC>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
        let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.exec(c, format!("no keys:{}", o.kind())) };
        r.steps(2);
        let mut first: Option<(Vec<usize>, usize, Asg)> = None;
        for (i, a) in asgs.into_iter().enumerate() {
            if !sat::<F>(c, &a).all() {
                continue;
            }
            r.steps(1);
            let p = match sys.prove::<FS, _>(&keys, &a, &mut ZkRng::new(i as u64)) {
                Ok(p) => p,
                Err(o) => { r.exec((c, &a), format!("prove:{}", o.kind())); continue }
            };
            let l = lens(&p);
            let b = if sizes { bytes(&p).len() } else { 0 };
            match &first {
                None => {
                    // every witness column is committed to and every column of the protocol is opened
                    let lk = c.lookups.len();
                    r.check(l[0] == c.nw && l[5] == 2 * lk && l[6] == lk && l[11] == l[12] && l[11] > 0,
                        "shape", || format!("lengths {:?}", l));
                    first = Some((l, b, a.clone()));
                    r.exec((c, &a), "first");
                }
                Some((l0, b0, a0)) => {
                    r.exec((c, &a), "same");
                    r.check(l == *l0, "list-lengths", || format!("{:?} for {:?}, {:?} for {:?}", l0, a0, l, a));
                    r.check(b == *b0, "encoded-size", || format!("{} for {:?}, {} for {:?}", b0, a0, b, a));
                }
            }
        }
    }
    // columns of the ideal commitment have as many coefficients as their degree says: sizes with KZG only
    let circuits = super::gates::exhaustive_circuits(t);
    ctx.sweep(
        "all-assignments",
        "every satisfying assignment over {0,1} or {0,1,2} of every gate system of P01: numbers of elements of all lists",
        &circuits,
        |(c, alpha), r| same::<F62, T62, TapeFS>(c, super::gates::all_assignments(c, alpha), false, r),
    );
    ctx.require("all-assignments", |s| s.outcomes.get("same").copied().unwrap_or(0) > 500, "too few proofs");
    let mut systems = crate::systems::catalogue_many();
    for (k, l, deg) in [(0, 0, 2), (3, 0, 3), (0, 1, 2), (7, 2, 5)] {
        systems.push(wide(16, k, l, deg, 12, true));
        systems.push(wide(16, k, l, deg, 15, false));
    }
    let variants = |s: &System| -> Vec<Asg> {
        let mut v = vec![];
        for a in &s.asgs {
            v.push(a.clone());
            // unconstrained cells changed; all cells zero or all equal where that satisfies the system
            for b in changed(&s.c, a, &[1], 1) {
                v.push(b);
            }
            for k in [0, 1] {
                v.push(Asg { w: vec![vec![k; s.c.n]; a.w.len()], inst: vec![vec![0; s.c.n]; a.inst.len()] });
            }
        }
        v
    };
    ctx.sweep("systems", "the complete systems of the catalogue and 8 larger ones: two assignments and all changes of unconstrained cells", &systems,
        |s, r| same::<F62, T62, TapeFS>(&s.c, variants(s), false, r));
    // all-zero and generic assignments of gate systems for the encoded size
    let mut small: Vec<(Circuit, Vec<Asg>)> = vec![];
    for s in &systems {
        let v: Vec<Asg> = variants(s).into_iter().filter(|a| sat::<Fr>(&s.c, a).all()).collect();
        let step = if t { 1 } else { (v.len() / 6).max(1) };
        small.push((s.c.clone(), v.into_iter().step_by(step).collect()));
    }
    for (c, alpha) in super::gates::exhaustive_circuits(false).into_iter().step_by(if ctx.deeper { 2 } else if t { 7 } else { 31 }) {
        let v: Vec<Asg> = super::gates::all_assignments(&c, &alpha).into_iter().filter(|a| sat::<Fr>(&c, a).all()).collect();
        let n = v.len();
        if n > 1 {
            let step = (n / 3).max(1);
            small.push((c, v.into_iter().step_by(step).collect()));
        }
    }
    ctx.range("kzg", "the same systems and every 7th (thorough: second) gate system, a few assignments including all zero, with KZG10 over BLS12-381 and the hash transcript: numbers of elements and encoded size", small.len(),
        |i| format!("{:?}", small[i].0), |i, r| same::<Fr, K, RealFS>(&small[i].0, small[i].1.clone(), true, r));
    ctx.require("kzg", |s| s.outcomes.get("same").copied().unwrap_or(0) > 20, "too few proofs");
}
