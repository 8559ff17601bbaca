//! P11: the batched opening on its own.
use super::common::*;
use ark_ff::to_bytes;
use ark_poly_commit::PolynomialCommitment;
use zero_over_k::multiproof::{piop::Multiopen, Proof as MoProof};
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::rng::FiatShamirRng;

/// Polynomials of one opening: coefficients, offsets, committed with or without blinding.
#[derive(Clone, Debug)]
pub struct Poly {
    pub coeffs: Vec<i64>,
    pub rots: Vec<i32>,
    pub fixed: bool,
}
#[derive(Clone, Debug)]
pub struct Case {
    pub n: usize,
    pub polys: Vec<Poly>,
    pub xi: i64,
}

pub struct Run<F: PrimeField> {
    pub n: usize,
    pub xi: F,
    pub rots: Vec<Vec<i32>>,
    pub fixed: Vec<bool>,
    pub comms: Vec<Comm<F>>,
    /// claimed values, per polynomial and offset
    pub claims: Vec<Vec<F>>,
    pub proof: MoProof<F, ToyPC<F>>,
    pub words: Vec<u64>,
}

pub fn point<F: PrimeField>(n: usize, xi: F, rot: i32) -> F {
    let w = F::get_root_of_unity(n).unwrap();
    xi * w.pow([idx(0, rot, n) as u64])
}

pub fn copy_mo<F: PrimeField>(p: &MoProof<F, ToyPC<F>>) -> MoProof<F, ToyPC<F>> {
    MoProof { q_evals: p.q_evals.clone(), f_commit: p.f_commit.clone(), opening_proof: p.opening_proof.clone() }
}

/// An honest opening (None: the prover refused or crashed, reported).
pub fn open<F: PrimeField>(c: &Case, script: &[u64], r: &mut Rec) -> Option<Run<F>> {
    type M<F> = Multiopen<F, ToyPC<F>, TapeFS>;
    let top = c.polys.iter().map(|p| p.coeffs.len()).max().unwrap().max(c.n + 1);
    let key = Key { max_degree: top as u64, hiding_bound: 1 };
    let xi = fe::<F>(c.xi);
    let dom = ark_poly::GeneralEvaluationDomain::<F>::new(c.n).unwrap();
    let polys: Vec<DensePolynomial<F>> = c.polys.iter().map(|p| DensePolynomial::from_coefficients_vec(field_col(&p.coeffs))).collect();
    let mut ws: Vec<Option<WitnessProverOracle<F>>> = vec![];
    let mut fs: Vec<Option<FixedProverOracle<F>>> = vec![];
    for (i, (p, spec)) in polys.iter().zip(&c.polys).enumerate() {
        let evals = dom.fft(p);
        if spec.fixed {
            let mut o = FixedProverOracle::new(format!("q{:02}", i), p.clone(), &evals);
            spec.rots.iter().for_each(|x| o.register_rotation(rotation(*x)));
            fs.push(Some(o));
            ws.push(None);
        } else {
            let mut o = WitnessProverOracle::new(format!("q{:02}", i), p.clone(), &evals, false);
            spec.rots.iter().for_each(|x| o.register_rotation(rotation(*x)));
            ws.push(Some(o));
            fs.push(None);
        }
    }
    let oracles: Vec<&dyn Instantiable<F>> = ws.iter().zip(&fs)
        .map(|(w, f)| match w {
            Some(w) => w as &dyn Instantiable<F>,
            None => f.as_ref().unwrap() as &dyn Instantiable<F>,
        })
        .collect();
    let labeled: Vec<_> = oracles.iter().map(|o| o.to_labeled()).collect();
    let mut zk = ZkRng::new(5);
    let (comms, rands) = ToyPC::<F>::commit(&key, labeled.iter(), Some(&mut zk)).unwrap();
    start(script.to_vec());
    let mut rng = TapeFS::initialize(&to_bytes![xi].unwrap());
    let res = guarded(|| M::<F>::prove(&key, &oracles, &rands, xi, c.n, &mut rng, &mut zk));
    let words = draws(&finish());
    r.steps(1);
    match res {
        Ok(Ok(proof)) => Some(Run {
            n: c.n,
            xi,
            rots: c.polys.iter().map(|p| p.rots.clone()).collect(),
            fixed: c.polys.iter().map(|p| p.fixed).collect(),
            comms: comms.iter().map(|c| c.commitment().clone()).collect(),
            claims: c.polys.iter().zip(&polys).map(|(s, p)| s.rots.iter().map(|x| p.evaluate(&point(c.n, xi, *x))).collect()).collect(),
            proof,
            words,
        }),
        Ok(Err(e)) => {
            r.exec(format!("{:?}", c), format!("prove:{}", short(&format!("{:?}", e))));
            None
        }
        Err(e) => {
            r.exec(format!("{:?}", c), format!("prove:panic:{}", short(&e)));
            None
        }
    }
}

pub fn check<F: PrimeField>(run: &Run<F>, comms: &[Comm<F>], claims: &[Vec<F>], proof: MoProof<F, ToyPC<F>>, script: &[u64]) -> Out {
    type M<F> = Multiopen<F, ToyPC<F>, TapeFS>;
    let top = comms.iter().map(|c| c.poly.len()).max().unwrap_or(0).max(run.n + 2) + 2;
    let key = Key { max_degree: top as u64, hiding_bound: 1 };
    let mut ws = vec![];
    let mut fx = vec![];
    for i in 0..comms.len() {
        if run.fixed[i] {
            let mut o = FixedVerifierOracle::<F, ToyPC<F>>::new(format!("q{:02}", i), Some(comms[i].clone()));
            for (x, v) in run.rots[i].iter().zip(&claims[i]) {
                o.register_rotation(rotation(*x));
                o.register_eval_at_challenge(point(run.n, run.xi, *x), *v);
            }
            fx.push(Some(o));
            ws.push(None);
        } else {
            let mut o = WitnessVerifierOracle::<F, ToyPC<F>>::new(format!("q{:02}", i), false);
            o.register_commitment(comms[i].clone());
            for (x, v) in run.rots[i].iter().zip(&claims[i]) {
                o.register_rotation(rotation(*x));
                o.register_eval_at_challenge(point(run.n, run.xi, *x), *v);
            }
            ws.push(Some(o));
            fx.push(None);
        }
    }
    let oracles: Vec<&dyn CommittedOracle<F, ToyPC<F>>> = ws.iter().zip(&fx)
        .map(|(w, f)| match w {
            Some(w) => w as &dyn CommittedOracle<F, ToyPC<F>>,
            None => f.as_ref().unwrap() as &dyn CommittedOracle<F, ToyPC<F>>,
        })
        .collect();
    start(script.to_vec());
    let mut rng = TapeFS::initialize(&to_bytes![run.xi].unwrap());
    let o = match guarded(|| M::<F>::verify(&key, proof, &oracles, run.xi, run.n, &mut rng)) {
        Err(e) => Out::Panic(e),
        Ok(Err(e)) => Out::Reject(short(&format!("{:?}", e))),
        Ok(Ok(())) => Out::Accept,
    };
    finish();
    o
}

/// Nonempty subsets of the offsets that denote distinct points of a domain of size n.
pub fn subsets(offsets: &[i32]) -> Vec<Vec<i32>> {
    (1..1usize << offsets.len())
        .map(|m| offsets.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect())
        .collect()
}
fn coeffs(seed: u64, len: usize) -> Vec<i64> {
    (0..len).map(|i| filler(seed, i)).collect()
}
/// Coefficient shapes: full, constant, zero, short, longer than the domain, equal to another one.
fn shape(k: usize, i: usize, n: usize) -> Vec<i64> {
    match k {
        0 => coeffs(i as u64, n),
        1 => vec![7 + i as i64],
        2 => vec![],
        3 => coeffs(i as u64, 2),
        4 => coeffs(i as u64, n + 2),
        _ => coeffs(99, n),
    }
}

fn cases(t: bool) -> Vec<Case> {
    let mut out = vec![];
    let four = subsets(&[0, 1, 2, -1]);
    let xi = 123457;
    let mk = |n: usize, rots: &[Vec<i32>], shapes: &[usize], mask: usize| Case {
        n,
        xi,
        polys: rots.iter().enumerate()
            .map(|(i, r)| Poly { coeffs: shape(shapes[i], i, n), rots: r.clone(), fixed: mask >> i & 1 == 1 })
            .collect(),
    };
    for a in &four {
        for s in 0..6 {
            out.push(mk(4, &[a.clone()], &[s], s % 2));
        }
        for b in &four {
            for s in [[0, 0], [1, 0], [2, 3], [4, 0], [5, 5]] {
                out.push(mk(4, &[a.clone(), b.clone()], &s, s[0] % 4));
            }
            for c in &four {
                out.push(mk(4, &[a.clone(), b.clone(), c.clone()], &[0, 0, 0], 0));
                out.push(mk(4, &[a.clone(), b.clone(), c.clone()], &[5, 4, 5], 5));
            }
        }
    }
    // larger domains, offsets beyond it, many polynomials on few sets
    let eight = subsets(&[0, 1, -1, 3, -3]);
    for a in &eight {
        for b in &eight {
            out.push(mk(8, &[a.clone(), b.clone()], &[0, 4], 2));
        }
    }
    for r in [vec![4], vec![5, 0], vec![-5, 5], vec![-4, 2], vec![9, 2, 3]] {
        out.push(mk(4, &[r.clone(), vec![1]], &[0, 0], 0));
    }
    for k in [4, 6, 9, 16] {
        for m in 1..4 {
            let rots: Vec<Vec<i32>> = (0..k).map(|i| four[(i * m) % four.len()].clone()).collect();
            out.push(mk(4, &rots, &vec![0; k], 0b1010));
        }
    }
    let few = if t { four.clone() } else { vec![vec![0], vec![0, 1], vec![1], vec![0, -1], vec![0, 1, 2, -1]] };
    for a in &few {
        for b in &few {
            for c in &few {
                for d in &few {
                    out.push(mk(4, &[a.clone(), b.clone(), c.clone(), d.clone()], &[0, 5, 0, 5], 8));
                }
            }
        }
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    forged(ctx);
    let all = cases(t);
    ctx.sweep("complete", "k <= 4 polynomials, every assignment of nonempty offset sets out of 4 (k <= 3) or of 5 (quick) / 15 (thorough) sets (k = 4), six coefficient shapes, with and without blinding; n in {4,8}", &all, |c, r| {
        let run = match open::<F62>(c, &[], r) {
            Some(x) => x,
            None => return r.fail("no-opening", format!("{:?}", c)),
        };
        let o = check(&run, &run.comms, &run.claims, copy_mo(&run.proof), &[]);
        r.steps(1);
        r.exec(format!("{:?}", c), Full { stage: "verify", out: o.clone() }.key());
        r.check(o.accepted(), "incomplete", || format!("honest opening of {:?}: {:?}", c, o));
    });
    // every alteration of the openings of up to two (three) polynomials
    let few: Vec<Case> = all.iter().filter(|c| c.polys.len() <= 2 && (t || c.n == 4) || c.polys.len() > 4).cloned().collect();
    ctx.sweep("binding", "k <= 2 (every pair of offset sets) and k up to 16: every claim +-1, every pair of claims cancelling or exchanged, every q value, list length, commitment, opening part; hashed and pinned challenges", &few, |c, r| alterations(c, r));
    ctx.require("binding", |s| s.outcomes.iter().any(|(k, n)| k.contains("OpeningCheckFailed") && *n > 1000), "nothing opened");
    let three: Vec<Case> = all.iter().filter(|c| c.polys.len() == 3 && c.n == 4 && (t || c.polys[0].coeffs[0] != coeffs(99, 1)[0])).cloned().collect();
    ctx.sweep("cancel", "k = 3: every pair and triple of false claims that cancel in a sum", &three, |c, r| {
        let run = match open::<F62>(c, &[], r) {
            Some(x) => x,
            None => return,
        };
        let slots: Vec<(usize, usize)> = run.claims.iter().enumerate().flat_map(|(i, v)| (0..v.len()).map(move |j| (i, j))).collect();
        let mut go = |what: String, d: &[(usize, i64)]| {
            let mut cl = run.claims.clone();
            for (s, x) in d {
                cl[slots[*s].0][slots[*s].1] += fe::<F62>(*x);
            }
            r.steps(1);
            let o = check(&run, &run.comms, &cl, copy_mo(&run.proof), &run.words);
            r.exec((format!("{:?}", c.polys.iter().map(|p| &p.rots).collect::<Vec<_>>()), what.clone()), o.kind());
            r.check(o.rejected(), "false-claims", || format!("{} on {:?}: {:?}", what, c, o));
        };
        for a in 0..slots.len() {
            go(format!("claim {} +1", a), &[(a, 1)]);
            for b in a + 1..slots.len() {
                go(format!("claims {} +1 {} -1", a, b), &[(a, 1), (b, -1)]);
                go(format!("claims {} {} +1", a, b), &[(a, 1), (b, 1)]);
                if t {
                    for d in b + 1..slots.len() {
                        go(format!("claims {} +1 {} +1 {} -2", a, b, d), &[(a, 1), (b, 1), (d, -2)]);
                    }
                }
            }
        }
    });
    super::scale::openings(ctx);
    super::scale::every_x4(ctx);
    every_challenge(ctx);
    refused(ctx);
}

fn alterations(c: &Case, r: &mut Rec) {
    let run = match open::<F62>(c, &[], r) {
        Some(x) => x,
        None => return,
    };
    type A = (String, Vec<Comm<F62>>, Vec<Vec<F62>>, MoProof<F62, T62>);
    let mut alts: Vec<A> = vec![];
    let one = F62::one();
    {
        let mut add = |what: String, f: &dyn Fn(&mut Vec<Comm<F62>>, &mut Vec<Vec<F62>>, &mut MoProof<F62, T62>)| {
            let (mut a, mut b, mut p) = (run.comms.clone(), run.claims.clone(), copy_mo(&run.proof));
            f(&mut a, &mut b, &mut p);
            alts.push((what, a, b, p));
        };
        let slots: Vec<(usize, usize)> = run.claims.iter().enumerate().flat_map(|(i, v)| (0..v.len()).map(move |j| (i, j))).collect();
        for (k, &(i, j)) in slots.iter().enumerate() {
            for d in [1i64, -1] {
                add(format!("claim {}@{} {:+}", i, j, d), &|_, c, _| c[i][j] += fe::<F62>(d));
            }
            add(format!("claim {}@{} = 0", i, j), &|_, c, _| c[i][j] = F62::zero());
            for &(l, m) in &slots[k + 1..] {
                add(format!("claims {}@{} +1 {}@{} -1", i, j, l, m), &|_, c, _| {
                    c[i][j] += one;
                    c[l][m] -= one;
                });
                add(format!("claims {}@{} <-> {}@{}", i, j, l, m), &|_, c, _| {
                    let t = c[i][j];
                    c[i][j] = c[l][m];
                    c[l][m] = t;
                });
            }
        }
        for i in 0..run.comms.len() {
            for d in 0..c.n {
                add(format!("commitment {} + X^{}", i, d), &|k, _, _| {
                    let mut u = vec![F62::zero(); d + 1];
                    u[d] = one;
                    k[i].poly = vadd(&k[i].poly, &u)
                });
            }
            add(format!("blinding {} + 1", i), &|k, _, _| k[i].blind = vadd(&k[i].blind, &[one]));
            for j in i + 1..run.comms.len() {
                add(format!("commitments {} {} exchanged", i, j), &|k, _, _| k.swap(i, j));
            }
        }
        let q = run.proof.q_evals.len();
        for i in 0..q {
            for d in [1i64, -1] {
                add(format!("q {} {:+}", i, d), &|_, _, p| p.q_evals[i] += fe::<F62>(d));
            }
            add(format!("q {} dropped", i), &|_, _, p| {
                p.q_evals.remove(i);
            });
            add(format!("q {} repeated", i), &|_, _, p| {
                let x = p.q_evals[i];
                p.q_evals.insert(i, x)
            });
            for j in i + 1..q {
                add(format!("q {} <-> {}", i, j), &|_, _, p| p.q_evals.swap(i, j));
                add(format!("q {} +1, {} -1", i, j), &|_, _, p| {
                    p.q_evals[i] += one;
                    p.q_evals[j] -= one;
                });
            }
        }
        add("q and a zero".into(), &|_, _, p| p.q_evals.push(F62::zero()));
        add("no q".into(), &|_, _, p| p.q_evals.clear());
        for d in 0..c.n + 2 {
            let mut u = vec![F62::zero(); d + 1];
            u[d] = one;
            add(format!("f + X^{}", d), &|_, _, p| p.f_commit.poly = vadd(&p.f_commit.poly, &u));
            add(format!("w + X^{}", d), &|_, _, p| p.opening_proof.w = vadd(&p.opening_proof.w, &u));
            add(format!("wb + X^{}", d), &|_, _, p| p.opening_proof.wb = vadd(&p.opening_proof.wb, &u));
        }
        add("f blinding".into(), &|_, _, p| p.f_commit.blind = vadd(&p.f_commit.blind, &[one]));
        add("rv".into(), &|_, _, p| p.opening_proof.rv += one);
    }
    let same = |a: &A| a.1 == run.comms && a.2 == run.claims && a.3.q_evals == run.proof.q_evals && a.3.f_commit == run.proof.f_commit && a.3.opening_proof == run.proof.opening_proof;
    // exchanging the claims, commitments of equal polynomials is no alteration
    for a in alts {
        if same(&a) {
            continue;
        }
        let (what, cm, cl, p) = a;
        for pinned in [false, true] {
            r.steps(1);
            let o = check(&run, &cm, &cl, copy_mo(&p), if pinned { &run.words } else { &[] });
            r.exec((format!("{:?}", c), &what, pinned), Full { stage: "verify", out: o.clone() }.key());
            r.check(o.rejected(), "altered", || format!("{} of {:?} (pinned {}): {:?}", what, c, pinned, o));
        }
    }
}

/// All values of x1, x2, x3 in a field of 17 elements: acceptance of false claims coincides with
/// the vanishing of the error polynomial that the protocol's analysis predicts.
fn every_challenge(ctx: &mut Ctx) {
    type F = F17;
    let sets: Vec<Vec<Vec<i32>>> = vec![
        vec![vec![0]],
        vec![vec![0, 1]],
        vec![vec![0], vec![0]],
        vec![vec![0], vec![0, 1]],
        vec![vec![0, 1], vec![0, 1], vec![-1]],
        vec![vec![0, -1], vec![1], vec![0, -1], vec![2, 1]],
    ];
    let mut cases = vec![];
    for (k, s) in sets.iter().enumerate() {
        let slots: Vec<(usize, usize)> = s.iter().enumerate().flat_map(|(i, v)| (0..v.len()).map(move |j| (i, j))).collect();
        for a in 0..slots.len() {
            for d in [1i64, 5] {
                cases.push((k, vec![(slots[a], d)]));
            }
            for b in a + 1..slots.len() {
                cases.push((k, vec![(slots[a], 1), (slots[b], -1)]));
                cases.push((k, vec![(slots[a], 1), (slots[b], 1)]));
            }
        }
    }
    let t = ctx.thorough;
    ctx.sweep("every-challenge", "field of 17 elements: every x1, x2 and every x3 outside the opening points; false claims accepted exactly where the error polynomial vanishes", &cases, |(k, errs), r| {
        let n = 4;
        let case = Case { n, xi: 3, polys: sets[*k].iter().enumerate().map(|(i, rots)| Poly { coeffs: (0..4).map(|j| (3 * i + 5 * j + i * j + 1) as i64 % 17).collect(), rots: rots.clone(), fixed: i % 2 == 1 }).collect() };
        let word = |x: u64| raw_word(F::from(x));
        for x1 in 0..17u64 {
            for x2 in 0..17u64 {
                for x3 in 0..17u64 {
                    let pts: Vec<F> = (0..n as i32).map(|j| point(n, F::from(3u64), j)).collect();
                    if pts.contains(&F::from(x3)) {
                        continue;
                    }
                    let x4s: &[u64] = if t { &[0, 1, 2, 9, 16] } else { &[5] };
                    for x4 in x4s {
                        let script = [word(x1), word(x2), word(x3), word(*x4)];
                        let run = match open::<F>(&case, &script, r) {
                            Some(x) => x,
                            None => return r.fail("no-opening", format!("{:?}", case)),
                        };
                        let mut cl = run.claims.clone();
                        for ((i, j), d) in errs {
                            cl[*i][*j] += fe::<F>(*d);
                        }
                        r.steps(2);
                        let o = check(&run, &run.comms, &cl, copy_mo(&run.proof), &script);
                        let honest = check(&run, &run.comms, &run.claims, copy_mo(&run.proof), &script);
                        // the model: sum over the offset sets (in their order) of x2^set * interpolated error / vanishing
                        let mut groups: std::collections::BTreeMap<std::collections::BTreeSet<zero_over_k::oracles::rotation::Rotation>, Vec<usize>> = Default::default();
                        for (i, rs) in run.rots.iter().enumerate() {
                            groups.entry(rs.iter().map(|x| rotation(*x)).collect()).or_default().push(i);
                        }
                        let (x1f, x2f, x3f) = (F::from(x1), F::from(x2), F::from(x3));
                        let mut e = F::zero();
                        let mut p2 = F::one();
                        for members in groups.values() {
                            let rots = &run.rots[members[0]];
                            let ps: Vec<F> = rots.iter().map(|x| point(n, run.xi, *x)).collect();
                            let z = ps.iter().fold(F::one(), |a, p| a * (x3f - p));
                            for (a, pa) in ps.iter().enumerate() {
                                let mut l = F::one();
                                for (b, pb) in ps.iter().enumerate() {
                                    if a != b {
                                        l *= (x3f - pb) * (*pa - pb).inverse().unwrap();
                                    }
                                }
                                let mut p1 = F::one();
                                for m in members {
                                    // members of a set list their offsets in the same order
                                    e += p2 * p1 * (cl[*m][a] - run.claims[*m][a]) * l * z.inverse().unwrap();
                                    p1 *= x1f;
                                }
                            }
                            p2 *= x2f;
                        }
                        r.exec((k, format!("{:?}", errs), x1, x2, x3, x4), format!("{} predicted {}", o.kind(), if e.is_zero() { "accept" } else { "reject" }));
                        r.check(honest.accepted(), "incomplete", || format!("{:?} x1..x4 = {} {} {} {}: {:?}", case, x1, x2, x3, x4, honest));
                        r.check(o.accepted() == e.is_zero() && !o.panicked(), "soundness-error", || format!("{:?} with errors {:?}, x1..x4 = {} {} {} {}: {:?}, error term zero: {}", case, errs, x1, x2, x3, x4, o, e.is_zero()));
                    }
                }
            }
        }
    });
}

/// Offsets of one polynomial that denote the same point, missing claims, missing commitments.
fn refused(ctx: &mut Ctx) {
    let mut cases: Vec<(usize, Vec<i32>)> = vec![];
    for n in [2usize, 4, 8] {
        for a in -9i32..=9 {
            for b in a + 1..=9 {
                if (a - b).rem_euclid(n as i32) == 0 && rotation(a) != rotation(b) {
                    cases.push((n, vec![a, b]));
                }
            }
        }
    }
    ctx.sweep("repeated-offsets", "n in {2,4,8}, every pair of offsets within +-9 that denote one point: error from prover and verifier", &cases, |(n, rots), r| {
        let case = Case { n: *n, xi: 77, polys: vec![Poly { coeffs: coeffs(1, *n), rots: rots.clone(), fixed: false }, Poly { coeffs: coeffs(2, *n), rots: vec![0], fixed: false }] };
        let mut scratch = Rec::default();
        let p = open::<F62>(&case, &[], &mut scratch);
        r.steps(1);
        let key = scratch.outcomes.keys().next().cloned().unwrap_or_default();
        r.exec((n, rots), format!("{} {}", if p.is_some() { "proved" } else { "refused" }, key));
        r.check(p.is_none() && !key.contains("panic"), "repeated-offset", || format!("{:?}: {}", case, key));
        // verifier: take a proof for distinct offsets
        let other = Case { n: *n, xi: 77, polys: vec![Poly { coeffs: coeffs(1, *n), rots: vec![rots[0]], fixed: false }, Poly { coeffs: coeffs(2, *n), rots: vec![0], fixed: false }] };
        if let Some(mut run) = open::<F62>(&other, &[], &mut scratch) {
            run.rots[0] = rots.clone();
            let v = run.claims[0][0];
            run.claims[0] = vec![v, v];
            for q in [vec![], vec![F62::one()], vec![F62::one(); 2]] {
                let mut p = copy_mo(&run.proof);
                p.q_evals.extend(q);
                let o = check(&run, &run.comms, &run.claims, p, &[]);
                r.steps(1);
                r.exec((n, rots, 1), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "repeated-offset", || format!("verifier, {:?}: {:?}", case, o));
            }
        }
    });
}

/// The batching polynomial that a prover computes who believes that the verifier forgets something.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Belief {
    /// nothing is forgotten
    Nothing,
    /// the false claim's point is not a root of the vanishing polynomial of its set
    Root,
    /// the set with the false claim does not count
    Set,
    /// the false claim is not part of the interpolated values (a lower degree interpolation)
    Value,
}

/// Provers that batch around one false claim, for sets of up to 32 points and many sets.
fn forged(ctx: &mut Ctx) {
    let mut cases: Vec<(usize, Vec<Vec<i32>>)> = vec![];
    for n in [2usize, 4, 8, 16, 32] {
        for m in 1..=n as i32 {
            if n == 32 && !ctx.thorough && m % 4 > 1 {
                continue;
            }
            let up: Vec<i32> = (0..m).collect();
            let around: Vec<i32> = (0..m).map(|i| i - m / 2).collect();
            cases.push((n, vec![up.clone()]));
            cases.push((n, vec![around.clone(), up.clone()]));
            if n < 32 {
                cases.push((n, vec![up.clone(), vec![0], up.clone()]));
                // nested sets
                cases.push((n, (1..=m).map(|j| (0..j).collect()).collect()));
                cases.push((n, (0..m).map(|j| vec![j]).collect()));
            }
        }
    }
    ctx.sweep(
        "forged",
        "n=2..32; sets of 1..n points, alone, with a second one, twice and with a single point, nested, one point each; every claim false; a batching polynomial computed as if the claim's point, its value or its set did not count, and the honest one; every part of the opening consistent with it",
        &cases,
        |(n, sets), r| {
            let case = Case {
                n: *n,
                xi: 123457,
                polys: sets.iter().enumerate().map(|(i, s)| Poly { coeffs: coeffs(i as u64, *n), rots: s.clone(), fixed: i % 3 == 1 }).collect(),
            };
            let run = match open::<F62>(&case, &[], r) {
                Some(x) => x,
                None => return r.fail("no-opening", format!("{:?}", case)),
            };
            let ch = field_draws::<F62>(&run.words);
            if ch.len() < 4 {
                return r.fail("harness", format!("{} challenges", ch.len()));
            }
            let (x1, x2, x3) = (ch[0], ch[1], ch[2]);
            let mut groups: std::collections::BTreeMap<std::collections::BTreeSet<zero_over_k::oracles::rotation::Rotation>, Vec<usize>> = Default::default();
            for (i, rs) in run.rots.iter().enumerate() {
                groups.entry(rs.iter().map(|x| rotation(*x)).collect()).or_default().push(i);
            }
            let forge = |claims: &[Vec<F62>], lie: Option<(usize, usize)>, belief: Belief| -> MoProof<F62, T62> {
                let mut f: Vec<F62> = vec![];
                let mut q_evals = vec![];
                let mut p2 = F62::one();
                for members in groups.values() {
                    let pts: Vec<F62> = run.rots[members[0]].iter().map(|x| point(*n, run.xi, *x)).collect();
                    let mut q: Vec<F62> = vec![];
                    let mut values = vec![F62::zero(); pts.len()];
                    let mut p1 = F62::one();
                    for m in members {
                        q = vadd(&q, &vscale(&run.comms[*m].poly, p1));
                        for (a, v) in values.iter_mut().enumerate() {
                            // offsets may be listed in another order by other members
                            let at = run.rots[*m].iter().position(|x| point(*n, run.xi, *x) == pts[a]).unwrap();
                            *v += p1 * claims[*m][at];
                        }
                        p1 *= x1;
                    }
                    q_evals.push(veval(&q, x3));
                    let here = lie.filter(|l| members.contains(&l.0)).map(|l| {
                        let p = point(*n, run.xi, run.rots[l.0][l.1]);
                        pts.iter().position(|x| *x == p).unwrap()
                    });
                    if !(here.is_some() && belief == Belief::Set) {
                        // Newton interpolation of the claims that count, then division point by point
                        let used: Vec<usize> = (0..pts.len()).filter(|a| !(belief == Belief::Value && here == Some(*a))).collect();
                        let mut rest = q.clone();
                        let mut basis = vec![F62::one()];
                        let mut rp: Vec<F62> = vec![];
                        for a in &used {
                            let c = (values[*a] - veval(&rp, pts[*a])) * veval(&basis, pts[*a]).inverse().unwrap();
                            rp = vadd(&rp, &vscale(&basis, c));
                            let mut shifted = vec![F62::zero()];
                            shifted.extend(basis.iter().copied());
                            basis = vadd(&shifted, &vscale(&basis, -pts[*a]));
                        }
                        rest = vadd(&rest, &vscale(&rp, -F62::one()));
                        for a in used {
                            if !(belief == Belief::Root && here == Some(a)) {
                                rest = vquot(&rest, pts[a]);
                            }
                        }
                        f = vadd(&f, &vscale(&rest, p2));
                    }
                    p2 *= x2;
                }
                let mut proof = copy_mo(&run.proof);
                proof.q_evals = q_evals;
                proof.f_commit = Comm { poly: f, blind: vec![] };
                // the opening of whatever the verifier combines
                take_checked::<F62>();
                let _ = check(&run, &run.comms, claims, copy_mo(&proof), &run.words);
                if let Some(o) = take_checked::<F62>() {
                    proof.opening_proof = o.opening();
                }
                proof
            };
            let o = check(&run, &run.comms, &run.claims, forge(&run.claims, None, Belief::Nothing), &run.words);
            r.steps(2);
            r.exec((n, sets, "own honest"), format!("true claims: {}", o.kind()));
            for i in 0..run.claims.len() {
                for j in 0..run.claims[i].len() {
                    for belief in [Belief::Nothing, Belief::Root, Belief::Set, Belief::Value] {
                        for d in [1i64, -2] {
                            let mut cl = run.claims.clone();
                            cl[i][j] += fe::<F62>(d);
                            let p = forge(if belief == Belief::Nothing { &run.claims } else { &cl }, Some((i, j)), belief);
                            let mut p = p;
                            take_checked::<F62>();
                            let o = check(&run, &run.comms, &cl, copy_mo(&p), &run.words);
                            if let Some(c) = take_checked::<F62>() {
                                p.opening_proof = c.opening();
                            }
                            let o2 = check(&run, &run.comms, &cl, p, &run.words);
                            r.steps(3);
                            r.exec((n, sets, i, j, format!("{:?}", belief), d), o2.kind());
                            r.check(o.rejected() && o2.rejected(), "false-claims", || format!("claim {} of polynomial {} of {:?} false, batched as if its {:?} did not count: {:?} {:?}", j, i, case, belief, o, o2));
                        }
                    }
                }
            }
        },
    );
    ctx.require("forged", |s| s.outcomes.get("true claims: accept").copied().unwrap_or(0) as usize == s.total, "the batching polynomial of the harness is not that of the code");
}
