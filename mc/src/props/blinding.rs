//! P20: everything witness-dependent in a proof is freshly blinded.
use super::common::*;
use crate::systems::*;
use std::collections::{BTreeMap, BTreeSet};
use zero_over_k::commitment::KZG10;

/// Where a blinding value sits.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Place {
    /// coefficient of the blinding polynomial of a commitment: list, element, coefficient
    Blind(usize, usize, usize),
    /// value of an auxiliary column on an unusable row: list, element, row
    Row(usize, usize, usize),
}
fn at<F: PrimeField>(p: &[F], x: F) -> F {
    p.iter().rev().fold(F::zero(), |acc, c| acc * x + *c)
}
/// The values that are supposed to be blinding values.
fn places<F: PrimeField>(s: &Sys<F, ToyPC<F>>, p: &mut TPProof<F, ToyPC<F>>) -> BTreeMap<Place, F> {
    let mut out = BTreeMap::new();
    let (n, u) = (s.c.n, s.c.u);
    for l in 0..COMMS.len() {
        for (i, c) in comms(p, l).iter().enumerate() {
            // hiding for one opening needs two coefficients
            for j in 0..c.blind.len().max(2) {
                out.insert(Place::Blind(l, i, j), c.blind.get(j).copied().unwrap_or_else(F::zero));
            }
            let first = match l {
                1 => u,
                2 | 3 => u + 1,
                _ => n,
            };
            for row in first..n {
                out.insert(Place::Row(l, i, row), at(&c.poly, s.domain.element(row)));
            }
        }
    }
    out
}
/// A generator all of whose words decode to a field element, so that the n-th value drawn is the n-th word.
fn steady<P: ark_ff::Fp64Parameters>(seed: u64) -> ZkRng {
    let mut g = ZkRng::new(seed);
    for i in 0..6000usize {
        g.overrides.insert(i, raw_word(ark_ff::Fp64::<P>::from(hash(&(seed, i, "zk")))));
    }
    g
}

/// Columns with equal contents, copies and lookups of every number of usable rows.
#[derive(Clone, Debug, Hash)]
struct Shape {
    n: usize,
    u: usize,
    deg: usize,
    ncopy: usize,
    nlook: usize,
    arity: usize,
    zero: bool,
    reduced: bool,
}
fn build(s: &Shape) -> (Circuit, Asg) {
    let n = s.n;
    let mut c = Circuit::new(n, 0, 0);
    c.u = s.u;
    let free = s.ncopy.max(2);
    c.nw = free + 1;
    if s.reduced {
        c.removed = (s.u + 1..n).collect();
    }
    let v: Vec<i64> = (0..n).map(|r| if s.zero { 0 } else { filler(7, r) % 30 + 1 }).collect();
    let a = Asg {
        w: (0..=free)
            .map(|k| if k < free { v.clone() } else { v.iter().map(|x| x.pow(s.deg as u32)).collect() })
            .collect(),
        inst: vec![],
    };
    c.gates = vec![(1..s.deg).fold(w(0), |e, i| e * w(i % free)) - w(free)];
    if s.ncopy > 0 {
        c.perm = Some(Perm::identity((0..s.ncopy).collect(), s.u));
    }
    for _ in 0..s.nlook {
        let k = c.tables.len();
        c.lookups.push(Lookup {
            exprs: (0..s.arity).map(|i| w(i % free)).collect(),
            tables: (0..s.arity).map(|i| (k + i, 0)).collect(),
        });
        for _ in 0..s.arity {
            c.tables.push(v.clone());
        }
    }
    (c, a)
}
type F62P = crate::fields::F62Params;

/// Every draw of one proof is varied; returns the places that follow each draw.
fn vary<P: ark_ff::Fp64Parameters>(name: &str, c: &Circuit, a: &Asg, script: &[u64], values: &[u64], r: &mut Rec) {
    type FF<P> = ark_ff::Fp64<P>;
    let s = match Sys::<FF<P>, ToyPC<FF<P>>>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.exec((name, c), format!("index {}", o.kind())) };
    let prove = |g: &mut ZkRng| {
        start(script.to_vec());
        let p = s.prove::<TapeFS, _>(&keys, a, g);
        finish();
        p
    };
    let mut g = steady::<P>(5);
    let mut p = match prove(&mut g) {
        Ok(p) => p,
        Err(o) if script.is_empty() => return r.fail("prove", format!("{:?}", o)),
        Err(_) => return r.exec((name, c), "unlucky challenges"),
    };
    let base = places(&s, &mut p);
    let base_comms: Vec<_> = (0..COMMS.len()).flat_map(|l| comms(&mut p, l).to_vec()).collect();
    let draws = g.drawn.len();
    let mut followed: BTreeMap<Place, BTreeSet<usize>> = BTreeMap::new();
    let mut images: BTreeMap<(Place, usize), BTreeSet<FF<P>>> = BTreeMap::new();
    let mut lucky = values.len() * draws;
    for i in 0..draws {
        let mut moved: BTreeSet<Place> = BTreeSet::new();
        for v in values {
            let mut g = steady::<P>(5);
            g.overrides.insert(i, raw_word(FF::<P>::from(*v)));
            r.steps(1);
            let mut q = match prove(&mut g) {
                Ok(q) => q,
                Err(o) if script.is_empty() => return r.fail("prove", format!("draw {}: {:?}", i, o)),
                Err(_) => { lucky -= 1; continue; }
            };
            let now = places(&s, &mut q);
            if now.len() != base.len() {
                r.fail("shape-depends-on-randomness", format!("{}: draw {}", name, i));
                return;
            }
            for (k, x) in &now {
                if base.get(k) != Some(x) {
                    moved.insert(*k);
                }
                images.entry((*k, i)).or_default().insert(*x);
            }
        }
        r.check(moved.len() <= 1, "random-value-used-twice", || format!("{}: draw {} moves {:?}", name, i, moved));
        for k in moved {
            followed.entry(k).or_default().insert(i);
        }
        r.exec((name, c, i), "draw varied");
    }
    for k in base.keys() {
        let from = followed.get(k).cloned().unwrap_or_default();
        match from.len() {
            0 => r.fail("not-blinded", format!("{}: {:?} ({:?}) follows no random value", name, k, base[k])),
            1 => {
                let i = *from.iter().next().unwrap();
                let im = &images[&(*k, i)];
                if lucky == values.len() * draws {
                    r.check(im.len() == values.len(), "not-uniform", || format!("{}: {:?} takes {} values for {} draws", name, k, im.len(), values.len()));
                }
            }
            _ => r.fail("mixed", format!("{}: {:?} follows draws {:?}", name, k, from)),
        }
    }
    for i in 0..base_comms.len() {
        for j in 0..i {
            r.check(base_comms[i] != base_comms[j], "equal-commitments", || format!("{}: commitments {} and {}", name, i, j));
        }
    }
    r.exec((name, c), if lucky == values.len() * draws { "all blinded" } else { "all blinded (some unlucky challenges)" });
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut cases: Vec<(String, Circuit, Asg)> = vec![];
    for s in crate::systems::catalogue_many() {
        for (i, a) in s.asgs.iter().enumerate() {
            cases.push((format!("{}/{}", s.name, i), s.c.clone(), a.clone()));
        }
    }
    ctx.sweep(
        "catalogue",
        "12 systems x 2 assignments: every single draw of the prover's generator replaced by two other values; each blinding coefficient and unusable row must follow exactly one draw, each draw at most one of them",
        &cases,
        |(name, c, a), r| vary::<F62P>(name, c, a, &[], &[1234567, 89], r),
    );
    let mut shapes = vec![];
    for n in if t { vec![2usize, 4, 8, 16] } else { vec![2, 4, 8] } {
        for u in 1..n {
            for deg in [2usize, 3, 5] {
                for ncopy in 0..=(if t { 7 } else { 4 }) {
                    for nlook in 0..=2 {
                        for arity in 1..=(if nlook > 0 { 2 } else { 1 }) {
                            for zero in [true, false] {
                                for reduced in [false, true] {
                                    if reduced && u == n - 1 || n == 16 && (deg == 3 || arity == 2) { continue; }
                                    shapes.push(Shape { n, u, deg, ncopy, nlook, arity, zero, reduced });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.sweep(
        "shapes",
        "n in {2,4,8} (thorough 16), every number of usable rows, gate degrees 2,3,5, 0..4 (thorough 7) copied columns, 0..2 lookups of 1 or 2 columns, equal columns that are all zero or not, full and reduced vanishing set; as above",
        &shapes,
        |s, r| {
            let (c, a) = build(s);
            vary::<F62P>("shape", &c, &a, &[], &[1234567, 89], r)
        },
    );
    ctx.require("shapes", |s| s.outcomes.get("all blinded").copied().unwrap_or(0) > 300, "shapes that prove");

    // many unusable rows, running products and lookups
    let mut large = vec![];
    for n in if t { vec![16usize, 32, 64, 128] } else { vec![16, 32, 64] } {
        for u in [1, n / 4, n - 10, n - 2] {
            for (ncopy, nlook, arity) in [(0, 0, 1), (1, 0, 1), (0, 1, 1), (2, 1, 2), (9, 0, 1), (0, 9, 1), (12, 2, 3), (17, 1, 1)] {
                if n == 64 && !t && (ncopy > 2 || nlook > 1) || n == 128 && ncopy + nlook > 3 { continue; }
                for reduced in [false, true] {
                    large.push(Shape { n, u, deg: 2, ncopy, nlook, arity, zero: n == 16, reduced });
                }
            }
        }
    }
    ctx.sweep(
        "large-shapes",
        "n in {16,32,64} (thorough 128), 1, n/4, n-10 and n-2 usable rows, up to 17 copied columns and 9 lookups; as above",
        &large,
        |s, r| {
            let (c, a) = build(s);
            vary::<F62P>("shape", &c, &a, &[], &[1234567, 89], r)
        },
    );
    ctx.require("large-shapes", |s| s.outcomes.get("all blinded").copied().unwrap_or(0) > 50, "large shapes that prove");

    // over a small field, every value of every draw
    let small: Vec<Shape> = shapes.iter().filter(|s| s.n == 4 && s.deg < 4 && s.ncopy < 4 && (t || !s.reduced && s.arity == 1)).cloned().collect();
    ctx.sweep(
        "small-field",
        "n=4 over the field with 97 elements, transcript scripted: every draw takes all 97 values, each blinding value takes each of them once",
        &small,
        |s, r| {
            let (c, a) = build(s);
            for k in 0..(if t { 4u64 } else { 1 }) {
                let script: Vec<u64> = (0..9u64).map(|i| raw_word(F97::from(hash(&(k, i, "ch")) % 96 + 1))).collect();
                vary::<crate::fields::F97Params>("small", &c, &a, &script, &(0..97).collect::<Vec<_>>(), r)
            }
        },
    );
    ctx.require("small-field", |s| s.outcomes.get("all blinded").copied().unwrap_or(0) > 10, "small-field proofs with every value");

    // independent generators: no commitment in common
    ctx.sweep(
        "two-proofs",
        "catalogue: 6 generators (thorough 12), all pairs of proofs of one statement share no witness-dependent commitment and no opening",
        &cases,
        |(name, c, a), r| {
            let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
            let mut seen = BTreeMap::new();
            for seed in 0..(if t { 12u64 } else { 6 }) {
                let mut p = match honest(&s, &keys, a, seed) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
                r.steps(1);
                for (l, i) in comm_slots(&mut p) {
                    let b = ark_ff::to_bytes![comms(&mut p, l)[i]].unwrap();
                    if let Some(o) = seen.insert(b, (seed, l, i)) {
                        r.fail("shared-commitment", format!("{}: {:?} and {:?}", name, o, (seed, l, i)));
                    }
                }
                let q = s.prove::<TapeFS, _>(&keys, a, &mut ZkRng::new(seed));
                r.check(q.map(|q| bytes(&q)).ok() == Some(bytes(&p)), "not-from-the-generator", || format!("{}: same generator, different proof", name));
                r.exec((name, seed), "fresh");
            }
        },
    );
    type K = KZG10<ark_bls12_381::Bls12_381>;
    type Fr = ark_bls12_381::Fr;
    let shapes: Vec<Shape> = shapes.into_iter().filter(|s| s.n == 4 && s.zero && s.ncopy < 3 && !s.reduced && (t || s.deg == 3 && s.u == 2)).collect();
    let mut cases: Vec<_> = cases.into_iter().filter(|(n, ..)| t || n.ends_with("/0")).collect();
    for s in &shapes {
        let (c, a) = build(s);
        cases.push((format!("{:?}", s), c, a));
    }
    ctx.sweep(
        "two-proofs-kzg",
        "catalogue and all-zero shapes with KZG10 over BLS12-381: 2 generators, no commitment in common within or between the proofs; none is the commitment of the unblinded column",
        &cases,
        |(name, c, a), r| {
            let s = match Sys::<Fr, K>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            let keys = match s.keys() { Ok(k) => k, Err(o) => return r.exec(c, format!("index {}", o.kind())) };
            let mut seen = BTreeMap::new();
            let (wo, _) = s.prover_oracles(a);
            for o in &wo {
                use ark_poly_commit::PolynomialCommitment;
                use zero_over_k::oracles::traits::Instantiable;
                let lp = ark_poly_commit::LabeledPolynomial::new("x".into(), o.polynomial().clone(), None, None);
                let (cs, _) = <K as PolynomialCommitment<Fr, DensePolynomial<Fr>>>::commit(&s.ck, std::iter::once(&lp), None).unwrap();
                seen.insert(ark_ff::to_bytes![cs[0].commitment()].unwrap(), (99, 0, 0));
            }
            for seed in 0..2u64 {
                let mut p = match s.prove::<RealFS, _>(&keys, a, &mut ZkRng::new(seed)) { Ok(p) => p, Err(e) => return r.fail("prove", format!("{:?}", e)) };
                r.steps(1);
                for (l, i) in comm_slots(&mut p) {
                    let b = ark_ff::to_bytes![comms(&mut p, l)[i]].unwrap();
                    if let Some(o) = seen.insert(b, (seed, l, i)) {
                        r.fail("shared-commitment", format!("{}: {:?} and {:?}", name, o, (seed, l, i)));
                    }
                }
                let out = s.verify::<RealFS>(&keys, &a.inst, p);
                r.check(out.accepted(), "kzg-not-accepted", || format!("{}: {:?}", name, out));
                r.exec((name, seed), "fresh");
            }
        },
    );
}
