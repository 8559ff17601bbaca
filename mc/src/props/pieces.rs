//! P12, P13, P14: key preparation, views of a column, column matching of a lookup.
use super::common::*;
use ark_poly::GeneralEvaluationDomain;
use std::collections::BTreeSet;
use zero_over_k::data_structures::VerifierKey;
use zero_over_k::indexer::Indexer;
use zero_over_k::lookup::permute::permute_for_lookup;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{
    ConcreteOracle, FixedOracle, InstanceOracle, Instantiable, QuerySetProvider, WitnessOracle,
};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::vo::LookupVirtualOracle;

type Bls = ark_bls12_381::Fr;

// ---------------------------------------------------------------- P12

/// One constraint system of the sizing family.
#[derive(Clone, Debug)]
struct Size {
    n: usize,
    /// degree of the gate, and which columns its factors come from
    deg: usize,
    kind: usize,
    ncopy: usize,
    /// degrees of the inputs of the lookups (none: no lookup)
    lookups: Vec<usize>,
    removed: usize,
    /// the gate has a second gate of lower degree after (1) or before (2) it
    second: usize,
}
impl Size {
    fn circuit(&self) -> Option<(Circuit, Asg)> {
        let n = self.n;
        let mut c = Circuit::new(n, 0, 1);
        c.removed = (n - self.removed..n).collect();
        c.u = if self.removed > 0 { (n - self.removed).checked_sub(1)? } else { n - 1 };
        let free = self.ncopy.max(2);
        c.nw = free + 1;
        let val = |k: usize, r: usize| filler(k as u64, r) % 9 + 1;
        let mut a = Asg {
            w: (0..c.nw).map(|k| (0..n).map(|r| val(k, r)).collect()).collect(),
            inst: vec![(0..n).map(|r| val(50, r)).collect()],
        };
        c.fixed = vec![(0..n).map(|r| val(60, r)).collect()];
        let factor = |i: usize| match (self.kind, i % 3) {
            (0, _) => w(i % free),
            (1, 1) => x(0),
            (1, 2) => pi(0),
            (2, 0) => x(0),
            (2, 1) if n > 2 => wr(i % free, 1),
            (2, _) if n > 2 => wr(i % free, -1),
            (_, _) => w(i % free),
        };
        let product = |d: usize| (1..d).fold(factor(0), |e, i| e * factor(i));
        // the sum of the product and the bound column: degree of the product, unless it is below one
        let gate = if self.deg == 0 { c_zero() } else { product(self.deg) - w(free) };
        for r in 0..n {
            let mut acc = 1i64;
            for i in 0..self.deg {
                let f: F62 = eval(&factor(i), &c, &a, r);
                acc *= f.into_repr_u64() as i64;
            }
            if self.deg > 0 {
                a.w[free][r] = acc;
            }
        }
        let low = w(0) - w(0);
        c.gates = match self.second {
            0 => vec![gate],
            1 => vec![gate, low],
            _ => vec![low, gate],
        };
        if self.ncopy > 0 {
            c.perm = Some(Perm::identity((0..self.ncopy).collect(), c.u));
        }
        for d in &self.lookups {
            let e = (1..*d).fold(w(1), |e, i| e * w(i % free));
            let t: Vec<i64> = (0..n)
                .map(|r| { let f: F62 = eval(&e, &c, &a, r); f.into_repr_u64() as i64 })
                .collect();
            c.tables.push(t);
            c.lookups.push(Lookup { exprs: vec![e], tables: vec![(c.tables.len() - 1, 0)] });
        }
        Some((c, a))
    }
}
fn c_zero() -> E {
    c(0)
}
trait ReprU64 {
    fn into_repr_u64(&self) -> u64;
}
impl ReprU64 for F62 {
    fn into_repr_u64(&self) -> u64 {
        use ark_ff::PrimeField;
        self.into_repr().0[0]
    }
}

fn index_with<'a, F: PrimeField, PC: HomomorphicCommitment<F>>(
    s: &'a Sys<F, PC>,
    w: &[impl WitnessOracle<F>],
    i: &[impl InstanceOracle<F>],
    x: &[impl FixedOracle<F>],
) -> Result<VerifierKey<'a, F, PC>, String> {
    match guarded(|| {
        Indexer::<F, PC>::index(
            &s.pcvk,
            &s.gate_refs(),
            s.lookups.iter().map(|l| l as &dyn LookupVirtualOracle<F>).collect(),
            w,
            i,
            x,
            s.domain,
            &s.zh,
            s.perm_info(),
            s.c.u,
        )
    }) {
        Err(p) => Err(format!("panic {}", p)),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Ok(Ok(k)) => Ok(k),
    }
}
/// Columns per running product, from the outside.
fn columns_per_product<F: PrimeField, PC: HomomorphicCommitment<F>>(k: &VerifierKey<F, PC>) -> usize {
    let p = &k.index_info.permutation_argument;
    (1..=300).take_while(|m| p.number_of_z_polys(*m) == 1).last().unwrap_or(0)
}
fn horner<F: PrimeField>(p: &DensePolynomial<F>, at: F) -> F {
    p.coeffs.iter().rev().fold(F::zero(), |acc, c| acc * at + *c)
}
/// Everything that has to hold of the keys of `sys`.
fn key_invariants<F: PrimeField, PC: HomomorphicCommitment<F>>(
    s: &Sys<F, PC>,
    k: &VerifierKey<F, PC>,
    r: &mut Rec,
) {
    let c = &s.c;
    let big = k.index_info.extended_coset_domain;
    let n = c.n;
    let roots = s.zh.coeffs.len() - 1;
    r.check(big.size() % n == 0 && big.size().is_power_of_two(), "domain-shape", || format!("{}", big.size()));
    // degrees of the numerators, columns have degree n - 1
    let mut need = c.gates.iter().map(|g| (n - 1) * g.deg()).max().unwrap_or(0);
    if let Some(p) = &c.perm {
        let per = columns_per_product(k);
        r.check(per >= 1, "no-columns-per-product", || format!("{:?}", c));
        need = need.max((n - 1) * (2 + per.min(p.cols.len())));
        let zs = k.index_info.permutation_argument.number_of_z_polys(p.cols.len());
        r.check(zs == (p.cols.len() + per - 1) / per, "product-count", || format!("{} products for {} columns", zs, p.cols.len()));
    }
    for l in &c.lookups {
        let d = l.exprs.iter().map(|e| e.deg()).max().unwrap_or(0);
        need = need.max((n - 1) * (3 + d));
    }
    // dividing by the vanishing polynomial leaves need - roots + 1 coefficients
    let coeffs = (need + 1).saturating_sub(roots);
    r.check(big.size() >= coeffs, "too-small", || {
        format!("quotient of {} coefficients does not fit {} ({:?})", coeffs, big.size(), c)
    });
    r.check(k.index_info.usable_rows == c.u, "usable-rows", || format!("{}", k.index_info.usable_rows));
    r.check(k.index_info.lookups.len() == c.lookups.len(), "lookups-lost", || format!("{:?}", c));
    let inv = &k.zh_inverses_over_coset;
    r.check(inv.len() == big.size(), "inverse-count", || format!("{} of {}", inv.len(), big.size()));
    let omega = big.element(1);
    let mut at = F::multiplicative_generator();
    for (i, v) in inv.iter().enumerate() {
        let zh = horner(&s.zh, at);
        r.check(zh * v == F::one(), "inverse-value", || format!("point {} of {} for {:?}", i, inv.len(), c));
        at *= omega;
    }
    r.steps(inv.len());
}

pub fn keys(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ns: &[usize] = if t { &[2, 4, 8, 16, 32, 64, 128] } else { &[2, 4, 8, 32, 64] };
    let mut cases = vec![];
    for &n in ns {
        for deg in 0..=(if t { 10 } else { 7 }) {
            for kind in 0..3 {
                for ncopy in 0..=(if t { 8 } else { 5 }) {
                    for lk in 0..(if t { 7 } else { 5 }) {
                        for removed in 0..n {
                            if removed > 4 && removed != n - 1 && (!t || n > if ctx.deeper { 32 } else { 16 }) { continue; }
                            if n > 32 && !(ctx.deeper && n == 64) && (kind > 0 || deg > 6 || ncopy > 5) { continue; }
                            for second in 0..3 {
                                if second > 0 && (kind > 0 || lk > 1) { continue; }
                                let lookups = match lk {
                                    0 => vec![],
                                    5 => vec![1, 3],
                                    6 => vec![4, 1],
                                    d => vec![d],
                                };
                                cases.push(Size { n, deg, kind, ncopy, lookups, removed, second });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.sweep(
        "sizes",
        "all combinations of domain size, gate degree and factor kinds, number of copied columns, lookup input degrees, number of removed rows, second gate; keys checked against the degree arithmetic, then a full proof with generic columns",
        &cases,
        |s, r| {
            let (c, a) = match s.circuit() { Some(x) => x, None => return r.exec("n/a", "not applicable") };
            let sys = match Sys::<F62, T62>::new(&c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            r.steps(1);
            match sys.index() {
                Err(o) => {
                    r.exec(&c, format!("index {}", o.kind()));
                    r.check(o.rejected() && may_refuse(&c), "refused", || format!("{:?} for {:?}", o, s));
                }
                Ok(k) => {
                    r.check(!may_refuse_strict(&c), "accepted-too-small", || format!("{:?}", s));
                    key_invariants(&sys, &k, r);
                    let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
                    let mut usable = c.u >= 1;
                    // a removed last row leaves the products of copies and lookups unconstrained, fine
                    if c.perm.is_some() || !c.lookups.is_empty() { usable &= c.u + 1 <= c.n; }
                    if !usable { return r.exec(&c, "keys only"); }
                    if !sat::<F62>(&c, &a).all() { return r.exec(&c, "keys only (filler does not satisfy)"); }
                    let mut rng = ZkRng::new(3);
                    let out = match sys.prove::<TapeFS, _>(&keys, &a, &mut rng) {
                        Err(out) => Full { stage: "prove", out },
                        Ok(p) => Full { stage: "verify", out: sys.verify::<TapeFS>(&keys, &a.inst, p) },
                    };
                    r.steps(2);
                    r.exec(&c, out.key());
                    r.check(out.accepted(), "generic-assignment-fails", || format!("{:?} for {:?}", out, s));
                    // the same rows described by a multiple of the polynomial
                    let mut sys = match Sys::<F62, T62>::new(&c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
                    sys.zh = DensePolynomial::from_coefficients_vec(sys.zh.coeffs.iter().map(|x| *x * fe::<F62>(3)).collect());
                    let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.fail("keys-multiple", format!("{:?}", o)) };
                    key_invariants(&sys, &keys.pk.vk, r);
                    let mut rng = ZkRng::new(3);
                    let out = match sys.prove::<TapeFS, _>(&keys, &a, &mut rng) {
                        Err(out) => Full { stage: "prove", out },
                        Ok(p) => Full { stage: "verify", out: sys.verify::<TapeFS>(&keys, &a.inst, p) },
                    };
                    r.steps(2);
                    r.exec((&c, 3), out.key());
                    r.check(out.accepted(), "multiple-fails", || format!("{:?} for {:?}", out, s));
                }
            }
        },
    );
    ctx.require("sizes", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 500, "full proofs");
    ctx.require("sizes", |s| s.outcomes.keys().any(|k| k == "index reject"), "refusals");

    // several lookups of several inputs, high degrees, many columns
    let mut cases: Vec<(usize, usize, usize, usize, Vec<Vec<usize>>)> = vec![];
    let degs = [1usize, 2, 3, 5];
    let tuples: Vec<Vec<usize>> = {
        let mut v: Vec<Vec<usize>> = vec![];
        for &a in &degs {
            v.push(vec![a]);
            for &b in &degs {
                v.push(vec![a, b]);
                for &c in &degs {
                    v.push(vec![a, b, c]);
                }
            }
        }
        v
    };
    for n in [4usize, 16] {
        for deg in [1usize, 2, 4, 6] {
            for removed in [0, 1, n - 2] {
                for ncopy in [0usize, 2] {
                    for a in &tuples {
                        cases.push((n, deg, removed, ncopy, vec![a.clone()]));
                        for b in &tuples {
                            if a.len() + b.len() <= if t { 6 } else { 3 } {
                                cases.push((n, deg, removed, ncopy, vec![a.clone(), b.clone()]));
                                for &c in &degs {
                                    if a.len() + b.len() < 3 {
                                        cases.push((n, deg, removed, ncopy, vec![a.clone(), b.clone(), vec![c]]));
                                    }
                                }
                            }
                        }
                    }
                    // one place among many
                    for len in [9usize, 17] {
                        for at in 0..len {
                            let mut list = vec![vec![1]; len];
                            list[at] = vec![6];
                            cases.push((n, deg, removed, ncopy, list));
                            let mut tuple = vec![1; len];
                            tuple[at] = 6;
                            cases.push((n, deg, removed, ncopy, vec![tuple]));
                        }
                    }
                }
            }
        }
    }
    for n in [2usize, 4, 8, 16, 32, 64, 128] {
        for deg in (11..=34).chain([63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258]) {
            if n * deg > 4200 {
                continue;
            }
            for removed in [0, 1, n / 2, n - 1] {
                for ncopy in [0usize, 3, 40] {
                    cases.push((n, deg, removed, ncopy, vec![]));
                    cases.push((n, 2, removed, ncopy, vec![vec![deg]]));
                }
            }
        }
        for ncopy in (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
            for deg in [1usize, 2, 5] {
                for removed in 0..n {
                    if removed < 3 || removed + 3 > n || (removed + 1).is_power_of_two() || removed.is_power_of_two() || (n - removed).is_power_of_two() {
                        cases.push((n, deg, removed, ncopy, vec![]));
                    }
                }
            }
        }
    }
    ctx.sweep(
        "mixtures",
        "n=4,16: one or two lookups of one to three inputs of degrees 1,2,3,5, one high degree among 9 and 17 lookups or inputs; n=2..128: degrees to 258 of gates and lookups, up to 257 copied columns, numbers of removed rows near powers of two; keys checked against the degree arithmetic",
        &cases,
        |(n, deg, removed, ncopy, lookups), r| {
            let n = *n;
            let mut c = Circuit::new(n, 3.max(*ncopy), 0);
            c.removed = (n - removed..n).collect();
            c.u = n - (*removed).max(1);
            let power = |d: usize| (1..d).fold(w(0), |e, i| e * w(i % 3));
            c.gates = vec![power(*deg)];
            if *ncopy > 0 { c.perm = Some(Perm::identity((0..*ncopy).collect(), c.u)); }
            c.tables = (0..lookups.iter().map(|l| l.len()).max().unwrap_or(0)).map(|k| crate::systems::col(1, k, n)).collect();
            c.lookups = lookups.iter().map(|l| Lookup { exprs: l.iter().map(|d| power(*d)).collect(), tables: (0..l.len()).map(|k| (k, 0)).collect() }).collect();
            let sys = match Sys::<F62, T62>::new(&c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            r.steps(1);
            let k = match sys.index() {
                Err(o) => {
                    r.exec(&c, format!("index {}", o.kind()));
                    return r.check(o.rejected() && may_refuse(&c), "refused", || format!("{:?} for {:?}", o, c));
                }
                Ok(k) => k,
            };
            r.check(!may_refuse_strict(&c), "accepted-too-small", || format!("{:?}", c));
            key_invariants(&sys, &k, r);
            r.exec(&c, "keys");
        },
    );
    ctx.require("mixtures", |s| s.outcomes.get("keys").copied().unwrap_or(0) > 5000, "keys for mixtures");

    // every set of removed rows
    let mut cases = vec![];
    for n in [2usize, 4, 8] {
        for mask in 0..(1u32 << n) - 1 {
            for deg in 1..=(if n == 8 && !t { 3 } else { 5 }) {
                for ncopy in [0usize, 1, 3] {
                    cases.push((n, mask, deg, ncopy));
                }
            }
        }
    }
    ctx.sweep(
        "removed-rows",
        "n in {2,4,8}, every proper subset of rows removed, gate degrees 1..5, copied columns; inverses at every point of the extended coset over a 62-bit field and a field with 193 elements",
        &cases,
        |&(n, mask, deg, ncopy), r| {
            let mut c = Circuit::new(n, 3, 0);
            c.removed = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            c.gates = vec![(1..deg).fold(w(0), |e, i| e * w(i % 3))];
            c.u = n - 1;
            if ncopy > 0 { c.perm = Some(Perm::identity((0..ncopy).collect(), c.u)); }
            removed_rows_in::<F62>(&c, r);
            // largest subgroup of the small field has 64 elements
            if n * deg.next_power_of_two().max((n - c.removed.len()).min(8)) <= 64 && n < 8 {
                removed_rows_in::<F193>(&c, r);
            }
        },
    );
    ctx.require("removed-rows", |s| s.outcomes.get("keys").copied().unwrap_or(0) > 1000, "keys for reduced sets");

    let mut cases = vec![];
    for n in if t { vec![16usize, 32, 64, 128, 256, 512] } else { vec![16, 32, 64, 128] } {
        let mut sets: Vec<Vec<usize>> = vec![vec![]];
        for k in [1, 2, 3, n / 4, n / 2, n - 2, n - 1] {
            sets.push((n - k..n).collect());
            sets.push((0..k).collect());
        }
        for k in [0, 1, n / 2, n - 1] {
            sets.push(vec![k]);
        }
        for step in [2, 3, 4, 8] {
            sets.push((0..n).step_by(step).collect());
            sets.push((1..n).step_by(step).collect());
        }
        for set in sets {
            for deg in [1usize, 2, 3, 4, 5, 8, 9, 16] {
                for ncopy in [0usize, 2] {
                    cases.push((n, set.clone(), deg, ncopy));
                }
            }
        }
    }
    ctx.sweep(
        "removed-rows-large",
        "n = 16..128 (thorough 512): first, last, single, every 2nd, 3rd, 4th, 8th rows removed; gate degrees 1..16; inverses at every point of the extended coset",
        &cases,
        |(n, removed, deg, ncopy), r| {
            let mut c = Circuit::new(*n, 3, 0);
            c.removed = removed.clone();
            c.gates = vec![(1..*deg).fold(w(0), |e, i| e * w(i % 3))];
            c.u = n - 1;
            if *ncopy > 0 { c.perm = Some(Perm::identity((0..*ncopy).collect(), c.u)); }
            removed_rows_in::<F62>(&c, r);
        },
    );
    ctx.require("removed-rows-large", |s| s.outcomes.get("keys").copied().unwrap_or(0) > 200, "keys for reduced sets");

    // prover-side and verifier-side descriptions
    let mut cases = vec![];
    for s in crate::systems::catalogue() {
        for zero in 0..3 {
            cases.push((s.name, s.c.clone(), zero));
        }
    }
    ctx.sweep(
        "descriptions",
        "catalogue of 11 systems: keys from prover columns (generic, all-zero, all-one values) equal keys from verifier columns, for every mixture of the three column kinds",
        &cases,
        |(name, c, zero), r| {
            let sys = match Sys::<F62, T62>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            let v = |k: usize, row: usize| match zero { 0 => filler(k as u64, row), 1 => 0, _ => 1 };
            let a = Asg {
                w: (0..c.nw).map(|k| (0..c.n).map(|row| v(k, row)).collect()).collect(),
                inst: (0..c.ni).map(|k| (0..c.n).map(|row| v(k + 9, row)).collect()).collect(),
            };
            let (pw, pi) = sys.prover_oracles(&a);
            let (vw, vi) = sys.verifier_oracles(&a.inst);
            let vx: Vec<FixedVerifierOracle<F62, T62>> = sys.commit_fixed(&sys.fixed);
            let base = match index_with(&sys, &vw, &vi, &sys.fixed) { Ok(k) => k, Err(e) => return r.fail("index", e) };
            key_invariants(&sys, &base, r);
            let d = |k: Result<VerifierKey<F62, T62>, String>| k.map(|k| describe(&k)).unwrap_or_else(|e| e);
            let want = describe(&base);
            let all = [
                d(index_with(&sys, &pw, &pi, &sys.fixed)),
                d(index_with(&sys, &pw, &vi, &sys.fixed)),
                d(index_with(&sys, &vw, &pi, &sys.fixed)),
                d(index_with(&sys, &pw, &pi, &vx)),
                d(index_with(&sys, &vw, &vi, &vx)),
            ];
            for (i, got) in all.iter().enumerate() {
                r.steps(1);
                r.exec((name, zero, i), if *got == want { "same keys" } else { "different keys" });
                r.check(*got == want, "different-keys", || format!("{} variant {}: {} instead of {}", name, i, got, want));
            }
        },
    );
}
/// The quotient of the gates alone needs less than half a polynomial: refusing is documented.
fn may_refuse_strict(c: &Circuit) -> bool {
    gate_quotient_degree(c) < 0
}
fn removed_rows_in<F: PrimeField>(c: &Circuit, r: &mut Rec) {
    let mut sys = match Sys::<F, ToyPC<F>>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    // the polynomial itself: monic, zero exactly on the enforced rows
    let plain = sys.zh.clone();
    for row in 0..c.n {
        let z = horner(&plain, sys.domain.element(row)).is_zero();
        r.check(z != c.removed.contains(&row), "vanishing-set", || format!("row {} of {:?}", row, c));
    }
    removed_rows_with(&sys, "monic", r);
    // any non-zero multiple vanishes on the same rows
    for k in [3i64, -1] {
        sys.zh = DensePolynomial::from_coefficients_vec(plain.coeffs.iter().map(|x| *x * fe::<F>(k)).collect());
        removed_rows_with(&sys, "multiple", r);
    }
}
fn removed_rows_with<F: PrimeField>(sys: &Sys<F, ToyPC<F>>, what: &str, r: &mut Rec) {
    let c = &sys.c;
    r.steps(1);
    match sys.index() {
        Err(o) => {
            r.exec((c, what, "refused"), format!("index {}", o.kind()));
            r.check(o.rejected() && may_refuse(c), "refused", || format!("{:?} for {:?}", o, c));
        }
        Ok(k) => {
            r.exec((c, what, k.zh_inverses_over_coset.len()), "keys");
            key_invariants(&sys, &k, r);
        }
    }
}
fn describe<F: PrimeField, PC: HomomorphicCommitment<F>>(k: &VerifierKey<F, PC>) -> String {
    let p = &k.index_info.permutation_argument;
    format!(
        "q{} N{} u{} l{} z{:?} a{} inv{:x}",
        k.index_info.quotient_degree,
        k.index_info.extended_coset_domain.size(),
        k.index_info.usable_rows,
        k.index_info.lookups.len(),
        // without copied columns there may be no room for any
        guarded(|| (1..12).map(|m| p.number_of_z_polys(m)).collect::<Vec<_>>()),
        p.number_of_alphas(3),
        hash(&k.zh_inverses_over_coset.iter().map(|v| v.to_string()).collect::<Vec<_>>()),
    )
}

// ---------------------------------------------------------------- P13

fn columns<F: PrimeField>(n: usize, domain: &GeneralEvaluationDomain<F>) -> Vec<(String, Vec<F>)> {
    let mut out = vec![];
    // both standard bases of the space of columns, and generic columns
    for j in 0..n {
        let mut v = vec![F::zero(); n];
        v[j] = F::one();
        out.push((format!("unit{}", j), v));
        out.push((format!("power{}", j), (0..n).map(|i| domain.element(i).pow([j as u64])).collect()));
    }
    for s in 0..2 {
        out.push((format!("generic{}", s), (0..n).map(|i| fe::<F>(filler(s, i))).collect()));
    }
    out.push(("zero".into(), vec![F::zero(); n]));
    out
}

/// All views of one column under one offset; `g` times powers of the extended generator is the coset.
#[allow(clippy::too_many_arguments)]
fn check_views<F: PrimeField, O: Instantiable<F>>(
    kind: &str,
    o: &O,
    n: usize,
    big: &GeneralEvaluationDomain<F>,
    domain: &GeneralEvaluationDomain<F>,
    evals: &[F],
    poly: &DensePolynomial<F>,
    off: i32,
    r: &mut Rec,
) {
    let rot = rotation(off);
    let step = domain.element(1);
    let shift = if off >= 0 { step.pow([off as u64]) } else { step.inverse().unwrap().pow([(-off) as u64]) };
    let omegas: Vec<F> = domain.elements().collect();
    // rows
    for row in 0..n {
        let got = o.query_at_omega_in_original_domain(row, rot);
        r.check(got == evals[idx(row, off, n)], "row-view", || format!("{} n={} offset {} row {}", kind, n, off, row));
        let p = rot.compute_evaluation_point(domain.element(row), &omegas);
        r.check(p == domain.element(row) * shift, "shifted-point", || format!("{} n={} offset {} row {}", kind, n, off, row));
        let at = o.query(&p).map_err(|e| format!("{:?}", e));
        r.check(at == Ok(evals[idx(row, off, n)]), "point-view", || format!("{} n={} offset {} row {}", kind, n, off, row));
    }
    // extended coset
    let mut at = F::multiplicative_generator();
    for i in 0..big.size() {
        let want = horner(poly, at * shift);
        let got = o.query_in_coset(i, rot).map_err(|e| format!("{:?}", e));
        r.check(got == Ok(want), "coset-view", || format!("{} n={} N={} offset {} position {}", kind, n, big.size(), off, i));
        let p = rot.compute_evaluation_point(at, &omegas);
        let q = o.query(&p).map_err(|e| format!("{:?}", e));
        r.check(q == Ok(want), "point-view", || format!("{} n={} N={} offset {} position {}", kind, n, big.size(), off, i));
        let (_, p2) = rot.get_point_info("xi", at, &omegas);
        r.check(p == p2, "opening-point", || format!("n={} offset {} position {}", n, off, i));
        at *= big.element(1);
    }
    r.steps(2 * n + 3 * big.size());
    r.exec((kind, n, big.size(), off, evals.iter().map(|e| e.to_string()).collect::<Vec<_>>()), "views agree");
}

fn views<F: PrimeField>(ctx: &mut Ctx, field: &'static str, ns: &[usize], ratios: &[usize]) {
    let mut cases = vec![];
    for &n in ns {
        for &ratio in ratios {
            let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
            for (name, col) in columns(n, &domain) {
                if n > 16 && !(name.starts_with("generic") || name == "unit1") {
                    continue;
                }
                cases.push((n, ratio, name, col));
            }
        }
    }
    ctx.sweep(
        &format!("views-{}", field),
        "basis columns (n<=16) and generic columns of every kind; all offsets from -(2n+1) to 2n+1 and distant ones to 2^31-1; all rows and all points of the extended coset",
        &cases,
        |(n, ratio, _name, col), r| {
            let n = *n;
            let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
            let big = GeneralEvaluationDomain::<F>::new(n * ratio).unwrap();
            let poly = interpolate(&domain, col);
            let mut wo = WitnessProverOracle::new("w", poly.clone(), col, false);
            let mut io = InstanceProverOracle::new("i", poly.clone(), col);
            let mut xo = FixedProverOracle::new("x", poly.clone(), col);
            wo.compute_extended_evals(&big);
            io.compute_extended_evals(&big);
            xo.compute_extended_evals(&big);
            let x2 = FixedProverOracle::from_evals_and_domains("x".into(), col, &domain, &big);
            let vi = InstanceVerifierOracle::new("i", poly.clone());
            let lim = 2 * n as i32 + 1;
            let far = [3 * n as i32 + 2, 10 * n as i32 + 1, 255, 256, 257, 1000, 65535, 65537, (1 << 20) + 1, i32::MAX];
            let far = far.into_iter().flat_map(|o| [o, -o]).filter(|o| o.abs() > lim);
            for off in (-lim..=lim).chain(far) {
                check_views("witness", &wo, n, &big, &domain, col, &poly, off, r);
                check_views("instance", &io, n, &big, &domain, col, &poly, off, r);
                check_views("fixed", &xo, n, &big, &domain, col, &poly, off, r);
                check_views("fixed-from-evals", &x2, n, &big, &domain, col, &poly, off, r);
                let p = horner(&poly, fe::<F>(5));
                r.check(vi.query(&fe::<F>(5)).ok() == Some(p), "verifier-instance", || format!("{:?}", col));
            }
            // reading through the weights of the rows at a point outside the domain
            for pt in [3i64, 5, 7] {
                let pt = fe::<F>(pt);
                if domain.evaluate_vanishing_polynomial(pt).is_zero() { continue; }
                let l = domain.evaluate_all_lagrange_coefficients(pt);
                for v in [wo.query_in_evals_form(&l), io.query_in_evals_form(&l), xo.query_in_evals_form(&l)] {
                    r.check(v == horner(&poly, pt), "lagrange-view", || format!("{:?}", col));
                }
            }
            for o in [wo.to_labeled(), io.to_labeled(), xo.to_labeled(), x2.to_labeled()] {
                r.check(*o.polynomial() == poly, "polynomial-view", || format!("{:?}", col));
            }
        },
    );
}

pub fn rotations(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ns: &[usize] = if ctx.deeper { &[2, 4, 8, 16, 32, 64, 128, 256] } else if t { &[2, 4, 8, 16, 32, 64, 128] } else { &[2, 4, 8, 32, 64] };
    let ratios: &[usize] = if ctx.deeper { &[1, 2, 4, 8, 16, 32, 64] } else if t { &[1, 2, 4, 8, 16, 32] } else { &[1, 2, 4, 8, 16] };
    views::<F62>(ctx, "f62", ns, ratios);
    views::<F193>(ctx, "f193", if t { &[2, 4, 8] } else { &[2, 4] }, if t { &[1, 2, 4, 8] } else { &[1, 2, 4] });
    views::<F17>(ctx, "f17", &[2, 4], &[1, 2, 4]);
    views::<Bls>(ctx, "bls", &[4], if t { &[1, 2, 4, 8] } else { &[1, 4] });

    // query sets of columns: labels and points for every set of offsets
    let offs: Vec<i32> = (-5..=5).collect();
    ctx.range(
        "query-sets",
        "n=8: all sets of offsets from -5..5 (2048), all columns kinds; points and values of the query set",
        1 << offs.len(),
        |m| format!("offsets mask {:b}", m),
        |m, r| {
            let n = 8;
            let domain = GeneralEvaluationDomain::<F62>::new(n).unwrap();
            let omegas: Vec<F62> = domain.elements().collect();
            let col: Vec<F62> = (0..n).map(|i| fe(filler(4, i))).collect();
            let poly = interpolate(&domain, &col);
            let mut wo = WitnessProverOracle::new("w", poly.clone(), &col, false);
            let mut xo = FixedProverOracle::new("w", poly.clone(), &col);
            let mut wv = WitnessVerifierOracle::<F62, T62>::new("w", false);
            let mut xv = FixedVerifierOracle::<F62, T62>::new("w", None);
            let set: Vec<i32> = offs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, o)| *o).collect();
            for o in &set {
                wo.register_rotation(rotation(*o));
                xo.register_rotation(rotation(*o));
                wv.register_rotation(rotation(*o));
                xv.register_rotation(rotation(*o));
            }
            let xi = fe::<F62>(12345);
            let want: BTreeSet<F62> = set.iter()
                .map(|o| xi * domain.element(o.rem_euclid(n as i32) as usize))
                .collect();
            for qs in [
                wo.get_query_set("xi", xi, &omegas),
                xo.get_query_set("xi", xi, &omegas),
                wv.get_query_set("xi", xi, &omegas),
                xv.get_query_set("xi", xi, &omegas),
            ] {
                let got: BTreeSet<F62> = qs.iter().map(|(_, (_, p))| *p).collect();
                r.check(got == want && qs.len() == set.len(), "query-set", || format!("{:?}: {:?}", set, qs));
                r.check(qs.iter().all(|(l, _)| l == "w"), "query-set-label", || format!("{:?}", qs));
                r.steps(1);
            }
            r.exec(set, "query set");
        },
    );
    // canonical offsets
    ctx.single("canonical", "constructors of offsets", |r| {
        for (a, b) in [
            (Rotation::new(0, Sign::Minus), Rotation::new(0, Sign::Plus)),
            (Rotation::curr(), Rotation::new(0, Sign::Minus)),
            (Rotation::next(), Rotation::new(1, Sign::Plus)),
            (Rotation::prev(), Rotation::new(1, Sign::Minus)),
        ] {
            r.steps(1);
            r.exec(format!("{:?}", a), "same");
            r.check(a == b, "canonical", || format!("{:?} {:?}", a, b));
        }
        r.check(Rotation::next() != Rotation::prev(), "canonical", || "next equals prev".into());
    });
}

// ---------------------------------------------------------------- P14

fn counts<F: PrimeField>(v: &[F]) -> Vec<F> {
    let mut v = v.to_vec();
    v.sort();
    v
}
fn match_one<F: PrimeField>(a: &[i64], s: &[i64], r: &mut Rec) {
    match_values::<F, _>(&field_col(a), &field_col(s), &(a, s), r)
}
fn match_values<F: PrimeField, D: std::fmt::Debug + std::hash::Hash>(fa: &Vec<F>, fs: &Vec<F>, what: &D, r: &mut Rec) {
    let contained = fa.iter().all(|x| fs.contains(x));
    let out = guarded(|| permute_for_lookup(fa, fs));
    r.steps(1);
    if !contained {
        // there is no faithful pair: nothing may be returned
        r.exec(what, if out.is_err() { "missing: refused" } else { "missing: WRONG" });
        r.check(out.is_err(), "matched-missing", || format!("{:?} -> {:?}", what, out));
        return;
    }
    let good = match &out {
        Err(_) => None,
        Ok((x, y)) => Some(
            x.len() == fa.len()
                && y.len() == fs.len()
                && counts(x) == counts(fa)
                && counts(y) == counts(fs)
                && x.iter().zip(y).enumerate().all(|(i, (p, q))| p == q || i > 0 && *p == x[i - 1]),
        ),
    };
    r.exec(what, if good == Some(true) { "contained: matched" } else { "contained: WRONG" });
    r.check(good == Some(true), "not-a-rearrangement", || format!("{:?} -> {:?}", what, out));
}
pub fn matching(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let shapes: Vec<(usize, usize)> = if ctx.deeper {
        vec![(1, 4), (2, 4), (3, 4), (4, 4), (5, 4), (6, 4), (7, 3), (8, 3), (9, 2), (10, 2), (11, 2), (12, 2)]
    } else if t {
        vec![(1, 3), (2, 4), (3, 4), (4, 4), (5, 4), (6, 3), (7, 3), (8, 2), (9, 2), (10, 2)]
    } else {
        vec![(1, 3), (2, 4), (3, 4), (4, 4), (5, 3), (6, 3), (7, 2), (8, 2)]
    };
    for (len, k) in shapes {
        let k64 = k as u64;
        let per = k64.pow(len as u32);
        let alphabet: Vec<i64> = [0i64, 1, -1, 5][..k].to_vec();
        let pick = move |m: u64| -> Vec<i64> {
            let mut m = m;
            (0..len).map(|_| { let d = m % k64; m /= k64; alphabet[d as usize] }).collect()
        };
        let p2 = pick.clone();
        ctx.range(
            &format!("pairs-{}x{}", len, k),
            &format!("all pairs of columns of length {} over {} values", len, k),
            per as usize,
            move |m| format!("a={:?}, all s", p2(m as u64)),
            move |m, r| {
                let a = pick(m as u64);
                for j in 0..per {
                    match_one::<F62>(&a, &pick(j), r);
                }
            },
        );
    }
    // distinct values in every order, real field
    ctx.sweep(
        "orders-bls",
        "all arrangements of inputs over 4 values of the BLS12-381 scalar field against all orders of 4 distinct table entries",
        &words(&[0, 1, -1, 1 << 40], 4),
        |a, r| {
            let base = [0i64, 1, -1, 1 << 40];
            for p in super::copy::permutations(4) {
                let s: Vec<i64> = p.iter().map(|i| base[*i]).collect();
                match_one::<Bls>(a, &s, r);
            }
        },
    );
    // elements that agree in some of the words they are stored in
    let two = Bls::from(2u64);
    let spread: Vec<Bls> = [0u64, 32, 63, 64, 128, 192, 250]
        .iter()
        .flat_map(|e| {
            let p = two.pow([*e]);
            [p, -p, p + Bls::from(7u64)]
        })
        .collect();
    let m = spread.len();
    let mut cases = vec![];
    for i in 0..m {
        for j in 0..m {
            for k in j..m {
                cases.push((i, j, k));
            }
        }
    }
    ctx.sweep(
        "words-bls",
        "one input among two or three table entries, from 21 elements that share machine words",
        &cases,
        |&(i, j, k), r| {
            let (a, b, c) = (spread[i], spread[j], spread[k]);
            match_values::<Bls, _>(&vec![a, a, b], &vec![b, c, b], &(i, j, k, "absent?"), r);
            match_values::<Bls, _>(&vec![a, b, c], &vec![c, a, b], &(i, j, k, "all"), r);
            match_values::<Bls, _>(&vec![b, a, b, a], &vec![c, b, a, c], &(i, j, k, "spare"), r);
        },
    );
    // long columns
    let lens: Vec<usize> = if t { vec![9, 15, 16, 17, 31, 33, 64, 100, 255, 256, 257, 1000, 4096] } else { vec![9, 16, 17, 33, 64, 100, 256, 257, 1000] };
    let mut cases = vec![];
    for &l in &lens {
        for m in [1, 2, 3, 7, l / 2, l - 1, l] {
            for k in [0usize, 1, 2, 3, 5, 7, l / 2, l - 1] {
                cases.push((l, m, k));
            }
        }
    }
    ctx.sweep(
        "long",
        "lengths 9..4096: tables with 1, 2, 3, 7, half, all but one or all of the entries distinct, in three orders; inputs that visit them with 8 strides, and with one absent value first, in the middle, last",
        &cases,
        |&(l, m, k), r| {
            for order in 0..3 {
                let s: Vec<i64> = (0..l)
                    .map(|i| match order {
                        0 => (i % m) as i64,
                        1 => (l - 1 - i) as i64 * 3 / (l / m) as i64,
                        _ => (i % m * 7919 % 1009) as i64,
                    })
                    .collect();
                let a: Vec<i64> = (0..l).map(|i| s[i * k % l]).collect();
                match_values::<F62, _>(&field_col(&a), &field_col(&s), &(l, m, k, order), r);
                for at in [0, l / 2, l - 1] {
                    for v in [-1i64, 1 << 50] {
                        let mut b = a.clone();
                        b[at] = v;
                        match_values::<F62, _>(&field_col(&b), &field_col(&s), &(l, m, k, order, at, v), r);
                    }
                }
            }
        },
    );
}
