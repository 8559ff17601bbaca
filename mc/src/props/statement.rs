//! P09 / P10: binding of a proof to its statement, and of challenges to messages.
use super::common::*;
use super::proof::{subjects, Subject};
use crate::systems::*;
use zero_over_k::oracles::fixed::FixedVerifierOracle;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle};
use zero_over_k::permutation::PermutationArgument;

fn commitment(o: &FixedVerifierOracle<F62, T62>) -> C62 {
    o.get_commitment().unwrap().clone()
}
/// The same column description with another commitment.
fn with_commitment(o: &FixedVerifierOracle<F62, T62>, c: C62) -> FixedVerifierOracle<F62, T62> {
    let mut f = FixedVerifierOracle::new(o.get_label(), Some(c));
    for r in o.get_queried_rotations() {
        f.register_rotation(*r);
    }
    f
}

/// Well-formed changes of the statement. The assignments of the catalogue are generic, so every
/// one of them changes the constraint polynomials.
fn mutate_expr(e: &E, out: &mut Vec<E>, n: usize) {
    let wrap = |f: &dyn Fn(E) -> E, sub: &E, out: &mut Vec<E>| {
        let mut v = vec![];
        mutate_expr(sub, &mut v, n);
        out.extend(v.into_iter().map(|x| f(x)));
    };
    match e {
        E::Q(c, r) => {
            for d in [1, -1, 2] {
                out.push(E::Q(*c, r + d));
            }
            out.push(e.clone().scale(2));
            out.push(e.clone() + E::C(1));
            match c {
                Col::W(i) if *i > 0 => out.push(E::Q(Col::W(i - 1), *r)),
                Col::X(i) if *i > 0 => out.push(E::Q(Col::X(i - 1), *r)),
                Col::I(i) if *i > 0 => out.push(E::Q(Col::I(i - 1), *r)),
                _ => out.push(E::Q(Col::W(0), *r) + e.clone()),
            }
        }
        E::C(v) => out.push(E::C(v + 1)),
        E::Add(a, b) => {
            out.push(E::Sub(a.clone(), b.clone()));
            wrap(&|x| E::Add(Box::new(x), b.clone()), a, out);
            wrap(&|x| E::Add(a.clone(), Box::new(x)), b, out);
        }
        E::Sub(a, b) => {
            out.push(E::Add(a.clone(), b.clone()));
            wrap(&|x| E::Sub(Box::new(x), b.clone()), a, out);
            wrap(&|x| E::Sub(a.clone(), Box::new(x)), b, out);
        }
        E::Mul(a, b) => {
            out.push((**a).clone());
            out.push((**b).clone());
            wrap(&|x| E::Mul(Box::new(x), b.clone()), a, out);
            wrap(&|x| E::Mul(a.clone(), Box::new(x)), b, out);
        }
        E::Neg(a) => {
            out.push((**a).clone());
            wrap(&|x| -x, a, out);
        }
        E::Scale(a, k) => {
            out.push(E::Scale(a.clone(), k + 1));
            wrap(&|x| x.scale(*k), a, out);
        }
    }
}

fn mutations(c: &Circuit) -> Vec<(String, Circuit)> {
    let mut out: Vec<(String, Circuit)> = vec![];
    let mut push = |s: String, f: &dyn Fn(&mut Circuit)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            out.push((s, d));
        }
    };
    for k in 0..c.fixed.len() {
        for r in 0..c.n {
            for d in [1, -1] {
                push(format!("x{}[{}]{:+}", k, r, d), &|m| m.fixed[k][r] += d);
            }
            push(format!("x{}[{}] <-> x{}[{}]", k, r, k, (r + 1) % c.n), &|m| m.fixed[k].swap(r, (r + 1) % c.n));
        }
        if k > 0 {
            push(format!("x{} <-> x{}", k - 1, k), &|m| m.fixed.swap(k - 1, k));
        }
    }
    for k in 0..c.tables.len() {
        for r in 0..c.n {
            push(format!("t{}[{}]+1", k, r), &|m| m.tables[k][r] += 1);
            push(format!("t{}[{}] <-> t{}[{}]", k, r, k, (r + 1) % c.n), &|m| m.tables[k].swap(r, (r + 1) % c.n));
        }
        if k > 0 {
            push(format!("t{} <-> t{}", k - 1, k), &|m| m.tables.swap(k - 1, k));
        }
    }
    if let Some(p) = &c.perm {
        for a in 0..p.cols.len() * c.u {
            for b in a + 1..p.cols.len() * c.u {
                let f = |i: usize| (i / c.u, i % c.u);
                push(format!("sigma {:?} <-> {:?}", f(a), f(b)), &|m| {
                    let q = m.perm.take().unwrap();
                    m.perm = Some(q.swap(f(a), f(b)));
                });
            }
        }
    }
    for i in 0..c.gates.len() {
        let mut v = vec![];
        mutate_expr(&c.gates[i], &mut v, c.n);
        for e in v {
            push(format!("gate {} := {}", i, e), &|m| m.gates[i] = e.clone());
        }
        push(format!("gate {} doubled", i), &|m| m.gates[i] = m.gates[i].clone().scale(2));
        push(format!("gate {} negated", i), &|m| m.gates[i] = -m.gates[i].clone());
        push(format!("gate {} repeated at the end", i), &|m| m.gates.push(m.gates[i].clone()));
        push(format!("gate {} repeated in front", i), &|m| m.gates.insert(0, m.gates[i].clone()));
        for j in i + 1..c.gates.len() {
            push(format!("gates {} {} exchanged", i, j), &|m| m.gates.swap(i, j));
        }
        if c.gates.len() > 1 {
            push(format!("gate {} dropped", i), &|m| {
                m.gates.remove(i);
            });
        }
    }
    for i in 0..c.lookups.len() {
        for j in 0..c.lookups[i].exprs.len() {
            let mut v = vec![];
            mutate_expr(&c.lookups[i].exprs[j], &mut v, c.n);
            for e in v {
                push(format!("lookup {} input {} := {}", i, j, e), &|m| m.lookups[i].exprs[j] = e.clone());
            }
            push(format!("lookup {} table {} offset", i, j), &|m| m.lookups[i].tables[j].1 += 1);
            for t in 0..c.tables.len() {
                push(format!("lookup {} table {} := t{}", i, j, t), &|m| m.lookups[i].tables[j].0 = t);
            }
            if j > 0 {
                push(format!("lookup {} inputs {} {} exchanged", i, j - 1, j), &|m| m.lookups[i].exprs.swap(j - 1, j));
                push(format!("lookup {} component {} dropped", i, j), &|m| {
                    m.lookups[i].exprs.remove(j);
                    m.lookups[i].tables.remove(j);
                });
            }
        }
        push(format!("lookup {} dropped", i), &|m| {
            m.lookups.remove(i);
        });
        push(format!("lookup {} repeated", i), &|m| m.lookups.push(m.lookups[i].clone()));
        for j in i + 1..c.lookups.len() {
            push(format!("lookups {} {} exchanged", i, j), &|m| m.lookups.swap(i, j));
        }
    }
    // the enforced rows, the usable rows
    for r in c.enforced() {
        push(format!("row {} not enforced", r), &|m| m.removed.push(r));
    }
    for i in 0..c.removed.len() {
        push(format!("row {} enforced", c.removed[i]), &|m| {
            m.removed.remove(i);
        });
    }
    if c.perm.is_some() || !c.lookups.is_empty() {
        if let Some(p) = &c.perm {
            // one usable row less is only the same copies if its cells are tied to nothing
            let last = c.u - 1;
            if (0..p.cols.len()).all(|k| p.sigma[k][last] == (k, last)) {
                push("one usable row less".into(), &|m| {
                    m.u -= 1;
                    if let Some(p) = m.perm.as_mut() {
                        p.sigma.iter_mut().for_each(|s| {
                            s.pop();
                        });
                    }
                });
            }
            if c.u + 1 < c.n {
                push("one usable row more".into(), &|m| {
                    m.u += 1;
                    let u = m.u;
                    if let Some(p) = m.perm.as_mut() {
                        p.sigma.iter_mut().enumerate().for_each(|(k, s)| s.push((k, u - 1)));
                    }
                });
            }
            push("first two copied columns exchanged".into(), &|m| {
                if let Some(p) = m.perm.as_mut() {
                    let f = |k: usize| match k { 0 => 1, 1 => 0, k => k };
                    p.sigma.swap(0, 1);
                    p.sigma.iter_mut().for_each(|s| s.iter_mut().for_each(|x| x.0 = f(x.0)));
                }
            });
        } else {
            push("one usable row less".into(), &|m| m.u -= 1);
            if c.u + 1 < c.n {
                push("one usable row more".into(), &|m| m.u += 1);
            }
        }
    }
    out
}

/// The values of X^d on the domain of size n.
pub fn monomial(n: usize, d: usize) -> Vec<i64> {
    let g = ark_poly::GeneralEvaluationDomain::<F62>::new(n).unwrap();
    (0..n).map(|r| g.element(r * d % n).into_repr().0[0] as i64).collect()
}

fn instances(base: &[Vec<i64>]) -> Vec<(String, Vec<Vec<i64>>)> {
    let mut out = vec![];
    for k in 0..base.len() {
        for r in 0..base[k].len() {
            for d in [1, -1, 1000] {
                let mut i = base.to_vec();
                i[k][r] += d;
                out.push((format!("p{}[{}]{:+}", k, r, d), i));
            }
            for s in r + 1..base[k].len() {
                let mut i = base.to_vec();
                i[k].swap(r, s);
                out.push((format!("p{}[{}] <-> p{}[{}]", k, r, k, s), i));
                let mut i = base.to_vec();
                i[k][r] += 1;
                i[k][s] -= 1;
                out.push((format!("p{}[{}]+1, p{}[{}]-1", k, r, k, s), i));
            }
            for l in k + 1..base.len() {
                let mut i = base.to_vec();
                i[k][r] += 1;
                i[l][r] -= 1;
                out.push((format!("p{}[{}]+1, p{}[{}]-1", k, r, l, r), i));
                let mut i = base.to_vec();
                let t = i[k][r];
                i[k][r] = i[l][r];
                i[l][r] = t;
                out.push((format!("p{}[{}] <-> p{}[{}]", k, r, l, r), i));
            }
        }
        // the column's polynomial changed in one coefficient only
        for d in 0..base[k].len() {
            for by in [1, -1] {
                let mut i = base.to_vec();
                monomial(base[k].len(), d).into_iter().enumerate().for_each(|(r, v)| i[k][r] += by * v);
                out.push((format!("p{} {:+} X^{}", k, by, d), i));
            }
        }
        let mut i = base.to_vec();
        i[k] = vec![0; base[k].len()];
        out.push((format!("p{} = 0", k), i));
        let mut i = base.to_vec();
        i[k].rotate_left(1);
        out.push((format!("p{} rotated", k), i));
    }
    if base.len() > 1 {
        let mut i = base.to_vec();
        i.swap(0, 1);
        out.push(("p0 <-> p1".into(), i));
    }
    out.retain(|x| x.1 != base);
    out
}

/// Changes of one cell or coefficient of long or many columns.
fn far_instances(base: &[Vec<i64>]) -> Vec<(String, Vec<Vec<i64>>)> {
    let mut out = vec![];
    for k in 0..base.len() {
        for d in landmarks(base[k].len()) {
            let mut i = base.to_vec();
            i[k][d] += 1;
            out.push((format!("p{}[{}] + 1", k, d), i));
            let mut i = base.to_vec();
            i[k].iter_mut().zip(monomial(base[k].len(), d)).for_each(|(x, v)| *x += v);
            out.push((format!("p{} + X^{}", k, d), i));
        }
        for l in k + 1..base.len() {
            let mut i = base.to_vec();
            i.swap(k, l);
            out.push((format!("p{} <-> p{}", k, l), i));
        }
    }
    out
}

pub fn binding(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let subj = subjects::<F62>(catalogue_many(), 2, if t { 2 } else { 1 });
    // -- public input
    ctx.sweep("instance", "every cell and every coefficient of every public column changed, cells exchanged, compensated; columns exchanged", &subj, |s: &Subject<F62>, r| {
        let (keys, p, words) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let mut qs = vec![];
        s.sys.c.gates.iter().chain(s.sys.c.lookups.iter().flat_map(|l| &l.exprs)).for_each(|e| e.queries(&mut qs));
        let used = (0..s.sys.c.ni).all(|k| qs.iter().any(|q| q.0 == Col::I(k)));
        for (what, inst) in instances(&s.asg.inst) {
            for pinned in [false, true] {
                if pinned && !used {
                    continue;
                }
                r.steps(1);
                start(if pinned { words.clone() } else { vec![] });
                let o = s.sys.verify::<TapeFS>(&keys, &inst, copy_proof(&p));
                finish();
                r.exec((&s.name, &what, pinned), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "other-instance", || format!("{} accepted for {} (pinned {}): {:?}", s.name, what, pinned, o));
            }
        }
    });
    ctx.require("instance", nontrivial, "nothing accepted");
    let big = subjects::<F62>(giants(t), 1, 1);
    ctx.range("large-instance", "long and many public columns; cells and coefficients near powers of two and the ends, +1", big.len() * 4, |i| big[i / 4].name.clone(), |i, r| {
        let s = &big[i / 4];
        let (keys, p, words) = match ready(s, r) {
            Some(x) => x,
            None => return r.fail("unready", &s.name),
        };
        for (k, (what, inst)) in far_instances(&s.asg.inst).into_iter().enumerate() {
            if k % 4 != i % 4 {
                continue;
            }
            for pinned in [false, true] {
                r.steps(1);
                start(if pinned { words.clone() } else { vec![] });
                let o = s.sys.verify::<TapeFS>(&keys, &inst, copy_proof(&p));
                finish();
                r.exec((&s.name, &what, pinned), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "other-instance", || format!("{} accepted for {} (pinned {}): {:?}", s.name, what, pinned, o));
            }
        }
    });
    // -- everything else of the statement
    ctx.range("statement", "every cell of fixed, table and permutation columns, every gate and lookup mutated, dropped, repeated, reordered; enforced and usable rows changed", subj.len() * 16, |i| subj[i / 16].name.clone(), |i, r| {
        let s = &subj[i / 16];
        let (_, p, words) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        for (k, (what, c)) in mutations(&s.sys.c).into_iter().enumerate() {
            if k % 16 != i % 16 {
                continue;
            }
            let sys = match guarded(|| S62::new(&c)) {
                Ok(Ok(s)) => s,
                _ => continue,
            };
            let keys = match guarded(|| sys.keys()) {
                Ok(Ok(k)) => k,
                _ => {
                    r.exec((&s.name, &what), "no keys for the other statement");
                    continue;
                }
            };
            r.steps(3);
            for pinned in [false, true] {
                start(if pinned { words.clone() } else { vec![] });
                let o = sys.verify::<TapeFS>(&keys, &s.asg.inst, copy_proof(&p));
                finish();
                r.exec((&s.name, &what, pinned), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "other-statement", || format!("{} accepted for {} (pinned {}): {:?}", s.name, what, pinned, o));
            }
        }
    });
    ctx.require("statement", nontrivial, "nothing accepted");
    // -- single pieces of the verifier's data exchanged, the rest as in the proved statement
    ctx.range("pieces", "every coefficient of every preprocessed commitment +-1; two commitments exchanged; selector of unusable rows changed in every cell; separators, vanishing polynomial, usable rows", subj.len(), |i| subj[i].name.clone(), |i, r| {
        let s = &subj[i];
        let (mut keys, p, words) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let mut go = |keys: &Keys<F62, T62>, zh: Option<DensePolynomial<F62>>, what: String, r: &mut Rec| {
            for pinned in [false, true] {
                start(if pinned { words.clone() } else { vec![] });
                let (mut w, mut i) = s.sys.verifier_oracles(&s.asg.inst);
                let mut vpre = keys.vpre.clone();
                let gates = s.sys.gate_refs();
                let o = match guarded(|| {
                    use zero_over_k::PIL;
                    zero_over_k::verif_hooks::TurboPlonk::<F62, T62, TapeFS>::verify(&keys.pk.vk, &mut vpre, copy_proof(&p), &mut w, &mut i, &gates, s.sys.c.n, zh.as_ref().unwrap_or(&s.sys.zh))
                }) {
                    Err(e) => Out::Panic(e),
                    Ok(Err(e)) => Out::Reject(short(&format!("{:?}", e))),
                    Ok(Ok(())) => Out::Accept,
                };
                finish();
                r.steps(1);
                r.exec((&s.name, &what, pinned), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), "other-piece", || format!("{} accepted with {} (pinned {}): {:?}", s.name, what, pinned, o));
            }
        };
        let n = s.sys.c.n;
        let lens = [keys.vpre.fixed_oracles.len(), keys.vpre.table_oracles.len(), keys.vpre.permutation_oracles.len(), 1];
        let names = ["fixed", "table", "permutation", "q_blind"];
        for l in 0..4 {
            for k in 0..lens[l] {
                for d in 0..n {
                    for e in [1i64, -1] {
                        let saved = keys.vpre.clone();
                        {
                            let o = match l {
                                0 => &mut keys.vpre.fixed_oracles[k],
                                1 => &mut keys.vpre.table_oracles[k],
                                2 => &mut keys.vpre.permutation_oracles[k],
                                _ => &mut keys.vpre.q_blind,
                            };
                            let mut c = commitment(o);
                            c.poly = vadd(&c.poly, &vscale(&unit(d), fe(e)));
                            *o = with_commitment(o, c);
                        }
                        go(&keys, None, format!("{} commitment {} {:+} X^{}", names[l], k, e, d), r);
                        keys.vpre = saved;
                    }
                }
                for m in k + 1..lens[l] {
                    let saved = keys.vpre.clone();
                    let v = match l {
                        0 => &mut keys.vpre.fixed_oracles,
                        1 => &mut keys.vpre.table_oracles,
                        _ => &mut keys.vpre.permutation_oracles,
                    };
                    let (a, b) = (commitment(&v[k]), commitment(&v[m]));
                    if a != b {
                        v[k] = with_commitment(&v[k], b);
                        v[m] = with_commitment(&v[m], a);
                        go(&keys, None, format!("{} commitments {} {} exchanged", names[l], k, m), r);
                    }
                    keys.vpre = saved;
                }
            }
        }
        for k in 0..n {
            // the polynomial that vanishes on the enforced rows loses / repeats a root
            let root = DensePolynomial::from_coefficients_slice(&[-s.sys.domain.element(k), F62::one()]);
            if s.sys.c.removed.contains(&k) {
                go(&keys, Some(&s.sys.zh * &root), format!("vanishing polynomial with row {}", k), r);
            } else {
                go(&keys, Some(&s.sys.zh / &root), format!("vanishing polynomial without row {}", k), r);
            }
        }
        if let Some(p) = &s.sys.c.perm {
            for k in 0..p.cols.len() {
                let saved = keys.pk.vk.clone();
                let mut info = s.sys.perm_info();
                info.deltas[k] += F62::one();
                let scale = keys.pk.vk.index_info.extended_coset_domain.size() / n;
                keys.pk.vk.index_info.permutation_argument = PermutationArgument::new(scale, &info);
                go(&keys, None, format!("separator {} changed", k), r);
                keys.pk.vk = saved;
            }
        }
        if s.sys.c.perm.is_some() || !s.sys.c.lookups.is_empty() {
            for u in 0..n {
                if u != s.sys.c.u {
                    let saved = keys.pk.vk.clone();
                    let mut info = s.sys.perm_info();
                    info.u = u;
                    let scale = keys.pk.vk.index_info.extended_coset_domain.size() / n;
                    keys.pk.vk.index_info.permutation_argument = PermutationArgument::new(scale, &info);
                    go(&keys, None, format!("{} usable rows", u), r);
                    keys.pk.vk = saved;
                }
            }
        }
    });
    ctx.require("pieces", nontrivial, "nothing accepted");
    // -- every proof against every statement of the catalogue
    ctx.range("matrix", "every proof of the catalogue against every other statement of the catalogue", subj.len(), |i| subj[i].name.clone(), |i, r| {
        let s = &subj[i];
        let (_, p, _) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        for (j, q) in subj.iter().enumerate() {
            if i == j || (q.sys.c == s.sys.c && q.asg.inst == s.asg.inst) {
                continue;
            }
            let keys = match q.sys.keys() {
                Ok(k) => k,
                Err(_) => continue,
            };
            r.steps(1);
            let o = q.sys.verify::<TapeFS>(&keys, &q.asg.inst, copy_proof(&p));
            r.exec((&s.name, &q.name), Full { stage: "verify", out: o.clone() }.key());
            r.check(o.rejected(), "other-statement", || format!("proof of {} against {}: {:?}", s.name, q.name, o));
        }
    });
    adaptive(ctx);
}

fn nontrivial(s: &Section) -> bool {
    s.outcomes.iter().filter(|(k, _)| k.contains("verify:")).map(|x| *x.1).sum::<u64>() > 50
}

fn ready<'a>(s: &'a Subject<F62>, r: &mut Rec) -> Option<(Keys<'a, F62, T62>, Proof62, Vec<u64>)> {
    let keys = match s.sys.keys() {
        Ok(k) => k,
        Err(o) => {
            r.exec(&s.name, format!("no keys:{}", o.kind()));
            return None;
        }
    };
    match s.accepted(&keys) {
        Some((p, w)) => {
            r.steps(3);
            Some((keys, p, w))
        }
        None => {
            let why = match honest(&s.sys, &keys, &s.asg, s.seed) {
                Ok(p) => s.run(&keys, p, &[]).kind().to_string(),
                Err(e) => e,
            };
            r.exec(&s.name, format!("honest proof not accepted: {}", why));
            None
        }
    }
}

/// x0*w0*w1 + p0 with x0 = 0 on one row and p0 != 0 there: no witness exists. The prover follows
/// the procedure with some public input, looks at the challenges, and then replaces other cells of
/// the public input so that the final identity holds at the challenge.
fn adaptive(ctx: &mut Ctx) {
    // domain size, impossible row, offset, seed, row or coefficient, chosen public column
    let mut cases = vec![];
    for n in [16usize, 32, 128] {
        for row in landmarks(n) {
            for bad in [0, n - 1] {
                cases.push((n, bad, 1, 0, row, 1));
                cases.push((n, bad, 1, 0, n + row, 0));
            }
        }
    }
    for last in (2..40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        for row in [2, 9] {
            cases.push((8, 3, 1, 0, row, last));
        }
    }
    for n in [4usize, 8] {
        for bad in 0..n {
            for rot in [0, 1, -1] {
                for seed in 0..3u64 {
                    for row in 0..2 * n {
                        for last in [0, 1] {
                            cases.push((n, bad, rot, seed, row, last));
                        }
                    }
                }
            }
        }
    }
    ctx.sweep("chosen-instance", "n in {4,8}; every impossible row x every public cell or coefficient chosen after the challenges x offsets x columns; n up to 128 with cells and coefficients near powers of two; the last of up to 258 public columns", &cases, |&(n, bad, rot, seed, row, last), r| {
        let second = last > 0;
        let mut c = Circuit::new(n, 2, last + 1);
        c.fixed = vec![(0..n).map(|i| (i != bad) as i64).collect()];
        let chosen = last;
        c.gates = vec![if second { (1..last).fold(x(0) * w(0) * w(1) + pir(0, 0) + pir(last, rot).scale(3), |e, j| e + pir(j, 0).scale(5)) } else { x(0) * w(0) * w(1) + pir(0, rot) }];
        let sys = match S62::new(&c) {
            Ok(s) => s,
            Err(_) => return,
        };
        let keys = match sys.keys() {
            Ok(k) => k,
            Err(_) => return,
        };
        let a = Asg {
            w: (0..2).map(|k| (0..n).map(|i| filler(seed, 10 * k + i)).collect()).collect(),
            inst: (0..c.ni).map(|k| (0..n).map(|i| filler(seed + 9, 10 * k + i)).collect()).collect(),
        };
        start(vec![]);
        let p = match honest(&sys, &keys, &a, seed) {
            Ok(p) => p,
            Err(_) => return r.exec((n, bad, rot, seed, row), "prover refuses"),
        };
        let words = draws(&finish());
        start(vec![]);
        let o = sys.verify::<TapeFS>(&keys, &a.inst, copy_proof(&p));
        let segs = segments(&finish());
        r.steps(2);
        r.exec((n, bad, rot, seed, row, 0), format!("as is: {}", o.kind()));
        r.check(o.rejected(), "impossible-accepted", || format!("{:?}", o));
        // the last challenge drawn before the rejection
        let xi = match segs.last() {
            Some((_, w)) => field_draws::<F62>(w).pop().unwrap(),
            None => return,
        };
        let poly = |v: &[F62]| interpolate(&sys.domain, v);
        let ev = |coeffs: &[F62], x: F62| DensePolynomial::from_coefficients_slice(coeffs).evaluate(&x);
        let at = |rot: i32| xi * sys.domain.element(idx(0, rot, n));
        let inst: Vec<Vec<F62>> = a.inst.iter().map(|v| field_col(v)).collect();
        let lhs = {
            let wv = |k: usize| ev(&p.witness_commitments[k].poly, xi);
            let mut v = poly(&field_col(&c.fixed[0])).evaluate(&xi) * wv(0) * wv(1);
            if second {
                v += poly(&inst[0]).evaluate(&xi) + fe::<F62>(3) * poly(&inst[last]).evaluate(&at(rot));
                (1..last).for_each(|j| v += fe::<F62>(5) * poly(&inst[j]).evaluate(&xi));
            } else {
                v += poly(&inst[0]).evaluate(&at(rot));
            }
            v
        };
        let mut t = F62::zero();
        let mut pw = F62::one();
        for q in &p.quotient_chunk_commitments {
            t += pw * ev(&q.poly, xi);
            pw *= xi.pow([n as u64]);
        }
        let miss = lhs - sys.zh.evaluate(&xi) * t;
        // a cell, or a coefficient
        let basis: Vec<F62> = match row.checked_sub(n) {
            None => (0..n).map(|i| fe((i == row) as i64)).collect(),
            Some(d) => monomial(n, d).into_iter().map(fe).collect(),
        };
        let l = poly(&basis).evaluate(&at(rot)) * if second { fe::<F62>(3) } else { F62::one() };
        let mut forged = inst.clone();
        let by = miss * l.inverse().unwrap();
        forged[chosen].iter_mut().zip(&basis).for_each(|(f, b)| *f -= by * b);
        // an input that has no witness
        let impossible = {
            let mut v = forged[0][idx(bad, if second { 0 } else { rot }, n)];
            if second {
                v += fe::<F62>(3) * forged[last][idx(bad, rot, n)];
                (1..last).for_each(|j| v += fe::<F62>(5) * forged[j][bad]);
            }
            !v.is_zero()
        };
        if !impossible {
            return;
        }
        let (mut w, _) = sys.verifier_oracles(&a.inst);
        let describe = || {
            let mut iv: Vec<_> = forged.iter().enumerate()
                .map(|(k, v)| zero_over_k::oracles::instance::InstanceVerifierOracle::new(c.label("p", k, c.ni), poly(v)))
                .collect();
            let mut wtmp = sys.raw_wv();
            let mut fx = sys.fixed.clone();
            for g in &c.gates {
                gate_vo::<F62>(g).configure(&mut wtmp, &mut iv, &mut fx);
            }
            iv
        };
        // with the old challenges the identity holds: the attack is well aimed ...
        let mut vpre = keys.vpre.clone();
        r.steps(1);
        start(words);
        let aimed = sys.verify_with::<TapeFS>(&keys, &mut vpre, &mut w, &mut describe(), copy_proof(&p));
        finish();
        // ... so only the dependence of the challenges on the public input stops it
        let mut vpre = keys.vpre.clone();
        let (mut w, _) = sys.verifier_oracles(&a.inst);
        r.steps(1);
        let o = sys.verify_with::<TapeFS>(&keys, &mut vpre, &mut w, &mut describe(), copy_proof(&p));
        r.exec((n, bad, rot, seed, row, 1), format!("chosen: {} (same challenges: {})", o.kind(), aimed.kind()));
        r.check(o.rejected(), "chosen-instance", || format!("public input chosen after the challenges: {:?}", o));
    });
    ctx.require("chosen-instance", |s| s.outcomes.iter().any(|(k, n)| k.contains("same challenges: accept") && *n > 100), "the attack is not well aimed");
}

// ---------------------------------------------------------------------------------------------
// P10

/// First group of challenges that has to depend on a list.
fn stage_of(comm: bool, l: usize) -> usize {
    // groups: 0 theta, 1 beta gamma, 2 alpha, 3 xi, 4 x1 x2, 5 x3, 6 x4
    if comm {
        [0, 1, 2, 2, 3, 5][l]
    } else if l == 8 {
        6
    } else {
        4
    }
}
type Groups = Vec<Vec<u64>>;
fn groups(ev: &[Ev]) -> Groups {
    segments(ev).into_iter().map(|s| s.1).collect()
}

pub fn challenges(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let subj = subjects::<F62>(catalogue_many(), 2, if t { 4 } else { 2 });
    // -- prover and verifier see the same challenges
    ctx.sweep("agreement", "every system, assignment, generator seed: prover's and verifier's draws", &subj, |s, r| {
        let keys = match s.sys.keys() {
            Ok(k) => k,
            Err(_) => return,
        };
        start(vec![]);
        let p = match honest(&s.sys, &keys, &s.asg, s.seed) {
            Ok(p) => p,
            Err(_) => return,
        };
        let pg = finish();
        start(vec![]);
        let o = s.sys.verify::<TapeFS>(&keys, &s.asg.inst, copy_proof(&p));
        let vg = finish();
        r.steps(2);
        let (a, b) = (groups(&pg), groups(&vg));
        r.exec((&s.name, a.len()), format!("{} {} groups", o.kind(), a.len()));
        // the verifier may stop early when it rejects
        let k = b.len().min(a.len());
        r.check(a[..k] == b[..k] && (!o.accepted() || a.len() == b.len()), "different-challenges", || format!("{}: prover and verifier draw differently", s.name));
        let mut all: Vec<u64> = a.iter().flatten().copied().collect();
        let n = all.len();
        all.sort();
        all.dedup();
        r.check(all.len() == n, "repeated-draw", || format!("{}: a challenge is drawn twice", s.name));
        r.check(a.len() == 7, "stages", || format!("{}: challenges come in {} groups, not 7: {:?}", s.name, a.len(), a.iter().map(|g| g.len()).collect::<Vec<_>>()));
        let sizes: Vec<usize> = a.iter().map(|g| field_draws::<F62>(g).len()).collect();
        r.check(sizes == [1, 2, 1, 1, 2, 1, 1], "stages", || format!("{}: challenges per group {:?}", s.name, sizes));
    });
    // -- commitments, public input: every later group changes
    ctx.sweep("commitments", "every commitment x {one coefficient, blinding, exchanged with every other}: every later challenge group changes", &subj, |s, r| {
        let (keys, mut p, _) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let base = trace(s, &keys, copy_proof(&p), &s.asg.inst);
        let slots = comm_slots(&mut p);
        let mut edits: Vec<(String, usize, Proof62)> = vec![];
        for &(l, i) in &slots {
            for d in 0..s.sys.c.n {
                let mut q = copy_proof(&p);
                let c = &mut comms(&mut q, l)[i];
                c.poly = vadd(&c.poly, &unit(d));
                edits.push((format!("{}[{}]+X^{}", COMMS[l], i, d), stage_of(true, l), q));
            }
            let mut q = copy_proof(&p);
            let c = &mut comms(&mut q, l)[i];
            c.blind = vadd(&c.blind, &unit(0));
            edits.push((format!("{}[{}] blinding", COMMS[l], i), stage_of(true, l), q));
            for &(m, j) in &slots {
                if (m, j) > (l, i) {
                    let mut q = copy_proof(&p);
                    let (a, b) = (comms(&mut q, l)[i].clone(), comms(&mut q, m)[j].clone());
                    if a == b {
                        continue;
                    }
                    comms(&mut q, l)[i] = b;
                    comms(&mut q, m)[j] = a;
                    edits.push((format!("{}[{}] <-> {}[{}]", COMMS[l], i, COMMS[m], j), stage_of(true, l).min(stage_of(true, m)), q));
                }
            }
        }
        for (what, st, q) in edits {
            let g = trace(s, &keys, q, &s.asg.inst);
            depends(s, &base, &g, st, &what, r);
        }
    });
    ctx.sweep("instance", "every cell and every coefficient of the public input changed, cells exchanged, compensated: every challenge group changes", &subj, |s, r| {
        let (keys, p, _) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let base = trace(s, &keys, copy_proof(&p), &s.asg.inst);
        for (what, inst) in instances(&s.asg.inst) {
            let g = trace(s, &keys, copy_proof(&p), &inst);
            depends(s, &base, &g, 0, &what, r);
        }
        // on the prover's side too: the same witness with another public input
        for (what, inst) in instances(&s.asg.inst) {
            let a = Asg { w: s.asg.w.clone(), inst };
            start(vec![]);
            let _ = honest(&s.sys, &keys, &a, s.seed);
            let g = groups(&finish());
            if g.is_empty() {
                continue;
            }
            r.steps(1);
            let n = g.len().min(base.len());
            let same: Vec<usize> = (0..n).filter(|k| g[*k].iter().any(|w| base[*k].contains(w))).collect();
            r.exec((&s.name, &what, "prover"), format!("prover: {} groups, {} unchanged", n, same.len()));
            r.check(same.is_empty(), "prover-ignores-instance", || format!("{}: prover's challenge groups {:?} do not depend on {}", s.name, same, what));
        }
    });
    // -- long messages and many of them
    let big = subjects::<F62>(giants(t), 1, 1);
    ctx.range("large-messages", "long and many columns, products, lookups, quotient parts, batched values: cells and coefficients near powers of two and the ends", big.len() * 4, |i| big[i / 4].name.clone(), |i, r| {
        let s = &big[i / 4];
        let (keys, mut p, _) = match ready(s, r) {
            Some(x) => x,
            None => return r.fail("unready", &s.name),
        };
        let base = trace(s, &keys, copy_proof(&p), &s.asg.inst);
        if i % 4 == 0 {
            for (what, inst) in far_instances(&s.asg.inst) {
                let g = trace(s, &keys, copy_proof(&p), &inst);
                depends(s, &base, &g, 0, &what, r);
            }
            for k in 0..p.multiopen_proof.q_evals.len() {
                let mut q = copy_proof(&p);
                q.multiopen_proof.q_evals[k] += F62::one();
                let g = trace(s, &keys, q, &s.asg.inst);
                depends(s, &base, &g, 6, &format!("q_evals[{}]+1", k), r);
            }
        }
        for (j, (l, k)) in comm_slots(&mut p).into_iter().enumerate() {
            if j % 4 != i % 4 {
                continue;
            }
            for d in landmarks(s.sys.c.n) {
                let mut q = copy_proof(&p);
                let c = &mut comms(&mut q, l)[k];
                c.poly = vadd(&c.poly, &unit(d));
                let g = trace(s, &keys, q, &s.asg.inst);
                depends(s, &base, &g, stage_of(true, l), &format!("{}[{}]+X^{}", COMMS[l], k, d), r);
            }
            let mut q = copy_proof(&p);
            let c = &mut comms(&mut q, l)[k];
            c.blind = vadd(&c.blind, &unit(0));
            let g = trace(s, &keys, q, &s.asg.inst);
            depends(s, &base, &g, stage_of(true, l), &format!("{}[{}] blinding", COMMS[l], k), r);
        }
    });
    // -- q_evals: the last group
    ctx.sweep("batched-values", "every q evaluation changed, exchanged: the last challenge changes", &subj, |s, r| {
        let (keys, p, _) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let base = trace(s, &keys, copy_proof(&p), &s.asg.inst);
        let n = p.multiopen_proof.q_evals.len();
        for i in 0..n {
            for d in [1i64, -1, 77] {
                let mut q = copy_proof(&p);
                q.multiopen_proof.q_evals[i] += fe::<F62>(d);
                let g = trace(s, &keys, q, &s.asg.inst);
                depends(s, &base, &g, 6, &format!("q_evals[{}]{:+}", i, d), r);
            }
            for j in i + 1..n {
                let mut q = copy_proof(&p);
                q.multiopen_proof.q_evals.swap(i, j);
                let g = trace(s, &keys, q, &s.asg.inst);
                depends(s, &base, &g, 6, &format!("q_evals[{}] <-> q_evals[{}]", i, j), r);
            }
        }
    });
    claimed_values(ctx);
    pinned(ctx);
}

fn trace(s: &Subject<F62>, keys: &Keys<F62, T62>, p: Proof62, inst: &[Vec<i64>]) -> Groups {
    start(vec![]);
    let _ = s.sys.verify::<TapeFS>(keys, inst, p);
    groups(&finish())
}
/// Compares raw 64-bit words: equal words in two independent streams do not happen.
fn depends(s: &Subject<F62>, base: &Groups, g: &Groups, stage: usize, what: &str, r: &mut Rec) {
    r.steps(1);
    let n = g.len().min(base.len());
    let same: Vec<usize> = (stage..n).filter(|k| g[*k].iter().any(|w| base[*k].contains(w))).collect();
    let early = (0..stage.min(n)).all(|k| g[k] == base[k]);
    r.exec((&s.name, what), format!("stage {}: {} groups seen, {} unchanged, earlier equal {}", stage, n, same.len(), early));
    r.check(same.is_empty(), "challenge-ignores-message", || format!("{}: challenge groups {:?} do not depend on {}", s.name, same, what));
    r.check(n > stage, "challenge-not-seen", || format!("{}: {} stops before challenge group {}", s.name, what, stage));
}

/// Claimed values: the later challenges are only drawn when the quotient identity holds, so the
/// changed value is repaired by trying every value of a quotient chunk in a small field.
fn claimed_values(ctx: &mut Ctx) {
    type F = F193;
    let systems = catalogue();
    let seeds = if ctx.thorough { 6 } else { 2 };
    let cases: Vec<(usize, u64)> = (0..systems.len()).flat_map(|s| (0..seeds).map(move |i| (s, i))).collect();
    ctx.sweep("claimed-values", "11 systems over F193; every claimed value changed (and repaired by every value of a quotient chunk): the challenges of the batched opening change", &cases, |&(si, off), r| {
        let s = &systems[si];
        let sys = match Sys::<F, ToyPC<F>>::new(&s.c) {
            Ok(s) => s,
            Err(_) => return,
        };
        let keys = match sys.keys() {
            Ok(k) => k,
            Err(_) => return,
        };
        let found = (0..30).map(|i| i * 100 + off).find_map(|seed| {
            let p = honest(&sys, &keys, &s.asgs[0], seed).ok()?;
            start(vec![]);
            let o = sys.verify::<TapeFS>(&keys, &s.asgs[0].inst, copy_proof(&p));
            let g = groups(&finish());
            (o.accepted() && g.len() == 7).then(|| (p, g))
        });
        let (mut p, base) = match found {
            Some(x) => x,
            None => return r.exec((si, off), "no accepted proof"),
        };
        for (l, i) in eval_slots(&mut p) {
            if l == 8 {
                continue;
            }
            for d in [1i64, 5] {
                let mut seen = 0;
                let chunks = p.quotient_chunks_evals.len();
                let repair = if (l, i) == (7, 0) { 1 } else { 0 };
                if repair >= chunks {
                    continue;
                }
                for v in 0..193u64 {
                    let mut q = copy_proof(&p);
                    evals(&mut q, l)[i] += fe::<F>(d);
                    q.quotient_chunks_evals[repair] = F::from(v);
                    start(vec![]);
                    let o = sys.verify::<TapeFS>(&keys, &s.asgs[0].inst, q);
                    let g = groups(&finish());
                    r.steps(1);
                    if g.len() < 5 {
                        continue;
                    }
                    seen += 1;
                    let same: Vec<usize> = (4..g.len()).filter(|k| g[*k].iter().any(|w| base[*k].contains(w))).collect();
                    r.exec((si, off, l, i, d, v), format!("{}: {} groups, {} unchanged", o.kind(), g.len(), same.len()));
                    r.check(same.is_empty(), "challenge-ignores-claim", || format!("{}: challenge groups {:?} do not depend on {}[{}]{:+} and quotient_chunks_evals[{}]={}", s.name, same, EVALS[l], i, d, repair, v));
                }
                if seen == 0 {
                    r.exec((si, off, l, i, d, 999), "no repair");
                }
            }
        }
    });
    ctx.require("claimed-values", |s| s.outcomes.iter().any(|(k, n)| k.contains("7 groups, 0 unchanged") && *n > 100), "no repaired proof seen");
}

/// The challenges are used: with all but one word pinned to the accepted execution, a different
/// value of that word leads to rejection.
fn pinned(ctx: &mut Ctx) {
    let subj = subjects::<F62>(catalogue_many(), 1, 1);
    ctx.sweep("used", "every drawn word replaced by another one: the accepted proof is rejected", &subj, |s, r| {
        let (keys, p, words) = match ready(s, r) {
            Some(x) => x,
            None => return,
        };
        let c = &s.sys.c;
        for k in 0..words.len() {
            for d in [1u64, 2, 12345] {
                let mut w2 = words.clone();
                w2[k] = raw_word(F62::from(d));
                r.steps(1);
                let o = s.run(&keys, copy_proof(&p), &w2);
                r.exec((&s.name, k, d), format!("word {}: {}", k, o.kind()));
                // theta, beta, gamma matter only where there are lookups or copies; theta only for tuples
                let theta = c.lookups.iter().any(|l| l.exprs.len() > 1);
                let bg = c.perm.is_some() || !c.lookups.is_empty();
                let alpha = bg || c.gates.len() > 1;
                let matters = match k {
                    0 => theta,
                    1 | 2 => bg,
                    3 => alpha,
                    _ => true,
                };
                if matters && words.len() == 9 {
                    r.check(o.rejected(), "challenge-unused", || format!("{}: accepted although challenge {} is another", s.name, k));
                }
            }
        }
    });
}
