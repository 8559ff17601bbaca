//! P23: ill-formed set-ups.
use super::common::*;
use crate::systems::*;
use std::collections::BTreeSet;
use ark_ff::FftField;
use zero_over_k::data_structures::*;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, FixedOracle, InstanceOracle, Instantiable, WitnessOracle};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::commitment::KZG10;
use zero_over_k::verif_hooks::TurboPlonk;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

/// Columns that a constraint of the circuit refers to.
fn referenced(c: &Circuit) -> BTreeSet<(char, usize)> {
    let mut qs = vec![];
    for g in &c.gates { g.queries(&mut qs); }
    for l in &c.lookups {
        for e in &l.exprs { e.queries(&mut qs); }
    }
    let mut out: BTreeSet<(char, usize)> = qs.iter().map(|(c, _)| match c {
        Col::W(i) => ('w', *i),
        Col::I(i) => ('i', *i),
        Col::X(i) => ('x', *i),
    }).collect();
    for l in &c.lookups {
        for (t, _) in &l.tables { out.insert(('t', *t)); }
    }
    if let Some(p) = &c.perm {
        for k in 0..p.cols.len() { out.insert(('s', k)); }
        for k in &p.cols { out.insert(('w', *k)); }
    }
    out
}
fn by_label(c: &Circuit, at: (char, usize)) -> bool {
    // referred to through its name, not only through its position among the copied columns
    let mut c = c.clone();
    c.perm = None;
    referenced(&c).contains(&at)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Edit {
    Remove,
    /// a name that sorts after or before all others
    RenameLast,
    RenameFirst,
}
fn new_label(l: &str, e: Edit) -> String {
    if e == Edit::RenameLast { format!("zz{}", l) } else { format!("!{}", l) }
}
macro_rules! edited {
    ($list:expr, $i:expr, $e:expr, $mk:expr) => {{
        let mut v = $list;
        let o = v.remove($i);
        if $e != Edit::Remove {
            let mut n = $mk(&o, new_label(&o.get_label(), $e));
            for r in o.get_queried_rotations() { n.register_rotation(*r); }
            v.insert($i, n);
        }
        v
    }};
}
fn ewp(v: Vec<WitnessProverOracle<F62>>, cols: &[Vec<F62>], c: &Circuit, i: usize, e: Edit) -> Vec<WitnessProverOracle<F62>> {
    edited!(v, i, e, |o: &WitnessProverOracle<F62>, l| WitnessProverOracle::new(l, o.polynomial().clone(), &cols[i], permuted(c, i)))
}
fn eip(v: Vec<InstanceProverOracle<F62>>, cols: &[Vec<F62>], i: usize, e: Edit) -> Vec<InstanceProverOracle<F62>> {
    edited!(v, i, e, |o: &InstanceProverOracle<F62>, l| InstanceProverOracle::new(l, o.polynomial().clone(), &cols[i]))
}
fn exp(v: Vec<FixedProverOracle<F62>>, i: usize, e: Edit) -> Vec<FixedProverOracle<F62>> {
    edited!(v, i, e, |o: &FixedProverOracle<F62>, l| FixedProverOracle::new(l, o.polynomial().clone(), o.evals()))
}
fn ewv(v: Vec<WitnessVerifierOracle<F62, T62>>, c: &Circuit, i: usize, e: Edit) -> Vec<WitnessVerifierOracle<F62, T62>> {
    edited!(v, i, e, |_: &WitnessVerifierOracle<F62, T62>, l| WitnessVerifierOracle::new(l, permuted(c, i)))
}
fn eiv(v: Vec<InstanceVerifierOracle<F62>>, polys: &[DensePolynomial<F62>], i: usize, e: Edit) -> Vec<InstanceVerifierOracle<F62>> {
    edited!(v, i, e, |_: &InstanceVerifierOracle<F62>, l| InstanceVerifierOracle::new(l, polys[i].clone()))
}
fn exv(v: Vec<FixedVerifierOracle<F62, T62>>, i: usize, e: Edit) -> Vec<FixedVerifierOracle<F62, T62>> {
    edited!(v, i, e, |o: &FixedVerifierOracle<F62, T62>, l| FixedVerifierOracle::new(l, o.get_commitment().ok().cloned()))
}

/// Everything the three stages get, editable.
struct World {
    s: S62,
    a: Asg,
}
fn index_of<'a>(
    s: &S62,
    gates: &[&dyn VirtualOracle<F62>],
    lookups: Vec<&'a dyn LookupVirtualOracle<F62>>,
    w: &[impl WitnessOracle<F62>],
    i: &[impl InstanceOracle<F62>],
    x: &[impl FixedOracle<F62>],
) -> (Out, Option<VerifierKey<'a, F62, T62>>) {
    match guarded(|| Indexer::<F62, T62>::index(&s.pcvk, gates, lookups, w, i, x, s.domain, &s.zh, s.perm_info(), s.c.u)) {
        Err(p) => (Out::Panic(p), None),
        Ok(Err(e)) => (Out::Reject(format!("{:?}", e)), None),
        Ok(Ok(k)) => (Out::Accept, Some(k)),
    }
}
fn lookup_refs(s: &S62) -> Vec<&dyn LookupVirtualOracle<F62>> {
    s.lookups.iter().map(|l| l as &dyn LookupVirtualOracle<F62>).collect()
}
/// An ill-formed set-up has to give an error value.
fn refused(o: &Out, name: &str, what: &str, stage: &str, r: &mut Rec) {
    r.steps(1);
    r.exec((name, what, stage), format!("{}: {}", stage, o.kind()));
    r.check(!o.accepted(), "accepted", || format!("{}: {} at {}: accepted", name, what, stage));
    r.check(!o.panicked(), "panics", || format!("{}: {} at {}: {:?}", name, what, stage, o));
}
fn prove_out(s: &S62, k: &Keys<F62, T62>, w: &mut [WitnessProverOracle<F62>], i: &mut [InstanceProverOracle<F62>], gates: &[&dyn VirtualOracle<F62>]) -> (Out, Option<Proof62>) {
    match guarded(|| TurboPlonk::<F62, T62, TapeFS>::prove(&k.pk, &k.pre, w, i, gates, s.c.n, &mut ZkRng::new(1))) {
        Err(p) => (Out::Panic(p), None),
        Ok(Err(e)) => (Out::Reject(format!("{:?}", e)), None),
        Ok(Ok(p)) => (Out::Accept, Some(p)),
    }
}
fn verify_out(s: &S62, k: &Keys<F62, T62>, vpre: &mut VerifierPreprocessedInput<F62, T62>, w: &mut [WitnessVerifierOracle<F62, T62>], i: &mut [InstanceVerifierOracle<F62>], gates: &[&dyn VirtualOracle<F62>], p: Proof62) -> Out {
    match guarded(|| TurboPlonk::<F62, T62, TapeFS>::verify(&k.pk.vk, vpre, p, w, i, gates, s.c.n, &s.zh)) {
        Err(p) => Out::Panic(p),
        Ok(Err(e)) => Out::Reject(short(&format!("{:?}", e))),
        Ok(Ok(())) => Out::Accept,
    }
}

/// One column is missing or has another name, at one stage.
fn missing_columns(name: &str, x: &World, r: &mut Rec) {
    let s = &x.s;
    let c = &s.c;
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let honest = match honest(s, &keys, &x.a, 1) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
    let gates = s.gate_refs();
    let wcols: Vec<Vec<F62>> = x.a.w.iter().map(|v| field_col(v)).collect();
    let icols: Vec<Vec<F62>> = x.a.inst.iter().map(|v| field_col(v)).collect();
    let ipolys: Vec<DensePolynomial<F62>> = icols.iter().map(|v| interpolate(&s.domain, v)).collect();
    for at in referenced(c) {
        let (kind, i) = at;
        for e in [Edit::Remove, Edit::RenameLast, Edit::RenameFirst] {
            if e != Edit::Remove && !by_label(c, at) { continue; }
            let what = format!("{:?} {}{}", e, kind, i);
            // key preparation: knows the columns of gates and lookup inputs
            let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
            if by_label(c, at) && kind != 't' {
                let mut fx = s.fixed.clone();
                let o = match kind {
                    'w' => { wv = ewv(wv, c, i, e); index_of(s, &gates, lookup_refs(s), &wv, &iv, &fx).0 }
                    'i' => { iv = eiv(iv, &ipolys, i, e); index_of(s, &gates, lookup_refs(s), &wv, &iv, &fx).0 }
                    _ => { fx = exp(fx, i, e); index_of(s, &gates, lookup_refs(s), &wv, &iv, &fx).0 }
                };
                refused(&o, name, &what, "index", r);
            }
            // prover
            let (mut wp, mut ip) = s.prover_oracles(&x.a);
            let mut fixed = s.fixed.clone();
            let mut sigma = s.sigma.clone();
            let mut tables = s.tables.clone();
            match kind {
                'w' => wp = ewp(wp, &wcols, c, i, e),
                'i' => ip = eip(ip, &icols, i, e),
                'x' => fixed = exp(fixed, i, e),
                's' => sigma = exp(sigma, i, e),
                _ => tables = exp(tables, i, e),
            }
            let k2 = Keys {
                pk: ProverKey::from_ck_and_vk(&s.ck, &keys.pk.vk),
                pre: ProverPreprocessedInput::new(&fixed, &sigma, &tables, &s.q_blind, &keys.pk.vk.index_info),
                vpre: keys.vpre.clone(),
            };
            let (o, p) = prove_out(s, &k2, &mut wp, &mut ip, &gates);
            match p {
                None => refused(&o, name, &what, "prove", r),
                // a prover that gets by without the column still does not convince anyone
                Some(p) => {
                    let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
                    refused(&verify_out(s, &keys, &mut keys.vpre.clone(), &mut wv, &mut iv, &gates, p), name, &what, "prove, then verify", r);
                }
            }
            // verifier
            let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
            let mut vpre = keys.vpre.clone();
            match kind {
                'w' => wv = ewv(wv, c, i, e),
                'i' => iv = eiv(iv, &ipolys, i, e),
                'x' => vpre.fixed_oracles = exv(vpre.fixed_oracles, i, e),
                's' => vpre.permutation_oracles = exv(vpre.permutation_oracles, i, e),
                _ => vpre.table_oracles = exv(vpre.table_oracles, i, e),
            }
            let o = verify_out(s, &keys, &mut vpre, &mut wv, &mut iv, &gates, copy_proof(&honest));
            refused(&o, name, &what, "verify", r);
            // a proof whose lists are cut to the shorter set-up
            for l in 0..9 {
                for d in 1..=2usize {
                    let mut p = copy_proof(&honest);
                    let v = eval_list(&mut p, l);
                    if v.len() < d { continue; }
                    v.truncate(v.len() - d);
                    if kind == 'w' && e == Edit::Remove { p.witness_commitments.pop(); }
                    let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
                    let mut vpre = keys.vpre.clone();
                    match kind {
                        'w' => wv = ewv(wv, c, i, e),
                        'i' => iv = eiv(iv, &ipolys, i, e),
                        'x' => vpre.fixed_oracles = exv(vpre.fixed_oracles, i, e),
                        's' => vpre.permutation_oracles = exv(vpre.permutation_oracles, i, e),
                        _ => vpre.table_oracles = exv(vpre.table_oracles, i, e),
                    }
                    let o = verify_out(s, &keys, &mut vpre, &mut wv, &mut iv, &gates, p);
                    refused(&o, name, &format!("{}, {} shorter by {}", what, EVALS[l], d), "verify", r);
                }
            }
        }
    }
}
/// Numbers of copied columns, permutation columns and coset shifts that do not fit together.
fn copy_counts(name: &str, x: &World, r: &mut Rec) {
    let s = &x.s;
    let c = &s.c;
    let gates = s.gate_refs();
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let honest = match honest(s, &keys, &x.a, 1) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
    let have = s.deltas.len();
    // shifts in the keys, permutation columns, columns marked as copied
    for nd in 0..=have + 2 {
        for ns in 0..=have + 2 {
            for mask in 0..1usize << c.nw.min(5) {
                let copied: Vec<bool> = (0..c.nw).map(|i| mask >> i & 1 == 1).collect();
                let nc = copied.iter().filter(|b| **b).count();
                if nd == ns && ns == nc { continue; }
                let what = format!("{} shifts, {} permutation columns, columns {:?} marked as copied", nd, ns, copied);
                let g = F62::multiplicative_generator();
                let info = PermutationInfo { u: c.u, deltas: (0..nd).map(|i| g.pow([i as u64])).collect() };
                let (w0, i0) = s.verifier_oracles(&x.a.inst);
                let vk = match guarded(|| Indexer::<F62, T62>::index(&s.pcvk, &gates, lookup_refs(s), &w0, &i0, &s.fixed, s.domain, &s.zh, info, c.u)) {
                    Err(p) => { refused(&Out::Panic(p), name, &what, "index", r); continue; }
                    Ok(Err(e)) => { refused(&Out::Reject(format!("{:?}", e)), name, &what, "index", r); continue; }
                    Ok(Ok(vk)) => vk,
                };
                let sig = |k: usize| -> FixedProverOracle<F62> {
                    if k < s.sigma.len() { return s.sigma[k].clone(); }
                    let v: Vec<F62> = (0..c.n).map(|r| g.pow([k as u64]) * s.domain.element(r)).collect();
                    FixedProverOracle::new(format!("sx{}", k), interpolate(&s.domain, &v), &v)
                };
                let sigma: Vec<_> = (0..ns).map(sig).collect();
                let k2 = Keys {
                    pk: ProverKey::from_ck_and_vk(&s.ck, &vk),
                    pre: ProverPreprocessedInput::new(&s.fixed, &sigma, &s.tables, &s.q_blind, &vk.index_info),
                    vpre: VerifierPreprocessedInput::new(s.commit_fixed(&s.fixed), s.commit_fixed(&s.tables), s.commit_fixed(&sigma), s.commit_fixed(std::slice::from_ref(&s.q_blind)).pop().unwrap()),
                };
                let (wp, mut ip) = s.prover_oracles(&x.a);
                let mut wp: Vec<_> = wp.iter().enumerate().map(|(i, o)| {
                    let v: Vec<F62> = field_col(&x.a.w[i]);
                    let mut n = WitnessProverOracle::new(o.get_label(), o.polynomial().clone(), &v, copied[i]);
                    for r in o.get_queried_rotations() { n.register_rotation(*r); }
                    n
                }).collect();
                let mk = || -> (Vec<WitnessVerifierOracle<F62, T62>>, Vec<InstanceVerifierOracle<F62>>) {
                    let (wv, iv) = s.verifier_oracles(&x.a.inst);
                    let wv = wv.iter().enumerate().map(|(i, o)| {
                        let mut n = WitnessVerifierOracle::new(o.get_label(), copied[i]);
                        for r in o.get_queried_rotations() { n.register_rotation(*r); }
                        n
                    }).collect();
                    (wv, iv)
                };
                let (mut wv, mut iv) = mk();
                let (o, p) = prove_out(s, &k2, &mut wp, &mut ip, &gates);
                match p {
                    None => refused(&o, name, &what, "prove", r),
                    Some(p) => refused(&verify_out(s, &k2, &mut k2.vpre.clone(), &mut wv, &mut iv, &gates, p), name, &what, "prove, then verify", r),
                }
                let (mut wv, mut iv) = mk();
                let mut p = copy_proof(&honest);
                refused(&verify_out(s, &k2, &mut k2.vpre.clone(), &mut wv, &mut iv, &gates, copy_proof(&p)), name, &what, "verify", r);
                // lists cut or filled to what this verifier asks for
                let zs = guarded(|| vk.index_info.permutation_argument.number_of_z_polys(nc)).unwrap_or(nc);
                p.permutation_oracle_evals.resize(ns, F62::one());
                p.z_commitments.resize(zs, Comm { poly: vec![F62::one()], blind: vec![] });
                p.z_evals.resize((3 * zs).saturating_sub(1), F62::one());
                let (mut wv, mut iv) = mk();
                refused(&verify_out(s, &k2, &mut k2.vpre.clone(), &mut wv, &mut iv, &gates, p), name, &what, "verify, fitted proof", r);
            }
        }
    }
}
/// One constraint was never configured, at one stage.
fn unconfigured(name: &str, x: &World, r: &mut Rec) {
    let s = &x.s;
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let honest = match honest(s, &keys, &x.a, 1) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
    for g in 0..s.gates.len() {
        let raw: GenericVO<F62> = gate_vo(&s.c.gates[g]);
        let mut gates = s.gate_refs();
        gates[g] = &raw;
        let what = format!("gate {} not configured", g);
        let (wv, iv) = s.verifier_oracles(&x.a.inst);
        refused(&index_of(s, &gates, lookup_refs(s), &wv, &iv, &s.fixed).0, name, &what, "index", r);
        let (mut wp, mut ip) = s.prover_oracles(&x.a);
        refused(&prove_out(s, &keys, &mut wp, &mut ip, &gates).0, name, &what, "prove", r);
        let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
        refused(&verify_out(s, &keys, &mut keys.vpre.clone(), &mut wv, &mut iv, &gates, copy_proof(&honest)), name, &what, "verify", r);
    }
    for l in 0..s.lookups.len() {
        let raw: GenericLookupVO<F62> = lookup_vo(&s.c.lookups[l]);
        let what = format!("lookup {} not configured", l);
        let mut ls = lookup_refs(s);
        ls[l] = &raw;
        let (wv, iv) = s.verifier_oracles(&x.a.inst);
        refused(&index_of(s, &s.gate_refs(), ls.clone(), &wv, &iv, &s.fixed).0, name, &what, "index", r);
        // keys made by hand around it
        let mut vk = keys.pk.vk.clone();
        vk.index_info.lookups[l] = &raw;
        let k2 = Keys { pk: ProverKey { vk, committer_key: s.ck.clone() }, pre: ProverPreprocessedInput::new(&s.fixed, &s.sigma, &s.tables, &s.q_blind, &keys.pk.vk.index_info), vpre: keys.vpre.clone() };
        let (mut wp, mut ip) = s.prover_oracles(&x.a);
        refused(&prove_out(s, &k2, &mut wp, &mut ip, &s.gate_refs()).0, name, &what, "prove", r);
        let (mut wv, mut iv) = s.verifier_oracles(&x.a.inst);
        refused(&verify_out(s, &k2, &mut k2.vpre.clone(), &mut wv, &mut iv, &s.gate_refs(), copy_proof(&honest)), name, &what, "verify", r);
    }
}

/// Two offsets of one column that denote the same point.
fn repeated(n: usize, kind: usize, o1: i32, o2: i32, place: usize, r: &mut Rec) {
    let mut c = Circuit::new(n, 3, 1);
    c.fixed = vec![(0..n).map(|i| filler(4, i)).collect()];
    let q = |o: i32| match kind { 0 => wr(0, o), 1 => pir(0, o), _ => xr(0, o) };
    let v: Vec<i64> = (0..n).map(|i| filler(3, i)).collect();
    let mut a = Asg { w: vec![v.clone(), vec![0; n], (0..n).map(|i| filler(8, i)).collect()], inst: vec![(0..n).map(|i| filler(5, i)).collect()] };
    let same = (o1 - o2).rem_euclid(n as i32) == 0 && o1 != o2;
    if place == 0 {
        c.gates = vec![(q(o1) - q(o2)) * w(2) * w(2) + w(1)];
        for row in 0..n {
            let d: F62 = eval(&((q(o1) - q(o2)) * w(2) * w(2)), &c, &a, row);
            // signed representative, small by construction
            let pos = { use ark_ff::PrimeField; d.into_repr().0[0] };
            let neg = { use ark_ff::PrimeField; (-d).into_repr().0[0] };
            a.w[1][row] = if pos < neg { -(pos as i64) } else { neg as i64 };
        }
    } else {
        // one in a gate, the other in a lookup
        c.u = n - 2;
        c.gates = vec![(q(o1) - q(o1)) * w(2) * w(2) + w(1)];
        c.lookups = vec![Lookup { exprs: vec![q(o2)], tables: vec![(0, 0)] }];
        c.tables = vec![(0..n).map(|row| { let d: F62 = eval(&q(o2), &c, &a, row); use ark_ff::PrimeField; d.into_repr().0[0] as i64 }).collect()];
    }
    let (f, k) = full_run::<F62, T62, TapeFS>(&c, &a, 1);
    r.steps(k);
    r.exec((n, kind, o1, o2, place), f.key());
    r.check(!f.out.panicked(), "panics", || format!("{:?}", f));
    if same && kind != 1 {
        // claimed: an error value (a public column is evaluated by the verifier itself and never opened)
        r.check(f.out.rejected(), "accepted", || format!("{:?} for offsets {} and {}", f, o1, o2));
    }
    if !same {
        r.check(f.accepted(), "distinct-offsets-refused", || format!("{:?} for offsets {} and {}", f, o1, o2));
    }
}

/// A lookup whose table columns are of another kind, or are too few or too many.
fn table_kind(kinds: &[usize], nexpr: usize, r: &mut Rec) {
    let n = 8;
    let s = lookup8(true);
    let sys = match S62::new(&s.c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let ty = |k: usize| [OracleType::Fixed, OracleType::Witness, OracleType::Instance][k].clone();
    let exprs: Vec<E> = (0..nexpr).map(|_| w(0)).collect();
    let mut l = GenericLookupVO::<F62>::init((
        exprs.iter().map(vexpr).collect(),
        vec![vquery(Col::W(0), 0)],
        kinds.iter().map(|k| VirtualQuery::new(0, rotation(0), ty(*k))).collect(),
    ));
    let (mut wv, mut iv) = sys.verifier_oracles(&s.asgs[0].inst);
    let (mut fx, mut tb) = (sys.fixed.clone(), sys.tables.clone());
    let out = guarded(|| l.configure(&mut wv, &mut iv, &mut fx, &mut tb));
    let what = format!("tables of kinds {:?} for {} inputs", kinds, nexpr);
    r.steps(1);
    let foreign = kinds.iter().any(|k| *k > 0);
    match out {
        Err(p) => { r.exec(&what, "configure: panic"); r.fail("panics", format!("{}: {}", what, p)) }
        Ok(Err(_)) => {
            r.exec(&what, "configure: reject");
            r.check(foreign || kinds.len() != nexpr, "refused", || what.clone());
            // and using it all the same is refused as well
            let (w2, i2) = sys.verifier_oracles(&s.asgs[0].inst);
            refused(&index_of(&sys, &sys.gate_refs(), vec![&l], &w2, &i2, &sys.fixed).0, "lookup", &what, "index", r);
        }
        Ok(Ok(())) => {
            r.check(!foreign, "accepted", || format!("{}: configured", what));
            // the rest of the protocol
            let (w2, i2) = sys.verifier_oracles(&s.asgs[0].inst);
            let (o, vk) = index_of(&sys, &sys.gate_refs(), vec![&l], &w2, &i2, &sys.fixed);
            let vk = match vk { None => return refused(&o, "lookup", &what, "index", r), Some(vk) => vk };
            let keys = Keys {
                pk: ProverKey::from_ck_and_vk(&sys.ck, &vk),
                pre: ProverPreprocessedInput::new(&sys.fixed, &sys.sigma, &tb, &sys.q_blind, &vk.index_info),
                vpre: VerifierPreprocessedInput::new(sys.commit_fixed(&sys.fixed), sys.commit_fixed(&tb), vec![], sys.commit_fixed(std::slice::from_ref(&sys.q_blind)).pop().unwrap()),
            };
            // w0 holds table values on the usable rows, so equal numbers are satisfied
            let a = &s.asgs[0];
            let (mut wp, mut ip) = sys.prover_oracles(a);
            let (o, p) = prove_out(&sys, &keys, &mut wp, &mut ip, &sys.gate_refs());
            if kinds.len() != nexpr {
                match p {
                    None => refused(&o, "lookup", &what, "prove", r),
                    Some(p) => {
                        let (mut wv, mut iv) = sys.verifier_oracles(&a.inst);
                        refused(&verify_out(&sys, &keys, &mut keys.vpre.clone(), &mut wv, &mut iv, &sys.gate_refs(), p), "lookup", &what, "prove, then verify", r);
                    }
                }
                // the verifier on its own: an honest proof of the well-formed lookup
                let k0 = match sys.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
                if let Ok(mut p) = honest(&sys, &k0, a, 1) {
                    p.lookup_commitments.truncate(2);
                    p.lookup_evals.truncate(3);
                    p.lookup_z_commitments.truncate(1);
                    p.lookup_z_evals.truncate(2);
                    let (mut wv, mut iv) = sys.verifier_oracles(&a.inst);
                    refused(&verify_out(&sys, &keys, &mut keys.vpre.clone(), &mut wv, &mut iv, &sys.gate_refs(), p), "lookup", &what, "verify", r);
                }
            } else {
                r.exec(&what, format!("well-formed: {}", o.kind()));
                r.check(o.accepted(), "refused", || format!("{}: {:?}", what, o));
            }
            let _ = n;
        }
    }
}
/// Commitment keys that are too small.
fn small_key<F: PrimeField, PC: HomomorphicCommitment<F>>(name: &str, c: &Circuit, a: &Asg, degree: usize, r: &mut Rec) {
    let what = format!("key of degree {} for {} rows", degree, c.n);
    let t = Tweak { max_degree: Some(degree), ..Default::default() };
    r.steps(1);
    let s = match guarded(|| Sys::<F, PC>::with(c, &t)) {
        Err(p) => return r.fail("panics", format!("{}: {}: set-up: {}", name, what, p)),
        Ok(Err(_)) => return r.exec((name, &what), "set-up: reject"),
        Ok(Ok(s)) => s,
    };
    let vk = match s.index() {
        Err(o) => {
            r.exec((name, &what), format!("index: {}", o.kind()));
            return r.check(o.rejected(), "panics", || format!("{}: {}: {:?}", name, what, o));
        }
        Ok(k) => k,
    };
    // verifier's side is prepared with a full key, the prover has the small one
    let full = match Sys::<F, PC>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let mut keys = match full.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    keys.pk = ProverKey::from_ck_and_vk(&s.ck, &vk);
    let (mut wp, mut ip) = s.prover_oracles(a);
    match s.prove_with::<TapeFS, _>(&keys, &mut wp, &mut ip, &mut ZkRng::new(1)) {
        Err(o) => {
            r.exec((name, &what), format!("prove: {}", o.kind()));
            r.check(o.rejected(), "panics", || format!("{}: {}: prove {:?}", name, what, o));
        }
        Ok(_) => {
            r.exec((name, &what), "prove: accept");
            r.fail("accepted", format!("{}: {}: a proof was made", name, what));
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut worlds = vec![];
    for s in catalogue_wide() {
        for (k, a) in s.asgs.iter().enumerate() {
            worlds.push((format!("{}/{}", s.name, k), s.c.clone(), a.clone()));
        }
    }
    ctx.sweep(
        "missing-columns",
        "16 systems x 2 assignments: each column that a constraint refers to removed or renamed (sorting first or last) in key preparation, for the prover, or for the verifier; there also with every list of the proof one or two shorter",
        &worlds,
        |(name, c, a), r| {
            let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            missing_columns(name, &World { s, a: a.clone() }, r)
        },
    );
    ctx.sweep(
        "copy-counts",
        "16 systems x 2 assignments: all numbers of coset shifts and permutation columns up to two more than needed x all sets of columns marked as copied, where the three numbers disagree; prover, verifier with its proof, verifier with an honest proof cut to size",
        &worlds,
        |(name, c, a), r| {
            let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            copy_counts(name, &World { s, a: a.clone() }, r)
        },
    );
    ctx.sweep(
        "not-configured",
        "16 systems x 2 assignments: each gate or lookup replaced by one that was never configured, in key preparation, for the prover, for the verifier",
        &worlds,
        |(name, c, a), r| {
            let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            unconfigured(name, &World { s, a: a.clone() }, r)
        },
    );
    let mut cases = vec![];
    for n in if t { vec![2usize, 4, 8] } else { vec![4, 8] } {
        let m = n as i32;
        for kind in 0..3 {
            for place in 0..2 {
                for o1 in -m - 1..=m + 1 {
                    for o2 in -m - 1..=m + 1 {
                        if o1 != o2 { cases.push((n, kind, o1, o2, place)); }
                    }
                }
            }
        }
    }
    ctx.sweep(
        "repeated-offsets",
        "n in {4,8}: all pairs of offsets from -(n+1)..n+1 on one witness, public or fixed column, in one gate or one in a gate and one in a lookup",
        &cases,
        |&(n, kind, o1, o2, place), r| repeated(n, kind, o1, o2, place, r),
    );
    let mut cases = vec![];
    for len in 0..=3u32 {
        for m in 0..3usize.pow(len) {
            let kinds: Vec<usize> = (0..len).map(|i| m / 3usize.pow(i) % 3).collect();
            for nexpr in 0..=3 {
                cases.push((kinds.clone(), nexpr));
            }
        }
    }
    ctx.sweep("table-kinds", "all lists of up to 3 table columns of the three kinds against 0..3 inputs", &cases, |(k, n), r| table_kind(k, *n, r));
    let mut cases = vec![];
    for (name, c, a) in &worlds {
        for d in 0..c.n - 1 {
            cases.push((name.clone(), c.clone(), a.clone(), d));
        }
    }
    ctx.sweep("small-keys", "16 systems x 2 assignments: commitment keys of every degree below the number of rows, ideal commitment", &cases, |(n, c, a, d), r| small_key::<F62, T62>(n, c, a, *d, r));
    let cases: Vec<_> = cases.into_iter().filter(|c| t || c.0.ends_with("/0")).collect();
    ctx.sweep("small-keys-kzg", "as above with KZG10 over BLS12-381", &cases, |(n, c, a, d), r| small_key::<ark_bls12_381::Fr, KZG10<ark_bls12_381::Bls12_381>>(n, c, a, *d, r));
}
