//! P22: no state that changes later results.
use super::common::*;
use crate::systems::*;

type WV = Vec<zero_over_k::oracles::witness::WitnessVerifierOracle<F62, T62>>;
type IV = Vec<zero_over_k::oracles::instance::InstanceVerifierOracle<F62>>;
type WP = Vec<zero_over_k::oracles::witness::WitnessProverOracle<F62>>;
type IP = Vec<zero_over_k::oracles::instance::InstanceProverOracle<F62>>;
type VPre = zero_over_k::data_structures::VerifierPreprocessedInput<F62, T62>;

/// Objects that a caller may keep between calls.
struct Kept {
    w: WV,
    /// one description of the public columns per statement
    i: Vec<IV>,
    vpre: VPre,
    /// prover's columns per statement
    pw: Vec<WP>,
    pi: Vec<IP>,
}
struct World<'a> {
    s: &'a S62,
    keys: Keys<'a, F62, T62>,
    asgs: Vec<Asg>,
    proofs: Vec<(String, Proof62)>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// verify a proof against a statement
    Verify(usize, usize),
    /// prove a statement with a generator
    Prove(usize, u64),
    /// key preparation from the kept descriptions
    Index(usize),
}
fn kept(s: &S62, k: &Keys<F62, T62>, asgs: &[Asg]) -> Kept {
    let (w, _) = s.verifier_oracles(&asgs[0].inst);
    let mut pw = vec![];
    let mut pi = vec![];
    for a in asgs.iter().chain(std::iter::once(&bad(asgs))) {
        let (x, y) = s.prover_oracles(a);
        pw.push(x);
        pi.push(y);
    }
    Kept { w, i: asgs.iter().map(|a| s.verifier_oracles(&a.inst).1).collect(), vpre: k.vpre.clone(), pw, pi }
}
/// An assignment that satisfies nothing; it comes after the statements.
fn bad(asgs: &[Asg]) -> Asg {
    let mut a = asgs[0].clone();
    for (k, c) in a.w.iter_mut().enumerate() {
        for (r, v) in c.iter_mut().enumerate() {
            *v += 1000 + (17 * k + r) as i64;
        }
    }
    a
}
/// What an operation shows to the caller.
fn act(x: &World, k: &mut Kept, op: Op) -> String {
    match op {
        Op::Verify(p, st) => format!("{}", x.s.verify_with::<TapeFS>(&x.keys, &mut k.vpre, &mut k.w, &mut k.i[st], copy_proof(&x.proofs[p].1)).kind()),
        Op::Prove(st, seed) => match x.s.prove_with::<TapeFS, _>(&x.keys, &mut k.pw[st], &mut k.pi[st], &mut ZkRng::new(seed)) {
            Ok(p) => format!("proof {:x}", hash(&bytes(&p))),
            Err(o) => o.kind().into(),
        },
        Op::Index(st) => {
            let r = guarded(|| {
                zero_over_k::indexer::Indexer::<F62, T62>::index(
                    &x.s.pcvk,
                    &x.s.gate_refs(),
                    x.s.lookups.iter().map(|l| l as &dyn zero_over_k::vo::LookupVirtualOracle<F62>).collect(),
                    &k.w,
                    &k.i[st],
                    &x.s.fixed,
                    x.s.domain,
                    &x.s.zh,
                    x.s.perm_info(),
                    x.s.c.u,
                )
            });
            match r {
                Ok(Ok(vk)) => format!("keys {} {:x} {}", vk.index_info.extended_coset_domain.size(), hash(&vk.zh_inverses_over_coset), vk.index_info.usable_rows),
                Ok(Err(_)) => "reject".into(),
                Err(_) => "panic".into(),
            }
        }
    }
}
/// Good proofs of two statements and altered ones: one change per list of the proof.
fn proofs(s: &S62, k: &Keys<F62, T62>, asgs: &[Asg], every: bool) -> Result<Vec<(String, Proof62)>, String> {
    let mut out = vec![];
    for (i, a) in asgs.iter().enumerate() {
        for seed in 0..2 {
            out.push((format!("statement {} seed {}", i, seed), honest(s, k, a, seed)?));
        }
    }
    let mut base = copy_proof(&out[0].1);
    let es = eval_slots(&mut base);
    let mut last = None;
    for (l, i) in es {
        // first element of every list in any case
        if !every && last == Some(l) { continue; }
        last = Some(l);
        let mut p = copy_proof(&base);
        evals(&mut p, l)[i] += F62::one();
        out.push((format!("{}[{}]+1", EVALS[l], i), p));
    }
    last = None;
    for (l, i) in comm_slots(&mut base) {
        if !every && last == Some(l) { continue; }
        last = Some(l);
        let mut p = copy_proof(&base);
        comms(&mut p, l)[i].poly = vadd(&comms(&mut p, l)[i].poly.clone(), &[F62::one()]);
        out.push((format!("{}[{}]+1", COMMS[l], i), p));
    }
    let mut p = copy_proof(&base);
    p.multiopen_proof.opening_proof.w = vadd(&p.multiopen_proof.opening_proof.w, &[F62::one()]);
    out.push(("opening+1".into(), p));
    for l in 0..9 {
        let mut p = copy_proof(&base);
        if eval_list(&mut p, l).pop().is_some() {
            out.push((format!("{} shorter", EVALS[l]), p));
        }
    }
    for l in 0..5 {
        let mut p = copy_proof(&base);
        if comm_list(&mut p, l).pop().is_some() {
            out.push((format!("{} shorter", COMMS[l]), p));
        }
    }
    Ok(out)
}

fn histories(r: &mut Rec, name: &str, c: &Circuit, asgs: &[Asg], first: usize, parts: usize, depth: usize, every: bool) {
    let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let proofs = match proofs(&s, &keys, asgs, every) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
    let x = World { s: &s, keys, asgs: asgs.to_vec(), proofs };
    let mut ops = vec![];
    for p in 0..x.proofs.len() {
        ops.push(Op::Verify(p, 0));
    }
    for st in 1..x.asgs.len() {
        // every good proof and a few altered ones against the other statement
        for p in 0..(2 * x.asgs.len() + 1).min(x.proofs.len()) {
            ops.push(Op::Verify(p, st));
        }
    }
    for st in 0..x.asgs.len() {
        ops.push(Op::Prove(st, 0));
        ops.push(Op::Prove(st, 7));
        ops.push(Op::Index(st));
    }
    ops.push(Op::Prove(x.asgs.len(), 0));
    // what each operation does on fresh objects
    let fresh: Vec<String> = ops.iter().map(|o| act(&x, &mut kept(&s, &x.keys, &x.asgs), *o)).collect();
    // ... and that this is what it should do
    for (o, f) in ops.iter().zip(&fresh) {
        let want = match o {
            Op::Verify(p, st) => {
                let good = *p < 2 * x.asgs.len() && x.asgs[*p / 2].inst == x.asgs[*st].inst;
                if good { "accept" } else { "reject" }
            }
            Op::Prove(st, _) if *st == x.asgs.len() => "",
            Op::Prove(..) => "proof",
            Op::Index(_) => "keys",
        };
        r.check(f.starts_with(want), "fresh", || format!("{}: {:?} gives {} on fresh objects", name, o, f));
    }
    let k = ops.len();
    let total = k.pow(depth as u32 - 1);
    for (a, op) in ops.iter().enumerate() {
        if a % parts != first { continue; }
        for m in 0..total {
            let mut kp = kept(&s, &x.keys, &x.asgs);
            let mut hist = vec![*op];
            let mut m2 = m;
            for _ in 1..depth {
                hist.push(ops[m2 % k]);
                m2 /= k;
            }
            for (i, o) in hist.iter().enumerate() {
                let got = act(&x, &mut kp, *o);
                r.steps(1);
                let j = ops.iter().position(|y| y == o).unwrap();
                // every prefix is itself a history of the enumeration
                r.check(got == fresh[j], "history-matters", || {
                    let h: Vec<String> = hist[..=i].iter().map(|o| match o {
                        Op::Verify(p, st) => format!("verify {} for statement {}", x.proofs[*p].0, st),
                        o => format!("{:?}", o),
                    }).collect();
                    format!("{}: {} instead of {} at the end of {:?}", name, got, fresh[j], h)
                });
            }
            r.exec((name, first, &hist), "history");
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Shared {
    /// prove a system; true: with preprocessed columns taken from the last such proof
    Prove(usize, bool),
    /// verify for one system the proof made for another
    Verify(usize, usize),
}
/// Systems over the same columns and offsets whose quotients live on domains of different sizes.
fn relatives(c: &Circuit) -> Vec<Circuit> {
    let mut q = vec![];
    c.gates[0].queries(&mut q);
    let factor = E::Q(q[0].0, q[0].1);
    [0usize, 1, 4, 9].iter().map(|k| {
        let mut d = c.clone();
        for _ in 0..*k {
            d.gates[0] = d.gates[0].clone() * factor.clone();
        }
        d
    }).collect()
}
/// Column descriptions shared by several systems.
fn shared(r: &mut Rec, name: &str, c: &Circuit, a: &Asg, first: usize, parts: usize, depth: usize) {
    let mut sys = vec![];
    for d in relatives(c) {
        match S62::new(&d) { Ok(s) => sys.push(s), Err(e) => return r.fail("setup", e) }
    }
    let mut keys = vec![];
    for s in &sys {
        match s.keys() { Ok(k) => keys.push(k), Err(o) => return r.fail("keys", format!("{:?}", o)) }
    }
    let sizes: std::collections::BTreeSet<usize> = keys.iter().map(|k| k.pk.vk.index_info.extended_coset_domain.size()).collect();
    r.exec((name, first, "sizes"), format!("{} sizes of the quotient domain", sizes.len()));
    let mut proofs = vec![];
    for (s, k) in sys.iter().zip(&keys) {
        match honest(s, k, a, 3) { Ok(p) => proofs.push(p), Err(e) => return r.fail("prove", e) }
    }
    let n = sys.len();
    let mut ops = vec![];
    for i in 0..n {
        ops.push(Shared::Prove(i, false));
        ops.push(Shared::Prove(i, true));
        ops.push(Shared::Verify(i, i));
        ops.push(Shared::Verify(i, (i + 1) % n));
    }
    type Pre = zero_over_k::data_structures::ProverPreprocessedInput<F62, T62>;
    struct Objects { pw: WP, pi: IP, pre: Option<Pre>, w: WV, i: IV, vpre: VPre }
    let new = || {
        let (pw, pi) = sys[0].prover_oracles(a);
        let (w, i) = sys[0].verifier_oracles(&a.inst);
        Objects { pw, pi, pre: None, w, i, vpre: keys[0].vpre.clone() }
    };
    let act = |k: &mut Objects, op: Shared| -> String {
        match op {
            Shared::Prove(j, rebuilt) => {
                let own = rebuilt.then(|| guarded(|| {
                    let info = &keys[j].pk.vk.index_info;
                    match &k.pre {
                        Some(p) => Pre::new(&p.fixed_oracles, &p.permutation_oracles, &p.table_oracles, &p.q_blind, info),
                        None => Pre::new(&sys[j].fixed, &sys[j].sigma, &sys[j].tables, &sys[j].q_blind, info),
                    }
                }));
                match own {
                    Some(Err(_)) => return "panic".into(),
                    Some(Ok(p)) => k.pre = Some(p),
                    None => {}
                }
                let pre = if rebuilt { k.pre.as_ref().unwrap() } else { &keys[j].pre };
                match sys[j].prove_pre::<TapeFS, _>(&keys[j], pre, &mut k.pw, &mut k.pi, &mut ZkRng::new(3)) {
                    Ok(p) => format!("proof {:x}", hash(&bytes(&p))),
                    Err(o) => o.kind().into(),
                }
            }
            Shared::Verify(j, p) => sys[j].verify_with::<TapeFS>(&keys[j], &mut k.vpre, &mut k.w, &mut k.i, copy_proof(&proofs[p])).kind().into(),
        }
    };
    let fresh: Vec<String> = ops.iter().map(|o| act(&mut new(), *o)).collect();
    for (o, f) in ops.iter().zip(&fresh) {
        let want = match o {
            Shared::Prove(j, _) => format!("proof {:x}", hash(&bytes(&proofs[*j]))),
            Shared::Verify(j, p) if j == p => "accept".into(),
            Shared::Verify(..) => "reject".into(),
        };
        r.check(*f == want, "fresh", || format!("{}: {:?} gives {}, not {}, on fresh objects", name, o, f, want));
    }
    let k = ops.len();
    for m in (0..k.pow(depth as u32)).filter(|m| m % k % parts == first) {
        let hist: Vec<usize> = (0..depth).map(|i| m / k.pow(i as u32) % k).collect();
        let mut obj = new();
        for (i, j) in hist.iter().enumerate() {
            let got = act(&mut obj, ops[*j]);
            r.steps(1);
            r.check(got == fresh[*j], "history-matters", || {
                format!("{}: {} instead of {} at the end of {:?}", name, got, fresh[*j], hist[..=i].iter().map(|j| ops[*j]).collect::<Vec<_>>())
            });
        }
        r.exec((name, &hist), "history");
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut cases = vec![];
    for s in catalogue_many() {
        for k in 0..8 {
            cases.push((s.name, s.c.clone(), s.asgs.clone(), k));
        }
    }
    ctx.sweep(
        "depth2",
        "12 systems, 2 statements: all histories of 2 operations over kept objects; operations: verify each of 4 good proofs and every single-element alteration (each value, each commitment, the opening, each list shortened), prove either statement with 2 generators, prove an unsatisfied assignment, prepare keys",
        &cases,
        |(n, c, a, k), r| histories(r, n, c, a, *k, 8, 2, true),
    );
    let mut cases2 = vec![];
    for (n, c, a, _) in cases.iter().filter(|c| c.3 == 0) {
        if !t && !["gates4", "copy8", "lookups8", "all8"].contains(n) { continue; }
        for k in 0..32 {
            cases2.push((*n, c.clone(), a.clone(), k));
        }
    }
    ctx.sweep(
        "depth3",
        "4 systems (thorough: 11): all histories of 3 operations, with one alteration per list of the proof",
        &cases2,
        |(n, c, a, k), r| histories(r, n, c, a, *k, 32, 3, false),
    );
    let cases3: Vec<_> = catalogue().into_iter().flat_map(|s| (0..16).map(move |k| (s.name, s.c.clone(), s.asgs[0].clone(), k))).collect();
    ctx.sweep(
        "other-systems",
        "11 systems, each with 3 relatives over the same columns and offsets but other quotient domains: all histories of 3 (thorough 4) operations over shared column descriptions; operations: prove any of the 4 (with the keys' preprocessed input, or with one made from the columns of the last one), verify a proof of it or of its neighbour",
        &cases3,
        |(n, c, a, k), r| shared(r, n, c, a, *k, 16, if t { 4 } else { 3 }),
    );
    ctx.require("other-systems", |s| s.outcomes.keys().any(|k| k.starts_with("3 sizes") || k.starts_with("4 sizes")), "systems whose quotient domains differ");
    // a copied column makes keys and proofs from columns that have been proved with before: long alternations
    let mut longs = vec![];
    for s in catalogue() {
        for period in 1..=4usize {
            for len in [if t { 16usize } else { 8 }] {
                longs.push((s.name, s.c.clone(), s.asgs.clone(), period, len));
            }
        }
    }
    ctx.sweep("long", "11 systems: periodic histories of 8 (thorough 16) operations, all periods of up to 4 among good, altered, other statement, prove", &longs, |(n, c, asgs, period, len), r| {
        let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
        let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
        let proofs = match proofs(&s, &keys, asgs, false) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
        let x = World { s: &s, keys, asgs: asgs.clone(), proofs };
        let bad = 2 * asgs.len();
        let ops = [Op::Verify(0, 0), Op::Verify(bad, 0), Op::Verify(2, 1), Op::Verify(0, 1), Op::Prove(0, 3), Op::Prove(asgs.len(), 3), Op::Index(0)];
        let fresh: Vec<String> = ops.iter().map(|o| act(&x, &mut kept(&s, &x.keys, &x.asgs), *o)).collect();
        for m in 0..ops.len().pow(*period as u32) {
            let mut kp = kept(&s, &x.keys, &x.asgs);
            let word: Vec<usize> = (0..*period).map(|i| m / ops.len().pow(i as u32) % ops.len()).collect();
            for i in 0..*len {
                let j = word[i % period];
                let got = act(&x, &mut kp, ops[j]);
                r.steps(1);
                r.check(got == fresh[j], "history-matters", || format!("{}: {:?} gives {} instead of {} at step {} of {:?}", n, ops[j], got, fresh[j], i, word));
            }
            r.exec((n, &word, len), "history");
        }
    });
    // objects that have seen very many proofs, each with challenges of its own
    let mut cases4 = vec![];
    for s in catalogue() {
        for every in [1usize, 3, 16, 97] {
            cases4.push((s.name, s.c.clone(), s.asgs.clone(), every, if t { 9000usize } else { 4000 }));
        }
    }
    ctx.sweep(
        "many-proofs",
        "11 systems: 4000 (thorough 9000) verifications with the same objects, all of proofs with other challenges: altered commitments, lists and statements in turn, a good proof after every 1, 3, 16 or 97 of them; proofs made in between with kept columns",
        &cases4,
        |(n, c, asgs, every, len), r| {
            let s = match S62::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
            let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
            let mut base = match honest(&s, &keys, &asgs[0], 1) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
            let other = match honest(&s, &keys, &asgs[1], 1) { Ok(p) => p, Err(e) => return r.fail("prove", e) };
            let slots = comm_slots(&mut base);
            let mut kp = kept(&s, &keys, asgs);
            let proof = hash(&bytes(&base));
            for i in 0..*len {
                let (l, j) = slots[i % slots.len()];
                let mut p = copy_proof(if i % 5 == 4 { &other } else { &base });
                comms(&mut p, l)[j].poly = vadd(&comms(&mut p, l)[j].poly.clone(), &[fe::<F62>(i as i64 + 1)]);
                if i % 7 == 3 {
                    let k = i % 9;
                    eval_list(&mut p, k).pop();
                }
                let out = s.verify_with::<TapeFS>(&keys, &mut kp.vpre, &mut kp.w, &mut kp.i[0], p);
                r.steps(1);
                r.check(out.rejected(), "history-matters", || format!("{}: altered proof {} gives {:?}", n, i, out));
                if i % every == every - 1 {
                    let out = s.verify_with::<TapeFS>(&keys, &mut kp.vpre, &mut kp.w, &mut kp.i[0], copy_proof(&base));
                    r.steps(1);
                    r.check(out.accepted(), "history-matters", || format!("{}: after {} proofs the good one gives {:?}", n, i + 1, out));
                }
                if i % 100 == 50 {
                    let got = s.prove_with::<TapeFS, _>(&keys, &mut kp.pw[0], &mut kp.pi[0], &mut ZkRng::new(1)).map(|p| hash(&bytes(&p)));
                    r.check(got.as_ref().ok() == Some(&proof), "history-matters", || format!("{}: another proof after {} operations: {:?}", n, i + 1, got));
                }
                r.exec((n, every, i), "history");
            }
        },
    );
}
