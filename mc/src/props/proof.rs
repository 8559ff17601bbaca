//! P07 / P08: altered and malformed proofs.
use super::common::*;
use crate::systems::*;

/// An accepted proof of one system, with the words that its challenges were drawn from.
pub struct Subject<F: PrimeField> {
    pub name: String,
    pub sys: Sys<F, ToyPC<F>>,
    pub asg: Asg,
    pub seed: u64,
}
pub fn subjects<F: PrimeField>(list: Vec<System>, asgs: usize, seeds: u64) -> Vec<Subject<F>> {
    let mut out = vec![];
    for s in list {
        for (i, a) in s.asgs.iter().take(asgs).enumerate() {
            for seed in 0..seeds {
                if let Ok(Ok(sys)) = guarded(|| Sys::<F, ToyPC<F>>::new(&s.c)) {
                    out.push(Subject { name: format!("{}/{}/{}", s.name, i, seed), sys, asg: a.clone(), seed });
                }
            }
        }
    }
    out
}
impl<F: PrimeField> Subject<F> {
    /// The accepted proof and the drawn words, if the honest execution is accepted.
    pub fn accepted(&self, k: &Keys<F, ToyPC<F>>) -> Option<(TPProof<F, ToyPC<F>>, Vec<u64>)> {
        let p = honest(&self.sys, k, &self.asg, self.seed).ok()?;
        start(vec![]);
        let o = self.sys.verify::<TapeFS>(k, &self.asg.inst, copy_proof(&p));
        let words = draws(&finish());
        o.accepted().then(|| (p, words))
    }
    pub fn run(&self, k: &Keys<F, ToyPC<F>>, p: TPProof<F, ToyPC<F>>, script: &[u64]) -> Out {
        start(script.to_vec());
        let o = self.sys.verify::<TapeFS>(k, &self.asg.inst, p);
        finish();
        o
    }
}

type Edit62 = (String, Box<dyn Fn(&mut Proof62) + Send + Sync>);

fn value_edits(slots: &[(usize, usize)]) -> Vec<Edit62> {
    let mut out: Vec<Edit62> = vec![];
    for &(l, i) in slots {
        for d in [1i64, -1, 2, 12345] {
            out.push((format!("{}[{}] {:+}", EVALS[l], i, d), Box::new(move |p| evals(p, l)[i] += fe::<F62>(d))));
        }
        out.push((format!("{}[{}] = 0", EVALS[l], i), Box::new(move |p| evals(p, l)[i] = F62::zero())));
        out.push((format!("{}[{}] negated", EVALS[l], i), Box::new(move |p| evals(p, l)[i] = -evals(p, l)[i])));
        out.push((format!("{}[{}] doubled", EVALS[l], i), Box::new(move |p| {
            let v = evals(p, l)[i];
            evals(p, l)[i] = v + v
        })));
    }
    out
}
fn pair_edits(slots: &[(usize, usize)]) -> Vec<Edit62> {
    let mut out: Vec<Edit62> = vec![];
    for (k, &(l, i)) in slots.iter().enumerate() {
        for &(m, j) in &slots[k + 1..] {
            for (d, e) in [(1i64, -1i64), (1, 1), (-1, 1), (2, -1)] {
                out.push((
                    format!("{}[{}] {:+}, {}[{}] {:+}", EVALS[l], i, d, EVALS[m], j, e),
                    Box::new(move |p| {
                        evals(p, l)[i] += fe::<F62>(d);
                        evals(p, m)[j] += fe::<F62>(e);
                    }),
                ));
            }
            out.push((
                format!("{}[{}] <-> {}[{}]", EVALS[l], i, EVALS[m], j),
                Box::new(move |p| {
                    let (a, b) = (evals(p, l)[i], evals(p, m)[j]);
                    evals(p, l)[i] = b;
                    evals(p, m)[j] = a;
                }),
            ));
        }
    }
    out
}
fn triple_edits(slots: &[(usize, usize)]) -> Vec<Edit62> {
    let mut out: Vec<Edit62> = vec![];
    for a in 0..slots.len() {
        for b in a + 1..slots.len() {
            for c in b + 1..slots.len() {
                for d in [[1i64, 1, -2], [1, -2, 1], [-2, 1, 1]] {
                    let s = [slots[a], slots[b], slots[c]];
                    out.push((
                        format!("{:?} {:?}", s.map(|(l, i)| format!("{}[{}]", EVALS[l], i)), d),
                        Box::new(move |p| {
                            for ((l, i), e) in s.iter().zip(d) {
                                evals(p, *l)[*i] += fe::<F62>(e);
                            }
                        }),
                    ));
                }
            }
        }
    }
    out
}
fn comm_edits(slots: &[(usize, usize)], n: usize) -> Vec<Edit62> {
    let mut out: Vec<Edit62> = vec![];
    for &(l, i) in slots {
        for d in 0..n {
            for s in [1i64, -1] {
                out.push((format!("{}[{}] {:+} X^{}", COMMS[l], i, s, d), Box::new(move |p| {
                    let c = &mut comms(p, l)[i];
                    c.poly = vadd(&c.poly, &vscale(&unit(d), fe(s)));
                })));
            }
        }
        for d in 0..3 {
            out.push((format!("{}[{}] blinding + X^{}", COMMS[l], i, d), Box::new(move |p| {
                let c = &mut comms(p, l)[i];
                c.blind = vadd(&c.blind, &unit(d));
            })));
        }
        out.push((format!("{}[{}] = 0", COMMS[l], i), Box::new(move |p| comms(p, l)[i] = T62::zero_comm())));
        for s in [-1i64, 2, 3] {
            out.push((format!("{}[{}] times {}", COMMS[l], i, s), Box::new(move |p| {
                let c = T62::scale_com(&comms(p, l)[i], fe(s));
                comms(p, l)[i] = c;
            })));
        }
    }
    for (k, &(l, i)) in slots.iter().enumerate() {
        for &(m, j) in &slots[k + 1..] {
            out.push((format!("{}[{}] <-> {}[{}]", COMMS[l], i, COMMS[m], j), Box::new(move |p| {
                let (a, b) = (comms(p, l)[i].clone(), comms(p, m)[j].clone());
                comms(p, l)[i] = b;
                comms(p, m)[j] = a;
            })));
            out.push((format!("{}[{}] := {}[{}]", COMMS[l], i, COMMS[m], j), Box::new(move |p| {
                let b = comms(p, m)[j].clone();
                comms(p, l)[i] = b;
            })));
            for d in [0, 1, n - 1] {
                out.push((format!("{}[{}] + X^{d}, {}[{}] - X^{d}", COMMS[l], i, COMMS[m], j), Box::new(move |p| {
                    let a = vadd(&comms(p, l)[i].poly, &unit(d));
                    comms(p, l)[i].poly = a;
                    let b = vadd(&comms(p, m)[j].poly, &vscale(&unit(d), -F62::one()));
                    comms(p, m)[j].poly = b;
                })));
            }
            out.push((format!("blinding of {}[{}] + 1, {}[{}] - 1", COMMS[l], i, COMMS[m], j), Box::new(move |p| {
                let a = vadd(&comms(p, l)[i].blind, &unit(0));
                comms(p, l)[i].blind = a;
                let b = vadd(&comms(p, m)[j].blind, &vscale(&unit(0), -F62::one()));
                comms(p, m)[j].blind = b;
            })));
        }
    }
    out
}
fn opening_edits(n: usize) -> Vec<Edit62> {
    let mut out: Vec<Edit62> = vec![];
    for d in 0..n {
        for s in [1i64, -1] {
            out.push((format!("opening.w {:+} X^{}", s, d), Box::new(move |p| {
                let o = &mut p.multiopen_proof.opening_proof;
                o.w = vadd(&o.w, &vscale(&unit(d), fe(s)))
            })));
            out.push((format!("opening.wb {:+} X^{}", s, d), Box::new(move |p| {
                let o = &mut p.multiopen_proof.opening_proof;
                o.wb = vadd(&o.wb, &vscale(&unit(d), fe(s)))
            })));
        }
    }
    for s in [1i64, -1, 2] {
        out.push((format!("opening.rv {:+}", s), Box::new(move |p| p.multiopen_proof.opening_proof.rv += fe::<F62>(s))));
    }
    out.push(("opening.w = 0".into(), Box::new(|p| p.multiopen_proof.opening_proof.w = vec![])));
    out.push(("opening.wb = 0".into(), Box::new(|p| p.multiopen_proof.opening_proof.wb = vec![])));
    out.push(("opening.rv = 0".into(), Box::new(|p| p.multiopen_proof.opening_proof.rv = F62::zero())));
    out
}

/// Applies every edit to the accepted proof of every subject, with the transcript's own challenges
/// and with the challenges pinned to those of the accepted proof.
fn alter(ctx: &mut Ctx, name: &str, bound: &str, subjects: &[Subject<F62>], edits: impl Fn(&mut Proof62, usize) -> Vec<Edit62> + Sync, chunks: usize) {
    ctx.range(name, bound, subjects.len() * chunks, |i| subjects[i / chunks].name.clone(), |i, r| {
        let s = &subjects[i / chunks];
        let keys = match s.sys.keys() {
            Ok(k) => k,
            Err(o) => return r.exec(&s.name, format!("no keys:{}", o.kind())),
        };
        let (mut p, words) = match s.accepted(&keys) {
            Some(p) => p,
            None => return r.exec(&s.name, "honest proof not accepted"),
        };
        r.steps(3);
        let orig = bytes(&p);
        for (k, (what, f)) in edits(&mut p, s.sys.c.n).into_iter().enumerate() {
            if k % chunks != i % chunks {
                continue;
            }
            let mut q = copy_proof(&p);
            f(&mut q);
            if bytes(&q) == orig {
                r.exec((&s.name, &what), "unchanged");
                continue;
            }
            for pinned in [false, true] {
                r.steps(1);
                let o = s.run(&keys, copy_proof(&q), if pinned { &words } else { &[] });
                r.exec((&s.name, &what, pinned), format!("{}{}", if pinned { "pinned:" } else { "" }, Full { stage: "verify", out: o.clone() }.key()));
                r.check(o.rejected(), "altered-proof", || format!("{} with {} (challenges pinned: {}): {:?}", s.name, what, pinned, o));
            }
        }
    });
    ctx.require(name, |s| s.outcomes.iter().filter(|(k, _)| k.contains("verify:")).map(|x| *x.1).sum::<u64>() > 100, "no accepted proof to alter");
    ctx.require(name, |s| s.outcomes.keys().all(|k| !k.contains("honest proof not accepted")), "an honest proof was not accepted");
}

pub fn altered(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let subj = subjects::<F62>(catalogue_many(), if t { 2 } else { 1 }, if t { 2 } else { 1 });
    alter(ctx, "values", "12 systems; every claimed value x 7 changes; challenges hashed and pinned", &subj,
        |p, _| value_edits(&eval_slots(p)), 1);
    alter(ctx, "value-pairs", "every pair of claimed values x {+1-1,+1+1,-1+1,+2-1,exchanged}", &subj,
        |p, _| pair_edits(&eval_slots(p)), 8);
    alter(ctx, "commitments", "every commitment x (each coefficient +-1, blinding, zero, scaled), every pair (exchanged, overwritten, cancelling)", &subj,
        |p, n| comm_edits(&comm_slots(p), n), 4);
    alter(ctx, "opening", "every coefficient of the opening argument +-1, zeroed parts", &subj,
        |_, n| opening_edits(n + 1), 1);
    let small: Vec<Subject<F62>> = if t {
        subjects(catalogue(), 1, 1)
    } else {
        subjects(vec![gates4(), copy8(5, true), lookup8(false)], 1, 1)
    };
    alter(ctx, "value-triples", "every triple of claimed values x 3 changes that cancel in a sum", &small,
        |p, _| triple_edits(&eval_slots(p)), 16);
    let big = subjects::<F62>(giants(t), 1, 1);
    alter(ctx, "large-values", "long columns, many columns, products, lookups, quotient parts; every claimed value +1, -1; changes of neighbouring values that cancel", &big,
        |p, _| {
            let slots = eval_slots(p);
            let mut v = value_edits(&slots);
            v.retain(|x| x.0.ends_with(" +1") || x.0.ends_with(" -1"));
            for by in [1, 8, 16, 32, 64] {
                for k in by..slots.len() {
                    let mut e = pair_edits(&[slots[k - by], slots[k]]);
                    e.truncate(1);
                    v.extend(e);
                }
            }
            v
        }, 8);
    alter(ctx, "large-commitments", "the same systems; every commitment x (coefficients near powers of two and the ends +1, blinding, zero, doubled)", &big,
        |p, n| {
            let slots = comm_slots(p);
            let ends = landmarks(n);
            let mut v: Vec<Edit62> = vec![];
            for &(l, i) in &slots {
                for &d in &ends {
                    v.push((format!("{}[{}] + X^{}", COMMS[l], i, d), Box::new(move |p| {
                        let c = &mut comms(p, l)[i];
                        c.poly = vadd(&c.poly, &unit(d));
                    })));
                }
                v.push((format!("{}[{}] blinding + 1", COMMS[l], i), Box::new(move |p| {
                    let c = &mut comms(p, l)[i];
                    c.blind = vadd(&c.blind, &unit(0));
                })));
                for s in [0i64, 2] {
                    v.push((format!("{}[{}] times {}", COMMS[l], i, s), Box::new(move |p| {
                        let c = T62::scale_com(&comms(p, l)[i], fe(s));
                        comms(p, l)[i] = c;
                    })));
                }
            }
            v
        }, 8);
    alter(ctx, "large-opening", "the same systems; coefficients of the opening argument near powers of two and the ends, the opened value", &big,
        |_, n| {
            let ends = landmarks(n + 1);
            let mut v = opening_edits(n + 1);
            v.retain(|x| match x.0.split(" X^").nth(1) { Some(d) => ends.contains(&d.parse().unwrap()), None => true });
            v
        }, 2);
    compensated(ctx);
    adaptive(ctx, false);
}

/// A prover that alters one claimed value and repairs the quotient identity through the claimed
/// value of a quotient chunk: the repair is found by trying all field elements of a small field.
fn compensated(ctx: &mut Ctx) {
    type F = F193;
    let seeds = if ctx.thorough { 12 } else { 8 };
    let lists = || vec![gates4(), multi8(false), copy8(5, true), copy8(7, false), lookup8(true), all8(0, true), all8(0, false)];
    let systems: Vec<System> = lists();
    let cases: Vec<(usize, usize, usize, i64)> = {
        let mut v = vec![];
        for (si, s) in systems.iter().enumerate() {
            let sys = match guarded(|| Sys::<F, ToyPC<F>>::new(&s.c)) {
                Ok(Ok(x)) => x,
                _ => continue,
            };
            let keys = match sys.keys() {
                Ok(k) => k,
                Err(_) => continue,
            };
            // any proof shows the numbers of claimed values
            let p = (0..20).find_map(|i| honest(&sys, &keys, &s.asgs[0], i).ok());
            if let Some(mut p) = p {
                for (l, i) in eval_slots(&mut p) {
                    for d in [1i64, 5] {
                        v.push((si, l, i, d));
                    }
                }
            }
        }
        v
    };
    ctx.sweep(
        "repaired-quotient",
        "7 systems over F193; every claimed value x {+1,+5} x every value of quotient_chunks_evals[0] x 8 transcripts",
        &cases,
        |&(si, l, i, d), r| {
            let s = &systems[si];
            let sys = Sys::<F, ToyPC<F>>::new(&s.c).unwrap();
            let keys = match sys.keys() {
                Ok(k) => k,
                Err(_) => return,
            };
            let (mut tried, mut accepted) = (0, 0);
            let mut seed = 0;
            while tried < seeds && seed < 60 {
                seed += 1;
                let subj_run = |p| sys.verify::<TapeFS>(&keys, &s.asgs[0].inst, p);
                let p = match honest(&sys, &keys, &s.asgs[0], seed) {
                    Ok(p) => p,
                    Err(_) => continue,
                };
                if !subj_run(copy_proof(&p)).accepted() {
                    continue;
                }
                r.steps(2);
                let mut q = copy_proof(&p);
                evals(&mut q, l)[i] += fe::<F>(d);
                let orig = bytes(&p);
                let mut repaired = 0;
                let mut acc = false;
                for v in 0..193u64 {
                    let mut q2 = copy_proof(&q);
                    q2.quotient_chunks_evals[0] = F::from(v);
                    if bytes(&q2) == orig {
                        continue;
                    }
                    let o = subj_run(q2);
                    r.steps(1);
                    match &o {
                        Out::Reject(e) if e.contains("QuotientNotZero") => {}
                        Out::Reject(_) => repaired += 1,
                        Out::Accept => {
                            repaired += 1;
                            acc = true
                        }
                        // division by zero among the 193 possible challenges
                        Out::Panic(_) => {}
                    }
                }
                tried += 1;
                if acc {
                    accepted += 1
                }
                r.exec((si, l, i, d, seed), format!("{} repairs, accepted {}", repaired.min(2), acc));
            }
            // a single acceptance is a coincidence of a tiny field, all of them are not
            r.check(tried < 4 || accepted < tried, "repaired-quotient", || {
                format!("{}: {}[{}]{:+} with a repaired quotient value is accepted in {} of {} transcripts", s.name, EVALS[l], i, d, accepted, tried)
            });
        },
    );
    ctx.require("repaired-quotient", |s| s.outcomes.iter().any(|(k, n)| k.starts_with("1 repairs") && *n > 500), "no repair explored");
}

// ---------------------------------------------------------------------------------------------
// P08

/// Edits of the lengths of lists: (which list 0..14, edit)
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Drop(usize),
    Dup(usize),
    /// appends a copy of the first element (or a made-up one)
    Append,
    Prepend,
    Clear,
    Double,
    /// only the first remains
    KeepOne,
    /// adds so many made-up elements
    Grow(usize),
    /// moves the last element to the front of another list of the same kind
    MoveTo(usize),
}
const NLISTS: usize = 14;
fn list_name(l: usize) -> &'static str {
    if l < 9 { EVALS[l] } else { COMMS[l - 9] }
}
fn list_len(p: &mut Proof62, l: usize) -> usize {
    if l < 9 { eval_list(p, l).len() } else { comm_list(p, l - 9).len() }
}
fn cut_vec<T: Clone>(v: &mut Vec<T>, c: Cut, made_up: T) {
    match c {
        Cut::Drop(i) => {
            if i < v.len() {
                v.remove(i);
            }
        }
        Cut::Dup(i) => {
            if i < v.len() {
                let x = v[i].clone();
                v.insert(i, x);
            }
        }
        Cut::Append => v.push(v.first().cloned().unwrap_or(made_up)),
        Cut::Prepend => v.insert(0, made_up),
        Cut::Clear => v.clear(),
        Cut::Double => {
            let w = v.clone();
            v.extend(w)
        }
        Cut::KeepOne => v.truncate(1),
        Cut::Grow(k) => v.resize(v.len() + k, v.last().cloned().unwrap_or(made_up)),
        Cut::MoveTo(_) => {}
    }
}
fn cut(p: &mut Proof62, l: usize, c: Cut) {
    if let Cut::MoveTo(m) = c {
        if l < 9 && m < 9 {
            if let Some(x) = eval_list(p, l).pop() {
                eval_list(p, m).insert(0, x)
            }
        } else if l >= 9 && m >= 9 {
            if let Some(x) = comm_list(p, l - 9).pop() {
                comm_list(p, m - 9).insert(0, x)
            }
        }
        return;
    }
    if l < 9 {
        cut_vec(eval_list(p, l), c, F62::zero())
    } else {
        cut_vec(comm_list(p, l - 9), c, T62::zero_comm())
    }
}
fn cuts(p: &mut Proof62, small: bool) -> Vec<(usize, Cut)> {
    let mut out = vec![];
    for l in 0..NLISTS {
        let len = list_len(p, l);
        if len > 0 {
            for i in 0..len {
                if small && i > 0 && i + 1 < len {
                    continue;
                }
                out.push((l, Cut::Drop(i)));
                out.push((l, Cut::Dup(i)));
            }
            out.push((l, Cut::Clear));
            out.push((l, Cut::Double));
            out.push((l, Cut::KeepOne));
        }
        out.push((l, Cut::Append));
        out.push((l, Cut::Prepend));
        for m in 0..NLISTS {
            if m != l && (m < 9) == (l < 9) && len > 0 {
                out.push((l, Cut::MoveTo(m)));
            }
        }
    }
    out
}

/// Single length edits of large proofs, and lists longer by numbers at which a shorter count wraps.
fn large_lengths(ctx: &mut Ctx) {
    let big = subjects::<F62>(giants(ctx.thorough), 1, 1);
    let mut small = subjects::<F62>(catalogue_many(), 1, 1);
    let pick = small.len();
    small.extend(big);
    ctx.range("large-lengths", "long columns, many columns, products, lookups, quotient parts: every list x every drop, duplication, addition, clearing, move; all systems: lists longer by 15 to 65536", small.len() * 8, |i| small[i / 8].name.clone(), |i, r| {
        let s = &small[i / 8];
        let keys = match s.sys.keys() {
            Ok(k) => k,
            Err(o) => return r.fail("unready", format!("no keys:{}", o.kind())),
        };
        let (mut p, words) = match s.accepted(&keys) {
            Some(p) => p,
            None => return r.fail("unready", "honest proof not accepted"),
        };
        let mut list = if i / 8 < pick { vec![] } else { cuts(&mut p, false) };
        for l in 0..NLISTS {
            list.extend([15, 16, 31, 32, 255, 256, 257, 4096, 65535, 65536].map(|k| (l, Cut::Grow(k))));
        }
        let orig = bytes(&p);
        for (k, (l, c)) in list.into_iter().enumerate() {
            if k % 8 != i % 8 {
                continue;
            }
            let mut q = copy_proof(&p);
            cut(&mut q, l, c);
            if bytes(&q) == orig {
                continue;
            }
            for pinned in [false, true] {
                r.steps(1);
                let o = s.run(&keys, copy_proof(&q), if pinned { &words } else { &[] });
                r.exec((&s.name, k, pinned), Full { stage: "verify", out: o.clone() }.key());
                r.check(o.rejected(), if o.panicked() { "malformed-panic" } else { "malformed-accepted" }, || format!("{} with {} {:?}: {:?}", s.name, list_name(l), c, o));
            }
        }
    });
}

pub fn malformed(ctx: &mut Ctx) {
    let t = ctx.thorough;
    large_lengths(ctx);
    let subj = subjects::<F62>(catalogue_many(), 1, 1);
    for (name, bound, pairs) in [
        ("single", "12 systems; every list x every drop, duplication, addition, clearing, move; challenges hashed and pinned", false),
        ("pairs", "every ordered pair of length edits on two (or the same) lists", true),
    ] {
        let chunks = if pairs { 32 } else { 1 };
        ctx.range(name, bound, subj.len() * chunks, |i| subj[i / chunks].name.clone(), |i, r| {
            let s = &subj[i / chunks];
            let keys = match s.sys.keys() {
                Ok(k) => k,
                Err(o) => return r.exec(&s.name, format!("no keys:{}", o.kind())),
            };
            let (mut p, words) = match s.accepted(&keys) {
                Some(p) => p,
                None => return r.exec(&s.name, "honest proof not accepted"),
            };
            let orig = bytes(&p);
            let first = cuts(&mut p, pairs && !t);
            let mut k = 0;
            let mut judge = |q: &Proof62, what: &dyn Fn() -> String| {
                if bytes(q) == orig {
                    return;
                }
                for pinned in [false, true] {
                    if pinned && pairs && !t {
                        continue;
                    }
                    r.steps(1);
                    let o = s.run(&keys, copy_proof(q), if pinned { &words } else { &[] });
                    r.exec((&s.name, hash(&bytes(q)), pinned), Full { stage: "verify", out: o.clone() }.key());
                    r.check(o.rejected(), if o.panicked() { "malformed-panic" } else { "malformed-accepted" }, || {
                        format!("{} with {}: {:?}", s.name, what(), o)
                    });
                }
            };
            for (l, c) in &first {
                let mut q = copy_proof(&p);
                cut(&mut q, *l, *c);
                if !pairs {
                    judge(&q, &|| format!("{} {:?}", list_name(*l), c));
                    continue;
                }
                for (m, d) in &first {
                    k += 1;
                    if k % chunks != i % chunks {
                        continue;
                    }
                    let mut q2 = copy_proof(&q);
                    cut(&mut q2, *m, *d);
                    judge(&q2, &|| format!("{} {:?} then {} {:?}", list_name(*l), c, list_name(*m), d));
                }
            }
        });
        ctx.require(name, |s| s.outcomes.iter().filter(|(k, _)| k.contains("verify:")).map(|x| *x.1).sum::<u64>() > 500, "no accepted proof to edit");
    }
    // every combination of resized lists, the quotient's two lists whole
    let base: Vec<Subject<F62>> = subjects(vec![gates4(), copy8(5, true), lookup8(true), all8(0, true)], 1, 1);
    let lists: Vec<usize> = (0..NLISTS).filter(|l| ![7, 13].contains(l)).collect();
    let states = 3usize.pow(lists.len() as u32);
    let chunk = 5000;
    let per = (states + chunk - 1) / chunk;
    ctx.range("lengths", "all lists but the quotient's at once, each {whole, one shorter, one longer}: every one of 3^12 combinations x 4 systems", per * base.len(), |i| format!("{} block {}", base[i / per].name, i % per), |i, r| {
        let s = &base[i / per];
        let keys = match s.sys.keys() {
            Ok(k) => k,
            Err(_) => return,
        };
        let p = match s.accepted(&keys) {
            Some((p, _)) => p,
            None => return,
        };
        let orig = bytes(&p);
        for id in (i % per) * chunk..((i % per + 1) * chunk).min(states) {
            let mut code = id;
            let mut q = copy_proof(&p);
            for l in &lists {
                match code % 3 {
                    0 => {}
                    1 => cut(&mut q, *l, Cut::Drop(0)),
                    _ => cut(&mut q, *l, Cut::Append),
                }
                code /= 3;
            }
            if bytes(&q) == orig {
                continue;
            }
            r.steps(1);
            let o = s.run(&keys, q, &[]);
            r.exec((&s.name, id), Full { stage: "verify", out: o.clone() }.key());
            r.check(o.rejected(), "malformed-lengths", || format!("{} lists resized by code {}: {:?}", s.name, id, o));
        }
    });
    // the same lengths, one list at a time kept whole
    ctx.range("near-lengths", "all lists whole except every subset of up to 3 lists resized in 3 ways", base.len() * NLISTS, |i| format!("{} {}", base[i / NLISTS].name, list_name(i % NLISTS)), |i, r| {
        let s = &base[i / NLISTS];
        let keys = match s.sys.keys() {
            Ok(k) => k,
            Err(_) => return,
        };
        let p = match s.accepted(&keys) {
            Some((p, _)) => p,
            None => return,
        };
        let orig = bytes(&p);
        let l = i % NLISTS;
        let ways = [Cut::Clear, Cut::Drop(0), Cut::Append];
        for m in l..NLISTS {
            for o in m..NLISTS {
                for (a, b, c) in (0..27).map(|x| (ways[x % 3], ways[x / 3 % 3], ways[x / 9])) {
                    let mut q = copy_proof(&p);
                    cut(&mut q, l, a);
                    if m > l {
                        cut(&mut q, m, b);
                    }
                    if o > m {
                        cut(&mut q, o, c);
                    }
                    if bytes(&q) == orig {
                        continue;
                    }
                    r.steps(1);
                    let out = s.run(&keys, q, &[]);
                    r.exec((&s.name, l, m, o, format!("{:?}{:?}{:?}", a, b, c)), Full { stage: "verify", out: out.clone() }.key());
                    r.check(out.rejected(), "malformed-lengths", || format!("{} with {} {:?}, {} {:?}, {} {:?}: {:?}", s.name, list_name(l), a, list_name(m), b, list_name(o), c, out));
                }
            }
        }
    });
}
impl<F: PrimeField> std::fmt::Debug for Subject<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}

/// One run of the verifier: its answer, the residual of the quotient identity, the opening it
/// checked (each if it got that far) and the words it drew.
struct Probe {
    out: Out,
    residual: Option<F62>,
    opened: Option<Checked<F62>>,
    words: Vec<u64>,
}
fn probe(s: &Subject<F62>, k: &Keys<F62, T62>, inst: &Vec<Vec<i64>>, p: &Proof62, script: &[u64], r: &mut Rec) -> Probe {
    let residual = std::rc::Rc::new(std::cell::Cell::new(None));
    let seen = residual.clone();
    take_checked::<F62>();
    set_interceptor(Some(Box::new(move |site, _, v| {
        if site == "quotient_eval" {
            seen.set(v.downcast_ref::<F62>().copied());
        }
    })));
    start(script.to_vec());
    let out = s.sys.verify::<TapeFS>(k, inst, copy_proof(p));
    let words = draws(&finish());
    set_interceptor(None);
    r.steps(1);
    Probe { out, residual: residual.get(), opened: take_checked(), words }
}

type Lie = (String, Box<dyn Fn(&mut Proof62, &mut Vec<Vec<i64>>) + Send + Sync>);

fn lies(p: &mut Proof62, asg: &Asg, n: usize, statement: bool) -> Vec<Lie> {
    let mut out: Vec<Lie> = vec![];
    if statement {
        for k in 0..asg.inst.len() {
            for row in 0..n {
                for d in [1i64, -3] {
                    out.push((format!("public[{}][{}] {:+}", k, row, d), Box::new(move |_, i| i[k][row] += d)));
                }
            }
            for d in 0..n {
                let m = super::statement::monomial(n, d);
                out.push((format!("public[{}] + X^{}", k, d), Box::new(move |_, i| i[k].iter_mut().zip(&m).for_each(|(x, v)| *x += v))));
            }
        }
        return out;
    }
    for (l, i) in eval_slots(p) {
        out.push((format!("{}[{}] +1", EVALS[l], i), Box::new(move |p, _| evals(p, l)[i] += F62::one())));
    }
    for (l, i) in comm_slots(p) {
        for d in [0, 1, n - 1] {
            out.push((format!("{}[{}] + X^{}", COMMS[l], i, d), Box::new(move |p, _| {
                let c = &mut comms(p, l)[i];
                c.poly = vadd(&c.poly, &unit(d));
            })));
        }
        out.push((format!("{}[{}] blinding + 1", COMMS[l], i), Box::new(move |p, _| {
            let c = &mut comms(p, l)[i];
            c.blind = vadd(&c.blind, &unit(0));
        })));
    }
    out
}

/// A value of a proof by which a prover may repair an identity.
#[derive(Clone, Copy, Debug)]
enum Knob {
    Eval(usize, usize),
    Comm(usize, usize),
}
impl Knob {
    fn turn(&self, p: &mut Proof62, by: F62) {
        match *self {
            Knob::Eval(l, i) => evals(p, l)[i] += by,
            Knob::Comm(l, i) => {
                let c = &mut comms(p, l)[i];
                c.poly = vadd(&c.poly, &[by]);
            }
        }
    }
}

/// A prover that sees the challenges of its altered proof and then repairs the two identities the
/// verifier checks, each through one of the other parts, and the opening argument. It succeeds if
/// the challenges do not depend on what it repairs with, which is what the scripted run shows.
pub fn adaptive(ctx: &mut Ctx, statement: bool) {
    let subj = subjects::<F62>(catalogue_many(), 1, if ctx.thorough { 2 } else { 1 });
    let chunks = 8;
    ctx.range(
        "adaptive",
        if statement {
            "12 systems; every public cell x {+1,-3}; the quotient identity repaired through every quotient chunk value, the opening identity through every batched value, the batching commitment and the first and last commitment of each kind, once the challenges are known; the verifier accepts this with the challenges pinned, and must not with its own"
        } else {
            "12 systems; every claimed value, and every commitment x {+1,+X,+X^(n-1), blinding}; the quotient identity repaired through every quotient chunk value, the opening identity through every batched value, the batching commitment and the first and last commitment of each kind, once the challenges are known; the verifier accepts this with the challenges pinned, and must not with its own"
        },
        subj.len() * chunks,
        |i| subj[i / chunks].name.clone(),
        |i, r| {
            let s = &subj[i / chunks];
            let keys = match s.sys.keys() {
                Ok(k) => k,
                Err(_) => return,
            };
            let (mut honest_p, _) = match s.accepted(&keys) {
                Some(p) => p,
                None => return r.exec(&s.name, "honest proof not accepted"),
            };
            let orig = (bytes(&honest_p), s.asg.inst.clone());
            let knobs: Vec<Knob> = {
                let mut v: Vec<Knob> = (0..honest_p.multiopen_proof.q_evals.len()).map(|i| Knob::Eval(8, i)).collect();
                for l in 0..COMMS.len() {
                    let m = comms(&mut honest_p, l).len();
                    if m > 0 {
                        v.push(Knob::Comm(l, 0));
                    }
                    if m > 1 {
                        v.push(Knob::Comm(l, m - 1));
                    }
                }
                v
            };
            let chunk_values = honest_p.quotient_chunks_evals.len();
            for (li, (what, f)) in lies(&mut honest_p, &s.asg, s.sys.c.n, statement).into_iter().enumerate() {
                if li % chunks != i % chunks {
                    continue;
                }
                let mut p1 = copy_proof(&honest_p);
                let mut inst = s.asg.inst.clone();
                f(&mut p1, &mut inst);
                let first = probe(s, &keys, &inst, &p1, &[], r);
                let mut second: Vec<(String, Proof62)> = vec![];
                match first.residual {
                    None => {}
                    Some(e) if e.is_zero() => second.push(("".into(), p1)),
                    Some(e) => {
                        for j in 0..chunk_values {
                            let mut p2 = copy_proof(&p1);
                            p2.quotient_chunks_evals[j] += F62::one();
                            let slope = match probe(s, &keys, &inst, &p2, &first.words, r).residual {
                                Some(v) => v - e,
                                None => continue,
                            };
                            if let Some(inv) = slope.inverse() {
                                let mut p2 = copy_proof(&p1);
                                p2.quotient_chunks_evals[j] -= e * inv;
                                second.push((format!(", quotient chunk value {}", j), p2));
                            }
                        }
                    }
                }
                for (how, p2) in second {
                    // the words drawn when the first lie was rejected end there
                    let mut scripts = vec![probe(s, &keys, &inst, &p2, &first.words, r).words];
                    let real = probe(s, &keys, &inst, &p2, &[], r);
                    if real.words != scripts[0] {
                        scripts.push(real.words);
                    }
                    for script in scripts {
                        let base = probe(s, &keys, &inst, &p2, &script, r);
                        let error = match &base.opened {
                            Some(o) => o.error(),
                            None => continue,
                        };
                        let mut third: Vec<(String, Proof62)> = vec![];
                        if error.is_zero() {
                            third.push((how.clone(), copy_proof(&p2)));
                        }
                        for k in &knobs {
                            if error.is_zero() {
                                break;
                            }
                            let mut p3 = copy_proof(&p2);
                            k.turn(&mut p3, F62::one());
                            let slope = match probe(s, &keys, &inst, &p3, &script, r).opened {
                                Some(o) => o.error() - error,
                                None => continue,
                            };
                            if let Some(inv) = slope.inverse() {
                                let mut p3 = copy_proof(&p2);
                                k.turn(&mut p3, -error * inv);
                                third.push((format!("{}, {:?}", how, k), p3));
                            }
                        }
                        for (how, mut p3) in third {
                            match probe(s, &keys, &inst, &p3, &script, r).opened {
                                Some(o) => p3.multiopen_proof.opening_proof = o.opening(),
                                None => continue,
                            }
                            if (bytes(&p3), inst.clone()) == orig {
                                r.exec((&s.name, &what, &how), "unchanged");
                                continue;
                            }
                            let pinned = probe(s, &keys, &inst, &p3, &script, r);
                            r.exec((&s.name, &what, &how, "pinned"), format!("pinned:{}", Full { stage: "verify", out: pinned.out }.key()));
                            let o = probe(s, &keys, &inst, &p3, &[], r).out;
                            r.exec((&s.name, &what, &how), Full { stage: "verify", out: o.clone() }.key());
                            r.check(o.rejected(), "altered-proof", || {
                                format!("{} with {}, repaired through{} and the opening: {:?}", s.name, what, how, o)
                            });
                        }
                    }
                }
            }
        },
    );
    ctx.require(
        "adaptive",
        |s| s.outcomes.get("pinned:accept").copied().unwrap_or(0) > if statement { 100 } else { 1000 },
        "the repaired proofs are not accepted with the challenges they were repaired for",
    );
}
