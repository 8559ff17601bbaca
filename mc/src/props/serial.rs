//! P21: serialization of proofs.
use super::common::*;
use crate::systems::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use zero_over_k::commitment::KZG10;
use zero_over_k::rng::FiatShamirRng;

/// Everything in a proof, list by list.
fn contents<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>) -> Vec<(String, Vec<Vec<u8>>)> {
    fn b<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
        let mut v = vec![];
        x.serialize_uncompressed(&mut v).unwrap();
        v
    }
    let mut out = vec![];
    for l in 0..EVALS.len() {
        out.push((EVALS[l].to_string(), evals(p, l).iter().map(b).collect()));
    }
    for l in 0..COMMS.len() {
        out.push((COMMS[l].to_string(), comms(p, l).iter().map(b).collect()));
    }
    out.push(("opening".into(), vec![b(&p.multiopen_proof.opening_proof)]));
    out
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Mode {
    Compressed,
    Uncompressed,
    Unchecked,
}
const MODES: [Mode; 3] = [Mode::Compressed, Mode::Uncompressed, Mode::Unchecked];
fn write<T: CanonicalSerialize>(p: &T, m: Mode) -> Result<(Vec<u8>, usize), String> {
    let mut v = vec![];
    let (r, n) = match m {
        Mode::Compressed => (p.serialize(&mut v), p.serialized_size()),
        Mode::Uncompressed => (p.serialize_uncompressed(&mut v), p.uncompressed_size()),
        Mode::Unchecked => (p.serialize_unchecked(&mut v), p.uncompressed_size()),
    };
    r.map_err(|e| format!("{:?}", e)).map(|_| (v, n))
}
/// None: refused. The second part is the number of bytes left.
fn read<T: CanonicalDeserialize>(b: &[u8], m: Mode) -> Result<Option<(T, usize)>, String> {
    guarded(|| {
        let mut rest = b;
        let r = match m {
            Mode::Compressed => T::deserialize(&mut rest),
            Mode::Uncompressed => T::deserialize_uncompressed(&mut rest),
            Mode::Unchecked => T::deserialize_unchecked(&mut rest),
        };
        r.ok().map(|p| (p, rest.len()))
    })
}

struct Tasks {
    truncations: bool,
    flips: Vec<u8>,
    modes: usize,
}
/// All of it for one proof.
fn explore<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>(
    name: &str,
    c: &Circuit,
    a: &Asg,
    part: (usize, usize),
    t: &Tasks,
    r: &mut Rec,
) where
    PC::Proof: Clone,
{
    let s = match Sys::<F, PC>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let keys = match s.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let mut p = match s.prove::<FS, _>(&keys, a, &mut ZkRng::new(1)) { Ok(p) => p, Err(o) => return r.fail("prove", format!("{:?}", o)) };
    let want = contents(&mut p);
    let verify = |q: TPProof<F, PC>| s.verify::<FS>(&keys, &a.inst, q);
    if !verify(copy_proof(&p)).accepted() {
        return r.fail("honest", format!("{} is not accepted", name));
    }
    for m in &MODES[..t.modes] {
        let (b, size) = match write(&p, *m) { Ok(x) => x, Err(e) => { r.fail("write", e); continue; } };
        r.steps(1);
        if part.0 == 0 {
            r.check(b.len() == size, "size", || format!("{} {:?}: {} bytes announced, {} written", name, m, size, b.len()));
            // round trip, also with bytes behind the proof
            for tail in [0usize, 1, 40] {
                let mut long = b.clone();
                long.extend(std::iter::repeat(0x5a).take(tail));
                match read::<TPProof<F, PC>>(&long, *m) {
                    Ok(Some((mut q, left))) => {
                        r.check(left == tail, "read-length", || format!("{} {:?}: {} bytes left of {}", name, m, left, tail));
                        let got = contents(&mut q);
                        r.check(got == want, "round-trip", || {
                            let k = got.iter().zip(&want).find(|(x, y)| x != y).map(|(x, _)| x.0.clone());
                            format!("{} {:?}: {:?} differs", name, m, k)
                        });
                        r.check(write(&q, *m).map(|x| x.0) == Ok(b.clone()), "rewrite", || format!("{} {:?}", name, m));
                        let o = verify(q);
                        r.check(o.accepted(), "round-trip-verdict", || format!("{} {:?}: {:?}", name, m, o));
                        r.exec((name, m, tail), "round trip");
                    }
                    o => r.fail("unreadable", format!("{} {:?}: {:?}", name, m, o.map(|x| x.is_some()))),
                }
                r.steps(2);
            }
        }
        // proofs whose contents differ in one place keep that difference
        let mine = |i: usize| i % part.1 == part.0;
        if *m == Mode::Compressed {
            let mut q = copy_proof(&p);
            for (k, (l, i)) in eval_slots(&mut q).into_iter().enumerate() {
                if !mine(k) { continue; }
                let mut q = copy_proof(&p);
                evals(&mut q, l)[i] += F::one();
                round_trip_altered(name, &format!("{}[{}]", EVALS[l], i), q, *m, &verify, r);
            }
            for (k, (l, i)) in comm_slots(&mut q).into_iter().enumerate() {
                if !mine(k) { continue; }
                let mut q = copy_proof(&p);
                let f = q.multiopen_proof.f_commit.clone();
                let other = if l == 5 { q.witness_commitments[0].clone() } else { f };
                comms(&mut q, l)[i] = other;
                round_trip_altered(name, &format!("{}[{}]", COMMS[l], i), q, *m, &verify, r);
            }
        }
        if t.truncations {
            for len in (0..b.len()).filter(|i| mine(*i)) {
                let o = read::<TPProof<F, PC>>(&b[..len], *m);
                r.steps(1);
                r.exec((name, m, len), match &o { Err(_) => "truncated: panic", Ok(None) => "truncated: refused", Ok(Some(_)) => "truncated: READ" });
                r.check(matches!(o, Ok(None)), "truncation", || format!("{} {:?}: {} of {} bytes: {:?}", name, m, len, b.len(), o.map(|x| x.is_some())));
            }
        }
        for i in (0..b.len()).filter(|i| mine(*i)) {
            for f in &t.flips {
                let mut x = b.clone();
                x[i] ^= f;
                r.steps(1);
                match read::<TPProof<F, PC>>(&x, *m) {
                    Err(e) => r.fail("altered-panics", format!("{} {:?}: byte {} ^ {}: {}", name, m, i, f, e)),
                    Ok(None) => r.exec((name, m, i, f), "altered: refused"),
                    Ok(Some((mut q, _))) => {
                        // another writing of the same contents (unread bytes behind it, unused bits of zero)
                        if contents(&mut q) == want {
                            r.exec((name, m, i, f), "altered: same contents");
                            continue;
                        }
                        let o = verify(q);
                        r.steps(1);
                        r.exec((name, m, i, f), format!("altered: verify {}", o.kind()));
                        r.check(o.rejected(), "altered-not-rejected", || format!("{} {:?}: byte {} ^ {}: {:?}", name, m, i, f, o));
                    }
                }
            }
        }
    }
}
fn round_trip_altered<F: PrimeField, PC: HomomorphicCommitment<F>>(
    name: &str,
    what: &str,
    mut q: TPProof<F, PC>,
    m: Mode,
    verify: &impl Fn(TPProof<F, PC>) -> Out,
    r: &mut Rec,
) {
    let want = contents(&mut q);
    r.steps(2);
    let b = match write(&q, m) { Ok(b) => b.0, Err(e) => return r.fail("write", e) };
    match read::<TPProof<F, PC>>(&b, m) {
        Ok(Some((mut q, _))) => {
            r.check(contents(&mut q) == want, "altered-round-trip", || format!("{}: {} is not preserved", name, what));
            let o = verify(q);
            r.check(o.rejected(), "altered-not-rejected", || format!("{}: {} changed: {:?}", name, what, o));
            r.exec((name, what), "altered contents preserved");
        }
        o => r.fail("unreadable", format!("{}: {} changed: {:?}", name, what, o.map(|x| x.is_some()))),
    }
}

/// The contents survive all encodings, and the announced sizes are right.
fn preserved<F: PrimeField, PC: HomomorphicCommitment<F>>(
    what: &dyn Fn() -> String,
    mut p: TPProof<F, PC>,
    modes: &[Mode],
    r: &mut Rec,
) {
    let want = contents(&mut p);
    for m in modes {
        r.steps(2);
        let (b, size) = match write(&p, *m) { Ok(x) => x, Err(e) => { r.fail("write", format!("{}: {}", what(), e)); continue; } };
        r.check(b.len() == size, "size", || format!("{} {:?}: {} bytes announced, {} written", what(), m, size, b.len()));
        match read::<TPProof<F, PC>>(&b, *m) {
            Ok(Some((mut q, left))) => {
                r.check(left == 0, "read-length", || format!("{} {:?}: {} bytes left", what(), m, left));
                let got = contents(&mut q);
                r.check(got == want, "round-trip", || {
                    let k = got.iter().zip(&want).find(|(x, y)| x != y).map(|(x, _)| x.0.clone());
                    format!("{} {:?}: {:?} differs", what(), m, k)
                });
                r.exec((what(), m), "contents preserved");
            }
            o => r.fail("unreadable", format!("{} {:?}: {:?}", what(), m, o.map(|x| x.is_some()))),
        }
    }
}
/// An accepted proof with everything in it.
fn sample<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>() -> TPProof<F, PC> {
    let sy = all8(0, false);
    let s = Sys::<F, PC>::new(&sy.c).unwrap();
    let k = s.keys().unwrap_or_else(|o| panic!("{:?}", o));
    let p = s.prove::<FS, _>(&k, &sy.asgs[0], &mut ZkRng::new(1)).unwrap_or_else(|o| panic!("{:?}", o));
    p
}
/// List `l` (claimed values, then commitments) with `len` distinct elements.
fn resized<F: PrimeField, PC: HomomorphicCommitment<F>>(mut p: TPProof<F, PC>, l: usize, len: usize) -> TPProof<F, PC> {
    if l < 9 {
        *eval_list(&mut p, l) = (0..len).map(|i| F::from(i as u64 + 7)).collect();
    } else {
        let x = p.multiopen_proof.f_commit.clone();
        let mut y = PC::zero_comm();
        let mut v = vec![];
        for _ in 0..len {
            v.push(y.clone());
            y = PC::add(&y, &x);
        }
        *comm_list(&mut p, l - 9) = v;
    }
    p
}
fn sizes_and_values<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>(
    ctx: &mut Ctx,
    name: &str,
    lens: &[usize],
    huge: &[usize],
    modes: &[Mode],
) where
    PC::Proof: Clone,
{
    let mut cases = vec![];
    for l in 0..14 {
        for k in 0..8 {
            cases.push((l, lens.iter().copied().skip(k).step_by(8).collect::<Vec<_>>()));
        }
        if l < 9 { cases.extend(huge.iter().map(|n| (l, vec![*n]))); }
    }
    ctx.sweep(
        &format!("{}-lengths", name),
        &format!("every list of a proof with {} numbers of elements from {} to {} (claimed values also {:?}), {} encodings", lens.len(), lens[0], lens[lens.len() - 1], huge, modes.len()),
        &cases,
        |(l, ns), r| {
            let p = sample::<F, PC, FS>();
            for n in ns {
                preserved(&|| format!("list {} with {} elements", l, n), resized(copy_proof(&p), *l, *n), modes, r);
            }
        },
    );
    // values at the ends of the field, the point at infinity
    let p = F::zero() - F::one();
    let half = p * F::from(2u64).inverse().unwrap();
    let values: Vec<F> = vec![F::zero(), F::one(), p, p - F::one(), half, half + F::one(), F::from(255u64), F::from(256u64), F::from(u64::MAX)];
    let mut q = sample::<F, PC, FS>();
    let slots: Vec<(bool, usize, usize)> = eval_slots(&mut q).into_iter().map(|(l, i)| (true, l, i))
        .chain(comm_slots(&mut q).into_iter().map(|(l, i)| (false, l, i))).collect();
    ctx.sweep(
        &format!("{}-values", name),
        &format!("every claimed value set to each of {} values (ends and middle of the field, byte boundaries), every commitment set to zero or negated, {} encodings", values.len(), modes.len()),
        &slots,
        |(ev, l, i), r| {
            let p = sample::<F, PC, FS>();
            if *ev {
                for v in &values {
                    let mut q = copy_proof(&p);
                    evals(&mut q, *l)[*i] = *v;
                    preserved(&|| format!("{}[{}] = {}", EVALS[*l], i, v), q, modes, r);
                }
            } else {
                let mut q = copy_proof(&p);
                let neg = PC::neg_com(&comms(&mut q, *l)[*i]);
                for v in [PC::zero_comm(), neg] {
                    let mut q = copy_proof(&p);
                    comms(&mut q, *l)[*i] = v;
                    preserved(&|| format!("{}[{}] altered", COMMS[*l], i), q, modes, r);
                }
            }
        },
    );
    ctx.require(&format!("{}-lengths", name), |s| s.outcomes.keys().any(|k| k == "contents preserved"), "proofs that are read back");
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let lens: Vec<usize> = (0..if t { 1100 } else { 300 }).collect();
    let huge: &[usize] = if t { &[65535, 65536, 65537, 1 << 20] } else { &[65535, 65536, 65537] };
    sizes_and_values::<F62, T62, TapeFS>(ctx, "ideal", &lens, huge, &MODES);
    let lens: Vec<usize> = if t { (0..300).collect() } else { vec![0, 1, 2, 3, 127, 128, 129, 255, 256, 257] };
    sizes_and_values::<ark_bls12_381::Fr, KZG10<ark_bls12_381::Bls12_381>, RealFS>(ctx, "kzg", &lens, &[], if t { &MODES } else { &MODES[..2] });
    let mut cases = vec![];
    for s in catalogue_wide() {
        for (i, a) in s.asgs.iter().enumerate() {
            if i > 0 && !t { continue; }
            for k in 0..8 {
                cases.push((format!("{}/{}", s.name, i), s.c.clone(), a.clone(), k));
            }
        }
    }
    let flips: Vec<u8> = if t { (1..=255).collect() } else { (0..8).map(|i| 1 << i).chain([0xff]).collect() };
    ctx.sweep(
        "ideal",
        "16 systems, ideal commitment: round trip in 3 encodings, every truncation, every byte altered (every bit and all bits; thorough: all 255 changes), every element of the contents altered",
        &cases,
        |(name, c, a, k), r| {
            explore::<F62, T62, TapeFS>(name, c, a, (*k, 8), &Tasks { truncations: true, flips: flips.clone(), modes: 3 }, r)
        },
    );
    ctx.require("ideal", |s| s.outcomes.keys().any(|k| k == "altered: verify reject") && s.outcomes.keys().any(|k| k == "altered: refused"), "altered encodings that are read, and some that are refused");
    type K = KZG10<ark_bls12_381::Bls12_381>;
    let picked: &[&str] = if t { &["gates4/0", "multi8/0", "copy8/0", "lookups8/0", "all8/0", "all8-reduced/0"] } else { &["gates4/0", "all8/0"] };
    let cases: Vec<_> = cases.into_iter().filter(|c| picked.contains(&c.0.as_str())).collect();
    let flips: Vec<u8> = if t { (0..8).map(|i| 1 << i).chain([0xff]).collect() } else { vec![1] };
    ctx.sweep(
        "kzg",
        "systems gates4 and all8 (thorough: 6) with KZG10 over BLS12-381: as above with one bit (thorough: every bit) of every byte altered",
        &cases,
        |(name, c, a, k), r| {
            explore::<ark_bls12_381::Fr, K, RealFS>(name, c, a, (*k, 8), &Tasks { truncations: true, flips: flips.clone(), modes: if t { 3 } else { 2 } }, r)
        },
    );
}
