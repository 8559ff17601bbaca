//! P18: commitment arithmetic; P19: transcript generator.
use super::common::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PCRandomness, PolynomialCommitment};
use ark_std::rand::{RngCore, SeedableRng};
use rand_chacha::ChaChaRng;
use zero_over_k::commitment::KZG10;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

type K = KZG10<Bls12_381>;
type P = DensePolynomial<Fr>;
type Cm = <K as PolynomialCommitment<Fr, P>>::Commitment;
type Rn = <K as PolynomialCommitment<Fr, P>>::Randomness;
type CKey = <K as PolynomialCommitment<Fr, P>>::CommitterKey;
type VKey = <K as PolynomialCommitment<Fr, P>>::VerifierKey;

const DEG: usize = 5;

fn keys() -> (CKey, VKey) {
    let mut rng = ChaChaRng::seed_from_u64(11);
    let pp = <K as PolynomialCommitment<Fr, P>>::setup(DEG, None, &mut rng).unwrap();
    <K as PolynomialCommitment<Fr, P>>::trim(&pp, DEG, 3, None).unwrap()
}
fn poly(v: &[i64]) -> P {
    P::from_coefficients_vec(v.iter().map(|x| fe(*x)).collect())
}
fn polys() -> Vec<P> {
    let mut rng = ChaChaRng::seed_from_u64(12);
    vec![
        poly(&[]),
        poly(&[1]),
        poly(&[0, 1]),
        poly(&[0, 0, 1]),
        poly(&[1, 1]),
        poly(&[-1, 0, -1]),
        poly(&[2, 0, 0, 3]),
        poly(&[5, -1, 0, -3]),
        P::rand(DEG, &mut rng),
        P::rand(DEG, &mut rng),
        P::rand(2, &mut rng),
    ]
}
fn scalars() -> Vec<Fr> {
    let g: Fr = fe::<Fr>(7).pow([12345678901u64]);
    vec![fe(0), fe(1), fe(-1), fe(2), g, -g]
}
/// s p + t q, coefficient by coefficient.
fn lin(v: &[(Fr, &P)]) -> P {
    let mut c = vec![Fr::zero(); DEG + 1];
    for (s, p) in v {
        for (i, x) in p.coeffs.iter().enumerate() {
            c[i] += *s * x;
        }
    }
    P::from_coefficients_vec(c)
}
fn commit(ck: &CKey, p: &P, hiding: Option<usize>, seed: u64) -> (Cm, Rn) {
    let mut rng = ChaChaRng::seed_from_u64(seed);
    let lp = LabeledPolynomial::new("p".into(), p.clone(), None, hiding);
    let (mut c, mut r) = <K as PolynomialCommitment<Fr, P>>::commit(ck, std::iter::once(&lp), Some(&mut rng)).unwrap();
    (c.pop().unwrap().commitment().clone(), r.pop().unwrap())
}
/// Does `c` open to `p` at `z` with value `v` under randomness `r`? (None: no opening can be made)
fn opens(ck: &CKey, vk: &VKey, c: &Cm, p: &P, r: &Rn, z: Fr, v: Fr) -> Option<bool> {
    let lp = LabeledPolynomial::new("p".into(), p.clone(), None, None);
    let lc = LabeledCommitment::new("p".into(), c.clone(), None);
    let one = Fr::one();
    let proof = guarded(|| {
        <K as PolynomialCommitment<Fr, P>>::open(
            ck,
            std::iter::once(&lp),
            std::iter::once(&lc),
            &z,
            one,
            std::iter::once(r),
            None,
        )
    })
    .ok()?
    .ok()?;
    let mut rng = ChaChaRng::seed_from_u64(1);
    <K as PolynomialCommitment<Fr, P>>::check(vk, std::iter::once(&lc), &z, std::iter::once(v), &proof, one, Some(&mut rng)).ok()
}

pub fn commitments(ctx: &mut Ctx) {
    let (ck, vk) = keys();
    let ps = polys();
    let ss = scalars();
    let cs: Vec<Cm> = ps.iter().map(|p| commit(&ck, p, None, 0).0).collect();
    let zero = K::zero_comm();

    // one and two operands: every pair of polynomials and scalars
    let mut cases = vec![];
    for i in 0..ps.len() {
        for j in 0..ps.len() {
            cases.push((i, j));
        }
    }
    ctx.sweep(
        "pairs",
        "all pairs of 11 polynomials of degree <= 5 (zero, monomials, cancelling and generic ones) x all pairs of 6 scalars, commitments without blinding",
        &cases,
        |&(i, j), r| {
            let (p, q, c, d) = (&ps[i], &ps[j], &cs[i], &cs[j]);
            let eq = p == q;
            r.steps(6);
            r.check(K::eq_cm(c, d) == eq, "eq", || format!("eq_cm is {} for polynomials that are equal: {}", !eq, eq));
            let sum = K::add(c, d);
            r.check(sum == commit(&ck, &lin(&[(fe(1), p), (fe(1), q)]), None, 0).0, "add", || "add".into());
            r.check(K::eq_cm(&sum, &K::add(d, c)), "add-commutes", || "add".into());
            let diff = K::add(c, &K::neg_com(d));
            r.check(K::is_zero(&diff) == eq, "is-zero", || "is_zero of a difference".into());
            r.check(diff == commit(&ck, &lin(&[(fe(1), p), (fe(-1), q)]), None, 0).0, "neg", || "neg_com".into());
            r.exec((i, j), if eq { "equal" } else { "different" });
            for (a, s) in ss.iter().enumerate() {
                for (b, t) in ss.iter().enumerate() {
                    let want = commit(&ck, &lin(&[(*s, p), (*t, q)]), None, 0).0;
                    let got = K::add(&K::scale_com(c, *s), &K::scale_com(d, *t));
                    let m = K::msm(&[c.clone(), d.clone()], &[*s, *t]);
                    r.steps(4);
                    r.check(got == want, "scale-add", || format!("scalars {} {}", a, b));
                    r.check(m == want, "msm", || format!("scalars {} {}", a, b));
                    r.exec((i, j, a, b), if K::is_zero(&want) { "zero" } else { "nonzero" });
                }
            }
        },
    );
    ctx.sweep("units", "zero, negation and scaling laws for every polynomial", &(0..ps.len()).collect::<Vec<_>>(), |&i, r| {
        let (p, c) = (&ps[i], &cs[i]);
        r.steps(6);
        r.check(K::is_zero(&zero) && K::eq_cm(&zero, &K::zero_comm()), "zero", || "zero_comm".into());
        r.check(K::is_zero(c) == p.is_zero(), "is-zero", || "is_zero".into());
        r.check(K::add(c, &zero) == *c && K::add(&zero, c) == *c, "neutral", || "zero is not neutral".into());
        r.check(K::is_zero(&K::scale_com(c, fe(0))), "scale-zero", || "scale by zero".into());
        r.check(K::scale_com(c, fe(1)) == *c, "scale-one", || "scale by one".into());
        r.check(K::neg_com(&K::neg_com(c)) == *c, "neg-neg", || "double negation".into());
        r.check(K::is_zero(&K::add(c, &K::neg_com(c))), "neg", || "c - c".into());
        for s in &ss {
            r.check(K::scale_com(c, *s) == commit(&ck, &lin(&[(*s, p)]), None, 0).0, "scale", || format!("{}", s));
        }
        r.exec(i, "ok");
    });
    // combinations of every short list
    let max = if ctx.deeper { 5 } else if ctx.thorough { 4 } else { 3 };
    let items: Vec<(usize, usize)> = [0usize, 8, 9].iter().flat_map(|p| [0usize, 1, 2, 4].iter().map(move |s| (*p, *s))).collect();
    let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut layer = lists.clone();
    for _ in 0..max {
        layer = layer.iter().flat_map(|l| items.iter().map(move |x| { let mut l = l.clone(); l.push(*x); l })).collect();
        lists.extend(layer.clone());
    }
    // longer ones: the window size of the combination depends on the length
    for len in [5usize, 8, 16, 31, 32, 33, 40, 64, 100, 127, 128, 129, 255, 256, 257, 300] {
        lists.push((0..len).map(|i| ((i * 7 + 1) % ps.len(), (i * 5) % ss.len())).collect());
        lists.push((0..len).map(|i| (i % ps.len(), (i / 2) % ss.len())).collect());
    }
    let bound = format!("all lists of up to {} (polynomial, scalar) from 3 x 4, and 32 lists of lengths 5..300", max);
    ctx.sweep("lists", &bound, &lists, |l, r| {
        let c: Vec<Cm> = l.iter().map(|x| cs[x.0].clone()).collect();
        let s: Vec<Fr> = l.iter().map(|x| ss[x.1]).collect();
        let want = commit(&ck, &lin(&l.iter().map(|x| (ss[x.1], &ps[x.0])).collect::<Vec<_>>()), None, 0).0;
        r.steps(1);
        let got = K::msm(&c, &s);
        r.check(got == want, "msm", || "combination of a list".into());
        r.exec(l, if K::is_zero(&got) { "zero" } else { "nonzero" });
    });
    // scalars around every power of two
    let cases: Vec<(u64, i64)> = (0..255).flat_map(|e| [-1i64, 0, 1].iter().map(move |d| (e, *d))).collect();
    ctx.sweep("scalar-bits", "scalars 2^e-1, 2^e, 2^e+1 and their negatives for every e below 255: scaling, combination of two, scaled randomness", &cases, |&(e, d), r| {
        let s = fe::<Fr>(2).pow([e]) + fe::<Fr>(d);
        let (_, rc) = commit(&ck, &ps[8], Some(2), 21);
        for s in [s, -s] {
            for (i, j) in [(8usize, 9usize), (9, 8), (8, 0)] {
                let (p, q, c, d) = (&ps[i], &ps[j], &cs[i], &cs[j]);
                let t = s * s + fe::<Fr>(3);
                r.check(K::scale_com(c, s) == commit(&ck, &lin(&[(s, p)]), None, 0).0, "scale", || format!("{}", s));
                r.check(K::msm(&[c.clone(), d.clone()], &[s, t]) == commit(&ck, &lin(&[(s, p), (t, q)]), None, 0).0, "msm", || format!("{}", s));
                r.steps(2);
            }
            let want = lin(&[(s, &rc.blinding_polynomial)]);
            r.check(trimmed(&K::scale_rand(&rc, s).blinding_polynomial) == trimmed(&want), "scale-rand", || format!("{}", s));
            r.steps(1);
        }
        r.exec((e, d), "ok");
    });
    // blinded commitments: combined randomness opens the combined commitment
    let hb = [None, Some(1usize), Some(2)];
    let sc: Vec<usize> = if ctx.thorough { (0..ss.len()).collect() } else { vec![0, 1, 2, 4] };
    let pick: Vec<usize> = if ctx.thorough { vec![0, 2, 5, 6, 7, 8, 9] } else { vec![0, 6, 7, 8] };
    let mut cases = vec![];
    for &i in &pick {
        for &j in &pick {
            for h in 0..3 {
                for k in 0..3 {
                    if h + k == 0 { continue; }
                    for same in [false, true] {
                        // the same polynomial committed with the same randomness: differences cancel fully
                        if same && (i != j || h != k) { continue; }
                        cases.push((i, j, h, k, same));
                    }
                }
            }
        }
    }
    let bound = format!(
        "all pairs of {} polynomials x blinding degrees none/1/2 each x all pairs of {} scalars; opened at two points",
        pick.len(), sc.len()
    );
    ctx.sweep("blinded", &bound, &cases, |&(i, j, h, k, same), r| {
        let (c, rc) = commit(&ck, &ps[i], hb[h], 21);
        let (d, rd) = commit(&ck, &ps[j], hb[k], if same { 21 } else { 22 });
        let z: Fr = fe(3);
        // combining the same randomness in either way gives the same
        r.check(K::add_rands(&rc, &rd) == K::add_rands(&rd, &rc), "add-rands", || "not commutative".into());
        for &a in &sc {
            for &b in &sc {
                let (s, t) = (ss[a], ss[b]);
                let p = lin(&[(s, &ps[i]), (t, &ps[j])]);
                let comb = K::add(&K::scale_com(&c, s), &K::scale_com(&d, t));
                let m = K::msm(&[c.clone(), d.clone()], &[s, t]);
                let (x, y) = (K::scale_rand(&rc, s), K::scale_rand(&rd, t));
                let rand = K::add_rands(&x, &y);
                let mut assigned = x.clone();
                K::add_assign_rand(&mut assigned, &y);
                r.steps(8);
                r.check(comb == m, "msm", || format!("{} {}", a, b));
                // coefficient-wise reference
                let coeffs = lin(&[(s, &rc.blinding_polynomial), (t, &rd.blinding_polynomial)]);
                r.check(trimmed(&rand.blinding_polynomial) == trimmed(&coeffs), "combined-randomness", || format!("{} {}", a, b));
                r.check(trimmed(&assigned.blinding_polynomial) == trimmed(&coeffs), "assigned-randomness", || format!("{} {}", a, b));
                // opening is the expensive part: generic scalars and the cancelling ones
                let v = p.evaluate(&z);
                let o = opens(&ck, &vk, &comb, &p, &rand, z, v);
                r.steps(2);
                r.check(o == Some(true), "opens", || format!("combination {} {}: {:?}", a, b, o));
                r.exec((i, j, h, k, same, a, b), format!("{:?}", o));
                let bad = opens(&ck, &vk, &comb, &p, &rand, z, v + Fr::one());
                r.check(bad != Some(true), "opens-false", || format!("false value accepted {} {}", a, b));
                if !coeffs.is_zero() {
                    let bad = opens(&ck, &vk, &comb, &p, &Rn::empty(), z, v);
                    r.check(bad != Some(true), "opens-unblinded", || format!("blinding not needed {} {}", a, b));
                }
            }
        }
    });
    // several additions in a row, each of which may cancel the leading part of the randomness
    let seqs: Vec<Vec<(usize, i64)>> = {
        let step: Vec<(usize, i64)> = (0..4).flat_map(|r| [1i64, -1].iter().map(move |s| (r, *s))).collect();
        let mut all = vec![vec![]];
        let mut layer: Vec<Vec<(usize, i64)>> = vec![vec![]];
        for _ in 0..if ctx.deeper { 6 } else if ctx.thorough { 5 } else { 4 } {
            layer = layer.iter().flat_map(|l| step.iter().map(move |x| { let mut l = l.clone(); l.push(*x); l })).collect();
            all.extend(layer.clone());
        }
        all
    };
    ctx.sweep("randomness", "all sequences of up to 5 (thorough 6) signed additions of 4 randomness values that share leading coefficients", &seqs, |seq, r| {
        let base: Vec<Rn> = [&[1i64, 2, 3][..], &[4, 5, 3], &[6, 2], &[]]
            .iter()
            .map(|v| { let mut x = Rn::empty(); x.blinding_polynomial = poly(v); x })
            .collect();
        let mut a = Rn::empty();
        let mut b = Rn::empty();
        for (i, s) in seq {
            let term = K::scale_rand(&base[*i], fe(*s));
            a = K::add_rands(&a, &term);
            K::add_assign_rand(&mut b, &term);
            r.steps(3);
        }
        let want = lin(&seq.iter().map(|(i, s)| (fe(*s), &base[*i].blinding_polynomial)).collect::<Vec<_>>());
        r.check(trimmed(&a.blinding_polynomial) == trimmed(&want), "add-rands", || format!("{:?}", a));
        r.check(trimmed(&b.blinding_polynomial) == trimmed(&want), "add-assign-rand", || format!("{:?}", b));
        r.exec(seq, if want.is_zero() { "zero" } else { "nonzero" });
    });
    let lens: Vec<(usize, usize)> = (0..=33usize).chain([63, 64, 65, 127, 128, 200]).flat_map(|a| (0..=33usize).chain([64, 65, 128, 257]).map(move |b| (a, b))).collect();
    ctx.sweep("long-randomness", "randomness of 0..33 and around 64,128,200 coefficients, added to randomness of 0..33 and around 64,128,256, three scalars; also with the leading, the lowest or every coefficient cancelling", &lens, |&(la, lb), r| {
        let values = |seed: u64, l: usize| (0..l).map(|i| fe::<Fr>(filler(seed, i) + 1).pow([3])).collect::<Vec<Fr>>();
        let rn = |v: &[Fr]| { let mut x = Rn::empty(); x.blinding_polynomial = P::from_coefficients_vec(v.to_vec()); x };
        let (a, b) = (values(1, la), values(2, lb));
        let m = la.min(lb);
        let mut others = vec![b.clone()];
        if m > 0 {
            let mut low = b.clone();
            low[0] = -a[0];
            let mut all = b.clone();
            (0..m).for_each(|i| all[i] = -a[i]);
            let mut top = b.clone();
            (m / 2..m).for_each(|i| top[i] = -a[i]);
            others.extend([low, all, top]);
        }
        for (k, b) in others.iter().enumerate() {
            let (x, y) = (rn(&a), rn(b));
            for s in [fe::<Fr>(1), fe(-1), fe::<Fr>(7).pow([99])] {
                let want: Vec<Fr> = {
                    let mut v: Vec<Fr> = (0..la.max(lb)).map(|i| *a.get(i).unwrap_or(&Fr::zero()) + s * b.get(i).unwrap_or(&Fr::zero())).collect();
                    while v.last().map_or(false, |x| x.is_zero()) { v.pop(); }
                    v
                };
                let t = K::scale_rand(&y, s);
                let mut z = x.clone();
                K::add_assign_rand(&mut z, &t);
                r.steps(3);
                r.check(trimmed(&t.blinding_polynomial) == trimmed(&P::from_coefficients_vec(b.iter().map(|v| s * v).collect())), "scale-rand", || format!("{}", s));
                r.check(trimmed(&K::add_rands(&x, &t).blinding_polynomial) == want, "add-rands", || format!("variant {} {}", k, s));
                r.check(trimmed(&z.blinding_polynomial) == want, "add-assign-rand", || format!("variant {} {}", k, s));
                r.exec((la, lb, k, s), if want.is_empty() { "zero" } else { "nonzero" });
            }
        }
    });
    ctx.require("blinded", |s| s.outcomes.get("Some(true)").copied().unwrap_or(0) > 500, "combined commitments open");
    ctx.require("pairs", |s| s.outcomes.len() == 4, "equal, different, zero and nonzero combinations occur");
}
fn trimmed(p: &P) -> Vec<Fr> {
    let mut v = p.coeffs.clone();
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    v
}

// ---------------------------------------------------------------- P19

type B2b = SimpleHashFiatShamirRng<blake2::Blake2b, ChaChaRng>;
type Chacha8 = SimpleHashFiatShamirRng<blake2::Blake2s, rand_chacha::ChaCha8Rng>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Draw {
    U32,
    U64,
    Fill(usize),
    TryFill(usize),
}
fn draw(g: &mut impl RngCore, d: Draw) -> Vec<u8> {
    match d {
        Draw::U32 => g.next_u32().to_le_bytes().to_vec(),
        Draw::U64 => g.next_u64().to_le_bytes().to_vec(),
        Draw::Fill(n) => { let mut v = vec![0; n]; g.fill_bytes(&mut v); v }
        Draw::TryFill(n) => { let mut v = vec![0; n]; g.try_fill_bytes(&mut v).unwrap(); v }
    }
}
fn stream(g: &mut impl RngCore, n: usize) -> Vec<u8> {
    draw(g, Draw::Fill(n))
}
/// Inputs, as byte strings; the empty string, prefixes of each other, equal concatenations.
fn inputs() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0], vec![7; 9]]
}
fn replay<G: FiatShamirRng>(h: &[Vec<u8>], between: &[Option<Draw>]) -> G {
    let mut g = G::initialize(&h[0]);
    for (i, x) in h[1..].iter().enumerate() {
        if let Some(Some(d)) = between.get(i) {
            draw(&mut g, *d);
        }
        g.absorb(x);
    }
    g
}
fn histories(alphabet: &[Vec<u8>], depth: usize) -> Vec<Vec<Vec<u8>>> {
    let mut out: Vec<Vec<Vec<u8>>> = vec![];
    let mut layer: Vec<Vec<Vec<u8>>> = alphabet.iter().map(|x| vec![x.clone()]).collect();
    out.extend(layer.clone());
    for _ in 0..depth {
        layer = layer.iter().flat_map(|h| alphabet.iter().map(move |x| { let mut h = h.clone(); h.push(x.clone()); h })).collect();
        out.extend(layer.clone());
    }
    out
}

/// Distinctness of the streams of distinct histories, and equality of those of equal ones.
fn distinct<G: FiatShamirRng>(ctx: &mut Ctx, name: &str, depth: usize) {
    use std::collections::HashMap;
    use std::sync::Mutex;
    let hs = histories(&inputs(), depth);
    let seen: Mutex<HashMap<Vec<u8>, usize>> = Mutex::new(HashMap::new());
    let bound = format!("every history of an initial and up to {} absorbed inputs over 7 byte strings; first 64 bytes of the stream", depth);
    ctx.range(name, &bound, hs.len(), |i| format!("{:?}", hs[i]), |i, r| {
        let h = &hs[i];
        let s = stream(&mut replay::<G>(h, &[]), 64);
        let again = stream(&mut replay::<G>(h, &[]), 64);
        r.steps(2 * h.len());
        r.check(s == again, "not-a-function", || "two runs of one history differ".into());
        // the two halves of the stream are not the same bytes
        r.check(s[..32] != s[32..], "constant", || "the stream repeats itself".into());
        let other = seen.lock().unwrap().insert(s.clone(), i);
        if let Some(o) = other {
            if o != i {
                r.fail("collision", format!("same stream as history {:?}", hs[o]));
            }
        }
        r.exec(h, "distinct");
    });
}

pub fn transcript(ctx: &mut Ctx) {
    let d = if ctx.thorough { 6 } else { 4 };
    distinct::<RealFS>(ctx, "histories", d);
    distinct::<B2b>(ctx, "histories-blake2b", d - 2);
    distinct::<Chacha8>(ctx, "histories-chacha8", d - 2);

    // draws before an absorb leave no trace
    let acts = [None, Some(Draw::U32), Some(Draw::U64), Some(Draw::Fill(5)), Some(Draw::TryFill(300)), Some(Draw::Fill(0))];
    let k = if ctx.deeper { 5 } else if ctx.thorough { 4 } else { 3 };
    let mut plans: Vec<Vec<Option<Draw>>> = vec![vec![]];
    for _ in 0..k {
        plans = plans.iter().flat_map(|p| acts.iter().map(move |a| { let mut p = p.clone(); p.push(*a); p })).collect();
    }
    let hs: Vec<_> = histories(&[vec![], vec![0], vec![1, 0]], k).into_iter().filter(|h| h.len() == k + 1).collect();
    let bound = format!("every history of {} absorbs over 3 inputs x every choice of 6 kinds of draws before each of them", k);
    ctx.sweep("draws-between", &bound, &hs, |h, r| {
        let want = stream(&mut replay::<RealFS>(h, &[]), 96);
        for p in &plans {
            let s = stream(&mut replay::<RealFS>(h, p), 96);
            r.steps(2 * k + 1);
            r.check(s == want, "draws-matter", || format!("draws {:?} change the stream", p));
            r.exec((h, p), "same");
        }
    });
    // typed inputs are absorbed as their bytes
    ctx.single("typed", "integers, field elements, vectors and tuples as inputs", |r| {
        fn after<T: ark_ff::ToBytes>(t: &T) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
            let b = ark_ff::to_bytes![t].unwrap();
            let mut g = RealFS::initialize(&vec![9u8]);
            g.absorb(t);
            let mut h = RealFS::initialize(&vec![9u8]);
            h.absorb(&b);
            let mut i = RealFS::initialize(t);
            let mut j = RealFS::initialize(&b);
            assert_eq!(stream(&mut i, 64), stream(&mut j, 64));
            (stream(&mut g, 64), stream(&mut h, 64), b)
        }
        let f: Vec<F62> = (0..40).map(|i| fe(filler(3, i))).collect();
        let mut all = vec![];
        let mut run = |r: &mut Rec, x: (Vec<u8>, Vec<u8>, Vec<u8>), what: &str| {
            r.steps(2);
            r.check(x.0 == x.1, "typed", || format!("{} is not absorbed as its bytes", what));
            r.exec(what, "same");
            all.push((x.2, x.0));
        };
        run(r, after(&5u8), "u8");
        run(r, after(&5u16), "u16");
        run(r, after(&5u32), "u32");
        run(r, after(&5u64), "u64");
        run(r, after(&f[0]), "field");
        run(r, after(&f[1]), "field2");
        run(r, after(&f), "vector");
        run(r, after(&f[..39].to_vec()), "shorter vector");
        run(r, after(&fe::<Fr>(-1)), "large field");
        run(r, after(&[1u8; 32]), "array");
        for i in 0..all.len() {
            for j in 0..i {
                r.check(all[i].0 == all[j].0 || all[i].1 != all[j].1, "collision", || format!("{:?} {:?}", all[i].0, all[j].0));
            }
        }
    });
    // every byte of an input matters, whatever its length
    let lens: Vec<usize> = if ctx.thorough { (1..=300).collect() } else { (1..=40).chain([63, 64, 65, 96, 127, 128, 129, 200, 255, 256, 257, 300]).collect() };
    ctx.sweep("every-byte", "inputs of up to 300 bytes, first or absorbed, alone or followed by another absorb: every byte changed, one byte appended, one byte dropped", &lens, |&len, r| {
        let base: Vec<u8> = (0..len).map(|i| (hash(&(i, "b")) & 0xff) as u8).collect();
        let mut variants = vec![base.clone()];
        for i in 0..len {
            for m in [1u8, 0x80] {
                let mut v = base.clone();
                v[i] ^= m;
                variants.push(v);
            }
        }
        variants.push(base[1..].to_vec());
        variants.push(base[..len - 1].to_vec());
        let mut longer = base.clone();
        longer.push(0);
        variants.push(longer);
        if len > 2 {
            let mut v = base.clone();
            v.swap(0, len - 1);
            if v != base { variants.push(v); }
        }
        variants.sort();
        variants.dedup();
        for place in 0..3 {
            let mut seen = std::collections::HashMap::new();
            for v in &variants {
                let h: Vec<Vec<u8>> = match place {
                    0 => vec![v.clone()],
                    1 => vec![vec![3], v.clone()],
                    _ => vec![vec![3], v.clone(), vec![5]],
                };
                let s = stream(&mut replay::<RealFS>(&h, &[]), 32);
                r.steps(h.len());
                if let Some(o) = seen.insert(s, v.clone()) {
                    r.fail("ignored-byte", format!("place {}: inputs {:?} and {:?} give the same stream", place, o, v));
                }
                r.exec(&h, "distinct");
            }
        }
    });
    // long inputs: every byte of columns and proofs of several kilobytes
    let longs: Vec<usize> = if ctx.deeper { (500..600).chain((1000..9000).step_by(97)).chain([16384, 20000, 30000]).collect() } else if ctx.thorough { vec![511, 512, 513, 1023, 1024, 1025, 1536, 2047, 2048, 2049, 4096, 5000, 8193, 16384, 20000] } else { vec![512, 1025, 2049, 5000] };
    ctx.sweep("every-byte-long", "long inputs (up to 20000, thorough 30000 bytes): every byte changed, prefixes and extensions", &longs, |&len, r| {
        let base: Vec<u8> = (0..len).map(|i| (hash(&(i, "b")) & 0xff) as u8).collect();
        let mut seen = std::collections::HashMap::new();
        let mut run = |what: String, v: &Vec<u8>, r: &mut Rec| {
            let s = stream(&mut replay::<RealFS>(&[vec![3], v.clone()], &[]), 32);
            r.steps(2);
            if let Some(o) = seen.insert(s, what.clone()) {
                r.fail("ignored-byte", format!("length {}: {} and {} give the same stream", len, o, what));
            }
            r.exec((len, what), "distinct");
        };
        run("base".into(), &base, r);
        for i in 0..len {
            let mut v = base.clone();
            v[i] ^= 1;
            run(format!("byte {} changed", i), &v, r);
        }
        run("first dropped".into(), &base[1..].to_vec(), r);
        run("last dropped".into(), &base[..len - 1].to_vec(), r);
        let mut v = base.clone();
        v.push(0);
        run("zero appended".into(), &v, r);
    });
    // columns of many rows: bytes around every power of two
    let huge: Vec<usize> = if ctx.deeper { vec![8193, 20000, 65535, 65536, 65537, 1 << 17, (1 << 18) + 1, (1 << 20) + 9, (1 << 22) + 5] } else if ctx.thorough { vec![8193, 20000, 65535, 65537, (1 << 18) + 1, (1 << 20) + 9] } else { vec![8193, 20000, 65537, (1 << 18) + 1] };
    ctx.sweep("distant-bytes", "inputs of 8 kilobytes to a megabyte (thorough: 4): bytes next to every power of two and every 4096 changed, prefixes and extensions", &huge, |&len, r| {
        let base: Vec<u8> = (0..len).map(|i| (hash(&(i, "d")) & 0xff) as u8).collect();
        let mut at: std::collections::BTreeSet<usize> = (0..21).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
        at.extend((0..len).step_by(4096));
        at.extend([0, len / 2, len / 3, len - 2, len - 1, len - 32, len - 33]);
        let mut seen = std::collections::HashMap::new();
        let mut run = |what: String, v: &[u8], r: &mut Rec| {
            let s = stream(&mut replay::<RealFS>(&[vec![3], v.to_vec()], &[]), 32);
            r.steps(2);
            if let Some(o) = seen.insert(s, what.clone()) {
                r.fail("ignored-byte", format!("length {}: {} and {} give the same stream", len, o, what));
            }
            r.exec((len, what), "distinct");
        };
        run("base".into(), &base, r);
        let mut v = base.clone();
        for i in at.into_iter().filter(|i| *i < len) {
            v[i] ^= 1;
            run(format!("byte {} changed", i), &v, r);
            v[i] ^= 1;
        }
        for cut in [1, 2, 31, 32, 33, 64, 4096] {
            run(format!("{} bytes dropped", cut), &base[..len - cut], r);
            run(format!("first {} bytes dropped", cut), &base[cut..], r);
        }
        v.push(0);
        run("zero appended".into(), &v, r);
    });
    // all draw functions read one stream
    let ops = [Draw::U32, Draw::U64, Draw::Fill(4), Draw::Fill(8), Draw::TryFill(4), Draw::TryFill(12), Draw::Fill(244), Draw::TryFill(252), Draw::Fill(0)];
    let depth = if ctx.deeper { 7 } else if ctx.thorough { 6 } else { 4 };
    let mut seqs: Vec<Vec<Draw>> = vec![vec![]];
    let mut layer: Vec<Vec<Draw>> = vec![vec![]];
    for _ in 0..depth {
        layer = layer.iter().flat_map(|p| ops.iter().map(move |a| { let mut p = p.clone(); p.push(*a); p })).collect();
        seqs.extend(layer.clone());
    }
    let total: usize = 252 * depth + 8;
    let want = stream(&mut replay::<RealFS>(&[vec![1], vec![2]], &[]), total);
    let bound = format!("every sequence of up to {} draws of 9 kinds (across the generator's 256-byte blocks) against one long draw", depth);
    ctx.sweep("one-stream", &bound, &seqs, |q, r| {
        let mut g = replay::<RealFS>(&[vec![1], vec![2]], &[]);
        let mut got = vec![];
        for d in q {
            got.extend(draw(&mut g, *d));
        }
        r.steps(q.len());
        r.check(got == want[..got.len()], "other-stream", || "a draw function reads something else".into());
        r.exec(q, "same");
    });
    // unaligned draws give prefixes of the stream too
    ctx.sweep("first-draw", "a single draw of every length up to 300 bytes", &(0usize..=300).collect::<Vec<_>>(), |&n, r| {
        for d in [Draw::Fill(n), Draw::TryFill(n)] {
            let got = draw(&mut replay::<RealFS>(&[vec![1], vec![2]], &[]), d);
            r.steps(1);
            r.check(got == want[..n], "other-stream", || format!("{:?}", d));
            r.exec((n, d), "same");
        }
    });
}
