//! P15, P16, P17: built-in gates, constraint expressions, the mock prover.
use super::common::*;
use super::gates;
use std::collections::BTreeSet;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::verif_hooks::MockProver;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::{Delta, DeltaXorAnd};
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::{PlonkArith4, PrecompiledPlonkArith};
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

type Bls = ark_bls12_381::Fr;

/// Value of a configured expression, given the value of every (kind, label, offset).
fn value<F: PrimeField>(e: &Expression<F>, look: &impl Fn(char, &str, Rotation) -> F) -> F {
    e.evaluate(
        &|c: F| c,
        &|q: &OracleQuery| {
            let kind = match q.oracle_type {
                OracleType::Witness => 'w',
                OracleType::Instance => 'p',
                OracleType::Fixed => 'x',
            };
            look(kind, &q.label, q.rotation)
        },
        &|a: F| -a,
        &|a: F, b: F| a + b,
        &|a: F, b: F| a * b,
        &|a: F, k: F| a * k,
    )
}

// ---------------------------------------------------------------- P15

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Built {
    Mul,
    Plonk,
    Plonk4,
    Rescue,
    Delta,
    XorAnd,
}
const BUILT: [Built; 6] = [Built::Mul, Built::Plonk, Built::Plonk4, Built::Rescue, Built::Delta, Built::XorAnd];
impl Built {
    fn vo<F: PrimeField>(self) -> GenericVO<F> {
        GenericVO::init(match self {
            Built::Mul => PrecompiledMul::get_expr_and_queries(),
            Built::Plonk => PrecompiledPlonkArith::get_expr_and_queries(),
            Built::Plonk4 => PlonkArith4::get_expr_and_queries(),
            Built::Rescue => PrecompiledRescue::get_expr_and_queries(),
            Built::Delta => Delta::get_expr_and_queries(),
            Built::XorAnd => DeltaXorAnd::get_expr_and_queries(),
        })
    }
    /// (fixed, instance, witness) cells that the documentation names, in its order
    fn cells(self) -> Vec<(Col, i32)> {
        let x = |n: usize| (0..n).map(|i| (Col::X(i), 0));
        let w = |n: usize| (0..n).map(|i| (Col::W(i), 0));
        match self {
            Built::Mul => w(2).chain([(Col::I(0), 0)]).collect(),
            Built::Plonk => x(5).chain([(Col::I(0), 0)]).chain(w(3)).collect(),
            Built::Plonk4 => x(6).chain([(Col::I(0), 0)]).chain(w(4)).collect(),
            Built::Rescue => x(4).chain(w(5)).collect(),
            Built::Delta => vec![(Col::X(0), 0), (Col::W(0), 0), (Col::W(0), 1)],
            Built::XorAnd => w(4).chain([(Col::X(0), 0)]).collect(),
        }
    }
    /// Value documented for the values of `cells`.
    fn documented<F: PrimeField>(self, v: &[F]) -> F {
        let k = |n: i64| fe::<F>(n);
        match self {
            Built::Mul => v[0] * v[1] - v[2],
            Built::Plonk => v[0] * v[6] * v[7] + v[1] * v[6] + v[2] * v[7] + v[3] * v[8] + v[4] + v[5],
            Built::Plonk4 => {
                // qm ql qr q4 qo qc pi a b c d
                v[0] * v[7] * v[8] + v[1] * v[7] + v[2] * v[8] + v[4] * v[9] + v[3] * v[10] + v[5] + v[6]
            }
            Built::Rescue => {
                (0..4).map(|i| v[i] * v[4 + i].pow([5u64])).fold(F::zero(), |a, b| a + b) - v[8]
            }
            Built::Delta => {
                let e = v[2] - k(4) * v[1];
                (F::one() - v[0]) * e * (e - k(1)) * (e - k(2)) * (e - k(3))
            }
            Built::XorAnd => {
                let (a, b, c, d, q) = (v[0], v[1], v[2], v[3], v[4]);
                let f = c * (c * (k(4) * c - k(18) * (a + b) + k(81)) + k(18) * (a * a + b * b) - k(81) * (a + b) + k(83));
                q * (k(9) * d - k(3) * (a + b)) + k(3) * (a + b + d) - k(2) * f
            }
        }
    }
    /// The same as an expression of the reference.
    fn reference(self) -> E {
        match self {
            Built::Mul => w(0) * w(1) - pi(0),
            Built::Plonk => x(0) * w(0) * w(1) + x(1) * w(0) + x(2) * w(1) + x(3) * w(2) + x(4) + pi(0),
            Built::Plonk4 => {
                x(0) * w(0) * w(1) + x(1) * w(0) + x(2) * w(1) + x(3) * w(3) + x(4) * w(2) + x(5) + pi(0)
            }
            Built::Rescue => {
                let p5 = |i: usize| x(i) * w(i) * w(i) * w(i) * w(i) * w(i);
                p5(0) + p5(1) + p5(2) + p5(3) - w(4)
            }
            Built::Delta => {
                let e = || wr(0, 1) - c(4) * w(0);
                (c(1) - x(0)) * e() * (e() - c(1)) * (e() - c(2)) * (e() - c(3))
            }
            Built::XorAnd => {
                let s = || w(0) + w(1);
                let f = w(2) * (w(2) * (c(4) * w(2) - c(18) * s() + c(81)) + c(18) * (w(0) * w(0) + w(1) * w(1)) - c(81) * s() + c(83));
                x(0) * (c(9) * w(3) - c(3) * s()) + c(3) * (s() + w(3)) - c(2) * f
            }
        }
    }
}

/// A configured built-in gate over a set of columns whose labels are shuffled by `turn`.
struct Configured<F: PrimeField> {
    vo: GenericVO<F>,
    label: Box<dyn Fn(Col) -> String + Sync + Send>,
    registered: BTreeSet<(String, Rotation)>,
}
fn configure<F: PrimeField>(b: Built, turn: usize) -> Configured<F> {
    let label = move |k: Col| match k {
        Col::W(i) => format!("w{}", (i + turn) % 7),
        Col::I(i) => format!("p{}", (i + turn) % 7),
        Col::X(i) => format!("x{}", (i + turn) % 7),
    };
    let mut wv: Vec<_> = (0..7)
        .map(|i| zero_over_k::oracles::witness::WitnessVerifierOracle::<F, ToyPC<F>>::new(label(Col::W(i)), false))
        .collect();
    let mut iv: Vec<_> = (0..7)
        .map(|i| zero_over_k::oracles::instance::InstanceVerifierOracle::<F>::new(label(Col::I(i)), DensePolynomial::zero()))
        .collect();
    let mut xv: Vec<_> = (0..7)
        .map(|i| zero_over_k::oracles::fixed::FixedVerifierOracle::<F, ToyPC<F>>::new(label(Col::X(i)), None))
        .collect();
    let mut vo = b.vo::<F>();
    vo.configure(&mut wv, &mut iv, &mut xv);
    let mut registered = BTreeSet::new();
    fn collect<F: PrimeField>(v: &[impl ConcreteOracle<F>], out: &mut BTreeSet<(String, Rotation)>) {
        for o in v {
            for r in o.get_queried_rotations() {
                out.insert((o.get_label(), *r));
            }
        }
    }
    collect(&wv, &mut registered);
    collect(&iv, &mut registered);
    collect(&xv, &mut registered);
    Configured { vo, label: Box::new(label), registered }
}
impl<F: PrimeField> Configured<F> {
    /// Value of the gate when `cells[i]` holds `v[i]` and every other cell holds `other`.
    fn at(&self, cells: &[(Col, i32)], v: &[F], other: F) -> F {
        let named: Vec<(String, Rotation)> = cells.iter().map(|(k, r)| ((self.label)(*k), rotation(*r))).collect();
        value(self.vo.get_expression().unwrap(), &|_, l, rot| {
            named.iter().position(|(a, b)| a == l && *b == rot).map(|i| v[i]).unwrap_or(other)
        })
    }
}

fn formula<F: PrimeField>(b: Built, turn: usize, prefix: &[F], alphabet: &[F], r: &mut Rec) {
    let g = configure::<F>(b, turn);
    let cells = b.cells();
    let rest = cells.len() - prefix.len();
    let named: BTreeSet<(String, Rotation)> = cells.iter().map(|(k, o)| ((g.label)(*k), rotation(*o))).collect();
    r.check(g.registered == named, "registered-offsets", || format!("{:?}: {:?} instead of {:?}", b, g.registered, named));
    let mut digits = vec![0usize; rest];
    let mut v: Vec<F> = prefix.to_vec();
    v.extend(std::iter::repeat(alphabet[0]).take(rest));
    loop {
        let want = b.documented(&v);
        let got = g.at(&cells, &v, fe::<F>(11));
        r.steps(1);
        r.exec((b, turn, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()), if want.is_zero() { "vanishes" } else { "does not vanish" });
        r.check(got == want, "formula", || format!("{:?} at {:?}", b, v.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
        let mut i = 0;
        while i < rest {
            digits[i] += 1;
            if digits[i] < alphabet.len() {
                break;
            }
            digits[i] = 0;
            i += 1;
        }
        if i == rest {
            break;
        }
        for (j, d) in digits.iter().enumerate() {
            v[prefix.len() + j] = alphabet[*d];
        }
    }
}
fn all_of<F: PrimeField>(p: i64) -> Vec<F> {
    (0..p).map(fe).collect()
}

pub fn built_in(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let small: Vec<i64> = vec![0, 1, -1, 2];
    let mut cases = vec![];
    for b in BUILT {
        for turn in 0..3 {
            for p in words(&small, 2) {
                cases.push((b, turn, p));
            }
        }
    }
    ctx.sweep(
        "formulas",
        "every built-in gate, values {0,1,-1,2} for all its wires and selectors (11 wires: {0,1,-1}), three choices of columns",
        &cases,
        |(b, turn, p), r| {
            
            let alpha: Vec<i64> = match b {
                Built::Plonk4 => vec![0, 1, -1],
                _ => small.clone(),
            };
            let p: Vec<F62> = p.iter().map(|x| fe(*x)).collect();
            formula(*b, *turn, &p, &field_col::<F62>(&alpha), r);
        },
    );
    ctx.require("formulas", |s| s.outcomes.get("vanishes").copied().unwrap_or(0) > 1000, "vanishing rows");

    // whole small fields
    let f17 = all_of::<F17>(17);
    ctx.sweep(
        "field-17",
        "multiplication and two-bit range over every triple of the field with 17 elements; plonk gates with four free wires over the whole field",
        &(0..17i64).collect::<Vec<_>>(),
        |x, r| {
            let x = fe::<F17>(*x);
            formula(Built::Mul, 0, &[x], &f17, r);
            formula(Built::Delta, 1, &[x], &f17, r);
            for q in [[1i64, 0, 0, -1, 0], [0, 1, 1, -1, 0], [1, 2, 3, 4, 5]] {
                let mut p = field_col::<F17>(&q);
                p.push(x);
                formula(Built::Plonk, 0, &p, &f17, r);
            }
        },
    );
    ctx.sweep(
        "two-bit-range",
        "every pair of accumulator values of the field with 257 elements, selector in {0,1,2,-1}: vanishes exactly when the row is the last or the next value is four times this one plus 0..3",
        &(0..(if t { 257i64 } else { 193 })).collect::<Vec<_>>(),
        |x, r| {
            if t { range::<F257>(*x, 257, r) } else { range::<F193>(*x, 193, r) }
        },
    );
    ctx.require("two-bit-range", |s| s.outcomes.get("in range").copied().unwrap_or(0) > 700, "rows in range");
    let mut cases = vec![];
    for a in 0..4i64 {
        for b in 0..4i64 {
            for q in [1i64, -1] {
                cases.push((a, b, q));
            }
        }
    }
    ctx.sweep(
        "and-xor",
        "all pairs of two-bit values, the product wire holding the product, every output of fields with 97, 193 and 257 elements and -20..20 of the 62-bit field and the BLS12-381 field",
        &cases,
        |&(a, b, q), r| {
            logic::<F97>(a, b, q, &all_of(97), r);
            logic::<F193>(a, b, q, &all_of(193), r);
            logic::<F257>(a, b, q, &all_of(257), r);
            let near: Vec<i64> = (-20..=20).collect();
            logic::<F62>(a, b, q, &field_col(&near), r);
            logic::<Bls>(a, b, q, &field_col(&near), r);
        },
    );

    lookups_built_in(ctx);

    // the whole protocol on the built-in gates
    let mut cases = vec![];
    for b in BUILT {
        for seed in 0..(if ctx.deeper { 1000 } else if t { 40 } else { 10 }) {
            cases.push((b, seed));
        }
    }
    ctx.sweep(
        "protocol",
        "every built-in gate in the complete protocol: satisfied rows are accepted; every single cell of every column changed is accepted exactly when the documented formula still vanishes everywhere",
        &cases,
        |&(b, seed), r| protocol(b, seed, r),
    );
    ctx.require("protocol", |s| s.outcomes.get("accept: satisfied").copied().unwrap_or(0) >= 60, "accepted proofs");
}
fn range<F: PrimeField>(x: i64, p: i64, r: &mut Rec) {
    let g = configure::<F>(Built::Delta, 0);
    for q in [0i64, 1, 2, -1] {
        for y in 0..p {
            let ok = q == 1 || (0..4).any(|k| (4 * x + k - y).rem_euclid(p) == 0);
            let v = g.at(&Built::Delta.cells(), &[fe(q), fe(x), fe(y)], fe::<F>(11));
            r.steps(1);
            r.exec((x, y, q), if ok { "in range" } else { "out of range" });
            r.check(v.is_zero() == ok, "two-bit-range", || format!("q={} a={} a_next={}", q, x, y));
        }
    }
}
fn logic<F: PrimeField>(a: i64, b: i64, q: i64, ds: &[F], r: &mut Rec) {
    let g = configure::<F>(Built::XorAnd, 0);
    let want = if q == 1 { a & b } else { a ^ b };
    for d in ds {
        let v = g.at(&Built::XorAnd.cells(), &[fe(a), fe(b), fe(a * b), *d, fe(q)], fe::<F>(11));
        let ok = *d == fe::<F>(want);
        r.steps(1);
        r.exec((a, b, q, d.to_string()), if ok { "right output" } else { "wrong output" });
        r.check(v.is_zero() == ok, "and-xor", || format!("a={} b={} q={} d={}", a, b, q, d));
    }
}
fn lookups_built_in(ctx: &mut Ctx) {
    let cases: Vec<(usize, usize)> = vec![(1, 0), (1, 1), (1, 2), (3, 0), (3, 1), (3, 2)];
    ctx.sweep(
        "lookups",
        "one- and three-column lookup under three choices of columns: expressions, table columns, offsets, for all values {0,1,2,3} of the wires",
        &cases,
        |&(k, turn), r| {
            let cfg = if k == 1 {
                PrecompiledSimple1ArithLookup::<F62>::get_expressions_and_queries()
            } else {
                PrecompiledSimple3ArithLookup::<F62>::get_expressions_and_queries()
            };
            let mut vo = GenericLookupVO::init(cfg);
            let l = |c: char, i: usize| format!("{}{}", c, (i + turn) % 5);
            let mut wv: Vec<_> = (0..5)
                .map(|i| zero_over_k::oracles::witness::WitnessVerifierOracle::<F62, T62>::new(l('w', i), false))
                .collect();
            let mut iv: Vec<zero_over_k::oracles::instance::InstanceVerifierOracle<F62>> = vec![];
            let fx = |c: char| -> Vec<zero_over_k::oracles::fixed::FixedVerifierOracle<F62, T62>> {
                (0..5).map(|i| zero_over_k::oracles::fixed::FixedVerifierOracle::new(l(c, i), None)).collect()
            };
            let (mut xv, mut tv) = (fx('x'), fx('t'));
            if let Err(e) = vo.configure(&mut wv, &mut iv, &mut xv, &mut tv) {
                return r.fail("configure", format!("{:?}", e));
            }
            let es = vo.get_expressions().unwrap();
            let ts = vo.get_table_queries().unwrap();
            r.check(es.len() == k && ts.len() == k, "arity", || format!("{} {}", es.len(), ts.len()));
            for vals in words(&[0, 1, 2, 3], k) {
                for (i, e) in es.iter().enumerate() {
                    let got = value(e, &|kind, label, rot| {
                        match (0..k).find(|j| kind == 'w' && l('w', *j) == label && rot == rotation(0)) {
                            Some(j) => fe(vals[j]),
                            None => fe(77),
                        }
                    });
                    r.steps(1);
                    r.exec((k, turn, &vals, i), "input");
                    r.check(got == fe::<F62>(vals[i]), "lookup-input", || format!("input {} of {:?}: {}", i, vals, got));
                }
            }
            for (i, q) in ts.iter().enumerate() {
                let ok = q.label == l('t', i) && q.rotation == rotation(0) && matches!(q.oracle_type, OracleType::Fixed);
                r.check(ok, "lookup-table", || format!("table {} reads {}", i, q.label));
            }
            for j in 0..5 {
                let one = BTreeSet::from([rotation(0)]);
                let want = if j < k { one } else { BTreeSet::new() };
                r.check(*wv[j].get_queried_rotations() == want, "registered-offsets", || format!("wire {}", j));
                r.check(*tv[j].get_queried_rotations() == want, "registered-offsets", || format!("table {}", j));
                r.check(xv[j].get_queried_rotations().is_empty(), "registered-offsets", || format!("fixed {}", j));
            }
        },
    );
}
/// A satisfied assignment of `b` on n rows.
fn satisfied(b: Built, n: usize, seed: u64) -> (Circuit, Asg) {
    let f = |k: u64, r: usize, m: u64| (hash(&(seed, k, r, "sat")) % m) as i64;
    let cells = b.cells();
    let nw = cells.iter().filter_map(|(c, _)| if let Col::W(i) = c { Some(i + 1) } else { None }).max().unwrap_or(0);
    let nx = cells.iter().filter_map(|(c, _)| if let Col::X(i) = c { Some(i + 1) } else { None }).max().unwrap_or(0);
    let ni = cells.iter().filter(|(c, _)| matches!(c, Col::I(_))).count();
    let mut c = Circuit::new(n, nw, ni);
    let mut wv: Vec<Vec<i64>> = (0..nw).map(|k| (0..n).map(|r| f(k as u64, r, 9)).collect()).collect();
    let mut xv: Vec<Vec<i64>> = (0..nx).map(|k| (0..n).map(|r| f(50 + k as u64, r, 5) - 2).collect()).collect();
    let mut iv: Vec<Vec<i64>> = (0..ni).map(|k| (0..n).map(|r| f(90 + k as u64, r, 9)).collect()).collect();
    for r in 0..n {
        match b {
            Built::Mul => iv[0][r] = wv[0][r] * wv[1][r],
            Built::Plonk => iv[0][r] = -(xv[0][r] * wv[0][r] * wv[1][r] + xv[1][r] * wv[0][r] + xv[2][r] * wv[1][r] + xv[3][r] * wv[2][r] + xv[4][r]),
            Built::Plonk4 => {
                iv[0][r] = -(xv[0][r] * wv[0][r] * wv[1][r] + xv[1][r] * wv[0][r] + xv[2][r] * wv[1][r] + xv[3][r] * wv[3][r] + xv[4][r] * wv[2][r] + xv[5][r])
            }
            Built::Rescue => wv[4][r] = (0..4).map(|i| xv[i][r] * wv[i][r].pow(5)).sum(),
            Built::Delta => {
                wv[0][r] = if r == 0 { f(1, 0, 4) } else { 4 * wv[0][r - 1] + f(1, r, 4) };
                xv[0][r] = (r == n - 1) as i64;
            }
            Built::XorAnd => {
                let (p, q) = (f(1, r, 4), f(2, r, 4));
                xv[0][r] = if f(3, r, 2) == 0 { 1 } else { -1 };
                wv[0][r] = p;
                wv[1][r] = q;
                wv[2][r] = p * q;
                wv[3][r] = if xv[0][r] == 1 { p & q } else { p ^ q };
            }
        }
    }
    c.fixed = xv;
    c.gates = vec![b.reference()];
    (c, Asg { w: wv, inst: iv })
}
fn protocol(b: Built, seed: u64, r: &mut Rec) {
    let (c, a) = satisfied(b, 4, seed);
    let mut fixed_variants = vec![c.clone()];
    for k in 0..c.fixed.len() {
        let mut d = c.clone();
        d.fixed[k][(seed as usize + k) % c.n] += 1;
        fixed_variants.push(d);
    }
    for c in fixed_variants {
        let mut sys = match Sys::<F62, T62>::new(&c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
        // the system under test uses the built-in gate
        let mut g = b.vo::<F62>();
        let (mut w, mut i) = (sys.raw_wv(), sys.raw_iv(&vec![vec![0; c.n]; c.ni]));
        g.configure(&mut w, &mut i, &mut sys.fixed);
        sys.gates = vec![g];
        let keys = match sys.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
        let mut asgs = vec![a.clone()];
        for row in 0..c.n {
            for k in 0..c.nw {
                let mut m = a.clone();
                m.w[k][row] += 1;
                asgs.push(m);
            }
            for k in 0..c.ni {
                let mut m = a.clone();
                m.inst[k][row] -= 1;
                asgs.push(m);
            }
        }
        for (j, m) in asgs.iter().enumerate() {
            let ok = sat::<F62>(&c, m).all();
            let mut rng = ZkRng::new(j as u64);
            let out = match sys.prove::<TapeFS, _>(&keys, m, &mut rng) {
                Err(o) => o,
                Ok(p) => sys.verify::<TapeFS>(&keys, &m.inst, p),
            };
            r.steps(2);
            r.exec((b, seed, &c.fixed, j), format!("{}: {}", out.kind(), if ok { "satisfied" } else { "violated" }));
            r.check(out.accepted() == ok, "verdict", || format!("{:?} {:?}: {:?}, satisfied: {}", b, m, out, ok));
        }
    }
}

// ---------------------------------------------------------------- P16

/// The same formula built with the operators of `Expression`.
fn direct<F: PrimeField>(e: &E) -> Expression<F> {
    match e {
        E::Q(k, r) => {
            let (label, oracle_type) = match k {
                Col::W(i) => (format!("w{}", i), OracleType::Witness),
                Col::I(i) => (format!("p{}", i), OracleType::Instance),
                Col::X(i) => (format!("x{}", i), OracleType::Fixed),
            };
            OracleQuery { label, rotation: rotation(*r), oracle_type }.into()
        }
        E::C(v) => Expression::Constant(fe(*v)),
        E::Add(a, b) => direct::<F>(a) + direct(b),
        E::Sub(a, b) => direct::<F>(a) - direct(b),
        E::Mul(a, b) => direct::<F>(a) * direct::<F>(b),
        E::Neg(a) => -direct::<F>(a),
        E::Scale(a, k) => direct::<F>(a) * fe::<F>(*k),
    }
}
const LEAVES: usize = 7;
fn leaves() -> Vec<E> {
    vec![w(0), wr(0, 1), w(1), pir(0, -1), x(0), c(3), xr(1, 2)]
}
fn grow(base: &[E]) -> Vec<E> {
    let mut out = base.to_vec();
    for a in base {
        out.push(-a.clone());
        out.push(a.clone().scale(-5));
        for b in base {
            out.push(a.clone() + b.clone());
            out.push(a.clone() - b.clone());
            out.push(a.clone() * b.clone());
        }
    }
    out
}
fn columns_of<F: PrimeField>(
    wl: &[String],
    il: &[String],
    xl: &[String],
) -> (
    Vec<zero_over_k::oracles::witness::WitnessVerifierOracle<F, ToyPC<F>>>,
    Vec<zero_over_k::oracles::instance::InstanceVerifierOracle<F>>,
    Vec<zero_over_k::oracles::fixed::FixedVerifierOracle<F, ToyPC<F>>>,
) {
    (
        wl.iter().map(|l| zero_over_k::oracles::witness::WitnessVerifierOracle::new(l, false)).collect(),
        il.iter().map(|l| zero_over_k::oracles::instance::InstanceVerifierOracle::new(l, DensePolynomial::zero())).collect(),
        xl.iter().map(|l| zero_over_k::oracles::fixed::FixedVerifierOracle::new(l, None)).collect(),
    )
}
fn names(k: char, order: &[usize]) -> Vec<String> {
    order.iter().map(|i| format!("{}{}", k, i)).collect()
}
/// Values: a function of (column, offset), here rows of generic columns on n rows.
fn cell(seed: u64, kind: char, label: &str, rot: Rotation, offsets: &[i32]) -> i64 {
    let r = offsets.iter().position(|o| rotation(*o) == rot).unwrap_or(99);
    filler(seed ^ hash(&(kind, label)), r)
}
fn evaluate_ref(e: &E, look: &impl Fn(Col, i32) -> F62) -> F62 {
    match e {
        E::Q(k, r) => look(*k, *r),
        E::C(v) => fe(*v),
        E::Add(a, b) => evaluate_ref(a, look) + evaluate_ref(b, look),
        E::Sub(a, b) => evaluate_ref(a, look) - evaluate_ref(b, look),
        E::Mul(a, b) => evaluate_ref(a, look) * evaluate_ref(b, look),
        E::Neg(a) => -evaluate_ref(a, look),
        E::Scale(a, k) => evaluate_ref(a, look) * fe::<F62>(*k),
    }
}
const OFFS: [i32; 5] = [0, 1, -1, 2, -2];

fn tree(e: &E, n: usize, polys: &dyn Fn(Col, i32) -> DensePolynomial<F62>, r: &mut Rec) {
    let (mut wv, mut iv, mut xv) = columns_of::<F62>(&names('w', &[0, 1]), &names('p', &[0]), &names('x', &[0, 1]));
    let mut vo = gate_vo::<F62>(e);
    r.check(vo.get_expression().is_err(), "unconfigured", || format!("{}", e));
    vo.configure(&mut wv, &mut iv, &mut xv);
    let ex = vo.get_expression().unwrap();
    let dx = direct::<F62>(e);
    for seed in 0..2u64 {
        let want = evaluate_ref(e, &|k, o| {
            let (c, l) = match k { Col::W(i) => ('w', format!("w{}", i)), Col::I(i) => ('p', format!("p{}", i)), Col::X(i) => ('x', format!("x{}", i)) };
            fe(cell(seed, c, &l, rotation(o), &OFFS))
        });
        let look = |k: char, l: &str, rot: Rotation| -> F62 { fe(cell(seed, k, l, rot, &OFFS)) };
        r.steps(2);
        r.check(value(ex, &look) == want, "configured-value", || format!("{}", e));
        r.check(value(&dx, &look) == want, "operator-value", || format!("{}", e));
    }
    // degree against the true polynomial
    let poly = poly_of(e, polys);
    let reported = ex.degree(&|_| Ok(n - 1)).map_err(|x| format!("{:?}", x));
    r.check(matches!(&reported, Ok(d) if *d >= poly.degree()), "degree", || format!("{}: {:?} < {}", e, reported, poly.degree()));
    let d2 = dx.degree(&|_| Ok(n - 1)).map_err(|x| format!("{:?}", x));
    r.check(reported == d2, "degree", || format!("{}: {:?} {:?}", e, reported, d2));
    // an unresolvable label
    let mut qs = vec![];
    e.queries(&mut qs);
    if !qs.is_empty() {
        let bad = ex.degree(&|q| Err(zero_over_k::piop::error::Error::MissingWitnessOracle(q.label.clone())));
        r.check(bad.is_err(), "degree-error", || format!("{}", e));
        let found: Result<F62, String> = ex.evaluate(
            &|c| Ok(c),
            &|q: &OracleQuery| Err(q.label.clone()),
            &|a: Result<F62, String>| a.map(|a| -a),
            &|a: Result<F62, String>, b: Result<F62, String>| Ok(a? + b?),
            &|a: Result<F62, String>, b: Result<F62, String>| Ok(a? * b?),
            &|a: Result<F62, String>, k| a.map(|a| a * k),
        );
        r.check(found.is_err(), "evaluate-error", || format!("{}", e));
    }
    r.exec(e, if poly.is_zero() { "zero polynomial" } else { "polynomial" });
}
fn poly_of(e: &E, polys: &dyn Fn(Col, i32) -> DensePolynomial<F62>) -> DensePolynomial<F62> {
    match e {
        E::Q(k, r) => polys(*k, *r),
        E::C(v) => DensePolynomial::from_coefficients_vec(vec![fe(*v)]),
        E::Add(a, b) => &poly_of(a, polys) + &poly_of(b, polys),
        E::Sub(a, b) => &poly_of(a, polys) - &poly_of(b, polys),
        E::Mul(a, b) => {
            let (a, b) = (poly_of(a, polys), poly_of(b, polys));
            if a.is_zero() || b.is_zero() {
                return DensePolynomial::zero();
            }
            let mut out = vec![F62::zero(); a.coeffs.len() + b.coeffs.len() - 1];
            for (i, x) in a.coeffs.iter().enumerate() {
                for (j, y) in b.coeffs.iter().enumerate() {
                    out[i + j] += *x * *y;
                }
            }
            DensePolynomial::from_coefficients_vec(out)
        }
        E::Neg(a) => -poly_of(a, polys),
        E::Scale(a, k) => &poly_of(a, polys) * fe::<F62>(*k),
    }
}

pub fn expressions(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let deeper = ctx.deeper;
    assert_eq!(leaves().len(), LEAVES);
    let base = grow(&leaves());
    let n = 4usize;
    let domain = ark_poly::GeneralEvaluationDomain::<F62>::new(n).unwrap();
    // generic columns, shifted by the offset
    let mut tables = vec![];
    for k in [Col::W(0), Col::W(1), Col::I(0), Col::X(0), Col::X(1)] {
        let col: Vec<F62> = (0..n).map(|r| fe(filler(hash(&k), r))).collect();
        for o in OFFS {
            let p = interpolate(&domain, &(0..n).map(|r| col[idx(r, o, n)]).collect::<Vec<_>>());
            tables.push(((k, o), p));
        }
    }
    let polys = |k: Col, o: i32| tables.iter().find(|(q, _)| *q == (k, o)).unwrap().1.clone();
    // all trees of depth 2: base x base x operators
    let m = base.len();
    ctx.range(
        "trees",
        "all expression trees of depth 2 over 7 leaves, 3 binary and 2 unary operators and of depth 3 with a leaf on one side (thorough: depth 4 with two single leaves); value on generic columns, degree against the true polynomial, error propagation",
        m,
        |i| format!("{} op every tree", base[i]),
        |i, r| {
            let a = &base[i];
            tree(a, n, &polys, r);
            tree(&-a.clone(), n, &polys, r);
            tree(&a.clone().scale(7), n, &polys, r);
            tree(&a.clone().scale(0), n, &polys, r);
            for b in base.iter() {
                for x in [a.clone() + b.clone(), a.clone() - b.clone(), a.clone() * b.clone()] {
                    tree(&x, n, &polys, r);
                    if t {
                        for l in leaves() {
                            tree(&(x.clone() + l.clone()), n, &polys, r);
                            tree(&(l.clone() - x.clone()), n, &polys, r);
                            tree(&(x.clone() * l.clone()), n, &polys, r);
                            if deeper {
                                // one more level
                                for k in leaves() {
                                    tree(&((x.clone() * l.clone()) - k.clone()), n, &polys, r);
                                    tree(&((x.clone() + l.clone()) * k.clone()), n, &polys, r);
                                    tree(&(k - (l.clone() - x.clone())), n, &polys, r);
                                }
                            }
                        }
                    }
                }
            }
        },
    );
    // every value assignment
    ctx.range(
        "assignments",
        "all expression trees of depth 1 under every assignment of {0,1,2} to the six column leaves",
        m,
        |i| format!("{}", base[i]),
        |i, r| {
            let e = &base[i];
            let (mut wv, mut iv, mut xv) = columns_of::<F62>(&names('w', &[0, 1]), &names('p', &[0]), &names('x', &[0, 1]));
            let mut vo = gate_vo::<F62>(e);
            vo.configure(&mut wv, &mut iv, &mut xv);
            let ex = vo.get_expression().unwrap();
            let cells: Vec<(char, String, i32)> = vec![
                ('w', "w0".into(), 0), ('w', "w0".into(), 1), ('w', "w1".into(), 0),
                ('p', "p0".into(), -1), ('x', "x0".into(), 0), ('x', "x1".into(), 2),
            ];
            for v in words(&[0, 1, 2], cells.len()) {
                let find = |k: char, l: &str, rot: Rotation| -> F62 {
                    fe(cells.iter().position(|(a, b, o)| *a == k && b == l && rotation(*o) == rot).map(|i| v[i]).unwrap_or(1 << 30))
                };
                let want = evaluate_ref(e, &|k, o| match k {
                    Col::W(i) => find('w', &format!("w{}", i), rotation(o)),
                    Col::I(i) => find('p', &format!("p{}", i), rotation(o)),
                    Col::X(i) => find('x', &format!("x{}", i), rotation(o)),
                });
                r.steps(1);
                r.check(value(ex, &find) == want, "configured-value", || format!("{} at {:?}", e, v));
            }
            r.exec(e, "all assignments agree");
        },
    );
    index_maps(ctx);
    registration(ctx);
}

/// The order in which columns are handed over decides what a virtual query denotes.
fn index_maps(ctx: &mut Ctx) {
    let mut cases = vec![];
    for p in super::copy::permutations(3) {
        for q in super::copy::permutations(3) {
            for s in super::copy::permutations(3) {
                cases.push((p.clone(), q.clone(), s.clone()));
            }
        }
    }
    ctx.sweep(
        "index-maps",
        "all orders of three witness, three instance and three fixed columns: every query of a gate and of a lookup resolves to the column at its position, with its offset and kind",
        &cases,
        |(p, q, s), r| {
            let (wl, il, xl) = (names('w', p), names('p', q), names('x', s));
            let tl = names('t', q);
            for i in 0..3 {
                for o in OFFS {
                    for kind in [Col::W(i), Col::I(i), Col::X(i)] {
                        let (mut wv, mut iv, mut xv) = columns_of::<F62>(&wl, &il, &xl);
                        let (_, _, mut tv) = columns_of::<F62>(&[], &[], &tl);
                        let mut vo = gate_vo::<F62>(&E::Q(kind, o));
                        vo.configure(&mut wv, &mut iv, &mut xv);
                        let l = Lookup { exprs: vec![E::Q(kind, o)], tables: vec![(i, o)] };
                        let mut lo = lookup_vo::<F62>(&l);
                        if let Err(e) = lo.configure(&mut wv, &mut iv, &mut xv, &mut tv) {
                            return r.fail("configure", format!("{:?}", e));
                        }
                        let want = match kind {
                            Col::W(i) => ('w', wl[i].clone()),
                            Col::I(i) => ('p', il[i].clone()),
                            Col::X(i) => ('x', xl[i].clone()),
                        };
                        for e in [vo.get_expression().unwrap(), &lo.get_expressions().unwrap()[0]] {
                            r.steps(1);
                            let hit = value(e, &|k, l, rot| fe::<F62>((k == want.0 && l == want.1 && rot == rotation(o)) as i64));
                            r.check(hit.is_one(), "resolved", || format!("{:?} offset {}", kind, o));
                        }
                        let tq = &lo.get_table_queries().unwrap()[0];
                        r.check(tq.label == tl[i] && tq.rotation == rotation(o), "table-resolved", || format!("{} {}", tq.label, i));
                        // the right column has the offset registered, no other column has any
                        let mut total = 0;
                        let mut right = false;
                        let mut see = |k: char, l: String, rs: &BTreeSet<Rotation>| {
                            total += rs.len();
                            right |= k == want.0 && l == want.1 && rs.contains(&rotation(o));
                        };
                        for o in &wv { see('w', o.get_label(), o.get_queried_rotations()); }
                        for o in &iv { see('p', o.get_label(), o.get_queried_rotations()); }
                        for o in &xv { see('x', o.get_label(), o.get_queried_rotations()); }
                        r.check(right && total == 1, "registered-offsets", || format!("{:?} offset {}: {} registrations", kind, o, total));
                        for (j, t) in tv.iter().enumerate() {
                            let want = if j == i { BTreeSet::from([rotation(o)]) } else { BTreeSet::new() };
                            r.check(*t.get_queried_rotations() == want, "table-offsets", || format!("{} {}", j, i));
                        }
                        r.exec((p, q, s, kind, o), "resolved");
                    }
                }
            }
        },
    );
}
/// Offsets registered by a set of queries.
fn registration(ctx: &mut Ctx) {
    let all: Vec<(Col, i32)> = vec![
        (Col::W(0), 0), (Col::W(0), 1), (Col::W(0), -1), (Col::W(1), 0), (Col::W(1), 2),
        (Col::I(0), 0), (Col::I(0), -1), (Col::X(0), 0), (Col::X(0), 1), (Col::X(1), -2),
    ];
    ctx.range(
        "registration",
        "all 1024 sets of ten queries, declared by one gate, split over two gates, and by a lookup, with initial offsets present or not",
        1 << all.len(),
        |m| format!("queries {:b}", m),
        |m, r| {
            let qs: Vec<(Col, i32)> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, q)| *q).collect();
            for how in 0..3 {
                for permute in [false, true] {
                    let mut wv: Vec<_> = (0..2)
                        .map(|i| zero_over_k::oracles::witness::WitnessVerifierOracle::<F62, T62>::new(format!("w{}", i), permute))
                        .collect();
                    let (_, mut iv, mut xv) = columns_of::<F62>(&[], &names('p', &[0]), &names('x', &[0, 1]));
                    let (_, _, mut tv) = columns_of::<F62>(&[], &[], &names('t', &[0]));
                    let vq: Vec<VirtualQuery> = qs.iter().map(|(k, o)| vquery(*k, *o)).collect();
                    let zero = || VirtualExpression::Constant(F62::zero());
                    match how {
                        0 => GenericVO::init((zero(), vq)).configure(&mut wv, &mut iv, &mut xv),
                        1 => {
                            let (a, b): (Vec<_>, Vec<_>) = vq.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
                            for part in [a, b] {
                                GenericVO::init((zero(), part.into_iter().map(|x| x.1).collect()))
                                    .configure(&mut wv, &mut iv, &mut xv);
                            }
                        }
                        _ => {
                            let t = VirtualQuery::new(0, rotation(0), OracleType::Fixed);
                            if let Err(e) = GenericLookupVO::init((vec![zero()], vq, vec![t])).configure(&mut wv, &mut iv, &mut xv, &mut tv) {
                                return r.fail("configure", format!("{:?}", e));
                            }
                        }
                    }
                    let want = |k: Col, base: bool| -> BTreeSet<Rotation> {
                        let mut s: BTreeSet<Rotation> = qs.iter().filter(|(c, _)| *c == k).map(|(_, o)| rotation(*o)).collect();
                        if base { s.insert(rotation(0)); }
                        s
                    };
                    r.steps(1);
                    for i in 0..2 {
                        r.check(*wv[i].get_queried_rotations() == want(Col::W(i), permute), "registered-offsets", || format!("w{} {:?}", i, qs));
                        r.check(*xv[i].get_queried_rotations() == want(Col::X(i), false), "registered-offsets", || format!("x{} {:?}", i, qs));
                    }
                    r.check(*iv[0].get_queried_rotations() == want(Col::I(0), false), "registered-offsets", || format!("p0 {:?}", qs));
                    r.exec((m, how, permute), "offsets");
                }
            }
        },
    );
    ctx.single("unconfigured", "gates and lookups that were never configured, wrong table kinds", |r| {
        let vo = gate_vo::<F62>(&w(0));
        r.check(vo.get_expression().is_err(), "unconfigured", || "gate".into());
        let lo = lookup_vo::<F62>(&Lookup { exprs: vec![w(0)], tables: vec![(0, 0)] });
        r.check(lo.get_expressions().is_err(), "unconfigured", || "lookup".into());
        r.check(lo.get_table_queries().is_err(), "unconfigured", || "table".into());
        r.steps(3);
        r.exec("unconfigured", "error");
        for kind in [OracleType::Witness, OracleType::Instance] {
            let (mut wv, mut iv, mut xv) = columns_of::<F62>(&names('w', &[0]), &names('p', &[0]), &names('x', &[0]));
            let (_, _, mut tv) = columns_of::<F62>(&[], &[], &names('t', &[0]));
            let mut lo = GenericLookupVO::<F62>::init((vec![vexpr(&w(0))], vec![vquery(Col::W(0), 0)], vec![VirtualQuery::new(0, rotation(0), kind.clone())]));
            let out = lo.configure(&mut wv, &mut iv, &mut xv, &mut tv);
            r.steps(1);
            r.exec(format!("{}", kind), "error");
            r.check(out.is_err(), "table-kind", || format!("{}", kind));
        }
    });
}

// ---------------------------------------------------------------- P17

fn mock_case(c: &Circuit, asgs: Vec<Asg>, real: bool, r: &mut Rec) {
    let sys = match Sys::<F62, T62>::new(c) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    // keys of a system with one more gate, so that low-degree gates have keys as well
    let mut c2 = c.clone();
    c2.gates.push(w(0) * w(0) * w(0) - w(0) * w(0) * w(0));
    let sys2 = match Sys::<F62, T62>::new(&c2) { Ok(s) => s, Err(e) => return r.fail("setup", e) };
    let keys2 = match sys2.keys() { Ok(k) => k, Err(o) => return r.fail("keys", format!("{:?}", o)) };
    let keys = sys.keys().ok();
    let gates = sys.gate_refs();
    for (j, a) in asgs.iter().enumerate() {
        let mut full = c.clone();
        full.removed = vec![];
        let ok = gates_ok::<F62>(&full, a);
        let (mut w, mut i) = sys.prover_oracles(a);
        let mut rng = ZkRng::new(j as u64);
        let out = guarded(|| MockProver::<F62, T62, TapeFS>::prove(&keys2.pk, &keys2.pre, &mut w, &mut i, &gates, c.n, &mut rng));
        r.steps(1);
        let done = matches!(out, Ok(Ok(_)));
        r.exec((c, a), match (&out, ok) {
            (Ok(Ok(_)), true) => "completes: satisfied".to_string(),
            (Err(_), false) => "panics: violated".to_string(),
            (Ok(Err(_)), false) => "error: violated".to_string(),
            (_, ok) => format!("WRONG, satisfied: {}", ok),
        });
        r.check(done == ok, "mock-verdict", || format!("{:?}: completed {} satisfied {}", a, done, ok));
        if done && real && c.removed.is_empty() {
            if let Some(k) = &keys {
                let mut rng = ZkRng::new(j as u64);
                let o = match sys.prove::<TapeFS, _>(k, a, &mut rng) {
                    Err(o) => o,
                    Ok(p) => sys.verify::<TapeFS>(k, &a.inst, p),
                };
                r.steps(2);
                r.check(o.accepted(), "mock-accepts-more", || format!("{:?}: {:?}", a, o));
            }
        }
    }
}
pub fn mock(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let circuits = gates::exhaustive_circuits(t);
    ctx.sweep(
        "all-assignments",
        "every assignment over {0,1} or {0,1,2} of every gate system of the gate enumeration; satisfied ones also proved and verified",
        &circuits,
        |(c, alpha), r| mock_case(c, gates::all_assignments(c, alpha), true, r),
    );
    ctx.require("all-assignments", |s| {
        s.outcomes.get("completes: satisfied").copied().unwrap_or(0) > 1000 && s.outcomes.get("panics: violated").copied().unwrap_or(0) > 1000
    }, "both verdicts");
    let es = gates::expressions(t);
    ctx.sweep(
        "expressions",
        "expressions with up to 3 leaves, n=4 and 8, and the output changed on every row in turn",
        &es,
        |e, r| {
            for n in [4usize, 8] {
                let (c, a) = gates::computed(e, n, (0..n).map(|i| (i != 2) as i64).collect(), vec![]);
                let mut asgs = vec![a.clone()];
                for row in 0..n {
                    let mut b = a.clone();
                    b.w[2][row] += 3;
                    asgs.push(b);
                }
                mock_case(&c, asgs, true, r);
            }
        },
    );
    let mut cases = vec![];
    for n in [4usize, 8] {
        for k in 1..=4 {
            for labels in 0..2u8 {
                cases.push((n, k, labels));
            }
        }
    }
    ctx.sweep(
        "several-gates",
        "1..4 gates with every cell of every column changed alone",
        &cases,
        |&(n, k, labels), r| {
            let (mut c, a) = gates::multi(n, k, vec![]);
            c.labels = labels;
            let mut asgs = vec![a.clone()];
            for row in 0..n {
                for col in 0..=k {
                    let mut b = a.clone();
                    b.w[col][row] += 1;
                    asgs.push(b);
                }
                let mut b = a.clone();
                b.inst[0][row] += 1;
                asgs.push(b);
            }
            mock_case(&c, asgs, true, r)
        },
    );
    let mut cases = vec![];
    for g in if ctx.deeper { (5..=130).chain([255, 256, 257, 513]).collect() } else if t { vec![5usize, 7, 8, 9, 16, 17, 33, 64, 100, 257] } else { vec![5, 8, 9, 16, 17, 33, 64, 100] } {
        cases.push((8usize, g));
    }
    for n in if ctx.deeper { vec![16usize, 32, 64, 128, 256, 512, 1024, 2048] } else if t { vec![16, 32, 64, 128, 256, 512] } else { vec![16, 32, 64, 128] } {
        cases.push((n, 2));
    }
    let cases: Vec<(usize, usize, usize)> = cases.into_iter().flat_map(|(n, g)| (0..4).map(move |part| (n, g, part))).collect();
    ctx.sweep(
        "wide-mock",
        "n=8 with 5..257 (thorough 513) gates on columns of their own, every gate violated on the first, middle or last row; n=16..512 (thorough 2048) with two gates, every row violated; two gates violated by opposite amounts",
        &cases,
        |&(n, g, part), r| {
            let mut c = Circuit::new(n, 2 * g, 0);
            c.gates = (0..g).map(|i| w(i) * w(i) * w(i) - w(g + i)).collect();
            let val = |k: usize, row: usize| filler(k as u64, row) % 7;
            let a = Asg {
                w: (0..2 * g).map(|k| (0..n).map(|row| if k < g { val(k, row) } else { val(k - g, row).pow(3) }).collect()).collect(),
                inst: vec![],
            };
            let mut asgs = vec![a.clone()];
            for i in 0..g {
                for row in 0..n {
                    if g > 2 && row != 0 && row != n / 2 && row != n - 1 || (i * n + row) % 4 != part {
                        continue;
                    }
                    let mut b = a.clone();
                    b.w[g + i][row] += 1;
                    asgs.push(b.clone());
                    b.w[g + (i + 1) % g][row] -= 1;
                    asgs.push(b);
                }
            }
            mock_case(&c, asgs, false, r)
        },
    );
    ctx.require("wide-mock", |s| s.outcomes.get("panics: violated").copied().unwrap_or(0) + s.outcomes.get("error: violated").copied().unwrap_or(0) > 500, "violated systems");
}
