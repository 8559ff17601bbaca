//! Systems with many constraints of one kind. Batching by powers of one challenge has to keep
//! every pair of constraints apart, however many there are: a lie that is cancelled by a second
//! lie elsewhere, for every pair of places.
use super::common::*;
use super::copy;
use super::lookup::{honest_match, Attack, Pair, Z};
use super::multiopen as mo;
use super::whole::Kind;

const N: usize = 8;
const U: usize = 5;

/// `g` gates of degree `deg` on a wire each, `k` copied columns, `l` lookups of `width` columns.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Big {
    g: usize,
    deg: usize,
    k: usize,
    l: usize,
    width: usize,
}
impl Big {
    fn wire(&self, i: usize) -> usize {
        i
    }
    fn one(&self) -> usize {
        self.g
    }
    fn copied(&self, i: usize) -> usize {
        self.g + 1 + i
    }
    fn looked(&self, l: usize, j: usize) -> usize {
        self.g + 1 + self.k + l * self.width + j
    }
    fn build(&self) -> (Circuit, Asg) {
        let nw = self.g + 1 + self.k + self.l * self.width;
        let mut c = Circuit::new(N, nw, 0);
        c.u = U;
        for i in 0..self.g {
            let mut e = w(self.wire(i));
            for _ in 1..self.deg {
                e = e * w(self.one());
            }
            c.gates.push(e - w(self.one()));
        }
        let mut a = Asg { w: vec![vec![1; N]; nw], inst: vec![] };
        if self.k > 0 {
            let mut p = Perm::identity((0..self.k).map(|i| self.copied(i)).collect(), U);
            for i in 1..self.k {
                p = p.swap((0, 0), (i, i % U));
            }
            for i in 0..self.k {
                a.w[self.copied(i)] = (0..N).map(|r| 50 + (i * N + r) as i64).collect();
            }
            for i in 0..self.k {
                a.w[self.copied(i)][i % U] = 50;
            }
            c.perm = Some(p);
        }
        // column j of every table: 1000 * j + T
        const T: [i64; N] = [0, 10, 0, 7, 7, 3, 4, 5];
        if self.l > 0 {
            for j in 0..self.width {
                c.tables.push(T.iter().map(|v| v + 1000 * j as i64).collect());
            }
        }
        for l in 0..self.l {
            for j in 0..self.width {
                a.w[self.looked(l, j)] = T.iter().map(|v| v + 1000 * j as i64).collect();
            }
            c.lookups.push(Lookup {
                exprs: (0..self.width).map(|j| w(self.looked(l, j))).collect(),
                tables: (0..self.width).map(|j| (j, 0)).collect(),
            });
        }
        (c, a)
    }
}

/// Large systems whose assignment is satisfied.
pub fn complete(ctx: &mut Ctx, kind: Kind) {
    let top = if ctx.thorough { 48 } else { 24 };
    let mut v: Vec<Big> = vec![];
    match kind {
        Kind::Gate => {
            for g in 1..=top {
                for deg in [2, 3, 6] {
                    v.push(Big { g, deg, k: 0, l: 0, width: 0 });
                    v.push(Big { g, deg, k: 3, l: 2, width: 1 });
                }
            }
        }
        Kind::Copy => {
            for k in 1..=top {
                for deg in [2, 3, 4, 6, 9] {
                    v.push(Big { g: 1, deg, k, l: 0, width: 0 });
                    v.push(Big { g: 5, deg, k, l: 2, width: 2 });
                }
            }
        }
        Kind::Lookup => {
            for l in 1..=top {
                for deg in [2, 5] {
                    v.push(Big { g: 1, deg, k: 0, l, width: 1 });
                    v.push(Big { g: 4, deg, k: 5, l, width: 2 });
                }
            }
            for width in 1..=top / 2 {
                for l in [1, 3] {
                    v.push(Big { g: 1, deg: 3, k: 0, l, width });
                }
            }
        }
    }
    ctx.sweep(
        "many",
        "n=8: every number of constraints of this kind up to 24 (thorough 48; columns of one lookup up to 12 (24)), alone and with a few of the other kinds; both label orders; the assignment and three changes of unconstrained cells",
        &v,
        |b, r| {
            for labels in 0..2 {
                let (mut c, a) = b.build();
                c.labels = labels;
                assert!(sat::<F62>(&c, &a).all());
                let mut asgs = vec![a.clone()];
                let cols = c.nw;
                for row in U..N {
                    // copied and looked-up cells below the usable rows are free
                    let mut x = a.clone();
                    for k in b.g + 1..cols {
                        x.w[k][row] += 77 + k as i64;
                    }
                    asgs.push(x);
                }
                conform::<F62, T62>(&c, asgs, Dir::Complete, r);
            }
        },
    );
    ctx.require("many", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 100, "too few accepted executions");
}

/// Errors +9 and -9 of the well-formedness of two lookups, on row 1.
fn ill_formed(plus: bool) -> ([i64; U], [usize; U]) {
    if plus {
        // a' = 0 3 10 7 7 against s' = 0 0 10 7 7: (3 - 0)(3 - 0)
        ([0, 3, 10, 7, 7], [0, 2, 1, 3, 4])
    } else {
        // a' = 10 1 0 7 7 against s' = 10 0 0 7 7: (1 - 0)(1 - 10)
        ([10, 1, 0, 7, 7], [1, 0, 2, 3, 4])
    }
}

/// Proves with a' = a and the given arrangement of the table in the lookups named, honest elsewhere.
fn arranged(sys: &S62, keys: &Keys<F62, T62>, a: &Asg, lies: &[(usize, [usize; U])], r: &mut Rec) -> Full {
    let lies = lies.to_vec();
    let mut count = 0;
    set_interceptor(Some(Box::new(move |site, _, v| match site {
        "lookup_columns" => {
            let f = v.downcast_mut::<(Vec<F62>, Vec<F62>, bool)>().unwrap();
            if let Some((_, order)) = lies.iter().find(|x| x.0 == count) {
                f.1 = order.iter().map(|i| f.1[*i]).collect();
                f.2 = true;
            }
            count += 1;
        }
        "lookup_z_usable_rows" => {
            let z = v.downcast_mut::<Vec<F62>>().unwrap();
            let u = z.len() - 1;
            z[u] = F62::one();
        }
        _ => {}
    })));
    let p = sys.prove::<TapeFS, _>(keys, a, &mut ZkRng::new(3));
    set_interceptor(None);
    r.steps(1);
    match p {
        Err(out) => Full { stage: "prove", out },
        Ok(p) => {
            r.steps(1);
            Full { stage: "verify", out: sys.verify::<TapeFS>(keys, &a.inst, p) }
        }
    }
}

fn ready<'a>(sys: &'a S62, r: &mut Rec) -> Option<Keys<'a, F62, T62>> {
    r.steps(2);
    match sys.keys() {
        Ok(k) => Some(k),
        Err(e) => {
            r.fail("refused", format!("key preparation: {:?}", e));
            None
        }
    }
}

/// P02: pairs of gates, and a gate and a lookup, violated by opposite amounts.
pub fn gates(ctx: &mut Ctx) {
    let g = if ctx.thorough { 72 } else { 40 };
    let cases: Vec<(usize, usize, u8)> = [2usize, 3].iter().flat_map(|&deg| (0..g).flat_map(move |i| (0..2).map(move |l| (deg, i, l)))).collect();
    ctx.sweep(
        "many-gates",
        "40 gates (thorough 72) of degree 2 or 3, alone and next to copied columns and lookups: every single gate, and every pair of gates violated by +d and -d on one row, d in {1,9}",
        &cases,
        |&(deg, i, labels), r| {
            let b = Big { g, deg, k: if labels == 1 { 4 } else { 0 }, l: labels as usize, width: 1 };
            let (mut c, a) = b.build();
            c.labels = labels;
            let mut asgs = vec![];
            for row in 0..N {
                let mut x = a.clone();
                x.w[b.wire(i)][row] += 1;
                asgs.push(x);
            }
            for j in i + 1..g {
                for d in [1, 9] {
                    let row = (i + j) % N;
                    let mut x = a.clone();
                    x.w[b.wire(i)][row] += d;
                    x.w[b.wire(j)][row] -= d;
                    asgs.push(x);
                }
            }
            conform::<F62, T62>(&c, asgs, Dir::Sound, r);
        },
    );
    ctx.require("many-gates", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
    mixed(ctx);
}

/// A gate violated by what an ill-formed lookup, or a running product that is zero, needs.
fn mixed(ctx: &mut Ctx) {
    let b = Big { g: 24, deg: 3, k: 6, l: 12, width: 1 };
    let mut cases = vec![];
    for gate in 0..b.g {
        for k in [0, 6] {
            cases.push((gate, k));
        }
    }
    ctx.sweep(
        "gate-and-other",
        "24 gates, 0 or 6 copied columns, 12 lookups: every gate violated by the amount that cancels an ill-formed rearrangement of every lookup on one row, or a running product of the copies or of any lookup that is constantly zero (start on row 0)",
        &cases,
        |&(gate, k), r| {
            let b = Big { k, ..b };
            let (c, a) = b.build();
            let sys = S62::new(&c).unwrap();
            let keys = match ready(&sys, r) {
                Some(k) => k,
                None => return,
            };
            for l in 0..b.l {
                for plus in [true, false] {
                    let (vals, order) = ill_formed(plus);
                    for d in [9i64, -9] {
                        let mut x = a.clone();
                        x.w[b.looked(l, 0)][..U].copy_from_slice(&vals);
                        x.w[b.wire(gate)][1] += d;
                        let full = arranged(&sys, &keys, &x, &[(l, order)], r);
                        r.exec((&c, &x), full.key());
                        r.check(!full.accepted(), "unsound", || format!("gate {} violated by {} and lookup {} ill-formed: accepted", gate, d, l));
                    }
                }
            }
            // zero running products
            for d in [1i64, -1] {
                for l in 0..b.l {
                    let mut x = a.clone();
                    x.w[b.looked(l, 0)][2] = 5000;
                    x.w[b.wire(gate)][0] += d;
                    let full = zeroed(&sys, &keys, &x, Some(l), r);
                    r.exec((&c, &x), full.key());
                    r.check(!full.accepted(), "unsound", || format!("gate {} violated by {} on row 0, lookup {} with a zero product: accepted", gate, d, l));
                }
                if b.k > 0 {
                    let mut x = a.clone();
                    x.w[b.copied(1)][1] += 5;
                    x.w[b.wire(gate)][0] += d;
                    let full = zeroed(&sys, &keys, &x, None, r);
                    r.exec((&c, &x), full.key());
                    r.check(!full.accepted(), "unsound", || format!("gate {} violated by {} on row 0, copies with zero products: accepted", gate, d));
                }
            }
        },
    );
    ctx.require("gate-and-other", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
}

/// Running products of the copies (None) or of one lookup set to zero.
fn zeroed(sys: &S62, keys: &Keys<F62, T62>, a: &Asg, target: Option<usize>, r: &mut Rec) -> Full {
    let mut count = 0;
    set_interceptor(Some(Box::new(move |site, j, v| match site {
        "lookup_columns" => {
            let f = v.downcast_mut::<(Vec<F62>, Vec<F62>, bool)>().unwrap();
            let p: Pair = if Some(count) == target {
                // well formed: the table against itself
                (f.1.clone(), f.1.clone())
            } else {
                honest_match(&f.0, &f.1).unwrap_or((f.0.clone(), f.1.clone()))
            };
            f.0 = p.0;
            f.1 = p.1;
            f.2 = true;
            count += 1;
        }
        "lookup_z_usable_rows" => {
            let z = v.downcast_mut::<Vec<F62>>().unwrap();
            let u = z.len() - 1;
            z[u] = F62::one();
        }
        "lookup_z" if target == Some(j) => v.downcast_mut::<Vec<F62>>().unwrap().iter_mut().for_each(|x| *x = F62::zero()),
        "permutation_z" if target.is_none() => v.downcast_mut::<Vec<F62>>().unwrap().iter_mut().for_each(|x| *x = F62::zero()),
        _ => {}
    })));
    let p = sys.prove::<TapeFS, _>(keys, a, &mut ZkRng::new(3));
    set_interceptor(None);
    r.steps(1);
    match p {
        Err(out) => Full { stage: "prove", out },
        Ok(p) => {
            r.steps(1);
            Full { stage: "verify", out: sys.verify::<TapeFS>(keys, &a.inst, p) }
        }
    }
}

/// P04: many copied columns, one per running product; every pair of products.
pub fn copies(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut cases = vec![];
    for k in if t { vec![8usize, 12, 18, 20] } else { vec![8, 12] } {
        for deg in [2usize, 3] {
            for spot in 0..3 {
                cases.push((k, deg, spot));
            }
        }
    }
    ctx.sweep(
        "many-products",
        "8 and 12 (thorough up to 20) copied columns over 2 usable rows, one tied pair violated: every dishonest running product of the menu for every pair of products; and every single tied cell changed (honest prover)",
        &cases,
        |&(k, deg, spot), r| {
            let u = 2;
            let mut perm: Vec<usize> = (0..u * k).collect();
            // tie neighbouring columns, and the first with the last
            for i in (0..k - 1).step_by(2) {
                perm.swap(i * u, (i + 1) * u);
            }
            perm.swap(1, (k - 1) * u + 1);
            let case = copy::Case { n: 4, u, k, deg, read: true, removed: vec![], perm };
            let c = case.circuit();
            let sys = S62::new(&c).unwrap();
            let keys = match ready(&sys, r) {
                Some(k) => k,
                None => return,
            };
            let cyc = case.cycles();
            let base: Vec<i64> = cyc.iter().map(|i| *i as i64 * 3 + 1).collect();
            let tied: Vec<usize> = (0..u * k).filter(|i| case.perm[*i] != *i).collect();
            for (i, cell) in tied.iter().enumerate() {
                let mut v = base.clone();
                v[*cell] += 1;
                let a = case.assignment(&v, 1);
                let all = i == [0, tied.len() / 2, tied.len() - 1][spot];
                copy::attack(&sys, &keys, &a, u, all, &format!("cell {} +1", cell), r);
            }
        },
    );
    ctx.require("many-products", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
    mixed(ctx);
}

/// P06: wide tuples; many lookups.
pub fn lookups(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let widths: Vec<(usize, usize, u8)> =
        (2..=if t { 24 } else { 14 }).flat_map(|w| [1usize, 3].into_iter().flat_map(move |l| (0..2).map(move |b| (w, l, b)))).collect();
    ctx.sweep(
        "many-columns",
        "tuples of 2..14 (thorough 24) columns, one or three lookups: every single entry changed, every pair of entries of one row changed by +d and -d or exchanged, tuples composed of two table rows",
        &widths,
        |&(width, l, labels), r| {
            let b = Big { g: 1, deg: 3, k: 0, l, width };
            let (mut c, a) = b.build();
            c.labels = labels;
            let at = l / 2;
            let mut asgs = vec![];
            let mut put = |row: usize, f: &dyn Fn(&mut Asg)| {
                let mut x = a.clone();
                f(&mut x);
                let _ = row;
                asgs.push(x);
            };
            for i in 0..width {
                for row in 0..U {
                    put(row, &|x| x.w[b.looked(at, i)][row] += 1);
                }
                put(0, &|x| x.w[b.looked(at, i)][1] = a.w[b.looked(at, i)][3]);
                for j in i + 1..width {
                    let row = (i + j) % U;
                    for d in [1i64, -1, 10] {
                        put(row, &|x| {
                            x.w[b.looked(at, i)][row] += d;
                            x.w[b.looked(at, j)][row] -= d;
                        });
                    }
                    put(row, &|x| {
                        let v = x.w[b.looked(at, i)][row];
                        x.w[b.looked(at, i)][row] = x.w[b.looked(at, j)][row];
                        x.w[b.looked(at, j)][row] = v;
                    });
                    // +7 -7 between rows of the table: compressed values of other rows
                    put(row, &|x| {
                        x.w[b.looked(at, i)][1] = a.w[b.looked(at, i)][0];
                        x.w[b.looked(at, j)][1] = a.w[b.looked(at, j)][3];
                    });
                }
            }
            conform::<F62, T62>(&c, asgs, Dir::Sound, r);
        },
    );
    ctx.require("many-columns", |s| s.outcomes.values().sum::<u64>() > 1000, "too few executions");

    let l = if t { 36 } else { 18 };
    let cases: Vec<(usize, usize)> = (0..l).flat_map(|i| [0usize, 9].into_iter().map(move |k| (i, k))).collect();
    ctx.sweep(
        "many-lookups",
        "18 (thorough 36) lookups, with and without copied columns: every lookup alone and every pair with ill-formed rearrangements whose errors are opposite on one row",
        &cases,
        |&(i, k), r| {
            let b = Big { g: 1, deg: 3, k, l, width: 1 };
            let (c, a) = b.build();
            let sys = S62::new(&c).unwrap();
            let keys = match ready(&sys, r) {
                Some(k) => k,
                None => return,
            };
            for j in 0..l {
                let mut x = a.clone();
                let (v, o) = ill_formed(true);
                x.w[b.looked(i, 0)][..U].copy_from_slice(&v);
                let mut lies = vec![(i, o)];
                if j != i {
                    let (v, o) = ill_formed(false);
                    x.w[b.looked(j, 0)][..U].copy_from_slice(&v);
                    lies.push((j, o));
                }
                let full = arranged(&sys, &keys, &x, &lies, r);
                r.exec((&c, &x), full.key());
                r.check(!full.accepted(), "unsound", || format!("lookups {} and {} ill-formed: accepted", i, j));
            }
        },
    );
    ctx.require("many-lookups", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
    let l = if t { 18 } else { 10 };
    let cases: Vec<(usize, usize)> = (0..l).flat_map(|i| (0..l).filter(move |j| *j != i).map(move |j| (i, j))).collect();
    ctx.sweep(
        "many-lookup-products",
        "10 (thorough 18) lookups, the first of a pair violated: running products of the pair whose starts and steps are wrong by opposite amounts, for every ordered pair and every row",
        &cases,
        |&(i, j), r| {
            let b = Big { g: 1, deg: 3, k: 0, l, width: 1 };
            let (c, mut a) = b.build();
            a.w[b.looked(i, 0)][2] = 5000;
            let sys = S62::new(&c).unwrap();
            let at = match Attack::new(&sys, &a, r) {
                Some(a) => a,
                None => return r.fail("refused", "key preparation"),
            };
            let m: Vec<Z> = (0..U).map(|row| Z::Across(i.min(j), i.max(j), row)).collect();
            at.run(&a, i, &|a, s| (vec![s[0]; a.len()], s.to_vec()), &m, &|| format!("lookup {} with {}", i, j), r);
        },
    );
    ctx.require("many-lookup-products", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
    mixed(ctx);
}

/// P11: many polynomials in one set of points, many sets of points.
pub fn openings(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let poly = |i: usize, rots: &[i32]| mo::Poly { coeffs: (0..4).map(|j| filler(i as u64, j)).collect(), rots: rots.to_vec(), fixed: i % 3 == 1 };
    let xi = 123457;
    let mut cases: Vec<mo::Case> = vec![];
    for k in if t { vec![12usize, 24, 48] } else { vec![12, 24] } {
        for rots in [vec![0], vec![0, 1], vec![-1, 0, 2]] {
            cases.push(mo::Case { n: 4, xi, polys: (0..k).map(|i| poly(i, &rots)).collect() });
        }
    }
    ctx.sweep(
        "many-polynomials",
        "12 and 24 (thorough 48) polynomials opened at one set of points: every pair of claims at one point wrong by opposite amounts or exchanged, on the prover's challenges",
        &cases,
        |c, r| {
            let run = match mo::open::<F62>(c, &[], r) {
                Some(x) => x,
                None => return r.fail("no-opening", format!("{:?}", c)),
            };
            let o = mo::check(&run, &run.comms, &run.claims, mo::copy_mo(&run.proof), &run.words);
            r.check(o.accepted(), "incomplete", || format!("honest opening of {:?}: {:?}", c, o));
            for p in 0..c.polys[0].rots.len() {
                for i in 0..run.claims.len() {
                    for j in 0..run.claims.len() {
                        let mut cl = run.claims.clone();
                        if i == j {
                            cl[i][p] += F62::one();
                        } else if i < j {
                            cl[i][p] += F62::one();
                            cl[j][p] -= F62::one();
                        } else {
                            let v = cl[i][p];
                            cl[i][p] = cl[j][p];
                            cl[j][p] = v;
                        }
                        r.steps(1);
                        let o = mo::check(&run, &run.comms, &cl, mo::copy_mo(&run.proof), &run.words);
                        r.exec((format!("{:?}", c), p, i, j), o.kind());
                        r.check(o.rejected(), "false-claims", || format!("claims {} and {} at point {} of {:?}: {:?}", i, j, p, c.polys.len(), o));
                    }
                }
            }
        },
    );
    ctx.require("many-polynomials", |s| s.outcomes.values().sum::<u64>() > 1000, "nothing opened");
    let sets = mo::subsets(&[0, 1, 2, -1]);
    let mut cases = vec![];
    for m in if t { (2..=15).collect::<Vec<_>>() } else { vec![6, 9, 12, 15] } {
        for rev in [false, true] {
            let mut s: Vec<Vec<i32>> = (0..m).map(|i| sets[(i * 7 + 3) % 15].clone()).collect();
            if rev {
                s.reverse();
            }
            cases.push(mo::Case { n: 4, xi, polys: s.iter().enumerate().map(|(i, x)| poly(i, x)).collect() });
        }
    }
    ctx.sweep(
        "many-sets",
        "6, 9, 12, 15 (thorough: every number from 2 to 15) different sets of points with one polynomial each: for every pair of sets and every point they share, claims wrong by amounts whose quotients are opposite; and all claims of two polynomials and every pair of q values wrong by opposite amounts; on the prover's challenges",
        &cases,
        |c, r| {
            let run = match mo::open::<F62>(c, &[], r) {
                Some(x) => x,
                None => return r.fail("no-opening", format!("{:?}", c)),
            };
            let pt = |rot: i32| mo::point(c.n, run.xi, rot);
            let k = c.polys.len();
            let mut go = |what: String, cl: &[Vec<F62>], p: zero_over_k::multiproof::Proof<F62, T62>| {
                r.steps(1);
                let o = mo::check(&run, &run.comms, cl, p, &run.words);
                r.exec((format!("{:?}", c), &what), o.kind());
                r.check(o.rejected(), "false-claims", || format!("{} of {:?}: {:?}", what, c.polys.iter().map(|p| &p.rots).collect::<Vec<_>>(), o));
            };
            for i in 0..k {
                for j in i + 1..k {
                    for (a, o) in c.polys[i].rots.iter().enumerate() {
                        if let Some(b) = c.polys[j].rots.iter().position(|x| x == o) {
                            let weight = |s: &[i32]| -> F62 { s.iter().filter(|x| *x != o).map(|x| pt(*o) - pt(*x)).product() };
                            for sign in [F62::one(), -F62::one()] {
                                let mut cl = run.claims.clone();
                                cl[i][a] += weight(&c.polys[i].rots);
                                cl[j][b] -= weight(&c.polys[j].rots) * sign;
                                go(format!("claims {} {} at {}", i, j, o), &cl, mo::copy_mo(&run.proof));
                            }
                        }
                    }
                    let q = run.proof.q_evals.len();
                    for a in 0..q {
                        for b in 0..q {
                            if a != b {
                                let mut cl = run.claims.clone();
                                cl[i].iter_mut().for_each(|x| *x += F62::one());
                                cl[j].iter_mut().for_each(|x| *x -= F62::one());
                                let mut p = mo::copy_mo(&run.proof);
                                p.q_evals[a] += F62::one();
                                p.q_evals[b] -= F62::one();
                                go(format!("polynomials {} {} with q {} {}", i, j, a, b), &cl, p);
                            }
                        }
                    }
                }
            }
        },
    );
    ctx.require("many-sets", |s| s.outcomes.values().sum::<u64>() > 1000, "nothing opened");
}

/// A false claim and one false q value (chosen after x3, so the whole field is tried): accepted
/// for at most as many x4 as the final combination has terms.
pub fn every_x4(ctx: &mut Ctx) {
    type F = F17;
    let sets: Vec<Vec<Vec<i32>>> = vec![
        vec![vec![0]],
        vec![vec![0, 1]],
        vec![vec![0], vec![0]],
        vec![vec![0], vec![0, 1]],
        vec![vec![0, 1], vec![0, 1], vec![-1]],
        vec![vec![0, -1], vec![1], vec![0, -1], vec![2, 1]],
        vec![vec![0], vec![1], vec![2], vec![-1], vec![0, 1]],
    ];
    let mut cases = vec![];
    for (k, s) in sets.iter().enumerate() {
        for i in 0..s.len() {
            for j in 0..s[i].len() {
                for x in 0..if ctx.thorough { 6u64 } else { 2 } {
                    cases.push((k, i, j, x));
                }
            }
        }
    }
    ctx.sweep(
        "every-x4",
        "field of 17 elements, one to five sets of points: every false claim, every value of every q (chosen after x3), every x4: accepted for at most as many x4 as there are q values",
        &cases,
        |&(k, i, j, x), r| {
            let n = 4;
            let case = mo::Case {
                n,
                xi: 3,
                polys: sets[k].iter().enumerate().map(|(i, rots)| mo::Poly { coeffs: (0..4).map(|j| (3 * i + 5 * j + i * j + 1) as i64 % 17).collect(), rots: rots.clone(), fixed: i % 2 == 1 }).collect(),
            };
            let pts: Vec<F> = (0..n as i32).map(|j| mo::point(n, F::from(3u64), j)).collect();
            let x3 = (2 + 3 * x..).map(F::from).find(|v| !pts.contains(v)).unwrap();
            let word = |x: F| raw_word(x);
            let base = [word(F::from(2 + x)), word(F::from(7 + 3 * x)), word(x3)];
            let runs: Vec<_> = (0..17u64)
                .map(|x4| {
                    let script = [base[0], base[1], base[2], word(F::from(x4))];
                    (mo::open::<F>(&case, &script, r), script)
                })
                .collect();
            if runs.iter().any(|x| x.0.is_none()) {
                return r.fail("no-opening", format!("{:?}", case));
            }
            let q = runs[0].0.as_ref().unwrap().proof.q_evals.len();
            for a in 0..q {
                for d in 0..17u64 {
                    let mut count = 0;
                    for (run, script) in &runs {
                        let run = run.as_ref().unwrap();
                        let mut cl = run.claims.clone();
                        cl[i][j] += F::one();
                        let mut p = mo::copy_mo(&run.proof);
                        p.q_evals[a] += F::from(d);
                        r.steps(1);
                        count += mo::check(run, &run.comms, &cl, p, script).accepted() as usize;
                    }
                    r.exec((k, i, j, x, a, d), format!("{} of 17", count));
                    r.check(count <= q, "false-claims", || format!("claim {}@{} +1 and q {} +{} accepted for {} of 17 values of x4; {:?}", i, j, a, d, count, sets[k]));
                }
            }
        },
    );
    ctx.require("every-x4", |s| s.outcomes.contains_key("1 of 17"), "nothing accepted at all");
}

/// Degrees that make the extended domain 2, 4, 8 and 16 times the domain, with the number of columns
/// one running product then takes.
const PRODUCTS: [(usize, usize); 4] = [(3, 1), (4, 3), (7, 7), (11, 15)];

/// P03, P04: every small multiple of the columns that one running product takes, and its
/// neighbours, for every ratio of extended domain to domain, over domains and usable rows.
pub fn product_sizes(ctx: &mut Ctx, dir: Dir) {
    let mut v: Vec<(usize, usize, usize, usize, bool)> = vec![];
    for n in if ctx.thorough { vec![8usize, 16, 32, 64] } else { vec![8, 16, 32] } {
        for (deg, per) in PRODUCTS {
            let mut ks: Vec<usize> = (1..=3).flat_map(|m| (m * per).saturating_sub(1)..=m * per + 2).collect();
            ks.retain(|k| *k > 0 && (ctx.thorough || *k <= 32));
            ks.sort();
            ks.dedup();
            for k in ks {
                for u in [n - 1, n - 3, n / 2] {
                    for reduced in [false, true] {
                        v.push((n, deg, k, u, reduced && u + 1 < n));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    ctx.sweep(
        "product-sizes",
        "n=8,16,32 (thorough 64); gate degrees 3,4,7,11, for which a running product takes 1, 3, 7 or 15 columns; copied columns m*that-1 .. m*that+2 for m=1,2,3; u=n-1,n-3,n/2; both vanishing polynomials; two assignments, their unused cells changed (P03), every copied cell of the first, middle and last usable row of the first, middle and last columns changed (P04)",
        &v,
        |&(n, deg, k, u, reduced), r| {
            let s = crate::systems::wide(n, k, 0, deg, u, reduced);
            let mut asgs: Vec<Asg> = s.asgs.clone();
            for a in &s.asgs {
                for row in match dir {
                    Dir::Complete => vec![u, n - 1],
                    Dir::Sound => vec![0, u / 2, u - 1],
                } {
                    for i in [0, k / 2, k - 1] {
                        let mut b = a.clone();
                        b.w[i][row] += 1;
                        // the defined column follows, so that only the copy is violated
                        b.w.truncate(s.c.nw - 1);
                        asgs.push(crate::systems::complete(&s.c, b.w, b.inst));
                    }
                }
            }
            if dir == Dir::Complete {
                return conform::<F62, T62>(&s.c, asgs, dir, r);
            }
            let sys = S62::new(&s.c).unwrap();
            let keys = match ready(&sys, r) {
                Some(k) => k,
                None => return,
            };
            for a in asgs {
                if !sat::<F62>(&s.c, &a).copies {
                    copy::attack(&sys, &keys, &a, u, false, "changed copy", r);
                }
            }
        },
    );
    ctx.require(
        "product-sizes",
        |s| match dir {
            Dir::Complete => s.outcomes.get("accept").copied().unwrap_or(0) > 500,
            Dir::Sound => s.outcomes.values().sum::<u64>() > 500,
        },
        "too few executions",
    );
}
