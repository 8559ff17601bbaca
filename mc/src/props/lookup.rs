//! P05 / P06: lookups.
use super::common::*;
use std::cell::RefCell;
use std::rc::Rc;

/// A system with lookups; `w(nw-2)`, `w(nw-1)` belong to the gate `w*w - w'`.
fn with_gate(mut c: Circuit, deg: usize) -> Circuit {
    let k = c.nw;
    c.nw += 2;
    let mut g = w(k);
    for _ in 1..deg {
        g = g * w(k);
    }
    c.gates.push(g - w(k + 1));
    c
}
/// Completes an assignment of the other columns with the two columns of the gate.
fn fill_gate(c: &Circuit, mut cols: Vec<Vec<i64>>, inst: Vec<Vec<i64>>) -> Asg {
    let deg = c.gates.last().unwrap().deg() as u32;
    let a: Vec<i64> = (0..c.n).map(|i| filler(77, i) % 40).collect();
    let b = a.iter().map(|v| v.pow(deg)).collect();
    cols.push(a);
    cols.push(b);
    Asg { w: cols, inst }
}

/// One column looked up in one table, everything enumerated.
fn plain(n: usize, u: usize, deg: usize, removed: bool, table: &[i64]) -> Circuit {
    let mut c = Circuit::new(n, 1, 0);
    c.u = u;
    if removed {
        c.removed = (u + 1..n).collect();
    }
    // the table's unusable rows hold values that must not count as members
    c.tables = vec![(0..n).map(|r| if r < u { table[r] } else { 90 + r as i64 }).collect()];
    c.lookups = vec![Lookup { exprs: vec![w(0)], tables: vec![(0, 0)] }];
    with_gate(c, deg)
}
fn plain_asg(c: &Circuit, v: &[i64]) -> Asg {
    let col = (0..c.n).map(|r| if r < c.u { v[r] } else { 70 + r as i64 }).collect();
    fill_gate(c, vec![col], vec![])
}

/// Shapes: an input expression (over w0,w1,w2,p0,x0) per tuple component, offsets for the table.
fn input_exprs(t: bool) -> Vec<E> {
    let mut v = vec![
        w(0),
        wr(0, 1),
        wr(0, -1),
        wr(1, 2),
        wr(0, -3),
        pi(0),
        pir(0, 1),
        pir(0, -2),
        x(0),
        xr(0, 1),
        xr(0, -1),
        xr(0, 3),
        w(0) * w(1),
        w(0) * wr(0, 1),
        w(0) * w(0) * w(0),
        w(0) * pi(0) + xr(0, 1),
        pir(0, 1) * xr(0, -1),
        w(0) + c(3),
        -wr(0, 1),
        w(0).scale(7),
        w(0) - wr(0, 1),
        c(5),
        x(0) * w(0),
        wr(0, 1) * wr(1, -1) * xr(0, 1) - pir(0, -1),
        w(0) * w(1) * w(2) * w(0),
        wr(0, 1) + wr(0, -1) + pi(0) + pir(0, 1) + x(0) + xr(0, -1),
    ];
    if t {
        let leaves = [w(0), wr(0, 1), wr(1, -1), pi(0), pir(0, 1), x(0), xr(0, -1)];
        for a in &leaves {
            for b in &leaves {
                v.push(a.clone() * b.clone());
                v.push(a.clone() - b.clone());
                v.push(a.clone() * b.clone() + wr(2, 1));
                v.push(a.clone() * b.clone() * w(2));
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
pub struct Shape {
    n: usize,
    u: usize,
    removed: bool,
    deg: usize,
    /// lookups, each a tuple of expressions
    lk: Vec<Vec<E>>,
    /// table offsets, per component
    trot: Vec<i32>,
    /// copied columns (tied cells: first and last usable row)
    perm: Vec<usize>,
    /// do all lookups use the same table columns?
    shared: bool,
}
impl Shape {
    /// The system and a satisfying assignment.
    fn build(&self) -> (Circuit, Asg) {
        let n = self.n;
        let mut c = Circuit::new(n, 3, 1);
        c.u = self.u;
        if self.removed {
            c.removed = (self.u + 1..n).collect();
        }
        c.fixed = vec![(0..n).map(|i| 11 + filler(1, i) % 20).collect()];
        let mut cols: Vec<Vec<i64>> = (0..3).map(|k| (0..n).map(|i| 40 * k + filler(k as u64 + 5, i) % 37).collect()).collect();
        let inst: Vec<Vec<i64>> = vec![(0..n).map(|i| 200 + filler(3, i) % 30).collect()];
        if !self.perm.is_empty() {
            let p = Perm::identity(self.perm.clone(), self.u);
            let (a, b) = ((0, 0), (self.perm.len() - 1, self.u - 1));
            if a != b {
                cols[self.perm[b.0]][b.1] = cols[self.perm[a.0]][a.1];
                c.perm = Some(p.swap(a, b));
            } else {
                c.perm = Some(p);
            }
        }
        let mut c = with_gate(c, self.deg);
        let a = fill_gate(&c, cols, inst);
        for (l, exprs) in self.lk.iter().enumerate() {
            let first = if self.shared { 0 } else { c.tables.len() };
            let mut tables = vec![];
            for (j, e) in exprs.iter().enumerate() {
                let rot = self.trot[(l + j) % self.trot.len()];
                let id = first + j;
                if c.tables.len() <= id {
                    c.tables.push((0..n).map(|i| 3000 + 10 * i as i64 + j as i64).collect());
                }
                // row t of the table seen through the offset: the value of input row u-1-t
                if !self.shared || l == 0 {
                    for t in 0..self.u {
                        c.tables[id][idx(t, rot, n)] = int_eval(e, &c, &a, self.u - 1 - t);
                    }
                }
                tables.push((id, if self.shared { self.trot[j % self.trot.len()] } else { rot }));
            }
            c.lookups.push(Lookup { exprs: exprs.clone(), tables });
        }
        (c, a)
    }
}
pub fn int_eval(e: &E, c: &Circuit, a: &Asg, row: usize) -> i64 {
    match e {
        E::Q(col, r) => {
            let i = idx(row, *r, c.n);
            match col {
                Col::W(k) => a.w[*k][i],
                Col::I(k) => a.inst[*k][i],
                Col::X(k) => c.fixed[*k][i],
            }
        }
        E::C(v) => *v,
        E::Add(p, q) => int_eval(p, c, a, row) + int_eval(q, c, a, row),
        E::Sub(p, q) => int_eval(p, c, a, row) - int_eval(q, c, a, row),
        E::Mul(p, q) => int_eval(p, c, a, row) * int_eval(q, c, a, row),
        E::Neg(p) => -int_eval(p, c, a, row),
        E::Scale(p, k) => int_eval(p, c, a, row) * k,
    }
}

fn shapes(t: bool) -> Vec<Shape> {
    let mut out = vec![];
    let es = input_exprs(t);
    for (n, u) in [(4usize, 3usize), (4, 2), (8, 5), (8, 7), (8, 3), (16, 12)] {
        if n == 16 && !t {
            continue;
        }
        for removed in [false, true] {
            if removed && u == n - 1 {
                continue;
            }
            for deg in [2usize, 5] {
                let mut add = |lk: Vec<Vec<E>>, trot: Vec<i32>, perm: Vec<usize>, shared: bool| {
                    out.push(Shape { n, u, removed, deg, lk, trot, perm, shared })
                };
                for e in &es {
                    if n == 4 && (format!("{}", e).contains("3]") || format!("{}", e).contains("2]")) && e.deg() > 1 {
                        continue;
                    }
                    for rot in [0, 1, -1, 2] {
                        if rot != 0 && deg == 5 && !t {
                            continue;
                        }
                        add(vec![vec![e.clone()]], vec![rot], vec![], false);
                    }
                    add(vec![vec![e.clone()]], vec![0], vec![0, 1, 2], false);
                    add(vec![vec![e.clone(), w(1)]], vec![0, 1], vec![], false);
                    add(vec![vec![w(1), e.clone()]], vec![0], vec![2], false);
                    add(vec![vec![w(1), e.clone(), w(2)]], vec![1, 0, -1], vec![], false);
                    add(vec![vec![e.clone()], vec![w(2)]], vec![0, 1], vec![], false);
                    add(vec![vec![w(2)], vec![e.clone()]], vec![0], vec![0, 2], false);
                }
                add(vec![vec![w(0)], vec![w(1)], vec![w(2)]], vec![0, -1], vec![], false);
                add(vec![vec![w(0), w(1)], vec![w(1)], vec![w(2), pi(0), x(0)]], vec![0], vec![0, 1, 2], false);
                add(vec![vec![w(0)], vec![w(0)]], vec![0], vec![], true);
                add(vec![vec![w(0), w(1)], vec![w(0), w(1)]], vec![0, 1], vec![], true);
                add(vec![vec![w(0)], vec![w(0)], vec![w(0)], vec![w(0)]], vec![0], vec![1], true);
            }
        }
    }
    out
}

fn dummy_cases() -> Vec<(usize, Vec<i64>)> {
    (2..4).flat_map(|u| words(&[0, 1, 2], u).into_iter().map(move |t| (u, t))).collect()
}

pub fn completeness(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut cs = vec![];
    for (n, u, alpha) in [(2usize, 1usize, 3i64), (4, 1, 3), (4, 2, 3), (4, 3, 3), (8, 3, 3), (8, 5, 2), (8, 7, 2), (8, 6, 2)] {
        let al: Vec<i64> = (0..alpha).collect();
        for table in words(&al, u) {
            for deg in if n == 2 { vec![3usize, 5] } else { vec![2usize, 3, 6] } {
                for removed in [false, true] {
                    if (removed && u == n - 1) || (n == 8 && u > 5 && !t && (deg != 2 || removed)) {
                        continue;
                    }
                    cs.push((n, u, deg, removed, table.clone(), al.clone()));
                }
            }
        }
    }
    ctx.sweep(
        "all-columns",
        "n=2,4,8, every usable-row count listed, every table and every contained input column over {0,1,2} (up to 3 usable rows) or {0,1} (5..7), gate degrees 2,3,6, full and reduced enforced rows; unusable rows hold non-members",
        &cs,
        |(n, u, deg, removed, table, al), r| {
            let c = plain(*n, *u, *deg, *removed, table);
            let asgs = words(al, *u).into_iter().filter(|v| v.iter().all(|x| table.contains(x))).map(|v| plain_asg(&c, &v)).collect::<Vec<_>>();
            conform::<F62, T62>(&c, asgs, Dir::Complete, r);
        },
    );
    ctx.require("all-columns", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 1000, "too few accepted executions");
    ctx.sweep(
        "without-permutation-info",
        "key preparation with PermutationInfo::dummy() and the row of the final check added to the blinded ones, as the repository's own lookup test does: n=4, every table and contained input over {0,1,2}, 2 and 3 usable rows",
        &dummy_cases(),
        |(u, table), r| {
            let c = plain(4, *u, 2, false, table);
            let sys = S62::with(&c, &Tweak { dummy_perm: true, ..Default::default() }).unwrap();
            let keys = match sys.keys() {
                Ok(k) => k,
                Err(e) => return r.fail("refused", format!("{:?}", e)),
            };
            for v in words(&[0, 1, 2], *u).into_iter().filter(|v| v.iter().all(|x| table.contains(x))) {
                let a = plain_asg(&c, &v);
                r.steps(2);
                let full = match sys.prove::<TapeFS, _>(&keys, &a, &mut ZkRng::new(1)) {
                    Err(out) => Full { stage: "prove", out },
                    Ok(p) => Full { stage: "verify", out: sys.verify::<TapeFS>(&keys, &a.inst, p) },
                };
                r.exec((&c, &a), full.key());
                r.check(full.accepted(), "incomplete", || format!("{:?}: {}", a.w, full.key()));
            }
        },
    );
    let ss = shapes(t);
    ctx.sweep(
        "shapes",
        "input expressions of degree 0..4 over witness, instance, fixed columns at offsets -3..3, table offsets -1..2, tuples of 1..3, one to four lookups with separate and shared tables, with and without copied columns, n=4,8 (16), both label orders; three value arrangements",
        &ss,
        |s, r| {
            for labels in 0..2 {
                let (mut c, a) = s.build();
                c.labels = labels;
                let sat = sat::<F62>(&c, &a);
                if !sat.all() {
                    panic!("the harness built an unsatisfied system {:?}: {:?}", s, sat);
                }
                let mut asgs = vec![a.clone()];
                // unusable rows: change them where nothing usable reads them
                for k in 0..3 {
                    for row in s.u..s.n {
                        let mut b = a.clone();
                        b.w[k][row] += 500;
                        asgs.push(b);
                    }
                }
                conform::<F62, T62>(&c, asgs, Dir::Complete, r);
            }
        },
    );
    ctx.require("shapes", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 1000, "too few accepted executions");
}

#[derive(Clone, Debug, PartialEq)]
pub(super) enum Z {
    Natural,
    Zero,
    ZeroFrom(usize),
    /// multiplied from row r on so that the last usable value is 1
    Rescale(usize),
    /// start and first step violated by opposite amounts
    BoundaryStep,
    /// natural, but the final value v
    Final(i64),
    /// two lookups: starts and steps on the row violated by opposite amounts
    Across(usize, usize, usize),
}

pub(super) type Pair = (Vec<F62>, Vec<F62>);

/// Everything the dishonest prover sees while building the columns of its lookups.
#[derive(Default)]
struct Spy {
    input: Vec<Pair>,
    forced: Vec<Pair>,
    nat: Vec<Vec<F62>>,
}

/// Proves with forced rearranged columns for lookup `target` (None: honest matching) and the given z.
fn forge(
    sys: &S62,
    keys: &Keys<F62, T62>,
    a: &Asg,
    target: usize,
    choose: &dyn Fn(&[F62], &[F62]) -> Pair,
    z: &Z,
    ch: &[F62],
    blind: Option<usize>,
    r: &mut Rec,
) -> (Result<Proof62, Out>, ZkRng) {
    let spy = Rc::new(RefCell::new(Spy::default()));
    // `choose` borrows; the interceptor needs 'static: precompute through a first call inside prove
    let (z2, u) = (z.clone(), sys.c.u);
    let (beta, gamma) = (ch[1], ch[2]);
    let choose: &'static dyn Fn(&[F62], &[F62]) -> Pair = unsafe { std::mem::transmute(choose) };
    set_interceptor(Some(Box::new(move |site, j, v| match site {
        "lookup_columns" => {
            let f = v.downcast_mut::<(Vec<F62>, Vec<F62>, bool)>().unwrap();
            let mut s = spy.borrow_mut();
            s.input.push((f.0.clone(), f.1.clone()));
            let me = s.input.len() - 1;
            let p = if me == target {
                choose(&f.0, &f.1)
            } else {
                honest_match(&f.0, &f.1).unwrap_or((f.0.clone(), f.1.clone()))
            };
            f.0 = p.0.clone();
            f.1 = p.1.clone();
            f.2 = true;
            s.forced.push(p);
        }
        "lookup_z_usable_rows" => {
            let z = v.downcast_mut::<Vec<F62>>().unwrap();
            spy.borrow_mut().nat.push(z.clone());
            z[u] = F62::one();
        }
        "lookup_z" => {
            let z = v.downcast_mut::<Vec<F62>>().unwrap();
            let s = spy.borrow();
            let nat = &s.nat[j];
            z[u] = nat[u];
            let t1 = nat[u].inverse().unwrap_or_else(F62::zero);
            let num = |k: usize, row: usize| (s.input[k].0[row] + beta) * (s.input[k].1[row] + gamma);
            if let Z::Across(l1, l2, row) = z2 {
                // needs both natural products; the columns of later lookups are known already
                if (j == l1 || j == l2) && s.input.len() > l1.max(l2) {
                    let ls = [l1, l2];
                    let nats: Vec<Vec<F62>> = ls.iter().map(|k| natural(&s.input[*k], &s.forced[*k], beta, gamma)).collect();
                    let b: Vec<F62> = (0..2).map(|k| nats[k][row] * num(ls[k], row)).collect();
                    let ti: Vec<F62> = (0..2).map(|k| nats[k][u].inverse().unwrap_or_else(F62::zero)).collect();
                    let s1 = (b[0] * ti[0] + b[1] * ti[1] - b[1] - b[1]) * (b[0] - b[1]).inverse().unwrap_or_else(F62::zero);
                    let s2 = fe::<F62>(2) - s1;
                    let (start, f) = if j == l1 { (s1, ti[0]) } else { (s2, ti[1]) };
                    z[..=row].iter_mut().for_each(|x| *x *= start);
                    z[row + 1..=u].iter_mut().for_each(|x| *x *= f);
                }
                return;
            }
            if j != target {
                return;
            }
            match z2 {
                Z::Natural | Z::Across(..) => {}
                Z::Zero => z.iter_mut().for_each(|x| *x = F62::zero()),
                Z::ZeroFrom(r0) => z[r0..].iter_mut().for_each(|x| *x = F62::zero()),
                Z::Rescale(r0) => z[r0..].iter_mut().for_each(|x| *x *= t1),
                Z::Final(v) => z[..=u].iter_mut().for_each(|x| *x *= fe::<F62>(v) * t1),
                Z::BoundaryStep => {
                    let n0 = num(target, 0);
                    let st = (n0 * t1 + F62::one()) * (n0 + F62::one()).inverse().unwrap_or_else(F62::zero);
                    z[0] = st;
                    z[1..=u].iter_mut().for_each(|x| *x *= t1);
                }
            }
        }
        _ => {}
    })));
    start(vec![]);
    let mut rng = ZkRng::new(3);
    if let Some(i) = blind {
        // the last blinding entry of a' equals its first entry (see `blind_index`)
        rng.overrides.insert(i, BLIND.with(|b| b.get()));
    }
    let p = sys.prove::<TapeFS, _>(keys, a, &mut rng);
    set_interceptor(None);
    finish();
    r.steps(1);
    (p, rng)
}
thread_local! {
    static BLIND: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
fn natural(i: &Pair, f: &Pair, beta: F62, gamma: F62) -> Vec<F62> {
    let mut z = vec![F62::one()];
    for r in 0..i.0.len() {
        let num = (i.0[r] + beta) * (i.1[r] + gamma);
        let den = (f.0[r] + beta) * (f.1[r] + gamma);
        z.push(z[r] * num * den.inverse().unwrap_or_else(F62::zero));
    }
    z
}
/// The harness's own matching.
pub fn honest_match(a: &[F62], s: &[F62]) -> Option<Pair> {
    let mut a2 = a.to_vec();
    a2.sort();
    let mut rest = s.to_vec();
    let mut s2: Vec<Option<F62>> = vec![None; a.len()];
    for i in 0..a2.len() {
        if i == 0 || a2[i] != a2[i - 1] {
            let p = rest.iter().position(|x| *x == a2[i])?;
            s2[i] = Some(rest.swap_remove(p));
        }
    }
    Some((a2, s2.into_iter().map(|x| x.unwrap_or_else(|| rest.pop().unwrap())).collect()))
}

pub(super) struct Attack<'a> {
    sys: &'a S62,
    keys: Keys<'a, F62, T62>,
    ch: Vec<F62>,
    /// per lookup: index of the draw that blinds the last row of a'
    blind: Vec<Option<usize>>,
}
impl<'a> Attack<'a> {
    pub fn new(sys: &'a S62, a: &Asg, r: &mut Rec) -> Option<Self> {
        r.steps(1);
        let keys = match sys.keys() {
            Ok(k) => k,
            Err(out) => {
                r.exec(&sys.c, format!("index:{}", Full { stage: "index", out: out.clone() }.key()));
                if out.panicked() {
                    r.fail("refused", format!("key preparation: {:?}", out));
                }
                return None;
            }
        };
        let mut at = Attack { sys, keys, ch: vec![F62::zero(); 3], blind: vec![] };
        // where does the blinding of a' come from?
        let (p, rng) = forge(sys, &at.keys, a, usize::MAX, &|a, s| (a.to_vec(), s.to_vec()), &Z::Natural, &at.ch, None, r);
        if let Ok(p) = p {
            let last = sys.domain.element(sys.c.n - 1);
            for l in 0..sys.c.lookups.len() {
                let poly = DensePolynomial::from_coefficients_slice(&p.lookup_commitments[2 * l].poly);
                let v = raw_word(poly.evaluate(&last));
                at.blind.push(rng.drawn.iter().position(|w| *w & (u64::MAX >> 2) == v));
            }
        }
        Some(at)
    }
    /// Challenges theta, beta, gamma for these columns (they do not depend on z).
    fn challenges(&self, a: &Asg, target: usize, choose: &dyn Fn(&[F62], &[F62]) -> Pair, blind: Option<usize>, r: &mut Rec) -> Vec<F62> {
        start(vec![]);
        let spy = Rc::new(RefCell::new(vec![]));
        let s2 = spy.clone();
        let choose: &'static dyn Fn(&[F62], &[F62]) -> Pair = unsafe { std::mem::transmute(choose) };
        let mut count = 0;
        set_interceptor(Some(Box::new(move |site, _, v| match site {
            "lookup_columns" => {
                let f = v.downcast_mut::<(Vec<F62>, Vec<F62>, bool)>().unwrap();
                let p = if count == target {
                    choose(&f.0, &f.1)
                } else {
                    honest_match(&f.0, &f.1).unwrap_or((f.0.clone(), f.1.clone()))
                };
                count += 1;
                f.0 = p.0;
                f.1 = p.1;
                f.2 = true;
            }
            "lookup_z_usable_rows" => {
                let z = v.downcast_mut::<Vec<F62>>().unwrap();
                s2.borrow_mut().push(());
                let u = z.len() - 1;
                z[u] = F62::one();
            }
            _ => {}
        })));
        let mut rng = ZkRng::new(3);
        if let Some(i) = blind {
            rng.overrides.insert(i, BLIND.with(|b| b.get()));
        }
        let _ = self.sys.prove::<TapeFS, _>(&self.keys, a, &mut rng);
        set_interceptor(None);
        r.steps(1);
        field_draws::<F62>(&draws(&finish()))
    }
    /// Every z of the menu with one forced pair.
    pub fn run(&self, a: &Asg, target: usize, choose: &dyn Fn(&[F62], &[F62]) -> Pair, menu: &[Z], what: &dyn Fn() -> String, r: &mut Rec) {
        // the columns may depend on theta, so the first entry is found while proving
        let first = Rc::new(RefCell::new(F62::zero()));
        let f2 = first.clone();
        let wrapped = move |a: &[F62], s: &[F62]| {
            let p = choose(a, s);
            *f2.borrow_mut() = p.0[0];
            p
        };
        let blind = self.blind.get(target).copied().flatten();
        // theta is drawn before these columns: one probing run fixes a'[0]
        let mut ch = self.challenges(a, target, &wrapped, None, r);
        if blind.is_some() {
            BLIND.with(|b| b.set(raw_word(*first.borrow())));
            ch = self.challenges(a, target, &wrapped, blind, r);
        }
        if ch.len() < 3 {
            return r.fail("harness", format!("no challenges drawn: {}", what()));
        }
        for z in menu {
            let (p, _) = forge(self.sys, &self.keys, a, target, choose, z, &ch, blind, r);
            let full = match p {
                Err(out) => Full { stage: "prove", out },
                Ok(p) => {
                    r.steps(1);
                    Full { stage: "verify", out: self.sys.verify::<TapeFS>(&self.keys, &a.inst, p) }
                }
            };
            r.exec((&self.sys.c, a, what(), format!("{:?}", z)), full.key());
            r.check(!full.accepted(), "unsound", || format!("{} with {:?}: accepted; assignment {:?}", what(), z, a));
        }
    }
}

fn zmenu(u: usize, full: bool) -> Vec<Z> {
    let mut v = vec![Z::Natural, Z::Zero, Z::Rescale(u)];
    if full {
        for r in 0..u {
            v.push(Z::Rescale(r));
        }
        for r in 1..=u {
            v.push(Z::ZeroFrom(r));
        }
        v.push(Z::BoundaryStep);
        v.push(Z::Final(2));
    }
    v
}

pub fn soundness(ctx: &mut Ctx) {
    let t = ctx.thorough;
    // honest provers first: they must not be accepted either
    let mut cs = vec![];
    for (n, u, alpha) in [(4usize, 1usize, 3i64), (4, 2, 3), (4, 3, 3), (8, 3, 3), (8, 5, 2)] {
        let al: Vec<i64> = (0..alpha).collect();
        for table in words(&al, u) {
            for removed in [false, true] {
                if removed && u == n - 1 {
                    continue;
                }
                cs.push((n, u, removed, table.clone(), al.clone()));
            }
        }
    }
    ctx.sweep(
        "honest-prover",
        "every table and every input column with a missing value, as in P05, proved by the unmodified prover",
        &cs,
        |(n, u, removed, table, al), r| {
            let c = plain(*n, *u, 2, *removed, table);
            let asgs: Vec<_> = words(al, *u).into_iter().map(|v| plain_asg(&c, &v)).collect();
            conform::<F62, T62>(&c, asgs, Dir::Sound, r);
        },
    );
    // all rearranged columns
    let mut cs = vec![];
    for (n, u, alpha, removed) in [(2usize, 1usize, 3i64, false), (4, 1, 3, true), (4, 2, 3, true), (4, 2, 3, false), (4, 3, 3, false), (8, 3, 3, true)] {
        let al: Vec<i64> = (0..alpha).collect();
        let sorted = |v: &Vec<i64>| v.windows(2).all(|p| p[0] <= p[1]);
        for table in words(&al, u) {
            if u == 3 && !(sorted(&table) || t) {
                continue;
            }
            for input in words(&al, u) {
                if input.iter().all(|x| table.contains(x)) || (u == 3 && !sorted(&input) && !t) || (n == 8 && !t && (table[0] != 0 || input[2] != 2)) {
                    continue;
                }
                cs.push((n, u, removed, table.clone(), input, al.clone()));
            }
        }
    }
    ctx.sweep(
        "all-rearrangements",
        "every table and violating input over {0,1,2} (three usable rows: quick up to order), times every pair (A',S') over {0,1,2}, times running products: natural, zero, repaired on the last row (all rows, zero from every row, boundary and first step cancelling, final 2: up to two usable rows); the last blinding entry of A' equals its first entry",
        &cs,
        |(n, u, removed, table, input, al), r| {
            let c = plain(*n, *u, if *n == 2 { 3 } else { 2 }, *removed, table);
            let sys = S62::new(&c).unwrap();
            let a = plain_asg(&c, input);
            let at = match Attack::new(&sys, &a, r) {
                Some(a) => a,
                None => return,
            };
            r.check(at.blind.iter().all(|b| b.is_some()), "harness", || "blinding draw not found".into());
            let pairs = words(al, 2 * u);
            for p in pairs {
                let (ap, sp) = (field_col::<F62>(&p[..*u]), field_col::<F62>(&p[*u..]));
                let choose = move |_: &[F62], _: &[F62]| (ap.clone(), sp.clone());
                at.run(&a, 0, &choose, &zmenu(*u, *u <= 2), &|| format!("table {:?} input {:?} pair {:?}", table, input, p), r);
            }
        },
    );
    ctx.require("all-rearrangements", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");

    ctx.sweep(
        "without-permutation-info",
        "key preparation with PermutationInfo::dummy(): one table, one violating input per number of usable rows; a' and s' both the table, running product zero from the second row",
        &[2usize, 3],
        |&u, r| {
            let c = plain(4, u, 2, false, &vec![1; u]);
            let sys = S62::with(&c, &Tweak { dummy_perm: true, ..Default::default() }).unwrap();
            let a = plain_asg(&c, &vec![2; u]);
            let at = match Attack::new(&sys, &a, r) {
                Some(a) => a,
                None => return,
            };
            let (p, _) = forge(&sys, &at.keys, &a, 0, &|_, s| (s.to_vec(), s.to_vec()), &Z::ZeroFrom(1), &at.ch, None, r);
            let full = match p {
                Err(out) => Full { stage: "prove", out },
                Ok(p) => Full { stage: "verify", out: sys.verify::<TapeFS>(&at.keys, &a.inst, p) },
            };
            r.exec((u, "dummy"), full.key());
            r.check(!full.accepted(), "lookup-with-dummy-permutation-info", || format!("table of ones, input of twos accepted with {} usable rows", u));
        },
    );
    let ss: Vec<Shape> = shapes(t).into_iter().filter(|s| t || s.deg == 2).collect();
    ctx.sweep(
        "shapes",
        "the lookup shapes of P05, violated by changing a witness cell, a table cell, an instance cell, or swapping entries of one table column; five ways of choosing (A',S'), all running products",
        &ss,
        |s, r| {
            let (c, a) = s.build();
            let mut bad: Vec<(Circuit, Asg)> = vec![];
            for k in 0..3 {
                for row in [0, s.u - 1, s.u / 2] {
                    let mut b = a.clone();
                    b.w[k][row] += 1;
                    bad.push((c.clone(), b));
                }
            }
            for row in [0, s.u - 1] {
                let mut b = a.clone();
                b.inst[0][row] += 1;
                bad.push((c.clone(), b));
            }
            for tb in 0..c.tables.len() {
                let mut d = c.clone();
                let rot = c.lookups.iter().flat_map(|l| &l.tables).find(|x| x.0 == tb).unwrap().1;
                let (i, j) = (idx(0, rot, s.n), idx(s.u - 1, rot, s.n));
                d.tables[tb].swap(i, j);
                bad.push((d.clone(), a.clone()));
                d.tables[tb].swap(i, j);
                d.tables[tb][j] += 1;
                bad.push((d, a.clone()));
            }
            let mut seen_targets = std::collections::BTreeSet::new();
            for (c, a) in bad {
                let st = sat::<F62>(&c, &a);
                if st.lookups || !st.gates {
                    continue;
                }
                let targets: Vec<usize> = (0..c.lookups.len()).filter(|l| (0..c.u).any(|row| !lookup_row_ok::<F62>(&c, &a, &c.lookups[*l], row))).collect();
                let sys = S62::new(&c).unwrap();
                let at = match Attack::new(&sys, &a, r) {
                    Some(a) => a,
                    None => continue,
                };
                for target in targets {
                    let full = seen_targets.insert(target);
                    attack_menu(&at, &a, target, full || t, s, r);
                    if c.lookups.len() > 1 {
                        let m: Vec<Z> = (0..s.u).map(|row| Z::Across(0, 1, row)).collect();
                        at.run(&a, target, &|a, s| (a.to_vec(), a.to_vec()).tap_second(s), &m, &|| format!("lookup {} across {:?}", target, s), r);
                    }
                }
            }
        },
    );
    ctx.require("shapes", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")), "no rejecting verifier");
}

pub(super) trait Tap {
    fn tap_second(self, s: &[F62]) -> Self;
}
impl Tap for Pair {
    /// a' all equal to the first table entry: well formed, wrong multiset
    fn tap_second(self, s: &[F62]) -> Pair {
        (vec![s[0]; s.len()], s.to_vec())
    }
}

pub fn attack_menu<D: std::fmt::Debug>(at: &Attack, a: &Asg, target: usize, full: bool, s: &D, r: &mut Rec) {
    let u = at.sys.c.u;
    let menu = zmenu(u, full);
    let raw = |a: &[F62], s: &[F62]| (a.to_vec(), s.to_vec());
    let claim = |a: &[F62], _: &[F62]| (a.to_vec(), a.to_vec());
    let table = |_: &[F62], s: &[F62]| (s.to_vec(), s.to_vec());
    let replace = |a: &[F62], s: &[F62]| {
        let fixed: Vec<F62> = a.iter().map(|x| if s.contains(x) { *x } else { s[0] }).collect();
        honest_match(&fixed, s).unwrap()
    };
    let extend = |a: &[F62], s: &[F62]| {
        let bad = a.iter().find(|x| !s.contains(x)).copied().unwrap_or(a[0]);
        let mut s2 = s.to_vec();
        s2[0] = bad;
        honest_match(a, &s2).unwrap_or((a.to_vec(), s2))
    };
    let all: [(&str, &dyn Fn(&[F62], &[F62]) -> Pair); 5] =
        [("raw", &raw), ("claim", &claim), ("table", &table), ("replace", &replace), ("extend", &extend)];
    for (name, f) in all {
        at.run(a, target, f, &menu, &|| format!("lookup {} {} {:?}", target, name, s), r);
    }
}
