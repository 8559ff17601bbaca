//! P03 / P04: copy constraints.
use super::common::*;
use std::cell::RefCell;
use std::rc::Rc;

/// All permutations of 0..m.
pub fn permutations(m: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                go(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![false; m], &mut out);
    out
}
/// Structured permutations of a bigger set: all transpositions, the shifts, reversal, block cycles.
fn structured(m: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..m).collect();
    let mut out = vec![id.clone()];
    for i in 0..m {
        for j in i + 1..m {
            let mut p = id.clone();
            p.swap(i, j);
            out.push(p);
        }
    }
    for s in 1..m {
        out.push((0..m).map(|i| (i + s) % m).collect());
    }
    out.push((0..m).rev().collect());
    for len in 3..=4 {
        for a in 0..m.saturating_sub(len - 1) {
            let mut p = id.clone();
            for t in 0..len {
                p[a + t] = a + (t + 1) % len;
            }
            out.push(p);
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Case {
    pub n: usize,
    pub u: usize,
    pub k: usize,
    /// degree of the gate (fixes the number of columns per running product)
    pub deg: usize,
    /// does the gate read the copied columns?
    pub read: bool,
    pub removed: Vec<usize>,
    pub perm: Vec<usize>,
}
impl Case {
    pub fn circuit(&self) -> Circuit {
        let mut c = Circuit::new(self.n, self.k + 2, 0);
        c.u = self.u;
        c.removed = self.removed.clone();
        let src = |i: usize| if self.read { w(i % self.k) } else { w(self.k) };
        let mut g = src(0);
        for i in 1..self.deg {
            g = g * src(i);
        }
        let mut gates = vec![g - w(self.k + 1)];
        // every copied column is read somewhere, at low degree
        if self.read {
            let mut s = w(0) * w(0) - w(0) * w(0);
            for i in 1..self.k {
                s = s + w(i) * w(0) - w(0) * w(i);
            }
            gates.push(s);
        }
        c.gates = gates;
        let sigma = (0..self.k)
            .map(|k| {
                (0..self.u)
                    .map(|r| {
                        let t = self.perm[k * self.u + r];
                        (t / self.u, t % self.u)
                    })
                    .collect()
            })
            .collect();
        c.perm = Some(Perm { cols: (0..self.k).collect(), sigma });
        c
    }
    /// cycle number of each cell
    pub fn cycles(&self) -> Vec<usize> {
        let m = self.perm.len();
        let mut id = vec![usize::MAX; m];
        let mut next = 0;
        for s in 0..m {
            let mut i = s;
            if id[i] != usize::MAX {
                continue;
            }
            while id[i] == usize::MAX {
                id[i] = next;
                i = self.perm[i];
            }
            next += 1;
        }
        id
    }
    pub fn assignment(&self, cell: &[i64], fill: u64) -> Asg {
        let c = self.circuit();
        let mut a = Asg { w: vec![vec![0; self.n]; self.k + 2], inst: vec![] };
        for k in 0..self.k {
            for r in 0..self.n {
                a.w[k][r] = if r < self.u { cell[k * self.u + r] } else { filler(fill, k * self.n + r) % 50 };
            }
        }
        for r in 0..self.n {
            a.w[self.k][r] = filler(9, r) % 50;
        }
        self.close(&c, &mut a);
        a
    }
    /// fills in the output column so that the gates hold
    pub fn close(&self, c: &Circuit, a: &mut Asg) {
        for r in 0..self.n {
            let src = |i: usize| if self.read { a.w[i % self.k][r] } else { a.w[self.k][r] };
            a.w[self.k + 1][r] = (0..self.deg).map(src).product();
        }
        debug_assert!(gates_ok::<F62>(c, a));
    }
}

pub fn cases(t: bool) -> Vec<Case> {
    let mut out = vec![];
    let mut add = |n: usize, u: usize, k: usize, deg: usize, read: bool, removed: Vec<usize>, perms: &[Vec<usize>]| {
        for perm in perms {
            out.push(Case { n, u, k, deg, read, removed: removed.clone(), perm: perm.clone() });
        }
    };
    let above = |n: usize, u: usize| (u + 1..n).collect::<Vec<_>>();
    let limit = if t { 7 } else { 6 };
    for (n, us) in [(2usize, vec![1usize]), (4, vec![1, 2, 3]), (8, vec![1, 2, 3, 5, 6, 7])] {
        for u in us {
            for k in 1..=6usize {
                let m = u * k;
                if m > limit && !(k <= 5 && m <= 20) {
                    continue;
                }
                let full = m <= if n == 8 { limit.min(5 + t as usize) } else { limit };
                let perms = if full { permutations(m) } else { structured(m) };
                for deg in [2usize, 3, 5] {
                    if n == 2 && deg == 2 {
                        continue;
                    }
                    for read in [true, false] {
                        if m == limit && full && !(deg == 3 && read || deg == 2 && !read) && !t {
                            continue; // quick: two settings for the biggest families
                        }
                        if !full && deg == 5 && !t {
                            continue;
                        }
                        for removed in [vec![], above(n, u)] {
                            if (removed.is_empty() && n == 8 && !t && deg == 5) || (u == n - 1 && !removed.is_empty()) {
                                continue;
                            }
                            add(n, u, k, deg, read, removed, &perms);
                        }
                    }
                }
            }
        }
    }
    for u in [13usize, 12, 10, 4] {
        for k in [1usize, 3] {
            let ps = structured(u * k);
            let step = if t { 1 } else { 17 };
            let ps: Vec<_> = ps.into_iter().step_by(step).collect();
            add(16, u, k, 2, true, above(16, u), &ps);
            add(16, u, k, 4, false, above(16, u), &ps);
        }
    }
    out
}

/// Is key preparation allowed to refuse?
fn prepare<'a>(sys: &'a S62, r: &mut Rec, complete: bool) -> Option<Keys<'a, F62, T62>> {
    r.steps(1);
    match sys.keys() {
        Ok(k) => Some(k),
        Err(out) => {
            r.exec(&sys.c, format!("index:{}", Full { stage: "index", out: out.clone() }.key()));
            if (complete || out.panicked()) && !(may_refuse(&sys.c) && out.rejected()) {
                r.fail("refused", format!("key preparation: {:?}", out));
            }
            None
        }
    }
}

pub fn completeness(ctx: &mut Ctx) {
    let cs = cases(ctx.thorough);
    ctx.sweep(
        "permutations",
        "n in {2,4,8,16}; 1..6 copied columns; every permutation of up to 6 (7) cells, structured ones above; gate degrees 2,3,5; columns read or not read by gates; full and reduced enforced rows; assignments: one value per cycle, all equal, two fillers of the free rows",
        &cs,
        |case, r| {
            let c = case.circuit();
            let sys = S62::new(&c).unwrap();
            let keys = match prepare(&sys, r, true) {
                Some(k) => k,
                None => return,
            };
            let cyc = case.cycles();
            for (v, (mul, add, fill)) in [(3, 1, 1u64), (0, 5, 2), (1, 0, 3)].iter().enumerate() {
                let cells: Vec<i64> = cyc.iter().map(|i| *i as i64 * mul + add).collect();
                let a = case.assignment(&cells, *fill);
                assert!(sat::<F62>(&c, &a).all());
                let mut rng = ZkRng::new(v as u64);
                r.steps(1);
                let full = match sys.prove::<TapeFS, _>(&keys, &a, &mut rng) {
                    Err(out) => Full { stage: "prove", out },
                    Ok(p) => {
                        r.steps(1);
                        Full { stage: "verify", out: sys.verify::<TapeFS>(&keys, &a.inst, p) }
                    }
                };
                r.exec((&c, &a), full.key());
                r.check(full.accepted(), "incomplete", || format!("{:?}: {}", a.w, full.key()));
            }
        },
    );
    ctx.require("permutations", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 1000, "too few accepted executions");
    subsets(ctx, Dir::Complete);
}

/// Every choice of copied columns among four, every label order.
fn subsets(ctx: &mut Ctx, dir: Dir) {
    let mut cs = vec![];
    for mask in 1usize..16 {
        for labels in 0..2u8 {
            for n in [4usize, 8] {
                for swap in 0..4usize {
                    cs.push((mask, labels, n, swap));
                }
            }
        }
    }
    ctx.sweep(
        "which-columns",
        "every subset of 4 witness columns copied, both label orders, n=4 and 8, tied cells: first/last usable rows of first/last copied column; soundness: each tied cell changed",
        &cs,
        |&(mask, labels, n, swap), r| {
            let cols: Vec<usize> = (0..4).filter(|i| mask >> i & 1 == 1).collect();
            let u = n - 2;
            let mut c = Circuit::new(n, 5, 1);
            c.labels = labels;
            c.u = u;
            c.fixed = vec![(0..n).map(|i| filler(7, i)).collect()];
            c.gates = vec![w(0) * wr(1, 1) * x(0) + pi(0) * wr(2, -1) - w(4), w(3) * w(3) - w(3) * w(3)];
            let last = cols.len() - 1;
            let p = Perm::identity(cols.clone(), u);
            let (a1, b1) = match swap {
                0 => ((0, 0), (last, u - 1)),
                1 => ((0, 0), (0, u - 1)),
                2 => ((0, u - 1), (last, 0)),
                _ => ((last, 0), (last, u - 1)),
            };
            let p = if a1 == b1 { p } else { p.swap(a1, b1) };
            c.perm = Some(p);
            let mut a = Asg {
                w: (0..5).map(|k| (0..n).map(|i| filler(20 + k, i)).collect()).collect(),
                inst: vec![(0..n).map(|i| filler(30, i)).collect()],
            };
            a.w[cols[b1.0]][b1.1] = a.w[cols[a1.0]][a1.1];
            let close = |a: &mut Asg| {
                for r in 0..n {
                    a.w[4][r] = a.w[0][r] * a.w[1][(r + 1) % n] * c.fixed[0][r] + a.inst[0][r] * a.w[2][(r + n - 1) % n];
                }
            };
            close(&mut a);
            let mut asgs = vec![a.clone()];
            for cell in [a1, b1] {
                let mut b = a.clone();
                b.w[cols[cell.0]][cell.1] += 1;
                close(&mut b);
                asgs.push(b);
            }
            if dir == Dir::Sound {
                set_interceptor(Some(Box::new(|_, _, _| {})));
            }
            conform::<F62, T62>(&c, asgs, dir, r);
            set_interceptor(None);
        },
    );
}

/// How the dishonest prover builds its running products.
#[derive(Clone, Debug, PartialEq)]
pub enum Cheat {
    Honest,
    /// everything zero
    Zero,
    /// everything zero from (product, row) on
    ZeroFrom(usize, usize),
    /// only one product zero
    ZeroOne(usize),
    /// rescaled from (product, row) on so that the final value is 1
    Rescale(usize, usize),
    /// start of each product scaled so that two boundary constraints cancel: `1 - z_0[0]` (index 0)
    /// and `z_i[0] - z_{i-1}[u]` (index i)
    Boundary(usize, usize),
    /// step constraints of products i and j cancel on row r
    Steps(usize, usize, usize),
    /// boundary b and the step of product k on row 0 cancel
    BoundaryStep(usize, usize),
    /// final value v (v*v - v is not zero)
    Final(i64),
}

/// Installs the cheat. `prods`: ratio last/first of each honest product, `ends` its last value,
/// `numer[j][r]`: z_j[r] times the numerator of row r.
pub fn install(cheat: Cheat, u: usize, prods: Vec<F62>, ends: Vec<F62>, numer: Vec<Vec<F62>>) {
    let m = prods.len();
    let total: F62 = prods.iter().product();
    set_interceptor(Some(Box::new(move |site, j, v| {
        if site != "permutation_z" {
            return;
        }
        let z = v.downcast_mut::<Vec<F62>>().unwrap();
        match &cheat {
            Cheat::Honest => {}
            Cheat::Zero => z.iter_mut().for_each(|x| *x = F62::zero()),
            Cheat::ZeroOne(i) => {
                if *i == j {
                    z.iter_mut().for_each(|x| *x = F62::zero())
                }
            }
            Cheat::ZeroFrom(i, r) => {
                if j > *i {
                    z.iter_mut().for_each(|x| *x = F62::zero())
                } else if j == *i {
                    z[*r..].iter_mut().for_each(|x| *x = F62::zero())
                }
            }
            Cheat::Rescale(i, r) => {
                if j == *i {
                    let f = total.inverse().unwrap_or_else(F62::zero);
                    z[*r..].iter_mut().for_each(|x| *x *= f)
                }
            }
            Cheat::Final(v) => {
                if j + 1 == m {
                    let f = fe::<F62>(*v) * z[u].inverse().unwrap_or_else(F62::zero);
                    z.iter_mut().for_each(|x| *x *= f);
                }
            }
            Cheat::Boundary(a, b) => {
                // boundary a gets residue d, boundary b residue -d; the others hold.
                // starts: s_0 = 1 - d*[a=0]..., residue of boundary i>0: s_i - s_{i-1} P_{i-1}
                // final: s_{m-1} P_{m-1} = 1. linear in d: s_i = p_i + q_i d
                let (mut p, mut q) = (vec![F62::zero(); m], vec![F62::zero(); m]);
                for i in 0..m {
                    let res = if i == *a { F62::one() } else if i == *b { -F62::one() } else { F62::zero() };
                    if i == 0 {
                        p[0] = F62::one();
                        q[0] = -res; // 1 - s_0 = res * d
                    } else {
                        p[i] = p[i - 1] * prods[i - 1];
                        q[i] = q[i - 1] * prods[i - 1] + res;
                    }
                }
                // (p + q d) P_{m-1} = 1
                let l = m - 1;
                let d = (F62::one() - p[l] * prods[l]) * (q[l] * prods[l]).inverse().unwrap_or_else(F62::zero);
                let s = p[j] + q[j] * d;
                let f = s * z[0].inverse().unwrap_or_else(F62::zero);
                z.iter_mut().for_each(|x| *x *= f);
            }
            Cheat::Steps(i, k, r) => {
                // factor 1+e after row r of product i, 1+f after row r of product k > i:
                // residues e*A_i and f*(1+e)*A_k, A_x = z_x[r] * num_x[r]
                let (ai, ak) = (numer[*i][*r], numer[*k][*r]);
                let t1 = total.inverse().unwrap_or_else(F62::zero);
                let e = (F62::one() - t1) * ak * (ai - ak).inverse().unwrap_or_else(F62::zero);
                let f1 = t1 * (F62::one() + e).inverse().unwrap_or_else(F62::zero);
                if j == *i {
                    z[*r + 1..].iter_mut().for_each(|x| *x *= F62::one() + e)
                }
                if j == *k {
                    z[*r + 1..].iter_mut().for_each(|x| *x *= f1)
                }
            }
            Cheat::BoundaryStep(b, k) => {
                // boundary b scaled by 1+g, row 0 of product k by 1+e, residues cancel on row 0
                let one = F62::one();
                let t1 = total.inverse().unwrap_or_else(F62::zero);
                let ak = numer[*k][0];
                let bb = if *b == 0 { -one } else { ends[*b - 1] };
                let (g1, e1) = if b <= k {
                    // bb*g + (1/T - 1 - g)*A = 0
                    let g = (one - t1) * ak * (bb - ak).inverse().unwrap_or_else(F62::zero);
                    (one + g, t1 * (one + g).inverse().unwrap_or_else(F62::zero))
                } else {
                    // e*A + (1/T - 1 - e)*B = 0
                    let e = (one - t1) * bb * (ak - bb).inverse().unwrap_or_else(F62::zero);
                    (t1 * (one + e).inverse().unwrap_or_else(F62::zero), one + e)
                };
                if j == *b {
                    z.iter_mut().for_each(|x| *x *= g1)
                }
                if j == *k {
                    z[1..].iter_mut().for_each(|x| *x *= e1)
                }
            }
        }
    })));
}

pub fn soundness(ctx: &mut Ctx) {
    let cs: Vec<Case> = cases(ctx.thorough)
        .into_iter()
        .filter(|c| c.perm.iter().enumerate().any(|(i, p)| i != *p))
        .filter(|c| {
            // quick: fewer settings of the biggest families
            ctx.thorough || c.perm.len() < 5
                || (c.perm.len() > 6 && (c.deg == 2 && c.read || c.perm.len() > 12 && c.n == 16))
                || (c.perm.len() == 5 && c.deg == 3 && c.read)
                || (c.perm.len() == 6 && c.n == 4 && c.u != 3 && structured(6).contains(&c.perm))
        })
        .collect();
    let t = ctx.thorough;
    ctx.sweep(
        "inconsistent",
        "the systems of P03 with a non-trivial permutation (quick: every permutation of up to 5 cells, the structured ones from 6 on, fewer gate degrees); one cell of each kind of every cycle changed, values of two cells on different cycles exchanged; each with every dishonest running product of the menu (zero, zero from / rescaled at every product and row, boundary pairs)",
        &cs,
        |case, r| {
            let c = case.circuit();
            let sys = S62::new(&c).unwrap();
            let keys = match prepare(&sys, r, false) {
                Some(k) => k,
                None => return,
            };
            let cyc = case.cycles();
            let m = cyc.len();
            let base: Vec<i64> = cyc.iter().map(|i| *i as i64 * 3 + 1).collect();
            let mut bad: Vec<(String, Vec<i64>)> = vec![];
            for cell in 0..m {
                if case.perm[cell] != cell {
                    let mut v = base.clone();
                    v[cell] += 1;
                    bad.push((format!("cell {} +1", cell), v));
                    // same multiset: exchange with a cell of another cycle
                    if let Some(o) = (0..m).find(|o| cyc[*o] != cyc[cell] && (*o > cell || case.perm[*o] == *o)) {
                        let mut v = base.clone();
                        v.swap(cell, o);
                        bad.push((format!("cells {} and {} exchanged", cell, o), v));
                    }
                }
            }
            let every_cheat_on = if t { 3 } else { 1 };
            for (bi, (what, cells)) in bad.iter().enumerate() {
                let a = case.assignment(cells, 1);
                let s = sat::<F62>(&c, &a);
                assert!(s.gates && !s.copies);
                attack(&sys, &keys, &a, case.u, bi < every_cheat_on, what, r);
            }
        },
    );
    ctx.require("inconsistent", |s| s.outcomes.keys().any(|k| k.starts_with("verify:Err")), "no rejecting executions");
    subsets(ctx, Dir::Sound);
    three_cycles(ctx);
}

/// Proves with every cheat of the menu; nothing may be accepted.
pub fn attack(sys: &S62, keys: &Keys<F62, T62>, a: &Asg, u: usize, all: bool, what: &str, r: &mut Rec) {
    // first pass: honest products
    let seen: Rc<RefCell<Vec<Vec<F62>>>> = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    set_interceptor(Some(Box::new(move |site, _, v| {
        if site == "permutation_z" {
            s2.borrow_mut().push(v.downcast_ref::<Vec<F62>>().unwrap().clone());
        }
    })));
    start(vec![]);
    let p = sys.prove::<TapeFS, _>(keys, a, &mut ZkRng::new(1));
    set_interceptor(None);
    let ch = field_draws::<F62>(&draws(&finish()));
    r.steps(1);
    let zs = seen.borrow().clone();
    judge(sys, keys, a, p, what, &Cheat::Honest, r);
    if zs.is_empty() {
        return;
    }
    let prods: Vec<F62> = zs.iter().map(|z| z[u] * z[0].inverse().unwrap_or_else(F62::zero)).collect();
    let m = prods.len();
    let ends: Vec<F62> = zs.iter().map(|z| z[u]).collect();
    let total: F62 = prods.iter().product();
    // numerators, from the challenges the prover drew (theta, beta, gamma, ...)
    let cols = sys.c.perm.as_ref().unwrap().cols.clone();
    let numer: Vec<Vec<F62>> = (0..m)
        .map(|j| {
            (0..u)
                .map(|row| {
                    let per = keys.pk.vk.index_info.extended_coset_domain.size() / sys.c.n - 1;
                    let mut v = zs[j][row];
                    for i in (j * per)..((j + 1) * per).min(cols.len()) {
                        v *= fe::<F62>(a.w[cols[i]][row]) + ch[1] * sys.deltas[i] * sys.domain.element(row) + ch[2];
                    }
                    v
                })
                .collect()
        })
        .collect();
    let mut menu = vec![Cheat::Zero, Cheat::Final(1), Cheat::Final(0), Cheat::Final(2)];
    if all {
        for j in 0..m {
            for row in 0..=u {
                menu.push(Cheat::Rescale(j, row));
                menu.push(Cheat::ZeroFrom(j, row));
            }
            menu.push(Cheat::ZeroOne(j));
            for k in j + 1..m {
                menu.push(Cheat::Boundary(j, k));
                if !total.is_one() {
                    for row in 0..u {
                        menu.push(Cheat::Steps(j, k, row));
                    }
                }
            }
            if !total.is_one() {
                for k in 0..m {
                    menu.push(Cheat::BoundaryStep(j, k));
                }
            }
        }
    } else {
        menu.push(Cheat::Rescale(m - 1, u));
        menu.push(Cheat::Rescale(0, 1));
        menu.push(Cheat::Rescale(m - 1, 0));
        menu.push(Cheat::ZeroFrom(m - 1, u));
    }
    for cheat in menu {
        install(cheat.clone(), u, prods.clone(), ends.clone(), numer.clone());
        let p = sys.prove::<TapeFS, _>(keys, a, &mut ZkRng::new(1));
        set_interceptor(None);
        r.steps(1);
        judge(sys, keys, a, p, what, &cheat, r);
    }
}

fn judge(sys: &S62, keys: &Keys<F62, T62>, a: &Asg, p: Result<Proof62, Out>, what: &str, cheat: &Cheat, r: &mut Rec) {
    let full = match p {
        Err(out) => Full { stage: "prove", out },
        Ok(p) => {
            r.steps(1);
            Full { stage: "verify", out: sys.verify::<TapeFS>(keys, &a.inst, p) }
        }
    };
    r.exec((&sys.c, a, format!("{:?}", cheat)), full.key());
    r.check(!full.accepted(), "unsound", || format!("{} accepted with running product {:?}", what, cheat));
}

/// Cells tied in a 3-cycle with values built from the cell identifiers, such that the products
/// would agree if one of the two challenges had no influence.
fn three_cycles(ctx: &mut Ctx) {
    let mut cs = vec![];
    for (n, u, k) in [(4usize, 3usize, 1usize), (4, 2, 2), (8, 6, 1), (8, 3, 2), (4, 2, 3), (4, 1, 3)] {
        let m = u * k;
        for a in 0..m {
            for b in 0..m {
                for c in 0..m {
                    if a != b && b != c && a != c && a < b.min(c) {
                        for kind in 0..3 {
                            cs.push((n, u, k, [a, b, c], kind));
                        }
                    }
                }
            }
        }
    }
    ctx.sweep(
        "three-cycles",
        "every 3-cycle of cells; values (1, C/A, C/B), values built for shifted identifiers, and for constant identifiers",
        &cs,
        |&(n, u, k, cells, kind), r| {
            let mut perm: Vec<usize> = (0..u * k).collect();
            perm[cells[0]] = cells[1];
            perm[cells[1]] = cells[2];
            perm[cells[2]] = cells[0];
            let case = Case { n, u, k, deg: 3, read: true, removed: vec![], perm };
            let c = case.circuit();
            let sys = S62::new(&c).unwrap();
            let keys = match prepare(&sys, r, false) {
                Some(k) => k,
                None => return,
            };
            let ident = |x: usize| {
                let v = sys.deltas[x / u] * sys.domain.element(x % u);
                match kind {
                    0 => v,
                    1 => v + F62::one(),
                    _ => v * fe::<F62>(3) + fe::<F62>(2),
                }
            };
            let (ia, ib, ic) = (ident(cells[0]), ident(cells[1]), ident(cells[2]));
            let a0 = case.assignment(&vec![4; u * k], 1);
            let mut cols: Vec<Vec<F62>> = a0.w.iter().map(|v| field_col(v)).collect();
            let vals = match (ia.inverse(), ib.inverse()) {
                (Some(ja), Some(jb)) => [F62::one(), ic * ja, ic * jb],
                _ => return,
            };
            for (x, v) in cells.iter().zip(vals) {
                cols[x / u][x % u] = v;
            }
            for row in 0..n {
                cols[k + 1][row] = (0..3).map(|i| cols[i % k][row]).product();
            }
            set_interceptor(Some(Box::new(|_, _, _| {})));
            let (mut w, mut i) = sys.prover_oracles_f(&cols, &[]);
            let p = sys.prove_with::<TapeFS, _>(&keys, &mut w, &mut i, &mut ZkRng::new(1));
            set_interceptor(None);
            r.steps(1);
            judge(&sys, &keys, &a0, p, "3-cycle", &Cheat::Honest, r);
            r.exec((n, u, k, cells, kind), "done");
        },
    );
}
