//! P01 / P02: gate identities.
use super::common::*;

/// Small gates whose every assignment over a small alphabet is explored.
pub(super) fn exhaustive_circuits(thorough: bool) -> Vec<(Circuit, Vec<i64>)> {
    let mut out = vec![];
    let mut add = |n: usize, nw: usize, ni: usize, gates: Vec<E>, fixed: Vec<Vec<i64>>, removed: Vec<usize>, alpha: &[i64]| {
        for labels in 0..2 {
            let mut c = Circuit::new(n, nw, ni);
            c.gates = gates.clone();
            c.fixed = fixed.clone();
            c.removed = removed.clone();
            c.labels = labels;
            out.push((c, alpha.to_vec()));
        }
    };
    let rem4: Vec<Vec<usize>> = vec![vec![], vec![0], vec![3], vec![2, 3], vec![1], vec![0, 2]];
    let b = &[0i64, 1][..];
    let t = &[0i64, 1, 2][..];
    for rm in &rem4 {
        let rm = rm.clone();
        add(4, 1, 0, vec![w(0) * w(0) - w(0)], vec![], rm.clone(), t);
        for r in [1, -1, 2, 3, -2, -3, 5, -5] {
            add(4, 1, 0, vec![w(0) * wr(0, r) - w(0)], vec![], rm.clone(), t);
            add(4, 1, 0, vec![wr(0, r) * w(0) - c(2)], vec![], rm.clone(), t);
        }
        add(4, 1, 0, vec![wr(0, 1) * wr(0, -1) - w(0)], vec![], rm.clone(), t);
        add(4, 1, 0, vec![wr(0, 1) * (c(1) - w(0)), w(0) * wr(0, 2) - w(0)], vec![], rm.clone(), t);
        add(4, 2, 0, vec![w(0) * w(1) - wr(1, 1)], vec![], rm.clone(), b);
        add(4, 2, 0, vec![w(0) * w(0) - w(1), w(1) * wr(0, -1)], vec![], rm.clone(), b);
        add(4, 1, 1, vec![w(0) * w(0) - pi(0)], vec![], rm.clone(), b);
        add(4, 1, 1, vec![w(0) * w(0) - pir(0, 1)], vec![], rm.clone(), b);
        add(4, 1, 1, vec![pi(0) * pir(0, -1) - wr(0, 1)], vec![], rm.clone(), b);
        for q in words(&[0, 1], 4) {
            add(4, 1, 0, vec![x(0) * w(0) * wr(0, 1) - x(0) * w(0)], vec![q.clone()], rm.clone(), b);
            add(4, 1, 0, vec![xr(0, 1) * (w(0) - c(1))], vec![q.clone()], rm.clone(), t);
            add(4, 1, 0, vec![xr(0, -1) * w(0) * w(0), x(0) * (w(0) - c(1))], vec![q], rm.clone(), b);
        }
    }
    // degrees up to 6, every number of removed rows
    for d in 2..=6 {
        for k in 0..4 {
            let mut g = w(0);
            for _ in 1..d {
                g = g * w(0);
            }
            add(4, 1, 0, vec![g - w(0)], vec![], (4 - k..4).collect(), t);
        }
    }
    for d in 3..=6 {
        let mut g = w(0);
        for _ in 1..d {
            g = g * wr(0, 1);
        }
        add(2, 1, 0, vec![g.clone() - w(0)], vec![], vec![], &[0, 1, 2, 3]);
        add(2, 1, 0, vec![g - w(0)], vec![], vec![1], &[0, 1, 2, 3]);
    }
    if thorough {
        let rem8: Vec<Vec<usize>> = vec![vec![], vec![7], vec![0, 7], vec![5, 6, 7]];
        for rm in rem8 {
            for r in (-9..10).filter(|r: &i32| r.abs() != 8) {
                add(8, 1, 0, vec![w(0) * wr(0, r) - w(0)], vec![], rm.clone(), b);
            }
            add(8, 1, 0, vec![w(0) * w(0) - w(0)], vec![], rm.clone(), t);
            add(4, 3, 0, vec![w(0) * w(1) - w(2)], vec![], rm.iter().filter(|r| **r < 4).copied().collect(), b);
        }
    }
    out
}

pub(super) fn all_assignments(c: &Circuit, alpha: &[i64]) -> Vec<Asg> {
    words(alpha, (c.nw + c.ni) * c.n)
        .into_iter()
        .map(|v| {
            let cols: Vec<Vec<i64>> = v.chunks(c.n).map(|x| x.to_vec()).collect();
            Asg { w: cols[..c.nw].to_vec(), inst: cols[c.nw..].to_vec() }
        })
        .collect()
}

/// Every expression with up to three leaves from a fixed leaf set.
pub(super) fn expressions(thorough: bool) -> Vec<E> {
    let leaves = vec![w(0), wr(0, 1), wr(1, -1), x(0), xr(0, 1), pi(0), pir(0, -1), c(3), w(1).scale(5), -wr(0, 2)];
    let ops: [fn(E, E) -> E; 3] = [|a, b| a * b, |a, b| a + b, |a, b| a - b];
    let mut two = vec![];
    for a in &leaves {
        for b in &leaves {
            for o in &ops {
                two.push(o(a.clone(), b.clone()));
            }
        }
    }
    let mut out = leaves.clone();
    out.extend(two.clone());
    out.push(w(0) * w(0) * w(0) * w(0));
    out.push(-(w(0) * w(1)).scale(-3));
    out.push((w(0) + wr(1, 1)) * (x(0) - pi(0)) * (wr(0, -1) + c(2)));
    for (i, t) in two.iter().enumerate() {
        for (j, l) in leaves.iter().enumerate() {
            for (k, o) in ops.iter().enumerate() {
                if thorough || (i + 3 * j + 5 * k) % 7 == 0 {
                    out.push(o(t.clone(), l.clone()));
                    if k != 1 {
                        out.push(o(l.clone(), t.clone()));
                    }
                }
            }
        }
    }
    out
}

/// sel * (E - out), with `out` computed: satisfied by construction.
pub(super) fn computed(e: &E, n: usize, sel: Vec<i64>, removed: Vec<usize>) -> (Circuit, Asg) {
    let mut c = Circuit::new(n, 3, 1);
    c.fixed = vec![(0..n).map(|i| filler(3, i)).collect(), sel];
    c.gates = vec![x(1) * (e.clone() - w(2))];
    c.removed = removed;
    let mut a = Asg {
        w: vec![
            (0..n).map(|i| filler(1, i)).collect(),
            (0..n).map(|i| filler(2, i)).collect(),
            vec![0; n],
        ],
        inst: vec![(0..n).map(|i| filler(4, i)).collect()],
    };
    for r in 0..n {
        a.w[2][r] = int_eval(e, &c, &a, r);
    }
    (c, a)
}
/// integer value (small formulas only)
fn int_eval(e: &E, c: &Circuit, a: &Asg, row: usize) -> i64 {
    match e {
        E::Q(col, r) => {
            let i = idx(row, *r, c.n);
            match col {
                Col::W(k) => a.w[*k][i],
                Col::I(k) => a.inst[*k][i],
                Col::X(k) => c.fixed[*k][i],
            }
        }
        E::C(v) => *v,
        E::Add(p, q) => int_eval(p, c, a, row) + int_eval(q, c, a, row),
        E::Sub(p, q) => int_eval(p, c, a, row) - int_eval(q, c, a, row),
        E::Mul(p, q) => int_eval(p, c, a, row) * int_eval(q, c, a, row),
        E::Neg(p) => -int_eval(p, c, a, row),
        E::Scale(p, k) => int_eval(p, c, a, row) * k,
    }
}

/// Systems of k gates `x_g * (w_a * w_b - w_c)` on which single gates are violated.
pub(super) fn multi(n: usize, k: usize, removed: Vec<usize>) -> (Circuit, Asg) {
    let mut c = Circuit::new(n, k + 1, 1);
    c.removed = removed;
    for g in 0..k {
        c.fixed.push((0..n).map(|i| 1 + ((i + g) % 2) as i64).collect());
        // column g+1 = previous column at the next row squared (+ instance)
        c.gates.push(x(g) * (wr(g, 1) * w(g) + pi(0) - w(g + 1)));
    }
    let mut a = Asg { w: vec![], inst: vec![(0..n).map(|i| (i as i64) % 3).collect()] };
    a.w.push((0..n).map(|i| (i as i64 * 2 + 1) % 3).collect());
    for g in 0..k {
        let p = a.w[g].clone();
        a.w.push((0..n).map(|i| p[(i + 1) % n] * p[i] % 50 + a.inst[0][i]).collect());
        // keep numbers small but the gate satisfied: subtract the excess through the fixed part
        let exact: Vec<i64> = (0..n).map(|i| p[(i + 1) % n] * p[i] + a.inst[0][i]).collect();
        a.w[g + 1] = exact;
    }
    (c, a)
}

pub fn completeness(ctx: &mut Ctx) {
    run(ctx, Dir::Complete)
}
pub fn soundness(ctx: &mut Ctx) {
    run(ctx, Dir::Sound)
}

fn run(ctx: &mut Ctx, dir: Dir) {
    let t = ctx.thorough;
    let circuits = exhaustive_circuits(t);
    ctx.sweep(
        "all-assignments",
        "every assignment over {0,1} or {0,1,2} of every listed gate system on 2, 4 (thorough: 8) rows; offsets -5..5, degrees 2..6, removed rows, selectors: all 0/1 columns",
        &circuits,
        |(c, alpha), r| conform::<F62, T62>(c, all_assignments(c, alpha), dir, r),
    );
    if dir == Dir::Complete {
        ctx.require("all-assignments", |s| s.outcomes.get("accept").copied().unwrap_or(0) > 500, "too few accepted executions");
    }

    let es = expressions(t);
    let mut cases = vec![];
    for e in &es {
        cases.push((e.clone(), 8, vec![1; 8], vec![]));
        cases.push((e.clone(), 4, vec![1, 1, 0, 1], vec![3]));
        if t {
            cases.push((e.clone(), 8, vec![1, 0, 1, 1, 1, 0, 1, 2], vec![6, 7]));
        }
    }
    ctx.sweep(
        "expressions",
        "expressions with up to 3 leaves out of 10 (quick: a fixed seventh of those with 3), n=4 and 8; soundness: the output changed on every row in turn",
        &cases,
        |(e, n, sel, rm), r| {
            let (c, a) = computed(e, *n, sel.clone(), rm.clone());
            let mut asgs = vec![];
            if dir == Dir::Complete {
                asgs.push(a.clone());
                for row in (0..*n).filter(|x| rm.contains(x) || sel[*x] == 0) {
                    let mut b = a.clone();
                    b.w[2][row] += 1; // no effect: the row is not enforced
                    asgs.push(b);
                }
            } else {
                for row in 0..*n {
                    for d in [1, -7] {
                        let mut b = a.clone();
                        b.w[2][row] += d;
                        asgs.push(b);
                    }
                }
            }
            conform::<F62, T62>(&c, asgs, dir, r)
        },
    );

    // several gates
    let mut cases = vec![];
    for n in if t { vec![4, 8, 16] } else { vec![4, 8] } {
        for k in 1..=(if t { 5 } else { 4 }) {
            for rm in [vec![], vec![n - 1], vec![0, n - 1]] {
                cases.push((n, k, rm));
            }
        }
    }
    ctx.sweep(
        "several-gates",
        "1..4 (5) gates; soundness: every cell changed alone, and every pair of outputs changed by amounts whose gate violations cancel",
        &cases,
        |(n, k, rm), r| {
            let (c, a) = multi(*n, *k, rm.clone());
            let mut asgs = vec![a.clone()];
            for col in 0..=*k {
                for row in 0..*n {
                    let mut b = a.clone();
                    b.w[col][row] += 1;
                    asgs.push(b);
                }
            }
            for row in 0..*n {
                let mut b = a.clone();
                b.inst[0][row] += 1;
                asgs.push(b);
            }
            conform::<F62, T62>(&c, asgs, dir, r);
        },
    );
    if dir == Dir::Sound {
        cancel(ctx);
    }
}

/// Independent gates w_g - x_g-style violations chosen to cancel in unweighted sums.
fn cancel(ctx: &mut Ctx) {
    let mut cases = vec![];
    for n in [4usize, 8] {
        for k in 2..=4usize {
            for i in 0..k {
                for j in 0..k {
                    for r1 in 0..n {
                        for r2 in 0..n {
                            if (i, r1) != (j, r2) && (n == 4 || ctx.thorough || (r1 * 3 + r2) % 4 == 0) {
                                cases.push((n, k, i, r1, j, r2));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.sweep(
        "cancelling",
        "k=2..4 independent gates w_g*w_g - x_g; gate i violated by +d on row r1 and gate j by -d on row r2, for every (i,r1),(j,r2), d in {1,2,-1}",
        &cases,
        |&(n, k, i, r1, j, r2), r| {
            let mut c = Circuit::new(n, 2 * k, 0);
            for g in 0..k {
                c.gates.push(w(g) * w(g) - w(k + g));
            }
            let base: Vec<Vec<i64>> = (0..k).map(|g| (0..n).map(|x| (g + x) as i64 % 4).collect()).collect();
            let sq: Vec<Vec<i64>> = base.iter().map(|v| v.iter().map(|x| x * x).collect()).collect();
            let mut asgs = vec![];
            for d in [1, 2, -1] {
                let mut b = Asg { w: base.iter().chain(&sq).cloned().collect(), inst: vec![] };
                b.w[k + i][r1] += d;
                b.w[k + j][r2] -= d;
                asgs.push(b);
            }
            conform::<F62, T62>(&c, asgs, Dir::Sound, r);
        },
    );
}
