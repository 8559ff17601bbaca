//! Systems that are wide (many columns of each kind, many offsets of one column) or long (large
//! domains): anything that behaves differently from some count on.
use super::common::*;
use super::copy;
use super::lookup::{attack_menu, Attack};
use super::whole::Kind;
use crate::systems::{col, complete, define, parts, wide};

/// Changes that break the defining gate: one cell of each column named.
fn nudged(a: &Asg, cells: impl IntoIterator<Item = (Col, usize)>) -> Vec<Asg> {
    cells
        .into_iter()
        .filter_map(|(k, row)| {
            let mut b = a.clone();
            match k {
                Col::W(i) => b.w[i][row] += 1,
                Col::I(i) => b.inst[i][row] += 1,
                Col::X(_) => return None,
            }
            Some(b)
        })
        .collect()
}

/// `nw`, `ni`, `nf` columns, each read by one gate (or one lookup input) with its own weight.
fn many_columns(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    let counts: Vec<usize> = if ctx.thorough { vec![1, 2, 5, 8, 9, 10, 11, 12, 16, 17, 26, 33, 40] } else { vec![1, 8, 9, 11, 17, 33] };
    let mut cases = vec![];
    for &nw in &counts {
        for &ni in &counts {
            for &nf in &counts {
                for labels in [0u8, 3] {
                    cases.push((nw, ni, nf, labels));
                }
            }
        }
    }
    for m in [64, 65, 128, 129, 255, 256, 257, 300] {
        for labels in [0u8, 3] {
            cases.extend([(m, 1, 1, labels), (1, m, 1, labels), (1, 1, m, labels)]);
        }
    }
    ctx.sweep(
        "wide-systems",
        "n=8; up to 300 columns of one kind; 1,8,9,11,17,33 (thorough 13 counts up to 40) witness, public and fixed columns, all combinations, two name schemes; one constraint reads them all, at offsets -2..2, with distinct weights; soundness: one cell of every column changed",
        &cases,
        |&(nw, ni, nf, labels), r| {
            let n = 8;
            let mut c = Circuit::new(n, nw, ni);
            c.labels = labels;
            c.fixed = (0..nf).map(|i| col(9, i, n)).collect();
            let off = |i: usize| i as i32 % 5 - 2;
            let mut e = w(0) * w(nw - 1) * E::Q(Col::I(0), 1);
            for i in 0..nw {
                e = e + wr(i, off(i)).scale(i as i64 + 2);
            }
            for i in 0..ni {
                e = e + pir(i, off(i + 1)).scale(3 * i as i64 + 101);
            }
            for i in 0..nf {
                e = e + xr(i, off(i + 2)) * w(i % nw);
            }
            if kind == Kind::Lookup {
                // the table has the five values of the expression on the usable rows
                define(&mut c, e.clone());
                let a = complete(&c, (0..nw).map(|i| col(1, i, n)).collect(), (0..ni).map(|i| col(2, i, n)).collect());
                c.gates = vec![w(0) * w(0) * w(0) - w(0) * w(0) * w(0)];
                c.u = 5;
                let values = a.w[nw].clone();
                c.tables = vec![(0..n).map(|r| values[if r < 5 { 4 - r } else { 0 }]).collect()];
                c.lookups = vec![Lookup { exprs: vec![e], tables: vec![(0, 0)] }];
                let mut asgs = vec![a.clone()];
                asgs.extend(nudged(&a, (0..nw).map(|i| (Col::W(i), (8 + 2 + off(i)) as usize % 8)).chain((0..ni).map(|i| (Col::I(i), (8 + 2 + off(i + 1)) as usize % 8)))));
                if dir == Dir::Complete {
                    return conform::<F62, T62>(&c, asgs, dir, r);
                }
                let sys = S62::new(&c).unwrap();
                let at = match Attack::new(&sys, &a, r) {
                    Some(at) => at,
                    None => return,
                };
                // one column of each kind and position
                for a in asgs.iter().skip(1).step_by(1 + (nw + ni) / 6) {
                    if !sat::<F62>(&c, a).lookups {
                        attack_menu(&at, a, 0, false, &(nw, ni, nf), r);
                    }
                }
                return;
            }
            define(&mut c, e);
            let a = complete(&c, (0..nw).map(|i| col(1, i, n)).collect(), (0..ni).map(|i| col(2, i, n)).collect());
            let mut asgs = vec![a.clone()];
            asgs.extend(nudged(&a, (0..=nw).map(|i| (Col::W(i), i % n)).chain((0..ni).map(|i| (Col::I(i), (i + 3) % n)))));
            conform::<F62, T62>(&c, asgs, dir, r);
        },
    );
    guard(ctx, "wide-systems", dir);
}

fn guard(ctx: &mut Ctx, name: &str, dir: Dir) {
    ctx.require(
        name,
        |s| match dir {
            Dir::Complete => s.outcomes.get("accept").copied().unwrap_or(0) as usize >= s.total,
            Dir::Sound => s.outcomes.iter().filter(|(k, _)| k.contains("QuotientNotZero") || k.starts_with("prove")).map(|x| *x.1).sum::<u64>() as usize >= s.total,
        },
        "too few executions",
    );
}

/// One column of each kind, and the constraint reads it at many offsets.
fn many_offsets(ctx: &mut Ctx, dir: Dir) {
    let mut cases = vec![];
    for n in if ctx.thorough { vec![4usize, 8, 16, 32, 64] } else { vec![4, 8, 16, 32] } {
        for m in 1..=n as i32 {
            if n > 16 && !ctx.thorough && m % 3 != 0 && m < n as i32 - 1 {
                continue;
            }
            for what in 0..4 {
                // forwards, backwards, both, every other one (odd strides visit all rows)
                let list: Vec<i32> = match what {
                    0 => (0..m).collect(),
                    1 => (1 - m..=0).collect(),
                    2 => (0..m).map(|i| i - m / 2).collect(),
                    _ => (0..m).map(|i| (3 * i) % n as i32).collect(),
                };
                for column in 0..4 {
                    cases.push((n, list.clone(), column));
                }
            }
        }
    }
    ctx.sweep(
        "many-offsets",
        "n=4,8,16,32 (thorough 64); a witness, public, fixed column or all of them read at 1..n distinct offsets, forwards, backwards, around zero, with stride 3; soundness: four cells of every column changed",
        &cases,
        |(n, list, column), r| {
            let n = *n;
            let mut c = Circuit::new(n, 2, 1);
            c.fixed = vec![col(9, 0, n)];
            let mut e = w(0) * w(1) * w(1);
            for (j, o) in list.iter().enumerate() {
                for k in 0..3 {
                    if *column == k || *column == 3 {
                        let q = [Col::W(1), Col::I(0), Col::X(0)][k];
                        e = e + E::Q(q, *o).scale((j * j) as i64 + 2 * j as i64 + 3);
                    }
                }
            }
            define(&mut c, e);
            let a = complete(&c, vec![col(1, 0, n), col(1, 1, n)], vec![col(2, 0, n)]);
            let mut asgs = vec![a.clone()];
            for row in [0, 1, n / 2, n - 1] {
                asgs.extend(nudged(&a, [(Col::W(0), row), (Col::W(1), row), (Col::W(2), row), (Col::I(0), row)]));
            }
            conform::<F62, T62>(&c, asgs, dir, r);
        },
    );
    guard(ctx, "many-offsets", dir);
}

fn large(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    let mut cases = vec![];
    for n in if ctx.thorough { vec![256usize, 512, 1024, 2048, 4096, 8192, 16384, 32768] } else { vec![256, 512, 1024, 2048, 4096, 8192] } {
        for (k, l) in match kind {
            Kind::Gate => vec![(0, 0), (1, 1)],
            Kind::Copy => vec![(2, 0), (5, 1)],
            Kind::Lookup => vec![(0, 2), (2, 2)],
        } {
            for (deg, u, red) in [(3, n - 4, true), (5, n / 2 + 1, false)] {
                cases.push((n, k, l, deg, u, red));
            }
        }
    }
    ctx.sweep(
        "large-domains",
        "n=256..8192 (thorough 32768); copied columns, lookups, two degrees, numbers of usable rows; soundness: one cell of every column changed on the first, middle and last usable rows, with dishonest running products",
        &cases,
        |&(n, k, l, deg, u, red), r| {
            let s = wide(n, k, l, deg, u, red);
            let a = &s.asgs[0];
            let mut asgs = vec![];
            if dir == Dir::Complete {
                asgs.push(a.clone());
            } else {
                let rows = [0, u / 2, u - 1];
                for row in rows {
                    let mut b: Vec<Asg> = nudged(a, (0..a.w.len()).map(|i| (Col::W(i), row)));
                    b.extend(nudged(a, [(Col::I(0), row)]));
                    asgs.extend(b);
                }
                // copies and lookups alone: the defined column follows
                if kind != Kind::Gate {
                    for a in asgs.iter_mut() {
                        a.w.truncate(s.c.nw - 1);
                        *a = complete(&s.c, std::mem::take(&mut a.w), a.inst.clone());
                    }
                }
                asgs.retain(|b| {
                    let t = sat::<F62>(&s.c, b);
                    match kind {
                        Kind::Gate => !t.gates,
                        Kind::Copy => !t.copies,
                        Kind::Lookup => !t.lookups,
                    }
                });
                asgs.truncate(4);
            }
            if dir == Dir::Sound && kind == Kind::Copy {
                let sys = S62::new(&s.c).unwrap();
                let keys = match sys.keys() {
                    Ok(k) => k,
                    Err(_) => return r.fail("refused", "key preparation"),
                };
                for a in asgs {
                    copy::attack(&sys, &keys, &a, u, false, "changed copy", r);
                }
            } else if dir == Dir::Sound && kind == Kind::Lookup {
                if n > 2048 {
                    return;
                }
                let sys = S62::new(&s.c).unwrap();
                let at = match Attack::new(&sys, a, r) {
                    Some(at) => at,
                    None => return,
                };
                for a in asgs.iter().take(if n > 512 { 1 } else { 4 }) {
                    attack_menu(&at, a, 0, false, &(n, k, l), r);
                }
            } else {
                conform::<F62, T62>(&s.c, asgs, dir, r);
            }
        },
    );
    guard(ctx, "large-domains", dir);
}

/// Constraints of high degree: the quotient has as many parts.
fn high_degrees(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    let mut cases = vec![];
    for n in if ctx.thorough { vec![4usize, 8, 16, 32] } else { vec![4, 8, 16] } {
        for deg in (3..=20).chain([31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257]).chain(if ctx.thorough { vec![511, 512, 513, 1023] } else { vec![] }) {
            for factors in 0..3 {
                for red in [false, true] {
                    cases.push((n, deg, factors, red));
                }
            }
        }
    }
    ctx.sweep(
        "high-degrees",
        "n=4,8,16 (thorough 32); one constraint (or lookup input) that multiplies 3..20 and around 32,64,128,256 (thorough 1024) queries of one, several columns, offsets; all rows or a few enforced; soundness: one cell of every column changed",
        &cases,
        |&(n, deg, factors, red), r| {
            let mut c = Circuit::new(n, 3, 1);
            c.u = n - 2;
            if red {
                c.removed = vec![n - 1];
            }
            // +-1 everywhere: products stay small
            let sign = |k: usize| (0..n).map(|i| if filler(k as u64, i) % 2 == 0 { 1 } else { -1 }).collect::<Vec<i64>>();
            c.fixed = vec![sign(7)];
            let q = |j: usize| match factors {
                0 => w(0),
                1 => [w(0), w(1), pi(0), x(0)][j % 4].clone(),
                _ => [wr(0, 1), wr(1, -1), w(0), pir(0, 1), w(1)][j % 5].clone(),
            };
            let mut e = q(0);
            for j in 1..deg {
                e = e * q(j);
            }
            define(&mut c, e.clone() + w(2).scale(2));
            let free = vec![sign(1), sign(2), col(3, 0, n)];
            let a = complete(&c, free.clone(), vec![sign(5)]);
            if kind == Kind::Lookup {
                // the product is 1 or -1; the added weight makes it one of two values
                c.tables = vec![(0..n).map(|i| [4, 2, 3][i % 3]).collect()];
                c.lookups = vec![Lookup { exprs: vec![e + E::C(3)], tables: vec![(0, 0)] }];
            }
            if kind == Kind::Copy {
                c.perm = Some(Perm::identity(vec![0, 2, 1], n - 2));
            }
            let mut asgs = vec![a.clone()];
            for row in [0, n / 2, n - 3] {
                asgs.extend(nudged(&a, (0..4).map(|k| (Col::W(k), row)).chain([(Col::I(0), row)])));
            }
            conform::<F62, T62>(&c, asgs, dir, r);
        },
    );
    guard(ctx, "high-degrees", dir);
}

/// Few enforced rows of a long domain, up to all but two of them.
fn few_enforced(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    let mut cases = vec![];
    for n in if ctx.thorough { vec![16usize, 32, 64, 128, 256] } else { vec![16, 32, 64] } {
        for u in 2..n - 1 {
            if n > 32 && !ctx.thorough && u % 5 != 2 && u > 6 && u + 4 < n {
                continue;
            }
            for deg in [2, 3, 5, 11] {
                for (k, l) in match kind {
                    Kind::Gate => vec![(0, 0)],
                    Kind::Copy => vec![(1, 0), (2, 0), (4, 1), (14, 0), (40, 0)],
                    Kind::Lookup => vec![(0, 1), (2, 2)],
                } {
                    if k < 10 || u < 6 || (dir == Dir::Complete && n < 32) {
                        cases.push((n, u, deg, k, l));
                    }
                }
            }
        }
    }
    ctx.sweep(
        "few-enforced",
        "n=16,32,64 (thorough 256); from two to all but one rows usable, only those and the next enforced; degrees 2,3,5,11, up to 40 copied columns, lookups; soundness: one cell of every column changed",
        &cases,
        |&(n, u, deg, k, l), r| {
            let s = if deg > 5 { parts(wide(n, k, l, 3, u, true), deg) } else { wide(n, k, l, deg, u, true) };
            let a = &s.asgs[0];
            let mut asgs = vec![a.clone()];
            for row in [0, u - 1] {
                asgs.extend(nudged(a, (0..a.w.len()).map(|i| (Col::W(i), row)).chain([(Col::I(0), row)])));
            }
            conform::<F62, T62>(&s.c, asgs, dir, r);
        },
    );
    if dir == Dir::Complete {
        guard(ctx, "few-enforced", dir);
    }
}

/// Running products of many columns each.
fn wide_products(ctx: &mut Ctx, dir: Dir) {
    let mut cases = vec![];
    for n in [8usize, 16] {
        for deg in if ctx.thorough { vec![3usize, 6, 9, 17, 33, 65, 129] } else { vec![3, 6, 9, 17, 33] } {
            // columns in one product, one more, one less
            let per = (deg as usize).next_power_of_two();
            for k in [per / 2, per - 2, per - 1, per, per + 1, 2 * per - 2, 2 * per - 1] {
                if k > 1 {
                    for red in [false, true] {
                        cases.push((n, deg, k, red));
                    }
                }
            }
        }
    }
    ctx.sweep(
        "wide-products",
        "n=8,16; quotients of 4 to 64 (thorough 256) parts, numbers of copied columns around one and two full running products; soundness: one copied cell of every column changed in both cycles, honest and dishonest running products",
        &cases,
        |&(n, deg, k, red), r| {
            let s = parts(wide(n, k, 0, 3, 5, red), deg);
            let a = &s.asgs[0];
            if dir == Dir::Complete {
                return conform::<F62, T62>(&s.c, s.asgs.clone(), dir, r);
            }
            let sys = S62::new(&s.c).unwrap();
            let keys = match sys.keys() {
                Ok(k) => k,
                Err(_) => return r.fail("refused", "key preparation"),
            };
            for i in 0..k {
                for row in [if i == 0 { 0 } else { 4 }, if i == 0 { 1 } else { 2 }] {
                    let mut w = a.w.clone();
                    w.truncate(s.c.nw - 2);
                    w[i][row] += 1;
                    let b = complete(&s.c, w, a.inst.clone());
                    let t = sat::<F62>(&s.c, &b);
                    if t.copies || !t.gates {
                        return r.fail("setup", format!("column {} row {}", i, row));
                    }
                    copy::attack(&sys, &keys, &b, 5, false, "changed copy", r);
                }
            }
        },
    );
    guard(ctx, "wide-products", dir);
}

pub fn run(ctx: &mut Ctx, dir: Dir, kind: Kind) {
    if kind == Kind::Copy {
        wide_products(ctx, dir);
    }
    few_enforced(ctx, dir, kind);
    large(ctx, dir, kind);
    high_degrees(ctx, dir, kind);
    if kind != Kind::Copy {
        many_columns(ctx, dir, kind);
    }
    if kind == Kind::Gate {
        many_offsets(ctx, dir);
    }
}
