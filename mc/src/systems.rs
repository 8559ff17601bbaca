//! A catalogue of constraint systems that together use every part of the protocol, with satisfying
//! assignments; and generic access to the parts of a proof.
use crate::circuit::*;
use crate::run::*;
use crate::toypc::Comm;
use ark_ff::PrimeField;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::verif_hooks::TPProof;

pub struct System {
    pub name: &'static str,
    pub c: Circuit,
    pub asgs: Vec<Asg>,
}
impl std::fmt::Debug for System {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}

fn int_eval(e: &E, c: &Circuit, a: &Asg, row: usize) -> i64 {
    match e {
        E::Q(col, r) => {
            let i = idx(row, *r, c.n);
            match col {
                Col::W(k) => a.w[*k][i],
                Col::I(k) => a.inst[*k][i],
                Col::X(k) => c.fixed[*k][i],
            }
        }
        E::C(v) => *v,
        E::Add(p, q) => int_eval(p, c, a, row) + int_eval(q, c, a, row),
        E::Sub(p, q) => int_eval(p, c, a, row) - int_eval(q, c, a, row),
        E::Mul(p, q) => int_eval(p, c, a, row) * int_eval(q, c, a, row),
        E::Neg(p) => -int_eval(p, c, a, row),
        E::Scale(p, k) => int_eval(p, c, a, row) * k,
    }
}

/// Adds a column that holds `e` and the gate that says so.
pub fn define(c: &mut Circuit, e: E) -> usize {
    let k = c.nw;
    c.nw += 1;
    c.gates.push(e - w(k));
    k
}
/// Fills the defined columns: `cols` are the free ones, in order, followed by the defined ones.
pub fn complete(c: &Circuit, free: Vec<Vec<i64>>, inst: Vec<Vec<i64>>) -> Asg {
    let mut a = Asg { w: free, inst };
    let first = a.w.len();
    for (i, g) in c.gates.iter().enumerate() {
        if i + first >= c.nw {
            break;
        }
        let e = match g {
            E::Sub(e, _) => e,
            _ => unreachable!(),
        };
        a.w.push(vec![0; c.n]);
        for r in 0..c.n {
            let v = int_eval(e, c, &a, r);
            a.w[i + first][r] = v;
        }
    }
    a
}
pub fn col(seed: u64, k: usize, n: usize) -> Vec<i64> {
    (0..n).map(|r| crate::props::common::filler(seed, 100 * k + r) % 50 + 1).collect()
}

/// Gates only, no public data, smallest interesting domain.
pub fn gates4() -> System {
    let mut c = Circuit::new(4, 2, 0);
    define(&mut c, w(0) * wr(1, 1));
    let asgs = (0..2).map(|s| complete(&c, vec![col(s, 0, 4), col(s, 1, 4)], vec![])).collect();
    System { name: "gates4", c, asgs }
}
/// Several gates with public and fixed columns at offsets; some rows not enforced.
pub fn multi8(removed: bool) -> System {
    let mut c = Circuit::new(8, 2, 2);
    c.fixed = vec![col(90, 0, 8), col(90, 1, 8)];
    if removed {
        c.removed = vec![6, 7];
    }
    define(&mut c, w(0) * wr(1, 1) + pi(0));
    define(&mut c, x(0) * wr(0, -1) * w(1) - pir(1, 2));
    define(&mut c, xr(1, 3) + wr(2, -2).scale(3) - pi(1) * pir(0, -1));
    let asgs = (0..2)
        .map(|s| complete(&c, vec![col(s, 0, 8), col(s, 1, 8)], vec![col(s, 8, 8), col(s, 9, 8)]))
        .collect();
    System { name: if removed { "multi8-reduced" } else { "multi8" }, c, asgs }
}
/// Three copied columns on two running products, cycles across columns and products.
pub fn copy8(u: usize, reduced: bool) -> System {
    let mut c = Circuit::new(8, 3, 0);
    c.u = u;
    if reduced {
        c.removed = (u + 1..8).collect();
    }
    define(&mut c, w(0) * w(1) * w(2) + wr(0, 1));
    let last = u - 1;
    c.perm = Some(
        Perm::identity(vec![0, 1, 2], u)
            .swap((0, 0), (1, last))
            .swap((1, 1), (2, 0))
            .swap((0, 0), (2, 2)),
    );
    let asgs = (0..2)
        .map(|s| {
            let mut f = vec![col(s, 0, 8), col(s, 1, 8), col(s, 2, 8)];
            let v = f[0][0];
            f[1][last] = v;
            f[2][2] = v;
            f[2][0] = f[1][1];
            complete(&c, f, vec![])
        })
        .collect();
    System { name: if reduced { "copy8-reduced" } else { "copy8" }, c, asgs }
}
/// Lookups: a one-column one, and a two-column one with expressions and a table offset.
pub fn lookup8(two: bool) -> System {
    let mut c = Circuit::new(8, 2, 1);
    c.u = 5;
    c.fixed = vec![col(91, 0, 8)];
    c.tables = vec![col(92, 0, 8), col(92, 1, 8), col(92, 2, 8)];
    c.lookups.push(Lookup { exprs: vec![w(0)], tables: vec![(0, 0)] });
    if two {
        c.lookups.push(Lookup { exprs: vec![w(1) + pi(0), x(0) - wr(0, 1) + pir(0, 1)], tables: vec![(1, 0), (2, 1)] });
    }
    let k = define(&mut c, w(0) * w(0) * w(1));
    define(&mut c, w(k) + w(1) * w(1));
    let asgs = (0..2)
        .map(|s| {
            let mut w0 = col(s, 0, 8);
            let mut w1 = col(s, 1, 8);
            let mut p = col(s, 2, 8);
            for r in 0..c.u {
                w0[r] = c.tables[0][(3 * r + s as usize) % c.u];
            }
            if two {
                // pick table row t: w1[r] = t1[t] - p[r]; p[r+1] = t2[t+1] - x[r] + w0[r+1]
                for r in 0..c.u {
                    let t = (2 * r + 1 + s as usize) % c.u;
                    p[r + 1] = c.tables[2][t + 1] - c.fixed[0][r] + w0[r + 1];
                }
                for r in 0..c.u {
                    let t = (2 * r + 1 + s as usize) % c.u;
                    w1[r] = c.tables[1][t] - p[r];
                }
            }
            complete(&c, vec![w0, w1], vec![p])
        })
        .collect();
    System { name: if two { "lookups8" } else { "lookup8" }, c, asgs }
}
/// Everything at once.
pub fn all8(labels: u8, reduced: bool) -> System {
    let mut c = Circuit::new(8, 3, 1);
    c.labels = labels;
    c.u = 5;
    if reduced {
        c.removed = vec![6, 7];
    }
    c.fixed = vec![col(93, 0, 8), col(93, 1, 8)];
    c.tables = vec![col(94, 0, 8), col(94, 1, 8)];
    c.lookups = vec![
        Lookup { exprs: vec![w(2), w(0) + x(1)], tables: vec![(0, 0), (1, -1)] },
        Lookup { exprs: vec![wr(2, 1)], tables: vec![(0, 0)] },
    ];
    let d = define(&mut c, w(0) * wr(1, -1) * w(2) + pir(0, 1) * x(0));
    define(&mut c, wr(d, 1) - xr(0, 2) * pi(0));
    // w0 and w1 are copied; w2 row r+1 is also looked up, so rows 0..6 of w2 come from the table
    c.perm = Some(Perm::identity(vec![0, 1, 2], 5).swap((0, 0), (1, 3)).swap((1, 0), (1, 4)).swap((2, 0), (2, 2)));
    let asgs = (0..2)
        .map(|s| {
            let mut w0 = col(s, 0, 8);
            let mut w1 = col(s, 1, 8);
            let mut w2 = col(s, 2, 8);
            let pick = |r: usize| if r == 2 { s as usize } else { (2 * r + s as usize) % 5 };
            for r in 0..6 {
                let t = pick(r);
                w2[r] = c.tables[0][t];
                if r < 5 {
                    w0[r] = c.tables[1][(t + 7) % 8] - c.fixed[1][r];
                }
            }
            w1[3] = w0[0];
            w1[4] = w1[0];
            complete(&c, vec![w0, w1, w2], vec![col(s, 8, 8)])
        })
        .collect();
    System {
        name: match (labels, reduced) {
            (0, false) => "all8",
            (0, true) => "all8-reduced",
            (_, false) => "all8-labels",
            _ => "all8-labels-reduced",
        },
        c,
        asgs,
    }
}
/// Larger systems: `k` copied columns with a cycle through the first and last usable rows of all of
/// them and a longer one in between, `l` lookups (the second one of pairs), degree-`deg` gate.
pub fn wide(n: usize, k: usize, l: usize, deg: usize, u: usize, reduced: bool) -> System {
    let mut c = Circuit::new(n, k + l.max(1), 1);
    c.u = u;
    if reduced {
        c.removed = (u + 1..n).collect();
    }
    c.fixed = vec![col(95, 0, n)];
    let size = n.min(23);
    if l > 0 {
        // tables repeat their entries from row `size` on
        c.tables = (0..2).map(|t| (0..n).map(|r| (r % size * (t + 2) + 5 * t + 1) as i64).collect()).collect();
        let third = c.tables[1].iter().map(|v| 2 * v + 5).collect();
        c.tables.push(third);
    }
    for i in 0..l {
        c.lookups.push(if i % 2 == 0 {
            Lookup { exprs: vec![w(k + i)], tables: vec![(0, 0)] }
        } else {
            Lookup { exprs: vec![w(k + i), w(k + i).scale(2) + c_(5)], tables: vec![(1, 0), (2, 0)] }
        });
    }
    let mut e = w(0);
    for i in 1..deg {
        e = e * w(i % (k + l.max(1)));
    }
    define(&mut c, e + wr(k.max(1) - 1, 2) * pi(0) + x(0));
    if k > 0 {
        let mut p = Perm::identity((0..k).collect(), u);
        for i in 1..k {
            p = p.swap((0, 0), (i, u - 1));
        }
        for i in 0..k {
            p = p.swap((0, 1), (i, u / 2));
        }
        c.perm = Some(p);
    }
    let asgs = (0..2)
        .map(|s| {
            let mut f: Vec<Vec<i64>> = (0..k + l.max(1)).map(|i| col(s, i, n)).collect();
            for i in 0..l {
                for r in 0..u {
                    let t = (r * 7 + i + s as usize) % u;
                    f[k + i][r] = c.tables[i % 2][t];
                }
            }
            if let Some(p) = &c.perm {
                // one value per cycle: that of the smallest cell
                for i in 0..k {
                    for r in 0..u {
                        let (mut a, mut least) = (p.sigma[i][r], (i, r));
                        while a != (i, r) {
                            least = least.min(a);
                            a = p.sigma[a.0][a.1];
                        }
                        let v = f[least.0][least.1];
                        f[i][r] = v;
                    }
                }
            }
            complete(&c, f, vec![col(s, 50, n)])
        })
        .collect();
    System { name: "wide", c, asgs }
}
/// More than ten columns of each kind, four running products, five lookups, offsets.
pub fn many16() -> System {
    System { name: "many16", ..crowd(wide(16, 12, 5, 5, 12, true), 11) }
}
/// `s` with `k` public and `k` fixed columns, each queried with its own offset.
pub fn crowd(s: System, k: usize) -> System {
    let mut c = s.c;
    let free = c.nw - 1;
    c.ni = k;
    c.fixed = (0..k).map(|i| col(95 + i as u64, i, c.n)).collect();
    let mut e = w(1) * w(2);
    for i in 0..k {
        e = e + xr(i, i as i32 % 3 - 1) * wr(i % (free + 1), if k <= free { 5 - i as i32 } else { (i / (free + 1) % 8) as i32 - 4 }) + pir(i, i as i32 % 4 - 2).scale(i as i64 + 2);
    }
    define(&mut c, e);
    let asgs = s
        .asgs
        .into_iter()
        .enumerate()
        .map(|(j, mut a)| {
            a.w.truncate(free);
            complete(&c, a.w, (0..k).map(|i| col(20 + j as u64, i, c.n)).collect())
        })
        .collect();
    System { name: "crowd", c, asgs }
}
/// `s` with a gate of degree `deg`, on values that stay small.
pub fn parts(s: System, deg: usize) -> System {
    let mut c = s.c;
    let free = c.nw - 1;
    let k = c.fixed.len();
    c.fixed.push((0..c.n).map(|r| [1, -1, 0, 1, -1][r % 5]).collect());
    let mut e = w(0) * w(1);
    for _ in 2..deg {
        e = e * x(k);
    }
    define(&mut c, e + w(1));
    let asgs = s
        .asgs
        .into_iter()
        .map(|mut a| {
            a.w.truncate(free);
            complete(&c, a.w, a.inst)
        })
        .collect();
    System { name: "parts", c, asgs }
}
/// Long columns, many columns, many running products and lookups, many parts of the quotient.
pub fn giants(thorough: bool) -> Vec<System> {
    let mut v = vec![
        System { name: "long32", ..wide(32, 3, 2, 4, 27, true) },
        System { name: "long128", ..wide(128, 2, 1, 3, 120, false) },
        System { name: "long512", ..wide(512, 2, 1, 3, 500, true) },
        parts(wide(8, 2, 1, 3, 5, false), 36),
        System { name: "lookups", ..wide(8, 2, 18, 3, 5, false) },
        System { name: "copies", ..wide(8, 35, 1, 4, 5, true) },
        System { name: "crowd36", ..crowd(wide(8, 2, 0, 3, 5, false), 36) },
    ];
    if thorough {
        v.push(System { name: "long2048", ..wide(2048, 2, 1, 3, 2000, true) });
        v.push(parts(wide(8, 2, 1, 3, 5, false), 70));
        v.push(System { name: "lookups40", ..wide(8, 2, 40, 3, 5, false) });
        v.push(System { name: "copies70", ..wide(8, 70, 1, 4, 5, true) });
        v.push(System { name: "crowd70", ..crowd(wide(8, 2, 0, 3, 5, false), 70) });
    }
    v
}
/// The catalogue and systems with more columns of one kind than the usual ten.
pub fn catalogue_wide() -> Vec<System> {
    let mut v = catalogue_many();
    v.push(System { name: "copies12", ..wide(8, 12, 1, 4, 5, true) });
    v.push(System { name: "lookups11", ..wide(8, 2, 11, 3, 5, false) });
    v.push(System { name: "crowd12", ..crowd(wide(8, 2, 0, 3, 5, false), 12) });
    v.push(System { name: "long32", ..wide(32, 3, 2, 4, 27, true) });
    v
}
/// Numbers below `n` next to powers of two, and both ends.
pub fn landmarks(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).filter(|&i| i < 3 || i + 2 >= n || [i, i + 1, i.max(1) - 1].iter().any(|x| x.is_power_of_two())).collect();
    v.dedup();
    v
}
/// The catalogue and the system with many columns.
pub fn catalogue_many() -> Vec<System> {
    let mut v = catalogue();
    v.push(many16());
    v
}
fn c_(v: i64) -> E {
    c(v)
}
pub fn catalogue() -> Vec<System> {
    vec![
        gates4(),
        multi8(false),
        multi8(true),
        copy8(7, false),
        copy8(5, true),
        copy8(5, false),
        lookup8(false),
        lookup8(true),
        all8(0, false),
        all8(0, true),
        all8(1, false),
    ]
}

// ---------------------------------------------------------------------------------------------
// parts of a proof

pub const EVALS: [&str; 10] = [
    "witness_evals",
    "fixed_oracle_evals",
    "table_oracle_evals",
    "permutation_oracle_evals",
    "lookup_evals",
    "lookup_z_evals",
    "z_evals",
    "quotient_chunks_evals",
    "q_evals",
    "q_blind_eval",
];
pub const COMMS: [&str; 6] = [
    "witness_commitments",
    "lookup_commitments",
    "lookup_z_commitments",
    "z_commitments",
    "quotient_chunk_commitments",
    "f_commit",
];
/// Lists of claimed values (the last one is a single value, not a list).
pub fn evals<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>, l: usize) -> &mut [F] {
    match l {
        9 => std::slice::from_mut(&mut p.q_blind_eval),
        _ => eval_list(p, l).as_mut_slice(),
    }
}
pub fn eval_list<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>, l: usize) -> &mut Vec<F> {
    match l {
        0 => &mut p.witness_evals,
        1 => &mut p.fixed_oracle_evals,
        2 => &mut p.table_oracle_evals,
        3 => &mut p.permutation_oracle_evals,
        4 => &mut p.lookup_evals,
        5 => &mut p.lookup_z_evals,
        6 => &mut p.z_evals,
        7 => &mut p.quotient_chunks_evals,
        8 => &mut p.multiopen_proof.q_evals,
        _ => unreachable!(),
    }
}
pub fn comms<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>, l: usize) -> &mut [PC::Commitment] {
    match l {
        5 => std::slice::from_mut(&mut p.multiopen_proof.f_commit),
        _ => comm_list(p, l).as_mut_slice(),
    }
}
pub fn comm_list<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>, l: usize) -> &mut Vec<PC::Commitment> {
    match l {
        0 => &mut p.witness_commitments,
        1 => &mut p.lookup_commitments,
        2 => &mut p.lookup_z_commitments,
        3 => &mut p.z_commitments,
        4 => &mut p.quotient_chunk_commitments,
        _ => unreachable!(),
    }
}
pub fn copy_proof<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &TPProof<F, PC>) -> TPProof<F, PC>
where
    PC::Proof: Clone,
{
    TPProof {
        witness_commitments: p.witness_commitments.clone(),
        witness_evals: p.witness_evals.clone(),
        fixed_oracle_evals: p.fixed_oracle_evals.clone(),
        table_oracle_evals: p.table_oracle_evals.clone(),
        permutation_oracle_evals: p.permutation_oracle_evals.clone(),
        q_blind_eval: p.q_blind_eval,
        lookup_commitments: p.lookup_commitments.clone(),
        lookup_z_commitments: p.lookup_z_commitments.clone(),
        lookup_evals: p.lookup_evals.clone(),
        lookup_z_evals: p.lookup_z_evals.clone(),
        z_commitments: p.z_commitments.clone(),
        z_evals: p.z_evals.clone(),
        quotient_chunk_commitments: p.quotient_chunk_commitments.clone(),
        quotient_chunks_evals: p.quotient_chunks_evals.clone(),
        multiopen_proof: zero_over_k::multiproof::Proof {
            q_evals: p.multiopen_proof.q_evals.clone(),
            f_commit: p.multiopen_proof.f_commit.clone(),
            opening_proof: p.multiopen_proof.opening_proof.clone(),
        },
    }
}
pub fn bytes<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &TPProof<F, PC>) -> Vec<u8> {
    use ark_serialize::CanonicalSerialize;
    let mut v = vec![];
    p.serialize(&mut v).unwrap();
    v
}
/// Positions of all claimed values.
pub fn eval_slots<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>) -> Vec<(usize, usize)> {
    (0..EVALS.len()).flat_map(|l| (0..evals(p, l).len()).map(move |i| (l, i)).collect::<Vec<_>>()).collect()
}
pub fn comm_slots<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &mut TPProof<F, PC>) -> Vec<(usize, usize)> {
    (0..COMMS.len()).flat_map(|l| (0..comms(p, l).len()).map(move |i| (l, i)).collect::<Vec<_>>()).collect()
}
/// The honest proof of a system, with the transcript recording switched on for the prover.
pub fn honest<F: PrimeField, PC: HomomorphicCommitment<F>>(
    sys: &Sys<F, PC>,
    keys: &Keys<F, PC>,
    a: &Asg,
    seed: u64,
) -> Result<TPProof<F, PC>, String> {
    sys.prove::<crate::fs::TapeFS, _>(keys, a, &mut crate::fs::ZkRng::new(seed)).map_err(|o| format!("{:?}", o))
}
pub fn unit<F: PrimeField>(deg: usize) -> Vec<F> {
    let mut v = vec![F::zero(); deg + 1];
    v[deg] = F::one();
    v
}
pub type C62 = Comm<crate::fields::F62>;
