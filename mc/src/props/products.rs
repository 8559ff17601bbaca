//! Every running product over a whole small field: the dishonest prover may choose every value of
//! every running product (and of the rearranged lookup columns) after beta and gamma; none of
//! these choices may be accepted for every separation challenge.
use super::common::*;
use super::whole::Kind;

struct Setting {
    name: &'static str,
    c: Circuit,
    asgs: Vec<Asg>,
    /// values forced on a' and s' per lookup (usable rows)
    forced: Vec<Vec<(Vec<i64>, Vec<i64>)>>,
    products: usize,
}

/// Enumerates z over the whole field. Returns the vectors accepted for every alpha and enough xi.
struct Enumerate<'a, F: PrimeField> {
    sys: &'a Sys<F, ToyPC<F>>,
    keys: Keys<'a, F, ToyPC<F>>,
    a: &'a Asg,
    forced: Vec<(Vec<F>, Vec<F>)>,
    products: usize,
    beta: F,
    gamma: F,
    p: u64,
}
impl<'a, F: PrimeField> Enumerate<'a, F> {
    fn xis(&self) -> Vec<(F, F)> {
        // n different xi outside the domain, each with an x3 outside the opened points
        let n = self.sys.c.n;
        let dom: Vec<F> = (0..n).map(|i| self.sys.domain.element(i)).collect();
        let mut out = vec![];
        for v in 2..self.p {
            let xi = F::from(v);
            if dom.contains(&xi) {
                continue;
            }
            let x3 = (2..self.p).map(F::from).find(|x| dom.iter().all(|w| *w * xi != *x) && !dom.contains(x)).unwrap();
            out.push((xi, x3));
            if out.len() == n {
                break;
            }
        }
        out
    }
    fn once(&self, z: &[F], alpha: F, xi: F, x3: F, word: &dyn Fn(F) -> u64, r: &mut Rec) -> Full {
        let u = self.sys.c.u;
        let z = z.to_vec();
        let forced = self.forced.clone();
        let products = self.products;
        let mut seen = 0;
        set_interceptor(Some(Box::new(move |site, j, v| match site {
            "lookup_columns" => {
                let f = v.downcast_mut::<(Vec<F>, Vec<F>, bool)>().unwrap();
                if let Some(p) = forced.get(seen) {
                    f.0 = p.0.clone();
                    f.1 = p.1.clone();
                    f.2 = true;
                }
                seen += 1;
            }
            "lookup_z_usable_rows" => {
                let v = v.downcast_mut::<Vec<F>>().unwrap();
                v[u] = F::one();
            }
            "permutation_z" => {
                let v = v.downcast_mut::<Vec<F>>().unwrap();
                v[..=u].copy_from_slice(&z[j * (u + 1)..(j + 1) * (u + 1)]);
            }
            "lookup_z" => {
                let v = v.downcast_mut::<Vec<F>>().unwrap();
                let k = products + j;
                v[..=u].copy_from_slice(&z[k * (u + 1)..(k + 1) * (u + 1)]);
            }
            _ => {}
        })));
        let script: Vec<u64> = [F::from(2u64), self.beta, self.gamma, alpha, xi, F::from(3u64), F::from(5u64), x3, F::from(6u64)].iter().map(|x| word(*x)).collect();
        start(script.clone());
        let p = self.sys.prove::<TapeFS, _>(&self.keys, self.a, &mut ZkRng::new(1));
        set_interceptor(None);
        finish();
        r.steps(1);
        match p {
            Err(out) => Full { stage: "prove", out },
            Ok(p) => {
                start(script);
                r.steps(1);
                let out = self.sys.verify::<TapeFS>(&self.keys, &self.a.inst, p);
                finish();
                Full { stage: "verify", out }
            }
        }
    }
    /// accepted whatever the separation challenge?
    fn always(&self, z: &[F], word: &dyn Fn(F) -> u64, r: &mut Rec) -> Result<(), String> {
        let xis = self.xis();
        for v in 1..self.p {
            for (xi, x3) in &xis {
                let f = self.once(z, F::from(v), *xi, *x3, word, r);
                if !f.accepted() {
                    return Err(f.key());
                }
            }
        }
        Ok(())
    }
}

fn values<F: PrimeField>(p: u64, k: usize, mut i: u64) -> Vec<F> {
    (0..k)
        .map(|_| {
            let v = i % p;
            i /= p;
            F::from(v)
        })
        .collect()
}

fn settings(kind: Kind, t: bool) -> Vec<Setting> {
    let mut out = vec![];
    // two copied columns of one usable row
    let copies = |n: usize, deg: usize, products: usize, lookup: bool, name: &'static str| {
        let u = 1;
        let mut c = Circuit::new(n, 4, 0);
        c.u = u;
        c.removed = if n > 2 { vec![n - 1] } else { vec![] };
        let mut g = w(2);
        for _ in 1..deg {
            g = g * w(2);
        }
        c.gates = vec![g - w(2)];
        c.perm = Some(Perm::identity(vec![0, 1], u).swap((0, 0), (1, 0)));
        let mut a = Asg { w: vec![vec![4; n], vec![4; n], vec![1; n], vec![6; n]], inst: vec![] };
        if lookup {
            c.tables = vec![vec![6; n]];
            c.lookups = vec![Lookup { exprs: vec![w(3)], tables: vec![(0, 0)] }];
        }
        let good = a.clone();
        let mut asgs = vec![good];
        a.w[1][0] = 9;
        asgs.push(a.clone());
        // a gate violated on row 0 as well
        for e in [1i64, -1, 2] {
            let mut b = a.clone();
            b.w[2] = vec![1; n];
            // w2^deg - w2 = e has to be solvable: use the affine variant instead
            b.w[2][0] = 1 + e;
            asgs.push(b);
        }
        Setting { name, c, asgs, forced: vec![vec![]], products }
    };
    let affine = |mut s: Setting, deg: usize| {
        // gate w2 * w3^(deg-1) - w3 with w3 = 1: violated by exactly e where w2 = 1 + e
        let n = s.c.n;
        let mut g = w(2);
        for _ in 1..deg {
            g = g * w(3);
        }
        s.c.gates = vec![g - w(3)];
        for a in &mut s.asgs {
            a.w[3] = vec![1; n];
        }
        for t in &mut s.c.tables {
            *t = vec![1; n];
        }
        s
    };
    match kind {
        Kind::Copy | Kind::Gate => {
            out.push(affine(copies(2, 6, 1, false, "two copied columns, one product"), 6));
            out.push(affine(copies(2, 3, 2, false, "two copied columns, two products"), 3));
            out.push(affine(copies(4, 2, 2, false, "two copied columns, two products, reduced"), 2));
            out.push(affine(copies(2, 6, 1, true, "two copied columns, one product, a lookup"), 6));
        }
        Kind::Lookup => {
            out.push({
                let mut s = affine(copies(2, 6, 1, true, "two copied columns, one product, a violated lookup"), 6);
                s.asgs.truncate(1);
                let mut b = s.asgs[0].clone();
                s.c.lookups[0].exprs = vec![w(1)];
                s.c.tables[0] = vec![4; 2];
                for k in 0..2 {
                    b.w[k] = vec![9; 2];
                }
                s.asgs.push(b);
                s.forced = [(4, 4), (9, 9), (9, 4), (4, 9), (5, 5)].iter().map(|(x, y)| vec![(vec![*x], vec![*y])]).collect();
                s
            });
            // a', s' and z over the whole field
            let mut c = Circuit::new(2, 3, 0);
            c.u = 1;
            c.gates = vec![w(1) * w(2) * w(2) - w(2)];
            c.tables = vec![vec![4; 2]];
            c.lookups = vec![Lookup { exprs: vec![w(0)], tables: vec![(0, 0)] }];
            let a = Asg { w: vec![vec![4; 2], vec![1; 2], vec![1; 2]], inst: vec![] };
            let mut asgs = vec![a.clone()];
            for e in [0i64, 1, -1, 2] {
                let mut b = a.clone();
                b.w[0] = vec![9; 2];
                b.w[1][0] += e;
                asgs.push(b);
            }
            let forced = (0..17i64).flat_map(|x| (0..17i64).map(move |y| vec![(vec![x], vec![y])])).filter(|p| t || (p[0].0[0] - p[0].1[0]).rem_euclid(4) == 0).collect();
            out.push(Setting { name: "one lookup", c, asgs, forced, products: 0 });
            let mut c = Circuit::new(2, 3, 0);
            c.u = 1;
            c.gates = vec![w(1) * w(2) * w(2) - w(2)];
            c.tables = vec![vec![4; 2]];
            c.lookups = (0..2).map(|_| Lookup { exprs: vec![w(0)], tables: vec![(0, 0)] }).collect();
            let a = Asg { w: vec![vec![4; 2], vec![1; 2], vec![1; 2]], inst: vec![] };
            let mut b = a.clone();
            b.w[0] = vec![9; 2];
            let mut forced = vec![];
            for x in [(4, 4), (9, 9), (9, 4), (4, 9)] {
                for y in [(4, 4), (9, 9), (9, 4), (4, 9)] {
                    if t || (x == y && x.0 == x.1) || x == (4, 4) {
                        forced.push(vec![(vec![x.0], vec![x.1]), (vec![y.0], vec![y.1])]);
                    }
                }
            }
            out.push(Setting { name: "two lookups", c, asgs: vec![a, b], forced, products: 0 });
        }
    }
    out
}

pub fn run(ctx: &mut Ctx, kind: Kind) {
    type F = F17;
    let p = 17u64;
    let all = settings(kind, ctx.thorough);
    // (setting, assignment, forced, which of the usable pairs of beta and gamma)
    let mut cases: Vec<(usize, usize, usize, usize, u64)> = vec![];
    for (i, s) in all.iter().enumerate() {
        for a in 0..s.asgs.len() {
            for f in 0..s.forced.len() {
                for bg in if ctx.thorough { vec![0usize, 1, 2, 3] } else { vec![0, 1] } {
                    let wide = s.products + s.c.lookups.len() > 1;
                    let skip = match kind {
                        Kind::Gate => a == 1 || a == 4,
                        Kind::Copy => a == 2 || a == 4,
                        Kind::Lookup => false,
                    };
                    if !ctx.thorough && (bg > 0 && wide || skip) {
                        continue;
                    }
                    if a == 0 && f > 0 || (a > 1 && f % 4 > 0 && !ctx.thorough) {
                        continue;
                    }
                    for part in 0..if wide && a > 0 { 8 } else { 1 } {
                        cases.push((i, a, f, bg, part));
                    }
                }
            }
        }
    }
    let word = |x: F| raw_word(x);
    let accepted = std::sync::atomic::AtomicU64::new(0);
    ctx.sweep(
        "every-product",
        "field of 17 elements, one usable row: every value of every running product (17^2 or 17^4), rearranged columns chosen from a menu or over the whole field, a gate of row 0 violated by 0, 1, -1, 2 as well; beta, gamma fixed to pairs for which the true product is not 1; accepted means accepted for all 16 separation challenges and n evaluation points",
        &cases,
        |&(si, ai, fi, bg, part), r| {
            let s = &all[si];
            let sys = match Sys::<F, ToyPC<F>>::new(&s.c) {
                Ok(x) => x,
                Err(e) => return r.fail("setup", e),
            };
            let keys = match sys.keys() {
                Ok(k) => k,
                Err(e) => return r.fail("refused", format!("{}: {:?}", s.name, e)),
            };
            let a = &s.asgs[ai];
            let st = sat::<F>(&s.c, a);
            let honest = ai == 0;
            assert_eq!(st.all(), honest, "{} {:?}", s.name, st);
            let mut forced: Vec<(Vec<F>, Vec<F>)> = s.forced[fi].iter().map(|(x, y)| (field_col(x), field_col(y))).collect();
            // the values looked up
            let looked: Vec<(F, F)> = s.c.lookups.iter().map(|l| (eval::<F>(&l.exprs[0], &s.c, a, 0), fe::<F>(s.c.tables[0][0]))).collect();
            if honest || forced.is_empty() {
                forced = looked.iter().map(|(x, y)| (vec![*x], vec![*y])).collect();
            }
            // does everything hold for these challenges (None: some factor is zero)?
            let closing = |beta: F, gamma: F| -> Option<bool> {
                let mut closes = true;
                for ((x, t), (ap, sp)) in looked.iter().zip(&forced) {
                    let f = [*x + beta, *t + gamma, ap[0] + beta, sp[0] + gamma];
                    if f.iter().any(|v| v.is_zero()) {
                        return None;
                    }
                    closes &= f[0] * f[1] == f[2] * f[3] && ap[0] == sp[0];
                }
                if let Some(pm) = &s.c.perm {
                    let (mut num, mut den) = (F::one(), F::one());
                    for (k, col) in pm.cols.iter().enumerate() {
                        let v = fe::<F>(a.w[*col][0]);
                        num *= v + beta * sys.deltas[k] + gamma;
                        den *= v + beta * sys.deltas[pm.sigma[k][0].0] + gamma;
                    }
                    if num.is_zero() || den.is_zero() {
                        return None;
                    }
                    closes &= num == den;
                }
                Some(closes)
            };
            let usable: Vec<(u64, u64)> = (0..289u64).map(|i| ((5 * i + 3) % 17, (i / 17 + 2 * i + 5) % 17)).filter(|x| x.0 > 0 && closing(F::from(x.0), F::from(x.1)) == Some(honest)).collect();
            let (b, g) = match usable.get(bg) {
                Some(x) => *x,
                // arrangements that hold for every beta and gamma, or have a zero factor for all
                None => return,
            };
            let (beta, gamma) = (F::from(b), F::from(g));
            let mut closes = honest;
            closes &= st.gates;
            let per = keys.pk.vk.index_info.extended_coset_domain.size() / s.c.n - 1;
            let products = s.c.perm.as_ref().map_or(0, |pm| (pm.cols.len() + per - 1) / per);
            r.check(products == s.products, "harness", || format!("{}: {} products", s.name, products));
            let e = Enumerate { sys: &sys, keys, a, forced, products, beta, gamma, p };
            let k = (products + s.c.lookups.len()) * (s.c.u + 1);
            let total = p.pow(k as u32);
            let mut found = 0u64;
            for i in 0..total {
                if total > 50_000 && !honest && i % 8 != part {
                    continue;
                }
                let z = values::<F>(p, k, i);
                if honest && total > 50_000 && !z[0].is_one() {
                    continue;
                }
                let o = e.always(&z, &word, r);
                r.exec((si, ai, fi, b, g, i), if o.is_ok() { "always accepted".to_string() } else { format!("rejected {}", o.clone().unwrap_err()) });
                if o.is_ok() {
                    found += 1;
                    accepted.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    r.check(closes, "unsound", || format!("{}: assignment {:?}, rearranged {:?}, beta {} gamma {}: running products {:?} accepted for every separation challenge", s.name, a.w, s.forced[fi], b, g, z.iter().map(|x| raw_int(*x)).collect::<Vec<_>>()));
                }
            }
            if honest {
                r.check(found > 0, "harness", || format!("{}: no running product accepted for the satisfied system", s.name));
            }
        },
    );
    ctx.require("every-product", |s| s.outcomes.keys().any(|k| k.contains("QuotientNotZero")) && s.outcomes.contains_key("always accepted"), "no rejecting verifier");
}
fn raw_int(x: F17) -> u64 {
    x.into_repr().0[0]
}
