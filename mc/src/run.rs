//! Drives the real code: key preparation, proving and verification of a declarative circuit.
use crate::circuit::*;
use crate::fields::fe;
use ark_ff::PrimeField;
use ark_poly::{
    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial,
};
use ark_poly_commit::LabeledPolynomial;
use ark_std::rand::{Rng, SeedableRng};
use rand_chacha::ChaChaRng;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::verif_hooks::{TPProof, TurboPlonk};
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Accept,
    /// an error value
    Reject(String),
    Panic(String),
}
impl Out {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Accept => "accept",
            Out::Reject(_) => "reject",
            Out::Panic(_) => "panic",
        }
    }
    pub fn accepted(&self) -> bool {
        *self == Out::Accept
    }
    pub fn rejected(&self) -> bool {
        matches!(self, Out::Reject(_))
    }
    pub fn panicked(&self) -> bool {
        matches!(self, Out::Panic(_))
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if loc.starts_with("src/") || loc.contains("/verif/mc/") {
            // a bug of the harness itself: make it visible
            eprintln!("harness panic at {}: {}", loc, msg);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg.chars().take(160).collect::<String>(), loc));
    }));
}
/// Runs `f`, turning panics into their message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn rotation(r: i32) -> Rotation {
    if r >= 0 {
        Rotation::new(r as usize, Sign::Plus)
    } else {
        Rotation::new((-r) as usize, Sign::Minus)
    }
}
pub fn vquery(col: Col, r: i32) -> VirtualQuery {
    match col {
        Col::W(i) => VirtualQuery::new(i, rotation(r), OracleType::Witness),
        Col::I(i) => VirtualQuery::new(i, rotation(r), OracleType::Instance),
        Col::X(i) => VirtualQuery::new(i, rotation(r), OracleType::Fixed),
    }
}
pub fn vexpr<F: PrimeField>(e: &E) -> VirtualExpression<F> {
    match e {
        E::Q(c, r) => vquery(*c, *r).into(),
        E::C(v) => VirtualExpression::Constant(fe(*v)),
        E::Add(a, b) => vexpr::<F>(a) + vexpr(b),
        E::Sub(a, b) => vexpr::<F>(a) - vexpr(b),
        E::Mul(a, b) => vexpr::<F>(a) * vexpr::<F>(b),
        E::Neg(a) => -vexpr::<F>(a),
        E::Scale(a, k) => vexpr::<F>(a) * fe::<F>(*k),
    }
}
pub fn gate_vo<F: PrimeField>(e: &E) -> GenericVO<F> {
    let mut qs = vec![];
    e.queries(&mut qs);
    GenericVO::init((vexpr(e), qs.iter().map(|(c, r)| vquery(*c, *r)).collect()))
}
pub fn lookup_vo<F: PrimeField>(l: &Lookup) -> GenericLookupVO<F> {
    let mut qs = vec![];
    for e in &l.exprs {
        e.queries(&mut qs);
    }
    GenericLookupVO::init((
        l.exprs.iter().map(|e| vexpr(e)).collect(),
        qs.iter().map(|(c, r)| vquery(*c, *r)).collect(),
        l.tables.iter().map(|(t, r)| VirtualQuery::new(*t, rotation(*r), OracleType::Fixed)).collect(),
    ))
}

pub fn field_col<F: PrimeField>(v: &[i64]) -> Vec<F> {
    v.iter().map(|x| fe(*x)).collect()
}
pub fn interpolate<F: PrimeField>(domain: &GeneralEvaluationDomain<F>, v: &[F]) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_slice(&domain.ifft(v))
}
pub fn vanishing<F: PrimeField>(domain: &GeneralEvaluationDomain<F>, rows: &[usize]) -> DensePolynomial<F> {
    if rows.len() == domain.size() {
        return domain.vanishing_polynomial().into();
    }
    rows.iter().fold(DensePolynomial::from_coefficients_slice(&[F::one()]), |acc, r| {
        &acc * &DensePolynomial::from_coefficients_slice(&[-domain.element(*r), F::one()])
    })
}

/// Everything about a circuit that does not depend on the witness.
pub struct Sys<F: PrimeField, PC: HomomorphicCommitment<F>> {
    pub c: Circuit,
    pub domain: GeneralEvaluationDomain<F>,
    pub zh: DensePolynomial<F>,
    pub ck: PC::CommitterKey,
    pub pcvk: PC::VerifierKey,
    pub deltas: Vec<F>,
    pub gates: Vec<GenericVO<F>>,
    pub lookups: Vec<GenericLookupVO<F>>,
    pub fixed: Vec<FixedProverOracle<F>>,
    pub tables: Vec<FixedProverOracle<F>>,
    pub sigma: Vec<FixedProverOracle<F>>,
    pub q_blind: FixedProverOracle<F>,
    pub dummy_perm: bool,
}

pub struct Keys<'a, F: PrimeField, PC: HomomorphicCommitment<F>> {
    pub pk: ProverKey<'a, F, PC>,
    pub pre: ProverPreprocessedInput<F, PC>,
    pub vpre: VerifierPreprocessedInput<F, PC>,
}

/// Options of key preparation that deviate from the faithful default.
#[derive(Clone, Default)]
pub struct Tweak {
    pub max_degree: Option<usize>,
    /// key preparation gets `PermutationInfo::dummy()` whatever the usable rows are
    pub dummy_perm: bool,
    /// exponents of the shifts that tell copied columns apart, by default 0, 1, 2, ...
    pub shifts: Option<Vec<u64>>,
}

pub fn permuted(c: &Circuit, i: usize) -> bool {
    c.perm.as_ref().map_or(false, |p| p.cols.contains(&i))
}

impl<F: PrimeField, PC: HomomorphicCommitment<F>> Sys<F, PC> {
    pub fn new(c: &Circuit) -> Result<Self, String> {
        Self::with(c, &Tweak::default())
    }
    pub fn with(c: &Circuit, tweak: &Tweak) -> Result<Self, String> {
        let domain = GeneralEvaluationDomain::<F>::new(c.n).unwrap();
        assert_eq!(domain.size(), c.n);
        let zh = vanishing(&domain, &c.enforced());
        let max_degree = tweak.max_degree.unwrap_or(c.n - 1);
        let mut rng = ChaChaRng::seed_from_u64(7);
        let srs = TurboPlonk::<F, PC, crate::fs::TapeFS>::universal_setup(max_degree, &mut rng)
            .map_err(|e| format!("{:?}", e))?;
        let (ck, pcvk) = TurboPlonk::<F, PC, crate::fs::TapeFS>::prepare_keys(&srs)
            .map_err(|e| format!("{:?}", e))?;
        let mk = |label: String, v: &[i64]| {
            let e = field_col::<F>(v);
            FixedProverOracle::new(label, interpolate(&domain, &e), &e)
        };
        let fixed: Vec<_> = c.fixed.iter().enumerate()
            .map(|(i, v)| mk(c.label("x", i, c.fixed.len()), v)).collect();
        let tables: Vec<_> = c.tables.iter().enumerate()
            .map(|(i, v)| mk(c.label("t", i, c.tables.len()), v)).collect();
        let ncopy = c.perm.as_ref().map_or(0, |p| p.cols.len());
        let g = F::multiplicative_generator();
        let deltas: Vec<F> = (0..ncopy).map(|i| g.pow([tweak.shifts.as_ref().map_or(i as u64, |s| s[i])])).collect();
        let mut sigma = vec![];
        if let Some(p) = &c.perm {
            for k in 0..ncopy {
                let evals: Vec<F> = (0..c.n)
                    .map(|r| {
                        let (k2, r2) = if r < c.u { p.sigma[k][r] } else { (k, r) };
                        deltas[k2] * domain.element(r2)
                    })
                    .collect();
                sigma.push(FixedProverOracle::new(
                    c.label("s", k, ncopy),
                    interpolate(&domain, &evals),
                    &evals,
                ));
            }
        }
        let qb: Vec<i64> = (0..c.n).map(|r| (r > c.u || tweak.dummy_perm && r == c.u) as i64).collect();
        let mut s = Sys {
            c: c.clone(),
            domain,
            zh,
            ck,
            pcvk,
            deltas,
            gates: c.gates.iter().map(gate_vo).collect(),
            lookups: c.lookups.iter().map(lookup_vo).collect(),
            q_blind: mk("q_blind".into(), &qb),
            dummy_perm: tweak.dummy_perm,
            fixed,
            tables,
            sigma,
        };
        // configure: registers offsets on the fixed data, resolves the labels
        let (mut w, mut i) = (s.raw_wv(), s.raw_iv(&vec![vec![0; c.n]; c.ni]));
        for g in s.gates.iter_mut() {
            g.configure(&mut w, &mut i, &mut s.fixed);
        }
        for l in s.lookups.iter_mut() {
            l.configure(&mut w, &mut i, &mut s.fixed, &mut s.tables)
                .map_err(|e| format!("{:?}", e))?;
        }
        Ok(s)
    }
    pub fn raw_wv(&self) -> Vec<WitnessVerifierOracle<F, PC>> {
        (0..self.c.nw)
            .map(|i| WitnessVerifierOracle::new(self.c.label("w", i, self.c.nw), permuted(&self.c, i)))
            .collect()
    }
    pub fn raw_iv(&self, inst: &[Vec<i64>]) -> Vec<InstanceVerifierOracle<F>> {
        inst.iter().enumerate()
            .map(|(i, v)| {
                InstanceVerifierOracle::new(
                    self.c.label("p", i, self.c.ni),
                    interpolate(&self.domain, &field_col(v)),
                )
            })
            .collect()
    }
    /// Verifier-side column descriptions with their offsets registered.
    pub fn verifier_oracles(
        &self,
        inst: &[Vec<i64>],
    ) -> (Vec<WitnessVerifierOracle<F, PC>>, Vec<InstanceVerifierOracle<F>>) {
        let (mut w, mut i) = (self.raw_wv(), self.raw_iv(inst));
        self.register(&mut w, &mut i);
        (w, i)
    }
    fn register(
        &self,
        w: &mut [impl zero_over_k::oracles::traits::WitnessOracle<F>],
        i: &mut [impl zero_over_k::oracles::traits::InstanceOracle<F>],
    ) {
        let mut fixed = self.fixed.clone();
        let mut tables = self.tables.clone();
        for g in &self.c.gates {
            gate_vo::<F>(g).configure(w, i, &mut fixed);
        }
        for l in &self.c.lookups {
            lookup_vo::<F>(l).configure(w, i, &mut fixed, &mut tables).unwrap();
        }
    }
    pub fn prover_oracles(&self, a: &Asg) -> (Vec<WitnessProverOracle<F>>, Vec<InstanceProverOracle<F>>) {
        self.prover_oracles_f(
            &a.w.iter().map(|v| field_col(v)).collect::<Vec<_>>(),
            &a.inst.iter().map(|v| field_col(v)).collect::<Vec<_>>(),
        )
    }
    pub fn prover_oracles_f(
        &self,
        w: &[Vec<F>],
        inst: &[Vec<F>],
    ) -> (Vec<WitnessProverOracle<F>>, Vec<InstanceProverOracle<F>>) {
        let mut w: Vec<_> = w.iter().enumerate()
            .map(|(i, e)| {
                WitnessProverOracle::new(
                    self.c.label("w", i, self.c.nw),
                    interpolate(&self.domain, e),
                    e,
                    permuted(&self.c, i),
                )
            })
            .collect();
        let mut i: Vec<_> = inst.iter().enumerate()
            .map(|(i, e)| {
                InstanceProverOracle::new(self.c.label("p", i, self.c.ni), interpolate(&self.domain, e), e)
            })
            .collect();
        self.register(&mut w, &mut i);
        (w, i)
    }
    pub fn gate_refs(&self) -> Vec<&dyn VirtualOracle<F>> {
        self.gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect()
    }
    pub fn perm_info(&self) -> PermutationInfo<F> {
        if self.dummy_perm {
            return PermutationInfo::dummy();
        }
        PermutationInfo { u: self.c.u, deltas: self.deltas.clone() }
    }
    pub fn index(&self) -> Result<VerifierKey<'_, F, PC>, Out> {
        let (w, i) = self.verifier_oracles(&vec![vec![0; self.c.n]; self.c.ni]);
        let r = guarded(|| {
            Indexer::<F, PC>::index(
                &self.pcvk,
                &self.gate_refs(),
                self.lookups.iter().map(|l| l as &dyn LookupVirtualOracle<F>).collect(),
                &w,
                &i,
                &self.fixed,
                self.domain,
                &self.zh,
                self.perm_info(),
                self.c.u,
            )
        });
        match r {
            Err(p) => Err(Out::Panic(p)),
            Ok(Err(e)) => Err(Out::Reject(format!("{:?}", e))),
            Ok(Ok(vk)) => Ok(vk),
        }
    }
    pub fn commit_fixed(&self, v: &[FixedProverOracle<F>]) -> Vec<FixedVerifierOracle<F, PC>> {
        let labeled: Vec<LabeledPolynomial<F, DensePolynomial<F>>> =
            v.iter().map(|o| o.to_labeled()).collect();
        let (cs, _) = PC::commit(&self.ck, labeled.iter(), None).unwrap();
        cs.iter().zip(v)
            .map(|(c, o)| {
                let mut f = FixedVerifierOracle::from_labeled_commitment(c);
                for r in o.get_queried_rotations() {
                    f.register_rotation(*r);
                }
                f
            })
            .collect()
    }
    pub fn keys_from<'a>(&self, vk: VerifierKey<'a, F, PC>) -> Result<Keys<'a, F, PC>, Out> {
        let pre = guarded(|| {
            ProverPreprocessedInput::new(&self.fixed, &self.sigma, &self.tables, &self.q_blind, &vk.index_info)
        })
        .map_err(Out::Panic)?;
        let vpre = VerifierPreprocessedInput::new(
            self.commit_fixed(&self.fixed),
            self.commit_fixed(&self.tables),
            self.commit_fixed(&self.sigma),
            self.commit_fixed(std::slice::from_ref(&self.q_blind)).pop().unwrap(),
        );
        Ok(Keys { pk: ProverKey::from_ck_and_vk(&self.ck, &vk), pre, vpre })
    }
    pub fn keys(&self) -> Result<Keys<'_, F, PC>, Out> {
        let vk = self.index()?;
        self.keys_from(vk)
    }

    pub fn prove<FS: FiatShamirRng, R: Rng>(
        &self,
        k: &Keys<F, PC>,
        a: &Asg,
        rng: &mut R,
    ) -> Result<TPProof<F, PC>, Out> {
        let (mut w, mut i) = self.prover_oracles(a);
        self.prove_with::<FS, R>(k, &mut w, &mut i, rng)
    }
    pub fn prove_with<FS: FiatShamirRng, R: Rng>(
        &self,
        k: &Keys<F, PC>,
        w: &mut [WitnessProverOracle<F>],
        i: &mut [InstanceProverOracle<F>],
        rng: &mut R,
    ) -> Result<TPProof<F, PC>, Out> {
        self.prove_pre::<FS, R>(k, &k.pre, w, i, rng)
    }
    pub fn prove_pre<FS: FiatShamirRng, R: Rng>(
        &self,
        k: &Keys<F, PC>,
        pre: &ProverPreprocessedInput<F, PC>,
        w: &mut [WitnessProverOracle<F>],
        i: &mut [InstanceProverOracle<F>],
        rng: &mut R,
    ) -> Result<TPProof<F, PC>, Out> {
        let gates = self.gate_refs();
        match guarded(|| {
            TurboPlonk::<F, PC, FS>::prove(&k.pk, pre, w, i, &gates, self.c.n, rng)
        }) {
            Err(p) => Err(Out::Panic(p)),
            Ok(Err(e)) => Err(Out::Reject(format!("{:?}", e))),
            Ok(Ok(p)) => Ok(p),
        }
    }
    pub fn verify<FS: FiatShamirRng>(
        &self,
        k: &Keys<F, PC>,
        inst: &[Vec<i64>],
        proof: TPProof<F, PC>,
    ) -> Out {
        let (mut w, mut i) = self.verifier_oracles(inst);
        let mut vpre = k.vpre.clone();
        self.verify_with::<FS>(k, &mut vpre, &mut w, &mut i, proof)
    }
    pub fn verify_with<FS: FiatShamirRng>(
        &self,
        k: &Keys<F, PC>,
        vpre: &mut VerifierPreprocessedInput<F, PC>,
        w: &mut [WitnessVerifierOracle<F, PC>],
        i: &mut [InstanceVerifierOracle<F>],
        proof: TPProof<F, PC>,
    ) -> Out {
        let gates = self.gate_refs();
        match guarded(|| {
            TurboPlonk::<F, PC, FS>::verify(&k.pk.vk, vpre, proof, w, i, &gates, self.c.n, &self.zh)
        }) {
            Err(p) => Out::Panic(p),
            Ok(Err(e)) => Out::Reject(short(&format!("{:?}", e))),
            Ok(Ok(())) => Out::Accept,
        }
    }
}

/// First words of an error, for outcome statistics.
pub fn short(s: &str) -> String {
    s.chars().take(60).collect()
}

/// The stage at which an execution ended.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Full {
    pub stage: &'static str,
    pub out: Out,
}
impl Full {
    pub fn key(&self) -> String {
        match &self.out {
            Out::Accept => "accept".into(),
            Out::Reject(e) => format!("{}:Err({})", self.stage, short(e)),
            Out::Panic(e) => format!("{}:panic({})", self.stage, short(e)),
        }
    }
    pub fn accepted(&self) -> bool {
        self.out.accepted()
    }
}

/// Key preparation, proof and verification of one circuit and assignment.
pub fn full_run<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>(
    c: &Circuit,
    a: &Asg,
    seed: u64,
) -> (Full, usize) {
    let sys = match Sys::<F, PC>::new(c) {
        Ok(s) => s,
        Err(e) => return (Full { stage: "setup", out: Out::Reject(e) }, 1),
    };
    let keys = match sys.keys() {
        Ok(k) => k,
        Err(out) => return (Full { stage: "index", out }, 2),
    };
    let mut rng = crate::fs::ZkRng::new(seed);
    let proof = match sys.prove::<FS, _>(&keys, a, &mut rng) {
        Ok(p) => p,
        Err(out) => return (Full { stage: "prove", out }, 3),
    };
    (Full { stage: "verify", out: sys.verify::<FS>(&keys, &a.inst, proof) }, 4)
}
