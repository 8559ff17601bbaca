//! An ideal polynomial commitment: the commitment *is* the polynomial (and its blinding
//! polynomial). Homomorphic, degree bounded, and an opening carries the exact quotients.
use ark_ff::{to_bytes, PrimeField, ToBytes};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use ark_std::io::{Read, Write};
use ark_std::rand::RngCore;
use std::marker::PhantomData;
use zero_over_k::commitment::HomomorphicCommitment;

type IoResult<T> = std::result::Result<T, std::io::Error>;

pub struct ToyPC<F: PrimeField>(PhantomData<F>);

/// What the last check was about: the combined polynomial and blinding, the point and the value.
#[derive(Clone)]
pub struct Checked<F> {
    pub poly: Vec<F>,
    pub blind: Vec<F>,
    pub point: F,
    pub value: F,
}
impl<F: PrimeField> Checked<F> {
    /// By how much the value misses the polynomial.
    pub fn error(&self) -> F {
        veval(&self.poly, self.point) - self.value
    }
    /// The opening that is valid if the error is zero.
    pub fn opening(&self) -> Opening<F> {
        Opening { w: vquot(&self.poly, self.point), wb: vquot(&self.blind, self.point), rv: veval(&self.blind, self.point) }
    }
}
thread_local! {
    static CHECKED: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = std::cell::RefCell::new(None);
}
pub fn take_checked<F: PrimeField>() -> Option<Checked<F>> {
    CHECKED.with(|c| c.borrow_mut().take()).and_then(|b| b.downcast::<Checked<F>>().ok()).map(|b| *b)
}

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Key {
    pub max_degree: u64,
    pub hiding_bound: u64,
}
impl PCUniversalParams for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCCommitterKey for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCVerifierKey for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.max_degree as usize
    }
}
#[derive(Clone)]
pub struct Prepared;
impl PCPreparedVerifierKey<Key> for Prepared {
    fn prepare(_: &Key) -> Self {
        Prepared
    }
}
impl<F: PrimeField> PCPreparedCommitment<Comm<F>> for Prepared {
    fn prepare(_: &Comm<F>) -> Self {
        Prepared
    }
}

/// Coefficients without trailing zeros.
pub fn trim<F: PrimeField>(mut v: Vec<F>) -> Vec<F> {
    while matches!(v.last(), Some(x) if x.is_zero()) {
        v.pop();
    }
    v
}
pub fn vadd<F: PrimeField>(a: &[F], b: &[F]) -> Vec<F> {
    let n = a.len().max(b.len());
    trim(
        (0..n)
            .map(|i| {
                a.get(i).copied().unwrap_or_else(F::zero) + b.get(i).copied().unwrap_or_else(F::zero)
            })
            .collect(),
    )
}
pub fn vscale<F: PrimeField>(a: &[F], s: F) -> Vec<F> {
    trim(a.iter().map(|x| *x * s).collect())
}
pub fn veval<F: PrimeField>(a: &[F], x: F) -> F {
    a.iter().rev().fold(F::zero(), |acc, c| acc * x + c)
}
/// (a - a(x)) / (X - x)
pub fn vquot<F: PrimeField>(a: &[F], x: F) -> Vec<F> {
    let mut q = vec![F::zero(); a.len().saturating_sub(1)];
    let mut carry = F::zero();
    for i in (1..a.len()).rev() {
        carry = carry * x + a[i];
        q[i - 1] = carry;
    }
    trim(q)
}
/// q * (X - x) + v
fn vunquot<F: PrimeField>(q: &[F], x: F, v: F) -> Vec<F> {
    let mut r = vec![F::zero(); q.len() + 1];
    for (i, c) in q.iter().enumerate() {
        r[i + 1] += *c;
        r[i] -= *c * x;
    }
    r[0] += v;
    trim(r)
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, CanonicalSerialize, CanonicalDeserialize)]
pub struct Comm<F: PrimeField> {
    pub poly: Vec<F>,
    pub blind: Vec<F>,
}
impl<F: PrimeField> ToBytes for Comm<F> {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        // self-delimiting, so that lists of commitments are injectively encoded
        (self.poly.len() as u64).write(&mut w)?;
        self.poly.write(&mut w)?;
        (self.blind.len() as u64).write(&mut w)?;
        self.blind.write(&mut w)
    }
}
impl<F: PrimeField> PCCommitment for Comm<F> {
    fn empty() -> Self {
        Comm { poly: vec![], blind: vec![] }
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        to_bytes![self].unwrap().len()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Rand<F: PrimeField> {
    pub blind: Vec<F>,
}
impl<F: PrimeField> PCRandomness for Rand<F> {
    fn empty() -> Self {
        Rand { blind: vec![] }
    }
    fn rand<R: RngCore>(num_queries: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        Rand { blind: trim((0..num_queries + 1).map(|_| F::rand(rng)).collect()) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct Opening<F: PrimeField> {
    pub w: Vec<F>,
    pub wb: Vec<F>,
    pub rv: F,
}
impl<F: PrimeField> ToBytes for Opening<F> {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        self.w.write(&mut w)?;
        self.wb.write(&mut w)?;
        self.rv.write(&mut w)
    }
}
impl<F: PrimeField> PCProof for Opening<F> {
    fn size_in_bytes(&self) -> usize {
        to_bytes![self].unwrap().len()
    }
}
#[derive(Debug)]
pub struct ToyErr(pub String);
impl std::fmt::Display for ToyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ToyErr {}
impl From<Error> for ToyErr {
    fn from(e: Error) -> Self {
        ToyErr(format!("{:?}", e))
    }
}

impl<F: PrimeField> PolynomialCommitment<F, DensePolynomial<F>> for ToyPC<F> {
    type UniversalParams = Key;
    type CommitterKey = Key;
    type VerifierKey = Key;
    type PreparedVerifierKey = Prepared;
    type Commitment = Comm<F>;
    type PreparedCommitment = Prepared;
    type Randomness = Rand<F>;
    type Proof = Opening<F>;
    type BatchProof = Vec<Opening<F>>;
    type Error = ToyErr;

    fn setup<R: RngCore>(max_degree: usize, _: Option<usize>, _: &mut R) -> Result<Key, ToyErr> {
        Ok(Key { max_degree: max_degree as u64, hiding_bound: 0 })
    }
    fn trim(
        pp: &Key,
        supported_degree: usize,
        supported_hiding_bound: usize,
        _: Option<&[usize]>,
    ) -> Result<(Key, Key), ToyErr> {
        if supported_degree > pp.max_degree as usize {
            return Err(Error::TrimmingDegreeTooLarge.into());
        }
        let k = Key {
            max_degree: supported_degree as u64,
            hiding_bound: supported_hiding_bound as u64,
        };
        Ok((k.clone(), k))
    }
    fn commit<'a>(
        ck: &Key,
        polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Comm<F>>>, Vec<Rand<F>>), ToyErr> {
        let mut rng = rng;
        let mut cs = vec![];
        let mut rs = vec![];
        for p in polynomials {
            if p.polynomial().degree() > ck.max_degree as usize {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: p.polynomial().degree() + 1,
                    num_powers: ck.max_degree as usize + 1,
                }
                .into());
            }
            let blind = match p.hiding_bound() {
                Some(h) => {
                    if h as u64 > ck.hiding_bound {
                        return Err(Error::HidingBoundToolarge {
                            hiding_poly_degree: h,
                            num_powers: ck.hiding_bound as usize,
                        }
                        .into());
                    }
                    match rng.as_mut() {
                        Some(r) => trim((0..h + 1).map(|_| F::rand(r)).collect()),
                        None => return Err(Error::MissingRng.into()),
                    }
                }
                None => vec![],
            };
            let c = Comm { poly: trim(p.polynomial().coeffs().to_vec()), blind: blind.clone() };
            cs.push(LabeledCommitment::new(p.label().clone(), c, None));
            rs.push(Rand { blind });
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        ck: &Key,
        labeled_polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        _commitments: impl IntoIterator<Item = &'a LabeledCommitment<Comm<F>>>,
        point: &'a F,
        opening_challenges: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a Rand<F>>,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<Opening<F>, ToyErr>
    where
        Rand<F>: 'a,
        Comm<F>: 'a,
    {
        let (mut p, mut b) = (vec![], vec![]);
        for (i, (poly, rand)) in labeled_polynomials.into_iter().zip(rands).enumerate() {
            if poly.polynomial().degree() > ck.max_degree as usize {
                return Err(Error::TooManyCoefficients {
                    num_coefficients: poly.polynomial().degree() + 1,
                    num_powers: ck.max_degree as usize + 1,
                }
                .into());
            }
            let c = opening_challenges(i as u64);
            p = vadd(&p, &vscale(poly.polynomial().coeffs(), c));
            b = vadd(&b, &vscale(&rand.blind, c));
        }
        Ok(Opening { w: vquot(&p, *point), wb: vquot(&b, *point), rv: veval(&b, *point) })
    }
    fn check_individual_opening_challenges<'a>(
        vk: &Key,
        commitments: impl IntoIterator<Item = &'a LabeledCommitment<Comm<F>>>,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &Opening<F>,
        opening_challenges: &dyn Fn(u64) -> F,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<bool, ToyErr>
    where
        Comm<F>: 'a,
    {
        let (mut p, mut b, mut v) = (vec![], vec![], F::zero());
        for (i, (comm, val)) in commitments.into_iter().zip(values).enumerate() {
            let c = opening_challenges(i as u64);
            p = vadd(&p, &vscale(&comm.commitment().poly, c));
            b = vadd(&b, &vscale(&comm.commitment().blind, c));
            v += c * val;
        }
        CHECKED.with(|c| {
            *c.borrow_mut() = Some(Box::new(Checked { poly: p.clone(), blind: b.clone(), point: *point, value: v }))
        });
        if p.len() > vk.max_degree as usize + 1 {
            return Ok(false);
        }
        // the encodings have to be canonical: no trailing zeros
        let canonical = trim(proof.w.clone()) == proof.w && trim(proof.wb.clone()) == proof.wb;
        Ok(canonical
            && trim(p) == vunquot(&proof.w, *point, v)
            && trim(b) == vunquot(&proof.wb, *point, proof.rv))
    }
}

impl<F: PrimeField> HomomorphicCommitment<F> for ToyPC<F> {
    fn msm(commitments: &[Comm<F>], scalars: &[F]) -> Comm<F> {
        commitments
            .iter()
            .zip(scalars)
            .fold(Self::zero_comm(), |acc, (c, s)| Self::add(&acc, &Self::scale_com(c, *s)))
    }
    fn neg_com(c: &Comm<F>) -> Comm<F> {
        Self::scale_com(c, -F::one())
    }
    fn scale_com(c: &Comm<F>, s: F) -> Comm<F> {
        Comm { poly: vscale(&c.poly, s), blind: vscale(&c.blind, s) }
    }
    fn add(a: &Comm<F>, b: &Comm<F>) -> Comm<F> {
        Comm { poly: vadd(&a.poly, &b.poly), blind: vadd(&a.blind, &b.blind) }
    }
    fn zero_comm() -> Comm<F> {
        Comm { poly: vec![], blind: vec![] }
    }
    fn is_zero(c: &Comm<F>) -> bool {
        c.poly.iter().all(|x| x.is_zero()) && c.blind.iter().all(|x| x.is_zero())
    }
    fn eq_cm(a: &Comm<F>, b: &Comm<F>) -> bool {
        a == b
    }
    fn scale_rand(r: &Rand<F>, s: F) -> Rand<F> {
        Rand { blind: vscale(&r.blind, s) }
    }
    fn add_rands(a: &Rand<F>, b: &Rand<F>) -> Rand<F> {
        Rand { blind: vadd(&a.blind, &b.blind) }
    }
    fn add_assign_rand(a: &mut Rand<F>, b: &Rand<F>) {
        a.blind = vadd(&a.blind, &b.blind);
    }
}
