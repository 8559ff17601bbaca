//! Toy prime fields. All Montgomery constants are computed at compile time from (p, generator).
use ark_ff::biginteger::BigInteger64;
use ark_ff::{FftParameters, Fp64, Fp64Parameters, FpParameters, PrimeField};

const fn mul_mod(a: u64, b: u64, p: u64) -> u64 {
    (((a as u128) * (b as u128)) % (p as u128)) as u64
}
const fn pow_mod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    while e > 0 {
        if e & 1 == 1 {
            r = mul_mod(r, b, p);
        }
        b = mul_mod(b, b, p);
        e >>= 1;
    }
    r
}
/// R = 2^64 mod p
const fn mont_r(p: u64) -> u64 {
    ((1u128 << 64) % (p as u128)) as u64
}
const fn to_mont(x: u64, p: u64) -> u64 {
    mul_mod(x % p, mont_r(p), p)
}
/// -p^{-1} mod 2^64
const fn mont_inv(p: u64) -> u64 {
    let mut inv: u64 = 1;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(p);
        i += 1;
    }
    inv.wrapping_neg()
}
const fn two_adicity(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}

macro_rules! toy_field {
    ($name:ident, $params:ident, $p:expr, $g:expr) => {
        pub struct $params;
        pub type $name = Fp64<$params>;
        impl FftParameters for $params {
            type BigInt = BigInteger64;
            const TWO_ADICITY: u32 = two_adicity($p);
            const TWO_ADIC_ROOT_OF_UNITY: BigInteger64 = BigInteger64([to_mont(
                pow_mod($g, ($p - 1) >> two_adicity($p), $p),
                $p,
            )]);
        }
        impl FpParameters for $params {
            const MODULUS: BigInteger64 = BigInteger64([$p]);
            const MODULUS_BITS: u32 = 64 - ($p as u64).leading_zeros();
            const CAPACITY: u32 = 63 - ($p as u64).leading_zeros();
            const REPR_SHAVE_BITS: u32 = ($p as u64).leading_zeros();
            const R: BigInteger64 = BigInteger64([mont_r($p)]);
            const R2: BigInteger64 = BigInteger64([mul_mod(mont_r($p), mont_r($p), $p)]);
            const INV: u64 = mont_inv($p);
            const GENERATOR: BigInteger64 = BigInteger64([to_mont($g, $p)]);
            const MODULUS_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([($p - 1) / 2]);
            const T: BigInteger64 = BigInteger64([($p - 1) >> two_adicity($p)]);
            const T_MINUS_ONE_DIV_TWO: BigInteger64 =
                BigInteger64([((($p - 1) >> two_adicity($p)) - 1) / 2]);
        }
        impl Fp64Parameters for $params {}
    };
}

// 29 * 2^57 + 1
toy_field!(F62, F62Params, 4179340454199820289u64, 3u64);
toy_field!(F193, F193Params, 193u64, 5u64);
toy_field!(F97, F97Params, 97u64, 5u64);
toy_field!(F257, F257Params, 257u64, 3u64);
toy_field!(F17, F17Params, 17u64, 3u64);

/// Small integer to field element (negative allowed).
pub fn fe<F: PrimeField>(x: i64) -> F {
    if x >= 0 {
        F::from(x as u64)
    } else {
        -F::from((-x) as u64)
    }
}

/// Raw 64-bit word that `rand` of a 64-bit toy field turns into `x`.
pub fn raw_word<P: Fp64Parameters>(x: Fp64<P>) -> u64 {
    (x.0).0[0]
}

pub fn self_test() {
    use ark_ff::{FftField, Field, One, Zero};
    fn t<P: Fp64Parameters>(p: u64) {
        let g = Fp64::<P>::multiplicative_generator();
        assert!(g.pow([p - 1]).is_one() && !g.pow([(p - 1) / 2]).is_one());
        assert_eq!(Fp64::<P>::from(p), Fp64::<P>::zero());
        assert_eq!(Fp64::<P>::from(3u64) * Fp64::<P>::from(5u64), Fp64::<P>::from(15u64));
        let w = Fp64::<P>::two_adic_root_of_unity();
        assert!(!w.pow([1u64 << (P::TWO_ADICITY - 1)]).is_one());
        assert!(w.pow([1u64 << P::TWO_ADICITY]).is_one());
    }
    t::<F62Params>(4179340454199820289);
    t::<F193Params>(193);
    t::<F97Params>(97);
    t::<F257Params>(257);
    t::<F17Params>(17);
}
