#![allow(dead_code, unused_imports)]
mod circuit;
mod fields;
mod fs;
mod run;
mod systems;
mod toypc;
mod engine {
    use std::hash::{Hash, Hasher};
    pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    }
}
mod props {
    pub mod common {
        pub fn filler(seed: u64, i: usize) -> i64 {
            (crate::engine::hash(&(seed, i, "fill")) % 1000) as i64 + 2
        }
    }
}
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Polynomial, UVPolynomial};
use circuit::*;
use fields::*;
use fs::*;
use props::common::filler;
use run::*;
use systems::*;
use toypc::*;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::verif_hooks::{set_interceptor, TPProof};
type T62 = ToyPC<F62>;

fn ok<T>(r: Result<T, Out>) -> T {
    r.unwrap_or_else(|e| panic!("{:?}", e))
}
/// key preparation, proof, verification
fn outcome(c: &Circuit, a: &Asg) -> Full {
    full_run::<F62, T62, TapeFS>(c, a, 5).0
}
fn main() {
    run::install_panic_hook();
    match std::panic::catch_unwind(demo) {
        Ok(()) => println!("demonstration holds"),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            println!("DEMONSTRATION FAILED: {}", m.unwrap_or_default());
            std::process::exit(1);
        }
    }
}
// ---------------------------------------------------------------------------------------------
