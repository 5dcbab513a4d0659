//! Small keys with next to no noise, under which every operation of the runtime is exact.
use parasol_runtime::{ComputeKey, Encryption, Evaluation, Params, PublicKey, SecretKey};
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::{rand::Stddev, *};

/// Polynomial degree of toy ciphertexts.
pub const N: usize = 64;

pub fn radix(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}
/// The dimension of level 0 is so small that switching to 2N rotations of N = 64 never moves a
/// bit across a boundary; noise is far below what decryption tolerates.
pub fn params() -> Params {
    let mut p = Params::default();
    p.l0_params.dim = LweDimension(4);
    p.l0_params.std = Stddev(1.0e-14);
    p.l1_params.dim = GlweDimension { size: GlweSize(1), polynomial_degree: PolynomialDegree(N) };
    p.l1_params.std = Stddev(1.0e-16);
    p.cbs_radix = radix(2, 8);
    p.pbs_radix = radix(2, 16);
    p.ks_radix = radix(6, 4);
    p.pfks_radix = radix(2, 17);
    p.ss_radix = radix(6, 7);
    p.tr_radix = radix(6, 7);
    p
}
pub struct Keys {
    pub params: Params,
    pub enc: Encryption,
    pub eval: Evaluation,
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub ck: Arc<ComputeKey>,
}
pub fn make(params: &Params) -> Keys {
    let enc = Encryption::new(params);
    let sk = SecretKey::generate(params);
    let pk = PublicKey::generate(params, &sk);
    let ck = Arc::new(ComputeKey::generate(&sk, params));
    let eval = Evaluation::new(ck.clone(), params, &enc);
    Keys { params: params.clone(), enc, eval, sk, pk, ck }
}
/// One set of keys per process.
pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| make(&params()))
}
