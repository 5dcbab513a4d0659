//! Shared parts of the TFHE monitors: word abstraction, raw views on entities,
//! parameter generators and an independent exact reference model.
#![allow(clippy::too_many_arguments, clippy::needless_range_loop)]
pub use vcore::{ck, ck_eq, fail, hash_bytes, hash_u64s, quiet_catch, Case, Ctx, Fail, Res, Rng};
pub mod model;
pub mod ops;
pub use model::*;
use serde::{de::DeserializeOwned, Serialize};
pub use num;
pub use num::Complex;
pub use sunscreen_tfhe::entities::*;
pub use sunscreen_tfhe::{
    CarryBits, GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PlaintextBits, PolynomialDegree,
    PrivateFunctionalKeyswitchLweCount, RadixCount, RadixDecomposition, RadixLog, Torus, TorusOps, OverlaySize,
};
pub use sunscreen_tfhe::rand::Stddev;
pub type C64 = Complex<f64>;

pub trait Word: TorusOps + Serialize + DeserializeOwned + std::hash::Hash + std::fmt::Display + 'static {
    const W: u32;
    const MASK: u64;
    fn of(x: u64) -> Self;
    fn u(self) -> u64;
}
impl Word for u32 {
    const W: u32 = 32;
    const MASK: u64 = u32::MAX as u64;
    fn of(x: u64) -> u32 {
        x as u32
    }
    fn u(self) -> u64 {
        self as u64
    }
}
impl Word for u64 {
    const W: u32 = 64;
    const MASK: u64 = u64::MAX;
    fn of(x: u64) -> u64 {
        x
    }
    fn u(self) -> u64 {
        self
    }
}

/// Elements behind an entity reference (every entity is `repr(transparent)` over a slice).
pub fn raw<S: Copy, R: ?Sized>(r: &R) -> &[S] {
    let n = std::mem::size_of_val(r) / std::mem::size_of::<S>();
    unsafe { std::slice::from_raw_parts(r as *const R as *const S, n) }
}
pub fn raw_mut<S: Copy, R: ?Sized>(r: &mut R) -> &mut [S] {
    let n = std::mem::size_of_val(r) / std::mem::size_of::<S>();
    unsafe { std::slice::from_raw_parts_mut(r as *mut R as *mut S, n) }
}
pub fn rawu<S: Word, R: ?Sized>(r: &R) -> Vec<u64> {
    raw::<S, R>(r).iter().map(|x| x.u()).collect()
}
pub fn rawc<R: ?Sized>(r: &R) -> &[C64] {
    raw::<C64, R>(r)
}
/// View a slice as an entity reference.
#[macro_export]
macro_rules! view {
    ($s:expr, $t:ty) => {
        unsafe { &*($s as *const [_] as *const $t) }
    };
}
#[macro_export]
macro_rules! view_mut {
    ($s:expr, $t:ty) => {
        unsafe { &mut *($s as *mut [_] as *mut $t) }
    };
}
/// An owned entity of any length, built through its own reference type.
#[macro_export]
macro_rules! owned {
    ($n:expr, $z:expr, $t:ty) => {{
        let v = vec![$z; $n];
        let r: &$t = $crate::view!(&v[..], $t);
        r.to_owned()
    }};
}

/// Run a generic function for one of the two word types, chosen by the case.
#[macro_export]
macro_rules! either {
    ($c:expr, $f:ident $(, $a:expr)*) => {
        if $c.idx % 2 == 0 { $f::<u64>($c $(, $a)*) } else { $f::<u32>($c $(, $a)*) }
    };
}

pub fn ldef(n: usize, std: f64) -> LweDef {
    LweDef { dim: LweDimension(n), std: Stddev(std) }
}
pub fn gdef(k: usize, n: usize, std: f64) -> GlweDef {
    GlweDef { dim: GlweDimension { size: GlweSize(k), polynomial_degree: PolynomialDegree(n) }, std: Stddev(std) }
}
pub fn rdef(count: usize, log: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}
pub fn gn(g: &GlweDef) -> usize {
    g.dim.polynomial_degree.0
}
pub fn gk(g: &GlweDef) -> usize {
    g.dim.size.0
}
pub fn rl(r: &RadixDecomposition) -> usize {
    r.count.0
}
pub fn rb(r: &RadixDecomposition) -> usize {
    r.radix_log.0
}

pub fn gen_lwe(r: &mut Rng, max: usize) -> LweDef {
    let n = if r.chance(1, 4) { r.range(1, 4) as usize } else { r.range(1, max as u64) as usize };
    ldef(n, 0.0)
}
/// GLWE with degree 2^lo..2^hi and size 1..=kmax
pub fn gen_glwe(r: &mut Rng, lo: u32, hi: u32, kmax: usize) -> GlweDef {
    gdef(r.range(1, kmax as u64) as usize, 1 << r.range(lo as u64, hi as u64), 0.0)
}
pub fn gen_radix(r: &mut Rng, bits: u32, max_log: usize, max_count: usize) -> RadixDecomposition {
    let log = r.range(1, max_log.min(bits as usize) as u64) as usize;
    let cmax = (bits as usize / log).min(max_count).max(1);
    rdef(r.range(1, cmax as u64) as usize, log)
}
pub fn words<S: Word>(r: &mut Rng, n: usize) -> Vec<S> {
    let edgy = r.chance(1, 4);
    (0..n).map(|_| S::of(if edgy { r.edge(S::W) } else { r.u64() })).collect()
}
pub fn torus_vec<S: Word>(r: &mut Rng, n: usize) -> Vec<Torus<S>> {
    words::<S>(r, n).into_iter().map(Torus::from).collect()
}
pub fn fill_words<S: Word, R: ?Sized>(r: &mut Rng, x: &mut R) {
    for v in raw_mut::<S, R>(x) {
        *v = S::of(r.u64());
    }
}
pub fn fill_c64<R: ?Sized>(r: &mut Rng, x: &mut R) {
    for v in raw_mut::<C64, R>(x) {
        *v = Complex::new((r.f64() - 0.5) * 1e30, (r.f64() - 0.5) * 1e30);
    }
}
pub fn poly<S: Word>(v: &[u64]) -> Polynomial<S> {
    Polynomial::new(&v.iter().map(|x| S::of(*x)).collect::<Vec<_>>())
}
pub fn tpoly<S: Word>(v: &[u64]) -> Polynomial<Torus<S>> {
    Polynomial::new(&v.iter().map(|x| Torus::from(S::of(*x))).collect::<Vec<_>>())
}
pub fn msgs(r: &mut Rng, n: usize, bits: u32) -> Vec<u64> {
    let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mode = r.below(4);
    (0..n)
        .map(|_| match mode {
            0 => m,
            1 => r.below(2) * m,
            _ => r.u64() & m,
        })
        .collect()
}
/// Fill this thread's temporary memory with junk, so that anything that reads it
/// without writing it first gives a different answer.
#[cfg(feature = "hooks")]
pub fn poison_scratch(r: &mut Rng, n: usize) {
    use sunscreen_tfhe::verif_hooks::allocate_scratch;
    let mut held = vec![];
    for k in 0..12 {
        let len = match k % 4 {
            0 => n * 8,
            1 => n * 64,
            2 => r.range(1, (n as u64) * 16) as usize,
            _ => n,
        };
        let mut b = allocate_scratch::<u64>(len.max(1));
        let mode = r.below(3);
        for x in b.as_mut_slice() {
            *x = match mode {
                0 => r.u64(),
                1 => u64::MAX,
                _ => 0x4130000000000000 | r.below(1 << 20),
            };
        }
        held.push(b);
        if r.chance(1, 3) {
            let _ = held.pop();
        }
    }
}
#[cfg(not(feature = "hooks"))]
pub fn poison_scratch(_r: &mut Rng, _n: usize) {}

/// Owned torus-valued entity (ciphertext, public key) from words.
#[macro_export]
macro_rules! tent {
    ($s:ty, $v:expr, $t:ty) => {{
        let v: &[u64] = $v;
        let mut e = $crate::owned!(v.len(), $crate::Torus::from(<$s as $crate::Word>::of(0)), $t);
        for (d, x) in $crate::raw_mut::<$s, $t>(&mut *e).iter_mut().zip(v) {
            *d = <$s as $crate::Word>::of(*x);
        }
        e
    }};
}
/// Owned plain entity (secret key) from words.
#[macro_export]
macro_rules! pent {
    ($s:ty, $v:expr, $t:ty) => {{
        let v: &[u64] = $v;
        let mut e = $crate::owned!(v.len(), <$s as $crate::Word>::of(0), $t);
        for (d, x) in $crate::raw_mut::<$s, $t>(&mut *e).iter_mut().zip(v) {
            *d = <$s as $crate::Word>::of(*x);
        }
        e
    }};
}
/// junk words
pub fn junk<S: Word>(r: &mut Rng, n: usize) -> Vec<u64> {
    if r.chance(2, 3) {
        return (0..n).map(|_| r.u64() & S::MASK).collect();
    }
    // Structured operands: trivial and sparse ciphertexts, repeated and cancelling
    // coefficients, edge values. Every block of a power of two words has its own kind.
    let mut v = Vec::with_capacity(n);
    let block = 1usize << r.below(n.max(1).ilog2() as u64 + 1);
    let mixed = r.bool();
    let mut kind = r.below(8);
    while v.len() < n {
        if mixed {
            kind = r.below(8);
        }
        let len = block.min(n - v.len());
        let a = r.edge(S::W);
        let b = r.u64();
        for i in 0..len {
            let x = match kind {
                0 => 0,
                1 => a,
                2 if i % 2 == 0 => b,
                2 => b.wrapping_neg(),
                3 if i * 2 < len => b.rotate_left(i as u32),
                3 => b.rotate_left((len - 1 - i) as u32).wrapping_neg(),
                4 if r.chance(1, 16) => r.u64(),
                4 => 0,
                5 => r.edge(S::W),
                6 => r.pick(&[0, b, b.wrapping_neg()]),
                _ => r.u64(),
            };
            v.push(x & S::MASK);
        }
    }
    v
}
/// secret key coefficients: 0 binary, 1 uniform, 2 ternary, 3 all ones
pub fn key_words<S: Word>(r: &mut Rng, n: usize, kind: u32) -> Vec<u64> {
    (0..n)
        .map(|_| match kind {
            0 => r.below(2),
            1 => r.u64() & S::MASK,
            2 => (r.below(3).wrapping_sub(1)) & S::MASK,
            _ => 1,
        })
        .collect()
}
pub fn lwe_sk<S: Word>(r: &mut Rng, n: usize, kind: u32) -> (Vec<u64>, LweSecretKey<S>) {
    let v = key_words::<S>(r, n, kind);
    let k = pent!(S, &v, LweSecretKeyRef<S>);
    (v, k)
}
pub fn glwe_sk<S: Word>(r: &mut Rng, n: usize, kind: u32) -> (Vec<u64>, GlweSecretKey<S>) {
    let v = key_words::<S>(r, n, kind);
    let k = pent!(S, &v, GlweSecretKeyRef<S>);
    (v, k)
}

/// Worst accepted rounding error, in units of the word, of a sum of `terms` products of
/// integer polynomials of norm `dn` with torus polynomials through the transform,
/// seen through a key of (squared) norm `s2`.
pub fn fft_tol(w: u32, n: usize, terms: usize, dn: f64, s2: f64) -> f64 {
    let eps = 2f64.powi(-53);
    let row = (n as f64).sqrt() * 2f64.powi(w as i32 - 1);
    let one = eps * ((n as f64).log2() + 3.0) * dn * row * (terms as f64).sqrt();
    // conversion back to words: one rounding to 53 bits of a value of at most w bits (after reduction)
    let conv = 2f64.powi(w as i32 - 52).max(1.0);
    (2.0 * one + conv) * (1.0 + 2.0 * s2.sqrt())
}
/// bound on the norm of a polynomial of balanced digits
pub fn digit_norm(n: usize, log: usize) -> f64 {
    2f64.powi(log as i32 - 1) * (n as f64).sqrt()
}
/// squared norm of a key given as words
pub fn norm2(s: &[u64], w: u32) -> f64 {
    s.iter().map(|x| (signed(*x, w) as f64).powi(2)).sum()
}
/// got and want agree up to tol units; keeps the largest ratio seen as a statistic
pub fn close(c: &mut Case, got: &[u64], want: &[u64], tol: f64, w: u32, what: &dyn Fn() -> String) -> Res {
    ck!(c, got.len() == want.len(), "{}: {} values instead of {}", what(), got.len(), want.len());
    let d = maxdiff(got, want, w) as f64;
    if tol > 0.0 {
        c.max("largest-error-percent-of-bound", d / tol * 100.0);
    }
    if d > tol {
        let i = (0..got.len()).max_by_key(|i| tabs(got[*i].wrapping_sub(want[*i]), w)).unwrap();
        fail!("{}: value {i} of {} is {:#x} instead of {:#x} (error 2^{:.1} of a word of {w} bits, limit 2^{:.1})", what(), got.len(), got[i], want[i], d.log2(), tol.max(0.5).log2());
    }
    Ok(())
}
/// noise of keys in a case, and its limit after `terms` products of digits with one noisy value each
pub fn gen_std(r: &mut Rng, w: u32) -> f64 {
    if r.chance(3, 5) { 0.0 } else { 2f64.powf(-(r.range(w as u64 / 2, w as u64 - 3) as f64) + r.f64()) }
}
pub fn noise_lim(std: f64, w: u32, terms: usize, r: &RadixDecomposition) -> f64 {
    if std == 0.0 { 0.0 } else { 12.0 * (std * 2f64.powi(w as i32) + 0.5) * (terms as f64 * rl(r) as f64).sqrt() * 2f64.powi(rb(r) as i32 - 1) }
}
