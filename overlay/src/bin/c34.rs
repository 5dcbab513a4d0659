//! C34: what the runtime encrypts, under any key and in any form, decrypts to the same value;
//! values that do not fit are refused rather than altered.
use parasol_runtime::fluent::*;
use parasol_runtime::*;
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::entities::Polynomial;
use sunscreen_tfhe::{rand::Stddev, *};
use vover::toy::{make, radix, Keys};
use vover::*;

type R<T> = std::result::Result<T, Fail>;

/// Keys of several shapes: polynomial degree, GLWE size (public keys need 1).
fn keyring() -> &'static Vec<Keys> {
    static K: OnceLock<Vec<Keys>> = OnceLock::new();
    K.get_or_init(|| {
        [(16, 1), (64, 1), (512, 1), (32, 2), (16, 3), (128, 1), (256, 1)]
            .iter()
            .map(|(n, k)| {
                let mut p = vover::toy::params();
                p.l0_params.dim = LweDimension(3 + n % 7);
                p.l1_params.dim = GlweDimension { size: GlweSize(*k), polynomial_degree: PolynomialDegree(*n) };
                p.l1_params.std = Stddev(1.0e-17);
                p.cbs_radix = radix(1 + (*n % 3), 6);
                if *k == 1 {
                    make(&p)
                } else {
                    // no public key: put one of other parameters there, which is never used
                    let enc = Encryption::new(&p);
                    let sk = SecretKey::generate(&p);
                    let ck = Arc::new(ComputeKey::generate(&sk, &p));
                    let eval = Evaluation::new(ck.clone(), &p, &enc);
                    let mut q = p.clone();
                    q.l1_params.dim.size = GlweSize(1);
                    let pk = PublicKey::generate(&q, &SecretKey::generate(&q));
                    Keys { params: p, enc, eval, sk, pk, ck }
                }
            })
            .collect()
    })
}
fn pick(c: &mut Case, public: bool) -> &'static Keys {
    let v: Vec<&'static Keys> = keyring().iter().filter(|k| !public || k.params.l1_params.dim.size.0 == 1).collect();
    v[c.rng.usize(v.len())]
}
fn deg(k: &Keys) -> usize {
    k.params.l1_poly_degree().0
}

fn bits(c: &mut Case) -> Res {
    let k = pick(c, false);
    let b = c.rng.bool();
    fn one<T: CiphertextOps>(c: &mut Case, k: &Keys, b: bool, name: &str) -> Res {
        c.evals += 1;
        let ct = T::encrypt_secret(b, &k.enc, &k.sk);
        ck_eq!(c, ct.decrypt(&k.enc, &k.sk), b, "{name} of {b}");
        ct.check_is_valid(&k.params).map_err(|e| Fail::from(format!("{name}: {e}")))?;
        let t = T::trivial_encryption(b, &k.enc, &k.eval);
        ck_eq!(c, t.decrypt(&k.enc, &k.sk), b, "trivial {name} of {b}");
        t.check_is_valid(&k.params).map_err(|e| Fail::from(format!("trivial {name}: {e}")))?;
        ck!(c, !T::allocate(&k.enc).decrypt(&k.enc, &k.sk), "fresh {name} is not zero");
        let bit = Bit::<T>::encrypt_secret(b, &k.enc, &k.sk);
        ck_eq!(c, bit.decrypt(&k.enc, &k.sk), b, "bit of {name} of {b}");
        ck_eq!(c, Bit::<T>::trivial_encryption(b, &k.enc, &k.eval).decrypt(&k.enc, &k.sk), b, "trivial bit of {name} of {b}");
        Ok(())
    }
    one::<L0LweCiphertext>(c, k, b, "L0LweCiphertext")?;
    one::<L1LweCiphertext>(c, k, b, "L1LweCiphertext")?;
    one::<L1GlweCiphertext>(c, k, b, "L1GlweCiphertext")?;
    one::<L1GgswCiphertext>(c, k, b, "L1GgswCiphertext")?;
    one::<L1GlevCiphertext>(c, k, b, "L1GlevCiphertext")?;
    c.key(hash_u64s(&[deg(k) as u64, b as u64]));
    Ok(())
}

fn polys(c: &mut Case) -> Res {
    let public = c.rng.bool();
    let k = pick(c, public);
    let n = deg(k);
    let style = c.rng.usize(4);
    let msg: Vec<u64> = (0..n).map(|i| match style {
        0 => c.rng.below(2),
        1 => (i == 0) as u64,
        2 => (i == n - 1) as u64,
        _ => 1,
    }).collect();
    let m = Polynomial::new(&msg);
    let same = |p: &Polynomial<u64>, what: &str| -> Res {
        if p.coeffs() != &msg[..] {
            fail!("{what} degree {n}: {:?} decrypts to {:?}", Short(&msg), Short(&p.coeffs()));
        }
        Ok(())
    };
    if public {
        let x = k.enc.encrypt_rlwe_l1(&m, &k.pk);
        same(&k.enc.decrypt_glwe_l1(&x, &k.sk), "public RLWE")?;
        let y = k.enc.encrypt_rlwe_l1(&m, &k.pk);
        ck!(c, x.0 != y.0, "two public encryptions are equal");
        same(&k.enc.decrypt_glev_l1(&k.enc.encrypt_rlev_l1(&m, &k.pk), &k.sk), "public RLEV")?;
        same(&PolynomialCiphertextOps::decrypt(&<L1GlweCiphertext as PolynomialCiphertextOps>::encrypt(&m, &k.enc, &k.pk), &k.enc, &k.sk), "public RLWE (trait)")?;
    } else {
        let x = k.enc.encrypt_glwe_l1_secret(&m, &k.sk);
        same(&k.enc.decrypt_glwe_l1(&x, &k.sk), "secret GLWE")?;
        ck!(c, x.0 != k.enc.encrypt_glwe_l1_secret(&m, &k.sk).0, "two secret encryptions are equal");
        same(&k.enc.decrypt_glev_l1(&k.enc.encrypt_glev_l1_secret(&m, &k.sk), &k.sk), "secret GLEV")?;
    }
    same(&k.enc.decrypt_glwe_l1(&k.enc.trivial_glwe_l1(&m), &k.sk), "trivial GLWE")?;
    c.evals += 1;
    c.key(hash_u64s(&[n as u64, style as u64, public as u64]));
    Ok(())
}

/// A value of the plaintext type of a sign that fits `n` bits, or one that does not.
trait Values: Sign {
    const SIGNED: bool;
    fn fits(rng: &mut Rng, n: usize) -> Self::PlaintextType;
    /// None if every value fits
    fn misfits(rng: &mut Rng, n: usize) -> Option<Self::PlaintextType>;
    fn bit(v: Self::PlaintextType, i: usize) -> bool;
}
fn u128_of(rng: &mut Rng, n: usize) -> u128 {
    let v = (rng.u64() as u128) << 64 | rng.u64() as u128;
    let mask = if n >= 128 { u128::MAX } else { (1 << n) - 1 };
    match rng.usize(6) {
        0 => mask,
        1 => 0,
        2 => 1 & mask,
        3 => mask ^ (mask >> 1),
        4 => (v >> rng.usize(128)) & mask,
        _ => v & mask,
    }
}
impl Values for Unsigned {
    const SIGNED: bool = false;
    fn fits(rng: &mut Rng, n: usize) -> u128 {
        u128_of(rng, n)
    }
    fn misfits(rng: &mut Rng, n: usize) -> Option<u128> {
        if n >= 128 {
            return None;
        }
        Some(match rng.usize(3) {
            0 => 1 << n,
            1 => u128::MAX,
            _ => u128_of(rng, 128) | 1 << (n + rng.usize(128 - n)),
        })
    }
    fn bit(v: u128, i: usize) -> bool {
        i < 128 && v >> i & 1 == 1
    }
}
impl Values for Signed {
    const SIGNED: bool = true;
    fn fits(rng: &mut Rng, n: usize) -> i128 {
        let v = u128_of(rng, n);
        if n >= 128 {
            return v as i128;
        }
        // sign extend
        ((v << (128 - n)) as i128) >> (128 - n)
    }
    fn misfits(rng: &mut Rng, n: usize) -> Option<i128> {
        if n >= 128 {
            return None;
        }
        let top = 1i128 << (n - 1);
        Some(match rng.usize(5) {
            0 => top,
            1 => -top - 1,
            2 => i128::MAX,
            3 => i128::MIN,
            _ => {
                let v = top.saturating_add((u128_of(rng, 127) >> rng.usize(127)) as i128);
                if rng.bool() { v } else { -v - 1 }
            }
        })
    }
    fn bit(v: i128, i: usize) -> bool {
        v >> i.min(127) & 1 == 1
    }
}
fn width(rng: &mut Rng) -> usize {
    match rng.usize(8) {
        0 => 128,
        1 => 127,
        2 => 1 + rng.usize(4),
        3 => [8, 16, 32, 64, 128][rng.usize(5)],
        4 => 129 + rng.usize(130),
        _ => 1 + rng.usize(128),
    }
}
fn val_eq<U: Values>(got: U::PlaintextType, v: U::PlaintextType, what: &dyn Fn() -> String) -> Res {
    if got != v {
        fail!("{}: {v:?} decrypts to {got:?}", what());
    }
    Ok(())
}
fn refused<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Res {
    match quiet_catch(std::panic::AssertUnwindSafe(f)) {
        Err(_) => Ok(()),
        Ok(_) => fail!("{}: accepted", what()),
    }
}

fn ints_of<T: CiphertextOps, U: Values>(c: &mut Case, name: &str) -> Res {
    let k = pick(c, false);
    let n = width(&mut c.rng);
    let v = U::fits(&mut c.rng, n);
    let what = || format!("{} bits of {name}, signed {}", n, U::SIGNED);
    let x = DynamicGenericInt::<T, U>::encrypt_secret(v, &k.enc, &k.sk, n);
    ck_eq!(c, x.bits.len(), n, "{}: bits", what());
    val_eq::<U>(x.decrypt(&k.enc, &k.sk), v, &what)?;
    for (i, b) in x.bits.iter().enumerate() {
        ck_eq!(c, b.borrow().decrypt(&k.enc, &k.sk), U::bit(v, i), "{}: bit {i} of {v:?}", what());
    }
    let t = DynamicGenericInt::<T, U>::trivial(v, &k.enc, &k.eval, n);
    ck_eq!(c, t.bits.len(), n, "{}: bits", what());
    val_eq::<U>(t.decrypt(&k.enc, &k.sk), v, &|| format!("trivial {}", what()))?;
    // the same bits, owned or shared
    let own = DynamicGenericInt::<T, U>::from_bits_deep(x.bits.iter().map(|b| b.borrow().clone()).collect());
    val_eq::<U>(own.decrypt(&k.enc, &k.sk), v, &|| format!("rebuilt {}", what()))?;
    let shared = DynamicGenericInt::<T, U>::from_bits_shallow(x.bits.clone());
    val_eq::<U>(shared.decrypt(&k.enc, &k.sk), v, &|| format!("shared {}", what()))?;
    val_eq::<U>(shared.with_decryption_fn(|b| b.decrypt(&k.enc, &k.sk)), v, &|| format!("with function {}", what()))?;
    if let Some(m) = U::misfits(&mut c.rng, n) {
        refused(|| format!("{m:?} in {}", what()), || DynamicGenericInt::<T, U>::encrypt_secret(m, &k.enc, &k.sk, n))?;
        refused(|| format!("{m:?} trivially in {}", what()), || DynamicGenericInt::<T, U>::trivial(m, &k.enc, &k.eval, n))?;
        c.count("refused", 2);
    }
    c.evals += 1;
    c.key(hash_u64s(&[n as u64, U::SIGNED as u64, hash_bytes(name.as_bytes())]));
    Ok(())
}
fn ints(c: &mut Case) -> Res {
    match c.rng.usize(10) {
        0 => ints_of::<L0LweCiphertext, Unsigned>(c, "L0Lwe"),
        1 => ints_of::<L0LweCiphertext, Signed>(c, "L0Lwe"),
        2 => ints_of::<L1LweCiphertext, Unsigned>(c, "L1Lwe"),
        3 => ints_of::<L1LweCiphertext, Signed>(c, "L1Lwe"),
        4 => ints_of::<L1GlweCiphertext, Unsigned>(c, "L1Glwe"),
        5 => ints_of::<L1GlweCiphertext, Signed>(c, "L1Glwe"),
        6 => ints_of::<L1GgswCiphertext, Unsigned>(c, "L1Ggsw"),
        7 => ints_of::<L1GgswCiphertext, Signed>(c, "L1Ggsw"),
        8 => ints_of::<L1GlevCiphertext, Unsigned>(c, "L1Glev"),
        _ => ints_of::<L1GlevCiphertext, Signed>(c, "L1Glev"),
    }
}

fn static_of<const N: usize, T: CiphertextOps, U: Values>(c: &mut Case) -> Res {
    let k = pick(c, false);
    let v = U::fits(&mut c.rng, N);
    let what = || format!("static {N} bits, signed {}", U::SIGNED);
    val_eq::<U>(GenericInt::<N, T, U>::encrypt_secret(v, &k.enc, &k.sk).decrypt(&k.enc, &k.sk), v, &what)?;
    let t = GenericInt::<N, T, U>::trivial(v, &k.enc, &k.eval);
    val_eq::<U>(t.decrypt(&k.enc, &k.sk), v, &|| format!("trivial {}", what()))?;
    let d: DynamicGenericInt<T, U> = t.into();
    ck_eq!(c, d.bits.len(), N, "{}", what());
    val_eq::<U>(GenericInt::<N, T, U>::from(DynamicGenericInt::<T, U>::from_bits_shallow(d.bits.clone())).decrypt(&k.enc, &k.sk), v, &|| format!("converted {}", what()))?;
    let mut short = d.bits.clone();
    short.pop();
    refused(|| format!("{} bits as {}", N - 1, what()), || GenericInt::<N, T, U>::from(DynamicGenericInt::<T, U>::from_bits_shallow(short)))?;
    if let Some(m) = U::misfits(&mut c.rng, N) {
        refused(|| format!("{m:?} in {}", what()), || GenericInt::<N, T, U>::encrypt_secret(m, &k.enc, &k.sk))?;
        refused(|| format!("{m:?} trivially in {}", what()), || GenericInt::<N, T, U>::trivial(m, &k.enc, &k.eval))?;
    }
    let k = pick(c, true);
    val_eq::<U>(GenericInt::<N, L1GlweCiphertext, U>::encrypt(v, &k.enc, &k.pk).decrypt(&k.enc, &k.sk), v, &|| format!("public {}", what()))?;
    if let Some(m) = U::misfits(&mut c.rng, N) {
        refused(|| format!("{m:?} publicly in {}", what()), || GenericInt::<N, L1GlweCiphertext, U>::encrypt(m, &k.enc, &k.pk))?;
    }
    if deg(k) > N {
        let p = PackedGenericInt::<N, L1GlweCiphertext, U>::encrypt(v, &k.enc, &k.pk);
        val_eq::<U>(p.decrypt(&k.enc, &k.sk), v, &|| format!("packed {}", what()))?;
        let d: PackedDynamicGenericInt<L1GlweCiphertext, U> = p.into();
        val_eq::<U>(d.decrypt(&k.enc, &k.sk), v, &|| format!("converted packed {}", what()))?;
        val_eq::<U>(PackedGenericInt::<N, L1GlweCiphertext, U>::from(d).decrypt(&k.enc, &k.sk), v, &|| format!("reconverted packed {}", what()))?;
        val_eq::<U>(PackedGenericInt::<N, L1GlweCiphertext, U>::trivial_encrypt(v, &k.enc).decrypt(&k.enc, &k.sk), v, &|| format!("trivial packed {}", what()))?;
        if let Some(m) = U::misfits(&mut c.rng, N) {
            refused(|| format!("{m:?} in packed {}", what()), || PackedGenericInt::<N, L1GlweCiphertext, U>::encrypt(m, &k.enc, &k.pk))?;
            refused(|| format!("{m:?} in trivial packed {}", what()), || PackedGenericInt::<N, L1GlweCiphertext, U>::trivial_encrypt(m, &k.enc))?;
        }
        c.count("packed", 1);
    }
    c.evals += 1;
    c.key(hash_u64s(&[N as u64, U::SIGNED as u64]));
    Ok(())
}
fn statics(c: &mut Case) -> Res {
    macro_rules! go { ($($i:literal $n:literal),*) => { match c.idx % 20 { $( $i => { if c.idx / 20 % 2 == 0 { static_of::<$n, L1GlweCiphertext, Unsigned>(c) } else { static_of::<$n, L0LweCiphertext, Signed>(c) } } )* _ => { if c.rng.bool() { static_of::<8, L1GgswCiphertext, Signed>(c) } else { static_of::<9, L1LweCiphertext, Unsigned>(c) } } } } }
    go!(0 1, 1 2, 2 7, 3 8, 4 15, 5 16, 6 31, 7 32, 8 33, 9 63, 10 64, 11 65, 12 127, 13 128, 14 129, 15 192, 16 256, 17 3, 18 5)
}

fn packed_of<U: Values>(c: &mut Case) -> Res {
    let k = pick(c, true);
    let d = deg(k);
    let n = if c.rng.chance(1, 4) { d - 1 } else { 1 + c.rng.usize(d - 1) };
    let v = U::fits(&mut c.rng, n);
    let what = || format!("{n} bits packed in degree {d}, signed {}", U::SIGNED);
    type P<U> = PackedDynamicGenericInt<L1GlweCiphertext, U>;
    let x = P::<U>::encrypt(v, &k.enc, &k.pk, n);
    val_eq::<U>(x.decrypt(&k.enc, &k.sk), v, &what)?;
    // one bit per coefficient, least significant first, and nothing else
    let poly = k.enc.decrypt_glwe_l1(&x.inner(), &k.sk);
    for (i, b) in poly.coeffs().iter().enumerate() {
        ck_eq!(c, *b, (i < n && U::bit(v, i)) as u64, "{}: coefficient {i} of {v:?}", what());
    }
    val_eq::<U>(P::<U>::from((n as u32, x.inner())).decrypt(&k.enc, &k.sk), v, &|| format!("rebuilt {}", what()))?;
    let t = P::<U>::trivial_encrypt(v, &k.enc, n);
    val_eq::<U>(t.decrypt(&k.enc, &k.sk), v, &|| format!("trivial {}", what()))?;
    if let Some(m) = U::misfits(&mut c.rng, n) {
        refused(|| format!("{m:?} in {}", what()), || P::<U>::encrypt(m, &k.enc, &k.pk, n))?;
        refused(|| format!("{m:?} in trivial {}", what()), || P::<U>::trivial_encrypt(m, &k.enc, n))?;
        c.count("refused", 2);
    }
    // a one time pad hides the value from who decrypts, until it is taken off
    let (public, secret) = generate_one_time_pad(&k.params, &k.enc, &k.pk);
    let (other_p, other_s) = generate_one_time_pad(&k.params, &k.enc, &k.pk);
    let r = x.recrypt(&k.enc, &k.eval, &public).decrypt(&k.enc, &k.sk);
    val_eq::<U>(r.decrypt(&secret), v, &|| format!("recrypted {}", what()))?;
    let q = x.recrypt(&k.enc, &k.eval, &other_p).decrypt(&k.enc, &k.sk);
    val_eq::<U>(q.decrypt(&other_s), v, &|| format!("recrypted again {}", what()))?;
    // with pads of d random bits the wrong one gives the value back once in 2^n
    if n >= 64 && n <= 128 {
        ck!(c, r.decrypt(&other_s) != v, "{}: any pad takes off the pad", what());
        c.count("pads told apart", 1);
    }
    c.evals += 1;
    c.key(hash_u64s(&[d as u64, n as u64, U::SIGNED as u64]));
    Ok(())
}
fn packed(c: &mut Case) -> Res {
    if c.rng.bool() { packed_of::<Unsigned>(c) } else { packed_of::<Signed>(c) }
}

/// One time pads are uniform bits: masked plaintexts of a fixed value look like coin flips.
fn pads(c: &mut Case) -> Res {
    let k = pick(c, true);
    let n = deg(k);
    let eval = KeylessEvaluation::new(&k.params, &k.enc);
    let msg = Polynomial::new(&(0..n).map(|_| c.rng.below(2)).collect::<Vec<u64>>());
    let ct = k.enc.encrypt_rlwe_l1(&msg, &k.pk);
    let runs = 1 + 4096 / n;
    let mut ones = 0u64;
    let mut last: Option<Polynomial<u64>> = None;
    for _ in 0..runs {
        let (p, s) = generate_one_time_pad(&k.params, &k.enc, &k.pk);
        let masked = k.enc.decrypt_glwe_l1(&recrypt_one_time_pad(&ct, &p, &eval, &k.enc), &k.sk);
        ones += masked.coeffs().iter().sum::<u64>();
        let back = decrypt_one_time_pad(&masked, &s);
        if back.coeffs() != msg.coeffs() {
            fail!("degree {n}: {:?} comes back as {:?}", Short(&msg.coeffs()), Short(&back.coeffs()));
        }
        if let (Some(l), true) = (&last, n >= 64) {
            ck!(c, l.coeffs() != masked.coeffs(), "two pads of {n} bits are equal");
        }
        last = Some(masked);
        c.evals += 1;
    }
    // eight standard deviations: a false alarm once in 10^15
    let total = (runs * n) as f64;
    let dev = (ones as f64 - total / 2.0).abs() / (total / 4.0).sqrt();
    c.max("pad deviation", dev);
    ck!(c, dev < 8.0, "pads of degree {n}: {ones} ones among {total} masked bits");
    c.key(n as u64);
    Ok(())
}

fn main() {
    let _: Option<R<()>> = None;
    let mut c = Ctx::new("C34");
    c.section("bits of every kind", 400, 8000, bits);
    c.section("polynomials", 1500, 30000, polys);
    c.section("integers", 900, 30000, ints);
    c.section("integers of static width", 1200, 24000, statics);
    c.section("packed integers and pads", 3000, 60000, packed);
    c.section("pads are uniform", 120, 3000, pads);
    c.finish();
}
