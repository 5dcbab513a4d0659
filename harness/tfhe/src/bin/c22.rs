//! C22: invalid parameters and mis-sized data are rejected.
use std::collections::BTreeMap;
use std::sync::Mutex;
use vtfhe::ops::*;
use vtfhe::*;

/// survey mode: collect instead of failing
static SURVEY: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
fn accepted(survey: bool, key: String, msg: String) -> Res {
    if survey {
        *SURVEY.lock().unwrap().entry(key).or_insert(0) += 1;
        return Ok(());
    }
    fail!("{msg}")
}
fn lengths<S: Word>(c: &mut Case, which: usize, survey: bool) -> Res {
    if NAMES[which] == "polynomial_shr_round" {
        // shifts the coefficients both have: an existing test passes a longer source
        return Ok(());
    }
    let small = c.rng.bool();
    let inst = gen_op::<S>(&mut c.rng, which, small);
    // as generated: accepted
    let mut s = inst.slots.clone();
    if let Err(e) = quiet_catch(|| (inst.run)(&mut s)) {
        fail!("{}: valid sizes rejected: {e}", inst.desc)
    }
    c.evals += 1;
    for i in 0..inst.slots.len() {
        let (n, unit, name) = (inst.slots[i].len(), inst.slots[i].unit, inst.slots[i].name);
        if n == 0 || unit == 0 {
            continue;
        }
        let r = &mut c.rng;
        let mut tries = vec![0, n - 1, n + 1, n.saturating_sub(unit), n + unit, 2 * n, n / 2, n - 1 - r.usize(n), n + 1 + r.usize(n)];
        tries.sort();
        tries.dedup();
        for t in tries {
            if t == n {
                continue;
            }
            let mut s = inst.slots.clone();
            s[i].resize(&mut c.rng, t);
            let ok = quiet_catch(|| (inst.run)(&mut s)).is_ok();
            c.evals += 1;
            if ok {
                let d = if t < n { "short" } else { "long" };
                accepted(survey, format!("{} / {name} / {d}", inst.name), format!("{}: {name} of length {t} instead of {n} is accepted", inst.desc))?;
            }
            c.count("wrong lengths", 1);
        }
    }
    c.key(hash_bytes(inst.desc.as_bytes()));
    c.describe(format!("lengths of {}", inst.desc));
    Ok(())
}
const PARAMS: [&str; 8] = ["glwe", "second glwe", "lwe", "second lwe", "radix", "second radix", "third radix", "fourth radix"];
fn rad(p: &mut Par, i: usize) -> &mut RadixDecomposition {
    match i {
        4 => &mut p.r,
        5 => &mut p.r2,
        6 => &mut p.r3,
        _ => &mut p.r4,
    }
}
/// a different valid value
fn other(p: &Par, i: usize) -> Par {
    let mut q = *p;
    match i {
        0 => q.g = gdef(gk(&p.g) + 1, gn(&p.g), 0.0),
        1 => q.g2 = gdef(gk(&p.g2) + 1, gn(&p.g2), 0.0),
        2 => q.l = ldef(p.l.dim.0 + 1, 0.0),
        3 => q.l2 = ldef(p.l2.dim.0 + 1, 0.0),
        _ => {
            let r = rad(&mut q, i);
            *r = rdef(rl(r) + 1, 1);
        }
    }
    q
}
fn invalid(r: &mut Rng, p: &Par, i: usize, bits: usize) -> (Par, String) {
    let mut q = *p;
    let what;
    match i {
        0 | 1 => {
            let g = if i == 0 { &mut q.g } else { &mut q.g2 };
            if r.bool() {
                *g = gdef(0, gn(g), g.std.0);
            } else {
                let n = if gn(g) >= 16 { r.pick(&[24usize, 48, 17, 40]) } else { r.pick(&[3usize, 5, 6, 12]) };
                *g = gdef(gk(g), n, g.std.0);
            }
            what = format!("size {} degree {}", gk(g), gn(g));
        }
        2 => {
            q.l = ldef(0, p.l.std.0);
            what = "dimension 0".into();
        }
        3 => {
            q.l2 = ldef(0, p.l2.std.0);
            what = "dimension 0".into();
        }
        _ => {
            let x = rad(&mut q, i);
            *x = match r.below(4) {
                0 => rdef(0, rb(x)),
                1 => rdef(rl(x), 0),
                2 => rdef(1, bits + 1 + r.usize(4)),
                _ => {
                    let c = 2 + r.usize(3);
                    rdef(c, bits / c + 1)
                }
            };
            what = format!("{} digits of {} bits", rl(x), rb(x));
        }
    }
    (q, what)
}
fn params<S: Word>(c: &mut Case, which: usize, survey: bool) -> Res {
    let p = op_par::<S>(&mut c.rng, which, true);
    let seed = c.rng.u64();
    let base = gen_op_par::<S>(&mut Rng::new(seed), which, p);
    let shape = |i: &Inst<S>| i.slots.iter().map(|s| s.len()).collect::<Vec<_>>();
    for i in 0..8 {
        // parameters some operations don't take (the harness only uses them to size the data)
        let not_taken = match base.name {
            "lwe operators" | "glwe operators" | "lwe key operators" | "glwe key operators" | "clone_from_ref" => true,
            "glev fft" | "glev ifft" => i >= 4,
            "bootstrap key ifft" => i == 2,
            "glev_cmux" => i == 5,
            _ => base.name.starts_with("polynomial"),
        };
        if not_taken {
            continue;
        }
        // a parameter the operation takes changes the size of something
        let q = other(&p, i);
        let used = match quiet_catch(|| gen_op_par::<S>(&mut Rng::new(seed), which, q)) {
            Ok(x) => shape(&x) != shape(&base),
            Err(_) => true,
        };
        if !used {
            continue;
        }
        for _ in 0..3 {
            let (q, what) = invalid(&mut c.rng, &p, i, S::W as usize);
            let Ok(inst) = quiet_catch(|| gen_op_par::<S>(&mut Rng::new(seed), which, q)) else { continue };
            // with the sizes the invalid parameters would have, and with those of the valid ones
            for natural in [true, false] {
                let mut s = if natural { inst.slots.clone() } else { base.slots.clone() };
                let ok = quiet_catch(|| (inst.run)(&mut s)).is_ok();
                c.evals += 1;
                if ok {
                    accepted(survey, format!("{} / {} {}", inst.name, PARAMS[i], if what.contains("dig") && !what.starts_with("0") && !what.contains("of 0") { "wide".into() } else { what.clone() }), format!("{}: {} of {what} is accepted", inst.desc, PARAMS[i]))?;
                }
            }
            c.count("invalid parameters", 1);
        }
    }
    c.key(hash_bytes(base.desc.as_bytes()));
    c.describe(format!("parameters of {}", base.name));
    Ok(())
}
/// plaintext widths that don't fit the word
fn widths<S: Word>(c: &mut Case, survey: bool) -> Res {
    use sunscreen_tfhe::{entities::*, ops::encryption as en};
    let bits = S::W;
    let valid = c.rng.chance(3, 10);
    // valid: accepted; otherwise not
    let b = if valid { 1 + c.rng.below(4) as u32 } else { bits + c.rng.below(3) as u32 * (1 + c.rng.below(64) as u32) };
    let pb = PlaintextBits(b);
    let k = 1 + c.rng.usize(2);
    let n = 16 << c.rng.usize(3);
    let g = gdef(k, n, 0.0);
    let l = ldef(1 + c.rng.usize(20), 0.0);
    let r = rdef(1 + c.rng.usize(2), 1 + c.rng.usize(8));
    let lsk: LweSecretKey<S> = LweSecretKey::<S>::generate_binary(&l);
    let gsk: GlweSecretKey<S> = GlweSecretKey::<S>::generate_binary(&g);
    let lct = LweCiphertext::<S>::zero(&l);
    let gct = GlweCiphertext::<S>::new(&g);
    let one: S = S::from_u64(1);
    let msg: Polynomial<S> = Polynomial::new(&vec![one; n]);
    let which = c.rng.usize(16);
    let x = Torus::<S>::from(S::from_u64(c.rng.u64()));
    let (name, res) = match which {
        0 => ("Torus::encode", quiet_catch(|| drop(Torus::<S>::encode(one, pb)))),
        1 => ("Torus::decode", quiet_catch(|| drop(x.decode(pb)))),
        2 => ("LweSecretKey::encrypt", quiet_catch(|| drop(lsk.encrypt(one, &l, pb)))),
        3 => ("LweSecretKey::decrypt", quiet_catch(|| drop(lsk.decrypt(&lct, &l, pb)))),
        4 => ("encode_and_encrypt_lwe_ciphertext", quiet_catch(|| drop(en::encode_and_encrypt_lwe_ciphertext(&mut LweCiphertext::<S>::zero(&l), &lsk, one, &l, pb)))),
        5 => ("GlweSecretKey::encode_encrypt_glwe", quiet_catch(|| drop(gsk.encode_encrypt_glwe(&msg, &g, pb)))),
        6 => ("GlweSecretKey::decrypt_decode_glwe", quiet_catch(|| drop(gsk.decrypt_decode_glwe(&gct, &g, pb)))),
        7 => ("GlweSecretKey::encode_encrypt_ggsw", quiet_catch(|| drop(gsk.encode_encrypt_ggsw(&msg, &g, &r, pb)))),
        8 => ("encrypt_ggsw_ciphertext_scalar", quiet_catch(|| en::encrypt_ggsw_ciphertext_scalar(&mut GgswCiphertext::new(&g, &r), one, &gsk, &g, &r, pb))),
        9 => ("UnivariateLookupTable::trivial_from_fn", quiet_catch(|| drop(UnivariateLookupTable::<S>::trivial_from_fn(|x| x & 1, &g, pb)))),
        10 => ("UnivariateLookupTable::fill_with_constant", quiet_catch(|| UnivariateLookupTable::<S>::trivial_from_fn(|x| x, &g, PlaintextBits(1)).fill_with_constant(one, &g, pb))),
        11 => ("BivariateLookupTable::fill_with_constant", quiet_catch(|| BivariateLookupTable::<S>::trivial_from_fn(|a, _| a, &g, PlaintextBits(1), CarryBits(1)).fill_with_constant(one, &g, pb))),
        12 => ("BivariateLookupTable::trivial_from_fn", quiet_catch(|| drop(BivariateLookupTable::<S>::trivial_from_fn(|a, b| (a ^ b) & 1, &g, if valid { PlaintextBits(1 + b % 2) } else { pb }, CarryBits(if valid { 2 } else { b as usize as _ }))))),
        13 => ("LwePublicKey::encrypt", quiet_catch(|| drop(LwePublicKey::<S>::generate(&lsk, &l).encrypt(one, &l, pb)))),
        14 => ("trivially_encrypt_ggsw_ciphertext", quiet_catch(|| en::trivially_encrypt_ggsw_ciphertext(&mut GgswCiphertext::new(&g, &r), &msg, &g, &r, pb))),
        _ => ("encrypt_ggsw_ciphertext", quiet_catch(|| en::encrypt_ggsw_ciphertext(&mut GgswCiphertext::new(&g, &r), &msg, &gsk, &g, &r, pb))),
    };
    match (valid, res) {
        (true, Err(e)) => fail!("{name}: {b} plaintext bits rejected (N = {n}): {e}"),
        (false, Ok(())) => accepted(survey, format!("{name} / width"), format!("{name}: {b} plaintext bits accepted in a word of {bits}"))?,
        _ => {}
    }
    c.count(if valid { "valid widths" } else { "invalid widths" }, 1);
    c.evals += 1;
    c.key(((which as u64) << 32) | b as u64);
    c.describe(format!("width {b} for {name}"));
    Ok(())
}
/// Data of every kind for one choice of parameters, and the high level functions over it.
struct W {
    p: Par,
    pb: PlaintextBits,
    x: sunscreen_tfhe::entities::Polynomial<u64>,
    lsk: sunscreen_tfhe::entities::LweSecretKey<u64>,
    lsk2: sunscreen_tfhe::entities::LweSecretKey<u64>,
    gsk: sunscreen_tfhe::entities::GlweSecretKey<u64>,
    lpk: sunscreen_tfhe::entities::LwePublicKey<u64>,
    /// only without more than one mask polynomial
    rpk: Option<sunscreen_tfhe::entities::RlwePublicKey<u64>>,
    lct: sunscreen_tfhe::entities::LweCiphertext<u64>,
    gct: sunscreen_tfhe::entities::GlweCiphertext<u64>,
    glev: sunscreen_tfhe::entities::GlevCiphertext<u64>,
    ggsw: sunscreen_tfhe::entities::GgswCiphertext<u64>,
    ggsw_fft: sunscreen_tfhe::entities::GgswCiphertextFft<C64>,
    bsk: sunscreen_tfhe::entities::BootstrapKey<u64>,
    bsk_fft: sunscreen_tfhe::entities::BootstrapKeyFft<C64>,
    ksk: sunscreen_tfhe::entities::LweKeyswitchKey<u64>,
    ssk: sunscreen_tfhe::entities::SchemeSwitchKey<u64>,
    ssk_fft: sunscreen_tfhe::entities::SchemeSwitchKeyFft<C64>,
    ak: sunscreen_tfhe::entities::AutomorphismKey<u64>,
    ak_fft: sunscreen_tfhe::entities::AutomorphismKeyFft<C64>,
    lut: sunscreen_tfhe::entities::UnivariateLookupTable<u64>,
}
impl W {
    fn new(p: Par) -> W {
        use sunscreen_tfhe::{entities::*, high_level::*};
        let pb = PlaintextBits(1);
        let x: Polynomial<u64> = Polynomial::new(&(0..gn(&p.g) as u64).map(|i| i & 1).collect::<Vec<_>>());
        let lsk = keygen::generate_binary_lwe_sk(&p.l);
        let lsk2 = keygen::generate_binary_lwe_sk(&p.l2);
        let gsk = keygen::generate_binary_glwe_sk(&p.g);
        let ggsw = encryption::encrypt_ggsw(1, &gsk, &p.g, &p.r, pb);
        let bsk = keygen::generate_bootstrapping_key(&lsk, &gsk, &p.l, &p.g, &p.r);
        let ssk = keygen::generate_scheme_switch_key(&gsk, &p.g, &p.r3);
        let ak = keygen::generate_automorphism_key(&gsk, &p.g, &p.r2);
        W {
            lpk: keygen::generate_lwe_pk(&lsk, &p.l),
            rpk: (gk(&p.g) == 1).then(|| keygen::generate_rlwe_public_key(&gsk, &p.g)),
            lct: encryption::encrypt_lwe_secret(1, &lsk, &p.l, pb),
            gct: encryption::encrypt_glwe(&x, &gsk, &p.g, pb),
            glev: encryption::encrypt_binary_msg_secret_glev(&x, &gsk, &p.g, &p.r),
            ggsw_fft: fft::fft_ggsw(&ggsw, &p.g, &p.r),
            bsk_fft: fft::fft_bootstrap_key(&bsk, &p.l, &p.g, &p.r),
            ksk: keygen::generate_ksk(&lsk, &lsk2, &p.l, &p.l2, &p.r),
            ssk_fft: fft::fft_scheme_switch_key(&ssk, &p.g, &p.r3),
            ak_fft: fft::fft_automorphism_key(&ak, &p.g, &p.r2),
            lut: UnivariateLookupTable::trivial_from_fn(|x| x, &p.g, pb),
            p, pb, x, lsk, lsk2, gsk, ggsw, bsk, ssk, ak,
        }
    }
}
/// name, operands, parameters that size an operand, parameters that only size the result, whether there's a width, the call
type High = (&'static str, usize, &'static [usize], &'static [usize], bool, fn(&dyn Fn(usize) -> *const W, &Par, PlaintextBits));
macro_rules! high {
    ($($name:literal, $ops:expr, $sizes:expr, $only:expr, $width:expr, |$o:ident, $p:ident, $b:ident| $e:expr;)*) => {
        &[$(($name, $ops, &$sizes, &$only, $width, |$o: &dyn Fn(usize) -> *const W, $p: &Par, $b: PlaintextBits| {
            #[allow(unused_variables)]
            let $o = |i: usize| unsafe { &*$o(i) };
            let _ = $b;
            drop($e);
        })),*]
    };
}
const G: usize = 0;
const L: usize = 2;
const L2: usize = 3;
const R: usize = 4;
const R2: usize = 5;
const R3: usize = 6;
const R4: usize = 7;
use sunscreen_tfhe::high_level::{encryption as he, evaluation as hv, fft as hf, keygen as hk};
const HIGH: &[High] = high! {
    "generate_binary_lwe_sk", 0, [], [L], false, |o, p, b| hk::generate_binary_lwe_sk(&p.l);
    "generate_uniform_lwe_sk", 0, [], [L], false, |o, p, b| hk::generate_uniform_lwe_sk(&p.l);
    "generate_lwe_pk", 1, [L], [], false, |o, p, b| hk::generate_lwe_pk(&o(0).lsk, &p.l);
    "generate_binary_glwe_sk", 0, [], [G], false, |o, p, b| hk::generate_binary_glwe_sk(&p.g);
    "generate_uniform_glwe_sk", 0, [], [G], false, |o, p, b| hk::generate_uniform_glwe_sk(&p.g);
    "generate_bootstrapping_key", 2, [L, G], [R], false, |o, p, b| hk::generate_bootstrapping_key(&o(0).lsk, &o(1).gsk, &p.l, &p.g, &p.r);
    "generate_ksk", 2, [L, L2], [R], false, |o, p, b| hk::generate_ksk(&o(0).lsk, &o(1).lsk2, &p.l, &p.l2, &p.r);
    "generate_cbs_ksk", 2, [L, G], [R], false, |o, p, b| hk::generate_cbs_ksk(&o(0).lsk, &o(1).gsk, &p.l, &p.g, &p.r);
    "generate_rlwe_public_key", 1, [G], [], false, |o, p, b| hk::generate_rlwe_public_key(&o(0).gsk, &p.g);
    "generate_scheme_switch_key", 1, [G], [R], false, |o, p, b| hk::generate_scheme_switch_key(&o(0).gsk, &p.g, &p.r);
    "generate_automorphism_key", 1, [G], [R], false, |o, p, b| hk::generate_automorphism_key(&o(0).gsk, &p.g, &p.r);
    "encrypt_lwe_secret", 1, [L], [], true, |o, p, b| he::encrypt_lwe_secret(1, &o(0).lsk, &p.l, b);
    "encrypt_lwe_secret_and_return_randomness", 1, [L], [], true, |o, p, b| he::encrypt_lwe_secret_and_return_randomness(1, &o(0).lsk, &p.l, b);
    "encrypt_lwe", 1, [L], [], true, |o, p, b| he::encrypt_lwe(1, &o(0).lpk, &p.l, b);
    "encrypt_lwe_and_return_randomness", 1, [L], [], true, |o, p, b| he::encrypt_lwe_and_return_randomness(1, &o(0).lpk, &p.l, b);
    "encrypt_glwe", 2, [G], [], true, |o, p, b| he::encrypt_glwe(&o(0).x, &o(1).gsk, &p.g, b);
    "trivial_lwe", 0, [], [L], true, |o, p, b| he::trivial_lwe(1, &p.l, b);
    "decrypt_lwe", 2, [L], [], true, |o, p, b| he::decrypt_lwe(&o(0).lct, &o(1).lsk, &p.l, b);
    "decrypt_lwe_with_carry", 2, [L], [], true, |o, p, b| he::decrypt_lwe_with_carry(&o(0).lct, &o(1).lsk, &p.l, b, CarryBits(1));
    "decrypt_glwe", 2, [G], [], true, |o, p, b| he::decrypt_glwe(&o(0).gct, &o(1).gsk, &p.g, b);
    "trivial_glwe", 1, [G], [], true, |o, p, b| he::trivial_glwe(&o(0).x, &p.g, b);
    "encrypt_ggsw", 1, [G], [R], true, |o, p, b| he::encrypt_ggsw(1, &o(0).gsk, &p.g, &p.r, b);
    "decrypt_ggsw", 2, [G, R], [], false, |o, p, b| he::decrypt_ggsw(&o(0).ggsw, &o(1).gsk, &p.g, &p.r, b);
    "encrypt_binary_msg_secret_glev", 2, [G], [R], false, |o, p, b| he::encrypt_binary_msg_secret_glev(&o(0).x, &o(1).gsk, &p.g, &p.r);
    "trivial_binary_glev", 1, [G], [R], false, |o, p, b| he::trivial_binary_glev(&o(0).x, &p.g, &p.r);
    "encrypt_binary_msg_rlev", 2, [G], [R], false, |o, p, b| he::encrypt_binary_msg_rlev(&o(0).x, o(1).rpk.as_ref().unwrap(), &p.g, &p.r);
    "fft_glwe", 1, [G], [], false, |o, p, b| hf::fft_glwe(&o(0).gct, &p.g);
    "fft_ggsw", 1, [G, R], [], false, |o, p, b| hf::fft_ggsw(&o(0).ggsw, &p.g, &p.r);
    "fft_bootstrap_key", 1, [L, G, R], [], false, |o, p, b| hf::fft_bootstrap_key(&o(0).bsk, &p.l, &p.g, &p.r);
    "fft_scheme_switch_key", 1, [G, R3], [], false, |o, p, b| hf::fft_scheme_switch_key(&o(0).ssk, &p.g, &p.r3);
    "fft_automorphism_key", 1, [G, R2], [], false, |o, p, b| hf::fft_automorphism_key(&o(0).ak, &p.g, &p.r2);
    "cmux", 3, [G, R], [], false, |o, p, b| hv::cmux(&o(0).ggsw_fft, &o(1).gct, &o(2).gct, &p.g, &p.r);
    "glev_cmux", 3, [G, R], [], false, |o, p, b| hv::glev_cmux(&o(0).ggsw_fft, &o(1).glev, &o(2).glev, &p.g, &p.r);
    "univariate_programmable_bootstrap", 3, [L, G, R], [], false, |o, p, b| hv::univariate_programmable_bootstrap(&o(0).lct, &o(1).lut, &o(2).bsk_fft, &p.l, &p.g, &p.r);
    "circuit_bootstrap", 4, [L, G, R, R2, R3], [R4], false, |o, p, b| hv::circuit_bootstrap(&o(0).lct, &o(1).bsk_fft, &o(2).ak_fft, &o(3).ssk_fft, &p.l, &p.g, &p.r, &p.r2, &p.r3, &p.r4);
    "keyswitch_lwe_to_lwe", 2, [L, L2, R], [], false, |o, p, b| hv::keyswitch_lwe_to_lwe(&o(0).lct, &o(1).ksk, &p.l, &p.l2, &p.r);
    "sample_extract", 1, [G], [], false, |o, p, b| hv::sample_extract(&o(0).gct, &p.g, gn(&p.g) - 1);
};
/// Every high level function over data of the right parameters, of others, and with other or invalid parameters.
fn high_level(c: &mut Case, survey: bool) -> Res {
    let mut p = gen_par::<u64>(&mut c.rng, 4, true);
    // the last level's message of circuit bootstrapping sits one bit below the radix digits
    p.r4 = rdef(1 + c.rng.usize(3), 1 + c.rng.usize(8));
    if c.rng.bool() {
        p.g = gdef(1, gn(&p.g), p.g.std.0);
    }
    let mut q = p;
    for i in 0..8 {
        q = other(&q, i);
    }
    let wider = gdef(gk(&p.g), 2 * gn(&p.g), p.g.std.0);
    let degree = c.rng.bool();
    // the data of polynomials alone depends on the degree only
    let other = |p: &Par, i: usize, degree: bool| if i == G && degree { Par { g: wider, ..*p } } else { other(p, i) };
    let (a, b, d) = (W::new(p), W::new(q), W::new(Par { g: wider, ..q }));
    for (name, ops, sizes, only, width, run) in HIGH {
        if name.contains("rl") && gk(&p.g) != 1 {
            continue;
        }
        let poly = degree || name.contains("trivial") || name.contains("encrypt_glwe") || name.contains("binary_msg") || name.contains("rlwe");
        let right: &dyn Fn(usize) -> *const W = &|_| &a;
        let mut call = |from: &dyn Fn(usize) -> *const W, p: &Par, pb, accept: bool, what: &str| -> Res {
            c.evals += 1;
            let r = quiet_catch(|| run(from, p, pb));
            c.count(if accept { "valid calls" } else { "invalid calls" }, 1);
            match r {
                Err(e) if accept => fail!("{name} {what}: rejected: {e}"),
                Ok(()) if !accept => accepted(survey, format!("{name} {what}"), format!("{name} accepts {what}: {:?}", (gk(&p.g), gn(&p.g), p.l.dim.0, p.l2.dim.0, rl(&p.r)))),
                _ => Ok(()),
            }
        };
        call(right, &p, a.pb, true, "valid operands")?;
        for j in 0..*ops {
            call(&|i| if i != j { &a } else if poly { &d } else { &b }, &p, a.pb, false, &format!("operand {j} made for other parameters"))?;
        }
        for i in 0..8 {
            let (sized, taken) = (sizes.contains(&i), sizes.contains(&i) || only.contains(&i));
            if sized {
                call(right, &other(&p, i, poly), a.pb, false, &format!("another {}", PARAMS[i]))?;
            }
            if only.contains(&i) {
                call(right, &other(&p, i, true), a.pb, true, &format!("another {}", PARAMS[i]))?;
            }
            if taken {
                let (bad, what) = invalid(&mut Rng::new(p.l.dim.0 as u64 * 8 + i as u64 + gn(&p.g) as u64 + rb(&p.r2) as u64 * 1000), &p, i, 64);
                call(right, &bad, a.pb, false, &format!("{} of {}", PARAMS[i], if survey { "invalid value".into() } else { what }))?;
            }
        }
        if *width {
            for w in [64u32, 65, 100, u32::MAX] {
                call(right, &p, PlaintextBits(w), false, &format!("{w} plaintext bits"))?;
            }
        }
    }
    c.key(hash_bytes(format!("{:?}", (gk(&p.g), gn(&p.g), p.l.dim.0, p.l2.dim.0, rl(&p.r), rb(&p.r))).as_bytes()));
    c.describe(format!("{} high level functions", HIGH.len()));
    Ok(())
}
/// Arguments that are neither parameters nor data: indices, counts, amounts.
fn arguments(c: &mut Case, survey: bool) -> Res {
    use sunscreen_tfhe::{CarryBits, entities::*, ops::{bootstrapping as bo, ciphertext as ct, keyswitch as ks}};
    type S = u64;
    let mut p = gen_par::<S>(&mut c.rng, 4, true);
    p.g2 = gdef(gk(&p.g2), 1 << c.rng.range(4, 7), 0.0);
    let (n, pb) = (gn(&p.g2), PlaintextBits(1));
    let r = &mut c.rng;
    let valid = r.chance(4, 10);
    let which = r.usize(9);
    let (l, g, rd) = (p.l, p.g2, p.r);
    let lsk: LweSecretKey<S> = LweSecretKey::<S>::generate_binary(&l);
    let gsk: GlweSecretKey<S> = GlweSecretKey::<S>::generate_binary(&g);
    let map = |o: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        for (o, x) in o.coeffs_mut().iter_mut().zip(x) {
            *o = *x;
        }
    };
    let (what, res) = match which {
        0 => {
            let h = if valid { r.usize(n) } else { n + r.usize(2 * n) * r.usize(2) };
            (format!("sample_extract of coefficient {h} of {n}"), quiet_catch(|| ct::sample_extract(&mut LweCiphertext::<S>::zero(&g.as_lwe_def()), &GlweCiphertext::<S>::new(&g), h, &g)))
        }
        1 => {
            let count = if valid { 1 + r.usize(3) } else { r.usize(4) };
            let mut used = if valid { count } else { r.usize(6) };
            if !valid && used == count && count > 0 {
                used += 1;
            }
            let c = sunscreen_tfhe::PrivateFunctionalKeyswitchLweCount(count);
            let key = PrivateFunctionalKeyswitchKey::<S>::new(&l, &g, &rd, &c);
            let cts: Vec<LweCiphertext<S>> = (0..used).map(|_| LweCiphertext::<S>::zero(&l)).collect();
            let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
            (format!("private functional keyswitch of {used} inputs with a key for {count}"), quiet_catch(|| ks::private_functional_keyswitch::private_functional_keyswitch(&mut GlweCiphertext::<S>::new(&g), &refs, &key, &l, &g, &rd, &c)))
        }
        2 => {
            let used = if valid { r.pick(&[1, n / 2, n - 1, n]) } else { n + 1 + r.usize(n) };
            let key = PublicFunctionalKeyswitchKey::<S>::new(&l, &g, &rd);
            let cts: Vec<LweCiphertext<S>> = (0..used).map(|_| LweCiphertext::<S>::zero(&l)).collect();
            let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
            (format!("public functional keyswitch of {used} inputs into {n} coefficients"), quiet_catch(|| ks::public_functional_keyswitch::public_functional_keyswitch(&mut GlweCiphertext::<S>::new(&g), &refs, &key, map, &l, &g, &rd)))
        }
        3 => {
            let amount = if valid { r.usize(n) } else { n + r.usize(2 * n) * r.usize(2) };
            (format!("blind rotation by {amount} of {n}"), quiet_catch(|| bo::generate_blind_rotation_shift(&mut BlindRotationShiftFft::new(&g, &rd), amount, &gsk, &g, &rd, pb)))
        }
        4 => {
            let b = n.ilog2();
            let b = if valid { 1 + r.usize(b as usize) as u32 } else { b + 1 + r.usize(3) as u32 };
            (format!("table of {} values in {n} coefficients", 1u64 << b), quiet_catch(|| drop(UnivariateLookupTable::<S>::trivial_from_fn(|x| x, &g, PlaintextBits(b)))))
        }
        5 => {
            let b = 1 + r.usize(3) as u32;
            let room = (n >> b) / 2;
            let v = if valid { if room < 2 { 0 } else { 2 + r.usize(1usize.max(room - 1)) } } else { r.pick(&[0, 1, room + 1, 2 * room, n, room + 1 + r.clone().usize(n)]) };
            let invalid_v = v < 2 || v > room;
            if valid == invalid_v {
                return Ok(());
            }
            let fs: Vec<fn(u64) -> u64> = vec![|x| x; v];
            (format!("table of {v} functions of {b} bits in {n} coefficients"), quiet_catch(|| drop(UnivariateLookupTable::<S>::trivivial_multifunctional(&fs, &g, PlaintextBits(b)))))
        }
        6 => {
            let count = if valid { 1 + r.usize(3) } else { 8 + r.usize(4) };
            let cbs = rdef(count, 2);
            let g = gdef(1, 128, 0.0);
            let (bsk, ak, ssk) = (BootstrapKeyFft::new(&l, &g, &rd), AutomorphismKeyFft::new(&g, &p.r2), SchemeSwitchKeyFft::new(&g, &p.r3));
            let x = LweCiphertext::<S>::zero(&l);
            (format!("circuit bootstrap into {count} levels"), quiet_catch(|| bo::circuit_bootstrap_via_trace_and_scheme_switch::<S>(&mut GgswCiphertextFft::new(&g, &cbs), &x, &bsk, &ak, &ssk, &l, &g, &rd, &p.r2, &p.r3, &cbs)))
        }
        7 => {
            let b = 1 + r.usize(40) as u32;
            let carry = if valid { r.usize(62 - b as usize) as u32 } else { 64 - b + r.usize(70) as u32 };
            let x = LweCiphertext::<S>::zero(&l);
            (format!("decrypting {b} bits and {carry} of carry"), quiet_catch(|| drop(he::decrypt_lwe_with_carry(&x, &lsk, &l, PlaintextBits(b), CarryBits(carry)))))
        }
        _ => {
            let levels = rl(&rd);
            let (a, b) = if valid { (levels, levels) } else { (levels, levels + 1 + r.usize(2)) };
            let x = GlevCiphertext::<S>::new(&g, &rdef(a, 1));
            let mut o = GlevCiphertext::<S>::new(&g, &rdef(b, 1));
            (format!("copy of {a} levels to {b}"), quiet_catch(|| o.clone_from_ref(&x)))
        }
    };
    c.evals += 1;
    match (valid, res) {
        (true, Err(e)) => fail!("{what}: rejected: {e}"),
        (false, Ok(())) => accepted(survey, format!("argument {which}: {}", what.split(char::is_numeric).next().unwrap()), format!("{what}: accepted"))?,
        _ => {}
    }
    c.count(if valid { "valid calls" } else { "invalid calls" }, 1);
    c.key(hash_bytes(what.as_bytes()));
    c.describe(what);
    Ok(())
}
fn main() {
    let survey = std::env::var("SURVEY").is_ok();
    let mut x = Ctx::new("C22");
    let n = NAMES.len() as u64;
    x.section("lengths", n * 1000, n * 60000, |c| {
        let w = (c.idx / 2 % n) as usize;
        either!(c, lengths, w, survey)
    });
    x.section("parameters", n * 1000, n * 60000, |c| {
        let w = (c.idx / 2 % n) as usize;
        either!(c, params, w, survey)
    });
    x.section("plaintext widths", 60000, 4000000, |c| either!(c, widths, survey));
    x.section("high level", 6000, 200_000, |c| high_level(c, survey));
    x.section("arguments", 20000, 600_000, |c| arguments(c, survey));
    if survey {
        for (k, v) in SURVEY.lock().unwrap().iter() {
            println!("S {v} {k}");
        }
    }
    x.finish()
}
