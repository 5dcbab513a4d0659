//! C11: LWE encryption and decryption.
use sunscreen_tfhe::high_level::{encryption as hl, keygen};
use sunscreen_tfhe::ops::encryption::*;
use vtfhe::*;

fn enc(m: u64, bits: u32, w: u32) -> u64 {
    (m << (w - bits)) & wmask(w)
}
fn pow2(e: f64) -> f64 {
    2f64.powf(e)
}
fn pick_std(c: &mut Case, bits: u32, total: f64) -> f64 {
    // 12 sigma of the accumulated noise stay below half a step
    if c.rng.chance(1, 3) { 0.0 } else { pow2(-(bits as f64) - 1.0 - c.rng.range(0, 12) as f64) / 12.0 / total.sqrt() }
}

fn secret<S: Word>(c: &mut Case) -> Res {
    let bits = c.rng.range(1, (S::W - 1) as u64) as u32;
    let n = gen_lwe(&mut c.rng, 900).dim.0;
    let std = pick_std(c, bits, 1.0);
    let p = ldef(n, std);
    let kind = c.rng.below(3) as u32;
    let (sv, sk) = lwe_sk::<S>(&mut c.rng, n, kind);
    let m = if c.rng.chance(1, 3) { c.rng.u64() & S::MASK } else { c.rng.edge(bits) & wmask(bits) };
    let pb = PlaintextBits(bits);
    let path = c.rng.below(3);
    let (raw, e, ct) = match path {
        0 => {
            let (ct, e) = sk.encrypt(S::of(m), &p, pb);
            (rawu::<S, _>(&*ct), e.inner().u(), ct)
        }
        1 => {
            let mut ct = tent!(S, &junk::<S>(&mut c.rng, n + 1), LweCiphertextRef<S>);
            let e = encode_and_encrypt_lwe_ciphertext(&mut ct, &sk, S::of(m), &p, pb);
            (rawu::<S, _>(&*ct), e.inner().u(), ct)
        }
        _ => {
            let mut ct = tent!(S, &junk::<S>(&mut c.rng, n + 1), LweCiphertextRef<S>);
            let e = encrypt_lwe_ciphertext(&mut ct, &sk, Torus::from(S::of(enc(m & wmask(bits), bits, S::W))), &p);
            (rawu::<S, _>(&*ct), e.inner().u(), ct)
        }
    };
    let want = enc(m & wmask(bits), bits, S::W);
    let ph = lwe_phase(&raw, &sv, S::MASK);
    ck_eq!(c, ph, want.wrapping_add(e) & S::MASK, "phase of a secret key encryption (n={n}, {bits} bits, path {path}) is not message plus the returned noise");
    let es = tabs(e, S::W) as f64 / pow2(S::W as f64);
    ck!(c, es <= 12.0 * std + pow2(-(S::W as f64)), "noise {es} exceeds twelve standard deviations of {std}");
    if std > 0.0 {
        c.max("noise/std", es / std);
    }
    ck_eq!(c, sk.decrypt_without_decode(&ct, &p).inner().u(), ph, "raw decryption n={n}");
    ck_eq!(c, sk.decrypt(&ct, &p, pb).u(), m & wmask(bits), "decryption (n={n}, {bits} bits, std {std})");
    // another key does not change what is needed: raw decryption is the phase under any key
    let (s2, k2) = lwe_sk::<S>(&mut c.rng, n, kind);
    ck_eq!(c, k2.decrypt_without_decode(&ct, &p).inner().u(), lwe_phase(&raw, &s2, S::MASK), "raw decryption under another key");
    c.key(hash_u64s(&[n as u64, bits as u64, m, kind as u64, path]));
    c.count(&format!("key-kind-{kind}"), 1);
    c.describe(format!("{} bit, n={n}, {bits} plaintext bits, key kind {kind}, std {std:e}, message {m}", S::W));
    Ok(())
}
fn public<S: Word>(c: &mut Case) -> Res {
    let bits = c.rng.range(1, (S::W - 1) as u64) as u32;
    let n = gen_lwe(&mut c.rng, 160).dim.0;
    let std = pick_std(c, bits, 2.0 * n as f64 + 1.0);
    let p = ldef(n, std);
    let kind = if std == 0.0 { c.rng.pick(&[0, 1, 2]) } else { 0 };
    let (sv, sk) = lwe_sk::<S>(&mut c.rng, n, kind);
    let pk = LwePublicKey::<S>::generate(&sk, &p);
    let pr = rawu::<S, _>(&*pk);
    ck_eq!(c, pr.len(), n * (n + 1), "public key length");
    let pph: Vec<u64> = pr.chunks(n + 1).map(|r| lwe_phase(r, &sv, S::MASK)).collect();
    let ulp = pow2(-(S::W as f64));
    for x in &pph {
        let e = tabs(*x, S::W) as f64 * ulp;
        ck!(c, e <= 12.0 * std + ulp, "public key row of phase {e} with std {std}, n={n}");
    }
    let pb = PlaintextBits(bits);
    for _ in 0..3 {
        let m = c.rng.edge(bits) & wmask(bits);
        let (ct, rnd) = pk.encrypt(S::of(m), &p, pb);
        ck_eq!(c, rnd.r.len(), n, "selection vector length");
        ck!(c, rnd.r.iter().all(|x| x.u() < 2), "selection vector is not binary");
        let e = rawu::<S, _>(&*rnd.e);
        let mut want = e.clone();
        for (z, r) in pr.chunks(n + 1).zip(&rnd.r) {
            if r.u() == 1 {
                want = addv(&want, z, S::MASK);
            }
        }
        want[n] = want[n].wrapping_add(enc(m, bits, S::W)) & S::MASK;
        let raw = rawu::<S, _>(&*ct);
        ck_eq!(c, raw, want, "public key encryption is not the combination of rows named by the returned randomness (n={n}, {bits} bits)");
        for x in &e {
            let v = tabs(*x, S::W) as f64 * ulp;
            ck!(c, v <= 12.0 * std + ulp, "public encryption noise {v} with std {std}");
        }
        ck_eq!(c, sk.decrypt(&ct, &p, pb).u(), m, "decryption of a public key encryption (n={n}, {bits} bits, std {std})");
    }
    c.key(hash_u64s(&[n as u64, bits as u64, kind as u64, pr[0]]));
    Ok(())
}
fn trivial<S: Word>(c: &mut Case) -> Res {
    let bits = c.rng.range(1, (S::W - 1) as u64) as u32;
    let n = gen_lwe(&mut c.rng, 1200).dim.0;
    let p = ldef(n, 0.01);
    let m = c.rng.edge(bits) & wmask(bits);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, n + 1), LweCiphertextRef<S>);
    let t = enc(m, bits, S::W);
    trivially_encrypt_lwe_ciphertext(&mut ct, &Torus::from(S::of(t)), &p);
    let mut want = vec![0; n + 1];
    want[n] = t;
    ck_eq!(c, rawu::<S, _>(&*ct), want, "trivial encryption n={n}");
    let (_, sk) = lwe_sk::<S>(&mut c.rng, n, 1);
    ck_eq!(c, sk.decrypt(&ct, &p, PlaintextBits(bits)).u(), m, "decryption of a trivial encryption n={n}");
    let ct2 = hl::trivial_lwe(m, &p, PlaintextBits(bits));
    let (_, sk) = lwe_sk::<u64>(&mut c.rng, n, 1);
    ck_eq!(c, hl::decrypt_lwe(&ct2, &sk, &p, PlaintextBits(bits)), m, "decryption of a trivial encryption (high level) n={n}");
    c.key(hash_u64s(&[n as u64, bits as u64, m]));
    Ok(())
}
/// messages with carry bits above them
fn carry(c: &mut Case) -> Res {
    let total = c.rng.range(1, 63) as u32;
    let pb = c.rng.range(1, total as u64) as u32;
    let cb = total - pb;
    let n = c.rng.range(1, 500) as usize;
    let std = pick_std(c, total, 1.0);
    let p = ldef(n, std);
    let sk = if c.rng.bool() { keygen::generate_binary_lwe_sk(&p) } else { keygen::generate_uniform_lwe_sk(&p) };
    let v = c.rng.edge(total) & wmask(total);
    // disturb the encoding by any error below half a step
    let mut ct = hl::encrypt_lwe_secret(v, &sk, &ldef(n, 0.0), PlaintextBits(total));
    let half = if total == 63 { 1u64 } else { 1u64 << (63 - total) };
    let err = match c.rng.below(4) {
        0 => half - 1,
        1 => half.wrapping_neg(),
        2 => 0,
        _ => c.rng.below(half).wrapping_sub(c.rng.below(half)),
    };
    let w = raw_mut::<u64, LweCiphertextRef<u64>>(&mut *ct);
    w[n] = w[n].wrapping_add(err);
    ck_eq!(c, hl::decrypt_lwe_with_carry(&ct, &sk, &p, PlaintextBits(pb), CarryBits(cb)), v & wmask(pb), "decryption below {cb} carry bits of a {pb} bit message, value {v}, error {err}");
    ck_eq!(c, hl::decrypt_lwe_with_carry(&ct, &sk, &p, PlaintextBits(total), CarryBits(0)), v, "decryption of message and carry");
    ck_eq!(c, hl::decrypt_lwe(&ct, &sk, &p, PlaintextBits(total)), v, "decryption of message and carry as one message");
    let ct = hl::encrypt_lwe_secret(v, &sk, &p, PlaintextBits(total));
    ck_eq!(c, hl::decrypt_lwe_with_carry(&ct, &sk, &p, PlaintextBits(pb), CarryBits(cb)), v & wmask(pb), "decryption below {cb} carry bits, std {std}");
    c.key(hash_u64s(&[pb as u64, cb as u64, v, err]));
    Ok(())
}
fn high(c: &mut Case) -> Res {
    let bits = c.rng.range(1, 16) as u32;
    let n = c.rng.range(1, 128) as usize;
    let std = pick_std(c, bits, 2.0 * n as f64 + 1.0);
    let p = ldef(n, std);
    let pb = PlaintextBits(bits);
    let sk = keygen::generate_binary_lwe_sk(&p);
    let sv = rawu::<u64, _>(&*sk);
    ck!(c, sv.len() == n && sv.iter().all(|x| *x < 2), "binary key");
    let m = c.rng.below(1 << bits);
    let a = hl::encrypt_lwe_secret(m, &sk, &p, pb);
    ck_eq!(c, hl::decrypt_lwe(&a, &sk, &p, pb), m, "high level secret key encryption");
    let (a, e) = hl::encrypt_lwe_secret_and_return_randomness(m, &sk, &p, pb);
    ck_eq!(c, lwe_phase(&rawu::<u64, _>(&*a), &sv, u64::MAX), enc(m, bits, 64).wrapping_add(e.inner()), "returned randomness");
    let pk = keygen::generate_lwe_pk(&sk, &p);
    let a = hl::encrypt_lwe(m, &pk, &p, pb);
    ck_eq!(c, hl::decrypt_lwe(&a, &sk, &p, pb), m, "high level public key encryption");
    let (a, r) = hl::encrypt_lwe_and_return_randomness(m, &pk, &p, pb);
    let mut want = rawu::<u64, _>(&*r.e);
    for (z, r) in rawu::<u64, _>(&*pk).chunks(n + 1).zip(&r.r) {
        want = addv(&want, &scalev(z, *r, u64::MAX), u64::MAX);
    }
    want[n] = want[n].wrapping_add(enc(m, bits, 64));
    ck_eq!(c, rawu::<u64, _>(&*a), want, "high level public key encryption and its randomness");
    c.key(hash_u64s(&[n as u64, bits as u64, m, sv.iter().sum()]));
    Ok(())
}
/// magnitude of the noise over many encryptions
fn noise<S: Word>(c: &mut Case) -> Res {
    let n = c.rng.range(1, 40) as usize;
    let lo = if S::W == 32 { 24 } else { 56 };
    let std = pow2(-(c.rng.range(4, lo) as f64) - c.rng.f64());
    let p = ldef(n, std);
    let (sv, sk) = lwe_sk::<S>(&mut c.rng, n, 0);
    let pk = LwePublicKey::<S>::generate(&sk, &p);
    let mut pph: Vec<f64> = rawu::<S, _>(&*pk).chunks(n + 1).map(|r| signed(lwe_phase(r, &sv, S::MASK), S::W) as f64).collect();
    let mut sec = vec![];
    let mut pa = vec![];
    let m = c.rng.below(2);
    for _ in 0..1200 {
        let (ct, _) = sk.encrypt(S::of(m), &p, PlaintextBits(1));
        sec.push(signed(lwe_phase(&rawu::<S, _>(&*ct), &sv, S::MASK).wrapping_sub(enc(m, 1, S::W)), S::W) as f64);
    }
    while pa.len() < 1200 {
        let (_, r) = pk.encrypt(S::of(m), &p, PlaintextBits(1));
        pa.extend(rawu::<S, _>(&*r.e).iter().map(|x| signed(*x, S::W) as f64));
    }
    while pph.len() < 1200 {
        let pk = LwePublicKey::<S>::generate(&sk, &p);
        pph.extend(rawu::<S, _>(&*pk).chunks(n + 1).map(|r| signed(lwe_phase(r, &sv, S::MASK), S::W) as f64));
    }
    let s = std * pow2(S::W as f64);
    for (name, v) in [("secret key encryption", sec), ("public key encryption", pa), ("public key row", pph)] {
        let l = v.len() as f64;
        let var = v.iter().map(|x| x * x).sum::<f64>() / l / (s * s + 1.0 / 12.0);
        let mean = v.iter().sum::<f64>() / l.sqrt() / s;
        c.max("variance-ratio", var);
        c.max("inverse-variance-ratio", 1.0 / var);
        // standard deviation of the ratio is sqrt(2/1200) = 0.041
        ck!(c, (var - 1.0).abs() < 0.33, "{name}: noise variance is {var} times the declared one (std 2^{}, n={n}, {} bit)", std.log2(), S::W);
        ck!(c, mean.abs() < 7.5, "{name}: noise is biased, mean is {mean} standard errors");
    }
    c.key(hash_u64s(&[n as u64, std.to_bits()]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C11");
    x.section("secret-key", 20000, 400000, |c| either!(c, secret));
    x.section("public-key", 3000, 60000, |c| either!(c, public));
    x.section("trivial", 3000, 50000, |c| either!(c, trivial));
    x.section("carry", 10000, 200000, carry);
    x.section("high-level", 2000, 40000, high);
    x.section("noise", 400, 6000, |c| either!(c, noise));
    x.finish()
}
