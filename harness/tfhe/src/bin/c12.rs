//! C12: GLWE / RLWE encryption and sample extraction.
use sunscreen_tfhe::high_level::{encryption as hl, evaluation, keygen};
use sunscreen_tfhe::ops::ciphertext::sample_extract;
use sunscreen_tfhe::ops::encryption::*;
use vtfhe::*;

fn encv(m: &[u64], bits: u32, w: u32) -> Vec<u64> {
    m.iter().map(|x| (x << (w - bits)) & wmask(w)).collect()
}
fn pow2(e: f64) -> f64 {
    2f64.powf(e)
}
fn pick_std(c: &mut Case, bits: u32, total: f64) -> f64 {
    if c.rng.chance(1, 3) { 0.0 } else { pow2(-(bits as f64) - 1.0 - c.rng.range(0, 12) as f64) / 12.0 / total.sqrt() }
}
fn near(c: &mut Case, got: &[u64], want: &[u64], std: f64, w: u32, what: &str) -> Res {
    let lim = 12.0 * std * pow2(w as f64) + if std > 0.0 { 1.0 } else { 0.0 };
    let d = maxdiff(got, want, w) as f64;
    if std > 0.0 {
        c.max("noise/std", d / (std * pow2(w as f64)));
    }
    let at = got.iter().zip(want).position(|(a, b)| tabs(a.wrapping_sub(*b), w) as f64 > lim);
    ck!(c, got.len() == want.len() && d <= lim, "{what}: phase differs from the encoding by {d} (limit {lim}) first at coefficient {at:?}");
    Ok(())
}

fn secret<S: Word>(c: &mut Case, lo: u32, hi: u32) -> Res {
    let bits = c.rng.range(1, (S::W - 1) as u64) as u32;
    let g0 = gen_glwe(&mut c.rng, lo, hi, 4);
    let std = pick_std(c, bits, 1.0);
    let g = gdef(gk(&g0), gn(&g0), std);
    let (k, n, m) = (gk(&g), gn(&g), S::MASK);
    let kind = c.rng.below(3) as u32;
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let msg = msgs(&mut c.rng, n, bits);
    let pb = PlaintextBits(bits);
    let want = encv(&msg, bits, S::W);
    let path = c.rng.below(4);
    poison_scratch(&mut c.rng, n);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    match path {
        0 => ct = sk.encode_encrypt_glwe(&poly::<S>(&msg), &g, pb),
        1 => encrypt_glwe_ciphertext_secret(&mut ct, &tpoly::<S>(&want), &sk, &g),
        2 => encrypt_glwe_ciphertext_secret_generic(&mut ct, &tpoly::<S>(&want), &sk, &g),
        _ => trivially_encrypt_glwe_ciphertext(&mut ct, &tpoly::<S>(&want), &g),
    }
    let raw = rawu::<S, _>(&*ct);
    if path == 3 {
        ck!(c, raw[..k * n].iter().all(|x| *x == 0), "trivial encryption has a nonzero mask (k={k} n={n})");
    }
    let ph = glwe_phase(&raw, &sv, n, m);
    near(c, &ph, &want, if path == 3 { 0.0 } else { std }, S::W, &format!("encryption path {path}, k={k}, n={n}, {bits} bits, key kind {kind}"))?;
    let mut dec = tpoly::<S>(&junk::<S>(&mut c.rng, n));
    decrypt_glwe_ciphertext(&mut dec, &ct, &sk, &g);
    ck_eq!(c, rawu::<S, _>(&*dec), ph, "raw decryption k={k} n={n}");
    ck_eq!(c, rawu::<S, _>(&*sk.decrypt_decode_glwe(&ct, &g, pb)), msg, "decryption k={k} n={n} {bits} bits");
    if path == 3 {
        let (_, other) = glwe_sk::<S>(&mut c.rng, k * n, 1);
        ck_eq!(c, rawu::<S, _>(&*other.decrypt_decode_glwe(&ct, &g, pb)), msg, "trivial encryption under another key");
    }
    c.count(&format!("path-{path}"), 1);
    c.key(hash_u64s(&[k as u64, n as u64, bits as u64, kind as u64, path, hash_u64s(&msg)]));
    c.describe(format!("{} bit, k={k}, n={n}, {bits} plaintext bits, path {path}, key kind {kind}", S::W));
    Ok(())
}
fn rlwe<S: Word>(c: &mut Case) -> Res {
    let n = 1usize << c.rng.range(0, 8);
    let bits = c.rng.range(1, (S::W - 1) as u64) as u32;
    let std = pick_std(c, bits, 2.0 * n as f64 + 1.0);
    let g = gdef(1, n, std);
    let m = S::MASK;
    let kind = if std == 0.0 { c.rng.pick(&[0, 1, 2]) } else { c.rng.pick(&[0, 2]) };
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, n, kind);
    let mut pk = RlwePublicKey::<S>::new(&g);
    fill_words::<S, RlwePublicKeyRef<S>>(&mut c.rng, &mut pk);
    poison_scratch(&mut c.rng, n);
    rlwe_generate_public_key(&mut pk, &sk, &g);
    let pr = rawu::<S, _>(&*pk);
    near(c, &glwe_phase(&pr, &sv, n, m), &vec![0; n], std, S::W, "RLWE public key")?;
    let msg = msgs(&mut c.rng, n, bits);
    let want = encv(&msg, bits, S::W);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, 2 * n), GlweCiphertextRef<S>);
    let rnd = if c.rng.bool() {
        rlwe_encode_encrypt_public(&mut ct, &poly::<S>(&msg), &pk, &PlaintextBits(bits), &g)
    } else {
        rlwe_encrypt_public(&mut ct, &tpoly::<S>(&want), &pk, &g)
    };
    let (e0, e1, u) = (rawu::<S, _>(&*rnd.e0), rawu::<S, _>(&*rnd.e1), rawu::<S, _>(&*rnd.u));
    ck!(c, u.len() == n && u.iter().all(|x| *x < 2), "ephemeral key is not a binary polynomial");
    near(c, &e0, &vec![0; n], std, S::W, "mask noise")?;
    near(c, &e1, &vec![0; n], std, S::W, "body noise")?;
    let mut exp = addv(&negmul(&pr[..n], &u, m), &e0, m);
    exp.extend(addv(&addv(&negmul(&pr[n..], &u, m), &e1, m), &want, m));
    ck_eq!(c, rawu::<S, _>(&*ct), exp, "RLWE public key encryption is not made of the returned randomness (n={n}, {bits} bits)");
    if std == 0.0 || kind != 1 {
        ck_eq!(c, rawu::<S, _>(&*sk.decrypt_decode_glwe(&ct, &g, PlaintextBits(bits))), msg, "decryption of a public key encryption n={n} {bits} bits std {std}");
    }
    c.key(hash_u64s(&[n as u64, bits as u64, kind as u64, hash_u64s(&u)]));
    Ok(())
}
/// sample extraction on arbitrary ciphertexts
fn extract<S: Word>(c: &mut Case) -> Res {
    let g = gen_glwe(&mut c.rng, 0, 7, 4);
    let (k, n, m) = (gk(&g), gn(&g), S::MASK);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, c.idx as u32 % 3);
    let raw = rawu::<S, _>(&*tent!(S, &words::<S>(&mut c.rng, (k + 1) * n).iter().map(|x| x.u()).collect::<Vec<_>>(), GlweCiphertextRef<S>));
    let ct = tent!(S, &raw, GlweCiphertextRef<S>);
    let ph = glwe_phase(&raw, &sv, n, m);
    let l = g.as_lwe_def();
    ck_eq!(c, l.dim.0, k * n, "LWE dimension of a GLWE");
    ck_eq!(c, rawu::<S, _>(sk.to_lwe_secret_key()), sv, "flattened secret key");
    for h in 0..n {
        let mut out = tent!(S, &junk::<S>(&mut c.rng, k * n + 1), LweCiphertextRef<S>);
        sample_extract(&mut out, &ct, h, &g);
        let o = rawu::<S, _>(&*out);
        ck_eq!(c, lwe_phase(&o, &sv, m), ph[h], "phase of extracted coefficient {h} (k={k} n={n})");
        ck_eq!(c, sk.to_lwe_secret_key().decrypt_without_decode(&out, &l).inner().u(), ph[h], "raw decryption of extracted coefficient {h} (k={k} n={n})");
    }
    c.count("extracted", n as u64);
    c.key(hash_u64s(&[k as u64, n as u64, hash_u64s(&raw)]));
    Ok(())
}
fn high(c: &mut Case) -> Res {
    let bits = c.rng.range(1, 20) as u32;
    let std = pick_std(c, bits, 1.0);
    let g = gdef(c.rng.range(1, 3) as usize, 1 << c.rng.range(0, 7), std);
    let (k, n) = (gk(&g), gn(&g));
    let pb = PlaintextBits(bits);
    let uni = c.rng.bool();
    let sk = if uni { keygen::generate_uniform_glwe_sk(&g) } else { keygen::generate_binary_glwe_sk(&g) };
    let sv = rawu::<u64, _>(&*sk);
    ck!(c, sv.len() == k * n && (uni || sv.iter().all(|x| *x < 2)), "generated key");
    let msg = msgs(&mut c.rng, n, bits);
    let ct = hl::encrypt_glwe(&poly::<u64>(&msg), &sk, &g, pb);
    near(c, &glwe_phase(&rawu::<u64, _>(&*ct), &sv, n, u64::MAX), &encv(&msg, bits, 64), std, 64, "high level encryption")?;
    ck_eq!(c, rawu::<u64, _>(&*hl::decrypt_glwe(&ct, &sk, &g, pb)), msg, "high level round trip k={k} n={n}");
    let h = c.rng.below(n as u64) as usize;
    let l = evaluation::sample_extract(&ct, &g, h);
    ck_eq!(c, hl::decrypt_lwe(&l, sk.to_lwe_secret_key(), &g.as_lwe_def(), pb), msg[h], "extracted coefficient {h} k={k} n={n}");
    let t = hl::trivial_glwe(&poly::<u64>(&msg), &g, pb);
    let mut want = vec![0; k * n];
    want.extend(encv(&msg, bits, 64));
    ck_eq!(c, rawu::<u64, _>(&*t), want, "high level trivial encryption");
    ck_eq!(c, rawu::<u64, _>(&*hl::decrypt_glwe(&t, &sk, &g, pb)), msg, "trivial round trip");
    if k == 1 {
        let g0 = gdef(1, n, 0.0);
        let bk = keygen::generate_binary_glwe_sk(&g0);
        let pk = keygen::generate_rlwe_public_key(&bk, &g0);
        let mut ct = GlweCiphertext::<u64>::new(&g0);
        rlwe_encode_encrypt_public(&mut ct, &poly::<u64>(&msg), &pk, &pb, &g0);
        ck_eq!(c, rawu::<u64, _>(&*hl::decrypt_glwe(&ct, &bk, &g0, pb)), msg, "public key round trip");
    }
    c.key(hash_u64s(&[k as u64, n as u64, bits as u64, hash_u64s(&msg)]));
    Ok(())
}
fn noise<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 6, 3);
    let (k, n) = (gk(&g0), gn(&g0));
    let lo = if S::W == 32 { 24 } else { 56 };
    let std = pow2(-(c.rng.range(4, lo) as f64) - c.rng.f64());
    let g = gdef(k, n, std);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, 0);
    let s = std * pow2(S::W as f64);
    let f = |v: Vec<u64>| v.into_iter().map(|x| signed(x, S::W) as f64).collect::<Vec<_>>();
    let mut sets: Vec<(&str, Vec<f64>)> = vec![("secret key encryption", vec![])];
    let z = tpoly::<S>(&vec![0; n]);
    while sets[0].1.len() < 1200 {
        let mut ct = GlweCiphertext::<S>::new(&g);
        encrypt_glwe_ciphertext_secret(&mut ct, &z, &sk, &g);
        sets[0].1.extend(f(glwe_phase(&rawu::<S, _>(&*ct), &sv, n, S::MASK)));
    }
    if k == 1 {
        let (mut e0, mut e1, mut pkn) = (vec![], vec![], vec![]);
        while e0.len() < 1200 {
            let mut pk = RlwePublicKey::<S>::new(&g);
            rlwe_generate_public_key(&mut pk, &sk, &g);
            pkn.extend(f(glwe_phase(&rawu::<S, _>(&*pk), &sv, n, S::MASK)));
            let mut ct = GlweCiphertext::<S>::new(&g);
            let r = rlwe_encrypt_public(&mut ct, &z, &pk, &g);
            e0.extend(f(rawu::<S, _>(&*r.e0)));
            e1.extend(f(rawu::<S, _>(&*r.e1)));
        }
        sets.push(("RLWE mask noise", e0));
        sets.push(("RLWE body noise", e1));
        sets.push(("RLWE public key", pkn));
    }
    for (name, v) in sets {
        let l = v.len() as f64;
        let var = v.iter().map(|x| x * x).sum::<f64>() / l / (s * s + 1.0 / 12.0);
        let mean = v.iter().sum::<f64>() / l.sqrt() / s;
        ck!(c, (var - 1.0).abs() < 0.33, "{name}: noise variance is {var} times the declared one (std 2^{}, k={k} n={n}, {} bit)", std.log2(), S::W);
        ck!(c, mean.abs() < 7.5, "{name}: noise is biased, mean is {mean} standard errors");
    }
    c.key(hash_u64s(&[k as u64, n as u64, std.to_bits()]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C12");
    x.section("secret-key", 4000, 60000, |c| either!(c, secret, 0, 7));
    x.section("secret-key-large", 40, 400, |c| either!(c, secret, 8, 11));
    x.section("rlwe-public-key", 2000, 30000, |c| either!(c, rlwe));
    x.section("sample-extract", 1000, 15000, |c| either!(c, extract));
    x.section("high-level", 1000, 15000, high);
    x.section("noise", 200, 3000, |c| either!(c, noise));
    x.finish()
}
