//! C21: substitution X -> X^k and the homomorphic trace.
use sunscreen_tfhe::high_level;
use sunscreen_tfhe::ops::automorphisms::{generate_automorphism_key, trace};
use sunscreen_tfhe::ops::ciphertext::glwe_mod_switch_and_expand_pow_2;
use sunscreen_tfhe::ops::polynomial::polynomial_pow_k;
use vtfhe::*;

/// an odd exponent: those of the trace, small, large, or any
fn exponent(r: &mut Rng, n: usize) -> usize {
    let k = match r.below(4) {
        0 => (n >> r.below(n.ilog2() as u64 + 1)) + 1,
        1 => 2 * n - 1,
        2 => r.below(4 * n as u64 + 8) as usize,
        _ => r.below(2 * n as u64) as usize,
    };
    k | 1
}
fn substitution<S: Word>(c: &mut Case, lo: u32, hi: u32) -> Res {
    let m = S::MASK;
    let n = 1usize << c.rng.range(lo as u64, hi as u64);
    let (k, l) = (exponent(&mut c.rng, n), exponent(&mut c.rng, n));
    let (x, y) = (junk::<S>(&mut c.rng, n), junk::<S>(&mut c.rng, n));
    let apply = |c: &mut Case, x: &[u64], k: usize| {
        let mut o = tpoly::<S>(&junk::<S>(&mut c.rng, n));
        polynomial_pow_k::<_, S>(&mut o, &tpoly::<S>(x), k);
        rawu::<S, PolynomialRef<Torus<S>>>(&o)
    };
    let fx = apply(c, &x, k);
    ck_eq!(c, fx, substitute(&x, k as u64, m), "substitution of X^{k}, n={n}");
    let fy = apply(c, &y, k);
    let sum = apply(c, &addv(&x, &y, m), k);
    ck_eq!(c, sum, addv(&fx, &fy, m), "substitution of X^{k} in a sum, n={n}");
    if n <= 256 {
        let prod = apply(c, &negmul(&x, &y, m), k);
        ck_eq!(c, prod, negmul(&fx, &fy, m), "substitution of X^{k} in a product, n={n}");
    }
    let fl = apply(c, &fx, l);
    let kl = apply(c, &x, k * l);
    ck_eq!(c, fl, kl, "substitution of X^{k}, then X^{l}, n={n}");
    c.key(hash_u64s(&[n as u64, k as u64, l as u64, x[0]]));
    Ok(())
}
fn key_fft(c: &mut Case, key: &AutomorphismKey<u64>, g: &GlweDef, r: &RadixDecomposition) -> AutomorphismKeyFft<C64> {
    let mut kf = AutomorphismKeyFft::<C64>::new(g, r);
    fill_c64::<AutomorphismKeyFftRef<C64>>(&mut c.rng, &mut kf);
    key.fft(&mut kf, g, r);
    kf
}
/// the trace of any ciphertext, under exact or noisy keys of any kind
fn traces(c: &mut Case, lo: u32, hi: u32) -> Res {
    let m = u64::MAX;
    let g0 = gen_glwe(&mut c.rng, lo, hi, 4);
    let (k, n) = (gk(&g0), gn(&g0));
    let std = if c.rng.chance(3, 5) { 0.0 } else { 2f64.powf(-(c.rng.range(46, 60) as f64)) };
    let g = gdef(k, n, std);
    let r = c.rng.pick(&[(6usize, 7usize), (4, 8), (3, 11), (2, 16), (2, 20), (5, 9), (8, 4), (14, 3), (22, 2), (40, 1), (1, 30)]);
    let r = rdef(r.0, r.1);
    let kind = c.rng.pick(&[0, 0, 2, 3]);
    let (sv, sk) = glwe_sk::<u64>(&mut c.rng, k * n, kind);
    let mut ak = AutomorphismKey::<u64>::new(&g, &r);
    let own = std > 0.0 || hi > 8 || c.rng.bool();
    if own {
        generate_automorphism_key(&mut ak, &sk, &g, &r);
    } else {
        for (i, o) in ak.keyswitch_keys_mut(&g, &r).enumerate() {
            let e = (n >> i) as u64 + 1;
            let from: Vec<u64> = sv.chunks(n).flat_map(|s| substitute(s, e, m)).collect();
            let x = glwe_ksk_make(&mut c.rng, &from, &sv, n, rl(&r), rb(&r), 64);
            for (d, s) in raw_mut::<u64, _>(o).iter_mut().zip(x) {
                *d = s;
            }
        }
    }
    let kf = key_fft(c, &ak, &g, &r);
    let x = match c.rng.below(4) {
        0 => {
            let mut x = vec![0; k * n];
            x.extend(junk::<u64>(&mut c.rng, n));
            x
        }
        1 => {
            let p = msgs(&mut c.rng, n, 64);
            glwe_make(&mut c.rng, &p, &sv, m)
        }
        _ => junk::<u64>(&mut c.rng, (k + 1) * n),
    };
    let e = tent!(u64, &x, GlweCiphertextRef<u64>);
    let mut o = tent!(u64, &junk::<u64>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<u64>);
    poison_scratch(&mut c.rng, n);
    trace(&mut o, &e, &kf, &g, &r);
    let mut want = vec![0; n];
    want[0] = glwe_phase(&x, &sv, n, m)[0].wrapping_mul(n as u64);
    // every step adds one key switch and doubles what was there
    let unit = 2f64.powi(64 - (rl(&r) * rb(&r)) as i32);
    let s2 = norm2(&sv, 64);
    let tol = n as f64
        * (12.0 * unit / 12f64.sqrt() * s2.sqrt()
            + noise_lim(std, 64, k * n, &r)
            + fft_tol(64, n, k * rl(&r), digit_norm(n, rb(&r)), s2));
    let at = format!("trace k={k} n={n} radix {}x{} key kind {kind} noise {std:e} own keys {own}", rl(&r), rb(&r));
    c.describe(at.clone());
    if tol > 2f64.powi(61) {
        c.count("too-imprecise-to-decide", 1);
        return Ok(());
    }
    close(c, &glwe_phase(&rawu::<u64, _>(&*o), &sv, n, m), &want, tol, 64, &|| at.clone())?;
    ck_eq!(c, rawu::<u64, _>(&*e), x, "input after a {at}");
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, x[k * n]]));
    Ok(())
}
/// division by N, then the trace: the constant coefficient comes back
fn messages(c: &mut Case) -> Res {
    let k = c.rng.range(1, 2) as usize;
    let g = gdef(k, 1 << c.rng.range(6, 10), 2f64.powi(-52));
    let n = gn(&g);
    let r = c.rng.pick(&[(6usize, 7usize), (4, 8), (8, 5)]);
    let r = rdef(r.0, r.1);
    let p = c.rng.range(1, 4) as u32;
    let sk = high_level::keygen::generate_binary_glwe_sk(&g);
    let ak = high_level::keygen::generate_automorphism_key(&sk, &g, &r);
    let kf = high_level::fft::fft_automorphism_key(&ak, &g, &r);
    for _ in 0..3 {
        let t = msgs(&mut c.rng, n, p);
        let ct = high_level::encryption::encrypt_glwe(&poly::<u64>(&t), &sk, &g, PlaintextBits(p));
        let mut y = tent!(u64, &junk::<u64>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<u64>);
        glwe_mod_switch_and_expand_pow_2(&mut y, &ct, &g, n.ilog2());
        let half = n as u128 / 2;
        let want: Vec<u64> = rawu::<u64, _>(&*ct).iter().map(|x| ((*x as u128 + half) / n as u128) as u64).collect();
        ck_eq!(c, rawu::<u64, _>(&*y), want, "ciphertext divided by its degree, k={k} n={n}");
        let mut o = tent!(u64, &junk::<u64>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<u64>);
        poison_scratch(&mut c.rng, n);
        trace(&mut o, &y, &kf, &g, &r);
        let mut want = vec![0; n];
        want[0] = t[0];
        let got = high_level::encryption::decrypt_glwe(&o, &sk, &g, PlaintextBits(p));
        ck_eq!(c, rawu::<u64, _>(&*got), want, "decrypted trace, k={k} n={n} radix {}x{} {p} bits", rl(&r), rb(&r));
        c.key(hash_u64s(&[n as u64, k as u64, p as u64, hash_u64s(&t)]));
    }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C21");
    x.section("substitution", 48000, 2000000, |c| either!(c, substitution, 0, 7));
    x.section("substitution-large", 400, 50000, |c| either!(c, substitution, 8, 12));
    x.section("trace", 4800, 300000, |c| traces(c, 4, 7));
    x.section("trace-large", 32, 4000, |c| traces(c, 8, 11));
    x.section("messages", 240, 10000, messages);
    x.finish()
}
