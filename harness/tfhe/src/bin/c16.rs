//! C16: key switching preserves the phase under the new key.
use sunscreen_tfhe::high_level::{self, keygen};
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch::keyswitch_glwe_to_glwe;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::keyswitch_lwe_to_lwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe;
use vtfhe::*;

/// standard deviation of key noise and the resulting limit of the output noise
fn key_noise(c: &mut Case, w: u32, terms: usize, r: &RadixDecomposition) -> (f64, f64) {
    if c.rng.chance(3, 5) {
        return (0.0, 0.0);
    }
    let std = 2f64.powf(-(c.rng.range(w as u64 / 2, w as u64 - 3) as f64) + c.rng.f64());
    let per = std * 2f64.powi(w as i32) + 0.5;
    (std, 12.0 * per * (terms as f64 * rl(r) as f64).sqrt() * 2f64.powi(rb(r) as i32 - 1))
}
fn lwe<S: Word>(c: &mut Case, max: usize) -> Res {
    let (w, m) = (S::W, S::MASK);
    let (a, b) = (gen_lwe(&mut c.rng, max).dim.0, gen_lwe(&mut c.rng, max).dim.0);
    let r = gen_radix(&mut c.rng, w, w as usize, 10);
    let (ka, kb) = (c.rng.below(4) as u32, c.rng.below(4) as u32);
    let (sa, ea) = lwe_sk::<S>(&mut c.rng, a, ka);
    let (sb, eb) = lwe_sk::<S>(&mut c.rng, b, kb);
    let (std, lim) = key_noise(c, w, a, &r);
    let (from, to) = (ldef(a, 0.3), ldef(b, std));
    let key = if std == 0.0 && c.rng.bool() {
        tent!(S, &lwe_ksk_make(&mut c.rng, &sa, &sb, rl(&r), rb(&r), w), LweKeyswitchKeyRef<S>)
    } else {
        let mut k = LweKeyswitchKey::<S>::new(&from, &to, &r);
        generate_keyswitch_key_lwe(&mut k, &ea, &eb, &from, &to, &r);
        k
    };
    poison_scratch(&mut c.rng, a + b);
    for _ in 0..3 {
        let x: Vec<u64> = words::<S>(&mut c.rng, a + 1).iter().map(|x| x.u()).collect();
        let mut o = tent!(S, &junk::<S>(&mut c.rng, b + 1), LweCiphertextRef<S>);
        let ex = tent!(S, &x, LweCiphertextRef<S>);
        keyswitch_lwe_to_lwe(&mut o, &ex, &key, &from, &to, &r);
        let mut rx = round_to(&x, rl(&r), rb(&r), w);
        rx[a] = x[a];
        let at = || format!("{w} bit LWE keyswitch {a}->{b} radix {}x{} noise {std:e}", rl(&r), rb(&r));
        close(c, &[lwe_phase(&rawu::<S, _>(&*o), &sb, m)], &[lwe_phase(&rx, &sa, m)], lim, w, &at)?;
        ck_eq!(c, rawu::<S, _>(&*ex), x, "input after {}", at());
    }
    c.key(hash_u64s(&[a as u64, b as u64, rl(&r) as u64, rb(&r) as u64, hash_u64s(&sa)]));
    c.describe(format!("{w} bit LWE keyswitch {a}->{b} radix {}x{} noise {std:e}", rl(&r), rb(&r)));
    Ok(())
}
fn glwe<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let g0 = gen_glwe(&mut c.rng, 0, 5, 4);
    let (k, n) = (gk(&g0), gn(&g0));
    let r = gen_radix(&mut c.rng, w, w as usize, 8);
    let (ka, kb) = (c.rng.below(4) as u32, c.rng.below(4) as u32);
    let (sa, ea) = glwe_sk::<S>(&mut c.rng, k * n, ka);
    let (sb, eb) = glwe_sk::<S>(&mut c.rng, k * n, kb);
    let (std, lim) = key_noise(c, w, k * n, &r);
    let g = gdef(k, n, std);
    let key = if std == 0.0 && c.rng.bool() {
        tent!(S, &glwe_ksk_make(&mut c.rng, &sa, &sb, n, rl(&r), rb(&r), w), GlweKeyswitchKeyRef<S>)
    } else {
        let mut key = GlweKeyswitchKey::<S>::new(&g, &r);
        generate_keyswitch_key_glwe(&mut key, &ea, &eb, &g, &r);
        key
    };
    poison_scratch(&mut c.rng, n);
    let x = junk::<S>(&mut c.rng, (k + 1) * n);
    let mut rx = round_to(&x[..k * n], rl(&r), rb(&r), w);
    rx.extend(&x[k * n..]);
    let want = glwe_phase(&rx, &sa, n, m);
    let ex = tent!(S, &x, GlweCiphertextRef<S>);
    let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    keyswitch_glwe_to_glwe(&mut o, &ex, &key, &g, &r);
    let at = format!("{w} bit GLWE keyswitch k={k} n={n} radix {}x{} noise {std:e}", rl(&r), rb(&r));
    close(c, &glwe_phase(&rawu::<S, _>(&*o), &sb, n, m), &want, lim, w, &|| at.clone())?;
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, hash_u64s(&sa)]));
    c.describe(at);
    Ok(())
}
fn glwe_fft<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let hi = if c.rng.chance(1, 20) { 11 } else { 8 };
    let g0 = gen_glwe(&mut c.rng, 4, hi, 4);
    let (k, n) = (gk(&g0), gn(&g0));
    let r = gen_radix(&mut c.rng, w, 24, 6);
    let (ka, kb) = (c.rng.below(4) as u32, c.rng.pick(&[0, 2, 3]));
    let (sa, ea) = glwe_sk::<S>(&mut c.rng, k * n, ka);
    let (sb, eb) = glwe_sk::<S>(&mut c.rng, k * n, kb);
    let (std, lim) = key_noise(c, w, k * n, &r);
    let g = gdef(k, n, std);
    let key = if std == 0.0 {
        tent!(S, &glwe_ksk_make(&mut c.rng, &sa, &sb, n, rl(&r), rb(&r), w), GlweKeyswitchKeyRef<S>)
    } else {
        let mut key = GlweKeyswitchKey::<S>::new(&g, &r);
        generate_keyswitch_key_glwe(&mut key, &ea, &eb, &g, &r);
        key
    };
    let mut kf = GlweKeyswitchKeyFft::<C64>::new(&g, &r);
    fill_c64::<GlweKeyswitchKeyFftRef<C64>>(&mut c.rng, &mut kf);
    key.fft(&mut kf, &g, &r);
    poison_scratch(&mut c.rng, n);
    let x = junk::<S>(&mut c.rng, (k + 1) * n);
    let mut rx = round_to(&x[..k * n], rl(&r), rb(&r), w);
    rx.extend(&x[k * n..]);
    let want = glwe_phase(&rx, &sa, n, m);
    let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    fft_ops::keyswitch_glwe_to_glwe(&mut o, &tent!(S, &x, GlweCiphertextRef<S>), &kf, &g, &r);
    let at = format!("{w} bit GLWE keyswitch (transform domain) k={k} n={n} radix {}x{} noise {std:e}", rl(&r), rb(&r));
    let tol = fft_tol(w, n, k * rl(&r), digit_norm(n, rb(&r)), norm2(&sb, w));
    close(c, &glwe_phase(&rawu::<S, _>(&*o), &sb, n, m), &want, lim + tol, w, &|| at.clone())?;
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, hash_u64s(&sa)]));
    c.describe(at);
    Ok(())
}
/// messages survive realistic parameters, through the high level interface and back again
fn messages(c: &mut Case) -> Res {
    let (a, b) = (c.rng.range(8, 500) as usize, c.rng.range(8, 500) as usize);
    let (la, lb) = (ldef(a, 2f64.powi(-40)), ldef(b, 2f64.powi(-40)));
    let r = c.rng.pick(&[(3, 8), (8, 4), (2, 12), (16, 2)]);
    let r = rdef(r.0, r.1);
    let (sa, sb) = (keygen::generate_binary_lwe_sk(&la), keygen::generate_binary_lwe_sk(&lb));
    let ab = keygen::generate_ksk(&sa, &sb, &la, &lb, &r);
    let ba = keygen::generate_ksk(&sb, &sa, &lb, &la, &r);
    for _ in 0..4 {
        let p = c.rng.range(1, 5) as u32;
        let msg = c.rng.below(1 << p);
        let mut x = high_level::encryption::encrypt_lwe_secret(msg, &sa, &la, PlaintextBits(p));
        for i in 0..3 {
            let y = high_level::evaluation::keyswitch_lwe_to_lwe(&x, &ab, &la, &lb, &r);
            ck_eq!(c, high_level::encryption::decrypt_lwe(&y, &sb, &lb, PlaintextBits(p)), msg, "message of {p} bits after {} keyswitches {a}->{b} radix {}x{}", 2 * i + 1, rl(&r), rb(&r));
            x = high_level::evaluation::keyswitch_lwe_to_lwe(&y, &ba, &lb, &la, &r);
            ck_eq!(c, high_level::encryption::decrypt_lwe(&x, &sa, &la, PlaintextBits(p)), msg, "message of {p} bits after {} keyswitches {a}->{b} radix {}x{}", 2 * i + 2, rl(&r), rb(&r));
        }
    }
    c.key(hash_u64s(&[a as u64, b as u64, rl(&r) as u64]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C16");
    x.section("lwe", 36000, 4000000, |c| either!(c, lwe, 24));
    x.section("lwe-large", 360, 40000, |c| either!(c, lwe, 700));
    x.section("glwe", 18000, 1600000, |c| either!(c, glwe));
    x.section("glwe-transform-domain", 3600, 300000, |c| either!(c, glwe_fft));
    x.section("messages", 360, 20000, messages);
    x.finish()
}
