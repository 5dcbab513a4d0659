//! C18: external products and CMUX.
use sunscreen_tfhe::high_level;
use sunscreen_tfhe::ops::ciphertext::{external_product_ggsw_glwe, glwe_ggsw_mad};
use sunscreen_tfhe::ops::encryption::encrypt_ggsw_ciphertext;
use sunscreen_tfhe::ops::fft_ops;
use vtfhe::*;

/// message of a selector: 0 bit, 1 monomial, 2 small polynomial, 3 binary polynomial
fn message(r: &mut Rng, n: usize, m: u64, kind: u64) -> Vec<u64> {
    let mut t = vec![0; n];
    match kind {
        0 => t[0] = r.below(2),
        1 => {
            let i = r.below(n as u64) as usize;
            t[i] = if r.bool() { 1 } else { m };
        }
        2 => t.iter_mut().for_each(|x| *x = r.below(9).wrapping_sub(4) & m),
        _ => t.iter_mut().for_each(|x| *x = r.below(2)),
    }
    t
}
struct Setup<S: Word> {
    g: GlweDef,
    r: RadixDecomposition,
    sv: Vec<u64>,
    sk: GlweSecretKey<S>,
    std: f64,
}
fn setup<S: Word>(c: &mut Case, lo: u32, hi: u32, keys: &[u32], maxlog: usize) -> Setup<S> {
    let g0 = gen_glwe(&mut c.rng, lo, hi, 4);
    let std = gen_std(&mut c.rng, S::W);
    let g = gdef(gk(&g0), gn(&g0), std);
    let r = gen_radix(&mut c.rng, S::W, maxlog, 8);
    let kind = c.rng.pick(keys);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, gk(&g) * gn(&g), kind);
    Setup { g, r, sv, sk, std }
}
fn ggsw<S: Word>(c: &mut Case, s: &Setup<S>, t: &[u64]) -> GgswCiphertext<S> {
    let small = t.iter().all(|x| *x < 2);
    if s.std == 0.0 && !(small && c.rng.bool()) || !small {
        let mut raw = ggsw_make(&mut c.rng, t, &s.sv, rl(&s.r), rb(&s.r), S::W);
        if s.std > 0.0 {
            // noisy rows: the library encrypts binary messages only, so disturb exact rows
            let lim = (s.std * 2f64.powi(S::W as i32)) as i64;
            let n = gn(&s.g);
            let size = (gk(&s.g) + 1) * n;
            for row in raw.chunks_mut(size) {
                for x in &mut row[size - n..] {
                    *x = x.wrapping_add(c.rng.irange(-lim, lim) as u64) & S::MASK;
                }
            }
        }
        tent!(S, &raw, GgswCiphertextRef<S>)
    } else {
        let mut x = GgswCiphertext::<S>::new(&s.g, &s.r);
        encrypt_ggsw_ciphertext(&mut x, &poly::<S>(t), &s.sk, &s.g, &s.r, PlaintextBits(1));
        x
    }
}
fn exact<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let s = setup::<S>(c, 0, 5, &[0, 1, 2, 3], w as usize);
    let (k, n) = (gk(&s.g), gn(&s.g));
    let kind = c.rng.below(4);
    let t = message(&mut c.rng, n, m, kind);
    let gg = ggsw(c, &s, &t);
    poison_scratch(&mut c.rng, n);
    let size = (k + 1) * n;
    let (x, y) = (junk::<S>(&mut c.rng, size), junk::<S>(&mut c.rng, size));
    let (ex, mut acc) = (tent!(S, &x, GlweCiphertextRef<S>), tent!(S, &y, GlweCiphertextRef<S>));
    let prod = negmul(&t, &glwe_phase(&round_to(&x, rl(&s.r), rb(&s.r), w), &s.sv, n, m), m);
    let lim = noise_lim(s.std, w, (k + 1) * n, &s.r);
    let at = format!("{w} bit external product k={k} n={n} radix {}x{} message kind {kind} noise {:e}", rl(&s.r), rb(&s.r), s.std);
    let ph = |x: &GlweCiphertextRef<S>| glwe_phase(&rawu::<S, _>(x), &s.sv, n, m);
    glwe_ggsw_mad(&mut acc, &ex, &gg, &s.g, &s.r);
    close(c, &ph(&acc), &addv(&glwe_phase(&y, &s.sv, n, m), &prod, m), lim, w, &|| format!("accumulating {at}"))?;
    close(c, &ph(&external_product_ggsw_glwe(&gg, &ex, &s.g, &s.r)), &prod, lim, w, &|| at.clone())?;
    close(c, &ph(&ex.external_product(&gg, &s.g, &s.r)), &prod, lim, w, &|| format!("glwe.external_product: {at}"))?;
    close(c, &ph(&gg.external_product(&ex, &s.g, &s.r)), &prod, lim, w, &|| format!("ggsw.external_product: {at}"))?;
    c.key(hash_u64s(&[k as u64, n as u64, rl(&s.r) as u64, rb(&s.r) as u64, kind, x[0]]));
    c.describe(at);
    Ok(())
}
fn fft<S: Word>(c: &mut Case, lo: u32, hi: u32) -> Res {
    let (w, m) = (S::W, S::MASK);
    let s = setup::<S>(c, lo, hi, &[0, 2, 3], 24);
    let (k, n) = (gk(&s.g), gn(&s.g));
    let kind = c.rng.below(4);
    let t = message(&mut c.rng, n, m, kind);
    let gg = ggsw(c, &s, &t);
    let mut gf = GgswCiphertextFft::<C64>::new(&s.g, &s.r);
    fill_c64::<GgswCiphertextFftRef<C64>>(&mut c.rng, &mut gf);
    gg.fft(&mut gf, &s.g, &s.r);
    let size = (k + 1) * n;
    let mut at = format!("{w} bit k={k} n={n} radix {}x{} message kind {kind} noise {:e}", rl(&s.r), rb(&s.r), s.std);
    c.describe(at.clone());
    let ph = |x: &GlweCiphertextRef<S>| glwe_phase(&rawu::<S, _>(x), &s.sv, n, m);
    // the decomposition of a difference rounds: at most the message norm times half a unit
    let lim = noise_lim(s.std, w, (k + 1) * n, &s.r) + fft_tol(w, n, (k + 1) * rl(&s.r), digit_norm(n, rb(&s.r)), norm2(&s.sv, w));
    // accumulated external products
    let mut of = GlweCiphertextFft::<C64>::new(&s.g);
    let mut want = vec![0; n];
    let terms = c.rng.range(1, 3) as usize;
    poison_scratch(&mut c.rng, n);
    for _ in 0..terms {
        let x = junk::<S>(&mut c.rng, size);
        fft_ops::glwe_ggsw_mad(&mut of, &tent!(S, &x, GlweCiphertextRef<S>), &gf, &s.g, &s.r);
        want = addv(&want, &negmul(&t, &glwe_phase(&round_to(&x, rl(&s.r), rb(&s.r), w), &s.sv, n, m), m), m);
    }
    let mut o = tent!(S, &junk::<S>(&mut c.rng, size), GlweCiphertextRef<S>);
    of.ifft(&mut o, &s.g);
    close(c, &ph(&o), &want, lim * terms as f64, w, &|| format!("{terms} external products in the transform domain, {at}"))?;
    // CMUX
    let (x, y) = (junk::<S>(&mut c.rng, size), junk::<S>(&mut c.rng, size));
    let (ex, ey) = (tent!(S, &x, GlweCiphertextRef<S>), tent!(S, &y, GlweCiphertextRef<S>));
    let mux = |x: &[u64], y: &[u64]| {
        let d = round_to(&subv(y, x, m), rl(&s.r), rb(&s.r), w);
        addv(&glwe_phase(x, &s.sv, n, m), &negmul(&t, &glwe_phase(&d, &s.sv, n, m), m), m)
    };
    let mut o = tent!(S, &junk::<S>(&mut c.rng, size), GlweCiphertextRef<S>);
    poison_scratch(&mut c.rng, n);
    fft_ops::cmux(&mut o, &ex, &ey, &gf, &s.g, &s.r);
    close(c, &ph(&o), &mux(&x, &y), lim, w, &|| format!("cmux {at}"))?;
    ck_eq!(c, (rawu::<S, _>(&*ex), rawu::<S, _>(&*ey)), (x.clone(), y.clone()), "inputs after cmux");
    // CMUX of leveled ciphertexts, with a level count of their own
    let l2 = c.rng.range(1, 4) as usize;
    let (x, y) = (junk::<S>(&mut c.rng, size * l2), junk::<S>(&mut c.rng, size * l2));
    let (ex, ey) = (tent!(S, &x, GlevCiphertextRef<S>), tent!(S, &y, GlevCiphertextRef<S>));
    let mut o = tent!(S, &junk::<S>(&mut c.rng, size * l2), GlevCiphertextRef<S>);
    fft_ops::glev_cmux(&mut o, &ex, &ey, &gf, &s.g, &s.r);
    at = format!("glev_cmux of {l2} levels {at}");
    for (j, o) in rawu::<S, _>(&*o).chunks(size).enumerate() {
        let (a, b) = (&x[j * size..(j + 1) * size], &y[j * size..(j + 1) * size]);
        close(c, &glwe_phase(o, &s.sv, n, m), &mux(a, b), lim, w, &|| format!("row {j} of {at}"))?;
    }
    c.key(hash_u64s(&[k as u64, n as u64, rl(&s.r) as u64, rb(&s.r) as u64, kind, x[0]]));
    Ok(())
}
/// high level interface
fn high(c: &mut Case) -> Res {
    let s = setup::<u64>(c, 4, 8, &[0], 16);
    let (w, m) = (64, u64::MAX);
    let (k, n) = (gk(&s.g), gn(&s.g));
    let bit = c.rng.below(2);
    let gg = high_level::encryption::encrypt_ggsw(bit, &s.sk, &s.g, &s.r, PlaintextBits(1));
    let gf = high_level::fft::fft_ggsw(&gg, &s.g, &s.r);
    let size = (k + 1) * n;
    let lim = noise_lim(s.std, w, (k + 1) * n, &s.r) + fft_tol(w, n, (k + 1) * rl(&s.r), digit_norm(n, rb(&s.r)), norm2(&s.sv, w));
    let mux = |x: &[u64], y: &[u64]| {
        let d = round_to(&subv(y, x, m), rl(&s.r), rb(&s.r), w);
        addv(&glwe_phase(x, &s.sv, n, m), &scalev(&glwe_phase(&d, &s.sv, n, m), bit, m), m)
    };
    let (x, y) = (junk::<u64>(&mut c.rng, size), junk::<u64>(&mut c.rng, size));
    let o = high_level::evaluation::cmux(&gf, &tent!(u64, &x, GlweCiphertextRef<u64>), &tent!(u64, &y, GlweCiphertextRef<u64>), &s.g, &s.r);
    close(c, &glwe_phase(&rawu::<u64, _>(&*o), &s.sv, n, m), &mux(&x, &y), lim, w, &|| format!("high level cmux k={k} n={n} bit {bit}"))?;
    // its result takes the decomposition of the selector
    let l2 = rl(&s.r);
    let (x, y) = (junk::<u64>(&mut c.rng, size * l2), junk::<u64>(&mut c.rng, size * l2));
    let o = high_level::evaluation::glev_cmux(&gf, &tent!(u64, &x, GlevCiphertextRef<u64>), &tent!(u64, &y, GlevCiphertextRef<u64>), &s.g, &s.r);
    let ro = rawu::<u64, _>(&*o);
    ck_eq!(c, ro.len(), size * l2, "size of a high level glev_cmux");
    for (j, o) in ro.chunks(size).enumerate() {
        let (a, b) = (&x[j * size..(j + 1) * size], &y[j * size..(j + 1) * size]);
        close(c, &glwe_phase(o, &s.sv, n, m), &mux(a, b), lim, w, &|| format!("high level glev_cmux k={k} n={n} bit {bit} row {j}"))?;
    }
    c.key(hash_u64s(&[k as u64, n as u64, bit, x[0]]));
    Ok(())
}
/// trees of selections over messages at realistic noise
fn tree(c: &mut Case) -> Res {
    let k = c.rng.range(1, 2) as usize;
    let n = if k == 1 { 1 << c.rng.range(8, 11) } else { 1 << c.rng.range(8, 10) };
    let g = gdef(k, n, 2f64.powi(-46));
    let r = c.rng.pick(&[(2, 8), (3, 6), (1, 12), (4, 5)]);
    let r = rdef(r.0, r.1);
    let sk = high_level::keygen::generate_binary_glwe_sk(&g);
    let p = c.rng.range(1, 3) as u32;
    let depth = c.rng.range(1, 4) as usize;
    let ms: Vec<Vec<u64>> = (0..1 << depth).map(|_| msgs(&mut c.rng, n, p)).collect();
    let mut cur: Vec<GlweCiphertext<u64>> = ms
        .iter()
        .map(|x| if c.rng.bool() { high_level::encryption::encrypt_glwe(&poly::<u64>(x), &sk, &g, PlaintextBits(p)) } else { high_level::encryption::trivial_glwe(&poly::<u64>(x), &g, PlaintextBits(p)) })
        .collect();
    let mut index = 0;
    for d in 0..depth {
        let bit = c.rng.below(2);
        index |= (bit as usize) << d;
        let sel = high_level::fft::fft_ggsw(&high_level::encryption::encrypt_ggsw(bit, &sk, &g, &r, PlaintextBits(1)), &g, &r);
        cur = cur.chunks(2).map(|x| high_level::evaluation::cmux(&sel, &x[0], &x[1], &g, &r)).collect();
    }
    let got = high_level::encryption::decrypt_glwe(&cur[0], &sk, &g, PlaintextBits(p));
    ck_eq!(c, rawu::<u64, _>(&*got), ms[index], "tree of depth {depth}, index {index}, k={k} n={n} radix {}x{}, {p} bits", rl(&r), rb(&r));
    c.key(hash_u64s(&[n as u64, index as u64, depth as u64, p as u64, ms[index][0]]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C18");
    x.section("exact", 12000, 800000, |c| either!(c, exact));
    x.section("transform-domain", 3200, 200000, |c| either!(c, fft, 4, 7));
    x.section("transform-domain-large", 96, 8000, |c| either!(c, fft, 8, 11));
    x.section("high-level", 1200, 80000, high);
    x.section("tree", 320, 20000, tree);
    x.finish()
}
