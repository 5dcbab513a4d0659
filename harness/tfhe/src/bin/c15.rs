//! C15: linear homomorphisms change the phase by exactly the same linear map.
use sunscreen_tfhe::ops::bootstrapping::{rotate_glwe_monomial_negacyclic, rotate_glwe_negative_monomial_negacyclic, rotate_glwe_positive_monomial_negacyclic};
use sunscreen_tfhe::ops::ciphertext::*;
use sunscreen_tfhe::ops::{fft_ops, homomorphisms};
use vtfhe::*;

fn lwe<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    let l = gen_lwe(&mut c.rng, 80);
    let n = l.dim.0;
    let kind = c.rng.below(4) as u32;
    let (s, _) = lwe_sk::<S>(&mut c.rng, n, kind);
    let a = rawv::<S>(c, n + 1);
    let b = rawv::<S>(c, n + 1);
    let (pa, pb) = (lwe_phase(&a, &s, m), lwe_phase(&b, &s, m));
    let (ea, eb) = (tent!(S, &a, LweCiphertextRef<S>), tent!(S, &b, LweCiphertextRef<S>));
    let t = junk::<S>(&mut c.rng, 1)[0];
    let dirty = junk::<S>(&mut c.rng, n + 1);
    let mut o = tent!(S, &dirty, LweCiphertextRef<S>);
    let ph = |x: &LweCiphertextRef<S>| lwe_phase(&rawu::<S, _>(x), &s, m);
    let add = pa.wrapping_add(pb) & m;
    let sub = pa.wrapping_sub(pb) & m;
    let neg = pa.wrapping_neg() & m;
    let mut x = ea.clone();
    add_lwe_inplace(&mut x, &eb, &l);
    ck_eq!(c, ph(&x), add, "add_lwe_inplace, n={n}");
    ck_eq!(c, ph(&(ea.clone() + eb.clone())), add, "a + b");
    ck_eq!(c, ph(&(&*ea + &*eb)), add, "&a + &b");
    ck_eq!(c, ph(&num::traits::WrappingAdd::wrapping_add(&ea, &eb)), add, "a.wrapping_add(b)");
    let mut x = ea.clone();
    x += eb.clone();
    ck_eq!(c, ph(&x), add, "a += b");
    ck_eq!(c, ph(&(ea.clone() - eb.clone())), sub, "a - b");
    ck_eq!(c, ph(&(&*ea - &*eb)), sub, "&a - &b");
    ck_eq!(c, ph(&num::traits::WrappingSub::wrapping_sub(&ea, &eb)), sub, "a.wrapping_sub(b)");
    let mut x = ea.clone();
    x -= eb.clone();
    ck_eq!(c, ph(&x), sub, "a -= b");
    ck_eq!(c, ph(&-ea.clone()), neg, "-a");
    ck_eq!(c, ph(&-&*ea), neg, "-&a");
    ck_eq!(c, ph(&num::traits::WrappingNeg::wrapping_neg(&ea)), neg, "a.wrapping_neg()");
    homomorphisms::lwe_rotate(&mut o, &ea, Torus::from(S::of(t)), &l);
    ck_eq!(c, ph(&o), pa.wrapping_add(t) & m, "lwe_rotate, n={n}");
    ck_eq!(c, (rawu::<S, _>(&*ea), rawu::<S, _>(&*eb)), (a.clone(), b.clone()), "operands after the operations");
    c.key(hash_u64s(&[n as u64, a[0], b[0], t]));
    c.describe(format!("{} bit LWE n={n}", S::W));
    Ok(())
}
fn rawv<S: Word>(c: &mut Case, n: usize) -> Vec<u64> {
    words::<S>(&mut c.rng, n).iter().map(|x| x.u()).collect()
}
fn glwe<S: Word>(c: &mut Case, lo: u32, hi: u32) -> Res {
    let m = S::MASK;
    let g = gen_glwe(&mut c.rng, lo, hi, 4);
    let (k, n) = (gk(&g), gn(&g));
    let kind = c.rng.below(4) as u32;
    let (s, _) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let size = (k + 1) * n;
    let (a, b, d) = (rawv::<S>(c, size), rawv::<S>(c, size), rawv::<S>(c, size));
    let ph = |x: &GlweCiphertextRef<S>| glwe_phase(&rawu::<S, _>(x), &s, n, m);
    let (pa, pb, pd) = (glwe_phase(&a, &s, n, m), glwe_phase(&b, &s, n, m), glwe_phase(&d, &s, n, m));
    let (ea, eb, ed) = (tent!(S, &a, GlweCiphertextRef<S>), tent!(S, &b, GlweCiphertextRef<S>), tent!(S, &d, GlweCiphertextRef<S>));
    let at = format!("{} bit GLWE k={k} n={n}", S::W);
    poison_scratch(&mut c.rng, n);

    let add = addv(&pa, &pb, m);
    let sub = subv(&pa, &pb, m);
    let neg = negv(&pa, m);
    let mut o = ed.clone();
    add_glwe_ciphertexts(&mut o, &ea, &eb, &g);
    ck_eq!(c, ph(&o), add, "add_glwe_ciphertexts, {at}");
    let mut o = ed.clone();
    sub_glwe_ciphertexts(&mut o, &ea, &eb, &g);
    ck_eq!(c, ph(&o), sub, "sub_glwe_ciphertexts, {at}");
    let mut o = ea.clone();
    glwe_add_assign(&mut o, &eb, &g);
    ck_eq!(c, ph(&o), add, "glwe_add_assign, {at}");
    let mut o = ea.clone();
    glwe_negate_inplace(&mut o, &g);
    ck_eq!(c, ph(&o), neg, "glwe_negate_inplace, {at}");
    ck_eq!(c, ph(&(ea.clone() + eb.clone())), add, "a + b, {at}");
    ck_eq!(c, ph(&(&*ea + &*eb)), add, "&a + &b, {at}");
    ck_eq!(c, ph(&num::traits::WrappingAdd::wrapping_add(&ea, &eb)), add, "a.wrapping_add(b), {at}");
    ck_eq!(c, ph(&(ea.clone() - eb.clone())), sub, "a - b, {at}");
    ck_eq!(c, ph(&(&*ea - &*eb)), sub, "&a - &b, {at}");
    ck_eq!(c, ph(&num::traits::WrappingSub::wrapping_sub(&ea, &eb)), sub, "a.wrapping_sub(b), {at}");
    let mut x = ea.clone();
    x += eb.clone();
    ck_eq!(c, ph(&x), add, "a += b, {at}");
    let mut x = ea.clone();
    x -= eb.clone();
    ck_eq!(c, ph(&x), sub, "a -= b, {at}");
    ck_eq!(c, ph(&-ea.clone()), neg, "-a, {at}");
    ck_eq!(c, ph(&-&*ea), neg, "-&a, {at}");
    ck_eq!(c, ph(&num::traits::WrappingNeg::wrapping_neg(&ea)), neg, "a.wrapping_neg(), {at}");

    // multiplication by clear polynomials and scalars
    let q: Vec<u64> = match c.rng.below(3) {
        0 => msgs(&mut c.rng, n, 1),
        1 => (0..n).map(|_| (c.rng.below(3).wrapping_sub(1)) & m).collect(),
        _ => rawv::<S>(c, n),
    };
    let mut o = ed.clone();
    glwe_polynomial_mad(&mut o, &ea, &poly::<S>(&q), &g);
    ck_eq!(c, ph(&o), addv(&pd, &negmul(&q, &pa, m), m), "glwe_polynomial_mad, {at}");
    // "small" scalars: what a decomposition digit may be
    let lim = if S::W == 64 { 32 } else { 32 };
    let sc = (c.rng.irange(-(1i64 << (lim - 1)), (1i64 << (lim - 1)) - 1) as u64) & m;
    let mut o = ed.clone();
    glwe_scalar_mad(&mut o, &ea, S::of(sc), &g);
    ck_eq!(c, ph(&o), addv(&pd, &scalev(&pa, sc, m), m), "glwe_scalar_mad by {sc:#x}, {at}");
    // added constant
    let t = junk::<S>(&mut c.rng, 1)[0];
    let mut o = ed.clone();
    glwe_rotate(&mut o, &ea, Torus::from(S::of(t)), &g);
    ck_eq!(c, ph(&o), pa.iter().map(|x| x.wrapping_add(t) & m).collect::<Vec<_>>(), "glwe_rotate, {at}");
    // monomials
    let r = if c.rng.chance(1, 4) { c.rng.pick(&[0, 1, n as i64 - 1, n as i64, 2 * n as i64 - 1, 2 * n as i64]) } else { c.rng.irange(-(4 * n as i64), 4 * n as i64) };
    let mut o = ed.clone();
    rotate_glwe_monomial_negacyclic(&mut o, &ea, r as isize, &g);
    ck_eq!(c, ph(&o), monomial(&pa, r, m), "rotation by X^{r}, {at}");
    let mut o = ed.clone();
    rotate_glwe_positive_monomial_negacyclic(&mut o, &ea, r.unsigned_abs() as usize, &g);
    ck_eq!(c, ph(&o), monomial(&pa, r.abs(), m), "positive rotation by {r}, {at}");
    let mut o = ed.clone();
    rotate_glwe_negative_monomial_negacyclic(&mut o, &ea, r.unsigned_abs() as usize, &g);
    ck_eq!(c, ph(&o), monomial(&pa, -r.abs(), m), "negative rotation by {r}, {at}");
    // rounding switch: every component is its own nearest integer
    let sh = c.rng.range(1, S::W as u64 - 1) as u32;
    let mut o = ed.clone();
    glwe_mod_switch_and_expand_pow_2(&mut o, &ea, &g, sh);
    let want: Vec<u64> = a.iter().map(|x| ((*x as u128 + (1u128 << (sh - 1))) >> sh) as u64 & m).collect();
    ck_eq!(c, rawu::<S, _>(&*o), want, "glwe_mod_switch_and_expand_pow_2 by {sh}, {at}");
    ck_eq!(c, (rawu::<S, _>(&*ea), rawu::<S, _>(&*eb)), (a.clone(), b.clone()), "operands after the operations");
    c.key(hash_u64s(&[k as u64, n as u64, a[0], b[0], q[0], r as u64]));
    c.describe(at);
    Ok(())
}
fn fft<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    let g = gen_glwe(&mut c.rng, 4, 8, 4);
    let (k, n) = (gk(&g), gn(&g));
    let kind = c.rng.pick(&[0, 2, 3]);
    let (s, _) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let size = (k + 1) * n;
    let terms = c.rng.range(1, 4) as usize;
    let bits = c.rng.range(1, 20) as u32;
    let mut of = GlweCiphertextFft::<C64>::new(&g);
    let mut want = vec![0; n];
    for _ in 0..terms {
        let a = junk::<S>(&mut c.rng, size);
        let q: Vec<u64> = (0..n).map(|_| c.rng.irange(-(1 << (bits - 1)), 1 << (bits - 1)) as u64 & m).collect();
        let ea = tent!(S, &a, GlweCiphertextRef<S>);
        let mut fa = GlweCiphertextFft::<C64>::new(&g);
        fill_c64::<GlweCiphertextFftRef<C64>>(&mut c.rng, &mut fa);
        ea.fft(&mut fa, &g);
        // the transform alone keeps every component
        let mut back = tent!(S, &junk::<S>(&mut c.rng, size), GlweCiphertextRef<S>);
        fa.ifft(&mut back, &g);
        close(c, &rawu::<S, _>(&*back), &a, fft_tol(S::W, n, 1, 1.0, 0.0), S::W, &|| format!("{} bit GLWE k={k} n={n} to the transform domain and back", S::W))?;
        let mut fq = PolynomialFft::<C64>::new(&vec![Complex::new(0.0, 0.0); n / 2]);
        poly::<S>(&q).fft(&mut fq);
        fft_ops::glwe_polynomial_mad(&mut of, &fa, &fq, &g);
        want = addv(&want, &negmul(&q, &glwe_phase(&a, &s, n, m), m), m);
    }
    let mut o = tent!(S, &junk::<S>(&mut c.rng, size), GlweCiphertextRef<S>);
    of.ifft(&mut o, &g);
    let tol = fft_tol(S::W, n, terms, digit_norm(n, bits as usize), norm2(&s, S::W));
    close(c, &glwe_phase(&rawu::<S, _>(&*o), &s, n, m), &want, tol, S::W, &|| format!("{} bit GLWE k={k} n={n}: {terms} products accumulated in the transform domain", S::W))?;
    c.key(hash_u64s(&[k as u64, n as u64, terms as u64, bits as u64, want[0]]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C15");
    x.section("lwe", 80000, 20000000, |c| either!(c, lwe));
    x.section("glwe", 24000, 4000000, |c| either!(c, glwe, 0, 5));
    x.section("glwe-large", 240, 40000, |c| either!(c, glwe, 6, 10));
    x.section("transform-domain", 6000, 1000000, |c| either!(c, fft));
    x.finish()
}
