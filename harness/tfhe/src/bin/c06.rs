//! C06: torus encoding, decoding, modulus switching, rounding and conversions.
use num_bigint::BigInt;
use std::num::Wrapping;
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::*;
use vtfhe::*;

fn enc_dec<S: Word>(c: &mut Case) -> Res {
    let pb = c.rng.range(1, (S::W - 1) as u64) as u32;
    let p = PlaintextBits(pb);
    let pm = wmask(pb);
    let half = 1u64 << (S::W - pb - 1);
    for _ in 0..64 {
        let m = match c.rng.below(5) {
            0 => 0,
            1 => pm,
            2 => (pm >> 1) + c.rng.below(2),
            3 => c.rng.u64() & S::MASK, // over-wide messages are reduced
            _ => c.rng.u64() & pm,
        };
        let t = Torus::<S>::encode(S::of(m), p);
        ck_eq!(c, t.inner().u(), (m << (S::W - pb)) & S::MASK, "encode({m}) with {pb} bits of {}", S::W);
        ck_eq!(c, t.decode(p).u(), m & pm, "decode(encode({m})) with {pb} bits of {}", S::W);
        // every error smaller than half a step
        let e: i128 = match c.rng.below(5) {
            0 => half as i128 - 1,
            1 => -(half as i128),
            2 => 0,
            3 => c.rng.irange(-3, 3) as i128,
            _ => (c.rng.u64() % half) as i128 * if c.rng.bool() { 1 } else { -1 },
        };
        let e = e.clamp(-(half as i128), half as i128 - 1);
        let x = Torus::<S>::from(S::of(t.inner().u().wrapping_add(e as u64) & S::MASK));
        if e.unsigned_abs() < half as u128 || e < 0 {
            ck_eq!(c, x.decode(p).u(), m & pm, "decode of message {m} disturbed by {e} (half step {half}), {pb} bits of {}", S::W);
        }
        // any word decodes to the nearest message
        let w = S::of(c.rng.edge(S::W));
        let want = (((w.u() as u128 + half as u128) >> (S::W - pb)) as u64) & pm;
        ck_eq!(c, Torus::<S>::from(w).decode(p).u(), want, "decode({:#x}) with {pb} bits of {}", w.u(), S::W);
        c.key(hash_u64s(&[S::W as u64, pb as u64, m & pm, e as u64]));
    }
    // whole polynomials
    let n = 1usize << c.rng.below(7);
    let ms: Vec<u64> = msgs(&mut c.rng, n, pb);
    let msg = poly::<S>(&ms);
    let mut enc = tpoly::<S>(&vec![S::MASK; n]);
    encode_polynomial(&mut enc, &msg, p);
    let want: Vec<u64> = ms.iter().map(|m| (m << (S::W - pb)) & S::MASK).collect();
    ck_eq!(c, rawu::<S, _>(&*enc), want, "encode_polynomial, {pb} bits");
    let noisy: Vec<u64> = want.iter().map(|x| x.wrapping_add((c.rng.u64() % half).wrapping_sub(half / 2)) & S::MASK).collect();
    let mut dec = poly::<S>(&vec![S::MASK; n]);
    decode_polynomial(&mut dec, &tpoly::<S>(&noisy), p);
    ck_eq!(c, rawu::<S, _>(&*dec), ms, "decode_polynomial, {pb} bits");
    c.describe(format!("{} bit word, {pb} plaintext bits", S::W));
    Ok(())
}

fn exhaustive_u32(c: &mut Case) -> Res {
    // every plaintext width, all messages around the edges, all errors around half a step
    let pb = (c.idx % 31) as u32 + 1;
    let p = PlaintextBits(pb);
    let half = 1i64 << (32 - pb - 1);
    let pm = wmask(pb);
    for m in (0..64u64).chain((0..64).map(|k| pm.wrapping_sub(k))).chain((0..64).map(|k| (pm / 2).wrapping_sub(32).wrapping_add(k))) {
        let m = m & pm;
        for e in [-half, -half + 1, -1, 0, 1, half - 2, half - 1] {
            if e < -half || e >= half {
                continue;
            }
            let x = (((m << (32 - pb)) as i64 + e) as u64 & 0xffff_ffff) as u32;
            ck_eq!(c, Torus::<u32>::from(x).decode(p) as u64, m, "u32 decode of {m}+{e} with {pb} bits");
        }
    }
    c.key(pb as u64);
    Ok(())
}

fn modswitch(c: &mut Case) -> Res {
    for _ in 0..64 {
        let x = c.rng.edge(64);
        let y: Torus<u32> = Torus::<u64>::from(x).switch_modulus_smaller::<u32>();
        ck_eq!(c, y.inner(), (x >> 32) as u32, "switch_modulus_smaller({x:#x})");
        let same: Torus<u64> = Torus::<u64>::from(x).switch_modulus_smaller::<u64>();
        ck_eq!(c, same.inner(), x, "switch_modulus_smaller to the same width");
        let s32: Torus<u32> = Torus::<u32>::from(x as u32).switch_modulus_smaller::<u32>();
        ck_eq!(c, s32.inner(), x as u32, "switch_modulus_smaller to the same width");
        c.key(x);
    }
    Ok(())
}

macro_rules! div_one {
    ($c:expr, $t:ty, $bits:expr) => {{
        let raw = |r: &mut Rng| -> $t {
            let v = if $bits == 128 { ((r.edge(64) as u128) << 64) | r.edge(64) as u128 } else { r.edge($bits) as u128 };
            let v = if $bits == 128 && r.bool() { v >> r.below(128) } else { v };
            v as $t
        };
        let a = raw(&mut $c.rng);
        let mut d = raw(&mut $c.rng);
        if $c.rng.chance(1, 3) { d = ($c.rng.range(1, 9)) as $t; }
        if d == 0 { d = 1; }
        #[allow(unused_comparisons)]
        let ovf = <$t>::MIN != 0 && a == <$t>::MIN && d == (0 as $t).wrapping_sub(1);
        if !ovf {
            let got = a.div_rounded(d);
            let (ba, bd, bg) = (BigInt::from(a), BigInt::from(d), BigInt::from(got));
            // |2*(got*d - a)| <= |d|
            let err = BigInt::from(2) * (bg.clone() * bd.clone() - ba.clone());
            $crate::ck!($c, BigInt::from(err.magnitude().clone()) <= BigInt::from(bd.magnitude().clone()),
                "{}: div_rounded({a}, {d}) = {got} is not the nearest integer", stringify!($t));
            $c.key(hash_u64s(&[a as u64, d as u64, $bits]));
        }
    }};
}
fn rounded_div(c: &mut Case) -> Res {
    for _ in 0..16 {
        div_one!(c, u8, 8);
        div_one!(c, u16, 16);
        div_one!(c, u32, 32);
        div_one!(c, u64, 64);
        div_one!(c, u128, 128);
        div_one!(c, usize, 64);
        div_one!(c, i8, 8);
        div_one!(c, i16, 16);
        div_one!(c, i32, 32);
        div_one!(c, i64, 64);
        div_one!(c, i128, 128);
        div_one!(c, isize, 64);
    }
    Ok(())
}
fn rounded_div_8(c: &mut Case) -> Res {
    let d = c.idx as u8;
    for a in 0..=255u8 {
        if d != 0 {
            let g = a.div_rounded(d) as i32;
            ck!(c, (2 * (g * d as i32 - a as i32)).abs() <= d as i32, "u8: {a} / {d} rounded to {g}");
        }
        let (sa, sd) = (a as i8, d as i8);
        if sd != 0 && !(sa == -128 && sd == -1) {
            let g = sa.div_rounded(sd) as i32;
            ck!(c, (2 * (g * sd as i32 - sa as i32)).abs() <= (sd as i32).abs(), "i8: {sa} / {sd} rounded to {g}");
        }
        c.key(((a as u64) << 8) | d as u64);
    }
    Ok(())
}

fn arith<S: Word>(c: &mut Case) -> Res {
    use num::traits::{MulAdd, WrappingAdd, WrappingNeg, WrappingSub, Zero};
    for _ in 0..32 {
        let (a, b, s) = (c.rng.edge(S::W), c.rng.edge(S::W), c.rng.edge(S::W));
        let (ta, tb) = (Torus::<S>::from(S::of(a)), Torus::<S>::from(S::of(b)));
        let m = S::MASK;
        let sum = a.wrapping_add(b) & m;
        let dif = a.wrapping_sub(b) & m;
        ck_eq!(c, (ta + tb).inner().u(), sum, "{a}+{b}");
        ck_eq!(c, (&ta + &tb).inner().u(), sum, "&{a}+&{b}");
        ck_eq!(c, (ta + &tb).inner().u(), sum, "{a}+&{b}");
        ck_eq!(c, (&ta + tb).inner().u(), sum, "&{a}+{b}");
        ck_eq!(c, ta.wrapping_add(&tb).inner().u(), sum, "{a} wrapping_add {b}");
        ck_eq!(c, (ta - tb).inner().u(), dif, "{a}-{b}");
        ck_eq!(c, (&ta - &tb).inner().u(), dif, "&{a}-&{b}");
        ck_eq!(c, (ta - &tb).inner().u(), dif, "{a}-&{b}");
        ck_eq!(c, (&ta - tb).inner().u(), dif, "&{a}-{b}");
        ck_eq!(c, ta.wrapping_sub(&tb).inner().u(), dif, "{a} wrapping_sub {b}");
        let mut t = ta;
        t += tb;
        ck_eq!(c, t.inner().u(), sum, "{a} += {b}");
        let mut t = ta;
        t += &tb;
        ck_eq!(c, t.inner().u(), sum, "{a} += &{b}");
        let mut t = ta;
        t -= tb;
        ck_eq!(c, t.inner().u(), dif, "{a} -= {b}");
        let mut t = ta;
        t -= &tb;
        ck_eq!(c, t.inner().u(), dif, "{a} -= &{b}");
        let neg = a.wrapping_neg() & m;
        ck_eq!(c, (-ta).inner().u(), neg, "-{a}");
        ck_eq!(c, WrappingNeg::wrapping_neg(&ta).inner().u(), neg, "wrapping_neg {a}");
        let pr = a.wrapping_mul(s) & m;
        ck_eq!(c, (ta * S::of(s)).inner().u(), pr, "{a}*{s}");
        ck_eq!(c, (&ta * &S::of(s)).inner().u(), pr, "&{a}*&{s}");
        ck_eq!(c, MulAdd::mul_add(ta, S::of(s), tb).inner().u(), pr.wrapping_add(b) & m, "{a}*{s}+{b}");
        let sh = c.rng.below(S::W as u64) as usize;
        ck_eq!(c, (ta >> sh).inner().u(), a >> sh, "{a}>>{sh}");
        ck_eq!(c, (ta << sh).inner().u(), (a << sh) & m, "{a}<<{sh}");
        ck_eq!(c, (ta & tb).inner().u(), a & b, "{a}&{b}");
        ck_eq!(c, [ta, tb, ta].into_iter().sum::<Torus<S>>().inner().u(), sum.wrapping_add(a) & m, "sum");
        ck_eq!(c, <Torus<S> as Zero>::zero().inner().u(), 0, "zero");
        ck!(c, Zero::is_zero(&ta) == (a == 0), "is_zero({a})");
        c.key(hash_u64s(&[a, b, s, S::W as u64]));
    }
    Ok(())
}

fn reals<S: Word>(c: &mut Case) -> Res {
    for _ in 0..32 {
        let (a, b) = (S::of(c.rng.edge(S::W)), S::of(c.rng.edge(S::W)));
        let b = if c.rng.chance(1, 3) { S::of(a.u().wrapping_add(c.rng.irange(-5, 5) as u64) & S::MASK) } else { b };
        let q = 2f64.powi(S::W as i32);
        let (ta, tb) = (Torus::<S>::from(a), Torus::<S>::from(b));
        let na = ta.normalized_torus();
        ck!(c, (na - a.u() as f64 / q).abs() <= 1e-15 && (0.0..=1.0).contains(&na), "normalized_torus({:#x}) = {na}", a.u());
        // b = a + distance (mod 1), |distance| <= 1/2
        for d in [ta.normalized_torus_distance(&tb), normalized_torus_distance(&ta, &tb)] {
            let want = signed(b.u().wrapping_sub(a.u()), S::W) as f64 / q;
            let ok = (d - want).abs() <= 1e-15 || (want == -0.5 && d == 0.5);
            ck!(c, ok, "normalized_torus_distance({:#x}, {:#x}) = {d}, expected {want}", a.u(), b.u());
        }
        ck_eq!(c, a.to_f64(), a.u() as f64, "to_f64");
        ck_eq!(c, ta.to_f64(), a.u() as f64, "Torus::to_f64");
        // every integer an f64 holds exactly and that fits the signed range converts exactly
        let k = c.rng.below((S::W - 1).min(53) as u64) as u32;
        let mag = (c.rng.u64() & wmask(k)) as i64;
        let v = if c.rng.bool() { mag } else { -mag };
        let frac = if k < 40 { c.rng.f64() * 0.999 } else { 0.0 };
        let f = if v >= 0 { v as f64 + frac } else { v as f64 - frac };
        let want = S::of(v as u64);
        ck_eq!(c, S::from_f64(v as f64), want, "from_f64({v})");
        ck_eq!(c, S::from_f64(f), want, "from_f64({f}) truncates");
        ck_eq!(c, Torus::<S>::from_f64(v as f64).inner(), want, "Torus::from_f64({v})");
        ck_eq!(c, Wrapping::<S>::from_f64(v as f64).0, want, "Wrapping::from_f64({v})");
        // conversions between word types
        let x = c.rng.edge(64);
        ck_eq!(c, S::from_u64(x).u(), x & S::MASK, "from_u64");
        ck_eq!(c, a.to_u64(), a.u(), "to_u64");
        ck_eq!(c, ta.to_u64(), a.u(), "Torus::to_u64");
        ck_eq!(c, ta.inner(), a, "inner");
        ck_eq!(c, *ta, a, "deref");
        c.key(hash_u64s(&[a.u(), b.u()]));
    }
    Ok(())
}
fn signed_views(c: &mut Case) -> Res {
    for _ in 0..32 {
        let x = c.rng.edge(64);
        ck_eq!(c, x.reinterpret_as_signed(), x as i64, "reinterpret u64");
        ck_eq!(c, (x as u32).reinterpret_as_signed(), x as u32 as i32, "reinterpret u32");
        ck_eq!(c, (x as i64).reinterpret_as_unsigned(), x, "reinterpret i64");
        ck_eq!(c, (x as i32).reinterpret_as_unsigned(), x as u32, "reinterpret i32");
        ck_eq!(c, (x as u16).reinterpret_as_signed(), x as i16, "reinterpret u16");
        ck_eq!(c, (x as i8).reinterpret_as_unsigned(), x as u8, "reinterpret i8");
        c.key(x);
    }
    Ok(())
}

fn shr_round<S: Word>(c: &mut Case) -> Res {
    let len = c.rng.range(1, 70) as usize;
    let n = c.rng.range(1, (S::W - 1) as u64) as u32;
    let x = words::<S>(&mut c.rng, len);
    let mut y = Polynomial::new(&words::<S>(&mut c.rng, len));
    polynomial_shr_round(&mut y, &Polynomial::new(&x), n);
    for i in 0..len {
        let want = ((x[i].u() as u128 + (1u128 << (n - 1))) >> n) as u64 & S::MASK;
        ck_eq!(c, y.coeffs()[i].u(), want, "polynomial_shr_round({:#x}, {n}) at {i}", x[i].u());
    }
    c.describe(format!("shr_round {} bit, len {len}, n {n}", S::W));
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C06");
    x.section("encode-decode", 4000, 60000, |c| either!(c, enc_dec));
    x.section("decode-u32-edges", 31, 31, exhaustive_u32);
    x.section("modulus-switch", 2000, 20000, modswitch);
    x.section("rounded-division", 2000, 40000, rounded_div);
    x.section("rounded-division-8bit-all", 256, 256, rounded_div_8);
    x.section("torus-arithmetic", 3000, 40000, |c| either!(c, arith));
    x.section("reals", 3000, 40000, |c| either!(c, reals));
    x.section("signed-views", 500, 5000, signed_views);
    x.section("shift-round", 3000, 40000, |c| either!(c, shr_round));
    x.finish()
}
