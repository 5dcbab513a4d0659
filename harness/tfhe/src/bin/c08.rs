//! C08: negacyclic polynomial arithmetic against schoolbook arithmetic in Z_q[X]/(X^N+1).
use std::num::Wrapping;
use std::ops::{Add, Mul, Sub};
use sunscreen_tfhe::ops::polynomial::*;
use sunscreen_tfhe::polynomial::*;
use vtfhe::*;

fn vecs(c: &mut Case, n: usize, m: u64) -> Vec<u64> {
    let mode = c.rng.below(6);
    let pos = c.rng.below(n as u64) as usize;
    (0..n)
        .map(|i| match mode {
            0 => c.rng.edge(64) & m,
            1 => m,
            2 => if i == pos { c.rng.edge(64) & m } else { 0 },
            3 => c.rng.irange(-2, 2) as u64 & m,
            _ => c.rng.u64() & m,
        })
        .collect()
}
fn deg(c: &mut Case, hi: u64) -> usize {
    1usize << c.rng.range(0, hi)
}

fn linear<S: Word>(c: &mut Case) -> Res {
    let n = if c.rng.chance(1, 4) { c.rng.range(1, 33) as usize } else { deg(c, 9) };
    let m = S::MASK;
    let (a, b, d) = (vecs(c, n, m), vecs(c, n, m), vecs(c, n, m));
    let (pa, pb) = (tpoly::<S>(&a), tpoly::<S>(&b));
    let s = c.rng.edge(S::W);
    let sum = addv(&a, &b, m);
    let dif = subv(&a, &b, m);
    let get = |p: &PolynomialRef<Torus<S>>| rawu::<S, _>(p);

    let mut o = tpoly::<S>(&d);
    polynomial_add(&mut o, &pa, &pb);
    ck_eq!(c, get(&o), sum, "polynomial_add n={n}");
    let mut o = tpoly::<S>(&d);
    polynomial_sub(&mut o, &pa, &pb);
    ck_eq!(c, get(&o), dif, "polynomial_sub n={n}");
    // plain words through the vector kernels
    let mut o = poly::<S>(&d);
    polynomial_add(&mut o, &poly::<S>(&a), &poly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), sum, "polynomial_add of words n={n}");
    let mut o = poly::<S>(&d);
    polynomial_sub(&mut o, &poly::<S>(&a), &poly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), dif, "polynomial_sub of words n={n}");
    let mut o = pa.clone();
    polynomial_add_assign(&mut o, &pb);
    ck_eq!(c, get(&o), sum, "polynomial_add_assign n={n}");
    let mut o = pa.clone();
    polynomial_sub_assign(&mut o, &pb);
    ck_eq!(c, get(&o), dif, "polynomial_sub_assign n={n}");
    let mut o = pa.clone();
    *o += &*pb;
    ck_eq!(c, get(&o), sum, "+= n={n}");
    let mut o = pa.clone();
    *o -= &*pb;
    ck_eq!(c, get(&o), dif, "-= n={n}");
    ck_eq!(c, get(&(&*pa + &*pb)), sum, "&a + &b n={n}");
    ck_eq!(c, get(&(&*pa - &*pb)), dif, "&a - &b n={n}");
    ck_eq!(c, get(&(pa.clone() + pb.clone())), sum, "a + b n={n}");
    ck_eq!(c, get(&(pa.clone() - pb.clone())), dif, "a - b n={n}");
    let mut o = pa.clone();
    polynomial_negate(&mut o);
    ck_eq!(c, get(&o), negv(&a, m), "polynomial_negate n={n}");
    let mut o = tpoly::<S>(&d);
    polynomial_scalar_mul(&mut o, &*pa, S::of(s));
    ck_eq!(c, get(&o), scalev(&a, s, m), "polynomial_scalar_mul n={n} s={s}");
    let want = addv(&d, &scalev(&a, s, m), m);
    let mut o = tpoly::<S>(&d);
    polynomial_scalar_mad(&mut o, &*pa, S::of(s));
    ck_eq!(c, get(&o), want, "polynomial_scalar_mad n={n} s={s}");
    // views and maps
    let mut o = poly::<S>(&d);
    poly::<S>(&a).map_into(&mut o, |x| S::of(x.u().wrapping_add(1)));
    ck_eq!(c, rawu::<S, _>(&*o), a.iter().map(|x| x.wrapping_add(1) & m).collect::<Vec<_>>(), "map_into");
    ck_eq!(c, rawu::<S, _>(&*poly::<S>(&a).map(|x| S::of(!x.u()))), a.iter().map(|x| !x & m).collect::<Vec<_>>(), "map");
    ck_eq!(c, rawu::<S, _>(poly::<S>(&a).as_torus()), a, "as_torus");
    ck_eq!(c, rawu::<S, _>(poly::<S>(&a).as_wrapping()), a, "as_wrapping");
    ck!(c, pa.len() == n && pa.degree().0 == n && pa.coeffs().len() == n && !pa.is_empty(), "length of a polynomial");
    c.key(hash_u64s(&[n as u64, s, S::W as u64]));
    c.count(&format!("log2-degree-{}", n.ilog2()), 1);
    Ok(())
}

/// `c += a*s` kernels whose contract limits the scalar: any scalar whose products are exact
fn small_scalar(c: &mut Case) -> Res {
    let n = c.rng.range(1, 70) as usize;
    let (a, d) = (vecs(c, n, u64::MAX), vecs(c, n, u64::MAX));
    let s = if c.rng.bool() { c.rng.below(1 << 20) } else { c.rng.edge(64) };
    let want = addv(&d, &scalev(&a, s, u64::MAX), u64::MAX);
    let mut o = tpoly::<u64>(&d);
    polynomial_small_scalar_mad(&mut o, &tpoly::<u64>(&a), Torus::from(s));
    ck_eq!(c, rawu::<u64, _>(&*o), want, "polynomial_small_scalar_mad torus n={n} s={s}");
    c.key(hash_u64s(&[n as u64, s]));
    Ok(())
}

fn monomials<S: Word>(c: &mut Case) -> Res {
    let n = deg(c, 8);
    let m = S::MASK;
    let a = vecs(c, n, m);
    for _ in 0..8 {
        let two_n = 2 * n as i64;
        let k: i64 = match c.rng.below(5) {
            0 => c.rng.irange(0, two_n),
            1 => c.rng.irange(-two_n, 0),
            2 => *[0, n as i64, two_n, two_n - 1, n as i64 - 1, n as i64 + 1, 3 * n as i64, 2 * two_n].get(c.rng.below(8) as usize).unwrap(),
            3 => -*[0, n as i64, two_n, two_n - 1, n as i64 - 1, n as i64 + 1, 3 * n as i64, 2 * two_n].get(c.rng.below(8) as usize).unwrap(),
            _ => c.rng.irange(-(1 << 40), 1 << 40),
        };
        let mut p = tpoly::<S>(&a);
        p.mul_by_monomial_negacyclic(k as isize);
        ck_eq!(c, rawu::<S, _>(&*p), monomial(&a, k, m), "X^{k} * p, n={n}");
        let mut p = tpoly::<S>(&a);
        p.mul_by_positive_monomial_negacyclic(k.unsigned_abs() as usize);
        ck_eq!(c, rawu::<S, _>(&*p), monomial(&a, k.abs(), m), "positive X^{k} * p, n={n}");
        let mut p = tpoly::<S>(&a);
        p.mul_by_negative_monomial_negacyclic(k.unsigned_abs() as usize);
        ck_eq!(c, rawu::<S, _>(&*p), monomial(&a, -k.abs(), m), "negative X^{k} * p, n={n}");
        c.key(hash_u64s(&[n as u64, k as u64]));
    }
    Ok(())
}
fn all_monomials<S: Word>(c: &mut Case) -> Res {
    let n = 1usize << (c.idx / 2 % 7);
    let m = S::MASK;
    let a: Vec<u64> = (0..n as u64).map(|i| i + 1).collect();
    for k in -4 * n as i64..=4 * n as i64 {
        let mut p = tpoly::<S>(&a);
        p.mul_by_monomial_negacyclic(k as isize);
        ck_eq!(c, rawu::<S, _>(&*p), monomial(&a, k, m), "X^{k} * p, n={n}");
        c.key(hash_u64s(&[n as u64, k as u64]));
    }
    Ok(())
}

fn substitution<S: Word>(c: &mut Case) -> Res {
    let n = deg(c, 9);
    let m = S::MASK;
    let a = vecs(c, n, m);
    let k = match c.rng.below(3) {
        0 => (n as u64 >> c.rng.below(n.ilog2() as u64 + 1)) | 1,
        1 => c.rng.below(2 * n as u64) | 1,
        _ => c.rng.below(1 << 30) | 1,
    };
    let mut o = tpoly::<S>(&vecs(c, n, m));
    polynomial_pow_k::<Torus<S>, S>(&mut o, &tpoly::<S>(&a), k as usize);
    ck_eq!(c, rawu::<S, _>(&*o), substitute(&a, k, m), "p(X^{k}), n={n}");
    c.key(hash_u64s(&[n as u64, k]));
    Ok(())
}

fn products<S: Word>(c: &mut Case) -> Res
where
    Wrapping<S>: Sub<Wrapping<S>, Output = Wrapping<S>> + Add<Wrapping<S>, Output = Wrapping<S>> + Mul<Wrapping<S>, Output = Wrapping<S>>,
{
    let n = deg(c, if c.quick { 7 } else { 9 });
    let m = S::MASK;
    let (a, b, d) = (vecs(c, n, m), vecs(c, n, m), vecs(c, n, m));
    let ab = negmul(&a, &b, m);
    let want = addv(&d, &ab, m);
    poison_scratch(&mut c.rng, n);
    let mut o = tpoly::<S>(&d);
    polynomial_external_mad(&mut o, &tpoly::<S>(&a), &poly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), want, "polynomial_external_mad n={n}");
    ck_eq!(c, rawu::<S, _>(&*(&*tpoly::<S>(&a) * &*poly::<S>(&b))), ab, "external product operator n={n}");
    let mut o = poly::<S>(&d);
    polynomial_mad_by_wrap(&mut o, &poly::<S>(&a), &poly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), want, "polynomial_mad_by_wrap n={n}");
    let mut o = poly::<S>(&d);
    polynomial_mad(o.as_wrapping_mut(), poly::<S>(&a).as_wrapping(), poly::<S>(&b).as_wrapping());
    ck_eq!(c, rawu::<S, _>(&*o), want, "polynomial_mad n={n}");
    c.key(hash_u64s(&[n as u64, hash_u64s(&a), hash_u64s(&b)]));
    c.count(&format!("log2-degree-{}", n.ilog2()), 1);
    c.describe(format!("{} bit product, n={n}", S::W));
    Ok(())
}

/// small complete rings: every pair of polynomials with coefficients in {-1,0,1}
fn tiny_complete<S: Word>(c: &mut Case) -> Res {
    let n = 1usize << (c.idx / 2 % 3);
    let m = S::MASK;
    let total = 3u64.pow(n as u32);
    let mk = |mut i: u64| -> Vec<u64> { (0..n).map(|_| { let d = i % 3; i /= 3; (d as i64 - 1) as u64 & m }).collect() };
    for i in 0..total {
        for j in 0..total {
            let (a, b) = (mk(i), mk(j));
            ck_eq!(c, rawu::<S, _>(&*(&*tpoly::<S>(&a) * &*poly::<S>(&b))), negmul(&a, &b, m), "product of {a:?} and {b:?}");
        }
        c.key(hash_u64s(&[n as u64, i]));
    }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C08");
    x.section("linear", 4000, 60000, |c| either!(c, linear));
    x.section("small-scalar", 2000, 20000, small_scalar);
    x.section("monomials", 4000, 60000, |c| either!(c, monomials));
    x.section("monomials-complete", 14, 14, |c| either!(c, all_monomials));
    x.section("substitution", 3000, 30000, |c| either!(c, substitution));
    x.section("products", 1500, 20000, |c| either!(c, products));
    x.section("products-complete", 6, 6, |c| either!(c, tiny_complete));
    x.finish()
}
