//! C09: FFT-based products against the exact negacyclic / cyclic product.
use sunscreen_tfhe::fft::{cyclic::*, negacyclic::*};
use sunscreen_tfhe::*;
use vtfhe::*;

fn nrm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn cnrm(v: &[C64]) -> f64 {
    v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt()
}
fn negconv(a: &[f64], b: &[f64]) -> Vec<f64> {
    let n = a.len();
    let mut o = vec![0.0; n];
    for i in 0..n {
        for j in 0..n {
            if i + j < n { o[i + j] += a[i] * b[j] } else { o[i + j - n] -= a[i] * b[j] }
        }
    }
    o
}
fn cyclic(a: &[f64], b: &[f64]) -> Vec<f64> {
    let n = a.len();
    let mut o = vec![0.0; n];
    for i in 0..n {
        for j in 0..n {
            o[(i + j) % n] += a[i] * b[j]
        }
    }
    o
}
/// normwise error bound of one transform/product chain
fn tol(n: usize) -> f64 {
    8.0 * f64::EPSILON * ((n as f64).log2() + 3.0)
}
fn data(c: &mut Case, n: usize, bits: i32) -> Vec<f64> {
    let mode = c.rng.below(4);
    let p = c.rng.below(n as u64) as usize;
    (0..n)
        .map(|i| match mode {
            0 => if i == p { 2f64.powi(bits) } else { 0.0 },
            1 => 2f64.powi(bits) * if c.rng.bool() { 1.0 } else { -1.0 },
            _ => ((c.rng.f64() - 0.5) * 2f64.powi(bits)).round(),
        })
        .collect()
}

/// integer valued data: the inverse rounds to integers, so small data must come back exactly
fn twisted(c: &mut Case) -> Res {
    let lg = c.rng.range(1, 12) as usize;
    let n = 1 << lg;
    let f = TwistedFft::<f64>::new(n);
    let cached = get_fft(lg);
    let bits = c.rng.irange(1, 60) as i32;
    let a = data(c, n, bits);
    poison_scratch(&mut c.rng, n);
    let mut y = vec![Complex::new(9.0, f64::NAN); n / 2];
    f.forward(&a, &mut y);
    ck!(c, y.iter().all(|z| z.re.is_finite() && z.im.is_finite()), "forward leaves elements unwritten, n={n}");
    let mut y2 = vec![Complex::new(1e9, 1e9); n / 2];
    cached.forward(&a, &mut y2);
    ck!(c, y == y2, "cached and fresh transforms of size {n} differ");
    let keep = y.clone();
    let mut back = vec![f64::NAN; n];
    f.reverse(&y, &mut back);
    ck!(c, y == keep, "inverse changes its input");
    let e = a.iter().zip(&back).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
    let t = tol(n) * nrm(&a);
    ck!(c, e <= if t < 0.25 { 0.0 } else { t + 0.5 }, "round trip of size {n} off by {e} (tolerance {t})");
    // energy: the transform is a scaled isometry (Parseval for the N/2 odd roots)
    let en = (2.0 * cnrm(&y).powi(2) / n as f64).sqrt();
    ck!(c, (en - nrm(&a)).abs() <= 1e-12 * nrm(&a).max(1.0), "transform of size {n} is not a scaled isometry: {en} vs {}", nrm(&a));
    // linearity
    let b = data(c, n, bits);
    let s: Vec<f64> = a.iter().zip(&b).map(|(x, y)| x + y).collect();
    let (mut yb, mut ys) = (vec![Complex::new(0.0, 0.0); n / 2], vec![Complex::new(0.0, 0.0); n / 2]);
    f.forward(&b, &mut yb);
    f.forward(&s, &mut ys);
    let d: Vec<C64> = (0..n / 2).map(|i| ys[i] - y[i] - yb[i]).collect();
    ck!(c, cnrm(&d) <= tol(n) * (cnrm(&y) + cnrm(&yb)), "transform of a sum, n={n}");
    // product
    if n <= 512 {
        let p = negconv(&a, &b);
        let mut yp = vec![Complex::new(0.0, 0.0); n / 2];
        f.forward(&p, &mut yp);
        let d: Vec<C64> = (0..n / 2).map(|i| yp[i] - y[i] * yb[i]).collect();
        let t = tol(n) * 4.0 * nrm(&a) * nrm(&b) * (n as f64);
        ck!(c, cnrm(&d) <= t, "transform of a product is not the pointwise product, n={n}: {} > {t}", cnrm(&d));
        let z: Vec<C64> = (0..n / 2).map(|i| y[i] * yb[i]).collect();
        f.reverse(&z, &mut back);
        let e = p.iter().zip(&back).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
        let t = tol(n) * nrm(&a) * nrm(&b);
        c.max("product-error-ratio", (e - 0.5) / t);
        ck!(c, e <= if t < 0.25 { 0.0 } else { t + 0.5 }, "negacyclic product of size {n} off by {e} (tolerance {t})");
    }
    c.count(&format!("log2-size-{lg}"), 1);
    c.key(hash_u64s(&[lg as u64, bits as u64, a[0] as u64]));
    Ok(())
}
fn real_fft(c: &mut Case) -> Res {
    let n = 1usize << c.rng.range(1, 10);
    let f = RealFft::<f64>::new(n);
    let (a, b) = (data(c, n, 20), data(c, n, 20));
    let h = n / 2 + 1;
    let (mut ya, mut yb) = (vec![Complex::new(f64::NAN, 0.0); h], vec![Complex::new(0.0, f64::NAN); h]);
    f.forward(&a, &mut ya);
    f.forward(&b, &mut yb);
    let mut back = vec![f64::NAN; n];
    f.reverse(&ya, &mut back);
    let e = a.iter().zip(&back).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
    ck!(c, e <= tol(n) * nrm(&a) + 1e-9, "real transform round trip n={n} off by {e}");
    let z: Vec<C64> = ya.iter().zip(&yb).map(|(x, y)| x * y).collect();
    f.reverse(&z, &mut back);
    let p = cyclic(&a, &b);
    let e = p.iter().zip(&back).map(|(x, y)| (x - y).abs()).fold(0.0, f64::max);
    ck!(c, e <= 2.0 * tol(n) * nrm(&a) * nrm(&b) + 1e-9, "cyclic product n={n} off by {e}");
    c.key(hash_u64s(&[n as u64, a[0] as u64]));
    Ok(())
}

/// integer polynomial x torus polynomial through the transform, k products accumulated
fn external<S: Word>(c: &mut Case, lo: u32, hi: u32) -> Res {
    let lg = c.rng.range(lo as u64, hi as u64) as usize;
    let n = 1usize << lg;
    let k = c.rng.range(1, 4) as usize;
    let m = S::MASK;
    let mut acc = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
    let mut want = vec![0u64; n];
    let mut norm = 0.0;
    let mut ib = 0;
    poison_scratch(&mut c.rng, n);
    for _ in 0..k {
        ib = c.rng.range(0, 22) as u32;
        let mode = c.rng.below(4);
        let a: Vec<u64> = (0..n)
            .map(|i| match mode {
                0 => (1u64 << ib) & m,
                1 => (1u64 << ib).wrapping_neg() & m,
                2 => if i == n - 1 { (1u64 << ib) & m } else { 0 },
                _ => c.rng.irange(-(1 << ib), 1 << ib) as u64 & m,
            })
            .collect();
        let b: Vec<u64> = match c.rng.below(3) {
            0 => vec![1u64 << (S::W - 1); n],
            _ => (0..n).map(|_| c.rng.u64() & m).collect(),
        };
        let (pa, pb) = (poly::<S>(&a), tpoly::<S>(&b));
        let mut fa = PolynomialFft::new(&vec![Complex::new(f64::NAN, 1.0); n / 2]);
        let mut fb = PolynomialFft::new(&vec![Complex::new(1.0, f64::NAN); n / 2]);
        pa.fft(&mut fa);
        pb.fft(&mut fb);
        acc.multiply_add(&fa, &fb);
        want = addv(&want, &negmul(&a, &b, m), m);
        let f = |v: &[u64]| nrm(&v.iter().map(|x| signed(*x, S::W) as f64).collect::<Vec<_>>());
        norm += f(&a) * f(&b);
        c.key(hash_u64s(&[n as u64, hash_u64s(&a), hash_u64s(&b)]));
    }
    let mut out = tpoly::<S>(&(0..n).map(|_| c.rng.u64()).collect::<Vec<_>>());
    acc.ifft(&mut out);
    let got = rawu::<S, _>(&*out);
    let e = maxdiff(&got, &want, S::W) as f64;
    // normwise bound of the three transforms
    let t = 2.0 * f64::EPSILON * (lg as f64 + 3.0) * norm;
    c.max("error-ratio", e / t);
    c.max("largest-error-log2", if e > 0.0 { e.log2() } else { 0.0 });
    ck!(c, e <= if t < 0.25 { 0.0 } else { t + 1.0 }, "{} products of {ib} bit integers and {} bit torus, n={n}: error {e} exceeds {t}", k, S::W);
    c.count(&format!("log2-size-{lg}"), 1);
    c.describe(format!("{} bit, n={n}, {k} products, error 2^{:.1} of bound 2^{:.1}", S::W, e.max(1.0).log2(), t.log2()));
    Ok(())
}
/// transform and back of torus polynomials
fn roundtrip<S: Word>(c: &mut Case) -> Res {
    let lg = c.rng.range(1, 12) as usize;
    let n = 1usize << lg;
    let a: Vec<u64> = words::<S>(&mut c.rng, n).iter().map(|x| x.u()).collect();
    poison_scratch(&mut c.rng, n);
    let mut f = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
    tpoly::<S>(&a).fft(&mut f);
    let mut out = tpoly::<S>(&vec![S::MASK; n]);
    f.ifft(&mut out);
    let norm = nrm(&a.iter().map(|x| signed(*x, S::W) as f64).collect::<Vec<_>>());
    let t = 2.0 * f64::EPSILON * (lg as f64 + 3.0) * norm;
    let e = maxdiff(&rawu::<S, _>(&*out), &a, S::W) as f64;
    c.max("error-ratio", e / t);
    ck!(c, e <= if t < 0.25 { 0.0 } else { t + 1.0 }, "transform round trip {} bit n={n}: error {e} exceeds {t}", S::W);
    c.key(hash_u64s(&[lg as u64, hash_u64s(&a)]));
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C09");
    x.section("twisted-transform", 1200, 12000, twisted);
    x.section("real-transform", 600, 6000, real_fft);
    x.section("external-product", 1500, 15000, |c| either!(c, external, 4, 8));
    x.section("external-product-large", 120, 1500, |c| either!(c, external, 9, 12));
    x.section("round-trip", 1500, 15000, |c| either!(c, roundtrip));
    x.finish()
}
