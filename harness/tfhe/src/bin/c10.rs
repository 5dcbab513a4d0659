//! C10: vector kernels against their element-wise definition, in both backends,
//! inside guard zones.
use vtfhe::*;

#[cfg(feature = "hooks")]
mod kernels {
    use super::*;
    use num::complex::ComplexFloat;
    use sunscreen_tfhe::verif_hooks::*;

    /// an aligned buffer with guard elements on both sides of a window at a chosen offset
    struct Guarded<T: Copy> {
        v: Vec<T>,
        off: usize,
        n: usize,
        junk: Vec<u64>,
    }
    fn bits<T: Copy>(x: &[T]) -> Vec<u64> {
        let b = unsafe { std::slice::from_raw_parts(x.as_ptr() as *const u8, std::mem::size_of_val(x)) };
        b.chunks(8).map(|c| { let mut a = [0u8; 8]; a[..c.len()].copy_from_slice(c); u64::from_le_bytes(a) }).collect()
    }
    impl<T: Copy> Guarded<T> {
        /// window starts `shift` elements after a 64 byte boundary
        fn new(data: &[T], guard: impl FnMut() -> T, shift: usize) -> Self {
            let mut guard = guard;
            let sz = std::mem::size_of::<T>();
            let pad = 192 / sz;
            let mut v: Vec<T> = (0..data.len() + 2 * pad + shift).map(|_| guard()).collect();
            let base = v.as_ptr() as usize;
            let mut off = 64 / sz;
            while (base + off * sz) % 64 != 0 {
                off += 1;
            }
            off += shift;
            v[off..off + data.len()].copy_from_slice(data);
            let mut g = Guarded { v, off, n: data.len(), junk: vec![] };
            g.junk = g.outside();
            g
        }
        fn outside(&self) -> Vec<u64> {
            let mut o = bits(&self.v[..self.off]);
            o.extend(bits(&self.v[self.off + self.n..]));
            o
        }
        fn s(&self) -> &[T] {
            &self.v[self.off..self.off + self.n]
        }
        fn m(&mut self) -> &mut [T] {
            &mut self.v[self.off..self.off + self.n]
        }
        fn intact(&self) -> bool {
            self.outside() == self.junk
        }
    }
    macro_rules! intact {
        ($c:expr, $what:expr, $($g:expr),*) => { $( ck!($c, $g.intact(), "{} wrote outside its slice ({})", $what, stringify!($g)); )* }
    }

    pub fn len(c: &mut Case) -> usize {
        match c.rng.below(4) {
            0 => c.rng.below(20) as usize,
            1 => 8 * c.rng.below(20) as usize,
            2 => 16 * c.rng.below(9) as usize + c.rng.below(3) as usize,
            _ => c.rng.below(150) as usize,
        }
    }
    fn f64_mod(v: f64, w: u32) -> u64 {
        // v is an integer
        let b = v.abs().to_bits();
        let e = (b >> 52) as i32 - 1075;
        let m = (b & ((1 << 52) - 1)) | (1 << 52);
        let r = if v == 0.0 || e >= w as i32 {
            0
        } else if e >= 0 {
            (((m as u128) << e) & wmask(w) as u128) as u64
        } else if e <= -64 {
            0
        } else {
            (m >> -e) & wmask(w)
        };
        if v < 0.0 { r.wrapping_neg() & wmask(w) } else { r }
    }

    pub trait El: Copy + PartialEq + std::fmt::Debug + VectorOps {
        const W: u32;
        fn mk(x: u64) -> Self;
        fn g(self) -> u64;
    }
    impl El for u64 {
        const W: u32 = 64;
        fn mk(x: u64) -> u64 { x }
        fn g(self) -> u64 { self }
    }
    impl El for u32 {
        const W: u32 = 32;
        fn mk(x: u64) -> u32 { x as u32 }
        fn g(self) -> u64 { self as u64 }
    }
    impl El for Torus<u64> {
        const W: u32 = 64;
        fn mk(x: u64) -> Self { Torus::from(x) }
        fn g(self) -> u64 { self.inner() }
    }
    impl El for Torus<u32> {
        const W: u32 = 32;
        fn mk(x: u64) -> Self { Torus::from(x as u32) }
        fn g(self) -> u64 { self.inner() as u64 }
    }

    pub fn ints<T: El>(c: &mut Case, back: &str) -> Res {
        let n = len(c);
        let m = wmask(T::W);
        let mode = c.rng.below(4);
        let mut gen = |c: &mut Case| -> Vec<u64> {
            (0..n).map(|_| match mode { 0 => m, 1 => c.rng.edge(T::W), _ => c.rng.u64() & m }).collect()
        };
        let (a, b, d) = (gen(c), gen(c), gen(c));
        let mut gr = c.rng.clone();
        let sh = |c: &mut Case| c.rng.below(9) as usize;
        let mut mk = |v: &[u64], s: usize| Guarded::<T>::new(&v.iter().map(|x| T::mk(*x)).collect::<Vec<_>>(), || T::mk(gr.u64()), s);
        let (s1, s2, s3) = (sh(c), sh(c), sh(c));
        let (ga, gb) = (mk(&a, s1), mk(&b, s2));
        let get = |g: &Guarded<T>| g.s().iter().map(|x| x.g()).collect::<Vec<u64>>();
        let what = |k: &str| format!("{k} of {n} x {} ({back})", std::any::type_name::<T>());

        let mut o = mk(&d, s3);
        T::vector_add(o.m(), ga.s(), gb.s());
        ck_eq!(c, get(&o), addv(&a, &b, m), "{}", what("vector_add"));
        intact!(c, what("vector_add"), o, ga, gb);
        let mut o = mk(&d, s3);
        T::vector_sub(o.m(), ga.s(), gb.s());
        ck_eq!(c, get(&o), subv(&a, &b, m), "{}", what("vector_sub"));
        intact!(c, what("vector_sub"), o, ga, gb);
        let s = if c.rng.bool() { c.rng.edge(T::W) } else { c.rng.u64() & m };
        let mut o = mk(&d, s3);
        T::vector_scalar_mad(o.m(), ga.s(), T::mk(s));
        ck_eq!(c, get(&o), addv(&d, &scalev(&a, s, m), m), "{} s={s}", what("vector_scalar_mad"));
        intact!(c, what("vector_scalar_mad"), o, ga);
        let k = c.rng.range(1, T::W as u64 - 1) as u32;
        let mut o = mk(&d, s3);
        T::vector_shr_round(o.m(), ga.s(), k);
        let want: Vec<u64> = a.iter().map(|x| (((*x as u128 + (1u128 << (k - 1))) >> k) as u64) & m).collect();
        ck_eq!(c, get(&o), want, "{} by {k}", what("vector_shr_round"));
        intact!(c, what("vector_shr_round"), o, ga);
        // one digit: state and digit
        let k = c.rng.range(1, T::W as u64 - 1) as usize;
        let mut st = mk(&a, s1);
        let mut o = mk(&d, s3);
        T::vector_next_decomp(st.m(), o.m(), k);
        let (mut ws, mut wd) = (vec![], vec![]);
        for x in &a {
            let low = x & wmask(k as u32);
            let carry = (low >> (k - 1)) & 1;
            wd.push(low.wrapping_sub(carry << k) & m);
            ws.push((x >> k).wrapping_add(carry) & m);
        }
        ck_eq!(c, get(&o), wd, "{} digit size {k}", what("vector_next_decomp digits"));
        ck_eq!(c, get(&st), ws, "{} digit size {k}", what("vector_next_decomp rest"));
        intact!(c, what("vector_next_decomp"), o, st);
        // reals modulo q
        let lq = if c.rng.chance(1, 3) { c.rng.range(2, T::W as u64) } else { T::W as u64 };
        let fs: Vec<f64> = (0..n)
            .map(|_| {
                let mag = match c.rng.below(5) {
                    0 => 2f64.powi(c.rng.irange(0, 120) as i32),
                    1 => 2f64.powi(lq as i32 - 1) + 2f64.powi(lq as i32) * c.rng.irange(-2, 2) as f64,
                    2 => c.rng.below(1 << 53) as f64,
                    3 => (c.rng.f64() * 2f64.powi(c.rng.irange(0, 130) as i32)).round(),
                    _ => (c.rng.f64() * 2f64.powi(lq as i32 + 4)).round(),
                };
                if c.rng.bool() { mag } else { -mag }
            })
            .collect();
        let mut gr2 = c.rng.clone();
        let gf = Guarded::<f64>::new(&fs, || gr2.f64() * 1e20, s1);
        let mut o = mk(&d, s3);
        T::vector_mod_pow2_q_f64(o.m(), gf.s(), lq);
        let want: Vec<u64> = fs.iter().map(|f| signed(f64_mod(*f, lq as u32), lq as u32) as u64 & m).collect();
        for i in 0..n {
            ck_eq!(c, o.s()[i].g(), want[i], "{} of {:e} mod 2^{lq} at {i}", what("vector_mod_pow2_q_f64"), fs[i]);
        }
        intact!(c, what("vector_mod_pow2_q_f64"), o, gf);
        c.key(hash_u64s(&[n as u64, s1 as u64, s2 as u64, s3 as u64, k as u64, T::W as u64]));
        c.count(&format!("length-mod-16-{}", n % 16), 1);
        Ok(())
    }

    pub fn complexes(c: &mut Case, back: &str) -> Res {
        // c += a*b; the kernel's contract: 64 byte alignment, length a multiple of 8
        let n = 8 * c.rng.below(40) as usize;
        let ex = c.rng.irange(-40, 40) as i32;
        let gen = |c: &mut Case, n: usize, ex: i32| -> Vec<C64> {
            (0..n).map(|_| {
                let mut f = || match c.rng.below(8) { 0 => 0.0, 1 => 1.0, 2 => -1.0, _ => (c.rng.f64() - 0.5) * 2f64.powi(ex) };
                Complex::new(f(), f())
            }).collect()
        };
        let (a, b, d) = (gen(c, n, ex), gen(c, n, 0), gen(c, n, ex));
        let mut gr = c.rng.clone();
        let mut junk = || Complex::new(gr.f64() * 1e30, f64::NAN);
        let (ga, gb) = (Guarded::new(&a, &mut junk, 0), Guarded::new(&b, &mut junk, 0));
        let mut gc = Guarded::new(&d, &mut junk, 0);
        complex_mad(gc.m(), ga.s(), gb.s());
        for i in 0..n {
            let want = d[i] + a[i] * b[i];
            let tol = 8.0 * f64::EPSILON * (d[i].abs() + a[i].abs() * b[i].abs());
            let e = (gc.s()[i] - want).abs();
            ck!(c, e <= tol, "complex_mad({back}) of {n} at {i}: {} instead of {want}", gc.s()[i]);
        }
        intact!(c, "complex_mad", gc, ga, gb);
        // twist: c = (re + i im) * t
        let n = c.rng.below(90) as usize;
        let re: Vec<f64> = (0..n).map(|_| (c.rng.f64() - 0.5) * 2f64.powi(ex)).collect();
        let im: Vec<f64> = (0..n).map(|_| (c.rng.f64() - 0.5) * 2f64.powi(ex)).collect();
        let t: Vec<C64> = (0..n).map(|_| Complex::from_polar(1.0, c.rng.f64() * 6.3)).collect();
        let (s1, s2) = (c.rng.below(8) as usize, c.rng.below(4) as usize);
        let mut gr = c.rng.clone();
        let mut jf = || gr.f64() * 1e25;
        let (gre, gim) = (Guarded::new(&re, &mut jf, s1), Guarded::new(&im, &mut jf, s2));
        let mut junk = || Complex::new(f64::NAN, 3.0);
        let gt = Guarded::new(&t, &mut junk, s2);
        let mut go = Guarded::new(&gen(c, n, ex), &mut junk, s1);
        complex_twist(go.m(), gre.s(), gim.s(), gt.s());
        for i in 0..n {
            let want = Complex::new(re[i], im[i]) * t[i];
            ck!(c, (go.s()[i] - want).abs() <= 8.0 * f64::EPSILON * want.abs(), "complex_twist({back}) of {n} at {i}: {} instead of {want}", go.s()[i]);
        }
        intact!(c, "complex_twist", go, gre, gim, gt);
        // untwist: round(x * t / n) split into real and imaginary halves
        if n > 0 {
            let x: Vec<C64> = gen(c, n, 50);
            let gx = Guarded::new(&x, &mut junk, s2);
            let old: Vec<f64> = (0..2 * n).map(|_| c.rng.f64()).collect();
            let mut go = Guarded::new(&old, &mut jf, s1);
            complex_untwist(go.m(), gx.s(), gt.s());
            for i in 0..n {
                let want = x[i] * t[i] / n as f64;
                for (got, w) in [(go.s()[i], want.re), (go.s()[i + n], want.im)] {
                    let tol = 0.5 + 16.0 * f64::EPSILON * want.abs();
                    ck!(c, (got - w).abs() <= tol && got == got.round(), "complex_untwist({back}) of {n} at {i}: {got} instead of round({w})");
                }
            }
            intact!(c, "complex_untwist", go, gx, gt);
        }
        c.key(hash_u64s(&[n as u64, s1 as u64, s2 as u64, ex as u64]));
        Ok(())
    }

    pub fn ints_all(c: &mut Case, back: &str) -> Res {
        match c.idx % 4 {
            0 | 1 => ints::<u64>(c, back),
            2 => ints::<Torus<u64>>(c, back),
            _ => if c.rng.bool() { ints::<u32>(c, back) } else { ints::<Torus<u32>>(c, back) },
        }
    }
}

/// the same kernels reached through the public polynomial operations
fn public<S: Word>(c: &mut Case) -> Res {
    use sunscreen_tfhe::ops::polynomial::*;
    use sunscreen_tfhe::polynomial::*;
    let n = c.rng.range(1, 150) as usize;
    let m = S::MASK;
    let mut v = || -> Vec<u64> { (0..n).map(|_| c.rng.edge(S::W)).collect() };
    let (a, b, d) = (v(), v(), v());
    let s = c.rng.edge(S::W);
    let mut o = tpoly::<S>(&d);
    polynomial_add(&mut o, &tpoly::<S>(&a), &tpoly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), addv(&a, &b, m), "polynomial_add of {n}");
    let mut o = tpoly::<S>(&d);
    polynomial_sub(&mut o, &tpoly::<S>(&a), &tpoly::<S>(&b));
    ck_eq!(c, rawu::<S, _>(&*o), subv(&a, &b, m), "polynomial_sub of {n}");
    let mut o = tpoly::<S>(&d);
    polynomial_small_scalar_mad(&mut o, &tpoly::<S>(&a), Torus::from(S::of(s)));
    ck_eq!(c, rawu::<S, _>(&*o), addv(&d, &scalev(&a, s, m), m), "polynomial_small_scalar_mad of {n}");
    let k = c.rng.range(1, S::W as u64 - 1) as u32;
    let mut o = poly::<S>(&d);
    polynomial_shr_round(&mut o, &poly::<S>(&a), k);
    let want: Vec<u64> = a.iter().map(|x| (((*x as u128 + (1u128 << (k - 1))) >> k) as u64) & m).collect();
    ck_eq!(c, rawu::<S, _>(&*o), want, "polynomial_shr_round of {n} by {k}");
    // complex multiply accumulate in the transform domain
    let n = 8 * c.rng.range(1, 20) as usize;
    let mut g = || -> Vec<C64> { (0..n).map(|_| Complex::new(c.rng.f64() - 0.5, c.rng.f64() - 0.5)).collect() };
    let (a, b, d) = (g(), g(), g());
    let mut o = PolynomialFft::new(&d);
    o.multiply_add(&PolynomialFft::new(&a), &PolynomialFft::new(&b));
    for i in 0..n {
        let w = d[i] + a[i] * b[i];
        ck!(c, (o.coeffs()[i] - w).norm() < 1e-14, "multiply_add of {n} at {i}: {} instead of {w}", o.coeffs()[i]);
    }
    c.key(hash_u64s(&[n as u64, k as u64, s]));
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C10");
    #[cfg(feature = "hooks")]
    for (back, force) in [("detected", false), ("portable", true)] {
        sunscreen_tfhe::verif_hooks::force_scalar(force);
        x.section(&format!("integer-kernels-{back}"), 6000, 80000, |c| kernels::ints_all(c, back));
        x.section(&format!("complex-kernels-{back}"), 3000, 40000, |c| kernels::complexes(c, back));
        x.section(&format!("public-{back}"), 2000, 20000, |c| either!(c, public));
    }
    #[cfg(not(feature = "hooks"))]
    x.section("public", 4000, 40000, |c| either!(c, public));
    x.finish()
}
