//! C26: polynomials over a ring.
use std::ops::Sub;
use sunscreen_math::poly::Polynomial;
use sunscreen_math::ring::*;
use sunscreen_math::*;
use vmath::*;

/// a coefficient ring with an exact model in integers modulo `modulus()`
trait R: Ring + serde::Serialize + serde::de::DeserializeOwned {
    fn modulus() -> BigUint;
    fn of(x: &BigUint) -> Self;
    fn to(&self) -> BigUint;
}
macro_rules! zq {
    ($($n:ident $l:tt $q:tt;)*) => {
        $(
            #[derive(BarrettConfig)]
            #[barrett_config(modulus = $q, num_limbs = $l)]
            pub struct $n;
            impl R for Zq<$l, BarrettBackend<$l, $n>> {
                fn modulus() -> BigUint { parse($q) }
                fn of(x: &BigUint) -> Self { Zq::try_from(uint::<$l>(x)).unwrap() }
                fn to(&self) -> BigUint { big(&self.into_bigint()) }
            }
        )*
    };
}
zq! { Q2 1 "2"; Q6 1 "6"; Q13 1 "13"; Q32 1 "4294967296"; Q63 1 "9223372036854775783"; Q64 2 "18446744073709551616"; Q255 4 "57896044618658097711785492504343953926634992332820282019728792003956564819949"; }
type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

// machine integers do not implement the storage traits
#[derive(Clone, Debug, PartialEq, Eq)]
struct W<T: WrappingSemantics>(ZInt<T>);
macro_rules! wrap_op {
    ($tr:ident $f:ident) => {
        impl<T: WrappingSemantics> std::ops::$tr for W<T> {
            type Output = W<T>;
            fn $f(self, r: W<T>) -> W<T> {
                W(std::ops::$tr::$f(self.0, r.0))
            }
        }
        impl<T: WrappingSemantics> std::ops::$tr<&W<T>> for W<T> {
            type Output = W<T>;
            fn $f(self, r: &W<T>) -> W<T> {
                W(std::ops::$tr::$f(self.0, &r.0))
            }
        }
    };
}
wrap_op!(Add add);
wrap_op!(Sub sub);
wrap_op!(Mul mul);
impl<T: WrappingSemantics> std::ops::Neg for W<T> {
    type Output = W<T>;
    fn neg(self) -> W<T> {
        W(-self.0)
    }
}
impl<T: WrappingSemantics> Zero for W<T> {
    fn zero() -> Self {
        W(ZInt::zero())
    }
    fn vartime_is_zero(&self) -> bool {
        self.0.vartime_is_zero()
    }
}
impl<T: WrappingSemantics> One for W<T> {
    fn one() -> Self {
        W(ZInt::one())
    }
}
impl<T: WrappingSemantics> Ring for W<T> {}
impl<T: WrappingSemantics> serde::Serialize for W<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.to_le_bytes().as_ref().to_vec().serialize(s)
    }
}
impl<'de, T: WrappingSemantics + Le> serde::Deserialize<'de> for W<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(W(ZInt(T::of_bytes(&<Vec<u8>>::deserialize(d)?))))
    }
}
trait Le {
    fn of_bytes(b: &[u8]) -> Self;
}
macro_rules! zint {
    ($($t:ty)*) => { $(
        impl Le for $t { fn of_bytes(b: &[u8]) -> Self { <$t>::from_le_bytes(b.try_into().unwrap()) } }
        impl R for W<$t> {
            fn modulus() -> BigUint { BigUint::from(1u32) << <$t>::BITS }
            fn of(x: &BigUint) -> Self { let mut b = x.to_bytes_le(); b.resize(std::mem::size_of::<$t>(), 0); W(ZInt(<$t>::of_bytes(&b))) }
            fn to(&self) -> BigUint { BigUint::from(self.0.0) }
        }
    )* };
}
zint!(u8 u64 u128);

type P = Vec<BigUint>;
fn trim(mut a: P) -> P {
    while a.last().is_some_and(|x| *x == BigUint::ZERO) {
        a.pop();
    }
    a
}
fn at(a: &P, i: usize) -> BigUint {
    a.get(i).cloned().unwrap_or_default()
}
fn madd(a: &P, b: &P, q: &BigUint) -> P {
    (0..a.len().max(b.len())).map(|i| (at(a, i) + at(b, i)) % q).collect()
}
fn msub(a: &P, b: &P, q: &BigUint) -> P {
    (0..a.len().max(b.len())).map(|i| (at(a, i) + q - at(b, i)) % q).collect()
}
fn mmul(a: &P, b: &P, q: &BigUint) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![BigUint::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] = (&o[i + j] + x * y) % q;
        }
    }
    o
}

fn any(rng: &mut Rng, q: &BigUint, max: usize) -> P {
    let n = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => rng.usize(max + 1),
    };
    let z = rng.below(4);
    let mut v: P = (0..n).map(|_| if z == 0 && rng.bool() { BigUint::ZERO } else { any_mod(rng, q) }).collect();
    match rng.below(6) {
        0 => v.extend(vec![BigUint::ZERO; rng.usize(4)]),
        1 => v.iter_mut().for_each(|x| *x = BigUint::ZERO),
        _ => {}
    }
    v
}

fn poly<T: R>(a: &P) -> Polynomial<T> {
    Polynomial::new(&a.iter().map(T::of).collect::<Vec<_>>())
}
fn unpoly<T: R>(a: &Polynomial<T>) -> P {
    a.coeffs.iter().map(|x| x.to()).collect()
}
fn same<T: R>(c: &mut Case, got: &Polynomial<T>, want: &P, what: &str) -> Res {
    ck_eq!(c, trim(unpoly(got)), trim(want.clone()), "{what} modulo {}", T::modulus());
    Ok(())
}

fn laws<T: R>(c: &mut Case) -> Res {
    let q = T::modulus();
    let big = c.rng.chance(1, 6);
    let max = if big { 40 } else { 8 };
    let (a, b, d) = (any(&mut c.rng, &q, max), any(&mut c.rng, &q, max), any(&mut c.rng, &q, 6));
    let s = any_mod(&mut c.rng, &q);
    c.describe(format!("q={q} a={a:?} b={b:?} s={s}"));
    let (x, y, w) = (poly::<T>(&a), poly::<T>(&b), poly::<T>(&d));
    let t = T::of(&s);
    let (sum, dif, pro) = (madd(&a, &b, &q), msub(&a, &b, &q), mmul(&a, &b, &q));
    same(c, &(x.clone() + y.clone()), &sum, "a + b")?;
    same(c, &(x.clone() + &y), &sum, "a + &b")?;
    same(c, &(&x + y.clone()), &sum, "&a + b")?;
    same(c, &(&x + &y), &sum, "&a + &b")?;
    same(c, &(x.clone() - y.clone()), &dif, "a - b")?;
    same(c, &(x.clone() - &y), &dif, "a - &b")?;
    same(c, &(&x - y.clone()), &dif, "&a - b")?;
    same(c, &(&x - &y), &dif, "&a - &b")?;
    same(c, &(x.clone() * y.clone()), &pro, "a * b")?;
    same(c, &(x.clone() * &y), &pro, "a * &b")?;
    same(c, &(&x * y.clone()), &pro, "&a * b")?;
    same(c, &(&x * &y), &pro, "&a * &b")?;
    let scaled: P = a.iter().map(|v| v * &s % &q).collect();
    same(c, &(x.clone() * t.clone()), &scaled, "a * s")?;
    same(c, &(x.clone() * &t), &scaled, "a * &s")?;
    same(c, &(&x * t.clone()), &scaled, "&a * s")?;
    same(c, &(&x * &t), &scaled, "&a * &s")?;
    let neg: P = a.iter().map(|v| (&q - v) % &q).collect();
    same(c, &(-x.clone()), &neg, "-a")?;
    // laws stated with the library's own equality
    ck!(c, &x + &y == &y + &x, "addition does not commute");
    ck!(c, &x * &y == &y * &x, "multiplication does not commute");
    ck!(c, (&x * &y) * &w == &x * (&y * &w), "multiplication does not associate");
    ck!(c, &x * (&y + &w) == &x * &y + &x * &w, "multiplication does not distribute");
    ck!(c, (&x - &x).vartime_is_zero() && (&x - &x) == Polynomial::zero(), "a - a is not zero");
    ck!(c, &x + Polynomial::zero() == x, "a + 0 is not a");
    ck!(c, &x * Polynomial::one() == x, "a * 1 is not a");
    ck!(c, (&x * Polynomial::zero()) == Polynomial::zero(), "a * 0 is not 0");
    // evaluation
    let mut e = BigUint::ZERO;
    for v in a.iter().rev() {
        e = (e * &s + v) % &q;
    }
    ck_eq!(c, x.evaluate(&t).to(), e, "value of a at {s}");
    ck_eq!(c, (&x * &y).evaluate(&t).to(), x.evaluate(&t).to() * y.evaluate(&t).to() % &q, "value of a product at {s}");
    // degree and zero
    ck_eq!(c, x.vartime_is_zero(), trim(a.clone()).is_empty(), "is zero of {a:?}");
    match quiet_catch(|| x.vartime_degree()) {
        Ok(d) => ck_eq!(c, Some(d), trim(a.clone()).len().checked_sub(1), "degree of {a:?}"),
        Err(_) => ck!(c, trim(a.clone()).is_empty(), "the degree of {a:?} panics"),
    }
    for (i, v) in a.iter().enumerate() {
        ck_eq!(c, x[i].to(), *v, "coefficient {i}");
    }
    if !a.is_empty() {
        let i = c.rng.usize(a.len());
        let mut z = x.clone();
        z[i] = t.clone();
        let mut m = a.clone();
        m[i] = s.clone();
        same(c, &z, &m, "a with one coefficient replaced")?;
        ck_eq!(c, z == x, s == a[i], "equality of polynomials that differ in coefficient {i} of {}", a.len());
        c.count("polynomials differing in one coefficient", (s != a[i]) as u64);
    }
    // equality is equality of the polynomials, whatever trailing zeros they store
    ck_eq!(c, x == y, trim(a.clone()) == trim(b.clone()), "equality of {a:?} and {b:?}");
    let mut pad = a.clone();
    pad.extend(vec![BigUint::ZERO; c.rng.usize(4)]);
    let px = poly::<T>(&pad);
    ck!(c, px == x && x == px, "trailing zeros make a polynomial unequal to itself");
    let k = pad.len() + c.rng.usize(2);
    pad.resize(k, BigUint::ZERO);
    pad.push(BigUint::from(1u32) % &q);
    ck!(c, poly::<T>(&pad) != x && x != poly::<T>(&pad), "a higher coefficient does not make a polynomial unequal");
    // stored and read back
    let bin = bincode::serialize(&x).map_err(|e| Fail::from(format!("serialising: {e}")))?;
    let back: Polynomial<T> = bincode::deserialize(&bin).map_err(|e| Fail::from(format!("reading back: {e}")))?;
    ck_eq!(c, unpoly(&back), a, "polynomial read back");
    Ok(())
}

fn division<T: R>(c: &mut Case) -> Res {
    let q = T::modulus();
    let one = BigUint::from(1u32) % &q;
    let max = if c.rng.chance(1, 6) { 40 } else { 9 };
    let a = any(&mut c.rng, &q, max);
    let mut b = any(&mut c.rng, &q, max.min(12));
    let monic = !c.rng.chance(1, 5);
    if monic {
        if c.rng.chance(1, 4) {
            b.clear();
        }
        b.push(one.clone());
        b.extend(vec![BigUint::ZERO; if c.rng.chance(1, 4) { c.rng.usize(3) } else { 0 }]);
    }
    // sometimes an exact multiple
    let a = if c.rng.chance(1, 4) { mmul(&a, &b, &q) } else { a };
    c.describe(format!("q={q} a={a:?} b={b:?}"));
    let (x, y) = (poly::<T>(&a), poly::<T>(&b));
    let r = quiet_catch(|| x.vartime_div_rem_restricted_rhs(&y));
    let tb = trim(b.clone());
    if tb.last() != Some(&one) {
        c.count("refused divisors", 1);
        ck!(c, r.is_err(), "division by {b:?}, whose leading coefficient is not one, modulo {q} is not refused: {r:?}");
        return Ok(());
    }
    let (quo, rem) = match r {
        Ok(v) => v,
        Err(e) => fail!("division of {a:?} by {b:?} modulo {q} panics: {e}"),
    };
    let (qm, rm) = (unpoly(&quo), unpoly(&rem));
    ck!(c, trim(rm.clone()).len() < tb.len(), "the remainder {rm:?} has not smaller degree than {b:?} modulo {q}");
    ck_eq!(c, trim(madd(&mmul(&qm, &b, &q), &rm, &q)), trim(a.clone()), "quotient * divisor + remainder modulo {q}");
    ck!(c, &(&quo * &y) + &rem == x, "quotient * divisor + remainder is not the dividend");
    if trim(rm).is_empty() {
        c.count("exact divisions", 1);
    }
    Ok(())
}

/// polynomials whose coefficients are polynomials
fn nested(c: &mut Case) -> Res {
    type B = Polynomial<Z<1, Q13>>;
    let q = BigUint::from(13u32);
    let g = |c: &mut Case| -> Vec<P> { (0..c.rng.usize(4)).map(|_| any(&mut c.rng, &q, 3)).collect() };
    let (a, b) = (g(c), g(c));
    c.describe(format!("{a:?} {b:?}"));
    let mk = |a: &Vec<P>| Polynomial::<B> { coeffs: a.iter().map(|p| poly(p)).collect() };
    let (x, y) = (mk(&a), mk(&b));
    let mut pro: Vec<P> = vec![vec![]; (a.len() + b.len()).saturating_sub(1)];
    for (i, u) in a.iter().enumerate() {
        for (j, v) in b.iter().enumerate() {
            pro[i + j] = madd(&pro[i + j], &mmul(u, v, &q), &q);
        }
    }
    if a.is_empty() || b.is_empty() {
        pro.clear();
    }
    let norm = |a: Vec<P>| {
        let mut v: Vec<P> = a.into_iter().map(trim).collect();
        while v.last().is_some_and(|p| p.is_empty()) {
            v.pop();
        }
        v
    };
    let un = |p: &Polynomial<B>| norm(p.coeffs.iter().map(unpoly).collect());
    ck_eq!(c, un(&(&x * &y)), norm(pro.clone()), "product of nested polynomials");
    ck!(c, &x * &y == mk(&pro), "product of nested polynomials is unequal to the expected one");
    ck_eq!(c, un(&(&x + &y)), norm((0..a.len().max(b.len())).map(|i| madd(a.get(i).unwrap_or(&vec![]), b.get(i).unwrap_or(&vec![]), &q)).collect()), "sum of nested polynomials");
    ck_eq!(c, un(&x.clone().sub(&y)), norm((0..a.len().max(b.len())).map(|i| msub(a.get(i).unwrap_or(&vec![]), b.get(i).unwrap_or(&vec![]), &q)).collect()), "difference of nested polynomials");
    ck_eq!(c, x == y, norm(a.clone()) == norm(b.clone()), "equality of {a:?} and {b:?}");
    Ok(())
}

/// every pair of polynomials of small degree over a tiny ring
fn exhaustive(c: &mut Case) -> Res {
    fn all(n: usize) -> Vec<P> {
        let mut v: Vec<P> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..n {
            last = last.iter().flat_map(|p| (0..2u32).map(move |x| [p.clone(), vec![BigUint::from(x)]].concat())).collect();
            v.extend(last.clone());
        }
        v
    }
    let v = all(5);
    let q = BigUint::from(2u32);
    let a = &v[c.idx as usize];
    let x = poly::<Z<1, Q2>>(a);
    for b in &v {
        let y = poly::<Z<1, Q2>>(b);
        ck_eq!(c, x == y, trim(a.clone()) == trim(b.clone()), "equality of {a:?} and {b:?}");
        same(c, &(&x + &y), &madd(a, b, &q), "sum")?;
        same(c, &(&x * &y), &mmul(a, b, &q), "product")?;
        if !trim(b.clone()).is_empty() {
            let (d, r) = x.vartime_div_rem_restricted_rhs(&y);
            ck!(c, trim(unpoly(&r)).len() < trim(b.clone()).len(), "remainder of {a:?} by {b:?}");
            same(c, &(&(&d * &y) + &r), a, "quotient * divisor + remainder")?;
        }
    }
    c.describe(format!("{a:?} with every polynomial of at most 5 stored coefficients over Z_2"));
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C26");
    type F = fn(&mut Case) -> Res;
    macro_rules! tab {
        ($f:ident) => {
            [$f::<Z<1, Q2>> as F, $f::<Z<1, Q6>>, $f::<Z<1, Q13>>, $f::<Z<1, Q32>>, $f::<Z<1, Q63>>, $f::<Z<2, Q64>>, $f::<Z<4, Q255>>, $f::<W<u8>>, $f::<W<u64>>, $f::<W<u128>>]
        };
    }
    ctx.section("ring-laws", 6000, 600000, |c| tab!(laws)[(c.idx % 10) as usize](c));
    ctx.section("division", 12000, 1000000, |c| tab!(division)[(c.idx % 10) as usize](c));
    ctx.section("nested", 3000, 100000, nested);
    ctx.section("exhaustive", 63, 63, exhaustive);
    ctx.finish()
}
