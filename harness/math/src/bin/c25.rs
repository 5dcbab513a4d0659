//! C25: arithmetic modulo an integer.
use sunscreen_math::field::{Field, FieldConfig};
use sunscreen_math::ring::*;
use sunscreen_math::*;
use sunscreen_tfhe::verif_hooks::{Fg, GOLDILOCKS_PRIME};
use sunscreen_tfhe::math::{Inverse, Pow, RootOfUnity};
use vmath::*;

#[macro_use]
#[path = "../configs.rs"]
mod configs;

type E<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

fn check_elem<const N: usize, C: BarrettConfig<N>>(c: &mut Case, q: &BigUint, e: &E<N, C>, want: &BigUint, what: &str) -> Res {
    let raw = big(&e.val);
    ck!(c, &raw < q, "{what}: stored value {raw} is not below the modulus {q}");
    let v = big(&e.into_bigint());
    ck_eq!(c, v, *want, "{what} modulo {q}");
    // equal values are the same representation however they were computed
    let direct = E::<N, C>::try_from(uint::<N>(want)).map_err(|e| Fail::from(format!("{what}: {want} refused modulo {q}: {e:?}")))?;
    ck!(c, *e == direct, "{what}: {e:?} and {direct:?} represent {want} modulo {q} but are unequal");
    ck_eq!(c, e.cmp(&direct), std::cmp::Ordering::Equal, "{what}: order of equal elements");
    ck_eq!(c, e.vartime_is_zero(), *want == BigUint::ZERO, "{what}: is zero, modulo {q}");
    Ok(())
}

fn ring<const N: usize, C: BarrettConfig<N>>(c: &mut Case, q: &BigUint) -> Res {
    let a = any_mod(&mut c.rng, q);
    let b = if c.rng.chance(1, 8) { (q - &a) % q } else { any_mod(&mut c.rng, q) };
    c.describe(format!("q={q} limbs={N} a={a} b={b}"));
    let x = E::<N, C>::try_from(uint::<N>(&a)).map_err(|e| Fail::from(format!("{a} refused modulo {q}: {e:?}")))?;
    let y = E::<N, C>::try_from(uint::<N>(&b)).map_err(|e| Fail::from(format!("{b} refused modulo {q}: {e:?}")))?;
    check_elem(c, q, &x, &a, "conversion")?;
    let sum = (&a + &b) % q;
    let dif = (&a + q - &b) % q;
    let pro = (&a * &b) % q;
    check_elem(c, q, &(x + y), &sum, "a + b")?;
    check_elem(c, q, &(x - y), &dif, "a - b")?;
    check_elem(c, q, &(x * y), &pro, "a * b")?;
    check_elem(c, q, &(-x), &((q - &a) % q), "-a")?;
    check_elem(c, q, &(-&x), &((q - &a) % q), "-&a")?;
    for (f, w, n) in [(x + &y, &sum, "a + &b"), (&x + y, &sum, "&a + b"), (&x + &y, &sum, "&a + &b"), (x - &y, &dif, "a - &b"), (&x - y, &dif, "&a - b"), (&x - &y, &dif, "&a - &b"), (x * &y, &pro, "a * &b"), (&x * y, &pro, "&a * b"), (&x * &y, &pro, "&a * &b")] {
        check_elem(c, q, &f, w, n)?;
    }
    ck_eq!(c, x == y, a == b, "equality of {a} and {b} modulo {q}");
    ck_eq!(c, x.cmp(&y), a.cmp(&b), "order of {a} and {b} modulo {q}");
    ck_eq!(c, x.partial_cmp(&y), Some(a.cmp(&b)), "partial order of {a} and {b} modulo {q}");
    let one = BigUint::from(1u32) % q;
    check_elem(c, q, &E::<N, C>::one(), &one, "one")?;
    check_elem(c, q, &E::<N, C>::zero(), &BigUint::ZERO, "zero")?;
    check_elem(c, q, &(x - x), &BigUint::ZERO, "a - a")?;
    check_elem(c, q, &(x + (-x)), &BigUint::ZERO, "a + (-a)")?;
    // results feed further operations
    let mut e = x;
    let mut v = a.clone();
    for _ in 0..6 {
        match c.rng.below(4) {
            0 => {
                e = e + y;
                v = (v + &b) % q
            }
            1 => {
                e = y - e;
                v = (&b + q - v) % q
            }
            2 => {
                e = e * e;
                v = (&v * &v) % q
            }
            _ => {
                e = -e * y;
                v = ((q - v) * &b) % q
            }
        }
        check_elem(c, q, &e, &v, "a chain of operations")?;
    }
    // exponentiation of ring elements
    let k = match c.rng.below(3) {
        0 => c.rng.below(8),
        1 => c.rng.u64(),
        _ => 1u64 << c.rng.below(64),
    };
    check_elem(c, q, &Pow::<u64>::pow(&x, k), &a.modpow(&BigUint::from(k), q), &format!("a^{k}"))?;
    Ok(())
}

fn conv<const N: usize, C: BarrettConfig<N>>(c: &mut Case, q: &BigUint) -> Res {
    type Z<const N: usize, C> = E<N, C>;
    let lim = BigUint::from(1u32) << (64 * N);
    // only reduced values are accepted
    let v = match c.rng.below(4) {
        0 => (q + BigUint::from(c.rng.below(3))) % &lim,
        1 => &lim - BigUint::from(1 + c.rng.below(3)),
        2 => any_bits(&mut c.rng, 64 * N),
        _ => (q - BigUint::from(1u32)) % &lim,
    };
    c.describe(format!("q={q} limbs={N} v={v}"));
    let r = Z::<N, C>::try_from(uint::<N>(&v));
    ck_eq!(c, r.is_ok(), v < *q, "acceptance of {v} modulo {q}");
    if let Ok(e) = &r {
        check_elem(c, q, e, &v, "try_from")?;
    }
    let u = match c.rng.below(4) {
        0 => c.rng.u64(),
        1 => c.rng.below(8),
        2 => u64::MAX - c.rng.below(3),
        _ => (q % (BigUint::from(1u32) << 64u32)).to_u64_digits().first().copied().unwrap_or(0).wrapping_add(c.rng.below(3)).wrapping_sub(1),
    };
    check_elem(c, q, &Z::<N, C>::from(u), &(BigUint::from(u) % q), "from u64")?;
    check_elem(c, q, &Z::<N, C>::from(u as u32), &(BigUint::from(u as u32) % q), "from u32")?;
    for i in [u as i64, (u as i64) >> c.rng.below(63), i64::MAX, i64::MIN + 1, -1, 0] {
        let md = |i: i64| {
            let m = BigInt::from(q.clone());
            (((BigInt::from(i) % &m) + &m) % &m).to_biguint().unwrap()
        };
        check_elem(c, q, &Z::<N, C>::from(i), &md(i), &format!("from {i} (i64)"))?;
        check_elem(c, q, &Z::<N, C>::from(i as i32), &md(i as i32 as i64), &format!("from {} (i32)", i as i32))?;
    }
    ck_eq!(c, big(&<Z<N, C> as RingModulus<N>>::field_modulus()), *q, "modulus of the ring");
    ck_eq!(c, big(&<Z<N, C> as RingModulus<17>>::field_modulus()), *q, "modulus of the ring in 17 limbs");
    ck_eq!(c, big(&<Z<N, C> as RingModulus<17>>::field_modulus_div_2()), q / 2u32, "half the modulus of the ring in 17 limbs");
    ck_eq!(c, big(&<Z<N, C> as RingModulus<N>>::field_modulus_div_2()), q / 2u32, "half the modulus of the ring");
    ck_eq!(c, big(&extend_bigint::<17, N>(&uint::<N>(&v))), v, "extended integer");
    // stored and read back
    let a = any_mod(&mut c.rng, q);
    let x = Z::<N, C>::try_from(uint::<N>(&a)).map_err(|e| Fail::from(format!("{a} refused modulo {q}: {e:?}")))?;
    let b = bincode::serialize(&x).map_err(|e| Fail::from(format!("serialising: {e}")))?;
    let y: Z<N, C> = bincode::deserialize(&b).map_err(|e| Fail::from(format!("reading back {a} modulo {q}: {e}")))?;
    check_elem(c, q, &y, &a, "read back (bincode)")?;
    // a stored integer that is not reduced is refused
    let le = |x: &BigUint| {
        let mut d = x.to_bytes_le();
        d.resize(8 * N, 0);
        d
    };
    if b.ends_with(&le(&a)) {
        let mut t = b[..b.len() - 8 * N].to_vec();
        t.extend(le(&v));
        let r = bincode::deserialize::<Z<N, C>>(&t);
        ck_eq!(c, r.is_ok(), v < *q, "acceptance of the stored integer {v} modulo {q}");
        c.count("forged stored integers", 1);
    }
    Ok(())
}

fn field<const N: usize, C: BarrettConfig<N> + FieldConfig>(c: &mut Case, q: &BigUint) -> Res {
    let a = any_mod(&mut c.rng, q);
    c.describe(format!("q={q} limbs={N} a={a}"));
    if a == BigUint::ZERO {
        return Ok(());
    }
    let x = E::<N, C>::try_from(uint::<N>(&a)).unwrap();
    let inv = Field::inverse(&x);
    check_elem(c, q, &inv, &a.modpow(&(q - BigUint::from(2u32)), q), "inverse")?;
    check_elem(c, q, &(inv * x), &(BigUint::from(1u32) % q), "a * a^-1")
}

fn exhaustive<const N: usize, C: BarrettConfig<N>>(c: &mut Case, q: &BigUint) -> Res {
    if *q > BigUint::from(260u32) {
        return Ok(());
    }
    let qs = q.to_u64_digits()[0];
    for a in 0..qs {
        for b in 0..qs {
            let (x, y) = (E::<N, C>::try_from(Uint::<N>::from_u64(a)).unwrap(), E::<N, C>::try_from(Uint::<N>::from_u64(b)).unwrap());
            for (e, w, n) in [(x + y, (a + b) % qs, "+"), (x - y, (a + qs - b) % qs, "-"), (x * y, a * b % qs, "*")] {
                ck_eq!(c, e.val, Uint::<N>::from_u64(w), "{a} {n} {b} modulo {qs}");
            }
            ck_eq!(c, x == y, a == b, "equality of {a} and {b} modulo {qs}");
        }
        ck_eq!(c, (-E::<N, C>::try_from(Uint::<N>::from_u64(a)).unwrap()).val, Uint::<N>::from_u64((qs - a) % qs), "-{a} modulo {qs}");
    }
    c.describe(format!("all pairs modulo {qs}"));
    c.key(qs * 100 + N as u64);
    Ok(())
}

macro_rules! define {
    ($($n:ident $l:tt $q:tt $f:tt;)*) => {
        $(
            #[derive(BarrettConfig)]
            #[barrett_config(modulus = $q, num_limbs = $l, is_field = $f)]
            pub struct $n;
        )*
    };
}
each_config!(define);

type F = fn(&mut Case, &BigUint) -> Res;
struct Entry {
    q: BigUint,
    ring: F,
    conv: F,
    exh: F,
}
macro_rules! table {
    ($($n:ident $l:tt $q:tt $f:tt;)*) => {
        vec![$(Entry { q: parse($q), ring: ring::<$l, $n>, conv: conv::<$l, $n>, exh: exhaustive::<$l, $n> }),*]
    };
}
macro_rules! is_field {
    ($v:ident $n:ident $l:tt $q:tt true) => {
        $v.push((parse($q), field::<$l, $n> as F));
    };
    ($v:ident $n:ident $l:tt $q:tt false) => {};
}
macro_rules! fields {
    ($($n:ident $l:tt $q:tt $f:tt;)*) => {{
        let mut v: Vec<(BigUint, F)> = vec![];
        $(is_field!(v $n $l $q $f);)*
        v
    }};
}

trait Int: WrappingSemantics + Ord + std::fmt::Display {
    const BITS: u32;
    fn of(x: u128) -> Self;
    fn to(self) -> u128;
}
macro_rules! ints { ($($t:ty)*) => { $(impl Int for $t { const BITS: u32 = <$t>::BITS; fn of(x: u128) -> Self { x as $t } fn to(self) -> u128 { self as u128 } })* } }
ints!(u8 u16 u32 u64 u128);

fn zpair<T: Int>(c: &mut Case, a: u128, b: u128) -> Res {
    let m = if T::BITS == 128 { u128::MAX } else { (1u128 << T::BITS) - 1 };
    let (x, y) = (ZInt::<T>::new(T::of(a)), ZInt::<T>::from(T::of(b)));
    let (a, b) = (a & m, b & m);
    let (s, d, p) = (a.wrapping_add(b) & m, a.wrapping_sub(b) & m, a.wrapping_mul(b) & m);
    for (z, w, n) in [(x + y, s, "+"), (&x + y, s, "+"), (x + &y, s, "+"), (&x + &y, s, "+"), (x - y, d, "-"), (&x - y, d, "-"), (x - &y, d, "-"), (&x - &y, d, "-"), (x * y, p, "*"), (&x * y, p, "*"), (x * &y, p, "*"), (&x * &y, p, "*"), (-x, a.wrapping_neg() & m, "neg"), (-&x, a.wrapping_neg() & m, "neg")] {
        ck_eq!(c, z.0.to(), w, "{a} {n} {b} in {} bits", T::BITS);
    }
    ck_eq!(c, x == y, a == b, "equality of {a} and {b}");
    ck_eq!(c, x.cmp(&y), a.cmp(&b), "order of {a} and {b}");
    ck_eq!(c, x.partial_cmp(&y), Some(a.cmp(&b)), "order of {a} and {b}");
    ck_eq!(c, x.vartime_is_zero(), a == 0, "is zero of {a}");
    ck_eq!(c, (ZInt::<T>::zero().0.to(), ZInt::<T>::one().0.to()), (0, 1), "zero and one");
    ck_eq!(c, (T::zero().to(), T::one().to()), (0, 1), "zero and one");
    ck_eq!(c, x.0.vartime_is_zero(), a == 0, "is zero of {a}");
    let n = (T::BITS / 8) as usize;
    ck_eq!(c, x.to_le_bytes().as_ref().to_vec(), a.to_le_bytes()[..n].to_vec(), "little endian bytes of {a}");
    ck_eq!(c, x.to_be_bytes().as_ref().to_vec(), a.to_be_bytes()[16 - n..].to_vec(), "big endian bytes of {a}");
    ck_eq!(c, x.to_ne_bytes().as_ref().to_vec(), a.to_le_bytes()[..n].to_vec(), "native bytes of {a}");
    Ok(())
}

fn zint(c: &mut Case) -> Res {
    for _ in 0..16 {
        let mut g = |w: u32| -> u128 {
            let e = ((c.rng.edge(64) as u128) << 64) | c.rng.edge(64) as u128;
            match c.rng.below(4) {
                0 => e,
                1 => e >> (128 - w.min(127)),
                2 => u128::MAX - c.rng.below(3) as u128,
                _ => ((c.rng.u64() as u128) << 64) | c.rng.u64() as u128,
            }
        };
        let w = [8, 16, 32, 64, 128][(c.idx % 5) as usize];
        let (a, b) = (g(w), g(w));
        c.describe(format!("{w} bits {a} {b}"));
        c.key(hash_bytes(format!("{w} {a} {b}").as_bytes()));
        match w {
            8 => zpair::<u8>(c, a, b)?,
            16 => zpair::<u16>(c, a, b)?,
            32 => zpair::<u32>(c, a, b)?,
            64 => zpair::<u64>(c, a, b)?,
            _ => zpair::<u128>(c, a, b)?,
        }
    }
    Ok(())
}

const P: u128 = GOLDILOCKS_PRIME as u128;
fn inner(x: Fg) -> u64 {
    assert_eq!(std::mem::size_of::<Fg>(), 8);
    unsafe { std::mem::transmute::<Fg, u64>(x) }
}
fn fg_eq(c: &mut Case, x: Fg, want: u128, what: &str) -> Res {
    let v = inner(x);
    ck!(c, (v as u128) < P, "{what}: {v} is not reduced");
    ck_eq!(c, v as u128, want, "{what} modulo 2^64 - 2^32 + 1");
    ck!(c, x == Fg::from(want as u64), "{what}: {x:?} unequal to the element made from {want}");
    Ok(())
}
fn gold(c: &mut Case) -> Res {
    const ED: [u64; 14] = [0, 1, 2, 0xffff_fffe, 0xffff_ffff, 1 << 32, (1 << 32) + 1, GOLDILOCKS_PRIME - 1, GOLDILOCKS_PRIME - 2, GOLDILOCKS_PRIME - (1 << 32), GOLDILOCKS_PRIME / 2, GOLDILOCKS_PRIME / 2 + 1, 1 << 63, u64::MAX];
    for _ in 0..32 {
        let mut g = || match c.rng.below(5) {
            0 | 1 => c.rng.pick(&ED),
            2 => c.rng.pick(&ED).wrapping_add(c.rng.below(5)).wrapping_sub(2),
            3 => ((c.rng.u32() as u64) << 32) | c.rng.pick(&[0, 1, u32::MAX]) as u64,
            _ => c.rng.u64(),
        };
        let (x, y, z) = (g(), g(), g());
        let k = g();
        c.describe(format!("{x} {y} {z} ^{k}"));
        c.key(hash_bytes(format!("{x} {y} {z}").as_bytes()));
        let (a, b, d) = (Fg::from(x), Fg::new(y), Fg::from(z));
        let (va, vb, vd) = (x as u128 % P, y as u128 % P, z as u128 % P);
        fg_eq(c, a, va, "construction")?;
        fg_eq(c, b, vb, "construction")?;
        let (s, m, p) = ((va + vb) % P, (va + P - vb) % P, va * vb % P);
        for (f, w, n) in [
            (a + b, s, "+"), (&a + b, s, "&+"), (a + &b, s, "+&"), (&a + &b, s, "&+&"), (a.unreduced_add(b).reduce(), s, "unreduced +"), (num::traits::WrappingAdd::wrapping_add(&a, &b), s, "wrapping +"),
            (a - b, m, "-"), (&a - b, m, "&-"), (a - &b, m, "-&"), (&a - &b, m, "&-&"), (a.unreduced_sub(b).reduce(), m, "unreduced -"), (num::traits::WrappingSub::wrapping_sub(&a, &b), m, "wrapping -"),
            (a * b, p, "*"), (&a * b, p, "&*"), (a * &b, p, "*&"), (&a * &b, p, "&*&"), (a.unreduced_mul(b).reduce(), p, "unreduced *"), (num::traits::WrappingMul::wrapping_mul(&a, &b), p, "wrapping *"),
            (a.mad(b, d), (p + vd) % P, "mad"), (a.unreduced_mad(b, d).reduce(), (p + vd) % P, "unreduced mad"),
            (-a, (P - va) % P, "neg"), (num::traits::WrappingNeg::wrapping_neg(&a), (P - va) % P, "wrapping neg"),
        ] {
            fg_eq(c, f, w, &format!("{n} of {va} {vb} {vd}"))?;
        }
        ck_eq!(c, a == b, va == vb, "equality of {va} and {vb}");
        ck_eq!(c, a.vartime_is_zero(), va == 0, "is zero of {va}");
        let pw = BigUint::from(va).modpow(&BigUint::from(k), &BigUint::from(P));
        fg_eq(c, Pow::<u64>::pow(&a, k), pw.to_u64_digits().first().copied().unwrap_or(0) as u128, &format!("{va}^{k}"))?;
        if va != 0 {
            let inv = Inverse::inverse(&a);
            fg_eq(c, inv * a, 1, &format!("{va} * {va}^-1"))?;
        }
    }
    let n = 1u64 << c.rng.range(1, 32);
    let w = Fg::nth_root_of_unity(n);
    fg_eq(c, Pow::<u64>::pow(&w, n), 1, &format!("{n}th root of unity to the {n}"))?;
    fg_eq(c, Pow::<u64>::pow(&w, n / 2), P - 1, &format!("{n}th root of unity to the {n}/2"))?;
    fg_eq(c, Fg::zero(), 0, "zero")?;
    fg_eq(c, Fg::one(), 1, "one")?;
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C25");
    let t = each_config!(table);
    let fs = each_config!(fields);
    let n = t.len() as u64;
    ctx.section("ring", n * 60, n * 6000, |c| {
        let e = &t[(c.idx % n) as usize];
        for _ in 0..4 {
            (e.ring)(c, &e.q)?;
        }
        c.count(&format!("moduli of {} limbs or less", e.q.bits().div_ceil(64)), 1);
        Ok(())
    });
    ctx.section("conversions", n * 25, n * 2500, |c| {
        let e = &t[(c.idx % n) as usize];
        (e.conv)(c, &e.q)
    });
    ctx.section("small-moduli", n, n, |c| {
        let e = &t[(c.idx % n) as usize];
        (e.exh)(c, &e.q)
    });
    let m = fs.len() as u64;
    ctx.section("inverse", m * 60, m * 3000, |c| {
        let (q, f) = &fs[(c.idx % m) as usize];
        f(c, q)
    });
    ctx.section("machine-integers", 2000, 200000, zint);
    ctx.section("bytes-exhaustive", 256, 256, |c| {
        let a = c.idx as u128;
        for b in 0..256 {
            zpair::<u8>(c, a, b)?;
        }
        c.describe(format!("{a} with every byte"));
        Ok(())
    });
    ctx.section("goldilocks", 1500, 150000, gold);
    ctx.finish()
}
