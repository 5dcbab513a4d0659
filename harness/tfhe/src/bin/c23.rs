//! C23: stored objects come back identical and usable; raw constructors; transform domain.
use bincode::Options;
use serde::{de::DeserializeOwned, Serialize};
use sunscreen_tfhe::{entities::*, high_level::{encryption, evaluation, fft, keygen}, *};
use vtfhe::{model::*, *};

/// every text and binary format used, and whether all of it was consumed
fn formats<T: Serialize + DeserializeOwned>(x: &T, mut back: impl FnMut(&str, T) -> Res) -> Res {
    let e = |f: &str, e: String| Fail::from(format!("{f}: {e}"));
    let f = "json";
    let s = serde_json::to_string(x).map_err(|x| e(f, x.to_string()))?;
    back(f, serde_json::from_str(&s).map_err(|x| e(f, x.to_string()))?)?;
    let f = "json reader";
    back(f, serde_json::from_reader(s.as_bytes()).map_err(|x| e(f, x.to_string()))?)?;
    let f = "json value";
    let v = serde_json::to_value(x).map_err(|x| e(f, x.to_string()))?;
    back(f, serde_json::from_value(v).map_err(|x| e(f, x.to_string()))?)?;
    let f = "json pretty";
    let s = serde_json::to_vec_pretty(x).map_err(|x| e(f, x.to_string()))?;
    back(f, serde_json::from_slice(&s).map_err(|x| e(f, x.to_string()))?)?;
    let f = "bincode";
    let s = bincode::serialize(x).map_err(|x| e(f, x.to_string()))?;
    back(f, bincode::deserialize(&s).map_err(|x| e(f, x.to_string()))?)?;
    let mut r = &s[..];
    back("bincode reader", bincode::deserialize_from(&mut r).map_err(|x| e("bincode reader", x.to_string()))?)?;
    if !r.is_empty() {
        return Err(e("bincode reader", format!("{} bytes left unread", r.len())));
    }
    let f = "bincode big endian varint";
    let o = bincode::DefaultOptions::new().with_big_endian().with_varint_encoding().reject_trailing_bytes();
    let s = o.serialize(x).map_err(|x| e(f, x.to_string()))?;
    back(f, o.deserialize(&s).map_err(|x| e(f, x.to_string()))?)
}

fn same<T, R: ?Sized>(c: &mut Case, what: &str, x: &T) -> Res
where
    T: Serialize + DeserializeOwned + PartialEq + Clone + std::ops::Deref<Target = R> + std::ops::DerefMut + std::borrow::Borrow<R>,
    R: ToOwned<Owned = T> + PartialEq,
{
    let want = raw::<u8, R>(x).to_vec();
    let mut n = 0;
    formats(x, |f, mut y: T| {
        n += 1;
        let got = raw::<u8, R>(&y);
        if got.len() != want.len() {
            fail!("{what} through {f}: {} bytes instead of {}", got.len(), want.len());
        }
        if let Some(i) = (0..want.len()).find(|i| got[*i] != want[*i]) {
            fail!("{what} through {f}: byte {i} of {} is {:#x} instead of {:#x}", want.len(), got[i], want[i]);
        }
        if *x != y || **x != *y {
            fail!("{what} through {f}: bytes are identical but the objects do not compare equal");
        }
        if !want.is_empty() {
            // the allocation is one the vector kernels accept
            let a = raw::<u8, R>(&y).as_ptr() as usize;
            if a % 64 != 0 {
                fail!("{what} through {f}: storage at {a:#x} is not aligned as that of new objects");
            }
            // a changed object is another object
            raw_mut::<u8, R>(&mut y)[want.len() / 2] ^= 1;
            if *x == y || **x == *y {
                fail!("{what}: an object with a changed byte still compares equal");
            }
        }
        Ok(())
    })?;
    c.evals += 4 * n;
    let k = x.clone();
    ck!(c, raw::<u8, R>(&k) == &want[..], "clone of {what} differs");
    let o: T = (**x).to_owned();
    ck!(c, raw::<u8, R>(&o) == &want[..], "owned copy of {what} differs");
    c.count(what, 1);
    c.key(hash_bytes(&want));
    Ok(())
}

macro_rules! kinds {
    ($c:expr, $S:ty, $which:expr, $f:ident) => {{
        let c: &mut Case = $c;
        let (g, g2) = (gen_glwe(&mut c.rng, 1, 6, 3), gen_glwe(&mut c.rng, 1, 6, 3));
        let g2 = gdef(gk(&g2), gn(&g), 0.0);
        let (l, l2) = (gen_lwe(&mut c.rng, 20), gen_lwe(&mut c.rng, 20));
        let r = gen_radix(&mut c.rng, <$S>::W, 12, 5);
        let cnt = c.rng.range(1, 5) as usize;
        let _ = &g2;
        c.describe(format!("entity {} of {} bit words, k={} n={} lwe {} and {} radix {}x{}", $which, <$S>::W, gk(&g), gn(&g), l.dim.0, l2.dim.0, rl(&r), rb(&r)));
        macro_rules! w { ($n:expr, $e:expr) => {{ let mut x = $e; fill_words::<$S, _>(&mut c.rng, &mut *x); $f(c, $n, &x) }} }
        macro_rules! z { ($n:expr, $e:expr) => {{ let mut x = $e; floats(&mut c.rng, rawc_mut(&mut *x)); $f(c, $n, &x) }} }
        match $which {
            0 => w!("LweCiphertext", LweCiphertext::<$S>::new(&l)),
            1 => w!("LweCiphertextList", LweCiphertextList::<$S>::new(&l, cnt)),
            2 => w!("LweSecretKey", LweSecretKey::<$S>::generate_binary(&l)),
            3 => w!("LwePublicKey", owned!(l.dim.0 * (l.dim.0 + 1), Torus::<$S>::from(<$S>::of(0)), LwePublicKeyRef<$S>)),
            4 => w!("LweKeyswitchKey", LweKeyswitchKey::<$S>::new(&l, &l2, &r)),
            5 => w!("LevCiphertext", owned!(rl(&r) * (l.dim.0 + 1), Torus::<$S>::from(<$S>::of(0)), LevCiphertextRef<$S>)),
            6 => w!("GlweCiphertext", GlweCiphertext::<$S>::new(&g)),
            7 => w!("GlweCiphertextList", GlweCiphertextList::<$S>::new(&g, cnt)),
            8 => w!("GlweSecretKey", GlweSecretKey::<$S>::generate_binary(&g)),
            9 => w!("GlevCiphertext", GlevCiphertext::<$S>::new(&g, &r)),
            10 => w!("GgswCiphertext", GgswCiphertext::<$S>::new(&g, &r)),
            11 => w!("BootstrapKey", BootstrapKey::<$S>::new(&l, &g, &r)),
            12 => w!("GlweKeyswitchKey", GlweKeyswitchKey::<$S>::new(&g, &r)),
            13 => w!("AutomorphismKey", AutomorphismKey::<$S>::new(&g, &r)),
            14 => w!("SchemeSwitchKey", SchemeSwitchKey::<$S>::new(&g, &r)),
            15 => w!("RlwePublicKey", RlwePublicKey::<$S>::new(&gdef(1, gn(&g), 0.0))),
            16 => w!("PublicFunctionalKeyswitchKey", PublicFunctionalKeyswitchKey::<$S>::new(&l, &g, &r)),
            17 => w!("PrivateFunctionalKeyswitchKey", PrivateFunctionalKeyswitchKey::<$S>::new(&l, &g, &r, &PrivateFunctionalKeyswitchLweCount(cnt))),
            18 => w!("CircuitBootstrappingKeyswitchKeys", CircuitBootstrappingKeyswitchKeys::<$S>::new(&l, &g, &r)),
            19 => w!("UnivariateLookupTable", UnivariateLookupTable::<$S>::trivial_from_fn(|x| x, &gdef(gk(&g), gn(&g).max(4), 0.0), PlaintextBits(1))),
            20 => w!("BlindRotationShift", BlindRotationShift::<$S>::new(&g, &r)),
            21 => w!("Polynomial", Polynomial::<$S>::zero(cnt * 3)),
            22 => w!("Polynomial of torus elements", Polynomial::<Torus<$S>>::zero(gn(&g))),
            23 => w!("BivariateLookupTable", BivariateLookupTable::<$S>::trivial_from_fn(|x, _| x, &gdef(gk(&g), gn(&g).max(8), 0.0), PlaintextBits(1), CarryBits(1))),
            24 => z!("GlweCiphertextFft", GlweCiphertextFft::<C64>::new(&g)),
            25 => z!("GgswCiphertextFft", GgswCiphertextFft::<C64>::new(&g, &r)),
            26 => z!("BootstrapKeyFft", BootstrapKeyFft::<C64>::new(&l, &g, &r)),
            27 => z!("GlweKeyswitchKeyFft", GlweKeyswitchKeyFft::<C64>::new(&g, &r)),
            28 => z!("AutomorphismKeyFft", AutomorphismKeyFft::<C64>::new(&g, &r)),
            29 => z!("SchemeSwitchKeyFft", SchemeSwitchKeyFft::<C64>::new(&g, &r)),
            30 => z!("BlindRotationShiftFft", BlindRotationShiftFft::<C64>::new(&g, &r)),
            _ => z!("GlevCiphertextFft", owned!(rl(&r) * (gk(&g) + 1) * gn(&g) / 2, C64::new(0.0, 0.0), GlevCiphertextFftRef<C64>)),
        }
    }};
}
const KINDS: u64 = 32;

fn rawc_mut<R: ?Sized>(x: &mut R) -> &mut [C64] {
    raw_mut::<C64, R>(x)
}
/// finite floating point numbers of every magnitude, sign and length of mantissa
fn floats(r: &mut Rng, x: &mut [C64]) {
    let one = |r: &mut Rng| match r.below(6) {
        0 => -0.0,
        1 => f64::from_bits(r.u64() >> 12),
        2 => (r.u64() as i64) as f64,
        3 => r.f64() - 0.5,
        _ => loop {
            let v = f64::from_bits(r.u64());
            if v.is_finite() {
                break v;
            }
        },
    };
    for z in x {
        *z = C64::new(one(r), one(r));
    }
}

fn round_trip_w<S: Word>(c: &mut Case, which: u64) -> Res
where
    Torus<S>: Serialize + DeserializeOwned,
{
    kinds!(c, S, which, same)
}
fn round_trip(c: &mut Case) -> Res {
    let k = c.idx / 2 % KINDS;
    either!(c, round_trip_w, k)
}

// ---- parameters -----------------------------------------------------------
fn params(c: &mut Case) -> Res {
    let l = match c.rng.below(4) {
        0 => c.rng.pick(&[LWE_512_128, LWE_637_128]),
        _ => LweDef { dim: LweDimension(c.rng.u64() as usize >> c.rng.below(64)), std: Stddev(f64::from_bits(c.rng.u64() >> 2)) },
    };
    let g = match c.rng.below(4) {
        0 => c.rng.pick(&[GLWE_1_512_128, GLWE_5_256_128, GLWE_1_1024_128, GLWE_1_2048_128]),
        _ => GlweDef {
            dim: GlweDimension { size: GlweSize(c.rng.u64() as usize >> c.rng.below(64)), polynomial_degree: PolynomialDegree(c.rng.u64() as usize >> c.rng.below(64)) },
            std: Stddev(f64::from_bits(c.rng.u64() >> 2)),
        },
    };
    let r = RadixDecomposition { count: RadixCount(c.rng.u64() as usize), radix_log: RadixLog(c.rng.u64() as usize) };
    let mut n = 0;
    formats(&l, |f, y: LweDef| {
        n += 1;
        if (y.dim.0, y.std.0.to_bits()) != (l.dim.0, l.std.0.to_bits()) { fail!("{l:?} through {f} is {y:?}") }
        Ok(())
    })?;
    formats(&g, |f, y: GlweDef| {
        n += 1;
        if (gk(&y), gn(&y), y.std.0.to_bits()) != (gk(&g), gn(&g), g.std.0.to_bits()) { fail!("{g:?} through {f} is {y:?}") }
        Ok(())
    })?;
    formats(&r, |f, y: RadixDecomposition| {
        n += 1;
        if (rl(&y), rb(&y)) != (rl(&r), rb(&r)) { fail!("{r:?} through {f} is {y:?}") }
        Ok(())
    })?;
    formats(&g.dim, |f, y: GlweDimension| {
        n += 1;
        if y.size.0 != gk(&g) || y.polynomial_degree.0 != gn(&g) { fail!("{:?} through {f} is {y:?}", g.dim) }
        Ok(())
    })?;
    let t = (PlaintextBits(c.rng.u32()), CarryBits(c.rng.u32()));
    formats(&t.0, |f, y: PlaintextBits| { n += 1; if y.0 != t.0 .0 { fail!("{:?} through {f} is {y:?}", t.0) } Ok(()) })?;
    formats(&t.1, |f, y: CarryBits| { n += 1; if y.0 != t.1 .0 { fail!("{:?} through {f} is {y:?}", t.1) } Ok(()) })?;
    let x = Torus::<u64>::from(c.rng.edge(64));
    formats(&x, |f, y: Torus<u64>| { n += 1; if y != x { fail!("{x:?} through {f} is {y:?}") } Ok(()) })?;
    let x = Torus::<u32>::from(c.rng.edge(32) as u32);
    formats(&x, |f, y: Torus<u32>| { n += 1; if y != x { fail!("{x:?} through {f} is {y:?}") } Ok(()) })?;
    c.evals += n;
    c.key(hash_bytes(format!("{l:?}{g:?}{r:?}").as_bytes()));
    Ok(())
}

// ---- constructors from raw data ------------------------------------------
fn constructors_w<S: Word>(c: &mut Case) -> Res {
    let g = gen_glwe(&mut c.rng, 0, 6, 4);
    let r = gen_radix(&mut c.rng, S::W, 12, 5);
    let (k, n) = (gk(&g), gn(&g));
    let len = (k + 1) * n;
    c.describe(format!("constructors {} bit k={k} n={n} radix {}x{}", S::W, rl(&r), rb(&r)));
    let d: Vec<S> = words(&mut c.rng, len);
    let x = GlweCiphertext::<S>::from_slice(&d, &g);
    ck!(c, raw::<S, _>(&*x) == &d[..], "GlweCiphertext::from_slice does not keep its elements in place");
    let (a, b) = x.a_b(&g);
    for (i, p) in a.enumerate() {
        ck!(c, raw::<S, _>(p) == &d[i * n..(i + 1) * n], "polynomial {i} of GlweCiphertext::from_slice");
    }
    ck!(c, raw::<S, _>(b) == &d[k * n..], "body of GlweCiphertext::from_slice");
    let zl = (k + 1) * rl(&r) * len;
    let e: Vec<S> = words(&mut c.rng, zl);
    let te: Vec<Torus<S>> = e.iter().map(|x| Torus::from(*x)).collect();
    let y = GgswCiphertext::<S>::from_slice(&te, &g, &r);
    ck!(c, raw::<S, _>(&*y) == &e[..], "GgswCiphertext::from_slice does not keep its elements in place");
    for (i, row) in y.rows(&g, &r).enumerate() {
        for (j, q) in row.glwe_ciphertexts(&g).enumerate() {
            let o = (i * rl(&r) + j) * len;
            ck!(c, raw::<S, _>(q) == &e[o..o + len], "row {i} level {j} of GgswCiphertext::from_slice");
        }
    }
    let p = Polynomial::<S>::new(&d);
    ck!(c, raw::<S, _>(&*p) == &d[..] && p.coeffs() == &d[..], "Polynomial::new does not keep its elements in place");
    let f: Vec<C64> = (0..n).map(|i| C64::new(i as f64 + 0.5, -(i as f64))).collect();
    let p = PolynomialFft::<C64>::new(&f);
    ck!(c, rawc(&*p) == &f[..], "PolynomialFft::new does not keep its elements in place");
    // wrong lengths
    for bad in [0, 1, n, len - 1, len + 1, len + n, 2 * len, len * (k + 1)] {
        if bad != len {
            let d: Vec<S> = words(&mut c.rng, bad);
            let got = quiet_catch(|| GlweCiphertext::<S>::from_slice(&d, &g));
            ck!(c, got.is_err(), "GlweCiphertext::from_slice accepts {bad} words instead of {len}");
            let mut a = GlweCiphertext::<S>::new(&g);
            let b: &GlweCiphertextRef<S> = view!(&d[..], GlweCiphertextRef<S>);
            let got = quiet_catch(|| a.clone_from_ref(b));
            ck!(c, got.is_err(), "clone_from_ref accepts {bad} words for {len}");
        }
    }
    for bad in [0, 1, len, zl - 1, zl + 1, zl - len, zl + len, 2 * zl] {
        if bad != zl {
            let d: Vec<Torus<S>> = torus_vec(&mut c.rng, bad);
            let got = quiet_catch(|| GgswCiphertext::<S>::from_slice(&d, &g, &r));
            ck!(c, got.is_err(), "GgswCiphertext::from_slice accepts {bad} words instead of {zl}");
        }
    }
    // secret key views
    let (sw, sk) = glwe_sk::<S>(&mut c.rng, len - n, 0);
    ck!(c, rawu::<S, _>(sk.to_lwe_secret_key()) == sw, "to_lwe_secret_key changes the key");
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, S::W as u64, e[0].u()]));
    Ok(())
}
fn constructors(c: &mut Case) -> Res {
    either!(c, constructors_w)
}

// ---- new objects: right length, all zero -----------------------------------
fn fresh<T, R: ?Sized>(c: &mut Case, what: &str, x: &T) -> Res
where
    T: std::ops::Deref<Target = R>,
{
    let b = raw::<u8, R>(x);
    ck!(c, b.as_ptr() as usize % 64 == 0 || b.is_empty(), "{what} allocated unaligned");
    c.count(what, 1);
    Ok(())
}

// ---- transform domain -----------------------------------------------------
/// raw words of an object and the raw transform of it, polynomial by polynomial
fn content<S: Word>(c: &mut Case, what: &str, n: usize, w: &[u64], z: &[C64], back: &[u64]) -> Res {
    ck!(c, back.len() == w.len() && z.len() * 2 == w.len(), "{what}: {} words, {} transform values, {} words back", w.len(), z.len(), back.len());
    for (i, p) in w.chunks(n).enumerate() {
        let norm = p.iter().map(|x| (signed(*x, S::W) as f64).powi(2)).sum::<f64>().sqrt();
        let t = 8.0 * f64::EPSILON * ((n as f64).log2() + 3.0) * norm;
        let t = if t < 0.25 { 0.0 } else { t + 0.5 + 2f64.powi(S::W as i32 - 52) };
        close(c, &back[i * n..(i + 1) * n], p, t, S::W, &|| format!("{what}: polynomial {i} of {} after both conversions", w.len() / n))?;
        // where it is stored
        let zi: &PolynomialFftRef<C64> = view!(&z[i * n / 2..(i + 1) * n / 2], PolynomialFftRef<C64>);
        let mut q = Polynomial::<S>::zero(n);
        zi.ifft(&mut q);
        close(c, &rawu::<S, _>(&*q), p, t, S::W, &|| format!("{what}: transform of polynomial {i} of {}", w.len() / n))?;
    }
    c.count(what, 1);
    c.key(hash_u64s(&w[..n.min(w.len())]));
    Ok(())
}
/// words whose size leaves room for exactness in half of the cases
fn content_words<S: Word, R: ?Sized>(r: &mut Rng, x: &mut R) {
    let b = if r.bool() { S::W } else { r.range(2, 40.min(S::W as u64)) as u32 };
    for v in raw_mut::<S, R>(x) {
        let s = signed(r.u64() & wmask(S::W), S::W) >> (S::W - b);
        *v = S::of(s as u64 & wmask(S::W));
    }
}
fn transform_w<S: Word>(c: &mut Case, which: u64) -> Res {
    let hi = if which == 0 && c.rng.chance(1, 4) { 12 } else { 9 };
    let g = gen_glwe(&mut c.rng, 4, hi, 3);
    let n = gn(&g);
    let r = gen_radix(&mut c.rng, S::W, 12, 4);
    let l = gen_lwe(&mut c.rng, 5);
    c.describe(format!("transform {which} {} bit k={} n={n} radix {}x{} lwe {}", S::W, gk(&g), rl(&r), rb(&r), l.dim.0));
    macro_rules! go {
        ($what:expr, $new:expr, $newf:expr, |$x:ident, $y:ident| $fwd:expr, |$p:ident, $q:ident| $rev:expr) => {{
            let mut x = $new;
            content_words::<S, _>(&mut c.rng, &mut *x);
            let w = rawu::<S, _>(&*x);
            let mut f = $newf;
            for z in rawc_mut(&mut *f) {
                *z = C64::new(1e30, f64::NAN);
            }
            poison_scratch(&mut c.rng, n);
            { let ($x, $y) = (&x, &mut f); $fwd; }
            ck!(c, rawu::<S, _>(&*x) == w, "{}: the conversion changes its input", $what);
            let mut b = $new;
            fill_words::<S, _>(&mut c.rng, &mut *b);
            let keep = rawc(&*f).to_vec();
            { let ($p, $q) = (&f, &mut b); $rev; }
            ck!(c, rawc(&*f) == &keep[..], "{}: the conversion back changes its input", $what);
            content::<S>(c, $what, n, &w, &keep, &rawu::<S, _>(&*b))
        }};
    }
    match which {
        0 => go!("Polynomial", Polynomial::<S>::zero(n), PolynomialFft::<C64>::new(&vec![C64::new(0.0, 0.0); n / 2]), |x, y| x.fft(y), |p, q| p.ifft(q)),
        1 => go!("GlweCiphertext", GlweCiphertext::<S>::new(&g), GlweCiphertextFft::<C64>::new(&g), |x, y| x.fft(y, &g), |p, q| p.ifft(q, &g)),
        2 => go!("GlevCiphertext", GlevCiphertext::<S>::new(&g, &r), owned!(rl(&r) * (gk(&g) + 1) * n / 2, C64::new(0.0, 0.0), GlevCiphertextFftRef<C64>), |x, y| x.fft(y, &g), |p, q| p.ifft(q, &g)),
        3 => go!("GgswCiphertext", GgswCiphertext::<S>::new(&g, &r), GgswCiphertextFft::<C64>::new(&g, &r), |x, y| x.fft(y, &g, &r), |p, q| p.ifft(q, &g, &r)),
        4 => go!("BootstrapKey", BootstrapKey::<S>::new(&l, &g, &r), BootstrapKeyFft::<C64>::new(&l, &g, &r), |x, y| x.fft(y, &l, &g, &r), |p, q| p.ifft(q, &g, &r)),
        5 => go!("SchemeSwitchKey", SchemeSwitchKey::<S>::new(&g, &r), SchemeSwitchKeyFft::<C64>::new(&g, &r), |x, y| x.fft(y, &g, &r), |p, q| p.ifft(q, &g, &r)),
        6 => go!("GlweKeyswitchKey", GlweKeyswitchKey::<S>::new(&g, &r), GlweKeyswitchKeyFft::<C64>::new(&g, &r), |x, y| x.fft(y, &g, &r), |p, q| p.ifft(q, &g, &r)),
        7 => {
            // no conversion back in the library: the place of every transform is checked all the same
            let mut x = AutomorphismKey::<S>::new(&g, &r);
            content_words::<S, _>(&mut c.rng, &mut *x);
            let w = rawu::<S, _>(&*x);
            let mut f = AutomorphismKeyFft::<C64>::new(&g, &r);
            poison_scratch(&mut c.rng, n);
            x.fft(&mut f, &g, &r);
            content::<S>(c, "AutomorphismKey", n, &w, rawc(&*f), &w)
        }
        _ => {
            let mut x = BlindRotationShift::<S>::new(&g, &r);
            content_words::<S, _>(&mut c.rng, &mut *x);
            let w = rawu::<S, _>(&*x);
            let mut f = BlindRotationShiftFft::<C64>::new(&g, &r);
            for (i, p) in w.chunks(n).enumerate() {
                let q: &mut PolynomialFftRef<C64> = view_mut!(&mut rawc_mut(&mut *f)[i * n / 2..(i + 1) * n / 2], PolynomialFftRef<C64>);
                poly::<S>(p).fft(q);
            }
            let z = rawc(&*f).to_vec();
            let mut b = BlindRotationShift::<S>::new(&g, &r);
            fill_words::<S, _>(&mut c.rng, &mut *b);
            f.ifft(&mut b, &g, &r);
            content::<S>(c, "BlindRotationShift", n, &w, &z, &rawu::<S, _>(&*b))
        }
    }
}
fn transform(c: &mut Case) -> Res {
    let k = c.idx / 2 % 9;
    either!(c, transform_w, k)
}

// ---- a stored world -------------------------------------------------------
fn again<T: Serialize + DeserializeOwned>(c: &mut Case, x: &T) -> std::result::Result<T, Fail> {
    if c.rng.bool() {
        let s = bincode::serialize(x).map_err(|e| Fail::from(e.to_string()))?;
        bincode::deserialize(&s).map_err(|e| Fail::from(e.to_string()))
    } else {
        let s = serde_json::to_string(x).map_err(|e| Fail::from(e.to_string()))?;
        serde_json::from_str(&s).map_err(|e| Fail::from(e.to_string()))
    }
}
/// everything of a small system is stored and loaded between steps
fn world(c: &mut Case) -> Res {
    let l = ldef(c.rng.range(3, 12) as usize, 0.0);
    let g = gdef(c.rng.range(1, 2) as usize, 1 << c.rng.range(6, 7), 0.0);
    let r = rdef(3, 12);
    let (bits, in_bits) = (PlaintextBits(2), PlaintextBits(3)); // one bit of padding
    let gl = g.as_lwe_def();
    c.describe(format!("world lwe {} glwe k={} n={}", l.dim.0, gk(&g), gn(&g)));
    let sk0 = keygen::generate_binary_lwe_sk(&l);
    let gk0 = keygen::generate_binary_glwe_sk(&g);
    let bsk0 = keygen::generate_bootstrapping_key(&sk0, &gk0, &l, &g, &r);
    let ksk0 = keygen::generate_ksk(gk0.to_lwe_secret_key(), &sk0, &gl, &l, &r);
    let pk0 = LwePublicKey::<u64>::generate(&sk0, &l);
    let m = c.rng.below(4);
    let ct0 = encryption::encrypt_lwe_secret(m, &sk0, &l, in_bits);
    let (sk, gsk, bsk, ksk, pk, ct) = (again(c, &sk0)?, again(c, &gk0)?, again(c, &bsk0)?, again(c, &ksk0)?, again(c, &pk0)?, again(c, &ct0)?);
    let (l, g, r, bits) = (again(c, &l)?, again(c, &g)?, again(c, &r)?, again(c, &bits)?);
    ck_eq!(c, encryption::decrypt_lwe(&ct, &sk, &l, in_bits), m, "stored ciphertext under stored key");
    let e = again(c, &encryption::encrypt_lwe(m ^ 1, &pk, &l, bits))?;
    ck_eq!(c, encryption::decrypt_lwe(&e, &sk0, &l, bits), m ^ 1, "encryption under a stored public key");
    let (p, q) = (msgs(&mut c.rng, gn(&g), 2), msgs(&mut c.rng, gn(&g), 2));
    let (a, b) = (again(c, &encryption::encrypt_glwe(&poly::<u64>(&p), &gk0, &g, bits))?, again(c, &encryption::encrypt_glwe(&poly::<u64>(&q), &gsk, &g, bits))?);
    ck_eq!(c, rawu::<u64, _>(&*encryption::decrypt_glwe(&a, &gsk, &g, bits)), p, "stored GLWE ciphertext under stored key");
    let bit = c.rng.below(2);
    let gg = again(c, &encryption::encrypt_ggsw(bit, &gsk, &g, &r, PlaintextBits(1)))?;
    let gf = again(c, &fft::fft_ggsw(&gg, &g, &r))?;
    let o = again(c, &evaluation::cmux(&gf, &a, &b, &g, &r))?;
    ck_eq!(c, rawu::<u64, _>(&*encryption::decrypt_glwe(&o, &gk0, &g, bits)), if bit == 1 { q } else { p }, "selection with stored objects");
    let bf0 = fft::fft_bootstrap_key(&bsk0, &l, &g, &r);
    let bf = again(c, &fft::fft_bootstrap_key(&bsk, &l, &g, &r))?;
    ck!(c, rawc(&*bf) == rawc(&*bf0), "transform of a stored bootstrap key");
    let lut0 = UnivariateLookupTable::<u64>::trivial_from_fn(|x| (x + 1) % 4, &g, bits);
    let lut = again(c, &lut0)?;
    let o0 = evaluation::univariate_programmable_bootstrap(&ct0, &lut0, &bf0, &l, &g, &r);
    let o = again(c, &evaluation::univariate_programmable_bootstrap(&ct, &lut, &bf, &l, &g, &r))?;
    ck!(c, rawu::<u64, _>(&*o) == rawu::<u64, _>(&*o0), "bootstrap with stored objects gives another ciphertext");
    let k = again(c, &evaluation::keyswitch_lwe_to_lwe(&o, &ksk, &gl, &l, &r))?;
    ck_eq!(c, encryption::decrypt_lwe(&k, &sk, &l, bits), (m + 1) % 4, "bootstrap and key switch with stored objects of {m}");
    c.key(hash_u64s(&rawu::<u64, _>(&*ct)));
    Ok(())
}

fn zero_w<S: Word>(c: &mut Case, which: u64) -> Res {
    kinds!(c, S, which, fresh)
}
fn zero(c: &mut Case) -> Res {
    let k = c.idx / 2 % KINDS;
    either!(c, zero_w, k)
}

fn main() {
    let mut ctx = Ctx::new("C23");
    ctx.section("round-trip", 19200, 240_000, round_trip);
    ctx.section("parameters", 3000, 200_000, params);
    ctx.section("constructors", 3000, 60_000, constructors);
    ctx.section("storage", 640, 6400, zero);
    ctx.section("transform", 9000, 60_000, transform);
    ctx.section("world", 400, 1500, world);
    ctx.finish();
}
