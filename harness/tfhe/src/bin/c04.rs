//! C04: views, iterators and temporaries never overlap or leave their buffer.
use rayon::iter::plumbing::Producer;
use rayon::prelude::*;
use std::collections::VecDeque;
use std::mem::{align_of, size_of, size_of_val};
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::verif_hooks::{allocate_scratch, ParTriangularPairsExt, Pod, ScratchBuffer, TriangularPairsExt, SIMD_ALIGN};
use vtfhe::ops::*;
use vtfhe::*;

trait El: Copy + Send + Sync + 'static {
    fn tag(i: usize) -> Self;
    fn id(&self) -> usize;
}
impl El for u64 {
    fn tag(i: usize) -> u64 {
        i as u64
    }
    fn id(&self) -> usize {
        *self as usize
    }
}
impl El for Torus<u64> {
    fn tag(i: usize) -> Self {
        Torus::from(i as u64)
    }
    fn id(&self) -> usize {
        self.inner() as usize
    }
}
impl El for Torus<u32> {
    fn tag(i: usize) -> Self {
        Torus::from(i as u32)
    }
    fn id(&self) -> usize {
        self.inner() as usize
    }
}
impl El for C64 {
    fn tag(i: usize) -> Self {
        C64::new(i as f64, -(i as f64))
    }
    fn id(&self) -> usize {
        self.re as usize
    }
}
/// where a view lies, in elements
fn at<E, R: ?Sized>(r: &R) -> (usize, usize) {
    (r as *const R as *const E as usize, size_of_val(r) / size_of::<E>())
}
fn span<E>(base: usize, i: usize, n: usize) -> (usize, usize) {
    (base + i * size_of::<E>(), n)
}

/// every way to walk over a container of `count` items of `stride` elements
macro_rules! walk {
    ($name:ident, $It:ident, $ItM:ident, $P:ident, $PM:ident, $E:ty) => {
        fn $name(c: &mut Case, big: bool) -> Res {
            type E = $E;
            let what = stringify!($It);
            let count = if c.rng.chance(1, 8) { 0 } else if big { c.rng.usize(300) } else { c.rng.usize(9) };
            let stride = 1 + c.rng.usize(if big { 40 } else { 9 });
            let n = count * stride;
            const G: usize = 5;
            let mut buf: Vec<E> = (0..n + 2 * G).map(E::tag).collect();
            let orig = buf.iter().map(|x| x.id()).collect::<Vec<_>>();
            c.key(hash_words(&[count as u64, stride as u64, hash_bytes(what.as_bytes())]));
            c.describe(format!("{what}: {count} items of {stride}"));
            // one walk: 0 all forward, 1 all backward, 2 mixed, 3 mixed with nth
            for mutable in [false, true] {
                for mode in 0..4 {
                    let base = buf[G..].as_ptr() as usize;
                    let mut model: VecDeque<(usize, usize)> = (0..count).map(|i| span::<E>(base, i * stride, stride)).collect();
                    let mut seen = vec![];
                    let mut alive = vec![];
                    let mut steps = vec![];
                    for _ in 0..count + 3 {
                        steps.push((mode == 1 || mode >= 2 && c.rng.bool(), if mode == 3 && c.rng.chance(1, 4) { c.rng.usize(3) } else { 0 }));
                    }
                    macro_rules! go {
                        ($iter:expr, $keep:ident) => {{
                            let mut it = $iter;
                            for &(back, skip) in &steps {
                                ck!(c, it.len() == model.len(), "{what}: len() is {} with {} items left (mutable {mutable})", it.len(), model.len());
                                let h = it.size_hint();
                                ck!(c, h == (model.len(), Some(model.len())), "{what}: size_hint() is {h:?} with {} items left", model.len());
                                for _ in 0..skip {
                                    if back { model.pop_back() } else { model.pop_front() };
                                }
                                let (got, want) = if back { (it.nth_back(skip), model.pop_back()) } else { (it.nth(skip), model.pop_front()) };
                                let got = match got {
                                    Some(r) => {
                                        let p = at::<E, _>(&*r);
                                        $keep.push(r);
                                        Some(p)
                                    }
                                    None => None,
                                };
                                ck!(c, got == want, "{what}: item at {got:x?}, {want:x?} expected (mutable {mutable}, mode {mode}, {count} items of {stride})");
                                if let Some(g) = got {
                                    seen.push(g);
                                }
                            }
                        }};
                    }
                    if mutable {
                        // all items yielded stay alive; writing one never shows in another
                        let mut all = vec![];
                        go!($ItM::new(&mut buf[G..G + n], stride), all);
                        for (j, r) in all.iter_mut().enumerate() {
                            for (x, y) in raw_mut::<E, _>(&mut **r).iter_mut().zip(0..) {
                                *x = E::tag(1_000_000 + j * stride + y);
                            }
                        }
                        for (j, r) in all.iter().enumerate() {
                            for (x, y) in raw::<E, _>(&**r).iter().zip(0..) {
                                ck!(c, x.id() == 1_000_000 + j * stride + y, "{what}: writing one item changed another");
                            }
                        }
                        drop(all);
                        for i in 0..G {
                            ck!(c, buf[i].id() == orig[i] && buf[G + n + i].id() == orig[G + n + i], "{what}: wrote outside the container");
                        }
                        for i in 0..buf.len() {
                            buf[i] = E::tag(i);
                        }
                    } else {
                        go!($It::new(&buf[G..G + n], stride), alive);
                        for r in &alive {
                            let p = at::<E, _>(&**r);
                            let first = (p.0 - base) / size_of::<E>() + G;
                            for (x, y) in raw::<E, _>(&**r).iter().zip(0..) {
                                ck!(c, x.id() == first + y, "{what}: element {} read at {first} + {y}", x.id());
                            }
                        }
                    }
                    c.count("walks", 1);
                    c.count("items", seen.len() as u64);
                }
            }
            if count == 0 && what.is_empty() {
                return Ok(());
            }
            // split points, including 0 and everything, then walk the parts
            let base = buf[G..].as_ptr() as usize;
            {
                let mut parts = vec![$P::new(&buf[G..G + n], stride)];
                for _ in 0..c.rng.usize(6) {
                    let i = c.rng.usize(parts.len());
                    let p = parts.remove(i);
                    let l = rayon::iter::IndexedParallelIterator::len(&p);
                    let at = c.rng.usize(l + 1);
                    let (x, y) = p.split_at(at);
                    ck!(c, rayon::iter::IndexedParallelIterator::len(&x) == at && rayon::iter::IndexedParallelIterator::len(&y) == l - at, "{what}: split at {at} of {l} into wrong lengths");
                    parts.insert(i, y);
                    parts.insert(i, x);
                    c.count("splits", 1);
                }
                let mut k = 0;
                for p in parts {
                    for r in Producer::into_iter(p) {
                        let got = at::<E, _>(r);
                        ck!(c, got == span::<E>(base, k * stride, stride), "{what}: item {k} of a split iterator at {got:x?}");
                        k += 1;
                    }
                }
                ck!(c, k == count, "{what}: a split iterator yielded {k} of {count} items");
            }
            {
                let mut parts = vec![$PM::new(&mut buf[G..G + n], stride)];
                for _ in 0..c.rng.usize(6) {
                    let i = c.rng.usize(parts.len());
                    let p = parts.remove(i);
                    let l = rayon::iter::IndexedParallelIterator::len(&p);
                    let at = c.rng.usize(l + 1);
                    let (x, y) = p.split_at(at);
                    ck!(c, rayon::iter::IndexedParallelIterator::len(&x) == at && rayon::iter::IndexedParallelIterator::len(&y) == l - at, "{what}: split at {at} of {l} into wrong lengths");
                    parts.insert(i, y);
                    parts.insert(i, x);
                }
                let mut k = 0;
                let mut all = vec![];
                for p in parts {
                    let back = c.rng.bool();
                    let v: Vec<_> = if back { let mut v: Vec<_> = Producer::into_iter(p).rev().collect(); v.reverse(); v } else { Producer::into_iter(p).collect() };
                    for r in v {
                        let got = at::<E, _>(&*r);
                        ck!(c, got == span::<E>(base, k * stride, stride), "{what}: mutable item {k} of a split iterator at {got:x?}");
                        k += 1;
                        all.push(r);
                    }
                }
                ck!(c, k == count, "{what}: a split mutable iterator yielded {k} of {count} items");
                for (j, r) in all.iter_mut().enumerate() {
                    raw_mut::<E, _>(&mut **r)[0] = E::tag(j);
                }
                for (j, r) in all.iter().enumerate() {
                    ck!(c, raw::<E, _>(&**r)[0].id() == j, "{what}: split mutable items overlap");
                }
            }
            for i in 0..buf.len() {
                buf[i] = E::tag(i);
            }
            // through a thread pool
            if big {
                let min = 1 + c.rng.usize(8);
                let max = 1 + c.rng.usize(8);
                let got: Vec<_> = $P::new(&buf[G..G + n], stride).with_min_len(min).with_max_len(max).enumerate().map(|(i, r)| (i, at::<E, _>(r))).collect();
                let want: Vec<_> = (0..count).map(|i| (i, span::<E>(base, i * stride, stride))).collect();
                ck!(c, got == want, "{what}: parallel iteration yields other items ({count} of {stride})");
                let got: Vec<_> = $P::new(&buf[G..G + n], stride).rev().zip((0..count).into_par_iter()).map(|(r, i)| (i, at::<E, _>(r))).collect();
                let want: Vec<_> = (0..count).map(|i| (i, span::<E>(base, (count - 1 - i) * stride, stride))).collect();
                ck!(c, got == want, "{what}: reversed parallel iteration yields other items ({count} of {stride})");
                $PM::new(&mut buf[G..G + n], stride).with_min_len(min).with_max_len(max).enumerate().for_each(|(i, r)| {
                    for (x, y) in raw_mut::<E, _>(r).iter_mut().zip(0..) {
                        *x = E::tag(2_000_000 + i * stride + y);
                    }
                });
                for i in 0..buf.len() {
                    let want = if (G..G + n).contains(&i) { 2_000_000 + i - G } else { i };
                    ck!(c, buf[i].id() == want, "{what}: element {i} is {} after parallel writes, {want} expected", buf[i].id());
                }
                // a zip of both, and a skip
                let k = c.rng.usize(count + 2);
                let got: Vec<_> = $P::new(&buf[G..G + n], stride).skip(k).map(|r| at::<E, _>(r)).collect();
                let want: Vec<_> = (k.min(count)..count).map(|i| span::<E>(base, i * stride, stride)).collect();
                ck!(c, got == want, "{what}: parallel iteration after skip({k})");
                c.count("parallel walks", 4);
            }
            Ok(())
        }
    };
}
walk!(w_poly, PolynomialIterator, PolynomialIteratorMut, ParallelPolynomialIterator, ParallelPolynomialIteratorMut, u64);
walk!(w_polyt, PolynomialIterator, PolynomialIteratorMut, ParallelPolynomialIterator, ParallelPolynomialIteratorMut, Torus<u32>);
walk!(w_polyf, PolynomialFftIterator, PolynomialFftIteratorMut, ParallelPolynomialFftIterator, ParallelPolynomialFftIteratorMut, C64);
walk!(w_lwe, LweCiphertextIterator, LweCiphertextIteratorMut, ParallelLweCiphertextIterator, ParallelLweCiphertextIteratorMut, Torus<u64>);
walk!(w_lev, LevCiphertextIterator, LevCiphertextIteratorMut, ParallelLevCiphertextIterator, ParallelLevCiphertextIteratorMut, Torus<u64>);
walk!(w_glwe, GlweCiphertextIterator, GlweCiphertextIteratorMut, ParallelGlweCiphertextIterator, ParallelGlweCiphertextIteratorMut, Torus<u64>);
walk!(w_glwef, GlweCiphertextFftIterator, GlweCiphertextFftIteratorMut, ParallelGlweCiphertextFftIterator, ParallelGlweCiphertextFftIteratorMut, C64);
walk!(w_glev, GlevCiphertextIterator, GlevCiphertextIteratorMut, ParallelGlevCiphertextIterator, ParallelGlevCiphertextIteratorMut, Torus<u32>);
walk!(w_glevf, GlevCiphertextFftIterator, GlevCiphertextFftIteratorMut, ParallelGlevCiphertextFftIterator, ParallelGlevCiphertextFftIteratorMut, C64);
walk!(w_ggsw, GgswCiphertextIterator, GgswCiphertextIteratorMut, ParallelGgswCiphertextIterator, ParallelGgswCiphertextIteratorMut, Torus<u64>);
walk!(w_ggswf, GgswCiphertextFftIterator, GgswCiphertextFftIteratorMut, ParallelGgswCiphertextFftIterator, ParallelGgswCiphertextFftIteratorMut, C64);
walk!(w_ksk, GlweKeyswitchKeyIterator, GlweKeyswitchKeyIteratorMut, ParallelGlweKeyswitchKeyIterator, ParallelGlweKeyswitchKeyIteratorMut, Torus<u64>);
walk!(w_ssk, SchemeSwitchKeyIterator, SchemeSwitchKeyIteratorMut, ParallelSchemeSwitchKeyIterator, ParallelSchemeSwitchKeyIteratorMut, Torus<u64>);
const WALKS: [fn(&mut Case, bool) -> Res; 13] = [w_poly, w_polyt, w_polyf, w_lwe, w_lev, w_glwe, w_glwef, w_glev, w_glevf, w_ggsw, w_ggswf, w_ksk, w_ssk];

/// the items of a parallel iterator (collected without a pool under the interpreter)
fn par<P: IndexedParallelIterator + Producer>(p: P) -> std::vec::IntoIter<<P as ParallelIterator>::Item>
where
    P: Producer<Item = <P as ParallelIterator>::Item>,
{
    if cfg!(miri) {
        Producer::into_iter(p).collect::<Vec<_>>().into_iter()
    } else {
        ParallelIterator::collect::<Vec<_>>(p).into_iter()
    }
}
/// the views of an accessor, in order, tile the container from `from` on
fn tiles<E>(c: &mut Case, what: &str, base: usize, from: usize, total: usize, views: Vec<(usize, usize)>, sizes: &[usize]) -> Res {
    ck!(c, views.len() == sizes.len(), "{what}: {} views, {} expected", views.len(), sizes.len());
    let mut o = from;
    for (i, (v, s)) in views.iter().zip(sizes).enumerate() {
        ck!(c, *v == span::<E>(base, o, *s), "{what}: view {i} at {v:x?}, {:x?} expected", span::<E>(base, o, *s));
        o += s;
    }
    ck!(c, o == total, "{what}: views end at {o} of {total}");
    c.count("views", views.len() as u64);
    Ok(())
}
fn accessors<S: Word>(c: &mut Case) -> Res
where
    Torus<S>: El,
{
    type T<S> = Torus<S>;
    let k = 1 + c.rng.usize(if cfg!(miri) { 3 } else { 4 });
    let n = 1 << c.rng.usize(if cfg!(miri) { 3 } else { 6 });
    let nf = n.max(2);
    let l = 1 + c.rng.usize(if cfg!(miri) { 3 } else { 4 });
    let m = 1 + c.rng.usize(if cfg!(miri) { 4 } else { 12 });
    let m2 = 1 + c.rng.usize(6);
    let g = gdef(k, n, 0.0);
    let gf = gdef(k, nf, 0.0);
    let lw = ldef(m, 0.0);
    let lw2 = ldef(m2, 0.0);
    let r = rdef(l, 1);
    c.key(hash_words(&[k as u64, n as u64, l as u64, m as u64, m2 as u64, S::W as u64]));
    c.describe(format!("accessors k {k} N {n} levels {l} LWE {m} {m2}"));
    let z = Torus::from(S::of(0));
    let glwe = n * (k + 1);
    let glev = glwe * l;
    let h = nf / 2;
    let glwef = h * (k + 1);
    let glevf = glwef * l;
    let cz = C64::new(0.0, 0.0);
    // shared and mutable accessor of entity $t with $len elements of type $e
    macro_rules! acc {
        ($t:ty, $e:ty, $z:expr, $len:expr, $from:expr, $sizes:expr, $get:ident ($($a:expr),*)) => {{
            let mut v = vec![$z; $len + 2];
            let e: &mut $t = view_mut!(&mut v[1..1 + $len], $t);
            let base = e as *const $t as *const $e as usize;
            let views: Vec<_> = e.$get($($a),*).map(|x| at::<$e, _>(&*x)).collect();
            tiles::<$e>(c, concat!(stringify!($t), "::", stringify!($get)), base, $from, $from + ($sizes).iter().sum::<usize>(), views, $sizes)?;
            let total: usize = $from + ($sizes).iter().sum::<usize>();
            let _ = total;
        }};
    }
    macro_rules! one {
        ($t:ty, $e:ty, $z:expr, $len:expr, $at:expr, $n:expr, $get:ident ($($a:expr),*)) => {{
            let mut v = vec![$z; $len + 2];
            let e: &mut $t = view_mut!(&mut v[1..1 + $len], $t);
            let base = e as *const $t as *const $e as usize;
            let got = { let x = e.$get($($a),*); at::<$e, _>(&*x) };
            ck!(c, got == span::<$e>(base, $at, $n), "{}: view at {got:x?}, {:x?} expected", concat!(stringify!($t), "::", stringify!($get)), span::<$e>(base, $at, $n));
            c.count("views", 1);
        }};
    }
    let ns = |x: usize, y: usize| vec![y; x];
    // GLWE
    acc!(GlweCiphertextRef<S>, T<S>, z, glwe, 0, &ns(k, n), a(&g));
    acc!(GlweCiphertextRef<S>, T<S>, z, glwe, 0, &ns(k, n), a_mut(&g));
    one!(GlweCiphertextRef<S>, T<S>, z, glwe, k * n, n, b(&g));
    one!(GlweCiphertextRef<S>, T<S>, z, glwe, k * n, n, b_mut(&g));
    {
        let mut v = vec![z; glwe];
        let e = view_mut!(&mut v[..], GlweCiphertextRef<S>);
        let base = e as *const GlweCiphertextRef<S> as *const T<S> as usize;
        let (a, b) = e.a_b(&g);
        let mut w: Vec<_> = a.map(|x| at::<T<S>, _>(x)).collect();
        w.push(at::<T<S>, _>(b));
        tiles::<T<S>>(c, "GlweCiphertext::a_b", base, 0, glwe, w, &ns(k + 1, n))?;
        let (a, b) = e.a_b_mut(&g);
        let mut a: Vec<_> = a.collect();
        for (i, x) in a.iter_mut().enumerate() {
            raw_mut::<S, _>(&mut **x).fill(S::of(i as u64 + 1));
        }
        raw_mut::<S, _>(b).fill(S::of(99));
        let mut w: Vec<_> = a.iter().map(|x| at::<T<S>, _>(&**x)).collect();
        w.push(at::<T<S>, _>(&*b));
        tiles::<T<S>>(c, "GlweCiphertext::a_b_mut", base, 0, glwe, w, &ns(k + 1, n))?;
    }
    acc!(GlweCiphertextFftRef<C64>, C64, cz, glwef, 0, &ns(k, h), a(&gf));
    acc!(GlweCiphertextFftRef<C64>, C64, cz, glwef, 0, &ns(k, h), a_mut(&gf));
    one!(GlweCiphertextFftRef<C64>, C64, cz, glwef, k * h, h, b(&gf));
    one!(GlweCiphertextFftRef<C64>, C64, cz, glwef, k * h, h, b_mut(&gf));
    {
        let mut v = vec![cz; glwef];
        let e = view_mut!(&mut v[..], GlweCiphertextFftRef<C64>);
        let base = e as *const GlweCiphertextFftRef<C64> as *const C64 as usize;
        let (a, b) = e.a_b(&gf);
        let mut w: Vec<_> = a.map(|x| at::<C64, _>(x)).collect();
        w.push(at::<C64, _>(b));
        tiles::<C64>(c, "GlweCiphertextFft::a_b", base, 0, glwef, w, &ns(k + 1, h))?;
        let (a, b) = e.a_b_mut(&gf);
        let mut w: Vec<_> = a.map(|x| at::<C64, _>(&*x)).collect();
        w.push(at::<C64, _>(&*b));
        tiles::<C64>(c, "GlweCiphertextFft::a_b_mut", base, 0, glwef, w, &ns(k + 1, h))?;
    }
    // LWE
    one!(LweCiphertextRef<S>, T<S>, z, m + 1, 0, m, a(&lw));
    one!(LweCiphertextRef<S>, T<S>, z, m + 1, 0, m, a_mut(&lw));
    one!(LweCiphertextRef<S>, T<S>, z, m + 1, m, 1, b(&lw));
    one!(LweCiphertextRef<S>, T<S>, z, m + 1, m, 1, b_mut(&lw));
    {
        let mut v = vec![z; m + 1];
        let e = view_mut!(&mut v[..], LweCiphertextRef<S>);
        let base = e as *const LweCiphertextRef<S> as *const T<S> as usize;
        let (a, b) = e.a_b(&lw);
        let w = vec![at::<T<S>, _>(a), at::<T<S>, _>(b)];
        tiles::<T<S>>(c, "LweCiphertext::a_b", base, 0, m + 1, w, &[m, 1])?;
        let (a, b) = e.a_b_mut(&lw);
        let w = vec![at::<T<S>, _>(&*a), at::<T<S>, _>(&*b)];
        tiles::<T<S>>(c, "LweCiphertext::a_b_mut", base, 0, m + 1, w, &[m, 1])?;
    }
    // lists, gadget ciphertexts and keys
    acc!(LevCiphertextRef<S>, T<S>, z, l * (m + 1), 0, &ns(l, m + 1), lwe_ciphertexts(&lw));
    acc!(LevCiphertextRef<S>, T<S>, z, l * (m + 1), 0, &ns(l, m + 1), lwe_ciphertexts_mut(&lw));
    acc!(GlevCiphertextRef<S>, T<S>, z, glev, 0, &ns(l, glwe), glwe_ciphertexts(&g));
    acc!(GlevCiphertextRef<S>, T<S>, z, glev, 0, &ns(l, glwe), glwe_ciphertexts_mut(&g));
    acc!(GlevCiphertextFftRef<C64>, C64, cz, glevf, 0, &ns(l, glwef), glwe_ciphertexts(&gf));
    acc!(GlevCiphertextFftRef<C64>, C64, cz, glevf, 0, &ns(l, glwef), glwe_ciphertexts_mut(&gf));
    acc!(GgswCiphertextRef<S>, T<S>, z, glev * (k + 1), 0, &ns(k + 1, glev), rows(&g, &r));
    acc!(GgswCiphertextRef<S>, T<S>, z, glev * (k + 1), 0, &ns(k + 1, glev), rows_mut(&g, &r));
    acc!(GgswCiphertextFftRef<C64>, C64, cz, glevf * (k + 1), 0, &ns(k + 1, glevf), rows(&gf, &r));
    acc!(GgswCiphertextFftRef<C64>, C64, cz, glevf * (k + 1), 0, &ns(k + 1, glevf), rows_mut(&gf, &r));
    let (ggsw, ggswf) = (glev * (k + 1), glevf * (k + 1));
    acc!(BootstrapKeyRef<S>, T<S>, z, ggsw * m, 0, &ns(m, ggsw), rows(&g, &r));
    acc!(BootstrapKeyRef<S>, T<S>, z, ggsw * m, 0, &ns(m, ggsw), rows_mut(&g, &r));
    acc!(BootstrapKeyFftRef<C64>, C64, cz, ggswf * m, 0, &ns(m, ggswf), rows(&gf, &r));
    acc!(BootstrapKeyFftRef<C64>, C64, cz, ggswf * m, 0, &ns(m, ggswf), rows_mut(&gf, &r));
    {
        let mut v = vec![z; ggsw * m];
        let e = view_mut!(&mut v[..], BootstrapKeyRef<S>);
        let base = e as *const BootstrapKeyRef<S> as *const T<S> as usize;
        let w: Vec<_> = par(e.rows_par(&g, &r)).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "BootstrapKey::rows_par", base, 0, ggsw * m, w, &ns(m, ggsw))?;
        let w: Vec<_> = par(e.rows_par_mut(&g, &r)).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "BootstrapKey::rows_par_mut", base, 0, ggsw * m, w, &ns(m, ggsw))?;
    }
    acc!(GlweKeyswitchKeyRef<S>, T<S>, z, glev * k, 0, &ns(k, glev), rows(&g, &r));
    acc!(GlweKeyswitchKeyRef<S>, T<S>, z, glev * k, 0, &ns(k, glev), rows_mut(&g, &r));
    acc!(GlweKeyswitchKeyFftRef<C64>, C64, cz, glevf * k, 0, &ns(k, glevf), rows(&gf, &r));
    acc!(GlweKeyswitchKeyFftRef<C64>, C64, cz, glevf * k, 0, &ns(k, glevf), rows_mut(&gf, &r));
    {
        let logn = n.ilog2() as usize;
        acc!(AutomorphismKeyRef<S>, T<S>, z, glev * k * logn, 0, &ns(logn, glev * k), keyswitch_keys(&g, &r));
        acc!(AutomorphismKeyRef<S>, T<S>, z, glev * k * logn, 0, &ns(logn, glev * k), keyswitch_keys_mut(&g, &r));
        let logf = nf.ilog2() as usize;
        acc!(AutomorphismKeyFftRef<C64>, C64, cz, glevf * k * logf, 0, &ns(logf, glevf * k), keyswitch_keys(&gf, &r));
        acc!(AutomorphismKeyFftRef<C64>, C64, cz, glevf * k * logf, 0, &ns(logf, glevf * k), keyswitch_keys_mut(&gf, &r));
    }
    let lev2 = (m2 + 1) * l;
    acc!(LweKeyswitchKeyRef<S>, T<S>, z, lev2 * m, 0, &ns(m, lev2), rows(&lw2, &r));
    acc!(LweKeyswitchKeyRef<S>, T<S>, z, lev2 * m, 0, &ns(m, lev2), rows_mut(&lw2, &r));
    acc!(LweCiphertextListRef<S>, T<S>, z, m2 * (m + 1), 0, &ns(m2, m + 1), ciphertexts(&lw));
    acc!(LweCiphertextListRef<S>, T<S>, z, m2 * (m + 1), 0, &ns(m2, m + 1), ciphertexts_mut(&lw));
    acc!(GlweCiphertextListRef<S>, T<S>, z, m2 * glwe, 0, &ns(m2, glwe), ciphertexts(&g));
    acc!(GlweCiphertextListRef<S>, T<S>, z, m2 * glwe, 0, &ns(m2, glwe), ciphertexts_mut(&g));
    acc!(PolynomialListRef<T<S>>, T<S>, z, m2 * n, 0, &ns(m2, n), iter(PolynomialDegree(n)));
    acc!(PolynomialListRef<T<S>>, T<S>, z, m2 * n, 0, &ns(m2, n), iter_mut(PolynomialDegree(n)));
    // scheme switch keys: k (k + 1) / 2 GLEVs
    let tri = k * (k + 1) / 2;
    acc!(SchemeSwitchKeyRef<S>, T<S>, z, tri * glev, 0, &ns(tri, glev), glev_ciphertexts(&g, &r));
    acc!(SchemeSwitchKeyRef<S>, T<S>, z, tri * glev, 0, &ns(tri, glev), glev_ciphertexts_mut(&g, &r));
    acc!(SchemeSwitchKeyFftRef<C64>, C64, cz, tri * glevf, 0, &ns(tri, glevf), glev_ciphertexts(&gf, &r));
    acc!(SchemeSwitchKeyFftRef<C64>, C64, cz, tri * glevf, 0, &ns(tri, glevf), glev_ciphertexts_mut(&gf, &r));
    let mut o = 0;
    for i in 0..k {
        for j in i..k {
            one!(SchemeSwitchKeyRef<S>, T<S>, z, tri * glev, o * glev, glev, get_glev_at_index(i, j, &g, &r));
            one!(SchemeSwitchKeyRef<S>, T<S>, z, tri * glev, o * glev, glev, get_glev_at_index_mut(i, j, &g, &r));
            one!(SchemeSwitchKeyFftRef<C64>, C64, cz, tri * glevf, o * glevf, glevf, get_glev_at_index(i, j, &gf, &r));
            one!(SchemeSwitchKeyFftRef<C64>, C64, cz, tri * glevf, o * glevf, glevf, get_glev_at_index_mut(i, j, &gf, &r));
            o += 1;
        }
    }
    // secret and public keys
    acc!(GlweSecretKeyRef<S>, S, S::of(0), k * n, 0, &ns(k, n), s(&g));
    {
        let v = vec![S::of(0); k * n];
        let e = view!(&v[..], GlweSecretKeyRef<S>);
        let w: Vec<_> = par(e.s_par(&g)).map(|x| at::<S, _>(x)).collect();
        tiles::<S>(c, "GlweSecretKey::s_par", v.as_ptr() as usize, 0, k * n, w, &ns(k, n))?;
        let w = vec![at::<S, _>(e.to_lwe_secret_key().s())];
        tiles::<S>(c, "GlweSecretKey::to_lwe_secret_key", v.as_ptr() as usize, 0, k * n, w, &[k * n])?;
        let v = vec![z; 2 * n];
        let e = view!(&v[..], RlwePublicKeyRef<S>);
        let g1 = gdef(1, n, 0.0);
        let (a, b) = e.p0_p1(&g1);
        let w = vec![at::<T<S>, _>(a), at::<T<S>, _>(b)];
        tiles::<T<S>>(c, "RlwePublicKey::p0_p1", v.as_ptr() as usize, 0, 2 * n, w, &[n, n])?;
        let v = vec![z; (m + 1) * m2];
        let e = view!(&v[..], LwePublicKeyRef<S>);
        let w: Vec<_> = e.enc_zeros(&lw).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "LwePublicKey::enc_zeros", v.as_ptr() as usize, 0, (m + 1) * m2, w, &ns(m2, m + 1))?;
        // views of polynomials
        let mut v = vec![S::of(3); n];
        let base = v.as_ptr() as usize;
        let e = view_mut!(&mut v[..], PolynomialRef<S>);
        let w = [at::<S, _>(e.as_torus()), at::<S, _>(e.as_wrapping()), at::<S, _>(e.coeffs()), at::<S, _>(&*e.as_wrapping_mut()), at::<S, _>(&*e.coeffs_mut())];
        ck!(c, w.iter().all(|x| *x == span::<S>(base, 0, n)), "polynomial views at {w:x?}");
        ck!(c, e.len() == n && e.degree().0 == n && !e.is_empty(), "polynomial length");
    }
    // functional keyswitch keys
    {
        let rows = m + 1;
        let mut v = vec![z; glev * rows];
        let base = v.as_ptr() as usize;
        let e = view_mut!(&mut v[..], PrivateFunctionalKeyswitchKeyRef<S>);
        let w: Vec<_> = e.glevs(&g, &r).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "PrivateFunctionalKeyswitchKey::glevs", base, 0, glev * rows, w, &ns(rows, glev))?;
        let w: Vec<_> = e.glevs_mut(&g, &r).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "PrivateFunctionalKeyswitchKey::glevs_mut", base, 0, glev * rows, w, &ns(rows, glev))?;
        let w: Vec<_> = par(e.glevs_par(&g, &r)).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "PrivateFunctionalKeyswitchKey::glevs_par", base, 0, glev * rows, w, &ns(rows, glev))?;
        let w: Vec<_> = par(e.glevs_par_mut(&g, &r)).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "PrivateFunctionalKeyswitchKey::glevs_par_mut", base, 0, glev * rows, w, &ns(rows, glev))?;
        let mut v = vec![z; glev * m];
        let base = v.as_ptr() as usize;
        let e = view_mut!(&mut v[..], PublicFunctionalKeyswitchKeyRef<S>);
        let w: Vec<_> = e.glevs(&g, &r).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "PublicFunctionalKeyswitchKey::glevs", base, 0, glev * m, w, &ns(m, glev))?;
        let w: Vec<_> = e.glevs_mut(&g, &r).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "PublicFunctionalKeyswitchKey::glevs_mut", base, 0, glev * m, w, &ns(m, glev))?;
        // k + 1 private keys
        let one = glev * rows;
        let mut v = vec![z; one * (k + 1)];
        let base = v.as_ptr() as usize;
        let e = view_mut!(&mut v[..], CircuitBootstrappingKeyswitchKeysRef<S>);
        let w: Vec<_> = e.keys(&lw, &g, &r).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "CircuitBootstrappingKeyswitchKeys::keys", base, 0, one * (k + 1), w, &ns(k + 1, one))?;
        let w: Vec<_> = e.keys_mut(&lw, &g, &r).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "CircuitBootstrappingKeyswitchKeys::keys_mut", base, 0, one * (k + 1), w, &ns(k + 1, one))?;
        let w: Vec<_> = par(e.keys_par(&lw, &g, &r)).map(|x| at::<T<S>, _>(x)).collect();
        tiles::<T<S>>(c, "CircuitBootstrappingKeyswitchKeys::keys_par", base, 0, one * (k + 1), w, &ns(k + 1, one))?;
        let w: Vec<_> = par(e.keys_par_mut(&lw, &g, &r)).map(|x| at::<T<S>, _>(&*x)).collect();
        tiles::<T<S>>(c, "CircuitBootstrappingKeyswitchKeys::keys_par_mut", base, 0, one * (k + 1), w, &ns(k + 1, one))?;
    }
    // new entities have room for all of their parts, and are zero
    macro_rules! fresh {
        ($r:ty, $e:ty, $z:expr, $len:expr, $new:expr) => {{
            let x = $new;
            let v = raw::<$e, $r>(&*x);
            ck!(c, v.len() == $len, "{} has {} elements, {} expected", stringify!($new), v.len(), $len);
            ck!(c, v.iter().all(|x| *x == $z), "{} is not zero", stringify!($new));
            c.count("entities made", 1);
        }};
    }
    let zero = S::of(0);
    let logn = n.ilog2() as usize;
    fresh!(LweCiphertextRef<S>, S, zero, m + 1, LweCiphertext::<S>::new(&lw));
    fresh!(LweCiphertextListRef<S>, S, zero, (m + 1) * m2, LweCiphertextList::<S>::new(&lw, m2));
    fresh!(LweKeyswitchKeyRef<S>, S, zero, (m2 + 1) * l * m, LweKeyswitchKey::<S>::new(&lw, &lw2, &r));
    fresh!(GlweCiphertextRef<S>, S, zero, glwe, GlweCiphertext::<S>::new(&g));
    fresh!(GlweCiphertextListRef<S>, S, zero, glwe * m2, GlweCiphertextList::<S>::new(&g, m2));
    fresh!(GlevCiphertextRef<S>, S, zero, glev, GlevCiphertext::<S>::new(&g, &r));
    fresh!(GgswCiphertextRef<S>, S, zero, ggsw, GgswCiphertext::<S>::new(&g, &r));
    fresh!(BootstrapKeyRef<S>, S, zero, ggsw * m, BootstrapKey::<S>::new(&lw, &g, &r));
    fresh!(GlweKeyswitchKeyRef<S>, S, zero, glev * k, GlweKeyswitchKey::<S>::new(&g, &r));
    fresh!(AutomorphismKeyRef<S>, S, zero, glev * k * logn, AutomorphismKey::<S>::new(&g, &r));
    fresh!(SchemeSwitchKeyRef<S>, S, zero, glev * tri, SchemeSwitchKey::<S>::new(&g, &r));
    fresh!(BlindRotationShiftRef<S>, S, zero, ggsw * logn, BlindRotationShift::<S>::new(&g, &r));
    fresh!(RlwePublicKeyRef<S>, S, zero, 2 * n, RlwePublicKey::<S>::new(&gdef(1, n, 0.0)));
    fresh!(PublicFunctionalKeyswitchKeyRef<S>, S, zero, glev * m, PublicFunctionalKeyswitchKey::<S>::new(&lw, &g, &r));
    fresh!(PrivateFunctionalKeyswitchKeyRef<S>, S, zero, glev * (m + 1) * m2, PrivateFunctionalKeyswitchKey::<S>::new(&lw, &g, &r, &PrivateFunctionalKeyswitchLweCount(m2)));
    fresh!(CircuitBootstrappingKeyswitchKeysRef<S>, S, zero, glev * (m + 1) * (k + 1), CircuitBootstrappingKeyswitchKeys::<S>::new(&lw, &g, &r));
    fresh!(PolynomialListRef<S>, S, zero, n * m2, PolynomialList::<S>::new(PolynomialDegree(n), m2));
    fresh!(PolynomialRef<S>, S, zero, n, Polynomial::<S>::zero(n));
    let logf = nf.ilog2() as usize;
    fresh!(GlweCiphertextFftRef<C64>, C64, cz, glwef, GlweCiphertextFft::<C64>::new(&gf));
    fresh!(GgswCiphertextFftRef<C64>, C64, cz, ggswf, GgswCiphertextFft::<C64>::new(&gf, &r));
    fresh!(BootstrapKeyFftRef<C64>, C64, cz, ggswf * m, BootstrapKeyFft::<C64>::new(&lw, &gf, &r));
    fresh!(GlweKeyswitchKeyFftRef<C64>, C64, cz, glevf * k, GlweKeyswitchKeyFft::<C64>::new(&gf, &r));
    fresh!(AutomorphismKeyFftRef<C64>, C64, cz, glevf * k * logf, AutomorphismKeyFft::<C64>::new(&gf, &r));
    fresh!(SchemeSwitchKeyFftRef<C64>, C64, cz, glevf * tri, SchemeSwitchKeyFft::<C64>::new(&gf, &r));
    fresh!(BlindRotationShiftFftRef<C64>, C64, cz, ggswf * logf, BlindRotationShiftFft::<C64>::new(&gf, &r));
    Ok(())
}

/// a live temporary: every byte belongs to it alone
trait Live {
    fn span(&self) -> (usize, usize);
    fn check(&mut self, tag: u8) -> bool;
    fn fill(&mut self, tag: u8);
    fn meta(&mut self) -> (usize, usize, usize);
}
impl<T: Pod + 'static> Live for ScratchBuffer<'static, T> {
    fn span(&self) -> (usize, usize) {
        let s = self.as_slice();
        (s.as_ptr() as usize, size_of_val(s))
    }
    fn fill(&mut self, tag: u8) {
        let s = self.as_mut_slice();
        let n = size_of_val(s);
        unsafe { std::slice::from_raw_parts_mut(s.as_mut_ptr() as *mut u8, n) }.fill(tag);
    }
    fn check(&mut self, tag: u8) -> bool {
        let a = { let s = self.as_slice(); unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, size_of_val(s)) }.iter().all(|x| *x == tag) };
        let s = self.as_mut_slice();
        let n = size_of_val(s);
        a && unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, n) }.iter().all(|x| *x == tag)
    }
    fn meta(&mut self) -> (usize, usize, usize) {
        (self.as_slice().len(), self.as_mut_slice().len(), align_of::<T>())
    }
}
fn alloc(kind: usize, n: usize) -> Box<dyn Live> {
    match kind {
        0 => Box::new(allocate_scratch::<u8>(n)),
        1 => Box::new(allocate_scratch::<u16>(n)),
        2 => Box::new(allocate_scratch::<u32>(n)),
        3 => Box::new(allocate_scratch::<Torus<u64>>(n)),
        4 => Box::new(allocate_scratch::<u128>(n)),
        5 => Box::new(allocate_scratch::<f64>(n)),
        6 => Box::new(allocate_scratch::<Torus<u32>>(n)),
        _ => Box::new(allocate_scratch::<C64>(n)),
    }
}
fn temporaries(c: &mut Case) -> Res {
    let mut live: Vec<(Box<dyn Live>, u8, String)> = vec![];
    let steps = 10 + c.rng.usize(if cfg!(miri) { 20 } else { 60 });
    let mut order = vec![];
    let maxlen = if cfg!(miri) { 20 } else { 1 + c.rng.pick(&[3usize, 40, 600]) };
    let mut tag = 0u8;
    let (mut reused, mut peak) = (0u64, 0usize);
    let mut known: Vec<usize> = vec![];
    for _ in 0..steps {
        if live.is_empty() || c.rng.chance(3, 5) {
            let kind = c.rng.usize(8);
            let n = if c.rng.chance(1, 12) { 0 } else { c.rng.usize(maxlen) };
            tag = tag.wrapping_add(1);
            let mut b = alloc(kind, n);
            let (l, lm, al) = b.meta();
            ck!(c, l == n && lm == n, "temporary of {n} elements has {l} / {lm}");
            let (p, bytes) = b.span();
            ck!(c, p % al.max(SIMD_ALIGN) == 0, "temporary at {p:x} is not aligned to {}", al.max(SIMD_ALIGN));
            for (o, _, d) in &live {
                let (q, ob) = o.span();
                ck!(c, bytes == 0 || ob == 0 || p + bytes <= q || q + ob <= p, "temporary [{p:x}, +{bytes}) overlaps a live one [{q:x}, +{ob}): {d}");
            }
            b.fill(tag);
            reused += known.contains(&p) as u64;
            known.push(p);
            live.push((b, tag, format!("kind {kind} n {n}")));
            order.push(((kind as u64) << 32) | n as u64);
        } else {
            // release any of them, not only the last
            let i = if c.rng.bool() { live.len() - 1 } else { c.rng.usize(live.len()) };
            let (mut b, t, d) = live.swap_remove(i);
            ck!(c, b.check(t), "the contents of a live temporary ({d}) changed");
            drop(b);
            order.push(1 << 60 | i as u64);
        }
        peak = peak.max(live.len());
    }
    for (b, t, d) in live.iter_mut() {
        ck!(c, b.check(*t), "the contents of a live temporary ({d}) changed");
    }
    c.count("temporaries reusing memory", reused);
    c.max("temporaries alive at once", peak as f64);
    c.key(hash_words(&order));
    c.describe(format!("{steps} steps, {peak} alive at once"));
    Ok(())
}
fn pairs(c: &mut Case) -> Res {
    let n = c.rng.usize(if cfg!(miri) { 6 } else { 40 });
    let v: Vec<u64> = (0..n).map(|_| c.rng.below(1000)).collect();
    let mut want = vec![];
    for i in 0..n {
        for j in i..n {
            want.push((&v[i], &v[j]));
        }
    }
    let same = |a: &[(&u64, &u64)]| a.len() == want.len() && a.iter().zip(&want).all(|(x, y)| std::ptr::eq(x.0, y.0) && std::ptr::eq(x.1, y.1));
    let got: Vec<_> = v.iter().triangular_pairs().collect();
    ck!(c, same(&got), "triangular pairs of {n}: {} items, {} expected, or other order", got.len(), want.len());
    if !cfg!(miri) {
        let got: Vec<_> = v.par_iter().par_triangular_pairs().collect();
        ck!(c, same(&got), "parallel triangular pairs of {n}: {} items, {} expected, or other order", got.len(), want.len());
    }
    c.key(n as u64);
    c.describe(format!("pairs of {n}"));
    Ok(())
}
/// Every operation of the library on data in exactly sized allocations and fresh temporaries: the
/// sanitizer or interpreter running this program is the monitor; here only that the call returns.
fn operations<S: Word>(c: &mut Case, which: usize) -> Res {
    let small = c.rng.chance(3, 4);
    let inst = gen_op::<S>(&mut c.rng, which, small || cfg!(miri));
    let mut slots = inst.slots.clone();
    let t0 = std::time::Instant::now();
    let run = &inst.run;
    let r = std::thread::scope(|t| t.spawn(|| quiet_catch(|| run(&mut slots))).join());
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("{}: panicked: {e}", inst.desc),
        Err(_) => fail!("{}: thread died", inst.desc),
    }
    for (a, b) in inst.slots.iter().zip(&slots) {
        ck!(c, a.len() == b.len() || a.len() == 0 || a.role == Role::Out, "{}: {} changed its length", inst.desc, a.name);
    }
    if std::env::var("OPTIME").is_ok() { eprintln!("OPT {} {:?}", inst.name, t0.elapsed()); }
    c.count("operations", 1);
    c.key(hash_bytes(inst.desc.as_bytes()));
    c.describe(inst.desc.clone());
    Ok(())
}
fn main() {
    if cfg!(miri) {
        // the interpreter knows neither cpuid nor most vector instructions
        sunscreen_tfhe::verif_hooks::force_scalar(true);
    }
    let mut x = Ctx::new("C04");
    let n = NAMES.len() as u64;
    // the interpreter is slow: several of it run at once, each from another operation on
    let shard: u64 = std::env::var("VERIF_SHARD").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    x.section("operations", n * 40, n * 2000, |c| {
        if cfg!(miri) {
            let w = (c.idx + shard * n / 8) % n;
            // compositions of the others, and slow to interpret
            let long = ["circuit_bootstrap_via_pfks", "circuit_bootstrap_via_trace", "generalized_programmable_bootstrap", "generate_circuit_bootstrapping_pfks_keys", "generate_automorphism_key", "public_functional_keyswitch", "generate_blind_rotation_shift"];
            if c.quick && long.contains(&NAMES[w as usize]) {
                return Ok(());
            }
            return if (w + c.idx / n) % 2 == 0 { operations::<u64>(c, w as usize) } else { operations::<u32>(c, w as usize) };
        }
        let w = (c.idx / 2 % n) as usize;
        either!(c, operations, w)
    });
    x.section("iterators", 260_000, 1_000_000, |c| WALKS[(c.idx + 5 * shard) as usize % 13](c, false));
    x.section("parallel iterators", 5_200, 260_000, |c| WALKS[c.idx as usize % 13](c, true));
    x.section("accessors", 30_000, 300_000, |c| either!(c, accessors));
    x.section("temporaries", 100_000, 1_000_000, temporaries);
    x.section("pairs", 2_000, 100_000, pairs);
    x.finish()
}
fn hash_words(v: &[u64]) -> u64 {
    v.iter().fold(0xcbf29ce484222325, |h, x| (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29))
}
