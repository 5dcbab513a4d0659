//! C17: functional key switching applies its function and packs correctly.
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use vtfhe::*;

fn noise(c: &mut Case, w: u32) -> f64 {
    if c.rng.chance(3, 5) { 0.0 } else { 2f64.powf(-(c.rng.range(w as u64 / 2, w as u64 - 3) as f64) + c.rng.f64()) }
}
fn lim(std: f64, w: u32, terms: usize, r: &RadixDecomposition) -> f64 {
    if std == 0.0 { 0.0 } else { 12.0 * (std * 2f64.powi(w as i32) + 0.5) * (terms as f64 * rl(r) as f64).sqrt() * 2f64.powi(rb(r) as i32 - 1) }
}
/// a linear map from p words to a polynomial of n words: matrix row q gives coefficient q
struct Map {
    rows: Vec<Vec<u64>>,
    kind: u64,
}
impl Map {
    fn gen<S: Word>(r: &mut Rng, n: usize, p: usize) -> Map {
        let kind = r.below(5);
        let rows = (0..n)
            .map(|q| {
                (0..p)
                    .map(|y| match kind {
                        0 => (p <= n && q == y) as u64,                   // pack in order
                        1 => (p <= n && q == (n - 1 - y % n)) as u64,          // pack reversed
                        2 => (q == 0) as u64,                                // sum
                        3 => r.below(5).wrapping_sub(2) & S::MASK,            // small
                        _ => r.u64() & S::MASK,
                    })
                    .collect()
            })
            .collect();
        Map { rows, kind }
    }
    fn apply(&self, x: &[u64], m: u64) -> Vec<u64> {
        self.rows.iter().map(|r| r.iter().zip(x).fold(0u64, |s, (a, b)| s.wrapping_add(a.wrapping_mul(*b))) & m).collect()
    }
    /// as the library wants it; `sparse` leaves zero coefficients untouched
    fn write<S: Word>(&self, p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>], sparse: bool) {
        let v = self.apply(&x.iter().map(|x| x.inner().u()).collect::<Vec<_>>(), S::MASK);
        for (i, (o, y)) in raw_mut::<S, _>(p).iter_mut().zip(v).enumerate() {
            if !sparse || self.rows[i].iter().any(|x| *x != 0) {
                *o = S::of(y);
            }
        }
    }
}
fn public<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let hi = if c.rng.chance(1, 20) { 10 } else { 7 };
    let g0 = gen_glwe(&mut c.rng, 4, hi, 3);
    let (k, n) = (gk(&g0), gn(&g0));
    let std = noise(c, w);
    let g = gdef(k, n, std);
    let a = c.rng.range(1, 12) as usize;
    let from = ldef(a, 0.3);
    let r = gen_radix(&mut c.rng, w, 22, 6);
    let p = if c.rng.chance(1, 6) { n } else { c.rng.range(1, n as u64) as usize };
    let kb = c.rng.pick(&[0, 2, 3]);
    let ka = c.rng.below(4) as u32;
    let (sa, ea) = lwe_sk::<S>(&mut c.rng, a, ka);
    let (sb, eb) = glwe_sk::<S>(&mut c.rng, k * n, kb);
    let mut key = PublicFunctionalKeyswitchKey::<S>::new(&from, &g, &r);
    if std == 0.0 {
        let mut v = vec![];
        for s in &sa {
            let mut t = vec![0; n];
            t[0] = *s;
            v.extend(glev_make(&mut c.rng, &t, &sb, rl(&r), rb(&r), w));
        }
        key = tent!(S, &v, PublicFunctionalKeyswitchKeyRef<S>);
    } else {
        generate_public_functional_keyswitch_key(&mut key, &ea, &eb, &from, &g, &r);
    }
    let map = Map::gen::<S>(&mut c.rng, n, p);
    let sparse = c.rng.bool();
    let ins: Vec<Vec<u64>> = (0..p).map(|_| junk::<S>(&mut c.rng, a + 1)).collect();
    let cts: Vec<_> = ins.iter().map(|x| tent!(S, x, LweCiphertextRef<S>)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
    poison_scratch(&mut c.rng, n);
    let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    public_functional_keyswitch(&mut o, &refs, &key, |q, x| map.write::<S>(q, x, sparse), &from, &g, &r);
    let mut want = map.apply(&ins.iter().map(|x| x[a]).collect::<Vec<_>>(), m);
    for i in 0..a {
        let f = map.apply(&ins.iter().map(|x| x[i]).collect::<Vec<_>>(), m);
        want = subv(&want, &scalev(&round_to(&f, rl(&r), rb(&r), w), sa[i], m), m);
    }
    let at = format!("{w} bit public functional keyswitch of {p} inputs, lwe {a} -> k={k} n={n} radix {}x{} map {} noise {std:e}", rl(&r), rb(&r), map.kind);
    let tol = fft_tol(w, n, a * rl(&r), digit_norm(n, rb(&r)), norm2(&sb, w)) + lim(std, w, a * n, &r);
    close(c, &glwe_phase(&rawu::<S, _>(&*o), &sb, n, m), &want, tol, w, &|| at.clone())?;
    c.count(&format!("map-{}", map.kind), 1);
    c.key(hash_u64s(&[a as u64, k as u64, n as u64, p as u64, map.kind, rl(&r) as u64, want[0]]));
    c.describe(at);
    Ok(())
}
fn private<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let g0 = gen_glwe(&mut c.rng, 0, 6, 3);
    let (k, n) = (gk(&g0), gn(&g0));
    let std = noise(c, w);
    let g = gdef(k, n, std);
    let a = c.rng.range(1, 12) as usize;
    let from = ldef(a, 0.3);
    // digits are used as "small" scalars
    let r = gen_radix(&mut c.rng, w, 30, 6);
    let z = c.rng.range(1, 4) as usize;
    let (ka, kb) = (c.rng.below(4) as u32, c.rng.below(4) as u32);
    let (sa, ea) = lwe_sk::<S>(&mut c.rng, a, ka);
    let (sb, eb) = glwe_sk::<S>(&mut c.rng, k * n, kb);
    let map = Map::gen::<S>(&mut c.rng, n, z);
    let cnt = PrivateFunctionalKeyswitchLweCount(z);
    let mut key = PrivateFunctionalKeyswitchKey::<S>::new(&from, &g, &r, &cnt);
    let col = |y: usize| map.rows.iter().map(|r| r[y]).collect::<Vec<_>>();
    if std == 0.0 && c.rng.bool() {
        let mut v = vec![];
        for y in 0..z {
            for s in sa.iter().chain(&[m]) {
                v.extend(glev_make(&mut c.rng, &scalev(&col(y), *s, m), &sb, rl(&r), rb(&r), w));
            }
        }
        key = tent!(S, &v, PrivateFunctionalKeyswitchKeyRef<S>);
    } else {
        generate_private_functional_keyswitch_key(&mut key, &ea, &eb, |q: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| map.write::<S>(q, x, false), &from, &g, &r, &cnt);
    }
    let ins: Vec<Vec<u64>> = (0..z).map(|_| junk::<S>(&mut c.rng, a + 1)).collect();
    let cts: Vec<_> = ins.iter().map(|x| tent!(S, x, LweCiphertextRef<S>)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = cts.iter().map(|x| &**x).collect();
    poison_scratch(&mut c.rng, n);
    let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    private_functional_keyswitch(&mut o, &refs, &key, &from, &g, &r, &cnt);
    let mut want = vec![0; n];
    for y in 0..z {
        let ph = lwe_phase(&round_to(&ins[y], rl(&r), rb(&r), w), &sa, m);
        want = addv(&want, &scalev(&col(y), ph, m), m);
    }
    let at = format!("{w} bit private functional keyswitch of {z} inputs, lwe {a} -> k={k} n={n} radix {}x{} map {} noise {std:e}", rl(&r), rb(&r), map.kind);
    let tol = lim(std, w, z * (a + 1), &r);
    close(c, &glwe_phase(&rawu::<S, _>(&*o), &sb, n, m), &want, tol, w, &|| at.clone())?;
    c.key(hash_u64s(&[a as u64, k as u64, n as u64, z as u64, map.kind, rl(&r) as u64, want[0]]));
    c.describe(at);
    Ok(())
}
/// the keys used by circuit bootstrapping: products with the negated key, and the identity
fn cbs<S: Word>(c: &mut Case) -> Res {
    let (w, m) = (S::W, S::MASK);
    let g0 = gen_glwe(&mut c.rng, 0, 6, 3);
    let (k, n) = (gk(&g0), gn(&g0));
    let std = noise(c, w);
    let g = gdef(k, n, std);
    let a = c.rng.range(1, 12) as usize;
    let from = ldef(a, 0.3);
    let r = gen_radix(&mut c.rng, w, 30, 6);
    let (sa, ea) = lwe_sk::<S>(&mut c.rng, a, 0);
    let (sb, eb) = glwe_sk::<S>(&mut c.rng, k * n, 0);
    let mut key = CircuitBootstrappingKeyswitchKeys::<S>::new(&from, &g, &r);
    generate_circuit_bootstrapping_pfks_keys(&mut key, &ea, &eb, &from, &g, &r);
    let x = junk::<S>(&mut c.rng, a + 1);
    let ex = tent!(S, &x, LweCiphertextRef<S>);
    let ph = lwe_phase(&round_to(&x, rl(&r), rb(&r), w), &sa, m);
    let mut rows = 0;
    for (y, kk) in key.keys(&from, &g, &r).enumerate() {
        let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
        poison_scratch(&mut c.rng, n);
        private_functional_keyswitch(&mut o, &[&*ex], kk, &from, &g, &r, &PrivateFunctionalKeyswitchLweCount(1));
        let want = if y < k {
            negv(&scalev(&sb[y * n..(y + 1) * n], ph, m), m)
        } else {
            let mut t = vec![0; n];
            t[0] = ph;
            t
        };
        close(c, &glwe_phase(&rawu::<S, _>(&*o), &sb, n, m), &want, lim(std, w, a + 1, &r), w, &|| format!("{w} bit circuit bootstrapping keyswitch {y} of {k}+1, lwe {a} -> k={k} n={n} radix {}x{} noise {std:e}", rl(&r), rb(&r)))?;
        rows += 1;
    }
    ck_eq!(c, rows, k + 1, "number of circuit bootstrapping keyswitch keys");
    c.key(hash_u64s(&[a as u64, k as u64, n as u64, x[0]]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C17");
    x.section("public", 4800, 400000, |c| either!(c, public));
    x.section("private", 12000, 1000000, |c| either!(c, private));
    x.section("circuit-bootstrapping-keys", 3600, 240000, |c| either!(c, cbs));
    x.finish()
}
