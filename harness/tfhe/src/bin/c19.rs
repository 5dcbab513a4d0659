//! C19: programmable bootstrapping and blind rotation.
use sunscreen_tfhe::high_level;
use sunscreen_tfhe::ops::bootstrapping as bs;
use sunscreen_tfhe::ops::ciphertext::lwe_ciphertext_modulus_switch;
use vtfhe::*;

/// the `lm` bits below the `chi` highest, rounded to a multiple of 2^v (halves up)
fn switched(x: u64, chi: u32, v: u32, lm: u32, w: u32) -> u64 {
    let y = ((x as u128) << chi) & wmask(w) as u128;
    let keep = lm - v;
    let sh = w - keep;
    let t = if sh == 0 { y } else { (y + (1u128 << (sh - 1))) >> sh };
    ((t as u64) << v) & wmask(lm)
}
fn modulus_switch<S: Word>(c: &mut Case) -> Res {
    let w = S::W;
    let lm = c.rng.range(1, 17) as u32;
    let v = c.rng.range(0, 4.min(lm as u64 - 1)) as u32;
    let chi = if c.rng.bool() { 0 } else { c.rng.range(0, 8) as u32 };
    let l = gen_lwe(&mut c.rng, 20);
    let x: Vec<u64> = words::<S>(&mut c.rng, l.dim.0 + 1)
        .into_iter()
        .map(|x| {
            // often right at, just below or just above a rounding boundary
            if c.rng.bool() {
                let sh = w - (lm - v);
                (c.rng.u64() << sh.min(63)).wrapping_add(1u64 << (sh.max(1) - 1)).wrapping_add(c.rng.irange(-1, 1) as u64).wrapping_shr(chi) & S::MASK
            } else {
                x.u()
            }
        })
        .collect();
    let mut e = tent!(S, &x, LweCiphertextRef<S>);
    lwe_ciphertext_modulus_switch(&mut e, chi, v, lm, &l);
    let want: Vec<u64> = x.iter().map(|x| switched(*x, chi, v, lm, w)).collect();
    // an index is a residue: a full turn may be left in it
    let got: Vec<u64> = rawu::<S, _>(&*e).iter().map(|x| x & wmask(lm)).collect();
    ck_eq!(c, got, want, "{w} bit words switched to {lm} bits, {chi} top bits dropped, {v} low bits cleared, from {x:x?}");
    c.key(hash_u64s(&[lm as u64, v as u64, chi as u64, x[0]]));
    Ok(())
}
fn table(r: &mut Rng, p: u64) -> Vec<u64> {
    match r.below(5) {
        0 => (0..p).collect(),
        1 => (0..p).map(|x| p - 1 - x).collect(),
        2 => vec![p - 1; p as usize],
        _ => (0..p).map(|_| r.below(p)).collect(),
    }
}
/// the negacyclic table of the definition: entry i belongs to the phase i / 2N
fn lut_phase(maps: &[Vec<u64>], ceil_v: usize, n: usize, bits: u32, w: u32) -> Vec<u64> {
    let m = wmask(w);
    let p = 1usize << bits;
    let stride = n / p;
    (0..n)
        .map(|i| {
            let (j, f) = ((i + stride / 2) / stride, (i + stride / 2) % stride % ceil_v);
            let x = if f < maps.len() { maps[f][j % p] << (w - bits) } else { 0 };
            if j == p { x.wrapping_neg() & m } else { x }
        })
        .collect()
}
fn trivial_phase<S: Word>(t: &UnivariateLookupTableRef<S>, g: &GlweDef) -> Vec<u64> {
    rawu::<S, _>(t.glwe())[gk(g) * gn(g)..].to_vec()
}
fn tables<S: Word>(c: &mut Case) -> Res {
    let w = S::W;
    let g = gen_glwe(&mut c.rng, 1, 11, 3);
    let (k, n) = (gk(&g), gn(&g));
    let logn = n.ilog2();
    let bits = c.rng.range(1, logn.min(8) as u64) as u32;
    let maxv = (n >> bits) / 2;
    let nv = if maxv < 2 || c.rng.bool() { 1 } else { c.rng.range(2, (2 * maxv).min(9) as u64) as usize };
    let ceil_v = nv.next_power_of_two();
    if ceil_v > 1 && ceil_v > maxv {
        // no room for all functions around every message: refused
        let r = quiet_catch(|| UnivariateLookupTable::<S>::trivivial_multifunctional(&vec![|x: u64| x; nv], &g, PlaintextBits(bits)));
        ck!(c, r.is_err(), "a table of {nv} functions of {bits} bits was made for n={n}, which has no room for it");
        return Ok(());
    }
    let maps: Vec<Vec<u64>> = (0..nv).map(|_| table(&mut c.rng, 1 << bits)).collect();
    let fs: Vec<_> = maps.iter().map(|t| |x: u64| t[x as usize]).collect();
    poison_scratch(&mut c.rng, n);
    let want = lut_phase(&maps, ceil_v, n, bits, w);
    let at = format!("{w} bit table of {nv} functions, k={k} n={n}, {bits} bits");
    let t = if nv == 1 {
        UnivariateLookupTable::<S>::trivial_from_fn(fs[0], &g, PlaintextBits(bits))
    } else {
        UnivariateLookupTable::<S>::trivivial_multifunctional(&fs, &g, PlaintextBits(bits))
    };
    let (a, b) = (rawu::<S, _>(t.glwe()), trivial_phase(&t, &g));
    ck!(c, a[..k * n].iter().all(|x| *x == 0), "masks of a {at}");
    ck_eq!(c, b, want, "{at}");
    // into an used table
    let mut t2 = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), UnivariateLookupTableRef<S>);
    t2.fill_trivial_from_fns(&fs, &g, PlaintextBits(bits));
    ck_eq!(c, rawu::<S, _>(&*t2), a, "filled {at}");
    ck_eq!(c, rawu::<S, _>(t2.glwe_mut()), a, "mutable view of {at}");
    // constants
    let v = c.rng.below(1 << bits);
    let mut want = vec![0; k * n];
    want.extend(vec![v << (w - bits); n]);
    t2.fill_with_constant(S::of(v), &g, PlaintextBits(bits));
    ck_eq!(c, rawu::<S, _>(&*t2), want, "constant table {v}, k={k} n={n} {bits} bits");
    let mut t3 = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), BivariateLookupTableRef<S>);
    t3.fill_with_constant(S::of(v), &g, PlaintextBits(bits));
    ck_eq!(c, rawu::<S, _>(t3.glwe()), want, "constant bivariate table {v}, k={k} n={n} {bits} bits");
    // two inputs
    if logn >= 2 {
        let pb = c.rng.range(1, (logn as u64 / 2).min(4)) as u32;
        let cb = c.rng.range(pb as u64, logn as u64 - pb as u64) as u32;
        let p = 1u64 << pb;
        let t: Vec<u64> = (0..p * p).map(|_| c.rng.below(p)).collect();
        let f = |l: u64, r: u64| t[(l * p + r) as usize];
        let b = BivariateLookupTable::<S>::trivial_from_fn(f, &g, PlaintextBits(pb), CarryBits(cb));
        let uni: Vec<u64> = (0..1u64 << (pb + cb)).map(|x| t[((x >> pb) % p * p + x % p) as usize]).collect();
        let want = lut_phase(&[uni], 1, n, pb + cb, w);
        let at = format!("{w} bit table of two inputs, k={k} n={n}, {pb} bits, {cb} carry bits");
        ck_eq!(c, trivial_phase(b.as_univariate(), &g), want, "{at}");
        t3.fill_trivial_from_fn(f, &g, PlaintextBits(pb), CarryBits(cb));
        ck_eq!(c, rawu::<S, _>(t3.glwe_mut()), rawu::<S, _>(b.glwe()), "filled {at}");
    }
    c.key(hash_u64s(&[n as u64, bits as u64, nv as u64, maps[0].iter().fold(7, |a: u64, x| a.wrapping_mul(31).wrapping_add(*x))]));
    Ok(())
}
fn rotations<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    let g = gen_glwe(&mut c.rng, 0, 8, 4);
    let (k, n) = (gk(&g), gn(&g));
    let x = junk::<S>(&mut c.rng, (k + 1) * n);
    let e = tent!(S, &x, GlweCiphertextRef<S>);
    let r = match c.rng.below(4) {
        0 => c.rng.pick(&[0, 1, n as i64 - 1, n as i64, n as i64 + 1, 2 * n as i64 - 1, 2 * n as i64, 3 * n as i64]),
        1 => c.rng.range(0, 1 << 40) as i64,
        _ => c.rng.range(0, 2 * n as u64) as i64,
    };
    let want = |r: i64| -> Vec<u64> { x.chunks(n).flat_map(|p| monomial(p, r, m)).collect() };
    let mut o = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    bs::rotate_glwe_positive_monomial_negacyclic(&mut o, &e, r as usize, &g);
    ck_eq!(c, rawu::<S, _>(&*o), want(r), "rotation by {r}, k={k} n={n}");
    bs::rotate_glwe_negative_monomial_negacyclic(&mut o, &e, r as usize, &g);
    ck_eq!(c, rawu::<S, _>(&*o), want(-r), "rotation by -{r}, k={k} n={n}");
    let r = if c.rng.bool() { -r } else { r };
    bs::rotate_glwe_monomial_negacyclic(&mut o, &e, r as isize, &g);
    ck_eq!(c, rawu::<S, _>(&*o), want(r), "signed rotation by {r}, k={k} n={n}");
    c.key(hash_u64s(&[k as u64, n as u64, r as u64, x[0]]));
    Ok(())
}
struct Params {
    g: GlweDef,
    r: RadixDecomposition,
    sv: Vec<u64>,
    sk: GlweSecretKey<u64>,
    at: String,
}
/// decompositions precise enough for the products to be compared with the exact rotation
fn glwe_params(c: &mut Case, lo: u32, hi: u32) -> Params {
    let g = gen_glwe(&mut c.rng, lo, hi, 3);
    let small = [(2, 16), (3, 12), (4, 8), (2, 14), (1, 24), (5, 7), (8, 5), (12, 3), (20, 2), (30, 1)];
    let r = if hi > 9 { c.rng.pick(&small[..4]) } else { c.rng.pick(&small) };
    let r = rdef(r.0, r.1);
    let kind = c.rng.pick(&[0, 0, 0, 2, 3]);
    let (sv, sk) = glwe_sk::<u64>(&mut c.rng, gk(&g) * gn(&g), kind);
    let at = format!("k={} n={} radix {}x{} key kind {kind}", gk(&g), gn(&g), rl(&r), rb(&r));
    Params { g, r, sv, sk, at }
}
/// worst error after a chain of `steps` selections with exact selectors
fn chain_tol(p: &Params, steps: usize) -> f64 {
    let (k, n, w) = (gk(&p.g), gn(&p.g), 64);
    let unit = 2f64.powi(w - (rl(&p.r) * rb(&p.r)) as i32);
    let s2 = norm2(&p.sv, 64);
    let one = fft_tol(64, n, (k + 1) * rl(&p.r), digit_norm(n, rb(&p.r)), s2);
    let st = steps as f64;
    st * (unit / 2.0 + one) + 12.0 * unit / 12f64.sqrt() * (st * s2).sqrt()
}
fn ggsw_exact(r: &mut Rng, bit: u64, p: &Params) -> GgswCiphertext<u64> {
    let mut t = vec![0; gn(&p.g)];
    t[0] = bit;
    tent!(u64, &ggsw_make(r, &t, &p.sv, rl(&p.r), rb(&p.r), 64), GgswCiphertextRef<u64>)
}
fn blind(c: &mut Case) -> Res {
    let p = glwe_params(c, 4, 7);
    let (k, n, m) = (gk(&p.g), gn(&p.g), u64::MAX);
    let x = junk::<u64>(&mut c.rng, (k + 1) * n);
    let e = tent!(u64, &x, GlweCiphertextRef<u64>);
    let rot = c.rng.below(n as u64) as usize;
    let mut key = BlindRotationShiftFft::<C64>::new(&p.g, &p.r);
    fill_c64::<BlindRotationShiftFftRef<C64>>(&mut c.rng, &mut key);
    let logn = n.ilog2() as usize;
    ck_eq!(c, key.rows(&p.g, &p.r).count(), logn, "selectors of a blind rotation with n={n}");
    if c.rng.bool() {
        bs::generate_blind_rotation_shift(&mut key, rot, &p.sk, &p.g, &p.r, PlaintextBits(1));
    } else {
        for (i, o) in key.rows_mut(&p.g, &p.r).enumerate() {
            ggsw_exact(&mut c.rng, (rot as u64 >> i) & 1, &p).fft(o, &p.g, &p.r);
        }
    }
    let mut o = tent!(u64, &junk::<u64>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<u64>);
    poison_scratch(&mut c.rng, n);
    bs::blind_rotation(&mut o, &key, &e, &p.g, &p.r);
    let want = monomial(&glwe_phase(&x, &p.sv, n, m), -(rot as i64), m);
    close(c, &glwe_phase(&rawu::<u64, _>(&*o), &p.sv, n, m), &want, chain_tol(&p, logn), 64, &|| format!("blind rotation by {rot}, {}", p.at))?;
    c.key(hash_u64s(&[k as u64, n as u64, rot as u64, x[0]]));
    c.describe(p.at);
    Ok(())
}
/// exact keys: the accumulator is rotated by exactly the switched phase, for any table and input
fn exact(c: &mut Case, lo: u32, hi: u32, nmax: usize) -> Res {
    let p = glwe_params(c, lo, hi);
    let (k, n, m) = (gk(&p.g), gn(&p.g), u64::MAX);
    let l = gen_lwe(&mut c.rng, nmax);
    let dim = l.dim.0;
    let lkind = c.rng.pick(&[0, 0, 0, 3]);
    let (lv, lk) = lwe_sk::<u64>(&mut c.rng, dim, lkind);
    let mut bsk = BootstrapKey::<u64>::new(&l, &p.g, &p.r);
    if hi > 9 || c.rng.bool() {
        bs::generate_bootstrap_key(&mut bsk, &lk, &p.sk, &l, &p.g, &p.r);
    } else {
        for (b, o) in lv.iter().zip(bsk.rows_mut(&p.g, &p.r)) {
            let x = ggsw_exact(&mut c.rng, *b, &p);
            raw_mut::<u64, _>(o).copy_from_slice(raw::<u64, GgswCiphertextRef<u64>>(&x));
        }
    }
    let mut bf = BootstrapKeyFft::<C64>::new(&l, &p.g, &p.r);
    fill_c64::<BootstrapKeyFftRef<C64>>(&mut c.rng, &mut bf);
    bsk.fft(&mut bf, &l, &p.g, &p.r);
    let tol = chain_tol(&p, dim);
    let size = (k + 1) * n;
    let logn = n.ilog2();
    let at = format!("{} lwe dimension {dim} key kind {lkind}", p.at);
    c.describe(at.clone());
    for _ in 0..4 {
        // any table, also encrypted ones
        let x = if c.rng.bool() { junk::<u64>(&mut c.rng, size) } else { glwe_make(&mut c.rng, &vec![1 << 63; n], &p.sv, m) };
        let lut = tent!(u64, &x, UnivariateLookupTableRef<u64>);
        let chi = if c.rng.bool() { 0 } else { c.rng.range(0, 4) as u32 };
        let v = if c.rng.bool() { 0 } else { c.rng.range(0, logn as u64 - 1) as u32 };
        // phases at and around the switch points, at both ends of the torus, or anywhere
        let step = 1u64 << (63 - logn);
        let phase = match c.rng.below(4) {
            0 => c.rng.pick(&[0, 1, u64::MAX, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, step / 2, step / 2 - 1, u64::MAX - step / 2, u64::MAX - step / 2 + 1]),
            1 => c.rng.below(2 * n as u64).wrapping_mul(step).wrapping_add(c.rng.irange(-2, 2) as u64),
            2 => c.rng.below(2 * n as u64).wrapping_mul(step).wrapping_add(step / 2).wrapping_add(c.rng.irange(-2, 2) as u64),
            _ => c.rng.u64(),
        };
        let masks = c.rng.below(4);
        let ct = match masks {
            0 => {
                // trivial: the rounding is that of the phase itself
                let mut x = vec![0; dim];
                x.push(phase);
                x
            }
            1 => {
                let mut x: Vec<u64> = (0..dim).map(|_| c.rng.edge(64)).collect();
                x.push(phase);
                x
            }
            _ => lwe_make(&mut c.rng, phase, &lv, m),
        };
        let two_n = 2 * n as i64;
        let b = switched(ct[dim], chi, v, logn + 1, 64) as i64;
        let a: i64 = ct[..dim].iter().zip(&lv).map(|(a, s)| switched(*a, chi, v, logn + 1, 64) as i64 * *s as i64).sum();
        let index = (b - a).rem_euclid(two_n);
        if masks == 0 {
            ck_eq!(c, index as u64, switched(phase, chi, v, logn + 1, 64), "index of a trivial input");
        }
        let e = tent!(u64, &ct, LweCiphertextRef<u64>);
        let mut o = tent!(u64, &junk::<u64>(&mut c.rng, size), GlweCiphertextRef<u64>);
        poison_scratch(&mut c.rng, n);
        bs::generalized_programmable_bootstrap(&mut o, &e, &lut, &bf, chi, v, &l, &p.g, &p.r);
        let want = monomial(&glwe_phase(&x, &p.sv, n, m), -index, m);
        let d = format!("phase {phase:#x} index {index} log_chi {chi} log_v {v}, {at}");
        close(c, &glwe_phase(&rawu::<u64, _>(&*o), &p.sv, n, m), &want, tol, 64, &|| format!("accumulator for {d}"))?;
        ck_eq!(c, (rawu::<u64, _>(&*e), rawu::<u64, _>(&*lut)), (ct, x.clone()), "input and table after bootstrapping, {d}");
        if chi == 0 && v == 0 {
            let mut o = tent!(u64, &junk::<u64>(&mut c.rng, k * n + 1), LweCiphertextRef<u64>);
            poison_scratch(&mut c.rng, n);
            bs::programmable_bootstrap_univariate(&mut o, &e, &lut, &bf, &l, &p.g, &p.r);
            close(c, &[lwe_phase(&rawu::<u64, _>(&*o), &p.sv, m)], &want[..1], tol, 64, &|| format!("bootstrapped {d}"))?;
            if c.rng.bool() {
                let o = high_level::evaluation::univariate_programmable_bootstrap(&e, &lut, &bf, &l, &p.g, &p.r);
                close(c, &[lwe_phase(&rawu::<u64, _>(&*o), &p.sv, m)], &want[..1], tol, 64, &|| format!("high level bootstrap of {d}"))?;
            }
        }
        c.key(hash_u64s(&[k as u64, n as u64, dim as u64, chi as u64, v as u64, phase]));
    }
    Ok(())
}
/// messages: every message of the space, disturbed up to half a step, through tables of every kind
fn messages(c: &mut Case, lo: u32, hi: u32, nmax: usize) -> Res {
    let p = glwe_params(c, lo, hi);
    let (k, n, m) = (gk(&p.g), gn(&p.g), u64::MAX);
    let logn = n.ilog2();
    let l = gen_lwe(&mut c.rng, nmax);
    let dim = l.dim.0;
    let (lv, lk) = lwe_sk::<u64>(&mut c.rng, dim, 0);
    let mut bsk = BootstrapKey::<u64>::new(&l, &p.g, &p.r);
    bs::generate_bootstrap_key(&mut bsk, &lk, &p.sk, &l, &p.g, &p.r);
    let bf = high_level::fft::fft_bootstrap_key(&bsk, &l, &p.g, &p.r);
    let tol = chain_tol(&p, dim);
    let size = (k + 1) * n;
    // rounding of the mask words moves the index by at most (dim+1)/2 steps of 2N
    let drift = |v: u32| (dim as u64 + 1).div_ceil(2) << v;
    let make = |r: &mut Rng, msg: u64, shift: u32, slack: u64| {
        // slack in index steps on both sides
        let lim = slack.saturating_mul(1 << (63 - logn)) as i64;
        let e = match r.below(4) {
            _ if lim == 0 => 0,
            0 => lim - 1,
            1 => -(lim - 1),
            _ => r.irange(-(lim - 1), lim - 1),
        };
        let ph = (msg << shift).wrapping_add(e as u64);
        if r.chance(1, 6) {
            let mut x = vec![0; dim];
            x.push(ph);
            x
        } else {
            lwe_make(r, ph, &lv, m)
        }
    };
    let kind = c.rng.below(3);
    let out = |o: &LweCiphertextRef<u64>| lwe_phase(&rawu::<u64, _>(o), &p.sv, m);
    let mut at = p.at.clone();
    at += &format!(" lwe dimension {dim}");
    if kind < 2 {
        let nv = if kind == 0 { 1 } else { c.rng.range(2, 5) as usize };
        let ceil_v = nv.next_power_of_two();
        let logv = ceil_v.ilog2();
        let half = |bits: u32| (n as u64 >> bits) / 2;
        // half a stride must leave room for the drift of the index
        let Some(maxbits) = (1..=logn.min(5)).rev().find(|b| half(*b) > drift(logv) && half(*b) >= ceil_v as u64) else { return Ok(()) };
        let bits = c.rng.range(1, maxbits as u64) as u32;
        at += &format!(" {nv} functions of {bits} bits");
        let maps: Vec<Vec<u64>> = (0..nv).map(|_| table(&mut c.rng, 1 << bits)).collect();
        let fs: Vec<_> = maps.iter().map(|t| |x: u64| t[x as usize]).collect();
        let lut = if nv == 1 {
            UnivariateLookupTable::<u64>::trivial_from_fn(fs[0], &p.g, PlaintextBits(bits))
        } else {
            UnivariateLookupTable::<u64>::trivivial_multifunctional(&fs, &p.g, PlaintextBits(bits))
        };
        let slack = half(bits) - drift(logv);
        for msg in 0..2u64 << bits {
            let ct = make(&mut c.rng, msg, 63 - bits, slack);
            let e = tent!(u64, &ct, LweCiphertextRef<u64>);
            let neg = msg >> bits == 1;
            let want = |f: usize| {
                let x = maps[f][(msg as usize) & ((1 << bits) - 1)] << (64 - bits);
                if neg { x.wrapping_neg() } else { x }
            };
            poison_scratch(&mut c.rng, n);
            if nv == 1 {
                let mut o = tent!(u64, &junk::<u64>(&mut c.rng, k * n + 1), LweCiphertextRef<u64>);
                bs::programmable_bootstrap_univariate(&mut o, &e, &lut, &bf, &l, &p.g, &p.r);
                close(c, &[out(&o)], &[want(0)], tol, 64, &|| format!("message {msg} through table {:?}, {at}", maps[0]))?;
                if !neg && tol < 2f64.powi(63 - bits as i32) {
                    let d = o.phase_decode(&lk_of(&p), &p.g, bits);
                    ck_eq!(c, d, maps[0][msg as usize], "decrypted table entry of message {msg}, {at}");
                }
            } else {
                let mut o = tent!(u64, &junk::<u64>(&mut c.rng, size), GlweCiphertextRef<u64>);
                bs::generalized_programmable_bootstrap(&mut o, &e, &lut, &bf, 0, logv, &l, &p.g, &p.r);
                for f in 0..nv {
                    let x = o.sample(f, &p.g);
                    close(c, &[out(&x)], &[want(f)], tol, 64, &|| format!("message {msg} through function {f} of {nv}, {at}"))?;
                }
            }
            c.key(hash_u64s(&[n as u64, dim as u64, bits as u64, nv as u64, msg, ct[dim]]));
        }
    } else {
        let Some(tot) = (2..=logn.min(6)).rev().find(|b| (n as u64 >> b) / 2 > drift(0)) else { return Ok(()) };
        let pb = c.rng.range(1, tot as u64 / 2) as u32;
        let cb = c.rng.range(pb as u64, tot as u64 - pb as u64) as u32;
        let pm = 1u64 << pb;
        at += &format!(" bivariate {pb}+{cb} bits");
        let t: Vec<u64> = (0..pm * pm).map(|_| c.rng.below(pm)).collect();
        let lut = BivariateLookupTable::<u64>::trivial_from_fn(|l, r| t[(l * pm + r) as usize], &p.g, PlaintextBits(pb), CarryBits(cb));
        let slack = (n as u64 >> (pb + cb)) / 2 - drift(0);
        for x in 0..pm {
            for y in 0..pm {
                // the left noise is multiplied by the message modulus
                let sl = if slack > pm { slack / 2 / pm } else { 0 };
                let a = make(&mut c.rng, x, 63 - pb - cb, sl);
                let b = make(&mut c.rng, y, 63 - pb - cb, if sl == 0 { slack } else { slack / 2 });
                let mut o = tent!(u64, &junk::<u64>(&mut c.rng, k * n + 1), LweCiphertextRef<u64>);
                poison_scratch(&mut c.rng, n);
                let (ea, eb) = (tent!(u64, &a, LweCiphertextRef<u64>), tent!(u64, &b, LweCiphertextRef<u64>));
                bs::programmable_bootstrap_bivariate(&mut o, &ea, &eb, &lut, &bf, &l, &p.g, PlaintextBits(pb), &p.r);
                close(c, &[out(&o)], &[t[(x * pm + y) as usize] << (64 - pb - cb)], tol, 64, &|| format!("inputs {x} and {y}, {at}"))?;
                ck_eq!(c, (rawu::<u64, _>(&*ea), rawu::<u64, _>(&*eb)), (a.clone(), b.clone()), "inputs after a bivariate bootstrap, {at}");
                c.key(hash_u64s(&[n as u64, dim as u64, pb as u64, cb as u64, x, y, a[dim]]));
            }
        }
    }
    c.describe(at);
    Ok(())
}
trait PhaseDecode {
    fn phase_decode(&self, sk: &LweSecretKeyRef<u64>, g: &GlweDef, bits: u32) -> u64;
}
impl PhaseDecode for LweCiphertextRef<u64> {
    fn phase_decode(&self, sk: &LweSecretKeyRef<u64>, g: &GlweDef, bits: u32) -> u64 {
        high_level::encryption::decrypt_lwe(self, sk, &g.as_lwe_def(), PlaintextBits(bits))
    }
}
fn lk_of(p: &Params) -> LweSecretKey<u64> {
    pent!(u64, &p.sv, LweSecretKeyRef<u64>)
}
trait Sample {
    fn sample(&self, i: usize, g: &GlweDef) -> LweCiphertext<u64>;
}
impl Sample for GlweCiphertextRef<u64> {
    fn sample(&self, i: usize, g: &GlweDef) -> LweCiphertext<u64> {
        let mut o = LweCiphertext::<u64>::new(&g.as_lwe_def());
        sunscreen_tfhe::ops::ciphertext::sample_extract(&mut o, self, i, g);
        o
    }
}
/// the recommended parameters, with their noise, over the whole message space
fn realistic(c: &mut Case) -> Res {
    let l = sunscreen_tfhe::params::LWE_637_128;
    let g = if c.rng.bool() { sunscreen_tfhe::params::GLWE_1_2048_128 } else { sunscreen_tfhe::params::GLWE_1_1024_128 };
    let r = if gn(&g) == 2048 { rdef(2, 16) } else { rdef(3, 8) };
    let lk = high_level::keygen::generate_binary_lwe_sk(&l);
    let sk = high_level::keygen::generate_binary_glwe_sk(&g);
    let bsk = high_level::keygen::generate_bootstrapping_key(&lk, &sk, &l, &g, &r);
    let bf = high_level::fft::fft_bootstrap_key(&bsk, &l, &g, &r);
    let bits = if gn(&g) == 2048 { c.rng.range(1, 3) } else { c.rng.range(1, 2) } as u32;
    let t = table(&mut c.rng, 1 << bits);
    let lut = UnivariateLookupTable::<u64>::trivial_from_fn(|x| t[x as usize], &g, PlaintextBits(bits));
    let out = sk.to_lwe_secret_key();
    for msg in 0..1u64 << bits {
        let ct = high_level::encryption::encrypt_lwe_secret(msg, &lk, &l, PlaintextBits(bits + 1));
        let o = high_level::evaluation::univariate_programmable_bootstrap(&ct, &lut, &bf, &l, &g, &r);
        let d = high_level::encryption::decrypt_lwe(&o, out, &g.as_lwe_def(), PlaintextBits(bits));
        ck_eq!(c, d, t[msg as usize], "recommended parameters, n={}, {bits} bits, message {msg}", gn(&g));
        let ph = lwe_phase(&rawu::<u64, _>(&*o), &rawu::<u64, _>(out), u64::MAX);
        let e = (signed(ph.wrapping_sub(t[msg as usize] << (64 - bits)), 64) as f64).abs();
        c.max("log2-of-bootstrapped-noise", e.max(1.0).log2());
        // fresh noise: far below what the input carried
        // fresh noise: what the keys and the decomposition predict, whatever the input carried
        let (n, dim) = (gn(&g) as f64, l.dim.0 as f64);
        let var = dim * 2.0 * n * rl(&r) as f64 * (4f64.powi(rb(&r) as i32) / 12.0) * g.std.0 * g.std.0
            + dim * (1.0 + n / 2.0) * 4f64.powi(-((rl(&r) * rb(&r)) as i32)) / 12.0;
        let lim = 12.0 * var.sqrt() * 2f64.powi(64) + dim * fft_tol(64, gn(&g), 2 * rl(&r), digit_norm(gn(&g), rb(&r)), n);
        c.max("noise-percent-of-bound", e / lim * 100.0);
        ck!(c, e < lim, "noise 2^{:.1} after bootstrapping at recommended parameters n={}, predicted at most 2^{:.1}", e.log2(), gn(&g), lim.log2());
        c.key(hash_u64s(&[gn(&g) as u64, bits as u64, msg, ph]));
    }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C19");
    x.section("modulus-switch", 160000, 20000000, |c| either!(c, modulus_switch));
    x.section("tables", 12000, 1000000, |c| either!(c, tables));
    x.section("rotations", 24000, 2000000, |c| either!(c, rotations));
    x.section("blind-rotation", 1600, 200000, blind);
    x.section("exact", 1200, 200000, |c| exact(c, 4, 7, 24));
    x.section("exact-large", 16, 4000, |c| exact(c, 8, 11, 40));
    x.section("messages", 480, 80000, |c| messages(c, 4, 9, 16));
    x.section("messages-large", 12, 4000, |c| messages(c, 10, 11, 60));
    x.section("recommended-parameters", 2, 60, realistic);
    x.finish()
}
