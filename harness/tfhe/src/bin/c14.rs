//! C14: randomness of keys, masks and noise.
//! All statistics have explicit tail bounds; a correct library fails one with probability below 1e-9 per run.
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;
use sunscreen_tfhe::high_level::{encryption as hl, keygen};
use sunscreen_tfhe::ops::automorphisms::generate_automorphism_key;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use sunscreen_tfhe::rand as srand;
use vtfhe::*;

/// Hoeffding: a fair count of m coins leaves half +- Z*sqrt(m)/2 with probability below 2 exp(-Z^2/2) = 5e-18
const Z: f64 = 9.0;
/// exponent of the other tail bounds: exp(-X) = 4e-18
const X: f64 = 40.0;

fn pow2(e: f64) -> f64 {
    2f64.powf(e)
}
/// Gaussian distribution function
fn phi(x: f64) -> f64 {
    let a = x.abs() / 2f64.sqrt();
    let erf = if a < 3.0 {
        let (mut t, mut s, mut n) = (a, a, 0.0);
        while t.abs() > 1e-18 {
            n += 1.0;
            t *= -a * a / n;
            s += t / (2.0 * n + 1.0);
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut f = 0.0;
        for k in (1..60).rev() {
            f = k as f64 / 2.0 / (a + f);
        }
        1.0 - (-a * a).exp() / std::f64::consts::PI.sqrt() / (a + f)
    };
    if x >= 0.0 { 0.5 + erf / 2.0 } else { 0.5 - erf / 2.0 }
}

/// Uniform words: `rows[r]` is one repetition of the same positions.
fn uniform(c: &mut Case, rows: &[Vec<u64>], w: u32, what: &str) -> Res {
    let p = rows[0].len();
    let reps = rows.len();
    // every bit of every position
    let mut global = vec![0u64; w as usize];
    for i in 0..p {
        let mut ones = vec![0u64; w as usize];
        for r in rows {
            let mut x = r[i];
            while x != 0 {
                ones[x.trailing_zeros() as usize] += 1;
                x &= x - 1;
            }
        }
        for (b, o) in ones.iter().enumerate() {
            global[b] += o;
            let d = (*o as f64 - reps as f64 / 2.0).abs();
            c.evals += 1;
            if d > Z * (reps as f64).sqrt() / 2.0 {
                fail!("{what}: bit {b} of mask element {i} is set in {o} of {reps} repetitions");
            }
        }
    }
    let m = (p * reps) as f64;
    for (b, o) in global.iter().enumerate() {
        let d = (*o as f64 - m / 2.0).abs() / m.sqrt() * 2.0;
        c.max("mask-bit-deviation", d);
        ck!(c, d <= Z, "{what}: bit {b} of masks is set in {o} of {m} words");
    }
    // bits of a word, and of neighbouring and successive words, are pairwise independent
    let flat: Vec<u64> = rows.iter().flatten().copied().collect();
    let flat = &flat[..flat.len().min(1 << 15)];
    for s in 1..w {
        let mut same = vec![0u64; w as usize];
        for x in flat {
            let y = x ^ ((x >> s) | (x << (w - s)) & wmask(w));
            for (b, n) in same.iter_mut().enumerate() {
                *n += y >> b & 1;
            }
        }
        for (b, n) in same.iter().enumerate() {
            let d = (*n as f64 - flat.len() as f64 / 2.0).abs() / (flat.len() as f64).sqrt() * 2.0;
            c.evals += 1;
            if d > Z {
                fail!("{what}: bits {b} and {} of mask words are correlated ({n} of {} differ)", (b as u32 + s) % w, flat.len());
            }
        }
    }
    for (lag, name) in [(1, "neighbouring"), (p, "successive")] {
        if flat.len() <= lag + 400 {
            continue;
        }
        for b in 0..w {
            let n = flat.iter().zip(&flat[lag..]).filter(|(x, y)| (*x ^ *y) >> b & 1 == 1).count();
            let t = flat.len() - lag;
            let d = (n as f64 - t as f64 / 2.0).abs() / (t as f64).sqrt() * 2.0;
            ck!(c, d <= Z, "{what}: bit {b} of {name} mask words is correlated ({n} of {t} differ)");
        }
    }
    c.count("mask-words", (p * reps) as u64);
    Ok(())
}

/// All masks of the process: 64 bit fingerprints of (pairs of) mask words up to sign, by bucket.
static SEEN: Mutex<Option<HashMap<u64, u32>>> = Mutex::new(None);
fn fresh(c: &mut Case, rows: &[Vec<u64>], w: u32, what: &str) -> Res {
    let id = (hash_bytes(what.as_bytes()) ^ c.idx) as u32;
    let mut g = SEEN.lock().unwrap();
    let seen = g.get_or_insert_with(HashMap::new);
    let mut hits = 0;
    let (mut at, mut total) = (0, 0u64);
    for (r, row) in rows.iter().enumerate() {
        let it: Box<dyn Iterator<Item = u64>> = if w == 64 {
            Box::new(row.iter().copied())
        } else {
            Box::new(row.chunks_exact(2).map(|x| x[0] << 32 | x[1]))
        };
        for x in it {
            // a word and its negation count as the same mask
            let x = if w == 64 { x.min(x.wrapping_neg()) } else { x };
            total += 1;
            let old = if seen.len() < 1 << 24 { seen.insert(x, id) } else { seen.get(&x).copied() };
            if old.is_some() {
                hits += 1;
                at = r;
            }
        }
    }
    c.evals += total;
    c.count("fresh-masks", total);
    // two accidental hits have probability below (2^22 * 2^25 / 2^63)^3
    ck!(c, hits < 3, "{what}: {hits} mask values repeat earlier ones (last in repetition {at} of {})", rows.len());
    Ok(())
}

/// Gaussian noise values in units of the word. `rows[r][i]`: repetition r, position i.
fn gaussian(c: &mut Case, rows: &[Vec<f64>], sigma: f64, what: &str) -> Res {
    let (p, reps) = (rows[0].len(), rows.len());
    let sd = (sigma * sigma + 1.0 / 12.0).sqrt();
    // per position and overall: chi square (Laurent-Massart)
    let chi = |c: &mut Case, s2: f64, m: f64, name: &dyn Fn() -> String| -> Res {
        if sigma < 2.0 {
            return Ok(());
        }
        let (lo, hi) = (m - 2.0 * (m * X).sqrt(), m + 2.0 * (m * X).sqrt() + 2.0 * X);
        ck!(c, s2 >= lo && s2 <= hi, "{}: sum of squares of {m} noise values is {s2:.2} variances, expected {lo:.0}..{hi:.0} (sigma {sigma})", name());
        Ok(())
    };
    let mut all = 0.0;
    let mut mean = 0.0;
    for i in 0..p {
        let s: f64 = rows.iter().map(|r| (r[i] / sd).powi(2)).sum();
        all += s;
        mean += rows.iter().map(|r| r[i] / sd).sum::<f64>();
        chi(c, s, reps as f64, &|| format!("{what}: position {i}"))?;
    }
    for (r, x) in rows.iter().enumerate() {
        let s: f64 = x.iter().map(|v| (v / sd).powi(2)).sum();
        chi(c, s, p as f64, &|| format!("{what}: repetition {r}"))?;
    }
    let m = (p * reps) as f64;
    chi(c, all, m, &|| what.to_string())?;
    c.max("noise-variance-ratio", all / m);
    c.max("inverse-noise-variance-ratio", m / all);
    ck!(c, mean.abs() <= (2.0 * X * m).sqrt(), "{what}: {m} noise values have mean {:.4} sigma", mean / m);
    // whole distribution function (Dvoretzky-Kiefer-Wolfowitz)
    let mut v: Vec<f64> = rows.iter().flatten().copied().collect();
    // neighbours and successive repetitions are uncorrelated (Hanson-Wright)
    for (lag, name) in [(1, "neighbouring"), (p, "successive")] {
        if v.len() > lag && sigma >= 2.0 {
            let t: f64 = v.iter().zip(&v[lag..]).map(|(a, b)| a * b).sum::<f64>() / sd / sd;
            ck!(c, t.abs() <= 2.0 * (m / 2.0 * X).sqrt() + 2.0 * X, "{what}: {name} noise values are correlated ({:.4})", t / m);
        }
    }
    // any two positions are uncorrelated, in particular not equal (Hanson-Wright)
    if sigma >= 2.0 && p > 1 {
        let m = reps as f64;
        let lim = 2.0 * (m / 2.0 * X).sqrt() + 2.0 * X;
        let pos: Vec<usize> = if p <= 128 { (0..p).collect() } else { let mut x = c.rng.perm(p); x.truncate(128); x };
        for (q, i) in pos.iter().enumerate() {
            for j in &pos[..q] {
                let t: f64 = rows.iter().map(|r| r[*i] * r[*j]).sum::<f64>() / sd / sd;
                c.evals += 1;
                if t.abs() > lim {
                    fail!("{what}: noise at positions {i} and {j} is correlated ({:.3})", t / m);
                }
            }
        }
    }
    v.sort_by(f64::total_cmp);
    let tol = (X / 2.0 / m).sqrt();
    let mut worst = 0f64;
    for (i, x) in v.iter().enumerate() {
        // values are rounded to units
        let (a, b) = (phi((x - 0.5) / sigma), phi((x + 0.5) / sigma));
        worst = worst.max(a - (i + 1) as f64 / m).max(i as f64 / m - b);
    }
    ck!(c, worst <= tol + 1e-9, "{what}: distribution function of {m} noise values differs by {worst:.4} from the Gaussian of deviation {sigma} (limit {tol:.4})");
    c.count("noise-values", m as u64);
    Ok(())
}
/// the low bits of wide noise are uniform
fn low_bits(c: &mut Case, vals: &[u64], sigma: f64, what: &str) -> Res {
    if sigma < 64.0 {
        return Ok(());
    }
    for b in 0..((sigma.log2() - 3.0) as u32).min(60) {
        let n = vals.iter().filter(|x| *x >> b & 1 == 1).count();
        let d = (n as f64 - vals.len() as f64 / 2.0).abs() / (vals.len() as f64).sqrt() * 2.0;
        ck!(c, d <= Z, "{what}: bit {b} of the noise is set in {n} of {} values (deviation {sigma})", vals.len());
    }
    Ok(())
}

/// rows of (a_0..a_{k-1}, b) with polynomials of degree n; n = 1 for LWE
struct Shape {
    k: usize,
    n: usize,
}
/// Judge `reps` repetitions of the same object: a sequence of ciphertexts under one key.
fn judge<S: Word>(c: &mut Case, reps: &[Vec<u64>], s: &[u64], sh: Shape, std: f64, what: &str) -> Res {
    let (k, n) = (sh.k, sh.n);
    let row = (k + 1) * n;
    ck!(c, reps.iter().all(|r| r.len() == reps[0].len() && r.len() % row == 0), "{what}: size");
    let masks: Vec<Vec<u64>> = reps.iter().map(|r| r.chunks(row).flat_map(|x| x[..k * n].to_vec()).collect()).collect();
    uniform(c, &masks, S::W, what)?;
    fresh(c, &masks, S::W, what)?;
    // no two repetitions agree in any ciphertext
    let mut set = HashSet::new();
    for r in reps {
        for x in r.chunks(row) {
            if k * n >= 2 {
                ck!(c, set.insert(hash_u64s(x)), "{what}: the same ciphertext occurs twice");
            }
        }
    }
    // differences between repetitions are the differences of their noise: deviation sqrt(2) larger
    let mut noise = vec![];
    let mut vals = vec![];
    for x in reps.chunks_exact(2) {
        let mut v = vec![];
        for (a, b) in x[0].chunks(row).zip(x[1].chunks(row)) {
            let d = subv(&glwe_phase(a, s, n, S::MASK), &glwe_phase(b, s, n, S::MASK), S::MASK);
            v.extend(d.iter().map(|x| signed(*x, S::W) as f64));
            vals.extend(d);
        }
        noise.push(v);
    }
    let sigma = std * pow2(S::W as f64) * 2f64.sqrt();
    gaussian(c, &noise, sigma, what)?;
    low_bits(c, &vals, sigma, what)?;
    c.key(hash_u64s(&[hash_bytes(what.as_bytes()), k as u64, n as u64, std.to_bits()]));
    Ok(())
}
/// noise wide enough to measure, far from wrapping
fn std_for(c: &mut Case, w: u32) -> f64 {
    pow2(-(c.rng.range(8, w as u64 - 6) as f64) - c.rng.f64())
}
fn reps(c: &Case) -> usize {
    if c.quick { 512 } else { 1024 }
}

fn lwe<S: Word>(c: &mut Case) -> Res {
    let n = c.rng.range(2, 24) as usize;
    let p = ldef(n, std_for(c, S::W));
    let (s, sk) = lwe_sk::<S>(&mut c.rng, n, c.idx as u32 / 2 % 3);
    let m = S::of(c.rng.below(2));
    let path = c.rng.below(3);
    let r = reps(c);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, n + 1), LweCiphertextRef<S>);
    let mut errs = vec![];
    let v: Vec<Vec<u64>> = (0..r)
        .map(|_| {
            errs.push(match path {
                0 => {
                    let (x, e) = sk.encrypt(m, &p, PlaintextBits(1));
                    ct = x;
                    e
                }
                1 => encode_and_encrypt_lwe_ciphertext(&mut ct, &sk, m, &p, PlaintextBits(1)),
                _ => encrypt_lwe_ciphertext(&mut ct, &sk, Torus::from(m), &p),
            });
            rawu::<S, _>(&*ct)
        })
        .collect();
    judge::<S>(c, &v, &s, Shape { k: n, n: 1 }, p.std.0, "LWE encryption")?;
    let e: Vec<Vec<f64>> = errs.iter().map(|x| vec![signed(x.inner().u(), S::W) as f64]).collect();
    gaussian(c, &e, p.std.0 * pow2(S::W as f64), "returned LWE noise")
}
fn lwe_public<S: Word>(c: &mut Case) -> Res {
    let n = c.rng.range(2, 12) as usize;
    let p = ldef(n, std_for(c, S::W));
    let (s, sk) = lwe_sk::<S>(&mut c.rng, n, 0);
    let v: Vec<Vec<u64>> = (0..reps(c)).map(|_| rawu::<S, _>(&*LwePublicKey::<S>::generate(&sk, &p))).collect();
    judge::<S>(c, &v, &s, Shape { k: n, n: 1 }, p.std.0, "LWE public key")?;
    // encryptions: selection and noise
    let pk = LwePublicKey::<S>::generate(&sk, &p);
    let (mut sel, mut noise, mut vals, mut cts) = (vec![], vec![], vec![], HashSet::new());
    for _ in 0..reps(c) {
        let (ct, r) = pk.encrypt(S::of(1), &p, PlaintextBits(1));
        sel.push(r.r.iter().map(|x| x.u()).collect::<Vec<_>>());
        let e = rawu::<S, _>(&*r.e);
        noise.push(e.iter().map(|x| signed(*x, S::W) as f64).collect::<Vec<_>>());
        vals.extend(e);
        ck!(c, cts.insert(rawu::<S, _>(&*ct)) || (p.std.0 * pow2(S::W as f64)) < 4096.0, "the same public key encryption occurs twice");
    }
    uniform(c, &sel, 1, "public key selection")?;
    let sigma = p.std.0 * pow2(S::W as f64);
    gaussian(c, &noise, sigma, "public key encryption noise")?;
    low_bits(c, &vals, sigma, "public key encryption noise")
}
fn glwe<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 5, 3);
    let g = gdef(gk(&g0), gn(&g0).max(2), std_for(c, S::W));
    let (k, n) = (gk(&g), gn(&g));
    let kind = c.rng.below(3) as u32;
    let (s, sk) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let m = poly::<S>(&msgs(&mut c.rng, n, 1));
    let path = c.rng.bool();
    let r = reps(c);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, (k + 1) * n), GlweCiphertextRef<S>);
    let t = tpoly::<S>(&junk::<S>(&mut c.rng, n));
    let v: Vec<Vec<u64>> = (0..r)
        .map(|_| {
            if path {
                encrypt_glwe_ciphertext_secret(&mut ct, &t, &sk, &g);
                rawu::<S, _>(&*ct)
            } else {
                rawu::<S, _>(&*sk.encode_encrypt_glwe(&m, &g, PlaintextBits(1)))
            }
        })
        .collect();
    judge::<S>(c, &v, &s, Shape { k, n }, g.std.0, "GLWE encryption")
}
fn rlwe<S: Word>(c: &mut Case) -> Res {
    let n = 1usize << c.rng.range(1, 5);
    let g = gdef(1, n, std_for(c, S::W));
    let (s, sk) = glwe_sk::<S>(&mut c.rng, n, 0);
    let mut pk = RlwePublicKey::<S>::new(&g);
    let r = reps(c);
    let v: Vec<Vec<u64>> = (0..r)
        .map(|_| {
            rlwe_generate_public_key(&mut pk, &sk, &g);
            rawu::<S, _>(&*pk)
        })
        .collect();
    judge::<S>(c, &v, &s, Shape { k: 1, n }, g.std.0, "RLWE public key")?;
    let (mut sel, mut noise, mut vals) = (vec![], vec![], vec![]);
    let mut ct = GlweCiphertext::<S>::new(&g);
    let t = tpoly::<S>(&junk::<S>(&mut c.rng, n));
    for _ in 0..r {
        let x = rlwe_encrypt_public(&mut ct, &t, &pk, &g);
        sel.push(rawu::<S, _>(&*x.u));
        let mut e = rawu::<S, _>(&*x.e0);
        e.extend(rawu::<S, _>(&*x.e1));
        noise.push(e.iter().map(|x| signed(*x, S::W) as f64).collect::<Vec<_>>());
        vals.extend(e);
    }
    ck!(c, sel.iter().flatten().all(|x| *x < 2), "RLWE selection is not binary");
    uniform(c, &sel, 1, "RLWE selection")?;
    let sigma = g.std.0 * pow2(S::W as f64);
    gaussian(c, &noise, sigma, "RLWE encryption noise")?;
    low_bits(c, &vals, sigma, "RLWE encryption noise")
}
fn gadget_cts<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 4, 3);
    let g = gdef(gk(&g0), gn(&g0).max(2), std_for(c, S::W));
    let (k, n) = (gk(&g), gn(&g));
    let r = gen_radix(&mut c.rng, S::W, 16, 3);
    let kind = c.rng.below(3) as u32;
    let (s, sk) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let t = msgs(&mut c.rng, n, 1);
    let path = c.idx / 2 % 4;
    let count = reps(c);
    let mut ev = GlevCiphertext::<S>::new(&g, &r);
    let mut sw = GgswCiphertext::<S>::new(&g, &r);
    let mut v = vec![];
    for _ in 0..count {
        v.push(match path {
            0 => {
                encrypt_secret_glev_ciphertext(&mut ev, &tpoly::<S>(&t), &sk, &g, &r);
                rawu::<S, _>(&*ev)
            }
            1 => {
                encrypt_ggsw_ciphertext(&mut sw, &poly::<S>(&t), &sk, &g, &r, PlaintextBits(1));
                rawu::<S, _>(&*sw)
            }
            2 => {
                encrypt_ggsw_ciphertext_scalar(&mut sw, S::of(t[0]), &sk, &g, &r, PlaintextBits(1));
                rawu::<S, _>(&*sw)
            }
            _ => rawu::<S, _>(&*sk.encode_encrypt_ggsw(&poly::<S>(&t), &g, &r, PlaintextBits(1))),
        });
    }
    let what = ["GLEV encryption", "GGSW encryption", "scalar GGSW encryption", "GGSW encryption by key"][path as usize];
    judge::<S>(c, &v, &s, Shape { k, n }, g.std.0, what)
}
/// public key GLEV: the randomness is not returned, so its rows are compared with each other
fn rlev<S: Word>(c: &mut Case) -> Res {
    let n = 1usize << c.rng.range(2, 5);
    let std = pow2(-(c.rng.range(12, S::W as u64 - 6) as f64));
    let g = gdef(1, n, std);
    let (s, sk) = glwe_sk::<S>(&mut c.rng, n, 0);
    let mut pk = RlwePublicKey::<S>::new(&g);
    rlwe_generate_public_key(&mut pk, &sk, &g);
    let r = gen_radix(&mut c.rng, S::W, 16, 3);
    let mut ct = GlevCiphertext::<S>::new(&g, &r);
    let t = tpoly::<S>(&msgs(&mut c.rng, n, 1));
    let v: Vec<Vec<u64>> = (0..reps(c))
        .map(|_| {
            encrypt_rlev_ciphertext(&mut ct, &t, &pk, &g, &r);
            rawu::<S, _>(&*ct)
        })
        .collect();
    // p u + e: masks of all rows differ, noise has variance between sigma^2 and (2n+1) sigma^2 and never vanishes
    let mut seen = HashSet::new();
    for x in v.iter().flat_map(|x| x.chunks(2 * n)) {
        ck!(c, seen.insert(x[..n].to_vec()) && seen.insert(x[n..].to_vec()), "public key GLEV rows repeat (n={n})");
    }
    let m = (v.len() / 2 * v[0].len() / 2) as f64;
    let mut s2 = 0.0;
    for x in v.chunks_exact(2) {
        for (a, b) in x[0].chunks(2 * n).zip(x[1].chunks(2 * n)) {
            let d = subv(&glwe_phase(a, &s, n, S::MASK), &glwe_phase(b, &s, n, S::MASK), S::MASK);
            s2 += d.iter().map(|x| (signed(*x, S::W) as f64).powi(2)).sum::<f64>();
        }
    }
    let var = s2 / 2.0 / m / (std * pow2(S::W as f64)).powi(2);
    c.max("rlev-noise-ratio", var);
    ck!(c, var > 1.0 && var < 4.0 * (2.0 * n as f64 + 1.0), "noise of public key GLEV has {var} times the declared variance, n={n}");
    c.key(hash_u64s(&[n as u64, std.to_bits(), 77]));
    Ok(())
}
fn keys<S: Word>(c: &mut Case) -> Res {
    let kind = c.idx / 2 % 8;
    let lo = if kind == 5 { 4 } else { 1 };
    let g0 = gen_glwe(&mut c.rng, lo, lo + 1, 2);
    let g = gdef(gk(&g0), gn(&g0), std_for(c, S::W));
    let (k, n, std) = (gk(&g), gn(&g), g.std.0);
    let r = gen_radix(&mut c.rng, S::W, 16, 2);
    let a = c.rng.range(1, 4) as usize;
    let from = ldef(a, 0.3);
    let (_, lk) = lwe_sk::<S>(&mut c.rng, a, 0);
    let (s, sk) = glwe_sk::<S>(&mut c.rng, k * n, 0);
    let (_, s0) = glwe_sk::<S>(&mut c.rng, k * n, 0);
    let b = c.rng.range(2, 8) as usize;
    let to = ldef(b, std);
    let (sb, kb) = lwe_sk::<S>(&mut c.rng, b, 0);
    let gl = (k + 1) * n * rl(&r);
    let mut v = vec![];
    let names = ["bootstrapping key", "LWE keyswitch key", "GLWE keyswitch key", "public functional keyswitch key", "circuit bootstrapping keyswitch keys", "scheme switch key", "automorphism key", "private functional keyswitch key"];
    for _ in 0..reps(c) {
        v.push(match kind {
            0 => {
                let mut x = BootstrapKey::<S>::new(&from, &g, &r);
                generate_bootstrap_key(&mut x, &lk, &sk, &from, &g, &r);
                rawu::<S, _>(&*x)
            }
            1 => {
                let mut x = LweKeyswitchKey::<S>::new(&from, &to, &r);
                generate_keyswitch_key_lwe(&mut x, &lk, &kb, &from, &to, &r);
                rawu::<S, _>(&*x)
            }
            2 => {
                let mut x = tent!(S, &vec![0; gl * k], GlweKeyswitchKeyRef<S>);
                generate_keyswitch_key_glwe(&mut x, &s0, &sk, &g, &r);
                rawu::<S, _>(&*x)
            }
            3 => {
                let mut x = tent!(S, &vec![0; gl * a], PublicFunctionalKeyswitchKeyRef<S>);
                generate_public_functional_keyswitch_key(&mut x, &lk, &sk, &from, &g, &r);
                rawu::<S, _>(&*x)
            }
            4 => {
                let mut x = tent!(S, &vec![0; gl * (a + 1) * (k + 1)], CircuitBootstrappingKeyswitchKeysRef<S>);
                generate_circuit_bootstrapping_pfks_keys(&mut x, &lk, &sk, &from, &g, &r);
                rawu::<S, _>(&*x)
            }
            5 => {
                let mut x = SchemeSwitchKey::<S>::new(&g, &r);
                if S::W == 64 {
                    let key = unsafe { &mut *(&mut x as *mut _ as *mut SchemeSwitchKey<u64>) };
                    let sk = unsafe { &*(&sk as *const _ as *const GlweSecretKey<u64>) };
                    generate_scheme_switch_key(key, sk, &g, &r);
                } else {
                    let key = unsafe { &mut *(&mut x as *mut _ as *mut SchemeSwitchKey<u32>) };
                    let sk = unsafe { &*(&sk as *const _ as *const GlweSecretKey<u32>) };
                    generate_scheme_switch_key(key, sk, &g, &r);
                }
                rawu::<S, _>(&*x)
            }
            6 => {
                let mut x = AutomorphismKey::<S>::new(&g, &r);
                generate_automorphism_key(&mut x, &sk, &g, &r);
                rawu::<S, _>(&*x)
            }
            _ => {
                let cnt = PrivateFunctionalKeyswitchLweCount(2);
                let mut x = tent!(S, &vec![0; gl * (a + 1) * 2], PrivateFunctionalKeyswitchKeyRef<S>);
                let map = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
                    p.clear();
                    p.coeffs_mut()[0] = x[0] + x[1] + x[1];
                };
                generate_private_functional_keyswitch_key(&mut x, &lk, &sk, map, &from, &g, &r, &cnt);
                rawu::<S, _>(&*x)
            }
        });
    }
    if kind == 1 {
        judge::<S>(c, &v, &sb, Shape { k: b, n: 1 }, std, names[1])
    } else {
        judge::<S>(c, &v, &s, Shape { k, n }, std, names[kind as usize])
    }
}
fn secrets<S: Word>(c: &mut Case) -> Res {
    let g = { let g = gen_glwe(&mut c.rng, 0, 5, 3); gdef(gk(&g), gn(&g), 0.0) };
    let n = c.rng.range(1, 80) as usize;
    let l = ldef(n, 0.1);
    let r = reps(c);
    let (mut bl, mut ul, mut bg, mut ug) = (vec![], vec![], vec![], vec![]);
    for _ in 0..r {
        bl.push(rawu::<S, _>(&*LweSecretKey::<S>::generate_binary(&l)));
        ul.push(rawu::<S, _>(&*LweSecretKey::<S>::generate_uniform(&l)));
        bg.push(rawu::<S, _>(&*GlweSecretKey::<S>::generate_binary(&g)));
        ug.push(rawu::<S, _>(&*GlweSecretKey::<S>::generate_uniform(&g)));
    }
    for (name, v, w) in [("binary LWE key", &bl, 1), ("binary GLWE key", &bg, 1), ("uniform LWE key", &ul, S::W), ("uniform GLWE key", &ug, S::W)] {
        if w == 1 {
            ck!(c, v.iter().flatten().all(|x| *x < 2), "{name} is not binary");
        } else {
            fresh(c, v, w, name)?;
        }
        uniform(c, v, w, name)?;
    }
    c.key(hash_u64s(&[n as u64, gk(&g) as u64, gn(&g) as u64]));
    Ok(())
}
fn high(c: &mut Case) -> Res {
    let k = c.rng.range(1, 2) as usize;
    let g = gdef(k, 16, std_for(c, 64));
    let l = ldef(c.rng.range(2, 8) as usize, std_for(c, 64));
    let r = rdef(2, 8);
    let sk = keygen::generate_binary_glwe_sk(&g);
    let lk = keygen::generate_binary_lwe_sk(&l);
    let (s, ls) = (rawu::<u64, _>(&*sk), rawu::<u64, _>(&*lk));
    let m = poly::<u64>(&msgs(&mut c.rng, 16, 1));
    let path = c.idx % 8;
    let names = ["encrypt_lwe_secret", "encrypt_glwe", "encrypt_ggsw", "encrypt_binary_msg_secret_glev", "generate_bootstrapping_key", "generate_ksk", "generate_cbs_ksk", "generate_scheme_switch_key"];
    let v: Vec<Vec<u64>> = (0..reps(c))
        .map(|_| match path {
            0 => rawu::<u64, _>(&*hl::encrypt_lwe_secret(1, &lk, &l, PlaintextBits(1))),
            1 => rawu::<u64, _>(&*hl::encrypt_glwe(&m, &sk, &g, PlaintextBits(1))),
            2 => rawu::<u64, _>(&*hl::encrypt_ggsw(1, &sk, &g, &r, PlaintextBits(1))),
            3 => rawu::<u64, _>(&*hl::encrypt_binary_msg_secret_glev(&m, &sk, &g, &r)),
            4 => rawu::<u64, _>(&*keygen::generate_bootstrapping_key(&lk, &sk, &l, &g, &r)),
            5 => rawu::<u64, _>(&*keygen::generate_ksk(sk.to_lwe_secret_key(), &lk, &g.as_lwe_def(), &l, &r)),
            6 => rawu::<u64, _>(&*keygen::generate_cbs_ksk(&lk, &sk, &l, &g, &r)),
            _ => rawu::<u64, _>(&*keygen::generate_scheme_switch_key(&sk, &g, &r)),
        })
        .collect();
    match path {
        0 | 5 => judge::<u64>(c, &v, &ls, Shape { k: l.dim.0, n: 1 }, l.std.0, names[path as usize]),
        _ => judge::<u64>(c, &v, &s, Shape { k, n: 16 }, g.std.0, names[path as usize]),
    }
}
/// the samplers themselves, for any declared deviation up to the whole torus
fn samplers<S: Word>(c: &mut Case) -> Res {
    let w = S::W as f64;
    let std = match c.rng.below(4) {
        0 => c.rng.f64() * 0.5 + 0.01,
        1 => pow2(-(c.rng.f64() * 16.0)),
        2 => pow2(-w - 2.0 + c.rng.f64() * 8.0),
        _ => pow2(-(c.rng.f64() * w)),
    };
    let sigma = std * pow2(w);
    let count = if c.quick { 20000 } else { 100000 };
    let v: Vec<u64> = if c.rng.bool() {
        (0..count).map(|_| srand::normal_torus::<S>(Stddev(std)).inner().u()).collect()
    } else {
        let mut p = tpoly::<S>(&vec![0; count]);
        srand::normal_torus_polynomial(&mut p, Stddev(std));
        rawu::<S, _>(&*p)
    };
    let what = format!("noise sampler, {} bit, deviation 2^{:.2}", S::W, std.log2());
    if std < 0.05 {
        gaussian(c, &v.chunks(count / 16).map(|x| x.iter().map(|y| signed(*y, S::W) as f64).collect()).collect::<Vec<_>>(), sigma, &what)?;
    }
    // circular moments of the wrapped Gaussian: E cos(2 pi h e) = exp(-2 pi^2 h^2 std^2)
    for h in [1.0, 2.0, 3.0] {
        let (mut co, mut si) = (0.0, 0.0);
        for x in &v {
            let t = signed(*x, S::W) as f64 / pow2(w) * 2.0 * std::f64::consts::PI * h;
            co += t.cos();
            si += t.sin();
        }
        let m = v.len() as f64;
        let want = (-2.0 * (std::f64::consts::PI * h * std).powi(2)).exp();
        let tol = (2.0 * X / m).sqrt();
        ck!(c, (co / m - want).abs() <= tol && (si / m).abs() <= tol, "{what}: circular moment {h} is {:.4} + {:.4}i instead of {want:.4}", co / m, si / m);
    }
    // no value is favoured beyond its probability
    if sigma > pow2(24.0) {
        let mut s = v.clone();
        s.sort();
        let top = s.chunk_by(|a, b| a == b).map(|x| x.len()).max().unwrap();
        ck!(c, top <= 6, "{what}: one value occurs {top} times in {count} samples");
    }
    low_bits(c, &v, sigma, &what)?;
    let u: Vec<Vec<u64>> = (0..512).map(|_| (0..8).map(|_| srand::uniform_torus::<S>().inner().u()).collect()).collect();
    uniform(c, &u, S::W, "uniform sampler")?;
    fresh(c, &u, S::W, "uniform sampler")?;
    let mut p = poly::<S>(&vec![7; 64]);
    let u: Vec<Vec<u64>> = (0..512)
        .map(|_| {
            srand::binary_torus_polynomial(&mut p);
            rawu::<S, _>(&*p)
        })
        .collect();
    ck!(c, u.iter().flatten().all(|x| *x < 2), "binary sampler");
    uniform(c, &u, 1, "binary polynomial sampler")?;
    let u: Vec<Vec<u64>> = (0..512).map(|_| (0..8).map(|_| srand::binary::<S>().u()).collect()).collect();
    uniform(c, &u, 1, "binary sampler")?;
    c.describe(what);
    Ok(())
}
/// the recommended parameter sets as they are
fn recommended(c: &mut Case) -> Res {
    use sunscreen_tfhe::params as p;
    let which = c.idx % 6;
    let l = [p::LWE_512_128, p::LWE_637_128];
    let g = [p::GLWE_1_512_128, p::GLWE_5_256_128, p::GLWE_1_1024_128, p::GLWE_1_2048_128];
    let r = reps(c);
    let (k, n, std) = if which < 2 { (l[which as usize].dim.0, 1, l[which as usize].std.0) } else { let g = &g[which as usize - 2]; (gk(g), gn(g), g.std.0) };
    if which < 2 {
        let l = &l[which as usize];
        let sk = keygen::generate_binary_lwe_sk(l);
        let v: Vec<Vec<u64>> = (0..2 * r).map(|_| rawu::<u64, _>(&*hl::encrypt_lwe_secret(1, &sk, l, PlaintextBits(1)))).collect();
        judge::<u64>(c, &v, &rawu::<u64, _>(&*sk), Shape { k, n }, std, "recommended LWE parameters")
    } else {
        let g = &g[which as usize - 2];
        let sk = keygen::generate_binary_glwe_sk(g);
        let m = poly::<u64>(&vec![1; n]);
        let v: Vec<Vec<u64>> = (0..r.min(256)).map(|_| rawu::<u64, _>(&*hl::encrypt_glwe(&m, &sk, g, PlaintextBits(1)))).collect();
        judge::<u64>(c, &v, &rawu::<u64, _>(&*sk), Shape { k, n }, std, "recommended GLWE parameters")
    }
}
/// fresh threads start from different states
fn threads(c: &mut Case) -> Res {
    let n = 8;
    let p = ldef(n, 1e-5);
    let (_, sk) = lwe_sk::<u64>(&mut c.rng, n, 0);
    let rounds = if c.quick { 6 } else { 20 };
    for _ in 0..rounds {
        let rows: Vec<Vec<Vec<u64>>> = std::thread::scope(|s| {
            let h: Vec<_> = (0..12)
                .map(|_| {
                    s.spawn(|| {
                        (0..40)
                            .map(|_| {
                                let (ct, e) = sk.encrypt(1, &p, PlaintextBits(1));
                                let mut v = rawu::<u64, _>(&*ct);
                                v[n] = e.inner() ^ 0x5555_5555_5555_5555;
                                v.extend(rawu::<u64, _>(&*GlweSecretKey::<u64>::generate_uniform(&gdef(1, 4, 0.0))));
                                v
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            h.into_iter().map(|x| x.join().unwrap()).collect()
        });
        let masks: Vec<Vec<u64>> = rows.iter().flatten().map(|v| [&v[..n], &v[n + 1..]].concat()).collect();
        fresh(c, &masks, 64, "fresh threads")?;
        uniform(c, &masks, 64, "fresh threads")?;
        let firsts: HashSet<u64> = rows.iter().map(|t| t[0][n]).collect();
        ck!(c, firsts.len() >= rows.len() - 1, "noise of fresh threads repeats");
        c.count("fresh-threads", 12);
    }
    c.key(c.idx);
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C14");
    x.section("samplers", 64, 2000, |c| either!(c, samplers));
    x.section("secret-keys", 12, 300, |c| either!(c, secrets));
    x.section("lwe", 24, 600, |c| either!(c, lwe));
    x.section("lwe-public", 12, 300, |c| either!(c, lwe_public));
    x.section("glwe", 24, 600, |c| either!(c, glwe));
    x.section("rlwe", 16, 400, |c| either!(c, rlwe));
    x.section("rlev", 12, 300, |c| either!(c, rlev));
    x.section("gadget", 32, 800, |c| either!(c, gadget_cts));
    x.section("keys", 48, 1200, |c| either!(c, keys));
    x.section("high-level", 16, 400, high);
    x.section("recommended", 6, 60, recommended);
    x.serial("threads", 4, 60, threads);
    x.finish()
}
