//! C13: every row of every gadget ciphertext and key.
use sunscreen_tfhe::high_level::{encryption as hl, keygen};
use sunscreen_tfhe::ops::automorphisms::generate_automorphism_key;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::encryption::*;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use vtfhe::*;

fn pow2(e: f64) -> f64 {
    2f64.powf(e)
}
fn some_std(c: &mut Case, w: u32) -> f64 {
    if c.rng.chance(3, 5) { 0.0 } else { pow2(-(c.rng.range(8, w as u64 - 2) as f64) - c.rng.f64()) }
}
fn near(c: &mut Case, got: &[u64], want: &[u64], std: f64, w: u32, what: &dyn Fn() -> String) -> Res {
    let lim = 12.0 * std * pow2(w as f64) + if std > 0.0 { 1.0 } else { 0.0 };
    let d = maxdiff(got, want, w) as f64;
    ck!(c, got.len() == want.len() && d <= lim, "{}: differs from its definition by {d} (limit {lim})", what());
    Ok(())
}
/// raw GLEV of the integer polynomial t
fn glev(c: &mut Case, raw: &[u64], sk: &[u64], n: usize, t: &[u64], r: &RadixDecomposition, std: f64, w: u32, what: &str) -> Res {
    let m = wmask(w);
    let ps = phases(raw, sk, n, m);
    ck_eq!(c, ps.len(), rl(r), "number of rows of {what}");
    for (j, p) in ps.iter().enumerate() {
        let want = scalev(t, gadget(j, rb(r), w), m);
        near(c, p, &want, std, w, &|| format!("{what}, level {j} of {}x{} bits, n={n}", rl(r), rb(r)))?;
    }
    Ok(())
}
fn ggsw(c: &mut Case, raw: &[u64], sk: &[u64], n: usize, t: &[u64], r: &RadixDecomposition, std: f64, w: u32, what: &str) -> Res {
    let (m, k) = (wmask(w), sk.len() / n);
    let l = (k + 1) * n * rl(r);
    ck_eq!(c, raw.len(), l * (k + 1), "size of {what}");
    for i in 0..=k {
        let v = if i < k { negv(&negmul(t, &sk[i * n..(i + 1) * n], m), m) } else { t.to_vec() };
        glev(c, &raw[i * l..(i + 1) * l], sk, n, &v, r, std, w, &format!("{what}, row {i} of {k}+1"))?;
    }
    Ok(())
}

fn glevs<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 5, 4);
    let g = gdef(gk(&g0), gn(&g0), some_std(c, S::W));
    let r = gen_radix(&mut c.rng, S::W, 32, 6);
    let (k, n, m, std) = (gk(&g), gn(&g), S::MASK, g.std.0);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, c.idx as u32 % 3);
    let t: Vec<u64> = if c.rng.bool() { msgs(&mut c.rng, n, 1) } else { junk::<S>(&mut c.rng, n) };
    let size = (k + 1) * n * rl(&r);
    poison_scratch(&mut c.rng, n);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, size), GlevCiphertextRef<S>);
    match c.rng.below(3) {
        0 => {
            encrypt_secret_glev_ciphertext(&mut ct, &tpoly::<S>(&t), &sk, &g, &r);
            glev(c, &rawu::<S, _>(&*ct), &sv, n, &t, &r, std, S::W, "secret key GLEV")?;
        }
        1 => {
            trivially_encrypt_glev_ciphertext(&mut ct, &tpoly::<S>(&t), &g, &r);
            let raw = rawu::<S, _>(&*ct);
            ck!(c, raw.chunks((k + 1) * n).all(|x| x[..k * n].iter().all(|y| *y == 0)), "trivial GLEV has a nonzero mask");
            glev(c, &raw, &sv, n, &t, &r, 0.0, S::W, "trivial GLEV")?;
        }
        _ => {
            // public key RLEV; the key and ephemeral noise are multiplied by binary polynomials
            let g1 = gdef(1, n, std);
            let (s1, k1) = glwe_sk::<S>(&mut c.rng, n, 2);
            let mut pk = RlwePublicKey::<S>::new(&g1);
            rlwe_generate_public_key(&mut pk, &k1, &g1);
            let mut ct = tent!(S, &junk::<S>(&mut c.rng, 2 * n * rl(&r)), GlevCiphertextRef<S>);
            encrypt_rlev_ciphertext(&mut ct, &tpoly::<S>(&t), &pk, &g1, &r);
            glev(c, &rawu::<S, _>(&*ct), &s1, n, &t, &r, std * (2.0 * n as f64 + 1.0).sqrt(), S::W, "RLEV")?;
            if std == 0.0 && rb(&r) < S::W as usize {
                let mut out = tpoly::<S>(&junk::<S>(&mut c.rng, n));
                decrypt_glev_ciphertext(&mut out, &ct, &k1, &g1, &r);
                ck_eq!(c, rawu::<S, _>(&*out), t.iter().map(|x| x & wmask(rb(&r) as u32)).collect::<Vec<_>>(), "reading back an RLEV");
            }
            c.key(hash_u64s(&[n as u64, rl(&r) as u64, rb(&r) as u64, t[0]]));
            return Ok(());
        }
    }
    if std == 0.0 && rb(&r) < S::W as usize {
        let mut out = tpoly::<S>(&junk::<S>(&mut c.rng, n));
        decrypt_glev_ciphertext(&mut out, &ct, &sk, &g, &r);
        ck_eq!(c, rawu::<S, _>(&*out), t.iter().map(|x| x & wmask(rb(&r) as u32)).collect::<Vec<_>>(), "reading back a GLEV");
    }
    let _ = m;
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, t[0]]));
    c.describe(format!("{} bit GLEV k={k} n={n} radix {}x{} std {std:e}", S::W, rl(&r), rb(&r)));
    Ok(())
}
fn ggsws<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 5, 4);
    let g = gdef(gk(&g0), gn(&g0), some_std(c, S::W));
    let r = gen_radix(&mut c.rng, S::W, 32, 6);
    let (k, n, std) = (gk(&g), gn(&g), g.std.0);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, c.idx as u32 % 3);
    let bits = c.rng.range(1, 31.min(rb(&r) as u64)) as u32;
    let mut t = msgs(&mut c.rng, n, bits);
    let size = (k + 1) * (k + 1) * n * rl(&r);
    poison_scratch(&mut c.rng, n);
    let mut ct = tent!(S, &junk::<S>(&mut c.rng, size), GgswCiphertextRef<S>);
    let pb = PlaintextBits(bits);
    let path = c.rng.below(4);
    match path {
        0 => encrypt_ggsw_ciphertext(&mut ct, &poly::<S>(&t), &sk, &g, &r, pb),
        1 => {
            t[1..].fill(0);
            encrypt_ggsw_ciphertext_scalar(&mut ct, S::of(t[0]), &sk, &g, &r, pb)
        }
        2 => ct = sk.encode_encrypt_ggsw(&poly::<S>(&t), &g, &r, pb),
        _ => trivially_encrypt_ggsw_ciphertext(&mut ct, &poly::<S>(&t), &g, &r, pb),
    }
    let raw = rawu::<S, _>(&*ct);
    if path == 3 {
        // a trivial GGSW is one under the zero key: only the last row carries the message
        let z = vec![0; k * n];
        ggsw(c, &raw, &z, n, &t, &r, 0.0, S::W, "trivial GGSW")?;
        ck!(c, raw.chunks((k + 1) * n).all(|x| x[..k * n].iter().all(|y| *y == 0)), "trivial GGSW has a nonzero mask");
    } else {
        ggsw(c, &raw, &sv, n, &t, &r, std, S::W, &format!("GGSW path {path}"))?;
    }
    // reading back; margin: level 0 sits at q/B
    if 12.0 * std < pow2(-(rb(&r) as f64) - 1.0) {
        let mut out = tpoly::<S>(&junk::<S>(&mut c.rng, n));
        decrypt_ggsw_ciphertext(&mut out, &ct, &sk, &g, &r);
        ck_eq!(c, rawu::<S, _>(&*out), t, "reading back a GGSW (path {path}, k={k} n={n} radix {}x{})", rl(&r), rb(&r));
    }
    c.count(&format!("path-{path}"), 1);
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, bits as u64, path, t[0], raw[0]]));
    c.describe(format!("{} bit GGSW k={k} n={n} radix {}x{} std {std:e} path {path}", S::W, rl(&r), rb(&r)));
    Ok(())
}
fn boot<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 0, 5, 3);
    let g = gdef(gk(&g0), gn(&g0), some_std(c, S::W));
    let r = gen_radix(&mut c.rng, S::W, 32, 4);
    let (k, n) = (gk(&g), gn(&g));
    let l = ldef(c.rng.range(1, 12) as usize, 0.3);
    let (lv, lk) = lwe_sk::<S>(&mut c.rng, l.dim.0, 0);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, c.idx as u32 % 3);
    let size = (k + 1) * (k + 1) * n * rl(&r);
    let mut bk = tent!(S, &junk::<S>(&mut c.rng, size * l.dim.0), BootstrapKeyRef<S>);
    generate_bootstrap_key(&mut bk, &lk, &sk, &l, &g, &r);
    for (i, raw) in rawu::<S, _>(&*bk).chunks(size).enumerate() {
        let mut t = vec![0; n];
        t[0] = lv[i];
        ggsw(c, raw, &sv, n, &t, &r, g.std.0, S::W, &format!("bootstrapping key element {i}"))?;
    }
    // the public iterators see the same elements
    let want: Vec<Vec<u64>> = rawu::<S, _>(&*bk).chunks(size).map(|x| x.to_vec()).collect();
    let got: Vec<Vec<u64>> = bk.rows(&g, &r).map(|x| rawu::<S, _>(x)).collect();
    ck_eq!(c, got, want, "rows of a bootstrapping key");
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, lv.iter().fold(0, |a, b| a * 2 + b)]));
    c.describe(format!("{} bit bootstrapping key lwe {} k={k} n={n} radix {}x{}", S::W, l.dim.0, rl(&r), rb(&r)));
    Ok(())
}
fn ksk<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    // LWE
    let (a, b) = (c.rng.range(1, 24) as usize, c.rng.range(1, 24) as usize);
    let r = gen_radix(&mut c.rng, S::W, 32, 8);
    let std = some_std(c, S::W);
    let (from, to) = (ldef(a, 0.3), ldef(b, std));
    let (av, ak) = lwe_sk::<S>(&mut c.rng, a, c.idx as u32 % 3);
    let kind = c.rng.below(3) as u32;
    let (bv, bk) = lwe_sk::<S>(&mut c.rng, b, kind);
    let mut key = tent!(S, &junk::<S>(&mut c.rng, a * (b + 1) * rl(&r)), LweKeyswitchKeyRef<S>);
    generate_keyswitch_key_lwe(&mut key, &ak, &bk, &from, &to, &r);
    let raw = rawu::<S, _>(&*key);
    for i in 0..a {
        for j in 0..rl(&r) {
            let o = (i * rl(&r) + j) * (b + 1);
            let p = lwe_phase(&raw[o..o + b + 1], &bv, m);
            near(c, &[p], &[av[i].wrapping_mul(gadget(j, rb(&r), S::W)) & m], std, S::W, &|| format!("LWE keyswitch key {a}->{b} element {i} level {j}"))?;
        }
    }
    // GLWE
    let g0 = gen_glwe(&mut c.rng, 0, 5, 4);
    let g = gdef(gk(&g0), gn(&g0), std);
    let (k, n) = (gk(&g), gn(&g));
    let (av, ak) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let (bv, bk) = glwe_sk::<S>(&mut c.rng, k * n, c.idx as u32 % 3);
    let gl = (k + 1) * n * rl(&r);
    let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * k), GlweKeyswitchKeyRef<S>);
    generate_keyswitch_key_glwe(&mut key, &ak, &bk, &g, &r);
    for (i, raw) in rawu::<S, _>(&*key).chunks(gl).enumerate() {
        glev(c, raw, &bv, n, &av[i * n..(i + 1) * n], &r, std, S::W, &format!("GLWE keyswitch key element {i} of {k}"))?;
    }
    // automorphism key
    if n > 1 {
        let lg = n.ilog2() as usize;
        let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * k * lg), AutomorphismKeyRef<S>);
        poison_scratch(&mut c.rng, n);
        {
            generate_automorphism_key(&mut key, &bk, &g, &r);
            for (x, raw) in rawu::<S, _>(&*key).chunks(gl * k).enumerate() {
                let e = (n >> x) as u64 + 1;
                for (i, raw) in raw.chunks(gl).enumerate() {
                    let t = substitute(&bv[i * n..(i + 1) * n], e, m);
                    glev(c, raw, &bv, n, &t, &r, std, S::W, &format!("automorphism key X->X^{e} element {i} of {k}"))?;
                }
            }
        }
    }
    c.key(hash_u64s(&[a as u64, b as u64, k as u64, n as u64, rl(&r) as u64, rb(&r) as u64]));
    c.describe(format!("{} bit keyswitch keys {a}->{b}, k={k} n={n} radix {}x{} std {std:e}", S::W, rl(&r), rb(&r)));
    Ok(())
}
fn functional<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    let g0 = gen_glwe(&mut c.rng, 0, 4, 3);
    let std = some_std(c, S::W);
    let g = gdef(gk(&g0), gn(&g0), std);
    let (k, n) = (gk(&g), gn(&g));
    let r = gen_radix(&mut c.rng, S::W, 32, 5);
    let a = c.rng.range(1, 10) as usize;
    let from = ldef(a, 0.3);
    let (av, ak) = lwe_sk::<S>(&mut c.rng, a, c.idx as u32 % 3);
    let kind = c.rng.below(3) as u32;
    let (bv, bk) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let gl = (k + 1) * n * rl(&r);
    poison_scratch(&mut c.rng, n);
    // public
    let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * a), PublicFunctionalKeyswitchKeyRef<S>);
    generate_public_functional_keyswitch_key(&mut key, &ak, &bk, &from, &g, &r);
    for (i, raw) in rawu::<S, _>(&*key).chunks(gl).enumerate() {
        let mut t = vec![0; n];
        t[0] = av[i];
        glev(c, raw, &bv, n, &t, &r, std, S::W, &format!("public functional keyswitch key element {i} of {a}"))?;
    }
    // private, random linear map of z inputs
    let z = c.rng.range(1, 3) as usize;
    let co: Vec<Vec<u64>> = (0..z).map(|_| junk::<S>(&mut c.rng, n)).collect();
    let map = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        let w = raw_mut::<S, _>(p);
        for q in 0..w.len() {
            let mut s = 0u64;
            for y in 0..x.len() {
                s = s.wrapping_add(co[y][q].wrapping_mul(x[y].inner().u()));
            }
            w[q] = S::of(s & m);
        }
    };
    let cnt = PrivateFunctionalKeyswitchLweCount(z);
    let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * (a + 1) * z), PrivateFunctionalKeyswitchKeyRef<S>);
    generate_private_functional_keyswitch_key(&mut key, &ak, &bk, map, &from, &g, &r, &cnt);
    let minus = m;
    for (y, raw) in rawu::<S, _>(&*key).chunks(gl * (a + 1)).enumerate() {
        for (i, raw) in raw.chunks(gl).enumerate() {
            let s = if i < a { av[i] } else { minus };
            glev(c, raw, &bv, n, &scalev(&co[y], s, m), &r, std, S::W, &format!("private functional keyswitch key input {y} of {z} element {i} of {a}+1"))?;
        }
    }
    // circuit bootstrapping keys: multiply by -s_i, and the identity
    let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * (a + 1) * (k + 1)), CircuitBootstrappingKeyswitchKeysRef<S>);
    generate_circuit_bootstrapping_pfks_keys(&mut key, &ak, &bk, &from, &g, &r);
    for (y, raw) in rawu::<S, _>(&*key).chunks(gl * (a + 1)).enumerate() {
        for (i, raw) in raw.chunks(gl).enumerate() {
            let s = if i < a { av[i] } else { minus };
            let t = if y < k {
                negv(&scalev(&bv[y * n..(y + 1) * n], s, m), m)
            } else {
                let mut t = vec![0; n];
                t[0] = s;
                t
            };
            glev(c, raw, &bv, n, &t, &r, std, S::W, &format!("circuit bootstrapping keyswitch key {y} of {k}+1 element {i} of {a}+1"))?;
        }
    }
    c.key(hash_u64s(&[a as u64, k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, z as u64, co[0][0]]));
    c.describe(format!("{} bit functional keyswitch keys lwe {a}, k={k} n={n} radix {}x{} inputs {z} std {std:e}", S::W, rl(&r), rb(&r)));
    Ok(())
}
fn scheme<S: Word>(c: &mut Case) -> Res {
    let m = S::MASK;
    let g0 = gen_glwe(&mut c.rng, 4, 7, 4);
    let std = some_std(c, S::W);
    let g = gdef(gk(&g0), gn(&g0), std);
    let (k, n) = (gk(&g), gn(&g));
    let r = gen_radix(&mut c.rng, S::W, 32, 4);
    let kind = c.rng.pick(&[0, 2]);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, kind);
    let gl = (k + 1) * n * rl(&r);
    let mut key = tent!(S, &junk::<S>(&mut c.rng, gl * (k * (k + 1) / 2)), SchemeSwitchKeyRef<S>);
    poison_scratch(&mut c.rng, n);
    if S::W == 64 {
        // the public type bounds are met by both words; go through a helper
        let key = unsafe { &mut *(&mut key as *mut _ as *mut SchemeSwitchKey<u64>) };
        let sk = unsafe { &*(&sk as *const _ as *const GlweSecretKey<u64>) };
        generate_scheme_switch_key(key, sk, &g, &r);
    } else {
        let key = unsafe { &mut *(&mut key as *mut _ as *mut SchemeSwitchKey<u32>) };
        let sk = unsafe { &*(&sk as *const _ as *const GlweSecretKey<u32>) };
        generate_scheme_switch_key(key, sk, &g, &r);
    }
    let raw = rawu::<S, _>(&*key);
    let mut o = 0;
    for i in 0..k {
        for j in i..k {
            let t = negmul(&sv[i * n..(i + 1) * n], &sv[j * n..(j + 1) * n], m);
            glev(c, &raw[o * gl..(o + 1) * gl], &sv, n, &t, &r, std, S::W, &format!("scheme switch key ({i},{j}) of {k}"))?;
            for (x, y) in [(i, j), (j, i)] {
                ck_eq!(c, rawu::<S, _>(key.get_glev_at_index(x, y, &g, &r)), raw[o * gl..(o + 1) * gl].to_vec(), "element ({x},{y}) of a scheme switch key");
            }
            o += 1;
        }
    }
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, hash_u64s(&sv)]));
    c.describe(format!("{} bit scheme switch key k={k} n={n} radix {}x{}", S::W, rl(&r), rb(&r)));
    Ok(())
}
fn shift<S: Word>(c: &mut Case) -> Res {
    let g0 = gen_glwe(&mut c.rng, 4, 6, 2);
    let g = gdef(gk(&g0), gn(&g0), 0.0);
    let (k, n) = (gk(&g), gn(&g));
    let r = gen_radix(&mut c.rng, S::W, 12, 3);
    let (sv, sk) = glwe_sk::<S>(&mut c.rng, k * n, 0);
    let rot = c.rng.below(n as u64) as usize;
    let mut key = BlindRotationShiftFft::<C64>::new(&g, &r);
    fill_c64::<BlindRotationShiftFftRef<C64>>(&mut c.rng, &mut key);
    generate_blind_rotation_shift(&mut key, rot, &sk, &g, &r, PlaintextBits(1));
    let size = (k + 1) * (k + 1) * n * rl(&r);
    let lg = n.ilog2() as usize;
    ck_eq!(c, rawc(&*key).len(), size / 2 * lg, "size of a blind rotation shift");
    for (i, x) in key.rows(&g, &r).enumerate() {
        let mut y = GgswCiphertext::<S>::new(&g, &r);
        x.ifft(&mut y, &g, &r);
        let mut t = vec![0; n];
        t[0] = (rot >> i & 1) as u64;
        // transform rounding of 64 bit words multiplied by a binary key
        let ulp = if S::W == 64 { pow2(-64.0 + 11.0 + 6.0) * n as f64 } else { 0.0 };
        ggsw(c, &rawu::<S, _>(&*y), &sv, n, &t, &r, ulp / 12.0, S::W, &format!("blind rotation shift bit {i} of rotation {rot}"))?;
    }
    c.key(hash_u64s(&[k as u64, n as u64, rot as u64]));
    Ok(())
}
fn high(c: &mut Case) -> Res {
    let m = u64::MAX;
    let std = some_std(c, 64);
    let g = gdef(c.rng.range(1, 3) as usize, 1 << c.rng.range(4, 6), std);
    let (k, n) = (gk(&g), gn(&g));
    let r = gen_radix(&mut c.rng, 64, 20, 4);
    let sk = keygen::generate_binary_glwe_sk(&g);
    let sv = rawu::<u64, _>(&*sk);
    let t = msgs(&mut c.rng, n, 1);
    glev(c, &rawu::<u64, _>(&*hl::encrypt_binary_msg_secret_glev(&poly::<u64>(&t), &sk, &g, &r)), &sv, n, &t, &r, std, 64, "high level GLEV")?;
    glev(c, &rawu::<u64, _>(&*hl::trivial_binary_glev(&poly::<u64>(&t), &g, &r)), &sv, n, &t, &r, 0.0, 64, "high level trivial GLEV")?;
    let mut one = vec![0; n];
    one[0] = t[0];
    let x = hl::encrypt_ggsw(t[0], &sk, &g, &r, PlaintextBits(1));
    ggsw(c, &rawu::<u64, _>(&*x), &sv, n, &one, &r, std, 64, "high level GGSW")?;
    if 12.0 * std < pow2(-(rb(&r) as f64) - 1.0) {
        ck_eq!(c, rawu::<u64, _>(&*hl::decrypt_ggsw(&x, &sk, &g, &r, PlaintextBits(1))), one, "high level GGSW read back");
    }
    let l = ldef(c.rng.range(1, 8) as usize, std);
    let lk = keygen::generate_binary_lwe_sk(&l);
    let lv = rawu::<u64, _>(&*lk);
    let gl = (k + 1) * n * rl(&r);
    let bk = keygen::generate_bootstrapping_key(&lk, &sk, &l, &g, &r);
    for (i, raw) in rawu::<u64, _>(&*bk).chunks(gl * (k + 1)).enumerate() {
        let mut e = vec![0; n];
        e[0] = lv[i];
        ggsw(c, raw, &sv, n, &e, &r, std, 64, "high level bootstrapping key")?;
    }
    let flat = sk.to_lwe_secret_key();
    let ks = keygen::generate_ksk(flat, &lk, &g.as_lwe_def(), &l, &r);
    for (i, raw) in rawu::<u64, _>(&*ks).chunks(l.dim.0 + 1).enumerate() {
        let (e, j) = (i / rl(&r), i % rl(&r));
        near(c, &[lwe_phase(raw, &lv, m)], &[sv[e].wrapping_mul(gadget(j, rb(&r), 64))], std, 64, &|| "high level keyswitch key".into())?;
    }
    let cb = keygen::generate_cbs_ksk(&lk, &sk, &l, &g, &r);
    for (y, raw) in rawu::<u64, _>(&*cb).chunks(gl * (l.dim.0 + 1)).enumerate() {
        for (i, raw) in raw.chunks(gl).enumerate() {
            let s = if i < l.dim.0 { lv[i] } else { m };
            let mut e = vec![0; n];
            e[0] = s;
            let e = if y < k { negv(&scalev(&sv[y * n..(y + 1) * n], s, m), m) } else { e };
            glev(c, raw, &sv, n, &e, &r, std, 64, "high level circuit bootstrapping keyswitch key")?;
        }
    }
    let ss = keygen::generate_scheme_switch_key(&sk, &g, &r);
    glev(c, &rawu::<u64, _>(&*ss)[..gl], &sv, n, &negmul(&sv[..n], &sv[..n], m), &r, std, 64, "high level scheme switch key")?;
    let ak = keygen::generate_automorphism_key(&sk, &g, &r);
    glev(c, &rawu::<u64, _>(&*ak)[..gl], &sv, n, &substitute(&sv[..n], n as u64 + 1, m), &r, std, 64, "high level automorphism key")?;
    if k == 1 {
        let pk = keygen::generate_rlwe_public_key(&sk, &g);
        near(c, &glwe_phase(&rawu::<u64, _>(&*pk), &sv, n, m), &vec![0; n], std, 64, &|| "high level RLWE key".into())?;
        let x = hl::encrypt_binary_msg_rlev(&poly::<u64>(&t), &pk, &g, &r);
        glev(c, &rawu::<u64, _>(&*x), &sv, n, &t, &r, std * (2.0 * n as f64 + 1.0).sqrt(), 64, "high level RLEV")?;
    }
    c.key(hash_u64s(&[k as u64, n as u64, rl(&r) as u64, rb(&r) as u64, hash_u64s(&sv)]));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C13");
    x.section("glev", 24000, 480000, |c| either!(c, glevs));
    x.section("ggsw", 12000, 240000, |c| either!(c, ggsws));
    x.section("bootstrapping-key", 2400, 48000, |c| either!(c, boot));
    x.section("keyswitch-key", 3200, 64000, |c| either!(c, ksk));
    x.section("functional-keyswitch-key", 2400, 48000, |c| either!(c, functional));
    x.section("scheme-switch-key", 1600, 32000, |c| either!(c, scheme));
    x.section("blind-rotation-shift", 800, 16000, |c| either!(c, shift));
    x.section("high-level", 480, 9600, high);
    x.finish()
}
