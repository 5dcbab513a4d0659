//! C20: scheme switching and circuit bootstrapping.
use sunscreen_tfhe::high_level;
use sunscreen_tfhe::ops::automorphisms::generate_automorphism_key;
use sunscreen_tfhe::ops::bootstrapping as bs;
use sunscreen_tfhe::ops::bootstrapping::{generate_bootstrap_key, generate_scheme_switch_key, scheme_switch};
use sunscreen_tfhe::ops::fft_ops::{cmux, scheme_switch_fft};
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::generate_circuit_bootstrapping_pfks_keys;
use vtfhe::*;

fn sum_abs(s: &[u64]) -> f64 {
    s.iter().map(|x| signed(*x, 64).unsigned_abs() as f64).sum()
}
/// largest L1 norm of a polynomial of the key (at least 1)
fn l1(sv: &[u64], n: usize) -> f64 {
    sv.chunks(n).map(sum_abs).fold(1.0, f64::max)
}
fn ssk_make(r: &mut Rng, sv: &[u64], n: usize, rs: &RadixDecomposition, w: u32) -> Vec<u64> {
    let m = wmask(w);
    let s: Vec<&[u64]> = sv.chunks(n).collect();
    let mut o = vec![];
    for i in 0..s.len() {
        for j in i..s.len() {
            o.extend(glev_make(r, &negmul(s[i], s[j], m), sv, rl(rs), rb(rs), w));
        }
    }
    o
}
/// scheme switching of any leveled ciphertext with an exact key
fn switch(c: &mut Case, lo: u32, hi: u32) -> Res {
    let m = u64::MAX;
    let g0 = gen_glwe(&mut c.rng, lo, hi, 4);
    let (k, n) = (gk(&g0), gn(&g0));
    let fft = lo >= 4;
    let std = if c.rng.bool() { 0.0 } else { 2f64.powf(-(c.rng.range(46, 61) as f64)) };
    let g = gdef(k, n, std);
    let rg = gen_radix(&mut c.rng, 64, 12, 6);
    let rs = gen_radix(&mut c.rng, 64, 24, 6);
    let kind = if fft { c.rng.pick(&[0, 0, 2, 3]) } else { c.rng.below(4) as u32 };
    let (sv, sk) = glwe_sk::<u64>(&mut c.rng, k * n, kind);
    let own = fft && (std > 0.0 || c.rng.bool()) && kind != 1;
    let mut ssk = SchemeSwitchKey::<u64>::new(&g, &rs);
    if own {
        generate_scheme_switch_key(&mut ssk, &sk, &g, &rs);
    } else {
        ssk = tent!(u64, &ssk_make(&mut c.rng, &sv, n, &rs, 64), SchemeSwitchKeyRef<u64>);
    }
    let std = if own { std } else { 0.0 };
    let size = (k + 1) * n;
    // an encryption of a bit, of any polynomial, or anything at all
    let t = match c.rng.below(3) {
        0 => {
            let mut t = vec![0; n];
            t[0] = c.rng.below(2);
            Some(t)
        }
        1 => Some(msgs(&mut c.rng, n, 1)),
        _ => None,
    };
    let x = match &t {
        Some(t) => glev_make(&mut c.rng, t, &sv, rl(&rg), rb(&rg), 64),
        None => junk::<u64>(&mut c.rng, size * rl(&rg)),
    };
    let e = tent!(u64, &x, GlevCiphertextRef<u64>);
    let at = format!("scheme switch k={k} n={n} ggsw radix {}x{} key radix {}x{} key kind {kind} noise {std:e}", rl(&rg), rb(&rg), rl(&rs), rb(&rs));
    c.describe(at.clone());
    let mut o = tent!(u64, &junk::<u64>(&mut c.rng, size * rl(&rg) * (k + 1)), GgswCiphertextRef<u64>);
    poison_scratch(&mut c.rng, n);
    scheme_switch(&mut o, &e, &ssk, &g, &rg, &rs);
    let check = |c: &mut Case, raw: &[u64], tol: f64, what: &str| -> Res {
        let rows = phases(raw, &sv, n, m);
        for i in 0..=k {
            for j in 0..rl(&rg) {
                let row = &x[j * size..(j + 1) * size];
                let got = &rows[i * rl(&rg) + j];
                if i == k {
                    ck_eq!(c, maxdiff(got, &glwe_phase(row, &sv, n, m), 64) as f64 <= tol, true, "last row, level {j} of a {what} {at}");
                    continue;
                }
                let mut rounded = round_to(&row[..k * n], rl(&rs), rb(&rs), 64);
                rounded.extend(&row[k * n..]);
                let want = negv(&negmul(&sv[i * n..(i + 1) * n], &glwe_phase(&rounded, &sv, n, m), m), m);
                close(c, got, &want, tol, 64, &|| format!("row {i} level {j} of a {what} {at}"))?;
            }
        }
        Ok(())
    };
    let noise = noise_lim(std, 64, k * n, &rs);
    check(c, &rawu::<u64, _>(&*o), noise, "plain")?;
    let last = k * rl(&rg) * size;
    ck_eq!(c, rawu::<u64, _>(&*o)[last..].to_vec(), x.clone(), "last row of a plain {at}");
    if fft {
        let mut kf = SchemeSwitchKeyFft::<C64>::new(&g, &rs);
        fill_c64::<SchemeSwitchKeyFftRef<C64>>(&mut c.rng, &mut kf);
        ssk.fft(&mut kf, &g, &rs);
        let mut of = GgswCiphertextFft::<C64>::new(&g, &rg);
        fill_c64::<GgswCiphertextFftRef<C64>>(&mut c.rng, &mut of);
        poison_scratch(&mut c.rng, n);
        scheme_switch_fft(&mut of, &e, &kf, &g, &rg, &rs);
        of.ifft(&mut o, &g, &rg);
        let tol = fft_tol(64, n, k * rl(&rs) + 1, digit_norm(n, rb(&rs)), norm2(&sv, 64));
        check(c, &rawu::<u64, _>(&*o), noise + tol, "transform domain")?;
    }
    ck_eq!(c, rawu::<u64, _>(&*e), x, "input of a {at}");
    c.key(hash_u64s(&[k as u64, n as u64, rl(&rg) as u64, rb(&rg) as u64, rl(&rs) as u64, rb(&rs) as u64, x[0]]));
    Ok(())
}
struct Boot {
    bf: BootstrapKeyFft<C64>,
    tol: f64,
}
/// an exact bootstrapping key, and the worst error after using it
fn boot(l: &LweDef, lk: &LweSecretKeyRef<u64>, g: &GlweDef, sk: &GlweSecretKeyRef<u64>, sv: &[u64], r: &RadixDecomposition) -> Boot {
    let mut bsk = BootstrapKey::<u64>::new(l, g, r);
    generate_bootstrap_key(&mut bsk, lk, sk, l, g, r);
    let bf = high_level::fft::fft_bootstrap_key(&bsk, l, g, r);
    let (k, n) = (gk(g), gn(g));
    let unit = 2f64.powi(64 - (rl(r) * rb(r)) as i32);
    let s2 = norm2(sv, 64);
    let st = l.dim.0 as f64;
    let one = fft_tol(64, n, (k + 1) * rl(r), digit_norm(n, rb(r)), s2);
    Boot { bf, tol: st * (unit / 2.0 + one) + 12.0 * unit / 12f64.sqrt() * (st * s2).sqrt() }
}
fn cbs_radix(r: &mut Rng) -> RadixDecomposition {
    let l = r.range(1, 7) as usize;
    rdef(l, r.range(1, (24 / l as u64).min(10)) as usize)
}
/// an input whose phase lies anywhere in the half torus around its bit that the bootstrap can tell apart
fn input(c: &mut Case, bit: u64, lv: &[u64], n: usize, v: usize) -> Option<Vec<u64>> {
    let dim = lv.len();
    let drift = ((dim + 1).div_ceil(2) * v + v) as i64;
    let slack = n as i64 / 2 - drift;
    if slack <= 0 {
        return None;
    }
    let lim = slack << (63 - n.ilog2());
    let e = match c.rng.below(4) {
        0 => 0,
        1 => c.rng.pick(&[-(lim - 1), lim - 1]),
        _ => c.rng.irange(-(lim - 1), lim - 1),
    };
    let ph = (bit << 63).wrapping_add(e as u64);
    Some(if c.rng.chance(1, 6) {
        let mut x = vec![0; dim];
        x.push(ph);
        x
    } else {
        lwe_make(&mut c.rng, ph, lv, u64::MAX)
    })
}
/// every row of a GGSW encryption of a bit
fn ggsw_rows(c: &mut Case, raw: &[u64], bit: u64, sv: &[u64], n: usize, r: &RadixDecomposition, tol: (f64, f64), at: &str) -> Res {
    let m = u64::MAX;
    let k = sv.len() / n;
    let rows = phases(raw, sv, n, m);
    ck_eq!(c, rows.len(), (k + 1) * rl(r), "rows of a {at}");
    for i in 0..=k {
        for j in 0..rl(r) {
            let f = gadget(j, rb(r), 64).wrapping_mul(bit);
            let want = if i < k {
                negv(&scalev(&sv[i * n..(i + 1) * n], f, m), m)
            } else {
                let mut t = vec![0; n];
                t[0] = f;
                t
            };
            close(c, &rows[i * rl(r) + j], &want, if i < k { tol.0 } else { tol.1 }, 64, &|| format!("row {i} level {j} of bit {bit}, {at}"))?;
        }
    }
    Ok(())
}
#[allow(deprecated)]
fn via_pfks(c: &mut Case) -> Res {
    let g1 = gen_glwe(&mut c.rng, 4, 7, 3);
    let g2 = gen_glwe(&mut c.rng, 6, 8, 2);
    let (k1, n1, n2) = (gk(&g1), gn(&g1), gn(&g2));
    let l = gen_lwe(&mut c.rng, 8);
    let dim = l.dim.0;
    let (rp, rc) = (c.rng.pick(&[(2, 16), (3, 12), (2, 15), (4, 8)]), cbs_radix(&mut c.rng));
    let rp = rdef(rp.0, rp.1);
    let rf = c.rng.pick(&[(3, 11), (4, 10), (8, 5), (2, 18), (40, 1)]);
    let rf = rdef(rf.0, rf.1);
    let (lv, lk) = lwe_sk::<u64>(&mut c.rng, dim, 0);
    let (s1, sk1) = glwe_sk::<u64>(&mut c.rng, k1 * n1, 0);
    let (s2, sk2) = glwe_sk::<u64>(&mut c.rng, gk(&g2) * n2, 0);
    let b = boot(&l, &lk, &g2, &sk2, &s2, &rp);
    let from = g2.as_lwe_def();
    let mut cbs = CircuitBootstrappingKeyswitchKeys::<u64>::new(&from, &g1, &rf);
    generate_circuit_bootstrapping_pfks_keys(&mut cbs, sk2.to_lwe_secret_key(), &sk1, &from, &g1, &rf);
    let unit = 2f64.powi(64 - (rl(&rf) * rb(&rf)) as i32);
    let tol = b.tol + unit + 12.0 * unit / 12f64.sqrt() * norm2(&s2, 64).sqrt();
    let at = format!("circuit bootstrap via functional keyswitch, lwe {dim}, k1={k1} n1={n1} k2={} n2={n2} pbs {}x{} cbs {}x{} pfks {}x{}", gk(&g2), rl(&rp), rb(&rp), rl(&rc), rb(&rc), rl(&rf), rb(&rf));
    c.describe(at.clone());
    for bit in 0..2 {
        let Some(x) = input(c, bit, &lv, n2, rl(&rc).next_power_of_two()) else { continue };
        let e = tent!(u64, &x, LweCiphertextRef<u64>);
        let mut o = tent!(u64, &junk::<u64>(&mut c.rng, (k1 + 1) * n1 * rl(&rc) * (k1 + 1)), GgswCiphertextRef<u64>);
        poison_scratch(&mut c.rng, n2);
        bs::circuit_bootstrap_via_pfks(&mut o, &e, &b.bf, &cbs, &l, &g1, &g2, &rp, &rc, &rf);
        ggsw_rows(c, &rawu::<u64, _>(&*o), bit, &s1, n1, &rc, (tol, tol), &at)?;
        ck_eq!(c, rawu::<u64, _>(&*e), x, "input of a {at}");
        c.key(hash_u64s(&[dim as u64, n1 as u64, n2 as u64, bit, rl(&rc) as u64, rb(&rc) as u64, x[dim]]));
    }
    Ok(())
}
fn via_trace(c: &mut Case, lo: u32, hi: u32) -> Res {
    let m = u64::MAX;
    let g = gen_glwe(&mut c.rng, lo, hi, 2);
    let (k, n) = (gk(&g), gn(&g));
    let l = gen_lwe(&mut c.rng, 12);
    let dim = l.dim.0;
    let rp = c.rng.pick(&[(2, 16), (3, 12), (2, 15)]);
    let rp = rdef(rp.0, rp.1);
    let rt = c.rng.pick(&[(6, 7), (4, 11), (8, 5), (3, 14)]);
    let rt = rdef(rt.0, rt.1);
    let rs = c.rng.pick(&[(2, 17), (4, 10), (3, 13), (8, 5)]);
    let rs = rdef(rs.0, rs.1);
    let rc = cbs_radix(&mut c.rng);
    let (lv, lk) = lwe_sk::<u64>(&mut c.rng, dim, 0);
    let (sv, sk) = glwe_sk::<u64>(&mut c.rng, k * n, 0);
    let b = boot(&l, &lk, &g, &sk, &sv, &rp);
    let mut ak = AutomorphismKey::<u64>::new(&g, &rt);
    generate_automorphism_key(&mut ak, &sk, &g, &rt);
    let af = high_level::fft::fft_automorphism_key(&ak, &g, &rt);
    let mut ssk = SchemeSwitchKey::<u64>::new(&g, &rs);
    generate_scheme_switch_key(&mut ssk, &sk, &g, &rs);
    let sf = high_level::fft::fft_scheme_switch_key(&ssk, &g, &rs);
    let s2 = norm2(&sv, 64);
    let nf = n as f64;
    let u = |r: &RadixDecomposition| 12.0 * 2f64.powi(64 - (rl(r) * rb(r)) as i32) / 12f64.sqrt() * s2.sqrt();
    let ft = |r: &RadixDecomposition| fft_tol(64, n, k * rl(r) + 1, digit_norm(n, rb(r)), s2);
    // bootstrap, division by N, trace, then the product with a key polynomial
    let t1 = b.tol + nf * (1.0 + 12.0 * s2.sqrt() / 12f64.sqrt()) + nf * (u(&rt) + ft(&rt));
    let t0 = l1(&sv, n) * (t1 + u(&rs)) + ft(&rs);
    let at = format!("circuit bootstrap via trace, lwe {dim}, k={k} n={n} pbs {}x{} cbs {}x{} trace {}x{} switch {}x{}", rl(&rp), rb(&rp), rl(&rc), rb(&rc), rl(&rt), rb(&rt), rl(&rs), rb(&rs));
    c.describe(at.clone());
    let precise = t0 * 4.0 < gadget(rl(&rc) - 1, rb(&rc), 64) as f64;
    if precise {
        c.count("last-level-decided", 1);
    }
    for bit in 0..2 {
        let Some(x) = input(c, bit, &lv, n, rl(&rc).next_power_of_two()) else { continue };
        let e = tent!(u64, &x, LweCiphertextRef<u64>);
        let mut of = GgswCiphertextFft::<C64>::new(&g, &rc);
        fill_c64::<GgswCiphertextFftRef<C64>>(&mut c.rng, &mut of);
        poison_scratch(&mut c.rng, n);
        if c.rng.bool() {
            bs::circuit_bootstrap_via_trace_and_scheme_switch(&mut of, &e, &b.bf, &af, &sf, &l, &g, &rp, &rt, &rs, &rc);
        } else {
            of = high_level::evaluation::circuit_bootstrap(&e, &b.bf, &af, &sf, &l, &g, &rp, &rt, &rs, &rc);
        }
        let mut o = GgswCiphertext::<u64>::new(&g, &rc);
        of.ifft(&mut o, &g, &rc);
        let cv = ft(&rs);
        ggsw_rows(c, &rawu::<u64, _>(&*o), bit, &sv, n, &rc, (t0 + cv, t1 + cv), &at)?;
        // it selects
        let size = (k + 1) * n;
        let (a, d) = (msgs(&mut c.rng, n, 1), msgs(&mut c.rng, n, 1));
        let enc = |c: &mut Case, t: &[u64]| {
            let x = glwe_make(&mut c.rng, &scalev(t, 1 << 63, m), &sv, m);
            tent!(u64, &x, GlweCiphertextRef<u64>)
        };
        let (ea, ed) = (enc(c, &a), enc(c, &d));
        let mut o = tent!(u64, &junk::<u64>(&mut c.rng, size), GlweCiphertextRef<u64>);
        cmux(&mut o, &ea, &ed, &of, &g, &rc);
        let err = ((k + 1) * rl(&rc)) as f64 * digit_norm(n, rb(&rc)) * nf.sqrt() * (t0 + cv) + 2f64.powi(64 - (rl(&rc) * rb(&rc)) as i32) * (1.0 + 6.0 * s2.sqrt());
        if err < 2f64.powi(62) {
            let got: Vec<u64> = glwe_phase(&rawu::<u64, _>(&*o), &sv, n, m).iter().map(|x| x.wrapping_add(1 << 62) >> 63).collect();
            ck_eq!(c, got, if bit == 1 { d } else { a }, "selection by the result of a {at}, bit {bit}");
            c.count("selections", 1);
        }
        c.key(hash_u64s(&[dim as u64, n as u64, bit, rl(&rc) as u64, rb(&rc) as u64, x[dim]]));
    }
    Ok(())
}
/// the recommended parameters with their noise: bootstrap, then select
#[allow(deprecated)]
fn realistic(c: &mut Case) -> Res {
    use sunscreen_tfhe::params::*;
    let (l, g) = (LWE_637_128, GLWE_1_2048_128);
    let (rp, rt, rs) = (rdef(2, 16), rdef(6, 7), rdef(2, 17));
    let rc = c.rng.pick(&[(2, 5), (4, 4), (2, 6)]);
    let rc = rdef(rc.0, rc.1);
    let lk = high_level::keygen::generate_binary_lwe_sk(&l);
    let sk = high_level::keygen::generate_binary_glwe_sk(&g);
    let bf = high_level::fft::fft_bootstrap_key(&high_level::keygen::generate_bootstrapping_key(&lk, &sk, &l, &g, &rp), &l, &g, &rp);
    let af = high_level::fft::fft_automorphism_key(&high_level::keygen::generate_automorphism_key(&sk, &g, &rt), &g, &rt);
    let sf = high_level::fft::fft_scheme_switch_key(&high_level::keygen::generate_scheme_switch_key(&sk, &g, &rs), &g, &rs);
    let sv = rawu::<u64, GlweSecretKeyRef<u64>>(&sk);
    for bit in 0..2 {
        let ct = high_level::encryption::encrypt_lwe_secret(bit, &lk, &l, PlaintextBits(1));
        let of = high_level::evaluation::circuit_bootstrap(&ct, &bf, &af, &sf, &l, &g, &rp, &rt, &rs, &rc);
        let (a, d) = (msgs(&mut c.rng, 2048, 1), msgs(&mut c.rng, 2048, 1));
        let enc = |t: &[u64]| high_level::encryption::encrypt_glwe(&poly::<u64>(t), &sk, &g, PlaintextBits(1));
        let o = high_level::evaluation::cmux(&of, &enc(&a), &enc(&d), &g, &rc);
        let got = high_level::encryption::decrypt_glwe(&o, &sk, &g, PlaintextBits(1));
        ck_eq!(c, rawu::<u64, _>(&*got), if bit == 1 { d } else { a }, "selection after a circuit bootstrap at the recommended parameters, bit {bit}, radix {}x{}", rl(&rc), rb(&rc));
        let mut o = GgswCiphertext::<u64>::new(&g, &rc);
        of.ifft(&mut o, &g, &rc);
        // rows tell the bit apart at their own scale
        let lim = gadget(rl(&rc) - 1, rb(&rc), 64) as f64 / 4.0;
        ggsw_rows(c, &rawu::<u64, _>(&*o), bit, &sv, 2048, &rc, (lim, lim), "circuit bootstrap at the recommended parameters")?;
        c.key(hash_u64s(&[bit, rb(&rc) as u64, rawu::<u64, _>(&*ct)[0]]));
    }
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C20");
    x.section("scheme-switch", 10000, 600000, |c| switch(c, 0, 4));
    x.section("scheme-switch-transform-domain", 3000, 200000, |c| switch(c, 4, 7));
    x.section("via-functional-keyswitch", 200, 20000, via_pfks);
    x.section("via-trace", 300, 30000, |c| via_trace(c, 6, 8));
    x.section("via-trace-large", 8, 2000, |c| via_trace(c, 9, 11));
    x.section("recommended-parameters", 1, 30, realistic);
    x.finish()
}
