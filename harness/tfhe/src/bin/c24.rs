//! C24: nothing printed, nothing written, no noiseless or repeated row, no secret words in public data.
use sunscreen_tfhe::{entities::*, high_level::{encryption, evaluation, fft, keygen}, *};
use vtfhe::{model::*, ops::*, *};

/// bytes this process has handed to write calls of any kind, on any file
fn written() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/self/io").ok()?;
    s.lines().find_map(|l| l.strip_prefix("wchar: ").and_then(|x| x.trim().parse().ok()))
}

/// One use of everything in the high level interface.
fn high_level(r: &mut Rng, big: bool) {
    let l = ldef(r.range(2, 8) as usize, 1e-7);
    let g = gdef(1, 1 << r.range(4, 6), 1e-7);
    let (l, g) = if big { (r.pick(&[LWE_512_128, LWE_637_128]), r.pick(&[GLWE_1_512_128, GLWE_1_1024_128, GLWE_1_2048_128, GLWE_5_256_128])) } else { (l, g) };
    let rd = rdef(2, 8);
    let g1 = gdef(1, gn(&g), g.std.0);
    let g1sk = keygen::generate_binary_glwe_sk(&g1);
    let gl = g.as_lwe_def();
    let b = PlaintextBits(2);
    let m = r.below(4);
    let sk = if r.bool() { keygen::generate_binary_lwe_sk(&l) } else { keygen::generate_uniform_lwe_sk(&l) };
    let bsk_sk = keygen::generate_binary_lwe_sk(&l);
    let gsk = keygen::generate_binary_glwe_sk(&g);
    let usk = keygen::generate_uniform_glwe_sk(&g);
    let pk = keygen::generate_lwe_pk(&sk, &l);
    let rpk = keygen::generate_rlwe_public_key(&g1sk, &g1);
    let bsk = keygen::generate_bootstrapping_key(&bsk_sk, &gsk, &l, &g, &rd);
    let ksk = keygen::generate_ksk(gsk.to_lwe_secret_key(), &sk, &gl, &l, &rd);
    let cbs = if big { None } else { Some(keygen::generate_cbs_ksk(gsk.to_lwe_secret_key(), &gsk, &gl, &g, &rd)) };
    let ssk = keygen::generate_scheme_switch_key(&gsk, &g, &rd);
    let ak = keygen::generate_automorphism_key(&gsk, &g, &rd);
    let ct = encryption::encrypt_lwe_secret(m, &sk, &l, b);
    let (c2, _) = encryption::encrypt_lwe_secret_and_return_randomness(m, &sk, &l, b);
    let c3 = encryption::encrypt_lwe(m, &pk, &l, b);
    let (c4, _) = encryption::encrypt_lwe_and_return_randomness(m, &pk, &l, b);
    for c in [&ct, &c2, &c3, &c4] {
        encryption::decrypt_lwe(c, &sk, &l, b);
        encryption::decrypt_lwe_with_carry(c, &sk, &l, PlaintextBits(1), CarryBits(1));
    }
    encryption::trivial_lwe(m, &l, b);
    let p = poly::<u64>(&(0..gn(&g)).map(|_| r.below(4)).collect::<Vec<_>>());
    let q = poly::<u64>(&(0..gn(&g)).map(|_| r.below(2)).collect::<Vec<_>>());
    let (x, y) = (encryption::encrypt_glwe(&p, &gsk, &g, b), encryption::trivial_glwe(&p, &g, b));
    encryption::decrypt_glwe(&x, &gsk, &g, b);
    encryption::encrypt_glwe(&p, &usk, &g, b);
    let gg = encryption::encrypt_ggsw(1, &gsk, &g, &rd, PlaintextBits(1));
    encryption::decrypt_ggsw(&gg, &gsk, &g, &rd, PlaintextBits(1));
    let glev = encryption::encrypt_binary_msg_secret_glev(&q, &gsk, &g, &rd);
    let tlev = encryption::trivial_binary_glev(&q, &g, &rd);
    encryption::encrypt_binary_msg_rlev(&q, &rpk, &g1, &rd);
    let gf = fft::fft_ggsw(&gg, &g, &rd);
    fft::fft_glwe(&x, &g);
    let bf = fft::fft_bootstrap_key(&bsk, &l, &g, &rd);
    let sf = fft::fft_scheme_switch_key(&ssk, &g, &rd);
    let af = fft::fft_automorphism_key(&ak, &g, &rd);
    evaluation::cmux(&gf, &x, &y, &g, &rd);
    evaluation::glev_cmux(&gf, &tlev, &glev, &g, &rd);
    let lut = UnivariateLookupTable::<u64>::trivial_from_fn(|x| x ^ 1, &g, PlaintextBits(1));
    let o = evaluation::univariate_programmable_bootstrap(&ct, &lut, &bf, &l, &g, &rd);
    evaluation::keyswitch_lwe_to_lwe(&o, &ksk, &gl, &l, &rd);
    evaluation::sample_extract(&x, &g, 1);
    evaluation::circuit_bootstrap(&ct, &bf, &af, &sf, &l, &g, &rd, &rd, &rd, &rdef(1, 4));
    let _ = cbs;
}

/// Everything once, in random order; prints (at the end) what was written while it ran.
fn child(seed: u64) {
    let mut r = Rng::new(seed);
    let big = r.chance(1, 30);
    let mut list: Vec<usize> = (0..2 * NAMES.len() + 2).collect();
    r.shuffle(&mut list);
    let mut report = String::new();
    let mut before = written();
    for i in list {
        let (w, name) = (i / 2, if i / 2 < NAMES.len() { NAMES[i / 2] } else { "high level interface" });
        if w >= NAMES.len() {
            high_level(&mut r, i % 2 == 0 && big);
        } else if i % 2 == 0 {
            let mut o = gen_op::<u64>(&mut r, w, false);
            (o.run)(&mut o.slots);
        } else {
            let mut o = gen_op::<u32>(&mut r, w, false);
            (o.run)(&mut o.slots);
        }
        let now = written();
        if now != before {
            report += &format!("{name} wrote {} bytes; ", now.unwrap_or(0).wrapping_sub(before.unwrap_or(0)));
        }
        before = now;
    }
    let path = std::env::var("C24_REPORT").unwrap();
    std::fs::write(path, format!("{} {report}", if before.is_some() { "watched" } else { "unwatched" })).unwrap();
}

fn tree(d: &std::path::Path) -> Vec<String> {
    std::fs::read_dir(d).map(|x| x.filter_map(|e| e.ok()).map(|e| e.path().display().to_string()).collect()).unwrap_or_default()
}

fn output(c: &mut Case) -> Res {
    let exe = std::env::current_exe().unwrap();
    let seed = c.rng.u64();
    let base = std::env::var("VERIF_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
    let dir = base.join(format!("c24-{}-{}", std::process::id(), c.idx));
    let (cwd, rep) = (dir.join("empty"), dir.join("report"));
    std::fs::create_dir_all(&cwd).map_err(|e| Fail::from(e.to_string()))?;
    let mut cmd = std::process::Command::new(&exe);
    cmd.args(["--child", &seed.to_string()]).current_dir(&cwd).env("C24_REPORT", &rep).env("TMPDIR", &cwd).env("HOME", &cwd).stdin(std::process::Stdio::null());
    // settings that make programs talk
    for (k, v) in [("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("DEBUG", "1"), ("VERBOSE", "1"), ("TRACE", "1"), ("LOG_LEVEL", "debug")] {
        if c.rng.bool() {
            cmd.env(k, v);
        } else {
            cmd.env_remove(k);
        }
    }
    let o = cmd.output().map_err(|e| Fail::from(e.to_string()))?;
    let report = std::fs::read_to_string(&rep).unwrap_or_default();
    let left = tree(&cwd);
    let _ = std::fs::remove_dir_all(&dir);
    let show = |b: &[u8]| String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned();
    if !o.status.success() {
        fail!("using everything once (seed {seed}) fails with {:?}: {}", o.status, show(&o.stderr));
    }
    ck!(c, o.stdout.is_empty(), "the library printed {} bytes to standard output (seed {seed}; {report}): {}", o.stdout.len(), show(&o.stdout));
    ck!(c, o.stderr.is_empty(), "the library printed {} bytes to standard error (seed {seed}; {report}): {}", o.stderr.len(), show(&o.stderr));
    ck!(c, left.is_empty(), "the library left files behind: {left:?}");
    let (kind, what) = report.split_once(' ').unwrap_or(("", ""));
    ck!(c, what.is_empty(), "the library wrote data (seed {seed}): {what}");
    c.evals += 2 * NAMES.len() as u64;
    c.count(&format!("{kind} processes"), 1);
    c.key(seed);
    Ok(())
}

// ---- rows ------------------------------------------------------------------
const RUNS: usize = 4;
/// (operation, LWE, key slot): all operations that draw randomness
const RANDOM: &[(&str, bool, Option<usize>)] = &[
    ("generate_blind_rotation_shift", false, Some(1)),
    ("generate_bootstrap_key", false, Some(2)),
    ("generate_scheme_switch_key", false, Some(1)),
    ("generate_keyswitch_key_glwe", false, Some(2)),
    ("generate_keyswitch_key_lwe", true, Some(2)),
    ("generate_private_functional_keyswitch_key", false, Some(2)),
    ("generate_circuit_bootstrapping_pfks_keys", false, Some(2)),
    ("generate_public_functional_keyswitch_key", false, Some(2)),
    ("generate_automorphism_key", false, Some(1)),
    ("encrypt_ggsw_ciphertext", false, Some(2)),
    ("encrypt_ggsw_ciphertext_scalar", false, Some(1)),
    ("encrypt_secret_glev_ciphertext", false, Some(2)),
    ("encrypt_rlev_ciphertext", false, None),
    ("encrypt_glwe_ciphertext_secret", false, Some(2)),
    ("encrypt_lwe_ciphertext", true, Some(1)),
    ("encode_and_encrypt_lwe_ciphertext", true, Some(1)),
    ("rlwe_generate_public_key", false, Some(1)),
    ("rlwe_encrypt_public", false, None),
    ("LweSecretKeyRef::encrypt", true, Some(1)),
    ("LwePublicKey::generate", true, Some(1)),
    ("LwePublicKeyRef::encrypt", true, None),
    ("GlweSecretKeyRef::encode_encrypt_glwe", false, Some(2)),
    ("GlweSecretKeyRef::encode_encrypt_ggsw", false, Some(2)),
];

/// `runs[i]`: words of repetition i; key: the words and the degree (1 for LWE)
fn judge(c: &mut Case, what: &str, w: u32, runs: &[Vec<u64>], key: Option<(&[u64], usize)>) -> Res {
    let len = runs[0].len();
    ck!(c, len > 0 && runs.iter().all(|x| x.len() == len), "{what}: outputs of different lengths");
    for i in 0..len {
        let all = |f: &dyn Fn(u64) -> bool| runs.iter().all(|x| f(x[i]));
        ck!(c, !all(&|x| x == runs[0][i]), "{what}: word {i} of {len} is {:#x} in all of {RUNS} independent encryptions", runs[0][i]);
        ck!(c, !all(&|x| tabs(x, w) < 256), "{what}: word {i} of {len} is small in all of {RUNS} independent encryptions: {:x?}", runs.iter().map(|x| x[i]).collect::<Vec<_>>());
    }
    // no run of words of one encryption appears in another
    let Some((sk, n)) = key else { return Ok(()) };
    let m = wmask(w);
    let row = sk.len() + n;
    ck!(c, len % row == 0, "{what}: {len} words are no rows of {row}");
    for j in 0..len / row {
        let ph: Vec<Vec<u64>> = runs.iter().map(|x| if n == 1 { vec![lwe_phase(&x[j * row..(j + 1) * row], sk, m)] } else { glwe_phase(&x[j * row..(j + 1) * row], sk, n, m) }).collect();
        for i in 0..n {
            ck!(c, !ph.iter().all(|p| p[i] == ph[0][i]), "{what}: coefficient {i} of row {j} of {} has no noise: it decrypts to {:#x} in all of {RUNS} encryptions", len / row, ph[0][i]);
        }
        c.count("rows", 1);
    }
    Ok(())
}
fn rows_w<S: Word>(c: &mut Case, which: usize) -> Res {
    let (name, lwe, key) = RANDOM[which];
    let op = NAMES.iter().position(|x| *x == name).unwrap();
    let mut p = op_par::<S>(&mut c.rng, op, false);
    // noise in the middle of the word: never zero by chance, never near the mask
    let std = 2f64.powi(-(S::W as i32) / 2 + if S::W == 32 { 4 } else { 0 });
    for s in [&mut p.g.std, &mut p.g2.std] {
        s.0 = std;
    }
    for s in [&mut p.l.std, &mut p.l2.std] {
        s.0 = std;
    }
    let o = gen_op_par::<S>(&mut c.rng, op, p);
    c.describe(o.desc.clone());
    let mut runs = vec![];
    for _ in 0..RUNS {
        let mut s = o.slots.clone();
        (o.run)(&mut s);
        runs.push(s[0].bits());
    }
    let n = if lwe { 1 } else { gn(&p.g) };
    let sk = key.map(|i| o.slots[i].bits());
    judge(c, &o.desc, S::W, &runs, sk.as_ref().map(|s| (&s[..], n)))?;
    c.count(name, 1);
    c.key(hash_bytes(o.desc.as_bytes()) ^ runs[0][0]);
    Ok(())
}
fn rows(c: &mut Case) -> Res {
    let k = c.idx as usize / 2 % RANDOM.len();
    either!(c, rows_w, k)
}

/// the same through the high level interface
fn high_rows(c: &mut Case) -> Res {
    let std = 2f64.powi(-32);
    let (l, g) = (ldef(c.rng.range(2, 10) as usize, std), gdef(c.rng.range(1, 3) as usize, 1 << c.rng.range(4, 6), std));
    let g1 = gdef(1, gn(&g), std);
    let rd = rdef(c.rng.range(1, 3) as usize, c.rng.range(1, 12) as usize);
    let gl = g.as_lwe_def();
    let (lw, lsk) = lwe_sk::<u64>(&mut c.rng, l.dim.0, 0);
    let (gw, gsk) = glwe_sk::<u64>(&mut c.rng, gk(&g) * gn(&g), 0);
    let (g1w, g1sk) = glwe_sk::<u64>(&mut c.rng, gn(&g), 0);
    let b = PlaintextBits(1);
    let m = c.rng.below(2);
    let p = poly::<u64>(&(0..gn(&g)).map(|_| c.rng.below(2)).collect::<Vec<_>>());
    let pk = keygen::generate_lwe_pk(&lsk, &l);
    let rpk = keygen::generate_rlwe_public_key(&g1sk, &g1);
    c.describe(format!("high level lwe {} k={} n={} radix {}x{}", l.dim.0, gk(&g), gn(&g), rl(&rd), rb(&rd)));
    macro_rules! go {
        ($name:expr, $key:expr, $e:expr) => {{
            let runs: Vec<Vec<u64>> = (0..RUNS).map(|_| rawu::<u64, _>(&*$e)).collect();
            let key: Option<(&Vec<u64>, usize)> = $key;
            judge(c, &format!("high level {} lwe {} k={} n={} radix {}x{}", $name, l.dim.0, gk(&g), gn(&g), rl(&rd), rb(&rd)), 64, &runs, key.map(|x| (&x.0[..], x.1)))?;
            c.count($name, 1);
        }};
    }
    let n = gn(&g);
    match c.idx % 15 {
        0 => go!("generate_lwe_pk", Some((&lw, 1)), keygen::generate_lwe_pk(&lsk, &l)),
        1 => go!("generate_bootstrapping_key", Some((&gw, n)), keygen::generate_bootstrapping_key(&lsk, &gsk, &l, &g, &rd)),
        2 => go!("generate_ksk", Some((&lw, 1)), keygen::generate_ksk(gsk.to_lwe_secret_key(), &lsk, &gl, &l, &rd)),
        3 => go!("generate_cbs_ksk", Some((&gw, n)), keygen::generate_cbs_ksk(&lsk, &gsk, &l, &g, &rd)),
        4 => go!("generate_rlwe_public_key", Some((&g1w, n)), keygen::generate_rlwe_public_key(&g1sk, &g1)),
        5 => go!("generate_scheme_switch_key", Some((&gw, n)), keygen::generate_scheme_switch_key(&gsk, &g, &rd)),
        6 => go!("generate_automorphism_key", Some((&gw, n)), keygen::generate_automorphism_key(&gsk, &g, &rd)),
        7 => go!("encrypt_lwe_secret", Some((&lw, 1)), encryption::encrypt_lwe_secret(m, &lsk, &l, b)),
        8 => go!("encrypt_lwe_secret_and_return_randomness", Some((&lw, 1)), encryption::encrypt_lwe_secret_and_return_randomness(m, &lsk, &l, b).0),
        9 => go!("encrypt_lwe", None, encryption::encrypt_lwe(m, &pk, &l, b)),
        10 => go!("encrypt_lwe_and_return_randomness", None, encryption::encrypt_lwe_and_return_randomness(m, &pk, &l, b).0),
        11 => go!("encrypt_glwe", Some((&gw, n)), encryption::encrypt_glwe(&p, &gsk, &g, b)),
        12 => go!("encrypt_ggsw", Some((&gw, n)), encryption::encrypt_ggsw(m, &gsk, &g, &rd, b)),
        13 => go!("encrypt_binary_msg_secret_glev", Some((&gw, n)), encryption::encrypt_binary_msg_secret_glev(&p, &gsk, &g, &rd)),
        _ => go!("encrypt_binary_msg_rlev", Some((&g1w, n)), encryption::encrypt_binary_msg_rlev(&p, &rpk, &g1, &rd)),
    }
    c.key(c.idx);
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--child").unwrap_or(false) {
        return child(a[2].parse().unwrap());
    }
    let mut ctx = Ctx::new("C24");
    ctx.section("output", 160, 2000, output);
    ctx.section("rows", 46 * 100, 46 * 1500, rows);
    ctx.section("high-level-rows", 15 * 80, 15 * 1500, high_rows);
    ctx.finish();
}
