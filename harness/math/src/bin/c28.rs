//! C28: security estimates, failure probabilities, running statistics, domains.
use sunscreen_math::geometry::*;
use sunscreen_math::security::*;
use sunscreen_math::stats::RunningMeanVariance;
use sunscreen_tfhe::{GlweDef, LweDef, SecurityLevel};
use vmath::*;

/// log10 of the probability that a standard normal variable is farther than r from 0
fn tail_log10(r: f64) -> f64 {
    let z = r / std::f64::consts::SQRT_2;
    if z < 1.5 {
        // erf by its Maclaurin series
        let (mut s, mut t, mut n) = (z, z, 0.0);
        while t.abs() > 1e-18 * s.abs() {
            n += 1.0;
            t *= -z * z / n;
            s += t / (2.0 * n + 1.0);
            if n > 200.0 || s == 0.0 {
                break;
            }
        }
        (1.0 - 2.0 / std::f64::consts::PI.sqrt() * s).log10()
    } else {
        // erfc by its continued fraction, evaluated from the tail
        let mut f = 0.0;
        for k in (1..400).rev() {
            f = (k as f64 / 2.0) / (z + f);
        }
        let ln = -z * z - (std::f64::consts::PI.sqrt() * (z + f)).ln();
        ln / std::f64::consts::LN_10
    }
}

fn tails(c: &mut Case) -> Res {
    let std = 10f64.powf(c.rng.f64() * 40.0 - 20.0);
    let r = match c.rng.below(4) {
        0 => 7.0 + (c.rng.f64() - 0.5) * 1e-3,
        1 => c.rng.f64() * 7.0,
        _ => c.rng.f64() * 30.0,
    };
    c.describe(format!("distance {} standard deviation {std}", r * std));
    let got = probability_away_from_mean_gaussian(r * std, std);
    let want = tail_log10(r);
    // a double holds 1 - cdf to 1e-16, which near 7 deviations is 1e-4 of the probability
    let e = (got - want).abs();
    c.max("error of log10 of a tail", e);
    ck!(c, e <= 1.5e-3, "probability of being {r} deviations away: 10^{got}, expected 10^{want}");
    ck!(c, got <= 1e-12, "probability above one: 10^{got}");
    let r2 = r + c.rng.f64() * 0.5 + 0.01;
    if r2 < 30.0 {
        ck!(c, probability_away_from_mean_gaussian(r2 * std, std) < got, "the probability does not fall from {r} to {r2} deviations");
    }
    Ok(())
}

fn pick_dim(rng: &mut Rng, lo: u64, hi: u64) -> usize {
    match rng.below(6) {
        0 => lo as usize + rng.usize(4),
        1 => hi as usize - rng.usize(4),
        2 => 1472 - 3 + rng.usize(7),
        _ => rng.range(lo, hi) as usize,
    }
}
fn pick_level(rng: &mut Rng) -> f64 {
    match rng.below(6) {
        0 => 78.0,
        1 => 130.0,
        2 => 78.0 + rng.below(53) as f64,
        _ => 78.0 + 52.0 * rng.f64(),
    }
}

fn levels(c: &mut Case) -> Res {
    for _ in 0..16 {
        let (d, l) = (pick_dim(&mut c.rng, 368, 2048), pick_level(&mut c.rng));
        c.describe(format!("dimension {d} level {l}"));
        c.key(hash_bytes(format!("{d} {l}").as_bytes()));
        let r = lwe_security_level_to_std(d, l);
        let s = match r {
            Ok(s) => s,
            Err(e) => {
                // only where the level needs less noise than possible
                ck!(c, d > 1430, "dimension {d} level {l} is refused: {e}");
                // such a level is below the one of the smallest noise
                c.count("levels below the smallest noise", 1);
                let smallest = level_of_smallest_noise(d).max(78.0);
                ck!(c, l < smallest + 1.5, "dimension {d} level {l} is refused although noise above 10^-17.67 gives it (smallest noise gives {smallest})");
                continue;
            }
        };
        c.count("levels converted", 1);
        ck!(c, s > 10f64.powf(-17.8) && s < 1e-1, "dimension {d} level {l}: standard deviation {s}");
        // the inverse estimator may start at 386 dimensions
        if (d >= 386 && (78.5..=129.5).contains(&l)) || lwe_std_to_security_level(d, s).is_ok() {
            match lwe_std_to_security_level(d, s) {
                Ok(b) => {
                    let e = (b - l).abs();
                    c.max("level -> noise -> level, error in bits", e);
                    let tol = if d >= 386 && (80.0..=128.0).contains(&l) { 0.05 } else { 0.08 };
                    ck!(c, e <= tol, "dimension {d}: level {l} -> noise {s} -> level {b}");
                }
                Err(e) => fail!("dimension {d}: level {l} -> noise {s} is refused: {e}"),
            }
        }
        // more security needs more noise, more dimensions need less
        let l2 = l + 0.05 + c.rng.f64() * 5.0;
        if let Ok(s2) = lwe_security_level_to_std(d, l2) {
            ck!(c, s2 > s, "dimension {d}: level {l} needs {s}, level {l2} needs {s2}");
        }
        let d2 = d + 1 + { let m = if c.rng.bool() { 2 } else { 300 }; c.rng.usize(m) };
        if let Ok(s2) = lwe_security_level_to_std(d2, l) {
            ck!(c, s2 < s, "level {l}: dimension {d} needs {s}, dimension {d2} needs {s2}");
        }
    }
    Ok(())
}

/// level reached by the smallest noise that is accepted, by bisection on the inverse estimator
fn level_of_smallest_noise(d: usize) -> f64 {
    lwe_std_to_security_level(d, 10f64.powf(-17.669)).unwrap_or(f64::NEG_INFINITY)
}

fn noises(c: &mut Case) -> Res {
    for _ in 0..16 {
        let d = pick_dim(&mut c.rng, 368, 2048);
        let ls = -17.67 + 17.67 * c.rng.f64();
        let s = 10f64.powf(ls);
        c.describe(format!("dimension {d} noise {s}"));
        c.key(hash_bytes(format!("{d} {s}").as_bytes()));
        let Ok(l) = lwe_std_to_security_level(d, s) else {
            c.count("noise outside the domain", 1);
            // the other estimator agrees that no level of the domain needs this noise
            if d < 386 {
                continue;
            }
            if let (Ok(a), Ok(b)) = (lwe_security_level_to_std(d, 78.6), lwe_security_level_to_std(d, 129.4)) {
                ck!(c, s < a || s > b, "dimension {d}: noise {s} is refused although levels 78.6 and 129.4 need {a} and {b}");
            }
            continue;
        };
        c.count("noise converted", 1);
        ck!(c, (77.9..=130.25).contains(&l), "dimension {d}: noise {s} gives level {l}, outside 78 to 130");
        if (78.3..=129.7).contains(&l) {
            match lwe_security_level_to_std(d, l) {
                Ok(b) => {
                    let e = (b.log10() - ls).abs();
                    c.max("noise -> level -> noise, error in log10", e);
                    ck!(c, e <= 0.02, "dimension {d}: noise {s} -> level {l} -> noise {b}");
                }
                Err(e) => ck!(c, d > 1430 && ls < -17.4, "dimension {d}: noise {s} -> level {l} is refused: {e}"),
            }
        }
        let s2 = s * 10f64.powf(0.002 + c.rng.f64() * 0.3);
        if let Ok(l2) = lwe_std_to_security_level(d, s2) {
            ck!(c, l2 > l, "dimension {d}: noise {s} gives {l}, more noise {s2} gives {l2}");
        }
        let d2 = d + 1 + { let m = if c.rng.bool() { 2 } else { 100 }; c.rng.usize(m) };
        if let Ok(l2) = lwe_std_to_security_level(d2, s) {
            ck!(c, l2 > l, "noise {s}: dimension {d} gives {l}, dimension {d2} gives {l2}");
        }
    }
    Ok(())
}

fn check_err(c: &mut Case, r: Result<f64, OutsideConstraintsError>, names: [&str; 2], value: (f64, f64), what: &str) -> Res {
    match r {
        Ok(v) => fail!("{what}: {v} instead of an error"),
        Err(e) => {
            ck_eq!(c, e.dimensions().clone(), names.map(String::from), "{what}: named quantities");
            let same = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() < 1e-9;
            ck!(c, same(e.value().0, value.0) && same(e.value().1, value.1), "{what}: reported value {:?}, expected {value:?}", e.value());
            ck!(c, !e.polytope().inside(Point2D::new(value.0, value.1)), "{what}: reported domain contains the value");
            ck!(c, !e.polytope().violations(Point2D::new(value.0, value.1)).is_empty(), "{what}: no violated constraint");
            Ok(())
        }
    }
}

fn outside(c: &mut Case) -> Res {
    let (d, l) = (pick_dim(&mut c.rng, 368, 2048), pick_level(&mut c.rng));
    let bad_d = match c.rng.below(5) {
        0 => 367 - c.rng.usize(4),
        1 => 2049 + c.rng.usize(4),
        2 => c.rng.usize(368),
        3 => 2049 + c.rng.u64() as usize % (1 << 40),
        _ => c.rng.pick(&[0, 1, usize::MAX]),
    };
    let tiny = 1e-9 + c.rng.f64() * 1e-3;
    let bad_l = match c.rng.below(6) {
        0 => 78.0 - tiny,
        1 => 130.0 + tiny,
        2 => 78.0 * c.rng.f64(),
        3 => 130.0 + 1000.0 * (c.rng.f64() + 1e-6),
        4 => -c.rng.f64() * 1e6,
        _ => c.rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
    };
    c.describe(format!("dimensions {d} {bad_d} levels {l} {bad_l}"));
    let n = ["dimension", "security_level"];
    check_err(c, lwe_security_level_to_std(bad_d, l), n, (bad_d as f64, l), &format!("dimension {bad_d} level {l}"))?;
    check_err(c, lwe_security_level_to_std(d, bad_l), n, (d as f64, bad_l), &format!("dimension {d} level {bad_l}"))?;
    // levels that need less noise than possible
    let d3 = 1500 + c.rng.usize(549);
    let low = level_of_smallest_noise(d3) - 0.5;
    if low > 78.0 {
        let l3 = 78.0 + (low - 78.0) * c.rng.f64();
        check_err(c, lwe_security_level_to_std(d3, l3), n, (d3 as f64, l3), &format!("dimension {d3} level {l3}, below that of the smallest noise ({low})"))?;
        c.count("levels below the smallest noise", 1);
    }
    let n = ["dimension", "log_std"];
    let ls = -17.0 * c.rng.f64();
    let s = 10f64.powf(ls);
    check_err(c, lwe_std_to_security_level(bad_d, s), n, (bad_d as f64, s.log10()), &format!("dimension {bad_d} noise {s}"))?;
    let bad_s = match c.rng.below(5) {
        0 => 10f64.powf(-17.67 - tiny - 1e-6),
        1 => 10f64.powf(-17.7 - 100.0 * c.rng.f64()),
        2 => 0.5 + c.rng.f64() * 10.0,
        3 => c.rng.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, -s]),
        // far too little or too much for the dimension
        _ => {
            let b = if c.rng.bool() { lwe_security_level_to_std(d, 130.0).map(|x| x * 1.5) } else { lwe_security_level_to_std(d, 78.0).map(|x| x / 1.5) };
            b.unwrap_or(0.0)
        }
    };
    check_err(c, lwe_std_to_security_level(d, bad_s), n, (d as f64, bad_s.log10()), &format!("dimension {d} noise {bad_s}"))
}

fn named(c: &mut Case) -> Res {
    use sunscreen_tfhe::params::*;
    let l: [(&str, LweDef, f64); 2] = [("LWE_637_128", LWE_637_128, 128.0), ("LWE_512_128", LWE_512_128, 128.0)];
    let g: [(&str, GlweDef, f64); 4] = [("GLWE_1_512_128", GLWE_1_512_128, 128.0), ("GLWE_5_256_128", GLWE_5_256_128, 129.0), ("GLWE_1_1024_128", GLWE_1_1024_128, 128.0), ("GLWE_1_2048_128", GLWE_1_2048_128, 128.0)];
    let all: Vec<(&str, usize, f64, f64)> = l.iter().map(|(n, d, w)| (*n, d.dim.0, d.std.0, *w)).chain(g.iter().map(|(n, d, w)| (*n, d.dim.size.0 * d.dim.polynomial_degree.0, d.std.0, *w))).collect();
    for (n, d, s, want) in all {
        match lwe_security_level_to_std(d, want - 0.25) {
            Ok(x) => ck!(c, s >= x, "{n}: noise {s} is less than the {x} that {want} bits need"),
            Err(e) => fail!("{n}: {e}"),
        }
        // one named set is noisier than the domain of the inverse estimator allows
        if let Ok(l) = lwe_std_to_security_level(d, s) {
            let got = match n {
                "LWE_512_128" => LWE_512_128.security_level(),
                "GLWE_1_512_128" => GLWE_1_512_128.security_level(),
                "GLWE_5_256_128" => GLWE_5_256_128.security_level(),
                "GLWE_1_1024_128" => GLWE_1_1024_128.security_level(),
                "GLWE_1_2048_128" => GLWE_1_2048_128.security_level(),
                _ => continue,
            };
            ck_eq!(c, got, l, "level of {n}");
            ck!(c, (got - want).abs() <= 1.0, "{n}: {got} bits instead of {want}");
            c.count("named sets in the domain", 1);
        }
    }
    c.describe("named parameter sets".into());
    Ok(())
}

fn stats(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        _ => 1 + c.rng.usize(3000),
    };
    let w = c.rng.below(24) as u32;
    let off = if c.rng.bool() { 0 } else { c.rng.irange(-(1 << 45), 1 << 45) >> c.rng.below(45) };
    let scale = 2f64.powi(c.rng.irange(-40, 40) as i32);
    let same = c.rng.chance(1, 8);
    let mut xs: Vec<i64> = (0..n).map(|_| off + c.rng.irange(-(1 << w), 1 << w)).collect();
    if same {
        let v = xs[0];
        xs.iter_mut().for_each(|x| *x = v);
    }
    c.describe(format!("{n} samples around {off} of width 2^{w} times {scale}"));
    let mut r = RunningMeanVariance::new();
    ck_eq!(c, r.mean(), 0.0, "mean before any sample");
    let (mut s1, mut s2) = (0i128, 0i128);
    for (i, x) in xs.iter().enumerate() {
        r.add_sample(*x as f64 * scale);
        s1 += *x as i128;
        s2 += (*x as i128).pow(2);
        if i < 3 || i + 1 == xs.len() || c.rng.chance(1, 100) {
            let k = (i + 1) as i128;
            let mean = s1 as f64 / k as f64 * scale;
            let var = (k * s2 - s1 * s1) as f64 / (k * k) as f64 * scale * scale;
            let mag = (s2 as f64 / k as f64).sqrt() * scale;
            ck!(c, (r.mean() - mean).abs() <= 1e-12 * mag.max(1e-300) * 4.0, "mean of {k} samples: {} instead of {mean}", r.mean());
            ck!(c, (r.variance() - var).abs() <= 1e-10 * var + 4e-12 * mag * var.sqrt() + 1e-24 * mag * mag, "variance of {k} samples: {} instead of {var}", r.variance());
            ck!(c, (r.std() - r.variance().sqrt()).abs() <= 1e-15 * r.std(), "deviation of {k} samples: {}", r.std());
            let q = r;
            ck!(c, q == r, "copy of the statistics differs");
        }
    }
    Ok(())
}

fn geometry(c: &mut Case) -> Res {
    let m = c.rng.usize(7);
    let mut g = || c.rng.irange(-1000, 1000);
    let hs: Vec<(i64, i64, i64)> = (0..m).map(|_| (g(), g(), g() * 300)).collect();
    let (mut x, y) = (g(), g());
    // sometimes exactly on a boundary
    let mut hs = hs;
    if m > 0 && c.rng.bool() {
        let i = c.rng.usize(m);
        hs[i].2 = hs[i].0 * x + hs[i].1 * y + c.rng.irange(-1, 1);
        if c.rng.chance(1, 3) {
            x += 1;
        }
    }
    c.describe(format!("{hs:?} at ({x},{y})"));
    let v: Vec<HalfSpace2D> = hs.iter().map(|(a, b, k)| HalfSpace2D::new((*a as f64, *b as f64), *k as f64)).collect();
    let p = Point2D::new(x as f64, y as f64);
    ck_eq!(c, (p.x(), p.y()), (x as f64, y as f64), "coordinates");
    let ins: Vec<bool> = hs.iter().map(|(a, b, k)| a * x + b * y <= *k).collect();
    for (h, w) in v.iter().zip(&ins) {
        ck_eq!(c, h.inside(p), *w, "half space {h:?} at {p:?}");
    }
    let poly = ConvexPolytope2D::new(&v);
    ck_eq!(c, poly.inside(p), ins.iter().all(|x| *x), "domain {hs:?} at ({x},{y})");
    let bad: Vec<String> = v.iter().zip(&ins).filter(|(_, i)| !**i).map(|(h, _)| format!("{h:?}")).collect();
    ck_eq!(c, poly.violations(p).iter().map(|h| format!("{h:?}")).collect::<Vec<_>>(), bad, "violated constraints of {hs:?} at ({x},{y})");
    ck_eq!(c, poly.half_spaces().len(), m, "number of constraints");
    ck_eq!(c, format!("{:?}", poly.half_spaces()), format!("{v:?}"), "constraints");
    c.count("points inside", poly.inside(p) as u64);
    if m > 0 {
        ck!(c, !poly.inside(Point2D::new(f64::NAN, y as f64)), "a point without coordinates is inside {hs:?}");
    }
    Ok(())
}

fn eval2d_n<const M: usize, const N: usize>(c: &mut Case) -> Res {
    let mut k = [[0i64; N]; M];
    k.iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x = c.rng.irange(-50, 50)));
    let (x, y) = (c.rng.irange(-9, 9), c.rng.irange(-9, 9));
    c.describe(format!("{k:?} at ({x},{y})"));
    let mut w = 0i64;
    for (i, r) in k.iter().enumerate() {
        for (j, v) in r.iter().enumerate() {
            w += v * x.pow(i as u32) * y.pow(j as u32);
        }
    }
    ck_eq!(c, evaluate_polynomial_2d(&k.map(|r| r.map(|v| v as f64)), x as f64, y as f64), w as f64, "value of {k:?} at ({x},{y})");
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C28");
    ctx.section("levels", 6000, 600000, levels);
    ctx.section("noises", 6000, 600000, noises);
    ctx.section("outside", 10000, 500000, outside);
    ctx.section("tails", 20000, 500000, tails);
    ctx.section("named-parameters", 1, 1, named);
    ctx.section("running-statistics", 3000, 100000, stats);
    ctx.section("domains", 20000, 500000, geometry);
    ctx.section("polynomials", 4000, 100000, |c| match c.idx % 6 {
        0 => eval2d_n::<1, 1>(c),
        1 => eval2d_n::<5, 5>(c),
        2 => eval2d_n::<7, 7>(c),
        3 => eval2d_n::<2, 6>(c),
        4 => eval2d_n::<6, 3>(c),
        _ => eval2d_n::<0, 3>(c),
    });
    ctx.finish()
}
