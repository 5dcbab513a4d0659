//! C07: gadget decomposition.
use sunscreen_tfhe::entities::*;
use sunscreen_tfhe::radix::*;
use vtfhe::*;

fn digits_ok<S: Word>(c: &mut Case, x: u64, l: usize, b: usize, got: &[u64]) -> Res {
    let d = decompose(x, l, b, S::W);
    ck_eq!(c, got.len(), l, "digit count for l={l} b={b}");
    let mut rec = 0u64;
    for (i, g) in got.iter().enumerate() {
        let sd = signed(*g, S::W);
        ck!(c, b >= 127 || (sd >= -(1i128 << (b - 1)) && sd <= (1i128 << (b - 1))),
            "digit {i} of {x:#x} = {sd} is not balanced (l={l}, b={b}, {} bit)", S::W);
        // digit i (least significant first) has weight q / B^(l-i)
        let f = S::W as usize - b * (l - i);
        rec = rec.wrapping_add(g.wrapping_mul(1u64 << f)) & S::MASK;
    }
    ck_eq!(c, rec, d.value, "recomposition of {x:#x} with l={l} b={b} ({} bit), digits {:?}", S::W, got);
    Ok(())
}

fn lb(c: &mut Case, w: u32) -> (usize, usize) {
    let w = w as u64;
    match c.rng.below(6) {
        0 => { let b = c.rng.range(1, w); ((w / b) as usize, b as usize) } // as deep as fits
        1 => { let b = c.rng.pick(&[1u64, 2, 4, 8, 16, 32]); ((w / b) as usize, b as usize) } // exact
        2 => (1, c.rng.range(1, w) as usize),
        _ => { let b = c.rng.range(1, w.min(24)); (c.rng.range(1, w / b) as usize, b as usize) }
    }
}
fn values<S: Word>(c: &mut Case, l: usize, b: usize, n: usize) -> Vec<u64> {
    let shift = S::W as usize - l * b;
    (0..n)
        .map(|_| match c.rng.below(6) {
            0 => c.rng.edge(S::W),
            1 if shift > 0 => (c.rng.u64() << shift).wrapping_add((1u64 << (shift - 1)).wrapping_add(c.rng.irange(-2, 2) as u64)) & S::MASK, // rounding ties
            2 => { // digits all around half the radix: long carries
                let mut v = 0u64;
                for i in 0..l {
                    let h = (1u64 << (b - 1)).wrapping_add(c.rng.irange(-1, 0) as u64) & wmask(b as u32);
                    v |= h.checked_shl((shift + i * b) as u32).unwrap_or(0);
                }
                v & S::MASK
            }
            3 => S::MASK.wrapping_sub(c.rng.below(4)) & S::MASK,
            _ => c.rng.u64() & S::MASK,
        })
        .collect()
}

fn scalar<S: Word>(c: &mut Case) -> Res {
    let (l, b) = lb(c, S::W);
    let r = rdef(l, b);
    r.assert_valid::<S>();
    for x in values::<S>(c, l, b, 16) {
        let mut it = ScalarRadixIterator::new(Torus::from(S::of(x)), &r);
        let mut got = vec![];
        while let Some(d) = it.next() {
            got.push(d.u());
            ck!(c, got.len() <= l, "more than {l} digits");
        }
        ck!(c, it.next().is_none(), "iterator restarts after the end");
        digits_ok::<S>(c, x, l, b, &got)?;
        c.key(hash_u64s(&[x, l as u64, b as u64]));
    }
    c.count("decompositions", 16);
    Ok(())
}

fn polynomial<S: Word>(c: &mut Case) -> Res {
    let (l, b) = lb(c, S::W);
    let r = rdef(l, b);
    let n = if c.rng.chance(1, 3) { c.rng.range(1, 40) as usize } else { 1usize << c.rng.below(9) };
    let xs = values::<S>(c, l, b, n);
    let p = tpoly::<S>(&xs);
    let mut scratch = Polynomial::new(&words::<S>(&mut c.rng, n));
    let mut it = PolynomialRadixIterator::new(&p, &mut scratch, &r);
    let mut dst = Polynomial::new(&words::<S>(&mut c.rng, n));
    let mut all: Vec<Vec<u64>> = vec![];
    while it.write_next(&mut dst).is_some() {
        all.push(rawu::<S, _>(&*dst));
        ck!(c, all.len() <= l, "polynomial decomposition emits more than {l} digits");
        // digits do not depend on what the destination held
        for v in dst.coeffs_mut() {
            *v = S::of(c.rng.u64());
        }
    }
    let before = rawu::<S, _>(&*dst);
    ck!(c, it.write_next(&mut dst).is_none(), "decomposition restarts after the end");
    ck_eq!(c, rawu::<S, _>(&*dst), before, "exhausted decomposition wrote to its destination");
    for i in 0..n {
        let got: Vec<u64> = all.iter().map(|d| d[i]).collect();
        digits_ok::<S>(c, xs[i], l, b, &got)?;
        let sc: Vec<u64> = ScalarRadixIterator::new(Torus::from(S::of(xs[i])), &r).map(|d: S| d.u()).collect();
        ck_eq!(c, got, sc, "polynomial and scalar decomposition of {:#x} differ (l={l} b={b}, coefficient {i}/{n})", xs[i]);
    }
    // recomposition routine
    let mut list = PolynomialList::<S>::new(PolynomialDegree(n), l);
    for (d, p) in all.iter().zip(list.iter_mut(PolynomialDegree(n))) {
        for (x, y) in p.coeffs_mut().iter_mut().zip(d) {
            *x = S::of(*y);
        }
    }
    let base = words::<S>(&mut c.rng, n);
    let mut acc = tpoly::<S>(&base.iter().map(|x| x.u()).collect::<Vec<_>>());
    recompose_and_add(&mut acc, &mut list.iter(PolynomialDegree(n)), RadixLog(b), RadixCount(l));
    for i in 0..n {
        let want = base[i].u().wrapping_add(decompose(xs[i], l, b, S::W).value) & S::MASK;
        ck_eq!(c, acc.coeffs()[i].inner().u(), want, "recompose_and_add (l={l} b={b}) coefficient {i}");
    }
    c.count("decompositions", n as u64);
    c.describe(format!("{} bit, l={l}, b={b}, degree {n}", S::W));
    Ok(())
}

fn factors<S: Word>(c: &mut Case) -> Res {
    let (l, b) = lb(c, S::W);
    for j in 0..l {
        let v = c.rng.edge(S::W);
        let got = scale_by_decomposition_factor(S::of(v), j, &rdef(l, b)).u();
        let want = v.wrapping_mul(1u64 << (S::W as usize - b * (j + 1))) & S::MASK;
        ck_eq!(c, got, want, "gadget factor {j} of l={l} b={b}");
    }
    c.describe(format!("factors {} bit l={l} b={b}", S::W));
    Ok(())
}

/// every (count, log) pair, with a fixed set of hard values
fn all_shapes<S: Word>(c: &mut Case, b: usize) -> Res {
    for l in 1..=(S::W as usize / b) {
        for x in values::<S>(c, l, b, 12).into_iter().chain([0, 1, S::MASK, S::MASK >> 1, (S::MASK >> 1) + 1]) {
            let got: Vec<u64> = ScalarRadixIterator::new(Torus::from(S::of(x)), &rdef(l, b)).map(|d: S| d.u()).collect();
            digits_ok::<S>(c, x, l, b, &got)?;
        }
        c.key(hash_u64s(&[l as u64, b as u64, S::W as u64]));
    }
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C07");
    x.section("scalar", 4000, 60000, |c| either!(c, scalar));
    x.section("polynomial", 2500, 40000, |c| either!(c, polynomial));
    x.section("gadget-factors", 1000, 10000, |c| either!(c, factors));
    x.section("all-shapes-u64", 64, 64, |c| { let b = c.idx as usize + 1; all_shapes::<u64>(c, b) });
    x.section("all-shapes-u32", 32, 32, |c| { let b = c.idx as usize + 1; all_shapes::<u32>(c, b) });
    x.finish()
}
