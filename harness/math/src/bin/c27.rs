//! C27: counting, enumerating, ranking and unranking combinations.
use sunscreen_math::combination::*;
use vmath::*;

fn choose(n: u64, k: u64) -> BigUint {
    if k > n {
        return BigUint::ZERO;
    }
    let mut r = BigUint::from(1u32);
    for i in 1..=k {
        r = r * (n - k + i) / i;
    }
    r
}

/// all k-element subsets in lexicographic order, by definition
fn brute(n: usize, t: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0u32..1 << n).filter(|m| m.count_ones() as usize == t).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect();
    v.sort();
    v
}

/// rank by counting, exactly
fn rank(n: usize, comb: &[usize]) -> BigUint {
    let k = comb.len();
    let mut r = BigUint::ZERO;
    let mut prev = 0;
    for (i, x) in comb.iter().enumerate() {
        for j in prev..*x {
            r += choose((n - 1 - j) as u64, (k - 1 - i) as u64);
        }
        prev = x + 1;
    }
    r
}

fn small(c: &mut Case) -> Res {
    // idx -> (n, t)
    let mut i = c.idx as usize;
    let mut n = 1;
    while i > n {
        i -= n + 1;
        n += 1;
    }
    let t = i;
    c.describe(format!("all {t}-element subsets of {n}"));
    let want = brute(n, t);
    let cs = Combinations::new(n, t).map_err(|e| Fail::from(format!("({n},{t}) refused: {e}")))?;
    ck_eq!(c, cs.number_combinations(), want.len(), "number of {t} of {n}");
    let mut it = cs.clone();
    for (r, w) in want.iter().enumerate() {
        let g = it.next();
        ck_eq!(c, g.as_ref(), Some(w), "combination {r} of {t} of {n}");
        ck_eq!(c, cs.at_index(r), Some(w.clone()), "at_index({r}) of {t} of {n}");
        ck_eq!(c, cs.get_index(w), Ok(r), "get_index({w:?}) of {n}");
        // the same through an iterator that has already moved
        ck_eq!(c, it.at_index(r), Some(w.clone()), "at_index({r}) of {t} of {n} during iteration");
        ck_eq!(c, it.get_index(w), Ok(r), "get_index({w:?}) of {n} during iteration");
        ck_eq!(c, it.number_combinations(), want.len(), "number of {t} of {n} during iteration");
    }
    for _ in 0..3 {
        ck_eq!(c, it.next(), None, "after the last of {t} of {n}");
    }
    ck_eq!(c, cs.clone().count(), want.len(), "length of the iteration");
    for r in [want.len(), want.len() + 1, usize::MAX] {
        ck_eq!(c, cs.at_index(r), None, "at_index({r}) of {t} of {n}");
    }
    // refusals
    for len in 0..=t + 2 {
        if len != t {
            let v: Vec<usize> = (0..len).collect();
            ck_eq!(c, cs.get_index(&v), Err(CombinationGetIndexError::IncorrectLength(t, len)), "get_index of {len} elements");
        }
    }
    if t > 0 {
        for over in [n, n + 1, usize::MAX] {
            let mut v: Vec<usize> = (0..t).collect();
            v[t - 1] = over;
            ck!(c, matches!(cs.get_index(&v), Err(CombinationGetIndexError::ValueTooLarge(m, x)) if m == n - 1 && x == over), "get_index({v:?}) of {n}: {:?}", cs.get_index(&v));
        }
    }
    for over in 1..4 {
        ck_eq!(c, Combinations::new(n, n + over).err(), Some(CombinationNewError::CombinationTooLarge(n, n + over)), "more elements than options");
    }
    // adding an element
    for e in 0..=n {
        for w in &want {
            let (idx, v) = insert_element_into_reduced_combination(e, w);
            let mut m: Vec<usize> = w.iter().map(|x| if *x >= e { x + 1 } else { *x }).collect();
            m.push(e);
            m.sort();
            ck_eq!(c, v, m, "adding {e} to {w:?}");
            ck_eq!(c, v.get(idx), Some(&e), "position of {e} added to {w:?}");
        }
    }
    c.count("combinations", want.len() as u64);
    Ok(())
}

fn counts(c: &mut Case) -> Res {
    let bits = c.rng.range(1, 40);
    let n = match c.rng.below(4) {
        0 => c.rng.range(1, 70),
        1 => c.rng.range(60, 80),
        2 => c.rng.range(1, 5000),
        _ => c.rng.range(1, 1 << bits),
    } as usize;
    let t = match c.rng.below(5) {
        0 => n / 2,
        1 => c.rng.usize(n + 1),
        2 => n - c.rng.usize(n.min(12) + 1),
        _ => c.rng.usize(n.min(12) + 1),
    };
    c.describe(format!("number of {t} of {n}"));
    let k = t.min(n - t);
    let cs = Combinations::new(n, t).map_err(|e| Fail::from(format!("({n},{t}) refused: {e}")))?;
    if k > 4000 {
        return Ok(());
    }
    let want = choose(n as u64, k as u64);
    let got = quiet_catch(|| cs.number_combinations());
    match usize::try_from(&want) {
        Ok(w) => {
            ck_eq!(c, got, Ok(w), "number of {t} of {n}");
            c.count("counts that fit", 1);
        }
        Err(_) => {
            ck!(c, got.is_err(), "number of {t} of {n} does not fit, but is reported as {got:?}");
            c.count("counts that do not fit", 1);
        }
    }
    Ok(())
}

fn large(c: &mut Case) -> Res {
    // a count that fits, elements spread over the whole range
    let (n, t) = loop {
        let top = if c.rng.bool() { 64 } else { 400 };
        let n = c.rng.range(2, top) as usize;
        let t = if c.rng.bool() { c.rng.usize(n + 1) } else { c.rng.usize(n.min(9) + 1) };
        if usize::try_from(&choose(n as u64, t as u64)).is_ok() {
            break (n, t);
        }
    };
    let total = usize::try_from(&choose(n as u64, t as u64)).unwrap();
    let cs = Combinations::new(n, t).unwrap();
    ck_eq!(c, cs.number_combinations(), total, "number of {t} of {n}");
    for _ in 0..4 {
        let mut s = c.rng.perm(n);
        s.truncate(t);
        let r = match c.rng.below(4) {
            0 => 0,
            1 => total - 1,
            2 => (c.rng.u64() as usize) % total,
            _ => {
                s.sort();
                usize::try_from(&rank(n, &s)).unwrap()
            }
        };
        c.describe(format!("{t} of {n} at {r}"));
        c.key(hash_bytes(format!("{n} {t} {r}").as_bytes()));
        let Some(v) = cs.at_index(r) else { fail!("at_index({r}) of {t} of {n} is None, of {total}") };
        ck_eq!(c, v.len(), t, "length of at_index({r}) of {t} of {n}");
        ck!(c, v.windows(2).all(|w| w[0] < w[1]) && v.iter().all(|x| *x < n), "at_index({r}) of {t} of {n} is {v:?}");
        ck_eq!(c, rank(n, &v), BigUint::from(r), "rank of at_index({r}) of {t} of {n}, {v:?}");
        ck_eq!(c, cs.get_index(&v), Ok(r), "get_index(at_index({r})) of {t} of {n}");
    }
    ck_eq!(c, cs.at_index(total), None, "at_index past the end of {t} of {n}");
    // a long stretch of the enumeration from the start
    let mut prev: Option<Vec<usize>> = None;
    let mut it = cs.clone();
    for i in 0..total.min(200) {
        let Some(v) = it.next() else { fail!("{t} of {n} ends after {i} of {total}") };
        ck_eq!(c, rank(n, &v), BigUint::from(i), "rank of combination {i} of {t} of {n}");
        ck!(c, prev.as_ref().is_none_or(|p| *p < v), "{v:?} follows {prev:?} in {t} of {n}");
        prev = Some(v);
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C27");
    // n up to 13: sum of (n + 1)
    ctx.section("all-subsets", 104, 152, small);
    ctx.section("counts", 20000, 500000, counts);
    ctx.section("ranking", 4000, 200000, large);
    ctx.serial("refusals", 1, 1, |c| {
        for t in 0..5 {
            ck_eq!(c, Combinations::new(0, t).err(), Some(CombinationNewError::ZeroOptions), "no options");
        }
        c.describe("no options".into());
        Ok(())
    });
    ctx.finish()
}
