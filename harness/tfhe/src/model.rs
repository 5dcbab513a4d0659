//! Exact reference arithmetic on vectors of words modulo 2^BITS, written from the
//! definitions (schoolbook only, shares no code with the library).
use crate::*;

pub fn wmask(bits: u32) -> u64 {
    if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 }
}
/// signed representative of x mod 2^bits
pub fn signed(x: u64, bits: u32) -> i128 {
    let x = x & wmask(bits);
    if x >> (bits - 1) == 1 { x as i128 - (1i128 << bits) } else { x as i128 }
}
/// |x| on the torus
pub fn tabs(x: u64, bits: u32) -> u128 {
    signed(x, bits).unsigned_abs()
}
pub fn addv(a: &[u64], b: &[u64], m: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_add(*y) & m).collect()
}
pub fn subv(a: &[u64], b: &[u64], m: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| x.wrapping_sub(*y) & m).collect()
}
pub fn negv(a: &[u64], m: u64) -> Vec<u64> {
    a.iter().map(|x| x.wrapping_neg() & m).collect()
}
pub fn scalev(a: &[u64], s: u64, m: u64) -> Vec<u64> {
    a.iter().map(|x| x.wrapping_mul(s) & m).collect()
}
/// a*b in Z[X]/(X^n+1) mod 2^bits
pub fn negmul(a: &[u64], b: &[u64], m: u64) -> Vec<u64> {
    let n = a.len();
    assert_eq!(n, b.len());
    let mut c = vec![0u64; 2 * n];
    for i in 0..n {
        let x = a[i];
        if x == 0 {
            continue;
        }
        let d = &mut c[i..i + n];
        if x == 1 {
            for j in 0..n {
                d[j] = d[j].wrapping_add(b[j]);
            }
        } else {
            for j in 0..n {
                d[j] = d[j].wrapping_add(x.wrapping_mul(b[j]));
            }
        }
    }
    (0..n).map(|i| c[i].wrapping_sub(c[i + n]) & m).collect()
}
/// X^k * a, any k
pub fn monomial(a: &[u64], k: i64, m: u64) -> Vec<u64> {
    let n = a.len() as i64;
    let k = k.rem_euclid(2 * n);
    let mut c = vec![0u64; a.len()];
    for i in 0..n {
        let p = (i + k) % (2 * n);
        if p < n {
            c[p as usize] = a[i as usize];
        } else {
            c[(p - n) as usize] = a[i as usize].wrapping_neg() & m;
        }
    }
    c
}
/// a(X^k)
pub fn substitute(a: &[u64], k: u64, m: u64) -> Vec<u64> {
    let n = a.len() as u128;
    let mut c = vec![0u64; a.len()];
    for i in 0..n {
        let p = (i * k as u128) % (2 * n);
        let x = a[i as usize];
        if p < n {
            c[p as usize] = c[p as usize].wrapping_add(x) & m;
        } else {
            c[(p - n) as usize] = c[(p - n) as usize].wrapping_sub(x) & m;
        }
    }
    c
}
pub fn lwe_phase(ct: &[u64], s: &[u64], m: u64) -> u64 {
    assert_eq!(ct.len(), s.len() + 1);
    let mut p = ct[s.len()];
    for i in 0..s.len() {
        p = p.wrapping_sub(ct[i].wrapping_mul(s[i]));
    }
    p & m
}
/// sk: size*degree coefficients; ct: (size+1)*degree
pub fn glwe_phase(ct: &[u64], sk: &[u64], n: usize, m: u64) -> Vec<u64> {
    let k = sk.len() / n;
    assert_eq!(ct.len(), (k + 1) * n);
    let mut p = ct[k * n..].to_vec();
    for i in 0..k {
        let t = negmul(&sk[i * n..(i + 1) * n], &ct[i * n..(i + 1) * n], m);
        p = subv(&p, &t, m);
    }
    p
}
/// balanced digits, least significant first; the value they recompose to
pub struct Decomp {
    pub digits: Vec<i128>,
    pub value: u64,
}
pub fn decompose(x: u64, l: usize, b: usize, bits: u32) -> Decomp {
    let shift = bits as usize - l * b;
    let big = x as u128 & wmask(bits) as u128;
    let y = if shift == 0 { big } else { (big + (1u128 << (shift - 1))) >> shift };
    let mut cur = y & ((1u128 << (l * b)) - 1);
    let mut digits = vec![];
    let base = 1i128 << b;
    for _ in 0..l {
        let mut d = (cur & (base as u128 - 1)) as i128;
        cur >>= b;
        if d >= base / 2 {
            d -= base;
            cur += 1;
        }
        digits.push(d);
    }
    Decomp { digits, value: ((y << shift) as u64) & wmask(bits) }
}
pub fn maxdiff(a: &[u64], b: &[u64], bits: u32) -> u128 {
    a.iter().zip(b).map(|(x, y)| tabs(x.wrapping_sub(*y), bits)).max().unwrap_or(0)
}

/// q / B^(j+1)
pub fn gadget(j: usize, log: usize, bits: u32) -> u64 {
    let sh = bits as usize - log * (j + 1);
    if sh >= 64 { 0 } else { 1u64 << sh }
}
/// phases of a list of GLWE ciphertexts stored one after the other
pub fn phases(raw: &[u64], sk: &[u64], n: usize, m: u64) -> Vec<Vec<u64>> {
    let k = sk.len() / n;
    raw.chunks((k + 1) * n).map(|c| glwe_phase(c, sk, n, m)).collect()
}
/// an exact GLWE ciphertext of the given phase with masks taken from r
pub fn glwe_make(r: &mut Rng, phase: &[u64], sk: &[u64], m: u64) -> Vec<u64> {
    let n = phase.len();
    let k = sk.len() / n;
    let mut ct: Vec<u64> = (0..k * n).map(|_| r.u64() & m).collect();
    let mut b = phase.to_vec();
    for i in 0..k {
        b = addv(&b, &negmul(&sk[i * n..(i + 1) * n], &ct[i * n..(i + 1) * n], m), m);
    }
    ct.extend(b);
    ct
}
pub fn lwe_make(r: &mut Rng, phase: u64, sk: &[u64], m: u64) -> Vec<u64> {
    let mut ct: Vec<u64> = (0..sk.len()).map(|_| r.u64() & m).collect();
    let mut b = phase;
    for i in 0..sk.len() {
        b = b.wrapping_add(ct[i].wrapping_mul(sk[i]));
    }
    ct.push(b & m);
    ct
}
/// a GLEV of `msg` (all rows exact)
pub fn glev_make(r: &mut Rng, msg: &[u64], sk: &[u64], l: usize, b: usize, bits: u32) -> Vec<u64> {
    let m = wmask(bits);
    (0..l).flat_map(|j| glwe_make(r, &scalev(msg, gadget(j, b, bits), m), sk, m)).collect()
}
/// a GGSW of `msg` (all rows exact)
pub fn ggsw_make(r: &mut Rng, msg: &[u64], sk: &[u64], l: usize, b: usize, bits: u32) -> Vec<u64> {
    let (m, n) = (wmask(bits), msg.len());
    let k = sk.len() / n;
    let mut o = vec![];
    for i in 0..=k {
        let t = if i < k { negv(&negmul(msg, &sk[i * n..(i + 1) * n], m), m) } else { msg.to_vec() };
        o.extend(glev_make(r, &t, sk, l, b, bits));
    }
    o
}
/// every word rounded to the precision of a decomposition
pub fn round_to(v: &[u64], l: usize, b: usize, bits: u32) -> Vec<u64> {
    v.iter().map(|x| decompose(*x, l, b, bits).value).collect()
}
/// the LEV rows of an LWE keyswitch key, exact
pub fn lwe_ksk_make(r: &mut Rng, from: &[u64], to: &[u64], l: usize, b: usize, bits: u32) -> Vec<u64> {
    let m = wmask(bits);
    let mut o = vec![];
    for s in from {
        for j in 0..l {
            o.extend(lwe_make(r, s.wrapping_mul(gadget(j, b, bits)) & m, to, m));
        }
    }
    o
}
pub fn glwe_ksk_make(r: &mut Rng, from: &[u64], to: &[u64], n: usize, l: usize, b: usize, bits: u32) -> Vec<u64> {
    from.chunks(n).flat_map(|s| glev_make(r, s, to, l, b, bits)).collect()
}
