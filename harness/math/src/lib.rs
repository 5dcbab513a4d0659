//! Oracles for sunscreen_math: exact integers.
pub use num_bigint::{BigInt, BigUint};
pub use sunscreen_math::ring::Uint;
pub use vcore::*;

pub fn big<const N: usize>(x: &Uint<N>) -> BigUint {
    let mut v = vec![];
    for w in x.as_words() {
        v.push(*w as u32);
        v.push((*w >> 32) as u32);
    }
    BigUint::new(v)
}

pub fn uint<const N: usize>(x: &BigUint) -> Uint<N> {
    let d = x.to_u64_digits();
    assert!(d.len() <= N);
    let mut w = [0u64; N];
    w[..d.len()].copy_from_slice(&d);
    Uint::from_words(w)
}

pub fn parse(s: &str) -> BigUint {
    match s.strip_prefix("0x") {
        Some(h) => BigUint::parse_bytes(h.as_bytes(), 16).unwrap(),
        None => BigUint::parse_bytes(s.as_bytes(), 10).unwrap(),
    }
}

/// a value below `2^bits` with interesting limbs
pub fn any_bits(rng: &mut Rng, bits: usize) -> BigUint {
    let mut v = vec![];
    let style = rng.below(4);
    for _ in 0..bits.div_ceil(32) {
        v.push(match style {
            0 => rng.u32(),
            1 => rng.pick(&[0, u32::MAX, 1, 1 << 31]),
            2 => u32::MAX,
            _ => {
                if rng.chance(1, 4) {
                    rng.u32()
                } else {
                    0
                }
            }
        });
    }
    BigUint::new(v) % (BigUint::from(1u32) << bits)
}

/// an element below q, edges included
pub fn any_mod(rng: &mut Rng, q: &BigUint) -> BigUint {
    let one = BigUint::from(1u32);
    let x = match rng.below(8) {
        0 => BigUint::from(rng.below(4)),
        1 => q - &one - BigUint::from(rng.below(3)) % q,
        2 => q / 2u32 + BigUint::from(rng.below(3)),
        3 => q / 2u32 + q - BigUint::from(rng.below(3)) % q,
        4 => &one << rng.usize(q.bits() as usize + 1),
        5 => BigUint::from(rng.u64()),
        _ => any_bits(rng, q.bits() as usize + 8),
    };
    x % q
}
