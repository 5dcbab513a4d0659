//! C32: deserialising untrusted bytes yields an error or an object of exactly the shape the
//! parameters call for; valid objects survive; nothing panics or allocates beyond its limit.
use parasol_runtime::fluent::*;
use parasol_runtime::safe_bincode::{deserialize, GetSize};
use parasol_runtime::*;
use serde::{de::DeserializeOwned, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use sunscreen_tfhe::entities::{Polynomial, PolynomialRef};
use sunscreen_tfhe::{rand::Stddev, *};
use vover::toy::radix;
use vover::*;

type R<T> = std::result::Result<T, Fail>;

/// Counts what the current thread allocates.
struct Counting;
thread_local! {
    static NOW: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn grown(by: isize) {
    let _ = NOW.try_with(|n| {
        n.set(n.get() + by);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n.get())));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grown(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grown(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grown(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grown(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn watch<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = NOW.with(|n| n.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - before).max(0) as usize)
}

/// The parts of a serialised object, as its documentation and the parameters define them.
#[derive(Clone, Debug, PartialEq)]
enum Part {
    /// A sequence of `n` elements of `size` bytes each, after its length.
    Seq { n: u64, size: usize },
    /// A bare length, of the sequences that follow.
    Len(u64),
    /// A number of bits, at least and at most.
    Bits(u32, u32),
}
#[derive(Debug, PartialEq)]
enum Verdict {
    Good(usize),
    Short,
    Bad(String),
}
fn check(parts: &[Part], data: &[u8]) -> Verdict {
    let mut at = 0;
    for (i, p) in parts.iter().enumerate() {
        let w = if matches!(p, Part::Bits(..)) { 4 } else { 8 };
        if data.len() < at + w {
            return Verdict::Short;
        }
        let mut b = [0u8; 8];
        b[..w].copy_from_slice(&data[at..at + w]);
        let v = u64::from_le_bytes(b);
        at += w;
        match p {
            Part::Bits(lo, hi) => {
                if v < *lo as u64 || v > *hi as u64 {
                    return Verdict::Bad(format!("part {i} says {v} bits rather than {lo} to {hi}"));
                }
            }
            Part::Len(n) => {
                if v != *n {
                    return Verdict::Bad(format!("part {i} announces {v} parts rather than {n}"));
                }
            }
            Part::Seq { n, size } => {
                if v != *n {
                    return Verdict::Bad(format!("part {i} has length {v} rather than {n}"));
                }
                let l = *n as usize * size;
                if data.len() < at + l {
                    return Verdict::Short;
                }
                at += l;
            }
        }
    }
    Verdict::Good(at)
}
/// Where the length fields are in the serialisation of an object with these parts.
fn headers(parts: &[Part]) -> Vec<(usize, usize)> {
    let mut at = 0;
    let mut out = vec![];
    for p in parts {
        let (w, l) = match p {
            Part::Bits(..) => (4, 0),
            Part::Len(_) => (8, 0),
            Part::Seq { n, size } => (8, *n as usize * size),
        };
        out.push((at, w));
        at += w + l;
    }
    out
}

struct Env {
    p: Params,
    enc: Encryption,
}
fn env(rng: &mut Rng) -> Env {
    let mut p = Params::default();
    p.l0_params.dim = LweDimension(1 + rng.usize(9));
    p.l0_params.std = Stddev(1.0e-16);
    p.l1_params.dim = GlweDimension { size: GlweSize(if rng.chance(3, 4) { 1 } else { 1 + rng.usize(3) }), polynomial_degree: PolynomialDegree(16 << rng.usize(4)) };
    p.l1_params.std = Stddev(1.0e-16);
    p.cbs_radix = radix(1 + rng.usize(4), 1 + rng.usize(8));
    p.pbs_radix = radix(1 + rng.usize(3), 1 + rng.usize(12));
    p.ks_radix = radix(1 + rng.usize(5), 1 + rng.usize(5));
    p.ss_radix = radix(1 + rng.usize(4), 1 + rng.usize(8));
    p.tr_radix = radix(1 + rng.usize(4), 1 + rng.usize(8));
    Env { enc: Encryption::new(&p), p }
}
impl Env {
    fn n(&self) -> u64 {
        self.p.l1_params.dim.polynomial_degree.0 as u64
    }
    fn k(&self) -> u64 {
        self.p.l1_params.dim.size.0 as u64
    }
    fn l0(&self) -> Part {
        Part::Seq { n: self.p.l0_params.dim.0 as u64 + 1, size: 8 }
    }
    fn l1(&self) -> Part {
        Part::Seq { n: self.n() * self.k() + 1, size: 8 }
    }
    fn glwe(&self) -> Part {
        Part::Seq { n: self.n() * (self.k() + 1), size: 8 }
    }
    fn glev(&self) -> Part {
        Part::Seq { n: self.n() * (self.k() + 1) * self.p.cbs_radix.count.0 as u64, size: 8 }
    }
    /// The keys: (bootstrap, keyswitch, automorphism, scheme switch) element counts.
    fn keys(&self) -> [u64; 4] {
        let (n, k) = (self.n(), self.k());
        let l0 = self.p.l0_params.dim.0 as u64;
        let glev = |c: u64| (k + 1) * n * c;
        [
            l0 * (k + 1) * glev(self.p.pbs_radix.count.0 as u64),
            n * k * (l0 + 1) * self.p.ks_radix.count.0 as u64,
            n.ilog2() as u64 * k * glev(self.p.tr_radix.count.0 as u64),
            (k * (k + 1)) / 2 * glev(self.p.ss_radix.count.0 as u64),
        ]
    }
}

/// What one kind of object needs: an instance, its parts and how it is used afterwards.
struct Kind {
    name: &'static str,
    parts: Vec<Part>,
    valid: Vec<u8>,
    /// deserialises; on success serialises what came out again, after using it
    read: Box<dyn Fn(&Env, &[u8]) -> std::result::Result<Vec<u8>, String>>,
    limit: usize,
}
fn kind<T: GetSize + Serialize + DeserializeOwned + 'static>(e: &Env, name: &'static str, parts: Vec<Part>, x: &T, with: impl Fn(&Env, &T) + 'static) -> Kind {
    Kind {
        name,
        parts,
        valid: bincode::serialize(x).unwrap(),
        limit: T::get_size(&e.p),
        read: Box::new(move |e, data| match deserialize::<T>(data, &e.p) {
            Err(x) => Err(format!("{x}")),
            Ok(t) => {
                if let Err(x) = t.check_is_valid(&e.p) {
                    return Ok(format!("not valid: {x}").into_bytes());
                }
                with(e, &t);
                Ok(bincode::serialize(&t).unwrap())
            }
        }),
    }
}

const KINDS: usize = 22;
fn make(e: &Env, which: usize, rng: &mut Rng) -> Kind {
    let (p, enc) = (&e.p, &e.enc);
    let sk = SecretKey::generate(p);
    let bits = |n: usize, rng: &mut Rng| Polynomial::new(&(0..n).map(|_| rng.below(2)).collect::<Vec<u64>>());
    let poly = bits(e.n() as usize, rng);
    let s = sk.clone();
    let one_poly = e.k() == 1;
    match which {
        0 => kind(e, "L0LweCiphertext", vec![e.l0()], &enc.encrypt_lwe_l0_secret(rng.bool(), &sk), move |e, x| drop(e.enc.decrypt_lwe_l0(x, &s))),
        1 => kind(e, "L1LweCiphertext", vec![e.l1()], &enc.encrypt_lwe_l1_secret(rng.bool(), &sk), move |e, x| drop(e.enc.decrypt_lwe_l1(x, &s))),
        2 => kind(e, "L1GlweCiphertext", vec![e.glwe()], &enc.encrypt_glwe_l1_secret(&poly, &sk), move |e, x| drop(e.enc.decrypt_glwe_l1(x, &s))),
        3 => kind(e, "L1GlevCiphertext", vec![e.glev()], &enc.encrypt_glev_l1_secret(&poly, &sk), move |e, x| drop(e.enc.decrypt_glev_l1(x, &s))),
        4 if one_poly => {
            let pp = poly.clone();
            kind(e, "PublicKey", vec![Part::Seq { n: 2 * e.n(), size: 8 }], &PublicKey::generate(p, &sk), move |e, x| drop(e.enc.encrypt_rlwe_l1(&pp, x)))
        }
        5 => {
            let c = enc.encrypt_glwe_l1_secret(&poly, &sk);
            kind(e, "SecretKey", vec![Part::Seq { n: p.l0_params.dim.0 as u64, size: 8 }, Part::Seq { n: e.n() * e.k(), size: 8 }], &sk, move |e, x| {
                drop(e.enc.decrypt_glwe_l1(&c, x));
                drop(e.enc.encrypt_lwe_l0_secret(true, x));
            })
        }
        6 => {
            let [b, k, a, s] = e.keys();
            let x = ComputeKeyNonFft::generate(&sk, p);
            kind(e, "ComputeKeyNonFft", [b, k, a, s].iter().map(|n| Part::Seq { n: *n, size: 8 }).collect(), &x, |e, x| drop(x.fft(&e.p)))
        }
        7 => {
            let [b, k, a, s] = e.keys();
            let x = ComputeKey::generate(&sk, p);
            let seq = |n: u64, size: usize| Part::Seq { n, size };
            let lwe = enc.encrypt_lwe_l1_secret(true, &sk);
            kind(e, "ComputeKey", vec![seq(b / 2, 16), seq(k, 8), seq(s / 2, 16), seq(a / 2, 16)], &x, move |e, x| {
                let eval = Evaluation::new(std::sync::Arc::new(x.clone()), &e.p, &e.enc);
                let mut out = e.enc.allocate_lwe_l0();
                eval.keyswitch_lwe_l1_lwe_l0(&mut out, &lwe);
            })
        }
        8 if one_poly => {
            let pk = PublicKey::generate(p, &sk);
            let c = enc.encrypt_glwe_l1_secret(&poly, &sk);
            let eval = KeylessEvaluation::new(p, enc);
            kind(e, "PublicOneTimePad", vec![e.glwe()], &generate_one_time_pad(p, enc, &pk).0, move |e, x| drop(recrypt_one_time_pad(&c, x, &eval, &e.enc)))
        }
        9 if one_poly => {
            let pk = PublicKey::generate(p, &sk);
            let pp = poly.clone();
            kind(e, "SecretOneTimePad", vec![Part::Seq { n: e.n(), size: 8 }], &generate_one_time_pad(p, enc, &pk).1, move |_, x| drop(decrypt_one_time_pad(&pp, x)))
        }
        10 => kind(e, "Bit<L0Lwe>", vec![e.l0()], &Bit::<L0LweCiphertext>::encrypt_secret(rng.bool(), enc, &sk), move |e, x| drop(x.decrypt(&e.enc, &s))),
        11 => kind(e, "Bit<L1Lwe>", vec![e.l1()], &Bit::<L1LweCiphertext>::encrypt_secret(rng.bool(), enc, &sk), move |e, x| drop(x.decrypt(&e.enc, &s))),
        12 => kind(e, "Bit<L1Glwe>", vec![e.glwe()], &Bit::<L1GlweCiphertext>::encrypt_secret(rng.bool(), enc, &sk), move |e, x| drop(x.decrypt(&e.enc, &s))),
        13 => kind(e, "Bit<L1Glev>", vec![e.glev()], &Bit::<L1GlevCiphertext>::encrypt_secret(rng.bool(), enc, &sk), move |e, x| drop(x.decrypt(&e.enc, &s))),
        14 => int::<8, L0LweCiphertext, Unsigned>(e, "UInt8<L0Lwe>", e.l0(), rng.below(256) as u128, &sk),
        15 => int::<16, L1LweCiphertext, Signed>(e, "Int16<L1Lwe>", e.l1(), -(rng.below(256) as i128), &sk),
        16 => int::<8, L1GlweCiphertext, Unsigned>(e, "UInt8<L1Glwe>", e.glwe(), rng.below(256) as u128, &sk),
        17 => int::<3, L1GlevCiphertext, Signed>(e, "Int3<L1Glev>", e.glev(), 3 - rng.below(8) as i128, &sk),
        18 if one_poly => packed::<8, Unsigned>(e, "PackedUInt8", rng.below(256) as u128, &sk),
        19 if one_poly => packed::<13, Signed>(e, "PackedInt13", rng.below(256) as i128, &sk),
        20 if one_poly => packed_dyn::<Unsigned>(e, "PackedDynamicUInt", 1, &sk, rng),
        21 if one_poly => packed_dyn::<Signed>(e, "PackedDynamicInt", 0, &sk, rng),
        _ => make(e, rng.usize(4), rng),
    }
}
fn int<const N: usize, T: CiphertextOps + Serialize + DeserializeOwned + 'static, U: Sign + Serialize + DeserializeOwned + 'static>(e: &Env, name: &'static str, part: Part, v: U::PlaintextType, sk: &SecretKey) -> Kind {
    let mut parts = vec![Part::Len(N as u64)];
    parts.extend((0..N).map(|_| part.clone()));
    let s = sk.clone();
    kind(e, name, parts, &GenericInt::<N, T, U>::encrypt_secret(v, &e.enc, sk), move |e, x| {
        x.decrypt(&e.enc, &s);
        // the type promises this number of bits
        if x.bits.len() != N {
            panic!("an integer of {N} bits holds {}", x.bits.len());
        }
    })
}
fn packed<const N: usize, U: Sign + Serialize + DeserializeOwned + 'static>(e: &Env, name: &'static str, v: U::PlaintextType, sk: &SecretKey) -> Kind {
    let pk = PublicKey::generate(&e.p, sk);
    let s = sk.clone();
    kind(e, name, vec![Part::Bits(N as u32, N as u32), e.glwe()], &PackedGenericInt::<N, L1GlweCiphertext, U>::encrypt(v, &e.enc, &pk), move |e, x| {
        x.decrypt(&e.enc, &s);
        let ctx = FheCircuitCtx::new();
        x.graph_input(&ctx).unpack(&ctx);
    })
}
fn packed_dyn<U: Sign + Serialize + DeserializeOwned + 'static>(e: &Env, name: &'static str, v: U::PlaintextType, sk: &SecretKey, rng: &mut Rng) -> Kind {
    let pk = PublicKey::generate(&e.p, sk);
    let s = sk.clone();
    let n = 2 + rng.usize(e.n() as usize - 3);
    kind(e, name, vec![Part::Bits(0, e.n() as u32 - 1), e.glwe()], &PackedDynamicGenericInt::<L1GlweCiphertext, U>::encrypt(v, &e.enc, &pk, n), move |e, x| {
        let ctx = FheCircuitCtx::new();
        x.graph_input(&ctx).unpack(&ctx);
        x.decrypt(&e.enc, &s);
    })
}

fn judge(c: &mut Case, e: &Env, k: &Kind, data: &[u8], how: &str) -> R<bool> {
    let expect = check(&k.parts, data);
    let (r, peak) = watch(|| quiet_catch(|| (k.read)(e, data)));
    let what = || format!("{} under {:?} {:?}: {} bytes, {how}", k.name, e.p.l0_params.dim, e.p.l1_params.dim, data.len());
    let r = match r {
        Err(m) => fail!("{}: reading or using it panics: {m}; it should be {expect:?}", what()),
        Ok(r) => r,
    };
    c.evals += 1;
    c.max("peak-bytes", peak as f64);
    match (&expect, &r) {
        (Verdict::Good(n), Ok(out)) => {
            if out[..] != data[..*n] {
                fail!("{}: what was read is written back differently ({} bytes)", what(), out.len());
            }
        }
        (Verdict::Good(n), Err(m)) => {
            // bytes after the end of an object are tolerated rather than promised to be
            if *n == data.len() {
                fail!("{}: refused ({m}) though it fits the parameters", what());
            }
        }
        (bad, Ok(_)) => fail!("{}: accepted though it is {bad:?}", what()),
        (_, Err(_)) => {
            let bound = 4 * k.limit + (6 << 20);
            if peak > bound {
                fail!("{}: refused after allocating {peak} bytes, limit {}", what(), k.limit);
            }
        }
    }
    Ok(r.is_ok())
}

fn survive(c: &mut Case) -> Res {
    let e = env(&mut c.rng);
    for w in 0..KINDS {
        let k = make(&e, w, &mut c.rng);
        if check(&k.parts, &k.valid) != Verdict::Good(k.valid.len()) {
            fail!("{} serialises to {} bytes which are {:?}", k.name, k.valid.len(), check(&k.parts, &k.valid));
        }
        if k.limit < k.valid.len() {
            fail!("{} says it takes up {} bytes and takes up {}", k.name, k.limit, k.valid.len());
        }
        judge(c, &e, &k, &k.valid.clone(), "as serialised")?;
        c.key(w as u64);
        c.count("objects", 1);
    }
    Ok(())
}

fn mutate(rng: &mut Rng, k: &Kind, other: &[u8]) -> (Vec<u8>, String) {
    let mut d = k.valid.clone();
    let heads = headers(&k.parts);
    match rng.usize(9) {
        0 => {
            let n = rng.usize(d.len());
            d.truncate(n);
            (d, "truncated".into())
        }
        1 => {
            let n = 1 + rng.usize(40);
            d.truncate(d.len().saturating_sub(n));
            (d, format!("without its last {n} bytes"))
        }
        2 => {
            let n = 1 + rng.usize(64);
            d.extend((0..n).map(|_| rng.u64() as u8));
            (d, format!("and {n} more"))
        }
        3 | 4 => {
            // a wrong length
            let (at, w) = if rng.bool() { heads[rng.usize(heads.len().min(4))] } else { heads[rng.usize(heads.len())] };
            let mut b = [0u8; 8];
            b[..w].copy_from_slice(&d[at..at + w]);
            let v = u64::from_le_bytes(b);
            let x = match rng.usize(8) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => 0,
                3 => u64::MAX >> rng.usize(40),
                4 => v.wrapping_add(1 << 32).max(rng.u64() >> 16),
                5 => v ^ 1 << rng.usize(8 * w),
                6 => v / 2,
                _ => rng.edge(64),
            };
            d[at..at + w].copy_from_slice(&x.to_le_bytes()[..w]);
            (d, format!("length at {at} changed from {v} to {x}"))
        }
        5 => {
            // a wrong length with the data to go with it
            let i = if rng.bool() { 0 } else { rng.usize(k.parts.len()) };
            let (at, w) = heads[i];
            let mut b = [0u8; 8];
            b[..w].copy_from_slice(&d[at..at + w]);
            let v = u64::from_le_bytes(b);
            match &k.parts[i] {
                Part::Seq { size, .. } => {
                    let (x, l) = if rng.bool() { (v - 1, v as usize * size) } else { (v + 1, v as usize * size) };
                    d[at..at + 8].copy_from_slice(&x.to_le_bytes());
                    let end = at + 8 + l;
                    if x < v {
                        d.drain(end - size..end);
                    } else {
                        let fill = vec![rng.u64() as u8; *size];
                        d.splice(end..end, fill);
                    }
                }
                Part::Len(n) => {
                    // fewer parts, consistently
                    let keep = rng.usize(*n as usize);
                    d[at..at + 8].copy_from_slice(&(keep as u64).to_le_bytes());
                    if heads.len() > 1 + keep {
                        d.truncate(heads[1 + keep].0);
                    }
                }
                Part::Bits(_, hi) => {
                    let x = match rng.usize(4) {
                        0 => hi + 1,
                        1 => rng.u32(),
                        2 => u32::MAX,
                        _ => rng.below(2 * *hi as u64) as u32,
                    };
                    d[at..at + 4].copy_from_slice(&x.to_le_bytes());
                }
            }
            (d, format!("part {i} consistently of another length"))
        }
        6 => {
            for _ in 0..1 + rng.usize(8) {
                let i = rng.usize(d.len());
                d[i] = rng.u64() as u8;
            }
            (d, "with random bytes in it".into())
        }
        7 => (other.to_vec(), "of something else".into()),
        _ => {
            let n = rng.usize(2 * d.len().min(4000));
            ((0..n).map(|_| rng.u64() as u8).collect(), "random".into())
        }
    }
}

fn hostile(c: &mut Case) -> Res {
    let e = env(&mut c.rng);
    let w = c.rng.usize(KINDS);
    let k = make(&e, w, &mut c.rng);
    for _ in 0..if c.quick { 24 } else { 40 } {
        let o = c.rng.usize(KINDS);
        // key generation dominates otherwise
        let other = if c.rng.chance(1, 6) && (c.rng.chance(1, 8) || ![6, 7].contains(&o)) {
            let f = if c.rng.bool() { env(&mut c.rng) } else { Env { p: e.p.clone(), enc: e.enc.clone() } };
            make(&f, o, &mut c.rng).valid
        } else {
            // the same bytes seen through parameters that differ
            k.valid[k.valid.len() / 2..].to_vec()
        };
        let (d, how) = mutate(&mut c.rng, &k, &other);
        let ok = judge(c, &e, &k, &d, &how)?;
        c.count(if ok { "accepted" } else { "refused" }, 1);
        c.key(hash_u64s(&[w as u64, hash_bytes(how.split(|x: char| x.is_ascii_digit()).next().unwrap().as_bytes()), ok as u64]));
    }
    Ok(())
}
/// Objects made under other parameters are refused unless the shapes coincide.
fn foreign(c: &mut Case) -> Res {
    let e = env(&mut c.rng);
    let w = c.rng.usize(KINDS);
    let k = make(&e, w, &mut c.rng);
    for _ in 0..6 {
        let mut f = Env { p: e.p.clone(), enc: e.enc.clone() };
        match c.rng.usize(8) {
            0 => f.p.l0_params.dim.0 += 1,
            1 => f.p.l1_params.dim.polynomial_degree.0 *= 2,
            2 => f.p.l1_params.dim.polynomial_degree.0 /= if f.p.l1_params.dim.polynomial_degree.0 > 16 { 2 } else { 1 },
            3 => f.p.cbs_radix.count.0 += 1,
            4 => f.p.pbs_radix.count.0 += 1,
            5 => f.p.ks_radix.count.0 += 1,
            6 => f.p.ss_radix.count.0 += 1,
            _ => f.p.tr_radix.count.0 += 1,
        }
        f.enc = Encryption::new(&f.p);
        let o = make(&f, w, &mut c.rng);
        if o.name != k.name {
            continue;
        }
        let ok = judge(c, &e, &k, &o.valid, "made under other parameters")?;
        c.key(hash_u64s(&[w as u64, ok as u64]));
        c.count(if ok { "accepted" } else { "refused" }, 1);
    }
    Ok(())
}
fn main() {
    let _: fn(&PolynomialRef<u64>) = |_| ();
    let mut c = Ctx::new("C32");
    c.section("valid objects survive", 2000, 20000, survive);
    c.section("hostile bytes", 40000, 600000, hostile);
    c.section("objects of other parameters", 8000, 100000, foreign);
    c.finish();
}
