//! C35: memory gives back what was written where it is mapped and refuses everything else, calls
//! pass arguments and return values unchanged however often they happen, and programs load from
//! ELF files byte by byte.
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::register_names::{RP, SP};
use parasol_cpu::tomasulo::registers::RegisterName;
use parasol_cpu::{Allocation, Arg, ArgsBuilder, Byte, Error, Extend, FheComputer, Memory, MemoryConfigBuilder, Ptr32, Register, RunProgramOptionsBuilder, ToArg, Word};
use parasol_runtime::fluent::*;
use parasol_runtime::L1GlweCiphertext;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vover::toy::{keys, Keys};
use vover::*;

type R<T> = std::result::Result<T, Fail>;
type E8 = UInt<8, L1GlweCiphertext>;
/// A byte and whether it is encrypted.
type B = (u8, bool);
const PAGE: u64 = 4096;

fn x(i: usize) -> RegisterName<Register> {
    RegisterName::new(i)
}

/// What memory should hold: bytes of the mapped pages.
#[derive(Clone, Default)]
struct Model {
    pages: BTreeMap<u64, BTreeMap<u64, B>>,
}
impl Model {
    fn map(&mut self, at: u64, len: u64) {
        for p in at / PAGE..=(at + len - 1) / PAGE {
            self.pages.entry(p).or_default();
        }
    }
    fn mapped(&self, at: u64, len: u64) -> bool {
        len == 0 || (at + len <= 1 << 32 && (at / PAGE..=(at + len - 1) / PAGE).all(|p| self.pages.contains_key(&p)))
    }
    fn get(&self, at: u64) -> B {
        *self.pages[&(at / PAGE)].get(&at).unwrap_or(&(0, false))
    }
    /// A plain byte of the page at `at`.
    fn plain_byte(&self, at: u64) -> Option<u64> {
        (at..at + PAGE).find(|a| !self.get(*a).1)
    }
    fn put(&mut self, at: u64, b: B) {
        self.pages.get_mut(&(at / PAGE)).unwrap().insert(at, b);
    }
}

/// Opens the bytes of a value.
fn open(k: &Keys, bytes: &[Byte]) -> R<Vec<B>> {
    bytes
        .iter()
        .map(|b| {
            Ok(match b.clone() {
                Byte::Plaintext(v) => (v, false),
                b => {
                    let mut v = 0u8;
                    for (i, ct) in b.unwrap_ciphertext().iter().enumerate() {
                        let m = k.enc.decrypt_glwe_l1(&ct.borrow(), &k.sk).coeffs()[0];
                        if m > 1 {
                            fail!("bit {i} decrypts to {m}");
                        }
                        v |= (m as u8) << i;
                    }
                    (v, true)
                }
            })
        })
        .collect()
}
/// A user's type whose size is no multiple of its alignment.
#[derive(Clone, Debug, PartialEq)]
struct Odd(u32, u16);
impl ToArg for Odd {
    fn alignment() -> usize {
        4
    }
    fn size() -> usize {
        6
    }
    fn to_bytes(&self) -> Vec<Byte> {
        self.0.to_le_bytes().into_iter().chain(self.1.to_le_bytes()).map(Byte::from).collect()
    }
    fn try_from_bytes(d: Vec<Byte>) -> parasol_cpu::Result<Self> {
        if d.len() != 6 {
            return Err(Error::TypeSizeMismatch);
        }
        let b = d.into_iter().map(|b| if b.is_plaintext() { Ok(b.unwrap_plaintext()) } else { Err(Error::EncryptionMismatch) }).collect::<parasol_cpu::Result<Vec<u8>>>()?;
        Ok(Odd(u32::from_le_bytes(b[..4].try_into().unwrap()), u16::from_le_bytes(b[4..].try_into().unwrap())))
    }
}

/// Kinds of values: the layout is written down here and not taken from the library.
trait Kind: ToArg {
    const NAME: &'static str;
    const ALIGN: u64;
    /// bytes that carry data, by offset; the rest is padding
    fn layout() -> Vec<u64>;
    const SIZE: u64;
    const ENC: bool;
    fn make(c: &mut Case, k: &Keys) -> (Self, Vec<u8>);
    fn data(&self, k: &Keys) -> Vec<u8>;
}
macro_rules! plain_kind {
    ($($t:ty),*) => {$(
        impl Kind for $t {
            const NAME: &'static str = stringify!($t);
            const ALIGN: u64 = (<$t>::BITS / 8) as u64;
            const SIZE: u64 = (<$t>::BITS / 8) as u64;
            const ENC: bool = false;
            fn layout() -> Vec<u64> { (0..Self::SIZE).collect() }
            fn make(c: &mut Case, _: &Keys) -> (Self, Vec<u8>) {
                let v = if c.rng.chance(1, 6) { c.rng.pick(&[0, 1, <$t>::MAX, <$t>::MIN]) } else { c.rng.u128() as $t };
                (v, v.to_le_bytes().to_vec())
            }
            fn data(&self, _: &Keys) -> Vec<u8> { self.to_le_bytes().to_vec() }
        }
    )*};
}
plain_kind!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
macro_rules! enc_kind {
    ($($n:literal $u:ident),*) => {$(
        impl Kind for $u<$n, L1GlweCiphertext> {
            const NAME: &'static str = concat!(stringify!($u), stringify!($n));
            const ALIGN: u64 = $n / 8;
            const SIZE: u64 = $n / 8;
            const ENC: bool = true;
            fn layout() -> Vec<u64> { (0..Self::SIZE).collect() }
            fn make(c: &mut Case, k: &Keys) -> (Self, Vec<u8>) {
                let v = c.rng.u128() & (u128::MAX >> (128 - $n));
                let bytes = v.to_le_bytes()[..$n / 8].to_vec();
                // signed values by sign extension
                (enc_kind!(@enc $u $n v k), bytes)
            }
            fn data(&self, k: &Keys) -> Vec<u8> {
                (self.decrypt(&k.enc, &k.sk) as u128).to_le_bytes()[..$n / 8].to_vec()
            }
        }
    )*};
    (@enc UInt $n:literal $v:ident $k:ident) => { UInt::<$n, L1GlweCiphertext>::encrypt_secret($v, &$k.enc, &$k.sk) };
    (@enc Int $n:literal $v:ident $k:ident) => { Int::<$n, L1GlweCiphertext>::encrypt_secret((($v << (128 - $n)) as i128) >> (128 - $n), &$k.enc, &$k.sk) };
}
enc_kind!(8 UInt, 16 UInt, 32 UInt, 64 UInt, 128 UInt, 8 Int, 16 Int, 32 Int);
impl<T: Kind, const N: usize> Kind for [T; N] {
    const NAME: &'static str = T::NAME;
    const ALIGN: u64 = T::ALIGN;
    const SIZE: u64 = (T::SIZE + T::ALIGN - 1) / T::ALIGN * T::ALIGN * N as u64;
    const ENC: bool = T::ENC;
    fn layout() -> Vec<u64> {
        (0..N as u64).flat_map(|i| T::layout().into_iter().map(move |j| i * (Self::SIZE / N as u64) + j)).collect()
    }
    fn make(c: &mut Case, k: &Keys) -> (Self, Vec<u8>) {
        let mut all = vec![];
        let v = std::array::from_fn(|_| {
            let (v, b) = T::make(c, k);
            all.extend(b);
            v
        });
        (v, all)
    }
    fn data(&self, k: &Keys) -> Vec<u8> {
        self.iter().flat_map(|v| v.data(k)).collect()
    }
}
impl Kind for Odd {
    const NAME: &'static str = "a type of 6 bytes";
    const ALIGN: u64 = 4;
    const SIZE: u64 = 6;
    const ENC: bool = false;
    fn layout() -> Vec<u64> {
        (0..6).collect()
    }
    fn make(c: &mut Case, _: &Keys) -> (Self, Vec<u8>) {
        let v = Odd(c.rng.u32(), c.rng.u32() as u16);
        (v.clone(), v.data(keys()))
    }
    fn data(&self, _: &Keys) -> Vec<u8> {
        self.0.to_le_bytes().into_iter().chain(self.1.to_le_bytes()).collect()
    }
}
impl Kind for () {
    const NAME: &'static str = "nothing";
    const ALIGN: u64 = 1;
    const SIZE: u64 = 0;
    const ENC: bool = false;
    fn layout() -> Vec<u64> {
        vec![]
    }
    fn make(_: &mut Case, _: &Keys) -> (Self, Vec<u8>) {
        ((), vec![])
    }
    fn data(&self, _: &Keys) -> Vec<u8> {
        vec![]
    }
}
/// Calls `$f::<T>` for the `$i`th kind.
macro_rules! with_kind {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match $i {
            0 => $f::<u8>($($a),*), 1 => $f::<u16>($($a),*), 2 => $f::<u32>($($a),*), 3 => $f::<u64>($($a),*), 4 => $f::<u128>($($a),*),
            5 => $f::<i8>($($a),*), 6 => $f::<i16>($($a),*), 7 => $f::<i32>($($a),*), 8 => $f::<i64>($($a),*), 9 => $f::<i128>($($a),*),
            10 => $f::<[u8; 5]>($($a),*), 11 => $f::<[u16; 3]>($($a),*), 12 => $f::<[u32; 7]>($($a),*), 13 => $f::<[[u8; 3]; 3]>($($a),*), 14 => $f::<[u128; 2]>($($a),*),
            15 => $f::<Odd>($($a),*), 16 => $f::<[Odd; 3]>($($a),*), 17 => $f::<[i64; 1]>($($a),*), 18 => $f::<()>($($a),*),
            19 => $f::<UInt<8, L1GlweCiphertext>>($($a),*), 20 => $f::<UInt<16, L1GlweCiphertext>>($($a),*), 21 => $f::<UInt<32, L1GlweCiphertext>>($($a),*), 22 => $f::<Int<8, L1GlweCiphertext>>($($a),*), 23 => $f::<Int<16, L1GlweCiphertext>>($($a),*),
            24 => $f::<[UInt<8, L1GlweCiphertext>; 3]>($($a),*), 25 => $f::<[Int<32, L1GlweCiphertext>; 2]>($($a),*), 26 => $f::<UInt<64, L1GlweCiphertext>>($($a),*),
            _ => $f::<UInt<128, L1GlweCiphertext>>($($a),*),
        }
    };
}
const KINDS: u64 = 28;

struct World {
    mem: Memory,
    model: Model,
    allocs: Vec<(u64, u64)>,
}
impl World {
    fn address(&self, c: &mut Case, align: u64) -> u64 {
        let (at, len) = self.allocs[c.rng.usize(self.allocs.len())];
        let end = (at + len + PAGE - 1) / PAGE * PAGE;
        let near = |c: &mut Case, v: u64| v.wrapping_add(c.rng.below(48)).wrapping_sub(24) & 0xffff_ffff;
        let a = match c.rng.below(12) {
            0 => near(c, end),
            1 => near(c, at),
            2 => near(c, at + PAGE),
            3 => near(c, 0),
            4 => c.rng.u32() as u64,
            5 => near(c, at + c.rng.clone().below(len)),
            _ => at + c.rng.below(len),
        };
        if c.rng.chance(3, 4) {
            a / align * align
        } else {
            a
        }
    }
}
fn write_one<T: Kind>(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let (v, bytes) = T::make(c, k);
    ck_eq!(c, (T::size() as u64, T::alignment() as u64), (T::SIZE, T::ALIGN), "size and alignment of {}", T::NAME);
    let at = w.address(c, T::ALIGN);
    let ok = at % T::ALIGN == 0 && w.model.mapped(at, T::SIZE);
    let r = w.mem.try_write_type(Ptr32::from(at as u32), &v);
    c.key(hash_u64s(&[T::SIZE, T::ALIGN, T::ENC as u64, at & (PAGE - 1), ok as u64]));
    c.count(if ok { "writes" } else { "writes refused" }, 1);
    if T::SIZE == 0 {
        ck!(c, r.is_ok() || !w.model.mapped(at, 1), "writing nothing at {at:#x} gives {r:?}");
        return Ok(());
    }
    ck!(c, r.is_ok() == ok, "writing {} of {} bytes at {at:#x} gives {r:?}; mapped {:?}", T::NAME, T::SIZE, w.allocs);
    if at % T::ALIGN != 0 {
        ck!(c, matches!(r, Err(Error::UnalignedAccess(_))), "an unaligned write at {at:#x} gives {r:?}");
    }
    if ok {
        for (j, b) in T::layout().into_iter().zip(bytes) {
            w.model.put(at + j, (b, T::ENC));
        }
        // padding may be anything of the same kind
        for j in (0..T::SIZE).filter(|j| !T::layout().contains(j)) {
            let got = open(k, &[peek(&w.mem, at + j)?])?[0];
            w.model.put(at + j, got);
        }
    }
    Ok(())
}
/// One byte of memory, plain or encrypted.
fn peek(mem: &Memory, at: u64) -> R<Byte> {
    let p = Ptr32::from(at as u32);
    if let Ok(v) = mem.try_load_type::<u8>(p) {
        return Ok(Byte::from(v));
    }
    match mem.try_load_type::<E8>(p) {
        Ok(v) => Ok(v.to_bytes().remove(0)),
        Err(e) => fail!("mapped byte {at:#x} cannot be read: {e:?}"),
    }
}
fn read_one<T: Kind>(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let at = w.address(c, T::ALIGN);
    let there = at % T::ALIGN == 0 && w.model.mapped(at, T::SIZE);
    // whoever reads elements does not look at padding
    let ok = there && T::layout().iter().all(|j| w.model.get(at + j).1 == T::ENC);
    let r = w.mem.try_load_type::<T>(Ptr32::from(at as u32));
    c.key(hash_u64s(&[T::SIZE, T::ALIGN, T::ENC as u64, at & (PAGE - 1), ok as u64, 1]));
    c.count(if ok { "reads" } else { "reads refused" }, 1);
    if T::SIZE == 0 {
        return Ok(());
    }
    match r {
        Ok(v) => {
            ck!(c, ok, "reading {} of {} bytes at {at:#x} works; mapped {:?}", T::NAME, T::SIZE, w.allocs);
            let want: Vec<u8> = T::layout().iter().map(|j| w.model.get(at + j).0).collect();
            ck_eq!(c, v.data(k), want, "{} read at {at:#x}", T::NAME);
        }
        Err(e) => {
            ck!(c, !ok, "reading {} of {} bytes at {at:#x} gives {e:?}; mapped {:?}", T::NAME, T::SIZE, w.allocs);
            if at % T::ALIGN != 0 {
                ck!(c, matches!(e, Error::UnalignedAccess(_)), "an unaligned read at {at:#x} gives {e:?}");
            } else if !there {
                ck!(c, matches!(e, Error::AccessViolation(_) | Error::PointerOverflow), "an unmapped read at {at:#x} gives {e:?}");
            }
        }
    }
    Ok(())
}
fn write_dyn(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let n = c.rng.pick(&[8usize, 16, 32, 64]);
    let v = c.rng.u128() & (u128::MAX >> (128 - n));
    let at = w.address(c, n as u64 / 8);
    let ok = at % (n as u64 / 8) == 0 && w.model.mapped(at, n as u64 / 8);
    let p = Ptr32::from(at as u32);
    let r = if c.rng.bool() {
        w.mem.try_write_type_dyn(p, &DynamicUInt::<L1GlweCiphertext>::encrypt_secret(v, &k.enc, &k.sk, n))
    } else {
        let s = ((v << (128 - n)) as i128) >> (128 - n);
        w.mem.try_write_type_dyn(p, &DynamicInt::<L1GlweCiphertext>::encrypt_secret(s, &k.enc, &k.sk, n))
    };
    ck!(c, r.is_ok() == ok, "writing {n} encrypted bits at {at:#x} gives {r:?}; mapped {:?}", w.allocs);
    if ok {
        for j in 0..n / 8 {
            w.model.put(at + j as u64, (v.to_le_bytes()[j], true));
        }
        let back = w.mem.try_load_type_dyn::<DynamicUInt<L1GlweCiphertext>>(p, n / 8, n / 8);
        match back {
            Ok(b) => ck_eq!(c, b.decrypt(&k.enc, &k.sk), v, "{n} encrypted bits at {at:#x}"),
            Err(e) => fail!("{n} encrypted bits written at {at:#x} cannot be read: {e:?}"),
        }
    }
    Ok(())
}
fn allocate(c: &mut Case, w: &mut World) -> Res {
    let len = match c.rng.below(8) {
        0 => 0,
        1 => c.rng.range(1, 4) as u32 * PAGE as u32,
        2 => c.rng.range(1, 4) as u32 * PAGE as u32 + 1,
        3 => u32::MAX - c.rng.below(2 * PAGE) as u32,
        _ => c.rng.range(1, 3 * PAGE) as u32,
    };
    let r = w.mem.try_allocate(len);
    if len == 0 {
        ck!(c, r.is_err(), "allocating nothing gives {r:?}");
        return Ok(());
    }
    if len > 0xffff_0000 {
        ck!(c, r.is_err(), "allocating {len:#x} bytes gives {r:?}");
        return Ok(());
    }
    let Ok(p) = r else { fail!("allocating {len:#x} bytes gives {r:?}") };
    let at = u32::from(p) as u64;
    ck!(c, at >= PAGE && at % 16 == 0, "memory allocated at {at:#x}");
    for i in 0..(len as u64 + PAGE - 1) / PAGE {
        ck!(c, !w.model.mapped(at + i * PAGE, 1), "{len:#x} bytes allocated at {at:#x} overlap {:?}", w.allocs);
    }
    w.model.map(at, len as u64);
    w.allocs.push((at, len as u64));
    c.count("allocations", 1);
    Ok(())
}
/// Memory that was just allocated for `len` bytes.
fn allocated(c: &mut Case, w: &mut World, p: Ptr32, len: u64) -> R<u64> {
    let at = u32::from(p) as u64;
    ck!(c, at >= PAGE && at % 16 == 0, "memory allocated at {at:#x}");
    for i in 0..(len + PAGE - 1) / PAGE {
        ck!(c, !w.model.mapped(at + i * PAGE, 1), "{len:#x} bytes allocated at {at:#x} overlap {:?}", w.allocs);
    }
    w.model.map(at, len);
    w.allocs.push((at, len));
    Ok(at)
}
fn allocate_one<T: Kind>(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let (v, bytes) = T::make(c, k);
    let r = w.mem.try_allocate_type(&v);
    if T::SIZE == 0 {
        ck!(c, r.is_err(), "allocating nothing gives {r:?}");
        return Ok(());
    }
    let Ok(p) = r else { fail!("allocating {} gives {r:?}", T::NAME) };
    let at = allocated(c, w, p, T::SIZE)?;
    for (j, b) in T::layout().into_iter().zip(bytes) {
        w.model.put(at + j, (b, T::ENC));
    }
    for j in (0..T::SIZE).filter(|j| !T::layout().contains(j)) {
        let got = open(k, &[peek(&w.mem, at + j)?])?[0];
        w.model.put(at + j, got);
    }
    c.count("values allocated", 1);
    Ok(())
}
fn allocate_dyn(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let n = c.rng.pick(&[8usize, 16, 32, 64]);
    let v = c.rng.u128() & (u128::MAX >> (128 - n));
    let s = ((v << (128 - n)) as i128) >> (128 - n);
    let signed = c.rng.bool();
    let r = if signed {
        w.mem.try_allocate_type_dyn(&DynamicInt::<L1GlweCiphertext>::encrypt_secret(s, &k.enc, &k.sk, n))
    } else {
        w.mem.try_allocate_type_dyn(&DynamicUInt::<L1GlweCiphertext>::encrypt_secret(v, &k.enc, &k.sk, n))
    };
    let Ok(p) = r else { fail!("allocating {n} encrypted bits gives {r:?}") };
    let at = allocated(c, w, p, n as u64 / 8)?;
    for j in 0..n / 8 {
        w.model.put(at + j as u64, (v.to_le_bytes()[j], true));
    }
    match w.mem.try_load_type_dyn::<DynamicInt<L1GlweCiphertext>>(p, n / 8, n / 8) {
        Ok(b) => ck_eq!(c, b.decrypt(&k.enc, &k.sk), s, "{n} signed bits at {at:#x}"),
        Err(e) => fail!("{n} signed bits written at {at:#x} cannot be read: {e:?}"),
    }
    let plain = w.model.plain_byte(w.allocs[0].0);
    if let Some(a) = plain {
        ck!(c, w.mem.try_load_type_dyn::<DynamicUInt<L1GlweCiphertext>>(Ptr32::from(a as u32), 1, 1).is_err(), "a plain byte at {a:#x} is read as encrypted");
        ck!(c, w.mem.try_load_type_dyn::<DynamicInt<L1GlweCiphertext>>(Ptr32::from(a as u32), 1, 1).is_err(), "a plain byte at {a:#x} is read as encrypted");
    }
    c.count("values allocated", 1);
    Ok(())
}
/// Several objects in as few allocations as possible.
fn pieces(c: &mut Case, w: &mut World) -> Res {
    let mut cur: Option<Allocation> = None;
    let mut placed: Vec<(u64, u64)> = vec![];
    // the allocation in use, and how much of it is taken
    let mut room: Option<(u64, u64, u64)> = None;
    for _ in 0..c.rng.range(2, 12) {
        let align = 1u32 << if c.rng.bool() { c.rng.below(5) } else { c.rng.below(13) };
        let len = if c.rng.chance(1, 6) { c.rng.range(1, 3 * PAGE) } else { c.rng.range(1, 300) };
        let (next, p) = match Allocation::try_allocate(cur.take(), &w.mem, len as u32, align) {
            Ok(x) => x,
            Err(e) => fail!("allocating {len} bytes aligned to {align} gives {e:?}"),
        };
        cur = Some(next);
        let at = u32::from(p) as u64;
        ck!(c, at % align as u64 == 0, "{len} bytes aligned to {align} are at {at:#x}");
        for (a, l) in &placed {
            ck!(c, at + len <= *a || a + l <= at, "{len} bytes at {at:#x} overlap {l} at {a:#x}");
        }
        if !placed.iter().any(|(a, l)| at / PAGE >= a / PAGE && at / PAGE <= (a + l - 1) / PAGE) && !w.model.mapped(at, 1) {
            ck!(c, at % PAGE == 0, "a new allocation is at {at:#x}");
            allocated(c, w, p, len)?;
            if let Some((base, size, free)) = room {
                let from = (free + align as u64 - 1) / align as u64 * align as u64;
                ck!(c, from + len > size, "{len} bytes aligned to {align} got an allocation of their own at {at:#x}; {size} bytes at {base:#x} are free from {from}");
            }
            room = Some((at, (len + PAGE - 1) / PAGE * PAGE, len));
            c.count("allocations of pieces", 1);
        } else if let Some((base, size, free)) = &mut room {
            ck!(c, at >= *base && at + len <= *base + *size, "{len} bytes are at {at:#x} which belongs to another than the allocation of {size} bytes at {base:#x}");
            *free = at - *base + len;
        } else {
            fail!("{len} bytes are at {at:#x} where other memory is");
        }
        ck!(c, w.model.mapped(at, len), "{len} bytes at {at:#x} aren't within an allocation; {:?}", w.allocs);
        placed.push((at, len));
        for i in 0..len.min(64) {
            let b = c.rng.u32() as u8;
            ck!(c, w.mem.try_write_type(Ptr32::from((at + i) as u32), &b).is_ok(), "byte {i} of a piece at {at:#x} cannot be written");
            w.model.put(at + i, (b, false));
        }
        c.count("pieces", 1);
    }
    Ok(())
}
/// Pushes onto the stack.
fn push(c: &mut Case, k: &Keys, w: &mut World) -> Res {
    let before = u32::from(w.mem.stack_ptr()) as u64;
    let align = c.rng.pick(&[1u64, 1, 2, 4, 8, 16, 32]);
    let len = match c.rng.below(10) {
        0 => 0,
        1 => c.rng.range(3000, 5000),
        _ => c.rng.range(1, 40),
    };
    let bytes: Vec<B> = (0..len).map(|_| (c.rng.u32() as u8, len < 8 && c.rng.chance(1, 6))).collect();
    let arg = Arg { alignment: align as usize, bytes: bytes.iter().map(|b| if b.1 { E8::encrypt_secret(b.0 as u128, &k.enc, &k.sk).to_bytes().remove(0) } else { Byte::from(b.0) }).collect() };
    let want = (before - len) / align * align;
    let r = w.mem.try_push_arg_onto_stack(&arg);
    let after = u32::from(w.mem.stack_ptr()) as u64;
    c.key(hash_u64s(&[before % 32, align, len]));
    if w.model.mapped(want, len) {
        let Ok(p) = r else { fail!("pushing {len} bytes aligned to {align} onto a stack at {before:#x} gives {r:?}") };
        ck!(c, u32::from(p) as u64 == want && after == want, "{len} bytes aligned to {align} pushed onto a stack at {before:#x} are at {:#x} and the stack is at {after:#x}, expected {want:#x}", u32::from(p));
        // padding above what was pushed
        for a in want + len..before {
            w.model.put(a, open(k, &[peek(&w.mem, a)?])?[0]);
        }
        for (j, b) in bytes.iter().enumerate() {
            w.model.put(want + j as u64, *b);
        }
        c.count("pushes", 1);
    } else {
        ck!(c, r.is_err(), "pushing {len} bytes onto a stack at {before:#x} with {:#x} left works", before - 0x8000_0000);
        ck_eq!(c, after, before, "stack pointer after a push that failed");
        // what was below the stack is undefined now
        let low = want.max(0x8000_0000);
        for a in low..before {
            let b = open(k, &[peek(&w.mem, a)?])?[0];
            w.model.put(a, b);
        }
    }
    Ok(())
}
fn history(c: &mut Case) -> Res {
    let k = keys();
    let mut w = World { mem: Memory::new_default_stack(), model: Model::default(), allocs: vec![(0x8000_0000, PAGE)] };
    w.model.map(0x8000_0000, PAGE);
    let sp = u32::from(w.mem.stack_ptr()) as u64;
    ck_eq!(c, sp, 0x8000_1000u64, "stack of new memory");
    for _ in 0..c.rng.range(20, 120) {
        match c.rng.below(20) {
            0 => allocate(c, &mut w)?,
            1 => match c.rng.below(6) {
                0 | 1 => allocate(c, &mut w)?,
                2 => allocate_dyn(c, k, &mut w)?,
                3 => pieces(c, &mut w)?,
                _ => {
                    let i = if c.rng.chance(1, 4) { c.rng.range(19, KINDS - 1) } else { c.rng.below(19) };
                    with_kind!(i, allocate_one(c, k, &mut w))?
                }
            },
            2 => push(c, k, &mut w)?,
            3 => write_dyn(c, k, &mut w)?,
            4 => {
                // ranges
                let at = w.address(c, 1);
                let len = c.rng.pick(&[0u64, 1, 2, 7, 100, PAGE, PAGE + 1, 2 * PAGE, 1 << 31, 0xffff_ffff]);
                let r = w.mem.check_range_is_mapped(Ptr32::from(at as u32), len as u32);
                if len > 0 {
                    ck!(c, r.is_ok() == w.model.mapped(at, len), "{len:#x} bytes at {at:#x} mapped: {r:?}, mapped are {:?}", w.allocs);
                }
            }
            5 => {
                let at = w.address(c, 1);
                let d = c.rng.irange(-5000, 5000);
                let r = Ptr32::from(at as u32).try_signed_offset(d as i32).map(u32::from).ok();
                let want = at as i64 + d;
                ck_eq!(c, r, u32::try_from(want).ok(), "{at:#x} offset by {d}");
                let d = c.rng.pick(&[0u32, 1, 100, u32::MAX, 1 << 31]);
                ck_eq!(c, Ptr32::from(at as u32).try_offset(d).map(u32::from).ok(), (at as u32).checked_add(d), "{at:#x} offset by {d}");
            }
            6..=12 => {
                let i = if c.rng.chance(1, 4) { c.rng.range(19, KINDS - 1) } else { c.rng.below(19) };
                with_kind!(i, write_one(c, k, &mut w))?
            }
            _ => {
                let i = if c.rng.chance(1, 4) { c.rng.range(19, KINDS - 1) } else { c.rng.below(19) };
                with_kind!(i, read_one(c, k, &mut w))?
            }
        }
    }
    // everything that is there
    let all: Vec<(u64, B)> = w.model.pages.values().flat_map(|p| p.iter().map(|(a, b)| (*a, *b))).collect();
    for (a, b) in all {
        let got = open(k, &[peek(&w.mem, a)?])?[0];
        ck!(c, got == b, "byte {a:#x} is {got:x?} at the end, expected {b:x?}; mapped {:?}", w.allocs);
    }
    c.count("bytes compared at the end", w.model.pages.values().map(|p| p.len() as u64).sum());
    Ok(())
}

// ---------------------------------------------------------------- calls
thread_local! {
    static PC: RefCell<Option<FheComputer>> = const { RefCell::new(None) };
}
fn with_pc<T>(f: impl FnOnce(&mut FheComputer) -> T) -> T {
    let k = keys();
    let mut pc = PC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| FheComputer::new_with_threadpool(&k.enc, &k.eval, Arc::new(rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap())));
    let r = f(&mut pc);
    PC.with(|p| *p.borrow_mut() = Some(pc));
    r
}
struct Placed {
    at: u64,
    kind: u64,
    bytes: Vec<u8>,
    layout: Vec<u64>,
    size: u64,
}
fn add_arg<T: Kind>(c: &mut Case, k: &Keys, a: ArgsBuilder, kind: u64, off: &mut u64, placed: &mut Vec<Placed>) -> ArgsBuilder {
    let (v, bytes) = T::make(c, k);
    *off = (*off + T::ALIGN - 1) / T::ALIGN * T::ALIGN;
    placed.push(Placed { at: *off, kind, bytes, layout: T::layout(), size: T::SIZE });
    *off += T::SIZE;
    a.arg(v)
}
/// An argument whose width is known at run time only.
fn add_dyn(c: &mut Case, k: &Keys, a: ArgsBuilder, kind: u64, off: &mut u64, placed: &mut Vec<Placed>) -> ArgsBuilder {
    let n = [8usize, 16, 32, 8, 16][kind as usize - 19];
    let v = c.rng.u128() & (u128::MAX >> (128 - n));
    let size = n as u64 / 8;
    *off = (*off + size - 1) / size * size;
    placed.push(Placed { at: *off, kind, bytes: v.to_le_bytes()[..n / 8].to_vec(), layout: (0..size).collect(), size });
    *off += size;
    if kind < 22 {
        a.arg_dyn(DynamicUInt::<L1GlweCiphertext>::encrypt_secret(v, &k.enc, &k.sk, n))
    } else {
        a.arg_dyn(DynamicInt::<L1GlweCiphertext>::encrypt_secret(((v << (128 - n)) as i128) >> (128 - n), &k.enc, &k.sk, n))
    }
}
type Shown = Arc<Mutex<Vec<u128>>>;
fn call<T: Kind>(c: &mut Case, k: &Keys, mem: &Arc<Memory>, args: ArgsBuilder, placed: &[Placed], off: u64, from: usize, fault: bool) -> Res {
    use IsaOp::*;
    let p = &placed[from];
    assert_eq!(p.size, T::SIZE);
    // copies its argument to the return value in pieces as wide as it may
    let mut code = vec![];
    let mut j = 0;
    while j < T::SIZE {
        let wd = (1..=T::ALIGN.min(16)).rev().find(|w| w.is_power_of_two() && j % w == 0 && j + w <= T::SIZE).unwrap();
        code.push(Load(x(20), SP, 8 * wd as u32, (p.at + j) as i32));
        code.push(Store(RP, x(20), 8 * wd as u32, j as i32));
        j += wd;
    }
    // something on the stack of the function
    code.push(Store(SP, SP, 32, -16));
    code.push(Dbg(SP, 0));
    code.push(Dbg(RP, 0));
    if fault {
        code.extend([LoadI(x(21), 0xdead_0000, 32), Load(x(20), x(21), 8, 0)]);
    }
    code.push(Ret());
    let prog = mem.allocate_program(&code);
    let before = mem.stack_ptr();
    let shown: Shown = Default::default();
    let s = shown.clone();
    let options = RunProgramOptionsBuilder::new()
        .debug_handler(move |_, _, r| {
            if let Register::Plaintext { val, .. } = r {
                s.lock().unwrap().push(*val)
            }
        })
        .build();
    let data = args.return_value::<T>();
    let r = with_pc(|pc| pc.run_program_with_options(prog, mem, data, &options));
    ck!(c, mem.stack_ptr() == before, "the stack is at {:#x} after a call and was at {:#x} before", u32::from(mem.stack_ptr()), u32::from(before));
    c.key(hash_u64s(&placed.iter().map(|p| p.kind).chain([from as u64, u32::from(before) as u64 % 64]).collect::<Vec<_>>()));
    if fault {
        ck!(c, r.is_err(), "no error from a program that faults");
        c.count("calls that fault", 1);
        return Ok(());
    }
    let desc = || format!("returning argument {from} of the kinds {:?} from a stack at {:#x}", placed.iter().map(|p| p.kind).collect::<Vec<_>>(), u32::from(before));
    let v = match r {
        Ok((_, v)) => v,
        Err(e) => fail!("{e:?} from {}", desc()),
    };
    ck_eq!(c, v.data(k), p.bytes, "{}", desc());
    let shown = shown.lock().unwrap().clone();
    let (sp, rp) = (shown[0] as u64, shown[1] as u64);
    ck!(c, sp % 16 == 0, "the function's stack is at {sp:#x}; {}", desc());
    if T::SIZE > 0 {
        ck!(c, rp % T::ALIGN == 0 && rp >= sp + off && rp + T::SIZE <= u32::from(before) as u64, "the return value of {} bytes aligned to {} is at {rp:#x}, arguments are at {sp:#x} to {:#x}; {}", T::SIZE, T::ALIGN, sp + off, desc());
    }
    c.count("calls", 1);
    Ok(())
}
fn calls(c: &mut Case) -> Res {
    let k = keys();
    let mem = Arc::new(Memory::new_default_stack());
    // data of the caller
    let mine: Vec<u8> = (0..c.rng.below(40)).map(|_| c.rng.u32() as u8).collect();
    let align = c.rng.pick(&[1usize, 4, 16]);
    let own = match mem.try_push_arg_onto_stack(&Arg { alignment: align, bytes: mine.iter().map(|b| Byte::from(*b)).collect() }) {
        Ok(p) => p,
        Err(e) => fail!("pushing {} bytes gives {e:?}", mine.len()),
    };
    for _ in 0..c.rng.range(10, 60) {
        let n = c.rng.range(1, 6) as usize;
        let from = c.rng.usize(n);
        let mut args = ArgsBuilder::new();
        let mut off = 0;
        let mut placed = vec![];
        for _ in 0..n {
            let i = if c.rng.chance(1, 5) { c.rng.range(19, KINDS - 3) } else { c.rng.below(19) };
            if (19..24).contains(&i) && c.rng.bool() {
                args = add_dyn(c, k, args, i, &mut off, &mut placed);
                continue;
            }
            args = with_kind!(i, add_arg(c, k, args, i, &mut off, &mut placed));
        }
        if c.rng.chance(1, 40) {
            // more than the stack holds
            let before = mem.stack_ptr();
            let args = args.arg([0u64; 600]);
            let r = with_pc(|pc| pc.run_program(Ptr32::from(0x8000_0000), &mem, args.return_value::<u32>()));
            ck!(c, r.is_err(), "arguments beyond the stack are accepted");
            ck!(c, mem.stack_ptr() == before, "the stack moved in a call that failed");
            continue;
        }
        let fault = c.rng.chance(1, 10);
        with_kind!(placed[from].kind, call(c, k, &mem, args, &placed, off, from, fault))?;
    }
    for (i, b) in mine.iter().enumerate() {
        let at = u32::from(own) + i as u32;
        ck_eq!(c, mem.try_load_type::<u8>(Ptr32::from(at)).ok(), Some(*b), "byte {at:#x} of the caller after calls");
    }
    Ok(())
}

// ---------------------------------------------------------------- words
fn words(c: &mut Case) -> Res {
    let k = keys();
    let n = c.rng.below(6) as usize;
    let enc = c.rng.bool();
    let mixed = n > 1 && c.rng.chance(1, 5);
    let v: Vec<B> = (0..n).map(|i| (c.rng.u32() as u8, enc ^ (mixed && i == n - 1))).collect();
    let bytes: Vec<Byte> = v.iter().map(|b| if b.1 { E8::encrypt_secret(b.0 as u128, &k.enc, &k.sk).to_bytes().remove(0) } else { Byte::from(b.0) }).collect();
    let signed = c.rng.bool();
    c.key(hash_u64s(&[n as u64, enc as u64, mixed as u64, signed as u64, v.iter().fold(0, |a, b| a << 8 | b.0 as u64)]));
    let r = Word::try_from_bytes(&bytes, if signed { Extend::Signed } else { Extend::Zero }, &k.enc);
    if n > 4 || mixed {
        ck!(c, r.is_err(), "a word of {n} bytes, mixed: {mixed}");
        return Ok(());
    }
    let Ok(w) = r else { fail!("no word from {v:x?}") };
    let fill = if signed && n > 0 && v[n - 1].0 & 0x80 != 0 { 0xff } else { 0 };
    let e = n > 0 && enc;
    let want: Vec<B> = (0..4).map(|i| if i < n { v[i] } else { (fill, e) }).collect();
    ck_eq!(c, open(k, &w.0)?, want, "word of {v:x?}, signed: {signed}");
    ck!(c, E8::try_from_bytes(vec![Byte::from(1)]).is_err() && u8::try_from_bytes(E8::encrypt_secret(1, &k.enc, &k.sk).to_bytes()).is_err(), "bytes of the other kind are accepted");
    Ok(())
}

// ---------------------------------------------------------------- ELF files
struct Seg {
    kind: u32,
    at: u64,
    file: Vec<u8>,
    size: u64,
}
struct Elf {
    bytes: Vec<u8>,
    segs: Vec<Seg>,
    syms: Vec<(String, u32, bool)>,
    /// offset of the program headers
    ph: usize,
}
fn elf(c: &mut Case) -> Elf {
    let nseg = c.rng.below(5) as usize;
    let mut segs: Vec<Seg> = vec![];
    for i in 0..nseg {
        let len = match c.rng.below(5) {
            0 => 0,
            1 => PAGE,
            _ => c.rng.range(1, 6000),
        };
        let base = 0x10000 * (i as u64 + 1) + 0x100000 * c.rng.below(4) * 16;
        // ends at the end of a page now and then
        let at = if c.rng.chance(1, 4) { base + 3 * PAGE - len.min(3 * PAGE) } else { base + c.rng.below(PAGE) };
        let size = len + if c.rng.bool() { c.rng.below(5000) } else { 0 };
        let fill = |c: &mut Case| (c.rng.u32() as u8) | 1;
        let file = (0..len).map(|_| fill(c)).collect();
        segs.push(Seg { kind: c.rng.pick(&[1, 1, 1, 1, 2, 6, 0x6474e551]), at, file, size });
    }
    let nsym = c.rng.below(5) as usize;
    let syms: Vec<(String, u32, bool)> = (0..nsym).map(|i| (format!("f{i}{}", "x".repeat(c.rng.below(20) as usize)), c.rng.u32(), c.rng.chance(3, 4))).collect();
    let ph = 52 + c.rng.below(20) as usize * 4;
    let mut body = vec![0u8; ph + 32 * nseg];
    let mut offs = vec![];
    for s in &segs {
        body.extend(vec![0xccu8; c.rng.below(9) as usize]);
        offs.push(body.len());
        body.extend(&s.file);
    }
    let mut strs = vec![0u8];
    let mut symtab = vec![0u8; 16];
    for (n, v, f) in &syms {
        let at = strs.len() as u32;
        strs.extend(n.as_bytes());
        strs.push(0);
        symtab.extend(at.to_le_bytes());
        symtab.extend(v.to_le_bytes());
        symtab.extend(0u32.to_le_bytes());
        symtab.push(0x10 | if *f { 2 } else { 1 });
        symtab.push(0);
        symtab.extend(1u16.to_le_bytes());
    }
    while body.len() % 4 != 0 {
        body.push(0);
    }
    let symoff = body.len() as u32;
    body.extend(&symtab);
    let stroff = body.len() as u32;
    body.extend(&strs);
    while body.len() % 4 != 0 {
        body.push(0);
    }
    let sh = body.len() as u32;
    body.extend([0u8; 40]);
    for (ty, off, size, link, info, ent) in [(2u32, symoff, symtab.len() as u32, 2u32, 1u32, 16u32), (3, stroff, strs.len() as u32, 0, 0, 0)] {
        for w in [0, ty, 0, 0, off, size, link, info, 4, ent] {
            body.extend((w as u32).to_le_bytes());
        }
    }
    let mut h = vec![0x7f, b'E', b'L', b'F', 1, 1, 1, 0, 3, 0, 0, 0, 0, 0, 0, 0];
    h.extend(2u16.to_le_bytes());
    h.extend(0xf4u16.to_le_bytes());
    for w in [1u32, 0, if nseg > 0 { ph as u32 } else { 0 }, sh, 0] {
        h.extend(w.to_le_bytes());
    }
    for v in [52u16, 32, nseg as u16, 40, 3, 0] {
        h.extend(v.to_le_bytes());
    }
    body[..52].copy_from_slice(&h);
    for (i, (s, o)) in segs.iter().zip(&offs).enumerate() {
        let mut p = vec![];
        for w in [s.kind, *o as u32, s.at as u32, s.at as u32, s.file.len() as u32, s.size as u32, 7, 4] {
            p.extend(w.to_le_bytes());
        }
        body[ph + 32 * i..ph + 32 * (i + 1)].copy_from_slice(&p);
    }
    Elf { bytes: body, segs, syms, ph }
}
fn config(c: &mut Case) -> (u64, u64) {
    match c.rng.below(6) {
        0 => (0x9000_0000 + c.rng.below(10000), c.rng.range(1, 20000)),
        1 => (0x9000_0000, PAGE * c.rng.range(1, 4)),
        2 => (0xffff_f000, c.rng.pick(&[4095, 4096, 4097, 100, 0xffff_ffff])),
        3 => (0x9000_0000, 0),
        _ => (0xffff_8000, 0x4000),
    }
}
fn elves(c: &mut Case) -> Res {
    let e = elf(c);
    let (top, size) = config(c);
    let cfg = MemoryConfigBuilder::new().stack_top(Ptr32::from(top as u32)).stack_size(size as u32).build();
    c.key(hash_bytes(&e.bytes));
    let loads = || e.segs.iter().filter(|s| s.kind == 1 && s.size > 0);
    let r = match quiet_catch(|| Memory::new_from_elf_with_config(&e.bytes, &cfg)) {
        Ok(r) => r,
        Err(p) => fail!("loading an ELF file with a stack of {size:#x} at {top:#x} panics: {p}"),
    };
    if top + size >= 1 << 32 || size == 0 {
        ck!(c, r.is_err() || top + size == 1 << 32, "a stack of {size:#x} bytes at {top:#x} is accepted");
        c.count("stacks refused", 1);
        return Ok(());
    }
    if e.segs.is_empty() {
        // no segments at all is an error or an empty memory
        return Ok(());
    }
    let mem = match r {
        Ok(m) => m,
        Err(er) => fail!("loading a valid file with segments {:x?} and a stack of {size:#x} at {top:#x} gives {er:?}", e.segs.iter().map(|s| (s.kind, s.at, s.size)).collect::<Vec<_>>()),
    };
    let mut m = Model::default();
    m.map(top, size);
    ck_eq!(c, u32::from(mem.stack_ptr()) as u64, top + size, "stack");
    for s in loads() {
        m.map(s.at, s.size);
        for (i, b) in s.file.iter().enumerate().take(s.size as usize) {
            m.put(s.at + i as u64, (*b, false));
        }
    }
    for s in loads() {
        for _ in 0..40 {
            let a = (s.at - 40 + c.rng.below(s.size + 80)) & 0xffff_ffff;
            let got = mem.try_load_type::<u8>(Ptr32::from(a as u32)).ok();
            ck_eq!(c, got, m.mapped(a, 1).then(|| m.get(a).0), "byte {a:#x} of a segment of {:#x} bytes at {:#x}", s.size, s.at);
        }
        // ends of pages
        let end = (s.at + s.size + PAGE - 1) / PAGE * PAGE;
        for a in [s.at / PAGE * PAGE - 1, s.at / PAGE * PAGE, end - 1, end] {
            let got = mem.try_load_type::<u8>(Ptr32::from(a as u32)).ok();
            ck_eq!(c, got, m.mapped(a, 1).then(|| m.get(a).0), "byte {a:#x} by a segment of {:#x} bytes at {:#x}", s.size, s.at);
        }
        c.count("segments", 1);
    }
    for (n, v, f) in &e.syms {
        ck_eq!(c, mem.get_function_entry(n).map(u32::from), f.then_some(*v), "symbol {n}");
    }
    ck!(c, mem.get_function_entry("f9").is_none() && mem.get_function_entry("").is_none(), "a symbol that is not there");
    // pushes and programs work whatever the stack
    if size > 200 {
        let mem = Arc::new(mem);
        let code = [IsaOp::Load(x(20), SP, 32, 0), IsaOp::Store(RP, x(20), 32, 0), IsaOp::Ret()];
        let prog = mem.allocate_program(&code);
        let v = c.rng.u32();
        for _ in 0..3 {
            let r = with_pc(|pc| pc.run_program(prog, &mem, ArgsBuilder::new().arg(v).arg(1u8).return_value::<u32>()));
            match r {
                Ok(got) => ck_eq!(c, got, v, "value through a stack of {size:#x} bytes at {top:#x}"),
                Err(er) => fail!("a call with a stack of {size:#x} bytes at {top:#x} gives {er:?}"),
            }
        }
    }
    Ok(())
}
/// Damaged files are refused, or load; nothing else.
fn bad_elves(c: &mut Case) -> Res {
    let mut e = elf(c);
    let n = e.bytes.len();
    let fresh = e.bytes.clone();
    match c.rng.below(6) {
        0 => e.bytes.truncate(c.rng.below(n as u64) as usize),
        1 => {
            let i = c.rng.usize(52);
            e.bytes[i] = c.rng.u32() as u8;
        }
        2 => {
            for _ in 0..c.rng.range(1, 8) {
                let i = c.rng.usize(n);
                e.bytes[i] ^= 1 << c.rng.below(8);
            }
        }
        3 => {
            // section headers and symbols are at the end
            let i = n - 1 - c.rng.usize(n.min(300));
            e.bytes[i] = c.rng.pick(&[0, 0xff, 0x80, 1]);
        }
        4 if !e.segs.is_empty() => {
            let i = e.ph + 4 * c.rng.usize(8 * e.segs.len());
            let w = c.rng.pick(&[0u32, 1, 0xffff_ffff, 0xffff_f000, 0x8000_0000, 0x7fff_ffff, n as u32, n as u32 - 1]);
            e.bytes[i..i + 4].copy_from_slice(&w.to_le_bytes());
        }
        _ => {
            let i = 16 + 4 * c.rng.usize(9);
            let w = c.rng.pick(&[0u32, 1, 0xffff_ffff, 0xffff_f000, 0x8000_0000, 0x7fff_ffff, n as u32, n as u32 - 1]);
            e.bytes[i..i + 4].copy_from_slice(&w.to_le_bytes());
        }
    }
    // a file may ask for gigabytes of zeros, which would be given: keep segments small
    let word = |b: &[u8], i: usize| b.get(i..i + 4).map(|w| u32::from_le_bytes(w.try_into().unwrap()));
    let ph = word(&e.bytes, 28).unwrap_or(0) as usize;
    let cnt = e.bytes.get(44..46).map(|w| u16::from_le_bytes(w.try_into().unwrap())).unwrap_or(0) as usize;
    for i in 0..cnt {
        let at = ph.saturating_add(32 * i);
        match word(&e.bytes, at.saturating_add(20)) {
            Some(s) if s > 1 << 18 => e.bytes[at + 20..at + 24].copy_from_slice(&(s & 0x3ffff).to_le_bytes()),
            Some(_) => {}
            None => break,
        }
    }
    c.key(hash_bytes(&e.bytes));
    let r = match quiet_catch(|| Memory::new_from_elf(&e.bytes)) {
        Ok(r) => r,
        Err(p) => {
            let at: Vec<usize> = e.bytes.iter().zip(&fresh).enumerate().filter(|(_, (a, b))| a != b).map(|(i, _)| i).collect();
            fail!("loading a damaged file of {} bytes (was {n}, changed at {at:?}, program headers at {:#x}) panics: {p}", e.bytes.len(), e.ph)
        }
    };
    c.evals += 1;
    c.count(if r.is_ok() { "damaged files that load" } else { "damaged files refused" }, 1);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C35");
    ctx.section("histories of memory", 600, 12000, history);
    ctx.section("calls", 250, 5000, calls);
    ctx.section("words", 1000, 10000, words);
    ctx.section("files", 400, 6000, elves);
    ctx.section("damaged files", 2500, 60000, bad_elves);
    ctx.finish()
}
