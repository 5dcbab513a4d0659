//! C29: what the derive macros generate. A crate that uses the macros on random inputs is written,
//! compiled with cargo and run; its output is compared with direct computation.
use num::Integer;
use std::collections::BTreeMap;
use std::fmt::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use vmath::*;

struct Cfg {
    q: BigUint,
    n: usize,
    text: String,
    field: Option<bool>,
    pairs: Vec<(BigUint, BigUint)>,
}

fn prime(q: &BigUint) -> bool {
    if q < &BigUint::from(4u32) {
        return *q > BigUint::from(1u32);
    }
    let one = BigUint::from(1u32);
    let m = q - &one;
    let s = m.trailing_zeros().unwrap();
    let d = &m >> s;
    if s == 0 {
        return false;
    }
    'o: for a in [2u32, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let a = BigUint::from(a);
        if q.is_multiple_of(&a) {
            return *q == a;
        }
        let mut x = a.modpow(&d, q);
        if x == one || x == m {
            continue;
        }
        for _ in 1..s {
            x = &x * &x % q;
            if x == m {
                continue 'o;
            }
        }
        return false;
    }
    true
}

fn gen_cfgs(rng: &mut Rng, count: usize) -> Vec<Cfg> {
    (0..count)
        .map(|i| {
            let n = match i % 4 {
                0 => 1,
                1 => 2,
                2 => 1 + rng.usize(4),
                _ => 1 + rng.usize(16),
            };
            let top = BigUint::from(1u32) << (64 * n - 1);
            let mut q = match rng.below(8) {
                0 => &top - BigUint::from(rng.below(4)),
                1 => BigUint::from(2 + rng.below(30)),
                2 => BigUint::from(1u32) << (1 + rng.usize(64 * n - 1)),
                3 => (BigUint::from(1u32) << (64 * rng.usize(n))) + BigUint::from(rng.below(3)),
                4 => BigUint::from(2u32 + rng.u32() / 2),
                _ => {
                    let b = 2 + rng.usize(64 * n - 2);
                    (BigUint::from(1u32) << (b - 1)) | any_bits(rng, b - 1)
                }
            };
            if q < BigUint::from(2u32) {
                q = BigUint::from(2u32);
            }
            if q > top {
                q = top.clone();
            }
            let mut field = rng.pick(&[None, Some(false)]);
            if rng.chance(1, 4) {
                // a prime
                let mut p = &q | BigUint::from(1u32);
                let mut k = 0;
                while !prime(&p) && k < 400 {
                    p -= BigUint::from(2u32).min(&p - BigUint::from(1u32));
                    k += 1;
                }
                if prime(&p) && p > BigUint::from(2u32) {
                    q = p;
                    field = Some(true);
                }
            }
            let text = match rng.below(5) {
                0 => format!("0x{q:x}"),
                1 => format!("0x{q:X}"),
                2 => format!("0x000{q:x}"),
                3 => format!("00{q}"),
                _ => q.to_string(),
            };
            let mut pairs = vec![(&q - 1u32, &q - 1u32), (&q - 1u32, BigUint::from(1u32) % &q), (&q / 2u32, &q / 2u32)];
            for _ in 0..5 {
                pairs.push((any_mod(rng, &q), any_mod(rng, &q)));
            }
            Cfg { q, n, text, field, pairs }
        })
        .collect()
}

fn limbs(x: &BigUint, n: usize) -> String {
    let mut d = x.to_u64_digits();
    d.resize(n, 0);
    format!("{d:?}")
}

fn ok_program(cfgs: &[Cfg]) -> String {
    let mut s = String::from(
        r#"use std::marker::PhantomData;
use sunscreen_math::{BarrettConfig, field::{Field, FieldConfig}, ring::{ArithmeticBackend, BarrettBackend, BarrettConfig as Config, RingModulus, Uint, Zq}};
struct P<T>(PhantomData<T>);
trait No { fn is_field(&self) -> bool { false } }
impl<T> No for P<T> {}
impl<T: FieldConfig> P<T> { fn is_field(&self) -> bool { true } }
fn show<const N: usize>(i: usize, what: &str, x: Uint<N>) { println!("{i} {what} {:?}", x.as_words()); }
fn consts<const N: usize, C: Config<N>>(i: usize) {
    show(i, "modulus", C::MODULUS); show(i, "half", C::MODULUS_DIV_2); show(i, "r", C::R); show(i, "s", C::S); show(i, "t", C::T);
    show(i, "backend modulus", <BarrettBackend<N, C> as ArithmeticBackend<N>>::MODULUS);
    show(i, "ring modulus", <Zq<N, BarrettBackend<N, C>> as RingModulus<N>>::field_modulus());
}
fn pair<const N: usize, C: Config<N>>(i: usize, j: usize, a: [u64; N], b: [u64; N]) {
    type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;
    let a = Z::<N, C>::try_from(Uint::from_words(a)).unwrap();
    let b = Z::<N, C>::try_from(Uint::from_words(b)).unwrap();
    show(i, &format!("mul{j}"), (a * b).into_bigint());
}
fn inv<const N: usize, C: Config<N> + FieldConfig>(i: usize, j: usize, a: [u64; N]) {
    let a = Zq::<N, BarrettBackend<N, C>>::try_from(Uint::from_words(a)).unwrap();
    show(i, &format!("inv{j}"), Field::inverse(&a).into_bigint());
}
"#,
    );
    for (i, c) in cfgs.iter().enumerate() {
        let f = match c.field {
            None => String::new(),
            Some(b) => format!(", is_field = {b}"),
        };
        writeln!(s, "#[derive(BarrettConfig)]\n#[barrett_config(modulus = \"{}\", num_limbs = {}{f})]\npub struct C{i};", c.text, c.n).unwrap();
        writeln!(s, "fn f{i}() {{ consts::<{}, C{i}>({i}); println!(\"{i} field {{}}\", P::<C{i}>(PhantomData).is_field());", c.n).unwrap();
        for (j, (a, b)) in c.pairs.iter().enumerate() {
            writeln!(s, "pair::<{}, C{i}>({i}, {j}, {}, {});", c.n, limbs(a, c.n), limbs(b, c.n)).unwrap();
            if c.field == Some(true) && *a != BigUint::ZERO {
                writeln!(s, "inv::<{}, C{i}>({i}, {j}, {});", c.n, limbs(a, c.n)).unwrap();
            }
        }
        s.push_str("}\n");
    }
    s.push_str("fn main() {\n");
    for i in 0..cfgs.len() {
        writeln!(s, "f{i}();").unwrap();
    }
    s.push_str("}\n");
    s
}

fn ok_expected(cfgs: &[Cfg]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let one = BigUint::from(1u32);
    for (i, c) in cfgs.iter().enumerate() {
        let q = &c.q;
        let b1 = &one << (64 * c.n);
        let b2 = &one << (128 * c.n);
        let r = &b1 / q;
        let mut put = |k: &str, v: &BigUint| m.insert(format!("{i} {k}"), limbs(v, c.n));
        put("modulus", q);
        put("backend modulus", q);
        put("ring modulus", q);
        put("half", &(q / 2u32));
        put("s", &(&b2 / q - &b1 * &r));
        put("t", &(&b1 - &r * q));
        put("r", &r);
        for (j, (a, b)) in c.pairs.iter().enumerate() {
            put(&format!("mul{j}"), &(a * b % q));
            if c.field == Some(true) && *a != BigUint::ZERO {
                put(&format!("inv{j}"), &a.modpow(&(q - 2u32), q));
            }
        }
        m.insert(format!("{i} field"), (c.field == Some(true)).to_string());
    }
    m
}

/// modulus, limbs (as written), why it must be refused
fn rejected(rng: &mut Rng) -> Vec<(String, String, &'static str)> {
    let one = BigUint::from(1u32);
    let mut v = vec![];
    for n in [1usize, 2, 3, 8] {
        let top = &one << (64 * n - 1);
        v.push((format!("{}", &top + 1u32), n.to_string(), "one above the largest modulus"));
        v.push((format!("0x{:x}", &one << (64 * n)), n.to_string(), "one limb too many"));
        v.push((format!("{}", &top + any_bits(rng, 64 * n - 1) + 1u32), n.to_string(), "too large"));
        v.push((format!("0x{:x}", (&top << (1 + rng.usize(200))) + any_bits(rng, 64 * n)), n.to_string(), "much too large"));
    }
    v.push(("".into(), "1".into(), "no modulus"));
    v.push(("abc".into(), "1".into(), "not a number"));
    v.push(("0xzz".into(), "1".into(), "not a number"));
    v.push(("12 34".into(), "1".into(), "not a number"));
    v.push(("0".into(), "1".into(), "zero"));
    v.push(("17".into(), "0".into(), "no limbs"));
    v
}

fn reject_program(q: &str, n: &str) -> String {
    format!("use sunscreen_math::BarrettConfig;\n#[derive(BarrettConfig)]\n#[barrett_config(modulus = \"{q}\", num_limbs = {n})]\npub struct C;\nfn main() {{}}\n")
}

const REFIFY: &str = r#"
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::{Add, BitXor as _, Mul, Rem, Sub};
use sunscreen_math::refify_binary_op;
thread_local! { static CALLS: Cell<u64> = const { Cell::new(0) }; }
fn called() { CALLS.with(|c| c.set(c.get() + 1)) }
#[derive(Clone, Debug, PartialEq)] struct A(i64);
#[derive(Clone, Debug, PartialEq)] struct B(i64);
#[refify_binary_op] impl Sub<&A> for &A { type Output = A; fn sub(self, rhs: &A) -> Self::Output { called(); A(self.0.wrapping_sub(rhs.0)) } }
#[refify_binary_op] impl Mul<&B> for &A { type Output = B; fn mul(self, rhs: &B) -> Self::Output { called(); B(self.0.wrapping_mul(3).wrapping_add(rhs.0)) } }
#[refify_binary_op] impl std::ops::BitXor<&A> for &B { type Output = String; fn bitxor(self, rhs: &A) -> Self::Output { called(); format!("{}^{}", self.0, rhs.0) } }
#[derive(Clone, Debug, PartialEq)] struct G<T>(Vec<T>);
#[refify_binary_op] impl<T> Add<&G<T>> for &G<T> where T: Clone + Debug { type Output = G<T>; fn add(self, rhs: &G<T>) -> Self::Output { called(); G(self.0.iter().chain(rhs.0.iter()).cloned().collect()) } }
#[refify_binary_op] impl<T> Rem<&T> for &G<T> where T: Clone + Debug + PartialEq { type Output = usize; fn rem(self, rhs: &T) -> Self::Output { called(); self.0.iter().filter(|x| *x == rhs).count() } }
#[derive(Clone, Debug, PartialEq)] struct M<const R: usize, const C: usize>([[i64; C]; R]);
#[refify_binary_op] impl<const R: usize, const C: usize, const D: usize> Mul<&M<C, D>> for &M<R, C> { type Output = M<R, D>; fn mul(self, rhs: &M<C, D>) -> Self::Output { called(); let mut o = [[0i64; D]; R]; for i in 0..R { for j in 0..D { for k in 0..C { o[i][j] = o[i][j].wrapping_add(self.0[i][k].wrapping_mul(rhs.0[k][j])); } } } M(o) } }
trait Combine<Rhs> { type Output; fn combine(self, rhs: Rhs) -> Self::Output; }
#[refify_binary_op] impl Combine<&B> for &B { type Output = (i64, i64); fn combine(self, rhs: &B) -> Self::Output { called(); (self.0, rhs.0) } }
macro_rules! forms { ($name:expr, $x:expr, $y:expr, $f:ident) => {{
    let (x, y) = (&$x, &$y);
    let before = CALLS.with(|c| c.get());
    println!("{} vv {:?}", $name, x.clone().$f(y.clone()));
    println!("{} vr {:?}", $name, x.clone().$f(y));
    println!("{} rv {:?}", $name, x.$f(y.clone()));
    println!("{} rr {:?}", $name, x.$f(y));
    println!("{} calls {}", $name, CALLS.with(|c| c.get()) - before);
}} }
fn main() {
    let mut a = std::env::args().skip(1).map(|x| x.parse::<i64>().unwrap());
    let mut n = || a.next().unwrap();
    let (p, q, r, s) = (n(), n(), n(), n());
    forms!("sub", A(p), A(q), sub);
    forms!("mul", A(p), B(r), mul);
    forms!("xor", B(r), A(s), bitxor);
    forms!("cat", G(vec![p, q]), G(vec![r, s, p]), add);
    forms!("cnt", G(vec![p, q, p]), p, rem);
    forms!("mat", M([[p, q], [r, s], [q, r]]), M([[s], [p]]), mul);
    forms!("pair", B(p), B(s), combine);
}
"#;

fn refify_expected(v: &[i64]) -> BTreeMap<String, String> {
    let (p, q, r, s) = (v[0], v[1], v[2], v[3]);
    let dot = |a: i64, b: i64| a.wrapping_mul(s).wrapping_add(b.wrapping_mul(p));
    let cnt = 2 + (p == q) as usize;
    let mut m = BTreeMap::new();
    for (n, w) in [
        ("sub", format!("A({})", p.wrapping_sub(q))),
        ("mul", format!("B({})", p.wrapping_mul(3).wrapping_add(r))),
        ("xor", format!("\"{r}^{s}\"")),
        ("cat", format!("G([{p}, {q}, {r}, {s}, {p}])")),
        ("cnt", cnt.to_string()),
        ("mat", format!("M([[{}], [{}], [{}]])", dot(p, q), dot(r, s), dot(q, r))),
        ("pair", format!("({p}, {s})")),
    ] {
        for f in ["vv", "vr", "rv", "rr"] {
            m.insert(format!("{n} {f}"), w.clone());
        }
        m.insert(format!("{n} calls"), "4".into());
    }
    m
}

const BYTES: &str = r#"
extern crate self as tfhe_cpu;
use parasol_cpu_macros::IntoBytes as Derive;
#[derive(Debug)] pub struct Error(pub String);
impl Error { pub fn buffer_size_mismatch() -> Self { Error("size".into()) } }
pub type Result<T> = std::result::Result<T, Error>;
pub trait IntoBytes: Sized { fn alignment() -> usize; fn size() -> usize; fn try_into_bytes(&self, data: &mut [u8]) -> Result<()>; fn try_from_bytes(data: &[u8]) -> Result<Self>; }
macro_rules! ints { ($($t:ty)*) => { $(impl IntoBytes for $t {
    fn alignment() -> usize { std::mem::size_of::<$t>() }
    fn size() -> usize { std::mem::size_of::<$t>() }
    fn try_into_bytes(&self, data: &mut [u8]) -> Result<()> { if data.len() != Self::size() { return Err(Error::buffer_size_mismatch()); } data.copy_from_slice(&self.to_le_bytes()); Ok(()) }
    fn try_from_bytes(data: &[u8]) -> Result<Self> { match data.try_into() { Ok(d) => Ok(<$t>::from_le_bytes(d)), Err(_) => Err(Error::buffer_size_mismatch()) } }
})* } }
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
/// refuses odd values, to see errors passed on
#[derive(Debug, PartialEq, Clone)] pub struct Picky(pub u16);
impl IntoBytes for Picky {
    fn alignment() -> usize { 2 }
    fn size() -> usize { 2 }
    fn try_into_bytes(&self, data: &mut [u8]) -> Result<()> { if self.0 % 2 == 1 { return Err(Error("picky".into())); } self.0.try_into_bytes(data) }
    fn try_from_bytes(data: &[u8]) -> Result<Self> { let v = u16::try_from_bytes(data)?; if v % 2 == 1 { return Err(Error("picky".into())); } Ok(Picky(v)) }
}
fn lcg(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
fn check<T: IntoBytes + PartialEq + std::fmt::Debug>(i: usize, make: impl Fn(&mut Vec<u8>) -> T, want_size: usize, want_align: usize, at: &[(usize, usize)], seed: u64) {
    // `at`: offset and size of every primitive field in declaration order; `make` fills fields from the bytes given
    assert_eq!(T::size(), want_size, "struct {i}: size");
    assert_eq!(T::alignment(), want_align, "struct {i}: alignment");
    let mut s = seed | 1;
    for round in 0..8u64 {
        let total: usize = at.iter().map(|x| x.1).sum();
        let bytes: Vec<u8> = (0..total).map(|_| match round { 0 => 0, 1 => 0xff, _ => lcg(&mut s) as u8 }).collect();
        let v = make(&mut bytes.clone());
        let fill = lcg(&mut s) as u8;
        let mut buf = vec![fill; want_size];
        v.try_into_bytes(&mut buf).unwrap_or_else(|e| panic!("struct {i}: writing into {want_size} bytes: {e:?}"));
        let mut k = 0;
        let mut covered = vec![false; want_size];
        for (f, (o, n)) in at.iter().enumerate() {
            assert_eq!(&buf[*o..*o + *n], &bytes[k..k + n], "struct {i}: field {f} at offset {o}");
            covered[*o..*o + *n].iter_mut().for_each(|x| *x = true);
            k += n;
        }
        for (o, c) in covered.iter().enumerate() { assert!(*c || buf[o] == fill || buf[o] == 0, "struct {i}: byte {o} between fields was written"); }
        let b = T::try_from_bytes(&buf).unwrap_or_else(|e| panic!("struct {i}: reading {want_size} bytes: {e:?}"));
        assert_eq!(b, v, "struct {i}: read back");
        for len in [0, want_size - 1, want_size + 1, 2 * want_size] {
            assert!(v.try_into_bytes(&mut vec![0; len]).is_err(), "struct {i}: writing into {len} bytes, size {want_size}");
            assert!(T::try_from_bytes(&vec![0; len]).is_err(), "struct {i}: reading from {len} bytes, size {want_size}");
        }
    }
    println!("{i} fields {} size {want_size}", at.len());
}
fn take<const N: usize>(b: &mut Vec<u8>) -> [u8; N] { let r = b[..N].try_into().unwrap(); b.drain(..N); r }
"#;

/// layout of a type: size, alignment, places of its primitive fields
#[derive(Clone)]
struct Layout {
    name: String,
    size: usize,
    align: usize,
    at: Vec<(usize, usize)>,
    make: String,
}

fn bytes_program(rng: &mut Rng, count: usize) -> String {
    let mut s = String::from(BYTES);
    let mut types: Vec<Layout> = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"].iter().map(|t| {
        let n = t[1..].parse::<usize>().unwrap() / 8;
        Layout { name: t.to_string(), size: n, align: n, at: vec![(0, n)], make: format!("{t}::from_le_bytes(take(b))") }
    }).collect();
    let names = ["a", "b", "data", "cur_offset", "byte_slice", "alignment", "size", "self_", "r#type", "field_0", "x", "y", "z", "value", "item", "ident"];
    let mut main = String::from("fn main() {\n");
    for i in 0..count {
        let k = 1 + rng.usize(9);
        let tuple = rng.chance(1, 3);
        let order = rng.perm(names.len());
        let (mut size, mut align, mut at) = (0usize, 0usize, vec![]);
        let (mut fields, mut makes) = (vec![], vec![]);
        for f in 0..k {
            let t = if types.len() > 10 && rng.chance(1, 4) { types[10 + rng.usize(types.len() - 10)].clone() } else { types[rng.usize(10)].clone() };
            size = size.next_multiple_of(t.align);
            at.extend(t.at.iter().map(|(o, n)| (size + o, *n)));
            size += t.size;
            align = align.max(t.align);
            let nm = names[order[f]];
            fields.push(if tuple { t.name.clone() } else { format!("{nm}: {}", t.name) });
            makes.push(if tuple { t.make.clone() } else { format!("{nm}: {}", t.make) });
        }
        let name = format!("S{i}");
        if tuple {
            writeln!(s, "#[derive(Derive, Debug, PartialEq)] pub struct {name}({});", fields.join(", ")).unwrap();
        } else {
            writeln!(s, "#[derive(Derive, Debug, PartialEq)] pub struct {name} {{ {} }}", fields.join(", ")).unwrap();
        }
        let body = if tuple { format!("{name}({})", makes.join(", ")) } else { format!("{name} {{ {} }}", makes.join(", ")) };
        writeln!(s, "fn make_{i}(b: &mut Vec<u8>) -> {name} {{ {body} }}").unwrap();
        writeln!(main, "check::<{name}>({i}, make_{i}, {size}, {align}, &{at:?}, {});", rng.u32()).unwrap();
        types.push(Layout { name, size, align, at, make: format!("make_{i}(b)") });
    }
    s.push_str("#[derive(Derive, Debug, PartialEq)] pub struct E { a: u32, p: Picky, b: u8 }\n");
    main.push_str("let e = |n| E { a: 7, p: Picky(n), b: 9 };\nlet mut buf = [0u8; 7];\nassert!(e(2).try_into_bytes(&mut buf).is_ok());\nassert_eq!(E::try_from_bytes(&buf).unwrap(), e(2));\nassert!(e(3).try_into_bytes(&mut buf).is_err(), \"an error of a field is lost when writing\");\nbuf[4] = 1;\nassert!(E::try_from_bytes(&buf).is_err(), \"an error of a field is lost when reading\");\nprintln!(\"done\");\n}\n");
    s + &main
}

fn write_crate(dir: &Path, bins: &[(String, String)]) {
    std::fs::create_dir_all(dir.join("src/bin")).unwrap();
    for (n, t) in bins {
        std::fs::write(dir.join(format!("src/bin/{n}.rs")), t).unwrap();
    }
    std::fs::write(
        dir.join("Cargo.toml"),
        "[package]\nname = \"c29gen\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\nsunscreen_math = { path = \"/repo/sunscreen_math\" }\nparasol_cpu_macros = { path = \"/repo/parasol_cpu_macros\" }\n[profile.release]\ndebug = 0\nincremental = false\ncodegen-units = 16\nopt-level = 1\n",
    )
    .unwrap();
    let lock = Path::new("/verif/harness/Cargo.lock");
    if lock.exists() {
        let _ = std::fs::copy(lock, dir.join("Cargo.lock"));
    }
}

/// builds every program that builds; returns what the compiler said
fn build(dir: &Path, target: &Path) -> String {
    let log = dir.join("build.log");
    let mut child = Command::new("cargo")
        .args(["build", "--release", "--offline", "--bins", "--keep-going", "-q"])
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", target)
        .env_remove("RUSTFLAGS")
        .stderr(std::fs::File::create(&log).unwrap())
        .spawn()
        .expect("cargo");
    // waits visibly awake, so that the watchdog for deadlocks sees progress
    while child.try_wait().expect("cargo").is_none() {
        let t = std::time::Instant::now();
        while t.elapsed().as_micros() < 500 {
            std::hint::spin_loop();
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
    String::from_utf8_lossy(&std::fs::read(&log).unwrap()).into_owned()
}

fn errors(log: &str, bin: &str) -> String {
    let mut v: Vec<&str> = vec![];
    let lines: Vec<&str> = log.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with("error") && lines[i..(i + 4).min(lines.len())].iter().any(|x| x.contains(&format!("/{bin}.rs"))) {
            v.extend(&lines[i..(i + 6).min(lines.len())]);
        }
    }
    v.truncate(24);
    v.join("\n")
}

fn run(target: &Path, bin: &str, args: &[String]) -> (bool, String) {
    let o = Command::new(target.join("release").join(bin)).args(args).output().expect(bin);
    (o.status.success(), String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr))
}

fn compare(c: &mut Case, out: &str, want: &BTreeMap<String, String>, what: &dyn Fn(&str) -> String) -> Res {
    let got: BTreeMap<&str, &str> = want.keys().filter_map(|k| out.lines().find_map(|l| l.strip_prefix(k.as_str()).and_then(|r| r.strip_prefix(' ')).map(|r| (k.as_str(), r)))).collect();
    for (k, w) in want {
        ck_eq!(c, got.get(k.as_str()).copied(), Some(w.as_str()), "{}", what(k));
        c.key(hash_bytes(format!("{k} {w}").as_bytes()));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new("C29");
    let dir = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| format!("/tmp/c29-{}", std::process::id()))).join("c29gen");
    let target = dir.join("target");
    let rounds = ctx.n(1, 12);
    for round in 0..rounds {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let mut rng = Rng::new(seed.wrapping_mul(1000003).wrapping_add(round).wrapping_add(29));
        let cfgs = gen_cfgs(&mut rng, 120);
        let rej = rejected(&mut rng);
        let mut bins = vec![
            ("control".to_string(), "use sunscreen_math::One;\nfn main() { println!(\"{}\", u8::one()); }\n".to_string()),
            ("accept".to_string(), reject_program("17", "1")),
            ("consts".to_string(), ok_program(&cfgs)),
            ("refs".to_string(), REFIFY.to_string()),
            ("layout".to_string(), bytes_program(&mut rng, 60)),
        ];
        for (i, (q, n, _)) in rej.iter().enumerate() {
            bins.push((format!("reject{i}"), reject_program(q, n)));
        }
        let _ = std::fs::remove_dir_all(dir.join("src"));
        write_crate(&dir, &bins);
        for (n, _) in &bins {
            let _ = std::fs::remove_file(target.join("release").join(n));
        }
        let log = build(&dir, &target);
        let have = |n: &str| target.join("release").join(n).exists();
        if !have("control") {
            ctx.note_incomplete(format!("a crate that does not use the macros does not build: {}", log.lines().take(5).collect::<Vec<_>>().join(" | ")));
            break;
        }
        ctx.serial(&format!("barrett-config {round}"), 1, 1, |c| {
            c.describe(format!("{} moduli: {}", cfgs.len(), cfgs.iter().take(6).map(|x| format!("{} in {} limbs", x.text, x.n)).collect::<Vec<_>>().join(", ")));
            ck!(c, have("consts"), "valid moduli do not compile: {}", errors(&log, "consts"));
            let (ok, out) = run(&target, "consts", &[]);
            ck!(c, ok, "the generated rings fail: {}", out.lines().last().unwrap_or(""));
            compare(c, &out, &ok_expected(&cfgs), &|k| {
                let i: usize = k.split(' ').next().unwrap().parse().unwrap();
                format!("{k} of modulus {} in {} limbs", cfgs[i].text, cfgs[i].n)
            })?;
            c.count("moduli", cfgs.len() as u64);
            c.count("fields", cfgs.iter().filter(|x| x.field == Some(true)).count() as u64);
            Ok(())
        });
        ctx.serial(&format!("refused-moduli {round}"), 1, 1, |c| {
            c.describe(format!("{rej:?}"));
            ck!(c, have("accept"), "modulus 17 in one limb is refused: {}", errors(&log, "accept"));
            for (i, (q, n, why)) in rej.iter().enumerate() {
                ck!(c, !have(&format!("reject{i}")), "modulus \"{q}\" in {n} limbs is accepted ({why})");
                c.key(hash_bytes(format!("{q} {n}").as_bytes()));
                c.count("refused", 1);
            }
            Ok(())
        });
        ctx.serial(&format!("reference-forms {round}"), 1, 1, |c| {
            ck!(c, have("refs"), "reference forms do not compile: {}", errors(&log, "refs"));
            for _ in 0..40 {
                let mut v: Vec<i64> = (0..4).map(|_| c.rng.edge(64) as i64).collect();
                if c.rng.chance(1, 4) {
                    v[1] = v[0];
                }
                c.describe(format!("{v:?}"));
                let args: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                let (ok, out) = run(&target, "refs", &args);
                ck!(c, ok, "the reference forms fail on {v:?}: {}", out.lines().last().unwrap_or(""));
                compare(c, &out, &refify_expected(&v), &|k| format!("{k} of {v:?}"))?;
            }
            Ok(())
        });
        ctx.serial(&format!("byte-layout {round}"), 1, 1, |c| {
            ck!(c, have("layout"), "structures do not compile: {}", errors(&log, "layout"));
            let (ok, out) = run(&target, "layout", &[]);
            ck!(c, ok, "{}", out.lines().filter(|l| l.contains("struct ") || l.contains("left") || l.contains("right") || l.contains("lost") || l.contains("panicked")).take(6).collect::<Vec<_>>().join(" | "));
            let n = out.lines().filter(|l| l.contains(" fields ")).count() as u64;
            ck!(c, n == 60 && out.contains("done"), "only {n} of 60 structures were checked");
            c.evals += n * 8;
            for l in out.lines() {
                c.key(hash_bytes(format!("{round} {l}").as_bytes()));
            }
            c.count("structures", n);
            c.describe("random structures of integers and earlier structures".into());
            Ok(())
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.finish()
}
