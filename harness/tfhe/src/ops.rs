//! Registry of the library's operations behind one interface: typed slots in, slots out.
//! Used to compare executions that must not differ (C03, C05), to mutate sizes (C22),
//! to listen to a process (C24) and to feed sanitizers (C04).
use crate::*;
use aligned_vec::AVec;
use std::sync::Arc;
use sunscreen_tfhe::ops::automorphisms::*;
use sunscreen_tfhe::ops::bootstrapping::*;
use sunscreen_tfhe::ops::ciphertext as ct;
use sunscreen_tfhe::ops::encryption as en;
use sunscreen_tfhe::ops::fft_ops;
use sunscreen_tfhe::ops::homomorphisms;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch::keyswitch_glwe_to_glwe;
use sunscreen_tfhe::ops::keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch::keyswitch_lwe_to_lwe;
use sunscreen_tfhe::ops::keyswitch::lwe_keyswitch_key::generate_keyswitch_key_lwe;
use sunscreen_tfhe::ops::keyswitch::private_functional_keyswitch::*;
use sunscreen_tfhe::ops::keyswitch::public_functional_keyswitch::*;
use sunscreen_tfhe::ops::polynomial as op;
use sunscreen_tfhe::polynomial as pl;
use sunscreen_tfhe::radix::*;

/// transformed data lives in memory aligned for the vector unit, like the library's own
pub type CV = AVec<C64>;
#[derive(Clone)]
pub enum D<S: Word> {
    T(Vec<S>),
    C(CV),
    TS(Arc<Vec<S>>),
    CS(Arc<CV>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    /// read only
    In,
    /// overwritten completely
    Out,
    /// documented to accumulate onto, or transform, its contents
    InOut,
}
#[derive(Clone)]
pub struct Slot<S: Word> {
    pub name: &'static str,
    pub d: D<S>,
    pub role: Role,
    /// an accidental change of length by this many elements gives another well formed entity of the same kind
    pub unit: usize,
}
impl<S: Word> Slot<S> {
    pub fn len(&self) -> usize {
        match &self.d {
            D::T(v) => v.len(),
            D::C(v) => v.len(),
            D::TS(v) => v.len(),
            D::CS(v) => v.len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn bits(&self) -> Vec<u64> {
        match &self.d {
            D::T(v) => v.iter().map(|x| x.u()).collect(),
            D::TS(v) => v.iter().map(|x| x.u()).collect(),
            D::C(v) => v.iter().flat_map(|x| [x.re.to_bits(), x.im.to_bits()]).collect(),
            D::CS(v) => v.iter().flat_map(|x| [x.re.to_bits(), x.im.to_bits()]).collect(),
        }
    }
    pub fn refill(&mut self, r: &mut Rng) {
        match &mut self.d {
            D::T(v) => v.iter_mut().for_each(|x| *x = S::of(r.u64())),
            D::C(v) => v.iter_mut().for_each(|x| *x = cx(r)),
            _ => unreachable!(),
        }
    }
    pub fn resize(&mut self, r: &mut Rng, n: usize) {
        match &mut self.d {
            D::T(v) => {
                v.truncate(n);
                while v.len() < n {
                    // binary material stays binary
                    let x = if v.iter().all(|x| x.u() < 2) { r.below(2) } else { r.u64() };
                    v.push(S::of(x));
                }
                v.shrink_to_fit();
            }
            D::C(v) => {
                *v = AVec::from_iter(64, (0..n).map(|i| if i < v.len() { v[i] } else { cx(r) }).collect::<Vec<_>>());
            }
            _ => unreachable!(),
        }
    }
    /// one allocation read by all clones
    pub fn share(&mut self) {
        self.d = match std::mem::replace(&mut self.d, D::T(vec![])) {
            D::T(v) => D::TS(Arc::new(v)),
            D::C(v) => D::CS(Arc::new(v)),
            x => x,
        };
    }
}
fn cx(r: &mut Rng) -> C64 {
    C64::new((r.f64() - 0.5) * 2f64.powi(30), (r.f64() - 0.5) * 2f64.powi(30))
}
pub type Run<S> = Box<dyn Fn(&mut [Slot<S>]) + Send + Sync>;
pub struct Inst<S: Word> {
    pub name: &'static str,
    pub slots: Vec<Slot<S>>,
    pub run: Run<S>,
    /// draws randomness: outputs differ between runs
    pub random: bool,
    /// encrypted without noise
    pub exact: bool,
    /// output slot made of encryptions under a key slot: (output, degree or 0 for LWE, key)
    pub rows: Option<(usize, usize, usize)>,
    pub desc: String,
}

pub fn sp<S: Word>(s: &mut Slot<S>) -> *mut [S] {
    match &mut s.d {
        D::T(v) => std::ptr::slice_from_raw_parts_mut(v.as_mut_ptr(), v.len()),
        D::TS(v) => std::ptr::slice_from_raw_parts_mut(v.as_ptr() as *mut S, v.len()),
        _ => unreachable!("{}", s.name),
    }
}
pub fn cp<S: Word>(s: &mut Slot<S>) -> *mut [C64] {
    match &mut s.d {
        D::C(v) => std::ptr::slice_from_raw_parts_mut(v.as_mut_ptr(), v.len()),
        D::CS(v) => std::ptr::slice_from_raw_parts_mut(v.as_ptr() as *mut C64, v.len()),
        _ => unreachable!("{}", s.name),
    }
}
macro_rules! i {
    ($s:expr, $i:expr, $t:ty) => {
        unsafe { &*(sp(&mut $s[$i]) as *const [_] as *const $t) }
    };
}
macro_rules! m {
    ($s:expr, $i:expr, $t:ty) => {
        unsafe { &mut *(sp(&mut $s[$i]) as *mut $t) }
    };
}
macro_rules! ci {
    ($s:expr, $i:expr, $t:ty) => {
        unsafe { &*(cp(&mut $s[$i]) as *const [_] as *const $t) }
    };
}
macro_rules! cm {
    ($s:expr, $i:expr, $t:ty) => {
        unsafe { &mut *(cp(&mut $s[$i]) as *mut $t) }
    };
}
/// store an owned result in an output slot
fn put<S: Word, R: ?Sized>(s: &mut Slot<S>, r: &R) {
    s.d = D::T(raw::<S, R>(r).to_vec());
}

/// Sizes of everything for one choice of parameters.
#[derive(Clone, Copy)]
pub struct Par {
    pub g: GlweDef,
    pub g2: GlweDef,
    pub l: LweDef,
    pub l2: LweDef,
    pub r: RadixDecomposition,
    pub r2: RadixDecomposition,
    pub r3: RadixDecomposition,
    pub r4: RadixDecomposition,
}
pub fn z_lwe(l: &LweDef) -> usize {
    l.dim.0 + 1
}
pub fn z_glwe(g: &GlweDef) -> usize {
    (gk(g) + 1) * gn(g)
}
pub fn z_glev(g: &GlweDef, r: &RadixDecomposition) -> usize {
    z_glwe(g) * rl(r)
}
pub fn z_ggsw(g: &GlweDef, r: &RadixDecomposition) -> usize {
    z_glev(g, r) * (gk(g) + 1)
}
pub fn z_ak(g: &GlweDef, r: &RadixDecomposition) -> usize {
    z_glev(g, r) * gk(g) * gn(g).ilog2() as usize
}
pub fn z_ssk(g: &GlweDef, r: &RadixDecomposition) -> usize {
    z_glev(g, r) * (gk(g) * (gk(g) + 1) / 2)
}

struct B<'a, S: Word> {
    r: &'a mut Rng,
    v: Vec<Slot<S>>,
}
impl<S: Word> B<'_, S> {
    fn t(&mut self, name: &'static str, role: Role, n: usize, unit: usize) -> &mut Self {
        let d = D::T(words::<S>(self.r, n));
        self.v.push(Slot { name, d, role, unit });
        self
    }
    /// binary key material
    fn k(&mut self, name: &'static str, n: usize, unit: usize) -> &mut Self {
        let d = D::T((0..n).map(|_| S::of(self.r.below(2))).collect());
        self.v.push(Slot { name, d, role: Role::In, unit });
        self
    }
    fn c(&mut self, name: &'static str, role: Role, n: usize, unit: usize) -> &mut Self {
        let d = D::C(AVec::from_iter(64, (0..n).map(|_| cx(self.r))));
        self.v.push(Slot { name, d, role, unit });
        self
    }
}
pub const MAX_LOG_FFT: u32 = 6;
fn some_radix<S: Word>(r: &mut Rng) -> RadixDecomposition {
    let log = r.range(1, 16.min(S::W as u64 / 2)) as usize;
    rdef(r.range(1, 3.min(S::W as u64 / log as u64)) as usize, log)
}
pub fn gen_par<S: Word>(r: &mut Rng, lo: u32, small: bool) -> Par {
    let hi = if small { lo } else { lo + 2 };
    let std = if r.bool() { 0.0 } else { 2f64.powi(-20) };
    let k = if small { 2 } else { 3 };
    let g = gdef(r.range(1, k) as usize, 1 << r.range(lo as u64, hi as u64), std);
    let g2 = gdef(r.range(1, 2) as usize, 1 << r.range(lo as u64, hi as u64), std);
    let m = if small { 3 } else { 9 };
    Par {
        g,
        g2,
        l: ldef(r.range(1, m) as usize, std),
        l2: ldef(r.range(1, m) as usize, std),
        r: some_radix::<S>(r),
        r2: some_radix::<S>(r),
        r3: some_radix::<S>(r),
        r4: some_radix::<S>(r),
    }
}

macro_rules! count_ops {
    ($($n:literal)*) => { &[$($n),*] };
}
pub const NAMES: &[&str] = count_ops!(
    "sample_extract" "add_glwe_ciphertexts" "glwe_add_assign" "sub_glwe_ciphertexts" "glwe_negate_inplace"
    "glwe_polynomial_mad" "glwe_scalar_mad" "glwe_ggsw_mad" "external_product_ggsw_glwe" "glwe_mod_switch_and_expand_pow_2"
    "glwe_rotate" "decomposed_polynomial_glev_mad" "decomposed_scalar_glev_mad" "decomposed_scalar_lev_mad" "add_lwe_inplace"
    "lwe_ciphertext_modulus_switch" "lwe_rotate" "encode_polynomial" "decode_polynomial" "polynomial_pow_k"
    "polynomial_shr_round" "rotate_glwe_monomial" "rotate_glwe_negative" "rotate_glwe_positive" "blind_rotation"
    "generate_blind_rotation_shift" "generate_bootstrap_key" "programmable_bootstrap_univariate" "generalized_programmable_bootstrap" "programmable_bootstrap_bivariate"
    "generate_scheme_switch_key" "scheme_switch" "scheme_switch_fft" "circuit_bootstrap_via_pfks" "circuit_bootstrap_via_trace"
    "apply_pfks_on_ggsw_components" "keyswitch_glwe_to_glwe" "keyswitch_glwe_fft" "generate_keyswitch_key_glwe" "keyswitch_lwe_to_lwe"
    "generate_keyswitch_key_lwe" "generate_private_functional_keyswitch_key" "private_functional_keyswitch" "generate_circuit_bootstrapping_pfks_keys" "generate_public_functional_keyswitch_key"
    "public_functional_keyswitch" "generate_automorphism_key" "trace" "fft glwe_ggsw_mad" "fft decomposed_polynomial_glev_mad"
    "fft glwe_polynomial_mad" "cmux" "glev_cmux" "encrypt_ggsw_ciphertext" "trivially_encrypt_ggsw_ciphertext"
    "encrypt_ggsw_ciphertext_scalar" "decrypt_ggsw_ciphertext" "encrypt_secret_glev_ciphertext" "trivially_encrypt_glev_ciphertext" "encrypt_rlev_ciphertext"
    "decrypt_glev_ciphertext" "encrypt_glwe_ciphertext_secret" "trivially_encrypt_glwe_ciphertext" "decrypt_glwe_ciphertext" "trivially_encrypt_lwe_ciphertext"
    "encrypt_lwe_ciphertext" "encode_and_encrypt_lwe_ciphertext" "rlwe_generate_public_key" "rlwe_encrypt_public" "LweSecretKeyRef::encrypt"
    "LweSecretKeyRef::decrypt" "LwePublicKey::generate" "LwePublicKeyRef::encrypt" "GlweSecretKeyRef::decrypt_decode_glwe" "GlweSecretKeyRef::encode_encrypt_glwe"
    "GlweSecretKeyRef::encode_encrypt_ggsw" "GgswCiphertext::external_product" "glwe fft" "glwe ifft" "glev fft"
    "glev ifft" "ggsw fft" "ggsw ifft" "bootstrap key fft" "bootstrap key ifft"
    "scheme switch key fft" "scheme switch key ifft" "automorphism key fft" "glwe keyswitch key fft" "glwe keyswitch key ifft"
    "blind rotation shift ifft" "polynomial fft" "polynomial ifft" "polynomial fft multiply_add" "lookup table fill"
    "bivariate table fill" "polynomial_add" "polynomial_sub" "polynomial_add_assign" "polynomial_sub_assign"
    "polynomial_negate" "polynomial_scalar_mul" "polynomial_scalar_mad" "polynomial_external_mad" "polynomial_mad"
    "polynomial mul monomial" "polynomial operators" "lwe operators" "glwe operators" "lwe key operators" "glwe key operators" "fft glwe_ggsw_mad accumulate" "decrypt without decode"
    "clone_from_ref"
);

/// Operation `which` with random valid parameters and arguments. `small`: as little work as possible.
pub fn gen_op<S: Word>(r: &mut Rng, which: usize, small: bool) -> Inst<S> {
    let p = op_par::<S>(r, which, small);
    gen_op_par(r, which, p)
}
/// Valid parameters for operation `which`.
pub fn op_par<S: Word>(r: &mut Rng, which: usize, small: bool) -> Par {
    let name = NAMES[which];
    // operations on polynomials of transformed data need degree 16 at least
    let needs_fft = matches!(
        name,
        "blind_rotation" | "generate_blind_rotation_shift" | "programmable_bootstrap_univariate" | "generalized_programmable_bootstrap" | "programmable_bootstrap_bivariate" | "generate_scheme_switch_key" | "scheme_switch_fft" | "circuit_bootstrap_via_pfks" | "circuit_bootstrap_via_trace" | "keyswitch_glwe_fft" | "trace" | "cmux" | "glev_cmux" | "public_functional_keyswitch"
    ) || name.contains("fft");
    let lo = if needs_fft || r.bool() { 4 } else { 1 };
    let mut p = gen_par::<S>(r, lo, small);
    // the last level's message sits one bit below the radix digits
    if name.starts_with("circuit_bootstrap_via") && rl(&p.r) * rb(&p.r) + 1 >= S::W as usize {
        p.r = rdef(1, rb(&p.r));
    }
    p
}
/// Operation `which` with the sizes and arguments that parameters `p` ask for.
pub fn gen_op_par<S: Word>(r: &mut Rng, which: usize, p: Par) -> Inst<S> {
    use Role::*;
    let name = NAMES[which];
    let Par { g, g2, l, l2, r: rd, r2, r3, r4 } = p;
    let (k, n) = (gk(&g), gn(&g));
    let (zl, zg, zv, zw) = (z_lwe(&l), z_glwe(&g), z_glev(&g, &rd), z_ggsw(&g, &rd));
    let (kn, n2) = (k * n, gn(&g2));
    let mut random = false;
    let x1 = r.u64();
    let sc = S::of(x1);
    let mut b = B::<S> { r, v: vec![] };
    let run: Run<S> = match name {
        "sample_extract" => {
            b.t("output", Out, kn + 1, n).t("glwe", In, zg, n);
            let h = x1 as usize % n;
            Box::new(move |s| ct::sample_extract(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), h, &g))
        }
        "add_glwe_ciphertexts" => {
            b.t("c", Out, zg, n).t("a", In, zg, n).t("b", In, zg, n);
            Box::new(move |s| ct::add_glwe_ciphertexts(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GlweCiphertextRef<S>), &g))
        }
        "glwe_add_assign" => {
            b.t("c", InOut, zg, n).t("a", In, zg, n);
            Box::new(move |s| ct::glwe_add_assign(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), &g))
        }
        "sub_glwe_ciphertexts" => {
            b.t("c", Out, zg, n).t("a", In, zg, n).t("b", In, zg, n);
            Box::new(move |s| ct::sub_glwe_ciphertexts(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GlweCiphertextRef<S>), &g))
        }
        "glwe_negate_inplace" => {
            b.t("c", InOut, zg, n);
            Box::new(move |s| ct::glwe_negate_inplace(m!(s, 0, GlweCiphertextRef<S>), &g))
        }
        "glwe_polynomial_mad" => {
            b.t("c", InOut, zg, n).t("a", In, zg, n).t("b", In, n, n);
            Box::new(move |s| ct::glwe_polynomial_mad(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, PolynomialRef<S>), &g))
        }
        "glwe_scalar_mad" => {
            b.t("c", InOut, zg, n).t("a", In, zg, n);
            Box::new(move |s| ct::glwe_scalar_mad(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), sc, &g))
        }
        "glwe_ggsw_mad" => {
            b.t("c", InOut, zg, n).t("a", In, zg, n).t("b", In, zw, zv);
            Box::new(move |s| ct::glwe_ggsw_mad(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GgswCiphertextRef<S>), &g, &rd))
        }
        "external_product_ggsw_glwe" => {
            b.t("result", Out, 0, 0).t("a", In, zg, n).t("b", In, zw, zv);
            Box::new(move |s| {
                let o = ct::external_product_ggsw_glwe(i!(s, 2, GgswCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), &g, &rd);
                put(&mut s[0], &*o)
            })
        }
        "GgswCiphertext::external_product" => {
            b.t("result", Out, 0, 0).t("a", In, zg, n).t("b", In, zw, zv);
            Box::new(move |s| {
                let w = i!(s, 2, GgswCiphertextRef<S>).to_owned();
                let o = if sc.u() & 1 == 0 { w.external_product(i!(s, 1, GlweCiphertextRef<S>), &g, &rd) } else { i!(s, 1, GlweCiphertextRef<S>).to_owned().external_product(&w, &g, &rd) };
                put(&mut s[0], &*o)
            })
        }
        "glwe_mod_switch_and_expand_pow_2" => {
            b.t("y", Out, zg, n).t("x", In, zg, n);
            let lq = (x1 % (S::W as u64 - 1)) as u32 + 1;
            Box::new(move |s| ct::glwe_mod_switch_and_expand_pow_2(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), &g, lq))
        }
        "glwe_rotate" => {
            b.t("y", Out, zg, n).t("x", In, zg, n);
            Box::new(move |s| ct::glwe_rotate(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), Torus::from(sc), &g))
        }
        "decomposed_polynomial_glev_mad" => {
            b.t("c", InOut, zg, n).t("a", In, n, n).t("b", In, zv, zg);
            Box::new(move |s| {
                let mut o = vec![S::of(0x5a5a5a5a); i!(s, 1, PolynomialRef<Torus<S>>).len()];
                let o = unsafe { &mut *(o.as_mut_slice() as *mut [S] as *mut PolynomialRef<S>) };
                let it = PolynomialRadixIterator::new(i!(s, 1, PolynomialRef<Torus<S>>), o, &rd);
                ct::decomposed_polynomial_glev_mad(m!(s, 0, GlweCiphertextRef<S>), it, i!(s, 2, GlevCiphertextRef<S>), &g)
            })
        }
        "decomposed_scalar_glev_mad" => {
            b.t("c", InOut, zg, n).t("b", In, zv, zg);
            Box::new(move |s| {
                let it = ScalarRadixIterator::new(Torus::from(sc), &rd);
                ct::decomposed_scalar_glev_mad(m!(s, 0, GlweCiphertextRef<S>), it, i!(s, 1, GlevCiphertextRef<S>), &g)
            })
        }
        "decomposed_scalar_lev_mad" => {
            b.t("c", InOut, zl, 1).t("a", In, 1, 1).t("b", In, zl * rl(&rd), zl);
            Box::new(move |s| {
                let mut o = vec![S::of(0x5a5a5a5a); i!(s, 1, PolynomialRef<Torus<S>>).len()];
                let o = unsafe { &mut *(o.as_mut_slice() as *mut [S] as *mut PolynomialRef<S>) };
                let it = PolynomialRadixIterator::new(i!(s, 1, PolynomialRef<Torus<S>>), o, &rd);
                ct::decomposed_scalar_lev_mad(m!(s, 0, LweCiphertextRef<S>), it, i!(s, 2, LevCiphertextRef<S>), &l)
            })
        }
        "add_lwe_inplace" => {
            b.t("c", InOut, zl, 1).t("a", In, zl, 1);
            Box::new(move |s| ct::add_lwe_inplace(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), &l))
        }
        "lwe_ciphertext_modulus_switch" => {
            b.t("c", InOut, zl, 1);
            let lm = (x1 % 10) as u32 + 2;
            let lv = (x1 >> 8) as u32 % (lm - 1);
            Box::new(move |s| ct::lwe_ciphertext_modulus_switch(m!(s, 0, LweCiphertextRef<S>), 0, lv, lm, &l))
        }
        "lwe_rotate" => {
            b.t("output", Out, zl, 1).t("input", In, zl, 1);
            Box::new(move |s| homomorphisms::lwe_rotate(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), Torus::from(sc), &l))
        }
        "encode_polynomial" => {
            b.t("result", Out, n, n).t("msg", In, n, n);
            Box::new(move |s| op::encode_polynomial(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<S>), PlaintextBits(5)))
        }
        "decode_polynomial" => {
            b.t("result", Out, n, n).t("msg", In, n, n);
            Box::new(move |s| op::decode_polynomial(m!(s, 0, PolynomialRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), PlaintextBits(5)))
        }
        "polynomial_pow_k" => {
            b.t("p_k", Out, n, n).t("p", In, n, n);
            let e = x1 as usize % n * 2 + 1;
            Box::new(move |s| op::polynomial_pow_k::<Torus<S>, S>(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), e))
        }
        "polynomial_shr_round" => {
            b.t("y", Out, n, n).t("x", In, n, n);
            let e = x1 as u32 % (S::W - 1) + 1;
            Box::new(move |s| op::polynomial_shr_round(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), e))
        }
        "rotate_glwe_monomial" => {
            b.t("output", Out, zg, n).t("ct", In, zg, n);
            let e = (x1 % (2 * n as u64 - 1)) as isize - (n as isize - 1);
            Box::new(move |s| rotate_glwe_monomial_negacyclic(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), e, &g))
        }
        "rotate_glwe_negative" => {
            b.t("output", Out, zg, n).t("ct", In, zg, n);
            let e = x1 as usize % n;
            Box::new(move |s| rotate_glwe_negative_monomial_negacyclic(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), e, &g))
        }
        "rotate_glwe_positive" => {
            b.t("output", Out, zg, n).t("ct", In, zg, n);
            let e = x1 as usize % n;
            Box::new(move |s| rotate_glwe_positive_monomial_negacyclic(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), e, &g))
        }
        "blind_rotation" => {
            b.t("output", Out, zg, n).c("index", In, zw / 2 * n.ilog2() as usize, zw / 2).t("ct", In, zg, n);
            Box::new(move |s| blind_rotation(m!(s, 0, GlweCiphertextRef<S>), ci!(s, 1, BlindRotationShiftFftRef<C64>), i!(s, 2, GlweCiphertextRef<S>), &g, &rd))
        }
        "generate_blind_rotation_shift" => {
            random = true;
            b.c("key", Out, zw / 2 * n.ilog2() as usize, zw / 2).k("sk", kn, n);
            let e = x1 as usize % n;
            Box::new(move |s| generate_blind_rotation_shift(cm!(s, 0, BlindRotationShiftFftRef<C64>), e, i!(s, 1, GlweSecretKeyRef<S>), &g, &rd, PlaintextBits(1)))
        }
        "generate_bootstrap_key" => {
            random = true;
            b.t("key", Out, zw * l.dim.0, zw).k("sk_to_encrypt", l.dim.0, 1).k("sk", kn, n);
            Box::new(move |s| generate_bootstrap_key(m!(s, 0, BootstrapKeyRef<S>), i!(s, 1, LweSecretKeyRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &l, &g, &rd))
        }
        "programmable_bootstrap_univariate" => {
            b.t("output", Out, kn + 1, 1).t("input", In, zl, 1).t("lut", In, zg, n).c("bsk", In, zw / 2 * l.dim.0, zw / 2);
            Box::new(move |s| programmable_bootstrap_univariate(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), i!(s, 2, UnivariateLookupTableRef<S>), ci!(s, 3, BootstrapKeyFftRef<C64>), &l, &g, &rd))
        }
        "generalized_programmable_bootstrap" => {
            b.t("output", Out, zg, n).t("input", In, zl, 1).t("lut", In, zg, n).c("bsk", In, zw / 2 * l.dim.0, zw / 2);
            let lv = x1 as u32 % 3;
            Box::new(move |s| generalized_programmable_bootstrap(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), i!(s, 2, UnivariateLookupTableRef<S>), ci!(s, 3, BootstrapKeyFftRef<C64>), 0, lv, &l, &g, &rd))
        }
        "programmable_bootstrap_bivariate" => {
            b.t("output", Out, kn + 1, 1).t("left", In, zl, 1).t("right", In, zl, 1).t("lut", In, zg, n).c("bsk", In, zw / 2 * l.dim.0, zw / 2);
            Box::new(move |s| programmable_bootstrap_bivariate(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), i!(s, 2, LweCiphertextRef<S>), i!(s, 3, BivariateLookupTableRef<S>), ci!(s, 4, BootstrapKeyFftRef<C64>), &l, &g, PlaintextBits(1), &rd))
        }
        "generate_scheme_switch_key" => {
            random = true;
            b.t("key", Out, z_ssk(&g, &rd), zv).k("sk", kn, n);
            Box::new(move |s| ssk_gen::<S>(m!(s, 0, SchemeSwitchKeyRef<S>), i!(s, 1, GlweSecretKeyRef<S>), &g, &rd))
        }
        "scheme_switch" => {
            b.t("output", Out, zw, zv).t("glev", In, zv, zg).t("ssk", In, z_ssk(&g, &r2), z_glev(&g, &r2));
            Box::new(move |s| scheme_switch(m!(s, 0, GgswCiphertextRef<S>), i!(s, 1, GlevCiphertextRef<S>), i!(s, 2, SchemeSwitchKeyRef<S>), &g, &rd, &r2))
        }
        "scheme_switch_fft" => {
            b.c("output", Out, zw / 2, zv / 2).t("glev", In, zv, zg).c("ssk", In, z_ssk(&g, &r2) / 2, z_glev(&g, &r2) / 2);
            Box::new(move |s| fft_ops::scheme_switch_fft(cm!(s, 0, GgswCiphertextFftRef<C64>), i!(s, 1, GlevCiphertextRef<S>), ci!(s, 2, SchemeSwitchKeyFftRef<C64>), &g, &rd, &r2))
        }
        "circuit_bootstrap_via_pfks" => {
            let l2 = g2.as_lwe_def();
            let (gl1, w2) = (z_glev(&g, &r3), z_ggsw(&g2, &r2));
            b.t("output", Out, zw, zv).t("input", In, zl, 1).c("bsk", In, w2 / 2 * l.dim.0, w2 / 2).t("cbsksk", In, gl1 * (l2.dim.0 + 1) * (k + 1), gl1);
            Box::new(move |s| circuit_bootstrap_via_pfks(m!(s, 0, GgswCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), ci!(s, 2, BootstrapKeyFftRef<C64>), i!(s, 3, CircuitBootstrappingKeyswitchKeysRef<S>), &l, &g, &g2, &r2, &rd, &r3))
        }
        "circuit_bootstrap_via_trace" => {
            let w2 = z_ggsw(&g, &r2);
            b.c("output", Out, zw / 2, zv / 2).t("input", In, zl, 1).c("bsk", In, w2 / 2 * l.dim.0, w2 / 2).c("ak", In, z_ak(&g, &r3) / 2, z_glev(&g, &r3) / 2).c("ssk", In, z_ssk(&g, &r4) / 2, z_glev(&g, &r4) / 2);
            Box::new(move |s| circuit_bootstrap_via_trace_and_scheme_switch(cm!(s, 0, GgswCiphertextFftRef<C64>), i!(s, 1, LweCiphertextRef<S>), ci!(s, 2, BootstrapKeyFftRef<C64>), ci!(s, 3, AutomorphismKeyFftRef<C64>), ci!(s, 4, SchemeSwitchKeyFftRef<C64>), &l, &g, &r2, &r3, &r4, &rd))
        }
        "apply_pfks_on_ggsw_components" => {
            let l2 = g2.as_lwe_def();
            let gl1 = z_glev(&g, &r3);
            b.t("result", Out, zw, zv).t("lwes", In, z_lwe(&l2) * rl(&rd), z_lwe(&l2)).t("cbsksk", In, gl1 * (l2.dim.0 + 1) * (k + 1), gl1);
            Box::new(move |s| apply_pfks_on_ggsw_components(m!(s, 0, GgswCiphertextRef<S>), i!(s, 1, LweCiphertextListRef<S>), i!(s, 2, CircuitBootstrappingKeyswitchKeysRef<S>), &g2, &g, &r3, &rd))
        }
        "keyswitch_glwe_to_glwe" => {
            b.t("output", Out, zg, n).t("ct", In, zg, n).t("key", In, zv * k, zv);
            Box::new(move |s| keyswitch_glwe_to_glwe(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GlweKeyswitchKeyRef<S>), &g, &rd))
        }
        "keyswitch_glwe_fft" => {
            b.t("output", Out, zg, n).t("ct", In, zg, n).c("key", In, zv * k / 2, zv / 2);
            Box::new(move |s| fft_ops::keyswitch_glwe_to_glwe(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), ci!(s, 2, GlweKeyswitchKeyFftRef<C64>), &g, &rd))
        }
        "generate_keyswitch_key_glwe" => {
            random = true;
            b.t("key", Out, zv * k, zv).k("from", kn, n).k("to", kn, n);
            Box::new(move |s| generate_keyswitch_key_glwe(m!(s, 0, GlweKeyswitchKeyRef<S>), i!(s, 1, GlweSecretKeyRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &g, &rd))
        }
        "keyswitch_lwe_to_lwe" => {
            let z2 = z_lwe(&l2);
            b.t("output", Out, z2, 1).t("ct", In, zl, 1).t("key", In, z2 * rl(&rd) * l.dim.0, z2 * rl(&rd));
            Box::new(move |s| keyswitch_lwe_to_lwe(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweCiphertextRef<S>), i!(s, 2, LweKeyswitchKeyRef<S>), &l, &l2, &rd))
        }
        "generate_keyswitch_key_lwe" => {
            random = true;
            let z2 = z_lwe(&l2);
            b.t("key", Out, z2 * rl(&rd) * l.dim.0, z2 * rl(&rd)).k("from", l.dim.0, 1).k("to", l2.dim.0, 1);
            Box::new(move |s| generate_keyswitch_key_lwe(m!(s, 0, LweKeyswitchKeyRef<S>), i!(s, 1, LweSecretKeyRef<S>), i!(s, 2, LweSecretKeyRef<S>), &l, &l2, &rd))
        }
        "generate_private_functional_keyswitch_key" => {
            random = true;
            let z = 1 + x1 as usize % 2;
            b.t("output", Out, zv * (l.dim.0 + 1) * z, zv).k("from", l.dim.0, 1).k("to", kn, n);
            Box::new(move |s| {
                let map = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
                    p.clear();
                    for y in x {
                        p.coeffs_mut()[0] += *y;
                    }
                };
                generate_private_functional_keyswitch_key(m!(s, 0, PrivateFunctionalKeyswitchKeyRef<S>), i!(s, 1, LweSecretKeyRef<S>), i!(s, 2, GlweSecretKeyRef<S>), map, &l, &g, &rd, &PrivateFunctionalKeyswitchLweCount(z))
            })
        }
        "private_functional_keyswitch" => {
            b.t("output", Out, zg, n).t("input0", In, zl, 1).t("input1", In, zl, 1).t("key", In, zv * zl * 2, zv);
            Box::new(move |s| {
                let (a, c) = (i!(s, 1, LweCiphertextRef<S>), i!(s, 2, LweCiphertextRef<S>));
                private_functional_keyswitch(m!(s, 0, GlweCiphertextRef<S>), &[a, c], i!(s, 3, PrivateFunctionalKeyswitchKeyRef<S>), &l, &g, &rd, &PrivateFunctionalKeyswitchLweCount(2))
            })
        }
        "generate_circuit_bootstrapping_pfks_keys" => {
            random = true;
            b.t("output", Out, zv * zl * (k + 1), zv).k("from", l.dim.0, 1).k("to", kn, n);
            Box::new(move |s| generate_circuit_bootstrapping_pfks_keys(m!(s, 0, CircuitBootstrappingKeyswitchKeysRef<S>), i!(s, 1, LweSecretKeyRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &l, &g, &rd))
        }
        "generate_public_functional_keyswitch_key" => {
            random = true;
            b.t("output", Out, zv * l.dim.0, zv).k("from", l.dim.0, 1).k("to", kn, n);
            Box::new(move |s| generate_public_functional_keyswitch_key(m!(s, 0, PublicFunctionalKeyswitchKeyRef<S>), i!(s, 1, LweSecretKeyRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &l, &g, &rd))
        }
        "public_functional_keyswitch" => {
            b.t("output", Out, zg, n).t("input0", In, zl, 1).t("input1", In, zl, 1).t("key", In, zv * l.dim.0, zv);
            Box::new(move |s| {
                let (a, c) = (i!(s, 1, LweCiphertextRef<S>), i!(s, 2, LweCiphertextRef<S>));
                let f = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
                    for (i, y) in x.iter().enumerate() {
                        p.coeffs_mut()[i] += *y;
                    }
                };
                public_functional_keyswitch(m!(s, 0, GlweCiphertextRef<S>), &[a, c], i!(s, 3, PublicFunctionalKeyswitchKeyRef<S>), f, &l, &g, &rd)
            })
        }
        "generate_automorphism_key" => {
            random = true;
            b.t("ak", Out, z_ak(&g, &rd), zv).k("sk", kn, n);
            Box::new(move |s| generate_automorphism_key(m!(s, 0, AutomorphismKeyRef<S>), i!(s, 1, GlweSecretKeyRef<S>), &g, &rd))
        }
        "trace" => {
            b.t("out", Out, zg, n).t("x", In, zg, n).c("ak", In, z_ak(&g, &rd) / 2, zv / 2);
            Box::new(move |s| trace(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), ci!(s, 2, AutomorphismKeyFftRef<C64>), &g, &rd))
        }
        "fft glwe_ggsw_mad" | "fft glwe_ggsw_mad accumulate" => {
            b.c("c", InOut, zg / 2, n / 2).t("a", In, zg, n).c("b", In, zw / 2, zv / 2);
            Box::new(move |s| fft_ops::glwe_ggsw_mad(cm!(s, 0, GlweCiphertextFftRef<C64>), i!(s, 1, GlweCiphertextRef<S>), ci!(s, 2, GgswCiphertextFftRef<C64>), &g, &rd))
        }
        "fft decomposed_polynomial_glev_mad" => {
            b.c("c", InOut, zg / 2, n / 2).t("a", In, n, n).c("b", In, zv / 2, zg / 2);
            Box::new(move |s| {
                let mut o = vec![S::of(0x5a5a5a5a); i!(s, 1, PolynomialRef<Torus<S>>).len()];
                let o = unsafe { &mut *(o.as_mut_slice() as *mut [S] as *mut PolynomialRef<S>) };
                let it = PolynomialRadixIterator::new(i!(s, 1, PolynomialRef<Torus<S>>), o, &rd);
                fft_ops::decomposed_polynomial_glev_mad(cm!(s, 0, GlweCiphertextFftRef<C64>), it, ci!(s, 2, GlevCiphertextFftRef<C64>), &g)
            })
        }
        "fft glwe_polynomial_mad" => {
            b.c("c", InOut, zg / 2, n / 2).c("a", In, zg / 2, n / 2).c("b", In, n / 2, n / 2);
            Box::new(move |s| fft_ops::glwe_polynomial_mad(cm!(s, 0, GlweCiphertextFftRef<C64>), ci!(s, 1, GlweCiphertextFftRef<C64>), ci!(s, 2, PolynomialFftRef<C64>), &g))
        }
        "cmux" => {
            b.t("c", Out, zg, n).t("d_0", In, zg, n).t("d_1", In, zg, n).c("b", In, zw / 2, zv / 2);
            Box::new(move |s| fft_ops::cmux(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GlweCiphertextRef<S>), ci!(s, 3, GgswCiphertextFftRef<C64>), &g, &rd))
        }
        "glev_cmux" => {
            let z2 = z_glev(&g, &r2);
            b.t("c", Out, z2, zg).t("d_0", In, z2, zg).t("d_1", In, z2, zg).c("b", In, zw / 2, zv / 2);
            Box::new(move |s| fft_ops::glev_cmux(m!(s, 0, GlevCiphertextRef<S>), i!(s, 1, GlevCiphertextRef<S>), i!(s, 2, GlevCiphertextRef<S>), ci!(s, 3, GgswCiphertextFftRef<C64>), &g, &rd))
        }
        "encrypt_ggsw_ciphertext" => {
            random = true;
            b.t("ggsw", Out, zw, zv).k("msg", n, n).k("sk", kn, n);
            Box::new(move |s| en::encrypt_ggsw_ciphertext(m!(s, 0, GgswCiphertextRef<S>), i!(s, 1, PolynomialRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &g, &rd, PlaintextBits(1)))
        }
        "trivially_encrypt_ggsw_ciphertext" => {
            b.t("ggsw", Out, zw, zv).k("msg", n, n);
            Box::new(move |s| en::trivially_encrypt_ggsw_ciphertext(m!(s, 0, GgswCiphertextRef<S>), i!(s, 1, PolynomialRef<S>), &g, &rd, PlaintextBits(1)))
        }
        "encrypt_ggsw_ciphertext_scalar" => {
            random = true;
            b.t("ggsw", Out, zw, zv).k("sk", kn, n);
            Box::new(move |s| en::encrypt_ggsw_ciphertext_scalar(m!(s, 0, GgswCiphertextRef<S>), S::of(x1 & 1), i!(s, 1, GlweSecretKeyRef<S>), &g, &rd, PlaintextBits(1)))
        }
        "decrypt_ggsw_ciphertext" => {
            b.t("msg", Out, n, n).t("ggsw", In, zw, zv).k("sk", kn, n);
            Box::new(move |s| en::decrypt_ggsw_ciphertext(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, GgswCiphertextRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &g, &rd))
        }
        "encrypt_secret_glev_ciphertext" => {
            random = true;
            b.t("glev", Out, zv, zg).t("msg", In, n, n).k("sk", kn, n);
            Box::new(move |s| en::encrypt_secret_glev_ciphertext(m!(s, 0, GlevCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, GlweSecretKeyRef<S>), &g, &rd))
        }
        "trivially_encrypt_glev_ciphertext" => {
            b.t("glev", Out, zv, zg).t("msg", In, n, n);
            Box::new(move |s| en::trivially_encrypt_glev_ciphertext(m!(s, 0, GlevCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), &g, &rd))
        }
        "encrypt_rlev_ciphertext" => {
            random = true;
            let g = gdef(1, n, g.std.0);
            b.t("glev", Out, 2 * n * rl(&rd), 2 * n).t("msg", In, n, n).t("pk", In, 2 * n, n);
            Box::new(move |s| en::encrypt_rlev_ciphertext(m!(s, 0, GlevCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, RlwePublicKeyRef<S>), &g, &rd))
        }
        "decrypt_glev_ciphertext" => {
            b.t("msg", Out, n, n).t("glev", In, zv, zg).k("sk", kn, n);
            Box::new(move |s| en::decrypt_glev_ciphertext(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, GlevCiphertextRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &g, &rd))
        }
        "encrypt_glwe_ciphertext_secret" => {
            random = true;
            b.t("c", Out, zg, n).t("msg", In, n, n).k("sk", kn, n);
            Box::new(move |s| en::encrypt_glwe_ciphertext_secret(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, GlweSecretKeyRef<S>), &g))
        }
        "trivially_encrypt_glwe_ciphertext" => {
            b.t("c", Out, zg, n).t("msg", In, n, n);
            Box::new(move |s| en::trivially_encrypt_glwe_ciphertext(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), &g))
        }
        "decrypt_glwe_ciphertext" => {
            b.t("msg", Out, n, n).t("ct", In, zg, n).k("sk", kn, n);
            Box::new(move |s| en::decrypt_glwe_ciphertext(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, GlweCiphertextRef<S>), i!(s, 2, GlweSecretKeyRef<S>), &g))
        }
        "trivially_encrypt_lwe_ciphertext" => {
            b.t("c", Out, zl, 1);
            Box::new(move |s| en::trivially_encrypt_lwe_ciphertext(m!(s, 0, LweCiphertextRef<S>), &Torus::from(sc), &l))
        }
        "encrypt_lwe_ciphertext" => {
            random = true;
            b.t("ct", Out, zl, 1).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                en::encrypt_lwe_ciphertext(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweSecretKeyRef<S>), Torus::from(sc), &l);
            })
        }
        "encode_and_encrypt_lwe_ciphertext" => {
            random = true;
            b.t("ct", Out, zl, 1).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                en::encode_and_encrypt_lwe_ciphertext(m!(s, 0, LweCiphertextRef<S>), i!(s, 1, LweSecretKeyRef<S>), S::of(x1 & 1), &l, PlaintextBits(1));
            })
        }
        "rlwe_generate_public_key" => {
            random = true;
            let g = gdef(1, n, g.std.0);
            b.t("pk", Out, 2 * n, n).k("sk", n, n);
            Box::new(move |s| en::rlwe_generate_public_key(m!(s, 0, RlwePublicKeyRef<S>), i!(s, 1, GlweSecretKeyRef<S>), &g))
        }
        "rlwe_encrypt_public" => {
            random = true;
            let g = gdef(1, n, g.std.0);
            b.t("ct", Out, 2 * n, n).t("msg", In, n, n).t("pk", In, 2 * n, n);
            Box::new(move |s| {
                en::rlwe_encrypt_public(m!(s, 0, GlweCiphertextRef<S>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, RlwePublicKeyRef<S>), &g);
            })
        }
        "LweSecretKeyRef::encrypt" => {
            random = true;
            b.t("result", Out, 0, 0).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                let o = i!(s, 1, LweSecretKeyRef<S>).encrypt(S::of(x1 & 1), &l, PlaintextBits(1)).0;
                put(&mut s[0], &*o)
            })
        }
        "LweSecretKeyRef::decrypt" => {
            b.t("result", Out, 0, 0).t("ct", In, zl, 1).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                let o = i!(s, 2, LweSecretKeyRef<S>).decrypt(i!(s, 1, LweCiphertextRef<S>), &l, PlaintextBits(4));
                s[0].d = D::T(vec![o]);
            })
        }
        "decrypt without decode" => {
            b.t("result", Out, 0, 0).t("ct", In, zl, 1).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                let o = i!(s, 2, LweSecretKeyRef<S>).decrypt_without_decode(i!(s, 1, LweCiphertextRef<S>), &l);
                s[0].d = D::T(vec![o.inner()]);
            })
        }
        "LwePublicKey::generate" => {
            random = true;
            b.t("result", Out, 0, 0).k("sk", l.dim.0, 1);
            Box::new(move |s| {
                let o = LwePublicKey::<S>::generate(i!(s, 1, LweSecretKeyRef<S>), &l);
                put(&mut s[0], &*o)
            })
        }
        "LwePublicKeyRef::encrypt" => {
            random = true;
            b.t("result", Out, 0, 0).t("pk", In, zl * l.dim.0, zl);
            Box::new(move |s| {
                let o = i!(s, 1, LwePublicKeyRef<S>).encrypt(S::of(x1 & 1), &l, PlaintextBits(1)).0;
                put(&mut s[0], &*o)
            })
        }
        "GlweSecretKeyRef::decrypt_decode_glwe" => {
            b.t("result", Out, 0, 0).t("ct", In, zg, n).k("sk", kn, n);
            Box::new(move |s| {
                let o = i!(s, 2, GlweSecretKeyRef<S>).decrypt_decode_glwe(i!(s, 1, GlweCiphertextRef<S>), &g, PlaintextBits(4));
                put(&mut s[0], &*o)
            })
        }
        "GlweSecretKeyRef::encode_encrypt_glwe" => {
            random = true;
            b.t("result", Out, 0, 0).k("msg", n, n).k("sk", kn, n);
            Box::new(move |s| {
                let o = i!(s, 2, GlweSecretKeyRef<S>).encode_encrypt_glwe(i!(s, 1, PolynomialRef<S>), &g, PlaintextBits(4));
                put(&mut s[0], &*o)
            })
        }
        "GlweSecretKeyRef::encode_encrypt_ggsw" => {
            random = true;
            b.t("result", Out, 0, 0).k("msg", n, n).k("sk", kn, n);
            Box::new(move |s| {
                let o = i!(s, 2, GlweSecretKeyRef<S>).encode_encrypt_ggsw(i!(s, 1, PolynomialRef<S>), &g, &rd, PlaintextBits(1));
                put(&mut s[0], &*o)
            })
        }
        "glwe fft" => {
            b.c("result", Out, zg / 2, n / 2).t("ct", In, zg, n);
            Box::new(move |s| i!(s, 1, GlweCiphertextRef<S>).fft(cm!(s, 0, GlweCiphertextFftRef<C64>), &g))
        }
        "glwe ifft" => {
            b.t("result", Out, zg, n).c("ct", In, zg / 2, n / 2);
            Box::new(move |s| ci!(s, 1, GlweCiphertextFftRef<C64>).ifft(m!(s, 0, GlweCiphertextRef<S>), &g))
        }
        "glev fft" => {
            b.c("result", Out, zv / 2, zg / 2).t("ct", In, zv, zg);
            Box::new(move |s| i!(s, 1, GlevCiphertextRef<S>).fft(cm!(s, 0, GlevCiphertextFftRef<C64>), &g))
        }
        "glev ifft" => {
            b.t("result", Out, zv, zg).c("ct", In, zv / 2, zg / 2);
            Box::new(move |s| ci!(s, 1, GlevCiphertextFftRef<C64>).ifft(m!(s, 0, GlevCiphertextRef<S>), &g))
        }
        "ggsw fft" => {
            b.c("result", Out, zw / 2, zv / 2).t("ct", In, zw, zv);
            Box::new(move |s| i!(s, 1, GgswCiphertextRef<S>).fft(cm!(s, 0, GgswCiphertextFftRef<C64>), &g, &rd))
        }
        "ggsw ifft" => {
            b.t("result", Out, zw, zv).c("ct", In, zw / 2, zv / 2);
            Box::new(move |s| ci!(s, 1, GgswCiphertextFftRef<C64>).ifft(m!(s, 0, GgswCiphertextRef<S>), &g, &rd))
        }
        "bootstrap key fft" => {
            b.c("result", Out, zw / 2 * l.dim.0, zw / 2).t("bsk", In, zw * l.dim.0, zw);
            Box::new(move |s| i!(s, 1, BootstrapKeyRef<S>).fft(cm!(s, 0, BootstrapKeyFftRef<C64>), &l, &g, &rd))
        }
        "bootstrap key ifft" => {
            b.t("result", Out, zw * l.dim.0, zw).c("bsk", In, zw / 2 * l.dim.0, zw / 2);
            Box::new(move |s| ci!(s, 1, BootstrapKeyFftRef<C64>).ifft(m!(s, 0, BootstrapKeyRef<S>), &g, &rd))
        }
        "scheme switch key fft" => {
            b.c("result", Out, z_ssk(&g, &rd) / 2, zv / 2).t("ssk", In, z_ssk(&g, &rd), zv);
            Box::new(move |s| i!(s, 1, SchemeSwitchKeyRef<S>).fft(cm!(s, 0, SchemeSwitchKeyFftRef<C64>), &g, &rd))
        }
        "scheme switch key ifft" => {
            b.t("result", Out, z_ssk(&g, &rd), zv).c("ssk", In, z_ssk(&g, &rd) / 2, zv / 2);
            Box::new(move |s| ci!(s, 1, SchemeSwitchKeyFftRef<C64>).ifft(m!(s, 0, SchemeSwitchKeyRef<S>), &g, &rd))
        }
        "automorphism key fft" => {
            b.c("result", Out, 0, 0).t("ak", In, z_ak(&g, &rd), zv);
            Box::new(move |s| {
                let mut o = AutomorphismKeyFft::<C64>::new(&g, &rd);
                i!(s, 1, AutomorphismKeyRef<S>).fft(&mut o, &g, &rd);
                s[0].d = D::C(AVec::from_slice(64, rawc::<AutomorphismKeyFftRef<C64>>(&o)));
            })
        }
        "glwe keyswitch key fft" => {
            b.c("result", Out, zv * k / 2, zv / 2).t("key", In, zv * k, zv);
            Box::new(move |s| i!(s, 1, GlweKeyswitchKeyRef<S>).fft(cm!(s, 0, GlweKeyswitchKeyFftRef<C64>), &g, &rd))
        }
        "glwe keyswitch key ifft" => {
            b.t("result", Out, 0, 0).c("key", In, zv * k / 2, zv / 2);
            Box::new(move |s| {
                let mut o = GlweKeyswitchKey::<S>::new(&g, &rd);
                ci!(s, 1, GlweKeyswitchKeyFftRef<C64>).ifft(&mut o, &g, &rd);
                put(&mut s[0], &*o)
            })
        }
        "blind rotation shift ifft" => {
            let lg = n.ilog2() as usize;
            b.t("result", Out, zw * lg, zw).c("index", In, zw / 2 * lg, zw / 2);
            Box::new(move |s| ci!(s, 1, BlindRotationShiftFftRef<C64>).ifft(m!(s, 0, BlindRotationShiftRef<S>), &g, &rd))
        }
        "polynomial fft" => {
            b.c("out", Out, n / 2, n / 2).t("p", In, n, n);
            Box::new(move |s| i!(s, 1, PolynomialRef<Torus<S>>).fft(cm!(s, 0, PolynomialFftRef<C64>)))
        }
        "polynomial ifft" => {
            b.t("out", Out, n, n).c("p", In, n / 2, n / 2);
            Box::new(move |s| ci!(s, 1, PolynomialFftRef<C64>).ifft(m!(s, 0, PolynomialRef<Torus<S>>)))
        }
        "polynomial fft multiply_add" => {
            b.c("c", InOut, n / 2, n / 2).c("a", In, n / 2, n / 2).c("b", In, n / 2, n / 2);
            Box::new(move |s| cm!(s, 0, PolynomialFftRef<C64>).multiply_add(ci!(s, 1, PolynomialFftRef<C64>), ci!(s, 2, PolynomialFftRef<C64>)))
        }
        "lookup table fill" => {
            let g = gdef(k, if n < 8 && n.is_power_of_two() { 8 } else { n }, g.std.0);
            b.t("table", Out, z_glwe(&g), gn(&g));
            let z = 1 + x1 as usize % 2;
            Box::new(move |s| {
                let f0 = |x: u64| (x.wrapping_mul(5) ^ x1) & 1;
                let f1 = |x: u64| (x.wrapping_add(x1 >> 9)) & 1;
                let fs: [&dyn Fn(u64) -> u64; 2] = [&f0, &f1];
                m!(s, 0, UnivariateLookupTableRef<S>).fill_trivial_from_fns(&fs[..z], &g, PlaintextBits(1))
            })
        }
        "bivariate table fill" => {
            let g = gdef(k, if n < 16 && n.is_power_of_two() { 16 } else { n }, g.std.0);
            b.t("table", Out, z_glwe(&g), gn(&g));
            Box::new(move |s| m!(s, 0, BivariateLookupTableRef<S>).fill_trivial_from_fn(|a, b| (a ^ b ^ x1) & 1, &g, PlaintextBits(1), CarryBits(1)))
        }
        "polynomial_add" => {
            b.t("c", Out, n, n).t("a", In, n, n).t("b", In, n, n);
            Box::new(move |s| pl::polynomial_add(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, PolynomialRef<Torus<S>>)))
        }
        "polynomial_sub" => {
            b.t("c", Out, n, n).t("a", In, n, n).t("b", In, n, n);
            Box::new(move |s| pl::polynomial_sub(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, PolynomialRef<Torus<S>>)))
        }
        "polynomial_add_assign" => {
            b.t("c", InOut, n, n).t("a", In, n, n);
            Box::new(move |s| pl::polynomial_add_assign(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>)))
        }
        "polynomial_sub_assign" => {
            b.t("c", InOut, n, n).t("a", In, n, n);
            Box::new(move |s| pl::polynomial_sub_assign(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>)))
        }
        "polynomial_negate" => {
            b.t("c", InOut, n, 0);
            Box::new(move |s| pl::polynomial_negate(m!(s, 0, PolynomialRef<Torus<S>>)))
        }
        "polynomial_scalar_mul" => {
            b.t("c", Out, n, n).t("a", In, n, n);
            Box::new(move |s| pl::polynomial_scalar_mul(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), sc))
        }
        "polynomial_scalar_mad" => {
            b.t("c", InOut, n, n).t("a", In, n, n);
            Box::new(move |s| pl::polynomial_scalar_mad(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), sc))
        }
        "polynomial_external_mad" => {
            b.t("c", InOut, n, n).t("a", In, n, n).t("b", In, n, n);
            Box::new(move |s| pl::polynomial_external_mad(m!(s, 0, PolynomialRef<Torus<S>>), i!(s, 1, PolynomialRef<Torus<S>>), i!(s, 2, PolynomialRef<S>)))
        }
        "polynomial_mad" => {
            b.t("c", InOut, n, n).t("a", In, n, n).t("b", In, n, n);
            Box::new(move |s| {
                use std::num::Wrapping as W;
                if S::W == 64 {
                    pl::polynomial_mad(wm::<S, W<u64>>(&mut s[0]), wm(&mut s[1]), wm(&mut s[2]))
                } else {
                    pl::polynomial_mad(wm::<S, W<u32>>(&mut s[0]), wm(&mut s[1]), wm(&mut s[2]))
                }
            })
        }
        "polynomial mul monomial" => {
            b.t("c", InOut, n, 0);
            let e = (x1 % (2 * n as u64 - 1)) as isize - (n as isize - 1);
            Box::new(move |s| m!(s, 0, PolynomialRef<Torus<S>>).mul_by_monomial_negacyclic(e))
        }
        "polynomial operators" => {
            b.t("sum", Out, 0, 0).t("difference", Out, 0, 0).t("a", In, n, n).t("b", In, n, n);
            Box::new(move |s| {
                let (a, c) = (i!(s, 2, PolynomialRef<Torus<S>>), i!(s, 3, PolynomialRef<Torus<S>>));
                let (x, y) = (a + c, a - c);
                put(&mut s[0], &*x);
                put(&mut s[1], &*y);
            })
        }
        "lwe operators" => {
            b.t("sum", Out, 0, 0).t("difference", Out, 0, 0).t("a", In, zl, 1).t("b", In, zl, 1);
            Box::new(move |s| {
                let (a, c) = (i!(s, 2, LweCiphertextRef<S>), i!(s, 3, LweCiphertextRef<S>));
                let (x, y) = (a + c, a - c);
                put(&mut s[0], &*x);
                put(&mut s[1], &*y);
            })
        }
        "glwe operators" => {
            b.t("sum", Out, 0, 0).t("difference", Out, 0, 0).t("a", In, zg, n).t("b", In, zg, n);
            Box::new(move |s| {
                let (a, c) = (i!(s, 2, GlweCiphertextRef<S>), i!(s, 3, GlweCiphertextRef<S>));
                let (x, y) = (a + c, a - c);
                put(&mut s[0], &*x);
                put(&mut s[1], &*y);
            })
        }
        "lwe key operators" => {
            b.t("sum", Out, 0, 0).t("difference", Out, 0, 0).k("a", zl, 1).k("b", zl, 1);
            Box::new(move |s| {
                let (a, c) = (i!(s, 2, LweSecretKeyRef<S>), i!(s, 3, LweSecretKeyRef<S>));
                let (x, y) = (a + c, a - c);
                put(&mut s[0], &*x);
                put(&mut s[1], &*y);
            })
        }
        "glwe key operators" => {
            b.t("sum", Out, 0, 0).t("difference", Out, 0, 0).k("a", zg, n).k("b", zg, n);
            Box::new(move |s| {
                let (a, c) = (i!(s, 2, GlweSecretKeyRef<S>), i!(s, 3, GlweSecretKeyRef<S>));
                let (x, y) = (a + c, a - c);
                put(&mut s[0], &*x);
                put(&mut s[1], &*y);
            })
        }
        "clone_from_ref" => {
            b.t("c", Out, zg, n).t("a", In, zg, n);
            Box::new(move |s| m!(s, 0, GlweCiphertextRef<S>).clone_from_ref(i!(s, 1, GlweCiphertextRef<S>)))
        }
        _ => unreachable!("{name}"),
    };
    let desc = format!("{name}: {} bit, k={k} n={n} (second k={} n={n2}), lwe {} and {}, radix {}x{}, {}x{}, {}x{}, {}x{}", S::W, gk(&g2), l.dim.0, l2.dim.0, rl(&rd), rb(&rd), rl(&r2), rb(&r2), rl(&r3), rb(&r3), rl(&r4), rb(&r4));
    let rows = match name {
        "generate_bootstrap_key" | "generate_private_functional_keyswitch_key" | "generate_circuit_bootstrapping_pfks_keys" | "generate_public_functional_keyswitch_key" => Some((0, n, 2)),
        "generate_keyswitch_key_lwe" => Some((0, 0, 2)),
        _ => None,
    };
    Inst { name, slots: b.v, run, random, desc, exact: g.std.0 == 0.0, rows }
}
/// the slot's elements as another type of the same size
fn wm<'a, S: Word, T: Clone>(s: &mut Slot<S>) -> &'a mut PolynomialRef<T> {
    assert_eq!(std::mem::size_of::<S>(), std::mem::size_of::<T>());
    unsafe { &mut *(sp(s) as *mut [T] as *mut PolynomialRef<T>) }
}
fn ssk_gen<S: Word>(k: &mut SchemeSwitchKeyRef<S>, sk: &GlweSecretKeyRef<S>, g: &GlweDef, r: &RadixDecomposition) {
    // both words meet the bounds
    if S::W == 64 {
        let k = unsafe { &mut *(k as *mut SchemeSwitchKeyRef<S> as *mut SchemeSwitchKeyRef<u64>) };
        generate_scheme_switch_key(k, unsafe { &*(sk as *const GlweSecretKeyRef<S> as *const GlweSecretKeyRef<u64>) }, g, r)
    } else {
        let k = unsafe { &mut *(k as *mut SchemeSwitchKeyRef<S> as *mut SchemeSwitchKeyRef<u32>) };
        generate_scheme_switch_key(k, unsafe { &*(sk as *const GlweSecretKeyRef<S> as *const GlweSecretKeyRef<u32>) }, g, r)
    }
}
