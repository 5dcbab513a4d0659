//! C33: programs run by the virtual processor give what an interpreter that executes one
//! instruction after the other gives, and faults are errors.
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::tomasulo::registers::RegisterName;
use parasol_cpu::{ArgsBuilder, Ciphertext, Error, FheComputer, Memory, Ptr32, Register, RunProgramOptions, RunProgramOptionsBuilder};
use parasol_runtime::fluent::*;
use parasol_runtime::L1GlweCiphertext;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};
use vover::toy::{keys, Keys};
use vover::*;

type R<T> = std::result::Result<T, Fail>;
type Reg = RegisterName<Register>;

fn x(i: usize) -> Reg {
    Reg::new(i)
}
fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn sext(v: u128, w: u32) -> u128 {
    if v >> (w - 1) & 1 == 1 {
        v | !mask(w)
    } else {
        v
    }
}

/// The value of a register: bits, width, and whether they are encrypted.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct V {
    v: u128,
    w: u32,
    e: bool,
}
fn plain(v: u128, w: u32) -> V {
    V { v: v & mask(w), w, e: false }
}

/// What one instruction does to registers, without memory and control.
fn alu(op: &IsaOp, g: &dyn Fn(Reg) -> V) -> std::result::Result<Vec<(Reg, V)>, &'static str> {
    use IsaOp::*;
    let same = |a: V, b: V| if a.w == b.w { Ok(()) } else { Err("widths differ") };
    let bin = |d: Reg, a: Reg, b: Reg, f: &dyn Fn(u128, u128, u32) -> u128| {
        let (a, b) = (g(a), g(b));
        same(a, b)?;
        Ok(vec![(d, V { v: f(a.v, b.v, a.w) & mask(a.w), w: a.w, e: a.e || b.e })])
    };
    let cmp = |d: Reg, a: Reg, b: Reg, s: bool, f: &dyn Fn(std::cmp::Ordering) -> bool| {
        let (a, b) = (g(a), g(b));
        same(a, b)?;
        let o = if s { (sext(a.v, a.w) as i128).cmp(&(sext(b.v, b.w) as i128)) } else { a.v.cmp(&b.v) };
        Ok(vec![(d, V { v: f(o) as u128, w: 1, e: a.e || b.e })])
    };
    // bit i of the result of a shift
    let shift = |d: Reg, s: Reg, n: Reg, f: &dyn Fn(&V, u32, u128) -> bool| {
        let (s, n) = (g(s), g(n));
        if n.e && matches!(op, Rotl(..) | Rotr(..)) && !s.w.is_power_of_two() {
            return Err("encrypted rotation of a width that is no power of two");
        }
        let v = (0..s.w).fold(0u128, |acc, i| acc | (f(&s, i, n.v) as u128) << i);
        Ok(vec![(d, V { v, w: s.w, e: s.e || n.e })])
    };
    let bit = |s: &V, i: u128| s.v >> i & 1 == 1;
    match *op {
        LoadI(d, imm, w) => {
            let neg = w < 32 && (imm as i32) < 0 && (imm as i32) >= -(1i64 << (w - 1)) as i32;
            if w < 32 && imm as u128 > mask(w) && !neg {
                return Err("immediate out of range");
            }
            Ok(vec![(d, plain(imm as u128, w))])
        }
        Trunc(d, s, w) => {
            let s = g(s);
            if w > s.w {
                return Err("truncation widens");
            }
            Ok(vec![(d, V { v: s.v & mask(w), w, e: s.e })])
        }
        Zext(d, s, w) | Sext(d, s, w) => {
            let s = g(s);
            if w < s.w {
                return Err("extension narrows");
            }
            let v = if matches!(op, Sext(..)) { sext(s.v, s.w) & mask(w) } else { s.v };
            Ok(vec![(d, V { v, w, e: s.e })])
        }
        Move(d, s) => Ok(vec![(d, g(s))]),
        Not(d, s) => {
            let s = g(s);
            Ok(vec![(d, V { v: !s.v & mask(s.w), ..s })])
        }
        Neg(d, s) => {
            let s = g(s);
            Ok(vec![(d, V { v: s.v.wrapping_neg() & mask(s.w), ..s })])
        }
        And(d, a, b) => bin(d, a, b, &|a, b, _| a & b),
        Or(d, a, b) => bin(d, a, b, &|a, b, _| a | b),
        Xor(d, a, b) => bin(d, a, b, &|a, b, _| a ^ b),
        Add(d, a, b) => bin(d, a, b, &|a, b, _| a.wrapping_add(b)),
        Sub(d, a, b) => bin(d, a, b, &|a, b, _| a.wrapping_sub(b)),
        Mul(d, a, b) => bin(d, a, b, &|a, b, _| a.wrapping_mul(b)),
        AddC(d, co, a, b, ci) | SubB(d, co, a, b, ci) => {
            let (a, b, ci) = (g(a), g(b), g(ci));
            same(a, b)?;
            if ci.w != 1 {
                return Err("carry is not one bit");
            }
            let (r, c) = if matches!(op, AddC(..)) {
                let (s, c1) = a.v.overflowing_add(b.v);
                let (s, c2) = s.overflowing_add(ci.v);
                (s & mask(a.w), if a.w == 128 { c1 || c2 } else { s >> a.w & 1 == 1 })
            } else {
                let (s, c1) = a.v.overflowing_sub(b.v);
                let (s, c2) = s.overflowing_sub(ci.v);
                (s & mask(a.w), c1 || c2)
            };
            let e = a.e || b.e || ci.e;
            Ok(vec![(d, V { v: r, w: a.w, e }), (co, V { v: c as u128, w: 1, e })])
        }
        Shl(d, s, n) => shift(d, s, n, &|s, i, n| n <= i as u128 && bit(s, i as u128 - n)),
        Shr(d, s, n) => shift(d, s, n, &|s, i, n| n < s.w as u128 && i as u128 + n < s.w as u128 && bit(s, i as u128 + n)),
        Shra(d, s, n) => shift(d, s, n, &|s, i, n| bit(s, if n < s.w as u128 && i as u128 + n < s.w as u128 { i as u128 + n } else { s.w as u128 - 1 })),
        Rotr(d, s, n) => shift(d, s, n, &|s, i, n| bit(s, (i as u128 + n % s.w as u128) % s.w as u128)),
        Rotl(d, s, n) => shift(d, s, n, &|s, i, n| bit(s, (i as u128 + s.w as u128 - n % s.w as u128) % s.w as u128)),
        CmpEq(d, a, b) => cmp(d, a, b, false, &|o| o.is_eq()),
        CmpGt(d, a, b) => cmp(d, a, b, false, &|o| o.is_gt()),
        CmpGe(d, a, b) => cmp(d, a, b, false, &|o| o.is_ge()),
        CmpLt(d, a, b) => cmp(d, a, b, false, &|o| o.is_lt()),
        CmpLe(d, a, b) => cmp(d, a, b, false, &|o| o.is_le()),
        CmpGtS(d, a, b) => cmp(d, a, b, true, &|o| o.is_gt()),
        CmpGeS(d, a, b) => cmp(d, a, b, true, &|o| o.is_ge()),
        CmpLtS(d, a, b) => cmp(d, a, b, true, &|o| o.is_lt()),
        CmpLeS(d, a, b) => cmp(d, a, b, true, &|o| o.is_le()),
        Cmux(d, s, a, b) => {
            let (s, a, b) = (g(s), g(a), g(b));
            same(a, b)?;
            if s.w != 1 {
                return Err("select is not one bit");
            }
            Ok(vec![(d, V { v: if s.v != 0 { a.v } else { b.v }, w: a.w, e: s.e || a.e || b.e })])
        }
        _ => unreachable!(),
    }
}
/// Encrypted operations whose circuits are large or take long to build.
fn dear(op: &IsaOp, g: &dyn Fn(Reg) -> V) -> bool {
    use IsaOp::*;
    match *op {
        Shl(_, s, n) | Shr(_, s, n) | Shra(_, s, n) | Rotl(_, s, n) | Rotr(_, s, n) => g(n).e && (g(n).w > 3 || g(s).w > 8),
        Mul(_, a, b) => (g(a).e || g(b).e) && g(a).w > 8,
        _ => false,
    }
}
/// The documented price of an instruction.
fn gas(op: &IsaOp, g: &dyn Fn(Reg) -> V) -> u32 {
    use IsaOp::*;
    let p = |enc: bool, price: u32| if enc { price } else { 1 };
    match *op {
        Ret() => 0,
        Not(_, a) | Neg(_, a) => p(g(a).e, 100_000),
        And(_, a, b) | Or(_, a, b) | Xor(_, a, b) | Add(_, a, b) | Sub(_, a, b) | CmpEq(_, a, b) | CmpGt(_, a, b) | CmpGe(_, a, b) | CmpLt(_, a, b) | CmpLe(_, a, b) | CmpGtS(_, a, b) | CmpGeS(_, a, b) | CmpLtS(_, a, b) | CmpLeS(_, a, b) => p(g(a).e || g(b).e, 100_000),
        Mul(_, a, b) => p(g(a).e || g(b).e, 500_000),
        Shl(_, _, n) | Shr(_, _, n) | Shra(_, _, n) | Rotl(_, _, n) | Rotr(_, _, n) => p(g(n).e, 100_000),
        AddC(_, _, a, b, c) | SubB(_, _, a, b, c) | Cmux(_, a, b, c) => p(g(a).e || g(b).e || g(c).e, 100_000),
        _ => 1,
    }
}

/// The sequential machine.
#[derive(Clone)]
struct Machine {
    regs: Vec<V>,
    /// bytes of data memory; addresses outside fault
    mem: BTreeMap<u32, (u8, bool)>,
    base: u32,
    code: Vec<IsaOp>,
    /// encrypted operations that take long count as faults
    cheap: bool,
}
struct Run {
    /// (pc, value) of every executed Dbg, with the number of the instruction
    trace: Vec<(usize, u32, V)>,
    gas: u64,
    steps: usize,
    /// fault and where
    fault: Option<(&'static str, usize)>,
}
const MAX_STEPS: usize = 400;

impl Machine {
    fn run(mut self) -> Run {
        use IsaOp::*;
        let mut r = Run { trace: vec![], gas: 0, steps: 0, fault: None };
        let mut i: i64 = 0;
        let n = self.code.len() as i64;
        loop {
            if i < 0 || i >= n {
                r.fault = Some(("jump outside the program", r.steps));
                return r;
            }
            let at = i as usize;
            if r.steps == MAX_STEPS {
                r.fault = Some(("too long", at));
                return r;
            }
            let op = self.code[at];
            r.steps += 1;
            let regs = self.regs.clone();
            let g = |q: Reg| regs[q.name];
            r.gas += gas(&op, &g) as u64;
            let mut next = i + 1;
            let jump = |off: i32| -> Option<i64> { (off % 8 == 0).then(|| i + off as i64 / 8) };
            let fault = match op {
                Ret() => return r,
                Dbg(s, h) => {
                    if h == 0 {
                        r.trace.push((r.steps - 1, self.base + 8 * at as u32, g(s)));
                    }
                    None
                }
                Branch(off) => match jump(off) {
                    Some(t) => {
                        next = t;
                        None
                    }
                    None => Some("unaligned jump"),
                },
                BranchNonZero(cnd, off) | BranchZero(cnd, off) => {
                    let v = g(cnd);
                    if v.e {
                        Some("encrypted condition")
                    } else if (v.v != 0) == matches!(op, BranchNonZero(..)) {
                        match jump(off) {
                            Some(t) => {
                                next = t;
                                None
                            }
                            None => Some("unaligned jump"),
                        }
                    } else {
                        None
                    }
                }
                Load(d, s, w, off) => self.addr(g(s), w, off).and_then(|a| {
                    let bytes: Option<Vec<(u8, bool)>> = (0..w / 8).map(|j| self.mem.get(&(a + j)).copied()).collect();
                    let bytes = bytes.ok_or("unmapped load")?;
                    if bytes.iter().any(|b| b.1 != bytes[0].1) {
                        return Err("mixed load");
                    }
                    let v = bytes.iter().rev().fold(0u128, |acc, b| acc << 8 | b.0 as u128);
                    self.regs[d.name] = V { v, w, e: bytes[0].1 };
                    Ok(())
                }).err(),
                Store(p, s, w, off) => self.addr(g(p), w, off).and_then(|a| {
                    let v = g(s);
                    if v.e && v.w < w {
                        return Err("encrypted store wider than the register");
                    }
                    for j in 0..w / 8 {
                        *self.mem.get_mut(&(a + j)).ok_or("unmapped store")? = ((v.v >> (8 * j)) as u8, v.e);
                    }
                    Ok(())
                }).err(),
                _ if self.cheap && dear(&op, &g) => Some("slow"),
                _ => match alu(&op, &g) {
                    Ok(ws) => {
                        for (d, v) in ws {
                            self.regs[d.name] = v;
                        }
                        None
                    }
                    Err(e) => Some(e),
                },
            };
            if let Some(f) = fault {
                r.fault = Some((f, at));
                return r;
            }
            i = next;
        }
    }
    fn addr(&self, p: V, w: u32, off: i32) -> std::result::Result<u32, &'static str> {
        if p.e {
            return Err("encrypted address");
        }
        let a = (p.v as u32 as i64) + off as i64;
        if !(0..1i64 << 32).contains(&a) {
            return Err("address overflow");
        }
        let n = w / 8;
        if ![1, 2, 4, 8, 16].contains(&n) || a % n as i64 != 0 {
            return Err("unaligned");
        }
        Ok(a as u32)
    }
}

thread_local! {
    static PCS: RefCell<BTreeMap<usize, FheComputer>> = const { RefCell::new(BTreeMap::new()) };
}
fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    static P: OnceLock<Mutex<BTreeMap<usize, Arc<rayon::ThreadPool>>>> = OnceLock::new();
    P.get_or_init(Default::default).lock().unwrap().entry(n).or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())).clone()
}
/// Runs on a computer that earlier cases of this thread used as well; one that panicked is
/// thrown away.
fn with_pc<T>(threads: usize, k: &Keys, f: impl FnOnce(&mut FheComputer) -> T) -> T {
    let mut pc = PCS.with(|p| p.borrow_mut().remove(&threads)).unwrap_or_else(|| FheComputer::new_with_threadpool(&k.enc, &k.eval, pool(threads)));
    let r = f(&mut pc);
    PCS.with(|p| p.borrow_mut().insert(threads, pc));
    r
}
/// Decrypts what a debug handler saw.
fn open(k: &Keys, r: &Register) -> R<V> {
    Ok(match r {
        Register::Plaintext { val, width } => {
            if *width == 0 || *width > 128 || *val & !mask(*width) != 0 {
                fail!("a register holds {val:#x} of {width} bits");
            }
            V { v: *val, w: *width, e: false }
        }
        Register::Ciphertext(c) => {
            let d = c.unwrap_l1glwe();
            let mut v = 0u128;
            for (i, b) in d.iter().enumerate() {
                let p = k.enc.decrypt_glwe_l1(&b.borrow(), &k.sk);
                if p.coeffs()[0] > 1 || (p.coeffs()[1..].iter().any(|x| *x != 0)) {
                    // only the constant coefficient carries the bit
                    if p.coeffs()[0] > 1 {
                        fail!("bit {i} decrypts to {}", p.coeffs()[0]);
                    }
                }
                v |= (p.coeffs()[0] as u128) << i;
            }
            V { v, w: d.len() as u32, e: true }
        }
    })
}
type Seen = Arc<Mutex<Vec<(usize, u32, Register)>>>;
fn copy(r: &Register) -> Register {
    match r {
        Register::Plaintext { val, width } => Register::Plaintext { val: *val, width: *width },
        Register::Ciphertext(c) => Register::Ciphertext(Ciphertext::L1Glwe { data: c.unwrap_l1glwe().to_vec() }),
    }
}
fn options(seen: &Seen, limit: Option<u32>) -> RunProgramOptions {
    let s = seen.clone();
    RunProgramOptionsBuilder::new().gas_limit(limit).debug_handler(move |id, pc, r| s.lock().unwrap().push((id, pc, copy(r)))).build()
}
const DATA: u32 = 64;

struct World {
    mem: Arc<Memory>,
    data: u32,
    model: BTreeMap<u32, (u8, bool)>,
}
/// Memory with some plain and encrypted bytes at its start; the last page bytes are mapped too.
fn world(c: &mut Case, k: &Keys, encrypted: bool) -> World {
    let mem = Memory::new_default_stack();
    // one page of data, followed by a page nothing maps only when the program is elsewhere
    let data = u32::from(mem.try_allocate(DATA).unwrap());
    // how far encrypted and plain bytes alternate
    let stripe = c.rng.pick(&[8, 8, 16, 32, 64]);
    let mut model: BTreeMap<u32, (u8, bool)> = (0..4096).map(|i| (data + i, (0, false))).collect();
    for i in 0..DATA {
        let b = if c.rng.chance(1, 8) { *[0u8, 0xff, 0x80, 1].get(c.rng.below(4) as usize).unwrap() } else { c.rng.u32() as u8 };
        let e = encrypted && (i / stripe) % 2 == 0;
        if e {
            mem.try_write_type(Ptr32::from(data + i), &UInt::<8, L1GlweCiphertext>::encrypt_secret(b as u128, &k.enc, &k.sk)).unwrap();
        } else {
            mem.try_write_type(Ptr32::from(data + i), &b).unwrap();
        }
        model.insert(data + i, (b, e));
    }
    World { mem: Arc::new(mem), data, model }
}

/// Runs the code on the machine and compares with the interpreter.
fn compare(c: &mut Case, k: &Keys, w: &World, code: &[IsaOp], threads: usize, fault_ok: bool) -> Res {
    let prog = w.mem.allocate_program(code);
    let base = u32::from(prog);
    let m = Machine { regs: vec![plain(0, 32); 64], mem: w.model.clone(), base, code: code.to_vec(), cheap: false };
    let want = m.run();
    if want.fault.is_some_and(|f| f.0 == "too long") {
        return Ok(());
    }
    let limit = match c.rng.below(6) {
        0 => Some(want.gas as u32),
        1 => Some(want.gas as u32 + c.rng.below(1000) as u32),
        2 if want.gas > 0 => Some(c.rng.below(want.gas) as u32),
        3 if want.gas > 0 => Some(want.gas as u32 - 1),
        _ => None,
    };
    let starved = limit.is_some_and(|l| (l as u64) < want.gas);
    let seen: Seen = Default::default();
    let got = with_pc(threads, k, |pc| {
        let args = ArgsBuilder::new().no_return_value();
        pc.run_program_with_options(prog, &w.mem, args, &options(&seen, limit))
    });
    let what = || format!("gas limit {limit:?}, {threads} threads, data at {:#x}, program at {base:#x}: {}", w.data, show(code));
    c.key(hash_bytes(show(code).as_bytes()));
    c.count("instructions executed", want.steps as u64);
    if let Some((f, at)) = want.fault {
        ck!(c, fault_ok, "the generated program faults: {f} at {at}");
        ck!(c, got.is_err(), "no error for {f} at instruction {at}; {}", what());
        c.count("faults", 1);
        return Ok(());
    }
    if starved {
        ck!(c, matches!(got, Err(Error::OutOfGas(..))), "a program that needs {} gas gave {:?}; {}", want.gas, got.map(|x| x.0), what());
        c.count("programs out of gas", 1);
        return Ok(());
    }
    let (g, ()) = match got {
        Ok(v) => v,
        Err(e) => fail!("error {e:?} ({e}) from a program without fault; {}", what()),
    };
    let mut seen: Vec<_> = std::mem::take(&mut *seen.lock().unwrap());
    seen.sort_by_key(|s| s.0);
    ck_eq!(c, seen.len(), want.trace.len(), "number of values shown; {}", what());
    let first = seen.first().map(|s| s.0).unwrap_or(0);
    for (j, (s, t)) in seen.iter().zip(&want.trace).enumerate() {
        let v = open(k, &s.2).map_err(|e| Fail::from(format!("{} in value {j}; {}", e.msg, what())))?;
        ck!(c, v == t.2 && s.1 == t.1 && s.0 - first == t.0 - want.trace[0].0, "value {j} shown is {v:x?} by instruction {} at {:#x}, expected {:x?} by {} at {:#x}; {}", s.0 - first, s.1, t.2, t.0 - want.trace[0].0, t.1, what());
    }
    ck_eq!(c, g as u64, want.gas, "gas; {}", what());
    c.count("values compared", seen.len() as u64);
    Ok(())
}
fn show(code: &[IsaOp]) -> String {
    code.iter().enumerate().map(|(i, o)| format!("{i}: {o:?}").replace("RegisterName { ", "x").replace(" }", "")).collect::<Vec<_>>().join("; ")
}

fn width(c: &mut Case) -> u32 {
    match c.rng.below(4) {
        0 => c.rng.pick(&[1, 8, 16, 32, 64, 128, 127, 63, 65, 31, 33]),
        1 => c.rng.range(1, 16) as u32,
        _ => c.rng.range(1, 128) as u32,
    }
}
fn alu_op(c: &mut Case, d: Reg, d2: Reg, a: Reg, b: Reg, s: Reg) -> IsaOp {
    use IsaOp::*;
    match c.rng.below(23) {
        0 => Not(d, a),
        1 => Neg(d, a),
        2 => And(d, a, b),
        3 => Or(d, a, b),
        4 => Xor(d, a, b),
        5 => Add(d, a, b),
        6 => Sub(d, a, b),
        7 => Mul(d, a, b),
        8 => AddC(d, d2, a, b, s),
        9 => SubB(d, d2, a, b, s),
        10 => Cmux(d, s, a, b),
        11 => CmpEq(d, a, b),
        12 => CmpGt(d, a, b),
        13 => CmpGe(d, a, b),
        14 => CmpLt(d, a, b),
        15 => CmpLe(d, a, b),
        16 => CmpGtS(d, a, b),
        17 => CmpGeS(d, a, b),
        18 => CmpLtS(d, a, b),
        19 => CmpLeS(d, a, b),
        20 => Move(d, a),
        21 => Rotl(d, a, b),
        _ => Shl(d, a, b),
    }
}

/// One instruction at a time, all widths up to 128 bits, plain operands.
fn single(c: &mut Case) -> Res {
    use IsaOp::*;
    let k = keys();
    let w = world(c, k, false);
    let mut code = vec![LoadI(x(3), w.data, 32)];
    for q in 0..3 {
        code.push(Load(x(10 + q), x(3), 128, 16 * q as i32));
    }
    for _ in 0..12 {
        let n = width(c);
        let m = width(c);
        for r in [20, 21] {
            // equal operands now and then
            let from = if c.rng.chance(1, 4) { 10 } else { r - 10 };
            code.push(Trunc(x(r), x(from), n));
        }
        code.push(Trunc(x(22), x(12), 1));
        if c.rng.chance(1, 3) {
            // values at the edges of the width
            match c.rng.below(4) {
                0 => code.extend([Xor(x(20), x(20), x(20)), Not(x(20), x(20))]),
                1 => code.push(Xor(x(21), x(21), x(21))),
                2 => code.extend([LoadI(x(21), 1, n)]),
                _ => code.extend([Xor(x(20), x(20), x(20)), Not(x(20), x(20)), LoadI(x(24), 1, n), Shr(x(20), x(20), x(24))]),
            }
        }
        match c.rng.below(6) {
            0 => {
                // shifts by amounts of any width around the width of the operand
                let amount = match c.rng.below(5) {
                    0 => c.rng.u32(),
                    1 => n,
                    2 => n + c.rng.below(3) as u32 - 1,
                    _ => c.rng.below(n as u64 + 2) as u32,
                };
                code.push(LoadI(x(23), amount, 32));
                let (d, s, t) = (x(30), x(20), x(23));
                code.push(match c.rng.below(5) {
                    0 => Shl(d, s, t),
                    1 => Shr(d, s, t),
                    2 => Shra(d, s, t),
                    3 => Rotl(d, s, t),
                    _ => Rotr(d, s, t),
                });
            }
            1 => {
                let (lo, hi) = (n.min(m), n.max(m));
                code.push(Trunc(x(20), x(10), lo));
                code.push(if c.rng.bool() { Sext(x(30), x(20), hi) } else { Zext(x(30), x(20), hi) });
            }
            2 => {
                let imm = match c.rng.below(4) {
                    0 => c.rng.u32(),
                    1 => (c.rng.u64() & mask(n.min(32)) as u64) as u32,
                    2 => (mask(n.min(32)) as u32).wrapping_add(c.rng.below(2) as u32),
                    _ => (-(1i64 << (n.min(32) - 1)) - c.rng.below(2) as i64) as u32,
                };
                code.push(LoadI(x(30), imm, n));
            }
            _ => {
                // carries, borrows and conditions into a register of their own
                let (a, b, s) = (x(20), x(21), x(22));
                let op = alu_op(c, x(30), x(31), a, b, s);
                code.push(op);
            }
        }
        code.push(Dbg(x(30), 0));
        code.push(Dbg(x(31), 0));
    }
    code.push(Ret());
    // immediates out of range end the program: take them out, or keep one
    let keep = c.rng.chance(1, 10);
    clean(&w, &mut code, keep);
    compare(c, k, &w, &code, 1, true)
}
/// Replaces instructions that fault by ones that do nothing, unless the last fault is kept.
fn clean(w: &World, code: &mut [IsaOp], keep: bool) {
    for _ in 0..60 {
        let m = Machine { regs: vec![plain(0, 32); 64], mem: w.model.clone(), base: 0, code: code.to_vec(), cheap: true };
        match m.run().fault {
            Some(("too long", at)) => code[at] = IsaOp::Ret(),
            Some((f, at)) => {
                if keep && f != "slow" {
                    return;
                }
                if at < code.len() {
                    code[at] = IsaOp::Move(x(9), x(9));
                } else {
                    return;
                }
            }
            None => return,
        }
    }
}

/// Programs with loads, stores, branches and loops.
fn program(c: &mut Case, encrypted: bool) -> (World, Vec<IsaOp>) {
    use IsaOp::*;
    let k = keys();
    let w = world(c, k, encrypted);
    let span = c.rng.pick(&[8u32, 16, 32, DATA]);
    let mut code = vec![LoadI(x(3), w.data, 32), LoadI(x(4), w.data + 8, 32)];
    let nr = c.rng.range(3, 8) as usize;
    let regs: Vec<Reg> = (0..nr).map(|i| x([11, 20, 63, 0, 33, 48, 12, 1][i])).collect();
    let ww = if encrypted { c.rng.pick(&[8u32, 8, 8, 16]) } else { c.rng.pick(&[8u32, 16, 32, 64, 128]) };
    for r in &regs {
        let off = (c.rng.below((span / (ww / 8)).max(1) as u64) as u32 * (ww / 8)) as i32;
        code.push(Load(*r, x(3), ww, off));
    }
    let len = if encrypted { c.rng.range(3, 14) } else { c.rng.range(5, 60) };
    let mut loops = 0;
    for _ in 0..len {
        let r = |c: &mut Case| regs[c.rng.usize(regs.len())];
        let (d, a, b) = (r(c), r(c), r(c));
        match c.rng.below(if encrypted { 17 } else { 18 }) {
            0 | 1 => {
                let n = c.rng.pick(&[8u32, 16, 32, 64, 128, ww, ww]);
                let off = (c.rng.below((span * 8 / n).max(1) as u64) as u32 * (n / 8)) as i32;
                code.push(Load(d, x(3), n, off))
            }
            2 | 3 | 4 => {
                let n = if c.rng.bool() { ww } else { c.rng.pick(&[8u32, 16, 64, 128]) };
                let off = (c.rng.below((span * 8 / n).max(1) as u64) as u32 * (n / 8)) as i32;
                code.push(if c.rng.chance(1, 4) { Store(x(4), a, n, off - 8) } else { Store(x(3), a, n, off) })
            }
            5 => {
                // plain bytes over whatever is there, and back
                code.push(LoadI(x(40), c.rng.u32() & 0xff, 8));
                let off = c.rng.below(span as u64) as i32;
                code.push(Store(x(3), x(40), 8, off));
                code.push(Load(x(41), x(3), 8, off));
                if c.rng.bool() {
                    code.push(BranchZero(x(41), 16));
                    code.push(LoadI(d, c.rng.u32() & 0xff, 8));
                }
            }
            6 if c.rng.chance(1, 3) => {
                // an address that arrives late, since what was there is in flight
                let off = c.rng.below(span as u64 / 4) as u32 * 4;
                code.push(Store(x(3), a, 8, off as i32));
                code.push(LoadI(x(52), w.data + c.rng.below(span as u64) as u32, 32));
                code.push(Store(x(3), x(52), 32, off as i32));
                code.push(Load(x(53), x(3), 32, off as i32));
                code.push(if c.rng.bool() { Load(d, x(53), 8, 0) } else { Store(x(53), b, 8, 0) });
            }
            6 => {
                let s = x(42);
                code.push(CmpLt(s, a, b));
                code.push(Cmux(d, s, a, b));
            }
            7 => {
                code.push(CmpGtS(x(42), a, b));
                let (d2, d3) = (r(c), r(c));
                code.push(if c.rng.bool() { AddC(d, x(43), d2, d3, x(42)) } else { SubB(d, x(43), d2, d3, x(42)) });
                code.push(Dbg(x(43), 0));
            }
            8 => {
                if c.rng.chance(1, 4) {
                    // an address stored where it points
                    code.push(Store(x(3), x(3), 32, 0));
                }
                code.push(Dbg(a, 0))
            }
            9 => {
                let n = c.rng.range(1, ww as u64) as u32;
                code.push(Trunc(x(44), a, n));
                code.push(if c.rng.bool() { Sext(d, x(44), ww) } else { Zext(d, x(44), ww) });
            }
            10 => {
                // plain shift of what may be encrypted
                code.push(LoadI(x(45), c.rng.below(ww as u64 + 3) as u32, 32));
                code.push(match c.rng.below(5) {
                    0 => Shl(d, a, x(45)),
                    1 => Shr(d, a, x(45)),
                    2 => Shra(d, a, x(45)),
                    3 => Rotl(d, a, x(45)),
                    _ => Rotr(d, a, x(45)),
                });
            }
            11 if encrypted => {
                // encrypted shift amounts of a few bits
                code.push(Trunc(x(45), b, c.rng.range(1, 4) as u32));
                code.push(match c.rng.below(5) {
                    0 => Shl(d, a, x(45)),
                    1 => Shr(d, a, x(45)),
                    2 => Shra(d, a, x(45)),
                    3 => Rotl(d, a, x(45)),
                    _ => Rotr(d, a, x(45)),
                });
            }
            14 if encrypted => {
                // a plain choice between what may be encrypted
                code.push(LoadI(x(42), c.rng.below(2) as u32, 1));
                code.push(Cmux(d, x(42), a, b));
            }
            15 if encrypted && ww <= 32 => {
                // a constant for one operand
                code.push(LoadI(x(54), c.rng.edge(ww) as u32, ww));
                let (a, b) = if c.rng.bool() { (x(54), a) } else { (a, x(54)) };
                let op = match c.rng.below(8) {
                    0 => And(d, a, b),
                    1 => Or(d, a, b),
                    2 => Xor(d, a, b),
                    3 => Add(d, a, b),
                    4 => Sub(d, a, b),
                    5 => {
                        code.push(CmpLt(x(42), a, b));
                        Cmux(d, x(42), a, b)
                    }
                    _ => Mul(d, a, b),
                };
                code.push(op)
            }
            12 | 13 => {
                let s = x(42);
                let op = loop {
                    let op = alu_op(c, d, x(43), a, b, s);
                    if !matches!(op, AddC(..) | SubB(..) | Cmux(..) | Shl(..) | Rotl(..)) {
                        break op;
                    }
                };
                code.push(op)
            }
            14 => {
                // a forward branch over junk
                let n = c.rng.range(1, 3) as i32;
                let s = x(46);
                code.push(CmpEq(s, a, b));
                code.push(if c.rng.bool() { BranchNonZero(s, 8 * (n + 1)) } else { BranchZero(s, 8 * (n + 1)) });
                for _ in 0..n {
                    let (d, a, b) = (r(c), r(c), r(c));
                    code.push(Sub(d, a, b));
                }
            }
            15 if loops == 0 => {
                loops = 1;
                let n = c.rng.range(1, 6) as u32;
                code.push(LoadI(x(50), n, 32));
                code.push(LoadI(x(51), 1, 32));
                let top = code.len();
                for _ in 0..c.rng.range(1, 4) {
                    let (d, a, b) = (r(c), r(c), r(c));
                    code.push(match c.rng.below(3) {
                        0 => Add(d, a, b),
                        1 => Store(x(3), a, 8, c.rng.below(span as u64) as i32),
                        _ => Dbg(a, 0),
                    });
                }
                code.push(Sub(x(50), x(50), x(51)));
                let back = 8 * (top as i32 - code.len() as i32);
                code.push(BranchNonZero(x(50), back));
            }
            16 if !encrypted => code.push(Branch(8)),
            _ => {
                code.push(Add(x(47), a, b));
                code.push(Dbg(x(47), 0));
                code.push(Store(x(3), x(47), ww, 0));
            }
        }
    }
    // show registers and memory
    for r in &regs {
        code.push(Dbg(*r, 0));
    }
    for i in 0..span {
        code.push(Load(x(60), x(3), 8, i as i32));
        code.push(Dbg(x(60), 0));
    }
    code.push(Ret());
    (w, code)
}
fn plain_programs(c: &mut Case) -> Res {
    let (w, mut code) = program(c, false);
    let keep = c.rng.chance(1, 12);
    clean(&w, &mut code, keep);
    compare(c, keys(), &w, &code, 1, true)
}
fn encrypted_programs(c: &mut Case) -> Res {
    let (w, mut code) = program(c, true);
    let keep = c.rng.chance(1, 8);
    clean(&w, &mut code, keep);
    let t = c.rng.pick(&[1, 2, 3]);
    let n = c.rng.range(1, 3);
    for _ in 0..n {
        // the world changes while the program runs: a fresh one with the same contents
        let w2 = World { mem: rebuild(&w), data: w.data, model: w.model.clone() };
        compare(c, keys(), &w2, &code, t, true)?;
    }
    Ok(())
}
/// The same data in new memory.
fn rebuild(w: &World) -> Arc<Memory> {
    let k = keys();
    let mem = Memory::new_default_stack();
    let data = u32::from(mem.try_allocate(DATA).unwrap());
    assert_eq!(data, w.data);
    for i in 0..DATA {
        let (b, e) = w.model[&(data + i)];
        if e {
            mem.try_write_type(Ptr32::from(data + i), &UInt::<8, L1GlweCiphertext>::encrypt_secret(b as u128, &k.enc, &k.sk)).unwrap();
        } else {
            mem.try_write_type(Ptr32::from(data + i), &b).unwrap();
        }
    }
    Arc::new(mem)
}

/// Faults while encrypted work is in flight: an error, no hang, and the computer goes on.
fn faults(c: &mut Case) -> Res {
    use IsaOp::*;
    let k = keys();
    let w = world(c, k, true);
    let mut code = vec![LoadI(x(3), w.data, 32), Load(x(11), x(3), 8, 0), Load(x(12), x(3), 8, 1), Load(x(13), x(3), 8, 8)];
    let depth = c.rng.below(4);
    for _ in 0..depth {
        code.push(Add(x(14), x(11), x(12)));
        code.push(Xor(x(11), x(14), x(12)));
    }
    if c.rng.chance(1, 3) {
        code.push(Store(x(3), x(11), 8, 8));
    }
    let enc = if depth > 0 { x(11) } else { x(12) };
    let at = code.len();
    let kind = c.rng.below(15);
    match kind {
        0 => code.push(BranchNonZero(enc, 16)),
        1 => code.push(BranchZero(enc, 16)),
        2 => code.push(Load(x(15), enc, 8, 0)),
        3 => code.push(Store(enc, x(13), 8, 0)),
        4 => code.extend([LoadI(x(16), w.data + 1, 32), Load(x(15), x(16), c.rng.pick(&[16, 32, 64, 128]), 0)]),
        5 => code.extend([LoadI(x(16), w.data + 1, 32), Store(x(16), x(13), c.rng.pick(&[16, 32, 64, 128]), 0)]),
        6 => code.extend([LoadI(x(16), 0xdead_0000, 32), Load(x(15), x(16), 8, 0)]),
        7 => code.extend([LoadI(x(16), 0xdead_0000, 32), Store(x(16), enc, 8, 0)]),
        8 => code.extend([LoadI(x(16), 0xffff_ffff, 32), Load(x(15), x(16), 8, c.rng.range(1, 100) as i32)]),
        9 => code.extend([LoadI(x(16), 3, 32), Store(x(16), x(13), 8, -(c.rng.range(4, 100) as i32))]),
        10 => code.extend([Trunc(x(16), x(13), 4), Add(x(15), x(16), enc)]),
        11 => code.push(Store(x(3), enc, c.rng.pick(&[16, 32, 64, 128]), 0)),
        12 => code.push(Load(x(15), x(3), c.rng.pick(&[24, 4, 40, 96]), 0)),
        13 => code.push(Cmux(x(15), x(13), enc, enc)),
        _ => code.push(Branch(c.rng.pick(&[8 * 1000, -8 * 1000, 4, 0x7fff_fff8]))),
    }
    code.push(Dbg(x(15), 0));
    code.push(Ret());
    let t = c.rng.pick(&[1, 2, 3]);
    let m = Machine { regs: vec![plain(0, 32); 64], mem: w.model.clone(), base: 0, code: code.clone(), cheap: false };
    let f = m.run().fault;
    ck!(c, f.is_some(), "fault {kind} after {at} does not fault in the interpreter: {}", show(&code));
    compare(c, k, &w, &code, t, true)?;
    c.key(hash_u64s(&[kind, depth, t as u64]));
    // and now something that works, on the same computer
    let w2 = world(c, k, true);
    let ok = vec![LoadI(x(3), w2.data, 32), Load(x(11), x(3), 8, 0), Load(x(12), x(3), 8, 1), Add(x(13), x(11), x(12)), Store(x(3), x(13), 8, 8), Load(x(14), x(3), 8, 8), Dbg(x(14), 0), Dbg(x(15), 0), Ret()];
    compare(c, k, &w2, &ok, t, false)
}

/// Words that are not instructions, or are by accident.
fn words(c: &mut Case) -> Res {
    let k = keys();
    let mem = Memory::new_default_stack();
    let data = u32::from(mem.try_allocate(4096).unwrap());
    let n = c.rng.range(1, 8) as u32;
    let ops: [u8; 36] = [0x01, 0x09, 0x0a, 0x11, 0x15, 0x16, 0x21, 0x31, 0x32, 0x33, 0x34, 0x41, 0x42, 0x45, 0x46, 0x49, 0x51, 0x81, 0x82, 0x85, 0x86, 0x87, 0x91, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0xb1, 0xb2, 0xb5, 0xba, 0xc1];
    let mut ws = vec![];
    for i in 0..n {
        let r = c.rng.u64();
        let wd = match c.rng.below(4) {
            0 => r,
            1 => (r & !0xff) | c.rng.pick(&ops) as u64,
            2 => (r & 0xff_ffff_ffff & !0xff) | c.rng.pick(&ops) as u64,
            _ => (r & 0x3ff_ffff & !0xff) | c.rng.pick(&ops) as u64,
        };
        ws.push(wd);
        mem.try_write_type(Ptr32::from(data + 8 * i), &wd).unwrap();
    }
    let mem = Arc::new(mem);
    let known = |w: u64| ops.contains(&(w as u8)) || w as u8 == 0xf0;
    let start = data + 8 * c.rng.below(n as u64) as u32;
    let r = quiet_catch(|| with_pc(1, k, |pc| pc.run_program_with_options(Ptr32::from(start), &mem, ArgsBuilder::new().no_return_value(), &RunProgramOptionsBuilder::new().gas_limit(Some(2000)).build()).map(|x| x.0)));
    let first = ws[((start - data) / 8) as usize];
    c.key(hash_u64s(&ws));
    match r {
        Err(e) => fail!("running the words {ws:x?} from {start:#x} panics: {e}"),
        Ok(r) => {
            ck!(c, known(first) || r.is_err(), "the word {first:#x} runs as an instruction");
            c.count(if r.is_ok() { "words that run" } else { "words refused" }, 1);
        }
    }
    // every word that decodes encodes back, when its unused bits are zero
    for wd in &ws {
        match quiet_catch(|| IsaOp::try_from(*wd)) {
            Err(e) => fail!("decoding {wd:#x} panics: {e}"),
            Ok(Ok(op)) => {
                let again = u64::from(op);
                ck!(c, again & !*wd == 0 && IsaOp::try_from(again).is_ok_and(|o| o == op), "{wd:#x} decodes to {op:?}, which encodes to {again:#x}");
            }
            Ok(Err(_)) => {}
        }
    }
    Ok(())
}

/// Packing the bits of an integer into one ciphertext and taking them apart again, by the
/// computer that also runs programs.
fn packing(c: &mut Case) -> Res {
    let k = keys();
    let t = c.rng.range(1, 4) as usize;
    fn unsigned<const N: usize>(c: &mut Case, pc: &mut FheComputer, k: &Keys) -> Res {
        let e = |e| Fail::from(format!("packing {N} bits: {e:?}"));
        let v = ((c.rng.edge(64) as u128) << 64 | c.rng.edge(64) as u128).rotate_left(64 * (c.idx as u32 & 1)) & mask(N as u32);
        let x = if c.rng.bool() { UInt::<N, L1GlweCiphertext>::encrypt_secret(v, &k.enc, &k.sk) } else { UInt::<N, L1GlweCiphertext>::trivial(v, &k.enc, &k.eval) };
        let p = pc.pack_int(x).map_err(e)?;
        ck_eq!(c, p.decrypt(&k.enc, &k.sk), v, "{N} unsigned bits packed");
        let poly = k.enc.decrypt_glwe_l1(&PackedDynamicGenericInt::from(p.clone()).inner(), &k.sk);
        for (i, b) in poly.coeffs().iter().enumerate() {
            ck_eq!(c, *b, if i < N { (v >> i & 1) as u64 } else { 0 }, "coefficient {i} of {N} packed bits {v:x}");
        }
        let u = pc.unpack_int(p).map_err(e)?;
        ck_eq!(c, u.decrypt(&k.enc, &k.sk), v, "{N} unsigned bits packed and unpacked");
        let w = if c.rng.bool() { PackedUInt::<N, L1GlweCiphertext>::encrypt(!v & mask(N as u32), &k.enc, &k.pk) } else { PackedUInt::<N, L1GlweCiphertext>::trivial_encrypt(!v & mask(N as u32), &k.enc) };
        ck_eq!(c, pc.unpack_int(w).map_err(e)?.decrypt(&k.enc, &k.sk), !v & mask(N as u32), "{N} unsigned bits unpacked");
        c.evals += 4;
        c.key(hash_u64s(&[N as u64, v as u64, 0]));
        Ok(())
    }
    fn signed(c: &mut Case, pc: &mut FheComputer, k: &Keys) -> Res {
        let n = c.rng.range(1, 63) as usize;
        let e = |e| Fail::from(format!("packing {n} bits: {e:?}"));
        let v = sext(c.rng.edge(n as u32) as u128, n as u32) as i128;
        let x = DynamicGenericInt::<L1GlweCiphertext, Signed>::encrypt_secret(v, &k.enc, &k.sk, n);
        let p = pc.pack_int_dyn(x).map_err(e)?;
        ck_eq!(c, p.decrypt(&k.enc, &k.sk), v, "{n} signed bits packed");
        let u = pc.unpack_int_dyn(p).map_err(e)?;
        ck_eq!(c, u.decrypt(&k.enc, &k.sk), v, "{n} signed bits packed and unpacked");
        let w = PackedDynamicGenericInt::<L1GlweCiphertext, Signed>::encrypt(v, &k.enc, &k.pk, n);
        let u = pc.unpack_int_dyn(w).map_err(e)?;
        ck_eq!(c, u.bits.len(), n, "bits unpacked");
        ck_eq!(c, u.decrypt(&k.enc, &k.sk), v, "{n} signed bits unpacked");
        let again = pc.pack_int_dyn(u).map_err(e)?;
        ck_eq!(c, again.decrypt(&k.enc, &k.sk), v, "{n} signed bits unpacked and packed");
        c.evals += 4;
        c.key(hash_u64s(&[n as u64, v as u64, 1]));
        Ok(())
    }
    let f = |c: &mut Case, pc: &mut FheComputer| -> Res {
        match c.rng.below(12) {
            0 => unsigned::<1>(c, pc, k),
            1 => unsigned::<2>(c, pc, k),
            2 => unsigned::<8>(c, pc, k),
            3 => unsigned::<16>(c, pc, k),
            4 => unsigned::<31>(c, pc, k),
            5 => unsigned::<63>(c, pc, k),
            _ => signed(c, pc, k),
        }
    };
    if c.rng.chance(1, 8) {
        f(c, &mut FheComputer::new(&k.enc, &k.eval))
    } else {
        with_pc(t, k, |pc| f(c, pc))
    }
}

fn main() {
    let mut ctx = Ctx::new("C33");
    ctx.section("plain instructions of every width", 4000, 60000, single);
    ctx.section("plain programs", 3000, 50000, plain_programs);
    ctx.section("encrypted programs", 700, 8000, encrypted_programs);
    ctx.section("faults with work in flight", 700, 8000, faults);
    ctx.section("packing", 300, 6000, packing);
    ctx.section("words that may be no instructions", 8000, 100000, words);
    ctx.finish()
}
