//! C30: integer circuits compute machine integer arithmetic for every width; rewriting and
//! gluing never change the function of a circuit.
use biodivine_lib_bdd::{Bdd, BddVariableSet};
use mux_circuits::add::ripple_carry_adder;
use mux_circuits::and::make_and_circuit;
use mux_circuits::bitshift::{bitshift, ShiftDirection, ShiftMode};
use mux_circuits::comparisons::{compare_equal, compare_not_equal, compare_or_maybe_equal, compare_or_maybe_equal_signed};
use mux_circuits::mul::{encode_gradeschool_reduction, gradeschool_reduce, multiplier_impl, partition_integer, unsigned_multiplier, MultiplierParams};
use mux_circuits::neg::negator;
use mux_circuits::or::make_or_circuit;
use mux_circuits::sub::full_subtractor;
use mux_circuits::util::{arbitrary_width_borrowing_sub, borrowing_sub, try_to_bits};
use mux_circuits::{convert_value_to_bits, test_mux_circuit, Bit, MuxCircuit, MuxEdgeInfo, MuxOp};
use parasol_runtime::fluent::{BitNode, CiphertextOps, DynamicGenericInt, DynamicGenericIntGraphNodes, FheCircuitCtx, Muxable, Sign, Signed, Unsigned};
use parasol_runtime::{prune, Encryption, FheCircuit, FheEdge, FheOp, L0LweCiphertext, L1GgswCiphertext, L1GlevCiphertext, L1GlweCiphertext, L1LweCiphertext, Params};
use petgraph::stable_graph::{NodeIndex, StableGraph};
use std::collections::HashMap;
use sunscreen_tfhe::*;
use vover::*;

type R<T> = std::result::Result<T, Fail>;

fn bits(rng: &mut Rng, n: usize) -> Vec<bool> {
    // Structured patterns make carries and signs travel.
    match rng.below(6) {
        0 => vec![false; n],
        1 => vec![true; n],
        2 => {
            let k = rng.below(n as u64) as usize;
            (0..n).map(|i| i >= k).collect()
        }
        3 => {
            let k = rng.below(n as u64) as usize;
            (0..n).map(|i| i == k).collect()
        }
        _ => (0..n).map(|_| rng.bool()).collect(),
    }
}
/// Little endian addition, `w` result bits.
fn add_bits(a: &[bool], b: &[bool], mut c: bool, w: usize) -> Vec<bool> {
    (0..w)
        .map(|i| {
            let x = a.get(i).copied().unwrap_or(false);
            let y = b.get(i).copied().unwrap_or(false);
            let s = x ^ y ^ c;
            c = (x & y) | (x & c) | (y & c);
            s
        })
        .collect()
}
fn neg_bits(a: &[bool]) -> Vec<bool> {
    add_bits(&a.iter().map(|x| !x).collect::<Vec<_>>(), &[], true, a.len())
}
fn mul_bits(a: &[bool], b: &[bool], w: usize) -> Vec<bool> {
    let mut r = vec![false; w];
    for (i, y) in b.iter().enumerate().take(w) {
        if *y {
            let mut s = vec![false; i];
            s.extend_from_slice(a);
            r = add_bits(&r, &s, false, w);
        }
    }
    r
}
fn ext(a: &[bool], w: usize, signed: bool) -> Vec<bool> {
    let f = signed && *a.last().unwrap();
    (0..w).map(|i| if i < a.len() { a[i] } else { f }).collect()
}
/// Order of two little endian numbers.
fn order(a: &[bool], b: &[bool], signed: bool) -> std::cmp::Ordering {
    let w = a.len().max(b.len());
    let mut a = ext(a, w, signed);
    let mut b = ext(b, w, signed);
    if signed {
        a[w - 1] = !a[w - 1];
        b[w - 1] = !b[w - 1];
    }
    a.iter().rev().cmp(b.iter().rev())
}
fn inter(a: &[bool], b: &[bool]) -> Vec<bool> {
    a.iter().zip(b).flat_map(|(x, y)| [*x, *y]).collect()
}
fn show(b: &[bool]) -> String {
    b.iter().rev().map(|x| if *x { '1' } else { '0' }).collect()
}
fn run(circ: &MuxCircuit, v: &[bool], what: &str) -> R<Vec<bool>> {
    let r = eval_mux(circ, v).map_err(|e| Fail::from(format!("{what}: malformed circuit: {e}")))?;
    Ok(r)
}
fn cmp_out(c: &mut Case, circ: &MuxCircuit, v: &[bool], want: &[bool], what: &str) -> Res {
    let got = run(circ, v, what)?;
    c.evals += 1;
    if got != want {
        fail!("{what} of input {}: got {} expected {}", show(v), show(&got), show(want));
    }
    c.key(hash_bytes(format!("{what}{}", show(v)).as_bytes()));
    Ok(())
}
/// Every value when few bits are involved, samples otherwise.
fn values(c: &mut Case, total: usize, samples: usize) -> Vec<Vec<bool>> {
    if total <= 10 {
        (0..1u64 << total).map(|x| (0..total).map(|i| x >> i & 1 == 1).collect()).collect()
    } else {
        (0..samples).map(|_| bits(&mut c.rng, total)).collect()
    }
}
fn width(c: &mut Case, max: usize) -> usize {
    match c.rng.below(4) {
        0 => c.rng.range(1, 5) as usize,
        1 => c.rng.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
        _ => c.rng.range(1, max as u64) as usize,
    }
}

fn arithmetic(c: &mut Case) -> Res {
    let kind = c.idx % 6;
    let small = c.rng.chance(1, 2);
    let n = if small { c.rng.range(1, 6) as usize } else { width(c, 130) };
    let m = if small { c.rng.range(1, 6) as usize } else if c.rng.bool() { n } else { width(c, 130) };
    let cin = c.rng.bool();
    match kind {
        0 | 1 => {
            let circ = ripple_carry_adder(n, m, cin);
            for v in values(c, n + m + cin as usize, 12) {
                let (a, rest) = v.split_at(n);
                let (b, ci) = rest.split_at(m);
                let k = n.min(m);
                let mut inp: Vec<bool> = ci.to_vec();
                inp.extend(inter(&a[..k], &b[..k]));
                inp.extend_from_slice(&a[k..]);
                inp.extend_from_slice(&b[k..]);
                let want = add_bits(a, b, cin && ci[0], n.max(m) + 1);
                cmp_out(c, &circ, &inp, &want, &format!("add {n}+{m} cin {cin}"))?;
            }
        }
        2 => {
            let circ = full_subtractor(n, cin);
            for v in values(c, 2 * n + cin as usize, 12) {
                let (a, rest) = v.split_at(n);
                let (b, bi) = rest.split_at(n);
                let mut inp: Vec<bool> = bi.to_vec();
                inp.extend(inter(a, b));
                // a - b - bin in n + 1 bits; the top bit is the borrow.
                let nb: Vec<bool> = ext(b, n + 1, false).iter().map(|x| !x).collect();
                let want = add_bits(a, &nb, !(cin && bi[0]), n + 1);
                cmp_out(c, &circ, &inp, &want, &format!("sub {n} bin {cin}"))?;
            }
        }
        3 => {
            let circ = negator(n);
            for a in values(c, n, 12) {
                cmp_out(c, &circ, &a, &neg_bits(&a), &format!("neg {n}"))?;
            }
        }
        4 => {
            let (x, y) = (make_and_circuit(n as u16), make_or_circuit(n as u16));
            for v in values(c, 2 * n, 12) {
                let (a, b) = v.split_at(n);
                cmp_out(c, &x, &inter(a, b), &a.iter().zip(b).map(|(x, y)| x & y).collect::<Vec<_>>(), &format!("and {n}"))?;
                cmp_out(c, &y, &inter(a, b), &a.iter().zip(b).map(|(x, y)| x | y).collect::<Vec<_>>(), &format!("or {n}"))?;
            }
        }
        _ => {
            let (gt, eq, signed) = (c.rng.bool(), c.rng.bool(), c.rng.bool());
            let circ = if signed { compare_or_maybe_equal_signed(n, gt, eq) } else { compare_or_maybe_equal(n, gt, eq) };
            let (ce, cn) = (compare_equal(n), compare_not_equal(n));
            let mut vs = values(c, 2 * n, 12);
            if n > 5 {
                // nearly equal operands
                for _ in 0..10 {
                    let a = bits(&mut c.rng, n);
                    let mut b = a.clone();
                    if c.rng.chance(3, 4) {
                        let k = c.rng.usize(n);
                        b[k] = !b[k];
                    }
                    vs.push([a, b].concat());
                }
            }
            for v in vs {
                let (a, b) = v.split_at(n);
                let o = order(a, b, signed);
                let want = if gt { o.is_gt() } else { o.is_lt() } || (eq && o.is_eq());
                cmp_out(c, &circ, &inter(a, b), &[want], &format!("compare {n} greater {gt} or_equal {eq} signed {signed}"))?;
                cmp_out(c, &ce, &inter(a, b), &[a == b], &format!("equal {n}"))?;
                cmp_out(c, &cn, &inter(a, b), &[a != b], &format!("not equal {n}"))?;
            }
        }
    }
    Ok(())
}

fn shifts(c: &mut Case) -> Res {
    let (dir, mode) = [
        (ShiftDirection::Left, ShiftMode::Logical),
        (ShiftDirection::Right, ShiftMode::Logical),
        (ShiftDirection::Right, ShiftMode::Arithmetic),
        (ShiftDirection::Left, ShiftMode::Rotation),
        (ShiftDirection::Right, ShiftMode::Rotation),
    ][(c.idx % 5) as usize];
    let n = if mode == ShiftMode::Rotation { 1usize << c.rng.below(4) } else { c.rng.range(1, 12) as usize };
    let need = (usize::BITS - (n - 1).leading_zeros()).max(1) as usize;
    let s = need + c.rng.below(4) as usize;
    let circ = bitshift(n as u16, s as u16, dir, mode);
    for v in values(c, n + s, 16) {
        let (val, sh) = v.split_at(n);
        // operands are most significant bit first
        let amount = sh.iter().fold(0usize, |x, b| x * 2 + *b as usize);
        let le: Vec<bool> = val.iter().rev().copied().collect();
        let fill = mode == ShiftMode::Arithmetic && val[0];
        let want: Vec<bool> = (0..n)
            .map(|i| match (dir, mode) {
                (ShiftDirection::Left, ShiftMode::Rotation) => le[(i + n * 1024 - amount % n) % n],
                (ShiftDirection::Right, ShiftMode::Rotation) => le[(i + amount) % n],
                (ShiftDirection::Left, _) => i >= amount && le[i - amount],
                (ShiftDirection::Right, _) => if i + amount < n { le[i + amount] } else { fill },
            })
            .rev()
            .collect();
        cmp_out(c, &circ, &v, &want, &format!("shift {n} by {s} bits {dir:?} {mode:?}"))?;
    }
    Ok(())
}

fn multiply(c: &mut Case) -> Res {
    let (n, m) = match c.idx {
        0 => (8, 8),
        1 => (16, 16),
        _ => (c.rng.range(1, 8) as usize, c.rng.range(1, 8) as usize),
    };
    let circ = if c.idx < 2 || c.rng.bool() { unsigned_multiplier(n, m) } else { multiplier_impl(MultiplierParams { n, m }) };
    for v in values(c, n + m, 24) {
        let (a, b) = v.split_at(n);
        cmp_out(c, &circ, &v, &mul_bits(a, b, n + m), &format!("multiply {n}x{m}"))?;
    }
    Ok(())
}

fn reduction(c: &mut Case) -> Res {
    // partition_integer splits completely, the larger half below
    let n = if c.idx == 0 { 64 } else { c.rng.range(1, 40) as usize };
    let m = if c.idx == 0 { 64 } else { c.rng.range(1, n as u64) as usize };
    for x in [n, m] {
        let (lo, hi) = partition_integer(x);
        ck!(c, lo + hi == x && lo >= hi && lo > 0, "partition_integer({x}) = {:?}", (lo, hi));
    }
    let ((al, ah), (bl, bh)) = (partition_integer(n), partition_integer(m));
    if al < bl || ah < bh {
        // the layout of the reduction needs the halves of the first operand to be the longer ones
        return Ok(());
    }
    let circ = gradeschool_reduce(n, m);
    for _ in 0..12 {
        let a = bits(&mut c.rng, n);
        let b = bits(&mut c.rng, m);
        let (a0, a1) = a.split_at(al);
        let (b0, b1) = b.split_at(bl);
        let p = |x: &[bool], y: &[bool]| mul_bits(x, y, x.len() + y.len());
        let inp = encode_gradeschool_reduction(n, m, &p(a0, b0), &p(a0, b1), &p(a1, b0), &p(a1, b1));
        cmp_out(c, &circ, &inp, &mul_bits(&a, &b, n + m), &format!("reduce {n}x{m}"))?;
    }
    Ok(())
}

// ---- rewriting ------------------------------------------------------------------

/// A random well formed circuit with redundancy in it.
fn random_circuit(rng: &mut Rng, hostile: bool) -> MuxCircuit {
    let mut g: StableGraph<MuxOp, MuxEdgeInfo> = StableGraph::new();
    let nv = rng.range(1, 6) as usize;
    // Outputs and variables may come anywhere in the order of nodes.
    let mut early = Vec::new();
    if rng.bool() {
        for _ in 0..rng.below(4) {
            early.push(g.add_node(MuxOp::Zero));
        }
    }
    let vars: Vec<NodeIndex> = (0..nv).map(|i| g.add_node(MuxOp::Variable(i as u32))).collect();
    let zero = g.add_node(MuxOp::Zero);
    let one = g.add_node(MuxOp::One);
    let mut pool = vec![zero, one];
    let nm = rng.range(1, 24);
    let mut last: Option<(NodeIndex, NodeIndex, NodeIndex)> = None;
    for _ in 0..nm {
        let (s, l, h) = match last {
            Some(t) if rng.chance(1, 3) => t,
            _ => {
                // Selecting on a computed value is legal for the type; circuits of this
                // crate only select on variables.
                let s = if hostile && rng.chance(1, 4) { rng.pick(&pool) } else { rng.pick(&vars) };
                let l = if hostile && rng.chance(1, 4) { rng.pick(&vars) } else { rng.pick(&pool) };
                let h = if hostile && rng.chance(1, 6) { l } else { rng.pick(&pool) };
                (s, l, h)
            }
        };
        last = Some((s, l, h));
        let n = g.add_node(MuxOp::Mux);
        let mut e = [(s, MuxEdgeInfo::Select), (l, MuxEdgeInfo::Low), (h, MuxEdgeInfo::High)];
        rng.shuffle(&mut e);
        for (x, k) in e {
            g.add_edge(x, n, k);
        }
        pool.push(n);
    }
    let no = rng.range(1, 5) as usize;
    let mut idx: Vec<u32> = (0..no as u32).collect();
    if hostile {
        rng.shuffle(&mut idx);
    }
    for i in idx {
        let s = if rng.chance(1, 2) { *pool.last().unwrap() } else { rng.pick(&pool) };
        let o = g.add_node(MuxOp::Output(i));
        g.add_edge(s, o, MuxEdgeInfo::Output);
    }
    for n in early {
        g.remove_node(n);
    }
    MuxCircuit { graph: g, inputs: vars }
}
fn table(c: &MuxCircuit, what: &str) -> R<Vec<Vec<bool>>> {
    let nv = c.inputs.len();
    (0..1u64 << nv).map(|x| run(c, &(0..nv).map(|i| x >> i & 1 == 1).collect::<Vec<_>>(), what)).collect()
}
fn rewriting(c: &mut Case) -> Res {
    let hostile = c.idx % 2 == 1;
    let circ = random_circuit(&mut c.rng, hostile);
    let before = table(&circ, "the generated circuit")?;
    let nv = circ.inputs.len();
    let dump = format!("{:?}", circ.graph.edge_indices().map(|e| (circ.graph.edge_endpoints(e).unwrap(), circ.graph[e])).collect::<Vec<_>>());
    let mut opt = circ.clone();
    quiet_catch(|| opt.optimize()).map_err(|e| Fail::from(format!("optimize panics: {e} on {dump}")))?;
    let after = table(&opt, "the optimised circuit").map_err(|e| Fail::from(format!("{} of {dump}", e.msg)))?;
    c.key(hash_bytes(dump.as_bytes()));
    ck!(c, after == before, "optimize changes the function of {dump}");
    let (a, b) = (circ.metrics(), opt.metrics());
    ck!(c, b.mux_gates <= a.mux_gates && b.inputs == a.inputs && b.outputs == a.outputs, "optimize turns {a:?} into {b:?}");
    c.count("gates removed", (a.mux_gates - b.mux_gates) as u64);
    let mut twice = opt.clone();
    twice.optimize();
    ck!(c, table(&twice, "optimised twice")? == before, "optimising twice changes the function of {dump}");
    // the evaluator of the crate, on dense node indices as its callers have them
    for x in 0..(1u64 << nv).min(8) {
        let v: Vec<bool> = (0..nv).map(|i| x >> i & 1 == 1).collect();
        let got: Vec<bool> = test_mux_circuit(&opt, &v.iter().map(|b| Bit(*b)).collect::<Vec<_>>()).iter().map(|b| b.0).collect();
        ck!(c, got == before[x as usize], "test_mux_circuit gives {} instead of {} on {dump}", show(&got), show(&before[x as usize]));
    }
    // identifying inputs
    let d = c.rng.range(1, nv as u64) as u32;
    let mut map: Vec<u32> = (0..nv).map(|i| if i < d as usize { i as u32 } else { c.rng.below(d as u64) as u32 }).collect();
    c.rng.shuffle(&mut map);
    let mut re = circ.clone();
    let m2 = map.clone();
    re.remap_inputs(d, move || m2.clone());
    let got = table(&re, "the remapped circuit").map_err(|e| Fail::from(format!("{} of {dump} mapped by {map:?}", e.msg)))?;
    ck!(c, re.inputs.len() == d as usize, "remap_inputs leaves {} inputs", re.inputs.len());
    for (x, row) in got.iter().enumerate() {
        let y: usize = map.iter().enumerate().map(|(i, k)| (x >> k & 1) << i).sum();
        ck!(c, *row == before[y], "remap_inputs by {map:?} changes the function of {dump}");
    }
    Ok(())
}

fn from_bdd(c: &mut Case) -> Res {
    let nv = c.rng.range(1, 6) as usize;
    let set = BddVariableSet::new_anonymous(nv as u16);
    let vars: Vec<Bdd> = set.variables().iter().map(|v| set.mk_var(*v)).collect();
    let outs = c.rng.range(1, 5) as usize;
    let mut bdds = Vec::new();
    let mut tabs = Vec::new();
    for _ in 0..outs {
        let t: Vec<bool> = match c.rng.below(6) {
            0 => vec![false; 1 << nv],
            1 => vec![true; 1 << nv],
            2 => {
                let k = c.rng.usize(nv);
                (0..1usize << nv).map(|x| x >> k & 1 == 1).collect()
            }
            _ => (0..1usize << nv).map(|_| c.rng.bool()).collect(),
        };
        let mut b = set.mk_false();
        for (x, on) in t.iter().enumerate() {
            if *on {
                let mut m = set.mk_true();
                for (i, v) in vars.iter().enumerate() {
                    m = m.and(&if x >> i & 1 == 1 { v.clone() } else { v.not() });
                }
                b = b.or(&m);
            }
        }
        bdds.push(b);
        tabs.push(t);
    }
    let mut circ = MuxCircuit::from(bdds.as_slice());
    ck_eq!(c, circ.inputs.len(), nv, "inputs of a circuit of {nv} variables");
    for pass in ["built", "optimised"] {
        let got = table(&circ, pass)?;
        for (x, row) in got.iter().enumerate() {
            let want: Vec<bool> = tabs.iter().map(|t| t[x]).collect();
            ck!(c, *row == want, "{pass} circuit at {x:b}: got {} expected {}", show(row), show(&want));
        }
        circ.optimize();
    }
    c.key(hash_bytes(&tabs.concat().iter().map(|b| *b as u8).collect::<Vec<_>>()));
    Ok(())
}

fn wide(rng: &mut Rng) -> u128 {
    match rng.below(4) {
        0 => rng.edge(64) as u128,
        1 => (rng.edge(64) as u128) << 64,
        2 => !(rng.edge(64) as u128),
        _ => rng.u128(),
    }
}
fn helpers(c: &mut Case) -> Res {
    let a = wide(&mut c.rng);
    let b = if c.rng.chance(1, 5) { a } else { wide(&mut c.rng) };
    let w = match c.rng.below(3) { 0 => c.rng.pick(&[1u32, 64, 127, 128]), _ => c.rng.range(1, 128) as u32 };
    let bi = c.rng.bool();
    let le = |v: u128| (0..128).map(|i| v >> i & 1 == 1).collect::<Vec<bool>>();
    let val = |v: &[bool]| v.iter().enumerate().fold(0u128, |s, (i, x)| s | (*x as u128) << i);
    let diff = |a: u128, b: u128, w: usize| -> (u128, bool) {
        let nb: Vec<bool> = le(b).iter().map(|x| !x).chain([true]).collect();
        let r = add_bits(&le(a), &nb, !bi, 129);
        (val(&r[..w]), r[128])
    };
    let want = diff(a, b, 128);
    ck_eq!(c, borrowing_sub(a, b, bi), want, "borrowing_sub({a:#x}, {b:#x}, {bi})");
    let mask = if w == 128 { u128::MAX } else { (1 << w) - 1 };
    let (x, y) = (a & mask, b & mask);
    let want = diff(x, y, w as usize);
    let got = quiet_catch(|| arbitrary_width_borrowing_sub(x, y, bi as u128, w)).map_err(|e| Fail::from(format!("arbitrary_width_borrowing_sub({x:#x}, {y:#x}, {bi}, {w}) panics: {e}")))?;
    ck_eq!(c, got, (want.0, want.1 as u128), "arbitrary_width_borrowing_sub({x:#x}, {y:#x}, {bi}, {w})");
    let v = c.rng.edge(64);
    let k = match c.rng.below(3) { 0 => c.rng.pick(&[0usize, 1, 63, 64, 65, 100]), _ => c.rng.range(0, 70) as usize };
    let fits = k >= 64 || v >> k == 0;
    let got = quiet_catch(|| try_to_bits(v, k)).map_err(|e| Fail::from(format!("try_to_bits({v:#x}, {k}) panics: {e}")))?;
    match got {
        Ok(r) => {
            ck!(c, fits && r.len() == k && (0..k).all(|i| r[i].0 == (i < 64 && v >> i & 1 == 1)), "try_to_bits({v:#x}, {k}) is {:?}", Short(&r));
        }
        Err(e) => ck!(c, !fits, "try_to_bits({v:#x}, {k}) refuses: {e:?}"),
    }
    let kw = c.rng.range(0, 128) as u32;
    ck_eq!(c, convert_value_to_bits(a, kw), (0..kw).map(|i| a >> i & 1 == 1).collect::<Vec<_>>(), "convert_value_to_bits({a:#x}, {kw})");
    c.key(hash_u64s(&[a as u64, b as u64, w as u64, v, k as u64]));
    Ok(())
}

// ---- gluing: circuits of fluent integers ------------------------------------------------

const N: usize = 16;
fn toy() -> Params {
    let r = RadixDecomposition { count: RadixCount(1), radix_log: RadixLog(4) };
    let mut p = Params::default();
    p.l0_params.dim = LweDimension(2);
    p.l1_params.dim = GlweDimension { size: GlweSize(1), polynomial_degree: PolynomialDegree(N) };
    p.cbs_radix = r.clone();
    p.pbs_radix = r.clone();
    p.ks_radix = r.clone();
    p.pfks_radix = r.clone();
    p.ss_radix = r.clone();
    p.tr_radix = r;
    p
}
fn poly(b: bool) -> Vec<bool> {
    let mut v = vec![false; N];
    v[0] = b;
    v
}
trait Kind: CiphertextOps {
    fn plain(b: bool) -> Plain;
}
impl Kind for L0LweCiphertext { fn plain(b: bool) -> Plain { Plain::Lwe0(b) } }
impl Kind for L1LweCiphertext { fn plain(b: bool) -> Plain { Plain::Lwe1(b) } }
impl Kind for L1GgswCiphertext { fn plain(b: bool) -> Plain { Plain::Ggsw(b) } }
impl Kind for L1GlweCiphertext { fn plain(b: bool) -> Plain { Plain::Glwe(poly(b)) } }
impl Kind for L1GlevCiphertext { fn plain(b: bool) -> Plain { Plain::Glev(poly(b)) } }

fn bit_of(p: &Plain) -> R<bool> {
    Ok(match p {
        Plain::Lwe0(b) | Plain::Lwe1(b) | Plain::Ggsw(b) => *b,
        Plain::Glwe(p) | Plain::Glev(p) => {
            if p[1..].iter().any(|x| *x) {
                fail!("an unpacked bit has other coefficients: {p:?}");
            }
            p[0]
        }
        Plain::None => fail!("no value"),
    })
}

struct Env<'a> {
    ctx: &'a FheCircuitCtx,
    enc: &'a Encryption,
    inputs: HashMap<usize, Plain>,
    keep: Vec<Box<dyn std::any::Any>>,
    checks: Vec<(String, Vec<usize>, Vec<bool>)>,
}
type Nodes<'a, T, U> = DynamicGenericIntGraphNodes<'a, T, U>;

impl<'a> Env<'a> {
    fn input<T: Kind + 'static, U: Sign + 'static>(&mut self, v: &[bool]) -> Nodes<'a, T, U> {
        let x = DynamicGenericInt::<T, U>::new(self.enc, v.len());
        for (b, ct) in v.iter().zip(&x.bits) {
            self.inputs.insert(addr(ct), T::plain(*b));
        }
        let n = x.graph_inputs(self.ctx);
        self.keep.push(Box::new(x));
        n
    }
    fn output<T: Kind + 'static, U: Sign + 'static>(&mut self, what: String, x: &Nodes<'a, T, U>, want: &[bool]) {
        let o = x.collect_outputs(self.ctx, self.enc);
        self.checks.push((what, o.bits.iter().map(addr).collect(), want.to_vec()));
        self.keep.push(Box::new(o));
    }
    fn output_bit<T: Kind + 'static>(&mut self, what: String, x: &BitNode<T>, want: bool) {
        // a one bit integer made of the node
        let o = x.collect_output(self.ctx, self.enc);
        let a = o.with_decryption_fn_addr();
        self.checks.push((what, vec![a], vec![want]));
        self.keep.push(Box::new(o));
    }
}
trait BitAddr {
    fn with_decryption_fn_addr(&self) -> usize;
}
impl<T: CiphertextOps> BitAddr for parasol_runtime::fluent::Bit<T> {
    fn with_decryption_fn_addr(&self) -> usize {
        let a = std::cell::Cell::new(0usize);
        self.with_decryption_fn(|x| {
            a.set(x as *const T as usize);
            true
        });
        a.get()
    }
}

/// One random expression over fluent integers of sign `U`, results of ciphertext kind `O`.
fn expression<'a, U: Sign + 'static, O: Muxable + Kind + 'static>(c: &mut Case, env: &mut Env<'a>, signed: bool) -> Res {
    let ctx = env.ctx;
    let n = match c.rng.below(8) { 0 => 1, 1 => c.rng.range(17, 24) as usize, _ => c.rng.range(2, 8) as usize };
    let tag = |s: &str| format!("{s} ({} bits, {}, {:?})", n, if signed { "signed" } else { "unsigned" }, O::CIPHERTEXT_TYPE);
    let mut vals = vec![bits(&mut c.rng, n), bits(&mut c.rng, n)];
    let mut nodes: Vec<Nodes<'a, L1GgswCiphertext, U>> = Vec::new();
    for v in &vals {
        // operands of every kind, converted
        let x = match c.rng.below(5) {
            0 => env.input::<L0LweCiphertext, U>(v).convert(ctx),
            1 => env.input::<L1LweCiphertext, U>(v).convert(ctx),
            2 => env.input::<L1GlweCiphertext, U>(v).convert(ctx),
            3 => env.input::<L1GlevCiphertext, U>(v).convert(ctx),
            _ => env.input::<L1GgswCiphertext, U>(v),
        };
        nodes.push(x);
    }
    let steps = c.rng.range(1, 4);
    for _ in 0..steps {
        let i = c.rng.usize(nodes.len());
        let j = c.rng.usize(nodes.len());
        let (a, b) = (vals[i].clone(), vals[j].clone());
        let op = c.rng.below(7);
        // operations on a constant context come before and after others
        if c.rng.chance(1, 4) {
            let one = c.rng.bool();
            macro_rules! constant { ($t:ty) => {{
                let b = if one { BitNode::<$t>::one(ctx) } else { BitNode::<$t>::zero(ctx) };
                env.output_bit(format!("constant {one} as {:?}", <$t>::CIPHERTEXT_TYPE), &b, one);
            }} }
            match c.rng.below(4) {
                0 => constant!(L0LweCiphertext),
                1 => constant!(L1GgswCiphertext),
                2 => constant!(L1GlweCiphertext),
                _ => constant!(L1GlevCiphertext),
            }
        }
        let (x, y) = (&nodes[i], &nodes[j]);
        let (what, r, want): (&str, Nodes<'a, O, U>, Vec<bool>) = match op {
            0 => ("add", x.add::<O>(y, ctx), add_bits(&a, &b, false, n)),
            1 => ("sub", x.sub::<O>(y, ctx), add_bits(&a, &neg_bits(&b), false, n)),
            2 => ("and", x.and::<O>(y, ctx), a.iter().zip(&b).map(|(x, y)| x & y).collect()),
            3 => ("mul", x.mul::<O>(y, ctx), mul_bits(&a, &b, n)),
            4 => {
                let w = c.rng.range(1, n as u64 + 4) as usize;
                let v = ext(&a, w, signed);
                // a signed value that does not fit the new width is out of scope
                let fits = !signed || w >= n || ext(&v, n, true) == a;
                let r = x.resize(ctx, w);
                if fits {
                    env.output(tag(&format!("resize to {w}")), &r, &v);
                }
                continue;
            }
            5 => {
                let o = order(&a, &b, signed);
                let k = c.rng.below(6);
                let (what, bit, want): (&str, BitNode<O>, bool) = match k {
                    0 => ("eq", x.eq(y, ctx), o.is_eq()),
                    1 => ("neq", x.neq(y, ctx), o.is_ne()),
                    2 => ("gt", x.gt(y, ctx), o.is_gt()),
                    3 => ("ge", x.ge(y, ctx), o.is_ge()),
                    4 => ("lt", x.lt(y, ctx), o.is_lt()),
                    _ => ("le", x.le(y, ctx), o.is_le()),
                };
                env.output_bit(tag(what), &bit, want);
                c.count(what, 1);
                continue;
            }
            _ if c.rng.chance(1, 4) => {
                // the product of operands of unequal widths
                let w = if n > 16 || c.rng.chance(1, 3) { c.rng.range(1, 24) } else { c.rng.range(1, 8) } as usize;
                let v = bits(&mut c.rng, w);
                let z = env.input::<L1GgswCiphertext, U>(&v);
                let r = x.mul::<O>(&z, ctx);
                let l = n + w;
                env.output(tag(&format!("mul by {w} bits")), &r, &mul_bits(&ext(&a, l, signed), &ext(&v, l, signed), n));
                c.count("product of unequal widths", 1);
                continue;
            }
            _ => {
                // unequal widths are compared by value
                let w = c.rng.range(1, n as u64 + 3) as usize;
                let v = bits(&mut c.rng, w);
                let z = env.input::<L1GgswCiphertext, U>(&v);
                let o = order(&a, &v, signed);
                let (what, bit, want): (&str, BitNode<O>, bool) = match c.rng.below(4) {
                    0 => ("eq", x.eq(&z, ctx), o.is_eq()),
                    1 => ("neq", x.neq(&z, ctx), o.is_ne()),
                    2 => ("gt", x.gt(&z, ctx), o.is_gt()),
                    _ => ("le", x.le(&z, ctx), o.is_le()),
                };
                env.output_bit(tag(&format!("{what} with {w} bits")), &bit, want);
                c.count("comparison of unequal widths", 1);
                continue;
            }
        };
        c.count(what, 1);
        if c.rng.chance(2, 3) {
            env.output(tag(what), &r, &want);
        }
        if c.rng.bool() {
            nodes.push(r.convert(ctx));
            vals.push(want);
        }
    }
    // everything computed so far can still be used
    for (x, v) in nodes.iter().zip(&vals) {
        if c.rng.bool() {
            env.output(tag("value kept"), x, v);
        }
    }
    Ok(())
}

fn fluent(c: &mut Case) -> Res {
    let enc = Encryption::new(&toy());
    let ctx = FheCircuitCtx::new();
    let mut env = Env { ctx: &ctx, enc: &enc, inputs: HashMap::new(), keep: vec![], checks: vec![] };
    let k = c.idx % 4;
    let seed = c.rng.clone();
    let r = quiet_catch(std::panic::AssertUnwindSafe(|| match k {
        0 => expression::<Unsigned, L1GlweCiphertext>(c, &mut env, false),
        1 => expression::<Signed, L1GlweCiphertext>(c, &mut env, true),
        2 => expression::<Unsigned, L1GlevCiphertext>(c, &mut env, false),
        _ => expression::<Signed, L1GlevCiphertext>(c, &mut env, true),
    }));
    let _ = seed;
    match r {
        Ok(r) => r?,
        Err(e) => fail!("building the circuit panics: {e}"),
    }
    let circuit = ctx.circuit.borrow();
    let vals = eval_fhe(&circuit, N, &env.inputs).map_err(|e| Fail::from(format!("malformed circuit: {e}")))?;
    for (what, addrs, want) in &env.checks {
        let got: Vec<bool> = addrs.iter().map(|a| vals.get(a).ok_or(Fail::from(format!("{what}: output not in the circuit"))).and_then(bit_of)).collect::<R<_>>()?;
        ck!(c, got == *want, "{what}: got {} expected {}", show(&got), show(want));
    }
    c.key(hash_bytes(format!("{:?}", env.checks.iter().map(|x| (&x.0, &x.2)).collect::<Vec<_>>()).as_bytes()));
    Ok(())
}

/// Packing, unpacking, selection, conversions and the circuit generators of the runtime.
fn packing(c: &mut Case) -> Res {
    let enc = Encryption::new(&toy());
    let ctx = FheCircuitCtx::new();
    let mut env = Env { ctx: &ctx, enc: &enc, inputs: HashMap::new(), keep: vec![], checks: vec![] };
    let n = c.rng.range(1, N as u64) as usize;
    let v = bits(&mut c.rng, n);
    let x = env.input::<L1GlweCiphertext, Unsigned>(&v);
    let p = x.pack(&ctx, &enc);
    let u = p.unpack(&ctx);
    env.output(format!("pack and unpack {n}"), &u, &v);
    let back = u.convert::<L1GgswCiphertext>(&ctx);
    env.output(format!("unpack and convert {n}"), &back, &v);
    // the packed polynomial itself
    let po = p.collect_output(&ctx, &enc);
    let circuit = ctx.circuit.borrow();
    let vals = eval_fhe(&circuit, N, &env.inputs).map_err(|e| Fail::from(format!("malformed circuit: {e}")))?;
    let packed: Vec<&Plain> = vals.iter().filter(|(a, _)| !env.checks.iter().any(|c| c.1.contains(a))).map(|x| x.1).collect();
    let want: Vec<bool> = (0..N).map(|i| i < n && v[i]).collect();
    ck!(c, packed.len() == 1 && *packed[0] == Plain::Glwe(want.clone()), "packing {n} bits {}: {:?}", show(&v), packed);
    drop(po);
    for (what, addrs, want) in &env.checks {
        let got: Vec<bool> = addrs.iter().map(|a| vals.get(a).ok_or(Fail::from(format!("{what}: no output"))).and_then(bit_of)).collect::<R<_>>()?;
        ck!(c, got == *want, "{what}: got {} expected {}", show(&got), show(want));
    }
    drop(circuit);

    // select
    let ctx = FheCircuitCtx::new();
    let mut env = Env { ctx: &ctx, enc: &enc, inputs: HashMap::new(), keep: vec![], checks: vec![] };
    let (a, b, s) = (bits(&mut c.rng, 8), bits(&mut c.rng, 8), c.rng.bool());
    let na = parasol_runtime::fluent::GenericIntGraphNodes::<8, L1GlweCiphertext, Unsigned>::from(env.input(&a));
    let nb = parasol_runtime::fluent::GenericIntGraphNodes::<8, L1GlweCiphertext, Unsigned>::from(env.input(&b));
    let ns = env.input::<L1GgswCiphertext, Unsigned>(&[s]).bits[0];
    let r: DynamicGenericIntGraphNodes<'_, L1GlweCiphertext, Unsigned> = ns.select(&na, &nb, &ctx).into();
    env.output("select".into(), &r, if s { &a } else { &b });
    let circuit = ctx.circuit.borrow();
    let vals = eval_fhe(&circuit, N, &env.inputs).map_err(|e| Fail::from(format!("malformed circuit: {e}")))?;
    let (what, addrs, want) = &env.checks[0];
    let got: Vec<bool> = addrs.iter().map(|a| bit_of(&vals[a])).collect::<R<_>>()?;
    ck!(c, got == *want, "{what}: got {} expected {}", show(&got), show(want));
    drop(circuit);

    // ready made adders and subtractors
    let w = c.rng.range(1, 12) as usize;
    let (a, b, ci) = (bits(&mut c.rng, w), bits(&mut c.rng, w), c.rng.bool());
    let with = c.rng.bool();
    let mut inputs = HashMap::new();
    let mut mk = |v: &[bool]| -> Vec<_> {
        v.iter()
            .map(|b| {
                let ct = std::sync::Arc::new(parasol_concurrency::AtomicRefCell::new(enc.allocate_glwe_l1()));
                inputs.insert(addr(&ct), Plain::Glwe(poly(*b)));
                ct
            })
            .collect()
    };
    let (ca, cb, cc) = (mk(&a), mk(&b), mk(&[ci]));
    let extra = if with { Some(&cc[..]) } else { None };
    let sub = c.rng.bool();
    let (circuit, out) = if sub { parasol_runtime::circuits::sub_circuit(w, &ca, &cb, extra, &enc) } else { parasol_runtime::circuits::add::add_circuit(w, &ca, &cb, extra, &enc) };
    let vals = eval_fhe(&circuit, N, &inputs).map_err(|e| Fail::from(format!("malformed circuit: {e}")))?;
    let got: Vec<bool> = out.iter().map(|o| vals.get(&addr(o)).ok_or(Fail::from("no output")).and_then(bit_of)).collect::<R<_>>()?;
    let want = if sub {
        let nb: Vec<bool> = ext(&b, w + 1, false).iter().map(|x| !x).collect();
        add_bits(&a, &nb, !(with && ci), w + 1)
    } else {
        add_bits(&a, &b, with && ci, w + 1)
    };
    ck!(c, got == want, "{} circuit of {w} bits carry {with}: got {} expected {}", if sub { "sub" } else { "add" }, show(&got), show(&want));
    c.key(hash_bytes(format!("{v:?}{a:?}{b:?}{w}{with}{ci}{sub}").as_bytes()));
    Ok(())
}

/// Gluing any selector circuit into another, and pruning.
fn gluing(c: &mut Case) -> Res {
    let mut circ = random_circuit(&mut c.rng, false);
    if c.rng.bool() {
        circ.optimize();
    }
    let nv = circ.inputs.len();
    let enc = Encryption::new(&toy());
    let mut g = FheCircuit::new();
    let mut inputs = HashMap::new();
    let mut ins = Vec::new();
    let mut x = 0u64;
    for i in 0..nv {
        let b = c.rng.bool();
        x |= (b as u64) << i;
        ins.push(match c.rng.below(3) {
            0 => g.add_node(if b { FheOp::OneGgsw1 } else { FheOp::ZeroGgsw1 }),
            _ => {
                let ct = std::sync::Arc::new(parasol_concurrency::AtomicRefCell::new(enc.allocate_ggsw_l1()));
                inputs.insert(addr(&ct), Plain::Ggsw(b));
                g.add_node(FheOp::InputGgsw1(ct))
            }
        });
    }
    let v: Vec<bool> = (0..nv).map(|i| x >> i & 1 == 1).collect();
    let want = run(&circ, &v, "the generated circuit")?;
    let mut outs = g.insert_mux_circuit_l1glwe_outputs(&circ, &ins, &enc);
    // the same circuit a second time, elsewhere in the graph
    let second = g.insert_mux_circuit_output_glwe1_outputs(&circ, &ins, &enc);
    let vals = eval_fhe(&g, N, &inputs).map_err(|e| Fail::from(format!("malformed circuit: {e}")))?;
    let got: Vec<bool> = outs.iter().map(|o| bit_of(&vals[&addr(o)])).collect::<R<_>>()?;
    ck!(c, got == want, "glued circuit: got {} expected {}", show(&got), show(&want));
    // what remains after pruning computes the same
    let keep: Vec<NodeIndex> = second.iter().copied().filter(|_| c.rng.bool()).collect();
    let (pg, ren) = prune(&g.graph, &keep);
    let pc = FheCircuit::from(pg);
    let pv = eval_fhe(&pc, N, &inputs).map_err(|e| Fail::from(format!("pruned circuit: {e}")))?;
    let names: Vec<usize> = keep.iter().map(|k| match &g.graph[*k] { FheOp::OutputGlwe1(x) => addr(x), _ => 0 }).collect();
    ck_eq!(c, pv.len(), keep.len(), "outputs of a circuit pruned to {}", keep.len());
    for (k, a) in keep.iter().zip(&names) {
        ck!(c, pv.get(a) == vals.get(a), "pruning changes output {k:?}");
        ck!(c, matches!(ren.get(k).and_then(|r| pc.graph.node_weight(*r)), Some(FheOp::OutputGlwe1(x)) if addr(x) == *a), "pruning renames {k:?} wrongly");
    }
    // nothing unreachable is kept
    let mut reach = std::collections::HashSet::new();
    let mut st = keep.clone();
    while let Some(n) = st.pop() {
        if reach.insert(n) {
            st.extend(g.graph.neighbors_directed(n, petgraph::Direction::Incoming));
        }
    }
    ck_eq!(c, pc.graph.node_count(), reach.len(), "nodes of a pruned circuit");
    ck_eq!(c, pc.graph.edge_count(), g.graph.edge_indices().filter(|e| reach.contains(&g.graph.edge_endpoints(*e).unwrap().1)).count(), "edges of a pruned circuit");
    outs.clear();
    c.key(hash_u64s(&[x, circ.graph.node_count() as u64, circ.graph.edge_count() as u64, keep.len() as u64]));
    let _ = FheEdge::Unary;
    Ok(())
}

fn main() {
    let mut c = Ctx::new("C30");
    c.section("arithmetic bitwise and comparison circuits", 1200, 20000, arithmetic);
    c.section("shift and rotation circuits", 300, 6000, shifts);
    c.section("multiplication circuits", 60, 600, multiply);
    c.section("recombination of partial products", 40, 400, reduction);
    c.section("optimising and identifying inputs", 4000, 100000, rewriting);
    c.section("circuits of decision diagrams", 1500, 30000, from_bdd);
    c.section("word helpers", 4000, 200000, helpers);
    c.section("fluent integer expressions", 1200, 20000, fluent);
    c.section("packing selection and ready made circuits", 600, 10000, packing);
    c.section("gluing and pruning", 1500, 30000, gluing);
    c.finish();
}
