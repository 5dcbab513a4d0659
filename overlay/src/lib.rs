//! Reference evaluators shared by the monitors of the crates above sunscreen_tfhe.
pub mod toy;
pub use vcore::*;
use mux_circuits::{MuxCircuit, MuxEdgeInfo, MuxOp};
use parasol_runtime::{FheCircuit, FheEdge, FheOp};
use petgraph::stable_graph::NodeIndex;
use petgraph::visit::EdgeRef;
use petgraph::Direction;
use std::collections::HashMap;

/// Evaluates a selector circuit by its definition (memoised, independent of node order).
/// Outputs are returned by output index; the circuit must be well formed.
pub fn eval_mux(c: &MuxCircuit, inputs: &[bool]) -> std::result::Result<Vec<bool>, String> {
    let g = &c.graph;
    let mut memo: HashMap<NodeIndex, bool> = HashMap::new();
    let mut outs: Vec<(u32, NodeIndex)> = g.node_indices().filter_map(|n| if let MuxOp::Output(i) = g[n] { Some((i, n)) } else { None }).collect();
    outs.sort();
    for (i, (o, _)) in outs.iter().enumerate() {
        if i as u32 != *o {
            return Err(format!("output indices are {:?}", outs.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
    }
    let operand = |n: NodeIndex, kind: MuxEdgeInfo| -> std::result::Result<NodeIndex, String> {
        let v: Vec<NodeIndex> = g.edges_directed(n, Direction::Incoming).filter(|e| *e.weight() == kind).map(|e| e.source()).collect();
        if v.len() != 1 {
            return Err(format!("node {:?} {:?} has {} operands of kind {:?}", n, g[n], v.len(), kind));
        }
        Ok(v[0])
    };
    let mut stack: Vec<NodeIndex> = outs.iter().map(|x| x.1).collect();
    while let Some(&n) = stack.last() {
        if memo.contains_key(&n) {
            stack.pop();
            continue;
        }
        let incoming = g.edges_directed(n, Direction::Incoming).count();
        let val = match g[n] {
            MuxOp::One | MuxOp::Zero | MuxOp::Variable(_) => {
                if incoming != 0 {
                    return Err(format!("node {:?} {:?} has operands", n, g[n]));
                }
                match g[n] {
                    MuxOp::One => Some(true),
                    MuxOp::Zero => Some(false),
                    MuxOp::Variable(v) => Some(*inputs.get(v as usize).ok_or(format!("variable {v} with {} inputs", inputs.len()))?),
                    _ => unreachable!(),
                }
            }
            MuxOp::Output(_) => {
                if incoming != 1 {
                    return Err(format!("output {n:?} has {incoming} operands"));
                }
                let s = operand(n, MuxEdgeInfo::Output)?;
                match memo.get(&s) {
                    Some(v) => Some(*v),
                    None => {
                        stack.push(s);
                        None
                    }
                }
            }
            MuxOp::Mux => {
                if incoming != 3 {
                    return Err(format!("selector {n:?} has {incoming} operands"));
                }
                let mut v = [false; 3];
                let mut ready = true;
                for (i, k) in [MuxEdgeInfo::Select, MuxEdgeInfo::Low, MuxEdgeInfo::High].into_iter().enumerate() {
                    let s = operand(n, k)?;
                    match memo.get(&s) {
                        Some(x) => v[i] = *x,
                        None => {
                            stack.push(s);
                            ready = false;
                        }
                    }
                }
                if ready {
                    Some(if v[0] { v[2] } else { v[1] })
                } else {
                    None
                }
            }
        };
        if stack.len() > 4 * g.node_count() + 16 {
            return Err("cyclic circuit".into());
        }
        if let Some(v) = val {
            memo.insert(n, v);
            stack.pop();
        }
    }
    // The list of inputs must name the variables in order.
    for (i, n) in c.inputs.iter().enumerate() {
        if !matches!(g.node_weight(*n), Some(MuxOp::Variable(v)) if *v as usize == i) {
            return Err(format!("inputs[{i}] is {:?}", g.node_weight(*n)));
        }
    }
    Ok(outs.iter().map(|x| memo[&x.1]).collect())
}

/// What a ciphertext of a circuit stands for.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Plain {
    Lwe0(bool),
    Lwe1(bool),
    Ggsw(bool),
    /// Message polynomial over one bit.
    Glwe(Vec<bool>),
    Glev(Vec<bool>),
    None,
}

/// Address of the ciphertext behind a shared cell.
pub fn addr<T>(x: &std::sync::Arc<parasol_concurrency::AtomicRefCell<T>>) -> usize {
    let b = parasol_concurrency::AtomicRefCell::borrow(x);
    &*b as *const T as usize
}

/// Evaluates a circuit on clear values. `inputs` maps addresses of input ciphertexts to their
/// meaning; the result maps addresses of output ciphertexts to theirs.
pub fn eval_fhe(c: &FheCircuit, n: usize, inputs: &HashMap<usize, Plain>) -> std::result::Result<HashMap<usize, Plain>, String> {
    let g = &c.graph;
    let order = petgraph::algo::toposort(g, None).map_err(|_| "cyclic circuit".to_string())?;
    let mut val: HashMap<NodeIndex, Plain> = HashMap::new();
    let mut out = HashMap::new();
    for i in order {
        let ops: Vec<(FheEdge, Plain)> = g.edges_directed(i, Direction::Incoming).map(|e| (*e.weight(), val[&e.source()].clone())).collect();
        let get = |f: fn(&FheEdge) -> bool| -> std::result::Result<Plain, String> {
            let v: Vec<&Plain> = ops.iter().filter(|o| f(&o.0)).map(|o| &o.1).collect();
            if v.len() != 1 {
                return Err(format!("node {i:?} {:?} has operands {:?}", g[i], ops.iter().map(|o| o.0).collect::<Vec<_>>()));
            }
            Ok(v[0].clone())
        };
        let unary = || get(|e| matches!(e, FheEdge::Unary));
        let need = |k: usize| -> std::result::Result<(), String> {
            if ops.len() != k {
                Err(format!("node {i:?} {:?} has {} operands instead of {k}", g[i], ops.len()))
            } else {
                Ok(())
            }
        };
        let constant = |b: bool| {
            let mut v = vec![false; n];
            v[0] = b;
            v
        };
        let bad = |p: &Plain| -> String { format!("node {i:?} {:?} is fed with {:?}", g[i], Short(p)) };
        let input = |a: usize| inputs.get(&a).cloned().ok_or(format!("unknown input of {i:?}"));
        let r = match &g[i] {
            FheOp::InputLwe0(x) => { need(0)?; input(addr(x))? }
            FheOp::InputLwe1(x) => { need(0)?; input(addr(x))? }
            FheOp::InputGlwe1(x) => { need(0)?; input(addr(x))? }
            FheOp::InputGgsw1(x) => { need(0)?; input(addr(x))? }
            FheOp::InputGlev1(x) => { need(0)?; input(addr(x))? }
            FheOp::OutputLwe0(x) => { need(1)?; let v = unary()?; if !matches!(v, Plain::Lwe0(_)) { return Err(bad(&v)); } out.insert(addr(x), v.clone()); Plain::None }
            FheOp::OutputLwe1(x) => { need(1)?; let v = unary()?; if !matches!(v, Plain::Lwe1(_)) { return Err(bad(&v)); } out.insert(addr(x), v.clone()); Plain::None }
            FheOp::OutputGlwe1(x) => { need(1)?; let v = unary()?; if !matches!(v, Plain::Glwe(_)) { return Err(bad(&v)); } out.insert(addr(x), v.clone()); Plain::None }
            FheOp::OutputGgsw1(x) => { need(1)?; let v = unary()?; if !matches!(v, Plain::Ggsw(_)) { return Err(bad(&v)); } out.insert(addr(x), v.clone()); Plain::None }
            FheOp::OutputGlev1(x) => { need(1)?; let v = unary()?; if !matches!(v, Plain::Glev(_)) { return Err(bad(&v)); } out.insert(addr(x), v.clone()); Plain::None }
            FheOp::SampleExtract(k) => { need(1)?; match unary()? { Plain::Glwe(p) if *k < n => Plain::Lwe1(p[*k]), v => return Err(bad(&v)) } }
            FheOp::KeyswitchL1toL0 => { need(1)?; match unary()? { Plain::Lwe1(b) => Plain::Lwe0(b), v => return Err(bad(&v)) } }
            FheOp::Not => { need(1)?; match unary()? { Plain::Glwe(mut p) => { p[0] = !p[0]; Plain::Glwe(p) } v => return Err(bad(&v)) } }
            FheOp::GlweAdd => {
                need(2)?;
                match (get(|e| matches!(e, FheEdge::Left))?, get(|e| matches!(e, FheEdge::Right))?) {
                    (Plain::Glwe(a), Plain::Glwe(b)) => Plain::Glwe(a.iter().zip(&b).map(|(x, y)| x ^ y).collect()),
                    v => return Err(bad(&v.0)),
                }
            }
            FheOp::CMux => {
                need(3)?;
                match (get(|e| matches!(e, FheEdge::Sel))?, get(|e| matches!(e, FheEdge::Low))?, get(|e| matches!(e, FheEdge::High))?) {
                    (Plain::Ggsw(s), Plain::Glwe(l), Plain::Glwe(h)) => Plain::Glwe(if s { h } else { l }),
                    v => return Err(format!("{} {}", bad(&v.0), bad(&v.1))),
                }
            }
            FheOp::GlevCMux => {
                need(3)?;
                match (get(|e| matches!(e, FheEdge::Sel))?, get(|e| matches!(e, FheEdge::Low))?, get(|e| matches!(e, FheEdge::High))?) {
                    (Plain::Ggsw(s), Plain::Glev(l), Plain::Glev(h)) => Plain::Glev(if s { h } else { l }),
                    v => return Err(format!("{} {}", bad(&v.0), bad(&v.1))),
                }
            }
            FheOp::MultiplyGgswGlwe => {
                need(2)?;
                match (get(|e| matches!(e, FheEdge::Ggsw))?, get(|e| matches!(e, FheEdge::Glwe))?) {
                    (Plain::Ggsw(s), Plain::Glwe(p)) => Plain::Glwe(p.iter().map(|x| *x && s).collect()),
                    v => return Err(format!("{} {}", bad(&v.0), bad(&v.1))),
                }
            }
            FheOp::CircuitBootstrap => { need(1)?; match unary()? { Plain::Lwe0(b) => Plain::Ggsw(b), v => return Err(bad(&v)) } }
            FheOp::SchemeSwitch => { need(1)?; match unary()? { Plain::Glev(p) => { if p[1..].iter().any(|x| *x) { return Err("scheme switch of a polynomial".into()); } Plain::Ggsw(p[0]) } v => return Err(bad(&v)) } }
            FheOp::ZeroLwe0 => { need(0)?; Plain::Lwe0(false) }
            FheOp::OneLwe0 => { need(0)?; Plain::Lwe0(true) }
            FheOp::ZeroGlwe1 => { need(0)?; Plain::Glwe(constant(false)) }
            FheOp::OneGlwe1 => { need(0)?; Plain::Glwe(constant(true)) }
            FheOp::ZeroGgsw1 => { need(0)?; Plain::Ggsw(false) }
            FheOp::OneGgsw1 => { need(0)?; Plain::Ggsw(true) }
            FheOp::ZeroGlev1 => { need(0)?; Plain::Glev(constant(false)) }
            FheOp::OneGlev1 => { need(0)?; Plain::Glev(constant(true)) }
            FheOp::MulXN(k) => { need(1)?; match unary()? { Plain::Glwe(p) => Plain::Glwe((0..n).map(|j| p[(j + n - k % n) % n]).collect()), v => return Err(bad(&v)) } }
            FheOp::Retire => return Err("retire in a circuit".into()),
            FheOp::Nop => { need(0)?; Plain::None }
        };
        val.insert(i, r);
    }
    Ok(out)
}
