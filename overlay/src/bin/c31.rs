//! C31: the circuit processor runs every task once, after what it depends on, ends, reports
//! failures to the submitter, and leaves other circuits alone.
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{CircuitProcessor, CompletionHandler, ComputeKey, Encryption, Evaluation, FheCircuit, FheEdge, FheOp, L0LweCiphertext, L1GgswCiphertext, L1GlevCiphertext, L1GlweCiphertext, L1LweCiphertext, Params, SecretKey};
use petgraph::stable_graph::NodeIndex;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use sunscreen_tfhe::entities::Polynomial;
use vover::toy::*;
use vover::*;

type R<T> = std::result::Result<T, Fail>;
const WAIT: Duration = Duration::from_secs(120);

enum Cell {
    Lwe0(Arc<AtomicRefCell<L0LweCiphertext>>),
    Lwe1(Arc<AtomicRefCell<L1LweCiphertext>>),
    Glwe(Arc<AtomicRefCell<L1GlweCiphertext>>),
    Ggsw(Arc<AtomicRefCell<L1GgswCiphertext>>),
    Glev(Arc<AtomicRefCell<L1GlevCiphertext>>),
}
fn cell<T>(x: T) -> Arc<AtomicRefCell<T>> {
    Arc::new(AtomicRefCell::new(x))
}
impl Cell {
    fn addr(&self) -> usize {
        match self {
            Cell::Lwe0(x) => addr(x),
            Cell::Lwe1(x) => addr(x),
            Cell::Glwe(x) => addr(x),
            Cell::Ggsw(x) => addr(x),
            Cell::Glev(x) => addr(x),
        }
    }
    fn decrypt(&self, k: &Keys) -> R<Plain> {
        let p = |x: &Polynomial<u64>| -> R<Vec<bool>> {
            if x.coeffs().iter().any(|c| *c > 1) {
                fail!("an output decrypts to {:?}", Short(&x.coeffs()));
            }
            Ok(x.coeffs().iter().map(|c| *c == 1).collect())
        };
        Ok(match self {
            Cell::Lwe0(x) => Plain::Lwe0(k.enc.decrypt_lwe_l0(&x.borrow(), &k.sk)),
            Cell::Lwe1(x) => Plain::Lwe1(k.enc.decrypt_lwe_l1(&x.borrow(), &k.sk)),
            Cell::Glwe(x) => Plain::Glwe(p(&k.enc.decrypt_glwe_l1(&x.borrow(), &k.sk))?),
            Cell::Ggsw(x) => Plain::Ggsw(k.enc.decrypt_ggsw_l1(&x.borrow(), &k.sk)),
            Cell::Glev(x) => Plain::Glev(p(&k.enc.decrypt_glev_l1(&x.borrow(), &k.sk))?),
        })
    }
}

/// A circuit under construction with what its nodes stand for.
struct Built {
    g: FheCircuit,
    inputs: HashMap<usize, Plain>,
    cells: Vec<Cell>,
    outs: Vec<Cell>,
}

#[derive(Clone, Copy)]
struct Shape {
    nodes: u64,
    heavy: bool,
    deep: bool,
}

fn constant(b: bool) -> Vec<bool> {
    let mut v = vec![false; N];
    v[0] = b;
    v
}

/// A random well typed circuit.
fn build(rng: &mut Rng, k: &Keys, s: Shape) -> Built {
    let mut b = Built { g: FheCircuit::new(), inputs: HashMap::new(), cells: vec![], outs: vec![] };
    let (mut l0, mut l1, mut gl, mut gg, mut ge): (Vec<NodeIndex>, Vec<NodeIndex>, Vec<NodeIndex>, Vec<NodeIndex>, Vec<NodeIndex>) = Default::default();
    // messages of Glev nodes that are constants, which scheme switching needs
    let mut flat: Vec<NodeIndex> = vec![];
    // noise of Glwe nodes, counted in additions and selections
    let mut cost: HashMap<NodeIndex, u64> = HashMap::new();
    let ins = rng.range(0, 8);
    for _ in 0..ins {
        let v = rng.bool();
        match rng.below(5) {
            0 => {
                let c = cell(if rng.bool() { k.enc.encrypt_lwe_l0_secret(v, &k.sk) } else if v { k.enc.trivial_lwe_l0_one() } else { k.enc.trivial_lwe_l0_zero() });
                b.inputs.insert(addr(&c), Plain::Lwe0(v));
                l0.push(b.g.add_node(FheOp::InputLwe0(c.clone())));
                b.cells.push(Cell::Lwe0(c));
            }
            1 => {
                let c = cell(if rng.bool() { k.enc.encrypt_lwe_l1_secret(v, &k.sk) } else if v { k.enc.trivial_lwe_l1_one() } else { k.enc.trivial_lwe_l1_zero() });
                b.inputs.insert(addr(&c), Plain::Lwe1(v));
                l1.push(b.g.add_node(FheOp::InputLwe1(c.clone())));
                b.cells.push(Cell::Lwe1(c));
            }
            2 => {
                let v: Vec<bool> = (0..N).map(|_| rng.bool()).collect();
                let p = Polynomial::new(&v.iter().map(|x| *x as u64).collect::<Vec<_>>());
                let c = cell(match rng.below(3) {
                    0 => k.enc.encrypt_glwe_l1_secret(&p, &k.sk),
                    1 => k.enc.encrypt_rlwe_l1(&p, &k.pk),
                    _ => k.enc.trivial_glwe_l1(&p),
                });
                b.inputs.insert(addr(&c), Plain::Glwe(v));
                let n = b.g.add_node(FheOp::InputGlwe1(c.clone()));
                gl.push(n);
                cost.insert(n, 1);
                b.cells.push(Cell::Glwe(c));
            }
            3 => {
                let c = cell(k.enc.encrypt_ggsw_l1_secret(v, &k.sk));
                b.inputs.insert(addr(&c), Plain::Ggsw(v));
                gg.push(b.g.add_node(FheOp::InputGgsw1(c.clone())));
                b.cells.push(Cell::Ggsw(c));
            }
            _ => {
                let is_flat = rng.bool();
                let v: Vec<bool> = if is_flat { constant(v) } else { (0..N).map(|_| rng.bool()).collect() };
                let p = Polynomial::new(&v.iter().map(|x| *x as u64).collect::<Vec<_>>());
                let c = cell(if rng.bool() { k.enc.encrypt_glev_l1_secret(&p, &k.sk) } else { k.enc.encrypt_rlev_l1(&p, &k.pk) });
                b.inputs.insert(addr(&c), Plain::Glev(v));
                let n = b.g.add_node(FheOp::InputGlev1(c.clone()));
                ge.push(n);
                if is_flat {
                    flat.push(n);
                }
                b.cells.push(Cell::Glev(c));
            }
        }
    }
    for _ in 0..s.nodes {
        // the newest node of a kind makes long chains, any node makes wide graphs
        macro_rules! one { ($v:expr) => {{ if s.deep && rng.chance(3, 4) { *$v.last().unwrap() } else { rng.pick(&$v) } }} }
        match rng.below(if s.heavy { 18 } else { 15 }) {
            0 => l0.push(b.g.add_node(if rng.bool() { FheOp::ZeroLwe0 } else { FheOp::OneLwe0 })),
            1 => {
                let n = b.g.add_node(if rng.bool() { FheOp::ZeroGlwe1 } else { FheOp::OneGlwe1 });
                cost.insert(n, 0);
                gl.push(n);
            }
            2 => gg.push(b.g.add_node(if rng.bool() { FheOp::ZeroGgsw1 } else { FheOp::OneGgsw1 })),
            3 => {
                let n = b.g.add_node(if rng.bool() { FheOp::ZeroGlev1 } else { FheOp::OneGlev1 });
                flat.push(n);
                ge.push(n);
            }
            4 => {
                b.g.add_node(FheOp::Nop);
            }
            5 | 6 if !gl.is_empty() => {
                let x = one!(gl);
                let n = b.g.add_node(FheOp::Not);
                b.g.add_edge(x, n, FheEdge::Unary);
                cost.insert(n, cost[&x]);
                gl.push(n);
            }
            7 | 8 if !gl.is_empty() => {
                let (x, y) = (one!(gl), rng.pick(&gl));
                let w = cost[&x] + cost[&y];
                if w <= 200 {
                    let n = b.g.add_node(FheOp::GlweAdd);
                    b.g.add_edge(x, n, FheEdge::Left);
                    b.g.add_edge(y, n, FheEdge::Right);
                    cost.insert(n, w);
                    gl.push(n);
                }
            }
            9 if !gl.is_empty() => {
                let x = one!(gl);
                let k = match rng.below(3) { 0 => rng.usize(N), 1 => N + rng.usize(N), _ => rng.usize(2 * N) };
                let n = b.g.add_node(FheOp::MulXN(k));
                b.g.add_edge(x, n, FheEdge::Unary);
                cost.insert(n, cost[&x]);
                gl.push(n);
            }
            10 if !gl.is_empty() => {
                let x = one!(gl);
                let n = b.g.add_node(FheOp::SampleExtract(rng.usize(N)));
                b.g.add_edge(x, n, FheEdge::Unary);
                if cost[&x] <= 100 {
                    l1.push(n);
                }
            }
            11 | 12 if !gl.is_empty() && !gg.is_empty() => {
                let (s, l, h) = (one!(gg), one!(gl), rng.pick(&gl));
                let w = cost[&l].max(cost[&h]) + 4;
                if w <= 200 {
                    let n = b.g.add_node(FheOp::CMux);
                    let mut e = [(s, FheEdge::Sel), (l, FheEdge::Low), (h, FheEdge::High)];
                    rng.shuffle(&mut e);
                    for (x, t) in e {
                        b.g.add_edge(x, n, t);
                    }
                    cost.insert(n, w);
                    gl.push(n);
                }
            }
            13 if !ge.is_empty() && !gg.is_empty() => {
                let (s, l, h) = (rng.pick(&gg), rng.pick(&ge), rng.pick(&ge));
                // selections of Glev ciphertexts are not scheme switched again
                let n = b.g.add_node(FheOp::GlevCMux);
                let mut e = [(s, FheEdge::Sel), (l, FheEdge::Low), (h, FheEdge::High)];
                rng.shuffle(&mut e);
                for (x, t) in e {
                    b.g.add_edge(x, n, t);
                }
                ge.push(n);
            }
            14 if !gl.is_empty() && !gg.is_empty() => {
                let (s, x) = (rng.pick(&gg), one!(gl));
                let w = cost[&x] + 4;
                if w <= 200 {
                    let n = b.g.add_node(FheOp::MultiplyGgswGlwe);
                    b.g.add_edge(x, n, FheEdge::Glwe);
                    b.g.add_edge(s, n, FheEdge::Ggsw);
                    cost.insert(n, w);
                    gl.push(n);
                }
            }
            15 if !l1.is_empty() => {
                let x = one!(l1);
                let n = b.g.add_node(FheOp::KeyswitchL1toL0);
                b.g.add_edge(x, n, FheEdge::Unary);
                l0.push(n);
            }
            16 if !l0.is_empty() => {
                let x = one!(l0);
                let n = b.g.add_node(FheOp::CircuitBootstrap);
                b.g.add_edge(x, n, FheEdge::Unary);
                gg.push(n);
            }
            17 if !flat.is_empty() => {
                let x = rng.pick(&flat);
                let n = b.g.add_node(FheOp::SchemeSwitch);
                b.g.add_edge(x, n, FheEdge::Unary);
                gg.push(n);
            }
            _ => {}
        }
    }
    macro_rules! outputs { ($v:expr, $alloc:ident, $op:ident, $c:ident) => {{
        for x in &$v {
            for _ in 0..match rng.below(6) { 0 => 2, 1 | 2 => 1, _ => 0 } {
                let c = cell(k.enc.$alloc());
                let n = b.g.add_node(FheOp::$op(c.clone()));
                b.g.add_edge(*x, n, FheEdge::Unary);
                b.outs.push(Cell::$c(c));
            }
        }
    }} }
    outputs!(l0, allocate_lwe_l0, OutputLwe0, Lwe0);
    outputs!(l1, allocate_lwe_l1, OutputLwe1, Lwe1);
    outputs!(gl, allocate_glwe_l1, OutputGlwe1, Glwe);
    outputs!(gg, allocate_ggsw_l1, OutputGgsw1, Ggsw);
    outputs!(ge, allocate_glev_l1, OutputGlev1, Glev);
    b
}

struct Machine {
    proc: CircuitProcessor,
    tokens: Receiver<()>,
    cap: usize,
    panics: Arc<AtomicUsize>,
    threads: usize,
}
fn machine(rng: &mut Rng, k: &Keys) -> Machine {
    let panics = Arc::new(AtomicUsize::new(0));
    let threads = rng.pick(&[1usize, 1, 2, 3, 4, 8, 16]);
    let cap = match rng.below(4) { 0 => 1, 1 => rng.range(2, 6) as usize, 2 => rng.range(7, 64) as usize, _ => 16384 };
    let pool = if rng.chance(1, 8) {
        None
    } else {
        let p = panics.clone();
        Some(Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).panic_handler(move |_| { p.fetch_add(1, Ordering::SeqCst); }).build().unwrap()))
    };
    let (proc, tokens) = CircuitProcessor::new(cap, pool, &k.eval, &k.enc);
    Machine { proc, tokens, cap, panics, threads }
}
type Done = Arc<(AtomicUsize, OnceLock<Option<String>>)>;
fn handler() -> (Arc<CompletionHandler>, Done, Receiver<Option<String>>) {
    let d: Done = Arc::new((AtomicUsize::new(0), OnceLock::new()));
    let (s, r) = channel();
    let d2 = d.clone();
    let h = CompletionHandler::new(move |e| {
        d2.0.fetch_add(1, Ordering::SeqCst);
        let _ = s.send(e.map(|e| e.0));
    });
    (Arc::new(h), d, r)
}
fn wait(r: &Receiver<Option<String>>, what: &str, m: &Machine) -> R<Option<String>> {
    match r.recv_timeout(WAIT) {
        Ok(e) => Ok(e),
        Err(RecvTimeoutError::Timeout) => fail!("{what}: no completion after {WAIT:?} ({} threads, flow control {}, {} panics)", m.threads, m.cap, m.panics.load(Ordering::SeqCst)),
        Err(_) => fail!("{what}: handler dropped without being called ({} panics)", m.panics.load(Ordering::SeqCst)),
    }
}
/// Every token is back when nothing runs, and no handler fires again.
fn settle(c: &mut Case, m: &Machine, done: &[Done], what: &str) -> Res {
    ck_eq!(c, m.panics.load(Ordering::SeqCst), 0, "{what}: panics of workers");
    // a token may come back just after the completion is signalled
    let mut n = m.tokens.try_iter().count();
    let t0 = std::time::Instant::now();
    while n < m.cap && t0.elapsed() < WAIT {
        n += m.tokens.recv_timeout(Duration::from_millis(50)).map(|_| 1).unwrap_or(0);
    }
    ck_eq!(c, n, m.cap, "{what}: flow control tokens after completion");
    // give a spurious late task the chance to show
    std::thread::sleep(Duration::from_millis(if c.idx % 16 == 0 { 20 } else { 1 }));
    ck_eq!(c, m.tokens.try_iter().count(), 0, "{what}: extra flow control tokens");
    for d in done {
        ck_eq!(c, d.0.load(Ordering::SeqCst), 1, "{what}: calls of a completion handler");
    }
    Ok(())
}
fn check_outputs(c: &mut Case, k: &Keys, b: &Built, what: &str) -> Res {
    let want = eval_fhe(&b.g, N, &b.inputs).map_err(|e| Fail::from(format!("generator: {e}")))?;
    ck_eq!(c, want.len(), b.outs.len(), "{what}: outputs");
    for o in &b.outs {
        let got = o.decrypt(k).map_err(|e| Fail::from(format!("{what}: {}", e.msg)))?;
        ck!(c, got == want[&o.addr()], "{what}: got {:?} expected {:?}", Short(&got), Short(&want[&o.addr()]));
        c.count("outputs decrypted", 1);
    }
    // inputs are only read
    for i in &b.cells {
        ck!(c, i.decrypt(k)? == b.inputs[&i.addr()], "{what}: an input changed");
    }
    Ok(())
}
fn print(b: &Built) -> u64 {
    hash_bytes(format!("{:?}", b.g.graph.edge_indices().map(|e| (b.g.graph.edge_endpoints(e), b.g.graph.node_weight(b.g.graph.edge_endpoints(e).unwrap().1).map(std::mem::discriminant))).collect::<Vec<_>>()).as_bytes())
}
fn random_circuits(c: &mut Case) -> Res {
    let k = keys();
    let s = Shape { nodes: c.rng.pick(&[0, 1, 5, 20, 60, 60, 150]), heavy: true, deep: c.rng.bool() };
    let b = build(&mut c.rng, k, s);
    let mut m = machine(&mut c.rng, k);
    let (h, d, r) = handler();
    let what = format!("circuit of {} nodes, {} threads, flow control {}", b.g.graph.node_count(), m.threads, m.cap);
    if c.rng.chance(1, 4) {
        let e = { let t = &m.tokens; m.proc.run_graph_blocking(&b.g, t) };
        ck!(c, e.is_ok(), "{what}: {:?}", e.err().map(|e| e.0));
        settle(c, &m, &[], &what)?;
    } else {
        m.proc.spawn_graph(&b.g, &m.tokens, h);
        let e = wait(&r, &what, &m)?;
        ck!(c, e.is_none(), "{what}: reports {e:?}");
        settle(c, &m, &[d], &what)?;
    }
    c.count("tasks", b.g.graph.node_count() as u64);
    c.key(print(&b));
    check_outputs(c, k, &b, &what)
}

/// Large circuits of cheap operations: long chains, wide fans, diamonds, repeated edges.
fn schedules(c: &mut Case) -> Res {
    let k = keys();
    let s = Shape { nodes: c.rng.pick(&[200, 600, 1500]), heavy: false, deep: c.rng.bool() };
    let mut b = build(&mut c.rng, k, s);
    // one producer feeding many, and one long chain of negations behind it
    let src = b.g.add_node(FheOp::OneGlwe1);
    let fan = c.rng.range(1, 300);
    for i in 0..fan {
        let mut x = src;
        for _ in 0..(if i == 0 { c.rng.range(1, 300) } else { c.rng.below(3) }) {
            let n = b.g.add_node(FheOp::Not);
            b.g.add_edge(x, n, FheEdge::Unary);
            x = n;
        }
        let o = cell(k.enc.allocate_glwe_l1());
        let n = b.g.add_node(FheOp::OutputGlwe1(o.clone()));
        b.g.add_edge(x, n, FheEdge::Unary);
        b.outs.push(Cell::Glwe(o));
    }
    let mut m = machine(&mut c.rng, k);
    let (h, d, r) = handler();
    let what = format!("large circuit of {} nodes, {} threads, flow control {}", b.g.graph.node_count(), m.threads, m.cap);
    m.proc.spawn_graph(&b.g, &m.tokens, h);
    let e = wait(&r, &what, &m)?;
    ck!(c, e.is_none(), "{what}: reports {e:?}");
    settle(c, &m, &[d], &what)?;
    c.count("tasks", b.g.graph.node_count() as u64);
    c.max("pauses injected so far", perturb::Perturb::pauses() as f64);
    c.key(print(&b));
    check_outputs(c, k, &b, &what)
}

/// Makes a circuit invalid. Returns the outputs that must stay untouched, if that is certain.
fn spoil(rng: &mut Rng, k: &Keys, b: &mut Built) -> &'static str {
    let g = &mut b.g;
    let glwe = g.add_node(FheOp::OneGlwe1);
    let ggsw = g.add_node(FheOp::OneGgsw1);
    let lwe0 = g.add_node(FheOp::OneLwe0);
    let glev = g.add_node(FheOp::OneGlev1);
    let nop = g.add_node(FheOp::Nop);
    let any = |rng: &mut Rng| rng.pick(&[glwe, ggsw, lwe0, glev]);
    match rng.below(9) {
        0 => {
            let n = g.add_node(FheOp::Retire);
            if rng.bool() {
                g.add_edge(glwe, n, FheEdge::Unary);
            }
            "a retire operation"
        }
        1 => {
            let n = g.add_node(FheOp::SampleExtract(rng.pick(&[N, N + 1, 2 * N, usize::MAX])));
            g.add_edge(glwe, n, FheEdge::Unary);
            "an extraction out of range"
        }
        2 => {
            // an operand of the wrong kind
            let (op, good) = match rng.below(8) {
                0 => (FheOp::Not, glwe),
                1 => (FheOp::CircuitBootstrap, lwe0),
                2 => (FheOp::SchemeSwitch, glev),
                3 => (FheOp::MulXN(1), glwe),
                4 => (FheOp::OutputGlwe1(cell(k.enc.allocate_glwe_l1())), glwe),
                5 => (FheOp::OutputLwe0(cell(k.enc.allocate_lwe_l0())), lwe0),
                6 => (FheOp::OutputGgsw1(cell(k.enc.allocate_ggsw_l1())), ggsw),
                _ => (FheOp::SampleExtract(0), glwe),
            };
            let mut x = any(rng);
            while x == good {
                x = any(rng);
            }
            let n = g.add_node(op);
            g.add_edge(x, n, FheEdge::Unary);
            "an operand of the wrong kind"
        }
        3 => {
            let n = g.add_node(rng.pick(&[0, 1]).eq(&0).then_some(FheOp::CMux).unwrap_or(FheOp::GlevCMux));
            let v = if matches!(g[n], FheOp::CMux) { glwe } else { glev };
            let mut e = vec![(ggsw, FheEdge::Sel), (v, FheEdge::Low), (v, FheEdge::High)];
            match rng.below(4) {
                0 => { e.swap_remove(rng.usize(3)); }
                1 => { let i = rng.usize(3); e[i].1 = FheEdge::Unary; }
                2 => { let i = rng.usize(3); let j = e[(i + 1) % 3].1; e[i].1 = j; }
                _ => { let t = e[0].0; let w = rng.range(1, 2) as usize; e[0].0 = e[w].0; e[w].0 = t; }
            }
            for (x, t) in e {
                g.add_edge(x, n, t);
            }
            "a selection with wrong operands"
        }
        4 => {
            let n = g.add_node(FheOp::GlweAdd);
            match rng.below(4) {
                0 => { g.add_edge(glwe, n, FheEdge::Left); }
                1 => { g.add_edge(glwe, n, FheEdge::Left); g.add_edge(glwe, n, FheEdge::Left); }
                2 => { g.add_edge(glwe, n, FheEdge::Left); g.add_edge(glwe, n, FheEdge::Right); g.add_edge(glwe, n, FheEdge::Unary); }
                _ => { g.add_edge(glwe, n, FheEdge::Right); g.add_edge(lwe0, n, FheEdge::Left); }
            }
            "an addition with wrong operands"
        }
        5 => {
            let n = g.add_node(FheOp::Not);
            match rng.below(3) {
                0 => {}
                1 => { g.add_edge(glwe, n, FheEdge::Unary); g.add_edge(glwe, n, FheEdge::Unary); }
                _ => { g.add_edge(glwe, n, FheEdge::Left); }
            }
            "a unary operation with wrong edges"
        }
        6 => {
            let n = g.add_node(match rng.below(5) { 0 => FheOp::ZeroLwe0, 1 => FheOp::OneGgsw1, 2 => FheOp::Nop, 3 => FheOp::OneGlwe1, _ => FheOp::InputGlwe1(cell(k.enc.trivial_glwe_l1_one())) });
            g.add_edge(glwe, n, FheEdge::Unary);
            "a source with an operand"
        }
        7 => {
            let n = g.add_node(FheOp::Not);
            g.add_edge(nop, n, FheEdge::Unary);
            let m = g.add_node(FheOp::Not);
            g.add_edge(n, m, FheEdge::Unary);
            "an operand without a value"
        }
        _ => {
            let n = g.add_node(FheOp::MultiplyGgswGlwe);
            g.add_edge(glwe, n, FheEdge::Ggsw);
            g.add_edge(ggsw, n, FheEdge::Glwe);
            "a product with exchanged operands"
        }
    }
}

/// Valid and invalid circuits in flight together on one processor.
fn mixed(c: &mut Case) -> Res {
    let k = keys();
    let mut m = machine(&mut c.rng, k);
    let total = c.rng.range(1, 8);
    let mut runs = Vec::new();
    for _ in 0..total {
        let nodes = c.rng.pick(&[3, 20, 60]);
        let heavy = c.rng.bool();
        let deep = c.rng.bool();
        let mut b = build(&mut c.rng, k, Shape { nodes, heavy, deep });
        let bad = if c.rng.chance(2, 5) { Some(spoil(&mut c.rng, k, &mut b)) } else { None };
        let (h, d, r) = handler();
        if c.rng.chance(1, 3) {
            // clones of a processor share its flow control
            m.proc = m.proc.clone();
        }
        m.proc.spawn_graph(&b.g, &m.tokens, h);
        c.count(if bad.is_some() { "invalid circuits" } else { "valid circuits" }, 1);
        c.key(print(&b));
        runs.push((b, bad, d, r));
    }
    for (b, bad, _, r) in &runs {
        let e = wait(r, bad.unwrap_or("a valid circuit"), &m)?;
        match bad {
            Some(what) => ck!(c, e.is_some(), "{what} is not reported ({} threads, flow control {})", m.threads, m.cap),
            None => ck!(c, e.is_none(), "a valid circuit reports {:?}", Short(&e)),
        }
        let _ = b;
    }
    let dones: Vec<Done> = runs.iter().map(|r| r.2.clone()).collect();
    settle(c, &m, &dones, &format!("{total} circuits"))?;
    for (b, bad, _, _) in &runs {
        if bad.is_none() {
            check_outputs(c, k, b, "a valid circuit among others")?;
        } else {
            // inputs of a failed circuit are still the submitter's
            for i in &b.cells {
                ck!(c, i.decrypt(k)? == b.inputs[&i.addr()], "an invalid circuit changed its input");
            }
        }
    }
    // the processor works as before (the tokens were counted out of it, so a new one gets them)
    let (h, d, r) = handler();
    let b = build(&mut c.rng, k, Shape { nodes: 10, heavy: true, deep: false });
    let mut m2 = machine(&mut c.rng, k);
    m2.proc.spawn_graph(&b.g, &m2.tokens, h);
    let e = wait(&r, "after others", &m2)?;
    ck!(c, e.is_none(), "a later circuit reports {e:?}");
    settle(c, &m2, &[d], "a later circuit")?;
    check_outputs(c, k, &b, "a later circuit")
}

/// Several processors on one pool, driven from several threads, and circuits chained through
/// shared cells: the output of one is the input of the next after its completion.
fn shared_pool(c: &mut Case) -> Res {
    let k = keys();
    let threads = c.rng.pick(&[1usize, 2, 4, 8]);
    let panics = Arc::new(AtomicUsize::new(0));
    let p2 = panics.clone();
    let pool = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(threads).panic_handler(move |_| { p2.fetch_add(1, Ordering::SeqCst); }).build().unwrap());
    let drivers = c.rng.range(1, 4);
    let seeds: Vec<u64> = (0..drivers).map(|_| c.rng.u64()).collect();
    let results: Vec<std::result::Result<u64, String>> = std::thread::scope(|t| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|s| {
                let pool = pool.clone();
                t.spawn(move || -> std::result::Result<u64, String> {
                    let mut rng = Rng::new(*s);
                    let cap = rng.pick(&[1usize, 3, 50]);
                    let (mut proc, tokens) = CircuitProcessor::new(cap, Some(pool), &k.eval, &k.enc);
                    let mut v = rng.bool();
                    let mut cur = cell(k.enc.encrypt_lwe_l0_secret(v, &k.sk));
                    let rounds = rng.range(2, 6);
                    for i in 0..rounds {
                        let mut g = FheCircuit::new();
                        let x = g.add_node(FheOp::InputLwe0(cur.clone()));
                        let s = g.add_node(FheOp::CircuitBootstrap);
                        g.add_edge(x, s, FheEdge::Unary);
                        let (z, o) = (g.add_node(FheOp::ZeroGlwe1), g.add_node(FheOp::OneGlwe1));
                        let mx = g.add_node(FheOp::CMux);
                        let flip = rng.bool();
                        g.add_edge(s, mx, FheEdge::Sel);
                        g.add_edge(z, mx, if flip { FheEdge::High } else { FheEdge::Low });
                        g.add_edge(o, mx, if flip { FheEdge::Low } else { FheEdge::High });
                        let se = g.add_node(FheOp::SampleExtract(0));
                        g.add_edge(mx, se, FheEdge::Unary);
                        let ks = g.add_node(FheOp::KeyswitchL1toL0);
                        g.add_edge(se, ks, FheEdge::Unary);
                        let out = cell(k.enc.allocate_lwe_l0());
                        let oo = g.add_node(FheOp::OutputLwe0(out.clone()));
                        g.add_edge(ks, oo, FheEdge::Unary);
                        proc.run_graph_blocking(&g, &tokens).map_err(|e| format!("round {i}: {}", e.0))?;
                        v ^= flip;
                        cur = out;
                        let got = k.enc.decrypt_lwe_l0(&cur.borrow(), &k.sk);
                        if got != v {
                            return Err(format!("round {i} of a chain of circuits gives {got}"));
                        }
                    }
                    for _ in 0..cap {
                        tokens.recv_timeout(WAIT).map_err(|_| "a token of flow control is lost".to_string())?;
                    }
                    if tokens.try_iter().count() != 0 {
                        return Err("flow control has too many tokens".into());
                    }
                    Ok(rounds)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("driver panics".into()))).collect()
    });
    for r in results {
        match r {
            Ok(n) => c.count("chained circuits", n),
            Err(e) => fail!("{drivers} processors on {threads} threads: {e}"),
        }
    }
    ck_eq!(c, panics.load(Ordering::SeqCst), 0, "panics of workers");
    c.key(hash_u64s(&seeds));
    Ok(())
}

fn main() {
    let mut c = Ctx::new("C31");
    c.section("random circuits", 6000, 200000, random_circuits);
    // from here on threads are stopped at arbitrary instructions
    let p = [perturb::Perturb::start(1, 10), perturb::Perturb::start(2, 10), perturb::Perturb::start(3, 10)];
    c.section("schedules of large circuits", 1000, 20000, schedules);
    c.section("valid and invalid circuits together", 4000, 100000, mixed);
    c.section("processors sharing a pool", 1500, 40000, shared_pool);
    drop(p);
    c.finish();
}
