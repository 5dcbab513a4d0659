//! C05: concurrent use and worker count never change results.
use rayon::prelude::*;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use vtfhe::ops::*;
use vtfhe::*;

fn jitter(r: &mut Rng) {
    match r.below(4) {
        0 => std::thread::yield_now(),
        1 => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
        2 => std::thread::sleep(std::time::Duration::from_micros(r.below(50))),
        _ => {}
    }
}
struct Shared<S: Word> {
    inst: Inst<S>,
    want: Vec<Vec<u64>>,
}
fn pick_op(r: &mut Rng) -> usize {
    // the operations with internal parallelism or lookup state more often
    if r.chance(1, 3) {
        let hot = ["programmable_bootstrap_univariate", "circuit_bootstrap_via_trace", "blind_rotation", "scheme_switch_fft", "trace", "cmux", "glwe_ggsw_mad", "polynomial fft", "private_functional_keyswitch", "keyswitch_lwe_to_lwe", "LweSecretKeyRef::decrypt", "keyswitch_glwe_fft"];
        let n = hot[r.usize(hot.len())];
        NAMES.iter().position(|x| *x == n).unwrap()
    } else {
        r.usize(NAMES.len())
    }
}
fn prepare<S: Word>(r: &mut Rng, small: bool) -> Shared<S> {
    loop {
        let w = pick_op(r);
        let mut inst = gen_op::<S>(r, w, small);
        if inst.random {
            continue;
        }
        // alone, before anything is shared
        let mut s = inst.slots.clone();
        (inst.run)(&mut s);
        let want = s.iter().map(|x| x.bits()).collect();
        for x in inst.slots.iter_mut().filter(|x| x.role == Role::In) {
            x.share();
        }
        return Shared { inst, want };
    }
}
fn one<S: Word>(x: &Shared<S>, r: &mut Rng) -> Result<u64, String> {
    let mut s = x.inst.slots.clone();
    for o in s.iter_mut().filter(|o| o.role == Role::Out) {
        o.refill(r);
    }
    if let Err(e) = quiet_catch(|| (x.inst.run)(&mut s)) {
        return Err(format!("{} panics when run concurrently: {e}", x.inst.desc));
    }
    let mut n = 0;
    for (o, w) in s.iter().zip(&x.want) {
        let g = o.bits();
        if &g != w {
            return Err(format!("{}: {} differs from its value when run alone ({} of {} elements)", x.inst.desc, o.name, g.iter().zip(w).filter(|(a, b)| a != b).count(), w.len()));
        }
        n += g.len() as u64;
    }
    Ok(n)
}
fn shared<S: Word>(c: &mut Case) -> Res {
    let small = c.rng.bool();
    let nops = c.rng.range(1, 5) as usize;
    let mut ops: Vec<Shared<S>> = vec![];
    for _ in 0..nops {
        ops.push(prepare(&mut c.rng, small));
    }
    let threads = c.rng.pick(&[2usize, 3, 4, 8, 8, 12]);
    let rounds = c.rng.range(3, 8);
    let lockstep = c.rng.bool();
    let bar = Barrier::new(threads);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let evals = AtomicU64::new(0);
    let order = Mutex::new(vec![]);
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64()).collect();
    std::thread::scope(|t| {
        for (id, seed) in seeds.iter().enumerate() {
            let (bar, bad, evals, ops, order) = (&bar, &bad, &evals, &ops, &order);
            t.spawn(move || {
                let mut r = Rng::new(*seed);
                bar.wait();
                for round in 0..rounds {
                    // everyone inside the same operation, or everyone somewhere else
                    let w = if lockstep { round as usize % ops.len() } else { r.usize(ops.len()) };
                    if lockstep {
                        bar.wait();
                    } else {
                        jitter(&mut r);
                    }
                    match one(&ops[w], &mut r) {
                        Ok(n) => {
                            evals.fetch_add(n, SeqCst);
                            order.lock().unwrap().push((id as u8, w as u8));
                        }
                        Err(e) => {
                            bad.lock().unwrap().get_or_insert(e);
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        fail!("{e}; {threads} threads, lockstep {lockstep}")
    }
    // shared inputs are untouched
    for x in &ops {
        for (s, w) in x.inst.slots.iter().zip(&x.want).filter(|x| x.0.role == Role::In) {
            ck!(c, &s.bits() == w, "{}: shared input {} was modified", x.inst.desc, s.name);
        }
    }
    c.evals += evals.load(SeqCst);
    let o = order.into_inner().unwrap();
    c.count("concurrent operations", o.len() as u64);
    c.key(hash_bytes(&o.iter().flat_map(|x| [x.0, x.1]).collect::<Vec<_>>()));
    c.describe(format!("{threads} threads over {} shared operations, first {}", ops.len(), ops[0].inst.desc));
    Ok(())
}
fn pools<S: Word>(c: &mut Case) -> Res {
    let workers = c.rng.pick(&[1usize, 2, 3, 5, 8, 16]);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(workers).build().unwrap();
    let small = c.rng.bool();
    // evaluation operations from inside a pool, nested in its workers
    let mut ops: Vec<Shared<S>> = vec![];
    for _ in 0..3 {
        ops.push(prepare(&mut c.rng, small));
    }
    let seed = c.rng.u64();
    let res: Vec<Result<u64, String>> = pool.install(|| (0..24u64).into_par_iter().map(|i| one(&ops[(i % 3) as usize], &mut Rng::new(seed ^ i))).collect());
    for r in res {
        match r {
            Ok(n) => c.evals += n,
            Err(e) => fail!("{e}; {workers} workers"),
        }
    }
    // operations that are parallel inside: same phases for every worker count, and no row shared
    let names = ["generate_bootstrap_key", "generate_private_functional_keyswitch_key", "generate_circuit_bootstrapping_pfks_keys", "generate_keyswitch_key_lwe"];
    let nm = c.rng.pick(&names);
    let w = NAMES.iter().position(|x| *x == nm).unwrap();
    let inst = loop {
        let i = gen_op::<S>(&mut c.rng, w, small);
        if i.exact {
            break i;
        }
    };
    let (out, n, key) = match inst.rows {
        Some((o, n, k)) => (o, n, k),
        None => fail!("{nm} has no rows"),
    };
    let m = wmask(S::W as u32);
    let mut want: Option<Vec<Vec<u64>>> = None;
    for workers in [1, 2, 3, 8, 13] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(workers).build().unwrap();
        let reps = c.rng.range(1, 3);
        // several generations at once in one pool
        let got: Vec<Vec<u64>> = pool.install(|| {
            (0..reps)
                .into_par_iter()
                .map(|i| {
                    let mut s = inst.slots.clone();
                    let mut r = Rng::new(seed ^ i);
                    s.iter_mut().filter(|x| x.role == Role::Out).for_each(|x| x.refill(&mut r));
                    (inst.run)(&mut s);
                    s[out].bits()
                })
                .collect()
        });
        let sk = inst.slots[key].bits();
        for g in got {
            let ph = if n == 0 { g.chunks(sk.len() + 1).map(|c| vec![model::lwe_phase(c, &sk, m)]).collect() } else { model::phases(&g, &sk, n, m) };
            match &want {
                None => want = Some(ph),
                Some(w) => {
                    let d = w.iter().zip(&ph).position(|(a, b)| a != b);
                    ck!(c, d.is_none(), "{}: row {d:?} encrypts something else with {workers} workers than with one", inst.desc);
                }
            }
            c.evals += g.len() as u64;
        }
    }
    c.count("worker counts", 5);
    c.key(hash_bytes(inst.desc.as_bytes()));
    Ok(())
}

/// Body of a child process: the very first uses of everything, from several threads at once.
fn child(seed: u64, threads: usize) {
    let mut r = Rng::new(seed);
    let ops: Vec<Inst<u64>> = (0..threads.max(8))
        .map(|_| loop {
            let w = pick_op(&mut r);
            let i = gen_op::<u64>(&mut r, w, false);
            if !i.random {
                break i;
            }
        })
        .collect();
    let out: Vec<Mutex<u64>> = ops.iter().map(|_| Mutex::new(0)).collect();
    let bar = Barrier::new(threads);
    std::thread::scope(|t| {
        for id in 0..threads {
            let (ops, out, bar) = (&ops, &out, &bar);
            t.spawn(move || {
                bar.wait();
                for (i, o) in ops.iter().enumerate().filter(|x| x.0 % threads == id) {
                    let mut s = o.slots.clone();
                    (o.run)(&mut s);
                    let h = hash_bytes(&s.iter().flat_map(|x| x.bits()).flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
                    *out[i].lock().unwrap() = h;
                }
            });
        }
    });
    for (i, o) in out.iter().enumerate() {
        println!("{} {:x}", ops[i].name.replace(' ', "_"), *o.lock().unwrap());
    }
}
fn first_use(c: &mut Case) -> Res {
    let exe = std::env::current_exe().unwrap();
    let seed = c.rng.u64();
    let run = |threads: usize| -> Result<String, String> {
        let o = std::process::Command::new(&exe).args(["--child", &seed.to_string(), &threads.to_string()]).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
        }
        Ok(String::from_utf8_lossy(&o.stdout).into_owned())
    };
    let one = match run(1) {
        Ok(x) => x,
        Err(e) => fail!("operations run one after another in a fresh process fail: {e}"),
    };
    let threads = c.rng.pick(&[2usize, 4, 8, 8]);
    let many = match run(threads) {
        Ok(x) => x,
        Err(e) => fail!("operations first used from {threads} threads at once fail (seed {seed}): {e}"),
    };
    for (a, b) in one.lines().zip(many.lines()) {
        ck_eq!(c, a, b, "result when {threads} threads use the library first at once, seed {seed}");
    }
    c.count("processes", 2);
    c.key(seed);
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--child").unwrap_or(false) {
        return child(a[2].parse().unwrap(), a[3].parse().unwrap());
    }
    let mut x = Ctx::new("C05");
    let _ = Arc::new(());
    x.serial("shared", 4000, 150000, |c| either!(c, shared));
    x.serial("pools", 600, 20000, |c| either!(c, pools));
    x.section("first use", 1500, 30000, first_use);
    x.finish()
}
