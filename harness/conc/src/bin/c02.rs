//! C02: the spinlock excludes, publishes, and stays locked when its handle is forgotten.
use parasol_concurrency::{Spinlock, SpinlockHandle};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use vcore::*;

struct Tracked {
    v: u64,
    drops: Arc<AtomicUsize>,
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}

fn sequential(c: &mut Case) -> Res {
    let drops = Arc::new(AtomicUsize::new(0));
    let mut value = c.rng.u64();
    {
        let lock = Spinlock::new(Tracked { v: value, drops: drops.clone() });
        let mut h: Option<SpinlockHandle<Tracked>> = None;
        let mut forgotten = false;
        let mut hist = vec![];
        for _ in 0..c.rng.range(3, 40) {
            let op = c.rng.below(8);
            hist.push(op);
            let held = h.is_some() || forgotten;
            match op {
                0 | 1 => match lock.try_lock() {
                    Some(mut g) => {
                        ck!(c, !held, "try_lock succeeded on a held lock; history {hist:?}");
                        ck_eq!(c, g.v, value, "value under try_lock");
                        value = value.wrapping_add(c.rng.u64());
                        g.v = value;
                        h = Some(g);
                    }
                    None => {
                        ck!(c, held, "try_lock failed on a free lock; history {hist:?}");
                        c.count("try_failed", 1);
                    }
                },
                2 => {
                    if !held {
                        let mut g = lock.lock();
                        ck_eq!(c, g.v, value, "value under lock");
                        value ^= 1;
                        g.v = value;
                        h = Some(g);
                    }
                }
                3 | 4 => h = None,
                5 => {
                    if h.is_some() && c.rng.chance(1, 5) {
                        std::mem::forget(h.take());
                        forgotten = true;
                    }
                }
                6 => {
                    if !held {
                        // panicking critical section releases the lock
                        let by_try = c.rng.bool();
                        let nv = value.wrapping_mul(5);
                        let _ = quiet_catch(|| {
                            let mut g = if by_try { lock.try_lock().unwrap() } else { lock.lock() };
                            g.v = nv;
                            std::panic::panic_any(0u8);
                        });
                        value = nv;
                        let g = lock.try_lock();
                        ck!(c, g.is_some(), "lock still held after its holder panicked; history {hist:?}");
                        ck_eq!(c, g.unwrap().v, value, "write of the panicking holder");
                    }
                }
                _ => {
                    for _ in 0..c.rng.range(1, 6) {
                        let r = lock.try_lock().is_some();
                        ck!(c, r == !held, "repeated try_lock = {r} on a lock held = {held}; history {hist:?}");
                    }
                    if let Some(g) = &h {
                        ck_eq!(c, g.v, value, "holder sees its value");
                    }
                }
            }
            c.key(hash_u64s(&[h.is_some() as u64, forgotten as u64, op, hist.len() as u64]));
        }
        c.describe(format!("ops {hist:?}"));
        if forgotten {
            for _ in 0..50 {
                ck!(c, lock.try_lock().is_none(), "a forgotten handle no longer keeps the lock held; history {hist:?}");
            }
        } else {
            drop(h);
            ck!(c, lock.try_lock().is_some(), "lock not free at the end; history {hist:?}");
            ck!(c, lock.lock().v == value, "value at the end");
        }
        ck_eq!(c, drops.load(SeqCst), 0, "value dropped while the lock is alive");
    }
    ck_eq!(c, drops.load(SeqCst), 1, "value dropped exactly once with its lock");
    Ok(())
}

#[derive(Debug)]
struct Ev {
    call: u64,
    ret: u64,
    end: u64,
    ok: bool,
    th: usize,
}
const W: usize = 8;

fn concurrent(c: &mut Case) -> Res {
    let threads = c.rng.range(2, 6) as usize;
    let ops = c.rng.range(8, 80);
    let try_bias = c.rng.pick(&[0u64, 20, 50, 90]);
    let forget_at_end = c.rng.chance(1, 4);
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64()).collect();
    let lock = Spinlock::new([0u64; W]);
    let holders = AtomicI64::new(0);
    let published = AtomicU64::new(0);
    let bar = Barrier::new(threads);
    // one totally ordered clock; the locked add also drains the store buffer
    let clock = AtomicU64::new(0);
    let now = || clock.fetch_add(1, SeqCst);
    let all: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (lock, holders, published, bar, all, bad, now) = (&lock, &holders, &published, &bar, &all, &bad, &now);
            let mut rng = Rng::new(seeds[t]);
            s.spawn(move || {
                let mut evs = vec![];
                let report = |m: String| *bad.lock().unwrap() = Some(m);
                bar.wait();
                for _ in 0..ops {
                    let spin = rng.below(150);
                    let unwind = rng.chance(1, 10);
                    let tr = rng.chance(try_bias, 100);
                    let yld = rng.chance(1, 8);
                    let call = now();
                    let mut ret = 0;
                    let mut got = false;
                    let _ = quiet_catch(|| {
                        let g = if tr { lock.try_lock() } else { Some(lock.lock()) };
                        ret = now();
                        if let Some(mut g) = g {
                            got = true;
                            let h = holders.fetch_add(1, SeqCst);
                            if h != 0 {
                                report(format!("{} other holders inside the critical section", h));
                            }
                            let v = g[0];
                            if v != published.load(SeqCst) {
                                report(format!("holder sees version {v}, last published {}", published.load(SeqCst)));
                            }
                            for i in 0..W {
                                if g[i] != v {
                                    report(format!("torn value {:?}", *g));
                                }
                                g[i] = v + 1;
                                if i == W / 2 {
                                    for _ in 0..spin {
                                        std::hint::spin_loop()
                                    }
                                    if yld {
                                        std::thread::yield_now()
                                    }
                                }
                            }
                            published.store(v + 1, SeqCst);
                            if holders.fetch_sub(1, SeqCst) != 1 {
                                report("another thread entered the critical section".into());
                            }
                            if unwind {
                                std::panic::panic_any(0u8)
                            }
                        }
                    });
                    evs.push(Ev { call, ret, end: now(), ok: got, th: t });
                }
                all.lock().unwrap().extend(evs);
            });
        }
    });
    c.describe(format!("{threads} threads x {ops} ops, {try_bias}% try_lock"));
    if let Some(m) = bad.into_inner().unwrap() {
        fail!("{m}");
    }
    let evs = all.into_inner().unwrap();
    for e in evs.iter().filter(|e| !e.ok) {
        let conflict = evs.iter().any(|o| o.ok && o.call <= e.end && o.end >= e.call && o.th != e.th);
        c.count("try_failed", 1);
        ck!(c, conflict, "try_lock failed although no hold overlaps it: {e:?}");
    }
    let granted = evs.iter().filter(|e| e.ok).count() as u64;
    c.count("granted", granted);
    let mut o: Vec<_> = evs.iter().filter(|e| e.ok).collect();
    o.sort_by_key(|e| e.ret);
    let k: Vec<u64> = o.iter().map(|e| e.th as u64).collect();
    c.keys.clear();
    c.key(hash_u64s(&k));
    let g = lock.try_lock();
    ck!(c, g.is_some(), "lock not free after every holder finished");
    let g = g.unwrap();
    ck_eq!(c, g[0], granted, "critical sections executed and final version");
    if forget_at_end {
        std::mem::forget(g);
        let won = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    for _ in 0..100 {
                        if let Some(g) = lock.try_lock() {
                            won.fetch_add(1, SeqCst);
                            drop(g);
                        }
                    }
                });
            }
        });
        ck_eq!(c, won.load(SeqCst), 0, "try_lock successes on a lock whose handle was forgotten");
    } else {
        // a handle may be dropped by another thread; that releases the lock once
        std::thread::scope(|s| {
            s.spawn(move || drop(g));
        });
        let a = lock.try_lock();
        ck!(c, a.is_some(), "lock not free after its handle was dropped on another thread");
        ck!(c, lock.try_lock().is_none(), "second try_lock succeeded");
    }
    Ok(())
}

/// hand-off ping-pong: waiting lockers always get the lock after a release
fn handoff(c: &mut Case) -> Res {
    let threads = c.rng.range(2, 5) as usize;
    let rounds = 40u64;
    let lock = Spinlock::new((0u64, 0u64));
    std::thread::scope(|s| {
        for t in 0..threads as u64 {
            let lock = &lock;
            s.spawn(move || {
                let mut done = 0;
                while done < rounds {
                    let mut g = lock.lock();
                    if g.0 % threads as u64 == t {
                        g.0 += 1;
                        g.1 += t;
                        done += 1;
                    } else {
                        drop(g);
                        std::thread::yield_now();
                    }
                }
            });
        }
    });
    let g = lock.lock();
    ck_eq!(c, g.0, rounds * threads as u64, "turns taken");
    ck_eq!(c, g.1, rounds * (0..threads as u64).sum::<u64>(), "sum of turns");
    c.key(hash_u64s(&[threads as u64, c.idx]));
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C02");
    x.section("sequential-model", 60_000, 1_500_000, sequential);
    x.serial("concurrent", 6_000, 200_000, concurrent);
    x.serial("handoff", 200, 4_000, handoff);
    x.finish()
}
