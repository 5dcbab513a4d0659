//! C01: AtomicRefCell borrows are shared-xor-exclusive.
use parasol_concurrency::{AtomicRefCell, Ref, RefMut};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use vcore::*;

#[derive(Debug)]
struct Tracked {
    v: u64,
    drops: Arc<AtomicUsize>,
}
impl Drop for Tracked {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}

/// Sequential histories against an abstract borrow model.
fn sequential(c: &mut Case) -> Res {
    let drops = Arc::new(AtomicUsize::new(0));
    let mut value = c.rng.u64();
    {
        let cell = AtomicRefCell::new(Tracked { v: value, drops: drops.clone() });
        let mut refs: Vec<Ref<Tracked>> = vec![];
        let mut wr: Option<RefMut<Tracked>> = None;
        let mut leaked = 0usize;
        let mut leaked_mut = false;
        let n = c.rng.range(4, 60);
        let style = c.rng.below(4);
        let mut hist = vec![];
        for _ in 0..n {
            let op = match style {
                0 => c.rng.below(8),
                1 => c.rng.pick(&[0u64, 1, 1, 2, 3, 0]),
                2 => c.rng.pick(&[0u64, 0, 0, 2, 2, 1, 6]),
                _ => c.rng.below(10),
            };
            hist.push(op);
            let excl = wr.is_some() || leaked_mut;
            let shared = refs.len() + leaked;
            match op {
                0 => match quiet_catch(|| cell.borrow()) {
                    Ok(r) => {
                        ck!(c, !excl, "shared borrow granted while exclusively borrowed; history {hist:?}");
                        ck_eq!(c, r.v, value, "value through shared borrow; history {hist:?}");
                        refs.push(r);
                    }
                    Err(_) => {
                        ck!(c, excl, "shared borrow refused with {shared} shared, no exclusive; history {hist:?}");
                        c.count("rejected", 1);
                    }
                },
                1 => match quiet_catch(|| cell.borrow_mut()) {
                    Ok(mut w) => {
                        ck!(c, !excl && shared == 0, "exclusive borrow granted with {shared} shared, exclusive={excl}; history {hist:?}");
                        ck_eq!(c, w.v, value, "value through exclusive borrow");
                        value = value.wrapping_mul(3).wrapping_add(1);
                        w.v = value;
                        wr = Some(w);
                    }
                    Err(_) => {
                        ck!(c, excl || shared > 0, "exclusive borrow refused while free; history {hist:?}");
                        c.count("rejected", 1);
                    }
                },
                2 => {
                    if !refs.is_empty() {
                        let i = c.rng.usize(refs.len());
                        refs.swap_remove(i);
                    }
                }
                3 => wr = None,
                4 => {
                    for r in &refs {
                        ck_eq!(c, r.v, value, "held shared borrow sees the current value");
                    }
                    if let Some(w) = &wr {
                        ck_eq!(c, w.v, value, "held exclusive borrow sees the current value");
                    }
                }
                5 => {
                    // borrow inside an unwinding scope
                    let m = c.rng.bool();
                    let r = quiet_catch(|| {
                        if m {
                            let _g = cell.borrow_mut();
                            std::panic::panic_any(77u8);
                        } else {
                            let _g = cell.borrow();
                            std::panic::panic_any(77u8);
                        }
                    });
                    assert!(r.is_err());
                }
                6 => {
                    if let Some(w) = wr.as_mut() {
                        value ^= 0x55;
                        w.v ^= 0x55;
                    }
                }
                7 => {
                    // several rejected attempts in a row
                    for _ in 0..c.rng.range(1, 5) {
                        let ok = quiet_catch(|| drop(cell.borrow_mut())).is_ok();
                        ck!(c, ok == (!excl && shared == 0), "repeated exclusive attempt ok={ok}, exclusive={excl} shared={shared}; history {hist:?}");
                        let ok = quiet_catch(|| drop(cell.borrow())).is_ok();
                        ck!(c, ok == !excl, "repeated shared attempt ok={ok}, exclusive={excl} shared={shared}; history {hist:?}");
                    }
                }
                8 => {
                    if c.rng.chance(1, 6) && !refs.is_empty() {
                        std::mem::forget(refs.pop());
                        leaked += 1;
                    } else if c.rng.chance(1, 12) && wr.is_some() {
                        std::mem::forget(wr.take());
                        leaked_mut = true;
                    }
                }
                _ => {
                    // drop everything; every kind of borrow must work again
                    refs.clear();
                    wr = None;
                    if leaked == 0 && !leaked_mut {
                        ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "exclusive borrow refused after all borrows ended; history {hist:?}");
                        ck!(c, quiet_catch(|| drop((cell.borrow(), cell.borrow()))).is_ok(), "shared borrow refused after all borrows ended; history {hist:?}");
                    }
                }
            }
            let sh = refs.len() + leaked;
            c.key(hash_u64s(&[sh as u64, wr.is_some() as u64, leaked_mut as u64, op, hist.len() as u64]));
        }
        c.describe(format!("ops {hist:?}"));
        drop(refs);
        drop(wr);
        if leaked == 0 && !leaked_mut {
            ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "exclusive borrow refused at the end; history {hist:?}");
            ck!(c, quiet_catch(|| drop(cell.borrow())).is_ok(), "shared borrow refused at the end; history {hist:?}");
        }
        ck_eq!(c, drops.load(SeqCst), 0, "value dropped while the cell is alive");
    }
    ck_eq!(c, drops.load(SeqCst), 1, "value dropped exactly once with its cell");
    Ok(())
}

/// clone / serde give fresh unborrowed cells with the same value, whatever the state.
fn copies(c: &mut Case) -> Res {
    let v: Vec<u64> = (0..c.rng.range(0, 9)).map(|_| c.rng.u64()).collect();
    let cell = AtomicRefCell::new(v.clone());
    let n = c.rng.usize(4);
    let held: Vec<_> = (0..n).map(|_| cell.borrow()).collect();
    let k = cell.clone();
    let s = serde_json::to_string(&cell).unwrap();
    ck_eq!(c, s, serde_json::to_string(&v).unwrap(), "serialised form is the value's");
    let d: AtomicRefCell<Vec<u64>> = serde_json::from_str(&s).unwrap();
    for (name, x) in [("clone", &k), ("deserialised", &d)] {
        ck!(c, quiet_catch(|| x.borrow_mut().push(7)).is_ok(), "{name} cell is not free ({n} borrows on the original)");
        ck!(c, quiet_catch(|| drop((x.borrow(), x.borrow()))).is_ok(), "{name} cell refuses shared borrows");
        let mut e = v.clone();
        e.push(7);
        ck_eq!(c, *x.borrow(), e, "{name} value");
    }
    ck_eq!(c, *cell.borrow(), v, "original unaffected by writes to copies");
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok() == (n == 0), "original's borrow count disturbed by copying ({n} held)");
    drop(held);
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "original still borrowed after drop");
    // copying an exclusively borrowed cell conflicts, and must leave it intact
    let w = cell.borrow_mut();
    ck!(c, quiet_catch(|| cell.clone()).is_err(), "clone while exclusively borrowed must be refused");
    ck!(c, quiet_catch(|| cell.borrow()).is_err(), "shared borrow granted after refused clone");
    drop(w);
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "cell not free after refused clone");
    c.describe(format!("len {} held {n}", v.len()));
    Ok(())
}

#[derive(Clone, Debug)]
struct Ev {
    call: u64,
    ret: u64,
    end: u64,
    excl: bool,
    ok: bool,
    th: usize,
}

const W: usize = 8;
/// Threads hammer one cell; shadow counters detect overlap, an offline checker over
/// the recorded history detects spurious refusals, versions detect lost updates.
fn concurrent(c: &mut Case) -> Res {
    let threads = c.rng.range(2, 6) as usize;
    let ops = c.rng.range(8, 60);
    let wbias = c.rng.pick(&[10u64, 30, 50, 80]);
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64()).collect();
    let cell = AtomicRefCell::new([0u64; W]);
    let readers = AtomicI64::new(0);
    let writers = AtomicI64::new(0);
    let published = AtomicU64::new(0);
    let bar = Barrier::new(threads);
    // one totally ordered clock; the locked add also drains the store buffer
    let clock = AtomicU64::new(0);
    let now = || clock.fetch_add(1, SeqCst);
    let all: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (cell, readers, writers, published, bar, all, bad, now) = (&cell, &readers, &writers, &published, &bar, &all, &bad, &now);
            let mut rng = Rng::new(seeds[t]);
            s.spawn(move || {
                let mut evs = vec![];
                let report = |m: String| *bad.lock().unwrap() = Some(m);
                bar.wait();
                for _ in 0..ops {
                    let spin = rng.below(200);
                    let unwind = rng.chance(1, 10);
                    let excl = rng.chance(wbias, 100);
                    let yld = rng.chance(1, 8);
                    let call = now();
                    let mut ret = 0;
                    let mut got = false;
                    let r = quiet_catch(|| {
                        if excl {
                            let mut g = cell.borrow_mut();
                            ret = now();
                            got = true;
                            let w = writers.fetch_add(1, SeqCst);
                            let rd = readers.load(SeqCst);
                            if w != 0 || rd != 0 {
                                report(format!("exclusive borrow overlaps {w} exclusive and {rd} shared borrows"));
                            }
                            let v = g[0];
                            if v < published.load(SeqCst) {
                                report(format!("exclusive borrow sees version {v}, older than a published one"));
                            }
                            for i in 0..W {
                                if g[i] != v {
                                    report(format!("torn value {:?} under exclusive borrow", *g));
                                }
                                g[i] = v + 1;
                                if i == W / 2 {
                                    for _ in 0..spin {
                                        std::hint::spin_loop()
                                    }
                                    if yld {
                                        std::thread::yield_now()
                                    }
                                }
                            }
                            published.store(v + 1, SeqCst);
                            let rd = readers.load(SeqCst);
                            let w = writers.fetch_sub(1, SeqCst);
                            if w != 1 || rd != 0 {
                                report(format!("exclusive borrow shared with {} exclusive and {rd} shared borrows", w - 1));
                            }
                            if unwind {
                                std::panic::panic_any(1u8)
                            }
                        } else {
                            let pb = published.load(SeqCst);
                            let g = cell.borrow();
                            ret = now();
                            got = true;
                            readers.fetch_add(1, SeqCst);
                            let w = writers.load(SeqCst);
                            if w != 0 {
                                report(format!("shared borrow overlaps {w} exclusive"));
                            }
                            let a = unsafe { std::ptr::read_volatile(&*g) };
                            for _ in 0..spin {
                                std::hint::spin_loop()
                            }
                            if yld {
                                std::thread::yield_now()
                            }
                            let b = unsafe { std::ptr::read_volatile(&*g) };
                            if a != b || a.iter().any(|x| *x != a[0]) {
                                report(format!("value changed or torn under a shared borrow: {a:?} {b:?}"));
                            }
                            if a[0] < pb {
                                report(format!("shared borrow sees version {} after {pb} was published", a[0]));
                            }
                            if writers.load(SeqCst) != 0 {
                                report("exclusive borrow granted during a shared one".into());
                            }
                            readers.fetch_sub(1, SeqCst);
                            if unwind {
                                std::panic::panic_any(1u8)
                            }
                        }
                    });
                    let _ = r;
                    let end = now();
                    evs.push(Ev { call, ret, end, excl, ok: got, th: t });
                }
                all.lock().unwrap().extend(evs);
            });
        }
    });
    c.describe(format!("{threads} threads x {ops} ops, {wbias}% exclusive"));
    if let Some(m) = bad.into_inner().unwrap() {
        fail!("{m}");
    }
    let evs = all.into_inner().unwrap();
    // offline check: a refusal needs a conflicting borrow whose possible hold time overlaps the attempt
    for e in evs.iter().filter(|e| !e.ok) {
        let conflict = evs.iter().any(|o| o.ok && (e.excl || o.excl) && o.call <= e.end && o.end >= e.call && o.th != e.th);
        c.count(if e.excl { "refused_exclusive" } else { "refused_shared" }, 1);
        ck!(c, conflict, "{} borrow refused although no conflicting borrow overlaps it: {e:?}", if e.excl { "exclusive" } else { "shared" });
    }
    let granted_w = evs.iter().filter(|e| e.ok && e.excl).count() as u64;
    c.count("granted_exclusive", granted_w);
    c.count("granted_shared", evs.iter().filter(|e| e.ok && !e.excl).count() as u64);
    // distinct interleavings observed: order of grants by thread and kind
    let mut o: Vec<_> = evs.iter().filter(|e| e.ok).collect();
    o.sort_by_key(|e| e.ret);
    let k: Vec<u64> = o.iter().map(|e| (e.th * 2 + e.excl as usize) as u64).collect();
    c.keys.clear();
    c.key(hash_u64s(&k));
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "cell not exclusively borrowable after all threads finished");
    let f = cell.borrow();
    ck_eq!(c, f[0], granted_w, "number of exclusive writes and final version");
    ck_eq!(c, quiet_catch(|| drop(cell.borrow())).is_ok(), true, "shared borrow at the end");
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_err(), "exclusive borrow granted beside a shared one");
    Ok(())
}

/// Reader storms: many threads hold shared borrows (never conflicting) across joins;
/// none may be refused, exclusive must be refused until the last one is gone.
fn reader_storm(c: &mut Case) -> Res {
    let threads = c.rng.range(2, 8) as usize;
    let per = c.rng.range(1, 200) as usize;
    let cell = AtomicRefCell::new(0u64);
    let bar = Barrier::new(threads);
    let refused = AtomicUsize::new(0);
    let wrong = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                bar.wait();
                let mut v = vec![];
                for _ in 0..per {
                    match quiet_catch(|| cell.borrow()) {
                        Ok(r) => v.push(r),
                        Err(_) => {
                            refused.fetch_add(1, SeqCst);
                        }
                    }
                }
                for _ in 0..3 {
                    if !v.is_empty() && quiet_catch(|| drop(cell.borrow_mut())).is_ok() {
                        wrong.fetch_add(1, SeqCst);
                    }
                }
                // these must not have disturbed the count
                while let Some(r) = v.pop() {
                    drop(r);
                    if !v.is_empty() && v.len() % 16 == 0 && quiet_catch(|| drop(cell.borrow_mut())).is_ok() {
                        wrong.fetch_add(1, SeqCst);
                    }
                }
            });
        }
    });
    ck_eq!(c, refused.load(SeqCst), 0, "shared borrows refused with no exclusive borrow anywhere");
    ck_eq!(c, wrong.load(SeqCst), 0, "exclusive borrows granted beside shared ones");
    ck!(c, quiet_catch(|| drop(cell.borrow_mut())).is_ok(), "cell not free after {threads}x{per} shared borrows ended");
    ck!(c, quiet_catch(|| drop(cell.borrow())).is_ok(), "shared refused at the end");
    c.describe(format!("{threads} threads x {per} shared borrows"));
    Ok(())
}

fn main() {
    let mut x = Ctx::new("C01");
    x.section("sequential-model", 60_000, 1_500_000, sequential);
    x.section("copies", 3_000, 50_000, copies);
    x.serial("concurrent", 6_000, 200_000, concurrent);
    x.serial("reader-storm", 1_000, 20_000, reader_storm);
    x.finish()
}
