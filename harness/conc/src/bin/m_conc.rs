//! Small workload for Miri (weak memory, data race and aliasing detection) and TSan.
use parasol_concurrency::{AtomicRefCell, Spinlock};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}
fn refcell(n: usize, ops: usize) {
    let cell = Arc::new(AtomicRefCell::new([0u64; 4]));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let cell = cell.clone();
            std::thread::spawn(move || {
                let mut wrote = 0u64;
                for i in 0..ops {
                    let _ = catch_unwind(AssertUnwindSafe(|| {
                        if (i + t) % 2 == 0 {
                            let mut g = cell.borrow_mut();
                            let v = g[0];
                            for x in g.iter_mut() {
                                assert!(*x == v);
                                *x = v + 1;
                            }
                            wrote += 1;
                        } else {
                            let g = cell.borrow();
                            let v = g[0];
                            let g2 = catch_unwind(AssertUnwindSafe(|| cell.borrow()));
                            if g.iter().any(|x| *x != v) {
                                std::process::abort()
                            }
                            if let Ok(h) = &g2 {
                                if h[0] != v {
                                    std::process::abort()
                                }
                            }
                        }
                    }));
                }
                wrote
            })
        })
        .collect();
    let total: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    let v = *cell.borrow_mut();
    if v != [total; 4] {
        eprintln!("MONITOR: final value {v:?} after {total} exclusive writes");
        std::process::exit(101)
    }
    println!("refcell: {} attempts, {total} exclusive", n * ops);
}
fn spin(n: usize, ops: usize) {
    let l = Arc::new(Spinlock::new([0u64; 4]));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let l = l.clone();
            std::thread::spawn(move || {
                let mut wrote = 0u64;
                for i in 0..ops {
                    let g = if (i + t) % 3 == 0 { l.try_lock() } else { Some(l.lock()) };
                    if let Some(mut g) = g {
                        let v = g[0];
                        for x in g.iter_mut() {
                            if *x != v {
                                std::process::abort()
                            }
                            *x = v + 1;
                        }
                        wrote += 1;
                    }
                }
                wrote
            })
        })
        .collect();
    let total: u64 = hs.into_iter().map(|h| h.join().unwrap()).sum();
    let v = *l.lock();
    if v != [total; 4] {
        eprintln!("MONITOR: final value {v:?} after {total} critical sections");
        std::process::exit(101)
    }
    println!("spinlock: {} attempts, {total} holds", n * ops);
}
/// One shared borrow dropped while another thread tries exclusive: the exclusive
/// access must be ordered after the last shared one.
fn drop_then_mut() {
    let cell = Arc::new(AtomicRefCell::new(1u64));
    let c2 = cell.clone();
    let h = std::thread::spawn(move || {
        for _ in 0..6 {
            if let Ok(g) = catch_unwind(AssertUnwindSafe(|| c2.borrow())) {
                let _ = *g;
            }
        }
    });
    for _ in 0..6 {
        let _ = catch_unwind(AssertUnwindSafe(|| *cell.borrow_mut() += 1));
    }
    h.join().unwrap();
}
fn main() {
    quiet();
    let what = std::env::args().nth(1).unwrap_or("all".into());
    let big = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(8usize);
    if what != "spin" {
        refcell(2, big);
        refcell(3, big);
        drop_then_mut();
    }
    if what != "refcell" {
        spin(2, big);
        spin(3, big);
    }
}
