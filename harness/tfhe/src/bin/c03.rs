//! C03: results depend only on inputs.
use vtfhe::ops::*;
use vtfhe::*;

fn op<S: Word>(c: &mut Case, which: usize) -> Res {
    let small = c.quick && c.rng.bool();
    let mut inst = gen_op::<S>(&mut c.rng, which, small);
    c.count(inst.name, 1);
    let n = inst.slots.iter().map(|s| s.len()).max().unwrap_or(1);
    // reference: a fresh thread, whose temporary memory was never used, and zeroed outputs
    let mut first = inst.slots.clone();
    for s in first.iter_mut().filter(|s| s.role == Role::Out) {
        match &mut s.d {
            D::T(v) => v.iter_mut().for_each(|x| *x = S::of(0)),
            D::C(v) => v.iter_mut().for_each(|x| *x = C64::new(0.0, 0.0)),
            _ => {}
        }
    }
    let run = &inst.run;
    if let Err(e) = std::thread::scope(|t| t.spawn(|| quiet_catch(|| run(&mut first))).join().unwrap()) {
        fail!("{} panics on valid arguments: {e}", inst.desc)
    }
    for round in 0..3 {
        let mut s = inst.slots.clone();
        for x in s.iter_mut().filter(|x| x.role == Role::Out) {
            x.refill(&mut c.rng);
        }
        if round > 0 {
            poison_scratch(&mut c.rng, n.min(4096));
        }
        if round == 2 {
            // another operation in between
            let w = c.rng.usize(NAMES.len());
            let mut o = gen_op::<u64>(&mut c.rng, w, true);
            (o.run)(&mut o.slots);
        }
        (inst.run)(&mut s);
        if inst.random {
            continue;
        }
        for (a, b) in first.iter().zip(&s) {
            let (x, y) = (a.bits(), b.bits());
            if x != y {
                let at = (0..x.len().min(y.len())).find(|i| x[*i] != y[*i]);
                fail!("{}: {} depends on leftover memory (round {round}, {} of {} elements differ, first at {at:?})", inst.desc, a.name, x.iter().zip(&y).filter(|(a, b)| a != b).count(), x.len());
            }
            c.evals += x.len() as u64;
        }
        for (a, b) in inst.slots.iter().zip(&s).filter(|x| x.0.role == Role::In) {
            ck_eq!(c, a.bits(), b.bits(), "{}: input {} was modified", inst.desc, a.name);
        }
    }
    // outputs depend on every output element being written: covered by junk; inputs matter at all
    c.key(hash_bytes(inst.desc.as_bytes()));
    c.describe(std::mem::take(&mut inst.desc));
    Ok(())
}
/// Encryptions and keys written over old contents decrypt to the same thing (noise off, masks differ):
/// the phase under the key is compared between a fresh and a dirty destination.
fn enc<S: Word>(c: &mut Case, which: usize) -> Res {
    let inst = gen_op::<S>(&mut c.rng, which, true);
    if !inst.random {
        return Ok(());
    }
    // every element of the destination is written: none keeps its old contents in each of four runs
    let mut kept: Vec<Vec<usize>> = inst.slots.iter().map(|s| (0..if s.role == Role::Out { s.bits().len() } else { 0 }).collect()).collect();
    for _ in 0..4 {
        let mut a = inst.slots.clone();
        for x in a.iter_mut().filter(|x| x.role == Role::Out) {
            x.refill(&mut c.rng);
        }
        let old: Vec<Vec<u64>> = a.iter().map(|x| x.bits()).collect();
        poison_scratch(&mut c.rng, 512);
        (inst.run)(&mut a);
        for ((k, o), x) in kept.iter_mut().zip(&old).zip(&a) {
            let x = x.bits();
            k.retain(|i| o.get(*i) == x.get(*i));
        }
    }
    for (s, k) in inst.slots.iter().zip(&kept) {
        ck!(c, k.is_empty(), "{}: {} of {} elements of {} keep their old contents, first {:?}", inst.desc, k.len(), s.len(), s.name, k.first());
    }
    c.count("random", 1);
    c.key(hash_bytes(inst.desc.as_bytes()));
    Ok(())
}
fn main() {
    let mut x = Ctx::new("C03");
    let n = NAMES.len() as u64;
    x.section("operations", n * 400, n * 8000, |c| {
        let w = (c.idx / 2 % n) as usize;
        either!(c, op, w)
    });
    x.section("destinations", n * 100, n * 2000, |c| {
        let w = (c.idx / 2 % n) as usize;
        either!(c, enc, w)
    });
    x.finish()
}
