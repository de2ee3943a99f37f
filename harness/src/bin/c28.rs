//! C28: calls stand alone. Cases of other monitors, which know the right answers, run after calls that
//! failed or panicked, and on several threads at once; threads also work on shared matrices.
#![allow(dead_code)]
use harness::*;

#[path = "c02.rs"]
mod c02;
#[path = "c05.rs"]
mod c05;
#[path = "c07.rs"]
mod c07;
#[path = "c10.rs"]
mod c10;
#[path = "c14.rs"]
mod c14;
#[path = "c15.rs"]
mod c15;
#[path = "c16.rs"]
mod c16;
#[path = "c19.rs"]
mod c19;
#[path = "c23.rs"]
mod c23;
#[path = "c28s.rs"]
mod c28s;
use c28s::at_once;

/// Cases of other monitors; the first are drawn more often.
fn others() -> Vec<(&'static str, Family)> {
    let mut v = vec![];
    for (p, l) in [
        ("C05", c05::families()),
        ("C23", c23::families()),
        ("C07", c07::families()),
        ("C10", c10::families()),
        ("C02", c02::families()),
        ("C14", c14::families()),
        ("C15", c15::families()),
        ("C16", c16::families()),
    ] {
        for f in l {
            if f.quick > 0 {
                v.push((p, f));
            }
        }
    }
    v
}

fn draw<'a>(r: &mut Rng, all: &'a [(&'static str, Family)]) -> (&'a (&'static str, Family), u64) {
    loop {
        let f = &all[r.below(all.len())];
        let large = ["big", "large", "long", "medium", "clique", "wide"].iter().any(|x| f.1.name.contains(x));
        if !large || r.chance(1, 40) {
            // Case numbers choose types and, for some, positions in an enumeration.
            return (f, r.next() % f.1.quick);
        }
    }
}

/// Failures of all kinds, then ordinary cases on the same thread.
fn history(cx: &mut Cx, r: &mut Rng, _: u64) {
    let all = others();
    let damage = c19::families();
    let mut inner = cx.child();
    let mut log = vec![];
    let mut h = 1;
    for _ in 0..r.range(2, 6) {
        let n = r.below(4);
        for _ in 0..n {
            let f = &damage[r.below(damage.len())];
            let mut s = r.clone();
            r.next();
            let i = r.next() % 10_000;
            if let Err(e) = inner.run_case(f.f, &mut s, i) {
                cx.fail(format!("calls with damaged arguments ({}): {}", f.name, e));
            }
            log.push(format!("damaged {}", f.name));
        }
        for _ in 0..r.range(1, 4) {
            let ((p, f), i) = draw(r, &all);
            let mut s = r.clone();
            r.next();
            if let Err(e) = inner.run_case(f.f, &mut s, i) {
                cx.fail(format!("after {:?}: {} {}:{}: {}", log, p, f.name, i, e));
            }
            cx.count("calls_groups_after_failures", (n > 0) as usize);
            cx.count("ordinary_groups", 1);
            log.push(format!("{} {}", p, f.name));
            h = rng::mix(h ^ rng::hash_str(f.name) ^ rng::hash_str(p));
            cx.seen(h);
        }
    }
    cx.merge(&inner, &["calls_returned", "calls_panicked", "matrices_compared", "entries_compared", "analyses", "traversals", "steps"]);
    cx.show(|| format!("{:?}", log));
}

/// Threads that work on matrices of their own.
fn apart(cx: &mut Cx, r: &mut Rng, _: u64) {
    let all = others();
    let damage = c19::families();
    let n = r.range(2, 6);
    let rounds = r.range(1, 4);
    let (all, damage) = (&all, &damage);
    // Often everybody does the same kind of thing.
    let fixed = if r.chance(1, 2) { Some(draw(r, all)) } else { None };
    let name = fixed.map_or("mixed", |f| f.0 .1.name);
    cx.show(|| format!("{} threads, {} rounds, {}", n, rounds, name));
    cx.seen(rng::mix(r.0));
    let jobs = (0..n)
        .map(|t| -> Box<dyn FnOnce(&mut Cx, &mut Rng) + '_> {
            Box::new(move |c: &mut Cx, r: &mut Rng| {
                for k in 0..rounds {
                    if t == 0 && k == 0 && r.chance(1, 4) {
                        let f = &damage[r.below(damage.len())];
                        let mut s = r.clone();
                        r.next();
                        c.run_case(f.f, &mut s, k as u64).unwrap_or_else(|e| c.fail(e));
                    }
                    let ((p, f), i) = match fixed {
                        Some((f, i)) => (f, (i + (t + k) as u64) % f.1.quick),
                        None => draw(r, all),
                    };
                    let mut s = r.clone();
                    r.next();
                    if let Err(e) = c.run_case(f.f, &mut s, i) {
                        c.fail(format!("thread {}: {} {}:{}: {}", t, p, f.name, i, e));
                    }
                    c.count("ordinary_groups", 1);
                }
            })
        })
        .collect();
    at_once(cx, r, jobs);
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "history", quick: 6_000, thorough: 200_000, f: history },
        Family { name: "apart", quick: 3_000, thorough: 100_000, f: apart },
        Family { name: "shared", quick: 6_000, thorough: 200_000, f: c28s::shared },
    ]
}

pub fn main() {
    run(&families())
}
