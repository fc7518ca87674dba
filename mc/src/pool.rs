//! C27: the pool of pieces still to fetch.
use crate::util::*;
use rust_bit::verif::peer::PiecePool;
use sim::runner::*;
use sim::{ensure, fnv, step};

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C27",
        level: "model_checking",
        rule: "every sequence of take / give-back operations up to a depth, by one or two holders of the same pool, for pools of 0 to 5 pieces, compared with a reference multiset in every state; for two and three real threads using one pool, every switch point (after every machine instruction) of schedules with up to 1 or 2 (thorough: 3) preemptions, the results compared with every order of the operations; a state is a set of results",
        assumptions: &["sequentially consistent memory; a blocked or spinning thread lets the others run"],
        run,
    }]
}

fn run(ctx: &mut Ctx) {
    let depth: u32 = ctx.pick(8, 10);
    // letters: holder a/b takes; holder a/b gives back its oldest piece; gives back its newest
    const K: u64 = 6;
    for n in 0..=5usize {
        ctx.enumerate(&format!("pool of {n}"), K.pow(depth), |i, c| {
            let ops = digits(i, &vec![K as usize; depth as usize]);
            c.text(format!("{ops:?}"));
            let pools = cut(|| {
                let p = PiecePool::new(n);
                [p.clone(), p]
            })
            .map_err(|p| p.fail())?;
            let mut inside: Vec<usize> = (0..n).collect(); // reference: what must be in the pool
            let mut held: [Vec<usize>; 2] = [vec![], vec![]];
            for op in &ops {
                let who = op % 2;
                match op / 2 {
                    0 => {
                        let got = cut(|| pools[who].pop()).map_err(|p| p.fail())?;
                        match got {
                            Some(x) => {
                                let Some(k) = inside.iter().position(|y| *y == x) else {
                                    return fail("piece handed out twice or out of range", format!("piece {x} while the pool should hold {inside:?}"));
                                };
                                inside.remove(k);
                                held[who].push(x);
                            }
                            None => ensure!(inside.is_empty(), "piece lost", "pool says empty, should hold {inside:?}"),
                        }
                    }
                    k => {
                        if held[who].is_empty() {
                            continue;
                        }
                        let x = if k == 1 { held[who].remove(0) } else { held[who].pop().unwrap() };
                        cut(|| pools[who].insert(x)).map_err(|p| p.fail())?;
                        inside.push(x);
                    }
                }
                c.steps(1);
                let mut s = inside.clone();
                s.sort();
                c.state(fnv(format!("{n} {s:?} {held:?}").as_bytes()));
            }
            // everything still comes out exactly once
            let mut rest = vec![];
            while let Some(x) = cut(|| pools[0].pop()).map_err(|p| p.fail())? {
                rest.push(x);
                ensure!(rest.len() <= n, "pool yields more than it holds", "{rest:?}");
            }
            rest.sort();
            inside.sort();
            ensure!(rest == inside, "pool contents wrong", "drained {rest:?}, should be {inside:?}");
            c.outcome(format!("drained {}", rest.len()));
            Ok(())
        });
    }
    concurrent(ctx);
    // large pools: every piece exactly once, in whatever order, with give-backs in between
    ctx.enumerate("large pools", 64, |i, c| {
        let n = [1usize, 2, 255, 256, 257, 1000, 65536, 70000][i as usize % 8];
        let every = [0usize, 1, 2, 3, 7, 50, 255, 256][i as usize / 8];
        c.text(format!("{n} pieces, every {every}th given back once"));
        let mut left = vec![1u32; n];
        let r = cut(|| -> Result<(), Fail> {
            let p = PiecePool::new(n);
            let mut k = 0;
            let mut given = vec![false; n];
            while let Some(x) = p.pop() {
                k += 1;
                ensure!(x < n && left[x] > 0, "piece handed out twice or out of range", "piece {x} of {n}");
                if every > 0 && x % every == 0 && !given[x] {
                    given[x] = true;
                    p.insert(x);
                } else {
                    left[x] = 0;
                }
                ensure!(k <= 2 * n + 2, "pool never empties", "");
            }
            Ok(())
        });
        r.map_err(|p| p.fail())??;
        c.steps(n as u64);
        ensure!(left.iter().all(|x| *x == 0), "piece lost", "{:?}", left.iter().position(|x| *x > 0));
        Ok(())
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Take,
    Give(usize),
}
use Op::*;

/// Could the threads have seen these results with their operations one after the other?
fn possible(n: usize, scripts: &[Vec<Op>], results: &[Vec<Option<usize>>], rest: &[usize]) -> bool {
    fn go(inside: &mut Vec<usize>, at: &mut Vec<usize>, scripts: &[Vec<Op>], results: &[Vec<Option<usize>>], rest: &[usize]) -> bool {
        if (0..scripts.len()).all(|k| at[k] == scripts[k].len()) {
            let mut s = inside.clone();
            s.sort();
            return s == rest;
        }
        for k in 0..scripts.len() {
            let Some(op) = scripts[k].get(at[k]) else { continue };
            let mut next = inside.clone();
            match (op, results[k][at[k]]) {
                (Give(x), _) => next.push(*x),
                (Take, None) if inside.is_empty() => {}
                (Take, Some(x)) if inside.contains(&x) => next.retain(|y| *y != x),
                _ => continue,
            }
            at[k] += 1;
            let ok = go(&mut next, at, scripts, results, rest);
            at[k] -= 1;
            if ok {
                return true;
            }
        }
        false
    }
    go(&mut (0..n).collect(), &mut vec![0; scripts.len()], scripts, results, rest)
}

/// One run of the scripts on real threads under a schedule; the instructions of each.
fn together(n: usize, scripts: &[Vec<Op>], schedule: &[(usize, u32)], measure: bool, c: &mut Case) -> Result<step::Run, Fail> {
    c.text(format!("pool of {n}, {scripts:?}, schedule {schedule:?}"));
    alive();
    let pool = cut(|| PiecePool::new(n)).map_err(|p| p.fail())?;
    let mut out: Vec<Result<Vec<Option<usize>>, Panicked>> = scripts.iter().map(|_| Ok(vec![])).collect();
    let ops = scripts
        .iter()
        .zip(out.iter_mut())
        .map(|(script, out)| {
            let pool = pool.clone();
            Box::new(move || {
                let mut got = Vec::with_capacity(script.len());
                let r = cut(|| {
                    for op in script {
                        match op {
                            Take => got.push(step::stepped(|| pool.pop())),
                            Give(x) => {
                                step::stepped(|| pool.insert(*x));
                                got.push(None)
                            }
                        }
                    }
                });
                std::mem::forget(pool);
                *out = r.map(|_| got);
            }) as Box<dyn FnOnce() + Send + '_>
        })
        .collect();
    let run = step::run(ops, schedule, measure);
    let mut results = vec![];
    for r in out {
        results.push(r.map_err(|p| p.fail())?);
    }
    let mut rest = vec![];
    while let Some(x) = cut(|| pool.pop()).map_err(|p| p.fail())? {
        rest.push(x);
        ensure!(rest.len() <= n + 10, "pool yields more than it holds", "{rest:?}");
    }
    rest.sort();
    ensure!(
        possible(n, scripts, &results, &rest),
        "no order of the operations explains what the threads saw",
        "pool of {n}, {scripts:?} got {results:?}, left {rest:?}, schedule {schedule:?}, instructions {:?}",
        run.steps
    );
    c.steps(1);
    c.state(fnv(format!("{n} {scripts:?} {results:?} {rest:?}").as_bytes()));
    Ok(run)
}

fn concurrent(ctx: &mut Ctx) {
    use step::ALL;
    const PARTS: usize = 32;
    let single = [vec![Take], vec![Give(90)]];
    let double = [vec![Take, Take], vec![Take, Give(91)], vec![Give(92), Take], vec![Give(93), Give(94)]];
    let other = |s: &[Op]| -> Vec<Op> { s.iter().map(|o| if let Give(x) = o { Give(x - 50) } else { *o }).collect() };
    let third = |s: &[Op]| -> Vec<Op> { s.iter().map(|o| if let Give(x) = o { Give(x - 30) } else { *o }).collect() };
    // (pool, scripts, preemptions)
    let mut plans: Vec<(usize, Vec<Vec<Op>>, usize)> = vec![];
    let deep = ctx.thorough();
    let sizes: &[usize] = if deep { &[0, 1, 2, 3, 4, 8] } else { &[0, 1, 4] };
    for n in sizes.iter().copied() {
        for a in single.iter().chain(&double) {
            for b in single.iter().chain(&double) {
                let both = a.len() + b.len();
                let bound = match (both, deep) {
                    (2, true) => 3,
                    (2, false) => 2,
                    (_, true) => 2,
                    (_, false) => 1,
                };
                plans.push((n, vec![a.clone(), other(b)], bound));
            }
        }
        for a in &single {
            for b in &single {
                for d in &single {
                    plans.push((n, vec![a.clone(), other(b), third(d)], if deep { 2 } else { 1 }));
                }
            }
        }
    }
    ctx.enumerate("threads", (plans.len() * PARTS) as u64, |i, c| {
        let (n, scripts, bound) = &plans[i as usize / PARTS];
        let (n, part) = (*n, i as usize % PARTS);
        let alone = together(n, scripts, &[], true, c)?; // also resolves what is resolved lazily
        let alone = if part == 0 { together(n, scripts, &[], true, c)? } else { alone };
        let mut most = 0;
        for first in part as u32..=alone.steps[0] as u32 {
            if first as usize % PARTS != part {
                continue;
            }
            // thread 0 runs for `first` instructions, then another one
            for second in 1..scripts.len() {
                let r = together(n, scripts, &[(0, first), (second, ALL)], *bound > 1, c)?;
                most = most.max(r.steps[second]);
                if *bound < 2 {
                    continue;
                }
                for j in 1..r.steps[second] as u32 {
                    let others: Vec<usize> = (0..scripts.len()).filter(|k| *k != second).collect();
                    for third in others {
                        let r = together(n, scripts, &[(0, first), (second, j), (third, ALL)], *bound > 2, c)?;
                        if *bound < 3 {
                            continue;
                        }
                        let from = if third == 0 { first } else { 0 };
                        for l in 1..(r.steps[third] as u32).saturating_sub(from) {
                            together(n, scripts, &[(0, first), (second, j), (third, l), (second, ALL)], false, c)?;
                        }
                    }
                }
            }
        }
        c.text(format!("pool of {n}, {scripts:?}, {bound} preemptions, part {part}, {:?} instructions alone", alone.steps));
        c.nontrivial(i);
        c.outcome(format!("{} threads", scripts.len()));
        Ok(())
    });
}
