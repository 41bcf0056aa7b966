//! Runs one implementation at a time on inputs drawn from a choice sequence,
//! with sizes up to about a thousand elements; shrinks failures in process.
use crate::choice::{hash_str, mix, shrink, Src};
use crate::eng::*;
use crate::gen::Shape;
use std::collections::HashSet;

struct Done {
    calls: usize,
    runs: u64,
    desc: String,
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn one(name: &str, s: &Subj, fl: Flags, c: &mut Src) -> Result<Done, String> {
    let seed = c.draw(1 << 30) as u64;
    let len = match c.weighted(&[6, 6, 3, 2, 1]) {
        0 => c.draw(4),
        1 => c.draw(12),
        2 => c.draw(40),
        3 => c.draw(200),
        _ if c.chance(1, 4) && !name.starts_with("hmap") && !name.starts_with("hset") => c.draw(if thorough() { 70_000 } else { 6000 }),
        _ => c.draw(1000),
    };
    let dup = c.chance(1, 3);
    let shape = Shape { fuel: len as i32 * 2, len, tiny: false, dup };
    let res = match c.draw(4) {
        0 => Res::Stateful,
        1 => Res::Injective(c.draw(1000)),
        2 => Res::Colliding,
        _ => Res::Few,
    };
    let (rlog, rdump) = reference(s, seed, shape, res);
    let n = rlog.len();
    let mut ops: Vec<(&str, Op)> = vec![];
    if fl.inf || fl.ledger || fl.over {
        if let Some(f) = s.fm {
            ops.push(("func_map", Op::Inf(f)));
        }
    }
    if fl.over {
        if let Some(f) = s.fmo {
            ops.push(("func_map_over", Op::Inf(f)));
        }
        if let Some(f) = s.tfmo {
            ops.push(("try_func_map_over", Op::Try(f)));
        }
    }
    if fl.try_ || fl.ledger || fl.over {
        if let Some(f) = s.tfm {
            ops.push(("try_func_map", Op::Try(f)));
        }
    }
    let pos = |c: &mut Src| match c.draw(3) {
        0 => 0,
        1 => n - 1,
        _ => c.draw(n as u32) as usize,
    };
    let mut runs = 0;
    for (what, op) in ops {
        let is_try = matches!(op, Op::Try(_));
        let mut fs = vec![Fault::None];
        if n > 0 {
            if is_try {
                for _ in 0..3 {
                    fs.push(Fault::Fail(pos(c)));
                }
            }
            if fl.panics {
                fs.push(Fault::Panic(pos(c)));
                fs.push(Fault::Panic(pos(c)));
            }
        }
        for fault in fs {
            runs += 1;
            let (log, end, lp) = exec(s, op, seed, shape, res, fault, fl.ledger);
            let (elog, eend) = match fault {
                Fault::None => (&rlog[..], End::Val(rdump.clone())),
                Fault::Fail(j) => (&rlog[..j + 1], End::Err(1_000_000 + j as u32)),
                Fault::Panic(j) => (&rlog[..j + 1], End::Panicked),
            };
            let at = || format!("{name}: {what} on up to {len} elements (dup {dup}, {res:?}, {fault:?})");
            if fl.inf || fl.try_ || fl.over {
                let same = if s.zst { log.len() == elog.len() } else { log == elog };
                if !same {
                    return Err(format!("{}: closure called on {log:?}, expected {elog:?}", at()));
                }
                if !end_eq(&end, &eend) {
                    return Err(format!("{}: ends with {end:?}, expected {eend:?}", at()));
                }
            }
            if let Some(p) = lp {
                return Err(format!("{}: {p}", at()));
            }
        }
    }
    Ok(Done { calls: n, runs, desc: format!("{name}: {n} elements, {res:?}, dup {dup}, seed {seed}") })
}

/// Arguments: `SEED CASES` or `replay NAME c1,c2,..`.
pub fn lib_main(fl: Flags, subjects: &[(&str, Subj)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let data: Vec<u32> = a[3].split(',').filter_map(|x| x.parse().ok()).collect();
        for (name, s) in subjects.iter().filter(|(n, _)| *n == a[2]) {
            match one(name, s, fl, &mut Src::replay(data.clone())) {
                Ok(_) => println!("PASS"),
                Err(e) => println!("FAIL {name}\t{}\t{e}", a[3]),
            }
        }
        return;
    }
    let seed: u64 = a[1].parse().unwrap();
    let cases: u64 = a[2].parse().unwrap();
    for (name, s) in subjects {
        println!("BEGIN {name}");
        let mut seen = HashSet::new();
        let (mut runs, mut calls, mut max) = (0, 0, 0);
        let mut sample = String::new();
        for i in 0..cases {
            let mut c = Src::random(mix(&[seed, hash_str(name), i]));
            let r = guard(|| one(name, s, fl, &mut c));
            match r {
                Ok(d) => {
                    runs += d.runs;
                    calls += d.calls as u64;
                    max = max.max(d.calls);
                    if d.calls >= 2 {
                        seen.insert(c.data.clone());
                        if d.calls > 4 && sample.is_empty() {
                            sample = d.desc;
                        }
                    }
                }
                Err(_) => {
                    let small = shrink(c.data.clone(), 3000, &mut |d| {
                        guard(|| one(name, s, fl, &mut Src::replay(d.to_vec()))).is_err()
                    });
                    let e = guard(|| one(name, s, fl, &mut Src::replay(small.clone()))).err().unwrap_or_default();
                    let t: Vec<String> = small.iter().map(|x| x.to_string()).collect();
                    println!("FAIL {name}\t{}\t{}", t.join(","), e.replace('\n', " "));
                    break;
                }
            }
        }
        println!("STAT {name}\t{cases}\t{runs}\t{calls}\t{max}\t{}\t{sample}", seen.len());
    }
}

fn guard(f: impl FnOnce() -> Result<Done, String>) -> Result<Done, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panicked: {}", m.unwrap_or_default()))
        }
    }
}
