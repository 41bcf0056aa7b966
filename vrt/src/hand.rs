//! Generic types whose implementations are written by hand: what they do with
//! their elements, the log of what happened, and the comparison of runs.
use crate::choice::{hash_str, mix, Rng};
use crate::eng::*;
use crate::gen::{Gen, Shape, G};
use crate::rm::Stop;
use crate::tok::{ledger_problems, ledger_reset};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// How an implementation treats its elements.
pub struct Plan {
    /// type, marker and trait
    pub tag: u32,
    pub order: u8,
    pub keep: u8,
    pub onerr: u8,
}

thread_local! {
    static LOG: RefCell<Vec<(u32, u32)>> = RefCell::new(vec![]);
    static MADE: Cell<u32> = Cell::new(0);
    static TRYING: Cell<bool> = Cell::new(false);
}

fn ev(tag: u32, n: u32) {
    LOG.with(|l| l.borrow_mut().push((tag, n)));
}

/// Whether the reference is run for the fallible mapping.
pub fn trying() -> bool {
    TRYING.with(|t| t.get())
}

const ENTER: u32 = 1_000_000;
const LEAVE: u32 = 2_000_000;

pub fn visit<A, B, E>(p: &Plan, xs: Vec<A>, f: &mut dyn FnMut(A) -> Result<B, E>) -> Result<Vec<B>, E> {
    visit_all(p, xs.into_iter().map(|x| (true, x)).collect(), f)
}

/// Like `visit`, with one more element that is made up here.
pub fn visit_gen<A: Gen, B, E>(p: &Plan, first: bool, xs: Vec<A>, f: &mut dyn FnMut(A) -> Result<B, E>) -> Result<Vec<B>, E> {
    let k = MADE.with(|m| {
        m.set(m.get() + 1);
        m.get()
    });
    let mut g = G::new(k as u64, 2, 1);
    g.skip(30_000 + k * 40);
    let mut v: Vec<(bool, A)> = xs.into_iter().map(|x| (true, x)).collect();
    let at = if first { 0 } else { v.len() };
    v.insert(at, (false, A::gen(&mut g)));
    visit_all(p, v, f)
}

fn visit_all<A, B, E>(p: &Plan, xs: Vec<(bool, A)>, f: &mut dyn FnMut(A) -> Result<B, E>) -> Result<Vec<B>, E> {
    ev(p.tag, ENTER + xs.len() as u32);
    ev(hash_str(std::any::type_name::<A>()) as u32, hash_str(std::any::type_name::<B>()) as u32);
    let n = xs.len();
    let mut order: Vec<usize> = (0..n).collect();
    match p.order {
        1 => order.reverse(),
        2 => order = (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        3 => order.rotate_left(n / 2),
        _ => {}
    }
    let mut xs: Vec<Option<(bool, A)>> = xs.into_iter().map(Some).collect();
    let mut out: Vec<Option<B>> = (0..n).map(|_| None).collect();
    let mut error = None;
    for i in order {
        let (own, x) = xs[i].take().unwrap();
        let skip = match p.keep {
            1 => i % 2 == 1,
            2 => true,
            _ => false,
        };
        if skip && own {
            ev(p.tag, LEAVE + i as u32 + 1);
            continue;
        }
        ev(p.tag, i as u32);
        match f(x) {
            Ok(_) if p.keep == 3 && i % 2 == 1 => {}
            Ok(y) => out[i] = Some(y),
            Err(e) => match p.onerr {
                0 => return Err(e),
                // goes on, returns the first error
                1 if error.is_none() => error = Some(e),
                1 => {}
                // goes on, returns the last error
                2 => error = Some(e),
                // leaves the element out
                _ => {}
            },
        }
    }
    ev(p.tag, LEAVE);
    match error {
        Some(e) => Err(e),
        None => Ok(out.into_iter().flatten().collect()),
    }
}

enum Run {
    Ref(bool),
    Op(Op),
}

type Log = Vec<(u32, u32)>;

/// One run: everything that happened in order, and how it ended.
fn go(s: &Subj, run: Run, seed: u64, shape: Shape, res: Res, fail: &dyn Fn(usize) -> bool, panic: Option<usize>) -> (Log, usize, End, Option<String>) {
    ledger_reset();
    LOG.with(|l| l.borrow_mut().clear());
    MADE.with(|m| m.set(0));
    TRYING.with(|t| t.set(matches!(run, Run::Ref(true))));
    let v = (s.gen)(&mut shape.g(seed));
    let mut n = 0usize;
    let mut call = |id: u32| -> Result<u32, u32> {
        let idx = n;
        n += 1;
        ev(0, if s.zst { 0 } else { id });
        if panic == Some(idx) {
            std::panic::resume_unwind(Box::new(Boom));
        }
        if fail(idx) {
            return Err(1_000_000 + idx as u32);
        }
        Ok(result_of(res, idx, id))
    };
    let r = catch_unwind(AssertUnwindSafe(|| match run {
        Run::Op(Op::Inf(f)) => Ok(f(v, &mut |id| call(id).unwrap_or(0))),
        Run::Op(Op::Try(f)) => f(v, &mut call),
        Run::Ref(_) => (s.rf)(v, &mut |id| call(id).map_err(Stop)).map_err(|e| e.0),
    }));
    let end = match r {
        Ok(Ok(v)) => End::Val((s.dump)(v)),
        Ok(Err(e)) => End::Err(e),
        Err(p) if p.downcast_ref::<Boom>().is_some() => End::Panicked,
        Err(p) => End::Val(format!("(panic: {})", p.downcast_ref::<&str>().unwrap_or(&"?"))),
    };
    (LOG.with(|l| l.borrow().clone()), n, end, ledger_problems())
}

fn diff(got: &Log, want: &Log) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let show = |l: &Log| {
        l[at.min(l.len())..]
            .iter()
            .take(6)
            .map(|(t, n)| match *t {
                0 => format!("closure({n})"),
                t if *n > LEAVE => format!("skip {} in impl {t}", n - LEAVE - 1),
                t if *n == LEAVE => format!("leave impl {t}"),
                t if *n >= ENTER => format!("enter impl {t} with {}", n - ENTER),
                t => format!("element {n} of impl {t}"),
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    format!("after {at} events: [{}], expected [{}]", show(got), show(want))
}

impl Cx {
    /// Compares all forms of a mapping with the reference, event by event.
    pub fn check_hand(&mut self, label: &str, s: &Subj) {
        let base = mix(&[self.seed, hash_str(label)]);
        for round in 0..self.rounds {
            let seed = mix(&[base, round as u64]);
            let mut rng = Rng::new(seed);
            let shape = [Shape::small(8, 3), Shape::small(16, 3), Shape::small(30, 5), Shape::small(4, 2)][round as usize % 4];
            let res = [Res::Injective(7), Res::Stateful, Res::Colliding][round as usize % 3];
            let none: &dyn Fn(usize) -> bool = &|_| false;
            let (log, n, _, _) = go(s, Run::Ref(true), seed, shape, res, none, None);
            self.stats.calls += n as u64;
            self.stats.max_calls = self.stats.max_calls.max(n as u64);
            if log.iter().filter(|e| e.1 >= ENTER && e.1 < LEAVE && e.0 != 0).count() >= 1 && n >= 2 {
                self.stats.nontrivial += 1;
            }
            let ops = [
                ("func_map", s.fm.map(Op::Inf)),
                ("func_map_over", s.fmo.map(Op::Inf)),
                ("try_func_map", s.tfm.map(Op::Try)),
                ("try_func_map_over", s.tfmo.map(Op::Try)),
            ];
            for (name, op) in ops {
                let Some(op) = op else { continue };
                let try_ = matches!(op, Op::Try(_));
                // which calls fail (a set of indices), which one panics
                let mut faults: Vec<(String, u64, Option<usize>)> = vec![("no failure".into(), 0, None)];
                if try_ {
                    for j in 0..n.min(6) {
                        faults.push((format!("call {j} fails"), 1 << j, None));
                    }
                    for _ in 0..3 {
                        let m = rng.next() & rng.next();
                        faults.push((format!("calls {m:#x} fail"), m, None));
                    }
                    faults.push(("all calls fail".into(), u64::MAX, None));
                }
                if n > 0 {
                    let j = rng.below(n as u32) as usize;
                    faults.push((format!("call {j} panics"), 0, Some(j)));
                }
                for (what, mask, panic) in faults {
                    let fail = |i: usize| mask >> (i % 64) & 1 == 1;
                    let (wlog, _, wend, wl) = go(s, Run::Ref(try_), seed, shape, res, &fail, panic);
                    if let Some(p) = wl {
                        self.fails.push(format!("{label}: reference breaks the ledger: {p}"));
                        return;
                    }
                    self.stats.runs += 1;
                    let (log, _, end, lp) = go(s, Run::Op(op), seed, shape, res, &fail, panic);
                    if log != wlog {
                        self.fails.push(format!("{label}: {name}: {what}: {}", diff(&log, &wlog)));
                    } else if !end_eq(&end, &wend) {
                        self.fails.push(format!("{label}: {name}: {what}: ends with {end:?}, expected {wend:?}"));
                    } else if let Some(p) = lp {
                        self.fails.push(format!("{label}: {name}: {what}: {p}"));
                    }
                    if !self.fails.is_empty() {
                        return;
                    }
                }
            }
        }
    }
}
