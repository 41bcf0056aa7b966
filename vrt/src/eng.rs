//! Comparison engine: runs the mapping under test and the reference mapping on
//! equal inputs, with pure, stateful, failing and panicking closures.
use crate::choice::{mix, Rng};
use crate::gen::{Shape, G};
use crate::rm::Stop;
use crate::tok::{ledger_problems, ledger_reset};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type V = Box<dyn Any>;
type InfFn = fn(V, &mut dyn FnMut(u32) -> u32) -> V;
type TryFn = fn(V, &mut dyn FnMut(u32) -> Result<u32, u32>) -> Result<V, u32>;
type RefFn = fn(V, &mut dyn FnMut(u32) -> Result<u32, Stop>) -> Result<V, Stop>;

/// One derived implementation (one marker) on concrete types.
#[derive(Clone, Copy)]
pub struct Subj {
    pub gen: fn(&mut G) -> V,
    pub dump_src: fn(V) -> String,
    pub dump: fn(V) -> String,
    pub fm: Option<InfFn>,
    pub fmo: Option<InfFn>,
    pub tfm: Option<TryFn>,
    pub tfmo: Option<TryFn>,
    pub rf: RefFn,
    /// element kinds are zero-sized: ids carry no information
    pub zst: bool,
}

/// Builds a `Subj`. The wrapper closures turn elements into ids and back, and
/// own a tracked token, so losing or duplicating the closure is noticed.
#[macro_export]
macro_rules! subj {
    (src $src:ty, dst $dst:ty, hs $hs:ty, hd $hd:ty, er $er:ty, fm [$($fm:tt)*], marker $m:tt, kinds $kinds:tt, rf |$v:ident, $f:ident| $rf:expr) => {
        $crate::eng::Subj {
            gen: |g| ::std::boxed::Box::new(<$src as $crate::Gen>::gen(g)),
            dump_src: |v| $crate::dump::dump::<$src>(*v.downcast::<$src>().unwrap()),
            dump: |v| $crate::dump::dump::<$dst>(*v.downcast::<$dst>().unwrap()),
            fm: $crate::subj!(@fm $kinds [$($fm)*] $m $src, $dst, $hs, $hd, func_map),
            fmo: $crate::subj!(@fmo $kinds [$($fm)*] $m $src, $dst, $hs, $hd, func_map_over),
            tfm: $crate::subj!(@tfm $kinds [$($fm)*] $m $src, $dst, $hs, $hd, $er),
            tfmo: $crate::subj!(@tfmo $kinds [$($fm)*] $m $src, $dst, $hs, $hd, $er),
            rf: |v, f| {
                let $v: $src = *v.downcast::<$src>().unwrap();
                let mut g = |x: $hs| -> ::std::result::Result<$hd, $crate::rm::Stop> {
                    let id = <$hs as $crate::Tok>::id(&x);
                    ::std::result::Result::Ok(<$hd as $crate::Tok>::mk(f(id)?))
                };
                let $f: &mut dyn ::std::ops::FnMut($hs) -> ::std::result::Result<$hd, $crate::rm::Stop> = &mut g;
                let r: ::std::result::Result<$dst, $crate::rm::Stop> = $rf;
                r.map(|x| ::std::boxed::Box::new(x) as $crate::eng::V)
            },
            zst: ::std::mem::size_of::<$hs>() == 0 || ::std::mem::size_of::<$hd>() == 0,
        }
    };
    (@fm (n $t:tt) $($x:tt)*) => { ::std::option::Option::None };
    (@fmo (n $t:tt) $($x:tt)*) => { ::std::option::Option::None };
    (@tfm ($i:tt n) $($x:tt)*) => { ::std::option::Option::None };
    (@tfmo ($i:tt n) $($x:tt)*) => { ::std::option::Option::None };
    (@fm (y $t:tt) [$($fm:tt)*] $m:tt $src:ty, $dst:ty, $hs:ty, $hd:ty, $meth:ident) => {
        ::std::option::Option::Some(|v, f| {
            let v: $src = *v.downcast::<$src>().unwrap();
            let cap = <$crate::S<250> as $crate::Tok>::mk(0);
            let r: $dst = <$src as $($fm)*::FuncMap<$hs, $hd, $($fm)*::TypeParam<$m>>>::func_map(v, move |x: $hs| {
                let _ = &cap;
                let id = <$hs as $crate::Tok>::id(&x);
                <$hd as $crate::Tok>::mk(f(id))
            });
            ::std::boxed::Box::new(r)
        })
    };
    (@fmo (y $t:tt) [$($fm:tt)*] $m:tt $src:ty, $dst:ty, $hs:ty, $hd:ty, $meth:ident) => {
        ::std::option::Option::Some(|v, f| {
            let v: $src = *v.downcast::<$src>().unwrap();
            let cap = <$crate::S<250> as $crate::Tok>::mk(0);
            let r: $dst = <$src as $($fm)*::FuncMap<$hs, $hd, $($fm)*::TypeParam<$m>>>::func_map_over::<$($fm)*::TypeParam<$m>, _>(v, move |x: $hs| {
                let _ = &cap;
                let id = <$hs as $crate::Tok>::id(&x);
                <$hd as $crate::Tok>::mk(f(id))
            });
            ::std::boxed::Box::new(r)
        })
    };
    (@tfm ($i:tt y) [$($fm:tt)*] $m:tt $src:ty, $dst:ty, $hs:ty, $hd:ty, $er:ty) => {
        ::std::option::Option::Some(|v, f| {
            let v: $src = *v.downcast::<$src>().unwrap();
            let cap = <$crate::S<250> as $crate::Tok>::mk(0);
            let r: ::std::result::Result<$dst, $er> = <$src as $($fm)*::TryFuncMap<$hs, $hd, $($fm)*::TypeParam<$m>>>::try_func_map(v, move |x: $hs| {
                let _ = &cap;
                let id = <$hs as $crate::Tok>::id(&x);
                match f(id) {
                    ::std::result::Result::Ok(y) => ::std::result::Result::Ok(<$hd as $crate::Tok>::mk(y)),
                    ::std::result::Result::Err(e) => ::std::result::Result::Err(<$er as $crate::Tok>::mk(e)),
                }
            });
            match r {
                ::std::result::Result::Ok(r) => ::std::result::Result::Ok(::std::boxed::Box::new(r) as $crate::eng::V),
                ::std::result::Result::Err(e) => ::std::result::Result::Err(<$er as $crate::Tok>::id(&e)),
            }
        })
    };
    (@tfmo ($i:tt y) [$($fm:tt)*] $m:tt $src:ty, $dst:ty, $hs:ty, $hd:ty, $er:ty) => {
        ::std::option::Option::Some(|v, f| {
            let v: $src = *v.downcast::<$src>().unwrap();
            let cap = <$crate::S<250> as $crate::Tok>::mk(0);
            let r: ::std::result::Result<$dst, $er> = <$src as $($fm)*::TryFuncMap<$hs, $hd, $($fm)*::TypeParam<$m>>>::try_func_map_over::<$($fm)*::TypeParam<$m>, _, _>(v, move |x: $hs| {
                let _ = &cap;
                let id = <$hs as $crate::Tok>::id(&x);
                match f(id) {
                    ::std::result::Result::Ok(y) => ::std::result::Result::Ok(<$hd as $crate::Tok>::mk(y)),
                    ::std::result::Result::Err(e) => ::std::result::Result::Err(<$er as $crate::Tok>::mk(e)),
                }
            });
            match r {
                ::std::result::Result::Ok(r) => ::std::result::Result::Ok(::std::boxed::Box::new(r) as $crate::eng::V),
                ::std::result::Result::Err(e) => ::std::result::Result::Err(<$er as $crate::Tok>::id(&e)),
            }
        })
    };
}

/// What is compared.
#[derive(Clone, Copy, Default)]
pub struct Flags {
    pub inf: bool,
    pub try_: bool,
    pub over: bool,
    pub ledger: bool,
    pub panics: bool,
}

impl Flags {
    pub const NONE: Flags = Flags { inf: false, try_: false, over: false, ledger: false, panics: false };
}

/// How results are computed from ids (deterministic).
#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum Res {
    Injective(u32),
    Stateful,
    Colliding,
    Few,
}

pub(crate) fn result_of(r: Res, idx: usize, id: u32) -> u32 {
    match r {
        Res::Injective(k) => (id.wrapping_mul(25173).wrapping_add(k)) & 0xFF_FFFF,
        Res::Stateful => (idx as u32 * 7919 + 13) & 0xFF_FFFF,
        Res::Colliding => id % 3,
        Res::Few => (idx as u32 * 13 + id) % 48,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub(crate) enum Fault {
    None,
    Fail(usize),
    Panic(usize),
}

#[derive(Debug, PartialEq)]
pub(crate) enum End {
    Val(String),
    Err(u32),
    Panicked,
}

#[derive(Clone, Copy)]
pub(crate) enum Op {
    Inf(InfFn),
    Try(TryFn),
}

pub(crate) struct Boom;

pub(crate) fn exec(s: &Subj, op: Op, seed: u64, shape: Shape, res: Res, fault: Fault, mem: bool) -> (Vec<u32>, End, Option<String>) {
    ledger_reset();
    let blocks = crate::mem::live();
    let v = (s.gen)(&mut shape.g(seed));
    let mut log = Vec::new();
    let mut call = |id: u32| -> Result<u32, u32> {
        let idx = log.len();
        log.push(id);
        match fault {
            Fault::Panic(j) if idx == j => std::panic::resume_unwind(Box::new(Boom)),
            // later calls after the failing one do not fail again
            Fault::Fail(j) if idx >= j => Err(1_000_000 + idx as u32),
            _ => Ok(result_of(res, idx, id)),
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| match op {
        Op::Inf(f) => Ok(f(v, &mut |id| call(id).unwrap_or(0))),
        Op::Try(f) => f(v, &mut call),
    }));
    let mut known = true;
    let end = match r {
        Ok(Ok(v)) => End::Val((s.dump)(v)),
        Ok(Err(e)) => End::Err(e),
        Err(p) => {
            if p.downcast_ref::<Boom>().is_some() {
                End::Panicked
            } else {
                known = false;
                End::Val("(unexpected panic)".into())
            }
        }
    };
    let mut problems = ledger_problems();
    ledger_reset();
    if mem && known && problems.is_none() {
        // what is left are the harness's own two blocks
        let own = (log.capacity() > 0) as i64 + matches!(&end, End::Val(s) if s.capacity() > 0) as i64;
        let lost = crate::mem::live() - blocks - own;
        if lost != 0 {
            problems = Some(format!("{lost} heap block(s) never freed"));
        }
    }
    (log, end, problems)
}

pub(crate) fn reference(s: &Subj, seed: u64, shape: Shape, res: Res) -> (Vec<u32>, String) {
    ledger_reset();
    let v = (s.gen)(&mut shape.g(seed));
    let mut log = Vec::new();
    let r = (s.rf)(v, &mut |id| {
        let idx = log.len();
        log.push(id);
        Ok(result_of(res, idx, id))
    });
    let d = match r {
        Ok(v) => (s.dump)(v),
        Err(_) => unreachable!(),
    };
    let p = ledger_problems();
    assert!(p.is_none(), "reference mapping broke the ledger: {p:?}");
    (log, d)
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub runs: u64,
    pub calls: u64,
    pub max_calls: u64,
    pub nontrivial: u64,
}

pub struct Cx {
    pub flags: Flags,
    pub rounds: u32,
    pub seed: u64,
    pub stats: Stats,
    pub fails: Vec<String>,
}

impl Cx {
    /// Checks one implementation; `label` identifies it in the output.
    pub fn check(&mut self, label: &str, s: &Subj) {
        let fl = self.flags;
        let base = mix(&[self.seed, crate::choice::hash_str(label)]);
        for round in 0..self.rounds {
            let seed = mix(&[base, round as u64]);
            let mut rng = Rng::new(seed);
            let shape = match round % 4 {
                0 => Shape::small(6, 2),
                1 => Shape::small(12, 3),
                2 => Shape::small(40, 6),
                _ => Shape::small(3, 1),
            };
            let res = match round % 3 {
                0 => Res::Injective(rng.below(1000)),
                1 => Res::Stateful,
                _ => Res::Colliding,
            };
            let (rlog, rdump) = reference(s, seed, shape, res);
            let n = rlog.len();
            self.stats.calls += n as u64;
            self.stats.max_calls = self.stats.max_calls.max(n as u64);
            if n >= 2 {
                self.stats.nontrivial += 1;
            }
            let ids = |l: &[u32]| if s.zst { vec![0; l.len()] } else { l.to_vec() };
            let mut report = |what: &str, detail: String| {
                self.fails.push(format!("{label}: {what}: {detail}"));
            };
            let mut runs = 0;
            let infs: &[(&str, Option<InfFn>, bool)] =
                &[("func_map", s.fm, fl.inf || fl.ledger), ("func_map_over", s.fmo, fl.over)];
            for (name, f, on) in infs {
                let (Some(f), true) = (*f, *on) else { continue };
                runs += 1;
                let (log, end, lp) = exec(s, Op::Inf(f), seed, shape, res, Fault::None, fl.ledger);
                if fl.inf || fl.over {
                    if ids(&log) != ids(&rlog) {
                        report(name, format!("closure called on {log:?}, expected {rlog:?}"));
                    } else if end != End::Val(rdump.clone()) {
                        report(name, format!("result {end:?}, expected {rdump}"));
                    }
                }
                if let (true, Some(p)) = (fl.ledger || fl.inf, lp) {
                    report(name, p);
                }
                if fl.panics {
                    for j in faults(n, &mut rng) {
                        runs += 1;
                        let (_, end, lp) = exec(s, Op::Inf(f), seed, shape, res, Fault::Panic(j), fl.ledger);
                        if end != End::Panicked {
                            report(name, format!("panic of closure call {j} did not propagate: {end:?}"));
                        } else if let Some(p) = lp {
                            report(name, format!("closure call {j} panics: {p}"));
                        }
                    }
                }
            }
            let tries: &[(&str, Option<TryFn>, bool)] =
                &[("try_func_map", s.tfm, fl.try_ || fl.ledger), ("try_func_map_over", s.tfmo, fl.over)];
            for (name, f, on) in tries {
                let (Some(f), true) = (*f, *on) else { continue };
                let mut fs = vec![Fault::None];
                for j in faults(n, &mut rng) {
                    fs.push(Fault::Fail(j));
                    if fl.panics {
                        fs.push(Fault::Panic(j));
                    }
                }
                for fault in fs {
                    runs += 1;
                    let (log, end, lp) = exec(s, Op::Try(f), seed, shape, res, fault, fl.ledger);
                    let (elog, eend) = match fault {
                        Fault::None => (&rlog[..], End::Val(rdump.clone())),
                        Fault::Fail(j) => (&rlog[..j + 1], End::Err(1_000_000 + j as u32)),
                        Fault::Panic(j) => (&rlog[..j + 1], End::Panicked),
                    };
                    if fl.try_ || fl.over {
                        if ids(&log) != ids(elog) {
                            report(name, format!("{fault:?}: closure called on {log:?}, expected {elog:?}"));
                        } else if !end_eq(&end, &eend) {
                            report(name, format!("{fault:?}: ends with {end:?}, expected {eend:?}"));
                        }
                    }
                    if let (true, Some(p)) = (fl.ledger || fl.try_, lp) {
                        report(name, format!("{fault:?}: {p}"));
                    }
                }
            }
            self.stats.runs += runs;
            if !self.fails.is_empty() {
                return;
            }
        }
    }
}

impl Cx {
    /// Pairs of values that have to be equal, for several random inputs.
    pub fn law(&mut self, label: &str, inj: bool, f: fn(&crate::law::Lx) -> Vec<crate::law::Pair>) {
        let base = mix(&[self.seed, crate::choice::hash_str(label)]);
        for round in 0..self.rounds {
            let seed = mix(&[base, round as u64]);
            let mut shape = [Shape::small(6, 2), Shape::small(40, 6), Shape::small(12, 3), Shape::small(3, 1)][round as usize % 4];
            shape.tiny = false;
            let lx = crate::law::Lx { seed, shape, inj, salt: round };
            ledger_reset();
            for (what, l, r, n) in f(&lx) {
                self.stats.runs += 1;
                self.stats.calls += n as u64;
                if n >= 2 {
                    self.stats.nontrivial += 1;
                }
                if l != r {
                    self.fails.push(format!("{label}: {what}: {l} differs from {r}"));
                    return;
                }
            }
        }
    }
    /// Facts about the program, known at compile time.
    pub fn facts(&mut self, label: &str, facts: &[(&str, bool, bool)]) {
        for (what, got, want) in facts {
            self.stats.runs += 1;
            self.stats.nontrivial += 1;
            if got != want {
                self.fails.push(format!("{label}: {what}: {got}, expected {want}"));
            }
        }
    }
}

pub(crate) fn end_eq(a: &End, b: &End) -> bool {
    match (a, b) {
        // zero-sized errors carry no id
        (End::Err(0), End::Err(_)) => true,
        _ => a == b,
    }
}

/// Fault positions: all of a short call sequence, a sample of a long one.
fn faults(n: usize, rng: &mut Rng) -> Vec<usize> {
    if n <= 8 {
        (0..n).collect()
    } else {
        let mut v = vec![0, 1, n - 2, n - 1];
        for _ in 0..4 {
            v.push(rng.below(n as u32) as usize);
        }
        v.sort();
        v.dedup();
        v
    }
}

/// Command-line entry of generated batch programs.
pub fn batch(flags: Flags, rounds: u32, seed: u64, cases: &[(&str, fn(&mut Cx))]) {
    std::panic::set_hook(Box::new(|_| {}));
    let from = std::env::var("VRT_FROM").ok().and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
    for (name, f) in cases.iter().skip(from) {
        println!("BEGIN {name}");
        let mut cx = Cx { flags, rounds, seed, stats: Stats::default(), fails: Vec::new() };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            cx.fails.push(format!("panicked: {}", m.unwrap_or_default()));
        }
        for f in cx.fails.iter().take(3) {
            println!("FAIL {name} {}", f.replace('\n', " "));
        }
        let s = &cx.stats;
        println!("STAT {name} {} {} {} {}", s.runs, s.calls, s.max_calls, s.nontrivial);
    }
}
