//! Fallible array mapping: element types, exits and the ledger oracle.
use crate::choice::Rng;
use crate::tok::{ledger_problems, ledger_reset, Tok};
use std::cell::Cell;
use std::convert::Infallible;
use std::num::NonZeroU8;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Element types of arrays.
pub trait El: Sized {
    fn mk(i: u32) -> Self;
    fn ok(&self, i: u32) -> bool;
    /// no value exists
    const NONE: bool = false;
}

macro_rules! toks {
    ($($t:ident)*) => {$(
        impl<const K: u8> El for crate::$t<K> {
            fn mk(i: u32) -> Self { <Self as Tok>::mk(i) }
            fn ok(&self, i: u32) -> bool { std::mem::size_of::<Self>() == 0 || self.id() == i }
        }
    )*};
}
toks!(S L Z W H Cp);
macro_rules! plain {
    ($($t:ty: |$i:ident| $e:expr;)*) => {$(
        impl El for $t {
            fn mk($i: u32) -> Self { $e }
            fn ok(&self, $i: u32) -> bool { *self == $e }
        }
    )*};
}
plain! {
    u8: |i| i as u8;
    bool: |i| i % 3 == 1;
    char: |i| char::from_u32(0x400 + i % 0x400).unwrap();
    NonZeroU8: |i| NonZeroU8::new((i % 255) as u8 + 1).unwrap();
    u128: |i| i as u128 * 0x1_0000_0001_0000_0001;
    Box<u32>: |i| Box::new(i);
    Vec<u16>: |i| vec![i as u16; (i % 4) as usize];
    Option<Box<u8>>: |i| if i % 2 == 0 { Some(Box::new(i as u8)) } else { None };
    &'static u8: |i| &BYTES[i as usize % 64];
    (): |_i| ();
    [u64; 17]: |i| [i as u64; 17];
    String: |i| format!("s{i}");
    Over: |i| Over(i);
    OverZ: |_i| OverZ;
    (u8, u32): |i| (i as u8, i);
}
static BYTES: [u8; 64] = {
    let mut b = [0; 64];
    let mut i = 0;
    while i < 64 {
        b[i] = (i * 3) as u8;
        i += 1;
    }
    b
};
/// Over-aligned, also without a size.
#[repr(align(128))]
#[derive(PartialEq)]
pub struct Over(u32);
#[repr(align(64))]
#[derive(PartialEq)]
pub struct OverZ;
impl El for Infallible {
    fn mk(_: u32) -> Self {
        panic!("no value")
    }
    fn ok(&self, _: u32) -> bool {
        match *self {}
    }
    const NONE: bool = true;
}

thread_local!(static BOMB: Cell<u32> = Cell::new(u32::MAX));

/// Tracked token whose destructor panics for one chosen id.
pub struct Bomb<const K: u8>(crate::S<K>);
impl<const K: u8> El for Bomb<K> {
    fn mk(i: u32) -> Self {
        Bomb(Tok::mk(i))
    }
    fn ok(&self, i: u32) -> bool {
        self.0.id() == i
    }
}
impl<const K: u8> Drop for Bomb<K> {
    fn drop(&mut self) {
        let id = self.0.id();
        if BOMB.with(|b| b.get()) == (K as u32) * 100_000 + id {
            BOMB.with(|b| b.set(u32::MAX));
            resume_unwind(Box::new(Boom(2)));
        }
    }
}

pub struct Boom(pub u8);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exit {
    Success,
    Fail(usize),
    Panic(usize),
    /// failure at the first position; destructor panics: source element (true)
    /// or target element (false) of the second position
    Bomb(usize, bool, usize),
}

/// Error value; tracked, except where a destructor panics (whether the error
/// survives that is up to the compiler).
pub enum Er {
    T(crate::W<201>),
    U(u32),
}

/// One run of the mapping of an array of length `N`.
pub fn case<A: El, B: El, const N: usize>(
    exit: Exit,
    map: &dyn Fn([A; N], &mut dyn FnMut(A) -> Result<B, Er>) -> Result<[B; N], Er>,
) -> Result<(), String> {
    ledger_reset();
    if let Exit::Bomb(_, src, i) = exit {
        BOMB.with(|b| b.set(if src { i as u32 } else { 100_000 + 5000 + i as u32 }));
    }
    let mut calls = 0usize;
    let mut wrong = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a: [A; N] = std::array::from_fn(|i| A::mk(i as u32));
        map(a, &mut |x: A| {
            let i = calls;
            calls += 1;
            if !x.ok(i as u32) {
                wrong = Some(format!("closure call {i} got a wrong value"));
            }
            match exit {
                Exit::Panic(j) if i >= j => resume_unwind(Box::new(Boom(1))),
                Exit::Fail(j) if i >= j => Err(Er::T(Tok::mk(7000 + i as u32))),
                Exit::Bomb(j, ..) if i >= j => Err(Er::U(7000 + i as u32)),
                _ => Ok(B::mk(5000 + i as u32)),
            }
        })
    }));
    BOMB.with(|b| b.set(u32::MAX));
    if let Some(w) = wrong {
        return Err(w);
    }
    let want_calls = match exit {
        Exit::Success => N,
        Exit::Fail(j) | Exit::Panic(j) | Exit::Bomb(j, ..) => j + 1,
    };
    if calls != want_calls {
        return Err(format!("{calls} closure calls, expected {want_calls}"));
    }
    match (r, exit) {
        (Ok(Ok(b)), Exit::Success) => {
            if (&b as *const [B; N] as usize) % std::mem::align_of::<B>() != 0 {
                return Err("misaligned result".into());
            }
            for (i, x) in b.iter().enumerate() {
                if !x.ok(5000 + i as u32) {
                    return Err(format!("wrong value at index {i}"));
                }
            }
        }
        (Ok(Err(e)), Exit::Fail(j)) => {
            let id = match &e {
                Er::T(e) => e.id(),
                Er::U(i) => *i,
            };
            if id != 7000 + j as u32 {
                return Err(format!("wrong error {id}"));
            }
        }
        (Err(p), Exit::Panic(_)) if p.downcast_ref::<Boom>().map(|b| b.0) == Some(1) => {}
        (Err(p), Exit::Bomb(..)) if p.downcast_ref::<Boom>().map(|b| b.0) == Some(2) => {}
        (Ok(Ok(_)), e) => return Err(format!("returned Ok for {e:?}")),
        (Ok(Err(_)), e) => return Err(format!("returned Err for {e:?}")),
        (Err(p), e) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()));
            return Err(format!("unexpected panic for {e:?}: {}", m.unwrap_or_default()));
        }
    }
    match ledger_problems() {
        Some(p) => Err(p),
        None => Ok(()),
    }
}

/// Exits for length `n`: all positions of short arrays, a sample of long ones.
pub fn exits(n: usize, bombs: bool, none_a: bool, none_b: bool, full: usize, rng: &mut Rng) -> Vec<Exit> {
    let mut v = vec![];
    if none_a && n > 0 {
        return v;
    }
    if !(none_b && n > 0) {
        v.push(Exit::Success);
    }
    let mut pos: Vec<usize> = if n <= full {
        (0..n).collect()
    } else {
        let mut p = vec![0, 1, n / 2, n - 2, n - 1];
        p.extend((0..3).map(|_| rng.below(n as u32) as usize));
        p.sort();
        p.dedup();
        p
    };
    if none_b {
        pos.retain(|p| *p == 0);
    }
    for j in pos {
        v.push(Exit::Fail(j));
        v.push(Exit::Panic(j));
        if bombs {
            for (src, lo, hi) in [(true, j + 1, n), (false, 0, j)] {
                for i in lo..hi {
                    if i < lo + 2 || i + 1 == hi || rng.below(4) == 0 {
                        v.push(Exit::Bomb(j, src, i));
                    }
                }
            }
        }
    }
    v
}

pub struct Row {
    pub name: &'static str,
    pub n: usize,
    pub bombs: bool,
    pub none_a: bool,
    pub none_b: bool,
    pub run: fn(Exit) -> Result<(), String>,
}

#[macro_export]
macro_rules! arr_row {
    ($a:ty, $b:ty, $n:literal, $bombs:literal) => {
        $crate::arr::Row {
            name: concat!("[", stringify!($a), "; ", stringify!($n), "] to ", stringify!($b)),
            n: $n,
            bombs: $bombs,
            none_a: <$a as $crate::arr::El>::NONE,
            none_b: <$b as $crate::arr::El>::NONE,
            run: |e| {
                $crate::arr::case::<$a, $b, $n>(e, &|a, f| {
                    <[$a; $n] as ::funcmap::TryFuncMap<$a, $b>>::try_func_map(a, f)
                })
            },
        }
    };
}

pub fn arr_main(rows: &'static [Row]) {
    // large arrays are moved around a lot
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || arr_run(rows)).unwrap().join().unwrap();
}

fn arr_run(rows: &[Row]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let full: usize = a[2].parse().unwrap();
    let mut rng = Rng::new(seed);
    for r in rows {
        let es = exits(r.n, r.bombs, r.none_a, r.none_b, full, &mut rng);
        let mut done = 0;
        for e in &es {
            println!("AT {} {e:?}", r.name);
            done += 1;
            if let Err(m) = (r.run)(*e) {
                println!("FAIL {}\t{e:?}\t{m}", r.name);
                break;
            }
        }
        println!("STAT {}\t{done}", r.name);
    }
    println!("END");
}
