//! Instrumented element types.
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Ledger {
    /// state of every tracked token by serial: 1 live, 0 dropped
    state: Vec<u8>,
    pub live: i64,
    pub live_zst: i64,
    pub clones: u64,
    pub errors: Vec<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

pub fn ledger_reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
}

/// Problems found so far: values still alive, double drops, clones.
pub fn ledger_problems() -> Option<String> {
    LEDGER.with(|l| {
        let l = l.borrow();
        if let Some(e) = l.errors.first() {
            return Some(e.clone());
        }
        if l.live != 0 {
            return Some(format!("{} value(s) never dropped", l.live));
        }
        if l.live_zst != 0 {
            return Some(format!("zero-sized values: {} more creations than drops", l.live_zst));
        }
        if l.clones != 0 {
            return Some(format!("{} clone(s) made", l.clones));
        }
        None
    })
}

fn born() -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.push(1);
        l.live += 1;
        (l.state.len() - 1) as u32
    })
}

fn died(serial: u32, magic: u32, what: &str) {
    let _ = LEDGER.try_with(|l| {
        let mut l = l.borrow_mut();
        if magic != MAGIC {
            l.errors.push(format!("{what}: dropped a value that was never initialized"));
            return;
        }
        match l.state.get(serial as usize).copied() {
            Some(1) => {
                l.state[serial as usize] = 0;
                l.live -= 1;
            }
            Some(_) => l.errors.push(format!("{what}: value dropped twice")),
            None => l.errors.push(format!("{what}: dropped an unknown value")),
        }
    });
}

fn check_alive(serial: u32, magic: u32, what: &str) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if magic != MAGIC {
            l.errors.push(format!("{what}: used a value that was never initialized"));
        } else if l.state.get(serial as usize) != Some(&1) {
            l.errors.push(format!("{what}: used a value after it was dropped"));
        }
    })
}

const MAGIC: u32 = 0x5AFE_C0DE;

pub trait Tok: Sized + 'static {
    const NAME: &'static str;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
    fn kind() -> u8;
    fn to_<U: Tok>(&self, lx: &crate::law::Lx, which: u32) -> U {
        U::mk(lx.f(which, self.id()))
    }
    fn show(&self) -> String {
        format!("{}{}#{}", Self::NAME, Self::kind(), self.id())
    }
}

macro_rules! common {
    ($n:ident $div:literal) => {
        impl<const K: u8> PartialEq for $n<K> {
            fn eq(&self, o: &Self) -> bool {
                self.id() / $div == o.id() / $div
            }
        }
        impl<const K: u8> Eq for $n<K> {}
        impl<const K: u8> PartialOrd for $n<K> {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl<const K: u8> Ord for $n<K> {
            fn cmp(&self, o: &Self) -> Ordering {
                (self.id() / $div).cmp(&(o.id() / $div))
            }
        }
        impl<const K: u8> Hash for $n<K> {
            fn hash<H: Hasher>(&self, h: &mut H) {
                (self.id() / $div).hash(h)
            }
        }
        impl<const K: u8> std::fmt::Debug for $n<K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.show())
            }
        }
        impl<const K: u8> Default for $n<K> {
            fn default() -> Self {
                Self::mk(0)
            }
        }
        impl<const K: u8> crate::Gen for $n<K> {
            fn gen(g: &mut crate::G) -> Self {
                Self::mk(g.id())
            }
        }
        impl<const K: u8> crate::Dump for $n<K> {
            fn dump(self, o: &mut String) {
                o.push_str(&self.show())
            }
        }
    };
}

/// Tracked token.
pub struct S<const K: u8> {
    id: u32,
    serial: u32,
    magic: u32,
}
/// Large, over-aligned tracked token.
#[repr(align(32))]
pub struct L<const K: u8> {
    pad: [u64; 5],
    id: u32,
    serial: u32,
    magic: u32,
}
/// Zero-sized token (only counted).
pub struct Z<const K: u8>(());
/// Tracked token owning heap memory.
pub struct W<const K: u8> {
    s: String,
    serial: u32,
    magic: u32,
}
/// Copyable token (not tracked).
#[derive(Clone, Copy)]
pub struct Cp<const K: u8>(u32);

impl<const K: u8> Tok for S<K> {
    const NAME: &'static str = "s";
    fn mk(id: u32) -> Self {
        S { id, serial: born(), magic: MAGIC }
    }
    fn id(&self) -> u32 {
        check_alive(self.serial, self.magic, "S");
        self.id
    }
    fn kind() -> u8 {
        K
    }
}
impl<const K: u8> Drop for S<K> {
    fn drop(&mut self) {
        died(self.serial, self.magic, "S");
        self.magic = 0xDEAD;
    }
}
impl<const K: u8> Tok for L<K> {
    const NAME: &'static str = "l";
    fn mk(id: u32) -> Self {
        L { pad: [id as u64; 5], id, serial: born(), magic: MAGIC }
    }
    fn id(&self) -> u32 {
        check_alive(self.serial, self.magic, "L");
        if self.pad != [self.id as u64; 5] {
            LEDGER.with(|l| l.borrow_mut().errors.push("L: corrupted value".into()));
        }
        if (self as *const Self as usize) % 32 != 0 {
            LEDGER.with(|l| l.borrow_mut().errors.push("L: misaligned value".into()));
        }
        self.id
    }
    fn kind() -> u8 {
        K
    }
}
impl<const K: u8> Drop for L<K> {
    fn drop(&mut self) {
        died(self.serial, self.magic, "L");
        self.magic = 0xDEAD;
    }
}
impl<const K: u8> Tok for Z<K> {
    const NAME: &'static str = "z";
    fn mk(_: u32) -> Self {
        LEDGER.with(|l| l.borrow_mut().live_zst += 1);
        Z(())
    }
    fn id(&self) -> u32 {
        0
    }
    fn kind() -> u8 {
        K
    }
}
impl<const K: u8> Drop for Z<K> {
    fn drop(&mut self) {
        let _ = LEDGER.try_with(|l| l.borrow_mut().live_zst -= 1);
    }
}
impl<const K: u8> Tok for W<K> {
    const NAME: &'static str = "w";
    fn mk(id: u32) -> Self {
        W { s: format!("w{id}"), serial: born(), magic: MAGIC }
    }
    fn id(&self) -> u32 {
        check_alive(self.serial, self.magic, "W");
        self.s[1..].parse().unwrap()
    }
    fn kind() -> u8 {
        K
    }
}
impl<const K: u8> Drop for W<K> {
    fn drop(&mut self) {
        died(self.serial, self.magic, "W");
        self.magic = 0xDEAD;
    }
}
impl<const K: u8> Tok for Cp<K> {
    const NAME: &'static str = "c";
    fn mk(id: u32) -> Self {
        Cp(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn kind() -> u8 {
        K
    }
}
macro_rules! clone_counted {
    ($($n:ident)*) => {$(
        impl<const K: u8> Clone for $n<K> {
            fn clone(&self) -> Self {
                LEDGER.with(|l| l.borrow_mut().clones += 1);
                Self::mk(self.id())
            }
        }
    )*};
}
clone_counted!(S L Z W);
common!(S 1);
common!(L 1);
common!(Z 1);
common!(W 1);
common!(Cp 1);
common!(H 8);

/// Tracked token with a part that comparison and hashing do not see.
pub struct H<const K: u8> {
    id: u32,
    serial: u32,
    magic: u32,
}
impl<const K: u8> Tok for H<K> {
    const NAME: &'static str = "h";
    fn mk(id: u32) -> Self {
        H { id, serial: born(), magic: MAGIC }
    }
    fn id(&self) -> u32 {
        check_alive(self.serial, self.magic, "H");
        self.id
    }
    fn kind() -> u8 {
        K
    }
    fn show(&self) -> String {
        if crate::dump::in_key() {
            format!("h{K}#~{}", self.id() / 8)
        } else {
            format!("h{K}#{}", self.id())
        }
    }
}
impl<const K: u8> Drop for H<K> {
    fn drop(&mut self) {
        died(self.serial, self.magic, "H");
        self.magic = 0xDEAD;
    }
}
clone_counted!(H);

// compound tokens (calls without annotations)
impl<A: Tok, B: Tok> Tok for (A, B) {
    const NAME: &'static str = "pair";
    fn mk(id: u32) -> Self {
        (A::mk(id), B::mk(id ^ 5))
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
    fn kind() -> u8 {
        0
    }
}
macro_rules! compound {
    ($($name:literal $t:ty, $mk:expr, $id:expr;)*) => {$(
        impl<A: Tok> Tok for $t {
            const NAME: &'static str = $name;
            fn mk(id: u32) -> Self {
                let f: fn(A) -> Self = $mk;
                f(A::mk(id))
            }
            fn id(&self) -> u32 {
                let f: fn(&Self) -> Option<&A> = $id;
                f(self).map_or(7, |a| a.id())
            }
            fn kind() -> u8 {
                0
            }
        }
    )*};
}
compound! {
    "option" Option<A>, Some, |x| x.as_ref();
    "vec" Vec<A>, |a| vec![a], |x| x.first();
    "box" Box<A>, Box::new, |x| Some(&**x);
    "array" [A; 1], |a| [a], |x| x.first();
    "result" Result<A, A>, Ok, |x| Some(x.as_ref().unwrap_or_else(|e| e));
}
