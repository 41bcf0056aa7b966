//! Canonical consumption: turns a value into text, element by element.
use std::borrow::Cow;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::fmt::Write;
use std::marker::PhantomData;
use std::ops::*;
use std::rc::Rc;
use std::sync::Arc;
use std::task::Poll;

pub trait Dump: Sized {
    fn dump(self, o: &mut String);
}

pub fn dump<T: Dump>(x: T) -> String {
    let mut s = String::new();
    x.dump(&mut s);
    s
}

pub fn seq<T: Dump>(name: &str, it: impl Iterator<Item = T>, o: &mut String) {
    o.push_str(name);
    o.push('[');
    for x in it {
        x.dump(o);
        o.push(',');
    }
    o.push(']');
}
fn sorted<T: Dump>(name: &str, it: impl Iterator<Item = T>, o: &mut String) {
    let mut v: Vec<String> = it.map(dump).collect();
    v.sort();
    let _ = write!(o, "{name}{v:?}");
}

thread_local! {
    static KEY: Cell<bool> = const { Cell::new(false) };
}
/// Whether a key of a map or an element of a set is being shown. Which one of
/// several equal keys is kept is up to the collection, so what tells them apart
/// is not shown.
pub fn in_key() -> bool {
    KEY.with(|k| k.get())
}
fn key<T: Dump>(x: T) -> String {
    let outer = KEY.with(|k| k.replace(true));
    let s = dump(x);
    KEY.with(|k| k.set(outer));
    s
}
fn entry<T: Dump, U: Dump>((k, v): (T, U)) -> String {
    let mut s = key(k);
    s.push_str("=>");
    v.dump(&mut s);
    s
}
fn map<T: Dump, U: Dump>(name: &str, it: impl Iterator<Item = (T, U)>, o: &mut String) {
    let v: Vec<String> = it.map(entry).collect();
    let _ = write!(o, "{name}[{}]", v.join(","));
}
fn set<T: Dump>(name: &str, it: impl Iterator<Item = T>, o: &mut String) {
    let v: Vec<String> = it.map(key).collect();
    let _ = write!(o, "{name}[{}]", v.join(","));
}
fn sorted_map<T: Dump, U: Dump>(name: &str, it: impl Iterator<Item = (T, U)>, o: &mut String) {
    let mut v: Vec<String> = it.map(entry).collect();
    v.sort();
    let _ = write!(o, "{name}{v:?}");
}
fn sorted_set<T: Dump>(name: &str, it: impl Iterator<Item = T>, o: &mut String) {
    let mut v: Vec<String> = it.map(key).collect();
    v.sort();
    let _ = write!(o, "{name}{v:?}");
}
fn tag<T: Dump>(name: &str, x: T, o: &mut String) {
    o.push_str(name);
    o.push('(');
    x.dump(o);
    o.push(')');
}

macro_rules! prims {
    ($($t:ty)*) => {$(impl Dump for $t { fn dump(self, o: &mut String) { let _ = write!(o, "{self:?}"); } })*};
}
prims!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char String Box<str> ());

impl<T: Dump> Dump for Box<[T]> {
    fn dump(self, o: &mut String) {
        seq("bs", self.into_vec().into_iter(), o)
    }
}
impl<'a, T: Dump + Copy> Dump for &'a T {
    fn dump(self, o: &mut String) {
        tag("ref", *self, o)
    }
}
impl<'a, T: Dump + Copy> Dump for &'a mut T {
    fn dump(self, o: &mut String) {
        tag("mut", *self, o)
    }
}
impl<'a> Dump for &'a str {
    fn dump(self, o: &mut String) {
        let _ = write!(o, "&{self:?}");
    }
}
impl<'a, T: Dump + Copy> Dump for &'a [T] {
    fn dump(self, o: &mut String) {
        seq("slice", self.iter().copied(), o)
    }
}
impl<T> Dump for *const T {
    fn dump(self, o: &mut String) {
        o.push_str(if self.is_null() { "null" } else { "ptr" })
    }
}
impl<T> Dump for *mut T {
    fn dump(self, o: &mut String) {
        o.push_str(if self.is_null() { "null" } else { "ptr" })
    }
}
impl<R> Dump for fn() -> R {
    fn dump(self, o: &mut String) {
        o.push_str("fn0")
    }
}
impl<A, R> Dump for fn(A) -> R {
    fn dump(self, o: &mut String) {
        o.push_str("fn1")
    }
}
impl<A, C, R> Dump for fn(A, C) -> R {
    fn dump(self, o: &mut String) {
        o.push_str("fn2")
    }
}
impl<'a, A, R> Dump for Box<dyn Fn(A) -> R + 'a> {
    fn dump(self, o: &mut String) {
        o.push_str("dynfn")
    }
}
impl<'a, X: ?Sized> Dump for Box<dyn crate::Tr1<X> + 'a> {
    fn dump(self, o: &mut String) {
        o.push_str("dyntr")
    }
}
impl<T: Dump> Dump for Rc<T> {
    fn dump(self, o: &mut String) {
        match Rc::try_unwrap(self) {
            Ok(x) => tag("rc", x, o),
            Err(_) => o.push_str("rc shared"),
        }
    }
}
impl<T: Dump> Dump for Arc<T> {
    fn dump(self, o: &mut String) {
        match Arc::try_unwrap(self) {
            Ok(x) => tag("arc", x, o),
            Err(_) => o.push_str("arc shared"),
        }
    }
}
impl<T: Dump> Dump for std::cmp::Reverse<T> {
    fn dump(self, o: &mut String) {
        tag("rev", self.0, o)
    }
}
impl<T: Dump> Dump for std::num::Wrapping<T> {
    fn dump(self, o: &mut String) {
        tag("wrapping", self.0, o)
    }
}
impl<T: Dump> Dump for std::sync::Mutex<T> {
    fn dump(self, o: &mut String) {
        tag("mutex", self.into_inner().unwrap(), o)
    }
}
impl<'a, T: ToOwned + ?Sized + 'a> Dump for Cow<'a, T>
where
    T::Owned: Dump,
{
    fn dump(self, o: &mut String) {
        tag("cow", self.into_owned(), o)
    }
}
impl<T: Dump, const N: usize> Dump for [T; N] {
    fn dump(self, o: &mut String) {
        seq("arr", self.into_iter(), o)
    }
}
macro_rules! tuples {
    ($($t:ident $n:tt)*) => {
        impl<$($t: Dump),*> Dump for ($($t,)*) {
            fn dump(self, o: &mut String) {
                o.push('(');
                $(self.$n.dump(o); o.push(',');)*
                o.push(')');
            }
        }
    };
}
tuples!(A 0);
tuples!(A 0 B 1);
tuples!(A 0 B 1 C 2);
tuples!(A 0 B 1 C 2 D 3);
tuples!(A 0 B 1 C 2 D 3 E 4);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 K 9);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 K 9 L 10);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 K 9 L 10 M 11);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 K 9 L 10 M 11 N 12);
tuples!(A 0 B 1 C 2 D 3 E 4 F 5 H 6 I 7 J 8 K 9 L 10 M 11 N 12 O 13);

impl<T: ?Sized> Dump for PhantomData<T> {
    fn dump(self, o: &mut String) {
        o.push_str("ph")
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(self, o: &mut String) {
        match self {
            Some(x) => tag("some", x, o),
            None => o.push_str("none"),
        }
    }
}
impl<T: Dump, U: Dump> Dump for Result<T, U> {
    fn dump(self, o: &mut String) {
        match self {
            Ok(x) => tag("ok", x, o),
            Err(x) => tag("err", x, o),
        }
    }
}
impl<T: Dump, U: Dump> Dump for ControlFlow<T, U> {
    fn dump(self, o: &mut String) {
        match self {
            ControlFlow::Break(x) => tag("break", x, o),
            ControlFlow::Continue(x) => tag("continue", x, o),
        }
    }
}
impl<T: Dump> Dump for Poll<T> {
    fn dump(self, o: &mut String) {
        match self {
            Poll::Ready(x) => tag("ready", x, o),
            Poll::Pending => o.push_str("pending"),
        }
    }
}
impl<T: Dump> Dump for Bound<T> {
    fn dump(self, o: &mut String) {
        match self {
            Bound::Included(x) => tag("incl", x, o),
            Bound::Excluded(x) => tag("excl", x, o),
            Bound::Unbounded => o.push_str("unb"),
        }
    }
}
macro_rules! inner {
    ($($t:ident)*) => {$(
        impl<T: Dump> Dump for $t<T> {
            fn dump(self, o: &mut String) { tag(stringify!($t), self.into_inner(), o) }
        }
    )*};
}
inner!(Cell RefCell UnsafeCell);
impl<T: Dump> Dump for Range<T> {
    fn dump(self, o: &mut String) {
        tag("range", (self.start, self.end), o)
    }
}
impl<T: Dump> Dump for RangeFrom<T> {
    fn dump(self, o: &mut String) {
        tag("rangefrom", self.start, o)
    }
}
impl<T: Dump> Dump for RangeTo<T> {
    fn dump(self, o: &mut String) {
        tag("rangeto", self.end, o)
    }
}
impl<T: Dump> Dump for RangeToInclusive<T> {
    fn dump(self, o: &mut String) {
        tag("rangetoincl", self.end, o)
    }
}
impl<T: Dump> Dump for RangeInclusive<T> {
    fn dump(self, o: &mut String) {
        tag("rangeincl", self.into_inner(), o)
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(self, o: &mut String) {
        tag("box", *self, o)
    }
}
macro_rules! seqs {
    ($([$($p:tt)*] $t:ty, $f:ident, $n:literal;)*) => {$(
        impl<$($p)*> Dump for $t {
            fn dump(self, o: &mut String) { $f($n, self.into_iter(), o) }
        }
    )*};
}
seqs! {
    [T: Dump] Vec<T>, seq, "vec";
    [T: Dump] VecDeque<T>, seq, "deque";
    [T: Dump] LinkedList<T>, seq, "list";
    [T: Dump, U: Dump] BTreeMap<T, U>, map, "bmap";
    [T: Dump] BTreeSet<T>, set, "bset";
    [T: Dump] BinaryHeap<T>, sorted, "heap";
    [T: Dump, U: Dump, H] HashMap<T, U, H>, sorted_map, "hmap";
    [T: Dump, H] HashSet<T, H>, sorted_set, "hset";
    [T: Dump] std::vec::IntoIter<T>, seq, "veciter";
    [T: Dump] vec_deque::IntoIter<T>, seq, "dequeiter";
    [T: Dump] linked_list::IntoIter<T>, seq, "listiter";
    [T: Dump, U: Dump] btree_map::IntoIter<T, U>, map, "bmapiter";
    [T: Dump] btree_set::IntoIter<T>, set, "bsetiter";
    [T: Dump] binary_heap::IntoIter<T>, sorted, "heapiter";
    [T: Dump, U: Dump] hash_map::IntoIter<T, U>, sorted_map, "hmapiter";
    [T: Dump] hash_set::IntoIter<T>, sorted_set, "hsetiter";
    [T: Dump] std::option::IntoIter<T>, seq, "optiter";
    [T: Dump] std::result::IntoIter<T>, seq, "resiter";
}
