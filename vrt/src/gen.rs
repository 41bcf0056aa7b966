//! Value generation.
use crate::choice::Rng;
use std::borrow::Cow;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::ops::*;
use std::rc::Rc;
use std::sync::Arc;
use std::task::Poll;

/// Generation context: a PRNG, an element budget and an id supply.
pub struct G {
    pub rng: Rng,
    /// elements that may still be put into growing containers
    pub fuel: i32,
    /// longest growing container
    pub max_len: u32,
    /// keep containers without a specified iteration order at <= 1 element
    pub tiny_unordered: bool,
    /// draw ids from a small set (collisions) instead of unique ones
    pub dup: bool,
    next: u32,
}

/// Size and kind of generated values.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub fuel: i32,
    pub len: u32,
    pub tiny: bool,
    pub dup: bool,
}
impl Shape {
    pub fn small(fuel: i32, len: u32) -> Shape {
        Shape { fuel, len, tiny: true, dup: false }
    }
    pub fn g(&self, seed: u64) -> G {
        let mut g = G::new(seed, self.fuel, self.len);
        g.tiny_unordered = self.tiny;
        g.dup = self.dup;
        g
    }
}

impl G {
    pub fn new(seed: u64, fuel: i32, max_len: u32) -> G {
        G { rng: Rng::new(seed), fuel, max_len, tiny_unordered: true, dup: false, next: 0 }
    }
    /// Uses other ids from here on.
    pub fn skip(&mut self, n: u32) {
        self.next += n;
    }
    pub fn id(&mut self) -> u32 {
        if self.dup {
            return 1 + self.rng.below(40);
        }
        self.next += 1;
        // a bijection on 0..65536 that scrambles the order
        (self.next.wrapping_mul(40503) & 0xFFFF) + 1
    }
    pub fn below(&mut self, n: u32) -> u32 {
        self.rng.below(n)
    }
    pub fn len(&mut self) -> usize {
        if self.fuel <= 0 {
            return 0;
        }
        let m = self.max_len.min(self.fuel as u32);
        let mut n = self.rng.below(m + 1);
        if n > 4 && self.rng.below(6) == 0 {
            // around a power of two
            let k = n.ilog2();
            n = ((1 << k) + self.rng.below(3) - 1).min(m);
        }
        self.fuel -= n as i32;
        n as usize
    }
    pub fn len_unordered(&mut self) -> usize {
        let n = self.len();
        if self.tiny_unordered {
            n.min(1)
        } else {
            n
        }
    }
}

pub trait Gen: Sized {
    fn gen(g: &mut G) -> Self;
}

macro_rules! ints {
    ($($t:ty)*) => {$(impl Gen for $t { fn gen(g: &mut G) -> Self { g.rng.next() as $t } })*};
}
ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
impl Gen for f64 {
    fn gen(g: &mut G) -> Self {
        (g.below(1000) as f64) / 8.0
    }
}
impl Gen for f32 {
    fn gen(g: &mut G) -> Self {
        (g.below(1000) as f32) / 8.0
    }
}
impl Gen for bool {
    fn gen(g: &mut G) -> Self {
        g.below(2) == 1
    }
}
impl Gen for char {
    fn gen(g: &mut G) -> Self {
        (b'a' + g.below(26) as u8) as char
    }
}
impl Gen for String {
    fn gen(g: &mut G) -> Self {
        format!("str{}", g.below(100000))
    }
}
impl Gen for Box<str> {
    fn gen(g: &mut G) -> Self {
        String::gen(g).into()
    }
}
impl Gen for () {
    fn gen(_: &mut G) -> Self {}
}
impl<T: Gen> Gen for Box<[T]> {
    fn gen(g: &mut G) -> Self {
        Vec::<T>::gen(g).into()
    }
}
impl<'a, T: Gen + 'a> Gen for &'a T {
    fn gen(g: &mut G) -> Self {
        crate::mem::leaking(|| Box::leak(Box::new(T::gen(g))))
    }
}
impl<'a, T: Gen + 'a> Gen for &'a mut T {
    fn gen(g: &mut G) -> Self {
        crate::mem::leaking(|| Box::leak(Box::new(T::gen(g))))
    }
}
impl<'a> Gen for &'a str {
    fn gen(g: &mut G) -> Self {
        crate::mem::leaking(|| Box::leak(Box::<str>::gen(g)))
    }
}
impl<'a, T: Gen + 'a> Gen for &'a [T] {
    fn gen(g: &mut G) -> Self {
        crate::mem::leaking(|| Box::leak(Box::<[T]>::gen(g)))
    }
}
impl<T> Gen for *const T {
    fn gen(_: &mut G) -> Self {
        std::ptr::null()
    }
}
impl<T> Gen for *mut T {
    fn gen(_: &mut G) -> Self {
        std::ptr::null_mut()
    }
}
impl<R> Gen for fn() -> R {
    fn gen(_: &mut G) -> Self {
        fn f<R>() -> R {
            panic!()
        }
        f::<R>
    }
}
impl<A, R> Gen for fn(A) -> R {
    fn gen(_: &mut G) -> Self {
        fn f<A, R>(_: A) -> R {
            panic!()
        }
        f::<A, R>
    }
}
impl<A, C, R> Gen for fn(A, C) -> R {
    fn gen(_: &mut G) -> Self {
        fn f<A, C, R>(_: A, _: C) -> R {
            panic!()
        }
        f::<A, C, R>
    }
}
impl<'a, A, R> Gen for Box<dyn Fn(A) -> R + 'a> {
    fn gen(_: &mut G) -> Self {
        Box::new(|_| panic!())
    }
}
impl<'a, X: ?Sized> Gen for Box<dyn crate::Tr1<X> + 'a> {
    fn gen(g: &mut G) -> Self {
        Box::new(u8::gen(g))
    }
}
impl<T: Gen> Gen for Rc<T> {
    fn gen(g: &mut G) -> Self {
        Rc::new(T::gen(g))
    }
}
impl<T: Gen> Gen for Arc<T> {
    fn gen(g: &mut G) -> Self {
        Arc::new(T::gen(g))
    }
}
impl<T: Gen> Gen for std::cmp::Reverse<T> {
    fn gen(g: &mut G) -> Self {
        std::cmp::Reverse(T::gen(g))
    }
}
impl<T: Gen> Gen for std::num::Wrapping<T> {
    fn gen(g: &mut G) -> Self {
        std::num::Wrapping(T::gen(g))
    }
}
impl<T: Gen> Gen for std::sync::Mutex<T> {
    fn gen(g: &mut G) -> Self {
        std::sync::Mutex::new(T::gen(g))
    }
}
impl<'a, T: ToOwned + ?Sized + 'a> Gen for Cow<'a, T>
where
    T::Owned: Gen,
{
    fn gen(g: &mut G) -> Self {
        Cow::Owned(T::Owned::gen(g))
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(g: &mut G) -> Self {
        std::array::from_fn(|_| T::gen(g))
    }
}
macro_rules! tuples {
    ($($t:ident)*) => {
        impl<$($t: Gen),*> Gen for ($($t,)*) {
            fn gen(g: &mut G) -> Self { ($($t::gen(g),)*) }
        }
    };
}
tuples!(A);
tuples!(A B);
tuples!(A B C);
tuples!(A B C D);
tuples!(A B C D E);
tuples!(A B C D E F);
tuples!(A B C D E F H);
tuples!(A B C D E F H I);
tuples!(A B C D E F H I J);
tuples!(A B C D E F H I J K);
tuples!(A B C D E F H I J K L);
tuples!(A B C D E F H I J K L M);
tuples!(A B C D E F H I J K L M N);
tuples!(A B C D E F H I J K L M N O);

impl<T: ?Sized> Gen for PhantomData<T> {
    fn gen(_: &mut G) -> Self {
        PhantomData
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(g: &mut G) -> Self {
        if g.below(4) == 0 {
            None
        } else {
            Some(T::gen(g))
        }
    }
}
impl<T: Gen, U: Gen> Gen for Result<T, U> {
    fn gen(g: &mut G) -> Self {
        if g.below(2) == 0 {
            Ok(T::gen(g))
        } else {
            Err(U::gen(g))
        }
    }
}
impl<T: Gen, U: Gen> Gen for ControlFlow<T, U> {
    fn gen(g: &mut G) -> Self {
        if g.below(2) == 0 {
            ControlFlow::Break(T::gen(g))
        } else {
            ControlFlow::Continue(U::gen(g))
        }
    }
}
impl<T: Gen> Gen for Poll<T> {
    fn gen(g: &mut G) -> Self {
        if g.below(4) == 0 {
            Poll::Pending
        } else {
            Poll::Ready(T::gen(g))
        }
    }
}
impl<T: Gen> Gen for Bound<T> {
    fn gen(g: &mut G) -> Self {
        match g.below(3) {
            0 => Bound::Included(T::gen(g)),
            1 => Bound::Excluded(T::gen(g)),
            _ => Bound::Unbounded,
        }
    }
}
impl<T: Gen> Gen for Cell<T> {
    fn gen(g: &mut G) -> Self {
        Cell::new(T::gen(g))
    }
}
impl<T: Gen> Gen for RefCell<T> {
    fn gen(g: &mut G) -> Self {
        RefCell::new(T::gen(g))
    }
}
impl<T: Gen> Gen for UnsafeCell<T> {
    fn gen(g: &mut G) -> Self {
        UnsafeCell::new(T::gen(g))
    }
}
impl<T: Gen> Gen for Range<T> {
    fn gen(g: &mut G) -> Self {
        T::gen(g)..T::gen(g)
    }
}
impl<T: Gen> Gen for RangeFrom<T> {
    fn gen(g: &mut G) -> Self {
        T::gen(g)..
    }
}
impl<T: Gen> Gen for RangeTo<T> {
    fn gen(g: &mut G) -> Self {
        ..T::gen(g)
    }
}
impl<T: Gen> Gen for RangeToInclusive<T> {
    fn gen(g: &mut G) -> Self {
        ..=T::gen(g)
    }
}
impl<T: Gen> Gen for RangeInclusive<T> {
    fn gen(g: &mut G) -> Self {
        T::gen(g)..=T::gen(g)
    }
}
impl<T: Gen> Gen for std::option::IntoIter<T> {
    fn gen(g: &mut G) -> Self {
        let mut it = Option::<T>::gen(g).into_iter();
        if g.below(6) == 0 {
            it.next();
        }
        it
    }
}
impl<T: Gen> Gen for std::result::IntoIter<T> {
    fn gen(g: &mut G) -> Self {
        let mut it = match Option::<T>::gen(g) {
            Some(x) => Ok(x),
            None => Err(()),
        }
        .into_iter();
        if g.below(6) == 0 {
            it.next_back();
        }
        it
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(g: &mut G) -> Self {
        Box::new(T::gen(g))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(g: &mut G) -> Self {
        let n = g.len();
        let spare = if g.below(3) == 0 { g.below(9) as usize } else { 0 };
        let mut v = Vec::with_capacity(n + spare);
        for _ in 0..n {
            v.push(T::gen(g));
        }
        v
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(g: &mut G) -> Self {
        let n = g.len();
        // possibly wrapped around the end of the ring buffer
        let cap = n + g.below(4) as usize;
        let mut d = VecDeque::with_capacity(cap.max(1));
        let skip = if g.below(2) == 0 { g.below(d.capacity().min(64) as u32) } else { 0 };
        if skip > 0 {
            let mut tmp: VecDeque<Option<T>> = VecDeque::with_capacity(cap.max(1));
            for _ in 0..skip {
                tmp.push_back(None);
            }
            for _ in 0..skip {
                tmp.pop_front();
            }
            // elements inserted at both ends: half front, half back
            let back = if n == 0 { 0 } else { g.below(n as u32 + 1) as usize };
            let items: Vec<T> = (0..n).map(|_| T::gen(g)).collect();
            let mut front = Vec::new();
            for (i, x) in items.into_iter().enumerate() {
                if i < n - back {
                    front.push(x);
                } else {
                    d.push_back(x);
                }
            }
            for x in front.into_iter().rev() {
                d.push_front(x);
            }
        } else {
            for _ in 0..n {
                d.push_back(T::gen(g));
            }
        }
        d
    }
}
impl<T: Gen> Gen for LinkedList<T> {
    fn gen(g: &mut G) -> Self {
        let n = g.len();
        (0..n).map(|_| T::gen(g)).collect()
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(g: &mut G) -> Self {
        let n = g.len();
        let mut m = BTreeMap::new();
        for _ in 0..n {
            let k = K::gen(g);
            m.insert(k, V::gen(g));
        }
        m
    }
}
impl<K: Gen + Ord> Gen for BTreeSet<K> {
    fn gen(g: &mut G) -> Self {
        let n = g.len();
        (0..n).map(|_| K::gen(g)).collect()
    }
}
impl<K: Gen + Ord> Gen for BinaryHeap<K> {
    fn gen(g: &mut G) -> Self {
        let n = g.len_unordered();
        let mut h = BinaryHeap::new();
        for _ in 0..n {
            h.push(K::gen(g));
        }
        h
    }
}
/// One `RandomState` per thread, so that generating a value twice gives the
/// same iteration order.
fn hasher<H: BuildHasher + Default + 'static>() -> H {
    use std::any::Any;
    use std::collections::hash_map::RandomState;
    thread_local!(static RS: RandomState = RandomState::new());
    let mut h = H::default();
    if let Some(x) = (&mut h as &mut dyn Any).downcast_mut::<RandomState>() {
        *x = RS.with(|r| r.clone());
    }
    h
}
impl<K: Gen + Eq + Hash, V: Gen, H: BuildHasher + Default + 'static> Gen for HashMap<K, V, H> {
    fn gen(g: &mut G) -> Self {
        let n = g.len_unordered();
        let mut m = HashMap::with_hasher(hasher::<H>());
        for _ in 0..n {
            let k = K::gen(g);
            m.insert(k, V::gen(g));
        }
        m
    }
}
impl<K: Gen + Eq + Hash, H: BuildHasher + Default + 'static> Gen for HashSet<K, H> {
    fn gen(g: &mut G) -> Self {
        let n = g.len_unordered();
        let mut m = HashSet::with_hasher(hasher::<H>());
        for _ in 0..n {
            m.insert(K::gen(g));
        }
        m
    }
}
/// Owning iterators, partially consumed now and then.
macro_rules! iters {
    ($([$($p:tt)*] $it:ty, $src:ty, $back:tt;)*) => {$(
        impl<$($p)*> Gen for $it {
            fn gen(g: &mut G) -> Self {
                #[allow(unused_mut)]
                let mut it = <$src>::gen(g).into_iter();
                if g.below(3) == 0 {
                    for _ in 0..g.below(g.max_len.min(9)) {
                        iters!(@step g it $back);
                    }
                }
                it
            }
        }
    )*};
    (@step $g:ident $it:ident y) => { if $g.below(2) == 0 { $it.next(); } else { $it.next_back(); } };
    (@step $g:ident $it:ident n) => { $it.next(); };
}
iters! {
    [T: Gen] std::vec::IntoIter<T>, Vec<T>, y;
    [T: Gen] vec_deque::IntoIter<T>, VecDeque<T>, y;
    [T: Gen] linked_list::IntoIter<T>, LinkedList<T>, y;
    [K: Gen + Ord, V: Gen] btree_map::IntoIter<K, V>, BTreeMap<K, V>, y;
    [K: Gen + Ord] btree_set::IntoIter<K>, BTreeSet<K>, y;
    [K: Gen + Ord] binary_heap::IntoIter<K>, BinaryHeap<K>, n;
    [K: Gen + Eq + Hash, V: Gen] hash_map::IntoIter<K, V>, HashMap<K, V>, n;
    [K: Gen + Eq + Hash] hash_set::IntoIter<K>, HashSet<K>, n;
}

/// A hasher with few values, so that keys collide.
#[derive(Default, Clone)]
pub struct Lump;
pub struct LumpHasher(u64);
impl BuildHasher for Lump {
    type Hasher = LumpHasher;
    fn build_hasher(&self) -> LumpHasher {
        LumpHasher(0)
    }
}
impl std::hash::Hasher for LumpHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_add(*x as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0 % 3
    }
}

macro_rules! exotic {
    ($($t:ty = $e:expr;)*) => {$(
        impl Gen for $t {
            fn gen(_: &mut G) -> Self {
                $e
            }
        }
        impl crate::Dump for $t {
            fn dump(self, o: &mut String) {
                o.push_str(stringify!($t))
            }
        }
    )*};
}
extern "C" fn id_ref(x: &u8) -> &u8 {
    x
}
extern "C" fn to_fn(_: &u8, _: (bool,)) -> fn(u8) {
    |_| ()
}
unsafe extern "C" {
    fn printf(f: u8, ...) -> u8;
}
exotic! {
    unsafe extern "C" fn(u8, ...) -> u8 = printf;
    for<'x> extern "C" fn(&'x u8) -> &'x u8 = id_ref;
    extern "C" fn(&u8, (bool,)) -> fn(u8) = to_fn;
    *const [u8] = &[] as *const [u8; 0];
    *mut (dyn std::any::Any + Send) = std::ptr::null_mut::<u8>();
    &'static (dyn std::fmt::Debug + 'static) = &1u8;
    for<'x> fn(&'x u8) -> &'x u8 = |x| x;
    Box<dyn for<'x> Fn(&'x u8) -> &'x u8> = Box::new(|x| x);
}
