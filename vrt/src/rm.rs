//! Reference mappings for library types, written element by element without
//! the code under test. All are fallible; `Stop` ends the mapping.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::hash::Hash;
use std::marker::PhantomData;
use std::ops::*;
use std::task::Poll;

/// The mapping was stopped by a failing closure call, with its error.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Stop(pub u32);

type M<'a, A, B> = &'a mut dyn FnMut(A) -> Result<B, Stop>;
type R<T> = Result<T, Stop>;

pub fn array<A, B, const N: usize>(v: [A; N], f: M<A, B>) -> R<[B; N]> {
    let mut out = Vec::with_capacity(N);
    for x in v {
        out.push(f(x)?);
    }
    match out.try_into() {
        Ok(a) => Ok(a),
        Err(_) => unreachable!(),
    }
}
pub fn option_0<A, B>(v: Option<A>, f: M<A, B>) -> R<Option<B>> {
    match v {
        Some(x) => Ok(Some(f(x)?)),
        None => Ok(None),
    }
}
pub fn result_0<A, B, C>(v: Result<A, C>, f: M<A, B>) -> R<Result<B, C>> {
    match v {
        Ok(x) => Ok(Ok(f(x)?)),
        Err(e) => Ok(Err(e)),
    }
}
pub fn result_1<A, B, C>(v: Result<C, A>, f: M<A, B>) -> R<Result<C, B>> {
    match v {
        Ok(x) => Ok(Ok(x)),
        Err(e) => Ok(Err(f(e)?)),
    }
}
pub fn controlflow_0<A, B, C>(v: ControlFlow<A, C>, f: M<A, B>) -> R<ControlFlow<B, C>> {
    match v {
        ControlFlow::Break(x) => Ok(ControlFlow::Break(f(x)?)),
        ControlFlow::Continue(e) => Ok(ControlFlow::Continue(e)),
    }
}
pub fn controlflow_1<A, B, C>(v: ControlFlow<C, A>, f: M<A, B>) -> R<ControlFlow<C, B>> {
    match v {
        ControlFlow::Break(x) => Ok(ControlFlow::Break(x)),
        ControlFlow::Continue(e) => Ok(ControlFlow::Continue(f(e)?)),
    }
}
pub fn poll_0<A, B>(v: Poll<A>, f: M<A, B>) -> R<Poll<B>> {
    match v {
        Poll::Ready(x) => Ok(Poll::Ready(f(x)?)),
        Poll::Pending => Ok(Poll::Pending),
    }
}
pub fn bound_0<A, B>(v: Bound<A>, f: M<A, B>) -> R<Bound<B>> {
    match v {
        Bound::Included(x) => Ok(Bound::Included(f(x)?)),
        Bound::Excluded(x) => Ok(Bound::Excluded(f(x)?)),
        Bound::Unbounded => Ok(Bound::Unbounded),
    }
}
pub fn cell_0<A, B>(v: Cell<A>, f: M<A, B>) -> R<Cell<B>> {
    Ok(Cell::new(f(v.into_inner())?))
}
pub fn refcell_0<A, B>(v: RefCell<A>, f: M<A, B>) -> R<RefCell<B>> {
    Ok(RefCell::new(f(v.into_inner())?))
}
pub fn unsafecell_0<A, B>(v: UnsafeCell<A>, f: M<A, B>) -> R<UnsafeCell<B>> {
    Ok(UnsafeCell::new(f(v.into_inner())?))
}
pub fn phantom_0<A, B>(_: PhantomData<A>, _: M<A, B>) -> R<PhantomData<B>> {
    Ok(PhantomData)
}
pub fn range_0<A, B>(v: Range<A>, f: M<A, B>) -> R<Range<B>> {
    let s = f(v.start)?;
    let e = f(v.end)?;
    Ok(s..e)
}
pub fn rangeincl_0<A, B>(v: RangeInclusive<A>, f: M<A, B>) -> R<RangeInclusive<B>> {
    let (s, e) = v.into_inner();
    let s = f(s)?;
    let e = f(e)?;
    Ok(s..=e)
}
pub fn rangefrom_0<A, B>(v: RangeFrom<A>, f: M<A, B>) -> R<RangeFrom<B>> {
    Ok(f(v.start)?..)
}
pub fn rangeto_0<A, B>(v: RangeTo<A>, f: M<A, B>) -> R<RangeTo<B>> {
    Ok(..f(v.end)?)
}
pub fn rangetoincl_0<A, B>(v: RangeToInclusive<A>, f: M<A, B>) -> R<RangeToInclusive<B>> {
    Ok(..=f(v.end)?)
}
pub fn optiter_0<A, B>(mut v: std::option::IntoIter<A>, f: M<A, B>) -> R<std::option::IntoIter<B>> {
    match v.next() {
        Some(x) => Ok(Some(f(x)?).into_iter()),
        None => Ok(None.into_iter()),
    }
}
pub fn resiter_0<A, B>(mut v: std::result::IntoIter<A>, f: M<A, B>) -> R<std::result::IntoIter<B>> {
    match v.next() {
        Some(x) => Ok(Ok::<B, ()>(f(x)?).into_iter()),
        None => Ok(Err::<B, ()>(()).into_iter()),
    }
}
pub fn box_0<A, B>(v: Box<A>, f: M<A, B>) -> R<Box<B>> {
    Ok(Box::new(f(*v)?))
}
pub fn vec_0<A, B>(v: Vec<A>, f: M<A, B>) -> R<Vec<B>> {
    let mut o = Vec::new();
    for x in v {
        o.push(f(x)?);
    }
    Ok(o)
}
pub fn veciter_0<A, B>(v: std::vec::IntoIter<A>, f: M<A, B>) -> R<std::vec::IntoIter<B>> {
    let mut o = Vec::new();
    for x in v {
        o.push(f(x)?);
    }
    Ok(o.into_iter())
}
pub fn deque_0<A, B>(v: VecDeque<A>, f: M<A, B>) -> R<VecDeque<B>> {
    let mut o = VecDeque::new();
    for x in v {
        o.push_back(f(x)?);
    }
    Ok(o)
}
pub fn dequeiter_0<A, B>(v: vec_deque::IntoIter<A>, f: M<A, B>) -> R<vec_deque::IntoIter<B>> {
    let mut o = VecDeque::new();
    for x in v {
        o.push_back(f(x)?);
    }
    Ok(o.into_iter())
}
pub fn list_0<A, B>(v: LinkedList<A>, f: M<A, B>) -> R<LinkedList<B>> {
    let mut o = LinkedList::new();
    for x in v {
        o.push_back(f(x)?);
    }
    Ok(o)
}
pub fn listiter_0<A, B>(v: linked_list::IntoIter<A>, f: M<A, B>) -> R<linked_list::IntoIter<B>> {
    let mut o = LinkedList::new();
    for x in v {
        o.push_back(f(x)?);
    }
    Ok(o.into_iter())
}
pub fn bmap_0<A, B: Ord, V>(v: BTreeMap<A, V>, f: M<A, B>) -> R<BTreeMap<B, V>> {
    bmapiter(v.into_iter(), &mut |(k, v)| Ok((f(k)?, v)))
}
pub fn bmap_1<K: Ord, A, B>(v: BTreeMap<K, A>, f: M<A, B>) -> R<BTreeMap<K, B>> {
    bmapiter(v.into_iter(), &mut |(k, v)| Ok((k, f(v)?)))
}
fn bmapiter<K, V, K2: Ord, V2>(
    v: btree_map::IntoIter<K, V>,
    f: &mut dyn FnMut((K, V)) -> R<(K2, V2)>,
) -> R<BTreeMap<K2, V2>> {
    let mut o = Vec::new();
    for x in v {
        o.push(f(x)?);
    }
    Ok(o.into_iter().collect())
}
pub fn bmapiter_0<A, B: Ord, V>(v: btree_map::IntoIter<A, V>, f: M<A, B>) -> R<btree_map::IntoIter<B, V>> {
    Ok(bmapiter(v, &mut |(k, v)| Ok((f(k)?, v)))?.into_iter())
}
pub fn bmapiter_1<K: Ord, A, B>(v: btree_map::IntoIter<K, A>, f: M<A, B>) -> R<btree_map::IntoIter<K, B>> {
    Ok(bmapiter(v, &mut |(k, v)| Ok((k, f(v)?)))?.into_iter())
}
fn bset<A, B: Ord>(v: btree_set::IntoIter<A>, f: M<A, B>) -> R<BTreeSet<B>> {
    let mut o = Vec::new();
    for x in v {
        o.push(f(x)?);
    }
    Ok(o.into_iter().collect())
}
pub fn bset_0<A, B: Ord>(v: BTreeSet<A>, f: M<A, B>) -> R<BTreeSet<B>> {
    bset(v.into_iter(), f)
}
pub fn bsetiter_0<A, B: Ord>(v: btree_set::IntoIter<A>, f: M<A, B>) -> R<btree_set::IntoIter<B>> {
    Ok(bset(v, f)?.into_iter())
}
fn heap<A, B: Ord>(v: binary_heap::IntoIter<A>, f: M<A, B>) -> R<BinaryHeap<B>> {
    let mut o = Vec::new();
    for x in v {
        o.push(f(x)?);
    }
    Ok(o.into_iter().collect())
}
pub fn heap_0<A, B: Ord>(v: BinaryHeap<A>, f: M<A, B>) -> R<BinaryHeap<B>> {
    heap(v.into_iter(), f)
}
pub fn heapiter_0<A, B: Ord>(v: binary_heap::IntoIter<A>, f: M<A, B>) -> R<binary_heap::IntoIter<B>> {
    Ok(heap(v, f)?.into_iter())
}
fn hmapiter<K, V, K2: Eq + Hash, V2>(
    v: hash_map::IntoIter<K, V>,
    f: &mut dyn FnMut((K, V)) -> R<(K2, V2)>,
) -> R<HashMap<K2, V2>> {
    let mut items = Vec::new();
    for x in v {
        items.push(f(x)?);
    }
    Ok(items.into_iter().collect())
}
pub fn hmap_0<A, B: Eq + Hash, V, S>(v: HashMap<A, V, S>, f: M<A, B>) -> R<HashMap<B, V>> {
    hmapiter(v.into_iter(), &mut |(k, v)| Ok((f(k)?, v)))
}
pub fn hmap_1<K: Eq + Hash, A, B, S>(v: HashMap<K, A, S>, f: M<A, B>) -> R<HashMap<K, B>> {
    hmapiter(v.into_iter(), &mut |(k, v)| Ok((k, f(v)?)))
}
pub fn hmapiter_0<A, B: Eq + Hash, V>(v: hash_map::IntoIter<A, V>, f: M<A, B>) -> R<hash_map::IntoIter<B, V>> {
    Ok(hmapiter(v, &mut |(k, v)| Ok((f(k)?, v)))?.into_iter())
}
pub fn hmapiter_1<K: Eq + Hash, A, B>(v: hash_map::IntoIter<K, A>, f: M<A, B>) -> R<hash_map::IntoIter<K, B>> {
    Ok(hmapiter(v, &mut |(k, v)| Ok((k, f(v)?)))?.into_iter())
}
fn hset<A, B: Eq + Hash>(v: hash_set::IntoIter<A>, f: M<A, B>) -> R<HashSet<B>> {
    let mut items = Vec::new();
    for x in v {
        items.push(f(x)?);
    }
    Ok(items.into_iter().collect())
}
pub fn hset_0<A, B: Eq + Hash, S>(v: HashSet<A, S>, f: M<A, B>) -> R<HashSet<B>> {
    hset(v.into_iter(), f)
}
pub fn hsetiter_0<A, B: Eq + Hash>(v: hash_set::IntoIter<A>, f: M<A, B>) -> R<hash_set::IntoIter<B>> {
    Ok(hset(v, f)?.into_iter())
}
