//! Generic associated types for all library types.
#![allow(non_camel_case_types)]

pub struct Fam;

/// Holds for every type, which makes no difference.

pub trait Fams<X: ?Sized = ()> {
    type option_<A>;
    type vec_<A>;
    type box_<A: ?Sized>;
    type result_<A, B>;
    type phantom_<A: ?Sized>;
    type poll_<A>;
    type controlflow_<A, B>;
    type bound_<A>;
    type cell_<A>;
    type refcell_<A>;
    type unsafecell_<A>;
    type range_<A>;
    type rangeincl_<A>;
    type rangefrom_<A>;
    type rangeto_<A>;
    type rangetoincl_<A>;
    type optiter_<A>;
    type resiter_<A>;
    type deque_<A>;
    type list_<A>;
    type bmap_<A, B>;
    type bset_<A>;
    type heap_<A>;
    type hmap_<A, B>;
    type hset_<A>;
    type veciter_<A>;
    type dequeiter_<A>;
    type listiter_<A>;
    type bmapiter_<A, B>;
    type bsetiter_<A>;
    type heapiter_<A>;
    type hmapiter_<A, B>;
    type hsetiter_<A>;
}

impl<S: ?Sized, X: ?Sized> Fams<X> for S {
    type option_<A> = ::std::option::Option<A>;
    type vec_<A> = ::std::vec::Vec<A>;
    type box_<A: ?Sized> = ::std::boxed::Box<A>;
    type result_<A, B> = ::std::result::Result<A, B>;
    type phantom_<A: ?Sized> = ::std::marker::PhantomData<A>;
    type poll_<A> = ::std::task::Poll<A>;
    type controlflow_<A, B> = ::std::ops::ControlFlow<A, B>;
    type bound_<A> = ::std::ops::Bound<A>;
    type cell_<A> = ::std::cell::Cell<A>;
    type refcell_<A> = ::std::cell::RefCell<A>;
    type unsafecell_<A> = ::std::cell::UnsafeCell<A>;
    type range_<A> = ::std::ops::Range<A>;
    type rangeincl_<A> = ::std::ops::RangeInclusive<A>;
    type rangefrom_<A> = ::std::ops::RangeFrom<A>;
    type rangeto_<A> = ::std::ops::RangeTo<A>;
    type rangetoincl_<A> = ::std::ops::RangeToInclusive<A>;
    type optiter_<A> = ::std::option::IntoIter<A>;
    type resiter_<A> = ::std::result::IntoIter<A>;
    type deque_<A> = ::std::collections::VecDeque<A>;
    type list_<A> = ::std::collections::LinkedList<A>;
    type bmap_<A, B> = ::std::collections::BTreeMap<A, B>;
    type bset_<A> = ::std::collections::BTreeSet<A>;
    type heap_<A> = ::std::collections::BinaryHeap<A>;
    type hmap_<A, B> = ::std::collections::HashMap<A, B>;
    type hset_<A> = ::std::collections::HashSet<A>;
    type veciter_<A> = ::std::vec::IntoIter<A>;
    type dequeiter_<A> = ::std::collections::vec_deque::IntoIter<A>;
    type listiter_<A> = ::std::collections::linked_list::IntoIter<A>;
    type bmapiter_<A, B> = ::std::collections::btree_map::IntoIter<A, B>;
    type bsetiter_<A> = ::std::collections::btree_set::IntoIter<A>;
    type heapiter_<A> = ::std::collections::binary_heap::IntoIter<A>;
    type hmapiter_<A, B> = ::std::collections::hash_map::IntoIter<A, B>;
    type hsetiter_<A> = ::std::collections::hash_set::IntoIter<A>;
}
