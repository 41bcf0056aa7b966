//! Algebraic laws over generated values: identity, composition, commutation of
//! mappings over different parameters.
use crate::gen::{Shape, G};
use std::cell::Cell;

pub struct Lx {
    pub seed: u64,
    pub shape: Shape,
    /// only injective functions
    pub inj: bool,
    pub salt: u32,
}

/// what, left, right, closure calls
pub type Pair = (&'static str, String, String, u32);

impl Lx {
    pub fn g(&self) -> G {
        self.shape.g(self.seed)
    }
    /// Two families of pure functions on ids.
    pub fn f(&self, which: u32, id: u32) -> u32 {
        let k = self.salt.wrapping_mul(977).wrapping_add(which * 31 + 7);
        if self.inj || self.salt % 2 == 0 {
            (id.wrapping_mul(25173 + 2 * which).wrapping_add(k)) & 0xFF_FFFF
        } else {
            (id.wrapping_mul(25173).wrapping_add(k) >> 2) % 5
        }
    }
    /// Pure predicate that makes fallible functions fail.
    pub fn fails(&self, which: u32, id: u32) -> bool {
        let m = [1_000_000_007, 2, 5, 23][self.salt as usize % 4];
        m != 1_000_000_007 && id.wrapping_mul(2654435761).wrapping_add(which) % m == 1
    }
}

thread_local!(static CALLS: Cell<u32> = Cell::new(0));
pub fn tick() {
    CALLS.with(|c| c.set(c.get() + 1));
}
pub fn take() -> u32 {
    CALLS.with(|c| c.replace(0))
}

#[macro_export]
macro_rules! law_identity {
    (ty $t:ty, h $h:ty, fm [$($fm:tt)*], marker $m:tt) => {
        |lx| {
            let gen = || <$t as $crate::Gen>::gen(&mut lx.g());
            let want = $crate::dump::dump::<$t>(gen());
            let a: $t = <$t as $($fm)*::FuncMap<$h, $h, $($fm)*::TypeParam<$m>>>::func_map(gen(), |x: $h| { $crate::law::tick(); x });
            let b: ::std::result::Result<$t, ()> = <$t as $($fm)*::TryFuncMap<$h, $h, $($fm)*::TypeParam<$m>>>::try_func_map(gen(), |x: $h| ::std::result::Result::Ok(x));
            let n = $crate::law::take();
            ::std::vec![
                ("mapping the identity", $crate::dump::dump::<$t>(a), want.clone(), n),
                ("fallibly mapping the identity", match b { ::std::result::Result::Ok(b) => $crate::dump::dump::<$t>(b), _ => "Err".to_string() }, want, n),
            ]
        }
    };
}

#[macro_export]
macro_rules! law_compose {
    (ty $t0:ty, $t1:ty, $t2:ty, h $h0:ty, $h1:ty, $h2:ty, fm [$($fm:tt)*], marker $m:tt) => {
        |lx| {
            use $crate::Tok as _;
            let gen = || <$t0 as $crate::Gen>::gen(&mut lx.g());
            let f = |x: $h0| -> $h1 { $crate::law::tick(); <$h1 as $crate::Tok>::mk(lx.f(0, x.id())) };
            let g = |x: $h1| -> $h2 { <$h2 as $crate::Tok>::mk(lx.f(1, x.id())) };
            let v: $t1 = <$t0 as $($fm)*::FuncMap<$h0, $h1, $($fm)*::TypeParam<$m>>>::func_map(gen(), f);
            let n = $crate::law::take();
            let two: $t2 = <$t1 as $($fm)*::FuncMap<$h1, $h2, $($fm)*::TypeParam<$m>>>::func_map(v, g);
            let one: $t2 = <$t0 as $($fm)*::FuncMap<$h0, $h2, $($fm)*::TypeParam<$m>>>::func_map(gen(), |x: $h0| g(f(x)));
            let one_d = $crate::dump::dump::<$t2>(one);
            let mut out = ::std::vec![("f then g against their composition", $crate::dump::dump::<$t2>(two), one_d.clone(), n)];
            let tf = |x: $h0| if lx.fails(0, x.id()) { ::std::result::Result::Err(1) } else { ::std::result::Result::Ok(f(x)) };
            let tg = |x: $h1| if lx.fails(1, x.id()) { ::std::result::Result::Err(2) } else { ::std::result::Result::Ok(g(x)) };
            let comp: ::std::result::Result<$t2, u8> = <$t0 as $($fm)*::TryFuncMap<$h0, $h2, $($fm)*::TypeParam<$m>>>::try_func_map(gen(), |x: $h0| tg(tf(x)?));
            if let ::std::result::Result::Ok(c) = comp {
                let c = $crate::dump::dump::<$t2>(c);
                let v: ::std::result::Result<$t1, u8> = <$t0 as $($fm)*::TryFuncMap<$h0, $h1, $($fm)*::TypeParam<$m>>>::try_func_map(gen(), tf);
                let w: ::std::result::Result<$t2, u8> = v.and_then(|v| <$t1 as $($fm)*::TryFuncMap<$h1, $h2, $($fm)*::TypeParam<$m>>>::try_func_map(v, tg));
                let w = match w { ::std::result::Result::Ok(w) => $crate::dump::dump::<$t2>(w), ::std::result::Result::Err(e) => ::std::format!("Err({e})") };
                out.push(("fallible f then g against fallible composition", w, c.clone(), n));
                out.push(("fallible composition against composition", c, one_d, n));
            }
            $crate::law::take();
            out
        }
    };
}

/// Parameters `p` and `q` mapped in both orders: `t00` to `t11` through `t10`
/// (first `p`) and through `t01` (first `q`).
#[macro_export]
macro_rules! law_commute {
    (ty $t00:ty, $t10:ty, $t01:ty, $t11:ty, p $p0:ty, $p1:ty, q $q0:ty, $q1:ty, fm [$($fm:tt)*], markers $mp:tt $mq:tt) => {
        |lx| {
            use $crate::Tok as _;
            let gen = || <$t00 as $crate::Gen>::gen(&mut lx.g());
            let f = |x: $p0| -> $p1 { $crate::law::tick(); <$p1 as $crate::Tok>::mk(lx.f(0, x.id())) };
            let g = |x: $q0| -> $q1 { $crate::law::tick(); <$q1 as $crate::Tok>::mk(lx.f(1, x.id())) };
            let a: $t10 = <$t00 as $($fm)*::FuncMap<$p0, $p1, $($fm)*::TypeParam<$mp>>>::func_map_over::<$($fm)*::TypeParam<$mp>, _>(gen(), f);
            let a: $t11 = <$t10 as $($fm)*::FuncMap<$q0, $q1, $($fm)*::TypeParam<$mq>>>::func_map_over::<$($fm)*::TypeParam<$mq>, _>(a, g);
            let n = $crate::law::take();
            let b: $t01 = <$t00 as $($fm)*::FuncMap<$q0, $q1, $($fm)*::TypeParam<$mq>>>::func_map(gen(), g);
            let b: $t11 = <$t01 as $($fm)*::FuncMap<$p0, $p1, $($fm)*::TypeParam<$mp>>>::func_map(b, f);
            $crate::law::take();
            let tf = |x: $p0| if lx.fails(0, x.id()) { ::std::result::Result::Err(()) } else { ::std::result::Result::Ok(f(x)) };
            let tg = |x: $q0| if lx.fails(1, x.id()) { ::std::result::Result::Err(()) } else { ::std::result::Result::Ok(g(x)) };
            let c: ::std::result::Result<$t11, ()> = <$t00 as $($fm)*::TryFuncMap<$p0, $p1, $($fm)*::TypeParam<$mp>>>::try_func_map_over::<$($fm)*::TypeParam<$mp>, _, _>(gen(), tf)
                .and_then(|a: $t10| <$t10 as $($fm)*::TryFuncMap<$q0, $q1, $($fm)*::TypeParam<$mq>>>::try_func_map_over::<$($fm)*::TypeParam<$mq>, _, _>(a, tg));
            let d: ::std::result::Result<$t11, ()> = <$t00 as $($fm)*::TryFuncMap<$q0, $q1, $($fm)*::TypeParam<$mq>>>::try_func_map(gen(), tg)
                .and_then(|a: $t01| <$t01 as $($fm)*::TryFuncMap<$p0, $p1, $($fm)*::TypeParam<$mp>>>::try_func_map(a, tf));
            $crate::law::take();
            let show = |r: ::std::result::Result<$t11, ()>| match r { ::std::result::Result::Ok(x) => $crate::dump::dump::<$t11>(x), _ => "Err".to_string() };
            ::std::vec![
                ("mapping two parameters in both orders", $crate::dump::dump::<$t11>(a), $crate::dump::dump::<$t11>(b), n),
                ("fallibly mapping two parameters in both orders", show(c), show(d), n),
            ]
        }
    };
}

/// The same mappings written without annotations, and through the generic
/// functions `$gm` and `$gt`, against fully annotated calls.
#[macro_export]
macro_rules! law_infer {
    (ty $t0:ty, $t1:ty, $t2:ty, h $h0:ty, $h1:ty, $h2:ty, fm [$($fm:tt)*], marker $m:tt, sole $sole:tt, generic [$($gm:ident $gt:ident)?]) => {
        |lx| {
            use $crate::Tok as _;
            use $($fm)*::{FuncMap as _, TryFuncMap as _};
            type M = $($fm)*::TypeParam<$m>;
            let gen = || <$t0 as $crate::Gen>::gen(&mut lx.g());
            let show = |r: ::std::result::Result<::std::string::String, u8>| match r { ::std::result::Result::Ok(x) => x, ::std::result::Result::Err(e) => ::std::format!("Err({e})") };
            let v: $t1 = <$t0 as $($fm)*::FuncMap<$h0, $h1, M>>::func_map(gen(), |x: $h0| { $crate::law::tick(); x.to_::<$h1>(lx, 0) });
            let n = $crate::law::take();
            let v: $t2 = <$t1 as $($fm)*::FuncMap<$h1, $h2, M>>::func_map(v, |y: $h1| y.to_::<$h2>(lx, 1));
            let want = $crate::dump::dump::<$t2>(v);
            let r: ::std::result::Result<$t1, u8> = <$t0 as $($fm)*::TryFuncMap<$h0, $h1, M>>::try_func_map(gen(), |x: $h0| if lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>(lx, 0)) });
            let r: ::std::result::Result<$t2, u8> = r.and_then(|v| <$t1 as $($fm)*::TryFuncMap<$h1, $h2, M>>::try_func_map(v, |y: $h1| if lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>(lx, 1)) }));
            let try_want = show(r.map($crate::dump::dump::<$t2>));
            let mut out = ::std::vec::Vec::new();

            let w = gen().func_map_over::<M, _>(|x| x.to_::<$h1>(lx, 0)).func_map_over::<M, _>(|y| y.to_::<$h2>(lx, 1));
            out.push(("method calls without annotations", $crate::dump::dump(w), want.clone(), n));
            let w = $($fm)*::FuncMap::<_, _, M>::func_map(gen(), |x| x.to_::<$h1>(lx, 0));
            let w = $($fm)*::FuncMap::<_, _, M>::func_map(w, |y| y.to_::<$h2>(lx, 1));
            out.push(("path calls without annotations", $crate::dump::dump(w), want.clone(), n));
            let r = || {
                let w = gen().try_func_map_over::<M, _, _>(|x| if lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>(lx, 0)) })?
                    .try_func_map_over::<M, _, _>(|y| if lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>(lx, 1)) })?;
                ::std::result::Result::Ok::<_, u8>($crate::dump::dump(w))
            };
            out.push(("fallible method calls without annotations", show(r()), try_want.clone(), n));
            let r = || {
                let w = $($fm)*::TryFuncMap::<_, _, M>::try_func_map(gen(), |x| if lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>(lx, 0)) })?;
                let w = $($fm)*::TryFuncMap::<_, _, M>::try_func_map(w, |y| if lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>(lx, 1)) })?;
                ::std::result::Result::Ok::<_, u8>($crate::dump::dump(w))
            };
            out.push(("fallible path calls without annotations", show(r()), try_want.clone(), n));

            // any functor
            fn apply<P: $($fm)*::FuncMarker<P>, X: $($fm)*::FuncMap<A, B, P>, A, B>(x: X, f: impl ::std::ops::FnMut(A) -> B) -> X::Output { x.func_map(f) }
            fn try_apply<P: $($fm)*::FuncMarker<P>, X: $($fm)*::TryFuncMap<A, B, P>, A, B, E>(x: X, f: impl ::std::ops::FnMut(A) -> ::std::result::Result<B, E>) -> ::std::result::Result<X::Output, E> { x.try_func_map(f) }
            let w = apply::<M, _, _, _>(apply::<M, _, _, _>(gen(), |x| x.to_::<$h1>(lx, 0)), |y| y.to_::<$h2>(lx, 1));
            out.push(("through a function over all functors", $crate::dump::dump(w), want.clone(), n));
            let r = || {
                let w = try_apply::<M, _, _, _, _>(gen(), |x| if lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>(lx, 0)) })?;
                let w = try_apply::<M, _, _, _, _>(w, |y| if lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>(lx, 1)) })?;
                ::std::result::Result::Ok::<_, u8>($crate::dump::dump(w))
            };
            out.push(("fallibly through a function over all functors", show(r()), try_want.clone(), n));
            $crate::law_infer!(@sole $sole out lx gen show want try_want n $h1 | $h2);
            $(
                let w = $gm($gm(gen(), |x| x.to_::<$h1>(lx, 0)), |y| y.to_::<$h2>(lx, 1));
                let w: $t2 = w;
                out.push(("in generic code", $crate::dump::dump(w), want.clone(), n));
                let r = || {
                    let w = $gt(gen(), |x| if lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>(lx, 0)) })?;
                    let w: $t2 = $gt(w, |y| if lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>(lx, 1)) })?;
                    ::std::result::Result::Ok::<_, u8>($crate::dump::dump(w))
                };
                out.push(("fallibly in generic code", show(r()), try_want.clone(), n));
            )?
            out
        }
    };
    (@sole n $($t:tt)*) => {};
    (@sole y $out:ident $lx:ident $gen:ident $show:ident $want:ident $try_want:ident $n:ident $h1:ty | $h2:ty) => {
        let w = $gen().func_map(|x| x.to_::<$h1>($lx, 0)).func_map(|y| y.to_::<$h2>($lx, 1));
        $out.push(("func_map without annotations", $crate::dump::dump(w), $want.clone(), $n));
        let r = || {
            let w = $gen().try_func_map(|x| if $lx.fails(0, x.id()) { ::std::result::Result::Err(1u8) } else { ::std::result::Result::Ok(x.to_::<$h1>($lx, 0)) })?
                .try_func_map(|y| if $lx.fails(1, y.id()) { ::std::result::Result::Err(2u8) } else { ::std::result::Result::Ok(y.to_::<$h2>($lx, 1)) })?;
            ::std::result::Result::Ok::<_, u8>($crate::dump::dump(w))
        };
        $out.push(("try_func_map without annotations", $show(r()), $try_want.clone(), $n));
    };
}

/// Items for compile-time availability probes:
/// `P_::<Type, A, B, N>::FM` and `::TFM`.
#[macro_export]
macro_rules! probe_items {
    ($($fm:tt)*) => {
        pub struct P_<T: ?Sized, A: ?Sized, B: ?Sized, const N: usize>(::std::marker::PhantomData<(::std::boxed::Box<T>, ::std::boxed::Box<A>, ::std::boxed::Box<B>)>);
        pub trait NoP_ { const FM: bool = false; const TFM: bool = false; }
        impl<T: ?Sized, A: ?Sized, B: ?Sized, const N: usize> NoP_ for P_<T, A, B, N> {}
        impl<T: $($fm)*::FuncMap<A, B, $($fm)*::TypeParam<N>>, A, B, const N: usize> P_<T, A, B, N> { pub const FM: bool = true; }
        impl<T: $($fm)*::TryFuncMap<A, B, $($fm)*::TypeParam<N>>, A, B, const N: usize> P_<T, A, B, N> { pub const TFM: bool = true; }
    };
}
