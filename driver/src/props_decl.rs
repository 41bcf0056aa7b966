//! C14, C18: what is refused and what is accepted.
use crate::ast::*;
use crate::batch::*;
use crate::gen::*;
use crate::props_run::*;
use crate::report::Ctx;
use crate::util::*;
use std::collections::BTreeSet;
use vrt::choice::Src;

/// Rewrites a type so that it is `Copy` if its sized parameters are.
fn copyify(t: &Ty, params: &[Param]) -> Ty {
    let phantom = |t: Ty| Ty::Lib(lib("phantom"), vec![t], 1);
    match t {
        Ty::Param(p) if params[*p].is_unsized() => phantom(t.clone()),
        Ty::Param(_) | Ty::Prim(_) | Ty::Ptr(..) | Ty::Fn(..) => t.clone(),
        Ty::Tok(_, k) => Ty::Tok('C', *k),
        Ty::Paren(x) => Ty::Paren(Box::new(copyify(x, params))),
        Ty::Array(x, l) => Ty::Array(Box::new(copyify(x, params)), l.clone()),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| copyify(t, params)).collect()),
        Ty::Lib(l, ts, s) if ["option", "result", "poll", "controlflow", "bound", "rangeto", "rangetoincl"].contains(&l.key) => {
            Ty::Lib(l, ts.iter().map(|t| copyify(t, params)).collect(), *s)
        }
        Ty::Lib(l, _, _) if l.key == "phantom" => t.clone(),
        Ty::Ref(_, false, _) => t.clone(),
        Ty::User(d, args, s) => Ty::User(
            *d,
            args.iter()
                .map(|a| match a {
                    Arg::Ty(Ty::Prim("str")) => a.clone(),
                    Arg::Ty(t) => Arg::Ty(copyify(t, params)),
                    a => a.clone(),
                })
                .collect(),
            *s,
        ),
        _ => phantom(t.clone()),
    }
}

fn copy_defs(defs: &mut [Def]) {
    let n = defs.len();
    for (k, d) in defs.iter_mut().enumerate() {
        for v in &mut d.variants {
            for f in v.fields.iter_mut().filter(|f| !f.gone) {
                f.ty = copyify(&f.ty, &d.params);
            }
        }
        for q in &mut d.params {
            if q.is_unsized() {
                continue;
            }
            if let PK::Ty { bounds, .. } = &mut q.kind {
                bounds.push(Bound::Std("::std::marker::Copy"));
            }
        }
        if k + 1 < n {
            d.attrs.push("#[derive(Clone, Copy)]".into());
        }
    }
}

fn drop_impl(c: &mut Src, d: &Def, pr: &Print, name: &str) -> String {
    let w = d.where_preds(pr);
    let wh = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
    let head = *c.pick(&["Drop", "::core::ops::Drop", "std::ops::Drop"]);
    let body = *c.pick(&["", "let _ = 1;", "::std::println!(\"x\");"]);
    format!("impl{} {head} for {name}{}{wh} {{ fn drop(&mut self) {{ {body} }} }}\n", d.decl_params(pr, false), d.self_args())
}

fn has_bounds(d: &Def) -> bool {
    !d.preds.is_empty() || d.params.iter().any(|q| matches!(&q.kind, PK::Ty { bounds, .. } if !bounds.is_empty()))
}

pub fn c14(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "inf: true, try_: true,");
    let base = Profile { std_bounds: true, large: 20, ..Profile::default() };
    let p = base.clone();
    campaign_with(
        ctx,
        &env,
        ctx.n(1000, 10000),
        "drop",
        &|c| {
            let mut g = Gen::new(c, p.clone());
            g.program();
            let mut defs = std::mem::take(&mut g.defs);
            fixup(&mut defs);
            let kind = c.weighted(&[5, 2, 2]);
            match kind {
                // nothing has to be moved out of the value
                0 => copy_defs(&mut defs),
                // nothing at all is in the value
                1 => {
                    let d = defs.last_mut().unwrap();
                    for v in &mut d.variants {
                        for f in &mut v.fields {
                            if !f.gone {
                                f.ty = Ty::Lib(lib("phantom"), vec![f.ty.clone()], 1);
                            }
                        }
                    }
                }
                _ => {}
            }
            let m = defs.len() - 1;
            if c.chance(1, 8) {
                let d = &mut defs[m];
                let k = c.draw(d.params.len() as u32) as usize;
                if let PK::Ty { bounds, .. } = &mut d.params[k].kind {
                    bounds.push(Bound::Std("::std::ops::Drop"));
                }
            }
            let derives = if c.chance(1, 2) { (true, false) } else { (false, true) };
            defs[m].derives = derives;
            let text = |fm: Option<&str>| {
                defs.iter().map(|d| d.text(&Print { defs: &defs, params: &d.params, abs: None, frag: None }, fm)).collect::<String>()
            };
            let d = &defs[m];
            let place = c.draw(4);
            let own = Print { defs: &defs, params: &d.params, abs: None, frag: None };
            let drop = match place {
                0 | 1 => drop_impl(c, d, &own, &d.name),
                2 => format!("const _: () = {{\n{}}};\n", drop_impl(c, d, &own, &d.name)),
                _ => {
                    let abs = Print { defs: &defs, params: &d.params, abs: Some("super::"), frag: None };
                    format!("mod other_ {{ {} }}\n", drop_impl(c, d, &abs, &format!("super::{}", d.name)))
                }
            };
            let before = c.chance(1, 4);
            let join = |a: String| if before { format!("{drop}{a}") } else { format!("{a}{drop}") };
            let derived = text(Some("::funcmap"));
            let module = join(derived.clone());
            let bare = format!("pub mod c1_ {{\n{}}}\npub mod c2_ {{\n{derived}}}\n", join(text(None)));
            let mut classes = vec![if derives.0 { "FuncMap" } else { "TryFuncMap" }.to_string()];
            classes.push(["all fields are Copy", "all fields are PhantomData", "fields of all kinds"][kind].into());
            if has_bounds(d) {
                classes.push("with bounds".into());
            }
            if d.params.len() > d.mapped().len() {
                classes.push("with lifetimes, const parameters or unmapped parameters".into());
            }
            CaseText { sample: module.clone(), module, bare, nontrivial: kind < 2, classes, ..Default::default() }
        },
        &run_rejects,
    );
    // not `Drop` themselves
    let p = base;
    campaign(ctx, &env, ctx.n(200, 2000), "nodrop", &|c| {
        let mut g = Gen::new(c, p.clone());
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let m = defs.len() - 1;
        let mut classes = vec![];
        // everything that test code puts in for a mapped parameter implements `Drop`
        if c.chance(1, 4) {
            let d = &mut defs[m];
            for q in &mut d.params {
                if !q.is_mapped() {
                    continue;
                }
                if let PK::Ty { bounds, .. } = &mut q.kind {
                    bounds.push(Bound::Std("::std::ops::Drop"));
                    classes.push("bound `Drop`".to_string());
                }
            }
            // nested derived types pass their arguments on
            if defs.len() > 1 {
                classes.clear();
                for q in &mut defs[m].params {
                    if let PK::Ty { bounds, .. } = &mut q.kind {
                        bounds.retain(|b| *b != Bound::Std("::std::ops::Drop"));
                    }
                }
            }
        }
        let d = &defs[m];
        let pr = Print { defs: &defs, params: &d.params, abs: None, frag: None };
        let w = d.where_preds(&pr);
        let wh = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
        let (decl, args, name) = (d.decl_params(&pr, false), d.self_args(), &d.name);
        let extra = match c.draw(5) {
            0 => format!("impl{decl} {name}{args}{wh} {{ pub fn drop(&mut self) {{}} }}\n"),
            1 => format!("pub trait Drop {{ fn drop(&mut self); }}\nimpl{decl} Drop for {name}{args}{wh} {{ fn drop(&mut self) {{}} }}\n"),
            2 => {
                format!("pub struct Around_<X>(X);\nimpl<X> ::std::ops::Drop for Around_<X> {{ fn drop(&mut self) {{}} }}\nimpl{decl} {name}{args}{wh} {{ pub fn around_(self) -> Around_<Self> {{ Around_(self) }} }}\n")
            }
            3 => format!("pub mod other_ {{ pub struct {name}; impl Drop for {name} {{ fn drop(&mut self) {{}} }} }}\n"),
            _ => String::new(),
        };
        let mut t = module(c, &defs, &Mode { extra: &extra, max_checks: 1, ..Mode::default() });
        if !extra.is_empty() {
            classes.push("something else is called `Drop` or `drop`, or drops the type".into());
        }
        t.sample = t.sample + &extra;
        t.classes = classes;
        t.classes.push("does not implement Drop".into());
        t
    });
    ctx.finish("random definitions (of which most consist of Copy or PhantomData fields only, so that nothing else refuses the derive) with a matching Drop impl in front of, behind, inside of a constant or in another module, derived for one of the two traits: has to be refused, while the definition with Drop but without the derive and the one with the derive but without Drop compile. Definitions that do not implement Drop but have fields that do, `Drop` bounds, inherent methods, traits, types or wrappers of that name have to be accepted and are compared with the reference. Non-trivial: a refused case in which no field has to be moved out of the value, or a mapped parameter below another type constructor.")
}

/// Names declared as traits, modules or re-exports in the library's sources: a
/// dictionary for attempts, without any bearing on the verdict.
fn dictionary() -> (Vec<String>, Vec<String>) {
    let mut mods = BTreeSet::new();
    let mut traits = BTreeSet::new();
    if let Ok(rd) = std::fs::read_dir(repo().join("funcmap/src")) {
        for e in rd.flatten() {
            let t = std::fs::read_to_string(e.path()).unwrap_or_default();
            for l in t.lines().filter(|l| !l.trim_start().starts_with("//")) {
                let ws: Vec<String> =
                    l.split(|ch: char| !ch.is_alphanumeric() && ch != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect();
                for w in ws.windows(2) {
                    match w[0].as_str() {
                        "mod" => {
                            mods.insert(w[1].clone());
                        }
                        "trait" | "as" => {
                            traits.insert(w[1].clone());
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    for t in ["Sealed", "FuncMarker"] {
        traits.insert(t.into());
    }
    for m in ["private", "sealed"] {
        mods.insert(m.into());
    }
    traits.retain(|t| !t.contains("Drop") && !t.contains("FuncMap") && t.len() > 1 && t.chars().next().unwrap().is_uppercase());
    (mods.into_iter().collect(), traits.into_iter().collect())
}

const NS: &[&str] = &["0", "1", "2", "3", "7", "42", "255", "256", "65536", "4294967296", "{ usize::MAX }", "{ 1 + 1 }", "{ usize::MAX / 2 }"];

pub fn c18(ctx: &mut Ctx) -> ! {
    let mut env = Env::new(ctx, "");
    env.rounds = 1;
    let (mods, traits) = dictionary();
    // types that could serve as markers, next to the control `TypeParam<N>`
    let forged = |c: &mut Src, n: &str| -> (String, String) {
        let tp = format!("::funcmap::TypeParam<{n}>");
        let decl = c.pick(&[
            "#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct My;",
            "pub enum My {}",
            "pub struct My(pub usize);",
            "pub struct MyN<const N: usize>; pub type My = MyN<3>;",
            "pub struct TypeParam<const N: usize>; pub type My = TypeParam<0>;",
            "pub enum TypeParam<const N: usize> {} pub type My = TypeParam<1>;",
            "pub trait Object {} pub type My = ::std::boxed::Box<dyn Object>;",
            "pub struct Wrap<T>(T); pub type My = Wrap<::funcmap::TypeParam<0>>;",
        ]);
        let foreign = format!("pub type My = {};", c.pick(&[
            "()".to_string(), "u8".into(), "usize".into(), "[(); 0]".into(), "[(); 1]".into(), format!("::std::marker::PhantomData<{tp}>"),
            format!("::std::option::Option<{tp}>"), format!("::std::boxed::Box<{tp}>"), format!("&'static {tp}"), format!("({tp},)"),
            format!("({tp}, {tp})"), format!("[{tp}; 1]"), format!("fn() -> {tp}"), "::std::convert::Infallible".into(), "&'static str".into(),
            "(usize,)".into(), "::std::marker::PhantomData<()>".into(), format!("::std::mem::ManuallyDrop<{tp}>"),
        ]));
        if c.chance(2, 3) {
            (decl.to_string(), "local".into())
        } else {
            (foreign, "foreign".into())
        }
    };
    campaign_with(
        ctx,
        &env,
        ctx.n(600, 6000),
        "marker",
        &|c| {
            let n = *c.pick(NS);
            let (decl, origin) = forged(c, n);
            let local = origin == "local";
            let fixed = format!("pub type My = ::funcmap::TypeParam<{n}>;");
            // how the type is declared a marker
            let claim = if local {
                let mut s = String::new();
                let pair = c.chance(1, 2);
                if pair {
                    let mut m: Vec<String> = mods.iter().map(|m| format!("::{m}")).collect();
                    m.push(String::new());
                    let (m, t) = (c.pick(&m).clone(), c.pick(&traits).clone());
                    if t != "FuncMarker" {
                        s += &format!("impl ::funcmap{m}::{t}<My> for My {{}}\n");
                    }
                    s += "impl ::funcmap::FuncMarker<My> for My {}\n";
                }
                let kinds = if pair { 0 } else { 1 + c.draw(2) };
                for _ in 0..kinds {
                    let m = if mods.is_empty() || c.chance(1, 3) { String::new() } else { format!("::{}", c.pick(&mods)) };
                    let t = c.pick(&traits).clone();
                    s += &match c.draw(8) {
                        0 => format!("impl ::funcmap{m}::{t}<My> for My {{}}\n"),
                        1 => format!("impl<P> ::funcmap{m}::{t}<P> for My {{}}\n"),
                        2 => format!("impl<const M: usize> ::funcmap{m}::{t}<::funcmap::TypeParam<M>> for My {{}}\n"),
                        3 => format!("use ::funcmap{m}::*; impl {t}<My> for My {{}}\n"),
                        4 => format!("impl ::funcmap{m}::{t} for My {{}}\n"),
                        _ => "impl ::funcmap::FuncMarker<My> for My {}\n".into(),
                    };
                }
                if c.chance(1, 5) {
                    String::new()
                } else {
                    s
                }
            } else {
                String::new()
            };
            // how it is used as one
            let tr = *c.pick(&["FuncMap", "TryFuncMap"]);
            let method = |body: bool| match (tr, body) {
                ("FuncMap", _) => "fn func_map<F>(self, f: F) -> Foo<B> where F: FnMut(A) -> B { let mut f = f; Foo(f(self.0)) }",
                _ => "fn try_func_map<E, F>(self, f: F) -> Result<Foo<B>, E> where F: FnMut(A) -> Result<B, E> { let mut f = f; Ok(Foo(f(self.0)?)) }",
            };
            let over = if tr == "FuncMap" { "func_map_over::<My, _>(|x: u8| x)" } else { "try_func_map_over::<My, (), _>(|x: u8| Ok(x))" };
            let (what, usage) = match c.draw(8) {
                0 => ("bound on a function", format!("pub fn need<P: ::funcmap::FuncMarker<P>>() {{}} pub fn go() {{ need::<My>() }}")),
                1 => ("impl with it", format!("pub struct Foo<T>(T); impl<A, B> ::funcmap::{tr}<A, B, My> for Foo<A> {{ type Output = Foo<B>; {} }}", method(true))),
                2 => ("bound with it", format!("pub fn need<T: ::funcmap::{tr}<A, B, My>, A, B>() {{}}")),
                3 => ("call with it", format!("pub fn go<T: ::funcmap::{tr}<u8, u8, P>, P: ::funcmap::FuncMarker<P>>(t: T) where My: ::funcmap::FuncMarker<P> {{ let _ = t.{over}; }} pub fn need<P: ::funcmap::FuncMarker<P>>() {{}} pub fn go2() {{ need::<My>() }}")),
                4 => ("projection with it", format!("pub struct Foo<T>(T); pub fn need<T, A, B, O>() where T: ::funcmap::{tr}<A, B, My, Output = O> {{}}")),
                5 => ("assertion", "const _: fn() = || { fn need<P: ::funcmap::FuncMarker<P>>() {} need::<My>() };".to_string()),
                6 => ("struct with it", format!("pub struct Foo<T, A, B>(T, A, B) where T: ::funcmap::{tr}<A, B, My>;")),
                _ => ("trait object", format!("pub fn go() -> Option<Box<dyn ::funcmap::FuncMarker<My>>> {{ None }} pub fn need<P: ::funcmap::FuncMarker<P>>() {{}} pub fn go2() {{ need::<My>() }}")),
            };
            let module = format!("{decl}\n{claim}{usage}\n");
            let bare = format!("{fixed}\n{usage}\n");
            CaseText {
                sample: module.clone(),
                module,
                bare,
                nontrivial: true,
                classes: vec![format!("{origin} type, {what}"), if claim.is_empty() { "no impl".into() } else { "with forged impls".into() }],
                ..Default::default()
            }
        },
        &run_rejects,
    );
    // values of markers from safe code
    campaign_with(
        ctx,
        &env,
        ctx.n(250, 2500),
        "value",
        &|c| {
            let n = *c.pick(NS);
            let tp = format!("::funcmap::TypeParam<{n}>");
            let tf = format!("::funcmap::TypeParam::<{n}>");
            let exprs: Vec<String> = vec![
                tf.clone(),
                format!("{tf} {{}}"),
                format!("{tf}()"),
                format!("{tf}(())"),
                format!("{tf}(::std::marker::PhantomData)"),
                format!("{tf} {{ _private: () }}"),
                format!("<{tp} as ::std::default::Default>::default()"),
                format!("<{tp}>::new()"),
                format!("<{tp}>::default()"),
                format!("<{tp}>::VALUE"),
                format!("<{tp}>::INSTANCE"),
                format!("<{tp} as ::std::convert::From<()>>::from(())"),
                format!("<{tp} as ::std::convert::From<usize>>::from(0)"),
                format!("<{tp} as ::std::convert::TryFrom<usize>>::try_from(0).ok().unwrap()"),
                format!("<{tp} as ::std::str::FromStr>::from_str(\"\").ok().unwrap()"),
                format!("<{tp} as ::std::iter::FromIterator<()>>::from_iter([()])"),
                format!("<{tp} as ::std::iter::Sum<()>>::sum([()].into_iter())"),
                format!("::std::mem::take::<{tp}>(unreachable_())"),
                format!("[(); 1].map(|_| {tf}).into_iter().next().unwrap()"),
                format!("::std::option::Option::<{tp}>::None.unwrap_or_default()"),
                "().into()".to_string(),
                "0usize.into()".to_string(),
                format!("0 as {tp}"),
                "\"\".parse().ok().unwrap()".to_string(),
            ];
            let e = c.pick(&exprs).clone();
            let module = format!("fn unreachable_() -> &'static mut {tp} {{ loop {{}} }}\npub fn make() -> {tp} {{ let _ = unreachable_; {e} }}\n");
            let bare = format!("fn unreachable_() -> &'static mut {tp} {{ loop {{}} }}\npub fn make() -> {tp} {{ let _ = unreachable_; loop {{}} }}\n");
            CaseText { sample: module.clone(), module, bare, nontrivial: true, classes: vec!["value of a marker".into()], ..Default::default() }
        },
        &run_rejects,
    );
    // what is known at compile time
    campaign(ctx, &env, ctx.n(120, 1200), "facts", &|c| {
        let n = *c.pick(NS);
        let m = *c.pick(NS);
        let tp = |n: &str| format!("::funcmap::TypeParam<{n}>");
        let num = |s: &str| match s {
            "{ usize::MAX }" => usize::MAX,
            "{ 1 + 1 }" => 2,
            "{ usize::MAX / 2 }" => usize::MAX / 2,
            s => s.parse().unwrap(),
        };
        let wraps: &[&str] = &[
            "()", "u8", "usize", "bool", "char", "str", "[(); 0]", "[(); 1]", "[u8]", "Option<@>", "Box<@>", "(@,)", "(@, @)", "&'static @", "PhantomData<@>",
            "[@; 1]", "fn() -> @", "fn(@)", "Infallible", "PhantomData<()>", "*const @", "Vec<@>", "Result<@, @>", "Cell<@>", "My", "MyN<0>",
            "Wrapping<usize>", "String", "PhantomPinned", "RangeFull", "Ordering", "TypeId", "&'static mut @", "Rc<@>", "ManuallyDrop<@>",
        ];
        let mut f = String::new();
        let mut add = |what: &str, got: String, want: bool| f += &format!("({what:?}, {got}, {want}), ");
        add("N is a marker", format!("Q_::<{0}, {0}>::IS", tp(n)), true);
        add("N is a marker for M", format!("Q_::<{}, {}>::IS", tp(n), tp(m)), num(n) == num(m));
        for _ in 0..6 {
            let w = c.pick(wraps).replace('@', &tp(n));
            let v = c.pick(wraps).replace('@', &tp(m));
            add(&format!("{w} as a marker"), format!("Q_::<{w}, {w}>::IS"), false);
            add(&format!("{w} for N"), format!("Q_::<{w}, {}>::IS", tp(n)), false);
            add(&format!("N for {w}"), format!("Q_::<{}, {w}>::IS", tp(n)), false);
            add(&format!("{w} for {v}"), format!("Q_::<{w}, {v}>::IS"), false);
        }
        add("no room for a value of a marker", format!("(::std::mem::size_of::<Option<{}>>() == 0)", tp(n)), true);
        add("no room for a value of a marker in a result", format!("(::std::mem::size_of::<Result<u8, {}>>() == 1)", tp(n)), true);
        add("default of a marker", format!("V_::<{}>::DEFAULT", tp(n)), false);
        for t in ["FM", "TFM"] {
            add(&format!("{t} of One by default"), format!("D_::<One<u8>, u8, i8>::{t}"), num(n) == 0);
            add(&format!("{t} of One with N"), format!("E_::<One<u8>, u8, i8, {}>::{t}", tp(n)), true);
            add(&format!("{t} of One with M"), format!("E_::<One<u8>, u8, i8, {}>::{t}", tp(m)), num(n) == num(m));
            add(&format!("{t} of (Vec, by default)"), format!("D_::<Vec<u8>, u8, i8>::{t}"), true);
            add(&format!("{t} of (Result, by default)"), format!("D_::<Result<u8, u16>, u8, i8>::{t}"), true);
            add(&format!("{t} of (Result over its second argument, by default)"), format!("D_::<Result<u8, u16>, u16, i8>::{t}"), false);
        }
        let module = format!(
            "use ::std::{{boxed::Box, marker::PhantomData, vec::Vec, option::Option, result::Result, cell::Cell, convert::Infallible, rc::Rc, mem::ManuallyDrop, num::Wrapping, string::String, marker::PhantomPinned, ops::RangeFull, cmp::Ordering, any::TypeId}};
pub struct My; pub enum MyN<const N: usize> {{}}
pub struct Q_<X: ?Sized, Y: ?Sized>(PhantomData<Box<X>>, PhantomData<Box<Y>>);
pub trait NoQ_ {{ const IS: bool = false; }}
impl<X: ?Sized, Y: ?Sized> NoQ_ for Q_<X, Y> {{}}
impl<X: ?Sized + ::funcmap::FuncMarker<Y>, Y> Q_<X, Y> {{ pub const IS: bool = true; }}
pub struct V_<X>(PhantomData<X>);
pub trait NoV_ {{ const DEFAULT: bool = false; }}
impl<X> NoV_ for V_<X> {{}}
impl<X: ::std::default::Default> V_<X> {{ pub const DEFAULT: bool = true; }}
pub struct D_<T, A, B>(PhantomData<(T, A, B)>);
pub trait NoD_ {{ const FM: bool = false; const TFM: bool = false; }}
impl<T, A, B> NoD_ for D_<T, A, B> {{}}
impl<T: ::funcmap::FuncMap<A, B>, A, B> D_<T, A, B> {{ pub const FM: bool = true; }}
impl<T: ::funcmap::TryFuncMap<A, B>, A, B> D_<T, A, B> {{ pub const TFM: bool = true; }}
pub struct E_<T, A, B, P>(PhantomData<(T, A, B, P)>);
pub trait NoE_ {{ const FM: bool = false; const TFM: bool = false; }}
impl<T, A, B, P> NoE_ for E_<T, A, B, P> {{}}
impl<T: ::funcmap::FuncMap<A, B, P>, A, B, P: ::funcmap::FuncMarker<P>> E_<T, A, B, P> {{ pub const FM: bool = true; }}
impl<T: ::funcmap::TryFuncMap<A, B, P>, A, B, P: ::funcmap::FuncMarker<P>> E_<T, A, B, P> {{ pub const TFM: bool = true; }}
pub struct One<T>(T);
impl<A, B> ::funcmap::FuncMap<A, B, {tpn}> for One<A> {{ type Output = One<B>; fn func_map<F>(self, mut f: F) -> One<B> where F: FnMut(A) -> B {{ One(f(self.0)) }} }}
impl<A, B> ::funcmap::TryFuncMap<A, B, {tpn}> for One<A> {{ type Output = One<B>; fn try_func_map<E, F>(self, mut f: F) -> Result<One<B>, E> where F: FnMut(A) -> Result<B, E> {{ Ok(One(f(self.0)?)) }} }}
pub fn run(cx: &mut ::vrt::eng::Cx) {{ cx.facts(\"markers\", &[{f}]); }}\n",
            tpn = tp(n)
        );
        CaseText { sample: format!("facts about TypeParam<{n}> and TypeParam<{m}>: {f}"), module, bare: "".into(), runs: true, nontrivial: true, classes: vec!["facts".into()], ..Default::default() }
    });
    ctx.finish("random attempts of a downstream crate to use types other than `TypeParam<N>` as markers: local and foreign types, with and without impls of the marker trait and of every trait and module name found in the library's sources, in bounds, impls, projections, calls and structs (each program is accepted with `TypeParam<N>` in place of the forged type and has to be rejected as it is); attempts to obtain a value of `TypeParam<N>` through constructors, constants, conversions and defaults; compile-time probes of which pairs of types are related by the marker trait, of the layout of `Option<TypeParam<N>>` (a type without values takes no room) and of the default marker of both traits. Non-trivial: all of them (each is a distinct attempt or table of probes).")
}
