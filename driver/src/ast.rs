//! Model of the type definitions that cases are made of.

/// A library type constructor.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Lib {
    pub key: &'static str,
    pub path: &'static str,
    pub prelude: bool,
    pub arity: usize,
    /// argument positions that need `Ord`/`Hash`
    pub keys: &'static [usize],
}

macro_rules! libs {
    ($($key:ident $path:literal $pre:literal $ar:literal $keys:expr;)*) => {
        pub static LIBS: &[Lib] = &[$(Lib { key: stringify!($key), path: $path, prelude: $pre, arity: $ar, keys: &$keys }),*];
    };
}
libs! {
    option "std::option::Option" true 1 [];
    vec "std::vec::Vec" true 1 [];
    box "std::boxed::Box" true 1 [];
    result "std::result::Result" true 2 [];
    phantom "std::marker::PhantomData" false 1 [];
    poll "std::task::Poll" false 1 [];
    controlflow "std::ops::ControlFlow" false 2 [];
    bound "std::ops::Bound" false 1 [];
    cell "std::cell::Cell" false 1 [];
    refcell "std::cell::RefCell" false 1 [];
    unsafecell "std::cell::UnsafeCell" false 1 [];
    range "std::ops::Range" false 1 [];
    rangeincl "std::ops::RangeInclusive" false 1 [];
    rangefrom "std::ops::RangeFrom" false 1 [];
    rangeto "std::ops::RangeTo" false 1 [];
    rangetoincl "std::ops::RangeToInclusive" false 1 [];
    optiter "std::option::IntoIter" false 1 [];
    resiter "std::result::IntoIter" false 1 [];
    deque "std::collections::VecDeque" false 1 [];
    list "std::collections::LinkedList" false 1 [];
    bmap "std::collections::BTreeMap" false 2 [0];
    bset "std::collections::BTreeSet" false 1 [0];
    heap "std::collections::BinaryHeap" false 1 [0];
    hmap "std::collections::HashMap" false 2 [0];
    hset "std::collections::HashSet" false 1 [0];
    veciter "std::vec::IntoIter" false 1 [];
    dequeiter "std::collections::vec_deque::IntoIter" false 1 [];
    listiter "std::collections::linked_list::IntoIter" false 1 [];
    bmapiter "std::collections::btree_map::IntoIter" false 2 [0];
    bsetiter "std::collections::btree_set::IntoIter" false 1 [0];
    heapiter "std::collections::binary_heap::IntoIter" false 1 [0];
    hmapiter "std::collections::hash_map::IntoIter" false 2 [0];
    hsetiter "std::collections::hash_set::IntoIter" false 1 [0];
}

pub fn lib(key: &str) -> &'static Lib {
    LIBS.iter().find(|l| l.key == key).unwrap()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Len {
    Lit(usize),
    Param(usize),
    /// source text, value
    Expr(String, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Lt {
    Static,
    Param(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum CArg {
    Param(usize),
    /// text as written, canonical value
    Val(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Arg {
    Lt(Lt),
    Ty(Ty),
    Const(CArg),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Param(usize),
    /// primitive by name
    Prim(&'static str),
    /// token type: family, kind
    Tok(char, u8),
    /// other closed type, as an absolute path type
    Leaf(&'static str),
    Paren(Box<Ty>),
    Array(Box<Ty>, Len),
    Tuple(Vec<Ty>),
    Lib(&'static Lib, Vec<Ty>, u8),
    User(usize, Vec<Arg>, u8),
    // the following only where no mapped parameter occurs
    Ref(Lt, bool, Box<Ty>),
    Ptr(bool, Box<Ty>),
    Fn(Vec<Ty>, Box<Ty>),
    BoxDynFn(Box<Ty>, Box<Ty>),
    BoxDynTr(Box<Ty>),
    BoxSlice(Box<Ty>),
    /// spelling: `<T as As>::X`, `<T>::X`, `T::X`
    Assoc(Box<Ty>, u8),
    Rc(Box<Ty>),
    Cow(Lt, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Bound {
    Tr0,
    Tr1(Ty),
    As,
    AsX(Ty),
    Std(&'static str),
    Hrtb(Ty),
    /// `Fn(..) -> _`
    Call(Vec<Ty>, Ty),
    /// one of `BOUNDS`, always fulfilled by sized types
    Form(&'static str, Ty),
    Lt(Lt),
    MaybeSized,
}

/// Ways to mention a sized type `$` in a bound.
pub const BOUNDS: &[&str] = &[
    "(::vrt::Tr1<$>)",
    "for<> ::vrt::Tr1<$>",
    "::vrt::Tr1<($, [$; 0],)>",
    "::vrt::Tr1<*const *mut $>",
    "::vrt::Tr1<[$]>",
    "::vrt::Tr1<<$ as ::vrt::As>::X>",
    "::vrt::Tr1<fn(x: $, _: u8) -> !>",
    "::vrt::Tr1<unsafe extern \"C\" fn($, ...)>",
    "::vrt::Tr1<dyn (::vrt::Tr1<$>) + ::std::marker::Send>",
    "::vrt::Tr1<dyn (for<'q> ::std::ops::Fn(&'q $) -> &'q $)>",
    "::vrt::Tr1<for<'q> fn(&'q $) -> &'q [$]>",
    "::vrt::Tr1<dyn (::std::iter::Iterator<Item = $>)>",
    "::vrt::As<X: ::vrt::Tr1<$>>",
    "::vrt::As<X: ::vrt::Tr0 + for<'q> ::vrt::Tr1<&'q mut $>>",
];

pub fn form(s: &str, t: &str) -> String {
    s.replace('$', t)
}

#[derive(Clone, Debug)]
pub enum PK {
    Lt { bounds: Vec<usize> },
    Ty { mapped: bool, unsized_: bool, copy: bool, key: bool, bounds: Vec<Bound>, default: Option<Ty> },
    Const { ty: &'static str, default: Option<(String, String)> },
}

#[derive(Clone, Debug)]
pub struct Param {
    /// attributes in front of the parameter
    pub pre: String,
    pub name: String,
    pub kind: PK,
}

impl Param {
    pub fn is_ty(&self) -> bool {
        matches!(self.kind, PK::Ty { .. })
    }
    pub fn is_mapped(&self) -> bool {
        matches!(self.kind, PK::Ty { mapped: true, .. })
    }
    pub fn is_unsized(&self) -> bool {
        matches!(self.kind, PK::Ty { unsized_: true, .. })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style {
    Named,
    Tuple,
    Unit,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    /// attribute and visibility text in front of the field
    pub pre: String,
    /// removed by cfg
    pub gone: bool,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub style: Style,
    pub fields: Vec<Field>,
    pub pre: String,
    pub post: String,
}

#[derive(Clone, Debug)]
pub struct Pred {
    pub ty: Ty,
    pub bounds: Vec<Bound>,
    pub hr: bool,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub is_enum: bool,
    pub params: Vec<Param>,
    pub preds: Vec<Pred>,
    pub lt_preds: Vec<(usize, usize)>,
    pub variants: Vec<Variant>,
    /// attributes in front of the item (derive excluded)
    pub attrs: Vec<String>,
    pub vis: String,
    /// the options are printed as `#[funcmap(..)]` attributes in this form
    pub opts: Vec<String>,
    /// derive(FuncMap), derive(TryFuncMap)
    pub derives: (bool, bool),
    pub derive_style: u8,
    /// implementations are written by hand
    pub hand: Option<crate::hand::Hand>,
}

impl Def {
    /// Marker index of parameter `p` (lifetimes are not counted).
    pub fn marker(&self, p: usize) -> usize {
        self.params[..p].iter().filter(|q| !matches!(q.kind, PK::Lt { .. })).count()
    }
    pub fn mapped(&self) -> Vec<usize> {
        (0..self.params.len()).filter(|p| self.params[*p].is_mapped()).collect()
    }
    pub fn fields(&self) -> impl Iterator<Item = &Field> {
        self.variants.iter().flat_map(|v| v.fields.iter()).filter(|f| !f.gone)
    }
}

impl Ty {
    pub fn children(&self) -> Vec<&Ty> {
        match self {
            Ty::Param(_) | Ty::Prim(_) | Ty::Tok(..) | Ty::Leaf(_) => vec![],
            Ty::Paren(t) | Ty::Array(t, _) | Ty::Ref(_, _, t) | Ty::Ptr(_, t) => vec![t],
            Ty::BoxDynTr(t) | Ty::BoxSlice(t) | Ty::Assoc(t, _) | Ty::Rc(t) | Ty::Cow(_, t) => vec![t],
            Ty::BoxDynFn(a, b) => vec![a, b],
            Ty::Tuple(ts) | Ty::Lib(_, ts, _) => ts.iter().collect(),
            Ty::Fn(ts, r) => ts.iter().chain(std::iter::once(&**r)).collect(),
            Ty::User(_, args, _) => args
                .iter()
                .filter_map(|a| match a {
                    Arg::Ty(t) => Some(t),
                    _ => None,
                })
                .collect(),
        }
    }
    pub fn mentions(&self, p: usize) -> bool {
        *self == Ty::Param(p) || self.children().iter().any(|c| c.mentions(p))
    }
    pub fn any(&self, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }
    /// Replaces type parameters, lifetimes and const parameters by `env`.
    pub fn subst(&self, env: &[Arg]) -> Ty {
        let b = |t: &Ty| Box::new(t.subst(env));
        let v = |ts: &Vec<Ty>| ts.iter().map(|t| t.subst(env)).collect();
        let lt = |l: &Lt| match l {
            Lt::Static => Lt::Static,
            Lt::Param(p) => match &env[*p] {
                Arg::Lt(l) => l.clone(),
                _ => unreachable!(),
            },
        };
        match self {
            Ty::Param(p) => match &env[*p] {
                Arg::Ty(t) => t.clone(),
                _ => unreachable!(),
            },
            Ty::Prim(_) | Ty::Tok(..) | Ty::Leaf(_) => self.clone(),
            Ty::Paren(t) => t.subst(env),
            Ty::Array(t, l) => Ty::Array(
                b(t),
                match l {
                    Len::Lit(n) => Len::Lit(*n),
                    Len::Expr(_, n) => Len::Lit(*n),
                    Len::Param(p) => match &env[*p] {
                        Arg::Const(CArg::Val(_, v)) => Len::Lit(v.parse().unwrap()),
                        Arg::Const(CArg::Param(q)) => Len::Param(*q),
                        _ => unreachable!(),
                    },
                },
            ),
            Ty::Tuple(ts) => Ty::Tuple(v(ts)),
            Ty::Lib(l, ts, _) => Ty::Lib(l, v(ts), 1),
            Ty::User(d, args, _) => Ty::User(
                *d,
                args.iter()
                    .map(|a| match a {
                        Arg::Lt(l) => Arg::Lt(lt(l)),
                        Arg::Ty(t) => Arg::Ty(t.subst(env)),
                        Arg::Const(CArg::Param(p)) => env[*p].clone(),
                        Arg::Const(CArg::Val(_, v)) => Arg::Const(CArg::Val(v.clone(), v.clone())),
                    })
                    .collect(),
                1,
            ),
            Ty::Ref(l, m, t) => Ty::Ref(lt(l), *m, b(t)),
            Ty::Ptr(m, t) => Ty::Ptr(*m, b(t)),
            Ty::Fn(ts, r) => Ty::Fn(v(ts), b(r)),
            Ty::BoxDynFn(x, y) => Ty::BoxDynFn(b(x), b(y)),
            Ty::BoxDynTr(t) => Ty::BoxDynTr(b(t)),
            Ty::BoxSlice(t) => Ty::BoxSlice(b(t)),
            // `<T as As>::X` is `T`
            Ty::Assoc(t, _) => t.subst(env),
            Ty::Rc(t) => Ty::Rc(b(t)),
            Ty::Cow(l, t) => Ty::Cow(lt(l), b(t)),
        }
    }
}

/// `Self` in the generics of the definition at index `d`.
pub fn self_ty(d: usize, params: &[Param]) -> Ty {
    let args = params
        .iter()
        .enumerate()
        .map(|(i, q)| match q.kind {
            PK::Lt { .. } => Arg::Lt(Lt::Param(i)),
            PK::Ty { .. } => Arg::Ty(Ty::Param(i)),
            PK::Const { .. } => Arg::Const(CArg::Param(i)),
        })
        .collect();
    Ty::User(d, args, 9)
}

/// How type texts are written.
#[derive(Clone, Copy)]
pub struct Print<'a> {
    pub defs: &'a [Def],
    /// parameters of the definition the type is in
    pub params: &'a [Param],
    /// canonical absolute spelling, user types behind this prefix
    pub abs: Option<&'a str>,
    /// parts of the text become arguments of macros
    pub frag: Option<&'a std::cell::RefCell<Frag>>,
}

/// Collects the parts of a definition that are passed through macros.
#[derive(Default)]
pub struct Frag {
    /// pending decisions
    pub dec: Vec<u32>,
    pub pos: usize,
    /// 2: body of the inner macro, 1: arguments in the body of the outer
    /// macro, 0: arguments of the outer invocation
    pub level: u8,
    /// of the outer and of the inner macro: fragment specifier and argument
    pub a: Vec<(String, String)>,
    pub b: Vec<(String, String)>,
    pub two: bool,
    /// one part in so many is a fragment
    pub rate: u32,
}

impl Frag {
    pub fn draw(&mut self, n: u32) -> u32 {
        if self.dec.is_empty() || n == 0 {
            return 0;
        }
        let d = self.dec[self.pos % self.dec.len()];
        self.pos += 1;
        d % n
    }
}

impl Print<'_> {
    /// The text of `f` or a macro fragment that stands for it.
    pub fn part(&self, kinds: &[&str], f: &dyn Fn() -> String) -> String {
        let Some(fr) = self.frag else { return f() };
        let (level, hit, kind) = {
            let mut fr = fr.borrow_mut();
            if fr.level == 0 {
                drop(fr);
                return f();
            }
            let rate = fr.rate;
            let hit = fr.draw(rate) == 1;
            let k = if hit { fr.draw(kinds.len() as u32) as usize } else { 0 };
            (fr.level, hit, kinds[k].to_string())
        };
        if !hit {
            return f();
        }
        fr.borrow_mut().level = level - 1;
        let text = f();
        let mut fr = fr.borrow_mut();
        fr.level = level;
        let (v, n) = if level == 2 { (&mut fr.b, 'b') } else { (&mut fr.a, 'a') };
        v.push((kind, text));
        format!("${n}{}", v.len() - 1)
    }
    pub fn name(&self, s: &str) -> String {
        if s.starts_with('\'') {
            self.part(&["lifetime", "tt"], &|| s.to_string())
        } else {
            self.part(&["ident", "ident", "tt"], &|| s.to_string())
        }
    }
    /// `~` marks the names of items next to the definitions.
    fn rel(&self, s: &str) -> String {
        // macros are in scope in inner modules
        s.replace("~of_", "of_").replace('~', self.abs.unwrap_or(""))
    }
    fn lt(&self, l: &Lt) -> String {
        match l {
            Lt::Static => self.name("'static"),
            Lt::Param(p) => self.name(&self.params[*p].name),
        }
    }
    /// Attributes and visibility in front of a field or item.
    pub fn pre(&self, s: &str) -> String {
        if self.frag.is_none() || (!s.is_empty() && !s.starts_with("pub")) {
            return s.to_string();
        }
        format!("{} ", self.part(&["vis"], &|| s.to_string()))
    }
    pub fn list(&self, ts: &[Ty]) -> String {
        ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")
    }
    pub fn arg(&self, a: &Arg) -> String {
        match a {
            Arg::Lt(l) => self.lt(l),
            Arg::Ty(t) => self.ty(t),
            Arg::Const(CArg::Param(p)) => {
                let n = &self.params[*p].name;
                if self.abs.is_some() {
                    format!("{{ {} }}", self.part(&["ident", "expr", "path", "tt"], &|| n.clone()))
                } else {
                    self.part(&["ident", "tt", "ty", "path"], &|| n.clone())
                }
            }
            Arg::Const(CArg::Val(t, v)) => {
                let t = &if self.abs.is_some() && !t.contains('~') { v.clone() } else { self.rel(t) };
                if t.starts_with('{') {
                    self.part(&["block", "tt"], &|| t.clone())
                } else if self.frag.is_some() && t.len() % 2 == 0 {
                    format!("{{ {} }}", self.part(&["literal", "expr"], &|| t.clone()))
                } else {
                    self.part(&["literal"], &|| t.clone())
                }
            }
        }
    }
    pub fn ty(&self, t: &Ty) -> String {
        if self.frag.is_some() {
            let kinds: &[&str] = match t {
                Ty::Param(_) => &["ty", "ident", "path", "tt"],
                Ty::Leaf(s) if !s.starts_with([':', '~']) || s.contains('!') => &["ty"],
                Ty::User(_, _, 9) | Ty::Lib(_, _, 7 | 8 | 32..) => &["ty"],
                Ty::Lib(..) | Ty::User(..) | Ty::Tok(..) | Ty::Leaf(_) => &["ty", "ty", "path"],
                Ty::Paren(_) | Ty::Tuple(_) | Ty::Array(..) => &["ty", "ty", "tt"],
                _ => &["ty"],
            };
            return self.part(kinds, &|| self.ty_text(t));
        }
        self.ty_text(t)
    }
    fn ty_text(&self, t: &Ty) -> String {
        match t {
            Ty::Param(p) => self.params[*p].name.clone(),
            Ty::Prim(n) => {
                if self.abs.is_some() {
                    format!("::std::primitive::{n}")
                } else {
                    n.to_string()
                }
            }
            Ty::Tok(f, k) => tok_ty(*f, *k),
            Ty::Leaf(s) => self.rel(s),
            Ty::Paren(t) => format!("({})", self.ty(t)),
            Ty::Array(t, l) => format!(
                "[{}; {}]",
                self.ty(t),
                match l {
                    Len::Lit(n) => self.part(&["expr", "literal", "tt"], &|| n.to_string()),
                    Len::Param(p) => self.part(&["expr", "ident", "path", "tt"], &|| self.params[*p].name.clone()),
                    Len::Expr(s, n) => self.part(&["expr"], &|| {
                        if self.abs.is_some() && !s.contains('~') {
                            n.to_string()
                        } else {
                            self.rel(s)
                        }
                    }),
                }
            ),
            Ty::Tuple(ts) => match ts.len() {
                1 => format!("({},)", self.ty(&ts[0])),
                _ => format!("({})", self.list(ts)),
            },
            Ty::Lib(l, ts, sp) => {
                let sp = if self.abs.is_some() && *sp < 7 { 1 } else { *sp };
                let path = match sp {
                    0 if l.prelude => l.path.rsplit("::").next().unwrap().to_string(),
                    2 => l.path.to_string(),
                    // declared next to the definitions
                    6 => return format!("alias_::{}_<{}>", l.key, self.list(ts)),
                    7 => return format!("<::vrt::Fam as ::vrt::Fams>::{}_<{}>", l.key, self.list(ts)),
                    8 => return format!("<(::vrt::Fam) as ::vrt::Fams<[u8]>>::{}_::<{},>", l.key, self.list(ts)),
                    3 if l.arity == 1 => format!("::{}", l.path.replace("std::", "std::").as_str()),
                    _ => format!("::{}", l.path),
                };
                // a projection of another parameter
                if sp >= 32 {
                    let q = self.name(&self.params[(sp as usize - 32) / 2].name);
                    let args = self.list(ts);
                    return match sp % 2 {
                        0 => format!("<{q} as ::vrt::Fams>::{}_<{args}>", l.key),
                        _ => format!("{}::{}_<{args}>", self.params[(sp as usize - 32) / 2].name, l.key),
                    };
                }
                // turbofish form, which is allowed in types
                let col = if sp == 4 { "::" } else { "" };
                let comma = if sp == 5 { "," } else { "" };
                format!("{path}{col}<{}{comma}>", self.list(ts))
            }
            Ty::User(_, _, 9) if self.abs.is_none() => "Self".into(),
            Ty::User(d, args, sp) => {
                let n = self.name(&self.defs[*d].name);
                let name = match self.abs {
                    Some(p) => format!("{p}{n}"),
                    None => match sp {
                        2 => format!("self::{n}"),
                        _ => n,
                    },
                };
                if args.is_empty() {
                    return name;
                }
                let a: Vec<_> = args.iter().map(|a| self.arg(a)).collect();
                format!("{name}<{}>", a.join(", "))
            }
            Ty::Ref(l, m, t) => {
                format!("&{} {}{}", self.lt(l), if *m { "mut " } else { "" }, self.ty(t))
            }
            Ty::Ptr(m, t) => format!("*{} {}", if *m { "mut" } else { "const" }, self.ty(t)),
            Ty::Fn(ts, r) => format!("fn({}) -> {}", self.list(ts), self.ty(r)),
            Ty::BoxDynFn(a, b) => {
                format!("::std::boxed::Box<dyn (::std::ops::Fn({}) -> {})>", self.ty(a), self.ty(b))
            }
            Ty::BoxDynTr(t) => format!("::std::boxed::Box<dyn (::vrt::Tr1<{}>)>", self.ty(t)),
            Ty::BoxSlice(t) => format!("::std::boxed::Box<[{}]>", self.ty(t)),
            Ty::Assoc(t, 1) => format!("<{}>::X", self.ty(t)),
            Ty::Assoc(t, 2) => format!("{}::X", self.ty_text(t)),
            Ty::Assoc(t, _) => format!("<{} as ::vrt::As>::X", self.ty(t)),
            Ty::Rc(t) => format!("::std::rc::Rc<{}>", self.ty(t)),
            Ty::Cow(l, t) => format!("::std::borrow::Cow<{}, {}>", self.lt(l), self.ty(t)),
        }
    }
    pub fn bound(&self, b: &Bound) -> String {
        match b {
            Bound::Tr0 => self.part(&["path"], &|| "::vrt::Tr0".into()),
            Bound::Tr1(t) => self.part(&["path"], &|| format!("::vrt::Tr1<{}>", self.ty(t))),
            Bound::As => self.part(&["path"], &|| "::vrt::As".into()),
            Bound::AsX(t) => self.part(&["path"], &|| format!("::vrt::As<X = {}>", self.ty(t))),
            Bound::Std(s) => self.part(&["path"], &|| self.rel(s)),
            Bound::Hrtb(t) => format!("for<'zz> ::vrt::Tr1<&'zz {}>", self.ty(t)),
            Bound::Call(ts, r) => format!("::std::ops::Fn({}) -> {}", self.list(ts), self.ty(r)),
            Bound::Form(s, t) => form(s, &self.ty(t)),
            Bound::Lt(l) => self.lt(l),
            Bound::MaybeSized if self.abs.is_some() => "?::std::marker::Sized".into(),
            Bound::MaybeSized => "?Sized".into(),
        }
    }
    pub fn bounds(&self, bs: &[Bound]) -> String {
        bs.iter().map(|b| self.bound(b)).collect::<Vec<_>>().join(" + ")
    }
    pub fn pred(&self, p: &Pred) -> String {
        // `$t: ?Sized` is not a bound on the parameter that `$t` stands for
        let ty = if p.bounds.contains(&Bound::MaybeSized) {
            Print { frag: None, ..*self }.ty(&p.ty)
        } else {
            self.ty(&p.ty)
        };
        format!("{}{ty}: {}", if p.hr { "for<'yy> " } else { "" }, self.bounds(&p.bounds))
    }
}

pub fn tok_ty(f: char, k: u8) -> String {
    format!("::vrt::{}<{k}>", if f == 'C' { "Cp".to_string() } else { f.to_string() })
}

impl Def {
    /// Generic parameter declarations (`<..>` or nothing).
    pub fn decl_params(&self, pr: &Print, defaults: bool) -> String {
        if self.params.is_empty() {
            return String::new();
        }
        let ps: Vec<String> = self
            .params
            .iter()
            // (attributes belong to the definition only)
            .map(|p| (p, if defaults { p.pre.clone() } else { String::new() }))
            .map(|(p, pre)| match &p.kind {
                PK::Lt { bounds } => {
                    let n = pre + &pr.name(&p.name);
                    if bounds.is_empty() {
                        n
                    } else {
                        let b: Vec<_> = bounds.iter().map(|b| pr.name(&self.params[*b].name)).collect();
                        format!("{n}: {}", b.join(" + "))
                    }
                }
                PK::Ty { bounds, default, .. } => {
                    let mut s = pre + &pr.name(&p.name);
                    if !bounds.is_empty() {
                        s += &format!(": {}", pr.bounds(bounds));
                    }
                    if let (true, Some(d)) = (defaults, default) {
                        s += &format!(" = {}", pr.ty(d));
                    }
                    s
                }
                PK::Const { ty, default } => {
                    let ty = if pr.abs.is_some() { format!("::std::primitive::{ty}") } else { ty.to_string() };
                    let mut s = format!("{pre}const {}: {}", pr.name(&p.name), pr.part(&["ty", "ident", "path"], &|| ty.clone()));
                    if let (true, Some((d, _))) = (defaults, default) {
                        s += &format!(" = {}", pr.part(&["literal"], &|| d.clone()));
                    }
                    s
                }
            })
            .collect();
        format!("<{}>", ps.join(", "))
    }
    pub fn self_args(&self) -> String {
        if self.params.is_empty() {
            return String::new();
        }
        let ps: Vec<String> = self
            .params
            .iter()
            .map(|p| match p.kind {
                PK::Const { .. } => format!("{{ {} }}", p.name),
                _ => p.name.clone(),
            })
            .collect();
        format!("<{}>", ps.join(", "))
    }
    pub fn where_preds(&self, pr: &Print) -> Vec<String> {
        let mut v: Vec<String> = self
            .lt_preds
            .iter()
            .map(|(a, b)| format!("{}: {}", pr.name(&self.params[*a].name), pr.name(&self.params[*b].name)))
            .collect();
        v.extend(self.preds.iter().map(|p| pr.pred(p)));
        v
    }
    pub fn derive_attrs(&self, fm: &str) -> String {
        let a = format!("{fm}::FuncMap");
        let b = format!("{fm}::TryFuncMap");
        let mut out = match (self.derives, self.derive_style) {
            ((true, true), 0) => format!("#[derive({a}, {b})]\n"),
            ((true, true), 1) => format!("#[derive({b}, {a})]\n"),
            ((true, true), _) => format!("#[derive({a})]\n#[derive({b})]\n"),
            ((true, false), _) => format!("#[derive({a})]\n"),
            ((false, true), _) => format!("#[derive({b})]\n"),
            _ => String::new(),
        };
        if self.derives != (false, false) {
            for o in &self.opts {
                out += &format!("#[funcmap({o})]\n");
            }
        }
        out
    }
    fn fields_text(&self, pr: &Print, v: &Variant) -> String {
        let fs: Vec<String> = v
            .fields
            .iter()
            .map(|f| match v.style {
                _ if f.gone => format!("{}{}{}", f.pre, if v.style == Style::Named { "cfgd: " } else { "" }, pr.ty(&f.ty)),
                Style::Named => format!("{}{}: {}", pr.pre(&f.pre), pr.name(&f.name), pr.ty(&f.ty)),
                _ => format!("{}{}", pr.pre(&f.pre), pr.ty(&f.ty)),
            })
            .collect();
        match v.style {
            Style::Named => format!(" {{ {} }}", fs.join(", ")),
            Style::Tuple => format!("({})", fs.join(", ")),
            Style::Unit => String::new(),
        }
    }
    /// The item as the user writes it.
    pub fn text(&self, pr: &Print, fm: Option<&str>) -> String {
        let mut s = String::new();
        if let Some(h) = &self.hand {
            return h.text(self);
        }
        if let Some(fm) = fm {
            s += &self.derive_attrs(fm);
        }
        for a in &self.attrs {
            s += a;
            s.push('\n');
        }
        s += &pr.pre(&self.vis);
        let w = self.where_preds(pr);
        let wh = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
        let gen = self.decl_params(pr, true);
        if self.is_enum {
            s += &format!("enum {}{gen}{wh} {{\n", pr.name(&self.name));
            for v in &self.variants {
                s += &format!("    {}{}{}{},\n", v.pre, pr.name(&v.name), self.fields_text(pr, v), v.post);
            }
            s += "}\n";
        } else {
            let v = &self.variants[0];
            let body = self.fields_text(pr, v);
            match v.style {
                Style::Named => s += &format!("struct {}{gen}{wh}{body}\n", pr.name(&self.name)),
                _ => s += &format!("struct {}{gen}{body}{wh};\n", pr.name(&self.name)),
            }
        }
        s
    }
}
