//! C12: the errors for input that cannot be derived.
use crate::batch::*;
use crate::json;
use crate::report::Ctx;
use crate::util::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::time::Duration;
use vrt::choice::Src;

/// A type in a generated definition.
#[derive(Clone, Debug)]
enum K {
    /// type parameter by index
    P(usize),
    Closed(&'static str),
    /// path, type arguments
    App(&'static [&'static str], Vec<N>),
    /// const argument tokens and one type argument
    CArr(&'static str, Box<N>),
    Array(Box<N>, &'static str),
    Tuple(Vec<N>),
    Paren(Box<N>),
    Ref(&'static str, bool, Box<N>),
    Ptr(bool, Box<N>),
    Fn(u8, Vec<N>, Box<N>),
    /// only below `Box`
    Slice(Box<N>),
    Dyn(u8, Box<N>, Box<N>),
    /// `<T as As>::X`
    QSelf(Box<N>),
    /// `<u8 as Tr2<T>>::X`
    QArg(Box<N>),
    /// `T::X`
    Short(usize),
    Macro(u8, Option<usize>),
}

#[derive(Clone, Debug)]
struct N {
    k: K,
    /// first and last token
    span: (usize, usize),
}

fn n(k: K) -> N {
    N { k, span: (0, 0) }
}

#[derive(Clone, Debug)]
struct Tok {
    s: String,
    /// not in the control program
    only: bool,
    sep: &'static str,
}

struct Fault {
    /// part of the message; empty: any
    msg: String,
    span: (usize, usize),
    exact: bool,
}

const CLOSED: &[&str] = &["u8", "()", "& 'static str", ":: std :: string :: String", "[ u8 ; 2 ]", "fn ( u8 ) -> u8", "* const u8", "< u8 as As > :: X"];

struct Gen<'a> {
    c: &'a mut Src,
    toks: Vec<Tok>,
    only: bool,
    /// names of type parameters
    tys: Vec<String>,
    lts: Vec<&'static str>,
    /// parameters that need `As`
    assoc: Vec<usize>,
    /// weight of unsupported types
    bad: u32,
    left: i32,
}

impl Gen<'_> {
    fn t(&mut self, s: &str) {
        for s in s.split(' ').filter(|s| !s.is_empty()) {
            let sep = match self.c.weighted(&[60, 3, 1]) {
                0 => " ",
                1 => "\n  ",
                _ => " /* é */ ",
            };
            self.toks.push(Tok { s: s.to_string(), only: self.only, sep });
        }
    }
    fn here(&self) -> usize {
        self.toks.len()
    }
    fn last(&self) -> usize {
        self.toks.len() - 1
    }

    fn ty(&mut self, depth: u32) -> N {
        self.left -= 1;
        let d = |w: u32| if depth > 0 && self.left > 0 { w } else { 0 };
        let b = |w: u32| if depth > 0 && self.left > 0 { w * self.bad } else { 0 };
        let np = self.tys.len() as u32;
        let w = [
            if np > 0 { 8 } else { 0 },
            3,
            d(5),
            d(1),
            d(2),
            d(3),
            d(2),
            if self.lts.is_empty() { 0 } else { b(2) },
            b(2),
            b(2),
            b(1),
            b(2),
            b(1),
            b(1),
            if np > 0 { self.bad } else { 0 },
            self.bad,
        ];
        let k = self.c.weighted(&w);
        let sub = |g: &mut Self| Box::new(g.ty(depth.saturating_sub(1)));
        n(match k {
            0 => K::P(self.c.draw(np) as usize),
            1 => K::Closed(*self.c.pick(CLOSED)),
            2 => {
                const ONE: &[&[&str]] = &[&["Vec"], &["Option"], &[":: std :: boxed ::", "Box"], &[":: std :: marker ::", "PhantomData"], &["std :: collections ::", "VecDeque"]];
                const TWO: &[&[&str]] = &[&["Result"], &["Pair"], &["self ::", "Pair"]];
                if self.c.chance(1, 3) {
                    let p = *self.c.pick(TWO);
                    K::App(p, vec![*sub(self), *sub(self)])
                } else {
                    let p = *self.c.pick(ONE);
                    K::App(p, vec![*sub(self)])
                }
            }
            3 => K::CArr(*self.c.pick(&["2", "{ 1 + 1 }", "W"]), sub(self)),
            4 => K::Array(sub(self), *self.c.pick(&["3", "W"])),
            5 => {
                let m = self.c.draw(4);
                K::Tuple((0..m).map(|_| *sub(self)).collect())
            }
            6 => K::Paren(sub(self)),
            7 => K::Ref(self.lts[0], self.c.chance(1, 3), sub(self)),
            8 => K::Ptr(self.c.chance(1, 2), sub(self)),
            9 => {
                let m = self.c.draw(3);
                K::Fn(self.c.draw(4) as u8, (0..m).map(|_| *sub(self)).collect(), sub(self))
            }
            10 => K::App(&["Box"], vec![n(K::Slice(sub(self)))]),
            11 => K::App(&["Box"], vec![n(K::Dyn(self.c.draw(5) as u8, sub(self), sub(self)))]),
            12 => K::QSelf(sub(self)),
            13 => K::QArg(sub(self)),
            14 => {
                let p = self.c.draw(np) as usize;
                if !self.assoc.contains(&p) {
                    self.assoc.push(p);
                }
                K::Short(p)
            }
            _ => K::Macro(self.c.draw(3) as u8, if np > 0 && self.c.chance(1, 2) { Some(self.c.draw(np) as usize) } else { None }),
        })
    }

    fn emit(&mut self, t: &mut N) {
        let a = self.here();
        match &mut t.k {
            K::P(p) => {
                let s = self.tys[*p].clone();
                // a raw identifier is the same parameter
                if !s.starts_with("r#") && self.c.chance(1, 12) {
                    self.t(&format!("r#{s}"));
                } else {
                    self.t(&s);
                }
            }
            K::Closed(s) => self.t(s),
            K::App(p, ts) => {
                let p: Vec<&str> = p.to_vec();
                for s in p {
                    self.t(s);
                }
                if self.c.chance(1, 8) {
                    self.t("::");
                }
                self.t("<");
                let m = ts.len();
                for (i, x) in ts.iter_mut().enumerate() {
                    self.emit(x);
                    if i + 1 < m || self.c.chance(1, 8) {
                        self.t(",");
                    }
                }
                self.t(">");
            }
            K::CArr(c, x) => {
                self.t("CArr <");
                let c = *c;
                self.t(c);
                self.t(",");
                self.emit(x);
                self.t(">");
            }
            K::Array(x, l) => {
                self.t("[");
                self.emit(x);
                self.t(";");
                let l = *l;
                self.t(l);
                self.t("]");
            }
            K::Tuple(ts) => {
                self.t("(");
                let m = ts.len();
                for (i, x) in ts.iter_mut().enumerate() {
                    self.emit(x);
                    if i + 1 < m || m == 1 || self.c.chance(1, 8) {
                        self.t(",");
                    }
                }
                self.t(")");
            }
            K::Paren(x) => {
                self.t("(");
                self.emit(x);
                self.t(")");
            }
            K::Ref(l, m, x) => {
                self.t("&");
                let l = *l;
                self.t(l);
                if *m {
                    self.t("mut");
                }
                self.emit(x);
            }
            K::Ptr(m, x) => {
                self.t(if *m { "* mut" } else { "* const" });
                self.emit(x);
            }
            K::Fn(v, ts, r) => {
                let z = ["fn (", "unsafe fn (", "extern \"C\" fn (", "for < 'z > fn ( & 'z u8 ,"][*v as usize].replace("'z", &format!("'z{}", self.here()));
                self.t(&z);
                for x in ts.iter_mut() {
                    if self.c.chance(1, 4) {
                        self.t("x :");
                    }
                    self.emit(x);
                    self.t(",");
                }
                self.t(") ->");
                self.emit(r);
            }
            K::Slice(x) => {
                self.t("[");
                self.emit(x);
                self.t("]");
            }
            K::Dyn(v, x, y) => {
                let v = *v;
                match v {
                    0 | 1 => {
                        self.t("dyn Tr <");
                        self.emit(x);
                        self.t(">");
                        if v == 1 {
                            self.t("+ Send");
                        }
                    }
                    2 | 3 => {
                        let z = if v == 2 { "dyn Fn (" } else { "dyn for < 'z > Fn ( & 'z u8 ," }.replace("'z", &format!("'z{}", self.here()));
                        self.t(&z);
                        self.emit(x);
                        self.t(") ->");
                        self.emit(y);
                    }
                    _ => {
                        self.t("dyn As < X =");
                        self.emit(x);
                        self.t(">");
                    }
                }
            }
            K::QSelf(x) => {
                self.t("<");
                self.emit(x);
                self.t("as As > :: X");
            }
            K::QArg(x) => {
                self.t("< u8 as Tr2 <");
                self.emit(x);
                self.t("> > :: X");
            }
            K::Short(p) => {
                let s = self.tys[*p].clone();
                self.t(&s);
                self.t(":: X");
            }
            K::Macro(v, p) => {
                let p = p.map(|p| self.tys[p].clone()).unwrap_or_default();
                let (a, b) = [("m ! (", ")"), ("m ! [", "]"), ("m ! {", "}")][*v as usize];
                self.t(a);
                self.t(&p);
                self.t(b);
            }
        }
        t.span = (a, self.last());
    }
}

impl N {
    fn kids(&self) -> Vec<&N> {
        match &self.k {
            K::P(_) | K::Closed(_) | K::Short(_) | K::Macro(..) => vec![],
            K::App(_, ts) | K::Tuple(ts) => ts.iter().collect(),
            K::Fn(_, ts, r) => ts.iter().chain(std::iter::once(&**r)).collect(),
            K::Dyn(v, x, y) if *v == 2 || *v == 3 => vec![x, y],
            K::CArr(_, x) | K::Array(x, _) | K::Paren(x) | K::Ref(_, _, x) | K::Ptr(_, x) | K::Slice(x) | K::Dyn(_, x, _) | K::QSelf(x) | K::QArg(x) => {
                vec![x]
            }
        }
    }
    fn dep(&self, p: usize) -> bool {
        match &self.k {
            K::P(q) | K::Short(q) => *q == p,
            _ => self.kids().iter().any(|k| k.dep(p)),
        }
    }
    /// The first unsupported type when mapping over `p`.
    fn fault(&self, p: usize) -> Option<(&'static str, (usize, usize))> {
        let e = |m: &'static str| Some((m, self.span));
        if let K::Macro(..) = self.k {
            return e("`derive` cannot be used on items with type macros");
        }
        if !self.dep(p) {
            return None;
        }
        match &self.k {
            K::P(_) => None,
            K::App(_, ts) => ts.iter().filter(|t| t.dep(p)).find_map(|t| t.fault(p)),
            K::Tuple(ts) => ts.iter().find_map(|t| t.fault(p)),
            K::CArr(_, t) | K::Array(t, _) | K::Paren(t) => t.fault(p),
            K::Ref(..) => e("mapping over reference type is not supported"),
            K::Ptr(..) => e("mapping over pointer type is not supported"),
            K::Fn(..) => e("mapping over function type is not supported"),
            K::Slice(..) => e("mapping over slice type is not supported"),
            K::Dyn(..) => e("mapping over trait object type is not supported"),
            K::QSelf(_) | K::QArg(_) | K::Short(_) => e("mapping over type with associated item is not supported"),
            K::Closed(_) | K::Macro(..) => unreachable!(),
        }
    }
}

const PRELUDE: &str = "macro_rules! m { ($($t:tt)*) => { u8 } }\npub trait As { type X; }\nimpl<T: ?Sized> As for T { type X = u8; }\npub trait Tr<T> {}\npub trait Tr2<T> { type X; }\nimpl<T> Tr2<T> for u8 { type X = u8; }\npub const W: usize = 2;\n";
const HELPERS: &str = "pub struct Pair<A, B>(pub A, pub B);\n";
const CARR: &str = "pub struct CArr<const N: usize, A>(pub [A; N]);\n";

/// What an attribute on the item is.
enum At {
    /// options, as tokens, with their meaning
    Ok(Vec<Opt>),
    /// well-formed options in front, then this with the offending token, if any
    Bad(Vec<Opt>, &'static str, Option<usize>, &'static str),
}
#[derive(Clone)]
enum Opt {
    Crate(&'static str),
    Params(Vec<String>),
}

const ARGS: &str = "expected one of these arguments: `crate`, `params`";
const NAME: &str = "expected name of generic parameter";
/// faulty arguments, index of the offending token, message
const BAD: &[(&str, Option<usize>, &str)] = &[
    ("foo", Some(0), ARGS),
    ("Params ( T )", Some(0), ARGS),
    ("param ( T )", Some(0), ARGS),
    ("\"x\"", Some(0), ARGS),
    (",", Some(0), ARGS),
    ("T", Some(0), ARGS),
    ("r#params ( T )", Some(0), ARGS),
    ("( params ( T ) )", Some(0), ARGS),
    ("params ( )", None, NAME),
    ("params ( 1 )", Some(2), NAME),
    ("params ( T , \"U\" )", Some(4), NAME),
    ("params ( T , , U )", Some(4), NAME),
    ("params ( :: T )", Some(2), NAME),
    ("params ( self )", Some(2), NAME),
    ("params ( _ )", Some(2), NAME),
    ("params ( fn , T )", Some(2), NAME),
    ("params", None, ""),
    ("params = T", None, ""),
    ("params T", None, ""),
    ("params [ T ]", None, ""),
    ("params ( T U )", None, ""),
    ("params ( T : Copy )", None, ""),
    ("crate", None, ""),
    ("crate \"funcmap\"", None, ""),
    ("crate = 1", None, ""),
    ("crate = funcmap", None, ""),
    ("crate ( \"funcmap\" )", None, ""),
    ("crate = \"\"", Some(2), "expected path"),
    ("crate = \"a~b\"", Some(2), "expected path"),
    ("crate = \"a:::b\"", Some(2), "expected path"),
    ("crate = \"(\"", Some(2), "expected path"),
    ("crate = \"a'\"", Some(2), "expected path"),
    ("crate = \"\\\\\"", Some(2), "expected path"),
    ("crate = \"1\"", Some(2), "expected path"),
    ("crate = \"&x\"", Some(2), "expected path"),
    ("crate = \"fn\"", Some(2), "expected path"),
    ("crate = \"<x>::y\"", Some(2), "expected path"),
    ("crate = \"funcmap<u8>\"", Some(2), "expected path"),
    ("crate = \"::funcmap::<>\"", Some(2), "expected path"),
    ("crate = \"a(u8)::b\"", Some(2), "expected path"),
    ("crate = \"::funcmap\" params ( T )", None, ""),
    ("params ( T ) crate = \"::funcmap\"", None, ""),
];

struct Made {
    case: CaseText,
}

fn make(c: &mut Src) -> Made {
    let mut g = Gen { c, toks: vec![], only: false, tys: vec![], lts: vec![], assoc: vec![], bad: 1, left: 30 };
    g.bad = *g.c.pick(&[1, 0, 2]);
    let mut classes: Vec<String> = vec![];
    let mut faults: Vec<Fault> = vec![];
    // parameters: kind (0 lifetime, 1 type, 2 const), name
    let mut params: Vec<(u8, String)> = vec![];
    for l in ["'a", "'b"] {
        if g.c.chance(1, 3) {
            params.push((0, l.into()));
        }
    }
    let mut names = vec!["T", "U", "V", "r#type", "Foo"];
    let nt = if g.c.chance(1, 10) { 0 } else { g.c.range(1, 3) };
    let nc = g.c.weighted(&[4, 1]) as u32;
    let mut rest: Vec<(u8, String)> = vec![];
    for _ in 0..nt {
        let k = g.c.draw(names.len() as u32) as usize;
        rest.push((1, names.remove(k).into()));
    }
    for _ in 0..nc {
        let k = g.c.draw(rest.len() as u32 + 1) as usize;
        rest.insert(k, (2, "M".into()));
    }
    params.extend(rest);
    g.tys = params.iter().filter(|p| p.0 == 1).map(|p| p.1.clone()).collect();
    g.lts = params.iter().filter(|p| p.0 == 0).map(|p| if p.1 == "'a" { "'a" } else { "'b" }).collect();
    let kind = g.c.weighted(&[6, 4, 1]);

    // ---- attributes of the item
    let mut ats: Vec<At> = vec![];
    let opts = |g: &mut Gen, faulty: bool| -> Vec<Opt> {
        let mut v = vec![];
        let m = g.c.range(1, 2);
        for _ in 0..m {
            if g.c.chance(1, 4) {
                v.push(Opt::Crate(*g.c.pick(&["::funcmap", "funcmap", "crate::funcmap"])));
            } else {
                let k = g.c.range(1, 3);
                let mut l = vec![];
                for _ in 0..k {
                    let known: Vec<String> = params.iter().filter(|p| p.0 == 1).map(|p| p.1.clone()).collect();
                    if !known.is_empty() && !(faulty && g.c.chance(1, 4)) {
                        l.push(g.c.pick(&known).clone());
                    } else {
                        let other = ["Zz", "'q", "M", "'a", "t", "'b", "N", "r#Zz", "r#M", "'static", "u8"];
                        l.push(g.c.pick(&other).to_string());
                    }
                }
                v.push(Opt::Params(l));
            }
        }
        v
    };
    // duplicates are removed unless options may be at fault
    let mode = g.c.weighted(&[3, 4, 2, 2]);
    if mode > 0 {
        let m = g.c.range(1, 3);
        for _ in 0..m {
            let o = opts(&mut g, mode == 3);
            if mode == 2 && g.c.chance(1, 2) {
                let (t, at, msg) = *g.c.pick(BAD);
                let front = if g.c.chance(1, 3) { o } else { vec![] };
                ats.push(At::Bad(front, t, at, msg));
            } else {
                ats.push(At::Ok(o));
            }
        }
    }
    let unraw = |s: &str| s.trim_start_matches("r#").to_string();
    if mode == 1 || mode == 3 && g.c.chance(3, 4) {
        // without duplicates, and without unknown names in mode 1
        let mut seen: Vec<String> = vec![];
        let mut krate = false;
        for a in &mut ats {
            if let At::Ok(os) = a {
                for o in os.iter_mut() {
                    if let Opt::Params(l) = o {
                        l.retain(|s| {
                            let ok = (mode == 3 || params.iter().any(|p| p.0 == 1 && p.1 == *s)) && !seen.contains(&unraw(s));
                            seen.push(unraw(s));
                            ok
                        });
                    }
                }
                os.retain(|o| match o {
                    Opt::Params(l) => !l.is_empty(),
                    Opt::Crate(_) => !std::mem::replace(&mut krate, true),
                });
            }
        }
        ats.retain(|a| !matches!(a, At::Ok(o) if o.is_empty()));
    }

    // ---- the item
    let fallible = g.c.chance(1, 2);
    let mut opt_faults: Vec<Fault> = vec![];
    let mut listed: Vec<(String, (usize, usize))> = vec![];
    let mut have_crate = false;
    g.only = true;
    let emit_derive = |g: &mut Gen| {
        g.t("# [ derive (");
        g.t(if fallible { ":: funcmap :: TryFuncMap" } else { ":: funcmap :: FuncMap" });
        g.t(") ]");
    };
    emit_derive(&mut g);
    let emit_opt = |g: &mut Gen, o: &Opt| -> Vec<(Option<String>, (usize, usize))> {
        let mut out = vec![];
        match o {
            Opt::Crate(p) => {
                g.t("crate =");
                g.t(&format!("\"{p}\""));
                out.push((None, (g.last(), g.last())));
            }
            Opt::Params(l) => {
                g.t("params (");
                for (i, s) in l.iter().enumerate() {
                    if i > 0 {
                        g.t(",");
                    }
                    g.t(s);
                    out.push((Some(s.clone()), (g.last(), g.last())));
                }
                if g.c.chance(1, 6) {
                    g.t(",");
                }
                g.t(")");
            }
        }
        out
    };
    for a in &ats {
        let start = g.here();
        if g.c.chance(1, 8) {
            g.t("# [ allow ( unused ) ]");
        }
        match a {
            At::Ok(os) => {
                // delimiters do not matter
                let (l, r) = *g.c.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
                g.t("# [ funcmap");
                g.t(l);
                for (i, o) in os.iter().enumerate() {
                    if i > 0 {
                        g.t(",");
                    }
                    for (s, span) in emit_opt(&mut g, o) {
                        match s {
                            None => {
                                if std::mem::replace(&mut have_crate, true) {
                                    opt_faults.push(Fault { msg: "duplicate crate path".into(), span, exact: true });
                                }
                            }
                            Some(s) => {
                                if listed.iter().any(|l| unraw(&l.0) == unraw(&s)) {
                                    opt_faults.push(Fault { msg: "duplicate parameter".into(), span, exact: true });
                                } else {
                                    listed.push((s, span));
                                }
                            }
                        }
                    }
                }
                if g.c.chance(1, 6) {
                    g.t(",");
                }
                g.t(r);
                g.t("]");
            }
            At::Bad(front, t, at, msg) => {
                match g.c.draw(12) {
                    0 => {
                        g.t("# [ funcmap ]");
                        opt_faults.push(Fault { msg: String::new(), span: (start, g.last()), exact: false });
                        continue;
                    }
                    1 => {
                        g.t("# [ funcmap = \"x\" ]");
                        opt_faults.push(Fault { msg: String::new(), span: (start, g.last()), exact: false });
                        continue;
                    }
                    2 => {
                        g.t("# [ funcmap ( ) ]");
                        opt_faults.push(Fault { msg: "expected at least one argument".into(), span: (start, g.last()), exact: false });
                        continue;
                    }
                    _ => {}
                }
                g.t("# [ funcmap (");
                for o in front {
                    emit_opt(&mut g, o);
                    g.t(",");
                }
                let b = g.here();
                g.t(t);
                g.t(") ]");
                let span = match at {
                    Some(k) => (b + k, b + k),
                    None => (start, g.last()),
                };
                opt_faults.push(Fault { msg: msg.to_string(), span, exact: at.map(|k| !g.toks[b + k].s.starts_with("::")).unwrap_or(false) });
            }
        }
    }
    g.only = false;
    if g.c.chance(1, 2) {
        g.t("pub");
    }
    let head = g.here();
    g.t(["struct", "enum", "union"][kind]);
    g.t("Main");
    let name_tok = g.last();
    let open = g.here();
    if !params.is_empty() || g.c.chance(1, 4) {
        g.t("<");
        for (i, (k, s)) in params.iter().enumerate() {
            if i > 0 {
                g.t(",");
            }
            if *k == 2 {
                g.t("const");
                g.t(s);
                g.t(": usize");
            } else {
                g.t(s);
            }
        }
        g.t(">");
    }
    let generics = if params.is_empty() { (name_tok, name_tok) } else { (open, g.last()) };

    // fields are generated now as bounds depend on them
    struct F {
        attrs: u32,
        name: Option<&'static str>,
        ty: N,
    }
    struct V {
        attrs: u32,
        style: u8,
        fields: Vec<F>,
    }
    let attr_rate = if g.c.chance(1, 5) { 3 } else { 0 };
    let at = |g: &mut Gen| if attr_rate > 0 && g.c.chance(1, attr_rate) { g.c.range(1, 2) } else { 0 };
    let nv = if kind == 1 { g.c.range(1, 3) } else { 1 };
    let mut vs: Vec<V> = vec![];
    for _ in 0..nv {
        let style = if kind == 2 { 0 } else { g.c.draw(2) as u8 };
        let nf = g.c.range(if kind == 0 { 1 } else { 0 }, 4);
        let mut fs = vec![];
        for i in 0..nf.max((kind == 2) as u32) {
            let ty = if kind == 2 { n(K::Closed("u8")) } else { g.ty(3) };
            let name = if style == 0 { Some(["a", "r#fn", "c", "value", "e"][i as usize]) } else { None };
            fs.push(F { attrs: at(&mut g), name, ty });
        }
        vs.push(V { attrs: if kind == 1 { at(&mut g) } else { 0 }, style, fields: fs });
    }
    // all parameters are used
    let mut extra: Vec<N> = vec![];
    for (k, s) in &params {
        match k {
            0 => extra.push(n(K::Ref(if s == "'a" { "'a" } else { "'b" }, false, Box::new(n(K::Closed("u8")))))),
            1 => {
                let p = g.tys.iter().position(|t| t == s).unwrap();
                extra.push(n(K::App(&[":: std :: marker ::", "PhantomData"], vec![n(K::P(p))])));
            }
            _ => {}
        }
    }
    {
        let style = vs[0].style;
        for (i, ty) in extra.into_iter().enumerate() {
            let name = if style == 0 { Some(["x0", "x1", "x2", "x3", "x4", "x5"][i]) } else { None };
            vs[0].fields.push(F { attrs: 0, name, ty });
        }
    }
    let wh = |g: &mut Gen| {
        if !g.assoc.is_empty() {
            g.t("where");
            for p in g.assoc.clone() {
                let s = g.tys[p].clone();
                g.t(&s);
                g.t(": As ,");
            }
        }
    };
    let mut field_attr_faults: Vec<Fault> = vec![];
    let mut attrs = |g: &mut Gen, m: u32, what: &str| {
        for _ in 0..m {
            g.only = true;
            if g.c.chance(1, 4) {
                g.t("# [ allow ( unused ) ]");
            }
            let a = g.here();
            let text = *g.c.pick(&["# [ funcmap ]", "# [ funcmap ( params ( T ) ) ]", "# [ funcmap ( crate = \"x\" ) ]", "# [ funcmap = 1 ]", "# [ funcmap [ , ] ]"]);
            g.t(text);
            g.only = false;
            let msg = format!("#[funcmap] helper attribute is not supported for {what}");
            field_attr_faults.push(Fault { msg, span: (a, g.last()), exact: true });
        }
    };
    let body = |g: &mut Gen, v: &mut V, attrs: &mut dyn FnMut(&mut Gen, u32, &str)| {
        let (l, r) = if v.style == 0 { ("{", "}") } else { ("(", ")") };
        g.t(l);
        let m = v.fields.len();
        for (i, f) in v.fields.iter_mut().enumerate() {
            attrs(g, f.attrs, "fields");
            if let Some(s) = f.name {
                g.t(s);
                g.t(":");
            }
            g.emit(&mut f.ty);
            if i + 1 < m || g.c.chance(1, 4) {
                g.t(",");
            }
        }
        g.t(r);
    };
    match kind {
        1 => {
            wh(&mut g);
            g.t("{");
            for (i, v) in vs.iter_mut().enumerate() {
                attrs(&mut g, v.attrs, "variants");
                g.t(["A", "B", "Output"][i]);
                if v.fields.is_empty() && g.c.chance(1, 2) {
                    // unit
                } else {
                    body(&mut g, v, &mut attrs);
                }
                g.t(",");
            }
            g.t("}");
        }
        _ => {
            let tuple = vs[0].style == 1;
            if !tuple {
                wh(&mut g);
            }
            body(&mut g, &mut vs[0], &mut attrs);
            if tuple {
                wh(&mut g);
                g.t(";");
            }
        }
    }

    // ---- the model
    let mut seen: BTreeMap<(String, (usize, usize)), ()> = BTreeMap::new();
    let mut push = |f: Fault, faults: &mut Vec<Fault>| {
        if seen.insert((f.msg.clone(), f.span), ()).is_none() {
            faults.push(f);
        }
    };
    if !opt_faults.is_empty() {
        classes.push("faulty options".into());
        for f in opt_faults {
            push(f, &mut faults);
        }
    } else {
        let mut mapped: Vec<usize> = vec![];
        for (s, span) in &listed {
            let p = params.iter().position(|p| unraw(&p.1) == unraw(s));
            let msg = match p.map(|p| params[p].0) {
                Some(1) => {
                    mapped.push(g.tys.iter().position(|t| unraw(t) == unraw(s)).unwrap());
                    continue;
                }
                Some(0) => "cannot implement FuncMap over lifetime parameter",
                Some(_) => "cannot implement FuncMap over const generic",
                None => "unknown generic parameter",
            };
            classes.push("faulty params".into());
            push(Fault { msg: msg.into(), span: *span, exact: true }, &mut faults);
        }
        if g.tys.is_empty() {
            classes.push("no type parameter".into());
            push(Fault { msg: "expected at least one type parameter, found none".into(), span: generics, exact: true }, &mut faults);
        }
        if kind == 2 {
            classes.push("union".into());
            push(Fault { msg: "expected a struct or an enum, found a union".into(), span: (head, head), exact: true }, &mut faults);
        } else {
            if !field_attr_faults.is_empty() {
                classes.push("options on fields or variants".into());
            }
            for f in field_attr_faults {
                push(f, &mut faults);
            }
        }
        if faults.is_empty() {
            if mapped.is_empty() {
                mapped = (0..g.tys.len()).collect();
            }
            mapped.sort();
            for p in mapped {
                for f in vs.iter().flat_map(|v| v.fields.iter()) {
                    if let Some((m, span)) = f.ty.fault(p) {
                        classes.push("unsupported types".into());
                        push(Fault { msg: m.into(), span, exact: true }, &mut faults);
                    }
                }
            }
        }
    }
    if faults.is_empty() {
        classes.push("nothing at fault".into());
    }
    if faults.len() > 1 {
        classes.push("several faults".into());
    }
    classes.sort();
    classes.dedup();

    // ---- the text
    let d = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n";
    let mut module = format!("{PRELUDE}{d}{HELPERS}{d}{CARR}");
    let mut bare = format!("{PRELUDE}{HELPERS}{CARR}");
    let mut line = module.lines().count() + 1;
    let mut col = 1;
    // position of the first and behind the last character
    let mut pos: Vec<((usize, usize), (usize, usize))> = vec![];
    let mut sample = String::new();
    for t in &g.toks {
        let a = (line, col);
        let e = (line, col + t.s.chars().count());
        pos.push((a, e));
        col = e.1;
        for ch in t.sep.chars() {
            if ch == '\n' {
                line += 1;
                col = 1;
            } else {
                col += 1;
            }
        }
        sample += &t.s;
        sample += t.sep;
        if !t.only {
            bare += &t.s;
            bare += t.sep;
        }
    }
    module += &sample;
    module += "\n";
    bare += "\n";
    for f in &faults {
        let (a, b) = (pos[f.span.0].0, pos[f.span.1].1);
        module += &format!("//@ {} {} {} {} {} {}\n", if f.exact { "at" } else { "in" }, a.0, a.1, b.0, b.1, f.msg);
        sample += &format!("\n// expected {}:{} to {}:{}: {}", a.0, a.1, b.0, b.1, f.msg);
    }
    let nontrivial = faults.len() > 1 || (faults.len() == 1 && vs.iter().map(|v| v.fields.len()).sum::<usize>() > 2);
    Made { case: CaseText { module, bare, runs: false, nontrivial, classes, sample, ..Default::default() } }
}

/// Compiles the faulty definitions and compares the diagnostics.
fn judge(env: &Env, cases: &[CaseText]) -> Vec<Outcome> {
    let mut res: Vec<Option<Outcome>> = vec![None; cases.len()];
    let good: Vec<usize> = (0..cases.len()).filter(|i| !cases[*i].module.contains("\n//@ ")).collect();
    let gc: Vec<CaseText> = good.iter().map(|i| cases[*i].clone()).collect();
    for (i, o) in good.iter().zip(run_cases(env, &gc)) {
        res[*i] = Some(o);
    }
    let bad: Vec<usize> = (0..cases.len()).filter(|i| res[*i].is_none()).collect();
    let chunks: Vec<&[usize]> = bad.chunks(env.size).collect();
    let outs = par(&chunks, workers(), |k, ch| {
        let dir = env.dir.join(format!("e{k}"));
        let compile = |set: &[usize], bare: bool| {
            let d = dir.join(if bare { "c" } else { "r" });
            let set: Vec<(usize, &CaseText)> = set.iter().map(|i| (*i, &cases[*i])).collect();
            let mut env = env.clone();
            if bare {
                env.head += "pub extern crate funcmap;\n";
            }
            let src = write_crate(&env, &d, &set, bare);
            let r = run(&mut env.rustc(&src, &d.join("t.rmeta"), false), Duration::from_secs(120));
            let _ = fs::remove_dir_all(&d);
            if r.timed_out {
                die("rustc timed out");
            }
            r
        };
        let mut out: Vec<(usize, Outcome)> = vec![];
        let mut live: Vec<usize> = ch.to_vec();
        loop {
            let e = parse_errors(&compile(&live, true).err);
            if !e.other.is_empty() && e.by_file.is_empty() {
                die(&format!("control programs fail: {}", e.other));
            }
            if e.by_file.is_empty() {
                break;
            }
            for i in &live {
                if let Some(t) = e.by_file.get(&format!("case{i}.rs")) {
                    out.push((*i, Outcome::Invalid(t.clone())));
                }
            }
            live.retain(|i| !e.by_file.contains_key(&format!("case{i}.rs")));
        }
        if live.is_empty() {
            return out;
        }
        let r = compile(&live, false);
        // file -> message, position
        let mut got: BTreeMap<String, Vec<(String, [i64; 4], String)>> = BTreeMap::new();
        for l in r.err.lines() {
            let Some(j) = json::parse(l) else { continue };
            if !j.get("level").str().starts_with("error") || j.get("message").str().starts_with("aborting due to") {
                continue;
            }
            let mut hit = false;
            for s in j.get("spans").arr() {
                let name = Path::new(s.get("file_name").str()).file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
                if s.get("is_primary").bool() && name.starts_with("case") {
                    let p = ["line_start", "column_start", "line_end", "column_end"].map(|k| s.get(k).num());
                    got.entry(name).or_default().push((j.get("message").str().into(), p, j.get("rendered").str().into()));
                    hit = true;
                    break;
                }
            }
            if !hit {
                got.entry(String::new()).or_default().push((j.get("message").str().into(), [0; 4], j.get("rendered").str().into()));
            }
        }
        let stray = got.remove("").unwrap_or_default();
        for i in &live {
            let list = got.remove(&format!("case{i}.rs")).unwrap_or_default();
            out.push((*i, compare(&cases[*i], &list, &stray)));
        }
        out
    });
    for (i, o) in outs.into_iter().flatten() {
        res[i] = Some(o);
    }
    res.into_iter().map(|o| o.unwrap()).collect()
}

fn compare(case: &CaseText, got: &[(String, [i64; 4], String)], stray: &[(String, [i64; 4], String)]) -> Outcome {
    let mut want: Vec<(bool, [i64; 4], String)> = vec![];
    for l in case.module.lines() {
        if let Some(r) = l.strip_prefix("//@ ") {
            let p: Vec<&str> = r.splitn(6, ' ').collect();
            let k = |i: usize| p[i].parse::<i64>().unwrap();
            want.push((p[0] == "at", [k(1), k(2), k(3), k(4)], p.get(5).unwrap_or(&"").to_string()));
        }
    }
    let ok = want.len() == got.len()
        && want.iter().zip(got).all(|(w, g)| {
            let inside = (g.1[0], g.1[1]) >= (w.1[0], w.1[1]) && (g.1[2], g.1[3]) <= (w.1[2], w.1[3]);
            g.0.contains(&w.2) && if w.0 { g.1 == w.1 } else { inside }
        });
    if ok {
        return Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 };
    }
    let mut s = String::from("expected errors:\n");
    for w in &want {
        s += &format!("  {}:{} to {}:{}: {}\n", w.1[0], w.1[1], w.1[2], w.1[3], w.2);
    }
    s += "errors:\n";
    for g in got {
        s += &format!("  {}:{} to {}:{}: {}\n", g.1[0], g.1[1], g.1[2], g.1[3], g.0);
    }
    for g in stray {
        s += &format!("  elsewhere: {}\n", g.2);
    }
    Outcome::RunFail(s)
}

pub fn c12(ctx: &mut Ctx) -> ! {
    let mut env = Env::new(ctx, "");
    env.rounds = 1;
    env.size = 40;
    campaign_with(ctx, &env, ctx.n(10000, 120000), "gen", &|c| make(c).case, &judge);
    ctx.finish("random definitions in which unsupported types, faulty options, entries and attributes, unions and missing type parameters are placed at random; the list of errors of the expansion (message and position, in order) is compared with a model, and definitions without a fault have to be accepted. Non-trivial: several faults, or one fault among at least three fields.")
}
