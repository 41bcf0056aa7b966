//! C13: arbitrary items for the macros: no panics, parseable output, the same output every time.
use crate::batch::*;
use crate::json;
use crate::report::Ctx;
use crate::util::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;
use std::time::Duration;
use vrt::choice::{mix, Rng, Src};

struct G<'a> {
    c: &'a mut Src,
    left: i32,
    /// generic parameters
    ps: Vec<String>,
    mac: bool,
    /// mostly what can be derived
    mild: bool,
    /// only names that are no parameters
    indep: u32,
    /// the type parameters of the item
    tps: Vec<String>,
}

const IDENTS: &[&str] = &[
    "T", "U", "A", "B", "E", "F", "f", "x", "value", "Output", "r#type", "r#T", "r#fn", "union", "auto", "default", "été", "_x", "__", "Ω", "r#Ж", "É1", "𝔸", "ǅ", "Z", "A1",
    "Ok", "Some", "Sized", "core", "std", "funcmap", "FuncMap", "TypeParam", "field_0", "Vec", "C", "D", "r#union", "macro_rules", "raw", "safe",
];
const LTS: &[&str] = &["'a", "'b", "'static", "'_", "'r#x", "'é", "'T"];

impl G<'_> {
    fn d(&mut self, n: u32) -> u32 {
        self.c.draw(n)
    }
    fn p(&mut self, s: &[&'static str]) -> String {
        s[self.c.draw(s.len() as u32) as usize].to_string()
    }
    fn ident(&mut self) -> String {
        if self.mild && self.indep > 0 {
            return self.p(&["u8", "x_", "Vec", "r#type_", "Opt", "µ"]);
        }
        if !self.ps.is_empty() && self.c.chance(1, 2) {
            let k = self.d(self.ps.len() as u32) as usize;
            return self.ps[k].clone();
        }
        self.p(IDENTS)
    }
    fn lt(&mut self) -> String {
        self.p(LTS)
    }
    fn without<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        self.indep += 1;
        let r = f(self);
        self.indep -= 1;
        r
    }
    fn list(&mut self, lo: u32, hi: u32, sep: &str, f: &mut dyn FnMut(&mut Self) -> String) -> String {
        let n = self.c.range(lo, hi);
        let v: Vec<String> = (0..n).map(|_| f(self)).collect();
        let mut s = v.join(sep);
        if n > 0 && sep == ", " && self.c.chance(1, 6) {
            s += ",";
        }
        s
    }

    fn expr(&mut self, d: u32) -> String {
        if self.mild && self.indep == 0 && self.c.chance(3, 4) {
            return self.without(|g| g.expr(d));
        }
        self.left -= 1;
        let k = if d == 0 || self.left <= 0 { self.d(6) } else { self.d(20) };
        let e = |g: &mut Self| g.expr(d - 1);
        match k {
            0 => self.p(&["0", "1u8", "'c'", "\"s\"", "b\"s\"", "1.5e3", "true", "r#\"x\"#", "-1", "0x_f", "b'x'"]),
            1 => self.ident(),
            2 => "{ 3 }".into(),
            3 => self.p(&["()", "[]", "..", "S {}", "m!()", "m![T]", "m!{ T , }", "Self::X", "<T as Tr>::C", "T::X::<T>"]),
            4 => format!("::{}::{}", self.ident(), self.ident()),
            5 => self.p(&["return", "{ struct X<T>(T); 3 }", "{ fn g<A>(a: A) -> A { a } 0 }", "'l: loop { break 'l }", "|a, b: T| a", "async {}", "unsafe { x }", "{ use a::b as c; macro_rules! q { ($x:ty) => { $x } } 1 }"]),
            6 => format!("{} + {}", e(self), e(self)),
            7 => format!("({})", e(self)),
            8 => format!("[{}; {{ {} }}]", e(self), e(self)),
            9 => format!("f::<{}>({}, {})", self.ty(d - 1), e(self), e(self)),
            10 => format!("match {} {{ S {{ a, .. }} if a => {}, [x @ .., _] | (y, &z) => {{}} _ => {{}} }}", self.p(&["x", "(y)"]), e(self)),
            11 => format!("({}) as {}", e(self), self.p(&["u8", "usize", "T", "Vec<T>"])),
            12 => format!("if let Some({}) = {} {{ {} }} else {{ 1 }}", self.p(&["x", "ref mut y", "_"]), self.p(&["x", "(y)"]), e(self)),
            13 => format!("{{ let x: {} = {}; x }}", self.ty(d - 1), e(self)),
            14 => format!("&mut *{}", self.ident()),
            15 => format!("{}.{}().0[{}]", self.ident(), self.p(&["len", "r#fn", "f::<u8>"]), e(self)),
            16 => format!("S {{ a: {}, ..{} }}", e(self), self.p(&["x", "D::d()"])),
            17 => format!("({}, {})", e(self), e(self)),
            18 => format!("<{}>::{}", self.ty(d - 1), self.ident()),
            _ => format!("{{ const {{ {} }} }}", e(self)),
        }
    }

    fn arg(&mut self, d: u32) -> String {
        match self.d(14) {
            0 => self.lt(),
            1 => self.p(&["3", "-1", "'c'", "true", "\"s\"", "0u8"]),
            2 => format!("{{ {} }}", self.expr(d)),
            3 if d > 0 => format!("{} = {}", self.ident(), self.ty(d - 1)),
            4 if d > 0 => format!("{}: {}", self.ident(), self.bounds(d - 1, 1)),
            5 if d > 0 => format!("{}<{}> = {}", self.ident(), self.lt(), self.ty(d - 1)),
            _ => self.ty(d),
        }
    }
    fn args(&mut self, d: u32) -> String {
        if self.mild {
            let mut v: Vec<String> = (0..self.c.small(2)).map(|_| self.lt()).collect();
            for _ in 0..self.c.range(0, 3) {
                v.push(match self.d(10) {
                    0 => self.p(&["3", "-1", "'c'", "true", "\"s\"", "0u8"]),
                    1 => format!("{{ {} }}", self.expr(d)),
                    _ => self.ty(d),
                });
            }
            if d > 0 && self.c.chance(1, 10) {
                v.push(self.without(|g| match g.d(2) {
                    1 => format!("{}<{}> = {}", g.ident(), g.lt(), g.ty(d - 1)),
                    _ => format!("{} = {}", g.ident(), g.ty(d - 1)),
                }));
            }
            let c = if !v.is_empty() && self.c.chance(1, 8) { "," } else { "" };
            return format!("<{}{c}>", v.join(", "));
        }
        let mut g = |g: &mut Self| g.arg(d);
        format!("<{}>", self.list(0, 3, ", ", &mut g))
    }
    fn seg(&mut self, d: u32) -> String {
        let i = match self.d(16) {
            0 if !self.mild => self.p(&["self", "super", "crate", "Self"]),
            _ => self.ident(),
        };
        match if d > 0 { self.d(8) } else { 0 } {
            1 | 2 | 3 => format!("{i}{}", self.args(d - 1)),
            4 => format!("{i}::{}", self.args(d - 1)),
            5 if self.mild => i,
            5 if self.c.chance(1, 2) => {
                let mut f = |g: &mut Self| g.ty(d - 1);
                let l = self.list(0, 2, ", ", &mut f);
                let r = if self.c.chance(1, 2) { format!(" -> {}", self.ty_nb(d - 1)) } else { String::new() };
                format!("{i}({l}){r}")
            }
            _ => i,
        }
    }
    fn path(&mut self, d: u32) -> String {
        let lead = if self.c.chance(1, 8) { "::" } else { "" };
        let n = [1, 1, 1, 1, 2, 2, 3][self.d(7) as usize];
        let v: Vec<String> = (0..n)
            .map(|i| if self.mild && i + 1 < n { self.without(|g| g.seg(d)) } else { self.seg(d) })
            .collect();
        format!("{lead}{}", v.join("::"))
    }
    fn binder(&mut self) -> String {
        match self.d(6) {
            0 => "for<'z> ".into(),
            1 => "for<> ".into(),
            2 => "for<'z, 'y: 'z> ".into(),
            _ => String::new(),
        }
    }
    fn bound(&mut self, d: u32, top: bool) -> String {
        match self.d(12) {
            0 | 1 => self.lt(),
            2 if self.mild && !top => self.path(d),
            2 => self.p(&["?Sized", "?core::marker::Sized", "(?Sized)"]),
            3 => {
                let b = self.binder();
                format!("({b}{})", self.path(d))
            }
            4 => self.p(&["Fn(T) -> U", "FnMut(&T)", "FnOnce() -> !", "Iterator<Item = T>", "Tr<T, X: Copy>"]),
            _ => {
                let b = self.binder();
                format!("{b}{}", self.path(d))
            }
        }
    }
    fn bounds(&mut self, d: u32, lo: u32) -> String {
        let mut f = |g: &mut Self| g.bound(d, false);
        let mut s = self.list(lo, 3, " + ", &mut f);
        if lo == 1 && self.mild {
            s = format!("{} + {s}", self.path(d));
        }
        if !s.is_empty() && self.c.chance(1, 10) {
            s += " +";
        }
        s
    }

    fn top_bounds(&mut self) -> String {
        let mut f = |g: &mut Self| g.bound(2, true);
        self.list(0, 3, " + ", &mut f)
    }

    /// Without a `+` at the end.
    fn ty_nb(&mut self, d: u32) -> String {
        let t = self.ty(d);
        if t.contains('+') {
            format!("({t})")
        } else {
            t
        }
    }

    fn ty(&mut self, d: u32) -> String {
        self.left -= 1;
        if d == 0 || self.left <= 0 {
            return match self.d(5) {
                0 if self.mild => self.p(&["u8", "()", "!", "&'static str", "m!()", "fn()", "dyn Tr", "[u8]"]).replace("m!()", "Vec<u8>"),
                0 => self.p(&["u8", "()", "!", "_", "Self", "&'static str", "m!()", "fn()", "dyn Tr", "[u8]", "impl Tr"]),
                _ => self.ident(),
            };
        }
        let k = self.d(26);
        if self.mild && self.indep == 0 && matches!(k, 8 | 12..=20) {
            self.indep += 1;
            let s = self.ty_form(k, d);
            self.indep -= 1;
            return s;
        }
        self.ty_form(k, d)
    }
    fn ty_form(&mut self, k: u32, d: u32) -> String {
        match k {
            0 => self.ident(),
            1..=6 => self.path(d - 1),
            7 => format!("[{}; {}]", self.ty(d - 1), self.expr(d - 1)),
            8 => format!("[{}]", self.ty(d - 1)),
            9 | 10 => {
                let mut f = |g: &mut Self| g.ty(d - 1);
                let l = self.list(0, 3, ", ", &mut f);
                format!("({l})")
            }
            11 => format!("({})", self.ty(d - 1)),
            12 => {
                let l = if self.c.chance(1, 2) { self.lt() } else { String::new() };
                let m = if self.c.chance(1, 3) { " mut" } else { "" };
                format!("&{l}{m} {}", self.ty_nb(d - 1))
            }
            13 => format!("*{} {}", self.p(&["const", "mut"]), self.ty_nb(d - 1)),
            14 | 15 => {
                let b = self.binder();
                let q = self.p(&["", "unsafe ", "extern ", "extern \"C\" ", "unsafe extern r\"C\" "]);
                let mut f = |g: &mut Self| {
                    let n = g.p(&["", "", "_: ", "x: ", "#[cfg(all())] x: "]);
                    format!("{n}{}", g.ty(d - 1))
                };
                let l = self.list(0, 3, ", ", &mut f);
                let v = if !l.is_empty() && !l.ends_with(',') && self.c.chance(1, 8) { ", ..." } else { "" };
                let r = if self.c.chance(1, 2) { format!(" -> {}", self.ty_nb(d - 1)) } else { String::new() };
                format!("{b}{q}fn({l}{v}){r}")
            }
            16 | 17 => {
                let k = self.p(&["dyn ", "dyn ", "impl "]);
                format!("{k}{}", self.bounds(d - 1, 1))
            }
            18 if self.mild && self.d(8) > 0 => self.ident(),
            18 => {
                let m = self.p(&["m!()", "m![T]", "m!{ T , 'a }", "a::m!(T)", "::m!(())", "r#m!()"]);
                m
            }
            19 | 20 => {
                let t = self.ty(d - 1);
                let a = if self.c.chance(2, 3) { format!(" as {}", self.path(d - 1)) } else { String::new() };
                format!("<{t}{a}>::{}", self.seg(d - 1))
            }
            21 => {
                // deep nesting
                let n = self.c.range(5, 40);
                let (l, r) = [("(", ",)"), ("(", ")"), ("Vec<", ">"), ("[", "; 1]"), ("Vec<(u8, ", ")>"), ("(", ", u8)"), ("X<u8, ", ">"), ("&'a ", "")][self.d(if self.mild { 7 } else { 8 }) as usize];
                format!("{}{}{}", l.repeat(n as usize), self.ident(), r.repeat(n as usize))
            }
            22 if self.mac => "$t".into(),
            _ => self.ident(),
        }
    }

    fn soup(&mut self, d: u32) -> String {
        let mut f = |g: &mut Self| match g.d(18) {
            0 | 1 => "params".to_string(),
            2 => "crate".into(),
            3 => "=".into(),
            4 | 5 => ",".into(),
            6 => g.p(&["\"funcmap\"", "\"\"", "\"a b\"", "1", "'c'", "\"::x\"", "r#\"y\"#", "b\"z\""]),
            7 | 8 => g.ident(),
            9 => g.lt(),
            10 => g.p(&["::", "_", "&", "-", "<", ">", "#", "!", "+=", "..", "self", "fn", "r#params"]),
            11 if d > 0 => format!("[{}]", g.soup(d - 1)),
            12 if d > 0 => format!("{{{}}}", g.soup(d - 1)),
            _ if d > 0 => format!("({})", g.soup(d - 1)),
            _ => "T".into(),
        };
        self.list(0, 5, " ", &mut f)
    }
    fn opt(&mut self) -> String {
        if self.mild {
            return match self.d(6) {
                0 => "#[funcmap(crate = \"a::b\")]".into(),
                1 => "#[funcmap(crate = \"::r#fn\",)]".into(),
                _ => "#[doc(hidden)]".into(),
            };
        }
        match self.d(8) {
            0 => self.p(&["#[funcmap]", "#[funcmap = \"x\"]", "#[funcmap()]", "#[funcmap{}]", "#[funcmap = 1]"]),
            1 | 2 => format!("#[funcmap({})]", self.soup(2)),
            3 => format!(
                "#[funcmap(crate = {:?})]",
                self.p(&[
                    "funcmap", "a::b", "::x", "r#fn", "é", "self", "Self::x", "<T>::x", "a<T>", "a::<T>", "fn", "", "(", "super::super", "crate", "a(T)", "a::", "T", "A", "f", "1", "a b", "dyn", "_", "::a::<'b>::c", "async",
                    "r#crate", "$crate", "\u{0}"
                ])
            ),
            _ => {
                let mut f = |g: &mut Self| if g.c.chance(1, 8) { g.lt() } else { g.ident() };
                let l = self.list(0, 3, ", ", &mut f);
                format!("#[funcmap(params({l}))]")
            }
        }
    }
    fn attrs(&mut self, o: u32) -> String {
        let n = self.c.small(2);
        let mut s = String::new();
        for _ in 0..n {
            s += &if self.c.chance(if self.mild && o < 5 { 0 } else { o }, 10) {
                self.opt()
            } else {
                self.p(&["#[doc = \"x\"]", "/// doc\n", "#[cfg(all())]", "#[cfg(any())]", "#[allow(unused)]", "#[rustfmt::skip]", "#[cfg_attr(all(), allow(unused))]", "#[cfg_attr(any(), funcmap)]", "/** a */", "#[deprecated]"])
            };
            s += " ";
        }
        s
    }
    fn generics(&mut self) -> (String, String) {
        if !self.mild && self.c.chance(1, 12) {
            return (self.p(&["", "<>"]), String::new());
        }
        let mut names: Vec<String> = vec![];
        let mut defaults = false;
        let n = if self.c.chance(1, 30) { 40 } else { self.c.range(1, 5) };
        let mut ps = vec![];
        let lts = self.c.weighted(&[5, 3, 1]) as u32;
        for _ in 0..lts {
            let mut f = |g: &mut Self| g.lt();
            let b = match self.d(4) {
                0 => format!(": {}", self.list(0, 2, " + ", &mut f)),
                _ => String::new(),
            };
            ps.push((self.p(&["'a", "'b", "'r#x", "'é"]), b));
        }
        for i in 0..n {
            let name = if n > 10 {
                if i < 26 { ((b'A' + i as u8) as char).to_string() } else { format!("{}{}", ["A", "B", "F", "E"][i as usize % 4], i % 7) }
            } else if self.c.chance(3, 4) {
                self.p(&["T", "U", "A", "B", "F", "E", "C", "r#type", "é", "_T", "Ω", "r#Ж", "É", "𝔸", "ǅ", "Z", "__FUNCMAP_A"])
            } else {
                self.p(IDENTS)
            };
            if self.mild && names.contains(&name) {
                continue;
            }
            names.push(name.clone());
            let mild = self.mild;
            let mut df = |c: &mut Src, n: u32, m: u32| {
                let y = c.chance(n, m) || (mild && defaults);
                defaults |= y;
                y
            };
            if self.c.chance(1, 5) && !(self.mild && i == 0) {
                let t = self.p(&["usize", "bool", "T", "[u8; 3]", "char"]);
                let d = if df(self.c, 1, 3) { self.p(&[" = 3", " = { 1 + 2 }", " = -1", " = N", " = 'c'"]) } else { String::new() };
                ps.push((format!("const {name}: {t}"), d));
            } else {
                self.ps = names.clone();
                let b = if self.c.chance(1, 3) { format!(": {}", self.top_bounds()) } else { String::new() };
                let d = if df(self.c, 1, 6) { format!(" = {}", self.ty(2)) } else { String::new() };
                ps.push((name, b + &d));
            }
        }
        self.tps = ps.iter().map(|p| p.0.clone()).filter(|p| names.contains(p)).collect();
        self.ps = names;
        let o = if self.mild { 0 } else { 5 };
        let v: Vec<String> = ps.iter().map(|(a, b)| { let t = if self.c.chance(1, 12) { self.attrs(o) } else { String::new() }; format!("{t}{a}{b}") }).collect();
        let tail = if self.c.chance(1, 6) { "," } else { "" };
        let wh = if self.c.chance(2, 5) {
            let mut f = |g: &mut Self| match g.d(6) {
                0 => {
                    let mut f = |g: &mut G| g.lt();
                    format!("{}: {}", g.lt(), g.list(0, 2, " + ", &mut f))
                }
                1 => format!("{}: {}", g.ident(), g.top_bounds()),
                _ => {
                    let b = g.binder();
                    format!("{b}{}: {}", g.ty_nb(2), g.top_bounds())
                }
            };
            format!(" where {}", self.list(0, 4, ", ", &mut f))
        } else {
            String::new()
        };
        (format!("<{}{tail}>", v.join(", ")), wh)
    }
    fn vis(&mut self) -> String {
        if self.mild {
            return self.p(&["", "", "pub ", "pub(crate) ", "pub(self) ", "pub(super) "]);
        }
        self.p(&["", "", "pub ", "pub(crate) ", "pub(in a::b) ", "pub(self) ", "pub(super) "])
    }
    /// 0: named, 1: tuple
    fn fields(&mut self, named: bool, vis: bool) -> String {
        let many = self.c.chance(1, 40);
        let mut i = 0;
        let mut f = |g: &mut Self| {
            i += 1;
            let a = g.attrs(2);
            let v = if vis { g.vis() } else { String::new() };
            let t = if many { g.ident() } else { g.ty(4) };
            if named {
                let n = if g.c.chance(1, 2) { format!("x{i}") } else { g.p(IDENTS) };
                format!("{a}{v}{n}: {t}")
            } else {
                format!("{a}{v}{t}")
            }
        };
        let l = self.list(0, if many { 60 } else { 4 }, ", ", &mut f);
        if named { format!(" {{ {l} }}") } else { format!("({l})") }
    }

    /// Item text; whether it is in the body of a macro.
    fn item(&mut self) -> String {
        self.mac = self.c.chance(1, 10);
        let a = self.attrs(7);
        let v = self.vis();
        let name = if self.c.chance(3, 4) { "Main".into() } else { self.p(IDENTS) };
        let (g, w) = self.generics();
        let mut a = a;
        if !self.tps.is_empty() && self.c.chance(1, 4) {
            let mut l = self.tps.clone();
            self.c.shuffle(&mut l);
            l.truncate(self.c.range(1, l.len() as u32) as usize);
            let sep = self.p(&[", ", "))] #[funcmap(params(", "), params("]);
            a += &format!("#[funcmap(params({}))] ", l.join(&sep));
        }
        let w3 = [6, 5, if self.mild { 0 } else { 1 }];
        let item = match self.c.weighted(&w3) {
            0 => match self.d(5) {
                0 => format!("{v}struct {name}{g}{w};"),
                1 | 2 => format!("{v}struct {name}{g}{w}{}", self.fields(true, true)),
                _ => format!("{v}struct {name}{g}{}{w};", self.fields(false, true)),
            },
            1 => {
                let mut i = 0;
                let mut f = |g: &mut Self| {
                    i += 1;
                    let a = g.attrs(2);
                    let v = if g.c.chance(1, 12) { g.vis() } else { String::new() };
                    let n = if g.c.chance(1, 2) { format!("V{i}") } else { g.p(IDENTS) };
                    let b = match g.d(3) {
                        0 => String::new(),
                        k => {
                            let v = g.c.chance(1, 10);
                            g.fields(k == 1, v)
                        }
                    };
                    let d = if g.c.chance(1, 6) { format!(" = {}", g.expr(3)) } else { String::new() };
                    format!("{a}{v}{n}{b}{d}")
                };
                let l = self.list(0, 4, ", ", &mut f);
                format!("{v}enum {name}{g}{w} {{ {l} }}")
            }
            _ => format!("{v}union {name}{g}{w}{}", self.fields(true, true)),
        };
        format!("{a}{item}")
    }
}

const DERIVES: &[&str] = &["#[derive(::funcmap::FuncMap)]", "#[derive(::funcmap::TryFuncMap)]", "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]"];

fn make(c: &mut Src) -> CaseText {
    let mild = c.chance(1, 2);
    let mut g = G { c, left: 60, ps: vec![], mac: false, mild, indep: 0, tps: vec![] };
    let k = g.d(3) as usize;
    let item = g.item();
    let d = DERIVES[k];
    let frag = if g.mac { Some(g.p(&["ty", "tt", "ident", "path"])) } else { None };
    let wrap = |body: String| match &frag {
        Some(f) => format!("macro_rules! mk_ {{ ($t:{f}) => {{ {body} }} }}\nmk_!(T);\n"),
        None => format!("{body}\n"),
    };
    let classes = vec![["FuncMap", "TryFuncMap", "both"][k].to_string(), if g.mac { "through macro_rules".into() } else { "plain".to_string() }, if mild { "mild".into() } else { "wild".to_string() }];
    CaseText { module: wrap(format!("{d}\n{item}")), bare: wrap(format!("#[cfg(any())]\n{item}")),
        bare_root: wrap(format!("#[derive(::noop_::Noop)]\n{item}")), sample: format!("{d} {item}"), nontrivial: item.len() > 60, classes, ..Default::default() }
}

/// How the messages of the derive, and of syn, start.
/// (The last one is about names, which need not resolve here.)
const OWN: &[&str] = &["mapping over ", "generic parameters may not be used in "];

/// What one process makes of the items: errors and expansion of each.
struct Seen {
    text: BTreeMap<usize, String>,
    errs: BTreeMap<usize, Vec<String>>,
    other: String,
    hangs: bool,
}

/// `place`: 0 at the root, 1 in nested modules, reversed, with company, 2 in function bodies.
fn expand(env: &Env, dir: &Path, set: &[usize], cases: &[CaseText], bare: u8, place: u8) -> Seen {
    let d = dir.join(format!("x{place}{}", bare as u8));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    let mut order = set.to_vec();
    let mut root = String::from("#![feature(no_core)]\n#![no_core]\n#![allow(warnings)]\npub extern crate funcmap;\npub extern crate dd_;\npub extern crate noop_;\n");
    if place > 0 {
        let mut r = Rng::new(mix(&[env.seed, place as u64, set[0] as u64]));
        for i in (1..order.len()).rev() {
            order.swap(i, r.below(i as u32 + 1) as usize);
        }
        root += "mod before { use ::dd_::derive; pub struct A; pub struct T; #[derive(::funcmap::FuncMap)] pub struct Main<T>(T, Vec<T>); }\n";
    }
    for i in &order {
        let c = &cases[*i];
        let f = d.join(format!("case{i}.rs"));
        fs::write(&f, format!("{}pub const END_{i}_: () = ();\nuse ::dd_::derive;\n", [&c.module, &c.bare, &c.bare_root][bare as usize])).unwrap();
        let m = format!("#[path = {:?}] pub mod case{i};", f.display().to_string());
        root += &match place {
            0 => m,
            1 => format!("mod outer{i} {{ pub struct X<T>(T); pub mod inner {{ use super::X as V; {m} }} }}"),
            _ => format!("fn f{i}<T>(t: T) {{ let x = {{ {m} 3 }}; }}"),
        };
        root += "\n";
        if place == 1 && i % 3 == 0 {
            root += &format!("mod extra{i} {{ use ::dd_::derive; #[derive(::funcmap::TryFuncMap, ::funcmap::FuncMap)] pub enum Main<A, B, T> {{ E(A), F(B, T) }} }}\n");
        }
    }
    let p = d.join("main.rs");
    fs::write(&p, root).unwrap();
    let mut cmd = env.rustc(&p, &d.join("out"), false);
    cmd.env("RUSTC_ICE", "0").env("RUSTC_BOOTSTRAP", "1").arg("-Zunpretty=expanded").arg("-L").arg(&env.dir);
    let t0 = std::time::Instant::now();
    // where not even the control finishes, that is not the derive's fault
    let limit = match (bare, set.len()) {
        (0, 1) => 40,
        (0, _) => 80,
        _ => 300,
    };
    let r = run(&mut cmd, Duration::from_secs(limit));
    if std::env::var("VERIF_DEBUG").is_ok() {
        println!("T {place} {bare} {} cases {:?} {:?}", set.len(), t0.elapsed(), cases[set[0]].sample.len());
    }
    let mut seen = Seen { text: BTreeMap::new(), errs: BTreeMap::new(), other: String::new(), hangs: false };
    if r.timed_out {
        seen.other = format!("rustc did not finish in {limit} s");
        seen.hangs = true;
        return seen;
    }
    let out = fs::read_to_string(d.join("out")).unwrap_or_default() + &r.out;
    for l in r.err.lines() {
        let Some(j) = json::parse(l) else {
            if l.contains("internal compiler error") || l.contains("overflowed its stack") || l.contains("SIG") {
                seen.other += l;
            }
            continue;
        };
        if !j.get("level").str().starts_with("error") || *j.get("code") != json::J::Null {
            continue;
        }
        let msg = j.get("message").str();
        if msg.starts_with("aborting due to") || msg.starts_with("cannot find attribute") || msg.starts_with("cannot find macro") {
            continue;
        }
        let mut file = None;
        let mut text = msg.to_string();
        for s in j.get("spans").arr() {
            let mut s = s;
            let mut name = s.get("file_name").str();
            while !name.contains("case") && *s.get("expansion") != json::J::Null {
                s = s.get("expansion").get("span");
                name = s.get("file_name").str();
            }
            if let Some(k) = name.rsplit('/').next().unwrap_or("").strip_prefix("case").and_then(|n| n.strip_suffix(".rs")).and_then(|n| n.parse().ok()) {
                file = Some(k);
                text += &format!(" @{}:{}-{}:{}", s.get("line_start").num(), s.get("column_start").num(), s.get("line_end").num(), s.get("column_end").num());
            }
        }
        if msg.contains("panicked") {
            for c in j.get("children").arr() {
                text += &format!(" ({})", c.get("message").str());
            }
        }
        match file {
            Some(k) => seen.errs.entry(k).or_default().push(text),
            None => seen.other += j.get("rendered").str(),
        }
    }
    if r.code != Some(0) && r.code != Some(1) {
        seen.other = format!("rustc: exit {:?}\n{}", r.code, clip(&r.err, 2000));
    }
    if out.is_empty() && seen.other.is_empty() && seen.errs.is_empty() {
        seen.other = format!("rustc: exit {:?}\n{}", r.code, clip(&r.err, 2000));
    }
    for i in set {
        let a = format!("mod case{i} {{");
        let b = format!("END_{i}_");
        if let Some(p) = out.find(&a) {
            if let Some(q) = out[p..].find(&b) {
                seen.text.insert(*i, out[p + a.len()..p + q].split_whitespace().collect::<Vec<_>>().join(""));
            }
        }
    }
    let _ = fs::remove_dir_all(&d);
    seen
}

fn judge(env: &Env, cases: &[CaseText]) -> Vec<Outcome> {
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(env.size).collect();
    // Each costs a lot of time.
    let hangs = std::sync::atomic::AtomicUsize::new(0);
    let enough = || hangs.load(std::sync::atomic::Ordering::SeqCst) >= 4;
    // up to the first that does not finish
    let all = |dir: &Path, set: &[usize]| {
        let mut v: Vec<Seen> = vec![];
        for p in 0..3 {
            v.push(expand(env, dir, set, cases, 0, p));
            if v[p as usize].hangs {
                break;
            }
        }
        v
    };
    let outs = par(&chunks, workers(), |k, ch| {
        let dir = env.dir.join(format!("z{k}"));
        let mut out: Vec<(usize, Outcome)> = vec![];
        if enough() {
            return ch.iter().map(|i| (*i, Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 })).collect();
        }
        let bare = expand(env, &dir, ch, cases, 1, 0);
        let mut live = vec![];
        for i in *ch {
            match bare.errs.get(i) {
                Some(e) => out.push((*i, Outcome::Invalid(e.join("\n")))),
                None => live.push(*i),
            }
        }
        if !bare.other.is_empty() && live.len() == ch.len() {
            die(&format!("control programs fail: {}", bare.other));
        }
        if live.is_empty() {
            return out;
        }
        // also kept by a derive that does nothing
        let mut alone = expand(env, &dir, &live, cases, 2, 0);
        if !alone.other.is_empty() || live.iter().any(|i| !alone.text.contains_key(i)) {
            // rustc itself fails on some, or does not get to all of them
            let one: Vec<Seen> = live.iter().map(|i| expand(env, &dir, &[*i], cases, 2, 0)).collect();
            let mut left = vec![];
            alone.errs.clear();
            for (i, s) in live.iter().zip(one) {
                let bare = expand(env, &dir, &[*i], cases, 1, 0);
                if let Some(e) = bare.errs.get(i) {
                    if std::env::var("VERIF_DEBUG").is_ok() {
                        println!("FATAL {:?} {}", e, cases[*i].sample);
                    }
                    out.push((*i, Outcome::Invalid(e.join("\n"))));
                } else if s.other.is_empty() {
                    left.push(*i);
                    alone.errs.extend(s.errs);
                } else {
                    out.push((*i, Outcome::Invalid(s.other)));
                }
            }
            live = left;
        }
        if live.is_empty() {
            return out;
        }
        let s = all(&dir, &live);
        // also where an error in one item keeps rustc from looking at the others
        let crash = s.iter().any(|s| !s.other.is_empty() || live.iter().any(|i| !s.text.contains_key(i)));
        for i in &live {
            let own: Vec<Seen>;
            let s = if crash {
                // one at a time
                if let Some(e) = expand(env, &dir, &[*i], cases, 1, 0).errs.get(i) {
                    out.push((*i, Outcome::Invalid(e.join("\n"))));
                    continue;
                }
                own = if enough() { vec![] } else { all(&dir, &[*i]) };
                if own.is_empty() {
                    out.push((*i, Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 }));
                    continue;
                }
                if own.iter().any(|s| s.hangs) {
                    hangs.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
                &own
            } else {
                &s
            };
            let mut m = String::new();
            for s in s {
                m += &s.other;
                for e in s.errs.get(i).into_iter().flatten() {
                    if e.contains("panicked") || e.contains("produced unparsable tokens") {
                        m += &format!("{}\n", s.errs[i].join("\n"));
                    }
                }
            }
            if m.is_empty() && !alone.errs.contains_key(i) {
                for e in s[0].errs.get(i).into_iter().flatten() {
                    if !OWN.iter().any(|o| e.starts_with(o)) {
                        m += &format!("an error that is not from the derive, in code that is fine without it: {e}\n");
                    }
                }
            }
            if m.is_empty() {
                for (p, what) in [(1, "in nested modules, in another order and company"), (2, "in a function body, in another order")] {
                    if s[0].errs.get(i) != s[p].errs.get(i) {
                        m += &format!("errors differ {what}:\n{:#?}\n{:#?}\n", s[0].errs.get(i), s[p].errs.get(i));
                    } else if s[0].text.get(i) != s[p].text.get(i) || s[0].text.get(i).is_none() {
                        m += &format!("expansion differs {what}:\n{:?}\n{:?}\n", s[0].text.get(i), s[p].text.get(i));
                    }
                }
            }
            let rejected = s[0].errs.contains_key(i);
            if rejected && cases[*i].classes.contains(&"mild".to_string()) && std::env::var("VERIF_DEBUG").is_ok() {
                println!("REJ {:?}\n   {}", s[0].errs.get(i), cases[*i].sample);
            }
            out.push((*i, if m.is_empty() { Outcome::Ok { runs: !rejected as u64, calls: 0, nontrivial: 0 } } else { Outcome::RunFail(m) }));
        }
        let _ = fs::remove_dir_all(&dir);
        out
    });
    let mut res: Vec<Option<Outcome>> = vec![None; cases.len()];
    for (i, o) in outs.into_iter().flatten() {
        res[i] = Some(o);
    }
    res.into_iter().map(|o| o.unwrap()).collect()
}

pub fn c13(ctx: &mut Ctx) -> ! {
    let mut env = Env::new(ctx, "");
    env.rounds = 1;
    env.size = std::env::var("VERIF_SIZE").ok().and_then(|s| s.parse().ok()).unwrap_or(6);
    // Without core, rustc does not search it for similar names.
    let dd = env.dir.join("dd_.rs");
    fs::write(&dd, "#![no_std]\npub use core::prelude::v1::derive;\n").unwrap();
    // Accepts everything, and makes rustc do all that comes before a derive.
    let nn = env.dir.join("noop_.rs");
    fs::write(
        &nn,
        "extern crate proc_macro;\n#[proc_macro_derive(Noop, attributes(funcmap))]\npub fn f(_: proc_macro::TokenStream) -> proc_macro::TokenStream { proc_macro::TokenStream::new() }\n",
    )
    .unwrap();
    for (f, k) in [(&dd, "lib"), (&nn, "proc-macro")] {
        let mut c = rustc(&env.tc);
        c.args(["--edition", "2021", "--crate-type", k, "--out-dir"]).arg(&env.dir).arg(f);
        let r = run(&mut c, Duration::from_secs(100));
        if r.code != Some(0) {
            die(&r.err);
        }
    }
    campaign_with(ctx, &env, ctx.n(5000, 50000), "gen", &|c| make(c), &judge);
    ctx.finish("random items from a grammar of what rustc parses as a struct, enum or union (all forms of types, bounds, generics, attributes, options and constant expressions; the names need not resolve), expanded by rustc three times in different processes: at the root, shuffled in nested modules among other derives, and shuffled in function bodies; there must be no panic, no unparsable output, no error that neither comes from the derive nor from the item with a derive that does nothing, and always the same code (compared without white space) or the same errors. `runs of mappings` counts items for which code was generated. Non-trivial: the item has more than 60 characters.")
}
