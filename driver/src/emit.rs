//! Prints cases: definitions, value generation, dumps, reference mappings and
//! the table of implementations under test.
use crate::ast::*;
use std::collections::HashMap;
use std::fmt::Write;
use vrt::choice::Src;

/// Arguments that make a definition concrete, with the mapped one at `p`.
pub fn instantiate(c: &mut Src, d: &Def, p: usize) -> (Vec<Arg>, Vec<Arg>, (char, char)) {
    let fams = ['S', 'S', 'W', 'L', 'Z'];
    let hs = *c.pick(&fams);
    let hd = *c.pick(&fams);
    let mut src = vec![];
    for (i, q) in d.params.iter().enumerate() {
        src.push(match &q.kind {
            PK::Lt { .. } => Arg::Lt(Lt::Static),
            PK::Const { ty, .. } => {
                let (t, v) = crate::gen::const_val(ty, c.draw(3));
                Arg::Const(CArg::Val(t, v))
            }
            PK::Ty { unsized_: true, mapped: false, .. } => Arg::Ty(Ty::Prim("str")),
            PK::Ty { copy: true, .. } => Arg::Ty(Ty::Tok('C', 20 + (i % 50) as u8)),
            PK::Ty { .. } => {
                let f = *c.pick(&['S', 'S', 'W', 'Z']);
                Arg::Ty(Ty::Tok(f, 20 + (i % 50) as u8))
            }
        });
    }
    let mut dst = src.clone();
    src[p] = Arg::Ty(Ty::Tok(hs, 0));
    dst[p] = Arg::Ty(Ty::Tok(hd, 1));
    (src, dst, (hs, hd))
}

pub struct Emit<'a> {
    pub defs: &'a [Def],
    /// prefix of user types in test code
    pub up: &'a str,
    memo: HashMap<(usize, usize, Vec<Arg>, Arg), usize>,
    fns: String,
    /// functions that use implementations
    pub generic: String,
    closed: Vec<(usize, Vec<Arg>)>,
}

impl<'a> Emit<'a> {
    pub fn new(defs: &'a [Def], up: &'a str) -> Emit<'a> {
        Emit { defs, up, memo: HashMap::new(), fns: String::new(), generic: String::new(), closed: vec![] }
    }
    pub fn pr(&self) -> Print<'_> {
        Print { defs: self.defs, params: &[], abs: Some(self.up), frag: None }
    }

    /// `Gen` and `Dump` for all closed user types met so far.
    pub fn value_impls(&mut self) -> String {
        let mut out = String::new();
        let mut k = 0;
        while k < self.closed.len() {
            let (def, args) = self.closed[k].clone();
            k += 1;
            out += &self.value_impl(def, &args);
        }
        out
    }

    pub fn need(&mut self, t: &Ty) {
        t.any(&mut |t| {
            if let Ty::User(d, args, _) = t {
                let key = (*d, args.clone());
                if !self.closed.contains(&key) {
                    self.closed.push(key);
                }
            }
            false
        });
    }

    fn value_impl(&mut self, def: usize, args: &[Arg]) -> String {
        let defs = self.defs;
        let d = &defs[def];
        for f in d.fields() {
            let t = f.ty.subst(args);
            self.need(&t);
        }
        let pr = self.pr();
        let up = self.up;
        let mut out = String::new();
        let ty = pr.ty(&Ty::User(def, args.to_vec(), 1));
        let path = |v: &Variant| {
            if d.is_enum {
                format!("{up}{}::{}", d.name, v.name)
            } else {
                format!("{up}{}", d.name)
            }
        };
        let _ = write!(out, "impl ::vrt::Gen for {ty} {{\nfn r#gen(g_: &mut ::vrt::G) -> Self {{ match g_.below({}) {{\n", d.variants.len());
        for (i, v) in d.variants.iter().enumerate() {
            let pat = if i + 1 == d.variants.len() { "_".to_string() } else { i.to_string() };
            let fs: Vec<String> =
                members(v).into_iter().map(|(m, _)| format!("{m}: ::vrt::Gen::r#gen(g_)")).collect();
            let _ = write!(out, "{pat} => {} {{ {} }},\n", path(v), fs.join(", "));
        }
        let _ = write!(out, "}} }}\n}}\nimpl ::vrt::Dump for {ty} {{\nfn dump(self, o_: &mut ::std::string::String) {{ match self {{\n");
        for v in &d.variants {
            let ms = members(v);
            let pats: Vec<String> = ms.iter().enumerate().map(|(i, (m, _))| format!("{m}: x{i}_")).collect();
            let _ = write!(
                out,
                "{} {{ {} }} => {{ o_.push_str({:?});\n",
                path(v),
                pats.join(", "),
                format!("{}.{}{{", d.name, v.name)
            );
            for i in 0..ms.len() {
                let _ = write!(out, "::vrt::Dump::dump(x{i}_, o_); o_.push(';');");
            }
            out += "o_.push('}'); }\n";
        }
        out += "} }\n}\n";
        out
    }

    /// Name of the reference function mapping parameter `p` of `def` at `src`
    /// to `to`.
    pub fn ref_fn(&mut self, def: usize, p: usize, src: &[Arg], to: &Arg) -> String {
        let key = (def, p, src.to_vec(), to.clone());
        if let Some(n) = self.memo.get(&key) {
            return format!("r{n}_");
        }
        let n = self.memo.len();
        self.memo.insert(key, n);
        let d = &self.defs[def];
        let mut dst = src.to_vec();
        dst[p] = to.clone();
        let ty = |a: &[Arg]| Ty::User(def, a.to_vec(), 1);
        let up = self.up.to_string();
        let mut body = String::new();
        for v in &d.variants {
            let path =
                if d.is_enum { format!("{up}{}::{}", d.name, v.name) } else { format!("{up}{}", d.name) };
            let ms = members(v);
            let pats: Vec<String> = ms.iter().enumerate().map(|(i, (m, _))| format!("{m}: x{i}_")).collect();
            let fs: Vec<String> = ms
                .iter()
                .enumerate()
                .map(|(i, (m, f))| format!("{m}: {}", self.map_expr(&f.ty, p, src, &dst, &format!("x{i}_"))))
                .collect();
            let _ = write!(body, "{path} {{ {} }} => {path} {{ {} }},\n", pats.join(", "), fs.join(", "));
        }
        let (a, b) = (arg_ty(&src[p]), arg_ty(&dst[p]));
        if let Some(h) = &d.hand {
            body = h.ref_body(d, p, &up);
        }
        let text = format!(
            "fn r{n}_(v: {}, f: &mut dyn (::std::ops::FnMut({}) -> ::std::result::Result<{}, ::vrt::rm::Stop>)) -> ::std::result::Result<{}, ::vrt::rm::Stop> {{ ::std::result::Result::Ok(match v {{\n{body}}}) }}\n",
            self.pr().ty(&ty(src)), self.pr().ty(a), self.pr().ty(b), self.pr().ty(&ty(&dst)),
        );
        self.fns += &text;
        format!("r{n}_")
    }

    /// Expression that maps `v` of type `t` over parameter `p` with `f`.
    pub fn map_expr(&mut self, t: &Ty, p: usize, src: &[Arg], dst: &[Arg], v: &str) -> String {
        if !t.mentions(p) {
            return v.to_string();
        }
        let clo = |e: String| format!("&mut |y_| ::std::result::Result::Ok({e})");
        match t {
            Ty::Param(_) => format!("f({v})?"),
            Ty::Paren(t) => self.map_expr(t, p, src, dst, v),
            Ty::Array(t, _) => {
                let e = self.map_expr(t, p, src, dst, "y_");
                format!("::vrt::rm::array({v}, {})?", clo(e))
            }
            Ty::Tuple(ts) => {
                let names: Vec<String> = (0..ts.len()).map(|i| format!("t{i}_")).collect();
                let es: Vec<String> =
                    ts.iter().zip(&names).map(|(t, n)| self.map_expr(t, p, src, dst, n)).collect();
                format!("{{ let ({},) = {v}; ({},) }}", names.join(", "), es.join(", "))
            }
            Ty::Lib(l, ts, _) => {
                let mut s = format!("{{ let z_ = {v};\n");
                for (i, t) in ts.iter().enumerate() {
                    if t.mentions(p) {
                        let e = self.map_expr(t, p, src, dst, "y_");
                        let _ = write!(s, "let z_ = ::vrt::rm::{}_{i}(z_, {})?;\n", l.key, clo(e));
                    }
                }
                s + "z_ }"
            }
            Ty::User(d, args, _) => {
                let mut s = format!("{{ let z_ = {v};\n");
                let mut cur = ground_args(args, src);
                for (i, a) in args.iter().enumerate() {
                    let Arg::Ty(t) = a else { continue };
                    if t.mentions(p) {
                        let e = self.map_expr(t, p, src, dst, "y_");
                        let to = Arg::Ty(t.subst(dst));
                        let r = self.ref_fn(*d, i, &cur, &to);
                        cur[i] = to;
                        let _ = write!(s, "let z_ = {r}(z_, {})?;\n", clo(e));
                    }
                }
                s + "z_ }"
            }
            _ => panic!("generator: mapped parameter in unsupported position: {t:?}"),
        }
    }

    /// `cx.check(..)` for marker of parameter `p` of definition `def`.
    pub fn check(&mut self, c: &mut Src, def: usize, p: usize, label: &str, fm: &str) -> String {
        let d = &self.defs[def];
        let (src, dst, (hs, hd)) = instantiate(c, d, p);
        self.check_at(c, def, p, &src, &dst, hs, hd, label, fm)
    }

    pub fn check_at(
        &mut self,
        c: &mut Src,
        def: usize,
        p: usize,
        src: &[Arg],
        dst: &[Arg],
        hs: char,
        hd: char,
        label: &str,
        fm: &str,
    ) -> String {
        let d = &self.defs[def];
        self.need(&Ty::User(def, src.to_vec(), 1));
        self.need(&Ty::User(def, dst.to_vec(), 1));
        let er = *c.pick(&['S', 'W', 'L', 'C', 'Z']);
        let r = self.ref_fn(def, p, src, &dst[p]);
        let yn = |b: bool| if b { "y" } else { "n" };
        format!(
            "cx.check({label:?}, &::vrt::subj!(src {}, dst {}, hs {}, hd {}, er {}, fm [{fm}], marker {}, kinds ({} {}), rf |v, f| {r}(v, f)));\n",
            self.pr().ty(&Ty::User(def, src.to_vec(), 1)),
            self.pr().ty(&Ty::User(def, dst.to_vec(), 1)),
            tok_ty(hs, 0),
            tok_ty(hd, 1),
            tok_ty(er, 200),
            d.marker(p),
            yn(d.derives.0),
            yn(d.derives.1),
        )
    }

    /// Identity and composition laws for parameter `p`.
    pub fn laws(&mut self, c: &mut Src, def: usize, p: usize, label: &str, fm: &str) -> String {
        let d = &self.defs[def];
        let (src, _, _) = instantiate(c, d, p);
        let key = matches!(d.params[p].kind, PK::Ty { key: true, .. });
        let fams: &[char] = if key { &['S', 'W', 'L'] } else { &['S', 'W', 'L', 'Z'] };
        let hs: Vec<Ty> = (0..3u8).map(|k| Ty::Tok(*c.pick(fams), k)).collect();
        let ts: Vec<Ty> = hs
            .iter()
            .map(|h| {
                let mut a = src.clone();
                a[p] = Arg::Ty(h.clone());
                Ty::User(def, a, 1)
            })
            .collect();
        for t in &ts {
            self.need(t);
        }
        let pr = self.pr();
        let (t, h): (Vec<String>, Vec<String>) = (ts.iter().map(|t| pr.ty(t)).collect(), hs.iter().map(|t| pr.ty(t)).collect());
        let m = d.marker(p);
        format!(
            "cx.law({label:?}, {key}, ::vrt::law_identity!(ty {}, h {}, fm [{fm}], marker {m}));\ncx.law({label:?}, {key}, ::vrt::law_compose!(ty {}, {}, {}, h {}, {}, {}, fm [{fm}], marker {m}));\n",
            t[0], h[0], t[0], t[1], t[2], h[0], h[1], h[2]
        )
    }

    /// Calls without annotations and in generic code.
    pub fn infer(&mut self, c: &mut Src, def: usize, p: usize, label: &str, fm: &str) -> String {
        let d = &self.defs[def];
        let (src, _, _) = instantiate(c, d, p);
        let key = matches!(d.params[p].kind, PK::Ty { key: true, .. });
        let fams: &[char] = if key { &['S', 'W', 'L'] } else { &['S', 'W', 'L', 'Z'] };
        let hs: Vec<Ty> = (0..3u8)
            .map(|k| {
                let t = Ty::Tok(*c.pick(fams), k);
                compound(c, t)
            })
            .collect();
        let ts: Vec<Ty> = hs
            .iter()
            .map(|h| {
                let mut a = src.clone();
                a[p] = Arg::Ty(h.clone());
                Ty::User(def, a, 1)
            })
            .collect();
        for t in &ts {
            self.need(t);
        }
        self.generic += &self.generic_fns(def, p, fm);
        let pr = self.pr();
        let (t, h): (Vec<String>, Vec<String>) = (ts.iter().map(|t| pr.ty(t)).collect(), hs.iter().map(|t| pr.ty(t)).collect());
        let sole = if d.mapped().len() == 1 { "y" } else { "n" };
        format!(
            "cx.law({label:?}, {key}, ::vrt::law_infer!(ty {}, {}, {}, h {}, {}, {}, fm [{fm}], marker {}, sole {sole}, generic [gm{p}_ gt{p}_]));\n",
            t[0], t[1], t[2], h[0], h[1], h[2], d.marker(p)
        )
    }

    /// Functions over all parameters of `def` that map `p`; they only assume
    /// the bounds of the definition for the parameter and its replacement (and
    /// `Ord`, `Hash` where it occurs in keys).
    pub fn generic_fns(&self, def: usize, p: usize, fm: &str) -> String {
        let d = &self.defs[def];
        let defs = self.defs;
        let mut a = d.clone();
        for (i, q) in a.params.iter_mut().enumerate() {
            q.pre.clear();
            if let PK::Ty { bounds, unsized_, .. } = &mut q.kind {
                if i == p {
                    bounds.retain(|b| *b != Bound::MaybeSized);
                    *unsized_ = false;
                }
            }
        }
        a.preds.iter_mut().for_each(|q| {
            if q.ty == Ty::Param(p) {
                q.bounds.retain(|b| *b != Bound::MaybeSized)
            }
        });
        a.preds.retain(|q| !q.bounds.is_empty());
        let mut b = a.clone();
        b.params[p].name = "Bt_".into();
        let (pa, pb) = (
            Print { defs, params: &a.params, abs: Some(self.up), frag: None },
            Print { defs, params: &b.params, abs: Some(self.up), frag: None },
        );
        let mut wh: Vec<String> = a.where_preds(&pa);
        wh.extend(b.where_preds(&pb));
        for (i, q) in b.params.iter().enumerate() {
            let PK::Ty { bounds, key, .. } = &q.kind else { continue };
            let mut bs: Vec<Bound> = bounds.clone();
            bs.retain(|b| *b != Bound::MaybeSized);
            let n = pb.name(&q.name);
            if !bs.is_empty() {
                wh.push(format!("{n}: {}", pb.bounds(&bs)));
            }
            if *key {
                let k = "::std::cmp::Ord + ::std::hash::Hash";
                wh.push(format!("{n}: {k}"));
                if i == p {
                    wh.push(format!("{}: {k}", pa.name(&a.params[p].name)));
                }
            }
        }
        let n = pa.name(&a.params[p].name);
        let mut seen = std::collections::HashSet::new();
        wh.retain(|w| seen.insert(w.clone()));
        let decl = a.decl_params(&pa, false);
        let decl = decl[1..decl.len() - 1].to_string();
        let wh = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
        let (ta, tb) = (format!("{}{}{}", self.up, a.name, a.self_args()), format!("{}{}{}", self.up, b.name, b.self_args()));
        let m = d.marker(p);
        // where-clauses of traits with type arguments guide type inference
        let guide = |b: &Bound| matches!(b, Bound::Tr1(_) | Bound::Hrtb(_) | Bound::Call(..) | Bound::Form(..));
        let guided = d.preds.iter().any(|q| q.bounds.iter().any(guide))
            || d.params.iter().any(|q| matches!(&q.kind, PK::Ty { bounds, .. } if bounds.iter().any(guide)));
        let (cm, ct) = if guided {
            (
                format!("<{ta} as {fm}::FuncMap<{n}, Bt_, {fm}::TypeParam<{m}>>>::func_map(v, f)"),
                format!("<{ta} as {fm}::TryFuncMap<{n}, Bt_, {fm}::TypeParam<{m}>>>::try_func_map(v, f)"),
            )
        } else {
            (
                format!("{{ use {fm}::FuncMap as _; v.func_map_over::<{fm}::TypeParam<{m}>, _>(f) }}"),
                format!("{{ use {fm}::TryFuncMap as _; v.try_func_map_over::<{fm}::TypeParam<{m}>, _, _>(f) }}"),
            )
        };
        format!(
            "fn gm{p}_<{decl}, Bt_>(v: {ta}, f: impl ::std::ops::FnMut({n}) -> Bt_) -> {tb}{wh} {{ {cm} }}\n\
             fn gt{p}_<{decl}, Bt_, Et_>(v: {ta}, f: impl ::std::ops::FnMut({n}) -> ::std::result::Result<Bt_, Et_>) -> ::std::result::Result<{tb}, Et_>{wh} {{ {ct} }}\n"
        )
    }

    /// Mapping `p` and `q` in both orders.
    pub fn commute(&mut self, c: &mut Src, def: usize, p: usize, q: usize, label: &str, fm: &str) -> String {
        let d = &self.defs[def];
        let (src, _, _) = instantiate(c, d, p);
        let fams = ['S', 'W', 'L'];
        let hs: Vec<Ty> = (0..4u8).map(|k| Ty::Tok(*c.pick(&fams), k)).collect();
        let t = |x: usize, y: usize| {
            let mut a = src.clone();
            a[p] = Arg::Ty(hs[x].clone());
            a[q] = Arg::Ty(hs[2 + y].clone());
            Ty::User(def, a, 1)
        };
        let ts = [t(0, 0), t(1, 0), t(0, 1), t(1, 1)];
        for t in &ts {
            self.need(t);
        }
        let pr = self.pr();
        let list = |v: &[Ty]| v.iter().map(|t| pr.ty(t)).collect::<Vec<_>>().join(", ");
        format!(
            "cx.law({label:?}, true, ::vrt::law_commute!(ty {}, p {}, q {}, fm [{fm}], markers {} {}));\n",
            list(&ts),
            list(&hs[..2]),
            list(&hs[2..]),
            d.marker(p),
            d.marker(q)
        )
    }

    /// Which markers implementations exist for, over every argument.
    pub fn marker_facts(&mut self, c: &mut Src, def: usize, p: usize, label: &str) -> String {
        let d = &self.defs[def];
        let (src, dst, _) = instantiate(c, d, p);
        let pr = self.pr();
        let n = d.params.iter().filter(|q| !matches!(q.kind, PK::Lt { .. })).count();
        let self_ty = pr.ty(&Ty::User(def, src.clone(), 1));
        self.need(&Ty::User(def, src.clone(), 1));
        let pr = self.pr();
        let mut out = String::new();
        let mut cols: Vec<usize> = (0..=n).collect();
        if cols.len() > 6 {
            c.shuffle(&mut cols);
            cols.truncate(5);
            cols.push(d.marker(p));
        }
        for (q, a) in src.iter().enumerate() {
            let Arg::Ty(t) = a else { continue };
            if *t == Ty::Prim("str") || (src.len() > 6 && q != p && q % 5 != 0) {
                continue;
            }
            let to = if q == p { pr.ty(arg_ty(&dst[p])) } else { pr.ty(t) };
            for k in &cols {
                let want = d.params[q].is_mapped() && d.marker(q) == *k;
                for (tr, on) in [("FM", d.derives.0), ("TFM", d.derives.1)] {
                    let what = format!("{tr} over argument {q} with marker {k}");
                    out += &format!("({what:?}, P_::<{self_ty}, {}, {to}, {k}>::{tr}, {}), ", pr.ty(t), want && on);
                }
            }
        }
        format!("cx.facts({label:?}, &[{out}]);\n")
    }

    pub fn take_fns(&mut self) -> String {
        std::mem::take(&mut self.fns)
    }
}

pub fn ground_args(args: &[Arg], env: &[Arg]) -> Vec<Arg> {
    match Ty::User(0, args.to_vec(), 1).subst(env) {
        Ty::User(_, a, _) => a,
        _ => unreachable!(),
    }
}

pub fn arg_ty(a: &Arg) -> &Ty {
    match a {
        Arg::Ty(t) => t,
        _ => unreachable!(),
    }
}

/// Members of a variant by name or index, cfg'd-out fields left out.
pub fn members(v: &Variant) -> Vec<(String, &Field)> {
    v.fields
        .iter()
        .filter(|f| !f.gone)
        .enumerate()
        .map(|(i, f)| (if v.style == Style::Named { f.name.clone() } else { i.to_string() }, f))
        .collect()
}

/// A token or something made of one.
pub fn compound(c: &mut Src, t: Ty) -> Ty {
    let l = |k: &str, t: Ty| Ty::Lib(lib(k), vec![t], 1);
    match c.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
        0 => t,
        1 => Ty::Tuple(vec![t, Ty::Tok('S', 40)]),
        2 => Ty::Tuple(vec![Ty::Tok('W', 41), t]),
        3 => l("option", t),
        4 => l("vec", t),
        5 => l("box", t),
        _ => Ty::Array(Box::new(t), Len::Lit(1)),
    }
}
