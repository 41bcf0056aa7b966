//! Generic types with hand-written implementations that do unusual things.
use crate::ast::*;
use vrt::choice::Src;

/// What an implementation does with the elements.
#[derive(Clone, Copy, Debug)]
pub struct How {
    pub order: u8,
    pub keep: u8,
    pub extra: u8,
    pub onerr: u8,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub inf: How,
    pub try_: How,
    /// implemented for `Option<_>` arguments only
    pub only: bool,
}

#[derive(Clone, Debug)]
pub enum Real {
    Param(usize),
    Fixed(&'static str),
}

#[derive(Clone, Debug)]
pub struct Hand {
    idx: u32,
    /// name of the struct or alias, without module
    bare: String,
    module: Option<String>,
    /// name under which it is imported
    import: Option<String>,
    /// arguments of the struct if the type is an alias
    real: Option<Vec<Real>>,
    /// per parameter
    plans: Vec<Option<Plan>>,
    names: Vec<String>,
    inherent: Vec<&'static str>,
    decoys: bool,
}

const NAMES: &[&str] = &[
    "Option", "Vec", "Box", "Result", "PhantomData", "TypeParam", "FuncMap", "Range", "BTreeMap", "HashMap", "Cell", "Array",
    "VecDeque", "Some", "Poll", "TryFuncMap", "FnMut", "Tt", "Aa", "Self_", "Bound", "String", "u8",
];
const METHODS: &[&str] = &["func_map", "try_func_map", "map", "func_map_over", "into_iter", "and_then", "try_func_map_over"];
const FIXED: &[&str] = &["::std::primitive::u8", "::std::string::String", "()", "::vrt::S<30>", "[::std::primitive::u8; 2]"];

fn how(c: &mut Src) -> How {
    How {
        order: c.draw(5) as u8,
        keep: c.weighted(&[6, 2, 1, 2]) as u8,
        extra: c.weighted(&[4, 1, 1]) as u8,
        onerr: c.weighted(&[4, 2, 2, 2]) as u8,
    }
}

/// `shadow` is for definitions that spell everything else with absolute paths.
pub fn hand_def(c: &mut Src, idx: u32, shadow: bool, taken: &[String]) -> Def {
    let mut params = vec![];
    let mut plans = vec![];
    let n_lt = c.small(2);
    for i in 0..n_lt {
        params.push(Param { pre: String::new(), name: ["'a", "'b"][i as usize].into(), kind: PK::Lt { bounds: vec![] } });
        plans.push(None);
    }
    let n_ty = 1 + c.small(3);
    let n_const = c.small(2);
    let mut kinds: Vec<bool> = (0..n_ty).map(|_| true).chain((0..n_const).map(|_| false)).collect();
    c.shuffle(&mut kinds);
    let mut names = vec!["A", "B", "T", "X", "U", "F", "E", "Output"];
    c.shuffle(&mut names);
    let (mut ti, mut ci) = (0, 0);
    let mut some = false;
    for (k, is_ty) in kinds.iter().enumerate() {
        if *is_ty {
            let last = !kinds[k + 1..].contains(&true);
            let mapped = (last && !some) || !c.chance(1, 5);
            some |= mapped;
            params.push(Param {
                pre: String::new(),
                name: names[ti].into(),
                kind: PK::Ty { mapped, unsized_: false, copy: false, key: false, bounds: vec![], default: None },
            });
            ti += 1;
            plans.push(mapped.then(|| {
                let inf = how(c);
                let mut try_ = if c.chance(1, 2) { inf } else { how(c) };
                try_.onerr = how(c).onerr;
                Plan { inf, try_, only: c.chance(1, 6) }
            }));
        } else {
            let ty = *c.pick(&["usize", "bool", "char"]);
            params.push(Param { pre: String::new(), name: ["N", "M"][ci].into(), kind: PK::Const { ty, default: None } });
            ci += 1;
            plans.push(None);
        }
    }
    let real = c.chance(2, 5).then(|| {
        let mut v: Vec<Real> = (n_lt as usize..params.len()).map(Real::Param).collect();
        c.shuffle(&mut v);
        for _ in 0..c.small(2) {
            let at = c.draw(v.len() as u32 + 1) as usize;
            v.insert(at, Real::Fixed(*c.pick(FIXED)));
        }
        v
    });
    let mut fields = vec![];
    let field = |name: String, ty: Ty| Field { name, ty, pre: String::new(), gone: false };
    for (i, q) in params.iter().enumerate() {
        match &q.kind {
            PK::Lt { .. } => fields.push(field(format!("l{i}"), Ty::Ref(Lt::Param(i), false, Box::new(Ty::Prim("u8"))))),
            PK::Ty { .. } => fields.push(field(format!("s{i}"), Ty::Lib(lib("vec"), vec![Ty::Param(i)], 1))),
            PK::Const { .. } => {}
        }
    }
    for (i, r) in real.iter().flatten().enumerate() {
        if let Real::Fixed(t) = r {
            fields.push(field(format!("e{i}"), Ty::Lib(lib("phantom"), vec![Ty::Leaf(*t)], 1)));
        }
    }
    let (bare, module, import) = match c.draw(4) {
        _ if shadow => {
            let mut n = c.pick(NAMES).to_string();
            if taken.contains(&n) {
                n = format!("H{idx}");
            }
            (n.clone(), Some(format!("hm{idx}")), Some(n))
        }
        0 => (format!("H{idx}"), None, None),
        1 => (c.pick(NAMES).to_string(), Some(format!("hm{idx}")), Some(format!("H{idx}"))),
        _ => (c.pick(NAMES).to_string(), Some(format!("hm{idx}")), None),
    };
    let name = match (&module, &import) {
        (_, Some(i)) => i.clone(),
        (Some(m), None) => format!("{m}::{bare}"),
        _ => bare.clone(),
    };
    let inherent = if c.chance(1, 2) {
        METHODS.iter().filter(|_| c.chance(1, 2)).copied().collect()
    } else {
        vec![]
    };
    let names = params.iter().map(|p| p.name.clone()).collect();
    Def {
        name,
        is_enum: false,
        params,
        preds: vec![],
        lt_preds: vec![],
        variants: vec![Variant { name: String::new(), style: Style::Named, fields, pre: String::new(), post: String::new() }],
        attrs: vec![],
        vis: String::new(),
        opts: vec![],
        derives: (true, true),
        derive_style: 0,
        hand: Some(Hand { idx, bare, module, import, real, plans, names, inherent, decoys: c.chance(1, 2) }),
    }
}

fn opt(only: bool, t: &str) -> String {
    if only {
        format!("::core::option::Option<{t}>")
    } else {
        t.to_string()
    }
}

impl Hand {
    /// Whether arguments for this parameter have to be `Option`s.
    pub fn only(&self, name: &str) -> bool {
        self.names.iter().position(|n| n == name).is_some_and(|i| matches!(&self.plans[i], Some(p) if p.only))
    }
    pub fn is_alias(&self) -> bool {
        self.real.is_some()
    }
    /// Whether its plain name is that of a library item.
    pub fn shadows(&self) -> bool {
        self.import.as_ref() == Some(&self.bare)
    }
    pub fn unusual(&self) -> bool {
        self.plans.iter().flatten().any(|p| p.inf.order > 0 || p.inf.keep > 0 || p.inf.extra > 0)
    }
    fn plan_text(&self, d: &Def, p: usize, try_: bool) -> String {
        let plan = self.plans[p].as_ref().unwrap();
        let h = if try_ { plan.try_ } else { plan.inf };
        format!(
            "::vrt::hand::Plan {{ tag: {}, order: {}, keep: {}, onerr: {} }}",
            1 + self.idx * 64 + d.marker(p) as u32 * 4 + try_ as u32,
            h.order,
            h.keep,
            h.onerr
        )
    }
    fn extra(&self, p: usize, try_: bool) -> u8 {
        let plan = self.plans[p].as_ref().unwrap();
        if try_ {
            plan.try_.extra
        } else {
            plan.inf.extra
        }
    }
    fn args(&self, d: &Def, at: Option<(usize, &str)>) -> String {
        let v: Vec<String> = d
            .params
            .iter()
            .enumerate()
            .map(|(i, q)| match (&q.kind, at) {
                (PK::Const { .. }, _) => format!("{{ {} }}", q.name),
                (_, Some((p, t))) if p == i => t.to_string(),
                _ => q.name.clone(),
            })
            .collect();
        format!("<{}>", v.join(", "))
    }
    fn members(&self, d: &Def) -> String {
        d.variants[0].fields.iter().map(|f| f.name.clone()).collect::<Vec<_>>().join(", ")
    }
    fn decl(&self, d: &Def, last: &str) -> String {
        let v: Vec<String> = d
            .params
            .iter()
            .map(|q| match &q.kind {
                PK::Const { ty, .. } => format!("const {}: ::std::primitive::{ty}", q.name),
                _ => q.name.clone(),
            })
            .chain((!last.is_empty()).then(|| last.to_string()))
            .collect();
        format!("<{}>", v.join(", "))
    }

    pub fn text(&self, d: &Def) -> String {
        let pr = Print { defs: &[], params: &d.params, abs: Some(""), frag: None };
        let mut s = String::new();
        let fields = |sub: &dyn Fn(&Field) -> String| {
            d.variants[0].fields.iter().map(|f| format!("pub {}: {}", f.name, sub(f))).collect::<Vec<_>>().join(", ")
        };
        let name = &self.bare;
        match &self.real {
            None => {
                s += &format!("pub struct {name}{} {{ {} }}\n", self.decl(d, ""), fields(&|f| pr.ty(&f.ty)));
            }
            Some(real) => {
                let lts: Vec<String> =
                    d.params.iter().filter(|q| matches!(q.kind, PK::Lt { .. })).map(|q| q.name.clone()).collect();
                let decl: Vec<String> = lts
                    .iter()
                    .cloned()
                    .chain(real.iter().enumerate().map(|(i, r)| match r {
                        Real::Param(p) => match &d.params[*p].kind {
                            PK::Const { ty, .. } => format!("const {}: ::std::primitive::{ty}", d.params[*p].name),
                            _ => d.params[*p].name.clone(),
                        },
                        Real::Fixed(_) => format!("E{i}_"),
                    }))
                    .collect();
                let args: Vec<String> = lts
                    .iter()
                    .cloned()
                    .chain(real.iter().map(|r| match r {
                        Real::Param(p) => match &d.params[*p].kind {
                            PK::Const { .. } => format!("{{ {} }}", d.params[*p].name),
                            _ => d.params[*p].name.clone(),
                        },
                        Real::Fixed(t) => t.to_string(),
                    }))
                    .collect();
                let body = fields(&|f| match f.name.strip_prefix('e') {
                    Some(i) => format!("::core::marker::PhantomData<E{i}_>"),
                    None => pr.ty(&f.ty),
                });
                s += &format!("pub struct {name}R{}_<{}> {{ {body} }}\n", self.idx, decl.join(", "));
                s += &format!("pub type {name}{} = {name}R{}_<{}>;\n", self.decl(d, ""), self.idx, args.join(", "));
            }
        }
        let ms = self.members(d);
        for p in d.mapped() {
            let only = self.plans[p].as_ref().unwrap().only;
            let (ea, eb) = (opt(only, &d.params[p].name), opt(only, "B_"));
            let (src, dst) = (self.args(d, Some((p, &ea))), self.args(d, Some((p, &eb))));
            let k = d.marker(p);
            let gen = |t: bool| if self.extra(p, t) > 0 { format!(" where {ea}: ::vrt::Gen") } else { String::new() };
            s += &format!(
                "impl{} ::funcmap::FuncMap<{ea}, {eb}, ::funcmap::TypeParam<{k}>> for {name}{src}{} {{\ntype Output = {name}{dst};\nfn func_map<F_>(self, mut f_: F_) -> Self::Output where F_: ::core::ops::FnMut({ea}) -> {eb} {{\nlet {name} {{ {ms} }} = self;\nlet s{p} = match {} {{ ::core::result::Result::Ok(v_) => v_, ::core::result::Result::Err(e_) => match e_ {{}} }};\n{name} {{ {ms} }}\n}}\n}}\n",
                self.decl(d, "B_"),
                gen(false),
                self.visit(d, p, false, &format!("s{p}"), "&mut |x_| ::core::result::Result::Ok::<_, ::core::convert::Infallible>(f_(x_))"),
            );
            s += &format!(
                "impl{} ::funcmap::TryFuncMap<{ea}, {eb}, ::funcmap::TypeParam<{k}>> for {name}{src}{} {{\ntype Output = {name}{dst};\nfn try_func_map<E_, F_>(self, mut f_: F_) -> ::core::result::Result<Self::Output, E_> where F_: ::core::ops::FnMut({ea}) -> ::core::result::Result<{eb}, E_> {{\nlet {name} {{ {ms} }} = self;\nlet s{p} = {}?;\n::core::result::Result::Ok({name} {{ {ms} }})\n}}\n}}\n",
                self.decl(d, "B_"),
                gen(true),
                self.visit(d, p, true, &format!("s{p}"), "&mut f_"),
            );
        }
        if self.decoys {
            s += &self.decoy_text(d);
        }
        for m in &self.inherent {
            let p = d.mapped()[0];
            let a = &d.params[p].name;
            let dst = self.args(d, Some((p, "B_")));
            let head = format!("impl{} {name}{} {{ ", self.decl(d, ""), self.args(d, None));
            s += &head;
            s += &match *m {
                "into_iter" => format!("pub fn into_iter(self) -> ::std::vec::IntoIter<{a}> {{ ::core::panic!(\"inherent\") }}"),
                m if m.starts_with("try") => format!("pub fn {m}<E_, B_, F_: ::core::ops::FnMut({a}) -> ::core::result::Result<B_, E_>>(self, _: F_) -> ::core::result::Result<{name}{dst}, E_> {{ ::core::panic!(\"inherent\") }}"),
                m => format!("pub fn {m}<B_, F_: ::core::ops::FnMut({a}) -> B_>(self, _: F_) -> {name}{dst} {{ ::core::panic!(\"inherent\") }}"),
            };
            s += " }\n";
        }
        match &self.module {
            None => s,
            Some(m) => {
                let import = match &self.import {
                    Some(i) if i == name => format!("pub use self::{m}::{name};\n"),
                    Some(i) => format!("pub use self::{m}::{name} as {i};\n"),
                    None => String::new(),
                };
                format!("pub mod {m} {{\n{s}}}\n{import}")
            }
        }
    }

    /// Implementations for other markers, which are never to be used.
    fn decoy_text(&self, d: &Def) -> String {
        let mut s = String::new();
        let name = &self.bare;
        let used: Vec<usize> = d.mapped().iter().map(|p| d.marker(*p)).collect();
        let n = d.params.iter().filter(|q| !matches!(q.kind, PK::Lt { .. })).count();
        let mut todo: Vec<(usize, usize)> = vec![(n, d.mapped()[0]), (n + 1, *d.mapped().last().unwrap())];
        for p in d.mapped() {
            // positions counted with lifetimes, or those of the aliased type
            todo.push((p, p));
            if let Some(r) = &self.real {
                todo.push((r.iter().position(|r| matches!(r, Real::Param(q) if *q == p)).unwrap(), p));
            }
        }
        let mut done = used;
        for (k, p) in todo {
            if done.contains(&k) {
                continue;
            }
            done.push(k);
            let a = &d.params[p].name;
            let (src, dst) = (self.args(d, None), self.args(d, Some((p, "B_"))));
            let g = self.decl(d, "B_");
            s += &format!("impl{g} ::funcmap::FuncMap<{a}, B_, ::funcmap::TypeParam<{k}>> for {name}{src} {{ type Output = {name}{dst}; fn func_map<F_: ::core::ops::FnMut({a}) -> B_>(self, _: F_) -> Self::Output {{ ::core::panic!(\"decoy\") }} }}\n");
            s += &format!("impl{g} ::funcmap::TryFuncMap<{a}, B_, ::funcmap::TypeParam<{k}>> for {name}{src} {{ type Output = {name}{dst}; fn try_func_map<E_, F_: ::core::ops::FnMut({a}) -> ::core::result::Result<B_, E_>>(self, _: F_) -> ::core::result::Result<Self::Output, E_> {{ ::core::panic!(\"decoy\") }} }}\n");
        }
        s
    }

    fn visit(&self, d: &Def, p: usize, try_: bool, v: &str, f: &str) -> String {
        let plan = self.plan_text(d, p, try_);
        match self.extra(p, try_) {
            0 => format!("::vrt::hand::visit(&{plan}, {v}, {f})"),
            k => format!("::vrt::hand::visit_gen(&{plan}, {}, {v}, {f})", k == 1),
        }
    }

    /// Arms of the reference function.
    pub fn ref_body(&self, d: &Def, p: usize, up: &str) -> String {
        let n = format!("{up}{}", d.name);
        let ms = self.members(d);
        format!(
            "{n} {{ {ms} }} => {{ let s{p} = if ::vrt::hand::trying() {{ {} }} else {{ {} }}?; {n} {{ {ms} }} }}\n",
            self.visit(d, p, true, &format!("s{p}"), "f"),
            self.visit(d, p, false, &format!("s{p}"), "f")
        )
    }
}
