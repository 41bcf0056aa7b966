//! Generator of definitions, driven by a choice sequence.
use crate::ast::*;
use vrt::choice::Src;

#[derive(Clone, Debug)]
pub struct Profile {
    pub nested: u32,
    pub max_ty_params: u32,
    pub min_mapped: u32,
    pub max_fields: u32,
    pub depth: u32,
    pub lts: bool,
    pub consts: bool,
    pub bounds: bool,
    pub std_bounds: bool,
    pub free: bool,
    pub unsized_: bool,
    pub deco: bool,
    pub spelled: bool,
    pub wild: bool,
    /// one case in n is large
    pub large: u32,
    /// hash-based and other std-only types are used
    pub libs: bool,
    pub one_derive: bool,
    pub enums: bool,
    pub cfg_fields: bool,
    /// relative library paths (`std::vec::Vec`) may be used
    pub rel_paths: bool,
    pub opts: bool,
    pub const_exprs: bool,
    /// constants passed through a macro `same` that `scope_items` defines
    pub macros: bool,
    /// names of parameters that are easily mixed up
    pub alike: bool,
    /// number of hand-written generic types
    pub hand: u32,
    /// hand-written types have plain names of library items
    pub shadow: bool,
    /// another derive macro with attributes of its own is used along
    pub helper: bool,
    /// library types may be spelled as projections of unmapped parameters
    pub proj: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            nested: 2,
            max_ty_params: 3,
            min_mapped: 1,
            max_fields: 4,
            depth: 3,
            lts: true,
            consts: true,
            bounds: true,
            std_bounds: false,
            free: true,
            unsized_: true,
            helper: false,
            proj: true,
            deco: true,
            spelled: true,
            wild: false,
            large: 12,
            libs: true,
            one_derive: false,
            enums: true,
            cfg_fields: true,
            rel_paths: true,
            opts: true,
            const_exprs: true,
            macros: false,
            alike: false,
            hand: 0,
            shadow: false,
        }
    }
}

const TY_NAMES: &[&str] = &["T", "U", "V", "W", "X", "Y", "Z", "P", "Q", "R", "A", "B", "C", "D", "E", "F"];
const ALIKE: &[&str] = &["T", "t", "TT", "Tt", "T_", "_T", "T1", "t1", "T10", "T01", "r#fn", "Fn", "fn_", "É", "é", "E", "ǅ", "ǆ"];
const WILD_TY_NAMES: &[&str] = &[
    "T", "A", "B", "E", "F", "C", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "U", "V", "W", "X",
    "Y", "Z", "A1", "B1", "Aa", "t", "a", "b", "f", "r#type", "r#fn", "r#A", "r#B", "r#F", "r#E", "r#match", "Vec",
    "Option", "Result", "Ok", "Err", "Some", "None", "FnMut", "u8", "str", "bool", "std", "core", "alloc", "funcmap",
    "FuncMap", "TryFuncMap", "TypeParam", "Output", "TypeMarker", "value", "field_0", "field_a", "self_", "Sized",
    "Send", "Box", "Ärger", "Т", "Ω", "É", "ß", "__FUNCMAP_A", "__FUNCMAP_B", "FUNCMAP_A", "_A", "_T", "func_map", "Err_", "Iterator",
    "r#async", "r#dyn", "r#true", "r#union", "__field_0", "AA", "BB", "T0", "Fn", "r#static", "macro_rules",
    "r#try", "auto", "r#default", "DropFuncMap", "DropTryFuncMap", "vrt_",
];
/// Names of items that definitions refer to.
const SCOPE_NAMES: &[&str] = &["A", "B", "C", "D", "E", "F", "G", "H", "T", "Output", "FuncMap", "Vec", "__FUNCMAP_A", "FnMut", "r#type", "core"];
const WILD_CONST_NAMES: &[&str] =
    &["N", "A", "B", "E", "F", "M", "K", "Output", "r#fn", "LEN", "r#A", "Ok", "Err", "Self_", "T", "N0", "__FUNCMAP_A", "Ö"];
const WILD_LTS: &[&str] = &["'a", "'b", "'f", "'A", "'de", "'__funcmap", "'r#fn", "'ö", "'field_0", "'_x"];
const WILD_FIELDS: &[&str] = &[
    "a", "b", "f", "x", "self_", "value", "field_0", "field_a", "field_f", "r#type", "r#fn", "r#match", "A", "T", "Output",
    "func_map", "err", "mapped", "ok", "äöü", "_0", "_a", "__", "r#async", "r#a", "r#field_0", "e", "B", "F", "E", "Ok", "core",
    "std", "funcmap", "r#loop", "r#f",
];
const WILD_VARIANTS: &[&str] = &[
    "A", "B", "C", "Output", "Ok", "Err", "Some", "None", "r#type", "r#fn", "FuncMap", "T", "U", "f_", "F", "E", "Self_",
    "Ünit", "value_", "TypeParam", "r#match", "Result", "core_", "r#Output", "Vec", "TryFuncMap", "Fn", "FnMut", "R",
];
const WILD_TYPE_NAMES: &[&str] = &[
    "Main", "M", "A", "B", "E", "F", "Vec", "Option", "Result", "FuncMap", "TryFuncMap", "TypeParam", "Output", "FnMut", "r#match",
    "r#type", "r#Main", "main_", "u8", "str", "Type", "T", "Ok", "Err", "Box", "Self_", "Sized", "core", "std", "funcmap", "Straße", "G",
    "__FuncMap", "C", "D", "H", "Func", "TypeMarker", "N", "Drop", "i32", "bool",
];

pub struct Gen<'a> {
    pub c: &'a mut Src,
    pub p: Profile,
    pub defs: Vec<Def>,
    params: Vec<Param>,
    used: Vec<String>,
    left: i32,
    large: bool,
    top: bool,
    /// the lifetime used inside the current definition (see known finding D10)
    cur_lt: Lt,
    /// items next to the definitions that they mention: kind and name
    pub scope: Vec<(u8, &'static str)>,
}

fn norm(s: &str) -> String {
    s.strip_prefix("r#").unwrap_or(s).trim_start_matches("'r#").trim_start_matches('\'').to_string()
}

impl<'a> Gen<'a> {
    pub fn new(c: &'a mut Src, p: Profile) -> Gen<'a> {
        let large = p.large > 0 && c.chance(1, p.large);
        Gen { c, p, defs: vec![], params: vec![], used: vec![], left: 0, large, top: false, cur_lt: Lt::Static, scope: vec![] }
    }

    /// Nested definitions first, the main one last.
    pub fn program(&mut self) {
        let n = if self.p.nested == 0 { 0 } else { self.c.small(self.p.nested) };
        // one name that the generated code would like to use, in one kind of place
        let hot = self.p.wild && self.c.chance(1, 4);
        if hot {
            let kind = [0, 1, 2, 0][self.c.draw(4) as usize];
            self.scope.push((kind, *self.c.pick(&["A", "B", "F", "E"])));
        } else if self.p.wild {
            for _ in 0..self.c.draw(5) {
                let kind = self.c.draw(3) as u8;
                let n = *self.c.pick(SCOPE_NAMES);
                if self.scope.iter().all(|(_, m)| *m != n) {
                    self.scope.push((kind, n));
                }
            }
        }
        for i in 0..self.p.hand {
            let taken: Vec<String> = self.defs.iter().map(|d| d.name.clone()).collect();
            let d = crate::hand::hand_def(self.c, i, self.p.shadow, &taken);
            self.defs.push(d);
        }
        for i in 0..n {
            self.top = false;
            self.def(&format!("Inner{i}"));
        }
        self.top = true;
        self.def("Main");
        self.limit();
    }

    /// Bounds the number of elements a value can statically hold.
    fn limit(&mut self) {
        for cap in [usize::MAX, 3, 1] {
            if cap != usize::MAX {
                for d in &mut self.defs {
                    for v in &mut d.variants {
                        for f in &mut v.fields {
                            clamp(&mut f.ty, cap);
                        }
                    }
                }
            }
            let m = self.defs.len() - 1;
            let args = vec![1u64; self.defs[m].params.len()];
            if def_weight(&self.defs, m, &args) <= 300 {
                return;
            }
        }
        // still too large: keep the parameters, drop the structure
        let m = self.defs.len() - 1;
        let d = &mut self.defs[m];
        for v in &mut d.variants {
            for f in &mut v.fields {
                let used: Vec<usize> = (0..d.params.len()).filter(|i| d.params[*i].is_ty() && f.ty.mentions(*i)).collect();
                let lts: Vec<usize> = (0..d.params.len())
                    .filter(|i| matches!(d.params[*i].kind, PK::Lt { .. }))
                    .collect();
                let mut ts: Vec<Ty> = used.into_iter().map(|i| Ty::Lib(lib("phantom"), vec![Ty::Param(i)], 1)).collect();
                ts.extend(lts.into_iter().map(|i| Ty::Ref(Lt::Param(i), false, Box::new(Ty::Prim("u8")))));
                f.ty = Ty::Tuple(ts);
            }
        }
    }

    fn name(&mut self, wild: &[&str], plain: &str) -> String {
        let n = if self.p.wild && self.c.chance(3, 4) {
            self.c.pick(wild).to_string()
        } else if self.p.alike && std::ptr::eq(wild, WILD_TY_NAMES) && self.c.chance(1, 2) {
            self.c.pick(ALIKE).to_string()
        } else {
            plain.to_string()
        };
        let mut s = n;
        let mut k = 0;
        while self.used.contains(&norm(&s)) {
            k += 1;
            s = if plain.starts_with('\'') { format!("'l{k}") } else { format!("{plain}{k}") };
        }
        self.used.push(norm(&s));
        s
    }

    pub fn def(&mut self, plain: &str) -> usize {
        let saved: Vec<String> = self.defs.iter().map(|d| norm(&d.name)).collect();
        let p = self.p.clone();
        let scope: Vec<String> = self.scope.iter().map(|(_, n)| norm(n)).collect();
        self.used = saved;
        self.used.extend(scope.clone());
        let is_enum = p.enums && self.c.chance(2, 5);
        let name = self.name(WILD_TYPE_NAMES, plain);
        self.used = vec![norm(&name)];
        self.used.extend(scope);

        // parameters
        let mut params: Vec<Param> = vec![];
        if p.lts {
            for i in 0..self.c.small(2) {
                let bounds = if i > 0 && self.c.chance(1, 3) { vec![0] } else { vec![] };
                let n = self.name(WILD_LTS, ["'a", "'b"][i as usize]);
                params.push(Param { pre: String::new(), name: n, kind: PK::Lt { bounds } });
            }
        }
        let n_lt = params.len();
        let many = self.large && self.top && p.max_ty_params > 1 && self.c.chance(1, 4);
        let n_ty = if many { self.c.range(6, 30) } else { 1 + self.c.small(p.max_ty_params.max(1) - 1) };
        let n_ty = n_ty.max(p.min_mapped);
        let n_const = if p.consts { self.c.small(2) } else { 0 };
        let mut kinds: Vec<bool> = (0..n_ty).map(|_| true).chain((0..n_const).map(|_| false)).collect();
        if n_const > 0 {
            self.c.shuffle(&mut kinds);
        }
        let mut n_mapped = 0;
        let (mut ti, mut ci) = (0usize, 0);
        for is_ty in kinds {
            if is_ty {
                let plain = TY_NAMES.get(ti).map(|s| s.to_string()).unwrap_or(format!("T{ti}"));
                ti += 1;
                let n = self.name(WILD_TY_NAMES, &plain);
                let rest = n_ty as usize - ti;
                let must = n_mapped + rest as u32 + 1 <= p.min_mapped;
                let mapped = must || !(p.free && self.c.chance(1, 4));
                n_mapped += mapped as u32;
                let unsized_ = p.unsized_ && self.c.chance(1, 8);
                params.push(Param {
                    pre: String::new(),
                    name: n,
                    kind: PK::Ty { mapped, unsized_, copy: !mapped && !unsized_, key: false, bounds: vec![], default: None },
                });
            } else {
                let plain = ["N", "M", "K"][ci];
                ci += 1;
                let n = self.name(WILD_CONST_NAMES, plain);
                let ty = *self.c.pick(&["usize", "usize", "usize", "bool", "i32", "char", "u8"]);
                params.push(Param { pre: String::new(), name: n, kind: PK::Const { ty, default: None } });
            }
        }
        if n_mapped == 0 {
            // at least one parameter is mapped
            let i = params.iter().position(|q| q.is_ty()).unwrap();
            if let PK::Ty { mapped, copy, .. } = &mut params[i].kind {
                *mapped = true;
                *copy = false;
            }
        }
        self.params = params;
        // types that differ in lifetimes only are not mixed in one definition (known finding D10)
        self.cur_lt =
            if n_lt > 0 && self.c.chance(3, 4) { Lt::Param(self.c.draw(n_lt as u32) as usize) } else { Lt::Static };

        // fields
        let n_var = if is_enum {
            if self.large && self.top && self.c.chance(1, 3) {
                self.c.range(4, 12)
            } else {
                1 + self.c.small(3)
            }
        } else {
            1
        };
        self.left = if self.large { 60 } else { 22 };
        let mut variants = vec![];
        let mut vused: Vec<String> = vec![];
        let outer_used = std::mem::take(&mut self.used);
        for vi in 0..n_var {
            let style = match self.c.weighted(&[4, 4, if is_enum { 2 } else { 0 }]) {
                0 => Style::Named,
                1 => Style::Tuple,
                _ => Style::Unit,
            };
            let vname = if is_enum {
                self.used = vused.clone();
                let n = self.name(WILD_VARIANTS, &format!("V{vi}"));
                vused = self.used.clone();
                n
            } else {
                String::new()
            };
            self.used = vec![];
            let nf = match style {
                Style::Unit => 0,
                _ if self.large && self.top && self.c.chance(1, 3) => self.c.range(5, 20),
                _ => self.c.draw(p.max_fields + 1),
            };
            let mut fields = vec![];
            for fi in 0..nf {
                fields.push(self.field(fi, style));
            }
            variants.push(Variant { name: vname, style, fields, pre: String::new(), post: String::new() });
        }
        // parameters that end up in keys
        for i in 0..self.params.len() {
            let used = variants.iter().flat_map(|v| v.fields.iter()).any(|f| {
                f.ty.any(&mut |t| match t {
                    Ty::Lib(l, ts, _) => l.keys.iter().any(|k| ts[*k].mentions(i)),
                    Ty::User(d, args, _) => args.iter().enumerate().any(|(k, a)| {
                        matches!((a, &self.defs[*d].params[k].kind), (Arg::Ty(t), PK::Ty { key: true, .. }) if t.mentions(i))
                    }),
                    _ => false,
                })
            });
            if let (true, PK::Ty { key, .. }) = (used, &mut self.params[i].kind) {
                *key = true;
            }
        }
        // every lifetime and type parameter has to be used
        for i in 0..self.params.len() {
            let used = variants.iter().flat_map(|v| v.fields.iter()).filter(|f| !f.gone).any(|f| {
                f.ty.any(&mut |t| match t {
                    Ty::Param(q) => *q == i,
                    Ty::Ref(Lt::Param(q), ..) | Ty::Cow(Lt::Param(q), _) => *q == i,
                    Ty::User(_, args, _) => args.contains(&Arg::Lt(Lt::Param(i))),
                    // a parameter that only occurs in a projection counts as unused
                    _ => false,
                })
            });
            let proj = variants.iter().flat_map(|v| v.fields.iter()).any(|f| {
                f.ty.any(&mut |t| matches!(t, Ty::Assoc(u, _) if u.mentions(i)))
            });
            if used && !proj {
                continue;
            }
            let ty = match &self.params[i].kind {
                PK::Const { .. } => continue,
                PK::Lt { .. } => Ty::Ref(Lt::Param(i), false, Box::new(Ty::Prim("u8"))),
                PK::Ty { unsized_: false, .. } if self.c.chance(2, 3) => Ty::Param(i),
                PK::Ty { unsized_: true, mapped: true, .. } if self.c.chance(1, 2) => {
                    Ty::Lib(lib("box"), vec![Ty::Param(i)], 1)
                }
                PK::Ty { .. } => Ty::Lib(lib("phantom"), vec![Ty::Param(i)], 1),
            };
            let k = self.c.draw(variants.len() as u32) as usize;
            let v = &mut variants[k];
            if v.style == Style::Unit {
                v.style = Style::Tuple;
            }
            let nf = v.fields.len();
            self.used = v.fields.iter().map(|f| norm(&f.name)).collect();
            let name = format!("x{nf}_{i}");
            v.fields.push(Field { name, ty, pre: String::new(), gone: false });
        }
        // a plain field of a `?Sized` parameter may only be the last one of a struct: not generated
        self.used = outer_used;

        // bounds
        let mut preds = vec![];
        let mut lt_preds = vec![];
        if p.bounds {
            for i in 0..self.params.len() {
                if !self.params[i].is_ty() {
                    continue;
                }
                let un = self.params[i].is_unsized();
                let mut bs = vec![];
                for _ in 0..self.c.small(2) {
                    bs.push(self.bound(i));
                }
                if un {
                    if self.c.chance(1, 4) {
                        preds.push(Pred { ty: Ty::Param(i), bounds: vec![Bound::MaybeSized], hr: false });
                    } else {
                        let at = self.c.draw(bs.len() as u32 + 1) as usize;
                        bs.insert(at, Bound::MaybeSized);
                    }
                }
                if let PK::Ty { bounds, .. } = &mut self.params[i].kind {
                    *bounds = bs;
                }
            }
            for _ in 0..self.c.small(2) {
                let ty = self.pred_ty();
                let mut bs = vec![];
                for _ in 0..1 + self.c.small(1) {
                    if let Some(n) = self.scoped(2) {
                        bs.push(Bound::Std(Box::leak(format!("~{n}").into_boxed_str())));
                        continue;
                    }
                    bs.push(match self.c.draw(4) {
                        3 => Bound::Form(*self.c.pick(BOUNDS), self.pred_ty()),
                        0 => Bound::Tr0,
                        1 => Bound::Tr1(self.pred_ty()),
                        _ => Bound::Hrtb(self.pred_ty()),
                    });
                }
                preds.push(Pred { ty, bounds: bs, hr: false });
            }
            if self.c.chance(1, 8) {
                let ts: Vec<Ty> = (0..self.c.draw(3)).map(|_| self.pred_ty()).collect();
                let r = self.pred_ty();
                preds.push(Pred { ty: Ty::Fn(ts.clone(), Box::new(r.clone())), bounds: vec![Bound::Call(ts, r)], hr: false });
            }
            if n_lt == 2 && self.c.chance(1, 4) {
                lt_preds.push((1, 0));
            }
        } else {
            for i in 0..self.params.len() {
                if self.params[i].is_unsized() {
                    if let PK::Ty { bounds, .. } = &mut self.params[i].kind {
                        bounds.push(Bound::MaybeSized);
                    }
                }
            }
        }
        // defaults: a trailing run of type and const parameters
        if p.deco && self.c.chance(1, 6) {
            let k = self.c.range(1, (self.params.len() - n_lt) as u32) as usize;
            let len = self.params.len();
            let others = (0..len).map(|i| self.params[i].name.clone()).collect::<Vec<_>>();
            for i in len - k..len {
                match &mut self.params[i].kind {
                    PK::Ty { default, .. } => *default = Some(Ty::Tok('C', 9)),
                    PK::Const { ty, default } => *default = Some(const_val(ty, 1)),
                    PK::Lt { .. } => {}
                }
            }
            let _ = others;
        }

        // the short forms of associated types need a bound
        for i in 0..self.params.len() {
            let short = variants.iter().flat_map(|v| v.fields.iter()).any(|f| {
                f.ty.any(&mut |t| matches!(t, Ty::Assoc(u, 1..) if **u == Ty::Param(i)))
            });
            if let (true, PK::Ty { bounds, .. }) = (short, &mut self.params[i].kind) {
                if !bounds.contains(&Bound::As) {
                    bounds.push(Bound::As);
                }
            }
            let proj = variants.iter().flat_map(|v| v.fields.iter()).any(|f| {
                f.ty.any(&mut |t| matches!(t, Ty::Lib(_, _, s) if *s as usize == 33 + 2 * i))
            });
            if let (true, PK::Ty { bounds, .. }) = (proj, &mut self.params[i].kind) {
                bounds.push(Bound::Std("::vrt::Fams"));
            }
        }

        // options
        let mapped: Vec<usize> = (0..self.params.len()).filter(|i| self.params[*i].is_mapped()).collect();
        let all = self.params.iter().filter(|q| q.is_ty()).count() == mapped.len();
        let mut opts = vec![];
        if !all || (p.opts && self.c.chance(1, 6)) {
            let mut names: Vec<String> = mapped.iter().map(|i| self.params[*i].name.clone()).collect();
            if self.c.chance(1, 2) {
                self.c.shuffle(&mut names);
            }
            match self.c.draw(4) {
                1 if names.len() > 1 => {
                    let k = self.c.range(1, names.len() as u32 - 1) as usize;
                    opts.push(format!("params({})", names[..k].join(", ")));
                    opts.push(format!("params({})", names[k..].join(", ")));
                }
                2 => opts.push(format!("params({},),", names.join(","))),
                3 if names.len() > 1 => {
                    let k = self.c.range(1, names.len() as u32 - 1) as usize;
                    opts.push(format!("params({}), params({},)", names[..k].join(", "), names[k..].join(", ")));
                }
                _ => opts.push(format!("params({})", names.join(", "))),
            }
        }

        // decorations
        let mut attrs: Vec<String> = vec![];
        let mut vis = String::new();
        if p.deco {
            vis = self.c.pick(&["", "", "pub ", "pub(crate) ", "pub(self) "]).to_string();
            match self.c.draw(10) {
                1 => attrs.push("#[repr(C)]".into()),
                2 => attrs.push("#[non_exhaustive]".into()),
                3 => attrs.push("/// doc \"comment\" `T`".into()),
                4 if is_enum => {
                    attrs.push("#[repr(u8)]".into());
                    for (i, v) in variants.iter_mut().enumerate() {
                        if self.c.chance(1, 2) {
                            v.post = format!(" = {}", i * 3 + 1);
                        }
                    }
                }
                4 if self.c.chance(1, 2) => attrs.push("#[repr(C, packed(2))]".into()),
                4 => attrs.push("#[repr(packed)]".into()),
                5 => attrs.push("#[must_use]".into()),
                6 => attrs.push("#[cfg_attr(all(), allow(dead_code))]".into()),
                _ => {}
            }
            for q in &mut self.params {
                if self.c.chance(1, 14) {
                    q.pre = self.c.pick(&["#[allow(clippy::all)] ", "/** doc */ ", "#[allow(bad_style)] #[warn(unused_braces)] "]).to_string();
                }
            }
        }
        if p.cfg_fields {
            for v in &mut variants {
                if v.style != Style::Unit && self.c.chance(1, 12) {
                    let at = self.c.draw(v.fields.len() as u32 + 1) as usize;
                    v.fields.insert(
                        at,
                        Field { name: "cfgd".into(), ty: Ty::Leaf("NoSuchType"), pre: "#[cfg(any())] ".into(), gone: true },
                    );
                }
            }
        }
        if p.helper && self.c.chance(1, 6) {
            const H: &[&str] = &["#[hlp] ", "#[hlp(skip, T = \"A\")] ", "#[hlp = \"f\"] ", "#[hlp(T, 'a, fn() -> A)] "];
            attrs.push("#[derive(::hlp::Helper)]".into());
            if self.c.chance(1, 3) {
                attrs.push(self.c.pick(H).to_string());
            }
            for q in &mut self.params {
                if self.c.chance(1, 2) {
                    q.pre += *self.c.pick(H);
                }
            }
            for v in &mut variants {
                if is_enum && self.c.chance(1, 4) {
                    v.pre = format!("{}{}", self.c.pick(H), v.pre);
                }
                for f in &mut v.fields {
                    if self.c.chance(1, 4) {
                        f.pre = format!("{}{}", self.c.pick(H), f.pre);
                    }
                }
            }
        }
        let derives = if p.one_derive && self.top {
            *self.c.pick(&[(true, true), (true, false), (false, true)])
        } else {
            (true, true)
        };
        let derive_style = self.c.draw(3) as u8;
        let params = std::mem::take(&mut self.params);
        self.defs.push(Def {
            name,
            is_enum,
            params,
            preds,
            lt_preds,
            variants,
            attrs,
            vis,
            opts,
            derives,
            derive_style,
            hand: None,
        });
        self.defs.len() - 1
    }

    fn field(&mut self, fi: u32, style: Style) -> Field {
        let name = if style == Style::Named {
            let plain = if fi < 6 { ["a", "b", "c", "d", "e", "g"][fi as usize].to_string() } else { format!("h{fi}") };
            self.name(WILD_FIELDS, &plain)
        } else {
            String::new()
        };
        let depth = if self.large { self.p.depth + 2 } else { self.p.depth };
        let ty = self.ty(depth, 1, true);
        let mut pre = String::new();
        if self.p.deco {
            match self.c.draw(12) {
                1 => pre = "pub ".into(),
                2 => pre = "#[allow(dead_code)] ".into(),
                3 => pre = "#[cfg(all())] ".into(),
                4 => pre = "/** doc */ pub(crate) ".into(),
                _ => {}
            }
        }
        Field { name, ty, pre, gone: false }
    }

    fn visible_in_enum(f: &mut Field) {
        f.pre = f.pre.replace("pub(crate) ", "").replace("pub ", "");
    }

    fn bound(&mut self, i: usize) -> Bound {
        let un = self.params[i].is_unsized();
        let std = self.p.std_bounds && self.top && !un;
        if let Some(n) = self.scoped(2) {
            return Bound::Std(Box::leak(format!("~{n}").into_boxed_str()));
        }
        match self.c.weighted(&[3, 3, if un { 0 } else { 2 }, if un { 0 } else { 1 }, 2, if std { 5 } else { 0 }, if un { 0 } else { 1 }]) {
            0 => Bound::Tr0,
            1 => Bound::Tr1(self.pred_ty()),
            2 => Bound::As,
            3 => Bound::AsX(Ty::Param(i)),
            4 => Bound::Hrtb(self.pred_ty()),
            6 => Bound::Form(*self.c.pick(BOUNDS), self.pred_ty()),
            _ => Bound::Std(*self.c.pick(&[
                "Clone",
                "::std::fmt::Debug",
                "PartialEq",
                "Ord",
                "::std::hash::Hash",
                "Default",
                "Send",
                "::std::marker::Sync",
            ])),
        }
    }

    /// A type used in bounds and predicates: may mention any sized parameter in any way.
    fn pred_ty(&mut self) -> Ty {
        let ps: Vec<usize> = (0..self.params.len()).filter(|i| self.params[*i].is_ty() && !self.params[*i].is_unsized()).collect();
        if ps.is_empty() {
            return Ty::Prim("u8");
        }
        let t = if self.c.chance(1, 8) { self_ty(self.defs.len(), &self.params) } else { Ty::Param(*self.c.pick(&ps)) };
        match self.c.draw(6) {
            1 => Ty::Lib(lib("vec"), vec![t], 1),
            2 => {
                let other = self.scoped(1).map(|n| Ty::Leaf(Box::leak(format!("~{n}").into_boxed_str())));
                Ty::Tuple(vec![t, other.unwrap_or(Ty::Prim("u8"))])
            }
            3 => Ty::Fn(vec![t], Box::new(Ty::Prim("bool"))),
            4 => {
                let len = self.scoped(0).map(|n| Len::Expr(self.in_macro(format!("~{n}::U")), 2));
                Ty::Array(Box::new(t), len.unwrap_or(Len::Lit(2)))
            }
            5 => Ty::Lib(lib("option"), vec![Ty::Paren(Box::new(t))], 1),
            _ => t,
        }
    }

    fn spelling(&mut self) -> u8 {
        if self.p.proj && self.p.spelled && self.p.hand == 0 && self.c.chance(1, 8) {
            let free: Vec<usize> = (0..self.params.len())
                .filter(|i| self.params[*i].is_ty() && !self.params[*i].is_mapped() && *i < 100)
                .collect();
            if !free.is_empty() {
                return 32 + 2 * *self.c.pick(&free) as u8 + self.c.draw(2) as u8;
            }
        }
        if self.p.wild || !self.p.spelled {
            return if self.p.spelled && self.c.chance(1, 10) { 7 } else { 1 };
        }
        if self.p.hand > 0 && !self.p.shadow && self.c.chance(1, 4) {
            return 6;
        }
        match self.c.draw(10) {
            0 | 1 => 0,
            2 if self.p.rel_paths => 2,
            3 => 4,
            4 => 5,
            8 => 7,
            9 if !self.p.shadow => 8,
            _ => 1,
        }
    }

    fn array_len(&mut self, mult: u32) -> (Len, u32) {
        let cs: Vec<usize> = (0..self.params.len())
            .filter(|i| matches!(self.params[*i].kind, PK::Const { ty: "usize", .. }))
            .collect();
        if !cs.is_empty() && self.c.chance(1, 2) {
            return (Len::Param(*self.c.pick(&cs)), 3);
        }
        if self.large && mult == 1 && self.c.chance(1, 4) {
            let n = self.c.range(4, 70) as usize;
            return (Len::Lit(n), n as u32);
        }
        if let Some(n) = self.scoped(0) {
            return (Len::Expr(self.in_macro(format!("~{n}::U")), 2), 2);
        }
        let n = self.c.draw(4) as usize;
        if self.p.const_exprs && self.c.chance(1, 6) {
            let s = match self.c.draw(5) {
                0 => format!("{n}usize"),
                3 => format!("{{ struct X<T>(T); let x: X<::std::primitive::usize> = X({n}); x.0 }}"),
                4 => format!("{{ fn id<T>(t: T) -> T {{ t }} let _ = id::<::std::primitive::u8>; match {n} {{ t => t }} }}"),
                1 => format!("{{ {n} + 0 }}"),
                _ => format!("{n} * 1"),
            };
            return (Len::Expr(s, n), n as u32);
        }
        (Len::Lit(n), n as u32)
    }

    /// Key types: ordered and hashable for tokens.
    fn key_ty(&mut self, depth: u32, mapped: bool) -> Ty {
        self.left -= 1;
        let ps: Vec<usize> = (0..self.params.len())
            .filter(|i| self.params[*i].is_ty() && !self.params[*i].is_unsized() && (mapped || !self.params[*i].is_mapped()))
            .collect();
        let deep = depth > 0 && self.left > 0;
        match self.c.weighted(&[
            if ps.is_empty() { 0 } else { 6 },
            1,
            if deep { 1 } else { 0 },
            if deep { 1 } else { 0 },
            if deep { 1 } else { 0 },
        ]) {
            0 => Ty::Param(*self.c.pick(&ps)),
            1 => {
                if self.c.chance(1, 2) {
                    Ty::Prim("u16")
                } else {
                    Ty::Tok('S', 12)
                }
            }
            2 => {
                let n = self.c.draw(3);
                Ty::Tuple((0..n).map(|_| self.key_ty(depth - 1, mapped)).collect())
            }
            3 => Ty::Array(Box::new(self.key_ty(depth - 1, mapped)), Len::Lit(self.c.draw(3) as usize)),
            _ => {
                let l = *self.c.pick(&["option", "box", "vec"]);
                let sp = self.spelling();
                Ty::Lib(lib(l), vec![self.key_ty(depth - 1, mapped)], sp)
            }
        }
    }

    /// A field or argument type. `mapped`: mapped parameters may occur.
    pub fn ty(&mut self, depth: u32, mult: u32, mapped: bool) -> Ty {
        self.left -= 1;
        let sized: Vec<usize> = (0..self.params.len())
            .filter(|i| self.params[*i].is_ty() && !self.params[*i].is_unsized() && (mapped || !self.params[*i].is_mapped()))
            .collect();
        let unsz: Vec<usize> = (0..self.params.len())
            .filter(|i| self.params[*i].is_unsized() && (mapped || !self.params[*i].is_mapped()))
            .collect();
        let deep = depth > 0 && self.left > 0;
        let d = |w: u32| if deep { w } else { 0 };
        let users = if self.defs.is_empty() { 0 } else { 8 + 8 * self.p.hand };
        let k = self.c.weighted(&[
            if sized.is_empty() { 0 } else { if deep { 7 } else { 12 } },
            2,
            d(1),
            if mult < 100 { d(3) } else { 0 },
            d(4),
            d(if self.p.libs { 14 } else { 0 }),
            d(users),
            2,
            if unsz.is_empty() { 0 } else { 4 },
        ]);
        match k {
            0 => Ty::Param(*self.c.pick(&sized)),
            1 => self.leaf(),
            2 => Ty::Paren(Box::new(self.ty(depth - 1, mult, mapped))),
            3 => {
                let (l, m) = self.array_len(mult);
                Ty::Array(Box::new(self.ty(depth - 1, mult * m.max(1), mapped)), l)
            }
            4 => {
                let n = if self.large && self.c.chance(1, 4) { self.c.range(5, 14) } else { self.c.draw(5) };
                Ty::Tuple((0..n).map(|_| self.ty(depth - 1, mult, mapped)).collect())
            }
            5 => {
                let l = if self.c.chance(1, 3) {
                    &LIBS[self.c.draw(4) as usize]
                } else {
                    self.c.pick(LIBS)
                };
                let args = (0..l.arity)
                    .map(|i| {
                        if l.keys.contains(&i) {
                            self.key_ty(depth.min(2) - 1, mapped)
                        } else {
                            self.ty(depth - 1, mult, mapped)
                        }
                    })
                    .collect();
                let sp = self.spelling();
                Ty::Lib(l, args, sp)
            }
            6 => {
                let di = self.c.draw(self.defs.len() as u32) as usize;
                self.user(di, depth, mult, mapped)
            }
            7 => self.independent(depth),
            _ => {
                let u = Ty::Param(*self.c.pick(&unsz));
                let l = *self.c.pick(&["box", "phantom"]);
                Ty::Lib(lib(l), vec![u], 1)
            }
        }
    }

    fn user(&mut self, di: usize, depth: u32, mult: u32, mapped: bool) -> Ty {
        let ps = self.defs[di].params.clone();
        let args = ps
            .iter()
            .map(|q| match &q.kind {
                PK::Lt { .. } => Arg::Lt(self.lt()),
                PK::Const { ty, .. } => {
                    let cs: Vec<usize> = (0..self.params.len())
                        .filter(|i| matches!(self.params[*i].kind, PK::Const { ty: t, .. } if t == *ty))
                        .collect();
                    let item = self.scoped(0);
                    Arg::Const(if let Some(n) = item {
                        let (k, v) = match *ty {
                            "usize" => ("U", "2"),
                            "bool" => ("B", "true"),
                            "i32" => ("I", "7"),
                            "char" => ("C", "'N'"),
                            _ => ("Y", "2"),
                        };
                        let t = self.in_macro(format!("~{n}::{k}"));
                        CArg::Val(format!("{{ {t} }}"), v.into())
                    } else if !cs.is_empty() && self.c.chance(1, 2) {
                        CArg::Param(*self.c.pick(&cs))
                    } else {
                        let k = self.c.draw(3);
                        let (t, v) = const_val(ty, k);
                        if self.p.const_exprs && self.c.chance(1, 4) {
                            CArg::Val(format!("{{ {t} }}"), v)
                        } else {
                            CArg::Val(t, v)
                        }
                    })
                }
                PK::Ty { copy: true, .. } => {
                    let cs: Vec<usize> = (0..self.params.len())
                        .filter(|i| matches!(self.params[*i].kind, PK::Ty { copy: true, .. }))
                        .collect();
                    Arg::Ty(if !cs.is_empty() && self.c.chance(1, 2) {
                        Ty::Param(*self.c.pick(&cs))
                    } else if self.c.chance(1, 2) {
                        Ty::Tok('C', 14)
                    } else {
                        Ty::Prim("u32")
                    })
                }
                PK::Ty { unsized_: true, mapped: m, .. } => {
                    if !m {
                        Arg::Ty(Ty::Prim("str"))
                    } else {
                        Arg::Ty(self.ty(depth - 1, mult, mapped))
                    }
                }
                PK::Ty { mapped: m, key: true, .. } => Arg::Ty(self.key_ty(1, mapped && *m)),
                PK::Ty { .. } if self.defs[di].hand.as_ref().is_some_and(|h| h.only(&q.name)) => {
                    let t = self.ty(depth - 1, mult, mapped);
                    Arg::Ty(Ty::Lib(lib("option"), vec![t], 1))
                }
                PK::Ty { mapped: m, .. } => Arg::Ty(self.ty(depth - 1, mult, mapped && *m)),
            })
            .collect();
        let sp = if self.p.wild || !self.p.spelled { 1 } else { *self.c.pick(&[1, 1, 2]) };
        Ty::User(di, args, sp)
    }

    fn lt(&mut self) -> Lt {
        self.cur_lt.clone()
    }

    /// A constant, maybe as the input of a macro.
    fn in_macro(&mut self, s: String) -> String {
        if !self.p.macros {
            return s;
        }
        // by a macro whose body names the item (D26: what it names must not start like this)
        let own = s.strip_prefix('~').filter(|s| !s.starts_with("__FUNCMAP")).and_then(|s| s.rsplit_once("::")).and_then(|(n, k)| Some((self.scope.iter().position(|(t, m)| *t == 0 && *m == n)?, k)));
        match self.c.draw(7) {
            0 => format!("same!({s})"),
            4 | 5 if own.is_some() => own.map(|(i, k)| format!("~of_{i}_!({k})")).unwrap(),
            1 => format!("same![({s})]"),
            2 => format!("{{ same! {{ let x = same!({s}); x }} }}"),
            _ => s,
        }
    }

    /// Items that the definitions refer to by name.
    pub fn scope_items(&self) -> String {
        let mut s = String::new();
        if self.p.macros && !self.scope.is_empty() {
            s += "macro_rules! same { ($($t:tt)*) => { $($t)* } }\n";
        }
        for (i, (kind, n)) in self.scope.iter().enumerate() {
            if self.p.macros && *kind == 0 {
                s += &format!("macro_rules! of_{i}_ {{ ($k:ident) => {{ {n}::$k }} }}\n");
            }
            s += &match kind {
                0 => format!("pub struct {n} {{}}\nimpl {n} {{ pub const U: ::std::primitive::usize = 2; pub const B: ::std::primitive::bool = true; pub const I: ::std::primitive::i32 = 7; pub const C: ::std::primitive::char = 'N'; pub const Y: ::std::primitive::u8 = 2; }}\n"),
                1 => format!("pub type {n} = ::vrt::S<11>;\n"),
                _ => format!("pub use ::vrt::Tr0 as {n};\n"),
            };
        }
        s
    }

    fn scoped(&mut self, kind: u8) -> Option<&'static str> {
        let v: Vec<&'static str> = self.scope.iter().filter(|(k, _)| *k == kind).map(|(_, n)| *n).collect();
        if v.is_empty() || !self.c.chance(1, 2) {
            return None;
        }
        Some(*self.c.pick(&v))
    }

    fn leaf(&mut self) -> Ty {
        if let Some(n) = self.scoped(1) {
            return Ty::Leaf(Box::leak(format!("~{n}").into_boxed_str()));
        }
        match self.c.draw(7) {
            0 => Ty::Prim(*self.c.pick(&["u8", "i64", "bool", "char", "usize"])),
            1 => Ty::Tok('S', 11),
            2 => Ty::Tok('W', 11),
            3 => Ty::Leaf("::std::string::String"),
            4 => Ty::Tok('L', 11),
            5 => Ty::Tuple(vec![]),
            6 => Ty::Tok('Z', 11),
            _ => Ty::Leaf("::std::boxed::Box<::std::primitive::str>"),
        }
    }

    /// Types in which no mapped parameter occurs, in forms that could not be mapped over.
    fn independent(&mut self, depth: u32) -> Ty {
        let copies: Vec<usize> = (0..self.params.len())
            .filter(|i| matches!(self.params[*i].kind, PK::Ty { copy: true, .. }))
            .collect();
        let inner = if !copies.is_empty() && self.c.chance(3, 4) {
            Ty::Param(*self.c.pick(&copies))
        } else {
            self.c.pick(&[Ty::Prim("u8"), Ty::Tok('C', 13)]).clone()
        };
        let b = Box::new(inner.clone());
        match self.c.draw(20) {
            0 | 1 => {
                let l = self.lt();
                let b = if l == Lt::Static { Box::new(Ty::Prim("u8")) } else { b };
                Ty::Ref(l, self.c.chance(1, 4), b)
            }
            2 => Ty::Ptr(self.c.chance(1, 2), b),
            3 => Ty::Fn(vec![inner], Box::new(Ty::Prim("bool"))),
            4 => Ty::Fn(vec![], b),
            5 => Ty::BoxDynFn(Box::new(Ty::Prim("u8")), b),
            6 => Ty::BoxDynTr(b),
            7 => Ty::BoxSlice(b),
            8 => Ty::Assoc(b, 0),
            9 => Ty::Rc(Box::new(if depth > 0 { self.ty(depth - 1, 1, false) } else { inner })),
            10 => {
                let l = self.lt();
                Ty::Cow(l, Box::new(Ty::Prim("str")))
            }
            11 | 12 => {
                let k = if matches!(inner, Ty::Param(_)) { self.c.range(0, 2) } else { 0 };
                Ty::Assoc(b, k as u8)
            }
            13 => Ty::Ptr(self.c.chance(1, 2), Box::new(Ty::Fn(vec![], b))),
            14 => {
                let l = self.lt();
                let b = if l == Lt::Static { Box::new(Ty::Prim("u8")) } else { b };
                Ty::Ref(l, self.c.chance(1, 2), Box::new(Ty::Fn(vec![Ty::Prim("char")], b)))
            }
            15 => Ty::Fn(vec![Ty::Ptr(true, b.clone())], Box::new(Ty::Ptr(false, Box::new(Ty::Fn(vec![], b))))),
            16 => Ty::Ptr(false, Box::new(Ty::Ptr(true, b))),
            17 | 18 => Ty::Leaf(*self.c.pick(LEAVES)),
            _ => {
                let l = self.lt();
                Ty::Ref(l, false, Box::new(Ty::Prim("str")))
            }
        }
    }
}

/// Closed types in forms that are special to the parser or printer.
const LEAVES: &[&str] = &[
    "unsafe extern \"C\" fn(::std::primitive::u8, ...) -> ::std::primitive::u8",
    "for<'zz> extern \"C\" fn(&'zz ::std::primitive::u8) -> &'zz ::std::primitive::u8",
    "extern \"C\" fn(&::std::primitive::u8, x: (::std::primitive::bool,)) -> fn(::std::primitive::u8)",
    "*const [::std::primitive::u8]",
    "*mut (dyn (::std::any::Any) + Send)",
    "&'static (dyn (::std::fmt::Debug) + 'static)",
    "&'static [fn() -> *const fn()]",
    "fn((::std::primitive::u8), [::std::primitive::u8; { 1 + 1 }],) -> ()",
    "[::std::primitive::u8; { struct X<T>(T); let x = X(2); x.0 }]",
    "[fn(&::std::primitive::u8) -> &::std::primitive::u8; 1]",
    "::std::boxed::Box<dyn for<'zz> ::std::ops::Fn(&'zz ::std::primitive::u8) -> &'zz ::std::primitive::u8>",
];

pub fn const_val(ty: &str, k: u32) -> (String, String) {
    let v = match ty {
        "usize" | "u8" => ["0", "2", "3"][k as usize % 3],
        "bool" => ["true", "false"][k as usize % 2],
        "i32" => ["-1", "7", "0"][k as usize % 3],
        _ => ["'x'", "'\\''", "'N'"][k as usize % 3],
    };
    (v.to_string(), v.to_string())
}

/// Enum fields have no visibility.
pub fn fixup(defs: &mut [Def]) {
    for d in defs.iter_mut() {
        if d.is_enum {
            for v in &mut d.variants {
                for f in &mut v.fields {
                    Gen::visible_in_enum(f);
                }
            }
        }
    }
}

fn clamp(t: &mut Ty, cap: usize) {
    if let Ty::Array(_, l) = t {
        *l = match l {
            Len::Lit(n) => Len::Lit((*n).min(cap)),
            Len::Expr(s, n) if *n <= cap => Len::Expr(s.clone(), *n),
            Len::Expr(..) => Len::Lit(cap),
            Len::Param(p) if cap > 2 => Len::Param(*p),
            Len::Param(_) => Len::Lit(cap),
        };
    }
    match t {
        Ty::Paren(t) | Ty::Array(t, _) | Ty::Rc(t) => clamp(t, cap),
        Ty::Tuple(ts) | Ty::Lib(_, ts, _) => ts.iter_mut().for_each(|t| clamp(t, cap)),
        Ty::User(_, args, _) => args.iter_mut().for_each(|a| {
            if let Arg::Ty(t) = a {
                clamp(t, cap)
            }
        }),
        _ => {}
    }
}

/// Number of leaves a value of definition `d` holds at least, given the
/// weights of its arguments.
fn def_weight(defs: &[Def], d: usize, args: &[u64]) -> u64 {
    1u64.saturating_add(defs[d].fields().fold(0u64, |a, f| a.saturating_add(weight(defs, &f.ty, args))))
}

fn weight(defs: &[Def], t: &Ty, args: &[u64]) -> u64 {
    match t {
        Ty::Param(p) => args[*p],
        Ty::Array(t, l) => {
            let n = match l {
                Len::Lit(n) | Len::Expr(_, n) => *n,
                Len::Param(_) => 3,
            };
            1u64.saturating_add((n as u64).saturating_mul(weight(defs, t, args)))
        }
        Ty::User(d, a, _) => {
            let ws: Vec<u64> = a
                .iter()
                .map(|a| match a {
                    Arg::Ty(t) => weight(defs, t, args),
                    _ => 1,
                })
                .collect();
            def_weight(defs, *d, &ws)
        }
        _ => t.children().iter().fold(1u64, |a, c| a.saturating_add(weight(defs, c, args))),
    }
}
