//! C01, C02, C03, C07: behaviour of derived implementations.
use crate::ast::*;
use crate::batch::*;
use crate::emit::*;
use crate::gen::*;
use crate::report::Ctx;
use vrt::choice::Src;

#[derive(Clone, Copy)]
pub struct Mode<'a> {
    /// path of the library in test code
    pub fm: &'a str,
    /// path of the derive macros
    pub derive_fm: &'a str,
    pub extra: &'a str,
    pub max_checks: usize,
    pub wild: bool,
    pub checks: bool,
    pub laws: bool,
    pub infer: bool,
    pub markers: bool,
    pub commute: bool,
    /// definitions and test code inside of a function body
    pub in_fn: bool,
    /// texts of the definitions with and without the derives
    pub texts: &'a [(String, String)],
}

impl Default for Mode<'_> {
    fn default() -> Self {
        Mode {
            fm: "::funcmap",
            derive_fm: "::funcmap",
            extra: "",
            max_checks: 2,
            wild: false,
            checks: true,
            laws: false,
            infer: false,
            markers: false,
            commute: false,
            in_fn: false,
            texts: &[],
        }
    }
}

/// Definitions, value code and checks of a program as one module.
pub fn module(c: &mut Src, defs: &[Def], o: &Mode) -> CaseText {
    let Mode { fm, derive_fm, extra, max_checks, wild, .. } = *o;
    let up = if o.in_fn { "" } else { "super::" };
    let mut e = Emit::new(defs, up);
    let mut items = String::from(extra);
    let mut bare = String::from(extra);
    let mut sample = String::new();
    for (k, d) in defs.iter().enumerate() {
        if let Some((t, b)) = o.texts.get(k) {
            items += t;
            sample += t;
            bare += b;
            continue;
        }
        let pr = Print { defs, params: &d.params, abs: if wild { Some("") } else { None }, frag: None };
        let t = d.text(&pr, Some(derive_fm));
        items += &t;
        sample += &t;
        bare += &d.text(&pr, None);
    }
    let mut checks = String::new();
    let main = defs.len() - 1;
    let mut targets: Vec<usize> = defs[main].mapped();
    if targets.len() > max_checks {
        c.shuffle(&mut targets);
        targets.truncate(max_checks);
    }
    for p in &targets {
        let label = format!("P{p}");
        if o.checks {
            checks += &e.check(c, main, *p, &label, fm);
        }
        if o.infer {
            checks += &e.infer(c, main, *p, &label, fm);
        }
        if o.laws {
            checks += &e.laws(c, main, *p, &label, fm);
        }
    }
    if o.markers {
        for p in targets.iter().take(1) {
            checks += &e.marker_facts(c, main, *p, "markers");
        }
    }
    if o.commute && targets.len() >= 2 {
        checks += &e.commute(c, main, targets[0], targets[1], "commute", fm);
    }
    let probe = if o.markers { format!("::vrt::probe_items!({fm});\n") } else { String::new() };
    let fns = e.take_fns();
    let vals = e.value_impls();
    // without the derives only the signatures remain
    let sigs: String = e.generic.lines().map(|l| format!("{} {{ ::std::todo!() }}\n", l.split(" { use ").next().unwrap())).collect();
    let uses = &e.generic;
    let module = format!(
        "{items}\npub fn run(cx: &mut ::vrt::eng::Cx) {{ t_::run(cx) }}\nmod t_ {{\n{probe}{vals}{fns}{uses}\npub fn run(cx: &mut ::vrt::eng::Cx) {{\n{checks}}}\n}}\n"
    );
    let module = if o.in_fn {
        format!("pub fn run(cx: &mut ::vrt::eng::Cx) {{\n{items}\n{probe}{vals}{fns}{uses}\n{checks}}}\n")
    } else {
        module
    };
    let bare = if o.in_fn {
        format!("pub fn run(cx: &mut ::vrt::eng::Cx) {{\n{bare}\n{vals}{fns}{sigs}\n}}\n")
    } else {
        bare
    };
    let bare = if o.in_fn { bare } else { format!("{bare}\nmod t_ {{\n{vals}\n{fns}\n{sigs}}}\n") };
    let mut classes = vec![];
    let m = &defs[main];
    classes.push(if m.is_enum { "enum".to_string() } else { "struct".to_string() });
    if defs.len() > 1 {
        classes.push("with nested derived types".into());
    }
    let ft: Vec<&Ty> = m.fields().map(|f| &f.ty).collect();
    let has = |f: &dyn Fn(&Ty) -> bool| ft.iter().any(|t| t.any(&mut |x| f(x)));
    if has(&|t| matches!(t, Ty::User(..))) {
        classes.push("uses a nested derived type".into());
    }
    if has(&|t| matches!(t, Ty::Array(_, Len::Param(_)))) {
        classes.push("array of const parameter length".into());
    }
    if has(&|t| matches!(t, Ty::Lib(l, a, _) if l.arity == 2 && targets.iter().any(|p| a[0].mentions(*p) && a[1].mentions(*p)))) {
        classes.push("both arguments of a library type mention the parameter".into());
    }
    if has(&|t| matches!(t, Ty::Ref(..) | Ty::Ptr(..) | Ty::Fn(..) | Ty::BoxDynFn(..) | Ty::BoxSlice(..) | Ty::Assoc(..))) {
        classes.push("independent reference, pointer, function, slice or projection".into());
    }
    if m.params.iter().any(|q| !matches!(q.kind, PK::Ty { .. })) {
        classes.push("lifetime or const parameters".into());
    }
    if m.mapped().len() > 1 {
        classes.push("several mapped parameters".into());
    }
    if !m.opts.is_empty() {
        classes.push("params option".into());
    }
    if ft.iter().any(|t| t.depth() >= 4) {
        classes.push("type depth >= 4".into());
    }
    if m.fields().count() >= 6 {
        classes.push("6 or more fields".into());
    }
    let nontrivial = targets.iter().any(|p| ft.iter().any(|t| t.mentions(*p) && **t != Ty::Param(*p)));
    CaseText { module, bare, runs: true, nontrivial, classes, sample, ..Default::default() }
}

pub fn make(c: &mut Src, p: &Profile, o: &Mode) -> CaseText {
    let mut g = Gen::new(c, p.clone());
    g.program();
    let mut defs = std::mem::take(&mut g.defs);
    fixup(&mut defs);
    let mut o = *o;
    o.wild = p.wild;
    module(c, &defs, &o)
}

/// Known finding D10: fields whose mapped types differ in lifetimes only.
fn lifetime_finding(ctx: &mut Ctx, env: &Env) {
    if replay_arg().is_some() {
        return;
    }
    let inner = "pub struct Inner<'a, T> { pub r: &'a u8, pub t: T }\n";
    let main = "pub struct M<'a, T> { pub a: Inner<'a, T>, pub b: Inner<'static, T> }\n";
    let d = "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n";
    let c = CaseText { module: format!("{d}{inner}{d}{main}"), bare: format!("{inner}{main}"), sample: main.into(), ..Default::default() };
    let o = run_cases(env, &[c.clone()]).remove(0);
    ctx.case(&c.sample, true);
    if o.failed() {
        ctx.finding("fields-differ-in-lifetimes", "deriving on a type with fields that are mapped and differ in lifetimes only fails", &format!("{}\n{}", c.module, o.text()));
    }
}

const RULE: &str = "random definitions (structs/enums, nested derived types, library types, arrays, tuples, lifetimes, const parameters, bounds, options, decorations) compiled with the derives and run on random values";

pub fn c01(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "inf: true,");
    let p = Profile { std_bounds: true, helper: true, ..Profile::default() };
    campaign(ctx, &env, ctx.n(1200, 12000), "gen", &|c| make(c, &p, &Mode::default()));
    lifetime_finding(ctx, &env);
    ctx.finish(&format!("{RULE}; the closure-call log, the result and the drop ledger are compared with a reference mapping generated from the definition. Non-trivial: a mapped parameter occurs below another type constructor and some run makes at least two closure calls."))
}

pub fn c02(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "try_: true,");
    let p = Profile { std_bounds: true, helper: true, ..Profile::default() };
    campaign(ctx, &env, ctx.n(1000, 10000), "gen", &|c| make(c, &p, &Mode::default()));
    ctx.finish(&format!("{RULE}; `try_func_map` is run without failure and with the first failure at every closure call (sampled beyond 8 calls; all later calls would fail too), with error types of different sizes; the call log up to the failure, the returned error or value and the drop ledger are compared with a reference mapping generated from the definition. Non-trivial: a mapped parameter occurs below another type constructor and some run makes at least two closure calls."))
}

pub fn c03(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "over: true,");
    let p = Profile { std_bounds: true, helper: true, max_ty_params: 5, min_mapped: 2, large: 8, ..Profile::default() };
    let o = Mode { markers: true, commute: true, ..Mode::default() };
    campaign(ctx, &env, ctx.n(700, 7000), "gen", &|c| make(c, &p, &o));
    crate::props_lib::run_lib(ctx, "over: true,", ctx.n(150, 1500), 2);
    ctx.finish(&format!("{RULE}, with two to thirty type parameters mixed with lifetimes and const parameters in random order; `func_map`, `try_func_map` and their `_over` forms are compared with the reference for a parameter, compile-time probes determine for which pairs of argument type and marker an implementation exists, and two parameters are mapped in both orders; library types are run with both `_over` forms. Non-trivial: a mapped parameter occurs below another type constructor and some run makes at least two closure calls."))
}

pub fn c07(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "ledger: true, panics: true,");
    let p = Profile { std_bounds: true, helper: true, ..Profile::default() };
    campaign(ctx, &env, ctx.n(600, 6000), "gen", &|c| make(c, &p, &Mode::default()));
    crate::props_lib::run_lib(ctx, "ledger: true, panics: true,", ctx.n(300, 3000), 3);
    ctx.finish(&format!("{RULE}, and library types on random values of up to 1000 elements; every creation and drop of elements, closure results, captured closure state, errors and untouched parts is recorded by serial number while the mapping succeeds, fails at a call or panics at a call; use after drop, double drop, missing drop, clones and values that were never created are violations. Non-trivial: some run makes at least two closure calls."))
}

pub fn c19(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "");
    let p = Profile { std_bounds: true, helper: true, ..Profile::default() };
    let o = Mode { checks: false, laws: true, ..Mode::default() };
    campaign(ctx, &env, ctx.n(900, 9000), "gen", &|c| make(c, &p, &o));
    crate::props_lib::lib_laws(ctx, ctx.n(60, 600), false);
    ctx.finish(&format!("{RULE} and library types on random values of up to 300 elements; identity and composition laws, infallible and fallible, compared by canonical dumps; functions are injective where the parameter occurs in keys, sets or heaps and arbitrary elsewhere. Non-trivial: some run makes at least two closure calls."))
}

pub fn c22(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "");
    let p = Profile { std_bounds: true, helper: true, proj: false, ..Profile::default() };
    let o = Mode { checks: false, infer: true, ..Mode::default() };
    campaign(ctx, &env, ctx.n(900, 9000), "gen", &|c| make(c, &p, &o));
    crate::props_lib::lib_laws(ctx, ctx.n(20, 200), true);
    crate::props_lib::generic_impls(ctx, &env, ctx.n(250, 2500), "generic", &|_| true);
    ctx.finish(&format!("{RULE}, and every library type: method calls, path calls, `?` chains and calls through functions over all functors without any annotation but the marker (and without the marker where one parameter is mapped), whose closures call methods on the inferred argument, and generic functions that assume nothing but the bounds of the definition for the parameter and its replacement, are compiled and their results compared with those of fully annotated calls. Non-trivial: some run makes at least two closure calls."))
}

pub fn c21(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "");
    let aliases: String = LIBS
        .iter()
        .map(|l| {
            let ps = ["A", "B"][..l.arity].join(", ");
            format!("pub type {}_<{ps}> = ::{}<{ps}>;\n", l.key, l.path)
        })
        .collect();
    let aliases = format!("pub mod alias_ {{\n{aliases}}}\n");
    campaign(ctx, &env, ctx.n(700, 7000), "gen", &|c| {
        let hand = 1 + c.small(2);
        let shadow = c.chance(1, 3);
        let p = Profile { hand, shadow, nested: 1, unsized_: false, large: 25, spelled: !shadow, ..Profile::default() };
        let mut g = Gen::new(c, p);
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let mut t = module(c, &defs, &Mode { extra: &aliases, wild: shadow, ..Mode::default() });
        t.module = t.module.replace("cx.check(", "cx.check_hand(");
        t.bare_root = "pub extern crate funcmap;\n".into();
        let main = defs.len() - 1;
        let mut used = vec![];
        for f in defs[main].fields() {
            f.ty.any(&mut |t| {
                if let Ty::User(d, args, _) = t {
                    used.push((*d, args.iter().filter(|a| matches!(a, Arg::Ty(t) if defs[main].mapped().iter().any(|p| t.mentions(*p)))).count()));
                }
                false
            });
        }
        let hands: Vec<&crate::hand::Hand> = used.iter().filter(|u| u.1 > 0).filter_map(|u| defs[u.0].hand.as_ref()).collect();
        t.nontrivial = !hands.is_empty();
        if hands.len() > 1 {
            t.classes.push("several mapped uses of hand-written types".into());
        }
        if hands.iter().any(|h| h.is_alias()) {
            t.classes.push("type alias of a hand-written type".into());
        }
        if hands.iter().any(|h| h.shadows()) {
            t.classes.push("declared with the plain name of a library item".into());
        }
        if hands.iter().any(|h| h.unusual()) {
            t.classes.push("reorders, leaves out or adds elements".into());
        }
        if used.iter().any(|u| u.1 > 1 && defs[u.0].hand.is_some()) {
            t.classes.push("several mapped arguments of a hand-written type".into());
        }
        t
    });
    ctx.finish("random definitions whose fields nest one to three hand-written generic types (own structs or aliases that permute and fix arguments, with lifetimes and const parameters, named and spelled like library types (also shadowing them), with decoy inherent methods and decoy markers; their implementations visit elements in another order, leave some out, make some up, drop results, go on after errors or swallow them, differently per marker and per trait, and some hold for `Option` arguments only); a log of implementation entries, element visits and closure calls is compared event by event with reference functions generated from the definition, without failures, with random sets of failing calls and with a panicking call. Non-trivial: a mapped parameter occurs in an argument of a hand-written type and some run makes at least two closure calls.")
}

/// Items that shadow prelude and library names.
fn shadows(c: &mut Src, defs: &[Def], in_fn: bool, scope: &[(u8, &'static str)]) -> (String, usize) {
    let norm = |s: &str| s.trim_start_matches("r#").to_string();
    let mut used: Vec<(u8, String)> = vec![];
    for d in defs {
        used.push((0, norm(&d.name)));
        used.push((1, norm(&d.name)));
    }
    used.extend(scope.iter().map(|(_, n)| (0, norm(n))));
    let mut out = String::new();
    let n = c.draw(9);
    let mut k = 0;
    for _ in 0..n {
        let kind = c.weighted(&[5, 3, 2, 3, 2]);
        let (ns, name) = match kind {
            0 => (0, *c.pick(&[
                "Option", "Result", "Vec", "Box", "String", "Iterator", "FnMut", "Fn", "FnOnce", "Clone", "Drop", "Send", "Into",
                "From", "FuncMap", "TryFuncMap", "TypeParam", "TypeMarker", "Output", "Error", "E", "F", "A", "B", "C", "T", "U",
                "core", "std", "alloc", "funcmap", "funcmap_derive", "u8", "usize", "bool", "str", "MaybeUninit", "array",
                "PhantomData", "FUNCMAP_A", "ops", "marker", "DropFuncMap", "DropTryFuncMap", "r#fn", "Copy", "Ok", "Err",
            ])),
            1 => (1, *c.pick(&[
                "drop", "Ok", "Err", "Some", "None", "f", "value", "func_map", "try_func_map", "map", "field_0", "field_a", "field_f",
                "e", "A", "T", "core", "std", "main", "r#type",
            ])),
            // not the names of local variables: a pattern of such a name cannot be
            // kept from meaning the item (finding D8), whatever name is chosen
            2 => (1, *c.pick(&["Ok", "Err", "Some", "None", "drop", "String", "Vec", "A", "B", "Output", "FnMut", "N", "F", "C"])),
            3 => (2, *c.pick(&[
                "panic", "unreachable", "assert", "debug_assert", "matches", "vec", "todo", "unimplemented", "compile_error",
                "concat", "stringify", "write", "format", "core", "derive_",
            ])),
            _ => (3, *c.pick(&["func_map", "try_func_map", "map", "into", "from", "clone", "func_map_over", "drop", "branch"])),
        };
        if used.contains(&(ns, norm(name))) {
            continue;
        }
        // a unit struct occupies both namespaces
        if kind == 2 && used.contains(&(0, norm(name))) {
            continue;
        }
        used.push((ns, norm(name)));
        k += 1;
        out += &match kind {
            0 => match c.draw(if in_fn { 4 } else { 6 }) {
                0 => format!("pub struct {name} {{}}\n"),
                1 => format!("pub trait {name} {{ type Output; fn call_mut(&mut self) {{}} }}\n"),
                2 => format!("pub enum {name} {{ Ok, Err, Some, None }}\n"),
                3 => format!("pub type {name} = ();\n"),
                4 => format!("pub mod {name} {{ pub struct Result; pub mod result {{}} pub mod ops {{}} pub trait FuncMap {{}} pub struct TypeParam; }}\n"),
                _ => format!("pub mod {name} {{ pub mod marker {{}} pub mod option {{}} }}\n"),
            },
            1 => format!("pub fn {name}(_: ()) {{}}\n"),
            2 => match c.draw(3) {
                0 => format!("pub const {name}: () = ();\n"),
                1 => format!("pub static {name}: u32 = 0;\n").replace("u32", "::std::primitive::u32"),
                _ => {
                    used.push((0, norm(name)));
                    format!("pub struct {name};\n")
                }
            },
            3 => format!("macro_rules! {name} {{ ($($t:tt)*) => {{ captured_by_user_macro }} }}\n"),
            _ => match c.draw(2) {
                0 => format!("pub trait Evil{k} {{ fn {name}(self, _: ()) where Self: ::std::marker::Sized {{}} }} impl<T: ?::std::marker::Sized> Evil{k} for T {{}}\n"),
                _ => {
                    let d = &defs[defs.len() - 1];
                    let pr = Print { defs, params: &d.params, abs: Some(""), frag: None };
                    let w = d.where_preds(&pr);
                    let wh = if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) };
                    format!(
                        "impl{} {}{}{wh} {{ pub fn {name}(self, _: ()) where Self: ::std::marker::Sized {{}} }}\n",
                        d.decl_params(&pr, false),
                        d.name,
                        d.self_args()
                    )
                }
            },
        };
    }
    (out, k)
}

pub fn c08(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "inf: true, try_: true,");
    let p = Profile { wild: true, helper: true, macros: true, ..Profile::default() };
    campaign(ctx, &env, ctx.n(1000, 10000), "gen", &|c| {
        let mut g = Gen::new(c, p.clone());
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let scope = g.scope.clone();
        let items = g.scope_items();
        let in_fn = c.chance(1, 5);
        let (extra, n) = shadows(c, &defs, in_fn, &scope);
        let extra = items + &extra;
        let o = Mode { wild: true, extra: &extra, in_fn, max_checks: 2, ..Mode::default() };
        let mut t = module(c, &defs, &o);
        if n > 0 {
            t.classes.push("shadowing items in scope".into());
        }
        if !scope.is_empty() {
            t.classes.push("definition mentions items next to it".into());
        }
        if (0..scope.len()).any(|i| t.module.contains(&format!("of_{i}_!("))) {
            t.classes.push("constant from the body of a macro".into());
        }
        if in_fn {
            t.classes.push("inside of a function body".into());
        }
        t.sample = extra.clone() + &t.sample;
        t
    });
    names_findings(ctx, &env);
    ctx.finish("random definitions whose type, parameter, lifetime, field and variant names are drawn from pools of library items, generated names, raw identifiers, keywords and non-ASCII names, in scopes with up to eight items that shadow prelude and library names (types, traits, modules, functions, constants, macros, blanket and inherent methods), at module level or inside of a function; compiled and compared with the reference mapping on random values. Non-trivial: a mapped parameter occurs below another type constructor and some run makes at least two closure calls.")
}

/// Known findings D8 (constants, statics and unit structs that are named like
/// generated bindings), D23 (a parameter that is named like the type) and D26
/// (an item that is named like generated parameters and only mentioned in the
/// body of a macro).
fn names_findings(ctx: &mut Ctx, env: &Env) {
    if replay_arg().is_some() {
        return;
    }
    let mut cases = vec![];
    let mut keys = vec![];
    for (name, field) in [("f", "a"), ("value", "a"), ("field_a", "a"), ("field_0", "0")] {
        for (kind, item) in [
            ("const", format!("pub const {name}: () = ();\n")),
            ("static", format!("pub static {name}: () = ();\n")),
            ("unit struct", format!("pub struct {name};\n")),
        ] {
            let def = if field == "0" { "pub struct M<T>(pub T);\n".to_string() } else { "pub struct M<T> { pub a: T }\n".to_string() };
            let bare = format!("{item}{def}");
            cases.push(CaseText { module: format!("{item}#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n{def}"), bare: bare.clone(), sample: bare, ..Default::default() });
            keys.push((format!("value-{}-{name}", kind.replace(' ', "-")), format!("deriving fails with a {kind} named `{name}` in scope")));
        }
    }
    // D23
    for (k, def) in [("alone", "pub struct M<M>(pub M);\n"), ("with-others", "pub enum M<T, M> { A(T), B(M) }\n")] {
        cases.push(CaseText { module: format!("#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n{def}"), bare: def.into(), sample: def.into(), ..Default::default() });
        keys.push((format!("param-named-like-type-{k}"), "deriving fails for a type with a parameter that is named like the type".to_string()));
    }
    // D26
    let def = "pub struct __FUNCMAP_A;\nimpl __FUNCMAP_A { pub const LEN: usize = 2; }\nmacro_rules! len { () => { __FUNCMAP_A::LEN } }\n";
    let m = "pub struct M<T>(pub T, pub [u8; len!()]);\n";
    cases.push(CaseText { module: format!("{def}#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n{m}"), bare: format!("{def}{m}"), sample: format!("{def}{m}"), ..Default::default() });
    keys.push(("macro-body-names-generated".into(), "deriving fails if a macro in a field type expands to the name of an item `__FUNCMAP_A`".into()));
    let outs = run_cases(env, &cases);
    for ((o, c), (k, what)) in outs.iter().zip(&cases).zip(&keys) {
        ctx.case(&c.sample, false);
        if o.failed() {
            ctx.finding(k, what, &format!("// {what}\n{}", c.module));
        }
    }
}
