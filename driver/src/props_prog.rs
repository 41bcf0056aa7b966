//! C10, C11, C17: options, crate paths, editions.
use crate::ast::*;
use crate::batch::*;
use crate::gen::*;
use crate::props_run::*;
use crate::report::Ctx;
use crate::util::*;
use vrt::choice::Src;

/// Random spelling of the options: `names` for `params` (none: absent) and a
/// crate path, as one or more attributes.
pub fn option_attrs(c: &mut Src, names: &[String], krate: Option<&str>) -> Vec<String> {
    // items of the option list
    let mut items: Vec<String> = vec![];
    if !names.is_empty() {
        let mut names = names.to_vec();
        if c.chance(1, 2) {
            c.shuffle(&mut names);
        }
        let mut k = 0;
        while k < names.len() {
            let n = if c.chance(1, 2) { names.len() - k } else { c.range(1, (names.len() - k) as u32) as usize };
            let comma = if c.chance(1, 4) { "," } else { "" };
            let sep = *c.pick(&[", ", ",", " , "]);
            items.push(format!("params({}{comma})", names[k..k + n].join(sep)));
            k += n;
        }
    }
    if let Some(p) = krate {
        let at = c.draw(items.len() as u32 + 1) as usize;
        let lit = match c.draw(4) {
            0 => format!("r\"{p}\""),
            1 => format!("\" {p} \""),
            2 => format!("r#\"{p}\"#"),
            _ => format!("\"{p}\""),
        };
        items.insert(at, format!("crate = {lit}"));
    }
    // groups of items by attribute
    let mut out = vec![];
    let mut k = 0;
    while k < items.len() {
        let n = c.range(1, (items.len() - k) as u32) as usize;
        let comma = if c.chance(1, 4) { "," } else { "" };
        out.push(format!("{}{comma}", items[k..k + n].join(", ")));
        k += n;
    }
    out
}

pub fn names_of(d: &Def) -> Vec<String> {
    d.mapped().into_iter().map(|i| d.params[i].name.clone()).collect()
}

pub fn c10(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "inf: true, try_: true,");
    let p = Profile { max_ty_params: 5, one_derive: true, large: 10, alike: true, ..Profile::default() };
    campaign(ctx, &env, ctx.n(800, 8000), "gen", &|c| {
        let mut g = Gen::new(c, p.clone());
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let mut listed = 0;
        let mut left_out = 0;
        for d in &mut defs {
            let all = d.params.iter().filter(|q| q.is_ty()).count();
            let names = names_of(d);
            let list = names.len() < all || c.chance(1, 3);
            let krate = if c.chance(1, 4) { Some("::funcmap") } else { None };
            d.opts = option_attrs(c, if list { &names } else { &[] }, krate);
            if list {
                listed = names.len();
                left_out = all - names.len();
            } else {
                listed = 0;
                left_out = 0;
            }
        }
        let o = Mode { markers: true, max_checks: 2, ..Mode::default() };
        let mut t = module(c, &defs, &o);
        if listed == 0 {
            t.classes.push("no list in the main definition".into());
        }
        if left_out > 0 {
            t.classes.push("some type parameter is not listed".into());
        }
        if listed > 1 {
            t.classes.push("several parameters are listed".into());
        }
        t.nontrivial = t.nontrivial || left_out > 0;
        t
    });
    ctx.finish("random definitions with up to thirty type parameters mixed with lifetimes and const parameters, of which random subsets are listed in random order, split over several `params(..)` arguments and several attributes with and without trailing commas and mixed with the crate option, for one or both derives; the listed parameters are mapped and compared with the reference, and compile-time probes determine for every argument type and every marker whether an implementation exists (parameters that are not listed occur behind references, pointers, function types, slices, trait objects and projections). Non-trivial: a type parameter is left out, or a mapped parameter occurs below another type constructor.")
}

const ALIASES: &[&str] = &[
    "q", "fm", "A", "B", "F", "E", "G", "K", "_f", "f", "value", "field_a", "field_0", "r#fn", "r#type", "r#F", "core_", "Output",
    "FuncMap", "alloc", "lib", "T1", "ö",
];

pub fn c11(ctx: &mut Ctx) -> ! {
    let mut env = Env::new(ctx, "inf: true, try_: true,");
    env.extern_name = Some("zz_fm".into());
    env.head += "pub mod r_ { pub mod deep { pub use ::zz_fm as lib; } pub mod glob { pub use ::zz_fm::*; } }\npub use ::zz_fm as top_;\n";
    let p = Profile { large: 20, ..Profile::default() };
    campaign(ctx, &env, ctx.n(700, 7000), "gen", &|c| {
        let mut g = Gen::new(c, p.clone());
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let taken: Vec<String> = defs
            .iter()
            .flat_map(|d| d.params.iter().map(|q| q.name.clone()).chain(std::iter::once(d.name.clone())))
            .collect();
        let depth = c.draw(3) as usize;
        // aliases of the library at each level of the module tree; level `depth` is the definitions' module
        let mut alias: Vec<Vec<String>> = vec![vec![]; depth + 1];
        let mut used: Vec<String> = vec!["w0_".into(), "w1_".into()];
        for l in 0..=depth {
            for _ in 0..c.draw(3) {
                let a = c.pick(ALIASES).to_string();
                let norm = a.trim_start_matches("r#").to_string();
                if used.contains(&norm) || taken.contains(&norm) {
                    continue;
                }
                used.push(norm);
                alias[l].push(a);
            }
        }
        let mut forms = vec![];
        for d in &mut defs {
            let mut options: Vec<String> = vec![
                "::zz_fm".into(),
                "zz_fm".into(),
                "crate::r_::deep::lib".into(),
                "crate::r_::glob".into(),
                "crate::top_".into(),
                "crate::r_::glob::".to_string().trim_end_matches("::").to_string(),
                format!("{}r_::deep::lib", "super::".repeat(depth + 1)),
                format!("self::{}top_", "super::".repeat(depth + 1)),
            ];
            for (l, v) in alias.iter().enumerate() {
                for a in v {
                    if l == depth {
                        options.push(a.clone());
                        options.push(a.clone());
                        options.push(format!("self::{a}"));
                    } else {
                        options.push(format!("{}{a}", "super::".repeat(depth - l)));
                        options.push(format!("self::{}{a}", "super::".repeat(depth - l)));
                    }
                }
            }
            let path = c.pick(&options).clone();
            let path = if c.chance(1, 8) { path.replace("::", " :: ").trim().to_string() } else { path };
            forms.push(path.replace(' ', ""));
            let all = d.params.iter().filter(|q| q.is_ty()).count();
            let names = names_of(d);
            let list = names.len() < all || c.chance(1, 5);
            d.opts = option_attrs(c, if list { &names } else { &[] }, Some(&path));
        }
        let o = Mode { fm: "::zz_fm", derive_fm: "::zz_fm", ..Mode::default() };
        let mut t = module(c, &defs, &o);
        // in the definitions' module: items called like something the paths mention elsewhere
        let mut decoys = String::new();
        let outer = alias[..depth].iter().flatten().map(|a| a.as_str());
        let fixed = ["zz_fm", "r_", "top_", "lib", "deep", "glob"];
        for n in fixed.into_iter().chain(outer.filter(|a| !fixed.contains(a))) {
            let first = |f: &String| f.split("::").next() == Some(n) || f.trim_start_matches("self::").split("::").next() == Some(n);
            if !forms.iter().any(first) && !alias[depth].iter().any(|a| a == n) && !taken.iter().any(|t| t == n) && c.chance(2, 3) {
                decoys += &format!("#[allow(unused)] mod {n} {{}}\n");
            }
        }
        let uses = |l: usize| {
            let s = alias[l].iter().map(|a| format!("#[allow(unused_imports)] pub use ::zz_fm as {a};\n")).collect::<String>();
            if l == depth { s + &decoys } else { s }
        };
        let wrap = |body: &str| {
            let mut s = format!("{}{body}", uses(depth));
            for l in (0..depth).rev() {
                s = format!("{}pub mod w{l}_ {{\n{s}\n}}\n", uses(l));
                if body.contains("pub fn run(") {
                    s += &format!("pub fn run(cx: &mut ::vrt::eng::Cx) {{ w{l}_::run(cx) }}\n");
                }
            }
            s
        };
        t.module = wrap(&t.module);
        // the program without the derives does not link the library
        let m = forms.last().unwrap();
        let class = if m.starts_with("::") {
            "absolute path"
        } else if m.starts_with("crate::") {
            "path from the crate root"
        } else if m.starts_with("self::") || m.starts_with("super::") {
            "relative path"
        } else if m.len() == 1 {
            "single letter"
        } else {
            "single name"
        };
        t.classes.push(class.into());
        if depth > 0 {
            t.classes.push("in nested modules".into());
        }
        t
    });
    // without the option: `::funcmap`, whatever else is called `funcmap`
    let mut env2 = Env::new(ctx, "inf: true, try_: true,");
    env2.head += "pub use ::funcmap as ok_;\n";
    campaign(ctx, &env2, ctx.n(100, 1000), "none", &|c| {
        let mut g = Gen::new(c, p.clone());
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        fixup(&mut defs);
        let extra = *c.pick(&[
            "pub mod funcmap {}\n",
            "pub mod funcmap { pub trait FuncMap {} pub trait TryFuncMap {} pub struct TypeParam<const N: usize>; }\n",
            "pub use ::vrt as funcmap;\n",
            "pub struct funcmap;\n",
            "pub mod funcmap { pub mod funcmap {} }\npub mod core {}\n",
        ]);
        let o = Mode { extra, ..Mode::default() };
        let mut t = module(c, &defs, &o);
        t.classes.push("without the option, decoy in scope".into());
        t
    });
    ctx.finish("random definitions compiled where the library is not linked as `funcmap` and is only reachable under other paths: absolute, single-segment, single-letter and raw names, aliases at each level of a module tree of up to three levels (`self::`, `super::`), `crate::` paths and glob re-exports, spelled as plain and raw string literals with spaces; a different path for each definition of a program; the mappings are compared with the reference. Further definitions without the option next to decoys called `funcmap`. Non-trivial: a mapped parameter occurs below another type constructor.")
}

const EDITIONS: [&str; 4] = ["2015", "2018", "2021", "2024"];
/// Names that are keywords in some editions only.
const ED_NAMES: &[&str] = &["gen", "r#async", "r#dyn", "r#try", "r#gen", "r#await", "union", "auto", "raw"];

pub fn c17(ctx: &mut Ctx) -> ! {
    let base = Env::new(ctx, "inf: true, try_: true,");
    let p = Profile { rel_paths: false, large: 16, std_bounds: true, ..Profile::default() };
    for ed in EDITIONS {
        let mut env = base.clone();
        env.edition = ed.into();
        env.dir = scratch(&format!("C17-{ed}"));
        // the same programs in every edition
        let n = ctx.n(350, 3500);
        let make = |c: &mut Src| {
            let mut g = Gen::new(c, p.clone());
            g.program();
            let mut defs = std::mem::take(&mut g.defs);
            fixup(&mut defs);
            let mut renamed = 0;
            if c.chance(1, 3) {
                let mut pool: Vec<&str> = ED_NAMES.to_vec();
                // plain names only where they are no keywords
                pool.retain(|n| match *n {
                    "gen" => ed != "2024",
                    _ => true,
                });
                c.shuffle(&mut pool);
                let norm = |s: &str| s.trim_start_matches("r#").to_string();
                let mut seen: Vec<String> = vec![];
                for d in &mut defs {
                    for v in &mut d.variants {
                        for f in &mut v.fields {
                            if f.name.is_empty() || f.gone || !c.chance(1, 2) {
                                continue;
                            }
                            if let Some(n) = pool.iter().find(|n| !seen.contains(&norm(n))) {
                                seen.push(norm(n));
                                f.name = n.to_string();
                                renamed += 1;
                            }
                        }
                    }
                }
            }
            let bare_dyn = ed != "2021" && ed != "2024" && c.chance(1, 2);
            let mut t = module(c, &defs, &Mode::default());
            if bare_dyn {
                // trait objects without `dyn`
                let strip = |s: &str| s.replace("Box<dyn (::vrt::Tr1", "Box<(::vrt::Tr1");
                t.module = strip(&t.module);
                t.bare = strip(&t.bare);
                if t.module.contains("Box<(::") {
                    t.classes.push("bare trait objects".into());
                }
            }
            if renamed > 0 {
                t.classes.push("names that are keywords in some editions".into());
            }
            t.classes.push(format!("edition {ed}"));
            t.sample = format!("// edition {ed}\n{}", t.sample);
            t
        };
        campaign(ctx, &env, n, &format!("ed{ed}"), &make);
    }
    edition_findings(ctx, &base);
    ctx.finish("random definitions with names that are keywords in some editions and with trait objects with and without `dyn`, compiled in the editions 2015, 2018, 2021 and 2024; in each edition the mappings are compared with the same reference. Non-trivial: a mapped parameter occurs below another type constructor and some run makes at least two closure calls.")
}

/// Known finding D13: what the parser of the macros does not understand in
/// older editions.
fn edition_findings(ctx: &mut Ctx, base: &Env) {
    if replay_arg().is_some() {
        return;
    }
    let mut env = base.clone();
    env.edition = "2015".into();
    env.dir = scratch("C17-find");
    let mut cases = vec![];
    let mut keys = vec![];
    let names = ["async", "await", "dyn", "try"];
    for n in names {
        keys.push((format!("name-{n}"), format!("deriving fails in edition 2015 for a field named `{n}`")));
        cases.push(format!("pub struct M<T> {{ pub {n}: T }}\n"));
    }
    keys.push(("bare-fn-trait-object".into(), "deriving fails in edition 2015 for a trait object `Fn(u8) -> u8` without `dyn`".into()));
    cases.push("pub struct M<T> { pub a: T, pub b: Box<Fn(u8) -> u8> }\n".to_string());
    let cases: Vec<CaseText> = cases
        .into_iter()
        .map(|d| CaseText { module: format!("#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n{d}"), bare: d.clone(), sample: d, ..Default::default() })
        .collect();
    let outs = run_cases(&env, &cases);
    for ((o, c), (k, what)) in outs.iter().zip(&cases).zip(&keys) {
        ctx.case(&c.sample, false);
        if o.failed() {
            ctx.finding(k, what, &format!("// edition 2015\n{}\n{}", c.module, o.text()));
        }
    }
}
