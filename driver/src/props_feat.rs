//! C15: feature sets.
use crate::ast::*;
use crate::batch::*;
use crate::gen::*;
use crate::props_lib::*;
use crate::props_run::*;
use crate::report::Ctx;
use crate::util::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::Duration;
use vrt::choice::{mix, Src};

const TRIPLE: &str = "x86_64-unknown-linux-gnu";
const CORE_LIBS: &[&str] = &[
    "option", "result", "phantom", "poll", "controlflow", "bound", "cell", "refcell", "unsafecell", "range", "rangeincl",
    "rangefrom", "rangeto", "rangetoincl", "optiter", "resiter",
];
const STD_LIBS: &[&str] = &["hmap", "hset", "hmapiter", "hsetiter"];

/// 0: core, 1: alloc, 2: std
fn level(key: &str) -> u8 {
    if CORE_LIBS.contains(&key) || key.starts_with("array") {
        0
    } else if STD_LIBS.contains(&key) {
        2
    } else {
        1
    }
}

struct Set {
    name: &'static str,
    feats: Option<&'static [&'static str]>,
    level: u8,
}

const SETS: &[Set] = &[
    Set { name: "none", feats: Some(&[]), level: 0 },
    Set { name: "alloc", feats: Some(&["alloc"]), level: 1 },
    Set { name: "std", feats: Some(&["std"]), level: 2 },
    Set { name: "alloc+std", feats: Some(&["alloc", "std"]), level: 2 },
    Set { name: "default", feats: None, level: 2 },
];

/// A sysroot that has only `core` (and `alloc`) for the target.
fn sysroot(level: u8) -> PathBuf {
    let real = toolchain_bin(TOOLCHAIN, "rustc").parent().unwrap().parent().unwrap().join("lib/rustlib").join(TRIPLE).join("lib");
    let root = target().join("sysroot").join(format!("{TOOLCHAIN}-{level}"));
    let dir = root.join("lib/rustlib").join(TRIPLE).join("lib");
    fs::create_dir_all(&dir).unwrap();
    let mut n = 0;
    for e in fs::read_dir(&real).unwrap_or_else(|e| die(&format!("{}: {e}", real.display()))).flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let ok = |p: &str| name.starts_with(&format!("lib{p}-")) && name.ends_with(".rlib");
        if ok("core") || ok("compiler_builtins") || ok("rustc_std_workspace_core") || (level > 0 && ok("alloc")) {
            n += 1;
            let to = dir.join(&name);
            if !to.exists() {
                let _ = fs::copy(e.path(), &to);
            }
        }
    }
    if n < 3 + (level > 0) as u32 {
        die("the toolchain has no core library");
    }
    root
}

/// Moves fields without what the level does not offer.
fn restrict(t: &Ty, level: u8, params: &[Param]) -> Ty {
    let r = |t: &Ty| restrict(t, level, params);
    let b = |t: &Ty| Box::new(r(t));
    let v = |ts: &[Ty]| ts.iter().map(r).collect::<Vec<_>>();
    let uns = |t: &Ty| matches!(t, Ty::Param(p) if params[*p].is_unsized()) || *t == Ty::Prim("str");
    let tup = |ts: &[Ty]| {
        Ty::Tuple(ts.iter().map(|t| if uns(t) { Ty::Lib(lib("phantom"), vec![t.clone()], 1) } else { r(t) }).collect())
    };
    match t {
        Ty::Param(_) | Ty::Prim(_) | Ty::Tok(..) => t.clone(),
        Ty::Leaf(s) => {
            if !s.starts_with('~') && (level == 0 || !s.starts_with("::std")) {
                Ty::Prim("u8")
            } else {
                t.clone()
            }
        }
        Ty::Paren(x) => Ty::Paren(b(x)),
        Ty::Array(x, l) => Ty::Array(b(x), l.clone()),
        Ty::Tuple(ts) => Ty::Tuple(v(ts)),
        Ty::Lib(l, ts, _) => {
            if crate::props_feat::level(l.key) <= level {
                Ty::Lib(l, v(ts), 1)
            } else {
                tup(ts)
            }
        }
        Ty::User(d, args, s) => Ty::User(
            *d,
            args.iter()
                .map(|a| match a {
                    Arg::Ty(t) => Arg::Ty(r(t)),
                    a => a.clone(),
                })
                .collect(),
            *s,
        ),
        Ty::Ref(l, m, x) => Ty::Ref(l.clone(), *m, b(x)),
        Ty::Ptr(m, x) => Ty::Ptr(*m, b(x)),
        Ty::Fn(ts, x) => Ty::Fn(v(ts), b(x)),
        Ty::Assoc(x, k) => Ty::Assoc(b(x), *k),
        _ if level > 0 => match t {
            Ty::BoxDynFn(x, y) => Ty::BoxDynFn(b(x), b(y)),
            Ty::BoxDynTr(x) => Ty::BoxDynTr(b(x)),
            Ty::BoxSlice(x) => Ty::BoxSlice(b(x)),
            Ty::Rc(x) => Ty::Rc(b(x)),
            Ty::Cow(l, x) => Ty::Cow(l.clone(), b(x)),
            _ => t.clone(),
        },
        Ty::Cow(l, x) => Ty::Tuple(vec![Ty::Ref(l.clone(), false, Box::new(Ty::Prim("u8"))), tup(&[(**x).clone()])]),
        _ => tup(&t.children().into_iter().cloned().collect::<Vec<_>>()),
    }
}

fn restrict_bound(x: &mut Bound, level: u8, params: &[Param]) {
    match x {
        Bound::Tr1(t) | Bound::AsX(t) | Bound::Hrtb(t) | Bound::Form(_, t) => *t = restrict(t, level, params),
        Bound::Call(ts, t) => {
            ts.iter_mut().for_each(|t| *t = restrict(t, level, params));
            *t = restrict(t, level, params);
        }
        _ => {}
    }
}

fn restrict_defs(defs: &mut [Def], level: u8) {
    for d in defs {
        let params = d.params.clone();
        for v in &mut d.variants {
            for f in &mut v.fields {
                if !f.gone {
                    f.ty = restrict(&f.ty, level, &params);
                }
            }
        }
        for p in &mut d.preds {
            p.ty = restrict(&p.ty, level, &params);
            p.bounds.iter_mut().for_each(|b| restrict_bound(b, level, &params));
        }
        for q in &mut d.params {
            if let PK::Ty { bounds, default, .. } = &mut q.kind {
                bounds.iter_mut().for_each(|b| restrict_bound(b, level, &params));
                if let Some(t) = default {
                    *t = restrict(t, level, &params);
                }
            }
        }
    }
}

/// Compiles a `no_std` support crate against a reduced sysroot.
fn small_crate(dir: &Path, sys: &Path, name: &str, text: &str) -> PathBuf {
    let src = dir.join(format!("{name}.rs"));
    fs::write(&src, text).unwrap();
    let out = dir.join(format!("lib{name}.rlib"));
    let mut c = rustc(TOOLCHAIN);
    c.args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", name, "--cap-lints", "allow"]);
    c.arg("--sysroot").arg(sys).arg("-o").arg(&out).arg(&src);
    let r = run(&mut c, Duration::from_secs(120));
    if !r.ok {
        die(&format!("support crate {name}: {}", r.err));
    }
    out
}

const SMALL_VRT: &str = "#![no_std]
pub mod eng { #[derive(Default)] pub struct Flags { pub x: u8 } impl Flags { pub const NONE: Flags = Flags { x: 0 }; } pub struct Cx; pub fn batch(_: Flags, _: u32, _: u64, _: &[(&str, fn(&mut Cx))]) {} }
pub trait Tr0 {} impl<T: ?Sized> Tr0 for T {}
pub trait Tr1<X: ?Sized> {} impl<T: ?Sized, X: ?Sized> Tr1<X> for T {}
pub trait As { type X; } impl<T> As for T { type X = T; }
macro_rules! tok { ($($n:ident)*) => { $(#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct $n<const K: u8>(pub u32);)* } }
tok! { S L Z W H }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] pub struct Cp<const K: u8>(pub u32);
";

/// The part of the standard library that `level` offers.
fn stx(level: u8) -> String {
    let mut s = String::from("#![no_std]\npub use core::*;\n");
    if level > 0 {
        s += "extern crate alloc;\npub use alloc::{boxed, collections, rc, string, vec};\npub mod borrow { pub use core::borrow::*; pub use alloc::borrow::*; }\n";
    }
    s
}

/// Definitions in `no_std` crates where nothing but `core` (and `alloc`) can be linked.
fn no_std_defs(ctx: &mut Ctx, subj: &Subject, level: u8) {
    let mut env = Env::new(ctx, "");
    let sys = sysroot(level);
    env.subj = subj.clone();
    env.vrt = small_crate(&env.dir, &sys, "vrt", SMALL_VRT);
    let stx = small_crate(&env.dir, &sys, "stx", &stx(level));
    env.head = format!("#![no_std]\n{}", env.head);
    env.rustc_args = vec![
        "--sysroot".into(),
        sys.display().to_string(),
        "--extern".into(),
        format!("stx={}", stx.display()),
    ];
    env.emit_metadata = true;
    let p = Profile { rel_paths: false, spelled: false, std_bounds: true, ..Profile::default() };
    let w = Profile { wild: true, macros: true, ..p.clone() };
    let name = if level == 0 { "core" } else { "core and alloc" };
    campaign(ctx, &env, ctx.n(250, 2500), &format!("nostd{level}"), &|c| {
        let mut g = Gen::new(c, p.clone());
        let wild = g.c.chance(1, 4);
        if wild {
            g.p = w.clone();
        }
        g.program();
        let mut defs = std::mem::take(&mut g.defs);
        let items = g.scope_items();
        fixup(&mut defs);
        restrict_defs(&mut defs, level);
        let text = |fm: Option<&str>| {
            let t: String = defs
                .iter()
                .map(|d| d.text(&Print { defs: &defs, params: &d.params, abs: if wild { Some("") } else { None }, frag: None }, fm))
                .collect();
            (items.clone() + &t).replace("::std::", "::stx::")
        };
        let module = text(Some("::funcmap"));
        let m = defs.last().unwrap();
        let t = m.mapped();
        let nontrivial = m.fields().any(|f| t.iter().any(|p| f.ty.mentions(*p) && f.ty != Ty::Param(*p)));
        CaseText {
            sample: module.clone(),
            bare: text(None),
            module,
            nontrivial,
            classes: vec![format!("definitions in no_std crates with {name} only")],
            ..Default::default()
        }
    });
}

/// One probe: type, source and target, marker, expected, needed level for the type to be nameable.
struct Probe {
    ty: String,
    a: String,
    b: String,
    m: usize,
    want: bool,
    lib: String,
}

fn probes(ctx: &Ctx, tag: &str, level_: u8, n: usize) -> Vec<Probe> {
    let mut c = Src::random(mix(&[ctx.seed, 15, vrt::choice::hash_str(tag)]));
    // X: neither Ord nor Hash; O: Ord; H: Eq + Hash; S: all
    let fams = ["X", "O", "H", "::vrt::S<0>", "::vrt::S<1>", "::vrt::W<3>", "::std::vec::Vec<u8>", "(X, u8)", "()"];
    let ord = |t: &str| !t.contains('X') && t != "H";
    let hash = |t: &str| !t.contains('X') && t != "O";
    let mut v = vec![];
    let src = |c: &mut Src, l: &Lib, i: usize| {
        // what the type itself has to satisfy
        if l.keys.contains(&i) {
            // the types can be named whatever their arguments are
            (*c.pick(&fams)).to_string()
        } else {
            (*c.pick(&fams)).to_string()
        }
    };
    for l in LIBS {
        let have = level(l.key) <= level_;
        let ordered = ["bmap", "bset", "heap", "bmapiter", "bsetiter", "heapiter"].contains(&l.key);
        let hashed = STD_LIBS.contains(&l.key);
        for k in 0..n {
            let args: Vec<String> = (0..l.arity).map(|i| src(&mut c, l, i)).collect();
            let ty = format!("::{}<{}>", l.path, args.join(", "));
            for m in 0..3 {
                let a = if m < l.arity { args[m].clone() } else { args[0].clone() };
                let b = if k == 0 { "::vrt::S<1>".to_string() } else { (*c.pick(&fams)).to_string() };
                let key_ok = |t: &str| (!ordered || ord(t)) && (!hashed || hash(t));
                // the keys of the result are collected
                let ok = if l.keys.is_empty() {
                    true
                } else if m == 0 {
                    key_ok(&b)
                } else {
                    key_ok(&args[0])
                };
                v.push(Probe { ty: ty.clone(), a: a.clone(), b: b.clone(), m, want: have && m < l.arity && ok, lib: l.key.into() });
                // another source type
                let wrong = *c.pick(&["u64", "::vrt::S<9>", "[u8; 3]"]);
                v.push(Probe { ty: ty.clone(), a: wrong.into(), b, m, want: false, lib: l.key.into() });
            }
        }
    }
    for n in [0usize, 1, 2, 3, 32, 33, 1000, 70000] {
        let a = *c.pick(&fams);
        let b = *c.pick(&fams);
        for m in 0..2 {
            v.push(Probe { ty: format!("[{a}; {n}]"), a: a.into(), b: b.into(), m, want: m == 0, lib: "array".into() });
        }
    }
    // nothing is documented for these
    for t in [
        "::std::rc::Rc<A_>", "::std::sync::Arc<A_>", "::std::rc::Weak<A_>", "::std::sync::Mutex<A_>", "::std::sync::RwLock<A_>",
        "&'static A_", "&'static mut A_", "*const A_", "*mut A_", "fn(A_)", "fn() -> A_", "(A_,)", "(A_, A_)", "A_",
        "::std::boxed::Box<[A_]>", "::std::collections::HashMap<u8, A_, u8>", "::std::slice::Iter<'static, A_>", "::std::pin::Pin<::std::boxed::Box<A_>>",
        "::std::mem::MaybeUninit<A_>", "::std::array::IntoIter<A_, 2>", "::std::vec::Drain<'static, A_>",
    ] {
        let a = *c.pick(&["::vrt::S<0>", "::vrt::S<1>", "u16"]);
        for m in 0..2 {
            // the hasher may be of any type
            let want = t.contains("HashMap") && m == 1 && level_ == 2;
            v.push(Probe { ty: t.replace("A_", a), a: a.into(), b: "::vrt::S<5>".into(), m, want, lib: "other".into() });
        }
    }
    v
}

fn table(ctx: &mut Ctx, env: &Env, set: &Set) {
    let ps = probes(ctx, set.name, set.level, ctx.n(6, 40));
    let mut body = String::from(
        "pub struct X; #[derive(PartialEq, Eq, PartialOrd, Ord)] pub struct O; #[derive(PartialEq, Eq, Hash)] pub struct H;\n::vrt::probe_items!(::funcmap);\nfn main() {\n",
    );
    for (i, p) in ps.iter().enumerate() {
        body += &format!(
            "println!(\"{i} {{}} {{}}\", P_::<{0}, {1}, {2}, {3}>::FM, P_::<{0}, {1}, {2}, {3}>::TFM);\n",
            p.ty, p.a, p.b, p.m
        );
    }
    body += "}\n";
    let bins = shards(env, &format!("table-{}", set.name.replace('+', "-")), &[body]);
    report_harness_errors(ctx);
    let mut bad = 0;
    for b in bins {
        let o = run(&mut std::process::Command::new(b), Duration::from_secs(60));
        if !o.ok {
            die(&format!("the table program failed: {}", o.err));
        }
        for l in o.out.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            let p = &ps[w[0].parse::<usize>().unwrap()];
            let id = format!("{} from {} to {} over parameter {} with features {}", p.ty, p.a, p.b, p.m, set.name);
            ctx.case(&id, p.want);
            ctx.class(if p.want { "implementations that have to exist" } else { "implementations that must not exist" }, 1);
            for (tr, got) in [("FuncMap", w[1]), ("TryFuncMap", w[2])] {
                if (got == "true") != p.want {
                    bad += 1;
                    let what = format!("{tr} for {id}: expected {}, found {got}", p.want);
                    println!("---- C15: {what}");
                    if bad <= 3 {
                        ctx.violation(&format!("table-{}-{}-{}-{tr}.txt", set.name, p.lib, p.m), &format!("{what}\n"));
                    }
                }
            }
        }
        if ctx.samples.len() < 3 {
            let p = &ps[ctx.seed as usize % ps.len()];
            ctx.sample(&format!("{} from {} to {} over parameter {} with features {}: {}", p.ty, p.a, p.b, p.m, set.name, p.want));
        }
    }
}

pub fn c15(ctx: &mut Ctx) -> ! {
    let flags = "inf: true, try_: true,";
    let mut built: Vec<(&Set, Option<Subject>)> = vec![];
    let outs = par(SETS, 5, |_, s| {
        // on its own, where nothing else is there to be linked, and for use next to std
        let tag = format!("feat-{}", s.name.replace('+', "-"));
        let small = (s.level < 2).then(|| {
            let sys = sysroot(s.level);
            let flags = format!("--sysroot={}", sys.display());
            build_subject(&SubjectOpts { features: s.feats, target: Some(TRIPLE), rustflags: &flags, tag: &format!("{tag}-small"), ..Default::default() })
        });
        let full = build_subject(&SubjectOpts { features: s.feats, tag: &tag, ..Default::default() });
        (small, full)
    });
    let mut small: Vec<Option<Subject>> = vec![];
    for (s, (sm, full)) in SETS.iter().zip(outs) {
        ctx.case(&format!("build with features {}", s.name), true);
        let fail = |ctx: &mut Ctx, e: &str, what: &str| {
            println!("---- C15: {what}\n{}", clip(e, 2000));
            ctx.violation(&format!("build-{}.txt", s.name), &format!("{what}\n{e}\n"));
        };
        let full = match full {
            Ok(f) => Some(f),
            Err(e) => {
                fail(ctx, &e, &format!("the crate does not build with features {}", s.name));
                None
            }
        };
        small.push(match sm {
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => {
                if full.is_some() {
                    let lib = if s.level == 0 { "core" } else { "core and alloc" };
                    fail(ctx, &e, &format!("with features {} the crate needs more than {lib}", s.name));
                }
                None
            }
            None => None,
        });
        built.push((s, full));
    }
    for ((s, full), small) in built.iter().zip(&small) {
        let Some(full) = full else { continue };
        if let Some(x) = small {
            no_std_defs(ctx, x, s.level);
        }
        let mut env = Env::new(ctx, flags);
        env.subj = full.clone();
        if replay_arg().is_none() {
            table(ctx, &env, s);
        }
        let tag = format!("lib-{}", s.name.replace('+', "-"));
        if s.feats.is_some() {
            run_lib_on(ctx, &env, flags, ctx.n(100, 1500), 1, &tag, &|k| level(k) <= s.level);
        }
        crate::props_lib::generic_impls(ctx, &env, ctx.n(80, 800), &format!("generic-{}", s.name), &|k| level(k) <= s.level);
        if s.level < 2 {
            let p = Profile { std_bounds: true, ..Profile::default() };
            campaign(ctx, &env, ctx.n(80, 1000), &format!("gen-{}", s.name), &|c| {
                let mut g = Gen::new(c, p.clone());
                g.program();
                let mut defs = std::mem::take(&mut g.defs);
                fixup(&mut defs);
                restrict_defs(&mut defs, s.level);
                module(c, &defs, &Mode::default())
            });
        }
    }
    ctx.finish("the crate is built with each combination of its features, for `alloc` and no features also against a sysroot that holds nothing but `core` (and `alloc`); for each combination a table of randomly instantiated implementations (every library type, parameter position, element types with and without order and hash, wrong positions and source types, undocumented types) is compared with the documented list, functions that are generic over all types and lifetimes use the library implementations knowing nothing but their documented bounds, library implementations and derived definitions are run against the reference mapping, and random definitions with derives are compiled in `#![no_std]` crates against the reduced sysroot. Non-trivial: an implementation that has to exist, or a mapped parameter occurs below another type constructor.")
}
