//! C04, C05 and the library parts of C03, C07, C19.
use crate::ast::*;
use crate::batch::*;
use crate::json;
use crate::report::Ctx;
use crate::util::*;
use std::fs;
use std::time::Duration;
use vrt::choice::{mix, Src};

/// One library type with the mapped argument position.
struct Sub {
    name: String,
    src: String,
    dst: String,
    hs: String,
    hd: String,
    er: String,
    marker: usize,
    rf: String,
    key: bool,
}

fn lib_sub(c: &mut Src, l: &Lib, p: usize, k: usize) -> Sub {
    let key = l.keys.contains(&p);
    // the first ones are fixed: plain tracked elements, elements with a part that equality does not see
    let (hs, hd) = match (k, key) {
        (0, true) => ('H', 'H'),
        (0, false) => ('S', 'S'),
        (1, true) => ('S', 'H'),
        _ => (*c.pick(&['S', 'W', 'L', 'Z', 'H', 'C']), *c.pick(&['S', 'W', 'L', 'Z', 'H', 'C'])),
    };
    let mut a: Vec<String> = vec![];
    let mut b: Vec<String> = vec![];
    for i in 0..l.arity {
        if i == p {
            a.push(tok_ty(hs, 0));
            b.push(tok_ty(hd, 1));
        } else {
            let f = if l.keys.contains(&i) { *c.pick(&['S', 'H', 'W']) } else { *c.pick(&['S', 'W', 'L', 'Z']) };
            let t = tok_ty(f, 20 + i as u8);
            a.push(t.clone());
            b.push(t);
        }
    }
    let er = tok_ty(*c.pick(&['S', 'W', 'L', 'C', 'Z']), 200);
    // other hashers: the output has the default one (known finding)
    let own_hasher = matches!(l.key, "hmap" | "hset") && k % 3 == 2;
    let hasher = if own_hasher { ", ::vrt::gen::Lump" } else { "" };
    Sub {
        name: format!("{}_{p}_{hs}{hd}_{k}", l.key),
        src: format!("::{}<{}{hasher}>", l.path, a.join(", ")),
        dst: format!("::{}<{}>", l.path, b.join(", ")),
        hs: tok_ty(hs, 0),
        hd: tok_ty(hd, 1),
        er,
        marker: p,
        rf: format!("::vrt::rm::{}_{p}(v, f)", l.key),
        key,
    }
}

fn array_sub(c: &mut Src, n: usize, k: usize) -> Sub {
    let hs = *c.pick(&['S', 'W', 'L', 'Z', 'H', 'C']);
    let hd = *c.pick(&['S', 'W', 'L', 'Z', 'H', 'C']);
    Sub {
        name: format!("array{n}_{hs}{hd}_{k}"),
        src: format!("[{}; {n}]", tok_ty(hs, 0)),
        dst: format!("[{}; {n}]", tok_ty(hd, 1)),
        hs: tok_ty(hs, 0),
        hd: tok_ty(hd, 1),
        er: tok_ty(*c.pick(&['S', 'W', 'L', 'C', 'Z']), 200),
        marker: 0,
        rf: "::vrt::rm::array(v, f)".into(),
        key: false,
    }
}

fn subjects(ctx: &Ctx, tag: &str, combos: usize) -> Vec<Sub> {
    let mut c = Src::random(mix(&[ctx.seed, vrt::choice::hash_str(&ctx.prop), vrt::choice::hash_str(tag)]));
    let mut v = vec![];
    for l in LIBS {
        for p in 0..l.arity {
            for k in 0..combos {
                v.push(lib_sub(&mut c, l, p, k));
            }
        }
    }
    for n in [0, 1, 2, 3, 4, 7, 16, 33, 100, 600] {
        for k in 0..combos.min(2) {
            v.push(array_sub(&mut c, n, k));
        }
    }
    v
}

/// Compiles shards of a harness and runs them.
pub fn shards(env: &Env, tag: &str, bodies: &[String]) -> Vec<std::path::PathBuf> {
    let outs = par(bodies, workers(), |i, b| {
        let dir = env.dir.join(format!("{tag}{i}"));
        fs::create_dir_all(&dir).unwrap();
        let src = dir.join("main.rs");
        fs::write(&src, format!("#![allow(warnings)]\nextern crate vrt;\nextern crate funcmap;\n{b}")).unwrap();
        let bin = dir.join("t.bin");
        let r = run(&mut env.rustc(&src, &bin, true), Duration::from_secs(300));
        if r.timed_out {
            die("rustc timed out");
        }
        if !r.ok && r.code.is_none() {
            die("rustc was killed");
        }
        if r.ok {
            Ok(bin)
        } else {
            let e = parse_errors(&r.err);
            Err((e.other, b.clone()))
        }
    });
    let mut v = vec![];
    for o in outs {
        match o {
            Ok(p) => v.push(p),
            Err(e) => HARNESS_ERR.lock().unwrap().push(e),
        }
    }
    v
}

static HARNESS_ERR: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(vec![]);

/// A harness that uses the documented implementations does not compile
/// although the library itself does.
pub fn report_harness_errors(ctx: &mut Ctx) {
    let es = std::mem::take(&mut *HARNESS_ERR.lock().unwrap());
    for (k, (e, b)) in es.iter().take(2).enumerate() {
        println!("harness does not compile:\n{}", clip(e, 3000));
        let t: String = e.lines().map(|l| format!("// {l}\n")).collect();
        ctx.violation(&format!("harness{k}.rs"), &format!("// the documented implementations cannot be used:\n{t}\n{b}"));
    }
}

fn table(subs: &[&Sub]) -> String {
    subs.iter()
        .map(|s| {
            format!(
                "({:?}, ::vrt::subj!(src {}, dst {}, hs {}, hd {}, er {}, fm [::funcmap], marker {}, kinds (y y), rf |v, f| {})),\n",
                s.name, s.src, s.dst, s.hs, s.hd, s.er, s.marker, s.rf
            )
        })
        .collect()
}

/// Runs every library implementation on `cases` inputs for each of `combos`
/// choices of element types.
pub fn run_lib(ctx: &mut Ctx, flags: &str, cases: usize, combos: usize) {
    let env = Env::new(ctx, flags);
    run_lib_on(ctx, &env, flags, cases, combos, "lib", &|_| true)
}

/// The same for the library types in `allowed` with the library of `env`.
pub fn run_lib_on(ctx: &mut Ctx, env: &Env, flags: &str, cases: usize, combos: usize, tag: &str, allowed: &dyn Fn(&str) -> bool) {
    let rep = replay_arg();
    if let Some((t, _)) = &rep {
        if !t.starts_with(&format!("{tag} ")) {
            return;
        }
    }
    let mut subs = subjects(ctx, tag, combos);
    subs.retain(|s| allowed(s.name.split('_').next().unwrap()));
    let n = workers();
    let bodies: Vec<String> = (0..n)
        .map(|i| {
            let part: Vec<&Sub> = subs.iter().skip(i).step_by(n).collect();
            format!(
                "fn main() {{ ::vrt::lib_eng::lib_main(::vrt::eng::Flags {{ {flags} ..::std::default::Default::default() }}, &[{}]) }}\n",
                table(&part)
            )
        })
        .collect();
    let bins = shards(env, tag, &bodies);
    report_harness_errors(ctx);
    let outs = par(&bins, n, |_, b| {
        let mut c = std::process::Command::new(b);
        match &rep {
            Some((t, d)) => {
                let d: Vec<String> = d.iter().map(|x| x.to_string()).collect();
                c.args(["replay", t.trim_start_matches(&format!("{tag} ")), &d.join(",")]);
            }
            None => {
                c.args([ctx.seed.to_string(), cases.to_string()]);
            }
        }
        run(&mut c, Duration::from_secs(700))
    });
    let mut bad = 0;
    for o in outs {
        if o.timed_out {
            die("the harness timed out");
        }
        let mut cur = String::new();
        for l in o.out.lines() {
            if let Some(n) = l.strip_prefix("BEGIN ") {
                cur = n.to_string();
            } else if let Some(f) = l.strip_prefix("FAIL ") {
                let w: Vec<&str> = f.splitn(3, '\t').collect();
                println!("---- {}: {}", ctx.prop, clip(w[2], 2000));
                bad += 1;
                if bad <= 5 {
                    ctx.violation(
                        &format!("{tag}-{}.txt", w[0]),
                        &format!("// property: {}\n// tag: {tag} {}\n// choices: [{}]\n// {}\n", ctx.prop, w[0], w[1], w[2]),
                    );
                }
            } else if let Some(f) = l.strip_prefix("STAT ") {
                let w: Vec<&str> = f.split('\t').collect();
                let num = |i: usize| w[i].parse::<u64>().unwrap_or(0);
                ctx.evaluations += num(1);
                ctx.distinct_extra += num(5);
                ctx.class("library types: runs of mappings", num(2));
                ctx.class("library types: closure calls in reference runs", num(3));
                if num(4) >= 100 {
                    ctx.class("library implementations run on 100 or more elements", 1);
                }
                ctx.class("library implementations (type, parameter, element types)", 1);
                if ctx.lib_samples < 3 && !w[6].is_empty() && num(1) % 7 == ctx.lib_samples % 7 || ctx.lib_samples == 0 {
                    ctx.lib_samples += 1;
                    ctx.sample(w[6]);
                }
                cur.clear();
            }
        }
        if !o.ok && rep.is_none() {
            if cur.is_empty() {
                die(&format!("the harness failed: {:?} {}", o.code, o.err));
            }
            println!("---- {}: crash while running {cur}: {}", ctx.prop, clip(&o.err, 1000));
            ctx.violation(&format!("{tag}-crash-{cur}.txt"), &format!("// crash (exit {:?}) while running {cur}\n{}\n", o.code, o.err));
        }
    }
}

/// Functor laws for library types.
pub fn lib_laws(ctx: &mut Ctx, rounds: usize, infer: bool) {
    if replay_arg().is_some() {
        return;
    }
    let env = Env::new(ctx, "");
    let mut c = Src::random(mix(&[ctx.seed, 77]));
    let mut checks = vec![];
    let reps = if infer { 4 } else { 3 };
    for (l, rep) in LIBS.iter().flat_map(|l| (0..reps).map(move |r| (l, r))) {
        for p in 0..l.arity {
            let key = l.keys.contains(&p);
            let fams: &[char] = if key || rep == 0 { &['S', 'W', 'L'] } else { &['S', 'W', 'L', 'Z'] };
            let h: Vec<String> = (0..3u8).map(|k| elem(&mut c, fams, k, infer)).collect();
            let t: Vec<String> = h
                .iter()
                .map(|x| {
                    let a: Vec<String> = (0..l.arity).map(|i| if i == p { x.clone() } else { tok_ty('S', 30) }).collect();
                    format!("::{}<{}>", l.path, a.join(", "))
                })
                .collect();
            let name = format!("{}_{p}_{rep}", l.key);
            checks.push((name.clone(), law_text(&name, key, &t, &h, p, infer.then_some(l.arity == 1))));
        }
        if l.arity == 2 && rep == 0 && !infer {
            let h: Vec<String> = (0..4u8).map(|k| tok_ty(*c.pick(&['S', 'W', 'L']), k)).collect();
            let t = |x: usize, y: usize| format!("::{}<{}, {}>", l.path, h[x], h[2 + y]);
            checks.push((
                format!("{}_commute", l.key),
                format!(
                    "cx.law(\"{}_commute\", true, ::vrt::law_commute!(ty {}, {}, {}, {}, p {}, {}, q {}, {}, fm [::funcmap], markers 0 1));\n",
                    l.key, t(0, 0), t(1, 0), t(0, 1), t(1, 1), h[0], h[1], h[2], h[3]
                ),
            ));
        }
    }
    for n in [0usize, 1, 2, 5, 32] {
        let h: Vec<String> = (0..3u8).map(|k| elem(&mut c, &['S', 'W', 'L', 'Z'], k, infer)).collect();
        let t: Vec<String> = h.iter().map(|x| format!("[{x}; {n}]")).collect();
        checks.push((format!("array{n}"), law_text(&format!("array{n}"), false, &t, &h, 0, infer.then_some(true))));
    }
    let k = workers();
    let bodies: Vec<String> = (0..k)
        .map(|i| {
            let mut fns = String::new();
            let mut tab = String::new();
            for (j, (name, text)) in checks.iter().enumerate().skip(i).step_by(k) {
                fns += &format!("fn f{j}(cx: &mut ::vrt::eng::Cx) {{\n{text}}}\n");
                tab += &format!("({name:?}, f{j} as fn(&mut ::vrt::eng::Cx)), ");
            }
            format!("{fns}fn main() {{ ::vrt::eng::batch(::std::default::Default::default(), {rounds}, {}, &[{tab}]) }}\n", ctx.seed)
        })
        .collect();
    let bins = shards(&env, "law", &bodies);
    report_harness_errors(ctx);
    let outs = par(&bins, k, |_, b| run(&mut std::process::Command::new(b), Duration::from_secs(600)));
    for o in outs {
        let mut cur = String::new();
        for l in o.out.lines() {
            let w: Vec<&str> = l.splitn(3, ' ').collect();
            match w[0] {
                "BEGIN" => cur = w[1].into(),
                "FAIL" => {
                    println!("---- {}: {}", ctx.prop, clip(l, 2000));
                    ctx.violation(&format!("law-{}.txt", w[1]), &format!("{l}\nseed {}\n", ctx.seed));
                }
                "STAT" => {
                    let n: Vec<u64> = w[2].split(' ').filter_map(|x| x.parse().ok()).collect();
                    ctx.evaluations += n[0];
                    ctx.distinct_extra += n[3];
                    ctx.class("library types: law instances", n[0]);
                    cur.clear();
                }
                _ => {}
            }
        }
        if !o.ok {
            if cur.is_empty() {
                die(&format!("the harness failed: {:?} {}", o.code, o.err));
            }
            ctx.violation(&format!("law-crash-{cur}.txt"), &format!("crash (exit {:?}) in {cur}\n{}\n", o.code, o.err));
        }
    }
    let _ = json::q("");
}

fn elem(c: &mut Src, fams: &[char], k: u8, compound: bool) -> String {
    let t = Ty::Tok(*c.pick(fams), k);
    let t = if compound { crate::emit::compound(c, t) } else { t };
    Print { defs: &[], params: &[], abs: Some(""), frag: None }.ty(&t)
}

fn law_text(name: &str, key: bool, t: &[String], h: &[String], m: usize, infer: Option<bool>) -> String {
    if let Some(sole) = infer {
        return format!(
            "cx.law({name:?}, {key}, ::vrt::law_infer!(ty {}, {}, {}, h {}, {}, {}, fm [::funcmap], marker {m}, sole {}, generic []));\n",
            t[0], t[1], t[2], h[0], h[1], h[2], if sole { "y" } else { "n" }
        );
    }
    format!(
        "cx.law({name:?}, {key}, ::vrt::law_identity!(ty {}, h {}, fm [::funcmap], marker {m}));\ncx.law({name:?}, {key}, ::vrt::law_compose!(ty {}, {}, {}, h {}, {}, {}, fm [::funcmap], marker {m}));\n",
        t[0], h[0], t[0], t[1], t[2], h[0], h[1], h[2]
    )
}

const RULE: &str = "every supported library type and parameter with several element types (tracked, heap-owning, zero-sized, over-aligned, copyable, with a part that equality does not see) on random values: sizes 0 to 6000, unique or colliding ids, wrapped ring buffers, partially consumed iterators (from either end), hash maps with one or a colliding hasher; closure results are injective, stateful or colliding";

pub fn c04(ctx: &mut Ctx) -> ! {
    run_lib(ctx, "inf: true,", ctx.n(6000, 60000), 6);
    hasher_finding(ctx);
    ctx.finish(&format!("{RULE}. Call log, result and drop ledger of `func_map` are compared with an element-wise reference that collects through the type's own FromIterator. Non-trivial: at least two closure calls; distinct by choice sequence."))
}

pub fn c05(ctx: &mut Ctx) -> ! {
    run_lib(ctx, "try_: true,", ctx.n(5000, 40000), 6);
    ctx.finish(&format!("{RULE}. `try_func_map` is run without failure and with the first failure at the first, last and random positions (every later call would fail as well); call log, error, result and drop ledger are compared with the reference. Non-trivial: at least two closure calls; distinct by choice sequence."))
}

/// Known finding D7: the hasher is not kept.
fn hasher_finding(ctx: &mut Ctx) {
    if replay_arg().is_some() {
        return;
    }
    let env = Env::new(ctx, "");
    let ty = |t: &str| format!("::std::any::TypeId::of::<{t}>()");
    let mut body = String::from("type L = ::vrt::gen::Lump; type A = ::vrt::S<0>; type B = ::vrt::S<1>; type V = ::vrt::S<2>; use ::std::collections::*;\nfn main() {\n");
    for (name, src, dst, m) in [
        ("HashMap-keys", "HashMap<A, V, L>", "HashMap<B, V, L>", 0),
        ("HashMap-values", "HashMap<V, A, L>", "HashMap<V, B, L>", 1),
        ("HashSet", "HashSet<A, L>", "HashSet<B, L>", 0),
    ] {
        for tr in ["FuncMap", "TryFuncMap"] {
            body += &format!(
                "println!(\"{name}-{tr} {{}}\", {} == {});\n",
                ty(&format!("<{src} as ::funcmap::{tr}<A, B, ::funcmap::TypeParam<{m}>>>::Output")),
                ty(dst)
            );
        }
    }
    body += "}\n";
    let bins = shards(&env, "hasher", &[body.clone()]);
    report_harness_errors(ctx);
    for b in bins {
        let o = run(&mut std::process::Command::new(b), Duration::from_secs(60));
        for l in o.out.lines() {
            let (k, v) = l.split_once(' ').unwrap();
            ctx.evaluations += 1;
            if v == "false" {
                ctx.finding(
                    &format!("hasher-{k}"),
                    &format!("mapping a {k} with a hasher other than RandomState returns a type with RandomState"),
                    &body,
                );
            }
        }
    }
}

/// Library implementations used by functions that are generic over all of the
/// types and lifetimes involved, knowing only what is documented for them.
pub fn generic_impls(ctx: &mut Ctx, env: &Env, n: usize, tag: &str, allowed: &(dyn Fn(&str) -> bool + Sync)) {
    // every implementation once, in terms of plain parameters
    let libs: Vec<&Lib> = LIBS.iter().filter(|l| allowed(l.key)).collect();
    let seqs: Vec<Vec<u32>> = (0..=libs.len() as u32).flat_map(|l| [vec![l, 0], vec![l, 1]]).collect();
    campaign_over(ctx, env, seqs, &format!("{tag}-each"), &|c| {
        let lib = libs.get(c.draw(libs.len() as u32 + 1) as usize).copied();
        let fallible = c.draw(2) == 1;
        let (mut body, mut bare) = (String::new(), String::new());
        for m in 0..lib.map_or(1, |l| l.arity) {
            let (f, g) = plain_fn(lib, m, fallible);
            body += &f;
            bare += &g;
        }
        CaseText {
            sample: body.clone(),
            module: body,
            bare,
            nontrivial: true,
            classes: vec!["implementation used with type parameters for everything".into()],
            ..Default::default()
        }
    });
    campaign(ctx, env, n, tag, &|c| {
        let libs: Vec<&Lib> = LIBS.iter().filter(|l| allowed(l.key)).collect();
        let mut body = String::new();
        let mut bare = String::new();
        let mut names = vec![];
        for k in 0..1 + c.small(4) {
            let (f, g, name) = generic_fn(c, &libs, k as usize);
            body += &f;
            bare += &g;
            names.push(name);
        }
        CaseText {
            sample: body.clone(),
            module: body,
            bare,
            nontrivial: true,
            classes: vec!["generic uses of library implementations".into()],
            ..Default::default()
        }
    });
}

/// A function that maps argument `m` of a library type (or an array), all of
/// whose arguments, the result, the error and the closure are type parameters.
fn plain_fn(lib: Option<&Lib>, m: usize, fallible: bool) -> (String, String) {
    let arity = lib.map_or(1, |l| l.arity);
    let hasher = lib.is_some_and(|l| ["hmap", "hset"].contains(&l.key));
    let hashed = lib.is_some_and(|l| ["hmap", "hset", "hmapiter", "hsetiter"].contains(&l.key));
    let spell = |mapped: &str, hasher: Option<&str>| match lib {
        None => format!("[{mapped}; N]"),
        Some(l) => {
            let mut a: Vec<String> = (0..arity).map(|k| if k == m { mapped.into() } else { format!("P{k}") }).collect();
            a.extend(hasher.map(String::from));
            format!("::{}<{}>", l.path, a.join(", "))
        }
    };
    let (src, dst) = (spell("A", hasher.then_some("S")), spell("B", None));
    let mut gs: Vec<String> = (0..arity).filter(|k| *k != m).map(|k| format!("P{k}")).collect();
    gs.extend(["A", "B", "G", "E"].map(String::from));
    if hasher {
        gs.push("S".into());
    }
    gs.push("const N: usize".into());
    let (tr, me, res, ret) = if fallible {
        ("TryFuncMap", "try_func_map", "::std::result::Result<B, E>", format!("::std::result::Result<{dst}, E>"))
    } else {
        ("FuncMap", "func_map", "B", dst.clone())
    };
    let mut wh = vec![format!("G: FnMut(A) -> {res}")];
    let bound = if hashed { "::std::cmp::Eq + ::std::hash::Hash" } else { "::std::cmp::Ord" };
    for k in lib.map_or(&[][..], |l| l.keys) {
        wh.push(if *k == m { format!("B: {bound}") } else { format!("P{k}: {bound}") });
    }
    let head = format!("pub fn each{m}<{}>(x: {src}, f: G, _: E) -> {ret} where {}", gs.join(", "), wh.join(", "));
    (
        format!("{head} {{ <{src} as ::funcmap::{tr}<A, B, ::funcmap::TypeParam<{m}>>>::{me}(x, f) }}\n"),
        format!("{head} {{ let _ = (x, f); loop {{}} }}\n"),
    )
}

fn generic_fn(c: &mut Src, libs: &[&Lib], k: usize) -> (String, String, String) {
    let mut params: Vec<String> = vec![];
    let mut wh: Vec<String> = vec![];
    let fresh = |c: &mut Src, params: &mut Vec<String>| {
        if !params.is_empty() && c.chance(1, 6) {
            return c.pick(params).clone();
        }
        let p = format!("P{}", params.len());
        params.push(p.clone());
        p
    };
    let ty = |c: &mut Src, params: &mut Vec<String>| {
        let p = fresh(c, params);
        match c.draw(20) {
            1 => format!("&'a {p}"),
            2 => format!("&'a mut {p}"),
            3 => format!("({p}, {})", fresh(c, params)),
            4 => format!("[{p}; N]"),
            5 => format!("::std::rc::Rc<{p}>"),
            6 => format!("::std::boxed::Box<dyn Fn({p}) -> u8 + 'a>"),
            7 => format!("::std::cell::Cell<{p}>"),
            8 => format!("*const {p}"),
            9 => format!("fn({p})"),
            10 => format!("&'a dyn ::std::cmp::PartialEq<{p}>"),
            _ => p,
        }
    };
    let array = c.chance(1, 12);
    let (path, arity, keys, key): (String, usize, &[usize], &str) = if array {
        ("[]".into(), 1, &[], "array")
    } else {
        let l = *c.pick(libs);
        (format!("::{}", l.path), l.arity, l.keys, l.key)
    };
    let args: Vec<String> = (0..arity).map(|_| ty(c, &mut params)).collect();
    let m = c.draw(arity as u32) as usize;
    let b = ty(c, &mut params);
    let hashed = ["hmap", "hset", "hmapiter", "hsetiter"].contains(&key);
    let mut dst = args.clone();
    dst[m] = b.clone();
    for k in keys {
        let bound = if hashed { "::std::cmp::Eq + ::std::hash::Hash" } else { "::std::cmp::Ord" };
        wh.push(format!("{}: {bound}", dst[*k]));
    }
    let spell = |args: &[String], hasher: Option<&str>| {
        if array {
            format!("[{}; M]", args[0])
        } else {
            let mut a = args.to_vec();
            a.extend(hasher.map(String::from));
            format!("{path}<{}>", a.join(", "))
        }
    };
    let hasher = (["hmap", "hset"].contains(&key) && c.chance(1, 2)).then(|| fresh(c, &mut params));
    let src = spell(&args, hasher.as_deref());
    let out = spell(&dst, None);
    let a = &args[m];
    let err = ty(c, &mut params);
    let fallible = c.chance(1, 2);
    let res = if fallible { format!("::std::result::Result<{b}, {err}>") } else { b.clone() };
    let ret = if fallible { format!("::std::result::Result<{out}, {err}>") } else { out };
    let f = match c.draw(8) {
        1 => format!("&'a mut dyn FnMut({a}) -> {res}"),
        2 => format!("::std::boxed::Box<dyn FnMut({a}) -> {res} + 'a>"),
        3 => format!("fn({a}) -> {res}"),
        4 => format!("&'a mut (impl FnMut({a}) -> {res} + ?Sized)"),
        5 => format!("impl Fn({a}) -> {res}"),
        _ => format!("impl FnMut({a}) -> {res}"),
    };
    let (tr, me) = if fallible { ("TryFuncMap", "try_func_map") } else { ("FuncMap", "func_map") };
    let over = c.chance(1, 3);
    let call = match (over, c.chance(1, 2)) {
        (true, _) => format!("x.{me}_over::<::funcmap::TypeParam<{m}>, _{}>(f)", if fallible { ", _" } else { "" }),
        (_, true) => format!("::funcmap::{tr}::<_, _, ::funcmap::TypeParam<{m}>>::{me}(x, f)"),
        (_, _) => format!("<{src} as ::funcmap::{tr}<{a}, {b}, ::funcmap::TypeParam<{m}>>>::{me}(x, f)"),
    };
    let mut gs = vec!["'a".to_string()];
    gs.extend(params.iter().map(|p| format!("{p}: 'a")));
    gs.push("const N: usize".into());
    gs.push("const M: usize".into());
    let wh = if wh.is_empty() { String::new() } else { format!(" where {}", wh.join(", ")) };
    let head = format!("pub fn g{k}<{}>(x: {src}, f: {f}) -> {ret}{wh}", gs.join(", "));
    let import = if over { format!(" use ::funcmap::{tr};") } else { String::new() };
    (
        format!("{head} {{{import} {call} }}\n"),
        format!("{head} {{ let _ = (x, f); loop {{}} }}\n"),
        key.into(),
    )
}
