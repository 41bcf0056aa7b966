//! C16: lints.
use crate::ast::*;
use crate::batch::*;
use crate::gen::*;
use crate::json;
use crate::props_prog::{names_of, option_attrs};
use crate::report::Ctx;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;
use std::time::Duration;
use vrt::choice::Src;

/// The lint groups that are turned on crate-wide, and single lints that the
/// derived code is written for.
const LINTS: &[&str] = &[
    "warnings",
    "unused",
    "future_incompatible",
    "nonstandard_style",
    "let_underscore",
    "refining_impl_trait",
    "keyword_idents",
    "rust_2018_compatibility",
    "rust_2018_idioms",
    "rust_2021_compatibility",
    "rust_2024_compatibility",
    "unused_qualifications",
    "absolute_paths_not_starting_with_crate",
];

/// What a diagnostic is about: lint, case file, line in it, text.
struct Diag {
    lint: String,
    file: String,
    line: u64,
    text: String,
}

/// Warnings that concern a case. Errors are reported separately.
fn warnings(stderr: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in stderr.lines().filter(|l| l.starts_with('{')) {
        let Some(j) = json::parse(l) else { continue };
        let level = j.get("level").str();
        if level != "warning" && level != "error" {
            continue;
        }
        let lint = j.get("code").get("code").str().to_string();
        let is_lint = !lint.is_empty() && !(lint.starts_with('E') && lint[1..].bytes().all(|b| b.is_ascii_digit()));
        if !is_lint {
            continue;
        }
        // the outermost place of each span that is in a case
        for s in j.get("spans").arr() {
            let mut s = s;
            let mut at: Option<(String, u64)> = None;
            loop {
                let f = s.get("file_name").str().rsplit('/').next().unwrap_or("").to_string();
                if f.starts_with("case") {
                    at = Some((f, s.get("line_start").num() as u64));
                }
                let e = s.get("expansion");
                if *e == json::J::Null {
                    break;
                }
                s = e.get("span");
            }
            if let Some((file, line)) = at {
                v.push(Diag { lint: lint.clone(), file, line, text: j.get("rendered").str().to_string() });
            }
        }
    }
    v
}

const MARK: &str = "//@allow";

/// Puts the allow attribute of each definition in its place. `inner`: in front
/// of each of its parts that is marked (for a definition with such marks).
fn fill(text: &str, allows: &[BTreeSet<String>], inner: bool) -> String {
    let attr = |k: usize| match allows.get(k) {
        Some(a) if !a.is_empty() => format!("#[allow({})] ", a.iter().cloned().collect::<Vec<_>>().join(", ")),
        _ => String::new(),
    };
    let mut out: String = text
        .lines()
        .map(|l| match l.strip_prefix(MARK) {
            Some(k) => {
                let k: usize = k.trim().parse().unwrap();
                if inner && text.contains(&part_mark(k)) {
                    "\n".into()
                } else {
                    attr(k) + "\n"
                }
            }
            None => format!("{l}\n"),
        })
        .collect();
    for k in 0..allows.len() {
        out = out.replace(&part_mark(k), &if inner { attr(k) } else { String::new() });
    }
    out
}

fn part_mark(k: usize) -> String {
    format!("/*@{k}*/ ")
}

/// The definition a line belongs to: the last marker before it, or the next
/// one.
fn owner(text: &str, line: u64) -> Option<usize> {
    let mut k = None;
    for (i, l) in text.lines().enumerate() {
        if let Some(m) = l.strip_prefix(MARK) {
            if i as u64 + 1 > line && k.is_some() {
                break;
            }
            k = m.trim().parse().ok();
        }
    }
    k
}

fn compile(env: &Env, dir: &Path, set: &[(usize, &CaseText)], bare: bool) -> (Errors, Vec<Diag>) {
    let src = write_crate(env, dir, set, bare);
    let r = run(&mut env.rustc(&src, &dir.join("t.rmeta"), false), Duration::from_secs(150));
    let _ = fs::remove_dir_all(dir);
    if r.timed_out {
        die("rustc timed out");
    }
    let mut e = parse_errors(&r.err);
    if !r.ok && e.by_file.is_empty() && e.other.is_empty() {
        e.other = format!("exit {:?}: {}", r.code, r.err);
    }
    (e, warnings(&r.err))
}

fn judge(env: &Env, cases: &[CaseText]) -> Vec<Outcome> {
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(env.size).collect();
    let outs = par(&chunks, workers(), |k, ch| {
        let dir = env.dir.join(format!("b{k}"));
        let r = judge_batch(env, &dir, ch, cases);
        let _ = fs::remove_dir_all(&dir);
        r
    });
    let mut v: Vec<Option<Outcome>> = vec![None; cases.len()];
    for (i, o) in outs.into_iter().flatten() {
        v[i] = Some(o);
    }
    v.into_iter().map(|o| o.expect("every case has an outcome")).collect()
}

fn judge_batch(env: &Env, dir: &Path, idx: &[usize], cases: &[CaseText]) -> Vec<(usize, Outcome)> {
    let file = |i: usize| format!("case{i}.rs");
    let mut res: BTreeMap<usize, Outcome> = BTreeMap::new();
    let mut live = idx.to_vec();
    let mut now: BTreeMap<usize, CaseText> = idx.iter().map(|i| (*i, cases[*i].clone())).collect();
    let sel = |live: &[usize], now: &BTreeMap<usize, CaseText>| -> Vec<(usize, CaseText)> {
        live.iter().map(|i| (*i, now[i].clone())).collect()
    };
    let go = |set: &[(usize, CaseText)], bare: bool| {
        let refs: Vec<(usize, &CaseText)> = set.iter().map(|(i, c)| (*i, c)).collect();
        compile(env, &dir.join(if bare { "b" } else { "d" }), &refs, bare)
    };
    // the definitions alone: what they trigger is allowed at the item
    let mut allows: BTreeMap<usize, Vec<BTreeSet<String>>> =
        idx.iter().map(|i| (*i, vec![BTreeSet::new(); cases[*i].bare.matches(MARK).count()])).collect();
    let mut outer: BTreeSet<usize> = BTreeSet::new();
    let mut round = 0;
    while !live.is_empty() {
        round += 1;
        let (e, w) = go(&sel(&live, &now), true);
        if !e.other.is_empty() && e.by_file.is_empty() {
            die(&format!("control programs fail: {}", e.other));
        }
        if !e.by_file.is_empty() {
            for i in live.clone() {
                if let Some(t) = e.by_file.get(&file(i)) {
                    res.insert(i, Outcome::Invalid(t.clone()));
                    live.retain(|x| *x != i);
                }
            }
            continue;
        }
        let mut more = false;
        for d in &w {
            let Some(i) = live.iter().copied().find(|i| file(*i) == d.file) else { continue };
            let new = match owner(&cases[i].bare, d.line) {
                Some(k) => round < 5 && allows.get_mut(&i).unwrap()[k].insert(d.lint.clone()),
                None => false,
            };
            // what is not silenced at the parts is at the item
            more |= new | (round == 2);
            if !new && round >= 4 {
                // not to be silenced at the definition
                res.insert(i, Outcome::Invalid(d.text.clone()));
            }
        }
        live.retain(|i| !res.contains_key(i));
        if round >= 2 {
            outer.extend(live.iter().filter(|i| w.iter().any(|d| d.file == file(**i))));
        }
        for i in &live {
            let c = now.get_mut(i).unwrap();
            let at_item = outer.contains(i);
            c.bare = fill(&cases[*i].bare, &allows[i], !at_item);
            c.module = fill(&cases[*i].module, &allows[i], !at_item);
        }
        if w.is_empty() || (!more && round >= 4) {
            break;
        }
    }
    // with the derives
    while !live.is_empty() {
        let (e, w) = go(&sel(&live, &now), false);
        if !e.by_file.is_empty() || !e.other.is_empty() {
            // each failing program by itself: not what this property is about
            let bad: Vec<usize> = live.iter().copied().filter(|i| e.by_file.contains_key(&file(*i))).collect();
            if bad.is_empty() {
                if live.len() == 1 {
                    res.insert(live[0], Outcome::CompileFail(e.other));
                    break;
                }
                let (a, b) = live.split_at(live.len() / 2);
                for part in [a, b] {
                    for (i, o) in judge_batch(env, dir, part, cases) {
                        res.insert(i, o);
                    }
                }
                break;
            }
            for i in &bad {
                let (e1, _) = go(&sel(&[*i], &now), false);
                let o = match e1.by_file.get(&file(*i)) {
                    Some(t) => Outcome::CompileFail(t.clone()),
                    None if !e1.other.is_empty() => Outcome::CompileFail(e1.other),
                    None => Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 },
                };
                res.insert(*i, o);
            }
            live.retain(|i| !bad.contains(i));
            continue;
        }
        for i in &live {
            let t: Vec<String> = w
                .iter()
                .filter(|d| d.file == file(*i))
                .map(|d| format!("lint {}: {}", d.lint, d.text))
                .collect::<BTreeSet<_>>()
                .into_iter()
                .collect();
            let o = if t.is_empty() {
                Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 }
            } else {
                Outcome::RunFail(format!("the derives trigger lints:\n{}\n---- in\n{}", t.join("\n"), now[i].module))
            };
            res.insert(*i, o);
        }
        break;
    }
    res.into_iter().collect()
}

const TYPE_NAMES: &[&str] = &["foo_bar", "Foo_Bar", "lower", "UPPER", "fooBar", "r#type", "X_", "_X"];
const PARAM_NAMES: &[&str] = &["t", "elem_type", "T_1", "item", "elemType", "r#move", "_T", "VALUE"];
const CONST_NAMES: &[&str] = &["n", "len", "numItems", "Len", "r#const", "_N"];
const LT_NAMES: &[&str] = &["'A", "'longLived", "'a1", "'_b"];
const FIELD_NAMES: &[&str] = &["fooBar", "FOO", "Foo", "foo__bar", "r#in", "_x", "x_", "F1", "A", "fieldA"];
const VARIANT_NAMES: &[&str] = &["foo_bar", "lower", "UPPER_CASE", "fooBar", "r#as", "_V", "A_B"];

const DEPRECATED: &[&str] = &[
    "#[deprecated] ",
    "#[deprecated(since = \"1.0.0\", note = \"use `New`\")] ",
    "#[deprecated = \"old\"] ",
];

/// Changes definitions in ways that lints are about.
fn decorate(c: &mut Src, defs: &mut Vec<Def>, classes: &mut Vec<String>) {
    let norm = |s: &str| s.trim_start_matches("r#").to_string();
    let mut types: Vec<String> = defs.iter().map(|d| norm(&d.name)).collect();
    for d in defs.iter_mut() {
        if c.chance(1, 4) {
            let n = *c.pick(TYPE_NAMES);
            if !types.contains(&norm(n)) {
                types.push(norm(n));
                d.name = n.into();
                classes.push("unusual type name".into());
            }
        }
        d.vis = c.pick(&["pub ", "pub ", "pub ", "pub(crate) ", ""]).to_string();
        if c.chance(1, 6) {
            d.attrs.push(c.pick(DEPRECATED).trim().to_string());
            classes.push("deprecated item".into());
        }
        if c.chance(1, 8) {
            d.attrs.push("#[must_use = \"why\"]".into());
            d.attrs.retain(|a| a != "#[must_use]");
        }
    }
    let last = defs.len() - 1;
    for (di, d) in defs.iter_mut().enumerate() {
        // parameters
        let mut used: Vec<String> = types.clone();
        used.extend(d.params.iter().map(|p| norm(&p.name)));
        for p in d.params.iter_mut() {
            if !c.chance(1, 4) {
                continue;
            }
            let n = match p.kind {
                PK::Lt { .. } => *c.pick(LT_NAMES),
                PK::Ty { .. } => *c.pick(PARAM_NAMES),
                PK::Const { .. } => *c.pick(CONST_NAMES),
            };
            if used.contains(&norm(n)) {
                continue;
            }
            used.push(norm(n));
            classes.push(format!("unusual {} name", match p.kind {
                PK::Lt { .. } => "lifetime",
                PK::Ty { .. } => "type parameter",
                PK::Const { .. } => "const parameter",
            }));
            p.name = n.into();
        }
        // variants and fields
        let mut vused: Vec<String> = d.variants.iter().map(|v| norm(&v.name)).collect();
        let (is_enum, mut dep) = (d.is_enum, 0);
        for v in d.variants.iter_mut() {
            if is_enum && c.chance(1, 5) {
                let n = *c.pick(VARIANT_NAMES);
                if !vused.contains(&norm(n)) {
                    vused.push(norm(n));
                    v.name = n.into();
                    classes.push("unusual variant name".into());
                }
            }
            if is_enum && c.chance(1, 8) {
                v.pre = format!("{}{}", c.pick(DEPRECATED), v.pre);
                dep += 1;
            }
            let mut fused: Vec<String> = v.fields.iter().map(|f| norm(&f.name)).collect();
            for f in v.fields.iter_mut().filter(|f| !f.gone) {
                if v.style == Style::Named && c.chance(1, 5) {
                    let n = *c.pick(FIELD_NAMES);
                    if !fused.contains(&norm(n)) {
                        fused.push(norm(n));
                        f.name = n.into();
                        classes.push("unusual field name".into());
                    }
                }
                if !is_enum && c.chance(1, 2) && !f.pre.contains("pub") {
                    f.pre += *c.pick(&["pub ", "pub(crate) "]);
                }
                if c.chance(1, 12) {
                    f.pre = format!("{}{}", c.pick(DEPRECATED), f.pre);
                    dep += 1;
                }
                // not a mapped type: closed types of interest to lints
                if matches!(f.ty, Ty::Prim(_) | Ty::Tok(..)) && c.chance(1, 2) {
                    f.ty = Ty::Leaf(*c.pick(&[
                        "::std::convert::Infallible",
                        "::std::boxed::Box<dyn Drop>",
                        "::std::boxed::Box<dyn (::std::ops::Drop)>",
                        "std::primitive::u8",
                        "::std::option::Option<::std::string::String>",
                        "fn(::std::borrow::Cow<'_, str>) -> u8",
                        "extern \"C\" fn(String) -> String",
                        "self::dep_::Old",
                        "self::dep_::Gen<u8>",
                        "priv_::Hidden",
                        "Never",
                        "(u8)",
                        "[u8; { 2 }]",
                        "[(); (1)]",
                    ]));
                    classes.push("field type of interest to lints".into());
                }
            }
        }
        if dep > 0 {
            classes.push("deprecated field or variant".into());
        }
        // predicates
        for _ in 0..c.small(2) {
            let tys: Vec<usize> = (0..d.params.len()).filter(|i| d.params[*i].is_ty() && !d.params[*i].is_unsized()).collect();
            if tys.is_empty() {
                break;
            }
            let t = Ty::Param(*c.pick(&tys));
            let (ty, b, class) = match c.draw(9) {
                0 => (Ty::Leaf("::std::string::String"), "Clone", "trivial bound"),
                1 => (Ty::Prim("u8"), "::std::marker::Copy", "trivial bound"),
                2 => (Ty::Leaf("[u8; 2]"), "::vrt::Tr0", "trivial bound"),
                3 if di == last => (t, "Drop", "drop bound"),
                4 if di == last => (t, "::std::ops::Drop", "drop bound"),
                5 => (t, "self::dep_::OldTr", "deprecated bound"),
                6 => (t, "std::marker::Sized", "qualified bound"),
                7 if di == last => (t, "'static", "lifetime bound"),
                _ => (t, "priv_::PrivTr", "private bound"),
            };
            classes.push(class.into());
            let bound = Bound::Std(b);
            if class == "drop bound" {
                for q in d.params.iter_mut() {
                    match &mut q.kind {
                        PK::Ty { default, .. } => *default = None,
                        PK::Const { default, .. } => *default = None,
                        PK::Lt { .. } => {}
                    }
                }
            }
            match ty {
                Ty::Param(i) if c.chance(1, 2) => {
                    if let PK::Ty { bounds, .. } = &mut d.params[i].kind {
                        bounds.push(bound);
                    }
                }
                ty => d.preds.push(Pred { ty, bounds: vec![bound], hr: false }),
            }
        }
    }
}

/// Items that definitions refer to; they trigger nothing themselves.
const SCOPE: &str = "#[allow(unused, deprecated)]\npub mod dep_ {\n#[deprecated] pub struct Old;\n#[deprecated(note = \"x\")] pub struct Gen<T>(pub T);\n#[deprecated] pub trait OldTr {}\nimpl<T: ?Sized> OldTr for T {}\n}\n#[allow(unused)]\nmod priv_ {\npub struct Hidden;\npub trait PrivTr {}\nimpl<T: ?Sized> PrivTr for T {}\n}\n#[allow(unused)]\npub enum Never {}\n#[allow(unused)]\npub mod r_ { pub use ::{FM} as lib; }\n";

fn make(c: &mut Src, p: &Profile, ed: &str) -> CaseText {
    let mut g = Gen::new(c, p.clone());
    g.program();
    let mut defs = std::mem::take(&mut g.defs);
    fixup(&mut defs);
    let mut classes = vec![format!("edition {ed}")];
    decorate(c, &mut defs, &mut classes);
    fixup(&mut defs);
    for d in &mut defs {
        // `?Sized` parameters of enums and the like are as generated
        let names = names_of(d);
        let all = d.params.iter().filter(|q| q.is_ty()).count();
        let list = names.len() < all || c.chance(1, 6);
        let krate = match c.draw(8) {
            0 => Some("::funcmap"),
            1 => Some("r_::lib"),
            2 => Some("self::r_::lib"),
            _ => None,
        };
        if krate.is_some() {
            classes.push("crate option".into());
        }
        d.opts = option_attrs(c, if list { &names } else { &[] }, krate);
    }
    let imports = c.chance(1, 2);
    let pos = c.draw(2);
    let mut module = SCOPE.replace("{FM}", "funcmap");
    let mut bare = SCOPE.replace("{FM}", "vrt");
    if imports {
        module += "use ::funcmap::{FuncMap, TryFuncMap};\n";
        classes.push("imported derives".into());
    }
    let mut sample = String::new();
    for (k, d) in defs.iter_mut().enumerate() {
        let at = if pos == 0 { 0 } else { d.attrs.len() };
        d.attrs.insert(at, format!("{MARK} {k}"));
        if c.chance(1, 2) {
            for q in &mut d.params {
                q.pre = part_mark(k) + &q.pre;
            }
            for v in &mut d.variants {
                v.pre = part_mark(k) + &v.pre;
                for f in &mut v.fields {
                    f.pre = part_mark(k) + &f.pre;
                }
            }
        }
    }
    for d in &defs {
        let pr = Print { defs: &defs, params: &d.params, abs: None, frag: None };
        let mut a = d.text(&pr, Some(if imports { "~" } else { "::funcmap" }));
        if imports {
            a = a.replace("~::", "");
        }
        let b = d.text(&pr, None);
        sample += &a.lines().filter(|l| !l.starts_with(MARK)).map(|l| format!("{l}\n")).collect::<String>();
        module += &a;
        bare += &b;
    }
    if (ed == "2015" || ed == "2018") && c.chance(1, 3) {
        for t in [&mut module, &mut bare] {
            *t = t.replace("Box<dyn (::vrt::Tr1", "Box<(::vrt::Tr1").replace("Box<dyn (::std::ops::Drop)>", "Box<::std::ops::Drop>").replace("Box<dyn Drop>", "Box<Drop>");
        }
        classes.push("bare trait objects".into());
    }
    let m = defs.last().unwrap();
    let nontrivial = classes.len() > 1 && m.fields().any(|f| !matches!(f.ty, Ty::Param(_)));
    classes.sort();
    classes.dedup();
    CaseText { module, bare, runs: false, nontrivial, classes, sample, ..Default::default() }
}

pub fn c16(ctx: &mut Ctx) -> ! {
    let base = Env::new(ctx, "");
    let p = Profile { large: 20, std_bounds: true, depth: 3, ..Profile::default() };
    for ed in ["2021", "2015", "2018", "2024"] {
        let mut env = base.clone();
        env.edition = ed.into();
        env.dir = scratch(&format!("C16-{ed}"));
        env.head = format!("#![warn({})]\n#![allow(unused_extern_crates)]\n#![recursion_limit = \"512\"]\n", LINTS.join(", "));
        env.emit_metadata = true;
        let n = ctx.n(if ed == "2021" { 1800 } else { 600 }, if ed == "2021" { 14000 } else { 5000 });
        let p = Profile { rel_paths: ed != "2015", ..p.clone() };
        campaign_with(ctx, &env, n, &format!("ed{ed}"), &|c| make(c, &p, ed), &judge);
    }
    ctx.finish("random definitions with names against the conventions, deprecated items, fields, variants and nested types, private, uninhabited and qualified types, trivial, drop, private and deprecated bounds, redundant parentheses and braces, trait objects with and without `dyn`, imported derives, params and crate options, in the editions 2015 to 2024, compiled with all lint groups turned on crate-wide. What the definitions trigger by themselves is allowed at the item (and only there); with the derives the program has to compile without any diagnostic. Non-trivial: some field is more than a bare parameter.")
}
