//! C20: definitions produced by `macro_rules!` macros.
use crate::ast::*;
use crate::batch::*;
use crate::gen::*;
use crate::props_prog::*;
use crate::props_run::*;
use crate::report::Ctx;
use crate::util::*;
use std::cell::RefCell;
use vrt::choice::Src;

struct How {
    dec: Vec<u32>,
    rate: u32,
    two: bool,
    through_tt: bool,
    item: bool,
    dollar_crate: bool,
}

impl How {
    fn new(c: &mut Src) -> How {
        let rate = *c.pick(&[3, 2, 6, 12]);
        let n = c.range(24, 160);
        How {
            dec: (0..n).map(|_| c.draw(720)).collect(),
            rate,
            two: c.chance(1, 2),
            through_tt: c.chance(1, 4),
            item: c.chance(1, 10),
            dollar_crate: c.chance(1, 4),
        }
    }
}

/// Splits into words (identifiers, raw or not) and other text.
fn words(s: &str) -> Vec<(bool, String)> {
    let mut out: Vec<(bool, String)> = vec![];
    for ch in s.chars() {
        let w = ch.is_alphanumeric() || ch == '_' || ch == '#';
        match out.last_mut() {
            Some((k, t)) if *k == w => t.push(ch),
            _ => out.push((w, ch.to_string())),
        }
    }
    out
}

fn attr_text(d: &Def, pr: &Print, content: &str) -> String {
    let inner = || {
        if !content.starts_with("funcmap(") {
            return content.to_string();
        }
        let mut out = String::new();
        let mut rest = content;
        // string literals are passed as a whole
        while let Some(i) = rest.find('"') {
            let start = rest[..i].rfind(|ch: char| ch != 'r' && ch != '#').map(|k| k + 1).unwrap_or(0);
            let hashes = rest[start..i].matches('#').count();
            let end_pat = format!("\"{}", "#".repeat(hashes));
            let e = i + 1 + rest[i + 1..].find(&end_pat).unwrap() + end_pat.len();
            out += &names(d, pr, &rest[..start]);
            let lit = rest[start..e].to_string();
            out += &pr.part(&["literal", "tt", "expr"], &|| lit.clone());
            rest = &rest[e..];
        }
        out + &names(d, pr, rest)
    };
    format!("#[{}]\n", pr.part(&["meta"], &inner))
}

fn names(d: &Def, pr: &Print, s: &str) -> String {
    words(s)
        .into_iter()
        .map(|(w, t)| if w && d.params.iter().any(|q| q.name == t) { pr.name(&t) } else { t })
        .collect()
}

/// The definition as the product of macros; also the classes of fragments used.
fn macro_text(defs: &[Def], k: usize, wild: bool, how: &How, fm: Option<&str>) -> (String, Vec<String>) {
    let d = &defs[k];
    let fr = RefCell::new(Frag { dec: how.dec.clone(), level: if how.two { 2 } else { 1 }, rate: how.rate, ..Default::default() });
    let pr = Print { defs, params: &d.params, abs: if wild { Some("") } else { None }, frag: Some(&fr) };
    let attr_lines = fm.map(|fm| d.derive_attrs(fm)).unwrap_or_default();
    let contents: Vec<&str> = attr_lines.lines().map(|l| &l[2..l.len() - 1]).collect();
    let (mut body, attrs);
    if how.item {
        fr.borrow_mut().level = 0;
        body = d.text(&pr, None);
        fr.borrow_mut().level = 1;
        attrs = contents.iter().map(|l| attr_text(d, &pr, l)).collect::<String>();
        let i = body.clone();
        fr.borrow_mut().a.push(("item".into(), i));
        body = format!("{attrs}$a{}", fr.borrow().a.len() - 1);
    } else {
        body = d.text(&pr, None);
        attrs = contents.iter().map(|l| attr_text(d, &pr, l)).collect::<String>();
        body = attrs + &body;
        if how.dollar_crate {
            body = body.replace("::vrt::", "$crate::vrt::");
        }
    }
    let fr = fr.into_inner();
    let pat = |n: char, v: &[(String, String)]| {
        v.iter().enumerate().map(|(i, (kind, _))| format!("[${n}{i}:{kind}{}] ", if kind == "vis" { " ," } else { "" })).collect::<String>()
    };
    let args = |v: &[(String, String)]| v.iter().map(|(k, t)| format!("[{t}{}] ", if k == "vis" { " ," } else { "" })).collect::<String>();
    let mut out = String::new();
    if how.through_tt {
        out += &format!("macro_rules! i{k}_ {{ ($($t:tt)*) => {{ $($t)* }} }}\n");
        body = format!("i{k}_! {{ {body} }}");
    }
    if how.two && !how.item {
        out += &format!("macro_rules! n{k}_ {{ ({}) => {{\n{body}\n}} }}\n", pat('b', &fr.b));
        let mut b = args(&fr.b);
        if how.dollar_crate {
            b = b.replace("::vrt::", "$crate::vrt::");
        }
        body = format!("n{k}_! {{ {b} }}");
    }
    out += &format!("macro_rules! m{k}_ {{ ({}) => {{\n{body}\n}} }}\nm{k}_! {{ {} }}\n", pat('a', &fr.a), args(&fr.a));
    let mut kinds: Vec<String> = fr.a.iter().map(|(k, _)| format!("fragment {k}")).collect();
    kinds.extend(fr.b.iter().map(|(k, t)| {
        if t.contains("$a") {
            format!("fragment {k} around fragments")
        } else {
            format!("fragment {k}")
        }
    }));
    kinds.sort();
    kinds.dedup();
    (out, kinds)
}

pub fn c20(ctx: &mut Ctx) -> ! {
    let env = Env::new(ctx, "inf: true, try_: true,");
    let p = Profile { large: 16, one_derive: true, std_bounds: true, ..Profile::default() };
    for (ed, n) in [("2021", ctx.n(900, 9000)), ("2024", ctx.n(200, 2000))] {
        let mut env = env.clone();
        env.edition = ed.into();
        env.dir = scratch("C20");
        campaign(ctx, &env, n, &format!("gen{ed}"), &|c| {
            let mut p = p.clone();
            p.wild = c.chance(1, 4);
            let wild = p.wild;
            let mut g = Gen::new(c, p);
            g.program();
            let extra = g.scope_items();
            let mut defs = std::mem::take(&mut g.defs);
            fixup(&mut defs);
            for d in &mut defs {
                if c.chance(1, 4) {
                    let all = d.params.iter().filter(|q| q.is_ty()).count();
                    let names = names_of(d);
                    let list = names.len() < all || c.chance(1, 3);
                    d.opts = option_attrs(c, if list { &names } else { &[] }, Some("::funcmap"));
                }
            }
            let mut texts = vec![];
            let mut classes: Vec<String> = vec![];
            for k in 0..defs.len() {
                let how = How::new(c);
                let (t, ks) = macro_text(&defs, k, wild, &how, Some("::funcmap"));
                let (b, _) = macro_text(&defs, k, wild, &how, None);
                texts.push((t, b));
                classes.extend(ks);
                if how.through_tt {
                    classes.push("passed on as token trees".into());
                }
                if how.dollar_crate {
                    classes.push("`$crate` paths".into());
                }
            }
            let o = Mode { markers: c.chance(1, 3), texts: &texts, wild, extra: &extra, ..Mode::default() };
            let mut t = module(c, &defs, &o);
            classes.sort();
            classes.dedup();
            t.nontrivial = t.nontrivial && classes.iter().any(|k| k.starts_with("fragment "));
            t.classes = classes;
            t
        });
    }
    ctx.finish("random definitions of which random parts (type, parameter, field and variant names, lifetimes, types at any depth, bounds, array lengths, const arguments, defaults, visibilities, attributes and their arguments, whole items) are passed as fragments of all specifiers through one or two macros, also as token trees and with `$crate` paths; the mappings are compared with the reference mapping of the definition written by hand and in part with compile-time probes of the implementations that exist. Non-trivial: a fragment is used, a mapped parameter occurs below another type constructor and some run makes at least two closure calls.")
}
