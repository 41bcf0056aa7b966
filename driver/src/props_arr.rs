//! C06: fallible array mapping.
use crate::batch::*;
use crate::report::Ctx;
use crate::util::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::time::Duration;
use vrt::choice::{mix, Src};

const EL: &[&str] = &[
    "S<0>", "L<0>", "Z<0>", "W<0>", "H<0>", "Cp<0>", "u8", "bool", "char", "NonZeroU8", "u128", "Box<u32>", "Vec<u16>",
    "Option<Box<u8>>", "&'static u8", "()", "[u64; 17]", "String", "Over", "OverZ", "Infallible", "(u8, u32)",
];
const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 33, 64, 100, 257, 1000];

/// (source, target, length, destructors may panic)
type Row = (String, String, usize, bool);

fn rows(c: &mut Src, pairs: usize, max_len: usize, lens: usize) -> Vec<Row> {
    let mut v = vec![];
    let sized: Vec<usize> = LENS.iter().copied().filter(|n| *n <= max_len).collect();
    let pick_lens = |c: &mut Src| {
        let mut l: Vec<usize> = vec![];
        for _ in 0..lens {
            l.push(*c.pick(&sized));
        }
        l.push(0);
        l.push(2);
        l.sort();
        l.dedup();
        l
    };
    for n in &sized {
        if *n <= 17 {
            v.push(("Bomb<0>".into(), "Bomb<1>".into(), *n, true));
        }
        v.push(("S<0>".into(), "W<1>".into(), *n, false));
        v.push(("W<0>".into(), "L<1>".into(), *n, false));
        v.push(("Z<0>".into(), "S<1>".into(), *n, false));
        v.push(("W<0>".into(), "Z<1>".into(), *n, false));
    }
    // beyond 16-bit indices
    if max_len >= 1000 {
        for (a, b) in [("u8", "u8"), ("Z<0>", "Z<1>"), ("Cp<0>", "W<1>"), ("W<0>", "S<1>"), ("Vec<u16>", "()"), ("()", "String")] {
            v.push((a.into(), b.into(), 66_000, false));
        }
    }
    for _ in 0..pairs {
        let a = c.pick(EL).to_string();
        let b = c.pick(EL).replace("<0>", "<1>");
        for n in pick_lens(c) {
            v.push((a.clone(), b.clone(), n, false));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn body(rows: &[Row]) -> String {
    let mut s = String::from(
        "#![allow(warnings)]\nextern crate vrt;\nextern crate funcmap;\nuse std::convert::Infallible;\nuse std::num::NonZeroU8;\nuse vrt::arr::*;\nuse vrt::*;\nfn main() { arr_main(&[\n",
    );
    for (a, b, n, bombs) in rows {
        s += &format!("::vrt::arr_row!({a}, {b}, {n}, {bombs}),\n");
    }
    s + "]) }\n"
}

struct Run<'a> {
    engine: &'a str,
    text: String,
    full: usize,
}

fn judge(ctx: &mut Ctx, r: &Run, o: &Out) {
    if o.timed_out {
        die(&format!("{}: the harness timed out", r.engine));
    }
    let mut at = String::new();
    let mut ended = false;
    for l in o.out.lines() {
        if let Some(x) = l.strip_prefix("AT ") {
            at = x.to_string();
            ctx.case(&format!("{}: {x}", r.engine), !at.starts_with("[") || !at.contains("; 0]"));
            if ctx.evaluations % 977 == 5 {
                ctx.sample(&format!("{}: {x}", r.engine));
            }
        } else if let Some(x) = l.strip_prefix("FAIL ") {
            println!("---- C06 ({}): {x}", r.engine);
            ctx.violation(&format!("{}-{}.rs", r.engine, ctx.violations.len()), &format!("// {} {x}\n// arguments: {} {}\n{}", r.engine, ctx.seed, r.full, r.text));
        } else if l == "END" {
            ended = true;
        }
    }
    ctx.class(&format!("runs under {}", r.engine), o.out.lines().filter(|l| l.starts_with("AT ")).count() as u64);
    if !ended || !o.ok {
        if at.is_empty() {
            die(&format!("{}: the harness did not start: {:?} {}", r.engine, o.code, clip(&o.err, 3000)));
        }
        println!("---- C06 ({}): {at}: {}", r.engine, clip(&o.err, 3000));
        let why: String = o.err.lines().map(|l| format!("// {l}\n")).collect();
        ctx.violation(&format!("{}-{}.rs", r.engine, ctx.violations.len()), &format!("// {} {at}\n// arguments: {} {}\n{why}{}", r.engine, ctx.seed, r.full, r.text));
    }
}

fn native(ctx: &mut Ctx, env: &Env, engine: &str, rows: &[Row], full: usize) {
    let n = workers();
    let texts: Vec<Run> = (0..n)
        .map(|i| Run { engine, text: body(&rows.iter().skip(i).step_by(n).cloned().collect::<Vec<_>>()), full })
        .collect();
    let seed = ctx.seed.to_string();
    let outs = par(&texts, n, |i, r| {
        let dir = env.dir.join(format!("{engine}{i}"));
        fs::create_dir_all(&dir).unwrap();
        let src = dir.join("main.rs");
        fs::write(&src, &r.text).unwrap();
        let bin = dir.join("t.bin");
        let c = run(&mut env.rustc(&src, &bin, true), Duration::from_secs(300));
        if !c.ok {
            return Err(parse_errors(&c.err).other);
        }
        let mut c = std::process::Command::new(&bin);
        c.args([&seed, &full.to_string()]).env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0").env("RUST_MIN_STACK", "67108864");
        let o = run(&mut c, Duration::from_secs(300));
        let _ = fs::remove_file(&bin);
        Ok(o)
    });
    for (r, o) in texts.iter().zip(outs) {
        match o {
            Ok(o) => judge(ctx, r, &o),
            Err(e) => {
                println!("---- C06 ({engine}): the harness does not compile:\n{}", clip(&e, 3000));
                ctx.violation(&format!("{engine}-compile.rs"), &r.text);
            }
        }
    }
}

/// A package with path dependencies for `cargo miri`.
fn miri_package(dir: &Path, texts: &[Run]) {
    fs::create_dir_all(dir.join("src/bin")).unwrap();
    write_if_new(
        &dir.join("Cargo.toml"),
        &format!(
            "[package]\nname = \"mi\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nfuncmap = {{ path = \"{}\" }}\nvrt = {{ path = \"{}\" }}\n\n[workspace]\n",
            repo().join("funcmap").display(),
            verif().join("vrt").display()
        ),
    );
    for (i, t) in texts.iter().enumerate() {
        write_if_new(&dir.join(format!("src/bin/m{i}.rs")), &t.text);
    }
    if !dir.join("Cargo.lock").exists() {
        let _ = fs::copy("/opt/vp/Cargo.lock", dir.join("Cargo.lock"));
    }
}

fn miri_cmd(dir: &Path, tdir: &Path, flags: &str, sub: &str) -> std::process::Command {
    let mut c = cargo("nightly");
    c.env_remove("RUSTC");
    let bin = toolchain_bin("nightly", "cargo");
    let path = format!("{}:{}", bin.parent().unwrap().display(), std::env::var("PATH").unwrap_or_default());
    c.env("PATH", path).env("RUSTUP_TOOLCHAIN", "nightly");
    c.current_dir(dir).env("CARGO_TARGET_DIR", tdir).env("MIRIFLAGS", flags).env("RUSTFLAGS", "--cap-lints warn");
    c.args(["miri", sub, "--offline", "-q"]);
    c
}

pub fn c06(ctx: &mut Ctx) -> ! {
    let mut c = Src::random(mix(&[ctx.seed, 6]));
    let mut env = Env::new(ctx, "");
    // debug
    let rs = rows(&mut c, ctx.n(60, 300), 1000, 3);
    native(ctx, &env, "debug", &rs, 40);
    // optimized
    env.rustc_args = vec!["-Copt-level=3".into(), "-Cdebug-assertions=off".into()];
    let rs = rows(&mut c, ctx.n(40, 300), 1000, 3);
    native(ctx, &env, "release", &rs, 40);
    // AddressSanitizer
    let tc = "nightly";
    let subj = build_subject(&SubjectOpts { tc, tag: "nightly", ..Default::default() })
        .unwrap_or_else(|e| die(&format!("the code under test does not build on nightly:\n{e}")));
    env.subj = subj;
    env.tc = tc.into();
    env.helper = None;
    env.vrt = build_vrt(tc, "o", &["-O", "-Cdebug-assertions=on"]);
    env.rustc_args = vec!["-Zsanitizer=address".into(), "-Copt-level=1".into()];
    let rs = rows(&mut c, ctx.n(40, 200), 257, 3);
    native(ctx, &env, "asan", &rs, 20);
    // Miri
    let tdir = target().join("miri").join(repo_hash());
    let n = workers();
    let aliasing = ["", "-Zmiri-tree-borrows"];
    let rs = rows(&mut c, ctx.n(40, 300), if ctx.thorough() { 33 } else { 9 }, 2);
    let texts: Vec<Run> = (0..n)
        .map(|i| Run { engine: "miri", text: body(&rs.iter().skip(i).step_by(n).cloned().collect::<Vec<_>>()), full: 8 })
        .collect();
    let pkg: PathBuf = tdir.join("pkg");
    miri_package(&pkg, &texts);
    // the sysroot and the dependencies once
    let setup = run(&mut { let mut c = miri_cmd(&pkg, &tdir, "", "setup"); c.env_remove("RUSTFLAGS"); c }, Duration::from_secs(300));
    if !setup.ok {
        die(&format!("cargo miri setup: {}", setup.err));
    }
    let seed = ctx.seed.to_string();
    let outs = par(&texts, n, |i, r| {
        let flags = format!("{} -Zmiri-symbolic-alignment-check", aliasing[i % 2]);
        let mut c = miri_cmd(&pkg, &tdir, &flags, "run");
        c.args(["--bin", &format!("m{i}"), "--", &seed, &r.full.to_string()]);
        run(&mut c, Duration::from_secs(600))
    });
    for (r, o) in texts.iter().zip(outs) {
        if !o.ok && !o.out.contains("AT ") && o.err.contains("could not compile") {
            if o.err.contains("could not compile `mi`") {
                println!("---- C06 (miri): the harness does not compile:\n{}", clip(&o.err, 3000));
                ctx.violation("miri-compile.rs", &r.text);
                continue;
            }
            die(&format!("miri: dependencies do not compile: {}", o.err));
        }
        judge(ctx, r, &o);
    }
    prune_dirs(&target().join("miri"), 3);
    ctx.finish("one case is a source element type, a target element type, a length and an exit (success, error at a position, closure panic at a position, error plus a panicking destructor of one source or target element), executed by one engine (debug, optimized, AddressSanitizer, Miri with stacked or tree borrows); element types and lengths are drawn from tables, exits are enumerated for short arrays and sampled for long ones. Oracles: value at every index, number of closure calls, returned error, drop ledger, sanitizer and interpreter reports. Non-trivial: the length is not 0.")
}
