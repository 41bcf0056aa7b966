//! Compiles and runs cases in batches, attributes results, shrinks failures.
use crate::json;
use crate::report::Ctx;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::time::Duration;
use vrt::choice::{candidates, mix, Src};

#[derive(Clone, Debug, Default)]
pub struct CaseText {
    /// content of the case's module; has `pub fn run(cx: &mut ::vrt::eng::Cx)` if `runs`
    pub module: String,
    /// the same without anything derived, to tell invalid programs from findings
    pub bare: String,
    /// items at the crate root
    pub root: String,
    pub bare_root: String,
    pub runs: bool,
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// the definition itself, for the evidence
    pub sample: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok { runs: u64, calls: u64, nontrivial: u64 },
    CompileFail(String),
    RunFail(String),
    Invalid(String),
}

impl Outcome {
    pub fn failed(&self) -> bool {
        matches!(self, Outcome::CompileFail(_) | Outcome::RunFail(_))
    }
    pub fn text(&self) -> String {
        match self {
            Outcome::CompileFail(s) => format!("does not compile:\n{s}"),
            Outcome::RunFail(s) => s.clone(),
            Outcome::Invalid(s) => format!("invalid program:\n{s}"),
            Outcome::Ok { .. } => "ok".into(),
        }
    }
}

#[derive(Clone)]
pub struct Env {
    pub subj: Subject,
    pub vrt: PathBuf,
    pub helper: Option<PathBuf>,
    pub tc: String,
    pub edition: String,
    /// attributes and items at the top of the crate root
    pub head: String,
    /// name under which the library is linked (None: not at all)
    pub extern_name: Option<String>,
    /// `eng::Flags` literal fields
    pub flags: String,
    pub rounds: u32,
    pub seed: u64,
    pub size: usize,
    pub dir: PathBuf,
    pub emit_metadata: bool,
    pub rustc_args: Vec<String>,
}

impl Env {
    pub fn new(ctx: &Ctx, flags: &str) -> Env {
        let subj = build_subject(&SubjectOpts::default())
            .unwrap_or_else(|e| die(&format!("the code under test does not build:\n{e}")));
        Env {
            subj,
            vrt: build_vrt(TOOLCHAIN, "o", &["-O", "-Cdebug-assertions=on"]),
            helper: Some(build_helper(TOOLCHAIN)),
            tc: TOOLCHAIN.into(),
            edition: "2021".into(),
            head: "#![allow(warnings)]\n#![recursion_limit = \"512\"]\n".into(),
            extern_name: Some("funcmap".into()),
            flags: flags.into(),
            rounds: 6,
            seed: ctx.seed,
            size: 20,
            dir: scratch(&ctx.prop),
            emit_metadata: false,
            rustc_args: vec![],
        }
    }

    pub fn rustc(&self, src: &Path, out: &Path, bin: bool) -> std::process::Command {
        let mut c = rustc(&self.tc);
        c.args(["--edition", &self.edition, "--crate-name", "t", "--error-format=json", "-Cdebuginfo=0"]);
        c.args(["-Ccodegen-units=4"]);
        c.arg("-L").arg(format!("dependency={}", self.subj.deps.display()));
        c.arg("--extern").arg(format!("vrt={}", self.vrt.display()));
        if let Some(h) = &self.helper {
            c.arg("--extern").arg(format!("hlp={}", h.display()));
        }
        if let Some(n) = &self.extern_name {
            c.arg("--extern").arg(format!("{n}={}", self.subj.rlib.display()));
            // newer cargo keeps the metadata in a file of its own
            let meta = self.subj.rlib.with_extension("rmeta");
            if self.tc != TOOLCHAIN && meta.exists() {
                c.arg("--extern").arg(format!("{n}={}", meta.display()));
            }
        }
        if bin {
            c.args(["--crate-type", "bin"]).arg("-o").arg(out);
        } else {
            c.args(["--crate-type", "lib", "--emit=metadata"]).arg("-o").arg(out);
        }
        c.args(&self.rustc_args);
        c.arg(src);
        c
    }
}

/// Errors of a compilation by file.
#[derive(Default, Debug)]
pub struct Errors {
    pub by_file: BTreeMap<String, String>,
    pub other: String,
}

/// All file names a diagnostic's spans and their expansion sites mention.
fn span_files(j: &json::J, out: &mut BTreeSet<String>) {
    for s in j.get("spans").arr() {
        let mut s = s;
        loop {
            out.insert(s.get("file_name").str().to_string());
            let e = s.get("expansion");
            if *e == json::J::Null {
                break;
            }
            s = e.get("span");
        }
    }
}

pub fn parse_errors(stderr: &str) -> Errors {
    let mut e = Errors::default();
    for l in stderr.lines() {
        if !l.starts_with('{') {
            if l.contains("panicked at") || l.contains("internal compiler error") {
                e.other += l;
                e.other.push('\n');
            }
            continue;
        }
        let Some(j) = json::parse(l) else { continue };
        if !j.get("level").str().starts_with("error") {
            continue;
        }
        let msg = j.get("message").str();
        if msg.starts_with("aborting due to") {
            continue;
        }
        let mut files = BTreeSet::new();
        span_files(&j, &mut files);
        let case = |f: &String| f.rsplit('/').next().unwrap_or("").starts_with("case");
        if !files.iter().any(case) {
            for c in j.get("children").arr() {
                span_files(c, &mut files);
            }
        }
        let text = j.get("rendered").str().to_string();
        let mut hit = false;
        for f in files {
            let name = Path::new(&f).file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
            if name.starts_with("case") && name.ends_with(".rs") {
                hit = true;
                e.by_file.entry(name).or_default().push_str(&text);
            }
        }
        if !hit {
            e.other += &text;
        }
    }
    e
}

pub fn write_crate(env: &Env, dir: &Path, cases: &[(usize, &CaseText)], bare: bool) -> PathBuf {
    fs::create_dir_all(dir).unwrap();
    let mut root = env.head.clone();
    root += "pub extern crate vrt;\n";
    if !bare {
        if let Some(n) = &env.extern_name {
            root += &format!("pub extern crate {n};\n");
        }
    }
    let mut table = String::new();
    for (i, c) in cases {
        root += &format!("#[path = \"case{i}.rs\"] pub mod case{i};\n");
        root += if bare { &c.bare_root } else { &c.root };
        fs::write(dir.join(format!("case{i}.rs")), if bare { &c.bare } else { &c.module }).unwrap();
        if c.runs {
            table += &format!("(\"case{i}\", case{i}::run as fn(&mut ::vrt::eng::Cx)), ");
        }
    }
    if !bare {
        root += &format!(
            "fn main() {{ ::vrt::eng::batch(::vrt::eng::Flags {{ {} ..::vrt::eng::Flags::NONE }}, {}, {}, &[{table}]) }}\n",
            env.flags, env.rounds, env.seed
        );
    }
    let p = dir.join("main.rs");
    fs::write(&p, root).unwrap();
    p
}

/// Whether the program without the derives is valid by itself.
fn bare_ok(env: &Env, dir: &Path, i: usize, c: &CaseText) -> Result<(), String> {
    let d = dir.join(format!("bare{i}"));
    let src = write_crate(env, &d, &[(i, c)], true);
    let r = run(&mut env.rustc(&src, &d.join("t.rmeta"), false), Duration::from_secs(120));
    let _ = fs::remove_dir_all(&d);
    if r.timed_out {
        die("rustc timed out");
    }
    if r.ok {
        Ok(())
    } else {
        let e = parse_errors(&r.err);
        Err(e.by_file.values().cloned().collect::<String>() + &e.other)
    }
}

fn one_batch(env: &Env, dir: &Path, idx: &[usize], cases: &[CaseText]) -> Vec<(usize, Outcome)> {
    let mut res: Vec<(usize, Outcome)> = vec![];
    let mut live: Vec<usize> = idx.to_vec();
    let mut round = 0;
    loop {
        if live.is_empty() {
            return res;
        }
        round += 1;
        let set: Vec<(usize, &CaseText)> = live.iter().map(|i| (*i, &cases[*i])).collect();
        let src = write_crate(env, dir, &set, false);
        let bin = dir.join("t.bin");
        let runs = !env.emit_metadata && set.iter().any(|(_, c)| c.runs);
        let limit = if live.len() > 5 { 150 } else { 50 };
        let r = run(&mut env.rustc(&src, &bin, runs), Duration::from_secs(limit));
        if !r.ok {
            let mut e = parse_errors(&r.err);
            if r.timed_out {
                // found by bisection
                e.by_file.clear();
                e.other = "rustc did not terminate".into();
            }
            let bad: Vec<usize> =
                live.iter().copied().filter(|i| e.by_file.contains_key(&format!("case{i}.rs"))).collect();
            if bad.is_empty() || round > 12 {
                if live.len() == 1 {
                    let o = match bare_ok(env, dir, live[0], &cases[live[0]]) {
                        Ok(()) => {
                            let t = if e.other.is_empty() { r.err.clone() } else { e.other };
                            if r.code.is_none() && !r.timed_out {
                                die(&format!("rustc was killed: {t}"));
                            }
                            Outcome::CompileFail(t)
                        }
                        Err(m) => Outcome::Invalid(m),
                    };
                    res.push((live[0], o));
                    return res;
                }
                let (a, b) = live.split_at(live.len() / 2);
                res.extend(one_batch(env, dir, a, cases));
                res.extend(one_batch(env, dir, b, cases));
                return res;
            }
            // another case's diagnostic may mention this one: each is judged by itself
            if live.len() > 1 {
                for i in &bad {
                    res.extend(one_batch(env, &dir.join("one"), &[*i], cases));
                }
                live.retain(|i| !bad.contains(i));
                continue;
            }
            for i in &bad {
                let text = e.by_file[&format!("case{i}.rs")].clone();
                let o = match bare_ok(env, dir, *i, &cases[*i]) {
                    Ok(()) => Outcome::CompileFail(text),
                    Err(m) => Outcome::Invalid(m),
                };
                res.push((*i, o));
            }
            live.retain(|i| !bad.contains(i));
            continue;
        }
        if !runs {
            res.extend(live.iter().map(|i| (*i, Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 })));
            return res;
        }
        let mut outs: BTreeMap<usize, Outcome> = BTreeMap::new();
        let mut from = 0usize;
        let order: Vec<usize> = live.iter().copied().filter(|i| cases[*i].runs).collect();
        for i in &live {
            if !cases[*i].runs {
                outs.insert(*i, Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 });
            }
        }
        while from < order.len() {
            let mut c = std::process::Command::new(&bin);
            c.env("VRT_FROM", from.to_string());
            let r = run(&mut c, Duration::from_secs(60));
            let mut cur = None;
            for l in r.out.lines() {
                let w: Vec<&str> = l.splitn(3, ' ').collect();
                let num = |s: &str| s.trim_start_matches("case").parse::<usize>().unwrap_or(usize::MAX);
                match w[0] {
                    "BEGIN" => cur = Some(num(w[1])),
                    "FAIL" => {
                        let i = num(w[1]);
                        let t = w.get(2).unwrap_or(&"").to_string();
                        match outs.get_mut(&i) {
                            Some(Outcome::RunFail(s)) => {
                                s.push('\n');
                                s.push_str(&t);
                            }
                            _ => {
                                outs.insert(i, Outcome::RunFail(t));
                            }
                        }
                    }
                    "STAT" => {
                        let i = num(w[1]);
                        let n: Vec<u64> = w[2].split(' ').filter_map(|x| x.parse().ok()).collect();
                        outs.entry(i).or_insert(Outcome::Ok { runs: n[0], calls: n[1], nontrivial: n[3] });
                        cur = None;
                        from = order.iter().position(|x| *x == i).unwrap_or(from) + 1;
                    }
                    _ => {}
                }
            }
            if r.timed_out {
                // what did not get its turn counts as not explored
                for i in &order {
                    outs.entry(*i).or_insert(Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 });
                }
                let Some(i) = cur else { die("a generated program timed out outside of its cases") };
                outs.insert(i, Outcome::RunFail("the program does not terminate".into()));
                from = order.len();
            } else if let Some(i) = cur {
                outs.insert(i, Outcome::RunFail(format!("the program crashed (exit {:?}): {}", r.code, r.err)));
                from = order.iter().position(|x| *x == i).unwrap_or(from) + 1;
            } else if !r.ok {
                die(&format!("a generated program failed: {:?} {} {}", r.code, r.out, r.err));
            }
        }
        let _ = fs::remove_file(&bin);
        res.extend(outs);
        return res;
    }
}

pub fn run_cases(env: &Env, cases: &[CaseText]) -> Vec<Outcome> {
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(env.size).collect();
    let outs = par(&chunks, workers(), |k, ch| {
        let dir = env.dir.join(format!("b{k}"));
        let r = one_batch(env, &dir, ch, cases);
        let _ = fs::remove_dir_all(&dir);
        r
    });
    let mut v: Vec<Option<Outcome>> = vec![None; cases.len()];
    for (i, o) in outs.into_iter().flatten() {
        v[i] = Some(o);
    }
    v.into_iter().map(|o| o.expect("every case has an outcome")).collect()
}

/// Standard campaign: `n` random cases from `make`, failures shrunk and
/// reported.
pub fn campaign(ctx: &mut Ctx, env: &Env, n: usize, tag: &str, make: &(dyn Fn(&mut Src) -> CaseText + Sync)) {
    campaign_with(ctx, env, n, tag, make, &run_cases)
}

/// Campaign over given choice sequences instead of random ones.
pub fn campaign_over(ctx: &mut Ctx, env: &Env, seqs: Vec<Vec<u32>>, tag: &str, make: &(dyn Fn(&mut Src) -> CaseText + Sync)) {
    campaign_from(ctx, env, seqs.into_iter().map(Src::replay).collect(), tag, make, &run_cases)
}

pub type Judge<'a> = &'a (dyn Fn(&Env, &[CaseText]) -> Vec<Outcome> + Sync);

/// Judge of programs that have to be rejected while their control (`bare`)
/// has to be accepted.
pub fn run_rejects(env: &Env, cases: &[CaseText]) -> Vec<Outcome> {
    let idx: Vec<usize> = (0..cases.len()).collect();
    let chunks: Vec<&[usize]> = idx.chunks(env.size).collect();
    let compile = |dir: &Path, set: &[usize], bare: bool| -> Errors {
        let d = dir.join(if bare { "c" } else { "r" });
        let set: Vec<(usize, &CaseText)> = set.iter().map(|i| (*i, &cases[*i])).collect();
        let mut env = env.clone();
        if bare {
            env.head += &env.extern_name.as_ref().map(|n| format!("pub extern crate {n};\n")).unwrap_or_default();
        }
        let src = write_crate(&env, &d, &set, bare);
        let r = run(&mut env.rustc(&src, &d.join("t.rmeta"), false), Duration::from_secs(120));
        let _ = fs::remove_dir_all(&d);
        if r.timed_out {
            die("rustc timed out");
        }
        let mut e = parse_errors(&r.err);
        if !r.ok && e.by_file.is_empty() && e.other.is_empty() {
            e.other = format!("exit {:?}: {}", r.code, r.err);
        }
        e
    };
    let outs = par(&chunks, workers(), |k, ch| {
        let dir = env.dir.join(format!("b{k}"));
        let file = |i: &usize| format!("case{i}.rs");
        let mut res: Vec<(usize, Outcome)> = vec![];
        // the controls, without those that do not compile by themselves
        let mut live: Vec<usize> = ch.to_vec();
        loop {
            let e = compile(&dir, &live, true);
            if !e.other.is_empty() && e.by_file.is_empty() {
                die(&format!("control programs fail: {}", e.other));
            }
            if e.by_file.is_empty() {
                break;
            }
            for i in &live {
                if let Some(t) = e.by_file.get(&file(i)) {
                    res.push((*i, Outcome::Invalid(t.clone())));
                }
            }
            live.retain(|i| !e.by_file.contains_key(&file(i)));
        }
        let e = compile(&dir, &live, false);
        for i in &live {
            let rejected = e.by_file.contains_key(&file(i)) || {
                let e = compile(&dir, &[*i], false);
                !e.by_file.is_empty() || !e.other.is_empty()
            };
            res.push((
                *i,
                if rejected {
                    Outcome::Ok { runs: 0, calls: 0, nontrivial: 0 }
                } else {
                    Outcome::RunFail("the program is accepted".into())
                },
            ));
        }
        let _ = fs::remove_dir_all(&dir);
        res
    });
    let mut v: Vec<Option<Outcome>> = vec![None; cases.len()];
    for (i, o) in outs.into_iter().flatten() {
        v[i] = Some(o);
    }
    v.into_iter().map(|o| o.expect("every case has an outcome")).collect()
}

pub fn campaign_with(
    ctx: &mut Ctx,
    env: &Env,
    n: usize,
    tag: &str,
    make: &(dyn Fn(&mut Src) -> CaseText + Sync),
    judge: Judge,
) {
    let srcs = (0..n)
        .map(|i| Src::random(mix(&[ctx.seed, vrt::choice::hash_str(&ctx.prop), vrt::choice::hash_str(tag), i as u64])))
        .collect();
    campaign_from(ctx, env, srcs, tag, make, judge)
}

fn campaign_from(
    ctx: &mut Ctx,
    env: &Env,
    srcs: Vec<Src>,
    tag: &str,
    make: &(dyn Fn(&mut Src) -> CaseText + Sync),
    judge: Judge,
) {
    let n = srcs.len();
    if let Some((t, data)) = replay_arg() {
        if t == tag {
            let c = make(&mut Src::replay(data.clone()));
            let o = judge(env, &[c.clone()]).remove(0);
            println!("{}\n---- {}", c.module, o.text());
            ctx.evaluations += 1;
            if o.failed() {
                ctx.violation(&format!("{tag}-replay.rs"), &replay_text(ctx, tag, &data, &c, &o));
            }
        }
        return;
    }
    let seqs: Vec<(Vec<u32>, CaseText)> = srcs
        .into_iter()
        .map(|mut s| {
            let c = make(&mut s);
            (s.data, c)
        })
        .collect();
    let cases: Vec<CaseText> = seqs.iter().map(|s| s.1.clone()).collect();
    let outs = judge(env, &cases);
    let mut invalid = 0;
    let mut failed: Vec<usize> = vec![];
    for (i, o) in outs.iter().enumerate() {
        let c = &cases[i];
        match o {
            Outcome::Invalid(m) => {
                invalid += 1;
                if std::env::var("VERIF_DEBUG").is_ok() {
                    println!("INVALID {}\n{m}", c.sample);
                }
                continue;
            }
            Outcome::Ok { runs, calls, nontrivial } => {
                let nt = if c.runs { *nontrivial > 0 } else { c.nontrivial };
                ctx.case(&c.sample, nt && c.nontrivial);
                ctx.class("runs of mappings", *runs);
                ctx.class("closure calls in reference runs", *calls);
                if nt && c.nontrivial && i % 7 == 0 {
                    ctx.sample(&c.sample);
                }
            }
            _ => {
                ctx.case(&c.sample, c.nontrivial);
                failed.push(i);
            }
        }
        for k in &c.classes {
            ctx.class(k, 1);
        }
    }
    ctx.class("programs rejected by the generator's own validity check", invalid);
    if invalid as usize * 10 > n + 20 {
        die(&format!("{invalid} of {n} generated programs are invalid"));
    }
    for (k, i) in failed.iter().take(3).enumerate() {
        let (data, case, out) = if k == 0 {
            shrink(env, &seqs[*i].0, &cases[*i], &outs[*i], make, judge)
        } else {
            (seqs[*i].0.clone(), cases[*i].clone(), outs[*i].clone())
        };
        println!("---- {} ({tag} case {i}):\n{}\n{}", ctx.prop, case.sample, clip(&out.text(), 3000));
        let text = replay_text(ctx, tag, &data, &case, &out);
        ctx.violation(&format!("{tag}-{i}.rs"), &text);
    }
    if failed.len() > 3 {
        ctx.class("further failing cases", failed.len() as u64 - 3);
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

fn replay_text(ctx: &Ctx, tag: &str, data: &[u32], c: &CaseText, o: &Outcome) -> String {
    let mut s = format!("// property: {}\n// tag: {tag}\n// choices: {data:?}\n", ctx.prop);
    for l in o.text().lines() {
        s += &format!("// {l}\n");
    }
    s + "\n// ---- crate root\n" + &c.root + "\n// ---- case module\n" + &c.module
}

/// `--replay FILE`: tag and choices from the header.
pub fn replay_arg() -> Option<(String, Vec<u32>)> {
    let a: Vec<String> = std::env::args().collect();
    let i = a.iter().position(|x| x == "--replay")?;
    let t = fs::read_to_string(a.get(i + 1)?).unwrap_or_else(|e| die(&format!("replay: {e}")));
    let mut tag = String::new();
    let mut data = vec![];
    for l in t.lines() {
        if let Some(x) = l.strip_prefix("// tag: ") {
            tag = x.trim().into();
        }
        if let Some(x) = l.strip_prefix("// choices: [") {
            data = x.trim_end_matches(']').split(',').filter_map(|v| v.trim().parse().ok()).collect();
        }
    }
    Some((tag, data))
}

fn shrink(
    env: &Env,
    data: &[u32],
    case: &CaseText,
    out: &Outcome,
    make: &(dyn Fn(&mut Src) -> CaseText + Sync),
    judge: Judge,
) -> (Vec<u32>, CaseText, Outcome) {
    let mut env = env.clone();
    env.size = 1;
    let mut best = (data.to_vec(), case.clone(), out.clone());
    let size = |d: &[u32], c: &CaseText| (c.module.len(), d.len(), d.iter().map(|x| *x as u64).sum::<u64>());
    let start = std::time::Instant::now();
    let mut seen: BTreeSet<String> = BTreeSet::new();
    'outer: for _ in 0..40 {
        let cands = candidates(&best.0);
        let mut pool: Vec<(Vec<u32>, CaseText)> = vec![];
        for d in cands {
            let mut s = Src::replay(d.clone());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| make(&mut s)));
            let Ok(c) = r else { continue };
            if size(&d, &c) < size(&best.0, &best.1) && seen.insert(c.module.clone()) {
                pool.push((d, c));
            }
        }
        pool.sort_by_key(|(d, c)| size(d, c));
        // sizes spread over the pool, so that both bold and careful steps are tried
        let mut k = 0;
        while k < pool.len() {
            if start.elapsed() > Duration::from_secs(60) {
                break 'outer;
            }
            let chunk = &pool[k..(k + 24).min(pool.len())];
            k += 24;
            let cs: Vec<CaseText> = chunk.iter().map(|x| x.1.clone()).collect();
            let os = judge(&env, &cs);
            if let Some(j) = os.iter().position(|o| o.failed()) {
                best = (chunk[j].0.clone(), chunk[j].1.clone(), os[j].clone());
                continue 'outer;
            }
        }
        break;
    }
    best
}
