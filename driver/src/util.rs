//! Paths, processes, subject builds.
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub const TOOLCHAIN: &str = "1.87.0";

pub fn verif() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn repo() -> PathBuf {
    std::env::var("VERIF_REPO").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/repo"))
}
pub fn target() -> PathBuf {
    std::env::var("VERIF_TARGET").map(PathBuf::from).unwrap_or_else(|_| verif().join("target"))
}

/// An error of the check itself (never a verdict).
pub fn die(msg: &str) -> ! {
    eprintln!("check error: {msg}");
    println!("check error: {msg}");
    let _ = fs::remove_dir_all(target().join("scratch").join(std::process::id().to_string()));
    std::process::exit(2)
}

pub struct Out {
    pub ok: bool,
    pub code: Option<i32>,
    pub out: String,
    pub err: String,
    pub timed_out: bool,
}

/// Runs a command with a time limit; output is collected in full.
pub fn run(cmd: &mut Command, limit: Duration) -> Out {
    use std::io::Read;
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => die(&format!("cannot run {cmd:?}: {e}")),
    };
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let mut timed_out = false;
    let mut nap = 1;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if start.elapsed() > limit {
            timed_out = true;
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    };
    let out = t1.join().unwrap();
    let err = t2.join().unwrap();
    Out {
        ok: status.map(|s| s.success()).unwrap_or(false),
        code: status.and_then(|s| s.code()),
        out,
        err,
        timed_out,
    }
}

/// Parallel map over 8 workers, results in order.
pub fn par<T: Sync, R: Send>(items: &[T], workers: usize, f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let slots: Vec<std::sync::Mutex<Option<R>>> = items.iter().map(|_| std::sync::Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..workers.min(items.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() {
                    break;
                }
                let r = f(i, &items[i]);
                *slots[i].lock().unwrap() = Some(r);
            });
        }
    });
    slots.into_iter().map(|s| s.into_inner().unwrap().expect("worker died")).collect()
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

fn hash_dir(p: &Path, h: &mut u64) {
    let mut es: Vec<PathBuf> = match fs::read_dir(p) {
        Ok(d) => d.filter_map(|e| e.ok().map(|e| e.path())).collect(),
        Err(_) => return,
    };
    es.sort();
    for e in es {
        let name = e.file_name().unwrap().to_string_lossy().into_owned();
        if name == "target" || name == ".git" {
            continue;
        }
        if e.is_dir() {
            hash_dir(&e, h);
        } else if let Ok(b) = fs::read(&e) {
            *h = vrt::choice::mix(&[*h, vrt::choice::hash_str(&name), b.len() as u64]);
            let mut k = 0xcbf2_9ce4_8422_2325u64;
            for x in b {
                k = (k ^ x as u64).wrapping_mul(0x0000_0100_0000_01B3);
            }
            *h = vrt::choice::mix(&[*h, k]);
        }
    }
}

/// Hash of the subject's sources.
pub fn repo_hash() -> String {
    let mut h = 7;
    for d in ["funcmap", "funcmap_derive", "Cargo.toml"] {
        let p = repo().join(d);
        if p.is_dir() {
            hash_dir(&p, &mut h);
        } else if let Ok(b) = fs::read_to_string(&p) {
            h = vrt::choice::mix(&[h, vrt::choice::hash_str(&b)]);
        }
    }
    format!("{h:016x}")
}

pub fn toolchain_bin(tc: &str, bin: &str) -> PathBuf {
    let home = std::env::var("RUSTUP_HOME").unwrap_or_else(|_| "/root/.rustup".into());
    PathBuf::from(home).join("toolchains").join(format!("{tc}-x86_64-unknown-linux-gnu")).join("bin").join(bin)
}

fn clean_env(c: &mut Command) {
    for v in ["RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"] {
        c.env_remove(v);
    }
    c.env("CARGO_NET_OFFLINE", "true").env("CARGO_TERM_COLOR", "never").env("RUST_BACKTRACE", "0");
}

pub fn rustc(tc: &str) -> Command {
    let mut c = Command::new(toolchain_bin(tc, "rustc"));
    clean_env(&mut c);
    c
}
pub fn cargo(tc: &str) -> Command {
    let mut c = Command::new(toolchain_bin(tc, "cargo"));
    clean_env(&mut c);
    c.env("RUSTC", toolchain_bin(tc, "rustc"));
    c
}

/// A built copy of the code under test.
#[derive(Clone, Debug)]
pub struct Subject {
    pub rlib: PathBuf,
    pub deps: PathBuf,
    pub derive: PathBuf,
}

pub struct SubjectOpts<'a> {
    pub tc: &'a str,
    pub features: Option<&'a [&'a str]>,
    pub release: bool,
    pub rustflags: &'a str,
    pub target: Option<&'a str>,
    pub tag: &'a str,
    pub extra_args: &'a [&'a str],
    /// path of the library's package
    pub path: Option<PathBuf>,
}

impl Default for SubjectOpts<'_> {
    fn default() -> Self {
        SubjectOpts { tc: TOOLCHAIN, features: None, release: false, rustflags: "", target: None, tag: "dev", extra_args: &[], path: None }
    }
}

/// Builds `/repo` through a path dependency in a directory of its own.
pub fn build_subject(o: &SubjectOpts) -> Result<Subject, String> {
    let dir = target().join("subj").join(format!("{}-{}", repo_hash(), o.tag));
    fs::create_dir_all(dir.join("src")).unwrap();
    let feats = match o.features {
        None => String::new(),
        Some(fs) => format!(
            ", default-features = false, features = [{}]",
            fs.iter().map(|f| format!("\"{f}\"")).collect::<Vec<_>>().join(", ")
        ),
    };
    let toml = format!(
        "[package]\nname = \"subj\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nfuncmap = {{ path = \"{}\"{feats} }}\n\n[profile.dev]\ndebug = 0\n\n[workspace]\n",
        o.path.clone().unwrap_or_else(|| repo().join("funcmap")).display()
    );
    write_if_new(&dir.join("Cargo.toml"), &toml);
    write_if_new(&dir.join("src/lib.rs"), "#![no_std]\npub use funcmap as fm;\n");
    if !dir.join("Cargo.lock").exists() {
        // the resolved versions the repository is built with
        let _ = fs::copy("/opt/vp/Cargo.lock", dir.join("Cargo.lock"));
    }
    let mut c = cargo(o.tc);
    c.current_dir(&dir).env("CARGO_TARGET_DIR", dir.join("target"));
    let flags = if o.tc == TOOLCHAIN { o.rustflags.to_string() } else { format!("--cap-lints warn {}", o.rustflags) };
    if !flags.trim().is_empty() {
        c.env("RUSTFLAGS", flags.trim());
    }
    c.args(["build", "--offline", "--message-format=json-render-diagnostics"]);
    if o.release {
        c.arg("--release");
    }
    if let Some(t) = o.target {
        c.args(["--target", t]);
    }
    c.args(o.extra_args);
    let r = run(&mut c, Duration::from_secs(600));
    if r.timed_out {
        die("building the subject timed out");
    }
    if !r.ok {
        return Err(r.err);
    }
    let mut s = Subject { rlib: PathBuf::new(), deps: PathBuf::new(), derive: PathBuf::new() };
    for l in r.out.lines() {
        let Some(j) = crate::json::parse(l) else { continue };
        if j.get("reason").str() != "compiler-artifact" {
            continue;
        }
        let name = j.get("target").get("name").str().to_string();
        for f in j.get("filenames").arr() {
            let f = PathBuf::from(f.str());
            let ext = f.extension().map(|e| e.to_string_lossy().into_owned()).unwrap_or_default();
            if name == "funcmap" && ext == "rlib" {
                s.rlib = f.clone();
            }
            if name == "funcmap_derive" && ext == "so" {
                s.derive = f;
            }
        }
    }
    if !s.rlib.exists() {
        die(&format!("subject library not found after build: {}", r.out));
    }
    s.deps = s.derive.parent().unwrap().to_path_buf();
    prune(&target().join("subj"), 40);
    Ok(s)
}

pub fn prune_dirs(dir: &Path, keep: usize) {
    let mut es: Vec<(std::time::SystemTime, PathBuf)> = match fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).filter_map(|e| Some((e.metadata().ok()?.modified().ok()?, e.path()))).collect(),
        Err(_) => return,
    };
    es.sort();
    while es.len() > keep {
        let (_, p) = es.remove(0);
        let _ = fs::remove_dir_all(p);
    }
}

/// Keeps the newest `keep` directories.
fn prune(dir: &Path, keep: usize) {
    let mut es: Vec<(std::time::SystemTime, PathBuf)> = match fs::read_dir(dir) {
        Ok(d) => d
            .filter_map(|e| e.ok())
            .filter_map(|e| Some((e.path().join("target").metadata().ok()?.modified().ok()?, e.path())))
            .collect(),
        Err(_) => return,
    };
    es.sort();
    while es.len() > keep {
        let (_, p) = es.remove(0);
        let _ = fs::remove_dir_all(p);
    }
}

pub fn write_if_new(p: &Path, text: &str) {
    if fs::read_to_string(p).map(|t| t == text).unwrap_or(false) {
        return;
    }
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).unwrap();
    }
    fs::write(p, text).unwrap();
}

/// The support library compiled for `tc`.
pub fn build_vrt(tc: &str, tag: &str, flags: &[&str]) -> PathBuf {
    let src = verif().join("vrt/src");
    let mut h = 3;
    hash_dir(&src, &mut h);
    let dir = target().join("vrt").join(format!("{tc}-{tag}-{h:016x}"));
    let rlib = dir.join("libvrt.rlib");
    if rlib.exists() {
        return rlib;
    }
    let tmp = dir.join(format!("tmp{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let mut c = rustc(tc);
    c.args(["--edition", "2021", "--crate-type", "rlib", "--crate-name", "vrt", "--cap-lints", "allow", "-Cdebuginfo=0"]);
    c.args(flags);
    c.arg("--out-dir").arg(&tmp).arg(src.join("lib.rs"));
    let r = run(&mut c, Duration::from_secs(300));
    if !r.ok {
        die(&format!("cannot build the support library: {}", r.err));
    }
    fs::rename(tmp.join("libvrt.rlib"), &rlib).unwrap();
    let _ = fs::remove_dir_all(&tmp);
    rlib
}

/// A crate with a derive macro that generates nothing and has an attribute `hlp`.
pub fn build_helper(tc: &str) -> PathBuf {
    let dir = target().join("vrt").join(format!("helper-{tc}"));
    let lib = dir.join("libhlp.so");
    if lib.exists() {
        return lib;
    }
    let tmp = dir.join(format!("tmp{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let src = tmp.join("hlp.rs");
    let text = "extern crate proc_macro; use proc_macro::TokenStream;\n#[proc_macro_derive(Helper, attributes(hlp))] pub fn helper(_: TokenStream) -> TokenStream { TokenStream::new() }\n";
    fs::write(&src, text).unwrap();
    let mut c = rustc(tc);
    c.args(["--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "hlp", "--out-dir"]).arg(&tmp).arg(&src);
    let r = run(&mut c, Duration::from_secs(300));
    if !r.ok {
        die(&format!("cannot build the helper macro: {}", r.err));
    }
    fs::rename(tmp.join("libhlp.so"), &lib).unwrap();
    let _ = fs::remove_dir_all(&tmp);
    lib
}

/// Scratch directory of this process; removed by `clean_scratch`.
pub fn scratch(name: &str) -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let d = target().join("scratch").join(std::process::id().to_string()).join(format!("{name}-{n}"));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn clean_scratch() {
    let base = target().join("scratch");
    let me = std::process::id().to_string();
    let _ = fs::remove_dir_all(base.join(&me));
    // left behind by processes that are gone
    if let Ok(d) = fs::read_dir(&base) {
        for e in d.flatten() {
            if !PathBuf::from("/proc").join(e.file_name()).exists() {
                let _ = fs::remove_dir_all(e.path());
            }
        }
    }
}
