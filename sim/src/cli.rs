//! The real command line program over a scripted operating system.

use crate::case::Case;
use crate::props::{file_image, Fail, Stats};
use crate::{props, render};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;
use std::time::{Duration, Instant};
use world::model;
use world::rng::{hash, mix, Rng};
use world::validate;

extern "C" {
    fn getrlimit(what: i32, l: *mut u64) -> i32;
    fn setrlimit(what: i32, l: *const u64) -> i32;
    fn personality(p: u64) -> i32;
}

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
static SERIAL: AtomicU64 = AtomicU64::new(0);

/// Called once in the first process; all files live below this directory.
pub fn prepare() { let _ = SCRATCH.set(PathBuf::from(format!("/tmp/whasm-sim-{:08}", std::process::id()))); }

pub fn clean() {
    if let Some(d) = SCRATCH.get() { if d.exists() { let _ = std::fs::remove_dir_all(d); } }
}

const ENOENT: i64 = 2;
const EINTR: i64 = 4;
const EIO: i64 = 5;
const EBADF: i64 = 9;
const EISDIR: i64 = 21;
const ENOSPC: i64 = 28;
const EPIPE: i64 = 32;

/// Kinds of target.
const WHAT: [&str; 9] = ["regular file", "missing file", "directory", "dangling link", "link to a file", "no file named", "link to itself", "name below a file", "name too long"];

/// Surroundings that must not matter.
const ENV: [(&str, &str); 12] = [("PAGER", "true"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("HOME", "/nonexistent"), ("PRINT", "1"), ("TMPDIR", "sub"), ("TERM", "dumb"), ("COLUMNS", "10"), ("NO_COLOR", "1"), ("DEBUG", "1")];

/// Arguments that are not options, from number 3 on; the first one is empty. The last number is the name itself.
const OTHERS: [&[u8]; 24] = [b"", b"good.wasm", b"bad.wasm", b"missing.wasm", b"-P", b"--pri", b"-p ", b" -p", b"--", b"-", b"--help", b"--print=1", b"-pp", b"\xFF-p", b"--Print", b"-pfile", b"print", b"p", b"--printer", b"sub", b"-v", b"--no-print", b"/", b"-q"];
const GOOD: &[u8] = b"\0asm\x01\0\0\0";

fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(13) {
        0 => b"with space.wasm".to_vec(),
        1 => "ünïcödé 日本.wasm".as_bytes().to_vec(),
        2 => vec![b'f', 0xFF, 0xFE, b'.', b'w'],
        3 => b"./m.wasm".to_vec(),
        4 => b"sub/m.wasm".to_vec(),
        5 => { let mut v = vec![b'n'; 200]; v.extend(b".wasm"); v }
        6 => b"sub/../sub/x".to_vec(),
        7 => b"noext".to_vec(),
        8 => b"m.wasm.wasm".to_vec(),
        9 => r.pick(&[&b"a{}b%s.wasm"[..], b"-m.wasm", b"--print.wasm", b"-", b"--", b"-pp", b"./-p", b"sub/--print", b"-P"]).to_vec(),
        10 => if r.pct(30) { vec![0xC3, b'(', b'/', b'x'] } else { r.pick(&[&b" m.wasm"[..], b"m.wasm ", b"m.wasm\n", b"\tm", b"~", b"$HOME", b"*", b"m\\x", b"file:m", b"M.WASM", b"@m", b"a=b", b"--help", b"-h", b"-v", b"--version", b"-p=1", b"m;n", b"'m'", b"m.wat", b"m.gz", b"x/y/../m"]).to_vec() },
        _ => b"m.wasm".to_vec(),
    }
}

fn reads(r: &mut Rng, len: usize, fatal: bool) -> Vec<i64> {
    let mut v = vec![];
    let n = r.below(30);
    let mode = r.below(4);
    for _ in 0..n {
        v.push(match mode { 0 => 1, 1 => r.range(1, 16) as i64, 2 => r.range(1, len.max(2)) as i64, _ => if r.pct(50) { -EINTR } else { r.range(1, 64) as i64 } });
    }
    if r.pct(30) { for _ in 0..1 + r.below(4) { let at = r.below(v.len() + 1); v.insert(at, -EINTR); } }
    if fatal {
        // anywhere, also right after the last byte
        let at = r.below(v.len().min(4) + 1);
        v.insert(at, -*r.pick(&[EIO, EIO, EISDIR, 11, 12, 13, 22, 116, 75, 6]));
    }
    v
}

fn writes(r: &mut Rng) -> Vec<i64> {
    let n = r.skewed(400);
    let mode = r.below(5);
    (0..n).map(|_| match mode { 0 => 1, 1 => r.range(1, 30) as i64, 2 => if r.pct(30) { -EINTR } else { 0 }, 3 => if r.pct(50) { r.range(1, 2000) as i64 } else { -EINTR }, _ => 0 }).collect()
}

/// A module in a file of tens of kilobytes to megabytes, most of it in one custom section.
fn large_image(r: &mut Rng) -> crate::case::Stream {
    let mut s = file_image(r, 100);
    s.faults.clear();
    let n = match r.below(10) { 0 if r.pct(50) => { let k = 21 + r.below(4); r.range(1 << k, 2 << k) } 0 => r.range(1 << 20, 3 << 20), 1..=5 => *r.pick(&[8192usize, 16384, 32768, 65536, 131072, 262144]) + r.below(40) - 20, _ => r.range(20_000, 300_000) };
    let fill = r.u64() as u8;
    let mut sec = vec![1, b'x'];
    sec.resize(n, fill);
    let mut head = vec![0u8];
    let mut v = sec.len();
    while v > 127 { head.push(v as u8 | 0x80); v >>= 7; }
    head.push(v as u8);
    head.extend(sec);
    // before everything else or at the very end
    if r.pct(50) { if s.image.len() >= 8 { s.image.splice(8..8, head); } } else { s.image.extend(head); }
    // what is wrong, if anything, is at the far end
    match r.below(4) { 0 => { s.image.pop(); } 1 => s.image.push(r.u64() as u8), _ => () }
    s
}

/// A module whose dump takes megabytes.
fn long_dump(r: &mut Rng) -> crate::case::Stream {
    let n = r.range(30_000, 280_000);
    let m = model::Module { mems: vec![model::Limits { min: 1, max: None }], data: vec![model::Data { mem: 0, offset: vec![model::Instr { op: 0x41, imm: model::Imm::I32(0) }], init: (0..n).map(|_| r.u64() as u8).collect() }], ..Default::default() };
    crate::case::Stream { kinds: vec![0], image: world::enc::encode(&m, r, world::enc::Style::plain()).bytes, faults: vec![] }
}

pub fn gen(prop: &str, r: &mut Rng, c: &mut Case) {
    let valid = match prop { "C11" => 85, "C22" => 20, _ => 55 };
    let s = if r.below(70) == 0 { large_image(r) } else if prop == "C11" && r.below(1500) == 0 { long_dump(r) } else { file_image(r, valid) };
    let len = s.bytes().len();
    c.streams.push(s);
    c.set("name", name(r).iter().map(|b| *b as i64).collect());
    let what = if prop == "C11" { *r.pick(&[0, 0, 0, 0, 0, 0, 0, 4]) } else { *r.pick(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8]) };
    c.set("what", vec![what]);
    if r.pct(10) { c.set("absolute", vec![1]); }
    if r.pct(30) { c.set("env", (0..1 + r.below(4)).map(|_| r.below(ENV.len()) as i64).collect()); }
    // whatever it asks its environment for is there
    if r.pct(30) { c.set("anyenv", vec![r.below(5) as i64]); }
    if r.pct(if prop == "C21" { 80 } else { 30 }) { c.set("host", vec![r.below(1 << 30) as i64, r.pct(40) as i64]); }
    // other rights; all of them allow reading
    if r.pct(20) { c.set("mode", vec![*r.pick(&[0o400, 0o444, 0o600, 0o755, 0o777, 0o4755])]); }
    if r.pct(20) { c.set("stdin", vec![r.below(3) as i64]); }
    let print = if prop == "C11" { r.pct(88) } else { r.pct(if prop == "C10" || prop == "C22" { 25 } else { 50 }) };
    let mut args = vec![0i64];
    if print { for _ in 0..1 + r.below(8) / 7 { let at = r.below(args.len() + 1); args.insert(at, 1 + r.below(2) as i64); } }
    if what == 5 { args.retain(|a| *a != 0); }
    if prop == "C25" {
        // other names before the one that counts, options anywhere
        for _ in 0..1 + r.below(6) { let k = args.iter().rposition(|a| *a == 0).unwrap_or(args.len()); let at = r.below(k + 1); args.insert(at, 3 + r.below(OTHERS.len() + 1) as i64); }
        if r.pct(30) { for _ in 0..1 + r.below(3) { let at = r.below(args.len() + 1); args.insert(at, 1 + r.below(2) as i64); } }
        // nothing named at all, or an empty name
        if r.pct(4) { args.retain(|a| matches!(a, 1 | 2)); } else if r.pct(4) { args.push(3); }
        if what == 5 { args.retain(|a| matches!(a, 1 | 2)); }
        c.set("args", args);
        if r.pct(50) { let fatal = r.pct(10); c.set("read", reads(r, len, fatal)); }
        if r.pct(5) { c.set("open", vec![*r.pick(&[ENOENT, 13, 24, EIO])]); }
        if r.pct(30) { c.set("write", writes(r)); }
        return;
    }
    c.set("args", args);
    if prop == "C21" {
        // nothing that is a reason to fail
        if r.pct(60) { c.set("read", reads(r, len, false)); }
        if r.pct(40) { let size = match r.below(5) { 0 => 0, 1 => len as i64 / 2, 2 => len as i64 - 1, 3 => len as i64 + 1, _ => r.below(1 << 20) as i64 }; c.set("stat", vec![0, size.max(0)]); }
        if r.pct(60) { c.set("write", writes(r)); }
        if r.pct(30) { c.set("twice", vec![1]); }
        return;
    }
    if prop == "C10" || prop == "C22" || (prop == "C17" && r.pct(70)) {
        if r.pct(20) { return; }
        if r.pct(10) { c.set("open", vec![*r.pick(&[ENOENT, 13, 24, 23, 12, 40, 20, EIO, 1, 6])]); }
        if r.pct(25) {
            let size = match r.below(6) { 0 => 0, 1 => len as i64 / 2, 2 => len as i64 - 1, 3 => len as i64 + 1, 4 => r.below(70_000) as i64, _ => r.below(32 << 20) as i64 };
            c.set("stat", if r.pct(30) { vec![*r.pick(&[EIO, 13, 75]), -1] } else { vec![0, size.max(0)] });
        }
        if r.pct(10) { c.set("seek", vec![*r.pick(&[29, EIO])]); }
        let fatal = r.pct(30);
        if fatal || r.pct(60) { c.set("read", reads(r, len, fatal)); }
        if r.pct(8) { c.set("eof", vec![r.below(len + 1) as i64]); }
        if r.pct(3) { c.set("alloc", vec![*r.pick(&[16i64, 64, 200, 600, 2000, 20000])]); }
    } else {
        if r.pct(20) { return; }
        let mut v = writes(r);
        if r.pct(55) {
            let at = r.below(v.len() + 1);
            let e = *r.pick(&[-ENOSPC, -EPIPE, -EIO, -11, -27, -105, 1_000_000]);
            v.insert(at, e);
            if r.pct(40) { for _ in 0..200 { v.insert(at, e); } }
        }
        c.set("write", v);
        if r.pct(25) { c.set("read", reads(r, len, false)); }
    }
}

struct Ran { changed: bool, code: Option<i32>, signal: Option<i32>, hung: bool, out: Vec<u8>, err: Vec<u8>, log: Vec<(char, i64, i64)>, dir: PathBuf }

/// Everything below a directory, with contents.
fn snapshot(d: &Path) -> Vec<(OsString, u64)> {
    let mut out = vec![];
    let mut dirs = vec![d.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            let m = match std::fs::symlink_metadata(&p) { Ok(m) => m, Err(_) => continue };
            use std::os::unix::fs::MetadataExt;
            let mut h = mix(m.mode() as u64);
            if m.is_dir() { dirs.push(p.clone()); } else if m.is_file() { h = mix(h ^ m.ino() ^ mix(m.mtime_nsec() as u64 ^ m.mtime() as u64) ^ hash(&std::fs::read(&p).unwrap_or_default())); }
            out.push((p.into_os_string(), h));
        }
    }
    out.sort();
    out
}

fn list(k: &str, v: &[i64]) -> String { if v.is_empty() { String::new() } else { format!("{} {}\n", k, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")) } }

/// The last component is what a message must mention.
fn base_name(n: &[u8]) -> String {
    let n = n.rsplit(|b| *b == b'/').next().unwrap_or(n);
    OsString::from_vec(n.to_vec()).to_string_lossy().into_owned()
}

/// `fixed`: memory is laid out the same way every time.
fn execute(c: &Case, content: &[u8], fixed: bool) -> std::io::Result<(Ran, Vec<u8>)> {
    let dir = SCRATCH.get().unwrap().join(format!("{:08}-{:08}", std::process::id(), SERIAL.fetch_add(1, Relaxed)));
    let cwd = dir.join("cwd");
    std::fs::create_dir_all(cwd.join("sub"))?;
    let mut nm: Vec<u8> = c.num("name").iter().map(|b| *b as u8).filter(|b| *b != 0).collect();
    if base_name(&nm).is_empty() || nm == b"-p" || nm == b"--print" || nm.starts_with(b"/") || nm.ends_with(b"/..") || nm == b"." || nm == b".." || nm == b"sub" || nm.ends_with(b"/.") { nm = b"m.wasm".to_vec(); }
    let what = c.one("what");
    if what == 7 { nm.extend(b"/x"); }
    if what == 8 { nm.resize(300, b'n'); }
    if c.one("absolute") == 1 { let mut a = cwd.as_os_str().as_bytes().to_vec(); a.push(b'/'); a.extend(&nm); nm = a; }
    let target = cwd.join(Path::new(std::ffi::OsStr::from_bytes(&nm)));
    if let Some(p) = target.parent() { std::fs::create_dir_all(p)?; }
    match what {
        // what is missing under its name is there under others
        1 | 3 => for ext in [&b".wasm"[..], b".wat", b"~", b".wasm.gz"] {
            let mut d = target.as_os_str().as_bytes().to_vec();
            d.extend(ext);
            let _ = std::fs::write(Path::new(std::ffi::OsStr::from_bytes(&d)), content);
            if what == 3 && ext == b".wasm" { std::os::unix::fs::symlink("nowhere", &target)?; }
        },
        2 => std::fs::create_dir_all(&target)?,
        6 => std::os::unix::fs::symlink(target.file_name().unwrap_or_default(), &target)?,
        7 => if let Some(p) = target.parent() { std::fs::remove_dir(p)?; std::fs::write(p, content)?; },
        8 => (),
        4 => { std::fs::write(dir.join("real"), content)?; std::os::unix::fs::symlink(dir.join("real"), &target)?; }
        _ => std::fs::write(&target, content)?,
    }
    if let (0, Some(m)) = (what, c.num("mode").first()) { std::fs::set_permissions(&target, std::os::unix::fs::PermissionsExt::from_mode(*m as u32))?; }
    if c.num("args").iter().any(|a| *a > 2) {
        for (n, t) in [("good.wasm", GOOD), ("bad.wasm", b"\0asn")] { if !cwd.join(n).exists() { std::fs::write(cwd.join(n), t)?; } }
    }
    let mut script = String::new();
    script += &list("open", c.num("open"));
    script += &list("stat", c.num("stat"));
    script += &list("seek", c.num("seek"));
    script += &list("read", c.num("read"));
    script += &list("eof", c.num("eof"));
    script += &list("write", c.num("write"));
    script += &list("alloc", c.num("alloc"));
    script += &list("env", c.num("anyenv"));
    script += &list("host", c.num("host"));
    std::fs::write(dir.join("script"), script)?;
    let root = crate::root();
    let mut cmd = Command::new(format!("{}/target/cli/debug/parser", root));
    cmd.env_clear().current_dir(&cwd).env("LD_PRELOAD", format!("{}/target/shim.so", root)).env("WHASM_SIM_SCRIPT", dir.join("script")).env("WHASM_SIM_LOG", dir.join("log")).env("WHASM_SIM_FILE", OsString::from_vec(nm.clone()));
    for a in c.num("args") { match a { 0 => cmd.arg(OsString::from_vec(nm.clone())), 1 => cmd.arg("-p"), 2 => cmd.arg("--print"), k => cmd.arg(OsString::from_vec(OTHERS.get((*k - 3).max(0) as usize).map_or(nm.clone(), |o| o.to_vec()))) }; }
    cmd.env("WHASM_SIM_DIR", &dir);
    for e in c.num("env") { let (k, v) = ENV[*e as usize % ENV.len()]; cmd.env(k, v); }
    match c.one("stdin") { 1 => { std::fs::write(dir.join("in"), content)?; cmd.stdin(std::fs::File::open(dir.join("in"))?) } 2 => { std::fs::write(dir.join("in"), b"\0asm\x01\0\0\0")?; cmd.stdin(std::fs::File::open(dir.join("in"))?) } _ => cmd.stdin(Stdio::null()) };
    let stack = c.num("stack").first().map_or(512 << 20, |s| *s as u64);
    let before = snapshot(&cwd);
    cmd.stdout(std::fs::File::create(dir.join("out"))?).stderr(std::fs::File::create(dir.join("err"))?);
    // deep nesting must not meet the end of the stack (an unoptimised build needs 20 kB a level)
    unsafe { cmd.pre_exec(move || { if fixed { personality(0x40000); } let mut l = [0u64; 2]; if getrlimit(3, l.as_mut_ptr()) == 0 { l[0] = l[1].min(stack); setrlimit(3, l.as_ptr()); } Ok(()) }) };
    let mut child = cmd.spawn()?;
    let t0 = Instant::now();
    let mut hung = false;
    let status = loop {
        if let Some(s) = child.try_wait()? { break s; }
        if t0.elapsed().as_secs() > 60 { hung = true; let _ = child.kill(); break child.wait()?; }
        std::thread::sleep(Duration::from_micros(150));
    };
    let log = std::fs::read_to_string(dir.join("log")).unwrap_or_default();
    let log = log.lines().filter_map(|l| { let mut w = l.split(' '); Some((w.next()?.chars().next()?, w.next()?.parse().ok()?, w.next()?.parse().ok()?)) }).collect();
    let changed = before != snapshot(&cwd);
    let r = Ran { changed, code: status.code(), signal: status.signal(), hung, out: std::fs::read(dir.join("out"))?, err: std::fs::read(dir.join("err"))?, log, dir: dir.clone() };
    let _ = std::fs::remove_dir_all(&dir);
    Ok((r, nm))
}

pub fn run(prop: &str, c: &Case, st: &mut Stats) -> Fail {
    let s = match c.streams.first() { Some(s) => s, None => return None };
    st.evals += 1;
    let content = s.bytes();
    let eof = c.num("eof").first().copied().unwrap_or(-1);
    let effective = if eof >= 0 && (eof as usize) < content.len() { &content[..eof as usize] } else { &content[..] };
    let d = model::decode_module(effective);
    if d.out_of_bounds() || (d.depth > props::USUAL_DEPTH && (prop == "C11" || c.num("args").iter().any(|a| matches!(a, 1 | 2)))) { st.add("skipped: out of bounds", 1); return None; }
    let valid = match &d.result { Ok(m) => validate::validate(m).is_ok(), Err(_) => false };
    let (ran, nm) = match execute(c, &content, true) { Ok(r) => r, Err(e) => panic!("cannot run the program: {}", e) };

    // what actually happened to it
    // the last one that is not an option counts
    let last = c.num("args").iter().rev().find(|a| !matches!(a, 1 | 2)).copied();
    let has_file = match last { None | Some(3) => false, Some(_) => true };
    let mut fatal_input = false;
    let mut fatal_output = false;
    let mut lenient = false;
    let mut fired: Vec<&str> = vec![];
    for (k, a, b) in &ran.log {
        match (k, a, b) {
            ('O', _, e) if *e != 0 => { fatal_input = true; fired.push("open fails"); }
            ('R', -1, e) if *e == EINTR => fired.push("read interrupted"),
            ('R', -1, _) => { fatal_input = true; fired.push("read fails"); }
            ('K', _, _) => fired.push("read short"),
            ('Z', _, _) => fired.push("file ends early"),
            ('T', -1, _) => { lenient = true; fired.push("status fails"); }
            ('T', _, _) => fired.push("size wrong"),
            ('L', -1, _) => { lenient = true; fired.push("seek fails"); }
            ('A', _, _) => { lenient = true; fired.push("allocation fails"); }
            ('J', _, _) => fired.push("write short"),
            ('W', -1, e) if *e == EINTR => fired.push("write interrupted"),
            ('W', -1, _) => { fatal_output = true; fired.push("write fails"); }
            ('W', 0, 0) => { fatal_output = true; fired.push("write accepts nothing"); }
            _ => (),
        }
    }
    let no_memory = fired.contains(&"allocation fails");
    for f in &fired { st.add(&format!("fault:{}", f), 1); }
    st.add(&format!("model:{}", if valid { "valid" } else { "not valid" }), 1);
    st.add(&format!("work:{}", WHAT[c.one("what") as usize % WHAT.len()]), 1);
    fired.sort();
    fired.dedup();
    let ok = ran.code == Some(0);
    let sig = hash(c.text().as_bytes());
    st.sigs.insert(sig);
    st.reach.insert(mix(hash(fired.join(",").as_bytes()) ^ c.one("what") as u64 ^ (valid as u64) << 8 ^ (ok as u64) << 9 ^ ((ran.log.len() as u64).min(20)) << 16));
    let events: Vec<u8> = ran.log.iter().flat_map(|(k, a, b)| { let mut v = vec![*k as u8]; v.extend(a.to_le_bytes()); v.extend(b.to_le_bytes()); v }).collect();
    // the scratch directory has another name every time
    st.obs = mix(st.obs ^ hash(if c.one("absolute") == 1 { &[] } else { &ran.out[..] }) ^ hash(&events) ^ ran.code.unwrap_or(-1) as u64);
    st.add("system calls observed", ran.log.len() as u64);

    let out = String::from_utf8_lossy(&ran.out).into_owned();
    let said = out.clone() + &String::from_utf8_lossy(&ran.err);
    let text = c.num("args").iter().any(|a| matches!(a, 1 | 2));
    let how = format!("(arguments {:?}, {}, {})", c.num("args"), WHAT[c.one("what") as usize % WHAT.len()], if fired.is_empty() { "no fault".to_string() } else { fired.join(" + ") });

    if ran.hung { return Some(format!("hang: the program does not end {}", how)); }
    if let Some(s) = ran.signal { if !no_memory { return Some(format!("crash: the program was killed by signal {} {}", s, how)); } }
    let readable = has_file && !fatal_input && matches!(c.one("what"), 0 | 4);
    if prop == "C17" {
        for (k, a, b) in &ran.log {
            let what = match (k, a, b) {
                ('M', _, _) => "opened the named file for more than reading",
                ('P', _, 1) => "opened another file for writing",
                ('P', 1, _) => "opened another file than the named one",
                // the runtime looks for its own debug information when it reports a panic or runs out of memory
                ('P', 2 | 3, _) if !said.contains("panicked") && ran.signal.is_none() && c.num("alloc").is_empty() => "opened another file than the named one",
                ('U', 30..=33 | 38..=41, _) => "tried to start a process",
                ('U', 34 | 35, _) => "tried to reach the network",
                ('U', 36, _) => "tried to signal a process",
                ('U', 37, _) => "changed its working directory",
                ('U', _, _) => "tried to change a file or directory",
                ('I', _, _) => "read from its standard input",
                ('E', _, _) => "wrote to something else than its output",
                _ => continue,
            };
            return Some(format!("effects: the program {} {}", what, how));
        }
        if ran.changed { return Some(format!("effects: files are not as they were after the run {}", how)); }
        return None;
    }
    if prop == "C10" {
        if ok && !has_file { return Some(format!("status: exit status 0 without a file {}", how)); }
        if ok && !readable { return Some(format!("status: exit status 0 although the file could not be read {}", how)); }
        if ok && !valid { return Some(format!("status: exit status 0 although the contents are not a valid module {}", how)); }
        if ok || no_memory || fatal_output { return None; }
        if ran.code != Some(1) { return Some(format!("status: failure reported with exit status {:?} instead of 1 {}", ran.code, how)); }
        if readable && valid && !lenient { return Some(format!("status: exit status 1 although the file was read completely and holds a valid module {}", how)); }
        let base = base_name(&nm);
        let quoted = format!("{:?}", base);
        if has_file && !said.contains(&base) && !said.contains(quoted.trim_matches('"')) { return Some(format!("message: the failure message does not name the file {}", how)); }
        return None;
    }

    if prop == "C21" {
        // the same again in plain surroundings, or in exactly the same ones
        let mut plain = Case::default();
        for k in ["name", "what", "absolute", "args"] { plain.set(k, c.num(k).to_vec()); }
        let other = if c.one("twice") == 1 { c } else { &plain };
        let (again, _) = match execute(other, &content, false) { Ok(r) => r, Err(e) => panic!("cannot run the program: {}", e) };
        // panics name a thread and a place in the program, and the directory has another name every time
        let show = |r: &Ran, t: &[u8]| String::from_utf8_lossy(t).replace(&*r.dir.to_string_lossy(), "DIR");
        for (what, a, b) in [("output", show(&ran, &ran.out), show(&again, &again.out)), ("error output", show(&ran, &ran.err), show(&again, &again.err))] {
            if a != b {
                let at = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
                return Some(format!("surroundings: the same file gives another {} ({} and {} bytes, first difference at {}) {}", what, a.len(), b.len(), at, how));
            }
        }
        if ran.code != again.code { return Some(format!("surroundings: the same file gives another exit status, {:?} and {:?} {}", ran.code, again.code, how)); }
        return None;
    }
    if prop == "C25" {
        if !matches!(last, None | Some(0) | Some(3)) { return None; }
        if !has_file {
            if ran.log.iter().any(|(k, a, _)| *k == 'P' && *a == 1) { return Some(format!("arguments: a file was opened although none is named {}", how)); }
            if ran.code != Some(1) { return Some(format!("arguments: no file is named, but the exit status is {:?} {}", ran.code, how)); }
            return if said.trim().is_empty() { Some(format!("arguments: nothing is said although no file is named {}", how)) } else { None };
        }
        if ran.log.iter().any(|(k, a, _)| *k == 'P' && *a == 1) { return Some(format!("arguments: another file than the last one named was opened {}", how)); }
        if fatal_output || lenient { return None; }
        let good = readable && valid;
        if ok != good || (!ok && ran.code != Some(1)) { return Some(format!("arguments: exit status {:?} although the last file named is {} {}", ran.code, if good { "a valid module" } else { "not a valid module" }, how)); }
        let shown = out.contains("Module {");
        if !ok {
            let base = base_name(&nm);
            let quoted = format!("{:?}", base);
            if !said.contains(&base) && !said.contains(quoted.trim_matches('"')) { return Some(format!("arguments: the message does not name the last file named {}", how)); }
            return None;
        }
        match (text, if text { props::dump(effective) } else { None }) {
            (true, Some(d)) => if out != format!("{}\n", d) { return Some(format!("arguments: the option is given, but the output is not the dump of the last file named {}", how)); },
            (false, _) => if shown { return Some(format!("arguments: a dump without the option {}", how)); },
            _ => (),
        }
        return None;
    }
    if prop == "C22" {
        if ok || no_memory || fatal_output || lenient { return None; }
        if !has_file { return if said.trim().is_empty() { Some(format!("reason: nothing is said about what is missing {}", how)) } else { None }; }
        let errno = ran.log.iter().find_map(|(k, a, e)| match (k, a) { ('O', _) if *e != 0 => Some(*e), ('R', -1) if *e != EINTR => Some(*e), _ => None });
        let errno = errno.or(match c.one("what") { 1 | 3 => Some(ENOENT), 6 => Some(40), 7 => Some(20), 8 => Some(36), 2 if eof < 0 => Some(EISDIR), 2 => return None, _ => None });
        if let Some(e) = errno {
            let text = std::io::Error::from_raw_os_error(e as i32).to_string();
            let short = text.split(" (os error").next().unwrap_or("").to_string();
            st.add("work:reason of the system", 1);
            if !said.contains(&text) && !said.contains(&short) { return Some(format!("reason: the system's reason, {}, is not told {}", text, how)); }
            // nothing is known about contents that could not be read
            return None;
        }
        let (text, what) = match props::complaint(effective) { Some(x) => x, None => return None };
        st.add(&format!("work:reason of the {}", what), 1);
        if !said.contains(&text) { return Some(format!("reason: what the {} says, {:?}, is not told {}", what, text, how)); }
        return None;
    }

    // C11
    if !readable || lenient { return None; }
    let dump = props::dump(effective);
    let marker = "Module {";
    // a failed write may have cut a character in two
    let whole = match std::str::from_utf8(&ran.out) { Err(e) if e.error_len().is_none() => e.valid_up_to(), _ => ran.out.len() };
    let shown = String::from_utf8_lossy(&ran.out[..whole]).into_owned();
    let shown = shown.find(marker).map(|i| &shown[i..]);
    match (&dump, valid) {
        (Some(d), true) => {
            if let Ok(m) = model::decode_module(effective).result.as_ref() { if let Some(w) = render::missing(m, d) { return Some(format!("dump: the dump of the module does not mention {} {}", w, how)); } }
            let full = format!("{}\n", d);
            if text {
                if ok && out != full {
                    let at = out.bytes().zip(full.bytes()).take_while(|(a, b)| a == b).count();
                    return Some(format!("dump: exit status 0, but {} of {} bytes of the dump were written, first difference at {} {}", out.len(), full.len(), at, how));
                }
                if !ok && !fatal_output { return Some(format!("dump: exit status {:?} although the output accepted everything {}", ran.code, how)); }
                if !ok { if let Some(x) = shown { if !full.starts_with(x) && !x.starts_with(d.as_str()) { return Some(format!("dump: a failed run printed something else than the module {}", how)); } } }
            } else if ok && shown.is_some() {
                return Some(format!("dump: a dump without being asked {}", how));
            }
        }
        (Some(d), false) => if let Some(x) = shown { if !d.starts_with(x) && !x.starts_with(d.as_str()) { return Some(format!("dump: a failed run printed something else than the file's module {}", how)); } },
        (None, _) => if shown.is_some() && !valid { return Some(format!("dump: a module was printed for a file that is none {}", how)); },
    }
    if valid && ok && text && shown.is_none() && dump.is_some() { return Some(format!("dump: no dump {}", how)); }
    None
}

/// The program, not optimised, with so much stack; the signal that ended it.
pub fn with_stack(content: &[u8], stack: usize) -> Option<i32> {
    let mut c = Case::default();
    c.set("args", vec![0]);
    c.set("stack", vec![stack as i64]);
    match execute(&c, content, true) { Ok((r, _)) => r.signal, Err(e) => panic!("cannot run the program: {}", e) }
}

/// The finding listed for C11: a descriptor that is not open for writing.
pub fn ebadf_claims_success() -> bool {
    let mut c = Case::default();
    let image = b"\0asm\x01\0\0\0".to_vec();
    c.set("args", vec![1, 0]);
    c.set("write", vec![-EBADF; 64]);
    matches!(execute(&c, &image, true), Ok((r, _)) if r.code == Some(0) && r.out.is_empty())
}
