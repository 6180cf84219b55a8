//! Symbolic-input intrinsics. Natively (replay) they read recorded values; the symbolic
//! engine replaces every `#[inline(never)]` function of this module.
use std::cell::RefCell;
thread_local! {
    static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((Vec::new(), 0));
    static FAILS: RefCell<Vec<String>> = RefCell::new(Vec::new());
}
pub fn load(v: Vec<u64>) {
    IN.with(|i| *i.borrow_mut() = (v, 0));
    FAILS.with(|f| f.borrow_mut().clear());
}
pub fn fails() -> Vec<String> {
    FAILS.with(|f| f.borrow().clone())
}
fn next() -> u64 {
    IN.with(|i| {
        let mut i = i.borrow_mut();
        let p = i.1;
        i.1 += 1;
        if p < i.0.len() { i.0[p] } else { 0 }
    })
}
/// An arbitrary value below `n` (explored exhaustively).
#[inline(never)]
pub fn choose(_n: usize) -> usize { next() as usize }
/// An arbitrary byte among the ASCII bytes of `set`.
#[inline(never)]
pub fn byte_in(set: &str) -> u8 {
    match next() as u8 {
        0 if !set.contains('\0') => set.as_bytes()[0],
        b => b,
    }
}
#[inline(never)]
pub fn bool() -> bool { next() != 0 }
#[inline(never)]
pub fn u8() -> u8 { next() as u8 }
#[inline(never)]
pub fn u32() -> u32 { next() as u32 }
#[inline(never)]
pub fn u64() -> u64 { next() }
pub struct AssumeFailed;
#[inline(never)]
pub fn assume(b: bool) {
    if !b { std::panic::panic_any(AssumeFailed) }
}
#[inline(never)]
pub fn check(b: bool, label: &str) {
    if !b { FAILS.with(|f| f.borrow_mut().push(label.to_string())) }
}
/// Reachability witness: the exploration must reach every cover label.
#[inline(never)]
pub fn cover(_label: &str) {}
/// Output compared between the symbolic run (under a model) and the native run.
#[inline(never)]
pub fn observe(label: &str, s: &str) {
    println!("OBS {label} {}", s.bytes().map(|b| format!("{b:02x}")).collect::<String>());
}
#[inline(never)]
pub fn is_native() -> bool { true }
#[inline(never)]
pub fn hash_order(_on: bool) {}

/// `min..=max` symbolic bytes drawn from `set` (ASCII).
pub fn string(min: usize, max: usize, set: &str) -> String {
    let n = min + choose(max - min + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push(byte_in(set) as char);
    }
    s
}
pub fn pick<'a>(opts: &[&'a str]) -> &'a str {
    opts[choose(opts.len())]
}

/// An empty scratch directory (natively a fresh one made by the checker for this run).
#[inline(never)]
pub fn fs_root() -> std::path::PathBuf {
    std::env::var_os("VH_SCRATCH").expect("VH_SCRATCH").into()
}
/// A gzipped tarball of `files` (path bytes, mode, kind, contents), paths verbatim.
#[inline(never)]
pub fn tgz(files: &[TarFile]) -> Vec<u8> {
    native_tgz(files)
}
/// kind: b'0' regular, b'5' directory, b'2' symlink
pub struct TarFile {
    pub path: String,
    pub mode: u32,
    pub kind: u8,
    pub data: String,
}
#[cfg(feature = "fs")]
fn native_tgz(files: &[TarFile]) -> Vec<u8> {
    use std::io::Write;
    let mut out = Vec::new();
    for f in files {
        let mut h = [0u8; 512];
        let n = f.path.len().min(100);
        h[..n].copy_from_slice(&f.path.as_bytes()[..n]);
        h[100..108].copy_from_slice(format!("{:07o}\0", f.mode).as_bytes());
        h[108..116].copy_from_slice(b"0000000\0");
        h[116..124].copy_from_slice(b"0000000\0");
        let size = if f.kind == b'0' { f.data.len() } else { 0 };
        h[124..136].copy_from_slice(format!("{:011o}\0", size).as_bytes());
        h[136..148].copy_from_slice(b"00000000000\0");
        h[148..156].copy_from_slice(b"        ");
        h[156] = f.kind;
        if f.kind == b'2' {
            let n = f.data.len().min(100);
            h[157..157 + n].copy_from_slice(&f.data.as_bytes()[..n]);
        }
        h[257..265].copy_from_slice(b"ustar\x0000");
        let sum: u32 = h.iter().map(|b| *b as u32).sum();
        h[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
        out.extend_from_slice(&h);
        if size > 0 {
            out.extend_from_slice(f.data.as_bytes());
            out.resize((out.len() + 511) / 512 * 512, 0);
        }
    }
    out.resize(out.len() + 1024, 0);
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(&out).unwrap();
    e.finish().unwrap()
}
#[cfg(not(feature = "fs"))]
fn native_tgz(_: &[TarFile]) -> Vec<u8> {
    unimplemented!()
}
