//! Extraction of package tarballs, through the cache or not.
use crate::fsx::snapshot;
use crate::reg::v;
use crate::sym::{self, TarFile};
use async_trait::async_trait;
use futures::executor::block_on;
use futures::AsyncRead;
use nassun::fetch::PackageFetcher;
use nassun::{ExtractMode, Nassun, NassunError, Package, PackageSpec};
use oro_common::*;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// A registry with p@1.0.0, whose tarball is served as `data`.
#[derive(Debug)]
struct One {
    integrity: Option<String>,
    data: Vec<u8>,
    chunk: usize,
}

struct Chunks {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
}
impl AsyncRead for Chunks {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}

#[async_trait]
impl PackageFetcher for One {
    async fn name(&self, _: &PackageSpec, _: &Path) -> Result<String, NassunError> {
        Ok("p".into())
    }
    async fn metadata(&self, pkg: &Package) -> Result<VersionMetadata, NassunError> {
        Ok(self.corgi_metadata(pkg).await?.into())
    }
    async fn packument(&self, spec: &PackageSpec, dir: &Path) -> Result<Arc<Packument>, NassunError> {
        let c: CorgiPackument = (*self.corgi_packument(spec, dir).await?).clone();
        Ok(Arc::new(c.into()))
    }
    async fn corgi_metadata(&self, _: &Package) -> Result<CorgiVersionMetadata, NassunError> {
        Ok(CorgiVersionMetadata {
            dist: CorgiDist { tarball: Some("https://r.example/p.tgz".parse().expect("url")), integrity: self.integrity.clone(), ..Default::default() },
            manifest: CorgiManifest { name: Some("p".into()), version: Some(v("1.0.0")), ..Default::default() },
            ..Default::default()
        })
    }
    async fn corgi_packument(&self, _: &PackageSpec, _: &Path) -> Result<Arc<CorgiPackument>, NassunError> {
        let m = CorgiVersionMetadata {
            dist: CorgiDist { tarball: Some("https://r.example/p.tgz".parse().expect("url")), integrity: self.integrity.clone(), ..Default::default() },
            manifest: CorgiManifest { name: Some("p".into()), version: Some(v("1.0.0")), ..Default::default() },
            ..Default::default()
        };
        Ok(Arc::new(CorgiPackument { versions: [(v("1.0.0"), m)].into_iter().collect(), tags: Default::default() }))
    }
    async fn tarball(&self, _: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>, NassunError> {
        Ok(Box::new(Chunks { data: self.data.clone(), pos: 0, chunk: self.chunk }))
    }
}

impl One {
    fn extract(self, cache: Option<&Path>, dir: &Path, mode: ExtractMode) -> bool {
        let nassun = Nassun::with_fetcher(Arc::new(self), PathBuf::from("."), cache.map(PathBuf::from), "latest".to_string());
        let pkg = block_on(nassun.resolve("p@1.0.0")).ok().expect("package");
        block_on(pkg.extract_to_dir(dir, mode)).is_ok()
    }
}

fn mode() -> ExtractMode {
    [ExtractMode::Auto, ExtractMode::AutoHardlink, ExtractMode::Copy, ExtractMode::Hardlink][sym::choose(4)]
}

fn file(path: &str, mode: u32, data: &str) -> TarFile {
    TarFile { path: path.into(), mode, kind: b'0', data: data.into() }
}

fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}

fn exec(p: &Path, bits: u32) -> bool {
    use std::os::unix::fs::PermissionsExt;
    std::fs::metadata(p).map_or(false, |m| m.permissions().mode() & bits == bits)
}

crate::harnesses! {
    h_tar_contain {
        // a file with any path
        let dir: PathBuf = sym::fs_root();
        let t = dir.join("w/n/t");
        let cache = dir.join("c");
        std::fs::create_dir_all(dir.join("w/n")).expect("mkdir");
        std::fs::create_dir(&cache).expect("mkdir");
        for f in ["a", "w/a", "w/n/a"] {
            std::fs::write(dir.join(f), "keep").expect("write");
        }
        let mut path = String::from(sym::pick(&["package/", "p/../", "", "/", "package\\"]));
        path.push_str(&sym::string(1, 5, if path.is_empty() { "a./" } else { sym::pick(&["a./", "a.\\"]) }));
        let files = vec![file("package/package.json", 0o644, "{}"), file(&path, 0o644, "evil")];
        let one = One { integrity: None, data: sym::tgz(&files), chunk: 8192 };
        let cached = sym::bool();
        one.extract(if cached { Some(&cache) } else { None }, &t, if sym::bool() { ExtractMode::Copy } else { ExtractMode::AutoHardlink });
        let outside: Vec<(String, String)> = snapshot(&dir).into_iter().filter(|(p, _)| p != "w/n/t" && !p.starts_with("w/n/t/") && !p.starts_with("c/")).collect();
        let want = [("a", "fkeep"), ("c", "d"), ("w", "d"), ("w/a", "fkeep"), ("w/n", "d"), ("w/n/a", "fkeep")];
        sym::check(outside.len() == want.len(), "extraction stays inside the package's directory");
        for ((p, k), (wp, wk)) in outside.iter().zip(want) {
            sym::check(p == wp && k == wk, "extraction stays inside the package's directory");
        }
        sym::cover("done");
    }
    h_tar_files {
        // the files of the tarball, through the cache or not, and again from the cache
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let script = sym::bool();
        let bin = sym::choose(4);
        let bins = ["", ",\"bin\":\"d/b\"", ",\"bin\":\"d/missing\"", ",\"directories\":{\"bin\":\"missing\"}"][bin];
        let json = format!("{{\"name\":\"p\"{}{}}}", if script { ",\"scripts\":{\"install\":\"x\"}" } else { "" }, bins);
        let (ca, cb) = (sym::string(1, 1, "xy"), sym::string(1, 1, "xy"));
        let ma = [0o644, 0o755][sym::choose(2)];
        let files = |first: bool| {
            let mut f = vec![file("package/a", ma, &ca), file("package/d/b", 0o644, &cb)];
            f.insert(if first { 0 } else { 2 }, file("package/package.json", 0o644, &json));
            f
        };
        let first = sym::bool();
        let data = sym::tgz(&files(first));
        let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
        let one = || One { integrity: integrity.clone(), data: data.clone(), chunk: 8192 };
        let cached = sym::bool();
        let c = if cached { Some(cache.as_path()) } else { None };
        let want = [("a", &ca), ("d/b", &cb), ("package.json", &json)];
        let mut m = mode();
        for (i, n) in ["t", "u", "v"].iter().enumerate() {
            let t = dir.join(n);
            if i == 1 {
                m = mode();
            }
            sym::check(one().extract(c, &t, m), "extracting succeeds");
            let mut got = snapshot(&t);
            got.retain(|(_, k)| k != "d");
            sym::check(got.len() == 3 && got.iter().zip(want).all(|((p, k), (wp, wk))| p == wp && k[..1] == *"f" && k[1..] == **wk), "the extracted files are those of the tarball");
            sym::check(ma == 0o644 || exec(&t.join("a"), 0o111), "executables of the tarball are executable");
            sym::check(bin != 1 || !cached || exec(&t.join("d/b"), 0o111), "bins are executable");
            if !cached && i == 1 || !script && i == 1 {
                break;
            }
        }
        if script && cached {
            // scripts may change the package, and nothing else with it
            let (n, others) = [("t", ["u", "v"]), ("u", ["t", "v"]), ("v", ["t", "u"])][sym::choose(3)];
            std::fs::write(dir.join(n).join("a"), "changed").expect("write");
            std::fs::write(dir.join(n).join("d/b"), "changed").expect("write");
            for o in others {
                let o = dir.join(o);
                sym::check(read(&o.join("a")) == ca && read(&o.join("d/b")) == cb, "scripts change no other copy of a package");
            }
            let w = dir.join("w");
            sym::check(one().extract(c, &w, m), "extracting succeeds");
            sym::check(read(&w.join("a")) == ca && read(&w.join("d/b")) == cb, "scripts change no later copy of a package");
        }
        sym::cover("done");
    }
    h_tar_dup {
        // a path more than once: the last one counts, and no other file changes
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let (x, y, z) = (sym::string(1, 1, "xyz"), sym::string(1, 1, "xyz"), sym::string(1, 1, "xyz"));
        let script = sym::bool();
        let json = file("package/package.json", 0o644, if script { "{\"scripts\":{\"install\":\"x\"}}" } else { "{}" });
        let mut files = vec![file("package/a", 0o644, &x), file("package/b", 0o644, &z), file(sym::pick(&["package/a", "package//a", "p/./a"]), 0o644, &y)];
        files.insert(sym::choose(4), json);
        let data = sym::tgz(&files);
        let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
        let m = mode();
        for t in ["t", "u"] {
            let t = dir.join(t);
            sym::check(One { integrity: integrity.clone(), data: data.clone(), chunk: 8192 }.extract(Some(&cache), &t, m), "extracting succeeds");
            sym::check(read(&t.join("a")) == y, "the last of a file's entries is the one extracted");
            sym::check(read(&t.join("b")) == z, "a file extracted twice changes no other");
        }
        sym::cover("done");
    }
    h_tar_modes {
        // packages sharing a file's contents, but not its mode
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let modes = [0o644, 0o755, 0o600, 0o664, 0o700];
        let ms = [modes[sym::choose(5)], modes[sym::choose(5)]];
        let m = mode();
        let (x, y) = (sym::string(1, 1, "xy"), sym::string(1, 1, "xy"));
        for round in 0..2 {
            for (n, mode, data) in [("t", ms[0], &x), ("u", ms[1], &y)] {
                let json = format!("{{\"name\":\"{n}\"}}");
                let data = sym::tgz(&[file("package/package.json", 0o644, &json), file("package/a", mode, data)]);
                let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
                let one = One { integrity, data, chunk: 8192 };
                sym::check(one.extract(Some(&cache), &dir.join(format!("{n}{round}")), m), "extracting succeeds");
            }
        }
        for (t, m, d) in [("t0", ms[0], &x), ("u0", ms[1], &y), ("t1", ms[0], &x), ("u1", ms[1], &y)] {
            sym::check(read(&dir.join(t).join("a")) == *d, "the extracted files are those of the tarball");
            sym::check(exec(&dir.join(t).join("a"), m & 0o111), "executables of the tarball are executable");
        }
        sym::cover("done");
    }
    h_tar_bad {
        // anything but the bytes the integrity is of
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let data = sym::tgz(&[file("package/package.json", 0o644, "{}"), file("package/a", 0o644, "x")]);
        let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
        let mut bad = data.clone();
        match sym::choose(5) {
            0 => {
                let i = [0, 1, data.len() / 2, data.len() - 1][sym::choose(4)];
                let x = sym::u8();
                sym::assume(x != 0);
                bad[i] ^= x;
            }
            1 => bad.truncate([0, 1, data.len() - 1][sym::choose(3)]),
            2 => bad.push(sym::u8()),
            3 => bad = sym::tgz(&[file("package/package.json", 0o644, "{}"), file("package/a", 0o644, "y")]),
            _ => {}
        }
        let chunk = [1, 3, 8192][sym::choose(3)];
        let cached = sym::bool();
        let c = if cached { Some(cache.as_path()) } else { None };
        let t = dir.join("t");
        let good = bad == data;
        let ok = One { integrity: integrity.clone(), data: bad, chunk }.extract(c, &t, ExtractMode::AutoHardlink);
        if good {
            sym::check(ok, "a tarball matching its integrity is extracted");
            sym::check(read(&t.join("a")) == "x", "a tarball matching its integrity is extracted");
            sym::cover("good");
        } else {
            sym::check(!ok, "a tarball not matching its integrity is an error");
            sym::check(!t.exists(), "nothing of a tarball not matching its integrity is extracted");
            // and it's no obstacle to getting the right one
            let ok = One { integrity, data, chunk }.extract(c, &t, ExtractMode::AutoHardlink);
            sym::check(ok && read(&t.join("a")) == "x", "a tarball matching its integrity is extracted");
            sym::cover("bad");
        }
    }
    h_tar_big {
        // larger than what is kept in memory
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let mut text = String::new();
        let mut x = 1u32;
        for _ in 0..3000 {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            text.push((b'0' + (x >> 26) as u8) as char);
        }
        text.push_str(&sym::string(0, 1, "xy"));
        let data = sym::tgz(&[file("package/package.json", 0o644, "{}"), file("package/a", 0o644, &text), file("package/b", 0o644, "z")]);
        let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
        let mut bad = data.clone();
        match sym::choose(4) {
            0 => {
                let i = [0, 1030, data.len() - 1][sym::choose(3)];
                let x = sym::u8();
                sym::assume(x != 0);
                bad[i] ^= x;
            }
            1 => bad.truncate([1023, 1024, 1025, data.len() - 1][sym::choose(4)]),
            2 => bad.push(sym::u8()),
            _ => {}
        }
        let chunk = [100, 512, 1025, 8192][sym::choose(4)];
        let cached = sym::bool();
        let c = if cached { Some(cache.as_path()) } else { None };
        let t = dir.join("t");
        let m = [ExtractMode::AutoHardlink, ExtractMode::Copy][sym::choose(2)];
        let good = bad == data;
        let sri = if good && sym::bool() { None } else { integrity.clone() };
        let ok = One { integrity: sri, data: bad, chunk }.extract(c, &t, m);
        let mut done = ok;
        if !good {
            sym::check(!ok, "a tarball not matching its integrity is an error");
            sym::check(!t.exists(), "nothing of a tarball not matching its integrity is extracted");
            done = One { integrity, data, chunk }.extract(c, &t, m);
            sym::cover("bad");
        } else {
            sym::cover("good");
        }
        for (f, x) in [("package.json", "{}"), ("a", &text[..]), ("b", "z")] {
            done &= read(&t.join(f)) == x;
        }
        sym::check(done, "a tarball matching its integrity is extracted as it was packed");
    }
    h_tar_cache {
        // what is in the cache has been damaged since
        let dir: PathBuf = sym::fs_root();
        let cache = dir.join("c");
        std::fs::create_dir(&cache).expect("mkdir");
        let data = sym::tgz(&[file("package/package.json", 0o644, "{}"), file("package/a", 0o644, "x"), file("package/d/b", 0o644, "z")]);
        let integrity = Some(ssri::Integrity::from(&data[..]).to_string());
        let one = || One { integrity: integrity.clone(), data: data.clone(), chunk: 8192 };
        let m = mode();
        sym::check(one().extract(Some(&cache), &dir.join("t"), ExtractMode::Copy), "extracting succeeds");
        let damage = sym::choose(4);
        if damage == 3 {
            // an index some other version of orogene left there
            let key = format!("nassun::package::{}", integrity.as_deref().expect("integrity"));
            let opts = cacache::WriteOpts::new().integrity("xxh3-deadbeef".parse().expect("sri"));
            cacache::index::insert(&cache, &key, opts.raw_metadata(vec![1; sym::choose(3)])).expect("insert");
        }
        for (p, k) in snapshot(&cache) {
            if p.starts_with("content-v2/") && (k == "fx" || k == "fz" && sym::bool()) {
                let p = cache.join(p);
                match damage {
                    0 => std::fs::write(p, sym::string(0, 2, "xy")).expect("write"),
                    1 => std::fs::remove_file(p).expect("rm"),
                    _ => {}
                }
            }
        }
        if damage < 2 && sym::bool() {
            // and the registry has nothing but another tarball
            let other = sym::tgz(&[file("package/package.json", 0o644, "{}"), file("package/a", 0o644, "w"), file("package/d/b", 0o644, "z")]);
            let ok = One { integrity: integrity.clone(), data: other, chunk: 8192 }.extract(Some(&cache), &dir.join("e"), m);
            let e = dir.join("e");
            sym::check(!ok || read(&e.join("a")) == "x" && read(&e.join("d/b")) == "z", "a tarball not matching its integrity is an error");
            sym::check(read(&e.join("a")) != "w", "nothing of a tarball not matching its integrity is extracted");
            sym::cover("other");
        }
        sym::check(one().extract(Some(&cache), &dir.join("u"), m), "a damaged cache is no obstacle");
        let u = dir.join("u");
        sym::check(read(&u.join("a")) == "x" && read(&u.join("d/b")) == "z" && read(&u.join("package.json")) == "{}", "the extracted files are those of the tarball");
        sym::check(one().extract(Some(&cache), &dir.join("v"), mode()), "a damaged cache is no obstacle");
        let u = dir.join("v");
        sym::check(read(&u.join("a")) == "x" && read(&u.join("d/b")) == "z" && read(&u.join("package.json")) == "{}", "the extracted files are those of the tarball");
        sym::cover("done");
    }
}
