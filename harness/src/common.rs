use crate::sym;
use oro_common::*;
use std::collections::HashMap;
use std::path::{Component, PathBuf};

fn plain(p: &std::path::Path) -> bool {
    p.components().all(|c| matches!(c, Component::Normal(_)))
}

/// What `name` is normalised to: the last component, with `\` and `:` counting as separators.
fn base(name: &str) -> Option<String> {
    let last = |s: &str| -> Option<String> {
        let l: Vec<&str> = s.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        match l.last() {
            Some(l) if *l != ".." => Some(l.to_string()),
            _ => None,
        }
    };
    let a = last(name)?;
    last(&a.replace('\\', "/").replace(':', "/"))
}

/// `bin` taken as rooted at the package: `.` dropped and `..` resolved without leaving it.
fn target(bin: &str) -> Option<PathBuf> {
    let mut out: Vec<&str> = Vec::new();
    for c in bin.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(PathBuf::from(out.join("/")))
    }
}

fn bins_ok(b: &BuildManifest) {
    for (n, t) in &b.bin {
        sym::check(!n.is_empty() && !n.contains('/') && !n.contains('\\') && n != "." && n != "..", "bin name is a plain file name");
        sym::check(plain(t) && t.components().count() > 0, "bin target stays inside the package");
    }
}

fn bins(nlen: usize, tlen: usize) {
    let form = sym::choose(3);
    let mut m = Manifest::default();
    let name = sym::string(1, nlen, "a./\\:@");
    let tgt = sym::string(0, tlen, "b./c");
    let want = match form {
        0 => {
            let mut h = HashMap::new();
            h.insert(name.clone(), PathBuf::from(tgt.clone()));
            m.bin = Some(Bin::Hash(h));
            base(&name)
        }
        1 => {
            m.name = Some(name.clone());
            m.bin = Some(Bin::Str(tgt.clone()));
            base(&name)
        }
        _ => {
            m.bin = Some(Bin::Array(vec![PathBuf::from(tgt.clone())]));
            base(&tgt)
        }
    };
    match BuildManifest::from_manifest(&m) {
        Ok(b) => {
            sym::cover("ok");
            bins_ok(&b);
            for (n, t) in &b.bin {
                sym::observe("n", n);
                sym::observe("t", &t.to_string_lossy());
            }
            match (want, target(&tgt)) {
                (Some(n), Some(t)) => {
                    sym::cover("kept");
                    sym::check(b.bin.len() == 1, "a usable bin is kept");
                    sym::check(b.bin.get(&n).map(|x| x.as_path() == t.as_path()) == Some(true), "bin maps its base name to the target written");
                }
                _ => {
                    sym::cover("dropped");
                    sym::check(b.bin.is_empty(), "an unusable bin is dropped");
                }
            }
        }
        Err(_) => {
            sym::cover("err");
            sym::check(form == 2 && base(&tgt).is_none(), "only an array entry without a file name is an error");
        }
    }
}

/// Several entries: each usable one is kept.
fn bins_multi() {
    let a = sym::string(1, 2, "a./");
    let b = sym::string(1, 2, "b./");
    let mut m = Manifest::default();
    let (na, nb);
    if sym::bool() {
        let mut h = HashMap::new();
        h.insert(a.clone(), PathBuf::from("x.js"));
        h.insert(b.clone(), PathBuf::from("./y/../y.js"));
        m.bin = Some(Bin::Hash(h));
        (na, nb) = (base(&a), base(&b));
    } else {
        sym::assume(base(&a).is_some() && base(&b).is_some());
        m.bin = Some(Bin::Array(vec![PathBuf::from(a.clone()), PathBuf::from(b.clone())]));
        (na, nb) = (base(&a), base(&b));
    }
    m.name = Some("n".into());
    m.scripts.insert("postinstall".into(), a.clone());
    sym::assume(na != nb || na.is_none());
    match BuildManifest::from_manifest(&m) {
        Ok(o) => {
            sym::cover("ok");
            bins_ok(&o);
            sym::check(o.bin.len() == na.is_some() as usize + nb.is_some() as usize, "every usable entry is kept, and nothing else");
            for n in [na, nb].into_iter().flatten() {
                sym::check(o.bin.contains_key(&n), "entry is kept under its base name");
            }
            sym::check(o.scripts.len() == 1 && o.scripts.get("postinstall") == Some(&a), "scripts are kept");
        }
        Err(_) => sym::check(false, "normalising succeeds"),
    }
}

fn ostr(n: usize) -> Option<String> {
    if sym::bool() { Some(sym::string(n, n, "ab")) } else { None }
}

fn deps(s: &str) -> indexmap::IndexMap<String, String> {
    let mut m = indexmap::IndexMap::new();
    for _ in 0..sym::choose(3) {
        m.insert(sym::string(1, 1, s), sym::string(1, 1, "12"));
    }
    m
}

fn corgi_manifest() -> CorgiManifest {
    let mut m = CorgiManifest::default();
    m.name = ostr(1);
    m.version = if sym::bool() { Some("1.2.3".parse().unwrap()) } else { None };
    match sym::choose(5) {
        0 => m.dependencies = deps("ab"),
        1 => m.dev_dependencies = deps("ab"),
        2 => m.optional_dependencies = deps("ab"),
        3 => m.peer_dependencies = deps("ab"),
        _ => m.bundled_dependencies = match sym::choose(3) {
            0 => Some(BundledDependencies::All(sym::bool())),
            1 => Some(BundledDependencies::Some(vec![sym::string(1, 1, "ab")])),
            _ => None,
        },
    }
    m
}

fn corgi_meta() -> CorgiVersionMetadata {
    let mut m = CorgiVersionMetadata::default();
    m.manifest = corgi_manifest();
    match sym::choose(4) {
        0 => {
            m.dist.shasum = ostr(2);
            m.dist.integrity = ostr(2);
            m.dist.npm_signature = ostr(2);
        }
        1 => m.dist.tarball = Some("https://r.x/a".parse().unwrap()),
        2 => m.has_shrinkwrap = if sym::bool() { Some(sym::bool()) } else { None },
        _ => m.deprecated = match sym::choose(3) {
            0 => None,
            1 => Some(DeprecationInfo::UnknownReason),
            _ => Some(DeprecationInfo::Reason(sym::string(0, 1, "ab"))),
        },
    }
    m
}

crate::harnesses! {
    h_bins { bins(3, 4) }
    h_bins_deep { bins(4, 5) }
    h_bins_multi { bins_multi() }
    h_meta {
        let c = corgi_meta();
        let full: VersionMetadata = c.clone().into();
        sym::check(full.deprecated == c.deprecated, "deprecation survives");
        sym::check(full.manifest.dependencies == c.manifest.dependencies && full.manifest.optional_dependencies == c.manifest.optional_dependencies, "dependencies survive");
        let back: CorgiVersionMetadata = full.into();
        sym::check(back == c, "short metadata survives conversion to full metadata and back");
        sym::cover("done");
    }
    h_packument {
        let mut p = CorgiPackument::default();
        let v: node_semver::Version = "1.0.0".parse().unwrap();
        let w: node_semver::Version = "2.0.0".parse().unwrap();
        let mut m = CorgiVersionMetadata::default();
        m.manifest.name = ostr(1);
        m.has_shrinkwrap = if sym::bool() { Some(sym::bool()) } else { None };
        m.dist.integrity = ostr(1);
        if sym::bool() { p.versions.insert(v.clone(), m.clone()); }
        if sym::bool() { p.versions.insert(w.clone(), m); }
        if sym::bool() { p.tags.insert(sym::string(1, 1, "ab"), v); }
        if sym::bool() { p.tags.insert("latest".into(), w); }
        let full: Packument = p.clone().into();
        sym::check(full.tags == p.tags && full.versions.len() == p.versions.len(), "tags and versions survive");
        let back: CorgiPackument = full.into();
        sym::check(back == p, "short packument survives conversion to a full packument and back");
        sym::cover("done");
    }
}
