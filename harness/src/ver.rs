//! Version resolution: which published version a registry specifier gets.
use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use nassun::{Nassun, NassunError, Package, PackageResolution};
use node_semver::{Identifier, Range, Version};
use std::path::PathBuf;
use std::sync::Arc;

fn digit(set: &str) -> u64 {
    (sym::byte_in(set) - b'0') as u64
}

fn sver(major: &str, minor: &str, patch: &str, pre: bool) -> Version {
    Version {
        major: digit(major),
        minor: digit(minor),
        patch: digit(patch),
        build: vec![],
        pre_release: if pre && sym::bool() { vec![Identifier::Numeric(digit("01"))] } else { vec![] },
    }
}

fn distinct(vs: &[Version], x: &Version) {
    for y in vs {
        sym::assume(x != y);
    }
}

fn reg(vs: &[Version], tags: Vec<(String, Version)>) -> Reg {
    Reg { pkgs: vec![Pkg { name: "a".into(), versions: vs.iter().map(|v| ver(v.clone(), vec![])).collect(), tags }], delay: 0 }
}

fn nassun(r: Reg, tag: &str) -> Nassun {
    Nassun::with_fetcher(Arc::new(r), PathBuf::from("."), None, tag.to_string())
}

/// The tag `t`: missing, on a published version or on an unpublished one.
fn tag(vs: &[Version], unpublished: bool) -> Option<Version> {
    let k = sym::choose(vs.len() + 1 + unpublished as usize);
    if k < vs.len() {
        Some(vs[k].clone())
    } else if k == vs.len() {
        None
    } else {
        Some(v("9.9.9"))
    }
}

fn tags(l: &Option<Version>, n: &Option<Version>) -> Vec<(String, Version)> {
    let mut t = vec![];
    if let Some(x) = l {
        t.push(("latest".to_string(), x.clone()));
    }
    if let Some(x) = n {
        t.push(("next".to_string(), x.clone()));
    }
    t
}

fn decide(got: Result<Package, NassunError>, want: Option<Version>) {
    match (got, want) {
        (Ok(p), Some(w)) => {
            sym::cover("ok");
            sym::check(p.name() == "a", "the resolved package has the name asked for");
            match p.resolved() {
                PackageResolution::Npm { name, version, tarball: t, .. } => {
                    sym::check(name == "a", "the resolved package has the name asked for");
                    sym::check(*version == w, "the version is the one the specifier means");
                    sym::check(t.as_str() == tarball("a", &w), "the tarball is that of the resolved version");
                }
                _ => sym::check(false, "a registry specifier resolves to a registry package"),
            }
        }
        (Ok(_), None) => sym::check(false, "a specifier no published version fits is an error"),
        (Err(_), Some(_)) => sym::check(false, "a specifier a published version fits resolves"),
        (Err(e), None) => {
            sym::cover("none");
            sym::check(matches!(e, NassunError::NoVersion { .. }), "the error says there is no such version");
        }
    }
}

fn range_case(vs: Vec<Version>, r: &str, def: Option<Version>) {
    let range: Range = r.parse().expect("range");
    let mut want = None;
    if let Some(d) = &def {
        if vs.contains(d) && range.satisfies(d) {
            want = Some(d.clone());
        }
    }
    if want.is_none() {
        for x in &vs {
            if range.satisfies(x) && want.as_ref().map_or(true, |w| x > w) {
                want = Some(x.clone());
            }
        }
        if want.is_none() && r == "*" {
            want = def.clone().filter(|d| vs.contains(d));
        }
    }
    let rg = reg(&vs, tags(&def, &None));
    decide(block_on(nassun(rg, "latest").resolve(format!("a@{r}"))), want);
}

fn range_body(n: usize, pre: bool, ranges: &[&str]) {
    let mut vs: Vec<Version> = Vec::new();
    for _ in 0..n {
        let x = sver("012", if pre { "1" } else { "012" }, "01", pre);
        distinct(&vs, &x);
        vs.push(x);
    }
    let def = tag(&vs, true);
    range_case(vs, sym::pick(ranges), def);
}

const HEX: &str = "2aae6c35c94fcfb415dbe95f408b9ce91ee846ed"; // sha1 of "hello world"

crate::harnesses! {
    h_ver_range {
        let n = 1 + sym::choose(2);
        range_body(n, false, &["^1.0.0", "~1.1.0", ">=1.1.0", "*", "<2"]);
    }
    h_ver_range3 {
        range_body(3, false, &["^1.0.0", ">=1.1.0", "1.x || 0.1.0"]);
    }
    h_ver_pre {
        let n = 1 + sym::choose(2);
        range_body(n, true, &["^1.1.0", ">=1.1.0-1 <2", "*", ">=0.1.0 <=1.1.0-1", "0.x || 1.1.0-0 || >2"]);
    }
    h_ver_pre3 {
        range_body(3, true, &["^1.1.0", ">=1.1.0-1 <2", "*"]);
    }
    h_ver_exact {
        let mut vs: Vec<Version> = Vec::new();
        for _ in 0..1 + sym::choose(2) {
            let x = sver("12", "01", "0", true);
            distinct(&vs, &x);
            vs.push(x);
        }
        let kind = sym::choose(5);
        let latest = if kind == 4 { Some(vs[0].clone()) } else { tag(&vs, true) };
        let next = if kind == 4 { None } else { tag(&vs, true) };
        let dflt = sym::pick(&["latest", "next"]);
        let published = |t: &Option<Version>| t.clone().filter(|t| vs.contains(t));
        let (spec, want) = match kind {
            0 => ("a".to_string(), published(if dflt == "next" { &next } else { &latest })),
            1 => ("a@latest".to_string(), published(&latest)),
            2 => ("a@next".to_string(), published(&next)),
            3 => ("a@nope".to_string(), None),
            _ => {
                let w = sver("12", "01", "0", true);
                (format!("a@{w}"), Some(w).filter(|w| vs.contains(w)))
            }
        };
        let rg = reg(&vs, tags(&latest, &next));
        decide(block_on(nassun(rg, dflt).resolve(spec)), want);
    }
    h_ver_integrity {
        let mut x = ver(v("1.0.0"), vec![]);
        let mut y = ver(v("2.0.0"), vec![]);
        let sha512 = "sha512-MJ7MSJwS1utMxA9QyQLytNDtd+5RGnx6m808qG1M2G+YndNbxf9JlnDaNCVbRbDP2DDoH2Bdz33FVC6TrpzXbw==";
        let sri = sym::bool();
        let sum = sym::bool();
        if sri {
            x.integrity = Some(sha512.to_string());
        }
        // a sum whose first digits are anything
        let mut hex = String::new();
        hex.push(sym::byte_in("0123456789abcdef") as char);
        hex.push(sym::byte_in("0123456789abcdef") as char);
        hex.push_str(&HEX[2..]);
        if sum {
            x.shasum = Some(hex.clone());
        }
        y.shasum = Some("00".repeat(20));
        y.integrity = Some("sha1-AAAAAAAAAAAAAAAAAAAAAAAAAAA=".to_string());
        let rg = Reg { pkgs: vec![Pkg { name: "a".into(), versions: vec![x, y], tags: vec![("latest".into(), v("2.0.0"))] }], delay: 0 };
        let p = block_on(nassun(rg, "latest").resolve("a@1.0.0"));
        let p = match p { Ok(p) => p, Err(_) => { sym::check(false, "a published version resolves"); return; } };
        let got = p.resolved().integrity();
        if sri {
            sym::cover("sri");
            sym::check(got.map(|i| i.to_string()) == Some(sha512.to_string()), "the published integrity is carried");
        } else if sum {
            sym::cover("shasum");
            match got {
                Some(i) => {
                    let (a, h) = i.to_hex();
                    sym::check(a == ssri::Algorithm::Sha1 && h == hex, "a shasum is the sha1 of the tarball, in hex");
                }
                None => sym::check(false, "a shasum is carried"),
            }
        } else {
            sym::cover("neither");
            sym::check(got.is_none(), "no integrity is made up");
        }
    }
}
