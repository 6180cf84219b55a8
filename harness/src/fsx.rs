use crate::nm::*;
use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use node_maintainer::*;
use std::collections::HashSet;
use std::path::{Path, PathBuf};

/// Everything below `dir` (not following links): path relative to `dir`, and `d`, `f<contents>` or `l<target>`.
pub fn snapshot(dir: &Path) -> Vec<(String, String)> {
    let mut out = Vec::new();
    snap(dir, "", &mut out);
    out.sort();
    out
}
fn snap(dir: &Path, rel: &str, out: &mut Vec<(String, String)>) {
    for e in std::fs::read_dir(dir).expect("read_dir") {
        let e = e.expect("entry");
        let name = e.file_name().into_string().expect("utf8");
        let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
        let t = e.file_type().expect("type");
        if t.is_symlink() {
            out.push((r, format!("l{}", std::fs::read_link(e.path()).expect("link").display())));
        } else if t.is_dir() {
            out.push((r.clone(), "d".to_string()));
            snap(&e.path(), &r, out);
        } else {
            out.push((r, format!("f{}", std::fs::read_to_string(e.path()).expect("read"))));
        }
    }
}

/// `oro apply` in `dir`, without running scripts, and with a lockfile if there is one; gives the lockfile it writes.
fn install(reg: &Reg, root: &[(String, String)], dir: &Path, hoisted: bool, lock: Option<&str>) -> Option<String> {
    let r = try_install(reg, root, dir, hoisted, lock);
    sym::check(r.is_some(), "installation succeeds");
    r
}
fn try_install(reg: &Reg, root: &[(String, String)], dir: &Path, hoisted: bool, lock: Option<&str>) -> Option<String> {
    let reg = Reg { pkgs: reg.pkgs.clone(), delay: reg.delay };
    let mut o = NodeMaintainerOptions::new().nassun(reg.nassun()).root(dir).hoisted(hoisted);
    if let Some(l) = lock {
        o = o.kdl_lock(l).expect("lockfile");
    }
    let m = block_on(o.resolve_manifest(manifest(root))).ok()?;
    match block_on(async {
        m.prune().await?;
        m.extract().await?;
        m.rebuild(true).await
    }) {
        Ok(_) => Some(m.to_lockfile().expect("lockfile").to_kdl().to_string()),
        Err(_) => {
            if sym::is_native() {
                // what was going on in other threads
                std::thread::sleep(std::time::Duration::from_millis(300));
            }
            None
        }
    }
}

/// Where Node finds `what` (below node_modules) from the package in the real directory `from`.
fn node_find(root: &Path, from: &Path, what: &str) -> Option<PathBuf> {
    std::fs::canonicalize(node_find_at(root, from, what)?).ok()
}
fn node_find_at(root: &Path, from: &Path, what: &str) -> Option<PathBuf> {
    let mut d = from.to_path_buf();
    loop {
        let p = d.join("node_modules").join(what);
        if p.exists() {
            return Some(p);
        }
        if d == root || !d.pop() {
            return None;
        }
    }
}

fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}

/// The installed package in `dir`, if it has the files of a version of `name`.
fn which<'a>(reg: &'a Reg, name: &str, dir: &Path) -> Option<&'a Ver> {
    let json = read(&dir.join("package.json"));
    let v = reg.pkg(name)?.versions.iter().find(|v| package_json(name, v) == json)?;
    for (f, d) in &v.files {
        if read(&dir.join(f)) != *d {
            return None;
        }
    }
    Some(v)
}

/// node_modules below `dir` is an installation of `root`.
pub fn disk_ok(reg: &Reg, root: &[(String, String)], dir: &Path, bins: bool) {
    let dir = std::fs::canonicalize(dir).expect("root");
    let mut seen: Vec<PathBuf> = vec![];
    let mut links: HashSet<PathBuf> = HashSet::new();
    let mut todo = vec![(dir.clone(), root.to_vec())];
    while let Some((at, deps)) = todo.pop() {
        for (n, r) in &deps {
            let p = match node_find(&dir, &at, n) {
                Some(p) => p,
                None => {
                    sym::check(false, "every dependency is on disk where its dependent finds it");
                    continue;
                }
            };
            let ver = match which(reg, n, &p) {
                Some(v) => v,
                None => {
                    sym::check(false, "the package found has the files of one of its versions");
                    continue;
                }
            };
            sym::check(r.parse::<node_semver::Range>().expect("range").satisfies(&ver.version), "the package found satisfies the request");
            if bins {
                for (b, f) in &ver.bins {
                    let want = p.join(f);
                    let got = node_find_at(&dir, &at, &format!(".bin/{b}"));
                    let ok = got.as_ref().map_or(false, |g| std::fs::canonicalize(g).ok() == Some(want));
                    sym::check(ok, "a dependency's executables are in the .bin its dependent finds");
                    links.extend(got);
                }
            }
            if !seen.contains(&p) {
                seen.push(p);
                todo.push((seen[seen.len() - 1].clone(), ver.deps.clone()));
            }
        }
    }
    let all = snapshot(&dir);
    let n = all.iter().filter(|(p, _)| p.ends_with("/package.json")).count();
    sym::check(n == seen.len(), "only packages something depends on are on disk");
    if bins {
        let n = all.iter().filter(|(p, _)| p.contains("/.bin/")).count();
        sym::check(n == links.len(), "only executables of dependencies are in .bin");
    }
}

/// The same files and links, whatever the empty directories.
fn same(x: &Path, y: &Path) {
    let f = |d: &Path| snapshot(d).into_iter().filter(|(_, k)| k != "d").collect::<Vec<_>>();
    sym::check(f(x) == f(y), "reinstalling gives what a fresh installation gives");
}

fn bin(mut v: Ver, name: &str, file: &str) -> Ver {
    v.json.push_str(&format!(",\"bin\":{{\"{name}\":\"{file}\"}}"));
    v.files.push((file.to_string(), "#!/bin/sh".to_string()));
    v.bins.push((name.to_string(), file.to_string()));
    v
}

crate::harnesses! {
    h_install {
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let root = deps(&["a", "b"]);
        let reg = Reg { pkgs: vec![
            two("a", deps(&["b"]), vec![]),
            two("b", vec![], vec![]),
        ], delay: 0 };
        install(&reg, &root, &dir, hoisted, None);
        for (p, k) in snapshot(&dir) {
            sym::observe(&p, &k);
        }
        sym::cover("done");
    }
    h_disk_tree {
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let (root, reg) = world(&["a", "@s/b", "c"], false);
        install(&reg, &root, &dir, hoisted, None);
        disk_ok(&reg, &root, &dir, false);
        sym::cover("done");
    }
    h_disk_bins {
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let mut root = deps(&["a", "@s/b"]);
        let mut a = two("a", deps(&["@s/b"]), vec![]);
        a.versions = a.versions.into_iter().map(|v| bin(v, "a", "cli.js")).collect();
        let mut b = two("@s/b", vec![], vec![]);
        let form = sym::choose(8);
        let (json, name, file) = [
            ("\"bin\":{\"tool\":\"./lib/run.js\"}", "tool", "lib/run.js"),
            ("\"bin\":\"lib/run.js\"", "b", "lib/run.js"),
            ("\"bin\":[\"lib/run.js\"]", "run.js", "lib/run.js"),
            ("\"bin\":{\"tool\":\"missing\"}", "", "lib/run.js"),
            ("\"directories\":{\"bin\":\"lib\"}", "run.js", "lib/run.js"),
            ("\"directories\":{\"bin\":\"./x/../lib/\"}", "run.js", "lib/run.js"),
            ("\"directories\":{\"bin\":\"missing\"}", "", "lib/run.js"),
            ("\"directories\":{\"bin\":\"../../../lib\"}", "run.js", "lib/run.js"),
        ][form];
        let mut c = two("c", vec![], vec![]);
        if form == 0 && sym::bool() {
            // one more dependent
            root.push(("c".to_string(), "^1".to_string()));
            c.versions[0].deps.push(("@s/b".to_string(), "^1".to_string()));
        }
        b.versions = b.versions.into_iter().map(|mut v| {
            v.json.push_str(&format!(",{json}"));
            v.files.push((file.to_string(), "#!/bin/sh".to_string()));
            if !name.is_empty() {
                v.bins.push((name.to_string(), file.to_string()));
            }
            v
        }).collect();
        let reg = Reg { pkgs: vec![a, b, c], delay: 0 };
        install(&reg, &root, &dir, hoisted, None);
        disk_ok(&reg, &root, &dir, true);
        sym::cover("done");
    }
    h_disk_again {
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let reg = {
            let mut a = two("a", deps(&["@s/b"]), vec![]);
            a.versions = a.versions.into_iter().map(|v| bin(v, "a", "cli.js")).collect();
            Reg { pkgs: vec![a, two("@s/b", vec![], vec![])], delay: 0 }
        };
        let old = deps(&["a", "@s/b"]);
        let new = deps(&["a", "@s/b"]);
        std::fs::create_dir(dir.join("x")).expect("mkdir");
        std::fs::create_dir(dir.join("y")).expect("mkdir");
        install(&reg, &old, &dir.join("x"), hoisted, None);
        let l = install(&reg, &new, &dir.join("x"), hoisted, None);
        install(&reg, &new, &dir.join("y"), hoisted, l.as_deref());
        disk_ok(&reg, &new, &dir.join("y"), true);
        disk_ok(&reg, &new, &dir.join("x"), true);
        same(&dir.join("x"), &dir.join("y"));
        sym::cover("done");
    }
    // a dependency under one name on one package and then on another, of the same version, as a lockfile says
    h_disk_swap {
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let reg = {
            let mut a = two("a", vec![], vec![]);
            a.versions = a.versions.into_iter().map(|v| bin(v, "a", "cli.js")).collect();
            Reg { pkgs: vec![a, two("b", vec![], vec![]), two("@s/c", vec![], vec![]), two("d", vec![("b".to_string(), "npm:a@^1".to_string())], vec![("b".to_string(), "npm:@s/c@^1".to_string())])], delay: 0 }
        };
        let kinds = ["^1", "npm:a@^1", "npm:@s/c@^1"];
        let root = |k: usize, d: usize| {
            let mut r = vec![];
            if k > 0 { r.push(("b".to_string(), kinds[k - 1].to_string())) }
            if d > 0 { r.push(("d".to_string(), ["^1", "^2"][d - 1].to_string())) }
            r
        };
        let d = sym::choose(3);
        let e = sym::choose(3);
        // (not with two packages of one name: see G02)
        let pick = |d: usize| if d == 0 { sym::choose(4) } else { 0 };
        let (k, l) = (pick(d), pick(e));
        std::fs::create_dir(dir.join("x")).expect("mkdir");
        std::fs::create_dir(dir.join("y")).expect("mkdir");
        install(&reg, &root(k, d), &dir.join("x"), hoisted, None);
        let lock = install(&reg, &root(l, e), &dir.join("y"), hoisted, None);
        install(&reg, &root(l, e), &dir.join("x"), hoisted, lock.as_deref());
        let want = if l > 0 { Some(["b", "a", "@s/c"][l - 1]) } else if e > 0 { Some(["a", "@s/c"][e - 1]) } else { None };
        for x in ["x", "y"] {
            let x = std::fs::canonicalize(dir.join(x)).expect("dir");
            let from = if e > 0 { node_find(&x, &x, "d").unwrap_or_else(|| x.clone()) } else { x.clone() };
            match (want, node_find(&x, &from, "b")) {
                (Some(n), Some(p)) => sym::check(which(&reg, n, &p).map_or(false, |v| v.version.major == 1), "the package found is the one asked for"),
                (Some(_), None) => sym::check(false, "every dependency is on disk where its dependent finds it"),
                (None, p) => sym::check(p.is_none(), "only packages something depends on are on disk"),
            }
        }
        same(&dir.join("x"), &dir.join("y"));
        sym::cover("done");
    }
    // the same, without a lockfile
    h_disk_swap_alias {
        let dir: PathBuf = sym::fs_root();
        let reg = Reg { pkgs: vec![two("a", vec![], vec![]), two("b", vec![], vec![])], delay: 0 };
        let root = |r: &str| vec![("b".to_string(), r.to_string())];
        install(&reg, &root("npm:a@^1"), &dir, sym::choose(2) == 1, None);
        install(&reg, &root("^1"), &dir, true, None);
        sym::check(which(&reg, "b", &dir.join("node_modules/b")).is_some(), "the package found is the one asked for");
    }
    // a dependency by any name
    h_disk_name {
        let top: PathBuf = sym::fs_root();
        let dir = top.join("p");
        std::fs::create_dir(&dir).expect("mkdir");
        for f in ["keep", "p/keep"] {
            std::fs::write(top.join(f), f).expect("write");
        }
        let hoisted = sym::choose(2) == 1;
        let mut name = sym::pick(&["", "@", "@s/", "x/", "../"]).to_string();
        name.push_str(&sym::string(1, 3, "b@/."));
        sym::observe("name", &name);
        let mut root = vec![("a".to_string(), "^1".to_string())];
        let mut a = two("a", vec![], vec![]);
        let odd = (name.clone(), sym::pick(&["npm:c@^1", "file:../p"]).to_string());
        if sym::bool() {
            root.push(odd);
        } else {
            a.versions[0].deps.push(odd);
        }
        a.versions.truncate(1);
        let reg = Reg { pkgs: vec![a, two("c", vec![], vec![])], delay: 0 };
        let done = try_install(&reg, &root, &dir, hoisted, None).is_some();
        let mut here = false;
        let mut tail = String::from("node_modules/");
        tail.push_str(&name);
        for (p, k) in snapshot(&top) {
            if p == "keep" || p == "p/keep" {
                sym::check(k[1..] == *p, "files of others are left alone");
            } else if p != "p" {
                sym::check(p == "p/node_modules" || p.starts_with("p/node_modules/"), "installing writes to node_modules only");
            }
            if let Some(at) = p.strip_suffix("/package.json") {
                if k.starts_with('f') {
                    let a = at.ends_with("/node_modules/a");
                    let n = at.ends_with(&tail);
                    here |= n;
                    sym::check(a || n, "packages are in directories of their names");
                }
            } else if done {
                here |= k.starts_with('l') && p.ends_with(&tail);
            }
        }
        if done {
            sym::check(here, "what was asked for is installed by the name given");
            sym::cover("done");
        } else {
            sym::cover("refused");
        }
    }
    // node_modules as others may leave it: with links to what is elsewhere
    h_disk_links {
        let top: PathBuf = sym::fs_root();
        let dir = top.join("p");
        let other = top.join("q");
        std::fs::create_dir(&dir).expect("mkdir");
        std::fs::create_dir_all(other.join("lib")).expect("mkdir");
        let json = "{\"name\":\"a\",\"version\":\"1.0.0\"}";
        for (f, t) in [("package.json", json), ("cli.js", "q"), ("lib/x", "x")] {
            std::fs::write(other.join(f), t).expect("write");
        }
        std::fs::write(top.join("keep"), "keep").expect("write");
        let hoisted = sym::choose(2) == 1;
        let p = |n: &str, d: Vec<(String, String)>, k: usize| {
            let mut p = two(n, d, vec![]);
            p.versions.truncate(k);
            p
        };
        let mut a = p("a", vec![("b".to_string(), "^1".to_string())], 1);
        a.versions = a.versions.into_iter().map(|v| bin(v, "a", "cli.js")).collect();
        let reg = Reg { pkgs: vec![a, p("b", vec![], 2), p("@s/c", vec![], 1)], delay: 0 };
        let again = sym::bool();
        if again {
            let mut had = vec![("a".to_string(), "^1".to_string())];
            had.push(if sym::bool() { ("b".to_string(), "^2".to_string()) } else { ("@s/c".to_string(), "^1".to_string()) });
            install(&reg, &had, &dir, hoisted, None);
        }
        let nm = dir.join("node_modules");
        let (at, to) = [
            ("a", "../../q"), ("@s/c", "../../../q"), ("@s", "../../q"), ("z", "../../q"), ("z", "../../keep"), ("@t/z", "../../../q/lib"), (".bin", "../../q"),
            (".oro-store", "../../q"), ("b/node_modules", "../../../q"), ("a/node_modules", "../../../q/lib"), (".bin/a", "../../../q/cli.js"),
        ][sym::choose(11)];
        let at = nm.join(at);
        std::fs::create_dir_all(at.parent().expect("parent")).expect("mkdir");
        if at.symlink_metadata().is_ok() {
            if at.symlink_metadata().map_or(false, |m| m.is_dir()) {
                std::fs::remove_dir_all(&at).expect("remove");
            } else {
                std::fs::remove_file(&at).expect("remove");
            }
        }
        std::os::unix::fs::symlink(to, &at).expect("link");
        let before: Vec<_> = snapshot(&top).into_iter().filter(|(p, _)| !p.starts_with("p/")).collect();
        let mut root = vec![("a".to_string(), "^1".to_string())];
        root.push(("b".to_string(), sym::pick(&["^1", "^2"]).to_string()));
        if sym::bool() { root.push(("@s/c".to_string(), "^1".to_string())) }
        let ok = try_install(&reg, &root, &dir, hoisted, None).is_some();
        let after: Vec<_> = snapshot(&top).into_iter().filter(|(p, _)| !p.starts_with("p/")).collect();
        sym::observe("after", &after.iter().map(|(p, _)| p.as_str()).collect::<Vec<_>>().join(" "));
        sym::check(before == after, "installing writes to node_modules only");
        if !again { sym::check(ok, "installation succeeds") }
        if ok { sym::cover("done") }
    }
    h_disk_scope {
        // packages sharing a scope come and go
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let one = |n: &[&str]| n.iter().filter(|_| sym::bool()).map(|n| (n.to_string(), "^1".to_string())).collect::<Vec<_>>();
        let reg = Reg { pkgs: vec![two("@s/a", one(&["@s/b", "c"]), vec![]), two("@s/b", vec![], vec![]), two("c", vec![], vec![])], delay: 0 };
        let x = dir.join("x");
        std::fs::create_dir(&x).expect("mkdir");
        for _ in 0..2 {
            let root = one(&["@s/a", "@s/b"]);
            install(&reg, &root, &x, hoisted, None);
            disk_ok(&reg, &root, &x, true);
        }
        sym::cover("done");
    }
    h_disk_switch {
        // over the other linker's installation, or over anything else
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let a = |v: Ver| bin(v, "a", "cli.js");
        let mut p = two("a", deps(&["b"]), vec![]);
        p.versions = p.versions.into_iter().map(a).collect();
        let reg = Reg { pkgs: vec![p, two("b", vec![], vec![])], delay: 0 };
        let root = deps(&["a", "b"]);
        let nm = dir.join("x/node_modules");
        std::fs::create_dir_all(&nm).expect("mkdir");
        std::fs::create_dir(dir.join("y")).expect("mkdir");
        match sym::choose(6) {
            0 => {
                install(&reg, &deps(&["a", "b"]), &dir.join("x"), !hoisted, None);
            }
            1 => std::fs::create_dir_all(nm.join("a/node_modules/b")).expect("mkdir"),
            2 => std::fs::write(nm.join("b"), "x").expect("write"),
            3 => {
                std::fs::create_dir(nm.join(".bin")).expect("mkdir");
                std::fs::write(nm.join(".bin/a"), "x").expect("write");
            }
            4 => std::os::unix::fs::symlink(sym::pick(&["../y", "nothing"]), nm.join("a")).expect("link"),
            _ => std::fs::write(nm.join(".orogene-meta.kdl"), sym::pick(&["", "pkg {", "lockfile-version 1"])).expect("write"),
        }
        let l = install(&reg, &root, &dir.join("x"), hoisted, None);
        disk_ok(&reg, &root, &dir.join("x"), true);
        install(&reg, &root, &dir.join("y"), hoisted, l.as_deref());
        same(&dir.join("x"), &dir.join("y"));
        sym::cover("done");
    }
    h_disk_stuck {
        // an installation that can't remove or replace something, and then one that can
        use std::os::unix::fs::PermissionsExt;
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let reg = Reg { pkgs: vec![two("@s/a", vec![], vec![]), two("b", vec![], vec![])], delay: 0 };
        let x = dir.join("x");
        std::fs::create_dir(&x).expect("mkdir");
        let one = |r: &str| {
            let mut d = vec![("@s/a".to_string(), r.to_string())];
            d.extend(deps(&["b"]));
            d
        };
        let good = one("^1");
        install(&reg, &good, &x, if sym::bool() { hoisted } else { !hoisted }, None);
        let nm = x.join("node_modules");
        let mut stuck = vec![];
        for p in ["", "@s", "@s/a", "b", ".bin", ".oro-store"] {
            let p = nm.join(p);
            if p.symlink_metadata().map_or(false, |m| m.is_dir()) {
                stuck.push(p);
            }
        }
        let n = sym::choose(stuck.len());
        let stuck = stuck.swap_remove(n);
        std::fs::set_permissions(&stuck, std::fs::Permissions::from_mode(0o555)).expect("chmod");
        try_install(&reg, &one("^2"), &x, hoisted, None);
        if stuck.exists() {
            std::fs::set_permissions(&stuck, std::fs::Permissions::from_mode(0o755)).expect("chmod");
        }
        let l = install(&reg, &good, &x, hoisted, None);
        disk_ok(&reg, &good, &x, true);
        let y = dir.join("y");
        std::fs::create_dir(&y).expect("mkdir");
        install(&reg, &good, &y, hoisted, l.as_deref());
        same(&x, &y);
        sym::cover("done");
    }
    h_disk_fault {
        // an installation that fails half-way, and then one that doesn't
        let dir: PathBuf = sym::fs_root();
        let hoisted = sym::choose(2) == 1;
        let mut a = two("a", deps(&["b"]), vec![]);
        // a tarball that can't be extracted completely
        let broken = vec![("x".to_string(), "1".to_string()), ("x/y".to_string(), "2".to_string())];
        // either the one of another version, or of the right one until it's repaired
        let other = sym::bool();
        if other {
            a.versions[1].files = broken.clone();
        }
        let reg = Reg { pkgs: vec![a, two("b", vec![], vec![])], delay: 0 };
        let x = dir.join("x");
        std::fs::create_dir(&x).expect("mkdir");
        let one = |r: &str| vec![("a".to_string(), r.to_string())];
        let mut bad = one(if other { "^2" } else { "^1" });
        bad.extend(deps(&["b"]));
        if other && sym::bool() {
            install(&reg, &one("^1"), &x, hoisted, None);
        }
        let mut broken_reg = Reg { pkgs: reg.pkgs.clone(), delay: 0 };
        if !other {
            broken_reg.pkgs[0].versions[0].files = broken;
        }
        let r = try_install(&broken_reg, &bad, &x, hoisted, None);
        sym::check(r.is_none(), "an incomplete installation is reported");
        let mut good = one("^1");
        good.extend(deps(&["b"]));
        let l = install(&reg, &good, &x, hoisted, None);
        disk_ok(&reg, &good, &x, true);
        let y = dir.join("y");
        std::fs::create_dir(&y).expect("mkdir");
        install(&reg, &good, &y, hoisted, l.as_deref());
        same(&x, &y);
        sym::cover("done");
    }
}
