//! Lockfiles: what is written, what is read back, and what resolution does with them.
use crate::nm::*;
use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use node_maintainer::*;

fn same(a: &Lockfile, b: &Lockfile) -> bool {
    a.packages().len() == b.packages().len()
        && same_node(a.root(), b.root())
        && a.packages().iter().all(|(k, n)| b.packages().get(k).map_or(false, |m| n.resolved == m.resolved && same_node(n, m)))
}

fn same_node(n: &LockfileNode, m: &LockfileNode) -> bool {
    n.path == m.path
        && (n.version == m.version)
        && n.integrity == m.integrity
        && n.dependencies == m.dependencies
        && n.dev_dependencies == m.dev_dependencies
        && n.optional_dependencies == m.optional_dependencies
        && n.peer_dependencies == m.peer_dependencies
}

fn run(reg: &Reg, root: &Decl, lock: Option<&str>, locked: bool) -> Result<Lockfile, NodeMaintainerError> {
    let reg = Reg { pkgs: reg.pkgs.clone(), delay: reg.delay };
    let mut o = NodeMaintainerOptions::new().nassun(reg.nassun()).locked(locked);
    if let Some(l) = lock {
        o = o.kdl_lock(l)?;
    }
    block_on(o.resolve_manifest(root.manifest()))?.to_lockfile()
}

/// `n` at 1.0.0, and later also at 1.1.0 (which has no dependencies) and 2.0.0.
fn newer(p: &Pkg) -> Pkg {
    let mut p = p.clone();
    p.versions.push(ver(v("1.1.0"), vec![]));
    p.versions.push(ver(v("2.1.0"), vec![]));
    p.tags = vec![("latest".into(), v("2.1.0"))];
    p
}

/// Every dependency is found and every package is reached.
fn valid(l: &Lockfile) -> bool {
    l.packages().values().chain([l.root()]).all(|n| n.dependencies.keys().all(|d| lookup(l, &n.path, d).is_some())) && reached(l) == l.packages().len()
}

fn mismatch(e: &NodeMaintainerError) -> bool {
    matches!(e, NodeMaintainerError::LockfileMismatch)
}

fn lock_same((root, reg): (Vec<(String, String)>, Reg)) {
        // resolve, then publish newer versions of everything, then resolve again with the lockfile
        let root = Decl { prod: root, ..Default::default() };
        let first = match run(&reg, &root, None, false) { Ok(l) => l, Err(_) => { sym::check(false, "resolution succeeds"); return; } };
        let text = first.to_kdl().to_string();
        match Lockfile::from_kdl(text.as_str()) {
            Ok(l) => sym::check(same(&l, &first), "a written lockfile reads back as the same tree"),
            Err(_) => sym::check(false, "a written lockfile reads back"),
        }
        let reg2 = Reg { pkgs: reg.pkgs.iter().map(newer).collect(), delay: 0 };
        match run(&reg2, &root, Some(&text), sym::bool()) {
            Ok(l) => {
                sym::cover("done");
                sym::check(same(&l, &first), "resolving with an up-to-date lockfile gives the locked tree");
            }
            Err(e) => sym::check(false, if mismatch(&e) { "an up-to-date lockfile matches when locked" } else { "resolution with a lockfile succeeds" }),
        }
    }

/// A package-lock.json with these packages at these locations.
fn text(root: &[(String, String)], pkgs: &[(Vec<&str>, &Ver)]) -> String {
    let deps = |d: &[(String, String)]| {
        let d: Vec<String> = d
            .iter()
            .map(|(n, r)| format!("\"{n}\":\"{}\"", format!("{n}@{r}").parse::<nassun::PackageSpec>().expect("spec").requested()))
            .collect();
        format!("\"dependencies\":{{{}}}", d.join(","))
    };
    let mut s = format!("{{\"lockfileVersion\":1,\"packages\":{{\"\":{{{}}}", deps(root));
    for (path, ver) in pkgs {
        s.push_str(&format!(
            ",\"node_modules/{}\":{{\"version\":\"{}\",\"resolved\":\"{}\",{}}}",
            path.join("/node_modules/"),
            ver.version,
            tarball(path[path.len() - 1], &ver.version),
            deps(&ver.deps)
        ));
    }
    s.push_str("}}");
    s
}

crate::harnesses! {
    h_lock_tree {
        // any valid placement of packages: c may be nested in a, x may be anywhere
        let d = |n: &str| if sym::bool() { vec![(n.to_string(), "^1".to_string())] } else { vec![] };
        let one = |n: &str| vec![(n.to_string(), "^1".to_string())];
        let mut root = [one("a"), one("@s/b")].concat();
        root.extend(d("x"));
        let a = ver(v("1.0.0"), [one("c"), d("x")].concat());
        let b = ver(v("1.0.0"), [d("c"), d("x")].concat());
        let c = ver(v("1.0.0"), one("x"));
        let x = |p: &str| ver(v(p), vec![]);
        let xs = [x("1.0.0"), x("1.1.0"), x("1.2.0")];
        let mut pkgs: Vec<(Vec<&str>, &Ver)> = vec![(vec!["a"], &a), (vec!["@s/b"], &b)];
        let c_root = sym::bool();
        if c_root {
            pkgs.push((vec!["c"], &c));
        } else {
            pkgs.push((vec!["a", "c"], &c));
            if b.deps.iter().any(|d| d.0 == "c") {
                pkgs.push((vec!["@s/b", "c"], &c));
            }
        }
        let mut at = vec![vec!["x"], vec!["a", "x"], vec!["@s/b", "x"]];
        at.push(if c_root { vec!["c", "x"] } else { vec!["a", "c", "x"] });
        for p in at {
            let k = sym::choose(3);
            if k < 2 {
                pkgs.push((p, &xs[k]));
            }
        }
        let lock = text(&root, &pkgs);
        let locked = match Lockfile::from_npm(lock.as_str()) { Ok(l) => l, Err(_) => { sym::check(false, "a lockfile reads back"); return; } };
        sym::assume(valid(&locked));
        sym::cover("valid");
        let p = |n: &str, vs: Vec<Ver>| Pkg { name: n.into(), tags: vec![("latest".into(), vs[vs.len() - 1].version.clone())], versions: vs };
        let reg = Reg { pkgs: vec![p("a", vec![a.clone()]), p("@s/b", vec![b.clone()]), p("c", vec![c.clone()]), p("x", xs.to_vec())], delay: 0 };
        let root = Decl { prod: root, ..Default::default() };
        let o = NodeMaintainerOptions::new().nassun(reg.nassun()).locked(true).npm_lock(&lock);
        let o = match o { Ok(o) => o, Err(_) => { sym::check(false, "a lockfile reads back"); return; } };
        match block_on(o.resolve_manifest(root.manifest())).and_then(|m| m.to_lockfile()) {
            Ok(l) => sym::check(same(&l, &locked), "resolving with a lockfile gives the locked tree"),
            Err(e) => sym::check(false, if mismatch(&e) { "a valid lockfile matches when locked" } else { "resolution with a lockfile succeeds" }),
        }
    }
    h_lock_same {
        lock_same(world(&["a", "@s/b"], false));
    }
    h_lock_tag {
        // a dependency on a tag that has moved since
        let reg = Reg { pkgs: vec![two("a", vec![], vec![])], delay: 0 };
        lock_same((vec![("a".into(), "latest".into())], reg));
    }
    h_lock_same_deep {
        lock_same(world(&["a", "@s/b", "c"], false));
    }
    h_lock_race {
        lock_same(overlap(3));
    }
    h_lock_stale {
        // the lockfile is of another package.json
        let reg = Reg { pkgs: vec![two("a", deps(&["b"]), deps(&["b"])), two("b", vec![], vec![])], delay: 0 };
        let old = Decl { prod: deps(&["a", "b"]), ..Default::default() };
        let new = Decl { prod: deps(&["a", "b"]), ..Default::default() };
        let first = match run(&reg, &old, None, false) { Ok(l) => l, Err(_) => { sym::check(false, "resolution succeeds"); return; } };
        let text = first.to_kdl().to_string();
        let reg2 = Reg { pkgs: reg.pkgs.iter().map(newer).collect(), delay: 0 };
        let l = match run(&reg2, &new, Some(&text), false) { Ok(l) => l, Err(_) => { sym::check(false, "resolution with a lockfile succeeds"); return; } };
        tree_ok(&l, &reg2, &new);
        // every dependency the lockfile still satisfies stays as it was
        for (n, r) in &new.prod {
            if let Some(locked) = lookup(&first, &[], n) {
                let ver = locked.version.clone().expect("version");
                let range: node_semver::Range = r.parse().expect("range");
                if range.satisfies(&ver) {
                    let got = lookup(&l, &[], n).expect("installed");
                    sym::check(got.version == locked.version, "a locked version that still satisfies is kept");
                }
            }
        }
        match run(&reg2, &new, Some(&text), true) {
            Ok(m) => {
                sym::cover("matches");
                sym::check(same(&m, &first), "--locked succeeds only if the lockfile is the resolved tree");
            }
            Err(e) => {
                sym::cover("mismatch");
                sym::check(mismatch(&e), "--locked fails with a lockfile mismatch");
                sym::check(!same(&l, &first), "--locked fails only if the lockfile is not the resolved tree");
            }
        }
    }
    h_lock_npm {
        // any package-lock.json: one part of it is arbitrary text, or one optional part is missing
        let tok = || sym::string(1, 2, "a\"'\\ n/");
        let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
        let which = sym::choose(8);
        let dep_name = if which == 0 { tok() } else { "d".to_string() };
        let dep_spec = if which == 1 { tok() } else { "^1.0.0".to_string() };
        let resolved = match which {
            2 => Some(tok()),
            3 => None,
            _ => Some("https://r.example/a/-/a-1.0.0.tgz".to_string()),
        };
        let seg = if which == 4 { tok() } else { "b".to_string() };
        sym::assume(!seg.contains('/'));
        let version = which != 5;
        let integrity = which != 6;
        let kind = if which < 2 { 0 } else { sym::choose(4) };
        let sections = ["dependencies", "devDependencies", "optionalDependencies", "peerDependencies"];
        let nested = which == 7;
        // npm writes a package both as optional and as peer dependency, say, in both sections
        let also = if nested { sym::choose(4) } else { kind };
        let path: Vec<String> = if nested { vec!["@s/x".to_string(), seg] } else { vec![seg] };
        let mut key = String::new();
        for p in &path {
            if !key.is_empty() {
                key.push('/');
            }
            key.push_str("node_modules/");
            key.push_str(p);
        }
        let mut json = format!("{{\"name\":\"root\",\"lockfileVersion\":3,\"requires\":true,\"packages\":{{\"\":{{\"name\":\"root\",\"dependencies\":{{\"b\":\"*\"}}}},\"{}\":{{\"license\":\"MIT\",\"engines\":{{\"node\":\">=10\"}},\"dev\":true", esc(&key));
        if version {
            json.push_str(",\"version\":\"1.0.0\"");
        }
        if let Some(r) = &resolved {
            json.push_str(&format!(",\"resolved\":\"{}\"", esc(r)));
        }
        let sri = "sha512-MJ7MSJwS1utMxA9QyQLytNDtd+5RGnx6m808qG1M2G+YndNbxf9JlnDaNCVbRbDP2DDoH2Bdz33FVC6TrpzXbw==";
        if integrity {
            json.push_str(&format!(",\"integrity\":\"{sri}\""));
        }
        if also != kind {
            sym::cover("in two sections");
            json.push_str(&format!(",\"{}\":{{\"{}\":\"*\"}}", sections[also], esc(&dep_name)));
        }
        json.push_str(&format!(",\"{}\":{{\"{}\":\"{}\"}}}}}}}}", sections[kind], esc(&dep_name), esc(&dep_spec)));
        let l = match Lockfile::from_npm(&json) {
            Ok(l) => l,
            Err(_) => { sym::check(false, "a package-lock.json is read"); return; }
        };
        sym::cover("read");
        sym::check(l.root().dependencies.get("b").map(|s| s.as_str()) == Some("*"), "the root of a package-lock.json keeps its dependencies");
        sym::check(l.packages().len() == 1, "a package-lock.json's packages are all read");
        let n = match l.packages().values().next() { Some(n) => n, None => return };
        sym::check(n.path.iter().map(|s| s.to_string()).collect::<Vec<_>>() == path, "a package's location is kept");
        sym::check(n.name.to_string() == path[path.len() - 1], "a package's name is the last part of its location");
        sym::check(n.version == if version { Some(v("1.0.0")) } else { None }, "a package's version is kept");
        sym::check(n.resolved == resolved, "a package's resolution is kept");
        sym::check(n.integrity.as_ref().map(|i| i.to_string()) == if integrity { Some(sri.to_string()) } else { None }, "a package's integrity is kept");
        for (k, d) in [&n.dependencies, &n.dev_dependencies, &n.optional_dependencies, &n.peer_dependencies].into_iter().enumerate() {
            if k == kind {
                sym::check(d.len() == 1 && d.get(&dep_name) == Some(&dep_spec), "a package's dependencies are kept");
            } else if k == also {
                sym::check(d.len() == 1 && d.get(&dep_name).map(|s| s.as_str()) == Some("*"), "a package's dependencies are kept");
            } else {
                sym::check(d.is_empty(), "a package gets no dependencies it doesn't have");
            }
        }
        // and through orogene's own format
        let text = l.to_kdl().to_string();
        match Lockfile::from_kdl(text.as_str()) {
            Ok(m) => {
                sym::cover("kdl");
                sym::check(m.packages().len() == 1, "a written lockfile reads back as the same tree");
                for (a, b) in l.packages().values().zip(m.packages().values()) {
                    // (without a resolution there is nothing the integrity could be of)
                    let mut a = a.clone();
                    if a.resolved.is_none() {
                        a.integrity = None;
                    }
                    sym::check(same_node(&a, b) && a.name == b.name && b.resolved == a.resolved, "a written lockfile reads back as the same tree");
                    if a.resolved.is_none() {
                        sym::cover("unresolved");
                    }
                }
                sym::check(same_node(l.root(), m.root()), "a written lockfile reads back as the same tree");
            }
            Err(_) => sym::check(false, "a written lockfile reads back"),
        }
    }
}
