use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use indexmap::IndexMap;
use nassun::client::VersionSpec;
use nassun::PackageSpec;
use node_maintainer::*;
use node_semver::{Range, Version};
use oro_common::CorgiManifest;
use unicase::UniCase;

fn digit(set: &str) -> u64 {
    (sym::byte_in(set) - b'0') as u64
}

fn sver() -> Version {
    Version { major: digit("0123"), minor: digit("012"), patch: digit("01"), build: vec![], pre_release: vec![] }
}

/// Node's lookup of `name` from the package installed at `path`.
pub fn lookup<'a>(l: &'a Lockfile, path: &[UniCase<String>], name: &str) -> Option<&'a LockfileNode> {
    let mut p: Vec<String> = path.iter().map(|s| s.to_string()).collect();
    loop {
        p.push(name.to_string());
        let key = UniCase::new(p.join("/node_modules/"));
        if let Some(n) = l.packages().get(&key) {
            return Some(n);
        }
        p.pop();
        if p.is_empty() {
            return None;
        }
        p.pop();
    }
}

/// The package a node was resolved to, from its tarball URL.
fn pkg_of(n: &LockfileNode) -> String {
    let r = n.resolved.clone().unwrap_or_default();
    r.strip_prefix("https://r.example/").and_then(|r| r.split_once("/-/")).map(|x| x.0.to_string()).unwrap_or_default()
}

fn dep_ok(l: &Lockfile, path: &[UniCase<String>], name: &str, req: &str) {
    let got = match lookup(l, path, name) {
        Some(g) => g,
        None => {
            sym::check(false, "every dependency is installed where its dependent finds it");
            return;
        }
    };
    let spec: PackageSpec = format!("{name}@{req}").parse().expect("spec");
    match spec.target() {
        PackageSpec::Npm { name: n, requested, .. } => {
            sym::check(pkg_of(got) == *n, "the dependency found is the package asked for");
            let v = got.version.clone().expect("version");
            match requested {
                Some(VersionSpec::Range(r)) => sym::check(r.satisfies(&v), "the dependency found satisfies the request"),
                Some(VersionSpec::Version(w)) => sym::check(*w == v, "the dependency found is the version asked for"),
                _ => {}
            }
        }
        _ => {}
    }
}

fn same_req(name: &str, a: &str, b: &str) -> bool {
    let p = |r: &str| format!("{name}@{r}").parse::<PackageSpec>().ok();
    a == b || (p(a).is_some() && p(a) == p(b))
}

fn section(declared: &[(String, String)], recorded: &IndexMap<String, String>) {
    sym::check(declared.len() == recorded.len(), "a package's recorded dependencies are its declared ones");
    for (n, r) in declared {
        sym::check(recorded.get(n).map_or(false, |x| same_req(n, x, r)), "a package's recorded dependencies are its declared ones");
    }
}

/// What a package.json asks for; a name is in one section only.
#[derive(Clone, Default)]
pub struct Decl {
    pub prod: Vec<(String, String)>,
    pub dev: Vec<(String, String)>,
    pub opt: Vec<(String, String)>,
}

impl Decl {
    pub fn manifest(&self) -> CorgiManifest {
        let mut m = manifest(&self.prod);
        for (n, r) in &self.dev {
            m.dev_dependencies.insert(n.clone(), r.clone());
        }
        for (n, r) in &self.opt {
            m.optional_dependencies.insert(n.clone(), r.clone());
        }
        m
    }
}

fn node_ok(l: &Lockfile, path: &[UniCase<String>], d: &Decl, n: &LockfileNode) {
    section(&d.prod, &n.dependencies);
    section(&d.opt, &n.optional_dependencies);
    section(&d.dev, &n.dev_dependencies);
    for (n, r) in d.prod.iter().chain(d.opt.iter()).chain(d.dev.iter()) {
        dep_ok(l, path, n, r);
    }
}

pub fn tree_ok(l: &Lockfile, reg: &Reg, root: &Decl) {
    node_ok(l, &[], root, l.root());
    for n in l.packages().values() {
        let p = pkg_of(n);
        let ver = reg.pkg(&p).and_then(|p| p.versions.iter().find(|v| Some(&v.version) == n.version.as_ref()));
        match ver {
            None => sym::check(false, "every installed package is a published version"),
            Some(ver) => node_ok(l, &n.path, &Decl { prod: ver.deps.clone(), dev: vec![], opt: ver.opt.clone() }, n),
        }
    }
    sym::check(reached(l) == l.packages().len(), "only packages something depends on are installed");
}

/// How many packages a chain of dependencies leads to.
pub fn reached(l: &Lockfile) -> usize {
    let mut seen: Vec<&LockfileNode> = vec![];
    let mut todo: Vec<&LockfileNode> = vec![l.root()];
    while let Some(n) = todo.pop() {
        for d in n.dependencies.keys().chain(n.optional_dependencies.keys()).chain(n.dev_dependencies.keys()) {
            if let Some(c) = lookup(l, &n.path, d) {
                if !seen.iter().any(|s| std::ptr::eq(*s, c)) {
                    seen.push(c);
                    todo.push(c);
                }
            }
        }
    }
    seen.len()
}

pub fn range() -> String {
    let mut s = String::from("^");
    s.push(sym::byte_in("12") as char);
    s
}

/// `names`, each a dependency or not, on any major.
pub fn deps(names: &[&str]) -> Vec<(String, String)> {
    let mut d = Vec::new();
    for n in names {
        if sym::bool() {
            d.push((n.to_string(), range()));
        }
    }
    d
}

pub fn manifest(deps: &[(String, String)]) -> CorgiManifest {
    let mut m = CorgiManifest { name: Some("root".into()), version: Some(v("0.0.1")), ..Default::default() };
    for (n, r) in deps {
        m.dependencies.insert(n.clone(), r.clone());
    }
    m
}

pub fn two(name: &str, d1: Vec<(String, String)>, d2: Vec<(String, String)>) -> Pkg {
    Pkg {
        name: name.into(),
        versions: vec![ver(v("1.0.0"), d1), ver(v("2.0.0"), d2)],
        tags: vec![("latest".into(), v("2.0.0"))],
    }
}

/// Packages `names` at 1.0.0 (with any dependencies among `names`) and 2.0.0 (without any), and the
/// root's dependencies. Only packages that something depends on get choices.
pub fn world(names: &[&str], v2: bool) -> (Vec<(String, String)>, Reg) {
    let root = deps(names);
    let mut pkgs: Vec<Pkg> = Vec::new();
    let mut todo: Vec<String> = root.iter().map(|d| d.0.clone()).collect();
    while let Some(n) = todo.pop() {
        if pkgs.iter().any(|p| p.name == n) {
            continue;
        }
        let others: Vec<&str> = names.iter().copied().filter(|m| *m != n).collect();
        let d1 = deps(&others);
        let d2 = if v2 { deps(&others) } else { vec![] };
        for d in d1.iter().chain(d2.iter()) {
            todo.push(d.0.clone());
        }
        pkgs.push(two(&n, d1, d2));
    }
    let reg = Reg { pkgs, delay: 0 };
    for n in names {
        if reaches(&reg, n, n) {
            // a dependency cycle whose members are requested in conflicting versions has no finite
            // layout: see h_graph_loop
            let mut reqs = root.iter().chain(reg.pkgs.iter().flat_map(|p| &p.versions).flat_map(|v| &v.deps)).filter(|d| d.0 == *n);
            let first = reqs.next().unwrap().1.clone();
            for r in reqs {
                sym::assume(r.1 == first);
            }
        }
    }
    (root, reg)
}

/// Whether a chain of dependencies leads from `from` to `to`.
fn reaches(reg: &Reg, from: &str, to: &str) -> bool {
    let mut seen: Vec<&str> = vec![];
    let mut todo = vec![from];
    while let Some(n) = todo.pop() {
        if let Some(p) = reg.pkg(n) {
            for v in &p.versions {
                for d in &v.deps {
                    if d.0 == to {
                        return true;
                    }
                    if !seen.contains(&d.0.as_str()) {
                        seen.push(&d.0);
                        todo.push(&d.0);
                    }
                }
            }
        }
    }
    false
}

/// A chain of packages that all may want x, in versions that overlap.
pub fn overlap(delay: usize) -> (Vec<(String, String)>, Reg) {
    let one = |n: &str| vec![(n.to_string(), "^1".to_string())];
    let x = || {
        let mut d = vec![];
        let k = sym::choose(4);
        if k < 3 {
            d.push(("x".to_string(), ["1.0.0", "^1", "^2"][k].to_string()));
        }
        d
    };
    let mut root = one("a");
    root.extend(x());
    let mut a = x();
    let mut c = vec![];
    if sym::bool() {
        a.extend(one("c"));
        c = x();
    }
    let mut xs = two("x", vec![], vec![]);
    xs.versions.push(ver(v("1.1.0"), vec![]));
    (root, Reg { pkgs: vec![two("a", a, vec![]), two("c", c, vec![]), xs], delay })
}

fn resolve(reg: &Reg, root: &[(String, String)], conc: usize) -> Option<Lockfile> {
    resolve_decl(reg, &Decl { prod: root.to_vec(), ..Default::default() }, conc)
}

pub fn resolve_decl(reg: &Reg, root: &Decl, conc: usize) -> Option<Lockfile> {
    let reg2 = Reg { pkgs: reg.pkgs.clone(), delay: reg.delay };
    let m = block_on(NodeMaintainerOptions::new().nassun(reg2.nassun()).concurrency(conc).resolve_manifest(root.manifest()));
    match m {
        Ok(m) => Some(m.to_lockfile().expect("lockfile")),
        Err(_) => {
            sym::check(false, "resolution succeeds");
            None
        }
    }
}

crate::harnesses! {
    h_graph_cyc {
        let (root, reg) = world(&["a", "@s/b", "c"], false);
        if let Some(l) = resolve(&reg, &root, 50) {
            tree_ok(&l, &reg, &Decl { prod: root, ..Default::default() });
            sym::cover("done");
        }
    }
    h_graph_wide {
        let (root, reg) = world(&["a", "@s/b", "c", "d"], false);
        if let Some(l) = resolve(&reg, &root, 50) {
            tree_ok(&l, &reg, &Decl { prod: root, ..Default::default() });
            sym::cover("done");
        }
    }
    h_graph_v2 {
        let (root, reg) = world(&["a", "b"], true);
        if let Some(l) = resolve(&reg, &root, 50) {
            tree_ok(&l, &reg, &Decl { prod: root, ..Default::default() });
            sym::cover("done");
        }
    }
    h_graph_loop {
        let d = |n: &str, r: &str| vec![(n.to_string(), r.to_string())];
        let root = d("a", "^1");
        let reg = Reg { pkgs: vec![two("a", d("b", "^1"), d("b", "^2")), two("b", d("a", "^2"), d("a", "^1"))], delay: 0 };
        resolve(&reg, &root, 50);
    }
    h_graph_race {
        let (root, reg) = overlap(3);
        if let Some(l) = resolve(&reg, &root, [1, 50][sym::choose(2)]) {
            tree_ok(&l, &reg, &Decl { prod: root, ..Default::default() });
            sym::cover("done");
        }
    }
    h_graph_tag_loop {
        // a dependency cycle through a tag
        let d = |n: &str, r: &str| vec![(n.to_string(), r.to_string())];
        let reg = Reg { pkgs: vec![two("a", vec![], d("b", "latest")), two("b", vec![], d("a", "latest"))], delay: 0 };
        resolve(&reg, &d("a", "^2"), 50);
    }
    h_graph_order {
        let (root, mut reg) = world(&["a", "b"], false);
        reg.delay = 1;
        if let Some(l) = resolve(&reg, &root, 2) {
            tree_ok(&l, &reg, &Decl { prod: root, ..Default::default() });
            sym::cover("done");
        }
    }
    h_graph_kinds {
        // a: any of the root's sections; a and b: prod, optional, dev and peer dependencies
        let k = || { let n = sym::choose(3); n };
        let mut root = Decl::default();
        for n in ["a", "b"] {
            let d = (n.to_string(), range());
            match k() {
                0 => root.prod.push(d),
                1 => root.dev.push(d),
                _ => root.opt.push(d),
            }
        }
        let mut a1 = ver(v("1.0.0"), vec![]);
        for n in ["b", "c"] {
            let d = (n.to_string(), range());
            match sym::choose(5) {
                0 => a1.deps.push(d),
                1 => a1.opt.push(d),
                2 => a1.dev.push(d),
                3 => a1.peer.push(d),
                _ => {}
            }
        }
        let mut a = two("a", vec![], vec![]);
        a.versions[0] = a1;
        let reg = Reg { pkgs: vec![a, two("b", vec![], deps(&["c"])), two("c", vec![], vec![])], delay: 0 };
        if let Some(l) = resolve_decl(&reg, &root, 50) {
            tree_ok(&l, &reg, &root);
            sym::cover("done");
        }
    }
    h_graph_alias {
        // other names for registry packages
        let root = Decl { prod: vec![("x".into(), format!("npm:a@{}", range())), ("@t/y".into(), format!("npm:@s/b@{}", range()))], ..Default::default() };
        let d1 = deps(&["c", "@s/b"]);
        let mut d2 = vec![("z".to_string(), format!("npm:c@{}", range()))];
        if sym::bool() {
            d2.push(("x".to_string(), format!("npm:a@{}", range())));
        }
        let reg = Reg { pkgs: vec![two("a", d1, vec![]), two("@s/b", d2, vec![]), two("c", vec![], vec![])], delay: 0 };
        if let Some(l) = resolve_decl(&reg, &root, 50) {
            tree_ok(&l, &reg, &root);
            sym::cover("done");
        }
    }
    h_graph_alias_clash {
        // an alias with the name of another package
        let root = Decl { prod: vec![("x".into(), "npm:a@^1".into()), ("b".into(), "^1".into())], ..Default::default() };
        let reg = Reg { pkgs: vec![two("a", vec![], vec![]), two("b", vec![("x".into(), "^1".into())], vec![]), two("x", vec![], vec![])], delay: 0 };
        if let Some(l) = resolve_decl(&reg, &root, 50) {
            tree_ok(&l, &reg, &root);
        }
    }
}
