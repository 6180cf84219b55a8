//! The commands, run with an in-memory registry.
use crate::fsx::{disk_ok, snapshot};
use crate::nm::{deps, two};
use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use orogene::verif::*;
use std::path::Path;

pub fn args(reg: &Reg, root: &Path) -> ApplyArgs {
    let reg = Reg { pkgs: reg.pkgs.clone(), delay: reg.delay };
    ApplyArgs {
        apply: true,
        prefer_copy: false,
        lockfile_only: false,
        locked: false,
        scripts: false,
        default_tag: "latest".into(),
        concurrency: 50,
        script_concurrency: 6,
        lockfile: true,
        hoisted: false,
        registry: "https://r.example/".parse().expect("url"),
        scoped_registries: vec![],
        proxy: false,
        proxy_url: None,
        no_proxy_domain: None,
        retries: 0,
        auth: vec![],
        json: false,
        root: root.to_path_buf(),
        cache: None,
        emoji: false,
        verif: Packages(Some(reg.nassun())),
    }
}

#[derive(Clone)]
enum Val {
    Raw(&'static str),
    Map(Vec<(String, String)>),
}

#[derive(Clone)]
struct Doc(Vec<(&'static str, Val)>);

struct Style {
    unit: &'static str,
    end: &'static str,
    last: bool,
}

impl Doc {
    fn text(&self, s: &Style) -> String {
        let mut o = String::from("{");
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(s.end);
            o.push_str(s.unit);
            o.push('"');
            o.push_str(k);
            o.push_str("\": ");
            match v {
                Val::Raw(r) => o.push_str(r),
                Val::Map(m) if m.is_empty() => o.push_str("{}"),
                Val::Map(m) => {
                    o.push('{');
                    for (i, (k, v)) in m.iter().enumerate() {
                        if i > 0 {
                            o.push(',');
                        }
                        o.push_str(s.end);
                        o.push_str(s.unit);
                        o.push_str(s.unit);
                        o.push('"');
                        o.push_str(k);
                        o.push_str("\": \"");
                        o.push_str(v);
                        o.push('"');
                    }
                    o.push_str(s.end);
                    o.push_str(s.unit);
                    o.push('}');
                }
            }
        }
        o.push_str(s.end);
        o.push('}');
        if s.last {
            o.push_str(s.end);
        }
        o
    }
    fn remove(&mut self, name: &str) {
        for (k, v) in &mut self.0 {
            if ["dependencies", "devDependencies", "optionalDependencies", "peerDependencies"].contains(k) {
                if let Val::Map(m) = v {
                    m.retain(|(n, _)| n != name);
                }
            }
        }
    }
    fn add(&mut self, section: &'static str, name: &str, spec: &str) {
        if !self.0.iter().any(|(k, _)| *k == section) {
            self.0.push((section, Val::Map(vec![])));
        }
        for (k, v) in &mut self.0 {
            if *k == section {
                if let Val::Map(m) = v {
                    m.push((name.to_string(), spec.to_string()));
                }
            }
        }
    }
}

/// A package.json depending on some of a, b and @s/c, and how it is formatted.
fn doc() -> (Doc, Style) {
    let deps = [&["a", "b", "@s/c"][..], &["@s/c", "a", "b"], &["b", "a"], &["@s/c"], &[]][sym::choose(5)];
    let deps: Vec<_> = deps.iter().map(|n| (n.to_string(), "^1".to_string())).collect();
    let mut d = vec![("name", Val::Raw("\"r\"")), ("dependencies", Val::Map(deps)), ("version", Val::Raw("\"1.0.0\""))];
    let other = ["devDependencies", "optionalDependencies", "peerDependencies", "bundled"][sym::choose(4)];
    if other == "bundled" {
        d.remove(1);
    }
    let (at, style) = match sym::choose(3) {
        0 => (0, Style { unit: "  ", end: "\n", last: true }),
        1 => (1, Style { unit: "\t", end: "\r\n", last: false }),
        _ => (1, Style { unit: "    ", end: "\n", last: false }),
    };
    d.insert(at, (other, Val::Map(vec![("z".into(), "1".into()), ("a".into(), "~1".into()), ("y".into(), "2".into())])));
    d.push(("scripts", Val::Map(vec![("b".into(), "x".into()), ("a".into(), "y".into())])));
    d.push(("files", Val::Raw("[]")));
    (Doc(d), style)
}

fn world() -> Reg {
    let p = |n: &str| Pkg { name: n.to_string(), versions: vec![ver(v("1.0.0"), vec![]), ver(v("2.1.0"), vec![])], tags: vec![("latest".into(), v("2.1.0")), ("old".into(), v("1.0.0"))] };
    let pre = Pkg { name: "p".to_string(), versions: vec![ver(v("1.0.0"), vec![]), ver(v("2.0.0-rc.1"), vec![])], tags: vec![("latest".into(), v("1.0.0")), ("next".into(), v("2.0.0-rc.1"))] };
    Reg { pkgs: vec![p("a"), p("b"), p("@s/c"), pre], delay: 0 }
}

type Deps = Vec<(String, String)>;

fn project(dir: &Path, deps: &Deps) {
    let d: Vec<_> = deps.iter().map(|(n, r)| format!("\"{n}\":\"{r}\"")).collect();
    std::fs::write(dir.join("package.json"), format!("{{\"dependencies\":{{{}}}}}", d.join(","))).expect("write");
}

/// What is in the project: package.json, the lockfile and node_modules.
fn state(dir: &Path) -> (String, Option<String>, Vec<(String, String)>) {
    let nm = dir.join("node_modules");
    let files = if nm.exists() { snapshot(&nm) } else { vec![] };
    (std::fs::read_to_string(dir.join("package.json")).expect("read"), std::fs::read_to_string(dir.join("package-lock.kdl")).ok(), files)
}

fn apply(a: ApplyArgs) -> bool {
    let r = block_on(ApplyCmd::verif(a).execute()).is_ok();
    settle(r);
    r
}

/// Let blocking tasks of a failed command end.
fn settle(ok: bool) {
    if !ok && sym::is_native() {
        std::thread::sleep(std::time::Duration::from_millis(300));
    }
}

/// The lockfile is the one of the installed tree.
fn locked(reg: &Reg, dir: &Path, hoisted: bool, fresh: bool) {
    let was = state(dir);
    let mut a = args(reg, dir);
    a.hoisted = hoisted;
    a.locked = true;
    sym::check(apply(a), "applying with --locked right afterwards succeeds");
    let now = state(dir);
    sym::check(was.0 == now.0 && was.1 == now.1, "and leaves package.json and the lockfile as they were");
    sym::check(fresh || was.2 == now.2, "and leaves node_modules as it was");
}

fn pair() -> (Reg, Deps) {
    let a = two("a", deps(&["b"]), vec![]);
    (Reg { pkgs: vec![a, two("b", vec![], vec![])], delay: 0 }, deps(&["a", "b"]))
}

crate::harnesses! {
    h_cli_apply {
        // what the options of apply leave alone, and what they write
        let dir = sym::fs_root();
        let hoisted = sym::bool();
        let (reg, root) = pair();
        project(&dir, &root);
        let mk = || {
            let mut a = args(&reg, &dir);
            a.hoisted = hoisted;
            a
        };
        sym::check(apply(mk()), "applying succeeds");
        disk_ok(&reg, &root, &dir, true);
        locked(&reg, &dir, hoisted, false);
        let root = deps(&["a", "b"]);
        project(&dir, &root);
        let was = state(&dir);
        let mut a = mk();
        a.apply = sym::bool();
        match sym::choose(4) {
            0 => {
                a.lockfile_only = true;
                sym::check(apply(a), "applying with --lockfile-only succeeds");
                let now = state(&dir);
                sym::check(now.0 == was.0 && now.2 == was.2, "--lockfile-only leaves package.json and node_modules as they were");
                locked(&reg, &dir, hoisted, true);
                disk_ok(&reg, &root, &dir, true);
            }
            1 => {
                a.lockfile = false;
                sym::check(apply(a), "applying with --no-lockfile succeeds");
                let now = state(&dir);
                sym::check(now.0 == was.0 && now.1 == was.1, "--no-lockfile leaves package.json and the lockfile as they were");
                disk_ok(&reg, &root, &dir, true);
            }
            2 => {
                a.locked = true;
                let ok = apply(a);
                let now = state(&dir);
                sym::check(now.0 == was.0 && now.1 == was.1, "--locked leaves package.json and the lockfile as they were");
                if ok {
                    disk_ok(&reg, &root, &dir, true);
                } else {
                    sym::check(now.2 == was.2, "an outdated lockfile with --locked leaves node_modules as it was");
                    sym::cover("mismatch");
                }
            }
            _ => {
                sym::check(block_on(ReapplyCmd::verif(a).execute()).is_ok(), "reapplying succeeds");
                disk_ok(&reg, &root, &dir, true);
                locked(&reg, &dir, hoisted, false);
            }
        }
        sym::cover("done");
    }
    h_cli_fail {
        // a command that fails leaves package.json and the lockfile as they were
        let dir = sym::fs_root();
        let hoisted = sym::bool();
        let (reg, root) = pair();
        project(&dir, &root);
        let first = sym::bool();
        let mut a = args(&reg, &dir);
        a.hoisted = hoisted;
        if first {
            sym::check(apply(a), "applying succeeds");
        }
        // q can't be resolved, x can't be extracted
        let mut x = two("x", vec![], vec![]);
        for v in &mut x.versions {
            v.files = vec![("x".to_string(), "1".to_string()), ("x/y".to_string(), "2".to_string())];
        }
        let mut bad = Reg { pkgs: reg.pkgs.clone(), delay: 0 };
        bad.pkgs.push(x);
        let what = sym::pick(&["q", "a@9", "x", "x@2"]);
        let extracts = what.starts_with('x');
        let mut a = args(&bad, &dir);
        a.hoisted = hoisted;
        let (was, r);
        match sym::choose(3) {
            0 => {
                let (n, v) = what.split_once('@').unwrap_or((what, "^1"));
                let mut root: Deps = root.iter().filter(|d| d.0 != n).cloned().collect();
                root.push((n.to_string(), v.to_string()));
                project(&dir, &root);
                was = state(&dir);
                r = apply(a);
            }
            1 => {
                was = state(&dir);
                r = block_on(AddCmd::verif(vec![what.to_string()], "^".into(), sym::bool(), false, a).execute()).is_ok();
            }
            _ => {
                was = state(&dir);
                r = block_on(AddCmd::verif(vec!["b@1.0.0".to_string(), what.to_string()], "^".into(), false, false, a).execute()).is_ok();
            }
        }
        settle(r);
        let now = state(&dir);
        sym::check(!r, "a command that can't do what it was asked to fails");
        sym::check(now.0 == was.0, "a command that fails leaves package.json as it was");
        sym::check(now.1 == was.1, "a command that fails leaves the lockfile as it was");
        sym::check(extracts || now.2 == was.2, "a command that fails to resolve leaves node_modules as it was");
        project(&dir, &root);
        let mut a = args(&reg, &dir);
        a.hoisted = hoisted;
        sym::check(apply(a), "applying succeeds again afterwards");
        disk_ok(&reg, &root, &dir, true);
        sym::cover("done");
    }
    h_cli_change {
        // adding and removing installs what package.json then says
        let dir = sym::fs_root();
        let hoisted = sym::bool();
        let (reg, mut root) = pair();
        project(&dir, &root);
        let mk = || {
            let mut a = args(&reg, &dir);
            a.hoisted = hoisted;
            a
        };
        if sym::bool() {
            sym::check(apply(mk()), "applying succeeds");
        }
        let mut a = mk();
        a.locked = sym::bool();
        let name = sym::pick(&["a", "b"]);
        root.retain(|(n, _)| n != name);
        let r = if sym::bool() {
            let v = sym::pick(&["1.0.0", "2.0.0"]);
            root.push((name.to_string(), format!("^{v}")));
            block_on(AddCmd::verif(vec![format!("{name}@{v}")], "^".into(), false, false, a).execute())
        } else {
            block_on(RemoveCmd::verif(vec![name.to_string()], a).execute())
        };
        sym::check(r.is_ok(), "adding and removing succeed");
        let m: oro_common::CorgiManifest = serde_json::from_str(&state(&dir).0).expect("package.json");
        let mut is: Deps = m.dependencies.iter().map(|(n, r)| (n.to_string(), r.to_string())).collect();
        is.sort();
        let mut want = root.clone();
        want.sort();
        sym::check(is == want, "package.json has the dependencies asked for");
        disk_ok(&reg, &root, &dir, true);
        locked(&reg, &dir, hoisted, false);
        sym::cover("done");
    }
    h_cli_remove {
        let dir = sym::fs_root();
        let file = dir.join("package.json");
        let (mut d, s) = doc();
        std::fs::write(&file, d.text(&s)).expect("write");
        let before = d.text(&s);
        let mut a = args(&world(), &dir);
        a.apply = false;
        a.locked = sym::bool();
        let (names, gone, ok): (&[&str], &[&str], bool) = [
            (&["a"][..], &["a"][..], true),
            (&["b", "a"], &["a", "b"], true),
            (&["@s/c"], &["@s/c"], true),
            (&["q"], &[], true),
            (&["a", "b@1"], &["a"], false),
            (&["a", "git://x/y"], &["a"], false),
        ][sym::choose(6)];
        let cmd = RemoveCmd::verif(names.iter().map(|n| n.to_string()).collect(), a);
        let r = block_on(cmd.execute());
        let now = std::fs::read_to_string(&file).expect("read");
        if r.is_ok() {
            for n in gone {
                d.remove(n);
            }
            sym::check(ok || names[1] == "b@1", "only names can be removed");
            if names.len() > 1 && names[1] == "b@1" {
                d.remove("b");
            }
            sym::check(now == d.text(&s), "removing a dependency changes nothing else in package.json");
            sym::cover("done");
        } else {
            sym::check(!ok, "removing succeeds");
            sym::check(now == before, "a command that fails leaves package.json as it was");
            sym::cover("failed");
        }
    }
    h_cli_add {
        let dir = sym::fs_root();
        let file = dir.join("package.json");
        let (mut d, s) = doc();
        let before = d.text(&s);
        std::fs::write(&file, &before).expect("write");
        let mut a = args(&world(), &dir);
        a.apply = false;
        let prefix = sym::pick(&["^", "~", ""]);
        let (specs, added): (&[&str], &[(&str, &str, &str)]) = [
            (&["a"][..], &[("a", "", "2.1.0")][..]),
            (&["a@old", "b@^1"], &[("a", "", "1.0.0"), ("b", "", "1.0.0")]),
            (&["@s/c@1.0.0"], &[("@s/c", "", "1.0.0")]),
            (&["x@npm:a@1"], &[("x", "npm:a@", "1.0.0")]),
            (&["x@npm:@s/c"], &[("x", "npm:@s/c@", "2.1.0")]),
            (&["a@1", "a@2"], &[("a", "", "2.1.0")]),
            (&["a", "q"], &[]),
            (&["b", "a@9"], &[]),
            (&["p@next", "p"], &[("p", "", "1.0.0")]),
            (&["p@next"], &[("p", "", "2.0.0-rc.1")]),
        ][sym::choose(10)];
        let (dev, opt, section) = [(false, false, "dependencies"), (true, false, "devDependencies"), (false, true, "optionalDependencies")][sym::choose(3)];
        let cmd = AddCmd::verif(specs.iter().map(|n| n.to_string()).collect(), prefix.to_string(), dev, opt, a);
        let r = block_on(cmd.execute());
        let now = std::fs::read_to_string(&file).expect("read");
        if r.is_ok() {
            for (n, alias, version) in added {
                d.remove(n);
                d.add(section, n, &format!("{alias}{prefix}{version}"));
            }
            sym::check(!added.is_empty(), "adding what doesn't exist fails");
            sym::check(now == d.text(&s), "adding a dependency changes nothing else in package.json");
            sym::cover("done");
        } else {
            sym::check(added.is_empty(), "adding succeeds");
            sym::check(now == before, "a command that fails leaves package.json as it was");
            sym::cover("failed");
        }
    }
    h_cli_odd {
        let dir = sym::fs_root();
        let file = dir.join("package.json");
        let before = sym::pick(&[
            "[]", "null", "\"x\"", "1", "", "{", "{}", "{\"dependencies\": null}", "{\"dependencies\": []}", "{\"dependencies\": \"a\"}",
            "{\"dependencies\": {\"a\": 1}}", "{\"dependencies\": {\"a\": {}}}", "{\"devDependencies\": [\"a\"]}", "{\"dependencies\": {\"q\": \"@\"}}",
        ]);
        std::fs::write(&file, before).expect("write");
        let mut a = args(&world(), &dir);
        a.apply = false;
        let add = sym::bool();
        let r = if add {
            block_on(AddCmd::verif(vec!["a".into()], "^".into(), sym::bool(), false, a).execute())
        } else {
            block_on(RemoveCmd::verif(vec!["a".into()], a).execute())
        };
        let now = std::fs::read_to_string(&file).expect("read");
        if r.is_ok() {
            sym::check(serde_json::from_str::<oro_common::CorgiManifest>(&now).is_ok(), "package.json is still a manifest");
            sym::check(now.contains("\"a\": \"^2.1.0\"") == add, "it has the dependency added or removed");
            sym::cover("done");
        } else {
            sym::check(now == before, "a command that fails leaves package.json as it was");
            sym::cover("failed");
        }
    }
}
