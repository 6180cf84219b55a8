//! Install scripts: which run, where, when, and what comes of their failing.
use crate::nm::*;
use crate::reg::*;
use crate::sym;
use futures::executor::block_on;
use node_maintainer::*;
use std::path::{Path, PathBuf};

const EVENTS: [&str; 3] = ["preinstall", "install", "postinstall"];

/// `rebuild` of a fresh installation of `root`, with its scripts.
fn run(reg: &Reg, root: &[(String, String)], dir: &Path, hoisted: bool, ignore: bool, jobs: usize) -> bool {
    let reg = Reg { pkgs: reg.pkgs.clone(), delay: 0 };
    let o = NodeMaintainerOptions::new().nassun(reg.nassun()).root(dir).hoisted(hoisted).script_concurrency(jobs);
    let m = match block_on(o.resolve_manifest(manifest(root))) {
        Ok(m) => m,
        Err(_) => return false,
    };
    block_on(async {
        m.prune().await?;
        m.extract().await?;
        m.rebuild(ignore).await
    })
    .is_ok()
}

/// a line in the log, by a script of package `n`
fn say(log: &Path, what: &str, n: &str, event: &str) -> String {
    format!("echo {what}.{n}.{event} >> {}", log.display())
}

/// scripts for some of the events, each saying when it starts and ends
fn scripted(v: Ver, n: &str, log: &Path, events: &[&str], slow: bool, fail: Option<&str>) -> Ver {
    scripted_how(v, n, log, events, slow, fail, "exit 1")
}

fn scripted_how(mut v: Ver, n: &str, log: &Path, events: &[&str], slow: bool, fail: Option<&str>, how: &str) -> Ver {
    let mut s = String::new();
    for e in events {
        if !s.is_empty() {
            s.push(',');
        }
        let mid = if slow { "sleep 0.2; " } else { "" };
        let end = if fail == Some(*e) { how.to_string() } else { say(log, "end", n, e) };
        s.push_str(&format!("\"{e}\":\"{}; {mid}{end}\"", say(log, "start", n, e)));
    }
    v.json.push_str(&format!(",\"scripts\":{{{s}}}"));
    v
}

fn lines(log: &Path) -> Vec<String> {
    std::fs::read_to_string(log).unwrap_or_default().lines().map(|l| l.to_string()).collect()
}

fn count(all: &[String], what: &str, n: &str, e: &str) -> usize {
    let l = format!("{what}.{n}.{e}");
    all.iter().filter(|x| **x == l).count()
}

fn at(all: &[String], what: &str, n: &str, e: &str) -> Option<usize> {
    let l = format!("{what}.{n}.{e}");
    all.iter().position(|x| *x == l)
}

fn all(names: &[&str]) -> Vec<(String, String)> {
    names.iter().map(|n| (n.to_string(), "^1".to_string())).collect()
}

fn one(n: &str, deps: Vec<(String, String)>) -> Pkg {
    let mut p = two(n, deps, vec![]);
    p.versions.truncate(1);
    p
}

crate::harnesses! {
    // three packages that depend on each other in any way
    h_scripts {
        let dir: PathBuf = sym::fs_root();
        let log = dir.join("log");
        let (hoisted, jobs) = [(true, 1), (true, 3), (false, 3)][sym::choose(3)];
        let names = ["a", "b", "c"];
        let mut edge = [[false; 3]; 3];
        let mut pkgs = vec![];
        // which one takes longer than the others, and whether the one in the middle has a script
        let slow = if jobs == 1 { 3 } else { sym::choose(3) };
        let scripted_b = slow == 1 || sym::bool();
        for i in 0..3 {
            let mut d = vec![];
            for j in 0..3 {
                if i != j && sym::bool() {
                    edge[i][j] = true;
                    d.push((names[j].to_string(), "^1".to_string()));
                }
            }
            let mut p = one(names[i], d);
            if i != 1 || scripted_b {
                p.versions = p.versions.into_iter().map(|v| scripted(v, names[i], &log, &EVENTS[1..2], slow == i, None)).collect();
            }
            pkgs.push(p);
        }
        for k in 0..3 { for i in 0..3 { for j in 0..3 {
            if edge[i][k] && edge[k][j] { edge[i][j] = true }
        } } }
        let reg = Reg { pkgs, delay: 0 };
        let ok = run(&reg, &all(&["a", "b", "c"]), &dir, hoisted, false, jobs);
        sym::check(ok, "installation succeeds");
        let all = lines(&log);
        let mut sorted = all.clone();
        sorted.sort();
        sym::observe("log", &sorted.join(" "));
        for i in 0..3 {
            let n = if i != 1 || scripted_b { 1 } else { 0 };
            sym::check(count(&all, "start", names[i], "install") == n && count(&all, "end", names[i], "install") == n, "every install script runs once");
            for j in 0..3 {
                if edge[i][j] && !edge[j][i] {
                    if let (Some(e), Some(s)) = (at(&all, "end", names[j], "install"), at(&all, "start", names[i], "install")) {
                        sym::check(e < s, "install scripts run after the ones of their dependencies");
                        sym::cover("order");
                    }
                } else if edge[i][j] {
                    sym::cover("cycle");
                }
            }
        }
    }

    // a package and its dependency: all events, failing ones, executables and directories
    h_scripts_fail {
        let dir: PathBuf = sym::fs_root();
        let log = dir.join("log");
        let hoisted = sym::choose(2) == 1;
        let ignore = sym::bool();
        // b is needed by a, by the root, or both, optionally or not; a by the root
        let (a_opt, ab, rb) = (sym::bool(), sym::choose(3), sym::choose(3));
        sym::assume(ab > 0 || rb > 0);
        let at_fault = sym::choose(3);
        let event = EVENTS[if at_fault == 0 { 0 } else { sym::choose(3) }];
        let mut b = one("b", vec![]);
        let mut a = one("a", vec![]);
        if ab > 0 {
            let d = vec![("b".to_string(), "^1".to_string())];
            if ab == 1 { a.versions[0].deps = d } else { a.versions[0].opt = d }
        }
        let fail = |k: usize| if at_fault == k { Some(event) } else { None };
        let how = if at_fault == 0 || ignore { "exit 1" } else { sym::pick(&["exit 1", "exit 255", "kill -9 $$"]) };
        a.versions = a.versions.into_iter().map(|v| scripted_how(v, "a", &log, &EVENTS, false, fail(1), how)).collect();
        b.versions = b.versions.into_iter().map(|v| scripted_how(v, "b", &log, &EVENTS, false, fail(2), how)).collect();
        let reg = Reg { pkgs: vec![a, b], delay: 0 };
        let mut m = manifest(&[]);
        let mut put = |n: &str, opt: bool| {
            if opt { m.optional_dependencies.insert(n.to_string(), "^1".to_string()); } else { m.dependencies.insert(n.to_string(), "^1".to_string()); }
        };
        put("a", a_opt);
        if rb > 0 { put("b", rb == 2) }
        let nm = match block_on(NodeMaintainerOptions::new().nassun(reg.nassun()).root(&dir).hoisted(hoisted).resolve_manifest(m)) {
            Ok(nm) => nm,
            Err(_) => { sym::check(false, "resolves"); return }
        };
        let ok = block_on(async { nm.prune().await?; nm.extract().await?; nm.rebuild(ignore).await }).is_ok();
        let all = lines(&log);
        if ignore {
            sym::check(ok && all.is_empty(), "no scripts run when they are not to");
            sym::cover("ignored");
            return;
        }
        // which are certainly needed, and which certainly not
        let need_a = !a_opt;
        let need_b = rb == 1 || (need_a && ab == 1);
        let spare_b = (rb == 0 || rb == 2) && (ab == 0 || ab == 2);
        let (needed, spare) = match at_fault { 0 => (false, true), 1 => (need_a, a_opt), _ => (need_b, spare_b) };
        if needed {
            sym::check(!ok, "a failing install script fails the installation");
            sym::cover("failed");
        }
        if spare {
            sym::check(ok, "a failing install script of an optional dependency does not");
            sym::cover("done");
        }
        for (k, n) in ["a", "b"].iter().enumerate() {
            for e in EVENTS {
                let started = count(&all, "start", n, e);
                sym::check(started <= 1, "every install script runs once");
                if ok {
                    sym::check(started == 1 || (at_fault == k + 1 && e != event), "every install script runs once");
                    let ends = if fail(k + 1) == Some(e) { 0 } else { started };
                    sym::check(count(&all, "end", n, e) == ends, "every install script runs to its end");
                }
            }
        }
        let index = |e: &str| EVENTS.iter().position(|x| *x == e);
        let mut last = 0;
        for l in &all {
            let i = index(l.rsplit('.').next().unwrap_or("")).unwrap_or(9);
            sym::check(i >= last, "preinstall, install and postinstall scripts run in this order");
            last = i;
        }
        if !ok && at_fault == 2 && ab > 0 {
            sym::check(count(&all, "start", "a", event) == 0, "nothing runs on top of a failed dependency");
        }
    }

    // where scripts run, and what they find
    h_scripts_env {
        let dir: PathBuf = sym::fs_root();
        let log = dir.join("log");
        let hoisted = sym::choose(2) == 1;
        // c is b's; a's b is the root's own, or another version
        let tool = sym::pick(&["tool", "uname"]);
        let c = one("c", vec![]);
        let mut b = two("b", vec![("c".to_string(), "^1".to_string())], vec![]);
        b.versions = b.versions.into_iter().map(|mut v| {
            let said = if v.version.major == 1 { "one" } else { "two" };
            v.json.push_str(&format!(",\"bin\":{{\"{tool}\":\"run.sh\"}}"));
            v.files.push(("run.sh".to_string(), format!("#!/bin/sh\necho {said}\n")));
            v
        }).collect();
        let event = EVENTS[1 + sym::choose(2)];
        let of_a = sym::bool();
        let mut a = one("a", vec![("b".to_string(), if of_a { "^1" } else { "^2" }.to_string())]);
        a.versions[0].json.push_str(&format!(",\"scripts\":{{\"{event}\":\"{tool} >> {}; echo here >> mark\"}}", log.display()));
        let reg = Reg { pkgs: vec![a, b, c], delay: 0 };
        let mut root = all(&["a"]);
        match sym::choose(3) {
            0 => (),
            1 => root.push(("b".to_string(), "^1".to_string())),
            _ => root.push(("b".to_string(), "^2".to_string())),
        }
        let ok = run(&reg, &root, &dir, hoisted, false, 2);
        sym::check(ok, "installation succeeds");
        let got = lines(&log);
        sym::check(got.len() == 1 && got[0] == if of_a { "one" } else { "two" }, "install scripts run their dependencies' executables");
        let here = std::fs::read_to_string(dir.join("node_modules/a/mark"));
        sym::check(here.map_or(false, |h| h == "here\n"), "install scripts run in their packages' directories");
        sym::cover("done");
    }

    // installing again after a script failed
    h_scripts_again {
        let dir: PathBuf = sym::fs_root();
        let log = dir.join("log");
        let flag = dir.join("flag");
        let hoisted = sym::choose(2) == 1;
        let event = EVENTS[sym::choose(3)];
        let a_needs_b = sym::bool();
        let mut a = one("a", if a_needs_b { all(&["b"]) } else { vec![] });
        let mut b = one("b", vec![]);
        a.versions = a.versions.into_iter().map(|v| scripted(v, "a", &log, &EVENTS, false, None)).collect();
        b.versions[0].json.push_str(&format!(",\"scripts\":{{\"{event}\":\"{}; cat {}\"}}", say(&log, "start", "b", event), flag.display()));
        let reg = Reg { pkgs: vec![a, b], delay: 0 };
        let root = all(&["a", "b"]);
        sym::check(!run(&reg, &root, &dir, hoisted, false, 1), "a failing install script fails the installation");
        sym::check(count(&lines(&log), "start", "b", event) == 1, "every install script runs once");
        if sym::bool() {
            sym::check(!run(&reg, &root, &dir, hoisted, false, 1), "a package whose script failed is not taken for installed");
            sym::check(count(&lines(&log), "start", "b", event) == 2, "a package whose script failed is built again");
            sym::cover("twice");
        }
        std::fs::write(&log, "").expect("write");
        std::fs::write(&flag, "flag").expect("write");
        sym::check(run(&reg, &root, &dir, hoisted, false, 1), "installation succeeds");
        let got = lines(&log);
        sym::check(count(&got, "start", "b", event) == 1, "a package whose script failed is built again");
        // nothing is built again after that
        std::fs::write(&log, "").expect("write");
        sym::check(run(&reg, &root, &dir, hoisted, false, 1), "installation succeeds");
        sym::check(lines(&log).is_empty(), "packages that are built stay as they are");
        sym::cover("done");
    }
}
