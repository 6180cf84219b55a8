use crate::sym;
use oro_package_spec::{GitHost, GitInfo, PackageSpec, PackageSpecError, VersionSpec};

/// Parsing totality (no panic), error locations usable.
fn total(s: &str) {
    let r: Result<PackageSpec, PackageSpecError> = s.parse();
    match r {
        Ok(p) => {
            sym::cover("ok");
            sym::observe("d", &p.to_string());
            sym::observe("r", &p.requested());
            if let PackageSpec::Git(g) = p.target() {
                git_urls(g);
            }
        }
        Err(e) => {
            sym::cover("err");
            sym::check(e.offset <= s.len(), "error offset lies inside the input");
            sym::check(e.input == s, "error carries the input");
            let (l, c) = e.location();
            sym::check(l <= s.len() && c <= s.len(), "error location lies inside the input");
        }
    }
}

fn git_urls(g: &GitInfo) {
    let h = g.https().is_some();
    sym::check(h == g.ssh().is_some(), "https/ssh exist together");
    let t = g.tarball();
    sym::check(t.is_some() == (h && g.committish().is_some()), "tarball url exists exactly for hosted specs with a committish");
}

/// Display -> parse is the identity on parsed specs.
fn roundtrip(s: &str) {
    if let Ok(p) = s.parse::<PackageSpec>() {
        if let PackageSpec::Npm { name, requested, .. } = p.target() {
            // a leading dot is not allowed in package names and dist-tags
            sym::assume(!name.starts_with('.'));
            if let Some(VersionSpec::Tag(t)) = requested {
                sym::assume(!t.starts_with('.'));
            }
        }
        let d = p.to_string();
        sym::observe("d", &d);
        match d.parse::<PackageSpec>() {
            Ok(q) => {
                sym::cover(match p.target() {
                    PackageSpec::Dir { .. } => "dir",
                    PackageSpec::Npm { .. } => "npm",
                    PackageSpec::Git(_) => "git",
                    _ => "other",
                });
                let l = match (p.target(), q.target()) {
                    (PackageSpec::Git(GitInfo::Ssh { .. }), PackageSpec::Git(GitInfo::Url { .. } | GitInfo::Hosted { .. })) => "scp-style ssh spec with a port-like path parses back to the same spec",
                    _ => "displayed spec parses back to the same spec",
                };
                sym::check(p == q, l);
            }
            Err(_) => sym::check(false, "displayed spec parses"),
        }
        // what the lockfile / manifest writers store: name@requested
        let n = match &p {
            PackageSpec::Npm { name, .. } | PackageSpec::Alias { name, .. } => name.clone(),
            _ => return,
        };
        let w = format!("{n}@{}", p.requested());
        if let PackageSpec::Npm { requested: None, name, scope } = &p {
            // nothing requested: stored as any version
            let any: node_semver::Range = match "*".parse() { Ok(r) => r, Err(_) => return };
            let want = PackageSpec::Npm { scope: scope.clone(), name: name.clone(), requested: Some(VersionSpec::Range(any)) };
            sym::check(w.parse::<PackageSpec>().ok() == Some(want), "a spec without a requirement is stored as any version");
            return;
        }
        match w.parse::<PackageSpec>() {
            Ok(q) => {
                let l = match (p.target(), q.target()) {
                    (PackageSpec::Git(GitInfo::Ssh { .. }), PackageSpec::Git(GitInfo::Url { .. } | GitInfo::Hosted { .. })) => "scp-style ssh spec with a port-like path parses back to the same spec",
                    _ => "name@requested parses back to the same spec",
                };
                sym::check(p == q, l)
            }
            Err(_) => sym::check(false, "name@requested parses"),
        }
    }
}

const HOSTS: &[(&str, &str)] = &[("github", "github.com"), ("gitlab", "gitlab.com"), ("gist", "gist.github.com"), ("bitbucket", "bitbucket.org")];

fn is_host(h: &GitHost, i: usize) -> bool {
    match h {
        GitHost::GitHub => i == 0,
        GitHost::GitLab => i == 1,
        GitHost::Gist => i == 2,
        GitHost::Bitbucket => i == 3,
    }
}

fn hosted(p: &PackageSpec, i: usize, o: &str, r: &str, c: &Option<String>) {
    match p {
        PackageSpec::Git(g @ GitInfo::Hosted { owner, repo, host, committish, semver, .. }) => {
            sym::cover("hosted");
            sym::check(is_host(host, i), "host");
            sym::check(owner == o, "owner is the one written");
            sym::check(repo == r, "repository is the one written (minus one .git suffix)");
            if c.as_deref() == Some(SEMVER) {
                sym::cover("semver");
                sym::check(committish.is_none(), "a semver fragment is not a committish");
                let lo: node_semver::Version = (1, 2, 3).into();
                let hi: node_semver::Version = (2, 0, 0).into();
                sym::check(semver.as_ref().map(|r| lo.satisfies(r) && !hi.satisfies(r)) == Some(true), "semver fragment is the range written");
            } else {
                sym::check(committish == c, "committish is the one written");
                sym::check(semver.is_none(), "no semver");
            }
            let c = committish;
            let dom = HOSTS[i].1;
            let https = g.https().unwrap();
            sym::observe("https", https.as_str());
            sym::check(https.host_str() == Some(dom), "https clone URL uses the host's real domain");
            let want = if i == 2 { format!("https://{dom}/{r}.git") } else { format!("https://{dom}/{o}/{r}.git") };
            sym::check(https.as_str() == want, "https clone URL names the repository");
            let ssh = g.ssh().unwrap();
            sym::observe("ssh", &ssh);
            sym::check(ssh.starts_with(&format!("git@{dom}:")), "ssh clone URL uses the host's real domain");
            sym::check(ssh.ends_with(&format!("{r}.git")) || ssh.ends_with(&format!("/{r}")), "ssh clone URL names the repository");
            match (g.tarball(), c) {
                (Some(t), Some(c)) => {
                    sym::observe("tar", t.as_str());
                    sym::cover("tarball");
                    let want = match i {
                        0 => format!("https://codeload.github.com/{o}/{r}/tar.gz/{c}"),
                        1 => format!("https://gitlab.com/{o}/{r}/repository/archive.tar.gz?ref={c}"),
                        2 => format!("https://codeload.github.com/gist/{r}/tar.gz/{c}"),
                        _ => format!("https://bitbucket.org/{o}/{r}/get/{c}.tar.gz"),
                    };
                    sym::check(t.as_str() == want, "tarball URL is the host's archive endpoint");
                }
                (None, None) => {}
                _ => sym::check(false, "tarball url exists exactly with a committish"),
            }
        }
        _ => sym::check(false, "hosted git spec is recognised"),
    }
}

const SEMVER: &str = "semver:^1.2.3";

fn committish() -> (String, Option<String>) {
    match sym::choose(3) {
        1 => {
            let c = sym::string(1, 2, "aF0-.");
            sym::assume(c != "." && c != "..");
            (format!("#{c}"), Some(c))
        }
        2 => (format!("#{SEMVER}"), Some(SEMVER.into())),
        _ => (String::new(), None),
    }
}

fn fidelity(max: usize) {
    let form = sym::choose(6);
    let i = sym::choose(4);
    let o = sym::string(1, 1, "aB");
    let (ct, c) = committish();
    let r = sym::string(1, if c.is_some() { max - 1 } else { max }, "B-.git");
    let r = if sym::choose(2) == 1 { format!("{r}.git-") } else { r };
    sym::assume(r != "." && r != "..");
    let dom = HOSTS[i].1;
    // the name as written ends in any number of .git (at most 2)
    sym::assume(!r.ends_with(".git"));
    let sfx = sym::pick(&["", ".git", ".git.git"]);
    // the name meant: one .git less
    let m = if sfx == ".git.git" { format!("{r}.git") } else { r.clone() };
    let s = match form {
        0 => {
            format!("{}:{o}/{r}{sfx}{ct}", HOSTS[i].0)
        }
        1 => format!("git+https://{dom}/{o}/{r}{sfx}{ct}"),
        2 => format!("git://{dom}/{o}/{r}{sfx}{ct}"),
        3 => format!("git+ssh://git@{dom}:{o}/{r}{sfx}{ct}"),
        4 => format!("ssh://git@{dom}:{o}/{r}{sfx}{ct}"),
        _ => {
            // without a host: GitHub
            sym::assume(i == 0);
            format!("{o}/{r}{sfx}{ct}")
        }
    };
    match s.parse::<PackageSpec>() {
        Ok(p) => {
            // a shorthand may also keep its name exactly as written
            let kept = format!("{r}{sfx}");
            let m = match &p {
                PackageSpec::Git(GitInfo::Hosted { repo, .. }) if (form == 0 || form == 5) && *repo == kept => kept,
                _ => m,
            };
            hosted(&p, i, &o, &m, &c)
        }
        Err(_) => sym::check(false, "hosted git spec parses"),
    }
}

fn digits(max: usize) -> (String, u64) {
    let s = sym::string(1, max, "0123456789");
    sym::assume(s.len() == 1 || !s.starts_with('0'));
    let mut v = 0u64;
    for b in s.bytes() {
        v = v * 10 + (b - b'0') as u64;
    }
    (s, v)
}

fn npm_parts(p: &PackageSpec, sc: &Option<String>, full: &str, kind: usize, v: &(u64, u64, u64), txt: &str) {
    match p {
        PackageSpec::Npm { scope, name, requested } => {
            sym::check(scope == sc, "scope is the one written");
            sym::check(name == full, "name is the one written");
            match (kind, requested) {
                (0, None) => sym::cover("bare"),
                (1, Some(VersionSpec::Version(x))) => {
                    sym::cover("version");
                    sym::check(x.major == v.0 && x.minor == v.1 && x.patch == v.2, "version numbers are the ones written");
                    sym::check(x.pre_release.is_empty() && x.build.is_empty(), "no invented prerelease");
                }
                (4, Some(VersionSpec::Version(x))) => {
                    sym::cover("prerelease");
                    sym::check(x.to_string() == format!("1.0.2-{txt}.3+{txt}"), "prerelease and build are the ones written");
                }
                (2, Some(VersionSpec::Tag(t))) => {
                    sym::cover("tag");
                    sym::check(t == txt, "tag is the one written");
                }
                (3, Some(VersionSpec::Range(r))) => {
                    sym::cover("range");
                    let lo: node_semver::Version = (v.0, v.1, v.2).into();
                    let hi: node_semver::Version = (v.0 + 1, 0, 0).into();
                    sym::check(lo.satisfies(r), "caret range admits its base");
                    sym::check(!hi.satisfies(r), "caret range excludes the next major");
                }
                (5, Some(VersionSpec::Range(r))) => {
                    sym::cover("compound range");
                    sym::check(txt.parse::<node_semver::Range>().ok().as_ref() == Some(r), "range is the one written");
                }
                _ => sym::check(false, "requirement has the kind written"),
            }
        }
        _ => sym::check(false, "registry spec is recognised"),
    }
}

const RANGES: &[&str] = &["1 || 2", "^1.2.0||>=3.0.0-a", "1.0.0 - 2.0.0", ">=1.0.0 <2", "x", "*", "1.x", "~1.2", ">1", "<=1.2.3", "^0.0.1"];

fn classify() {
    let sc = if sym::choose(2) == 1 { Some(sym::string(1, 2, "aB-.")) } else { None };
    sym::assume(!sc.as_ref().map(|s| s.starts_with('.')).unwrap_or(false));
    let kind = sym::choose(6);
    let n = sym::string(1, if sc.is_some() || kind > 2 { 1 } else { 2 }, "aB-_.");
    // a leading dot is not allowed in package names
    sym::assume(!n.starts_with('.'));
    let full = match &sc {
        Some(s) => format!("@{s}/{n}"),
        None => n.clone(),
    };
    let mut v = (0, 0, 0);
    let mut txt = String::new();
    let req = match kind {
        0 => String::new(),
        1 | 3 => {
            let (a, x) = digits(2);
            let (b, y) = digits(1);
            let (c, z) = digits(1);
            v = (x, y, z);
            if kind == 3 {
                sym::assume(x > 0);
                format!("@^{a}.{b}.{c}")
            } else {
                format!("@{a}.{b}.{c}")
            }
        }
        2 => {
            txt = sym::string(1, if sc.is_some() { 2 } else { 3 }, "aBc-");
            sym::assume(!txt.starts_with('-'));
            format!("@{txt}")
        }
        5 => {
            txt = sym::pick(RANGES).to_string();
            format!("@{txt}")
        }
        _ => {
            v = (1, 0, 2);
            txt = sym::string(1, 2, "aB");
            format!("@1.0.2-{txt}.3+{txt}")
        }
    };
    match sym::choose(3) {
        0 => {
            let pre = if sym::choose(2) == 1 { "npm:" } else { "" };
            match format!("{pre}{full}{req}").parse::<PackageSpec>() {
                Ok(p) => npm_parts(&p, &sc, &full, kind, &v, &txt),
                Err(_) => sym::check(false, "registry spec parses"),
            }
        }
        1 => {
            let al = sym::pick(&["q", "@z.-z/q", "@z/q.w_"]);
            match format!("{al}@npm:{full}{req}").parse::<PackageSpec>() {
                Ok(PackageSpec::Alias { name, spec }) => {
                    sym::cover("alias");
                    sym::check(name == al, "alias name is the one written");
                    npm_parts(&spec, &sc, &full, kind, &v, &txt);
                }
                _ => sym::check(false, "alias spec is recognised"),
            }
        }
        _ => {
            let d = sym::pick(&["./", "../", "/", ".", "./@", "/a b/", "../a.b@1/"]);
            let path = format!("{d}{n}");
            let file = sym::choose(2) == 1;
            let al = sym::choose(2) == 1;
            let s = format!("{}{}{path}", if al { "q@" } else { "" }, if file { "file:" } else { "" });
            let r = s.parse::<PackageSpec>();
            let dir = match &r {
                Ok(PackageSpec::Alias { name, spec }) if al => {
                    sym::check(name == "q", "alias name is the one written");
                    &**spec
                }
                Ok(p) if !al => p,
                _ => {
                    sym::check(false, "path spec is recognised");
                    return;
                }
            };
            match dir {
                PackageSpec::Dir { path: p } => {
                    sym::cover("dir");
                    sym::check(p.to_str() == Some(&path), "path is the one written");
                }
                _ => sym::check(false, "path spec is a directory spec"),
            }
        }
    }
}

const LETTERS: &str = "abcdefghijklmnopqrstuvwxyz";

/// Whole words (dist-tags, names, committishes) that a special case could single out.
fn words(max: usize) {
    let w = sym::string(1, max, LETTERS);
    let (s, want) = match sym::choose(6) {
        0 => (format!("a@{w}"), PackageSpec::Npm { scope: None, name: "a".into(), requested: Some(VersionSpec::Tag(w.clone())) }),
        1 => (w.clone(), PackageSpec::Npm { scope: None, name: w.clone(), requested: None }),
        2 => (format!("b@npm:a@{w}"), PackageSpec::Alias { name: "b".into(), spec: Box::new(PackageSpec::Npm { scope: None, name: "a".into(), requested: Some(VersionSpec::Tag(w.clone())) }) }),
        3 => (format!("github:a/b#{w}"), PackageSpec::Git(GitInfo::Hosted { owner: "a".into(), repo: "b".into(), host: GitHost::GitHub, committish: Some(w.clone()), semver: None, requested: None })),
        4 => (format!("./{w}"), PackageSpec::Dir { path: format!("./{w}").into() }),
        _ => (format!("@{w}/{w}"), PackageSpec::Npm { scope: Some(w.clone()), name: format!("@{w}/{w}"), requested: None }),
    };
    match s.parse::<PackageSpec>() {
        Ok(p) => {
            // x is a wildcard range, v a version prefix
            if w.starts_with('x') || w.starts_with('v') {
                sym::assume(!matches!(p.target(), PackageSpec::Npm { requested: Some(VersionSpec::Range(_)), .. }));
            }
            sym::cover("ok");
            sym::check(p == want, "a word is kept as written");
        }
        Err(_) => sym::check(w.starts_with('x') || w.starts_with('v'), "a word parses"),
    }
    roundtrip(&s);
}

const TPL: &[&str] = &["", "git+", "git://", "git+ssh://", "ssh://git@", "git+https://github.com", "git://gitlab.com", "ssh://g@github.com:", "github:", "gist:", "file:", "npm:", "a@", "@a/b@", "a@npm:", "a#semver:", "a/b#semver:", "git+https://a.b/c#semver:", "git+ssh://g@h:x#semver:", "git+https://github.com/a/b#semver:", "git+http:", "a@file:", "@", "é", "@é/", "./é"];

crate::harnesses! {
    h_spec_total_any { total(&sym::string(0, 4, "a1@/.:#~^*")); }
    h_spec_total_any_deep { total(&sym::string(0, 6, "a1@/.:#~^*")); }
    h_spec_total_tpl { let t = sym::pick(TPL); let s = sym::string(0, 3, "a1@/.:#% \n"); total(&format!("{t}{s}")); }
    h_spec_total_tpl_deep { let t = sym::pick(TPL); let s = sym::string(0, 4, "a1@/.:#% \n"); total(&format!("{t}{s}")); }
    h_spec_rt_any { roundtrip(&sym::string(0, 4, "a1@/.:#x")); }
    h_spec_rt_any_deep { roundtrip(&sym::string(0, 6, "a1@/.:#x")); }
    h_spec_rt_tpl { let t = sym::pick(TPL); let s = sym::string(0, 3, "a1@/.:#-"); roundtrip(&format!("{t}{s}")); }
    h_spec_rt_tpl_deep { let t = sym::pick(TPL); let s = sym::string(0, 4, "a1@/.:#-"); roundtrip(&format!("{t}{s}")); }
    h_spec_fidelity { fidelity(2); }
    h_spec_fidelity_deep { fidelity(4); }
    h_spec_words { words(10); }
    h_spec_words_deep { words(16); }
    h_spec_classify { classify(); }
}
