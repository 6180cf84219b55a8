//! The credentials that `oro login` stores in a configuration file.
use crate::net::{At, cred, REGS};
use crate::sym;
use kdl::KdlDocument;
use oro_npm_account::config::{clear_crendentials_by_uri, get_credentials_by_uri, set_credentials_by_uri, set_scoped_registry, Credentials};
use url::Url;

const FILES: &[&str] = &[
    "",
    "options {\n}\n",
    "options\n",
    "options {\n    auth\n}\n",
    "options {\n    scoped-registries\n    auth {\n    }\n}\n",
    "options {\n    auth {\n        \"https://r.example/\" token=\"o\"\n    }\n    default-tag \"next\"\n    auth2 {\n        a 1\n    }\n}\nlast 2\n",
    "options {\n    scoped-registries {\n        @ \"https://e.example/\"\n        @sx \"https://x.example/\"\n        \"@S\" \"https://t.example/\"\n        s \"https://u.example/\"\n    }\n    auth {\n        \"https://r.example/x\" token=\"o\"\n        \"https://r.example/xy\" token=\"p\"\n    }\n    proxy true\n}\n",
    "first 1\noptions {\n    loglevel \"info\"\n    auth {\n        \"https://keep.example/\" token=\"k\"\n        \"https://r.example/x\" username=\"o\"\n        \"https://r.example/\" legacy-auth=\"o\"\n    }\n    registry \"https://r.example/\"\n    scoped-registries {\n        @k \"https://k.example/\"\n        @s \"https://o.example/\"\n    }\n}\nlast 2\n",
];

/// the last one
const BIG: usize = FILES.len() - 1;
const SCOPES: usize = BIG - 1;
const AUTH: usize = BIG - 2;

fn of(c: &[(String, String, String)]) -> Credentials {
    let val = |k: &str| c.iter().find(|x| x.1 == k).map(|x| x.2.clone());
    match (val("token"), val("legacy-auth"), val("username")) {
        (Some(t), ..) => Credentials::Token(t),
        (_, Some(t), _) => Credentials::LegacyAuth(t),
        (_, _, Some(username)) => Credentials::BasicAuth { username, password: val("password") },
        _ => unreachable!(),
    }
}

/// the header that a file's credentials for a registry stand for
fn header(u: &Url, d: &KdlDocument) -> Option<String> {
    let c = get_credentials_by_uri(u, d)?;
    let h = reqwest::header::HeaderValue::try_from(c);
    sym::check(h.is_ok(), "stored credentials make a header");
    let h = h.ok()?;
    Some(h.to_str().expect("ascii").to_string())
}

/// Everything in a document, by where it is; but for the credentials of `r`, and the registry of @s if that was `set`.
fn flat(d: &KdlDocument, r: &At, set: bool) -> Vec<String> {
    let mut out = vec![];
    for n in d.nodes() {
        add(n, "", r, set, &mut out);
    }
    out
}

fn add(n: &kdl::KdlNode, up: &str, r: &At, set: bool, out: &mut Vec<String>) {
    let name = n.name().value();
    if up == "/options/auth" {
        if name.trim_end_matches('/') == r.url().trim_end_matches('/') {
            return;
        }
    }
    if set && up == "/options/scoped-registries" && name == "@s" {
        return;
    }
    let mut at = up.to_string();
    at.push('/');
    at.push_str(name);
    let mut line = at.clone();
    for e in n.entries() {
        line.push(' ');
        if let Some(k) = e.name() {
            line.push_str(k.value());
            line.push('=');
        }
        match e.value().as_string() {
            Some(s) => line.push_str(s),
            None => line.push_str(if e.value().as_bool() == Some(true) { "true" } else { "other" }),
        }
    }
    // these come and go with what is in them
    if at != "/options" && at != "/options/auth" && at != "/options/scoped-registries" {
        out.push(line);
    }
    if let Some(c) = n.children() {
        for n in c.nodes() {
            add(n, &at, r, set, out);
        }
    }
}

fn regurl(r: &At) -> Url {
    r.url().parse().expect("registry")
}

crate::harnesses! {
    // log in to a registry, then out of it again
    h_acct_login {
        let f = sym::choose(FILES.len());
        let mut d: KdlDocument = FILES[f].parse().expect("config");
        let r = REGS[sym::choose(REGS.len())];
        let mut auth = vec![];
        let want = cred(&r, sym::choose(5), &mut auth);
        let scoped = sym::bool();
        let others = flat(&d, &r, scoped);
        set_credentials_by_uri(&regurl(&r), &of(&auth), &mut d);
        if scoped {
            set_scoped_registry("@s", &regurl(&r), &mut d);
        }
        let text = d.to_string();
        sym::observe("file", &text);
        let d2 = text.parse::<KdlDocument>();
        sym::check(d2.is_ok(), "a configuration can be read again");
        let Ok(mut d2) = d2 else { return };
        let q = REGS[sym::choose(REGS.len())];
        if scoped || f == BIG {
            let get = |k: &str| {
                let o = d2.get("options").and_then(|o| o.children()).and_then(|o| o.get("scoped-registries")).and_then(|o| o.children())?;
                let n: Vec<_> = o.nodes().iter().filter(|n| n.name().value() == k).collect();
                if n.len() > 1 { return Some("twice".to_string()) }
                n.first()?.get(0)?.as_string().map(|s| s.to_string())
            };
            let want = if scoped { Some(regurl(&r).to_string()) } else { Some("https://o.example/".to_string()) };
            sym::check(get("@s") == want, "a login's scope is the one of its registry");
            if f == BIG {
                sym::check(get("@k").as_deref() == Some("https://k.example/"), "other settings are kept");
            }
        }
        let before = match (f, q.host, q.path) {
            (BIG, "r.example", "/") => Some("Basic o"),
            (BIG, "r.example", _) => Some("Basic bzo="),
            (AUTH, "r.example", "/") => Some("Bearer o"),
            (SCOPES, "r.example", "/x" | "/x/") => Some("Bearer o"),
            _ => None,
        };
        let got = header(&regurl(&q), &d2);
        sym::observe("got", got.as_deref().unwrap_or("-"));
        if q.same(&r) {
            sym::check(got.as_deref() == Some(want), "the credentials of a login are the ones of its registry");
            sym::cover("own");
        } else {
            sym::check(got.as_deref() == before, "a login leaves other registries' credentials alone");
            sym::cover("other");
        }
        sym::check(flat(&d2, &r, scoped) == others, "other settings are kept");
        clear_crendentials_by_uri(&regurl(&r), &mut d2);
        let d3 = d2.to_string().parse::<KdlDocument>();
        sym::check(d3.is_ok(), "a configuration can be read again");
        let Ok(d3) = d3 else { return };
        let got = header(&regurl(&q), &d3);
        if q.same(&r) {
            sym::check(got.is_none(), "logging out removes the credentials of its registry");
        } else {
            sym::check(got.as_deref() == before, "logging out leaves other registries' credentials alone");
        }
        sym::check(flat(&d3, &r, scoped) == others, "other settings are kept");
        if f == BIG {
            let k = get_credentials_by_uri(&"https://keep.example/".parse().expect("url"), &d3);
            sym::check(matches!(k, Some(Credentials::Token(t)) if t == "k"), "logging out leaves other registries' credentials alone");
        }
    }

    // whatever is given is what is read
    h_acct_any {
        let v = sym::string(0, 3, "a\"\\/{}=#; \n\tr-");
        let mut d = KdlDocument::new();
        let u: Url = "https://r.example/".parse().expect("url");
        let k = sym::choose(3);
        set_credentials_by_uri(&u, &match k {
            0 => Credentials::Token(v.clone()),
            1 => Credentials::LegacyAuth(v.clone()),
            _ => Credentials::BasicAuth { username: v.clone(), password: None },
        }, &mut d);
        let text = d.to_string();
        sym::observe("file", &text);
        let d = text.parse::<KdlDocument>();
        sym::check(d.is_ok(), "a configuration can be read again");
        let Ok(d) = d else { return };
        let got = match get_credentials_by_uri(&u, &d) {
            Some(Credentials::Token(t)) if k == 0 => Some(t),
            Some(Credentials::LegacyAuth(t)) if k == 1 => Some(t),
            Some(Credentials::BasicAuth { username, .. }) if k == 2 => Some(username),
            Some(Credentials::LegacyAuth(t)) if k == 2 => { sym::check(t.len() % 4 == 0, "encoded"); return }
            _ => None,
        };
        sym::check(got.as_deref() == Some(v.as_str()), "what is stored is what was given");
        sym::cover("any");
    }

    // --auth {REGISTRY}key=value, as the configuration's auth nodes are given too
    h_acct_arg {
        let u = sym::string(0, 3, "a:/=?&");
        let k = sym::string(0, 2, "a-{}");
        let v = sym::string(0, 2, "a={}");
        let mut s = String::from("{");
        s.push_str(&u);
        s.push('}');
        s.push_str(&k);
        s.push('=');
        s.push_str(&v);
        match orogene::verif::parse_nested_key_value(&s) {
            Some((a, b, c)) => {
                sym::check(a == u && b == k && c == v, "registry, key and value are the ones given");
                sym::cover("parsed");
            }
            None => sym::check(false, "credentials are understood"),
        }
    }

    // anything at all
    h_acct_text {
        let s = sym::string(0, 5, "{}=aé");
        match orogene::verif::parse_nested_key_value(&s) {
            Some((a, b, c)) => {
                let mut t = String::from("{");
                t.push_str(&a);
                t.push('}');
                t.push_str(&b);
                t.push('=');
                t.push_str(&c);
                sym::check(s.ends_with(&t), "registry, key and value are the ones given");
                sym::check(!a.contains('}') && !b.contains('='), "registry, key and value are the ones given");
                sym::cover("parsed");
            }
            None => sym::cover("error"),
        }
        match orogene::verif::parse_key_value(&s) {
            Some((a, b)) => {
                let mut t = a.clone();
                t.push('=');
                t.push_str(&b);
                sym::check(s == t && !a.contains('='), "key and value are the ones given");
                sym::cover("pair");
            }
            None => sym::check(!s.contains('='), "pairs are understood"),
        }
    }
}
