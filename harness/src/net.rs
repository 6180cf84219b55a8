//! The HTTP client, with the network replaced by an in-memory server.
use crate::sym;
use futures::executor::block_on;
use nassun::NassunOpts;
use oro_client::{login::LoginOptions, OroClient, OroClientBuilder};
use reqwest::{Request, Response};
use reqwest_middleware::{Middleware, Next};
use std::sync::{Arc, Mutex};
use task_local_extensions::Extensions;
use url::Url;

pub struct Seen {
    pub method: String,
    pub url: Url,
    pub auth: Vec<String>,
}

/// Answers every request with `body`, except where `bodies` has something for its URL.
pub struct Server {
    pub seen: Mutex<Vec<Seen>>,
    pub status: u16,
    pub headers: Vec<(&'static str, Vec<u8>)>,
    pub body: Vec<u8>,
    pub bodies: Vec<(String, Vec<u8>)>,
}

#[async_trait::async_trait]
impl Middleware for Server {
    async fn handle(&self, req: Request, _ext: &mut Extensions, _next: Next<'_>) -> reqwest_middleware::Result<Response> {
        let auth = req.headers().get_all(http::header::AUTHORIZATION).iter().map(|v| v.to_str().expect("ascii").to_string()).collect();
        let body = match self.bodies.iter().find(|(u, _)| u == req.url().as_str()) {
            Some((_, b)) => b,
            None => &self.body,
        };
        let mut r = http::Response::new(body.clone());
        self.seen.lock().expect("lock").push(Seen { method: req.method().as_str().to_string(), url: req.url().clone(), auth });
        *r.status_mut() = http::StatusCode::from_u16(self.status).expect("status");
        for (k, v) in &self.headers {
            r.headers_mut().append(*k, http::HeaderValue::from_bytes(v).expect("header"));
        }
        Ok(Response::from(r))
    }
}

pub fn server(status: u16, body: &[u8]) -> Server {
    Server { seen: Mutex::new(vec![]), status, headers: vec![], body: body.to_vec(), bodies: vec![] }
}

fn run<T>(f: impl std::future::Future<Output = T>) -> T {
    block_on(f)
}

/// A URL, taken apart by hand.
#[derive(Clone, Copy)]
pub struct At {
    pub scheme: &'static str,
    pub host: &'static str,
    pub path: &'static str,
}

impl At {
    pub fn url(&self) -> String {
        let mut s = self.scheme.to_string();
        s.push_str("://");
        s.push_str(self.host);
        s.push_str(self.path);
        s
    }
    /// its path as a directory
    pub fn dir(&self) -> String {
        let mut d = self.path.to_string();
        if !d.ends_with('/') {
            d.push('/');
        }
        d
    }
    pub fn base(&self) -> String {
        let mut s = self.scheme.to_string();
        s.push_str("://");
        s.push_str(self.host);
        s.push_str(&self.dir());
        s
    }
    pub fn same(&self, o: &At) -> bool {
        self.scheme == o.scheme && self.host == o.host && self.dir() == o.dir()
    }
    pub fn holds(&self, o: &At) -> bool {
        self.scheme == o.scheme && self.host == o.host && o.path.starts_with(&self.dir())
    }
}

const fn at(scheme: &'static str, host: &'static str, path: &'static str) -> At {
    At { scheme, host, path }
}

pub const REGS: &[At] = &[
    at("https", "r.example", "/"),
    at("https", "r.example", "/x"),
    at("https", "r.example", "/x/"),
    at("https", "r.example:8443", "/x/"),
    at("https", "s.example", "/"),
];

const TARBALLS: &[At] = &[
    at("https", "r.example", "/x/a.tgz"),
    at("https", "r.example", "/xa.tgz"),
    at("https", "r.example", "/a/x/a.tgz"),
    at("https", "r.example", "/x/y/a.tgz"),
    at("http", "r.example", "/x/a.tgz"),
    at("https", "r.example:444", "/x/a.tgz"),
    at("https", "r.example:8443", "/x/a.tgz"),
    at("https", "x.r.example", "/x/a.tgz"),
    at("https", "r.example.org", "/x/a.tgz"),
    at("https", "s.example", "/x/a.tgz"),
    at("https", "registry.npmjs.org", "/a/-/a.tgz"),
    at("http", "registry.npmjs.org", "/x/a.tgz"),
];

/// What `--auth` gives for one registry, and the header it stands for.
pub fn cred(reg: &At, kind: usize, auth: &mut Vec<(String, String, String)>) -> &'static str {
    let mut put = |k: &str, v: &str| auth.push((reg.url(), k.to_string(), v.to_string()));
    match kind {
        0 => {
            put("token", "t0k");
            "Bearer t0k"
        }
        1 => {
            put("legacy-auth", "dTpw");
            "Basic dTpw"
        }
        2 => {
            put("username", "al");
            put("password", "p:w");
            "Basic YWw6cDp3"
        }
        3 => {
            put("password", "pw");
            put("username", "al");
            "Basic YWw6cHc="
        }
        _ => {
            put("username", "al");
            "Basic YWw6"
        }
    }
}

/// The same, with other values.
fn cred2(reg: &At, kind: usize, auth: &mut Vec<(String, String, String)>) -> &'static str {
    let mut put = |k: &str, v: &str| auth.push((reg.url(), k.to_string(), v.to_string()));
    match kind {
        0 => {
            put("token", "t1");
            "Bearer t1"
        }
        1 => {
            put("username", "bo");
            put("password", "q");
            "Basic Ym86cQ=="
        }
        2 => {
            put("legacy-auth", "eA==");
            "Basic eA=="
        }
        _ => {
            put("username", "bo");
            "Basic Ym86"
        }
    }
}

/// A registry of `n` that is told apart from others by where it is (not by how that is written).
fn reg(from: usize) -> At {
    REGS[from + sym::choose(REGS.len() - from)]
}

fn client(auth: Vec<(String, String, String)>, s: &Arc<Server>, r: &At) -> OroClient {
    let b: OroClientBuilder = orogene::verif::client(auth).expect("client");
    b.retries(0).registry(r.url().parse().expect("registry")).transport(s.clone()).build()
}

fn check_auth(seen: &Seen, creds: &[(At, &'static str)], r: &At, target: &At) {
    sym::observe("url", seen.url.as_str());
    sym::observe("auth", &seen.auth.join(","));
    let want = if r.holds(target) { creds.iter().find(|(at, _)| at.same(r)).map(|c| c.1) } else { None };
    match want {
        Some(h) => {
            sym::check(seen.auth.len() == 1 && seen.auth[0] == h, "requests inside a registry carry its credentials, once");
            sym::cover("with");
        }
        None => {
            sym::check(seen.auth.is_empty(), "no credentials leave the registry they are for");
            sym::cover("without");
        }
    }
}

fn packument(name: &str, tarball: &str) -> Vec<u8> {
    let mut s = String::from("{\"name\":\"");
    s.push_str(name);
    s.push_str("\",\"dist-tags\":{\"latest\":\"1.0.0\"},\"versions\":{\"1.0.0\":{\"name\":\"");
    s.push_str(name);
    s.push_str("\",\"version\":\"1.0.0\",\"dist\":{\"tarball\":\"");
    s.push_str(tarball);
    s.push_str("\"}}}}");
    s.into_bytes()
}

crate::harnesses! {
    // any request of the client, in any registry, with credentials for any one or two registries
    h_net_auth {
        let mut auth = vec![];
        let c1 = reg(0);
        let mut creds = vec![(c1, cred(&c1, sym::choose(5), &mut auth))];
        if sym::bool() {
            let c2 = reg(0);
            sym::assume(!c2.same(&c1));
            creds.push((c2, cred2(&c2, sym::choose(4), &mut auth)));
            if sym::bool() { auth.reverse() }
        }
        let s = Arc::new(server(200, b"{\"token\":\"t\",\"loginUrl\":\"l\",\"doneUrl\":\"d\"}"));
        let r = reg(0);
        let c = client(auth, &s, &r);
        let mut want = r.base();
        let ok = match sym::choose(6) {
            0 => { want.push_str("a"); run(c.packument("a")).is_ok() }
            1 => { want.push_str("@s/a"); run(c.corgi_packument("@s/a")).is_ok() }
            2 => { want.push_str("-/user/token/t"); run(c.delete_token(&"t".to_string())).is_ok() }
            3 => { want.push_str("-/v1/login"); run(c.login_web(&LoginOptions::default())).is_ok() }
            4 => { want.push_str("-/user/org.couchdb.user:u"); run(c.login_couch("u", "p", None, &LoginOptions::default())).is_ok() }
            _ => { want.push_str("-/ping?write=true"); run(c.ping()).is_ok() }
        };
        sym::check(ok, "the answer is used");
        let seen = s.seen.lock().expect("lock");
        sym::check(seen.len() == 1, "one request");
        sym::check(seen[0].url.as_str() == want, "requests go to the registry");
        check_auth(&seen[0], &creds, &r, &At { path: "/x/any", ..r });
    }

    // a file anywhere
    h_net_tarball {
        let mut auth = vec![];
        let c1 = reg(0);
        let creds = vec![(c1, cred(&c1, sym::choose(5), &mut auth))];
        let r = reg(0);
        let t = TARBALLS[sym::choose(TARBALLS.len())];
        let s = Arc::new(server(200, b"{}"));
        let c = client(auth, &s, &r);
        let ok = run(c.stream_external(&t.url().parse().expect("url"))).is_ok();
        sym::check(ok, "the answer is used");
        let seen = s.seen.lock().expect("lock");
        sym::check(seen.len() == 1, "one request");
        sym::check(seen[0].url.as_str() == t.url(), "files come from where they are");
        check_auth(&seen[0], &creds, &r, &t);
    }

    // resolving and fetching a package: the registry of its scope is asked, with its credentials only
    h_net_package {
        let mut auth = vec![];
        let c1 = REGS[sym::choose(2) * 2];
        let creds = vec![(c1, cred(&c1, 0, &mut auth))];
        let main = REGS[[0, 1, 4][sym::choose(3)]];
        let scoped = match sym::choose(3) {
            0 => None,
            1 => Some(REGS[2]),
            _ => Some(REGS[3]),
        };
        let (spec, name, at) = match sym::choose(5) {
            0 => ("a@1.0.0", "a", None),
            1 => ("@s/a", "@s/a", scoped),
            2 => ("b@npm:@s/a@^1", "@s/a", scoped),
            3 => ("@s/b@npm:a", "a", None),
            _ => ("@q/a@latest", "@q/a", None),
        };
        let r = at.unwrap_or(main);
        let t = TARBALLS[sym::choose(TARBALLS.len())];
        let mut srv = server(200, b"");
        let mut purl = r.base();
        purl.push_str(name);
        srv.bodies.push((purl.clone(), packument(name, &t.url())));
        let s = Arc::new(srv);
        let c = client(auth, &s, &main);
        let mut o = NassunOpts::new().client(c).registry(main.url().parse().expect("registry")).base_dir("/p");
        if let Some(x) = scoped {
            o = o.scope_registry(if sym::bool() { "@s" } else { "s" }, x.url().parse().expect("registry"));
        }
        let n = o.build();
        let p = run(n.resolve(spec));
        sym::check(p.is_ok(), "resolves");
        let Ok(p) = p else { return };
        sym::check(run(p.tarball_unchecked()).is_ok(), "fetches");
        let full = sym::bool();
        if full {
            sym::check(run(p.packument()).is_ok(), "full metadata");
        }
        let seen = s.seen.lock().expect("lock");
        let k = seen.iter().filter(|q| q.url.as_str() == t.url()).count();
        sym::check(k == 1, "one request for the file");
        for q in seen.iter() {
            if q.url.as_str() == t.url() {
                check_auth(q, &creds, &r, &t);
            } else {
                sym::check(q.url.as_str() == purl, "metadata comes from the registry of the package's scope");
                check_auth(q, &creds, &r, &At { path: "/x/any", ..r });
            }
        }
        if full { sym::cover("full") }
    }

    // paths
    h_net_path {
        let mut rp = String::from("https://r.example/");
        rp.push_str(&sym::string(0, 3, "xy/"));
        let mut tp = String::from("https://r.example/");
        tp.push_str(&sym::string(1, 4, "xy/."));
        let r: Url = rp.parse().expect("registry");
        let t: Url = tp.parse().expect("file");
        let s = Arc::new(server(200, b"{}"));
        let b = orogene::verif::client(vec![(rp.clone(), "token".to_string(), "t0k".to_string())]).expect("client");
        let c = b.retries(0).registry(r.clone()).transport(s.clone()).build();
        sym::check(run(c.stream_external(&t)).is_ok(), "the answer is used");
        let seen = s.seen.lock().expect("lock");
        sym::check(seen.len() == 1, "one request");
        let mut dir = r.path().trim_end_matches('/').to_string();
        dir.push('/');
        let p = seen[0].url.path();
        sym::check(p == t.path(), "files come from where they are");
        sym::observe("reg", r.path());
        sym::observe("path", p);
        sym::observe("auth", &seen[0].auth.join(","));
        if p.len() + 1 == dir.len() {
            // the registry itself, without its slash
            sym::assume(!dir.starts_with(p));
        }
        if p.starts_with(&dir) {
            sym::check(seen[0].auth.len() == 1 && seen[0].auth[0] == "Bearer t0k", "requests inside a registry carry its credentials, once");
            sym::cover("with");
        } else {
            sym::check(seen[0].auth.is_empty(), "no credentials leave the registry they are for");
            sym::cover("without");
        }
    }

    // a repository on a known host, at a commit
    h_net_git {
        let (spec, url) = [
            ("o/r#c1", "https://codeload.github.com/o/r/tar.gz/c1"),
            ("github:o/r#c1", "https://codeload.github.com/o/r/tar.gz/c1"),
            ("b@gitlab:o/r#c1", "https://gitlab.com/o/r/repository/archive.tar.gz?ref=c1"),
            ("bitbucket:o/r#c1", "https://bitbucket.org/o/r/get/c1.tar.gz"),
        ][sym::choose(4)];
        let top = sym::string(1, 2, "pr-.");
        sym::assume(!top.starts_with('.'));
        let mut m = String::from("{\"version\":\"1.2.3\"");
        let named = sym::bool();
        if named { m.push_str(",\"name\":\"n\""); }
        m.push('}');
        let mut f = top.clone();
        f.push_str("/package.json");
        let mut g = top.clone();
        g.push_str("/lib/package.json");
        let mut files = vec![
            sym::TarFile { path: f, mode: 0o644, kind: b'0', data: m },
            sym::TarFile { path: g, mode: 0o644, kind: b'0', data: "{\"name\":\"x\",\"version\":\"2.0.0\"}".to_string() },
        ];
        if sym::bool() { files.reverse(); }
        let mut srv = server(200, b"");
        srv.bodies.push((url.to_string(), sym::tgz(&files)));
        let s = Arc::new(srv);
        let c = client(vec![], &s, &REGS[0]);
        let n = NassunOpts::new().client(c).registry(REGS[0].url().parse().expect("registry")).base_dir("/p").build();
        let p = run(n.resolve(spec));
        sym::check(p.is_ok(), "resolves");
        let Ok(p) = p else { return };
        let alias = spec.starts_with("b@");
        if alias {
            sym::check(p.name() == "b", "aliases name their packages");
        } else if named {
            sym::check(p.name() == "n", "its manifest names the package");
        }
        let md = run(p.corgi_metadata());
        sym::check(md.is_ok(), "has a manifest");
        let Ok(md) = md else { return };
        sym::check(md.manifest.version.as_ref().map(|v| v.minor) == Some(2), "the manifest is the one of the repository");
        let seen = s.seen.lock().expect("lock");
        sym::check(!seen.is_empty() && seen.iter().all(|q| q.url.as_str() == url && q.auth.is_empty()), "the repository's archive is what is read");
        if alias { sym::cover("alias") } else { sym::cover("direct") }
    }

    // any name a spec can have
    h_net_name {
        let mut t = sym::pick(&["", "@", "x@npm:", "@s/"]).to_string();
        t.push_str(&sym::string(0, 4, "@a/.%:\\?#~"));
        let Ok(p) = t.parse::<nassun::PackageSpec>() else { return };
        let nassun::PackageSpec::Npm { name, .. } = p.target() else { return };
        sym::observe("name", name);
        let r = REGS[sym::choose(3)];
        let s = Arc::new(server(200, b"{}"));
        let c = client(vec![], &s, &r);
        let ok = if sym::bool() { run(c.packument(name)).is_ok() } else { run(c.corgi_packument(name)).is_ok() };
        let seen = s.seen.lock().expect("lock");
        sym::check(ok && seen.len() == 1, "one request");
        let mut want = r.base();
        want.push_str(name);
        sym::observe("url", seen[0].url.as_str());
        sym::check(seen[0].url.as_str() == want, "a package is looked up by its name in the registry");
        sym::cover(if name.starts_with('@') { "scoped" } else { "plain" });
    }

    // any status, text that is not what was asked for
    h_net_answer {
        let status = STATUS[sym::choose(STATUS.len())];
        let mut body = sym::pick(&["", "{\"token\":\"t\"", "{\"loginUrl\":\"", "{\"authUrl\":\"a\",\"doneUrl\":\"d\"", "One-time pass"]).to_string();
        body.push_str(&sym::string(0, 3, "\"}:,1a\n"));
        answer(status, &body);
    }

    // long text around the mistake
    h_net_long {
        let mut body = String::from("{\"versions\":\"");
        for _ in 0..sym::choose(3) { body.push('x') }
        let wide = sym::pick(&["x", "é", "€", "𝄞", "\n"]);
        for _ in 0..17 + sym::choose(4) { body.push_str(wide) }
        body.push_str(sym::pick(&["", "\"", "\"}", "\u{1}", "\\q"]));
        for _ in 0..sym::choose(3) { body.push_str("x") }
        let n = sym::choose(4);
        for _ in 0..n * 7 { body.push_str(wide) }
        answer(200, &body);
    }

    // headers are bytes
    h_net_headers {
        let status = [200, 202, 401, 403, 503][sym::choose(5)];
        let mut s = server(status, b"{}");
        let mut v = sym::pick(&["", "otp", "bearer", "1"]).as_bytes().to_vec();
        if sym::bool() {
            v.push([9, b' ', b'a', b'0', 0x80, 0xc3, 0xf0, 0xff][sym::choose(8)]);
            if sym::bool() { v.push(0xa9) }
        }
        s.headers.push((sym::pick(&["www-authenticate", "retry-after", "npm-notice"]), v));
        ask(s);
    }

    // the answers to a login
    h_net_login {
        let kind = sym::choose(6);
        let otp = if sym::bool() { Some("123") } else { None };
        let field = |k: usize| ["", "null", "1", "\"a\""][k];
        let (mut a, mut d) = (0, 0);
        let mut web = String::from("{");
        if kind == 2 {
            a = sym::choose(4);
            d = sym::choose(4);
            if a > 0 {
                web.push_str("\"authUrl\":");
                web.push_str(field(a));
            }
            if d > 0 {
                web.push_str(if a > 0 { ",\"doneUrl\":" } else { "\"doneUrl\":" });
                web.push_str(field(d));
            }
        }
        web.push('}');
        let (status, body) = match kind {
            0 => (200, "{\"token\":\"tt\"}"),
            1 => (400, "{}"),
            2 => (401, web.as_str()),
            3 => (401, "one-time pass"),
            4 => (401, "{}"),
            _ => (STATUS[sym::choose(STATUS.len())], "{}"),
        };
        let mut s = server(status, body.as_bytes());
        let www = sym::choose(5);
        if www > 0 { s.headers.push(("www-authenticate", ["otp", "OTP", "Basic realm=x", "Bearer"][www - 1].as_bytes().to_vec())) }
        let s = Arc::new(s);
        let c = client(vec![], &s, &REGS[0]);
        let r = run(c.login_couch("u", "p", otp, &LoginOptions::default()));
        use oro_client::login::LoginCouchResponse as L;
        use oro_client::OroClientError as E;
        let wants_otp = www == 1 || www == 2 || kind == 3;
        match status {
            400 => sym::check(matches!(r, Err(E::NoSuchUserError(_))), "no such user"),
            401 if wants_otp && otp.is_some() => sym::check(matches!(r, Err(E::OTPRequiredError)), "the one-time password was wrong"),
            401 if wants_otp && a == 3 && d == 3 => sym::check(matches!(r, Ok(L::WebOTP { ref auth_url, ref done_url }) if auth_url == "a" && done_url == "a"), "web one-time password"),
            401 if wants_otp => sym::check(matches!(r, Ok(L::ClassicOTP)), "one-time password"),
            401 if www == 3 => sym::check(matches!(r, Err(E::IncorrectPasswordError)), "wrong password"),
            401 if www == 4 => sym::check(matches!(r, Err(E::InvalidTokenError)), "invalid token"),
            x if x >= 400 => sym::check(r.is_err(), "errors are errors"),
            _ if kind == 0 => sym::check(matches!(r, Ok(L::Token(ref t)) if t == "tt"), "the token given"),
            _ => sym::check(r.is_err(), "no token given"),
        }
        if r.is_ok() { sym::cover("ok") } else { sym::cover("err") }
    }

    // how long to wait for the user
    h_net_wait {
        let status = [200, 202][sym::choose(2)];
        let mut s = server(status, b"{\"token\":\"tt\"}");
        let v = sym::string(0, 3, "0189");
        let has = sym::bool();
        if has { s.headers.push(("retry-after", v.clone().into_bytes())) }
        let s = Arc::new(s);
        let c = client(vec![], &s, &REGS[0]);
        let r = run(c.fetch_done_url("https://r.example/done"));
        use oro_client::login::DoneURLResponse as D;
        if status == 200 {
            sym::check(matches!(r, Ok(D::Token(ref t)) if t == "tt"), "the token given");
            sym::cover("token");
        } else if has && !v.is_empty() {
            let mut n = 0;
            for b in v.bytes() { n = n * 10 + (b - b'0') as u64 }
            sym::check(matches!(r, Ok(D::Duration(d)) if d.as_secs() == n), "the time asked for");
            sym::cover("wait");
        } else {
            sym::check(r.is_err(), "no time given");
            sym::cover("err");
        }
    }
}

const STATUS: &[u16] = &[200, 201, 202, 204, 304, 400, 401, 403, 404, 429, 500, 503];

fn answer(status: u16, body: &str) {
    ask(server(status, body.as_bytes()));
}

/// Any request, answered: what comes back is a value or an error.
fn ask(s: Server) {
    let status = s.status;
    let s = Arc::new(s);
    let c = client(vec![], &s, &REGS[2]);
    let o = LoginOptions::default();
    let (ok, label) = match sym::choose(7) {
        0 => (run(c.packument("a")).is_ok(), "packument"),
        1 => (run(c.corgi_packument("a")).is_ok(), "corgi"),
        2 => (run(c.login_web(&o)).is_ok(), "web"),
        3 => (run(c.login_couch("u", "p", None, &o)).is_ok(), "couch"),
        4 => (run(c.fetch_done_url("https://r.example/x/done")).is_ok(), "done"),
        5 => (run(c.ping()).is_ok(), "ping"),
        _ => (run(c.stream_external(&"https://r.example/x/a.tgz".parse().expect("url"))).is_ok(), "file"),
    };
    if ok { sym::cover("ok") } else { sym::cover("err") }
    // a request for a second factor is no failure
    let second = status == 401 && label == "couch";
    sym::check(!ok || status < 400 || second, "an error answer is an error");
    sym::check(s.seen.lock().expect("lock").len() == 1, "one request");
    sym::observe("label", label);
}
