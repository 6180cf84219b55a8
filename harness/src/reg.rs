//! An in-memory registry standing in for the network: a `PackageFetcher` over an arbitrary set of
//! packages. Every request may be answered at once or late (after `delay` polls), so the order in
//! which concurrent requests complete is arbitrary.
use crate::sym;
use async_trait::async_trait;
use nassun::fetch::PackageFetcher;
use nassun::{Nassun, NassunError, Package, PackageResolution, PackageSpec};
use node_semver::Version;
use oro_common::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Debug, Clone)]
pub struct Ver {
    pub version: Version,
    pub deps: Vec<(String, String)>,
    pub opt: Vec<(String, String)>,
    /// neither of these two is installed for a dependency
    pub dev: Vec<(String, String)>,
    pub peer: Vec<(String, String)>,
    /// more fields of its package.json, as `,"k":v`
    pub json: String,
    /// its other files: path and contents
    pub files: Vec<(String, String)>,
    /// executables declared in `json`: name and file
    pub bins: Vec<(String, String)>,
    pub integrity: Option<String>,
    pub shasum: Option<String>,
}

#[derive(Debug, Clone)]
pub struct Pkg {
    pub name: String,
    pub versions: Vec<Ver>,
    pub tags: Vec<(String, Version)>,
}

#[derive(Debug)]
pub struct Reg {
    pub pkgs: Vec<Pkg>,
    pub delay: usize,
}

/// Pending `0` times or more, waking itself each time.
pub struct Later(pub usize);
impl std::future::Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

pub fn v(s: &str) -> Version {
    s.parse().expect("version")
}

pub fn tarball(name: &str, v: &Version) -> String {
    format!("https://r.example/{}/-/{}.{}.{}.tgz", name, v.major, v.minor, v.patch)
}

impl Reg {
    pub fn nassun(self) -> Nassun {
        Nassun::with_fetcher(Arc::new(self), PathBuf::from("."), None, "latest".to_string())
    }

    pub fn pkg(&self, name: &str) -> Option<&Pkg> {
        self.pkgs.iter().find(|p| p.name == name)
    }

    fn corgi(&self, name: &str) -> Option<CorgiPackument> {
        let p = self.pkg(name)?;
        let mut versions = HashMap::new();
        for ver in &p.versions {
            let mut m = CorgiManifest {
                name: Some(p.name.clone()),
                version: Some(ver.version.clone()),
                ..Default::default()
            };
            for (n, s) in &ver.deps {
                m.dependencies.insert(n.clone(), s.clone());
            }
            for (n, s) in &ver.opt {
                m.optional_dependencies.insert(n.clone(), s.clone());
            }
            for (n, s) in &ver.dev {
                m.dev_dependencies.insert(n.clone(), s.clone());
            }
            for (n, s) in &ver.peer {
                m.peer_dependencies.insert(n.clone(), s.clone());
            }
            versions.insert(
                ver.version.clone(),
                CorgiVersionMetadata {
                    dist: CorgiDist {
                        tarball: Some(tarball(&p.name, &ver.version).parse().expect("url")),
                        integrity: ver.integrity.clone(),
                        shasum: ver.shasum.clone(),
                        ..Default::default()
                    },
                    manifest: m,
                    ..Default::default()
                },
            );
        }
        let mut tags = HashMap::new();
        for (t, ver) in &p.tags {
            tags.insert(t.clone(), ver.clone());
        }
        Some(CorgiPackument { versions, tags })
    }
}

#[async_trait]
impl PackageFetcher for Reg {
    async fn name(&self, spec: &PackageSpec, _: &Path) -> Result<String, NassunError> {
        match spec {
            PackageSpec::Npm { name, .. } | PackageSpec::Alias { name, .. } => Ok(name.clone()),
            _ => Err(NassunError::DummyNoName),
        }
    }
    async fn metadata(&self, pkg: &Package) -> Result<VersionMetadata, NassunError> {
        Ok(self.corgi_metadata(pkg).await?.into())
    }
    async fn packument(&self, spec: &PackageSpec, dir: &Path) -> Result<Arc<Packument>, NassunError> {
        let c = self.corgi_packument(spec, dir).await?;
        let c: CorgiPackument = (*c).clone();
        Ok(Arc::new(c.into()))
    }
    async fn corgi_metadata(&self, pkg: &Package) -> Result<CorgiVersionMetadata, NassunError> {
        let wanted = match pkg.resolved() {
            PackageResolution::Npm { version, .. } => version,
            _ => return Err(NassunError::DummyNoName),
        };
        let name = match pkg.from().target() {
            PackageSpec::Npm { name, .. } => name,
            _ => return Err(NassunError::DummyNoName),
        };
        let p = self.corgi(name).ok_or(NassunError::DummyNoName)?;
        p.versions
            .get(wanted)
            .cloned()
            .ok_or_else(|| NassunError::MissingVersion(pkg.from().clone(), wanted.clone()))
    }
    async fn corgi_packument(&self, spec: &PackageSpec, _: &Path) -> Result<Arc<CorgiPackument>, NassunError> {
        if self.delay > 0 {
            Later(if sym::bool() { self.delay } else { 0 }).await;
        }
        let name = match spec.target() {
            PackageSpec::Npm { name, .. } => name,
            _ => return Err(NassunError::DummyNoName),
        };
        match self.corgi(name) {
            Some(c) => Ok(Arc::new(c)),
            None => Err(NassunError::DummyNoName),
        }
    }
    async fn tarball(&self, pkg: &Package) -> Result<Box<dyn futures::AsyncRead + Unpin + Send + Sync>, NassunError> {
        if self.delay > 0 {
            Later(if sym::bool() { self.delay } else { 0 }).await;
        }
        let url = match pkg.resolved() {
            PackageResolution::Npm { tarball, .. } => tarball.as_str(),
            _ => return Err(NassunError::DummyNoName),
        };
        let mut all = self.pkgs.iter().flat_map(|p| p.versions.iter().map(move |v| (p.name.as_str(), v)));
        let (name, ver) = all.find(|(n, v)| tarball(n, &v.version) == url).ok_or(NassunError::DummyNoName)?;
        let mut files = vec![sym::TarFile { path: "package/package.json".into(), mode: 0o644, kind: b'0', data: package_json(name, ver) }];
        for (p, d) in &ver.files {
            files.push(sym::TarFile { path: format!("package/{p}"), mode: 0o644, kind: b'0', data: d.clone() });
        }
        Ok(Box::new(futures::io::Cursor::new(sym::tgz(&files))))
    }
}

pub fn package_json(name: &str, v: &Ver) -> String {
    format!("{{\"name\":\"{name}\",\"version\":\"{}.{}.{}\"{}}}", v.version.major, v.version.minor, v.version.patch, v.json)
}

pub fn ver(version: Version, deps: Vec<(String, String)>) -> Ver {
    Ver { version, deps, opt: vec![], dev: vec![], peer: vec![], json: String::new(), files: vec![], bins: vec![], integrity: None, shasum: None }
}
