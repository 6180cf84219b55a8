From b272b75697d8522fe256269f44c27f8cf8719089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 01/50] fix: don't panic on hosted git URLs without a path

---
 crates/oro-package-spec/src/parsers/git.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index f98f659..90d1327 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -85,7 +85,10 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
         | Some(host @ "gitlab.com")
         | Some(host @ "gist.github.com")
         | Some(host @ "bitbucket.org") => {
-            let path = (url.path()[1..])
+            let path = url.path();
+            let path = path
+                .strip_prefix('/')
+                .unwrap_or(path)
                 .split('/')
                 .map(String::from)
                 .collect::<Vec<String>>();
-- 
2.43.0


From 4c8c6397232e884b42ba8300bbbe21bb1512f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 02/50] fix: only strip the .git suffix from hosted git
 repository names

---
 crates/oro-package-spec/src/parsers/git.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/git.rs b/crates/oro-package-spec/src/parsers/git.rs
index 90d1327..07b911b 100644
--- a/crates/oro-package-spec/src/parsers/git.rs
+++ b/crates/oro-package-spec/src/parsers/git.rs
@@ -104,11 +104,7 @@ fn git_url(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo.clone()
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(url.to_string()),
@@ -162,11 +158,6 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                 .map(String::from)
                 .collect::<Vec<String>>();
             if let [owner, repo] = &path[..] {
-                let repo = if repo.ends_with(".git") {
-                    String::from(&repo[..].replace(".git", ""))
-                } else {
-                    repo.clone()
-                };
                 Ok((
                     input,
                     GitInfo::Hosted {
@@ -178,11 +169,7 @@ fn git_scp(input: &str) -> IResult<&str, GitInfo, SpecParseError<&str>> {
                             _ => unreachable!(),
                         },
                         owner: owner.clone(),
-                        repo: if repo.ends_with(".git") {
-                            String::from(&repo[..].replace(".git", ""))
-                        } else {
-                            repo
-                        },
+                        repo: repo.strip_suffix(".git").unwrap_or(repo).into(),
                         committish,
                         semver,
                         requested: Some(raw),
-- 
2.43.0


From 0e5f70bf7b2c1ff432019596e3f4408c6567e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 03/50] fix: use GitHub's tar.gz archive endpoint for tarballs

---
 crates/oro-package-spec/src/gitinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 9746d40..781e934 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -151,7 +151,7 @@ impl GitInfo {
             } => committish
                 .as_ref()
                 .map(|commit| match host {
-                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tag.gz/{commit}"),
+                    GitHub => format!("https://codeload.github.com/{owner}/{repo}/tar.gz/{commit}"),
                     Gist => format!("https://codeload.github.com/gist/{repo}/tar.gz/{commit}"),
                     GitLab => format!(
                         "https://gitlab.com/{owner}/{repo}/repository/archive.tar.gz?ref={commit}"
-- 
2.43.0


From ef869836c4bee811f67dad0fac5e12e0e64af965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 04/50] fix: use Bitbucket's actual domain for clone URLs

---
 crates/oro-package-spec/src/gitinfo.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index 781e934..f659013 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -111,7 +111,7 @@ impl GitInfo {
                 GitHub => format!("git@github.com:{owner}/{repo}.git"),
                 Gist => format!("git@gist.github.com:/{repo}"),
                 GitLab => format!("git@gitlab.com:{owner}/{repo}.git"),
-                Bitbucket => format!("git@bitbucket.com:{owner}/{repo}"),
+                Bitbucket => format!("git@bitbucket.org:{owner}/{repo}"),
             })
             .map(|url| url.parse().expect("URL failed to parse")),
         }
@@ -131,7 +131,7 @@ impl GitInfo {
                 GitHub => format!("https://github.com/{owner}/{repo}.git"),
                 Gist => format!("https://gist.github.com/{repo}.git"),
                 GitLab => format!("https://gitlab.com/{owner}/{repo}.git"),
-                Bitbucket => format!("https://bitbucket.com/{owner}/{repo}.git"),
+                Bitbucket => format!("https://bitbucket.org/{owner}/{repo}.git"),
             })
             .map(|url| url.parse().expect("URL failed to parse")),
         }
-- 
2.43.0


From ce26401468023afd5850226b19d317df6c64b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 05/50] fix: display scp-style hosted git specs in a form that
 parses back

---
 crates/oro-package-spec/src/gitinfo.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/oro-package-spec/src/gitinfo.rs b/crates/oro-package-spec/src/gitinfo.rs
index f659013..69c18d1 100644
--- a/crates/oro-package-spec/src/gitinfo.rs
+++ b/crates/oro-package-spec/src/gitinfo.rs
@@ -205,7 +205,12 @@ impl fmt::Display for GitInfo {
                 semver,
             } => {
                 if let Some(requested) = requested {
-                    if !requested.starts_with("git://") {
+                    if !requested.contains("://") {
+                        // scp-style specs (user@host:path). No `git+` prefix:
+                        // it would be parsed as a URL if the path looks like
+                        // it starts with a port.
+                        write!(f, "ssh://")?;
+                    } else if !requested.starts_with("git://") {
                         write!(f, "git+")?;
                     }
                     write!(f, "{requested}")?;
-- 
2.43.0


From bbdc041300a39a9c089fecce58383deff5327bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 06/50] fix: don't parse relative paths with an @ in them as
 aliases

---
 crates/oro-package-spec/src/parsers/alias.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index ba61508..8a9d347 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -1,6 +1,6 @@
 use nom::branch::alt;
 use nom::bytes::complete::{tag_no_case as tag, take_till1};
-use nom::combinator::{map, map_res, opt};
+use nom::combinator::{map, map_res, not, opt};
 use nom::error::context;
 use nom::sequence::{preceded, tuple};
 use nom::IResult;
@@ -15,12 +15,15 @@ pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseErr
         "alias",
         map(
             tuple((
+                // Anything starting with a `.` is a path, even if there's an
+                // `@` in it.
+                not(tag(".")),
                 opt(scope),
                 map_res(take_till1(|c| c == '@' || c == '/'), util::no_url_encode),
                 tag("@"),
                 prefixed_package_spec,
             )),
-            |(scope, name, _, arg)| {
+            |(_, scope, name, _, arg)| {
                 let mut fullname = String::new();
                 if let Some(scope) = scope {
                     fullname.push_str(&scope);
-- 
2.43.0


From 17472d7a3bba16c0d68a1cfef43bcc3a630bc03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 07/50] fix: keep bin targets inside the package

---
 crates/oro-common/src/build_manifest.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 27d0800..41a6b90 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::HashMap,
     ffi::OsStr,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -133,16 +133,17 @@ impl BuildManifest {
 
             let base = base.unwrap();
 
-            let bin_target = Path::new("/")
-                .join(bin.to_string_lossy().to_string())
-                .strip_prefix(
-                    #[cfg(windows)]
-                    "\\",
-                    #[cfg(not(windows))]
-                    "/",
-                )
-                .expect("We added this ourselves")
-                .to_path_buf();
+            // Bin targets are relative to the package, and must stay inside it.
+            let mut bin_target = PathBuf::new();
+            for component in bin.components() {
+                match component {
+                    Component::Normal(component) => bin_target.push(component),
+                    Component::ParentDir => {
+                        bin_target.pop();
+                    }
+                    _ => {}
+                }
+            }
             if bin_target == Path::new("") {
                 continue;
             }
-- 
2.43.0


From ce36ed45c878f4ec857bf9e341b88d6f2020039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 08/50] fix: keep deprecation info when converting abbreviated
 version metadata

---
 crates/oro-common/src/packument.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/oro-common/src/packument.rs b/crates/oro-common/src/packument.rs
index e477637..4491128 100644
--- a/crates/oro-common/src/packument.rs
+++ b/crates/oro-common/src/packument.rs
@@ -109,6 +109,7 @@ impl From<CorgiVersionMetadata> for VersionMetadata {
         VersionMetadata {
             dist: value.dist.into(),
             has_shrinkwrap: value.has_shrinkwrap,
+            deprecated: value.deprecated,
             manifest: value.manifest.into(),
             ..Default::default()
         }
-- 
2.43.0


From 57329d230cfd915cf217011f7ac6dd967f6df167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 09/50] hook: build a Nassun around a given fetcher under
 cfg(oro_verif)

---
 crates/nassun/src/client.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/crates/nassun/src/client.rs b/crates/nassun/src/client.rs
index bc457d3..0731137 100644
--- a/crates/nassun/src/client.rs
+++ b/crates/nassun/src/client.rs
@@ -334,6 +334,27 @@ impl Nassun {
         }
     }
 
+    /// Creates a `Nassun` that gets its registry and git packages from
+    /// `fetcher`, so it can be verified without a network.
+    #[cfg(oro_verif)]
+    pub fn with_fetcher(
+        fetcher: Arc<dyn PackageFetcher>,
+        base_dir: PathBuf,
+        cache: Option<PathBuf>,
+        default_tag: String,
+    ) -> Self {
+        Nassun {
+            cache: Arc::new(cache),
+            resolver: PackageResolver {
+                base_dir,
+                default_tag,
+            },
+            npm_fetcher: fetcher.clone(),
+            dir_fetcher: Arc::new(DirFetcher::new()),
+            git_fetcher: fetcher,
+        }
+    }
+
     fn pick_fetcher(&self, arg: &PackageSpec) -> Arc<dyn PackageFetcher> {
         use PackageSpec::*;
         match *arg {
-- 
2.43.0


From 714072107e8afed5b8e698e7ffbb46309563cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:02 +0000
Subject: [PATCH 10/50] fix: read a package's shasum as the hex sha1 it is, not
 as base64

---
 crates/nassun/src/resolver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/nassun/src/resolver.rs b/crates/nassun/src/resolver.rs
index 87ec99f..e4c330b 100644
--- a/crates/nassun/src/resolver.rs
+++ b/crates/nassun/src/resolver.rs
@@ -269,7 +269,7 @@ impl PackageResolver {
                             v.dist
                                 .shasum
                                 .as_ref()
-                                .map(|s| format!("sha1-{}", s).parse())
+                                .map(|s| Integrity::from_hex(s, ssri::Algorithm::Sha1))
                         })
                         .transpose()?,
                 })
-- 
2.43.0


From 9cdce02762f9447a6ff7130948318854aa97eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 11/50] fix: --locked never matched: a lockfile doesn't record
 the root's name and resolution

---
 crates/node-maintainer/src/graph.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/node-maintainer/src/graph.rs b/crates/node-maintainer/src/graph.rs
index 921fdd5..8844c61 100644
--- a/crates/node-maintainer/src/graph.rs
+++ b/crates/node-maintainer/src/graph.rs
@@ -370,10 +370,17 @@ impl Graph {
     ) -> Result<LockfileNode, NodeMaintainerError> {
         let path = self.node_path(node);
         let node = &self.inner[node];
+        // A lockfile doesn't record the name and resolution of the root.
+        let name = if is_root {
+            UniCase::new("".to_string())
+        } else {
+            UniCase::new(node.package.name().to_string())
+        };
         let resolved = match node.package.resolved() {
-            PackageResolution::Npm { tarball, .. } => tarball.to_string(),
-            PackageResolution::Dir { path, .. } => path.to_string_lossy().into(),
-            PackageResolution::Git { info, .. } => info.to_string(),
+            _ if is_root => None,
+            PackageResolution::Npm { tarball, .. } => Some(tarball.to_string()),
+            PackageResolution::Dir { path, .. } => Some(path.to_string_lossy().into()),
+            PackageResolution::Git { info, .. } => Some(info.to_string()),
         };
         let version = if let PackageResolution::Npm { version, .. } = node.package.resolved() {
             Some(version.clone())
@@ -400,10 +407,10 @@ impl Graph {
             deps.insert(name.to_string(), requested.requested().clone());
         }
         Ok(LockfileNode {
-            name: UniCase::new(node.package.name().to_string()),
+            name,
             is_root,
             path: path.into(),
-            resolved: Some(resolved),
+            resolved,
             version,
             dependencies: prod_deps,
             dev_dependencies: dev_deps,
-- 
2.43.0


From cdea2f17512e166064c7b480527f12c83ca8b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 12/50] fix: a package-lock.json's root is not one of its
 packages

---
 crates/node-maintainer/src/lockfile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/node-maintainer/src/lockfile.rs b/crates/node-maintainer/src/lockfile.rs
index 191b1a6..a583435 100644
--- a/crates/node-maintainer/src/lockfile.rs
+++ b/crates/node-maintainer/src/lockfile.rs
@@ -95,6 +95,7 @@ impl Lockfile {
             let packages = npm
                 .packages
                 .iter()
+                .filter(|(path, _)| !path.is_empty())
                 .map(|(path, entry)| LockfileNode::from_npm(path, entry))
                 .map(|node| {
                     let node = node?;
-- 
2.43.0


From f5308821c168fc362040d61318fe9463d9c7e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 13/50] fix: honour a lockfile's nested packages when an outer
 one satisfies too

---
 crates/node-maintainer/src/resolver.rs | 67 +++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/crates/node-maintainer/src/resolver.rs b/crates/node-maintainer/src/resolver.rs
index 49cad17..d0c7033 100644
--- a/crates/node-maintainer/src/resolver.rs
+++ b/crates/node-maintainer/src/resolver.rs
@@ -127,7 +127,37 @@ impl<'a> Resolver<'a> {
                         handler();
                     }
 
-                    if let Some(_child_idx) = Self::satisfy_dependency(&mut self.graph, &dep)? {
+                    let lock = if lockfile.is_some() {
+                        &lockfile
+                    } else {
+                        // Fall back to the actual tree lock if it's there.
+                        &self.actual_tree
+                    };
+
+                    // Something that's already placed might satisfy this, but
+                    // the lockfile has the last word if it wants another
+                    // package nearer to the dependent than that.
+                    let locked_nearer = match lock {
+                        Some(kdl_lock) if Self::is_locked_nearer(&self.graph, &dep, kdl_lock)? => {
+                            self.satisfy_from_lockfile(
+                                &self.graph,
+                                node_idx,
+                                kdl_lock,
+                                &name,
+                                &dep.spec,
+                            )
+                            .await?
+                            .is_some()
+                        }
+                        _ => false,
+                    };
+                    let satisfied = if locked_nearer {
+                        None
+                    } else {
+                        Self::satisfy_dependency(&mut self.graph, &dep)?
+                    };
+
+                    if let Some(_child_idx) = satisfied {
                         if let Some(handler) = &self.on_resolve_progress {
                             handler(&self.graph[_child_idx].package, dep.start.elapsed());
                         }
@@ -138,12 +168,6 @@ impl<'a> Resolver<'a> {
                     else {
                         // If we have a lockfile, first check if there's a
                         // dep there that would satisfy this.
-                        let lock = if lockfile.is_some() {
-                            &lockfile
-                        } else {
-                            // Fall back to the actual tree lock if it's there.
-                            &self.actual_tree
-                        };
                         if let Some(kdl_lock) = lock {
                             if let Some((package, lockfile_node)) = self
                                 .satisfy_from_lockfile(
@@ -300,6 +324,35 @@ impl<'a> Resolver<'a> {
         Ok(None)
     }
 
+    /// Whether the lockfile has a package for this dependency in a place where
+    /// it would be found before the one that's currently in the graph.
+    fn is_locked_nearer(
+        graph: &Graph,
+        dep: &NodeDependency,
+        lockfile: &Lockfile,
+    ) -> Result<bool, NodeMaintainerError> {
+        let Some(placed_idx) = graph.find_by_name(dep.node_idx, &dep.name)? else {
+            return Ok(false);
+        };
+        let placed_depth = graph.node_path(placed_idx).len();
+        let mut path = graph.node_path(dep.node_idx);
+        while path.len() >= placed_depth {
+            path.push_back(dep.name.clone());
+            let path_str = UniCase::from(
+                path.iter()
+                    .map(|x| x.to_string())
+                    .collect::<Vec<_>>()
+                    .join("/node_modules/"),
+            );
+            if lockfile.packages().contains_key(&path_str) {
+                return Ok(true);
+            }
+            path.pop_back();
+            path.pop_back();
+        }
+        Ok(false)
+    }
+
     async fn satisfy_from_lockfile(
         &self,
         graph: &Graph,
-- 
2.43.0


From 10ee87a43dda8e627ed1906cf67c8aedd538ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 14/50] fix: installing over existing directories failed

---
 crates/node-maintainer/src/linkers/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index e6b52b4..0f72697 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -491,12 +491,16 @@ pub(crate) fn mkdirp(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).io_context(|| {
-                format!(
-                    "Failed to create directory {} while extracting.",
-                    path.display()
-                )
-            })?;
+            // It may be there already, from an earlier installation or because
+            // another task just created it.
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .io_context(|| {
+                    format!(
+                        "Failed to create directory {} while extracting.",
+                        path.display()
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).io_context(|| {
-- 
2.43.0


From 0b9c26906c37ec6b51a43f91f0f6c0fca14808a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 15/50] fix: prune extraneous scoped and nested packages
 (hoisted)

---
 crates/node-maintainer/src/linkers/hoisted.rs | 137 +++++++-----------
 1 file changed, 55 insertions(+), 82 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 619c21b..d5348ae 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -1,6 +1,6 @@
 use std::collections::HashSet;
 use std::ffi::OsStr;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::atomic::AtomicUsize;
 use std::sync::{atomic, Arc};
 
@@ -108,94 +108,67 @@ impl HoistedLinker {
         let bin_osstr = Some(std::ffi::OsStr::new(".bin"));
         let meta = prefix.join(META_FILE_NAME);
         let mut extraneous_packages = 0;
-        let extraneous = &mut extraneous_packages;
+        let actual_tree = self.opts.actual_tree.as_ref();
+        let ideal_tree = graph.to_lockfile()?;
 
-        for entry in WalkDir::new(&prefix)
-            .into_iter()
-            .filter_entry(move |entry| {
-                let entry_path = entry.path();
-
-                if entry_path == meta {
-                    // Skip the meta file
-                    return false;
-                }
-
-                let file_name = entry_path.file_name();
-
-                if file_name == nm_osstr {
-                    // We don't want to skip node_modules themselves
-                    return true;
-                }
-
-                if file_name == bin_osstr {
-                    return false;
-                }
-
-                if file_name
-                    .expect("this should have a file name")
-                    .to_string_lossy()
-                    .starts_with('@')
-                {
-                    // Let scoped packages through.
-                    return true;
-                }
-
-                // See if we're looking at a package dir, presumably (or a straggler file).
-                if entry_path
-                    .parent()
-                    .expect("this must have a parent")
-                    .file_name()
-                    == nm_osstr
-                {
-                    let entry_subpath_path = entry_path
-                        .strip_prefix(&prefix)
-                        .expect("this should definitely be under the prefix");
-                    let entry_subpath =
-                        UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
-
-                    let actual = self
-                        .opts
-                        .actual_tree
-                        .as_ref()
-                        .and_then(|tree| tree.packages.get(&entry_subpath));
-                    let ideal = graph
-                        .node_at_path(entry_subpath_path)
-                        .and_then(|node| graph.node_lockfile_node(node.idx, false).ok());
-                    // If the package is not in the actual tree, or it doesn't
-                    // match up with what the ideal tree wants, it's
-                    // extraneous. We want to return true for those so we
-                    // delete them later.
-                    if ideal.is_some()
-                        && self
-                            .opts
-                            .actual_tree
-                            .as_ref()
-                            .map(|tree| tree.packages.contains_key(&entry_subpath))
-                            .unwrap_or(false)
-                        && actual == ideal.as_ref()
-                    {
-                        return false;
-                    } else {
-                        *extraneous += 1;
-                        return true;
-                    }
-                }
-
-                // We're not interested in any other files than the package dirs themselves.
-                false
-            })
-        {
+        let mut walker = WalkDir::new(&prefix).min_depth(1).into_iter();
+        while let Some(entry) = walker.next() {
             let entry = entry?;
             let entry_path = entry.path();
+            let is_dir = entry.file_type().is_dir();
             let file_name = entry_path.file_name();
-            if file_name == nm_osstr
+            let parent = entry_path.parent().expect("this must have a parent");
+            let is_scope = |path: &Path| {
+                path.file_name()
+                    .map_or(false, |name| name.to_string_lossy().starts_with('@'))
+                    && path.parent().and_then(|path| path.file_name()) == nm_osstr
+            };
+
+            if is_dir && (file_name == nm_osstr || is_scope(entry_path)) {
+                // We don't want to skip node_modules themselves, and we let
+                // scoped packages through.
+                continue;
+            }
+
+            if entry_path == meta
                 || file_name == bin_osstr
-                || file_name
-                    .map(|s| s.to_string_lossy().starts_with('@'))
-                    .unwrap_or(false)
+                || (parent.file_name() != nm_osstr && !is_scope(parent))
             {
+                // We're not interested in any other files than the package
+                // dirs themselves.
+                if is_dir {
+                    walker.skip_current_dir();
+                }
                 continue;
-            } else if entry.file_type().is_dir() {
+            }
+
+            // We're looking at a package dir, presumably (or a straggler file).
+            let entry_subpath_path = entry_path
+                .strip_prefix(&prefix)
+                .expect("this should definitely be under the prefix");
+            let entry_subpath =
+                UniCase::from(entry_subpath_path.to_string_lossy().replace('\\', "/"));
+            let is_nested = entry_subpath_path.iter().any(|seg| Some(seg) == nm_osstr);
+            let actual = actual_tree.and_then(|tree| tree.packages.get(&entry_subpath));
+            let ideal = ideal_tree.packages.get(&entry_subpath);
+            if actual.is_some() && actual == ideal {
+                // It's what the ideal tree wants. There might be extraneous
+                // packages nested inside it, though.
+                continue;
+            }
+            if actual.is_none() && ideal.is_none() && is_nested {
+                // A package we keep brought this along.
+                if is_dir {
+                    walker.skip_current_dir();
+                }
+                continue;
+            }
+
+            // If the package is not in the actual tree, or it doesn't match
+            // up with what the ideal tree wants, it's extraneous.
+            extraneous_packages += 1;
+            if is_dir {
+                walker.skip_current_dir();
                 if let Some(pb) = &self.opts.on_prune_progress {
                     pb(entry_path);
                 }
-- 
2.43.0


From 669a9d589ee6a87739544daced1fb803b72f795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 16/50] fix: link the bins of packages that were already there,
 and drop stale ones (hoisted)

---
 crates/node-maintainer/src/linkers/hoisted.rs | 50 +++++++++++--------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index d5348ae..8c44406 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -332,21 +332,26 @@ impl HoistedLinker {
     pub async fn link_bins(&self, graph: &Graph) -> Result<usize, NodeMaintainerError> {
         let root = &self.opts.root;
         let linked = Arc::new(AtomicUsize::new(0));
-        let bin_file_name = Some(OsStr::new(".bin"));
-        let nm_file_name = Some(OsStr::new("node_modules"));
-        for entry in WalkDir::new(root.join("node_modules"))
-            .into_iter()
-            .filter_entry(|e| {
-                let path = e.path().file_name();
-                path == bin_file_name || path == nm_file_name
-            })
-        {
-            let entry = entry?;
-            if entry.path().file_name() == bin_file_name {
-                async_std::fs::remove_dir_all(entry.path()).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", entry.path().display()))?;
+        // Clear out every .bin directory we've put anything in, or are about to.
+        let ideal_tree = graph.to_lockfile()?;
+        let bin_dirs = ideal_tree
+            .packages
+            .keys()
+            .chain(
+                self.opts
+                    .actual_tree
+                    .iter()
+                    .flat_map(|tree| tree.packages.keys()),
+            )
+            .map(|subdir| bin_dir(&root.join("node_modules").join(subdir.as_ref())))
+            .collect::<HashSet<_>>();
+        for bin_dir in bin_dirs {
+            if bin_dir.symlink_metadata().is_ok() {
+                async_std::fs::remove_dir_all(&bin_dir).await.io_context(|| format!("Failed to remove directory at {} while clearing out existing node_modules/.bin directories.", bin_dir.display()))?;
             }
         }
-        futures::stream::iter(self.pending_rebuild.lock().await.iter().copied())
+        // Any package might have bins, not only those we've just extracted.
+        futures::stream::iter(graph.inner.node_indices())
             .map(|idx| Ok((idx, linked.clone())))
             .try_for_each_concurrent(self.opts.concurrency, move |(idx, linked)| async move {
                 if idx == graph.root {
@@ -360,13 +365,7 @@ impl HoistedLinker {
                     .collect::<Vec<_>>()
                     .join("/node_modules/");
                 let package_dir = root.join("node_modules").join(subdir);
-                let parent = package_dir.parent().expect("must have parent");
-                let target_dir = if parent.file_name() == Some(OsStr::new("node_modules")) {
-                    parent.join(".bin")
-                } else {
-                    // Scoped
-                    parent.parent().expect("must have parent").join(".bin")
-                };
+                let target_dir = bin_dir(&package_dir);
 
                 let build_mani = BuildManifest::from_path(package_dir.join("package.json"))
                     .map_err(|e| {
@@ -440,3 +439,14 @@ impl HoistedLinker {
         )
     }
 }
+
+/// The .bin directory for a package in `package_dir`.
+fn bin_dir(package_dir: &Path) -> PathBuf {
+    let parent = package_dir.parent().expect("must have parent");
+    if parent.file_name() == Some(OsStr::new("node_modules")) {
+        parent.join(".bin")
+    } else {
+        // Scoped
+        parent.parent().expect("must have parent").join(".bin")
+    }
+}
-- 
2.43.0


From c9428eaea94b631adbbf1276cf877eec26e1d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 17/50] fix: link bins that are not named after their package
 (isolated)

---
 crates/node-maintainer/src/linkers/isolated.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index c184769..5b02b86 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -572,7 +572,7 @@ impl IsolatedLinker {
         let node_path = store_ref
             .join(package_dir_name(graph, node))
             .join("node_modules")
-            .join(&graph[node].name.to_string());
+            .join(graph[node].package.name());
         let build_mani = BuildManifest::from_path(node_path.join("package.json")).map_err(|e| {
             NodeMaintainerError::BuildManifestReadError(node_path.join("package.json"), e)
         })?;
@@ -584,12 +584,15 @@ impl IsolatedLinker {
                 store_ref
                     .join(package_dir_name(graph, edge.source()))
                     .join("node_modules")
-                    .join(&dep_node.name.to_string())
+                    .join(dep_node.package.name())
             };
             let dep_bin_dir = dep_store_dir.join("node_modules").join(".bin");
             for (name, path) in &build_mani.bin {
                 let to = dep_bin_dir.join(name);
-                let from = dep_store_dir.join("node_modules").join(name).join(path);
+                let from = dep_store_dir
+                    .join("node_modules")
+                    .join(graph[node].package.name())
+                    .join(path);
                 let name = name.clone();
                 let mkdir_cache = self.mkdir_cache.clone();
                 async_std::task::spawn_blocking(move || {
-- 
2.43.0


From d5a587e29262293364704bc34425ef44c15af7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 18/50] fix: link the bins of packages that were already there,
 and drop stale ones (isolated)

---
 .../node-maintainer/src/linkers/isolated.rs   | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 5b02b86..8d05005 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{BinaryHeap, HashMap, HashSet},
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     sync::{
         atomic::{self, AtomicUsize},
@@ -20,7 +20,6 @@ use super::LinkerOptions;
 
 pub(crate) struct IsolatedLinker {
     pub(crate) pending_rebuild: Arc<Mutex<HashSet<NodeIndex>>>,
-    pub(crate) pending_bin_link: Arc<Mutex<BinaryHeap<NodeIndex>>>,
     pub(crate) mkdir_cache: Arc<DashSet<PathBuf>>,
     pub(crate) opts: LinkerOptions,
 }
@@ -29,7 +28,6 @@ impl IsolatedLinker {
     pub fn new(opts: LinkerOptions) -> Self {
         Self {
             pending_rebuild: Arc::new(Mutex::new(HashSet::new())),
-            pending_bin_link: Arc::new(Mutex::new(BinaryHeap::new())),
             mkdir_cache: Arc::new(DashSet::new()),
             opts,
         }
@@ -345,7 +343,6 @@ impl IsolatedLinker {
         let stream = futures::stream::iter(graph.inner.node_indices());
         let concurrent_count = Arc::new(AtomicUsize::new(0));
         let pending_rebuild = self.pending_rebuild.clone();
-        let pending_bin_link = self.pending_bin_link.clone();
         let actually_extracted = Arc::new(AtomicUsize::new(0));
         let total = graph.inner.node_count();
         let total_completed = Arc::new(AtomicUsize::new(0));
@@ -372,7 +369,6 @@ impl IsolatedLinker {
                     total_completed.clone(),
                     actually_extracted.clone(),
                     pending_rebuild.clone(),
-                    pending_bin_link.clone(),
                 ))
             })
             .try_for_each_concurrent(
@@ -383,7 +379,6 @@ impl IsolatedLinker {
                     total_completed,
                     actually_extracted,
                     pending_rebuild,
-                    pending_bin_link,
                 )| async move {
                     if child_idx == graph.root {
                         self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
@@ -427,9 +422,6 @@ impl IsolatedLinker {
                         {
                             pending_rebuild.lock().await.insert(child_idx);
                         }
-                        if !build_mani.bin.is_empty() {
-                            pending_bin_link.lock().await.push(child_idx);
-                        }
                     }
 
                     self.link_deps(
@@ -482,8 +474,26 @@ impl IsolatedLinker {
         let store_ref = &store;
         let mut linked = 0;
 
-        let mut pending = self.pending_bin_link.lock().await;
-        while let Some(idx) = pending.pop() {
+        // Clear out every .bin directory we might have put anything in.
+        for idx in graph.inner.node_indices() {
+            let package_dir = if idx == graph.root {
+                root.to_owned()
+            } else {
+                self.package_dir(graph, idx).0
+            };
+            let bin_dir = package_dir.join("node_modules").join(".bin");
+            if bin_dir.symlink_metadata().is_ok() {
+                async_std::fs::remove_dir_all(&bin_dir).await.io_context(|| {
+                    format!(
+                        "Failed to remove directory at {} while clearing out existing node_modules/.bin directories.",
+                        bin_dir.display()
+                    )
+                })?;
+            }
+        }
+
+        // Any package might have bins, not only those we've just extracted.
+        for idx in graph.inner.node_indices().rev() {
             let added = self.link_dep_bins(graph, idx, root, store_ref).await?;
             linked += added;
         }
-- 
2.43.0


From ce511aa97f36662f7a93587f5824cdf044d9dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 19/50] fix: prune links that are not dependencies any more, in
 scopes too (isolated)

---
 .../node-maintainer/src/linkers/isolated.rs   | 158 ++++++++++--------
 1 file changed, 84 insertions(+), 74 deletions(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 8d05005..8c796c1 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -127,77 +127,71 @@ impl IsolatedLinker {
                         .join(pkg.name())
                         .join("node_modules")
                 };
-                let pkg_nm_ref = &pkg_nm;
-
                 let mut expected_deps = HashMap::new();
 
                 for edge in graph.inner.edges_directed(idx, Direction::Outgoing) {
                     let dep_pkg = &graph[edge.target()].package;
-                    let dep_store_dir = async_std::path::PathBuf::from(
-                        store_ref
-                            .join(package_dir_name(graph, edge.target()))
-                            .join("node_modules")
-                            .join(dep_pkg.name()),
+                    let dep_store_dir = store_ref
+                        .join(package_dir_name(graph, edge.target()))
+                        .join("node_modules")
+                        .join(dep_pkg.name());
+                    let dep_nm_entry = pkg_nm.join(dep_pkg.name());
+                    let target = link_target(&dep_store_dir, &dep_nm_entry);
+                    expected_deps.insert(
+                        async_std::path::PathBuf::from(dep_nm_entry),
+                        (
+                            async_std::path::PathBuf::from(target),
+                            async_std::path::PathBuf::from(dep_store_dir),
+                        ),
                     );
-                    let dep_nm_entry = async_std::path::PathBuf::from(pkg_nm.join(dep_pkg.name()));
-                    expected_deps.insert(dep_nm_entry, dep_store_dir);
                 }
 
-                if async_std::path::Path::new(&pkg_nm).exists().await {
-                    let expected_ref = Arc::new(expected_deps);
-
-                    async_std::fs::read_dir(&pkg_nm)
-                        .await
-                        .io_context(|| {
+                // Scoped packages are one level further down.
+                let pkg_nm = async_std::path::PathBuf::from(pkg_nm);
+                let mut dirs = vec![pkg_nm.clone()];
+                while let Some(dir) = dirs.pop() {
+                    if !dir.exists().await {
+                        continue;
+                    }
+                    let mut entries = async_std::fs::read_dir(&dir).await.io_context(|| {
+                        format!(
+                            "Failed to read contents of node_modules at {}.",
+                            dir.display()
+                        )
+                    })?;
+                    while let Some(entry) = entries.next().await {
+                        let entry = entry.io_context(|| {
                             format!(
-                                "Failed to read contents of node_modules at {}.",
-                                pkg_nm.display()
+                                "Failed to read directory entry from prefix at {}.",
+                                dir.display()
                             )
-                        })?
-                        .map(|e| Ok((e, expected_ref.clone())))
-                        .try_for_each(move |(entry, expected)| async move {
-                            let entry = entry.io_context(|| {
-                                format!(
-                                    "Failed to read directory entry from prefix at {}.",
-                                    pkg_nm_ref.display()
-                                )
-                            })?;
-                            let path = entry.path();
-                            if let Some(target) = expected.get(&path) {
-                                let target = target.clone();
-                                let ty = entry.file_type().await.io_context(|| {
+                        })?;
+                        let path = entry.path();
+                        let ty = entry.file_type().await.io_context(|| {
+                            format!("Failed to get file type from entry at {}.", path.display())
+                        })?;
+                        if let Some((target, _store_dir)) = expected_deps.get(&path) {
+                            if ty.is_file() {
+                                async_std::fs::remove_file(&path).await.io_context(|| {
                                     format!(
-                                        "Failed to get file type from entry at {}.",
-                                        entry.path().display()
+                                        "Failed to delete file at {} while pruning node_modules.",
+                                        path.display()
                                     )
                                 })?;
-                                if ty.is_file() {
-                                    async_std::fs::remove_file(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to delete file at {} while pruning node_modules.",
-                                            entry.path().display()
-                                        )
-                                    })?;
-                                } else if ty.is_dir() {
-                                    async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                        format!(
-                                            "Failed to rimraf contents of directory at {} while pruning node_modules.",
-                                            path.display()
-                                        )
-                                    })?;
-                                } else if ty.is_symlink() && target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
-                                    if async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
-                                    }
-                                } else {
-                                    #[cfg(windows)]
+                            } else if ty.is_dir() {
+                                async_std::fs::remove_dir_all(&path).await.io_context(|| {
+                                    format!(
+                                        "Failed to rimraf contents of directory at {} while pruning node_modules.",
+                                        path.display()
+                                    )
+                                })?;
+                            } else if ty.is_symlink() && *target != path.read_link().await.io_context(|| format!("Failed to read symlink at {} while pruning node_modules.", path.display()))? {
+                                remove_link(&path).await?;
+                            } else {
+                                #[cfg(windows)]
+                                {
                                     let path_clone = path.clone();
-                                    #[cfg(windows)]
+                                    let target = _store_dir.clone();
                                     if async_std::task::spawn_blocking(move || {
                                         Ok::<_, std::io::Error>(
                                             !junction::exists(&path_clone)?
@@ -211,21 +205,22 @@ impl IsolatedLinker {
                                             "Failed to check if {} is a junction while pruning node_modules.",
                                             path.display()
                                         )
-                                    })? && async_std::fs::remove_file(&path).await.is_err() {
-                                        async_std::fs::remove_dir_all(&path).await.io_context(|| {
-                                            format!(
-                                                "Failed to delete {} while pruning node_modules.",
-                                                path.display()
-                                            )
-                                        })?;
+                                    })? {
+                                        remove_link(&path).await?;
                                     }
                                 }
                             }
-                            Ok::<_, NodeMaintainerError>(())
-                        })
-                        .await?;
+                        } else if ty.is_symlink() {
+                            // It's not a dependency any more.
+                            remove_link(&path).await?;
+                        } else if ty.is_dir()
+                            && dir == pkg_nm
+                            && entry.file_name().to_string_lossy().starts_with('@')
+                        {
+                            dirs.push(path);
+                        }
+                    }
                 }
-
                 Ok::<_, NodeMaintainerError>(())
             })
             .await?;
@@ -531,11 +526,7 @@ impl IsolatedLinker {
             if dep_nm_entry.exists() {
                 continue;
             }
-            let relative = pathdiff::diff_paths(
-                &dep_store_dir,
-                dep_nm_entry.parent().expect("must have a parent"),
-            )
-            .expect("this should never fail");
+            let relative = link_target(&dep_store_dir, &dep_nm_entry);
             let mkdir_cache = self.mkdir_cache.clone();
             async_std::task::spawn_blocking(move || {
                 let path = dep_nm_entry.parent().expect("definitely has a parent");
@@ -645,6 +636,25 @@ impl IsolatedLinker {
     }
 }
 
+/// What a link at `entry` to `store_dir` has as its target.
+fn link_target(store_dir: &Path, entry: &Path) -> PathBuf {
+    pathdiff::diff_paths(store_dir, entry.parent().expect("must have a parent"))
+        .expect("this should never fail")
+}
+
+/// Removes a symlink or junction.
+async fn remove_link(path: &async_std::path::Path) -> Result<(), NodeMaintainerError> {
+    if async_std::fs::remove_file(path).await.is_err() {
+        async_std::fs::remove_dir_all(path).await.io_context(|| {
+            format!(
+                "Failed to delete {} while pruning node_modules.",
+                path.display()
+            )
+        })?;
+    }
+    Ok(())
+}
+
 fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
     let subdir = graph.node_path_string(idx);
-- 
2.43.0


From f01fc5b3904dbcf556b43fb3d2fce4b29651ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:56 +0000
Subject: [PATCH 20/50] fix: don't take another version in the store for the
 one to install (isolated)

---
 crates/node-maintainer/src/linkers/isolated.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 8c796c1..f0525fb 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -659,9 +659,11 @@ fn package_dir_name(graph: &Graph, idx: NodeIndex) -> String {
     let node = &graph[idx];
     let subdir = graph.node_path_string(idx);
 
+    // The resolution is part of it because whatever is already there is taken
+    // to be the package we want.
     let mut name = node.name.to_string();
     name.push('@');
-    let (_, mut hex) = Integrity::from(subdir).to_hex();
+    let (_, mut hex) = Integrity::from(format!("{subdir}\n{}", node.package.resolved())).to_hex();
     hex.truncate(8);
     name.push_str(&hex);
     name
-- 
2.43.0


From 7481b64dc76814302b3eacfd74d9edb3b32311cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:50 +0000
Subject: [PATCH 21/50] fix: an install that fails midway must not leave
 packages marked as good

---
 crates/node-maintainer/src/linkers/hoisted.rs  |  1 +
 crates/node-maintainer/src/linkers/isolated.rs |  1 +
 crates/node-maintainer/src/linkers/mod.rs      | 18 +++++++++++++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 8c44406..8874fde 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -225,6 +225,7 @@ impl HoistedLinker {
         let total_completed = Arc::new(AtomicUsize::new(0));
         let node_modules = root.join("node_modules");
         super::mkdirp(&node_modules, &self.mkdir_cache)?;
+        super::remove_meta(&node_modules)?;
         let extract_mode = if let Some(cache) = self.opts.cache.as_deref() {
             if super::supports_reflink(cache, &node_modules) {
                 ExtractMode::Reflink
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index f0525fb..2ae2179 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -343,6 +343,7 @@ impl IsolatedLinker {
         let total_completed = Arc::new(AtomicUsize::new(0));
         let node_modules = root.join("node_modules");
         super::mkdirp(&node_modules, &self.mkdir_cache)?;
+        super::remove_meta(&node_modules)?;
         let extract_mode = if let Some(cache) = self.opts.cache.as_deref() {
             if super::supports_reflink(cache, &node_modules) {
                 ExtractMode::Reflink
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 0f72697..f296342 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -24,7 +24,7 @@ use petgraph::stable_graph::NodeIndex;
 #[cfg(not(target_arch = "wasm32"))]
 use crate::{
     error::IoContext, graph::Graph, Lockfile, NodeMaintainerError, ProgressHandler, PruneProgress,
-    ScriptLineHandler, ScriptStartHandler,
+    ScriptLineHandler, ScriptStartHandler, META_FILE_NAME,
 };
 
 #[cfg(not(target_arch = "wasm32"))]
@@ -479,6 +479,22 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
     Ok(())
 }
 
+/// Removes the meta file. It must not vouch for the contents of `node_modules`
+/// while packages are being extracted: that might fail halfway through one.
+#[cfg(not(target_arch = "wasm32"))]
+pub(crate) fn remove_meta(node_modules: &Path) -> Result<(), NodeMaintainerError> {
+    let meta = node_modules.join(META_FILE_NAME);
+    if meta.exists() {
+        std::fs::remove_file(&meta).io_context(|| {
+            format!(
+                "Failed to remove Orogene meta file from node_modules, at {}",
+                meta.display()
+            )
+        })?;
+    }
+    Ok(())
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn mkdirp(
     path: &Path,
-- 
2.43.0


From 45366117afefcbfa3d66e11d9067987ac26d1ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 22/50] fix: never extract tarball entries to outside of the
 package

---
 crates/nassun/src/tarball.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 35472b0..5faf9d3 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -250,7 +250,13 @@ impl TempTarball {
                 .unwrap_or_else(|| entry_path.as_ref())
                 .to_path_buf();
             let path = dir.join(&entry_subpath);
-            if let tar::EntryType::Regular = header.entry_type() {
+            if !is_contained(&entry_subpath) {
+                // Nothing gets to write outside of `dir`.
+                tracing::warn!(
+                    "skipping tarball entry with a path outside of its package: {}",
+                    entry_subpath.display()
+                );
+            } else if let tar::EntryType::Regular = header.entry_type() {
                 let parent = path.parent().unwrap();
                 mkdirp(parent, &created)?;
 
@@ -424,6 +430,14 @@ fn strip_one(path: &Path) -> Option<&Path> {
     comps.next().map(|_| comps.as_path())
 }
 
+/// Whether joining `path` to a directory gives a path inside that directory.
+#[cfg(not(target_arch = "wasm32"))]
+fn is_contained(path: &Path) -> bool {
+    use std::path::Component;
+    path.components()
+        .all(|comp| matches!(comp, Component::Normal(_) | Component::CurDir))
+}
+
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn tarball_key(integrity: &Integrity) -> String {
     format!("nassun::package::{integrity}")
-- 
2.43.0


From 2a581ab1440a4ab40d1d55527922e470ead0f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 23/50] fix: re-extracting over a partial extraction failed

---
 crates/nassun/src/tarball.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 5faf9d3..868c1ef 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -544,13 +544,16 @@ pub(crate) fn mkdirp(path: &Path, cache: &dashmap::DashSet<PathBuf>) -> Result<(
             true
         };
         if grandpa_present {
-            std::fs::create_dir(path).map_err(|e| {
-                NassunError::ExtractIoError(
-                    e,
-                    Some(path.parent().unwrap().into()),
-                    "creating parent directory for entry.".into(),
-                )
-            })?;
+            // It may be there already, for one from an extraction that failed.
+            std::fs::create_dir(path)
+                .or_else(|e| if path.is_dir() { Ok(()) } else { Err(e) })
+                .map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(path.parent().unwrap().into()),
+                        "creating parent directory for entry.".into(),
+                    )
+                })?;
             cache.insert(path.to_path_buf());
         } else {
             std::fs::create_dir_all(path).map_err(|e| {
-- 
2.43.0


From fa4744104a08072f48272b0f0c41694d73ec609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:48 +0000
Subject: [PATCH 24/50] fix: directories.bin is relative to its package

---
 crates/oro-common/src/build_manifest.rs | 44 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/crates/oro-common/src/build_manifest.rs b/crates/oro-common/src/build_manifest.rs
index 41a6b90..fd9501b 100644
--- a/crates/oro-common/src/build_manifest.rs
+++ b/crates/oro-common/src/build_manifest.rs
@@ -47,7 +47,7 @@ impl BuildManifest {
         let path = path.as_ref();
         let pkg_str = std::fs::read_to_string(path)?;
         let raw: RawBuildManifest = serde_json::from_str(&pkg_str)?;
-        Self::normalize(raw)
+        Self::normalize(raw, path.parent().unwrap_or_else(|| Path::new("")))
     }
 
     /// Create a new [`BuildManifest`] from an already fully loaded [`Manifest`],
@@ -61,10 +61,10 @@ impl BuildManifest {
             directories: manifest.directories.clone(),
             scripts: manifest.scripts.clone(),
         };
-        Self::normalize(raw)
+        Self::normalize(raw, Path::new(""))
     }
 
-    fn normalize(raw: RawBuildManifest) -> std::io::Result<Self> {
+    fn normalize(raw: RawBuildManifest, package_dir: &Path) -> std::io::Result<Self> {
         let mut bin_map = HashMap::new();
         if let Some(Bin::Hash(bins)) = raw.bin {
             for (name, bin) in bins {
@@ -93,14 +93,14 @@ impl BuildManifest {
             bin: Some(bin_dir), ..
         }) = raw.directories
         {
-            for entry in WalkDir::new(bin_dir) {
-                let entry = entry?;
-                let path = entry.path();
-                if path.starts_with(".") {
+            let bin_dir = package_dir.join(contained_path(&bin_dir));
+            // Packages might not actually have the directory.
+            for entry in WalkDir::new(bin_dir).into_iter().flatten() {
+                if entry.file_type().is_dir() {
                     continue;
                 }
-                if let Some(file_name) = path.file_name() {
-                    bin_map.insert(file_name.to_string_lossy().to_string(), path.into());
+                if let Ok(path) = entry.path().strip_prefix(package_dir) {
+                    bin_map.insert(entry.file_name().to_string_lossy().to_string(), path.into());
                 }
             }
         };
@@ -134,16 +134,7 @@ impl BuildManifest {
             let base = base.unwrap();
 
             // Bin targets are relative to the package, and must stay inside it.
-            let mut bin_target = PathBuf::new();
-            for component in bin.components() {
-                match component {
-                    Component::Normal(component) => bin_target.push(component),
-                    Component::ParentDir => {
-                        bin_target.pop();
-                    }
-                    _ => {}
-                }
-            }
+            let bin_target = contained_path(bin);
             if bin_target == Path::new("") {
                 continue;
             }
@@ -156,3 +147,18 @@ impl BuildManifest {
         })
     }
 }
+
+/// `path` as one relative to the package, without a way out of it.
+fn contained_path(path: &Path) -> PathBuf {
+    let mut contained = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(component) => contained.push(component),
+            Component::ParentDir => {
+                contained.pop();
+            }
+            _ => {}
+        }
+    }
+    contained
+}
-- 
2.43.0


From 45f9319e3355475ca9c7b53718bab6a8210e6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:48 +0000
Subject: [PATCH 25/50] fix: extract packages that don't have all the bins they
 declare

---
 crates/nassun/src/tarball.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 868c1ef..8c1dd40 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -357,8 +357,11 @@ impl TempTarball {
                 tarball_index
                     .bin_paths
                     .push(binpath.to_string_lossy().to_string());
+                // Packages might not actually have all of their bins.
                 #[cfg(unix)]
-                set_bin_mode(&dir.join(binpath))?;
+                if dir.join(binpath).exists() {
+                    set_bin_mode(&dir.join(binpath))?;
+                }
             }
         }
 
-- 
2.43.0


From 1e6c1cbf1872b0a33fb23599191c40e4cd45e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:48 +0000
Subject: [PATCH 26/50] fix: an unreadable cache index kept its package from
 being extracted

---
 crates/nassun/src/package.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/nassun/src/package.rs b/crates/nassun/src/package.rs
index bffe46d..df17f21 100644
--- a/crates/nassun/src/package.rs
+++ b/crates/nassun/src/package.rs
@@ -321,15 +321,16 @@ impl fmt::Debug for Package {
 
 #[cfg(not(target_arch = "wasm32"))]
 fn clean_from_cache(cache: &Path, sri: &Integrity, entry: cacache::Metadata) -> Result<()> {
-    let index = rkyv::check_archived_root::<TarballIndex>(
-        entry
-            .raw_metadata
-            .as_ref()
-            .ok_or_else(|| NassunError::CacheMissingIndexError("".into()))?,
-    )
-    .map_err(|e| NassunError::DeserializeCacheError(e.to_string()))?;
-    for (sri, _) in index.files.values() {
-        let sri: Integrity = sri.as_str().parse()?;
+    // The index itself might be what's wrong with the entry.
+    let index = entry
+        .raw_metadata
+        .as_ref()
+        .and_then(|index| rkyv::check_archived_root::<TarballIndex>(index).ok());
+    for (sri, _) in index.iter().flat_map(|index| index.files.values()) {
+        let sri: Integrity = match sri.as_str().parse() {
+            Ok(sri) => sri,
+            Err(_) => continue,
+        };
         match cacache::remove_hash_sync(cache, &sri) {
             Ok(_) => {}
             // We don't care if the file doesn't exist.
-- 
2.43.0


From bce08977c49859e818122732a521e26609a560f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:16 +0000
Subject: [PATCH 27/50] fix: an install that fails while pruning must not leave
 packages marked as good

---
 crates/node-maintainer/src/linkers/hoisted.rs  | 2 ++
 crates/node-maintainer/src/linkers/isolated.rs | 2 ++
 crates/node-maintainer/src/linkers/mod.rs      | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index 8874fde..cb2a380 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -47,6 +47,8 @@ impl HoistedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         if self.opts.actual_tree.is_none()
             || async_std::path::Path::new(&prefix.join(STORE_DIR_NAME))
                 .exists()
diff --git a/crates/node-maintainer/src/linkers/isolated.rs b/crates/node-maintainer/src/linkers/isolated.rs
index 2ae2179..fb78595 100644
--- a/crates/node-maintainer/src/linkers/isolated.rs
+++ b/crates/node-maintainer/src/linkers/isolated.rs
@@ -46,6 +46,8 @@ impl IsolatedLinker {
             return Ok(0);
         }
 
+        super::remove_meta(&prefix)?;
+
         let store = prefix.join(STORE_DIR_NAME);
 
         if self.opts.actual_tree.is_none() || !async_std::path::Path::new(&store).exists().await {
diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index f296342..7aa03a7 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -480,7 +480,8 @@ pub(crate) fn link_bin(from: &Path, to: &Path) -> Result<(), NodeMaintainerError
 }
 
 /// Removes the meta file. It must not vouch for the contents of `node_modules`
-/// while packages are being extracted: that might fail halfway through one.
+/// while packages are being removed or extracted: that might fail halfway
+/// through one.
 #[cfg(not(target_arch = "wasm32"))]
 pub(crate) fn remove_meta(node_modules: &Path) -> Result<(), NodeMaintainerError> {
     let meta = node_modules.join(META_FILE_NAME);
-- 
2.43.0


From 7f7c1f0fcafc827e6e3358dfe914e736a0d259fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:13 +0000
Subject: [PATCH 28/50] fix: hard linked files with other permissions took
 executables' away

---
 crates/nassun/src/tarball.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 8c1dd40..3f127ee 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -484,6 +484,20 @@ pub(crate) fn extract_from_cache(
     {
         if mode != 0o644 {
             use std::os::unix::fs::PermissionsExt;
+            let mode = if let ExtractMode::AutoHardlink | ExtractMode::Hardlink = extract_mode {
+                // Other packages might be sharing this file, and need
+                // permissions of their own.
+                let current = std::fs::metadata(to).map_err(|e| {
+                    NassunError::ExtractIoError(
+                        e,
+                        Some(to.to_path_buf()),
+                        "Getting extracted file metadata.".into(),
+                    )
+                })?;
+                mode | current.permissions().mode()
+            } else {
+                mode
+            };
             std::fs::set_permissions(to, std::fs::Permissions::from_mode(mode)).map_err(|e| {
                 NassunError::ExtractIoError(
                     e,
-- 
2.43.0


From 9b9badc643d09a35d91bcd4c4de9516debac2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:27 +0000
Subject: [PATCH 29/50] hook: let checks drive the commands with an in-memory
 registry

---
 src/apply_args.rs       |  4 ++++
 src/commands/add.rs     | 19 +++++++++++++++++++
 src/commands/apply.rs   |  7 +++++++
 src/commands/reapply.rs |  7 +++++++
 src/commands/remove.rs  |  7 +++++++
 src/lib.rs              | 38 ++++++++++++++++++++++++++++++++++++++
 src/nassun_args.rs      | 10 ++++++++++
 7 files changed, 92 insertions(+)

diff --git a/src/apply_args.rs b/src/apply_args.rs
index 765971e..01e6614 100644
--- a/src/apply_args.rs
+++ b/src/apply_args.rs
@@ -121,6 +121,10 @@ pub struct ApplyArgs {
 
     #[arg(from_global)]
     pub emoji: bool,
+
+    #[cfg(oro_verif)]
+    #[arg(skip)]
+    pub verif: crate::verif::Packages,
 }
 
 impl ApplyArgs {
diff --git a/src/commands/add.rs b/src/commands/add.rs
index 47c1030..b2aa6a3 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -179,3 +179,22 @@ impl AddCmd {
         }
     }
 }
+
+#[cfg(oro_verif)]
+impl AddCmd {
+    pub fn verif(
+        specs: Vec<String>,
+        prefix: String,
+        dev: bool,
+        opt: bool,
+        apply: ApplyArgs,
+    ) -> Self {
+        Self {
+            specs,
+            prefix,
+            dev,
+            opt,
+            apply,
+        }
+    }
+}
diff --git a/src/commands/apply.rs b/src/commands/apply.rs
index 259af0b..882dc13 100644
--- a/src/commands/apply.rs
+++ b/src/commands/apply.rs
@@ -37,3 +37,10 @@ impl OroCommand for ApplyCmd {
         self.apply.execute(corgi).await
     }
 }
+
+#[cfg(oro_verif)]
+impl ApplyCmd {
+    pub fn verif(apply: ApplyArgs) -> Self {
+        Self { apply }
+    }
+}
diff --git a/src/commands/reapply.rs b/src/commands/reapply.rs
index 58c25de..0202515 100644
--- a/src/commands/reapply.rs
+++ b/src/commands/reapply.rs
@@ -62,3 +62,10 @@ impl OroCommand for ReapplyCmd {
         Ok(())
     }
 }
+
+#[cfg(oro_verif)]
+impl ReapplyCmd {
+    pub fn verif(apply: ApplyArgs) -> Self {
+        Self { apply }
+    }
+}
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index da4ab59..480c998 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -102,3 +102,10 @@ impl RemoveCmd {
         count
     }
 }
+
+#[cfg(oro_verif)]
+impl RemoveCmd {
+    pub fn verif(names: Vec<String>, apply: ApplyArgs) -> Self {
+        Self { names, apply }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 2344076..3cf906d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -979,3 +979,41 @@ fn reset_term_progress() {
 // fn set_progress(progress: u32) {
 //     eprintln!("\u{1b}]9;4;3;{progress}\u{1b}\\");
 // }
+
+/// What it takes to run commands without a command line or network, for
+/// verification.
+#[cfg(oro_verif)]
+pub mod verif {
+    use std::path::Path;
+
+    pub use crate::apply_args::ApplyArgs;
+    pub use crate::commands::{
+        add::AddCmd, apply::ApplyCmd, reapply::ReapplyCmd, remove::RemoveCmd, OroCommand,
+    };
+
+    /// Where packages come from, if not from the configured registry.
+    #[derive(Clone, Default)]
+    pub struct Packages(pub Option<nassun::Nassun>);
+
+    impl std::fmt::Debug for Packages {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            f.write_str("Packages")
+        }
+    }
+
+    pub fn parse_key_value(s: &str) -> Option<(String, String)> {
+        super::parse_key_value(s).ok()
+    }
+
+    pub fn parse_nested_key_value(s: &str) -> Option<(String, String, String)> {
+        super::parse_nested_key_value(s).ok()
+    }
+
+    pub fn clean_old_logs(logs_dir: &Path) -> bool {
+        super::clean_old_logs(logs_dir).is_ok()
+    }
+
+    pub fn pkg_root(start_dir: &Path) -> Option<&Path> {
+        super::pkg_root(start_dir)
+    }
+}
diff --git a/src/nassun_args.rs b/src/nassun_args.rs
index 38513c5..2050bcb 100644
--- a/src/nassun_args.rs
+++ b/src/nassun_args.rs
@@ -40,6 +40,10 @@ pub struct NassunArgs {
 
     #[arg(from_global)]
     pub auth: Vec<(String, String, String)>,
+
+    #[cfg(oro_verif)]
+    #[arg(skip)]
+    pub verif: crate::verif::Packages,
 }
 
 impl NassunArgs {
@@ -55,10 +59,16 @@ impl NassunArgs {
             no_proxy_domain: apply_args.no_proxy_domain.clone(),
             retries: apply_args.retries,
             auth: apply_args.auth.clone(),
+            #[cfg(oro_verif)]
+            verif: apply_args.verif.clone(),
         }
     }
 
     pub fn to_nassun(&self) -> Result<Nassun> {
+        #[cfg(oro_verif)]
+        if let Some(nassun) = &self.verif.0 {
+            return Ok(nassun.clone());
+        }
         let client_args: ClientArgs = ((*self).clone()).into();
         let client_builder: OroClientBuilder = client_args.try_into()?;
         let mut nassun_opts = NassunOpts::new()
-- 
2.43.0


From 64cd0f761d0d02b8950051bf9ca3454bf1f43939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 30/50] fix: removing a dependency from package.json reordered
 the others

---
 src/commands/add.rs    | 2 +-
 src/commands/remove.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index b2aa6a3..5b25b36 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -152,7 +152,7 @@ impl AddCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        obj.retain(|dep, _| dep != name);
                     }
                 }
             }
diff --git a/src/commands/remove.rs b/src/commands/remove.rs
index 480c998..6efeb36 100644
--- a/src/commands/remove.rs
+++ b/src/commands/remove.rs
@@ -93,7 +93,7 @@ impl RemoveCmd {
                             "Removing {name}@{} from {ty}.",
                             obj[name].as_str().unwrap_or("")
                         );
-                        obj.remove(name);
+                        obj.retain(|dep, _| dep != name);
                         count += 1;
                     }
                 }
-- 
2.43.0


From 2b7e10dc2a525fce9e32f0575e52ec914d4613dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 31/50] fix: adding to a package.json whose dependencies are
 not an object panicked

---
 src/commands/add.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/commands/add.rs b/src/commands/add.rs
index 5b25b36..e7a0305 100644
--- a/src/commands/add.rs
+++ b/src/commands/add.rs
@@ -44,6 +44,14 @@ impl OroCommand for AddCmd {
                 .into_diagnostic()?,
         )
         .into_diagnostic()?;
+        let deps = self.dep_kind_str();
+        if !manifest.value.is_object()
+            || !(manifest.value[deps].is_null() || manifest.value[deps].is_object())
+        {
+            return Err(miette::miette!(
+                "Can't add {deps} to a package.json where they are not an object."
+            ));
+        }
         let nassun = NassunArgs::from_apply_args(&self.apply).to_nassun()?;
         use PackageResolution as Pr;
         use PackageSpec as Ps;
-- 
2.43.0


From 22d6ebcede5944e3f3351e6cea12b682a4410d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 32/50] hook: let checks stand in for the network

---
 crates/oro-client/src/client.rs | 31 ++++++++++++++++++++++++++++++-
 src/lib.rs                      | 14 ++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b721f9..1b17b8f 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -34,6 +34,20 @@ pub struct OroClientBuilder {
     proxy_url: Option<Proxy>,
     #[cfg(not(target_arch = "wasm32"))]
     no_proxy_domain: Option<String>,
+    #[cfg(oro_verif)]
+    transport: Transport,
+}
+
+/// What answers requests, if not the network.
+#[cfg(oro_verif)]
+#[derive(Clone, Default)]
+pub struct Transport(pub Option<Arc<dyn reqwest_middleware::Middleware>>);
+
+#[cfg(oro_verif)]
+impl std::fmt::Debug for Transport {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        f.write_str("Transport")
+    }
 }
 
 impl Default for OroClientBuilder {
@@ -49,6 +63,8 @@ impl Default for OroClientBuilder {
             proxy_url: None,
             #[cfg(not(target_arch = "wasm32"))]
             no_proxy_domain: None,
+            #[cfg(oro_verif)]
+            transport: Transport::default(),
             #[cfg(not(test))]
             retries: 2,
             #[cfg(test)]
@@ -135,6 +151,12 @@ impl OroClientBuilder {
         self
     }
 
+    #[cfg(oro_verif)]
+    pub fn transport(mut self, transport: Arc<dyn reqwest_middleware::Middleware>) -> Self {
+        self.transport = Transport(Some(transport));
+        self
+    }
+
     pub fn build(self) -> OroClient {
         #[cfg(target_arch = "wasm32")]
         let client_raw = Client::new();
@@ -180,10 +202,17 @@ impl OroClientBuilder {
         let retry_policy = ExponentialBackoff::builder().build_with_max_retries(self.retries);
         let retry_strategy = RetryTransientMiddleware::new_with_policy(retry_policy);
 
-        let client_uncached_builder = reqwest_middleware::ClientBuilder::new(client_raw)
+        #[allow(unused_mut)]
+        let mut client_uncached_builder = reqwest_middleware::ClientBuilder::new(client_raw)
             .with(retry_strategy)
             .with(AuthMiddleware(credentials));
 
+        #[cfg(oro_verif)]
+        if let Some(transport) = self.transport.0 {
+            client_builder = client_builder.with_arc(transport.clone());
+            client_uncached_builder = client_uncached_builder.with_arc(transport);
+        }
+
         OroClient {
             registry: Arc::new(self.registry),
             client: client_builder.build(),
diff --git a/src/lib.rs b/src/lib.rs
index 3cf906d..0858f98 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1009,6 +1009,20 @@ pub mod verif {
         super::parse_nested_key_value(s).ok()
     }
 
+    /// The client builder for credentials given on the command line.
+    pub fn client(auth: Vec<(String, String, String)>) -> Option<oro_client::OroClientBuilder> {
+        crate::client_args::ClientArgs {
+            cache: None,
+            proxy: false,
+            proxy_url: None,
+            no_proxy_domain: None,
+            retries: 0,
+            auth,
+        }
+        .try_into()
+        .ok()
+    }
+
     pub fn clean_old_logs(logs_dir: &Path) -> bool {
         super::clean_old_logs(logs_dir).is_ok()
     }
-- 
2.43.0


From 67fad71e0eb9fd69944dcc21c78c13cb82e0b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 33/50] fix: credentials were sent to other ports, schemes and
 directories

---
 crates/oro-client/src/auth_middleware.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/auth_middleware.rs b/crates/oro-client/src/auth_middleware.rs
index ea45336..74eda4f 100644
--- a/crates/oro-client/src/auth_middleware.rs
+++ b/crates/oro-client/src/auth_middleware.rs
@@ -33,7 +33,7 @@ impl Middleware for AuthMiddleware {
         // Don't add auth headers to requests to URLs outside the given
         // registry.
         let req_url = req.url().clone();
-        if reg.host_str() != req_url.host_str() || !req_url.path().starts_with(reg.path()) {
+        if reg.origin() != req_url.origin() || !is_within(&reg, &req_url) {
             return next.run(req, extensions).await;
         }
 
@@ -86,6 +86,20 @@ where
     header
 }
 
+/// Whether a URL's path is that of a registry, or below it.
+fn is_within(reg: &Url, url: &Url) -> bool {
+    let base = reg.path().trim_end_matches('/');
+    match url.path().strip_prefix(base) {
+        Some(rest) => rest.is_empty() || rest.starts_with('/'),
+        None => false,
+    }
+}
+
 pub fn nerf_dart(url: &Url) -> String {
-    format!("//{}{}", url.host_str().unwrap_or(""), url.path())
+    let port = url.port().map(|p| format!(":{p}")).unwrap_or_default();
+    format!(
+        "//{}{port}{}/",
+        url.host_str().unwrap_or(""),
+        url.path().trim_end_matches('/')
+    )
 }
-- 
2.43.0


From 47da97fcd7bd04625c1f223d25c8fa86bb18f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 34/50] fix: a registry URL without a trailing slash lost its
 last directory

---
 crates/oro-client/src/client.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/oro-client/src/client.rs b/crates/oro-client/src/client.rs
index 1b17b8f..fb31786 100644
--- a/crates/oro-client/src/client.rs
+++ b/crates/oro-client/src/client.rs
@@ -73,13 +73,23 @@ impl Default for OroClientBuilder {
     }
 }
 
+/// Everything in a registry is below its URL, also if that was written
+/// without a slash at the end.
+fn as_directory(mut registry: Url) -> Url {
+    if !registry.path().ends_with('/') {
+        let path = format!("{}/", registry.path());
+        registry.set_path(&path);
+    }
+    registry
+}
+
 impl OroClientBuilder {
     pub fn new() -> Self {
         Default::default()
     }
 
     pub fn registry(mut self, registry: Url) -> Self {
-        self.registry = registry;
+        self.registry = as_directory(registry);
         self
     }
 
@@ -250,7 +260,7 @@ impl OroClient {
 
     pub fn with_registry(&self, registry: Url) -> Self {
         Self {
-            registry: Arc::new(registry),
+            registry: Arc::new(as_directory(registry)),
             client: self.client.clone(),
             client_uncached: self.client_uncached.clone(),
         }
-- 
2.43.0


From 99fb925a380280b33200718c4b49d41f76631b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:22 +0000
Subject: [PATCH 35/50] fix: files from a package's registry were fetched
 without its credentials

---
 crates/nassun/src/fetch/npm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/npm.rs b/crates/nassun/src/fetch/npm.rs
index f51c7d3..d98bd4e 100644
--- a/crates/nassun/src/fetch/npm.rs
+++ b/crates/nassun/src/fetch/npm.rs
@@ -156,7 +156,12 @@ impl PackageFetcher for NpmFetcher {
             PackageResolution::Npm { ref tarball, .. } => tarball,
             _ => panic!("How did a non-Npm resolution get here?"),
         };
-        Ok(self.client.stream_external(url).await?)
+        let scope = match pkg.from().target() {
+            PackageSpec::Npm { ref scope, .. } => scope,
+            _ => &None,
+        };
+        let client = self.client.with_registry(self.pick_registry(scope));
+        Ok(client.stream_external(url).await?)
     }
 }
 
-- 
2.43.0


From dad0db319e5ade3dbcd5d6a9311517d8a27ea927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:07 +0000
Subject: [PATCH 36/50] fix: reporting bad JSON panicked inside a character

---
 crates/oro-client/src/error.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/oro-client/src/error.rs b/crates/oro-client/src/error.rs
index 45373c0..a4a40dc 100644
--- a/crates/oro-client/src/error.rs
+++ b/crates/oro-client/src/error.rs
@@ -93,9 +93,15 @@ impl OroClientError {
         // translate the spans accordingly.
         let err_offset = SourceOffset::from_location(&json, err.line(), err.column());
         let json_len = json.len();
-        let local_offset = err_offset.offset().saturating_sub(40);
-        let local_len = std::cmp::min(40, json_len - err_offset.offset());
-        let snipped_json = json[local_offset..err_offset.offset() + local_len].to_string();
+        let mut local_offset = err_offset.offset().saturating_sub(40);
+        while !json.is_char_boundary(local_offset) {
+            local_offset -= 1;
+        }
+        let mut local_end = std::cmp::min(err_offset.offset() + 40, json_len);
+        while !json.is_char_boundary(local_end) {
+            local_end += 1;
+        }
+        let snipped_json = json[local_offset..local_end].to_string();
         Self::BadJson {
             source: err,
             url: url.clone(),
-- 
2.43.0


From 1ef795af0194675adb053e83c937a2a498bbe3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:08 +0000
Subject: [PATCH 37/50] fix: headers of a registry's answer to a login could
 panic

---
 crates/oro-client/src/api/login.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/oro-client/src/api/login.rs b/crates/oro-client/src/api/login.rs
index 3258ab8..64bba1d 100644
--- a/crates/oro-client/src/api/login.rs
+++ b/crates/oro-client/src/api/login.rs
@@ -150,7 +150,7 @@ impl OroClient {
                     .headers()
                     .get(WWW_AUTHENTICATE)
                     .map_or(String::default(), |header| {
-                        header.to_str().unwrap().to_lowercase()
+                        String::from_utf8_lossy(header.as_bytes()).to_lowercase()
                     });
 
                 let text = response.text().await?;
@@ -218,11 +218,12 @@ impl OroClient {
                 ))
             }
             StatusCode::ACCEPTED => {
-                if let Some(retry_after) = response.headers().get("retry-after") {
-                    let retry_after = retry_after.to_str()
-                        .expect("The \"retry-after\" header that's included in the response should be string.")
-                        .parse::<u64>()
-                        .expect("The \"retry-after\" header that's included in the response should be able to parse to number.");
+                if let Some(retry_after) = response
+                    .headers()
+                    .get("retry-after")
+                    .and_then(|retry_after| retry_after.to_str().ok())
+                    .and_then(|retry_after| retry_after.parse::<u64>().ok())
+                {
                     Ok(DoneURLResponse::Duration(Duration::from_secs(retry_after)))
                 } else {
                     Err(OroClientError::ResponseError(
-- 
2.43.0


From 5ec55e4147cfb77a605b7b61e662164d8c892eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:18 +0000
Subject: [PATCH 38/50] fix: packages named . or .. within a scope were put
 over node_modules

---
 crates/oro-package-spec/src/parsers/alias.rs |  2 +-
 crates/oro-package-spec/src/parsers/npm.rs   |  2 +-
 crates/oro-package-spec/src/parsers/util.rs  | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/oro-package-spec/src/parsers/alias.rs b/crates/oro-package-spec/src/parsers/alias.rs
index 8a9d347..3f5ab02 100644
--- a/crates/oro-package-spec/src/parsers/alias.rs
+++ b/crates/oro-package-spec/src/parsers/alias.rs
@@ -19,7 +19,7 @@ pub(crate) fn alias_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseErr
                 // `@` in it.
                 not(tag(".")),
                 opt(scope),
-                map_res(take_till1(|c| c == '@' || c == '/'), util::no_url_encode),
+                map_res(take_till1(|c| c == '@' || c == '/'), util::package_name),
                 tag("@"),
                 prefixed_package_spec,
             )),
diff --git a/crates/oro-package-spec/src/parsers/npm.rs b/crates/oro-package-spec/src/parsers/npm.rs
index f013beb..4158fdf 100644
--- a/crates/oro-package-spec/src/parsers/npm.rs
+++ b/crates/oro-package-spec/src/parsers/npm.rs
@@ -23,7 +23,7 @@ pub(crate) fn npm_spec(input: &str) -> IResult<&str, PackageSpec, SpecParseError
                     map_res(take_till1(|c| c == '/'), util::no_url_encode),
                     char('/'),
                 )),
-                map_res(take_till1(|x| x == '@' || x == '/'), util::no_url_encode),
+                map_res(take_till1(|x| x == '@' || x == '/'), util::package_name),
                 opt(preceded(tag("@"), cut(version_req))),
             )),
             |(scope_opt, name, req)| {
diff --git a/crates/oro-package-spec/src/parsers/util.rs b/crates/oro-package-spec/src/parsers/util.rs
index d75374a..812422a 100644
--- a/crates/oro-package-spec/src/parsers/util.rs
+++ b/crates/oro-package-spec/src/parsers/util.rs
@@ -15,6 +15,20 @@ const JS_ENCODED: &AsciiSet = {
         .remove(b')')
 };
 
+/// A package's name, without its scope. It names a directory in
+/// `node_modules`, so it can't be `.` or `..`.
+pub(crate) fn package_name(name: &str) -> Result<&str, SpecParseError<&str>> {
+    if name.starts_with('.') {
+        Err(SpecParseError {
+            input: name,
+            context: None,
+            kind: Some(SpecErrorKind::InvalidCharacters(name.into())),
+        })
+    } else {
+        no_url_encode(name)
+    }
+}
+
 pub(crate) fn no_url_encode(tag: &str) -> Result<&str, SpecParseError<&str>> {
     if format!("{}", utf8_percent_encode(tag, JS_ENCODED)) == tag {
         Ok(tag)
-- 
2.43.0


From 93ecd52c2d7ba5cd4597f8c137e4fbe66e864012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 39/50] fix: aliased directories as dependencies panicked

---
 crates/nassun/src/fetch/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 3c2e48b..9ed217a 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -125,7 +125,7 @@ impl PackageFetcher for DirFetcher {
     }
 
     async fn packument(&self, spec: &PackageSpec, base_dir: &Path) -> Result<Arc<Packument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
@@ -137,7 +137,7 @@ impl PackageFetcher for DirFetcher {
         spec: &PackageSpec,
         base_dir: &Path,
     ) -> Result<Arc<CorgiPackument>> {
-        let path = match spec {
+        let path = match spec.target() {
             PackageSpec::Dir { path } => base_dir.join(path),
             _ => panic!("There shouldn't be anything but Dirs here"),
         };
-- 
2.43.0


From df1d39d80c7d2bdc0c8ba3ab9fe7c1a2fa7ab33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 40/50] fix: installing directory or git dependencies panicked
 instead of failing

---
 crates/nassun/src/fetch/dir.rs | 4 +++-
 crates/nassun/src/fetch/git.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/nassun/src/fetch/dir.rs b/crates/nassun/src/fetch/dir.rs
index 9ed217a..9c59ad1 100644
--- a/crates/nassun/src/fetch/dir.rs
+++ b/crates/nassun/src/fetch/dir.rs
@@ -146,7 +146,9 @@ impl PackageFetcher for DirFetcher {
 
     async fn tarball(&self, _pkg: &Package) -> Result<Box<dyn AsyncRead + Unpin + Send + Sync>> {
         // TODO: need to implement pack before this can be implemented :(
-        unimplemented!()
+        Err(NassunError::MiscError(
+            "Extracting directory dependencies is not supported yet.".into(),
+        ))
     }
 }
 
diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index c63c939..70c7338 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -268,7 +268,10 @@ impl PackageFetcher for GitFetcher {
     }
 
     async fn tarball(&self, _pkg: &crate::Package) -> Result<crate::TarballStream> {
-        todo!()
+        // TODO: needs packing, like directories.
+        Err(NassunError::MiscError(
+            "Extracting git dependencies is not supported yet.".into(),
+        ))
     }
 }
 
-- 
2.43.0


From 12a3e7cc6477108300c0e204e7a14a526130ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 41/50] fix: git dependencies on a hosted repository without a
 committish panicked

---
 crates/nassun/src/fetch/git.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index 70c7338..d32c8e2 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -62,21 +62,20 @@ impl GitFetcher {
                     if let Some(requested) = requested {
                         self.fetch_clone(dir, requested, committish, semver, info)
                             .await?;
-                    } else if let (Some(tarball), Some(https), Some(ssh)) =
-                        (hosted.tarball(), hosted.https(), hosted.ssh())
-                    {
-                        match self.fetch_tarball(dir, &tarball).await {
-                            Ok(_) => {}
-                            Err(_) => {
-                                match self
-                                    .fetch_clone(dir, https.to_string(), committish, semver, info)
-                                    .await
-                                {
-                                    Ok(_) => {}
-                                    Err(_) => {
-                                        self.fetch_clone(dir, ssh, committish, semver, info)
-                                            .await?;
-                                    }
+                    } else if let (Some(https), Some(ssh)) = (hosted.https(), hosted.ssh()) {
+                        // There's only a tarball to fetch when there's a committish.
+                        let fetched = match hosted.tarball() {
+                            Some(tarball) => self.fetch_tarball(dir, &tarball).await.is_ok(),
+                            None => false,
+                        };
+                        if !fetched {
+                            match self
+                                .fetch_clone(dir, https.to_string(), committish, semver, info)
+                                .await
+                            {
+                                Ok(_) => {}
+                                Err(_) => {
+                                    self.fetch_clone(dir, ssh, committish, semver, info).await?;
                                 }
                             }
                         }
-- 
2.43.0


From c1c30f11b531591a6aca285616197d87c8f005c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:05 +0000
Subject: [PATCH 42/50] fix: archives of git dependencies were extracted where
 nothing looked for them

---
 crates/nassun/src/fetch/git.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/nassun/src/fetch/git.rs b/crates/nassun/src/fetch/git.rs
index d32c8e2..3bdf321 100644
--- a/crates/nassun/src/fetch/git.rs
+++ b/crates/nassun/src/fetch/git.rs
@@ -92,7 +92,11 @@ impl GitFetcher {
     async fn fetch_tarball(&self, dir: &Path, tarball: &Url) -> Result<()> {
         let tarball = self.client.stream_external(tarball).await?;
         Tarball::new_unchecked(tarball)
-            .extract_from_tarball_data(dir, None, crate::ExtractMode::AutoHardlink)
+            .extract_from_tarball_data(
+                &dir.join("package"),
+                None,
+                crate::ExtractMode::AutoHardlink,
+            )
             .await?;
         Ok(())
     }
-- 
2.43.0


From 77d7929425903a3c55930e809d9c074b8dce2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 43/50] fix: tokens and encoded credentials were mistaken for
 each other, plain ones not read

---
 crates/oro-npm-account/src/config.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index 82b6753..a454532 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -114,20 +114,21 @@ pub fn get_credentials_by_uri(uri: &Url, config: &KdlDocument) -> Option<Credent
             let password = credentials.get("password");
 
             match (token, legacy_auth, username, password) {
-                (_, Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
-                (.., Some(username), Some(password)) => {
+                (Some(token), ..) => Some(Credentials::Token(token.as_string()?.into())),
+                (_, Some(legacy_auth), ..) => {
+                    Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
+                }
+                (.., Some(username), password) => {
                     let username = username.as_string()?;
-                    let password = password.as_string()?;
-                    let password = general_purpose::STANDARD.decode(password).ok()?;
-                    let password = String::from_utf8_lossy(&password).to_string();
+                    let password = match password {
+                        Some(password) => password.as_string()?,
+                        None => "",
+                    };
 
                     Some(Credentials::LegacyAuth(
                         general_purpose::STANDARD.encode(format!("{username}:{password}")),
                     ))
                 }
-                (Some(legacy_auth), ..) => {
-                    Some(Credentials::LegacyAuth(legacy_auth.as_string()?.into()))
-                }
                 _ => None,
             }
         })
-- 
2.43.0


From 12850703d4f744e521ae4bcaf4ef6ec9ecc33b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:18 +0000
Subject: [PATCH 44/50] fix: logins were lost when the configuration had an
 empty auth node

---
 crates/oro-npm-account/src/config.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/oro-npm-account/src/config.rs b/crates/oro-npm-account/src/config.rs
index a454532..1d36d9e 100644
--- a/crates/oro-npm-account/src/config.rs
+++ b/crates/oro-npm-account/src/config.rs
@@ -22,8 +22,8 @@ pub fn set_credentials_by_uri(uri: &Url, credentials: &Credentials, config: &mut
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("auth").is_none() {
                 children.nodes_mut().push(KdlNode::new("auth"));
-                children.get_mut("auth").unwrap().ensure_children();
             }
+            children.get_mut("auth").unwrap().ensure_children();
         }
     }
 
@@ -71,11 +71,11 @@ pub fn set_scoped_registry(scope: &str, registry: &Url, config: &mut KdlDocument
         if let Some(children) = opts.children_mut().as_mut() {
             if children.get_mut("scoped-registries").is_none() {
                 children.nodes_mut().push(KdlNode::new("scoped-registries"));
-                children
-                    .get_mut("scoped-registries")
-                    .unwrap()
-                    .ensure_children();
             }
+            children
+                .get_mut("scoped-registries")
+                .unwrap()
+                .ensure_children();
         }
     }
 
-- 
2.43.0


From a1cc03da6fe1e3d967eb7f961c430f5ad9017a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:33 +0000
Subject: [PATCH 45/50] fix: credentials for a registry with an = in its URL
 panicked

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0858f98..9a2a76a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -825,12 +825,12 @@ where
     let open_pos = s.find('{').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `{{` found in `{s}`",)
     })?;
-    let close_pos = s.find('}').ok_or_else(|| {
+    let close_pos = s[open_pos..].find('}').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `}}` found in `{s}`",)
-    })?;
-    let eq_pos = s.find('=').ok_or_else(|| {
+    })? + open_pos;
+    let eq_pos = s[close_pos..].find('=').ok_or_else(|| {
         format!("invalid {{TOP_KEY}}NESTED_KEY=VALUE entry: no `=` found in `{s}`")
-    })?;
+    })? + close_pos;
 
     Ok((
         s[open_pos + 1..close_pos].parse()?,
-- 
2.43.0


From 2325aed2818233ef847115a12f8972b6ef2c0538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:24 +0000
Subject: [PATCH 46/50] fix: install scripts of packages that depend on each
 other were waited for forever

---
 crates/node-maintainer/src/linkers/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 7aa03a7..068a51d 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -162,8 +162,10 @@ impl Linker {
             .map(|idx| {
                 let mut deps = HashSet::new();
                 for dep in &pending {
+                    // Packages in a cycle can't wait for each other.
                     if dep != idx
                         && petgraph::algo::has_path_connecting(&graph.inner, *idx, *dep, None)
+                        && !petgraph::algo::has_path_connecting(&graph.inner, *dep, *idx, None)
                     {
                         deps.insert(*dep);
                     }
-- 
2.43.0


From 6e914636990147da0b00b56dc6f63793e6e5c1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:39 +0000
Subject: [PATCH 47/50] fix: install scripts found system programs before their
 dependencies' executables

---
 crates/oro-script/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/oro-script/src/lib.rs b/crates/oro-script/src/lib.rs
index 4c02efc..f67937d 100644
--- a/crates/oro-script/src/lib.rs
+++ b/crates/oro-script/src/lib.rs
@@ -175,16 +175,18 @@ impl<'a> OroScript<'a> {
     }
 
     fn set_all_paths(mut self) -> Result<Self> {
+        // Executables of dependencies go before any others, the closest first.
+        let mut paths = Vec::new();
         for dir in self.package_path.ancestors() {
-            self.paths
-                .push(dir.join("node_modules").join(".bin").to_path_buf());
+            paths.push(dir.join("node_modules").join(".bin").to_path_buf());
             if let Some(workspace_path) = &self.workspace_path {
                 if dir == workspace_path {
                     break;
                 }
             }
         }
-        let paths = format!("{}", std::env::join_paths(&self.paths)?.to_string_lossy());
+        paths.append(&mut self.paths);
+        let paths = format!("{}", std::env::join_paths(&paths)?.to_string_lossy());
         for (var, _) in Self::current_paths() {
             self = self.env(format!("{}", var.to_string_lossy()), paths.clone());
         }
-- 
2.43.0


From defa50ec6ff140f986f0e8b8599b84bdae6505f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:59 +0000
Subject: [PATCH 48/50] fix: a package whose install script failed was taken
 for installed the next time

---
 crates/node-maintainer/src/linkers/mod.rs | 32 +++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/crates/node-maintainer/src/linkers/mod.rs b/crates/node-maintainer/src/linkers/mod.rs
index 068a51d..73bd9b7 100644
--- a/crates/node-maintainer/src/linkers/mod.rs
+++ b/crates/node-maintainer/src/linkers/mod.rs
@@ -107,6 +107,7 @@ impl Linker {
     ) -> Result<(), NodeMaintainerError> {
         tracing::debug!("Running lifecycle scripts...");
         let start = std::time::Instant::now();
+        let unvouched = self.unvouch().await?;
         if !ignore_scripts {
             self.run_scripts(graph, "preinstall").await?;
         }
@@ -115,6 +116,14 @@ impl Linker {
             self.run_scripts(graph, "install").await?;
             self.run_scripts(graph, "postinstall").await?;
         }
+        if let Some((meta, aside)) = unvouched {
+            std::fs::rename(&aside, &meta).io_context(|| {
+                format!(
+                    "Failed to put back Orogene meta file in node_modules, at {}",
+                    meta.display()
+                )
+            })?;
+        }
         tracing::debug!(
             "Ran lifecycle scripts in {}ms.",
             start.elapsed().as_millis()
@@ -122,6 +131,29 @@ impl Linker {
         Ok(())
     }
 
+    /// Sets the meta file aside while there are packages to build. It must not
+    /// vouch for them until they are: that might fail.
+    #[cfg(not(target_arch = "wasm32"))]
+    async fn unvouch(&self) -> Result<Option<(PathBuf, PathBuf)>, NodeMaintainerError> {
+        let (pending_rebuild, opts) = match self {
+            Self::Isolated(isolated) => (&isolated.pending_rebuild, &isolated.opts),
+            Self::Hoisted(hoisted) => (&hoisted.pending_rebuild, &hoisted.opts),
+            Self::Null => return Ok(None),
+        };
+        let meta = opts.root.join("node_modules").join(META_FILE_NAME);
+        if pending_rebuild.lock().await.is_empty() || !meta.exists() {
+            return Ok(None);
+        }
+        let aside = meta.with_extension("kdl.building");
+        std::fs::rename(&meta, &aside).io_context(|| {
+            format!(
+                "Failed to set aside Orogene meta file in node_modules, at {}",
+                meta.display()
+            )
+        })?;
+        Ok(Some((meta, aside)))
+    }
+
     #[cfg(not(target_arch = "wasm32"))]
     async fn link_bins(
         &self,
-- 
2.43.0


From d095c60e36445cf3dfbd08793141c05e9efd0256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:41 +0000
Subject: [PATCH 49/50] fix: hoisted installs wrote through links in
 node_modules

---
 crates/node-maintainer/src/linkers/hoisted.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/node-maintainer/src/linkers/hoisted.rs b/crates/node-maintainer/src/linkers/hoisted.rs
index cb2a380..8fe16bc 100644
--- a/crates/node-maintainer/src/linkers/hoisted.rs
+++ b/crates/node-maintainer/src/linkers/hoisted.rs
@@ -126,6 +126,20 @@ impl HoistedLinker {
                     && path.parent().and_then(|path| path.file_name()) == nm_osstr
             };
 
+            // Nothing we install is a link. Don't extract packages through one.
+            let is_link = entry.path_is_symlink();
+            if is_link && file_name == nm_osstr {
+                async_std::fs::remove_file(entry_path)
+                    .await
+                    .io_context(|| {
+                        format!(
+                            "Failed to prune extraneous link at {}",
+                            entry_path.display()
+                        )
+                    })?;
+                continue;
+            }
+
             if is_dir && (file_name == nm_osstr || is_scope(entry_path)) {
                 // We don't want to skip node_modules themselves, and we let
                 // scoped packages through.
@@ -153,7 +167,7 @@ impl HoistedLinker {
             let is_nested = entry_subpath_path.iter().any(|seg| Some(seg) == nm_osstr);
             let actual = actual_tree.and_then(|tree| tree.packages.get(&entry_subpath));
             let ideal = ideal_tree.packages.get(&entry_subpath);
-            if actual.is_some() && actual == ideal {
+            if actual.is_some() && actual == ideal && !is_link {
                 // It's what the ideal tree wants. There might be extraneous
                 // packages nested inside it, though.
                 continue;
-- 
2.43.0


From 85f29f2382cbe5615865ae1841b62ee880146ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:38 +0000
Subject: [PATCH 50/50] hook: tarballs larger than 1 KiB aren't kept in memory
 under oro_verif

---
 crates/nassun/src/tarball.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/nassun/src/tarball.rs b/crates/nassun/src/tarball.rs
index 3f127ee..a9a57ad 100644
--- a/crates/nassun/src/tarball.rs
+++ b/crates/nassun/src/tarball.rs
@@ -38,7 +38,11 @@ use crate::package::ExtractMode;
 use crate::TarballStream;
 
 #[cfg(not(target_arch = "wasm32"))]
+#[cfg(not(oro_verif))]
 const MAX_IN_MEMORY_TARBALL_SIZE: usize = 1024 * 1024 * 5;
+/// Small enough for verification to get there.
+#[cfg(oro_verif)]
+const MAX_IN_MEMORY_TARBALL_SIZE: usize = 1024;
 
 pub struct Tarball {
     checker: Option<IntegrityChecker>,
-- 
2.43.0

