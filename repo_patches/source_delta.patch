From e2ca188acbc513c919081298c84d1ebf14e2ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 01/39] fix: replace .exe and .dll extensions in breakpad paths

Only a .pdb extension was ever replaced by .sym: if the first suffix was
stripped, the following unwrap_or(debug_file) restored the full name.
---
 crates/symbolicator-sources/src/paths.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 36c86d8..9b6addd 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -107,10 +107,8 @@ fn get_breakpad_path(identifier: &ObjectId) -> Option<String> {
     let debug_id = identifier.debug_id.as_ref()?;
     let new_debug_file = debug_file
         .strip_suffix(".exe")
-        .unwrap_or(debug_file)
-        .strip_suffix(".dll")
-        .unwrap_or(debug_file)
-        .strip_suffix(".pdb")
+        .or_else(|| debug_file.strip_suffix(".dll"))
+        .or_else(|| debug_file.strip_suffix(".pdb"))
         .unwrap_or(debug_file);
 
     Some(format!(
-- 
2.43.0


From fa1a994f27efbea1ad72d4d6b6a4cb9cdbd310b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 02/39] fix: do not use empty or dot file names in lookup paths

A code or debug file named '..' or '.' (or only consisting of separators)
yielded lookup paths that escape or collapse directories of the source.
---
 crates/symbolicator-sources/src/types.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/symbolicator-sources/src/types.rs b/crates/symbolicator-sources/src/types.rs
index 80b556c..ad8d8e0 100644
--- a/crates/symbolicator-sources/src/types.rs
+++ b/crates/symbolicator-sources/src/types.rs
@@ -152,10 +152,14 @@ impl ObjectId {
 /// Returns the "valid" basename of the file.
 ///
 /// The basename is valid if:
+/// - it is not empty and not a reference to the current or parent directory,
 /// - it is not longer than 255 bytes and
 /// - does not contain a control character
 fn valid_file_name(file_name: &str) -> Option<&str> {
     let basename = split_path(file_name).1;
+    if matches!(basename, "" | "." | "..") {
+        return None;
+    }
     if basename.len() < 256 && !basename.contains(|c: char| c.is_control()) {
         return Some(basename);
     }
-- 
2.43.0


From 37f02fe1d994c6575753186befd916b52e2aba4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 03/39] fix: compare symbol proxy file names regardless of the
 case of all letters

---
 crates/symbolicator-sources/src/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-sources/src/paths.rs b/crates/symbolicator-sources/src/paths.rs
index 9b6addd..be92412 100644
--- a/crates/symbolicator-sources/src/paths.rs
+++ b/crates/symbolicator-sources/src/paths.rs
@@ -481,7 +481,7 @@ pub fn parse_symstore_path(path: &str) -> Option<(&'static [FileType], ObjectId)
     let trailing_fn = split.next()?;
 
     let leading_fn_lower = leading_fn.to_lowercase();
-    if !leading_fn_lower.eq_ignore_ascii_case(trailing_fn) {
+    if leading_fn_lower != trailing_fn.to_lowercase() {
         return None;
     }
 
-- 
2.43.0


From 34e4e790321190649af164557a756ef65057125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 04/39] fix: do not cache Symstore index segments that could
 not be downloaded

---
 crates/symbolicator-service/src/download/index.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 38afbac..56a2ad4 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -179,7 +179,8 @@ async fn download_index_segment(
             source_id = %source.id(),
             segment,
             "Failed to download Symstore index segment",
-        )
+        );
+        return Err(e);
     }
 
     let buf = BufReader::new(temp_file);
-- 
2.43.0


From 3c68b10c6d3b8676d542c11d29487b8e8007b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 05/39] fix: do not share S3 clients between different
 credentials providers

---
 crates/symbolicator-sources/src/sources/s3.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-sources/src/sources/s3.rs b/crates/symbolicator-sources/src/sources/s3.rs
index 63f89dd..1cd94d8 100644
--- a/crates/symbolicator-sources/src/sources/s3.rs
+++ b/crates/symbolicator-sources/src/sources/s3.rs
@@ -132,7 +132,7 @@ where
 ///
 /// For details on the AWS side, see:
 /// <https://docs.aws.amazon.com/AmazonECS/latest/developerguide/task-iam-roles.html>.
-#[derive(Clone, Copy, Debug, Deserialize, Serialize)]
+#[derive(Clone, Copy, Debug, Deserialize, Serialize, PartialEq, Eq, Hash)]
 #[serde(rename_all = "lowercase")]
 #[derive(Default)]
 pub enum AwsCredentialsProvider {
@@ -187,7 +187,8 @@ impl From<&str> for S3Region {
 
 impl PartialEq for S3SourceKey {
     fn eq(&self, other: &S3SourceKey) -> bool {
-        self.access_key == other.access_key
+        self.aws_credentials_provider == other.aws_credentials_provider
+            && self.access_key == other.access_key
             && self.secret_key == other.secret_key
             && self.region == other.region
     }
@@ -197,6 +198,7 @@ impl Eq for S3SourceKey {}
 
 impl std::hash::Hash for S3SourceKey {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        self.aws_credentials_provider.hash(state);
         self.access_key.hash(state);
         self.secret_key.hash(state);
         self.region.hash(state);
-- 
2.43.0


From 4d3bf8cf2cae71019ab7d294700eb3cb4b95a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 06/39] fix: keep the metadata of existing files and sort the
 other objects when skipping duplicates

---
 crates/symsorter/src/app.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index beeadb1..80afeb0 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -140,17 +140,6 @@ fn process_file(
             fs::write(refs_path.join(bundle_id), b"")?;
         }
 
-        let meta = DebugIdMeta {
-            name: Some(filename.clone()),
-            arch: Some(obj.arch()),
-            file_format: Some(obj.file_format()),
-        };
-
-        fs::write(
-            new_filename.with_extension("meta"),
-            serde_json::to_vec(&meta)?,
-        )?;
-
         log!(
             "{} ({}, {}) -> {}",
             style(&filename).dim(),
@@ -169,11 +158,22 @@ fn process_file(
                     new_filename.display(),
                     get_unified_id(&obj)?,
                 );
-                return Ok(vec![]);
+                continue;
             }
             Err(e) => return Err(e.into()),
         };
 
+        let meta = DebugIdMeta {
+            name: Some(filename.clone()),
+            arch: Some(obj.arch()),
+            file_format: Some(obj.file_format()),
+        };
+
+        fs::write(
+            new_filename.with_extension("meta"),
+            serde_json::to_vec(&meta)?,
+        )?;
+
         if compression_level > 0 {
             copy_encode(obj.data(), &mut out, compression_level)?;
         } else {
-- 
2.43.0


From 8393e51cd0c650768ca61045137aa52241d8ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 07/39] fix: count the created source bundles

---
 crates/symsorter/src/app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 80afeb0..5ac719f 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -357,7 +357,7 @@ fn execute(cli: Cli) -> Result<()> {
             let (debug_files_sorted, source_bundles_created) =
                 sort_files(&sort_config, vec![path])?;
             debug_files += debug_files_sorted;
-            source_bundles *= source_bundles_created;
+            source_bundles += source_bundles_created;
         }
     } else {
         if let Some(bundle_id) = cli.bundle_id {
@@ -366,7 +366,7 @@ fn execute(cli: Cli) -> Result<()> {
         }
         let (debug_files_sorted, source_bundles_created) = sort_files(&sort_config, cli.input)?;
         debug_files += debug_files_sorted;
-        source_bundles *= source_bundles_created;
+        source_bundles += source_bundles_created;
     }
 
     log!();
-- 
2.43.0


From 27affb90ad26a8bb9e302cc70139375090f76e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 08/39] fix: report identifiers that are too short instead of
 panicking

---
 crates/symsorter/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symsorter/src/utils.rs b/crates/symsorter/src/utils.rs
index 9c11096..15e6d2b 100644
--- a/crates/symsorter/src/utils.rs
+++ b/crates/symsorter/src/utils.rs
@@ -61,7 +61,11 @@ pub fn get_target_filename(obj: &Object) -> Result<PathBuf> {
         ObjectKind::Library | ObjectKind::Executable => "executable",
         _ => bail!("unsupported file"),
     };
-    Ok(format!("{}/{}/{}", &id[..2], &id[2..], suffix).into())
+    let (prefix, rest) = id
+        .get(..2)
+        .zip(id.get(2..))
+        .ok_or_else(|| anyhow!("unsupported identifier {id:?}"))?;
+    Ok(format!("{prefix}/{rest}/{suffix}").into())
 }
 
 // Filters very large files, embedded source files, and Precompiled headers from Source bundles.
-- 
2.43.0


From 32acd24f4dcfc5ddffc8819ad25ee0450b7470aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 09/39] fix: report errors when flushing the output files of
 wasm-split

---
 crates/wasm-split/src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 1402b06..18adb56 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -9,7 +9,7 @@
 
 use clap::Parser;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::PathBuf;
 use uuid::Uuid;
 use wasmbin::sections::{CustomSection, Section};
@@ -110,7 +110,9 @@ fn main() -> anyhow::Result<()> {
         // That said, this limitation might actually turn out to be a good thing.
         // On other platforms we also generally require that we get access to
         // the binary for eh_frame and friends.
-        module.encode_into(BufWriter::new(File::create(debug_output)?))?;
+        let mut writer = BufWriter::new(File::create(debug_output)?);
+        module.encode_into(&mut writer)?;
+        writer.flush()?;
     }
 
     // do we want to strip debug data from main file?
@@ -146,7 +148,9 @@ fn main() -> anyhow::Result<()> {
     // main module
     if should_write_main_module {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
-        module.encode_into(BufWriter::new(File::create(output)?))?;
+        let mut writer = BufWriter::new(File::create(output)?);
+        module.encode_into(&mut writer)?;
+        writer.flush()?;
     }
 
     // always print the build id.
-- 
2.43.0


From 385d1f262b46e7a2060b32ae03f5eadebeb22722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:54 +0000
Subject: [PATCH 10/39] fix: write the requested output file even if the module
 did not change

---
 crates/wasm-split/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm-split/src/main.rs b/crates/wasm-split/src/main.rs
index 18adb56..40aedb6 100644
--- a/crates/wasm-split/src/main.rs
+++ b/crates/wasm-split/src/main.rs
@@ -146,7 +146,7 @@ fn main() -> anyhow::Result<()> {
     }
 
     // main module
-    if should_write_main_module {
+    if should_write_main_module || cli.out.is_some() {
         let output = cli.out.as_ref().unwrap_or(&cli.input);
         let mut writer = BufWriter::new(File::create(output)?);
         module.encode_into(&mut writer)?;
-- 
2.43.0


From 8f4d1bed3e883ebdb91b10f4c2cf74ae4f399bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 11/39] fix: do not count source bundles that were skipped

---
 crates/symsorter/src/app.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/symsorter/src/app.rs b/crates/symsorter/src/app.rs
index 5ac719f..89d68e0 100644
--- a/crates/symsorter/src/app.rs
+++ b/crates/symsorter/src/app.rs
@@ -291,12 +291,14 @@ fn sort_files(sort_config: &SortConfig, paths: Vec<PathBuf>) -> Result<(usize, u
                     path.file_name().unwrap().to_string_lossy().to_string(),
                 )?;
 
+                let created = processed_objects.len();
+
                 debug_ids
                     .lock()
                     .unwrap()
                     .extend(processed_objects.into_iter().map(|x| x.0));
 
-                Ok(1)
+                Ok(created)
             })
             .reduce(|| Ok(0), |sum, res| Ok(sum? + res?))?
     }
-- 
2.43.0


From ce177bce3385d22640d4bb74028f87e4e5339f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:27 +0000
Subject: [PATCH 12/39] fix: limit lazy refreshes of the source index by its
 own setting

---
 crates/symbolicator-service/src/caching/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/mod.rs b/crates/symbolicator-service/src/caching/mod.rs
index a32c391..1a00d2d 100644
--- a/crates/symbolicator-service/src/caching/mod.rs
+++ b/crates/symbolicator-service/src/caching/mod.rs
@@ -214,6 +214,9 @@ impl Caches {
         let max_lazy_recomputations = Arc::new(AtomicIsize::new(
             config.caches.derived.max_lazy_recomputations.max(1),
         ));
+        let max_lazy_index_recomputations = Arc::new(AtomicIsize::new(
+            config.caches.index.max_lazy_recomputations.max(1),
+        ));
 
         // NOTE: A small cache item with all its structures is around ~100 bytes, which gives us an
         // approximate upper bound of items in the cache.
@@ -298,14 +301,14 @@ impl Caches {
                 CacheName::Proguard,
                 config,
                 config.caches.downloaded.into(),
-                max_lazy_redownloads.clone(),
+                max_lazy_redownloads,
                 default_cap,
             )?,
             source_index: Cache::from_config(
                 CacheName::SourceIndex,
                 config,
                 config.caches.index.into(),
-                max_lazy_redownloads,
+                max_lazy_index_recomputations,
                 in_memory.source_index_capacity,
             )?,
         })
-- 
2.43.0


From 1315a17ef8ef3e8b9858097d8be22e929eaf6a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:27 +0000
Subject: [PATCH 13/39] fix: keep cache entries without expiration limit in
 memory instead of panicking

---
 crates/symbolicator-service/src/caching/fs.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index b1776d6..7c14ded 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -22,6 +22,9 @@ use super::{CacheContents, CacheEntry, CacheError, CacheName, Metadata};
 /// This is being debounced to once every hour to not have to touch them on every single use.
 const TOUCH_EVERY: Duration = Duration::from_secs(3600);
 
+/// The time that items which do not expire are kept in memory, roughly 30 years.
+const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+
 /// Extension for [`Metadata`] files.
 pub(crate) const METADATA_EXTENSION: &str = "metadata";
 
@@ -383,7 +386,10 @@ impl ExpirationTime {
             ExpirationTime::RefreshIn(d) => d,
             ExpirationTime::TouchIn(d) => d,
         };
-        Instant::now() + *duration
+        // An unset limit is represented by `Duration::MAX`, which is more than can be added to an `Instant`.
+        let now = Instant::now();
+        now.checked_add(*duration)
+            .unwrap_or_else(|| now + FAR_FUTURE)
     }
 }
 
-- 
2.43.0


From 0a69f42855b0e0056697dc1c2e0c9292c1a19a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 14/39] fix: keep misses of public sources in memory only for
 their own miss time

---
 crates/symbolicator-service/src/caching/fs.rs     | 15 ++++++++++-----
 crates/symbolicator-service/src/caching/memory.rs |  8 ++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index 7c14ded..df10bb9 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -353,19 +353,24 @@ pub enum ExpirationTime {
 }
 
 impl ExpirationTime {
-    /// Gives the [`ExpirationTime`] for a freshly created cache with the given [`CacheContents`].
-    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheContents<T>) -> Self {
+    /// Gives the [`ExpirationTime`] for a freshly created [`CacheEntry`].
+    pub fn for_fresh_status<T>(cache: &Cache, entry: &CacheEntry<T>) -> Self {
         let config = &cache.cache_config;
-        let strategy = expiration_strategy(entry);
+        let strategy = expiration_strategy(entry.contents());
         match strategy {
             ExpirationStrategy::None => {
                 // we want to touch good caches once every hour
                 Self::TouchIn(Duration::from_secs(3600))
             }
             ExpirationStrategy::Negative => {
-                let retry_misses_after = config.retry_misses_after().unwrap_or(Duration::MAX);
+                let is_public = entry.metadata().is_some_and(|md| md.scope == Scope::Global);
+                let retry_misses_after = if is_public {
+                    config.retry_misses_after_public()
+                } else {
+                    config.retry_misses_after()
+                };
 
-                Self::RefreshIn(retry_misses_after)
+                Self::RefreshIn(retry_misses_after.unwrap_or(Duration::MAX))
             }
             ExpirationStrategy::Malformed => {
                 let retry_malformed_after = config.retry_malformed_after().unwrap_or(Duration::MAX);
diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 0fda977..298e87e 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -440,10 +440,10 @@ impl<T: CacheItemRequest> Cacher<T> {
                     Err(CacheError::NotFound) => continue,
                     Err(err) => {
                         let contents = Err(err);
-                        let deadline =
-                            ExpirationTime::for_fresh_status(&self.config, &contents).as_instant();
                         let metadata = Some(Metadata::from_key(cache_key));
                         let data = CacheEntry { metadata, contents };
+                        let deadline =
+                            ExpirationTime::for_fresh_status(&self.config, &data).as_instant();
                         return Some(InMemoryItem { deadline, data });
                     }
                     Ok((item, needs_reupload)) => {
@@ -533,7 +533,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             .await;
 
         // we just created a fresh cache, so use the initial expiration times
-        let expiration = ExpirationTime::for_fresh_status(&self.config, data.contents());
+        let expiration = ExpirationTime::for_fresh_status(&self.config, &data);
 
         InMemoryItem {
             deadline: expiration.as_instant(),
@@ -592,7 +592,7 @@ impl<T: CacheItemRequest> Cacher<T> {
             let data = this.compute(request, &cache_key, true).await;
 
             // we just created a fresh cache, so use the initial expiration times
-            let expiration = ExpirationTime::for_fresh_status(&this.config, data.contents());
+            let expiration = ExpirationTime::for_fresh_status(&this.config, &data);
             let value = InMemoryItem {
                 deadline: expiration.as_instant(),
                 data,
-- 
2.43.0


From 6602aeafa5f6d14009c2174ecb25d41067c1ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 15/39] fix: do not mix parts of a failed shared cache fetch
 into computed items

---
 crates/symbolicator-service/src/caching/memory.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 298e87e..700a94d 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -267,6 +267,15 @@ impl<T: CacheItemRequest> Cacher<T> {
         let entry = self.load_from_shared_cache(&request, key, &temp_file).await;
         let shared_cache_hit = entry.is_some();
 
+        if !shared_cache_hit && self.shared_cache(&request).is_some() {
+            // A failed fetch may have left parts of the shared item in the temp file. These must
+            // not become part of the computed item, so continue with a new file.
+            temp_file = match self.config.tempfile() {
+                Ok(temp_file) => temp_file,
+                Err(e) => return CacheEntry::from_err(e),
+            };
+        }
+
         let entry = match entry {
             Some(entry) => entry,
             None => {
-- 
2.43.0


From f9ac3adbdb5405cb0c536a9af0338e1237a5c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 16/39] fix: do not remember local failures of shared cache
 fetches as misses

---
 .../symbolicator-service/src/caching/memory.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/memory.rs b/crates/symbolicator-service/src/caching/memory.rs
index 700a94d..8db2f2e 100644
--- a/crates/symbolicator-service/src/caching/memory.rs
+++ b/crates/symbolicator-service/src/caching/memory.rs
@@ -191,7 +191,7 @@ impl<T: CacheItemRequest> Cacher<T> {
     /// and places it in the supplied temp file.
     ///
     /// Returns `None` If the shared cache is not enabled for the request
-    /// or the entry is not found there.
+    /// or the entry is not found there or cannot be loaded.
     async fn load_from_shared_cache(
         &self,
         request: &T,
@@ -204,7 +204,13 @@ impl<T: CacheItemRequest> Cacher<T> {
 
         let temp_fd = match temp_file.reopen() {
             Ok(fd) => fd,
-            Err(e) => return Some(CacheEntry::from_err(e)),
+            Err(e) => {
+                tracing::error!(
+                    error = &e as &dyn std::error::Error,
+                    "Failed to reopen temp file for the shared cache",
+                );
+                return None;
+            }
         };
         let temp_fd = tokio::fs::File::from_std(temp_fd);
 
@@ -215,7 +221,13 @@ impl<T: CacheItemRequest> Cacher<T> {
             let metadata = Some(Metadata::from_key(key));
             let byte_view = match ByteView::map_file_ref(temp_file.as_file()) {
                 Ok(bv) => bv,
-                Err(e) => return Some(CacheEntry::from_err(e)),
+                Err(e) => {
+                    tracing::error!(
+                        error = &e as &dyn std::error::Error,
+                        "Failed to map item from the shared cache",
+                    );
+                    return None;
+                }
             };
             Some(CacheEntry {
                 contents: Ok(byte_view),
-- 
2.43.0


From 7ced974277599b6c08186ecf97c4caa8a1c2ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:13 +0000
Subject: [PATCH 17/39] fix: keep symcaches and auxiliary files of private
 sources in the scope of the request

---
 .../src/caches/symcaches.rs                   | 20 ++++++++++++++++---
 .../src/objects/meta_cache.rs                 |  6 ++++--
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-native/src/caches/symcaches.rs b/crates/symbolicator-native/src/caches/symcaches.rs
index 99a652f..e537107 100644
--- a/crates/symbolicator-native/src/caches/symcaches.rs
+++ b/crates/symbolicator-native/src/caches/symcaches.rs
@@ -141,7 +141,7 @@ impl SymCacheActor {
                         self.bitcode_svc
                             .fetch_bcsymbolmap(
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -159,7 +159,7 @@ impl SymCacheActor {
                             .fetch_line_mapping(
                                 handle.object_id(),
                                 debug_id,
-                                handle.scope().clone(),
+                                request.scope.clone(),
                                 request.sources.clone(),
                             )
                             .bind_hub(Hub::new_from_top(Hub::current()))
@@ -172,7 +172,21 @@ impl SymCacheActor {
             let (bcsymbolmap_handle, il2cpp_handle) =
                 futures::future::join(fetch_bcsymbolmap, fetch_il2cpp).await;
 
-            let mut builder = handle.cache_key_builder();
+            // A SymCache that was created from private files must not leave the request's scope,
+            // even if the object itself is public.
+            let has_private_source = bcsymbolmap_handle
+                .as_ref()
+                .is_some_and(|handle| !handle.file.is_public())
+                || il2cpp_handle
+                    .as_ref()
+                    .is_some_and(|handle| !handle.file.is_public());
+            let scope = if has_private_source {
+                &request.scope
+            } else {
+                handle.scope()
+            };
+
+            let mut builder = handle.cache_key_builder(scope);
             if let Some(handle) = &bcsymbolmap_handle {
                 builder.write_str("\nbcsymbolmap:\n").unwrap();
                 builder.write_file_meta(&handle.file).unwrap();
diff --git a/crates/symbolicator-service/src/objects/meta_cache.rs b/crates/symbolicator-service/src/objects/meta_cache.rs
index cd8b975..953c081 100644
--- a/crates/symbolicator-service/src/objects/meta_cache.rs
+++ b/crates/symbolicator-service/src/objects/meta_cache.rs
@@ -68,8 +68,10 @@ impl ObjectMetaHandle {
         CacheKey::from_scoped_file(&self.scope, &self.file_source)
     }
 
-    pub fn cache_key_builder(&self) -> CacheKeyBuilder {
-        let mut builder = CacheKey::scoped_builder(&self.scope);
+    /// Creates a [`CacheKeyBuilder`] for an item in the given `scope` that is derived from this
+    /// object.
+    pub fn cache_key_builder(&self, scope: &Scope) -> CacheKeyBuilder {
+        let mut builder = CacheKey::scoped_builder(scope);
         builder.write_file_meta(&self.file_source).unwrap();
         builder
     }
-- 
2.43.0


From 4054e1229fd094e6ad671a393f2efa6e747baf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:58 +0000
Subject: [PATCH 18/39] fix: keep the Symstore indexes of sources with the same
 id apart

---
 .../src/download/index.rs                     | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 56a2ad4..2b9ac2c 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -9,8 +9,8 @@ use moka::ops::compute::Op;
 use symbolic::common::{AccessPattern, ByteView};
 use symbolicator_sources::{
     DirectoryLayoutType, FilesystemRemoteFile, FilesystemSourceConfig, GcsRemoteFile,
-    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, S3RemoteFile, S3SourceConfig,
-    SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
+    GcsSourceConfig, HttpRemoteFile, HttpSourceConfig, RemoteFile, RemoteFileUri, S3RemoteFile,
+    S3SourceConfig, SourceConfig, SourceId, SourceIndex, SourceLocation, SymstoreIndex,
 };
 use tempfile::NamedTempFile;
 
@@ -93,6 +93,15 @@ impl IndexSourceConfig {
             IndexSourceConfig::S3(s3) => S3RemoteFile::new(Arc::clone(s3), loc).into(),
         }
     }
+
+    /// Returns the location of the index on this source.
+    ///
+    /// The id of a source alone does not identify its index: different sources may
+    /// share an id, and the location of a source may be reconfigured.
+    fn index_location(&self) -> RemoteFileUri {
+        self.remote_file(SourceLocation::new(LASTID_FILE)).uri()
+    }
+
     /// Returns a key that uniquely identifies the source for metrics.
     ///
     /// If this is a built-in source the source_id is returned, otherwise this falls
@@ -222,6 +231,7 @@ async fn download_full_index(
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore_segment").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.index_location()).unwrap();
         writeln!(&mut cache_key, "segment: {i}").unwrap();
         let cache_key = cache_key.build();
         let result = cache.compute_memoized(request, cache_key).await;
@@ -318,7 +328,7 @@ pub struct SourceIndexService {
     /// An in-memory cache for keeping track of the last segment uploaded
     /// to a Symstore index.
     symstore_last_id_cache:
-        moka::future::Cache<(Scope, SourceId), (CacheContents<u32>, SystemTime)>,
+        moka::future::Cache<(Scope, SourceId, RemoteFileUri), (CacheContents<u32>, SystemTime)>,
     /// The download service to download index files.
     downloader: Arc<DownloadService>,
 }
@@ -379,7 +389,7 @@ impl SourceIndexService {
 
         let comp_result = self
             .symstore_last_id_cache
-            .entry((scope, source.id().clone()))
+            .entry((scope, source.id().clone(), source.index_location()))
             .and_compute_with(|entry| async {
                 let now = SystemTime::now();
                 let Some(entry) = entry else {
@@ -489,6 +499,7 @@ impl SourceIndexService {
         let mut cache_key = CacheKey::scoped_builder(&scope);
         writeln!(&mut cache_key, "type: symstore").unwrap();
         writeln!(&mut cache_key, "source_id: {}", source.id()).unwrap();
+        writeln!(&mut cache_key, "location: {}", source.index_location()).unwrap();
         writeln!(&mut cache_key, "last_id: {last_id}").unwrap();
         let cache_key = cache_key.build();
 
-- 
2.43.0


From bf489413651c865c87c6e6ccaeb59b305e67373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:27 +0000
Subject: [PATCH 19/39] fix: keep source files fetched with credentials of a
 request in its scope

---
 .../src/symbolication/module_lookup.rs                 |  5 +++++
 .../src/symbolication/source_context.rs                | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index f0b5983..be6a68f 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -196,6 +196,11 @@ impl ModuleLookup {
         }
     }
 
+    /// Returns the scope of the request the modules belong to.
+    pub(crate) fn scope(&self) -> &Scope {
+        &self.scope
+    }
+
     /// Returns the original `CompleteObjectInfo` list in its original sorting order.
     pub fn into_inner(mut self) -> Vec<CompleteObjectInfo> {
         // Restore the original name of the first module's debug file, if there
diff --git a/crates/symbolicator-native/src/symbolication/source_context.rs b/crates/symbolicator-native/src/symbolication/source_context.rs
index 8e3a451..8ddda60 100644
--- a/crates/symbolicator-native/src/symbolication/source_context.rs
+++ b/crates/symbolicator-native/src/symbolication/source_context.rs
@@ -51,12 +51,20 @@ impl SymbolicationActor {
         // Download remote sources and update contexts.
         if !remote_sources.is_empty() {
             let cache = self.sourcefiles_cache.as_ref();
+            let request_scope = module_lookup.scope().clone();
+            let request_scope = &request_scope;
             let futures = remote_sources.into_iter().map(
                 |((source_scope, url), (module_idx, frames))| async move {
                     let mut remote_file =
                         HttpRemoteFile::from_url(url.clone(), scraping.verify_ssl);
 
+                    let mut scope = &source_scope;
                     if scraping.enabled && is_valid_origin(&url, &scraping.allowed_origins) {
+                        // What is fetched with the credentials of a request must not be shared
+                        // with others, even if the object linking to it is public.
+                        if !scraping.headers.is_empty() {
+                            scope = request_scope;
+                        }
                         remote_file.headers.extend(
                             scraping
                                 .headers
@@ -67,7 +75,7 @@ impl SymbolicationActor {
 
                     let uri = remote_file.uri();
                     let res = cache
-                        .fetch_file(&source_scope, remote_file.into(), true)
+                        .fetch_file(scope, remote_file.into(), true)
                         .await
                         .into_contents();
 
-- 
2.43.0


From 19fa74e8e19b3995a797b7f9e081bc7ceea859cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:54 +0000
Subject: [PATCH 20/39] fix: do not remove cache directories that contain files
 which failed to be processed

---
 crates/symbolicator-service/src/caching/cleanup.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index ebd5d0d..4e7ea9f 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -237,6 +237,7 @@ impl Cache {
                                     },
                                     || tracing::error!("Failed to clean cache file: {:?}", e),
                                 );
+                                is_empty = false;
                             }
                             Ok((file_removed, file_stats)) => {
                                 is_empty &= file_removed;
-- 
2.43.0


From 39dc821491c29424c5343a49f808f071d88a6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:06 +0000
Subject: [PATCH 21/39] fix: keep broken metadata files when cleaning up in a
 dry run

---
 crates/symbolicator-service/src/caching/cleanup.rs |  2 +-
 crates/symbolicator-service/src/caching/fs.rs      | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/caching/cleanup.rs b/crates/symbolicator-service/src/caching/cleanup.rs
index 4e7ea9f..77ba35c 100644
--- a/crates/symbolicator-service/src/caching/cleanup.rs
+++ b/crates/symbolicator-service/src/caching/cleanup.rs
@@ -280,7 +280,7 @@ impl Cache {
         let metadata_size =
             catch_not_found(|| metadata_path.metadata())?.map_or(0, |metadata| metadata.len());
 
-        if catch_not_found(|| self.check_expiry(path))?.is_none() {
+        if catch_not_found(|| self.check_expiry(path, !dry_run))?.is_none() {
             tracing::debug!("Removing file `{}`", path.display());
             if !dry_run {
                 catch_not_found(|| remove_file(path))?;
diff --git a/crates/symbolicator-service/src/caching/fs.rs b/crates/symbolicator-service/src/caching/fs.rs
index df10bb9..ec9e9bd 100644
--- a/crates/symbolicator-service/src/caching/fs.rs
+++ b/crates/symbolicator-service/src/caching/fs.rs
@@ -108,9 +108,13 @@ impl Cache {
     /// If cache should not be used, `Err(io::ErrorKind::NotFound)` is returned.
     /// If cache is usable, `Ok(x)` is returned with the opened [`ByteView`], and
     /// an [`ExpirationTime`] that indicates whether the file should be touched before using.
+    ///
+    /// A metadata file that cannot be parsed is removed if `remove_broken_metadata` is set, and
+    /// ignored otherwise.
     pub(super) fn check_expiry(
         &self,
         path: &Path,
+        remove_broken_metadata: bool,
     ) -> io::Result<(CacheEntry<ByteView<'static>>, ExpirationTime)> {
         let fs_metadata = path.metadata()?;
         tracing::trace!("File `{}` length: {}", path.display(), fs_metadata.len());
@@ -124,7 +128,9 @@ impl Cache {
                     error = &e as &dyn std::error::Error,
                     "Failed to parse cache metadata file",
                 );
-                let _ = std::fs::remove_file(metadata_path(path));
+                if remove_broken_metadata {
+                    let _ = std::fs::remove_file(metadata_path(path));
+                }
                 None
             }
         };
@@ -256,7 +262,7 @@ impl Cache {
         // of those can indicate a cache miss as cache cleanup can run inbetween. Only when we have
         // an open ByteView we can be sure to have a cache hit.
         catch_not_found(|| {
-            let (cache_entry, mut expiration) = self.check_expiry(path)?;
+            let (cache_entry, mut expiration) = self.check_expiry(path, true)?;
 
             let should_touch = matches!(expiration, ExpirationTime::TouchIn(Duration::ZERO));
             if should_touch {
-- 
2.43.0


From d6fa9651b40b23739c664faea64120a739fddf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:37 +0000
Subject: [PATCH 22/39] fix: report undecodable ProGuard files as invalid
 instead of panicking

---
 crates/symbolicator-proguard/src/symbolication.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-proguard/src/symbolication.rs b/crates/symbolicator-proguard/src/symbolication.rs
index 49c43de..175555b 100644
--- a/crates/symbolicator-proguard/src/symbolication.rs
+++ b/crates/symbolicator-proguard/src/symbolication.rs
@@ -65,11 +65,11 @@ impl ProguardService {
                     }
                     let kind = match e {
                         CacheError::Malformed(msg) => match msg.as_str() {
-                            "The file is not a valid ProGuard file" => ProguardErrorKind::Invalid,
                             "The ProGuard file doesn't contain any line mappings" => {
                                 ProguardErrorKind::NoLineInfo
                             }
-                            _ => unreachable!(),
+                            // Either not a valid ProGuard file, or not even a valid archive.
+                            _ => ProguardErrorKind::Invalid,
                         },
                         _ => ProguardErrorKind::Missing,
                     };
-- 
2.43.0


From 71c233105732ded8ed1c9cdd7a72b110eb14e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 23/39] fix: attach source link candidates to the module they
 belong to

---
 .../src/symbolication/module_lookup.rs               | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-native/src/symbolication/module_lookup.rs b/crates/symbolicator-native/src/symbolication/module_lookup.rs
index be6a68f..e717704 100644
--- a/crates/symbolicator-native/src/symbolication/module_lookup.rs
+++ b/crates/symbolicator-native/src/symbolication/module_lookup.rs
@@ -524,11 +524,15 @@ impl ModuleLookup {
         }
     }
 
-    /// Adds an `ObjectCandidate` to the module with index `idx`.
+    /// Adds an `ObjectCandidate` to the module with the original index `module_index`.
     ///
-    /// If there is no module at that index, this is a no-op.
-    pub fn add_candidate(&mut self, idx: usize, candidate: &ObjectCandidate) {
-        let Some(entry) = self.modules.get_mut(idx) else {
+    /// If there is no module with that index, this is a no-op.
+    pub fn add_candidate(&mut self, module_index: usize, candidate: &ObjectCandidate) {
+        let Some(entry) = self
+            .modules
+            .iter_mut()
+            .find(|entry| entry.module_index == module_index)
+        else {
             return;
         };
 
-- 
2.43.0


From 13bf8c9a085ca521bd56321a4d7b07df0f588910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:02 +0000
Subject: [PATCH 24/39] fix: match allowed origins with a port and a path

The port was split off the part of the pattern that still contained the
path, so a pattern such as example.com:8080/ never matched.
---
 crates/symbolicator-service/src/utils/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/utils/http.rs b/crates/symbolicator-service/src/utils/http.rs
index 371e6ba..1f05900 100644
--- a/crates/symbolicator-service/src/utils/http.rs
+++ b/crates/symbolicator-service/src/utils/http.rs
@@ -149,7 +149,7 @@ impl AllowedOriginPattern {
         let (scheme, rest) = value.split_once("://").unwrap_or(("*", value));
         let (domain, path) = rest.split_once('/').unwrap_or((rest, "*"));
 
-        let (domain, port) = match rest.split_once(':') {
+        let (domain, port) = match domain.split_once(':') {
             Some((d, p)) => (d, Some(p)),
             None => (domain, None),
         };
-- 
2.43.0


From 8fa3210a4ef9851268b61d498039cc7b9f7d1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 25/39] fix: only use answers with the requested range as parts
 of a file

---
 .../symbolicator-service/src/download/mod.rs  | 46 +++++++++++++++++--
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f928bf5..4b99a49 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -685,6 +685,13 @@ async fn do_download_reqwest_range(
                 return Ok(());
             }
 
+            // The initial range starts at `0`, anything else cannot be the head of the file.
+            if content_range.start != 0 {
+                return Err(CacheError::DownloadError(
+                    "server did not send the requested range".to_string(),
+                ));
+            }
+
             destination.set_size(content_range.total_size).await?;
 
             let mut futures = FuturesUnordered::new();
@@ -693,13 +700,12 @@ async fn do_download_reqwest_range(
             futures.push(Either::Left(head.send()));
 
             for range in partial::split(content_range) {
-                let request = request
-                    .try_clone()
-                    .ok_or(CacheError::InternalError)?
-                    .with_range(range);
+                let request = request.try_clone().ok_or(CacheError::InternalError)?;
 
                 let destination = destination.stream(range.start, range.size());
-                let partial = do_download_reqwest(request, destination).send();
+                let total_size = content_range.total_size;
+                let partial =
+                    do_download_reqwest_part(request, range, total_size, destination).send();
                 futures.push(Either::Right(partial));
             }
 
@@ -715,6 +721,36 @@ async fn do_download_reqwest_range(
     }
 }
 
+/// Downloads a single `range` of the requested resource into the `destination`.
+///
+/// Only an answer with exactly this range, of a resource of the expected `total_size`, can become
+/// part of the file.
+async fn do_download_reqwest_part(
+    request: SymRequest<'_>,
+    range: partial::Range,
+    total_size: u64,
+    destination: impl WriteStream,
+) -> CacheContents {
+    let source = request.to_source();
+    let expected = BytesContentRange {
+        start: range.start,
+        end: range.end,
+        total_size,
+    };
+
+    let response = request.with_range(range).execute().await?;
+
+    match response.content_range() {
+        Some(Ok(content_range)) if content_range == expected => {
+            response.download(destination).await
+        }
+        None if !response.status().is_success() => Err(status_to_error(&source, response.status())),
+        _ => Err(CacheError::DownloadError(
+            "server did not send the requested range".to_string(),
+        )),
+    }
+}
+
 /// Downloads the requested resource with a single download request into the `destination`.
 async fn do_download_reqwest(
     request: SymRequest<'_>,
-- 
2.43.0


From 3a5ed010a910054ae87f3ec065e5579e298f810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 26/39] fix: write downloaded chunks completely

---
 crates/symbolicator-service/src/download/destination.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/destination.rs b/crates/symbolicator-service/src/download/destination.rs
index 4c9bee9..14577ca 100644
--- a/crates/symbolicator-service/src/download/destination.rs
+++ b/crates/symbolicator-service/src/download/destination.rs
@@ -15,7 +15,7 @@ use std::{io::Write, sync::Arc};
 pub trait WriteStream: Send {
     /// Attempts to write an entire buffer into this writer.
     ///
-    /// See also: [`AsyncWriteExt::write_buf`].
+    /// See also: [`AsyncWriteExt::write_all_buf`].
     fn write_buf(&mut self, buf: Bytes) -> impl Future<Output = io::Result<()>> + Send;
 }
 
@@ -24,7 +24,7 @@ where
     T: AsyncWrite + Unpin + Send,
 {
     async fn write_buf(&mut self, mut buf: Bytes) -> io::Result<()> {
-        AsyncWriteExt::write_buf(self, &mut buf).await.map(|_| ())
+        AsyncWriteExt::write_all_buf(self, &mut buf).await
     }
 }
 
-- 
2.43.0


From 274a475494eb2b9875d2b560e6168f597f599676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:16 +0000
Subject: [PATCH 27/39] fix: report errors when flushing downloaded files

---
 crates/symbolicator-service/src/download/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 4b99a49..526e8ae 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -313,8 +313,8 @@ impl DownloadService {
                     self.fs.download_source(source, &mut destination).await
                 }
             };
-            let _ = destination.flush().await;
-            result
+            let flushed = destination.flush().await;
+            result.and(flushed.map_err(CacheError::from))
         })
         .await;
 
-- 
2.43.0


From 2cd4a8fdf5efe29ff650d3131f55aeb2495d569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:26 +0000
Subject: [PATCH 28/39] fix: do not take a partial answer without a range for
 the whole file

A 206 answer whose Content-Range header is missing or unreadable was treated
like a full answer, so the first part of a file was cached as the whole file.
It is now handled like any other invalid range: the file is requested again
without a range.
---
 crates/symbolicator-service/src/download/partial.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/symbolicator-service/src/download/partial.rs b/crates/symbolicator-service/src/download/partial.rs
index 798006d..cfcc447 100644
--- a/crates/symbolicator-service/src/download/partial.rs
+++ b/crates/symbolicator-service/src/download/partial.rs
@@ -142,11 +142,13 @@ impl BytesContentRange {
             return None;
         }
 
-        response
+        let content_range = response
             .headers()
             .get(reqwest::header::CONTENT_RANGE)
-            .and_then(|hv| hv.to_str().ok())
-            .map(|s| s.parse())
+            .and_then(|hv| hv.to_str().ok());
+
+        // A partial response without a readable range may contain any part of the resource.
+        Some(content_range.map_or(Err(InvalidBytesRange::Malformed), |s| s.parse()))
     }
 }
 
-- 
2.43.0


From cae936272d9f67f3f8d225e545c512ab6b6bd381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 29/39] fix: do not panic on the age of a last id when the
 clock steps back

---
 crates/symbolicator-service/src/download/index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/index.rs b/crates/symbolicator-service/src/download/index.rs
index 2b9ac2c..20034e1 100644
--- a/crates/symbolicator-service/src/download/index.rs
+++ b/crates/symbolicator-service/src/download/index.rs
@@ -409,7 +409,7 @@ impl SourceIndexService {
                     LASTID_ERROR_CACHE_TIME
                 };
 
-                if ts.elapsed().unwrap() > cache_time {
+                if ts.elapsed().unwrap_or_default() > cache_time {
                     tracing::info!("Last ID is older than {} seconds", cache_time.as_secs());
                     // The old entry is expired, we might need to update it.
                     let res_new = compute().await;
-- 
2.43.0


From 6bb2c8b4bceb870fefc4f7b2f51bda779a1f3070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:56 +0000
Subject: [PATCH 30/39] fix: do not count crashed requests as in flight forever

---
 crates/symbolicator/src/service.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index 2fc01f8..dec21a2 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -414,6 +414,10 @@ impl RequestService {
             .unwrap()
             .insert(request_id, receiver.shared());
         current_requests.fetch_add(1, Ordering::Relaxed);
+        // The request is in flight until it has a response, even if it panics or is cancelled.
+        let in_flight_guard = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
@@ -480,7 +484,7 @@ impl RequestService {
 
             // We stop counting the request as an in-flight request at this point, even though
             // it will stay in the `requests` map for another 90s.
-            current_requests.fetch_sub(1, Ordering::Relaxed);
+            drop(in_flight_guard);
 
             // Using `task_name` as the tag should be fine, there is only a small
             // fixed number of them.
-- 
2.43.0


From 2c2687c7de34d177f0f27e4ca9d0b2ccd004b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:15 +0000
Subject: [PATCH 31/39] fix: check and count concurrent requests in a single
 step

---
 crates/symbolicator/src/service.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/symbolicator/src/service.rs b/crates/symbolicator/src/service.rs
index dec21a2..fc7ba5b 100644
--- a/crates/symbolicator/src/service.rs
+++ b/crates/symbolicator/src/service.rs
@@ -393,17 +393,25 @@ impl RequestService {
         let requests = Arc::clone(&self.inner.requests);
         let current_requests = Arc::clone(&self.inner.current_requests);
 
-        let num_requests = current_requests.load(Ordering::Relaxed);
+        // Reject the request if there already are `max_concurrent_requests` of them in flight. Checking
+        // and counting has to be a single step, as requests can be created concurrently.
+        let max_requests = self.inner.max_concurrent_requests.unwrap_or(usize::MAX);
+        let counted = current_requests.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |n| {
+            (n < max_requests).then_some(n + 1)
+        });
+        let num_requests = counted.unwrap_or_else(|n| n);
         metric!(gauge("requests.in_flight") = num_requests as u64);
 
-        // Reject the request if `requests` already contains `max_concurrent_requests` elements.
-        if let Some(max_concurrent_requests) = self.inner.max_concurrent_requests {
-            if num_requests >= max_concurrent_requests {
-                metric!(counter("requests.rejected") += 1);
-                return Err(MaxRequestsError);
-            }
+        if counted.is_err() {
+            metric!(counter("requests.rejected") += 1);
+            return Err(MaxRequestsError);
         }
 
+        // The request is in flight until it has a response, even if it panics or is cancelled.
+        let in_flight_guard = CallOnDrop::new(move || {
+            current_requests.fetch_sub(1, Ordering::Relaxed);
+        });
+
         // Using `task_name` as the tag should be fine, there is only a small
         // fixed number of them.
         metric!(counter("requests.accepted") += 1, "task" => task_name);
@@ -413,11 +421,6 @@ impl RequestService {
             .lock()
             .unwrap()
             .insert(request_id, receiver.shared());
-        current_requests.fetch_add(1, Ordering::Relaxed);
-        // The request is in flight until it has a response, even if it panics or is cancelled.
-        let in_flight_guard = CallOnDrop::new(move || {
-            current_requests.fetch_sub(1, Ordering::Relaxed);
-        });
         let drop_hub = hub.clone();
         let token = CallOnDrop::new(move || {
             requests.lock().unwrap().remove(&request_id);
-- 
2.43.0


From 9fc9d3ba3889a0fd4b2c0c46b627b84c3173837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:06 +0000
Subject: [PATCH 32/39] fix: do not panic when GCS authentication times out
 between two clock readings

Time passes between the check against MAX_DELAY and the computation of the remaining
time, so the subtraction of durations could underflow and panic, ending the task that
initialises the shared cache without reporting the error.
---
 crates/symbolicator-service/src/caching/shared_cache/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/caching/shared_cache/mod.rs b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
index e6eb366..93d8c4d 100644
--- a/crates/symbolicator-service/src/caching/shared_cache/mod.rs
+++ b/crates/symbolicator-service/src/caching/shared_cache/mod.rs
@@ -112,7 +112,7 @@ impl GcsState {
                         Ok(token_provider) => break token_provider,
                         Err(err) if start.elapsed() > MAX_DELAY => return Err(err),
                         Err(err) => {
-                            let remaining = MAX_DELAY - start.elapsed();
+                            let remaining = MAX_DELAY.saturating_sub(start.elapsed());
                             tracing::warn!("Error initialising GCS authentication token: {}", &err);
                             match err.downcast_ref::<gcp_auth::Error>() {
                                 Some(gcp_auth::Error::NoAuthMethod(gcloud, svc, user)) => {
-- 
2.43.0


From c1968799cc91e156b47b115b7b5c585a188b6435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 33/39] fix: do not divide by zero with a deny list granularity
 below a millisecond

With `deny_list_bucket_size` set to zero or less than a millisecond every failed download
of a blockable source panicked with a remainder by zero.
---
 crates/symbolicator-service/src/download/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index 526e8ae..f017dfa 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -129,7 +129,7 @@ impl HostDenyList {
     /// Creates an empty [`HostDenyList`].
     fn from_config(config: &Config) -> Self {
         let time_window_millis = config.deny_list_time_window.as_millis() as u64;
-        let bucket_size_millis = config.deny_list_bucket_size.as_millis() as u64;
+        let bucket_size_millis = (config.deny_list_bucket_size.as_millis() as u64).max(1);
         Self {
             time_window_millis,
             bucket_size_millis,
-- 
2.43.0


From dafdcbe958d048d334dbd0b604a492e3111d4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:35 +0000
Subject: [PATCH 34/39] fix: do not underflow in the deny list when the clock
 is near the epoch

A clock that is not set yet (or before 1970, which is taken for zero) made the start of the
time window underflow: a panic in debug builds, otherwise hosts were never blocked.
---
 crates/symbolicator-service/src/download/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-service/src/download/mod.rs b/crates/symbolicator-service/src/download/mod.rs
index f017dfa..d480822 100644
--- a/crates/symbolicator-service/src/download/mod.rs
+++ b/crates/symbolicator-service/src/download/mod.rs
@@ -196,7 +196,7 @@ impl HostDenyList {
             queue.pop_front();
         }
 
-        let cutoff = current_ts - self.time_window_millis;
+        let cutoff = current_ts.saturating_sub(self.time_window_millis);
         let total_failures: usize = queue
             .iter()
             .skip_while(|failure_count| failure_count.timestamp < cutoff)
-- 
2.43.0


From 29ca37f23be0d3d0b107f188fc267afa8c2e1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:15 +0000
Subject: [PATCH 35/39] fix: do not underflow when scraping with a clock near
 the epoch

Before the time offset of the URL (less than SCRAPE_FILES_EVERY after 1970, or earlier, which
is taken for zero) the subtraction panicked in debug builds and wrapped around otherwise.
---
 crates/symbolicator-js/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicator-js/src/utils.rs b/crates/symbolicator-js/src/utils.rs
index 411454a..ff755af 100644
--- a/crates/symbolicator-js/src/utils.rs
+++ b/crates/symbolicator-js/src/utils.rs
@@ -329,7 +329,7 @@ pub fn cache_busting_key(url: &str, timestamp: u64, refresh_every: u64) -> u64 {
         u64::from_le_bytes(<[u8; 8]>::try_from(&url_hash[..8]).expect("sha256 outputs >8 bytes"));
 
     let offset = url_hash % refresh_every;
-    ((timestamp - offset) / refresh_every * refresh_every) + offset
+    (timestamp.saturating_sub(offset) / refresh_every * refresh_every) + offset
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8fd69c4190707e2ad0d0bf70ff98c2984ff612af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:29 +0000
Subject: [PATCH 36/39] fix: read JavaScript responses without errors back

---
 crates/symbolicator-js/src/interface.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/symbolicator-js/src/interface.rs b/crates/symbolicator-js/src/interface.rs
index 2e29364..9e44a3b 100644
--- a/crates/symbolicator-js/src/interface.rs
+++ b/crates/symbolicator-js/src/interface.rs
@@ -157,7 +157,7 @@ pub enum JsScrapingResult {
     Failure {
         /// The basic reason for the failure.
         reason: JsScrapingFailureReason,
-        #[serde(skip_serializing_if = "String::is_empty")]
+        #[serde(default, skip_serializing_if = "String::is_empty")]
         /// A more detailed explanation of the failure.
         details: String,
     },
@@ -299,10 +299,10 @@ pub struct JsStacktrace {
 pub struct CompletedJsSymbolicationResponse {
     pub stacktraces: Vec<JsStacktrace>,
     pub raw_stacktraces: Vec<JsStacktrace>,
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub errors: Vec<JsModuleError>,
-    #[serde(skip_serializing_if = "HashSet::is_empty")]
+    #[serde(default, skip_serializing_if = "HashSet::is_empty")]
     pub used_artifact_bundles: HashSet<SentryFileId>,
-    #[serde(skip_serializing_if = "Vec::is_empty")]
+    #[serde(default, skip_serializing_if = "Vec::is_empty")]
     pub scraping_attempts: Vec<JsScrapingAttempt>,
 }
-- 
2.43.0


From a43fe39282308891f80b8a310b97940cbc548d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:44 +0000
Subject: [PATCH 37/39] fix: document the default limit of concurrent requests

---
 docs/index.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/index.md b/docs/index.md
index d2c11b1..7fef8ba 100644
--- a/docs/index.md
+++ b/docs/index.md
@@ -86,7 +86,7 @@ metrics:
 - `traces_sample_rate`: The sample rate for traces sent to Sentry. Should be a value between `0.0` and `1.0`. Defaults to `0.05`.
 - `propagate_traces`: When tracing is enabled, inherit the sample rate from incoming parent traces and if Sentry is used as a symbol source also propagate traces back to Sentry. Defaults to `true`.
 - `max_concurrent_requests`: The maximum number of requests symbolicator will process concurrently. Further requests will result in a 503 status code.
-  Set it to `null` to turn off the limit. Defaults to 120.
+  Set it to `null` to turn off the limit. Defaults to 200.
 
 > All time units for the following configuration settings can be either a time
 expression like `1s`.  Units can be `s`, `seconds`, `m`, `minutes`, `h`,
-- 
2.43.0


From 19a4cdbfc5c28a0cc0869de1615fa361b975a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:49 +0000
Subject: [PATCH 38/39] fix: report a Sentry URL that cannot be a base instead
 of panicking

---
 crates/symbolicli/src/settings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/symbolicli/src/settings.rs b/crates/symbolicli/src/settings.rs
index a85d910..5644159 100644
--- a/crates/symbolicli/src/settings.rs
+++ b/crates/symbolicli/src/settings.rs
@@ -180,7 +180,7 @@ impl Settings {
                 .unwrap_or(DEFAULT_URL);
 
             let sentry_url = Url::parse(sentry_url).context("Invalid sentry URL")?;
-            let url = sentry_url.join("/api/0/").unwrap();
+            let url = sentry_url.join("/api/0/").context("Invalid sentry URL")?;
 
             let Some(org) = cli
                 .org
-- 
2.43.0


From bed8f6c7d5ab32ee7354b30c81fed19720c7ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:16 +0000
Subject: [PATCH 39/39] fix: symbolicli no longer panics on frames outside of
 the known modules

The tables looked the package of every frame up among the modules, but frames
that are not covered by any module keep the package they were sent with.
Offsets are not computed by subtractions that underflow either: relative
addresses already are offsets, and an unsymbolicated frame may claim any
symbol address.
---
 crates/symbolicli/src/output.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/symbolicli/src/output.rs b/crates/symbolicli/src/output.rs
index 47c8716..12cb315 100644
--- a/crates/symbolicli/src/output.rs
+++ b/crates/symbolicli/src/output.rs
@@ -4,7 +4,7 @@ use prettytable::{cell, format::consts::FORMAT_CLEAN, row, Row, Table};
 use symbolic::common::split_path;
 use symbolicator_js::interface::{CompletedJsSymbolicationResponse, JsFrame};
 use symbolicator_native::interface::{
-    CompleteObjectInfo, CompletedSymbolicationResponse, FrameTrust, SymbolicatedFrame,
+    AddrMode, CompleteObjectInfo, CompletedSymbolicationResponse, FrameTrust, SymbolicatedFrame,
 };
 
 #[derive(Debug, Clone)]
@@ -69,19 +69,24 @@ impl Iterator for NativeFrames {
 
         let instruction_addr = frame.raw.instruction_addr.0;
 
-        let module = frame.raw.package.map(|module_file| {
-            let module_addr = self.modules[&module_file].raw.image_addr.0;
+        // Frames that are not covered by any module keep the package they were sent with, which may
+        // not be among the modules at all.
+        let module = frame.raw.package.and_then(|module_file| {
+            let module_addr = self.modules.get(&module_file)?.raw.image_addr.0;
             let module_file = split_path(&module_file).1.into();
-            let module_rel_addr = instruction_addr - module_addr;
+            let module_rel_addr = match frame.raw.addr_mode {
+                AddrMode::Abs => instruction_addr.checked_sub(module_addr)?,
+                AddrMode::Rel(_) => instruction_addr,
+            };
 
-            (module_file, module_rel_addr)
+            Some((module_file, module_rel_addr))
         });
 
         let func = frame.raw.function.or(frame.raw.symbol).map(|func| {
             let sym_rel_addr = frame
                 .raw
                 .sym_addr
-                .map(|sym_addr| instruction_addr - sym_addr.0)
+                .and_then(|sym_addr| instruction_addr.checked_sub(sym_addr.0))
                 .unwrap_or_default();
 
             (func, sym_rel_addr)
-- 
2.43.0

