From e264a1d9ef6dcbd1fbcebaaaaaf6c601bfd2ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 01/12] fix: fail a save whose node became inaccessible instead
 of dropping it silently

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..e6e2df6 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("the node being saved is not accessible"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From 93886d565ae0d7d4ff041f878bb7fa3ffcab85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 02/12] fix: give concurrent loads of a lazy document the
 document that was kept

---
 plotline/src/document/lazy.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..f267df4 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -60,16 +60,9 @@ where
             return doc;
         }
 
-        if self
-            .document
-            .set(self.document_repo.find_by_id(&self.document_id)?)
-            .is_err()
-        {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
-        }
-
-        self.document.get()
+        // Another thread may have loaded the document in the meantime, in which case that one remains.
+        let document = self.document_repo.find_by_id(&self.document_id)?;
+        Some(self.document.get_or_init(|| document))
     }
 }
 
-- 
2.43.0


From ba4a3851c5085ad75dd61b0aed273fc90853d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 03/12] fix: give a document loaded from disk the id it was
 loaded by

---
 plotline-cli/src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..bfa905f 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -33,7 +33,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0


From f4d8656563e2f423eb2c962a7a34d355af155612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 04/12] fix: keep the dots of a document's name when mapping
 ids to files

---
 plotline-cli/src/repository.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index bfa905f..6404977 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,10 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        let mut file_name = id.file_name()?.to_owned();
+        file_name.push(".");
+        file_name.push(&self.extension);
+        let path = self.context.join(id).with_file_name(file_name);
 
         fs::read(&path)
             .inspect_err(|err| {
@@ -68,9 +71,9 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // An extension may contain dots itself.
+                let path = (0..=self.extension.matches('.').count())
+                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 2a3dbbfab5996624e53ff1e719e14f77b8536ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 05/12] fix: match the extension of a listed file literally

---
 plotline-cli/src/repository.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 6404977..5b00691 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -5,7 +5,7 @@ use plotline::{
     id::Identify,
 };
 use ignore::Walk;
-use regex::Regex;
+use regex::bytes::Regex;
 
 use crate::document::Document;
 
@@ -60,11 +60,11 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-                    let matches = regex.is_match(&entry.file_name().to_string_lossy());
+                    let matches = regex.is_match(entry.file_name().as_encoded_bytes());
                     tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
                     matches
-- 
2.43.0


From 8aa4ccd1b9a0a00e5cc7b4e9f25fd1d5cd7eb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 06/12] fix: list regular files only as documents

---
 plotline-cli/src/repository.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 5b00691..d1e0e17 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -64,7 +64,8 @@ impl LocalDocumentRepository {
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-                    let matches = regex.is_match(entry.file_name().as_encoded_bytes());
+                    let matches = regex.is_match(entry.file_name().as_encoded_bytes())
+                        && entry.path().is_file();
                     tracing::debug!(path = entry.path().to_string_lossy().to_string(), matches);
 
                     matches
-- 
2.43.0


From 5fe62d1c8b8e9e2896cfc645e34e6271bb912a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 07/12] hook: construct dates with the fixtures feature

---
 plugins/interval/src/date.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/interval/src/date.rs b/plugins/interval/src/date.rs
index 22ec8ba..a8c24f1 100644
--- a/plugins/interval/src/date.rs
+++ b/plugins/interval/src/date.rs
@@ -27,6 +27,17 @@ pub struct Date<const N: usize, T, Endian> {
     endian: PhantomData<Endian>,
 }
 
+#[cfg(any(test, feature = "fixtures"))]
+impl<const N: usize, T, Endian> Date<N, T, Endian> {
+    /// Creates a date with the given components.
+    pub fn fixture(components: [T; N]) -> Self {
+        Self {
+            components,
+            endian: PhantomData,
+        }
+    }
+}
+
 impl<const N: usize, T, Endian> Eq for Date<N, T, Endian> where T: Eq {}
 
 impl<const N: usize, T, Endian> PartialEq for Date<N, T, Endian>
-- 
2.43.0


From abb65bc9ace066aae649e68e7f2258a358ec16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 08/12] fix: join the subtrees of a deleted interval without
 recursing forever

---
 plugins/interval/src/node.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..5b3333b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -221,8 +221,13 @@ where
             }
 
             let center = intervals.len() / 2;
-            let left = intervals.drain(0..center).collect();
-            immersion(immersion(root, left), intervals)
+            let right = intervals.split_off(center + 1);
+            let root = match intervals.pop() {
+                Some(interval) => root.insert(interval),
+                None => root,
+            };
+
+            immersion(immersion(root, intervals), right)
         }
 
         let mut intervals = self.into_inorder();
-- 
2.43.0


From 34c2dd9e0528c834cdf11cf1eb1d2d1fcab7ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 09/12] fix: find the interval to delete among those with the
 same lower bound

---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 5b3333b..c49f658 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,7 +89,7 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
-- 
2.43.0


From 7d1301464c1654e5fab026219b63c59ddd104115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 10/12] fix: recompute the highest bound of a subtree an
 interval is deleted from

---
 plugins/interval/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index c49f658..65ce16c 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -93,6 +93,11 @@ where
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From 19f144e39a0f65aa57a12e3c8de9d717022f1a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 11/12] fix: report a failure to print the list instead of
 panicking

Listing into a closed pipe or a full device ended the process with a panic.
---
 plotline-cli/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 33d71f4..25abf34 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -96,7 +96,7 @@ where
                 self.schema
                     .read()
                     .into_iter()
-                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());
+                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;
             }
             DocumentSubCommand::Save(args) => {
                 let document_id = document_id()?;
-- 
2.43.0


From 21f5e038e1e70a78b949bd7ec1af00edbed5d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 12/12] fix: do not require a working directory

The default of --context is computed even when the option is given, so the command panicked in a
removed working directory.
---
 plotline-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 64e44fa..5bb52c8 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -15,7 +15,7 @@ static DEFAULT_EXTENSION: &str = "md";
 
 static DEFAULT_CONTEXT: LazyLock<OsString> = LazyLock::new(|| {
     std::env::current_dir()
-        .expect("current working directory")
+        .unwrap_or_else(|_| PathBuf::from("."))
         .into_os_string()
 });
 
-- 
2.43.0

