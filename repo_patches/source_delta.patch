From 7b93e6e9e8cad8d1a10d7168c3790e3a8acd3506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 01/15] fix: write files back in place as a whole

Writing over the old content lost it when the write failed half way or the
program was stopped in between. The new content is now written to a temporary
file that replaces the old one when it is complete.
---
 src/file_util.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/main.rs      |  3 +--
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 216ddfd..4163c61 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -1,7 +1,8 @@
 use std::ffi::OsStr;
 use std::fs;
-use std::io::{self, Error, ErrorKind};
+use std::io::{self, Error, ErrorKind, Write};
 use std::path::{Path, PathBuf};
+use std::process;
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
     let mut paths = Vec::new();
@@ -59,3 +60,43 @@ pub fn get_file_config(file_path: &PathBuf, prefix: &str) -> Option<PathBuf> {
         _ => None,
     }
 }
+
+/// Replaces the content of a file as a whole: the new content is written to a temporary file that takes
+/// the place of the old one when it is complete, so the file never holds a part of it.
+pub fn replace_file_content(file_path: &Path, content: &str) -> io::Result<()> {
+    // a symbolic link remains a link
+    let file_path = fs::canonicalize(file_path)?;
+    // a file that must not be written must not be replaced either
+    let metadata = fs::OpenOptions::new().write(true).open(&file_path)?.metadata()?;
+
+    let (temp_path, temp_file) = create_temp_file(file_path.parent().unwrap_or(Path::new("/")))?;
+    let result = write_like(temp_file, content, &metadata).and_then(|_| fs::rename(&temp_path, &file_path));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
+fn create_temp_file(dir: &Path) -> io::Result<(PathBuf, fs::File)> {
+    let mut number = 0;
+    loop {
+        let temp_path = dir.join(format!("{}-{}-{}.tmp", crate::CFG_PREFIX, process::id(), number));
+        match fs::OpenOptions::new().write(true).create_new(true).open(&temp_path) {
+            Ok(temp_file) => return Ok((temp_path, temp_file)),
+            Err(err) if err.kind() == ErrorKind::AlreadyExists => number += 1,
+            Err(err) => return Err(err),
+        }
+    }
+}
+
+fn write_like(mut file: fs::File, content: &str, metadata: &fs::Metadata) -> io::Result<()> {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::{fchown, MetadataExt};
+        // only the superuser can keep a foreign owner
+        let _ = fchown(&file, Some(metadata.uid()), Some(metadata.gid()));
+    }
+    file.set_permissions(metadata.permissions())?;
+    file.write_all(content.as_bytes())?;
+    file.sync_all()
+}
diff --git a/src/main.rs b/src/main.rs
index 3872269..42a2345 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,5 @@
 use regex::Regex;
 use std::env;
-use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
 
@@ -54,7 +53,7 @@ fn parse_options(options: &Vec<String>) -> (Config, ProgramOpts) {
 fn process_file_path(file_path: &PathBuf, config: &Config, program_opts: &ProgramOpts) {
     match formatter::process_file(&file_path, &config, program_opts.verbose) {
         Ok(output) => match program_opts.inplace {
-            true => match fs::write(file_path, output) {
+            true => match file_util::replace_file_content(file_path, &output) {
                 Ok(..) => {}
                 Err(err) => {
                     eprintln!("{}", format!("An error occured while writing file `{}`: {}", file_path.display(), err))
-- 
2.43.0


From 41e7732bbbf4920ec10ceba4346ef54d43fcfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 02/15] fix: report a config file that cannot be read

It made the program panic, so the files after it were left unprocessed.
---
 src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index bea1310..1eea081 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -304,7 +304,7 @@ impl Config {
 
     pub fn reload_format_from_file(&self, file_path: &PathBuf) -> Result<Self, String> {
         let content = fs::read_to_string(file_path)
-            .expect(&format!("An error occured while reading config file `{}`", file_path.display()));
+            .map_err(|err| format!("An error occured while reading config file `{}`: {}", file_path.display(), err))?;
 
         let mut cfg = self.clone();
 
-- 
2.43.0


From f27d32b4059ac11e47aafd784ce32928b26b3e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 03/15] fix: choose the config file of a directory by its name

A directory can hold several files that match (`.luafmt.lua`, `.luafmt_old.lua`):
which one was used depended on the order in which the system lists them.
---
 src/file_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 4163c61..d37d6e2 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -31,6 +31,8 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
 }
 
 pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::Result<Option<PathBuf>> {
+    let mut found: Option<PathBuf> = None;
+
     if path.is_dir() {
         for entry in fs::read_dir(path)? {
             let inner_path = entry?.path();
@@ -38,12 +40,13 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
                     == Some(true)
                 && inner_path.extension().and_then(OsStr::to_str) == Some(file_ext)
+                && found.as_ref().map_or(true, |found_path| inner_path < *found_path)
             {
-                return Ok(Some(inner_path));
+                found = Some(inner_path);
             }
         }
     }
-    Ok(None)
+    Ok(found)
 }
 
 pub fn get_file_config(file_path: &PathBuf, prefix: &str) -> Option<PathBuf> {
-- 
2.43.0


From e745f21c1d611dbdc5ac00b7a94974af4efe95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 04/15] fix: do not skip a config file because of a failure

When a directory could not be listed, or the config file in it could not be
examined, the search went on with the directories above and the file was
formatted according to a config file that is not its own.
---
 src/file_util.rs | 36 ++++++++++++++++++++++++++++--------
 src/formatter.rs |  7 ++++---
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index d37d6e2..2c006aa 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -33,14 +33,20 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
 pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::Result<Option<PathBuf>> {
     let mut found: Option<PathBuf> = None;
 
-    if path.is_dir() {
-        for entry in fs::read_dir(path)? {
+    let entries = match fs::read_dir(path) {
+        Ok(entries) => Some(entries),
+        // the content of a directory that must not be listed is none of the user's
+        Err(err) if err.kind() == ErrorKind::PermissionDenied => None,
+        Err(err) => return Err(err),
+    };
+    if let Some(entries) = entries {
+        for entry in entries {
             let inner_path = entry?.path();
-            if inner_path.is_file()
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
+            if inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
                     == Some(true)
                 && inner_path.extension().and_then(OsStr::to_str) == Some(file_ext)
                 && found.as_ref().map_or(true, |found_path| inner_path < *found_path)
+                && is_existing_file(&inner_path)?
             {
                 found = Some(inner_path);
             }
@@ -49,18 +55,32 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
     Ok(found)
 }
 
+/// Unlike `Path::is_file` it distinguishes a failure from a path that is not a file.
+fn is_existing_file(path: &Path) -> io::Result<bool> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(metadata.is_file()),
+        Err(err) if err.kind() == ErrorKind::NotFound => Ok(false),
+        Err(err) => Err(err),
+    }
+}
+
 pub fn get_file_config(file_path: &PathBuf, prefix: &str) -> Option<PathBuf> {
+    find_file_config(file_path, prefix).unwrap_or(None)
+}
+
+/// Fails if it cannot tell whether one of the directories contains a config file.
+pub fn find_file_config(file_path: &PathBuf, prefix: &str) -> io::Result<Option<PathBuf>> {
     match fs::canonicalize(file_path) {
         Ok(mut cur_file_path) => {
             while let Some(parent_path) = cur_file_path.parent() {
-                match test_file_in_dir(&parent_path, prefix, "lua") {
-                    Ok(Some(path)) => return Some(path),
+                match test_file_in_dir(&parent_path, prefix, "lua")? {
+                    Some(path) => return Ok(Some(path)),
                     _ => cur_file_path = parent_path.to_path_buf(),
                 }
             }
-            None
+            Ok(None)
         }
-        _ => None,
+        Err(err) => Err(err),
     }
 }
 
diff --git a/src/formatter.rs b/src/formatter.rs
index 51d55b2..a3ee6ef 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -50,12 +50,13 @@ pub fn process_file(file_path: &PathBuf, cfg: &Config, verbose: bool) -> Result<
 
     use FormatterError::*;
     match cfg.has_empty_format() {
-        true => match file_util::get_file_config(file_path, crate::CFG_PREFIX) {
-            Some(file_config) => match cfg.reload_format_from_file(&file_config) {
+        true => match file_util::find_file_config(file_path, crate::CFG_PREFIX) {
+            Ok(Some(file_config)) => match cfg.reload_format_from_file(&file_config) {
                 Ok(new_cfg) => process_buffer_with_config(&buffer, &new_cfg, verbose),
                 Err(err) => Err(InvalidConfigFile(err)),
             },
-            None => Err(NoConfigureFile),
+            Ok(None) => Err(NoConfigureFile),
+            Err(err) => Err(InvalidConfigFile(format!("An error occured while searching config file: {}", err))),
         },
         false => process_buffer_with_config(&buffer, &cfg, verbose),
     }
-- 
2.43.0


From f7fb985bbea91667e0e403ddae2a98206aaeef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 05/15] fix: process the files of a directory in the order of
 their names

The order was that in which the system happens to list them, so the output of
the same command could differ.
---
 src/file_util.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 2c006aa..13399e2 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -8,8 +8,11 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
     let mut paths = Vec::new();
 
     if path.is_dir() {
-        for entry in fs::read_dir(path)? {
-            let inner_path = entry?.path();
+        let mut entries = fs::read_dir(path)?.collect::<io::Result<Vec<_>>>()?;
+        entries.sort_by_key(|entry| entry.file_name());
+
+        for entry in entries {
+            let inner_path = entry.path();
 
             if inner_path.is_dir() && recursive {
                 paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
-- 
2.43.0


From bf39a4f0fcb875d46ebd6fe99353668738b00880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 06/15] fix: report a path that cannot be examined

Such a file was left unprocessed without a word.
---
 src/file_util.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 13399e2..35a7261 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -13,10 +13,18 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
 
         for entry in entries {
             let inner_path = entry.path();
+            let metadata = match fs::metadata(&inner_path) {
+                Ok(metadata) => metadata,
+                Err(err) if err.kind() == ErrorKind::NotFound => continue,
+                Err(err) => {
+                    eprintln!("An error occured while examining path `{}`: {}", inner_path.display(), err);
+                    continue;
+                }
+            };
 
-            if inner_path.is_dir() && recursive {
+            if metadata.is_dir() && recursive {
                 paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
-            } else if inner_path.is_file()
+            } else if metadata.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
                     == Some(true)
-- 
2.43.0


From 0cc08c38545636bd4390832ac769c63572ed43f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 07/15] fix: process the rest when a nested directory cannot be
 read

One such directory discarded all the files of the path, and the message did not
tell which one it was.
---
 src/file_util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index 35a7261..f1f657a 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -23,7 +23,12 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
             };
 
             if metadata.is_dir() && recursive {
-                paths.append(&mut get_path_files(&inner_path, true, ext, filter_prefix)?);
+                match get_path_files(&inner_path, true, ext, filter_prefix) {
+                    Ok(mut inner_paths) => paths.append(&mut inner_paths),
+                    Err(err) => {
+                        eprintln!("An error occured while reading directory `{}`: {}", inner_path.display(), err)
+                    }
+                }
             } else if metadata.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
                 && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
-- 
2.43.0


From dcc765ddc2db3674464dba998d858a475b41daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 08/15] fix: stop recursion at links to the directories above

A symbolic link to a parent directory made every file be processed up to forty
times, as long as the system resolves the path.
---
 src/file_util.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index f1f657a..f9a6ccc 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -5,9 +5,27 @@ use std::path::{Path, PathBuf};
 use std::process;
 
 pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix: &str) -> io::Result<Vec<PathBuf>> {
+    collect_path_files(path, recursive, ext, filter_prefix, &[])
+}
+
+/// `parents` are the resolved paths of the directories that led to `path`.
+fn collect_path_files(
+    path: &PathBuf,
+    recursive: bool,
+    ext: &str,
+    filter_prefix: &str,
+    parents: &[PathBuf],
+) -> io::Result<Vec<PathBuf>> {
     let mut paths = Vec::new();
 
     if path.is_dir() {
+        let resolved_path = fs::canonicalize(path)?;
+        if parents.contains(&resolved_path) {
+            // a symbolic link leads back to a directory which is being processed
+            return Ok(paths);
+        }
+        let parents = [parents, &[resolved_path]].concat();
+
         let mut entries = fs::read_dir(path)?.collect::<io::Result<Vec<_>>>()?;
         entries.sort_by_key(|entry| entry.file_name());
 
@@ -23,7 +41,7 @@ pub fn get_path_files(path: &PathBuf, recursive: bool, ext: &str, filter_prefix:
             };
 
             if metadata.is_dir() && recursive {
-                match get_path_files(&inner_path, true, ext, filter_prefix) {
+                match collect_path_files(&inner_path, true, ext, filter_prefix, &parents) {
                     Ok(mut inner_paths) => paths.append(&mut inner_paths),
                     Err(err) => {
                         eprintln!("An error occured while reading directory `{}`: {}", inner_path.display(), err)
-- 
2.43.0


From b5ded05f71d5599b863d1513ac53b6b938df07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 09/15] fix: report output that cannot be written

A failure to write the last part of the output was ignored, so it was lost
without a word and with a successful exit code.
---
 src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 42a2345..7ea13a7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,7 +1,8 @@
 use regex::Regex;
 use std::env;
-use std::io::{self, Read};
+use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
+use std::process;
 
 use luafmt::config::Config;
 use luafmt::file_util;
@@ -98,6 +99,12 @@ fn main() {
             }
         }
     }
+
+    // the rest of the output is written at exit otherwise, where a failure is ignored
+    if let Err(err) = io::stdout().flush() {
+        eprintln!("An error occured while writing output: {}", err);
+        process::exit(1);
+    }
 }
 
 #[test]
-- 
2.43.0


From 3fef58ff97b5967c1c492f78bfe467da979e9c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 10/15] fix: report standard input that cannot be read

It made the program panic.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 7ea13a7..ffbc519 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,7 +79,10 @@ fn main() {
 
     if rel_paths.is_empty() {
         let mut buffer = String::new();
-        io::stdin().read_to_string(&mut buffer).unwrap();
+        if let Err(err) = io::stdin().read_to_string(&mut buffer) {
+            eprintln!("An error occured while reading buffer: {}", err);
+            process::exit(1);
+        }
 
         match formatter::process_buffer_with_config(&buffer, &config, program_opts.verbose) {
             Ok(output) => print!("{}", output),
-- 
2.43.0


From d06273c7336c87fd7a949941efe539d0dbb2f849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 11/15] fix: do not panic when max_width is not set

With newline_format_exp_list_first, force_single_line_exp_list and similar options but without
max_width, one file made the whole run panic. Without a maximal width every width is acceptable.
---
 src/formatting/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/util.rs b/src/formatting/util.rs
index 835162a..4b21e35 100644
--- a/src/formatting/util.rs
+++ b/src/formatting/util.rs
@@ -48,7 +48,7 @@ macro_rules! test_oneline {
                 let left_len = util::get_len_after_newline($wrt, $cfg);
                 let right_len = util::get_len_till_newline(&buffer, $cfg);
 
-                match left_len + right_len < $cfg.fmt.max_width.unwrap() {
+                match $cfg.fmt.max_width.map_or(true, |max_width| left_len + right_len < max_width) {
                     true => Some(buffer),
                     false => None,
                 }
-- 
2.43.0


From 91af69c425233f0e6abda7e50f74e74b8cc0575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 12/15] fix: take the text between comments from the comment
 block

With line_range, locations inside a comment block were looked up with the character positions of the
whole text: with multi-byte characters that panicked, or lost and repeated text.
---
 src/formatting/list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatting/list.rs b/src/formatting/list.rs
index ccad8a5..9efa835 100644
--- a/src/formatting/list.rs
+++ b/src/formatting/list.rs
@@ -110,7 +110,7 @@ where
                 let item = &items[i];
 
                 if util::test_out_of_range(&state.pos_range, &item.0) {
-                    cfg_write!(f, cfg, buf, state, item.0)?;
+                    cfg_write!(f, cfg, buf, state, Hint::new(&item.0, ""))?;
                 } else {
                     let prev_item_tp = &items[i - 1];
                     let hint = item.1.list_item_prefix_hint(cfg);
-- 
2.43.0


From d1ac94988c65ff8a9cd61e846e14aa080e655193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 13/15] fix: nobody gets more access to a file by its being
 rewritten

The temporary file was open to everybody until it got the permissions of the
file it replaces, and a group that could not be kept was replaced by the
user's group with the same rights.
---
 src/file_util.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index f9a6ccc..f331dbf 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -138,7 +138,15 @@ fn create_temp_file(dir: &Path) -> io::Result<(PathBuf, fs::File)> {
     let mut number = 0;
     loop {
         let temp_path = dir.join(format!("{}-{}-{}.tmp", crate::CFG_PREFIX, process::id(), number));
-        match fs::OpenOptions::new().write(true).create_new(true).open(&temp_path) {
+        let mut options = fs::OpenOptions::new();
+        options.write(true).create_new(true);
+        #[cfg(unix)]
+        {
+            // nobody else can open it before it has got the permissions of the file it replaces
+            use std::os::unix::fs::OpenOptionsExt;
+            options.mode(0o600);
+        }
+        match options.open(&temp_path) {
             Ok(temp_file) => return Ok((temp_path, temp_file)),
             Err(err) if err.kind() == ErrorKind::AlreadyExists => number += 1,
             Err(err) => return Err(err),
@@ -147,13 +155,20 @@ fn create_temp_file(dir: &Path) -> io::Result<(PathBuf, fs::File)> {
 }
 
 fn write_like(mut file: fs::File, content: &str, metadata: &fs::Metadata) -> io::Result<()> {
+    #[allow(unused_mut)]
+    let mut permissions = metadata.permissions();
     #[cfg(unix)]
     {
-        use std::os::unix::fs::{fchown, MetadataExt};
+        use std::os::unix::fs::{fchown, MetadataExt, PermissionsExt};
+        let mode = permissions.mode();
+        if fchown(&file, None, Some(metadata.gid())).is_err() {
+            // a group that cannot be kept is replaced by the user's, which gets what everybody gets
+            permissions.set_mode(mode & !0o070 | mode & (mode & 0o007) << 3);
+        }
         // only the superuser can keep a foreign owner
-        let _ = fchown(&file, Some(metadata.uid()), Some(metadata.gid()));
+        let _ = fchown(&file, Some(metadata.uid()), None);
     }
-    file.set_permissions(metadata.permissions())?;
+    file.set_permissions(permissions)?;
     file.write_all(content.as_bytes())?;
     file.sync_all()
 }
-- 
2.43.0


From 20578334ce5582d2b3aba8f1c4c690b3f7c49645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 14/15] fix: take file names that are not UTF-8 as arguments

---
 src/main.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ffbc519..11c2229 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 use regex::Regex;
 use std::env;
+use std::ffi::OsString;
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::process;
@@ -8,12 +9,21 @@ use luafmt::config::Config;
 use luafmt::file_util;
 use luafmt::formatter;
 
-fn get_options_and_filenames() -> (Vec<String>, Vec<String>) {
-    let args: Vec<String> = env::args().skip(1).collect();
-    let (options, mut sources): (Vec<_>, Vec<_>) = args.into_iter().partition(|arg| arg.starts_with('-'));
+fn get_options_and_filenames() -> (Vec<String>, Vec<OsString>) {
+    // file names are not necessarily UTF-8
+    let (options, mut sources): (Vec<_>, Vec<_>) =
+        env::args_os().skip(1).partition(|arg| arg.to_string_lossy().starts_with('-'));
     sources.sort();
 
-    (options, sources)
+    let mut utf8_options = Vec::new();
+    for option in options {
+        match option.into_string() {
+            Ok(option) => utf8_options.push(option),
+            Err(option) => eprintln!("Unrecognized option `{}`", option.to_string_lossy()),
+        }
+    }
+
+    (utf8_options, sources)
 }
 
 #[derive(Debug, PartialEq)]
@@ -98,7 +108,7 @@ fn main() {
                         process_file_path(file_path, &config, &program_opts);
                     }
                 }
-                Err(_) => eprintln!("Unresolved path: `{}`", rel_path),
+                Err(_) => eprintln!("Unresolved path: `{}`", path_buf.display()),
             }
         }
     }
-- 
2.43.0


From 85baaf87eea2f747a28e56ac4a56360f36c391fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:11 +0000
Subject: [PATCH 15/15] fix: select files and configs whose names are not UTF-8

---
 src/file_util.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/file_util.rs b/src/file_util.rs
index f331dbf..86bc6fc 100644
--- a/src/file_util.rs
+++ b/src/file_util.rs
@@ -49,8 +49,7 @@ fn collect_path_files(
                 }
             } else if metadata.is_file()
                 && inner_path.extension().and_then(OsStr::to_str) == Some(ext)
-                && inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(!s.starts_with(filter_prefix)))
-                    == Some(true)
+                && !file_name_starts_with(&inner_path, filter_prefix)
             {
                 paths.push(inner_path);
             }
@@ -76,8 +75,7 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
     if let Some(entries) = entries {
         for entry in entries {
             let inner_path = entry?.path();
-            if inner_path.file_name().and_then(OsStr::to_str).and_then(|s| Some(s.starts_with(file_prefix)))
-                    == Some(true)
+            if file_name_starts_with(&inner_path, file_prefix)
                 && inner_path.extension().and_then(OsStr::to_str) == Some(file_ext)
                 && found.as_ref().map_or(true, |found_path| inner_path < *found_path)
                 && is_existing_file(&inner_path)?
@@ -89,6 +87,11 @@ pub fn test_file_in_dir(path: &Path, file_prefix: &str, file_ext: &str) -> io::R
     Ok(found)
 }
 
+/// The name is not necessarily UTF-8.
+fn file_name_starts_with(path: &Path, prefix: &str) -> bool {
+    path.file_name().map_or(false, |name| name.to_string_lossy().starts_with(prefix))
+}
+
 /// Unlike `Path::is_file` it distinguishes a failure from a path that is not a file.
 fn is_existing_file(path: &Path) -> io::Result<bool> {
     match fs::metadata(path) {
-- 
2.43.0

