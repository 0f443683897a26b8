From 06a9c3dd2339109df995caafb0e6b826d8bdee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:20 +0000
Subject: [PATCH 01/14] fix: report unsupported query/format combinations
 instead of panicking

---
 src/formatters/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/formatters/mod.rs b/src/formatters/mod.rs
index 56a3b63..4ac76ee 100644
--- a/src/formatters/mod.rs
+++ b/src/formatters/mod.rs
@@ -18,6 +18,13 @@ mod tags;
 //     }
 // }
 
+fn unsupported(query: &str, format: &Format) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Unsupported,
+        format!("Format {format:?} is not supported for {query} queries"),
+    )
+}
+
 pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write) -> io::Result<()> {
     requirement_covered!(DSG_FORMATTER);
     match format {
@@ -34,7 +41,9 @@ pub fn requirements(graph: &Graph, format: &Format, writer: &mut impl io::Write)
             ),
         )
         .map_err(io::Error::other),
-        _ => todo!(),
+        Format::GnuError | Format::TemplateFile(_) | Format::TemplateString(_) => {
+            Err(unsupported("Parse", format))
+        }
     }
 }
 
@@ -52,6 +61,8 @@ pub fn tracing(
         }
         Format::Json => serde_json::to_writer_pretty(writer, &serialize::Trace::new(traced_graph))
             .map_err(io::Error::other),
-        _ => todo!(),
+        Format::Tags | Format::TemplateFile(_) | Format::TemplateString(_) => {
+            Err(unsupported("Trace", format))
+        }
     }
 }
-- 
2.43.0


From 09859d7ec262284d7ca94f2eec1ccec242aa8cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 02/14] fix: monoreq parser reports read errors instead of
 panicking

---
 src/parsers/monoreq.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/monoreq.rs b/src/parsers/monoreq.rs
index d2789ed..84326d9 100644
--- a/src/parsers/monoreq.rs
+++ b/src/parsers/monoreq.rs
@@ -42,7 +42,12 @@ pub fn parse<R: io::BufRead>(reader: R, path: &Path) -> (Vec<Rc<Requirement>>, V
                 }
             }
 
-            Err(_) => todo!(),
+            Err(e) => {
+                let err = Error::io(path, &e);
+                log::info!("found problem {:#?}", &err);
+                errors.push(err);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 059f0ab4d9d9c818e0823620ad5417351bdfc61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 03/14] fix: markdown parser accepts a one character last line
 without newline

---
 src/parsers/markdown.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 9d4023e..e861b89 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -90,8 +90,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
             Ok(0) => {
                 evt = Event::Eof;
             }
-            Ok(1) => {
-                assert!(line.starts_with('\n'));
+            Ok(1) if line.starts_with('\n') => {
                 evt = Event::Empty;
             } /* TODO: Win line Endings */
             Ok(_) => {
-- 
2.43.0


From 09dd56a58fabda7be39ba640bf2beae4909e696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 04/14] fix: markdown parser keeps the current requirement when
 reading fails

---
 src/parsers/markdown.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index e861b89..71b01db 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -85,7 +85,7 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
                 let err = Error::Io(context.path.to_owned(), e.to_string());
                 log::info!("found problem {:#?}", &err);
                 context.errors.push(err);
-                break;
+                evt = Event::Eof; // keep what was parsed up to the error
             }
             Ok(0) => {
                 evt = Event::Eof;
-- 
2.43.0


From 6666c95dba65af0cc29899addf65e20ab3b699d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 05/14] fix: markdown parser keeps the first line of every
 description paragraph

---
 src/parsers/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 71b01db..24a13b3 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -163,11 +163,12 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
             desc.push_str(line);
             State::CollectDesc(desc)
         }
-        State::CollectDescNl(desc) => {
+        State::CollectDescNl(mut desc) => {
             if let Some(attr_line) = ATTRIBUTE_LINE.captures(line) {
                 commit_attr(context, ATTR_DESCRIPTION.to_owned(), desc);
                 start_attribute(context, &attr_line)
             } else {
+                desc.push_str(line);
                 State::CollectDesc(desc)
             }
         }
-- 
2.43.0


From c3f9e41d1c26707b673216dbcb6a76bb89254c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 06/14] fix: markdown parser does not join the first two lines
 of an attribute

---
 src/parsers/markdown.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index 24a13b3..cbe039a 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -190,6 +190,9 @@ fn parse_state_line(state: State, line: &&str, context: &mut Context<'_>) -> Sta
                 commit_attr(context, attr, val);
                 start_attribute(context, &attr_line)
             } else {
+                if !val.is_empty() && !val.ends_with('\n') {
+                    val.push('\n'); // end of the line that started the attribute
+                }
                 val.push_str(line);
                 State::CollectTextAttr(attr, val)
             }
-- 
2.43.0


From 01073fc93fb76408688ef3f61ae51d858af33675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 07/14] fix: rust parser reports marks outside of any item
 instead of panicking

---
 src/parsers/rust.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index ca1a2bc..013dda1 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -157,6 +157,16 @@ impl Parser<'_> {
                 location: macro_location,
             };
 
+            let Some(location) = self.locations.last().cloned() else {
+                let err = Error::Format(
+                    reference.location,
+                    "requirement_covered!() outside of any item".to_owned(),
+                );
+                log::info!("found problem {:#?}", &err);
+                self.errors.push(err);
+                return true;
+            };
+
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
@@ -168,7 +178,7 @@ impl Parser<'_> {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-                        location: self.locations.last().unwrap().clone(),
+                        location,
                         covers,
                         depends: vec![],
                         tags: vec![],
-- 
2.43.0


From 97f936c7f28efc92110e9dfcb50455912b4a7e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:39 +0000
Subject: [PATCH 08/14] fix: markdown parser keeps the last requirement if a
 plain heading follows it

---
 src/parsers/markdown.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/markdown.rs b/src/parsers/markdown.rs
index cbe039a..429c1db 100644
--- a/src/parsers/markdown.rs
+++ b/src/parsers/markdown.rs
@@ -118,7 +118,11 @@ pub fn parse<R: io::BufRead>(reader: &mut R, path: &Path) -> (Vec<Rc<Requirement
 fn parse_states(state: State, context: &mut Context<'_>, evt: &Event<'_>) -> State {
     match evt {
         Event::Req(req_line) => parse_state_req(state, context, req_line),
-        Event::Heading => parse_state_heading(state, context),
+        Event::Heading => {
+            let state = parse_state_heading(state, context);
+            maybe_commit_req(context);
+            state
+        }
         Event::Eof => parse_state_eof(state, context),
         Event::Line(line) => parse_state_line(state, line, context),
         Event::Empty => parse_state_empty(state, context),
-- 
2.43.0


From 5647e78917bacb0d882b6eb2a89c9bbc4219116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 09/14] fix: report relations with unknown artefacts as
 configuration error instead of panicking

---
 src/controller.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 764072a..325ab3d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -181,6 +181,7 @@ pub struct Controller {
     base_dir: PathBuf,
     graph: Graph,
     traced_graph: TracedGraph,
+    config_error: Option<ControllerError>,
     jobs: BTreeMap<String, Job>,
     default_jobs: Vec<String>,
 }
@@ -189,29 +190,27 @@ impl Controller {
     pub fn new(config: Config, base_dir: &Path) -> Self {
         let mut artefacts: BTreeMap<ArtefactId, Rc<Artefact>> = BTreeMap::new();
 
-        let relations: Vec<Relation> = config.relations;
+        let mut relations: Vec<Relation> = config.relations;
+        let mut config_error = None;
 
         let mut is_root: BTreeMap<&ArtefactId, bool> =
             config.artefacts.iter().map(|ac| (&ac.id, true)).collect();
 
-        for rel in &relations {
-            if is_root.get(&rel.upper).is_none() {
-                let err = Error::Config(format!(
-                    "Relation.upper references unknown artefact {}",
-                    &rel.upper
-                ));
-                todo!("log error {err}");
+        relations.retain(|rel| {
+            let unknown = std::iter::once(&rel.upper)
+                .chain(&rel.lower)
+                .find(|id| !is_root.contains_key(id));
+            if let Some(id) = unknown {
+                config_error = Some(ControllerError::Config(format!(
+                    "Relation {rel} references unknown artefact {id}"
+                )));
             }
+            unknown.is_none()
+        });
 
+        for rel in &relations {
             for lower in &rel.lower {
-                if is_root.get(&lower).is_none() {
-                    let err = Error::Config(format!(
-                        "Relation.lower references unknown artefact {}",
-                        &lower
-                    ));
-                    todo!("log error {err}");
-                }
-                *is_root.get_mut(&lower).unwrap() = false;
+                is_root.insert(lower, false);
             }
         }
         for ac in &config.artefacts {
@@ -253,6 +252,7 @@ impl Controller {
             base_dir: base_dir.to_owned(),
             graph,
             traced_graph,
+            config_error,
             jobs: config.jobs.unwrap_or_default(),
             default_jobs: config.default_jobs.unwrap_or_default(),
         }
@@ -292,6 +292,11 @@ impl Controller {
         jobs: &[&Job],
         job_names: &[String],
     ) -> Result<JobSuccess, ControllerError> {
+        if let Some(err) = &self.config_error {
+            log::info!("found problem {:#?}", &err);
+            return Err(err.clone());
+        }
+
         let start = Instant::now();
         let mut success = JobSuccess::Success;
         for (job, job_name) in jobs.iter().zip(job_names.iter()) {
-- 
2.43.0


From 3c58cd62deb2ea8453a66226995f4545bb121a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 10/14] fix: report artefacts that are configured twice instead
 of dropping one

---
 src/controller.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index 325ab3d..8611c54 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -214,6 +214,13 @@ impl Controller {
             }
         }
         for ac in &config.artefacts {
+            if artefacts.contains_key(&ac.id) {
+                config_error = Some(ControllerError::Config(format!(
+                    "Artefact {} is configured twice",
+                    ac.id
+                )));
+                continue;
+            }
             let ignore_derived_requirements =
                 ac.ignore_derived_requirements.unwrap_or(is_root[&ac.id]);
             let reference_with_title = ac.reference_with_title.unwrap_or(false);
-- 
2.43.0


From f7a8942aa383a7c1d4079eab647226f353bf67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:55 +0000
Subject: [PATCH 11/14] fix: artefacts report patterns that match no file and
 keep parsing the others

---
 src/controller.rs | 75 +++++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 35 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 8611c54..8706c4d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -34,8 +34,9 @@ pub enum JobSuccess {
     ErrorsDetected,
 }
 
-fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Error> {
+fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> (Vec<PathBuf>, Vec<Error>) {
     let mut result = Vec::new();
+    let mut errors = Vec::new();
 
     for path in paths {
         let glob = if Path::new(path).is_relative() {
@@ -43,14 +44,27 @@ fn glob_paths(paths: &Vec<String>, base_dir: &Path) -> Result<Vec<PathBuf>, Erro
         } else {
             glob::glob(path)
         };
-        let glob = glob.map_err(|e| Error::Io(PathBuf::from(path), e.to_string()))?;
-        for entry in glob {
-            let entry = entry.map_err(|e| Error::Io(e.path().into(), e.to_string()))?;
-            result.push(entry);
+        match glob {
+            Err(e) => errors.push(Error::Io(PathBuf::from(path), e.to_string())),
+            Ok(glob) => {
+                let mut found = false;
+                for entry in glob {
+                    found = true;
+                    match entry {
+                        Err(e) => errors.push(Error::Io(e.path().into(), e.to_string())),
+                        Ok(entry) => result.push(entry),
+                    }
+                }
+                if !found {
+                    let err = Error::Io(PathBuf::from(path), "no file found".to_owned());
+                    log::info!("found problem {:#?}", &err);
+                    errors.push(err);
+                }
+            }
         }
     }
 
-    Ok(result)
+    (result, errors)
 }
 
 fn parse_single_file(
@@ -107,38 +121,29 @@ fn parse_multiple_files(
         return (vec![], vec![], vec![err]);
     }
 
-    match glob_paths(&config.paths, base_dir) {
-        Err(err) => (
-            config.paths.iter().map(PathBuf::from).collect(),
-            vec![],
-            vec![err],
-        ),
-        Ok(paths) => {
-            let mut requirements = Vec::new();
-            let mut errors = Vec::new();
-            for path in &paths {
-                requirement_covered!(DSG_ART_FILES);
-                match fs::File::open(path) {
-                    Err(err) => {
-                        let err = Error::Io(path.into(), err.to_string());
-                        log::info!("found problem {:#?}", &err);
-                        errors.push(err)
-                    }
-                    Ok(file) => {
-                        let mut r = io::BufReader::new(file);
-
-                        let (r, e) = match config.parser {
-                            ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
-                            _ => panic!("unexpected {:?}", config.parser),
-                        };
-                        requirements.extend(r);
-                        errors.extend(e);
-                    }
-                }
+    let (paths, mut errors) = glob_paths(&config.paths, base_dir);
+    let mut requirements = Vec::new();
+    for path in &paths {
+        requirement_covered!(DSG_ART_FILES);
+        match fs::File::open(path) {
+            Err(err) => {
+                let err = Error::Io(path.into(), err.to_string());
+                log::info!("found problem {:#?}", &err);
+                errors.push(err)
+            }
+            Ok(file) => {
+                let mut r = io::BufReader::new(file);
+
+                let (r, e) = match config.parser {
+                    ArtefactParser::Rust => parsers::rust::parse(&mut r, path),
+                    _ => panic!("unexpected {:?}", config.parser),
+                };
+                requirements.extend(r);
+                errors.extend(e);
             }
-            (paths, requirements, errors)
         }
     }
+    (paths, requirements, errors)
 }
 
 pub fn parse_from_config(
-- 
2.43.0


From 013a568742aa9942cd029055c33c92d95dc2ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 12/14] fix: report output that cannot be flushed to standard
 output

---
 src/controller.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 8706c4d..683d10d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -409,7 +409,9 @@ impl Controller {
             }
         };
 
-        write_res.map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
+        write_res
+            .and_then(|()| io::Write::flush(&mut out))
+            .map_err(|e| ControllerError::Io(job.file.clone(), e.to_string()))?;
 
         match success {
             JobSuccess::Success => {
-- 
2.43.0


From 7dc3e8d8aa29e89be9c3db19aff8267d59cdce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 13/14] fix: rust parser keeps marks of an item that follow a
 nested item

---
 src/parsers/rust.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 013dda1..9eba81d 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -170,11 +170,11 @@ impl Parser<'_> {
             // TODO: add info from path of source file to make symbols unique
             let id = self.scope.join("::").into();
 
-            match self.requirements.last_mut() {
-                Some(last) if last.id == id => {
-                    Rc::get_mut(last).unwrap().covers.push(reference);
+            match self.requirements.iter_mut().find(|req| req.id == id) {
+                Some(req) => {
+                    Rc::get_mut(req).unwrap().covers.push(reference);
                 }
-                _ => {
+                None => {
                     let covers = vec![reference];
                     let req = Requirement {
                         id,
-- 
2.43.0


From c552427bf71ebd2aeed0e49f6be2d08db858077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:59 +0000
Subject: [PATCH 14/14] fix: rust parser takes the value of string literals in
 marks

---
 src/parsers/rust.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parsers/rust.rs b/src/parsers/rust.rs
index 9eba81d..28d4620 100644
--- a/src/parsers/rust.rs
+++ b/src/parsers/rust.rs
@@ -93,10 +93,8 @@ impl Parser<'_> {
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
                     Some((id.to_string(), None))
                 } else {
-                    let mut id = tokens[0].to_string();
-                    if id.starts_with('"') && id.ends_with('"') {
+                    if let Some(id) = string_literal(&tokens[0]) {
                         // requirement_covered!("REQU_ID")
-                        id = id.replace('"', ""); // TODO: better string parsing?
                         Some((id, None))
                     } else {
                         let err = Error::Format(
@@ -114,9 +112,7 @@ impl Parser<'_> {
             3 => {
                 // requirement_covered!(IDENT,"string_literal")
                 if let proc_macro2::TokenTree::Ident(id) = &tokens[0] {
-                    let mut title = tokens[2].to_string(); // a literal String
-                    if title.starts_with('"') && title.ends_with('"') {
-                        title = title.replace('"', ""); // TODO: better string parsing?
+                    if let Some(title) = string_literal(&tokens[2]) {
                         Some((id.to_string(), Some(title)))
                     } else {
                         // requirement_covered!(IDENT,17)
@@ -274,6 +270,16 @@ fn location_from_span(path: &Path, span: &Span) -> Location {
     Location::new_with_line_and_column(path.to_path_buf(), start.line, start.column)
 }
 
+/// The text of a string literal, None for any other token
+fn string_literal(token: &proc_macro2::TokenTree) -> Option<String> {
+    if let proc_macro2::TokenTree::Literal(literal) = token {
+        if let syn::Lit::Str(string) = syn::Lit::new(literal.clone()) {
+            return Some(string.value());
+        }
+    }
+    None
+}
+
 #[cfg(test)]
 mod test {
     use std::io::BufReader;
-- 
2.43.0

